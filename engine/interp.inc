  // ------------------------------------------------------------ interpreter (included inside struct Exec)
  Val opv(const Frame &f, int i) { return i >= 0 ? f.r[i] : M.consts[-i - 1]; }
  void pushFrame(Func *f, const std::vector<Val> &args, int retDst, int retBlock) {
    if (fr.size() > 400) bug("stack", "recursion too deep");
    fr.emplace_back(); Frame &n = fr.back(); n.f = f; n.r.resize(f->nslots); n.retDst = retDst; n.retBlock = retBlock; st.funcs.insert(f->id);
    for (int i = 0; i < f->nargs && i < (int)args.size(); i++) n.r[i] = args[i];
    for (size_t i = f->nargs; i < args.size(); i++) n.varargs.push_back(args[i]);
    for (int i = 0; i < f->nargs; i++) if (f->byval[i]) { int o = newObj(K_STACK, f->byval[i]); Frame &m = fr.back(); m.allocas.push_back(o); copyMem(Val::P(o, 0), m.r[i], Val::I(f->byval[i], 64), false); fr.back().r[i] = Val::P(o, 0); }
  }
  void popFrame(const Val &rv) {
    Frame &f = fr.back(); for (int o : f.allocas) { objs[o].alive = false; objs[o].cells.clear(); }
    int dst = f.retDst, rb = f.retBlock; fr.pop_back(); if (fr.empty()) return; Frame &c = fr.back(); if (dst >= 0) c.r[dst] = rv; if (rb >= 0) enter(c, rb);
  }
  void enter(Frame &f, int b) {
    Block &B = f.f->blocks[b]; int p = f.bb; f.prev = p;
    if (!B.phis.empty()) { std::vector<Val> t(B.phis.size()); for (size_t i = 0; i < t.size(); i++) { bool ok = false; for (auto &in : B.phis[i].in) if (in.first == p) { t[i] = opv(f, in.second); ok = true; break; } if (!ok) throw Unsupported("phi"); } for (size_t i = 0; i < t.size(); i++) f.r[B.phis[i].dst] = t[i]; }
    f.bb = b; f.ip = 0;
  }
  // run until frames drop to `depth`-1 (return from frame `depth`), or, with stopBlock>=0, until frame `depth` is about to enter stopBlock
  void run(size_t depth, int stopBlock) {
    while (fr.size() >= depth) {
      Frame &f = fr.back(); Block &B = f.f->blocks[f.bb]; Inst &I = B.insts[f.ip++];
      if (++ninst > S.cfg.maxInst) bug("hang", "instruction budget exhausted (no termination)");
      if (inMerge && mergeBudget-- == 0) throw MergeAbort();
      if ((ninst & 0xfffff) == 0 && (S.q->stop || now() - S.t0 > S.cfg.timeout)) throw PathEnd{2};
      switch (I.op) {
        case Instruction::Br: {
          int t;
          if (I.ops.empty()) t = I.tgt[0];
          else { Val c = opv(f, I.ops[0]); if (c.k == V_UNDEF) bug("uninit", "branch depends on an uninitialised value");
            if (c.k == V_I) t = I.tgt[c.u ? 0 : 1];
            else { E ce = asE(c); if (ce->op == O_CONST) t = I.tgt[ce->c ? 0 : 1]; else if (I.tgt[0] == I.tgt[1]) t = I.tgt[0]; else { if (tryMerge(I, ce, depth, stopBlock)) { if (stopReached) { stopReached = false; return; } break; } bool d = decide(ce); t = I.tgt[d ? 0 : 1]; } } }
          Frame &g = fr.back(); if (fr.size() == depth && t == stopBlock) { g.prev = g.bb; return; } enter(g, t); break; }
        case Instruction::Switch: {
          Val c = opv(f, I.ops[0]); if (c.k == V_UNDEF) bug("uninit", "switch on an uninitialised value"); int t = I.tgt[0];
          if (c.k == V_I) { for (size_t i = 0; i < I.cases.size(); i++) if (maskw(c.w) & I.cases[i] ? I.cases[i] == c.u : I.cases[i] == c.u) { t = I.tgt[i + 1]; break; } }
          else { E e = asE(c); for (size_t i = 0; i < I.cases.size(); i++) if (decide(x.bin(O_EQ, e, x.cst(I.cases[i], e->w)))) { t = I.tgt[i + 1]; break; } }
          if (fr.size() == depth && t == stopBlock) { f.prev = f.bb; return; } enter(fr.back(), t); break; }
        case Instruction::Ret: { Val v; if (!I.ops.empty()) v = opv(f, I.ops[0]); popFrame(v); break; }
        case Instruction::Unreachable: bug("unreachable", "unreachable code executed");
        case Instruction::Call: case Instruction::Invoke: doCall(I); break;
        case Instruction::Resume: case Instruction::LandingPad: throw Unsupported("exception handling");
        case Instruction::Load: { Val v = load(opv(f, I.ops[0]), I.ty); fr.back().r[I.dst] = v; break; }
        case Instruction::Store: store(opv(f, I.ops[1]), opv(f, I.ops[0]), I.ty2); break;
        case Instruction::Alloca: { Val n = opv(f, I.ops[0]); uint64_t c = n.k == V_I ? n.u : n.k == V_UNDEF ? (bug("uninit", "array size uninitialised"), 0) : concretize(asE(n)); if (c > (1u << 26)) bug("alloc", "huge stack array"); int o = newObj(K_STACK, c * I.aux); Frame &g = fr.back(); g.allocas.push_back(o); g.r[I.dst] = Val::P(o, 0); break; }
        case Instruction::GetElementPtr: {
          Val p = opv(f, I.ops[0]); int64_t off = I.off; E dyn = nullptr; bool un = p.k == V_UNDEF;
          for (auto &s : I.scaled) { Val ix = opv(f, s.first); if (ix.k == V_I) off += sx(ix.u, ix.w) * s.second; else if (ix.k == V_UNDEF) un = true; else { E e = asE(ix); e = x.bin(O_MUL, x.sext(e, 64), x.cst(s.second, 64)); dyn = dyn ? x.bin(O_ADD, dyn, e) : e; } }
          if (un) { f.r[I.dst] = Val(); break; }
          Val r = gepOff(p, off); if (dyn) r = gepE(r, dyn); f.r[I.dst] = r; break; }
        case Instruction::ExtractValue: { Val a = opv(f, I.ops[0]); for (unsigned i : I.idx) a = a.k == V_AGG ? a.g->v[i] : Val(); f.r[I.dst] = a; break; }
        case Instruction::InsertValue: { f.r[I.dst] = insertVal(opv(f, I.ops[0]), opv(f, I.ops[1]), I.idx, 0, I.ty.t); break; }
        case Instruction::Select: {
          Val c = opv(f, I.ops[0]), a = opv(f, I.ops[1]), b = opv(f, I.ops[2]), r; if (c.k == V_UNDEF) { f.r[I.dst] = Val(); break; }
          if (c.k == V_I) r = c.u ? a : b;
          else { E ce = asE(c); if (!iteVal(ce, a, b, r)) { if (inMerge) throw MergeAbort(); bool d = decide(ce); r = d ? a : b; } }
          fr.back().r[I.dst] = r; break; }
        case Instruction::Freeze: { Val v = opv(f, I.ops[0]); if (v.k == V_UNDEF) v = I.ty.k == T_FLOAT ? Val::F(0, I.ty.w) : Val::I(0, I.ty.w); f.r[I.dst] = v; break; }
        case Instruction::ICmp: f.r[I.dst] = icmp(I.pred, opv(f, I.ops[0]), opv(f, I.ops[1])); break;
        case Instruction::FCmp: { Val v = fcmpv(I.pred, opv(f, I.ops[0]), opv(f, I.ops[1])); f.r[I.dst] = v; break; }
        case Instruction::FNeg: f.r[I.dst] = fneg(opv(f, I.ops[0])); break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: f.r[I.dst] = fbinv(I.op, opv(f, I.ops[0]), opv(f, I.ops[1]), I.ty.w); break;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
          f.r[I.dst] = castv(I, opv(f, I.ops[0])); break;
        default:
          if (I.op >= Instruction::Add && I.op <= Instruction::Xor) { f.r[I.dst] = ibin(I.op, opv(f, I.ops[0]), opv(f, I.ops[1])); break; }
          throw Unsupported(std::string("instruction ") + Instruction::getOpcodeName(I.op));
      }
    }
  }
  bool stopReached = false, pend = false; std::vector<Val> pendPhi;
  Val insertVal(const Val &agg, const Val &v, const std::vector<unsigned> &idx, size_t k, llvm::Type *t) {
    if (k == idx.size()) return v; Agg *g = new Agg; aggHold.emplace_back(g); unsigned n = Mod::nElems(t); if (agg.k == V_AGG) g->v = agg.g->v; else g->v.resize(n); g->v[idx[k]] = insertVal(g->v[idx[k]], v, idx, k + 1, Mod::elemTy(t, idx[k])); Val r; r.k = V_AGG; r.g = g; return r; }
  // returns true if the branch was merged and execution continues after the join
  bool hasFloatCond(E e, int d = 0) { if (!e || d > 12) return false; switch (e->op) { case O_RLT: case O_RLE: case O_REQ: case O_FEQ: case O_FLT: case O_FLE: return true; case O_CONST: case O_VAR: return false; default: return hasFloatCond(e->a, d + 1) || hasFloatCond(e->b, d + 1) || hasFloatCond(e->d, d + 1); } }
  bool tryMerge(Inst &I, E c, size_t depth, int stopBlock) {
    if (!merge) return false; if (merge == 1 && !hasFloatCond(c)) return false;
    for (E m : mconds) if (m == c || m == x.Not(c)) return false;
    if (!inMerge) for (size_t i = pc.size(); i-- > 0 && pc.size() - i < 40;) if (pc[i] == c || pc[i] == x.Not(c)) return false;
    size_t fi = fr.size() - 1; int join = fr[fi].f->blocks[fr[fi].bb].ipdom; if (join < 0) return false;
    if (mergeFail[&I] >= 3) { if (inMerge) throw MergeAbort(); return false; }
    if (inMerge > 24) throw MergeAbort();
    Frame save = fr[fi]; size_t nobj = objs.size(), nob = obs.size(), u0 = undo.size(), nm = mconds.size(), npc = pc.size(); int im = inMerge; if (!inMerge) mergeBudget = 200000;
    size_t nfr = fr.size(); std::map<std::pair<int, uint64_t>, Cell> wA; int predA = -1, predB = -1; std::vector<Val> phA;
    auto rollback = [&]() { while (undo.size() > u0) { auto &u = undo.back(); Obj &o = objs[u.o]; if (o.sparse) o.sp[u.off] = u.c; else o.cells[u.off] = u.c; undo.pop_back(); } };
    auto side = [&](E cond, int tgt, int &pred) { mconds.push_back(cond); if (tgt == join) { pred = fr[fi].bb; } else { enter(fr[fi], tgt); run(nfr, join); if (fr.size() != nfr) throw MergeAbort(); pred = fr[fi].bb; } mconds.pop_back(); };
    auto &J = save.f->blocks[join];
    auto phis = [&](int pred) { std::vector<Val> r; if (pend) { pend = false; return pendPhi; } for (auto &p : J.phis) { bool ok = false; for (auto &in : p.in) if (in.first == pred) { r.push_back(opv(fr[fi], in.second)); ok = true; break; } if (!ok) throw MergeAbort(); } return r; };
    inMerge++;
    auto fail = [&]() { rollback(); fr.resize(nfr); fr[fi] = save; mconds.resize(nm); inMerge = im; obs.resize(nob); pc.resize(npc); (void)nobj; stopReached = false; pend = false; mergeFail[&I]++; };
    try {
      side(c, I.tgt[0], predA); phA = phis(predA);
      for (size_t i = u0; i < undo.size(); i++) { auto k = std::make_pair(undo[i].o, undo[i].off); wA[k] = getCell(objs[undo[i].o], undo[i].off); }
      rollback(); fr[fi] = save;
      side(x.Not(c), I.tgt[1], predB); std::vector<Val> phB = phis(predB);
      std::map<std::pair<int, uint64_t>, std::pair<Cell, Cell>> all; for (auto &w : wA) all[w.first] = {w.second, getCell(objs[w.first.first], w.first.second)};
      for (size_t i = u0; i < undo.size(); i++) { auto k = std::make_pair(undo[i].o, undo[i].off); Cell now_ = getCell(objs[k.first], k.second); auto it = all.find(k); if (it == all.end()) { all[k] = {Cell(), now_}; } else it->second.second = now_; }
      rollback(); fr[fi] = save;
      for (auto &a : all) if (!wA.count(a.first)) a.second.first = getCell(objs[a.first.first], a.first.second);
      inMerge = im; // merged writes below go to the enclosing region
      std::vector<std::pair<std::pair<int, uint64_t>, Val>> ws; std::vector<unsigned> wn;
      for (auto it = all.begin(); it != all.end();) {
        int oid = it->first.first; uint64_t off = it->first.second; unsigned n = 1; Cell ca = it->second.first, cb = it->second.second;
        if (ca.vi == cb.vi && ca.bi == cb.bi) { ++it; continue; }
        auto jt = std::next(it); unsigned want = 1; if (ca.vi && ca.bi == 0) { const Val &v = vals[ca.vi]; want = v.k == V_P || v.k == V_SP || v.k == V_SEL ? 8 : v.w == 80 ? 10 : std::max(1, v.w / 8); }
        while (n < want && jt != all.end() && jt->first.first == oid && jt->first.second == off + n && jt->second.first.vi == ca.vi && jt->second.first.bi == n && jt->second.second.vi == cb.vi && jt->second.second.bi == n) { n++; ++jt; }
        Val va, vb, r; if (n == want && cb.vi && cb.bi == 0) { va = vals[ca.vi]; vb = vals[cb.vi]; if (va.w != vb.w && !(ptrLike(va) && ptrLike(vb))) throw MergeAbort(); } else { n = 1; jt = std::next(it); va = byteOf(ca); vb = byteOf(cb); }
        if (!iteVal(c, va, vb, r)) throw MergeAbort();
        ws.push_back({{oid, off}, r}); wn.push_back(n); it = jt;
      }
      std::vector<Val> ph(J.phis.size()); for (size_t i = 0; i < ph.size(); i++) if (!iteVal(c, phA[i], phB[i], ph[i])) { if (phA[i].k == V_UNDEF || phB[i].k == V_UNDEF) ph[i] = Val(); else throw MergeAbort(); }
      for (size_t i = 0; i < ws.size(); i++) storeAt(ws[i].first.first, ws[i].first.second, ws[i].second, wn[i]);
      st.merges++;
      if (nfr == depth && join == stopBlock) { // joined exactly at the enclosing stop block: record values for the enclosing phi evaluation
        pend = true; pendPhi = ph; stopReached = true; fr[fi].prev = fr[fi].bb; return true; }
      for (size_t i = 0; i < ph.size(); i++) fr[fi].r[J.phis[i].dst] = ph[i];
      fr[fi].prev = fr[fi].bb; fr[fi].bb = join; fr[fi].ip = 0; return true;
    } catch (MergeAbort &) { fail(); } catch (BugFound &) { fail(); } catch (Unsupported &) { fail(); } catch (PathEnd &e) { if (e.code == 2) throw; fail(); }
    if (inMerge) throw MergeAbort();
    return false;
  }
  // ------------------------------------------------------------ integer ops
  Val shiftBytes(const Val &v, unsigned lo, unsigned w) { Agg *g = new Agg; aggHold.emplace_back(g); for (unsigned i = 0; i < w / 8; i++) { g->v.push_back(v.g->v[lo / 8 + i]); g->bi.push_back(v.g->bi[lo / 8 + i]); }
    bool whole = g->v.size() && g->bi[0] == 0; for (size_t i = 1; i < g->v.size() && whole; i++) whole = sameVal(g->v[i], g->v[0]) && g->bi[i] == i; Val r; if (whole && g->v[0].w == w) { Val q = g->v[0]; if (q.k == V_UNDEF) { q = Val(); q.w = w; return q; } if (q.k == V_I || q.k == V_E) return q; if (q.k == V_F && w == q.w) return Val::I(d2bits(q.d, q.w), w); }
    r.k = V_BYTES; r.w = w; r.g = g; return r; }
  Val ibin(unsigned op, const Val &a, const Val &b) {
    static const Op mp[] = {O_ADD, O_ADD, O_SUB, O_SUB, O_MUL, O_MUL, O_UDIV, O_SDIV, O_FDIV, O_UREM, O_SREM, O_FREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR};
    Op o = mp[op - Instruction::Add];
    if (a.k == V_UNDEF || b.k == V_UNDEF) { if (o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM) bug("uninit", "division by uninitialised value"); Val r; r.w = a.k == V_UNDEF ? b.w : a.w; return r; }
    if (a.k == V_I && b.k == V_I && a.w <= 64) {
      if ((o >= O_UDIV && o <= O_SREM)) { if (b.u == 0) bug("divzero", "integer division by zero"); bool ok; uint64_t r = Ctx::fold(o, a.u, b.u, a.w, ok); if (!ok) bug("divzero", "integer division overflow"); return Val::I(r, a.w); }
      bool ok; return Val::I(Ctx::fold(o, a.u, b.u, a.w, ok), a.w); }
    if (a.k == V_BYTES && o == O_LSHR && b.k == V_I && b.u % 8 == 0) { Val s = shiftBytes(a, b.u, a.w - b.u); if (s.k == V_I) return Val::I(s.u, a.w); Agg *g = new Agg; aggHold.emplace_back(g); unsigned nb = (a.w - b.u) / 8; for (unsigned i = 0; i < nb; i++) { g->v.push_back(a.g->v[b.u / 8 + i]); g->bi.push_back(a.g->bi[b.u / 8 + i]); } for (unsigned i = nb; i < (unsigned)a.w / 8; i++) { g->v.push_back(Val::I(0, 8)); g->bi.push_back(0); } Val r; r.k = V_BYTES; r.w = a.w; r.g = g; return r; }
    if (a.k == V_BYTES || b.k == V_BYTES) { // try bitwise on raw bytes
      return Val::Ex(x.bin(o, bytesE(a), bytesE(b))); }
    E ea = asE(a), eb = asE(b);
    if (o >= O_UDIV && o <= O_SREM) { if (eb->op == O_CONST && eb->c == 0) bug("divzero", "integer division by zero"); if (eb->op != O_CONST) { E nz = x.Not(x.bin(O_EQ, eb, x.cst(0, eb->w))); require(nz, "divzero", "integer division by zero"); } }
    return Val::Ex(x.bin(o, ea, eb));
  }
  E bytesE(const Val &v) { if (v.k != V_BYTES) return asE(v); E e = nullptr; for (size_t i = 0; i < v.g->v.size(); i++) { const Val &b = v.g->v[i]; E be; if (b.k == V_R) throw Unsupported("bit operation on a real value"); if (b.k == V_UNDEF) bug("uninit", "use of uninitialised bytes"); E w = asE(b); be = w->w <= 8 ? w : x.extract(w, 8 * v.g->bi[i], 8); e = e ? x.concat(be, e) : be; } return e; }
  Val icmp(unsigned p, const Val &a0, const Val &b0) {
    using C = llvm::CmpInst; Val a = a0, b = b0;
    if (a.k == V_UNDEF || b.k == V_UNDEF) { Val r; r.w = 1; return r; }
    if (a.k == V_SEL) return selCmp(a.s->c, icmp(p, a.s->a, b), icmp(p, a.s->b, b)); if (b.k == V_SEL) return selCmp(b.s->c, icmp(p, a, b.s->a), icmp(p, a, b.s->b));
    if (a.k == V_BYTES) a = Val::Ex(bytesE(a)); if (b.k == V_BYTES) b = Val::Ex(bytesE(b));
    if (ptrLike(a) && ptrLike(b) && a.obj != b.obj && (p == C::ICMP_EQ || p == C::ICMP_NE)) return Val::I(p == C::ICMP_NE, 1);
    if (ptrLike(a) && ptrLike(b) && a.obj == b.obj && (a.k == V_SP || b.k == V_SP)) { E ea = a.k == V_P ? x.cst(a.u, 64) : a.e, eb = b.k == V_P ? x.cst(b.u, 64) : b.e; return cmpE(p, ea, eb); }
    if (a.k == V_P) a = Val::I(((uint64_t)a.obj << 32) + a.u, 64); if (b.k == V_P) b = Val::I(((uint64_t)b.obj << 32) + b.u, 64);
    if (a.k == V_I && b.k == V_I) { unsigned w = a.w; uint64_t u = a.u, v = b.u; int64_t s = sx(u, w), t = sx(v, w); bool r = false; switch (p) { case C::ICMP_EQ: r = u == v; break; case C::ICMP_NE: r = u != v; break; case C::ICMP_UGT: r = u > v; break; case C::ICMP_UGE: r = u >= v; break; case C::ICMP_ULT: r = u < v; break; case C::ICMP_ULE: r = u <= v; break; case C::ICMP_SGT: r = s > t; break; case C::ICMP_SGE: r = s >= t; break; case C::ICMP_SLT: r = s < t; break; case C::ICMP_SLE: r = s <= t; break; } return Val::I(r, 1); }
    return cmpE(p, asE(a), asE(b));
  }
  Val selCmp(E c, const Val &a, const Val &b) { if (a.k == V_UNDEF || b.k == V_UNDEF) return Val(); return Val::Ex(x.ite(c, asE(a), asE(b))); }
  Val cmpE(unsigned p, E a, E b) { using C = llvm::CmpInst; switch (p) { case C::ICMP_EQ: return Val::Ex(x.bin(O_EQ, a, b)); case C::ICMP_NE: return Val::Ex(x.Not(x.bin(O_EQ, a, b))); case C::ICMP_UGT: return Val::Ex(x.bin(O_ULT, b, a)); case C::ICMP_UGE: return Val::Ex(x.bin(O_ULE, b, a)); case C::ICMP_ULT: return Val::Ex(x.bin(O_ULT, a, b)); case C::ICMP_ULE: return Val::Ex(x.bin(O_ULE, a, b)); case C::ICMP_SGT: return Val::Ex(x.bin(O_SLT, b, a)); case C::ICMP_SGE: return Val::Ex(x.bin(O_SLE, b, a)); case C::ICMP_SLT: return Val::Ex(x.bin(O_SLT, a, b)); default: return Val::Ex(x.bin(O_SLE, a, b)); } }
  // ------------------------------------------------------------ floats
  Val fcmpv(unsigned p, const Val &a, const Val &b) {
    using C = llvm::CmpInst; if (p == C::FCMP_FALSE) return Val::I(0, 1); if (p == C::FCMP_TRUE) return Val::I(1, 1);
    if (a.k == V_UNDEF || b.k == V_UNDEF) { Val r; r.w = 1; return r; }
    if (a.k == V_F && b.k == V_F) { double u = a.d, v = b.d; bool un = std::isnan(u) || std::isnan(v), r = false; switch (p) { case C::FCMP_OEQ: r = u == v; break; case C::FCMP_OGT: r = u > v; break; case C::FCMP_OGE: r = u >= v; break; case C::FCMP_OLT: r = u < v; break; case C::FCMP_OLE: r = u <= v; break; case C::FCMP_ONE: r = !un && u != v; break; case C::FCMP_ORD: r = !un; break; case C::FCMP_UNO: r = un; break; case C::FCMP_UEQ: r = un || u == v; break; case C::FCMP_UGT: r = un || u > v; break; case C::FCMP_UGE: r = un || u >= v; break; case C::FCMP_ULT: r = un || u < v; break; case C::FCMP_ULE: r = un || u <= v; break; case C::FCMP_UNE: r = !(u == v); break; } return Val::I(r, 1); }
    if (a.k == V_R || b.k == V_R || mode == 1) {
      for (int s = 0; s < 2; s++) { const Val &k = s ? a : b; if (k.k == V_F && std::isinf(k.d)) { bool kpos = k.d > 0; bool lt = s ? !kpos : kpos; /* a<b ? */ switch (p) { case C::FCMP_OEQ: case C::FCMP_UEQ: case C::FCMP_UNO: return Val::I(0, 1); case C::FCMP_ONE: case C::FCMP_UNE: case C::FCMP_ORD: return Val::I(1, 1); case C::FCMP_OGT: case C::FCMP_OGE: case C::FCMP_UGT: case C::FCMP_UGE: return Val::I(!lt, 1); default: return Val::I(lt, 1); } } if (k.k == V_F && std::isnan(k.d)) return Val::I(p >= 8, 1); }
      PP u = asP(a), v = asP(b);
      switch (p) { case C::FCMP_OEQ: case C::FCMP_UEQ: return Val::Ex(x.rcmp(O_REQ, u, v)); case C::FCMP_ONE: case C::FCMP_UNE: return Val::Ex(x.Not(x.rcmp(O_REQ, u, v))); case C::FCMP_OGT: case C::FCMP_UGT: return Val::Ex(x.rcmp(O_RLT, v, u)); case C::FCMP_OGE: case C::FCMP_UGE: return Val::Ex(x.rcmp(O_RLE, v, u)); case C::FCMP_OLT: case C::FCMP_ULT: return Val::Ex(x.rcmp(O_RLT, u, v)); case C::FCMP_OLE: case C::FCMP_ULE: return Val::Ex(x.rcmp(O_RLE, u, v)); case C::FCMP_ORD: return Val::I(1, 1); default: return Val::I(0, 1); } }
    E u = asE(a), v = asE(b); E r;
    switch (p) { case C::FCMP_OEQ: r = x.fcmp(O_FEQ, u, v); break; case C::FCMP_OGT: r = x.fcmp(O_FLT, v, u); break; case C::FCMP_OGE: r = x.fcmp(O_FLE, v, u); break; case C::FCMP_OLT: r = x.fcmp(O_FLT, u, v); break; case C::FCMP_OLE: r = x.fcmp(O_FLE, u, v); break;
      case C::FCMP_ONE: r = x.Or(x.fcmp(O_FLT, u, v), x.fcmp(O_FLT, v, u)); break; case C::FCMP_ORD: r = x.And(x.Not(x.fisnan(u)), x.Not(x.fisnan(v))); break; case C::FCMP_UNO: r = x.Or(x.fisnan(u), x.fisnan(v)); break;
      case C::FCMP_UEQ: r = x.Not(x.Or(x.fcmp(O_FLT, u, v), x.fcmp(O_FLT, v, u))); break; case C::FCMP_UGT: r = x.Not(x.fcmp(O_FLE, u, v)); break; case C::FCMP_UGE: r = x.Not(x.fcmp(O_FLT, u, v)); break; case C::FCMP_ULT: r = x.Not(x.fcmp(O_FLE, v, u)); break; case C::FCMP_ULE: r = x.Not(x.fcmp(O_FLT, v, u)); break; default: r = x.Not(x.fcmp(O_FEQ, u, v)); }
    return Val::Ex(r);
  }
  Val fneg(const Val &a) { if (a.k == V_UNDEF) return a; if (a.k == V_F) return Val::F(-a.d, a.w); if (a.k == V_R) return Val::R(x.scaleP(a.p, -1), a.w); return fromFE(x.fneg(asE(a)), a.w); }
  Val fbinv(unsigned op, const Val &a, const Val &b, unsigned w) {
    if (a.k == V_UNDEF || b.k == V_UNDEF) { Val r; r.w = w; return r; }
    if (a.k == V_F && b.k == V_F) {
      double u = a.d, v = b.d, r;
      if (w == 32 && mode == 0) { float s = (float)u, t = (float)v, q; switch (op) { case Instruction::FAdd: q = s + t; break; case Instruction::FSub: q = s - t; break; case Instruction::FMul: q = s * t; break; case Instruction::FDiv: q = s / t; break; default: q = fmodf(s, t); } r = q; }
      else switch (op) { case Instruction::FAdd: r = u + v; break; case Instruction::FSub: r = u - v; break; case Instruction::FMul: r = u * v; break; case Instruction::FDiv: r = u / v; break; default: r = fmod(u, v); }
      return Val::F(r, w); }
    if (a.k == V_R || b.k == V_R || mode == 1) {
      PP u = asP(a), v = asP(b);
      switch (op) { case Instruction::FAdd: return Val::R(x.addP(u, v), w); case Instruction::FSub: return Val::R(x.addP(u, v, -1), w); case Instruction::FMul: return Val::R(x.mulP(u, v), w); case Instruction::FDiv: if (Ctx::isConst(v) && Ctx::constVal(v) == 0) { bug("fdivzero", "floating-point division by zero"); } return Val::R(x.divP(u, v), w); default: throw Unsupported("frem in real mode"); } }
    static const std::map<unsigned, Op> mp = {{Instruction::FAdd, O_FADD}, {Instruction::FSub, O_FSUB}, {Instruction::FMul, O_FMUL}, {Instruction::FDiv, O_FDIV}, {Instruction::FRem, O_FREM}};
    return fromFE(x.fbin(mp.at(op), asE(a), asE(b)), w);
  }
  Val castv(Inst &I, const Val &v0) {
    Val v = v0; unsigned w = I.ty.w; if (v.k == V_UNDEF) { Val r; r.w = w; return r; }
    switch (I.op) {
      case Instruction::Trunc: if (v.k == V_I) return Val::I(v.u, w); if (v.k == V_BYTES) { if (w % 8 == 0) return shiftBytes(v, 0, w); return Val::Ex(x.extract(bytesE(v), 0, w)); } return Val::Ex(x.extract(asE(v), 0, w));
      case Instruction::ZExt: if (w > 64) { if (v.k == V_I) { Val r = v; r.w = 128; return r; } throw Unsupported("128-bit"); } if (v.k == V_I) return Val::I(v.u, w); if (v.k == V_BYTES) { Agg *g = new Agg(*v.g); aggHold.emplace_back(g); while (g->v.size() < w / 8) { g->v.push_back(Val::I(0, 8)); g->bi.push_back(0); } Val r; r.k = V_BYTES; r.w = w; r.g = g; return r; } return Val::Ex(x.zext(asE(v), w));
      case Instruction::SExt: if (v.k == V_I) return Val::I((uint64_t)sx(v.u, v.w), w); return Val::Ex(x.sext(v.k == V_BYTES ? bytesE(v) : asE(v), w));
      case Instruction::PtrToInt: if (v.k == V_P) return Val::I(((uint64_t)v.obj << 32) + v.u, w); if (v.k == V_I) return Val::I(v.u, w); return Val::Ex(w == 64 ? asE(v) : x.extract(asE(v), 0, w));
      case Instruction::IntToPtr: if (v.k == V_I) return Val::P(v.u >> 32, v.u & 0xffffffff); if (v.k == V_E && v.e->op == O_ADD && v.e->b->op == O_CONST && (v.e->b->c >> 32)) return Val::SP(v.e->b->c >> 32, x.bin(O_ADD, v.e->a, x.cst(v.e->b->c & 0xffffffff, 64))); return v;
      case Instruction::BitCast: if (I.ty.k == T_FLOAT) { if (v.k == V_I) return Val::F(bits2d(v.u, w), w); if (v.k == V_BYTES) { bool whole = v.g->bi[0] == 0; for (size_t i = 1; i < v.g->v.size() && whole; i++) whole = sameVal(v.g->v[i], v.g->v[0]) && v.g->bi[i] == i; if (whole && v.g->v[0].w == w) return v.g->v[0]; Val r; r.k = V_E; r.w = w; r.e = bytesE(v); return r; } if (v.k == V_E && v.e->op == O_R2F) return Val::R(v.e->p, w); return v; }
        if (I.ty.k == T_INT) { if (v.k == V_F) return Val::I(d2bits(v.d, v.w), w); if (v.k == V_R) return retype(v, I.ty); return v; } return v;
      case Instruction::FPTrunc: case Instruction::FPExt:
        if (v.k == V_F) { double d = v.d; if (w == 32 && mode == 0) d = (float)d; return Val::F(d, w); } if (v.k == V_R) return Val::R(v.p, w);
        if (mode == 1) return Val::R(asP(v), w);
        { unsigned tw = w == 80 ? 64 : w; E e = asE(v); if (e->w == tw) return fromFE(e, w); return fromFE(x.fconv(tw > e->w ? O_FEXT : O_FTRUNC, e, tw), w); }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        bool s = I.op == Instruction::FPToSI;
        if (v.k == V_F) { double lo = s ? -ldexp(1, w - 1) - 1 : -1, hi = s ? ldexp(1, w - 1) : ldexp(1, w); if (!(v.d > lo && v.d < hi)) { Val r; r.w = w; return r; } return Val::I(s ? (uint64_t)(int64_t)v.d : v.d < 9e18 ? (uint64_t)(int64_t)v.d : (uint64_t)v.d, w); }
        { double lo = s ? -ldexp(1, w - 1) - 1 : -1, hi = s ? ldexp(1, w - 1) : ldexp(1, w); const char *m = "float to integer conversion out of range"; if (v.k == V_R) { require(x.rcmp(O_RLT, x.constP(lo), v.p), "ub", m); require(x.rcmp(O_RLT, v.p, x.constP(hi)), "ub", m); } else { E e = asE(v); if (e->w == 64 || w < 20) { require(x.fcmp(O_FLT, x.cst(d2bits(lo, e->w), e->w), e), "ub", m); require(x.fcmp(O_FLT, e, x.cst(d2bits(hi, e->w), e->w)), "ub", m); } } }
        if (v.k == V_R) return Val::Ex(x.mk(s ? O_F2SI : O_F2UI, w, 0, nullptr, nullptr, nullptr, x.internP(v.p)));
        return Val::Ex(x.fconv(s ? O_FTOSI : O_FTOUI, asE(v), w)); }
      case Instruction::SIToFP: case Instruction::UIToFP: {
        bool s = I.op == Instruction::SIToFP;
        if (v.k == V_I) { double d = s ? (double)sx(v.u, v.w) : (double)v.u; if (w == 32 && mode == 0) d = s ? (double)(float)sx(v.u, v.w) : (double)(float)v.u; return Val::F(d, w); }
        E e = v.k == V_BYTES ? bytesE(v) : asE(v); if (mode == 1) return Val::R(x.i2r(e, s), w); return fromFE(x.fconv(s ? O_SITOF : O_UITOF, e, w == 80 ? 64 : w), w); }
    }
    throw Unsupported("cast");
  }
