  // ------------------------------------------------------------ calls, intrinsics, library models (included inside struct Exec)
  enum BI { B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DEL, B_DELARR, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_EXIT, B_ABORT, B_THROW, B_PURE, B_NOP, B_GUARD_ACQ, B_GUARD_NOP, B_F1, B_F2, B_OSTREAM, B_ALLOCEXC,
    V_U32, V_PICK, V_F32, V_F32X, V_ASSUME, V_ASSERT, V_EQ, V_EQT, V_BITEQ, V_MODE, V_MERGE, V_EXITPOL, V_REACH, V_LEAKMARK, V_LEAKCHK, V_SYM, V_FAIL, V_U64R, V_DONE, V_ISCONST, V_PTROK, V_LIVE, V_CONC, V_BLOCKID, V_TOKF, V_TOKB, V_REAL2, V_POISON, V_VALBITS, V_EXITPT, V_VA };
  static const std::unordered_map<std::string, int> &biTab() {
    static const std::unordered_map<std::string, int> t = {
      {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR},
      {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"_Exit", B_EXIT}, {"quick_exit", B_EXIT}, {"abort", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_THROW}, {"__clang_call_terminate", B_ABORT}, {"__assert_fail", B_ABORT}, {"__cxa_pure_virtual", B_ABORT}, {"__cxa_allocate_exception", B_ALLOCEXC}, {"__cxa_throw_bad_array_new_length", B_THROW}, {"__cxa_atexit", B_NOP}, {"atexit", B_NOP}, {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_NOP}, {"__cxa_guard_abort", B_GUARD_NOP},
      {"vp_u32", V_U32}, {"vp_pick", V_PICK}, {"vp_f32", V_F32}, {"vp_f32x", V_F32X}, {"vp_assume", V_ASSUME}, {"vp_assert", V_ASSERT}, {"vp_eq", V_EQ}, {"vp_eqt", V_EQT}, {"vp_biteq", V_BITEQ}, {"vp_mode", V_MODE}, {"vp_merge", V_MERGE}, {"vp_exit_policy", V_EXITPOL}, {"vp_reach", V_REACH}, {"vp_leak_mark", V_LEAKMARK}, {"vp_leak_check", V_LEAKCHK}, {"vp_symbolic", V_SYM}, {"vp_fail", V_FAIL}, {"vp_done", V_DONE}, {"vp_concrete", V_CONC}, {"vp_same_block", V_BLOCKID}, {"vp_tokf", V_TOKF}, {"vp_isconst", V_ISCONST}, {"vp_va_u64", V_VA}, {"vp_va_f64", V_VA}, {"vp_va_ptr", V_VA} };
    return t;
  }
  static int classify(const Func &F) {
    auto it = biTab().find(F.name); if (it != biTab().end()) return it->second;
    if (!F.decl) return B_NONE;
    static const char *f1[] = {"expf", "exp", "expl", "tanhf", "tanh", "tanhl", "sqrtf", "sqrt", "sqrtl", "fabsf", "fabs", "fabsl", "floorf", "floor", "ceilf", "ceil", "truncf", "trunc", "roundf", "round", "rintf", "rint", "nearbyintf", "nearbyint", "logf", "log", "sinf", "sin", "cosf", "cos", "exp2f", "exp2"};
    static const char *f2[] = {"powf", "pow", "powl", "fmaxf", "fmax", "fminf", "fmin", "fmodf", "fmod", "fmaxl", "fminl"};
    for (auto n : f1) if (F.name == n) return B_F1; for (auto n : f2) if (F.name == n) return B_F2;
    if (F.name.rfind("_ZSt", 0) == 0 && F.name.find("__throw_") != std::string::npos) return B_THROW;
    if (F.dem.find("ostream") != std::string::npos || F.name.rfind("_ZNSo", 0) == 0 || F.dem.find("std::setw") != std::string::npos || F.dem.find("std::ios") != std::string::npos) return B_OSTREAM;
    return B_NONE;
  }
  std::string cstr(const Val &p) { std::string s; if (p.k != V_P) throw Unsupported("symbolic string pointer"); for (uint64_t i = 0; i < 4096; i++) { Ty t; t.k = T_INT; t.w = 8; t.bytes = 1; Val b = load(gepOff(p, i), t); if (b.k == V_UNDEF) bug("uninit", "string reads uninitialised memory"); if (b.k != V_I) throw Unsupported("symbolic string"); if (!b.u) return s; s += (char)b.u; } return s; }
  std::string uname(const Val &p) { std::string n = cstr(p); int k = nameCnt[n]++; return k ? n + "~" + std::to_string(k) : n; }
  void doCall(Inst &I) {
    Frame &f = fr.back(); Func *F = I.callee; size_t a0 = 0;
    if (I.iid == -1) throw Unsupported("inline assembly");
    std::vector<Val> args; args.reserve(I.ops.size());
    if (!F) { Val p = opv(f, I.ops[0]); a0 = 1; if (p.k == V_SEL) p = decide(p.s->c) ? p.s->a : p.s->b; if (p.k == V_UNDEF) bug("uninit", "call through an uninitialised pointer"); if (p.k != V_P && p.k != V_I) throw Unsupported("symbolic call target"); if (p.k == V_I) p = Val::P(p.u >> 32, p.u & 0xffffffff); if (p.obj < M.firstFunc || p.obj >= M.firstGlob || p.u) bug("badcall", "call through an invalid function pointer"); F = M.funcs[p.obj - M.firstFunc].get(); }
    for (size_t i = a0; i < I.ops.size(); i++) args.push_back(opv(f, I.ops[i]));
    Val ret; int rb = I.tgt.empty() ? -1 : I.tgt[0];
    if (I.iid > 0) { ret = intrinsic(I, args); }
    else if (F->builtin != B_NONE) { ret = builtin(F, I, args); }
    else if (!F->decl) { pushFrame(F, args, I.dst, rb); return; }
    else throw Unsupported("external function " + F->name);
    Frame &g = fr.back(); if (I.dst >= 0) g.r[I.dst] = ret; if (rb >= 0) enter(g, rb);
  }
  uint64_t conc(const Val &v) { if (v.k == V_UNDEF) bug("uninit", "uninitialised argument"); if (v.k == V_I) return v.u; if (v.k == V_P) return ((uint64_t)v.obj << 32) + v.u; return concretize(asE(v)); }
  void doExit(const Val &code, const char *how) {
    if (inMerge) throw MergeAbort();
    if (exitPol == 0) bug("exit", std::string("the code terminated the process (") + how + ")");
    if (code.k == V_I) { if ((code.u & 0xff) == 0) bug("exit0", "the code terminated the process with status 0"); }
    else { E z = x.bin(O_EQ, x.extract(asE(code), 0, 8), x.cst(0, 8)); require(x.Not(z), "exit0", "process may terminate with status 0"); }
    st.reach["exit"]++; throw PathEnd{0};
  }
  Val f1(const std::string &n0, const Val &a) {
    std::string n = n0; if (n.size() > 2 && (n.back() == 'f' || n.back() == 'l') && n != "ceil") n.pop_back();
    unsigned w = a.w; if (a.k == V_UNDEF) return a;
    if (n == "rint" || n == "nearbyint") n = "rint";
    if (a.k == V_F && !(mode == 1 && false)) { double d = a.d, r; bool f = w == 32 && mode == 0; if (n == "exp") r = f ? expf(d) : exp(d); else if (n == "exp2") r = exp2(d); else if (n == "tanh") r = f ? tanhf(d) : tanh(d); else if (n == "sqrt") r = f ? sqrtf(d) : sqrt(d); else if (n == "fabs") r = fabs(d); else if (n == "floor") r = floor(d); else if (n == "ceil") r = ceil(d); else if (n == "trunc") r = trunc(d); else if (n == "round") r = round(d); else if (n == "rint") r = rint(d); else if (n == "log") r = log(d); else if (n == "sin") r = sin(d); else if (n == "cos") r = cos(d); else throw Unsupported("math " + n); if (w == 32 && mode == 0) r = (float)r; return Val::F(r, w); }
    if (a.k == V_R || mode == 1) { PP p = asP(a);
      if (n == "exp") return Val::R(x.expP(p), w); if (n == "exp2") return Val::R(x.expP(x.scaleP(p, M_LN2)), w); if (n == "tanh") return Val::R(x.tanhP(p), w); if (n == "sqrt") return Val::R(x.powC(p, 0.5), w);
      if (n == "fabs") return Val::R(x.maxP(p, x.scaleP(p, -1)), w);
      return Val::R(x.ufP(n, p), w); }
    E e = asE(a);
    if (n == "fabs") return fromFE(x.fabsE(e), w); if (n == "sqrt") return fromFE(x.mk(O_FSQRT, e->w, 0, e), w);
    if (n == "floor" || n == "ceil" || n == "trunc" || n == "rint" || n == "round") return fromFE(x.mk(O_FRND, e->w, n == "floor" ? 0 : n == "ceil" ? 1 : n == "trunc" ? 2 : n == "rint" ? 3 : 4, e), w);
    if (n == "exp" || n == "tanh" || n == "log") return fromFE(x.uf(n + (w == 80 || (n0.back() == 'l' && n0 != "ceil") ? "l" : ""), e, e->w), w);
    throw Unsupported("math function " + n0 + " on exact floats");
  }
  Val f2(const std::string &n0, const Val &a, const Val &b) {
    std::string n = n0; if (n.back() == 'f' || n.back() == 'l') n.pop_back(); unsigned w = a.w;
    if (a.k == V_UNDEF || b.k == V_UNDEF) { Val r; r.w = w; return r; }
    if (a.k == V_F && b.k == V_F) { double u = a.d, v = b.d, r; if (n == "pow") r = w == 32 && mode == 0 ? powf(u, v) : pow(u, v); else if (n == "fmax") r = fmax(u, v); else if (n == "fmin") r = fmin(u, v); else r = fmod(u, v); if (w == 32 && mode == 0) r = (float)r; return Val::F(r, w); }
    if (a.k == V_R || b.k == V_R || mode == 1) {
      if (n == "pow") return Val::R(x.powS(asP(a), asP(b)), w);
      if (n == "fmax" || n == "fmin") { bool mx = n == "fmax"; for (int s = 0; s < 2; s++) { const Val &k = s ? a : b, &o = s ? b : a; if (k.k == V_F && std::isinf(k.d)) return (k.d > 0) == mx ? k : o; } if (mx) return Val::R(x.maxP(asP(a), asP(b)), w); return Val::R(x.scaleP(x.maxP(x.scaleP(asP(a), -1), x.scaleP(asP(b), -1)), -1), w); }
      throw Unsupported("fmod"); }
    E u = asE(a), v = asE(b);
    if (n == "fmax" || n == "fmin") { E lt = n == "fmax" ? x.fcmp(O_FLT, u, v) : x.fcmp(O_FLT, v, u); E r = x.ite(x.fisnan(u), v, x.ite(x.fisnan(v), u, x.ite(lt, v, u))); return fromFE(r, w); }
    if (n == "pow" && b.k == V_F && b.d == 2) return fromFE(x.fbin(O_FMUL, u, u), w);
    if (n == "pow" && b.k == V_F && b.d == 1) return a;
    throw Unsupported("math function " + n0 + " on exact floats");
  }
  Val intrinsic(Inst &I, std::vector<Val> &a) {
    using namespace llvm; auto un = [&](size_t k) { for (size_t i = 0; i < k; i++) if (a[i].k == V_UNDEF) return true; return false; }; unsigned w = I.ty.w; Val U; U.w = w;
    auto cmpi = [&](unsigned p) { Val c = icmp(p, a[0], a[1]); if (c.k == V_I) return c.u ? a[0] : a[1]; return Val::Ex(x.ite(asE(c), asE(a[0]), asE(a[1]))); };
    switch (I.iid) {
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: copyMem(a[0], a[1], a[2], false); return Val(); case Intrinsic::memmove: copyMem(a[0], a[1], a[2], true); return Val(); case Intrinsic::memset: setMem(a[0], a[1], a[2]); return Val();
      case Intrinsic::umin: return un(2) ? U : cmpi(CmpInst::ICMP_ULE); case Intrinsic::umax: return un(2) ? U : cmpi(CmpInst::ICMP_UGE); case Intrinsic::smin: return un(2) ? U : cmpi(CmpInst::ICMP_SLE); case Intrinsic::smax: return un(2) ? U : cmpi(CmpInst::ICMP_SGE);
      case Intrinsic::abs: { if (un(1)) return U; if (a[0].k == V_I) { int64_t s = sx(a[0].u, w); return Val::I(s < 0 ? -s : s, w); } E e = asE(a[0]); return Val::Ex(x.ite(x.bin(O_SLT, e, x.cst(0, w)), x.bin(O_SUB, x.cst(0, w), e), e)); }
      case Intrinsic::fabs: return f1("fabs", a[0]); case Intrinsic::sqrt: return f1("sqrt", a[0]); case Intrinsic::floor: return f1("floor", a[0]); case Intrinsic::ceil: return f1("ceil", a[0]); case Intrinsic::trunc: return f1("trunc", a[0]); case Intrinsic::rint: case Intrinsic::nearbyint: return f1("rint", a[0]); case Intrinsic::round: return f1("round", a[0]); case Intrinsic::exp: return f1("exp", a[0]); case Intrinsic::exp2: return f1("exp2", a[0]); case Intrinsic::log: return f1("log", a[0]);
      case Intrinsic::pow: return f2("pow", a[0], a[1]); case Intrinsic::powi: { if (un(2)) return U; Val e = castInt2F(a[1], w); return f2("pow", a[0], e); }
      case Intrinsic::maxnum: case Intrinsic::maximum: return f2("fmax", a[0], a[1]); case Intrinsic::minnum: case Intrinsic::minimum: return f2("fmin", a[0], a[1]);
      case Intrinsic::fma: case Intrinsic::fmuladd: { Val m = fbinv(Instruction::FMul, a[0], a[1], w); return fbinv(Instruction::FAdd, m, a[2], w); }
      case Intrinsic::copysign: { if (un(2)) return U; if (a[0].k == V_F && a[1].k == V_F) return Val::F(copysign(a[0].d, a[1].d), w); if (mode == 1) { PP m = asP(f1("fabs", a[0])); return Val::R(x.iteP(x.rcmp(O_RLT, asP(a[1]), x.constP(0)), x.scaleP(m, -1), m), w); } E p = asE(a[0]), q = asE(a[1]); return fromFE(x.concat(x.extract(q, q->w - 1, 1), x.extract(p, 0, p->w - 1)), w); }
      case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return a[0]; case Intrinsic::is_constant: return Val::I(0, 1); case Intrinsic::objectsize: return Val::I(conc(a[1]) ? 0 : ~0ull, w);
      case Intrinsic::stacksave: return Val::P(0, 0); case Intrinsic::stackrestore: return Val(); case Intrinsic::trap: case Intrinsic::ubsantrap: doExit(Val::I(134, 32), "trap"); return Val(); case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: return Val::P(0, 0); case Intrinsic::invariant_end: return Val();
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned bw = a[0].w ? a[0].w : a[1].w; Agg *g = new Agg; aggHold.emplace_back(g); Val r; r.k = V_AGG; r.g = g; if (un(2)) { g->v.resize(2); return r; }
        if (a[0].k == V_I && a[1].k == V_I) { bool s = I.iid == Intrinsic::sadd_with_overflow || I.iid == Intrinsic::ssub_with_overflow || I.iid == Intrinsic::smul_with_overflow; __int128 u = s ? (__int128)sx(a[0].u, bw) : (__int128)a[0].u, v = s ? (__int128)sx(a[1].u, bw) : (__int128)a[1].u, q; if (I.iid == Intrinsic::uadd_with_overflow || I.iid == Intrinsic::sadd_with_overflow) q = u + v; else if (I.iid == Intrinsic::usub_with_overflow || I.iid == Intrinsic::ssub_with_overflow) q = u - v; else q = u * v; uint64_t lo = (uint64_t)q & maskw(bw); bool ov = s ? q != (__int128)sx(lo, bw) : q != (__int128)lo; g->v = {Val::I(lo, bw), Val::I(ov, 1)}; return r; }
        E u = asE(a[0]), v = asE(a[1]);
        if (I.iid == Intrinsic::umul_with_overflow) { for (int k = 0; k < 2; k++) { E c = k ? u : v, o = k ? v : u; if (c->op == O_CONST) { E ov = c->c == 0 ? x.F : x.bin(O_ULT, x.cst(maskw(bw) / c->c, bw), o); g->v = {Val::Ex(x.bin(O_MUL, u, v)), Val::Ex(ov)}; return r; } } }
        unsigned ww = I.iid == Intrinsic::umul_with_overflow || I.iid == Intrinsic::smul_with_overflow ? 2 * bw : bw + 1; bool s = I.iid == Intrinsic::sadd_with_overflow || I.iid == Intrinsic::ssub_with_overflow || I.iid == Intrinsic::smul_with_overflow; if (ww > 64) throw Unsupported("symbolic 64-bit overflow check");
        E U_ = s ? x.sext(u, ww) : x.zext(u, ww), V_ = s ? x.sext(v, ww) : x.zext(v, ww); E q = x.bin(I.iid == Intrinsic::uadd_with_overflow || I.iid == Intrinsic::sadd_with_overflow ? O_ADD : I.iid == Intrinsic::usub_with_overflow || I.iid == Intrinsic::ssub_with_overflow ? O_SUB : O_MUL, U_, V_); E lo = x.extract(q, 0, bw); E ov = x.Not(x.bin(O_EQ, s ? x.sext(lo, ww) : x.zext(lo, ww), q)); g->v = {Val::Ex(lo), Val::Ex(ov)}; return r; }
      case Intrinsic::usub_sat: { if (un(2)) return U; if (a[0].k == V_I && a[1].k == V_I) return Val::I(a[0].u > a[1].u ? a[0].u - a[1].u : 0, w); E u = asE(a[0]), v = asE(a[1]); return Val::Ex(x.ite(x.bin(O_ULT, u, v), x.cst(0, w), x.bin(O_SUB, u, v))); }
      case Intrinsic::uadd_sat: { if (un(2)) return U; if (a[0].k == V_I && a[1].k == V_I) { uint64_t r = (a[0].u + a[1].u) & maskw(w); return Val::I(r < a[0].u ? maskw(w) : r, w); } E u = asE(a[0]), v = asE(a[1]); E s = x.bin(O_ADD, u, v); return Val::Ex(x.ite(x.bin(O_ULT, s, u), x.cst(maskw(w), w), s)); }
      case Intrinsic::bswap: { if (un(1)) return U; if (a[0].k == V_I) { uint64_t r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a[0].u >> (8 * i)) & 0xff) << (w - 8 - 8 * i); return Val::I(r, w); } E e = a[0].k == V_BYTES ? bytesE(a[0]) : asE(a[0]); E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = x.extract(e, 8 * i, 8); r = r ? x.concat(r, b) : b; } return Val::Ex(r); }
      case Intrinsic::fshl: case Intrinsic::fshr: { if (un(3)) return U; if (a[2].k != V_I) throw Unsupported("funnel shift"); unsigned s = a[2].u % w; if (I.iid == Intrinsic::fshr) s = (w - s) % w; if (!s) return I.iid == Intrinsic::fshl ? a[0] : a[1]; E c = x.concat(x.extract(asE(a[0]), 0, w - s), x.extract(asE(a[1]), w - s, s)); return Val::Ex(c); }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: { if (un(1)) return U; uint64_t v = conc(a[0]); if (I.iid == Intrinsic::ctpop) return Val::I(__builtin_popcountll(v), w); if (I.iid == Intrinsic::ctlz) return Val::I(v ? __builtin_clzll(v) - (64 - w) : w, w); return Val::I(v ? __builtin_ctzll(v) : w, w); }
      case Intrinsic::is_fpclass: { if (un(1)) return U; unsigned m = conc(a[1]); if (mode == 1 || a[0].k == V_R) { if (m == 3) return Val::I(a[0].k == V_F && std::isnan(a[0].d), 1); if (m == 0x204) return Val::I(a[0].k == V_F && std::isinf(a[0].d), 1); if (m == 0x1f8) return Val::I(!(a[0].k == V_F && !std::isfinite(a[0].d)), 1); throw Unsupported("fpclass"); } E e = asE(a[0]); unsigned eb = e->w == 32 ? 8 : 11, mb = e->w - 1 - eb; E ex1 = x.bin(O_EQ, x.extract(e, mb, eb), x.cst(maskw(eb), eb)), m0 = x.bin(O_EQ, x.extract(e, 0, mb), x.cst(0, mb)); if (m == 3) return Val::Ex(x.And(ex1, x.Not(m0))); if (m == 0x204) return Val::Ex(x.And(ex1, m0)); if (m == 0x1f8) return Val::Ex(x.Not(ex1)); throw Unsupported("fpclass"); }
      default: throw Unsupported("intrinsic " + I.callee->name);
    }
  }
  Val castInt2F(const Val &v, unsigned w) { if (v.k == V_I) return Val::F((double)sx(v.u, v.w), w); throw Unsupported("powi"); }
  int mkInput(const std::string &n, int kind, unsigned w) { int v = x.addVar(n, kind, w); if (std::find(inputVars.begin(), inputVars.end(), v) == inputVars.end()) inputVars.push_back(v); if (asgOk) { if ((int)asg.iv.size() <= v) { asg.iv.resize(v + 1, 0); asg.rv.resize(v + 1, 0); } } return v; }
  Val builtin(Func *F, Inst &I, std::vector<Val> &a) {
    switch (F->builtin) {
      case B_MALLOC: return alloc(a[0], AK_MALLOC);
      case B_CALLOC: { uint64_t n = conc(a[0]) * conc(a[1]); Val p = alloc(Val::I(n, 64), AK_MALLOC); setMem(p, Val::I(0, 8), Val::I(n, 64)); return p; }
      case B_REALLOC: { uint64_t n = conc(a[1]); Val p = alloc(Val::I(n, 64), AK_MALLOC); Val q = a[0]; if (q.k == V_P && q.obj) { uint64_t k = std::min<uint64_t>(n, objs[q.obj].size); copyMem(p, q, Val::I(k, 64), false); dealloc(q, AK_MALLOC); } return p; }
      case B_FREE: dealloc(a[0], AK_MALLOC); return Val(); case B_NEW: return alloc(a[0], AK_NEW); case B_NEWARR: return alloc(a[0], AK_NEWARR); case B_DEL: dealloc(a[0], AK_NEW); return Val(); case B_DELARR: dealloc(a[0], AK_NEWARR); return Val();
      case B_MEMCPY: copyMem(a[0], a[1], a[2], false); return a[0]; case B_MEMMOVE: copyMem(a[0], a[1], a[2], true); return a[0]; case B_MEMSET: setMem(a[0], a[1].k == V_I ? Val::I(a[1].u, 8) : a[1].k == V_UNDEF ? a[1] : Val::Ex(x.extract(asE(a[1]), 0, 8)), a[2]); return a[0];
      case B_EXIT: if (a[0].k == V_UNDEF) bug("uninit", "exit with uninitialised status"); doExit(a[0], "exit"); return Val();
      case B_ABORT: if (exitPol == 0 || exitPol == 3) bug("abort", "the code aborted"); doExit(Val::I(134, 32), "abort"); return Val();
      case B_THROW: { std::string n = F->dem; doExit(Val::I(134, 32), "uncaught exception"); return Val(); }
      case B_ALLOCEXC: { Val p = alloc(Val::I(conc(a[0]) + 64, 64), AK_MALLOC); objs[p.obj].mark = -1; setMem(p, Val::I(0, 8), Val::I(conc(a[0]) + 64, 64)); return p; }
      case B_NOP: return Val::I(0, 32); case B_GUARD_NOP: { Ty t; t.k = T_INT; t.w = 8; t.bytes = 1; if (F->name == "__cxa_guard_release") store(a[0], Val::I(1, 8), t); return Val(); }
      case B_GUARD_ACQ: { Ty t; t.k = T_INT; t.w = 8; t.bytes = 1; Val v = load(a[0], t); return Val::I(v.k == V_I && v.u ? 0 : 1, 32); }
      case B_OSTREAM: for (size_t i = 1; i < a.size(); i++) if (a[i].k == V_UNDEF) bug("uninit", "uninitialised value printed"); return I.ty.k == T_PTR && !a.empty() ? a[0] : I.ty.k == T_INT ? Val::I(0, I.ty.w) : Val();
      case B_F1: return f1(F->name, a[0]); case B_F2: return f2(F->name, a[0], a[1]);
      // ---- harness API
      case V_U32: { std::string n = uname(a[0]); uint64_t lo = conc(a[1]), hi = conc(a[2]); mkInput(n, 0, 32); E v = x.var(n, 32, 0); if (lo == hi) { addPc(x.bin(O_EQ, v, x.cst(lo, 32))); return Val::I(lo, 32); } if (asgOk) { asg.iv[v->var] = lo; x.evReset(); } if (lo) addPc(x.bin(O_ULE, x.cst(lo, 32), v)); if (hi < 0xffffffffull) addPc(x.bin(O_ULE, v, x.cst(hi, 32))); if (hi < 256) { /* narrow variable keeps queries small */ } return Val::Ex(v); }
      case V_PICK: { std::string n = uname(a[0]); uint64_t lo = conc(a[1]), hi = conc(a[2]); if (inMerge) throw MergeAbort(); mkInput(n, 0, 32); E v = x.var(n, 32, 0); uint64_t r; if (lo >= hi) { addPc(x.bin(O_EQ, v, x.cst(lo, 32))); r = lo; } else { r = pickRange(v, lo, hi); } if (asgOk) { asg.iv[v->var] = r; x.evReset(); } picks.push_back({n, r}); return Val::I(r, 32); }
      case V_F32: case V_F32X: { std::string n = uname(a[0]); unsigned cls = F->builtin == V_F32X ? conc(a[1]) : 0; if (mode == 1) { mkInput(n, 2, 0); return Val::R(x.realVar(n), 32); } mkInput(n, 1, 32); E v = x.var(n, 32, 1); if (cls == 1) addPc(x.Not(x.fisnan(v))); if (cls == 2) addPc(x.Not(x.bin(O_EQ, x.extract(v, 23, 8), x.cst(255, 8)))); Val r; r.k = V_E; r.w = 32; r.e = v; return r; }
      case V_ASSUME: { if (a[0].k == V_UNDEF) bug("uninit", "assumption on uninitialised value"); E c = boolE(a[0]); if (c == x.T) return Val(); if (c == x.F) { flushObs(); st.killed++; throw PathEnd{1}; } if (inMerge) throw MergeAbort(); flushObs(); addPc(c); return Val(); }
      case V_ASSERT: { if (a[0].k == V_UNDEF) bug("uninit", "asserted value is uninitialised: " + cstr(a[1])); E c = boolE(a[0]); std::string m = cstr(a[1]); st.ob++; st.asserts[m]++; if (c == x.T) { st.obConst++; return Val(); } if (inMerge) throw MergeAbort(); if (c == x.F) { bug("assert", m); } obs.push_back({c, nullptr, nullptr, m, false, where(), 0}); return Val(); }
      case V_EQ: case V_EQT: { std::string m = cstr(a[F->builtin == V_EQT ? 3 : 2]); double tol = F->builtin == V_EQT ? (a[2].k == V_F ? a[2].d : 1e-4) : 0; if (a[0].k == V_UNDEF || a[1].k == V_UNDEF) bug("uninit", "compared value is uninitialised: " + m); if (inMerge) throw MergeAbort(); st.ob++; st.asserts[m]++;
        if (a[0].k == V_F && a[1].k == V_F) { if (a[0].d == a[1].d || fabs(a[0].d - a[1].d) <= (tol ? tol : 2e-5) * std::max(1.0, std::max(fabs(a[0].d), fabs(a[1].d)))) { st.obConst++; return Val(); } char b[100]; snprintf(b, 100, " (%g vs %g)", a[0].d, a[1].d); bug("eq", m + b); }
        for (int s = 0; s < 2; s++) if (a[s].k == V_F && !std::isfinite(a[s].d)) bug("eq", m + " (non-finite value)");
        obs.push_back({nullptr, asP(a[0]), asP(a[1]), m, true, where(), tol}); return Val(); }
      case V_BITEQ: { std::string m = cstr(a[2]); if (a[0].k == V_UNDEF || a[1].k == V_UNDEF) bug("uninit", "compared value is uninitialised: " + m); if (inMerge) throw MergeAbort(); st.ob++; st.asserts[m]++;
        if (mode == 1) { if (a[0].k == V_F && a[1].k == V_F) { if (a[0].d == a[1].d) { st.obConst++; return Val(); } bug("eq", m); } obs.push_back({nullptr, asP(a[0]), asP(a[1]), m, true, where(), 0}); return Val(); }
        E c = x.bin(O_EQ, asE(a[0]), asE(a[1])); if (c == x.T) { if (ptrLike(a[0]) || a[0].k == V_I || a[0].k == V_F) st.obConst++; else synt.push_back({asE(a[0]), asE(a[1])}); return Val(); } if (c == x.F) bug("assert", m); obs.push_back({c, nullptr, nullptr, m, false, where(), 0}); return Val(); }
      case V_MODE: mode = conc(a[0]); return Val(); case V_MERGE: merge = conc(a[0]); return Val(); case V_EXITPOL: exitPol = conc(a[0]); return Val();
      case V_REACH: if (!inMerge) st.reach[cstr(a[0])]++; return Val();
      case V_LEAKMARK: mark++; return Val();
      case V_LEAKCHK: { if (inMerge) throw MergeAbort(); st.ob++; std::string m = cstr(a[0]); st.asserts[m]++; for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == K_HEAP && objs[i].alive && objs[i].mark >= mark && objs[i].mark > 0) bug("leak", m + ": a block of " + std::to_string(objs[i].size) + " bytes was not freed"); st.obConst++; return Val(); }
      case V_SYM: return Val::I(1, 32); case V_FAIL: bug("assert", cstr(a[0])); case V_DONE: throw PathEnd{0};
      case V_CONC: { return Val::I(conc(a[0]), a[0].w); }
      case V_ISCONST: return Val::I(a[0].k == V_I || a[0].k == V_F, 32);
      case V_BLOCKID: { Val p = a[0], q = a[1]; return Val::I(ptrLike(p) && ptrLike(q) && p.k != V_SEL && q.k != V_SEL && p.obj == q.obj, 32); }
      case V_VA: { size_t k = conc(a[0]); Frame &g = fr.back(); if (k >= g.varargs.size()) bug("badcall", "format string reads a missing argument"); Val v = g.varargs[k]; if (v.k == V_UNDEF) bug("uninit", "uninitialised value printed"); bool f = F->name == "vp_va_f64"; if (f) { if (v.w == 64 && (v.k == V_F || v.k == V_R || (v.k == V_E))) return v; bug("badcall", "format string type mismatch"); }
        if (F->name == "vp_va_ptr") return v; if (v.k == V_I) return Val::I(v.u & maskw(v.w), 64); if (v.k == V_P) return v; if (v.k == V_F || v.k == V_R) bug("badcall", "format string type mismatch"); E e = asE(v); return e->w < 64 ? Val::Ex(x.zext(e, 64)) : v; }
      case V_TOKF: { return a[0]; }
      default: throw Unsupported("builtin " + F->name);
    }
  }
  E boolE(const Val &v) { if (v.k == V_I) return x.boolc(v.u != 0); E e = asE(v); if (e->w == 1) return e; return x.Not(x.bin(O_EQ, e, x.cst(0, e->w))); }
#include "oblig.inc"
