  // ------------------------------------------------------------ obligations, path driver (included inside struct Exec)
  uint64_t rng = 88172645463325252ull; double rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (double)(rng >> 11) / 9007199254740992.0; }
  bool pcHolds() { for (E c : pc) if (!x.evE(c, asg)) return false; return true; }
  void randomiseReals() { // give unconstrained real inputs distinctive values
    bool any = false; for (int v : inputVars) if (x.vars[v].kind == 2) any = true; if (!any) return;
    asg.iv.resize(x.vars.size(), 0); asg.rv.resize(x.vars.size(), 0); auto save = asg;
    for (int t = 0; t < 8; t++) { for (int v : inputVars) if (x.vars[v].kind == 2) asg.rv[v] = floor(rnd() * 33 - 16) / 4 + 0.125; x.evReset(); if (pcHolds()) return; }
    asg = save; x.evReset();
  }
  void record(const std::string &kind, const std::string &msg, const std::string &wh, bool real) {
    Violation v; v.kind = kind; v.msg = msg; v.where = wh; v.real = real;
    asg.iv.resize(x.vars.size(), 0); asg.rv.resize(x.vars.size(), 0);
    for (int i : inputVars) { auto &q = x.vars[i]; char b[64]; if (q.kind == 2) snprintf(b, 64, "r%.9g", asg.rv[i]); else snprintf(b, 64, "x%llx", (unsigned long long)asg.iv[i]); v.inputs[q.name] = b; }
    std::string key = kind + "|" + msg.substr(0, 60) + "|" + wh.substr(0, wh.find(" < "));
    if (S.seen.count(key)) { S.suppressed[key]++; return; }
    S.seen.insert(key); S.viols.push_back(v); if (__sync_add_and_fetch(&S.q->nviol, 1) >= 4 * (int)S.cfg.maxViol || S.viols.size() >= S.cfg.maxViol) S.q->halt(false);
  }
  std::vector<std::pair<E, E>> synt; // equalities the simplifier already closed: the solver confirms them in one query
  void flushObs() {
    if (!synt.empty()) { std::vector<std::pair<E, E>> p; p.swap(synt); z3::solver s(zc); z3::expr_vector v(zc); for (auto &q : p) v.push_back(Z->tr(q.first) != Z->tr(q.second)); s.add(z3::mk_or(v)); if (check(s) == z3::unsat) st.obSolver += p.size(); else { st.obUndec += p.size(); st.undecided["equality not confirmed"]++; } }
    if (obs.empty()) return; std::vector<Ob> o; o.swap(obs); std::vector<Ob> be, eq; for (auto &q : o) (q.isEq ? eq : be).push_back(q);
    if (!be.empty()) {
      for (size_t i0 = 0; i0 < be.size();) {
        size_t i1 = std::min(be.size(), i0 + 64); std::vector<E> ne; for (size_t i = i0; i < i1; i++) ne.push_back(x.Not(be[i].cond));
        E any = x.F; for (E e : ne) any = x.Or(any, e);
        z3::check_result r = freshCheck(any, true);
        if (r == z3::unsat) { st.obSolver += i1 - i0; }
        else if (r == z3::sat) { bool hit = false; for (size_t i = i0; i < i1; i++) if (x.evE(ne[i - i0], asg)) { bool keep = false; (void)keep; std::string wh = be[i].where; auto a = asg; record("assert", be[i].msg, wh, false); asg = a; x.evReset(); hit = true; break; } if (!hit) { st.undecided["model evaluation mismatch: " + be[i0].msg]++; } st.obUndec++; asgOk = false; }
        else for (size_t i = i0; i < i1; i++) { r = freshCheck(ne[i - i0], true); if (r == z3::unsat) st.obSolver++; else if (r == z3::sat) { record("assert", be[i].msg, be[i].where, false); asgOk = false; break; } else { st.obUndec++; st.undecided[be[i].msg]++; } }
        i0 = i1;
      }
    }
    if (!eq.empty()) {
      std::vector<std::pair<PP, PP>> same; size_t bad = 0;
      for (auto &q : eq) {
        bool e = false; try { e = x.equalP(q.a, q.b); } catch (Unsupported &) {}
        if (e) { same.push_back({q.a, q.b}); continue; }
        if (bad) { continue; }
        if (!proveOrRefuteEq(q)) bad++;
      }
      if (!same.empty()) { // LRA confirmation: with every monomial in [-1,1] the two sums cannot differ by more than rounding of folded constants
        z3::solver s(zc); std::vector<z3::expr> dis; Z->monoVars.clear();
        for (auto &p : same) { PP d = x.addP(p.first, p.second, -1); double sc = 0; for (auto &t : p.first->t) sc += fabs(t.second); z3::expr b = Z->num(std::max(sc, 1e-3) * 1e-4);
          if (d->t.empty()) { z3::expr e1 = Z->linPoly(p.first), e2 = Z->linPoly(p.second); dis.push_back(e1 > e2 + b || e1 < e2 - b); continue; }
          PP c; try { c = x.clearDen(d); } catch (Unsupported &) { continue; } z3::expr e = Z->linPoly(c); dis.push_back(e > b || e < -b); }
        if (!dis.empty()) { z3::expr_vector v(zc); for (auto &d : dis) v.push_back(d); s.add(z3::mk_or(v)); for (auto &m : Z->monoVars) { s.add(m.second <= 1); s.add(m.second >= -1); } z3::check_result r = check(s); if (r != z3::unsat) { st.undecided["linear confirmation"]++; } else st.obSolver += dis.size(); st.obNorm += same.size() - dis.size(); }
        else st.obNorm += same.size();
      }
    }
  }
  std::unordered_map<E, bool> ufSeen;
  bool hasUF(E e) { if (!e) return false; if (e->op == O_UF) return true; if (e->op == O_VAR || e->op == O_CONST) return false; auto it = ufSeen.find(e); if (it != ufSeen.end()) return it->second; bool r = hasUF(e->a) || hasUF(e->b) || hasUF(e->d); ufSeen.emplace(e, r); return r; }
  z3::check_result freshCheck(E extra, bool keep) {
    if (mode == 0 && hasUF(extra)) { // transcendental functions involved: arithmetic is first abstracted to order facts
      z3::solver s(zc); for (E c : pc) s.add(ZA->tr(c)); s.add(ZA->tr(extra)); for (size_t k = 0; k < ZA->side.size(); k++) s.add(ZA->side[k]);
      z3::check_result r = check(s); if (r == z3::unsat) return r;
      bool cand = r == z3::sat; if (cand && keep) { readModel(s); if (x.evE(extra, asg) && pcHolds()) return z3::sat; }
      z3::solver t(zc); size_t k = 0; for (E c : pc) t.add(Z->tr(c)); t.add(Z->tr(extra)); for (; k < Z->side.size(); k++) t.add(Z->side[k]);
      r = check(t); if (r == z3::sat && keep) readModel(t); return r;
    }
    z3::solver s(zc); size_t k = 0; for (E c : pc) s.add(Z->tr(c)); s.add(Z->tr(extra)); for (; k < Z->side.size(); k++) s.add(Z->side[k]);
    z3::check_result r = check(s); if (r == z3::sat && keep) readModel(s); return r;
  }
  bool proveOrRefuteEq(Ob &q) {
    PP d = x.addP(q.a, q.b, -1);
    // search for a clear difference, small values first
    for (int att = 0; att < 2; att++) {
      try { z3::solver s(zc); for (E c : pc) s.add(Z->tr(c)); z3::expr e = Z->poly(d); double gap = att ? 1e-2 : 0.5; s.add(e >= Z->num(gap) || e <= Z->num(-gap));
        for (int v : inputVars) if (x.vars[v].kind == 2) { z3::expr r = zc.real_const(x.vars[v].name.c_str()); s.add(r >= -8 && r <= 8); }
        for (size_t k = 0; k < Z->side.size(); k++) s.add(Z->side[k]);
        z3::check_result r = check(s, att ? 4000 : 4000);
        if (r == z3::sat) { readModel(s); double va = x.evP(q.a, asg), vb = x.evP(q.b, asg); if (std::isfinite(va) != std::isfinite(vb) || fabs(va - vb) > (att ? 5e-3 : 0.1) * std::max(1.0, std::max(fabs(va), fabs(vb)) / 8)) { record("eq", q.msg, q.where, true); asgOk = false; return false; } }
      } catch (Unsupported &) {} catch (z3::exception &) {}
      // evaluate the symbolic difference at other valuations
      if (ensureAsg()) { asg.iv.resize(x.vars.size(), 0); asg.rv.resize(x.vars.size(), 0); auto save = asg; for (int t = 0; t < 200; t++) { for (int v : inputVars) if (x.vars[v].kind == 2) asg.rv[v] = (t % 4 >= 2 && rnd() < 0.5) ? (float)((rnd() < 0.25 ? -1 : 1) * exp2(6 - rnd() * 36)) : floor(rnd() * 65 - 32) / 8 + (t & 1) * 0.0625; x.evReset(); if (!pcHolds()) continue; double va = x.evP(q.a, asg), vb = x.evP(q.b, asg); if ((std::isfinite(va) != std::isfinite(vb)) || fabs(va - vb) > (att ? 1e-2 : 5e-2) * std::max(1.0, std::max(fabs(va), fabs(vb)))) { record("eq", q.msg, q.where, true); asg = save; x.evReset(); return false; } } asg = save; x.evReset(); }
    }
    // try to prove
    try { z3::solver s(zc); for (E c : pc) s.add(Z->tr(c)); z3::expr e = Z->poly(d); double tol = q.tol ? q.tol : 1e-5; s.add(e > Z->num(tol) || e < Z->num(-tol)); for (int v : inputVars) if (x.vars[v].kind == 2) { z3::expr r = zc.real_const(x.vars[v].name.c_str()); s.add(r >= -8 && r <= 8); } for (size_t k = 0; k < Z->side.size(); k++) s.add(Z->side[k]);
      z3::check_result r = check(s); if (r == z3::unsat) { st.obSolver++; return true; } if (r == z3::sat) { readModel(s); record("eq", q.msg, q.where, true); asgOk = false; return false; } } catch (Unsupported &) {} catch (z3::exception &) {}
    st.obUndec++; st.undecided["eq: " + q.msg]++; return false;
  }
  void resetAll() {
    sol.reset(); Z->clear(); Z->fcache.clear(); ZA->clear(); ZA->fcache.clear(); ZA->ufApps.clear(); ufSeen.clear(); Z->ufApps.clear(); x.evReset(); x.reset(); pc.clear(); asg = Ctx::Asg(); asgOk = true; pcUnknown = false; solPc = solSide = 0;
    objs.clear(); vals.clear(); vals.push_back(Val()); zb = 0; fr.clear(); ninst = 0; mode = 0; merge = 1; exitPol = 0; mark = 0; inMerge = 0; mconds.clear(); undo.clear(); mergeFail.clear(); obs.clear(); synt.clear(); inputVars.clear(); nameCnt.clear(); picks.clear(); aggHold.clear(); selHold.clear(); stopReached = pend = false; pendPhi.clear(); rng = 88172645463325252ull ^ (strtoull(S.cfg.seed.c_str(), 0, 10) * 7919);
    objs.resize(M.firstGlob + M.globs.size());
    for (size_t i = 0; i < M.funcs.size(); i++) { objs[M.firstFunc + i].kind = K_FUNC; objs[M.firstFunc + i].inited = true; }
    for (size_t i = 0; i < M.globs.size(); i++) { Obj &o = objs[M.firstGlob + i]; o.kind = K_GLOBAL; o.size = M.globs[i].size; o.ro = M.globs[i].ro; }
  }
  void callFn(const std::string &n) { auto it = M.fname.find(n); if (it == M.fname.end()) throw Unsupported("no function " + n); pushFrame(M.funcs[it->second].get(), {}, -1, -1); run(1, -1); }
  void runPath(std::vector<Decision> &&pre) {
    resetAll(); dec = std::move(pre); di = 0; prefixLen = dec.size(); st.paths++;
    std::string outcome = "ok";
    try {
      for (auto &c : S.ctors) { pushFrame(M.funcs[c].get(), {}, -1, -1); run(1, -1); }
      mark = 1; callFn(S.cfg.entry); flushObs();
    } catch (PathEnd &e) { if (e.code == 0) flushSafe(); else if (e.code == 2) { outcome = "timeout"; S.q->halt(true); } else outcome = "infeasible"; }
    catch (BugFound &b) { std::string wh = where(); outcome = b.kind; bool feas = true; try { if (!ensureAsg()) { st.undecided[b.kind + ": " + b.msg]++; feas = false; } } catch (PathEnd &) { feas = false; } catch (Unsupported &u) { st.unsupported[u.what()]++; feas = false; }
      if (feas) { try { randomiseReals(); } catch (...) {} record(b.kind, b.msg, wh, mode == 1); }
      try { flushObs(); } catch (...) {} }
    catch (Unsupported &u) { st.unsupported[std::string(u.what()) + " at " + where()]++; outcome = std::string("unsupported ") + u.what(); }
    catch (MergeAbort &) { st.unsupported["merge abort leaked at " + where()]++; }
    catch (z3::exception &e) { st.unsupported[std::string("z3: ") + e.msg()]++; }
    st.insts += ninst; st.maxDec = std::max<uint64_t>(st.maxDec, dec.size());
    if (st.samples.size() < 12 && (st.paths % 7 == 1 || st.samples.size() < 3)) { std::string s; for (auto &p : picks) s += p.first + "=" + std::to_string(p.second) + " "; char b[200]; snprintf(b, 200, "-> %s, %zu path conditions, %llu instructions", outcome.c_str(), pc.size(), (unsigned long long)ninst); st.samples.push_back(s + b); }
  }
  void flushSafe() { try { flushObs(); } catch (Unsupported &u) { st.unsupported[u.what()]++; } }
  void worker() {
    std::vector<Decision> p;
    while (S.q->pop(p, S.t0 + S.cfg.timeout + 30)) { runPath(std::move(p)); p.clear(); S.q->done(); if (now() - S.t0 > S.cfg.timeout) S.q->halt(true); }
  }
