// Symbolic executor for one path (re-executed from the start with a decision prefix).
#pragma once
#include "module.h"
#include <chrono>
#include <set>
#include <mutex>
#include <atomic>
#include <condition_variable>
#include <thread>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/mman.h>
#include <pthread.h>
#include <cstring>

using llvm::Instruction;
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Decision { uint8_t kind; /*0 branch,1 pick value,2 exclude/assume value*/ bool taken; bool con; uint64_t v; };
struct Cell { int32_t vi = 0; uint8_t bi = 0; };
enum OK : uint8_t { K_NULL, K_FUNC, K_GLOBAL, K_STACK, K_HEAP };
enum AllocK : uint8_t { AK_NONE, AK_MALLOC, AK_NEW, AK_NEWARR };
struct Obj {
  OK kind = K_NULL; AllocK ak = AK_NONE; bool alive = true, ro = false, zdef = false, sparse = false, inited = false; uint64_t size = 0; E symSize = nullptr; int mark = 0; int frame = 0;
  std::vector<Cell> cells; std::unordered_map<uint64_t, Cell> sp; std::string where;
};
struct Frame { Func *f = nullptr; std::vector<Val> r; int bb = 0, ip = 0, prev = -1; int retDst = -1; int retBlock = -1; std::vector<int> allocas; std::vector<Val> varargs; };

struct PathEnd { int code; };           // normal end of path
struct MergeAbort {};
struct Violation { std::string kind, msg, where; std::map<std::string, std::string> inputs; bool real = false; };
struct BugFound { std::string kind, msg; };

struct Stats {
  uint64_t paths = 0, insts = 0, queries = 0, unk = 0, ob = 0, obConst = 0, obSolver = 0, obNorm = 0, obUndec = 0, memchk = 0, merges = 0, forks = 0, killed = 0, maxDec = 0; double solverT = 0;
  std::map<std::string, uint64_t> reach; std::set<int> funcs; std::map<std::string, uint64_t> unsupported, undecided; std::map<std::string, uint64_t> asserts;
  std::vector<std::string> samples;
};
struct Config { std::string entry = "vp_main"; double timeout = 600; uint64_t maxInst = 60000000; unsigned qto = 20000; int threads = 8; size_t maxViol = 6; std::string seed; bool verbose = false; };

// work queue shared by the worker processes (each has its own Z3 heap; threads in one process would serialise on its counters)
struct Queue { pthread_mutex_t mu; pthread_cond_t cv; int active, stop, timedout, nviol; uint64_t top, n; char data[1]; static const uint64_t CAP = 2ull << 30;
  static Queue *make() { void *m = mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); Queue *q = (Queue *)m; pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&q->mu, &a); pthread_condattr_t c; pthread_condattr_init(&c); pthread_condattr_setpshared(&c, PTHREAD_PROCESS_SHARED); pthread_cond_init(&q->cv, &c); return q; }
  void push(const std::vector<Decision> &d) { pthread_mutex_lock(&mu); uint64_t b = d.size() * sizeof(Decision); if (top + b + 64 + sizeof(Queue) > CAP) { stop = 1; timedout = 1; } else { if (b) memcpy(data + top, d.data(), b); top += b; memcpy(data + top, &b, 8); top += 8; n++; } pthread_cond_signal(&cv); pthread_mutex_unlock(&mu); }
  bool pop(std::vector<Decision> &d, double deadline) { // false: no more work
    pthread_mutex_lock(&mu); for (;;) { if (stop) break; if (n) { uint64_t b; top -= 8; memcpy(&b, data + top, 8); top -= b; d.resize(b / sizeof(Decision)); if (b) memcpy((void *)d.data(), data + top, b); n--; active++; pthread_mutex_unlock(&mu); return true; } if (!active) break; if (now() > deadline) { stop = timedout = 1; break; } timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 1; pthread_cond_timedwait(&cv, &mu, &t); }
    pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); return false; }
  void done() { pthread_mutex_lock(&mu); active--; if (!active && !n) pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); }
  void halt(bool to) { pthread_mutex_lock(&mu); stop = 1; if (to) timedout = 1; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); }
};
struct Shared { Mod *m; Config cfg; Queue *q; std::vector<Violation> viols; std::set<std::string> seen; Stats total; double t0; std::map<std::string, uint64_t> suppressed; std::vector<int> ctors; };

struct Exec {
  Shared &S; Mod &M; Ctx x; z3::context zc; std::unique_ptr<Z3T> Z, ZA; std::unique_ptr<z3::solver> sol; size_t solPc = 0, solSide = 0; Stats st;
  std::vector<Decision> dec; size_t di = 0, prefixLen = 0; std::vector<E> pc; Ctx::Asg asg; bool asgOk = false; bool pcUnknown = false;
  std::vector<Obj> objs; std::vector<Val> vals; std::vector<Frame> fr; uint64_t ninst = 0;
  int mode = 0, merge = 1, exitPol = 0, mark = 0; int inMerge = 0; std::vector<E> mconds;
  struct Undo { int o; uint64_t off; Cell c; }; std::vector<Undo> undo; std::unordered_map<const Inst *, int> mergeFail; uint64_t mergeBudget = 0;
  struct Ob { E cond; PP a, b; std::string msg; bool isEq; std::string where; double tol; }; std::vector<Ob> obs;
  std::vector<int> inputVars; std::map<std::string, int> nameCnt; std::map<std::string, long> extraInput; std::vector<std::pair<std::string, uint64_t>> picks;
  Exec(Shared &s) : S(s), M(*s.m) { Z.reset(new Z3T(zc, x)); ZA.reset(new Z3T(zc, x)); ZA->absArith = true; }

  // ------------------------------------------------------------ utilities
  [[noreturn]] void bug(const std::string &kind, const std::string &msg) { throw BugFound{kind, msg}; }
  std::string where() {
    std::string r; int n = 0; for (int i = (int)fr.size() - 1; i >= 0 && n < 8; i--) { auto &f = fr[i]; unsigned line = 0; if (f.bb >= 0 && f.bb < (int)f.f->blocks.size()) { auto &b = f.f->blocks[f.bb]; int k = std::min<int>(f.ip, b.insts.size()) - 1; for (; k >= 0; k--) if (b.insts[k].line) { line = b.insts[k].line; break; } }
      std::string fn = f.f->dem; auto p = fn.find('('); if (p != std::string::npos) fn = fn.substr(0, p); std::string file = f.f->file; auto q = file.find_last_of('/'); if (q != std::string::npos) file = file.substr(q + 1); r += (n ? " < " : "") + fn + "@" + file + ":" + std::to_string(line); n++; }
    return r;
  }
  E asE(const Val &v, unsigned w = 0) {
    switch (v.k) {
      case V_I: return x.cst(v.u, v.w); case V_E: return v.e;
      case V_P: return x.cst(((uint64_t)v.obj << 32) + v.u, 64);
      case V_SP: return x.bin(O_ADD, x.cst((uint64_t)v.obj << 32, 64), v.e);
      case V_SEL: return x.ite(v.s->c, asE(v.s->a), asE(v.s->b));
      case V_F: { unsigned fw = v.w == 80 ? 64 : v.w; return x.cst(d2bits(v.d, fw), fw); }
      case V_R: return x.mk(O_R2F, v.w == 80 ? 64 : v.w, 0, nullptr, nullptr, nullptr, x.internP(v.p));
      case V_UNDEF: bug("uninit", "use of an uninitialised value");
      default: throw Unsupported("value kind as expression");
    }
  }
  PP asP(const Val &v) {
    switch (v.k) {
      case V_F: if (std::isinf(v.d) || std::isnan(v.d)) throw Unsupported("non-finite constant in real arithmetic"); return x.constP(v.d);
      case V_R: return v.p; case V_E: if (v.e->op == O_R2F) return v.e->p; return x.fb2r(v.e); case V_I: return x.constP(bits2d(v.u, v.w));
      case V_UNDEF: bug("uninit", "use of an uninitialised float"); default: throw Unsupported("value kind as real");
    }
  }
  bool isF(const Val &v) { return v.k == V_F || v.k == V_R; }
  Val fromFE(E e, unsigned w) { if (e->op == O_CONST) return Val::F(bits2d(e->c, e->w), w); Val v; v.k = V_E; v.w = w; v.e = e; return v; }

  // ------------------------------------------------------------ solver
  void syncSolver() {
    if (!sol) { sol.reset(new z3::solver(zc)); solPc = 0; solSide = 0; }
    while (solPc < pc.size()) { z3::expr e = Z->tr(pc[solPc++]); addSide(); sol->add(e); }
    addSide();
  }
  void addSide() { while (solSide < Z->side.size()) { z3::expr e = Z->side[solSide++]; sol->add(e); } }
  z3::check_result check(z3::solver &s, unsigned to = 0) {
    double t = now(); z3::params p(zc); p.set("timeout", to ? to : S.cfg.qto); s.set(p);
    z3::check_result r; try { r = s.check(); } catch (z3::exception &e) { r = z3::unknown; }
    st.queries++; double d = now() - t; st.solverT += d; if (r == z3::unknown) st.unk++; if (S.cfg.verbose && d > 1) fprintf(stderr, "slow query %.1fs %d at %s\n", d, (int)r, where().c_str()); return r;
  }
  void readModel(z3::solver &s) {
    z3::model m = s.get_model(); asg.iv.assign(x.vars.size(), 0); asg.rv.assign(x.vars.size(), 0);
    for (size_t i = 0; i < x.vars.size(); i++) { auto &v = x.vars[i]; if (v.kind == 9) continue;
      try {
        if (v.kind == 2) { z3::expr r = m.eval(zc.real_const(v.name.c_str()), true); std::string d = r.is_numeral() ? Z3_get_numeral_decimal_string(zc, r, 12) : r.get_decimal_string(12); asg.rv[i] = atof(d.c_str()); }
        else if (v.w == 1) asg.iv[i] = m.eval(zc.bool_const(v.name.c_str()), true).is_true();
        else asg.iv[i] = m.eval(zc.bv_const(v.name.c_str(), v.w), true).get_numeral_uint64();
      } catch (z3::exception &) {} }
    x.evReset(); asgOk = true;
  }
  // satisfiability of pc & extra (+merge conditions)
  z3::check_result feasible(E extra, bool keepModel) {
    syncSolver(); z3::expr e = Z->tr(extra); std::vector<z3::expr> mc; for (E c : mconds) mc.push_back(Z->tr(c)); addSide(); sol->push(); sol->add(e); for (auto &c : mc) sol->add(c);
    z3::check_result r = check(*sol); if (r == z3::sat && keepModel) readModel(*sol); sol->pop(); return r;
  }
  bool ensureAsg() { // witness for pc
    if (asgOk) return true; if (pcUnknown) return false;
    if (pc.empty()) { asg.iv.assign(x.vars.size(), 0); asg.rv.assign(x.vars.size(), 0); x.evReset(); asgOk = true; return true; }
    syncSolver(); z3::check_result r = check(*sol);
    if (r == z3::sat) { readModel(*sol); return true; }
    if (r == z3::unsat) { st.killed++; throw PathEnd{1}; }
    pcUnknown = true; return false;
  }
  void addPc(E c) { if (c == x.T) return; pc.push_back(c); if (asgOk && !x.evE(c, asg)) asgOk = false; }
  bool decide(E c) {
    if (c->op == O_CONST) return c->c;
    if (inMerge) { for (E m : mconds) { if (m == c) return true; if (m == x.Not(c)) return false; } throw MergeAbort(); }
    for (size_t i = pc.size(); i-- > 0 && pc.size() - i < 40;) { if (pc[i] == c) return true; if (pc[i] == x.Not(c)) return false; }
    if (di < dec.size()) { Decision d = dec[di++]; if (d.kind != 0) throw Unsupported("decision replay mismatch"); if (d.con) addPc(d.taken ? c : x.Not(c)); return d.taken; }
    bool haveW = ensureAsg(); bool w = haveW ? (bool)x.evE(c, asg) : true; bool con = true;
    z3::check_result r = feasible(w ? x.Not(c) : c, false);
    if (!haveW) { z3::check_result r2 = feasible(c, false); if (r2 == z3::unsat) { if (r == z3::unsat) { st.killed++; throw PathEnd{1}; } w = false; con = false; dec.push_back({0, w, con, 0}); di++; return w; } }
    if (r == z3::unsat) con = false;
    else { std::vector<Decision> alt(dec.begin(), dec.begin() + di); alt.push_back({0, !w, true, 0}); enqueue(std::move(alt)); st.forks++; }
    dec.push_back({0, w, con, 0}); di++;
    if (con) addPc(w ? c : x.Not(c));
    return w;
  }
  uint64_t concretize(E e) {
    if (e->op == O_CONST) return e->c;
    if (inMerge) throw MergeAbort();
    for (;;) {
      if (di < dec.size()) { Decision d = dec[di++]; if (d.kind != 1) throw Unsupported("decision replay mismatch"); E eq = x.bin(O_EQ, e, x.cst(d.v, e->w)); if (d.taken) { if (d.con) addPc(eq); return d.v; } addPc(x.Not(eq)); continue; }
      if (!ensureAsg()) throw Unsupported("cannot concretise (solver unknown)");
      uint64_t v = x.evE(e, asg); E eq = x.bin(O_EQ, e, x.cst(v, e->w)); bool con = true;
      z3::check_result r = feasible(x.Not(eq), false);
      if (r == z3::unsat) con = false;
      else { std::vector<Decision> alt(dec.begin(), dec.begin() + di); alt.push_back({1, false, true, v}); enqueue(std::move(alt)); st.forks++; }
      dec.push_back({1, true, con, v}); di++; if (con) addPc(eq); return v;
    }
  }
  uint64_t pickRange(E e, uint64_t lo, uint64_t hi) { // fresh variable over [lo,hi]: every value is a path
    if (di < dec.size()) { Decision d = dec[di++]; if (d.kind != 2) throw Unsupported("decision replay mismatch"); addPc(x.bin(O_EQ, e, x.cst(d.v, e->w))); return d.v; }
    for (uint64_t v = hi; v > lo; v--) { std::vector<Decision> alt(dec.begin(), dec.begin() + di); alt.push_back({2, true, true, v}); enqueue(std::move(alt)); }
    dec.push_back({2, true, true, lo}); di++; addPc(x.bin(O_EQ, e, x.cst(lo, e->w))); return lo;
  }
  void enqueue(std::vector<Decision> &&d) { S.q->push(d); }
  // must-hold condition; reports a bug if it can fail
  void require(E c, const char *kind, const std::string &msg) {
    if (c == x.T) return; if (c == x.F) bug(kind, msg);
    if (inMerge) { for (E m : mconds) if (m == c) return; throw MergeAbort(); }
    z3::check_result r = feasible(x.Not(c), true);
    if (r == z3::sat) { std::string k = kind; pc.push_back(x.Not(c)); asgOk = true; bug(k, msg); }
    if (r == z3::unknown) { st.undecided[std::string(kind) + ": " + msg]++; }
    asgOk = asgOk && true; addPc(c);
  }

  // ------------------------------------------------------------ memory
  int newObj(OK k, uint64_t size, AllocK ak = AK_NONE) { if (inMerge) throw MergeAbort(); objs.emplace_back(); Obj &o = objs.back(); o.kind = k; o.size = size; o.ak = ak; o.mark = mark; o.inited = true; o.sparse = size > (1u << 22); if (!o.sparse) o.cells.resize(size); return objs.size() - 1; }
  int addVal(const Val &v) { vals.push_back(v); return vals.size() - 1; }
  Obj &getObj(int id) { Obj &o = objs[id]; if (!o.inited) initGlobal(id); return objs[id]; }
  void initGlobal(int id) {
    Obj &o = objs[id]; o.inited = true; if (o.kind != K_GLOBAL) return; Glob &g = M.globs[id - M.firstGlob]; o.cells.resize(o.size);
    if (g.ext) { int z = addVal(Val::I(0, 8)); for (auto &c : o.cells) c = {z, 0}; return; }
    initCells(o, 0, g.gv->getInitializer());
  }
  void initCells(Obj &o, uint64_t off, const llvm::Constant *c) {
    using namespace llvm; Type *t = c->getType(); uint64_t sz = M.dl->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { if (t->isPointerTy()) { put(o, off, Val::P(0, 0), 8); return; } int z = addVal(Val::I(0, 8)); for (uint64_t i = 0; i < sz; i++) o.cells[off + i] = {z, 0}; return; }
    if (isa<UndefValue>(c)) { int z = addVal(Val::I(0, 8)); for (uint64_t i = 0; i < sz; i++) o.cells[off + i] = {z, 0}; return; }
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = M.dl->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initCells(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = M.dl->getTypeAllocSize(at->getElementType());
      if (auto *cds = dyn_cast<ConstantDataSequential>(c)) if (at->getElementType()->isIntegerTy()) { for (unsigned i = 0; i < at->getNumElements(); i++) put(o, off + i * es, Val::I(cds->getElementAsInteger(i), es * 8), es); return; }
      for (unsigned i = 0; i < at->getNumElements(); i++) initCells(o, off + i * es, c->getAggregateElement(i)); return; }
    Val v; auto it = M.cidx.find(c); v = M.constVal(c); put(o, off, v, M.dl->getTypeStoreSize(t)); (void)it;
  }
  void put(Obj &o, uint64_t off, const Val &v, unsigned n) { int vi = addVal(v); for (unsigned i = 0; i < n; i++) o.cells[off + i] = {vi, (uint8_t)i}; }
  Cell getCell(Obj &o, uint64_t off) { if (!o.sparse) return o.cells[off]; auto it = o.sp.find(off); if (it != o.sp.end()) return it->second; if (o.zdef) return {zeroByte(), 0}; return {}; }
  int zb = 0; int zeroByte() { if (!zb) zb = addVal(Val::I(0, 8)); return zb; }
  void setCell(int oid, uint64_t off, Cell c) { Obj &o = objs[oid]; if (inMerge) undo.push_back({oid, off, getCell(o, off)}); if (o.sparse) o.sp[off] = c; else o.cells[off] = c; }
  // resolve pointer to (obj, concrete offset) for an access of n bytes; checks bounds and lifetime
  void resolve(const Val &p, uint64_t n, bool wr, int &oid, uint64_t &off) {
    st.memchk++;
    if (p.k == V_UNDEF) bug("uninit", "access through an uninitialised pointer");
    if (p.k == V_SEL) { bool c = decide(p.s->c); resolve(c ? p.s->a : p.s->b, n, wr, oid, off); return; }
    if (p.k == V_I) { oid = p.u >> 32; off = p.u & 0xffffffff; if (oid >= (int)objs.size()) bug("badptr", "access through an invalid pointer"); }
    else if (p.k == V_P) { oid = p.obj; off = p.u; }
    else if (p.k == V_SP) {
      oid = p.obj; checkAlive(oid, wr); Obj &o = getObj(oid);
      E sz = o.symSize ? o.symSize : x.cst(o.size, 64);
      E inb = x.And(x.bin(O_ULE, x.cst(n, 64), sz), x.bin(O_ULE, p.e, x.bin(O_SUB, sz, x.cst(n, 64))));
      require(inb, "oob", std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes outside " + objName(oid)); off = concretize(p.e); return; }
    else if (p.k == V_E) { uint64_t a = concretize(p.e); oid = a >> 32; off = a & 0xffffffff; if (oid >= (int)objs.size()) bug("badptr", "access through an invalid pointer"); }
    else throw Unsupported("pointer kind");
    if (n == 0 && oid == 0) return;
    checkAlive(oid, wr); Obj &o = getObj(oid);
    if (o.symSize) { E inb = x.And(x.bin(O_ULE, x.cst(n, 64), o.symSize), x.bin(O_ULE, x.cst(off, 64), x.bin(O_SUB, o.symSize, x.cst(n, 64)))); require(inb, "oob", std::string(wr ? "write" : "read") + " outside " + objName(oid)); return; }
    if (off > o.size || n > o.size - off) bug("oob", std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + objName(oid));
  }
  std::string objName(int oid) { Obj &o = objs[oid]; std::string s = o.kind == K_HEAP ? "heap block" : o.kind == K_STACK ? "stack object" : o.kind == K_GLOBAL ? "global " + M.globs[oid - M.firstGlob].name : "object"; if (o.symSize) return s + " of symbolic size"; return s + " of " + std::to_string(o.size) + " bytes"; }
  void checkAlive(int oid, bool wr) {
    if (oid == 0) bug("null", std::string("null pointer ") + (wr ? "write" : "read")); Obj &o = objs[oid];
    if (o.kind == K_FUNC) bug("badptr", "data access to a function"); if (!o.alive) bug("uaf", std::string(wr ? "write to " : "read from ") + (o.kind == K_HEAP ? "freed heap block" : "dead stack object")); if (wr && o.ro) bug("rowrite", "write to constant memory");
  }
  Val byteOf(const Cell &c) { // Val of width 8
    if (!c.vi) { Val v; v.w = 8; return v; }
    const Val &v = vals[c.vi]; switch (v.k) { case V_UNDEF: { Val u; u.w = 8; return u; } case V_I: return Val::I(v.u >> (8 * c.bi), 8); case V_E: return Val::Ex(x.extract(v.e->w < 8 ? x.zext(v.e, 8) : v.e, v.e->w < 8 ? 0 : 8 * c.bi, 8)); case V_P: return Val::I((((uint64_t)v.obj << 32) + v.u) >> (8 * c.bi), 8);
      case V_F: if (v.w == 80) throw Unsupported("byte access to long double"); return Val::I(d2bits(v.d, v.w) >> (8 * c.bi), 8); default: { Agg *a = new Agg; aggHold.emplace_back(a); a->v.push_back(v); a->bi.push_back(c.bi); Val r; r.k = V_BYTES; r.w = 8; r.g = a; return r; } }
  }
  std::deque<std::unique_ptr<Agg>> aggHold; std::deque<std::unique_ptr<SelPtr>> selHold;
  Val retype(const Val &v, const Ty &t) { // reinterpret a value loaded as type t (same byte size)
    switch (t.k) {
      case T_INT: if (v.k == V_F) return Val::I(d2bits(v.d, v.w), v.w); if (v.k == V_I || v.k == V_E) { if (v.w == t.w) return v; if (v.w > t.w) return v.k == V_I ? Val::I(v.u, t.w) : Val::Ex(x.extract(v.e, 0, t.w)); return v.k == V_I ? Val::I(v.u, t.w) : Val::Ex(x.zext(v.e, t.w)); } if (v.k == V_R) { Agg *a = new Agg; aggHold.emplace_back(a); for (int i = 0; i < v.w / 8; i++) { a->v.push_back(v); a->bi.push_back(i); } Val r; r.k = V_BYTES; r.w = v.w; r.g = a; return r; } if (v.k == V_P || v.k == V_SP || v.k == V_SEL) return v; return v;
      case T_FLOAT: if (v.k == V_I) return Val::F(bits2d(v.u, t.w), t.w); return v;
      case T_PTR: if (v.k == V_I) return Val::P(v.u >> 32, v.u & 0xffffffff); return v;
      default: return v; }
  }
  Val loadBytes(Obj &o, uint64_t off, const Ty &t) {
    unsigned n = t.bytes; Cell c0 = getCell(o, off);
    if (c0.vi && c0.bi == 0) { bool same = true; for (unsigned i = 1; i < n && same; i++) { Cell c = getCell(o, off + i); same = c.vi == c0.vi && c.bi == i; }
      if (same) { const Val &v = vals[c0.vi]; unsigned vb = v.k == V_F || v.k == V_R || v.k == V_I || v.k == V_E ? (v.w == 80 ? 10 : (v.w + 7) / 8) : 8; if (v.k == V_UNDEF) { Val u; u.w = t.w; return u; } if (v.k != V_BYTES && vb == n) return retype(v, t); if ((v.k == V_I || v.k == V_E) && t.k == T_INT) { Val q = v.k == V_I ? Val::I(v.u, t.w) : Val::Ex(x.extract(v.e, 0, t.w)); return q; } } }
    if (t.k == T_FLOAT && t.w == 80) { throw Unsupported("partial long double load"); }
    bool allC = true, any = false, bytes = false, un = false; uint64_t u = 0; std::vector<Val> bs(n);
    for (unsigned i = 0; i < n; i++) { bs[i] = byteOf(getCell(o, off + i)); if (bs[i].k == V_UNDEF) { un = true; } else any = true; if (bs[i].k == V_BYTES) bytes = true; if (bs[i].k == V_I) u |= n <= 8 ? bs[i].u << (8 * i) : 0; else allC = false; }
    if (un) { if (any && (t.k == T_INT) && n > 1) { Agg *a = new Agg; aggHold.emplace_back(a); for (unsigned i = 0; i < n; i++) { Cell c = getCell(o, off + i); a->v.push_back(c.vi ? vals[c.vi] : Val()); a->bi.push_back(c.bi); } Val r; r.k = V_BYTES; r.w = t.w; r.g = a; return r; } Val r; r.w = t.w; return r; }
    if (n > 8) throw Unsupported("wide load");
    if (allC) return retype(Val::I(u, n * 8), t);
    if (bytes) { Agg *a = new Agg; aggHold.emplace_back(a); for (unsigned i = 0; i < n; i++) { Cell c = getCell(o, off + i); a->v.push_back(vals[c.vi]); a->bi.push_back(c.bi); } Val r; r.k = V_BYTES; r.w = n * 8; r.g = a; return r; }
    E e = asE(bs[n - 1]); for (int i = (int)n - 2; i >= 0; i--) e = x.concat(e, asE(bs[i]));
    Val v = Val::Ex(e); if (t.k == T_FLOAT && v.k == V_E) { v.w = t.w; return v; } return retype(v, t);
  }
  Val load(const Val &p, const Ty &t) {
    if (p.k == V_SEL) { // load both sides and merge if harmless
      try { inMerge++; Val a, b; mconds.push_back(p.s->c); try { a = load(p.s->a, t); } catch (...) { mconds.pop_back(); throw; } mconds.back() = x.Not(p.s->c); try { b = load(p.s->b, t); } catch (...) { mconds.pop_back(); throw; } mconds.pop_back(); inMerge--; Val r; if (iteVal(p.s->c, a, b, r)) return r; }
      catch (MergeAbort &) { inMerge--; } catch (BugFound &) { inMerge--; } catch (Unsupported &) { inMerge--; }
      return load(decide(p.s->c) ? p.s->a : p.s->b, t);
    }
    if (t.k == T_AGG) { // first-class aggregate load
      Agg *a = new Agg; aggHold.emplace_back(a); unsigned n = Mod::nElems(t.t); for (unsigned i = 0; i < n; i++) { uint64_t eo = elemOff(t.t, i); a->v.push_back(load(gepOff(p, eo), M.ty(Mod::elemTy(t.t, i)))); } Val r; r.k = V_AGG; r.g = a; return r; }
    int oid; uint64_t off; resolve(p, t.bytes, false, oid, off); return loadBytes(getObj(oid), off, t);
  }
  uint64_t elemOff(llvm::Type *t, unsigned i) { if (auto *s = llvm::dyn_cast<llvm::StructType>(t)) return M.dl->getStructLayout(s)->getElementOffset(i); return i * M.dl->getTypeAllocSize(Mod::elemTy(t, i)); }
  void storeAt(int oid, uint64_t off, const Val &v, unsigned n) {
    if (v.k == V_BYTES) { for (unsigned i = 0; i < n; i++) { if (i < v.g->v.size()) { const Val &b = v.g->v[i]; if (b.k == V_UNDEF && !b.obj) setCell(oid, off + i, {}); else setCell(oid, off + i, {addVal(b), v.g->bi[i]}); } } // keep whole values whole
      for (unsigned i = 0; i + 1 < n; i++) { Cell c = getCell(objs[oid], off + i), d = getCell(objs[oid], off + i + 1); if (c.vi && d.vi && d.bi == c.bi + 1 && sameVal(vals[c.vi], vals[d.vi])) setCell(oid, off + i + 1, {c.vi, d.bi}); }
      return; }
    if (v.k == V_UNDEF) { for (unsigned i = 0; i < n; i++) setCell(oid, off + i, {}); return; }
    int vi = addVal(v); for (unsigned i = 0; i < n; i++) setCell(oid, off + i, {vi, (uint8_t)i});
  }
  bool sameVal(const Val &a, const Val &b) { return a.k == b.k && a.w == b.w && a.obj == b.obj && a.u == b.u; }
  void store(const Val &p, const Val &v, const Ty &t) {
    if (t.k == T_AGG) { unsigned n = Mod::nElems(t.t); for (unsigned i = 0; i < n; i++) store(gepOff(p, elemOff(t.t, i)), v.k == V_AGG ? v.g->v[i] : Val(), M.ty(Mod::elemTy(t.t, i))); return; }
    int oid; uint64_t off; resolve(p, t.bytes, true, oid, off); getObj(oid); Val w = v; if (t.k == T_INT && t.w < 8 && (v.k == V_I || v.k == V_E)) w = v.k == V_I ? Val::I(v.u, 8) : Val::Ex(x.zext(v.e, 8)); storeAt(oid, off, w, t.bytes);
  }
  Val gepOff(const Val &p, int64_t o) {
    if (!o) return p;
    switch (p.k) { case V_P: return Val::P(p.obj, p.u + o); case V_SP: return Val::SP(p.obj, x.bin(O_ADD, p.e, x.cst(o, 64))); case V_I: return gepOff(Val::P(p.u >> 32, p.u & 0xffffffff), o); case V_E: return Val::Ex(x.bin(O_ADD, p.e, x.cst(o, 64))); case V_SEL: return mkSel(p.s->c, gepOff(p.s->a, o), gepOff(p.s->b, o)); case V_UNDEF: return p; default: throw Unsupported("gep base"); }
  }
  Val gepE(const Val &p, E o) { if (o->op == O_CONST) return gepOff(p, (int64_t)o->c);
    switch (p.k) { case V_P: return Val::SP(p.obj, x.bin(O_ADD, o, x.cst(p.u, 64))); case V_SP: return Val::SP(p.obj, x.bin(O_ADD, p.e, o)); case V_SEL: return mkSel(p.s->c, gepE(p.s->a, o), gepE(p.s->b, o)); case V_UNDEF: return p; case V_E: return Val::Ex(x.bin(O_ADD, p.e, o)); default: throw Unsupported("gep base"); } }
  Val mkSel(E c, const Val &a, const Val &b) { if (c->op == O_CONST) return c->c ? a : b; if (sameVal(a, b)) return a; SelPtr *s = new SelPtr{c, a, b}; selHold.emplace_back(s); Val v; v.k = V_SEL; v.w = 64; v.s = s; return v; }
  bool ptrLike(const Val &v) { return v.k == V_P || v.k == V_SP || v.k == V_SEL; }
  bool iteVal(E c, const Val &a, const Val &b, Val &r) {
    if (c->op == O_CONST) { r = c->c ? a : b; return true; }
    if (sameVal(a, b)) { r = a; return true; }
    if (a.k == V_UNDEF || b.k == V_UNDEF) return false;
    if (a.k == V_AGG || b.k == V_AGG) { if (a.k != V_AGG || b.k != V_AGG || a.g->v.size() != b.g->v.size()) return false; Agg *g = new Agg; aggHold.emplace_back(g); for (size_t i = 0; i < a.g->v.size(); i++) { Val q; if (!iteVal(c, a.g->v[i], b.g->v[i], q)) return false; g->v.push_back(q); } r = Val(); r.k = V_AGG; r.g = g; return true; }
    if (a.k == V_BYTES || b.k == V_BYTES) return false;
    if (ptrLike(a) || ptrLike(b)) { if (!ptrLike(a) || !ptrLike(b)) return false; if (a.k != V_SEL && b.k != V_SEL && a.obj == b.obj && a.obj > 0) { E ea = a.k == V_P ? x.cst(a.u, 64) : a.e, eb = b.k == V_P ? x.cst(b.u, 64) : b.e; (void)ea; (void)eb; } r = mkSel(c, a, b); return true; }
    if (a.k == V_R || b.k == V_R || (mode == 1 && a.k == V_F && b.k == V_F)) { unsigned w = isF(a) ? a.w : b.w; if ((a.k == V_F && !std::isfinite(a.d)) || (b.k == V_F && !std::isfinite(b.d))) return false; r = Val::R(x.iteP(c, asP(a), asP(b)), w); return true; }
    if (isF(a) || isF(b)) { unsigned w = a.k == V_F ? a.w : b.w; if (a.k == V_F && b.k == V_F && w == 80) return false; r = fromFE(x.ite(c, asE(a), asE(b)), w); return true; }
    E ea = asE(a), eb = asE(b); if (ea->w != eb->w) return false; r = Val::Ex(x.ite(c, ea, eb)); return true;
  }
  void copyMem(const Val &dst, const Val &src, const Val &len, bool move) {
    if (len.k == V_UNDEF) bug("uninit", "uninitialised length"); uint64_t n = len.k == V_I ? len.u : concretize(asE(len)); if (!n) return;
    int so, dO; uint64_t soff, doff; resolve(src, n, false, so, soff); resolve(dst, n, true, dO, doff); getObj(so); getObj(dO);
    if (!move && so == dO && ((soff < doff + n && doff < soff + n) && soff != doff)) bug("overlap", "memcpy with overlapping ranges");
    std::vector<Cell> tmp(n); Obj &s = objs[so]; for (uint64_t i = 0; i < n; i++) tmp[i] = getCell(s, soff + i);
    if (!inMerge && !objs[dO].sparse) { auto &c = objs[dO].cells; std::copy(tmp.begin(), tmp.end(), c.begin() + doff); } else for (uint64_t i = 0; i < n; i++) setCell(dO, doff + i, tmp[i]);
  }
  void setMem(const Val &dst, const Val &val, const Val &len) {
    if (len.k == V_E && dst.k == V_P && dst.u == 0) { Obj &o = objs[dst.obj]; if (o.symSize && val.k == V_I && val.u == 0) { checkAlive(dst.obj, true); require(x.bin(O_ULE, len.e, o.symSize), "oob", "memset outside " + objName(dst.obj)); if (len.e == o.symSize || feasible(x.Not(x.bin(O_EQ, len.e, o.symSize)), false) == z3::unsat) { o.zdef = true; o.sp.clear(); return; } } }
    if (len.k == V_UNDEF) bug("uninit", "uninitialised length"); uint64_t n = len.k == V_I ? len.u : concretize(asE(len)); if (!n) return; int oid; uint64_t off; resolve(dst, n, true, oid, off); getObj(oid);
    if (val.k == V_I && val.u == 0 && objs[oid].sparse && off == 0 && n == objs[oid].size && !inMerge) { objs[oid].sp.clear(); objs[oid].zdef = true; return; }
    if (val.k == V_UNDEF) { for (uint64_t i = 0; i < n; i++) setCell(oid, off + i, {}); return; }
    int vi = addVal(val); for (uint64_t i = 0; i < n; i++) setCell(oid, off + i, {vi, 0});
  }
  Val alloc(const Val &sz, AllocK k) {
    if (sz.k == V_UNDEF) bug("uninit", "allocation of uninitialised size");
    if (sz.k == V_I) { if (sz.u > (1ull << 32)) bug("alloc", "allocation of " + std::to_string(sz.u) + " bytes"); int o = newObj(K_HEAP, sz.u, k); return Val::P(o, 0); }
    if (inMerge) throw MergeAbort();
    int o = newObj(K_HEAP, 0, k); objs[o].symSize = asE(sz); objs[o].sparse = true; return Val::P(o, 0);
  }
  void dealloc(const Val &p, AllocK k) {
    if (inMerge) throw MergeAbort();
    if (p.k == V_UNDEF) bug("uninit", "free of an uninitialised pointer");
    if (p.k == V_SEL) { dealloc(decide(p.s->c) ? p.s->a : p.s->b, k); return; }
    Val q = p; if (p.k == V_I) q = Val::P(p.u >> 32, p.u & 0xffffffff); if (q.k != V_P) throw Unsupported("free of symbolic pointer"); if (q.obj == 0 && q.u == 0) return;
    Obj &o = objs[q.obj]; if (o.kind != K_HEAP) bug("badfree", "free of a non-heap pointer"); if (!o.alive) bug("doublefree", "heap block freed twice"); if (q.u) bug("badfree", "free of an interior pointer");
    if (o.ak != k) { static const char *nm[] = {"?", "malloc", "new", "new[]"}, *fm[] = {"?", "free", "delete", "delete[]"}; bug("mismatch", std::string("memory from ") + nm[o.ak] + " released with " + fm[k]); }
    o.alive = false; o.cells.clear(); o.cells.shrink_to_fit(); o.sp.clear();
  }
#include "interp.inc"
#include "builtins.inc"
};
