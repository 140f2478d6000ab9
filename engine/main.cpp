#include "exec.h"
#include <unistd.h>
#include <malloc.h>
#include <sys/wait.h>
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
template <class T> static std::string jmap(const std::map<std::string, T> &m) { std::string r = "{"; bool f = true; for (auto &p : m) { r += (f ? "" : ",") + js(p.first) + ":" + std::to_string(p.second); f = false; } return r + "}"; }
template <class T> static void addm(std::map<std::string, T> &a, const std::map<std::string, T> &b) { for (auto &p : b) a[p.first] += p.second; }
struct Wr { std::string &o; void u(uint64_t v) { o.append((char *)&v, 8); } void s(const std::string &t) { u(t.size()); o += t; } };
struct Rd { std::string &o; size_t at = 0; uint64_t u() { if (at + 8 > o.size()) throw 1; uint64_t v; memcpy(&v, o.data() + at, 8); at += 8; return v; } std::string s() { uint64_t n = u(); if (at + n > o.size()) throw 1; std::string r = o.substr(at, n); at += n; return r; } };
int main(int argc, char **argv) {
  mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 16 << 20);
  Config cfg; std::string in, out; std::string repo = "/repo";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") cfg.entry = nx(); else if (a == "--timeout") cfg.timeout = atof(nx().c_str()); else if (a == "--threads") cfg.threads = atoi(nx().c_str()); else if (a == "--max-inst") cfg.maxInst = atoll(nx().c_str()); else if (a == "--qto") cfg.qto = atoi(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--seed") cfg.seed = nx(); else if (a == "--repo") repo = nx(); else if (a == "-v") cfg.verbose = true; else in = a; }
  Mod M; M.load(in); for (auto &f : M.funcs) f->builtin = Exec::classify(*f);
  Shared S; S.m = &M; S.cfg = cfg; S.t0 = now(); S.q = Queue::make(); S.q->push({});
  if (auto *g = M.m->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto *a = llvm::dyn_cast<llvm::ConstantArray>(g->getInitializer())) for (unsigned i = 0; i < a->getNumOperands(); i++) { auto *s = llvm::cast<llvm::ConstantStruct>(a->getOperand(i)); if (auto *f = llvm::dyn_cast<llvm::Function>(s->getOperand(1)->stripPointerCasts())) S.ctors.push_back(M.fidx.at(f)); }
  std::vector<std::pair<pid_t, int>> kids; Stats &T = S.total; bool crashed = false;
  for (int k = 0; k < cfg.threads; k++) { int fd[2]; if (pipe(fd)) return 3; pid_t pid = fork();
    if (!pid) { close(fd[0]); for (auto &q : kids) close(q.second); std::string o; { std::unique_ptr<Exec> w(new Exec(S)); try { w->worker(); } catch (std::exception &e) { w->st.unsupported[std::string("internal: ") + e.what()]++; S.q->halt(false); }
        Wr r{o}; Stats &s = w->st; for (uint64_t *p : {&s.paths, &s.insts, &s.queries, &s.unk, &s.ob, &s.obConst, &s.obSolver, &s.obNorm, &s.obUndec, &s.memchk, &s.merges, &s.forks, &s.killed, &s.maxDec}) r.u(*p); r.u((uint64_t)(s.solverT * 1e6)); for (auto *m : {&s.reach, &s.unsupported, &s.undecided, &s.asserts, &S.suppressed}) { r.u(m->size()); for (auto &p : *m) { r.s(p.first); r.u(p.second); } }
        r.u(s.funcs.size()); for (int f : s.funcs) r.u(f); r.u(s.samples.size()); for (auto &x : s.samples) r.s(x); r.u(S.viols.size()); for (auto &v : S.viols) { r.s(v.kind); r.s(v.msg); r.s(v.where); r.u(v.real); r.u(v.inputs.size()); for (auto &p : v.inputs) { r.s(p.first); r.s(p.second); } } r.u(0x600d);
        for (size_t at = 0; at < o.size();) { ssize_t n = write(fd[1], o.data() + at, o.size() - at); if (n <= 0) break; at += n; } _exit(0); } }
    close(fd[1]); kids.push_back({pid, fd[0]}); }
  for (auto &q : kids) { std::string o; char buf[65536]; ssize_t n; while ((n = read(q.second, buf, sizeof buf)) > 0) o.append(buf, n); close(q.second); int stt = 0; waitpid(q.first, &stt, 0);
    try { Rd r{o}; Stats s; for (uint64_t *p : {&s.paths, &s.insts, &s.queries, &s.unk, &s.ob, &s.obConst, &s.obSolver, &s.obNorm, &s.obUndec, &s.memchk, &s.merges, &s.forks, &s.killed, &s.maxDec}) *p = r.u(); T.solverT += r.u() / 1e6; for (auto *m : {&T.reach, &T.unsupported, &T.undecided, &T.asserts, &S.suppressed}) for (uint64_t k = r.u(); k; k--) { std::string a = r.s(); (*m)[a] += r.u(); }
      T.paths += s.paths; T.insts += s.insts; T.queries += s.queries; T.unk += s.unk; T.ob += s.ob; T.obConst += s.obConst; T.obSolver += s.obSolver; T.obNorm += s.obNorm; T.obUndec += s.obUndec; T.memchk += s.memchk; T.merges += s.merges; T.forks += s.forks; T.killed += s.killed; T.maxDec = std::max(T.maxDec, s.maxDec);
      for (uint64_t k = r.u(); k; k--) T.funcs.insert(r.u()); for (uint64_t k = r.u(); k; k--) { std::string a = r.s(); if (T.samples.size() < 10) T.samples.push_back(a); }
      for (uint64_t k = r.u(); k; k--) { Violation v; v.kind = r.s(); v.msg = r.s(); v.where = r.s(); v.real = r.u(); for (uint64_t i = r.u(); i; i--) { std::string a = r.s(); v.inputs[a] = r.s(); } std::string key = v.kind + "|" + v.msg.substr(0, 60) + "|" + v.where.substr(0, v.where.find(" < ")); if (S.seen.insert(key).second) S.viols.push_back(v); else S.suppressed[key]++; }
      if (r.u() != 0x600d) throw 1;
    } catch (...) { T.unsupported["a worker process died"]++; S.q->halt(false); for (auto &k : kids) if (k.first != q.first) (void)k; crashed = true; } }
  (void)crashed;
  std::string j = "{\n"; auto kv = [&](const char *k, const std::string &v) { j += js(k) + ": " + v + ",\n"; };
  kv("entry", js(cfg.entry)); kv("wall", std::to_string(now() - S.t0)); kv("timedout", S.q->timedout ? "true" : "false"); kv("stopped_early", S.q->stop && !S.q->timedout ? "true" : "false"); kv("left", std::to_string(S.q->n));
  kv("paths", std::to_string(T.paths)); kv("infeasible", std::to_string(T.killed)); kv("instructions", std::to_string(T.insts)); kv("forks", std::to_string(T.forks)); kv("merges", std::to_string(T.merges)); kv("queries", std::to_string(T.queries)); kv("unknown", std::to_string(T.unk)); kv("solver_s", std::to_string(T.solverT)); kv("memory_checks", std::to_string(T.memchk)); kv("max_decisions", std::to_string(T.maxDec));
  kv("obligations", std::to_string(T.ob)); kv("ob_const", std::to_string(T.obConst)); kv("ob_solver", std::to_string(T.obSolver)); kv("ob_norm", std::to_string(T.obNorm)); kv("ob_undecided", std::to_string(T.obUndec));
  kv("reach", jmap(T.reach)); kv("asserts", jmap(T.asserts)); kv("unsupported", jmap(T.unsupported)); kv("undecided", jmap(T.undecided)); kv("suppressed", jmap(S.suppressed));
  { std::string f = "["; bool first = true; for (int id : T.funcs) { auto &F = *M.funcs[id]; if (F.file.rfind(repo + "/", 0) == 0 || F.file.find("network.") != std::string::npos) { f += (first ? "" : ",") + js(F.dem + " [" + (F.file.rfind(repo, 0) == 0 ? F.file.substr(repo.size() + 1) : F.file) + "]"); first = false; } } kv("functions", f + "]"); }
  { std::string f = "["; bool first = true; for (auto &s : T.samples) { f += (first ? "" : ",") + js(s); first = false; } kv("samples", f + "]"); }
  { std::string f = "["; bool first = true; for (auto &v : S.viols) { f += first ? "\n" : ",\n"; first = false; f += "{\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"where\":" + js(v.where) + ",\"real\":" + (v.real ? "true" : "false") + ",\"inputs\":{"; bool g = true; for (auto &p : v.inputs) { f += (g ? "" : ",") + js(p.first) + ":" + js(p.second); g = false; } f += "}}"; } j += "\"violations\": " + f + "]\n}\n"; }
  if (out.empty()) fputs(j.c_str(), stdout); else { std::ofstream o(out); o << j; }
  fflush(stdout); _exit(0);
}
