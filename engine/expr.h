// Hash-consed bit-vector expressions and canonical real "polynomials" (Laurent monomials over atoms).
// One Ctx per worker thread; reset between paths.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <deque>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <z3++.h>

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

enum Op : uint8_t { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FEQ, O_FLT, O_FLE, O_FEXT, O_FTRUNC, O_FTOSI, O_FTOUI, O_SITOF, O_UITOF, O_FRND, O_UF,
  O_RLT, O_RLE, O_REQ, O_F2SI, O_F2UI, O_R2F };

struct Poly;
struct Expr { Op op; uint16_t w; uint32_t id; uint64_t c; const Expr *a, *b, *d; const Poly *p; int var; };
typedef const Expr *E;
typedef const Poly *PP;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
inline double bits2d(uint64_t v, unsigned w) { if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
inline uint64_t d2bits(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t v; memcpy(&v, &d, 8); return v; }

struct Var { std::string name; int kind; /*0 int,1 float bits (exact),2 real*/ unsigned w; };

// ---------------------------------------------------------------- polynomials
struct Mono { std::vector<std::pair<int, double>> f; };
struct Poly { std::vector<std::pair<int, double>> t; int id = -1; };
enum AK : uint8_t { A_VAR, A_EXP, A_P, A_POW, A_IND, A_MAX, A_I2R, A_UF, A_FB };
struct Atom { AK k; int var = -1; int mono = -1; PP p = nullptr, q = nullptr; E e = nullptr; bool sgn = false; std::string name; std::vector<PP> args; };

struct Ctx {
  std::deque<Expr> ex; std::unordered_map<uint64_t, std::vector<E>> tab;
  std::vector<Var> vars; std::unordered_map<std::string, int> varIdx;
  std::deque<Poly> polys; std::vector<Mono> monos; std::unordered_map<uint64_t, std::vector<int>> monoTab;
  std::vector<Atom> atoms; std::unordered_map<uint64_t, std::vector<int>> atomTab; std::unordered_map<uint64_t, std::vector<PP>> polyTab;
  std::unordered_map<uint64_t, int> mulCache;
  E T, F;
  Ctx() { reset(); }
  void reset() {
    canonC.clear(); mulC.clear();
    ex.clear(); tab.clear(); vars.clear(); varIdx.clear(); polys.clear(); monos.clear(); monoTab.clear(); atoms.clear(); atomTab.clear(); polyTab.clear(); mulCache.clear();
    monos.push_back(Mono()); monoTab[hashMono(monos[0])].push_back(0);
    T = mk(O_CONST, 1, 1); F = mk(O_CONST, 1, 0);
  }
  int addVar(const std::string &n, int kind, unsigned w) {
    auto it = varIdx.find(n); if (it != varIdx.end()) return it->second;
    int i = vars.size(); vars.push_back({n, kind, w}); varIdx[n] = i; return i;
  }
  // ---- expr construction
  static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
  E mk(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr, PP p = nullptr, int var = -1) {
    uint64_t h = mix(mix(mix(mix(mix(mix((uint64_t)op * 131 + w, c), (uint64_t)a), (uint64_t)b), (uint64_t)d), (uint64_t)p), (uint64_t)(var + 7));
    auto &v = tab[h];
    for (E e : v) if (e->op == op && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d && e->p == p && e->var == var) return e;
    ex.push_back({op, (uint16_t)w, (uint32_t)ex.size(), c, a, b, d, p, var});
    v.push_back(&ex.back()); return &ex.back();
  }
  E cst(uint64_t v, unsigned w) { return mk(O_CONST, w, v & maskw(w)); }
  E boolc(bool b) { return b ? T : F; }
  E var(const std::string &n, unsigned w, int kind) { int i = addVar(n, kind, w); return mk(O_VAR, w, 0, nullptr, nullptr, nullptr, nullptr, i); }
  static bool isC(E e) { return e->op == O_CONST; }
  E Not(E a) {
    if (isC(a)) return boolc(!a->c);
    if (a->op == O_XOR && a->b == T) return a->a;
    return mk(O_XOR, 1, 0, a, T);
  }
  E And(E a, E b) { return bin(O_AND, a, b); }
  E Or(E a, E b) { return bin(O_OR, a, b); }
  E ite(E c, E t, E e) {
    if (isC(c)) return c->c ? t : e;
    if (t == e) return t;
    if (c->op == O_XOR && c->b == T && c->w == 1) return ite(c->a, e, t);
    if (t->w == 1) {
      if (t == T && e == F) return c;
      if (t == F && e == T) return Not(c);
      if (t == T) return Or(c, e);
      if (e == F) return And(c, t);
      if (t == F) return And(Not(c), e);
      if (e == T) return Or(Not(c), t);
    }
    if (t->op == O_ITE && t->a == c) t = t->b;
    if (e->op == O_ITE && e->a == c) e = e->d;
    if (t == e) return t;
    return mk(O_ITE, t->w, 0, c, t, e);
  }
  E extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return cst(a->c >> lo, w);
    if (a->op == O_EXTRACT) return extract(a->a, lo + a->c, w);
    if (a->op == O_ZEXT) { if (lo + w <= a->a->w) return extract(a->a, lo, w); if (lo >= a->a->w) return cst(0, w); }
    if (a->op == O_SEXT && lo + w <= a->a->w) return extract(a->a, lo, w);
    if (a->op == O_CONCAT) { unsigned lw = a->b->w; if (lo + w <= lw) return extract(a->b, lo, w); if (lo >= lw) return extract(a->a, lo - lw, w); }
    if (a->op == O_ITE && isC(a->b) && isC(a->d)) return ite(a->a, extract(a->b, lo, w), extract(a->d, lo, w));
    if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR)) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
    return mk(O_EXTRACT, w, lo, a);
  }
  E concat(E hi, E lo) {
    if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, hi->w + lo->w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return extract(hi->a, lo->c, hi->w + lo->w);
    if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w) return concat(concat(hi, lo->a), lo->b);
    if (isC(hi) && hi->c == 0) return zext(lo, hi->w + lo->w);
    return mk(O_CONCAT, hi->w + lo->w, 0, hi, lo);
  }
  E zext(E a, unsigned w) { if (w == a->w) return a; if (isC(a)) return cst(a->c, w); if (a->op == O_ZEXT) return zext(a->a, w);
    if (a->op == O_ITE && isC(a->b) && isC(a->d)) return ite(a->a, cst(a->b->c, w), cst(a->d->c, w)); return mk(O_ZEXT, w, 0, a); }
  E sext(E a, unsigned w) { if (w == a->w) return a; if (isC(a)) return cst((uint64_t)sx(a->c, a->w), w); if (a->op == O_ZEXT) return zext(a->a, w);
    if (a->op == O_ITE && isC(a->b) && isC(a->d)) return ite(a->a, sext(a->b, w), sext(a->d, w)); return mk(O_SEXT, w, 0, a); }
  static uint64_t fold(Op op, uint64_t x, uint64_t y, unsigned w, bool &ok) {
    ok = true; uint64_t m = maskw(w); x &= m; y &= m;
    switch (op) {
      case O_ADD: return (x + y) & m; case O_SUB: return (x - y) & m; case O_MUL: return (x * y) & m;
      case O_UDIV: if (!y) { ok = false; return 0; } return x / y; case O_UREM: if (!y) { ok = false; return 0; } return x % y;
      case O_SDIV: { int64_t a = sx(x, w), b = sx(y, w); if (!b || (b == -1 && a == INT64_MIN)) { ok = false; return 0; } return (uint64_t)(a / b) & m; }
      case O_SREM: { int64_t a = sx(x, w), b = sx(y, w); if (!b || (b == -1 && a == INT64_MIN)) { ok = false; return 0; } return (uint64_t)(a % b) & m; }
      case O_AND: return x & y; case O_OR: return x | y; case O_XOR: return x ^ y;
      case O_SHL: return y >= w ? 0 : (x << y) & m; case O_LSHR: return y >= w ? 0 : x >> y; case O_ASHR: return (uint64_t)(sx(x, w) >> (y >= w ? 63 : y)) & m;
      case O_EQ: return x == y; case O_ULT: return x < y; case O_ULE: return x <= y; case O_SLT: return sx(x, w) < sx(y, w); case O_SLE: return sx(x, w) <= sx(y, w);
      default: ok = false; return 0;
    }
  }
  // canonical form of bit-vector arithmetic: a polynomial modulo 2^w over its non-arithmetic subterms
  typedef std::map<std::vector<uint32_t>, uint64_t> Ring; std::unordered_map<E, E> canonC; std::unordered_map<E, bool> mulC;
  bool hasMul(E e) { if (!e || e->op == O_VAR || e->op == O_CONST) return false; auto it = mulC.find(e); if (it != mulC.end()) return it->second; bool r = (e->op == O_MUL && !isC(e->a) && !isC(e->b)) || hasMul(e->a) || hasMul(e->b) || hasMul(e->d); mulC.emplace(e, r); return r; }
  bool ring(E e, Ring &r, int depth = 0) {
    unsigned w = e->w; uint64_t m = maskw(w); if (depth > 200) return false;
    if (isC(e)) { if (e->c) r[{}] = e->c; return true; }
    if (e->op == O_ADD || e->op == O_SUB || e->op == O_MUL) { Ring x, y; if (!ring(e->a, x, depth + 1) || !ring(e->b, y, depth + 1)) return false; if (x.size() * y.size() > 400) return false;
      if (e->op == O_MUL) { for (auto &p : x) for (auto &q : y) { std::vector<uint32_t> k = p.first; k.insert(k.end(), q.first.begin(), q.first.end()); std::sort(k.begin(), k.end()); uint64_t &v = r[k]; v = (v + p.second * q.second) & m; } }
      else { r = x; for (auto &q : y) { uint64_t &v = r[q.first]; v = (e->op == O_ADD ? v + q.second : v - q.second) & m; } }
      for (auto it = r.begin(); it != r.end();) it = it->second ? std::next(it) : r.erase(it); return true; }
    E k = canon(e); r[{k->id}] = 1; return true;
  }
  E canon(E e) {
    if (!hasMul(e)) return e; auto it = canonC.find(e); if (it != canonC.end()) return it->second; E r;
    if (e->op == O_ADD || e->op == O_SUB || e->op == O_MUL) { Ring g; if (!ring(e, g)) r = e; else { r = nullptr; for (auto &t : g) { E m = cst(t.second, e->w); for (uint32_t i : t.first) m = isC(m) && m->c == 1 ? &ex[i] : mk(O_MUL, e->w, 0, &ex[i], m); r = r ? mk(O_ADD, e->w, 0, m, r) : m; } if (!r) r = cst(0, e->w); } }
    else r = mk(e->op, e->w, e->c, e->a ? canon(e->a) : nullptr, e->b ? canon(e->b) : nullptr, e->d ? canon(e->d) : nullptr, e->p, e->var);
    canonC.emplace(e, r); return r;
  }
  E bin(Op op, E a, E b) {
    if (op == O_EQ && a != b && (hasMul(a) || hasMul(b)) && canon(a) == canon(b)) return T;
    unsigned w = a->w; bool cmp = op >= O_EQ && op <= O_SLE; unsigned rw = cmp ? 1 : w;
    if (isC(a) && isC(b)) { bool ok; uint64_t r = fold(op, a->c, b->c, w, ok); if (ok) return cst(r, rw); }
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    if (isC(b)) {
      uint64_t c = b->c, m = maskw(w);
      switch (op) {
        case O_ADD: if (!c) return a; if (a->op == O_ADD && isC(a->b)) return bin(O_ADD, a->a, cst(a->b->c + c, w)); break;
        case O_SUB: if (!c) return a; return bin(O_ADD, a, cst(-c, w));
        case O_MUL: if (!c) return b; if (c == 1) return a; break;
        case O_UDIV: if (c == 1) return a; break;
        case O_UREM: if (c == 1) return cst(0, w); break;
        case O_AND: if (!c) return b; if (c == m) return a;
          { // low mask -> zext(extract)
            if ((c & (c + 1)) == 0 && w > 1) { unsigned k = 0; while ((c >> k) & 1) k++; return zext(extract(a, 0, k), w); } }
          break;
        case O_OR: if (!c) return a; if (c == m) return b; break;
        case O_XOR: if (!c) return a; if (w == 1 && a->op == O_XOR && a->b == T) return a->a; break;
        case O_SHL: case O_LSHR: if (!c) return a; if (c >= w) return cst(0, w);
          if (op == O_LSHR) return zext(extract(a, c, w - c), w);
          return concat(extract(a, 0, w - c), cst(0, c));
        case O_ASHR: if (!c) return a; if (c < w) return sext(extract(a, c, w - c), w); break;
        case O_EQ:
          if (w == 1) return c ? a : Not(a);
          if (a->op == O_ZEXT) { if (c > maskw(a->a->w)) return F; return bin(O_EQ, a->a, cst(c, a->a->w)); }
          if (a->op == O_CONCAT) { return And(bin(O_EQ, a->a, cst(c >> a->b->w, a->a->w)), bin(O_EQ, a->b, cst(c, a->b->w))); }
          if (a->op == O_ITE && isC(a->b) && isC(a->d)) return ite(a->a, boolc(a->b->c == c), boolc(a->d->c == c));
          if (a->op == O_ADD && isC(a->b)) return bin(O_EQ, a->a, cst(c - a->b->c, w));
          break;
        case O_ULT: if (!c) return F; if (a->op == O_ZEXT && c > maskw(a->a->w)) return T; break;
        case O_ULE: if (c == m) return T; if (a->op == O_ZEXT && c >= maskw(a->a->w)) return T; break;
        case O_SLT: if (a->op == O_ZEXT && a->a->w < w) { if (sx(c, w) <= 0) return F; return bin(O_ULT, a, b); } break;
        case O_SLE: if (a->op == O_ZEXT && a->a->w < w) { if (sx(c, w) < 0) return F; return bin(O_ULE, a, b); } break;
        default: break;
      }
    }
    if (isC(a)) {
      uint64_t c = a->c;
      if (op == O_ULE && !c) return T;
      if (op == O_SUB && false) return a;
      if ((op == O_SHL || op == O_LSHR || op == O_UDIV || op == O_UREM) && !c && op != O_UDIV && op != O_UREM) return a;
      if (op == O_ULT && b->op == O_ZEXT && c >= maskw(b->a->w)) return F;
      if (op == O_ULE && b->op == O_ZEXT && c > maskw(b->a->w)) return F;
      if (op == O_SLT && b->op == O_ZEXT && b->a->w < w) { if (sx(c, w) < 0) return T; return bin(O_ULT, a, b); }
      if (op == O_SLE && b->op == O_ZEXT && b->a->w < w) { if (sx(c, w) <= 0) return T; return bin(O_ULE, a, b); }
    }
    if (a == b) switch (op) {
      case O_SUB: case O_XOR: return cst(0, w); case O_AND: case O_OR: return a;
      case O_EQ: case O_ULE: case O_SLE: return T; case O_ULT: case O_SLT: return F; default: break; }
    if (w == 1 && (op == O_AND || op == O_OR) && ((a->op == O_XOR && a->b == T && a->a == b) || (b->op == O_XOR && b->b == T && b->a == a))) return op == O_AND ? F : T;
    if (op == O_OR && w > 1) { // byte assembly: zext(lo) | (hi << k)
      E lo = a, hi = b; if (lo->op != O_ZEXT) std::swap(lo, hi);
      if (lo->op == O_ZEXT && hi->op == O_CONCAT && isC(hi->b) && hi->b->c == 0 && lo->a->w <= hi->b->w) return concat(hi->a, zext(lo->a, hi->b->w));
      if (lo->op == O_ZEXT && hi->op == O_ZEXT && false) return nullptr;
      if (lo->op == O_ZEXT && hi->op == O_ZEXT) { for (int s = 0; s < 2; s++, std::swap(lo, hi)) { E h = hi->a; if (h->op == O_CONCAT && isC(h->b) && h->b->c == 0 && lo->a->w <= h->b->w) return zext(concat(h->a, zext(lo->a, h->b->w)), w); } }
    }
    return mk(op, rw, 0, a, b);
  }
  // ---- exact floating point over bit patterns
  static double fop(Op op, double x, double y) { switch (op) { case O_FADD: return x + y; case O_FSUB: return x - y; case O_FMUL: return x * y; case O_FDIV: return x / y; case O_FREM: return fmod(x, y); default: return 0; } }
  E fbin(Op op, E a, E b) {
    if (isC(a) && isC(b)) {
      if (a->w == 32) { float x = bits2d(a->c, 32), y = bits2d(b->c, 32), r = 0; switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; default: r = fmodf(x, y); } return cst(d2bits(r, 32), 32); }
      return cst(d2bits(fop(op, bits2d(a->c, 64), bits2d(b->c, 64)), 64), 64);
    }
    if ((op == O_FADD || op == O_FMUL) && a->id > b->id) std::swap(a, b);
    if (op == O_FMUL) { for (int i = 0; i < 2; i++) { E c = i ? a : b, o = i ? b : a; if (isC(c) && bits2d(c->c, c->w) == 1.0) return o; } }
    if (op == O_FADD) { for (int i = 0; i < 2; i++) { E c = i ? a : b, o = i ? b : a; if (isC(c) && c->c == (1ull << (c->w - 1))) return o; } } // x + -0.0
    if ((op == O_FSUB) && isC(b) && b->c == 0) return a;
    if (op == O_FDIV && isC(b) && bits2d(b->c, b->w) == 1.0) return a;
    return mk(op, a->w, 0, a, b);
  }
  E fcmp(Op op, E a, E b) { // ordered FEQ / FLT / FLE
    if (isC(a) && isC(b)) { double x = bits2d(a->c, a->w), y = bits2d(b->c, b->w); return boolc(op == O_FEQ ? x == y : op == O_FLT ? x < y : x <= y); }
    if (a->op == O_FEXT && b->op == O_FEXT) return fcmp(op, a->a, b->a);
    if (a->op == O_FEXT && isC(b)) { double y = bits2d(b->c, 64); if ((double)(float)y == y) return fcmp(op, a->a, cst(d2bits(y, 32), 32)); }
    if (b->op == O_FEXT && isC(a)) { double y = bits2d(a->c, 64); if ((double)(float)y == y) return fcmp(op, cst(d2bits(y, 32), 32), b->a); }
    if (op == O_FEQ && a->id > b->id) std::swap(a, b);
    if (op == O_FLT && a == b) return F;
    return mk(op, 1, 0, a, b);
  }
  E fisnan(E a) { if (isC(a)) return boolc(std::isnan(bits2d(a->c, a->w))); unsigned eb = a->w == 32 ? 8 : 11, mb = a->w - 1 - eb;
    if (a->op == O_FEXT) return fisnan(a->a);
    return And(bin(O_EQ, extract(a, mb, eb), cst(maskw(eb), eb)), Not(bin(O_EQ, extract(a, 0, mb), cst(0, mb)))); }
  E fneg(E a) { return bin(O_XOR, a, cst(1ull << (a->w - 1), a->w)); }
  E fabsE(E a) { return concat(cst(0, 1), extract(a, 0, a->w - 1)); }
  E fconv(Op op, E a, unsigned w) { // FEXT FTRUNC FTOSI FTOUI SITOF UITOF
    if (isC(a)) switch (op) {
      case O_FEXT: case O_FTRUNC: return cst(d2bits(bits2d(a->c, a->w), w), w);
      case O_FTOSI: { double d = bits2d(a->c, a->w); if (d > -9.2e18 && d < 9.2e18) return cst((uint64_t)(int64_t)d, w); break; }
      case O_FTOUI: { double d = bits2d(a->c, a->w); if (d > -1 && d < 1.8e19) return cst((uint64_t)d, w); break; }
      case O_SITOF: { int64_t v = sx(a->c, a->w); return cst(w == 32 ? d2bits((float)v, 32) : d2bits((double)v, 64), w); }
      case O_UITOF: { uint64_t v = a->c; return cst(w == 32 ? d2bits((float)v, 32) : d2bits((double)v, 64), w); }
      default: break; }
    if (op == O_FTRUNC && a->op == O_FEXT && a->a->w == w) return a->a;
    if (op == O_SITOF && a->op == O_ZEXT && a->a->w < a->w) op = O_UITOF;
    if (op == O_UITOF && a->op == O_ZEXT) a = a->a;
    return mk(op, w, 0, a);
  }
  E uf(const std::string &n, E a, unsigned w) { int id = addVar("uf:" + n, 9, w); return mk(O_UF, w, 0, a, nullptr, nullptr, nullptr, id); }

  // ---- polynomials
  static uint64_t hashMono(const Mono &m) { uint64_t h = 17; for (auto &f : m.f) { h = mix(h, f.first); h = mix(h, (uint64_t)llround(f.second * 4096)); } return h; }
  int internMono(const Mono &m) {
    auto &v = monoTab[hashMono(m)];
    for (int i : v) { auto &o = monos[i].f; if (o.size() != m.f.size()) continue; bool ok = true; for (size_t k = 0; k < o.size() && ok; k++) ok = o[k].first == m.f[k].first && fabs(o[k].second - m.f[k].second) < 1e-6; if (ok) return i; }
    monos.push_back(m); v.push_back(monos.size() - 1); return monos.size() - 1;
  }
  int atomMono(int atom, double e = 1) { Mono m; m.f.push_back({atom, e}); return internMono(m); }
  int mulMonoRaw(int a, int b) {
    if (!a) return b; if (!b) return a; if (a > b) std::swap(a, b);
    uint64_t key = ((uint64_t)a << 32) | (uint32_t)b; auto it = mulCache.find(key); if (it != mulCache.end()) return it->second;
    Mono r; const auto &x = monos[a].f, &y = monos[b].f; size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.f.push_back(x[i++]);
      else if (i >= x.size() || y[j].first < x[i].first) r.f.push_back(y[j++]);
      else { double e = x[i].second + y[j].second; if (atoms[x[i].first].k == A_IND && e > 0) e = 1; if (fabs(e) > 1e-9) r.f.push_back({x[i].first, e}); i++; j++; }
    }
    int id = internMono(r); mulCache[key] = id; return id;
  }
  bool needsExpand(int m) { for (auto &f : monos[m].f) if (atoms[f.first].k == A_P && f.second >= 1 - 1e-9) return true; return false; }
  Poly *np() { polys.emplace_back(); return &polys.back(); }
  PP constP(double c) { Poly *p = np(); if (c != 0) p->t.push_back({0, c}); return p; }
  PP monoP(int m, double c) { Poly *p = np(); if (c != 0) p->t.push_back({m, c}); return p; }
  PP realVar(const std::string &n) { int v = addVar(n, 2, 0); Atom a; a.k = A_VAR; a.var = v; return monoP(atomMono(internAtom(a)), 1); }
  static bool isConst(PP p) { return p->t.empty() || (p->t.size() == 1 && p->t[0].first == 0); }
  static double constVal(PP p) { return p->t.empty() ? 0 : p->t[0].second; }
  PP norm(std::vector<std::pair<int, double>> &v, double scale) {
    std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    Poly *r = np(); size_t i = 0;
    while (i < v.size()) { double s = 0, mx = 0; size_t j = i; for (; j < v.size() && v[j].first == v[i].first; j++) { s += v[j].second; mx = std::max(mx, fabs(v[j].second)); }
      if (fabs(s) > mx * 1e-7 && s != 0) r->t.push_back({v[i].first, s * scale}); i = j; }
    return r;
  }
  PP addP(PP a, PP b, double kb = 1) {
    if (b->t.empty()) return a;
    Poly *r = np(); r->t.reserve(a->t.size() + b->t.size()); size_t i = 0, j = 0; const auto &x = a->t, &y = b->t;
    while (i < x.size() || j < y.size()) {
      if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r->t.push_back(x[i++]);
      else if (i >= x.size() || y[j].first < x[i].first) { r->t.push_back({y[j].first, y[j].second * kb}); j++; }
      else { double s = x[i].second + kb * y[j].second; if (fabs(s) > 1e-7 * std::max(fabs(x[i].second), fabs(kb * y[j].second))) r->t.push_back({x[i].first, s}); i++; j++; }
    }
    return r;
  }
  PP scaleP(PP a, double k) { if (k == 1) return a; Poly *r = np(); if (k == 0) return r; r->t = a->t; for (auto &t : r->t) t.second *= k; return r; }
  PP mulP(PP a, PP b) {
    if (isConst(a)) return scaleP(b, constVal(a)); if (isConst(b)) return scaleP(a, constVal(b));
    if (a->t.size() * b->t.size() > 4000000) throw Unsupported("polynomial too large");
    std::vector<std::pair<int, double>> v; v.reserve(a->t.size() * b->t.size()); PP extra = nullptr;
    for (auto &x : a->t) for (auto &y : b->t) {
      int m = mulMonoRaw(x.first, y.first); double c = x.second * y.second;
      if (needsExpand(m)) { PP e = expandMono(m, c); extra = extra ? addP(extra, e) : e; }
      else v.push_back({m, c});
    }
    PP r = norm(v, 1); return extra ? addP(r, extra) : r;
  }
  PP expandMono(int m, double c) { // expand positive integer powers of A_P atoms
    Mono rest; PP acc = nullptr; Mono mm = monos[m];
    for (auto &f : mm.f) {
      if (atoms[f.first].k == A_P && f.second >= 1 - 1e-9) {
        int n = (int)floor(f.second + 1e-9); double fr = f.second - n; PP base = atoms[f.first].p;
        for (int i = 0; i < n; i++) acc = acc ? mulP(acc, base) : base;
        if (fr > 1e-9) rest.f.push_back({f.first, fr});
      } else rest.f.push_back(f);
    }
    return mulP(acc, monoP(internMono(rest), c));
  }
  static bool nearc(double a, double b) { return a == b || fabs(a - b) <= 2e-6 * std::max(fabs(a), fabs(b)); }
  PP internP(PP p) { // tolerant interning
    if (p->id >= 0) return p;
    uint64_t h = 99; for (auto &t : p->t) h = mix(h, t.first);
    auto &v = polyTab[h];
    for (PP q : v) { if (q->t.size() != p->t.size()) continue; bool ok = true; for (size_t i = 0; i < q->t.size() && ok; i++) ok = q->t[i].first == p->t[i].first && nearc(q->t[i].second, p->t[i].second); if (ok) return q; }
    const_cast<Poly *>(p)->id = (int)p->t.size(); v.push_back(p); return p;
  }
  int internAtom(const Atom &a) {
    uint64_t h = mix(mix(mix(mix(mix(a.k, a.var + 3), a.mono + 5), (uint64_t)a.p), (uint64_t)a.q), (uint64_t)a.e); for (PP x : a.args) h = mix(h, (uint64_t)x); h = mix(h, std::hash<std::string>()(a.name)); h = mix(h, a.sgn);
    auto &v = atomTab[h];
    for (int i : v) { Atom &o = atoms[i]; if (o.k == a.k && o.var == a.var && o.mono == a.mono && o.p == a.p && o.q == a.q && o.e == a.e && o.args == a.args && o.name == a.name && o.sgn == a.sgn) return i; }
    atoms.push_back(a); v.push_back(atoms.size() - 1); return atoms.size() - 1;
  }
  bool posAtom(int a) { AK k = atoms[a].k; return k == A_EXP || k == A_POW || (k == A_P && atoms[a].sgn); }
  // content: common monomial (min exponents) + leading coefficient
  void splitContent(PP p, int &cm, double &cc, PP &rest) {
    std::map<int, double> mn; bool first = true;
    for (auto &t : p->t) {
      std::map<int, double> cur; for (auto &f : monos[t.first].f) cur[f.first] = f.second;
      if (first) { mn = cur; first = false; }
      else { for (auto &c : cur) if (!mn.count(c.first)) mn[c.first] = std::min(0.0, c.second);
        for (auto &m : mn) { double e = cur.count(m.first) ? cur[m.first] : 0; m.second = std::min(m.second, e); } }
    }
    Mono c, ci; for (auto &m : mn) if (fabs(m.second) > 1e-9 && atoms[m.first].k != A_IND) { c.f.push_back({m.first, m.second}); ci.f.push_back({m.first, -m.second}); }
    cm = internMono(c); int icm = internMono(ci);
    std::vector<std::pair<int, double>> v; for (auto &t : p->t) v.push_back({mulMonoRaw(t.first, icm), t.second});
    PP r = norm(v, 1); cc = r->t[0].second; rest = scaleP(r, 1.0 / cc);
  }
  PP powC(PP p, double e) { // p^e for constant e
    if (e == 0) return constP(1); if (e == 1) return p;
    if (isConst(p)) return constP(pow(constVal(p), e));
    if (e > 0 && e == floor(e) && e <= 8) { PP r = p; for (int i = 1; i < (int)e; i++) r = mulP(r, p); return r; }
    bool integral = e == floor(e);
    if (p->t.size() == 1) {
      double c = p->t[0].second; Mono m = monos[p->t[0].first]; bool ok = integral || c > 0;
      if (!integral) for (auto &f : m.f) if (!posAtom(f.first) && !(f.second == 1)) ok = false;
      for (auto &f : m.f) if (atoms[f.first].k == A_IND) ok = false;
      if (ok) { for (auto &f : m.f) f.second *= e; int id = internMono(m); if (needsExpand(id)) return expandMono(id, pow(c, e)); return monoP(id, pow(c, e)); }
      Atom a; a.k = A_P; a.p = internP(p); a.sgn = !integral; return monoP(atomMono(internAtom(a), e), 1);
    }
    int cm; double cc; PP rest; splitContent(p, cm, cc, rest);
    if (!integral) { // keep positivity questions simple: pull out only positive things
      bool allpos = cc > 0; for (auto &f : monos[cm].f) if (!posAtom(f.first)) allpos = false;
      if (!allpos) { cm = 0; if (cc > 0) rest = scaleP(p, 1.0 / cc); else { cc = 1; rest = p; } }
    }
    Atom a; a.k = A_P; a.p = internP(rest);
    PP r = monoP(atomMono(internAtom(a), e), pow(cc, e));
    if (cm) { Mono m = monos[cm]; for (auto &f : m.f) f.second *= e; r = mulP(r, monoP(internMono(m), 1)); }
    return r;
  }
  PP divP(PP a, PP b) { if (isConst(b)) { double c = constVal(b); if (c == 0) throw Unsupported("real-mode division by constant zero"); return scaleP(a, 1.0 / c); } return mulP(a, powC(b, -1)); }
  PP expP(PP p) { Mono m; double c = 1; for (auto &t : p->t) { if (t.first == 0) c *= exp(t.second); else { Atom a; a.k = A_EXP; a.mono = t.first; m.f.push_back({internAtom(a), t.second}); } }
    std::sort(m.f.begin(), m.f.end()); return monoP(internMono(m), c); }
  PP tanhP(PP p) { PP e = expP(scaleP(p, 2)); return mulP(addP(e, constP(-1)), powC(addP(e, constP(1)), -1)); }
  PP powS(PP b, PP e) { if (isConst(e)) return powC(b, constVal(e)); if (isConst(b) && constVal(b) == 1) return constP(1);
    PP ei = e; double sg = 1; if (e->t[0].second < 0) { ei = scaleP(e, -1); sg = -1; }
    Atom a; a.k = A_POW; a.p = internP(b); a.q = internP(ei); return monoP(atomMono(internAtom(a), sg), 1); }
  PP ufP(const std::string &n, PP x) { Atom a; a.k = A_UF; a.name = n; a.p = internP(x); return monoP(atomMono(internAtom(a)), 1); }
  PP i2r(E e, bool sgn) { { E t = e; while (t->op == O_ZEXT) t = t->a; if (t->op == O_F2UI && (t != e || !sgn)) return maxP(ufP("floor", t->p), constP(0)); } if (isC(e)) return constP(sgn ? (double)sx(e->c, e->w) : (double)e->c); Atom a; a.k = A_I2R; a.e = e; a.sgn = sgn; return monoP(atomMono(internAtom(a)), 1); }
  PP fb2r(E bits) { if (isC(bits)) return constP(bits2d(bits->c, bits->w)); Atom a; a.k = A_FB; a.e = bits; return monoP(atomMono(internAtom(a)), 1); }
  PP canonSign(PP d, int &sg) { double l = d->t[0].second; sg = l < 0 ? -1 : 1; return internP(scaleP(d, 1.0 / fabs(l))); }
  E rcmp(Op op, PP a, PP b) { // a op b
    PP d = addP(a, b, -1);
    if (isConst(d)) { double c = constVal(d); return boolc(op == O_RLT ? c < 0 : op == O_RLE ? c <= 0 : c == 0); }
    d = scaleP(d, 1.0 / fabs(d->t[0].second));
    if (op == O_REQ) { if (d->t[0].second < 0) d = scaleP(d, -1); return mk(O_REQ, 1, 0, nullptr, nullptr, nullptr, internP(d)); }
    if (d->t[0].second > 0) return mk(op, 1, 0, nullptr, nullptr, nullptr, internP(d)); // d op 0
    // negative leading: d<0  <=>  !(-d<=0)
    PP n = internP(scaleP(d, -1));
    return Not(mk(op == O_RLT ? O_RLE : O_RLT, 1, 0, nullptr, nullptr, nullptr, n));
  }
  PP maxP(PP a, PP b) {
    std::vector<PP> args; double cmax = -INFINITY;
    auto addA = [&](PP x) {
      if (isConst(x)) { cmax = std::max(cmax, constVal(x)); return; }
      if (x->t.size() == 1 && x->t[0].second == 1 && monos[x->t[0].first].f.size() == 1 && monos[x->t[0].first].f[0].second == 1) { Atom &t = atoms[monos[x->t[0].first].f[0].first];
        if (t.k == A_MAX) { for (PP y : t.args) if (isConst(y)) cmax = std::max(cmax, constVal(y)); else args.push_back(y); return; } }
      args.push_back(internP(x)); };
    addA(a); addA(b);
    std::sort(args.begin(), args.end()); args.erase(std::unique(args.begin(), args.end()), args.end());
    if (args.empty()) return constP(cmax);
    if (!std::isinf(cmax)) args.push_back(internP(constP(cmax)));
    if (args.size() == 1) return args[0];
    Atom at; at.k = A_MAX; at.args = args; return monoP(atomMono(internAtom(at)), 1);
  }
  PP iteP(E c, PP a, PP b) {
    if (isC(c)) return c->c ? a : b;
    if (c->op == O_XOR && c->b == T) return iteP(c->a, b, a);
    PP d = addP(a, b, -1); if (d->t.empty()) return a;
    if (c->op == O_RLT || c->op == O_RLE) {
      PP n = internP(scaleP(d, 1.0 / fabs(d->t[0].second))); // normalised a-b
      if (d->t[0].second > 0 && n == c->p) return scaleP(maxP(scaleP(a, -1), scaleP(b, -1)), -1); // a<b ? a : b
      if (d->t[0].second < 0 && internP(scaleP(n, -1)) == c->p) return maxP(a, b);                     // b<a ? a : b
    }
    Atom at; at.k = A_IND; at.e = c; return addP(b, mulP(monoP(atomMono(internAtom(at)), 1), d));
  }
  // remove negative powers of A_P by multiplying through (for equality of rational functions)
  PP clearDen(PP d, int rounds = 12) {
    while (rounds-- > 0) {
      int at = -1; double mn = 0;
      for (auto &t : d->t) for (auto &f : monos[t.first].f) if (atoms[f.first].k == A_P && f.second <= -1 + 1e-9 && (at < 0 || f.first > at)) { at = f.first; }
      if (at < 0) return d;
      for (auto &t : d->t) for (auto &f : monos[t.first].f) if (f.first == at) mn = std::min(mn, f.second);
      d = mulP(d, monoP(atomMono(at, ceil(-mn - 1e-9)), 1));
    }
    return d;
  }
  bool equalP(PP a, PP b) {
    // coefficientwise with tolerance
    size_t i = 0, j = 0; bool same = true; const auto &x = a->t, &y = b->t;
    while (same && (i < x.size() || j < y.size())) { if (i < x.size() && j < y.size() && x[i].first == y[j].first && nearc(x[i].second, y[j].second)) { i++; j++; } else same = false; }
    if (same) return true;
    PP d = addP(a, b, -1); double scale = 0; for (auto &t : a->t) scale = std::max(scale, fabs(t.second));
    PP e = clearDen(d); if (e->t.empty()) return true;
    double sc2 = 0; for (auto &t : clearDen(a)->t) sc2 = std::max(sc2, fabs(t.second));
    // near-zero residue from rounding of folded constants
    for (auto &t : e->t) { double ref = 0; for (auto &u : a->t) if (u.first == t.first) ref = fabs(u.second); (void)ref; if (fabs(t.second) > 2e-6 * std::min(1.0, sc2 ? sc2 : 1.0)) return false; }
    return true;
  }

  // ---- concrete evaluation under an assignment
  struct Asg { std::vector<uint64_t> iv; std::vector<double> rv; };
  std::unordered_map<E, uint64_t> evc; std::unordered_map<int, double> eva;
  double evAtom(int i, const Asg &g) {
    auto it = eva.find(i); if (it != eva.end()) return it->second;
    Atom a = atoms[i]; double r = 0;
    switch (a.k) {
      case A_VAR: r = a.var < (int)g.rv.size() ? g.rv[a.var] : 0; break;
      case A_EXP: r = exp(evMono(a.mono, g)); break;
      case A_P: r = evP(a.p, g); break;
      case A_POW: r = pow(evP(a.p, g), evP(a.q, g)); break;
      case A_IND: r = evE(a.e, g) ? 1 : 0; break;
      case A_MAX: r = -INFINITY; for (PP x : a.args) r = std::max(r, evP(x, g)); break;
      case A_I2R: { uint64_t v = evE(a.e, g); r = a.sgn ? (double)sx(v, a.e->w) : (double)v; break; }
      case A_FB: r = bits2d(evE(a.e, g), a.e->w); break;
      case A_UF: { double x = evP(a.p, g); if (a.name == "floor") r = floor(x); else if (a.name == "ceil") r = ceil(x); else if (a.name == "trunc") r = trunc(x); else if (a.name == "round") r = round(x); else if (a.name == "rint") r = rint(x); else if (a.name == "log") r = log(x); else if (a.name == "sin") r = sin(x); else if (a.name == "cos") r = cos(x); else if (a.name == "sqrtabs") r = sqrt(fabs(x)); else r = NAN; break; }
    }
    eva[i] = r; return r;
  }
  double evMono(int m, const Asg &g) { double r = 1; Mono mm = monos[m]; for (auto &f : mm.f) { double v = evAtom(f.first, g); r *= f.second == 1 ? v : pow(v, f.second); } return r; }
  double evP(PP p, const Asg &g) { double r = 0; for (auto &t : p->t) r += t.second * (t.first ? evMono(t.first, g) : 1); return r; }
  uint64_t evE(E e, const Asg &g) {
    if (e->op == O_CONST) return e->c;
    if (e->op == O_VAR) return e->var < (int)g.iv.size() ? g.iv[e->var] & maskw(e->w) : 0;
    auto it = evc.find(e); if (it != evc.end()) return it->second;
    uint64_t r = 0;
    switch (e->op) {
      case O_ITE: r = evE(e->a, g) ? evE(e->b, g) : evE(e->d, g); break;
      case O_CONCAT: r = (evE(e->a, g) << e->b->w) | evE(e->b, g); break;
      case O_EXTRACT: r = (evE(e->a, g) >> e->c) & maskw(e->w); break;
      case O_ZEXT: r = evE(e->a, g); break;
      case O_SEXT: r = (uint64_t)sx(evE(e->a, g), e->a->w) & maskw(e->w); break;
      case O_RLT: r = evP(e->p, g) < 0; break; case O_RLE: r = evP(e->p, g) <= 0; break; case O_REQ: r = evP(e->p, g) == 0; break;
      case O_F2SI: r = (uint64_t)(int64_t)evP(e->p, g) & maskw(e->w); break; case O_F2UI: r = (uint64_t)(int64_t)evP(e->p, g) & maskw(e->w); break;
      case O_R2F: r = d2bits(evP(e->p, g), e->w); break;
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: { E x = cstTmp(evE(e->a, g), e->a->w), y = cstTmp(evE(e->b, g), e->b->w); r = fbin(e->op, x, y)->c; break; }
      case O_FEQ: case O_FLT: case O_FLE: { double x = bits2d(evE(e->a, g), e->a->w), y = bits2d(evE(e->b, g), e->b->w); r = e->op == O_FEQ ? x == y : e->op == O_FLT ? x < y : x <= y; break; }
      case O_FSQRT: { double x = bits2d(evE(e->a, g), e->a->w); r = d2bits(e->w == 32 ? (double)sqrtf((float)x) : sqrt(x), e->w); break; }
      case O_FRND: { double x = bits2d(evE(e->a, g), e->a->w); r = d2bits(e->c == 0 ? floor(x) : e->c == 1 ? ceil(x) : e->c == 2 ? trunc(x) : e->c == 3 ? rint(x) : round(x), e->w); break; }
      case O_FEXT: case O_FTRUNC: r = d2bits(bits2d(evE(e->a, g), e->a->w), e->w); break;
      case O_FTOSI: case O_FTOUI: r = (uint64_t)(int64_t)bits2d(evE(e->a, g), e->a->w) & maskw(e->w); break;
      case O_SITOF: case O_UITOF: { E x = cstTmp(evE(e->a, g), e->a->w); r = fconv(e->op, x, e->w)->c; break; }
      case O_UF: { std::string n = vars[e->var].name.substr(3); double x = bits2d(evE(e->a, g), e->a->w); r = d2bits(n == "exp" ? (e->w == 32 ? expf(x) : exp(x)) : n == "expl" ? (x > 709.0 && x < 11357 ? 1.7e308 : x < -744 && x > -11399 ? 5e-324 : exp(x)) : n == "tanh" || n == "tanhl" ? tanh(x) : n == "log" ? log(x) : NAN, e->w); break; }
      default: { bool ok; r = fold(e->op, evE(e->a, g), evE(e->b, g), e->a->w, ok); if (!ok) r = e->op == O_UDIV || e->op == O_SDIV ? maskw(e->w) : evE(e->a, g); }
    }
    evc[e] = r; return r;
  }
  E cstTmp(uint64_t v, unsigned w) { return cst(v, w); }
  void evReset() { evc.clear(); eva.clear(); }
};

// ---------------------------------------------------------------- translation to Z3
struct Z3T {
  z3::context &c; Ctx &x; std::unordered_map<E, z3::expr> cache; std::unordered_map<int, z3::expr> acache; std::vector<z3::expr> side; std::map<std::pair<int, long>, z3::expr> pcache;
  std::map<int, z3::expr> monoVars; // linear abstraction
  bool absArith = false; // arithmetic as uninterpreted results with sound order/NaN facts
  Z3T(z3::context &c, Ctx &x) : c(c), x(x) {}
  void clear() { exts.clear(); truncs.clear(); cache.clear(); kcache.clear(); ncache.clear(); acache.clear(); side.clear(); pcache.clear(); monoVars.clear(); }
  z3::expr b2bv(const z3::expr &b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
  z3::expr asBV(E e) { z3::expr r = tr(e); return r.is_bool() ? b2bv(r) : r; }
  z3::sort fps(unsigned w) { return w == 32 ? c.fpa_sort(8, 24) : c.fpa_sort(11, 53); }
  z3::expr toFP(E e) { // avoid fp->bv->fp round trips
    if (absArith && (e->op == O_FADD || e->op == O_FSUB || e->op == O_FMUL || e->op == O_FDIV || e->op == O_FEXT || e->op == O_FTRUNC)) return z3::to_expr(c, Z3_mk_fpa_to_fp_bv(c, asBV(e), fps(e->w)));
    switch (e->op) {
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: case O_FSQRT: case O_FEXT: case O_FTRUNC: case O_SITOF: case O_UITOF: case O_FRND: return fpn(e);
      case O_ITE: { return z3::ite(tr(e->a), toFP(e->b), toFP(e->d)); }
      default: return z3::to_expr(c, Z3_mk_fpa_to_fp_bv(c, asBV(e), fps(e->w))); }
  }
  bool bitlike(E e) { if (absArith) return true; switch (e->op) { case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: case O_FSQRT: case O_FEXT: case O_FTRUNC: case O_SITOF: case O_UITOF: case O_FRND: case O_UF: return false; case O_ITE: return bitlike(e->b) && bitlike(e->d); default: return true; } }
  std::unordered_map<E, z3::expr> kcache, ncache;
  z3::expr fkey(E e) { auto it = kcache.find(e); if (it != kcache.end()) return it->second; z3::expr r(c);
    if (e->op == O_ITE) r = z3::ite(tr(e->a), fkey(e->b), fkey(e->d));
    else { z3::expr b = asBV(e); unsigned w = e->w; z3::expr top = c.bv_val((uint64_t)1 << (w - 1), w); r = z3::ite(z3::shl(b, c.bv_val(1, w)) == c.bv_val(0, w), top, z3::ite((b & top) != c.bv_val(0, w), ~b, b | top)); }
    kcache.emplace(e, r); return r; }
  z3::expr fnan(E e) { auto it = ncache.find(e); if (it != ncache.end()) return it->second; z3::expr r(c);
    if (e->op == O_ITE) r = z3::ite(tr(e->a), fnan(e->b), fnan(e->d)); else r = tr(x.fisnan(e));
    ncache.emplace(e, r); return r; }
  z3::expr bkey(const z3::expr &b) { unsigned w = b.get_sort().bv_size(); z3::expr top = c.bv_val((uint64_t)1 << (w - 1), w); return z3::ite(z3::shl(b, c.bv_val(1, w)) == c.bv_val(0, w), top, z3::ite((b & top) != c.bv_val(0, w), ~b, b | top)); }
  std::vector<std::pair<z3::expr, z3::expr>> exts, truncs;
  z3::expr absConv(E e) { // widening and narrowing conversions: monotone, exact on normal numbers when widening
    unsigned w = e->w, v = e->a->w; z3::expr a = asBV(e->a), r = c.bv_const(("abs!" + std::to_string(e->id)).c_str(), w); auto C = [&](uint64_t q, unsigned n) { return c.bv_val(q, n); };
    auto inf = [](unsigned n) { return n == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; }; z3::expr ma = a & C(~0ull >> 1 >> (64 - v), v), mr = r & C(~0ull >> 1 >> (64 - w), w); auto ax = [&](const z3::expr &q) { side.push_back(q); };
    ax(z3::ugt(ma, C(inf(v), v)) == z3::ugt(mr, C(inf(w), w))); ax(z3::implies(z3::ule(ma, C(inf(v), v)), a.extract(v - 1, v - 1) == r.extract(w - 1, w - 1))); ax(z3::implies(ma == C(inf(v), v), mr == C(inf(w), w))); ax(z3::implies(ma == C(0, v), mr == C(0, w)));
    if (e->op == O_FEXT) { ax(z3::implies(mr == C(0, w), ma == C(0, v))); ax(z3::implies(mr == C(inf(w), w), ma == C(inf(v), v)));
      z3::expr ex = a.extract(30, 23), low = a.extract(22, 0); ax(z3::implies(ex != C(0, 8) && ex != C(255, 8), mr == z3::concat(z3::zext(ex, 4) + C(896, 12), z3::concat(low, C(0, 29))) )); ax(z3::implies(ex == C(0, 8), z3::ult(mr, C(d2bits(ldexp(1, -126), 64), 64)))); }
    else for (double k : {1.0, 0.5, 2.0}) { ax(z3::implies(z3::ule(ma, C(d2bits(k, v), v)), z3::ule(mr, C(d2bits(k, w), w)))); ax(z3::implies(z3::uge(ma, C(d2bits(k, v), v)), z3::uge(mr, C(d2bits(k, w), w)))); }
    if (e->op == O_FTRUNC) ax(z3::implies(z3::ule(ma, C(d2bits(3.4028234663852886e38, v), v)), z3::ult(mr, C(inf(w), w))));
    auto &L = e->op == O_FEXT ? exts : truncs; z3::expr ka = bkey(a), kr = bkey(r); for (auto &q : L) if (q.first.get_sort().bv_size() == v && q.second.get_sort().bv_size() == w) { if (e->op == O_FEXT) { ax(z3::ule(ka, q.first) == z3::ule(kr, q.second)); ax(z3::uge(ka, q.first) == z3::uge(kr, q.second)); } else { ax(z3::implies(z3::ule(ka, q.first), z3::ule(kr, q.second))); ax(z3::implies(z3::uge(ka, q.first), z3::uge(kr, q.second))); } }
    L.emplace_back(ka, kr); return r;
  }
  z3::expr absOp(E e) {
    if (e->op == O_FEXT || e->op == O_FTRUNC) return absConv(e);
    unsigned w = e->w; uint64_t s1 = (uint64_t)1 << (w - 1), inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull;
    auto C = [&](uint64_t v) { return c.bv_val(v, w); }; auto K = [&](double d) { uint64_t b = d2bits(d, w); return C(b << 1 == 0 || (w == 32 && (uint32_t)(b << 1) == 0) ? s1 : b & s1 ? ~b & maskw(w) : b | s1); };
    z3::expr r = c.bv_const(("abs!" + std::to_string(e->id)).c_str(), w), a = asBV(e->a), b = asBV(e->b); if (e->op == O_FSUB) b = b ^ C(s1);
    auto mag = [&](const z3::expr &v) { return v & C(s1 - 1); }; auto nan = [&](const z3::expr &v) { return z3::ugt(mag(v), C(inf)); }; auto isinf = [&](const z3::expr &v) { return mag(v) == C(inf); }; auto zero = [&](const z3::expr &v) { return mag(v) == C(0); }; auto sg = [&](const z3::expr &v) { return (v & C(s1)) != C(0); };
    z3::expr ka = bkey(a), kb = bkey(b), kr = bkey(r), Z = C(s1), num = !nan(a) && !nan(b); auto le = [&](const z3::expr &p, const z3::expr &q) { return z3::ule(p, q); }; auto ax = [&](const z3::expr &q) { side.push_back(q); };
    if (e->op == O_FADD || e->op == O_FSUB) {
      ax(nan(r) == (nan(a) || nan(b) || (isinf(a) && isinf(b) && sg(a) != sg(b)))); z3::expr ok = !nan(r);
      ax(z3::implies(ok && le(Z, kb), le(ka, kr))); ax(z3::implies(ok && le(kb, Z), le(kr, ka))); ax(z3::implies(ok && le(Z, ka), le(kb, kr))); ax(z3::implies(ok && le(ka, Z), le(kr, kb)));
      z3::expr na = b ^ C(s1), kna = bkey(na); // sign of a + b from comparing a with -b
      ax(z3::implies(ok && le(kna, ka), le(Z, kr))); ax(z3::implies(ok && le(ka, kna), le(kr, Z))); ax(z3::implies(ok && isinf(a), r == a)); ax(z3::implies(ok && isinf(b), r == b));
      double big = w == 32 ? ldexp(1, 126) : ldexp(1, 1022); for (double k : {1.0, 2.0, 4.0, 8.0, big}) ax(z3::implies(num && le(mag(a), C(d2bits(k, w))) && le(mag(b), C(d2bits(k, w))), le(mag(r), C(d2bits(2 * k, w)))));
    } else if (e->op == O_FMUL) {
      ax(nan(r) == (nan(a) || nan(b) || (isinf(a) && zero(b)) || (isinf(b) && zero(a)))); z3::expr ok = !nan(r); ax(z3::implies(ok, sg(r) == (sg(a) != sg(b)))); ax(z3::implies(ok && (zero(a) || zero(b)), zero(r)));
      z3::expr one = C(d2bits(1, w)); ax(z3::implies(ok && le(mag(a), one), le(mag(r), mag(b)))); ax(z3::implies(ok && le(mag(b), one), le(mag(r), mag(a)))); ax(z3::implies(ok && le(one, mag(a)), le(mag(b), mag(r)))); ax(z3::implies(ok && le(one, mag(b)), le(mag(a), mag(r))));
    } else {
      ax(nan(r) == (nan(a) || nan(b) || (isinf(a) && isinf(b)) || (zero(a) && zero(b)))); z3::expr ok = !nan(r); ax(z3::implies(ok, sg(r) == (sg(a) != sg(b)))); ax(z3::implies(ok && zero(a), zero(r))); ax(z3::implies(ok && isinf(b), zero(r))); ax(z3::implies(ok && isinf(a), isinf(r))); ax(z3::implies(ok && zero(b), isinf(r)));
      z3::expr one = C(d2bits(1, w)); ax(z3::implies(ok && le(mag(a), mag(b)), le(mag(r), one))); ax(z3::implies(ok && le(mag(b), mag(a)), le(one, mag(r)))); ax(z3::implies(ok && le(one, mag(b)), le(mag(r), mag(a)))); ax(z3::implies(ok && le(mag(b), one), le(mag(a), mag(r))));
    }
    return r;
  }
  std::unordered_map<E, z3::expr> fcache;
  z3::expr fpn(E e) {
    auto it = fcache.find(e); if (it != fcache.end()) return it->second;
    z3::expr rne = z3::to_expr(c, Z3_mk_fpa_rne(c)), rtz = z3::to_expr(c, Z3_mk_fpa_rtz(c));
    auto f = [&]() -> z3::expr { switch (e->op) {
      case O_FADD: return z3::to_expr(c, Z3_mk_fpa_add(c, rne, toFP(e->a), toFP(e->b)));
      case O_FSUB: return z3::to_expr(c, Z3_mk_fpa_sub(c, rne, toFP(e->a), toFP(e->b)));
      case O_FMUL: return z3::to_expr(c, Z3_mk_fpa_mul(c, rne, toFP(e->a), toFP(e->b)));
      case O_FDIV: return z3::to_expr(c, Z3_mk_fpa_div(c, rne, toFP(e->a), toFP(e->b)));
      case O_FSQRT: return z3::to_expr(c, Z3_mk_fpa_sqrt(c, rne, toFP(e->a)));
      case O_FEXT: case O_FTRUNC: return z3::to_expr(c, Z3_mk_fpa_to_fp_float(c, rne, toFP(e->a), fps(e->w)));
      case O_SITOF: return z3::to_expr(c, Z3_mk_fpa_to_fp_signed(c, rne, asBV(e->a), fps(e->w)));
      case O_UITOF: return z3::to_expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne, asBV(e->a), fps(e->w)));
      case O_FRND: { Z3_ast rm = e->c == 0 ? Z3_mk_fpa_rtn(c) : e->c == 1 ? Z3_mk_fpa_rtp(c) : e->c == 2 ? Z3_mk_fpa_rtz(c) : e->c == 3 ? Z3_mk_fpa_rne(c) : Z3_mk_fpa_rna(c); return z3::to_expr(c, Z3_mk_fpa_round_to_integral(c, rm, toFP(e->a))); }
      default: throw Unsupported("fp op to z3"); } };
    z3::expr r = f(); fcache.emplace(e, r); return r;
  }
  z3::expr tr(E e) {
    auto it = cache.find(e); if (it != cache.end()) return it->second;
    z3::expr r = tr0(e); cache.emplace(e, r); return r;
  }
  z3::expr tr0(E e) {
    z3::expr rtz = z3::to_expr(c, Z3_mk_fpa_rtz(c));
    bool b1 = e->a && e->a->w == 1;
    switch (e->op) {
      case O_CONST: if (e->w == 1) return c.bool_val(e->c != 0); return c.bv_val((uint64_t)e->c, e->w);
      case O_VAR: { std::string n = x.vars[e->var].name; if (e->w == 1) return c.bool_const(n.c_str()); return c.bv_const(n.c_str(), e->w); }
      case O_AND: if (e->w == 1) return tr(e->a) && tr(e->b); return asBV(e->a) & asBV(e->b);
      case O_OR: if (e->w == 1) return tr(e->a) || tr(e->b); return asBV(e->a) | asBV(e->b);
      case O_XOR: if (e->w == 1) { if (e->b == x.T) return !tr(e->a); return tr(e->a) != tr(e->b); } return asBV(e->a) ^ asBV(e->b);
      case O_EQ: if (b1) return tr(e->a) == tr(e->b); return asBV(e->a) == asBV(e->b);
      case O_ULT: return z3::ult(asBV(e->a), asBV(e->b)); case O_ULE: return z3::ule(asBV(e->a), asBV(e->b));
      case O_SLT: return asBV(e->a) < asBV(e->b); case O_SLE: return asBV(e->a) <= asBV(e->b);
      case O_ADD: { z3::expr r = asBV(e->a) + asBV(e->b); return e->w == 1 ? r == c.bv_val(1, 1) : r; }
      case O_SUB: { z3::expr r = asBV(e->a) - asBV(e->b); return e->w == 1 ? r == c.bv_val(1, 1) : r; }
      case O_MUL: { z3::expr r = asBV(e->a) * asBV(e->b); return e->w == 1 ? r == c.bv_val(1, 1) : r; }
      case O_UDIV: return z3::udiv(asBV(e->a), asBV(e->b)); case O_SDIV: return asBV(e->a) / asBV(e->b);
      case O_UREM: return z3::urem(asBV(e->a), asBV(e->b)); case O_SREM: return z3::srem(asBV(e->a), asBV(e->b));
      case O_SHL: return z3::shl(asBV(e->a), asBV(e->b)); case O_LSHR: return z3::lshr(asBV(e->a), asBV(e->b)); case O_ASHR: return z3::ashr(asBV(e->a), asBV(e->b));
      case O_ITE: return z3::ite(tr(e->a), tr(e->b), tr(e->d));
      case O_CONCAT: return z3::concat(asBV(e->a), asBV(e->b));
      case O_EXTRACT: { z3::expr r = asBV(e->a).extract(e->c + e->w - 1, e->c); return e->w == 1 ? r == c.bv_val(1, 1) : r; }
      case O_ZEXT: return z3::zext(asBV(e->a), e->w - e->a->w); case O_SEXT: return z3::sext(asBV(e->a), e->w - e->a->w);
      case O_FEQ: case O_FLT: case O_FLE: if (bitlike(e->a) && bitlike(e->b)) { // pure bit-vector form: no arithmetic involved
        z3::expr ka = fkey(e->a), kb = fkey(e->b), ok = !fnan(e->a) && !fnan(e->b); return ok && (e->op == O_FEQ ? ka == kb : e->op == O_FLT ? z3::ult(ka, kb) : z3::ule(ka, kb)); }
      switch (e->op) { default: break;
      case O_FEQ: return z3::to_expr(c, Z3_mk_fpa_eq(c, toFP(e->a), toFP(e->b)));
      case O_FLT: return z3::to_expr(c, Z3_mk_fpa_lt(c, toFP(e->a), toFP(e->b)));
      case O_FLE: return z3::to_expr(c, Z3_mk_fpa_leq(c, toFP(e->a), toFP(e->b))); } break;
      case O_FTOSI: { z3::expr r = z3::to_expr(c, Z3_mk_fpa_to_sbv(c, rtz, toFP(e->a), e->w)); return r; }
      case O_FTOUI: { z3::expr r = z3::to_expr(c, Z3_mk_fpa_to_ubv(c, rtz, toFP(e->a), e->w)); return r; }
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FEXT: case O_FTRUNC: if (absArith) return absOp(e);
      case O_FSQRT: case O_SITOF: case O_UITOF: case O_FRND: return z3::to_expr(c, Z3_mk_fpa_to_ieee_bv(c, fpn(e)));
      case O_FREM: { z3::func_decl f = c.function("frem", c.bv_sort(e->w), c.bv_sort(e->w), c.bv_sort(e->w)); return f(asBV(e->a), asBV(e->b)); }
      case O_UF: return ufApp(e);
      case O_RLT: return poly(e->p) < 0; case O_RLE: return poly(e->p) <= 0; case O_REQ: return poly(e->p) == 0;
      case O_F2SI: case O_F2UI: { z3::expr p = poly(e->p); z3::expr fl = z3::to_expr(c, Z3_mk_real2int(c, p)); z3::expr t = z3::ite(p >= 0, fl, z3::ite(z3::to_expr(c, Z3_mk_int2real(c, fl)) == p, fl, fl + 1)); return z3::to_expr(c, Z3_mk_int2bv(c, e->w, t)); }
      case O_R2F: { z3::func_decl f = c.function("r2f", c.real_sort(), c.bv_sort(e->w)); return f(poly(e->p)); }
      default: throw Unsupported("op to z3"); }
  }
  std::map<std::pair<std::string, unsigned>, std::vector<E>> ufApps;
  z3::expr ufApp(E e) { // exp / tanh over exact floats with contract axioms
    std::string n = x.vars[e->var].name.substr(3); z3::func_decl f = c.function((n + std::to_string(e->w)).c_str(), c.bv_sort(e->w), c.bv_sort(e->w)); z3::expr r = f(asBV(e->a));
    if (absArith) { unsigned w = e->w; uint64_t s1 = (uint64_t)1 << (w - 1), infb = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; bool ld = n == "expl" || n == "tanhl"; if (ld) n.pop_back(); z3::expr a = asBV(e->a), ka = bkey(a), kr = bkey(r), mr = r & c.bv_val(s1 - 1, w), ok = z3::ule(a & c.bv_val(s1 - 1, w), c.bv_val(infb, w)), I = c.bv_val(infb, w);
      auto K = [&](double d) { uint64_t b = d2bits(d, w); return c.bv_val((b & (s1 - 1)) == 0 ? s1 : b & s1 ? ~b & maskw(w) : b | s1, w); }; auto ax = [&](const z3::expr &q) { side.push_back(q); }; auto le = [](const z3::expr &p, const z3::expr &q) { return z3::ule(p, q); };
      ax(z3::ule(mr, I) == ok);
      if (n == "exp") { double lo = ld ? 11356.0 : w == 32 ? 88.0 : 709.0, hi = ld ? 11357.0 : w == 32 ? 89.0 : 710.0, un = ld ? -11400.0 : w == 32 ? -104.0 : -746.0, sub = ld ? -11398.0 : w == 32 ? -103.0 : -744.0;
        ax(z3::implies(ok, le(K(0), kr) && r.extract(w - 1, w - 1) == c.bv_val(0, 1))); ax(z3::implies(ok && le(ka, K(0)), le(kr, K(1)))); ax(z3::implies(ok && le(K(0), ka), le(K(1), kr))); ax(z3::implies(ok && le(ka, K(lo)), mr != I)); ax(z3::implies(ok && le(K(hi), ka), mr == I)); ax(z3::implies(ok && le(ka, K(un)), mr == c.bv_val(0, w))); ax(z3::implies(ok && le(K(sub), ka), mr != c.bv_val(0, w))); }
      else if (n == "tanh") { ax(z3::implies(ok, le(kr, K(1)) && le(K(-1), kr))); ax(z3::implies(ok && le(K(0), ka), le(K(0), kr))); ax(z3::implies(ok && le(ka, K(0)), le(kr, K(0)))); }
      return r; }
    auto fp = [&](const z3::expr &b) { return z3::to_expr(c, Z3_mk_fpa_to_fp_bv(c, b, fps(e->w))); };
    z3::expr fr = fp(r), fa = toFP(e->a); z3::sort S = fps(e->w);
    auto cst = [&](double d) { return z3::to_expr(c, e->w == 32 ? Z3_mk_fpa_numeral_float(c, (float)d, S) : Z3_mk_fpa_numeral_double(c, d, S)); };
    auto leq = [&](z3::expr p, z3::expr q) { return z3::to_expr(c, Z3_mk_fpa_leq(c, p, q)); };
    auto isnan = [&](z3::expr p) { return z3::to_expr(c, Z3_mk_fpa_is_nan(c, p)); };
    side.push_back(isnan(fr) == isnan(fa));
    bool ld = n == "expl" || n == "tanhl"; if (ld) n.pop_back(); // long double: a binary64 payload with the thresholds of the 80-bit format
    if (n == "exp") {
      side.push_back(z3::implies(!isnan(fa), leq(cst(0), fr)));
      side.push_back(z3::implies(leq(fa, cst(0)), leq(fr, cst(1)))); side.push_back(z3::implies(leq(cst(0), fa), leq(cst(1), fr)));
      double lo = ld ? 11356.0 : e->w == 32 ? 88.0 : 709.0, hi = ld ? 11357.0 : e->w == 32 ? 89.0 : 710.0, un = ld ? -11400.0 : e->w == 32 ? -104.0 : -746.0, sub = ld ? -11398.0 : e->w == 32 ? -103.0 : -744.0;
      side.push_back(z3::implies(leq(fa, cst(lo)), !z3::to_expr(c, Z3_mk_fpa_is_infinite(c, fr))));
      side.push_back(z3::implies(leq(cst(hi), fa), z3::to_expr(c, Z3_mk_fpa_is_infinite(c, fr))));
      side.push_back(z3::implies(leq(fa, cst(un)), z3::to_expr(c, Z3_mk_fpa_is_zero(c, fr))));
      side.push_back(z3::implies(leq(cst(sub), fa), !z3::to_expr(c, Z3_mk_fpa_is_zero(c, fr))));
    } else if (n == "tanh") {
      side.push_back(z3::implies(!isnan(fa), leq(fr, cst(1)) && leq(cst(-1), fr)));
      side.push_back(z3::implies(leq(cst(0), fa), leq(cst(0), fr))); side.push_back(z3::implies(leq(fa, cst(0)), leq(fr, cst(0))));
    }
    return r;
  }
  z3::expr num(double d) { if (d == floor(d) && fabs(d) < 1e15) return c.real_val((int64_t)d); int ex; double m = frexp(d, &ex); int64_t n = (int64_t)ldexp(m, 53); ex -= 53; while (ex < 0 && !(n & 1)) { n /= 2; ex++; }
    z3::expr r = c.real_val(n); if (ex == 0) return r; std::string s = "1"; for (int i = 0; i < abs(ex); i++) { int cy = 0; for (int k = (int)s.size() - 1; k >= 0; k--) { int v = (s[k] - '0') * 2 + cy; s[k] = '0' + v % 10; cy = v / 10; } if (cy) s = "1" + s; }
    return ex < 0 ? c.real_val((std::to_string(n) + "/" + s).c_str()) : c.real_val(std::to_string(n).c_str()) * c.real_val(s.c_str()); }
  z3::expr atom(int i) {
    auto it = acache.find(i); if (it != acache.end()) return it->second;
    Atom a = x.atoms[i]; z3::expr r(c); std::string nm = "atom!" + std::to_string(i);
    switch (a.k) {
      case A_VAR: r = c.real_const(x.vars[a.var].name.c_str()); break;
      case A_IND: r = z3::ite(tr(a.e), c.real_val(1), c.real_val(0)); break;
      case A_P: r = poly(a.p); break;
      case A_MAX: { r = c.real_const(nm.c_str()); z3::expr_vector o(c); for (PP p : a.args) { z3::expr q = poly(p); side.push_back(r >= q); o.push_back(r == q); } side.push_back(z3::mk_or(o)); break; }
      case A_I2R: r = z3::to_expr(c, Z3_mk_int2real(c, Z3_mk_bv2int(c, asBV(a.e), a.sgn))); break;
      case A_FB: r = z3::to_expr(c, Z3_mk_fpa_to_real(c, toFP(a.e))); break;
      case A_EXP: case A_POW: r = c.real_const(nm.c_str()); side.push_back(r > 0); break;
      case A_UF: { r = c.real_const(nm.c_str()); z3::expr p = poly(a.p); if (a.name == "floor") { r = z3::to_expr(c, Z3_mk_int2real(c, Z3_mk_real2int(c, p))); } break; }
    }
    acache.emplace(i, r); return r;
  }
  z3::expr apow(int i, double e) {
    if (e == 1) return atom(i);
    long key = lround(e * 4096); auto k = std::make_pair(i, key); auto it = pcache.find(k); if (it != pcache.end()) return it->second;
    z3::expr b = atom(i), r(c);
    if (e > 0 && e == floor(e)) { r = b; for (int j = 1; j < (int)e; j++) r = r * b; }
    else { r = c.real_const(("apow!" + std::to_string(i) + "!" + std::to_string(key)).c_str());
      if (e == floor(e)) { z3::expr q = b; for (int j = 1; j < (int)-e; j++) q = q * b; side.push_back(r * q == 1); }
      else if (e == 0.5) { side.push_back(r * r == b); side.push_back(r >= 0); }
      else if (e == -0.5) { side.push_back(r * r * b == 1); side.push_back(r > 0); }
      else side.push_back(r > 0); }
    pcache.emplace(k, r); return r;
  }
  z3::expr mono(int m) { z3::expr r(c); bool f = true; Mono mm = x.monos[m]; for (auto &q : mm.f) { z3::expr e = apow(q.first, q.second); if (f) { r = e; f = false; } else r = r * e; } return r; }
  z3::expr poly(PP p) {
    if (p->t.empty()) return c.real_val(0);
    z3::expr_vector v(c); for (auto &t : p->t) v.push_back(t.first ? (t.second == 1 ? mono(t.first) : num(t.second) * mono(t.first)) : num(t.second));
    return v.size() == 1 ? v[0] : z3::sum(v);
  }
  z3::expr linPoly(PP p) { // monomials as independent reals (sound for unsat)
    if (p->t.empty()) return c.real_val(0);
    z3::expr_vector v(c);
    for (auto &t : p->t) { if (!t.first) { v.push_back(num(t.second)); continue; } auto it = monoVars.find(t.first); if (it == monoVars.end()) it = monoVars.emplace(t.first, c.real_const(("mono!" + std::to_string(t.first)).c_str())).first; v.push_back(num(t.second) * it->second); }
    return v.size() == 1 ? v[0] : z3::sum(v);
  }
};
