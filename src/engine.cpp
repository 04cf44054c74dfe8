#include "engine.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <sstream>
#include <cstdio>
using namespace llvm;
namespace pq {
bool pathSensitiveDefault = false;
typedef __int128 i128;
static i64 sxw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 s = 1ull << (w - 1); return (i64)((v ^ s) - s); }
static std::shared_ptr<Region> &wregPtr(State &s, int rid) {
  auto &p = s.mem[rid]; if (p.use_count() > 1) p = std::make_shared<Region>(*p); return p;
}

Engine::Engine(Module &m) : M(m), DL(m.getDataLayout()) { if (tap) tap(*this); }
const Function *Engine::fn(const std::string &n) { const Function *f = M.getFunction(n); return f; }

std::string Engine::loc(const Instruction *I) const {
  if (!I) return "?";
  std::string f = I->getFunction()->getName().str();
  if (auto &D = I->getDebugLoc()) {
    std::string fn = D->getFilename().str(); size_t p = fn.find("/repo/"); if (p != std::string::npos) fn = fn.substr(p + 6);
    return fn + ":" + std::to_string(D.getLine()) + " (" + f + ")";
  }
  return f;
}
std::vector<std::string> Engine::path(const State &s, unsigned maxn) const {
  std::vector<std::string> r; auto t = s.trail.get();
  while (t && r.size() < maxn) { r.push_back(loc(t->at) + (t->dir == 1 ? " taken" : t->dir == 0 ? " not taken" : " case")); t = t->prev.get(); }
  std::reverse(r.begin(), r.end()); return r;
}

// ---------------------------------------------------------------- intervals
Itv Engine::eval(T t, const State &s, int depth) const {
  Itv full{0, maskw(t->w)};
  if (t->k == TK::Const) return {t->c, t->c};
  Itv r = full;
  auto it = s.ref->find(t); if (it != s.ref->end()) r = it->second;
  if (depth > 14 || r.lo == r.hi) return r;
  auto meet = [&](u64 lo, u64 hi) { r.lo = std::max(r.lo, lo); r.hi = std::min(r.hi, hi); };
  switch (t->k) {
  case TK::Lin: {
    i128 lo = sxw(t->c, t->w), hi = lo; bool ok = true; std::vector<char> used(t->a.size(), 0);
    for (size_t i = 0; i < t->a.size() && t->a.size() <= 6; i++) if (!used[i] && t->co[i] == 1)
      for (size_t j = 0; j < t->a.size(); j++) if (!used[j] && j != i && t->co[j] == maskw(t->w)) {
        T lt = mkCmp(O_ULT, t->a[j], t->a[i]), le = mkCmp(O_ULE, t->a[j], t->a[i]); int m = -1;
        if (lt->k == TK::Const ? lt->c : s.has(lt)) m = 1; else if (le->k == TK::Const ? le->c : s.has(le)) m = 0;
        if (m >= 0) { Itv x = eval(t->a[i], s, depth + 1), y = eval(t->a[j], s, depth + 1); lo += std::max((i128)m, (i128)x.lo - (i128)y.hi); hi += (i128)x.hi - (i128)y.lo; used[i] = used[j] = 1; break; }
      }
    for (size_t i = 0; i < t->a.size(); i++) if (!used[i]) {
      Itv x = eval(t->a[i], s, depth + 1); i64 c = sxw(t->co[i], t->w);
      if (x.lo == 0 && x.hi == maskw(t->w)) { ok = false; break; }
      if (std::abs((double)c) * (double)x.hi > 1e30) { ok = false; break; }
      if (c >= 0) { lo += (i128)c * x.lo; hi += (i128)c * x.hi; } else { lo += (i128)c * x.hi; hi += (i128)c * x.lo; }
    }
    if (ok && lo >= 0 && hi <= (i128)maskw(t->w)) meet((u64)lo, (u64)hi);
    else if (ok && t->w < 64) { i128 m = (i128)1 << t->w; auto fl = [&](i128 v) { i128 q = v / m; return v < 0 && q * m != v ? q - 1 : q; }; if (fl(lo) == fl(hi)) meet((u64)(lo - fl(lo) * m), (u64)(hi - fl(hi) * m)); }
    break; }
  case TK::Byte: { if (t->a[0]->w > 64) break; Itv x = eval(t->a[0], s, depth + 1); unsigned sh = 8 * t->c; if (sh + 8 >= 64 || (x.lo >> (sh + 8)) == (x.hi >> (sh + 8))) meet((x.lo >> sh) & 255, (x.hi >> sh) & 255); break; }
  case TK::Concat: { u64 lo = 0, hi = 0; if (t->a.size() > 8) break; for (size_t i = 0; i < t->a.size(); i++) { Itv x = eval(t->a[i], s, depth + 1); lo |= x.lo << (8 * i); hi |= x.hi << (8 * i); } meet(lo, hi); break; }
  case TK::Join: if (t->a.size()) { u64 lo = ~0ull, hi = 0; for (T x : t->a) { Itv v = eval(x, s, depth + 4); lo = std::min(lo, v.lo); hi = std::max(hi, v.hi); } meet(lo, hi); } break;
  case TK::Op: {
    if (t->op == Instruction::ZExt || t->op == O_SELECT || t->op == Instruction::SExt || t->op == Instruction::Trunc) {
      if (t->op == O_SELECT) { Itv x = eval(t->a[1], s, depth + 1), y = eval(t->a[2], s, depth + 1); meet(std::min(x.lo, y.lo), std::max(x.hi, y.hi)); break; }
      Itv x = eval(t->a[0], s, depth + 1);
      if (t->op == Instruction::ZExt) meet(x.lo, x.hi);
      if (t->op == Instruction::Trunc && x.hi <= maskw(t->w)) meet(x.lo, x.hi);
      if (t->op == Instruction::SExt) { unsigned iw = t->a[0]->w; u64 sb = 1ull << (iw - 1); if (x.hi < sb) meet(x.lo, x.hi); else if (x.lo >= sb) meet((u64)sxw(x.lo, iw) & maskw(t->w), (u64)sxw(x.hi, iw) & maskw(t->w)); }
      break;
    }
    if (t->op >= O_EQ && t->op <= O_SLE) { int v = depth < 8 ? triCond(t, s) : -1; if (v >= 0) meet(v, v); break; }
    if (t->a.size() != 2 || t->op == O_CUSTOM) break;
    Itv x = eval(t->a[0], s, depth + 1), y = eval(t->a[1], s, depth + 1);
    if (x.lo == x.hi && y.lo == y.hi) { T v = mkBin(t->op, mkConst(t->w, x.lo), mkConst(t->w, y.lo)); if (v->k == TK::Const) { meet(v->c, v->c); break; } }
    auto ones = [](u64 v) { u64 m = 0; while (m < v) m = (m << 1) | 1; return m; };
    switch (t->op) {
    case Instruction::And: meet(0, std::min(x.hi, y.hi)); break;
    case Instruction::Or: meet(std::max(x.lo, y.lo), ones(x.hi | y.hi)); break;
    case Instruction::Xor: meet(0, ones(x.hi | y.hi)); break;
    case Instruction::LShr: if (y.lo == y.hi && y.lo < 64) meet(x.lo >> y.lo, x.hi >> y.lo); else meet(0, x.hi); break;
    case Instruction::AShr: if (y.lo == y.hi && y.lo < t->w) { if (x.hi < (1ull << (t->w - 1))) meet(x.lo >> y.lo, x.hi >> y.lo); else if (x.lo >= (1ull << (t->w - 1))) meet((u64)(sxw(x.lo, t->w) >> y.lo) & maskw(t->w), (u64)(sxw(x.hi, t->w) >> y.lo) & maskw(t->w)); } break;
    case Instruction::Shl: if (y.hi < 63 && x.hi <= (maskw(t->w) >> y.hi)) meet(x.lo << y.lo, x.hi << y.hi); break;
    case Instruction::UDiv: if (y.lo > 0) meet(x.lo / y.hi, x.hi / y.lo); break;
    case Instruction::URem: if (y.lo > 0) { meet(0, y.hi - 1); meet(0, x.hi); if (x.hi < y.lo) meet(x.lo, x.hi); } break;
    case Instruction::SDiv: if (y.lo > 0 && x.hi < (1ull << (t->w - 1)) && y.hi < (1ull << (t->w - 1))) meet(x.lo / y.hi, x.hi / y.lo); break;
    case Instruction::SRem: if (y.lo > 0 && x.hi < (1ull << (t->w - 1)) && y.hi < (1ull << (t->w - 1))) { meet(0, y.hi - 1); if (x.hi < y.lo) meet(x.lo, x.hi); } break;
    case Instruction::Mul: if ((unsigned __int128)x.hi * (unsigned __int128)y.hi <= (unsigned __int128)maskw(t->w)) meet(x.lo * y.lo, x.hi * y.hi); break;
    }
    break; }
  default: break;
  }
  return r;
}
bool Engine::constOf(T t, const State &s, u64 &v) const {
  if (t->k == TK::Const) { v = t->c; return true; }
  if (t->k == TK::Ptr || t->k == TK::Fn || t->k == TK::Seq) return false;
  Itv i = eval(t, s); if (i.lo == i.hi) { v = i.lo; return true; } return false;
}
static int triTab(T c, const State &s);
bool Engine::equal(T a, T b, const State &s) const {
  if (a == b) return true; if (a->w != b->w) return false;
  u64 x, y; if (constOf(a, s, x) && constOf(b, s, y)) return x == y;
  T e = mkCmp(O_EQ, a, b); if (e->k == TK::Const) return e->c; return s.has(e) || triTab(e, s) == 1;
}
bool Engine::provLE(T a, T b, const State &s) const {
  Itv x = eval(a, s), y = eval(b, s);
  if (x.hi <= y.lo) return true;
  T c = mkCmp(O_ULE, a, b); if (c->k == TK::Const) { if (c->c) return true; } else if (s.has(c)) return true;
  T d = mkSub(b, a); Itv z = eval(d, s);
  // lengths and offsets are < 2^62 by the object-size assumption, so a small difference means a <= b
  if (a->w == 64 && z.hi < (1ull << 62) && x.hi < (1ull << 62) && y.hi < (1ull << 62)) return true;
  if (provLin(a, b, s)) return true;
  if (stepWiden && a->k == TK::Join && a->a.size()) { for (T x : a->a) if (x->k == TK::Ptr || x->w != b->w || !provLE(x, b, s)) return false; return true; }
  return false;
}
// integer linear form of a term: exact because sums that could wrap around stay opaque
struct LinForm { std::map<T, i128> co; i128 c = 0; };
// t = p - n with nonnegative coefficients
static void posNeg(T d, T &p, T &n) { p = n = mkConst(d->w, 0); i64 k = sxw(d->c, d->w); (k >= 0 ? p : n) = mkConst(d->w, (u64)(k >= 0 ? k : -k)); for (size_t i = 0; i < d->a.size(); i++) { i64 q = sxw(d->co[i], d->w); if (q >= 0) p = mkAdd(p, mkMulC(d->a[i], (u64)q)); else n = mkAdd(n, mkMulC(d->a[i], (u64)-q)); } }
static void linOf(const Engine &E, T t, const State &s, i128 k, LinForm &f, int depth = 0) {
  if (t->k == TK::Const) { f.c += k * (i128)t->c; return; }
  if (t->k == TK::Op && t->op == Instruction::ZExt) { linOf(E, t->a[0], s, k, f, depth + 1); return; }
  if (t->k == TK::Lin && depth < 12) {
    i128 lo = sxw(t->c, t->w), hi = lo, ph = lo > 0 ? lo : 0, nh = lo < 0 ? -lo : 0; bool ok = true;
    for (size_t i = 0; i < t->a.size(); i++) { Itv v = E.eval(t->a[i], s); i128 q = sxw(t->co[i], t->w); if (v.hi > (1ull << 62)) { ok = false; break; } (q > 0 ? ph : nh) += (q > 0 ? q : -q) * (i128)v.hi; lo += q > 0 ? q * (i128)v.lo : q * (i128)v.hi; hi += q > 0 ? q * (i128)v.hi : q * (i128)v.lo; }
    static thread_local int nest = 0;
    if (ok && lo < 0 && ph <= (i128)maskw(t->w) && nh <= (i128)maskw(t->w) && E.stepWiden && nest < 2) { T p, n; posNeg(t, p, n); nest++; if (p->w <= 32 && E.provLin(n, p, s)) lo = 0; nest--; }   // no wrap-around because the facts order the two parts
    if (ok && lo >= 0 && hi <= (i128)maskw(t->w)) { f.c += k * (i128)sxw(t->c, t->w); for (size_t i = 0; i < t->a.size(); i++) linOf(E, t->a[i], s, k * (i128)sxw(t->co[i], t->w), f, depth + 1); return; }
  }
  f.co[t] += k;
}
u64 Engine::linHi(T b, const State &s) const { LinForm f; linOf(*this, b, s, 1, f); i128 m = f.c; for (auto &kv : f.co) { Itv v = eval(kv.first, s); m += kv.second > 0 ? kv.second * (i128)v.hi : kv.second * (i128)v.lo; if (m > (i128)maskw(b->w)) break; } return m < 0 ? 0 : m > (i128)maskw(b->w) ? maskw(b->w) : (u64)m; }
// a <= b from known order facts: b - a = sum of nonnegative multiples of facts plus something nonnegative
bool Engine::provLin(T a, T b, const State &s) const {
  LinForm g; linOf(*this, b, s, 1, g); linOf(*this, a, s, -1, g);
  auto minOf = [&](const LinForm &f) { i128 m = f.c; for (auto &kv : f.co) { if (!kv.second) continue; Itv v = eval(kv.first, s); if (v.hi > (1ull << 62)) return (i128)-1; m += kv.second > 0 ? kv.second * (i128)v.lo : kv.second * (i128)v.hi; } return m; };
  auto minus = [](const LinForm &x, const LinForm &y, i128 k) { LinForm r = x; r.c -= k * y.c; for (auto &kv : y.co) r.co[kv.first] -= k * kv.second; return r; };
  if (minOf(g) >= 0) return true;
  std::vector<LinForm> fs;
  for (T f : *s.facts) {
    if (f->k != TK::Op || f->op < O_ULT || f->op > O_SLE || f->a[0]->k == TK::Ptr || f->a[1]->k == TK::Ptr) continue;
    T x = f->a[0], y = f->a[1];
    if (f->op == O_SLT || f->op == O_SLE) { u64 sb = 1ull << (x->w - 1); if (eval(x, s).hi >= sb || eval(y, s).hi >= sb) continue; }
    LinForm l; linOf(*this, y, s, 1, l); linOf(*this, x, s, -1, l); if (f->op == O_ULT || f->op == O_SLT) l.c -= 1;
    bool rel = false; for (auto &kv : l.co) if (kv.second && g.co.count(kv.first)) rel = true;
    if (rel) { fs.push_back(l); if (fs.size() > 24) break; }
  }
  for (auto &f : fs) for (i128 k : {1, 2, 4, 8}) { LinForm r = minus(g, f, k); if (minOf(r) >= 0) return true; for (auto &h : fs) if (minOf(minus(r, h, k)) >= 0) return true; }
  return false;
}
static int triTab(T c, const State &s) {
  T at; const std::vector<u64> *t = c->w == 1 ? tableOf(c, at) : nullptr; if (!t) return -1;
  auto it = s.vs->find(at); bool y = false, n = false; for (u64 i = 0; i < 256; i++) if (it == s.vs->end() || it->second[i]) ((*t)[i] ? y : n) = true;
  return y && !n ? 1 : n && !y ? 0 : -1;
}
static void assumeTab(T c, bool truth, State &s) {
  T at; const std::vector<u64> *t = c->w == 1 ? tableOf(c, at) : nullptr; if (!t) return;
  auto it = s.vs->find(at); std::bitset<256> b; for (u64 i = 0; i < 256; i++) b[i] = (it == s.vs->end() || it->second[i]) && ((*t)[i] != 0) == truth;
  if (b.none()) { s.dead = true; return; } if (b.all()) return;
  if (s.vs.use_count() == 1) const_cast<std::map<T, std::bitset<256>> &>(*s.vs)[at] = b; else { auto n = std::make_shared<std::map<T, std::bitset<256>>>(*s.vs); (*n)[at] = b; s.vs = n; }
}
int Engine::triCond(T c, const State &s) const {
  if (c->k == TK::Const) return c->c != 0;
  if (s.has(c)) return 1;
  if (c->k == TK::Op && c->op == Instruction::And) { int x = triCond(c->a[0], s), y = triCond(c->a[1], s); if (x == 0 || y == 0) return 0; if (x == 1 && y == 1) return 1; return -1; }
  if (c->k == TK::Op && c->op == Instruction::Or) { int x = triCond(c->a[0], s), y = triCond(c->a[1], s); if (x == 1 || y == 1) return 1; if (x == 0 && y == 0) return 0; return -1; }
  T n = mkNot1(c); if (s.has(n)) return 0;
  if (c->k == TK::Op && c->op == Instruction::Xor && isC(c->a[1], 1)) { int v = triCond(c->a[0], s); return v < 0 ? v : !v; }
  if (c->k == TK::Op && c->op >= O_EQ && c->op <= O_SLE) {
    T a = c->a[0], b = c->a[1];
    if (a->k == TK::Ptr || b->k == TK::Ptr) return -1;
    Itv x = eval(a, s, 1), y = eval(b, s, 1);
    switch (c->op) {
    case O_EQ: case O_NE: { int v = -1; if (x.lo == x.hi && y.lo == y.hi) v = x.lo == y.lo; else if (x.hi < y.lo || y.hi < x.lo) v = 0; 
      else if (b->k == TK::Const && b->c == 0 && a->k == TK::Op && a->op == Instruction::Or) { // or != 0 if one part != 0
        for (T p : a->a) { T ne = mkCmp(O_NE, p, mkConst(p->w, 0)); if (triCond(ne, s) == 1) v = 0; } }
      if (v < 0) return triTab(c, s); return c->op == O_EQ ? v : !v; }
    case O_ULT: if (x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; return triTab(c, s);
    case O_ULE: if (x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; return triTab(c, s);
    case O_SLT: case O_SLE: {
      unsigned w = a->w; u64 sb = 1ull << (w - 1); auto cross = [&](Itv v) { return v.lo < sb && v.hi >= sb; };
      if (cross(x) || cross(y)) return triTab(c, s);
      i64 xl = sxw(x.lo, w), xh = sxw(x.hi, w), yl = sxw(y.lo, w), yh = sxw(y.hi, w);
      if (c->op == O_SLT) { if (xh < yl) return 1; if (xl >= yh) return 0; } else { if (xh <= yl) return 1; if (xl > yh) return 0; } return triTab(c, s); }
    }
  }
  u64 v; if (c->k != TK::Op || c->op < O_EQ) { auto it = s.ref->find(c); if (it != s.ref->end() && it->second.lo == it->second.hi) return it->second.lo != 0; (void)v; }
  return triTab(c, s);
}
static void setRef(State &s, T t, Itv i) {
  if (s.ref.use_count() == 1) { const_cast<std::map<T, Itv> &>(*s.ref)[t] = i; return; }
  auto n = std::make_shared<std::map<T, Itv>>(*s.ref); (*n)[t] = i; s.ref = n;
}
static void refine(const Engine &E, State &s, T t, u64 lo, u64 hi, int depth = 0) {
  if (s.dead) return;
  Itv c = E.eval(t, s); u64 nlo = std::max(lo, c.lo), nhi = std::min(hi, c.hi);
  if (nlo > nhi) { s.dead = true; return; }
  if (t->k == TK::Const) return;
  if (nlo == c.lo && nhi == c.hi && depth == 0) return;
  setRef(s, t, {nlo, nhi});
  if (depth > 20) return;
  if (t->k == TK::Op && t->op == Instruction::ZExt) refine(E, s, t->a[0], nlo, std::min(nhi, maskw(t->a[0]->w)), depth + 1);
  else if (t->k == TK::Op && t->op == Instruction::SExt && nhi < (1ull << (t->a[0]->w - 1))) refine(E, s, t->a[0], nlo, nhi, depth + 1);
  else if (t->k == TK::Lin && t->a.size() == 1 && t->co[0] == 1) {
    u64 k = t->c, m = maskw(t->w); // t = x + k mod 2^w
    Itv x = E.eval(t->a[0], s); i128 xl = (i128)x.lo + sxw(k, t->w), xh = (i128)x.hi + sxw(k, t->w);
    if (xl >= 0 && xh <= (i128)m) { i128 a = (i128)nlo - sxw(k, t->w), b = (i128)nhi - sxw(k, t->w); if (a < 0) a = 0; if (b < 0) { s.dead = true; return; } refine(E, s, t->a[0], (u64)a, (u64)b, depth + 1); }
    else { u64 a = (nlo - k) & m, b = (nhi - k) & m; if (a <= b) refine(E, s, t->a[0], a, b, depth + 1); }
  } else if (t->w == 1 && nlo == nhi && !(t->k == TK::Leaf)) E.assume(t, nlo != 0, s);
}
void Engine::assume(T c, bool truth, State &s) const {
  if (s.dead) return;
  int v = triCond(c, s);
  if (v >= 0 && v != (int)truth) { s.dead = true; return; }
  if (c->k == TK::Const) return;
  assumeTab(c, truth, s); if (s.dead) return;
  if (c->k == TK::Op && c->w == 1) {
    if (c->op == Instruction::And && truth) { assume(c->a[0], true, s); assume(c->a[1], true, s); return; }
    if (c->op == Instruction::Or && !truth) { assume(c->a[0], false, s); assume(c->a[1], false, s); return; }
    if (c->op == Instruction::Xor && isC(c->a[1], 1)) { assume(c->a[0], !truth, s); return; }
    if (c->op == Instruction::And && !truth) { if (triCond(c->a[0], s) == 1) { assume(c->a[1], false, s); return; } if (triCond(c->a[1], s) == 1) { assume(c->a[0], false, s); return; } }
    if (c->op == Instruction::Or && truth) { if (triCond(c->a[0], s) == 0) { assume(c->a[1], true, s); return; } if (triCond(c->a[1], s) == 0) { assume(c->a[0], true, s); return; } }
  }
  if (!truth) { T n = mkNot1(c); if (n->k == TK::Op && n->op == Instruction::Xor && isC(n->a[1], 1)) { s.addFact(n); if (c->w == 1) setRef(s, c, {0, 0}); return; } assume(n, true, s); return; }
  s.addFact(c);
  if (c->k != TK::Op || c->op < O_EQ || c->op > O_SLE) { setRef(s, c, {1, 1}); return; }
  T a = c->a[0], b = c->a[1]; if (a->k == TK::Ptr || b->k == TK::Ptr) return;
  switch (c->op) {
  case O_EQ: {
    Itv x = eval(a, s, 1), y = eval(b, s, 1); u64 lo = std::max(x.lo, y.lo), hi = std::min(x.hi, y.hi); if (lo > hi) { s.dead = true; return; }
    refine(*this, s, a, lo, hi); refine(*this, s, b, lo, hi); if (s.dead) return;
    if (isC(b, 0) && a->k == TK::Op && a->op == Instruction::Or) for (T p : a->a) assume(mkCmp(O_EQ, p, mkConst(p->w, 0)), true, s);
    if (isC(b, 0) && a->k == TK::Concat) for (T p : a->a) assume(mkCmp(O_EQ, p, mkConst(8, 0)), true, s);
    if (a->k == TK::Op && a->op == Instruction::ZExt && b->k == TK::Const && a->a[0]->w == 1) assume(a->a[0], b->c != 0, s);
    if (a->k == TK::Concat && b->k == TK::Concat && a->a.size() == b->a.size()) for (size_t i = 0; i < a->a.size() && !s.dead; i++) assume(mkCmp(O_EQ, a->a[i], b->a[i]), true, s);
    if (a->k == TK::Op && a->op == O_SELECT && b->k == TK::Const && a->a[1]->k == TK::Const && a->a[2]->k == TK::Const && a->a[1]->c != a->a[2]->c) {
      if (a->a[1]->c == b->c) assume(a->a[0], true, s); else if (a->a[2]->c == b->c) assume(a->a[0], false, s); else s.dead = true; }
    break; }
  case O_NE: {
    if (stepWiden && a->w > 1) { T p = a, q = b; if (a->k == TK::Lin && b->k == TK::Const) { T d = mkSub(a, b); if (d->k == TK::Lin) posNeg(d, p, q); }
      if (provLE(p, q, s)) { T f = mkCmp(O_ULT, p, q); if (f->k == TK::Op && f->op == O_ULT) assume(f, true, s); } else if (provLE(q, p, s)) { T f = mkCmp(O_ULT, q, p); if (f->k == TK::Op && f->op == O_ULT) assume(f, true, s); } if (s.dead) return; }
    if (b->k == TK::Const) { Itv x = eval(a, s, 1); if (x.lo == b->c && x.hi == b->c) { s.dead = true; return; } if (x.lo == b->c) refine(*this, s, a, x.lo + 1, x.hi); else if (x.hi == b->c) refine(*this, s, a, x.lo, x.hi - 1);
      if (a->k == TK::Op && a->op == O_SELECT && a->a[1]->k == TK::Const && a->a[2]->k == TK::Const) { if (a->a[1]->c == b->c) assume(a->a[0], false, s); else if (a->a[2]->c == b->c) assume(a->a[0], true, s); } }
    break; }
  case O_ULT: case O_ULE: {
    Itv x = eval(a, s, 1), y = eval(b, s, 1); u64 st = c->op == O_ULT;
    if (st && (y.hi == 0 || x.lo == maskw(a->w))) { s.dead = true; return; }
    refine(*this, s, a, x.lo, std::min(x.hi, y.hi - st)); if (s.dead) return;
    refine(*this, s, b, std::max(y.lo, x.lo + st), y.hi); break; }
  case O_SLT: case O_SLE: {
    unsigned w = a->w; u64 sb = 1ull << (w - 1), mk = maskw(w); u64 st = c->op == O_SLT;
    Itv x = eval(a, s, 1), y = eval(b, s, 1);
    if (x.hi < sb && y.hi < sb) { if (st && y.hi == 0) { s.dead = true; return; } refine(*this, s, a, x.lo, std::min(x.hi, y.hi - st)); if (!s.dead) refine(*this, s, b, std::max(y.lo, x.lo + st), y.hi); break; }
    if (b->k == TK::Const) { i64 bv = sxw(b->c, w) - (i64)st; if (bv < 0) refine(*this, s, a, sb, (u64)bv & mk); else if (x.lo < sb && x.hi >= sb) {} break; }
    if (a->k == TK::Const) { i64 av = sxw(a->c, w) + (i64)st; if (av >= 0) refine(*this, s, b, (u64)av, sb - 1); break; }
    if (x.hi < sb) refine(*this, s, b, x.lo + st, sb - 1);
    break; }
  }
}

// ---------------------------------------------------------------- memory
int Engine::newRegion(State &s, const std::string &name, T size, Def d, bool wr) {
  int id = nextRid++; auto r = std::make_shared<Region>(); r->name = name; r->size = size; r->def = d; r->writable = wr; r->hav = nextHav++;
  s.mem[id] = r; return id;
}
Region &Engine::wreg(State &s, int rid) { return *wregPtr(s, rid); }
const Region *Engine::rreg(const State &s, int rid) const { auto it = s.mem.find(rid); return it == s.mem.end() ? nullptr : it->second.get(); }
static T defByte(const Region &r, u64 off) {
  switch (r.def) {
  case Def::Zero: return mkConst(8, 0);
  case Def::Init: return mkLeaf(r.name, off, 8);
  case Def::Uninit: return mkLeaf("uninit:" + r.name + "#" + std::to_string(r.hav), off, 8);
  default: return mkLeaf("?hav" + std::to_string(r.hav), off, 8);
  }
}
static Cell getCell(const Region &r, u64 off) {
  auto it = r.ch.find(off / CH); if (it != r.ch.end()) { Cell c = it->second->c[off % CH]; if (c.t) return c; }
  return {defByte(r, off), 0};
}
static bool rawCell(const Region &r, u64 off, Cell &c) { auto it = r.ch.find(off / CH); if (it == r.ch.end()) return false; c = it->second->c[off % CH]; return c.t != nullptr; }
static void setCell(Region &r, u64 off, Cell c) { if (r.sink) return;
  auto &p = r.ch[off / CH]; if (!p) p = std::make_shared<Chunk>(); else if (p.use_count() > 1) p = std::make_shared<Chunk>(*p);
  p->c[off % CH] = c;
}
T Engine::loadBytes(State &s, int rid, u64 off, unsigned n) {
  const Region &r = *rreg(s, rid);
  Cell c0; if (rawCell(r, off, c0) && c0.k == 0 && c0.t->w == 8 * n) {
    bool ok = true; for (unsigned i = 1; i < n && ok; i++) { Cell c; ok = rawCell(r, off + i, c) && c.t == c0.t && c.k == i; }
    if (ok) return c0.t;
  }
  TV b(n); for (unsigned i = 0; i < n; i++) { Cell c = getCell(r, off + i); b[i] = mkByte(c.t, c.k); }
  return mkConcat(b);
}
void Engine::storeBytes(State &s, int rid, u64 off, T v, unsigned n) {
  Region &r = wreg(s, rid);
  if (v->w != 8 * n) v = mkZext(v, 8 * n);
  if (v->k == TK::Concat) { for (unsigned i = 0; i < n; i++) setCell(r, off + i, {v->a[i], 0}); return; }
  for (unsigned i = 0; i < n; i++) setCell(r, off + i, {v, (uint8_t)i});
}
void Engine::memFail(State &s, const Instruction *at, const std::string &what) {
  std::string key = loc(at) + "|" + what;
  if (!memSeen.insert(key).second) return;
  if (memFindings.size() < 50) { auto p = path(s); std::string st; for (auto *c : stack) p.push_back("call " + loc(c)); memFindings.push_back({loc(at), what, p}); }
}
std::function<void(Engine &)> Engine::tap;
bool Engine::access(State &s, T ptr, T len, bool write, const Instruction *at, const char *what) {
  if (onLeak) { if (ptr->k != TK::Ptr) onLeak(s, at, ptr, "address"); else if (ptr->a[0]->k != TK::Const) onLeak(s, at, ptr->a[0], "address"); if (len->k != TK::Const) onLeak(s, at, len, "length"); }
  if (!checkBounds) { if (ptr->k != TK::Ptr) return false; return rreg(s, (int)ptr->c) != nullptr; }
  accesses++; Access &A = acc[at]; A.total++;
  if (isC(len, 0)) { A.ok++; return ptr->k == TK::Ptr; }
  if (ptr->k != TK::Ptr) {
    u64 v; bool nul = constOf(ptr, s, v) && v < 4096;
    if (!nul && ptr->k == TK::Join && ptr->a.size()) { bool all = true; for (T x : ptr->a) if (x->k != TK::Ptr) all = false; if (all) { bool ok = true; for (T x : ptr->a) ok &= access(s, x, len, write, at, what); return false; } }
    if (nul) memFail(s, at, std::string("null pointer ") + what); else memFail(s, at, std::string(what) + " through an address the analysis cannot resolve: " + show(ptr));
    return false;
  }
  const Region *r = rreg(s, (int)ptr->c);
  if (!r) { memFail(s, at, std::string(what) + " of an object that is out of scope"); return false; }
  if (r->freed) { memFail(s, at, std::string(what) + " of released memory '" + r->name + "'"); return false; }
  if (write && !r->writable) { memFail(s, at, "write to constant input '" + r->name + "'"); return false; }
  T end = mkAdd(ptr->a[0], len);
  Itv eo = eval(ptr->a[0], s), ee = eval(end, s);
  bool ok = provLE(end, r->size, s) && eo.hi < (1ull << 62);
  if (ok && ee.lo == ee.hi && eo.lo == eo.hi && ee.lo < eo.lo) ok = false;
  if (!ok) { std::ostringstream o; o << what << " of '" << r->name << "' at offset " << show(ptr->a[0]) << " [" << eo.lo << ".." << eo.hi << "] length " << show(len) << " exceeds size " << show(r->size); memFail(s, at, o.str()); return eo.hi < (1ull << 40) && false; }
  A.ok++; return true;
}
T Engine::load(State &s, T ptr, unsigned n, const Instruction *at) {
  if (!access(s, ptr, mkConst(64, n), false, at, "read")) return mkFresh("badload", 8 * n);
  u64 off; if (!constOf(ptr->a[0], s, off)) {
    const Region *r = rreg(s, (int)ptr->c); Itv o = eval(ptr->a[0], s);
    T v = mkFresh("sym:" + r->name, 8 * n);
    if (secret) { bool sec = secret(ptr->a[0]); for (auto &kv : r->ch) for (unsigned i = 0; i < CH && !sec; i++) if (kv.second->c[i].t && secret(kv.second->c[i].t)) sec = true; if (sec) return secretOf(8 * n); }
    if (o.hi - o.lo <= std::min<u64>(4096, weakLimit)) { // hull of the candidate values
      u64 lo = ~0ull, hi = 0; for (u64 k = o.lo; k <= o.hi; k += n) { if (k + n > r->constSize()) break; T x = loadBytes(s, (int)ptr->c, k, n); if (x->k == TK::Ptr || x->k == TK::Fn) { lo = 0; hi = maskw(8 * n); break; } Itv i = eval(x, s, 10); lo = std::min(lo, i.lo); hi = std::max(hi, i.hi); }
      if (lo <= hi) setRef(s, v, {lo, hi});
    }
    return v; }
  return loadBytes(s, (int)ptr->c, off, n);
}
void Engine::store(State &s, T ptr, T v, unsigned n, const Instruction *at) {
  if (onStore) onStore(s, at, ptr, v, n);
  if (!access(s, ptr, mkConst(64, n), true, at, "write")) { if (ptr->k == TK::Ptr && rreg(s, (int)ptr->c)) havocRegion(s, (int)ptr->c); else if (ptr->k == TK::Join) for (T x : ptr->a) if (x->k == TK::Ptr && rreg(s, (int)x->c)) havocRegion(s, (int)x->c); return; }
  if (rreg(s, (int)ptr->c)->sink) return;
  u64 off; if (constOf(ptr->a[0], s, off)) { storeBytes(s, (int)ptr->c, off, v, n); return; }
  Itv o = eval(ptr->a[0], s); const Region *r = rreg(s, (int)ptr->c);
  if (o.hi - o.lo > weakLimit || r->constSize() == ~0ull) { havocRegion(s, (int)ptr->c); return; }
  // weak update, element-wise (n-byte aligned elements keep their hull with the new value)
  bool aligned = true; { T off2 = ptr->a[0]; if (off2->k == TK::Lin) { for (u64 c : off2->co) if (c % n) aligned = false; if (off2->c % n) aligned = false; } else if (n > 1) aligned = false; }
  Itv nv = v->k == TK::Ptr || v->k == TK::Fn ? Itv{0, ~0ull} : eval(v, s, 8);
  if (aligned) for (u64 k = o.lo - o.lo % n; k <= o.hi && k + n <= r->constSize(); k += n) {
    T old = loadBytes(s, (int)ptr->c, k, n); if (old == v) continue;
    Itv ov = old->k == TK::Ptr || old->k == TK::Fn ? Itv{0, ~0ull} : eval(old, s, 8);
    T j = (old->k == TK::Ptr || v->k == TK::Ptr || old->k == TK::Fn || v->k == TK::Fn) ? mkFresh("weak", 8 * n) : mkJoin(8 * n, old, v);
    storeBytes(s, (int)ptr->c, k, j, n); setRef(s, j, {std::min(ov.lo, nv.lo), std::max(ov.hi, nv.hi)});
  } else for (u64 k = o.lo; k < o.hi + n && k < r->constSize(); k++) storeBytes(s, (int)ptr->c, k, mkFresh("weak", 8), 1);
}
TV Engine::readSeq(State &s, T ptr, u64 n) {
  TV v; v.reserve(n); u64 off; 
  if (ptr->k != TK::Ptr || !rreg(s, (int)ptr->c) || !constOf(ptr->a[0], s, off)) { for (u64 i = 0; i < n; i++) v.push_back(mkFresh("badseq", 8)); return v; }
  const Region &r = *rreg(s, (int)ptr->c);
  for (u64 i = 0; i < n; i++) { Cell c = getCell(r, off + i); v.push_back(mkByte(c.t, c.k)); }
  return v;
}
T Engine::content(State &s, T ptr, T len) {
  u64 n; if (constOf(len, s, n) && n <= 200000) return mkSeq(readSeq(s, ptr, n));
  if (ptr->k == TK::Ptr) if (const Region *r = rreg(s, (int)ptr->c)) if (r->def == Def::Init) {
    // pristine input range?
    u64 off; bool clean = constOf(ptr->a[0], s, off); if (clean) for (auto &kv : r->ch) for (unsigned i = 0; i < CH; i++) if (kv.second->c[i].t && (u64)kv.first * CH + i >= off) clean = false;
    if (clean) return mkCustom("Range", 0, 0, {mkLeaf(r->name, 0, 8), ptr->a[0], len});
  }
  return mkFresh("content", 0);
}
void Engine::writeSeq(State &s, T ptr, const TV &b) {
  u64 off; if (ptr->k != TK::Ptr || !rreg(s, (int)ptr->c)) return;
  if (!constOf(ptr->a[0], s, off)) { havocRegion(s, (int)ptr->c); return; }
  Region &r = wreg(s, (int)ptr->c); for (size_t i = 0; i < b.size(); i++) setCell(r, off + i, {b[i], 0});
}
void Engine::havocRegion(State &s, int rid) { if (!rreg(s, rid)) return; Region &r = wreg(s, rid); r.ch.clear(); r.def = Def::Havoc; r.hav = nextHav++; }
void Engine::havoc(State &s, T ptr, T len, const std::string &leaf) {
  if (ptr->k != TK::Ptr || !rreg(s, (int)ptr->c)) return;
  u64 off, n; if (!constOf(ptr->a[0], s, off) || !constOf(len, s, n)) { havocRegion(s, (int)ptr->c); return; }
  u64 sz = rreg(s, (int)ptr->c)->constSize(); u32 id = nextHav++; Region &r = wreg(s, (int)ptr->c);
  for (u64 i = 0; i < n && off + i < sz; i++) setCell(r, off + i, {mkLeaf(leaf + "#" + std::to_string(id), i, 8), 0});
}

// ---------------------------------------------------------------- function info
struct Engine::FnInfo {
  DominatorTree DT; LoopInfo LI; std::map<const BasicBlock *, u32> order; std::map<const Loop *, u32> lorder;
  std::map<const Value *, u32> num; std::map<const BasicBlock *, std::vector<const Value *>> live; 
};
Engine::FnInfo &Engine::info(const Function *F) {
  auto &p = infos[F]; if (p) return *p; p = std::make_shared<FnInfo>(); FnInfo &I = *p;
  Function &NF = const_cast<Function &>(*F);
  I.DT.recalculate(NF); I.LI.analyze(I.DT);
  // loop-aware topological order
  u32 next = 0;
  std::function<void(const Loop *, const BasicBlock *)> ord = [&](const Loop *L, const BasicBlock *entry) {
    auto top = [&](const BasicBlock *B) -> const Loop * { const Loop *x = I.LI.getLoopFor(B); if (x == L) return nullptr; while (x && x->getParentLoop() != L) x = x->getParentLoop(); return x; };
    std::set<const void *> seen; std::vector<std::pair<const Loop *, const BasicBlock *>> post;
    std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *B) {
      const Loop *c = top(B); const void *key = c ? (const void *)c : (const void *)B;
      if (!seen.insert(key).second) return;
      std::vector<const BasicBlock *> succ;
      if (c) { for (auto *BB : c->blocks()) for (auto *S : successors(BB)) if (!c->contains(S)) succ.push_back(S); }
      else for (auto *S : successors(B)) succ.push_back(S);
      for (auto *S : succ) { if (L && (!L->contains(S) || S == L->getHeader())) continue; dfs(S); }
      post.push_back({c, c ? c->getHeader() : B});
    };
    dfs(entry);
    for (auto it = post.rbegin(); it != post.rend(); ++it) { if (it->first) { I.lorder[it->first] = next; ord(it->first, it->first->getHeader()); } else I.order[it->second] = next++; }
  };
  ord(nullptr, &F->getEntryBlock());
  u32 n = 0; for (auto &A : F->args()) I.num[&A] = n++; for (auto &B : *F) for (auto &X : B) if (!X.getType()->isVoidTy()) I.num[&X] = n++;
  // liveness
  std::map<const BasicBlock *, std::set<const Value *>> lin, use, def;
  for (auto &B : *F) for (auto &X : B) {
    if (!isa<PHINode>(X)) for (auto &O : X.operands()) if (isa<Instruction>(O) || isa<Argument>(O)) if (!def[&B].count(O)) use[&B].insert(O);
    if (!X.getType()->isVoidTy()) def[&B].insert(&X);
  }
  bool ch = true; while (ch) { ch = false; for (auto *B : post_order(&F->getEntryBlock())) {
    std::set<const Value *> o; for (auto *S : successors(B)) { std::set<const Value *> in = lin[S]; for (auto &P : S->phis()) in.erase(&P); o.insert(in.begin(), in.end()); for (auto &P : S->phis()) { const Value *v = P.getIncomingValueForBlock(B); if (isa<Instruction>(v) || isa<Argument>(v)) o.insert(v); } }
    std::set<const Value *> in = use[B]; for (auto *v : o) if (!def[B].count(v)) in.insert(v);
    for (auto &P : B->phis()) in.erase(&P);
    if (in != lin[B]) { lin[B] = in; ch = true; } } }
  for (auto &B : *F) { std::vector<const Value *> v(lin[&B].begin(), lin[&B].end()); for (auto &P : B.phis()) v.push_back(&P); std::sort(v.begin(), v.end(), [&](auto *x, auto *y) { return I.num[x] < I.num[y]; }); I.live[&B] = v; }
  return I;
}

// ---------------------------------------------------------------- values
void Engine::initGlobal(State &s, int rid, const Constant *C, u64 off) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) { unsigned n = (CI->getBitWidth() + 7) / 8; storeBytes(s, rid, off, mkConst(8 * n, CI->getZExtValue()), n); return; }
  if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) { u64 n = DL.getTypeAllocSize(C->getType()); for (u64 i = 0; i < n; i++) storeBytes(s, rid, off + i, mkConst(8, 0), 1); return; }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { u64 es = D->getElementByteSize(); for (unsigned i = 0; i < D->getNumElements(); i++) initGlobal(s, rid, D->getElementAsConstant(i), off + i * es); return; }
  if (auto *A = dyn_cast<ConstantArray>(C)) { u64 es = DL.getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initGlobal(s, rid, A->getOperand(i), off + i * es); return; }
  if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *SL = DL.getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initGlobal(s, rid, S->getOperand(i), off + SL->getElementOffset(i)); return; }
  if (isa<UndefValue>(C)) return;
  if (C->getType()->isPointerTy()) { storeBytes(s, rid, off, constVal(C, s), 8); return; }
}
static std::map<const GlobalVariable *, std::shared_ptr<Region>> gvCache;
T Engine::constVal(const Constant *C, State &s) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) return mkConst(CI->getBitWidth(), CI->getBitWidth() <= 64 ? CI->getZExtValue() : CI->getValue().getLimitedValue());
  if (isa<ConstantPointerNull>(C)) return mkConst(64, 0);
  if (auto *F = dyn_cast<Function>(C)) return mkFn(F);
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee(), s);
  if (auto *G = dyn_cast<GlobalVariable>(C)) {
    auto it = gvRegion.find(G); int rid;
    if (it == gvRegion.end()) { rid = nextRid++; gvRegion[G] = rid; } else rid = it->second;
    if (!s.mem.count(rid)) {
      auto &c = gvCache[G];
      if (!c) { auto r = std::make_shared<Region>(); r->name = "global:" + G->getName().str(); r->size = mkConst(64, DL.getTypeAllocSize(G->getValueType())); r->writable = !G->isConstant(); r->global = true; r->site = G;
        r->def = Def::Init; State tmp; tmp.mem[rid] = r; if (G->isConstant() && G->hasInitializer()) initGlobal(tmp, rid, G->getInitializer(), 0); c = tmp.mem[rid]; }
      s.mem[rid] = c;
    }
    return ptrTo(rid);
  }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (auto *GO = dyn_cast<GEPOperator>(E)) { APInt o(64, 0); if (GO->accumulateConstantOffset(DL, o)) return mkAdd(constVal(cast<Constant>(GO->getPointerOperand()), s), mkConst(64, o.getZExtValue())); }
    if (E->isCast()) return constVal(E->getOperand(0), s);
  }
  unsigned w = C->getType()->isIntegerTy() ? C->getType()->getIntegerBitWidth() : 64;
  return mkFresh("undef", w);
}

// ---------------------------------------------------------------- runner
struct Runner {
  Engine &E; const Function *F; Engine::FnInfo &I; std::vector<int> frameRegions; Outcomes outs;
  struct PS { State st; std::vector<T> env; std::vector<u64> iters; std::vector<uint8_t> det; const void *inv = nullptr; };
  using Pos = std::vector<u64>;
  std::map<Pos, std::pair<const BasicBlock *, std::vector<PS>>> work;
  std::map<std::pair<Pos, std::vector<u64>>, std::pair<std::shared_ptr<PS>, Engine::LoopSlots>> inv; std::map<Pos, std::set<std::vector<u64>>> invKeys;
  Runner(Engine &e, const Function *f) : E(e), F(f), I(e.info(f)) {}

  T val(const Value *V, PS &p) {
    if (auto *C = dyn_cast<Constant>(V)) return E.constVal(C, p.st);
    auto it = I.num.find(V); if (it == I.num.end()) return mkFresh("md", 64);
    T t = p.env[it->second]; if (!t) { unsigned w = V->getType()->isIntegerTy() ? V->getType()->getIntegerBitWidth() : 64; t = mkFresh("undefssa", w); p.env[it->second] = t; } return t;
  }
  void set(const Value *V, PS &p, T t) { if (E.termCap && t && t->dep > E.termCap && V->getType()->isIntegerTy() && t->k != TK::Ptr && t->k != TK::Fn) { Itv i = E.eval(t, p.st); T f = mkFresh("capped", t->w); if (i.lo != 0 || i.hi != maskw(t->w)) setRef(p.st, f, i); t = i.lo == i.hi ? mkConst(t->w, i.lo) : f; } p.env[I.num.at(V)] = t; }

  std::vector<const Loop *> loops(const BasicBlock *B) { std::vector<const Loop *> v; for (const Loop *L = I.LI.getLoopFor(B); L; L = L->getParentLoop()) v.push_back(L); std::reverse(v.begin(), v.end()); return v; }
  Pos posOf(const BasicBlock *B, const PS &p) { Pos r; auto ls = loops(B); for (size_t i = 0; i < ls.size(); i++) { r.push_back(I.lorder[ls[i]]); r.push_back(p.iters[i]); } r.push_back(I.order[B]); return r; }

  static u64 hcell(const Region &r, u64 n, const Engine &E, State &s, int rid, Engine &Em) { T t = Em.loadBytes(s, rid, 0, n); if (t->k == TK::Const) return t->c * 2 + 1; if (t->k == TK::Ptr) return (u64)t->id * 7 + 3; if (isCustom(t, "Sponge")) return 1000 + (t->c & 15); return 0; }
  std::vector<u64> key(PS &p, const std::vector<const Value *> &live) {
    std::vector<u64> k;
    for (auto *v : live) { T t = p.env[I.num.at(v)]; if (!t) { k.push_back(0); continue; } u64 c; if (t->k == TK::Ptr) { u64 o; k.push_back(2 + t->c); k.push_back(E.constOf(t->a[0], p.st, o) ? o + 2 : 0); } else if (t->k == TK::Fn) k.push_back(t->id); else if (E.constOf(t, p.st, c)) { k.push_back(1); k.push_back(c); } else k.push_back(0); }
    memKey(p.st, k); return k;
  }
  void memKey(State &s, std::vector<u64> &k) {
    std::vector<std::pair<int, u64>> v;
    for (auto &kv : s.mem) { Region &r = *kv.second; if (r.heap) v.push_back({kv.first, r.freed ? 1 : 2}); else if (r.alloca_ || (r.constSize() <= 8 && r.writable)) { u64 n = r.constSize(); if (n <= 8 && n > 0) v.push_back({kv.first, hcell(r, n, E, s, kv.first, E)}); } }
    for (auto &x : v) { k.push_back((u64)x.first << 32); k.push_back(x.second); }
  }

  // a condition known to hold on one side and to fail on the other (the branch that separated them)
  T splitFact(const State &a, const State &b) {
    if (a.facts == b.facts) return nullptr; if (sfA == a.facts && sfB == b.facts) return sf;
    sfA = a.facts; sfB = b.facts; sf = nullptr; T best = nullptr; int n = 0;
    for (T f : *a.facts) if (!b.facts->count(f)) { if (++n > 64) break; T g = mkNot1(f); if (b.facts->count(g) && (!best || f->id < best->id)) best = f; }
    return sf = best;
  }
  std::shared_ptr<const std::set<T>> sfA, sfB; T sf = nullptr;
  T joinVal(T x, T y, State &a, const State &b_, Engine::LoopSlots *ls, const void *tag, u64 slot, bool &chg, std::map<T, Itv> &newRef) {
    if (x == y) return x;
    if (x->k == TK::Ptr && y->k == TK::Ptr && x->c == y->c) { T o = joinVal(x->a[0], y->a[0], a, b_, ls, tag, slot ^ 0x8000000000000000ull, chg, newRef); return mkPtr((int)x->c, o); }
    unsigned w = std::max(x->w, y->w);
    if (E.secret && (E.secret(x) || E.secret(y))) { T j = Engine::secretOf(w); if (j != x) chg = true; return j; }
    auto itv = [&](T t, const State &s) -> Itv { if (t->k == TK::Ptr || t->k == TK::Fn || t->k == TK::Seq) return {0, maskw(w)}; return E.eval(t, s); };
    Itv ix = itv(x, a), iy = itv(y, b_), u{std::min(ix.lo, iy.lo), std::max(ix.hi, iy.hi)};
    if (!ls && x->k == TK::Const && y->k == TK::Const && x->w == y->w) if (T f = splitFact(a, b_)) { chg = true; T j = mkSelect(f, x, y); newRef[j] = u; E.joins++; return j; }   // the two sides are told apart by a known condition
    if (!ls) { chg = true; T j = mkJoin(w, x, y); newRef[j] = u; E.joins++; return j; }
    auto key = std::make_pair(tag, slot); T &lv = ls->v[key]; if (!lv) lv = mkFresh("loop", w);
    if (x != lv) { chg = true; newRef[lv] = u; if (E.stepWiden) for (T b : boundsOf(tag, slot, a, b_)) if (E.provLE(x, b, a) && E.provLE(y, b, b_)) ls->below[lv].push_back(b); return lv; }
    if (auto it = ls->below.find(lv); it != ls->below.end()) { auto &bs = it->second; size_t k = bs.size(); bs.erase(std::remove_if(bs.begin(), bs.end(), [&](T b) { if (E.provLE(y, b, b_)) return false; ls->gone.push_back(mkCmp(O_ULE, lv, b)); return true; }), bs.end()); if (bs.size() != k) chg = true; for (T b : bs) u.hi = std::max(u.lo, std::min(u.hi, std::max(E.linHi(b, a), E.linHi(b, b_)))); }
    // x is already the loop variable: widen its interval
    Itv old = ix; if (u == old) { newRef[lv] = u; return lv; }
    chg = true; int &n = ls->wid[lv]; n++;
    if (n > 3) { u64 top = maskw(w); if (E.stepWiden && n <= 14) for (u64 th : {256ull, 1024ull, 65535ull, 0x7fffffffull, (1ull << 48) - 1}) if (th >= u.hi && th < top) { top = th; break; } if (u.lo != old.lo) u.lo = 0; if (u.hi != old.hi) u.hi = top; if (n > (E.stepWiden ? 16 : 6)) u = {0, maskw(w)}; }
    newRef[lv] = u; return lv;
  }
  // loop-invariant values that the loop compares a header variable with (in)equality: candidates for an order invariant
  PS *curA = nullptr; const PS *curB = nullptr;
  std::vector<T> boundsOf(const void *tag, u64 slot, State &, const State &) {
    std::vector<T> r; if (slot || !curA) return r; auto *V = (const Value *)tag; if (!curLive.count(V)) return r; auto *P = dyn_cast<PHINode>(V); if (!P) return r;
    const Loop *L = I.LI.getLoopFor(P->getParent()); if (!L || L->getHeader() != P->getParent()) return r;
    for (auto *U : P->users()) { auto *C = dyn_cast<ICmpInst>(U); if (!C || !C->isEquality() || !L->contains(C)) continue; const Value *o = C->getOperand(C->getOperand(0) == P ? 1 : 0); if (isa<Constant>(o)) continue; if (auto *oi = dyn_cast<Instruction>(o)) if (L->contains(oi)) continue;
      auto it = I.num.find(o); if (it == I.num.end()) continue; T x = curA->env[it->second], y = curB->env[it->second]; if (x && x == y && x->k != TK::Ptr && x->k != TK::Fn) r.push_back(x); }
    return r;
  }
  std::set<const Value *> curLive;
  // a := a join b ; returns whether a changed
  bool join(PS &a, const PS &b, const std::vector<const Value *> &live, Engine::LoopSlots *ls) {
    bool chg = false; std::map<T, Itv> nref;
    State &sa = a.st; const State &sb = b.st; if (ls && E.stepWiden) { curA = &a; curB = &b; curLive.clear(); curLive.insert(live.begin(), live.end()); } else curA = nullptr;
    for (auto *v : live) { u32 n = I.num.at(v); T x = a.env[n], y = b.env[n]; if (x == y) continue; if (!x || !y) { a.env[n] = x ? x : y; continue; } a.env[n] = joinVal(x, y, sa, sb, ls, v, 0, chg, nref); }
    joinMem(sa, sb, ls, chg, nref); sfA = sfB = nullptr; joinFacts(sa, sb, nref, chg, ls); if (ls) { if (!ls->gone.empty()) { auto n = std::make_shared<std::set<T>>(*sa.facts); for (T f : ls->gone) n->erase(f); sa.facts = n; } for (auto &kv : ls->below) for (T b : kv.second) { E.assume(mkCmp(O_ULE, kv.first, b), true, sa); refine(E, sa, kv.first, 0, E.linHi(b, sa)); } }
    for (size_t i = 0; i < a.det.size() && i < b.det.size(); i++) a.det[i] |= b.det[i];
    return chg;
  }
  void joinMem(State &sa, const State &sb, Engine::LoopSlots *ls, bool &chg, std::map<T, Itv> &nref) {
    for (auto &kv : sb.mem) {
      auto it = sa.mem.find(kv.first); if (it == sa.mem.end()) { sa.mem[kv.first] = kv.second; continue; }
      if (it->second == kv.second) continue;
      const Region &rb = *kv.second; 
      if (it->second->freed != rb.freed) { wregPtr(sa, kv.first)->freed = true; chg = true; }
      if (it->second->def != rb.def || it->second->hav != rb.hav) {
        // defaults differ: give up on everything not explicitly equal
        if (ls && it->second->def == Def::Havoc) {} else chg = true;
        Region nr = *it->second; nr.ch.clear(); if (!(it->second->def == Def::Havoc && ls)) { nr.def = Def::Havoc; nr.hav = E.nextHav++; }
        const Region &ra = *it->second;
        for (auto &c : ra.ch) { auto jt = rb.ch.find(c.first); if (jt == rb.ch.end()) continue; for (unsigned i = 0; i < CH; i++) { Cell x = c.second->c[i], y = jt->second->c[i]; if (x.t && x == y) setCell(nr, (u64)c.first * CH + i, x); else if (x.t) { if (ls) chg = true; } } }
        sa.mem[kv.first] = std::make_shared<Region>(nr); continue;
      }
      std::set<u32> chs; for (auto &c : it->second->ch) chs.insert(c.first); for (auto &c : rb.ch) chs.insert(c.first);
      for (u32 cn : chs) {
        { auto i1 = it->second->ch.find(cn); auto i2 = rb.ch.find(cn); if (i1 != it->second->ch.end() && i2 != rb.ch.end() && i1->second == i2->second) continue; }
        for (unsigned i = 0; i < CH;) {
          u64 off = (u64)cn * CH + i; const Region &ra = *sa.mem[kv.first];
          if (off >= ra.constSize()) break;
          Cell x, y; bool hx = rawCell(ra, off, x), hy = rawCell(rb, off, y);
          if (!hx && !hy) { i++; continue; }
          if (hx && hy && x == y) { i++; continue; }
          if (!hx) x = getCell(ra, off); if (!hy) y = getCell(rb, off);
          if (x == y) { i++; continue; }
          unsigned n = 1;
          if (x.k == 0 && y.k == 0 && x.t->w == y.t->w && x.t->w > 8 && x.t->w % 8 == 0) { n = x.t->w / 8; for (unsigned q = 1; q < n; q++) { Cell u = getCell(ra, off + q), v = getCell(rb, off + q); if (!(u.t == x.t && u.k == q && v.t == y.t && v.k == q)) { n = 1; break; } } }
          else if (x.k == 0 && x.t->w > 8 && x.t->w % 8 == 0 && y.k == 0 && y.t->w == 8) { n = x.t->w / 8; for (unsigned q = 1; q < n; q++) { Cell u = getCell(ra, off + q); if (!(u.t == x.t && u.k == q)) { n = 1; break; } } }
          else if (y.k == 0 && y.t->w > 8 && y.t->w % 8 == 0 && x.k == 0 && x.t->w == 8) { n = y.t->w / 8; for (unsigned q = 1; q < n; q++) { Cell u = getCell(rb, off + q); if (!(u.t == y.t && u.k == q)) { n = 1; break; } } }
          State tmpb; T tx, ty;
          if (n == 1) { tx = mkByte(x.t, x.k); ty = mkByte(y.t, y.k); }
          else { TV bx(n), by(n); for (unsigned q = 0; q < n; q++) { Cell u = getCell(ra, off + q), v = getCell(rb, off + q); bx[q] = mkByte(u.t, u.k); by[q] = mkByte(v.t, v.k); } tx = x.t->w == 8 * n ? x.t : mkConcat(bx); ty = y.t->w == 8 * n ? y.t : mkConcat(by); }
          T j = joinVal(tx, ty, sa, sb, ls, (const void *)(uintptr_t)kv.first, off * 64 + n, chg, nref);
          Region &rw = *wregPtr(sa, kv.first); for (unsigned q = 0; q < n; q++) setCell(rw, off + q, {j, (uint8_t)q});
          i += n;
        }
      }
    }
  }
  void joinFacts(State &sa, const State &sb, std::map<T, Itv> &nref, bool &chg, Engine::LoopSlots *ls = nullptr) {
    if (sa.facts != sb.facts) { auto n = std::make_shared<std::set<T>>(); std::set_intersection(sa.facts->begin(), sa.facts->end(), sb.facts->begin(), sb.facts->end(), std::inserter(*n, n->end())); if (n->size() != sa.facts->size()) chg = true; sa.facts = n; }
    if (sa.vs != sb.vs) { auto n = std::make_shared<std::map<T, std::bitset<256>>>(); for (auto &kv : *sa.vs) { auto it = sb.vs->find(kv.first); if (it == sb.vs->end()) { chg = true; continue; } auto u = kv.second | it->second; if (u != kv.second) { chg = true; if (ls) continue; } if (!u.all()) (*n)[kv.first] = u; } sa.vs = n; }
    auto n = std::make_shared<std::map<T, Itv>>();
    if (sa.ref == sb.ref) *n = *sa.ref;
    else for (auto &kv : *sa.ref) { if (nref.count(kv.first)) continue; auto it = sb.ref->find(kv.first); Itv o; if (it == sb.ref->end()) { if (kv.first->k == TK::Ptr) continue; o = E.eval(kv.first, sb); } else o = it->second; Itv u{std::min(kv.second.lo, o.lo), std::max(kv.second.hi, o.hi)}; if (u.lo == 0 && u.hi == maskw(kv.first->w)) { chg = true; continue; } if (!(u == kv.second)) { chg = true; if (ls && !nref.count(kv.first) && ++ls->wid[kv.first] > 3) continue; } (*n)[kv.first] = u; }
    for (auto &kv : *sb.ref) if (kv.first->k == TK::Leaf || kv.first->k == TK::Join) if (!sa.ref->count(kv.first)) { /* unknown on a's side */ }
    for (auto &kv : nref) { if (kv.second.lo == 0 && kv.second.hi == maskw(kv.first->w)) n->erase(kv.first); else (*n)[kv.first] = kv.second; }
    sa.ref = n;
  }

  void edge(PS p, const BasicBlock *from, const BasicBlock *to) {
    if (p.st.dead) return;
    std::vector<std::pair<u32, T>> ph; for (auto &P : to->phis()) ph.push_back({I.num.at(&P), val(P.getIncomingValueForBlock(from), p)});
    for (auto &x : ph) p.env[x.first] = x.second;
    auto lf = loops(from), lt = loops(to); size_t common = 0; while (common < lf.size() && common < lt.size() && lf[common] == lt[common]) common++;
    bool back = common == lt.size() && lt.size() && to == lt.back()->getHeader() && lf.size() >= lt.size();
    p.iters.resize(common); p.det.resize(common);
    if (back) { p.iters.back()++; } 
    bool widen = false;
    if (back) {
      u64 it = p.iters.back(); bool d = p.det.back(); p.det.back() = 0;
      u64 lim = d ? E.hardLimit : E.softLimit;
      if (it >= lim) widen = true; 
    }
    for (size_t i = common; i < lt.size(); i++) { p.iters.push_back(0); p.det.push_back(0); }
    if (widen) {
      p.iters.back() = 1ull << 60; Pos ps = posOf(to, p);
      // one invariant per partition (constants of live values) as long as there are few; otherwise one for all
      auto kk = key(p, I.live[to]); auto &ks = invKeys[ps]; if (!ks.count(kk)) { if (ks.size() < E.widenParts) ks.insert(kk); else kk.clear(); }
      auto &iv = inv[{ps, kk}]; E.widenings++;
      if (!iv.first) { iv.first = std::make_shared<PS>(p); }
      else { bool c = join(*iv.first, p, I.live[to], &iv.second); if (!c) return; }
      auto &w = work[ps]; w.first = to; iv.first->inv = &iv; w.second.erase(std::remove_if(w.second.begin(), w.second.end(), [&](const PS &x) { return x.inv == &iv; }), w.second.end()); w.second.push_back(*iv.first); return;
    }
    p.inv = nullptr; auto &w = work[posOf(to, p)]; w.first = to; w.second.push_back(std::move(p));
  }
  void exec(PS p, const BasicBlock *B, BasicBlock::const_iterator it) {
    for (; it != B->end(); ++it) {
      const Instruction *X = &*it;
      if (p.st.dead || !E.broken.empty()) return;
      if (++E.steps > E.stepLimit) { E.broken = "step limit exceeded in " + F->getName().str(); return; }
      if (isa<PHINode>(X)) continue;
      if (E.secret && X->getType()->isIntegerTy() && (X->isBinaryOp() || isa<ICmpInst>(X) || isa<CastInst>(X) || isa<SelectInst>(X))) { bool sec = false; for (const Use &u : X->operands()) { T v = val(u.get(), p); if (v->k != TK::Const && E.secret(v)) sec = true; } if (sec) { set(X, p, Engine::secretOf(X->getType()->getIntegerBitWidth())); continue; } }
      switch (X->getOpcode()) {
      case Instruction::Alloca: { auto *A = cast<AllocaInst>(X); T n = val(A->getArraySize(), p); u64 es = E.DL.getTypeAllocSize(A->getAllocatedType()); T sz = mkMulC(mkZext(mkTrunc(n, std::min(64u, (unsigned)n->w)), 64), es);
        u64 c; if (E.constOf(sz, p.st, c)) sz = mkConst(64, c);
        int r = E.newRegion(p.st, (A->hasName() ? A->getName().str() : std::string("tmp")) , sz, Def::Uninit, true); Region &R = E.wreg(p.st, r); R.alloca_ = true; R.site = A; if (R.constSize() > E.sinkAbove) R.sink = true; frameRegions.push_back(r); set(X, p, E.ptrTo(r)); break; }
      case Instruction::Load: { unsigned n = E.DL.getTypeStoreSize(X->getType()); T v = E.load(p.st, val(X->getOperand(0), p), n, X); if (X->getType()->isIntegerTy() && X->getType()->getIntegerBitWidth() != 8 * n) v = mkTrunc(v, X->getType()->getIntegerBitWidth()); if (E.secret && v->k != TK::Const && v->k != TK::Ptr && E.secret(v)) v = Engine::secretOf(v->w); set(X, p, v); break; }
      case Instruction::Store: { unsigned n = E.DL.getTypeStoreSize(X->getOperand(0)->getType()); E.store(p.st, val(X->getOperand(1), p), val(X->getOperand(0), p), n, X); break; }
      case Instruction::GetElementPtr: { auto *G = cast<GetElementPtrInst>(X); T base = val(G->getPointerOperand(), p); T off = mkConst(64, 0);
        for (gep_type_iterator g = gep_type_begin(G), e = gep_type_end(G); g != e; ++g) { if (StructType *S = g.getStructTypeOrNull()) off = mkAdd(off, mkConst(64, E.DL.getStructLayout(S)->getElementOffset(cast<ConstantInt>(g.getOperand())->getZExtValue()))); else { T i = val(g.getOperand(), p); u64 c; if (i->k != TK::Const && E.constOf(i, p.st, c)) i = mkConst(i->w, c); i = mkSext(i, 64); off = mkAdd(off, mkMulC(i, E.DL.getTypeAllocSize(g.getIndexedType()))); } }
        if (base->k == TK::Ptr) set(X, p, mkPtr((int)base->c, mkAdd(base->a[0], off))); else if (base->k == TK::Const) set(X, p, mkAdd(base, off)); else if (isC(off, 0)) set(X, p, base);
        else if (base->k == TK::Join && base->a.size()) { T r = nullptr; bool okk = true; for (T a : base->a) { if (a->k != TK::Ptr) { okk = false; break; } T q = mkPtr((int)a->c, mkAdd(a->a[0], off)); r = r ? mkJoin(64, r, q) : q; } set(X, p, okk ? r : mkFresh("gep", 64)); }
        else set(X, p, mkFresh("gep", 64)); break; }
      case Instruction::ICmp: { auto *C = cast<ICmpInst>(X); T a = val(C->getOperand(0), p), b = val(C->getOperand(1), p); T r;
        if (a->k != TK::Const && b->k != TK::Const && a->k != TK::Ptr && b->k != TK::Ptr) { auto P = C->getPredicate(); bool sw = P == CmpInst::ICMP_UGT || P == CmpInst::ICMP_UGE || P == CmpInst::ICMP_SGT || P == CmpInst::ICMP_SGE; u32 op = P == CmpInst::ICMP_EQ ? O_EQ : P == CmpInst::ICMP_NE ? O_NE : P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_UGT ? O_ULT : P == CmpInst::ICMP_ULE || P == CmpInst::ICMP_UGE ? O_ULE : P == CmpInst::ICMP_SLT || P == CmpInst::ICMP_SGT ? O_SLT : O_SLE; T q = sw ? mkCmp(op, b, a) : mkCmp(op, a, b); if (q->k == TK::Op) { T n = mkNot1(q); if (p.st.has(q) || p.st.has(n)) { set(X, p, mkConst(1, p.st.has(q))); break; } } }   // a relation already known must not be lost by folding one side
        u64 ca, cb; if (a->k != TK::Const && a->k != TK::Ptr && E.constOf(a, p.st, ca)) a = mkConst(a->w, ca); if (b->k != TK::Const && b->k != TK::Ptr && E.constOf(b, p.st, cb)) b = mkConst(b->w, cb);
        switch (C->getPredicate()) { case CmpInst::ICMP_EQ: r = mkCmp(O_EQ, a, b); break; case CmpInst::ICMP_NE: r = mkCmp(O_NE, a, b); break; case CmpInst::ICMP_ULT: r = mkCmp(O_ULT, a, b); break; case CmpInst::ICMP_ULE: r = mkCmp(O_ULE, a, b); break; case CmpInst::ICMP_UGT: r = mkCmp(O_ULT, b, a); break; case CmpInst::ICMP_UGE: r = mkCmp(O_ULE, b, a); break; case CmpInst::ICMP_SLT: r = mkCmp(O_SLT, a, b); break; case CmpInst::ICMP_SLE: r = mkCmp(O_SLE, a, b); break; case CmpInst::ICMP_SGT: r = mkCmp(O_SLT, b, a); break; default: r = mkCmp(O_SLE, b, a); }
        set(X, p, r); break; }
      case Instruction::ZExt: { T v = val(X->getOperand(0), p); set(X, p, mkZext(v, X->getType()->getIntegerBitWidth())); break; }
      case Instruction::SExt: { T v = val(X->getOperand(0), p); u64 c; if (v->k != TK::Const) { Itv i = E.eval(v, p.st); if (i.lo == i.hi) { c = i.lo; v = mkConst(v->w, c); } else if (i.hi < (1ull << (v->w - 1))) { set(X, p, mkZext(v, X->getType()->getIntegerBitWidth())); break; } } set(X, p, mkSext(v, X->getType()->getIntegerBitWidth())); break; }
      case Instruction::Trunc: { T v = val(X->getOperand(0), p); if (v->k == TK::Ptr) v = mkFresh("ptrint", 64); set(X, p, mkTrunc(v, X->getType()->getIntegerBitWidth())); break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: set(X, p, val(X->getOperand(0), p)); break;
      case Instruction::Select: { T c = val(X->getOperand(0), p); int v = E.triCond(c, p.st); T a = val(X->getOperand(1), p), b = val(X->getOperand(2), p); if (E.onLeak && v < 0 && X->getType()->isPointerTy()) E.onLeak(p.st, X, c, "address");
        if (v >= 0) { set(X, p, v ? a : b); break; }
        { E.forks++; PS q = p; E.assume(c, true, q.st); q.env[I.num.at(X)] = a; if (!q.st.dead) exec(std::move(q), B, std::next(it)); E.assume(c, false, p.st); set(X, p, b); }
        break; }
      case Instruction::Br: { auto *Br = cast<BranchInst>(X);
        if (Br->isUnconditional()) { edge(std::move(p), B, Br->getSuccessor(0)); return; }
        T c = val(Br->getCondition(), p); E.branches++; if (E.onBranch) E.onBranch(p.st, X, c); int v = E.triCond(c, p.st); if (E.onLeak && v < 0) E.onLeak(p.st, X, c, "branch");
        if (v >= 0) { if (constCond(c, p.st)) markDet(p, B, Br->getSuccessor(v ? 1 : 0)); edge(std::move(p), B, Br->getSuccessor(v ? 0 : 1)); return; }
        if ((E.secret && E.secret(c)) || (E.dull && E.dull(c))) { E.forks++; PS q = p; trail(q.st, X, 1); edge(std::move(q), B, Br->getSuccessor(0)); trail(p.st, X, 0); edge(std::move(p), B, Br->getSuccessor(1)); return; }
        E.forks++; PS q = p; E.assume(c, true, q.st); trail(q.st, X, 1); if (!q.st.dead) edge(std::move(q), B, Br->getSuccessor(0));
        E.assume(c, false, p.st); trail(p.st, X, 0); if (!p.st.dead) edge(std::move(p), B, Br->getSuccessor(1)); return; }
      case Instruction::Switch: { auto *S = cast<SwitchInst>(X); T c = val(S->getCondition(), p); if (E.onBranch) E.onBranch(p.st, X, c); if (E.onLeak) E.onLeak(p.st, X, c, "branch");
        PS rest = p; for (auto &cs : S->cases()) { T e = mkCmp(O_EQ, c, mkConst(c->w, cs.getCaseValue()->getZExtValue())); PS q = rest; E.assume(e, true, q.st); trail(q.st, X, 2); if (!q.st.dead) edge(std::move(q), B, cs.getCaseSuccessor()); E.assume(e, false, rest.st); if (rest.st.dead) return; }
        edge(std::move(rest), B, S->getDefaultDest()); return; }
      case Instruction::Ret: { auto *R = cast<ReturnInst>(X); T v = R->getReturnValue() ? val(R->getReturnValue(), p) : nullptr; outs.push_back({std::move(p.st), v, X}); if (outs.size() > 64 && outs.size() % 64 == 0) compactOuts(); return; }
      case Instruction::Unreachable: return;
      case Instruction::Call: {
        auto *cb = cast<CallBase>(X); if (isa<DbgInfoIntrinsic>(X)) break;
        Outcomes os = call(cb, p); if (os.empty()) return;
        for (size_t k = 1; k < os.size(); k++) { PS q = p; q.st = std::move(os[k].st); if (!X->getType()->isVoidTy()) q.env[I.num.at(X)] = os[k].ret; exec(std::move(q), B, std::next(it)); }
        p.st = std::move(os[0].st); if (!X->getType()->isVoidTy()) set(X, p, os[0].ret); if (p.st.dead) return; break; }
      default:
        if (X->isBinaryOp() && X->getType()->isIntegerTy()) { T a = val(X->getOperand(0), p), b = val(X->getOperand(1), p); u64 c;
          if (E.foldConst) { if (a->k != TK::Const && a->k != TK::Ptr && E.constOf(a, p.st, c)) a = mkConst(a->w, c); if (b->k != TK::Const && b->k != TK::Ptr && E.constOf(b, p.st, c)) b = mkConst(b->w, c); }
          if (b->k != TK::Const && b->k != TK::Ptr && (X->isShift() || X->getOpcode() == Instruction::Mul || X->getOpcode() == Instruction::UDiv || X->getOpcode() == Instruction::URem) && E.constOf(b, p.st, c)) b = mkConst(b->w, c);
          if (X->getOpcode() == Instruction::AShr && a->k != TK::Const) { Itv i = E.eval(a, p.st); if (i.hi < (1ull << (a->w - 1))) { set(X, p, mkBin(Instruction::LShr, a, b)); break; } }
          set(X, p, mkBin(X->getOpcode(), a, b)); break; }
        { unsigned w = X->getType()->isIntegerTy() ? X->getType()->getIntegerBitWidth() : 64; if (!X->getType()->isVoidTy()) set(X, p, mkFresh("insn", w)); E.unknownCalls.insert(std::string("unmodelled instruction ") + X->getOpcodeName()); }
      }
    }
  }
  void compactOuts() { Outcomes o = std::move(outs); outs.clear(); outs = merged(std::move(o)); }
  void trail(State &s, const Instruction *X, int d) { auto t = std::make_shared<Trail>(); t->prev = s.trail; t->at = X; t->dir = d; t->len = s.trail ? s.trail->len + 1 : 1; s.trail = t; }
  // decided by constants alone; a decision that follows from facts about unbounded inputs does not bound a loop
  bool constCond(T c, const State &s) { if (c->k == TK::Const) return true; if (c->a.empty()) return false; u64 x; for (T a : c->a) if (a && !E.constOf(a, s, x) && !constCond1(a, s)) return false; return true; }
  bool constCond1(T a, const State &s) { return a->w == 1 && a->k != TK::Leaf && constCond(a, s); }
  void markDet(PS &p, const BasicBlock *B, const BasicBlock *notTaken) { auto ls = loops(B); for (size_t i = 0; i < ls.size(); i++) if (!ls[i]->contains(notTaken)) p.det[i] = 1; }
  Outcomes call(const CallBase *cb, PS &p) {
    TV args; for (auto &A : cb->args()) args.push_back(val(A, p));
    // canonicalise constants
    for (auto &a : args) { u64 c; if (a->k != TK::Const && a->k != TK::Ptr && a->k != TK::Fn && E.constOf(a, p.st, c)) a = mkConst(a->w, c); }
    const Function *f = cb->getCalledFunction();
    if (!f) { T t = val(cb->getCalledOperand(), p); if (t->k == TK::Fn) f = (const Function *)(uintptr_t)t->c; }
    Outcomes out; E.calls++;
    if (f && f->isIntrinsic()) { if (intrinsic(cb, f, p, args, out)) return out; }
    std::string name = f ? f->getName().str() : "<indirect>";
    if (f && E.onCall) E.onCall(p.st, cb, f, args);
    E.stack.push_back(cb);
    CallCtx c{E, cb, p.st, args, f, &E.stack};
    auto m = f ? E.models.find(name) : E.models.end();
    if (f && m != E.models.end()) out = m->second(c);
    else if (f && !f->isDeclaration() && !(E.isOpaque && E.isOpaque(f))) {
      if (E.stack.size() > 60) { E.broken = "call depth"; E.stack.pop_back(); return out; }
      out = E.run(f, args, p.st);
    } else out = libc(c, name);
    E.stack.pop_back(); return out;
  }
  Outcomes one(State s, T r) { Outcomes o; o.push_back({std::move(s), r, nullptr}); return o; }
  T retFresh(const CallBase *cb, const std::string &n) { if (cb->getType()->isVoidTy()) return nullptr; return mkFresh(n, cb->getType()->isIntegerTy() ? cb->getType()->getIntegerBitWidth() : 64); }
  void copy(State &s, T d, T sr, T n, const Instruction *at, bool overlapOK = true) {
    E.access(s, sr, n, false, at, "read"); bool ok = E.access(s, d, n, true, at, "write"); u64 k;
    if (d->k != TK::Ptr || !E.rreg(s, (int)d->c)) return;
    if (!ok) { E.havocRegion(s, (int)d->c); return; }
    u64 od, os2; if (sr->k == TK::Ptr && E.constOf(n, s, k) && E.constOf(d->a[0], s, od) && E.constOf(sr->a[0], s, os2) && E.rreg(s, (int)sr->c)) {
      if (!overlapOK && E.checkBounds && k && sr->c == d->c && od != os2 && (od > os2 ? od - os2 : os2 - od) < k) E.memFail(s, at, "memcpy between overlapping parts of '" + E.rreg(s, (int)d->c)->name + "'");
      std::vector<Cell> tmp(k); { const Region &R = *E.rreg(s, (int)sr->c); for (u64 i = 0; i < k; i++) tmp[i] = getCell(R, os2 + i); }
      Region &W = E.wreg(s, (int)d->c); for (u64 i = 0; i < k; i++) setCell(W, od + i, tmp[i]);
      if (E.onStore) for (u64 i = 0; i < k; i += 64) E.onStore(s, at, E.ptrTo((int)d->c, od + i), nullptr, std::min<u64>(64, k - i));
    } else { if (E.onStore) E.onStore(s, at, d, nullptr, 0);
      // symbolic length: remember the range when copying a pristine input to a constant offset
      E.havocRegion(s, (int)d->c); }
  }
  bool intrinsic(const CallBase *cb, const Function *f, PS &p, TV &a, Outcomes &out) {
    switch (f->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: copy(p.st, a[0], a[1], a[2], cb, f->getIntrinsicID() == Intrinsic::memmove); out = one(p.st, nullptr); return true;
    case Intrinsic::memset: doMemset(p.st, a[0], a[1], a[2], cb); out = one(p.st, nullptr); return true;
    case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::expect: case Intrinsic::is_constant:
    default: { T r = cb->getType()->isVoidTy() ? nullptr : mkFresh("intr", cb->getType()->isIntegerTy() ? cb->getType()->getIntegerBitWidth() : 64); if (f->getIntrinsicID() == Intrinsic::expect) r = a[0];
      if (f->getIntrinsicID() == Intrinsic::fshl && a[0] == a[1]) r = mkCustom("rotl", 0, a[0]->w, {a[0], a[2]});
      if (f->getIntrinsicID() == Intrinsic::abs || f->getIntrinsicID() == Intrinsic::umin || f->getIntrinsicID() == Intrinsic::umax) {}
      if (E.secret && r && r->k != TK::Ptr) for (T x : a) if (x && E.secret(x)) { r = Engine::secretOf(r->w); break; }
      out = one(p.st, r); return true; }
    }
  }
  void doMemset(State &s, T d, T v, T n, const Instruction *at) {
    bool ok = E.access(s, d, n, true, at, "write"); u64 k, o; if (d->k != TK::Ptr || !E.rreg(s, (int)d->c)) return;
    if (ok && E.constOf(n, s, k) && E.constOf(d->a[0], s, o)) { Region &W = E.wreg(s, (int)d->c); T b = mkTrunc(v, 8); for (u64 i = 0; i < k; i++) setCell(W, o + i, {b, 0}); if (E.onStore) for (u64 i = 0; i < k; i += 64) E.onStore(s, at, E.ptrTo((int)d->c, o + i), nullptr, std::min<u64>(64, k - i)); }
    else { if (E.onStore) E.onStore(s, at, d, nullptr, 0); E.havocRegion(s, (int)d->c); }
  }
  Outcomes libc(CallCtx &c, const std::string &n) {
    State &s = c.st; TV &a = c.args; Outcomes out;
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") { copy(s, a[0], a[1], a[2], c.cb, n.find("memmove") != std::string::npos); return one(s, a[0]); }
    if (n == "memset" || n == "__memset_chk") { doMemset(s, a[0], a[1], a[2], c.cb); return one(s, a[0]); }
    if (n == "explicit_bzero" || n == "bzero") { doMemset(s, a[0], mkConst(8, 0), a[1], c.cb); return one(s, nullptr); }
    if (n == "memcmp" || n == "bcmp" || n == "timingsafe_bcmp" || n == "CRYPTO_memcmp") {
      E.access(s, a[0], a[2], false, c.cb, "read"); E.access(s, a[1], a[2], false, c.cb, "read"); u64 k;
      if (E.constOf(a[2], s, k) && k < 100000) {
        TV x = E.readSeq(s, a[0], k), y = E.readSeq(s, a[1], k); if (E.onLeak && n[0] != 't' && n[0] != 'C') { E.onLeak(s, c.cb, mkSeq(x), "comparison"); E.onLeak(s, c.cb, mkSeq(y), "comparison"); }
        State e = s; for (u64 i = 0; i < k && !e.dead; i++) E.assume(mkCmp(O_EQ, x[i], y[i]), true, e);
        bool all = true; for (u64 i = 0; i < k; i++) if (!E.equal(x[i], y[i], s)) all = false;
        if (!e.dead) { trail(e, c.cb, 1); out.push_back({e, mkConst(32, 0), nullptr}); }
        if (!all) { State d = s; T r = mkFresh("memcmp", 32); E.assume(mkCmp(O_NE, r, mkConst(32, 0)), true, d); d.addFact(mkCustom("MemDiff", 0, 1, {mkSeq(x), mkSeq(y)})); trail(d, c.cb, 0); out.push_back({d, r, nullptr}); }
        E.forks++; return out;
      }
      return one(s, retFresh(c.cb, "memcmp"));
    }
    if (n == "malloc" || n == "calloc") {
      T sz = n == "malloc" ? a[0] : mkBin(Instruction::Mul, a[0], a[1]);
      int r = E.newRegion(s, "heap", sz, n == "malloc" ? Def::Uninit : Def::Zero, true); Region &R = E.wreg(s, r); R.heap = true; R.site = c.cb;
      State nul = s; nul.mem.erase(r); out.push_back({s, E.ptrTo(r), nullptr}); trail(nul, c.cb, 0); out.push_back({nul, mkConst(64, 0), nullptr}); return out; }
    if (n == "free") { if (a[0]->k == TK::Ptr && E.rreg(s, (int)a[0]->c)) { Region &R = E.wreg(s, (int)a[0]->c); if (!R.heap) E.memFail(s, c.cb, "free of an object that is not heap memory"); else if (R.freed) E.memFail(s, c.cb, "double release of heap memory"); R.freed = true; } return one(s, nullptr); }
    if (n == "exit" || n == "abort" || n == "_exit" || n == "__assert_fail") return out;
    if (c.callee && n.rfind("llvm.", 0) == 0) return one(s, retFresh(c.cb, "intr"));
    return generic(c, n);
  }
  Outcomes generic(CallCtx &c, const std::string &n) {
    // unknown function: may write through any pointer argument it receives as non-const
    E.unknownCalls.insert(n); State s = c.st;
    for (size_t i = 0; i < c.args.size(); i++) { T x = c.args[i]; if (x->k == TK::Ptr && E.rreg(s, (int)x->c) && E.rreg(s, (int)x->c)->writable && !(c.callee && i < c.callee->arg_size() && c.callee->getArg(i)->onlyReadsMemory())) E.havocRegion(s, (int)x->c); }
    return one(std::move(s), retFresh(c.cb, "ret:" + n));
  }
  Outcomes merged(Outcomes o) {
    if (o.size() < 2) return o;
    std::map<std::vector<u64>, std::vector<Outcome>> g;
    for (auto &x : o) { std::vector<u64> k; u64 c; if (x.ret) { if (x.ret->k == TK::Ptr || x.ret->k == TK::Fn) { k.push_back(2); k.push_back(x.ret->id); } else if (E.constOf(x.ret, x.st, c)) { k.push_back(1); k.push_back(c); } else k.push_back(0); } memKey(x.st, k); if (E.pathSensitive) k.push_back((u64)(uintptr_t)x.st.trail.get()); g[k].push_back(std::move(x)); }
    Outcomes r;
    for (auto &kv : g) {
      Outcome acc = std::move(kv.second[0]);
      for (size_t i = 1; i < kv.second.size(); i++) {
        PS a, b; bool chg = false; std::map<T, Itv> nref; T rv = acc.ret;
        Outcome &y = kv.second[i];
        if (rv && y.ret && rv != y.ret) { u64 c; if (E.constOf(rv, acc.st, c)) rv = mkConst(rv->w, c); else rv = joinVal(rv, y.ret, acc.st, y.st, nullptr, nullptr, 0, chg, nref); }
        joinMem(acc.st, y.st, nullptr, chg, nref); sfA = sfB = nullptr; joinFacts(acc.st, y.st, nref, chg); acc.ret = rv; if (y.st.trail && (!acc.st.trail || y.st.trail->len < acc.st.trail->len)) { acc.st.trail = y.st.trail; acc.at = y.at; }
      }
      r.push_back(std::move(acc));
    }
    return r;
  }
  Outcomes go(const TV &args, const State &st) {
    PS p; p.st = st; p.env.assign(I.num.size(), nullptr); unsigned i = 0; for (auto &A : F->args()) { T a = i < args.size() ? args[i] : mkFresh("arg", 64); if (A.getType()->isIntegerTy() && a->w != A.getType()->getIntegerBitWidth()) a = mkTrunc(mkZext(a, 64), A.getType()->getIntegerBitWidth()); p.env[I.num.at(&A)] = a; i++; }
    const BasicBlock *B = &F->getEntryBlock(); work[posOf(B, p)] = {B, {}}; work[posOf(B, p)].second.push_back(std::move(p));
    while (!work.empty() && E.broken.empty()) {
      auto it = work.begin(); const BasicBlock *bb = it->second.first; std::vector<PS> ps = std::move(it->second.second); work.erase(it);
      if (ps.size() > 1) {
        auto &live = I.live[bb]; std::map<std::vector<u64>, PS> g; E.maxStates = std::max<u64>(E.maxStates, ps.size());
        for (auto &x : ps) { auto k = key(x, live); if (E.pathSensitive) k.push_back((u64)(uintptr_t)x.st.trail.get()); auto f = g.find(k); if (f == g.end()) g.emplace(std::move(k), std::move(x)); else join(f->second, x, live, nullptr); }
        if (g.size() > E.partBudget) { auto f = g.begin(); PS acc = std::move(f->second); for (++f; f != g.end(); ++f) join(acc, f->second, live, nullptr); g.clear(); g.emplace(std::vector<u64>{}, std::move(acc)); }
        ps.clear(); for (auto &kv : g) ps.push_back(std::move(kv.second));
      }
      for (auto &x : ps) exec(std::move(x), bb, bb->begin());
    }
    for (auto &o : outs) for (int r : frameRegions) { auto f = o.st.mem.find(r); if (f != o.st.mem.end()) { if (E.onRegionDeath) E.onRegionDeath(o.st, r, *f->second); o.st.mem.erase(r); } }
    return merged(std::move(outs));
  }
};
Outcomes Engine::run(const Function *F, const TV &args, const State &st) {
  if (F->isDeclaration()) { broken = "no body for " + F->getName().str(); return {}; }
  analysed.insert(F); Runner R(*this, F); return R.go(args, st);
}
} // namespace pq
