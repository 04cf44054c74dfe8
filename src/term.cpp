#include "engine.h"
#include <sstream>
using namespace llvm;
namespace pq {

static std::vector<std::string> gNames; static std::unordered_map<std::string, u32> gNameIdx;
bool gArith = false;
u32 intern(const std::string &s) {
  auto it = gNameIdx.find(s); if (it != gNameIdx.end()) return it->second;
  u32 i = gNames.size(); gNames.push_back(s); gNameIdx[s] = i; return i;
}
const std::string &internName(u32 i) { return gNames[i]; }

struct TH { size_t operator()(T t) const {
  u64 h = (u64)t->k * 0x9E3779B97F4A7C15ull ^ ((u64)t->w << 40) ^ ((u64)t->op << 8) ^ t->c * 0xC2B2AE3D27D4EB4Full;
  for (T x : t->a) { h ^= (u64)x->id + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); }
  for (u64 x : t->co) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); }
  return h ^ (h >> 29); } };
struct TE { bool operator()(T a, T b) const { return a->k == b->k && a->w == b->w && a->op == b->op && a->c == b->c && a->a == b->a && a->co == b->co; } };
static std::unordered_set<T, TH, TE> gTerms; static u32 gNext = 1;
static T ic(Term &&t) {
  auto it = gTerms.find(&t); if (it != gTerms.end()) return *it;
  Term *n = new Term(std::move(t)); n->id = gNext++; for (T x : n->a) n->dep = std::max(n->dep, x->dep + 1); gTerms.insert(n); return n;
}
static T mk(TK k, unsigned w, u32 op, u64 c, TV a = {}, std::vector<u64> co = {}) {
  Term t; t.k = k; t.w = w; t.op = op; t.c = c; t.id = 0; t.a = std::move(a); t.co = std::move(co); return ic(std::move(t));
}
static std::unordered_map<u64, T> gC[65];
T mkConst(unsigned w, u64 v) {
  v &= maskw(w);
  if (w <= 64) { auto &m = gC[w]; auto it = m.find(v); if (it != m.end()) return it->second; return m[v] = mk(TK::Const, w, 0, v); }
  return mk(TK::Const, w, 0, v);
}
T mkLeaf(const std::string &n, u64 aux, unsigned w) { return mk(TK::Leaf, w, intern(n), aux); }
static u64 gFresh = 1;
T mkFresh(const std::string &n, unsigned w) { return mk(TK::Leaf, w, intern("?" + n), gFresh++); }
T mkPtr(int r, T off) { return mk(TK::Ptr, 64, 0, (u64)r, {off}); }
T mkFn(const Function *f) { return mk(TK::Fn, 64, intern(f->getName().str()), (u64)(uintptr_t)f); }
bool isC(T t, u64 v) { return t->k == TK::Const && t->c == (v & maskw(t->w)); }
T mkCustom(const std::string &n, u64 aux, unsigned w, const TV &args) {
  TV a; a.push_back(mkLeaf("#" + n, 0, 1)); a.insert(a.end(), args.begin(), args.end());
  return mk(TK::Op, w, O_CUSTOM, aux, a);
}
bool isCustom(T t, const std::string &n) { return t->k == TK::Op && t->op == O_CUSTOM && internName(t->a[0]->op) == "#" + n; }
T mkSeq(const TV &b) { return mk(TK::Seq, 0, 0, b.size(), b); }
static u64 gJoin = 1;
T mkJoin(unsigned w, T a, T b) {
  TV alts; auto add = [&](T t) { if (t->k == TK::Join) { for (T x : t->a) alts.push_back(x); } else alts.push_back(t); };
  add(a); add(b);
  std::sort(alts.begin(), alts.end(), [](T x, T y) { return x->id < y->id; });
  alts.erase(std::unique(alts.begin(), alts.end()), alts.end());
  if (alts.size() > 24) alts.clear();
  return mk(TK::Join, w, 0, gJoin++, alts);
}

// ---- linear forms
struct LF { u64 c = 0; std::vector<std::pair<T, u64>> m; };
static void lfAdd(LF &f, T t, u64 coef, unsigned w) {
  if (t->k == TK::Const) { f.c += coef * t->c; return; }
  if (t->k == TK::Lin) { f.c += coef * t->c; for (size_t i = 0; i < t->a.size(); i++) f.m.push_back({t->a[i], coef * t->co[i]}); return; }
  f.m.push_back({t, coef});
}
static T lfMake(LF &f, unsigned w) {
  std::sort(f.m.begin(), f.m.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
  TV a; std::vector<u64> co; u64 mk_ = maskw(w);
  for (size_t i = 0; i < f.m.size();) {
    u64 c = 0; size_t j = i; for (; j < f.m.size() && f.m[j].first == f.m[i].first; j++) c += f.m[j].second;
    c &= mk_; if (c) { a.push_back(f.m[i].first); co.push_back(c); } i = j;
  }
  f.c &= mk_;
  if (a.empty()) return mkConst(w, f.c);
  if (a.size() == 1 && co[0] == 1 && f.c == 0) return a[0];
  return mk(TK::Lin, w, 0, f.c, a, co);
}
T mkAdd(T a, T b) {
  if (a->k == TK::Const && b->k == TK::Const) return mkConst(a->w, a->c + b->c);
  if (isC(b, 0)) return a; if (isC(a, 0)) return b;
  if (a->k == TK::Ptr) return mkPtr((int)a->c, mkAdd(a->a[0], b));
  if (b->k == TK::Ptr) return mkPtr((int)b->c, mkAdd(b->a[0], a));
  if (a->a.size() + b->a.size() > 6000) return mk(TK::Op, a->w, Instruction::Add, 0, a->id < b->id ? TV{a, b} : TV{b, a});
  LF f; lfAdd(f, a, 1, a->w); lfAdd(f, b, 1, a->w); return lfMake(f, a->w);
}
T mkMulC(T a, u64 c) {
  if (a->k == TK::Const) return mkConst(a->w, a->c * c);
  LF f; lfAdd(f, a, c, a->w); return lfMake(f, a->w);
}
T mkSub(T a, T b) {
  if (a->k == TK::Ptr && b->k == TK::Ptr && a->c == b->c) return mkSub(a->a[0], b->a[0]);
  if (a->k == TK::Ptr) return mkPtr((int)a->c, mkSub(a->a[0], b));
  if (a->k == TK::Const && b->k == TK::Const) return mkConst(a->w, a->c - b->c);
  LF f; lfAdd(f, a, 1, a->w); lfAdd(f, b, ~0ull, a->w); return lfMake(f, a->w);
}
static bool bytey(T t) { return t->k == TK::Concat || (t->k == TK::Op && t->op == Instruction::ZExt && t->a[0]->w % 8 == 0) ; }
static i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 s = 1ull << (w - 1); return (i64)((v ^ s) - s); }

static bool constArms(T t);
static T minusOne(T a);
T mkConcat(const TV &b) {
  if (b.size() == 1) return b[0];
  bool allc = true; for (T x : b) if (x->k != TK::Const) { allc = false; break; }
  unsigned w = b.size() * 8;
  if (allc && w <= 64) { u64 v = 0; for (size_t i = 0; i < b.size(); i++) v |= b[i]->c << (8 * i); return mkConst(w, v); }
  // whole term?
  auto base = [](T x, T &t, u64 &i) { if (x->k == TK::Byte) { t = x->a[0]; i = x->c; return true; } t = x; i = 0; return false; };
  T t0; u64 i0; base(b[0], t0, i0);
  if (b[0]->k == TK::Byte && i0 == 0 && t0->w == w) {
    bool ok = true; for (size_t i = 1; i < b.size() && ok; i++) { T t; u64 k; ok = base(b[i], t, k) && t == t0 && k == i; }
    if (ok) return t0;
  }
  if (T lt = b.back()->k == TK::Byte ? b.back()->a[0] : nullptr) if (lt->k == TK::Lin && lt->w == w && b.back()->c == b.size() - 1) { bool ok = true; for (size_t i = 0; i < b.size() && ok; i++) ok = mkByte(lt, i) == b[i]; if (ok) return lt; }
  size_t n = b.size(); while (n > 1 && isC(b[n - 1], 0)) n--;
  if (n < b.size()) return mkZext(mkConcat(TV(b.begin(), b.begin() + n)), w);
  return mk(TK::Concat, w, 0, 0, b);
}
static std::unordered_map<u64, T> byteMemo;
static T mkByte_(T t, unsigned i);
T mkByte(T t, unsigned i) {
  if (t->w == 8 && i == 0) return t;
  if (gArith || t->k != TK::Op) return mkByte_(t, i);
  u64 key = (u64)t->id * 4096 + i; auto it = byteMemo.find(key); if (it != byteMemo.end()) return it->second;
  T r = mkByte_(t, i); byteMemo[key] = r; return r;
}
static T mkByte_(T t, unsigned i) {
  if (gArith && t->w > 8 && (t->k == TK::Lin || (t->k == TK::Op && t->op != Instruction::ZExt && t->op != O_SELECT))) return mk(TK::Byte, 8, 0, i, {t});
  if (t->w < 8) return i == 0 ? mkZext(t, 8) : mkConst(8, 0);
  switch (t->k) {
  case TK::Const: return mkConst(8, i < 8 ? t->c >> (8 * i) : 0);
  case TK::Concat: return t->a[i];
  case TK::Lin: if (i == 0) return mkTrunc(t, 8); if (t->w == 64 && i < 4) return mkByte(mkTrunc(t, 32), i); if (T x = minusOne(t)) if (x->w <= 8 * i) return mkSelect(mkCmp(O_EQ, x, mkConst(x->w, 0)), mkConst(8, 255), mkConst(8, 0)); break;
  case TK::Op:
    if (t->op == Instruction::ZExt) { T x = t->a[0]; if (x->w < 8) return i == 0 ? mkZext(x, 8) : mkConst(8, 0);
      if (8 * i >= x->w) return mkConst(8, 0); if (x->w % 8 == 0) return mkByte(x, i); if (8 * i + 8 <= x->w) return mkByte(x, i); break; }
    if (constArms(t)) return mkSelect(t->a[0], mkByte(t->a[1], i), mkByte(t->a[2], i));
    if (t->op == Instruction::SExt) { T x = t->a[0]; if (8 * i + 8 <= x->w) return mkByte(x, i); break; }
    if (t->op == Instruction::Trunc) return mkByte(t->a[0], i);
    if (t->op == Instruction::LShr && t->a[1]->k == TK::Const && t->a[1]->c % 8 == 0 && t->w % 8 == 0) { unsigned j = i + t->a[1]->c / 8; return j < t->w / 8u ? mkByte(t->a[0], j) : mkConst(8, 0); }
    if (t->op == Instruction::LShr && t->a[1]->k == TK::Const && t->a[0]->k == TK::Op && t->a[0]->op == Instruction::ZExt && t->a[0]->a[0]->w % 8 == 0) { T x = t->a[0]->a[0]; return t->a[1]->c >= x->w || 8 * i >= x->w ? mkConst(8, 0) : mkByte(mkBin(Instruction::LShr, x, mkConst(x->w, t->a[1]->c)), i); }
    if (t->op == Instruction::And || t->op == Instruction::Or || t->op == Instruction::Xor) return mkBin(t->op, mkByte(t->a[0], i), mkByte(t->a[1], i));
    break;
  default: break;
  }
  return mk(TK::Byte, 8, 0, i, {t});
}
T mkZext(T a, unsigned w) {
  if (a->w == w) return a;
  if (constArms(a)) return mkSelect(a->a[0], mkZext(a->a[1], w), mkZext(a->a[2], w));
  if (a->k == TK::Const) return mkConst(w, a->c);
  if (a->k == TK::Op && a->op == Instruction::ZExt) return mkZext(a->a[0], w);
  return mk(TK::Op, w, Instruction::ZExt, 0, {a});
}
T mkSext(T a, unsigned w) {
  if (a->w == w) return a;
  if (constArms(a)) return mkSelect(a->a[0], mkSext(a->a[1], w), mkSext(a->a[2], w));
  if (a->k == TK::Const) return mkConst(w, (u64)sx(a->c, a->w));
  if (a->k == TK::Op && a->op == Instruction::ZExt) return mkZext(a->a[0], w);
  if (a->k == TK::Op && a->op == Instruction::SExt) return mkSext(a->a[0], w);
  return mk(TK::Op, w, Instruction::SExt, 0, {a});
}
static std::unordered_map<u64, T> truncMemo;
static T mkTrunc_(T a, unsigned w);
T mkTrunc(T a, unsigned w) {
  if (a->w == w) return a;
  if (gArith || (a->k != TK::Op && a->k != TK::Lin)) return mkTrunc_(a, w);
  u64 key = (u64)a->id * 512 + w; auto it = truncMemo.find(key); if (it != truncMemo.end()) return it->second;
  T r = mkTrunc_(a, w); truncMemo[key] = r; return r;
}
static T mkTrunc_(T a, unsigned w) {
  if (gArith && a->w == 64 && (a->k == TK::Lin || (a->k == TK::Op && a->op != Instruction::ZExt && a->op != Instruction::SExt && a->op != O_SELECT))) return w == 8 ? mk(TK::Byte, 8, 0, 0, {a}) : mk(TK::Op, w, Instruction::Trunc, 0, {a});
  switch (a->k) {
  case TK::Const: return mkConst(w, a->c);
  case TK::Concat: if (w % 8 == 0) return mkConcat(TV(a->a.begin(), a->a.begin() + w / 8)); break;
  case TK::Lin: { LF f; f.c = a->c; for (size_t i = 0; i < a->a.size(); i++) lfAdd(f, mkTrunc(a->a[i], w), a->co[i], w); return lfMake(f, w); }
  case TK::Op:
    if (a->op == Instruction::ZExt) { T x = a->a[0]; return x->w <= w ? mkZext(x, w) : mkTrunc(x, w); }
    if (a->op == Instruction::SExt) { T x = a->a[0]; return x->w <= w ? mkSext(x, w) : mkTrunc(x, w); }
    if (a->op == Instruction::Trunc) return mkTrunc(a->a[0], w);
    if (a->op == Instruction::LShr && a->a[1]->k == TK::Const && a->a[1]->c % 8 == 0 && a->w % 8 == 0 && w % 8 == 0) { TV b(w / 8); for (unsigned i = 0; i < w / 8; i++) b[i] = mkByte(a, i); return mkConcat(b); }
    if (a->op == Instruction::And || a->op == Instruction::Or || a->op == Instruction::Xor) return mkBin(a->op, mkTrunc(a->a[0], w), mkTrunc(a->a[1], w));
    if (a->op == Instruction::LShr && a->a[1]->k == TK::Const && a->a[0]->k == TK::Op && a->a[0]->op == Instruction::ZExt && a->a[0]->a[0]->w <= w) { T x = a->a[0]->a[0]; return a->a[1]->c >= x->w ? mkConst(w, 0) : mkZext(mkBin(Instruction::LShr, x, mkConst(x->w, a->a[1]->c)), w); }
    if (a->op == O_SELECT) return mkSelect(a->a[0], mkTrunc(a->a[1], w), mkTrunc(a->a[2], w));
    break;
  default: break;
  }
  if (w == 8 && a->w % 8 == 0) return mk(TK::Byte, 8, 0, 0, {a});
  return mk(TK::Op, w, Instruction::Trunc, 0, {a});
}
T mkSelect(T c, T a, T b) {
  if (c->k == TK::Const) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1 && a->k == TK::Const && b->k == TK::Const) return a->c ? c : mkNot1(c);
  return mk(TK::Op, a->w, O_SELECT, 0, {c, a, b});
}
static bool constArms(T t) { return t->k == TK::Op && t->op == O_SELECT && t->a[1]->k == TK::Const && t->a[2]->k == TK::Const; }
// x - 1 for a zero-extended x: high bits are all ones exactly when x == 0
static T minusOne(T a) { return a->k == TK::Lin && a->a.size() == 1 && a->co[0] == 1 && a->c == maskw(a->w) && a->a[0]->k == TK::Op && a->a[0]->op == Instruction::ZExt ? a->a[0]->a[0] : nullptr; }
static T shiftBytes(T a, int k) { // k>0: left by k bytes, k<0 right
  unsigned n = a->w / 8; TV b(n);
  for (unsigned i = 0; i < n; i++) { int j = (int)i - k; b[i] = (j >= 0 && j < (int)n) ? mkByte(a, j) : mkConst(8, 0); }
  return mkConcat(b);
}
// Boolean canonicalisation: a bitwise expression over at most three atoms that shares an atom between its operands is
// rewritten to its algebraic normal form (xor of ands), so that equivalent formulas for one function compare equal.
static bool bwSupport(T t, TV &at, int &nodes) {
  if (++nodes > 24) return false;
  if (t->k == TK::Const) return t->c == 0 || t->c == maskw(t->w);
  if (t->k == TK::Op && (t->op == Instruction::And || t->op == Instruction::Or || t->op == Instruction::Xor)) return bwSupport(t->a[0], at, nodes) && bwSupport(t->a[1], at, nodes);
  if (std::find(at.begin(), at.end(), t) == at.end()) at.push_back(t);
  return at.size() <= 3;
}
static unsigned bwTable(T t, const TV &at) {
  static const unsigned var[3] = {0xAA, 0xCC, 0xF0};
  if (t->k == TK::Const) return t->c ? 0xFF : 0;
  for (size_t i = 0; i < at.size(); i++) if (at[i] == t) return var[i];
  unsigned x = bwTable(t->a[0], at), y = bwTable(t->a[1], at);
  return t->op == Instruction::And ? x & y : t->op == Instruction::Or ? x | y : x ^ y;
}
static T bwCanon(unsigned op, T a, T b, unsigned w) {
  TV at, bt; int n = 0; if (!bwSupport(a, at, n) || !bwSupport(b, bt, n)) return nullptr;
  bool share = false; for (T x : bt) if (std::find(at.begin(), at.end(), x) != at.end()) share = true; else at.push_back(x);
  if (!share || at.size() > 3) return nullptr;
  std::sort(at.begin(), at.end(), [](T x, T y) { return x->id < y->id; });
  unsigned x = bwTable(a, at), y = bwTable(b, at), tt = op == Instruction::And ? x & y : op == Instruction::Or ? x | y : x ^ y, k = at.size();
  unsigned f[8]; for (unsigned i = 0; i < 8; i++) f[i] = (tt >> i) & 1; for (unsigned v = 0; v < 3; v++) for (unsigned i = 0; i < 8; i++) if (i >> v & 1) f[i] ^= f[i ^ (1u << v)];
  TV mono; for (unsigned i = 1; i < (1u << k); i++) if (f[i]) { T m = nullptr; for (unsigned v = 0; v < k; v++) if (i >> v & 1) m = m ? mk(TK::Op, w, Instruction::And, 0, m->id < at[v]->id ? TV{m, at[v]} : TV{at[v], m}) : at[v]; mono.push_back(m); }
  std::sort(mono.begin(), mono.end(), [](T p, T q) { return p->id < q->id; });
  if (f[0]) mono.push_back(mkConst(w, maskw(w)));
  if (mono.empty()) return mkConst(w, 0);
  T t = mono[0]; for (size_t i = 1; i < mono.size(); i++) t = mk(TK::Op, w, Instruction::Xor, 0, {t, mono[i]});
  return t;
}
T mkBin(unsigned op, T a, T b) {
  unsigned w = a->w;
  if (a->k == TK::Const && b->k == TK::Const && w <= 64) {
    u64 x = a->c, y = b->c; i64 sxx = sx(x, w), syy = sx(y, w);
    switch (op) {
    case Instruction::Add: return mkConst(w, x + y); case Instruction::Sub: return mkConst(w, x - y); case Instruction::Mul: return mkConst(w, x * y);
    case Instruction::Shl: return mkConst(w, y >= w ? 0 : x << y); case Instruction::LShr: return mkConst(w, y >= w ? 0 : x >> y);
    case Instruction::AShr: return mkConst(w, (u64)(sxx >> (y >= w ? w - 1 : y)));
    case Instruction::And: return mkConst(w, x & y); case Instruction::Or: return mkConst(w, x | y); case Instruction::Xor: return mkConst(w, x ^ y);
    case Instruction::UDiv: if (y) return mkConst(w, x / y); break; case Instruction::URem: if (y) return mkConst(w, x % y); break;
    case Instruction::SDiv: if (syy && syy != -1) return mkConst(w, (u64)(sxx / syy)); break;
    case Instruction::SRem: if (syy && syy != -1) return mkConst(w, (u64)(sxx % syy)); break;
    }
  }
  if (b->k == TK::Const && constArms(a)) return mkSelect(a->a[0], mkBin(op, a->a[1], b), mkBin(op, a->a[2], b));
  if (a->k == TK::Const && constArms(b)) return mkSelect(b->a[0], mkBin(op, a, b->a[1]), mkBin(op, a, b->a[2]));
  if ((op == Instruction::LShr || op == Instruction::AShr) && b->k == TK::Const && b->c < w) if (T x = minusOne(a)) if (x->w <= b->c) return mkSelect(mkCmp(O_EQ, x, mkConst(x->w, 0)), mkBin(op, mkConst(w, ~0ull), b), mkConst(w, 0));
  switch (op) {
  case Instruction::Add: return mkAdd(a, b);
  case Instruction::Sub: return mkSub(a, b);
  case Instruction::Mul:
    if (a->k == TK::Const) return mkMulC(b, a->c); if (b->k == TK::Const) return mkMulC(a, b->c);
    if (a->id > b->id) std::swap(a, b); break;
  case Instruction::Shl:
    if (b->k == TK::Const) { if (b->c == 0) return a; if (!gArith && b->c % 8 == 0 && w % 8 == 0 && bytey(a)) return shiftBytes(a, b->c / 8); if (b->c < w) return mkMulC(a, 1ull << b->c); } break;
  case Instruction::LShr:
    if (b->k == TK::Const) { if (b->c == 0) return a; if (b->c >= w || (gArith && w == 64)) break; if (b->c % 8 == 0 && w % 8 == 0 && w > 8 && !(a->k == TK::Op && (a->op == Instruction::And || a->op == Instruction::Or || a->op == Instruction::Xor))) return shiftBytes(a, -(int)(b->c / 8));
      if (a->k == TK::Op && a->op == Instruction::ZExt && w <= 64) { T x = a->a[0]; return b->c >= x->w ? mkConst(w, 0) : mkZext(mkBin(op, x, mkConst(x->w, b->c)), w); }
      if (a->k == TK::Concat && b->c > 8 && w <= 64) return mkBin(op, shiftBytes(a, -(int)(b->c / 8)), mkConst(w, b->c % 8));
      if (a->k == TK::Op && a->op == Instruction::LShr && a->a[1]->k == TK::Const && a->a[1]->c + b->c < w) return mkBin(op, a->a[0], mkConst(w, a->a[1]->c + b->c)); } break;
  case Instruction::AShr: if (isC(b, 0)) return a; if (a->k == TK::Op && a->op == Instruction::ZExt) return mkBin(Instruction::LShr, a, b); break;
  case Instruction::UDiv: if (isC(b, 1)) return a; if (b->k == TK::Const && b->c && !(b->c & (b->c - 1))) return mkBin(Instruction::LShr, a, mkConst(w, __builtin_ctzll(b->c))); break;
  case Instruction::URem: if (b->k == TK::Const && b->c && !(b->c & (b->c - 1))) return mkBin(Instruction::And, a, mkConst(w, b->c - 1)); break;
  case Instruction::And: case Instruction::Or: case Instruction::Xor: {
    if (a->k == TK::Const) std::swap(a, b);
    if (a == b) return op == Instruction::Xor ? mkConst(w, 0) : a;
    if (b->k == TK::Const) {
      if (b->c == 0) return op == Instruction::And ? b : a;
      if (b->c == maskw(w)) { if (op == Instruction::And) return a; if (op == Instruction::Or) return b; }
      if (gArith && w == 64 && op == Instruction::And) break;
    }
    if (b->k == TK::Const && op != Instruction::Xor && a->k == TK::Op && a->a.size() == 2 && a->a[1]->k == TK::Const && w > 1 && w <= 64 && (a->op == Instruction::And || a->op == Instruction::Or)) {   // set/clear masks on one value: (x & m) | v with m, v disjoint
      T x = a->a[0]; u64 c1 = a->a[1]->c, c2 = b->c, all = maskw(w);
      if (a->op == op) return mkBin(op, x, mkConst(w, op == Instruction::And ? c1 & c2 : c1 | c2));
      if (op == Instruction::And) return mkBin(Instruction::Or, mkBin(Instruction::And, x, mkConst(w, c2 & ~c1)), mkConst(w, c1 & c2));
      u64 m = c1 & ~c2 & all; if (m == (~c2 & all)) return mkBin(op, x, b); if (m != c1) return mkBin(op, mkBin(Instruction::And, x, mkConst(w, m)), b);
    }
    if (op == Instruction::And && b->k == TK::Const && a->k == TK::Op && a->op == Instruction::LShr && a->a[1]->k == TK::Const && w <= 64) { u64 m = maskw(w) >> a->a[1]->c; if ((b->c & m) == m) return a; }
    if (w == 1) {
      if (op == Instruction::Xor && isC(b, 1)) return mkNot1(a);
    }
    if (op != Instruction::And && w > 8) { // rotation
      for (int q = 0; q < 2; q++) { T x = q ? b : a, y = q ? a : b; if (x->k == TK::Lin && x->a.size() == 1 && x->c == 0 && x->co[0] && !(x->co[0] & (x->co[0] - 1))) { unsigned k = __builtin_ctzll(x->co[0]); if (k && k < w && y == mkBin(Instruction::LShr, x->a[0], mkConst(w, w - k))) return mkCustom("rotl", k, w, {x->a[0]}); } }
    }
    if (op == Instruction::And && b->k == TK::Const && w == 64 && b->c == 0xffffffffull && !bytey(a)) return mkZext(mkTrunc(a, 32), 64);
    if (w % 8 == 0 && w > 8 && !gArith) {
      // bytewise normal form when one side is visibly made of bytes
      bool go = (bytey(a) || bytey(b)) && (b->k == TK::Const || bytey(a) || bytey(b));
      if (op == Instruction::And && b->k == TK::Const) { bool bm = true; for (unsigned i = 0; i < w / 8; i++) { u64 x = (b->c >> (8 * i)) & 255; if (x != 0 && x != 255) bm = false; } if (bm) go = true; else if (!bytey(a)) go = false; }
      if (go) { TV r(w / 8); for (unsigned i = 0; i < w / 8; i++) r[i] = mkBin(op, mkByte(a, i), mkByte(b, i)); return mkConcat(r); }
    }
    if (w > 1 && w <= 64) if (T t = bwCanon(op, a, b, w)) return t;
    if (op == Instruction::Xor) { // AC normal form, cancelling
      TV l; std::function<void(T)> fl = [&](T x) { if (x->k == TK::Op && x->op == Instruction::Xor) { fl(x->a[0]); fl(x->a[1]); } else l.push_back(x); };
      fl(a); fl(b); if (l.size() > 2 && l.size() < 4096) {
        std::sort(l.begin(), l.end(), [](T x, T y) { return x->id < y->id; });
        TV r; u64 c = 0; for (size_t i = 0; i < l.size();) { size_t j = i; while (j < l.size() && l[j] == l[i]) j++; if ((j - i) & 1) { if (l[i]->k == TK::Const) c ^= l[i]->c; else r.push_back(l[i]); } else if (false) {} i = j; }
        if (c) r.push_back(mkConst(w, c));
        if (r.empty()) return mkConst(w, 0);
        T t = r[0]; for (size_t i = 1; i < r.size(); i++) t = mk(TK::Op, w, Instruction::Xor, 0, {t, r[i]});
        return t;
      }
    }
    if (b->k != TK::Const && a->id > b->id) std::swap(a, b);
    break; }
  }
  return mk(TK::Op, w, op, 0, {a, b});
}
T mkNot1(T c) {
  if (c->k == TK::Const) return mkConst(1, !c->c);
  if (c->k == TK::Op) switch (c->op) {
    case O_EQ: return mk(TK::Op, 1, O_NE, 0, c->a); case O_NE: return mk(TK::Op, 1, O_EQ, 0, c->a);
    case O_ULT: return mkCmp(O_ULE, c->a[1], c->a[0]); case O_ULE: return mkCmp(O_ULT, c->a[1], c->a[0]);
    case O_SLT: return mkCmp(O_SLE, c->a[1], c->a[0]); case O_SLE: return mkCmp(O_SLT, c->a[1], c->a[0]);
    case Instruction::Xor: if (isC(c->a[1], 1)) return c->a[0]; break;
  }
  return mk(TK::Op, 1, Instruction::Xor, 0, {c, mkConst(1, 1)});
}
static bool nonneg(T t) { if (t->k == TK::Const) return !(t->c >> (t->w - 1) & 1); return t->k == TK::Op && t->op == Instruction::ZExt; }
T mkCmp(u32 op, T a, T b) {
  unsigned w = a->w;
  if (op == O_NE) return mkNot1(mkCmp(O_EQ, a, b));
  if (a == b) return mkConst(1, op == O_EQ || op == O_ULE || op == O_SLE);
  if (a->k == TK::Const && b->k == TK::Const) { bool r = false; i64 x = sx(a->c, w), y = sx(b->c, w);
    switch (op) { case O_EQ: r = a->c == b->c; break; case O_ULT: r = a->c < b->c; break; case O_ULE: r = a->c <= b->c; break; case O_SLT: r = x < y; break; case O_SLE: r = x <= y; break; }
    return mkConst(1, r); }
  if (a->k == TK::Ptr || b->k == TK::Ptr || a->k == TK::Fn || b->k == TK::Fn) {
    if (a->k == TK::Ptr && b->k == TK::Ptr && a->c == b->c) return mkCmp(op, a->a[0], b->a[0]);
    bool ap = a->k == TK::Ptr || a->k == TK::Fn, bp = b->k == TK::Ptr || b->k == TK::Fn;
    if (op == O_EQ) { if (ap && bp) return mkConst(1, 0); if (ap && isC(b, 0)) return mkConst(1, 0); if (bp && isC(a, 0)) return mkConst(1, 0); }
    return mk(TK::Op, 1, op, 0, {a, b});
  }
  if (w <= 64 && b->k == TK::Const && constArms(a)) return mkSelect(a->a[0], mkCmp(op, a->a[1], b), mkCmp(op, a->a[2], b));
  if (w <= 64 && a->k == TK::Const && constArms(b)) return mkSelect(b->a[0], mkCmp(op, a, b->a[1]), mkCmp(op, a, b->a[2]));
  if ((op == O_SLT || op == O_SLE) && nonneg(a) && nonneg(b)) op = op == O_SLT ? O_ULT : O_ULE;
  // strip extensions
  auto isZ = [](T t) { return t->k == TK::Op && t->op == Instruction::ZExt; };
  auto isS = [](T t) { return t->k == TK::Op && t->op == Instruction::SExt; };
  if (op == O_EQ || op == O_ULT || op == O_ULE) {
    if (isZ(a) && isZ(b)) { unsigned mw = std::max(a->a[0]->w, b->a[0]->w); return mkCmp(op, mkZext(a->a[0], mw), mkZext(b->a[0], mw)); }
    if (isZ(a) && b->k == TK::Const) { unsigned iw = a->a[0]->w; if (b->c <= maskw(iw)) return mkCmp(op, a->a[0], mkConst(iw, b->c)); return mkConst(1, op != O_EQ); }
    if (isZ(b) && a->k == TK::Const) { unsigned iw = b->a[0]->w; if (a->c <= maskw(iw)) return mkCmp(op, mkConst(iw, a->c), b->a[0]); return mkConst(1, 0); }
  }
  if (isS(a) && isS(b) && a->a[0]->w == b->a[0]->w && (op == O_EQ || op == O_SLT || op == O_SLE)) return mkCmp(op, a->a[0], b->a[0]);
  if (op == O_EQ || op == O_SLT || op == O_SLE) {
    if (isS(a) && b->k == TK::Const) { unsigned iw = a->a[0]->w; if (sx(b->c & maskw(iw), iw) == sx(b->c, w)) return mkCmp(op, a->a[0], mkConst(iw, b->c)); if (op == O_EQ) return mkConst(1, 0); }
    if (isS(b) && a->k == TK::Const) { unsigned iw = b->a[0]->w; if (sx(a->c & maskw(iw), iw) == sx(a->c, w)) return mkCmp(op, mkConst(iw, a->c), b->a[0]); if (op == O_EQ) return mkConst(1, 0); }
  }
  if (op == O_ULT) { if (isC(b, 0)) return mkConst(1, 0); if (isC(b, 1)) return mkCmp(O_EQ, a, mkConst(w, 0)); if (isC(a, 0)) return mkCmp(O_NE, b, mkConst(w, 0)); }
  if (op == O_ULE) { if (isC(a, 0)) return mkConst(1, 1); if (isC(b, 0)) return mkCmp(O_EQ, a, b); if (isC(a, 1)) return mkCmp(O_NE, b, mkConst(w, 0)); }
  if (op == O_EQ) {
    if (w == 1) { if (b->k == TK::Const) return b->c ? a : mkNot1(a); if (a->k == TK::Const) return a->c ? b : mkNot1(b); }
    auto isX = [](T t) { return t->k == TK::Op && t->op == Instruction::Xor; };
    if (isX(a) && isC(b, 0)) return mkCmp(O_EQ, a->a[0], a->a[1]);
    if (isX(b) && isC(a, 0)) return mkCmp(O_EQ, b->a[0], b->a[1]);
    if ((a->k == TK::Lin || b->k == TK::Lin)) {
      T d = mkSub(a, b);
      if (d->k == TK::Const) return mkConst(1, d->c == 0);
      if (d->k == TK::Lin) {
        if (d->a.size() == 1 && (d->co[0] == 1 || d->co[0] == maskw(w))) { u64 v = d->co[0] == 1 ? (0 - d->c) : d->c; T x = d->a[0], c = mkConst(w, v);
          if (isZ(x) || isS(x)) return mkCmp(O_EQ, x, c); return mk(TK::Op, 1, O_EQ, 0, {x, c}); }
        if (d->a.size() == 2 && d->c == 0 && ((d->co[0] == 1 && d->co[1] == maskw(w)) || (d->co[1] == 1 && d->co[0] == maskw(w)))) {
          T x = d->a[0], y = d->a[1]; if (isZ(x) && isZ(y)) return mkCmp(O_EQ, x, y); if (x->id > y->id) std::swap(x, y); return mk(TK::Op, 1, O_EQ, 0, {x, y}); }
        return mk(TK::Op, 1, O_EQ, 0, {d, mkConst(w, 0)});
      }
      return mk(TK::Op, 1, O_EQ, 0, {d, mkConst(w, 0)});
    }
    if (a->k == TK::Const) std::swap(a, b); else if (b->k != TK::Const && a->id > b->id) std::swap(a, b);
  }
  return mk(TK::Op, 1, op, 0, {a, b});
}

std::string show(T t, int d) {
  std::ostringstream o;
  switch (t->k) {
  case TK::Const: o << t->c; break;
  case TK::Leaf: o << internName(t->op); if (t->w == 8 || t->c) o << "[" << t->c << "]"; break;
  case TK::Ptr: o << "&R" << t->c << "+" << show(t->a[0], d - 1); break;
  case TK::Fn: o << "fn:" << internName(t->op); break;
  case TK::Byte: o << show(t->a[0], d) << ".b" << t->c; break;
  default: {
    if (d <= 0) { o << "..."; break; }
    if (t->k == TK::Lin) { bool f = true; for (size_t i = 0; i < t->a.size(); i++) { i64 c = sx(t->co[i], t->w); if (!f || c < 0) o << (c < 0 ? "-" : "+"); f = false; if (std::abs(c) != 1) o << std::abs(c) << "*"; o << show(t->a[i], d - 1); } if (t->c) { i64 c = sx(t->c, t->w); o << (c < 0 ? "" : "+") << c; } break; }
    if (t->k == TK::Op && t->op == O_CUSTOM) { o << internName(t->a[0]->op).substr(1) << "{" << t->c; for (size_t i = 1; i < t->a.size() && i < 8; i++) o << "," << show(t->a[i], d - 1); o << "}"; break; }
    if (t->k == TK::Seq) { o << "seq" << t->c << "("; if (t->a.size()) o << show(t->a[0], d - 1) << ".." << show(t->a.back(), d - 1); o << ")"; break; }
    if (t->k == TK::Join) { o << "join" << t->c << "("; for (size_t i = 0; i < t->a.size() && i < 4; i++) o << (i ? "|" : "") << show(t->a[i], d - 1); o << ")"; break; }
    const char *n = "op"; switch (t->op) { case O_EQ: n = "=="; break; case O_NE: n = "!="; break; case O_ULT: n = "<"; break; case O_ULE: n = "<="; break; case O_SLT: n = "<s"; break; case O_SLE: n = "<=s"; break; case O_SELECT: n = "select"; break; default: if (t->k == TK::Concat) n = "concat"; else n = Instruction::getOpcodeName(t->op); }
    o << n << "("; for (size_t i = 0; i < t->a.size() && i < 8; i++) o << (i ? "," : "") << show(t->a[i], d - 1); o << ")"; }
  }
  return o.str();
}
bool containsLeaf(T t, const std::function<bool(T)> &p, std::unordered_set<T> &seen) {
  if (!seen.insert(t).second) return false;
  if (t->k == TK::Leaf && p(t)) return true;
  for (T x : t->a) if (containsLeaf(x, p, seen)) return true;
  return false;
}
} // namespace pq
