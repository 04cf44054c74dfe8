// C35: exact arithmetic of TweetNaCl (field of 2^255-19, Edwards and Montgomery curve, scalars modulo the group
// order, Poly1305). Integer terms are brought to polynomials over opaque quotients: t & (2^k-1) = t - 2^k floor(t/2^k),
// so a carry chain is correct exactly when all quotients cancel, whatever the order and style of the carries.
#include "checks.h"
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallString.h>
using namespace llvm;
namespace pq {
namespace {
using Z = APInt; const unsigned ZB = 1100;
Z zc(i64 v) { return Z(ZB, (u64)v, true); }
Z p2(unsigned k) { return Z::getOneBitSet(ZB, k); }
struct Mod { Z m; bool on; Z red(const Z &a) const { if (!on) return a; Z r = a.srem(m); if (r.isNegative()) r += m; return r; } };
const Mod INT{Z(ZB, 0), false};
Mod mod25519() { return {p2(255) - zc(19), true}; }
Mod mod1305() { return {p2(130) - zc(5), true}; }
Mod modOrder() { return {p2(252) + Z(ZB, StringRef("27742317777372353535851937790883648493"), 10), true}; }
Z powm(const Mod &M, Z b, Z e) { Z r = zc(1); b = M.red(b); while (!e.isZero()) { if (e[0]) r = M.red(r * b); b = M.red(b * b); e = e.lshr(1); } return r; }
Z invm(const Mod &M, const Z &a) { return powm(M, a, M.m - zc(2)); }
struct ZL { bool operator()(const Z &a, const Z &b) const { return a.slt(b); } };

using Mono = std::vector<u32>;
struct Poly { std::map<Mono, Z> m;
  void add(const Mono &k, const Z &c, const Mod &M) { auto it = m.find(k); Z v = M.red(it == m.end() ? c : it->second + c); if (v.isZero()) { if (it != m.end()) m.erase(it); } else if (it == m.end()) m.emplace(k, v); else it->second = v; }
  void add(const Poly &o, const Z &c, const Mod &M) { for (auto &kv : o.m) add(kv.first, M.red(kv.second * c), M); }
  bool operator==(const Poly &o) const { if (m.size() != o.m.size()) return false; auto a = m.begin(), b = o.m.begin(); for (; a != m.end(); ++a, ++b) if (a->first != b->first || a->second != b->second) return false; return true; } };
Poly cst(const Z &c, const Mod &M) { Poly p; p.add(Mono{}, c, M); return p; }
Poly var(u32 a) { Poly p; p.m.emplace(Mono{a}, zc(1)); return p; }
Poly mul(const Poly &a, const Poly &b, const Mod &M) { Poly r; for (auto &x : a.m) for (auto &y : b.m) { Mono k; k.reserve(x.first.size() + y.first.size()); std::merge(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), std::back_inserter(k)); r.add(k, M.red(x.second * y.second), M); } return r; }
Poly sub(Poly a, const Poly &b, const Mod &M) { a.add(b, zc(-1), M); return a; }

// ---- integer interpretation of 64-bit terms
struct Rg { Z lo, hi; };
Z fdiv2(const Z &a, unsigned k) { return a.ashr(k); }
struct Arith {
  Mod M; std::function<bool(T)> splitMul = [](T) { return true; };      // may a factor be expanded?
  std::function<bool(T, Rg &)> leafRange = [](T, Rg &) { return false; };
  std::map<T, Poly> memo; std::map<T, Rg> rmemo; std::map<u32, T> atoms; std::string wrap; T wrapAt = nullptr;
  explicit Arith(const Mod &m) : M(m) {}
  u32 id(T t) { atoms[t->id] = t; return t->id; }
  static Rg full() { return {-p2(63), p2(63) - zc(1)}; }
  static Rg mulr(const Rg &a, const Rg &b) { Z v[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; Rg r{v[0], v[0]}; for (auto &x : v) { if (x.slt(r.lo)) r.lo = x; if (r.hi.slt(x)) r.hi = x; } return r; }
  static Rg addr(const Rg &a, const Rg &b) { return {a.lo + b.lo, a.hi + b.hi}; }
  static bool shiftOf(T t, T &x, unsigned &k) { if (t->k == TK::Op && (t->op == Instruction::AShr || t->op == Instruction::LShr) && t->a[1]->k == TK::Const && t->w == 64) { x = t->a[0]; k = t->a[1]->c; return true; } return false; }
  static bool within(const Rg &a, const Rg &b) { return b.lo.sle(a.lo) && a.hi.sle(b.hi); }
  static i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
  Rg range(T t) { auto it = rmemo.find(t); if (it != rmemo.end()) return it->second; Rg r = range_(t); rmemo[t] = r; return r; }
  Rg range_(T t) {
    Rg r; if (leafRange(t, r)) return r;
    T x; unsigned k;
    switch (t->k) {
    case TK::Const: { Z v = zc((i64)t->c); if (t->w < 64) v = zc((i64)t->c); return {v, v}; }
    case TK::Lin: { Z c = zc((i64)t->c); Rg s{c, c}; int best = -1; unsigned bk = 0; T bx = nullptr;
      for (size_t i = 0; i < t->a.size(); i++) { Z co = zc((i64)t->co[i]); s = addr(s, mulr(range(t->a[i]), {co, co})); T y; unsigned kk; if (shiftOf(t->a[i], y, kk) && kk < 63 && (i64)t->co[i] < 0 && (-(i64)t->co[i]) % (1ll << kk) == 0 && (best < 0 || t->a[i]->id > t->a[best]->id)) { best = (int)i; bk = kk; bx = y; } }
      if (best >= 0) { i64 m = -(i64)t->co[best] >> bk; T rest = mkSub(mkAdd(t, mkMulC(t->a[best], (u64)m << bk)), mkMulC(bx, (u64)m)); if (rest->k != TK::Lin || rest->a.size() < t->a.size()) { Rg q = addr({zc(0), zc(m) * (p2(bk) - zc(1))}, range(rest)); if (s.lo.slt(q.lo)) s.lo = q.lo; if (q.hi.slt(s.hi)) s.hi = q.hi; } }
      return s; }
    case TK::Byte: return {zc(0), zc(255)};
    case TK::Op:
      if (shiftOf(t, x, k)) { Rg a = range(x); if (!within(a, full()) ) a = full(); if (t->op == Instruction::LShr && a.lo.isNegative()) return {zc(0), p2(64 - k) - zc(1)}; return {fdiv2(a.lo, k), fdiv2(a.hi, k)}; }
      if (t->op == Instruction::ZExt) return t->a[0]->k == TK::Byte || t->a[0]->w >= 64 ? Rg{zc(0), p2(t->a[0]->w) - zc(1)} : (t->a[0]->k == TK::Op && t->a[0]->op == Instruction::And && t->a[0]->a[1]->k == TK::Const ? Rg{zc(0), zc((i64)t->a[0]->a[1]->c)} : Rg{zc(0), p2(t->a[0]->w) - zc(1)});
      if (t->op == Instruction::And && t->a[1]->k == TK::Const && (i64)t->a[1]->c >= 0) { Rg a = range(t->a[0]); Z m = zc((i64)t->a[1]->c); if (!a.lo.isNegative() && a.hi.slt(m)) m = a.hi; return {zc(0), m}; }
      if (t->op == Instruction::Trunc) { Rg a = range(t->a[0]); if (!a.lo.isNegative() && a.hi.slt(p2(t->w))) return a; }
      if (t->op == Instruction::Mul) return mulr(range(t->a[0]), range(t->a[1]));
      if (t->op == O_SELECT) { Rg a = range(t->a[1]), b = range(t->a[2]); return {a.lo.slt(b.lo) ? a.lo : b.lo, a.hi.slt(b.hi) ? b.hi : a.hi}; }
      break;
    default: break; }
    if (t->w < 64) return {zc(0), p2(t->w) - zc(1)};
    return full(); }
  // floor(t / 2^k) as a polynomial
  Poly quot(T t, unsigned k, bool logical) {
    Rg r = range(t); if (!within(r, full()) || (logical && r.lo.isNegative())) { if (wrap.empty()) { wrap = "value may leave the 64-bit range before a shift or mask: [" + str(r.lo) + " .. " + str(r.hi) + "]"; wrapAt = t; } }
    if (!r.lo.isNegative() && r.hi.slt(p2(k))) return Poly();
    if (r.lo == zc(-1) && !r.hi.sgt(zc(0)) && k >= 1) return nf(t);
    if (r.hi.isNegative() && (-r.lo).sle(p2(k))) return cst(zc(-1), M);
    return var(id(mkCustom("quot", k, 64, {t}))); }
  Poly low(T t, unsigned k) { Poly p = nf(t); p.add(quot(t, k, false), -p2(k), M); return p; }
  static std::string str(const Z &z) { SmallString<64> s; z.toString(s, 10, true); return std::string(s.str()); }
  Poly nf(T t) { auto it = memo.find(t); if (it != memo.end()) return it->second; Poly p = nf_(t); memo[t] = p; return p; }
  Poly factor(T t) { Rg r = range(t); if (r.lo == r.hi) return cst(r.lo, M); return splitMul(t) ? nf(t) : var(id(t)); }
  Poly nf_(T t) {
    T x; unsigned k;
    switch (t->k) {
    case TK::Const: return cst(t->w == 64 ? zc((i64)t->c) : zc((i64)t->c), M);
    case TK::Lin: { Poly p = cst(zc(sx(t->c, t->w)), M); for (size_t i = 0; i < t->a.size(); i++) p.add(nf(t->a[i]), zc(sx(t->co[i], t->w)), M); return p; }
    case TK::Byte: if (t->a[0]->w == 64) { if (t->c == 0) return low(t->a[0], 8); Poly p = quot(t->a[0], 8 * t->c, false); p.add(quot(t->a[0], 8 * t->c + 8, false), -p2(8), M); return p; } break;
    case TK::Concat: { Poly p; for (size_t i = 0; i < t->a.size(); i++) p.add(nf(t->a[i]), p2(8 * i), M); return p; }
    case TK::Op:
      if (shiftOf(t, x, k)) return quot(x, k, t->op == Instruction::LShr);
      if (t->op == Instruction::ZExt) { T y = t->a[0]; if (y->k == TK::Op && y->op == Instruction::Trunc && y->a[0]->w == 64) return low(y->a[0], y->w); return nf(y); }
      if (t->op == Instruction::And && t->a[1]->k == TK::Const) { u64 c = t->a[1]->c; if (c) { unsigned lo = __builtin_ctzll(c); u64 s = c >> lo; if (!(s & (s + 1)) && (lo || s != ~0ull)) { unsigned n = 0; while (s) { n++; s >>= 1; } if (lo + n >= (unsigned)t->w) { Poly p = nf(t->a[0]); p.add(low(t->a[0], lo), zc(-1), M); return p; } Poly p = low(t->a[0], lo + n); if (lo) p.add(low(t->a[0], lo), zc(-1), M); return p; } } }
      if (t->op == Instruction::Trunc && t->a[0]->w == 64) { Rg r = range(t->a[0]); if (!r.lo.isNegative() && r.hi.slt(p2(t->w))) return nf(t->a[0]); }
      if (t->op == Instruction::Xor && isC(t->a[1], 1)) { Rg r = range(t->a[0]); if (Arith::within(r, {zc(0), zc(1)})) return sub(cst(zc(1), M), nf(t->a[0]), M); }
      if (t->op == Instruction::Or || t->op == Instruction::Xor) for (int sw = 0; sw < 2; sw++) { T a = t->a[sw], b = t->a[1 - sw]; Rg r = range(a); if (r.lo.isNegative() || r.hi.uge(p2(56))) continue; u64 m = 1; while (r.hi.uge(m)) m *= 2; bool dj = b->k == TK::Const ? b->c % m == 0 : b->k == TK::Lin && b->c % m == 0; if (dj && b->k == TK::Lin) for (u64 q : b->co) dj = dj && q % m == 0; if (dj) { Poly p = nf(a); p.add(nf(b), zc(1), M); return p; } }
      if (t->op == O_EQ || t->op == O_NE) for (int sw = 0; sw < 2; sw++) { T x = t->a[sw], k0 = t->a[1 - sw]; if (k0->k == TK::Const && k0->c <= 1 && Arith::within(range(x), {zc(0), zc(1)})) { bool pos = (t->op == O_EQ) == (k0->c == 1); return pos ? nf(x) : sub(cst(zc(1), M), nf(x), M); } }
      if (t->op == O_SLT && t->a[0]->w == 64 && isC(t->a[1], 0) && Arith::within(range(t->a[0]), {zc(-65536), zc(65535)})) { Poly p; p.add(quot(t->a[0], 16, false), zc(-1), M); return p; }
      if (((t->op == O_SLT && isC(t->a[0], ~0ull)) || (t->op == O_SLE && isC(t->a[0], 0))) && t->a[1]->w == 64 && Arith::within(range(t->a[1]), {zc(-65536), zc(65535)})) { Poly p = cst(zc(1), M); p.add(quot(t->a[1], 16, false), zc(1), M); return p; }
      if (t->op == Instruction::Mul) return mul(factor(t->a[0]), factor(t->a[1]), M);
      if (t->op == Instruction::Shl && t->a[1]->k == TK::Const) { Poly p; p.add(nf(t->a[0]), p2(t->a[1]->c), M); return p; }
      break;
    default: break; }
    return var(id(t)); }
  std::string show1(const Poly &p, unsigned n = 3) { std::string s; unsigned i = 0; for (auto &kv : p.m) { if (i++ >= n) { s += " + ..."; break; } if (!s.empty()) s += " + "; s += str(kv.second); for (u32 a : kv.first) s += "*" + show(atoms.count(a) ? atoms[a] : mkConst(8, 0), 3).substr(0, 60); } return s.empty() ? "0" : s; }
};
struct AM { AM() { gArith = true; } ~AM() { gArith = false; } };
T L(u64 v) { return mkConst(64, v); }
Outcomes one(State s, T r = nullptr) { Outcomes o; o.push_back({std::move(s), r, nullptr}); return o; }
const Function *helper(Module &M, const std::string &n, unsigned args) {
  auto *A = M.getFunction("crypto_sign_ed25519_tweet_open"); if (!A || !A->getSubprogram()) return nullptr; auto file = A->getSubprogram()->getFilename();
  for (auto &F : M) { if (F.isDeclaration() || !F.getSubprogram() || F.getSubprogram()->getFilename() != file) continue; if (F.getSubprogram()->getName() == n && F.arg_size() == args) return &F; } return nullptr; }
bool model(Engine &E, const std::string &n, unsigned args, Model m) { auto *F = helper(E.M, n, args); if (!F) return false; E.models[F->getName().str()] = m; return true; }
void limbs(Run &h, const std::string &b, const std::string &leaf, unsigned n = 16) { for (u64 i = 0; i < n; i++) h.E.storeBytes(h.s0, h.reg[b], 8 * i, mkLeaf(leaf, i, 64), 8); }
Poly value(Arith &A, Run &h, State &s, int reg, unsigned n, unsigned step) { Poly v; for (unsigned i = 0; i < n; i++) { T t = h.E.loadBytes(s, reg, 8 * i, 8); Rg r = A.range(t); if (!Arith::within(r, Arith::full()) && A.wrap.empty()) { A.wrap = "limb " + std::to_string(i) + " may leave the 64-bit range"; A.wrapAt = t; } v.add(A.nf(t), p2(step * i), A.M); } return v; }
Poly leafValue(Arith &A, const std::string &l, unsigned n, unsigned step) { Poly v; for (unsigned i = 0; i < n; i++) v.add(var(A.id(mkLeaf(l, i, 64))), p2(step * i), A.M); return v; }
std::function<bool(T, Rg &)> leaf64(i64 lo, i64 hi) { return [=](T t, Rg &r) { if (t->k == TK::Leaf && t->w == 64) { r = {zc(lo), zc(hi)}; return true; } return false; }; }
const i64 INB = 1 << 22, OUTB = 1 << 17;           // contract of the field product: inputs below 2^22, outputs below 2^17
void skip(Report &R, const std::string &n) { R.notes.insert("helper " + n + " of tweetnacl.c not found under its name and arity: not compared by itself"); }

void fieldJobs(Ctx &c, std::vector<Job> &jobs) {
  struct Op { const char *n; unsigned args; int kind; };                       // kind: 0 product, 1 sum, 2 difference, 3 square, 4 carry
  for (Op op : {Op{"M", 3, 0}, Op{"A", 3, 1}, Op{"Z", 3, 2}, Op{"S", 2, 3}, Op{"car25519", 1, 4}}) jobs.push_back([=, &c](Report &R) { auto *F = helper(c.M, op.n, op.args); if (!F) { skip(R, op.n); return; } AM am;
    for (int alias = 0; alias < (op.kind == 4 ? 1 : op.kind == 3 ? 2 : 5); alias++) { Run h(c.M, F->getName().str()); h.E.checkBounds = false; T a = h.buf("a", 128, true), b = h.buf("b", 128, true), o = h.buf("o", 128, true); limbs(h, "a", "a"); limbs(h, "b", "b");
      std::string pn = "a", qn = "b", on = "o"; if (alias == 1 || alias == 4) on = "a"; if (alias == 2) on = "b"; if (alias == 3 || alias == 4) qn = "a"; auto P = [&](const std::string &n) { return h.E.ptrTo(h.reg[n]); };
      h.args = op.kind == 4 ? TV{P("a")} : op.kind == 3 ? TV{P(on), P("a")} : TV{P(on), P("a"), P(qn)}; if (op.kind == 4) on = "a"; if (!h.go(R)) return;
      for (auto &out : h.outs) { Arith A(mod25519()); i64 B = op.kind == 4 ? (1ll << 60) : INB; A.leafRange = leaf64(-B, B); Poly got = value(A, h, out.st, h.reg[on], 16, 16), x = leafValue(A, "a", 16, 16), y = leafValue(A, qn, 16, 16), want;
        if (op.kind == 0) want = mul(x, y, A.M); else if (op.kind == 3) want = mul(x, x, A.M); else if (op.kind == 4) want = x; else { want = x; want.add(y, zc(op.kind == 1 ? 1 : -1), A.M); }
        R.oblig(got == want, std::string("C35:") + op.n, h.where(out), std::string("field operation ") + op.n + " does not compute its value modulo 2^255-19: difference " + A.show1(sub(got, want, A.M)));
        R.oblig(A.wrap.empty(), std::string("C35:range:") + op.n, h.where(out), std::string("field operation ") + op.n + ": " + A.wrap);
        if (op.kind == 0 || op.kind == 3) for (unsigned i = 0; i < 16; i++) { Rg r = A.range(h.E.loadBytes(out.st, h.reg[on], 8 * i, 8)); R.oblig(Arith::within(r, {zc(-OUTB), zc(OUTB)}), std::string("C35:bound:") + op.n, h.where(out), std::string("limb ") + std::to_string(i) + " of the product lies in [" + Arith::str(r.lo) + " .. " + Arith::str(r.hi) + "]: later products can overflow"); }
        for (std::string in : {"a", "b"}) if (in != on) for (unsigned i = 0; i < 16; i++) R.oblig(h.E.loadBytes(out.st, h.reg[in], 8 * i, 8) == mkLeaf(in, i, 64), std::string("C35:input:") + op.n, h.where(out), std::string("field operation ") + op.n + " changes its operand"); }
      R.ok("field_operations"); } });
  jobs.push_back([=, &c](Report &R) { auto *F = helper(c.M, "sel25519", 3); if (!F) { skip(R, "sel25519"); return; } for (u64 b : {0, 1}) { Run h(c.M, F->getName().str()); h.args = {h.buf("a", 128, true), h.buf("b", 128, true), mkConst(32, b)}; limbs(h, "a", "a"); limbs(h, "b", "b"); if (!h.go(R)) return; for (auto &o : h.outs) for (unsigned i = 0; i < 16; i++) for (std::string n : {"a", "b"}) { std::string w = b ? (n == "a" ? "b" : "a") : n; T g = h.E.loadBytes(o.st, h.reg[n], 8 * i, 8); R.oblig(g == mkLeaf(w, i, 64), "C35:sel25519", h.where(o), "conditional swap with condition " + std::to_string(b) + " leaves " + show(g, 3) + " in limb " + std::to_string(i)); } R.ok("field_operations"); } });
  jobs.push_back([=, &c](Report &R) { auto *F = helper(c.M, "unpack25519", 2); if (!F) { skip(R, "unpack25519"); return; } AM am; Run h(c.M, F->getName().str()); h.E.checkBounds = false; h.args = {h.buf("o", 128, true), h.buf("n", 32, false)}; if (!h.go(R)) return; for (auto &o : h.outs) { Arith A(INT); Poly got = value(A, h, o.st, h.reg["o"], 16, 16), want; for (unsigned i = 0; i < 31; i++) want.add(var(A.id(mkLeaf("n", i, 8))), p2(8 * i), INT); want.add(A.low(mkZext(mkLeaf("n", 31, 8), 64), 7), p2(248), INT);
      // the mask may sit on the byte or on the limb: compare quotients of both by value
      auto norm = [&](const Poly &p) { Poly r; for (auto &kv : p.m) { bool done = false; if (kv.first.size() == 1) { T t = A.atoms[kv.first[0]]; if (isCustom(t, "quot")) { T x = t->a[1]; Poly q = A.nf(x); if (t->c == 15 && q == [&] { Poly w; w.add(var(A.id(mkLeaf("n", 30, 8))), zc(1), INT); w.add(var(A.id(mkLeaf("n", 31, 8))), zc(256), INT); return w; }()) { r.add(Mono{A.id(mkCustom("bit255", 0, 64, {}))}, kv.second, INT); done = true; } else if (t->c == 7 && q == var(A.id(mkLeaf("n", 31, 8)))) { r.add(Mono{A.id(mkCustom("bit255", 0, 64, {}))}, kv.second, INT); done = true; } } } if (!done) r.add(kv.first, kv.second, INT); } return r; };
      Poly d = sub(norm(got), norm(want), INT); R.oblig(d.m.empty(), "C35:unpack25519", h.where(o), "decoding a field element does not give the low 255 bits of its bytes: difference " + A.show1(d)); } R.ok("field_operations"); });
}

// scalars modulo the group order
void scalarJobs(Ctx &c, std::vector<Job> &jobs) {
  for (int which : {0, 1}) jobs.push_back([=, &c](Report &R) { std::string n = which ? "reduce" : "modL"; auto *F = helper(c.M, n, which ? 1 : 2); if (!F) { skip(R, n); return; } AM am; Run h(c.M, F->getName().str()); h.E.checkBounds = false; T r = h.buf("r", 64, true); if (which) h.args = {r}; else { h.args = {r, h.buf("x", 512, true)}; limbs(h, "x", "x", 64); } if (!h.go(R)) return;
    for (auto &o : h.outs) { Arith A(modOrder()); A.leafRange = leaf64(0, 1 << 21); Poly want, got; if (which) for (unsigned i = 0; i < 64; i++) want.add(var(A.id(mkLeaf("r", i, 8))), p2(8 * i), A.M); else want = leafValue(A, "x", 64, 8); T top = nullptr; for (unsigned i = 0; i < 32; i++) { T b = h.E.loadBytes(o.st, h.reg["r"], i, 1); if (i == 31) top = b; got.add(A.nf(b), p2(8 * i), A.M); }
      Poly d = sub(got, want, A.M); // only the quotient dropped above byte 31 may remain
      bool good = d.m.empty(); if (!good && top && top->k == TK::Byte && top->c == 0) { Poly q = A.quot(top->a[0], 8, false); Z m256 = A.M.red(-p2(256)); good = d.m.size() <= 2; for (auto &kv : d.m) good = good && kv.first.size() == 1 && kv.second == m256 && isCustom(A.atoms[kv.first[0]], "quot") && A.atoms[kv.first[0]]->c == 8; (void)q; }   // bits carried out above 2^256 (at most once each way)
      R.oblig(good, "C35:" + n, h.where(o), "scalar reduction does not preserve its value modulo the group order: difference " + A.show1(d)); // integers: the result is V - c L - 2^256 (c + drop) with c = floor(V / 2^256) and V between -2^252 and 2^252, hence in [0, L)
      Arith N(INT); N.leafRange = which ? std::function<bool(T, Rg &)>([](T, Rg &) { return false; }) : leaf64(0, 1 << 21); Poly w; for (unsigned i = 0; i < 32; i++) w.add(N.nf(h.E.loadBytes(o.st, h.reg["r"], i, 1)), p2(8 * i), INT); bool canon = false; std::string seen; Z cl = -(p2(256) + modOrder().m); for (auto &kv : w.m) if (kv.first.size() == 1 && kv.second == cl && isCustom(N.atoms[kv.first[0]], "quot") && N.atoms[kv.first[0]]->c == 8) { Rg r = N.range(N.atoms[kv.first[0]]->a[1]); seen = " [" + Arith::str(r.lo) + " .. " + Arith::str(r.hi) + "]"; canon = Arith::within(r, {zc(-16), zc(15)}); }
      R.oblig(canon && N.wrap.empty(), "C35:canonical:" + n, h.where(o), "a reduced scalar need not lie below the group order: top limb before the last correction" + (seen.empty() ? std::string(" not recognised") : seen) + (N.wrap.empty() ? "" : ", " + N.wrap));
      if (which) for (unsigned i = 32; i < 64; i++) R.oblig(isC(h.E.loadBytes(o.st, h.reg["r"], i, 1), 0), "C35:reduce-high", h.where(o), "byte " + std::to_string(i) + " of a reduced scalar is not cleared"); } R.ok("scalar_reductions"); });
}

// Poly1305
T substT(T t, T from, T to, std::map<T, T> &memo) { if (t == from) return to; auto it = memo.find(t); if (it != memo.end()) return it->second; T r = t; if (t->k == TK::Lin) { r = mkConst(t->w, t->c); for (size_t i = 0; i < t->a.size(); i++) r = mkAdd(r, mkMulC(substT(t->a[i], from, to, memo), t->co[i])); } else if (t->k == TK::Op && t->a.size() == 2 && t->op < 1000 && (t->op == Instruction::And || t->op == Instruction::Or || t->op == Instruction::Xor)) r = mkBin(t->op, substT(t->a[0], from, to, memo), substT(t->a[1], from, to, memo)); memo[t] = r; return r; }
void findMask(T t, T &s, std::set<T> &seen) { if (s || !seen.insert(t).second) return; if (t->k == TK::Lin && t->a.size() == 1 && ((t->c == 0 && t->co[0] == ~0ull) || (t->c == ~0ull && t->co[0] == 1))) { T x; unsigned k; if (Arith::shiftOf(t->a[0], x, k)) { s = t; return; } } if (t->k == TK::Op && (t->op == Instruction::And || t->op == Instruction::Or || t->op == Instruction::Xor)) for (T a : t->a) findMask(a, s, seen); }
void polyJobs(Ctx &c, std::vector<Job> &jobs) {
  const std::string F = "crypto_onetimeauth_poly1305_tweet"; std::vector<u64> ns{0, 1, 15, 16, 17, 31, 32, 33, 64, 83}; if (c.thorough) for (u64 n = 2; n < 120; n += 3) ns.push_back(n);
  for (u64 n : ns) jobs.push_back([=, &c](Report &R) { AM am; Run h(c.M, F); h.E.checkBounds = false; h.args = {h.buf("out", 16, true), h.buf("m", n ? n : 1, false), L(n), h.buf("k", 32, false)}; if (!h.go(R)) return; std::string nm = " (message length " + std::to_string(n) + ")";
    for (auto &o : h.outs) { Mod M128{p2(128), true}; Arith A(M128); Poly v; for (unsigned j = 0; j < 16; j++) v.add(A.nf(h.E.loadBytes(o.st, h.reg["out"], j, 1)), p2(8 * j), M128); for (unsigned j = 0; j < 16; j++) v.add(var(A.id(mkLeaf("k", 16 + j, 8))), -p2(8 * j), M128);
      if (n == 0) { R.oblig(v.m.empty(), "C35:poly1305-key", h.where(o), "the authenticator of an empty message is not the second key half: difference " + A.show1(v)); R.ok("authenticators"); continue; }
      // 16 selected limbs remain
      std::vector<T> sel(16, nullptr); bool shape = v.m.size() == 16; for (auto &kv : v.m) { bool f = false; if (kv.first.size() == 1) for (unsigned j = 0; j < 16; j++) if (kv.second == p2(8 * j)) { sel[j] = A.atoms[kv.first[0]]; f = true; } shape = shape && f; }
      R.oblig(shape, "C35:poly1305-key", h.where(o), "the authenticator is not the reduced polynomial value plus the second key half modulo 2^128" + nm + ": " + A.show1(v, 4)); if (!shape) continue;
      T s = nullptr; std::set<T> seen; findMask(sel[0], s, seen); if (!s) { R.notes.insert("final reduction of Poly1305 not in mask form: its selection is not compared"); continue; }
      std::vector<T> hh(17), g(17); for (unsigned j = 0; j < 16; j++) { std::map<T, T> m0, m1; hh[j] = substT(sel[j], s, L(s->c), m0); g[j] = substT(sel[j], s, L(s->c ? 0 : ~0ull), m1); }
      T y; unsigned k; Arith::shiftOf(s->a[0], y, k); R.oblig(k == 7 && y->k == TK::Op && y->op == Instruction::And && isC(y->a[1], 255), "C35:poly1305-select", h.where(o), "the final subtraction of Poly1305 is not selected by bit 7 of its top byte" + nm); hh[16] = y; if (y->k != TK::Op) continue;
      // h' = g + 2^136 - p (17 bytes): recover g[16] as what the top byte adds to
      auto km = std::make_shared<std::unordered_map<T, bool>>(); std::function<bool(T)> keyOnly = [km](T t) { std::function<bool(T)> go = [&](T x) { auto it = km->find(x); if (it != km->end()) return it->second; bool r = !(x->k == TK::Leaf && internName(x->op) != "k"); for (T a : x->a) r = go(a) && r; (*km)[x] = r; return r; }; return go(t); };
      Arith I(INT); I.splitMul = keyOnly; Poly vh, vg; for (unsigned j = 0; j < 17; j++) vh.add(I.nf(hh[j]), p2(8 * j), INT); for (unsigned j = 0; j < 16; j++) vg.add(I.nf(g[j]), p2(8 * j), INT);
      // difference must be 2^136 - p + 2^128 g16 - 2^136 carry
      T u16 = y->a[0]; Poly d = sub(vh, vg, INT); d.add(I.quot(u16, 8, false), p2(136), INT); d.add(Mono{}, -(p2(136) - p2(130) + zc(5)), INT); bool div = true; Poly g16; for (auto &kv : d.m) { Z q = kv.second.ashr(128); if (q.shl(128) != kv.second) div = false; g16.add(kv.first, q, INT); }
      R.oblig(div, "C35:poly1305-subtract", h.where(o), "the final step of Poly1305 does not subtract 2^130-5" + nm + ": difference " + I.show1(d)); if (!div) continue;
      // value of g modulo p, peeled block by block
      Arith P(mod1305()); P.splitMul = keyOnly;
      Poly N; for (unsigned j = 0; j < 16; j++) N.add(P.nf(g[j]), p2(8 * j), P.M); for (auto &kv : g16.m) { N.add(kv.first, kv.second * p2(128), P.M); for (u32 x : kv.first) P.atoms[x] = I.atoms[x]; }
      Poly Rk; for (unsigned j = 0; j < 16; j++) { u64 msk = (j % 4 == 3) ? 15 : (j && j % 4 == 0) ? 252 : 255; T t = mkZext(mkLeaf("k", j, 8), 64); Rk.add(msk == 255 ? P.nf(t) : P.nf(mkBin(Instruction::And, t, L(msk))), p2(8 * j), P.M); }
      u32 k1 = P.id(mkLeaf("k", 1, 8)); Z i256 = invm(P.M, zc(256)); u64 blocks = (n + 15) / 16; bool good = true; Poly bad;
      for (u64 b = blocks; b-- > 0 && good;) { Poly W; for (auto &kv : N.m) if (kv.first.size() == 2 && (kv.first[0] == k1 || kv.first[1] == k1)) W.add(Mono{kv.first[0] == k1 ? kv.first[1] : kv.first[0]}, P.M.red(kv.second * i256), P.M); else if (kv.first.size() == 1 && kv.first[0] == k1) W.add(Mono{}, P.M.red(kv.second * i256), P.M);
        bad = sub(N, mul(Rk, W, P.M), P.M); good = bad.m.empty(); if (!good) break; Poly X; for (auto &kv : W.m) if (kv.first.empty()) X.add(Mono{}, kv.second, P.M); else X.add(P.nf(P.atoms[kv.first[0]]), kv.second, P.M);
        u64 len = std::min<u64>(16, n - 16 * b); for (u64 j = 0; j < len; j++) X.add(Mono{P.id(mkLeaf("m", 16 * b + j, 8))}, -p2(8 * j), P.M); X.add(Mono{}, -p2(8 * len), P.M); N = X; R.ok("authenticator_blocks"); if (b == 0) { good = N.m.empty(); bad = N; } }
      R.oblig(good, "C35:poly1305", h.where(o), "the authenticator is not the polynomial of the message blocks in the clamped key modulo 2^130-5" + nm + ": difference " + P.show1(bad)); R.oblig(P.wrap.empty(), "C35:range:poly1305", h.where(o), "Poly1305" + nm + ": " + P.wrap);
      // the subtraction happens at most once: the value is below 2p
      Z hi = zc(0); for (unsigned j = 0; j < 16; j++) hi += P.range(g[j]).hi * p2(8 * j); Rg t16{zc(0), zc(0)}; for (auto &kv : g16.m) if (kv.first.size() == 1 && kv.second == zc(1) && g16.m.size() == 1) t16 = P.range(P.atoms.count(kv.first[0]) ? P.atoms[kv.first[0]] : I.atoms[kv.first[0]]); hi += t16.hi * p2(128); R.oblig(hi.slt(P.M.m * zc(2)), "C35:poly1305-bound", h.where(o), "the value before the final subtraction is not below 2(2^130-5)" + nm); }
    R.ok("authenticators"); });
}

// ---- field elements as products of powers; points as multiples of a base point
struct FCmp { bool operator()(const std::vector<std::pair<u32, Z>> &a, const std::vector<std::pair<u32, Z>> &b) const { if (a.size() != b.size()) return a.size() < b.size(); for (size_t i = 0; i < a.size(); i++) { if (a[i].first != b[i].first) return a[i].first < b[i].first; if (a[i].second != b[i].second) return a[i].second.ult(b[i].second); } return false; } };
using FMono = std::vector<std::pair<u32, Z>>; using FP = std::map<FMono, Z, FCmp>;
struct FPL { bool operator()(const FP &a, const FP &b) const { if (a.size() != b.size()) return a.size() < b.size(); FCmp c; auto x = a.begin(), y = b.begin(); for (; x != a.end(); ++x, ++y) { if (c(x->first, y->first)) return true; if (c(y->first, x->first)) return false; if (x->second != y->second) return x->second.ult(y->second); } return false; } };
struct Fld {
  Mod P = mod25519(); std::vector<FP> elems; std::map<FP, u32, FPL> ids; std::vector<std::string> names; std::map<u32, FP> sums; std::map<FP, u32, FPL> sumId; std::map<T, u32> raws; std::string over; u64 products = 0;
  u32 atom(const std::string &n) { for (u32 i = 0; i < names.size(); i++) if (names[i] == n) return i; names.push_back(n); return names.size() - 1; }
  static void add(FP &p, const FMono &m, const Z &c, const Mod &P) { auto it = p.find(m); Z v = P.red(it == p.end() ? c : it->second + c); if (v.isZero()) { if (it != p.end()) p.erase(it); } else if (it == p.end()) p.emplace(m, v); else it->second = v; }
  FP one(const Z &c) { FP p; add(p, {}, c, P); return p; }
  FP at(u32 a) { FP p; p.emplace(FMono{{a, zc(1)}}, zc(1)); return p; }
  FP at(const std::string &n) { return at(atom(n)); }
  static FMono mm(const FMono &a, const FMono &b) { FMono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; } return r; }
  FP mul(const FP &a, const FP &b) { FP r; for (auto &x : a) for (auto &y : b) add(r, mm(x.first, y.first), P.red(x.second * y.second), P); return r; }
  FP lin(const FP &a, const FP &b, i64 k) { FP r = a; for (auto &y : b) add(r, y.first, P.red(y.second * zc(k)), P); return r; }
  FP pow(const FP &a, const Z &e) { FP r; auto &x = *a.begin(); FMono m; for (auto &f : x.first) m.push_back({f.first, f.second * e}); add(r, m, powm(P, x.second, e), P); return r; }   // one monomial only
  FP mono(const FP &a) { if (a.size() <= 1) return a; Z l = a.rbegin()->second, li = invm(P, l); FP n; for (auto &x : a) add(n, x.first, P.red(x.second * li), P); auto it = sumId.find(n); u32 id; if (it == sumId.end()) { id = atom("sum#" + std::to_string(sums.size())); sums[id] = n; sumId[n] = id; } else id = it->second; FP r; r.emplace(FMono{{id, zc(1)}}, l); return r; }
  FP expand(const FP &a, unsigned lim = 16) { FP r; for (auto &x : a) { FP t = one(x.second); bool plain = true; for (auto &f : x.first) { auto it = sums.find(f.first); if (it != sums.end() && f.second.ule(lim)) { plain = false; FP d = expand(it->second, lim); for (u64 k = f.second.getZExtValue(); k > 0; k--) t = mul(t, d); } else { FP m; m.emplace(FMono{f}, zc(1)); t = mul(t, m); } } (void)plain; for (auto &y : t) add(r, y.first, y.second, P); } return r; }
  u32 elem(const FP &v) { auto it = ids.find(v); if (it != ids.end()) return it->second; elems.push_back(v); return ids[v] = elems.size() - 1; }
  T limb(const FP &v, unsigned i) { return mkCustom("gf", i, 64, {mkConst(32, elem(v))}); }
  static bool gfLimb(T t) { return isCustom(t, "gf"); }
  FP value(const TV &l) { Arith A(P); A.leafRange = [](T t, Rg &r) { if (gfLimb(t)) { r = {zc(-OUTB), zc(OUTB)}; return true; } return false; };
    Poly v; for (unsigned i = 0; i < 16; i++) { Rg r = A.range(l[i]); if (!Arith::within(r, {zc(-INB), zc(INB)}) && over.empty()) over = "limb " + std::to_string(i) + " of an operand of the field product lies in [" + Arith::str(r.lo) + " .. " + Arith::str(r.hi) + "]"; v.add(A.nf(l[i]), p2(16 * i), P); }
    FP out; std::map<u32, std::vector<Z>> co; bool bad = false; for (auto &kv : v.m) { if (kv.first.empty()) { add(out, {}, kv.second, P); continue; } T t = A.atoms[kv.first[0]]; if (kv.first.size() != 1 || !gfLimb(t)) { bad = true; break; } auto &c = co[(u32)t->a[1]->c]; if (c.empty()) c.assign(16, zc(0)); c[t->c] = kv.second; }
    for (auto &e : co) { for (unsigned i = 0; i < 16 && !bad; i++) if (e.second[i] != P.red(e.second[0] * p2(16 * i))) bad = true; if (bad) break; for (auto &x : elems[e.first]) add(out, x.first, P.red(x.second * e.second[0]), P); }
    if (bad) { T k = mkSeq(l); auto it = raws.find(k); u32 id = it == raws.end() ? (raws[k] = atom("raw#" + std::to_string(raws.size()))) : it->second; return at(id); } return out; }
  std::string str(const FP &a) { std::string s; unsigned n = 0; for (auto &x : a) { if (n++ > 3) { s += "+..."; break; } if (n > 1) s += " + "; s += Arith::str(x.second); for (auto &f : x.first) s += "*" + names[f.first] + (f.second == zc(1) ? "" : "^" + Arith::str(f.second)); } return s.empty() ? "0" : s; }
};
bool addrOf(CallCtx &c, unsigned i, int &reg, u64 &off) { T p = c.args[i]; if (p->k != TK::Ptr) return false; reg = (int)p->c; return c.E.constOf(p->a[0], c.st, off); }
TV rdLimbs(Engine &E, State &s, int reg, u64 off, unsigned n = 16) { TV r; for (unsigned i = 0; i < n; i++) r.push_back(E.loadBytes(s, reg, off + 8 * i, 8)); return r; }
void wrElem(Engine &E, State &s, int reg, u64 off, Fld &f, const FP &v) { for (unsigned i = 0; i < 16; i++) E.storeBytes(s, reg, off + 8 * i, f.limb(v, i), 8); }
FP rdElem(CallCtx &c, State &s, unsigned i, Fld &f) { int r; u64 o; if (!addrOf(c, i, r, o)) return f.at("unknown"); return f.value(rdLimbs(c.E, s, r, o)); }
void wrArg(CallCtx &c, State &s, unsigned i, Fld &f, const FP &v) { int r; u64 o; if (addrOf(c, i, r, o)) wrElem(c.E, s, r, o, f, v); else c.E.havoc(s, c.args[i], L(128), "gf"); }
bool fieldModels(Engine &E, Fld &f, bool powers) {
  bool ok = model(E, "M", 3, [&f](CallCtx &c) { State s = c.st; FP a = f.mono(rdElem(c, s, 1, f)), b = f.mono(rdElem(c, s, 2, f)); f.products++; wrArg(c, s, 0, f, f.mul(a, b)); return one(s); });
  model(E, "S", 2, [&f](CallCtx &c) { State s = c.st; FP a = f.mono(rdElem(c, s, 1, f)); f.products++; wrArg(c, s, 0, f, f.mul(a, a)); return one(s); });
  if (powers) { model(E, "inv25519", 2, [&f](CallCtx &c) { State s = c.st; FP a = f.mono(rdElem(c, s, 1, f)); wrArg(c, s, 0, f, a.empty() ? a : f.pow(a, f.P.m - zc(2))); return one(s); });
    model(E, "pow2523", 2, [&f](CallCtx &c) { State s = c.st; FP a = f.mono(rdElem(c, s, 1, f)); wrArg(c, s, 0, f, a.empty() ? a : f.pow(a, p2(252) - zc(3))); return one(s); });
    model(E, "unpack25519", 2, [&f](CallCtx &c) { State s = c.st; int r; u64 o; std::string n = "decode#" + std::to_string(addrOf(c, 1, r, o) ? mkSeq([&] { TV v; for (unsigned i = 0; i < 32; i++) v.push_back(c.E.loadBytes(s, r, o + i, 1)); return v; }())->id : 0); wrArg(c, s, 0, f, f.at(n)); return one(s); }); }
  return ok; }
void feInput(Run &h, Fld &f, const std::string &b, u64 off, const FP &v) { wrElem(h.E, h.s0, h.reg[b], off, f, v); }
FP feOut(Run &h, Fld &f, State &s, const std::string &b, u64 off) { return f.value(rdLimbs(h.E, s, h.reg[b], off)); }
T feByte(Fld &f, const FP &v, unsigned i) { return mkCustom("fe", i, 8, {mkConst(32, f.elem(f.mono(f.expand(v))))}); }
void mark(State &s, CallCtx &c, int d) { auto t = std::make_shared<Trail>(); t->prev = s.trail; t->at = c.cb; t->dir = d; t->len = s.trail ? s.trail->len + 1 : 1; s.trail = t; }
Z dConst(const Mod &P) { return P.red(-(zc(121665) * invm(P, zc(121666)))); }

void powerJobs(Ctx &c, std::vector<Job> &jobs) {
  for (int which : {0, 1}) for (int alias : {0, 1}) jobs.push_back([=, &c](Report &R) { std::string n = which ? "pow2523" : "inv25519"; auto *F = helper(c.M, n, 2); if (!F) { skip(R, n); return; } Fld f; Run h(c.M, F->getName().str()); h.E.checkBounds = false; if (!fieldModels(h.E, f, false)) { skip(R, "M"); return; } T o = h.buf("o", 128, true), i = h.buf("i", 128, true); h.args = {alias ? i : o, i}; feInput(h, f, "i", 0, f.at("a")); if (!h.go(R)) return; Z q = f.P.m - zc(1), want = which ? p2(252) - zc(3) : f.P.m - zc(2);
    for (auto &out : h.outs) { FP v = feOut(h, f, out.st, alias ? "i" : "o", 0); bool good = v.size() == 1 && v.begin()->second == zc(1) && v.begin()->first.size() == 1 && v.begin()->first[0].first == f.atom("a") && v.begin()->first[0].second.urem(q) == want.urem(q); R.oblig(good, "C35:" + n, h.where(out), n + " does not raise its argument to the power " + (which ? "2^252-3" : "2^255-21") + ": " + f.str(v)); R.oblig(f.over.empty(), "C35:range:" + n, h.where(out), n + ": " + f.over); } R.ok("field_powers"); R.ok("field_products", f.products); });
}
void addJobs(Ctx &c, std::vector<Job> &jobs) {
  for (int dbl : {0, 1}) jobs.push_back([=, &c](Report &R) { auto *F = helper(c.M, "add", 2); if (!F) { skip(R, "add"); return; } Fld f; Run h(c.M, F->getName().str()); h.E.checkBounds = false; if (!fieldModels(h.E, f, true)) { skip(R, "M"); return; } T p = h.buf("p", 512, true), q = h.buf("q", 512, true); h.args = {p, dbl ? p : q};
    auto pt = [&](const std::string &b, const std::string &k) { FP x = f.at("x" + k), y = f.at("y" + k), z = f.at("Z" + k); feInput(h, f, b, 0, f.mul(x, z)); feInput(h, f, b, 128, f.mul(y, z)); feInput(h, f, b, 256, z); feInput(h, f, b, 384, f.mul(f.mul(x, y), z)); return std::make_pair(x, y); }; auto a = pt("p", "1"), b = dbl ? a : pt("q", "2"); if (dbl) pt("q", "2"); if (!h.go(R)) return;
    for (auto &out : h.outs) { FP X = f.expand(feOut(h, f, out.st, "p", 0)), Y = f.expand(feOut(h, f, out.st, "p", 128)), Zc = f.expand(feOut(h, f, out.st, "p", 256)), Tc = f.expand(feOut(h, f, out.st, "p", 384)); FP one = f.one(zc(1)), D = f.mul(f.one(dConst(f.P)), f.mul(f.mul(a.first, b.first), f.mul(a.second, b.second)));
      FP nx = f.lin(f.mul(a.first, b.second), f.mul(a.second, b.first), 1), ny = f.lin(f.mul(a.second, b.second), f.mul(a.first, b.first), 1); std::string nm = dbl ? " (doubling)" : "";
      R.oblig(f.mul(X, f.lin(one, D, 1)) == f.mul(Zc, nx), "C35:add-x", h.where(out), "the x coordinate of a point sum is not (x1 y2 + x2 y1) / (1 + d x1 x2 y1 y2)" + nm); R.oblig(f.mul(Y, f.lin(one, D, -1)) == f.mul(Zc, ny), "C35:add-y", h.where(out), "the y coordinate of a point sum is not (y1 y2 + x1 x2) / (1 - d x1 x2 y1 y2)" + nm); R.oblig(f.mul(Tc, Zc) == f.mul(X, Y), "C35:add-t", h.where(out), "the product coordinate of a point sum is not X Y / Z" + nm);
      // Z is a nonzero multiple of the two denominators
      FP den = f.mul(f.lin(one, D, 1), f.lin(one, D, -1)); bool z = Zc.size() == den.size() && !Zc.empty(); if (z) { auto sc = [&](const FP &p) { FP r; for (auto &kv : p) { FMono m; for (auto &g : kv.first) if (f.names[g.first][0] != 'Z') m.push_back(g); Fld::add(r, m, kv.second, f.P); } return r; }; FP u = sc(Zc); Z c0 = u.count(FMono{}) ? u[FMono{}] : zc(0); z = !c0.isZero() && u == f.mul(f.one(c0), den); }
      R.oblig(z, "C35:add-z", h.where(out), "the denominator of a point sum can vanish or is not the product of the two denominators" + nm + ": " + f.str(Zc)); R.oblig(f.over.empty(), "C35:range:add", h.where(out), "point addition: " + f.over); if (!dbl) for (unsigned k = 0; k < 64; k++) { T t = h.E.loadBytes(out.st, h.reg["q"], 8 * k, 8); R.oblig(Fld::gfLimb(t), "C35:add-input", h.where(out), "point addition changes its second operand"); } }
    R.ok("point_additions"); R.ok("field_products", f.products); });
}

// multiples of a base point as polynomials in the scalar's bits
struct Mult { std::vector<Poly> n; std::map<std::string, u32> idx; std::map<u32, std::string> bitName;
  static std::string key(const Poly &p) { std::string s; for (auto &kv : p.m) { s += Arith::str(kv.second) + "["; for (u32 a : kv.first) s += std::to_string(a) + ","; s += "]"; } return s; }
  u32 id(const Poly &p) { auto k = key(p); auto it = idx.find(k); if (it != idx.end()) return it->second; n.push_back(p); return idx[k] = n.size() - 1; }
  static Poly timesBit(const Poly &p, u32 b) { Poly r; for (auto &kv : p.m) { Mono m = kv.first; auto it = std::lower_bound(m.begin(), m.end(), b); if (it == m.end() || *it != b) m.insert(it, b); r.add(m, kv.second, INT); } return r; }
  static Poly square1(const Poly &p) { Poly r; for (auto &x : p.m) for (auto &y : p.m) { Mono m; std::set_union(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), std::back_inserter(m)); r.add(m, x.second * y.second, INT); } return r; }
  // bit of the scalar: -1 unknown, 0/1 constant, 2 symbolic (b set): variable 8*byte+bit
  static int bitOf(T t, const std::string &scal, u32 &b) { if (t->k == TK::Const) return t->c == 0 ? 0 : t->c == 1 ? 1 : -1; T at = nullptr; auto *tab = tableOf(t, at); if (!tab || !at || at->k != TK::Leaf || internName(at->op) != scal) return -1; for (int k = 0; k < 2; k++) { bool all = true; for (u64 v : *tab) all = all && v == (u64)k; if (all) return k; } for (unsigned j = 0; j < 8; j++) { bool m = true; for (unsigned v = 0; v < 256; v++) m = m && (*tab)[v] == ((v >> j) & 1); if (m) { b = 8 * at->c + j; return 2; } } return -1; } };
using Cand = std::vector<std::pair<u32, u32>>;   // (multiple, coordinate)
bool selModel(Engine &E, Fld &f, Mult &mu, const std::string &scal, std::function<Cand(const FP &)> recog, std::function<FP(u32, u32)> coord, std::string &bad) {
  return model(E, "sel25519", 3, [&f, &mu, scal, recog, coord, &bad](CallCtx &c) { State s = c.st; FP p = rdElem(c, s, 0, f), q = rdElem(c, s, 1, f); u32 b = 0; int k = Mult::bitOf(c.args[2], scal, b);
    Cand a = recog(p), d = recog(q); if (k == 0 || k == 1) { for (auto &x : a) for (auto &y : d) if (x.second == y.second) { FP u = coord(x.first, x.second), v = coord(y.first, y.second); if (k) std::swap(u, v); wrArg(c, s, 0, f, u); wrArg(c, s, 1, f, v); return one(s); } if (k) { wrArg(c, s, 0, f, q); wrArg(c, s, 1, f, p); } return one(s); }
     for (auto &x : a) for (auto &y : d) if (k == 2 && x.second == y.second) { Poly df = sub(mu.n[y.first], mu.n[x.first], INT), e = Mult::timesBit(df, b); Poly n1 = mu.n[x.first], n2 = mu.n[y.first]; n1.add(e, zc(1), INT); n2.add(e, zc(-1), INT); wrArg(c, s, 0, f, coord(mu.id(n1), x.second)); wrArg(c, s, 1, f, coord(mu.id(n2), x.second)); return one(s); }
    if (bad.empty()) bad = k != 2 ? "the swap condition is not a bit of the scalar: " + show(c.args[2], 4) : "swapped elements are not the same coordinate of two known points: " + f.str(p) + " / " + f.str(q); wrArg(c, s, 0, f, f.at("lost")); wrArg(c, s, 1, f, f.at("lost")); return one(s); }); }
Poly bitsPoly(unsigned from, unsigned to) { Poly p; for (unsigned i = from; i < to; i++) p.add(Mono{i}, p2(i), INT); return p; }
void multJobs(Ctx &c, std::vector<Job> &jobs) {
  jobs.push_back([&c](Report &R) { auto *F = helper(c.M, "scalarmult", 3); if (!F) { skip(R, "scalarmult"); return; } Fld f; Mult mu; std::string bad; u64 adds = 0; Run h(c.M, F->getName().str()); h.E.checkBounds = false; h.E.hardLimit = 4000000; fieldModels(h.E, f, true); auto nm = [](u32 n, u32 k) { return "pt" + std::to_string(n) + "." + std::to_string(k); };
    u32 zero = mu.id(Poly()), oneP = mu.id(cst(zc(1), INT)); auto coord = [&](u32 n, u32 k) { return f.at(nm(n, k)); };
    auto recog = [&](const FP &v) { Cand r; if (v.empty()) return Cand{{zero, 0}, {zero, 3}}; if (v == f.one(zc(1))) return Cand{{zero, 1}, {zero, 2}}; if (v.size() == 1 && v.begin()->second == zc(1) && v.begin()->first.size() == 1 && v.begin()->first[0].second == zc(1)) { std::string &s = f.names[v.begin()->first[0].first]; u32 n, k; if (sscanf(s.c_str(), "pt%u.%u", &n, &k) == 2) r.push_back({n, k}); } return r; };
    if (!selModel(h.E, f, mu, "s", recog, coord, bad)) { skip(R, "sel25519"); return; }
    auto whole = [&](Engine &E, State &s, int reg, u64 off, u32 &n) { bool first = true; for (u32 k = 0; k < 4; k++) { Cand c = recog(f.value(rdLimbs(E, s, reg, off + 128 * k))); bool hit = false; for (auto &x : c) if (x.second == k && (first || x.first == n)) { n = x.first; hit = true; break; } if (!hit) return false; first = false; } return true; };
    if (!model(h.E, "add", 2, [&](CallCtx &c) { State s = c.st; int r1, r2; u64 o1, o2; u32 a, b; adds++; if (addrOf(c, 0, r1, o1) && addrOf(c, 1, r2, o2) && whole(c.E, s, r1, o1, a) && whole(c.E, s, r2, o2, b)) { Poly n = mu.n[a]; n.add(mu.n[b], zc(1), INT); u32 id = mu.id(n); for (u32 k = 0; k < 4; k++) wrElem(c.E, s, r1, o1 + 128 * k, f, coord(id, k)); } else { if (bad.empty()) bad = "a point that is added is not a known multiple"; c.E.havoc(s, c.args[0], L(512), "point"); } return one(s); })) { skip(R, "add"); return; }
    h.args = {h.buf("p", 512, true), h.buf("q", 512, true), h.buf("s", 32, false)}; for (u32 k = 0; k < 4; k++) feInput(h, f, "q", 128 * k, coord(oneP, k)); if (!h.go(R)) return;
    for (auto &o : h.outs) { u32 n = 0; bool k = whole(h.E, o.st, h.reg["p"], 0, n); Poly d; if (k) d = sub(mu.n[n], bitsPoly(0, 256), INT); R.oblig(k && d.m.empty() && bad.empty(), "C35:scalarmult", h.where(o), "scalar multiplication does not give the multiple of the point by the whole 256-bit scalar" + (bad.empty() ? k ? ": " + std::to_string(d.m.size()) + " bits differ in weight" : std::string() : ": " + bad)); } R.ok("scalar_multiplications"); R.ok("point_additions_tracked", adds); });
  jobs.push_back([&c](Report &R) { auto *F = helper(c.M, "scalarbase", 2); if (!F) { skip(R, "scalarbase"); return; } Fld f; Run h(c.M, F->getName().str()); h.E.checkBounds = false; fieldModels(h.E, f, true); u64 seen = 0;
    if (!model(h.E, "scalarmult", 3, [&](CallCtx &c) { State s = c.st; seen++; int r; u64 o; if (addrOf(c, 1, r, o)) { FP v[4]; for (unsigned k = 0; k < 4; k++) v[k] = f.value(rdLimbs(c.E, s, r, o + 128 * k)); bool cs = true; Z z[4]; for (unsigned k = 0; k < 4; k++) { cs = cs && v[k].size() == 1 && v[k].begin()->first.empty(); z[k] = cs ? v[k].begin()->second : zc(0); } Z zi = cs ? invm(f.P, z[2]) : zc(0), x = f.P.red(z[0] * zi), y = f.P.red(z[1] * zi); bool good = cs && y == f.P.red(zc(4) * invm(f.P, zc(5))) && !x[0] && f.P.red(y * y - x * x) == f.P.red(zc(1) + f.P.red(dConst(f.P) * f.P.red(x * x)) * f.P.red(y * y)) && f.P.red(z[3] * z[2]) == f.P.red(z[0] * z[1]); R.oblig(good, "C35:scalarbase", c.E.loc(c.cb), "the base point is not the point of the curve with y = 4/5 and even x"); }
        bool sc = true; int r2; u64 o2; for (unsigned i = 0; i < 32; i++) sc = sc && addrOf(c, 2, r2, o2) && c.E.loadBytes(s, r2, o2 + i, 1) == mkLeaf("s", i, 8); R.oblig(sc, "C35:scalarbase-scalar", c.E.loc(c.cb), "multiplication of the base point does not use the given scalar"); int r3; u64 o3; R.oblig(addrOf(c, 0, r3, o3) && r3 == h.reg["p"] && o3 == 0, "C35:scalarbase-result", c.E.loc(c.cb), "the multiple of the base point is not written to the result"); c.E.havoc(s, c.args[0], L(512), "mult"); c.E.havoc(s, c.args[1], L(512), "mult"); return one(s); })) { skip(R, "scalarmult"); return; }
    h.args = {h.buf("p", 512, true), h.buf("s", 32, false)}; if (!h.go(R)) return; if (!seen) { R.notes.insert("scalarbase does not use scalarmult: not compared"); return; } R.ok("scalar_multiplications"); });
  // X25519
  for (int alias : {0, 1, 2}) jobs.push_back([=, &c](Report &R) { const std::string F = "crypto_scalarmult_curve25519_tweet"; Fld f; Mult mu; std::string bad; Run h(c.M, F); h.E.checkBounds = false; h.E.hardLimit = 4000000; if (!fieldModels(h.E, f, true)) { skip(R, "M"); return; } u32 zero = mu.id(Poly()), oneP = mu.id(cst(zc(1), INT)); FP x; bool haveX = false;
    if (!model(h.E, "unpack25519", 2, [&](CallCtx &c) { State s = c.st; int r; u64 o; bool k = addrOf(c, 1, r, o); for (unsigned i = 0; i < 32 && k; i++) k = c.E.loadBytes(s, r, o + i, 1) == mkLeaf("P", i, 8); x = f.at(k ? "u" : "notP"); haveX = k; wrArg(c, s, 0, f, x); return one(s); })) { skip(R, "unpack25519"); return; }
    auto nm = [](u32 n, u32 k) { return "pt" + std::to_string(n) + "." + std::to_string(k); }; auto coord = [&](u32 n, u32 k) { return f.at(nm(n, k)); };
    auto ptOf = [&](u32 atom, u32 &n, u32 &k) { return sscanf(f.names[atom].c_str(), "pt%u.%u", &n, &k) == 2; };
    auto recog = [&](const FP &v) { Cand r; if (v.empty()) return Cand{{zero, 1}}; if (v == f.one(zc(1))) return Cand{{zero, 0}, {oneP, 1}}; if (haveX && v == f.at("u")) return Cand{{oneP, 0}}; FP e = f.expand(v); std::set<u32> pts; for (auto &kv : e) for (auto &g : kv.first) { u32 n, k; if (ptOf(g.first, n, k)) pts.insert(n); } if (e.size() == 1 && e.begin()->second == zc(1) && e.begin()->first.size() == 1 && e.begin()->first[0].second == zc(1)) { u32 n, k; if (ptOf(e.begin()->first[0].first, n, k)) return Cand{{n, k}}; }
      auto C = [&](i64 k) { return f.one(zc(k)); }; auto sq = [&](const FP &a) { return f.mul(a, a); };
      if (pts.size() == 1) { FP X = coord(*pts.begin(), 0), Zc = coord(*pts.begin(), 1), XX = sq(X), ZZ = sq(Zc), XZ = f.mul(X, Zc); Poly n2 = mu.n[*pts.begin()]; n2.add(mu.n[*pts.begin()], zc(1), INT); if (e == sq(f.lin(XX, ZZ, -1))) r.push_back({mu.id(n2), 0}); if (e == f.mul(f.mul(C(4), XZ), f.lin(f.lin(XX, ZZ, 1), XZ, 486662))) r.push_back({mu.id(n2), 1}); }
      if (pts.size() == 2) { u32 a = *pts.begin(), b = *pts.rbegin(); Poly d = sub(mu.n[a], mu.n[b], INT); Poly d2 = Mult::square1(d); if (d2 == cst(zc(1), INT)) { Poly ns = mu.n[a]; ns.add(mu.n[b], zc(1), INT); FP Xa = coord(a, 0), Za = coord(a, 1), Xb = coord(b, 0), Zb = coord(b, 1); if (e == f.mul(C(4), sq(f.lin(f.mul(Xa, Xb), f.mul(Za, Zb), -1)))) r.push_back({mu.id(ns), 0}); if (e == f.mul(f.mul(C(4), x), sq(f.lin(f.mul(Xa, Zb), f.mul(Za, Xb), -1)))) r.push_back({mu.id(ns), 1}); } }
      return r; };
    if (!selModel(h.E, f, mu, "N", recog, coord, bad)) { skip(R, "sel25519"); return; } if (!model(h.E, "pack25519", 2, [&](CallCtx &c) { State s = c.st; FP v = rdElem(c, s, 1, f); int r; u64 o; if (addrOf(c, 0, r, o)) for (unsigned i = 0; i < 32; i++) c.E.storeBytes(s, r, o + i, feByte(f, v, i), 1); return one(s); })) { skip(R, "pack25519"); return; }
    T q = h.buf("q", 32, true), n = h.buf("N", 32, true), P = h.buf("P", 32, true); h.args = {alias == 1 ? n : alias == 2 ? P : q, n, P}; if (!h.go(R)) return; Poly want = bitsPoly(3, 254); want.add(Mono{}, p2(254), INT); u32 id = mu.id(want); FP res = f.mul(coord(id, 0), f.pow(coord(id, 1), f.P.m - zc(2))); int reg = h.reg[alias == 1 ? "N" : alias == 2 ? "P" : "q"];
    for (auto &o : h.outs) { bool good = bad.empty() && haveX && isC(o.ret, 0); for (unsigned i = 0; i < 32; i++) good = good && h.E.loadBytes(o.st, reg, i, 1) == feByte(f, res, i); R.oblig(good, "C35:x25519", h.where(o), "X25519 does not return the u coordinate of the multiple of the given point by the clamped scalar" + (bad.empty() ? std::string() : ": " + bad)); R.oblig(f.over.empty(), "C35:range:x25519", h.where(o), "X25519: " + f.over); } R.ok("scalar_multiplications"); R.ok("field_products", f.products); });
  jobs.push_back([&c](Report &R) { const std::string F = "crypto_scalarmult_curve25519_tweet_base"; if (!c.M.getFunction(F)) { skip(R, F); return; } Run h(c.M, F); u64 seen = 0; h.E.models["crypto_scalarmult_curve25519_tweet"] = [&](CallCtx &c) { State s = c.st; seen++; int r; u64 o; bool g = addrOf(c, 2, r, o); for (unsigned i = 0; i < 32 && g; i++) g = isC(c.E.loadBytes(s, r, o + i, 1), i ? 0 : 9); int r2; u64 o2; g = g && addrOf(c, 1, r2, o2); for (unsigned i = 0; i < 32 && g; i++) g = c.E.loadBytes(s, r2, o2 + i, 1) == mkLeaf("N", i, 8); int r3; u64 o3; g = g && addrOf(c, 0, r3, o3) && r3 == h.reg["q"] && o3 == 0; R.oblig(g, "C35:x25519-base", c.E.loc(c.cb), "the base point of X25519 is not u = 9, or scalar or result differ from the arguments"); c.E.havoc(s, c.args[0], L(32), "x"); return one(s, mkConst(32, 0)); }; h.args = {h.buf("q", 32, true), h.buf("N", 32, false)}; if (!h.go(R)) return; if (seen) R.ok("scalar_multiplications"); else R.notes.insert("X25519 base multiplication does not use the general one: not compared"); });
}

// encoding and decoding of points and field elements
void encodeJobs(Ctx &c, std::vector<Job> &jobs) {
  for (unsigned v : {0u, 1u, 254u, 255u}) jobs.push_back([=, &c](Report &R) { auto *F = helper(c.M, "pack", 2); if (!F) { skip(R, "pack"); return; } Fld f; Run h(c.M, F->getName().str()); h.E.checkBounds = false; if (!fieldModels(h.E, f, true)) { skip(R, "M"); return; } FP X = f.at("X"), Y = f.at("Y"), Zc = f.at("Z"), zi = f.pow(Zc, f.P.m - zc(2)), x = f.mul(X, zi), y = f.mul(Y, zi); u64 other = 0;
    if (!model(h.E, "pack25519", 2, [&](CallCtx &c) { State s = c.st; FP e = rdElem(c, s, 1, f); bool isX = e == x, isY = e == y; if (!isX && !isY) other++; int r; u64 o; if (addrOf(c, 0, r, o)) for (unsigned i = 0; i < 32; i++) c.E.storeBytes(s, r, o + i, isX ? i ? mkLeaf("ex", i, 8) : mkConst(8, v) : isY ? mkLeaf("ey", i, 8) : mkLeaf("other", i, 8), 1); return one(s); })) { skip(R, "pack25519"); return; }
    h.args = {h.buf("r", 32, true), h.buf("p", 512, true)}; feInput(h, f, "p", 0, X); feInput(h, f, "p", 128, Y); feInput(h, f, "p", 256, Zc); feInput(h, f, "p", 384, f.at("T")); if (!h.go(R)) return;
    for (auto &o : h.outs) { for (unsigned i = 0; i < 31; i++) { T b = h.E.loadBytes(o.st, h.reg["r"], i, 1); R.oblig(b == mkLeaf("ey", i, 8), "C35:pack", h.where(o), "byte " + std::to_string(i) + " of an encoded point is not that byte of y: " + show(b, 3)); } T b = h.E.loadBytes(o.st, h.reg["r"], 31, 1), at = nullptr; auto *tab = tableOf(b, at); bool good = tab && at == mkLeaf("ey", 31, 8); for (unsigned k = 0; k < 128 && good; k++) good = ((*tab)[k] & 255) == (k | (v & 1) << 7); R.oblig(good, "C35:pack-sign", h.where(o), "the last byte of an encoded point is not the top byte of y with the parity of x in its highest bit: " + show(b, 4)); R.oblig(f.over.empty(), "C35:range:pack", h.where(o), "point encoding: " + f.over); } R.ok("encodings"); });
  // decoding: every accepted point satisfies the curve equation, the sign is the requested one's negative
  jobs.push_back([&c](Report &R) { auto *F = helper(c.M, "unpackneg", 2); if (!F) { skip(R, "unpackneg"); return; } Fld f; Run h(c.M, F->getName().str()); Engine &E = h.E; E.checkBounds = false; E.pathSensitive = true; if (!fieldModels(E, f, true)) { skip(R, "M"); return; }
    FP y = f.at("y"), yy = f.mul(y, y), one1 = f.one(zc(1)), num = f.lin(yy, one1, -1), den = f.lin(f.mul(f.one(dConst(f.P)), yy), one1, 1), n1 = f.mono(num), d1 = f.mono(den); bool dec = true;
    bool ok = model(E, "unpack25519", 2, [&](CallCtx &c) { State s = c.st; int r; u64 o; bool k = addrOf(c, 1, r, o); for (unsigned i = 0; i < 32 && k; i++) k = c.E.loadBytes(s, r, o + i, 1) == mkLeaf("p", i, 8); dec = dec && k; wrArg(c, s, 0, f, k ? y : f.at("noty")); return one(s); });
    auto eid = [&](const FP &v) { return mkConst(32, f.elem(v)); };
    ok = ok && model(E, "neq25519", 2, [&](CallCtx &c) { State s = c.st; FP a = rdElem(c, s, 0, f), b = rdElem(c, s, 1, f); Outcomes o; State e = s; T fe = mkCustom("feEq", 0, 1, {eid(a), eid(b)}), fn = mkCustom("feNe", 0, 1, {eid(a), eid(b)}); if (s.has(fe) || a == b) return one(s, mkConst(32, 0)); if (s.has(fn)) return one(s, mkConst(32, -1)); e.addFact(fe); s.addFact(fn); mark(e, c, 0); mark(s, c, 1); o.push_back({e, mkConst(32, 0), nullptr}); o.push_back({s, mkConst(32, -1), nullptr}); return o; });
    ok = ok && model(E, "par25519", 1, [&](CallCtx &c) { State s = c.st; FP a = rdElem(c, s, 0, f); Outcomes o; for (unsigned v : {0, 1}) { State t = s; t.addFact(mkCustom("fePar", v, 1, {eid(a)})); mark(t, c, v); o.push_back({t, mkConst(8, v), nullptr}); } return o; });
    if (!ok) { skip(R, "neq25519/par25519/unpack25519"); return; } h.args = {h.buf("r", 512, true), h.buf("p", 32, false)}; if (!h.go(R)) return; R.oblig(dec, "C35:unpackneg-input", F->getName().str(), "point decoding does not decode the given bytes"); Z I2 = f.P.red(zc(-1)); u64 acc = 0, rej = 0;
    auto cond = [&](State &s, FP x) { // was x^2 den = num established on this path?
      FP want = f.mul(f.mul(x, x), d1); for (T t : *s.facts) if (isCustom(t, "feEq")) { FP a = f.elems[t->a[1]->c], b = f.elems[t->a[2]->c]; for (int k = 0; k < 2; k++, std::swap(a, b)) if (f.mono(b) == n1 && a == want) return true; } return false; };
    FP e1 = f.mul(n1, f.pow(d1, zc(7))), cand = f.mul(f.mul(n1, f.pow(d1, zc(3))), f.pow(e1, p2(252) - zc(3)));
    for (auto &o : h.outs) { bool zero = o.ret && isC(o.ret, 0); if (!zero) { rej++; unsigned fails = 0; bool plain = false, rotated = false; for (T t : *o.st.facts) if (isCustom(t, "feNe")) { fails++; FP a = f.elems[t->a[1]->c]; FP w = f.mul(f.mul(cand, cand), d1); plain = plain || a == w; rotated = rotated || a == f.mul(f.one(I2), w); } R.oblig(plain && rotated, "C35:unpackneg-reject", h.where(o), "a key is refused although not both candidate square roots were found wrong"); continue; } acc++;
      FP X = f.value(rdLimbs(E, o.st, h.reg["r"], 0)), Y = f.value(rdLimbs(E, o.st, h.reg["r"], 128)), Zc = f.value(rdLimbs(E, o.st, h.reg["r"], 256)), Tc = f.value(rdLimbs(E, o.st, h.reg["r"], 384)); FP Xn = f.mul(f.one(zc(-1)), X); R.oblig(cond(o.st, X), "C35:unpackneg-curve", h.where(o), "a decoded point is accepted without x^2 (d y^2 + 1) = y^2 - 1 having been established for its x: " + f.str(X).substr(0, 200)); R.oblig(Y == y && Zc == one1, "C35:unpackneg-y", h.where(o), "the decoded point does not have the given y and Z = 1"); R.oblig(Tc == f.mul(X, Y), "C35:unpackneg-t", h.where(o), "the product coordinate of a decoded point is not x y");
      // sign: the result is the negative of the point whose parity is the top bit
      int par = -1, neg = -1; for (T t : *o.st.facts) if (isCustom(t, "fePar")) { FP a = f.elems[t->a[1]->c]; if (a == X) { par = t->c; neg = 0; } else if (a == Xn) { par = t->c; neg = 1; } } int top = -1; T b31 = mkLeaf("p", 31, 8); bool can0 = false, can1 = false; auto it = o.st.vs->find(b31); for (unsigned v = 0; v < 256; v++) if (it == o.st.vs->end() || it->second[v]) { bool okv = true; (void)okv; (v >> 7 ? can1 : can0) = true; } if (can0 != can1) top = can1; else { Itv iv = E.eval(b31, o.st); if (iv.lo >= 128) top = 1; else if (iv.hi < 128) top = 0; }
      bool sg = par >= 0 && top >= 0 && (neg ? par == top : par != top); R.oblig(sg, "C35:unpackneg-sign", h.where(o), "the decoded point does not have the sign opposite to the encoded one (parity " + std::to_string(par) + ", top bit " + std::to_string(top) + ", negated " + std::to_string(neg) + ")"); }
    R.oblig(acc > 0 && rej > 0, "C35:unpackneg-paths", F->getName().str(), "point decoding always or never succeeds"); R.oblig(f.over.empty(), "C35:range:unpackneg", F->getName().str(), "point decoding: " + f.over); R.ok("encodings"); });
  // canonical encoding of a field element
  jobs.push_back([&c](Report &R) { auto *CF = helper(c.M, "car25519", 1); auto *F = helper(c.M, "pack25519", 2); if (!CF || !F || !helper(c.M, "sel25519", 3)) { skip(R, "car25519/pack25519/sel25519"); return; } AM am;
    // ranges after one, two and three carries of limbs below 2^22
    std::vector<Rg> rg(16, Rg{zc(-INB), zc(INB)}); unsigned need = 0; bool third = false;
    for (unsigned pass = 1; pass <= 6 && !third; pass++) { Z lo = zc(0), hi = zc(0); for (unsigned i = 0; i < 16; i++) { lo += rg[i].lo * p2(16 * i); hi += rg[i].hi * p2(16 * i); } bool tight = zc(-38).sle(lo) && hi.sle(p2(256) + zc(37));
      Run h(c.M, CF->getName().str()); h.E.checkBounds = false; h.args = {h.buf("a", 128, true)}; limbs(h, "a", "a"); if (!h.go(R)) return; if (h.outs.size() != 1) { R.notes.insert("car25519 branches: canonical encoding not compared"); return; } auto &o = h.outs[0]; Arith A(INT); A.leafRange = [&](T t, Rg &r) { if (t->k == TK::Leaf && t->w == 64) { r = rg[t->c]; return true; } return false; }; std::vector<Rg> nx(16); for (unsigned i = 0; i < 16; i++) nx[i] = A.range(h.E.loadBytes(o.st, h.reg["a"], 8 * i, 8)); need = pass;
      if (tight) { // value = V - 2^256 c + 38 c with c the floor of V / 2^256: all limbs in range
        Poly v = value(A, h, o.st, h.reg["a"], 16, 16), d = sub(v, leafValue(A, "a", 16, 16), INT); Z k38 = zc(38) - p2(256); bool form = true; for (auto &kv : d.m) { Z q = kv.second.sdiv(k38); form = form && q * k38 == kv.second; } third = form; for (unsigned i = 1; i < 16; i++) third = third && Arith::within(nx[i], {zc(0), zc(65535)}); R.oblig(third, "C35:carry-complete", h.where(o), "a carry pass over nearly reduced limbs does not leave every limb in 16 bits: difference " + A.show1(d)); if (!third) return; }
      rg = nx; }
    if (!third) { R.oblig(false, "C35:carry-bound", CF->getName().str(), "repeated carries do not bring a field element below 2^256"); return; }
    Run h(c.M, F->getName().str()); Engine &E = h.E; E.checkBounds = false; E.pathSensitive = true; unsigned fresh = 0; Mod P = mod25519(); int carried = 0; // ghost: carries so far (one path before the first selection)
    model(E, "car25519", 1, [&](CallCtx &c) { State s = c.st; int r; u64 o; carried++; if (addrOf(c, 0, r, o)) { std::string l = "t" + std::to_string(fresh++); for (unsigned i = 0; i < 16; i++) c.E.storeBytes(s, r, o + 8 * i, mkLeaf(l, i, 64), 8); } return one(s); });
    auto lr = [](T t, Rg &r) { if (t->k == TK::Leaf && t->w == 64) { r = {zc(0), zc(65535)}; return true; } return false; };
    bool formOk = true; u64 sels = 0; std::string why; std::map<std::string, Z> top; // upper bound of the value behind each family of limbs
    auto fam = [&](Engine &E, State &s, int r, u64 o) { T t = E.loadBytes(s, r, o, 8); if (t->k != TK::Leaf) return std::string(); std::string n = internName(t->op); for (unsigned i = 0; i < 16; i++) if (E.loadBytes(s, r, o + 8 * i, 8) != mkLeaf(n, i, 64)) return std::string(); return n; };
    model(E, "sel25519", 3, [&](CallCtx &c) { State s = c.st; int r1, r2; u64 o1, o2; Outcomes out; sels++; if (!addrOf(c, 0, r1, o1) || !addrOf(c, 1, r2, o2)) { formOk = false; return one(s); } if (carried < (int)need) { formOk = false; why = "the element is compared with the modulus after " + std::to_string(carried) + " carries, " + std::to_string(need) + " are needed"; }
      std::string a = fam(c.E, s, r1, o1); Arith A(INT); A.leafRange = lr; auto V = [&](int r, u64 o) { Poly v; for (unsigned i = 0; i < 16; i++) v.add(A.nf(c.E.loadBytes(s, r, o + 8 * i, 8)), p2(16 * i), INT); return v; }; Poly d = sub(V(r2, o2), V(r1, o1), INT); d.add(Mono{}, P.m, INT);
      bool g = !a.empty() && d.m.empty(); for (unsigned i = 0; i < 15; i++) g = g && Arith::within(A.range(c.E.loadBytes(s, r2, o2 + 8 * i, 8)), {zc(0), zc(65535)}); T m15 = c.E.loadBytes(s, r2, o2 + 120, 8); g = g && Arith::within(A.range(m15), {zc(-65536), zc(65535)}); if (!g && why.empty()) why = "the trial subtraction does not subtract 2^255-19: difference " + A.show1(d);
      // swapped exactly when the difference is not negative
      T cd = c.args[2]; while (cd->k == TK::Op && (cd->op == Instruction::SExt || cd->op == Instruction::ZExt || cd->op == Instruction::Trunc)) cd = cd->a[0]; Poly k = A.nf(cd), wantk = cst(zc(1), INT); wantk.add(A.quot(m15, 16, false), zc(1), INT); bool kk = k == wantk; if (!kk && why.empty()) why = "the subtraction is not selected by the sign of its result: " + A.show1(k) + " instead of " + A.show1(wantk); formOk = formOk && g && kk;
      Z hi = top.count(a) ? top[a] : p2(256) - zc(1); std::string keep = "k" + std::to_string(fresh), sw = "w" + std::to_string(fresh); fresh++; top[keep] = hi.slt(P.m) ? hi : P.m - zc(1); top[sw] = hi - P.m; State e = s; for (unsigned i = 0; i < 16; i++) { c.E.storeBytes(s, r1, o1 + 8 * i, mkLeaf(keep, i, 64), 8); c.E.storeBytes(e, r1, o1 + 8 * i, mkLeaf(sw, i, 64), 8); c.E.storeBytes(e, r2, o2 + 8 * i, mkFresh("old", 64), 8); } mark(s, c, 0); mark(e, c, 1); out.push_back({s, nullptr, nullptr}); if (!top[sw].isNegative()) out.push_back({e, nullptr, nullptr}); return out; });
    h.args = {h.buf("o", 32, true), h.buf("n", 128, true)}; limbs(h, "n", "n"); if (!h.go(R)) return; if (!sels) { R.notes.insert("the final subtraction of pack25519 does not use sel25519: canonical encoding not compared"); return; } for (auto &o : h.outs) { R.oblig(formOk, "C35:pack25519-subtract", h.where(o), "encoding a field element: " + why); if (!formOk) break; Arith A(INT); A.leafRange = lr; Poly v; std::string fm; bool known = true; for (unsigned i = 0; i < 32; i++) { T b = h.E.loadBytes(o.st, h.reg["o"], i, 1); v.add(A.nf(b), p2(8 * i), INT); std::unordered_set<T> seen; containsLeaf(b, [&](T x) { if (x->k == TK::Leaf) { std::string n = internName(x->op); if (fm.empty()) fm = n; else known = known && n == fm; } return false; }, seen); } Poly want = leafValue(A, fm, 16, 16); R.oblig(known && v == want, "C35:pack25519", h.where(o), "the bytes of an encoded field element are not its value: difference " + A.show1(sub(v, want, INT))); R.oblig(top.count(fm) && top[fm].slt(P.m), "C35:pack25519-canonical", h.where(o), "an encoded field element can be 2^255-19 or larger"); } R.ok("encodings", 4); });
  for (int which : {0, 1}) jobs.push_back([=, &c](Report &R) { std::string n = which ? "par25519" : "neq25519"; auto *F = helper(c.M, n, which ? 1 : 2); if (!F) { skip(R, n); return; } for (unsigned v : {0u, 1u, 2u, 255u}) { Fld f; Run h(c.M, F->getName().str()); h.E.checkBounds = false; FP a = f.at("a"), b = f.at("b"); u64 seen = 0; if (!model(h.E, "pack25519", 2, [&](CallCtx &c) { State s = c.st; seen++; FP e = rdElem(c, s, 1, f); int r; u64 o; if (addrOf(c, 0, r, o)) for (unsigned i = 0; i < 32; i++) c.E.storeBytes(s, r, o + i, which && !i && e == a ? mkConst(8, v) : mkLeaf(e == a ? "ea" : e == b ? (v == 0 ? "ea" : v == 1 ? "eb" : i == (v == 2 ? 0u : 31u) ? "eb" : "ea") : "other", i, 8), 1); return one(s); })) { skip(R, "pack25519"); return; } h.args = {h.buf("a", 128, true)}; feInput(h, f, "a", 0, a); if (!which) { h.args.push_back(h.buf("b", 128, true)); feInput(h, f, "b", 0, b); } if (!h.go(R)) return;
      for (auto &o : h.outs) if (which) R.oblig(isC(o.ret, v & 1), "C35:par25519", h.where(o), "the parity of a field element is not the lowest bit of its canonical encoding"); else if (v == 0) R.oblig(mustBeZero(h.E, o.ret, o.st), "C35:neq25519", h.where(o), "two equal field elements compare different"); else R.oblig(!mustBeZero(h.E, o.ret, o.st), "C35:neq25519-ignores", h.where(o), "different field elements compare equal"); R.ok("encodings"); } });
}
} // namespace
static void C35(Ctx &c, Report &R) { std::vector<Job> jobs; fieldJobs(c, jobs); scalarJobs(c, jobs); polyJobs(c, jobs); powerJobs(c, jobs); addJobs(c, jobs); multJobs(c, jobs); encodeJobs(c, jobs); if (!c.M.getFunction("crypto_onetimeauth_poly1305_tweet")) R.notes.insert("Poly1305 entry point not found"); runJobs(jobs, R); if (R.broken.empty() && R.cnt["obligations"] < 40) R.fail("too few arithmetic obligations: the routines were not found"); }
static Reg r35("C35", C35);
} // namespace pq
