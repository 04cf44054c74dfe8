// C33, C34 and parts of C14/C18: Dilithium polynomial routines compared term for term (bit for bit for the encodings)
// with their definition, and seeded key generation compared with its definition over opaque polynomial routines.
#include "dil.h"
using namespace llvm;
namespace pq {
using namespace dil;
// ---- a term as a vector of one-bit terms: shifts, masks, disjoint sums and byte selections are resolved, the rest is atomic
using Bits = std::vector<T>;
static T Z1() { return mkConst(1, 0); }
static T atomBit(T t, unsigned i) { if (t->w == 1 && i == 0) return t; return mkCustom("bit", i, 1, {t}); }
Bits bitsOf(T t) {
  static std::unordered_map<T, Bits> memo; auto it = memo.find(t); if (it != memo.end()) return it->second;
  unsigned w = t->w; Bits r(w, Z1()); bool done = true;
  switch (t->k) {
  case TK::Const: for (unsigned i = 0; i < w; i++) r[i] = mkConst(1, i < 64 ? t->c >> i & 1 : 0); break;
  case TK::Byte: { Bits b = bitsOf(t->a[0]); for (unsigned i = 0; i < 8; i++) r[i] = 8 * t->c + i < b.size() ? b[8 * t->c + i] : Z1(); break; }
  case TK::Concat: for (unsigned i = 0; i < t->a.size(); i++) { Bits b = bitsOf(t->a[i]); for (unsigned j = 0; j < 8; j++) r[8 * i + j] = b[j]; } break;
  case TK::Lin: {
    done = t->c == 0; std::vector<std::pair<Bits, unsigned>> ps; std::vector<bool> used(w, false);
    for (size_t i = 0; done && i < t->a.size(); i++) { u64 c = t->co[i]; if (!c || (c & (c - 1))) { done = false; break; } Bits b = bitsOf(t->a[i]); unsigned k = __builtin_ctzll(c); for (unsigned j = 0; j < b.size() && j + k < w; j++) if (!isC(b[j], 0)) { if (used[j + k]) { done = false; break; } used[j + k] = true; } ps.push_back({b, k}); }
    if (done) for (auto &p : ps) for (unsigned j = 0; j < p.first.size() && j + p.second < w; j++) if (!isC(p.first[j], 0)) r[j + p.second] = p.first[j];
    if (!done) { for (unsigned i = 0; i < w; i++) { unsigned q = i < 8 ? 8 : i < 16 ? 16 : i < 32 ? 32 : 64; r[i] = atomBit(q < w ? mkTrunc(t, q) : t, i); } done = true; }
    break; }
  case TK::Op: {
    auto sh = [&](unsigned &k) { if (t->a[1]->k != TK::Const || t->a[1]->c >= w) return false; k = t->a[1]->c; return true; }; unsigned k;
    switch (t->op) {
    case Instruction::ZExt: { Bits b = bitsOf(t->a[0]); for (unsigned i = 0; i < b.size(); i++) r[i] = b[i]; break; }
    case Instruction::SExt: { Bits b = bitsOf(t->a[0]); for (unsigned i = 0; i < w; i++) r[i] = b[std::min<size_t>(i, b.size() - 1)]; break; }
    case Instruction::Trunc: { Bits b = bitsOf(t->a[0]); for (unsigned i = 0; i < w; i++) r[i] = b[i]; break; }
    case Instruction::Shl: if (!sh(k)) { done = false; break; } { Bits b = bitsOf(t->a[0]); for (unsigned i = k; i < w; i++) r[i] = b[i - k]; } break;
    case Instruction::LShr: if (!sh(k)) { done = false; break; } { Bits b = bitsOf(t->a[0]); for (unsigned i = 0; i + k < w; i++) r[i] = b[i + k]; } break;
    case Instruction::AShr: if (!sh(k)) { done = false; break; } { Bits b = bitsOf(t->a[0]); for (unsigned i = 0; i < w; i++) r[i] = b[std::min<unsigned>(i + k, w - 1)]; } break;
    case Instruction::And: case Instruction::Or: case Instruction::Xor: { Bits a = bitsOf(t->a[0]), b = bitsOf(t->a[1]); for (unsigned i = 0; i < w; i++) r[i] = mkBin(t->op, a[i], b[i]); break; }
    default: done = false; }
    break; }
  default: done = false; }
  if (!done) for (unsigned i = 0; i < w; i++) r[i] = atomBit(t, i);
  memo[t] = r; return r;
}
static bool sameBits(T a, T b) { return a == b || bitsOf(a) == bitsOf(b); }
static bool has(Ctx &c, const std::string &f, Report &R, unsigned nargs) { auto *F = c.M.getFunction(P + f); if (F && !F->isDeclaration() && F->arg_size() == nargs) return true; R.notes.insert("not compared on its own (not found in the expected form): " + f); return false; }
static T co(u64 j) { return mkLeaf("a", j, 32); }
static void putPoly(Run &h, const std::string &b, const std::string &leaf) { for (u64 j = 0; j < 256; j++) h.E.storeBytes(h.s0, h.reg[b], 4 * j, mkLeaf(leaf, j, 32), 4); }
struct Enc { const char *n; unsigned bits; u64 bytes; i64 off; bool neg; };   // stored value: off - coefficient (neg) or the coefficient
static const Enc encs[] = {{"eta", 3, 96, 2, true}, {"t1", 10, 320, 0, false}, {"t0", 13, 416, 4096, true}, {"z", 18, 576, 131072, true}, {"w1", 6, 192, 0, false}};

// encodings. Coefficients are constrained to the range the encoding is defined for.
static void encJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, const std::set<std::string> &which) {
  for (auto &e : encs) {
    if (which.count(std::string(e.n) + "_pack")) jobs.push_back([=, &c](Report &R) {
      std::string f = std::string("poly") + e.n + "_pack"; if (!has(c, f, R, 2)) return;
      Run h(c.M, P + f); h.args = {h.buf("r", e.bytes, true), h.buf("a", PB, false)}; auto v = [&](u64 j) { return mkLeaf("v", j, e.bits); };   // a coefficient in range: off - v (or v), v any value of the field
      for (u64 j = 0; j < 256; j++) { T x = mkZext(v(j), 32); h.E.storeBytes(h.s0, h.reg["a"], 4 * j, e.neg ? mkSub(mkConst(32, (u64)e.off), x) : x, 4); } if (!h.go(R)) return;
      for (auto &o : h.outs) for (u64 b = 0; b < e.bytes; b++) { Bits g = bitsOf(h.E.loadBytes(o.st, h.reg["r"], b, 1)); bool ok = true; u64 bad = 0; for (u64 k = 0; k < 8; k++) { u64 q = 8 * b + k, j = q / e.bits, i = q % e.bits; if (g[k] != bitsOf(v(j))[i]) { ok = false; bad = j; } }
          R.oblig(ok, id + ":" + f, h.where(o), f + ": output byte " + std::to_string(b) + " does not hold the " + std::to_string(e.bits) + "-bit encoding of coefficient " + std::to_string(bad) + " (" + show(h.E.loadBytes(o.st, h.reg["r"], b, 1), 4) + ")"); }
      memObligations(h.E, R, id + ":mem", h.name); R.ok("encoders"); });
    if (which.count(std::string(e.n) + "_unpack")) jobs.push_back([=, &c](Report &R) {
      std::string f = std::string("poly") + e.n + "_unpack"; if (!has(c, f, R, 2)) return;
      Run h(c.M, P + f); h.args = {h.buf("r", PB, true), h.buf("a", e.bytes, false)}; if (!h.go(R)) return; Bits all; for (u64 b = 0; b < e.bytes; b++) { Bits x = bitsOf(mkLeaf("a", b, 8)); all.insert(all.end(), x.begin(), x.end()); }
      for (auto &o : h.outs) for (u64 j = 0; j < 256; j++) { T v = h.E.loadBytes(o.st, h.reg["r"], 4 * j, 4); T x = e.neg ? mkSub(mkConst(32, (u64)e.off), v) : v; Bits g = bitsOf(x); bool ok = true; for (u64 i = 0; i < 32; i++) if (g[i] != (i < e.bits ? all[j * e.bits + i] : Z1())) ok = false;
          R.oblig(ok, id + ":" + f, h.where(o), f + ": coefficient " + std::to_string(j) + " is not decoded from its own " + std::to_string(e.bits) + " bits (" + show(v, 4) + ")"); }
      memObligations(h.E, R, id + ":mem", h.name); R.ok("decoders"); });
  }
}

// polynomial arithmetic
static T mont(T x) { return mkCustom("mont", 0, 32, {x}); }
static i64 modpow(i64 b, u64 e) { i64 r = 1; b %= Q; while (e) { if (e & 1) r = (i64)((__int128)r * b % Q); b = (i64)((__int128)b * b % Q); e >>= 1; } return r; }
static i64 centered(i64 x) { x %= Q; if (x < 0) x += Q; return x > Q / 2 ? x - Q : x; }
static void arithJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, const std::set<std::string> &which) {
  auto cmp = [=](Run &h, Report &R, const std::string &f, const std::string &buf, const std::function<T(u64)> &ref) { for (auto &o : h.outs) for (u64 j = 0; j < 256; j++) { T g = h.E.loadBytes(o.st, h.reg[buf], 4 * j, 4), w = ref(j); R.oblig(g == w || h.E.equal(g, w, o.st) || sameBits(g, w), id + ":" + f, h.where(o), f + ": coefficient " + std::to_string(j) + " is " + show(g, 4) + ", expected " + show(w, 4)); } memObligations(h.E, R, id + ":mem", h.name); R.ok("arithmetic_routines"); };
  auto scal = [](Engine &E) { E.models[P + "montgomery_reduce"] = [](CallCtx &x) { return one(x.st, mont(x.args[0])); }; for (std::string f : {"reduce32", "caddq"}) E.models[P + f] = [=](CallCtx &x) { return one(x.st, mkCustom(f, 0, 32, {x.args[0]})); }; };
  auto lf = [](const char *n) { return [=](u64 j) { return mkLeaf(n, j, 32); }; }; auto A = lf("a"), B = lf("b");
  for (std::string f : {"add", "sub", "pointwise_montgomery"}) if (which.count(f)) jobs.push_back([=, &c](Report &R) { if (!has(c, "poly_" + f, R, 3) || (f[0] == 'p' && !has(c, "montgomery_reduce", R, 1))) return; Run h(c.M, P + "poly_" + f); scal(h.E); h.args = {h.buf("c", PB, true), h.buf("a", PB, false), h.buf("b", PB, false)}; putPoly(h, "a", "a"); putPoly(h, "b", "b"); if (h.go(R)) cmp(h, R, "poly_" + f, "c", [&](u64 j) { return f == "add" ? mkAdd(A(j), B(j)) : f == "sub" ? mkSub(A(j), B(j)) : mont(mkBin(Instruction::Mul, mkSext(A(j), 64), mkSext(B(j), 64))); }); });
  for (std::string f : {"reduce", "caddq", "shiftl"}) if (which.count(f)) jobs.push_back([=, &c](Report &R) { std::string sc = f == "reduce" ? "reduce32" : f; if (!has(c, "poly_" + f, R, 1) || (f != "shiftl" && !has(c, sc, R, 1))) return; Run h(c.M, P + "poly_" + f); scal(h.E); h.args = {h.buf("a", PB, true)}; putPoly(h, "a", "a"); if (h.go(R)) cmp(h, R, "poly_" + f, "a", [&](u64 j) { return f == "shiftl" ? mkMulC(A(j), 8192) : mkCustom(sc, 0, 32, {A(j)}); }); });
  if (which.count("ntt") || which.count("pointwise_montgomery")) jobs.push_back([=, &c](Report &R) { if (!has(c, "montgomery_reduce", R, 1)) return; Run h(c.M, P + "montgomery_reduce"); T a = mkLeaf("a", 0, 64); h.args = {a}; if (!h.go(R)) return;   // (a - t Q) / 2^32 with t = a Q^-1 mod 2^32: the quotient is exact, so congruent to a 2^-32
      T t = mkMulC(mkTrunc(a, 32), 58728449u), w = mkTrunc(mkBin(Instruction::AShr, mkSub(a, mkMulC(mkSext(t, 64), Q)), mkConst(64, 32)), 32), w2 = mkTrunc(mkBin(Instruction::SDiv, mkSub(a, mkMulC(mkSext(t, 64), Q)), mkConst(64, 1ull << 32)), 32);
      for (auto &o : h.outs) R.oblig(o.ret == w || o.ret == w2 || h.E.equal(o.ret, w, o.st), id + ":montgomery", h.where(o), "montgomery_reduce is " + show(o.ret, 6) + " and not (a - Q * (a * Q^-1 mod 2^32)) / 2^32"); R.ok("arithmetic_routines"); });
  // number theoretic transforms: zeta_k = 1753^bitrev8(k) * 2^32 mod Q, centred
  i64 R32 = (1ll << 32) % Q; std::vector<i64> zt(256); for (u64 k = 0; k < 256; k++) { u64 br = 0; for (int b = 0; b < 8; b++) if (k >> b & 1) br |= 1u << (7 - b); zt[k] = centered((i64)((__int128)modpow(1753, br) * R32 % Q)); }
  auto mz = [](T a, i64 z) { return mont(mkMulC(mkSext(a, 64), (u64)z)); };
  if (which.count("ntt")) jobs.push_back([=, &c](Report &R) { if (!has(c, "poly_ntt", R, 1) || !has(c, "montgomery_reduce", R, 1)) return; Run h(c.M, P + "poly_ntt"); scal(h.E); h.args = {h.buf("a", PB, true)}; putPoly(h, "a", "a"); if (!h.go(R)) return; TV a(256); for (u64 j = 0; j < 256; j++) a[j] = A(j); u64 k = 0; for (u64 len = 128; len; len >>= 1) for (u64 s = 0; s < 256; s += 2 * len) { i64 z = zt[++k]; for (u64 j = s; j < s + len; j++) { T t = mz(a[j + len], z); a[j + len] = mkSub(a[j], t); a[j] = mkAdd(a[j], t); } } cmp(h, R, "poly_ntt", "a", [&](u64 j) { return a[j]; }); });
  if (which.count("invntt_tomont")) jobs.push_back([=, &c](Report &R) { if (!has(c, "poly_invntt_tomont", R, 1) || !has(c, "montgomery_reduce", R, 1)) return; Run h(c.M, P + "poly_invntt_tomont"); scal(h.E); h.args = {h.buf("a", PB, true)}; putPoly(h, "a", "a"); if (!h.go(R)) return; TV a(256); for (u64 j = 0; j < 256; j++) a[j] = A(j); u64 k = 256; for (u64 len = 1; len < 256; len <<= 1) for (u64 s = 0; s < 256; s += 2 * len) { i64 z = -zt[--k]; for (u64 j = s; j < s + len; j++) { T t = a[j]; a[j] = mkAdd(t, a[j + len]); a[j + len] = mz(mkSub(t, a[j + len]), z); } } i64 f = (i64)((__int128)R32 * R32 % Q * modpow(256, Q - 2) % Q); cmp(h, R, "poly_invntt_tomont", "a", [&](u64 j) { return mz(a[j], f); }); });
  if (which.count("power2round")) jobs.push_back([=, &c](Report &R) { if (!has(c, "power2round", R, 2)) return; T a = mkLeaf("a", 0, 32); for (i64 k = 0; k <= 1023; k++) { i64 lo = std::max<i64>(0, k * 8192 - 4095), hi = std::min<i64>(Q - 1, k * 8192 + 4096); if (lo > hi) continue; Run h(c.M, P + "power2round"); h.E.foldConst = true; h.args = {h.buf("a0", 4, true), a}; h.E.assume(mkCmp(O_ULE, mkConst(32, (u64)lo), a), true, h.s0); h.E.assume(mkCmp(O_ULE, a, mkConst(32, (u64)hi)), true, h.s0); if (!h.go(R)) return; R.ok("rounding_segments");
      for (auto &o : h.outs) { T l = h.E.loadBytes(o.st, h.reg["a0"], 0, 4), w = mkSub(a, mkConst(32, (u64)(k * 8192))); R.oblig(h.E.equal(o.ret, mkConst(32, (u64)k), o.st) && (l == w || h.E.equal(l, w, o.st)), id + ":power2round", h.where(o), "power2round of a value in [" + std::to_string(lo) + ".." + std::to_string(hi) + "] is not (" + std::to_string(k) + ", a-" + std::to_string(k * 8192) + ")"); } } });
  for (std::string f : {"power2round", "decompose"}) if (which.count(f)) jobs.push_back([=, &c](Report &R) { if (!has(c, "poly_" + f, R, 3) || !has(c, f, R, 2)) return; Run h(c.M, P + "poly_" + f); h.E.models[P + f] = [=](CallCtx &x) { State s = x.st; x.E.store(s, x.args[0], mkCustom(f + ".lo", 0, 32, {x.args[1]}), 4, x.cb); return one(s, mkCustom(f + ".hi", 0, 32, {x.args[1]})); }; h.args = {h.buf("a1", PB, true), h.buf("a0", PB, true), h.buf("a", PB, false)}; putPoly(h, "a", "a"); if (!h.go(R)) return; cmp(h, R, "poly_" + f, "a1", [&](u64 j) { return mkCustom(f + ".hi", 0, 32, {A(j)}); }); cmp(h, R, "poly_" + f, "a0", [&](u64 j) { return mkCustom(f + ".lo", 0, 32, {A(j)}); }); });
  for (std::string f : {"use_hint", "make_hint"}) if (which.count(f)) jobs.push_back([=, &c](Report &R) { if (!has(c, "poly_" + f, R, 3) || !has(c, f, R, 2)) return; Run h(c.M, P + "poly_" + f); h.E.models[P + f] = [=](CallCtx &x) { return one(x.st, mkCustom(f, 0, 32, {x.args[0], x.args[1]})); }; h.args = {h.buf("c", PB, true), h.buf("a", PB, false), h.buf("b", PB, false)}; putPoly(h, "a", "a"); putPoly(h, "b", "b"); if (h.go(R)) cmp(h, R, "poly_" + f, "c", [&](u64 j) { return mkCustom(f, 0, 32, {A(j), B(j)}); }); });
}
// samplers over a given output stream of the XOF
static void stream(Engine &E, const std::function<T(u64)> &S) {
  installSponge(E, nullptr); auto sub = [=](CallCtx &c, Outcomes o, T out) { for (auto &x : o) { if (out->k != TK::Ptr) continue; u64 off; if (!c.E.constOf(out->a[0], x.st, off)) continue; const Region *r = c.E.rreg(x.st, (int)out->c); u64 n = r ? r->constSize() : 0; for (u64 i = off; i < n && i < off + 4096; i++) { T b = c.E.loadBytes(x.st, (int)out->c, i, 1); if (isCustom(b, "XOF:shake128") || isCustom(b, "XOF:shake256")) c.E.storeBytes(x.st, (int)out->c, i, S(b->c), 1); } } return o; };
  for (std::string k : {"shake128", "shake256"}) { for (std::string op : {"_inc_squeeze", "_squeezeblocks"}) { Model b = E.models[k + op]; E.models[k + op] = [=](CallCtx &c) { return sub(c, b(c), c.args[0]); }; } Model b = E.models[k]; E.models[k] = [=](CallCtx &c) { return sub(c, b(c), c.args[0]); }; }
}
static void sampleJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, const std::set<std::string> &which) {
  auto X = [](u64 i) { return mkLeaf("x", i, 8); };
  if (which.count("uniform")) {   // candidate classes: A below Q, H below Q with the ignored top bit set, B = Q-1, R = Q, X = 2^23-1
    std::vector<std::function<char(u64)>> pats{[](u64) { return 'A'; }, [](u64) { return 'H'; }, [](u64 k) { return k % 2 ? 'R' : 'A'; }, [](u64 k) { return k % 3 == 1 ? 'X' : k % 3 ? 'B' : 'A'; }, [](u64 k) { return k < 24 ? 'R' : 'A'; }, [](u64 k) { return k < 25 ? 'R' : 'A'; }, [](u64 k) { return k < 280 ? 'X' : k % 2 ? 'R' : 'B'; }, [](u64 k) { return k == 255 ? 'R' : 'A'; }, [](u64 k) { return k == 256 || k == 0 ? 'X' : 'H'; }, [](u64 k) { return k < 400 ? 'R' : 'A'; }, [](u64 k) { return k % 56 == 55 || k % 56 == 0 ? 'R' : k % 4 == 1 ? 'R' : 'A'; }};
    for (size_t q = 0; q < pats.size(); q++) jobs.push_back([=, &c](Report &R) { auto pat = pats[q]; if (!has(c, "poly_uniform", R, 3)) return; Run h(c.M, P + "poly_uniform"); Engine &E = h.E; E.foldConst = true; E.softLimit = 3000; for (u64 k = 0; k < 1200; k++) if (pat(k) == 'A') E.assume(mkCmp(O_ULE, X(3 * k + 2), mkConst(8, 0x7e)), true, h.s0);
      auto S = [=](u64 i) -> T { u64 k = i / 3, j = i % 3; u64 v; switch (pat(k)) { case 'A': return X(i); case 'H': if (j < 2) return X(i); v = 0x85 << 16; break; case 'B': v = Q - 1; break; case 'R': v = Q; break; default: v = 0xffffff; } return mkConst(8, v >> (8 * j)); };
      stream(E, S); h.args = {h.buf("a", PB, true), h.buf("seed", 32, false), mkLeaf("nonce", 0, 16)}; if (!h.go(R)) return; TV want; for (u64 k = 0; want.size() < 256; k++) { char p = pat(k); if (p == 'R' || p == 'X') continue; T b2 = S(3 * k + 2); want.push_back(mkConcat({S(3 * k), S(3 * k + 1), b2->k == TK::Const ? mkConst(8, b2->c & 0x7f) : b2, mkConst(8, 0)})); }
      for (auto &o : h.outs) for (u64 j = 0; j < 256; j++) { T g = E.loadBytes(o.st, h.reg["a"], 4 * j, 4); Bits a = bitsOf(g), b = bitsOf(want[j]); a[23] = b[23] = Z1(); /* zero for accepted candidates */ bool eq = a == b; R.oblig(eq, id + ":poly_uniform", h.where(o), "poly_uniform: coefficient " + std::to_string(j) + " is not the 23-bit value of the next accepted stream candidate (acceptance pattern " + std::to_string(q) + "): " + show(g, 4) + ", expected " + show(want[j], 4)); } memObligations(E, R, id + ":mem", h.name); R.ok("sampler_patterns"); R.oblig(!h.outs.empty(), id + ":poly_uniform", h.name, "poly_uniform never finishes on acceptance pattern " + std::to_string(q)); });
  }
  if (which.count("uniform_eta")) {   // nibble classes: 0: 0..4, 1: 5..9, 2: 10..14, 3: 15 (rejected)
    std::vector<std::function<int(u64)>> pats{[](u64) { return 0; }, [](u64) { return 1; }, [](u64) { return 2; }, [](u64 k) { return k % 4; }, [](u64 k) { return k % 3; }, [](u64 k) { return k % 2 ? 3 : 1; }, [](u64 k) { return k % 2 ? 2 : 3; }, [](u64 k) { return k < 16 ? 3 : k % 3; }, [](u64 k) { return k < 17 ? 3 : k % 3; }, [](u64 k) { return k < 300 ? 3 : (k / 2) % 4; }, [](u64 k) { return k == 255 ? 3 : k % 3; }, [](u64 k) { return k == 3 ? 3 : 2; }};
    for (size_t q = 0; q < pats.size(); q++) jobs.push_back([=, &c](Report &R) { auto pat = pats[q]; if (!has(c, "poly_uniform_eta", R, 3)) return; Run h(c.M, P + "poly_uniform_eta"); Engine &E = h.E; E.foldConst = true; E.softLimit = 3000; T m = mkConst(8, 15), four = mkConst(8, 4); auto lo = [=](u64 i) { return mkBin(Instruction::And, X(i), m); }; auto hi = [=](u64 i) { return mkBin(Instruction::LShr, X(i), four); };
      for (u64 i = 0; i < 1000; i++) for (int s = 0; s < 2; s++) { int p = pat(2 * i + s); T n = s ? hi(i) : lo(i); E.assume(mkCmp(O_ULE, mkConst(8, 5 * p), n), true, h.s0); E.assume(mkCmp(O_ULE, n, mkConst(8, p == 3 ? 15 : 5 * p + 4)), true, h.s0); }
      stream(E, X); h.args = {h.buf("a", PB, true), h.buf("seed", 64, false), mkLeaf("nonce", 0, 16)}; if (!h.go(R)) return; std::vector<std::pair<T, int>> want; for (u64 k = 0; want.size() < 256; k++) if (pat(k) != 3) want.push_back({k & 1 ? hi(k / 2) : lo(k / 2), pat(k)});
      for (auto &o : h.outs) for (u64 j = 0; j < 256; j++) { T g = E.loadBytes(o.st, h.reg["a"], 4 * j, 4), d = mkSub(mkConst(32, 2 + 5 * want[j].second), g); R.oblig(sameBits(d, mkZext(want[j].first, 32)) || E.equal(d, mkZext(want[j].first, 32), o.st), id + ":poly_uniform_eta", h.where(o), "poly_uniform_eta: coefficient " + std::to_string(j) + " is not 2 - (nibble mod 5) of the next accepted nibble (pattern " + std::to_string(q) + "): " + show(g, 4)); } memObligations(E, R, id + ":mem", h.name); R.ok("sampler_patterns"); R.oblig(!h.outs.empty(), id + ":poly_uniform_eta", h.name, "poly_uniform_eta never finishes on acceptance pattern " + std::to_string(q)); });
  }
  if (which.count("uniform_gamma1")) jobs.push_back([=, &c](Report &R) { if (!has(c, "poly_uniform_gamma1", R, 3)) return; Run h(c.M, P + "poly_uniform_gamma1"); stream(h.E, X); h.args = {h.buf("a", PB, true), h.buf("seed", 64, false), mkLeaf("nonce", 0, 16)}; if (!h.go(R)) return; Bits all; for (u64 b = 0; b < 576; b++) { Bits x = bitsOf(X(b)); all.insert(all.end(), x.begin(), x.end()); }
      for (auto &o : h.outs) for (u64 j = 0; j < 256; j++) { T g = h.E.loadBytes(o.st, h.reg["a"], 4 * j, 4); Bits b = bitsOf(mkSub(mkConst(32, 131072), g)); bool ok = true; for (u64 i = 0; i < 32; i++) if (b[i] != (i < 18 ? all[18 * j + i] : Z1())) ok = false; R.oblig(ok, id + ":poly_uniform_gamma1", h.where(o), "poly_uniform_gamma1: coefficient " + std::to_string(j) + " is not 2^17 minus its own 18 stream bits: " + show(g, 4)); } memObligations(h.E, R, id + ":mem", h.name); R.ok("sampler_patterns"); });
  if (which.count("challenge")) {
    std::vector<std::function<u64(u64)>> pats{[](u64 k) { return k; }, [](u64) { return 0ull; }, [](u64 k) { return 217 + k; }, [](u64 k) { return 5 * k + 3; }, [](u64 k) { return k % 2 ? 255ull : k; }, [](u64 k) { return k < 128 ? 255ull : k - 100; }, [](u64 k) { return k < 140 ? 254ull : (k * 37) % 200; }, [](u64 k) { return k % 3 ? 218ull : (k * 11) % 217; }, [](u64 k) { return (k * 29) % 256; }, [](u64 k) { return k < 128 ? (k % 8 ? 255ull : k) : k - 100; }};
    for (size_t q = 0; q < pats.size(); q++) jobs.push_back([=, &c](Report &R) { if (!has(c, "poly_challenge", R, 2)) return; auto S = [=](u64 i) { return i < 8 ? X(i) : mkConst(8, pats[q](i - 8)); }; Run h(c.M, P + "poly_challenge"); h.E.softLimit = 3000; stream(h.E, S); h.args = {h.buf("c", PB, true), h.buf("seed", 32, false)}; if (!h.go(R)) return; std::vector<int> want(256, -1); u64 pos = 8; Bits sg; for (u64 b = 0; b < 8; b++) { Bits x = bitsOf(X(b)); sg.insert(sg.end(), x.begin(), x.end()); } int n = 0;
      for (u64 i = 217; i < 256; i++) { u64 b; do { b = S(pos++)->c; } while (b > i); want[i] = want[b]; want[b] = n++; }
      for (auto &o : h.outs) for (u64 j = 0; j < 256; j++) { T g = h.E.loadBytes(o.st, h.reg["c"], 4 * j, 4); bool ok; if (want[j] < 0) ok = isC(g, 0) || h.E.equal(g, mkConst(32, 0), o.st); else { Bits b = bitsOf(mkSub(mkConst(32, 1), g)); ok = true; for (u64 i = 0; i < 32; i++) if (b[i] != (i == 1 ? sg[want[j]] : Z1())) ok = false; if (!ok) ok = h.E.equal(g, mkSub(mkConst(32, 1), mkMulC(mkZext(mkBin(Instruction::And, mkBin(Instruction::LShr, X(want[j] / 8), mkConst(8, want[j] % 8)), mkConst(8, 1)), 32), 2)), o.st); } R.oblig(ok, id + ":poly_challenge", h.where(o), "poly_challenge: coefficient " + std::to_string(j) + (want[j] < 0 ? " is not zero" : " is not 1-2*(sign bit " + std::to_string(want[j]) + ")") + " (position pattern " + std::to_string(q) + "): " + show(g, 4)); } memObligations(h.E, R, id + ":mem", h.name); R.ok("sampler_patterns"); R.oblig(!h.outs.empty(), id + ":poly_challenge", h.name, "poly_challenge never finishes on position pattern " + std::to_string(q)); });
  }
}
void dilExact(Ctx &c, std::vector<Job> &jobs, const std::string &id, const std::set<std::string> &w) { encJobs(c, jobs, id, w); arithJobs(c, jobs, id, w); sampleJobs(c, jobs, id, w); }

static void C33(Ctx &c, Report &R) {
  std::vector<Job> jobs;
  jobs.push_back([&c](Report &R) {
    Run h(c.M, P + "crypto_sign_keypair_seed"); Engine &E = h.E; installSponge(E, &h.lc); installDilithiumPoly(E); h.args = {h.buf("pk", 1312, true), h.buf("sk", 2560, true), h.buf("seed", 32, false)}; if (!h.go(R)) return;
    TV sb = xof("shake256", 128, leafSeq("seed", 0, 32)), rho = slice(sb, 0, 32), rp = slice(sb, 32, 64), key = slice(sb, 96, 32); auto A = matrix(rho); std::vector<Poly> s1(4), s2(4), hat(4); for (u64 i = 0; i < 4; i++) { s1[i] = app("uniform_eta", PB, {mkSeq(rp), mkConst(16, i)}); s2[i] = app("uniform_eta", PB, {mkSeq(rp), mkConst(16, 4 + i)}); hat[i] = un("ntt", s1[i]); }
    TV pk = rho, t0p, s1p, s2p; for (int i = 0; i < 4; i++) { Poly t = un("caddq", bin("add", un("invntt_tomont", un("reduce", rowMul(A[i], hat))), s2[i], true)); pk = cat(pk, app("t1_pack", 320, {mkSeq(un("power2round.hi", t))})); t0p = cat(t0p, app("t0_pack", 416, {mkSeq(un("power2round.lo", t))})); s1p = cat(s1p, app("eta_pack", 96, {mkSeq(s1[i])})); s2p = cat(s2p, app("eta_pack", 96, {mkSeq(s2[i])})); }
    TV sk = cat(cat(cat(cat(cat(rho, key), xof("shake256", 64, pk)), s1p), s2p), t0p);
    for (auto &o : h.outs) { R.ok("keygen_exits"); TV g = E.readSeq(o.st, h.args[0], 1312), k = E.readSeq(o.st, h.args[1], 2560); if (!mayBeZero(E, o.ret, o.st)) continue; R.oblig(g == pk, "C33:public-key", h.where(o), "the public key is not rho || pack(t1) with t = A s1 + s2 derived from the whole seed: " + diffAt(g, pk)); R.oblig(k == sk, "C33:secret-key", h.where(o), "the secret key is not rho || key || H(pk) || s1 || s2 || t0 of the same seed: " + diffAt(k, sk)); }
    memObligations(E, R, "C33:mem", h.name); R.ok("key_generators"); R.sample("pk = rho || t1_pack(power2round.hi(caddq(invntt(A ntt(s1)) + s2))), sk = rho || key || shake256(pk) || eta_pack(s1) || eta_pack(s2) || t0_pack"); });
  jobs.push_back([&c](Report &R) { Run h(c.M, P + "crypto_sign_keypair"); Engine &E = h.E; installRandom(E, true); TV seen; E.models[P + "crypto_sign_keypair_seed"] = [&](CallCtx &x) { State s = x.st; seen = x.E.readSeq(s, x.args[2], 32); wr(x, s, 0, app("Kpk", 1312, {mkSeq(seen)})); wr(x, s, 1, app("Ksk", 2560, {mkSeq(seen)})); return one(s, mkConst(32, 0)); }; h.args = {h.buf("pk", 1312, true), h.buf("sk", 2560, true)}; if (!h.go(R)) return;
    for (auto &o : h.outs) { if (!mayBeZero(E, o.ret, o.st)) continue; R.ok("keygen_exits"); TV g = E.readSeq(o.st, h.args[0], 1312), k = E.readSeq(o.st, h.args[1], 2560); bool shape = isCustom(g[0], "Kpk") && isCustom(k[0], "Ksk") && g[0]->a[1] == k[0]->a[1]; TV sd; if (shape) { sd = g[0]->a[1]->a; shape = g == app("Kpk", 1312, {mkSeq(sd)}) && k == app("Ksk", 2560, {mkSeq(sd)}); } R.oblig(shape, "C33:unseeded", h.where(o), "unseeded key generation does not return the key pair derived from one seed", E.path(o.st)); std::set<T> ds(sd.begin(), sd.end()); bool fresh = ds.size() == 32; for (T b : sd) if (b->k != TK::Leaf || internName(b->op).rfind("rnd#", 0) != 0) fresh = false; R.oblig(!shape || fresh, "C33:unseeded-fresh", h.where(o), "the seed of unseeded key generation is not 32 distinct freshly drawn bytes: " + (sd.size() ? show(sd[0], 2) + ".." + show(sd.back(), 2) : ""), E.path(o.st)); } R.ok("key_generators"); });
  samplerJobs(c, jobs, "C33", {"uniform", "uniform_eta"}); dilExact(c, jobs, "C33", {"eta_pack", "t1_pack", "t0_pack", "add", "pointwise_montgomery", "reduce", "caddq", "ntt", "invntt_tomont", "power2round", "uniform", "uniform_eta"});
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && R.cnt["keygen_exits"] < 2) R.fail("rule instances below the confirmed count");
}
static Reg r33("C33", C33);
static void C34(Ctx &c, Report &R) {
  std::vector<Job> jobs; dilExact(c, jobs, "C34", {"eta_pack", "t1_pack", "t0_pack", "z_pack", "w1_pack", "eta_unpack", "t1_unpack", "t0_unpack", "z_unpack", "add", "sub", "pointwise_montgomery", "reduce", "caddq", "shiftl", "ntt", "invntt_tomont", "power2round", "decompose", "use_hint", "make_hint", "uniform", "uniform_eta", "uniform_gamma1", "challenge"});
  roundingJobs(c, jobs, "C34", true, true);
  runJobs(jobs, R);
}
static Reg r34("C34", C34);
} // namespace pq
