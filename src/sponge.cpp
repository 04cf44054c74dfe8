// C21, C29: the hash functions compared term for term with a reference sponge built over the opaque
// Keccak permutation, and the permutation itself compared with a reference Keccak-f[1600].
#include "checks.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace pq {
struct HK { std::string n; u64 rate, dig; u64 suf; bool shake() const { return dig == 0; } };
static const std::vector<HK> kinds{{"shake128", 168, 0, 0x1F}, {"shake256", 136, 0, 0x1F}, {"sha3_256", 136, 32, 0x06}, {"sha3_384", 104, 48, 0x06}, {"sha3_512", 72, 64, 0x06}};

// the permutation: by name, else the largest defined void(ptr) function of the file defining shake128
const Function *keccakPerm(Module &M) {
  if (auto *F = M.getFunction("KeccakF1600_StatePermute")) if (!F->isDeclaration()) return F;
  auto *A = M.getFunction("shake128"); if (!A || !A->getSubprogram()) return nullptr; const Function *best = nullptr; unsigned bi = 0;
  for (auto &F : M) { if (F.isDeclaration() || !F.getSubprogram() || F.getSubprogram()->getFilename() != A->getSubprogram()->getFilename() || F.arg_size() != 1 || !F.getArg(0)->getType()->isPointerTy() || !F.getReturnType()->isVoidTy()) continue; unsigned n = F.getInstructionCount(); if (n > bi) { bi = n; best = &F; } }
  return best;
}
static TV KF(const TV &st) { T s = mkSeq(st); TV r(200); for (u64 i = 0; i < 200; i++) r[i] = mkCustom("KF", i, 8, {s}); return r; }
static void installKF(Engine &E, const Function *P) { if (P) E.models[P->getName().str()] = [](CallCtx &x) { State s = x.st; x.E.access(s, x.args[0], mkConst(64, 200), true, x.cb, "write"); x.E.writeSeq(s, x.args[0], KF(x.E.readSeq(s, x.args[0], 200))); Outcomes o; o.push_back({s, nullptr, nullptr}); return o; }; }
static TV refSponge(const HK &k, const TV &in, u64 outlen) {
  TV st(200, mkConst(8, 0)); u64 pos = 0; auto x = [&](u64 i, T b) { st[i] = mkBin(Instruction::Xor, st[i], b); };
  for (T b : in) { x(pos++, b); if (pos == k.rate) { st = KF(st); pos = 0; } }
  x(pos, mkConst(8, k.suf)); x(k.rate - 1, mkConst(8, 0x80)); TV out; st = KF(st); u64 o = 0;
  while (out.size() < outlen) { if (o == k.rate) { st = KF(st); o = 0; } out.push_back(st[o++]); }
  return out;
}
// a sequence of API calls on one abstract state (the calls have a single exit each)
struct Seq { Engine E; State s; Report &R; bool ok = true; u64 calls = 0; std::string at; Seq(Module &M, Report &r, const Function *P) : E(M), R(r) { installKF(E, P); }
  T buf(const std::string &n, u64 sz, bool wr) { return E.ptrTo(E.newRegion(s, n, mkConst(64, sz), Def::Init, wr)); }
  bool call(const std::string &f, const TV &a) { if (!ok) return false; auto *F = E.fn(f); if (!F || F->isDeclaration() || F->arg_size() != a.size()) { R.fail("hash function " + f + " not found"); return ok = false; } auto o = E.run(F, a, s); if (!E.broken.empty()) { R.fail(f + ": " + E.broken); return ok = false; } if (o.size() != 1) { R.fail(f + " has " + std::to_string(o.size()) + " exits"); return ok = false; } s = o[0].st; calls++; if (o[0].at) at = E.loc(o[0].at); return true; }
  void done() { noteEngine(E, R); R.ok("api_calls", calls); }
  std::string pendingWhere(const std::string &n) { return at.empty() ? n : at; } };
static T L(u64 v) { return mkConst(64, v); }
static bool same(Seq &q, T out, const TV &want, u64 &d) { TV g = q.E.readSeq(q.s, out, want.size()); for (d = 0; d < want.size(); d++) if (g[d] != want[d]) return false; return true; }
static void memOK(Seq &q, const std::string &id, const std::string &n) { memObligations(q.E, q.R, id, n); }

// ---- reference Keccak-f[1600] over 64-bit lane terms
static T rotl(T x, unsigned k) { if (!k) return x; return mkBin(Instruction::Or, mkBin(Instruction::Shl, x, mkConst(64, k)), mkBin(Instruction::LShr, x, mkConst(64, 64 - k))); }
static TV refKeccak(TV A) {
  auto X = [](T a, T b) { return mkBin(Instruction::Xor, a, b); };
  u64 lfsr = 1; auto bit = [&]() { u64 r = lfsr & 1; lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x171); return r; };
  for (int r = 0; r < 24; r++) {
    T C[5], D[5]; for (int x = 0; x < 5; x++) { C[x] = A[x]; for (int y = 1; y < 5; y++) C[x] = X(C[x], A[x + 5 * y]); }
    for (int x = 0; x < 5; x++) D[x] = X(C[(x + 4) % 5], rotl(C[(x + 1) % 5], 1)); for (int i = 0; i < 25; i++) A[i] = X(A[i], D[i % 5]);
    TV B(25); int x = 1, y = 0; B[0] = A[0]; for (int t = 0; t < 24; t++) { int nx = y, ny = (2 * x + 3 * y) % 5; B[nx + 5 * ny] = rotl(A[x + 5 * y], ((t + 1) * (t + 2) / 2) % 64); x = nx; y = ny; }
    for (int yy = 0; yy < 5; yy++) for (int xx = 0; xx < 5; xx++) A[xx + 5 * yy] = X(B[xx + 5 * yy], mkBin(Instruction::And, X(B[(xx + 1) % 5 + 5 * yy], mkConst(64, ~0ull)), B[(xx + 2) % 5 + 5 * yy]));
    u64 rc = 0; for (int j = 0; j < 7; j++) if (bit()) rc |= 1ull << ((1 << j) - 1);
    A[0] = X(A[0], mkConst(64, rc));
  }
  return A;
}
static void C21(Ctx &c, Report &R) {
  const Function *P = keccakPerm(c.M); if (!P) { R.fail("anchor vanished: the Keccak permutation"); return; } std::vector<Job> jobs;
  jobs.push_back([=, &c](Report &R) { Run h(c.M, P->getName().str()); h.args = {h.buf("st", 200, true)}; TV lanes; for (int i = 0; i < 25; i++) { lanes.push_back(mkLeaf("lane", i, 64)); h.E.storeBytes(h.s0, h.reg["st"], 8 * i, lanes[i], 8); } if (!h.go(R)) return; TV ref = refKeccak(lanes);
    for (auto &o : h.outs) { for (int i = 0; i < 25; i++) { T g = h.E.loadBytes(o.st, h.reg["st"], 8 * i, 8); R.oblig(g == ref[i], "C21:permutation", h.where(o), "lane " + std::to_string(i) + " after the permutation is not that of Keccak-f[1600] with 24 rounds and the standard offsets and constants"); } } memObligations(h.E, R, "C21:mem", h.name); R.ok("permutations"); });
  for (auto &k : kinds) { std::set<u64> lens{0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65}; for (u64 b = 1; b <= 2; b++) for (i64 d = -9; d <= 9; d++) lens.insert(b * k.rate + d); for (u64 i = 0; i <= (c.thorough ? 2200 : 3 * k.rate + 10); i++) lens.insert(i);
    std::vector<std::string> roots{k.n, k.n + "_inc_absorb", k.n + "_inc_finalize", k.n + "_inc_squeeze", k.n + "_absorb", k.n + "_squeezeblocks"}; const auto src = sourceLengths(c.M, roots, 70000); std::set<u64> far{20000, 40000, 65537, 66000}; if (c.thorough) far.insert(300001); for (u64 x : src) far.insert(x);
    std::set<u64> outs{0, 1, 31, 32, 63, 64, k.rate - 1, k.rate, k.rate + 1, 2 * k.rate - 1, 2 * k.rate, 2 * k.rate + 1, 3 * k.rate, 1000}; if (!k.shake()) outs = {k.dig}; if (c.thorough && k.shake()) for (u64 i = 0; i <= 2 * k.rate + 2; i++) outs.insert(i);
    std::vector<std::pair<u64, u64>> cs; for (u64 l : lens) for (u64 o : {u64(32), k.rate + 1}) cs.push_back({l, k.shake() ? o : k.dig}); for (u64 o : outs) for (u64 l : {u64(0), u64(33), k.rate - 1}) cs.push_back({l, o}); for (u64 x : far) { cs.push_back({x, k.shake() ? 32 : k.dig}); if (k.shake()) { cs.push_back({33, x}); cs.push_back({33, x / k.rate * k.rate}); } } std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    for (size_t b = 0; b < cs.size(); b += 20) { std::vector<std::pair<u64, u64>> sub(cs.begin() + b, cs.begin() + std::min(cs.size(), b + 20)); jobs.push_back([=, &c](Report &R) { for (auto &x : sub) { u64 l = x.first, o = x.second; TV in = leafSeq("in", 0, l), want = refSponge(k, in, o); u64 d; std::string what = " for input length " + std::to_string(l) + ", output length " + std::to_string(o);
        auto V = [&](Seq &q, T out, const std::string &n) { bool g = same(q, out, want, d); R.oblig(g, "C21:" + n, q.pendingWhere(n), n + ": output byte " + std::to_string(d) + " differs from the standard sponge (rate " + std::to_string(k.rate) + ", suffix " + std::to_string(k.suf) + ")" + what); memOK(q, "C21:mem", n); q.done(); R.ok("sponge_comparisons"); };
        { Seq q(c.M, R, P); T in_ = q.buf("in", l, false), out = q.buf("out", o, true); if (q.call(k.n, k.shake() ? TV{out, L(o), in_, L(l)} : TV{out, in_, L(l)})) V(q, out, k.n); }
        { Seq q(c.M, R, P); T in_ = q.buf("in", l, false), out = q.buf("out", o, true), cx = q.buf("ctx", 8, true); if (q.call(k.n + "_inc_init", {cx}) && q.call(k.n + "_inc_absorb", {cx, in_, L(l)}) && (k.shake() ? q.call(k.n + "_inc_finalize", {cx}) && q.call(k.n + "_inc_squeeze", {out, L(o), cx}) : q.call(k.n + "_inc_finalize", {out, cx}))) V(q, out, k.n + " (incremental)"); }
        if (k.shake() && o % k.rate == 0) { Seq q(c.M, R, P); T in_ = q.buf("in", l, false), out = q.buf("out", o, true), cx = q.buf("ctx", 8, true); if (q.call(k.n + "_absorb", {cx, in_, L(l)}) && q.call(k.n + "_squeezeblocks", {out, L(o / k.rate), cx})) V(q, out, k.n + " (streaming)"); }
        if (!R.broken.empty()) return; } }); } }
  runJobs(jobs, R); R.sample("shake256(in[0..137)) -> 32 bytes: KF(KF(in[0..136)) ^ in[136] ^ 0x1F@1 ^ 0x80@135)[0..32)"); if (R.broken.empty() && R.v.empty() && (R.cnt["permutations"] != 1 || R.cnt["sponge_comparisons"] < 400)) R.fail("rule instances below the confirmed count");
}
static Reg r21("C21", C21);

static void C29(Ctx &c, Report &R) {
  const Function *P = keccakPerm(c.M); if (!P) { R.fail("anchor vanished: the Keccak permutation"); return; } std::vector<Job> jobs;
  for (auto &k : kinds) { const u64 r = k.rate;
    auto fin = [=](Seq &q, T out, u64 o, T cx) { return k.shake() ? q.call(k.n + "_inc_finalize", {cx}) && q.call(k.n + "_inc_squeeze", {out, L(o), cx}) : q.call(k.n + "_inc_finalize", {out, cx}); };
    // absorbing: every position p in a block, every boundary-relevant second piece, then a third piece
    for (u64 p = 0; p < r; p++) jobs.push_back([=, &c](Report &R) { std::set<u64> qs{0, 1, 8, r - p - 1, r - p, r - p + 1, r - 1, r, r + 1, 2 * r - p - 1, 2 * r - p, 2 * r - p + 1}; if (c.thorough) { for (u64 i = 0; i <= r + 1; i++) qs.insert(i); for (i64 d = -2; d <= 2; d++) qs.insert(3 * r - p + d); }
      Seq base(c.M, R, P); T in = base.buf("in", 6 * r, false), cx = base.buf("ctx", 8, true); if (!base.call(k.n + "_inc_init", {cx}) || !base.call(k.n + "_inc_absorb", {cx, in, L(p)})) return; State s1 = base.s; const u64 o = k.shake() ? 40 : k.dig;
      for (u64 q : qs) { base.s = s1; if (!base.call(k.n + "_inc_absorb", {cx, mkAdd(in, L(p)), L(q)})) return; State s2 = base.s;
        for (u64 t : std::set<u64>{0, 1, (2 * r - (p + q) % r) % r}) { base.s = s2; if (t && !base.call(k.n + "_inc_absorb", {cx, mkAdd(in, L(p + q)), L(t)})) return; T out = base.buf("out", o, true); if (!fin(base, out, o, cx)) return; u64 d; bool g = same(base, out, refSponge(k, leafSeq("in", 0, p + q + t), o), d);
          R.oblig(g, "C29:absorb:" + k.n, k.n + "_inc_absorb", k.n + ": absorbing pieces of " + std::to_string(p) + ", " + std::to_string(q) + " and " + std::to_string(t) + " bytes differs from absorbing them at once (output byte " + std::to_string(d) + ")"); R.ok("absorb_splits"); if (!g) break; } }
      memOK(base, "C29:mem", k.n); base.done(); });
    if (k.shake()) for (u64 p = 0; p <= r; p++) jobs.push_back([=, &c](Report &R) { std::set<u64> qs{0, 1, 8, r - p, r - p + 1, r - 1, r, r + 1, 2 * r - p, 2 * r - p + 1}; if (p < r) qs.insert(r - p - 1); if (c.thorough) for (u64 i = 0; i <= r + 1; i++) qs.insert(i);
      Seq base(c.M, R, P); T in = base.buf("in", 40, false), cx = base.buf("ctx", 8, true); if (!base.call(k.n + "_inc_init", {cx}) || !base.call(k.n + "_inc_absorb", {cx, in, L(40)}) || !base.call(k.n + "_inc_finalize", {cx})) return; TV ref = refSponge(k, leafSeq("in", 0, 40), 5 * r + 20); State s0 = base.s; T o1 = base.buf("o1", p, true); if (!base.call(k.n + "_inc_squeeze", {o1, L(p), cx})) return; State s1 = base.s;
      for (u64 q : qs) for (u64 t : std::set<u64>{1, (2 * r - (p + q) % r) % r, r + 1}) { base.s = s1; T o2 = base.buf("o2", q, true), o3 = base.buf("o3", t, true); if (!base.call(k.n + "_inc_squeeze", {o2, L(q), cx}) || !base.call(k.n + "_inc_squeeze", {o3, L(t), cx})) return; u64 d; auto sl = [&](u64 a, u64 n) { return TV(ref.begin() + a, ref.begin() + a + n); };
        bool g = same(base, o1, sl(0, p), d) && same(base, o2, sl(p, q), d) && same(base, o3, sl(p + q, t), d); R.oblig(g, "C29:squeeze:" + k.n, k.n + "_inc_squeeze", k.n + ": drawing pieces of " + std::to_string(p) + ", " + std::to_string(q) + " and " + std::to_string(t) + " bytes differs from drawing them at once (at byte " + std::to_string(d) + " of a piece)"); R.ok("squeeze_splits"); if (!g) break; }
      memOK(base, "C29:mem", k.n); base.done(); });
    // long pieces: at and next to every constant the hashing code computes with
    { const auto src = sourceLengths(c.M, {k.n + "_inc_absorb", k.n + "_inc_finalize", k.n + "_inc_squeeze"}, 70000, r); std::vector<u64> far(src.begin(), src.end()); for (u64 x : {20000, 40000, 66000}) far.push_back(x);
      for (size_t b = 0; b < far.size(); b += 8) jobs.push_back([=, &c](Report &R) { for (size_t i = b; i < std::min(far.size(), b + 8); i++) for (u64 p : {u64(0), u64(1), r - 1}) { u64 q = far[i]; const u64 o = k.shake() ? 40 : k.dig; u64 d;
        { Seq s(c.M, R, P); T in = s.buf("in", p + q + 1, false), cx = s.buf("ctx", 8, true), out = s.buf("out", o, true); if (!s.call(k.n + "_inc_init", {cx}) || !s.call(k.n + "_inc_absorb", {cx, in, L(p)}) || !s.call(k.n + "_inc_absorb", {cx, mkAdd(in, L(p)), L(q)}) || !s.call(k.n + "_inc_absorb", {cx, mkAdd(in, L(p + q)), L(1)}) || !fin(s, out, o, cx)) return; bool g = same(s, out, refSponge(k, leafSeq("in", 0, p + q + 1), o), d); R.oblig(g, "C29:absorb:" + k.n, k.n + "_inc_absorb", k.n + ": absorbing pieces of " + std::to_string(p) + ", " + std::to_string(q) + " and 1 bytes differs from absorbing them at once (output byte " + std::to_string(d) + ")"); memOK(s, "C29:mem", k.n); s.done(); R.ok("absorb_splits"); }
        if (p == 1) for (bool out_ : {false, true}) { if (out_ && !k.shake()) continue; Seq s(c.M, R, P); u64 il = out_ ? 33 : q, ol = out_ ? q : o; T in = s.buf("in", il, false), out = s.buf("out", ol, true); if (!s.call(k.n, k.shake() ? TV{out, L(ol), in, L(il)} : TV{out, in, L(il)})) return; bool g = same(s, out, refSponge(k, leafSeq("in", 0, il), ol), d); R.oblig(g, "C29:single:" + k.n, k.n, k.n + ": the single call on " + std::to_string(il) + " bytes drawing " + std::to_string(ol) + " differs from the same bytes in pieces (output byte " + std::to_string(d) + ")"); memOK(s, "C29:mem", k.n); s.done(); R.ok("single_calls");
          if (out_ && q >= r) { Seq t(c.M, R, P); u64 nb = q / r; T in2 = t.buf("in", 33, false), cx = t.buf("ctx", 8, true), o1 = t.buf("o1", nb * r, true), o2 = t.buf("o2", 2 * r, true); if (!t.call(k.n + "_absorb", {cx, in2, L(33)}) || !t.call(k.n + "_squeezeblocks", {o1, L(nb), cx}) || !t.call(k.n + "_squeezeblocks", {o2, L(2), cx})) return; TV ref = refSponge(k, leafSeq("in", 0, 33), (nb + 2) * r); bool g = same(t, o1, TV(ref.begin(), ref.begin() + nb * r), d) && same(t, o2, TV(ref.begin() + nb * r, ref.end()), d); R.oblig(g, "C29:blocks:" + k.n, k.n + "_squeezeblocks", k.n + ": drawing " + std::to_string(nb) + " then 2 blocks differs from drawing them at once (byte " + std::to_string(d) + ")"); memOK(t, "C29:mem", k.n); t.done(); R.ok("block_splits"); } }
        if (k.shake()) { Seq s(c.M, R, P); T in = s.buf("in", 40, false), cx = s.buf("ctx", 8, true), o1 = s.buf("o1", p, true), o2 = s.buf("o2", q, true), o3 = s.buf("o3", 9, true); if (!s.call(k.n + "_inc_init", {cx}) || !s.call(k.n + "_inc_absorb", {cx, in, L(40)}) || !s.call(k.n + "_inc_finalize", {cx}) || !s.call(k.n + "_inc_squeeze", {o1, L(p), cx}) || !s.call(k.n + "_inc_squeeze", {o2, L(q), cx}) || !s.call(k.n + "_inc_squeeze", {o3, L(9), cx})) return; TV ref = refSponge(k, leafSeq("in", 0, 40), p + q + 9); auto sl = [&](u64 a, u64 n) { return TV(ref.begin() + a, ref.begin() + a + n); };
          bool g = same(s, o1, sl(0, p), d) && same(s, o2, sl(p, q), d) && same(s, o3, sl(p + q, 9), d); R.oblig(g, "C29:squeeze:" + k.n, k.n + "_inc_squeeze", k.n + ": drawing pieces of " + std::to_string(p) + ", " + std::to_string(q) + " and 9 bytes differs from drawing them at once (at byte " + std::to_string(d) + " of a piece)"); memOK(s, "C29:mem", k.n); s.done(); R.ok("squeeze_splits"); } } }); }
    // clones continue identically and independently
    for (u64 p : std::vector<u64>{0, 1, r - 1, r, r + 1, 2 * r}) jobs.push_back([=, &c](Report &R) { Seq q(c.M, R, P); T in = q.buf("in", 6 * r, false), cx = q.buf("ctx", 8, true), c2 = q.buf("ctx2", 8, true); const u64 o = k.shake() ? 40 : k.dig; T oa = q.buf("oa", o, true), ob = q.buf("ob", o, true);
      if (!q.call(k.n + "_inc_init", {cx}) || !q.call(k.n + "_inc_absorb", {cx, in, L(p)}) || !q.call(k.n + "_inc_ctx_clone", {c2, cx}) || !q.call(k.n + "_inc_absorb", {cx, mkAdd(in, L(p)), L(r + 3)}) || !q.call(k.n + "_inc_absorb", {c2, mkAdd(in, L(p)), L(5)}) || !fin(q, oa, o, cx) || !fin(q, ob, o, c2)) return; u64 d;
      R.oblig(same(q, oa, refSponge(k, leafSeq("in", 0, p + r + 3), o), d), "C29:clone:" + k.n, k.n + "_inc_ctx_clone", k.n + ": cloning a context after " + std::to_string(p) + " bytes disturbs the original (byte " + std::to_string(d) + ")"); R.oblig(same(q, ob, refSponge(k, leafSeq("in", 0, p + 5), o), d), "C29:clone2:" + k.n, k.n + "_inc_ctx_clone", k.n + ": a context cloned after " + std::to_string(p) + " bytes does not continue like the original (byte " + std::to_string(d) + ")"); R.ok("clones"); memOK(q, "C29:mem", k.n); q.done(); });
    if (k.shake()) for (u64 p : std::vector<u64>{0, 1, r - 1, r, 2 * r + 1}) jobs.push_back([=, &c](Report &R) { for (u64 a = 0; a <= 4; a++) for (u64 b = 0; a + b <= 5; b++) { Seq q(c.M, R, P); T in = q.buf("in", p, false), cx = q.buf("ctx", 8, true), c2 = q.buf("ctx2", 8, true), o1 = q.buf("o1", a * r, true), o2 = q.buf("o2", b * r, true), o3 = q.buf("o3", b * r, true); TV ref = refSponge(k, leafSeq("in", 0, p), 6 * r); u64 d;
      if (!q.call(k.n + "_absorb", {cx, in, L(p)}) || !q.call(k.n + "_squeezeblocks", {o1, L(a), cx}) || !q.call(k.n + "_ctx_clone", {c2, cx}) || !q.call(k.n + "_squeezeblocks", {o2, L(b), cx}) || !q.call(k.n + "_squeezeblocks", {o3, L(b), c2})) return; TV s1(ref.begin(), ref.begin() + a * r), s2(ref.begin() + a * r, ref.begin() + (a + b) * r);
      bool g = same(q, o1, s1, d) && same(q, o2, s2, d) && same(q, o3, s2, d); R.oblig(g, "C29:blocks:" + k.n, k.n + "_squeezeblocks", k.n + ": drawing " + std::to_string(a) + " then " + std::to_string(b) + " blocks (directly or from a clone) differs from drawing them at once (byte " + std::to_string(d) + ")"); R.ok("block_splits"); memOK(q, "C29:mem", k.n); q.done(); } }); }
  runJobs(jobs, R); R.sample("shake128: init; absorb 167 bytes; absorb 1 byte; finalise; squeeze 40 == one-shot on 168 bytes"); if (R.broken.empty() && R.v.empty() && (R.cnt["absorb_splits"] < 5000 || R.cnt["squeeze_splits"] < 2000 || R.cnt["clones"] < 30)) R.fail("rule instances below the confirmed count");
}
static Reg r29("C29", C29);
} // namespace pq
