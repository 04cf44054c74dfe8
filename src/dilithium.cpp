// C14, C18: Dilithium verification and signing, decided at the level of polynomial operations.
// The polynomial routines (poly_*, polyX_pack/unpack) are uninterpreted functions of their operands;
// the scalar routines under them (norm test, rounding, hints) are decided separately with intervals.
#include "dil.h"
#include "llvm/IR/InstIterator.h"
#include <array>
using namespace llvm;
namespace pq {
using namespace dil;
static T normFact(i64 B, const Poly &a) { return mkCustom("NormBelow", (u64)B, 1, {mkSeq(a)}); }
static void mark(State &s, CallCtx &c, int d) { auto t = std::make_shared<Trail>(); t->prev = s.trail; t->at = c.cb; t->dir = d; t->len = s.trail ? s.trail->len + 1 : 1; s.trail = t; }

// light: outputs are unknown values (used where only control flow and counters matter)
static void installPoly(Engine &E, bool light = false) {
  auto put = [light](CallCtx &c, State &s, unsigned i, const std::function<TV()> &f, u64 n = PB) { if (!light) { wr(c, s, i, f()); return; } if (c.args[i]->k == TK::Ptr) c.E.havocRegion(s, (int)c.args[i]->c); };
  for (std::string f : {"reduce", "caddq", "shiftl", "ntt", "invntt_tomont"}) E.models[P + "poly_" + f] = [=](CallCtx &c) { State s = c.st; put(c, s, 0, [&] { return un(f, rd(c, s, 0)); }); return one(s); };
  for (std::string f : {"add", "sub", "pointwise_montgomery"}) E.models[P + "poly_" + f] = [=](CallCtx &c) { State s = c.st; put(c, s, 0, [&] { return bin(f, rd(c, s, 1), rd(c, s, 2), f != "sub"); }); return one(s); };
  for (std::string f : {"power2round", "decompose"}) E.models[P + "poly_" + f] = [=](CallCtx &c) { State s = c.st; Poly a; if (!light) a = rd(c, s, 2); put(c, s, 1, [&] { return un(f + ".lo", a); }); put(c, s, 0, [&] { return un(f + ".hi", a); }); return one(s); };
  E.models[P + "poly_use_hint"] = [=](CallCtx &c) { State s = c.st; put(c, s, 0, [&] { return bin("use_hint", rd(c, s, 1), rd(c, s, 2)); }); return one(s); };
  E.models[P + "poly_make_hint"] = [=](CallCtx &c) { State s = c.st; T n; if (light) { put(c, s, 0, [] { return TV{}; }); n = mkFresh("hints", 32); } else { Poly a = rd(c, s, 1), b = rd(c, s, 2), h = bin("make_hint", a, b); wr(c, s, 0, h); n = mkCustom("ones", 0, 32, {mkSeq(h)}); }
    c.E.assume(mkCmp(O_ULE, n, mkConst(32, 256)), true, s); return one(s, n); };
  E.models[P + "poly_chknorm"] = [=](CallCtx &c) { Outcomes o; u64 B; bool k = c.E.constOf(c.args[1], c.st, B); State ok = c.st, no = c.st; if (k && !light) ok.addFact(normFact((i64)B, rd(c, ok, 0))); mark(ok, c, 1); mark(no, c, 0); o.push_back({ok, mkConst(32, 0), nullptr}); o.push_back({no, mkConst(32, 1), nullptr}); return o; };
  struct U { const char *n; u64 seed; }; for (U u : {U{"uniform", 32}, U{"uniform_eta", 64}, U{"uniform_gamma1", 64}}) { std::string f = u.n; u64 sl = u.seed; E.models[P + "poly_" + f] = [=](CallCtx &c) { State s = c.st; put(c, s, 0, [&] { return app(f, PB, {mkSeq(rd(c, s, 1, sl)), mkTrunc(c.args[2], 16)}); }); return one(s); }; }
  E.models[P + "poly_challenge"] = [=](CallCtx &c) { State s = c.st; put(c, s, 0, [&] { return app("challenge", PB, {mkSeq(rd(c, s, 1, 32))}); }); return one(s); };
  struct K { const char *n; u64 b; }; for (K k : {K{"eta", 96}, K{"t1", 320}, K{"t0", 416}, K{"z", 576}, K{"w1", 192}}) { std::string f = k.n; u64 b = k.b;
    E.models[P + "poly" + f + "_pack"] = [=](CallCtx &c) { State s = c.st; if (light) { c.E.havoc(s, c.args[0], C64(b), "packed"); return one(s); } wr(c, s, 0, app(f + "_pack", b, {mkSeq(rd(c, s, 1))})); return one(s); };
    E.models[P + "poly" + f + "_unpack"] = [=](CallCtx &c) { State s = c.st; put(c, s, 0, [&] { return app(f + "_unpack", PB, {mkSeq(rd(c, s, 1, b))}); }); return one(s); }; }
}
void installDilithiumPoly(Engine &E) { installPoly(E); }
static Poly unpackT(const std::string &f, const TV &b) { return app(f + "_unpack", PB, {mkSeq(b)}); }
static bool normAtMost(const State &s, i64 B, const Poly &p) { T q = mkSeq(p); for (T f : *s.facts) if (isCustom(f, "NormBelow") && f->a[1] == q && (i64)f->c <= B) return true; return false; }

// ---- the norm test: any coefficient at or beyond the bound is reported
static void normJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, std::vector<i64> Bs) {
  for (i64 B : Bs) for (u64 blk = 0; blk < 16; blk++) jobs.push_back([=, &c](Report &R) {
    for (u64 i = blk * 16; i < blk * 16 + 16; i++) for (int neg = 0; neg < 2; neg++) {
      Run h(c.M, P + "poly_chknorm"); h.E.foldConst = true; h.args = {h.buf("a", PB, false), mkConst(32, (u64)B)}; Engine &E = h.E;
      for (u64 j = 0; j < 256; j++) { T x = mkLeaf("a", j, 32); E.storeBytes(h.s0, h.reg["a"], 4 * j, x, 4); }
      T x = mkLeaf("a", i, 32); u64 lo = neg ? (u64)(-(1 << 24)) : (u64)B, hi = neg ? (u64)(-B) : (u64)(1 << 24);
      E.assume(mkCmp(O_ULE, mkConst(32, lo), x), true, h.s0); E.assume(mkCmp(O_ULE, x, mkConst(32, hi)), true, h.s0);
      if (!h.go(R)) return;
      for (auto &o : h.outs) { R.ok("norm_exits"); R.oblig(!mayBeZero(E, o.ret, o.st), id + ":norm", h.where(o), "poly_chknorm may report a polynomial as within the bound " + std::to_string(B) + " although coefficient " + std::to_string(i) + " is " + (neg ? "at or below the negated bound" : "at or above the bound"), E.path(o.st)); }
      memObligations(E, R, id + ":mem", h.name); R.ok("norm_cases");
    } });
}
// ---- rounding: decided on intervals of the argument over which the specified high part is constant
static void decompSpec(i64 a, i64 &a1, i64 &a0) { i64 al = 2 * G2; a0 = a % al; if (a0 > al / 2) a0 -= al; if (a - a0 == Q - 1) { a1 = 0; a0 -= 1; } else a1 = (a - a0) / al; }
struct Seg { i64 lo, hi, a1, off; };                          // for a in [lo,hi]: high part a1, low part a - off
static std::vector<Seg> segs() { std::vector<Seg> v; i64 al = 2 * G2; for (i64 k = 0; k <= 44; k++) { i64 lo = std::max<i64>(0, k * al - al / 2 + 1), hi = std::min<i64>(Q - 1, k * al + al / 2); if (lo > hi) continue; i64 a1, a0, b1, b0; decompSpec(lo, a1, a0); decompSpec(hi, b1, b0); v.push_back({lo, hi, a1, lo - a0}); } return v; }
void roundingJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, bool use, bool make) {
  jobs.push_back([=, &c](Report &R) {
    for (auto &g : segs()) for (int part = 0; part < 2; part++) { i64 lo = g.lo, hi = g.hi; i64 mid = g.off; if (part == 0) { if (g.a1 == 0 && g.off == Q) { /* wrapped segment: low part is never positive */ } else hi = std::min(hi, mid); } else { if (g.a1 == 0 && g.off == Q) continue; lo = std::max(lo, mid + 1); } if (lo > hi) continue;
      auto rng = [&](Run &h, T x, i64 l, i64 u) { h.E.assume(mkCmp(O_ULE, mkConst(32, (u64)l), x), true, h.s0); h.E.assume(mkCmp(O_ULE, x, mkConst(32, (u64)u)), true, h.s0); };
      std::string rs = "[" + std::to_string(lo) + ".." + std::to_string(hi) + "]"; T a = mkLeaf("a", 0, 32);
      { Run h(c.M, P + "decompose"); h.E.foldConst = true; h.args = {h.buf("a0", 4, true), a}; rng(h, a, lo, hi); if (!h.go(R)) return; R.ok("rounding_segments");
        for (auto &o : h.outs) { R.oblig(h.E.equal(o.ret, mkConst(32, (u64)g.a1), o.st), id + ":decompose", h.where(o), "decompose of a value in " + rs + " does not give the high part " + std::to_string(g.a1) + " (gives " + show(o.ret, 3) + ")"); T lowp = h.E.loadBytes(o.st, h.reg["a0"], 0, 4), want = mkSub(a, mkConst(32, (u64)g.off)); R.oblig(lowp == want || h.E.equal(lowp, want, o.st), id + ":decompose-low", h.where(o), "decompose of a value in " + rs + " does not give the low part a-" + std::to_string(g.off) + " (gives " + show(lowp, 3) + ")"); } }
      if (use) for (u64 hint = 0; hint < 2; hint++) { Run h(c.M, P + "use_hint"); h.E.foldConst = true; h.args = {a, mkConst(32, hint)}; rng(h, a, lo, hi); if (!h.go(R)) return; i64 want = !hint ? g.a1 : part ? (g.a1 + 1) % 44 : (g.a1 + 43) % 44;
        for (auto &o : h.outs) R.oblig(h.E.equal(o.ret, mkConst(32, (u64)want), o.st), id + ":use_hint", h.where(o), "use_hint of a value in " + rs + " with hint " + std::to_string(hint) + " does not give " + std::to_string(want) + " (gives " + show(o.ret, 3) + ")", h.E.path(o.st)); R.ok("rounding_segments"); } } });
  jobs.push_back([=, &c](Report &R) { T a = mkLeaf("a", 0, 32);   // modular reduction and conditional addition
    auto run = [&](const std::string &f, i64 lo, i64 hi, i64 add) { if (!c.M.getFunction(P + f)) return; Run h(c.M, P + f); h.E.foldConst = true; h.args = {a}; h.E.assume(mkCmp(O_ULE, mkConst(32, (u64)lo), a), true, h.s0); h.E.assume(mkCmp(O_ULE, a, mkConst(32, (u64)hi)), true, h.s0); if (!h.go(R)) return; R.ok("rounding_segments"); for (auto &o : h.outs) { T want = mkAdd(a, mkConst(32, (u64)add)); R.oblig(o.ret == want || h.E.equal(o.ret, want, o.st), id + ":" + f, h.where(o), f + " of a value in [" + std::to_string(lo) + ".." + std::to_string(hi) + "] does not give the value plus " + std::to_string(add) + " (gives " + show(o.ret, 3) + ")"); } };
    run("caddq", 0, (1ll << 31) - 1, 0); run("caddq", -(1ll << 31), -1, Q);
    for (i64 k = -255; k <= 255; k++) { i64 lo = k * (1 << 23) - (1 << 22), hi = lo + (1 << 23) - 1; if (k == 0) { run("reduce32", lo, -1, 0); run("reduce32", 0, hi, 0); } else run("reduce32", lo, hi, -k * Q); } });
  if (make) jobs.push_back([=, &c](Report &R) {
    struct M { i64 lo, hi; int a1z; i64 want; }; const i64 big = 1 << 24; T a0 = mkLeaf("a0", 0, 32), a1 = mkLeaf("a1", 0, 32);
    for (M m : {M{G2 + 1, big, -1, 1}, M{0, G2, -1, 0}, M{-G2 + 1, -1, -1, 0}, M{-big, -G2 - 1, -1, 1}, M{-G2, -G2, 1, 0}, M{-G2, -G2, 0, 1}}) { Run h(c.M, P + "make_hint"); h.E.foldConst = true; h.args = {a0, a1}; auto rng = [&](T x, u64 l, u64 u) { h.E.assume(mkCmp(O_ULE, mkConst(32, l), x), true, h.s0); h.E.assume(mkCmp(O_ULE, x, mkConst(32, u)), true, h.s0); }; rng(a0, (u32)m.lo, (u32)m.hi); if (m.a1z == 1) rng(a1, 0, 0); else if (m.a1z == 0) rng(a1, 1, 43); else rng(a1, 0, 43); if (!h.go(R)) return;
      for (auto &o : h.outs) R.oblig(h.E.equal(o.ret, mkConst(o.ret->w, (u64)m.want), o.st), id + ":make_hint", h.where(o), "make_hint with low part in [" + std::to_string(m.lo) + ".." + std::to_string(m.hi) + "] does not give " + std::to_string(m.want), h.E.path(o.st)); R.ok("rounding_segments"); }
    // the reported count is the number of set coefficients
    Run h(c.M, P + "poly_make_hint"); h.args = {h.buf("h", PB, true), h.buf("x0", PB, false), h.buf("x1", PB, false)}; u64 n = 0; h.E.models[P + "make_hint"] = [&](CallCtx &x) { State s = x.st; T g = mkLeaf("hint", n++, 32); x.E.assume(mkCmp(O_ULE, g, mkConst(32, 1)), true, s); return one(s, g); };
    if (!h.go(R)) return; for (auto &o : h.outs) { T sum = mkConst(32, 0); for (u64 i = 0; i < 256; i++) sum = mkAdd(sum, h.E.loadBytes(o.st, h.reg["h"], 4 * i, 4)); R.oblig(o.ret == sum || h.E.equal(o.ret, sum, o.st), id + ":hint-count", h.where(o), "poly_make_hint does not return the sum of the hint coefficients it stores"); R.ok("hint_counts"); } });
}
// ---- the samplers feed the whole seed and the nonce to the XOF
void samplerJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, std::vector<std::string> which) {
  for (auto &f : which) jobs.push_back([=, &c](Report &R) {
    Run h(c.M, P + "poly_" + f); Engine &E = h.E; installSponge(E, nullptr); E.weakLimit = 64; E.softLimit = 40; u64 sl = f == "uniform" || f == "challenge" ? 32 : 64; std::string kind = f == "uniform" ? "shake128" : "shake256"; T nonce = mkLeaf("nonce", 0, 16);
    h.args = {h.buf("a", PB, true), h.buf("seed", sl, false)}; TV want = leafSeq("seed", 0, sl); if (f != "challenge") { h.args.push_back(nonce); want.push_back(mkByte(nonce, 0)); want.push_back(mkByte(nonce, 1)); }
    T w = mkSeq(want); u64 ev = 0; bool bad = false; std::string where, what;
    for (std::string k : {"shake128", "shake256"}) for (std::string op : {"_inc_squeeze", "_squeezeblocks"}) { E.models[k + op] = [=, &ev, &bad, &where, &what](CallCtx &x) { T ctx = x.args[2]; T v = ctx->k == TK::Ptr ? x.E.load(x.st, ctx, 8, x.cb) : nullptr; TV alts; if (v && v->k == TK::Join) alts = v->a; else if (v) alts = {v}; for (T y : alts) if (isCustom(y, "Sponge")) { ev++; if (y->a[2] != w || k != kind) { if (!bad) { bad = true; where = x.E.loc(x.cb); what = diffAt(y->a[2]->a, want); } } } return Outcomes{}; /* no absorb can follow a squeeze (C11): the input is complete here */ }; }
    for (std::string k : {"shake128", "shake256"}) { Model base = E.models[k]; E.models[k] = [=, &ev, &bad, &where, &what](CallCtx &x) { u64 n; ev++; if (!x.E.constOf(x.args[3], x.st, n) || mkSeq(x.E.readSeq(x.st, x.args[2], n)) != w || k != kind) { bad = true; where = x.E.loc(x.cb); what = "one-shot input differs"; } return base(x); }; }
    if (!h.go(R)) return; R.oblig(!bad && ev, id + ":sampler:" + f, where.empty() ? h.name : where, "poly_" + f + " does not expand exactly its " + std::to_string(sl) + "-byte seed" + (f == "challenge" ? "" : " and 2-byte nonce") + " with " + kind + ": " + what); R.ok("sampler_inputs", ev); });
}

static void C14(Ctx &c, Report &R) {
  for (const char *n : {"crypto_sign_verify", "unpack_sig", "poly_chknorm", "poly_challenge", "polyw1_pack", "polyz_unpack", "poly_use_hint"}) if (!c.M.getFunction(P + n)) { R.fail("anchor vanished: " + P + n); return; }
  std::vector<Job> jobs;
  // 1. the verifier over opaque polynomial operations and decoding
  jobs.push_back([&c](Report &R) {
    Run h(c.M, P + "crypto_sign_verify"); Engine &E = h.E; installSponge(E, &h.lc); installPoly(E); T mlen = mkLeaf("mlen", 0, 64), slen = mkLeaf("siglen", 0, 64); E.assume(mkCmp(O_ULT, mlen, C64(1ull << 60)), true, h.s0);
    h.args = {h.buf("sig", 2420, false), slen, h.buf("m", mlen, false), mlen, h.buf("pk", 1312, false)};
    TV sig = leafSeq("sig", 0, 2420), pk = leafSeq("pk", 0, 1312); std::vector<Poly> z(4), t1(4), hint(4); for (u64 i = 0; i < 4; i++) { z[i] = unpackT("z", slice(sig, 32 + 576 * i, 576)); t1[i] = unpackT("t1", slice(pk, 32 + 320 * i, 320)); hint[i] = app("HintDec", PB, {mkSeq(slice(sig, 2336, 84)), mkConst(8, i)}); }
    T canon = mkCustom("CanonicalHint", 0, 1, {mkSeq(slice(sig, 2336, 84))});
    E.models[P + "unpack_sig"] = [=](CallCtx &x) { Outcomes o; State s = x.st; TV in = rd(x, s, 3, 2420); wr(x, s, 0, slice(in, 0, 32)); TV zb, hb; for (u64 i = 0; i < 4; i++) zb = cat(zb, unpackT("z", slice(in, 32 + 576 * i, 576))); for (u64 i = 0; i < 4; i++) hb = cat(hb, app("HintDec", PB, {mkSeq(slice(in, 2336, 84)), mkConst(8, i)})); State f = s; wr(x, s, 1, zb); wr(x, s, 2, hb); s.addFact(mkCustom("CanonicalHint", 0, 1, {mkSeq(slice(in, 2336, 84))})); mark(s, x, 1); mark(f, x, 0);
      x.E.havoc(f, x.args[1], C64(4096), "undecoded"); x.E.havoc(f, x.args[2], C64(4096), "undecoded"); o.push_back({s, mkConst(32, 0), nullptr}); o.push_back({f, mkConst(32, 1), nullptr}); return o; };
    if (!h.go(R)) return;
    // reference
    TV mu = xof("shake256", 64, cat(xof("shake256", 64, pk), {mkCustom("Range", 0, 0, {mkLeaf("m", 0, 8), C64(0), mlen})})); TV cb = slice(sig, 0, 32); Poly cp = un("ntt", app("challenge", PB, {mkSeq(cb)})); auto A = matrix(slice(pk, 0, 32)); std::vector<Poly> zn; for (auto &p : z) zn.push_back(un("ntt", p)); TV packed;
    for (int i = 0; i < 4; i++) { Poly w = bin("sub", rowMul(A[i], zn), bin("pointwise_montgomery", cp, un("ntt", un("shiftl", t1[i])), true)); w = un("caddq", un("invntt_tomont", un("reduce", w))); packed = cat(packed, app("w1_pack", 192, {mkSeq(bin("use_hint", w, hint[i]))})); }
    TV c2 = xof("shake256", 32, cat(mu, packed)); bool acc = false;
    for (auto &o : h.outs) { if (!mayBeZero(E, o.ret, o.st)) { R.ok("rejecting_exits"); continue; } acc = true; R.ok("accepting_exits");
      R.oblig(E.equal(slen, C64(2420), o.st), "C14:length", h.where(o), "Dilithium verification can succeed for a signature length other than 2420", E.path(o.st));
      R.oblig(o.st.has(canon), "C14:hint-gate", h.where(o), "Dilithium verification can succeed although decoding of the signature did not succeed", E.path(o.st));
      for (int i = 0; i < 4; i++) R.oblig(normAtMost(o.st, G1B, z[i]), "C14:norm-gate", h.where(o), "Dilithium verification can succeed without polynomial " + std::to_string(i) + " of the response passing the norm bound " + std::to_string(G1B), E.path(o.st));
      for (int i = 0; i < 32; i++) { bool g = E.equal(cb[i], c2[i], o.st); std::string got; if (!g) { for (T f : *o.st.facts) if (f->k == TK::Op && f->op == O_EQ && (f->a[0] == cb[i] || f->a[1] == cb[i])) { T y = f->a[0] == cb[i] ? f->a[1] : f->a[0]; got = "compared with " + show(y, 2); if (isCustom(y, "XOF:shake256") && y->a[1]->k == TK::Seq) { TV want = cat(mu, packed); const TV &have = y->a[1]->a; got += "; hash input: " + diffAt(have, want); } } if (got.empty()) got = "never compared"; }
        R.oblig(g, "C14:challenge", h.where(o), "on a path to success challenge byte " + std::to_string(i) + " is not known to equal the hash of message, public key and reconstructed commitment (" + got + ")", E.path(o.st)); } }
    for (auto &f : h.lc.bad) R.bad("C14:hash-use:" + f.where, f.where, f.what, f.path);
    memObligations(E, R, "C14:mem", h.name); if (!acc) R.ok("no_accepting_exit"); R.sample("accept => siglen == 2420, hint canonical, |z_i| < 130994 (4 polys), c[i] == shake256(mu || pack_w1(use_hint(A z - c t1 2^13, h)))[i] for 32 bytes"); R.ok("verifiers"); });
  // 2. decoding: values and canonical form
  auto decode = [&c](Run &h) { h.E.weakLimit = 0; h.E.partBudget = 400; h.E.checkBounds = false; installPoly(h.E); h.args = {h.buf("c", 32, true), h.buf("z", 4096, true), h.buf("h", 4096, true), h.buf("sig", 2420, false)}; h.E.wreg(h.s0, h.reg["h"]).sink = true; };
  auto hb = [](u64 j) { return mkLeaf("sig", 2336 + j, 8); };
  struct V { std::string what; std::function<void(Engine &, State &)> assume; }; std::vector<V> vs;
  for (u64 i = 0; i < 4; i++) { vs.push_back({"hint count " + std::to_string(i) + " exceeds 80", [=](Engine &E, State &s) { E.assume(mkCmp(O_ULT, mkConst(8, 80), hb(80 + i)), true, s); }}); if (i) vs.push_back({"hint count " + std::to_string(i) + " is below its predecessor", [=](Engine &E, State &s) { E.assume(mkCmp(O_ULT, hb(80 + i), hb(80 + i - 1)), true, s); }}); }
  for (size_t b = 0; b < vs.size(); b += 8) { std::vector<V> sub(vs.begin() + b, vs.begin() + std::min(vs.size(), b + 8)); jobs.push_back([=, &c](Report &R) { for (auto &v : sub) { Run h(c.M, P + "unpack_sig"); decode(h); v.assume(h.E, h.s0); if (!h.go(R)) return; R.ok("decoding_cases");
      for (auto &o : h.outs) R.oblig(!mayBeZero(h.E, o.ret, o.st), "C14:canonical:" + v.what.substr(0, v.what.find_first_of("0123456789")), h.where(o), "decoding may accept a signature in which " + v.what, h.E.path(o.st)); } }); }
  // order and padding: with the two counts delimiting polynomial i known (a, b) and all other bytes arbitrary,
  // every accepting exit has established the order of all indices in between; with the last count known, that the rest is zero
  std::vector<std::array<u64, 3>> ps; for (u64 i = 0; i < 4; i++) for (u64 a = 0; a <= (i ? 78 : 0); a++) for (u64 b = a + 2; b <= 80; b++) if (c.thorough || a < 3 || a == 39 || a > 76 || b == a + 2 || b > 78) ps.push_back({i, a, b}); for (u64 b = 0; b < 80; b++) ps.push_back({4, 0, b});
  for (size_t q = 0; q < ps.size(); q += 60) { std::vector<std::array<u64, 3>> sub(ps.begin() + q, ps.begin() + std::min(ps.size(), q + 60)); jobs.push_back([=, &c](Report &R) { for (auto &x : sub) { u64 i = x[0], a = x[1], b = x[2]; Run h(c.M, P + "unpack_sig"); decode(h); Engine &E = h.E;
      auto set = [&](u64 j, u64 v) { E.storeBytes(h.s0, h.reg["sig"], 2336 + j, mkConst(8, v), 1); }; if (i < 4) { if (i) set(80 + i - 1, a); set(80 + i, b); } else set(83, b); if (!h.go(R)) return; R.ok("decoding_cases");
      for (auto &o : h.outs) { if (!mayBeZero(E, o.ret, o.st)) continue;
        if (i < 4) for (u64 j = a + 1; j < b; j++) R.oblig(E.triCond(mkCmp(O_ULE, hb(j), hb(j - 1)), o.st) == 0, "C14:hint-order", h.where(o), "decoding may accept a signature in which hint index " + std::to_string(j) + " of polynomial " + std::to_string(i) + " (indices " + std::to_string(a) + ".." + std::to_string(b - 1) + ") does not exceed its predecessor", E.path(o.st));
        else for (u64 j = b; j < 80; j++) R.oblig(E.triCond(mkCmp(O_EQ, hb(j), mkConst(8, 0)), o.st) == 1, "C14:hint-padding", h.where(o), "decoding may accept a signature with " + std::to_string(b) + " hints whose unused position " + std::to_string(j) + " is non-zero", E.path(o.st)); } } }); }
  jobs.push_back([=, &c](Report &R) { Run h(c.M, P + "unpack_sig"); decode(h); if (!h.go(R)) return; TV sig = leafSeq("sig", 0, 2420); u64 okx = 0;
    for (auto &o : h.outs) { if (!mayBeZero(h.E, o.ret, o.st)) continue; okx++; TV cc = h.E.readSeq(o.st, h.args[0], 32); R.oblig(cc == slice(sig, 0, 32), "C14:decode-c", h.where(o), "the decoded challenge is not the first 32 signature bytes: " + diffAt(cc, slice(sig, 0, 32))); TV zz = h.E.readSeq(o.st, h.args[1], 4096), w; for (u64 i = 0; i < 4; i++) w = cat(w, unpackT("z", slice(sig, 32 + 576 * i, 576))); R.oblig(zz == w, "C14:decode-z", h.where(o), "the decoded response is not the four packed polynomials: " + diffAt(zz, w)); } R.ok("decoder_accepts", okx); });
  // 3. decoded hint positions for representative canonical encodings
  jobs.push_back([=, &c](Report &R) { std::vector<std::vector<std::vector<u64>>> pats{{{}, {}, {}, {}}, {{0, 255}, {7}, {}, {1, 2, 3}}, {{}, {}, {}, {}}, {{5}, {}, {250, 251}, {}}}; pats[2][3].clear(); for (u64 i = 0; i < 80; i++) pats[2][3].push_back(3 * i); std::vector<u64> full; for (u64 i = 0; i < 80; i++) full.push_back(2 * i + 90); pats.push_back({full, {}, {}, {}});
    for (auto &p : pats) { Run h(c.M, P + "unpack_sig"); decode(h); h.E.weakLimit = 8192; h.E.wreg(h.s0, h.reg["h"]).sink = false; std::vector<u64> idx; for (u64 i = 0; i < 4; i++) { for (u64 x : p[i]) idx.push_back(x); h.E.storeBytes(h.s0, h.reg["sig"], 2336 + 80 + i, mkConst(8, idx.size()), 1); } for (u64 j = 0; j < 80; j++) h.E.storeBytes(h.s0, h.reg["sig"], 2336 + j, mkConst(8, j < idx.size() ? idx[j] : 0), 1);
      if (!h.go(R)) return; for (auto &o : h.outs) { R.oblig(mustBeZero(h.E, o.ret, o.st), "C14:decode-canonical", h.where(o), "decoding rejects a canonical hint"); bool g = true; for (u64 i = 0; i < 4 && g; i++) for (u64 j = 0; j < 256; j++) { bool set = std::find(p[i].begin(), p[i].end(), j) != p[i].end(); if (!isC(h.E.loadBytes(o.st, h.reg["h"], 1024 * i + 4 * j, 4), set)) g = false; } R.oblig(g, "C14:decode-hint", h.where(o), "the decoded hint polynomials do not have ones exactly at the encoded indices"); } R.ok("decoding_cases"); } });
  normJobs(c, jobs, "C14", {G1B}); roundingJobs(c, jobs, "C14", true, false); samplerJobs(c, jobs, "C14", {"challenge", "uniform"}); dilExact(c, jobs, "C14", {"t1_unpack", "z_unpack", "w1_pack", "add", "sub", "pointwise_montgomery", "reduce", "caddq", "shiftl", "ntt", "invntt_tomont", "use_hint", "uniform", "challenge"});
  runJobs(jobs, R);
  if (R.broken.empty() && R.v.empty() && (R.cnt["verifiers"] != 1 || R.cnt["accepting_exits"] < 1 || R.cnt["decoding_cases"] < 400 || R.cnt["norm_cases"] < 512)) R.fail("rule instances below the confirmed count");
}
static Reg r14("C14", C14);

static void findApp(T t, const std::string &f, std::set<T> &out, std::unordered_set<T> &seen) { if (!seen.insert(t).second) return; if (isCustom(t, f)) { out.insert(t); return; } for (T x : t->a) findApp(x, f, out, seen); }
static void C18(Ctx &c, Report &R) {
  for (const char *n : {"crypto_sign_signature", "poly_chknorm", "poly_uniform_gamma1", "polyz_pack", "poly_make_hint", "pack_sig"}) if (!c.M.getFunction(P + n)) { R.fail("anchor vanished: " + P + n); return; }
  std::vector<Job> jobs; const u64 SK = 2560;
  auto setup = [=](Run &h, T mlen) { h.E.assume(mkCmp(O_ULT, mlen, C64(1ull << 60)), true, h.s0); h.args = {h.buf("sig", 2420, true), h.buf("siglen", 8, true), h.buf("m", mlen, false), mlen, h.buf("sk", SK, false)}; installRandom(h.E, false); };
  // 1. what is released, for the first attempts and for an arbitrary later one
  jobs.push_back([=, &c](Report &R) {
    Run h(c.M, P + "crypto_sign_signature"); Engine &E = h.E; installSponge(E, &h.lc); installPoly(E); E.softLimit = 3; T mlen = mkLeaf("mlen", 0, 64); setup(h, mlen); ghost(E, h.s0, "attempt", 0);
    Model g1 = E.models[P + "poly_uniform_gamma1"]; E.models[P + "poly_uniform_gamma1"] = [=](CallCtx &x) { u64 a = ghostGet(x.E, x.st, "attempt"); if (a != ~0ull) ghostSet(x.E, x.st, "attempt", a + 1); return g1(x); };
    E.models[P + "pack_sig"] = [=](CallCtx &x) { State s = x.st; TV cb = rd(x, s, 1, 32), z = rd(x, s, 2, 4096), hh = rd(x, s, 3, 4096), out = cb; for (u64 i = 0; i < 4; i++) out = cat(out, app("z_pack", 576, {mkSeq(slice(z, PB * i, PB))})); out = cat(out, app("HintPack", 84, {mkSeq(slice(hh, 0, PB)), mkSeq(slice(hh, PB, PB)), mkSeq(slice(hh, 2 * PB, PB)), mkSeq(slice(hh, 3 * PB, PB))})); wr(x, s, 0, out); return one(s); };
    if (!h.go(R)) return; TV sk = leafSeq("sk", 0, SK); std::vector<Poly> s1(4), s2(4), t0(4); for (u64 i = 0; i < 4; i++) { s1[i] = un("ntt", unpackT("eta", slice(sk, 128 + 96 * i, 96))); s2[i] = un("ntt", unpackT("eta", slice(sk, 512 + 96 * i, 96))); t0[i] = un("ntt", unpackT("t0", slice(sk, 896 + 416 * i, 416))); }
    TV tr = slice(sk, 64, 64); T rng = mkCustom("Range", 0, 0, {mkLeaf("m", 0, 8), C64(0), mlen}); TV mu = xof("shake256", 64, cat(tr, {rng})); auto A = matrix(slice(sk, 0, 32));
    for (auto &o : h.outs) { if (!mayBeZero(E, o.ret, o.st)) { R.ok("failing_exits"); continue; } R.ok("releasing_exits"); auto pth = E.path(o.st); auto B = [&](bool g, const std::string &k, const std::string &w) { R.oblig(g, "C18:" + k, h.where(o), w, pth); };
      TV sg = E.readSeq(o.st, h.args[0], 2420); TV cb = slice(sg, 0, 32); std::vector<Poly> z(4), hp(4), y(4); bool shape = true; for (u64 i = 0; i < 4; i++) { TV p = slice(sg, 32 + 576 * i, 576); if (!isCustom(p[0], "z_pack")) { shape = false; break; } z[i] = p[0]->a[1]->a; if (p != app("z_pack", 576, {mkSeq(z[i])})) shape = false; }
      if (shape) { TV hb = slice(sg, 2336, 84); if (!isCustom(hb[0], "HintPack")) shape = false; else { for (u64 i = 0; i < 4; i++) hp[i] = hb[0]->a[1 + i]->a; if (hb != app("HintPack", 84, {mkSeq(hp[0]), mkSeq(hp[1]), mkSeq(hp[2]), mkSeq(hp[3])})) shape = false; } }
      B(shape, "layout", "a released signature does not consist of challenge, packed response and packed hints of one attempt"); if (!shape) continue;
      B(E.equal(E.loadBytes(o.st, h.reg["siglen"], 0, 8), C64(2420), o.st), "length", "a released signature is not reported with length 2420");
      T nonce0 = nullptr; bool one_ = true; for (u64 i = 0; i < 4 && one_; i++) { std::set<T> ys; std::unordered_set<T> seen; for (T b : z[i]) { if (isCustom(b, "reduce") || true) findApp(b, "uniform_gamma1", ys, seen); break; } std::set<std::pair<T, T>> ids; for (T t : ys) ids.insert({t->a[1], t->a[2]}); std::vector<std::pair<T, T>> own; Poly cs1 = un("invntt_tomont", bin("pointwise_montgomery", un("ntt", app("challenge", PB, {mkSeq(cb)})), s1[i], true)); for (auto &id : ids) { Poly yy = app("uniform_gamma1", PB, {id.first, id.second}); if (un("reduce", bin("add", cs1, yy, true)) == z[i]) { own.push_back(id); y[i] = yy; } } if (own.size() != 1) { one_ = false; break; }
        T seed = own[0].first, n = own[0].second; if (!i) nonce0 = n; else B(n == mkAdd(nonce0, mkConst(16, i)) || mkSub(n, nonce0) == mkConst(16, i), "mask-index", "masking polynomial " + std::to_string(i) + " does not use the attempt's nonce plus " + std::to_string(i) + " (uses " + show(n, 3) + ", first uses " + show(nonce0, 3) + ")");
        // seed = XOF of data containing the 32-byte key of the secret key and the 64-byte message digest
        bool sok = seed->k == TK::Seq && seed->a.size() == 64 && isCustom(seed->a[0], "XOF:shake256"); if (sok) { T in = seed->a[0]->a[1]; for (u64 q = 0; q < 64; q++) if (!isCustom(seed->a[q], "XOF:shake256") || seed->a[q]->a[1] != in || seed->a[q]->c != q) sok = false; std::set<T> el(in->a.begin(), in->a.end()); for (u64 q = 0; q < 32; q++) if (!el.count(mkLeaf("sk", 32 + q, 8))) sok = false; for (T m : mu) if (!el.count(m)) sok = false; }
        B(sok, "mask-seed", "the masking vector is not expanded from a hash of the secret-key seed (bytes 32..63) and the digest of the key hash and the complete message"); }
      B(one_, "response", "the released response is not reduce(c*s1 + y) for the masking vector of one attempt and the released challenge"); if (!one_) continue;
      std::vector<Poly> yn; for (auto &p : y) yn.push_back(un("ntt", p)); Poly cp = un("ntt", app("challenge", PB, {mkSeq(cb)})); TV packed; std::vector<Poly> w1(4), w0(4);
      for (int i = 0; i < 4; i++) { Poly w = un("caddq", un("invntt_tomont", un("reduce", rowMul(A[i], yn)))); w1[i] = un("decompose.hi", w); w0[i] = un("decompose.lo", w); packed = cat(packed, app("w1_pack", 192, {mkSeq(w1[i])})); }
      B(cb == xof("shake256", 32, cat(mu, packed)), "challenge", "the released challenge is not the hash of the message digest and this attempt's commitment: " + diffAt(cb, xof("shake256", 32, cat(mu, packed)))); T cnt = mkConst(32, 0);
      for (int i = 0; i < 4; i++) { std::string I = std::to_string(i); Poly r0 = un("reduce", bin("sub", w0[i], un("invntt_tomont", bin("pointwise_montgomery", cp, s2[i], true)))), ct = un("reduce", un("invntt_tomont", bin("pointwise_montgomery", cp, t0[i], true))), hh = bin("make_hint", bin("add", r0, ct, true), w1[i]);
        B(normAtMost(o.st, G1B, z[i]), "response-norm", "a signature can be released although response polynomial " + I + " of that attempt did not pass the bound " + std::to_string(G1B));
        B(normAtMost(o.st, G2B, r0), "low-bits-norm", "a signature can be released although the low bits of commitment polynomial " + I + " of that attempt did not pass the bound " + std::to_string(G2B));
        B(normAtMost(o.st, G2, ct), "hint-norm", "a signature can be released although c*t0 polynomial " + I + " of that attempt did not pass the bound " + std::to_string(G2));
        B(hp[i] == hh, "hint", "the released hint polynomial " + I + " is not that of this attempt"); cnt = mkAdd(cnt, mkCustom("ones", 0, 32, {mkSeq(hp[i])})); }
      B(E.eval(cnt, o.st).hi <= 80, "hint-count", "a signature can be released with more than 80 hints (count known to be at most " + std::to_string(E.eval(cnt, o.st).hi) + ")"); }
    for (auto &f : h.lc.bad) R.bad("C18:hash-use:" + f.where, f.where, f.what, f.path);
    R.sample("release => |z_i|<130994, |w0_i - c s2_i|<95154, |c t0_i|<95232 (all i), hints<=80, z = c s1 + y(attempt)"); R.ok("signers"); });
  // 2. the attempt counter advances on every way back to a new attempt
  jobs.push_back([=, &c](Report &R) {
    Run h(c.M, P + "crypto_sign_signature"); Engine &E = h.E; installSponge(E, nullptr, true); installPoly(E, true); E.softLimit = c.thorough ? 1000 : 300; E.checkBounds = false; E.weakLimit = 0; T mlen = mkLeaf("mlen", 0, 64); setup(h, mlen); ghost(E, h.s0, "last", 0); u64 calls = 0, sym = 0; bool bad = false; std::string where, what; std::vector<std::string> path;
    for (std::string n : {"pack_sig", "unpack_sk"}) E.models[P + n] = [](CallCtx &x) { State s = x.st; for (T a : x.args) if (a->k == TK::Ptr && x.E.rreg(s, (int)a->c)->writable) x.E.havocRegion(s, (int)a->c); return one(s); };
    E.models[P + "poly_uniform_gamma1"] = [&](CallCtx &x) { State s = x.st; calls++; u64 n, last = ghostGet(x.E, s, "last"); if (x.E.constOf(x.args[2], s, n)) { if (last != ~0ull && n + 1 <= last && !bad) { bad = true; where = x.E.loc(x.cb); what = "a masking polynomial is drawn with nonce " + std::to_string(n) + " although nonce " + std::to_string(last - 1) + " was used before in the same signing call"; path = x.E.path(s); } ghostSet(x.E, s, "last", n + 1); } else { sym++; } if (x.args[0]->k == TK::Ptr) x.E.havocRegion(s, (int)x.args[0]->c); return one(s); };
    if (!h.go(R)) return; R.oblig(!bad && calls, "C18:nonce", where.empty() ? h.name : where, what.empty() ? "no masking polynomial drawn" : what, path); R.ok("mask_draws", calls); R.ok("mask_draws_general", sym); });
  // 3. encoding of the released signature
  jobs.push_back([=, &c](Report &R) { std::vector<std::vector<std::vector<u64>>> pats{{{}, {}, {}, {}}, {{0, 255}, {7}, {}, {1, 2, 3}}, {{5}, {}, {250, 251}, {}}}; std::vector<u64> full; for (u64 i = 0; i < 80; i++) full.push_back(3 * i + 1); pats.push_back({{}, {}, {}, full}); pats.push_back({full, {}, {}, {}});
    for (auto &p : pats) { Run h(c.M, P + "pack_sig"); installPoly(h.E); h.args = {h.buf("sig", 2420, true), h.buf("c", 32, false), h.buf("z", 4096, false), h.buf("h", 4096, false)}; for (u64 i = 0; i < 4; i++) for (u64 j = 0; j < 256; j++) h.E.storeBytes(h.s0, h.reg["h"], 1024 * i + 4 * j, mkConst(32, std::find(p[i].begin(), p[i].end(), j) != p[i].end()), 4); if (!h.go(R)) return; TV zl = leafSeq("z", 0, 4096), want = leafSeq("c", 0, 32), idx, cnt; for (u64 i = 0; i < 4; i++) want = cat(want, app("z_pack", 576, {mkSeq(slice(zl, PB * i, PB))})); for (u64 i = 0; i < 4; i++) { for (u64 x : p[i]) idx.push_back(mkConst(8, x)); cnt.push_back(mkConst(8, idx.size())); } while (idx.size() < 80) idx.push_back(mkConst(8, 0)); want = cat(cat(want, idx), cnt);
      for (auto &o : h.outs) { TV g = h.E.readSeq(o.st, h.args[0], 2420); R.oblig(g == want, "C18:encoding", h.where(o), "the packed signature is not challenge, response, hint indices and counts: " + diffAt(g, want)); } memObligations(h.E, R, "C18:mem", h.name); R.ok("encodings"); } });
  normJobs(c, jobs, "C18", {G1B, G2B, G2}); roundingJobs(c, jobs, "C18", false, true); samplerJobs(c, jobs, "C18", {"challenge", "uniform", "uniform_gamma1"}); dilExact(c, jobs, "C18", {"eta_unpack", "t0_unpack", "z_pack", "w1_pack", "add", "sub", "pointwise_montgomery", "reduce", "caddq", "ntt", "invntt_tomont", "decompose", "make_hint", "uniform", "uniform_gamma1", "challenge"});
  runJobs(jobs, R);
  if (R.broken.empty() && R.v.empty() && (R.cnt["signers"] != 1 || R.cnt["releasing_exits"] < 3 || R.cnt["norm_cases"] < 1536 || R.cnt["mask_draws"] < 400)) R.fail("rule instances below the confirmed count");
}
static Reg r18("C18", C18);
} // namespace pq
