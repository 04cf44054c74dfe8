// Properties of the hybrid layer (hybrid-dilithium-sphincs/hybrid.c and what it reaches).
#include "checks.h"
using namespace llvm;
namespace pq {
static const std::string P = "crypto_sign_dilithium_ed25519_sphincs", CP = "crypto_sign_compact_dilithium_ed25519_sphincs";
static const std::string VF = "crypto_verify_dilithium_ed25519_sphincs", VC = "crypto_verify_compact_dilithium_ed25519_sphincs", VD = "crypto_verify_dilithium";
static const u64 PK = 1408, SK = 4064, ED_SIG = 64, DIL_SIG = 2420, SPH_SIG = 49856, NONCE = 40;
static u64 fullLen(u64 k) { return 2 + ED_SIG + k + DIL_SIG + SPH_SIG; }
static u64 compLen(u64 k) { return 2 + ED_SIG + DIL_SIG + NONCE + k; }

struct HRun {
  Engine E; State s0; TV args; const Function *F; Outcomes outs; std::string name; std::map<std::string, int> reg; T smlen = nullptr, mlen = nullptr; Lifecycle lc;
  HRun(Module &M, const std::string &fn, const ModelOpts &mo = {}) : E(M), name(fn) { F = E.fn(fn); installPrimitives(E, mo); installRandom(E, mo.randFails); installSponge(E, &lc); ghost(E, s0, "rfail", 0); ghost(E, s0, "draws", 0); ghost(E, s0, "sfail", 0); }
  T buf(const std::string &n, T size, bool wr) { int r = E.newRegion(s0, n, size, Def::Init, wr); reg[n] = r; return E.ptrTo(r); }
  T buf(const std::string &n, u64 size, bool wr) { return buf(n, mkConst(64, size), wr); }
  T ptr(const std::string &n) { return E.ptrTo(reg[n]); }
  bool go(Report &R) {
    if (!F || F->isDeclaration()) { R.fail("entry point " + name + " not found"); return false; }
    if (F->arg_size() != args.size()) { R.fail("entry point " + name + " has an unexpected signature"); return false; }
    outs = E.run(F, args, s0); noteEngine(E, R); if (!E.broken.empty()) { R.fail(name + ": " + E.broken); return false; }
    R.ok("runs"); R.ok("outcomes", outs.size()); return true;
  }
};
// entry set-ups ------------------------------------------------------------------------------
static void setSign(HRun &h, bool full, u64 k) { h.args = {h.buf("sm", full ? fullLen(k) : compLen(k), true), h.buf("smlen", 8, true), h.buf("m", k ? k : 1, false), mkConst(64, k), h.buf("sk", SK, false)}; }
// second byte of the signature fixed to [lo,hi]
static void smByte1(HRun &h, u64 lo, u64 hi) { T b = mkLeaf("sm", 1, 8); h.E.assume(mkCmp(O_ULE, mkConst(8, lo), b), true, h.s0); h.E.assume(mkCmp(O_ULE, b, mkConst(8, hi)), true, h.s0); }
static void setOpen(HRun &h, u64 lo, u64 hi) { h.smlen = mkLeaf("arg:smlen", 0, 64); h.args = {h.buf("m", 64, true), h.buf("mlen", 8, true), h.buf("sm", h.smlen, false), h.smlen, h.buf("pk", PK, false)}; smByte1(h, lo, hi); }
static void setVerify(HRun &h, u64 lo, u64 hi, u64 mlo, u64 mhi) { h.smlen = mkLeaf("arg:smlen", 0, 64); h.mlen = mlo == mhi ? mkConst(64, mlo) : mkLeaf("arg:mlen", 0, 64);
  h.args = {h.buf("m", h.mlen, false), h.mlen, h.buf("sm", h.smlen, false), h.smlen, h.buf("pk", PK, false)};
  if (mlo != mhi) { h.E.assume(mkCmp(O_ULE, mkConst(64, mlo), h.mlen), true, h.s0); h.E.assume(mkCmp(O_ULE, h.mlen, mkConst(64, mhi)), true, h.s0); }
  smByte1(h, lo, hi); }
struct Part { u64 lo, hi; };
static std::vector<Part> openParts() { std::vector<Part> v; v.push_back({0, 0}); for (u64 k = 1; k <= 64; k++) v.push_back({k, k}); v.push_back({65, 255}); return v; }
static std::string pstr(u64 a, u64 b) { return a == b ? std::to_string(a) : std::to_string(a) + ".." + std::to_string(b); }
static std::string whereOf(HRun &h, Outcome &o) { return o.at ? h.E.loc(o.at) : h.name; }

static TV smMsg(bool full, u64 k) { return leafSeq("sm", full ? 66 : 2526, k); }
static T compDigest(const TV &nonce, const TV &msg, const TV &spk) { TV d = nonce; d.insert(d.end(), msg.begin(), msg.end()); d.insert(d.end(), spk.begin(), spk.end()); return mkSeq(d); }
static TV hashBytes(T data) { TV v(64); for (u64 i = 0; i < 64; i++) v[i] = mkCustom("XOF:sha3_512", i, 8, {data}); return v; }

static bool missingPrims(Ctx &c, Report &R) {
  for (auto n : {"crypto_sign_ed25519_tweet_open", "crypto_sign_ed25519_tweet", "crypto_sign_ed25519_keypair_seed", "PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify", "PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature", "PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed",
                 "PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify", "PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature", "PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair", "randombytes", "sha3_512"})
    if (!c.M.getFunction(n)) { R.fail(std::string("anchor vanished: ") + n); return true; }
  return false;
}
// facts required of an accepting full-mode / compact-mode state
static void requireFacts(HRun &h, Outcome &o, bool full, u64 k, Report &R, const std::string &tag) {
  TV pk1 = leafSeq("pk", 0, 32), pk2 = leafSeq("pk", 32, 1312), pk3 = leafSeq("pk", 1344, 64); auto path = h.E.path(o.st);
  auto req = [&](T f, const char *alg, const std::string &over) { R.oblig(o.st.has(f), tag + ":" + alg, whereOf(h, o), h.name + " can report success although the " + alg + " component was not verified over " + over + " (message length " + std::to_string(k) + ")", path); };
  if (full) { TV m = smMsg(true, k);
    req(verifiedFact("ed", leafSeq("sm", 2, 64), m, pk1), "Ed25519", "the carried message with its own signature and key bytes");
    req(verifiedFact("dil", leafSeq("sm", 66 + k, DIL_SIG), m, pk2), "Dilithium", "the carried message with its own signature and key bytes");
    req(verifiedFact("sph", leafSeq("sm", 66 + k + DIL_SIG, SPH_SIG), m, pk3), "SPHINCS+", "the carried message with its own signature and key bytes");
  } else { TV hsh = hashBytes(compDigest(leafSeq("sm", 2486, NONCE), smMsg(false, k), pk3));
    req(verifiedFact("ed", leafSeq("sm", 2, 64), hsh, pk1), "Ed25519", "SHA3-512(nonce || message || SPHINCS+ public key)");
    req(verifiedFact("dil", leafSeq("sm", 66, DIL_SIG), hsh, pk2), "Dilithium", "SHA3-512(nonce || message || SPHINCS+ public key)"); }
}
static void requireMsg(HRun &h, Outcome &o, bool full, u64 k, Report &R, const std::string &tag) {
  TV want = smMsg(full, k), got = h.E.readSeq(o.st, h.E.ptrTo(h.reg["m"]), k); bool same = true; for (u64 i = 0; i < k; i++) if (!h.E.equal(got[i], want[i], o.st)) same = false;
  T l = h.E.loadBytes(o.st, h.reg["mlen"], 0, 8); u64 lv; bool lok = h.E.constOf(l, o.st, lv) && lv == k;
  R.oblig(same, tag + ":msg", whereOf(h, o), h.name + " can return a message other than the " + std::to_string(k) + "-byte message carried in (and verified by) the signature", h.E.path(o.st));
  R.oblig(lok, tag + ":mlen", whereOf(h, o), h.name + " can return a message length other than " + std::to_string(k), h.E.path(o.st));
}
static void acceptCheck(Ctx &c, Report &R, bool full, const std::string &id) {
  if (missingPrims(c, R)) return;
  std::vector<Job> jobs; std::string fo = full ? P + "_open" : CP + "_open", fv = full ? VF : VC;
  for (auto p : openParts()) {
    jobs.push_back([=, &c](Report &R) { HRun h(c.M, fo); setOpen(h, p.lo, p.hi); if (!h.go(R)) return; u64 acc = 0;
      for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { acc++; requireFacts(h, o, full, p.lo, R, id + ":" + fo); requireMsg(h, o, full, p.lo, R, id + ":" + fo); }
      R.ok("accepting_outcomes", acc); if (p.lo == p.hi && p.lo >= 1 && p.lo <= 64 && acc) R.ok("accepting_lengths"); R.sample(fo + " sm[1]=" + pstr(p.lo, p.hi) + ": " + std::to_string(h.outs.size()) + " exit states, " + std::to_string(acc) + " accepting, all with the required verification facts"); });
    if (p.lo >= 1 && p.hi <= 64) jobs.push_back([=, &c](Report &R) { HRun h(c.M, fv); setVerify(h, p.lo, p.hi, 1, 64); if (!h.go(R)) return; u64 acc = 0;
      for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { acc++; requireFacts(h, o, full, p.lo, R, id + ":" + fv); }
      R.ok("accepting_outcomes", acc); if (acc) R.ok("accepting_lengths_detached"); });
  }
  runJobs(jobs, R);
  if (R.broken.empty() && R.v.empty() && (R.cnt["accepting_lengths"] != 64 || R.cnt["accepting_lengths_detached"] != 64)) R.fail("rule instances below the confirmed count: accepting exits found for " + std::to_string(R.cnt["accepting_lengths"]) + "/64 lengths of open and " + std::to_string(R.cnt["accepting_lengths_detached"]) + "/64 of verify");
}
static void C01(Ctx &c, Report &R) { acceptCheck(c, R, true, "C01"); }
static void C02(Ctx &c, Report &R) { acceptCheck(c, R, false, "C02"); }
static Reg r01("C01", C01), r02("C02", C02);

// ---- C03 detached verification binds the exact message
static void C03(Ctx &c, Report &R) {
  if (missingPrims(c, R)) return; std::vector<Job> jobs;
  for (bool full : {true, false}) for (u64 k = 1; k <= 64; k++) {
    struct MP { u64 lo, hi; bool may; }; std::vector<MP> mp; mp.push_back({k, k, true}); if (k > 1) mp.push_back({1, k - 1, false}); if (k < 64) mp.push_back({k + 1, 64, false}); mp.push_back({65, ~0ull >> 1, false});
    for (auto q : mp) jobs.push_back([=, &c](Report &R) { std::string fn = full ? VF : VC; HRun h(c.M, fn); setVerify(h, k, k, q.lo, q.hi); if (!h.go(R)) return; bool any = false;
      for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { any = true; auto path = h.E.path(o.st); u64 v; bool lenok = h.E.constOf(h.mlen, o.st, v) && v == k;
        R.oblig(lenok, "C03:" + fn + ":len", whereOf(h, o), fn + " can accept a supplied message whose length differs from the signed message of length " + std::to_string(k) + " (supplied length " + pstr(q.lo, q.hi) + ")", path);
        TV a = leafSeq("m", 0, k), b = smMsg(full, k); u64 i = 0; for (; i < k; i++) if (!h.E.equal(a[i], b[i], o.st)) break;
        if (lenok) R.oblig(i == k, "C03:" + fn + ":bytes", whereOf(h, o), fn + " can accept although byte " + std::to_string(i) + " of the supplied message was not compared with the signed message of length " + std::to_string(k), path); }
      if (q.may && any) R.ok("accepting_lengths"); });
  }
  for (u64 k = 1; k <= 64; k++) jobs.push_back([=, &c](Report &R) { HRun h(c.M, VD); h.smlen = mkLeaf("arg:smlen", 0, 64); h.args = {h.buf("m", k, false), mkConst(64, k), h.buf("sm", h.smlen, false), h.smlen, h.buf("pk", 1312, false)}; if (!h.go(R)) return;
    for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { R.ok("accepting_dilithium"); u64 v; bool l = h.E.constOf(h.smlen, o.st, v) && v == DIL_SIG;
      R.oblig(l && o.st.has(verifiedFact("dil", leafSeq("sm", 0, DIL_SIG), leafSeq("m", 0, k), leafSeq("pk", 0, 1312))), "C03:" + VD, whereOf(h, o), VD + " can report success without Dilithium having accepted exactly the supplied message, signature, length and key", h.E.path(o.st)); } });
  runJobs(jobs, R, 8);
  if (R.broken.empty() && R.v.empty() && (R.cnt["accepting_lengths"] != 128 || R.cnt["accepting_dilithium"] < 64)) R.fail("rule instances below the confirmed count");
}
static Reg r03("C03", C03);

// ---- C04 envelope
static void C04(Ctx &c, Report &R) {
  if (missingPrims(c, R)) return; std::vector<Job> jobs;
  for (bool full : {true, false}) for (bool det : {false, true}) for (auto p : openParts()) jobs.push_back([=, &c](Report &R) {
    std::string fn = det ? (full ? VF : VC) : (full ? P + "_open" : CP + "_open"); HRun h(c.M, fn); if (det) setVerify(h, p.lo, p.hi, 1, 64); else setOpen(h, p.lo, p.hi); if (!h.go(R)) return; bool any = false;
    for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { any = true; auto path = h.E.path(o.st); u64 id, l; T b0 = mkLeaf("sm", 0, 8);
      bool range = p.lo >= 1 && p.hi <= 64;
      R.oblig(range, "C04:" + fn + ":mlen", whereOf(h, o), fn + " can accept a signature whose message-length byte is " + pstr(p.lo, p.hi), path);
      R.oblig(h.E.constOf(b0, o.st, id) && id == (full ? 2u : 1u), "C04:" + fn + ":id", whereOf(h, o), fn + " can accept a signature whose identifier byte is not that of its own mode", path);
      u64 want = full ? fullLen(p.lo) : compLen(p.lo); bool lk = h.E.constOf(h.smlen, o.st, l); Itv iv = h.E.eval(h.smlen, o.st);
      if (range) R.oblig(lk && l == want, "C04:" + fn + ":total", whereOf(h, o), fn + " can accept a total length other than " + std::to_string(want) + " for message length " + std::to_string(p.lo) + " (lengths " + pstr(iv.lo, iv.hi) + " possible)", path); }
    if (any) R.ok("accepting_partitions"); R.sample(fn + " sm[1]=" + pstr(p.lo, p.hi) + (any ? ": accepts only the exact envelope" : ": no accepting exit")); });
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && R.cnt["accepting_partitions"] != 256) R.fail("rule instances below the confirmed count");
}
static Reg r04("C04", C04);

// ---- C05 memory safety of the hybrid layer
static void memJob(HRun &h, Report &R, const std::string &id) {
  u64 tot = 0, ok = 0; for (auto &kv : h.E.acc) { tot += kv.second.total; ok += kv.second.ok; } R.ok("obligations", tot); R.ok("discharged", ok); R.ok("access_sites", h.E.acc.size());
  for (auto &f : h.E.memFindings) R.bad(id + ":" + f.where + ":" + f.what.substr(0, 40), f.where, h.name + ": " + f.what, f.path);
}
static void C05(Ctx &c, Report &R) {
  if (missingPrims(c, R)) return; std::vector<Job> jobs;
  auto add = [&](const std::string &fn, std::function<void(HRun &)> set) { jobs.push_back([=, &c](Report &R) { HRun h(c.M, fn); set(h); if (!h.go(R)) return; memJob(h, R, "C05"); R.sample(fn + ": " + std::to_string(h.E.acc.size()) + " access sites in bounds"); }); };
  add(P + "_keypair_seed_expander", [](HRun &h) { h.args = {h.buf("seed", 96, false), h.buf("expandedSeed", 160, true)}; });
  add(P + "_keypair_seed", [](HRun &h) { h.args = {h.buf("pk", PK, true), h.buf("sk", SK, true), h.buf("seed", 160, false)}; });
  add(P + "_keypair", [](HRun &h) { h.args = {h.buf("pk", PK, true), h.buf("sk", SK, true)}; });
  for (bool full : {true, false}) {
    for (u64 k = 0; k <= 66; k++) add(full ? P : CP, [=](HRun &h) { setSign(h, full, k); });
    add(full ? P : CP, [=](HRun &h) { setSign(h, full, 64); T l = mkLeaf("arg:mlen", 0, 64); h.E.assume(mkCmp(O_ULT, mkConst(64, 64), l), true, h.s0); h.args[3] = l; });
    for (auto p : openParts()) { add(full ? P + "_open" : CP + "_open", [=](HRun &h) { setOpen(h, p.lo, p.hi); }); add(full ? VF : VC, [=](HRun &h) { setVerify(h, p.lo, p.hi, 1, 64); }); }
    add(full ? VF : VC, [=](HRun &h) { setVerify(h, 0, 255, 65, ~0ull >> 2); }); add(full ? VF : VC, [=](HRun &h) { setVerify(h, 0, 255, 0, 0); });
  }
  add(VD, [](HRun &h) { h.smlen = mkLeaf("arg:smlen", 0, 64); h.mlen = mkLeaf("arg:mlen", 0, 64); h.args = {h.buf("m", h.mlen, false), h.mlen, h.buf("sm", h.smlen, false), h.smlen, h.buf("pk", 1312, false)}; });
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && R.cnt["obligations"] < 100000) R.fail("rule instances below the confirmed count");
}
static Reg r05("C05", C05);

// ---- C06 / C27 round trip through key generation, signing and opening with ideal components
static void keyBytes(HRun &h, Outcome &o, const TV &seed, Report &R, const std::string &id) {
  auto sub = [&](size_t a, size_t n) { return TV(seed.begin() + a, seed.begin() + a + n); };
  T s1 = mkSeq(sub(0, 32)), s2 = mkSeq(sub(32, 32)), s3 = mkSeq(sub(64, 96)); auto path = h.E.path(o.st);
  auto cmp = [&](const char *rg, u64 off, const TV &w, const char *what) { TV g = h.E.readSeq(o.st, h.E.ptrTo(h.reg[rg], off), w.size()); u64 i = 0; for (; i < w.size(); i++) if (g[i] != w[i]) break; R.oblig(i == w.size(), id + ":" + h.name + ":" + what, whereOf(h, o), h.name + ": " + rg + " byte " + std::to_string(off + i) + " is not byte " + std::to_string(i) + " of the " + what + " derived from its part of the seed", path); };
  cmp("pk", 0, appSeq("edpk", 32, {s1}), "Ed25519 public key"); cmp("pk", 32, appSeq("dilpk", 1312, {s2}), "Dilithium public key"); cmp("pk", 1344, appSeq("sphpk", 64, {s3}), "SPHINCS+ public key");
  cmp("sk", 0, appSeq("edsk", 64, {s1}), "Ed25519 secret key"); cmp("sk", 64, appSeq("dilsk", 2560, {s2}), "Dilithium secret key"); cmp("sk", 2624, appSeq("dilpk", 1312, {s2}), "embedded Dilithium public key"); cmp("sk", 3936, appSeq("sphsk", 64, {s3}), "SPHINCS+ secret key"); cmp("sk", 4000, appSeq("sphpk", 64, {s3}), "SPHINCS+ public key inside the secret key");
}
static void C06(Ctx &c, Report &R) {
  if (missingPrims(c, R)) return; std::vector<Job> jobs;
  jobs.push_back([&](Report &R) { HRun h(c.M, P + "_keypair_seed"); h.args = {h.buf("pk", PK, true), h.buf("sk", SK, true), h.buf("seed", 160, true)}; if (!h.go(R)) return; for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { R.ok("success_exits"); keyBytes(h, o, leafSeq("seed", 0, 160), R, "C06"); } });
  jobs.push_back([&](Report &R) { HRun h(c.M, P + "_keypair"); h.args = {h.buf("pk", PK, true), h.buf("sk", SK, true)}; if (!h.go(R)) return;
    for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { R.ok("success_exits"); // recover the drawn seed from the Ed25519 public key, then require the whole layout
      T b = h.E.readSeq(o.st, h.E.ptrTo(h.reg["pk"]), 1)[0], d = h.E.readSeq(o.st, h.E.ptrTo(h.reg["pk"], 32), 1)[0], sp = h.E.readSeq(o.st, h.E.ptrTo(h.reg["pk"], 1344), 1)[0]; TV seed;
      bool ok = isCustom(b, "edpk") && isCustom(d, "dilpk") && isCustom(sp, "sphpk"); if (ok) { for (T t : {b, d, sp}) for (T x : t->a[1]->a) seed.push_back(x); ok = seed.size() == 160; }
      if (ok) keyBytes(h, o, seed, R, "C06"); else R.oblig(false, "C06:keypair:layout", whereOf(h, o), "keypair: the public key does not start its sections with the three component keys", h.E.path(o.st)); } });
  // reader side: signing and opening use exactly the documented slices
  for (bool full : {true, false}) for (u64 k : {1ull, 2ull, 31ull, 32ull, 33ull, 63ull, 64ull}) {
    jobs.push_back([=, &c](Report &R) { HRun h(c.M, full ? P : CP); setSign(h, full, k); if (!h.go(R)) return;
      for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { R.ok("success_exits"); auto path = h.E.path(o.st); T ed = h.E.readSeq(o.st, h.E.ptrTo(h.reg["sm"], 2), 1)[0], di = h.E.readSeq(o.st, h.E.ptrTo(h.reg["sm"], full ? 66 + k : 66), 1)[0];
        auto use = [&](T t, const char *f, u64 off, u64 n, const char *what) { bool g = isCustom(t, f) && t->a.size() == 3 && t->a[2] == mkSeq(leafSeq("sk", off, n)); R.oblig(g, "C06:" + h.name + ":" + what, whereOf(h, o), h.name + " does not sign with secret-key bytes [" + std::to_string(off) + "," + std::to_string(off + n) + ") for " + what, path); };
        use(ed, "edsig", 0, 64, "Ed25519"); use(di, "dilsig", 64, 2560, "Dilithium");
        if (full) use(h.E.readSeq(o.st, h.E.ptrTo(h.reg["sm"], 66 + k + DIL_SIG), 1)[0], "sphsig", 3936, 128, "SPHINCS+");
        else { bool g = false; if (isCustom(ed, "edsig") && ed->a[1]->a.size() == 64 && isCustom(ed->a[1]->a[0], "XOF:sha3_512")) { T d = ed->a[1]->a[0]->a[1]; if (d->a.size() == NONCE + k + 64) { g = true; for (u64 i = 0; i < 64; i++) if (d->a[NONCE + k + i] != mkLeaf("sk", 4000 + i, 8)) g = false; } } R.oblig(g, "C06:" + h.name + ":bound SPHINCS+ key", whereOf(h, o), h.name + " does not bind the SPHINCS+ public key stored in the last 64 secret-key bytes", path); } } });
    jobs.push_back([=, &c](Report &R) { std::string fn = full ? P + "_open" : CP + "_open"; HRun h(c.M, fn); setOpen(h, k, k); if (!h.go(R)) return; for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { R.ok("success_exits"); requireFacts(h, o, full, k, R, "C06:" + fn); } });
  }
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && R.cnt["success_exits"] < 30) R.fail("rule instances below the confirmed count");
}
static Reg r06("C06", C06);

static void C27(Ctx &c, Report &R) {
  if (missingPrims(c, R)) return; std::vector<Job> jobs;
  for (bool full : {true, false}) for (u64 k = 1; k <= 64; k++) jobs.push_back([=, &c](Report &R) {
    ModelOpts mo; mo.roundtrip = true; mo.randFails = false;
    HRun kg(c.M, P + "_keypair_seed", mo); kg.args = {kg.buf("pk", PK, true), kg.buf("sk", SK, true), kg.buf("seed", 160, true)}; if (!kg.go(R)) return;
    for (auto &ko : kg.outs) if (mayBeZero(kg.E, ko.ret, ko.st)) {
      TV pk = kg.E.readSeq(ko.st, kg.E.ptrTo(kg.reg["pk"]), PK), sk = kg.E.readSeq(ko.st, kg.E.ptrTo(kg.reg["sk"]), SK);
      HRun sg(c.M, full ? P : CP, mo); setSign(sg, full, k); sg.E.wreg(sg.s0, sg.reg["sk"]).writable = true; sg.E.writeSeq(sg.s0, sg.args[4], sk); sg.E.wreg(sg.s0, sg.reg["sk"]).writable = false; if (!sg.go(R)) return;
      for (auto &so : sg.outs) if (mayBeZero(sg.E, so.ret, so.st)) {
        u64 len; T lt = sg.E.loadBytes(so.st, sg.reg["smlen"], 0, 8); if (!sg.E.constOf(lt, so.st, len)) { R.oblig(false, "C27:" + sg.name + ":len", whereOf(sg, so), "signing does not report a definite signature length", sg.E.path(so.st)); continue; }
        TV sm = sg.E.readSeq(so.st, sg.E.ptrTo(sg.reg["sm"]), std::min<u64>(len, full ? fullLen(k) : compLen(k)));
        for (int det = 0; det < 2; det++) {
          std::string fn = det ? (full ? VF : VC) : (full ? P + "_open" : CP + "_open"); HRun op(c.M, fn, mo); T lc = mkConst(64, len);
          if (det) op.args = {op.buf("m", k, false), mkConst(64, k), op.buf("sm", len, false), lc, op.buf("pk", PK, false)}; else op.args = {op.buf("out", 64, true), op.buf("mlen", 8, true), op.buf("sm", len, false), lc, op.buf("pk", PK, false)};
          op.E.writeSeq(op.s0, op.ptr("sm"), sm); op.E.writeSeq(op.s0, op.ptr("pk"), pk); if (!op.go(R)) return;
          for (auto &o : op.outs) { R.ok("roundtrip_exits"); auto path = op.E.path(o.st); bool mism = false; for (T f : *o.st.facts) if (f->k == TK::Op && f->op == O_CUSTOM && internName(f->a[0]->op).rfind("#RtMismatch", 0) == 0) mism = true;
            R.oblig(mustBeZero(op.E, o.ret, o.st), "C27:" + fn + ":reject", whereOf(op, o), fn + " can reject a signature that signing produced for a message of " + std::to_string(k) + " bytes" + (mism ? " (a component is asked to verify something other than what was signed)" : ""), path);
            if (!det) { TV got = op.E.readSeq(o.st, op.args[0], k); T l = op.E.loadBytes(o.st, op.reg["mlen"], 0, 8); R.oblig(mkSeq(got) == mkSeq(leafSeq("m", 0, k)) && isC(l, k), "C27:" + fn + ":msg", whereOf(op, o), fn + " does not return the original message of " + std::to_string(k) + " bytes", path); } }
          if (op.outs.empty()) R.oblig(false, "C27:" + fn + ":noexit", fn, fn + " does not return for a well-formed signature"); R.ok("roundtrips"); }
        R.sample(std::string(full ? "full" : "compact") + " length " + std::to_string(k) + ": keygen -> sign -> open/verify accepted with message returned"); } } });
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && R.cnt["roundtrips"] < 256) R.fail("rule instances below the confirmed count: " + std::to_string(R.cnt["roundtrips"]) + " round trips");
}
static Reg r27("C27", C27);

// ---- C13 failing calls leave outputs alone, successful opens write exactly the message
static void C13(Ctx &c, Report &R) {
  if (missingPrims(c, R)) return; std::vector<Job> jobs;
  for (bool full : {true, false}) {
    for (auto p : openParts()) jobs.push_back([=, &c](Report &R) { std::string fn = full ? P + "_open" : CP + "_open"; HRun h(c.M, fn); setOpen(h, p.lo, p.hi); if (!h.go(R)) return;
      for (auto &o : h.outs) { auto path = h.E.path(o.st); bool z = mayBeZero(h.E, o.ret, o.st), nz = !mustBeZero(h.E, o.ret, o.st);
        if (nz) { R.ok("failing_exits"); R.oblig(untouched(h.E, o.st, h.reg["m"], 64) && untouched(h.E, o.st, h.reg["mlen"], 8), "C13:" + fn + ":fail", whereOf(h, o), fn + " can fail after having written to the caller's message buffer or length", path); }
        if (z) { R.ok("success_exits"); requireMsg(h, o, full, p.lo, R, "C13:" + fn); bool rest = true; for (u64 i = p.lo; i < 64; i++) if (h.E.readSeq(o.st, h.E.ptrTo(h.reg["m"], i), 1)[0] != mkLeaf("m", i, 8)) rest = false; R.oblig(rest, "C13:" + fn + ":beyond", whereOf(h, o), fn + " writes message-buffer bytes beyond the signed message of length " + std::to_string(p.lo), path); } } });
    for (u64 k = 0; k <= 65; k++) jobs.push_back([=, &c](Report &R) { HRun h(c.M, full ? P : CP); setSign(h, full, k); if (!h.go(R)) return;
      for (auto &o : h.outs) if (!mustBeZero(h.E, o.ret, o.st)) { R.ok("failing_exits"); R.oblig(untouched(h.E, o.st, h.reg["sm"], full ? fullLen(k) : compLen(k), true) && untouched(h.E, o.st, h.reg["smlen"], 8, true), "C13:" + h.name + ":fail", whereOf(h, o), h.name + " can fail after having written signature bytes or a signature length", h.E.path(o.st)); } });
  }
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && (R.cnt["failing_exits"] < 500 || R.cnt["success_exits"] != 128)) R.fail("rule instances below the confirmed count");
}
static Reg r13("C13", C13);

// the compact signer's nonce comes wholly from bytes the randomness source delivered (C07)
static bool hasRnd(T t, std::unordered_set<T> &seen) { if (t->k == TK::Leaf) return internName(t->op).rfind("rnd#", 0) == 0; if (!seen.insert(t).second) return false; for (T x : t->a) if (x && hasRnd(x, seen)) return true; return false; }
void nonceJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id) {
  for (u64 k = 1; k <= 64; k++) jobs.push_back([=, &c](Report &R) { if (missingPrims(c, R)) return; HRun h(c.M, CP); setSign(h, false, k); if (!h.go(R)) return;
    for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { TV g = h.E.readSeq(o.st, h.E.ptrTo(h.reg["sm"], 2486), NONCE); u64 i = 0; for (; i < NONCE; i++) { std::unordered_set<T> seen; if (!hasRnd(g[i], seen)) break; }
      R.oblig(i == NONCE, id + ":" + h.name + ":nonce", whereOf(h, o), h.name + " reports success for a signature whose nonce byte " + std::to_string(i) + " (message length " + std::to_string(k) + ") was not delivered by the randomness source", h.E.path(o.st)); R.ok("nonce_fills"); } });
}

// ---- C16 signature layout
static void C16(Ctx &c, Report &R) {
  if (missingPrims(c, R)) return; std::vector<Job> jobs;
  for (bool full : {true, false}) for (u64 k = 1; k <= 64; k++) jobs.push_back([=, &c](Report &R) { HRun h(c.M, full ? P : CP); setSign(h, full, k); if (!h.go(R)) return; std::string fn = h.name;
    for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { R.ok("success_exits"); auto path = h.E.path(o.st); u64 L = full ? fullLen(k) : compLen(k); TV g = h.E.readSeq(o.st, h.E.ptrTo(h.reg["sm"]), L), w; TV m = leafSeq("m", 0, k);
      w.push_back(mkConst(8, full ? 2 : 1)); w.push_back(mkConst(8, k)); auto cat = [&](const TV &x) { w.insert(w.end(), x.begin(), x.end()); };
      if (full) { cat(appSeq("edsig", 64, {mkSeq(m), mkSeq(leafSeq("sk", 0, 64))})); cat(m); cat(appSeq("dilsig", DIL_SIG, {mkSeq(m), mkSeq(leafSeq("sk", 64, 2560))})); cat(appSeq("sphsig", SPH_SIG, {mkSeq(m), mkSeq(leafSeq("sk", 3936, 128))})); }
      else { TV nonce(g.begin() + 2486, g.begin() + 2526); bool fresh = true; std::string nm; std::set<u64> pos; for (u64 i = 0; i < NONCE; i++) { T t = nonce[i]; if (t->k != TK::Leaf || internName(t->op).rfind("rnd#", 0) != 0) { fresh = false; break; } if (!pos.insert(((u64)t->op << 32) | t->c).second) fresh = false; }
        R.oblig(fresh, "C16:" + fn + ":nonce", whereOf(h, o), fn + " emits a nonce that is not 40 distinct freshly drawn random bytes", path);
        TV hs = hashBytes(compDigest(nonce, m, leafSeq("sk", 4000, 64))); cat(appSeq("edsig", 64, {mkSeq(hs), mkSeq(leafSeq("sk", 0, 64))})); cat(appSeq("dilsig", DIL_SIG, {mkSeq(hs), mkSeq(leafSeq("sk", 64, 2560))})); cat(nonce); cat(m); }
      u64 i = 0; for (; i < L; i++) if (g[i] != w[i] && !h.E.equal(g[i], w[i], o.st)) break;
      R.oblig(i == L, "C16:" + fn + ":layout", whereOf(h, o), fn + ": output byte " + std::to_string(i) + " for message length " + std::to_string(k) + " is not the documented field (found " + (i < L ? show(g[i], 2) : "") + ")", path);
      u64 lv; R.oblig(h.E.constOf(h.E.loadBytes(o.st, h.reg["smlen"], 0, 8), o.st, lv) && lv == L, "C16:" + fn + ":smlen", whereOf(h, o), fn + " does not report the documented total length " + std::to_string(L), path);
      R.oblig(ghostGet(h.E, o.st, "sfail") == 0, "C16:" + fn + ":signer", whereOf(h, o), fn + " can report success although a component signer failed", path); } });
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && R.cnt["success_exits"] < 128) R.fail("rule instances below the confirmed count");
}
static Reg r16("C16", C16);

// ---- C20 argument validation
static void C20(Ctx &c, Report &R) {
  if (missingPrims(c, R)) return; std::vector<Job> jobs;
  struct En { std::string fn; int kind; std::vector<int> ptr; };
  std::vector<En> es = {{P + "_keypair_seed_expander", 0, {0, 1}}, {P + "_keypair_seed", 1, {0, 1, 2}}, {P + "_keypair", 2, {0, 1}}, {P, 3, {0, 1, 2, 4}}, {CP, 4, {0, 1, 2, 4}}, {P + "_open", 5, {0, 1, 2, 4}}, {CP + "_open", 6, {0, 1, 2, 4}}, {VF, 7, {0, 2, 4}}, {VC, 8, {0, 2, 4}}, {VD, 9, {0, 2, 4}}};
  auto set = [](HRun &h, int kind) { switch (kind) {
    case 0: h.args = {h.buf("seed", 96, false), h.buf("expandedSeed", 160, true)}; break; case 1: h.args = {h.buf("pk", PK, true), h.buf("sk", SK, true), h.buf("seed", 160, true)}; break; case 2: h.args = {h.buf("pk", PK, true), h.buf("sk", SK, true)}; break;
    case 3: setSign(h, true, 32); break; case 4: setSign(h, false, 32); break; case 5: case 6: setOpen(h, 32, 32); break; case 7: case 8: setVerify(h, 32, 32, 32, 32); break;
    case 9: h.smlen = mkLeaf("arg:smlen", 0, 64); h.args = {h.buf("m", 32, false), mkConst(64, 32), h.buf("sm", h.smlen, false), h.smlen, h.buf("pk", 1312, false)}; break; } };
  auto judge = [](HRun &h, Report &R, const std::string &cond) {
    for (auto &o : h.outs) { auto path = h.E.path(o.st); R.oblig(!mayBeZero(h.E, o.ret, o.st), "C20:" + h.name + ":" + cond, whereOf(h, o), h.name + " can return success when " + cond, path);
      bool cl = true; for (auto &kv : h.reg) { const Region *r = h.E.rreg(o.st, kv.second); if (r && r->writable && !untouched(h.E, o.st, kv.second, r->constSize())) cl = false; } R.oblig(cl, "C20:" + h.name + ":" + cond + ":touch", whereOf(h, o), h.name + " writes to a caller buffer although " + cond, path); }
    R.oblig(h.E.memFindings.empty(), "C20:" + h.name + ":" + cond + ":deref", h.E.memFindings.empty() ? h.name : h.E.memFindings[0].where, h.name + " accesses memory invalidly when " + cond + (h.E.memFindings.empty() ? "" : ": " + h.E.memFindings[0].what), h.E.memFindings.empty() ? std::vector<std::string>{} : h.E.memFindings[0].path);
    if (h.outs.empty()) R.oblig(false, "C20:" + h.name + ":" + cond + ":noexit", h.name, h.name + " does not return when " + cond); };
  for (auto &e : es) {
    unsigned n = e.ptr.size();
    for (unsigned mask = 1; mask < (1u << n); mask++) jobs.push_back([=, &c](Report &R) { HRun h(c.M, e.fn); set(h, e.kind); std::string w; for (unsigned i = 0; i < n; i++) if (mask >> i & 1) { h.args[e.ptr[i]] = mkConst(64, 0); w += (w.empty() ? "" : ", ") + std::to_string(e.ptr[i] + 1); } if (!h.go(R)) return; R.ok("null_cases"); judge(h, R, "pointer argument " + w + " is null"); });
    if (e.kind == 3 || e.kind == 4 || e.kind >= 7) for (int big = 0; big < 2; big++) jobs.push_back([=, &c](Report &R) { HRun h(c.M, e.fn); set(h, e.kind); unsigned li = e.kind <= 4 ? 3 : 1; int mi = e.kind <= 4 ? 2 : 0;
      if (big) { T l = mkLeaf("arg:mlen", 0, 64); h.E.assume(mkCmp(O_ULT, mkConst(64, 64), l), true, h.s0); h.args[li] = l; h.args[mi] = h.buf("mbig", l, false); } else h.args[li] = mkConst(64, 0);
      if (!h.go(R)) return; R.ok("length_cases"); judge(h, R, big ? "the message length exceeds 64" : "the message length is zero"); });
  }
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && (R.cnt["null_cases"] < 90 || R.cnt["length_cases"] != 10)) R.fail("rule instances below the confirmed count: " + std::to_string(R.cnt["null_cases"]) + " null cases");
}
static Reg r20("C20", C20);
} // namespace pq
