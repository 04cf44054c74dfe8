// Properties that cut across the component schemes: randomness failures, wrappers, seed expansion,
// determinism, shared state, hash-context life cycle.
#include "checks.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InlineAsm.h"
using namespace llvm;
namespace pq {
static const std::string DIL = "PQCLEAN_DILITHIUM2_CLEAN_", SPX = "PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_";
bool Run::go(Report &R) {
  if (!F || F->isDeclaration()) { R.fail("entry point " + name + " not found"); return false; }
  if (F->arg_size() != args.size()) { R.fail("entry point " + name + " has an unexpected signature"); return false; }
  static bool tr = getenv("PQA_TRACE"); auto t0 = time(nullptr); if (tr) fprintf(stderr, "begin %s\n", name.c_str());
  outs = E.run(F, args, s0); if (tr) fprintf(stderr, "end %s %lds steps=%lu widen=%lu\n", name.c_str(), (long)(time(nullptr) - t0), E.steps, E.widenings); noteEngine(E, R); if (!E.broken.empty()) { R.fail(name + ": " + E.broken); return false; }
  R.ok("runs"); R.ok("outcomes", outs.size()); return true;
}
void memObligations(Engine &E, Report &R, const std::string &id, const std::string &name) {
  u64 tot = 0, ok = 0; for (auto &kv : E.acc) { tot += kv.second.total; ok += kv.second.ok; } R.ok("obligations", tot); R.ok("discharged", ok); R.ok("access_sites", E.acc.size());
  for (auto &f : E.memFindings) R.bad(id + ":" + f.where + ":" + f.what.substr(0, 40), f.where, name + ": " + f.what, f.path);
}
bool sameSeq(Engine &E, const TV &a, const TV &b, const State &s, u64 &d) { if (a.size() != b.size()) { d = std::min(a.size(), b.size()); return false; } for (d = 0; d < a.size(); d++) if (!E.equal(a[d], b[d], s)) return false; return true; }

// ---- call graph (indirect calls resolved to address-taken functions of the same type)
static std::map<const Function *, std::vector<std::pair<const Function *, const CallBase *>>> &callGraph(Module &M) {
  static std::map<const Function *, std::vector<std::pair<const Function *, const CallBase *>>> g; static bool done = false; if (done) return g; done = true;
  std::vector<const Function *> taken; for (auto &F : M) if (F.hasAddressTaken()) taken.push_back(&F);
  for (auto &F : M) for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) { auto *o = cb->getCalledOperand()->stripPointerCasts();
    if (auto *G = dyn_cast<Function>(o)) { if (!G->isIntrinsic()) g[&F].push_back({G, cb}); }
    else if (!isa<InlineAsm>(o)) for (auto *t : taken) if (t->getFunctionType() == cb->getFunctionType()) g[&F].push_back({t, cb}); }
  return g;
}
std::set<const Function *> reachableFrom(Module &M, const Function *F, std::map<const Function *, const CallBase *> *via) {
  auto &g = callGraph(M); std::set<const Function *> s{F}; std::vector<const Function *> w{F};
  while (!w.empty()) { auto *f = w.back(); w.pop_back(); for (auto &e : g[f]) if (s.insert(e.first).second) { if (via) (*via)[e.first] = e.second; w.push_back(e.first); } }
  return s;
}
static std::set<u64> lengthsOf(const Function &F, u64 top) { std::set<u64> r; for (auto &I : instructions(const_cast<Function &>(F))) for (auto &o : I.operands()) if (auto *C = dyn_cast<ConstantInt>(o)) if (C->getBitWidth() <= 64 && C->getBitWidth() > 8 && !I.isShift()) { u64 v = C->getZExtValue(); for (u64 x : {v - 1, v, v + 1}) if (v > 1 && x <= top) r.insert(x); } return r; }
// Boundary lengths read off the source: every constant that a comparison, mask, division, selection,
// addition or switch in a function reachable from the roots uses (and its neighbours), and the powers of two.
std::set<u64> sourceLengths(Module &M, const std::vector<std::string> &roots, u64 top, u64 low) {
  std::set<const Function *> fs; for (auto &r : roots) if (auto *F = M.getFunction(r)) for (auto *f : reachableFrom(M, F)) fs.insert(f); std::set<u64> out; auto add = [&](u64 v) { for (u64 x : {v - 1, v, v + 1}) if (x >= low && x <= top) out.insert(x); };
  for (unsigned b = 4; b < 40; b++) add(1ull << b);
  for (auto *F : fs) for (auto &I : instructions(const_cast<Function &>(*F))) { if (!isa<ICmpInst>(I) && !isa<BinaryOperator>(I) && !isa<SelectInst>(I) && !isa<SwitchInst>(I) && !isa<PHINode>(I) && !isa<CallBase>(I)) continue; if (I.isShift()) continue; for (auto &o : I.operands()) if (auto *C = dyn_cast<ConstantInt>(o)) if (C->getBitWidth() <= 64 && C->getBitWidth() > 8) { u64 v = C->getZExtValue(); if (v > 1 && v <= top + 1) add(v); } }
  return out;
}
std::set<const Function *> reaching(Module &M, const std::function<bool(const Function *)> &target) {
  auto &g = callGraph(M); std::set<const Function *> s; for (auto &F : M) if (target(&F)) s.insert(&F);
  bool ch = true; while (ch) { ch = false; for (auto &F : M) if (!s.count(&F)) for (auto &e : g[&F]) if (s.count(e.first)) { s.insert(&F); ch = true; break; } }
  return s;
}
static std::vector<std::string> viaPath(Engine &E, std::map<const Function *, const CallBase *> &via, const Function *f) { std::vector<std::string> p; while (via.count(f)) { p.push_back(E.loc(via[f]) + " calls " + f->getName().str()); f = via[f]->getFunction(); } std::reverse(p.begin(), p.end()); return p; }

// ---- C07 randomness failures
struct Ent { std::string fn; int kind; };   // 0 keypair(pk,sk) 1 sign(sm,len*,m,mlen,sk) 2 (buf,n)
static void C07(Ctx &c, Report &R) {
  auto rb = reaching(c.M, [](const Function *f) { return f->getName() == "randombytes"; }); if (rb.empty()) { R.fail("anchor vanished: randombytes"); return; }
  struct SeedUse { std::string fn; unsigned arg; u64 n; };
  static const std::vector<SeedUse> uses{{"crypto_sign_ed25519_keypair_seed", 2, 32}, {DIL + "crypto_sign_keypair_seed", 2, 32}, {SPX + "crypto_sign_seed_keypair", 2, 96}, {"crypto_sign_dilithium_ed25519_sphincs_keypair_seed", 2, 160}, {"crypto_scalarmult_curve25519_tweet_base", 1, 32}, {"PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_gen_message_random", 2, 32}};
  std::vector<Ent> es{{"crypto_sign_dilithium_ed25519_sphincs_keypair", 0}, {"crypto_sign_compact_dilithium_ed25519_sphincs", 1}, {"crypto_sign_dilithium_ed25519_sphincs", 1}, {DIL + "crypto_sign_keypair", 0}, {DIL + "crypto_sign_signature", 1}, {DIL + "crypto_sign", 1}, {SPX + "crypto_sign_keypair", 0}, {SPX + "crypto_sign_signature", 1}, {SPX + "crypto_sign", 1}, {"crypto_sign_ed25519_tweet_keypair", 0}, {"crypto_sign_ed25519_tweet", 1}, {"crypto_box_curve25519xsalsa20poly1305_tweet_keypair", 0}, {"dp_sign_keypair", 0}, {"dp_sign", 1}, {"dp_randombytes", 2}};
  std::vector<Job> jobs;
  for (auto &e : es) for (u64 k : e.kind == 1 ? std::vector<u64>{1, 17, 32, 64} : std::vector<u64>{32}) jobs.push_back([=, &c](Report &R) {
    Run h(c.M, e.fn); if (!h.F) { R.fail("entry point " + e.fn + " not found"); return; }
    if (!rb.count(h.F)) { R.ok("entries_without_randomness"); return; }
    installRandom(h.E, true); ghost(h.E, h.s0, "rfail", 0); ghost(h.E, h.s0, "draws", 0); h.E.checkBounds = false;
    h.E.isOpaque = [&](const Function *f) { return !rb.count(f); };
    const bool ed = e.fn == "crypto_sign_ed25519_tweet"; (void)ed;
    if (e.kind == 0) h.args = {h.buf("pk", 4096, true), h.buf("sk", 8192, true)};
    else if (e.kind == 1) h.args = {h.buf("sm", 70000, true), h.buf("smlen", 8, true), h.buf("m", k, false), mkConst(64, k), h.buf("sk", 8192, false)};
    else h.args = {h.buf("b", k, true), mkConst(64, k)};
    Engine &E = h.E; std::set<const CallBase *> sites; bool seedOK = true; std::string seedWhere, seedWhat;
    E.onCall = [&](State &s, const CallBase *cb, const Function *f, const TV &a) {
      if (f->getName() == "randombytes") sites.insert(cb);
      for (auto &u : uses) if (f->getName() == u.fn && u.arg < a.size() && !ghostGet(E, s, "rfail")) { // the bytes used as fresh secret must come from one successful draw
        TV v = E.readSeq(s, a[u.arg], u.n); bool fresh = ghostGet(E, s, "draws") > 0; if (!fresh && e.kind == 1) continue; std::set<T> seen; R.ok("obligations"); bool good = true;
        for (T t : v) if (t->k != TK::Leaf || internName(t->op).rfind("rnd#", 0) || !seen.insert(t).second) good = false;
        if (good) R.ok("discharged"); else { seedOK = false; seedWhere = E.loc(cb); seedWhat = e.fn + " passes " + u.fn + " a " + std::to_string(u.n) + "-byte secret that is not entirely filled by the randomness source"; } } };
    if (!h.go(R)) return; R.ok("randomness_call_sites_reached", sites.size());
    if (!seedOK) R.bad("C07:" + e.fn + ":fill", seedWhere, seedWhat);
    u64 fails = 0; for (auto &o : h.outs) if (ghostGet(E, o.st, "rfail")) { fails++; R.oblig(!mayBeZero(E, o.ret, o.st), "C07:" + e.fn, h.where(o), e.fn + " can report success although the randomness source failed", E.path(o.st)); }
    R.ok("failing_exits", fails); R.sample(e.fn + ": " + std::to_string(sites.size()) + " randomness call sites, " + std::to_string(fails) + " exit states with a failed draw, all non-zero");
    if (!fails) R.oblig(false, "C07:" + e.fn + ":none", e.fn, e.fn + " requests randomness but no exit reports its failure"); });
  nonceJobs(c, jobs, "C07");
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && R.cnt["failing_exits"] < 12) R.fail("rule instances below the confirmed count");
}
static Reg r07("C07", C07);

// ---- C28 signed-message wrappers
static void C28(Ctx &c, Report &R) {
  struct A { std::string pre, alg; u64 sig, pk, sk; }; std::vector<Job> jobs;
  std::vector<u64> lens; for (u64 k = 0; k <= (c.thorough ? 600u : 70u); k++) lens.push_back(k); for (u64 k : {127, 128, 129, 255, 256, 257, 1000, 66000}) lens.push_back(k);
  { const auto ex = [&] { std::set<u64> r; for (std::string p : {DIL, SPX}) for (std::string f : {"crypto_sign", "crypto_sign_open"}) if (auto *F = c.M.getFunction(p + f)) { Module &M = c.M; (void)M; for (u64 x : lengthsOf(*F, 70000)) r.insert(x); } return r; }(); std::set<u64> have(lens.begin(), lens.end()); for (u64 x : ex) if (have.insert(x).second) lens.push_back(x); }
  for (A a : {A{DIL, "dil", 2420, 1312, 2560}, A{SPX, "sph", 49856, 64, 128}}) {
    for (int alias = 0; alias < 2; alias++) {
    // acceptance for every input length (symbolic)
    if (!alias) jobs.push_back([=, &c](Report &R) { Run h(c.M, a.pre + "crypto_sign_open"); installPrimitives(h.E, {}); h.E.softLimit = 3; T n = mkLeaf("arg:smlen", 0, 64); h.E.assume(mkCmp(O_ULT, n, mkConst(64, 1ull << 40)), true, h.s0);
      h.args = {h.buf("m", n, true), h.buf("mlen", 8, true), h.buf("sm", n, false), n, h.buf("pk", a.pk, false)}; if (!h.go(R)) return; u64 acc = 0;
      for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { acc++; T rest = mkSub(n, mkConst(64, a.sig)); T range = mkCustom("Range", 0, 0, {mkLeaf("sm", 0, 8), mkConst(64, a.sig), rest});
        bool f = o.st.has(verifiedFact(a.alg, leafSeq("sm", 0, a.sig), {range}, leafSeq("pk", 0, a.pk))); if (!f) { u64 v; if (h.E.constOf(n, o.st, v) && v >= a.sig) f = o.st.has(verifiedFact(a.alg, leafSeq("sm", 0, a.sig), leafSeq("sm", a.sig, v - a.sig), leafSeq("pk", 0, a.pk))); }
        R.oblig(f, "C28:" + h.name + ":accept", h.where(o), h.name + " can succeed although detached verification did not accept the leading signature bytes over exactly the remaining bytes", h.E.path(o.st));
        T l = h.E.loadBytes(o.st, h.reg["mlen"], 0, 8); R.oblig(h.E.equal(l, rest, o.st), "C28:" + h.name + ":mlen", h.where(o), h.name + " can return a message length other than the input length minus the signature length", h.E.path(o.st)); }
      R.ok("accepting_exits", acc); R.sample(h.name + ": every accepting exit carries Verified(" + a.alg + ", sm[0.." + std::to_string(a.sig) + "), sm[" + std::to_string(a.sig) + "..), pk) for a symbolic length"); });
    for (u64 k : lens) jobs.push_back([=, &c](Report &R) { Run h(c.M, a.pre + "crypto_sign_open"); installPrimitives(h.E, {}); u64 n = a.sig + k; T sm = h.buf("sm", n, alias); T m = alias ? sm : h.buf("m", n, true);
      h.args = {m, h.buf("mlen", 8, true), sm, mkConst(64, n), h.buf("pk", a.pk, false)}; if (!h.go(R)) return; TV want = leafSeq("sm", a.sig, k);
      for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { u64 d; TV got = h.E.readSeq(o.st, m, k); R.oblig(sameSeq(h.E, got, want, o.st, d), "C28:" + h.name + ":bytes", h.where(o), h.name + " returns a wrong message byte " + std::to_string(d) + " for message length " + std::to_string(k) + (alias ? " (output overlapping the input)" : ""), h.E.path(o.st)); R.ok("opened_lengths"); }
      memObligations(h.E, R, "C28:mem", h.name); });
    for (u64 k : lens) jobs.push_back([=, &c](Report &R) { Run h(c.M, a.pre + "crypto_sign"); installPrimitives(h.E, {}); ghost(h.E, h.s0, "sfail", 0); u64 n = a.sig + k; T sm = h.buf("sm", n, true); if (alias && a.alg != "dil") return; T m = alias ? sm : h.buf("m", k, false);
      h.args = {sm, h.buf("smlen", 8, true), m, mkConst(64, k), h.buf("sk", a.sk, false)}; if (!h.go(R)) return; TV msg = leafSeq(alias ? "sm" : "m", 0, k);
      for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { auto p = h.E.path(o.st); R.oblig(!ghostGet(h.E, o.st, "sfail"), "C28:" + h.name + ":fail", h.where(o), h.name + " reports success although the detached signer failed", p);
        u64 d, v; TV got = h.E.readSeq(o.st, sm, n), want = appSeq(a.alg + "sig", a.sig, {mkSeq(msg), mkSeq(leafSeq("sk", 0, a.sk))}); want.insert(want.end(), msg.begin(), msg.end());
        R.oblig(ghostGet(h.E, o.st, "sfail") || sameSeq(h.E, got, want, o.st, d), "C28:" + h.name + ":out", h.where(o), h.name + ": output byte " + std::to_string(d) + " is not that of the signature followed by the complete " + std::to_string(k) + "-byte message", p);
        T l = h.E.loadBytes(o.st, h.reg["smlen"], 0, 8); R.oblig(ghostGet(h.E, o.st, "sfail") || (h.E.constOf(l, o.st, v) && v == n), "C28:" + h.name + ":len", h.where(o), h.name + " reports a total length other than " + std::to_string(n), p); R.ok("signed_lengths"); }
      memObligations(h.E, R, "C28:mem", h.name); });
    }
  }
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && (R.cnt["accepting_exits"] < 2 || R.cnt["opened_lengths"] < 4 * lens.size() || R.cnt["signed_lengths"] < 3 * lens.size())) R.fail("rule instances below the confirmed count");
}
static Reg r28("C28", C28);

// ---- C15 seed expansion
static void C15(Ctx &c, Report &R) {
  std::vector<Job> jobs;
  jobs.push_back([&](Report &R) { Run h(c.M, "crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander"); installSponge(h.E, &h.lc); h.args = {h.buf("seed", 96, false), h.buf("out", 160, true)}; if (!h.go(R)) return; u64 okx = 0;
    for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { okx++; TV g = h.E.readSeq(o.st, h.E.ptrTo(h.reg["out"]), 160); auto p = h.E.path(o.st); auto W = h.where(o);
      for (u64 i = 0; i < 32; i++) R.oblig(g[32 + i] == mkLeaf("seed", 64 + i, 8), "C15:dilithium-part", W, "expanded byte " + std::to_string(32 + i) + " is not input seed byte " + std::to_string(64 + i), p);
      T data = isCustom(g[0], "XOF:shake256") ? g[0]->a[1] : nullptr; R.oblig(data != nullptr, "C15:xof", W, "expanded byte 0 is not output of the SHAKE256 expansion", p); if (!data) continue;
      for (u64 i = 0; i < 160; i++) if (i < 32 || i >= 64) { u64 x = i < 32 ? i : i - 32; R.oblig(g[i] == mkCustom("XOF:shake256", x, 8, {data}), "C15:split", W, "expanded byte " + std::to_string(i) + " is not byte " + std::to_string(x) + " of the expansion of the first 64 seed bytes", p); }
      R.oblig(data->a.size() > 64, "C15:domain", W, "the expansion has no domain-separation byte after the 64 seed bytes", p);
      for (u64 i = 64; i < data->a.size(); i++) R.oblig(data->a[i]->k == TK::Const, "C15:domain", W, "the expansion's domain separator is not constant", p);
      for (u64 i = 0; i < 64; i++) { std::unordered_set<T> seen; R.oblig(i < data->a.size() && data->a[i] == mkLeaf("seed", i, 8), "C15:seed-byte-" + std::to_string(i), W, "input seed byte " + std::to_string(i) + " does not enter the expansion (its place holds " + (i < data->a.size() ? show(data->a[i]) : "nothing") + ")", p); } }
    R.ok("success_exits", okx); });
  std::set<std::pair<u64, u64>> cs; for (u64 sl : {32, 33, 40, 64, 96}) for (u64 ol = sl + 1; ol <= sl + (c.thorough ? 200 : 40); ol++) cs.insert({sl, ol});
  for (u64 sl : {48, 63, 65, 71, 72, 73, 100, 103, 104, 105, 127, 128, 129, 134, 135, 136, 137, 138, 143, 144, 145, 160, 167, 168, 169, 192, 200, 255, 256, 257, 271, 272, 273, 407, 408, 409, 511, 512, 513, 1000, 4096, 65535, 65536, 65568}) for (u64 d : {1, 7, 8, 9, 16}) cs.insert({sl, sl + d});
  const auto sls = sourceLengths(c.M, {"seedexpander_wrapper"}, 70000, 32); for (u64 sl : sls) { cs.insert({sl, sl + 1}); cs.insert({sl, sl + 8}); if (sl > 32) cs.insert({32, sl}); if (sl > 64) cs.insert({64, sl}); }
  if (c.thorough) for (u64 sl = 32; sl <= 600; sl++) cs.insert({sl, sl + 1});
  for (u64 sl : {32, 64, 137}) for (u64 ol : {255, 256, 257, 271, 272, 273, 1000, 1025, 4095, 4097, 65535, 65536, 65541, 66001}) cs.insert({sl, ol});
  for (auto &pr : cs) { u64 sl = pr.first, ol = pr.second; jobs.push_back([=, &c](Report &R) { Run h(c.M, "seedexpander_wrapper"); installSponge(h.E, &h.lc); h.args = {h.buf("seed", sl, false), mkConst(64, sl), h.buf("out", ol, true), mkConst(64, ol)}; if (!h.go(R)) return;
    for (auto &o : h.outs) { u64 rv = 1; R.oblig(h.E.constOf(o.ret, o.st, rv) && !(rv & 0xffffffff), "C15:wrapper:refused", h.where(o), "seedexpander_wrapper can refuse a " + std::to_string(sl) + "-byte seed and " + std::to_string(ol) + " output bytes", h.E.path(o.st)); if (!mayBeZero(h.E, o.ret, o.st)) continue;
      TV g = h.E.readSeq(o.st, h.E.ptrTo(h.reg["out"]), ol); T data = isCustom(g[0], "XOF:shake256") ? g[0]->a[1] : nullptr; bool okd = data && data->a.size() == sl + 1; if (okd) for (u64 i = 0; i < data->a.size(); i++) if (i < sl ? data->a[i] != mkLeaf("seed", i, 8) : !isC(data->a[i], 2)) okd = false;
      R.oblig(okd, "C15:wrapper:input", h.where(o), "seedexpander_wrapper does not expand all " + std::to_string(sl) + " seed bytes followed by the seed expander's domain separator", h.E.path(o.st)); if (!okd) continue; u64 i = 0; for (; i < ol; i++) if (g[i] != mkCustom("XOF:shake256", i, 8, {data})) break;
      R.oblig(i == ol, "C15:wrapper:output", h.where(o), "seedexpander_wrapper output byte " + std::to_string(i) + " of " + std::to_string(ol) + " is not that byte of the expansion", h.E.path(o.st)); R.ok("wrapper_cases"); }
    memObligations(h.E, R, "C15:mem", h.name); }); }
  // every seed length below the output length, symbolically
  for (u64 ol : {200, 66000}) jobs.push_back([=, &c](Report &R) { Run h(c.M, "seedexpander_wrapper"); installSponge(h.E, &h.lc); h.E.softLimit = 3; T n = mkLeaf("arg:seedlen", 0, 64); h.E.assume(mkCmp(O_ULT, n, mkConst(64, ol)), true, h.s0); h.E.assume(mkCmp(O_ULT, n, mkConst(64, 32)), false, h.s0); h.args = {h.buf("seed", n, false), n, h.buf("out", ol, true), mkConst(64, ol)}; if (!h.go(R)) return; if (h.E.widenings) { R.notes.insert("seedexpander_wrapper loops over the seed: seed lengths beyond the enumerated ones not compared"); return; }
    for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { T b = h.E.loadBytes(o.st, h.reg["out"], ol - 1, 1); u64 v; TV want; if (h.E.constOf(n, o.st, v)) want = leafSeq("seed", 0, v); else want = {mkCustom("Range", 0, 0, {mkLeaf("seed", 0, 8), mkConst(64, 0), n})}; want.push_back(mkConst(8, 2));
      R.oblig(b == mkCustom("XOF:shake256", ol - 1, 8, {mkSeq(want)}), "C15:wrapper:anyseed", h.where(o), "for some seed length below " + std::to_string(ol) + " seedexpander_wrapper does not expand the whole seed followed by the seed expander's domain separator", h.E.path(o.st)); R.ok("wrapper_symbolic"); } });
  // refused combinations
  std::set<std::pair<u64, u64>> rj; for (u64 sl = 0; sl < 32; sl++) for (u64 ol : {(u64)0, sl, sl + 1, (u64)32, (u64)160}) rj.insert({sl, ol}); for (u64 sl : {32, 33, 64, 96, 136, 200, 1000}) for (u64 ol : {(u64)0, (u64)1, (u64)31, (u64)32, sl / 2, sl - 8, sl - 1, sl}) if (ol <= sl) rj.insert({sl, ol});
  for (int nul = 0; nul < 3; nul++) for (auto &pr : rj) { u64 sl = pr.first, ol = pr.second; if (nul) { if (pr != *rj.begin()) break; sl = 64; ol = 128; } jobs.push_back([=, &c](Report &R) { Run h(c.M, "seedexpander_wrapper"); installSponge(h.E, &h.lc); T sd = h.buf("seed", sl, false), ou = h.buf("out", ol, true), z = mkConst(64, 0); h.args = {nul == 1 ? z : sd, mkConst(64, sl), nul == 2 ? z : ou, mkConst(64, ol)}; if (!h.go(R)) return;
    std::string w = nul ? std::string("a null ") + (nul == 1 ? "seed" : "output") : "a " + std::to_string(sl) + "-byte seed and " + std::to_string(ol) + " output bytes";
    for (auto &o : h.outs) { bool clean = !mayBeZero(h.E, o.ret, o.st); for (u64 i = 0; i < ol && clean; i++) clean = h.E.loadBytes(o.st, h.reg["out"], i, 1) == mkLeaf("out", i, 8); R.oblig(clean, "C15:wrapper:accepted", h.where(o), "seedexpander_wrapper accepts " + w + ", or writes output while refusing it", h.E.path(o.st)); R.ok("refused_cases"); } }); }
  runJobs(jobs, R); if (R.broken.empty() && (R.cnt["success_exits"] < 1 || R.cnt["wrapper_cases"] < 100)) if (R.v.empty()) R.fail("rule instances below the confirmed count");
}
static Reg r15("C15", C15);

// ---- C10 no mutable shared state
struct GScan { Module &M; Report &R; Engine E; std::set<std::pair<const Value *, const GlobalVariable *>> seen; u64 uses = 0; GScan(Module &m, Report &r) : M(m), R(r), E(m) {}
  void bad(const GlobalVariable *G, const Instruction *I, const std::string &w) { R.bad("C10:" + G->getName().str() + ":" + I->getFunction()->getName().str(), E.loc(I), "global object '" + G->getName().str() + "' " + w + " in " + I->getFunction()->getName().str()); }
  void scan(const Value *V, const GlobalVariable *G) {
    if (!seen.insert({V, G}).second) return;
    for (auto *U : V->users()) { uses++;
      if (isa<GlobalVariable>(U) || isa<GlobalAlias>(U)) { scan(U, G); continue; }
      if (auto *C = dyn_cast<Constant>(U)) { scan(C, G); continue; }
      auto *I = dyn_cast<Instruction>(U); if (!I) continue;
      if (isa<LoadInst>(I)) { if (I->getType()->isPointerTy()) scan(I, G); continue; }
      if (auto *S = dyn_cast<StoreInst>(I)) { if (S->getPointerOperand() == V) bad(G, I, "is written"); else { // address stored: follow the slot it is stored into when that is a local
          auto *P = S->getPointerOperand()->stripInBoundsOffsets(); if (isa<AllocaInst>(P)) { for (auto *PU : P->users()) if (auto *L = dyn_cast<LoadInst>(PU)) scan(L, G); } else if (!G->isConstant()) bad(G, I, "has its address stored for later use"); } continue; }
      if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { bad(G, I, "is written atomically"); continue; }
      if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) { scan(I, G); continue; }
      if (auto *cb = dyn_cast<CallBase>(I)) { for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->getArgOperand(i) == V) { auto *F = cb->getCalledFunction(); std::string n = F ? F->getName().str() : "";
          if (F && !F->isDeclaration()) { if (i < F->arg_size()) scan(F->getArg(i), G); }
          else if (F && (n == "memcpy" || n == "memmove" || n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0)) { if (i == 0) bad(G, I, "is overwritten by " + n); }
          else if (F && (n.rfind("llvm.memset", 0) == 0 || n == "memset" || n == "explicit_bzero")) bad(G, I, "is overwritten by " + n);
          else if (F && (n == "memcmp" || n == "printf" || n == "fprintf" || n == "puts" || n == "__assert_fail" || n == "strlen" || n.rfind("llvm.", 0) == 0 || F->getArg(i)->onlyReadsMemory())) {}
          else if (!G->isConstant()) bad(G, I, "is passed by address to " + (F ? n : std::string("an unknown function")));
          } continue; }
    } } };
static bool stateful(const std::string &n) { static const std::set<std::string> s{"rand", "srand", "random", "srandom", "rand_r", "drand48", "lrand48", "mrand48", "strtok", "localtime", "gmtime", "asctime", "ctime", "setenv", "putenv", "unsetenv", "setlocale", "signal", "sigaction", "getpwnam", "strerror", "tmpnam", "atexit", "pthread_setspecific", "chdir", "umask"}; return s.count(n); }
static void C10(Ctx &c, Report &R) {
  GScan S(c.M, R); u64 n = 0, ncon = 0, fns = 0;
  for (auto &G : c.M.globals()) { if (G.getName().startswith("llvm.")) continue; n++; if (G.isConstant()) ncon++; u64 before = R.v.size(); S.scan(&G, &G); R.cnt["obligations"]++; if (R.v.size() == before) R.cnt["discharged"]++;
    if (G.isDeclaration() && !G.isConstant() && !G.getName().startswith("std")) R.bad("C10:extern:" + G.getName().str(), G.getName().str(), "the library uses the external mutable object '" + G.getName().str() + "'"); }
  for (auto &F : c.M) { if (F.isDeclaration()) continue; fns++; R.funcs.insert(F.getName().str()); for (auto &I : instructions(F)) { if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *C = cb->getCalledFunction()) if (stateful(C->getName().str())) R.bad("C10:libc:" + C->getName().str() + ":" + F.getName().str(), S.E.loc(&I), F.getName().str() + " uses " + C->getName().str() + ", which keeps process-wide state"); } }
  R.ok("global_objects", n); R.ok("constant_objects", ncon); R.ok("address_uses_followed", S.uses); R.ok("functions_scanned", fns); R.sample(std::to_string(n) + " global objects, " + std::to_string(n - ncon) + " not declared constant, none written, none passed to a writer");
  if (fns < 150 || n < 15) R.fail("rule instances below the confirmed count: " + std::to_string(fns) + " functions, " + std::to_string(n) + " objects");
}
static Reg r10("C10", C10);

// ---- C11 hash-context life cycle
static bool ctxType(Type *t, int d = 0) { if (auto *S = dyn_cast<StructType>(t)) { if (S->hasName()) { StringRef n = S->getName(); if (n.contains("incctx") || n.contains("shake128ctx") || n.contains("shake256ctx") || n.contains("sha3_")) return true; } if (d < 3) for (auto *e : S->elements()) if (ctxType(e, d + 1)) return true; } if (auto *A = dyn_cast<ArrayType>(t)) return d < 3 && ctxType(A->getElementType(), d + 1); return false; }
static bool hashApi(const std::string &n) { for (auto p : {"shake128", "shake256", "sha3_256", "sha3_384", "sha3_512"}) if (n.rfind(p, 0) == 0) return true; return false; }
static void C11(Ctx &c, Report &R) {
  auto inFips = [](const Function &F) { auto *SP = F.getSubprogram(); return SP && SP->getFilename().endswith("fips202.c"); };
  auto user = reaching(c.M, [&](const Function *f) { return hashApi(f->getName().str()); });
  std::vector<Job> jobs; u64 owners = 0;
  for (auto &F : c.M) { if (F.isDeclaration() || inFips(F)) continue; bool own = false; for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) if (ctxType(A->getAllocatedType())) own = true; if (!own) continue; owners++; const Function *f = &F;
    bool takesCtx = false; (void)takesCtx;
    jobs.push_back([=, &c](Report &R) { Run h(c.M, f->getName().str()); h.F = f; installSponge(h.E, &h.lc, true); installRandom(h.E, true); h.E.checkBounds = false; h.E.softLimit = 3; h.E.hardLimit = 10; h.E.weakLimit = 16; h.E.partBudget = 12;
      h.E.isOpaque = [&](const Function *g) { return !user.count(g); };
      for (auto &A : f->args()) { if (A.getType()->isPointerTy()) h.args.push_back(h.buf("arg" + std::to_string(A.getArgNo()), 1 << 17, true)); else h.args.push_back(mkLeaf("arg" + std::to_string(A.getArgNo()), 0, A.getType()->getIntegerBitWidth())); }
      std::string nm = h.name; Engine &E = h.E; u64 leaks = 0, deaths = 0; std::string lw, lwhat; std::vector<std::string> lp;
      E.onRegionDeath = [&](State &s, int rid, Region &r) { deaths++; for (auto &kv : r.ch) for (unsigned i = 0; i < CH; i++) { Cell x = kv.second->c[i]; if (x.t && x.k == 0 && isCustom(x.t, "Sponge") && (x.t->c & 15) != 3) { leaks++; lw = r.site ? E.loc(cast<Instruction>(r.site)) : nm; lwhat = nm + ": hash context '" + r.name + "' is still live (never released) when its owner returns"; lp = E.path(s); } } };
      if (!h.go(R)) return; R.ok("context_events", h.lc.events); R.ok("obligations", h.lc.events + 1); R.ok("discharged", h.lc.events - std::min<u64>(h.lc.events, h.lc.bad.size()) + (leaks ? 0 : 1));
      for (auto &b : h.lc.bad) R.bad("C11:" + b.where + ":" + b.what, b.where, nm + ": " + b.what, b.path);
      if (leaks) R.bad("C11:leak:" + nm, lw, lwhat, lp);
      R.sample(nm + ": " + std::to_string(h.lc.events) + " context operations in order, released before return"); }); }
  // the context functions themselves: what init/absorb allocates, release frees exactly once
  for (std::string n : {"shake128", "shake256", "sha3_256", "sha3_384", "sha3_512"}) for (int mode = 0; mode < 3; mode++) { bool shake = n[2] == 'a' && n[3] == 'k'; if (mode == 1 && !shake) continue;
    jobs.push_back([=, &c](Report &R) { Run h(c.M, n); Engine &E = h.E; E.models["KeccakF1600_StatePermute"] = [](CallCtx &x) { State s = x.st; x.E.havoc(s, x.args[0], mkConst(64, 200), "kf"); Outcomes o; o.push_back({s, nullptr, nullptr}); return o; };
      State s = h.s0; T in = E.ptrTo(E.newRegion(s, "in", mkConst(64, 100), Def::Init, false)), out = E.ptrTo(E.newRegion(s, "out", mkConst(64, 400), Def::Init, true)), ctx = E.ptrTo(E.newRegion(s, "ctx", mkConst(64, 8), Def::Init, true)), ctx2 = E.ptrTo(E.newRegion(s, "ctx2", mkConst(64, 8), Def::Init, true)); bool okr = true;
      auto call = [&](const std::string &f, const TV &a) { if (!okr) return; auto *F = E.fn(f); if (!F || F->isDeclaration() || F->arg_size() != a.size()) { R.fail("hash function " + f + " not found"); okr = false; return; } auto o = E.run(F, a, s); if (o.size() < 1) { R.fail(f + " has no exit"); okr = false; return; } s = o[0].st; R.ok("context_events"); };
      auto L = [](u64 v) { return mkConst(64, v); };
      if (mode == 0) { if (shake) call(n, {out, L(200), in, L(100)}); else call(n, {out, in, L(100)}); }
      else if (mode == 1) { call(n + "_absorb", {ctx, in, L(100)}); call(n + "_squeezeblocks", {out, L(1), ctx}); call(n + "_ctx_clone", {ctx2, ctx}); call(n + "_squeezeblocks", {out, L(1), ctx2}); call(n + "_ctx_release", {ctx2}); call(n + "_squeezeblocks", {out, L(1), ctx}); call(n + "_ctx_release", {ctx}); }
      else { call(n + "_inc_init", {ctx}); call(n + "_inc_absorb", {ctx, in, L(100)}); call(n + "_inc_ctx_clone", {ctx2, ctx}); call(n + "_inc_absorb", {ctx2, in, L(10)}); if (shake) { call(n + "_inc_finalize", {ctx}); call(n + "_inc_squeeze", {out, L(100), ctx}); call(n + "_inc_ctx_release", {ctx}); call(n + "_inc_ctx_release", {ctx2}); } else { call(n + "_inc_finalize", {out, ctx}); call(n + "_inc_ctx_release", {ctx2}); } }
      if (!okr) return; noteEngine(E, R); u64 live = 0, heap = 0; for (auto &kv : s.mem) if (kv.second->heap) { heap++; if (!kv.second->freed) live++; } const char *mn[] = {"one-shot", "streaming", "incremental"};
      R.oblig(live == 0, "C11:heap:" + n + ":" + mn[mode], n, std::string(mn[mode]) + " " + n + " leaves " + std::to_string(live) + " of " + std::to_string(heap) + " allocations unreleased after its context was released"); memObligations(E, R, "C11:mem", n); R.ok("api_sequences"); }); }
  runJobs(jobs, R); R.ok("context_owners", owners);
  if (R.broken.empty() && R.v.empty() && (owners < 8 || R.cnt["api_sequences"] < 12)) R.fail("rule instances below the confirmed count: " + std::to_string(owners) + " context owners");
}
static Reg r11("C11", C11);

// ---- C09 determinism: no ambient source reachable
static const std::set<std::string> &pureExt() { static const std::set<std::string> s{"memcpy", "memmove", "memset", "memcmp", "bcmp", "malloc", "calloc", "realloc", "free", "exit", "abort", "__assert_fail", "explicit_bzero", "bzero", "strlen", "__memcpy_chk", "__memset_chk", "__memmove_chk", "__stack_chk_fail"}; return s; }
static void C09(Ctx &c, Report &R) {
  const std::string H = "crypto_sign_dilithium_ed25519_sphincs";
  std::vector<std::string> es{H + "_keypair_seed", H + "_keypair_seed_expander", H + "_open", "crypto_verify_dilithium_ed25519_sphincs", "crypto_sign_compact_dilithium_ed25519_sphincs_open", "crypto_verify_compact_dilithium_ed25519_sphincs", "crypto_verify_dilithium", "seedexpander_wrapper", DIL + "crypto_sign_keypair_seed", DIL + "crypto_sign_verify", DIL + "crypto_sign_open", SPX + "crypto_sign_seed_keypair", SPX + "crypto_sign_verify", SPX + "crypto_sign_open", "crypto_sign_ed25519_keypair_seed", "crypto_sign_ed25519_tweet_open", "crypto_hash_sha512_tweet", "shake128", "shake256", "sha3_256", "sha3_384", "sha3_512", "dp_sign_keypair_seed", "dp_sign_verify", "dp_sign_seedexpander", "dp_seedexpander_wrapper"};
  Engine E0(c.M); u64 edges = 0;
  for (auto &n : es) { auto *F = c.M.getFunction(n); if (!F || F->isDeclaration()) { R.fail("entry point " + n + " not found"); return; } std::map<const Function *, const CallBase *> via; auto s = reachableFrom(c.M, F, &via); edges += via.size();
    for (auto *f : s) { R.funcs.insert(f->getName().str());
      if (f->getName() == "randombytes" || (f->isDeclaration() && !f->isIntrinsic() && !pureExt().count(f->getName().str()))) { R.oblig(false, "C09:" + n + ":" + f->getName().str(), E0.loc(via[f]), n + " can reach " + f->getName().str() + ", so its result may depend on more than its arguments", viaPath(E0, via, f)); continue; }
      R.oblig(true, "", "", "");
      for (auto &I : instructions(*f)) { if (auto *cb = dyn_cast<CallBase>(&I)) if (isa<InlineAsm>(cb->getCalledOperand())) R.bad("C09:" + n + ":asm:" + f->getName().str(), E0.loc(&I), n + " reaches inline assembly in " + f->getName().str(), viaPath(E0, via, f));
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::readcyclecounter || II->getIntrinsicID() == Intrinsic::thread_pointer) R.bad("C09:" + n + ":intr:" + f->getName().str(), E0.loc(&I), n + " reads ambient machine state", viaPath(E0, via, f));
        if (auto *L = dyn_cast<LoadInst>(&I)) if (auto *G = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripInBoundsOffsets())) if (!G->isConstant()) { bool written = false; for (auto *U : G->users()) if (auto *S2 = dyn_cast<StoreInst>(U)) if (S2->getPointerOperand()->stripInBoundsOffsets() == G) written = true; if (written || G->isDeclaration()) R.bad("C09:" + n + ":global:" + G->getName().str(), E0.loc(&I), n + " reads mutable global '" + G->getName().str() + "'", viaPath(E0, via, f)); }
        if (isa<PtrToIntInst>(&I)) { bool esc = false; for (auto *U : I.users()) if (!isa<ICmpInst>(U) && !(isa<BinaryOperator>(U) && cast<BinaryOperator>(U)->getOpcode() == Instruction::Sub) ) esc = true; if (esc) R.bad("C09:" + n + ":addr:" + f->getName().str(), E0.loc(&I), n + " computes with the numeric value of an address", viaPath(E0, via, f)); } } }
    R.sample(n + ": " + std::to_string(s.size()) + " functions reachable, none reads ambient state"); }
  R.ok("entry_points", es.size()); R.ok("call_edges", edges);
  // unseeded key generation derives its keys exactly as seeded key generation does from the drawn bytes
  std::vector<Job> jobs;
  struct U { std::string un, se; u64 n; }; for (U u : {U{H + "_keypair", H + "_keypair_seed", 160}, U{DIL + "crypto_sign_keypair", DIL + "crypto_sign_keypair_seed", 32}, U{SPX + "crypto_sign_keypair", SPX + "crypto_sign_seed_keypair", 96}, U{"crypto_sign_ed25519_tweet_keypair", "crypto_sign_ed25519_keypair_seed", 32}}) jobs.push_back([=, &c](Report &R) {
    // both sides are run with everything that does not decide the derivation opaque: a call to the seeded function, or (when the code is organised differently) its callees
    Run h(c.M, u.un); installRandom(h.E, false); ghost(h.E, h.s0, "rfail", 0); ghost(h.E, h.s0, "draws", 0); h.E.checkBounds = false; int hits = 0;
    h.E.models[u.se] = [&](CallCtx &x) { hits++; State s = x.st; T sd = mkSeq(x.E.readSeq(s, x.args[2], u.n)); x.E.writeSeq(s, x.args[0], appSeq("PK", 2048, {sd})); x.E.writeSeq(s, x.args[1], appSeq("SK", 6000, {sd})); Outcomes o; o.push_back({s, mkConst(32, 0), nullptr}); return o; };
    h.args = {h.buf("pk", 2048, true), h.buf("sk", 6000, true)};
    auto user = reaching(c.M, [&](const Function *f) { return f->getName() == "randombytes" || f->getName() == u.se; }); h.E.isOpaque = [&](const Function *f) { return !user.count(f); };
    if (!h.go(R)) return; if (!hits) { R.notes.insert(u.un + " does not call " + u.se + "; the shared-derivation clause is decided only through the reachability rule for it"); return; }
    for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { TV g = h.E.readSeq(o.st, h.args[0], 2048), k = h.E.readSeq(o.st, h.args[1], 6000); T sd = isCustom(g[0], "PK") ? g[0]->a[1] : nullptr; bool ok = sd != nullptr; if (ok) for (u64 i = 0; i < 2048; i++) if (g[i] != mkCustom("PK", i, 8, {sd})) ok = false; if (ok) for (u64 i = 0; i < 6000; i++) if (k[i] != mkCustom("SK", i, 8, {sd})) ok = false;
      std::set<T> seen; if (ok) for (T t : sd->a) if (t->k != TK::Leaf || internName(t->op).rfind("rnd#", 0) || !seen.insert(t).second) ok = false;
      R.oblig(ok, "C09:" + u.un + ":derive", h.where(o), u.un + " does not return exactly the seeded key generation of the drawn seed", h.E.path(o.st));
      R.oblig(ghostGet(h.E, o.st, "draws") == 1, "C09:" + u.un + ":draws", h.where(o), u.un + " draws randomness " + std::to_string(ghostGet(h.E, o.st, "draws")) + " times instead of once for the seed", h.E.path(o.st)); R.ok("derivations"); } });
  runJobs(jobs, R);
}
static Reg r09("C09", C09);

// ---- C08 the OS randomness loop
static void C08(Ctx &c, Report &R) {
  std::vector<Job> jobs; struct Cse { u64 n; bool sym; }; std::vector<u64> ns; for (u64 n = 0; n <= (c.thorough ? 40u : 12u); n++) ns.push_back(n); for (u64 n : {100, 256, 33554430, 33554431, 33554432, 33554433, 67108861, 67108862, 67108863, 100663293}) ns.push_back(n); ns.push_back(0x7fffffff); ns.push_back(0x80000000ull); ns.push_back(0xffffffffull); ns.push_back(0x100000001ull);
  for (u64 n : ns) jobs.push_back([=, &c](Report &R) { bool sym = n == ~0ull; Run h(c.M, "randombytes"); Engine &E = h.E; E.softLimit = sym ? 6 : 60; E.partBudget = 4000; E.widenParts = 24; T N = sym ? mkLeaf("arg:n", 0, 64) : mkConst(64, n); if (sym) { E.assume(mkCmp(O_ULT, N, mkConst(64, 1ull << 50)), true, h.s0); E.assume(mkCmp(O_ULT, mkConst(64, 0), N), true, h.s0); }
    bool cells = !sym && n <= 300; T buf = h.buf("buf", N, true); h.args = {buf, N};
    int er = E.newRegion(h.s0, "errno", mkConst(64, 4), Def::Zero, true); ghost(E, h.s0, "oserr", 0); ghost(E, h.s0, "calls", 0); ghost(E, h.s0, "intr", 0); ghost(E, h.s0, "zero", 0); int fr = E.newRegion(h.s0, "filled!", mkConst(64, 16), Def::Zero, true); int bufr = h.reg["buf"];
    E.models["__errno_location"] = [=](CallCtx &x) { Outcomes o; o.push_back({x.st, x.E.ptrTo(er), nullptr}); return o; };
    u64 reqs = 0; std::string badWhere, badWhat; std::vector<std::string> badPath; auto flag = [&](CallCtx &x, const std::string &w) { if (badWhat.empty()) { badWhere = x.E.loc(x.cb); badWhat = w; badPath = x.E.path(x.st); } };
    auto os = [&](CallCtx &x, T dst, T len, unsigned rw) { Engine &E = x.E; Outcomes out; reqs++; E.access(x.st, dst, len, true, x.cb, "write");
      T filled = E.loadBytes(x.st, fr, 0, 8); bool okd = dst->k == TK::Ptr && (int)dst->c == bufr && E.equal(dst->a[0], filled, x.st); if (!okd) flag(x, "a randomness request does not continue at the first byte not yet filled (offset " + (dst->k == TK::Ptr ? show(dst->a[0]) : std::string("?")) + ", filled so far " + show(filled) + ")");
      u64 calls = ghostGet(E, x.st, "calls"), intr = ghostGet(E, x.st, "intr"); auto neg = [&](u64 e, bool fatal) { State s = x.st; E.storeBytes(s, er, 0, mkConst(32, e), 4); if (fatal) ghostSet(E, s, "oserr", 1); else ghostSet(E, s, "intr", intr + 1); ghostSet(E, s, "calls", calls + (fatal ? 1 : 0)); out.push_back({s, mkConst(rw, ~0ull), nullptr}); };
      auto take = [&](T k) { State s = x.st; if (k->k != TK::Const) { E.assume(mkCmp(O_ULT, mkConst(64, 0), k), true, s); E.assume(mkCmp(O_ULE, k, len), true, s); E.assume(mkCmp(O_ULE, k, mkConst(64, 33554431)), true, s); if (s.dead) return; }
        ghostSet(E, s, "calls", calls + 1); T nf = mkAdd(filled, k); E.storeBytes(s, fr, 0, nf, 8); u64 kc, fc; if (cells && E.constOf(k, s, kc) && E.constOf(dst->k == TK::Ptr ? dst->a[0] : filled, s, fc)) { TV b; for (u64 i = 0; i < kc; i++) b.push_back(mkLeaf("os", fc + i, 8)); E.writeSeq(s, dst, b); } out.push_back({s, rw == 64 ? k : mkTrunc(k, rw), nullptr}); };
      u64 L; bool lc = E.constOf(len, x.st, L);
      if (lc && L > 0) { u64 mx = std::min<u64>(L, 33554431); take(mkConst(64, mx)); if (n <= 8) for (u64 k = 1; k < mx; k++) take(mkConst(64, k)); else if (calls < 2) for (u64 k : {u64(1), mx / 2, mx - 1}) if (k > 0 && k < mx) take(mkConst(64, k)); }
      else if (lc) { flag(x, "a randomness request of zero bytes"); take(mkConst(64, 0)); }
      else { if (calls < 3) take(mkFresh("got", 64)); { State keep = x.st; E.assume(mkCmp(O_ULE, len, mkConst(64, 33554431)), true, x.st); if (!x.st.dead) take(len); x.st = keep; } }
      if (intr < (n <= 12 ? 2u : 1u)) neg(4, false); if (n <= 12 && intr < 1 && lc && L > 0) { State s = x.st; ghostSet(E, s, "intr", intr + 1); ghostSet(E, s, "zero", 1); out.push_back({s, mkConst(rw, 0), nullptr}); } if (calls < 2) for (u64 e : {5, 11, 14, 22, 38}) neg(e, true);
      return out; };
    E.models["getrandom"] = [&](CallCtx &x) { if (x.args.size() > 2 && !isC(x.args[2], 0)) flag(x, "the OS generator is asked with flags that change its guarantees"); return os(x, x.args[0], x.args[1], x.cb->getType()->getIntegerBitWidth()); };
    E.models["getentropy"] = [&](CallCtx &x) { return os(x, x.args[0], x.args[1], 32); };
    E.models["syscall"] = [&](CallCtx &x) { if (x.args.size() < 4 || !isC(x.args[0], 318)) { flag(x, "a system call other than getrandom"); return Outcomes{{x.st, mkConst(64, ~0ull), nullptr}}; } return os(x, x.args[1], x.args[2], 64); };
    if (!h.go(R)) return; R.ok("os_requests_analysed", reqs); std::string ns = sym ? "symbolic size" : "size " + std::to_string(n);
    R.oblig(badWhat.empty(), "C08:request", badWhere, "randombytes (" + ns + "): " + badWhat, badPath);
    for (auto &o : h.outs) { auto p = E.path(o.st); bool err = ghostGet(E, o.st, "oserr"); if (err) { R.oblig(!mayBeZero(E, o.ret, o.st), "C08:error", h.where(o), "randombytes (" + ns + ") can report success although the OS reported an error", p); continue; }
      if (mayBeZero(E, o.ret, o.st)) { T f = E.loadBytes(o.st, fr, 0, 8); bool full = E.equal(f, N, o.st); if (!full) { T d = mkSub(N, f); u64 v; full = E.constOf(d, o.st, v) && v == 0; if (!full) full = o.st.has(mkCmp(O_EQ, d, mkConst(64, 0))); }
        R.oblig(full, "C08:short", h.where(o), "randombytes (" + ns + ") can report success with only " + show(f) + " bytes filled", p);
        if (cells) { TV g = E.readSeq(o.st, buf, n); u64 i = 0; for (; i < n; i++) if (g[i] != mkLeaf("os", i, 8)) break; R.oblig(i == n, "C08:content", h.where(o), "randombytes (" + ns + ") can report success although byte " + std::to_string(i) + " is not output of the OS generator", p); } R.ok("success_exits"); }
      else if (!ghostGet(E, o.st, "zero")) { R.oblig(false, "C08:spurious", h.where(o), "randombytes (" + ns + ") can fail although the OS reported no error (interruptions and short reads must be continued)", p); } }
    memObligations(E, R, "C08:mem", h.name); R.sample("randombytes " + ns + ": " + std::to_string(reqs) + " OS requests, " + std::to_string(h.outs.size()) + " exit states"); });
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && R.cnt["success_exits"] < ns.size()) R.fail("rule instances below the confirmed count");
}
static Reg r08("C08", C08);
} // namespace pq
