// C12: no branch, address or length in signing and key generation depends on secret values.
// Two-point (secret / public) information-flow analysis on top of the abstract interpreter: public values keep their
// precise terms (so loop bounds and offsets stay known), every result computed from a secret operand is the value SECRET.
#include "dil.h"
using namespace llvm;
namespace pq {
using namespace dil;
void sphincsJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, const std::set<std::string> &which);
static const std::string SPX = "PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_";
struct Leak { std::string where, what; std::vector<std::string> path; };
struct Ct {
  std::map<std::string, std::vector<std::pair<u64, u64>>> sec;   // leaf name (or prefix ending in '#') -> secret index ranges [from,to)
  std::function<int(T)> declass;                                 // 1: the value is published
  std::unordered_map<T, bool> memo; std::map<u32, const std::vector<std::pair<u64, u64>> *> nameMemo; std::map<std::string, Leak> leaks; u64 seen = 0; std::vector<Engine *> on;
  const std::vector<std::pair<u64, u64>> *rangesOf(u32 n) { auto it = nameMemo.find(n); if (it != nameMemo.end()) return it->second; const std::vector<std::pair<u64, u64>> *r = nullptr; const std::string &s = internName(n); for (auto &kv : sec) if (s == kv.first || (kv.first.back() == '#' && s.compare(0, kv.first.size(), kv.first) == 0)) r = &kv.second; return nameMemo[n] = r; }
  bool leafSecret(T t) { static const u32 S = intern("SECRET"); if (t->op == S) return true; auto *r = rangesOf(t->op); if (!r) return false; for (auto &p : *r) if (t->c >= p.first && t->c < p.second) return true; return false; }
  bool tainted(T t0) {
    if (t0->k == TK::Const || t0->k == TK::Fn) return false; auto f = memo.find(t0); if (f != memo.end()) return f->second;
    std::vector<std::pair<T, size_t>> st{{t0, 0}};
    while (!st.empty()) { T t = st.back().first; size_t &i = st.back().second;
      if (i == 0) { if (memo.count(t)) { st.pop_back(); continue; } bool done = true, v = false;
        if (t->k == TK::Const || t->k == TK::Fn) v = false; else if (t->k == TK::Leaf) v = leafSecret(t); else if (t->k == TK::Op && t->op == O_CUSTOM && declass && declass(t) == 1) v = false; else done = false;
        if (done) { memo[t] = v; st.pop_back(); continue; } }
      bool pushed = false, v = false; for (; i < t->a.size(); i++) { T x = t->a[i]; auto m = memo.find(x); if (m == memo.end()) { if (x->k == TK::Const || x->k == TK::Fn) continue; i = i ? i : 0; st.push_back({x, 0}); pushed = true; break; } if (m->second) { v = true; break; } }
      if (pushed) continue; memo[t] = v; st.pop_back(); }
    return memo[t0];
  }
  // rejection sampling, norm tests and hints: their decisions are published by the scheme (the norm test itself is decided by the path rule below)
  static bool published(Engine &E, const Instruction *at) { auto p = [](const Function *f) { std::string n = f->getName().str(); if (n.find("gamma1") != std::string::npos) return false; for (const char *k : {"chknorm", "hint", "challenge", "uniform", "rej", "pack_sig"}) if (n.find(k) != std::string::npos) return true; return false; }; if (p(at->getFunction())) return true; for (auto *c : E.stack) { if (p(c->getFunction())) return true; if (auto *f = c->getCalledFunction()) if (p(f)) return true; } return false; }
  void attach(Engine &E, bool collapse) {
    E.onLeak = [this, &E](State &s, const Instruction *at, T t, const char *kind) { seen++; if (!tainted(t) || published(E, at)) return; std::string w = E.loc(at), k = w + "|" + kind; if (leaks.count(k)) return; Leak L; L.where = w; std::string kd = kind;
      L.what = kd == "branch" ? "a branch decision depends on secret data" : kd == "address" ? "a memory address depends on secret data" : kd == "length" ? "the length of a memory operation depends on secret data" : "a variable-time comparison is made on secret data"; for (auto *c : E.stack) L.path.push_back("call " + E.loc(c)); L.path.push_back("value " + show(t, 3).substr(0, 200)); leaks[k] = L; };
    if (collapse) on.push_back(&E); if (collapse) E.secret = [this](T t) { return tainted(t); };
  }
  void report(Report &R, const std::string &name) { u64 n = 0; for (Engine *e : on) n += e->branches + e->accesses; if (!n) n = seen; R.ok("branches_and_accesses", n); R.ok("undetermined_decisions", seen); R.ok("obligations", n); R.ok("discharged", n - std::min<u64>(n, leaks.size())); for (auto &kv : leaks) R.bad("C12:" + kv.second.where, kv.second.where, kv.second.what + " (in " + name + ")", kv.second.path); }
};
using Rng = std::vector<std::pair<u64, u64>>;
static void finish(Run &h, Ct &ct, Report &R, const std::string &ctr) { ct.report(R, h.name); R.ok(ctr); R.ok("functions_analysed", h.E.analysed.size()); }
static const Function *tweet(Module &M, const std::string &n) { auto *F = M.getFunction(n); return F && !F->isDeclaration() ? F : nullptr; }

// operations of Dilithium whose control flow the scheme publishes: rejection sampling, norm tests, hint computation
static void installRejection(Engine &E) {
  auto fill = [](CallCtx &c, State &s, T p, u64 n, bool sec) { if (p->k != TK::Ptr) return; c.E.access(s, p, C64(n), true, c.cb, "write"); TV v; for (u64 i = 0; i < n; i++) v.push_back(sec ? Engine::secretOf(8) : mkLeaf("public", i, 8)); c.E.writeSeq(s, p, v); };
  E.models[P + "poly_uniform"] = [=](CallCtx &c) { State s = c.st; fill(c, s, c.args[0], PB, false); return one(s); };
  E.models[P + "poly_uniform_eta"] = [=](CallCtx &c) { State s = c.st; fill(c, s, c.args[0], PB, true); return one(s); };
  E.models[P + "poly_challenge"] = [=](CallCtx &c) { State s = c.st; fill(c, s, c.args[0], PB, false); return one(s); };
  E.models[P + "poly_chknorm"] = [=](CallCtx &c) { Outcomes o; o.push_back({c.st, mkConst(32, 0), nullptr}); o.push_back({c.st, mkConst(32, 1), nullptr}); return o; };
  E.models[P + "poly_make_hint"] = [=](CallCtx &c) { State s = c.st; fill(c, s, c.args[0], PB, false); return one(s, mkFresh("hints", 32)); };
  E.models[P + "pack_sig"] = [=](CallCtx &c) { State s = c.st; if (c.args[0]->k == TK::Ptr) fill(c, s, c.args[0], 2420, false); return one(s); };
}
static void C12(Ctx &c, Report &R) {
  const std::string H = "crypto_sign_dilithium_ed25519_sphincs"; for (std::string n : {H, H + "_keypair", H + "_keypair_seed", std::string("crypto_sign_compact_dilithium_ed25519_sphincs"), P + "crypto_sign_signature", P + "crypto_sign_keypair_seed", SPX + "crypto_sign_signature", SPX + "crypto_sign_seed_keypair", std::string("crypto_sign_ed25519_tweet"), std::string("crypto_sign_ed25519_keypair_seed")}) if (!tweet(c.M, n)) { R.fail("anchor vanished: " + n); return; }
  std::vector<Job> jobs; const Rng ALL{{0, ~0ull}};
  // 1. hybrid layer (and the wasm wrappers), components as opaque functions
  const Rng SK{{0, 32}, {64 + 32, 64 + 64}, {64 + 128, 64 + 2560}, {3936, 3936 + 64}};
  for (std::string f : {H, std::string("crypto_sign_compact_dilithium_ed25519_sphincs"), std::string("dp_sign")}) for (u64 n : {1ull, 32ull, 33ull, 64ull}) jobs.push_back([=, &c](Report &R) { if (!tweet(c.M, f)) { R.notes.insert(f + " not present"); return; } Run h(c.M, f); Ct ct; ct.sec["sk"] = SK; ct.declass = [](T t) { const std::string &s = internName(t->a[0]->op); return s == "#edsig" || s == "#dilsig" || s == "#sphsig"; }; ct.attach(h.E, true); installPrimitives(h.E, {}); installSponge(h.E, nullptr); installRandom(h.E, true); h.args = {h.buf("sm", 60000, true), h.buf("smlen", 8, true), h.buf("m", n, false), C64(n), h.buf("sk", 4064, false)}; if (!h.go(R)) return; finish(h, ct, R, "hybrid_runs"); });
  for (std::string f : {H + "_keypair", std::string("dp_sign_keypair"), H + "_keypair_seed", std::string("dp_sign_keypair_seed"), H + "_keypair_seed_expander", std::string("dp_sign_seedexpander")}) jobs.push_back([=, &c](Report &R) { if (!tweet(c.M, f)) { R.notes.insert(f + " not present"); return; } Run h(c.M, f); Ct ct; ct.sec["rnd#"] = ALL; ct.sec["seed"] = ALL; ct.declass = [](T t) { const std::string &s = internName(t->a[0]->op); return s == "#edpk" || s == "#dilpk" || s == "#sphpk"; }; ct.attach(h.E, true); installPrimitives(h.E, {}); installSponge(h.E, nullptr); installRandom(h.E, true);
    if (f.find("expander") != std::string::npos) h.args = {h.buf("seed", 96, false), h.buf("out", 160, true)}; else { h.args = {h.buf("pk", 1408, true), h.buf("sk", 4064, true)}; if (f.find("seed") != std::string::npos) h.args.push_back(h.buf("seed", 160, true)); } if (!h.go(R)) return; finish(h, ct, R, "hybrid_runs"); });
  // 2. Dilithium: everything down to single coefficients; only what the scheme publishes is modelled
  jobs.push_back([=, &c](Report &R) { Run h(c.M, P + "crypto_sign_signature"); Ct ct; ct.sec["sk"] = {{32, 64}, {128, 2560}}; ct.attach(h.E, true); installSponge(h.E, nullptr); installRejection(h.E); installRandom(h.E, false); h.E.softLimit = 3; h.args = {h.buf("sig", 2420, true), h.buf("siglen", 8, true), h.buf("m", 100, false), C64(100), h.buf("sk", 2560, false)}; if (!h.go(R)) return; finish(h, ct, R, "dilithium_runs"); });
  for (std::string f : {"crypto_sign_keypair_seed", "crypto_sign_keypair"}) jobs.push_back([=, &c](Report &R) { if (!tweet(c.M, P + f)) { R.notes.insert(f + " not present"); return; } Run h(c.M, P + f); Ct ct; ct.sec["seed"] = ALL; ct.sec["rnd#"] = ALL; ct.attach(h.E, true); installSponge(h.E, nullptr); installRejection(h.E); installRandom(h.E, true); h.args = {h.buf("pk", 1312, true), h.buf("sk", 2560, true)}; if (f == "crypto_sign_keypair_seed") h.args.push_back(h.buf("seed", 32, false)); if (!h.go(R)) return; finish(h, ct, R, "dilithium_runs"); });
  // the norm test may reveal which coefficient is too large, nothing else: one way through for an accepted value, one for a rejected one
  for (u64 b = 0; b < 8; b++) jobs.push_back([=, &c](Report &R) { if (!tweet(c.M, P + "poly_chknorm")) { R.notes.insert("poly_chknorm not present"); return; } for (u64 i = b; i < 256; i += 8) { Run h(c.M, P + "poly_chknorm"); h.E.pathSensitive = true; h.args = {h.buf("a", PB, false), mkConst(32, (u64)G1B)}; for (u64 j = 0; j < 256; j++) h.E.storeBytes(h.s0, h.reg["a"], 4 * j, j == i ? mkLeaf("a", i, 32) : mkConst(32, 0), 4); if (!h.go(R)) return; std::set<std::string> acc, rej; for (auto &o : h.outs) { std::string t; for (auto p = o.st.trail; p; p = p->prev) t += std::to_string((uintptr_t)p->at) + (p->dir ? "+" : "-"); (mayBeZero(h.E, o.ret, o.st) ? acc : rej).insert(t); }
      R.oblig(acc.size() <= 1 && rej.size() <= 1, "C12:norm-paths", h.name, "the norm test takes " + std::to_string(acc.size()) + " different ways through an accepted and " + std::to_string(rej.size()) + " through a rejected coefficient " + std::to_string(i) + ", so its control flow reveals more than the rejection decision"); R.ok("norm_path_cases"); } });
  // 3. Ed25519: complete call trees
  for (u64 n : {0ull, 32ull, 64ull, 100ull, 200ull}) jobs.push_back([=, &c](Report &R) { Run h(c.M, "crypto_sign_ed25519_tweet"); Ct ct; ct.sec["sk"] = {{0, 32}}; ct.attach(h.E, true); h.args = {h.buf("sm", n + 64, true), h.buf("smlen", 8, true), h.buf("m", n ? n : 1, false), C64(n), h.buf("sk", 64, false)}; if (!h.go(R)) return; finish(h, ct, R, "ed25519_runs"); });
  for (std::string f : {"crypto_sign_ed25519_keypair_seed", "crypto_sign_ed25519_tweet_keypair"}) jobs.push_back([=, &c](Report &R) { if (!tweet(c.M, f)) { R.notes.insert(f + " not present"); return; } Run h(c.M, f); Ct ct; ct.sec["seed"] = ALL; ct.sec["rnd#"] = ALL; ct.attach(h.E, true); installRandom(h.E, true); h.args = {h.buf("pk", 32, true), h.buf("sk", 64, true)}; if (f.find("seed") != std::string::npos) h.args.push_back(h.buf("seed", 32, true)); if (!h.go(R)) return; finish(h, ct, R, "ed25519_runs"); });
  // 4. hash functions on secret data
  struct HF { const char *n; u64 out; bool xof; }; for (HF f : {HF{"shake128", 400, true}, HF{"shake256", 300, true}, HF{"sha3_256", 32, false}, HF{"sha3_384", 48, false}, HF{"sha3_512", 64, false}}) jobs.push_back([=, &c](Report &R) { if (!tweet(c.M, f.n)) { R.notes.insert(std::string(f.n) + " not present"); return; } for (u64 n : {0ull, 1ull, 71ull, 72ull, 135ull, 136ull, 168ull, 300ull}) { Run h(c.M, f.n); Ct ct; ct.sec["in"] = ALL; ct.attach(h.E, true); h.args = f.xof ? TV{h.buf("out", f.out, true), C64(f.out), h.buf("in", n ? n : 1, false), C64(n)} : TV{h.buf("out", f.out, true), h.buf("in", n ? n : 1, false), C64(n)}; if (!h.go(R)) return; finish(h, ct, R, "hash_runs"); } });
  for (std::string f : {"shake128", "shake256"}) jobs.push_back([=, &c](Report &R) { for (std::string x : {"_inc_init", "_inc_absorb", "_inc_finalize", "_inc_squeeze"}) if (!tweet(c.M, f + x)) { R.notes.insert(f + x + " not present"); return; }
    for (u64 n : {5ull, 136ull, 200ull}) { Run h(c.M, f + "_inc_init"); Ct ct; ct.sec["in"] = ALL; ct.attach(h.E, true); T cx = h.buf("ctx", 8, true), in = h.buf("in", n, false), out = h.buf("out", 300, true); Outcomes os = h.E.run(c.M.getFunction(f + "_inc_init"), {cx}, h.s0); auto step = [&](const std::string &g, TV a) { Outcomes nx; for (auto &o : os) for (auto &r : h.E.run(c.M.getFunction(f + g), a, o.st)) nx.push_back(r); os = nx; }; step("_inc_absorb", {cx, in, C64(n)}); step("_inc_absorb", {cx, in, C64(n)}); step("_inc_finalize", {cx}); step("_inc_squeeze", {out, C64(7), cx}); step("_inc_squeeze", {out, C64(300), cx}); if (!h.E.broken.empty()) { R.fail(h.E.broken); return; } finish(h, ct, R, "hash_runs"); } });
  // 5. SPHINCS+: the comparisons of C22/C32 re-run for what they branch on and address
  std::vector<Job> sj; sphincsJobs(c, sj, "C12", {"fors", "merkle", "sign", "keygen"});
  for (auto &j : sj) jobs.push_back([=, &c](Report &R) { Ct ct; ct.sec["ctx"] = {{32, 64}}; ct.sec["sk"] = {{0, 64}}; ct.sec["seed"] = {{0, 64}}; static const u32 X = intern("#XOF:shake256");
    ct.declass = [](T t) { const std::string &s = internName(t->a[0]->op); if (s.compare(0, 6, "#FORS.") == 0 || s.compare(0, 8, "#MERKLE.") == 0) return 1; if (t->a[0]->op != X || t->a.size() < 2) return 0; const TV &d = t->a[1]->a; if (d.size() < 64) return 0;
      static const u32 K = intern("sk"); if (d[0]->k == TK::Leaf && d[0]->op == K && d[0]->c == 32) return 1;   // the randomiser R is published
      if (d[51]->k == TK::Const && d[50]->k == TK::Const && d[50]->c == 0 && d[51]->c >= 1 && d[51]->c <= 4) return 1; return 0; };   // nodes and compressed public keys
    Engine::tap = [&](Engine &E) { ct.attach(E, false); }; Report t; j(t); Engine::tap = nullptr; if (!t.broken.empty()) R.fail(t.broken); R.notes.insert(t.notes.begin(), t.notes.end()); R.funcs.insert(t.funcs.begin(), t.funcs.end()); ct.report(R, "SPHINCS+"); R.ok("sphincs_runs"); });
  runJobs(jobs, R);
  R.sample("sign/keygen: every conditional branch, address, length and memcmp argument is public, except rejection decisions (poly_uniform*, poly_challenge, poly_chknorm, poly_make_hint)");
  if (R.broken.empty() && R.v.empty() && R.notes.empty() && (R.cnt["hybrid_runs"] < 18 || R.cnt["dilithium_runs"] < 3 || R.cnt["ed25519_runs"] < 7 || R.cnt["hash_runs"] < 40 || R.cnt["sphincs_runs"] < 20)) R.fail("rule instances below the confirmed count");
}
static Reg r12("C12", C12);
} // namespace pq
