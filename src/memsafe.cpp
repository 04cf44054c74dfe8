// C25: memory safety of the component schemes for arbitrary contents of all buffers.
#include "dil.h"
using namespace llvm;
namespace pq {
using namespace dil;
void sphincsJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, const std::set<std::string> &which);
static const std::string SPX = "PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_";
const Function *keccakPerm(Module &M);
// data bytes (anything but lengths, counters and loop variables) need not be told apart
static bool dataTerm(T t, int d = 0) { if (t->k == TK::Leaf) { const std::string &n = internName(t->op); return n != "n" && n != "o" && (n[0] != '?' || n.compare(0, 4, "?hav") == 0 || n.compare(0, 4, "?sym") == 0); } if (d > 3 || (t->k != TK::Concat && t->k != TK::Byte)) return false; for (T x : t->a) if (dataTerm(x, d + 1)) return true; return false; }
static bool have(Ctx &c, Report &R, const std::string &f, size_t n) { auto *F = c.M.getFunction(f); if (F && !F->isDeclaration() && F->arg_size() == n) return true; R.notes.insert(f + " not found with its interface: analysed only through its callers"); return false; }
static void done(Run &h, Report &R, const std::string &ctr) { memObligations(h.E, R, "C25", h.name); R.ok(ctr); }
// argument descriptors: "wN" writable buffer, "rN" read-only buffer, "iN" unknown N-bit value, "cB:V" constant
static TV argsOf(Run &h, const std::vector<std::string> &d) { TV a; int k = 0; for (auto &s : d) { std::string n = "arg" + std::to_string(k++); if (s[0] == 'w' || s[0] == 'r') a.push_back(h.buf(n, std::stoull(s.substr(1)), s[0] == 'w')); else if (s[0] == 'i') a.push_back(mkLeaf(n, 0, std::stoul(s.substr(1)))); else { size_t q = s.find(':'); a.push_back(mkConst(std::stoul(s.substr(1, q - 1)), std::stoull(s.substr(q + 1)))); } } return a; }
static bool streamOnly(T t, int d = 0) { if (t->k == TK::Const) return true; if (t->k == TK::Leaf) { const std::string &n = internName(t->op); return n.compare(0, 7, "digest#") == 0 || n.compare(0, 7, "?capped") == 0 || n.compare(0, 4, "?sym") == 0 || n.compare(0, 4, "?hav") == 0 || n.compare(0, 7, "uninit:") == 0; } if (d > 20 || t->k == TK::Ptr || t->k == TK::Fn) return false; for (T x : t->a) if (!streamOnly(x, d + 1)) return false; return true; }
static void C25(Ctx &c, Report &R) {
  for (std::string f : {P + "crypto_sign_verify", P + "crypto_sign_signature", SPX + "crypto_sign_verify", SPX + "crypto_sign_signature", std::string("shake256")}) if (!c.M.getFunction(f)) { R.fail("anchor vanished: " + f); return; }
  std::vector<Job> jobs; const std::string p = "1024", v = "4096";
  // 1. Dilithium arithmetic and packing, each on buffers of exactly the documented size
  struct F { std::string n; std::vector<std::string> a; };
  std::vector<F> fs; for (std::string f : {"reduce", "caddq", "shiftl", "ntt", "invntt_tomont"}) fs.push_back({"poly_" + f, {"w" + p}}); for (std::string f : {"add", "sub", "pointwise_montgomery"}) fs.push_back({"poly_" + f, {"w" + p, "r" + p, "r" + p}});
  for (std::string f : {"power2round", "decompose"}) fs.push_back({"poly_" + f, {"w" + p, "w" + p, "r" + p}}); for (std::string f : {"make_hint", "use_hint"}) fs.push_back({"poly_" + f, {"w" + p, "r" + p, "r" + p}}); fs.push_back({"poly_chknorm", {"r" + p, "i32"}}); fs.push_back({"ntt", {"w" + p}}); fs.push_back({"invntt_tomont", {"w" + p}});
  for (auto k : std::vector<std::pair<std::string, std::string>>{{"eta", "96"}, {"t1", "320"}, {"t0", "416"}, {"z", "576"}, {"w1", "192"}}) { fs.push_back({"poly" + k.first + "_pack", {"w" + k.second, "r" + p}}); if (k.first != "w1") fs.push_back({"poly" + k.first + "_unpack", {"w" + p, "r" + k.second}}); }
  for (std::string l : {"l", "k"}) { for (std::string f : {"reduce", "ntt", "invntt_tomont"}) fs.push_back({"polyvec" + l + "_" + f, {"w" + v}}); fs.push_back({"polyvec" + l + "_add", {"w" + v, "r" + v, "r" + v}}); fs.push_back({"polyvec" + l + "_pointwise_poly_montgomery", {"w" + v, "r" + p, "r" + v}}); fs.push_back({"polyvec" + l + "_chknorm", {"r" + v, "c32:130994"}}); }
  fs.push_back({"polyveck_caddq", {"w" + v}}); fs.push_back({"polyveck_shiftl", {"w" + v}}); fs.push_back({"polyveck_sub", {"w" + v, "r" + v, "r" + v}}); for (std::string f : {"power2round", "decompose"}) fs.push_back({"polyveck_" + f, {"w" + v, "w" + v, "r" + v}}); for (std::string f : {"make_hint", "use_hint"}) fs.push_back({"polyveck_" + f, {"w" + v, "r" + v, "r" + v}}); fs.push_back({"polyveck_pack_w1", {"w768", "r" + v}});
  fs.push_back({"polyvecl_pointwise_acc_montgomery", {"w" + p, "r" + v, "r" + v}}); fs.push_back({"polyvec_matrix_pointwise_montgomery", {"w" + v, "r16384", "r" + v}});
  fs.push_back({"pack_pk", {"w1312", "r32", "r" + v}}); fs.push_back({"unpack_pk", {"w32", "w" + v, "r1312"}}); fs.push_back({"pack_sk", {"w2560", "r32", "r64", "r32", "r" + v, "r" + v, "r" + v}}); fs.push_back({"unpack_sk", {"w32", "w64", "w32", "w" + v, "w" + v, "w" + v, "r2560"}});
  for (u64 b = 0; b < 8; b++) jobs.push_back([=, &c](Report &R) { for (size_t i = b; i < fs.size(); i += 8) { auto &f = fs[i]; if (!have(c, R, P + f.n, f.a.size())) continue; Run h(c.M, P + f.n); h.E.termCap = 6; h.E.partBudget = 16; h.args = argsOf(h, f.a); if (!h.go(R)) return; done(h, R, "dilithium_functions"); } });
  // 2. rejection samplers on arbitrary streams: every acceptance count.  Two sound ways of treating the loops; a proof by either counts.
  struct Cf { unsigned soft; u64 hard; unsigned part; size_t wide; bool step; };
  for (std::string f : {"uniform", "uniform_eta", "uniform_gamma1", "challenge"}) jobs.push_back([=, &c](Report &R) {
    bool ch = f == "challenge"; if (!have(c, R, P + "poly_" + f, ch ? 2 : 3)) return;
    std::vector<Cf> cf = {{3, 6, 64, 0, true}, {3, 400000, 400, 400, false}, {3, 6, 256, 0, true}, {12, 12, 200, 0, true}}; if (ch) std::swap(cf[0], cf[1]);
    Report first; bool have1 = false;
    for (auto &k : cf) {
      Report t; Run h(c.M, P + "poly_" + f); Engine &E = h.E; E.termCap = 8; E.partBudget = k.part; E.widenParts = k.wide; E.stepWiden = k.step; E.softLimit = k.soft; E.hardLimit = k.hard; E.weakLimit = 0; E.sinkAbove = 100; E.stepLimit = 3000000; E.dull = [](T t) { return streamOnly(t); }; installSponge(E, nullptr, true);
      h.args = ch ? argsOf(h, {"w" + p, "r32"}) : argsOf(h, {"w" + p, f == "uniform" ? "r32" : "r64", "i16"}); E.wreg(h.s0, h.reg["arg0"]).sink = true;
      if (h.go(t)) done(h, t, "sampler_runs");
      if (t.broken.empty() && t.v.empty()) { R.merge(t); return; }
      if (!have1 && t.broken.empty()) { first = t; have1 = true; }
    }
    if (have1) R.merge(first); else R.fail("C25: sampler " + f + " could not be analysed"); });
  // 3. signature decoding on arbitrary bytes
  jobs.push_back([=, &c](Report &R) { if (!have(c, R, P + "unpack_sig", 4)) return; Run h(c.M, P + "unpack_sig"); h.E.weakLimit = 0; h.E.partBudget = 400; installDilithiumPoly(h.E); h.args = {h.buf("c", 32, true), h.buf("z", 4096, true), h.buf("h", 4096, true), h.buf("sig", 2420, false)}; h.E.wreg(h.s0, h.reg["h"]).sink = true; if (!h.go(R)) return; done(h, R, "decoder_runs"); });
  // 4. top-level Dilithium operations
  auto top = [&](const std::string &f, std::function<void(Run &, T)> set) { jobs.push_back([=, &c](Report &R) { if (!c.M.getFunction(P + f)) { R.notes.insert(f + " not present"); return; } Run h(c.M, P + f); Engine &E = h.E; installDilithiumPoly(E); installSponge(E, &h.lc); installRandom(E, true); E.softLimit = 3; E.weakLimit = 0; T n = mkLeaf("n", 0, 64); E.assume(mkCmp(O_ULT, n, C64(1ull << 40)), true, h.s0); set(h, n); if (!h.go(R)) return; done(h, R, "dilithium_top"); }); };
  auto hints = [](Run &h) { h.E.models[P + "pack_sig"] = [](CallCtx &x) { State s = x.st; rd(x, s, 1, 32); rd(x, s, 2, 4096); rd(x, s, 3, 4096); wr(x, s, 0, app("packedsig", 2420, {x.args[0]})); return one(s); }; h.E.models[P + "unpack_sig"] = [](CallCtx &x) { State s = x.st; rd(x, s, 3, 2420); for (int i = 0; i < 3; i++) { u64 n = i ? 4096 : 32; x.E.access(s, x.args[i], C64(n), true, x.cb, "write"); x.E.havoc(s, x.args[i], C64(n), "decoded"); } Outcomes o; o.push_back({s, mkConst(32, 0), nullptr}); o.push_back({s, mkConst(32, 1), nullptr}); return o; }; };
  top("crypto_sign_keypair_seed", [](Run &h, T) { h.args = {h.buf("pk", 1312, true), h.buf("sk", 2560, true), h.buf("seed", 32, false)}; });
  top("crypto_sign_keypair", [](Run &h, T) { h.args = {h.buf("pk", 1312, true), h.buf("sk", 2560, true)}; });
  top("crypto_sign_signature", [=](Run &h, T n) { hints(h); h.args = {h.buf("sig", 2420, true), h.buf("siglen", 8, true), h.buf("m", n, false), n, h.buf("sk", 2560, false)}; });
  top("crypto_sign", [=](Run &h, T n) { hints(h); h.args = {h.buf("sm", mkAdd(n, C64(2420)), true), h.buf("smlen", 8, true), h.buf("m", n, false), n, h.buf("sk", 2560, false)}; });
  top("crypto_sign_verify", [=](Run &h, T n) { hints(h); T sl = mkLeaf("siglen", 0, 64); h.E.assume(mkCmp(O_ULT, sl, C64(1ull << 40)), true, h.s0); h.args = {h.buf("sig", sl, false), sl, h.buf("m", n, false), n, h.buf("pk", 1312, false)}; });
  top("crypto_sign_open", [=](Run &h, T n) { hints(h); h.args = {h.buf("m", n, true), h.buf("mlen", 8, true), h.buf("sm", n, false), n, h.buf("pk", 1312, false)}; });
  // 5. SPHINCS+ parts on arbitrary digests, then the comparisons of C22 for their accesses
  auto spx = [&](const std::string &f, std::vector<std::string> a) { jobs.push_back([=, &c](Report &R) { if (!have(c, R, SPX + f, a.size())) return; Run h(c.M, SPX + f); Engine &E = h.E; installSponge(E, nullptr, true); E.softLimit = 40; E.termCap = 12; E.partBudget = 16; h.args = argsOf(h, a); if (!h.go(R)) return; done(h, R, "sphincs_arbitrary"); }); };
  spx("chain_lengths", {"w268", "r32"}); spx("wots_pk_from_sig", {"w2144", "r2144", "r32", "r64", "w32"}); spx("fors_pk_from_sig", {"w32", "r11200", "r40", "r64", "w32"});
  std::vector<Job> sj; sphincsJobs(c, sj, "C25", {"fors", "merkle", "root", "verify", "sign", "keygen"});
  for (auto &j : sj) jobs.push_back([=, &c](Report &R) { Report t; j(t); if (!t.broken.empty()) { R.fail(t.broken); return; } std::vector<Violation> keep; for (auto &x : t.v) if (x.key.compare(0, 7, "C25:mem") == 0) keep.push_back(x); t.v = keep; t.cnt["violating_instances"] = keep.size(); R.merge(t); R.ok("sphincs_runs"); });
  // 6. hash functions and TweetNaCl, complete call trees, contents arbitrary, lengths around every block boundary
  auto any = [&](const std::string &f, const std::string &ctr, std::vector<u64> ns, std::function<void(Run &, u64)> set) { for (u64 n : ns) jobs.push_back([=, &c](Report &R) { auto *F = c.M.getFunction(f); if (!F || F->isDeclaration()) { R.notes.insert(f + " not present"); return; } Run h(c.M, f); Engine &E = h.E; E.secret = [](T t) { return dataTerm(t); }; E.weakLimit = 0; installRandom(E, true); if (auto *K = keccakPerm(c.M)) E.models[K->getName().str()] = [](CallCtx &x) { State s = x.st; x.E.access(s, x.args[0], C64(200), true, x.cb, "write"); x.E.havoc(s, x.args[0], C64(200), "digest#kf"); return one(s); };
    set(h, n); if (!h.go(R)) return; done(h, R, ctr); }); };
  std::vector<u64> hl{0, 1, 7, 8, 71, 72, 73, 103, 104, 105, 135, 136, 137, 144, 167, 168, 169, 272, 336, 337, 1000}; if (c.thorough) for (u64 i = 0; i <= 400; i++) hl.push_back(i);
  for (std::string f : {"shake128", "shake256"}) for (u64 o : {0, 1, 32, 135, 136, 137, 168, 169, 400}) any(f, "hash_lengths", hl, [=](Run &h, u64 n) { h.args = {h.buf("out", o, true), C64(o), h.buf("in", n, false), C64(n)}; });
  for (auto &k : std::vector<std::pair<std::string, u64>>{{"sha3_256", 32}, {"sha3_384", 48}, {"sha3_512", 64}}) any(k.first, "hash_lengths", hl, [=](Run &h, u64 n) { h.args = {h.buf("out", k.second, true), h.buf("in", n, false), C64(n)}; });
  std::vector<u64> sl{0, 1, 32, 64, 127, 128, 129, 200}; if (c.thorough) for (u64 i = 2; i < 300; i += 7) sl.push_back(i);
  any("crypto_hash_sha512_tweet", "tweetnacl_runs", sl, [](Run &h, u64 n) { h.args = {h.buf("out", 64, true), h.buf("in", n, false), C64(n)}; });
  any("crypto_sign_ed25519_tweet", "tweetnacl_runs", {0, 32, 64, 150}, [](Run &h, u64 n) { h.args = {h.buf("sm", n + 64, true), h.buf("smlen", 8, true), h.buf("m", n, false), C64(n), h.buf("sk", 64, false)}; });
  any("crypto_sign_ed25519_tweet_open", "tweetnacl_runs", {0, 1, 63, 64, 96, 128, 200}, [](Run &h, u64 n) { h.args = {h.buf("m", n, true), h.buf("mlen", 8, true), h.buf("sm", n, false), C64(n), h.buf("pk", 32, false)}; });
  any("crypto_sign_ed25519_keypair_seed", "tweetnacl_runs", {0}, [](Run &h, u64) { h.args = {h.buf("pk", 32, true), h.buf("sk", 64, true), h.buf("seed", 32, false)}; });
  any("crypto_sign_ed25519_tweet_keypair", "tweetnacl_runs", {0}, [](Run &h, u64) { h.args = {h.buf("pk", 32, true), h.buf("sk", 64, true)}; });
  for (std::string f : {"crypto_secretbox_xsalsa20poly1305_tweet", "crypto_secretbox_xsalsa20poly1305_tweet_open"}) any(f, "tweetnacl_runs", {0, 1, 31, 32, 33, 48, 63, 64, 65, 100, 128, 200}, [](Run &h, u64 n) { h.args = {h.buf("c", n, true), h.buf("m", n, false), C64(n), h.buf("nonce", 24, false), h.buf("key", 32, false)}; });
  for (std::string f : {"crypto_box_curve25519xsalsa20poly1305_tweet", "crypto_box_curve25519xsalsa20poly1305_tweet_open"}) any(f, "tweetnacl_runs", {31, 32, 33, 100}, [](Run &h, u64 n) { h.args = {h.buf("c", n, true), h.buf("m", n, false), C64(n), h.buf("nonce", 24, false), h.buf("pk", 32, false), h.buf("sk", 32, false)}; });
  runJobs(jobs, R);
  R.sample("rej_uniform: a[ctr0+i] written only under i < 256-ctr0, so 4*ctr0+4*i+4 <= 1024; buf[pos..pos+3) read only under pos+3 <= buflen <= 842");
  if (R.broken.empty() && R.v.empty() && R.notes.empty() && (R.cnt["dilithium_functions"] < 50 || R.cnt["sampler_runs"] != 4 || R.cnt["decoder_runs"] != 1 || R.cnt["dilithium_top"] < 6 || R.cnt["sphincs_arbitrary"] < 3 || R.cnt["sphincs_runs"] < 30 || R.cnt["hash_lengths"] < 400 || R.cnt["tweetnacl_runs"] < 50)) R.fail("rule instances below the confirmed count");
}
static Reg r25("C25", C25);
} // namespace pq
