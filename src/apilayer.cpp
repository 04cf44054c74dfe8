// C17 (sizes), C19 (WebAssembly wrappers).
#include "checks.h"
using namespace llvm;
namespace pq {
static const std::string D = "PQCLEAN_DILITHIUM2_CLEAN_", S = "PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_", H = "crypto_sign_dilithium_ed25519_sphincs", HC = "crypto_sign_compact_dilithium_ed25519_sphincs";
static T L(u64 v) { return mkConst(64, v); }

// first byte of [0,n) that still holds its initial value; n if none
static u64 firstUnwritten(Engine &E, State &s, int r, const std::string &name, u64 n) { TV g = E.readSeq(s, E.ptrTo(r), n); for (u64 i = 0; i < n; i++) if (g[i] == mkLeaf(name, i, 8)) return i; return n; }
static u64 firstUnused(Engine &E, State &s, std::vector<std::pair<int, u64>> outs, const std::string &leaf, u64 n) {
  std::unordered_set<T> seen; std::set<u64> used; u32 nm = intern(leaf); for (auto &o : outs) for (T t : E.readSeq(s, E.ptrTo(o.first), o.second)) containsLeaf(t, [&](T x) { if (x->k == TK::Leaf && x->op == nm) used.insert(x->c); return false; }, seen);
  for (u64 i = 0; i < n; i++) if (!used.count(i)) return i; return n; }

static void C17(Ctx &c, Report &R) {
  // 1. exported size constants
  struct K { const char *n; i64 v; };
  static const K consts[] = {{"MIN_MSG_LEN", 1}, {"MAX_MSG_LEN", 64}, {"LEN_BYTES", 2}, {"SEED_LENGTH_ED25519", 32}, {"CRYPTO_ED25519_PUBLICKEY_BYTES", 32}, {"CRYPTO_ED25519_SECRETKEY_BYTES", 64}, {"CRYPTO_ED25519_SIGNATURE_BYTES", 64}, {"CRYPTO_ED25519_SECRETKEY_WITHOUT_PUBLIC_KEY_BYTES", 32}, {"SEED_LENGTH_DILITHIUM", 32}, {"CRYPTO_DILITHIUM_PUBLICKEY_BYTES", 1312}, {"CRYPTO_DILITHIUM_SECRETKEY_BYTES", 2560}, {"CRYPTO_DILITHIUM_SIGNATURE_BYTES", 2420}, {"SEED_LENGTH_SPHINCS", 96}, {"CRYPTO_SPHINCS_PUBLICKEY_BYTES", 64}, {"CRYPTO_SPHINCS_SECRETKEY_BYTES", 128}, {"CRYPTO_SPHINCS_SIGNATURE_BYTES", 49856}, {"NONCE_BYTES", 40}, {"HASH_LENGTH", 64}, {"DILITHIUM_ED25519_SPHINCS_COMPACT_ID", 1}, {"DILITHIUM_ED25519_SPHINCS_FULL_ID", 2}};
  for (auto &k : consts) { auto *G = c.M.getNamedGlobal(k.n); if (!G || !G->hasInitializer()) continue; auto *CI = dyn_cast<ConstantInt>(G->getInitializer()); R.ok("constants"); R.oblig(CI && CI->getSExtValue() == k.v && G->isConstant(), std::string("C17:const:") + k.n, std::string("constant ") + k.n, std::string(k.n) + " is " + (CI ? std::to_string(CI->getSExtValue()) : "not a constant") + " but the schemes use " + std::to_string(k.v)); }
  std::vector<Job> jobs;
  // 2. size accessors
  struct A { std::string f; u64 v; }; for (A a : {A{S + "crypto_sign_secretkeybytes", 128}, A{S + "crypto_sign_publickeybytes", 64}, A{S + "crypto_sign_bytes", 49856}, A{S + "crypto_sign_seedbytes", 96}}) jobs.push_back([=, &c](Report &R) { Run h(c.M, a.f); if (!h.go(R)) return; for (auto &o : h.outs) { u64 v = 0; bool k = o.ret && h.E.constOf(o.ret, o.st, v); R.oblig(k && v == a.v, "C17:accessor:" + a.f, h.where(o), a.f + " reports " + (k ? std::to_string(v) : "a value that is not fixed") + ", the scheme uses " + std::to_string(a.v)); } R.ok("accessors"); });
  // 3. bytes actually read and written
  auto kg = [&](const std::string &f, u64 npk, u64 nsk, u64 nseed, std::function<void(Engine &)> inst) { jobs.push_back([=, &c](Report &R) { Run h(c.M, f); inst(h.E); h.args = {h.buf("pk", npk, true), h.buf("sk", nsk, true), h.buf("seed", nseed, true)}; ghost(h.E, h.s0, "rfail", 0); ghost(h.E, h.s0, "draws", 0); ghost(h.E, h.s0, "sfail", 0); if (!h.go(R)) return; u64 okx = 0;
      for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { okx++; u64 i = firstUnwritten(h.E, o.st, h.reg["pk"], "pk", npk); R.oblig(i == npk, "C17:extent:" + f + ":pk", h.where(o), f + " leaves byte " + std::to_string(i) + " of its " + std::to_string(npk) + "-byte public key unwritten"); i = firstUnwritten(h.E, o.st, h.reg["sk"], "sk", nsk); R.oblig(i == nsk, "C17:extent:" + f + ":sk", h.where(o), f + " leaves byte " + std::to_string(i) + " of its " + std::to_string(nsk) + "-byte secret key unwritten");
        i = firstUnused(h.E, o.st, {{h.reg["pk"], npk}, {h.reg["sk"], nsk}}, "seed", nseed); R.oblig(i == nseed, "C17:extent:" + f + ":seed", h.where(o), f + " never uses byte " + std::to_string(i) + " of its " + std::to_string(nseed) + "-byte seed"); }
      memObligations(h.E, R, "C17:mem", f); R.oblig(okx > 0, "C17:extent:" + f, f, f + " has no successful exit with buffers of the published sizes"); R.ok("extents"); }); };
  kg(D + "crypto_sign_keypair_seed", 1312, 2560, 32, [](Engine &E) { installSponge(E, nullptr); installDilithiumPoly(E); });
  kg(S + "crypto_sign_seed_keypair", 64, 128, 96, [](Engine &E) { installSponge(E, nullptr); });
  kg(H + "_keypair_seed", 1408, 4064, 160, [](Engine &E) { ModelOpts mo; installPrimitives(E, mo); installRandom(E, true); installSponge(E, nullptr); });
  // signatures: component signers fill exactly the published size and report it
  auto sg = [&](const std::string &f, u64 n, u64 nsk, std::function<void(Engine &)> inst) { jobs.push_back([=, &c](Report &R) { Run h(c.M, f); inst(h.E); installRandom(h.E, false); ghost(h.E, h.s0, "rfail", 0); ghost(h.E, h.s0, "draws", 0); h.E.softLimit = 3; T ml = mkLeaf("mlen", 0, 64); h.E.assume(mkCmp(O_ULT, ml, L(1ull << 60)), true, h.s0); h.args = {h.buf("sig", n, true), h.buf("siglen", 8, true), h.buf("m", ml, false), ml, h.buf("sk", nsk, false)}; if (!h.go(R)) return; u64 okx = 0;
      for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { okx++; u64 v = 0; T l = h.E.loadBytes(o.st, h.reg["siglen"], 0, 8); bool k = h.E.constOf(l, o.st, v); R.oblig(k && v == n, "C17:siglen:" + f, h.where(o), f + " reports a signature length of " + (k ? std::to_string(v) : "an unknown number of") + " bytes instead of the published " + std::to_string(n)); u64 i = firstUnwritten(h.E, o.st, h.reg["sig"], "sig", n); R.oblig(i == n, "C17:sigextent:" + f, h.where(o), f + " leaves byte " + std::to_string(i) + " of its " + std::to_string(n) + "-byte signature unwritten"); }
      memObligations(h.E, R, "C17:mem", f); R.oblig(okx > 0, "C17:sign:" + f, f, f + " has no successful exit with buffers of the published sizes"); R.ok("extents"); }); };
  sg(D + "crypto_sign_signature", 2420, 2560, [](Engine &E) { installSponge(E, nullptr); installDilithiumPoly(E); Engine *e = &E; (void)e;
    E.models[D + "pack_sig"] = [](CallCtx &x) { State s = x.st; x.E.access(s, x.args[0], L(2420), true, x.cb, "write"); x.E.havoc(s, x.args[0], L(2420), "packed"); return Outcomes{{s, nullptr, nullptr}}; }; });
  jobs.push_back([&c](Report &R) { Run h(c.M, D + "pack_sig"); installDilithiumPoly(h.E); h.args = {h.buf("sig", 2420, true), h.buf("c", 32, false), h.buf("z", 4096, false), h.buf("h", 4096, false)}; for (u64 j = 0; j < 1024; j++) h.E.storeBytes(h.s0, h.reg["h"], 4 * j, mkConst(32, j % 13 == 0), 4); if (!h.go(R)) return; for (auto &o : h.outs) { u64 i = firstUnwritten(h.E, o.st, h.reg["sig"], "sig", 2420); R.oblig(i == 2420, "C17:sigextent:pack_sig", h.where(o), "pack_sig leaves byte " + std::to_string(i) + " of the 2420-byte signature unwritten"); } memObligations(h.E, R, "C17:mem", h.name); R.ok("extents"); });
  if (c.M.getFunction(S + "fors_sign") && c.M.getFunction(S + "merkle_sign")) sg(S + "crypto_sign_signature", 49856, 128, [](Engine &E) { installSponge(E, nullptr); auto w = [](u64 n, u64 n2) { return [=](CallCtx &x) { State s = x.st; x.E.access(s, x.args[0], L(n), true, x.cb, "write"); x.E.access(s, x.args[1], L(n2), true, x.cb, "write"); x.E.havoc(s, x.args[0], L(n), "part"); x.E.havoc(s, x.args[1], L(n2), "node"); return Outcomes{{s, nullptr, nullptr}}; }; };
    E.models[S + "fors_sign"] = w(35 * 320, 32); E.models[S + "merkle_sign"] = w(67 * 32 + 4 * 32, 32); });
  // hybrid signing: reported length and extent for every message length
  for (bool full : {true, false}) jobs.push_back([=, &c](Report &R) { for (u64 k = 1; k <= 64; k++) { u64 n = (full ? 52342 : 2526) + k; Run h(c.M, full ? H : HC); ModelOpts mo; installPrimitives(h.E, mo); installRandom(h.E, true); installSponge(h.E, nullptr); ghost(h.E, h.s0, "rfail", 0); ghost(h.E, h.s0, "draws", 0); ghost(h.E, h.s0, "sfail", 0); h.args = {h.buf("sm", n, true), h.buf("smlen", 8, true), h.buf("m", k, false), L(k), h.buf("sk", 4064, false)}; if (!h.go(R)) return;
      for (auto &o : h.outs) if (mayBeZero(h.E, o.ret, o.st)) { u64 v = 0; bool kn = h.E.constOf(h.E.loadBytes(o.st, h.reg["smlen"], 0, 8), o.st, v); R.oblig(kn && v == n, "C17:smlen:" + h.name, h.where(o), h.name + " reports " + std::to_string(v) + " bytes for a " + std::to_string(k) + "-byte message; the documented parts sum to " + std::to_string(n)); u64 i = firstUnwritten(h.E, o.st, h.reg["sm"], "sm", n); R.oblig(i == n, "C17:smextent:" + h.name, h.where(o), h.name + " leaves byte " + std::to_string(i) + " of " + std::to_string(n) + " unwritten"); R.ok("hybrid_lengths"); }
      memObligations(h.E, R, "C17:mem", h.name); } });
  runJobs(jobs, R); R.sample("SPHINCS+ seed_keypair writes 64 + 128 bytes from a 96-byte seed; signature 49856 = 32 + 35*320 + 17*(67*32 + 4*32)");
  if (R.broken.empty() && R.v.empty() && (R.cnt["extents"] < 5 || R.cnt["accessors"] != 4 || R.cnt["hybrid_lengths"] < 128)) R.fail("rule instances below the confirmed count");
}
static Reg r17("C17", C17);

// ---- C19
static void C19(Ctx &c, Report &R) {
  std::vector<Job> jobs; struct W { const char *w, *op; unsigned n; };
  static const std::vector<W> ws{{"dp_sign_keypair_seed", "crypto_sign_dilithium_ed25519_sphincs_keypair_seed", 3}, {"dp_sign_keypair", "crypto_sign_dilithium_ed25519_sphincs_keypair", 2}, {"dp_sign", "crypto_sign_compact_dilithium_ed25519_sphincs", 5}, {"dp_sign_verify", "crypto_verify_compact_dilithium_ed25519_sphincs", 5}, {"dp_sign_seedexpander", "crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander", 2}, {"dp_randombytes", "randombytes", 2}, {"dp_seedexpander_wrapper", "seedexpander_wrapper", 4}};
  for (auto &w : ws) { if (!c.M.getFunction(w.w)) { R.fail(std::string("anchor vanished: ") + w.w); return; } if (!c.M.getFunction(w.op)) { R.fail(std::string("anchor vanished: ") + w.op); return; } }
  // every other exported library operation is opaque as well, so a wrapper that reaches one of them is seen
  for (auto &w : ws) jobs.push_back([=, &c](Report &R) {
    Run h(c.M, w.w); Engine &E = h.E; if (h.F->arg_size() != w.n) { R.fail(std::string(w.w) + " has an unexpected signature"); return; }
    for (auto &A : h.F->args()) { std::string n = "a" + std::to_string(A.getArgNo()); if (A.getType()->isPointerTy()) h.args.push_back(h.buf(n, 1 << 16, true)); else h.args.push_back(mkLeaf(n, 0, A.getType()->getIntegerBitWidth())); }
    ghost(E, h.s0, "called", 0); std::string other; T ret = mkLeaf("result", 0, 32); TV seen; bool orderOK = true; std::string why, at;
    const std::vector<std::string> ops{"crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander", "crypto_sign_dilithium_ed25519_sphincs_keypair_seed", "crypto_sign_dilithium_ed25519_sphincs_keypair", "crypto_sign_dilithium_ed25519_sphincs", "crypto_sign_dilithium_ed25519_sphincs_open", "crypto_verify_dilithium_ed25519_sphincs", "crypto_sign_compact_dilithium_ed25519_sphincs", "crypto_sign_compact_dilithium_ed25519_sphincs_open", "crypto_verify_compact_dilithium_ed25519_sphincs", "crypto_verify_dilithium", "randombytes", "seedexpander_wrapper"};
    for (auto &op : ops) if (c.M.getFunction(op)) E.models[op] = [&, op](CallCtx &x) { State s = x.st; u64 n = ghostGet(x.E, s, "called"); if (op == w.op) { bool same = x.args.size() == h.args.size(); for (size_t i = 0; i < x.args.size() && same; i++) { T a = x.args[i], b = h.args[i]; if (a->w != b->w) { if (a->w > b->w) b = mkZext(b, a->w); else same = false; } if (a != b && !x.E.equal(a, b, s)) { same = false; } if (!same && why.empty()) { why = "argument " + std::to_string(i) + " of " + op + " is not the wrapper's argument " + std::to_string(i); at = x.E.loc(x.cb); } }
          for (size_t i = 0; i < h.args.size(); i++) if (h.args[i]->k == TK::Ptr && !untouched(x.E, s, (int)h.args[i]->c, 1 << 16) && why.empty()) { same = false; why = "buffer " + std::to_string(i) + " was changed before the operation"; at = x.E.loc(x.cb); }
          if (!same) orderOK = false; ghostSet(x.E, s, "called", n + 1); for (size_t i = 0; i < x.args.size(); i++) if (x.args[i]->k == TK::Ptr) x.E.writeSeq(s, x.E.ptrTo((int)x.args[i]->c), appSeq("after", 1 << 16, {mkConst(8, i)})); return Outcomes{{s, ret, nullptr}}; }
        ghostSet(x.E, s, "called", n + 100); if (why.empty()) { why = "it calls " + op; at = x.E.loc(x.cb); } return Outcomes{{s, mkFresh("other", 32), nullptr}}; };
    if (!h.go(R)) return; std::string W = w.w;
    for (auto &o : h.outs) { R.oblig(ghostGet(E, o.st, "called") == 1 && orderOK, "C19:" + W + ":forward", at.empty() ? h.where(o) : at, W + " does not call " + w.op + " exactly once with its own arguments in order" + (why.empty() ? "" : ": " + why), E.path(o.st)); R.oblig(o.ret == ret || (o.ret && E.equal(o.ret, ret, o.st)), "C19:" + W + ":result", h.where(o), W + " does not return the result of " + w.op + " unchanged (returns " + (o.ret ? show(o.ret, 3) : "nothing") + ")", E.path(o.st));
      for (size_t i = 0; i < h.args.size(); i++) if (h.args[i]->k == TK::Ptr) R.oblig(E.readSeq(o.st, h.args[i], 1 << 16) == appSeq("after", 1 << 16, {mkConst(8, i)}), "C19:" + W + ":buffers", h.where(o), W + " changes buffer " + std::to_string(i) + " after the operation"); }
    memObligations(E, R, "C19:mem", W); R.ok("wrappers"); R.sample(W + "(args) = " + w.op + "(args), one call, result unchanged"); });
  for (std::string f : {"mem_alloc", "mem_alloc_long_long"}) if (c.M.getFunction(f)) jobs.push_back([=, &c](Report &R) { Run h(c.M, f); T n = mkLeaf("size", 0, 64); h.args = {n}; bool ok = true; if (!h.go(R)) return; u64 got = 0; for (auto &o : h.outs) { if (o.ret && o.ret->k == TK::Ptr) { got++; const Region *r = h.E.rreg(o.st, (int)o.ret->c); ok = r && r->heap && !r->freed && isC(o.ret->a[0], 0) && (r->size == n || h.E.provLE(n, r->size, o.st)); R.oblig(ok, "C19:" + f, h.where(o), f + " does not return a fresh heap object of the requested size"); } else R.oblig(o.ret && isC(o.ret, 0), "C19:" + f, h.where(o), f + " can return something other than heap memory or null"); } R.oblig(got > 0, "C19:" + f, f, f + " never returns memory"); R.ok("wrappers"); });
  if (c.M.getFunction("mem_free")) jobs.push_back([&c](Report &R) { for (u64 n : {1, 8, 64, 4064}) { Run h(c.M, "mem_free"); Engine &E = h.E; T p = h.buf("p", n, true); E.wreg(h.s0, h.reg["p"]).heap = true; h.args = {p, L(n)}; ghost(E, h.s0, "freed", 0); bool wiped = true; u64 bad = 0; std::string at;
      E.models["free"] = [&](CallCtx &x) { State s = x.st; at = x.E.loc(x.cb); ghostSet(x.E, s, "freed", ghostGet(x.E, s, "freed") + 1 + (x.args[0] == p ? 0 : 100)); TV g = x.E.readSeq(s, p, n); for (u64 i = 0; i < n; i++) if (!isC(g[i], 0)) { wiped = false; bad = i; } return Outcomes{{s, nullptr, nullptr}}; };
      if (!h.go(R)) return; for (auto &o : h.outs) R.oblig(ghostGet(E, o.st, "freed") == 1 && wiped, "C19:mem_free", at.empty() ? h.where(o) : at, "mem_free of " + std::to_string(n) + " bytes does not clear every byte and release the memory once" + (wiped ? "" : " (byte " + std::to_string(bad) + " not cleared)")); memObligations(E, R, "C19:mem", "mem_free"); } R.ok("wrappers"); });
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && R.cnt["wrappers"] < ws.size()) R.fail("rule instances below the confirmed count");
}
static Reg r19("C19", C19);
} // namespace pq
