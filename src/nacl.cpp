// C23, C24, C31: TweetNaCl. Field and group operations are uninterpreted; hashing, comparison, copying and
// control flow are analysed from the source.
#include "checks.h"
using namespace llvm;
namespace pq {
static T L(u64 v) { return mkConst(64, v); }
static TV cat(TV a, const TV &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static TV slice(const TV &v, u64 a, u64 n) { return TV(v.begin() + a, v.begin() + a + n); }
static Outcomes one(State s, T r = nullptr) { Outcomes o; o.push_back({std::move(s), r, nullptr}); return o; }
static TV rd(CallCtx &c, State &s, unsigned i, u64 n) { c.E.access(s, c.args[i], L(n), false, c.cb, "read"); return c.E.readSeq(s, c.args[i], n); }
static void wr(CallCtx &c, State &s, unsigned i, const TV &v) { c.E.access(s, c.args[i], L(v.size()), true, c.cb, "write"); c.E.writeSeq(s, c.args[i], v); }
static void mark(State &s, CallCtx &c, int d) { auto t = std::make_shared<Trail>(); t->prev = s.trail; t->at = c.cb; t->dir = d; t->len = s.trail ? s.trail->len + 1 : 1; s.trail = t; }
static const u64 PT = 512;                                     // bytes of a group element (4 x 16 x 8)
static TV app(const std::string &f, u64 n, const TV &a) { return appSeq(f, n, a); }
static std::string diffAt(const TV &a, const TV &b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return "byte " + std::to_string(i) + " is " + show(a[i], 2) + ", expected " + show(b[i], 2); return "lengths differ"; }
// a static helper of tweetnacl.c by name (static names survive linking, possibly with a numeric suffix)
static const Function *helper(Module &M, const std::string &n) {
  auto *A = M.getFunction("crypto_sign_ed25519_tweet_open"); if (!A || !A->getSubprogram()) return nullptr; auto file = A->getSubprogram()->getFilename();
  for (auto &F : M) { if (F.isDeclaration() || !F.getSubprogram() || F.getSubprogram()->getFilename() != file) continue; if (F.getSubprogram()->getName() == n) return &F; } return nullptr; }
static bool model(Engine &E, const std::string &n, unsigned args, Model m) { auto *F = helper(E.M, n); if (!F || F->arg_size() != args) return false; E.models[F->getName().str()] = m; return true; }

// ---------------------------------------------------------------- SHA-512 reference
static const u64 K512[80] = {
 0x428a2f98d728ae22ull,0x7137449123ef65cdull,0xb5c0fbcfec4d3b2full,0xe9b5dba58189dbbcull,0x3956c25bf348b538ull,0x59f111f1b605d019ull,0x923f82a4af194f9bull,0xab1c5ed5da6d8118ull,
 0xd807aa98a3030242ull,0x12835b0145706fbeull,0x243185be4ee4b28cull,0x550c7dc3d5ffb4e2ull,0x72be5d74f27b896full,0x80deb1fe3b1696b1ull,0x9bdc06a725c71235ull,0xc19bf174cf692694ull,
 0xe49b69c19ef14ad2ull,0xefbe4786384f25e3ull,0x0fc19dc68b8cd5b5ull,0x240ca1cc77ac9c65ull,0x2de92c6f592b0275ull,0x4a7484aa6ea6e483ull,0x5cb0a9dcbd41fbd4ull,0x76f988da831153b5ull,
 0x983e5152ee66dfabull,0xa831c66d2db43210ull,0xb00327c898fb213full,0xbf597fc7beef0ee4ull,0xc6e00bf33da88fc2ull,0xd5a79147930aa725ull,0x06ca6351e003826full,0x142929670a0e6e70ull,
 0x27b70a8546d22ffcull,0x2e1b21385c26c926ull,0x4d2c6dfc5ac42aedull,0x53380d139d95b3dfull,0x650a73548baf63deull,0x766a0abb3c77b2a8ull,0x81c2c92e47edaee6ull,0x92722c851482353bull,
 0xa2bfe8a14cf10364ull,0xa81a664bbc423001ull,0xc24b8b70d0f89791ull,0xc76c51a30654be30ull,0xd192e819d6ef5218ull,0xd69906245565a910ull,0xf40e35855771202aull,0x106aa07032bbd1b8ull,
 0x19a4c116b8d2d0c8ull,0x1e376c085141ab53ull,0x2748774cdf8eeb99ull,0x34b0bcb5e19b48a8ull,0x391c0cb3c5c95a63ull,0x4ed8aa4ae3418acbull,0x5b9cca4f7763e373ull,0x682e6ff3d6b2b8a3ull,
 0x748f82ee5defb2fcull,0x78a5636f43172f60ull,0x84c87814a1f0ab72ull,0x8cc702081a6439ecull,0x90befffa23631e28ull,0xa4506cebde82bde9ull,0xbef9a3f7b2c67915ull,0xc67178f2e372532bull,
 0xca273eceea26619cull,0xd186b8c721c0c207ull,0xeada7dd6cde0eb1eull,0xf57d4f7fee6ed178ull,0x06f067aa72176fbaull,0x0a637dc5a2c898a6ull,0x113f9804bef90daeull,0x1b710b35131c471bull,
 0x28db77f523047d84ull,0x32caab7b40c72493ull,0x3c9ebe0a15c9bebcull,0x431d67c49c100d4cull,0x4cc5d4becb3e42b6ull,0x597f299cfc657e2aull,0x5fcb6fab3ad6faecull,0x6c44198c4a475817ull};
static const u64 IV512[8] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
static T X(T a, T b) { return mkBin(Instruction::Xor, a, b); }
static T N(T a, T b) { return mkBin(Instruction::And, a, b); }
static T rotr(T x, unsigned k) { return mkBin(Instruction::Or, mkBin(Instruction::LShr, x, L(k)), mkBin(Instruction::Shl, x, L(64 - k))); }
static TV be(T w) { TV r(8); for (int i = 0; i < 8; i++) r[i] = mkByte(w, 7 - i); return r; }
static TV words(const TV &st) { TV z; for (size_t i = 0; i < st.size() / 8; i++) { TV b; for (int j = 7; j >= 0; j--) b.push_back(st[8 * i + j]); z.push_back(mkConcat(b)); } return z; }
static TV unwords(const TV &z) { TV out; for (T w : z) out = cat(out, be(w)); return out; }
static TV refBlock(const TV &z, const TV &blk) {
  T a[8], w[80]; for (int i = 0; i < 8; i++) a[i] = z[i]; for (int i = 0; i < 16; i++) { TV b; for (int j = 7; j >= 0; j--) b.push_back(blk[8 * i + j]); w[i] = mkConcat(b); }
  for (int i = 16; i < 80; i++) w[i] = mkAdd(mkAdd(w[i - 16], w[i - 7]), mkAdd(X(X(rotr(w[i - 15], 1), rotr(w[i - 15], 8)), mkBin(Instruction::LShr, w[i - 15], L(7))), X(X(rotr(w[i - 2], 19), rotr(w[i - 2], 61)), mkBin(Instruction::LShr, w[i - 2], L(6)))));
  for (int i = 0; i < 80; i++) {
    T S1 = X(X(rotr(a[4], 14), rotr(a[4], 18)), rotr(a[4], 41)), ch = X(N(a[4], a[5]), N(X(a[4], L(~0ull)), a[6])), t = mkAdd(mkAdd(mkAdd(a[7], S1), mkAdd(ch, L(K512[i]))), w[i]);
    T S0 = X(X(rotr(a[0], 28), rotr(a[0], 34)), rotr(a[0], 39)), mj = X(X(N(a[0], a[1]), N(a[0], a[2])), N(a[1], a[2]));
    T n0 = mkAdd(t, mkAdd(S0, mj)), n4 = mkAdd(a[3], t); for (int j = 7; j > 0; j--) a[j] = a[j - 1]; a[0] = n0; a[4] = n4; }
  TV out; for (int i = 0; i < 8; i++) out.push_back(mkAdd(z[i], a[i])); return out; }
static TV opaqueBlock(const TV &st, const TV &blk) { return app("SHA512.block", 64, {mkSeq(st), mkSeq(blk)}); }
static TV refHash(const TV &m) { TV p = m; p.push_back(mkConst(8, 128)); while (p.size() % 128 != 112) p.push_back(mkConst(8, 0)); for (int i = 0; i < 8; i++) p.push_back(mkConst(8, 0)); TV len = be(L(m.size() * 8)); p = cat(p, len); TV st; for (int i = 0; i < 8; i++) st = cat(st, be(L(IV512[i]))); for (u64 o = 0; o < p.size(); o += 128) st = opaqueBlock(st, slice(p, o, 128)); return st; }
void installHashBlocks(Engine &E);
static void hashJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id) {
  jobs.push_back([=, &c](Report &R) { std::string f = "crypto_hashblocks_sha512_tweet"; if (!c.M.getFunction(f)) { R.notes.insert("no separate compression function: the hash is compared as a whole only"); return; }
    std::set<u64> bl{0, 127, 128, 256, 300, 1000}; for (u64 x : sourceLengths(c.M, {f}, c.thorough ? 9000 : 1100)) bl.insert(x); for (u64 n : bl) { Run h(c.M, f); h.args = {h.buf("x", 64, true), h.buf("m", n ? n : 1, false), L(n)}; if (!h.go(R)) return; TV st = leafSeq("x", 0, 64), m = leafSeq("m", 0, n); TV z = words(st); for (u64 o = 0; o + 128 <= n; o += 128) z = refBlock(z, slice(m, o, 128)); if (n >= 128) st = unwords(z); for (auto &o : h.outs) { TV g = h.E.readSeq(o.st, h.args[0], 64); R.oblig(g == st, id + ":compression", h.where(o), "the SHA-512 compression of " + std::to_string(n) + " bytes differs from the standard: " + diffAt(g, st)); } memObligations(h.E, R, id + ":mem", f); R.ok("hash_comparisons"); } });
  for (u64 b = 0; b < 8; b++) jobs.push_back([=, &c](Report &R) { std::vector<u64> ns; u64 top = c.thorough ? 700 : 300; for (u64 n = b; n <= top; n += 8) ns.push_back(n); for (u64 x : sourceLengths(c.M, {"crypto_hash_sha512_tweet"}, 70000, top + 1)) if (x % 8 == b) ns.push_back(x); for (u64 n : ns) { Run h(c.M, "crypto_hash_sha512_tweet"); installHashBlocks(h.E); h.args = {h.buf("out", 64, true), h.buf("m", n ? n : 1, false), L(n)}; if (!h.go(R)) return; TV w = refHash(leafSeq("m", 0, n));
      for (auto &o : h.outs) { TV g = h.E.readSeq(o.st, h.args[0], 64); R.oblig(g == w, id + ":hash", h.where(o), "SHA-512 of a " + std::to_string(n) + "-byte message differs from the standard padding and chaining: " + diffAt(g, w)); } memObligations(h.E, R, id + ":mem", h.name); R.ok("hash_comparisons"); } });
  // lengths far beyond memory: the blocks before the tail as one opaque range
  for (u64 base : {1ull << 24, 1ull << 29, 1ull << 31, 1ull << 32, 1ull << 40, 1ull << 53, (1ull << 61) - 128, 1ull << 61}) for (u64 t : {0, 1, 111, 112, 127}) jobs.push_back([=, &c](Report &R) { if (!c.M.getFunction("crypto_hashblocks_sha512_tweet")) return; u64 n = base + t; Run h(c.M, "crypto_hash_sha512_tweet"); if (!h.F || h.F->isDeclaration()) return; installHashBlocks(h.E); h.E.hardLimit = 5000; T m = h.buf("m", n, false), out = h.buf("out", 64, true); h.args = {out, m, L(n)}; h.outs = h.E.run(h.F, h.args, h.s0); if (!h.E.broken.empty()) { R.notes.insert("SHA-512 of a message beyond memory not compared: " + h.E.broken.substr(0, 80)); return; }
    TV st; for (int i = 0; i < 8; i++) st = cat(st, be(L(IV512[i]))); st = app("SHA512.blocks", 64, {mkSeq(st), m, L(n / 128 * 128)}); TV p = leafSeq("m", n / 128 * 128, n % 128); p.push_back(mkConst(8, 128)); while (p.size() % 128 != 112) p.push_back(mkConst(8, 0)); for (int i = 0; i < 7; i++) p.push_back(mkConst(8, 0)); p.push_back(mkConst(8, n >> 61)); p = cat(p, be(L(n << 3))); for (u64 o = 0; o < p.size(); o += 128) st = opaqueBlock(st, slice(p, o, 128));
    for (auto &o : h.outs) { TV g = h.E.readSeq(o.st, out, 64); R.oblig(g == st, id + ":hash", h.where(o), "SHA-512 of a " + std::to_string(n) + "-byte message differs from the standard padding and chaining: " + diffAt(g, st)); } R.ok("hash_comparisons"); });
}
void installHashBlocks(Engine &E) {
  E.models["crypto_hashblocks_sha512_tweet"] = [](CallCtx &c) { State s = c.st; u64 n; TV st = rd(c, s, 0, 64); if (!c.E.constOf(c.args[2], s, n)) { c.E.havoc(s, c.args[0], L(64), "hash"); return one(s, mkFresh("rest", 32)); } if (n >= 1u << 20) { c.E.access(s, c.args[1], L(n / 128 * 128), false, c.cb, "read"); wr(c, s, 0, app("SHA512.blocks", 64, {mkSeq(st), c.args[1], L(n / 128 * 128)})); return one(s, mkConst(c.cb->getType()->getIntegerBitWidth(), n % 128)); } TV m = n >= 128 ? rd(c, s, 1, n / 128 * 128) : TV{}; for (u64 o = 0; o + 128 <= n; o += 128) st = opaqueBlock(st, slice(m, o, 128)); wr(c, s, 0, st); return one(s, mkConst(c.cb->getType()->getIntegerBitWidth(), n % 128)); };
}
// whole hash opaque: out = SHA512(content)
static TV sha(T content) { return app("SHA512", 64, {content}); }
static TV sha(const TV &m) { return sha(mkSeq(m)); }
static void installSha(Engine &E) { E.models["crypto_hash_sha512_tweet"] = [](CallCtx &c) { State s = c.st; c.E.access(s, c.args[1], c.args[2], false, c.cb, "read"); T t = c.E.content(s, c.args[1], c.args[2]); wr(c, s, 0, sha(t)); return one(s, mkConst(32, 0)); }; }
// group operations
static bool installGroup(Engine &E) { bool ok = true;
  ok &= model(E, "reduce", 1, [](CallCtx &c) { State s = c.st; TV r = app("modL64", 32, {mkSeq(rd(c, s, 0, 64))}); r.resize(64, mkConst(8, 0)); wr(c, s, 0, r); return one(s); });
  ok &= model(E, "scalarmult", 3, [](CallCtx &c) { State s = c.st; TV q = rd(c, s, 1, PT), k = rd(c, s, 2, 32); wr(c, s, 0, app("smul", PT, {mkSeq(q), mkSeq(k)})); wr(c, s, 1, app("smul.tmp", PT, {mkSeq(q), mkSeq(k)})); return one(s); });
  ok &= model(E, "scalarbase", 2, [](CallCtx &c) { State s = c.st; wr(c, s, 0, app("sbase", PT, {mkSeq(rd(c, s, 1, 32))})); return one(s); });
  ok &= model(E, "add", 2, [](CallCtx &c) { State s = c.st; T a = mkSeq(rd(c, s, 0, PT)), b = mkSeq(rd(c, s, 1, PT)); if (a->id > b->id) std::swap(a, b); wr(c, s, 0, app("padd", PT, {a, b})); return one(s); });
  ok &= model(E, "pack", 2, [](CallCtx &c) { State s = c.st; wr(c, s, 0, app("ppack", 32, {mkSeq(rd(c, s, 1, PT))})); return one(s); });
  return ok; }
static TV padd(const TV &p, const TV &q) { T a = mkSeq(p), b = mkSeq(q); if (a->id > b->id) std::swap(a, b); return app("padd", PT, {a, b}); }
static TV reduceRef(const TV &h) { return app("modL64", 32, {mkSeq(h)}); }

static void C24(Ctx &c, Report &R) {
  const std::string F = "crypto_sign_ed25519_tweet_open"; if (!c.M.getFunction(F)) { R.fail("anchor vanished: " + F); return; } std::vector<Job> jobs; hashJobs(c, jobs, "C24");
  std::vector<u64> ns; for (u64 n = 64; n <= 64 + 70; n++) ns.push_back(n); for (u64 n : {191, 192, 193, 255, 256, 257, 300, 511, 513, 1088, 65605}) ns.push_back(n); for (u64 x : sourceLengths(c.M, {"crypto_sign_ed25519_tweet_open"}, 5000, 135)) ns.push_back(x); if (c.thorough) for (u64 n = 135; n <= 700; n++) ns.push_back(n); ns.push_back(~0ull);
  for (u64 b = 0; b < 8; b++) jobs.push_back([=, &c](Report &R) { for (size_t q = b; q < ns.size(); q += 8) { u64 n = ns[q]; bool sym = n == ~0ull; Run h(c.M, F); Engine &E = h.E; T nt = sym ? mkLeaf("n", 0, 64) : L(n); installSha(E); bool grp = installGroup(E);
      bool unp = model(E, "unpackneg", 2, [](CallCtx &c) { Outcomes o; State s = c.st; TV k = rd(c, s, 1, 32); State f = s; wr(c, s, 0, app("unpackneg", PT, {mkSeq(k)})); s.addFact(mkCustom("Decodes", 0, 1, {mkSeq(k)})); c.E.havoc(f, c.args[0], L(PT), "nopoint"); mark(s, c, 1); mark(f, c, 0); o.push_back({s, mkConst(32, 0), nullptr}); bool kn; for (i64 v : retSet(c.callee, kn)) if (v) o.push_back({f, mkConst(32, (u64)v), nullptr}); if (!kn) o.push_back({f, mkConst(32, ~0ull), nullptr}); return o; });
      if (!grp || !unp) { R.notes.insert("group helpers of tweetnacl.c not found under their names: opening not compared"); return; }
      if (sym) { E.assume(mkCmp(O_ULT, nt, L(1ull << 40)), true, h.s0); E.checkBounds = false; E.softLimit = 70; E.models["crypto_hash_sha512_tweet"] = [](CallCtx &c) { State s = c.st; wr(c, s, 0, leafSeq("anyhash", 0, 64)); return one(s, mkConst(32, 0)); }; } h.args = {h.buf("m", nt, true), h.buf("mlen", 8, true), h.buf("sm", nt, false), nt, h.buf("pk", 32, false)}; if (!h.go(R)) return;
      TV pk = leafSeq("pk", 0, 32); std::string ns_ = sym ? "any length" : "length " + std::to_string(n);
      for (auto &o : h.outs) { auto P = E.path(o.st); if (mayBeZero(E, o.ret, o.st)) { R.ok("accepting_exits"); R.oblig(o.st.has(mkCustom("Decodes", 0, 1, {mkSeq(pk)})), "C24:pk", h.where(o), "Ed25519 opening (" + ns_ + ") can succeed although the public key did not decode", P); Itv iv = E.eval(nt, o.st); R.oblig(iv.lo >= 64, "C24:short", h.where(o), "Ed25519 opening can succeed for an input shorter than a signature", P);
          if (sym) { u64 cmpd = 0; for (T f : *o.st.facts) if (f->k == TK::Op && f->op == O_EQ) for (int w = 0; w < 2; w++) { T y = f->a[1 - w], z = f->a[w]; if (z->k == TK::Leaf && internName(z->op) == "sm" && z->c < 32 && isCustom(y, "ppack") && y->c == z->c) cmpd++; } if (getenv("PQA_DBG") && cmpd < 32) for (T f : *o.st.facts) fprintf(stderr, "S %s\n", show(f, 5).substr(0, 300).c_str()); R.oblig(cmpd == 32, "C24:commitment", h.where(o), "Ed25519 opening (any length) can succeed without comparing the recomputed commitment", P); }
          else { TV sm = leafSeq("sm", 0, n), hin = cat(cat(slice(sm, 0, 32), pk), slice(sm, 64, n - 64)); TV t = app("ppack", 32, {mkSeq(padd(app("smul", PT, {mkSeq(app("unpackneg", PT, {mkSeq(pk)})), mkSeq(reduceRef(sha(hin)))}), app("sbase", PT, {mkSeq(slice(sm, 32, 32))})))}); u64 i = 0; for (; i < 32; i++) if (!E.equal(sm[i], t[i], o.st)) break; std::string got; if (i < 32) for (T f : *o.st.facts) if (f->k == TK::Op && f->op == O_EQ && (f->a[0] == sm[i] || f->a[1] == sm[i])) got = " (compared with " + show(f->a[0] == sm[i] ? f->a[1] : f->a[0], 6) + ")";
            R.oblig(i == 32, "C24:commitment", h.where(o), "Ed25519 opening (" + ns_ + ") can succeed although byte " + std::to_string(i) + " of the signature's commitment is not known to equal the one recomputed from S, the key and SHA-512(R || key || complete message)" + got, P);
            TV g = E.readSeq(o.st, h.args[0], n - 64), w = slice(sm, 64, n - 64); R.oblig(g == w, "C24:message", h.where(o), "Ed25519 opening (" + ns_ + ") returns something other than the message after the signature: " + diffAt(g, w), P); u64 v; R.oblig(E.constOf(E.loadBytes(o.st, h.reg["mlen"], 0, 8), o.st, v) && v == n - 64, "C24:mlen", h.where(o), "Ed25519 opening (" + ns_ + ") reports a wrong message length", P); } }
        else { R.ok("rejecting_exits"); if (!sym) { TV g = E.readSeq(o.st, h.args[0], n - 64); u64 i = 0; for (; i < n - 64; i++) { T old = mkLeaf("m", i, 8); auto fine = [&](T x) { return isC(x, 0) || x == old; }; bool good = fine(g[i]); if (g[i]->k == TK::Join) { good = true; for (T x : g[i]->a) good = good && fine(x); } if (!good) break; } if (i < n - 64 && getenv("PQA_DBG")) fprintf(stderr, "REL n=%llu i=%llu %s\n", (unsigned long long)n, (unsigned long long)i, show(g[i], 4).substr(0, 300).c_str()); R.oblig(i == n - 64, "C24:release", h.where(o), "a failed Ed25519 opening (" + ns_ + ") leaves byte " + std::to_string(i) + " of the unverified message in the output", P); u64 v; bool kv = E.constOf(E.loadBytes(o.st, h.reg["mlen"], 0, 8), o.st, v); R.oblig(kv ? v != n - 64 : true, "C24:release-len", h.where(o), "a failed Ed25519 opening reports the message length as if it had succeeded", P); } } }
      if (!sym) memObligations(E, R, "C24:mem", F); R.ok("openings"); if (q == 32) R.sample("accept(n=96) => unpack(pk) ok, sm[i] == pack(add(smul(-A, modL(SHA512(R||pk||m))), sbase(S)))[i] for i<32; m = sm[64..96)"); } });
  // inputs shorter than a signature
  jobs.push_back([=, &c](Report &R) { Run h(c.M, F); Engine &E = h.E; installSha(E); installGroup(E); model(E, "unpackneg", 2, [](CallCtx &c) { State s = c.st; c.E.havoc(s, c.args[0], L(PT), "point"); return one(s, mkConst(32, 0)); }); T n = mkLeaf("n", 0, 64); E.assume(mkCmp(O_ULT, n, L(64)), true, h.s0); h.args = {h.buf("m", n, true), h.buf("mlen", 8, true), h.buf("sm", n, false), n, h.buf("pk", 32, false)}; if (!h.go(R)) return; for (auto &o : h.outs) { R.oblig(!mayBeZero(E, o.ret, o.st), "C24:short", h.where(o), "Ed25519 opening can succeed for an input shorter than 64 bytes", E.path(o.st)); R.oblig(untouched(E, o.st, h.reg["m"], 64, true), "C24:short-write", h.where(o), "Ed25519 opening of a too short input writes message output", E.path(o.st)); } memObligations(E, R, "C24:mem", F); R.ok("openings"); });
  // decoding of the public key: accepted only if the candidate point satisfies the curve equation
  jobs.push_back([=, &c](Report &R) { auto *U = helper(c.M, "unpackneg"); if (!U || U->arg_size() != 2) { R.notes.insert("point decoding helper not found: not compared"); return; } Run h(c.M, U->getName().str()); Engine &E = h.E; E.pathSensitive = true; bool ok = true;
    auto gf = [&](const std::string &n, const std::string &f, bool comm) { ok &= model(E, n, 3, [=](CallCtx &c) { State s = c.st; T a = mkSeq(rd(c, s, 1, 128)), b = mkSeq(rd(c, s, 2, 128)); if (comm && a->id > b->id) std::swap(a, b); wr(c, s, 0, app(f, 128, {a, b})); return one(s); }); }; gf("M", "gf.mul", true); gf("A", "gf.add", true); gf("Z", "gf.sub", false);
    ok &= model(E, "pow2523", 2, [](CallCtx &c) { State s = c.st; wr(c, s, 0, app("gf.pow2523", 128, {mkSeq(rd(c, s, 1, 128))})); return one(s); }); ok &= model(E, "pack25519", 2, [](CallCtx &c) { State s = c.st; wr(c, s, 0, app("gf.bytes", 32, {mkSeq(rd(c, s, 1, 128))})); return one(s); });
    if (!ok) { R.notes.insert("field helpers not found under their names: point decoding not compared"); return; }
    h.args = {h.buf("r", PT, true), h.buf("p", 32, false)}; if (!h.go(R)) return; auto mul = [](T a, T b) { if (a->id > b->id) std::swap(a, b); return mkSeq(app("gf.mul", 128, {a, b})); };
    TV one_(128, mkConst(8, 0)); one_[0] = mkConst(8, 1); T g1 = mkSeq(one_); static const u64 Dl[16] = {0x78a3, 0x1359, 0x4dca, 0x75eb, 0xd8ab, 0x4141, 0x0a4d, 0x0070, 0xe898, 0x7779, 0x4079, 0x8cc7, 0xfe73, 0x2b6f, 0x6cee, 0x5203}; TV dv; for (u64 l : Dl) for (int i = 0; i < 8; i++) dv.push_back(mkConst(8, (l >> (8 * i)) & 255)); T dg = mkSeq(dv);
    for (auto &o : h.outs) { if (!mayBeZero(E, o.ret, o.st)) continue; R.ok("decoding_exits"); T y = mkSeq(E.readSeq(o.st, mkAdd(h.args[0], L(128)), 128)); T y2 = mul(y, y), num = mkSeq(app("gf.sub", 128, {y2, g1})), den; { T a = g1, b = mul(y2, dg); if (a->id > b->id) std::swap(a, b); den = mkSeq(app("gf.add", 128, {a, b})); }
      bool yok = true; std::string yg; for (u64 i = 0; i < 16 && yok; i++) { T w = E.loadBytes(o.st, h.reg["r"], 128 + 8 * i, 8), a = mkLeaf("p", 2 * i, 8), b = mkLeaf("p", 2 * i + 1, 8); auto last = [&](T x) { return i == 15 ? N(x, L(0x7fff)) : x; }; yok = w == last(mkAdd(mkZext(a, 64), mkBin(Instruction::Shl, mkZext(b, 64), L(8)))) || w == last(mkZext(mkConcat({a, b}), 64)) || (i == 15 && w == mkZext(mkConcat({a, N(b, mkConst(8, 127))}), 64)) || (i == 15 && w == mkAdd(mkZext(a, 64), mkBin(Instruction::Shl, mkZext(N(b, mkConst(8, 127)), 64), L(8)))); if (!yok) yg = "limb " + std::to_string(i) + " is " + show(w, 4); } R.oblig(yok, "C24:decode-y", h.where(o), "point decoding does not take the y coordinate from the 32 key bytes: " + yg);
      // r0 or its negation satisfies den*x^2 == num, byte for byte of the canonical encodings
      TV x0 = E.readSeq(o.st, h.args[0], 128); std::vector<T> cands{mkSeq(x0)}; if (isCustom(x0[0], "gf.sub") && x0[0]->a.size() == 3) cands.push_back(x0[0]->a[2]); bool good = false; for (T x : cands) { T lhs = mul(mul(x, x), den); TV a = app("gf.bytes", 32, {lhs}), b = app("gf.bytes", 32, {num}); bool all = true; for (int i = 0; i < 32 && all; i++) all = E.equal(a[i], b[i], o.st); if (all) good = true; }
      if (!good && getenv("PQA_DBG")) { for (T f : *o.st.facts) fprintf(stderr, "F %s\n", show(f, 5).substr(0, 600).c_str()); fprintf(stderr, "want %s\n", show(mkSeq(x0), 5).substr(0, 1000).c_str()); }
      R.oblig(good, "C24:decode", h.where(o), "point decoding can succeed for a key whose candidate x coordinate was not checked against the curve equation (all 32 bytes of den*x^2 and num)", E.path(o.st)); } R.ok("decoders"); });
  runJobs(jobs, R); if (R.broken.empty() && R.v.empty() && R.cnt["hash_comparisons"] < 300) R.fail("rule instances below the confirmed count");
}
static Reg r24("C24", C24);

// ---- C31 Ed25519 signing
static void C31(Ctx &c, Report &R) {
  const std::string F = "crypto_sign_ed25519_tweet"; if (!c.M.getFunction(F) || !c.M.getFunction("crypto_sign_ed25519_keypair_seed")) { R.fail("anchor vanished: " + F); return; } std::vector<Job> jobs; hashJobs(c, jobs, "C31");
  auto modl = [](Engine &E) { return model(E, "modL", 2, [](CallCtx &c) { State s = c.st; TV x; for (u64 i = 0; i < 64; i++) x.push_back(c.E.loadBytes(s, (int)c.args[1]->c, (c.args[1]->a[0]->k == TK::Const ? c.args[1]->a[0]->c : 0) + 8 * i, 8)); wr(c, s, 0, app("modL", 32, {mkSeq(x)})); c.E.havoc(s, c.args[1], L(512), "modLtmp"); return one(s); }); };
  auto clamp = [](TV d) { d[0] = mkBin(Instruction::And, d[0], mkConst(8, 248)); d[31] = mkBin(Instruction::Or, mkBin(Instruction::And, d[31], mkConst(8, 127)), mkConst(8, 64)); return d; };
  std::vector<u64> ns; for (u64 n = 0; n <= 70; n++) ns.push_back(n); for (u64 n : {127, 128, 129, 255, 256, 1024, 65541}) ns.push_back(n); for (u64 x : sourceLengths(c.M, {"crypto_sign_ed25519_tweet"}, 5000, 71)) ns.push_back(x); if (c.thorough) for (u64 n = 71; n <= 600; n++) ns.push_back(n);
  for (u64 b = 0; b < 8; b++) jobs.push_back([=, &c](Report &R) { for (size_t q = b; q < ns.size(); q += 8) { u64 n = ns[q]; Run h(c.M, F); Engine &E = h.E; installSha(E); if (!installGroup(E) || !modl(E)) { R.notes.insert("group helpers of tweetnacl.c not found under their names: signing not compared"); return; }
      h.args = {h.buf("sm", n + 64, true), h.buf("smlen", 8, true), h.buf("m", n ? n : 1, false), L(n), h.buf("sk", 64, false)}; if (!h.go(R)) return; TV sk = leafSeq("sk", 0, 64), m = leafSeq("m", 0, n), d = clamp(sha(slice(sk, 0, 32)));
      TV r = reduceRef(sha(cat(slice(d, 32, 32), m))), Rb = app("ppack", 32, {mkSeq(app("sbase", PT, {mkSeq(r)}))}), hh = reduceRef(sha(cat(cat(Rb, slice(sk, 32, 32)), m))); TV x(64, L(0)); for (u64 i = 0; i < 32; i++) x[i] = mkZext(r[i], 64); for (u64 i = 0; i < 32; i++) for (u64 j = 0; j < 32; j++) x[i + j] = mkAdd(x[i + j], mkBin(Instruction::Mul, mkZext(hh[i], 64), mkZext(d[j], 64)));
      TV Sb = app("modL", 32, {mkSeq(x)}), want = cat(cat(Rb, Sb), m);
      for (auto &o : h.outs) { if (!mayBeZero(E, o.ret, o.st)) { R.ok("failing_exits"); continue; } R.ok("signing_exits"); TV g = E.readSeq(o.st, h.args[0], n + 64); R.oblig(slice(g, 0, 32) == Rb, "C31:nonce", h.where(o), "the Ed25519 commitment (message length " + std::to_string(n) + ") is not the base multiple of SHA-512(secret prefix || complete message): " + diffAt(slice(g, 0, 32), Rb)); R.oblig(slice(g, 32, 32) == Sb, "C31:response", h.where(o), "the Ed25519 response (message length " + std::to_string(n) + ") is not r + SHA-512(R || key || message) * a: " + diffAt(slice(g, 32, 32), Sb)); R.oblig(slice(g, 64, n) == m, "C31:message", h.where(o), "the signed message is not the message: " + diffAt(slice(g, 64, n), m)); u64 v; R.oblig(E.constOf(E.loadBytes(o.st, h.reg["smlen"], 0, 8), o.st, v) && v == n + 64, "C31:smlen", h.where(o), "Ed25519 signing reports a wrong length"); }
      memObligations(E, R, "C31:mem", F); R.ok("signings"); } });
  jobs.push_back([=, &c](Report &R) { Run h(c.M, "crypto_sign_ed25519_keypair_seed"); Engine &E = h.E; installSha(E); if (!installGroup(E)) return; h.args = {h.buf("pk", 32, true), h.buf("sk", 64, true), h.buf("seed", 32, false)}; if (!h.go(R)) return; TV sd = leafSeq("seed", 0, 32), d = clamp(sha(sd)), pk = app("ppack", 32, {mkSeq(app("sbase", PT, {mkSeq(slice(d, 0, 32))}))}); for (auto &o : h.outs) { if (!mayBeZero(E, o.ret, o.st)) continue; TV gp = E.readSeq(o.st, h.args[0], 32), gs = E.readSeq(o.st, h.args[1], 64); R.oblig(gp == pk, "C31:pk", h.where(o), "the Ed25519 public key is not the base multiple of the clamped hash of the whole seed: " + diffAt(gp, pk)); R.oblig(gs == cat(sd, pk), "C31:sk", h.where(o), "the Ed25519 secret key is not seed followed by public key: " + diffAt(gs, cat(sd, pk))); R.ok("keypairs"); } memObligations(E, R, "C31:mem", h.name); });
  runJobs(jobs, R); R.sample("R = pack(sbase(modL(SHA512(SHA512(sk[0..32))[32..64) || m)))); S = modL(r + modL(SHA512(R||pk||m)) * clamp(a))"); if (R.broken.empty() && R.v.empty() && R.cnt["hash_comparisons"] < 300) R.fail("rule instances below the confirmed count");
}
static Reg r31("C31", C31);

// ---- C23 authenticated encryption
static const std::string SB = "crypto_secretbox_xsalsa20poly1305_tweet", BX = "crypto_box_curve25519xsalsa20poly1305_tweet";
static TV core(const TV &in, const TV &k, const TV &cst, bool h) { return app(h ? "hsalsa20" : "salsa20", h ? 32 : 64, {mkSeq(in), mkSeq(k), mkSeq(cst)}); }
static TV sigma() { TV v; for (char x : std::string("expand 32-byte k")) v.push_back(mkConst(8, (u64)x)); return v; }
static TV streamRef(const TV &n, const TV &k, u64 len) { TV s = core(slice(n, 0, 16), k, sigma(), true), out; for (u64 b = 0; out.size() < len; b++) { TV z = slice(n, 16, 8); for (int i = 0; i < 8; i++) z.push_back(mkConst(8, (b >> (8 * i)) & 255)); out = cat(out, core(z, s, sigma(), false)); } out.resize(len); return out; }
static TV mac(T content, const TV &key) { return app("poly1305", 16, {content, mkSeq(key)}); }
static void installBox(Engine &E) {
  E.models["crypto_core_salsa20_tweet"] = [](CallCtx &c) { State s = c.st; wr(c, s, 0, core(rd(c, s, 1, 16), rd(c, s, 2, 32), rd(c, s, 3, 16), false)); return one(s, mkConst(32, 0)); };
  E.models["crypto_core_hsalsa20_tweet"] = [](CallCtx &c) { State s = c.st; wr(c, s, 0, core(rd(c, s, 1, 16), rd(c, s, 2, 32), rd(c, s, 3, 16), true)); return one(s, mkConst(32, 0)); };
  E.models["crypto_onetimeauth_poly1305_tweet"] = [](CallCtx &c) { State s = c.st; c.E.access(s, c.args[1], c.args[2], false, c.cb, "read"); TV k = rd(c, s, 3, 32); wr(c, s, 0, mac(c.E.content(s, c.args[1], c.args[2]), k)); return one(s, mkConst(32, 0)); };
  E.models["crypto_scalarmult_curve25519_tweet"] = [](CallCtx &c) { State s = c.st; wr(c, s, 0, app("x25519", 32, {mkSeq(rd(c, s, 1, 32)), mkSeq(rd(c, s, 2, 32))})); return one(s, mkConst(32, 0)); };
}
static void C23(Ctx &c, Report &R) {
  for (std::string f : {SB, SB + "_open", BX, BX + "_open", BX + "_keypair"}) if (!c.M.getFunction(f)) { R.fail("anchor vanished: " + f); return; } std::vector<Job> jobs;
  std::vector<u64> ds; for (u64 d = 32; d <= 100; d++) ds.push_back(d); for (u64 d : {127, 128, 129, 160, 191, 192, 193, 255, 256, 257, 300, 1000, 66000}) ds.push_back(d); for (u64 x : sourceLengths(c.M, {SB, SB + "_open"}, 5000, 101)) ds.push_back(x); if (c.thorough) for (u64 d = 101; d < 700; d++) ds.push_back(d); ds.push_back(~0ull);
  auto beforenm = [](const TV &y, const TV &x) { return core(TV(16, mkConst(8, 0)), app("x25519", 32, {mkSeq(x), mkSeq(y)}), sigma(), true); };
  for (bool box : {false, true}) for (u64 b = 0; b < 4; b++) jobs.push_back([=, &c](Report &R) { for (size_t q = b; q < ds.size(); q += 4) { u64 d = ds[q]; bool sym = d == ~0ull; if (box && !sym && d > 70 && d != 300) continue; std::string f = (box ? BX : SB) + "_open"; T dt = sym ? mkLeaf("d", 0, 64) : L(d);
      Run h(c.M, f); Engine &E = h.E; installBox(E); if (sym) { E.assume(mkCmp(O_ULE, L(32), dt), true, h.s0); E.assume(mkCmp(O_ULT, dt, L(1ull << 40)), true, h.s0); E.checkBounds = false; E.softLimit = 5; E.partBudget = 24; }
      h.args = {h.buf("m", dt, true), h.buf("c", dt, false), dt, h.buf("n", 24, false), h.buf("k", 32, false)}; if (box) h.args.push_back(h.buf("x", 32, false)); if (!h.go(R)) return; TV k = box ? beforenm(leafSeq("k", 0, 32), leafSeq("x", 0, 32)) : leafSeq("k", 0, 32), n = leafSeq("n", 0, 24); std::string dn = sym ? "any length" : "length " + std::to_string(d);
      T cc; if (sym) cc = mkCustom("Range", 0, 0, {mkLeaf("c", 0, 8), L(32), mkSub(dt, L(32))}); else cc = mkSeq(leafSeq("c", 32, d - 32)); TV tag = mac(cc, streamRef(n, k, 32));
      for (auto &o : h.outs) { auto P = E.path(o.st); if (mayBeZero(E, o.ret, o.st)) { R.ok("accepting_exits"); u64 i = 0; for (; i < 16; i++) if (!E.equal(mkLeaf("c", 16 + i, 8), tag[i], o.st)) break; R.oblig(i == 16, "C23:" + f + ":tag", h.where(o), f + " (" + dn + ") can succeed although byte " + std::to_string(i) + " of the authenticator over the whole ciphertext was not compared", P);
          if (!sym) { TV st = streamRef(n, k, d), w(32, mkConst(8, 0)); for (u64 j = 32; j < d; j++) w.push_back(X(mkLeaf("c", j, 8), st[j])); TV g = E.readSeq(o.st, h.args[0], d); R.oblig(g == w, "C23:" + f + ":plain", h.where(o), f + " (" + dn + ") returns something other than the decrypted ciphertext: " + diffAt(g, w), P); } }
        else { R.ok("rejecting_exits"); R.oblig(untouched(E, o.st, h.reg["m"], sym ? 1 << 20 : d, true), "C23:" + f + ":release", h.where(o), f + " (" + dn + ") writes output although authentication failed", P); } }
      if (!sym) memObligations(E, R, "C23:mem", f); R.ok("decryptions"); } });
  for (bool box : {false, true}) for (bool open : {false, true}) jobs.push_back([=, &c](Report &R) { std::string f = (box ? BX : SB) + (open ? "_open" : ""); Run h(c.M, f); Engine &E = h.E; installBox(E); T d = mkLeaf("d", 0, 64); E.assume(mkCmp(O_ULT, d, L(32)), true, h.s0); h.args = {h.buf("m", d, true), h.buf("c", d, false), d, h.buf("n", 24, false), h.buf("k", 32, false)}; if (box) h.args.push_back(h.buf("x", 32, false)); if (!h.go(R)) return; for (auto &o : h.outs) { R.oblig(!mayBeZero(E, o.ret, o.st), "C23:" + f + ":short", h.where(o), f + " can succeed for an input shorter than the 32-byte prefix", E.path(o.st)); R.oblig(untouched(E, o.st, h.reg["m"], 64, false), "C23:" + f + ":short", h.where(o), f + " writes output for a too short input", E.path(o.st)); } memObligations(E, R, "C23:mem", f); R.ok("decryptions"); });
  for (bool box : {false, true}) jobs.push_back([=, &c](Report &R) { for (u64 d : {32, 33, 47, 48, 63, 64, 65, 96, 127, 128, 129, 200, 66000}) { if (box && d > 60000) continue; std::string f = box ? BX : SB; Run h(c.M, f); Engine &E = h.E; installBox(E); h.args = {h.buf("c", d, true), h.buf("m", d, false), L(d), h.buf("n", 24, false), h.buf("k", 32, false)}; if (box) h.args.push_back(h.buf("x", 32, false)); for (u64 i = 0; i < 32; i++) E.storeBytes(h.s0, h.reg["m"], i, mkConst(8, 0), 1); if (!h.go(R)) return; TV k = box ? beforenm(leafSeq("k", 0, 32), leafSeq("x", 0, 32)) : leafSeq("k", 0, 32), st = streamRef(leafSeq("n", 0, 24), k, d), ct, w(16, mkConst(8, 0)); for (u64 i = 32; i < d; i++) ct.push_back(X(mkLeaf("m", i, 8), st[i])); w = cat(cat(w, mac(mkSeq(ct), slice(st, 0, 32))), ct);
      for (auto &o : h.outs) { R.oblig(mustBeZero(E, o.ret, o.st), "C23:" + f + ":encrypt", h.where(o), f + " can fail on a valid input"); TV g = E.readSeq(o.st, h.args[0], d); R.oblig(g == w, "C23:" + f + ":cipher", h.where(o), f + " (length " + std::to_string(d) + ") does not produce zero prefix, authenticator of the whole ciphertext and ciphertext: " + diffAt(g, w)); } memObligations(E, R, "C23:mem", f); R.ok("encryptions"); } });
  // the Salsa20 core and HSalsa20 against the definition
  for (bool hs : {false, true}) jobs.push_back([=, &c](Report &R) { std::string f = hs ? "crypto_core_hsalsa20_tweet" : "crypto_core_salsa20_tweet"; if (!c.M.getFunction(f)) { R.notes.insert(f + " not found: core not compared"); return; } Run h(c.M, f); Engine &E = h.E; u64 on = hs ? 32 : 64; h.args = {h.buf("out", on, true), h.buf("in", 16, false), h.buf("k", 32, false), h.buf("c", 16, false)}; if (!h.go(R)) return;
    auto w = [](const std::string &n, u64 i) { TV b; for (u64 j = 0; j < 4; j++) b.push_back(mkLeaf(n, 4 * i + j, 8)); return mkConcat(b); }; T x[16], y[16]; for (int i = 0; i < 4; i++) { x[5 * i] = w("c", i); x[1 + i] = w("k", i); x[6 + i] = w("in", i); x[11 + i] = w("k", 4 + i); } for (int i = 0; i < 16; i++) y[i] = x[i];
    auto rot = [](T v, unsigned k) { return mkBin(Instruction::Or, mkBin(Instruction::Shl, v, mkConst(32, k)), mkBin(Instruction::LShr, v, mkConst(32, 32 - k))); }; auto qr = [&](int a, int b, int cc, int d) { x[b] = X(x[b], rot(mkAdd(x[a], x[d]), 7)); x[cc] = X(x[cc], rot(mkAdd(x[b], x[a]), 9)); x[d] = X(x[d], rot(mkAdd(x[cc], x[b]), 13)); x[a] = X(x[a], rot(mkAdd(x[d], x[cc]), 18)); };
    for (int r = 0; r < 10; r++) { qr(0, 4, 8, 12); qr(5, 9, 13, 1); qr(10, 14, 2, 6); qr(15, 3, 7, 11); qr(0, 1, 2, 3); qr(5, 6, 7, 4); qr(10, 11, 8, 9); qr(15, 12, 13, 14); }
    TV o32; if (hs) for (int i : {0, 5, 10, 15, 6, 7, 8, 9}) o32.push_back(x[i]); else for (int i = 0; i < 16; i++) o32.push_back(mkAdd(x[i], y[i])); for (auto &o : h.outs) for (size_t i = 0; i < o32.size(); i++) { TV g = E.readSeq(o.st, mkAdd(h.args[0], L(4 * i)), 4); bool eq = true; for (int j = 0; j < 4; j++) eq = eq && g[j] == mkByte(o32[i], j); R.oblig(eq, "C23:core", h.where(o), f + ": output word " + std::to_string(i) + " is not that of the 20-round Salsa20 core: " + show(g[0], 4)); } memObligations(E, R, "C23:mem", f); R.ok("cores"); });
  // the authenticator depends on every byte, and the comparison functions on all of theirs
  jobs.push_back([=, &c](Report &R) { for (u64 n : {1, 15, 16, 17, 31, 32, 33, 48}) { Run h(c.M, "crypto_onetimeauth_poly1305_tweet"); h.args = {h.buf("out", 16, true), h.buf("m", n, false), L(n), h.buf("k", 32, false)}; if (!h.go(R)) return; for (auto &o : h.outs) { TV g = h.E.readSeq(o.st, h.args[0], 16); std::set<u64> mu, ku; std::unordered_set<T> seen; u32 mi = intern("m"), ki = intern("k"); for (T t : g) containsLeaf(t, [&](T x) { if (x->op == mi) mu.insert(x->c); if (x->op == ki) ku.insert(x->c); return false; }, seen); R.oblig(mu.size() == n && ku.size() == 32, "C23:authenticator", h.where(o), "the authenticator of a " + std::to_string(n) + "-byte ciphertext depends on only " + std::to_string(mu.size()) + " of its bytes and " + std::to_string(ku.size()) + " of 32 key bytes"); u64 un = 0; while (un < 16 && g[un] != mkLeaf("out", un, 8)) un++; R.oblig(un == 16, "C23:authenticator", h.where(o), "authenticator byte " + std::to_string(un) + " is not computed"); } memObligations(h.E, R, "C23:mem", h.name); R.ok("authenticators"); } });
  // key pair generation
  jobs.push_back([=, &c](Report &R) { Run h(c.M, BX + "_keypair"); Engine &E = h.E; installBox(E); installRandom(E, true); ghost(E, h.s0, "rfail", 0); ghost(E, h.s0, "draws", 0); h.args = {h.buf("y", 32, true), h.buf("x", 32, true)}; if (!h.go(R)) return; TV nine(32, mkConst(8, 0)); nine[0] = mkConst(8, 9); for (auto &o : h.outs) { bool fl = ghostGet(E, o.st, "rfail"); if (fl) { R.oblig(!mayBeZero(E, o.ret, o.st), "C23:keypair-fail", h.where(o), "box key-pair generation can succeed although randomness failed", E.path(o.st)); R.ok("keypair_exits"); continue; } if (!mayBeZero(E, o.ret, o.st)) continue; TV x = E.readSeq(o.st, h.args[1], 32), y = E.readSeq(o.st, h.args[0], 32); u64 fresh = 0; for (T t : x) if (t->k == TK::Leaf && internName(t->op) != "x") fresh++; R.oblig(fresh == 32 && std::set<T>(x.begin(), x.end()).size() == 32, "C23:keypair-secret", h.where(o), "the box secret key is not 32 freshly drawn bytes"); R.oblig(y == app("x25519", 32, {mkSeq(x), mkSeq(nine)}), "C23:keypair-public", h.where(o), "the box public key is not the base multiple of the secret key"); R.ok("keypair_exits"); } });
  runJobs(jobs, R); R.sample("secretbox_open(d=48) = 0 => c[16+i] == poly1305(c[32..48), stream(n,k)[0..32))[i] for i<16; otherwise m unchanged");
  if (R.broken.empty() && R.v.empty() && (R.cnt["accepting_exits"] < 100 || R.cnt["encryptions"] < 24 || R.cnt["keypair_exits"] < 2)) R.fail("rule instances below the confirmed count");
}
static Reg r23("C23", C23);
} // namespace pq
