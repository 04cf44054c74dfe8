#include "checks.h"
using namespace llvm;
namespace pq {
int rid(State &s, const std::string &name) { for (auto &kv : s.mem) if (kv.second->name == name) return kv.first; return -1; }
int ghost(Engine &E, State &s, const std::string &name, u64 init) { int r = rid(s, "ghost:" + name); if (r < 0) r = E.newRegion(s, "ghost:" + name, mkConst(64, 8), Def::Zero, true); E.storeBytes(s, r, 0, mkConst(64, init), 8); return r; }
u64 ghostGet(Engine &E, State &s, const std::string &name) { int r = rid(s, "ghost:" + name); if (r < 0) return 0; T t = E.loadBytes(s, r, 0, 8); return t->k == TK::Const ? t->c : ~0ull; }
void ghostSet(Engine &E, State &s, const std::string &name, u64 v) { int r = rid(s, "ghost:" + name); if (r < 0) return; E.storeBytes(s, r, 0, mkConst(64, v), 8); }
T appByte(const std::string &fn, u64 i, const TV &args) { return mkCustom(fn, i, 8, args); }
TV appSeq(const std::string &fn, u64 n, const TV &args) { TV v(n); for (u64 i = 0; i < n; i++) v[i] = appByte(fn, i, args); return v; }
TV leafSeq(const std::string &name, u64 from, u64 n) { TV v(n); for (u64 i = 0; i < n; i++) v[i] = mkLeaf(name, from + i, 8); return v; }
T verifiedFact(const std::string &alg, const TV &sig, const TV &msg, const TV &pk) { return mkCustom("Verified:" + alg, 0, 1, {mkSeq(sig), mkSeq(msg), mkSeq(pk)}); }
bool mayBeZero(Engine &E, T ret, const State &s) { return E.triCond(mkCmp(O_EQ, ret, mkConst(ret->w, 0)), s) != 0; }
bool mustBeZero(Engine &E, T ret, const State &s) { return E.triCond(mkCmp(O_EQ, ret, mkConst(ret->w, 0)), s) == 1; }
bool untouched(Engine &E, State &s, int r, u64 upto, bool allowZero) {
  const Region *R = E.rreg(s, r); if (!R) return false; if (R->def != Def::Init) return false;
  for (auto &kv : R->ch) for (unsigned i = 0; i < CH; i++) { Cell c = kv.second->c[i]; if (!c.t) continue; u64 off = (u64)kv.first * CH + i; if (off >= upto) continue; T b = mkByte(c.t, c.k); if (b == mkLeaf(R->name, off, 8)) continue; if (allowZero && isC(b, 0)) continue; return false; }
  return true;
}

// ---- return-value sets: constants that can reach a function's return, through phis, selects, casts and callees
static void retVals(const Value *V, std::set<i64> &out, bool &known, std::set<const Value *> &seen, int depth) {
  if (!seen.insert(V).second) return;
  if (auto *C = dyn_cast<ConstantInt>(V)) { out.insert(C->getSExtValue()); return; }
  if (auto *P = dyn_cast<PHINode>(V)) { for (auto &x : P->incoming_values()) retVals(x, out, known, seen, depth); return; }
  if (auto *S = dyn_cast<SelectInst>(V)) { retVals(S->getTrueValue(), out, known, seen, depth); retVals(S->getFalseValue(), out, known, seen, depth); return; }
  if (auto *C = dyn_cast<CallInst>(V)) if (auto *F = C->getCalledFunction()) if (!F->isDeclaration() && depth < 6) { for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) if (R->getReturnValue()) retVals(R->getReturnValue(), out, known, seen, depth + 1); return; }
  if (auto *Z = dyn_cast<ZExtInst>(V)) if (Z->getOperand(0)->getType()->isIntegerTy(1)) { out.insert(0); out.insert(1); return; }
  if (auto *Z = dyn_cast<SExtInst>(V)) if (Z->getOperand(0)->getType()->isIntegerTy(1)) { out.insert(0); out.insert(-1); return; }
  known = false;
}
std::set<i64> retSet(const Function *F, bool &known) {
  std::set<i64> r; known = true; std::set<const Value *> seen;
  if (!F || F->isDeclaration()) { known = false; return r; }
  for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) if (R->getReturnValue()) retVals(R->getReturnValue(), r, known, seen, 0);
  return r;
}
static void setRetFail(Engine &E, const Function *F, State &s, Outcomes &out) {
  bool known; auto rs = retSet(F, known);
  if (known) { for (i64 v : rs) if (v) out.push_back({s, mkConst(32, (u64)v), nullptr}); return; }
  T r = mkFresh("fail", 32); E.assume(mkCmp(O_NE, r, mkConst(32, 0)), true, s); out.push_back({s, r, nullptr});
}
static T storeLen(Engine &E, State &s, T p, u64 v, const CallBase *cb) { E.store(s, p, mkConst(64, v), 8, cb); return nullptr; }
static u64 clen(CallCtx &c, unsigned i, bool &ok) { u64 v = 0; ok = c.E.constOf(c.args[i], c.st, v); return v; }

void installRandom(Engine &E, bool canFail) {
  E.models["randombytes"] = [canFail](CallCtx &c) {
    Outcomes out; Engine &E = c.E; T n = c.args[1]; E.access(c.st, c.args[0], n, true, c.cb, "write");
    State ok = c.st; u64 draws = ghostGet(E, ok, "draws"); 
    E.havoc(ok, c.args[0], n, "rnd"); ghostSet(E, ok, "draws", draws + 1);
    out.push_back({ok, mkConst(32, 0), nullptr});
    if (canFail) { State f = c.st; E.havoc(f, c.args[0], n, "unfilled"); ghostSet(E, f, "rfail", 1);
      auto t = std::make_shared<Trail>(); t->prev = f.trail; t->at = c.cb; t->dir = 0; t->len = f.trail ? f.trail->len + 1 : 1; f.trail = t;
      T r = mkFresh("rbfail", 32); bool known; auto rs = retSet(c.callee, known); (void)rs;
      E.assume(mkCmp(O_NE, r, mkConst(32, 0)), true, f); out.push_back({f, r, nullptr}); }
    return out; };
}

static TV sub(const TV &v, size_t a, size_t n) { TV r; for (size_t i = a; i < a + n && i < v.size(); i++) r.push_back(v[i]); return r; }
// in round-trip mode a verification succeeds exactly on what the matching ideal signer produced
static bool rtOK(const std::string &sigf, const std::string &skf, const std::string &pkf, const TV &sig, const TV &msg, const TV &pk) {
  if (sig.empty() || pk.empty()) return false;
  if (!isCustom(sig[0], sigf) || sig[0]->c != 0 || sig[0]->a.size() < 3) return false;
  T m = sig[0]->a[1], sk = sig[0]->a[2];
  for (size_t i = 0; i < sig.size(); i++) if (!isCustom(sig[i], sigf) || sig[i]->c != i || sig[i]->a != sig[0]->a) return false;
  if (m != mkSeq(msg)) return false;
  if (!isCustom(pk[0], pkf)) return false;
  for (size_t i = 0; i < pk.size(); i++) if (!isCustom(pk[i], pkf) || pk[i]->c != i || pk[i]->a != pk[0]->a) return false;
  for (size_t i = 0; i < sk->a.size(); i++) { T b = sk->a[i]; bool tail = skf == "sphsk" && i >= 64; if (!isCustom(b, tail ? pkf : skf) || b->c != (tail ? i - 64 : i) || b->a.size() != pk[0]->a.size()) return false; for (size_t q = 1; q < b->a.size(); q++) if (b->a[q] != pk[0]->a[q]) return false; }
  return true;
}
static void verifyOutcomes(CallCtx &c, const ModelOpts &o, const std::string &alg, const TV &sig, const TV &msg, const TV &pk, Outcomes &out, std::function<void(State &)> onOk, std::function<void(State &)> onFail) {
  Engine &E = c.E; bool succ = true, fail = !o.okOnly;
  if (o.roundtrip) { succ = rtOK(alg + "sig", alg + "sk", alg + "pk", sig, msg, pk); fail = !succ; if (!succ) { c.st.addFact(mkCustom("RtMismatch:" + alg, 0, 1, {})); } }
  if (succ) { State s = c.st; s.addFact(verifiedFact(alg, sig, msg, pk)); if (onOk) onOk(s); out.push_back({s, mkConst(32, 0), nullptr}); }
  if (fail) { State s = c.st; if (onFail) onFail(s); auto t = std::make_shared<Trail>(); t->prev = s.trail; t->at = c.cb; t->dir = 0; t->len = s.trail ? s.trail->len + 1 : 1; s.trail = t; setRetFail(E, c.callee, s, out); }
}
static const char *DIL = "PQCLEAN_DILITHIUM2_CLEAN_", *SPX = "PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_";

void installPrimitives(Engine &E, const ModelOpts &o) {
  // ---- Ed25519 (TweetNaCl): int open(m, mlen, sm, n, pk); int sign(sm, smlen, m, n, sk); int keypair_seed(pk, sk, seed)
  E.models["crypto_sign_ed25519_tweet_open"] = [o](CallCtx &c) {
    Engine &E = c.E; Outcomes out; bool k; u64 n = clen(c, 3, k);
    if (!k) { E.broken = "Ed25519 open called with a length the analysis cannot determine at " + E.loc(c.cb); return out; }
    E.access(c.st, c.args[2], c.args[3], false, c.cb, "read"); E.access(c.st, c.args[4], mkConst(64, 32), false, c.cb, "read");
    E.access(c.st, c.args[0], c.args[3], true, c.cb, "write"); E.access(c.st, c.args[1], mkConst(64, 8), true, c.cb, "write");
    if (n < 64) { State s = c.st; E.havoc(s, c.args[1], mkConst(64, 8), "edlen"); setRetFail(E, c.callee, s, out); return out; }
    TV sm = E.readSeq(c.st, c.args[2], n), pk = E.readSeq(c.st, c.args[4], 32);
    verifyOutcomes(c, o, "ed", sub(sm, 0, 64), sub(sm, 64, n - 64), pk, out,
      [&](State &s) { E.havoc(s, c.args[0], mkConst(64, n), "edscratch"); E.writeSeq(s, c.args[0], sub(sm, 64, n - 64)); storeLen(E, s, c.args[1], n - 64, c.cb); },
      [&](State &s) { E.havoc(s, c.args[0], mkConst(64, n), "edscratch"); E.havoc(s, c.args[1], mkConst(64, 8), "edlen"); });
    return out; };
  E.models["crypto_sign_ed25519_tweet"] = [](CallCtx &c) {
    Engine &E = c.E; Outcomes out; bool k; u64 n = clen(c, 3, k);
    if (!k) { E.broken = "Ed25519 sign called with a length the analysis cannot determine at " + E.loc(c.cb); return out; }
    E.access(c.st, c.args[2], c.args[3], false, c.cb, "read"); E.access(c.st, c.args[4], mkConst(64, 64), false, c.cb, "read");
    E.access(c.st, c.args[0], mkConst(64, n + 64), true, c.cb, "write");
    TV m = E.readSeq(c.st, c.args[2], n), sk = E.readSeq(c.st, c.args[4], 64);
    bool kn; auto rs = retSet(c.callee, kn); if (!kn || rs.size() > 1 || !rs.count(0)) { State f = c.st; E.havoc(f, c.args[0], mkConst(64, n + 64), "edfail"); E.havoc(f, c.args[1], mkConst(64, 8), "edlen"); setRetFail(E, c.callee, f, out); }
    State s = c.st; TV sg = appSeq("edsig", 64, {mkSeq(m), mkSeq(sk)}); sg.insert(sg.end(), m.begin(), m.end()); E.writeSeq(s, c.args[0], sg); storeLen(E, s, c.args[1], n + 64, c.cb);
    out.insert(out.begin(), {s, mkConst(32, 0), nullptr}); return out; };
  auto keygen = [](const std::string &alg, u64 npk, u64 nsk, u64 nseed) { return [=](CallCtx &c) {
    Engine &E = c.E; Outcomes out; E.access(c.st, c.args[2], mkConst(64, nseed), false, c.cb, "read"); E.access(c.st, c.args[0], mkConst(64, npk), true, c.cb, "write"); E.access(c.st, c.args[1], mkConst(64, nsk), true, c.cb, "write");
    T sd = mkSeq(E.readSeq(c.st, c.args[2], nseed)); State s = c.st; E.writeSeq(s, c.args[0], appSeq(alg + "pk", npk, {sd})); 
    TV skv = appSeq(alg + "sk", nsk, {sd}); if (alg == "sph") for (u64 i = 0; i < 64; i++) skv[64 + i] = appByte("sphpk", i, {sd}); /* contract: the secret key ends with the public key (decided by C06 on the component itself) */ E.writeSeq(s, c.args[1], skv); out.push_back({s, mkConst(32, 0), nullptr});
    bool kn; auto rs = retSet(c.callee, kn); if (!kn || rs.size() > 1 || !rs.count(0)) { State f = c.st; E.havoc(f, c.args[0], mkConst(64, npk), alg + "kf"); E.havoc(f, c.args[1], mkConst(64, nsk), alg + "kf"); setRetFail(E, c.callee, f, out); }
    return out; }; };
  E.models["crypto_sign_ed25519_keypair_seed"] = keygen("ed", 32, 64, 32);
  E.models[std::string(DIL) + "crypto_sign_keypair_seed"] = keygen("dil", 1312, 2560, 32);
  E.models[std::string(SPX) + "crypto_sign_seed_keypair"] = keygen("sph", 64, 128, 96);
  auto sign = [](const std::string &alg, u64 nsig, u64 nsk) { return [=](CallCtx &c) {   // (sig, siglen, m, mlen, sk)
    Engine &E = c.E; Outcomes out; E.access(c.st, c.args[2], c.args[3], false, c.cb, "read"); E.access(c.st, c.args[4], mkConst(64, nsk), false, c.cb, "read"); E.access(c.st, c.args[0], mkConst(64, nsig), true, c.cb, "write");
    T m = E.content(c.st, c.args[2], c.args[3]), sk = mkSeq(E.readSeq(c.st, c.args[4], nsk));
    State s = c.st; E.writeSeq(s, c.args[0], appSeq(alg + "sig", nsig, {m, sk})); storeLen(E, s, c.args[1], nsig, c.cb); out.push_back({s, mkConst(32, 0), nullptr});
    bool kn; auto rs = retSet(c.callee, kn); if (!kn || rs.size() > 1) { State f = c.st; E.havoc(f, c.args[0], mkConst(64, nsig), alg + "sf"); E.havoc(f, c.args[1], mkConst(64, 8), alg + "sl"); ghostSet(E, f, "sfail", 1); setRetFail(E, c.callee, f, out); }
    return out; }; };
  E.models[std::string(DIL) + "crypto_sign_signature"] = sign("dil", 2420, 2560);
  E.models[std::string(SPX) + "crypto_sign_signature"] = sign("sph", 49856, 128);
  auto verify = [o](const std::string &alg, u64 nsig, u64 npk) { return [=](CallCtx &c) {   // (sig, siglen, m, mlen, pk)
    Engine &E = c.E; Outcomes out; E.access(c.st, c.args[4], mkConst(64, npk), false, c.cb, "read"); E.access(c.st, c.args[2], c.args[3], false, c.cb, "read");
    T right = mkCmp(O_EQ, c.args[1], mkConst(64, nsig)); State good = c.st, other = c.st; E.assume(right, true, good); E.assume(right, false, other);
    if (!other.dead) setRetFail(E, c.callee, other, out);
    if (good.dead) return out;
    E.access(good, c.args[0], mkConst(64, nsig), false, c.cb, "read");
    T mc = E.content(good, c.args[2], c.args[3]); TV msg = mc->k == TK::Seq ? mc->a : TV{mc};
    CallCtx g{E, c.cb, good, c.args, c.callee, c.stack};
    verifyOutcomes(g, o, alg, E.readSeq(good, c.args[0], nsig), msg, E.readSeq(good, c.args[4], npk), out, nullptr, nullptr);
    return out; }; };
  E.models[std::string(DIL) + "crypto_sign_verify"] = verify("dil", 2420, 1312);
  E.models[std::string(SPX) + "crypto_sign_verify"] = verify("sph", 49856, 64);
}

// ---------------------------------------------------------------- hash functions
// A context is the 8-byte pointer cell inside the caller's struct; its abstract value is
// Sponge{aux = phase | squeezed<<4, kind, absorbed...}.  Phases: 1 absorbing, 2 squeezing, 3 released.
static T spKind(const std::string &k) { return mkLeaf("#kind:" + k, 0, 1); }
static T mkSponge(unsigned phase, u64 off, T kind, const TV &data) { TV a{kind, mkSeq(data)}; return mkCustom("Sponge", phase | (off << 4), 64, a); }
static void xofOut(CallCtx &c, State &s, T out, T n, T kind, T data, u64 off) {
  Engine &E = c.E; E.access(s, out, n, true, c.cb, "write"); u64 k; if (!E.constOf(n, s, k)) { if (out->k == TK::Ptr) E.havocRegion(s, (int)out->c); return; }
  TV b(k); std::string nm = "XOF:" + internName(kind->op).substr(6); for (u64 i = 0; i < k; i++) b[i] = mkCustom(nm, off + i, 8, {data}); E.writeSeq(s, out, b);
}
static TV inData(CallCtx &c, State &s, T in, T n) { c.E.access(s, in, n, false, c.cb, "read"); T t = c.E.content(s, in, n); if (t->k == TK::Seq) return t->a; return {t}; }
void installSponge(Engine &E, Lifecycle *lc, bool phaseOnly) {
  auto mkSponge = [phaseOnly](unsigned ph, u64 off, T kind, const TV &data) { return phaseOnly ? pq::mkSponge(ph, 0, kind, {}) : pq::mkSponge(ph, off, kind, data); };
  auto xofOut = [phaseOnly](CallCtx &c, State &s, T out, T n, T kind, T data, u64 off) { if (phaseOnly) { c.E.access(s, out, n, true, c.cb, "write"); c.E.havoc(s, out, n, "digest"); return; } pq::xofOut(c, s, out, n, kind, data, off); };
  auto badUse = [lc](CallCtx &c, State &s, const std::string &what) { if (!lc) return; std::string w = c.E.loc(c.cb); if (lc->seen.insert(w + what).second) { auto p = c.E.path(s); lc->bad.push_back({w, what, p}); } };
  auto one = [](State s, T r) { Outcomes o; o.push_back({std::move(s), r, nullptr}); return o; };
  auto get = [](CallCtx &c, State &s, T p) -> T { if (p->k != TK::Ptr || !c.E.rreg(s, (int)p->c)) return nullptr; T v = c.E.load(s, p, 8, c.cb); return v; };
  struct K { const char *n; u64 rate, dig; };
  for (K k : {K{"shake128", 168, 0}, K{"shake256", 136, 0}, K{"sha3_256", 136, 32}, K{"sha3_384", 104, 48}, K{"sha3_512", 72, 64}}) {
    std::string n = k.n; T kind = spKind(n); bool shake = k.dig == 0; u64 rate = k.rate, dig = k.dig;
    if (shake) E.models[n] = [=](CallCtx &c) { State s = c.st; TV d = inData(c, s, c.args[2], c.args[3]); xofOut(c, s, c.args[0], c.args[1], kind, mkSeq(d), 0); if (lc) lc->events++; return one(s, nullptr); };
    else E.models[n] = [=](CallCtx &c) { State s = c.st; TV d = inData(c, s, c.args[1], c.args[2]); xofOut(c, s, c.args[0], mkConst(64, dig), kind, mkSeq(d), 0); if (lc) lc->events++; return one(s, nullptr); };
    E.models[n + "_inc_init"] = [=](CallCtx &c) { State s = c.st; if (lc) lc->events++; T old = get(c, s, c.args[0]); if (old && isCustom(old, "Sponge") && (old->c & 15) != 3) badUse(c, s, n + " context initialised again while still live (leak)"); c.E.store(s, c.args[0], mkSponge(1, 0, kind, {}), 8, c.cb); return one(s, nullptr); };
    auto absorb = [=](CallCtx &c, T ctx, T in, T len) { State s = c.st; if (lc) lc->events++; TV d; if (!phaseOnly) d = inData(c, s, in, len); else c.E.access(s, in, len, false, c.cb, "read"); T t = get(c, s, ctx);
      if (!t || !isCustom(t, "Sponge") || t->a[1] != kind) { badUse(c, s, n + " absorb on a context that is not initialised for it"); if (t) c.E.havoc(s, ctx, mkConst(64, 8), "badctx"); return one(s, nullptr); }
      unsigned ph = t->c & 15; if (ph != 1) badUse(c, s, n + " absorb on a context that is " + (ph == 2 ? "already finalised" : "released"));
      TV a = t->a[2]->a; a.insert(a.end(), d.begin(), d.end()); c.E.store(s, ctx, mkSponge(1, 0, kind, a), 8, c.cb); return one(s, nullptr); };
    E.models[n + "_inc_absorb"] = [=](CallCtx &c) { return absorb(c, c.args[0], c.args[1], c.args[2]); };
    auto need = [=](CallCtx &c, State &s, T ctx, unsigned want, const char *what) -> T { T t = get(c, s, ctx); if (!t || !isCustom(t, "Sponge") || t->a[1] != kind) { badUse(c, s, n + std::string(" ") + what + " on a context that is not initialised for it"); return nullptr; }
      unsigned ph = t->c & 15; if (ph != want) { badUse(c, s, n + std::string(" ") + what + " on a context that is " + (ph == 1 ? "not finalised" : ph == 2 ? "already finalised" : "released")); return nullptr; } return t; };
    if (shake) {
      E.models[n + "_inc_finalize"] = [=](CallCtx &c) { State s = c.st; if (lc) lc->events++; T t = need(c, s, c.args[0], 1, "finalise"); if (t) c.E.store(s, c.args[0], mkSponge(2, 0, kind, t->a[2]->a), 8, c.cb); return one(s, nullptr); };
      auto squeeze = [=](CallCtx &c, T out, T len, T ctx) { State s = c.st; if (lc) lc->events++; T t = need(c, s, ctx, 2, "squeeze"); u64 l;
        if (!t) { c.E.access(s, out, len, true, c.cb, "write"); c.E.havoc(s, out, len, "badsqueeze"); return one(s, nullptr); }
        u64 off = t->c >> 4; xofOut(c, s, out, len, kind, t->a[2], off); if (c.E.constOf(len, s, l)) c.E.store(s, ctx, mkSponge(2, off + l, kind, t->a[2]->a), 8, c.cb); else c.E.store(s, ctx, mkSponge(2, 0, kind, {mkFresh("unknown-squeeze", 0)}), 8, c.cb); return one(s, nullptr); };
      E.models[n + "_inc_squeeze"] = [=](CallCtx &c) { return squeeze(c, c.args[0], c.args[1], c.args[2]); };
      E.models[n + "_squeezeblocks"] = [=](CallCtx &c) { T l = mkMulC(c.args[1], rate); u64 k; if (c.E.constOf(l, c.st, k)) l = mkConst(64, k); return squeeze(c, c.args[0], l, c.args[2]); };
      E.models[n + "_absorb"] = [=](CallCtx &c) { State s = c.st; if (lc) lc->events++; TV d = inData(c, s, c.args[1], c.args[2]); T old = get(c, s, c.args[0]); if (old && isCustom(old, "Sponge") && (old->c & 15) != 3) badUse(c, s, n + " context initialised again while still live (leak)"); c.E.store(s, c.args[0], mkSponge(2, 0, kind, d), 8, c.cb); return one(s, nullptr); };
    } else E.models[n + "_inc_finalize"] = [=](CallCtx &c) { State s = c.st; if (lc) lc->events++; T t = need(c, s, c.args[1], 1, "finalise"); if (t) { xofOut(c, s, c.args[0], mkConst(64, dig), kind, t->a[2], 0); c.E.store(s, c.args[1], mkSponge(3, 0, kind, {}), 8, c.cb); } else { c.E.havoc(s, c.args[0], mkConst(64, dig), "badhash"); } return one(s, nullptr); };
    for (std::string rel : {n + "_inc_ctx_release", n + "_ctx_release"}) E.models[rel] = [=](CallCtx &c) { State s = c.st; if (lc) lc->events++; T t = get(c, s, c.args[0]); if (!t || !isCustom(t, "Sponge") || t->a[1] != kind) badUse(c, s, n + " release of a context that is not initialised for it"); else if ((t->c & 15) == 3) badUse(c, s, n + " context released twice"); c.E.store(s, c.args[0], mkSponge(3, 0, kind, {}), 8, c.cb); return one(s, nullptr); };
    for (std::string cl : {n + "_inc_ctx_clone", n + "_ctx_clone"}) E.models[cl] = [=](CallCtx &c) { State s = c.st; if (lc) lc->events++; T t = get(c, s, c.args[1]); if (!t || !isCustom(t, "Sponge") || (t->c & 15) == 3) badUse(c, s, n + " clone of a context that is not live"); T old = get(c, s, c.args[0]); if (old && isCustom(old, "Sponge") && (old->c & 15) != 3) badUse(c, s, n + " clone over a context that is still live (leak)"); if (t) c.E.store(s, c.args[0], t, 8, c.cb); return one(s, nullptr); };
  }
}
} // namespace pq
