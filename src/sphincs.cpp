// C22, C26, C32: SPHINCS+. Every function is compared, term for term, with a reference construction over the hash
// function as an uninterpreted function of its complete input, so hash inputs (addresses included) are compared byte by byte.
#include "checks.h"
using namespace llvm;
namespace pq {
static const std::string SPX = "PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_";
static T L(u64 v) { return mkConst(64, v); }
static T B(u64 v) { return mkConst(8, v & 255); }
static T W32(u64 v) { return mkConst(32, v); }
static TV cat(TV a, const TV &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static TV slice(const TV &v, u64 a, u64 n) { return TV(v.begin() + a, v.begin() + a + n); }
static Outcomes one(State s, T r = nullptr) { Outcomes o; o.push_back({std::move(s), r, nullptr}); return o; }
static TV rd(CallCtx &c, State &s, T p, u64 n) { c.E.access(s, p, L(n), false, c.cb, "read"); return c.E.readSeq(s, p, n); }
static void wr(CallCtx &c, State &s, T p, const TV &v) { c.E.access(s, p, L(v.size()), true, c.cb, "write"); c.E.writeSeq(s, p, v); }
static TV shake(const TV &in, u64 n) { T d = mkSeq(in); TV r(n); for (u64 i = 0; i < n; i++) r[i] = mkCustom("XOF:shake256", i, 8, {d}); return r; }
enum { A_WOTS, A_WOTSPK, A_TREE, A_FORSTREE, A_FORSPK, A_WOTSPRF, A_FORSPRF };
struct Addr { TV b = TV(32, B(0)); void type(u64 t) { b[19] = B(t); } void at(unsigned i, u64 v) { b[i] = B(v); } void index(u64 v) { for (int i = 0; i < 4; i++) b[28 + i] = B(v >> (24 - 8 * i)); }
  void sub(const Addr &o) { for (int i = 0; i < 16; i++) b[i] = o.b[i]; } void kp(const Addr &o) { sub(o); b[23] = o.b[23]; } };
static TV thash(const TV &pub, const Addr &a, const TV &in) { return shake(cat(cat(pub, a.b), in), 32); }
static TV prf(const TV &pub, const TV &sk, const Addr &a) { return shake(cat(cat(pub, a.b), sk), 32); }
static TV PUB() { return leafSeq("ctx", 0, 32); }
static TV SKS() { return leafSeq("ctx", 32, 32); }
static std::string diffAt(const TV &a, const TV &b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return "byte " + std::to_string(i); return "lengths differ"; }
// where two terms first differ: descends into hash inputs and names the place
static std::string why(T g, T w, int depth = 0) {
  if (g == w) return ""; if (g->k == w->k && g->k == TK::Op && isCustom(w, "XOF:shake256") && isCustom(g, "XOF:shake256")) { if (g->c != w->c) return "another output byte of the hash"; T x = g->a[1], y = w->a[1]; if (x->a.size() != y->a.size()) return "a hash over " + std::to_string(x->a.size()) + " instead of " + std::to_string(y->a.size()) + " input bytes";
    for (size_t i = 0; i < x->a.size(); i++) if (x->a[i] != y->a[i]) { if (i >= 32 && i < 64) return "a hash whose address byte " + std::to_string(i - 32) + " is " + show(x->a[i], 2) + " instead of " + show(y->a[i], 2); std::string s = depth < 200 ? why(x->a[i], y->a[i], depth + 1) : ""; return s; } }
  return show(g, 2) + " instead of " + show(w, 2); }
static std::string explain(const TV &g, const TV &w) { for (size_t i = 0; i < w.size(); i++) if (g[i] != w[i]) return "byte " + std::to_string(i) + ": " + why(g[i], w[i]); return ""; }
static std::vector<unsigned> chainLen(const std::vector<u64> &m) { std::vector<unsigned> l; unsigned cs = 0; for (u64 x : m) { l.push_back(x >> 4); l.push_back(x & 15); } for (unsigned x : l) cs += 15 - x; for (int s : {8, 4, 0}) l.push_back((cs >> s) & 15); return l; }
static TV chain(TV v, unsigned from, unsigned to, const TV &pub, Addr a) { for (unsigned i = from; i < to; i++) { a.at(31, i); v = thash(pub, a, v); } return v; }
static TV computeRoot(TV node, u64 idx, u64 off, const TV &auth, unsigned h, const TV &pub, Addr a) { for (unsigned i = 0; i < h; i++) { TV sib = slice(auth, 32 * i, 32), in = (idx >> i) & 1 ? cat(sib, node) : cat(node, sib); a.at(27, i + 1); a.index((idx >> (i + 1)) + (off >> (i + 1))); node = thash(pub, a, in); } return node; }
static u64 rngState; static u64 rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static std::vector<std::vector<u64>> digests(u64 n, unsigned many) { std::vector<std::vector<u64>> r; r.push_back(std::vector<u64>(n, 0)); r.push_back(std::vector<u64>(n, 255)); for (u64 k = 0; k < 16; k++) { std::vector<u64> v; for (u64 i = 0; i < n; i++) v.push_back((((k + 2 * i) & 15) << 4) | ((k + 2 * i + 1 + i / 8) & 15)); r.push_back(v); } rngState = 88172645463325252ull; for (unsigned q = 0; q < many; q++) { std::vector<u64> v; for (u64 i = 0; i < n; i++) v.push_back((rng() >> 20) & 255); r.push_back(v); } return r; }
static std::string hex(const std::vector<u64> &v) { std::string s; char b[4]; for (u64 x : v) { snprintf(b, 4, "%02x", (unsigned)x); s += b; } return s; }
// an address buffer as the callers prepare it: layer, tree and key pair arbitrary, the fields the callee must set arbitrary
static Addr addrIn(Run &h, const std::string &n, std::set<unsigned> sym, u64 type, State &s) { Addr a; a.type(type); for (unsigned i : sym) a.b[i] = mkLeaf("addr", i, 8); for (unsigned i = 0; i < 32; i++) h.E.storeBytes(s, h.reg[n], i, a.b[i], 1); return a; }
static void putConst(Run &h, const std::string &n, const std::vector<u64> &v) { for (size_t i = 0; i < v.size(); i++) h.E.storeBytes(h.s0, h.reg[n], i, B(v[i]), 1); }
static bool have(Ctx &c, Report &R, const std::string &n, unsigned args) { auto *F = c.M.getFunction(SPX + n); if (F && !F->isDeclaration() && F->arg_size() == args) return true; R.notes.insert(n + " not found with its interface: not compared on its own"); return false; }
static const std::set<unsigned> PLACE{3, 8, 9, 10, 11, 12, 13, 14, 15, 23};
static std::set<unsigned> with(std::set<unsigned> s, std::initializer_list<unsigned> l) { for (unsigned x : l) s.insert(x); return s; }

static void jobRoot(Ctx &c, std::vector<Job> &jobs, const std::string &id) {
  for (u64 b = 0; b < 4; b++) jobs.push_back([=, &c](Report &R) { if (!have(c, R, "compute_root", 8)) return; struct Q { u64 h, idx, off; }; std::vector<Q> qs; if (b == 0) for (u64 i = 0; i < 16; i++) qs.push_back({4, i, 0}); for (u64 i = b; i < 512; i += 4) qs.push_back({9, i, ((i * 7) % 35) * 512}); for (u64 t = b; t < 35; t += 4) qs.push_back({9, (t * 37) % 512, t * 512});
    for (auto q : qs) { Run h(c.M, SPX + "compute_root"); Engine &E = h.E; installSponge(E, nullptr); h.args = {h.buf("root", 32, true), h.buf("leaf", 32, false), W32(q.idx), W32(q.off), h.buf("auth", 32 * q.h, false), W32(q.h), h.buf("ctx", 64, false), h.buf("addr", 32, true)}; Addr a = addrIn(h, "addr", with(PLACE, {27, 28, 29, 30, 31}), q.h == 4 ? A_TREE : A_FORSTREE, h.s0); if (!h.go(R)) return;
      TV w = computeRoot(leafSeq("leaf", 0, 32), q.idx, q.off, leafSeq("auth", 0, 32 * q.h), q.h, PUB(), a); for (auto &o : h.outs) { TV g = E.readSeq(o.st, h.args[0], 32); R.oblig(g == w, id + ":root", h.where(o), "the root computed from leaf " + std::to_string(q.idx) + " of a tree of height " + std::to_string(q.h) + " (offset " + std::to_string(q.off) + ") is not that of the authentication path: " + explain(g, w)); } memObligations(E, R, id + ":mem", h.name); R.ok("root_comparisons"); } });
}
static void jobWotsPk(Ctx &c, std::vector<Job> &jobs, const std::string &id) {
  jobs.push_back([=, &c](Report &R) { if (!have(c, R, "chain_lengths", 2)) return; std::vector<std::vector<u64>> ds = digests(32, c.thorough ? 2000 : 300); for (u64 p = 0; p < 64; p++) for (u64 v = 1; v < 16; v++) for (u64 base : {0, 255}) { std::vector<u64> d(32, base); d[p / 2] ^= v << (p % 2 ? 0 : 4); ds.push_back(d); }
    for (auto &d : ds) { Run h(c.M, SPX + "chain_lengths"); h.args = {h.buf("len", 67 * 4, true), h.buf("msg", 32, false)}; putConst(h, "msg", d); if (!h.go(R)) return; auto l = chainLen(d); for (auto &o : h.outs) for (unsigned i = 0; i < 67; i++) { u64 v; R.oblig(h.E.constOf(h.E.loadBytes(o.st, h.reg["len"], 4 * i, 4), o.st, v) && v == l[i], id + ":lengths", h.where(o), "chain length " + std::to_string(i) + " for digest " + hex(d) + " is not " + std::to_string(l[i])); } memObligations(h.E, R, id + ":mem", h.name); R.ok("length_comparisons"); } });
  auto ds = digests(32, c.thorough ? 60 : 6); for (u64 b = 0; b < 8; b++) jobs.push_back([=, &c](Report &R) { if (!have(c, R, "wots_pk_from_sig", 5)) return; for (size_t q = b; q < ds.size(); q += 8) { auto &d = ds[q]; Run h(c.M, SPX + "wots_pk_from_sig"); Engine &E = h.E; installSponge(E, nullptr); h.args = {h.buf("pk", 2144, true), h.buf("sig", 2144, false), h.buf("msg", 32, false), h.buf("ctx", 64, false), h.buf("addr", 32, true)}; putConst(h, "msg", d); Addr a = addrIn(h, "addr", with(PLACE, {27, 31}), A_WOTS, h.s0); if (!h.go(R)) return; auto l = chainLen(d);
      for (auto &o : h.outs) for (unsigned i = 0; i < 67; i++) { a.at(27, i); TV w = chain(leafSeq("sig", 32 * i, 32), l[i], 15, PUB(), a), g = E.readSeq(o.st, mkAdd(h.args[0], L(32 * i)), 32); R.oblig(g == w, id + ":wots", h.where(o), "one-time public key part " + std::to_string(i) + " for digest " + hex(d) + " is not the signature value hashed from position " + std::to_string(l[i]) + " to the end of its chain: " + explain(g, w)); } memObligations(E, R, id + ":mem", h.name); R.ok("wots_comparisons"); } });
}
static std::vector<u64> forsIdx(const std::vector<u64> &m) { std::vector<u64> r; u64 o = 0; for (int i = 0; i < 35; i++) { u64 v = 0; for (int j = 0; j < 9; j++, o++) v = (v << 1) | ((m[o >> 3] >> (7 - (o & 7))) & 1); r.push_back(v); } return r; }
static void jobForsPk(Ctx &c, std::vector<Job> &jobs, const std::string &id) {
  auto ds = digests(40, c.thorough ? 400 : 60); for (u64 b = 0; b < 8; b++) jobs.push_back([=, &c](Report &R) { if (!have(c, R, "fors_pk_from_sig", 5)) return; for (size_t q = b; q < ds.size(); q += 8) { auto &d = ds[q]; Run h(c.M, SPX + "fors_pk_from_sig"); Engine &E = h.E; installSponge(E, nullptr); h.args = {h.buf("pk", 32, true), h.buf("sig", 11200, false), h.buf("m", 40, false), h.buf("ctx", 64, false), h.buf("addr", 32, true)}; putConst(h, "m", d); Addr in = addrIn(h, "addr", {8, 9, 10, 11, 12, 13, 14, 15, 23}, A_WOTS, h.s0); if (!h.go(R)) return;
      auto ix = forsIdx(d); Addr t, p; t.kp(in); t.type(A_FORSTREE); p.kp(in); p.type(A_FORSPK); TV roots; for (u64 i = 0; i < 35; i++) { t.at(27, 0); t.index(ix[i] + 512 * i); TV lf = thash(PUB(), t, leafSeq("sig", 320 * i, 32)); roots = cat(roots, computeRoot(lf, ix[i], 512 * i, leafSeq("sig", 320 * i + 32, 288), 9, PUB(), t)); } TV w = thash(PUB(), p, roots);
      for (auto &o : h.outs) { TV g = E.readSeq(o.st, h.args[0], 32); R.oblig(g == w, id + ":fors", h.where(o), "the FORS public key recomputed for digest " + hex(d) + " differs from the definition: " + explain(g, w)); } memObligations(E, R, id + ":mem", h.name); R.ok("fors_comparisons"); } });
}
// ---- signing side
static TV wotsLeaf(const TV &pub, const TV &sks, const Addr &place, u64 leaf, const std::vector<unsigned> *len, TV *sig) { Addr a, p; a.sub(place); p.sub(place); a.at(23, leaf); p.at(23, leaf); p.type(A_WOTSPK); TV pk; for (unsigned i = 0; i < 67; i++) { a.at(27, i); a.at(31, 0); a.type(A_WOTSPRF); TV v = prf(pub, sks, a); a.type(A_WOTS); if (len) { v = chain(v, 0, (*len)[i], pub, a); *sig = cat(*sig, v); v = chain(v, (*len)[i], 15, pub, a); } else v = chain(v, 0, 15, pub, a); pk = cat(pk, v); } return thash(pub, p, pk); }
// nodes of a tree over given leaves: root and authentication path
static TV treeRef(std::vector<TV> lv, u64 leaf, u64 off, const TV &pub, Addr a, TV *auth) { for (unsigned h = 0; lv.size() > 1; h++) { if (auth) *auth = cat(*auth, lv[(leaf >> h) ^ 1]); std::vector<TV> n; for (u64 i = 0; i < lv.size() / 2; i++) { a.at(27, h + 1); a.index(i + (off >> (h + 1))); n.push_back(thash(pub, a, cat(lv[2 * i], lv[2 * i + 1]))); } lv = n; } return lv[0]; }
static void jobMerkle(Ctx &c, std::vector<Job> &jobs, const std::string &id) {
  std::vector<u64> ls; for (u64 i = 0; i < 16; i++) ls.push_back(i); ls.push_back(0xffffffffull); auto ds = digests(32, 8); 
  for (size_t q = 0; q < ls.size(); q++) jobs.push_back([=, &c](Report &R) { if (!have(c, R, "merkle_sign", 6)) return; u64 leaf = ls[q]; bool gen = leaf > 15; auto &d = ds[(q * 5 + 3) % ds.size()]; Run h(c.M, SPX + "merkle_sign"); Engine &E = h.E; installSponge(E, nullptr); h.args = {h.buf("sig", 2144 + 128, true), h.buf("root", 32, true), h.buf("ctx", 64, false), h.buf("waddr", 32, true), h.buf("taddr", 32, true), W32(leaf)}; putConst(h, "root", d); Addr wa = addrIn(h, "waddr", {3, 8, 9, 10, 11, 12, 13, 14, 15}, A_WOTS, h.s0), ta = addrIn(h, "taddr", {3, 8, 9, 10, 11, 12, 13, 14, 15, 27, 28, 29, 30, 31}, A_TREE, h.s0); if (!gen) h.E.storeBytes(h.s0, h.reg["waddr"], 23, B(leaf), 1); if (!h.go(R)) return;
    auto l = chainLen(d); TV sig, auth; std::vector<TV> lv; for (u64 i = 0; i < 16; i++) lv.push_back(wotsLeaf(PUB(), SKS(), wa, i, i == leaf ? &l : nullptr, &sig)); TV root = treeRef(lv, leaf, 0, PUB(), ta, gen ? nullptr : &auth); TV full = cat(sig, auth);
    for (auto &o : h.outs) { TV g = E.readSeq(o.st, h.args[1], 32); R.oblig(g == root, id + ":merkle-root", h.where(o), "the subtree root (leaf " + std::to_string(leaf) + ") differs from the definition: " + explain(g, root)); if (!gen) { TV s = E.readSeq(o.st, h.args[0], 2272); R.oblig(s == full, id + ":merkle-sig", h.where(o), "the one-time signature and authentication path (leaf " + std::to_string(leaf) + ", digest " + hex(d) + ") differ from the definition: " + explain(s, full)); } } memObligations(E, R, id + ":mem", h.name); R.ok("merkle_comparisons"); });
}
static void jobForsSign(Ctx &c, std::vector<Job> &jobs, const std::string &id) {
  auto ds = digests(40, 6); std::vector<size_t> pick{4, 19}; if (c.thorough) pick = {0, 1, 4, 9, 14, 18, 20, 22}; for (size_t q : pick) jobs.push_back([=, &c](Report &R) { if (!have(c, R, "fors_sign", 5)) return; auto &d = ds[q]; Run h(c.M, SPX + "fors_sign"); Engine &E = h.E; installSponge(E, nullptr); h.args = {h.buf("sig", 11200, true), h.buf("pk", 32, true), h.buf("m", 40, false), h.buf("ctx", 64, false), h.buf("addr", 32, false)}; putConst(h, "m", d); Addr in = addrIn(h, "addr", {8, 9, 10, 11, 12, 13, 14, 15, 23}, A_WOTS, h.s0); if (!h.go(R)) return;
    auto ix = forsIdx(d); Addr t, p; t.kp(in); p.kp(in); p.type(A_FORSPK); TV roots, sig; for (u64 i = 0; i < 35; i++) { std::vector<TV> lv; for (u64 j = 0; j < 512; j++) { Addr l = t; l.index(j + 512 * i); l.type(A_FORSPRF); TV sk = prf(PUB(), SKS(), l); if (j == ix[i]) sig = cat(sig, sk); l.type(A_FORSTREE); lv.push_back(thash(PUB(), l, sk)); } Addr tt = t; tt.type(A_FORSTREE); roots = cat(roots, treeRef(lv, ix[i], 512 * i, PUB(), tt, &sig)); } TV pk = thash(PUB(), p, roots);
    for (auto &o : h.outs) { TV g = E.readSeq(o.st, h.args[1], 32), s = E.readSeq(o.st, h.args[0], 11200); R.oblig(g == pk, id + ":fors-pk", h.where(o), "the FORS public key made while signing differs from the definition: " + explain(g, pk)); R.oblig(s == sig, id + ":fors-sig", h.where(o), "the FORS signature differs from the definition: " + explain(s, sig)); } memObligations(E, R, id + ":mem", h.name); R.ok("fors_sign_comparisons"); });
}

// ---- top level: the four sub-operations are opaque functions of everything they are given
static void stale(CallCtx &c, State &s, T a, std::initializer_list<unsigned> l) { for (unsigned i : l) c.E.writeSeq(s, mkAdd(a, L(i)), {mkFresh("stale", 8)}); }
static const std::vector<unsigned> USED{3, 8, 9, 10, 11, 12, 13, 14, 15, 19, 23};
static T addrKey(const TV &a, std::initializer_list<unsigned> drop = {}) { TV k = a; for (unsigned i : drop) k[i] = B(0); return mkSeq(k); }
static TV fPk(const TV &sig, const TV &m, const TV &pub, T a) { return appSeq("FORS.pk", 32, {mkSeq(sig), mkSeq(m), mkSeq(pub), a}); }
static TV wPk(const TV &sig, const TV &m, const TV &pub, T a) { return appSeq("WOTS.pk", 2144, {mkSeq(sig), mkSeq(m), mkSeq(pub), a}); }
static TV cRoot(const TV &leaf, T idx, T off, const TV &auth, u64 h, const TV &pub, T a) { return appSeq("ROOT", 32, {mkSeq(leaf), idx, off, mkSeq(auth), L(h), mkSeq(pub), a}); }
static void installSub(Engine &E) {
  E.models[SPX + "fors_pk_from_sig"] = [](CallCtx &c) { State s = c.st; TV sig = rd(c, s, c.args[1], 11200), m = rd(c, s, c.args[2], 40), pub = rd(c, s, c.args[3], 32), a = rd(c, s, c.args[4], 32); wr(c, s, c.args[0], fPk(sig, m, pub, addrKey(a, {19, 27, 28, 29, 30, 31}))); return one(s); };
  E.models[SPX + "wots_pk_from_sig"] = [](CallCtx &c) { State s = c.st; TV sig = rd(c, s, c.args[1], 2144), m = rd(c, s, c.args[2], 32), pub = rd(c, s, c.args[3], 32), a = rd(c, s, c.args[4], 32); wr(c, s, c.args[0], wPk(sig, m, pub, addrKey(a, {27, 31}))); stale(c, s, c.args[4], {27, 31}); return one(s); };
  E.models[SPX + "compute_root"] = [](CallCtx &c) { State s = c.st; u64 h; if (!c.E.constOf(c.args[5], s, h) || h > 64) { c.E.havoc(s, c.args[0], L(32), "root"); return one(s); } TV leaf = rd(c, s, c.args[1], 32), auth = rd(c, s, c.args[4], 32 * h), pub = rd(c, s, c.args[6], 32), a = rd(c, s, c.args[7], 32); wr(c, s, c.args[0], cRoot(leaf, c.args[2], c.args[3], auth, h, pub, addrKey(a, {27, 28, 29, 30, 31}))); stale(c, s, c.args[7], {27, 28, 29, 30, 31}); return one(s); };
  E.models[SPX + "fors_sign"] = [](CallCtx &c) { State s = c.st; TV m = rd(c, s, c.args[2], 40), ctx = rd(c, s, c.args[3], 64), a = rd(c, s, c.args[4], 32); T k = addrKey(a, {19, 27, 28, 29, 30, 31}); wr(c, s, c.args[0], appSeq("FORS.sig", 11200, {mkSeq(m), mkSeq(ctx), k})); wr(c, s, c.args[1], appSeq("FORS.signpk", 32, {mkSeq(m), mkSeq(ctx), k})); return one(s); };
  E.models[SPX + "merkle_sign"] = [](CallCtx &c) { State s = c.st; c.E.access(s, c.args[1], L(32), false, c.cb, "read"); TV r = c.E.readSeq(s, c.args[1], 32), ctx = rd(c, s, c.args[2], 64), w = rd(c, s, c.args[3], 32), t = rd(c, s, c.args[4], 32); u64 il; bool gen = c.E.constOf(c.args[5], s, il) && il > 15; T k1 = addrKey(w, {19, 23, 27, 31}), k2 = addrKey(t, {19, 27, 28, 29, 30, 31}); TV in{mkSeq(ctx), k1, k2}; wr(c, s, c.args[1], appSeq("MERKLE.root", 32, in)); TV si{mkSeq(r), mkSeq(ctx), k1, k2, c.args[5]}; if (gen) { c.E.access(s, c.args[0], L(2272), true, c.cb, "write"); c.E.havoc(s, c.args[0], L(2272), "unused"); } else wr(c, s, c.args[0], appSeq("MERKLE.sig", 2272, si)); stale(c, s, c.args[4], {27, 28, 29, 30, 31}); return one(s); };
}
static T beWord(const TV &b) { return mkConcat(TV(b.rbegin(), b.rend())); }
static TV beBytes(T w) { TV r; for (int i = 7; i >= 0; i--) r.push_back(mkByte(w, i)); return r; }
static T shr(T t, unsigned k) { return k ? mkBin(Instruction::LShr, t, L(k)) : t; }
struct Place { T tree, idx; TV mhash; };
static Place place(const TV &r, const TV &pk, const TV &m) { TV d = shake(cat(cat(r, pk), m), 49); return {beWord(slice(d, 40, 8)), mkZext(mkBin(Instruction::And, d[48], B(15)), 32), slice(d, 0, 40)}; }
static T nextIdx(T tree) { return mkTrunc(mkBin(Instruction::And, tree, L(15)), 32); }
static Addr addrOf(unsigned layer, T tree, T idx, u64 type) { Addr a; a.at(3, layer); TV t = beBytes(tree); for (int i = 0; i < 8; i++) a.b[8 + i] = t[i]; a.type(type); if (idx) a.b[23] = mkByte(idx, 0); return a; }
static TV msgSeq(bool sym, u64 n, T nt) { return sym ? TV{mkCustom("Range", 0, 0, {mkLeaf("m", 0, 8), L(0), nt})} : leafSeq("m", 0, n); }
static void jobVerify(Ctx &c, std::vector<Job> &jobs, const std::string &id) {
  const std::string F = SPX + "crypto_sign_verify"; for (u64 n : {0ull, 1ull, 32ull, 33ull, 200ull, ~0ull}) jobs.push_back([=, &c](Report &R) { if (!have(c, R, "fors_pk_from_sig", 5) || !have(c, R, "wots_pk_from_sig", 5) || !have(c, R, "compute_root", 8)) return; bool sym = n == ~0ull; Run h(c.M, F); Engine &E = h.E; installSponge(E, nullptr); installSub(E); T nt = sym ? mkLeaf("mlen", 0, 64) : L(n), sl = mkLeaf("siglen", 0, 64); if (sym) E.assume(mkCmp(O_ULT, nt, L(1ull << 40)), true, h.s0); E.assume(mkCmp(O_ULT, sl, L(1ull << 40)), true, h.s0);
    h.args = {h.buf("sig", sl, false), sl, h.buf("m", sym ? nt : L(n ? n : 1), false), nt, h.buf("pk", 64, false)}; if (!h.go(R)) return; TV sig = leafSeq("sig", 0, 49856), pk = leafSeq("pk", 0, 64), pub = slice(pk, 0, 32); Place p = place(slice(sig, 0, 32), pk, msgSeq(sym, n, nt));
    Addr fa = addrOf(0, p.tree, p.idx, 0); TV node = fPk(slice(sig, 32, 11200), p.mhash, pub, addrKey(fa.b, {19, 27, 28, 29, 30, 31})); T tree = p.tree, idx = p.idx; for (unsigned i = 0; i < 17; i++) { u64 o = 32 + 11200 + 2272 * i; Addr wa = addrOf(i, tree, idx, A_WOTS), pa = addrOf(i, tree, idx, A_WOTSPK), ta = addrOf(i, tree, nullptr, A_TREE); TV wp = wPk(slice(sig, o, 2144), node, pub, addrKey(wa.b, {27, 31})), leaf = thash(pub, pa, wp); node = cRoot(leaf, idx, W32(0), slice(sig, o + 2144, 128), 4, pub, addrKey(ta.b, {27, 28, 29, 30, 31})); idx = nextIdx(shr(p.tree, 4 * i)); tree = shr(p.tree, 4 * (i + 1 > 15 ? 15 : i + 1)); if (i + 1 >= 16) tree = L(0); }
    u64 acc = 0; for (auto &o : h.outs) { auto P = E.path(o.st); if (!mayBeZero(E, o.ret, o.st)) { R.ok("rejecting_exits"); continue; } acc++; R.ok("accepting_exits"); Itv iv = E.eval(sl, o.st); R.oblig(iv.lo == 49856 && iv.hi == 49856, id + ":length", h.where(o), "SPHINCS+ verification can succeed for a signature length other than 49856", P);
      u64 i = 0; for (; i < 32; i++) if (!E.equal(node[i], pk[32 + i], o.st)) break; std::string got; if (i < 32) for (T f : *o.st.facts) if (f->k == TK::Op && f->op == O_EQ && (f->a[0] == pk[32 + i] || f->a[1] == pk[32 + i])) { T g = f->a[0] == pk[32 + i] ? f->a[1] : f->a[0]; got = " (compared instead with " + show(g, 3) + ")"; if (isCustom(g, "ROOT") && g->a.size() == node[i]->a.size()) { T x = g, y = node[i]; std::string w; for (int lay = 16; lay >= 0; lay--) { for (size_t q = 1; q < x->a.size(); q++) if (x->a[q] != y->a[q]) { w = "layer " + std::to_string(lay) + " input " + std::to_string(q) + ": " + show(x->a[q], 3).substr(0, 200) + " instead of " + show(y->a[q], 3).substr(0, 200); if (q == 1 && x->a[1]->k == TK::Seq && isCustom(x->a[1]->a[0], "XOF:shake256")) w = "layer " + std::to_string(lay) + " leaf: " + why(x->a[1]->a[0], y->a[1]->a[0]).substr(0, 300); break; } break; } got = " (" + w + ")"; } }
      R.oblig(i == 32, id + ":root-compare", h.where(o), "SPHINCS+ verification (" + (sym ? "any message length" : "message length " + std::to_string(n)) + ") can succeed although byte " + std::to_string(i) + " of the public root is not known to equal the root recomputed from every signature byte, the public key and the digest of randomizer, public key and complete message" + got, P); }
    R.oblig(acc > 0, id + ":accepts", F, "SPHINCS+ verification has no accepting exit"); memObligations(E, R, id + ":mem", F); R.ok("verify_comparisons"); if (sym) R.sample("accept => siglen == 49856 and pk[32+i] == ROOT(17 layers over FORS.pk(sig[32..11232), shake256(R||pk||m)[0..40)))[i] for i<32"); });
}
static void jobSign(Ctx &c, std::vector<Job> &jobs, const std::string &id) {
  const std::string F = SPX + "crypto_sign_signature"; for (u64 n : {0ull, 1ull, 33ull, ~0ull}) jobs.push_back([=, &c](Report &R) { if (!have(c, R, "fors_sign", 5) || !have(c, R, "merkle_sign", 6)) return; bool sym = n == ~0ull; Run h(c.M, F); Engine &E = h.E; installSponge(E, nullptr); installSub(E); installRandom(E, true); ghost(E, h.s0, "rfail", 0); ghost(E, h.s0, "draws", 0); T nt = sym ? mkLeaf("mlen", 0, 64) : L(n); if (sym) E.assume(mkCmp(O_ULT, nt, L(1ull << 40)), true, h.s0);
    h.args = {h.buf("sig", 49856, true), h.buf("siglen", 8, true), h.buf("m", sym ? nt : L(n ? n : 1), false), nt, h.buf("sk", 128, false)}; if (!h.go(R)) return; TV sk = leafSeq("sk", 0, 128), pk = slice(sk, 64, 64), ctx = cat(slice(pk, 0, 32), slice(sk, 0, 32)), m = msgSeq(sym, n, nt);
    for (auto &o : h.outs) { if (!mayBeZero(E, o.ret, o.st)) { R.ok("failing_exits"); continue; } auto P = E.path(o.st); R.ok("signing_exits"); R.oblig(!ghostGet(E, o.st, "rfail"), id + ":randomness", h.where(o), "SPHINCS+ signing can succeed although randomness failed", P);
      TV r = E.readSeq(o.st, h.args[0], 32); bool ok = isCustom(r[0], "XOF:shake256") && r[0]->c == 0; TV in; if (ok) in = r[0]->a[1]->a; ok = ok && in.size() == 64 + m.size() && slice(in, 0, 32) == slice(sk, 32, 32) && slice(in, 64, m.size()) == m && r == shake(in, 32); std::set<T> fresh; if (ok) for (u64 i = 32; i < 64; i++) if (in[i]->k == TK::Leaf && internName(in[i]->op) != "sk" && internName(in[i]->op) != "m" && internName(in[i]->op) != "sig") fresh.insert(in[i]); ok = ok && fresh.size() == 32; R.oblig(ok, id + ":randomizer", h.where(o), "the SPHINCS+ randomizer is not the hash of the secret key, 32 fresh random bytes and the complete message", P); if (!ok) continue;
      Place p = place(r, pk, m); Addr fa = addrOf(0, p.tree, p.idx, 0); T fk = addrKey(fa.b, {19, 27, 28, 29, 30, 31}); TV want = cat(r, appSeq("FORS.sig", 11200, {mkSeq(p.mhash), mkSeq(ctx), fk})), node = appSeq("FORS.signpk", 32, {mkSeq(p.mhash), mkSeq(ctx), fk}); T tree = p.tree, idx = p.idx;
      for (unsigned i = 0; i < 17; i++) { Addr wa = addrOf(i, tree, idx, 0), ta = addrOf(i, tree, nullptr, 0); T k1 = addrKey(wa.b, {19, 23, 27, 31}), k2 = addrKey(ta.b, {19, 27, 28, 29, 30, 31}); want = cat(want, appSeq("MERKLE.sig", 2272, {mkSeq(node), mkSeq(ctx), k1, k2, idx})); node = appSeq("MERKLE.root", 32, {mkSeq(ctx), k1, k2}); idx = nextIdx(shr(p.tree, 4 * i)); tree = i + 1 >= 16 ? L(0) : shr(p.tree, 4 * (i + 1)); }
      TV g = E.readSeq(o.st, h.args[0], 49856); u64 d = 0; while (d < g.size() && g[d] == want[d]) d++; std::string part = d >= g.size() ? "" : d < 11232 ? "FORS part" : "layer " + std::to_string((d - 11232) / 2272) + " byte " + std::to_string((d - 11232) % 2272); std::string dw; if (d < g.size() && isCustom(g[d], internName(0).empty() ? "" : "MERKLE.sig") && g[d]->a.size() == want[d]->a.size()) for (size_t q = 1; q < g[d]->a.size(); q++) if (g[d]->a[q] != want[d]->a[q]) { dw = " input " + std::to_string(q) + " " + show(g[d]->a[q], 3).substr(0, 300) + " instead of " + show(want[d]->a[q], 3).substr(0, 300); break; }
      R.oblig(d == g.size(), id + ":signature", h.where(o), "signature byte " + std::to_string(d) + " (" + part + ") is not that of the few-time signature and the 17 one-time signatures of the digest's position in the hypertree: " + (d < g.size() ? show(g[d], 3).substr(0, 300) + dw : ""), P); u64 v; R.oblig(E.constOf(E.loadBytes(o.st, h.reg["siglen"], 0, 8), o.st, v) && v == 49856, id + ":siglen", h.where(o), "SPHINCS+ signing reports a wrong length"); }
    memObligations(E, R, id + ":mem", F); R.ok("sign_comparisons"); });
}
static void jobKeygen(Ctx &c, std::vector<Job> &jobs, const std::string &id) {
  const std::string F = SPX + "crypto_sign_seed_keypair"; jobs.push_back([=, &c](Report &R) { Run h(c.M, F); Engine &E = h.E; installSponge(E, nullptr); h.args = {h.buf("pk", 64, true), h.buf("sk", 128, true), h.buf("seed", 96, false)}; if (!h.go(R)) return; TV sd = leafSeq("seed", 0, 96), pub = slice(sd, 64, 32), sks = slice(sd, 0, 32); Addr pl; pl.at(3, 16); Addr ta = pl; ta.type(A_TREE); std::vector<TV> lv; for (u64 i = 0; i < 16; i++) lv.push_back(wotsLeaf(pub, sks, pl, i, nullptr, nullptr)); TV root = treeRef(lv, 0, 0, pub, ta, nullptr), wp = cat(pub, root), ws = cat(sd, root);
    for (auto &o : h.outs) { if (!mayBeZero(E, o.ret, o.st)) { R.ok("failing_exits"); continue; } TV gp = E.readSeq(o.st, h.args[0], 64), gs = E.readSeq(o.st, h.args[1], 128); R.oblig(gp == wp, id + ":pk", h.where(o), "the SPHINCS+ public key is not public seed and root of the top subtree made from the whole seed: " + explain(gp, wp)); R.oblig(gs == ws, id + ":sk", h.where(o), "the SPHINCS+ secret key is not seed and root: " + explain(gs, ws)); R.ok("keygen_comparisons"); } memObligations(E, R, id + ":mem", F); });
}
static bool anchors(Ctx &c, Report &R) { for (std::string f : {"crypto_sign_verify", "crypto_sign_signature", "crypto_sign_seed_keypair"}) if (!c.M.getFunction(SPX + f)) { R.fail("anchor vanished: " + SPX + f); return false; } return true; }
void sphincsJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, const std::set<std::string> &w) { if (w.count("fors")) jobForsSign(c, jobs, id); if (w.count("merkle")) jobMerkle(c, jobs, id); if (w.count("root")) jobRoot(c, jobs, id); if (w.count("wotspk")) jobWotsPk(c, jobs, id); if (w.count("forspk")) jobForsPk(c, jobs, id); if (w.count("verify")) jobVerify(c, jobs, id); if (w.count("sign")) jobSign(c, jobs, id); if (w.count("keygen")) jobKeygen(c, jobs, id); }
static void need(Report &R, std::initializer_list<std::pair<const char *, u64>> l) { if (R.broken.empty() && R.v.empty() && R.notes.empty()) for (auto &p : l) if (R.cnt[p.first] < p.second) R.fail("rule instances below the confirmed count: " + std::string(p.first)); }
static void C22(Ctx &c, Report &R) { if (!anchors(c, R)) return; std::vector<Job> jobs; jobForsSign(c, jobs, "C22"); jobMerkle(c, jobs, "C22"); jobRoot(c, jobs, "C22"); jobWotsPk(c, jobs, "C22"); jobForsPk(c, jobs, "C22"); jobVerify(c, jobs, "C22"); jobSign(c, jobs, "C22"); jobKeygen(c, jobs, "C22"); runJobs(jobs, R); R.sample("leaf 5 of layer l, tree t, chain 9 step 3: shake256(pub_seed || 000000l 00.. t[8] 00000000 type WOTS kp 5 chain 9 hash 3 || value)"); need(R, {{"merkle_comparisons", 17}, {"fors_sign_comparisons", 1}, {"root_comparisons", 500}, {"wots_comparisons", 20}, {"fors_comparisons", 60}, {"verify_comparisons", 6}, {"sign_comparisons", 4}, {"keygen_comparisons", 1}}); }
static Reg r22("C22", C22);
static void C26(Ctx &c, Report &R) { if (!anchors(c, R)) return; std::vector<Job> jobs; jobRoot(c, jobs, "C26"); jobWotsPk(c, jobs, "C26"); jobForsPk(c, jobs, "C26"); jobVerify(c, jobs, "C26"); runJobs(jobs, R); need(R, {{"root_comparisons", 500}, {"wots_comparisons", 20}, {"fors_comparisons", 60}, {"verify_comparisons", 6}, {"accepting_exits", 6}}); }
static Reg r26("C26", C26);
static void C32(Ctx &c, Report &R) { if (!anchors(c, R)) return; std::vector<Job> jobs; jobForsSign(c, jobs, "C32"); jobMerkle(c, jobs, "C32"); jobSign(c, jobs, "C32"); jobKeygen(c, jobs, "C32"); jobWotsPk(c, jobs, "C32"); runJobs(jobs, R); need(R, {{"merkle_comparisons", 17}, {"fors_sign_comparisons", 1}, {"sign_comparisons", 4}, {"signing_exits", 4}, {"keygen_comparisons", 1}}); }
static Reg r32("C32", C32);
} // namespace pq
