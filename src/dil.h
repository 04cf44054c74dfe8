// Shared by dilithium.cpp and dilpoly.cpp: the polynomial-level reference vocabulary.
#pragma once
#include "checks.h"
#include <array>
namespace pq {
namespace dil {
static const std::string P = "PQCLEAN_DILITHIUM2_CLEAN_";
static const u64 PB = 1024;                                  // bytes of a polynomial
static const i64 Q = 8380417, G1B = 130994, G2B = 95154, G2 = 95232;
using Poly = TV;
inline T C64(u64 v) { return mkConst(64, v); }
inline Poly app(const std::string &f, u64 n, TV args) { TV v(n); for (u64 i = 0; i < n; i++) v[i] = mkCustom(f, i, 8, args); return v; }
inline Poly un(const std::string &f, const Poly &a) { return app(f, PB, {mkSeq(a)}); }
inline Poly bin(const std::string &f, const Poly &a, const Poly &b, bool comm = false) { T x = mkSeq(a), y = mkSeq(b); if (comm && x->id > y->id) std::swap(x, y); return app(f, PB, {x, y}); }
inline Outcomes one(State s, T r = nullptr) { Outcomes o; o.push_back({std::move(s), r, nullptr}); return o; }
inline Poly rd(CallCtx &c, State &s, unsigned i, u64 n = PB) { c.E.access(s, c.args[i], C64(n), false, c.cb, "read"); return c.E.readSeq(s, c.args[i], n); }
inline void wr(CallCtx &c, State &s, unsigned i, const TV &v) { c.E.access(s, c.args[i], C64(v.size()), true, c.cb, "write"); c.E.writeSeq(s, c.args[i], v); }
inline TV slice(const TV &v, u64 a, u64 n) { return TV(v.begin() + a, v.begin() + a + n); }
inline TV xof(const std::string &k, u64 n, const TV &in) { TV r(n); T d = mkSeq(in); for (u64 i = 0; i < n; i++) r[i] = mkCustom("XOF:" + k, i, 8, {d}); return r; }
inline TV cat(TV a, const TV &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline std::vector<std::vector<Poly>> matrix(const TV &rho) { std::vector<std::vector<Poly>> A(4, std::vector<Poly>(4)); for (u64 i = 0; i < 4; i++) for (u64 j = 0; j < 4; j++) A[i][j] = app("uniform", PB, {mkSeq(rho), mkConst(16, (i << 8) + j)}); return A; }
inline Poly rowMul(const std::vector<Poly> &A, const std::vector<Poly> &v) { Poly r = bin("pointwise_montgomery", A[0], v[0], true); for (int j = 1; j < 4; j++) r = bin("add", r, bin("pointwise_montgomery", A[j], v[j], true), true); return r; }
inline std::string diffAt(const TV &a, const TV &b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return "byte " + std::to_string(i) + " is " + show(a[i], 2) + ", expected " + show(b[i], 2); return "lengths differ"; }
} // namespace dil
void roundingJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, bool use, bool make);
void samplerJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id, std::vector<std::string> which);
void dilExact(Ctx &c, std::vector<Job> &jobs, const std::string &id, const std::set<std::string> &which);
std::vector<T> bitsOf(T t);
} // namespace pq
