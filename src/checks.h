// Shared reporting and driver helpers for the property checks.
#pragma once
#include "engine.h"
#include <sstream>
namespace pq {
struct Violation { std::string key, where, what; std::vector<std::string> path; };
struct Report {
  std::vector<Violation> v; std::map<std::string, u64> cnt; std::vector<std::string> samples; std::string broken; std::set<std::string> notes;
  std::set<std::string> funcs;
  void bad(const std::string &key, const std::string &where, const std::string &what, std::vector<std::string> path = {}) {
    for (auto &x : v) if (x.key == key) { cnt["violating_instances"]++; return; } v.push_back({key, where, what, path}); cnt["violating_instances"]++; }
  void ok(const std::string &c, u64 n = 1) { cnt[c] += n; }
  void oblig(bool good, const std::string &key, const std::string &where, const std::string &what, std::vector<std::string> path = {}) {
    cnt["obligations"]++; if (good) cnt["discharged"]++; else bad(key, where, what, path); }
  void sample(const std::string &s) { if (samples.size() < 12) samples.push_back(s); }
  void fail(const std::string &s) { if (broken.empty()) broken = s; }
  void merge(const Report &o) { for (auto &x : o.v) bad(x.key, x.where, x.what, x.path); cnt["violating_instances"] -= o.v.size() ? o.v.size() : 0; for (auto &kv : o.cnt) cnt[kv.first] += kv.second; for (auto &s : o.samples) sample(s); if (!o.broken.empty()) fail(o.broken); notes.insert(o.notes.begin(), o.notes.end()); funcs.insert(o.funcs.begin(), o.funcs.end()); }
  std::string ser() const; static Report deser(const std::string &);
};
using Job = std::function<void(Report &)>;
void runJobs(const std::vector<Job> &jobs, Report &out, unsigned par = 8);   // forks one process per job, bounded
void noteEngine(Engine &E, Report &r);
struct Ctx { llvm::Module &M; bool thorough; std::string srcDir; };
using CheckFn = void (*)(Ctx &, Report &);
std::map<std::string, CheckFn> &registry();
struct Reg { Reg(const char *n, CheckFn f) { registry()[n] = f; } };

// ---- models of the component primitives (see models.cpp)
struct ModelOpts { bool roundtrip = false; bool okOnly = false; bool randFails = true; };
struct Lifecycle { std::vector<Finding> bad; std::set<std::string> seen; u64 events = 0; };
void installRandom(Engine &E, bool canFail);
void installPrimitives(Engine &E, const ModelOpts &o);
void installSponge(Engine &E, Lifecycle *lc, bool phaseOnly = false);   // phaseOnly: contexts carry their phase only, outputs are unknown bytes
std::set<i64> retSet(const llvm::Function *F, bool &known);   // constants a function may return
T appByte(const std::string &fn, u64 i, const TV &args);
TV appSeq(const std::string &fn, u64 n, const TV &args);
int ghost(Engine &E, State &s, const std::string &name, u64 init);   // 8-byte ghost cell that partitions states
u64 ghostGet(Engine &E, State &s, const std::string &name);
void ghostSet(Engine &E, State &s, const std::string &name, u64 v);
int rid(State &s, const std::string &name);
T verifiedFact(const std::string &alg, const TV &sig, const TV &msg, const TV &pk);
TV leafSeq(const std::string &name, u64 from, u64 n);
bool mayBeZero(Engine &E, T ret, const State &s);
bool mustBeZero(Engine &E, T ret, const State &s);
bool untouched(Engine &E, State &s, int rid, u64 upto, bool allowZero = false);
void installDilithiumPoly(Engine &E);   // polynomial operations as uninterpreted functions (dilithium.cpp)
// one abstract run of an entry point
struct Run {
  Engine E; State s0; TV args; const llvm::Function *F; Outcomes outs; std::string name; std::map<std::string, int> reg; Lifecycle lc;
  Run(llvm::Module &M, const std::string &fn) : E(M), name(fn) { F = E.fn(fn); }
  T buf(const std::string &n, T size, bool wr) { int r = E.newRegion(s0, n, size, Def::Init, wr); reg[n] = r; return E.ptrTo(r); }
  T buf(const std::string &n, u64 size, bool wr) { return buf(n, mkConst(64, size), wr); }
  bool go(Report &R);
  std::string where(const Outcome &o) { return o.at ? E.loc(o.at) : name; }
};
void nonceJobs(Ctx &c, std::vector<Job> &jobs, const std::string &id);   // hybrid.cpp
void memObligations(Engine &E, Report &R, const std::string &id, const std::string &name);
std::set<const llvm::Function *> reaching(llvm::Module &M, const std::function<bool(const llvm::Function *)> &target);   // functions from which a target is reachable
std::set<const llvm::Function *> reachableFrom(llvm::Module &M, const llvm::Function *F, std::map<const llvm::Function *, const llvm::CallBase *> *via = nullptr);
std::set<u64> sourceLengths(llvm::Module &M, const std::vector<std::string> &roots, u64 top, u64 low = 0);   // lengths at and next to every constant the code under the roots computes with
bool sameSeq(Engine &E, const TV &a, const TV &b, const State &s, u64 &firstDiff);
} // namespace pq
