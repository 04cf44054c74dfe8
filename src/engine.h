// Abstract interpreter over LLVM IR for DogeProtocol/hybrid-pqc.
//
// Domain:   Herbrand (value-numbering) terms for integers/pointers/bytes, refined by unsigned
//           intervals and must-facts; memory is a set of byte-addressed regions.
// Control:  forward abstract interpretation in loop-aware order; states meeting at a program point
//           are JOINED unless they differ in the constant value of a live integer (trace
//           partitioning); loops with determined bounds are unrolled, others are widened to a
//           fixpoint.  No solver is used and nothing is executed.
// Calls:    callees are analysed in context (inlined); functions with a registered model are opaque.
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include <bitset>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace pq {
using u64 = uint64_t; using i64 = int64_t; using u32 = uint32_t;

enum class TK : uint8_t { Const, Leaf, Ptr, Fn, Lin, Op, Byte, Concat, Seq, Join };
// custom opcodes for TK::Op (>= 1000); LLVM opcodes otherwise
enum Opc : u32 { O_EQ = 1001, O_NE, O_ULT, O_ULE, O_SLT, O_SLE, O_SELECT, O_CUSTOM };

struct Term {
  TK k; uint16_t w; u32 op; u64 c; u32 id; u32 dep = 0;
  std::vector<const Term *> a; std::vector<u64> co;
};
using T = const Term *;
using TV = std::vector<T>;

extern bool gArith;                 // keep 64-bit shifts, masks and truncations whole (arithmetic proofs)
u32 intern(const std::string &s);
const std::string &internName(u32);

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

T mkConst(unsigned w, u64 v);
T mkLeaf(const std::string &name, u64 aux, unsigned w);
T mkFresh(const std::string &name, unsigned w);
T mkPtr(int region, T off);
T mkFn(const llvm::Function *f);
T mkBin(unsigned opc, T a, T b);
T mkAdd(T a, T b); T mkSub(T a, T b); T mkMulC(T a, u64 c);
T mkCmp(u32 op, T a, T b);  // O_EQ.. on equal widths; result w1
T mkNot1(T c);
T mkZext(T a, unsigned w); T mkSext(T a, unsigned w); T mkTrunc(T a, unsigned w);
T mkByte(T a, unsigned i);           // little-endian byte i of a
T mkConcat(const TV &bytes);         // little endian
T mkSelect(T c, T a, T b);
T mkCustom(const std::string &name, u64 aux, unsigned w, const TV &args);
T mkSeq(const TV &bytes);
T mkJoin(unsigned w, T a, T b);
bool isCustom(T t, const std::string &name);
bool isC(T t, u64 v);
std::string show(T t, int depth = 4);
bool containsLeaf(T t, const std::function<bool(T)> &pred, std::unordered_set<T> &seen);

const std::vector<u64> *tableOf(T t, T &atom);   // the 256 values of a term over one unknown byte (null: more than one unknown)
struct Itv { u64 lo, hi; bool operator==(const Itv &o) const { return lo == o.lo && hi == o.hi; } };

struct Cell { T t = nullptr; uint8_t k = 0; bool operator==(const Cell &o) const { return t == o.t && k == o.k; } };
constexpr unsigned CH = 256;
struct Chunk { Cell c[CH]; };

enum class Def : uint8_t { Init, Zero, Uninit, Havoc };
struct Region {
  std::string name; T size; bool writable = true; Def def = Def::Uninit; u32 hav = 0;
  bool heap = false, freed = false, alloca_ = false, global = false, sink = false;   // sink: contents not tracked (loads are unknown)
  const llvm::Value *site = nullptr;
  std::map<u32, std::shared_ptr<Chunk>> ch;
  u64 constSize() const { return size->k == TK::Const ? size->c : ~0ull; }
};

struct Trail { std::shared_ptr<const Trail> prev; const llvm::Instruction *at; int dir; int len; };

struct State {
  std::map<int, std::shared_ptr<Region>> mem;
  std::shared_ptr<const std::set<T>> facts = std::make_shared<std::set<T>>();
  std::shared_ptr<const std::map<T, Itv>> ref = std::make_shared<std::map<T, Itv>>();
  std::shared_ptr<const std::map<T, std::bitset<256>>> vs = std::make_shared<std::map<T, std::bitset<256>>>();   // values an input byte can still take
  std::shared_ptr<const Trail> trail;
  bool dead = false;

  void addFact(T f) { if (facts->count(f)) return; if (facts.use_count() == 1) { const_cast<std::set<T> &>(*facts).insert(f); return; } auto n = std::make_shared<std::set<T>>(*facts); n->insert(f); facts = n; }
  bool has(T f) const { return facts->count(f) != 0; }
};

struct Outcome { State st; T ret; const llvm::Instruction *at; };
using Outcomes = std::vector<Outcome>;

struct Access {  // memory-safety obligation
  u64 total = 0, ok = 0; std::string firstBad;
};

struct Finding { std::string where, what; std::vector<std::string> path; };

struct Engine;
struct CallCtx { Engine &E; const llvm::CallBase *cb; State &st; TV args; const llvm::Function *callee; std::vector<const llvm::CallBase*> *stack; };
using Model = std::function<Outcomes(CallCtx &)>;

extern bool pathSensitiveDefault;
struct Engine {
  static std::function<void(Engine &)> tap;                    // called for every new engine (observation only)
  llvm::Module &M; const llvm::DataLayout &DL;
  std::map<std::string, Model> models;
  std::function<bool(const llvm::Function *)> isOpaque;       // generic opaque model when true
  std::function<void(CallCtx &, Outcomes &)> afterOpaque;
  // observation hooks
  std::function<void(State &, const llvm::Instruction *, T /*region ptr*/, T /*val*/, unsigned /*bytes*/)> onStore;
  std::function<void(State &, const llvm::Instruction *, T cond)> onBranch;
  std::function<void(State &, const llvm::Instruction *, T, const char *)> onLeak;   // values that decide a branch, an address, a length or a library comparison
  std::function<bool(T)> secret;                               // two-point mode: results computed from a secret operand become the leaf SECRET
  std::function<bool(T)> dull;                                 // branches on such conditions are split without remembering the condition
  static T secretOf(unsigned w) { return mkLeaf("SECRET", 0, w); }
  std::function<void(State &, const llvm::CallBase *, const llvm::Function *, const TV &)> onCall;
  std::function<void(State &, int rid, Region &)> onRegionDeath;
  // configuration
  u64 weakLimit = 8192; unsigned softLimit = 400; u64 hardLimit = 400000; unsigned partBudget = 160; size_t widenParts = 0; bool pathSensitive = pathSensitiveDefault; // pathSensitive: never merge different paths
  u64 stepLimit = 4000000000ull; bool checkBounds = true; bool checkUninit = false; bool foldConst = false; bool stepWiden = false; unsigned termCap = 0; u64 sinkAbove = ~0ull;   // termCap: deeper terms are replaced by an unknown of the same interval;  foldConst: replace operands with a known value by that value
  // statistics / results
  u64 steps = 0, branches = 0, forks = 0, joins = 0, widenings = 0, accesses = 0, calls = 0, maxStates = 0;
  std::set<const llvm::Function *> analysed;
  std::map<const llvm::Instruction *, Access> acc;
  std::vector<Finding> memFindings; std::set<std::string> memSeen;
  std::set<std::string> unknownCalls;
  std::vector<const llvm::CallBase *> stack;
  int nextRid = 1; u32 nextHav = 1;
  std::map<const llvm::GlobalVariable *, int> gvRegion;
  std::string broken;                                          // analysis-broken reason

  explicit Engine(llvm::Module &m);
  const llvm::Function *fn(const std::string &name);
  int newRegion(State &s, const std::string &name, T size, Def d, bool writable);
  T ptrTo(int rid, u64 off = 0) { return mkPtr(rid, mkConst(64, off)); }

  Outcomes run(const llvm::Function *F, const TV &args, const State &st);

  // state queries
  Itv eval(T t, const State &s, int depth = 0) const;
  bool constOf(T t, const State &s, u64 &v) const;
  int triCond(T c, const State &s) const;                      // 1 true, 0 false, -1 unknown
  void assume(T c, bool truth, State &s) const;                // may set s.dead
  bool equal(T a, T b, const State &s) const;
  bool provLE(T a, T b, const State &s) const; bool provLin(T a, T b, const State &s) const; u64 linHi(T b, const State &s) const;                 // a <= b (unsigned)
  // memory
  Region &wreg(State &s, int rid);
  const Region *rreg(const State &s, int rid) const;
  T loadBytes(State &s, int rid, u64 off, unsigned n);
  void storeBytes(State &s, int rid, u64 off, T v, unsigned n);
  T load(State &s, T ptr, unsigned n, const llvm::Instruction *at);
  void store(State &s, T ptr, T v, unsigned n, const llvm::Instruction *at);
  bool access(State &s, T ptr, T len, bool write, const llvm::Instruction *at, const char *what);
  TV readSeq(State &s, T ptr, u64 n);
  T content(State &s, T ptr, T len);                           // Seq or symbolic range term
  void writeSeq(State &s, T ptr, const TV &bytes);
  void havoc(State &s, T ptr, T len, const std::string &leaf);
  void havocRegion(State &s, int rid);
  void memFail(State &s, const llvm::Instruction *at, const std::string &what);

  std::string loc(const llvm::Instruction *I) const;
  std::vector<std::string> path(const State &s, unsigned maxn = 14) const;

  // joins
  struct LoopSlots { std::map<std::pair<const void *, u64>, T> v; std::map<T, int> wid; std::map<T, std::vector<T>> below; std::vector<T> gone; /* order invariants lv <= bound, kept while every incoming value satisfies them */ };
  using Env = std::map<const llvm::Value *, T>;
  struct PS { State st; Env env; std::vector<u64> iters; std::vector<uint8_t> sawDet; };

private:
  struct FnInfo;
  std::map<const llvm::Function *, std::shared_ptr<FnInfo>> infos;
  FnInfo &info(const llvm::Function *F);
  T val(const llvm::Value *V, PS &p);
  T constVal(const llvm::Constant *C, State &s);
  void initGlobal(State &s, int rid, const llvm::Constant *C, u64 off);
  bool joinInto(PS &a, const PS &b, LoopSlots *ls, const void *tag);
  T joinVal(T x, T y, const State &sx, const State &sy, State &out, LoopSlots *ls, std::pair<const void *, u64> slot, bool &chg);
  std::vector<u64> partKey(const PS &p);
  Outcomes doCall(const llvm::CallBase *cb, PS &p);
  Outcomes genericOpaque(CallCtx &c);
  bool intrinsic(const llvm::CallBase *cb, const llvm::Function *f, PS &p, TV &args, Outcomes &out);
  void mergeOutcomes(Outcomes &o, State &base);
  friend struct Runner;
};
} // namespace pq
