// Value sets of single input bytes: a term whose only unknown is one 8-bit atom is a table of 256 values; conditions on such
// terms restrict the set of values the atom can still take (State::vs).  Exact for that atom, whatever formula the code uses.
#include "engine.h"
using namespace llvm;
namespace pq {
struct Tab { T atom = nullptr; bool ok = false; std::vector<u64> v; };
static i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 s = 1ull << (w - 1); return (i64)((v ^ s) - s); }
static std::unordered_map<T, Tab> tabs;
static const Tab &tab(T t, int depth) {
  auto it = tabs.find(t); if (it != tabs.end()) return it->second;
  Tab r; u64 m = maskw(t->w);
  auto fin = [&]() -> const Tab & { if (!r.ok) r.v.clear(); return tabs[t] = r; };
  if (t->w > 64 || t->w == 0 || depth > 60) { if (depth > 60) { static Tab bad; return bad; } return fin(); }
  if (t->k == TK::Const) { r.ok = true; r.v.assign(256, t->c); return fin(); }
  if (t->w == 8 && (t->k == TK::Leaf || (t->k == TK::Op && t->op == O_CUSTOM))) { r.ok = true; r.atom = t; r.v.resize(256); for (u64 i = 0; i < 256; i++) r.v[i] = i; return fin(); }
  if (t->k != TK::Lin && t->k != TK::Op && t->k != TK::Byte && t->k != TK::Concat) return fin();
  if (t->k == TK::Op && t->op == O_CUSTOM) return fin();
  if (t->a.size() > 8 || t->a.empty()) return fin();
  std::vector<const Tab *> k; for (T x : t->a) { const Tab &y = tab(x, depth + 1); if (!y.ok) return fin(); if (y.atom) { if (r.atom && r.atom != y.atom) { r.atom = nullptr; return fin(); } r.atom = y.atom; } k.push_back(&y); }
  r.ok = true; r.v.resize(256); unsigned w0 = t->a[0]->w;
  for (u64 i = 0; i < 256 && r.ok; i++) { auto A = [&](size_t j) { return k[j]->v[i]; }; u64 x = 0;
    switch (t->k) {
    case TK::Lin: x = t->c; for (size_t j = 0; j < k.size(); j++) x += t->co[j] * A(j); break;
    case TK::Byte: x = t->c < 8 ? A(0) >> (8 * t->c) : 0; x &= 255; break;
    case TK::Concat: for (size_t j = 0; j < k.size(); j++) x |= (A(j) & 255) << (8 * j); break;
    default: switch (t->op) {
      case Instruction::And: x = A(0) & A(1); break; case Instruction::Or: x = A(0) | A(1); break; case Instruction::Xor: x = A(0) ^ A(1); break;
      case Instruction::Add: x = A(0) + A(1); break; case Instruction::Mul: x = A(0) * A(1); break;
      case Instruction::Shl: x = A(1) < t->w ? A(0) << A(1) : 0; break; case Instruction::LShr: x = A(1) < t->w ? A(0) >> A(1) : 0; break; case Instruction::AShr: x = (u64)(sx(A(0), t->w) >> std::min<u64>(A(1), t->w - 1)); break;
      case Instruction::UDiv: if (!A(1)) r.ok = false; else x = A(0) / A(1); break; case Instruction::URem: if (!A(1)) r.ok = false; else x = A(0) % A(1); break;
      case Instruction::SDiv: if (!A(1) || sx(A(1), t->w) == -1) r.ok = false; else x = (u64)(sx(A(0), t->w) / sx(A(1), t->w)); break; case Instruction::SRem: if (!A(1) || sx(A(1), t->w) == -1) r.ok = false; else x = (u64)(sx(A(0), t->w) % sx(A(1), t->w)); break;
      case Instruction::ZExt: case Instruction::Trunc: x = A(0); break; case Instruction::SExt: x = (u64)sx(A(0), w0); break;
      case O_EQ: x = A(0) == A(1); break; case O_NE: x = A(0) != A(1); break; case O_ULT: x = A(0) < A(1); break; case O_ULE: x = A(0) <= A(1); break; case O_SLT: x = sx(A(0), w0) < sx(A(1), w0); break; case O_SLE: x = sx(A(0), w0) <= sx(A(1), w0); break;
      case O_SELECT: x = A(0) ? A(1) : A(2); break; default: r.ok = false; } }
    r.v[i] = x & m; }
  return fin();
}
const std::vector<u64> *tableOf(T t, T &atom) { const Tab &r = tab(t, 0); if (!r.ok || !r.atom) return nullptr; atom = r.atom; return &r.v; }
} // namespace pq
