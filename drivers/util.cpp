#include "vf.h"
#include <cassert>
#include <cstddef>
#include <tuple>
#include <utility>
#include <bcl/utility.h>
using namespace bcl;
using bcl::operator "" _b;
struct T0; struct T1; struct T2; struct No;
// -- types and constants --------------------------------------------------------------
static_assert(is_contained<T0, T0, T1, T2>::value && is_contained<T2, T0, T1, T2>::value && !is_contained<No, T0, T1, T2>::value && !is_contained<No>::value, "membership in a list of types");
static_assert(index_of<T0, T0, T1, T2>() == 0 && index_of<T1, T0, T1, T2>() == 1 && index_of<T2, T0, T1, T2>() == 2, "index in a list of types");
static_assert(size_of<>() == 0 && size_of<T0>() == 1 && size_of<T0, T1, T1>() == 3, "size of a list of types");
static long Arr[7];
static_assert(array_sizeof(Arr) == 7, "size of an array");
template<class T> constexpr bool masks(std::size_t N) { return N == 0 ? unitMask<T>(0) == 0 : masks<T>(N - 1) && unitMask<T>(N) == (T)(((unsigned long long)-1) >> (64 - N)); }
static_assert(masks<unsigned long long>(64) && masks<unsigned>(32) && masks<unsigned short>(16) && masks<unsigned char>(8) && masks<long long>(63) && masks<int>(31) && masks<short>(15) && masks<signed char>(7), "a unit mask has the given number of ones (all types and sizes)");
static_assert(0_b == 0 && 1_b == 1 && 10_b == 2 && 0110_b == 6 && 11111111_b == 255, "binary literals");
static_assert(10000000000000000000000000000000_b == 0x80000000ull && 100000000000000000000000000000000_b == 0x100000000ull && 1000000000000000000000000000000000000000000000000000000000000000_b == 0x8000000000000000ull, "binary literals");
static_assert(1111111111111111111111111111111111111111111111111111111111111111_b == ~0ull && 1010101010101010101010101010101010101010101010101010101010101010_b == 0xaaaaaaaaaaaaaaaaull, "binary literals");
// -- digits: all small values and the limits of each number of digits ----------------
template<class T> constexpr bool digits(T V, T Base) {
  std::size_t N = 1, Z = 0;
  for (T X = V / Base; X != 0; X /= Base) ++N;
  if (V != 0)
    for (T X = V; X % Base == 0; X /= Base) ++Z;
  return numberOfDigits(V, Base) == N && (V == 0 || numberOfLessZeros(V, Base) == Z);
}
template<class T> constexpr bool allDigits(T Base, T Max) {
  for (T I = 0; I < 300; ++I)
    if (!digits<T>(I, Base)) return false;
  for (T I = 1; ; I *= Base) {
    if (!digits<T>(I, Base) || !digits<T>(I - 1, Base) || !digits<T>(I + 1, Base) || !digits<T>(I * (Base - 1), Base)) return false;
    if (I > Max / Base / Base) break;
  }
  return digits<T>(Max, Base) && digits<T>(Max - 1, Base) && digits<T>(Max - Max % Base, Base);
}
static_assert(allDigits<unsigned long>(2, ~0ul) && allDigits<unsigned long>(10, ~0ul) && allDigits<unsigned long>(16, ~0ul) && allDigits<unsigned>(3, ~0u) && allDigits<unsigned>(8, ~0u), "numbers of digits and of trailing zeros");
static_assert(allDigits<int>(2, 0x7fffffff) && allDigits<int>(10, 0x7fffffff) && allDigits<long>(7, 0x7fffffffffffffffl), "numbers of digits and of trailing zeros");
static_assert(numberOfDigits(-128, 2) == 8 && numberOfLessZeros(-128, 2) == 7 && numberOfDigits(-999l, 10l) == 3, "numbers of digits and of trailing zeros of negative values");
struct Un : Unassignable {}; struct Uc : Uncopyable {};
static_assert(std::is_copy_constructible<Un>::value && !std::is_copy_assignable<Un>::value, "Unassignable prevents assignment");
static_assert(!std::is_copy_constructible<Uc>::value && !std::is_copy_assignable<Uc>::value && std::is_move_constructible<Uc>::value && std::is_move_assignable<Uc>::value, "Uncopyable prevents copying");
BASE_ATTR_DEF(AttrA, long)
BASE_ATTR_DEF(AttrB, char)
static_assert(std::is_same<AttrA::Value, long>::value && std::is_same<AttrB::Value, char>::value, "an attribute knows its type");
extern "C" void drv_attr() {
  vf_check(AttrA::id() == AttrA::id() && AttrB::id() == AttrB::id() && AttrA::id() != AttrB::id() && AttrA::id(), "each attribute has a distinct identifier");
}
// -- shrinkPair ------------------------------------------------------------------------
template<class F> static void bytes(F &X, const char *N) { auto *P = (unsigned char *)&X; for (unsigned I = 0; I < sizeof(F); ++I) P[I] = (unsigned char)vf_any(N); }
template<class F> static bool fits(const F &X, std::size_t Half) { auto *P = (const unsigned char *)&X; bool R = true; for (std::size_t I = Half; I < sizeof(F); ++I) if (P[I] != 0) R = false; return R; }
template<class F> static void same(const F &X, const F &Y) { auto *P = (const unsigned char *)&X, *Q = (const unsigned char *)&Y; for (unsigned I = 0; I < sizeof(F); ++I) vf_check(P[I] == Q[I], "the restored values are the original ones"); }
template<class F, class S, class T> static void shrink() {
  F X; S Y; T Out;
  bytes(X, "x"); bytes(Y, "y"); bytes(Out, "out");
  T Old(Out);
  bool Fits = fits(X, sizeof(T) / 2) && fits(Y, sizeof(T) / 2);
  bool R = vf_nondet(2) ? shrinkPair(X, Y, Out) : shrinkPair(std::pair<F, S>(X, Y), Out);
  vf_check(R == Fits, "a pair is shrinked if and only if its values fit");
  if (!R) { same(Old, Out); return; }
  F X1; S Y1;
  bytes(X1, "x1"); bytes(Y1, "y1");
  restoreShrinkedPair(Out, X1, Y1);
  same(X, X1);
  same(Y, Y1);
}
extern "C" void drv_shrink() {
  switch (vf_nondet(5)) {
  case 0: vf_event("32, 32 to 32"); shrink<unsigned, unsigned, unsigned>(); break;
  case 1: vf_event("32, 32 to 64"); shrink<unsigned, unsigned, unsigned long>(); break;
  case 2: vf_event("16, 32 to 32"); shrink<unsigned short, unsigned, unsigned>(); break;
  case 3: vf_event("32, 16 to 16"); shrink<int, short, short>(); break;
  case 4: vf_event("8, 16 to 16"); shrink<char, short, unsigned short>(); break;
  }
}
// A value that is smaller than its half of the target.
extern "C" void drv_small() {
  unsigned char X; unsigned Y; unsigned long Out;
  bytes(X, "x"); bytes(Y, "y");
  vf_check(shrinkPair(X, Y, Out), "a pair is shrinked if and only if its values fit");
  unsigned X1, Y1;
  restoreShrinkedPair(Out, X1, Y1);
  auto *P = (unsigned char *)&X1;
  vf_check(P[0] == X && P[1] == 0 && P[2] == 0 && P[3] == 0, "the restored values are the original ones");
  same(Y, Y1);
}
// -- memory and packs ------------------------------------------------------------------
struct Obj { long A; char B; short C[3]; void operator=(const Obj &) = delete; };
extern "C" void drv_swap() {
  long A = vf_any("a"), B = vf_any("b"), C = vf_any("c"), D = vf_any("d");
  Obj X{A, 1, {1, 2, 3}}, Y{B, 2, {4, 5, (short)C}};
  if (vf_nondet(2)) { vf_event("swap"); swapMemory(X, Y); vf_check(X.A == B && X.B == 2 && X.C[0] == 4 && X.C[1] == 5 && X.C[2] == (short)C && Y.A == A && Y.B == 1 && Y.C[0] == 1 && Y.C[1] == 2 && Y.C[2] == 3, "the contents are exchanged"); }
  else { vf_event("self"); swapMemory(X, X); vf_check(X.A == A && X.B == 1 && X.C[0] == 1 && X.C[2] == 3, "swap with itself changes nothing"); }
  long L = C, M = D;
  swapMemory(L, M);
  vf_check(L == D && M == C, "the contents are exchanged");
}
struct Acc {
  long S[8]; int N = 0;
  void operator()(long V) { vf_check(N < 8, "each value is visited once"); S[N++] = V; }
};
struct Sink { long V; int N; void insert(long &E) { V = E; ++N; } void push_back(long &E) { V = E; N += 10; } void insert(long *E) { V = *E; N += 100; } void operator++() { N += 1000; } };
extern "C" void drv_pack() {
  long A = vf_any("a"), B = vf_any("b"), C = vf_any("c");
  switch (vf_nondet(4)) {
  case 0: { vf_event("visit"); Acc F; staticForeach(F, A, B, C); vf_check(F.N == 3 && F.S[0] == A && F.S[1] == B && F.S[2] == C, "each value is visited once and in order"); staticForeach(F); vf_check(F.N == 3, "an empty pack has no values"); break; }
  case 1: { vf_event("temporary visitor"); int N = 0; long S = 0; staticForeach([&](long V) { ++N; S = V; }, A, B); vf_check(N == 2 && S == B, "each value is visited once and in order"); break; }
  case 2: { vf_event("inserters"); Sink S{0, 0}; SimpleInserter<long, Sink>::insert(A, S); vf_check(S.N == 1 && S.V == A, "an element is inserted"); PushBackInserter<long, Sink>::insert(B, S); vf_check(S.N == 11 && S.V == B, "an element is appended"); SimpleInserter<long *, Sink>::insert(&C, S); vf_check(S.N == 111 && S.V == C, "a pointer is inserted"); CountInserter<long, Sink>::insert(A, S); vf_check(S.N == 1111 && S.V == C, "an element is counted"); break; }
  case 3: { vf_event("make_unique"); struct P { long A, B; P(long A, long B) : A(A), B(B) {} };
    auto U = bcl::make_unique<P>(A, B); vf_check(U->A == A && U->B == B, "an object is constructed from the arguments");
    auto V = bcl::make_unique_piecewise<P>(std::make_tuple(B, C)); vf_check(V->A == B && V->B == C, "an object is constructed from the tuple");
    auto W = bcl::make_unique<long[]>(3); vf_check(W[0] == 0 && W[1] == 0 && W[2] == 0, "an array is initialised"); break; }
  }
}
// -- bits ------------------------------------------------------------------------------
struct BitStream {
  int N = 0;
  int Bits[64];
  void put(int B) { vf_check(N < 64, "each bit is printed once"); Bits[N++] = B; }
  BitStream &operator<<(bool X) { put(X); return *this; }
  BitStream &operator<<(char X) { put(X - '0'); return *this; }
  BitStream &operator<<(int X) { put(X); return *this; }
  BitStream &operator<<(unsigned X) { put(X); return *this; }
  BitStream &operator<<(long X) { put(X); return *this; }
  BitStream &operator<<(unsigned long X) { put(X); return *this; }
};
template<class T> static void bits(T V) {
  BitStream S;
  bitPrint(V, S);
  vf_check(S.N == 8 * (int)sizeof(T), "each bit is printed once");
  for (int I = 0; I < 8 * (int)sizeof(T); ++I)
    vf_check(S.Bits[I] == (int)((unsigned long)V >> (8 * sizeof(T) - 1 - I) & 1), "bits are printed from the highest to the lowest");
}
extern "C" void drv_bits() {
  long V = vf_any("v");
  switch (vf_nondet(5)) {
  case 0: bits<unsigned char>((unsigned char)V); break;
  case 1: bits<signed char>((signed char)V); break;
  case 2: bits<unsigned short>((unsigned short)V); break;
  case 3: bits<int>((int)V); break;
  case 4: bits<unsigned long>((unsigned long)V); break;
  }
}
extern "C" void drv_space() {
  auto C = (unsigned char)vf_nondet(256);
  bool R = isWhitespace(C);
  vf_check(R == (C == ' ' || C == '\t' || C == '\f' || C == '\v' || C == '\r'), "white space without new lines");
}
