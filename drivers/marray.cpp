#include "vf.h"
#include <cassert>
#include <cstddef>
#include <bcl/marray.h>
#include <bcl/marray_f.h>
#include <utility>
using namespace bcl;
// The address of the element with the given pairs of index and dimension.
extern "C" void vf_elem(const void *P, long ElemSize, long N, ...) noexcept;
struct Three { int X, Y, Z; };
#define DIM(N) std::size_t N = vf_any(#N)
static std::size_t ix(const char *N) { return vf_any(N); }

// -- marray_f ----------------------------------------------------------------------
template<class A2> static void use2(A2 &A, long ES, std::size_t D0, std::size_t D1) {
  auto I = ix("i"), J = ix("j");
  const A2 &C = A;
  vf_elem(&A(I, J), ES, 2, I, D0, J, D1);
  vf_check(&A(I, J) == &C(I, J), "an element has one address");
  int U = (int)ix("u"), V = (int)ix("v");
  vf_elem(&A(U, V), ES, 2, (std::size_t)U, D0, (std::size_t)V, D1);
}
template<class A3> static void use3(A3 &A, long ES, std::size_t D0, std::size_t D1, std::size_t D2) {
  auto I = ix("i"), J = ix("j"), K = ix("k");
  const A3 &C = A;
  vf_elem(&A(I, J, K), ES, 3, I, D0, J, D1, K, D2);
  vf_elem(&C(K, J, I), ES, 3, K, D0, J, D1, I, D2);
  vf_check(&A(I, J, K) == &C(I, J, K), "an element has one address");
}
template<class A4> static void use4(A4 &A, long ES, std::size_t D0, std::size_t D1, std::size_t D2, std::size_t D3) {
  auto I = ix("i"), J = ix("j"), K = ix("k"), L = ix("l");
  vf_elem(&A(I, J, K, L), ES, 4, I, D0, J, D1, K, D2, L, D3);
}
template<class A5> static void use5(A5 &A, long ES, std::size_t D0, std::size_t D1, std::size_t D2, std::size_t D3, std::size_t D4) {
  auto I = ix("i"), J = ix("j"), K = ix("k"), L = ix("l"), M = ix("m");
  vf_elem(&A(I, J, K, L, M), ES, 5, I, D0, J, D1, K, D2, L, D3, M, D4);
}
template<class Ty> static void sizesF() {
  DIM(D0); DIM(D1); DIM(D2); DIM(D3); DIM(D4);
  switch (vf_nondet(5)) {
  case 0: { vf_event("1 dimension"); std::array<std::size_t, 1> D = {D0}; marray_f<Ty, 1> A(D); auto I = ix("i"); vf_elem(&A(I), sizeof(Ty), 1, I, D0); break; }
  case 1: { vf_event("2 dimensions"); std::array<std::size_t, 2> D = {D0, D1}; marray_f<Ty, 2> A(D); use2(A, sizeof(Ty), D0, D1); marray_f<Ty, 2> B(std::move(D)); use2(B, sizeof(Ty), D0, D1); break; }
  case 2: { vf_event("3 dimensions"); std::array<std::size_t, 3> D = {D0, D1, D2}; marray_f<Ty, 3> A(D); use3(A, sizeof(Ty), D0, D1, D2); marray_f<Ty, 3> B(std::move(D)); use3(B, sizeof(Ty), D0, D1, D2); use3(A, sizeof(Ty), D0, D1, D2); break; }
  case 3: { vf_event("4 dimensions"); std::array<std::size_t, 4> D = {D0, D1, D2, D3}; marray_f<Ty, 4> A(D); use4(A, sizeof(Ty), D0, D1, D2, D3); break; }
  case 4: { vf_event("5 dimensions"); std::array<std::size_t, 5> D = {D0, D1, D2, D3, D4}; marray_f<Ty, 5> A(D); use5(A, sizeof(Ty), D0, D1, D2, D3, D4); break; }
  }
}
extern "C" void drv_f() {
  switch (vf_nondet(3)) {
  case 0: sizesF<char>(); break;
  case 1: sizesF<long>(); break;
  case 2: sizesF<Three>(); break;
  }
}
// -- marray ------------------------------------------------------------------------
template<class A2> static void sub2(A2 &A, long ES, std::size_t D0, std::size_t D1) {
  auto I = ix("i"), J = ix("j");
  vf_elem(&A[I][J], ES, 2, I, D0, J, D1);
  auto R = A[J];
  const auto &CR = R;
  vf_elem(&R[I], ES, 2, J, D0, I, D1);
  vf_check(&R[I] == &CR[I] && &R[I] == &A[J][I], "an element has one address");
}
template<class A3> static void sub3(A3 &A, long ES, std::size_t D0, std::size_t D1, std::size_t D2) {
  auto I = ix("i"), J = ix("j"), K = ix("k");
  vf_elem(&A[I][J][K], ES, 3, I, D0, J, D1, K, D2);
  auto P = A[I];
  auto R = P[K];
  vf_elem(&R[J], ES, 3, I, D0, K, D1, J, D2);
  vf_check(&R[J] == &A[I][K][J], "an element has one address");
}
template<class Ty> static void sizes() {
  DIM(D0); DIM(D1); DIM(D2); DIM(D3); DIM(D4);
  switch (vf_nondet(4)) {
  case 0: { vf_event("2 dimensions"); std::array<std::size_t, 2> D = {D0, D1}; marray<Ty, 2> A(D); sub2(A, sizeof(Ty), D0, D1); marray<Ty, 2> B(std::move(D)); sub2(B, sizeof(Ty), D0, D1); break; }
  case 1: { vf_event("3 dimensions"); std::array<std::size_t, 3> D = {D0, D1, D2}; marray<Ty, 3> A(D); sub3(A, sizeof(Ty), D0, D1, D2); marray<Ty, 3> B(std::move(D)); sub3(B, sizeof(Ty), D0, D1, D2); sub3(A, sizeof(Ty), D0, D1, D2); break; }
  case 2: { vf_event("4 dimensions"); std::array<std::size_t, 4> D = {D0, D1, D2, D3}; marray<Ty, 4> A(D); auto I = ix("i"), J = ix("j"), K = ix("k"), L = ix("l"); vf_elem(&A[I][J][K][L], sizeof(Ty), 4, I, D0, J, D1, K, D2, L, D3); break; }
  case 3: { vf_event("5 dimensions"); std::array<std::size_t, 5> D = {D0, D1, D2, D3, D4}; marray<Ty, 5> A(D); auto I = ix("i"), J = ix("j"), K = ix("k"), L = ix("l"), M = ix("m"); vf_elem(&A[I][J][K][L][M], sizeof(Ty), 5, I, D0, J, D1, K, D2, L, D3, M, D4); break; }
  }
}
extern "C" void drv_m() {
  switch (vf_nondet(3)) {
  case 0: sizes<char>(); break;
  case 1: sizes<long>(); break;
  case 2: sizes<Three>(); break;
  }
}
// -- ownership ---------------------------------------------------------------------
template<class MA, class Use> static void own(Use use) {
  DIM(D0); DIM(D1); DIM(D2); DIM(E0); DIM(E1); DIM(E2);
  std::array<std::size_t, 3> D = {D0, D1, D2}, E = {E0, E1, E2};
  static_assert(!std::is_copy_constructible<MA>::value && !std::is_copy_assignable<MA>::value, "arrays are not copied");
  switch (vf_nondet(5)) {
  case 0: { vf_event("move"); MA A(D); MA B(std::move(A)); use(B, D0, D1, D2); break; }
  case 1: { vf_event("move assignment"); MA A(D); MA B(E); MA &R = (B = std::move(A)); vf_check(&R == &B, "assignment returns its left side"); use(B, D0, D1, D2); break; }
  case 2: { vf_event("moved from"); MA A(D); MA B(std::move(A)); MA C(E); A = std::move(C); use(A, E0, E1, E2); use(B, D0, D1, D2); break; }
  case 3: { vf_event("self"); MA A(D); MA &B = A; A = std::move(B); break; }
  case 4: { vf_event("chain"); MA A(D); { MA B(std::move(A)); A = MA(E); use(B, D0, D1, D2); use(A, E0, E1, E2); } use(A, E0, E1, E2); break; }
  }
}
extern "C" void drv_own() {
  if (vf_nondet(2))
    own<marray_f<long, 3>>([](marray_f<long, 3> &A, std::size_t X, std::size_t Y, std::size_t Z) { use3(A, sizeof(long), X, Y, Z); });
  else
    own<marray<long, 3>>([](marray<long, 3> &A, std::size_t X, std::size_t Y, std::size_t Z) { sub3(A, sizeof(long), X, Y, Z); });
}
