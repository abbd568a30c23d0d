#include "vf.h"
#include <cassert>
#include <cstddef>
#include <utility>
#include <bcl/ValuePtrWrapper.h>
#include <bcl/IteratorDataAdaptor.h>
using namespace bcl;
// A value that can only be moved; whoever was moved from holds -1.
struct Val {
  long V, W;
  Val(long V, long W) : V(V), W(W) {}
  Val(Val &&O) : V(O.V), W(O.W) { O.V = O.W = -1; }
  Val &operator=(Val &&O) { long A = O.V, B = O.W; O.V = O.W = -1; V = A; W = B; return *this; }
};
using VP = ValuePtrWrapper<Val>;
static_assert(!std::is_copy_constructible<VP>::value && !std::is_copy_assignable<VP>::value, "a wrapper is not copied");
static void is(VP &W, Val *&P, long V, long X) {
  vf_check(P == &W, "the pointer points to the value");
  vf_check(P->V == V && P->W == X && W->V == V && (*W).V == V && static_cast<Val &>(W).W == X && static_cast<const Val &>(static_cast<const VP &>(W)).V == V, "the wrapper gives access to the value");
  vf_check(&*W == P && W.operator->() == P && &static_cast<Val &>(W) == P && &static_cast<const Val &>(static_cast<const VP &>(W)) == P, "the wrapper gives access to the value");
}
extern "C" void drv_ptr() {
  long A = vf_any("a"), B = vf_any("b"), C = vf_any("c"), D = vf_any("d");
  Val *P = nullptr, *Q = nullptr;
  VP W(P, A, B);
  is(W, P, A, B);
  vf_check(Q == nullptr, "only the given pointer changes");
  switch (vf_nondet(5)) {
  case 0: { vf_event("move"); VP X(std::move(W)); is(X, P, A, B); VP Y(std::move(X)); is(Y, P, A, B); break; }
  case 1: { vf_event("move assignment"); VP X(Q, C, D); is(X, Q, C, D); VP &R = (X = std::move(W)); (void)R; vf_check(R.operator->() == X.operator->(), "assignment returns its left side"); is(X, P, A, B);
    VP Y(std::move(X)); is(Y, P, A, B); W = std::move(Y); is(W, P, A, B);
    if (vf_nondet(2)) { Val *O = nullptr; VP Z(O, D, C); X = std::move(Z); is(X, O, D, C); is(W, P, A, B); W = std::move(X); is(W, O, D, C); }
    break; }
  case 2: { vf_event("return"); auto F = [&](VP T) { is(T, P, A, B); return T; }; VP X(F(std::move(W))); is(X, P, A, B); break; }
  case 3: { vf_event("heap"); VP *X = new VP(std::move(W)); is(*X, P, A, B); VP Y(Q, C, D); Y = std::move(*X); X->~VP(); ::operator delete((void *)X); is(Y, P, A, B); break; }
  case 4: { vf_event("write"); W->V = C; (*W).W = D; is(W, P, C, D); P->V = D; is(W, P, D, D); break; }
  }
}
// -- iterator adaptor -------------------------------------------------------------
struct It {
  using iterator_category = std::forward_iterator_tag; using difference_type = std::ptrdiff_t; using value_type = long; using pointer = long *; using reference = long &;
  long *P;
  bool operator==(const It &R) const { return P == R.P; }
  bool operator!=(const It &R) const { return P != R.P; }
  It &operator++() { ++P; return *this; }
  It operator++(int) { It T = *this; ++P; return T; }
  long *operator->() const { return P; }
  long &operator*() const { return *P; }
};
struct Data { long K; bool operator==(const Data &R) const { return K == R.K; } bool operator!=(const Data &R) const { return K != R.K; } };
struct Elem { long *E; long K; Elem(long &E, Data D) : E(&E), K(D.K) {} };
using Ad = IteratorDataAdaptor<It, Data, Elem>;
static_assert(std::is_same<Ad::iterator_category, std::forward_iterator_tag>::value && std::is_same<Ad::difference_type, std::ptrdiff_t>::value && std::is_same<Ad::value_type, Elem>::value && std::is_same<Ad::reference, Elem>::value && std::is_same<Ad::pointer, Elem *>::value, "the adaptor is an iterator like its base");
extern "C" void drv_adaptor() {
  long A[4];
  Data D{vf_any("d")}, E{vf_any("e")};
  Ad I(It{A}, D), End(It{A + 4}, D);
  const Ad &CI = I;
  vf_check(&CI.getIterator() == &I.getIterator() && &CI.getData() == &I.getData() && I.getIterator().P == A && I.getData().K == D.K, "the parts of the adaptor");
  switch (vf_nondet(4)) {
  case 0: { vf_event("loop"); long N = 0; for (; I != End; ++I, ++N) vf_check((*I).E == A + N && (*I).K == D.K, "an element is made of the value and the data"); vf_check(N == 4 && I == End, "the adaptor visits each element once"); break; }
  case 1: { vf_event("increment"); Ad J = I++; vf_check((*J).E == A && (*I).E == A + 1 && (*J).K == D.K && (*I).K == D.K, "postincrement returns the old position"); Ad &R = ++I; vf_check(&R == &I && (*I).E == A + 2 && (*J).E == A, "preincrement returns the iterator"); break; }
  case 2: { vf_event("compare"); Ad J(It{A}, E), K(It{A + 1}, D); bool S = D.K == E.K; vf_check((I == J) == S && (I != J) == !S, "adaptors with different data differ"); vf_check(I != K && !(I == K) && I == I && !(I != I), "adaptors at different positions differ"); break; }
  case 3: { vf_event("write"); I.getData().K = E.K; I.getIterator().P = A + 3; vf_check((*I).E == A + 3 && (*I).K == E.K, "the parts of the adaptor can be changed"); *(*I).E = E.K; vf_check(A[3] == E.K, "elements refer to the range"); break; }
  }
}
