#include "vf.h"
#include <bcl/transparent_queue.h>
struct T;
using Q = bcl::TransparentQueue<T>;
using CQ = const Q;
extern "C" {
void spec_new(int) noexcept;
void spec_new1(int, T *) noexcept;
void spec_push(int, T *) noexcept;
void spec_pop(int, T *) noexcept;
void spec_size(int, unsigned long, bool) noexcept;
void spec_front(int, T *) noexcept;
void spec_back(int, T *) noexcept;
void spec_set(int, T *, bool front) noexcept;
int spec_nonempty(int) noexcept;
void spec_copy(int, int) noexcept;   // to, from
void spec_move(int, int) noexcept;
void spec_swap(int, int) noexcept;
void spec_eq(bool, bool, int, int) noexcept;
void spec_lt(bool, int, int) noexcept;
void spec_gone(int) noexcept;
}
static void observe(const Q &A, int I) {
  spec_size(I, A.size(), A.empty());
  if (spec_nonempty(I)) {
    spec_front(I, A.front());
    spec_back(I, A.back());
  }
}
static void one(Q &A, int I) {
  switch (vf_nondet(7)) {
  case 0: { vf_event("push"); auto *V = (T *)vf_token("v"); A.push(V); spec_push(I, V); break; }
  case 1: { vf_event("pop"); spec_pop(I, A.pop()); break; }
  case 2: { vf_event("emplace"); auto *V = (T *)vf_token("v"); A.emplace(V); spec_push(I, V); break; }
  case 3: vf_event("observe"); observe(A, I); break;
  case 4:
    if (spec_nonempty(I)) {
      vf_event("access");
      spec_front(I, A.front());
      spec_back(I, A.back());
    }
    break;
  case 5:
    if (spec_nonempty(I)) { vf_event("write front"); auto *V = (T *)vf_token("v"); A.front() = V; spec_set(I, V, true); }
    break;
  case 6:
    if (spec_nonempty(I)) { vf_event("write back"); auto *V = (T *)vf_token("v"); A.back() = V; spec_set(I, V, false); }
    break;
  }
}
extern "C" void drv_single() {
  if (vf_nondet(2)) {
    Q A;
    spec_new(0);
    while (vf_nondet(2))
      one(A, 0);
  } else {
    auto *V = (T *)vf_token("v");
    Q A(V);
    spec_new1(0, V);
    while (vf_nondet(2))
      one(A, 0);
  }
}
extern "C" void drv_pair() {
  Q A, B;
  spec_new(0);
  spec_new(1);
  while (vf_nondet(2)) {
    switch (vf_nondet(4)) {
    case 0: { vf_event("a.push"); auto *V = (T *)vf_token("v"); A.push(V); spec_push(0, V); break; }
    case 1: { vf_event("b.push"); auto *V = (T *)vf_token("v"); B.push(V); spec_push(1, V); break; }
    case 2: vf_event("a.pop"); spec_pop(0, A.pop()); break;
    case 3: vf_event("b.pop"); spec_pop(1, B.pop()); break;
    }
  }
  switch (vf_nondet(8)) {
  case 0: { vf_event("copy construct"); Q C(A); spec_copy(2, 0); observe(C, 2);
    { auto *V = (T *)vf_token("v"); C.push(V); spec_push(2, V); }
    observe(A, 0); observe(C, 2);
    while (vf_nondet(2)) { spec_pop(2, C.pop()); observe(C, 2); }
    while (vf_nondet(2)) { spec_pop(0, A.pop()); observe(A, 0); }
    break; }
  case 1: { vf_event("move construct"); Q C(static_cast<Q &&>(A)); spec_move(2, 0); observe(C, 2); observe(A, 0);
    spec_pop(0, A.pop());
    { auto *V = (T *)vf_token("v"); A.push(V); spec_push(0, V); }
    observe(A, 0); observe(C, 2);
    while (vf_nondet(2)) { spec_pop(2, C.pop()); observe(C, 2); }
    break; }
  case 2: { vf_event("copy assign"); Q &R = (B = A); vf_check(&R == &B, "copy assignment returns its target"); spec_copy(1, 0); observe(B, 1);
    { auto *V = (T *)vf_token("v"); B.push(V); spec_push(1, V); }
    observe(A, 0); observe(B, 1);
    while (vf_nondet(2)) { spec_pop(1, B.pop()); observe(B, 1); }
    while (vf_nondet(2)) { spec_pop(0, A.pop()); observe(A, 0); }
    break; }
  case 3: { vf_event("move assign"); Q &R = (B = static_cast<Q &&>(A)); vf_check(&R == &B, "move assignment returns its target"); spec_move(1, 0); observe(B, 1); observe(A, 0);
    spec_pop(0, A.pop());
    { auto *V = (T *)vf_token("v"); A.push(V); spec_push(0, V); }
    observe(A, 0); observe(B, 1);
    while (vf_nondet(2)) { spec_pop(1, B.pop()); observe(B, 1); }
    break; }
  case 4: { vf_event("swap"); if (vf_nondet(2)) A.swap(B); else swap(A, B); spec_swap(0, 1); observe(A, 0); observe(B, 1);
    { auto *V = (T *)vf_token("v"); A.push(V); spec_push(0, V); }
    { auto *V = (T *)vf_token("v"); B.push(V); spec_push(1, V); }
    while (vf_nondet(2)) { spec_pop(0, A.pop()); observe(A, 0); }
    while (vf_nondet(2)) { spec_pop(1, B.pop()); observe(B, 1); }
    break; }
  case 5: { vf_event("self copy assign"); Q &S = A; A = S; observe(A, 0);
    while (vf_nondet(2)) { spec_pop(0, A.pop()); observe(A, 0); }
    break; }
  case 6: { vf_event("self move assign"); Q &S = A; A = static_cast<Q &&>(S);
    // The value is unspecified, but the queue must stay usable and owned.
    A.size(); A.empty(); break; }
  case 7: { vf_event("self swap"); A.swap(A); observe(A, 0);
    while (vf_nondet(2)) { spec_pop(0, A.pop()); observe(A, 0); }
    break; }
  }
}
extern "C" void drv_cmp() {
  Q A, B;
  spec_new(0);
  spec_new(1);
  while (vf_nondet(2)) {
    switch (vf_nondet(4)) {
    case 0: { auto *V = (T *)vf_token("v"); A.push(V); spec_push(0, V); break; }
    case 1: { auto *V = (T *)vf_token("v"); B.push(V); spec_push(1, V); break; }
    case 2: spec_pop(0, A.pop()); break;
    case 3: spec_pop(1, B.pop()); break;
    }
  }
  const Q &X = A, &Y = B;
  switch (vf_nondet(5)) {
  case 0: { bool E = X == Y, N = X != Y; spec_eq(E, N, 0, 1); break; }
  case 1: spec_lt(X < Y, 0, 1); break;
  case 2: spec_lt(X > Y, 1, 0); break;
  case 3: spec_lt(!(X <= Y), 1, 0); break;
  case 4: spec_lt(!(X >= Y), 0, 1); break;
  }
}
