#include "vf.h"
#include <bcl/Diagnostic.h>
using bcl::Diagnostic;
extern "C" {
const char *vf_cstr(const char *) noexcept;                 // an arbitrary C string
int spec_room() noexcept;                                   // the bound of the history is not reached
void spec_make(int) noexcept;
void spec_insert(int, bool, const char *Kind, std::size_t Code, const char *Fmt, uintmax_t Pos, int A, const char *B) noexcept;
void spec_clear(int) noexcept;
void spec_swap() noexcept;
void spec_size(int, std::size_t, bool, std::size_t) noexcept; // size, empty, internal_size
void spec_walk(int, int Reverse) noexcept;
void spec_elem(int, const char *) noexcept;
void spec_end(int) noexcept;
}
static void observe(const Diagnostic &D, int K) {
  switch (vf_nondet(6)) {
  case 0:
    spec_size(K, D.size(), D.empty(), D.internal_size());
    break;
  case 1:
    spec_walk(K, 0);
    for (const char *S : D)
      spec_elem(K, S);
    spec_end(K);
    break;
  case 2:
    spec_walk(K, 1);
    for (auto I = D.rbegin(), E = D.rend(); I != E; I++)
      spec_elem(K, *I);
    spec_end(K);
    break;
  case 3:
    spec_walk(K, 0);
    for (auto I = D.cbegin(), E = D.cend(); !(I == E); I++)
      spec_elem(K, *I);
    spec_end(K);
    break;
  case 4:
    spec_walk(K, 1);
    for (auto I = D.end(); I != D.begin();)
      spec_elem(K, *--I);
    spec_end(K);
    break;
  case 5:
    spec_walk(K, 0);
    for (auto I = D.crend(), B = D.crbegin(); I != B;) {
      I--;
      spec_elem(K, *I);
    }
    spec_end(K);
    break;
  }
}
static void insert(Diagnostic &D, int K) {
  std::size_t Code = vf_any("code"), Pos = vf_any("pos");
  const char *Fmt = vf_cstr("format"), *B = vf_cstr("argument");
  int A = (int)vf_any("argument");
  bool R = D.insert(Code, Fmt, Pos, A, B);
  spec_insert(K, R, D.getKind(), Code, Fmt, Pos, A, B);
}
extern "C" void drv_one() {
  Diagnostic D(vf_cstr("kind"));
  spec_make(0);
  observe(D, 0);
  while (spec_room()) {
    if (vf_nondet(3))
      insert(D, 0);
    else {
      D.clear();
      spec_clear(0);
    }
    observe(D, 0);
  }
}
extern "C" void drv_plain() {
  Diagnostic D(vf_cstr("kind"));
  spec_make(0);
  std::size_t Code = vf_any("code"), Pos = vf_any("pos");
  bool R = D.insert(Code, "text", Pos);
  spec_insert(0, R, D.getKind(), Code, "text", Pos, 0, nullptr);
  observe(D, 0);
}
extern "C" void drv_two() {
  Diagnostic A(vf_cstr("kind")), B(vf_cstr("kind"));
  spec_make(0);
  spec_make(1);
  if (vf_nondet(2)) insert(A, 0);
  if (vf_nondet(2)) insert(A, 0);
  if (vf_nondet(2)) insert(B, 1);
  if (vf_nondet(2))
    A.swap(B);
  else
    std::swap(A, B);
  spec_swap();
  if (vf_nondet(2)) insert(A, 0);
  observe(A, 0);
  observe(B, 1);
}
extern "C" void drv_kind() {
  const char *K = vf_cstr("kind");
  Diagnostic D(K);
  spec_walk(2, 0);
  spec_elem(2, D.getKind());
  spec_elem(2, K);
}
