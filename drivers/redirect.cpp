#include "vf.h"
#include <bcl/RedirectIO.h>
using bcl::RedirectIO;
extern "C" {
void spec_begin(const char *) noexcept;                  // an operation starts
void spec_fd(int, int) noexcept;                          // requested descriptor and mode
void spec_constructed(RedirectIO *, bool, bool) noexcept; // (may, has errors)
void spec_isdiff(RedirectIO *, bool, bool, bool) noexcept;// (result, had errors, has errors)
void spec_diff(RedirectIO *, const std::string *, bool, bool) noexcept;
void spec_mark(RedirectIO *, bool, bool, bool) noexcept;
void spec_reset(RedirectIO *) noexcept;
void spec_output() noexcept;                             // something is written to the redirected descriptor
void spec_closed() noexcept;
void spec_moved() noexcept;
int spec_open(RedirectIO *) noexcept;                    // the redirection is in place
}
static void anyop(RedirectIO &R) {
  switch (vf_nondet(5)) {
  case 0: spec_output(); break;
  case 1: { bool H = R.hasErrors(); spec_begin("isDiff"); bool D = R.isDiff(); spec_isdiff(&R, D, H, R.hasErrors()); break; }
  case 2: if (spec_open(&R)) { bool H = R.hasErrors(); spec_begin("diff"); std::string D = R.diff(); spec_diff(&R, &D, H, R.hasErrors()); } break;
  case 3: if (spec_open(&R)) { bool H = R.hasErrors(); spec_begin("setDiffPos"); bool D = R.setDiffPos(); spec_mark(&R, D, H, R.hasErrors()); } break;
  case 4: spec_begin("resetDiffPos"); R.resetDiffPos(); spec_reset(&R); break;
  }
}
static RedirectIO::Mode mode() {
  switch (vf_nondet(3)) {
  case 0: return RedirectIO::Mode::Rewrite;
  case 1: return RedirectIO::Mode::Append;
  }
  return RedirectIO::Mode::Read;
}
// Declared first: nothing is open after all objects have been destroyed.
struct End { ~End() { spec_closed(); } };
extern "C" void drv_use() {
  End E;
  std::string To("name");
  spec_begin("constructor");
  int Fd = (int)vf_any("fd");
  RedirectIO::Mode M = mode();
  spec_fd(Fd, (char)M);
  RedirectIO R(Fd, To, M);
  spec_constructed(&R, R.mayRedirected(), R.hasErrors());
  vf_check(R.fileName() == To, "fileName() returns the name of the target");
  while (vf_nondet(2))
    anyop(R);
}
extern "C" void drv_default() {
  RedirectIO R;
  vf_check(!R.mayRedirected(), "a default constructed object redirects nothing");
  vf_check(!R.hasErrors(), "a default constructed object has no errors");
  vf_check(!R.isDiff(), "a default constructed object has no changes");
}
extern "C" void drv_move() {
  End E;
  std::string To("name");
  if (vf_nondet(2)) {
    spec_begin("constructor");
    int Fd = (int)vf_any("fd");
    spec_fd(Fd, 'w');
    RedirectIO A(Fd, To, RedirectIO::Mode::Rewrite);
    spec_constructed(&A, A.mayRedirected(), A.hasErrors());
    bool H = A.hasErrors();
    RedirectIO B(std::move(A));
    spec_moved();
    vf_check(!A.mayRedirected() && !A.hasErrors(), "the source of a move redirects nothing");
    vf_check(B.mayRedirected() && B.hasErrors() == H, "the target of a move takes the redirection over");
    if (spec_open(&B)) { spec_begin("isDiff"); bool D = B.isDiff(); spec_isdiff(&B, D, H, B.hasErrors()); }
  } else {
    spec_begin("constructor");
    int Fd = (int)vf_any("fd");
    spec_fd(Fd, 'w');
    RedirectIO A(Fd, To, RedirectIO::Mode::Rewrite);
    bool H = A.hasErrors();
    if (vf_nondet(2)) {
      int Fd2 = (int)vf_any("fd2");
      spec_fd(Fd2, 'w');
      RedirectIO B(Fd2, To, RedirectIO::Mode::Rewrite);
      RedirectIO &R = (B = std::move(A));
      vf_check(&R == &B, "move assignment returns its target");
      vf_check(!A.mayRedirected(), "the source of a move redirects nothing");
      vf_check(B.mayRedirected() && B.hasErrors() == H, "the target of a move takes the redirection over");
    } else {
      RedirectIO B;
      B = std::move(A);
      vf_check(!A.mayRedirected(), "the source of a move redirects nothing");
      vf_check(B.mayRedirected() && B.hasErrors() == H, "the target of a move takes the redirection over");
      if (vf_nondet(2)) {
        B = RedirectIO();
        spec_closed();
        vf_check(!B.mayRedirected(), "a reset object redirects nothing");
      }
    }
  }
}
