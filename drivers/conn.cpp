#include "vf.h"
#include <bcl/IntrusiveConnection.h>
#include <memory>
using bcl::IntrusiveConnection;
struct VState { virtual ~VState(); virtual void run() = 0; }; // layout of std::thread::_State
extern "C" {
// The first argument numbers the connection.
void spec_message(int, std::string *, char) noexcept;   // any message; its pieces become pending requests
void spec_request(int, const std::string *, std::string *) noexcept; // a request reaches the server; gives the response
void spec_gone(int) noexcept;                             // the server starts to give the connection up
void spec_send(int, const std::string *) noexcept;
void spec_closed(int) noexcept;                           // the socket is about to be reported closed
void spec_delivered(int) noexcept;                        // the receive callback has returned
void spec_answer(int, bool) noexcept;
void vf_thread_main(VState *S) { S->run(); delete S; }
}
namespace {
struct TestSocket : bcl::Socket<std::string> {
  explicit TestSocket(int I) : mI(I) {}
  void send(const std::string &M) const override { vf_event("send"); spec_send(mI, &M); }
  void receive(const ReceiveCallback &F) const override { mReceive = F; }
  void closed(const ClosedCallback &F) const override { mClosed = F; }
  mutable ReceiveCallback mReceive;
  mutable ClosedCallback mClosed;
  int mI;
};
bool ask(IntrusiveConnection &C, int I) {
  bool R = C.answer([I](const std::string &Q) {
    vf_event("request");
    std::string A;
    spec_request(I, &Q, &A);
    return A;
  });
  spec_answer(I, R);
  return R;
}
void message(char D, TestSocket &S) {
  std::string M;
  vf_event("message");
  spec_message(S.mI, &M, D);
  S.mReceive(M);
  spec_delivered(S.mI);
}
void close(TestSocket &S) {
  vf_event("close");
  spec_closed(S.mI);
  S.mClosed(vf_nondet(2));
}
void server(IntrusiveConnection C) {
  while (vf_nondet(2))
    ask(C, 0);
  vf_event("server leaves");
  spec_gone(0);
}
std::string never(const std::string &Q) {
  vf_check(false, "the source of an assignment does nothing");
  return Q;
}
void servermove(IntrusiveConnection C) {
  {
    IntrusiveConnection K(std::move(C));
    if (vf_nondet(2)) {
      IntrusiveConnection &Self = K;
      K = std::move(Self);
    }
    if (vf_nondet(2))
      ask(K, 0);
    if (vf_nondet(2)) {
      IntrusiveConnection &R = (C = std::move(K));
      vf_check(&R == &C, "move assignment returns its target");
      vf_check(!K.answer(never), "the source of an assignment does nothing");
      ask(C, 0);
    }
    vf_event("server leaves");
    spec_gone(0);
  }
}
// Serves two connections; the second one replaces the first one.
void second(IntrusiveConnection C1, IntrusiveConnection C0) {
  vf_event("replace");
  spec_gone(0);
  IntrusiveConnection &R = (C0 = std::move(C1));
  vf_check(&R == &C0, "move assignment returns its target");
  vf_check(!C1.answer(never), "the source of an assignment does nothing");
  ask(C0, 1);
  vf_event("server leaves");
  spec_gone(1);
}
void first(IntrusiveConnection C, char D) {
  TestSocket S(1);
  IntrusiveConnection::connect(&S, D, second, std::move(C));
  if (vf_nondet(2))
    message(D, S);
  close(S);
}
}
extern "C" void drv_serve() {
  TestSocket S(0);
  char D = (char)vf_any("delimiter");
  IntrusiveConnection::connect(&S, D, server);
  while (vf_nondet(2))
    message(D, S);
  close(S);
}
extern "C" void drv_move() {
  TestSocket S(0);
  char D = (char)vf_any("delimiter");
  IntrusiveConnection::connect(&S, D, servermove);
  while (vf_nondet(2))
    message(D, S);
  close(S);
}
extern "C" void drv_two() {
  TestSocket S(0);
  IntrusiveConnection::connect(&S, '$', first, '$');
  if (vf_nondet(2))
    message('$', S);
  close(S);
}
