import sys; sys.path.insert(0,'/verif/dev')
from seedlib import seed, DEMO
F='lib/Socket/CSocket/CSocket.cpp'
DS=DEMO.replace('-I "$PWD/include"','-I "$PWD" -I "$PWD/include"')
PRE='''#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <functional>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <poll.h>
#include <errno.h>
#include <bcl/Socket.h>
namespace bcl { template<> void createServer(const Socket<std::string> *); }
#include "lib/Socket/CSocket/CSocket.cpp"
using namespace bcl;
using Sock = Socket<std::string>;
static std::function<void(const Sock *)> Server = [](const Sock *) {};
namespace bcl { template<> void createServer(const Socket<std::string> *S) { Server(S); } }
struct Event { net::SocketStatus S; std::string SA, CA; int SP, CP; };
static std::mutex M;
static std::vector<Event> Events;
static std::atomic<int> Port{0};
static bool waitFor(std::function<bool()> F, int MS = 5000) {
  for (int I = 0; I < MS / 10; ++I) {
    if (F()) return true;
    usleep(10000);
  }
  return F();
}
static int count(net::SocketStatus S) {
  std::lock_guard<std::mutex> L(M);
  int N = 0;
  for (auto &E : Events) N += E.S == S;
  return N;
}
static void start(int P = 0, std::size_t Max = 0, std::size_t Size = 65535) {
  std::thread([=]() {
    net::startServer("", P, Max, [](net::SocketStatus S, const net::Connection &C) {
      std::lock_guard<std::mutex> L(M);
      Events.push_back({S, C.getServerAddress(), C.getClientAddress(), C.getServerPort(), C.getClientPort()});
      if (S == net::SocketStatus::Listen) Port = C.getServerPort();
    }, Size);
  }).detach();
  if (!waitFor([]() { return Port != 0; })) _exit(9);
}
static int dial(int P = 0) {
  int S = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in A{};
  A.sin_family = AF_INET;
  A.sin_port = htons(P ? P : (int)Port);
  A.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (connect(S, (sockaddr *)&A, sizeof A) != 0) { close(S); return -1; }
  return S;
}
static bool put(int S, const std::string &T) { return ::write(S, T.data(), T.size()) == (ssize_t)T.size(); }
'''
NEXT='''
#include <dlfcn.h>
template<class T> static T next(T, const char *N) { return (T)dlsym(RTLD_NEXT, N); }
'''
seed('S01-a','S01',[(F,"""      on(net::SocketStatus::ServerAddressError, Connection);
      closeAndLog(ConnectionFD, Connection);""","""      on(net::SocketStatus::ServerAddressError, Connection);
      closeAndLog(SocketFD, Connection);""")],
PRE+NEXT+'''
static std::atomic<int> Calls{0};
extern "C" int getsockname(int S, struct sockaddr *A, socklen_t *L) noexcept {
  if (++Calls == 2) { errno = ENOBUFS; return -1; }
  return next(&getsockname, "getsockname")(S, A, L);
}
int main() {
  std::atomic<int> Served{0};
  Server = [&](const Sock *) { ++Served; };
  start();
  int A = dial();
  if (A < 0) return 2;
  if (!waitFor([]() { return count(net::SocketStatus::ServerAddressError) > 0; })) _exit(3);
  usleep(200000);
  int B = dial();
  bool Ok = B >= 0 && waitFor([&]() { return Served > 0; }, 2000);
  _exit(!Ok);
}
''',"getsockname() fails for an accepted connection","the listening socket is closed instead of the connection: the server accepts nobody any more and the connection leaks",DS)
seed('S01-b','S01',[(F,"make_unique<char[]>(mBufferSize + 1)","make_unique<char[]>(mBufferSize)")],
PRE+'''
int main() {
  std::mutex L; std::string Got;
  Server = [&](const Sock *S) { S->receive([&](const std::string &T) { std::lock_guard<std::mutex> G(L); Got += T; }); };
  start(0, 0, 64);
  int A = dial();
  std::string T(64, 'x');
  if (A < 0 || !put(A, T)) return 2;
  _exit(!waitFor([&]() { std::lock_guard<std::mutex> G(L); return Got == T; }));
}
''',"a chunk of data that fills the buffer exactly","a null character is written behind the end of the buffer",DS)
seed('S02-a','S02',[(F,"""    on(net::SocketStatus::Accept, NewConnection);
    auto EngineItr""","""    auto EngineItr"""),(F,"""      engine, ConnectionFD, std::move(NewConnection));
""","""      engine, ConnectionFD, std::move(NewConnection));
    on(net::SocketStatus::Accept, NewConnection);
""")],
PRE+'''
int main() {
  start();
  int A = dial();
  if (A < 0 || !waitFor([]() { return count(net::SocketStatus::Accept) == 1; })) _exit(2);
  std::lock_guard<std::mutex> L(M);
  for (auto &E : Events)
    if (E.S == net::SocketStatus::Accept && (E.SA != "127.0.0.1" || E.CA != "127.0.0.1" || E.CP == 0)) _exit(1);
  _exit(0);
}
''',"the addresses of an accept event are looked at","accepted connections are reported without addresses, and possibly after their data",DS)
seed('S02-b','S02',[(F,"""    if (!sendData(mConnectionFD, Message)) {
      mOn(bcl::net::SocketStatus::SendError, mConnection);
      mState = State::OnClose;
    } else {
      mOn(bcl::net::SocketStatus::Send, mConnection);
    }""","""    if (!sendData(mConnectionFD, Message))
      mState = State::OnClose;
    mOn(mState == State::OnClose ? bcl::net::SocketStatus::SendError
                                 : bcl::net::SocketStatus::Send, mConnection);""")],
PRE+NEXT+'''
static std::atomic<int> Sends{0};
extern "C" ssize_t send(int S, const void *B, size_t N, int F) {
  if (++Sends == 1) { errno = ENOBUFS; return -1; }
  return next(&send, "send")(S, B, N, F);
}
int main() {
  Server = [&](const Sock *S) { S->receive([S](const std::string &T) { S->send("one"); S->send("two"); }); };
  start();
  int A = dial();
  if (A < 0 || !put(A, "hello")) return 2;
  char C[3];
  if (!waitFor([]() { return count(net::SocketStatus::SendError) + count(net::SocketStatus::Send) == 2; })) _exit(3);
  _exit(count(net::SocketStatus::SendError) != 1);
}
''',"a send that succeeds after a failed one in the same listener","the successful send is reported as an error",DS)
seed('S03-a','S03',[(F,"    auto Buffer = bcl::make_unique<char[]>(mBufferSize + 1);","    static auto Buffer = bcl::make_unique<char[]>(mBufferSize + 1);")],
PRE+'''
int main() {
  std::mutex L; std::atomic<int> First{0}, N{0}; std::string Second;
  Server = [&](const Sock *S) {
    int K = N++;
    if (K == 0) {
      S->receive([&](const std::string &) { First = 1; waitFor([&]() { return First == 2; }); });
      S->receive([&](const std::string &T) { std::lock_guard<std::mutex> G(L); Second = T; });
    } else
      S->receive([&](const std::string &) { First = 2; });
  };
  start();
  int A = dial();
  if (A < 0 || !waitFor([&]() { return N == 1; }) || !put(A, "first message")) _exit(2);
  if (!waitFor([&]() { return First == 1; })) _exit(3);
  int B = dial();
  if (B < 0 || !put(B, "other client's")) _exit(2);
  if (!waitFor([&]() { std::lock_guard<std::mutex> G(L); return !Second.empty(); })) _exit(4);
  _exit(Second != "first message");
}
''',"two connections that receive data at the same time","the data of one client overwrites that of another one",DS)
seed('S04-a','S04',[(F,"""      IsOk = false;
      mOn(bcl::net::SocketStatus::CloseError""","""      mOn(bcl::net::SocketStatus::CloseError""")],
PRE+NEXT+'''
static std::atomic<bool> Fail{false};
extern "C" int close(int S) {
  int R = next(&close, "close")(S);
  if (Fail) { errno = EIO; return -1; }
  return R;
}
int main() {
  std::atomic<int> Closed{-1};
  Server = [&](const Sock *S) { S->closed([&](bool Ok) { Closed = Ok; }); };
  start();
  int A = dial();
  if (A < 0) return 2;
  waitFor([]() { return count(net::SocketStatus::Accept) == 1; });
  usleep(200000);
  shutdown(A, SHUT_RDWR);
  Fail = true;
  if (!waitFor([&]() { return Closed >= 0; })) _exit(3);
  _exit(Closed != 0);
}
''',"close() of the connection fails","the closed listener is told that the connection ended orderly",DS)
seed('S04-b','S04',[(F,"""      mOn(bcl::net::SocketStatus::SendError, mConnection);
      mState = State::OnClose;""","""      mOn(bcl::net::SocketStatus::SendError, mConnection);""")],
PRE+NEXT+'''
static std::atomic<int> Sends{0};
extern "C" ssize_t send(int S, const void *B, size_t N, int F) {
  errno = EPIPE; return -1;
}
int main() {
  std::atomic<int> Closed{-1};
  Server = [&](const Sock *S) {
    S->receive([S](const std::string &T) { S->send("one"); });
    S->closed([&](bool Ok) { Closed = Ok; });
  };
  start();
  int A = dial();
  if (A < 0 || !put(A, "hello")) return 2;
  if (!waitFor([&]() { return Closed >= 0; }, 3000)) _exit(3);
  _exit(Closed != 0);
}
''',"a response that cannot be sent while the client stays","the connection stays open after the error and its end is reported as orderly",DS)
seed('S05-a','S05',[(F,"    return Size != ActiveSockets.size();","    return Size <= ConnectionMaxNumber;"),(F,"auto sanitizeConnections = [&ActiveSockets]() {","auto sanitizeConnections = [&ActiveSockets, ConnectionMaxNumber]() {")],
PRE+'''
int main() {
  std::atomic<int> N{0};
  Server = [&](const Sock *S) { ++N; };
  start(0, 2);
  int A = dial(), B = dial(), C = dial();
  if (A < 0 || B < 0 || !waitFor([&]() { return N >= 2; })) _exit(2);
  _exit(waitFor([&]() { return N > 2; }, 1000));
}
''',"more clients than the maximum at the same time","the maximum number of connections is exceeded",DS)
seed('S05-b','S05',[(F,"""      auto Status = I->second.wait_for(std::chrono::seconds(0));
      if (Status == std::future_status::ready)
        I = ActiveSockets.erase(I);
      else
        ++I;""","""      if (I->second.valid())
        I = ActiveSockets.erase(I);
      else
        ++I;""")],
PRE+'''
int main() {
  std::atomic<int> N{0};
  Server = [&](const Sock *S) { ++N; };
  start(0, 4);
  for (int I = 0; I < 4; ++I)
    if (dial() < 0) _exit(2);
  _exit(!waitFor([&]() { return N == 4; }, 3000));
}
''',"more than half of the maximum number of clients while the first ones stay","the server waits for the end of active connections instead of accepting further ones",DS)
seed('S06-a','S06',[(F,"""  Result.Address.sin_port = htons(PortNo);
  if (Address.empty()) {""","""  if (Address.empty()) {"""),(F,"""    memmove(&Result.Address.sin_addr.s_addr,
      Host->h_addr_list[0], Host->h_length);""","""    Result.Address.sin_port = htons(PortNo);
    memmove(&Result.Address.sin_addr.s_addr,
      Host->h_addr_list[0], Host->h_length);""")],
PRE+'''
int main() {
  int S = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in A{};
  socklen_t L = sizeof A;
  A.sin_family = AF_INET;
  if (bind(S, (sockaddr *)&A, sizeof A) != 0 || getsockname(S, (sockaddr *)&A, &L) != 0) return 2;
  close(S);
  start(ntohs(A.sin_port));
  _exit(Port != ntohs(A.sin_port));
}
''',"a server without a particular address","the requested port is ignored",DS)
