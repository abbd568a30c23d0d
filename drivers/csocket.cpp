#include "vf.h"
#define BCL_C_SOCKET
#include <algorithm>
#include <cstring>
#include <map>
#include <mutex>
#include <condition_variable>
#include <string>
#include <bcl/Socket.h>
namespace bcl { template<> void createServer(const Socket<std::string> *); }
#include "lib/Socket/CSocket/CSocket.cpp"
using namespace bcl;
extern "C" {
void spec_address(std::string *, long Port, long Max, long Size) noexcept; // any address
void spec_on(int Status, const std::string *, int, const std::string *, int) noexcept;
void spec_server(const void *) noexcept;                  // createServer()
void spec_listen_data(int) noexcept;                      // a receive listener is registered
void spec_listen_close(int) noexcept;
void spec_data(int, const std::string *) noexcept;        // a receive listener is called
void spec_closed(int, bool) noexcept;
int spec_may_register() noexcept;
void spec_message(std::string *) noexcept;                // any message
void spec_send(const std::string *) noexcept;             // starts to send
void spec_sent() noexcept;
void spec_returned() noexcept;
}
static void sendOne(const Socket<std::string> *S) {
  std::string M;
  spec_message(&M);
  spec_send(&M);
  S->send(M);
  spec_sent();
}
static void listenData(const Socket<std::string> *S, int K);
static void listenClose(const Socket<std::string> *S, int K);
static void react(const Socket<std::string> *S) {
  switch (vf_nondet(4)) {
  case 1: sendOne(S); break;
  case 2: if (spec_may_register()) listenData(S, 2); break;
  case 3: if (spec_may_register()) listenClose(S, 2); break;
  }
}
static void listenData(const Socket<std::string> *S, int K) {
  S->receive([S, K](const std::string &M) {
    spec_data(K, &M);
    react(S);
    spec_data(K, &M);
  });
  spec_listen_data(K);
}
static void listenClose(const Socket<std::string> *S, int K) {
  S->closed([K](bool Ok) { spec_closed(K, Ok); });
  spec_listen_close(K);
}
namespace bcl {
template<> void createServer(const Socket<std::string> *S) {
  spec_server(S);
  switch (vf_nondet(5)) {
  case 0: break;
  case 1: listenData(S, 0); listenClose(S, 0); break;
  case 2: listenClose(S, 0); listenData(S, 0); listenClose(S, 1); break;
  case 3: listenData(S, 0); listenData(S, 1); break;
  case 4: listenData(S, 0); sendOne(S); break;
  }
}
}
extern "C" void drv_server() {
  std::string Address;
  long Port = vf_any("port"), Max = vf_any("maximum"), Size = vf_any("buffer size");
  spec_address(&Address, Port, Max, Size);
  net::startServer(Address, (int)Port, Max, [](net::SocketStatus S, const net::Connection &C) {
    std::string SA = C.getServerAddress(), CA = C.getClientAddress();
    spec_on((int)S, &SA, C.getServerPort(), &CA, C.getClientPort());
  }, Size);
  spec_returned();
}
