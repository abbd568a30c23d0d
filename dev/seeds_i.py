import sys; sys.path.insert(0,'/verif/dev')
from seedlib import seed, DEMO
F='include/bcl/IntrusiveConnection.h'
PRE='''#include <bcl/IntrusiveConnection.h>
#include <chrono>
#include <cstdlib>
#include <string>
#include <vector>
#include <atomic>
#include <unistd.h>
#include <sched.h>
#include <signal.h>
using bcl::IntrusiveConnection;
struct Sock : bcl::Socket<std::string> {
  void send(const std::string &M) const override { mSent.push_back(M); }
  void receive(const ReceiveCallback &F) const override { mReceive = F; }
  void closed(const ClosedCallback &F) const override { mClosed = F; }
  mutable ReceiveCallback mReceive;
  mutable ClosedCallback mClosed;
  mutable std::vector<std::string> mSent;
};
static void late(int) { _exit(9); }
static void nap(int Ms) { std::this_thread::sleep_for(std::chrono::milliseconds(Ms)); }
'''
seed('I01-a','I01',[(F,"Data = CS->mIsSend ? CS->mSendData : IntrusiveConnection::Reject();","Data = !CS->mReject ? CS->mSendData : IntrusiveConnection::Reject();")],
PRE+'''
static void serve(IntrusiveConnection C) { C.answer([](const std::string &Q) { return "re:" + Q; }); }
int main() {
  signal(SIGALRM, late); alarm(100);
  cpu_set_t S; CPU_ZERO(&S); CPU_SET(sched_getcpu(), &S); sched_setaffinity(0, sizeof S, &S);
  // The server answers once and ends: its answer must not get lost, whoever runs first.
  for (int I = 0; I < 3000; ++I) {
    Sock K;
    IntrusiveConnection::connect(&K, '$', serve);
    if (I & 1) sched_yield();
    K.mReceive("a$");
    if (K.mSent.size() != 1 || K.mSent[0] != "re:a$") return 1;
    K.mClosed(false);
  }
  return 0;
}
''',"a server that answers its last request and ends before the socket thread wakes up to take the answer","an answered request is responded to with REJECT")
seed('I01-b','I01',[(F,"""        Buffer.push(Item);
      // If there""","""        if (!Item.empty() || Buffer.empty())
          Buffer.push(Item);
      // If there""")],
PRE+'''
static std::vector<std::string> Got;
static void serve(IntrusiveConnection C) { while (C.answer([](const std::string &Q) { Got.push_back(Q); return "re:" + Q; })); }
int main() {
  signal(SIGALRM, late); alarm(60);
  Sock K;
  IntrusiveConnection::connect(&K, '$', serve);
  K.mReceive("a$$b$");
  K.mReceive("$c");
  bool Ok = Got == std::vector<std::string>{"a", "", "b", "", "c"} && K.mSent.size() == 5;
  K.mClosed(false);
  return Ok ? 0 : 1;
}
''',"a joined message with an empty request that is not the first one","an empty request between two delimiters gets no response")
seed('I02-a','I02',[(F,"""        mStatus->mReceiveEvent.wait(Lock,
        [this] { return mStatus->mIsReceive || mStatus->mClose; });""".replace('        mS','      mS',1),"""      if (!mStatus->mIsReceive)
        mStatus->mReceiveEvent.wait(Lock);""")],
PRE+'''
static std::atomic<bool> Done{false};
static void serve(IntrusiveConnection C) { nap(300); while (C.answer([](const std::string &Q) { return "re:" + Q; })); }
int main() {
  signal(SIGALRM, late); alarm(20);
  Sock K;
  IntrusiveConnection::connect(&K, '$', serve);
  K.mClosed(false); // before the server waits for the first time
  return 0;
}
''',"the socket is closed before the server starts to wait for a request (or a spurious wakeup)","the notification of the closed socket is lost, server and socket thread wait for each other")
TS=DEMO.replace('-fsanitize=address,undefined -fno-sanitize-recover=all','-fsanitize=thread')
seed('I03-a','I03',[(F,"""          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
          CS->mClose = true;
        }
        CS->mReceiveEvent""","""          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
          CS->mClose = true;
        }
        CS->mReceiveEvent""")],
PRE+'''
static void serve(IntrusiveConnection C) { while (C.answer([](const std::string &Q) { return "re:" + Q; })); }
int main() {
  signal(SIGALRM, late); alarm(60);
  for (int I = 0; I < 20; ++I) {
    Sock K;
    IntrusiveConnection::connect(&K, '$', serve);
    K.mReceive("a$");
    nap(5);
    K.mClosed(false);
  }
  return 0;
}
''',"a server that reads the flags while the socket is being closed","mClose is written under another lock than it is read with: data race and lost wakeup",TS)
seed('I03-b','I03',[(F,"      delete Reject;\n","      if (!*Reject)\n        delete Reject;\n")],
PRE+'''
static void serve(IntrusiveConnection C) {}
int main() {
  signal(SIGALRM, late); alarm(60);
  for (int I = 0; I < 20; ++I) {
    Sock K;
    IntrusiveConnection::connect(&K, '$', serve);
    K.mReceive("a$");
    K.mClosed(false);
  }
  return 0;
}
''',"a socket that is closed after the server ended and a request was rejected","the rejection flag is not released")
seed('I04-a','I04',[(F,"    if (this == &C)\n","    if (this == &C || !mStatus)\n")],
PRE+'''
static void serve(IntrusiveConnection C) {
  IntrusiveConnection K(std::move(C));
  C = std::move(K); // into a moved-from connection
  while (C.answer([](const std::string &Q) { return "re:" + Q; }));
}
int main() {
  signal(SIGALRM, late); alarm(60);
  Sock K;
  IntrusiveConnection::connect(&K, '$', serve);
  K.mReceive("a$");
  bool Ok = K.mSent.size() == 1 && K.mSent[0] == "re:a$";
  K.mClosed(false);
  return Ok ? 0 : 1;
}
''',"assignment into a connection that was moved from before","the assigned connection does not serve, its requests are rejected")
seed('I04-b','I04',[(F,"""    IntrusiveConnection Old(std::move(*this));
    mStatus = C.mStatus;
    C.mStatus = nullptr;
    return *this;""","""    std::swap(mStatus, C.mStatus);
    return *this;""")],
PRE+'''
static IntrusiveConnection *Held, *Other;
static std::atomic<int> Count{0};
static void first(IntrusiveConnection C) { Held = new IntrusiveConnection(std::move(C)); ++Count; }
static void second(IntrusiveConnection C) { Other = new IntrusiveConnection(std::move(C)); ++Count; }
int main() {
  signal(SIGALRM, late); alarm(10);
  Sock K, L;
  IntrusiveConnection::connect(&K, '$', first);
  while (Count != 1) nap(1);
  IntrusiveConnection::connect(&L, '$', second);
  while (Count != 2) nap(1);
  *Held = std::move(*Other);
  // The first connection has been overwritten: its requests are rejected.
  K.mReceive("a$");
  if (K.mSent.size() != 1 || K.mSent[0] != std::string(IntrusiveConnection::Reject()) + "$") _exit(1);
  _exit(0);
}
''',"a connection that is overwritten while the source of the assignment lives on","the overwritten connection is neither served nor closed: its requests wait for ever")
