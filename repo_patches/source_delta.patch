From 40adca6f4b41665a227f7193240cf1c033749d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 01/57] fix: TransparentQueue assignment returned nothing,
 leaked the old storage and broke on self-assignment

---
 include/bcl/transparent_queue.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 64d367d..22f51e5 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -67,12 +67,18 @@ public:
 
   /// Copy assignment.
   TransparentQueue & operator=(const TransparentQueue &TQ) {
+    if (this == &TQ)
+      return *this;
+    Container *Queue = TQ.mIsSingle ? nullptr : new Container(*TQ.mQueue);
+    if (!mIsSingle)
+      delete mQueue;
     mIsSingle = TQ.mIsSingle;
     mIsEmpty = TQ.mIsEmpty;
     if (mIsSingle)
       mValue = TQ.mValue;
     else
-      mQueue = new Container(*TQ.mQueue);
+      mQueue = Queue;
+    return *this;
   }
 
   /// Move constructor.
@@ -85,11 +91,16 @@ public:
 
   /// Move assignment.
   TransparentQueue & operator=(TransparentQueue &&TQ) {
+    if (this == &TQ)
+      return *this;
+    if (!mIsSingle)
+      delete mQueue;
     mIsSingle = TQ.mIsSingle;
     mIsEmpty = TQ.mIsEmpty;
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    return *this;
   }
 
   /// Removes allocated memory if it is necessary.
-- 
2.43.0


From 7a8c3b36a934398865821c1138667206e019d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 02/57] fix: a moved-from TransparentQueue returned a stale
 pointer from pop()

---
 include/bcl/transparent_queue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 22f51e5..0f8c5e5 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -87,6 +87,7 @@ public:
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    TQ.mValue = nullptr;
   }
 
   /// Move assignment.
@@ -100,6 +101,7 @@ public:
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    TQ.mValue = nullptr;
     return *this;
   }
 
-- 
2.43.0


From c82fcfcab67f52d4b3341b1fe199733ec9da073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 03/57] fix: TransparentQueue::emplace() on an empty queue
 inserted an extra null element

---
 include/bcl/transparent_queue.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 0f8c5e5..96141f9 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -169,6 +169,11 @@ public:
   /// Pushes new element to the end of the queue.
   template<class... ArgTy> void emplace(ArgTy&&... Args) {
     if (mIsSingle) {
+      if (mIsEmpty) {
+        mIsEmpty = false;
+        mValue = value_type(std::forward<ArgTy>(Args)...);
+        return;
+      }
       mIsSingle = false;
       Ty *Current = mValue;
       mQueue = new Container();
-- 
2.43.0


From 027b725b0a95af18f169484a9fb56f04c9dcea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 04/57] fix: TransparentQueue::swap() did not compile

---
 include/bcl/transparent_queue.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 96141f9..eddd09a 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -195,7 +195,9 @@ public:
     if (mIsSingle) {
       if (TQ.mIsSingle) {
         std::swap(mValue, TQ.mValue);
-        std::swap(mIsEmpty, TQ.mIsEmpty);
+        bool IsEmpty = mIsEmpty;
+        mIsEmpty = TQ.mIsEmpty;
+        TQ.mIsEmpty = IsEmpty;
       } else {
         Ty *Tmp = mValue;
         mIsSingle = false;
@@ -206,14 +208,14 @@ public:
       }
     } else {
       if (TQ.mIsSingle) {
-        Ty *Tmp = TQ.Value;
+        Ty *Tmp = TQ.mValue;
         TQ.mIsSingle = false;
         TQ.mQueue = mQueue;
         mIsSingle = true;
         mIsEmpty = TQ.mIsEmpty;
         mValue = Tmp;
       } else {
-        mQueue->swap(TQ.mQueue);
+        mQueue->swap(*TQ.mQueue);
       }
     }
   }
-- 
2.43.0


From 7f721fdf224b4579a68b37db01c678bae9640dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 05/57] fix: IntrusiveConnection: notify before the status may
 be deleted

---
 include/bcl/IntrusiveConnection.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index c22fa0c..18d3ffa 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -107,10 +107,11 @@ public:
     if (!mStatus)
       return;
     {
+      // Notify under the lock: status may be deleted as soon as the lock is free.
       std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
       mStatus->mReject = true;
+      mStatus->mSendEvent.notify_one();
     }
-    mStatus->mSendEvent.notify_one();
   }
 
   /// \brief Receives a request, evaluates it and sends response.
@@ -136,10 +137,11 @@ public:
     }
     if (Close) {
       {
+        // Notify under the lock: status may be deleted as soon as the lock is free.
         std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
         mStatus->mReject = true;
+        mStatus->mSendEvent.notify_one();
       }
-      mStatus->mSendEvent.notify_one();
       mStatus = nullptr;
       return false;
     }
-- 
2.43.0


From d26622827eb6877a03fe371233b3938f08be47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 06/57] fix: IntrusiveConnection: joined requests after a
 rejection got no response

---
 include/bcl/IntrusiveConnection.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 18d3ffa..c9a5c4d 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -201,10 +201,6 @@ public:
     // when CS will be deleted it is necessary to access S to send REJECT
     // response.
     S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      if (*Reject) {
-        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        return;
-      }
       std::queue<std::string> Buffer;
       std::stringstream IS(Request);
       std::string Item;
@@ -216,6 +212,12 @@ public:
       if (!Item.empty())
         Buffer.push(Item);
       while (!Buffer.empty()) {
+        // Each of the joined requests must be rejected.
+        if (*Reject) {
+          Buffer.pop();
+          S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+          continue;
+        }
         {
           std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
           CS->mIsReceive = true;
@@ -236,10 +238,8 @@ public:
           CS->mIsSend = false;;
         }
         S->send(Data + Delimiter);
-        if (*Reject) {
+        if (*Reject)
           delete CS;
-          break;
-        }
       }
     });
   }
-- 
2.43.0


From f2581b5b740ca8712c43b58f7243079e4f4d0e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 07/57] fix: IntrusiveConnection move assignment returned
 nothing and lost the old connection

---
 include/bcl/IntrusiveConnection.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index c9a5c4d..cd303b4 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -98,8 +98,11 @@ public:
   IntrusiveConnection & operator=(IntrusiveConnection &&C) {
     if (this == &C)
       return *this;
+    // The connection which is replaced must be closed.
+    IntrusiveConnection Old(std::move(*this));
     mStatus = C.mStatus;
     C.mStatus = nullptr;
+    return *this;
   }
 
   /// Destructor.
-- 
2.43.0


From 42af968ead4d4b3d0d92b000a80db2645bff3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 08/57] fix: Diagnostic released arrays with delete instead of
 delete[]

---
 include/bcl/Diagnostic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 00bf223..fc89ce2 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -37,7 +37,7 @@ namespace bcl {
 ///
 /// All diagnostics are represented as a character string.
 class Diagnostic {
-  typedef std::vector<std::unique_ptr<const char>> Collection;
+  typedef std::vector<std::unique_ptr<const char[]>> Collection;
 
 public:
   typedef const char * value_type;
@@ -209,11 +209,11 @@ public:
       ++mInternalError;
       return false;
     }
-    mDiagnostics.emplace_back(std::unique_ptr<const char>(Buf));
+    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
     return true;
   }
 private:
-  std::unique_ptr<const char> mKind;
+  std::unique_ptr<const char[]> mKind;
   Collection mDiagnostics;
   size_type mInternalError = 0;
 };
-- 
2.43.0


From a8d79628877963326cdd4f3d0470bee6da5f61df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 09/57] fix: Diagnostic::insert() leaked the message if it
 could not be formatted

---
 include/bcl/Diagnostic.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index fc89ce2..79beb0c 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -206,6 +206,7 @@ public:
     char *Buf = new char[Size];
     if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
         std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
+      delete[] Buf;
       ++mInternalError;
       return false;
     }
-- 
2.43.0


From 3e7d2cdfc4c7a80f3dbdac47340c887c2a78dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 10/57] fix: RedirectIO closed its file twice if the first
 fclose() failed

---
 include/bcl/RedirectIO.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index df66208..c026eed 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -100,8 +100,7 @@ public:
       storeErrNo("dup2");
       if (fclose(mFile) != 0)
         storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      mFile = nullptr;
       return;
     }
     if (M == Mode::Append) {
@@ -112,8 +111,7 @@ public:
         storeErrNo("fgetc");
         if (fclose(mFile) != 0)
           storeErrNo("fclose");
-        else
-          mFile = nullptr;
+        mFile = nullptr;
         return;
       }
     }
@@ -122,8 +120,7 @@ public:
       storeErrNo("ftell");
       if (fclose(mFile) != 0)
         storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      mFile = nullptr;
       return;
     }
   }
-- 
2.43.0


From 02b5b2f36da92f026478fa2f9a5c38ecc81f840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 11/57] fix: RedirectIO::isDiff() of a default constructed
 object accessed a null pointer

---
 include/bcl/RedirectIO.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index c026eed..dd88300 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -175,7 +175,8 @@ public:
     // It is necessary to perform this check because fflush(NULL) flushes all
     // opened files and this is unwanted behavior.
     if (!mFile) {
-      storeErrNo(EINVAL, "fflush");
+      if (mayRedirected())
+        storeErrNo(EINVAL, "fflush");
       return false;
     }
     if (std::fflush(mFile) != 0) {
-- 
2.43.0


From 8a33362793c6cce338b67e27b1d91806eb5dc2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 12/57] fix: RedirectIO move assignment leaked the file of its
 target

---
 include/bcl/RedirectIO.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index dd88300..44649c2 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -140,8 +140,24 @@ public:
 
   RedirectIO(const RedirectIO &) = delete;
   RedirectIO & operator=(const RedirectIO &) = delete;
-  RedirectIO(RedirectIO &&) = default;
-  RedirectIO & operator=(RedirectIO &&) = default;
+
+  RedirectIO(RedirectIO &&Other) : RedirectIO() { *this = std::move(Other); }
+
+  /// Closes a current target file and takes over redirection from Other.
+  RedirectIO & operator=(RedirectIO &&Other) {
+    if (this == &Other)
+      return *this;
+    if (mFile)
+      fclose(mFile);
+    mErrors = std::move(Other.mErrors);
+    mFromHandle = Other.mFromHandle;
+    mToName = std::move(Other.mToName);
+    mFile = Other.mFile;
+    Other.mFile = nullptr;
+    mDiffPos = Other.mDiffPos;
+    mDiffStart = Other.mDiffStart;
+    return *this;
+  }
 
   /// \brief Returns true if redirection is active, note that in case of errors
   /// this also returns true.
-- 
2.43.0


From 97f1c32495500b34432f4ae0f4058fb918d0e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 13/57] fix: RedirectIO::diff() lost data after a null
 character

---
 include/bcl/RedirectIO.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 44649c2..8ffd115 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -227,12 +227,16 @@ public:
       storeErrNo("fseek");
       return "";
     }
-    char Buf[100] = "\0";
+    char Buf[100];
     std::string Str;
-    while (std::fgets(Buf, 100, mFile))
-      Str += Buf;
+    // The data may contain null characters.
+    std::size_t N;
+    do {
+      N = std::fread(Buf, 1, 100, mFile);
+      Str.append(Buf, N);
+    } while (N == 100);
     if (!std::feof(mFile)) {
-      storeErrNo("fgets");
+      storeErrNo("fread");
       if (std::fseek(mFile, Pos, SEEK_SET) != 0)
         storeErrNo("fseek");
       return "";
-- 
2.43.0


From e082efc482a58b0c8cb5e46465bd8abfa78fb589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 14/57] fix: CSocket truncated received data at a null
 character

---
 lib/Socket/CSocket/CSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 3f5415e..5d975ad 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -234,7 +234,7 @@ public:
       Buffer.get()[ReceivedInfo.first] = '\0';
       mOn(bcl::net::SocketStatus::Receive, mConnection);
       for (auto &Callback : mReceiveCallbacks)
-        Callback(std::string(Buffer.get()));
+        Callback(std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
         return 1;
-- 
2.43.0


From 6d4569e2f37ce6881189bfb73520b31f86981e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 15/57] fix: CSocket: SIGPIPE terminated the server if a client
 was gone

---
 lib/Socket/CSocket/CSocket.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 5d975ad..e851353 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -173,7 +173,13 @@ static inline bool bindSocket(SocketT S, const AddressInfoT &AddressInfo) {
 }
 
 static inline bool sendData(SocketT S, const std::string &Message) {
-  return send(S, Message.c_str(), Message.length(), 0) >= 0;
+#ifdef MSG_NOSIGNAL
+  // Report an error instead of a signal if the connection has been closed.
+  int Flags = MSG_NOSIGNAL;
+#else
+  int Flags = 0;
+#endif
+  return send(S, Message.c_str(), Message.length(), Flags) >= 0;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
-- 
2.43.0


From 491475d27214d817584a48bfe9965af43b4881f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 16/57] fix: CSocket: a partially sent message was treated as
 sent

---
 lib/Socket/CSocket/CSocket.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index e851353..a98b605 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -179,7 +179,13 @@ static inline bool sendData(SocketT S, const std::string &Message) {
 #else
   int Flags = 0;
 #endif
-  return send(S, Message.c_str(), Message.length(), Flags) >= 0;
+  for (std::size_t Sent = 0; Sent < Message.length();) {
+    auto Size = send(S, Message.data() + Sent, Message.length() - Sent, Flags);
+    if (Size < 0)
+      return false;
+    Sent += Size;
+  }
+  return true;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
-- 
2.43.0


From 824aef347e239ef0c48d94ef517a6c6944e98d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 17/57] fix: CSocket: a callback which registers another one
 invalidated the list

---
 lib/Socket/CSocket/CSocket.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index a98b605..4e8a361 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -245,7 +245,9 @@ public:
       }
       Buffer.get()[ReceivedInfo.first] = '\0';
       mOn(bcl::net::SocketStatus::Receive, mConnection);
-      for (auto &Callback : mReceiveCallbacks)
+      // Callbacks may be registered while the list is processed.
+      auto Callbacks = mReceiveCallbacks;
+      for (auto &Callback : Callbacks)
         Callback(std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
@@ -263,7 +265,9 @@ public:
     } else {
       mOn(bcl::net::SocketStatus::Close, mConnection);
     }
-    for (auto &Callback : mClosedCallbacks)
+    // Callbacks may be registered while the list is processed.
+    auto Callbacks = mClosedCallbacks;
+    for (auto &Callback : Callbacks)
       Callback(IsOk);
   }
 
-- 
2.43.0


From 91d3d25a1d5af0d7b6e65058f3d6b9343de6b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 18/57] fix: CSocket: the server aborted if a descriptor was
 reused early

---
 lib/Socket/CSocket/CSocket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 4e8a361..ef57db1 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -394,9 +394,10 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     auto EngineItr = ActiveSockets.emplace(std::piecewise_construct,
       std::forward_as_tuple(ConnectionFD),
       std::forward_as_tuple()).first;
-    assert(!EngineItr->second.valid() ||
-           EngineItr->second.wait_for(std::chrono::seconds(0))
-             == std::future_status::ready && "Unable to join thread!");
+    // The descriptor may be reused before the previous thread, which has closed
+    // it, terminates.
+    if (EngineItr->second.valid())
+      EngineItr->second.wait();
     EngineItr->second = std::async(std::launch::async,
       engine, ConnectionFD, std::move(NewConnection));
   }
-- 
2.43.0


From 5aa922d5234775ddf7ea6115e9d8c27a7b30214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:49 +0000
Subject: [PATCH 19/57] fix: CSocket: a connection whose first message could
 not be sent stayed open

---
 lib/Socket/CSocket/CSocket.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index ef57db1..81d8648 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -233,6 +233,10 @@ public:
     bcl::createServer(this);
     auto Buffer = bcl::make_unique<char[]>(mBufferSize + 1);
     for (;;) {
+      if (mState == State::OnClose) {
+        closeSocket(false);
+        return 1;
+      }
       auto ReceivedInfo = receiveData(mConnectionFD, Buffer.get(), mBufferSize);
       if (!ReceivedInfo.second) {
         mOn(bcl::net::SocketStatus::ReceiveError, mConnection);
@@ -249,10 +253,6 @@ public:
       auto Callbacks = mReceiveCallbacks;
       for (auto &Callback : Callbacks)
         Callback(std::string(Buffer.get(), ReceivedInfo.first));
-      if (mState == State::OnClose) {
-        closeSocket(false);
-        return 1;
-      }
     }
   }
   std::string Data;
-- 
2.43.0


From ae19ce6656123c717da071fb620e9e28ee0a1ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 20/57] fix: Chain iterators could not be advanced (noexcept
 operand did not compile)

---
 include/bcl/Chain.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index ee34366..c09b7bf 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -29,6 +29,11 @@
 #ifndef BCL_CHAIN_H
 #define BCL_CHAIN_H
 
+#include <cassert>
+#include <iterator>
+#include <type_traits>
+#include <utility>
+
 namespace bcl {
 /// \brief Simple bidirectional intrusive chain of nodes.
 ///
@@ -265,7 +270,8 @@ public:
 
   /// Preincrement, this node must not be null.
   ChainIteratorC & operator++()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     assert(mCurrent && "Advancing null node!");
     mCurrent = ChainTraits<Ty, Tag>::getNext(mCurrent);
     return *this;
@@ -279,7 +285,8 @@ public:
 
   /// Predecrement, this node must not be null.
   ChainIteratorC & operator--()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     assert(mCurrent && "Decreasing null node!!");
     mCurrent = ChainTraits<Ty, Tag>::getPrev(mCurrent);
     return *this;
@@ -296,13 +303,15 @@ public:
 
   /// Returns a next node.
   const Ty * getNext() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     return ChainTraits<Ty, Tag>::getNext(mCurrent);
   }
 
   /// Returns a previous node.
   const Ty * getPrev() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     return ChainTraits<Ty, Tag>::getPrev(mCurrent);
   }
 
-- 
2.43.0


From 7354192a976048f8a5564beeb989b8f1d5dc8b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 21/57] fix: comparison of a Chain iterator with a node
 returned nothing

---
 include/bcl/Chain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index c09b7bf..75f706c 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -251,7 +251,7 @@ public:
 
   /// Compares the iterator with a node.
   bool operator==(const Ty *RHS) const noexcept {
-    mCurrent == RHS;
+    return mCurrent == RHS;
   }
 
   /// Compares the iterator with a node.
-- 
2.43.0


From 4f050ae093dfafb6ba261a8d07ca76419e0eb782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 22/57] fix: postdecrement of a Chain iterator advanced it

---
 include/bcl/Chain.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index 75f706c..7061ae4 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -295,7 +295,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIteratorC operator--(int)
       noexcept(noexcept(ChainIteratorC::operator--())) {
-    ChainIteratorC Tmp = *this; ++*this; return Tmp;
+    ChainIteratorC Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
@@ -370,7 +370,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIterator operator--(int)
       noexcept(noexcept(ChainIterator::operator--())) {
-    ChainIterator Tmp = *this; ++*this; return Tmp;
+    ChainIterator Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
-- 
2.43.0


From a439c4fe4fffb9775e426edc653f64cf04633b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:33 +0000
Subject: [PATCH 23/57] fix: TraitSet::release() erased the end iterator if
 there was no description

---
 include/bcl/trait.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1d5511b..1daf246 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -805,8 +805,9 @@ public:
   template<class Trait> TraitDataTy<Trait> * release() {
     auto constexpr Key = TraitDescriptor::template getKey<Trait>();
     auto I = mValues.find(Key);
-    auto *Result = I == mValues.end() ? nullptr :
-      reinterpret_cast<TraitDataTy<Trait>*>(I->second);
+    if (I == mValues.end())
+      return nullptr;
+    auto *Result = reinterpret_cast<TraitDataTy<Trait>*>(I->second);
     mValues.erase(I);
     return Result;
   }
-- 
2.43.0


From 69f63ca0d9ca0d2eae5330ce315e7ed1eadd30e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:33 +0000
Subject: [PATCH 24/57] fix: TraitSet move assignment leaked the descriptions
 of its target

---
 include/bcl/trait.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1daf246..2ea641d 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -619,7 +619,14 @@ class TraitSet {
 public:
   TraitSet() = default;
   TraitSet(TraitSet &&) = default;
-  TraitSet & operator=(TraitSet &&) = default;
+  TraitSet & operator=(TraitSet &&Set) {
+    if (this != &Set) {
+      unset_all();
+      mValues = std::move(Set.mValues);
+      mTD = std::move(Set.mTD);
+    }
+    return *this;
+  }
 
   // This set manages memory allocation for a trait description, however,
   // it does not know how to copy this trait. Hence, only 'move' operations are
-- 
2.43.0


From adeb8b744ae82319fc4dacaca6f8eab648674c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 25/57] fix: CopyFromCellFunctor and MoveFromCellFunctor did
 not compile (constant target)

---
 include/bcl/cell.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 8b376cb..4f70f1e 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -696,7 +696,7 @@ private:
 template<class To_> struct CopyFromCellFunctor {
   typedef To_ To;
 
-  CopyFromCellFunctor(const To *T) : mTo(T) {
+  CopyFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -713,7 +713,7 @@ private:
 
   template<class CellTy> inline void copyFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 
 /// \brief Moves data from one cell to another.
@@ -752,7 +752,7 @@ private:
 template<class To_> struct MoveFromCellFunctor {
   typedef To_ To;
 
-  MoveFromCellFunctor(const To *T) : mTo(T) {
+  MoveFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -769,7 +769,7 @@ private:
 
   template<class CellTy> inline void moveFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 }
 
-- 
2.43.0


From 9366ac3334ff8f64210219bee5da4b6a2b788da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 26/57] fix: MoveToCellFunctor copied instead of moving
 (constant source)

---
 include/bcl/cell.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 4f70f1e..fd1fd48 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -724,7 +724,7 @@ private:
 template<class From_> struct MoveToCellFunctor {
   typedef From_ From;
 
-  MoveToCellFunctor(const From *F) : mFrom(F) {
+  MoveToCellFunctor(From *F) : mFrom(F) {
     assert(F && "The source of data must not be null!");
   }
 
@@ -741,7 +741,7 @@ private:
 
   template<class CellTy> inline void moveTo(CellTy *, std::false_type) {}
 
-  const From *mFrom;
+  From *mFrom;
 };
 
 /// \brief Moves data from one cell to another.
-- 
2.43.0


From fdfa52f989738c41cef0b6a70f9629522ed4c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 27/57] fix: tagged_tuple_idx did not compile because it looked
 for a tag among tagged types

---
 include/bcl/tagged.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/tagged.h b/include/bcl/tagged.h
index 706d51e..06b17ea 100644
--- a/include/bcl/tagged.h
+++ b/include/bcl/tagged.h
@@ -361,7 +361,8 @@ template<class Tag, class T> class tagged_tuple_idx;
 template<class Tag, class... Taggeds>
 class tagged_tuple_idx<Tag, tagged_tuple<Taggeds...>> :
   public std::integral_constant<
-    std::size_t, bcl::index_of<Tag, Taggeds...>()> {};
+    std::size_t,
+    bcl::index_of<bcl::get_tagged<Tag, Taggeds...>, Taggeds...>()> {};
 
 /// Provide compile time access to a tag with a specified index.
 template<std::size_t Idx, class T> struct tagged_tuple_tag;
-- 
2.43.0


From d9357189f439a1468d5873135c271c9fe3e51cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 28/57] fix: move assignment of multidimensional arrays leaked
 memory and returned nothing

---
 include/bcl/marray.h   | 4 ++++
 include/bcl/marray_f.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/bcl/marray.h b/include/bcl/marray.h
index 889b1de..7881428 100644
--- a/include/bcl/marray.h
+++ b/include/bcl/marray.h
@@ -105,10 +105,14 @@ public:
   }
 
   inline marray & operator=(marray &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray() BCL_ALWAYS_INLINE {
diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index 0e9a17e..bf549f3 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -76,10 +76,14 @@ public:
   }
 
   inline marray_f & operator=(marray_f &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray_f() BCL_ALWAYS_INLINE {
-- 
2.43.0


From 2e9899a9e05a2e6c34e0f7102a266f1c2dce78f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 29/57] fix: marray_f with one dimension wrote out of bounds

---
 include/bcl/marray_f.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index bf549f3..d00bf42 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -43,6 +43,10 @@ class marray_f {
   /// Allocate memory according to sizes stored in mDims.
   void allocate() {
     auto FullSize = mDims[Size - 1];
+    if (Size == 1) {
+      mData = new Ty [FullSize];
+      return;
+    }
     mOffset[Size - 2] = mDims[Size - 1];
     for (int I = Size - 2; I > 0; --I) {
       FullSize *= mDims[I];
-- 
2.43.0


From eb2f6e6a953a9453828795d641b350df399a8b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 30/57] fix: value and difference types of IteratorDataAdaptor
 were exchanged

---
 include/bcl/IteratorDataAdaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/IteratorDataAdaptor.h b/include/bcl/IteratorDataAdaptor.h
index 4efd422..6fb1be9 100644
--- a/include/bcl/IteratorDataAdaptor.h
+++ b/include/bcl/IteratorDataAdaptor.h
@@ -42,8 +42,8 @@ namespace bcl {
 /// instead of a reference.
 template<class ItrTy, class DataTy, class Ty, class PtrTy = Ty *>
 struct IteratorDataAdaptor : public std::iterator<
-      typename std::iterator_traits<ItrTy>::iterator_category,
-      typename std::iterator_traits<ItrTy>::difference_type, Ty, PtrTy, Ty> {
+      typename std::iterator_traits<ItrTy>::iterator_category, Ty,
+      typename std::iterator_traits<ItrTy>::difference_type, PtrTy, Ty> {
   static_assert(std::is_constructible<Ty,
     typename std::iterator_traits<ItrTy>::reference, DataTy>::value,
     "Wrapper must point to a value which is constructible from (*ItrTy, DataTy)!");
-- 
2.43.0


From 2c656c46422f17da14b756bd1f60537d1015ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 31/57] fix: binary literals of more than 31 digits were wrong
 or did not compile

---
 include/bcl/utility.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index b2ee789..a460f3a 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -83,7 +83,8 @@ template <char HighBit, char... Bits>
 struct ToBinary<HighBit, Bits...> {
   static_assert(HighBit == '0' || HighBit == '1', "Not a binary value!");
   static const unsigned long long Value =
-    (HighBit - '0') << (sizeof...(Bits)) | ToBinary<Bits...>::Value;
+    static_cast<unsigned long long>(HighBit - '0') << (sizeof...(Bits)) |
+    ToBinary<Bits...>::Value;
 };
 
 /// Implementation of a user-defined binary-literal.
-- 
2.43.0


From 4a6f5b692f4934e9cc41e8541d53d75a17d1d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 32/57] fix: shrinkPair read out of bounds of values smaller
 than a half of the target

---
 include/bcl/utility.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index a460f3a..e0347b7 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -357,15 +357,16 @@ template<typename T> void swapMemory(T &LObj, T &RObj) {
 /// return true on success.
 template<class FirstT, class SecondT, class T> bool shrinkPair(
     const FirstT &First, const SecondT &Second, T &Out) {
-  char RawFirst[sizeof(FirstT)], RawSecond[sizeof(SecondT)];
   constexpr auto SizeOfT = sizeof(T);
   constexpr auto HalfSizeOfT = SizeOfT / 2;
-  std::memset(RawFirst, 0, sizeof(FirstT));
+  char RawFirst[sizeof(FirstT) + HalfSizeOfT];
+  char RawSecond[sizeof(SecondT) + HalfSizeOfT];
+  std::memset(RawFirst, 0, sizeof(RawFirst));
   new(RawFirst) FirstT(First);
   for (std::size_t I = HalfSizeOfT; I < sizeof(FirstT) ; ++I)
     if (RawFirst[I] != 0)
       return false;
-  std::memset(RawSecond, 0, sizeof(SecondT));
+  std::memset(RawSecond, 0, sizeof(RawSecond));
   new(RawSecond) SecondT(Second);
   for (std::size_t I = HalfSizeOfT; I < sizeof(SecondT); ++I)
     if (RawSecond[I] != 0)
-- 
2.43.0


From 938d2a4a23a49965bdbd0863e6c5c3ac8278da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 33/57] fix: lexer: backslash escapes the next character of a
 string

---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index aae7f4e..b2761e9 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -357,7 +357,7 @@ enum class Token : char {
   COMMA = ',',
   COLON = ':',
   QUOTE = '"',
-  ESCAPE = '/',
+  ESCAPE = '\\',
   DOT = '.',
   PLUS = '+',
   MINUS = '-',
@@ -468,7 +468,9 @@ public:
     mStart = mEnd = mNext;
     if (isQuote(mJSON[mNext])) {
       for (++mNext; mNext < mJSON.size(); ++mNext) {
-        if (isQuote(mJSON[mNext]) && !isEscape(mJSON[mNext - 1])) {
+        if (isEscape(mJSON[mNext])) {
+          ++mNext;
+        } else if (isQuote(mJSON[mNext])) {
           mEnd = mNext++;
           mToken = Token::IDENTIFIER;
           return true;
-- 
2.43.0


From 5f519e056f1613462405dddfd308b75a6ff3e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 34/57] fix: lexer: a letter outside of a string is not a
 number, identifier or keyword

---
 include/bcl/Json.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b2761e9..3c94873 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -513,6 +513,9 @@ public:
             return false;
           }(mJSON.data() + mNext)})
         return true;
+      // Letters are also used to encode tokens (see Token::NUMBER).
+      mEnd = mNext++;
+      return true;
     }
     mEnd = mNext;
     mToken = static_cast<Token>(mJSON[mStart]);
-- 
2.43.0


From b7664c13852d16e6d10cca7a1d409718c61180d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 35/57] fix: lexer: restorePosition() restores the whole token
 and releases the stored position

---
 include/bcl/Json.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 3c94873..8bea273 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -436,14 +436,15 @@ class Lexer: private bcl::Uncopyable {
 
   /// State of a lexer.
   struct State {
-    State(Position S, Position E, Position N, Token T, bool IsInt) :
-      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt) {}
+    State(Position S, Position E, Position N, Token T, bool IsInt, Keyword K) :
+      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt), mKeyword(K) {}
 
     Position mStart = 0;
     Position mEnd = 0;
     Position mNext = 0;
     Token mToken;
     bool mIsIntegral = false;
+    Keyword mKeyword = Keyword::NO_VALUE;
   };
 
 public:
@@ -597,7 +598,8 @@ public:
   /// Saves the current position in an internal stack, it can be restored with
   /// restorePosition() method.
   void storePosition() {
-    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral));
+    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral,
+      mKeyword));
   }
 
   /// Restores the last stored position. If there is no stored positions do
@@ -610,6 +612,8 @@ public:
     mNext = mStates.top().mNext;
     mToken = mStates.top().mToken;
     mIsIntegral = mStates.top().mIsIntegral;
+    mKeyword = mStates.top().mKeyword;
+    mStates.pop();
   }
 
   /// \brief Returns start position of a current token in the JSON string.
-- 
2.43.0


From ab1c53d056962c54eb9b447842649e4dfc03619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 36/57] fix: lexer: no token before the first one has been read

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 8bea273..17ccc67 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -673,7 +673,7 @@ private:
   Position mStart = 0;
   Position mEnd = 0;
   Position mNext = 0;
-  Token mToken;
+  Token mToken = Token::INVALID;
   bool mIsIntegral = false;
   Keyword mKeyword = Keyword::NO_VALUE;
   std::stack<State> mStates;
-- 
2.43.0


From 575c3bc3f4f35298b29ed37cf2284b2246cb26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 37/57] fix: Json: the name of an object is found behind a
 nested value

---
 include/bcl/Json.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 17ccc67..b3bad96 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1026,10 +1026,12 @@ private:
         mNameEnd = mLex.end();
         return true;
       }
-      if (((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) &&
-           !mLex.skipInternal()) ||
-          !mLex.checkValue())
+      if (mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) {
+        if (!mLex.skipInternal())
+          return false;
+      } else if (!mLex.checkValue()) {
         return false;
+      }
       if (!mLex.goToNext())
         return false;
       if (mLex.is(Token::RIGHT_BRACE) && mLex.next() < mLex.json().size())
-- 
2.43.0


From 7dc844de3ea241664e9f09fa30d0f421899c8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 38/57] fix: Json: nested value of an unknown key is skipped
 when a map is parsed

---
 include/bcl/Json.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b3bad96..87277a1 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1744,7 +1744,12 @@ template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
       std::pair<Position, Position> Key) {
     detail::ParseCellFunctor Parse(Key, Lex);
     Dest.for_each(Parse);
-    return !Parse.hasError();
+    if (Parse.hasError())
+      return false;
+    // Value of an unknown key has not been parsed.
+    if (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET))
+      return Lex.skipInternal();
+    return true;
   }
   inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
     detail::UnparseCellFunctor Unparse(JSON);
-- 
2.43.0


From 4ab1dcce454ad665205e8d7d9bbf7016097fc84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 39/57] fix: unescape() stays inside a string that ends with an
 escape sequence

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 87277a1..0b7bfc3 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1056,7 +1056,7 @@ template<> struct Traits<std::string> {
     std::string Res;
     Res.reserve(Str.length());
     auto I = Str.begin(), EI = Str.end() - 1;
-    while (I != EI) {
+    while (I < EI) {
       if (*I != '\\') {
         Res += *I;
         ++I;
-- 
2.43.0


From df65cd0099f70a6cc11840dd37228a84d005fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 40/57] fix: a character is parsed from its token, not from the
 text at the position given by its code

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 0b7bfc3..bff7898 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1116,7 +1116,7 @@ template<> struct Traits<char> {
       Lex.json().substr(Value.first, Value.second - Value.first + 1));
     if (Tmp.size() != 1)
       return false;
-    Dest = Lex.json()[Tmp.front()];
+    Dest = Tmp.front();
     return true;
   }
   inline static void unparse(String &JSON, char Obj) {
-- 
2.43.0


From 17a64a4ae05f724b118b2c207f0017dcdbd54cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 41/57] fix: a character is written between quotes instead of
 the sum of their codes

---
 include/bcl/Json.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index bff7898..b7bb8d5 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1121,7 +1121,9 @@ template<> struct Traits<char> {
   }
   inline static void unparse(String &JSON, char Obj) {
     auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
+    JSON += '"';
+    JSON += Obj;
+    JSON += '"';
     Traits<std::string>::escape(JSON, I);
   }
 };
-- 
2.43.0


From d148e260e767aaf24dc9b9f2cf9556396830ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 42/57] fix: reject a number that does not fit into unsigned

Traits<unsigned>::parse() silently truncated the result of std::stoul(),
so 4294967296 was accepted as 0.
---
 include/bcl/Json.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b7bb8d5..4027b60 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1184,7 +1184,10 @@ template<> struct Traits<unsigned> {
     try {
       std::string Str;
       Traits<std::string>::parse(Str, Lex);
-      Dest = static_cast<unsigned>(std::stoul(Str));
+      auto Value = std::stoul(Str);
+      if (Value != static_cast<unsigned>(Value))
+        return false;
+      Dest = static_cast<unsigned>(Value);
     }
     catch (...) {
       return false;
-- 
2.43.0


From a3deceeb99fecc0117cf9c06d57f0fae8ccb658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 43/57] fix: fail if a value of std::optional can not be parsed

The result of the parser of the underlying type was ignored, so an
uninitialised value was stored and success was reported.
---
 include/bcl/Json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 4027b60..f49a228 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1873,7 +1873,8 @@ template<class T> struct Traits<std::optional<T>> {
         Dest.reset();
       } else {
         T Tmp;
-        Traits<T>::parse(Tmp, Lex);
+        if (!Traits<T>::parse(Tmp, Lex))
+          return false;
         Dest = std::move(Tmp);
       }
     }
-- 
2.43.0


From da6693baf4f88ae377467174cad18b42664708a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 44/57] fix: release arrays with delete[] if JSON can not be
 converted

Traits<Ty *>::parse() and Traits<char *>::parse() released memory
allocated by new[] with delete.
---
 include/bcl/Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index f49a228..7ad3be3 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1321,7 +1321,7 @@ template<> struct Traits<char *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
@@ -1334,7 +1334,7 @@ template<> struct Traits<char *> {
         TmpDest[Unescaped.length()] = '\0';
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     }
@@ -1397,7 +1397,7 @@ template<class Ty> struct Traits<Ty *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
-- 
2.43.0


From e93cd8f035e68c45979a49a7b80ee52d8821280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 45/57] fix: fail if a key of a map or multimap can not be
 converted

The result of the conversion was ignored, an element with an
uninitialised key was inserted.
---
 include/bcl/Json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 7ad3be3..c59ab21 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1576,8 +1576,10 @@ struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsKeyParsed = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsKeyParsed)
+      return false;
     auto Pair = Dest.emplace(KeyValue, Ty());
     if (!Pair.second) {
       Lex.errors().insert(JSON_ERROR(8), Lex.start());
@@ -1629,8 +1631,10 @@ struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsKeyParsed = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsKeyParsed)
+      return false;
     auto Itr = Dest.emplace(KeyValue, Ty());
     if (Itr == Dest.end())
       return false;
-- 
2.43.0


From 20829463207cd3c0e2750954a6fe8bf5328ec0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 46/57] fix: unparse a vector whose elements have no text as {}

The opening brace was taken for a delimiter and removed (the assertion
failed in debug builds).
---
 include/bcl/Json.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index c59ab21..c193698 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1507,8 +1507,9 @@ struct Traits<std::vector<Ty, Allocator>> {
           Traits<unsigned long long>::unparse(JSON, I);
           JSON += "\":" + Values[I] + ",";
         }
-        assert(JSON.back() == ',' && "A delimiter must be a comma!");
-        JSON.erase(JSON.size() - 1);
+        // There is no delimiter if all values are empty.
+        if (JSON.back() == ',')
+          JSON.erase(JSON.size() - 1);
         JSON += '}';
       } else {
         JSON += '[';
-- 
2.43.0


From d138ac6175e3b0307ce3248d8fa6927fb479e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 47/57] fix: JSON_OBJECT_ROOT_PAIR accepts a type with commas
 like all the other macros

---
 include/bcl/JsonObjectMacros.h   | 2 +-
 scripts/json_object_macro_gen.pl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/JsonObjectMacros.h b/include/bcl/JsonObjectMacros.h
index 7c2255a..5d878a3 100644
--- a/include/bcl/JsonObjectMacros.h
+++ b/include/bcl/JsonObjectMacros.h
@@ -298,7 +298,7 @@
   JSON_ACCESS_30(Object_, Name_1_, Name_2_, Name_3_, Name_4_, Name_5_, Name_6_, Name_7_, Name_8_, Name_9_, Name_10_, Name_11_, Name_12_, Name_13_, Name_14_, Name_15_, Name_16_, Name_17_, Name_18_, Name_19_, Name_20_, Name_21_, Name_22_, Name_23_, Name_24_, Name_25_, Name_26_, Name_27_, Name_28_, Name_29_, Name_30_)
 
 #define JSON_OBJECT_ROOT_PAIR(Object_, Name_, Type_) \
-  JSON_VALUE(Name_, Type_) \
+  JSON_VALUE(Name_, BCL_JOIN(Type_)) \
   JSON_OBJECT_ROOT(Object_, Name_) \
   JSON_ACCESS(Object_, Name_)
 #define JSON_OBJECT_ROOT_PAIR_2(Object_, Name_1_, Type_1_, Name_2_, Type_2_) \
diff --git a/scripts/json_object_macro_gen.pl b/scripts/json_object_macro_gen.pl
index bdb06be..b93d50f 100644
--- a/scripts/json_object_macro_gen.pl
+++ b/scripts/json_object_macro_gen.pl
@@ -70,7 +70,7 @@ EOS
 print <<EOS;
 
 #define JSON_OBJECT_ROOT_PAIR(Object_, Name_, Type_) \\
-  JSON_VALUE(Name_, Type_) \\
+  JSON_VALUE(Name_, BCL_JOIN(Type_)) \\
   JSON_OBJECT_ROOT(Object_, Name_) \\
   JSON_ACCESS(Object_, Name_)
 EOS
-- 
2.43.0


From 052e20a2b75e23551ade8b2e0c70b1116fb863a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 48/57] fix: Diagnostic.h includes what declares std::snprintf

---
 include/bcl/Diagnostic.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 79beb0c..51412dc 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -28,6 +28,7 @@
 #ifndef BCL_DIAGNOSTIC_H
 #define BCL_DIAGNOSTIC_H
 
+#include <cstdio>
 #include <cstring>
 #include <memory>
 #include <vector>
-- 
2.43.0


From 60981a263fa26188f0af1e5106a080c1413cd45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 49/57] fix: Equation.h includes what declares std::array and
 std::abs

---
 include/bcl/Equation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index e35056d..f56b144 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -26,9 +26,12 @@
 #define BCL_EQUATION_H
 
 #include <assert.h>
+#include <array>
+#include <cstdlib>
 #include <numeric>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 namespace milp {
-- 
2.43.0


From 3ef0ea2bf9f3ec24d6f39b6dab147acd46d348fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 50/57] fix: Json.h includes what declares std::uintmax_t

---
 include/bcl/Json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index c193698..4251580 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -228,6 +228,7 @@
 #include "Diagnostic.h"
 #include "utility.h"
 #include <cctype>
+#include <cstdint>
 #include <map>
 #include <memory>
 #include <optional>
-- 
2.43.0


From 8c2b57c04eb19bdd3047d2cfd5f0dab3b0c93c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 51/57] fix: ValuePtrWrapper.h includes what declares
 std::forward

---
 include/bcl/ValuePtrWrapper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bcl/ValuePtrWrapper.h b/include/bcl/ValuePtrWrapper.h
index 13916e4..dffd570 100644
--- a/include/bcl/ValuePtrWrapper.h
+++ b/include/bcl/ValuePtrWrapper.h
@@ -25,6 +25,8 @@
 #ifndef BCL_VALUE_PTR_WRAPPER_H
 #define BCL_VALUE_PTR_WRAPPER_H
 
+#include <utility>
+
 namespace bcl {
 /// This is a wrapper for a value of a specified type `T` which knows a pointer
 /// referenced this value.
-- 
2.43.0


From 1e31df400f8790df14d41d61d462871ef10b62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 52/57] fix: CSocket.h includes what declares uint8_t and
 std::string

---
 include/bcl/CSocket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bcl/CSocket.h b/include/bcl/CSocket.h
index 7d76c49..bfa7b92 100644
--- a/include/bcl/CSocket.h
+++ b/include/bcl/CSocket.h
@@ -36,7 +36,9 @@
 #define BCL_C_SOCKET_H
 
 #include <bcl/Socket.h>
+#include <cstdint>
 #include <functional>
+#include <string>
 
 namespace bcl {
 namespace net {
-- 
2.43.0


From b35b6f5a24678fb4705ad522098f795dfeb6db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 53/57] fix: guard_size(), inverse_size() and computed_size()
 return the size

---
 include/bcl/Equation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index f56b144..3a37204 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -146,7 +146,7 @@ public:
     return guard_const_range{guard_begin(), guard_end()};
   }
 
-  std::size_t guard_size() const noexcept { mGuards.second; }
+  std::size_t guard_size() const noexcept { return mGuards.second; }
 
   using inverse_iterator = typename InverseGuardList::iterator;
   using inverse_range = Range<inverse_iterator>;
@@ -179,7 +179,7 @@ public:
     return inverse_const_range{inverse_begin(), inverse_end()};
   }
 
-  std::size_t inverse_size() const noexcept { mInverseGuards.second; }
+  std::size_t inverse_size() const noexcept { return mInverseGuards.second; }
 
   using computed_iterator = typename ComputedMonomList::iterator;
   using computed_range = Range<computed_iterator>;
@@ -213,7 +213,7 @@ public:
     return computed_const_range{computed_begin(), computed_end()};
   }
 
-  std::size_t computed_size() const noexcept { mComputedMonoms.second; }
+  std::size_t computed_size() const noexcept { return mComputedMonoms.second; }
 
 private:
   std::pair<GuardList, std::size_t> mGuards = {{}, 0};
-- 
2.43.0


From 87d267fdc073cca5c64d9bd5ed84f05ee9227a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 54/57] fix: instantiated equations are the first ones in the
 storage, where instantiated_begin() expects them

---
 include/bcl/Equation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 3a37204..a24f47e 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -526,7 +526,7 @@ public:
         ++I;
       } else {
         --mInstantiatedSize;
-        std::swap(mIdx[I], mIdx[mInstantiatedSize]);
+        std::swap(mRows[mIdx[I]], mRows[mIdx[mInstantiatedSize]]);
       }
     }
   }
-- 
2.43.0


From 4da8d778efd0ae582fa17a508c11eeae6841f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 55/57] fix: reverseSolution() multiplies values in their own
 type

---
 include/bcl/Equation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index a24f47e..aa64285 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -470,7 +470,8 @@ public:
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       std::swap(Divisors[0], Divisors[I]);
       auto Production = std::accumulate(
-        Divisors.begin() + 1, Divisors.end(), 1, std::multiplies<ColumnT>());
+        Divisors.begin() + 1, Divisors.end(), ValueT(1),
+        std::multiplies<ValueT>());
       auto &S = mSolution[I];
       Production *= (S.RHS.Value * Production  <  0) ? -1 : 1;
       S.LHS.Value *= Production;
-- 
2.43.0


From 07422f0e1346c7532ea5980588d1e4b36c4524fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 56/57] fix: the least constant of a solution is a value, not a
 column

---
 include/bcl/Equation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index aa64285..f6bc6c7 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -487,7 +487,7 @@ public:
   /// computed solution have non-negative free terms.
   template <class ColumnInfoT>
   void solutioWithPositiveConstant(ColumnInfoT &Info) {
-    ColumnT Min = 0;
+    ValueT Min = 0;
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       if (mSolution[I].Constant < Min)
         Min = mSolution[I].Constant;
-- 
2.43.0


From 58492824989dc0f4b89196adad133518e5667db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 57/57] fix: printInstantiated() asks for values of computed
 monomials with their type

---
 include/bcl/Equation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index f6bc6c7..f675393 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -549,7 +549,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
     OS << "--- discarded ---\n";
@@ -567,7 +567,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
   }
-- 
2.43.0

