From f72299a3155900ac6243393665f73cbc74560c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:03 +0000
Subject: [PATCH 01/86] fix: TransparentQueue assignment and swap

Both assignment operators fell off their end (undefined behaviour), lost the
old storage and corrupted the queue on self-assignment; a moved-from queue kept
a stale pointer which pop() returned; swap() did not
compile: it named a nonexistent member and bound a bit-field to a reference.
---
 include/bcl/transparent_queue.h | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 64d367d..d85c908 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -67,12 +67,9 @@ public:
 
   /// Copy assignment.
   TransparentQueue & operator=(const TransparentQueue &TQ) {
-    mIsSingle = TQ.mIsSingle;
-    mIsEmpty = TQ.mIsEmpty;
-    if (mIsSingle)
-      mValue = TQ.mValue;
-    else
-      mQueue = new Container(*TQ.mQueue);
+    TransparentQueue Tmp(TQ);
+    swap(Tmp);
+    return *this;
   }
 
   /// Move constructor.
@@ -81,15 +78,14 @@ public:
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    TQ.mValue = nullptr;
   }
 
   /// Move assignment.
   TransparentQueue & operator=(TransparentQueue &&TQ) {
-    mIsSingle = TQ.mIsSingle;
-    mIsEmpty = TQ.mIsEmpty;
-    std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
-    TQ.mIsSingle = true;
-    TQ.mIsEmpty = true;
+    TransparentQueue Tmp(std::move(TQ));
+    swap(Tmp);
+    return *this;
   }
 
   /// Removes allocated memory if it is necessary.
@@ -177,7 +173,9 @@ public:
     if (mIsSingle) {
       if (TQ.mIsSingle) {
         std::swap(mValue, TQ.mValue);
-        std::swap(mIsEmpty, TQ.mIsEmpty);
+        bool IsEmpty = mIsEmpty;
+        mIsEmpty = TQ.mIsEmpty;
+        TQ.mIsEmpty = IsEmpty;
       } else {
         Ty *Tmp = mValue;
         mIsSingle = false;
@@ -188,14 +186,14 @@ public:
       }
     } else {
       if (TQ.mIsSingle) {
-        Ty *Tmp = TQ.Value;
+        Ty *Tmp = TQ.mValue;
         TQ.mIsSingle = false;
         TQ.mQueue = mQueue;
         mIsSingle = true;
         mIsEmpty = TQ.mIsEmpty;
         mValue = Tmp;
       } else {
-        mQueue->swap(TQ.mQueue);
+        mQueue->swap(*TQ.mQueue);
       }
     }
   }
-- 
2.43.0


From b0ed37df5d85b611e880f582a698e6b9bef8f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:03 +0000
Subject: [PATCH 02/86] fix: TransparentQueue::emplace on an empty queue
 inserts one element

It used to push the stale single value in front of the new element.
---
 include/bcl/transparent_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index d85c908..5b8133b 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -152,6 +152,10 @@ public:
   /// Pushes new element to the end of the queue.
   template<class... ArgTy> void emplace(ArgTy&&... Args) {
     if (mIsSingle) {
+      if (mIsEmpty) {
+        push(value_type{Args...});
+        return;
+      }
       mIsSingle = false;
       Ty *Current = mValue;
       mQueue = new Container();
-- 
2.43.0


From f18f80dd4c1d3f41144983ddbb3fcdaffbe2378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:58 +0000
Subject: [PATCH 03/86] fix: IntrusiveConnection does not touch a freed status
 on closing

The destructor and answer() set mReject, released the lock and only then
notified. The peer side could observe mReject and free the status before.
---
 include/bcl/IntrusiveConnection.h | 501 +++++++++++++++---------------
 1 file changed, 251 insertions(+), 250 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index c22fa0c..8ef9b3b 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -1,250 +1,251 @@
-//===- IntrusiveConnection.h -- Intrusive Connection ------------*- C++ -*-===//
-//
-//                       Base Construction Library (BCL)
-//
-// Copyright 2018 Nikita Kataev
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-// http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-//===----------------------------------------------------------------------===//
-//
-// This file proposes intrusive connection between client and server.
-// Connection is intrusive because a server sends data to a client only when
-// it receive a request and a new request can be received only when the
-// previous one has been responded. It looks like this:
-//                          Client           Server
-//                            Request ->
-//                                    <- Response
-//                            Request ->
-//                                    <- Response
-//
-// There are two main functions:
-// - IntrusiveConnection::connect() starts connection;
-// - IntrusiveConnection::answer() answers a request.
-// Note that InstrusiveConnection can not be copied only move operations are
-// supported. This is due to the fact that when InstrusiveConnection is
-// destructed a connection will be automatically closed and all subsequent
-// requests is going to be rejected (client will receive
-// InstrusiveConnection::Reject response).
-//
-// Usage:
-//  void foo(bcl::IntrusiveConnection C) {
-//    do {
-//      C.answer([](const std::string &Request) {
-//         /* Answer a request */
-//      });
-//    } while (/*Exit if any requests are expected.*/);
-//  }
-//
-//  template<>
-//  void bcl::createServer<std::string>(const Socket<std::string> *S) {
-//    IntrusiveConnection::connect(S, '\0', foo);
-//}
-//
-//===----------------------------------------------------------------------===//
-
-#ifndef BCL_INTRUSIVE_CONNECTION_H
-#define BCL_INTRUSIVE_CONNECTION_H
-
-#include "Socket.h"
-#include <condition_variable>
-#include <mutex>
-#include <queue>
-#include <sstream>
-#include <thread>
-
-namespace bcl {
-/// Intrusive connection between client and server (look at the file beginning
-/// for details.
-class IntrusiveConnection {
-  struct Status {
-    std::mutex mReceiveMutex, mSendMutex;
-    std::condition_variable mReceiveEvent, mSendEvent;
-    std::string mReceiveData, mSendData;
-    bool mIsReceive = false, mIsSend = false, mClose = false, mReject = false;
-  };
-
-  explicit IntrusiveConnection(Status *I) : mStatus(I) {}
-
-public:
-  /// This response is going to be set if connection is closed but request
-  /// has been received.
-  struct Reject {
-    operator const std::string & () {
-      static const std::string Code = "REJECT";
-      return Code;
-    }
-  };
-
-  IntrusiveConnection(const IntrusiveConnection &) = delete;
-  IntrusiveConnection & operator=(const IntrusiveConnection &) = delete;
-
-  /// Move constructor.
-  IntrusiveConnection(IntrusiveConnection &&C) : mStatus(C.mStatus) {
-    C.mStatus = nullptr;
-  }
-
-  /// Move assignment.
-  IntrusiveConnection & operator=(IntrusiveConnection &&C) {
-    if (this == &C)
-      return *this;
-    mStatus = C.mStatus;
-    C.mStatus = nullptr;
-  }
-
-  /// Destructor.
-  ~IntrusiveConnection() {
-    if (!mStatus)
-      return;
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-      mStatus->mReject = true;
-    }
-    mStatus->mSendEvent.notify_one();
-  }
-
-  /// \brief Receives a request, evaluates it and sends response.
-  ///
-  /// \param [in] F A function with prototype std::string(const std::string &).
-  /// A parameter is a request and a return value is a response.
-  /// \return true on success, otherwise returns false. If this function
-  /// returns false then function 'F' has not been invoked, connection
-  /// is broken and socket is closed.
-  template<class Function> bool answer(Function F) {
-    if (!mStatus)
-      return false;
-    std::string Data;
-    bool Close = false;
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mReceiveMutex);
-      mStatus->mReceiveEvent.wait(Lock,
-        [this] { return mStatus->mIsReceive || mStatus->mClose; });
-      Close = mStatus->mClose;
-      Data = mStatus->mReceiveData;
-      mStatus->mReceiveData.clear();
-      mStatus->mIsReceive = false;
-    }
-    if (Close) {
-      {
-        std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-        mStatus->mReject = true;
-      }
-      mStatus->mSendEvent.notify_one();
-      mStatus = nullptr;
-      return false;
-    }
-    Data = F(Data);
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-      mStatus->mSendData = Data;
-      mStatus->mIsSend = true;
-    }
-    mStatus->mSendEvent.notify_one();
-    return true;
-  }
-
-  /// \brief Starts connection.
-  ///
-  /// \param [in] S Socket which provides connection.
-  /// \param [in] Delimiter This separates different requests.
-  /// \param [in, out] F Implementation of a server with prototype
-  /// void(IntrusiveConnection, ArgsTy...)
-  /// \param [in, out] Args Arguments which will be passed to F when server
-  /// is be started.
-  ///
-  /// Sometimes multiple requests may be joined. If a client send:
-  /// 'foo' then 'bar', the server may receive two different requests 'foo' then
-  /// 'bar' or a single request 'foobar'. To avoid the last case the Delimiter
-  /// parameter can be used.
-  /// For example, if it is known that a client uses '$' to separate different
-  /// requests ('foo$' then 'bar$'), it is possible to set Delimiter parameter
-  /// to '$'. Note that the delimiter also used when server sends responses
-  /// (even for REJECT response), so it will send 'response to foo$' then
-  /// 'response to bar$'. To avoid use of delimiters set Delimiter parameter
-  /// to '\0'.
-  template<class Function, class... ArgsTy>
-  static void connect(const bcl::Socket<std::string> *S,
-      char Delimiter, Function &&F, ArgsTy&&... Args) {
-    auto CS = new Status;
-    std::thread Engine(std::forward<Function>(F),
-      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
-    Engine.detach();
-    auto *Reject = new bool(false);
-    S->closed([Reject, CS](bool) {
-      if (!*Reject) {
-        {
-          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
-          CS->mClose = true;
-        }
-        CS->mReceiveEvent.notify_one();
-        {
-          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
-          CS->mSendEvent.wait(Lock, [CS] { return CS->mReject; });
-        }
-        delete CS;
-      }
-      delete Reject;
-    });
-    // It is not possible to store socket S in connection status CS, because
-    // when CS will be deleted it is necessary to access S to send REJECT
-    // response.
-    S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      if (*Reject) {
-        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        return;
-      }
-      std::queue<std::string> Buffer;
-      std::stringstream IS(Request);
-      std::string Item;
-      while (std::getline(IS, Item, Delimiter) && !IS.eof())
-        Buffer.push(Item);
-      // If there is no delimiter after last not empty string than this
-      // substring will be treated as a separate request.
-      // The last empty substring will be ignored.
-      if (!Item.empty())
-        Buffer.push(Item);
-      while (!Buffer.empty()) {
-        {
-          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
-          CS->mIsReceive = true;
-          CS->mReceiveData = Buffer.front();
-        }
-        CS->mReceiveEvent.notify_one();
-        Buffer.pop();
-        std::string Data;
-        {
-          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
-          CS->mSendEvent.wait(Lock,
-            [CS] { return CS->mIsSend || CS->mReject; });
-          // If CS->mReject is true, it is possible that there are some data,
-          // that have not been sent yet, so check it.
-          Data = CS->mIsSend ? CS->mSendData : IntrusiveConnection::Reject();
-          *Reject = CS->mReject;
-          CS->mSendData.clear();
-          CS->mIsSend = false;;
-        }
-        S->send(Data + Delimiter);
-        if (*Reject) {
-          delete CS;
-          break;
-        }
-      }
-    });
-  }
-
-private:
-  Status *mStatus;
-};
-}
-
-#endif//BCL_INTRUSIVE_CONNECTION_H
+//===- IntrusiveConnection.h -- Intrusive Connection ------------*- C++ -*-===//
+//
+//                       Base Construction Library (BCL)
+//
+// Copyright 2018 Nikita Kataev
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//===----------------------------------------------------------------------===//
+//
+// This file proposes intrusive connection between client and server.
+// Connection is intrusive because a server sends data to a client only when
+// it receive a request and a new request can be received only when the
+// previous one has been responded. It looks like this:
+//                          Client           Server
+//                            Request ->
+//                                    <- Response
+//                            Request ->
+//                                    <- Response
+//
+// There are two main functions:
+// - IntrusiveConnection::connect() starts connection;
+// - IntrusiveConnection::answer() answers a request.
+// Note that InstrusiveConnection can not be copied only move operations are
+// supported. This is due to the fact that when InstrusiveConnection is
+// destructed a connection will be automatically closed and all subsequent
+// requests is going to be rejected (client will receive
+// InstrusiveConnection::Reject response).
+//
+// Usage:
+//  void foo(bcl::IntrusiveConnection C) {
+//    do {
+//      C.answer([](const std::string &Request) {
+//         /* Answer a request */
+//      });
+//    } while (/*Exit if any requests are expected.*/);
+//  }
+//
+//  template<>
+//  void bcl::createServer<std::string>(const Socket<std::string> *S) {
+//    IntrusiveConnection::connect(S, '\0', foo);
+//}
+//
+//===----------------------------------------------------------------------===//
+
+#ifndef BCL_INTRUSIVE_CONNECTION_H
+#define BCL_INTRUSIVE_CONNECTION_H
+
+#include "Socket.h"
+#include <condition_variable>
+#include <mutex>
+#include <queue>
+#include <sstream>
+#include <thread>
+
+namespace bcl {
+/// Intrusive connection between client and server (look at the file beginning
+/// for details.
+class IntrusiveConnection {
+  struct Status {
+    std::mutex mReceiveMutex, mSendMutex;
+    std::condition_variable mReceiveEvent, mSendEvent;
+    std::string mReceiveData, mSendData;
+    bool mIsReceive = false, mIsSend = false, mClose = false, mReject = false;
+  };
+
+  explicit IntrusiveConnection(Status *I) : mStatus(I) {}
+
+public:
+  /// This response is going to be set if connection is closed but request
+  /// has been received.
+  struct Reject {
+    operator const std::string & () {
+      static const std::string Code = "REJECT";
+      return Code;
+    }
+  };
+
+  IntrusiveConnection(const IntrusiveConnection &) = delete;
+  IntrusiveConnection & operator=(const IntrusiveConnection &) = delete;
+
+  /// Move constructor.
+  IntrusiveConnection(IntrusiveConnection &&C) : mStatus(C.mStatus) {
+    C.mStatus = nullptr;
+  }
+
+  /// Move assignment.
+  IntrusiveConnection & operator=(IntrusiveConnection &&C) {
+    if (this == &C)
+      return *this;
+    mStatus = C.mStatus;
+    C.mStatus = nullptr;
+  }
+
+  /// Destructor.
+  ~IntrusiveConnection() {
+    if (!mStatus)
+      return;
+    // Notify under the lock: the waiting side frees the status as soon as it
+    // observes mReject.
+    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+    mStatus->mReject = true;
+    mStatus->mSendEvent.notify_one();
+  }
+
+  /// \brief Receives a request, evaluates it and sends response.
+  ///
+  /// \param [in] F A function with prototype std::string(const std::string &).
+  /// A parameter is a request and a return value is a response.
+  /// \return true on success, otherwise returns false. If this function
+  /// returns false then function 'F' has not been invoked, connection
+  /// is broken and socket is closed.
+  template<class Function> bool answer(Function F) {
+    if (!mStatus)
+      return false;
+    std::string Data;
+    bool Close = false;
+    {
+      std::unique_lock<std::mutex> Lock(mStatus->mReceiveMutex);
+      mStatus->mReceiveEvent.wait(Lock,
+        [this] { return mStatus->mIsReceive || mStatus->mClose; });
+      Close = mStatus->mClose;
+      Data = mStatus->mReceiveData;
+      mStatus->mReceiveData.clear();
+      mStatus->mIsReceive = false;
+    }
+    if (Close) {
+      {
+        // Notify under the lock (look at the destructor for details).
+        std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+        mStatus->mReject = true;
+        mStatus->mSendEvent.notify_one();
+      }
+      mStatus = nullptr;
+      return false;
+    }
+    Data = F(Data);
+    {
+      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+      mStatus->mSendData = Data;
+      mStatus->mIsSend = true;
+    }
+    mStatus->mSendEvent.notify_one();
+    return true;
+  }
+
+  /// \brief Starts connection.
+  ///
+  /// \param [in] S Socket which provides connection.
+  /// \param [in] Delimiter This separates different requests.
+  /// \param [in, out] F Implementation of a server with prototype
+  /// void(IntrusiveConnection, ArgsTy...)
+  /// \param [in, out] Args Arguments which will be passed to F when server
+  /// is be started.
+  ///
+  /// Sometimes multiple requests may be joined. If a client send:
+  /// 'foo' then 'bar', the server may receive two different requests 'foo' then
+  /// 'bar' or a single request 'foobar'. To avoid the last case the Delimiter
+  /// parameter can be used.
+  /// For example, if it is known that a client uses '$' to separate different
+  /// requests ('foo$' then 'bar$'), it is possible to set Delimiter parameter
+  /// to '$'. Note that the delimiter also used when server sends responses
+  /// (even for REJECT response), so it will send 'response to foo$' then
+  /// 'response to bar$'. To avoid use of delimiters set Delimiter parameter
+  /// to '\0'.
+  template<class Function, class... ArgsTy>
+  static void connect(const bcl::Socket<std::string> *S,
+      char Delimiter, Function &&F, ArgsTy&&... Args) {
+    auto CS = new Status;
+    std::thread Engine(std::forward<Function>(F),
+      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
+    Engine.detach();
+    auto *Reject = new bool(false);
+    S->closed([Reject, CS](bool) {
+      if (!*Reject) {
+        {
+          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
+          CS->mClose = true;
+        }
+        CS->mReceiveEvent.notify_one();
+        {
+          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
+          CS->mSendEvent.wait(Lock, [CS] { return CS->mReject; });
+        }
+        delete CS;
+      }
+      delete Reject;
+    });
+    // It is not possible to store socket S in connection status CS, because
+    // when CS will be deleted it is necessary to access S to send REJECT
+    // response.
+    S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
+      if (*Reject) {
+        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+        return;
+      }
+      std::queue<std::string> Buffer;
+      std::stringstream IS(Request);
+      std::string Item;
+      while (std::getline(IS, Item, Delimiter) && !IS.eof())
+        Buffer.push(Item);
+      // If there is no delimiter after last not empty string than this
+      // substring will be treated as a separate request.
+      // The last empty substring will be ignored.
+      if (!Item.empty())
+        Buffer.push(Item);
+      while (!Buffer.empty()) {
+        {
+          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
+          CS->mIsReceive = true;
+          CS->mReceiveData = Buffer.front();
+        }
+        CS->mReceiveEvent.notify_one();
+        Buffer.pop();
+        std::string Data;
+        {
+          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
+          CS->mSendEvent.wait(Lock,
+            [CS] { return CS->mIsSend || CS->mReject; });
+          // If CS->mReject is true, it is possible that there are some data,
+          // that have not been sent yet, so check it.
+          Data = CS->mIsSend ? CS->mSendData : IntrusiveConnection::Reject();
+          *Reject = CS->mReject;
+          CS->mSendData.clear();
+          CS->mIsSend = false;;
+        }
+        S->send(Data + Delimiter);
+        if (*Reject) {
+          delete CS;
+          break;
+        }
+      }
+    });
+  }
+
+private:
+  Status *mStatus;
+};
+}
+
+#endif//BCL_INTRUSIVE_CONNECTION_H
-- 
2.43.0


From 951267700176e1e0b7b9fc387e85e59c981cb140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:58 +0000
Subject: [PATCH 04/86] fix: IntrusiveConnection move assignment closes the old
 connection

It fell off its end (undefined behaviour) and dropped the old connection, so
its peer waited forever.
---
 include/bcl/IntrusiveConnection.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 8ef9b3b..437e1c1 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -98,8 +98,9 @@ public:
   IntrusiveConnection & operator=(IntrusiveConnection &&C) {
     if (this == &C)
       return *this;
-    mStatus = C.mStatus;
-    C.mStatus = nullptr;
+    IntrusiveConnection Tmp(std::move(C));
+    std::swap(mStatus, Tmp.mStatus);
+    return *this;
   }
 
   /// Destructor.
-- 
2.43.0


From 767ec8fc1be6d2ce3a7abedb0e09fdf792fbae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 05/86] fix: reject each request after a server finished its
 work

If requests were received in a batch, a client got a single REJECT for the
whole batch or no response at all for a part of it.
---
 include/bcl/IntrusiveConnection.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 437e1c1..777e007 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -201,10 +201,6 @@ public:
     // when CS will be deleted it is necessary to access S to send REJECT
     // response.
     S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      if (*Reject) {
-        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        return;
-      }
       std::queue<std::string> Buffer;
       std::stringstream IS(Request);
       std::string Item;
@@ -216,6 +212,11 @@ public:
       if (!Item.empty())
         Buffer.push(Item);
       while (!Buffer.empty()) {
+        if (*Reject) {
+          S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+          Buffer.pop();
+          continue;
+        }
         {
           std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
           CS->mIsReceive = true;
@@ -236,10 +237,8 @@ public:
           CS->mIsSend = false;;
         }
         S->send(Data + Delimiter);
-        if (*Reject) {
+        if (*Reject)
           delete CS;
-          break;
-        }
       }
     });
   }
-- 
2.43.0


From f90c5e9198f05753d02f1e0080eeed3c62ef17fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 06/86] fix: CSocket delivers received data with zero bytes
 unchanged

A chunk was truncated at its first zero byte, so everything after it was lost
(requests may be separated by '\0').
---
 lib/Socket/CSocket/CSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 3f5415e..5d975ad 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -234,7 +234,7 @@ public:
       Buffer.get()[ReceivedInfo.first] = '\0';
       mOn(bcl::net::SocketStatus::Receive, mConnection);
       for (auto &Callback : mReceiveCallbacks)
-        Callback(std::string(Buffer.get()));
+        Callback(std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
         return 1;
-- 
2.43.0


From 161a2cbaec2d1fe283708ce845cdce6305abb184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 07/86] fix: CSocket sends the whole message and survives a
 closed peer

send() may accept a part of the message, the rest was lost. A peer which had
closed connection killed the whole server with SIGPIPE instead of SendError.
---
 lib/Socket/CSocket/CSocket.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 5d975ad..c32532c 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -173,7 +173,18 @@ static inline bool bindSocket(SocketT S, const AddressInfoT &AddressInfo) {
 }
 
 static inline bool sendData(SocketT S, const std::string &Message) {
-  return send(S, Message.c_str(), Message.length(), 0) >= 0;
+  auto Data = Message.data();
+  auto Size = Message.length();
+  // A part of the message may be sent only. Do not raise SIGPIPE if a peer has
+  // closed connection.
+  do {
+    auto SentSize = send(S, Data, Size, MSG_NOSIGNAL);
+    if (SentSize < 0)
+      return false;
+    Data += SentSize;
+    Size -= SentSize;
+  } while (Size > 0);
+  return true;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
-- 
2.43.0


From c3dc6f54345ef85b648488b9c393c554f0815b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 08/86] fix: CSocket allows to reuse a descriptor of a
 connection being closed

The system may give a descriptor to a new connection while the thread of the
previous one still runs its closed callbacks: the server aborted.
---
 lib/Socket/CSocket/CSocket.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index c32532c..a08e2f1 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -32,10 +32,10 @@
 #include <csignal>
 #include <chrono>
 #include <future>
+#include <list>
 #include <string>
 #include <thread>
 #include <vector>
-#include <unordered_map>
 
 #if _WIN32
 # include <ws2tcpip.h>
@@ -339,7 +339,7 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     return;
   }
   on(net::SocketStatus::Listen, Connection);
-  std::unordered_map<SocketT, std::future<int>> ActiveSockets;
+  std::list<std::future<int>> ActiveSockets;
   if (ConnectionMaxNumber == 0 || ConnectionMaxNumber > ActiveSockets.max_size())
     ConnectionMaxNumber = ActiveSockets.max_size();
   auto engine =
@@ -351,7 +351,7 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
   auto sanitizeConnections = [&ActiveSockets]() {
     auto Size = ActiveSockets.size();
     for (auto I = ActiveSockets.begin(), EI = ActiveSockets.end(); I != EI;) {
-      auto Status = I->second.wait_for(std::chrono::seconds(0));
+      auto Status = I->wait_for(std::chrono::seconds(0));
       if (Status == std::future_status::ready)
         I = ActiveSockets.erase(I);
       else
@@ -363,7 +363,7 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     if (ActiveSockets.size() == ConnectionMaxNumber) {
       while (!sanitizeConnections())
         std::this_thread::sleep_for(std::chrono::seconds(5));
-    } else if (ActiveSockets.size() > ConnectionMaxNumber / 2) {
+    } else {
       sanitizeConnections();
     }
     sockaddr_in ClientAddr;
@@ -386,14 +386,10 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
       inet_ntoa(ActualServerAddr.sin_addr), ntohs(ActualServerAddr.sin_port),
       inet_ntoa(ClientAddr.sin_addr), ntohs(ClientAddr.sin_port));
     on(net::SocketStatus::Accept, NewConnection);
-    auto EngineItr = ActiveSockets.emplace(std::piecewise_construct,
-      std::forward_as_tuple(ConnectionFD),
-      std::forward_as_tuple()).first;
-    assert(!EngineItr->second.valid() ||
-           EngineItr->second.wait_for(std::chrono::seconds(0))
-             == std::future_status::ready && "Unable to join thread!");
-    EngineItr->second = std::async(std::launch::async,
-      engine, ConnectionFD, std::move(NewConnection));
+    // Do not identify connections by descriptors: a descriptor may be already
+    // reused while its previous owner is still executing closed callbacks.
+    ActiveSockets.push_back(std::async(std::launch::async,
+      engine, ConnectionFD, std::move(NewConnection)));
   }
   closeAndLog(SocketFD, Connection);
   finalize();
-- 
2.43.0


From 89f452b769cc8393f8f848dd5b87c3b5c39b9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 09/86] fix: TraitSet::release() of an absent description
 returns nullptr

---
 include/bcl/trait.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1d5511b..1daf246 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -805,8 +805,9 @@ public:
   template<class Trait> TraitDataTy<Trait> * release() {
     auto constexpr Key = TraitDescriptor::template getKey<Trait>();
     auto I = mValues.find(Key);
-    auto *Result = I == mValues.end() ? nullptr :
-      reinterpret_cast<TraitDataTy<Trait>*>(I->second);
+    if (I == mValues.end())
+      return nullptr;
+    auto *Result = reinterpret_cast<TraitDataTy<Trait>*>(I->second);
     mValues.erase(I);
     return Result;
   }
-- 
2.43.0


From b945550bd44949153b26f67ed9bba113d7105083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 10/86] fix: TraitSet move assignment destroys replaced
 descriptions

---
 include/bcl/trait.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1daf246..31c159a 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -619,7 +619,15 @@ class TraitSet {
 public:
   TraitSet() = default;
   TraitSet(TraitSet &&) = default;
-  TraitSet & operator=(TraitSet &&) = default;
+  TraitSet & operator=(TraitSet &&TS) {
+    if (this != &TS) {
+      // Descriptions which have been stored in this set must be destroyed.
+      unset_all();
+      mValues = std::move(TS.mValues);
+      mTD = std::move(TS.mTD);
+    }
+    return *this;
+  }
 
   // This set manages memory allocation for a trait description, however,
   // it does not know how to copy this trait. Hence, only 'move' operations are
-- 
2.43.0


From 1b867d5c9728e3c85cb068eddb68f80d54a481b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 11/86] fix: TraitSet::set() keeps a description which is
 already stored

---
 include/bcl/trait.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 31c159a..0ab6622 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -767,7 +767,7 @@ public:
     auto constexpr Key = TraitDescriptor::template getKey<Trait>();
     auto I = mValues.find(Key);
     if (I != mValues.end()) {
-      if (I->second)
+      if (I->second && I->second != reinterpret_cast<void *>(T))
         delete reinterpret_cast<TraitDataTy<Trait>*>(I->second);
       I->second = reinterpret_cast<void *>(T);
       return;
-- 
2.43.0


From 886caf57394f7d366f5ceacd03207409108ab266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 12/86] fix: comparison of a chain iterator with a node returns
 its result

---
 include/bcl/Chain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index ee34366..a2bd30f 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -246,7 +246,7 @@ public:
 
   /// Compares the iterator with a node.
   bool operator==(const Ty *RHS) const noexcept {
-    mCurrent == RHS;
+    return mCurrent == RHS;
   }
 
   /// Compares the iterator with a node.
-- 
2.43.0


From 2d04873744e6394a5958d57b71b02d891c5cdc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 13/86] fix: chain iterators can be advanced

---
 include/bcl/Chain.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index a2bd30f..75f706c 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -29,6 +29,11 @@
 #ifndef BCL_CHAIN_H
 #define BCL_CHAIN_H
 
+#include <cassert>
+#include <iterator>
+#include <type_traits>
+#include <utility>
+
 namespace bcl {
 /// \brief Simple bidirectional intrusive chain of nodes.
 ///
@@ -265,7 +270,8 @@ public:
 
   /// Preincrement, this node must not be null.
   ChainIteratorC & operator++()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     assert(mCurrent && "Advancing null node!");
     mCurrent = ChainTraits<Ty, Tag>::getNext(mCurrent);
     return *this;
@@ -279,7 +285,8 @@ public:
 
   /// Predecrement, this node must not be null.
   ChainIteratorC & operator--()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     assert(mCurrent && "Decreasing null node!!");
     mCurrent = ChainTraits<Ty, Tag>::getPrev(mCurrent);
     return *this;
@@ -296,13 +303,15 @@ public:
 
   /// Returns a next node.
   const Ty * getNext() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     return ChainTraits<Ty, Tag>::getNext(mCurrent);
   }
 
   /// Returns a previous node.
   const Ty * getPrev() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     return ChainTraits<Ty, Tag>::getPrev(mCurrent);
   }
 
-- 
2.43.0


From 2517d114e7e5873f08d648a339bdf7a5f908cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 14/86] fix: postdecrement of a chain iterator moves backward

---
 include/bcl/Chain.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index 75f706c..7061ae4 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -295,7 +295,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIteratorC operator--(int)
       noexcept(noexcept(ChainIteratorC::operator--())) {
-    ChainIteratorC Tmp = *this; ++*this; return Tmp;
+    ChainIteratorC Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
@@ -370,7 +370,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIterator operator--(int)
       noexcept(noexcept(ChainIterator::operator--())) {
-    ChainIterator Tmp = *this; ++*this; return Tmp;
+    ChainIterator Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
-- 
2.43.0


From db937480c8b98f29e9b8b5b07f6aea7c8371c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 15/86] fix: Diagnostic releases its strings with delete[]

---
 include/bcl/Diagnostic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 00bf223..fc89ce2 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -37,7 +37,7 @@ namespace bcl {
 ///
 /// All diagnostics are represented as a character string.
 class Diagnostic {
-  typedef std::vector<std::unique_ptr<const char>> Collection;
+  typedef std::vector<std::unique_ptr<const char[]>> Collection;
 
 public:
   typedef const char * value_type;
@@ -209,11 +209,11 @@ public:
       ++mInternalError;
       return false;
     }
-    mDiagnostics.emplace_back(std::unique_ptr<const char>(Buf));
+    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
     return true;
   }
 private:
-  std::unique_ptr<const char> mKind;
+  std::unique_ptr<const char[]> mKind;
   Collection mDiagnostics;
   size_type mInternalError = 0;
 };
-- 
2.43.0


From 69b9da29eb38a4358555a4f0e72959cfe50ccea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 16/86] fix: Diagnostic::swap exchanges kinds of diagnostics

---
 include/bcl/Diagnostic.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index fc89ce2..59a27bf 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -170,6 +170,7 @@ public:
   /// Exchanges the contents of the container with those of other
   /// including internal errors.
   void swap(Diagnostic &Other) {
+    mKind.swap(Other.mKind);
     mDiagnostics.swap(Other.mDiagnostics);
     std::swap(mInternalError, Other.mInternalError);
   }
-- 
2.43.0


From 60492f81150c8ee0c2fc488b1605b93cd38e6e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 17/86] fix: a JSON string ends at a quote which is not escaped
 with a backslash

---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index aae7f4e..b2761e9 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -357,7 +357,7 @@ enum class Token : char {
   COMMA = ',',
   COLON = ':',
   QUOTE = '"',
-  ESCAPE = '/',
+  ESCAPE = '\\',
   DOT = '.',
   PLUS = '+',
   MINUS = '-',
@@ -468,7 +468,9 @@ public:
     mStart = mEnd = mNext;
     if (isQuote(mJSON[mNext])) {
       for (++mNext; mNext < mJSON.size(); ++mNext) {
-        if (isQuote(mJSON[mNext]) && !isEscape(mJSON[mNext - 1])) {
+        if (isEscape(mJSON[mNext])) {
+          ++mNext;
+        } else if (isQuote(mJSON[mNext])) {
           mEnd = mNext++;
           mToken = Token::IDENTIFIER;
           return true;
-- 
2.43.0


From e8ba933c7a483c796e11c8f5d7320ee2b6dad35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 18/86] fix: unescaping of a JSON string stops at its end

---
 include/bcl/Json.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b2761e9..14febcd 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1042,13 +1042,11 @@ private:
 
 template<> struct Traits<std::string> {
   inline static String unescape(const String &Str) {
-    if (Str.size() < 2)
-      return Str;
     std::string Res;
     Res.reserve(Str.length());
-    auto I = Str.begin(), EI = Str.end() - 1;
+    auto I = Str.begin(), EI = Str.end();
     while (I != EI) {
-      if (*I != '\\') {
+      if (*I != '\\' || I + 1 == EI) {
         Res += *I;
         ++I;
         continue;
@@ -1064,8 +1062,6 @@ template<> struct Traits<std::string> {
       }
       ++I;
     }
-    if (I == EI)
-      Res += Str.back();
     return Res;
   }
   inline static Position escape(String &JSON, Position Pos) {
-- 
2.43.0


From c8fde674834539f97efe43de7bff9caccb5f864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 19/86] fix: JSON traits of a character read and write that
 character

---
 include/bcl/Json.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 14febcd..90d9aa0 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1103,13 +1103,11 @@ template<> struct Traits<char> {
       Lex.json().substr(Value.first, Value.second - Value.first + 1));
     if (Tmp.size() != 1)
       return false;
-    Dest = Lex.json()[Tmp.front()];
+    Dest = Tmp.front();
     return true;
   }
   inline static void unparse(String &JSON, char Obj) {
-    auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
-    Traits<std::string>::escape(JSON, I);
+    Traits<std::string>::unparse(JSON, std::string(1, Obj));
   }
 };
 
-- 
2.43.0


From 79b4da6d6b9b34844df6512217414b23fe43528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 20/86] fix: JSON scalars are read from value tokens only

---
 include/bcl/Json.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 90d9aa0..ec79016 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1079,6 +1079,8 @@ template<> struct Traits<std::string> {
   }
   inline static bool parse(std::string &Dest, Lexer &Lex) noexcept {
     try {
+      if (!Lex.checkValue())
+        return false;
       auto Value = Lex.discardQuote();
       Dest = unescape(
         Lex.json().substr(Value.first, Value.second - Value.first + 1));
@@ -1098,10 +1100,8 @@ template<> struct Traits<std::string> {
 
 template<> struct Traits<char> {
   inline static bool parse(char &Dest, Lexer &Lex) noexcept {
-    auto Value = Lex.discardQuote();
-    auto Tmp = Traits<std::string>::unescape(
-      Lex.json().substr(Value.first, Value.second - Value.first + 1));
-    if (Tmp.size() != 1)
+    std::string Tmp;
+    if (!Traits<std::string>::parse(Tmp, Lex) || Tmp.size() != 1)
       return false;
     Dest = Tmp.front();
     return true;
@@ -1306,9 +1306,9 @@ template<> struct Traits<char *> {
       }
     } else {
       try {
-        auto Value = Lex.discardQuote();
-        auto Unescaped = Traits<std::string>::unescape(
-          Lex.json().substr(Value.first, Value.second - Value.first + 1));
+        std::string Unescaped;
+        if (!Traits<std::string>::parse(Unescaped, Lex))
+          return false;
         TmpDest = new char[Unescaped.length() + 1];
         Unescaped.copy(TmpDest, Unescaped.length());
         TmpDest[Unescaped.length()] = '\0';
-- 
2.43.0


From 40c62b4afd26ba9f5e42cf4ccb49915760c1d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 21/86] fix: conversion errors of optional JSON values are
 reported

---
 include/bcl/Json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index ec79016..9bb5932 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1842,13 +1842,17 @@ template<class T> struct Traits<std::optional<T>> {
   static bool parse(std::optional<T> &Dest, ::json::Lexer &Lex) noexcept {
     try {
       std::string Str;
+      // A quoted 'null' is a value if it is an optional string. In other cases
+      // it may be a key of a map.
       if (Lex.isKeyword(Keyword::NO_VALUE) ||
-          Traits<std::string>::parse(Str, Lex) &&
+          !std::is_same<T, std::string>::value && Lex.is(Token::IDENTIFIER) &&
+              Traits<std::string>::parse(Str, Lex) &&
               Str == toString(Keyword::NO_VALUE)) {
         Dest.reset();
       } else {
         T Tmp;
-        Traits<T>::parse(Tmp, Lex);
+        if (!Traits<T>::parse(Tmp, Lex))
+          return false;
         Dest = std::move(Tmp);
       }
     }
-- 
2.43.0


From 28799095e3ed8f8bf6454cfb6d5bca4df95bc3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 22/86] fix: a JSON number is converted as a whole or rejected

---
 include/bcl/Json.h | 71 ++++++++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 9bb5932..29cdacd 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1115,13 +1115,15 @@ template<> struct Traits<int> {
   inline static bool parse(int &Dest, Lexer &Lex) noexcept {
     try {
       std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoi(Str);
+      std::size_t Length;
+      if (!Traits<std::string>::parse(Str, Lex))
+        return false;
+      Dest = std::stoi(Str, &Length);
+      return Length == Str.size();
     }
     catch (...) {
       return false;
     }
-    return true;
   }
   inline static void unparse(String &JSON, int Obj) {
     JSON += std::to_string(Obj);
@@ -1132,13 +1134,15 @@ template<> struct Traits<long> {
   inline static bool parse(long &Dest, Lexer &Lex) noexcept {
     try {
       std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stol(Str);
+      std::size_t Length;
+      if (!Traits<std::string>::parse(Str, Lex))
+        return false;
+      Dest = std::stol(Str, &Length);
+      return Length == Str.size();
     }
     catch (...) {
       return false;
     }
-    return true;
   }
   inline static void unparse(String &JSON, long Obj) {
     JSON += std::to_string(Obj);
@@ -1149,13 +1153,15 @@ template<> struct Traits<long long> {
   inline static bool parse(long long &Dest, Lexer &Lex) noexcept {
     try {
       std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoll(Str);
+      std::size_t Length;
+      if (!Traits<std::string>::parse(Str, Lex))
+        return false;
+      Dest = std::stoll(Str, &Length);
+      return Length == Str.size();
     }
     catch (...) {
       return false;
     }
-    return true;
   }
   inline static void unparse(String &JSON, long long Obj) {
     JSON += std::to_string(Obj);
@@ -1166,13 +1172,18 @@ template<> struct Traits<unsigned> {
   inline static bool parse(unsigned &Dest, Lexer &Lex) noexcept {
     try {
       std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = static_cast<unsigned>(std::stoul(Str));
+      std::size_t Length;
+      if (!Traits<std::string>::parse(Str, Lex))
+        return false;
+      if (Str.find('-') != std::string::npos)
+        return false;
+      auto Value = std::stoul(Str, &Length);
+      Dest = static_cast<unsigned>(Value);
+      return Length == Str.size() && Dest == Value;
     }
     catch (...) {
       return false;
     }
-    return true;
   }
   inline static void unparse(String &JSON, unsigned Obj) {
     JSON += std::to_string(Obj);
@@ -1183,13 +1194,17 @@ template<> struct Traits<unsigned long> {
   inline static bool parse(unsigned long &Dest, Lexer &Lex) noexcept {
     try {
       std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoul(Str);
+      std::size_t Length;
+      if (!Traits<std::string>::parse(Str, Lex))
+        return false;
+      if (Str.find('-') != std::string::npos)
+        return false;
+      Dest = std::stoul(Str, &Length);
+      return Length == Str.size();
     }
     catch (...) {
       return false;
     }
-    return true;
   }
   inline static void unparse(String &JSON, unsigned long Obj) {
     JSON += std::to_string(Obj);
@@ -1200,13 +1215,17 @@ template<> struct Traits<unsigned long long> {
   inline static bool parse(unsigned long long &Dest, Lexer &Lex) noexcept {
     try {
       std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stoull(Str);
+      std::size_t Length;
+      if (!Traits<std::string>::parse(Str, Lex))
+        return false;
+      if (Str.find('-') != std::string::npos)
+        return false;
+      Dest = std::stoull(Str, &Length);
+      return Length == Str.size();
     }
     catch (...) {
       return false;
     }
-    return true;
   }
   inline static void unparse(String &JSON, unsigned long long Obj) {
     JSON += std::to_string(Obj);
@@ -1217,13 +1236,15 @@ template<> struct Traits<float> {
   inline static bool parse(float &Dest, Lexer &Lex) noexcept {
     try {
       std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stof(Str);
+      std::size_t Length;
+      if (!Traits<std::string>::parse(Str, Lex))
+        return false;
+      Dest = std::stof(Str, &Length);
+      return Length == Str.size();
     }
     catch (...) {
       return false;
     }
-    return true;
   }
   inline static void unparse(String &JSON, float Obj) {
     JSON += std::to_string(Obj);
@@ -1234,13 +1255,15 @@ template<> struct Traits<double> {
   inline static bool parse(double &Dest, Lexer &Lex) noexcept {
     try {
       std::string Str;
-      Traits<std::string>::parse(Str, Lex);
-      Dest = std::stod(Str);
+      std::size_t Length;
+      if (!Traits<std::string>::parse(Str, Lex))
+        return false;
+      Dest = std::stod(Str, &Length);
+      return Length == Str.size();
     }
     catch (...) {
       return false;
     }
-    return true;
   }
   inline static void unparse(String &JSON, double Obj) {
     JSON += std::to_string(Obj);
-- 
2.43.0


From 59050daf42cf4f5738336529b439550cb9e8020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 23/86] fix: only white space may follow a parsed JSON value

---
 include/bcl/Json.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 29cdacd..20a67f2 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -247,6 +247,7 @@
 #define JSON_ERROR_7 "uninitialized elements in array"
 #define JSON_ERROR_8 "target object type does not support duplicate of keys"
 #define JSON_ERROR_9 "illegal value"
+#define JSON_ERROR_10 "unexpected character '%c' end of string expected"
 #define JSON_ERROR(C) C, JSON_ERROR_##C
 
 #define JSON_OBJECT_BEGIN(Object_) \
@@ -557,6 +558,19 @@ public:
     return false;
   }
 
+  /// \brief Checks that there are no tokens after a current token.
+  ///
+  /// \return If a current token is not the last one this method
+  /// returns false and add appropriate error in the errors collection.
+  bool checkEnd() {
+    auto Pos = mNext;
+    for (; Pos < mJSON.size() && std::isspace(mJSON[Pos]); ++Pos);
+    if (Pos == mJSON.size())
+      return true;
+    mErrors.insert(JSON_ERROR(10), Pos, mJSON[Pos]);
+    return false;
+  }
+
   /// Skips all characters in a JSON string between braces or brackets,
   /// return false if some errors have been occurred.
   bool skipInternal() {
@@ -763,17 +777,13 @@ template<class... Objects> class Parser {
     /// Converts JSON string to a specified Ty.
     template<class Ty> static bool parse(Ty &Obj, Lexer &Lex) {
       Lex.resetPosition();
-      Lex.goToNext();
+      if (!Lex.goToNext())
+        return false;
       if (!Traits<Ty>::parse(Obj, Lex)) {
         Lex.errors().insert(JSON_ERROR(6), Lex.start());
         return false;
       }
-      if (Lex.next() < Lex.json().size()) {
-        Lex.goToNext();
-        Lex.checkSpecial(Token::COMMA);
-        return false;
-      }
-      return true;
+      return Lex.checkEnd();
     }
 
     /// Creates functor to convert JSON string to a type with a specified name.
-- 
2.43.0


From c4017b52fcc1ead9c283049b3524e75100a13f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 24/86] fix: keys of a JSON map have to be convertible

---
 include/bcl/Json.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 20a67f2..a2050a0 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1582,6 +1582,8 @@ template<class KeyTy, class Ty, class Compare, class Allocator>
 struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
   typedef std::map<KeyTy, Ty, Compare, Allocator> MapTy;
   inline static bool parse(MapTy &Dest, Lexer &Lex) {
+    if (!Lex.checkSpecial(Token::LEFT_BRACE))
+      return false;
     return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
   }
   inline static bool parse(MapTy &Dest, Lexer &Lex,
@@ -1589,8 +1591,10 @@ struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsKey = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsKey)
+      return false;
     auto Pair = Dest.emplace(KeyValue, Ty());
     if (!Pair.second) {
       Lex.errors().insert(JSON_ERROR(8), Lex.start());
@@ -1635,6 +1639,8 @@ template<class KeyTy, class Ty, class Compare, class Allocator>
 struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
   typedef std::multimap<KeyTy, Ty, Compare, Allocator> MapTy;
   inline static bool parse(MapTy &Dest, Lexer &Lex) {
+    if (!Lex.checkSpecial(Token::LEFT_BRACE))
+      return false;
     return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
   }
   inline static bool parse(MapTy &Dest, Lexer &Lex,
@@ -1642,8 +1648,10 @@ struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsKey = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsKey)
+      return false;
     auto Itr = Dest.emplace(KeyValue, Ty());
     if (Itr == Dest.end())
       return false;
-- 
2.43.0


From c7bf5b9b1dafa69494a2c8005f4c29eab76f0658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 25/86] fix: duplicate of an index in a JSON array is an error

---
 include/bcl/Json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index a2050a0..e9452ff 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1785,6 +1785,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
   Lex.storePosition();
   Position MaxIdx = 0;
   Position Count = 0;
+  std::set<unsigned long long> Indexes;
   Token Last;
   if (Lex.is(Token::LEFT_BRACKET))
     Last = Token::RIGHT_BRACKET;
@@ -1806,6 +1807,10 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
       unsigned long long Idx;
       if (!Traits<unsigned long long>::parse(Idx, Lex))
         return std::make_tuple(0, 0, false);
+      if (!Indexes.insert(Idx).second) {
+        Lex.errors().insert(JSON_ERROR(8), Lex.start());
+        return std::make_tuple(0, 0, false);
+      }
       MaxIdx = static_cast<Position>(Idx > MaxIdx ? Idx : MaxIdx);
       if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
           !Lex.goToNext())
-- 
2.43.0


From 03e37d7883a67d569c24cc948d15b305795779a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 26/86] fix: an index of a JSON array may be escaped

---
 include/bcl/Json.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index e9452ff..4d4b413 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1360,8 +1360,8 @@ template<> struct Traits<char *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<char>::parse(Dest[Idx], Lex);
     } else {
       return Traits<char>::parse(Dest[Key.second], Lex);
@@ -1434,8 +1434,8 @@ template<class Ty> struct Traits<Ty *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
@@ -1494,8 +1494,8 @@ struct Traits<std::vector<Ty, Allocator>> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
-- 
2.43.0


From bd09648fedb845cdaeca4a6ed5ff8afda7e89fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 27/86] fix: an array which can not be read from JSON is
 released with delete[]

---
 include/bcl/Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 4d4b413..3039a77 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1334,7 +1334,7 @@ template<> struct Traits<char *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
@@ -1347,7 +1347,7 @@ template<> struct Traits<char *> {
         TmpDest[Unescaped.length()] = '\0';
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     }
@@ -1410,7 +1410,7 @@ template<class Ty> struct Traits<Ty *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
-- 
2.43.0


From d9f388e6be20811e330f0775cbd4f31b96d3dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 28/86] fix: identifier of a JSON object may follow compound
 values

---
 include/bcl/Json.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 3039a77..391251b 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1015,7 +1015,9 @@ private:
     if (!mLex.goToNext() || !mLex.checkSpecial(Token::LEFT_BRACE))
       return false;
     while (mLex.goToNext()) {
-      if (!mLex.is(Token::IDENTIFIER))
+      if (mLex.is(Token::RIGHT_BRACE))
+        break;
+      if (!mLex.checkIdentifier())
         return false;
       bool IsName = (mLex.json().compare(
         mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
@@ -1029,13 +1031,15 @@ private:
         mNameEnd = mLex.end();
         return true;
       }
-      if (((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) &&
-           !mLex.skipInternal()) ||
-          !mLex.checkValue())
+      if (mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) {
+        if (!mLex.skipInternal())
+          return false;
+      } else if (!mLex.checkValue()) {
         return false;
+      }
       if (!mLex.goToNext())
         return false;
-      if (mLex.is(Token::RIGHT_BRACE) && mLex.next() < mLex.json().size())
+      if (mLex.is(Token::RIGHT_BRACE))
         break;
       if (!mLex.checkSpecial(Token::COMMA))
         return false;
-- 
2.43.0


From 78e854f5901b8a87364d247b314924ed7e799afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 29/86] fix: unknown identifier of a JSON object is an error

---
 include/bcl/Json.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 391251b..a6eba3a 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -800,6 +800,9 @@ template<class... Objects> class Parser {
       mObject = std::move(Obj);
     }
 
+    /// Returns name of an object which should be created.
+    const Object::ObjectName & getName() const noexcept { return mName; }
+
     /// Returns unique pointer to created object or nullptr.
     std::unique_ptr<Object> stealObject() noexcept {
       return std::move(mObject);
@@ -983,7 +986,10 @@ public:
     ParseFunctor F(
       mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1), mLex);
     ObjectTypeList::for_each_type(F);
-    return F.stealObject();
+    auto Obj = F.stealObject();
+    if (!Obj && !hasErrors())
+      mLex.errors().insert(JSON_ERROR(3), mNameStart, F.getName().c_str());
+    return Obj;
   }
 
   /// Parses JSON string and converts it to a specified type,
-- 
2.43.0


From 4c72f7eab34837a6b2b95be0088ab0bc37f41bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 30/86] fix: brackets have to match in a skipped JSON value

---
 include/bcl/Json.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index a6eba3a..1735baf 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -574,20 +574,25 @@ public:
   /// Skips all characters in a JSON string between braces or brackets,
   /// return false if some errors have been occurred.
   bool skipInternal() {
-    Token Last;
+    std::stack<Token> Last;
     if (is(Token::LEFT_BRACKET))
-      Last = Token::RIGHT_BRACKET;
+      Last.push(Token::RIGHT_BRACKET);
     else if (checkSpecial(Token::LEFT_BRACE))
-      Last = Token::RIGHT_BRACE;
+      Last.push(Token::RIGHT_BRACE);
     else
       return false;
-    int Level = 0;
     while (goToNext()) {
-      if ((isRightBrace(mJSON[mStart]) || isRightBracket(mJSON[mStart])) &&
-          Level-- == 0)
-        return checkSpecial(Last);
-      if (isLeftBrace(mJSON[mStart]) || isLeftBracket(mJSON[mStart]))
-        ++Level;
+      if (isRightBrace(mJSON[mStart]) || isRightBracket(mJSON[mStart])) {
+        if (!checkSpecial(Last.top()))
+          return false;
+        Last.pop();
+        if (Last.empty())
+          return true;
+      } else if (isLeftBrace(mJSON[mStart])) {
+        Last.push(Token::RIGHT_BRACE);
+      } else if (isLeftBracket(mJSON[mStart])) {
+        Last.push(Token::RIGHT_BRACKET);
+      }
     }
     return false;
   }
-- 
2.43.0


From 6d2fabf86835a79ed1d58efdd29b24182dd7e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 31/86] fix: compound value of an unknown JSON key is skipped

---
 include/bcl/Json.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 1735baf..277c178 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1717,7 +1717,7 @@ public:
   /// The Key parameter is necessary to identify destination which should be set
   /// on the parsed value.
   ParseCellFunctor(std::pair<Position, Position> Key, Lexer &Lex) : mLex(Lex),
-    mKey(Key), mHasError(false) {}
+    mKey(Key), mHasError(false), mIsFound(false) {}
 
   /// \brief Parses a value specified by the last token evaluated by the
   /// lexer, converts it to an appropriate type and assigns to a currently
@@ -1731,16 +1731,21 @@ public:
           mKey.first + 1, mKey.second - mKey.first - 1 ,
           CellTraits<CellKey>::name()) != 0)
       return;
+    mIsFound = true;
     mHasError = !CellTraits<CellKey>::parse(
       Cell->template value<CellKey>(), mLex);
   }
 
   /// Returns true if errors have been occurred during conversion.
   bool hasError() const noexcept { return mHasError; }
+
+  /// Returns true if there is a cell for a specified key.
+  bool isFound() const noexcept { return mIsFound; }
 private:
   Lexer &mLex;
   std::pair<Position, Position> mKey;
   bool mHasError;
+  bool mIsFound;
 };
 
 /// This functor unparses JSON object represented as a bcl::StaticMap. It should
@@ -1785,6 +1790,9 @@ template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
       std::pair<Position, Position> Key) {
     detail::ParseCellFunctor Parse(Key, Lex);
     Dest.for_each(Parse);
+    if (!Parse.isFound() &&
+        (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)))
+      return Lex.skipInternal();
     return !Parse.hasError();
   }
   inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
-- 
2.43.0


From 8453f989279a5265dcad8db5b5527bb8ff253736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 32/86] fix: array without values can be unparsed to JSON

---
 include/bcl/Json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 277c178..57339d6 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1535,8 +1535,8 @@ struct Traits<std::vector<Ty, Allocator>> {
           Traits<unsigned long long>::unparse(JSON, I);
           JSON += "\":" + Values[I] + ",";
         }
-        assert(JSON.back() == ',' && "A delimiter must be a comma!");
-        JSON.erase(JSON.size() - 1);
+        if (JSON.back() == ',')
+          JSON.erase(JSON.size() - 1);
         JSON += '}';
       } else {
         JSON += '[';
-- 
2.43.0


From 63dc465b5a6d6d7fa6b8e31c1f53aebeab9178c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 33/86] fix: JSON traits of diagnostics read any kind and
 description

---
 include/bcl/Json.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 57339d6..2245fad 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1866,23 +1866,22 @@ template<> struct Traits<bcl::Diagnostic> {
   }
   inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex,
     std::pair<Position, Position>) {
-    const char *Msg;
-    if (!Traits<const char *>::parse(Msg, Lex))
+    std::string Msg;
+    if (!Traits<std::string>::parse(Msg, Lex))
       return false;
-    char *Kind = new char[std::strlen(Msg) + 1];
-    char *Buf = new char[std::strlen(Msg) + 1];
+    auto KindSize = std::strlen(Dest.getKind());
     std::size_t Code;
     std::uintmax_t Pos;
-    auto ArgNum = std::sscanf(Msg, "%s C%zu(%ju): %s", Kind, &Code, &Pos, Buf);
-    if (ArgNum != 4 || std::strcmp(Kind, Dest.getKind()) != 0 ||
-        !Dest.insert(Code, "%s", Pos, Buf)) {
+    int Size = 0;
+    // The description follows a prefix which is built in Diagnostic::insert().
+    if (Msg.compare(0, KindSize, Dest.getKind()) != 0 ||
+        std::sscanf(Msg.c_str() + KindSize, " C%zu(%ju):%n",
+                    &Code, &Pos, &Size) != 2 ||
+        Size == 0 || Msg[KindSize + Size] != ' ' ||
+        !Dest.insert(Code, "%s", Pos, Msg.c_str() + KindSize + Size + 1)) {
       Lex.errors().insert(JSON_ERROR(9), Lex.start());
-      delete[]Kind;
-      delete[]Buf;
       return false;
     }
-    delete[]Kind;
-    delete[]Buf;
     return true;
   }
   inline static void unparse(String &JSON, const bcl::Diagnostic &Obj) {
-- 
2.43.0


From b3f7c09a509472788baae4598d37f709cd617af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 34/86] fix: a letter in a JSON string is not a number, an
 identifier or a keyword

---
 include/bcl/Json.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 2245fad..5eecba7 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -516,7 +516,9 @@ public:
         return true;
     }
     mEnd = mNext;
-    mToken = static_cast<Token>(mJSON[mStart]);
+    // Letters are reserved for numbers, identifiers and keywords (see Token).
+    if (!std::isalpha(mJSON[mStart]))
+      mToken = static_cast<Token>(mJSON[mStart]);
     ++mNext;
     return true;
   }
-- 
2.43.0


From 584ee09034de1f8a5aa71ca50045df20f362e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 35/86] fix: RedirectIO::isDiff() without redirection returns
 false

---
 include/bcl/RedirectIO.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index df66208..5e7868a 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -178,7 +178,8 @@ public:
     // It is necessary to perform this check because fflush(NULL) flushes all
     // opened files and this is unwanted behavior.
     if (!mFile) {
-      storeErrNo(EINVAL, "fflush");
+      if (mayRedirected())
+        storeErrNo(EINVAL, "fflush");
       return false;
     }
     if (std::fflush(mFile) != 0) {
-- 
2.43.0


From bf30cf307b1efd11cdaacb47cdac24a78f3d16b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 36/86] fix: RedirectIO::diff() returns zero bytes and the data
 after them

---
 include/bcl/RedirectIO.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 5e7868a..284a130 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -214,12 +214,12 @@ public:
       storeErrNo("fseek");
       return "";
     }
-    char Buf[100] = "\0";
+    char Buf[100];
     std::string Str;
-    while (std::fgets(Buf, 100, mFile))
-      Str += Buf;
+    while (auto Size = std::fread(Buf, 1, sizeof Buf, mFile))
+      Str.append(Buf, Size);
     if (!std::feof(mFile)) {
-      storeErrNo("fgets");
+      storeErrNo("fread");
       if (std::fseek(mFile, Pos, SEEK_SET) != 0)
         storeErrNo("fseek");
       return "";
-- 
2.43.0


From 36c18b785bdd9b8f5840730c4579f86d774d3a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 37/86] fix: RedirectIO forgets a file even if it has been
 closed with an error

---
 include/bcl/RedirectIO.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 284a130..9ff5150 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -100,8 +100,7 @@ public:
       storeErrNo("dup2");
       if (fclose(mFile) != 0)
         storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      mFile = nullptr;
       return;
     }
     if (M == Mode::Append) {
@@ -112,8 +111,7 @@ public:
         storeErrNo("fgetc");
         if (fclose(mFile) != 0)
           storeErrNo("fclose");
-        else
-          mFile = nullptr;
+        mFile = nullptr;
         return;
       }
     }
@@ -122,8 +120,7 @@ public:
       storeErrNo("ftell");
       if (fclose(mFile) != 0)
         storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      mFile = nullptr;
       return;
     }
   }
-- 
2.43.0


From 0781104048fe47627268b78ba2491bf494b6e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:10 +0000
Subject: [PATCH 38/86] fix: RedirectIO move assignment closes the replaced
 file

---
 include/bcl/RedirectIO.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 9ff5150..e7ec624 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -141,7 +141,18 @@ public:
   RedirectIO(const RedirectIO &) = delete;
   RedirectIO & operator=(const RedirectIO &) = delete;
   RedirectIO(RedirectIO &&) = default;
-  RedirectIO & operator=(RedirectIO &&) = default;
+  RedirectIO & operator=(RedirectIO &&Other) {
+    // The file which is open in this object must be closed, so exchange objects
+    // and destroy old content of this object.
+    RedirectIO Tmp(std::move(Other));
+    std::swap(mErrors, Tmp.mErrors);
+    std::swap(mFromHandle, Tmp.mFromHandle);
+    std::swap(mToName, Tmp.mToName);
+    std::swap(mFile, Tmp.mFile);
+    std::swap(mDiffPos, Tmp.mDiffPos);
+    std::swap(mDiffStart, Tmp.mDiffStart);
+    return *this;
+  }
 
   /// \brief Returns true if redirection is active, note that in case of errors
   /// this also returns true.
-- 
2.43.0


From 35419c23ab1a3eaaf55def5e17ed574cc613b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:04 +0000
Subject: [PATCH 39/86] fix: diff() of redirected input returns what has not
 been read yet

---
 include/bcl/RedirectIO.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index e7ec624..3ea6fd7 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -89,7 +89,7 @@ public:
   /// becomes available from errors() container.
   RedirectIO(int From, const std::string &To, Mode M = Mode::Rewrite) :
     mErrors(new bcl::Diagnostic("redirect error")),
-    mFile(nullptr), mFromHandle(From), mToName(To) {
+    mFile(nullptr), mFromHandle(From), mToName(To), mIsInput(M == Mode::Read) {
     const char ModeStr[3] = { static_cast<char>(M), '+', '\0' };
     mFile = std::fopen(To.data(), ModeStr);
     if (!mFile) {
@@ -151,6 +151,7 @@ public:
     std::swap(mFile, Tmp.mFile);
     std::swap(mDiffPos, Tmp.mDiffPos);
     std::swap(mDiffStart, Tmp.mDiffStart);
+    std::swap(mIsInput, Tmp.mIsInput);
     return *this;
   }
 
@@ -211,14 +212,14 @@ public:
   /// read yet.
   std::string diff() {
     assert(mFile && "File must not be null!");
-    if (!isDiff())
+    if (!isDiff() && !mIsInput)
       return "";
     auto Pos = std::ftell(mFile);
     if (Pos == -1) {
       storeErrNo("ftell");
       return "";
     }
-    if (std::fseek(mFile, mDiffPos, SEEK_SET) != 0) {
+    if (std::fseek(mFile, mIsInput ? Pos : mDiffPos, SEEK_SET) != 0) {
       storeErrNo("fseek");
       return "";
     }
@@ -232,6 +233,12 @@ public:
         storeErrNo("fseek");
       return "";
     }
+    // Data stay available for the redirected descriptor.
+    if (mIsInput &&
+        (std::fseek(mFile, Pos, SEEK_SET) != 0 || std::fflush(mFile) != 0)) {
+      storeErrNo("fseek");
+      return "";
+    }
     return Str;
   }
 
@@ -277,6 +284,7 @@ private:
   FILE *mFile;
   long mDiffPos;
   long mDiffStart;
+  bool mIsInput = false;
 };
 }
 
-- 
2.43.0


From a639610d047b38d530712a629161a06bdc47e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 40/86] fix: sizes of guards and computed monomials of an
 equation are returned

---
 include/bcl/Equation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index e35056d..bf9ef9f 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -143,7 +143,7 @@ public:
     return guard_const_range{guard_begin(), guard_end()};
   }
 
-  std::size_t guard_size() const noexcept { mGuards.second; }
+  std::size_t guard_size() const noexcept { return mGuards.second; }
 
   using inverse_iterator = typename InverseGuardList::iterator;
   using inverse_range = Range<inverse_iterator>;
@@ -176,7 +176,7 @@ public:
     return inverse_const_range{inverse_begin(), inverse_end()};
   }
 
-  std::size_t inverse_size() const noexcept { mInverseGuards.second; }
+  std::size_t inverse_size() const noexcept { return mInverseGuards.second; }
 
   using computed_iterator = typename ComputedMonomList::iterator;
   using computed_range = Range<computed_iterator>;
@@ -210,7 +210,7 @@ public:
     return computed_const_range{computed_begin(), computed_end()};
   }
 
-  std::size_t computed_size() const noexcept { mComputedMonoms.second; }
+  std::size_t computed_size() const noexcept { return mComputedMonoms.second; }
 
 private:
   std::pair<GuardList, std::size_t> mGuards = {{}, 0};
-- 
2.43.0


From 47e8546f4fda138e432d2d6810e7600ed1ec3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 41/86] fix: Equation.h includes what it uses

---
 include/bcl/Equation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index bf9ef9f..f946a30 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -25,7 +25,10 @@
 #ifndef BCL_EQUATION_H
 #define BCL_EQUATION_H
 
+#include <array>
 #include <assert.h>
+#include <cstdlib>
+#include <functional>
 #include <numeric>
 #include <tuple>
 #include <type_traits>
-- 
2.43.0


From ab9318df22046dbe83b90e3f99985ca403d4f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 42/86] fix: instantiated equations of a system precede
 discarded ones

---
 include/bcl/Equation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index f946a30..533c9a6 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -526,7 +526,7 @@ public:
         ++I;
       } else {
         --mInstantiatedSize;
-        std::swap(mIdx[I], mIdx[mInstantiatedSize]);
+        std::swap(mRows[mIdx[I]], mRows[mIdx[mInstantiatedSize]]);
       }
     }
   }
-- 
2.43.0


From 486b3f775eeae00106c19fecdad05e0aa0cd6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 43/86] fix: the least free term of a solution is a value, not
 a column

---
 include/bcl/Equation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 533c9a6..c93bf90 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -486,7 +486,7 @@ public:
   /// computed solution have non-negative free terms.
   template <class ColumnInfoT>
   void solutioWithPositiveConstant(ColumnInfoT &Info) {
-    ColumnT Min = 0;
+    ValueT Min = 0;
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       if (mSolution[I].Constant < Min)
         Min = mSolution[I].Constant;
-- 
2.43.0


From b5fa0e8e9c2e82ce1d2ff70f24c24d9e322d0079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 44/86] fix: coefficients of a reversed solution are values,
 not columns

---
 include/bcl/Equation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index c93bf90..7bb4647 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -470,7 +470,8 @@ public:
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       std::swap(Divisors[0], Divisors[I]);
       auto Production = std::accumulate(
-        Divisors.begin() + 1, Divisors.end(), 1, std::multiplies<ColumnT>());
+        Divisors.begin() + 1, Divisors.end(), ValueT(1),
+        std::multiplies<ValueT>());
       auto &S = mSolution[I];
       Production *= (S.RHS.Value * Production  <  0) ? -1 : 1;
       S.LHS.Value *= Production;
-- 
2.43.0


From afb8711ff24776fd23e62d31c0d3c9bf5c5d71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 45/86] fix: a constant variable does not spoil a reversed
 solution

---
 include/bcl/Equation.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 7bb4647..197248b 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -466,13 +466,17 @@ public:
       GCD = std::get<0>(euclidGCD(GCD, mSolution[I].RHS.Value));
     std::vector<ValueT> Divisors(mSolution.size());
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I)
-      Divisors[I] = mSolution[I].RHS.Value / GCD;
+      Divisors[I] = mSolution[I].RHS.Value == 0 ? 1 :
+        mSolution[I].RHS.Value / GCD;
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       std::swap(Divisors[0], Divisors[I]);
       auto Production = std::accumulate(
         Divisors.begin() + 1, Divisors.end(), ValueT(1),
         std::multiplies<ValueT>());
       auto &S = mSolution[I];
+      // This variable is a constant and does not depend on the parameter.
+      if (S.RHS.Value == 0)
+        continue;
       Production *= (S.RHS.Value * Production  <  0) ? -1 : 1;
       S.LHS.Value *= Production;
       S.RHS.Value *= Production;
-- 
2.43.0


From c49a324522affa598056720d64208250d06e9521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 46/86] fix: a printed computed monomial is a value, not a
 column

---
 include/bcl/Equation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 197248b..a83639c 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -553,7 +553,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
     OS << "--- discarded ---\n";
@@ -571,7 +571,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
   }
-- 
2.43.0


From 8efac3cf8cd9fd44f996350c25c27d1037c45591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 47/86] fix: a system of equations with dependent equations is
 solved

---
 include/bcl/Equation.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index a83639c..bd5730f 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -365,6 +365,19 @@ public:
   std::size_t solve(ColumnInfoT &Info, StreamT &OS = Undef) {
     for (std::size_t I = 0; I < mInstantiatedSize; ++I) {
       auto &Row = mRows[mIdx[I]];
+      // Both monomials may depend on the same variable (for example, it may be
+      // a parameter after substitutions), so the second monomial becomes zero.
+      if (Row.LHS.Column == Row.RHS.Column) {
+        Row.LHS.Value += Row.RHS.Value;
+        Row.RHS = {Info.parameterColumn(), 0};
+      }
+      // There are no variables to determine.
+      if (Row.LHS.Value == 0 && Row.RHS.Value == 0) {
+        if (!IsSolvable && Row.Constant != 0)
+          return I;
+        assert(Row.Constant == 0 && "Equation must have solution!");
+        continue;
+      }
       // We want to solve binomial equation A * X + B * Y = C
       // 1. Find GCD and two coefficients X' and Y' such as GCD = A * X' + B * Y'
       auto GCD = euclidGCD(Row.LHS.Value, Row.RHS.Value);
-- 
2.43.0


From ff79ff63fb31f9ab66b5ad0582a1be42df79e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:05 +0000
Subject: [PATCH 48/86] fix: a target of CopyFrom/MoveFromCellFunctor is not
 constant

---
 include/bcl/cell.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 8b376cb..4f70f1e 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -696,7 +696,7 @@ private:
 template<class To_> struct CopyFromCellFunctor {
   typedef To_ To;
 
-  CopyFromCellFunctor(const To *T) : mTo(T) {
+  CopyFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -713,7 +713,7 @@ private:
 
   template<class CellTy> inline void copyFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 
 /// \brief Moves data from one cell to another.
@@ -752,7 +752,7 @@ private:
 template<class To_> struct MoveFromCellFunctor {
   typedef To_ To;
 
-  MoveFromCellFunctor(const To *T) : mTo(T) {
+  MoveFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -769,7 +769,7 @@ private:
 
   template<class CellTy> inline void moveFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 }
 
-- 
2.43.0


From 7665bc282dbfb9c2d30048aae0eef0613007b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 49/86] fix: MoveToCellFunctor moves values instead of copying
 them

---
 include/bcl/cell.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 4f70f1e..fd1fd48 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -724,7 +724,7 @@ private:
 template<class From_> struct MoveToCellFunctor {
   typedef From_ From;
 
-  MoveToCellFunctor(const From *F) : mFrom(F) {
+  MoveToCellFunctor(From *F) : mFrom(F) {
     assert(F && "The source of data must not be null!");
   }
 
@@ -741,7 +741,7 @@ private:
 
   template<class CellTy> inline void moveTo(CellTy *, std::false_type) {}
 
-  const From *mFrom;
+  From *mFrom;
 };
 
 /// \brief Moves data from one cell to another.
-- 
2.43.0


From f6a721bb63e0a639211a78570753cb67115cbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 50/86] fix: a temporary function can be applied to an empty
 list of types

---
 include/bcl/cell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index fd1fd48..2a7b1e7 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -283,7 +283,7 @@ template<> struct TypeList<> {
   static constexpr std::size_t size_of() { return 0; }
 
   /// This is invoked when all types will be visited.
-  template<class Function> static void for_each_type(Function &) {}
+  template<class Function> static void for_each_type(Function &&) {}
 };
 
 /// \brief Determines whether the Type exists in the TypeList.
-- 
2.43.0


From 6ae57a2932657e0be15efe4dc1e5f1f86e9b9909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:52 +0000
Subject: [PATCH 51/86] fix: move assignment of a multidimensional array
 releases the old data and returns a value

---
 include/bcl/marray.h   | 4 ++++
 include/bcl/marray_f.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/bcl/marray.h b/include/bcl/marray.h
index 889b1de..7881428 100644
--- a/include/bcl/marray.h
+++ b/include/bcl/marray.h
@@ -105,10 +105,14 @@ public:
   }
 
   inline marray & operator=(marray &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray() BCL_ALWAYS_INLINE {
diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index 0e9a17e..bf549f3 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -76,10 +76,14 @@ public:
   }
 
   inline marray_f & operator=(marray_f &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray_f() BCL_ALWAYS_INLINE {
-- 
2.43.0


From 5f83fc5b8effc6e6456ff12a49ac4fc1a110eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 52/86] fix: shrinkPair does not read beyond values smaller
 than a half of the result

---
 include/bcl/utility.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index b2ee789..0a47f52 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -369,8 +369,11 @@ template<class FirstT, class SecondT, class T> bool shrinkPair(
   for (std::size_t I = HalfSizeOfT; I < sizeof(SecondT); ++I)
     if (RawSecond[I] != 0)
       return false;
-  std::memmove((char *)&Out, RawFirst, HalfSizeOfT);
-  std::memmove((char *)&Out + HalfSizeOfT, RawSecond, HalfSizeOfT);
+  std::memset(&Out, 0, SizeOfT);
+  std::memmove((char *)&Out, RawFirst,
+    sizeof(FirstT) < HalfSizeOfT ? sizeof(FirstT) : HalfSizeOfT);
+  std::memmove((char *)&Out + HalfSizeOfT, RawSecond,
+    sizeof(SecondT) < HalfSizeOfT ? sizeof(SecondT) : HalfSizeOfT);
   return true;
 }
 
-- 
2.43.0


From 5a3d1166f74b5811d9b7740208f2a8e2d560c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 53/86] fix: tagged_tuple_idx finds the index of a tag

---
 include/bcl/tagged.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/tagged.h b/include/bcl/tagged.h
index 706d51e..c918ce7 100644
--- a/include/bcl/tagged.h
+++ b/include/bcl/tagged.h
@@ -361,7 +361,7 @@ template<class Tag, class T> class tagged_tuple_idx;
 template<class Tag, class... Taggeds>
 class tagged_tuple_idx<Tag, tagged_tuple<Taggeds...>> :
   public std::integral_constant<
-    std::size_t, bcl::index_of<Tag, Taggeds...>()> {};
+    std::size_t, bcl::index_of<bcl::get_tagged<Tag, Taggeds...>, Taggeds...>()> {};
 
 /// Provide compile time access to a tag with a specified index.
 template<std::size_t Idx, class T> struct tagged_tuple_tag;
-- 
2.43.0


From e027ed0ada26fd0348835ce8d7cc9595019dae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 54/86] fix: NodeJSSocket hands over received zero bytes and
 releases the buffer

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 8023714..f03465b 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -117,12 +117,11 @@ private:
       return;
     }
     auto Data = Local<Uint8Array>::Cast(Args[0]);
-    auto DataUtf8 = new char [Data->ByteLength() + 1];
-    Data->CopyContents(DataUtf8, Data->ByteLength());
-    DataUtf8[Data->ByteLength()] = '\0';
+    std::string DataUtf8(Data->ByteLength(), '\0');
+    Data->CopyContents(&DataUtf8[0], DataUtf8.size());
     void *UserFunc = Local<External>::Cast(Args.Data())->Value();
     auto F = static_cast<ReceiveCallback *>(UserFunc);
-    (*F)(std::string(DataUtf8));
+    (*F)(DataUtf8);
   }
 
   /// This is a wrapper of a listener specified by a user, this is binded
-- 
2.43.0


From 0fd4239e8daebbaf8decf92da4a5159cea510e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:11 +0000
Subject: [PATCH 55/86] fix: NodeJSSocket sends zero bytes

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index f03465b..2ba3bb1 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -70,7 +70,8 @@ public:
   void send(const std::string &Message) const override {
     const unsigned Argc = 1;
     Local<Value> Argv[Argc] = {
-        String::NewFromUtf8(mIsolate, Message.c_str()).ToLocalChecked()};
+        String::NewFromUtf8(mIsolate, Message.data(), NewStringType::kNormal,
+          static_cast<int>(Message.size())).ToLocalChecked()};
     Local<Context> Ctx = mIsolate->GetCurrentContext();
     Local<Function>::New(mIsolate, mSend)->Call(Ctx, Null(mIsolate), Argc, Argv);
   }
-- 
2.43.0


From e7e3fafbf8a5f9a0dae7f25777f447960ec3af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:13 +0000
Subject: [PATCH 56/86] fix: NodeJSSocket keeps a connection until its server
 learns that it is closed

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 2ba3bb1..a53a38d 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -192,8 +192,9 @@ private:
   /// Start execution of a server.
   static void startServer(const FunctionCallbackInfo<Value>& Args) {
     auto* C = ObjectWrap::Unwrap<Connection>(Args.Holder());
-    C->mSocket->closed([C](bool){ C->Unref(); });
     createServer(C->mSocket);
+    // Listeners of a server must be called before the connection is released.
+    C->mSocket->closed([C](bool){ C->Unref(); });
   }
 
   /// Create new instance of this object.
-- 
2.43.0


From 99dd209be5932b129592740bcf168ecd18136e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:49 +0000
Subject: [PATCH 57/86] fix: restore line endings of IntrusiveConnection.h

---
 include/bcl/IntrusiveConnection.h | 502 +++++++++++++++---------------
 1 file changed, 251 insertions(+), 251 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 777e007..ee819ea 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -1,251 +1,251 @@
-//===- IntrusiveConnection.h -- Intrusive Connection ------------*- C++ -*-===//
-//
-//                       Base Construction Library (BCL)
-//
-// Copyright 2018 Nikita Kataev
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-// http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-//===----------------------------------------------------------------------===//
-//
-// This file proposes intrusive connection between client and server.
-// Connection is intrusive because a server sends data to a client only when
-// it receive a request and a new request can be received only when the
-// previous one has been responded. It looks like this:
-//                          Client           Server
-//                            Request ->
-//                                    <- Response
-//                            Request ->
-//                                    <- Response
-//
-// There are two main functions:
-// - IntrusiveConnection::connect() starts connection;
-// - IntrusiveConnection::answer() answers a request.
-// Note that InstrusiveConnection can not be copied only move operations are
-// supported. This is due to the fact that when InstrusiveConnection is
-// destructed a connection will be automatically closed and all subsequent
-// requests is going to be rejected (client will receive
-// InstrusiveConnection::Reject response).
-//
-// Usage:
-//  void foo(bcl::IntrusiveConnection C) {
-//    do {
-//      C.answer([](const std::string &Request) {
-//         /* Answer a request */
-//      });
-//    } while (/*Exit if any requests are expected.*/);
-//  }
-//
-//  template<>
-//  void bcl::createServer<std::string>(const Socket<std::string> *S) {
-//    IntrusiveConnection::connect(S, '\0', foo);
-//}
-//
-//===----------------------------------------------------------------------===//
-
-#ifndef BCL_INTRUSIVE_CONNECTION_H
-#define BCL_INTRUSIVE_CONNECTION_H
-
-#include "Socket.h"
-#include <condition_variable>
-#include <mutex>
-#include <queue>
-#include <sstream>
-#include <thread>
-
-namespace bcl {
-/// Intrusive connection between client and server (look at the file beginning
-/// for details.
-class IntrusiveConnection {
-  struct Status {
-    std::mutex mReceiveMutex, mSendMutex;
-    std::condition_variable mReceiveEvent, mSendEvent;
-    std::string mReceiveData, mSendData;
-    bool mIsReceive = false, mIsSend = false, mClose = false, mReject = false;
-  };
-
-  explicit IntrusiveConnection(Status *I) : mStatus(I) {}
-
-public:
-  /// This response is going to be set if connection is closed but request
-  /// has been received.
-  struct Reject {
-    operator const std::string & () {
-      static const std::string Code = "REJECT";
-      return Code;
-    }
-  };
-
-  IntrusiveConnection(const IntrusiveConnection &) = delete;
-  IntrusiveConnection & operator=(const IntrusiveConnection &) = delete;
-
-  /// Move constructor.
-  IntrusiveConnection(IntrusiveConnection &&C) : mStatus(C.mStatus) {
-    C.mStatus = nullptr;
-  }
-
-  /// Move assignment.
-  IntrusiveConnection & operator=(IntrusiveConnection &&C) {
-    if (this == &C)
-      return *this;
-    IntrusiveConnection Tmp(std::move(C));
-    std::swap(mStatus, Tmp.mStatus);
-    return *this;
-  }
-
-  /// Destructor.
-  ~IntrusiveConnection() {
-    if (!mStatus)
-      return;
-    // Notify under the lock: the waiting side frees the status as soon as it
-    // observes mReject.
-    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-    mStatus->mReject = true;
-    mStatus->mSendEvent.notify_one();
-  }
-
-  /// \brief Receives a request, evaluates it and sends response.
-  ///
-  /// \param [in] F A function with prototype std::string(const std::string &).
-  /// A parameter is a request and a return value is a response.
-  /// \return true on success, otherwise returns false. If this function
-  /// returns false then function 'F' has not been invoked, connection
-  /// is broken and socket is closed.
-  template<class Function> bool answer(Function F) {
-    if (!mStatus)
-      return false;
-    std::string Data;
-    bool Close = false;
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mReceiveMutex);
-      mStatus->mReceiveEvent.wait(Lock,
-        [this] { return mStatus->mIsReceive || mStatus->mClose; });
-      Close = mStatus->mClose;
-      Data = mStatus->mReceiveData;
-      mStatus->mReceiveData.clear();
-      mStatus->mIsReceive = false;
-    }
-    if (Close) {
-      {
-        // Notify under the lock (look at the destructor for details).
-        std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-        mStatus->mReject = true;
-        mStatus->mSendEvent.notify_one();
-      }
-      mStatus = nullptr;
-      return false;
-    }
-    Data = F(Data);
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-      mStatus->mSendData = Data;
-      mStatus->mIsSend = true;
-    }
-    mStatus->mSendEvent.notify_one();
-    return true;
-  }
-
-  /// \brief Starts connection.
-  ///
-  /// \param [in] S Socket which provides connection.
-  /// \param [in] Delimiter This separates different requests.
-  /// \param [in, out] F Implementation of a server with prototype
-  /// void(IntrusiveConnection, ArgsTy...)
-  /// \param [in, out] Args Arguments which will be passed to F when server
-  /// is be started.
-  ///
-  /// Sometimes multiple requests may be joined. If a client send:
-  /// 'foo' then 'bar', the server may receive two different requests 'foo' then
-  /// 'bar' or a single request 'foobar'. To avoid the last case the Delimiter
-  /// parameter can be used.
-  /// For example, if it is known that a client uses '$' to separate different
-  /// requests ('foo$' then 'bar$'), it is possible to set Delimiter parameter
-  /// to '$'. Note that the delimiter also used when server sends responses
-  /// (even for REJECT response), so it will send 'response to foo$' then
-  /// 'response to bar$'. To avoid use of delimiters set Delimiter parameter
-  /// to '\0'.
-  template<class Function, class... ArgsTy>
-  static void connect(const bcl::Socket<std::string> *S,
-      char Delimiter, Function &&F, ArgsTy&&... Args) {
-    auto CS = new Status;
-    std::thread Engine(std::forward<Function>(F),
-      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
-    Engine.detach();
-    auto *Reject = new bool(false);
-    S->closed([Reject, CS](bool) {
-      if (!*Reject) {
-        {
-          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
-          CS->mClose = true;
-        }
-        CS->mReceiveEvent.notify_one();
-        {
-          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
-          CS->mSendEvent.wait(Lock, [CS] { return CS->mReject; });
-        }
-        delete CS;
-      }
-      delete Reject;
-    });
-    // It is not possible to store socket S in connection status CS, because
-    // when CS will be deleted it is necessary to access S to send REJECT
-    // response.
-    S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      std::queue<std::string> Buffer;
-      std::stringstream IS(Request);
-      std::string Item;
-      while (std::getline(IS, Item, Delimiter) && !IS.eof())
-        Buffer.push(Item);
-      // If there is no delimiter after last not empty string than this
-      // substring will be treated as a separate request.
-      // The last empty substring will be ignored.
-      if (!Item.empty())
-        Buffer.push(Item);
-      while (!Buffer.empty()) {
-        if (*Reject) {
-          S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-          Buffer.pop();
-          continue;
-        }
-        {
-          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
-          CS->mIsReceive = true;
-          CS->mReceiveData = Buffer.front();
-        }
-        CS->mReceiveEvent.notify_one();
-        Buffer.pop();
-        std::string Data;
-        {
-          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
-          CS->mSendEvent.wait(Lock,
-            [CS] { return CS->mIsSend || CS->mReject; });
-          // If CS->mReject is true, it is possible that there are some data,
-          // that have not been sent yet, so check it.
-          Data = CS->mIsSend ? CS->mSendData : IntrusiveConnection::Reject();
-          *Reject = CS->mReject;
-          CS->mSendData.clear();
-          CS->mIsSend = false;;
-        }
-        S->send(Data + Delimiter);
-        if (*Reject)
-          delete CS;
-      }
-    });
-  }
-
-private:
-  Status *mStatus;
-};
-}
-
-#endif//BCL_INTRUSIVE_CONNECTION_H
+//===- IntrusiveConnection.h -- Intrusive Connection ------------*- C++ -*-===//
+//
+//                       Base Construction Library (BCL)
+//
+// Copyright 2018 Nikita Kataev
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//===----------------------------------------------------------------------===//
+//
+// This file proposes intrusive connection between client and server.
+// Connection is intrusive because a server sends data to a client only when
+// it receive a request and a new request can be received only when the
+// previous one has been responded. It looks like this:
+//                          Client           Server
+//                            Request ->
+//                                    <- Response
+//                            Request ->
+//                                    <- Response
+//
+// There are two main functions:
+// - IntrusiveConnection::connect() starts connection;
+// - IntrusiveConnection::answer() answers a request.
+// Note that InstrusiveConnection can not be copied only move operations are
+// supported. This is due to the fact that when InstrusiveConnection is
+// destructed a connection will be automatically closed and all subsequent
+// requests is going to be rejected (client will receive
+// InstrusiveConnection::Reject response).
+//
+// Usage:
+//  void foo(bcl::IntrusiveConnection C) {
+//    do {
+//      C.answer([](const std::string &Request) {
+//         /* Answer a request */
+//      });
+//    } while (/*Exit if any requests are expected.*/);
+//  }
+//
+//  template<>
+//  void bcl::createServer<std::string>(const Socket<std::string> *S) {
+//    IntrusiveConnection::connect(S, '\0', foo);
+//}
+//
+//===----------------------------------------------------------------------===//
+
+#ifndef BCL_INTRUSIVE_CONNECTION_H
+#define BCL_INTRUSIVE_CONNECTION_H
+
+#include "Socket.h"
+#include <condition_variable>
+#include <mutex>
+#include <queue>
+#include <sstream>
+#include <thread>
+
+namespace bcl {
+/// Intrusive connection between client and server (look at the file beginning
+/// for details.
+class IntrusiveConnection {
+  struct Status {
+    std::mutex mReceiveMutex, mSendMutex;
+    std::condition_variable mReceiveEvent, mSendEvent;
+    std::string mReceiveData, mSendData;
+    bool mIsReceive = false, mIsSend = false, mClose = false, mReject = false;
+  };
+
+  explicit IntrusiveConnection(Status *I) : mStatus(I) {}
+
+public:
+  /// This response is going to be set if connection is closed but request
+  /// has been received.
+  struct Reject {
+    operator const std::string & () {
+      static const std::string Code = "REJECT";
+      return Code;
+    }
+  };
+
+  IntrusiveConnection(const IntrusiveConnection &) = delete;
+  IntrusiveConnection & operator=(const IntrusiveConnection &) = delete;
+
+  /// Move constructor.
+  IntrusiveConnection(IntrusiveConnection &&C) : mStatus(C.mStatus) {
+    C.mStatus = nullptr;
+  }
+
+  /// Move assignment.
+  IntrusiveConnection & operator=(IntrusiveConnection &&C) {
+    if (this == &C)
+      return *this;
+    IntrusiveConnection Tmp(std::move(C));
+    std::swap(mStatus, Tmp.mStatus);
+    return *this;
+  }
+
+  /// Destructor.
+  ~IntrusiveConnection() {
+    if (!mStatus)
+      return;
+    // Notify under the lock: the waiting side frees the status as soon as it
+    // observes mReject.
+    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+    mStatus->mReject = true;
+    mStatus->mSendEvent.notify_one();
+  }
+
+  /// \brief Receives a request, evaluates it and sends response.
+  ///
+  /// \param [in] F A function with prototype std::string(const std::string &).
+  /// A parameter is a request and a return value is a response.
+  /// \return true on success, otherwise returns false. If this function
+  /// returns false then function 'F' has not been invoked, connection
+  /// is broken and socket is closed.
+  template<class Function> bool answer(Function F) {
+    if (!mStatus)
+      return false;
+    std::string Data;
+    bool Close = false;
+    {
+      std::unique_lock<std::mutex> Lock(mStatus->mReceiveMutex);
+      mStatus->mReceiveEvent.wait(Lock,
+        [this] { return mStatus->mIsReceive || mStatus->mClose; });
+      Close = mStatus->mClose;
+      Data = mStatus->mReceiveData;
+      mStatus->mReceiveData.clear();
+      mStatus->mIsReceive = false;
+    }
+    if (Close) {
+      {
+        // Notify under the lock (look at the destructor for details).
+        std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+        mStatus->mReject = true;
+        mStatus->mSendEvent.notify_one();
+      }
+      mStatus = nullptr;
+      return false;
+    }
+    Data = F(Data);
+    {
+      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+      mStatus->mSendData = Data;
+      mStatus->mIsSend = true;
+    }
+    mStatus->mSendEvent.notify_one();
+    return true;
+  }
+
+  /// \brief Starts connection.
+  ///
+  /// \param [in] S Socket which provides connection.
+  /// \param [in] Delimiter This separates different requests.
+  /// \param [in, out] F Implementation of a server with prototype
+  /// void(IntrusiveConnection, ArgsTy...)
+  /// \param [in, out] Args Arguments which will be passed to F when server
+  /// is be started.
+  ///
+  /// Sometimes multiple requests may be joined. If a client send:
+  /// 'foo' then 'bar', the server may receive two different requests 'foo' then
+  /// 'bar' or a single request 'foobar'. To avoid the last case the Delimiter
+  /// parameter can be used.
+  /// For example, if it is known that a client uses '$' to separate different
+  /// requests ('foo$' then 'bar$'), it is possible to set Delimiter parameter
+  /// to '$'. Note that the delimiter also used when server sends responses
+  /// (even for REJECT response), so it will send 'response to foo$' then
+  /// 'response to bar$'. To avoid use of delimiters set Delimiter parameter
+  /// to '\0'.
+  template<class Function, class... ArgsTy>
+  static void connect(const bcl::Socket<std::string> *S,
+      char Delimiter, Function &&F, ArgsTy&&... Args) {
+    auto CS = new Status;
+    std::thread Engine(std::forward<Function>(F),
+      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
+    Engine.detach();
+    auto *Reject = new bool(false);
+    S->closed([Reject, CS](bool) {
+      if (!*Reject) {
+        {
+          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
+          CS->mClose = true;
+        }
+        CS->mReceiveEvent.notify_one();
+        {
+          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
+          CS->mSendEvent.wait(Lock, [CS] { return CS->mReject; });
+        }
+        delete CS;
+      }
+      delete Reject;
+    });
+    // It is not possible to store socket S in connection status CS, because
+    // when CS will be deleted it is necessary to access S to send REJECT
+    // response.
+    S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
+      std::queue<std::string> Buffer;
+      std::stringstream IS(Request);
+      std::string Item;
+      while (std::getline(IS, Item, Delimiter) && !IS.eof())
+        Buffer.push(Item);
+      // If there is no delimiter after last not empty string than this
+      // substring will be treated as a separate request.
+      // The last empty substring will be ignored.
+      if (!Item.empty())
+        Buffer.push(Item);
+      while (!Buffer.empty()) {
+        if (*Reject) {
+          S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+          Buffer.pop();
+          continue;
+        }
+        {
+          std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
+          CS->mIsReceive = true;
+          CS->mReceiveData = Buffer.front();
+        }
+        CS->mReceiveEvent.notify_one();
+        Buffer.pop();
+        std::string Data;
+        {
+          std::unique_lock<std::mutex> Lock(CS->mSendMutex);
+          CS->mSendEvent.wait(Lock,
+            [CS] { return CS->mIsSend || CS->mReject; });
+          // If CS->mReject is true, it is possible that there are some data,
+          // that have not been sent yet, so check it.
+          Data = CS->mIsSend ? CS->mSendData : IntrusiveConnection::Reject();
+          *Reject = CS->mReject;
+          CS->mSendData.clear();
+          CS->mIsSend = false;;
+        }
+        S->send(Data + Delimiter);
+        if (*Reject)
+          delete CS;
+      }
+    });
+  }
+
+private:
+  Status *mStatus;
+};
+}
+
+#endif//BCL_INTRUSIVE_CONNECTION_H
-- 
2.43.0


From d1d1b9b962924f5ab6a24fff09308ff8bd083bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 58/86] fix: two empty static maps can be merged

---
 include/bcl/cell.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 2a7b1e7..31819a7 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -623,6 +623,10 @@ template<class Right> struct MergeCell<StaticMap<>, Right> {
   typedef Right Result;
 };
 
+template<> struct MergeCell<StaticMap<>, StaticMap<> > {
+  typedef StaticMap<> Result;
+};
+
 /// Deletes memory allocated for a value which is stored in a cell if it has
 /// a pointer type.
 struct ClearCellFunctor {
-- 
2.43.0


From 845de46f15f39c059c990e0336d2f2d36e96e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 59/86] fix: wrong parameters of a NodeJSSocket connection are
 a TypeError, not an abort

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index a53a38d..c47d8d2 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -177,9 +177,10 @@ public:
     Local<Value> Argv[Argc] = { Args[0], Args[1] };
     Local<Function> Ctor = Local<Function>::New(CurrIsolate, mCtor);
     Local<Context> Ctx = CurrIsolate->GetCurrentContext();
-    Local<Object> Instance =
-      Ctor->NewInstance(Ctx, Argc, Argv).ToLocalChecked();
-    Args.GetReturnValue().Set(Instance);
+    Local<Object> Instance;
+    // There is no instance if parameters are wrong, so an exception is pending.
+    if (Ctor->NewInstance(Ctx, Argc, Argv).ToLocal(&Instance))
+      Args.GetReturnValue().Set(Instance);
   }
 
 private:
-- 
2.43.0


From d848e1b975d40d52ec57bb6a74abd0a31a516e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 60/86] fix: NodeJSSocket releases functions of a closed
 connection

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index c47d8d2..fa03a2f 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -66,6 +66,9 @@ public:
   SocketImp(Isolate *I, Local<Function> Send, Local<Function> On) :
     mIsolate(I), mSend(I, Send), mOn(I, On) {}
 
+  /// Release functions of the socket.
+  ~SocketImp() override { mSend.Reset(); mOn.Reset(); }
+
   /// Send a message.
   void send(const std::string &Message) const override {
     const unsigned Argc = 1;
-- 
2.43.0


From b1cbae9969277f479ebeeac625a08a933fb26ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 61/86] fix: a binary literal may comprise more than 31 digits

---
 include/bcl/utility.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index 0a47f52..6f15d00 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -83,7 +83,8 @@ template <char HighBit, char... Bits>
 struct ToBinary<HighBit, Bits...> {
   static_assert(HighBit == '0' || HighBit == '1', "Not a binary value!");
   static const unsigned long long Value =
-    (HighBit - '0') << (sizeof...(Bits)) | ToBinary<Bits...>::Value;
+    static_cast<unsigned long long>(HighBit - '0') << (sizeof...(Bits)) |
+    ToBinary<Bits...>::Value;
 };
 
 /// Implementation of a user-defined binary-literal.
-- 
2.43.0


From 76689ccbe9074dd34adf2d673013957f06f901a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 62/86] fix: digits of values narrower than int can be counted

---
 include/bcl/utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index 6f15d00..c24639a 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -110,7 +110,7 @@ constexpr unsigned long long operator "" _b() {
 template<class T>
 inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
-  return Value % Base != 0 ? 0 : numberOfLessZeros(Value / Base, Base) + 1;
+  return Value % Base != 0 ? 0 : numberOfLessZeros<T>(Value / Base, Base) + 1;
 }
 
 /// Returns a number of digits in a value which is represented in a number
@@ -118,7 +118,7 @@ inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
 template<class T>
 inline constexpr std::size_t numberOfDigits(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
-  return Value / Base == 0 ? 1 : numberOfDigits(Value / Base, Base) + 1;
+  return Value / Base == 0 ? 1 : numberOfDigits<T>(Value / Base, Base) + 1;
 }
 
 /// Returns a unit mask (11...1) of a specified type that comprises a specified
-- 
2.43.0


From 93905ae080ac394b761a72a2d5a7bf9927926e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 63/86] fix: legacy CopyFromCellFunctor writes its destination

---
 include/bcl/legacy/cell_legacy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/cell_legacy.h b/include/bcl/legacy/cell_legacy.h
index 7876f7d..37cb5cd 100644
--- a/include/bcl/legacy/cell_legacy.h
+++ b/include/bcl/legacy/cell_legacy.h
@@ -452,7 +452,7 @@ namespace Base
         typedef To_ To; //!< Назначение копирования.
 
         //! Создает функционал.
-        CopyFromCellFunctor( const To *to) : m_to( to) { ASSERT( m_to); }
+        CopyFromCellFunctor( To *to) : m_to( to) { ASSERT( m_to); }
 
         //! Выполняет копирование данных из заданной ячейки.
         template< class Cell_ > inline void operator( )( Cell_ *cell)
@@ -477,7 +477,7 @@ namespace Base
         template< class Cell_ > inline void CopyFrom( Cell_ *, Utility::False) { }
 
     private:
-        const To *m_to; //!< Назначение копирования.
+        To *m_to; //!< Назначение копирования.
     };
 }
 
-- 
2.43.0


From 4f5fef9d3dc94d241407ad4bfe3cbdde8f334f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 64/86] fix: legacy MergeCell of two empty collections

---
 include/bcl/legacy/cell_legacy.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/bcl/legacy/cell_legacy.h b/include/bcl/legacy/cell_legacy.h
index 37cb5cd..3826e17 100644
--- a/include/bcl/legacy/cell_legacy.h
+++ b/include/bcl/legacy/cell_legacy.h
@@ -348,6 +348,13 @@ namespace Base
         typedef Right_ Result;
     };
 
+    //! Объединяет две пустые последовательности ячеек.
+    template< > struct MergeCell< Utility::Null, Utility::Null >
+    {
+        //! Резлультат объединения.
+        typedef Utility::Null Result;
+    };
+
     //! Высвобождает память, если ячека содержит указатель.
     struct ClearCellFunctor
     {
-- 
2.43.0


From e97de9ba5306fe4ec14166bb23760700403bf443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 65/86] fix: legacy ToText of the least integer

---
 include/bcl/legacy/text.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/bcl/legacy/text.h b/include/bcl/legacy/text.h
index 97d53e0..3d1c198 100644
--- a/include/bcl/legacy/text.h
+++ b/include/bcl/legacy/text.h
@@ -47,6 +47,7 @@ namespace Base
     {
         CharUnicode buffer[ 20];
 
+        unsigned rest = value;
         int last = 0;
         int index = 0;
 
@@ -56,17 +57,17 @@ namespace Base
         if ( value < 0)
         {
             buffer[ index++] = '-';
-            value = -value;
+            rest = 0 - rest;
         }
 
-        for ( int tmp = value; tmp > 0; tmp /= 10, last++);
+        for ( unsigned tmp = rest; tmp > 0; tmp /= 10, last++);
 
         if ( index + last > 19)
             throw  Base::Exception< BCL >::Error< CELL_COLL_1( ErrorList::ConvertString) >( );
 
         buffer[ index + last] = '\0';
-        for ( index = index + last - 1; value > 0; value /= 10, index--)
-            buffer[ index] = value % 10 + '0';
+        for ( index = index + last - 1; rest > 0; rest /= 10, index--)
+            buffer[ index] = rest % 10 + '0';
 
         return buffer;
     }
@@ -88,6 +89,7 @@ namespace Base
     inline TextAnsi ToTextAnsi( int value)
     {
         CharAnsi buffer[ 20];
+        unsigned rest = value;
         int last = 0;
         int index = 0;
 
@@ -97,17 +99,17 @@ namespace Base
         if ( value < 0)
         {
             buffer[ index++] = '-';
-            value = -value;
+            rest = 0 - rest;
         }
 
-        for ( int tmp = value; tmp > 0; tmp /= 10, last++);
+        for ( unsigned tmp = rest; tmp > 0; tmp /= 10, last++);
 
         if ( index + last > 19)
             throw  Base::Exception< BCL >::Error< CELL_COLL_1( ErrorList::ConvertString) >( );
 
         buffer[ index + last] = '\0';
-        for ( index = index + last - 1; value > 0; value /= 10, index--)
-            buffer[ index] = value % 10 + '0';
+        for ( index = index + last - 1; rest > 0; rest /= 10, index--)
+            buffer[ index] = rest % 10 + '0';
 
         return buffer; 
     }
-- 
2.43.0


From 5e1059d7627b5b5f38d37a7c1483b8d96d85d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 66/86] fix: diff() of redirected input reports a failure and
 returns nothing

---
 include/bcl/RedirectIO.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 3ea6fd7..79c934f 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -212,8 +212,14 @@ public:
   /// read yet.
   std::string diff() {
     assert(mFile && "File must not be null!");
-    if (!isDiff() && !mIsInput)
+    if (mIsInput) {
+      if (std::fflush(mFile) != 0) {
+        storeErrNo("fflush");
+        return "";
+      }
+    } else if (!isDiff()) {
       return "";
+    }
     auto Pos = std::ftell(mFile);
     if (Pos == -1) {
       storeErrNo("ftell");
-- 
2.43.0


From dfb27e4a3550744cb49d14342fa4a8d425d0c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 67/86] fix: a position of a redirection survives a failure to
 set it

---
 include/bcl/RedirectIO.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 79c934f..289383c 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -255,11 +255,12 @@ public:
   /// Set position to perform diff() comparison to a current position.
   bool setDiffPos() {
     assert(mFile && "File must not be null!");
-    mDiffPos = std::ftell(mFile);
-    if (mDiffPos == -1) {
+    auto Pos = std::ftell(mFile);
+    if (Pos == -1) {
       storeErrNo("ftell");
       return false;
     }
+    mDiffPos = Pos;
     return true;
   }
 
-- 
2.43.0


From 5ae3239be654fefb888327fb979b2a24b32347e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 68/86] fix: legacy values did not compile (texts were renamed)

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 67a0ca4..0e980f5 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -29,8 +29,8 @@
 
 namespace Utility
 {
-    using DataBase::Text;
-    using DataBase::Char;
+    using Base::Text;
+    using Base::Char;
 
     //! Класс-обертка для значений заданного типа.
     /*! \tparam Type_ Тип значения.
-- 
2.43.0


From 0ca7be4a4272666f18c4732227178e5f2b6c42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 69/86] fix: comparisons of legacy values with plain ones
 returned nothing

---
 include/bcl/legacy/value.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 0e980f5..3ab19c8 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -572,7 +572,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) < right;
+        return static_cast< const Left_ & >( left) < right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -586,7 +586,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) <= right;
+        return static_cast< const Left_ & >( left) <= right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -600,7 +600,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) > right;
+        return static_cast< const Left_ & >( left) > right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -614,7 +614,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) >= right;
+        return static_cast< const Left_ & >( left) >= right;
     }
 
     //! Оператор сравнения с неопределенным значением.    
-- 
2.43.0


From 0e2adeb471fb5dfa5f678a54621ac98d8d86e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 70/86] fix: weak legacy values were compared as less instead
 of less or equal

---
 include/bcl/legacy/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 3ab19c8..cc299dd 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -439,7 +439,7 @@ namespace Utility
     {
         if ( left == undef || right == undef)
                 return false;
-        return static_cast< const Left_ & >( left) < static_cast< const Right_ & >( right);
+        return static_cast< const Left_ & >( left) <= static_cast< const Right_ & >( right);
     }
     //! Оператор сравнения двух классов-оберток.
     /*! Выполняет сравнение на больше двух классов-оберток, 
-- 
2.43.0


From b6be4b7da2523e78dd453708676a0cef01974085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 71/86] fix: a legacy pointer was undefined when it was defined

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index cc299dd..f94758c 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -271,10 +271,10 @@ namespace Utility
         operator const Type & ( ) const { return m_value; }        
 
         //! Оператор сравнения с неопределенным значением.
-        bool operator==( Null) { return m_value; }      
+        bool operator==( Null) { return !m_value; }      
 
         //! Оператор сравнения с неопределенным значением.
-        bool operator==( Null) const { return m_value; }      
+        bool operator==( Null) const { return !m_value; }      
 
         //! Оператор сравнения с неопределенным значением.
         bool operator!=( Null) { return m_value; }      
-- 
2.43.0


From 93764210f16e8636854d51e42155f420f5d6dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 72/86] fix: copying an undefined legacy value read an
 uninitialised one

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index f94758c..b6b5f59 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -137,10 +137,10 @@ namespace Utility
 
     public:
         //! Конструктор умолчания, создает неопределенное значение.
-        Value( ) : m_defined( false){ }
+        Value( ) : m_value( ), m_defined( false){ }
 
         //! Конструктор копирования, неопределенного значения.
-        Value( Null) : m_defined( false) { }        
+        Value( Null) : m_value( ), m_defined( false) { }        
 
         //! Конструктор копирования на основе хранимого значения.
         Value( const Type &value) : 
-- 
2.43.0


From 7d7b6def57bfd6ad4efd2cf0ecde83468f06d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 73/86] fix: branches of tree vertices are distinct bases

---
 include/bcl/legacy/tree.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/bcl/legacy/tree.h b/include/bcl/legacy/tree.h
index d0c8d34..5db1113 100644
--- a/include/bcl/legacy/tree.h
+++ b/include/bcl/legacy/tree.h
@@ -58,29 +58,31 @@ namespace Base
     };
 
     //! Дуга от вершины к левому поддереву.
-    /*! \tparam Left_ Корень левого поддерева.
+    /*! \tparam Id_ Идентификатор вершины.
+        \tparam Left_ Корень левого поддерева.
     */
-    template< class Left_ > class LeftBranchImp : public Left_
+    template< class Id_, class Left_ > class LeftBranchImp : public Left_
     { 
     protected:
         //! Создает дугу.
-        LeftBranchImp< Left_ >( ) { }
+        LeftBranchImp( ) { }
 
         //! Создает дугу.
-        LeftBranchImp< Left_ >( const Left_ &left) : Left_( left) { }
+        LeftBranchImp( const Left_ &left) : Left_( left) { }
     };
 
     //! Дуга от вершины к правому поддереву.
-    /*! \tparam Right_ Корень правого поддерева.
+    /*! \tparam Id_ Идентификатор вершины.
+        \tparam Right_ Корень правого поддерева.
     */
-    template< class Right_ > class RightBranchImp : public Right_ 
+    template< class Id_, class Right_ > class RightBranchImp : public Right_ 
     { 
     protected:
         //! Создает дугу.
-        RightBranchImp< Right_ >( ) { }
+        RightBranchImp( ) { }
 
         //! Создает дугу.
-        RightBranchImp< Right_ >( const Right_ &right) : Right_( right) { }
+        RightBranchImp( const Right_ &right) : Right_( right) { }
     };
 
     //! Статическое дерево.
@@ -90,8 +92,8 @@ namespace Base
     */
     template< class Id_, class Left_ = Utility::Null, class Right_ = Utility::Null >
     class Node : 
-        public LeftBranchImp< Left_ >, 
-        public RightBranchImp< Right_ >, 
+        public LeftBranchImp< Id_, Left_ >, 
+        public RightBranchImp< Id_, Right_ >, 
         public virtual Utility::If< Utility::IsReference< typename Id_::ValueType >,
                                     Utility::Unassignable,
                                     Utility::Copyable >::Result
@@ -101,10 +103,10 @@ namespace Base
         typedef typename Id::ValueType ValueType; //!< Тип значений, хранимых в корне.
 
         typedef Left_ Left; //!< Левое поддерево.
-        typedef LeftBranchImp< Left > LeftBranch; //!< Дуга к левому поддереву.
+        typedef LeftBranchImp< Id, Left > LeftBranch; //!< Дуга к левому поддереву.
 
         typedef Right_ Right; //!< Правое поддерево.
-        typedef RightBranchImp< Right > RightBranch; //!< Дуга к правому поддереву.
+        typedef RightBranchImp< Id, Right > RightBranch; //!< Дуга к правому поддереву.
 
         typedef Node< Id, Left, Right > Root; //!< Корень дерева.
 
-- 
2.43.0


From 4227c37343bcb6aeff75a78a24f638e1db2abfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 74/86] fix: Visit() ends at an empty tree

---
 include/bcl/legacy/tree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bcl/legacy/tree.h b/include/bcl/legacy/tree.h
index 5db1113..183bf00 100644
--- a/include/bcl/legacy/tree.h
+++ b/include/bcl/legacy/tree.h
@@ -175,6 +175,9 @@ namespace Base
         ValueType m_value; //!< Значение хранимое в ячейке.
     };
 
+    //! Перегрузка для пустого дерева.
+    template< class Functor_ > void Visit( Utility::Null, Functor_ &) { }
+
     //! Выполняет функционал над всеми вершинами дерева.
     /*! \tparam Root_ Корень дерева.
         \tparam Functor_ Функционал который должен быть выполнен.
-- 
2.43.0


From db7db2592297607afb916cf758cbc55afbed9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 75/86] fix: a receive listener may add another one

---
 lib/Socket/CSocket/CSocket.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index a08e2f1..53274d0 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -31,6 +31,7 @@
 #include <cassert>
 #include <csignal>
 #include <chrono>
+#include <deque>
 #include <future>
 #include <list>
 #include <string>
@@ -244,8 +245,9 @@ public:
       }
       Buffer.get()[ReceivedInfo.first] = '\0';
       mOn(bcl::net::SocketStatus::Receive, mConnection);
-      for (auto &Callback : mReceiveCallbacks)
-        Callback(std::string(Buffer.get(), ReceivedInfo.first));
+      // A callback may add other ones.
+      for (std::size_t I = 0, EI = mReceiveCallbacks.size(); I < EI; ++I)
+        mReceiveCallbacks[I](std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
         return 1;
@@ -270,7 +272,7 @@ public:
   bcl::net::Connection mConnection;
   std::size_t mBufferSize;
   bcl::net::SocketStatusHandler mOn;
-  mutable std::vector<ReceiveCallback> mReceiveCallbacks;
+  mutable std::deque<ReceiveCallback> mReceiveCallbacks;
   mutable std::vector<ClosedCallback> mClosedCallbacks;
   mutable State mState = State::Open;
 };
-- 
2.43.0


From fb5d4feb049e800783a31b0d04be307d4df8e316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 76/86] fix: traits of any descriptor can be set or unset at
 once

---
 include/bcl/trait.h | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 0ab6622..9bdb8af 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -896,31 +896,39 @@ template<class Descriptor, class... WhatTy> struct UnsetFunctor {
   static void unset(Descriptor &Dptr) { Dptr.template unset<WhatTy...>(); }
 };
 
-template<class Descriptor, class... Groups>
-struct UnsetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {
-  static void unset(Descriptor &Dptr) { Dptr.template unset<Groups...>(); }
+template<class Descriptor, class... WhatTy>
+struct UnsetFunctor<Descriptor, bcl::TypeList<WhatTy...>> {
+  static void unset(Descriptor &Dptr) { Dptr.template unset<WhatTy...>(); }
 };
 
+template<class Descriptor, class... Groups>
+struct UnsetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> :
+  public UnsetFunctor<Descriptor,
+    typename RemoveDuplicate<typename TraitList<Groups...>::Type>::Type> {};
+
 template<class Descriptor, class TraitMap, class TraitTaggeds, class... Groups>
 struct UnsetFunctor<Descriptor,
-    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> {
-  static void unset(Descriptor &Dptr) { Dptr.template unset<Groups...>(); }
-};
+    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> :
+  public UnsetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {};
 
 template<class Descriptor, class... WhatTy> struct SetFunctor {
   static void set(Descriptor &Dptr) { Dptr.template set<WhatTy...>(); }
 };
 
-template<class Descriptor, class... Groups>
-struct SetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {
-  static void set(Descriptor &Dptr) { Dptr.template set<Groups...>(); }
+template<class Descriptor, class... WhatTy>
+struct SetFunctor<Descriptor, bcl::TypeList<WhatTy...>> {
+  static void set(Descriptor &Dptr) { Dptr.template set<WhatTy...>(); }
 };
 
+template<class Descriptor, class... Groups>
+struct SetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> :
+  public SetFunctor<Descriptor,
+    typename RemoveDuplicate<typename TraitList<Groups...>::Type>::Type> {};
+
 template<class Descriptor, class TraitMap, class TraitTaggeds, class... Groups>
 struct SetFunctor<Descriptor,
-    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> {
-  static void set(Descriptor &Dptr) { Dptr.template set<Groups...>(); }
-};
+    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> :
+  public SetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {};
 
 template<class WhereTy> struct SetTraitFunctor {
   template<class Trait> void operator()() {
-- 
2.43.0


From e134f8df29594d2f0e33cc28007ecb0bd544b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 77/86] fix: keep a closed connection until its late listeners
 have been called

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index fa03a2f..6f2d944 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -197,8 +197,12 @@ private:
   static void startServer(const FunctionCallbackInfo<Value>& Args) {
     auto* C = ObjectWrap::Unwrap<Connection>(Args.Holder());
     createServer(C->mSocket);
-    // Listeners of a server must be called before the connection is released.
-    C->mSocket->closed([C](bool){ C->Unref(); });
+    // Listeners of a server must be called before the connection is released,
+    // including those which a server registers later.
+    C->mSocket->closed([C](bool) {
+      Isolate::GetCurrent()->EnqueueMicrotask(
+        [](void *Data) { static_cast<Connection *>(Data)->Unref(); }, C);
+    });
   }
 
   /// Create new instance of this object.
-- 
2.43.0


From 85f4e17cfe3242dc63b4923424d156d9fae41d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 78/86] fix: go on serving if a thread for a new connection
 cannot be created

---
 lib/Socket/CSocket/CSocket.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 53274d0..260e2b8 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -35,6 +35,7 @@
 #include <future>
 #include <list>
 #include <string>
+#include <system_error>
 #include <thread>
 #include <vector>
 
@@ -390,8 +391,14 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     on(net::SocketStatus::Accept, NewConnection);
     // Do not identify connections by descriptors: a descriptor may be already
     // reused while its previous owner is still executing closed callbacks.
-    ActiveSockets.push_back(std::async(std::launch::async,
-      engine, ConnectionFD, std::move(NewConnection)));
+    try {
+      ActiveSockets.push_back(
+        std::async(std::launch::async, engine, ConnectionFD, NewConnection));
+    } catch (const std::system_error &) {
+      // It is not possible to launch a thread to maintain the connection.
+      on(net::SocketStatus::AcceptError, NewConnection);
+      closeAndLog(ConnectionFD, NewConnection);
+    }
   }
   closeAndLog(SocketFD, Connection);
   finalize();
-- 
2.43.0


From c22bbfe229133af456647a3f10b79ca541a5d7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 79/86] fix: emplace an element of the queue itself as a new
 one

The second emplace() overwrote the first element with a pointer to the
container before its argument, a reference to this element, was read.
---
 include/bcl/transparent_queue.h | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 5b8133b..44cd693 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -151,17 +151,7 @@ public:
 
   /// Pushes new element to the end of the queue.
   template<class... ArgTy> void emplace(ArgTy&&... Args) {
-    if (mIsSingle) {
-      if (mIsEmpty) {
-        push(value_type{Args...});
-        return;
-      }
-      mIsSingle = false;
-      Ty *Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
-    }
-    mQueue->emplace(Args...);
+    push(value_type{Args...});
   }
 
   /// \brief Exchanges the contents of the queue with those of other.
-- 
2.43.0


From 58db1e9f81aed67b66cb1427a9b3784d9bc5a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 80/86] fix: leave the queue unchanged if there is no memory
 for a container

The queue considered its single element to be a container and deleted it.
---
 include/bcl/transparent_queue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 44cd693..f5cb838 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -104,10 +104,10 @@ public:
         mValue = V;
         return;
       }
+      auto *Queue = new Container();
+      Queue->push(mValue);
+      mQueue = Queue;
       mIsSingle = false;
-      auto Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
     }
     mQueue->push(V);
   }
-- 
2.43.0


From 61c5e0a5b4d68b9ff8e729daaa1012982800590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 81/86] fix: do not leak the text of a diagnostic which cannot
 be formatted

---
 include/bcl/Diagnostic.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 59a27bf..7be4d74 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -204,13 +204,13 @@ public:
       return false;
     }
     auto Size = PreSize + ErrSize + 1;
-    char *Buf = new char[Size];
-    if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
-        std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
+    std::unique_ptr<char[]> Buf(new char[Size]);
+    if (std::snprintf(Buf.get(), PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
+        std::snprintf(Buf.get() + PreSize, ErrSize + 1, Fmt, A...) < 0) {
       ++mInternalError;
       return false;
     }
-    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
+    mDiagnostics.emplace_back(std::move(Buf));
     return true;
   }
 private:
-- 
2.43.0


From 51c7d8e6cb5984147621b03900b830bafe137378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 82/86] fix: apply a temporary function object to traits, not
 copies of it

---
 include/bcl/trait.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 9bdb8af..c63a1fe 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -299,7 +299,7 @@ template<class Function, class Descriptor, class... Traits> struct ForEachIfSet;
 template<class Function, class Descriptor, class First, class... Traits>
 struct ForEachIfSet<Function, Descriptor, First, Traits...> {
   /// \brief Executes the function for each trait which is set.
-  static void exec(const Descriptor &TD, Function F) {
+  static void exec(const Descriptor &TD, Function &F) {
     ForEachIfSet<Function, Descriptor, First>::exec(TD, F);
     ForEachIfSet<Function, Descriptor, Traits...>::exec(TD, F);
   }
@@ -316,7 +316,7 @@ struct ForEachIfSet<Function, Descriptor, TypeList<Traits...>> :
 template<class Function, class Descriptor, class Trait>
 struct ForEachIfSet<Function, Descriptor, Trait> {
   /// Execute a specified function if a trait is set.
-  static void exec(const Descriptor &TD, Function F) {
+  static void exec(const Descriptor &TD, Function &F) {
     if (!TD.template is<Trait>())
       return;
 #if defined __GNUC__ || defined __clang__ || defined _MSC_VER && _MSC_VER >= 1911
@@ -331,7 +331,7 @@ struct ForEachIfSet<Function, Descriptor, Trait> {
 /// in a descriptor.
 template<class Function, class Descriptor>
 struct ForEachIfSet<Function, Descriptor> {
-  static void exec(const Descriptor &, Function) {}
+  static void exec(const Descriptor &, Function &) {}
 };
 }
 }
-- 
2.43.0


From a6bdff0e6f1d812d914596630261007d53b40815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 83/86] fix: allow a single member of a top-level JSON object
 to have a type with commas

---
 include/bcl/JsonObjectMacros.h   | 2 +-
 scripts/json_object_macro_gen.pl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/JsonObjectMacros.h b/include/bcl/JsonObjectMacros.h
index 7c2255a..5d878a3 100644
--- a/include/bcl/JsonObjectMacros.h
+++ b/include/bcl/JsonObjectMacros.h
@@ -298,7 +298,7 @@
   JSON_ACCESS_30(Object_, Name_1_, Name_2_, Name_3_, Name_4_, Name_5_, Name_6_, Name_7_, Name_8_, Name_9_, Name_10_, Name_11_, Name_12_, Name_13_, Name_14_, Name_15_, Name_16_, Name_17_, Name_18_, Name_19_, Name_20_, Name_21_, Name_22_, Name_23_, Name_24_, Name_25_, Name_26_, Name_27_, Name_28_, Name_29_, Name_30_)
 
 #define JSON_OBJECT_ROOT_PAIR(Object_, Name_, Type_) \
-  JSON_VALUE(Name_, Type_) \
+  JSON_VALUE(Name_, BCL_JOIN(Type_)) \
   JSON_OBJECT_ROOT(Object_, Name_) \
   JSON_ACCESS(Object_, Name_)
 #define JSON_OBJECT_ROOT_PAIR_2(Object_, Name_1_, Type_1_, Name_2_, Type_2_) \
diff --git a/scripts/json_object_macro_gen.pl b/scripts/json_object_macro_gen.pl
index bdb06be..b93d50f 100644
--- a/scripts/json_object_macro_gen.pl
+++ b/scripts/json_object_macro_gen.pl
@@ -70,7 +70,7 @@ EOS
 print <<EOS;
 
 #define JSON_OBJECT_ROOT_PAIR(Object_, Name_, Type_) \\
-  JSON_VALUE(Name_, Type_) \\
+  JSON_VALUE(Name_, BCL_JOIN(Type_)) \\
   JSON_OBJECT_ROOT(Object_, Name_) \\
   JSON_ACCESS(Object_, Name_)
 EOS
-- 
2.43.0


From 34f5521130d6cf1741b97d1e848cc20819457751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 84/86] fix: a closed listener registered by a closed listener
 invalidated the running one

---
 lib/Socket/CSocket/CSocket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 260e2b8..98f246d 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -265,8 +265,9 @@ public:
     } else {
       mOn(bcl::net::SocketStatus::Close, mConnection);
     }
-    for (auto &Callback : mClosedCallbacks)
-      Callback(IsOk);
+    // A callback may add other ones.
+    for (std::size_t I = 0, EI = mClosedCallbacks.size(); I < EI; ++I)
+      mClosedCallbacks[I](IsOk);
   }
 
   SocketT mConnectionFD;
@@ -274,7 +275,7 @@ public:
   std::size_t mBufferSize;
   bcl::net::SocketStatusHandler mOn;
   mutable std::deque<ReceiveCallback> mReceiveCallbacks;
-  mutable std::vector<ClosedCallback> mClosedCallbacks;
+  mutable std::deque<ClosedCallback> mClosedCallbacks;
   mutable State mState = State::Open;
 };
 }
-- 
2.43.0


From 0ab5f00ba0a9bc3cfda38b080d8e0ef0209e620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 85/86] fix: a message sent after a connection was closed went
 to a released descriptor

---
 lib/Socket/CSocket/CSocket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 98f246d..c9f6bfd 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -214,7 +214,10 @@ public:
      , mOn(on) {}
 
   void send(const std::string &Message) const override {
-    if (!sendData(mConnectionFD, Message)) {
+    // A descriptor of closed connection may be already used by another one.
+    if (mState == State::Closed) {
+      mOn(bcl::net::SocketStatus::SendError, mConnection);
+    } else if (!sendData(mConnectionFD, Message)) {
       mOn(bcl::net::SocketStatus::SendError, mConnection);
       mState = State::OnClose;
     } else {
-- 
2.43.0


From c81a9a8d1e92293ec558a882a59918b425da2fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 86/86] fix: legacy object wrappers (IObject) did not compile

---
 include/bcl/utility.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index c24639a..43d89f6 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -834,10 +834,10 @@ namespace Utility
         //! Присваивает новое значение.
         This & operator= ( const Opposite &object)
         {
-            Super::m_object = object;
             *object;
+            Super::operator=( object);
 
-            return this;
+            return *this;
         }
 
         //! Признак определенного значения объекта.
@@ -881,23 +881,23 @@ namespace Utility
 
         //! Конструктор копирования.
         IObject( const This &object) :
-            This( static_cast< Super & >( object)) { }
+            Super( object), m_ptr( object ? this : NULL) { }
 
         //! Конструктор копирования.
         IObject( const Opposite &object) :
-            This( static_cast< Super & >( object)) { }
+            Super( object), m_ptr( this) { }
 
         //! Выполняет разыменование объекта.
         Reference operator*( ) { return **m_ptr;}
 
         //! Выполняет разыменование объекта.
-        ReferenceC operator*( ) const { return *m_ptr;}
+        ReferenceC operator*( ) const { return **static_cast< const Super * >( m_ptr);}
 
         //! Выполняет разыменование объекта.
-        Pointer operator->( ) { return &*this; }
+        Pointer operator->( ) { return &**this; }
 
         //! Выполняет разыменование объекта.
-        PointerC operator->( ) const { return &*this; }
+        PointerC operator->( ) const { return &**this; }
 
         //! Присваивает новое значение.
         This & operator= ( const This &object)
@@ -905,22 +905,22 @@ namespace Utility
             if ( !object)
             {
                 Reset( );
-                return this;
+                return *this;
             }
 
-            Super::m_object = object;
+            Super::operator=( object);
             m_ptr = this;
 
-            return this;
+            return *this;
         }
 
         //! Присваивает новое значение.
         This & operator= ( const Opposite &object)
         {
-            Super::m_object = object;
+            Super::operator=( object);
             m_ptr = this;
 
-            return this;
+            return *this;
         }
 
         //! Признак определенного значения объекта.
@@ -969,9 +969,9 @@ namespace Utility
         //! Присваивает новое значение.
         This & operator= ( const Opposite &object)
         {
-            Super::m_object = object;
+            Super::operator=( object);
 
-            return this;
+            return *this;
         }
 
         //! Признак определенного значения объекта.
-- 
2.43.0

