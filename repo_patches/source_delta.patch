From 10dc5ed363eb5f288efa1d5558df97ed4bf19b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 01/30] fix: do not close descriptors and semaphores that were
 never opened (or twice)

---
 EigenIPC/include/EigenIPC/Client.hpp | 16 ++++++++--------
 EigenIPC/include/EigenIPC/Server.hpp | 18 +++++++++---------
 EigenIPC/src/MemUtils.hpp            | 26 ++++++++++++++------------
 3 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index f869b82..7fe4d9c 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -120,13 +120,13 @@ namespace EigenIPC{
             int _n_rows = -1;
             int _n_cols = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -146,7 +146,7 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             ReturnCode _return_code = ReturnCode::NONE; // overwritten by all methods
             // this is to avoid dyn. allocation
diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 9b28538..0f6d432 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -123,13 +123,13 @@ namespace EigenIPC{
 
             int _n_clients = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -144,8 +144,8 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _srvr_sem; // semaphore for servers uniqueness
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _srvr_sem = nullptr; // semaphore for servers uniqueness
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             Journal _journal; // for rt-friendly logging
 
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 71f9722..d48e57a 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -217,8 +217,14 @@ namespace EigenIPC{
                         VLevel vlevel = Journal::VLevel::V0,
                         bool unlink = false) {
 
-            // Closing the file descriptor (for this process only)
-            ::close(shm_fd);
+            // Closing the file descriptor (for this process only),
+            // provided that it was actually opened
+            if (shm_fd != -1) {
+
+                ::close(shm_fd);
+
+                shm_fd = -1; // never closing it twice
+            }
 
             return_code = return_code + ReturnCode::MEMFDCLOSED;
 
@@ -307,15 +313,6 @@ namespace EigenIPC{
 
                 }
 
-                if (shm_fd != -1) {
-                    // Close the file descriptor opened for checking existence
-
-                    ::close(shm_fd);
-
-                    return_code = return_code + ReturnCode::MEMFDCLOSED;
-
-                }
-
             }
 
         }
@@ -526,7 +523,12 @@ namespace EigenIPC{
                          VLevel vlevel = Journal::VLevel::V0,
                          bool unlink = false) {
 
-            sem_close(sem); // closes semaphore for the current process
+            if (sem != nullptr && sem != SEM_FAILED) {
+
+                sem_close(sem); // closes semaphore for the current process
+
+                sem = nullptr; // never closing it twice
+            }
 
             return_code = return_code + ReturnCode::SEMCLOSE;
 
-- 
2.43.0


From 60cedf7d9ab4c99d0b92c5da6bce0effe9c1e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 02/30] fix: release the data semaphore when an attachment is
 rejected

---
 EigenIPC/src/Client.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 4e777a5..ff68ddf 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -128,20 +128,31 @@ namespace EigenIPC {
         // (at this point is actually guaranteed to be free anyway)
         _acquireData(true, true); // blocking
 
-        _checkDType(); // checks data type consistency
+        try {
 
-        _checkMemLayout(); // checks memory layout consistency
+            _checkDType(); // checks data type consistency
 
-        _n_rows = _n_rows_view(0, 0);
-        _n_cols = _n_cols_view(0, 0);
-        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
+            _checkMemLayout(); // checks memory layout consistency
+
+            _n_rows = _n_rows_view(0, 0);
+            _n_cols = _n_cols_view(0, 0);
+
+            // we have now all the info to create the shared tensor
+            _initDataMem();
+
+            _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
+                                                _n_cols); // used to hold
+            // a copy of the shared tensor data
 
-        // we have now all the info to create the shared tensor
-        _initDataMem();
+        } catch (...) {
 
-        _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
-                                            _n_cols); // used to hold
-        // a copy of the shared tensor data
+            _releaseData(); // never leaving the data semaphore acquired
+            // when attachment fails
+
+            throw;
+        }
+
+        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
 
         // releasing data semaphore so that other clients/the server can access the tensor
         _releaseData();
-- 
2.43.0


From 05639d52d90bf6ed944ba0b177782c02b6f7c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 03/30] fix: reject clients whose scalar type differs but has
 the same size

---
 EigenIPC/src/Client.cpp | 11 ++++++-----
 EigenIPC/src/Server.cpp |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index ff68ddf..89b59c7 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -529,13 +529,14 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_checkDType()
     {
-        if (_dtype_view(0, 0) != sizeof(Scalar)) {
+        if (_dtype_view(0, 0) != static_cast<int>(CppTypeToDType<Scalar>::value)) {
 
-            // not impeccable: different types may have in general different sizes
+            // comparing types and not only their sizes (different types
+            // may have the same size)
 
-            std::string error = std::string("Client initialized with element size of ") +
-                    std::to_string(sizeof(Scalar)) +
-                    std::string(", while the Server was initialized with size ") +
+            std::string error = std::string("Client initialized with data type ") +
+                    std::to_string(static_cast<int>(CppTypeToDType<Scalar>::value)) +
+                    std::string(", while the Server was initialized with data type ") +
                     std::to_string(_dtype_view(0, 0));
 
             _journal.log(__FUNCTION__,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c47187e..d9788ca 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -834,7 +834,7 @@ namespace EigenIPC {
 
             _mem_layout_view(0, 0) = _mem_layout; // mem layout
 
-            _dtype_view(0, 0) = sizeof(Scalar);
+            _dtype_view(0, 0) = static_cast<int>(CppTypeToDType<Scalar>::value);
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 1995254361fd6ad5c5b43c377e552ac13daf3aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 04/30] fix: running a stopped server again must not release
 the data semaphore twice

---
 EigenIPC/include/EigenIPC/Server.hpp |  3 +++
 EigenIPC/src/Server.cpp              | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 0f6d432..d3d5375 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -113,6 +113,9 @@ namespace EigenIPC{
 
             bool _running = false;
 
+            bool _data_sem_held = false; // whether the data sem. is still held from
+            // the initialization (i.e. the server was not run yet)
+
             bool _force_reconnection = false;
 
             bool _data_acquired = false; // aux. variable,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index d9788ca..f185f85 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -108,6 +108,8 @@ namespace EigenIPC {
                         _data_sem,
                         _verbose); 
 
+        _data_sem_held = true;
+
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
         MemUtils::checkMem(_mem_config.mem_path,
@@ -185,9 +187,14 @@ namespace EigenIPC {
             // other servers trying to transition to running state will fail
             // due to the sever semaphore being acquired
 
-            _releaseSem(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose); // data can now be acquired by clients
+            if (_data_sem_held) { // only the first time
+
+                _releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _verbose); // data can now be acquired by clients
+
+                _data_sem_held = false;
+            }
 
             // set the running flag to true
             _running = true;
-- 
2.43.0


From 78b7a7c6d3ebc280cce8b2fa37ccb7611de09dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 05/30] fix: asking a server which was not run yet for its
 clients must not block

---
 EigenIPC/src/Server.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index f185f85..bc164bc 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -285,6 +285,16 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     int Server<Scalar, Layout>::getNClients() {
 
+        if (_data_sem_held) { 
+            
+            // still holding the data semaphore (not run yet) 
+            // --> acquiring it again would block forever
+
+            _n_clients = _n_clients_view(0, 0);
+
+            return _n_clients;
+        }
+
         _acquireData(true, false);
 
         _n_clients = _n_clients_view(0, 0);
-- 
2.43.0


From 1195d7ee322eaabae5a2d06bedb9be29c3e2f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:03 +0000
Subject: [PATCH 06/30] fix: report failures while mapping the data memory or
 opening semaphores

---
 EigenIPC/src/Client.cpp | 47 ++++++++++++++++++++++-----------------
 EigenIPC/src/Server.cpp | 49 +++++++++++++++++++++++------------------
 2 files changed, 55 insertions(+), 41 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 89b59c7..029dafa 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -814,27 +814,22 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
-
-            MemUtils::initMem<Scalar, Layout>(_n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
-            _return_code = _return_code + ReturnCode::RESET;
+        MemUtils::initMem<Scalar, Layout>(_n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
 
-        }
-        else {
+        if (isin(ReturnCode::MEMCREATFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMSETFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
 
             MemUtils::failWithCode(_return_code,
                                    _journal,
@@ -842,6 +837,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
@@ -935,6 +932,8 @@ namespace EigenIPC {
     void Client<Scalar, Layout>::_initSems()
     {
 
+        _return_code = _return_code + ReturnCode::RESET;
+
         MemUtils::semInit(_mem_config.mem_path_data_sem,
                           _data_sem,
                           _journal,
@@ -942,6 +941,14 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index bc164bc..c40b896 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -872,28 +872,23 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
-
-            MemUtils::initMem<Scalar, Layout>(
-                            _n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
-            _return_code = _return_code + ReturnCode::RESET;
+        MemUtils::initMem<Scalar, Layout>(
+                        _n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
 
-        }
-        else {
+        if (isin(ReturnCode::MEMCREATFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMSETFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
 
             MemUtils::failWithCode(_return_code,
                                    _journal,
@@ -901,12 +896,16 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_initSems()
     {
 
+        _return_code = _return_code + ReturnCode::RESET;
+
         MemUtils::semInit(_mem_config.mem_path_server_sem,
                           _srvr_sem,
                           _journal,
@@ -921,6 +920,14 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From cc2adc3c7c62d004d33b02c8a97429033eecd28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 07/30] fix: constructing a server on a served name must fail
 without destroying it

---
 EigenIPC/include/EigenIPC/Server.hpp |   4 +-
 EigenIPC/src/MemUtils.hpp            |   8 +++
 EigenIPC/src/Server.cpp              | 100 ++++++++++++++++++++-------
 3 files changed, 85 insertions(+), 27 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index d3d5375..2e0a784 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -192,7 +192,9 @@ namespace EigenIPC{
                                 bool verbose = false);
             void _releaseData();
 
-            void _closeSems();
+            void _checkNotServed();
+
+            void _closeSems(bool unlink = true);
 
             void _cleanMetaMem();
             void _cleanMems();
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index d48e57a..d7a8817 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -848,6 +848,14 @@ namespace EigenIPC{
                         verbose,
                         vlevel);
 
+                    if (isin(ReturnCode::SEMOPENFAIL, return_code)) {
+
+                        // nothing to acquire
+                        return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                        return;
+                    }
+
                     // recursive call. This will now work
                     acquireSemTimeout(sem_path,
                             sem,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c40b896..e920d8f 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -102,36 +102,64 @@ namespace EigenIPC {
         _sem_timeout.tv_sec = 0;
         _sem_timeout.tv_nsec = timeoutInNanoseconds % 1000000000;
 
-        _initSems(); // creates necessary semaphores
+        try {
 
-        _acquireSemTimeout(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose); 
+            _initSems(); // creates necessary semaphores
 
-        _data_sem_held = true;
+            _acquireSemTimeout(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _verbose); 
 
-        _return_code = _return_code + ReturnCode::RESET; // resets to None
+            _data_sem_held = true;
 
-        MemUtils::checkMem(_mem_config.mem_path,
-                            _data_shm_fd,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel,
-                            _unlink_data); // checks if memory was already allocated
-        // if yes, cleans it up
+            if (!_force_reconnection) {
 
-        _return_code = _return_code + ReturnCode::RESET;
+                _checkNotServed(); // another server must not be already running
+            }
+
+        } catch (...) {
+
+            if (_data_sem_held) {
+
+                _releaseData();
+            }
 
-        // data memory
-        _initDataMem();
+            _closeSems(false); // no unlinking: they could belong to another server
 
-        // auxiliary data
-        _initMetaMem();
+            throw;
+        }
+
+        try {
+
+            _return_code = _return_code + ReturnCode::RESET; // resets to None
+
+            MemUtils::checkMem(_mem_config.mem_path,
+                                _data_shm_fd,
+                                _journal,
+                                _return_code,
+                                _verbose,
+                                _vlevel,
+                                _unlink_data); // checks if memory was already allocated
+            // if yes, cleans it up
+
+            _return_code = _return_code + ReturnCode::RESET;
 
-        _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
-                                            _n_cols); // used to hold
-        // a copy of the shared tensor data
+            // data memory
+            _initDataMem();
+
+            // auxiliary data
+            _initMetaMem();
+
+            _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
+                                                _n_cols); // used to hold
+            // a copy of the shared tensor data
+
+        } catch (...) {
+
+            _cleanMems(); // the destructor won't be called
+
+            throw;
+        }
 
         _terminated = false; // just in case
 
@@ -931,9 +959,29 @@ namespace EigenIPC {
     }
 
     template <typename Scalar, int Layout>
-    void Server<Scalar, Layout>::_closeSems()
+    void Server<Scalar, Layout>::_checkNotServed()
+    {
+        // the server semaphore is held as long as a server is running
+        int srvr_sem_val = 0;
+
+        if (sem_getvalue(_srvr_sem, &srvr_sem_val) == -1 ||
+            srvr_sem_val <= 0) {
+
+            std::string error = std::string("A server is already running at ") +
+                    _mem_config.mem_path;
+
+            _journal.log(__FUNCTION__,
+                         error,
+                         LogType::EXCEP,
+                         true); // actually raise exception
+
+        }
+    }
+
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_closeSems(bool unlink)
     {
-        // closes semaphores and also unlinks it
+        // closes semaphores and also unlinks them (if requested)
         // Other processes who had it open can still use it, but no new
         // process can access it
         MemUtils::semClose(_mem_config.mem_path_server_sem,
@@ -942,7 +990,7 @@ namespace EigenIPC {
                            _return_code,
                            _verbose,
                            _vlevel,
-                           true);
+                           unlink);
 
         MemUtils::semClose(_mem_config.mem_path_data_sem,
                            _data_sem,
@@ -950,7 +998,7 @@ namespace EigenIPC {
                            _return_code,
                            _verbose,
                            _vlevel,
-                           true);
+                           unlink);
 
     }
 
-- 
2.43.0


From 13156f3e025bd6c210054c5b97d47eb593c06e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 08/30] fix: clients waiting across a server restart must
 attach to the new server's memory

---
 EigenIPC/include/EigenIPC/Client.hpp |  1 +
 EigenIPC/src/Client.cpp              | 47 +++++++++++++++++++++-------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index 7fe4d9c..77624f8 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -193,6 +193,7 @@ namespace EigenIPC{
             // consistent with Server
 
             void _initDataMem();
+            void _initIsRunningMem();
             void _initMetaMem();
 
             void _initSems();
diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 029dafa..7b310b6 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -118,10 +118,13 @@ namespace EigenIPC {
 
         }
 
-        _initMetaMem(); // initializes meta-memory
+        _initIsRunningMem(); // initializes the running flag
 
         _waitForServer();  // waits until server is properly initialized
 
+        _initMetaMem(); // initializes meta-memory (only now, since any meta-memory
+        // opened before could belong to a server which was closed in the meantime)
+
         _initSems(); // creates necessary semaphores
 
         // acquire shared data semaphore or waits for it
@@ -841,6 +844,38 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Client<Scalar, Layout>::_initIsRunningMem()
+    {
+        _return_code = _return_code + ReturnCode::RESET;
+
+        MemUtils::initMem<bool>(1,
+                        1,
+                        _mem_config.mem_path_isrunning,
+                        _isrunning_shm_fd,
+                        _isrunning_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
+
+        if (isin(ReturnCode::MEMCREATFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMSETFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
+        _return_code = _return_code + ReturnCode::RESET;
+
+    }
+
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_initMetaMem()
     {
@@ -888,16 +923,6 @@ namespace EigenIPC {
                         _verbose,
                         _vlevel);
 
-        MemUtils::initMem<bool>(1,
-                        1,
-                        _mem_config.mem_path_isrunning,
-                        _isrunning_shm_fd,
-                        _isrunning_view,
-                        _journal,
-                        _return_code,
-                        _verbose,
-                        _vlevel);
-
         MemUtils::initMem<int>(1,
                         1,
                         _mem_config.mem_path_mem_layout,
-- 
2.43.0


From f9c4f48ceee1dc7f081891ad177e7478f5247352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 09/30] fix: release every mapping, descriptor and segment when
 closing or re-attaching

---
 EigenIPC/src/Client.cpp   | 17 +++++++++++++++++
 EigenIPC/src/MemUtils.hpp | 17 +++++++++++++++++
 EigenIPC/src/Server.cpp   | 33 ++++++++++++++++++++++++++++++++-
 3 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 7b310b6..b7143e3 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -106,6 +106,15 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::attach()
     {
+        if (_attached) {
+
+            return; // nothing to be done
+        }
+
+        _cleanMems(); // releases what was left by a previous attachment (if any)
+
+        _terminated = false;
+
         if (_verbose &&
             _vlevel > VLevel::V1) {
 
@@ -793,6 +802,14 @@ namespace EigenIPC {
 
             _closeSems(); // closing semaphores
 
+            MemUtils::unmapMem(_tensor_view);
+            MemUtils::unmapMem(_n_rows_view);
+            MemUtils::unmapMem(_n_cols_view);
+            MemUtils::unmapMem(_n_clients_view);
+            MemUtils::unmapMem(_dtype_view);
+            MemUtils::unmapMem(_isrunning_view);
+            MemUtils::unmapMem(_mem_layout_view);
+
             if (_verbose &&
                 _vlevel > VLevel::V1) {
 
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index d7a8817..b7d328c 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -208,6 +208,23 @@ namespace EigenIPC{
 
         }
 
+        template <typename Scalar,
+                  int Layout = MemLayoutDefault>
+        void unmapMem(MMap<Scalar, Layout>& tensor_view) {
+
+            // unmapping from this process (if mapped at all)
+            if (tensor_view.data() != nullptr) {
+
+                munmap(static_cast<void*>(tensor_view.data()),
+                       sizeof(Scalar) * tensor_view.size());
+
+                new (&tensor_view) MMap<Scalar, Layout>(nullptr,
+                                               tensor_view.rows(),
+                                               tensor_view.cols());
+            }
+
+        }
+
         inline void cleanUpMem(
                         const std::string& mem_path,
                         int& shm_fd,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index e920d8f..c71b872 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -207,6 +207,14 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::run()
     {
 
+        if (_terminated) {
+
+            _journal.log(__FUNCTION__,
+                         std::string("Cannot run a server which was already closed!"),
+                         LogType::EXCEP,
+                         true); // raise exception
+        }
+
         if (!isRunning()) {
             
             _acquireSemTimeout(_mem_config.mem_path_server_sem,
@@ -313,6 +321,11 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     int Server<Scalar, Layout>::getNClients() {
 
+        if (_terminated) {
+
+            return 0; // closed
+        }
+
         if (_data_sem_held) { 
             
             // still holding the data semaphore (not run yet) 
@@ -750,6 +763,15 @@ namespace EigenIPC {
                              _vlevel,
                              _unlink_data);
 
+        MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
+                             _isrunning_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             false); // not unlinked: clients might be
+        // waiting on it for the next server
+
         _return_code = _return_code + ReturnCode::RESET;
 
 
@@ -769,7 +791,8 @@ namespace EigenIPC {
                                  _journal,
                                  _return_code,
                                  _verbose,
-                                 _vlevel);
+                                 _vlevel,
+                                 _unlink_data);
 
             _return_code = _return_code + ReturnCode::RESET;
 
@@ -778,6 +801,14 @@ namespace EigenIPC {
 
             _closeSems(); // closing semaphores
 
+            MemUtils::unmapMem(_tensor_view);
+            MemUtils::unmapMem(_n_rows_view);
+            MemUtils::unmapMem(_n_cols_view);
+            MemUtils::unmapMem(_n_clients_view);
+            MemUtils::unmapMem(_dtype_view);
+            MemUtils::unmapMem(_isrunning_view);
+            MemUtils::unmapMem(_mem_layout_view);
+
             if (_verbose &&
                 _vlevel > VLevel::V1) {
 
-- 
2.43.0


From f6784d2d1fc489d351436c0a785fac30c365f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 10/30] fix: a new server must not share meta data with clients
 of a crashed one

---
 EigenIPC/include/EigenIPC/Server.hpp |  1 +
 EigenIPC/src/Server.cpp              | 51 ++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 2e0a784..7006499 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -169,6 +169,7 @@ namespace EigenIPC{
             std::string _getThisName();
 
             void _initDataMem();
+            void _checkMetaMem();
             void _initMetaMem();
 
             void _initSems();
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c71b872..a946d43 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -148,6 +148,8 @@ namespace EigenIPC {
             _initDataMem();
 
             // auxiliary data
+            _checkMetaMem(); // never sharing it with whoever was using the memory before
+
             _initMetaMem();
 
             _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
@@ -827,6 +829,55 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_checkMetaMem()
+    {
+        _return_code = _return_code + ReturnCode::RESET;
+
+        MemUtils::checkMem(_mem_config.mem_path_nrows,
+                            _nrows_shm_fd,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel,
+                            _unlink_data);
+
+        MemUtils::checkMem(_mem_config.mem_path_ncols,
+                            _ncols_shm_fd,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel,
+                            _unlink_data);
+
+        MemUtils::checkMem(_mem_config.mem_path_clients_counter,
+                            _n_clients_shm_fd,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel,
+                            _unlink_data);
+
+        MemUtils::checkMem(_mem_config.mem_path_dtype,
+                            _dtype_shm_fd,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel,
+                            _unlink_data);
+
+        MemUtils::checkMem(_mem_config.mem_path_mem_layout,
+                            _mem_layout_shm_fd,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel,
+                            _unlink_data);
+
+        _return_code = _return_code + ReturnCode::RESET;
+
+    }
+
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_initMetaMem()
     {
-- 
2.43.0


From 5f6879e9f39dfc0d8c6d48efe485856fa81425f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 11/30] fix: refuse string tensor accesses at negative indices
 or with oversized strings

---
 EigenIPC/include/EigenIPC/StringTensor.hpp |  2 ++
 EigenIPC/src/StringTensor.cpp              | 23 ++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/StringTensor.hpp b/EigenIPC/include/EigenIPC/StringTensor.hpp
index 7bf1d86..4e9ce1f 100644
--- a/EigenIPC/include/EigenIPC/StringTensor.hpp
+++ b/EigenIPC/include/EigenIPC/StringTensor.hpp
@@ -150,6 +150,8 @@ namespace EigenIPC {
             bool _fits(const std::vector<std::string>& vec,
                        int index);
 
+            bool _fits(const std::string& str); // not too long
+
             void _encode_str(const std::string& str,
                              int col_index);
 
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index a7658a5..e972dc7 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -172,6 +172,7 @@ namespace EigenIPC {
         // ordered evaluation)
 
         return isRunning() &&
+               _fits(vec, col_index) &&
                _sh_mem.read(_buffer.block(0, col_index,
                                                 _n_rows, vec.size()), 0, col_index) && // just update the block
                _decode_vec(vec, col_index);
@@ -218,7 +219,8 @@ namespace EigenIPC {
 
         if (!isRunning() ||
             col_index < 0 ||
-            col_index >= _length) {
+            col_index >= _length ||
+            !_fits(str)) {
 
             return false;
         }
@@ -285,6 +287,14 @@ namespace EigenIPC {
 
         }
 
+        for (const auto& str : vec) { // checking all of them before encoding any
+
+            if (!_fits(str)) {
+
+                return false;
+            }
+        }
+
         for (const auto& str : vec) { // for each string
 
             _encode_str(str, col_index);
@@ -371,7 +381,9 @@ namespace EigenIPC {
     bool StringTensor<ShMemType>::_fits(const std::vector<std::string>& vec,
                                        int index) {
 
-        if (index + vec.size() > _length) {
+        if (index < 0 ||
+            index > _length ||
+            vec.size() > static_cast<size_t>(_length - index)) {
 
             return false;
         }
@@ -380,4 +392,11 @@ namespace EigenIPC {
 
     }
 
+    template <typename ShMemType>
+    bool StringTensor<ShMemType>::_fits(const std::string& str) {
+
+        return str.size() <= static_cast<size_t>(_max_chars);
+
+    }
+
 }
-- 
2.43.0


From 9528dea0adaecea6890237f0ca97dc78d9a8ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 12/30] fix: StringTensor::getSharedMem must not hand out a
 copy which releases the tensor's resources

---
 .../bindings/PyEigenIPC/src/PyStringTensor.cpp   | 16 ++++++----------
 EigenIPC/include/EigenIPC/StringTensor.hpp       |  3 ++-
 EigenIPC/src/StringTensor.cpp                    |  4 ++--
 3 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 30d1431..6ab1333 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -122,13 +122,11 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self) {
+        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self) -> EigenIPC::StrServer& {
             
-            EigenIPC::StrServer str_server = self.getSharedMem();
+            return self.getSharedMem();
 
-            return str_server;
-
-        })
+        }, py::return_value_policy::reference_internal)
 
         ;
 
@@ -226,13 +224,11 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorClient(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self) {
+        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self) -> EigenIPC::StrClient& {
             
-            EigenIPC::StrClient str_server = self.getSharedMem();
+            return self.getSharedMem();
 
-            return str_server;
-
-        })
+        }, py::return_value_policy::reference_internal)
 
         ;
 }
diff --git a/EigenIPC/include/EigenIPC/StringTensor.hpp b/EigenIPC/include/EigenIPC/StringTensor.hpp
index 4e9ce1f..a430321 100644
--- a/EigenIPC/include/EigenIPC/StringTensor.hpp
+++ b/EigenIPC/include/EigenIPC/StringTensor.hpp
@@ -100,7 +100,8 @@ namespace EigenIPC {
 
             int getLength();
 
-            ShMemType getSharedMem();
+            ShMemType& getSharedMem(); // (not a copy, which would release the
+            // resources of the string tensor when destroyed)
 
             std::string getNamespace() const;
             std::string getBasename() const;
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index e972dc7..0a733e6 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -121,13 +121,13 @@ namespace EigenIPC {
     }
     
     template <>
-    StrServer StringTensor<StrServer>::getSharedMem() {
+    StrServer& StringTensor<StrServer>::getSharedMem() {
 
         return _sh_mem;
     }
 
     template <>
-    StrClient StringTensor<StrClient>::getSharedMem() {
+    StrClient& StringTensor<StrClient>::getSharedMem() {
 
         return _sh_mem;
     }
-- 
2.43.0


From 175994d9adbb4aeceb2a6968166026d4197d8eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 13/30] fix: a closed string tensor is not running anymore

---
 EigenIPC/src/StringTensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index 0a733e6..c8316d6 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -264,6 +264,8 @@ namespace EigenIPC {
     template <typename ShMemType>
     void StringTensor<ShMemType>::close() {
 
+        _running = false;
+
         _sh_mem.close();
 
     }
-- 
2.43.0


From 83b43cab7f946939a19759eb764edf436fdfc48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 14/30] fix: wait_and_ack must report a failed callback

---
 EigenIPC/src/Consumer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index dae8778..8117252 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -120,28 +120,28 @@ namespace EigenIPC {
     bool Consumer::wait_and_ack(std::function<bool()> pre_ack,
                     int ms_timeout) {
 
-        _fail_count = 0;
+        bool success = true; // (_fail_count is overwritten when acknowledging)
         
         if (!wait(ms_timeout)) {
 
-            _fail_count += 1;
+            success = false;
 
         } else {
 
             if (!pre_ack()) {
 
-                _fail_count += 1;
+                success = false;
             }
 
             if (!ack()) { 
 
-                _fail_count += 1;
+                success = false;
 
             }
 
         } 
 
-        return _fail_count == 0;
+        return success;
     }
 
     bool Consumer::ack() {
-- 
2.43.0


From 9d6dc075748bf2e22ce36abb4f4444986ca1e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 15/30] fix: closed producers and consumers are not running and
 hold no resources

---
 EigenIPC/src/Consumer.cpp | 14 ++++++++------
 EigenIPC/src/Producer.cpp | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index 8117252..7c91a64 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -81,13 +81,15 @@ namespace EigenIPC {
 
     void Consumer::close() {
 
-        if (!_closed) {
-            
-            _trigger_counter_clnt.close();
-            _ack_counter_clnt.close();
+        _is_running = false;
 
-            _closed = true;
-        }
+        _trigger_counter_clnt.close();
+        _ack_counter_clnt.close();
+
+        _trigger_cond_ptr.reset();
+        _ack_cond_ptr.reset();
+
+        _closed = true;
     }
 
     bool Consumer::wait(int ms_timeout) {
diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 6a81a8b..310a8df 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -88,13 +88,15 @@ namespace EigenIPC {
 
     void Producer::close() {
 
-        if (!_closed) {
-            
-            _trigger_counter_srvr.close();
-            _ack_counter_srvr.close();
+        _is_running = false;
 
-            _closed = true;
-        }
+        _trigger_counter_srvr.close();
+        _ack_counter_srvr.close();
+
+        _trigger_cond_ptr.reset(); // also destroys the condition variables
+        _ack_cond_ptr.reset();
+
+        _closed = true;
         
     
     }
-- 
2.43.0


From 8f1ee3989f2974219cefbee804079172d913343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 16/30] fix: every base return code has its own bit and its own
 description

---
 EigenIPC/include/EigenIPC/ReturnCodes.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/ReturnCodes.hpp b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
index f35e7bb..1264b99 100644
--- a/EigenIPC/include/EigenIPC/ReturnCodes.hpp
+++ b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
@@ -43,7 +43,7 @@ namespace EigenIPC {
         SEMACQ = 1ULL << 16, // semaphore acquired
         SEMACQFAIL = 1ULL << 17, // semaphore acquisition failed
         SEMACQTRY = 1ULL << 18, // trying semaphore acquisition
-        SEMACQRETRY = 1ULL << 18, // retrying semaphore acquisition
+        SEMACQRETRY = 1ULL << 28, // retrying semaphore acquisition
         SEMACQSIGINT = 1ULL << 19, // retrying semaphore acquisition
         SEMOPEN = 1ULL << 20, // semaphore opened
         SEMOPENFAIL = 1ULL << 21, // failed to open semaphore
@@ -84,12 +84,15 @@ namespace EigenIPC {
                 {ReturnCode::SEMACQFAIL, "SEMACQFAIL"},
                 {ReturnCode::SEMACQTRY, "SEMACQTRY"},
                 {ReturnCode::SEMACQRETRY, "SEMACQRETRY"},
+                {ReturnCode::SEMACQSIGINT, "SEMACQSIGINT"},
                 {ReturnCode::SEMOPEN, "SEMOPEN"},
                 {ReturnCode::SEMOPENFAIL, "SEMOPENFAIL"},
                 {ReturnCode::SEMREL, "SEMREL"},
                 {ReturnCode::SEMRELFAIL, "SEMRELFAIL"},
                 {ReturnCode::SEMCLOSE, "SEMCLOSE"},
                 {ReturnCode::SEMUNLINK, "SEMUNLINK"},
+                {ReturnCode::WRITEFAIL, "WRITEFAIL"},
+                {ReturnCode::READFAIL, "READFAIL"},
                 // ... other codes
                 {ReturnCode::OTHER, "OTHER"},
                 {ReturnCode::UNKNOWN, "UNKNOWN"},
@@ -157,7 +160,7 @@ namespace EigenIPC {
         bool first = true;
 
         // Iterate through each base code and check if it is present in the combinedCode
-        for (unsigned long long i = 0; i <= 62; ++i) {
+        for (unsigned long long i = 0; i <= 63; ++i) {
 
             ReturnCode baseCode = static_cast<ReturnCode>(1ULL << i);
 
-- 
2.43.0


From 16c2abc7e6b96cc08b6e6dbddc3c8edc14ea0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 17/30] fix: views of negative size do not fit

---
 EigenIPC/include/EigenIPC/Helpers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/Helpers.hpp b/EigenIPC/include/EigenIPC/Helpers.hpp
index fcef2f2..e172ede 100644
--- a/EigenIPC/include/EigenIPC/Helpers.hpp
+++ b/EigenIPC/include/EigenIPC/Helpers.hpp
@@ -63,7 +63,8 @@ namespace EigenIPC {
             }
 
             // Check if there's enough space for the submatrix
-            if (i + n_rows2fit > n_rows ||
+            if (n_rows2fit < 0 || n_cols2fit < 0 ||
+                i + n_rows2fit > n_rows ||
                 j + n_cols2fit > n_cols) {
 
                 if (verbose &&
-- 
2.43.0


From c6737ccf2e1e1610a45782ff76d95d36f7f3080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 18/30] fix: bind read_str of the Python string-tensor server
 to the server

---
 EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 6ab1333..7623301 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -94,7 +94,7 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
             &StringTensor<StrServer>::write,
             py::arg("to_write"), py::arg("index") = 0)
 
-        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self, int index) {
+        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self, int index) {
             std::string result_str;
             bool success = self.read(result_str, index);
 
-- 
2.43.0


From 954a555679bde23581ac2bad15aac5b80b0ed82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 19/30] fix: SharedTWrapper.read into an array checks its size
 against the numpy mirror

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index f3e0e65..88417cb 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -273,7 +273,7 @@ class SharedTWrapper:
                         message,
                         LogType.EXCEP,
                         throw_when_excep = True)
-                if not self._fits_into(data, self._torch_view, 
+                if not self._fits_into(data, self._numpy_view, 
                                     row_index, col_index):
                     message = "Provided data does not fit in data view!!"
                     Logger.log(self.__class__.__name__,
-- 
2.43.0


From 0d40122aa9a2543ae346e3a9afd5ebfe8311c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 20/30] fix: ToRos attaches a tensor client which is not
 attached yet

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index aeebeda..ac51d17 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -226,7 +226,13 @@ class ToRos():
                         
             # manually run client if not running
 
-            self._client.run()
+            if self._is_string_tensor:
+
+                self._client.run()
+
+            else:
+
+                self._client.attach()
         
         self._init_publisher()
     
-- 
2.43.0


From 68083c05ea5b1bce4a85bbfe3bee6f0a5e7bab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 21/30] fix: FromRos.run can be called again once running

---
 EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 0ac21b3..8869849 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -182,7 +182,7 @@ class FromRos():
 
                 self._is_running = True # ready
         
-        return sub_success and self._is_running
+        return self._is_running
 
     def close(self):
 
-- 
2.43.0


From d131eb15524bcce3d4277f0655cf8cf5ab37a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 22/30] fix: refuse to read into a read-only NumPy array

---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 2 +-
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 1363e69..7cd7283 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -69,7 +69,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true);
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index 1444532..36c9e41 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -68,7 +68,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true);
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
 
-- 
2.43.0


From eb349350ee52230981698f92c7723fc60b282d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 23/30] fix: refuse NumPy arrays whose strides are not
 multiples of the item size

---
 EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index 4e3c6f3..69f4d21 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -50,6 +50,18 @@ namespace PyEigenIPC {
 
             } // we restrict ourselves to work with only 2D tensors
 
+            if (buf_info.strides[0] % buf_info.itemsize != 0 ||
+                    buf_info.strides[1] % buf_info.itemsize != 0) { // e.g. a field of a
+                // structured array: cannot be described by strides in elements
+
+                EigenIPC::Journal::log("PyEigenIPC::Utils",
+                            "CheckInputBuffer",
+                            "The strides of the provided array are not multiples of its item size.",
+                            LogType::EXCEP);
+
+                return false;
+
+            }
 
             if ((Layout == EigenIPC::RowMajor) &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
-- 
2.43.0


From 71614c545bd4f3e98f48f742dab56b4c143a2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 24/30] fix: SharedTWrapper refuses negative indices and sizes

---
 .../PyEigenIPC/wrappers/shared_data_view.py        | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index 88417cb..0c5e7bb 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -107,7 +107,8 @@ class SharedTWrapper:
         end_col_index = col_index + data1.shape[1]
 
         # Check if data1 fits within the bounds of data2
-        return end_row_index <= data2.shape[0] and end_col_index <= data2.shape[1]
+        return row_index >= 0 and col_index >= 0 and \
+            end_row_index <= data2.shape[0] and end_col_index <= data2.shape[1]
 
     def _init_gpu_mirror(self):
         
@@ -197,6 +198,14 @@ class SharedTWrapper:
         if isinstance(data, (int, float, bool,
                             np.float32, np.float64)):  
             
+            if row_index < 0 or col_index < 0: # would address the mirror from its end
+                message = "Negative indices are not supported!!"
+                Logger.log(self.__class__.__name__,
+                    "write",
+                    message,
+                    LogType.EXCEP,
+                    throw_when_excep = True)
+
             # write scalar into numpy view
             self._numpy_view[row_index, col_index] = data
             # write to shared memory
@@ -338,7 +347,8 @@ class SharedTWrapper:
         end_col_index = col_index + n_cols
 
         # Check if we are withing bounds
-        fits = (end_row_index <= self._numpy_view.shape[0] \
+        fits = (min(row_index, col_index, n_rows, n_cols) >= 0 \
+            and end_row_index <= self._numpy_view.shape[0] \
             and end_col_index <= self._numpy_view.shape[1])
         if not fits:
             return False
-- 
2.43.0


From 5f58765831381bb6d875a394ec88706ed1f2dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 25/30] fix: writing a name of SharedTensorDict does not spill
 into the next one

---
 .../bindings/PyEigenIPC/wrappers/shared_tensor_dict.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 74c42be..46fbd05 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -258,6 +258,14 @@ class SharedTensorDict():
 
         data_2D = np.atleast_2d(data)
 
+        if data_2D.shape[0] > self.dimensions[data_idx]:
+            # it would end up in the block of the next name
+            Journal.log(self.__class__.__name__,
+                "write",
+                f"Provided data has more than the {self.dimensions[data_idx]} rows of {name}!",
+                LogType.EXCEP,
+                throw_when_excep = True)
+
         if retry: 
 
             self.data.write_retry(np.atleast_2d(data_2D), starting_idx, 0) # blocking
-- 
2.43.0


From 85c845a6a56cf2a1d398076008d123f0e09b4453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 26/30] fix: clients of SharedTensorDict wait for names and
 dimensions to be written

---
 .../PyEigenIPC/wrappers/shared_tensor_dict.py | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 46fbd05..5864682 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -222,19 +222,30 @@ class SharedTensorDict():
         
         self.data.run()
 
-        self.shared_names.run()
+        if self.is_server:
 
-        self.shared_dims.run()
+            self.shared_names.run()
 
-        if not self.is_server:
+            self.shared_dims.run() # last thing to be written
 
-            self.names = self.shared_names.names
-            
-            # updates shared dims
-            self.shared_dims.synch_all(read=True, retry=True)
+        else:
+
+            self.shared_dims.run()
+
+            # the server may not have written the dimensions yet: they are 
+            # there as soon as they describe the whole data
+            while self.shared_dims.get_numpy_mirror().sum() != self.data.n_rows:
+
+                self.shared_dims.synch_all(read=True, retry=True)
+
+            self.shared_dims.dims = self.shared_dims.get_numpy_mirror().copy()
 
             self.dimensions = self.shared_dims.dims.flatten().tolist()
 
+            self.shared_names.run() # were written before the dimensions
+
+            self.names = self.shared_names.names
+
             self.n_dims = self.data.n_rows
             self.n_nodes = self.data.n_cols
 
-- 
2.43.0


From 0b008f22246d1c78ab2880c5e266886d26fdbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 27/30] fix: ToRos.update of a column-major tensor returns and
 publishes it

---
 .../extensions/ros_bridge/to_ros.py           | 26 ++++++++++++++++---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 12 +++++++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index ac51d17..986250a 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -6,7 +6,9 @@ from typing import Union
 from EigenIPC.PyEigenIPCExt.extensions.ros_bridge.defs import NamingConventions
 
 from EigenIPC.PyEigenIPC import Journal, VLevel, LogType
-from EigenIPC.PyEigenIPC import toNumpyDType, dtype
+from EigenIPC.PyEigenIPC import toNumpyDType, dtype, RowMajor
+
+import numpy as np
 
 class ToRos():
 
@@ -76,6 +78,24 @@ class ToRos():
                         LogType.EXCEP,
                         throw_when_excep = True)
     
+    def _read_tensor(self):
+
+        if self._client.getLayout() == RowMajor:
+
+            return self._client.read(self._publisher.np_data[:, :], 0, 0)
+
+        # np_data is row-major: column-major tensors go through a buffer of their layout
+
+        buffer = np.empty_like(self._publisher.np_data, order="F")
+
+        if not self._client.read(buffer, 0, 0):
+
+            return False
+
+        self._publisher.np_data[:, :] = buffer
+
+        return True
+
     def _synch_from_shared_mem(self,
                     retry: bool = True):
 
@@ -83,7 +103,7 @@ class ToRos():
             
             if not self._is_string_tensor:
 
-                while not self._client.read(self._publisher.np_data[:, :], 0, 0):
+                while not self._read_tensor():
                     
                     continue
 
@@ -109,7 +129,7 @@ class ToRos():
             
             if not self._is_string_tensor:
 
-                return self._client.read(self._publisher.np_data[:, :], 0, 0)
+                return self._read_tensor()
 
             else:
                 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 7cd7283..d865708 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -102,6 +102,8 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
 
         .def("getScalarType", &EigenIPC::Client<Scalar, Layout>::getScalarType)
 
+        .def("getLayout", [](EigenIPC::Client<Scalar, Layout>&) { return Layout; })
+
         .def("getNRows", &EigenIPC::Client<Scalar, Layout>::getNRows)
 
         .def("getNCols", &EigenIPC::Client<Scalar, Layout>::getNCols)
@@ -300,6 +302,16 @@ void PyEigenIPC::PyClient::bind_ClientWrapper(pybind11::module& m) {
 
     });
 
+    cls.def("getLayout", [](PyEigenIPC::ClientWrapper& wrapper) {
+
+        return wrapper.execute([&](pybind11::object& client) {
+
+            return client.attr("getLayout")().cast<int>();
+
+        });
+
+    });
+
     cls.def("getNamespace", [](PyEigenIPC::ClientWrapper& wrapper) {
 
         return wrapper.execute([&](pybind11::object& client) {
-- 
2.43.0


From aec5b4b9cb0fa4b2ad00b21e5d3458471ff9f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 28/30] fix: arrays of a single row or column match both
 layouts

NumPy exports single-row Fortran-ordered arrays with row-major strides, so that
a column-major tensor of one row could not be accessed at all.
---
 EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index 69f4d21..160a14c 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -63,7 +63,11 @@ namespace PyEigenIPC {
 
             }
 
-            if ((Layout == EigenIPC::RowMajor) &&
+            // the stride along a dimension of size 1 is arbitrary (NumPy normalizes it
+            // in its own way): a single row or column matches both layouts
+            bool isVector = buf_info.shape[0] <= 1 || buf_info.shape[1] <= 1;
+
+            if ((Layout == EigenIPC::RowMajor) && !isVector &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
 
                 // (in case strides are equal it means we are dealing with a Scalar ->
@@ -84,7 +88,7 @@ namespace PyEigenIPC {
                 return false;
             }
 
-            if ((Layout == EigenIPC::ColMajor) &&
+            if ((Layout == EigenIPC::ColMajor) && !isVector &&
                     (buf_info.strides[0] > buf_info.strides[1]) ) { // not coherent -> stop
 
                 // (in case strides are equal it means we are dealing with a Scalar ->
-- 
2.43.0


From e8f9f8af27201e0c4688707da22a4f8f41379f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 29/30] fix: a client which is not verbose prints nothing when
 it attaches or detaches

attach() and detach() passed verbose=true to the acquisition of the data
semaphore, so that a client with verbose=false and vlevel=V3 reported it.
---
 EigenIPC/src/Client.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index b7143e3..f8d7f47 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -138,7 +138,7 @@ namespace EigenIPC {
 
         // acquire shared data semaphore or waits for it
         // (at this point is actually guaranteed to be free anyway)
-        _acquireData(true, true); // blocking
+        _acquireData(true, _verbose); // blocking
 
         try {
 
@@ -201,7 +201,7 @@ namespace EigenIPC {
 
             }
 
-            _acquireData(true, true); // blocking (probably not necessary, 
+            _acquireData(true, _verbose); // blocking (probably not necessary, 
             // int operations should be atomic on 64 bit machines)
 
             _n_clients_view(0, 0) = _n_clients_view(0, 0) - 1; // increase clients counter
-- 
2.43.0


From 9d527db015bf0f235e01f98e0c945f1ba8e2d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 30/30] fix: a signal does not make a detaching client fail
 half-way

An interrupted wait for the data semaphore made detach() throw; close()
was then left half done and the destructor terminated the process.
---
 EigenIPC/src/Client.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index f8d7f47..6e304b8 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -201,8 +201,22 @@ namespace EigenIPC {
 
             }
 
-            _acquireData(true, _verbose); // blocking (probably not necessary, 
-            // int operations should be atomic on 64 bit machines)
+            // blocking (probably not necessary, int operations should be atomic on
+            // 64 bit machines). This also happens upon close() and destruction: a
+            // signal interrupting the wait must not make them fail half-way
+            do {
+
+                _return_code = _return_code + ReturnCode::RESET;
+
+            } while (MemUtils::semBlockingWait(_data_sem, _return_code) == -1 &&
+                    isin(ReturnCode::SEMACQSIGINT, _return_code));
+
+            if (isin(ReturnCode::SEMACQFAIL, _return_code)) {
+
+                MemUtils::failWithCode(_return_code,
+                                       _journal,
+                                       __FUNCTION__);
+            }
 
             _n_clients_view(0, 0) = _n_clients_view(0, 0) - 1; // increase clients counter
 
-- 
2.43.0

