From 640ffe52daad129d67864a3fc4fce6e99f52f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:02 +0000
Subject: [PATCH 01/30] fix: demangler must not move its cursor past the
 terminating zero

---
 include/cwd_demangle.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 38bbc16..5aa34b8 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -347,9 +347,10 @@ class session
 
   char next_peek() const { return (pos_ >= maxpos_) ? 0 : str_[pos_ + 1]; }
 
-  char next() { return (pos_ >= maxpos_) ? 0 : str_[++pos_]; }
+  // The terminating zero can not be eaten: pos_ never moves beyond it.
+  char next() { return (pos_ >= maxpos_ || str_[pos_] == 0) ? 0 : str_[++pos_]; }
 
-  char eat_current() { return (pos_ > maxpos_) ? 0 : str_[pos_++]; }
+  char eat_current() { return (pos_ > maxpos_ || str_[pos_] == 0) ? 0 : str_[pos_++]; }
 
   void store(int& saved_pos) { saved_pos = pos_; }
 
-- 
2.43.0


From a6d4aa8be2161ea8657ec63749bdc3004c335959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:02 +0000
Subject: [PATCH 02/30] fix: demangler must not skip past the end of a
 truncated anonymous namespace name

---
 include/cwd_demangle.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 5aa34b8..abbef4e 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2165,13 +2165,20 @@ bool session<Allocator>::decode_source_name(string_type& output)
   if (length < 1 || length > 9)
     _GLIBCXX_DEMANGLER_FAILURE;
   while (isdigit(next()))
+  {
+    if (length > INT_MAX / 10 - 1)
+      _GLIBCXX_DEMANGLER_FAILURE;
     length = 10 * length + current() - '0';
+  }
   char const* ptr = &str_[pos_];
-  if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[9] == 'N' && ptr[8] == ptr[10])
+  if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[8] != 0 && ptr[9] == 'N' && ptr[8] == ptr[10])
   {
     output += "(anonymous namespace)";
-    if ((pos_ += length) > maxpos_ + 1)
-      _GLIBCXX_DEMANGLER_FAILURE;
+    while (length--)
+    {
+      if (eat_current() == 0)
+        _GLIBCXX_DEMANGLER_FAILURE;
+    }
   }
   else
     while (length--)
-- 
2.43.0


From 8d3df4f4f9dc11a508a0e60a4f0fd00096c036a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:02 +0000
Subject: [PATCH 03/30] fix: demangler must not read past the end of a
 truncated templated cast operator

---
 include/cwd_demangle.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index abbef4e..59d4139 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1136,10 +1136,10 @@ bool session<Allocator>::decode_operator_name(string_type& output)
       {
         eat_current();
         output += "operator ";
-        if (current() == 'T')
+        if (current() == 'T' && next_peek() == '_' && str_[pos_ + 2] == 'I')
         {
           // This is a templated cast operator.
-          // It must be of the form "cvT_I...E".
+          // It is of the form "cvT_I...E".
           // Let template_arg_pos_ already point
           // to the template argument.
           template_arg_pos_offset_ = template_arg_pos_.size();
-- 
2.43.0


From b7a11bba978a7a5b1770a7bd2eb0c81151b3cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:02 +0000
Subject: [PATCH 04/30] fix: demangler must not recurse forever on a template
 argument that refers to itself

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 59d4139..649cdba 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -813,7 +813,7 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
     _GLIBCXX_DEMANGLER_FAILURE;
   int saved_pos = pos_;
   pos_ = template_arg_pos_[value];
-  if (inside_type_ > 20) // Rather than core dump.
+  if (inside_type_ > 20 || inside_substitution_ > 20) // Rather than core dump.
     _GLIBCXX_DEMANGLER_FAILURE;
   ++inside_substitution_;
   if (current() == 'X')
-- 
2.43.0


From a9ed0559f8d368d57a886d1278e286804d4a1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:02 +0000
Subject: [PATCH 05/30] fix: demangler must reserve space for the sign of a
 real literal

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 649cdba..814fdca 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -867,7 +867,7 @@ bool session<Allocator>::decode_real(string_type& output, size_t size_of_real)
     }
     ++word;
   }
-  char buf[24];
+  char buf[32]; // A sign, a dot, 17 digits, an exponent of at most 5 characters and the terminating zero.
   if (implementation_details_.decode_real(buf, words, size_of_real))
   {
     output += buf;
-- 
2.43.0


From 4a0ce9e7820965dffca63989c8ea41f109e77322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:02 +0000
Subject: [PATCH 06/30] fix: demangle substitutions of a nested name prefix
 that starts with a template parameter

---
 include/cwd_demangle.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 814fdca..525fffe 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -768,6 +768,11 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
             if (!decode_substitution(output))
               _GLIBCXX_DEMANGLER_FAILURE;
           }
+          else if (current() == 'T')
+          {
+            if (!decode_template_param(output))
+              _GLIBCXX_DEMANGLER_FAILURE;
+          }
           else if (!decode_unqualified_name(output))
             _GLIBCXX_DEMANGLER_FAILURE;
         }
-- 
2.43.0


From 3c6d8be17deb5f56eaba4c6082bc610536503772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:02 +0000
Subject: [PATCH 07/30] fix: demangle covariant return thunks

---
 include/cwd_demangle.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 525fffe..53ba38c 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2434,6 +2434,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
       _GLIBCXX_DEMANGLER_RETURN;
     case 'c':
       output += "covariant return thunk to ";
+      eat_current();
       if (!decode_call_offset(output) || !decode_call_offset(output) ||
           (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
         _GLIBCXX_DEMANGLER_FAILURE;
-- 
2.43.0


From 097493b34f09346cb4bce9f10095c92dde87cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:02 +0000
Subject: [PATCH 08/30] fix: operator~ is a unary operator

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 53ba38c..9901aed 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1093,7 +1093,7 @@ Entry const symbol_name_table_c[39] = {{"aa", "operator&&", binary},       {"na"
                                        {"de", "operator*", unary},         {"ml=", "operator*", binary},
                                        {"mm", "operator--", unary},        {"cl", "operator()", unary},
                                        {"cm", "operator,", binary},        {"an=", "operator&", binary},
-                                       {"co", "operator~", binary},        {"dl", "operator delete", unary},
+                                       {"co", "operator~", unary},        {"dl", "operator delete", unary},
                                        {"ls=", "operator<<", binary},      {"lt", "operator<", binary},
                                        {"as=", "operator", binary},        {"ge", "operator>=", binary},
                                        {"nt", "operator!", unary},         {"rm=", "operator%", binary},
-- 
2.43.0


From a02216bdb1a69c494a42fa4acc8c3dc0f0f95d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 09/30] fix: strerrno must know error numbers 123 to 133

---
 src/strerrno.cxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/strerrno.cxx b/src/strerrno.cxx
index f32a167..71f86f5 100644
--- a/src/strerrno.cxx
+++ b/src/strerrno.cxx
@@ -133,7 +133,18 @@ char const* const strerrno_table_c[] = {
     "ENAVAIL", /* No XENIX semaphores available */
     "EISNAM", /* Is a named type file */
     "EREMOTEIO", /* Remote I/O error */
-    "EDQUOT" /* Quota exceeded */
+    "EDQUOT", /* Quota exceeded */
+    "ENOMEDIUM", /* No medium found */
+    "EMEDIUMTYPE", /* Wrong medium type */
+    "ECANCELED", /* Operation canceled */
+    "ENOKEY", /* Required key not available */
+    "EKEYEXPIRED", /* Key has expired */
+    "EKEYREVOKED", /* Key has been revoked */
+    "EKEYREJECTED", /* Key was rejected by service */
+    "EOWNERDEAD", /* Owner died */
+    "ENOTRECOVERABLE", /* State not recoverable */
+    "ERFKILL", /* Operation not possible due to RF-kill */
+    "EHWPOISON" /* Memory page has hardware error */
 };
 
 } // namespace
-- 
2.43.0


From 4c095697210eb0df33f47aa8e27fc31df4990492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 10/30] fix: strerrno must not name the unassigned error
 numbers 41 and 58

---
 src/strerrno.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strerrno.cxx b/src/strerrno.cxx
index 71f86f5..732b8b8 100644
--- a/src/strerrno.cxx
+++ b/src/strerrno.cxx
@@ -52,7 +52,7 @@ char const* const strerrno_table_c[] = {
     "ENOSYS", /* Function not implemented */
     "ENOTEMPTY", /* Directory not empty */
     "ELOOP", /* Too many symbolic links encountered */
-    "EWOULDBLOCK", /* Operation would block */
+    "UNKNOWN ERROR", /* 41 is not assigned (EWOULDBLOCK equals EAGAIN) */
     "ENOMSG", /* No message of desired type */
     "EIDRM", /* Identifier removed */
     "ECHRNG", /* Channel number out of range */
@@ -69,7 +69,7 @@ char const* const strerrno_table_c[] = {
     "ENOANO", /* No anode */
     "EBADRQC", /* Invalid request code */
     "EBADSLT", /* Invalid slot */
-    "EDEADLOCK",
+    "UNKNOWN ERROR", /* 58 is not assigned (EDEADLOCK equals EDEADLK) */
     "EBFONT", /* Bad font file format */
     "ENOSTR", /* Device not a stream */
     "ENODATA", /* No data available */
-- 
2.43.0


From 69e0aa197aa2c560281978eb36ae9d7abd6accfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 11/30] fix: nodebug.h must define DoutEntering

---
 nodebug.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nodebug.h b/nodebug.h
index 3e2e6c4..1aa9120 100644
--- a/nodebug.h
+++ b/nodebug.h
@@ -1,5 +1,6 @@
 #define Debug(/*STATEMENTS*/...)
 #define Dout(cntrl, ...)
+#define DoutEntering(cntrl, ...)
 #define DoutFatal(cntrl, ...) LibcwDoutFatal(, , cntrl, __VA_ARGS__)
 #define ForAllDebugChannels(/*STATEMENT*/...)
 #define ForAllDebugObjects(/*STATEMENT*/...)
-- 
2.43.0


From bb9eccc2bb3d1228c78d022278028eae363ebc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 12/30] fix: error_cf must show the errno of the caller

---
 src/debug.cxx     | 10 ++++++----
 src/threading.cxx |  9 ++++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index ce7ed2a..4871d21 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -857,12 +857,15 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
   LIBCWD_ASSERT(tsd_initialized);
 #endif
 
+  // Always keep the errno as set at the start of LibcwDout(); everything below might change it.
+  int const saved_errno = errno;
+
   // Skip `start()' for a `continued' debug output.
   // Generating the "prefix: <continued>" is already taken care
   // of while generating the "<unfinished>" (see next `if' block).
   if ((channel_set.mask & (continued_maskbit | finish_maskbit)))
   {
-    current->err = errno; // Always keep the last errno as set at the start of LibcwDout()
+    current->err = saved_errno;
     if (!(current->mask & continued_expected_maskbit))
     {
       std::ostream* const preferred_os = (channel_set.mask & cerr_cf) ? &std::cerr : nullptr;
@@ -920,7 +923,6 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
     //     (current->mask & continued_cf_maskbit) is false and this if is skipped.
     LIBCWD_ASSERT(current != reinterpret_cast<OutputState*>(_private_::WST_dummy_output_state));
 #endif
-    int saved_errno = errno; // The writeto below changes errno.
     // And write out what is in the buffer till now.
     std::ostream* target_os = (channel_set.mask & cerr_cf) ? &std::cerr : nullptr;
     current->buffer.writeto(
@@ -946,7 +948,7 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
     else
       current_bufferstream->write("<continued> ", 12); // therefore we repeat the space here.
     current->buffer.continued();
-    errno = saved_errno;
+    errno = saved_errno; // The writeto above changes errno.
   }
 
   // Is this a nested debug output (the first of a series in the middle of another debug output)?
@@ -967,7 +969,7 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 
   // Create a new output state.
   DEBUGDEBUG_CERR("creating new OutputState");
-  current = new OutputState(channel_set.mask, channel_set.label, errno); // LEAK5: This allocation + Location.
+  current = new OutputState(channel_set.mask, channel_set.label, saved_errno); // LEAK5: This allocation + Location.
   DEBUGDEBUG_CERR("current = " << (void*)current);
   current_bufferstream = &current->bufferstream;
   DEBUGDEBUG_CERR("OutputState created");
diff --git a/src/threading.cxx b/src/threading.cxx
index eb005ce..b0e7648 100644
--- a/src/threading.cxx
+++ b/src/threading.cxx
@@ -5,6 +5,7 @@
 #include <libcwd/private/ThreadSpecificData.h>
 
 #include <atomic>
+#include <cerrno>
 #include <mutex>
 
 #ifndef HIDE_FROM_DOXYGEN
@@ -63,13 +64,19 @@ ThreadSpecificData& ThreadSpecificData::instance()
   if (current_tsd)
     return *current_tsd;
 
+  // Creating the TSD must not change the errno that a debug statement with error_cf is going to print.
+  int const saved_errno = errno;
+
   // Under the main-thread-first assumption, a first-use access after main_thread_tsd was set belongs to a
   // worker thread and therefore needs the cleanup guard to delete its TSD at thread exit.
   if (main_thread_tsd)
     (void)current_tsd_cleanup_guard;
 
   current_tsd = new ThreadSpecificData;
-  return S_create(*current_tsd);
+  S_create(*current_tsd);
+
+  errno = saved_errno;
+  return *current_tsd;
 }
 
 // Initialize the TSD object for the current thread.
-- 
2.43.0


From 67154ed755bb2375f11e4d824e36f9c5be56fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 13/30] fix: the top of an empty stack must not be read

---
 include/private_DebugStack.inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/private_DebugStack.inl.h b/include/private_DebugStack.inl.h
index 49d2876..5e6c4b2 100644
--- a/include/private_DebugStack.inl.h
+++ b/include/private_DebugStack.inl.h
@@ -59,6 +59,8 @@ inline T DebugStack<T>::top() const
 #if CWDEBUG_DEBUG
   LIBCWD_ASSERT(end_ != NULL);
 #endif
+  if (current_ == stack_ - 1)
+    print_pop_error();
   return *current_;
 }
 
-- 
2.43.0


From 66e8299be908c260ea28e40fb157271ea3b61608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 14/30] fix: reading ELF symbols must not change errno

---
 src/dwarf.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 59d4404..004bf8c 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1104,6 +1104,8 @@ bool ObjectFileData::add_function_symbol_range(Dwarf_Addr start_pc, Dwarf_Addr e
 // pointers and the Elf handle is closed before location lookups use the cache.
 void ObjectFileData::load_elf_function_symbols(uintptr_t lbase, std::string const& object_file_path)
 {
+  ScopedPreserveErrno scoped_(errno);
+
   // Only attempt this once.
   elf_symbols_loaded_ = true;
 
-- 
2.43.0


From d33d53cc6505613324ebbcd5b21e737501035f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 15/30] fix: try_lock_os reported a lock that it did not get as
 locked

LockInterface::try_lock() forwards to std::mutex::try_lock(), which returns true when it
locked the mutex.  The test was inverted, so that the lock was leaked on success and
unlocked without being held on failure.
---
 include/libcwd/DebugObject.inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index b74f8a9..3c7fd0b 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -190,7 +190,7 @@ inline bool OstreamState::try_lock_os(std::ostream* os, std::ostream** locked_os
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
   // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-  if (mutex_ && mutex_->try_lock())
+  if (mutex_ && !mutex_->try_lock())
     return false;
   *locked_os_out = os ? os : real_os_;
   *locked_mutex_out = mutex_;
-- 
2.43.0


From 6be48a83d396deac0e86d588b2d66195b393c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 16/30] fix: dlopen with RTLD_NOLOAD must be counted

A successful dlopen increments the reference count of the loader also when
RTLD_NOLOAD is set, and needs a matching dlclose.  That dlclose decremented
the refcount_ of the DynamicLoaderRecord, so that an object file that was
still open was forgotten.
---
 src/dwarf.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 004bf8c..48f75bc 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1343,10 +1343,6 @@ void* dlopen(char const* name, int flags)
   }
   if (handle == nullptr)
     return handle;
-#ifdef RTLD_NOLOAD
-  if ((flags & RTLD_NOLOAD))
-    return handle;
-#endif
 
   // If the record already exist, increment DynamicLoaderRecord::refcount_ and return.
   {
@@ -1361,6 +1357,10 @@ void* dlopen(char const* name, int flags)
       }
     }
   }
+#ifdef RTLD_NOLOAD
+  if ((flags & RTLD_NOLOAD))
+    return handle;
+#endif
 
   if (need_register_object_file)
   {
-- 
2.43.0


From 7ef2c8279d7bbe275e21c9e6e23dc5e89846bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 17/30] fix: a simultaneous dlopen of the same library was not
 counted

When two threads dlopen the same library then both can fail to find the
DynamicLoaderRecord; the second one to insert it must increment refcount_.
---
 src/dwarf.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 48f75bc..49e5108 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1379,7 +1379,16 @@ void* dlopen(char const* name, int flags)
       if (!object_file)
         skip_dlopen_map = true;
       if (!skip_dlopen_map)
-        dynamic_loader_records_ts::wat(dlopen_map())->emplace(handle, DynamicLoaderRecord{object_file, flags});
+      {
+        dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
+        auto const ibp = dynamic_loader_records_w->emplace(handle, DynamicLoaderRecord{object_file, flags});
+        // Another thread might have added the record since we looked for it.
+        if (!ibp.second)
+        {
+          ++ibp.first->second.refcount_;
+          ibp.first->second.flags_ |= flags;
+        }
+      }
     }
   }
 
-- 
2.43.0


From 0d43f9025c81c9e4816f80311a7b3f48ef5a5073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 18/30] fix: push_margin and push_marker must copy strings that
 contain zeroes completely

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 4871d21..ee95428 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -721,7 +721,7 @@ void DebugString::NS_internal_init(char const* str, size_t len)
   default_capacity_ = min_capacity;
   str_ = (char*)malloc((default_capacity_ = capacity_ = calculate_capacity(len)) +
                        1); // Add one for the terminating zero. LEAK46
-  strncpy(str_, str, len);
+  std::memcpy(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
-- 
2.43.0


From 0688bc0a97d3ef7c19eceb161f287bb7e7d47a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:15 +0000
Subject: [PATCH 19/30] fix: creating too many debug objects must be fatal

---
 src/debug.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index ee95428..739852b 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1218,6 +1218,8 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
   _private_::DebugObjects::instance().add_if_missing(this);
   new (_private_::WST_dummy_output_state)
       OutputState(0, channels::dc::debug.get_label(), 0); // Leaks 24 bytes of memory
+  if (s_index_count_ >= LIBCWD_DO_MAX)
+    DoutFatal(dc::core, "There are more than " << LIBCWD_DO_MAX << " debug objects (see LIBCWD_DO_MAX in libcwd/config.h).");
   index_ = s_index_count_++;
 #if CWDEBUG_DEBUGT
   LIBCWD_ASSERT(!_private_::WST_multi_threaded.load(
-- 
2.43.0


From c45db00d8a02fb780dc34a91edad09ff9c1db3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:15 +0000
Subject: [PATCH 20/30] fix: creating too many debug channels must be fatal

---
 src/debug.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 739852b..c7eee06 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1411,6 +1411,8 @@ void ContinuedChannel::NS_initialize(control_flag_t maskbit)
 
 void Channel::initialize(_private_::ChannelSetsWat wat, char const* label, size_t label_len)
 {
+  if (wat.ref_->next_index_ >= LIBCWD_DC_MAX - 1)
+    DoutFatal(dc::core, "There are more than " << LIBCWD_DC_MAX - 1 << " debug channels (see LIBCWD_DC_MAX in libcwd/config.h).");
   index_ =
       ++wat.ref_
             ->next_index_; // Don't use index 0, it is used to make sure that uninitialized channels appear to be off.
-- 
2.43.0


From 1d40e4c264c825dc8a3e4cf14784ec39aca13aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 21/30] fix: type_info_of a cv-qualified pointer must give the
 size of what it points to

---
 include/libcwd/type_info.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 92021cc..6ae9f95 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -44,6 +44,28 @@ struct sizeof_ref
 template <typename T>
 size_t sizeof_ref_v = sizeof_ref<T>::value;
 
+// The size of what a cv-qualified pointer points to, or 0 when T isn't one.
+template <typename T>
+struct sizeof_cv_pointer_ref
+{
+  static constexpr size_t value = 0;
+};
+
+template <typename T>
+struct sizeof_cv_pointer_ref<T* const> : sizeof_ref<T>
+{
+};
+
+template <typename T>
+struct sizeof_cv_pointer_ref<T* volatile> : sizeof_ref<T>
+{
+};
+
+template <typename T>
+struct sizeof_cv_pointer_ref<T* const volatile> : sizeof_ref<T>
+{
+};
+
 } // namespace _private_
 
 /**
@@ -232,7 +254,7 @@ template <typename T>
           typeid(libcwd_type_info_exact<T>).name(),
           typeid(T).name()),
         sizeof(T),
-        0);
+        ::libcwd::_private_::sizeof_cv_pointer_ref<T>::value);
     s_initialized_ = true;
   }
   return s_value_;
-- 
2.43.0


From 6c3f4a32fe8c4f62d586c5d857e0f0456898807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 22/30] fix: type_info_of an object that is a volatile pointer
 must give the size of what it points to

---
 include/libcwd/type_info.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 6ae9f95..264ebc3 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -172,7 +172,7 @@ TypeInfo const& type_info<T>::value()
 {
   if (!s_initialized_)
   {
-    s_value_.init(typeid(T).name(), sizeof(T), 0);
+    s_value_.init(typeid(T).name(), sizeof(T), sizeof_cv_pointer_ref<T>::value);
     s_initialized_ = true;
   }
   return s_value_;
-- 
2.43.0


From 9b3b7f56d08c24bfe125ae8e6a219e8b7b117212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 23/30] fix: type_info_of an array with qualified elements must
 not fail on an assertion

---
 src/type_info.cxx | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/type_info.cxx b/src/type_info.cxx
index 35fc28a..c747bd2 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -69,10 +69,24 @@ char const* extract_exact_name(char const* encap_mangled_name, char const* strip
   size_t len = strlen(stripped_mangled_name);
   char const* ptr = stripped_mangled_name + len;
   // ptr now points to the terminating zero of stripped_mangled_name.
+  char const* array_ptr = ptr;
+  char const* array_quals = encap_ptr;
+  size_t array_qlen = 0;
   while (ptr > stripped_mangled_name)
   {
     --ptr;
     --encap_ptr;
+    // The qualifiers of an array are those of its elements; they come after the bounds (for example, "A3_Kc").
+    if (*ptr == '_')
+    {
+      while (*encap_ptr == 'K' || *encap_ptr == 'V')
+      {
+        array_ptr = ptr + 1;
+        array_quals = encap_ptr;
+        ++array_qlen;
+        --encap_ptr;
+      }
+    }
     LIBCWD_ASSERT(*ptr == *encap_ptr); // This is how we assume the encapsulation works!
     if (*ptr == '_')
     {
@@ -84,10 +98,16 @@ char const* extract_exact_name(char const* encap_mangled_name, char const* strip
   }
   // ptr is now equal to stripped_mangled_name, and encap_ptr points to the first character after the qualifiers.
   size_t qlen = encap_ptr - encap_mangled_name;
-  char* exact_name = new char[qlen + len + 1]; // LEAK58
+  char* exact_name = new char[qlen + len + array_qlen + 1]; // LEAK58
   // Add the qualifiers to the mangled name:
   strncpy(exact_name, encap_mangled_name, qlen);
   strcpy(exact_name + qlen, stripped_mangled_name);
+  if (array_qlen > 0)
+  {
+    char* quals = exact_name + qlen + (array_ptr - stripped_mangled_name);
+    strncpy(quals, array_quals, array_qlen);
+    strcpy(quals + array_qlen, array_ptr);
+  }
   return exact_name;
 }
 #endif
-- 
2.43.0


From 4885d4afe5be44c251ff7957845012923c7f31de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 24/30] fix: demangler: reject the unassigned codes 'as' and
 'cV', and decode both operands of operator[]

---
 include/cwd_demangle.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 9901aed..1035d07 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1105,7 +1105,7 @@ Entry const symbol_name_table_c[39] = {{"aa", "operator&&", binary},       {"na"
                                        {"pp", "operator++", unary},        {"or=", "operator|", binary},
                                        {"gt", "operator>", binary},        {"ps", "operator+", unary},
                                        {"pt", "operator->", binary},       {"sz", "sizeof", unary},
-                                       {"ix", "operator[]", unary}};
+                                       {"ix", "operator[]", binary}};
 
 template <typename Allocator>
 bool session<Allocator>::decode_operator_name(string_type& output)
@@ -1127,7 +1127,8 @@ bool session<Allocator>::decode_operator_name(string_type& output)
     {
       int index = static_cast<int>(static_cast<unsigned char>(hash));
       Entry entry = symbol_name_table_c[index];
-      if (entry.opcode[0] == opcode0 && entry.opcode[1] == opcode1 && (opcode1 == current() || entry.opcode[2] == '='))
+      if (entry.opcode[0] == opcode0 && entry.opcode[1] == opcode1 &&
+          (opcode1 == current() ? entry.symbol_name[8] != 0 : entry.opcode[2] == '='))
       {
         output += entry.symbol_name;
         if (opcode1 != current())
@@ -1137,7 +1138,7 @@ bool session<Allocator>::decode_operator_name(string_type& output)
           template_args_need_space_ = true;
         _GLIBCXX_DEMANGLER_RETURN;
       }
-      else if (opcode0 == 'c' && opcode1 == 'v') // casting operator
+      else if (opcode0 == 'c' && current() == 'v') // casting operator
       {
         eat_current();
         output += "operator ";
@@ -1289,7 +1290,7 @@ bool session<Allocator>::decode_expression(string_type& output)
         int index = static_cast<int>(static_cast<unsigned char>(hash));
         Entry entry = symbol_name_table_c[index];
         if (entry.opcode[0] == opcode0 && entry.opcode[1] == opcode1 &&
-            (opcode1 == current() || entry.opcode[2] == '='))
+            (opcode1 == current() ? entry.symbol_name[8] != 0 : entry.opcode[2] == '='))
         {
           char const* op = entry.symbol_name + 8; // Skip "operator".
           if (*op == ' ') // operator new and delete.
@@ -1304,7 +1305,14 @@ bool session<Allocator>::decode_expression(string_type& output)
           if (!decode_expression(output))
             _GLIBCXX_DEMANGLER_FAILURE;
           output += ')';
-          if (entry.type != unary)
+          if (*op == '[') // operator[].
+          {
+            output += '[';
+            if (!decode_expression(output))
+              _GLIBCXX_DEMANGLER_FAILURE;
+            output += ']';
+          }
+          else if (entry.type != unary)
           {
             if (!implementation_details_.get_style_compact_expr_ops())
               output += ' ';
@@ -1332,7 +1340,7 @@ bool session<Allocator>::decode_expression(string_type& output)
           }
           _GLIBCXX_DEMANGLER_RETURN;
         }
-        else if (opcode0 == 'c' && opcode1 == 'v') // casting operator.
+        else if (opcode0 == 'c' && current() == 'v') // casting operator.
         {
           eat_current();
           output += '(';
-- 
2.43.0


From d2e00b14850ca86984177bb86f68806d5fea9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 25/30] fix: attach_gdb: refuse an empty 'xterm' command
 instead of running nothing

---
 src/utils/attach_gdb.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/attach_gdb.cxx b/src/utils/attach_gdb.cxx
index f81f711..61afc50 100644
--- a/src/utils/attach_gdb.cxx
+++ b/src/utils/attach_gdb.cxx
@@ -44,6 +44,8 @@ void attach_gdb()
     __DoutFatal(dc::fatal, "rcfile: value of keyword 'gdb' too long (" << rcfile.gdb_bin() << ')');
   if (rcfile.gdb_bin().size() == 0)
     __DoutFatal(dc::fatal, "rcfile: value of keyword 'gdb' is empty. Did you call Debug(read_rcfile()) at all?");
+  if (rcfile.konsole_command().size() == 0)
+    __DoutFatal(dc::fatal, "rcfile: value of keyword 'xterm' is empty.");
   char command2[512];
   __Dout(dc::always, "xterm = \"" << rcfile.konsole_command() << "\".");
   len = snprintf(command2, sizeof(command2), rcfile.konsole_command().c_str(), command);
-- 
2.43.0


From e6b34a46abce978ff02637fae5b7d466b017a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 26/30] fix: only turn on the channel labelled WARNING by
 default, not every prefix of that label

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index c7eee06..17293db 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -514,7 +514,7 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
   channel.initialize(channels_w, label, label_len);
 
   // Turn debug channel "WARNING" on by default.
-  __libcwd_tsd.off_cnt_array[channel.index()] = strncmp(channel.get_label(), "WARNING", label_len) == 0 ? -1 : 0;
+  __libcwd_tsd.off_cnt_array[channel.index()] = strcmp(label, "WARNING") == 0 ? -1 : 0;
 
   if (add_to_channel_list)
   {
-- 
2.43.0


From cc2a57f0697081e4fad6e189fc36abfb4a0b25c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 27/30] fix: RcFile: don't turn off the ELFUTILS channel when
 it is already off

---
 src/utils/rcfile.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index cfa1335..38bb9e0 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -138,7 +138,8 @@ void RcFile::process_channel(Channel& debugChannel, std::string const& mask, act
       else if (elfutils_on_ && (action == off || action == toggle))
       {
         elfutils_on_ = false;
-        debugChannel.off();
+        if (debugChannel.is_on())
+          debugChannel.off();
         __Dout(dc::rcfile, "Turned off ELFUTILS");
       }
     }
-- 
2.43.0


From 8f48f6fa04ca809ea81a2113871296a15892f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 28/30] fix: dwarf: don't stay 'being initialized' when
 libcw_do could not be initialized yet

---
 src/dwarf.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 49e5108..73dcc88 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -912,7 +912,10 @@ bool ensure_initialization(LIBCWD_TSD_PARAM)
 
   // This must be called before calling register_initial_object_files.
   if (!libcw_do.NS_init(LIBCWD_TSD))
+  {
+    WST_being_initialized = false; // Try again later.
     return false;
+  }
 
   // MT: We assume this is called before reaching main().
   //     Therefore, no synchronisation is required.
-- 
2.43.0


From 98c496ea31fe8c8a32377a23424b64fb138ec289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 29/30] fix: dlclose: remember that a handle was opened with
 RTLD_NODELETE

---
 src/dwarf.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 73dcc88..03b31a7 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1420,10 +1420,13 @@ int dlclose(void* handle)
     if (iter != dynamic_loader_records_w->end() && --iter->second.refcount_ == 0)
     {
 #ifdef RTLD_NODELETE
+      // Keep the record, so that a subsequent dlopen/dlclose of this handle knows that it must not be deleted.
       if (!(iter->second.flags_ & RTLD_NODELETE))
 #endif
+      {
         object_file_to_unregister = iter->second.object_file_;
-      dynamic_loader_records_w->erase(iter);
+        dynamic_loader_records_w->erase(iter);
+      }
     }
   }
 
-- 
2.43.0


From 9cae56cef97668ef0391723476a309ebf566052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 30/30] fix: continued output without prefix must not repeat
 its first character

---
 src/debug.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 17293db..2897244 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -58,8 +58,10 @@ class Buffer : public std::stringbuf
   {
     streampos_t old_in_pos = this->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
     this->pubseekpos(0, std::ios_base::in);
-    os->put(this->sgetc());
     int size = position_ - std::streampos(0);
+    // The prefix is empty when noprefix_cf was used.
+    if (size > 0)
+      os->put(this->sgetc());
     for (int c = 1; c < size; ++c)
       os->put(this->snextc());
     this->pubseekpos(old_in_pos, std::ios_base::in);
-- 
2.43.0

