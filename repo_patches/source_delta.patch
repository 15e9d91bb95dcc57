From 4cdba1c49dc0ec54b1ae9b8501ff71bbf662898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 01/15] fix: keep the object alive when its owner is assigned
 from a non-owning copy

lockable_auto_ptr::operator= deleted the object and then pointed at it again
when the right-hand side was a non-owning copy of the left-hand side (made
while the left-hand side was locked).  Location::operator= did the same with
the file path.
---
 include/libcwd/lockable_auto_ptr.h | 7 +++++--
 src/location.cxx                   | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/libcwd/lockable_auto_ptr.h b/include/libcwd/lockable_auto_ptr.h
index 9ce1b06..95386db 100644
--- a/include/libcwd/lockable_auto_ptr.h
+++ b/include/libcwd/lockable_auto_ptr.h
@@ -170,7 +170,8 @@ lockable_auto_ptr<X, array>& lockable_auto_ptr<X, array>::operator=(lockable_aut
 {
   if ((void*)&r != (void*)this)
   {
-    if (owner_)
+    bool const keeps_object = owner_ && ptr_ == r.ptr_; // `r' is a non-owning copy of this pointer.
+    if (owner_ && !keeps_object)
     {
       if (array)
         delete[] ptr_;
@@ -178,7 +179,9 @@ lockable_auto_ptr<X, array>& lockable_auto_ptr<X, array>::operator=(lockable_aut
         delete ptr_;
     }
     ptr_ = r.ptr_;
-    if (r.locked_)
+    if (keeps_object)
+      owner_ = 1;
+    else if (r.locked_)
       owner_ = 0;
     else
     {
diff --git a/src/location.cxx b/src/location.cxx
index 1614c73..768079d 100644
--- a/src/location.cxx
+++ b/src/location.cxx
@@ -195,7 +195,9 @@ Location& Location::operator=(Location const& prototype)
 {
   if (this != &prototype)
   {
-    clear();
+    // Do not free the file path when prototype is a (non-owning) copy of this location.
+    if (!(known_ && prototype.known_ && filepath_.get() == prototype.filepath_.get()))
+      clear();
     if ((known_ = prototype.known_))
     {
       filepath_ = prototype.filepath_;
-- 
2.43.0


From dd1a611ee282a6e48e3d94efb3fb7b0a675d1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 02/15] fix: name the error numbers from ENOMEDIUM to EHWPOISON

---
 src/strerrno.cxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/strerrno.cxx b/src/strerrno.cxx
index f32a167..71f86f5 100644
--- a/src/strerrno.cxx
+++ b/src/strerrno.cxx
@@ -133,7 +133,18 @@ char const* const strerrno_table_c[] = {
     "ENAVAIL", /* No XENIX semaphores available */
     "EISNAM", /* Is a named type file */
     "EREMOTEIO", /* Remote I/O error */
-    "EDQUOT" /* Quota exceeded */
+    "EDQUOT", /* Quota exceeded */
+    "ENOMEDIUM", /* No medium found */
+    "EMEDIUMTYPE", /* Wrong medium type */
+    "ECANCELED", /* Operation canceled */
+    "ENOKEY", /* Required key not available */
+    "EKEYEXPIRED", /* Key has expired */
+    "EKEYREVOKED", /* Key has been revoked */
+    "EKEYREJECTED", /* Key was rejected by service */
+    "EOWNERDEAD", /* Owner died */
+    "ENOTRECOVERABLE", /* State not recoverable */
+    "ERFKILL", /* Operation not possible due to RF-kill */
+    "EHWPOISON" /* Memory page has hardware error */
 };
 
 } // namespace
-- 
2.43.0


From 324e2f9a80276a8806c66b6bb2fa486ae58f4958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 03/15] fix: do not name the unused error numbers 41 and 58

---
 src/strerrno.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strerrno.cxx b/src/strerrno.cxx
index 71f86f5..5599a55 100644
--- a/src/strerrno.cxx
+++ b/src/strerrno.cxx
@@ -52,7 +52,7 @@ char const* const strerrno_table_c[] = {
     "ENOSYS", /* Function not implemented */
     "ENOTEMPTY", /* Directory not empty */
     "ELOOP", /* Too many symbolic links encountered */
-    "EWOULDBLOCK", /* Operation would block */
+    "UNKNOWN ERROR", /* 41 is not used; EWOULDBLOCK is EAGAIN */
     "ENOMSG", /* No message of desired type */
     "EIDRM", /* Identifier removed */
     "ECHRNG", /* Channel number out of range */
@@ -69,7 +69,7 @@ char const* const strerrno_table_c[] = {
     "ENOANO", /* No anode */
     "EBADRQC", /* Invalid request code */
     "EBADSLT", /* Invalid slot */
-    "EDEADLOCK",
+    "UNKNOWN ERROR", /* 58 is not used; EDEADLOCK is EDEADLK */
     "EBFONT", /* Bad font file format */
     "ENOSTR", /* Device not a stream */
     "ENODATA", /* No data available */
-- 
2.43.0


From 9c9747c7a78956ca7a495bf8fee22c1ecc551e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 04/15] fix: keep exact type names right for substitutions
 after an S and for arrays

The backwards comparison in extract_exact_name mistook the S in which an
identifier may end for the start of a substitution (void(BarS, BarS) is
Fv4BarSS_E) and did not know that the cv-qualifiers of an array follow its
bounds: both ended in a failing assertion, or a corrupt name.
---
 src/type_info.cxx | 61 +++++++++++++----------------------------------
 1 file changed, 17 insertions(+), 44 deletions(-)

diff --git a/src/type_info.cxx b/src/type_info.cxx
index 35fc28a..a1b52fd 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -32,62 +32,35 @@ char const* extract_exact_name(char const* encap_mangled_name)
   return exact_name;
 }
 #else
-char const* skip_substitution(char const* const ptr, char const* const begin)
-{
-  char const* S_ptr = ptr;
-  // S_ptr now points to a trailing '_'.
-  for (int digits = 0; S_ptr > begin && digits < 3; ++digits)
-  {
-    --S_ptr;
-    // All legal substitution patterns have the form "S[0-9A-Z]*_" where we
-    // limit the number of base-36 digits to two (because it seems extremely
-    // unlikely that there are more than 1296 substitutions).
-    //
-    // We allow "SS_" where the second S is a digit; but not "SSS_" because
-    // it's already unlikely to have 841 substitutions, too.
-    if (*S_ptr == 'S' && (digits > 0 || S_ptr[-1] != 'S'))
-      return S_ptr;
-    // Substitutions use base-36 with 'digits' [0-9A-Z].
-    if (!('0' <= *S_ptr && *S_ptr <= '9') && !('A' <= *S_ptr && *S_ptr <= 'Z'))
-      break;
-  }
-  return ptr;
-}
-
 // As an example, the input could be:
 //
 // encap_mangled_name =
 // 22libcwd_type_info_exactIRKN4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS0_12OutputStreamEEEE
 // stripped_mangled_name =                         N4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS _12OutputStreamEEE
 // where the space in the latter is not really there (just added for alignment)               -------^
+//
+// That is, typeid(T).name() only lacks the reference and top-level cv-qualifiers of T; everything else
+// is the same, except that the substitutions are numbered differently. The cv-qualifiers of an array are
+// those of its elements and are therefore encoded after the array bounds: int const[3] is A3_Ki.
 char const* extract_exact_name(char const* encap_mangled_name, char const* stripped_mangled_name)
 {
   encap_mangled_name += 25; // Strip "22libcwd_type_info_exactI" from the beginning.
   // encap_mangled_name now points to the qualifiers string (if any) "RK".
-  char const* encap_ptr = encap_mangled_name + strlen(encap_mangled_name) - 1;
-  // encap_ptr now points to the last E of encap_mangled_name.
   size_t len = strlen(stripped_mangled_name);
-  char const* ptr = stripped_mangled_name + len;
-  // ptr now points to the terminating zero of stripped_mangled_name.
-  while (ptr > stripped_mangled_name)
-  {
-    --ptr;
-    --encap_ptr;
-    LIBCWD_ASSERT(*ptr == *encap_ptr); // This is how we assume the encapsulation works!
-    if (*ptr == '_')
-    {
-      // Now we want to put both pointers on the 'S',
-      // but only if this could be a substitution.
-      ptr = skip_substitution(ptr, stripped_mangled_name);
-      encap_ptr = skip_substitution(encap_ptr, encap_mangled_name);
-    }
-  }
-  // ptr is now equal to stripped_mangled_name, and encap_ptr points to the first character after the qualifiers.
-  size_t qlen = encap_ptr - encap_mangled_name;
-  char* exact_name = new char[qlen + len + 1]; // LEAK58
+  size_t qlen = strspn(encap_mangled_name, "ROVK");
+  // The length of the array bounds (if any), for example the length of "A2_A3_".
+  size_t alen = 0;
+  while (stripped_mangled_name[alen] == 'A')
+    alen += strcspn(stripped_mangled_name + alen, "_") + 1;
+  // The cv-qualifiers of the elements of the array (if any).
+  char const* element_qualifiers = encap_mangled_name + qlen + alen;
+  size_t cvlen = alen ? strspn(element_qualifiers, "VK") : 0;
+  char* exact_name = new char[qlen + cvlen + len + 1]; // LEAK58
   // Add the qualifiers to the mangled name:
-  strncpy(exact_name, encap_mangled_name, qlen);
-  strcpy(exact_name + qlen, stripped_mangled_name);
+  memcpy(exact_name, encap_mangled_name, qlen);
+  memcpy(exact_name + qlen, stripped_mangled_name, alen);
+  memcpy(exact_name + qlen + alen, element_qualifiers, cvlen);
+  strcpy(exact_name + qlen + alen + cvlen, stripped_mangled_name + alen);
   return exact_name;
 }
 #endif
-- 
2.43.0


From 117d59a63c2e551c8a50e49c08afd8a664011e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:55 +0000
Subject: [PATCH 05/15] fix: a successful try_lock means that the stream is
 locked

try_lock() of a mutex returns true when it was locked; the result was still
interpreted as that of the former trylock(), where 0 meant success. The
stream was therefore written to without lock, and a lock of another thread
released, exactly when it was in use.
---
 include/libcwd/DebugObject.inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index b74f8a9..3c7fd0b 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -190,7 +190,7 @@ inline bool OstreamState::try_lock_os(std::ostream* os, std::ostream** locked_os
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
   // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-  if (mutex_ && mutex_->try_lock())
+  if (mutex_ && !mutex_->try_lock())
     return false;
   *locked_os_out = os ? os : real_os_;
   *locked_mutex_out = mutex_;
-- 
2.43.0


From 97ff779a5b9ca29132d0b70360c3653db8bd1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:55 +0000
Subject: [PATCH 06/15] fix: do not print a character of the message as part of
 an empty prefix

write_prefix_to wrote the first character of the buffer also when the
message has no prefix (noprefix_cf).
---
 src/debug.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index ce7ed2a..837ea8b 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -58,10 +58,9 @@ class Buffer : public std::stringbuf
   {
     streampos_t old_in_pos = this->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
     this->pubseekpos(0, std::ios_base::in);
-    os->put(this->sgetc());
     int size = position_ - std::streampos(0);
-    for (int c = 1; c < size; ++c)
-      os->put(this->snextc());
+    for (int c = 0; c < size; ++c)
+      os->put(c == 0 ? this->sgetc() : this->snextc());
     this->pubseekpos(old_in_pos, std::ios_base::in);
   }
 };
-- 
2.43.0


From f033fe9e8d16e9983c4cecd95ad165f5411bb4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 07/15] fix: write an interrupted message to the stream that it
 was started on

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 837ea8b..8182115 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -921,7 +921,7 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 #endif
     int saved_errno = errno; // The writeto below changes errno.
     // And write out what is in the buffer till now.
-    std::ostream* target_os = (channel_set.mask & cerr_cf) ? &std::cerr : nullptr;
+    std::ostream* target_os = (current->mask & cerr_cf) ? &std::cerr : nullptr;
     current->buffer.writeto(
         target_os, LIBCWD_TSD, debug_object,
         true, // This thread requests an <unfinished> because of previous, unfinished 'continued' output.
-- 
2.43.0


From 32825fcbab7ce7ad3ab4af92ec81a8d49044ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 08/15] fix: mark the interruption of a flushed continued
 message

---
 src/debug.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 8182115..117c614 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1051,6 +1051,8 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
           true // Flush ostream after printing this.
          , false // This output does not end on a newline.
          , false); // The newline is not missing as a result of nonewline_cf.
+      // The line that was just written is still open, so the next start() has to end it.
+      unfinished_expected = true;
     }
     return;
   }
-- 
2.43.0


From e16cf9f96fff38b6dcfd6b7b3490514de6cd80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 09/15] fix: only turn on the channel whose whole label is
 WARNING by default

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 117c614..f34a914 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -513,7 +513,7 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
   channel.initialize(channels_w, label, label_len);
 
   // Turn debug channel "WARNING" on by default.
-  __libcwd_tsd.off_cnt_array[channel.index()] = strncmp(channel.get_label(), "WARNING", label_len) == 0 ? -1 : 0;
+  __libcwd_tsd.off_cnt_array[channel.index()] = strcmp(label, "WARNING") == 0 ? -1 : 0;
 
   if (add_to_channel_list)
   {
-- 
2.43.0


From 3606ab1b683d85d80110b6752cf9d9bf1945ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 10/15] fix: pad the labels of the fatal channels when a longer
 fatal label is registered

---
 src/debug.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index f34a914..92621ce 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -547,6 +547,8 @@ void DebugChannels::initialize_fatal_channel(FatalChannel& channel, char const*
 
   Impl::channel_sets_ts::wat channels_w(impl->channel_sets);
 
+  const_cast<char*>(channels::dc::core.get_label())[WST_max_len] = ' ';
+  const_cast<char*>(channels::dc::fatal.get_label())[WST_max_len] = ' ';
   for (Channel* debug_channel : channels_w->visible_)
     const_cast<char*>(debug_channel->get_label())[WST_max_len] = ' ';
   for (Channel* debug_channel : channels_w->hidden_)
@@ -556,6 +558,8 @@ void DebugChannels::initialize_fatal_channel(FatalChannel& channel, char const*
   if (label_len > WST_max_len)
     WST_max_len = label_len;
 
+  const_cast<char*>(channels::dc::core.get_label())[WST_max_len] = '\0';
+  const_cast<char*>(channels::dc::fatal.get_label())[WST_max_len] = '\0';
   for (Channel* debug_channel : channels_w->visible_)
     const_cast<char*>(debug_channel->get_label())[WST_max_len] = '\0';
   for (Channel* debug_channel : channels_w->hidden_)
-- 
2.43.0


From 5fafd44d5a2294a10d8856a1863dee452dc3ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 11/15] fix: only dlopen'ed objects that this dlopen loaded are
 forgotten at the last dlclose

A successful dlopen(..., RTLD_NOLOAD) did not count as a reference, and opening an
object that was already registered (loaded at startup, or kept because of
RTLD_NODELETE) made a record for it. In both cases a later dlclose unregistered an
object that was still loaded.
---
 src/dwarf.cxx | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 59d4404..a9ce3b6 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -196,7 +196,7 @@ class ObjectFileRegistry
   static ObjectFile const* find_registered_object_file(uintptr_t lbase, object_files_ts::wat const& object_files_w);
 
   // Called from dlopen.
-  static ObjectFile const* register_object_file_at_lbase(uintptr_t lbase);
+  static ObjectFile const* register_object_file_at_lbase(uintptr_t lbase, bool& already_registered);
   // Needed for Location.
   static ObjectFile const* find_object_file(uintptr_t addr);
 };
@@ -856,13 +856,14 @@ ObjectFile const* ObjectFileRegistry::find_registered_object_file(uintptr_t lbas
 }
 
 //static
-ObjectFile const* ObjectFileRegistry::register_object_file_at_lbase(uintptr_t lbase)
+ObjectFile const* ObjectFileRegistry::register_object_file_at_lbase(uintptr_t lbase, bool& already_registered)
 {
   // Locks object_files_map().
   CallBackData const data{current_executable_path(), lbase};
 
   // If this object file was already loaded before, then return that instead of creating a new ObjectFile.
   ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_ts::wat{object_files_map()});
+  already_registered = existing_object_file != nullptr;
 
   // Otherwise iterate over all currently loaded object files to find the just dynamically
   // opened object file, loaded at data.target_lbase_, and create a new ObjectFile for it.
@@ -1341,12 +1342,9 @@ void* dlopen(char const* name, int flags)
   }
   if (handle == nullptr)
     return handle;
-#ifdef RTLD_NOLOAD
-  if ((flags & RTLD_NOLOAD))
-    return handle;
-#endif
 
   // If the record already exist, increment DynamicLoaderRecord::refcount_ and return.
+  // This includes a successful RTLD_NOLOAD, which needs a dlclose of its own too.
   {
     dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
     {
@@ -1360,6 +1358,11 @@ void* dlopen(char const* name, int flags)
     }
   }
 
+#ifdef RTLD_NOLOAD
+  if ((flags & RTLD_NOLOAD))
+    return handle;
+#endif
+
   if (need_register_object_file)
   {
     struct link_map* link_map;
@@ -1369,12 +1372,15 @@ void* dlopen(char const* name, int flags)
       ObjectFile const* object_file = nullptr;
       bool skip_dlopen_map = false;
       ForceLoadingDebugOutput scoped_;
-      object_file = ObjectFileRegistry::register_object_file_at_lbase(lbase);
+      bool already_registered;
+      object_file = ObjectFileRegistry::register_object_file_at_lbase(lbase, already_registered);
       // NULL would mean that there is no DSO at the `l_addr` that `dlinfo` just returned.
       // That shouldn't be possible because no thread can have dlclose-d it without already haven gotten the handle that
       // we didn't even return yet. However, in theory it can also mean that this DSO didn't have any non-empty PT_LOAD
       // segments, in which case we just want to ignore the DSO.
-      if (!object_file)
+      // An object file that was already registered without having a record was not loaded by this call (it was, for
+      // example, loaded at startup or kept because of RTLD_NODELETE) and will therefore not be unloaded by dlclose.
+      if (!object_file || already_registered)
         skip_dlopen_map = true;
       if (!skip_dlopen_map)
         dynamic_loader_records_ts::wat(dlopen_map())->emplace(handle, DynamicLoaderRecord{object_file, flags});
-- 
2.43.0


From bec6f45d8f4be6e8a7f248b5e3730e8498a5c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 12/15] fix: demangling a truncated name never reads behind the
 end of the input

A name that ended in _GLOBAL_ was read up to three characters past its
terminating zero, and a large length in a source name overflowed.
---
 include/cwd_demangle.h | 25 +++++++++++++++++++------
 src/demangle.cxx       |  4 ++--
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 38bbc16..68320f6 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -347,7 +347,15 @@ class session
 
   char next_peek() const { return (pos_ >= maxpos_) ? 0 : str_[pos_ + 1]; }
 
-  char next() { return (pos_ >= maxpos_) ? 0 : str_[++pos_]; }
+  char next()
+  {
+    if (pos_ >= maxpos_)
+    {
+      pos_ = maxpos_ + 1; // The end of the input.
+      return 0;
+    }
+    return str_[++pos_];
+  }
 
   char eat_current() { return (pos_ > maxpos_) ? 0 : str_[pos_++]; }
 
@@ -2164,13 +2172,18 @@ bool session<Allocator>::decode_source_name(string_type& output)
   if (length < 1 || length > 9)
     _GLIBCXX_DEMANGLER_FAILURE;
   while (isdigit(next()))
-    length = 10 * length + current() - '0';
+  {
+    if (length > maxpos_ / 10)
+      _GLIBCXX_DEMANGLER_FAILURE;
+    length = 10 * length + (current() - '0');
+  }
+  if (length > maxpos_ - pos_ + 1) // Is the input too short?
+    _GLIBCXX_DEMANGLER_FAILURE;
   char const* ptr = &str_[pos_];
   if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[9] == 'N' && ptr[8] == ptr[10])
   {
     output += "(anonymous namespace)";
-    if ((pos_ += length) > maxpos_ + 1)
-      _GLIBCXX_DEMANGLER_FAILURE;
+    pos_ += length;
   }
   else
     while (length--)
@@ -2549,7 +2562,7 @@ typename demangle<Allocator>::string_type demangle<Allocator>::symbol(char const
     }
     else if (input[1] == 'Z')
     {
-      int cnt = demangler_type::decode_encoding(result, input + 2, INT_MAX, id);
+      int cnt = demangler_type::decode_encoding(result, input + 2, strlen(input + 2), id);
       if (cnt < 0 || input[cnt + 2] != 0)
         failure = true;
     }
@@ -2576,7 +2589,7 @@ typename demangle<Allocator>::string_type demangle<Allocator>::type(char const*
     result = "(null)";
   else
   {
-    demangler::session<Allocator> demangler_session(input, INT_MAX, id);
+    demangler::session<Allocator> demangler_session(input, strlen(input), id);
     if (!demangler_session.decode_type(result) || demangler_session.remaining_input_characters())
     {
       // Failure to demangle, return the mangled name.
diff --git a/src/demangle.cxx b/src/demangle.cxx
index d44ec52..2367535 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -717,7 +717,7 @@ void demangle_symbol(char const* input, std::string& output)
     {
       // C++ name?
       implementation_details id(0);
-      int cnt = session_type::decode_encoding(output, input + 2, INT_MAX, id);
+      int cnt = session_type::decode_encoding(output, input + 2, strlen(input + 2), id);
       if (cnt < 0 || input[cnt + 2] != 0)
         failure = true;
     }
@@ -773,7 +773,7 @@ void demangle_type(char const* input, std::string& output)
     return;
   }
   implementation_details id(0);
-  session_type demangler_session(input, INT_MAX, id);
+  session_type demangler_session(input, strlen(input), id);
   if (!demangler_session.decode_type(output) || demangler_session.remaining_input_characters())
     output.assign(input, strlen(input)); // Failure to demangle, return the mangled type name.
 #ifdef STANDALONE
-- 
2.43.0


From 161703562b7c6a6cde11283f561373b2deaaea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 13/15] fix: the buffer for a demangled real is large enough
 for the longest real

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 68320f6..5b9bb0b 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -874,7 +874,7 @@ bool session<Allocator>::decode_real(string_type& output, size_t size_of_real)
     }
     ++word;
   }
-  char buf[24];
+  char buf[32]; // Large enough for the longest real, for example "-2.2250738585072014e-308".
   if (implementation_details_.decode_real(buf, words, size_of_real))
   {
     output += buf;
-- 
2.43.0


From 7fa7f3df5cac17b80a0c729d58f72e7acd490259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 14/15] fix: demangling a template argument that refers to
 itself does not recurse without end

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 5b9bb0b..b92d101 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -820,7 +820,7 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
     _GLIBCXX_DEMANGLER_FAILURE;
   int saved_pos = pos_;
   pos_ = template_arg_pos_[value];
-  if (inside_type_ > 20) // Rather than core dump.
+  if (inside_type_ > 20 || inside_substitution_ > 100) // Rather than core dump.
     _GLIBCXX_DEMANGLER_FAILURE;
   ++inside_substitution_;
   if (current() == 'X')
-- 
2.43.0


From d69139349ed680a55a05fc6920743d8a519a2572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:14 +0000
Subject: [PATCH 15/15] fix: turning ELFUTILS off in the rc file leaves a
 channel that is off already alone

DebugChannel::off() nests, so the extra call made a later single on() fail to
turn the channel on (channels_default = on, channels_off = elfutils).
---
 src/utils/rcfile.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index cfa1335..38bb9e0 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -138,7 +138,8 @@ void RcFile::process_channel(Channel& debugChannel, std::string const& mask, act
       else if (elfutils_on_ && (action == off || action == toggle))
       {
         elfutils_on_ = false;
-        debugChannel.off();
+        if (debugChannel.is_on())
+          debugChannel.off();
         __Dout(dc::rcfile, "Turned off ELFUTILS");
       }
     }
-- 
2.43.0

