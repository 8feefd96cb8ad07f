From a0d7d269e3953b958d2dd94b6f7f711e49069a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 01/47] fix: basic_linear_buffer::insert shifts the tail the
 wrong way without reallocation

---
 include/asioext/impl/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 5153cf3..6492b11 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -88,8 +88,8 @@ void basic_linear_buffer<Allocator>::insert(std::size_t before_this,
                   size_ - before_this);
     });
   } else {
-    std::memmove(rep_.data_ + before_this,
-                 rep_.data_ + before_this + n,
+    std::memmove(rep_.data_ + before_this + n,
+                 rep_.data_ + before_this,
                  size_ - before_this);
     std::memcpy(rep_.data_ + before_this, data, n);
   }
-- 
2.43.0


From 8c007ac26823395a827a98b333d57516cee58e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 02/47] fix: basic_linear_buffer move assignment leaks,
 recurses forever or leaves the source unemptied

---
 include/asioext/impl/linear_buffer.hpp | 38 ++++++++++++++++++--------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 6492b11..2b708e4 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -152,18 +152,28 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
   ASIOEXT_NOEXCEPT_IF(allocator_traits_type::is_always_equal::value)
 #endif
 {
-  if (static_cast<allocator_type&>(rep_) !=
-      static_cast<allocator_type&>(other.rep_)) {
-    if (rep_.data_)
-      allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
-
-    capacity_ = other.capacity_;
-    size_ = other.size_;
-    rep_.data_ = allocator_traits_type::allocate(rep_, capacity_);
-    std::memcpy(rep_.data_, other.rep_.data_, size_);
-  } else {
-    move_assign(other, std::false_type());
+  if (this == &other)
+    return;
+
+  uint8_t* new_data = other.rep_.data_;
+  if (new_data && static_cast<allocator_type&>(rep_) !=
+                  static_cast<allocator_type&>(other.rep_)) {
+    // The storage can't be taken over, so copy it and release the original.
+    new_data = allocator_traits_type::allocate(rep_, other.capacity_);
+    std::memcpy(new_data, other.rep_.data_, other.size_);
+    allocator_traits_type::deallocate(other.rep_, other.rep_.data_,
+                                      other.capacity_);
   }
+
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+
+  rep_.data_ = new_data;
+  capacity_ = other.capacity_;
+  size_ = other.size_;
+  max_size_ = other.max_size_;
+  other.rep_.data_ = nullptr;
+  other.capacity_ = other.size_ = 0;
 }
 
 template <typename Allocator>
@@ -171,6 +181,12 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
                                                  std::true_type)
   ASIOEXT_NOEXCEPT_IF(std::is_nothrow_move_assignable<allocator_type>::value)
 {
+  if (this == &other)
+    return;
+
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+
   static_cast<allocator_type&>(rep_) =
       std::move(static_cast<allocator_type&>(other.rep_));
   rep_.data_ = other.rep_.data_;
-- 
2.43.0


From 94cf4f372699866645da636671774a266daed664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 03/47] fix: basic_linear_buffer returns a null block to its
 allocator on first growth

---
 include/asioext/impl/linear_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 2b708e4..4846272 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -203,7 +203,8 @@ void basic_linear_buffer<Allocator>::reallocate(std::size_t cap, Function&& fn)
 {
   uint8_t* new_buffer = allocator_traits_type::allocate(rep_, cap);
   fn(new_buffer);
-  allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
   rep_.data_ = new_buffer;
   capacity_ = cap;
 }
-- 
2.43.0


From 9d2987e9c1d1277a5df021155edf6a30e9172873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 04/47] fix: dynamic_linear_buffer::data() has a bogus size
 before the first prepare()

---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 89139b2..a57d091 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -522,7 +522,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   mutable_buffers_type data() ASIOEXT_NOEXCEPT
   {
-    return mutable_buffers_type(data_.data(), size_);
+    return mutable_buffers_type(data_.data(), size());
   }
 
   /// Get a list of buffers that represents the input sequence.
@@ -535,7 +535,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   const_buffers_type data() const ASIOEXT_NOEXCEPT
   {
-    return const_buffers_type(data_.data(), size_);
+    return const_buffers_type(data_.data(), size());
   }
 #endif
 
-- 
2.43.0


From ab38ee363b24a11997f6b67a22853a3000bfaaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 05/47] fix: dynamic_linear_buffer::data(pos, n) overflows for
 huge n

---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index a57d091..6f32c67 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -558,7 +558,7 @@ public:
     const std::size_t siz = data_.size();
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return mutable_buffers_type(data_.data() + pos, n);
   }
@@ -579,7 +579,7 @@ public:
     const std::size_t siz = data_.size();
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return const_buffers_type(data_.data() + pos, n);
   }
-- 
2.43.0


From c2a59399b7b9df5384c89b3323746e875dea6320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 06/47] fix: URL parser accepts unterminated IPv6 literals

---
 include/asioext/detail/impl/url_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index d67c6c5..48f9436 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -237,6 +237,12 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
       return;
     }
 
+    // The IP literal must be terminated.
+    if (first[-1] != ']') {
+      ec = make_error_code(url_error::invalid_character);
+      return;
+    }
+
     out.host = std::string_view(start, first - start);
   } else {
     auto start = first;
-- 
2.43.0


From a111de6a129c429f3f57e80a71d845ecce19539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 07/47] fix: URL parser rejects a fragment directly after the
 authority

---
 include/asioext/detail/impl/url_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index 48f9436..e6ac024 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -340,6 +340,8 @@ ASIOEXT_CONSTEXPR14 url_state get_state_for(url_state s,
           return url_state::path;
         case '?':
           return url_state::query_string_start;
+        case '#':
+          return url_state::fragment_start;
         case '@':
           return url_state::authority_with_at;
         case '[':
-- 
2.43.0


From 82c9e7fcbecea2b46dadc219e6b4ab0e407e975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 08/47] fix: URL parser loses or rejects minimal paths after
 the scheme

---
 include/asioext/detail/impl/url_parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index e6ac024..1e2bc37 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -316,6 +316,10 @@ ASIOEXT_CONSTEXPR14 url_state get_state_for(url_state s,
     case url_state::scheme_suffix:
       if (ch == '/')
         return url_state::scheme_suffix_slash;
+      if (ch == '?')
+        return url_state::query_string_start;
+      if (ch == '#')
+        return url_state::fragment_start;
       if (is_url_char(ch))
         return url_state::path;
       break;
@@ -323,7 +327,7 @@ ASIOEXT_CONSTEXPR14 url_state get_state_for(url_state s,
     case url_state::scheme_suffix_slash:
       if (ch == '/')
         return url_state::authority_start;
-      if (is_url_char(ch))
+      if (is_url_char(ch) || ch == '?' || ch == '#')
         return url_state::path_after_scheme;
       break;
 
@@ -466,6 +470,10 @@ void parse_url(const char* first, const char* last, parsed_url& out,
   if (current_part)
     *current_part = std::string_view(first, it - first);
 
+  // "scheme:/" - the last slash is the entire path.
+  if (s == url_state::scheme_suffix_slash)
+    out.path = std::string_view(it - 1, 1);
+
   ec = error_code();
   if (!out.host.empty()) {
     // until this point the entire authority section is stored in |host|
-- 
2.43.0


From 6adbd53f9095c6a08a771996edc0b8b0c923a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 09/47] fix: compose_time overflows for values below the
 representable range

---
 include/asioext/detail/impl/chrono.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index ccd4d19..2f6f7f6 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -159,9 +159,11 @@ bool compose_time(const FirstDuration& first, const SecondDuration& second,
 
   if (values_type::first_rep_min() != values_type::min_first() &&
       first.count() == values_type::min_first() - 1) {
-    if (second.count() < values_type::min_second())
+    // The result is |min_first - (1f - second)|.
+    if (FirstDuration(1) - second >
+        FirstDuration(values_type::min_first()) - (Duration::min)())
       return false;
-  } else if (first.count() < values_type::min_second()) {
+  } else if (first.count() < values_type::min_first()) {
     return false;
   }
 
-- 
2.43.0


From 11547ad9c637afb88bead9b5b1e0000061d9f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 10/47] fix: safe_duration_cast overflows for fractional period
 ratios

---
 include/asioext/detail/impl/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index 2f6f7f6..b02f040 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -50,7 +50,7 @@ ASIOEXT_CONSTEXPR14 bool safe_duration_cast(
       return true;
     }
   } else {
-    if (in.count() < (conv_limit::min)() / result_ratio::num &&
+    if (in.count() < (conv_limit::min)() / result_ratio::num ||
         in.count() > (conv_limit::max)() / result_ratio::num)
       return false;
     const conv_type temp = static_cast<conv_type>(in.count()) *
-- 
2.43.0


From 84527f33c22b1878ee9d6ff62a7227a6f4e959d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 11/47] fix: move assignment of file objects does not compile

---
 include/asioext/io_object_holder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/io_object_holder.hpp b/include/asioext/io_object_holder.hpp
index 9a2d25f..d7e622b 100644
--- a/include/asioext/io_object_holder.hpp
+++ b/include/asioext/io_object_holder.hpp
@@ -107,6 +107,7 @@ public:
   // Move-assign an I/O object.
   io_object_holder& operator=(io_object_holder&& other)
       noexcept(noexcept(std::declval<IoObjectService>().move_assign(std::declval<implementation_type&>(),
+                                                                    std::declval<IoObjectService&>(),
                                                                     std::declval<implementation_type&>())))
   {
     if (this != &other)
-- 
2.43.0


From e0512296dcd42b8deef45ecf3766e0fec055f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 12/47] fix: truncate_existing without write access is accepted

---
 include/asioext/impl/open_flags.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/impl/open_flags.cpp b/include/asioext/impl/open_flags.cpp
index b11d031..23f0326 100644
--- a/include/asioext/impl/open_flags.cpp
+++ b/include/asioext/impl/open_flags.cpp
@@ -16,6 +16,11 @@ bool is_valid(open_flags flags) ASIOEXT_NOEXCEPT
   if (count > 1)
     return false;
 
+  // Truncating a file requires write access.
+  if ((flags & open_flags::truncate_existing) != open_flags::none &&
+      (flags & open_flags::access_write) == open_flags::none)
+    return false;
+
   return true;
 }
 
-- 
2.43.0


From 27d805b25ef4b719639ed40125bc2a06803e942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 13/47] fix: destroying or moving onto a file terminates when
 close fails

---
 include/asioext/impl/thread_pool_file_service.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 0906740..fb99c8f 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -266,7 +266,8 @@ void thread_pool_file_service::close_for_destruction(implementation_type& impl)
   if (impl.handle_.is_open()) {
     // TODO(tim): log handler operation
     impl.cancel_token_.destroy();
-    impl.handle_.close();
+    error_code ec;
+    impl.handle_.close(ec);
   }
 }
 
-- 
2.43.0


From a98af4cdf4cf0758f084b32b9ea8de8e28c538cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 14/47] fix: open() passes invalid open_args to the system

---
 include/asioext/detail/impl/posix_file_ops.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 3a036df..11ccbb7 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -240,6 +240,11 @@ int parse_open_flags(open_flags flags) ASIOEXT_NOEXCEPT
 handle_type open(const char* path, const open_args& args,
                  error_code& ec) ASIOEXT_NOEXCEPT
 {
+  if (!args.is_valid()) {
+    set_error(ec, EINVAL);
+    return -1;
+  }
+
   mode_t mode = static_cast<mode_t>(args.mode());
   while (true) {
     handle_type fd = ::open(path, O_CLOEXEC | args.native_flags(), mode);
-- 
2.43.0


From 4dcb07bc5f854d49b77c63bc4ecfd5ad339fb6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 15/47] fix: self-move-assignment closes a unique_file_handle

---
 include/asioext/impl/unique_file_handle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/impl/unique_file_handle.cpp b/include/asioext/impl/unique_file_handle.cpp
index 2a53dae..c2eb551 100644
--- a/include/asioext/impl/unique_file_handle.cpp
+++ b/include/asioext/impl/unique_file_handle.cpp
@@ -42,6 +42,9 @@ unique_file_handle::unique_file_handle(unique_file_handle&& other) ASIOEXT_NOEXC
 
 unique_file_handle& unique_file_handle::operator=(unique_file_handle&& other)
 {
+  if (this == &other)
+    return *this;
+
   if (handle_.is_open())
     handle_.close();
 
-- 
2.43.0


From a997d89113b8c1f24c197660bdb3183af49960f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 16/47] fix: unique_file_handle::reset leaks the new handle
 when close fails

---
 include/asioext/impl/unique_file_handle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/unique_file_handle.cpp b/include/asioext/impl/unique_file_handle.cpp
index c2eb551..a78b5eb 100644
--- a/include/asioext/impl/unique_file_handle.cpp
+++ b/include/asioext/impl/unique_file_handle.cpp
@@ -71,8 +71,8 @@ void unique_file_handle::reset(file_handle handle,
                                error_code& ec) ASIOEXT_NOEXCEPT
 {
   close(ec);
-  if (!ec)
-    handle_ = handle;
+  // Ownership is transferred even if closing the previous handle failed.
+  handle_ = handle;
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From ee105b416798f725a12a021d07f2f046af15f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 17/47] fix: duplicated handles are inherited by child
 processes

---
 include/asioext/detail/impl/posix_file_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 11ccbb7..811ae02 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -292,7 +292,7 @@ void close(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 
 handle_type duplicate(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 {
-  const int new_fd = ::dup(fd);
+  const int new_fd = ::fcntl(fd, F_DUPFD_CLOEXEC, 0);
   if (new_fd != -1) {
     ec = error_code();
     return new_fd;
-- 
2.43.0


From c5fcaad6b27b8f3f5830c70f2e4d7ecf658546b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 18/47] fix: get_stdin/get_stdout/get_stderr leave a stale
 error code

---
 include/asioext/detail/impl/posix_file_ops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 811ae02..3b8ccbb 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -304,16 +304,19 @@ handle_type duplicate(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 
 handle_type get_stdin(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDIN_FILENO;
 }
 
 handle_type get_stdout(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDOUT_FILENO;
 }
 
 handle_type get_stderr(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDERR_FILENO;
 }
 
-- 
2.43.0


From 16a23310bcf04259b42476e136e9395f2410e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 19/47] fix: basic_file::cancel leaves a stale error code

---
 include/asioext/impl/thread_pool_file_service.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index fb99c8f..c33a5d8 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -258,6 +258,7 @@ void thread_pool_file_service::cancel(implementation_type& impl,
   }
 
   impl.cancel_token_.cancel();
+  ec = error_code();
   // TODO(tim): log handler operation
 }
 
-- 
2.43.0


From 052b8ec68009c21b154040c0f74ea2ccd6a8ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 20/47] fix: read_file terminates when the container cannot
 grow

---
 include/asioext/impl/read_file.hpp | 3 +--
 include/asioext/read_file.hpp      | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/asioext/impl/read_file.hpp b/include/asioext/impl/read_file.hpp
index 0b572fa..5e32555 100644
--- a/include/asioext/impl/read_file.hpp
+++ b/include/asioext/impl/read_file.hpp
@@ -99,8 +99,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
-    read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT
+    read_file(file_handle file, RawByteContainer& c, error_code& ec)
 {
   const uint64_t size = file.size(ec);
   if (ec) return;
diff --git a/include/asioext/read_file.hpp b/include/asioext/read_file.hpp
index 1e00625..9756022 100644
--- a/include/asioext/read_file.hpp
+++ b/include/asioext/read_file.hpp
@@ -151,8 +151,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 /// the object is reset.
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
-    read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT;
+    read_file(file_handle file, RawByteContainer& c, error_code& ec);
 
 /// @}
 
-- 
2.43.0


From 3fb7a504cb59fd0e13887b2b5573b2181c00009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 21/47] fix: write_file reports success when closing the file
 fails

---
 include/asioext/impl/write_file.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/asioext/impl/write_file.hpp b/include/asioext/impl/write_file.hpp
index e7adef3..7cb9d9e 100644
--- a/include/asioext/impl/write_file.hpp
+++ b/include/asioext/impl/write_file.hpp
@@ -41,8 +41,12 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
   unique_file_handle file = open(filename,
                                  open_flags::access_write |
                                  open_flags::create_always, ec);
+  if (ec)
+    return;
+
+  asio::write(file, buffers, ec);
   if (!ec)
-    asio::write(file, buffers, ec);
+    file.close(ec);
 }
 
 #if defined(ASIOEXT_WINDOWS)  || defined(ASIOEXT_IS_DOCUMENTATION)
@@ -63,8 +67,12 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
   unique_file_handle file = open(filename,
                                  open_flags::access_write |
                                  open_flags::create_always, ec);
+  if (ec)
+    return;
+
+  asio::write(file, buffers, ec);
   if (!ec)
-    asio::write(file, buffers, ec);
+    file.close(ec);
 }
 #endif
 
@@ -88,8 +96,12 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
   unique_file_handle file = open(filename,
                                  open_flags::access_write |
                                  open_flags::create_always, ec);
+  if (ec)
+    return;
+
+  asio::write(file, buffers, ec);
   if (!ec)
-    asio::write(file, buffers, ec);
+    file.close(ec);
 }
 #endif
 
-- 
2.43.0


From ec8efc0ee63fc51ca7bf804ae30bc615a58e6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 22/47] fix: unique_handler: keep the state consistent when
 storing fails, self-moves and re-entrancy

---
 include/asioext/unique_handler.hpp | 39 ++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 07445ca..bf97e8c 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -16,6 +16,8 @@
 
 #include "asioext/associated_allocator.hpp"
 
+#include <utility>
+
 ASIOEXT_NS_BEGIN
 
 namespace detail {
@@ -77,9 +79,7 @@ public:
   /// It is moved-constructed into @c unique_handler-owned storage.
   template <typename Handler>
   unique_handler(Handler&& handler)
-    : storage_(new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                                            std::decay_t<Handler>>(handler))
-        storage_impl<std::decay_t<Handler>>(handler))
+    : storage_(storage_impl<std::decay_t<Handler>>::create(handler))
   {}
 
   /// @brief Destroy a @c unique_handler.
@@ -119,11 +119,12 @@ public:
   /// constructed using the @c unique_handler() constructor.
   unique_handler& operator=(unique_handler&& other) ASIOEXT_NOEXCEPT
   {
-    if (storage_)
-      storage_->abort(storage_);
-
-    storage_ = other.storage_;
+    // Destroying the current handler might run user-code that uses this object.
+    storage_base* storage = other.storage_;
     other.storage_ = nullptr;
+    std::swap(storage, storage_);
+    if (storage)
+      storage->abort(storage);
     return *this;
   }
 
@@ -139,12 +140,12 @@ public:
   template <typename Handler>
   unique_handler& operator=(Handler&& handler)
   {
-    if (storage_)
-      storage_->abort(storage_);
-
-    storage_ = new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                               Handler>(handler))
-        storage_impl<std::decay_t<Handler>>(std::move(handler));
+    // Creating the new storage can fail, in which case we keep the old one.
+    storage_base* storage =
+        storage_impl<std::decay_t<Handler>>::create(handler);
+    std::swap(storage, storage_);
+    if (storage)
+      storage->abort(storage);
     return *this;
   }
 
@@ -199,6 +200,18 @@ private:
       this->complete = do_complete;
     }
 
+    static storage_impl* create(Handler& handler)
+    {
+      storage_impl* ptr =
+          detail::allocate_operation<storage_impl, Handler>(handler);
+      try {
+        return new (ptr) storage_impl(handler);
+      } catch (...) {
+        detail::deallocate_operation(ptr, handler);
+        throw;
+      }
+    }
+
     static void do_abort(storage_base* self)
     {
       storage_impl* self_impl = static_cast<storage_impl*>(self);
-- 
2.43.0


From f1dad05e2b1251ba406278bd95ac4b6a2124a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 23/47] fix: bind_handler: release the work guards after the
 handler, as documented

---
 include/asioext/detail/bound_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/bound_handler.hpp b/include/asioext/detail/bound_handler.hpp
index 3215d3e..e357a14 100644
--- a/include/asioext/detail/bound_handler.hpp
+++ b/include/asioext/detail/bound_handler.hpp
@@ -121,8 +121,8 @@ public:
     ASIOEXT_NOEXCEPT_IF(noexcept(asioext::detail::invoke(
           handler_, args_, args_indices_type{})))
   {
-    this->reset(); // defined in Work
     asioext::detail::invoke(handler_, args_, args_indices_type{});
+    this->reset(); // defined in Work
   }
 };
 
-- 
2.43.0


From 69f4c06bf66caf45e1212a418466cc00e158fad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 24/47] fix: make_composed_operation: copy lvalue handlers and
 implementations

---
 include/asioext/compose.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/asioext/compose.hpp b/include/asioext/compose.hpp
index 70dc95b..dec58bd 100644
--- a/include/asioext/compose.hpp
+++ b/include/asioext/compose.hpp
@@ -97,9 +97,9 @@ composed_operation<
     typename std::decay<Handler>::type,
     typename std::decay<Impl>::type,
     typename std::decay<Work>::type
-  >(std::move(handler),
-    std::move(impl),
-    std::move(work));
+  >(std::forward<Handler>(handler),
+    std::forward<Impl>(impl),
+    std::forward<Work>(work));
 }
 
 template <typename IoObject, typename = typename std::enable_if<
-- 
2.43.0


From c1f601a443f112e1843c6da9f0b1ac14c3e3bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 25/47] fix: cancellation_token_source: cancel() must not
 revive a destroyed source, reset() must not cancel the tokens of a live one

---
 include/asioext/impl/cancellation_token.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/cancellation_token.cpp b/include/asioext/impl/cancellation_token.cpp
index 250ea19..5bf488f 100644
--- a/include/asioext/impl/cancellation_token.cpp
+++ b/include/asioext/impl/cancellation_token.cpp
@@ -45,7 +45,10 @@ cancellation_token_source& cancellation_token_source::operator=(
 
 void cancellation_token_source::cancel()
 {
-  ptr_.reset(static_cast<void*>(0), detail::null_deleter());
+  // A destroyed source stays destroyed until it's reset.
+  // (The pointer itself is always null, only its ownership matters.)
+  if (ptr_.use_count() != 0)
+    ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
 void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
@@ -55,7 +58,7 @@ void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
 
 void cancellation_token_source::reset()
 {
-  if (!ptr_)
+  if (ptr_.use_count() == 0)
     ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
-- 
2.43.0


From bdc95239afda13e0437b3588e6fcdfd6adb926cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 26/47] fix: thread_pool_file_service: make asynchronous
 operations usable with coroutines

The initiation arguments have to be copyable, which a cancellation_token_source is not.
---
 .../asioext/impl/thread_pool_file_service.hpp    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.hpp b/include/asioext/impl/thread_pool_file_service.hpp
index bdfa471..e43cdb6 100644
--- a/include/asioext/impl/thread_pool_file_service.hpp
+++ b/include/asioext/impl/thread_pool_file_service.hpp
@@ -28,10 +28,10 @@ template <typename OperationImpl>
 class thread_pool_fs_op
 {
 public:
-  thread_pool_fs_op(const cancellation_token_source& source,
+  thread_pool_fs_op(const cancellation_token& token,
                     OperationImpl& impl,
                     thread_pool_file_service* svc)
-    : cancel_token_(source)
+    : cancel_token_(token)
     , impl_(std::move(impl))
     , svc_(svc)
   {
@@ -63,12 +63,12 @@ struct thread_pool_fs_init
   template <typename Handler, typename Implementation>
   void operator()(Handler&& handler,
                   Implementation&& impl,
-                  const cancellation_token_source& source,
+                  const cancellation_token& token,
                   thread_pool_file_service* svc)
   {
     auto ex = get_associated_executor(handler, svc->get_io_context().get_executor());
     auto op = make_composed_operation(
-        thread_pool_fs_op<Implementation>(source, impl, svc),
+        thread_pool_fs_op<Implementation>(token, impl, svc),
         std::move(handler), ex);
 
     asio::post(asio::bind_executor(svc->get_thread_pool(), std::move(op)));
@@ -168,7 +168,7 @@ thread_pool_file_service::async_read_some(implementation_type& impl,
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read<MutableBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 template <typename ConstBufferSequence, typename CompletionToken>
@@ -180,7 +180,7 @@ thread_pool_file_service::async_write_some(implementation_type& impl,
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write<ConstBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 template <typename MutableBufferSequence, typename CompletionToken>
@@ -193,7 +193,7 @@ thread_pool_file_service::async_read_some_at(
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read_at<MutableBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 template <typename ConstBufferSequence, typename CompletionToken>
@@ -205,7 +205,7 @@ thread_pool_file_service::async_write_some_at(
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write_at<ConstBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From 2cb68671594c449516228929dd8e7b54a966939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 27/47] fix: thread_pool_file_service: do not move from lvalue
 handlers

---
 include/asioext/impl/thread_pool_file_service.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/impl/thread_pool_file_service.hpp b/include/asioext/impl/thread_pool_file_service.hpp
index e43cdb6..73304ed 100644
--- a/include/asioext/impl/thread_pool_file_service.hpp
+++ b/include/asioext/impl/thread_pool_file_service.hpp
@@ -69,7 +69,7 @@ struct thread_pool_fs_init
     auto ex = get_associated_executor(handler, svc->get_io_context().get_executor());
     auto op = make_composed_operation(
         thread_pool_fs_op<Implementation>(token, impl, svc),
-        std::move(handler), ex);
+        std::forward<Handler>(handler), ex);
 
     asio::post(asio::bind_executor(svc->get_thread_pool(), std::move(op)));
   }
-- 
2.43.0


From 01b58eb079d1803f6b6b03cbae5297e1f028a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 28/47] fix: thread_pool_file_service: keep files cancellable
 and usable after moves

---
 include/asioext/impl/thread_pool_file_service.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index c33a5d8..d738f4d 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -48,8 +48,13 @@ void thread_pool_file_service::move_construct(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
+  // Outstanding operations follow the handle. Both objects need a usable source.
+  cancellation_token_source source(
+      ASIOEXT_MOVE_CAST(cancellation_token_source)(impl.cancel_token_));
   impl.cancel_token_ =
       ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
+  other_impl.cancel_token_ =
+      ASIOEXT_MOVE_CAST(cancellation_token_source)(source);
 
   // Insert implementation into linked list of all implementations.
   detail::mutex::scoped_lock lock(mutex_);
@@ -64,6 +69,7 @@ void thread_pool_file_service::move_assign(
     implementation_type& impl, thread_pool_file_service& other_service,
     implementation_type& other_impl)
 {
+  cancellation_token_source source;
   close_for_destruction(impl);
 
   if (this != &other_service) {
@@ -82,6 +88,12 @@ void thread_pool_file_service::move_assign(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
+  // Outstanding operations follow the handle. Both objects need a usable source.
+  impl.cancel_token_ =
+      ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
+  other_impl.cancel_token_ =
+      ASIOEXT_MOVE_CAST(cancellation_token_source)(source);
+
   if (this != &other_service) {
     // Insert implementation into linked list of all implementations.
     detail::mutex::scoped_lock lock(other_service.mutex_);
-- 
2.43.0


From b31461fa58791ef03bb48054c7b19f338b6ffc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 29/47] fix: thread_pool_file_service: close() aborts
 operations that did not start yet

---
 include/asioext/impl/thread_pool_file_service.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index d738f4d..efa318a 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -178,6 +178,10 @@ void thread_pool_file_service::assign(implementation_type& impl,
 void thread_pool_file_service::close(implementation_type& impl,
                                      error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // Operations that didn't start yet must not use a handle that was closed
+  // (and possibly reused) in the meantime.
+  if (impl.handle_.is_open())
+    impl.cancel_token_.cancel();
   impl.handle_.close(ec);
 }
 
-- 
2.43.0


From f3f534f0b266dd46a1250be132d72cffce51c9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 30/47] fix: thread_pool_file_service: finish all operations
 when shutting down

Pool threads kept using the io_context and closed handles, handlers were
destroyed after the services of the I/O objects they own.
---
 .../asioext/impl/thread_pool_file_service.cpp |  9 ++++++---
 include/asioext/thread_pool_file_service.hpp  | 20 ++++++++++++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index efa318a..ce8d627 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -20,12 +20,15 @@ thread_pool_file_service::thread_pool_file_service(
 
 void thread_pool_file_service::shutdown_service()
 {
-  // Close all implementations, causing all operations to complete.
+  // Wait for running operations, which still use the handles and the
+  // io_context, and destroy the ones that didn't start yet. The handlers might
+  // own I/O objects of this or other services, so that can't be deferred.
+  pool_.shutdown();
+
+  // Close all implementations.
   detail::mutex::scoped_lock lock(mutex_);
   for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
     close_for_destruction(*cur);
-
-  pool_.stop();
 }
 
 void thread_pool_file_service::construct(implementation_type& impl)
diff --git a/include/asioext/thread_pool_file_service.hpp b/include/asioext/thread_pool_file_service.hpp
index 817d32f..f8e485d 100644
--- a/include/asioext/thread_pool_file_service.hpp
+++ b/include/asioext/thread_pool_file_service.hpp
@@ -294,8 +294,26 @@ private:
   // destroyed.
   ASIOEXT_DECL void close_for_destruction(implementation_type& impl);
 
+  // A thread pool whose queued operations can be destroyed ahead of itself.
+  class shutdown_thread_pool : public asio::thread_pool
+  {
+  public:
+    explicit shutdown_thread_pool(std::size_t num_threads)
+      : asio::thread_pool(num_threads)
+    {
+      // ctor
+    }
+
+    void shutdown()
+    {
+      this->stop();
+      this->join();
+      asio::thread_pool::shutdown();
+    }
+  };
+
   // The thread pool.
-  asio::thread_pool pool_;
+  shutdown_thread_pool pool_;
 
   // Mutex to protect access to the linked list of implementations.
   detail::mutex mutex_;
-- 
2.43.0


From 6fcf0e81a76a7144a53207d58fc80e8fab713110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 31/47] fix: socks: send SOCKS4 requests for SOCKS4 commands

The SOCKS4 operation encoded a SOCKS5 packet (into a buffer sized for the
SOCKS4 one) and never passed on the port and user id.
---
 include/asioext/socks/detail/client.hpp | 2 +-
 include/asioext/socks/impl/client.hpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 2677119..e7729ac 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -52,7 +52,7 @@ public:
 
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
-      encode_exec_packet(cmd, remote, remote_host, port,
+      encode_exec_packet(cmd, remote, remote_host, port, user_id,
                          static_cast<uint8_t*>(buf.data()));
       buffer_.commit(size);
     }
diff --git a/include/asioext/socks/impl/client.hpp b/include/asioext/socks/impl/client.hpp
index ccc6d1b..db8966d 100644
--- a/include/asioext/socks/impl/client.hpp
+++ b/include/asioext/socks/impl/client.hpp
@@ -25,7 +25,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, remote, std::string(), 0, user_id, buffer),
+          socket, cmd, remote, std::string(), remote.port(), user_id, buffer),
       handler, socket
   );
 }
@@ -40,7 +40,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, asio::ip::tcp::endpoint(), remote, 0, user_id, buffer),
+          socket, cmd, asio::ip::tcp::endpoint(), remote, port, user_id, buffer),
       handler, socket
   );
 }
-- 
2.43.0


From 7736fa6c9ee8f2ec58a8fbcfa2604ed3661730e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 32/47] fix: socks: treat unknown SOCKS4 reply codes as errors

---
 include/asioext/socks/detail/client.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index e7729ac..06b663a 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -110,6 +110,7 @@ void v4_exec_op<Socket, DynamicBuffer>::operator()(
       case 0x5b: ec = error::generic; break;
       case 0x5c: ec = error::identd_not_reachable; break;
       case 0x5d: ec = error::login_failed; break;
+      default: ec = error::generic; break;
     }
 
     self.complete(ec);
-- 
2.43.0


From d2172d5dadc11d14fffbe1f9d36a1104edb9871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 33/47] fix: socks: reject SOCKS4 user ids and host names with
 embedded NULs

---
 include/asioext/socks/detail/impl/protocol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/socks/detail/impl/protocol.cpp b/include/asioext/socks/detail/impl/protocol.cpp
index 008834e..cb10928 100644
--- a/include/asioext/socks/detail/impl/protocol.cpp
+++ b/include/asioext/socks/detail/impl/protocol.cpp
@@ -19,6 +19,11 @@ std::size_t get_exec_packet_size(const asio::ip::tcp::endpoint& remote,
   if (remote_host.empty() && remote.protocol() != asio::ip::tcp::v4())
     return 0;
 
+  // Both strings are NUL-terminated in the packet.
+  if (user_id.find('\0') != std::string::npos ||
+      remote_host.find('\0') != std::string::npos)
+    return 0;
+
   std::size_t size = 1 + 1 + 2 + 4;
   size += user_id.size() + 1;
 
-- 
2.43.0


From 311e4c7159e9496fb8803a28e8d31739eb9a30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 34/47] fix: socks: reject greetings without any authentication
 method

---
 include/asioext/socks/detail/impl/protocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/socks/detail/impl/protocol.cpp b/include/asioext/socks/detail/impl/protocol.cpp
index cb10928..1fc5987 100644
--- a/include/asioext/socks/detail/impl/protocol.cpp
+++ b/include/asioext/socks/detail/impl/protocol.cpp
@@ -75,7 +75,7 @@ void encode_exec_packet(command cmd,
 std::size_t get_greet_packet_size(const auth_method* auth_methods,
                                   std::size_t num_auth_methods) ASIOEXT_NOEXCEPT
 {
-  if (num_auth_methods > 255)
+  if (num_auth_methods == 0 || num_auth_methods > 255)
     return 0;
 
   return num_auth_methods + 2;
-- 
2.43.0


From 050a96540fd2852576bcb7186371d2349d204c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 35/47] fix: socks: treat unknown SOCKS5 reply codes as errors

This includes 1, the general failure.
---
 include/asioext/socks/detail/client.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 06b663a..028318e 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -359,6 +359,7 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
           case 6: ec = asio::error::timed_out; break;
           case 7: ec = error::command_not_supported; break;
           case 8: ec = asio::error::address_family_not_supported; break;
+          default: ec = error::generic; break;
         }
         self.complete(ec);
         return;
-- 
2.43.0


From 3d78adb34e69b30f59f0edceefb4717fdd1ee69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 36/47] fix: socks: reject SOCKS5 replies with unknown address
 types

---
 include/asioext/socks/detail/client.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 028318e..1f4f849 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -382,6 +382,10 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
         size = 16 - 1;
         break;
       }
+      default: {
+        self.complete(error::generic);
+        return;
+      }
     }
 
     ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
-- 
2.43.0


From a51cba3b5c69ee82988a97030e750292a4bcc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 37/47] fix: socks: do not send stale buffer contents in front
 of requests

A failed operation leaves its unsent request in the buffer; the next
operation using that buffer sent it again.
---
 include/asioext/socks/detail/client.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 1f4f849..fb97682 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -50,6 +50,9 @@ public:
     const std::size_t size =
         get_exec_packet_size(remote, remote_host, user_id);
 
+    // Leftovers (e.g. from a failed operation) aren't part of our message.
+    buffer_.consume(buffer_.size());
+
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
       encode_exec_packet(cmd, remote, remote_host, port, user_id,
@@ -131,6 +134,9 @@ public:
     const std::size_t size =
         get_greet_packet_size(auth_methods, num_auth_methods);
 
+    // Leftovers (e.g. from a failed operation) aren't part of our message.
+    buffer_.consume(buffer_.size());
+
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
       encode_greet_packet(auth_methods, num_auth_methods,
@@ -210,6 +216,9 @@ public:
     const std::size_t size =
         get_login_packet_size(username, password);
 
+    // Leftovers (e.g. from a failed operation) aren't part of our message.
+    buffer_.consume(buffer_.size());
+
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
       encode_login_packet(username, password,
@@ -289,6 +298,9 @@ public:
     const std::size_t size =
         get_exec_packet_size(cmd, remote, remote_host, port);
 
+    // Leftovers (e.g. from a failed operation) aren't part of our message.
+    buffer_.consume(buffer_.size());
+
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
       encode_exec_packet(cmd, remote, remote_host, port,
-- 
2.43.0


From 97cf184a4ba121132dc48c41b802b570782fc54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 38/47] fix: buffered_stream: make it usable with standalone
 Asio

---
 include/asioext/experimental/buffered_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 5fc9ea8..d637651 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -325,7 +325,7 @@ buffered_stream<Stream, Allocator>::async_fill(ReadHandler&& handler)
 
 template <typename Stream, typename Allocator>
 typename buffered_stream<Stream, Allocator>::buffer_type*
-buffered_stream<Stream, Allocator>::lock_write_buffers(boost::system::error_code& ec)
+buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
 {
   if (flush_pending_) {
     ec = asio::error::already_started;
-- 
2.43.0


From 518c144e80f94157e274097b8eb7ad5912753724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 39/47] fix: buffered_stream: flush() must not depend on the
 passed error_code's old value

---
 include/asioext/experimental/buffered_stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index d637651..3964eae 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -342,6 +342,7 @@ buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
     }
   }
 
+  ec = error_code();
   flush_pending_ = true;
   return &write_buffer_locked_;
 }
-- 
2.43.0


From 32cee3b70764b277c5a1dd20088744c240d87352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 40/47] fix: buffered_stream: can_flush() must notice data left
 by a failed flush

---
 include/asioext/experimental/buffered_stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 3964eae..a78a713 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -132,7 +132,8 @@ public:
 
   bool can_flush() const ASIOEXT_NOEXCEPT
   {
-    return !flush_pending_ && !write_buffer_.empty();
+    return !flush_pending_ &&
+           !(write_buffer_.empty() && write_buffer_locked_.empty());
   }
 
   bool flush_pending() const ASIOEXT_NOEXCEPT { return flush_pending_; }
-- 
2.43.0


From fb1ee8f33f3ad1482fe1b2fb89cf1779e43f1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 41/47] fix: buffered_stream: async_flush() must not move from
 lvalue handlers

---
 include/asioext/experimental/buffered_stream.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index a78a713..e3ff743 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -291,7 +291,8 @@ buffered_stream<Stream, Allocator>::async_flush(WriteHandler&& handler)
     const auto buffer = lock_write_buffers(ec);
     if (ec) {
       auto ex = asio::get_associated_executor(handler, get_executor());
-      asio::post(ex, asioext::bind_handler(std::move(handler), ec, 0));
+      asio::post(ex, asioext::bind_handler(
+                         std::forward<decltype(handler)>(handler), ec, 0));
       return;
     }
 
@@ -301,7 +302,7 @@ buffered_stream<Stream, Allocator>::async_flush(WriteHandler&& handler)
     };
     asio::async_write(stream_, asio::dynamic_buffer(*buffer),
                       asioext::make_composed_operation(std::move(op),
-                                                       std::move(handler)));
+                      std::forward<decltype(handler)>(handler)));
   };
   return asioext::async_initiate<WriteHandler, void (error_code, std::size_t)>(
     init, handler);
-- 
2.43.0


From 4804317c2b084c600a4f62d0ce981bf1b92e52fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 42/47] fix: don't pass null pointers to memcpy() and memmove()
 in linear_buffer

---
 include/asioext/impl/linear_buffer.hpp | 55 ++++++++++++++++++--------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 4846272..268e024 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -13,6 +13,26 @@
 
 ASIOEXT_NS_BEGIN
 
+namespace detail {
+
+// memcpy() and memmove() must not be passed null pointers, even if there's
+// nothing to copy. (Otherwise the compiler assumes that the pointers aren't
+// null, and drops the checks for that.)
+
+inline void copy_bytes(void* dest, const void* src, std::size_t n)
+{
+  if (n != 0)
+    std::memcpy(dest, src, n);
+}
+
+inline void move_bytes(void* dest, const void* src, std::size_t n)
+{
+  if (n != 0)
+    std::memmove(dest, src, n);
+}
+
+}
+
 template <typename Allocator>
 basic_linear_buffer<Allocator>::basic_linear_buffer(
     const basic_linear_buffer& other)
@@ -22,7 +42,7 @@ basic_linear_buffer<Allocator>::basic_linear_buffer(
   , max_size_(other.max_size_)
 {
   rep_.data_ = allocator_traits_type::allocate(rep_, other.size_);
-  std::memcpy(rep_.data_, other.rep_.data_, size_);
+  detail::copy_bytes(rep_.data_, other.rep_.data_, size_);
 }
 
 template <typename Allocator>
@@ -38,7 +58,7 @@ basic_linear_buffer<Allocator>& basic_linear_buffer<Allocator>::operator=(
   if (n > capacity_)
     reallocate(calculate_capacity(n), [this] (uint8_t* new_buffer) {});
 
-  std::memcpy(rep_.data_, other.rep_.data_, n);
+  detail::copy_bytes(rep_.data_, other.rep_.data_, n);
   size_ = n;
   return *this;
 }
@@ -62,11 +82,11 @@ void basic_linear_buffer<Allocator>::append(const void* data, std::size_t n)
 
   if (size_ + n > capacity_) {
     reallocate(calculate_capacity(size_ + n), [this] (uint8_t* new_buffer) {
-      std::memcpy(new_buffer, rep_.data_, size_);
+      detail::copy_bytes(new_buffer, rep_.data_, size_);
     });
   }
 
-  std::memcpy(rep_.data_ + size_, data, n);
+  detail::copy_bytes(rep_.data_ + size_, data, n);
   size_ += n;
 }
 
@@ -82,16 +102,17 @@ void basic_linear_buffer<Allocator>::insert(std::size_t before_this,
   if (size_ + n > capacity_) {
     reallocate(calculate_capacity(size_ + n),
                [this, before_this, data, n] (uint8_t* new_buffer) {
-      std::memcpy(new_buffer, rep_.data_, before_this);
-      std::memcpy(new_buffer + before_this, data, n);
-      std::memcpy(new_buffer + before_this + n, rep_.data_ + before_this,
-                  size_ - before_this);
+      detail::copy_bytes(new_buffer, rep_.data_, before_this);
+      detail::copy_bytes(new_buffer + before_this, data, n);
+      detail::copy_bytes(new_buffer + before_this + n,
+                         rep_.data_ + before_this,
+                         size_ - before_this);
     });
   } else {
-    std::memmove(rep_.data_ + before_this + n,
-                 rep_.data_ + before_this,
-                 size_ - before_this);
-    std::memcpy(rep_.data_ + before_this, data, n);
+    detail::move_bytes(rep_.data_ + before_this + n,
+                       rep_.data_ + before_this,
+                       size_ - before_this);
+    detail::copy_bytes(rep_.data_ + before_this, data, n);
   }
 
   size_ += n;
@@ -101,7 +122,7 @@ template <typename Allocator>
 void basic_linear_buffer<Allocator>::erase(std::size_t pos)
 {
   // TODO: assert pos < size
-  std::memmove(rep_.data_ + pos, rep_.data_ + pos + 1, size_ - pos - 1);
+  detail::move_bytes(rep_.data_ + pos, rep_.data_ + pos + 1, size_ - pos - 1);
   --size_;
 }
 
@@ -109,7 +130,7 @@ template <typename Allocator>
 void basic_linear_buffer<Allocator>::erase(std::size_t first, std::size_t last)
 {
   const std::size_t n = last - first;
-  std::memmove(rep_.data_ + first, rep_.data_ + last, size_ - first - n);
+  detail::move_bytes(rep_.data_ + first, rep_.data_ + last, size_ - first - n);
   size_ -= n;
 }
 
@@ -123,7 +144,7 @@ void basic_linear_buffer<Allocator>::reserve(std::size_t min_cap)
 
   if (min_cap > capacity_) {
     reallocate(min_cap, [this] (uint8_t* new_buffer) {
-      std::memcpy(new_buffer, rep_.data_, size_);
+      detail::copy_bytes(new_buffer, rep_.data_, size_);
     });
   }
 }
@@ -138,7 +159,7 @@ void basic_linear_buffer<Allocator>::resize(std::size_t new_size)
 
   if (new_size > capacity_) {
     reallocate(calculate_capacity(new_size), [this] (uint8_t* new_buffer) {
-      std::memcpy(new_buffer, rep_.data_, size_);
+      detail::copy_bytes(new_buffer, rep_.data_, size_);
     });
   }
 
@@ -160,7 +181,7 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
                   static_cast<allocator_type&>(other.rep_)) {
     // The storage can't be taken over, so copy it and release the original.
     new_data = allocator_traits_type::allocate(rep_, other.capacity_);
-    std::memcpy(new_data, other.rep_.data_, other.size_);
+    detail::copy_bytes(new_data, other.rep_.data_, other.size_);
     allocator_traits_type::deallocate(other.rep_, other.rep_.data_,
                                       other.capacity_);
   }
-- 
2.43.0


From e9926dc840c6c1e8914c0272512bcd78cb5b9001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 43/47] fix: handle seconds types narrower than the ticks type
 in compose_time() and decompose_time()

---
 include/asioext/detail/impl/chrono.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index b02f040..72bf637 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -83,16 +83,34 @@ struct time_pair_values
       ASIOEXT_NOEXCEPT
   { return (std::numeric_limits<typename SecondDuration::rep>::min)(); }
 
+  // |FirstDuration| with a type that can represent any |Duration|.
+  typedef chrono::duration<common_type,
+      typename FirstDuration::period> wide_first_type;
+
   static ASIOEXT_CONSTEXPR common_type max_first() ASIOEXT_NOEXCEPT
-  { return chrono::duration_cast<FirstDuration>((Duration::max)()).count(); }
+  {
+    return chrono::duration_cast<wide_first_type>((Duration::max)()) >
+               wide_first_type((FirstDuration::max)()) ?
+        (FirstDuration::max)().count() :
+        chrono::duration_cast<wide_first_type>((Duration::max)()).count();
+  }
 
   static ASIOEXT_CONSTEXPR common_type min_first() ASIOEXT_NOEXCEPT
-  { return chrono::duration_cast<FirstDuration>((Duration::min)()).count(); }
+  {
+    return chrono::duration_cast<wide_first_type>((Duration::min)()) <
+               wide_first_type((FirstDuration::min)()) ?
+        (FirstDuration::min)().count() :
+        chrono::duration_cast<wide_first_type>((Duration::min)()).count();
+  }
 
   static ASIOEXT_CONSTEXPR common_type max_second() ASIOEXT_NOEXCEPT
   {
-    return chrono::duration_cast<SecondDuration>(
-        (Duration::max)() - FirstDuration(max_first())).count();
+    // There's room for any |SecondDuration| if |FirstDuration| is the limit.
+    return chrono::duration_cast<wide_first_type>((Duration::max)()) >
+               wide_first_type((FirstDuration::max)()) ?
+        (SecondDuration::max)().count() :
+        chrono::duration_cast<SecondDuration>(
+            (Duration::max)() - FirstDuration(max_first())).count();
   }
 
   static ASIOEXT_CONSTEXPR common_type min_second() ASIOEXT_NOEXCEPT
-- 
2.43.0


From 9286dff44a951a6ddbd634c45b66726f40cfcb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 44/47] fix: define url_view's members in header-only builds

url_view.hpp is the only header which doesn't include its implementation
when ASIOEXT_HEADER_ONLY is defined (the default), so header-only programs
which use url_view fail to link.
---
 include/asioext/url_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/url_view.hpp b/include/asioext/url_view.hpp
index 613c9dd..852f747 100644
--- a/include/asioext/url_view.hpp
+++ b/include/asioext/url_view.hpp
@@ -52,4 +52,8 @@ private:
 
 ASIOEXT_NS_END
 
+#if defined(ASIOEXT_HEADER_ONLY)
+# include "asioext/impl/url_view.cpp"
+#endif
+
 #endif
-- 
2.43.0


From 2799cf812cd4e0acecd7fbc9bbdcc1f2ee5b88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:36 +0000
Subject: [PATCH 45/47] fix: report SOCKS5 replies which don't fit into the
 buffer

The server decides how long the bound name of its reply is. If it exceeded
the maximum size of the caller's buffer, prepare() threw length_error out
of the completion handler (and thus io_context::run()), and the operation
never completed.
---
 include/asioext/socks/detail/client.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index fb97682..2393349 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -400,6 +400,12 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
       }
     }
 
+    // The server decides how large the rest of its reply is.
+    if (buffer_.max_size() - buffer_.size() < size + 2) {
+      self.complete(asio::error::no_buffer_space);
+      return;
+    }
+
     ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
                                         std::move(self));
 
-- 
2.43.0


From 61f980901a0a15e8764f8e7ea8735d742063e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:44 +0000
Subject: [PATCH 46/47] fix: don't expose parts of rejected URLs

---
 include/asioext/impl/url_view.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/url_view.cpp b/include/asioext/impl/url_view.cpp
index aaf24fe..2c34c3e 100644
--- a/include/asioext/impl/url_view.cpp
+++ b/include/asioext/impl/url_view.cpp
@@ -21,8 +21,11 @@ url_view::url_view(std::string_view s, error_code& ec)
   : spec_(s)
 {
   detail::parse_url(s.data(), s.data() + s.size(), url_, ec);
-  if (ec)
+  if (ec) {
+    // Don't expose the parts in front of the error.
     spec_ = std::string_view();
+    url_ = detail::parsed_url();
+  }
 }
 
 std::string_view url_view::port() const ASIOEXT_NOEXCEPT
-- 
2.43.0


From 9a1999eb41413bfa2121be141855822e71cbf96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:57 +0000
Subject: [PATCH 47/47] fix: basic_linear_buffer move assignment terminated
 when allocating failed

---
 include/asioext/impl/linear_buffer.hpp | 4 +++-
 include/asioext/linear_buffer.hpp      | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 268e024..46224b9 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -65,7 +65,9 @@ basic_linear_buffer<Allocator>& basic_linear_buffer<Allocator>::operator=(
 
 template <typename Allocator>
 basic_linear_buffer<Allocator>& basic_linear_buffer<Allocator>::operator=(
-    basic_linear_buffer&& other) ASIOEXT_NOEXCEPT
+    basic_linear_buffer&& other)
+  ASIOEXT_NOEXCEPT_IF(
+      allocator_traits_type::propagate_on_container_move_assignment::value)
 {
   move_assign(other, std::integral_constant<bool,
       allocator_traits_type::propagate_on_container_move_assignment::value>());
diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 6f32c67..b4e1ede 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -154,7 +154,13 @@ public:
   ///
   /// After the move, @c other is an empty buffer with no allocated memory
   /// (as-if just default-constructed).
-  basic_linear_buffer& operator=(basic_linear_buffer&& other) ASIOEXT_NOEXCEPT;
+  ///
+  /// @throws Whatever the allocator throws, if storage has to be allocated
+  /// because the allocator isn't propagated and @c other's allocator doesn't
+  /// compare equal. In that case both buffers are unchanged.
+  basic_linear_buffer& operator=(basic_linear_buffer&& other)
+    ASIOEXT_NOEXCEPT_IF(
+        allocator_traits_type::propagate_on_container_move_assignment::value);
 
   /// @brief Get the size of the input sequence.
   std::size_t size() const ASIOEXT_NOEXCEPT
-- 
2.43.0

