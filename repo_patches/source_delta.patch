From 70ee553b099b03c6192327d0d687d7744f7649a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:42 +0000
Subject: [PATCH 01/78] fix: divide arrays by an integer scalar element by
 element

array and multi_array multiplied by T(1)/scalar, which is zero for every
integer scalar above one.
---
 ristra/math/array.h       | 7 +++----
 ristra/math/multi_array.h | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 55277ef..74d0705 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -422,9 +422,9 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const T2 & val) {
-    auto inv = static_cast<T>(1) / val;
+    const auto den = val; // val may be one of our own elements
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= inv;
+      elems_[i] /= den;
     return *this;
   }
 
@@ -687,11 +687,10 @@ operator/( const array<T,N>& lhs,
            const U& rhs )
 {
   array<T,N> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename array<T,N>::counter_type;
   constexpr auto len = static_cast<counter_type>(N);
   for ( counter_type i=0; i<len; i++ )
-    tmp[i] = lhs[i] * inv;
+    tmp[i] = lhs[i] / rhs;
   return tmp;
 }
 
diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index b75828d..c138285 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -532,8 +532,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const T2 & val) {
-    auto inv = static_cast<T>(1) / val;
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= inv;
+    const auto den = val; // val may be one of our own elements
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= den;
     return *this;
   }
 
@@ -875,10 +875,9 @@ operator/( const multi_array<T,N...>& lhs,
            const U& rhs )
 {
   multi_array<T,N...> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename multi_array<T,N...>::counter_type;
   for ( counter_type i=0; i<multi_array<T,N...>::elements; i++ ) 
-    tmp[i] = lhs[i] * inv;    
+    tmp[i] = lhs[i] / rhs;    
   return tmp;
 }
 
-- 
2.43.0


From 1730c0ff2983ce129abe002fc98c6857633dc1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:41 +0000
Subject: [PATCH 02/78] fix: apply beta once per row in matrix_vector

The accumulation multiplied the running sum by beta for every column.
---
 ristra/math/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/math/matrix.h b/ristra/math/matrix.h
index 3c7739b..0a315e2 100644
--- a/ristra/math/matrix.h
+++ b/ristra/math/matrix.h
@@ -304,8 +304,9 @@ void matrix_vector(
   C<T,D1> & y )
 {
   for ( utils::select_counter_t<D1> i = 0; i<D1; i++ ) {
+    y[i] = beta * y[i];
     for ( utils::select_counter_t<D2>  j = 0; j<D2; j++ )
-      y[i] = alpha * A(i,j) * x[j] + beta * y[i];
+      y[i] += alpha * A(i,j) * x[j];
   }
 }
 //! @}
-- 
2.43.0


From 08a3d0f73e490861487b997761fc425c9887b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:41 +0000
Subject: [PATCH 03/78] fix: size the result of min and max of two containers

The elementwise min/max of two std::vectors wrote past the end of an empty
result.
---
 ristra/math/general.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index bf50433..4ee9c20 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -286,7 +286,7 @@ auto min(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto min(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  auto tmp = a;
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::min( a[i], b[i] );
   return tmp;
@@ -315,7 +315,7 @@ auto max(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto max(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  auto tmp = a;
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::max( a[i], b[i] );
   return tmp;
-- 
2.43.0


From 3f2c269d9fcf8bfa65533f1a3e2fbced46ad5496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:27 +0000
Subject: [PATCH 04/78] fix: shift fixed_vector elements from the last one when
 inserting

The ranges overlap, so a forward copy overwrote elements before they were
moved for element types that are not trivially copyable; a value referring
to an element of the vector itself was read after it had been overwritten.
---
 ristra/utils/fixed_vector.h | 39 ++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7e3af50..1717b20 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -179,11 +179,12 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
-    // shift data to the right
-    auto d_last = std::next(d_first);
-    std::copy(d_first, end(), d_last );
+    // the value may be one of the elements that are about to be shifted
+    T copy = value;
+    // shift data to the right, last element first since the ranges overlap
+    std::move_backward(d_first, end(), std::next(end()) );
     // assign value
-    *d_first = value;
+    *d_first = std::move( copy );
     // increment counter
     length_++;
     // return an iterator to the inserted value
@@ -195,11 +196,12 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
-    // shift data to the right
-    auto d_last = std::next(d_first);
-    std::move(d_first, end(), d_last );
+    // the value may be one of the elements that are about to be shifted
+    T copy = std::move( value );
+    // shift data to the right, last element first since the ranges overlap
+    std::move_backward(d_first, end(), std::next(end()) );
     // assign value
-    *d_first = std::move( value );
+    *d_first = std::move( copy );
     // increment counter
     length_++;
     // return an iterator to the inserted value
@@ -213,11 +215,12 @@ public:
     auto d_first = _validate_iterator( pos );
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
-    // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::copy(d_first, end(), d_last );
+    // the value may be one of the elements that are about to be shifted
+    T copy = value;
+    // shift data to the right, last element first since the ranges overlap
+    std::move_backward(d_first, end(), std::next(end(), count) );
     // assign value
-    std::fill_n( d_first, count, value );
+    std::fill_n( d_first, count, copy );
     // increment counter
     length_ += count;
     // return an iterator to the inserted value
@@ -237,9 +240,9 @@ public:
     auto d_first = _validate_iterator( pos );
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
-    // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::move(d_first, end(), d_last );
+    // otherwise, shift data to the right, last element first since the ranges
+    // overlap
+    std::move_backward(d_first, end(), std::next(end(), count) );
     // assign values
     std::copy( first, last, d_first );
     // increment counter
@@ -257,9 +260,9 @@ public:
     auto start = std::next(begin(), std::distance(cbegin(), pos));
     // if zero size is inserted, return pos
     if ( count == 0 ) return start;
-    // otherwise, shift data to the right
-    auto next = std::next(start, count);
-    std::move(start, end(), next );
+    // otherwise, shift data to the right, last element first since the ranges
+    // overlap
+    std::move_backward(start, end(), std::next(end(), count) );
     // assign values
     std::copy( ilist.begin(), ilist.end(), start );
     // increment counter
-- 
2.43.0


From 42ebf7493c224126828f1157a56e7ddab500514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:28 +0000
Subject: [PATCH 05/78] fix: erasing an empty fixed_vector range returns its
 position

---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 1717b20..81710b2 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -295,7 +295,7 @@ public:
     // if empty, nothing to do    
     if ( empty() ) return end();
     // if first == last, nothring to do
-    if ( first == last ) return begin();
+    if ( first == last ) return _validate_iterator( last );
     // get the number of deleted elements
     auto count = std::distance( first, last );
     // convert to a non-const iterator
-- 
2.43.0


From bffb54ad6ce09c0668611ecf3121e06ddebddf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:28 +0000
Subject: [PATCH 06/78] fix: fixed_vectors of different sizes are not equal

---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 81710b2..35a06b4 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -386,7 +386,7 @@ template< class T, std::size_t N >
 bool operator==( const fixed_vector<T,N>& lhs,
                  const fixed_vector<T,N>& rhs )
 {
-  return std::equal( lhs.begin(), lhs.end(), rhs.begin() );
+  return std::equal( lhs.begin(), lhs.end(), rhs.begin(), rhs.end() );
 }
     
 } // namespace utils
-- 
2.43.0


From 8b9a02c256521438639f2a18d00a6c5d235a6764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:28 +0000
Subject: [PATCH 07/78] fix: make fixed_vector data and reverse iteration
 compile

---
 ristra/utils/fixed_vector.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 35a06b4..6a59279 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -134,8 +134,8 @@ public:
   constexpr reference front() { return data_[0]; }
   constexpr reference back()  { return data_[size()-1]; }
         
-  constexpr const_pointer data() const { return data_; }
-  constexpr pointer data() { return data_; }
+  constexpr const_pointer data() const { return data_.data(); }
+  constexpr pointer data() { return data_.data(); }
         
 
   //============================================================================
@@ -148,10 +148,12 @@ public:
   constexpr const_iterator end() const { return std::next(data_.begin(), length_); }
   constexpr const_iterator cbegin() const { return begin(); }
   constexpr const_iterator cend() const { return end(); }
-  reverse_iterator rbegin() const {
+  reverse_iterator rbegin() { return reverse_iterator(end()); }
+  reverse_iterator rend() { return reverse_iterator(begin()); }
+  const_reverse_iterator rbegin() const {
     return const_reverse_iterator(end());
   }
-  reverse_iterator rend() const {
+  const_reverse_iterator rend() const {
     return const_reverse_iterator(begin());
   }
   const_reverse_iterator crbegin() const { return rbegin(); }
-- 
2.43.0


From 92c1928eb43b164a3027064499bb9e695afe935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 08/78] fix: zip compares the size of every container with the
 first

The first container was never compared, and zipping a single container read
past the end of the list of sizes.
---
 ristra/utils/zip.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/zip.h b/ristra/utils/zip.h
index 0731ff3..6b9a62c 100644
--- a/ristra/utils/zip.h
+++ b/ristra/utils/zip.h
@@ -76,9 +76,9 @@ decltype(auto) zip(T&&... containers)
 
   // check all the sizes
   size_t sizes[] = { containers.size()... };
-  auto first_size = sizes[1];
+  auto first_size = sizes[0];
 #ifndef NDEBUG
-  for ( int i=2; i<n; i++ )
+  for ( int i=1; i<n; i++ )
     assert( first_size == sizes[i] && " size mismatch" ); 
 #endif
 
@@ -131,8 +131,8 @@ decltype(auto) zip(Types&&... args)
 
   // check all the sizes
   size_t sizes[] = { args.size()... };
-  auto first_size = sizes[1];
-  for ( int i=2; i<n; i++ )
+  auto first_size = sizes[0];
+  for ( int i=1; i<n; i++ )
     assert( first_size == sizes[i] && " size mismatch" ); 
 
   return zipper<special_decay_t<Types>...>(std::forward<Types>(args)...);
-- 
2.43.0


From 6925c854f8ce0b9c30b0179e88c29070eeacae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 09/78] fix: compound assignment of a dimensioned array to
 itself

a += a left a unchanged, and a -= a did not give zero.
---
 ristra/utils/dimensioned_array.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/dimensioned_array.h b/ristra/utils/dimensioned_array.h
index c21656c..8e1d36a 100644
--- a/ristra/utils/dimensioned_array.h
+++ b/ristra/utils/dimensioned_array.h
@@ -204,11 +204,9 @@ public:
       dimensioned_array__ const & rhs                                          \
     )                                                                          \
     {                                                                          \
-      if(this != &rhs) {                                                       \
-        for(size_t i{0}; i<DIMENSION; i++) {                                   \
-          data_[i] op rhs[i];                                                  \
-        } /* for */                                                            \
-      } /* if */                                                               \
+      for(size_t i{0}; i<DIMENSION; i++) {                                     \
+        data_[i] op rhs[i];                                                    \
+      } /* for */                                                              \
                                                                                \
       return *this;                                                            \
     }
-- 
2.43.0


From 6c5c17849e5b58a796e930a37aea2f3725992a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 10/78] fix: allow dividing a constant dimensioned array

---
 ristra/utils/dimensioned_array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/utils/dimensioned_array.h b/ristra/utils/dimensioned_array.h
index 8e1d36a..13b3dc4 100644
--- a/ristra/utils/dimensioned_array.h
+++ b/ristra/utils/dimensioned_array.h
@@ -283,6 +283,7 @@ public:
   operator / (
     TYPE val
   )
+  const
   {
     dimensioned_array__ tmp(*this);
     tmp /= val;
-- 
2.43.0


From 6044d99b7ebacef8e2bda98928005e31f37e2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 11/78] fix: replace_all terminates when there is nothing to
 search for

---
 ristra/utils/string_utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 9ea2e6f..a1ad8b0 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -33,6 +33,7 @@ namespace utils {
 ////////////////////////////////////////////////////////////////////////////////
 inline
 auto replace_all(std::string str, const std::string & from, const std::string & to) {
+  if(from.empty()) return str; // an empty string matches everywhere, for ever
   size_t start_pos = 0;
   while((start_pos = str.find(from, start_pos)) != std::string::npos) {
     str.replace(start_pos, from.length(), to);
-- 
2.43.0


From c835811d5d0bae575d14b4da2491b145b8f0f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:32 +0000
Subject: [PATCH 12/78] fix: look for the extension in the file name only

remove_extension and split_extension cut a path at a dot in a directory name.
---
 ristra/utils/string_utils.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index a1ad8b0..548be20 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -117,7 +117,9 @@ std::string file_extension(const std::string & str)
 inline
 std::string remove_extension(const std::string & str) {
     auto lastdot = str.find_last_of(".");
-    if (lastdot == std::string::npos) return str;
+    // a dot in the name of a directory does not start an extension
+    if (lastdot == std::string::npos || 
+        lastdot < str.length() - basename(str).length()) return str;
     return str.substr(0, lastdot); 
 }
 
@@ -130,7 +132,9 @@ inline
 std::pair<std::string, std::string>
 split_extension(const std::string & str) {
   auto lastdot = str.find_last_of(".");
-  if (lastdot == std::string::npos)
+  // a dot in the name of a directory does not start an extension
+  if (lastdot == std::string::npos ||
+      lastdot < str.length() - basename(str).length())
     return std::make_pair( str, "");
   else
     return std::make_pair( str.substr(0, lastdot), str.substr(lastdot+1) ); 
-- 
2.43.0


From ef5e4b74a0522e3fcd56c5224c9661e532799066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:32 +0000
Subject: [PATCH 13/78] fix: split strings at the given delimiters and nowhere
 else

White space stayed a delimiter whatever the list said, and a delimiter with a
negative character code was written outside of the classification table,
which all calls shared.
---
 ristra/utils/string_utils.h | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 548be20..bb0fd55 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -153,34 +153,16 @@ std::vector<std::string> split(
   std::vector<char> delim = {' '}
 ) {
 
-  if (str.empty()) return {};
-
-  struct tokens_t : std::ctype<char>
-  {
-    using ctype_base = std::ctype_base;
-    using cctype = std::ctype<char>;
-    using ccmask = cctype::mask;
-    
-    tokens_t(const std::vector<char> & delims) 
-      : cctype(get_table(delims)) {}
-
-    static ctype_base::mask const * get_table(
-      const std::vector<char> & delims
-    ) {
-      static const ccmask * const_rc = cctype::classic_table();
-      static ccmask rc[cctype::table_size];
-      std::memcpy(rc, const_rc, cctype::table_size*sizeof(ccmask));
-      for (const auto & d : delims) 
-        rc[d] = ctype_base::space;
-      return &rc[0];
-    }
-  };
+  const std::string delims( delim.begin(), delim.end() );
+  std::vector<std::string> vstrings;
+
+  auto first = str.find_first_not_of( delims );
+  while ( first != std::string::npos ) {
+    auto last = str.find_first_of( delims, first );
+    vstrings.emplace_back( str.substr( first, last-first ) );
+    first = str.find_first_not_of( delims, last );
+  }
 
-  std::stringstream ss(str);
-  ss.imbue(std::locale(std::locale(), new tokens_t(delim)));
-  std::istream_iterator<std::string> begin(ss);
-  std::istream_iterator<std::string> end;
-  std::vector<std::string> vstrings(begin, end);
   return vstrings;
 }
 
-- 
2.43.0


From 658dc6f38b10b20a64f45dc6663da880f22f948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:32 +0000
Subject: [PATCH 14/78] fix: to_trivial_string does not write past the end of
 the string

---
 ristra/utils/trivial_string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/trivial_string.h b/ristra/utils/trivial_string.h
index 76353b4..08fd63d 100644
--- a/ristra/utils/trivial_string.h
+++ b/ristra/utils/trivial_string.h
@@ -78,7 +78,8 @@ template< std::size_t N >
 auto to_trivial_string( const std::string & str )
 {
   trivial_string<N> tmp;
-  strcpy( tmp.data(), str.c_str() );
+  // keep what fits, and always terminate the string
+  tmp.data()[ str.copy( tmp.data(), N-1 ) ] = '\0';
   return tmp;
 }
 
-- 
2.43.0


From 7e048d9478705a523e7092fd87e9a1af4337f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:32 +0000
Subject: [PATCH 15/78] fix: trivial_string rejects the position one past its
 storage

---
 ristra/utils/trivial_string.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/trivial_string.h b/ristra/utils/trivial_string.h
index 08fd63d..a600268 100644
--- a/ristra/utils/trivial_string.h
+++ b/ristra/utils/trivial_string.h
@@ -13,6 +13,7 @@
 
 // system includes
 #include <array>
+#include <cassert>
 #include <cstring>
 #include <string>
 
@@ -36,14 +37,14 @@ public:
   //! \brief return the value at a specific position `n`
   auto & operator[] ( size_type n )
   { 
-    assert( n <= size() );
+    assert( n < size() );
     return str_[n]; 
   }
 
   //! \brief return the value at a specific position `n`
   const auto & operator[] ( size_type n ) const
   { 
-    assert( n <= size() );
+    assert( n < size() );
     return str_[n]; 
   }
 
-- 
2.43.0


From b8b63f54a56f8e2c0251be899a90286dc5705f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:32 +0000
Subject: [PATCH 16/78] fix: filter_iterator visits the elements that satisfy
 the predicate

Dereferencing did not compile, the increment never moved past an element that
satisfied the predicate, and the first element was not checked.
---
 ristra/utils/filter_iterator.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 984e5ce..ec82a11 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -52,7 +52,7 @@ public:
   //!        no default constructor either
   constexpr filter_iterator( 
     Predicate pred, Iterator first, Iterator last = Iterator() ) noexcept
-    : pred_( pred ), iter_(first), end_(last) {}
+    : pred_( pred ), iter_(first), end_(last) { satisfy(); }
 
   template<
     class OtherIterator,
@@ -61,7 +61,7 @@ public:
   >
   filter_iterator( 
     filter_iterator<Predicate, OtherIterator> const& other ) noexcept
-    : pred_( other.predicate() ), iter_( *other ), end_( end() )
+    : pred_( other.predicate() ), iter_( other.begin() ), end_( other.end() )
   {}
 
   //! \brief default copy constructor
@@ -98,18 +98,16 @@ public:
   //============================================================================
   
   //! \brief return the current value
-  constexpr reference operator*() const noexcept { return iter_; }
+  constexpr reference operator*() const noexcept { return *iter_; }
 
   //! \brief return a pointer to the current value
-  constexpr pointer operator->() const noexcept { return &iter_; }
+  constexpr pointer operator->() const noexcept { return &*iter_; }
 
   //! \brief prefix increment opeator
   constexpr filter_iterator& operator++() noexcept
   {
-    for (; iter_ != end_ ; ++iter_) {
-      if ( pred_(*iter_) )
-        return *this;
-    }
+    ++iter_;
+    satisfy();
     return *this;
   }
 
@@ -153,6 +151,12 @@ public:
 
 private:
 
+  //! \brief move forward to an element that satisfies the predicate
+  constexpr void satisfy() noexcept
+  {
+    while ( iter_ != end_ && !pred_(*iter_) ) ++iter_;
+  }
+
   //============================================================================
   /// \name private data
   //============================================================================
-- 
2.43.0


From ad906f93f6aa1b6ac7f214e9df82d0992cb942b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:21 +0000
Subject: [PATCH 17/78] fix: add the signed terms of the hexahedron volume

The three triple products of a distorted cell may have different signs; only
their sum is the volume.
---
 ristra/geometry/shapes/hexahedron.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/geometry/shapes/hexahedron.h b/ristra/geometry/shapes/hexahedron.h
index 79d4e46..59da907 100644
--- a/ristra/geometry/shapes/hexahedron.h
+++ b/ristra/geometry/shapes/hexahedron.h
@@ -165,10 +165,10 @@ public:
     T d63_d50{ d63[0]+d50[0], d63[1]+d50[1], d63[2]+d50[2] };
     T d64_d20{ d64[0]+d20[0], d64[1]+d20[1], d64[2]+d20[2] };
     auto det = 
-      std::abs( triple_product( d61_d70, d63, d20 ) ) +
-      std::abs( triple_product( d70, d63_d50, d64 ) ) +
-      std::abs( triple_product( d61, d50, d64_d20 ) );
-    return det / 12;
+      triple_product( d61_d70, d63, d20 ) +
+      triple_product( d70, d63_d50, d64 ) +
+      triple_product( d61, d50, d64_d20 );
+    return std::abs( det ) / 12;
   }
      
 };
-- 
2.43.0


From 5843559b92f39bffc829d8c397b2fb800e3d6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 18/78] fix: evaluate the cubic basis in Quad_12_2D::basis

It evaluated the basis of the eight node element and left nodes 8 to 11 unset.
---
 ristra/elements/elements.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 1b18817..b577a80 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -1251,26 +1251,28 @@ void Quad_12_2D::basis(
 
    // calculate the shape functions for node 0,1,2,3(xi,eta)
    for( int this_vert = 0; this_vert < 4; this_vert++ ){
-      basis[this_vert] = 1.0/4.0
+      basis[this_vert] = 1.0/32.0
          * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
          * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1])
-         * (xi_2D_point[0]*ref_vert[this_vert][0] 
-         +  xi_2D_point[1]*ref_vert[this_vert][1] -1);
+         * (9.0 * (xi_2D_point[0]*xi_2D_point[0] 
+         +  xi_2D_point[1]*xi_2D_point[1]) - 10.0);
    } // end for this_vert
 
 
-   // calculate the shape functions for node 4,6(xi,eta)
-   for( int this_vert = 4; this_vert <= 6; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
+   // calculate the shape functions for node 4-7(xi,eta)
+   for( int this_vert = 4; this_vert <= 7; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
          * (1.0 - xi_2D_point[0]*xi_2D_point[0])
-         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1]);
+         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1])
+         * (1.0 + 9.0 * xi_2D_point[0]*ref_vert[this_vert][0]);
    } // end for this_vert
 
-   // calculate the shape functions for node 5,7 (xi,eta)
-   for( int this_vert = 5; this_vert <= 7; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
+   // calculate the shape functions for node 8-11 (xi,eta)
+   for( int this_vert = 8; this_vert <= 11; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
          * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
-         * (1.0 - xi_2D_point[1]*xi_2D_point[1]);
+         * (1.0 - xi_2D_point[1]*xi_2D_point[1])
+         * (1.0 + 9.0 * xi_2D_point[1]*ref_vert[this_vert][1]);
    } // end for this_vert
 }// end of quad12 basis functions
 
-- 
2.43.0


From 4886edd23bf71e5c291c3cd3ecf17bde298624a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 19/78] fix: Tess16 uses its table of reference vertices

The table was a global hidden by an uninitialised data member.
---
 ristra/elements/elements.cc | 4 +---
 ristra/elements/elements.h  | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index b577a80..3cd3f7c 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2751,9 +2751,7 @@ void HexN::basis_partials (
  */
 
 
-int  num_nodes = 16;
-
-real_t ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
+real_t Tess16::ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
    {
    // Interior cube bottom
    {-1.0, -1.0, -1.0, -1.0},//0
diff --git a/ristra/elements/elements.h b/ristra/elements/elements.h
index 85739d0..a910b58 100644
--- a/ristra/elements/elements.h
+++ b/ristra/elements/elements.h
@@ -742,9 +742,7 @@ class HexN{
 
 class Tess16: public Element4D {
    protected:
-      int  num_nodes;
-
-      real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
+      static real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
 
 
 
-- 
2.43.0


From 1f4fb8c062631541e278fe9f6a023a07488c8e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 20/78] fix: QuadN and HexN compute every coordinate of a
 physical position

The last one was left out, and the sums started from whatever the result held,
unlike in the other elements.
---
 ristra/elements/elements.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 3cd3f7c..729aa11 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2284,8 +2284,12 @@ void QuadN::physical_position (
    int nodes = orderN + 1;
    int numnodes_2d = nodes * nodes;
 
+   // start from zero
+   for (int dim = 0; dim < 2; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_2d; this_vert++ ){
-      for (int dim = 0; dim < 1; dim++){
+      for (int dim = 0; dim < 2; dim++){
          x_point[dim] += lag_nodes_2d[this_vert][dim]*lag_basis_2d[this_vert];
       } // end for dim
    } // end for this_vert
@@ -2566,8 +2570,12 @@ void HexN::physical_position (
    int nodes = orderN + 1;
    int numnodes_3d = nodes * nodes * nodes;
 
+   // start from zero
+   for (int dim = 0; dim < 3; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_3d; this_vert++ ){
-      for (int dim = 0; dim < 2; dim++){
+      for (int dim = 0; dim < 3; dim++){
          x_point[dim] += lag_nodes[this_vert][dim]*lag_basis_3d[this_vert];
       } // end for dim
    } // end for this_vert
-- 
2.43.0


From 19696168061007f9cde45c1b99d616c8352f4f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 21/78] fix: inverse of a 3D Jacobian

One cofactor was wrong, the determinant was expanded along a row with the
cofactors of a column, and the adjugate was not transposed.
---
 ristra/elements/elements.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 729aa11..87f71b2 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -659,16 +659,16 @@ void jacobian_inverse_3d(
    real_t A_32 = jacobian[0][2]*jacobian[1][0] 
                  - jacobian[1][2]*jacobian[0][0];
 
-   real_t A_13 = jacobian[1][0]*jacobian[1][1] 
+   real_t A_13 = jacobian[1][0]*jacobian[2][1] 
                  - jacobian[2][0]*jacobian[1][1];
  
-   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_21 
-                + jacobian[0][2]*A_31;
+   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_12 
+                + jacobian[0][2]*A_13;
 
    J_inverse_matrix = {
-                      {A_11/det, A_12/det, A_13/det},
-                      {A_21/det, A_22/det, A_23/det},
-                      {A_31/det, A_32/det, A_33/det},
+                      {A_11/det, A_21/det, A_31/det},
+                      {A_12/det, A_22/det, A_32/det},
+                      {A_13/det, A_23/det, A_33/det},
                       };
 
     } // end of inverse jacobian 
-- 
2.43.0


From df2fca7ceee5e6f98a8349e34c18bb1542317b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 22/78] fix: one cofactor of the inverse of a 4D Jacobian

---
 ristra/elements/elements.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 87f71b2..b7e240d 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -774,7 +774,7 @@ void jacobian_inverse_4d(
            - m[4]  * m[1] * m[15] 
            + m[4]  * m[3] * m[13] 
            + m[12] * m[1] * m[7] 
-           - m[12] * m[3] * m[6];
+           - m[12] * m[3] * m[5];
 
    inv[14] =-m[0]  * m[5] * m[14] 
            + m[0]  * m[6] * m[13] 
-- 
2.43.0


From 00e0b9e61116372aec5f5e9d0ffe3290046f980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 23/78] fix: do not read past a 2x2 Jacobian to compute its
 determinant

---
 ristra/elements/elements.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index b7e240d..0d6bcd8 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -553,12 +553,15 @@ void jacobian(
     
 
    //calcualate the determinant of the jacobian for 2D/3D matrices
-   det_J =  J_matrix[0][0] *(J_matrix[1][1] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][1] * J_matrix[1][2])*abs(dim-2))  //group 1
-         -  J_matrix[0][1] *(J_matrix[1][0] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][0] * J_matrix[1][2])*abs(dim-2))  // group 2
-         +  J_matrix[0][2] *(J_matrix[1][0] *  J_matrix[2][1] 
-         -  J_matrix[2][0] * J_matrix[1][1])*(abs(dim-2)); // group 3 
+   if (dim == 2)
+      det_J = J_matrix[0][0]*J_matrix[1][1] - J_matrix[0][1]*J_matrix[1][0];
+   else
+      det_J = J_matrix[0][0] * (J_matrix[1][1] * J_matrix[2][2]
+            - J_matrix[2][1] * J_matrix[1][2])  // group 1
+            - J_matrix[0][1] * (J_matrix[1][0] * J_matrix[2][2]
+            - J_matrix[2][0] * J_matrix[1][2])  // group 2
+            + J_matrix[0][2] * (J_matrix[1][0] * J_matrix[2][1]
+            - J_matrix[2][0] * J_matrix[1][1]); // group 3
    } // end of jacobian function
 
 //defining the jacobian for 4D elements
-- 
2.43.0


From 2df73df6785d9159c14d79a3cc00b49ae27310a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:07 +0000
Subject: [PATCH 24/78] fix: cpp scheme operations return the result of their
 own update

The value was read in a second, separate access, so with concurrent updates
two threads could be given the same value, or one that neither had stored.
---
 ristra/atomics/src/atomics-macro-class.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ristra/atomics/src/atomics-macro-class.h b/ristra/atomics/src/atomics-macro-class.h
index 1a7394f..ae3e58a 100644
--- a/ristra/atomics/src/atomics-macro-class.h
+++ b/ristra/atomics/src/atomics-macro-class.h
@@ -33,9 +33,12 @@ public:
       // std::atomic<>'s fetch_add() etc. return the contained value BEFORE
       // the call, which is inconsistent with what we expect from "+=" etc.,
       // and with what we get from our other atomicity schemes (below). So,
-      // we split the call and the return.
-      atom.atomics_cpp(val,sync); // e.g. atom.fetch_add(val,sync)
-      return T(atom);
+      // we apply the operation to the returned value as well. (Reading atom
+      // again would not do: another thread may have changed it since.)
+      using V = typename
+         std::conditional<std::is_pointer<T>::value,std::ptrdiff_t,T>::type;
+      T neu = atom.atomics_cpp(V(val),sync); // e.g. atom.fetch_add(val,sync)
+      return neu atomics_op V(val); // e.g. neu += val
    }
    #endif
 
-- 
2.43.0


From 0a148ce82365f6ddc23505d21532db148ecbc0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:59 +0000
Subject: [PATCH 25/78] fix: array views: let at() and slice() report an index
 out of range

They throw std::out_of_range but were declared noexcept, so a bad index
ended the program instead.
---
 ristra/utils/array_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index d56c5b3..de20c0d 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2271,7 +2271,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the strided_array_view.    
@@ -2780,7 +2780,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3289,7 +3289,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3329,7 +3329,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] slice the index
   //! \return a reference to the indexed location
-  constexpr auto slice( size_type idx ) const noexcept
+  constexpr auto slice( size_type idx ) const
   { 
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
-- 
2.43.0


From 9c6e6bc8b6ee329084b9fe283a58348099e2a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:59 +0000
Subject: [PATCH 26/78] fix: array views: empty() was inverted

It returned true for every view with data and false for a default
constructed one.
---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index de20c0d..c5f4450 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2218,7 +2218,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -2728,7 +2728,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -3236,7 +3236,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
-- 
2.43.0


From cd88de48b3fb41426d4af43ef8364970ff0286e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:59 +0000
Subject: [PATCH 27/78] fix: contiguous_bounds: derive the strides of a
 built-in array from its extents

The constructor stored the extents themselves as the strides.
---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index c5f4450..7f73667 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1040,7 +1040,7 @@ protected:
   constexpr contiguous_bounds( 
     ArrayType &, std::index_sequence<I...> ) noexcept : 
     bounds_( std::extent<ArrayType, I>::value... ),
-    strides_( std::extent<ArrayType, I>::value... )
+    strides_( detail::make_strides<index_type>{}( std::extent<ArrayType, I>::value... ) )
   { };  
 
   /// @}
-- 
2.43.0


From b940328a145d5a24313e94e6b219a3c8cf1e1c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:59 +0000
Subject: [PATCH 28/78] fix: bounds_iterator: random access, ordering and empty
 boxes

operator+= did not compile for more than one dimension and did not reach
end(); operator< was true both ways round for some pairs; and a box with a
zero extent was still traversed.
---
 ristra/utils/array_view.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 7f73667..6f5bb04 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -738,7 +738,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : bounds_ ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -995,7 +995,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : bounds_ ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -1221,7 +1221,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : bounds_ ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -1433,7 +1433,7 @@ public:
   constexpr bounds_iterator& operator+=(difference_type n) noexcept
   {
     auto linear_idx = linearize(current_) + n;
-    std::remove_const_t<value_type> stride = 0;
+    std::remove_const_t<value_type> stride;
     stride[rank - 1] = 1;
     for (int i = rank - 1; i-- > 0;) {
       stride[i] = stride[i + 1] * bounds_[i + 1];
@@ -1442,6 +1442,9 @@ public:
       current_[i] = linear_idx / stride[i];
       linear_idx = linear_idx % stride[i];
     }
+    // past-the-end has a single representation
+    if ( stride[0] * bounds_[0] > 0 && current_[0] == bounds_[0] )
+      current_ = bounds_;
     // index is out of bounds of the array
     assert( (current_ >= index_type{}) && (bounds_ >= current_) );
     return *this;
@@ -1492,7 +1495,7 @@ public:
   //! \brief test less-than
   //! \param [in] rhs the object on the right hand side of the operator
   constexpr bool operator<(const bounds_iterator& rhs) const noexcept
-  { return (current_ < rhs.current_); }
+  { return linearize(current_) < linearize(rhs.current_); }
 
   //! \brief test <=
   //! \param [in] rhs the object on the right hand side of the operator
-- 
2.43.0


From fb6f1341f21b68dc799c64c09cf530a880cf1d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:59 +0000
Subject: [PATCH 29/78] fix: strided_array_view: compare the elements of views
 with the same origin

Two views that start at the same address but have different strides or
shapes name different elements.
---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 6f5bb04..0b0025f 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2424,7 +2424,7 @@ public:
   constexpr bool operator==(const strided_array_view<OtherValueType, OtherRank>& other) const noexcept
   {
     return bounds_.size() == other.bounds_.size() &&
-      (data_ == other.data_ || std::equal(this->begin(), this->end(), other.begin()));
+      std::equal(this->begin(), this->end(), other.begin());
   }
 
   template <
-- 
2.43.0


From ce23b39c1dceba06c254fe5473a15ec3b047a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:59 +0000
Subject: [PATCH 30/78] fix: array_view: allow the implicit conversion to a
 strided view

The rank was deduced as an int, so the conversion, and with it
array_view::section(), did not compile.
---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 0b0025f..279baba 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2083,7 +2083,7 @@ public:
   //! \param [in] rhs  the array_vew to set the new view to
   template<
     typename ViewValueType, 
-    int ViewRank,
+    std::ptrdiff_t ViewRank,
     bool Enabled1 = std::is_convertible< std::add_pointer_t<ViewValueType>, pointer>::value,
     bool Enabled2 = (ViewRank == Rank),
     std::enable_if_t< Enabled1 && Enabled2 >* = nullptr
-- 
2.43.0


From d1017ef9da2d601fe3f1b26f71e6d4109b01f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:59 +0000
Subject: [PATCH 31/78] fix: static_array_view: slices, sections, conversions
 and constant iterators

The slice type was the helper that selects it, the arguments of the other
views were passed in the wrong order, the constant view had the rank for
its extent (so cend() was off), the converting assignment returned nothing,
and strides() returned a reference to a temporary.
---
 ristra/utils/array_view.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 279baba..29be1b0 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -3107,7 +3107,7 @@ public:
   using reference = std::add_lvalue_reference_t<value_type>;
 
   //! \brief a constant version of the same view
-  using const_static_array_view = static_array_view<const_value_type, Rank>;
+  using const_static_array_view = static_array_view<const_value_type, FirstDim, RestDims...>;
 
   //! \brief a strided version of the same view
   using strided_view = strided_array_view<value_type, Rank>;
@@ -3122,7 +3122,7 @@ public:
 
 
   //! a sliced type
-  using sliced_type = slice_chooser< (Rank == 1),  value_type, RestDims... >;
+  using sliced_type = typename slice_chooser< (Rank == 1),  value_type, RestDims... >::type;
 
   /// @}
         
@@ -3179,6 +3179,7 @@ public:
   operator=(const static_array_view<ViewValueType, FirstDim, RestDims...>& rhs) noexcept
   {
     data_ = rhs.data();
+    return *this;
   }
 
   //! \brief single parameter container
@@ -3246,10 +3247,10 @@ public:
   { return bounds_; }
 
   //! \brief return the stride of the array
-  constexpr const auto & strides() const noexcept
+  constexpr auto strides() const noexcept
   { return bounds_.strides(); }
  
-  constexpr const auto & stride() const noexcept
+  constexpr auto stride() const noexcept
   { return bounds_.stride(); }
 
 
@@ -3325,7 +3326,7 @@ public:
   constexpr Ret operator[]( size_type idx ) const noexcept
   { 
     const auto ridx = idx * bounds_.stride();
-    return { bounds_.slice(), data_+ridx };
+    return { data_+ridx };
   }
 
   //! \brief slice an array, i.e. fix the most significant dimension
@@ -3354,7 +3355,7 @@ public:
   { 
     assert( bounds().contains(origin) );
     auto bnds = bounds_.as_index() - origin;
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   constexpr strided_view section( 
@@ -3363,21 +3364,21 @@ public:
   { 
     assert( bounds_.contains(origin) );
     assert( origin + bnds <= bounds_.as_index() );    
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator strided_view() const 
   {
-    return strided_view( bounds_.as_index(), bounds_.strides(), data() );
+    return strided_view( data(), bounds_.as_index(), bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator dynamic_view() const 
   {
-    return dynamic_view( bounds_.as_index(), data() );
+    return dynamic_view( data(), typename dynamic_view::bounds_type( bounds_.as_index() ) );
   }
   
   /// @}
-- 
2.43.0


From 3d28560c0f327d2e6c86c424055db17d26740248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:33 +0000
Subject: [PATCH 32/78] fix: bounds_iterator: make it assignable and swappable

The constant member deleted the assignment, which every random access
iterator needs: std::lexicographical_compare, and with it operator< of
strided views, did not compile.
---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 29be1b0..b8b5547 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1561,7 +1561,7 @@ private:
   /// @{
 
   //! \brief storage for the bounds
-  value_type bounds_;
+  std::remove_const_t<value_type> bounds_;
   //! \brief storage for the current index
   std::remove_const_t<value_type> current_;
 
-- 
2.43.0


From 0b8d45d1396d06f7c712012f0dbc76e30074be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:14 +0000
Subject: [PATCH 33/78] fix: assert_true captures the else of an enclosing if

---
 ristra/assertions/errors.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/assertions/errors.h b/ristra/assertions/errors.h
index e1ce61d..eac1eb9 100644
--- a/ristra/assertions/errors.h
+++ b/ristra/assertions/errors.h
@@ -79,8 +79,10 @@
 //! \param[in] msg  the message to display
 ////////////////////////////////////////////////////////////////////////////////
 #define assert_true(cond, msg)                                          \
-  if ( ! (cond) )                                                       \
-    THROW_RUNTIME_ERROR("Assertion falied: " << msg)
+  do {                                                                  \
+    if ( ! (cond) )                                                     \
+      THROW_RUNTIME_ERROR("Assertion falied: " << msg);                 \
+  } while(0)
 
 ////////////////////////////////////////////////////////////////////////////////
 //! \brief Display a warning.
-- 
2.43.0


From 7f1e86cb057bbe750cda1df45b51427077113bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 34/78] fix: multi_array: a lua table could not be converted to
 a matrix

---
 ristra/math/multi_array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index c138285..854d15d 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -196,7 +196,10 @@ public:
 
   //! \brief Constructor with one value.
   //! \param[in] val The value to set the multi_array to.
-  template < typename T2 >
+  template <
+    typename T2,
+    typename = std::enable_if_t< std::is_convertible<const T2 &, T>::value >
+  >
   multi_array(const T2 & val)
   { 
     //std::cout << "multi_array (single value constructor)\n";
-- 
2.43.0


From 78cf41a8e8cde55183525a5998319bb6686e1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:52 +0000
Subject: [PATCH 35/78] fix: lua: reading an element of a table cleared the
 whole stack

---
 ristra/embedded/embed_lua.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index fc15b0b..81808cd 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -861,7 +861,7 @@ public:
     auto len = lua_rawlen(s, -1);
     // get a reference to the result, and pop the table from the stack
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
+    lua_pop(s, 1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -884,7 +884,7 @@ public:
     auto len = lua_rawlen(s, -1);
     // get a reference to the result, and pop the table from the stack
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
+    lua_pop(s, 1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
-- 
2.43.0


From 51a910d41c9f2dd63c4c19def334cddd345cd951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:52 +0000
Subject: [PATCH 36/78] fix: lua: the type of a reference was read after its
 value was popped

---
 ristra/embedded/embed_lua.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 81808cd..531c9ee 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -546,7 +546,8 @@ public:
 inline lua_ref_t make_lua_ref(const lua_state_ptr_t & state)
 {
   auto s = state.get();
-  return { state, luaL_ref(s, LUA_REGISTRYINDEX), lua_type(s, -1) };
+  auto type = lua_type(s, -1); // the next call pops the value
+  return { state, luaL_ref(s, LUA_REGISTRYINDEX), type };
 }
 
 
-- 
2.43.0


From a722d4d60e579fab373e8d91421b2c0ea76db643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:52 +0000
Subject: [PATCH 37/78] fix: lua: strings were cut at a zero character and read
 after they were popped

---
 ristra/embedded/embed_lua.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 531c9ee..e89e27e 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -154,7 +154,9 @@ struct lua_value<std::string>
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to string."
     );
-    auto str = lua_tostring(s, index);
+    std::size_t len;
+    auto ptr = lua_tolstring(s, index, &len);
+    std::string str(ptr, len);
     lua_remove(s, index);
     return str;
   }
-- 
2.43.0


From 6b786aa38e438eb5a61b74d7717d81565e8c6309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:52 +0000
Subject: [PATCH 38/78] fix: lua: numbers that are not representable as the
 integer asked for became 0 or wrapped

---
 ristra/embedded/embed_lua.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index e89e27e..8a96eb2 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -90,9 +90,15 @@ struct lua_value< T, std::enable_if_t< std::is_integral<T>::value > >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to int."
     );
-    auto i = lua_tointeger(s, index);
+    int is_integer;
+    auto i = lua_tointegerx(s, index, &is_integer);
+    auto res = static_cast<T>(i);
+    if ( !is_integer || static_cast<lua_Integer>(res) != i || (res < 0) != (i < 0) )
+     THROW_RUNTIME_ERROR( "Number " << lua_tonumber(s, index) <<
+      " is not representable as the requested integer type."
+    );
     lua_remove(s,index);
-    return i;
+    return res;
   }
 };
 
-- 
2.43.0


From df33e77d12cf561d69134a85cff9475948b8a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:52 +0000
Subject: [PATCH 39/78] fix: lua: the rows of a matrix were not checked

---
 ristra/embedded/embed_lua.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 8a96eb2..2de3d92 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -280,6 +280,14 @@ struct lua_value< Matrix<T,M,N> >
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
       lua_rawgeti(s, -1, i);  // push t[i]
+      if ( !lua_istable(s, -1) )
+        THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
+          lua_typename(s, lua_type(s, -1)) << "\" to a row of a multiarray."
+        );
+      if ( lua_rawlen(s, -1) != N )
+        THROW_RUNTIME_ERROR(
+          "Expecting row of size "<<N<<", stack row is size " << lua_rawlen(s, -1)
+        );
       for (int j=1; j<=N; ++j) {
         lua_rawgeti(s, -1, j); // push t[j]
         res(i-1,j-1) = lua_value<T>::get(s);
-- 
2.43.0


From 96a4065c2dd62e2e854642bf0398255bccbda3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:11 +0000
Subject: [PATCH 40/78] fix: lua: tables that are not on top of the stack were
 converted wrongly

---
 ristra/embedded/embed_lua.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 2de3d92..7ff4670 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -189,13 +189,15 @@ struct lua_value< Vector<T,Allocator> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to vector."
     );
+    // positions relative to the top change as elements are pushed
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     // extract the results
     Vector<T,Allocator> res;
     res.reserve(n);
     for ( int i=1; i<=n; ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       res.emplace_back( lua_value<T>::get(s) );
     }
     // remove it from the stack
@@ -226,8 +228,10 @@ struct lua_value< Array<T,N> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to vector."
     );
+    // positions relative to the top change as elements are pushed
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     if ( n != N )
       THROW_RUNTIME_ERROR( 
         "Expecting array of size"<<N<<", stack array is size " << n
@@ -235,7 +239,7 @@ struct lua_value< Array<T,N> >
     // extract the results
     Array<T,N> res;
     for ( int i=1; i<=std::min(n,N); ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       res[i-1] = lua_value<T>::get(s);
     }
     // remove it from the stack
@@ -270,8 +274,10 @@ struct lua_value< Matrix<T,M,N> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to multiarray."
     );
+    // positions relative to the top change as elements are pushed
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     if ( n != M )
       THROW_RUNTIME_ERROR( 
         "Expecting array of size"<<M<<", stack array is size " << n
@@ -279,7 +285,7 @@ struct lua_value< Matrix<T,M,N> >
     // extract the results
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       if ( !lua_istable(s, -1) )
         THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
           lua_typename(s, lua_type(s, -1)) << "\" to a row of a multiarray."
-- 
2.43.0


From 0328d3f0d89c3c52525605d49012d071c3e58f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:11 +0000
Subject: [PATCH 41/78] fix: lua: a refused conversion, access or call left
 values on the stack

---
 ristra/embedded/embed_lua.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 7ff4670..ed602e7 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -562,6 +562,17 @@ public:
 
 };
 
+/// \brief Restores the height of the lua stack at the end of a scope, also
+///        when the scope is left by an exception.
+struct lua_stack_guard_t {
+  explicit lua_stack_guard_t(lua_State * s) : s_(s), top_(lua_gettop(s)) {}
+  lua_stack_guard_t(const lua_stack_guard_t &) = delete;
+  ~lua_stack_guard_t() { lua_settop(s_, top_); }
+private:
+  lua_State * s_;
+  int top_;
+};
+
 /// \brief Create a lua reference to the last value on the stack.
 /// \param [in] state A lua state pointer.
 /// \return A new lua_ref_t object.
@@ -770,6 +781,7 @@ public:
   explicit operator T() const {
     if ( refs_.size() != 1 )
       THROW_RUNTIME_ERROR( "Expecting 1 result, stack has " << refs_.size() );
+    lua_stack_guard_t guard(state());
     push_last();
     return lua_value<T>::get(state());
   }
@@ -785,6 +797,7 @@ public:
       THROW_RUNTIME_ERROR( 
         "Expecting "<<N<<" results, stack has " << refs_.size() 
       );
+    lua_stack_guard_t guard(state());
     push_all();
     Tup tup;
     get_results<Tup,0,Args...>(tup);
@@ -825,6 +838,7 @@ public:
     // get the current stack position ( the function and arguments will get
     // deleted from the stack after the function call )
     auto pos0 = lua_gettop(s);
+    lua_stack_guard_t guard(s);
     // push the function onto the stack
     check_stack(1);
     push_last();
@@ -872,6 +886,7 @@ public:
     auto s = state();
     auto new_name = name_+".[\""+key+"\"]";
     // push the table onto the stack
+    lua_stack_guard_t guard(s);
     push_last();
     // make sure we are accessing a table
     check_table(name_);
@@ -898,6 +913,7 @@ public:
     auto s = state();
     auto new_name = name_+"["+std::to_string(n)+"]";
     // push the table onto the stack
+    lua_stack_guard_t guard(s);
     push_last();
     // make sure we are accessing a table
     check_table(name_);
-- 
2.43.0


From 3a34d5c6b7e91aec68f8c28edfef54b9201cee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:34 +0000
Subject: [PATCH 42/78] fix: lua: calling a function that returns nothing
 looked at an unrelated value

---
 ristra/embedded/embed_lua.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index ed602e7..108fb00 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -862,7 +862,9 @@ public:
       print_last_row();
       THROW_RUNTIME_ERROR("Problem calling \"" << name_ << "\".");
     }
-    // make sure the result is non nill
+    // make sure there is a result, and that it is non nill
+    if ( lua_gettop(s) == pos0 )
+      THROW_RUNTIME_ERROR("\"" << name_ << "\" returned nothing.");
     check_result(name_);
     // figure out how much the stack grew
     pos1 = lua_gettop(s);
-- 
2.43.0


From 3eac02cf28ab1d4ba04c34771280d4cb78797266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:34 +0000
Subject: [PATCH 43/78] fix: lua: a state that could not be created was closed

---
 ristra/embedded/embed_lua.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 108fb00..7afb34d 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -426,7 +426,7 @@ public:
 
   /// \brief Default constructor.
   lua_base_t()
-    : state_( luaL_newstate(), [](lua_State * s) { lua_close(s); } )
+    : state_( luaL_newstate(), [](lua_State * s) { if (s) lua_close(s); } )
   {}
   
   /// \brief Copy constructor.
-- 
2.43.0


From 0df1bda7f2604c69fcfc0044ba0aceb8b4783c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:34 +0000
Subject: [PATCH 44/78] fix: lua: a wrapped function referred to the caller's
 object, not to its own copy

---
 ristra/embedded/embed_lua.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 7afb34d..3c83113 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -983,7 +983,7 @@ struct Lua_Func_Wrapper<std::function<Ret(Args...)>> {
 
   /**\brief Construct from reference to lua_result_t */
   explicit Lua_Func_Wrapper(lua_result_t & lf)
-    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(lf)
+    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(*plua_func_)
   {
   }
 
-- 
2.43.0


From d7d6d44dbbd8af7bb1e61e9b19da16b142f6f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:48 +0000
Subject: [PATCH 45/78] fix: hard_coded_source_t: a value could be read only
 once

---
 ristra/initialization/input_source.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index e4be871..f905a37 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -105,7 +105,7 @@ class hard_coded_source_t : public input_source<hard_coded_source_t>
     auto it = reg.find(k);
     bool found(false);
     if (reg.end() != it) {
-      t = std::move(it->second);
+      t = it->second;
       found = true;
     }
     return found;
-- 
2.43.0


From 6430757e15d5d92791a34d33a0b03c5da0be758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:48 +0000
Subject: [PATCH 46/78] fix: lua_source_t: errors were sliced to std::exception

---
 ristra/initialization/input_source.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index f905a37..b974e45 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -254,15 +254,15 @@ class lua_source_t : public input_source<lua_source_t>
         // use lua key (not arg key) in table
         auto lua_val = from_table[l_key];
         sz = lua_val.size();
-      }  catch (std::exception & x) {
+      }  catch (std::exception &) {
         printf("%s:%i Failed to find the table '%s' for the key '%s'\n",
           __PRETTY_FUNCTION__, __LINE__, from_name.c_str(),key.c_str());
-        throw x;
+        throw;
       }
-    } catch (std::exception & x) {
+    } catch (std::exception &) {
       printf("%s:%i Failed to find any table associated with key '%s'\n",
         __PRETTY_FUNCTION__, __LINE__, key.c_str());
-      throw x;
+      throw;
     }
     return sz;
   } // get_size
@@ -288,15 +288,15 @@ class lua_source_t : public input_source<lua_source_t>
           if (found) {
             t = lua_val.as<T>();
           }
-        } catch (std::exception & x) {
+        } catch (std::exception &) {
           printf("%s:%i Failed to find table '%s'\n", __PRETTY_FUNCTION__,
             __LINE__, from_name.c_str());
-          throw x;
+          throw;
         }
-      } catch (std::exception & x) {
+      } catch (std::exception &) {
         printf("%s:%i Failed to find table associated with key '%s'\n",
           __PRETTY_FUNCTION__, __LINE__, k.c_str());
-        throw x;
+        throw;
       }
       return found;
     }
@@ -316,10 +316,10 @@ class lua_source_t : public input_source<lua_source_t>
     try {
       embedded::lua_result_t & from_table = m_tables.at(table_name);
       return from_table;
-    } catch (std::exception & x) {
+    } catch (std::exception &) {
       printf("%s:%i Failed to find table named '%s'\n",
         __PRETTY_FUNCTION__, __LINE__, table_name.c_str());
-      throw x;
+      throw;
     }
   } // get_table
 
-- 
2.43.0


From 72130fc04834b35df38390dd17b18ea4325594ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:48 +0000
Subject: [PATCH 47/78] fix: lua_source_t: register_table ignored the Lua key
 and kept a displaced table

---
 ristra/initialization/input_source.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index b974e45..17f59db 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -344,11 +344,13 @@ class lua_source_t : public input_source<lua_source_t>
   void load_table(str_cr_t load_name)
   {
     str_cr_t from_name = m_table_map[load_name];
+    // check if there is a Lua key distinct from load_name
+    str_cr_t l_key(1 == m_lua_key.count(load_name) ? m_lua_key[load_name] : load_name);
     if ("base_state" == from_name) {
-      m_tables.emplace(load_name, lua_try_access(m_lua_state, load_name));
+      m_tables.insert_or_assign(load_name, lua_try_access(m_lua_state, l_key));
     } else {
       embedded::lua_result_t & from_state = m_tables.at(from_name);
-      m_tables.emplace(load_name, lua_try_access(from_state, load_name));
+      m_tables.insert_or_assign(load_name, lua_try_access(from_state, l_key));
     }
     // printf("%s:%i Loaded table
     // '%s'\n",__FUNCTION__,__LINE__,load_name.c_str());
-- 
2.43.0


From 4b92580d8ab3aba0a55e98f720304d83eaad7776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:48 +0000
Subject: [PATCH 48/78] fix: input_engine_t: a function resolved again kept its
 previous definition

---
 ristra/initialization/input_engine.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 938e6d0..bfae8f8 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -504,12 +504,7 @@ class input_engine_t
           func_t f;
           found_target = hard_coded_source->get_value(target, f);
           if (found_target) {
-            // auto ins_pr =
-            hc_registry.insert(std::make_pair(target, f));
-            // bool inserted = ins_pr.second;
-            // Could have some error checking on whether the thing was
-            // inserted: if it weren't, that might mean this key is already
-            // inhabited, and that would be unexpected.
+            hc_registry[target] = f;
             continue;
           }
         }
@@ -594,7 +589,7 @@ class input_engine_t
         func_t f;
         found_target = hard_coded_source->get_value(target, f);
         if (found_target) {
-          hc_registry.insert(std::make_pair(target, f));
+          hc_registry[target] = f;
         }
       }
       return found_target;
-- 
2.43.0


From ca92306ceba1ee4e08d7bfc605ecdaa0e8c0ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:48 +0000
Subject: [PATCH 49/78] fix: input_engine_t: get_instant_value returned an
 earlier value when the key did not resolve

---
 ristra/initialization/input_engine.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index bfae8f8..72fd700 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -7,6 +7,7 @@
 #include<ristra/ristra-config.h>
 
 #include "ristra/assertions/dbc.h"
+#include "ristra/assertions/errors.h"
 #include "ristra/embedded/embed_lua.h"
 #include "ristra/initialization/inputs_impl.h"
 #include "ristra/initialization/input_source.h"
@@ -313,7 +314,7 @@ class input_engine_t
     if(!resolved){
       string_t err = "get_instant_value: Could not resolve key '" +
         target_name + "' using type '" + typeid(T).name() + "'";
-      Insist(false,err);
+      THROW_RUNTIME_ERROR(err);
     }
     return get_value<T>(target_name);
   } // get_instant_value
-- 
2.43.0


From 76990d1a552eeb426d5f5a24fddd6af647c9693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:48 +0000
Subject: [PATCH 50/78] fix: init_value_t: valid() did not compile for callable
 types

---
 ristra/initialization/init_value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index c6b95fd..3bb1a2c 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -111,7 +111,7 @@ class init_value_t
       return false;
     }
     input_engine ie;
-    T & t(ie.template get_value<T>(full_name()));
+    get_return_t t(ie.template get_value<T>(full_name()));
     bool valid = m_valid(t);
     m_status = valid ? status_t::valid : status_t::invalid;
     return valid;
-- 
2.43.0


From 212964164c43fcd4aaf010a19c5f9d74d50ccd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:44 +0000
Subject: [PATCH 51/78] fix: lua_push of an array reserved one stack slot too
 few

---
 ristra/embedded/embed_lua.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 3c83113..840b67e 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -393,11 +393,11 @@ template <
 >
 inline std::size_t lua_push(lua_State * s, const Array<double, N> & arr)
 {
-  // Caller always checks for 1, we must check for the rest
-  auto ret = lua_checkstack(s, N - 1);
+  // lua_checkstack does not add up: ask for all the slots
+  auto ret = lua_checkstack(s, N);
   if (!ret) {
     std::ostringstream ss;
-    ss << "Cannot grow stack " << (N - 1) << " slots operating on element \""
+    ss << "Cannot grow stack " << N << " slots operating on element \""
        << "\"." << std::endl
        << "Current stack size is " << lua_gettop(s) << ".";
     THROW_RUNTIME_ERROR(ss.str());
-- 
2.43.0


From 3dc527e53b465c92cb478e68d3ebfc0fba018cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:42 +0000
Subject: [PATCH 52/78] fix: python_call_function could not be used without
 arguments

---
 ristra/embedded/embed_python.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 258cc43..821bb9b 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -234,11 +234,8 @@ void python_set_tuple_element( PyObject * py_tup, std::size_t i, Arg && arg )
 
 namespace detail {
 
-template< typename Arg >
-void python_build_args( PyObject * py_args, std::size_t i, Arg&& arg )
-{
-  python_set_tuple_element( py_args, i, std::forward<Arg>(arg) );
-}
+inline void python_build_args( PyObject * py_args, std::size_t i )
+{}
 
 template< typename Arg, typename... Args >
 void python_build_args( 
-- 
2.43.0


From 181a352c7ddfb9aa2ec43a1f9a2e6a739b75c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:41 +0000
Subject: [PATCH 53/78] fix: python_as_long and python_as_double returned -1
 for values they cannot convert

---
 ristra/embedded/embed_python.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 821bb9b..0d44cb5 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -165,12 +165,29 @@ auto python_get_attribute( PyObject * py_module, std::string attribute )
 
 inline auto python_as_long( PyObject * py_value )
 {
-  return PyLong_AsLong( py_value );
+  // floats are not converted implicitly since python 3.10
+  auto pint = PyNumber_Long( py_value );
+  if (!pint) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert to long.");
+  }
+  auto value = PyLong_AsLong( pint );
+  Py_DECREF(pint);
+  if (value == -1 && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert to long.");
+  }
+  return value;
 }
 
 inline auto python_as_double( PyObject * py_value )
 {
-  return PyFloat_AsDouble( py_value );
+  auto value = PyFloat_AsDouble( py_value );
+  if (value == -1 && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert to double.");
+  }
+  return value;
 }
 
 auto python_get_value( long arg )
-- 
2.43.0


From 693292608f26ff6033edfad6503e805caf814a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:41 +0000
Subject: [PATCH 54/78] fix: python_add_to_path returned a borrowed reference
 that callers free

---
 ristra/embedded/embed_python.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 0d44cb5..a8b29cf 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -150,6 +150,8 @@ auto python_add_to_path( std::string path )
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
   Py_DECREF(pname);
+  // the reference from PySys_GetObject is borrowed, the caller frees its own
+  Py_INCREF(syspath);
   return syspath; 
 } 
 
-- 
2.43.0


From 67505c17f34e884948117638ec86b90a698a721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:41 +0000
Subject: [PATCH 55/78] fix: failing python imports, calls and argument lists
 leaked references

---
 ristra/embedded/embed_python.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index a8b29cf..6077e54 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -117,11 +117,11 @@ auto python_import( std::string name )
     THROW_RUNTIME_ERROR("Cannot decode module name \"" << name << "\"");
   }
   auto pmodule = PyImport_Import(pname);
+  Py_DECREF(pname);
   if (!pmodule) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot import module \"" << name << "\"");
   }
-  Py_DECREF(pname);
   return pmodule;
 }
 
@@ -141,7 +141,9 @@ auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot decode path \"" << path << "\"");
   }
-  if (PyList_Insert(syspath, 0, pname)) {
+  auto status = PyList_Insert(syspath, 0, pname);
+  Py_DECREF(pname);
+  if (status) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot insert path \"" << path << "\"");
   }
@@ -149,7 +151,6 @@ auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
-  Py_DECREF(pname);
   // the reference from PySys_GetObject is borrowed, the caller frees its own
   Py_INCREF(syspath);
   return syspath; 
@@ -277,7 +278,13 @@ auto python_build_args( Args&&... args )
     python_check();
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
-  detail::python_build_args(pargs, 0, std::forward<Args>(args)...);
+  try {
+    detail::python_build_args(pargs, 0, std::forward<Args>(args)...);
+  }
+  catch (...) {
+    Py_DECREF(pargs);
+    throw;
+  }
   return pargs;
 }
 
@@ -294,11 +301,11 @@ auto python_call_function( PyObject * py_func, Args&&... args )
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
   auto pval = PyObject_CallObject(py_func, pargs);
+  Py_DECREF(pargs);
   if (!pval) {
     python_check();
     THROW_RUNTIME_ERROR("Problem calling function.");
   }
-  Py_DECREF(pargs);
   return pval;
 }
 
-- 
2.43.0


From 9fca8b5c1a116873fed659972f24762c37f4ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:57 +0000
Subject: [PATCH 56/78] fix: multi_array: assignment with type conversion did
 not compile

---
 ristra/math/multi_array.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index 854d15d..54ad6ed 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -452,8 +452,7 @@ public:
   //!\brief  assignment with type conversion
   template <typename T2>
   auto & operator= (const multi_array<T2,N...>& rhs) {
-    if ( this != &rhs )
-      for ( counter_type i=0; i<elements; i++ ) elems_[i] = rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] = rhs[i];
     return *this;
   }
 
-- 
2.43.0


From 3660c75c8377b94c35db40bb2b2f2812058a8666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:24 +0000
Subject: [PATCH 57/78] fix: array: construction and assignment with type
 conversion did not compile

---
 ristra/math/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 74d0705..6d833b6 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -99,7 +99,7 @@ public:
   constexpr array(const array<T2,N> &rhs) noexcept
   {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] = rhs.elems_[i]; 
+      elems_[i] = rhs[i];
   }
 
   //! \brief Constructor with variadic arguments.
@@ -332,7 +332,7 @@ public:
   template <typename T2>
   auto & operator= (const array<T2,N>& rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] = rhs.elems_[i];    
+      elems_[i] = rhs[i];
     return *this;
   }
 
-- 
2.43.0


From dbbbc436c26eb7ca07a7f4e7eb5857e980c58b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:47 +0000
Subject: [PATCH 58/78] fix: input_engine: a later resolution still reported
 targets it had found

The set of failed targets was only ever added to, so a target that was
missing in one resolution was listed as unresolved by every later report,
although it had been found in the meantime.
---
 ristra/initialization/input_engine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 72fd700..4ed5f53 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -430,6 +430,7 @@ class input_engine_t
       target_set_t & targets(inp.get_target_set<T>());
       registry<T> & the_registry(inp.get_registry<T>());
       failed_set_t & failures(inp.get_failed_target_set<T>());
+      failures.clear(); // only what this resolution misses
       bool missed_any(false);
       for (auto target : targets) {
         bool found_target(false);
@@ -485,6 +486,7 @@ class input_engine_t
       target_set_t & targets(inp.get_target_set<func_t>());
       registry<func_t> & hc_registry(inp.get_registry<func_t>());
       failed_set_t & failures(inp.get_failed_target_set<func_t>());
+      failures.clear(); // only what this resolution misses
       bool missed_any(false);
       for (auto target : targets) {
         bool found_target(false);
-- 
2.43.0


From 8aab651b38c57d8473a35705fa249bea4a5f3914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:52 +0000
Subject: [PATCH 59/78] fix: to_array: the header did not compile

It named tuple, get and array without std:: and without including them.
---
 ristra/utils/tuple_to_array.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/tuple_to_array.h b/ristra/utils/tuple_to_array.h
index 5699cac..6addac0 100644
--- a/ristra/utils/tuple_to_array.h
+++ b/ristra/utils/tuple_to_array.h
@@ -9,6 +9,12 @@
 
 #pragma once
 
+// system includes
+#include <array>
+#include <cstddef>
+#include <tuple>
+#include <utility>
+
 namespace ristra {
 namespace utils {
 
@@ -24,7 +30,7 @@ template<typename T, typename... U, std::size_t... I>
 inline Array<T, U...>
 to_array(const std::tuple<T, U...>& t, std::index_sequence<I...>)
 {
-  return Array<T, U...>{ get<I>(t)... };
+  return Array<T, U...>{ std::get<I>(t)... };
 }
 
 } // detail
@@ -35,7 +41,7 @@ to_array(const std::tuple<T, U...>& t, std::index_sequence<I...>)
 ////////////////////////////////////////////////////////////////////////////////
 template<typename T, typename... U>
 inline detail::Array<T, U...>
-to_array(const tuple<T, U...>& t)
+to_array(const std::tuple<T, U...>& t)
 {
   using IndexTuple = std::make_index_sequence<1+sizeof...(U)>;
   return detail::to_array(t, IndexTuple());
-- 
2.43.0


From 5d70d54d13766ec60e5a35d17d61e871830daee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:42 +0000
Subject: [PATCH 60/78] fix: extract_extents: did not compile, and would have
 returned a local

The helper returned a pointer to a local array and the function bound a
reference to it.  The extents are now returned by value.
---
 ristra/utils/type_traits.h      | 2 +-
 ristra/utils/type_traits_impl.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/type_traits.h b/ristra/utils/type_traits.h
index 7dbb32a..424b79e 100644
--- a/ristra/utils/type_traits.h
+++ b/ristra/utils/type_traits.h
@@ -180,7 +180,7 @@ using has_call_operator = detail::has_call_operator_impl<T, void, Args...>;
 //! \brief Extract the extents from an array of type T.
 ////////////////////////////////////////////////////////////////////////////////
 template <typename T>
-constexpr auto & extract_extents()
+constexpr auto extract_extents()
 {
   using Indices = std::make_index_sequence<std::rank<T>::value>;
   return detail::extract_extents_helper<T>(Indices{});
diff --git a/ristra/utils/type_traits_impl.h b/ristra/utils/type_traits_impl.h
index e18d6f0..24089bb 100644
--- a/ristra/utils/type_traits_impl.h
+++ b/ristra/utils/type_traits_impl.h
@@ -10,6 +10,8 @@
 #pragma once
 
 // system includes
+#include <array>
+#include <cstddef>
 #include <utility>
 #include <type_traits>
 
@@ -106,9 +108,8 @@ struct is_container {
 template <typename T, std::size_t... I>
 constexpr auto extract_extents_helper(std::index_sequence<I...>)
 {
-  constexpr std::size_t extents[std::rank<T>::value] = {
+  return std::array<std::size_t, std::rank<T>::value>{
     std::extent<T, I>::value...};
-  return extents;
 }
 
 } // detail::
-- 
2.43.0


From 2fcc59b2069adeb3744f72de9f18c0e7d57a2554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 61/78] fix: array, multi_array: +=, -= and *= with one of
 their own elements used a changed value

---
 ristra/math/array.h       | 9 ++++++---
 ristra/math/multi_array.h | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 6d833b6..061f4f0 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -361,8 +361,9 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator+=(const T2 & val) {
+    const auto x = val; // val may be one of our own elements
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] += val;    
+      elems_[i] += x;
     return *this;
   }
 
@@ -381,8 +382,9 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator-=(const T2 & val) {
+    const auto x = val; // val may be one of our own elements
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] -= val;    
+      elems_[i] -= x;
     return *this;
   }
 
@@ -402,8 +404,9 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator*=(const T2 & val) {
+    const auto x = val; // val may be one of our own elements
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= val;    
+      elems_[i] *= x;
     return *this;
   }
 
diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index 54ad6ed..6b228d4 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -479,7 +479,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator+=(const T2 & val) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] += val;    
+    const auto x = val; // val may be one of our own elements
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] += x;
     return *this;
   }
 
@@ -497,7 +498,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator-=(const T2 & val) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= val;    
+    const auto x = val; // val may be one of our own elements
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= x;
     return *this;
   }
 
@@ -516,7 +518,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator*=(const T2 & val) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= val;    
+    const auto x = val; // val may be one of our own elements
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= x;
     return *this;
   }
 
-- 
2.43.0


From aea1b15a510a4b06f034996ea37e38849e41bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 62/78] fix: array, multi_array: compound arithmetic with
 another element type did not compile

---
 ristra/math/array.h       | 8 ++++----
 ristra/math/multi_array.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 061f4f0..0646ad9 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -352,7 +352,7 @@ public:
   template <typename T2>
   auto & operator+=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] += rhs.elems_[i];    
+      elems_[i] += rhs[i];
     return *this;
   }
 
@@ -373,7 +373,7 @@ public:
   template <typename T2>
   auto & operator-=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] -= rhs.elems_[i];    
+      elems_[i] -= rhs[i];
     return *this;
   }
 
@@ -395,7 +395,7 @@ public:
   template <typename T2> 
   auto & operator*=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= rhs.elems_[i];    
+      elems_[i] *= rhs[i];
     return *this;
   }
 
@@ -416,7 +416,7 @@ public:
   template <typename T2>
   auto & operator/=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] /= rhs.elems_[i];    
+      elems_[i] /= rhs[i];
     return *this;
   }
 
diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index 6b228d4..e711f7d 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -470,7 +470,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator+=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] += rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] += rhs[i];
     return *this;
   }
 
@@ -489,7 +489,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator-=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= rhs[i];
     return *this;
   }
 
@@ -509,7 +509,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2> 
   auto & operator*=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= rhs[i];
     return *this;
   }
 
@@ -528,7 +528,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= rhs[i];
     return *this;
   }
 
-- 
2.43.0


From 77dab1f7e551bc14edf54c716e76878b6416a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 63/78] fix: tuple: compound arithmetic with one of its own
 components used a changed value

---
 ristra/math/tuple.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ristra/math/tuple.h b/ristra/math/tuple.h
index 7d37c31..0913f7b 100644
--- a/ristra/math/tuple.h
+++ b/ristra/math/tuple.h
@@ -62,9 +62,10 @@ void plus_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 template <typename... Types, typename U>
 void plus_equal( tuple<Types...>& lhs, const U & rhs )
 {
+  const auto x = rhs; // rhs may be one of our own components
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
-                           tup = tup + rhs;
+                           tup = tup + x;
                          } );                        
 }
 //! @}
@@ -130,9 +131,10 @@ void minus_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 template <typename... Types, typename U>
 void minus_equal( tuple<Types...>& lhs, const U & rhs )
 {
+  const auto x = rhs; // rhs may be one of our own components
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
-                           tup = tup - rhs;
+                           tup = tup - x;
                          } );                        
 }
 //! @}
@@ -196,9 +198,10 @@ void multiplies_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 template <typename... Types, typename U>
 void multiplies_equal( tuple<Types...>& lhs, const U & rhs )
 {
+  const auto x = rhs; // rhs may be one of our own components
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
-                           tup = tup * rhs;
+                           tup = tup * x;
                          } );                        
 }
 //! @}
@@ -265,9 +268,10 @@ void divides_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 template <typename... Types, typename U>
 void divides_equal( tuple<Types...>& lhs, const U & rhs )
 {
+  const auto x = rhs; // rhs may be one of our own components
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
-                           tup = tup / rhs;
+                           tup = tup / x;
                          } );                        
 }
 //! @}
-- 
2.43.0


From 8958d0d09960e144aeda1ae04f45f3c88c985bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:12 +0000
Subject: [PATCH 64/78] fix: input_engine: a target no longer found still gave
 its earlier value

---
 ristra/initialization/input_engine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 4ed5f53..7659cb7 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -451,6 +451,7 @@ class input_engine_t
             continue;
           }
         }
+        the_registry.erase(target); // found earlier, but not any more
         missed_any = true;
         failures.insert(target);
       } // for(target : targets)
@@ -511,6 +512,7 @@ class input_engine_t
             continue;
           }
         }
+        hc_registry.erase(target); // found earlier, but not any more
         missed_any = true;
         failures.insert(target);
       } // for target in targets
-- 
2.43.0


From b9cdfc6a44798e4dd9763d98cf56ea443a0fa0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:50 +0000
Subject: [PATCH 65/78] fix: average of negative integers

The sum was divided by an unsigned count, which turns a negative integer sum
into a huge positive one: the average of -1, -1, -1 was 1431655764.
---
 ristra/math/general.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index 4ee9c20..c36671d 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -19,6 +19,7 @@
 // system includes
 #include <algorithm> 
 #include <cassert>
+#include <cstddef>
 #include <numeric>
 #include <cmath>
 
@@ -42,7 +43,8 @@ average( T && t, Types&&... args )
 { 
   auto res( t ); // first one
   detail::average(res, std::forward<Types>(args)...); // sum the rest
-  res /=  ( sizeof...(args) + 1 ); // divide by number
+  // divide by number, with a signed count so that negative integers stay negative
+  res /= static_cast<std::ptrdiff_t>( sizeof...(args) + 1 );
   return res;
 }
 
@@ -83,7 +85,8 @@ auto average( const V<T, Args...> & vals )
   assert( vals.size() > 0 && "not enough values" );
   T avg(0);
   for ( const auto & x : vals ) avg += x;
-  avg /= vals.size();
+  // a signed count, so that negative integers stay negative
+  avg /= static_cast<std::ptrdiff_t>( vals.size() );
   return avg;
 }
 
-- 
2.43.0


From 97d21648eac9693cf7159475e11fb2ed2c423d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:50 +0000
Subject: [PATCH 66/78] fix: centroid of points with negative integer
 coordinates

The sum was divided by the unsigned size of the list.
---
 ristra/geometry/point.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/geometry/point.h b/ristra/geometry/point.h
index 98a77cb..63b5878 100644
--- a/ristra/geometry/point.h
+++ b/ristra/geometry/point.h
@@ -14,6 +14,7 @@
 
 // system includes
 #include <cmath>
+#include <cstddef>
 
 namespace ristra  {
 namespace geometry {
@@ -68,7 +69,7 @@ auto centroid(const LIST<point<T, D>> & vert_list)
   point<T, D> tmp(0.0);
   for (auto v : vert_list)
     tmp += v;
-  tmp /= vert_list.size();
+  tmp /= static_cast<std::ptrdiff_t>(vert_list.size());
   return tmp;
 } // centroid
 
@@ -79,7 +80,7 @@ auto centroid(std::initializer_list<point<T, D>> vert_list)
   point<T, D> tmp(0.0);
   for (auto v : vert_list)
     tmp += v;
-  tmp /= vert_list.size();
+  tmp /= static_cast<std::ptrdiff_t>(vert_list.size());
   return tmp;
 } // centroid
 
-- 
2.43.0


From a28697eeb323ca6a4aa13ffa02c14a28221ef77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:49 +0000
Subject: [PATCH 67/78] fix: fixed_vector: insert accepted a count so large
 that size+count wraps

The capacity check passed and the elements were written past the storage.
---
 ristra/utils/fixed_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 6a59279..d49c104 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -212,7 +212,8 @@ public:
 
   iterator insert( const_iterator pos, size_type count, const T& value ) 
   {
-    assert( size()+count <= capacity() );
+    // (the sum could wrap around)
+    assert( count <= capacity()-size() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
     // if zero size is inserted, return pos
-- 
2.43.0


From 2cbbdcdc7020a03f9e2ebc6171094565fdb052dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:49 +0000
Subject: [PATCH 68/78] fix: fixed_vector: elements added by resize or
 construction with a count

They had whatever value the storage held (elements erased before, or
indeterminate), not a value-initialized one as in std::vector.
---
 ristra/utils/fixed_vector.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index d49c104..9007c20 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -67,9 +67,9 @@ public:
   }
 
   explicit fixed_vector( size_type count ) :
-    length_( count )
+    length_( 0 )
   {
-    assert( size() <= capacity() );
+    resize( count );
   }
 
   template< 
@@ -340,8 +340,7 @@ public:
 
   void resize( size_type count ) 
   {
-    length_ = count;
-    assert( size() <= capacity() );
+    resize( count, value_type() );
   }
   void resize( size_type count, const value_type& value )
   {
-- 
2.43.0


From 35d2455be54b4a089c86470d9fdb3694ac6c9c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:08 +0000
Subject: [PATCH 69/78] fix: getCatalystScripts: scripts of an input file in
 the current folder

Without a directory in the name of the input file the name itself was taken
as the directory of the scripts ("input.json/script.py").
---
 ristra/io/catalyst/utils/catalystUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index 95f8b7f..6877e18 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -20,7 +20,8 @@ inline std::vector<std::string> getCatalystScripts(std::string inputFilename)
       //
       // Find the path 
       std::size_t foundBackslash = inputFilename.find_last_of("/");
-      std::string catalystPath = inputFilename.substr(0,foundBackslash);
+      std::string catalystPath = foundBackslash == std::string::npos ?
+        std::string(".") : inputFilename.substr(0,foundBackslash);
 
       //
       // Pass JSON file to json parser and
-- 
2.43.0


From 81590ed6cf5e6034e3ff2adc8cbd0ab6060150b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 70/78] fix: finalizeAdaptor did not return a value

---
 ristra/io/catalyst/adaptor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/io/catalyst/adaptor.h b/ristra/io/catalyst/adaptor.h
index 71d6f37..f1750fd 100644
--- a/ristra/io/catalyst/adaptor.h
+++ b/ristra/io/catalyst/adaptor.h
@@ -127,6 +127,8 @@ inline vtkCPProcessor* finalizeAdaptor(vtkCPProcessor* processor)
 
   clock.stop("finalizeAdaptor");
   std::cout << "Finalize Catalyst Adaptor:" << clock.getDuration("finalizeAdaptor") << " s" << std::endl;
+
+  return processor;
 }
 
 
-- 
2.43.0


From 0e7bc14e6290d64755713826c2d30b7f80d83b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 71/78] fix: addVectorData made VTK delete the caller's data

---
 ristra/io/catalyst/vtk/unstructuredGrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/vtk/unstructuredGrid.h b/ristra/io/catalyst/vtk/unstructuredGrid.h
index 121dbe5..0d65574 100644
--- a/ristra/io/catalyst/vtk/unstructuredGrid.h
+++ b/ristra/io/catalyst/vtk/unstructuredGrid.h
@@ -415,7 +415,7 @@ inline void UnstructuredGrid::addVectorData(std::string varName, int numPoints,
 	temp->SetNumberOfTuples(numPoints);
   	temp->SetNumberOfComponents(numComponents);
   	temp->SetName(varName.c_str());
-  	temp->SetArray(data, numPoints*numComponents, false, true);
+  	temp->SetArray(data, numPoints*numComponents, 1); // 1: the data stays the caller's
 
   	if (type == 0) // point
   		uGrid->GetPointData()->AddArray(temp);
-- 
2.43.0


From c2a573a44ff564a7de7e91ab019839068a4e8a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 72/78] fix: UnstructuredGrid::reset deleted objects that are
 still owned

---
 ristra/io/catalyst/vtk/unstructuredGrid.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/io/catalyst/vtk/unstructuredGrid.h b/ristra/io/catalyst/vtk/unstructuredGrid.h
index 0d65574..fa76cff 100644
--- a/ristra/io/catalyst/vtk/unstructuredGrid.h
+++ b/ristra/io/catalyst/vtk/unstructuredGrid.h
@@ -288,8 +288,9 @@ inline void UnstructuredGrid::pushPointsToGrid()
 
 inline void UnstructuredGrid::reset()
 {
-	pnts->Delete();
-	cells->Delete();
+	// the smart pointers release the previous objects
+	pnts = vtkSmartPointer<vtkPoints>::New();
+	cells = vtkSmartPointer<vtkCellArray>::New();
 
 	idx = 0;
 }
-- 
2.43.0


From 13ea5003f21698056a8fd0d5c44d6dd568404b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 73/78] fix: data arrays added to a grid were never released

---
 ristra/io/catalyst/vtk/unstructuredGrid.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ristra/io/catalyst/vtk/unstructuredGrid.h b/ristra/io/catalyst/vtk/unstructuredGrid.h
index fa76cff..138186c 100644
--- a/ristra/io/catalyst/vtk/unstructuredGrid.h
+++ b/ristra/io/catalyst/vtk/unstructuredGrid.h
@@ -335,6 +335,8 @@ inline void UnstructuredGrid::addVectorData(std::string varName, int numPoints,
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -365,6 +367,8 @@ inline void UnstructuredGrid::addScalarData(std::string varName, T *data, size_t
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -384,6 +388,8 @@ inline void UnstructuredGrid::addVectorData(std::string varName, std::vector< st
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -403,6 +409,8 @@ inline void UnstructuredGrid::addTensorData(std::string varName, std::vector< st
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -519,6 +527,8 @@ inline void setScalarData(std::string varName, T *data, size_t numPoints, int ty
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -538,6 +548,8 @@ inline void setVectorData(std::string varName, std::vector< std::vector<T> > dat
   		uGrid->GetPointData()->AddArray(temp);	//SetVectors(temp)
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -557,6 +569,8 @@ inline void setTensorData(std::string varName, std::vector< std::vector<T> > dat
   		uGrid->GetPointData()->AddArray(temp);	//SetTensors(temp)
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
-- 
2.43.0


From c8c3eacce22f848e0041181f28262842bf0eac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:50 +0000
Subject: [PATCH 74/78] fix: FleCSI mesh glue names the standard headers and
 std:: it uses

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index a00021b..a385904 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -27,10 +27,15 @@
 #include <vtkLongLongArray.h>
 
 // system includes
+#include <algorithm>
+#include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <numeric>
 #include <sstream>
+#include <string>
 #include <utility>
+#include <vector>
 
 
 
@@ -192,14 +197,14 @@ inline void outputVTKUnstructredGrid(std::string filename, vtkSmartPointer<vtkUn
 inline void outputFile(std::string filename, std::string content)
 {
 	// For debugging: Will output info from a string as a file for debugging
-	ofstream myfile(filename.c_str());
+	std::ofstream myfile(filename.c_str());
   	if (myfile.is_open())
   	{
     	myfile << content;
     	myfile.close();
   	}
   	else 
-  		cout << "Unable to open file " << filename << std::endl;;
+  		std::cout << "Unable to open file " << filename << std::endl;;
 }
 
 
-- 
2.43.0


From 5f4dc7743c08a9de53fcf370eca18712eba3cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:54 +0000
Subject: [PATCH 75/78] fix: time_utils.h includes the header of the error
 macro it uses

---
 ristra/utils/time_utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/utils/time_utils.h b/ristra/utils/time_utils.h
index dd7a553..a7293fe 100644
--- a/ristra/utils/time_utils.h
+++ b/ristra/utils/time_utils.h
@@ -10,6 +10,7 @@
 #pragma once
 
 #include "ristra/ristra-config.h"
+#include "ristra/assertions/errors.h"
 
 //! system includes
 #ifdef RISTRA_ENABLE_MPI
-- 
2.43.0


From f6feb5b7bf92351b82b3a77657e9616f8198888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 76/78] fix: initVTKUnstructuredGrid gives its caller the new
 grid

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index a385904..58ed37e 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -94,7 +94,7 @@ auto validate_string = []( auto && str )
 };
 
 
-inline void initVTKUnstructuredGrid(vtkSmartPointer<vtkUnstructuredGrid> grid)
+inline void initVTKUnstructuredGrid(vtkSmartPointer<vtkUnstructuredGrid> & grid)
 {
 	grid = vtkSmartPointer<vtkUnstructuredGrid>::New();
 }
-- 
2.43.0


From 72be1640c8175fa00c5d361259e6d2d8dd2a1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 77/78] fix: outputVTKUnstructredGrid releases its writer and
 the grid it holds

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index 58ed37e..7115df2 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -191,6 +191,7 @@ inline void outputVTKUnstructredGrid(std::string filename, vtkSmartPointer<vtkUn
 	writer->SetFileTypeToBinary();
 	writer->SetFileName(filename.c_str());
 	writer->Write();
+	writer->Delete();
 }
 
 
-- 
2.43.0


From 5991736fa8445580f62826e239d4a7f7a4737e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:11 +0000
Subject: [PATCH 78/78] fix: createMesh keeps two-dimensional coordinates
 inside their array

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index 7115df2..ef1bc97 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -293,7 +293,7 @@ inline vtkSmartPointer<vtkUnstructuredGrid> createMesh(mesh_t &m)
     	int count = 0;
       	for ( int i=0; i<num_dims; i++ )
       	{
-      		vertex_coord[ v.id()*3 + i] = coords[i];
+      		vertex_coord[ v.id()*num_dims + i] = coords[i];
       		vertex.push_back(coords[i]);
       		count++;
       	}
-- 
2.43.0

