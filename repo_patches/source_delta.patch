From 04a33950a76da2f2901dc78c5ae34d9e497d181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 01/77] fix: copy the right extent in non-unit-stride row-major
 from column-major assignment

---
 src/ovxx/assign/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index 24bc4bd..f09a850 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -210,7 +210,7 @@ void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
   {
     copy(lhs_data.ptr(), lhs_data.stride(0), lhs_data.stride(1),
 	 rhs_data.ptr(), rhs_data.stride(0), rhs_data.stride(1),
-	 lhs.size(2, 1), lhs.size(2, 0));
+	 lhs.size(2, 0), lhs.size(2, 1));
   }
 }
 
-- 
2.43.0


From f6a09005a8a53e74b061be7a0b09e857ebfb97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 02/77] fix: let split-complex matrices be assigned across
 dimension orders

---
 src/ovxx/assign/copy.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index f09a850..ee4e07c 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -58,6 +58,18 @@ transpose(T1 *lhs, stride_type lhs_col_stride,
       lhs[r+c*lhs_col_stride] = rhs[r*rhs_row_stride+c];
 }
 
+template <typename T1, typename T2>
+void
+transpose(std::pair<T1*, T1*> const &lhs, stride_type lhs_col_stride,
+	  std::pair<T2 const*, T2 const*> const &rhs, stride_type rhs_row_stride,
+	  length_type lhs_rows, length_type lhs_cols)
+{
+  transpose(lhs.first, lhs_col_stride, rhs.first, rhs_row_stride,
+	    lhs_rows, lhs_cols);
+  transpose(lhs.second, lhs_col_stride, rhs.second, rhs_row_stride,
+	    lhs_rows, lhs_cols);
+}
+
 template <typename T>
 void
 copy(T *lhs, stride_type lhs_stride,
-- 
2.43.0


From feacfa2dbb4bca451973c572eb37df5f007470d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 03/77] fix: compute jmul of mixed-precision operands in the
 promoted type

---
 src/ovxx/math/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/math/scalar.hpp b/src/ovxx/math/scalar.hpp
index bb8b48b..b6e467c 100644
--- a/src/ovxx/math/scalar.hpp
+++ b/src/ovxx/math/scalar.hpp
@@ -368,8 +368,8 @@ inline typename Promotion<complex<T1>, complex<T2> >::type
 jmul(complex<T1> t1, complex<T2> t2) VSIP_NOTHROW 
 {
   typename Promotion<complex<T1>, complex<T2> >::type retn(t1);
-  t1 *= conj(t2);
-  return t1;
+  retn *= conj(t2);
+  return retn;
 }
 
 template <typename T1, typename T2>
-- 
2.43.0


From dbef55db3f3c22eb330243e8b87204505241c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 04/77] fix: give minmg the scalar result type for complex
 operands

---
 src/ovxx/view/fns_elementwise.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/view/fns_elementwise.hpp b/src/ovxx/view/fns_elementwise.hpp
index 6ce8eda..020a3b4 100644
--- a/src/ovxx/view/fns_elementwise.hpp
+++ b/src/ovxx/view/fns_elementwise.hpp
@@ -447,7 +447,7 @@ OVXX_BINARY_FUNC(max, Max)
 OVXX_BINARY_FUNC_SCALAR_RETN(maxmg, Maxmg)
 OVXX_BINARY_FUNC_SCALAR_RETN(maxmgsq, Maxmgsq)
 OVXX_BINARY_FUNC(min, Min)
-OVXX_BINARY_FUNC(minmg, Minmg)
+OVXX_BINARY_FUNC_SCALAR_RETN(minmg, Minmg)
 OVXX_BINARY_FUNC_SCALAR_RETN(minmgsq, Minmgsq)
 OVXX_BINARY_FUNC_RETN(ne, Ne, bool)
 OVXX_BINARY_FUNC(pow, Pow)
-- 
2.43.0


From 4788295d370462c6ef601427fb51e8126062923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 05/77] fix: let blocks without user storage be released and
 admitted with update

---
 src/ovxx/storage/manager.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/storage/manager.hpp b/src/ovxx/storage/manager.hpp
index 455d71a..edce52e 100644
--- a/src/ovxx/storage/manager.hpp
+++ b/src/ovxx/storage/manager.hpp
@@ -206,7 +206,8 @@ public:
   }
   void admit(bool update=true)
   {
-    if (!admitted_ && !use_user_storage_ && update)
+    if (!admitted_ && !use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	host_storage_.put(i, user_storage_.get(i));
     admitted_ = true;
@@ -214,7 +215,8 @@ public:
   void release(bool update = true)
   {
     if (!admitted_) return;
-    if (!use_user_storage_ && update)
+    if (!use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	user_storage_.put(i, host_storage_.get(i));
     admitted_ = false;
-- 
2.43.0


From 9ab7d7b4ac1687c8adc28dc86fa013b7fc689229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 06/77] fix: assign interleaved-complex matrices by whole
 complex elements

---
 src/ovxx/assign/copy.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index ee4e07c..6a9d441 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -147,11 +147,22 @@ copy(std::pair<T*, T*> const &lhs,
        rows, cols);
 }
 
+// The layout to access a block's data with. Interleaved data are accessed
+// as an array of complex values, so pointers and strides refer to elements.
+template <typename B>
+struct data_layout
+{
+  typedef typename
+  adjust_layout_storage_format<
+    is_split_block<B>::value ? split_complex : array,
+    typename get_block_layout<B>::type>::type type;
+};
+
 template <typename LHS, typename RHS>
 void copy(LHS &lhs, RHS const &rhs, row2_type, row2_type)
 {
-  vsip::dda::Data<LHS, dda::out> lhs_data(lhs);
-  vsip::dda::Data<RHS, dda::in> rhs_data(rhs);
+  vsip::dda::Data<LHS, dda::out, typename data_layout<LHS>::type> lhs_data(lhs);
+  vsip::dda::Data<RHS, dda::in, typename data_layout<RHS>::type> rhs_data(rhs);
 
   copy(lhs_data.ptr(), lhs_data.stride(0), lhs_data.stride(1),
        rhs_data.ptr(), rhs_data.stride(0), rhs_data.stride(1),
@@ -161,8 +172,8 @@ void copy(LHS &lhs, RHS const &rhs, row2_type, row2_type)
 template <typename LHS, typename RHS>
 void copy(LHS &lhs, RHS const &rhs, col2_type, col2_type)
 {
-  vsip::dda::Data<LHS, dda::out> lhs_data(lhs);
-  vsip::dda::Data<RHS, dda::in> rhs_data(rhs);
+  vsip::dda::Data<LHS, dda::out, typename data_layout<LHS>::type> lhs_data(lhs);
+  vsip::dda::Data<RHS, dda::in, typename data_layout<RHS>::type> rhs_data(rhs);
 
   copy(lhs_data.ptr(), lhs_data.stride(1), lhs_data.stride(0),
        rhs_data.ptr(), rhs_data.stride(1), rhs_data.stride(0),
@@ -172,8 +183,8 @@ void copy(LHS &lhs, RHS const &rhs, col2_type, col2_type)
 template <typename LHS, typename RHS>
 void copy(LHS &lhs, RHS const &rhs, col2_type, row2_type)
 {
-  vsip::dda::Data<LHS, dda::out> lhs_data(lhs);
-  vsip::dda::Data<RHS, dda::in> rhs_data(rhs);
+  vsip::dda::Data<LHS, dda::out, typename data_layout<LHS>::type> lhs_data(lhs);
+  vsip::dda::Data<RHS, dda::in, typename data_layout<RHS>::type> rhs_data(rhs);
 
   if (is_same_ptr(lhs_data.ptr(), rhs_data.ptr()))
   {
@@ -201,8 +212,8 @@ void copy(LHS &lhs, RHS const &rhs, col2_type, row2_type)
 template <typename LHS, typename RHS>
 void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
 {
-  vsip::dda::Data<LHS, dda::out> lhs_data(lhs);
-  vsip::dda::Data<RHS, dda::in> rhs_data(rhs);
+  vsip::dda::Data<LHS, dda::out, typename data_layout<LHS>::type> lhs_data(lhs);
+  vsip::dda::Data<RHS, dda::in, typename data_layout<RHS>::type> rhs_data(rhs);
 
   if (is_same_ptr(lhs_data.ptr(), rhs_data.ptr()))
   {
-- 
2.43.0


From 763823e081ec404812621345471d04f1968cd7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 07/77] fix: let array access to interleaved blocks compile

---
 src/ovxx/dda/accessor.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 6c97dc3..abef471 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -598,9 +598,15 @@ public:
   int cost() const { return use_direct_ ? 0 : 2;}
 
   ptr_type ptr()
-  { return use_direct_ ? block_.ptr() : storage_.ptr();}
+  {
+    return use_direct_ ?
+      pointer_cast<ptr_type>(block_.ptr()) : ptr_type(storage_.ptr());
+  }
   const_ptr_type ptr() const
-  { return use_direct_ ? block_.ptr() : storage_.ptr();}
+  {
+    return use_direct_ ?
+      pointer_cast<const_ptr_type>(block_.ptr()) : const_ptr_type(storage_.ptr());
+  }
   stride_type stride(dimension_type d) const
   { return use_direct_ ? block_.stride(dim, d) : layout_.stride(d);}
   length_type size(dimension_type d) const
-- 
2.43.0


From 9eebe9e2cf819af5d84edf480d07dc35bacf628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 08/77] fix: honour the requested alignment for split-complex
 data

---
 src/ovxx/dda/accessor.hpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index abef471..e72c741 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -39,6 +39,16 @@ namespace dda
 {
 using namespace vsip::dda;
 
+/// The size of the memory units strides count: complex elements,
+/// unless real and imaginary parts are stored separately.
+template <typename T>
+inline length_type
+element_size(storage_format_type f)
+{
+  return ovxx::is_complex<T>::value && f == split_complex ?
+    sizeof(T) / 2 : sizeof(T);
+}
+
 /// Determine if 'block' is compatible with
 /// the given layout 'L'.
 template <typename L, typename B>
@@ -93,6 +103,7 @@ is_compatible(B const &block)
   else if (is_packing_aligned<L::packing>::value)
   {
     unsigned alignment = is_packing_aligned<L::packing>::alignment;
+    length_type elem_size = element_size<value_type>(storage_format);
 
     if (!is_aligned_to(block.ptr(), alignment)) return false;
 
@@ -100,12 +111,12 @@ is_compatible(B const &block)
       return block.stride(1, 0) == 1;
     else if (L::dim == 2)
       return block.stride(2, dim1) == 1 &&
-	((block.stride(2, dim0) * sizeof(value_type)) % alignment == 0);
+	((block.stride(2, dim0) * elem_size) % alignment == 0);
     else // L::dim == 3
       return 
 	block.stride(3, dim2) == 1 &&
-	(block.stride(3, dim1) * sizeof(value_type)) % alignment == 0 &&
-	(block.stride(3, dim0) * sizeof(value_type)) % alignment == 0;
+	(block.stride(3, dim1) * elem_size) % alignment == 0 &&
+	(block.stride(3, dim0) * elem_size) % alignment == 0;
   }
   else // any_packing
   {
@@ -170,6 +181,8 @@ is_compatible(B const &block, L const &layout)
   else if (is_aligned(layout_packing(layout)))
   {
     unsigned alignment = layout_alignment(layout);
+    length_type elem_size =
+      element_size<value_type>(layout_storage_format(block_layout));
 
     if (!is_aligned_to(block.ptr(), alignment))
       return false;
@@ -178,12 +191,12 @@ is_compatible(B const &block, L const &layout)
       return block.stride(1, 0) == 1;
     else if (dim == 2)
       return block.stride(2, dim1) == 1 &&
-	((block.stride(2, dim0) * sizeof(value_type)) % alignment == 0);
+	((block.stride(2, dim0) * elem_size) % alignment == 0);
     else // L::dim == 3
       return 
 	block.stride(3, dim2) == 1 &&
-	(block.stride(3, dim1) * sizeof(value_type)) % alignment == 0 &&
-	(block.stride(3, dim0) * sizeof(value_type)) % alignment == 0;
+	(block.stride(3, dim1) * elem_size) % alignment == 0 &&
+	(block.stride(3, dim0) * elem_size) % alignment == 0;
   }
   else // any_packing
   {
@@ -649,7 +662,8 @@ public:
       use_direct_(!force_copy && is_compatible(b, rtl)),
       layout_(use_direct_ ?
 	      Applied_layout<Rt_layout<D> >(empty_layout) :
-	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					element_size<value_type>(rtl.storage_format))),
       storage_(use_direct_ ? 0 : layout_.total_size(), rtl.storage_format)
   {
     sync_in();
@@ -661,7 +675,8 @@ public:
       use_direct_(!force_copy && is_compatible(b, rtl)),
       layout_(use_direct_ ?
 	      Applied_layout<Rt_layout<D> >(empty_layout) :
-	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					element_size<value_type>(rtl.storage_format))),
       storage_(use_direct_ ? 0 : layout_.total_size(),
 	       buffer ? buffer :
 	       // yuck !
@@ -737,7 +752,8 @@ public:
 
   Accessor(B &b, Rt_layout<D> const& rtl, bool /*force_copy*/)
     : block_(b),
-      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					element_size<value_type>(rtl.storage_format))),
       storage_(layout_.total_size(), rtl.storage_format)
   {
     sync_in();
@@ -746,7 +762,8 @@ public:
   Accessor(B &b, Rt_layout<D> const &rtl, bool /*force_copy*/,
 	   non_const_ptr_type buffer, length_type buffer_size)
     : block_(b),
-      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					element_size<value_type>(rtl.storage_format))),
       storage_(layout_.total_size(),
 	       buffer ? buffer :
 	       // yuck !
-- 
2.43.0


From 991ed83b09853907666344977fbacbd72a922858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 09/77] fix: sum long single-precision vectors with their
 stride and element type

---
 src/ovxx/reductions/reductions.hpp | 87 ++++--------------------------
 1 file changed, 11 insertions(+), 76 deletions(-)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index b61caf2..927ccf8 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -131,66 +131,6 @@ template<> struct is_summation<Sum_sq_value> { static bool const value = true;};
 template<> struct is_summation<Mean_value> { static bool const value = true;};
 template<> struct is_summation<Mean_magsq_value> { static bool const value = true;};
 
-// Are intermediate values squared before summing?
-template <template <typename> class R>
-struct is_sum_squared_based { static bool const value = false;};
-
-template<> struct is_sum_squared_based<Sum_sq_value> { static bool const value = true;};
-template<> struct is_sum_squared_based<Mean_magsq_value> { static bool const value = true;};
-
-// Is the result averaged after summing?
-template <template <typename> class R>
-struct is_mean_based { static bool const value = false;};
-
-template<> struct is_mean_based<Mean_value> { static bool const value = true;};
-template<> struct is_mean_based<Mean_magsq_value> { static bool const value = true;};
-
-// Get either only the real part, or both real and imaginary parts, depending
-// on the destination value type.
-template <typename T1, typename T2>
-struct extract
-{
-  static void apply(T1 const& src, T2& dst) { dst = src;}
-};
-
-template <typename T1, typename T2>
-struct extract<complex<T1>, T2>
-{
-  static void apply(complex<T1> const& src, T2& dst) { dst = src.real();}
-};
-
-template <template <typename> class R, typename T>
-T partial_sum(T const *data, std::ptrdiff_t offset, length_type len)
-{
-  T result = T();
-  data += offset;
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-      result += data[i]*data[i];
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += data[i];
-  return result;
-}
-
-template <template <typename> class R, typename T>
-complex<T> partial_sum(std::pair<T const*, T const*> const &data, std::ptrdiff_t offset, length_type len)
-{
-  complex<T> result = complex<T>();
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-    {
-      complex<T> val = 
-        complex<T>(data.first[i + offset], data.second[i + offset]);
-      result += val*val;
-    }
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += complex<T>(data.first[i + offset], data.second[i + offset]);
-
-  return result;
-}
-
 } // namespace ovxx::reduction
 
 template <template <typename> class R, typename V>
@@ -280,24 +220,19 @@ struct Evaluator<op::reduce<R>, be::generic,
       length_type const last_subblock_size = length % max_length ?
         length % max_length : max_length;
 
-      vsip::dda::Data<B, vsip::dda::in> data(a);
-
-      typename B::value_type result = 0;
-      index_type sb = 0;
-      for (; sb < subblocks - 1; ++sb)
+      typedef typename B::value_type V;
+      typename R<V>::accum_type state = R<V>::initial();
+      for (index_type sb = 0; sb < subblocks; ++sb)
       {
-        result += partial_sum<R>(data.ptr(), sb * max_length, max_length);
+        index_type const first = sb * max_length;
+        index_type const last =
+          first + (sb + 1 < subblocks ? max_length : last_subblock_size);
+        typename R<V>::accum_type partial = R<V>::initial();
+        for (index_type i = first; i < last; ++i)
+          partial = R<V>::update(partial, a.get(i));
+        state += partial;
       }
-      result += partial_sum<R>(data.ptr(), sb * max_length, last_subblock_size);
-
-      // Partial sums are accumlated in the view's natural type, even
-      // for magnitude-of-squared values where the imaginary part is zero.
-      // The result type is real in those cases, so we extract the desired
-      // part depending on the type being returned.
-      extract<typename B::value_type, T>::apply(result, r);
-
-      if (is_mean_based<R>::value)
-        r /= length;
+      r = R<V>::value(state, length);
     }
   }
 };
-- 
2.43.0


From 4a09890e7c70ed93ec5aad451ecbd9969cdb26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 10/77] fix: keep the precision of double-precision complex dot
 products

---
 src/ovxx/lapack/blas.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 8e9ba34..d0cacb9 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -70,7 +70,7 @@ F(int n,					\
 {						\
   if (incx < 0) x += incx * (n-1);		\
   if (incy < 0) y += incy * (n-1);		\
-  float __complex__ retn =			\
+  T __complex__ retn =				\
     B(&n,					\
       const_cast<complex<T>*>(x), &incx,	\
       const_cast<complex<T>*>(y), &incy); 	\
-- 
2.43.0


From ff247dfda098b373509a0257c5228135791a63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 11/77] fix: do not pass interleaved-complex blocks to BLAS

---
 src/ovxx/lapack/blas.hpp | 41 ++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index d0cacb9..a9d3bcd 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -215,6 +215,15 @@ struct traits<complex<double> >
   static char const trans = 'c';
 };
 
+/// BLAS works on arrays of (real or complex) values.
+template <typename B>
+struct is_array_block
+{
+  static bool const value = 
+    !is_complex<typename B::value_type>::value ||
+    get_block_layout<B>::storage_format == array;
+};
+
 } // namespace ovxx::blas
 
 namespace dispatcher
@@ -286,9 +295,9 @@ struct Evaluator<op::outer, be::blas,
     is_same<complex<T>, typename B2::value_type>::value &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0 &&
-    !is_split_block<B0>::value &&
-    !is_split_block<B1>::value &&
-    !is_split_block<B2>::value;
+    blas::is_array_block<B0>::value &&
+    blas::is_array_block<B1>::value &&
+    blas::is_array_block<B2>::value;
 
   static bool rt_valid(B0 &, complex<T>, B1 const &a, B2 const &b)
   {
@@ -352,8 +361,8 @@ struct Evaluator<op::dot, be::blas, T(B0 const&, B1 const&)>
     is_same<T, typename B1::value_type>::value &&
     dda::Data<B0, dda::in>::ct_cost == 0 &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
-    !is_split_block<B0>::value &&
-    !is_split_block<B1>::value;
+    blas::is_array_block<B0>::value &&
+    blas::is_array_block<B1>::value;
 
   static bool rt_valid(B0 const&, B1 const&) { return true;}
 
@@ -383,8 +392,8 @@ struct Evaluator<op::dot, be::blas,
     is_same<complex<T>, typename B1::value_type>::value &&
     dda::Data<B0, dda::in>::ct_cost == 0 &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
-    !is_split_block<B0>::value &&
-    !is_split_block<B1>::value;
+    blas::is_array_block<B0>::value &&
+    blas::is_array_block<B1>::value;
 
   static bool rt_valid(B0 const&, 
 		       expr::Unary<expr::op::Conj, B1, true> const&)
@@ -417,9 +426,9 @@ struct Evaluator<op::prod, be::blas,
     is_same<T, typename B2::value_type>::value &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0 &&
-    !is_split_block<B0>::value &&
-    !is_split_block<B1>::value &&
-    !is_split_block<B2>::value;
+    blas::is_array_block<B0>::value &&
+    blas::is_array_block<B1>::value &&
+    blas::is_array_block<B2>::value;
 
   static bool rt_valid(B0 &, B1 const &a, B2 const &b)
   {
@@ -486,9 +495,9 @@ struct Evaluator<op::prod, be::blas,
     is_same<T, typename B2::value_type>::value &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0 &&
-    !is_split_block<B0>::value &&
-    !is_split_block<B1>::value &&
-    !is_split_block<B2>::value;
+    blas::is_array_block<B0>::value &&
+    blas::is_array_block<B1>::value &&
+    blas::is_array_block<B2>::value;
 
   static bool rt_valid(B0 &, B1 const &a, B2 const &b)
   {
@@ -645,9 +654,9 @@ struct Evaluator<op::gemp, be::blas,
     dda::Data<B0, dda::out>::ct_cost == 0 &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0 &&
-    !is_split_block<B0>::value &&
-    !is_split_block<B1>::value &&
-    !is_split_block<B2>::value;
+    blas::is_array_block<B0>::value &&
+    blas::is_array_block<B1>::value &&
+    blas::is_array_block<B2>::value;
 
   static bool rt_valid(B0 &, T1, B1 const &a, B2 const &b, T2)
   {
-- 
2.43.0


From 6fcded2350d3ea64b07113ca6902df7a04053e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 12/77] fix: do not pass matrices and vectors to BLAS that it
 can not address

---
 src/ovxx/lapack/blas.hpp | 56 ++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index a9d3bcd..848f544 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -115,6 +115,9 @@ gemv(char transa,				\
      T const *x, int incx,			\
      T beta, T *y, int incy)			\
 {						\
+  bool const ntrans = transa == 'n' || transa == 'N';	\
+  if (incx < 0) x += incx * ((ntrans ? n : m) - 1);	\
+  if (incy < 0) y += incy * ((ntrans ? m : n) - 1);	\
   B(&transa,					\
     &m, &n,					\
     &alpha,					\
@@ -224,6 +227,17 @@ struct is_array_block
     get_block_layout<B>::storage_format == array;
 };
 
+/// BLAS addresses matrices by the distance between rows (or columns),
+/// the elements of each being contiguous.
+template <typename D>
+inline bool
+is_matrix(D const &data, bool row_major)
+{
+  dimension_type const minor = row_major ? 1 : 0;
+  return data.stride(minor) == 1 &&
+    data.stride(1 - minor) >= static_cast<stride_type>(data.size(minor));
+}
+
 } // namespace ovxx::blas
 
 namespace dispatcher
@@ -430,18 +444,19 @@ struct Evaluator<op::prod, be::blas,
     blas::is_array_block<B1>::value &&
     blas::is_array_block<B2>::value;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
     typedef typename get_block_layout<B1>::order_type order1_type;
 
+    dda::Data<B0, dda::in> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
     // Note: gemm is used for row type and b is restricted to unit stride.
     // gemv is used for col type and can handle any stride for b.
     bool is_a_row = is_same<order1_type, row2_type>::value;
-    return is_a_row ? ((data_a.stride(1) == 1) && (data_b.stride(0) == 1))
-                    : (data_a.stride(0) == 1);
+    return blas::is_matrix(data_a, is_a_row) &&
+      (!is_a_row || (data_b.stride(0) == 1 && data_r.stride(0) > 0));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -464,7 +479,7 @@ struct Evaluator<op::prod, be::blas,
 		 a.size(2, 1),       // K
 		 1.0,                // alpha
 		 data_b.ptr(), data_b.stride(0),
-		 data_a.ptr(), a.size(2, 1),
+		 data_a.ptr(), data_a.stride(0),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
@@ -499,10 +514,11 @@ struct Evaluator<op::prod, be::blas,
     blas::is_array_block<B1>::value &&
     blas::is_array_block<B2>::value;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::in> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
@@ -510,8 +526,8 @@ struct Evaluator<op::prod, be::blas,
     // gemm is used for col type and a is restricted to unit stride.
     // 
     bool is_b_row = is_same<order2_type, row2_type>::value;
-    return is_b_row ? (data_b.stride(1) == 1) 
-                    : ((data_b.stride(0) == 1) && (data_a.stride(0) == 1));
+    return blas::is_matrix(data_b, is_b_row) &&
+      (is_b_row || (data_a.stride(0) == 1 && data_r.stride(0) > 0));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -544,7 +560,7 @@ struct Evaluator<op::prod, be::blas,
 		 b.size(2, 0),       // K
 		 1.0,                // alpha
 		 data_a.ptr(), data_a.stride(0),
-		 data_b.ptr(), b.size(2, 0),
+		 data_b.ptr(), data_b.stride(1),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
@@ -572,19 +588,19 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
+    typedef typename get_block_layout<B0>::order_type order0_type;
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::in> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    bool is_a_row = is_same<order1_type, row2_type>::value;
-    bool is_b_row = is_same<order2_type, row2_type>::value;
-
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    return blas::is_matrix(data_r, is_same<order0_type, row2_type>::value) &&
+      blas::is_matrix(data_a, is_same<order1_type, row2_type>::value) &&
+      blas::is_matrix(data_b, is_same<order2_type, row2_type>::value);
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -658,19 +674,19 @@ struct Evaluator<op::gemp, be::blas,
     blas::is_array_block<B1>::value &&
     blas::is_array_block<B2>::value;
 
-  static bool rt_valid(B0 &, T1, B1 const &a, B2 const &b, T2)
+  static bool rt_valid(B0 &r, T1, B1 const &a, B2 const &b, T2)
   {
+    typedef typename get_block_layout<B0>::order_type order0_type;
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::in> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    bool is_a_row = is_same<order1_type, row2_type>::value;
-    bool is_b_row = is_same<order2_type, row2_type>::value;
-
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    return blas::is_matrix(data_r, is_same<order0_type, row2_type>::value) &&
+      blas::is_matrix(data_a, is_same<order1_type, row2_type>::value) &&
+      blas::is_matrix(data_b, is_same<order2_type, row2_type>::value);
   }
 
   static void exec(B0 &r, T1 alpha, B1 const &a, B2 const &b, T2 beta)
-- 
2.43.0


From 1957c243e40df72461e53298430c5e484db35dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 13/77] fix: report FFT sizes as domains starting at zero with
 unit stride

---
 src/ovxx/signal/fft/util.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/signal/fft/util.hpp b/src/ovxx/signal/fft/util.hpp
index 0bf1dae..c3b95d8 100644
--- a/src/ovxx/signal/fft/util.hpp
+++ b/src/ovxx/signal/fft/util.hpp
@@ -62,14 +62,20 @@ struct axis<T, T, S> { static int const value = 0;};
 template <dimension_type D, typename I, typename O, int A>
 struct io_size
 {
-  static Domain<D> size(Domain<D> const &dom) { return dom;}
+  static Domain<D> size(Domain<D> const &dom)
+  {
+    Domain<D> retn(dom);
+    for (dimension_type d = 0; d != D; ++d)
+      retn.impl_at(d) = Domain<1>(dom[d].size());
+    return retn;
+  }
 };
 template <dimension_type D, typename T, int A>
 struct io_size<D, complex<T>, T, A>
 {
   static Domain<D> size(Domain<D> const &dom) 
   {
-    Domain<D> retn(dom);
+    Domain<D> retn(io_size<D, T, T, A>::size(dom));
     Domain<1> &mod = retn.impl_at(A);
     mod = Domain<1>(0, 1, mod.size() / 2 + 1); 
     return retn;
-- 
2.43.0


From 770b3cd93f40d41b8ea409e61057fd9be29cf61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 14/77] fix: let a counted pointer be assigned from a null one

---
 src/ovxx/refcounted.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/refcounted.hpp b/src/ovxx/refcounted.hpp
index 1ce0dc0..7d40b64 100644
--- a/src/ovxx/refcounted.hpp
+++ b/src/ovxx/refcounted.hpp
@@ -81,7 +81,7 @@ public:
     {
       if (ptr_) ptr_->decrement_count();
       ptr_ = from.ptr_;
-      ptr_->increment_count();
+      if (ptr_) ptr_->increment_count();
     }
     return *this;
   }
-- 
2.43.0


From ddd01468ca62a37bbea3af3e35a3dcbe1ac26ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 15/77] fix: detach and forget the MPI buffer when the library
 is finalized

---
 src/ovxx/mpi/service.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/mpi/service.cpp b/src/ovxx/mpi/service.cpp
index 733f3de..9b87a2a 100644
--- a/src/ovxx/mpi/service.cpp
+++ b/src/ovxx/mpi/service.cpp
@@ -59,9 +59,19 @@ void finalize(bool final)
   communicator = 0;
   if (final)
   {
-    if (finalize_mpi)
-      MPI_Finalize();
+    int finalized;
+    OVXX_MPI_CHECK_RESULT(MPI_Finalized, (&finalized));
+    if (!finalized)
+    {
+      void *attached;
+      int size;
+      MPI_Buffer_detach(&attached, &size);
+      if (finalize_mpi)
+	MPI_Finalize();
+    }
+    finalize_mpi = false;
     delete[] buffer;
+    buffer = 0;
   }
 }
 
-- 
2.43.0


From 43ee2e7c097b948639c83cdcfb52432a3b5bb418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 16/77] fix: serialize library initialization and finalization
 among threads

---
 src/ovxx/library.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ovxx/library.cpp b/src/ovxx/library.cpp
index 09338e5..123fe9c 100644
--- a/src/ovxx/library.cpp
+++ b/src/ovxx/library.cpp
@@ -50,15 +50,14 @@ unsigned int thread_local_count = 0;
 
 void initialize(int &argc, char **&argv)
 {
-  {
 #if defined(OVXX_ENABLE_THREADING)
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  // Other threads may only proceed once the global part is initialized.
+  std::unique_lock<std::mutex> lock(global_count_guard);
 #endif
-    ++global_count;
-  }
+  bool const first = ++global_count == 1;
   if (thread_local_count++) return;
 
-  if (global_count == 1)
+  if (first)
   {
 #ifndef OVXX_TIMER_SYSTEM
     chrono::high_resolution_clock::init();
@@ -93,7 +92,10 @@ void initialize(int &argc, char **&argv)
 #endif
   }
 #ifdef OVXX_ENABLE_OMP
-  if (global_count == 1)
+#if defined(OVXX_ENABLE_THREADING)
+  lock.unlock();
+#endif
+  if (first)
   {
     // Initialize OpenMP threads
 #pragma omp parallel
@@ -120,12 +122,10 @@ void finalize()
     omp_library = 0;
   }
 #endif
-  {
 #if OVXX_ENABLE_THREADING
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  std::lock_guard<std::mutex> lock(global_count_guard);
 #endif
-    --global_count;
-  }
+  --global_count;
   --thread_local_count;
   if (!thread_local_count)
   {
-- 
2.43.0


From ce996f46da29460a439be00fcd799735cd3017f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 17/77] fix: bin integer samples by the exact bin width in
 Histogram

---
 src/vsip/impl/signal/histo.hpp | 45 ++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/vsip/impl/signal/histo.hpp b/src/vsip/impl/signal/histo.hpp
index b5660df..b5e63e0 100644
--- a/src/vsip/impl/signal/histo.hpp
+++ b/src/vsip/impl/signal/histo.hpp
@@ -13,19 +13,44 @@
 #include <vsip/vector.hpp>
 #include <vsip/matrix.hpp>
 #include <ovxx/dispatch.hpp>
+#include <limits>
 
 namespace vsip
 {
 namespace impl
 {
+/// Map values to bins.
+template <typename T, bool Integral = std::numeric_limits<T>::is_integer>
+struct Hist_bin
+{
+  Hist_bin(T l, T u, length_type n)
+    : min(l), max(u), delta((u - l) / (n - 2)), num(n) {}
+  index_type operator() (T value) const
+  {
+    if (value < min) return 0;
+    else if (value >= max) return num - 1;
+    else return (index_type)(((value - min) / delta) + 1);
+  }
+  T min, max, delta;
+  length_type num;
+};
+
+/// The bin width may not be representable as integer.
 template <typename T>
-inline index_type
-hist_bin(T min, T max, T delta, length_type num, T value)
+struct Hist_bin<T, true>
 {
-  if (value < min) return 0;
-  else if (value >= max) return num - 1;
-  else return (index_type)(((value - min) / delta) + 1);
-} 
+  Hist_bin(T l, T u, length_type n)
+    : min(l), max(u), range((double)u - (double)l), num(n) {}
+  index_type operator() (T value) const
+  {
+    if (value < min) return 0;
+    else if (value >= max) return num - 1;
+    else return (index_type)(((double)value - (double)min) * (num - 2) / range) + 1;
+  }
+  T min, max;
+  double range;
+  length_type num;
+};
 
 template <dimension_type D>
 struct Histogram_accumulator;
@@ -37,11 +62,11 @@ struct Histogram_accumulator<1>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
+    Hist_bin<T> bin(min, max, num);
 
     for (index_type i = 0; i < input.size(1, 0); ++i)
     {
-      index_type n = hist_bin(min, max, delta, num, input.get(i));
+      index_type n = bin(input.get(i));
       hist.put(n, hist.get(n) + 1);
     }
   }
@@ -54,12 +79,12 @@ struct Histogram_accumulator<2>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
+    Hist_bin<T> bin(min, max, num);
 
     for (index_type i = 0; i < input.size(2, 0); ++i)
       for (index_type j = 0; j < input.size(2, 1); ++j)
       {
-	index_type n = hist_bin(min, max, delta, num, input.get(i, j));
+	index_type n = bin(input.get(i, j));
 	hist.put(n, hist.get(n) + 1);
       }
   }
-- 
2.43.0


From 116f86a9850b6e701156be44deec48b2e106c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 18/77] fix: give copies of a Histogram their own counts

---
 src/vsip/impl/signal/histo.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vsip/impl/signal/histo.hpp b/src/vsip/impl/signal/histo.hpp
index b5e63e0..7df2487 100644
--- a/src/vsip/impl/signal/histo.hpp
+++ b/src/vsip/impl/signal/histo.hpp
@@ -155,6 +155,15 @@ public:
     hist_ = hist;
   }
 
+  // A copy has its own counts.
+  Histogram(Histogram const &h) VSIP_THROW((std::bad_alloc))
+    : min_(h.min_),
+      max_(h.max_),
+      hist_(h.hist_.size())
+  {
+    hist_ = h.hist_;
+  }
+
   ~Histogram() VSIP_NOTHROW
   {}
 
-- 
2.43.0


From e8cc99c7060b8365222567255a12e4ad7fc514d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 19/77] fix: evaluate the Bessel function of the Kaiser window
 accurately and without overflow

---
 src/ovxx/signal/window.cpp | 49 +++++++-------------------------------
 1 file changed, 9 insertions(+), 40 deletions(-)

diff --git a/src/ovxx/signal/window.cpp b/src/ovxx/signal/window.cpp
index 68bb9ba..35d8b53 100644
--- a/src/ovxx/signal/window.cpp
+++ b/src/ovxx/signal/window.cpp
@@ -13,6 +13,7 @@
 #include <ovxx/signal/window.hpp>
 #include <vsip/parallel.hpp>
 #include <cmath>
+#include <limits>
 
 namespace ovxx
 {
@@ -45,47 +46,15 @@ template <typename T>
 T
 bessel_I_0(T x)
 {
-  // If -3 <= x < 3, then use polynomial approximation to compute
-  // the I_0(x) (modified bessel function of the first kind).
-  //
-  // This approximation is accurate to withing 1.6 * 10^-7  
-  // [See Abramowitz and Stegun p378, S9.8.1 -- note that
-  //  t = beta * 3 / 3.75, which accounts for the difference
-  //  in the way the constants appear.]
-  //
-  // Otherwise, use iterative method.
-  //
-  const T a1 = 2.2499997;
-  const T a2 = 1.2656208;
-  const T a3 = 0.3163866;
-  const T a4 = 0.0444479;
-  const T a5 = 0.0039444;
-  const T a6 = 0.0002100;
-  T ans;
-
-  if (static_cast<T>(fabs(x)) <= 3.0)
+  // Sum the series I_0(x) = sum_n ((x/2)^n / n!)^2, deriving each term
+  // from the previous one, to avoid overflow of powers and factorials.
+  T const q = x * x * .25;
+  T term = 1;
+  T ans = 1;
+  for (length_type n = 1; term > ans * std::numeric_limits<T>::epsilon() / 4; ++n)
   {
-    x /= 3.0;   
-    x *= x; 
-    ans = 1 + x * (a1 + x * (a2 + x * (a3 + x * (a4 + x * (a5 + x * a6)))));
-  }
-  else
-  {
-    T x1 = x * x * .25;
-    T x0 = x1;
-    T n0 = 1;
-    T diff = 1;
-    ans = 1 + x1;
-    
-    length_type n = 1;
-    while (diff > .00000001)
-    {
-      n++;
-      n0 *= static_cast<T>(n);
-      x1 *= x0;
-      diff = x1 / (n0 * n0);
-      ans += diff;
-    }
+    term *= q / (static_cast<T>(n) * static_cast<T>(n));
+    ans += term;
   }
   return ans;
 }
-- 
2.43.0


From 1d457c219adbebe58e0e5cbd73a5bb41271b4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 20/77] fix: compute double-precision Chebyshev windows in
 double precision

---
 src/ovxx/signal/window.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/signal/window.cpp b/src/ovxx/signal/window.cpp
index 35d8b53..c8c2e32 100644
--- a/src/ovxx/signal/window.cpp
+++ b/src/ovxx/signal/window.cpp
@@ -91,7 +91,7 @@ cheby(length_type len, T ripple) VSIP_THROW((std::bad_alloc))
     cosh(acosh((1.0 + dp) / dp) / (len - 1.0))) / OVXX_PI;
   T x0 = (3.0 - cos(2 * OVXX_PI * df)) / (1.0 + cos(2 * OVXX_PI * df));
 
-  Vector<T> f = ramp(0.f, 1.f / len, len);
+  Vector<T> f = ramp(T(0), T(1) / len, len);
 
   T alpha = (x0 + 1.0) / 2.0;
   T beta  = (x0 - 1.0) / 2.0;
@@ -122,7 +122,7 @@ cheby(length_type len, T ripple) VSIP_THROW((std::bad_alloc))
   {
     /*wf = real(wf).*exp(-j*pi*f);*/ 
     { 
-      wf = wfR * euler(static_cast<scalar_f>(-1 * OVXX_PI) * f);
+      wf = wfR * euler(static_cast<T>(-1 * OVXX_PI) * f);
     }
 
     /* wf(n2+1:len) = -wf(n2+1:len); */
-- 
2.43.0


From 8aaa254ffc074a633818a0a92a0a84626fb838d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 21/77] fix: swap every column in the column-wise freqswap

---
 src/vsip/impl/signal/freqswap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/signal/freqswap.hpp b/src/vsip/impl/signal/freqswap.hpp
index 3a58388..53bc6fc 100644
--- a/src/vsip/impl/signal/freqswap.hpp
+++ b/src/vsip/impl/signal/freqswap.hpp
@@ -62,7 +62,7 @@ freqswap(const_Matrix<T1, B1> in, Matrix<T2, B2> out)
   }
   else
   {
-    for (index_type c = 0; c != rows; ++c)
+    for (index_type c = 0; c != cols; ++c)
       freqswap(in.col(c), out.col(c));
   }
   return out;
-- 
2.43.0


From b78d10a9f2d3eb44bc6250072ce26a547e2dbce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 22/77] fix: make the LAPACK solver objects assignable

---
 src/ovxx/lapack/cholesky.hpp |  1 +
 src/ovxx/lapack/lu.hpp       |  4 +++-
 src/ovxx/lapack/qr.hpp       |  1 +
 src/ovxx/lapack/svd.hpp      | 21 +++++++++++++++++++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/cholesky.hpp b/src/ovxx/lapack/cholesky.hpp
index 6542708..8b3a55f 100644
--- a/src/ovxx/lapack/cholesky.hpp
+++ b/src/ovxx/lapack/cholesky.hpp
@@ -50,6 +50,7 @@ public:
     OVXX_PRECONDITION(length_ == other.length_);
     uplo_ = other.uplo_;
     data_ = other.data_;
+    return *this;
   }
 
   length_type length() const { return length_;}
diff --git a/src/ovxx/lapack/lu.hpp b/src/ovxx/lapack/lu.hpp
index 992057f..9f244c1 100644
--- a/src/ovxx/lapack/lu.hpp
+++ b/src/ovxx/lapack/lu.hpp
@@ -49,8 +49,10 @@ public:
     // TODO: At present assignment requires dimensions to match,
     //       as views aren't resizable.
     OVXX_PRECONDITION(length_ == other.length_);
-    ipiv_ = other.ipiv_;
+    for (index_type i = 0; i < length_; ++i)
+      ipiv_[i] = other.ipiv_[i];
     data_ = other.data_;
+    return *this;
   }
 
   length_type length()const VSIP_NOTHROW { return length_;}
diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index ffe7bb9..5a2b2b8 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -73,6 +73,7 @@ public:
       tau_[i] = other.tau_[i];
     for (index_type i = 0; i != work_.size(); ++i)
       work_[i] = other.work_[i];
+    return *this;
   }
 
   length_type rows() const VSIP_NOTHROW { return rows_;}
diff --git a/src/ovxx/lapack/svd.hpp b/src/ovxx/lapack/svd.hpp
index cee3a65..a935626 100644
--- a/src/ovxx/lapack/svd.hpp
+++ b/src/ovxx/lapack/svd.hpp
@@ -275,6 +275,27 @@ svd<T>::svd(svd const &other) VSIP_THROW((std::bad_alloc))
   }
 }
 
+template <typename T>
+svd<T> &
+svd<T>::operator=(svd const &other) VSIP_THROW((std::bad_alloc))
+{
+  // TODO: At present assignment requires dimensions and storage to match,
+  //       as views aren't resizable.
+  OVXX_PRECONDITION(m_ == other.m_ && n_ == other.n_);
+  OVXX_PRECONDITION(ust_ == other.ust_ && vst_ == other.vst_);
+  data_ = other.data_;
+  q_ = other.q_;
+  pt_ = other.pt_;
+  for (index_type i = 0; i< p_; ++i)
+  {
+    b_d_[i]  = other.b_d_[i];
+    b_e_[i]  = other.b_e_[i];
+    tauq_[i] = other.tauq_[i];
+    taup_[i] = other.taup_[i];
+  }
+  return *this;
+}
+
 template <typename T>
 template <typename B0, typename B1>
 bool
-- 
2.43.0


From 2746fadc22dcfeb6c19e8e740d31013e9a3db565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 23/77] fix: multiply with the skinny Q of a QR decomposition

---
 src/ovxx/lapack/qr.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index 5a2b2b8..eb89845 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -153,11 +153,15 @@ public:
       mqr_lwork = b.size(0);
     }
 
-    Matrix<T, data_block_type> b_int(b.size(0), b.size(1));
-    parallel::assign_local(b_int, b);
+    // The reflectors represent the full Q.  The skinny Q consists of its
+    // first columns, so pad the argument and truncate the product.
+    length_type int_rows = ps == mat_lside ? rows_ : b.size(0);
+    length_type int_cols = ps == mat_lside ? b.size(1) : rows_;
+    Matrix<T, data_block_type> b_int(int_rows, int_cols, T());
+    parallel::assign_local(b_int(Domain<2>(b.size(0), b.size(1))), b);
 
     int work = lapack::mqr_work<T>(side, trans,
-				   b.size(0), b.size(1), k_reflectors);
+				   int_rows, int_cols, k_reflectors);
     mqr_lwork *= work;
     aligned_array<T> mqr_work(mqr_lwork);
     {
@@ -165,15 +169,15 @@ public:
       dda::Data<data_block_type, dda::in> a_data(data_.block());
       lapack::mqr(side,
 		  trans,
-		  b.size(0), b.size(1),
+		  int_rows, int_cols,
 		  k_reflectors,
 		  a_data.ptr(), rows_,
 		  tau_.get(),
-		  b_data.ptr(), b.size(0),
+		  b_data.ptr(), int_rows,
 		  mqr_work.get(), mqr_lwork);
 		
     }
-    parallel::assign_local(x, b_int);
+    parallel::assign_local(x, b_int(Domain<2>(x.size(0), x.size(1))));
     return true;
   }
 
-- 
2.43.0


From c527b0773208878311836840387f99cfff77445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 24/77] fix: solve Toeplitz systems of order one

---
 src/vsip/impl/solver/toepsol.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vsip/impl/solver/toepsol.hpp b/src/vsip/impl/solver/toepsol.hpp
index bac4900..b7ae72d 100644
--- a/src/vsip/impl/solver/toepsol.hpp
+++ b/src/vsip/impl/solver/toepsol.hpp
@@ -64,10 +64,10 @@ VSIP_THROW((std::bad_alloc, computation_error))
 
   scalar_type beta  = 1.0;
   scalar_type scale = ovxx::math::impl_real(t.get(0));
-  T           alpha = ovxx::math::impl_conj(-r.get(0)/scale);
+  T           alpha = T();
   T           tmps; 
   
-  alpha = ovxx::math::impl_conj(-r.get(0)/scale);
+  if (n > 1) alpha = ovxx::math::impl_conj(-r.get(0)/scale);
   
   y.put(0, alpha);
   x.put(0, b.get(0) / scale);
-- 
2.43.0


From 199b629d2830e595a605af31b3e5e3b3e0efcc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 25/77] fix: pass the string lengths that ILAENV expects

---
 src/ovxx/lapack/flapack.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/lapack/flapack.hpp b/src/ovxx/lapack/flapack.hpp
index 6374564..0f0496f 100644
--- a/src/ovxx/lapack/flapack.hpp
+++ b/src/ovxx/lapack/flapack.hpp
@@ -9,6 +9,8 @@
 #define ovxx_lapack_flapack_hpp_
 
 #include <vsip/support.hpp>
+#include <cstddef>
+#include <cstring>
 
 namespace ovxx
 {
@@ -69,13 +71,16 @@ extern "C"
   void dgetrs_(char*, int*, int*, double*, int*, int*, double*, int*, int*);
   void cgetrs_(char*, int*, int*, std::complex<float>*, int*, int*, std::complex<float>*, int*, int*);
   void zgetrs_(char*, int*, int*, std::complex<double>*, int*, int*, std::complex<double>*, int*, int*);
-  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*);
+  // The lengths of the strings are passed as hidden trailing arguments.
+  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*,
+	      std::size_t, std::size_t);
 }
 
 inline int
 ilaenv(int ispec, char const *name, char const *opts, int n1, int n2, int n3, int n4)
 {
-  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4);
+  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4,
+		 std::strlen(name), std::strlen(opts));
 }
 
 #define OVXX_LAPACK_INVALID_ARG abort()
-- 
2.43.0


From 5359770229550aa7d5e55d817c92ec93a82cd133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 26/77] fix: swap views of any storage element by element

---
 src/vsip/selgen.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vsip/selgen.hpp b/src/vsip/selgen.hpp
index 3682879..21efdb1 100644
--- a/src/vsip/selgen.hpp
+++ b/src/vsip/selgen.hpp
@@ -10,6 +10,7 @@
 #define vsip_selgen_hpp_
 
 #include <ovxx/block_traits.hpp>
+#include <ovxx/domain_utils.hpp>
 #include <ovxx/expr/unary.hpp>
 #include <ovxx/expr/generator.hpp>
 #include <vsip/vector.hpp>
@@ -261,14 +262,16 @@ struct Swap
 {
   static void apply(Block1 &block1, Block2 &block2)
   {
-    assert(block1.size() == block2.size());
-    for (index_type i = 0; i != block1.size(); ++i)
+    using namespace ovxx;
+    dimension_type const dim = Block1::dim;
+    Length<dim> ext = extent<dim>(block1);
+    assert(ext == extent<dim>(block2));
+    for (Index<dim> i; valid(ext, i); next(ext, i))
     {
-      typename Block1::value_type tmp = block1.get(i);
-      block1.put(i, block2.get(i));
-      block2.put(i, tmp);
+      typename Block1::value_type tmp = get(block1, i);
+      put(block1, i, get(block2, i));
+      put(block2, i, tmp);
     }
-
   }
 };
 }
-- 
2.43.0


From c4d1e1497b255bed67eb18e201d77f4d6bfe1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 27/77] fix: report the patch that holds a global index

---
 src/ovxx/parallel/scalar_map.hpp | 5 +++++
 src/ovxx/parallel/support.hpp    | 2 +-
 src/vsip/impl/replicated_map.hpp | 5 +++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/parallel/scalar_map.hpp b/src/ovxx/parallel/scalar_map.hpp
index 687fa9f..74188ad 100644
--- a/src/ovxx/parallel/scalar_map.hpp
+++ b/src/ovxx/parallel/scalar_map.hpp
@@ -100,6 +100,11 @@ public:
     const VSIP_NOTHROW
   { return 0;}
 
+  template <dimension_type D1>
+  index_type impl_patch_from_global_index(Index<D1> const& /*idx*/)
+    const VSIP_NOTHROW
+  { return 0;}
+
   template <dimension_type D1>
   Domain<D> impl_local_from_global_domain(index_type /*sb*/,
 					  Domain<D1> const& dom)
diff --git a/src/ovxx/parallel/support.hpp b/src/ovxx/parallel/support.hpp
index 4526ec5..0eee988 100644
--- a/src/ovxx/parallel/support.hpp
+++ b/src/ovxx/parallel/support.hpp
@@ -159,7 +159,7 @@ block_patch_from_global_index(B const &block, Index<D> const &idx)
   for (dimension_type d = 0; d < D; ++d)
     OVXX_PRECONDITION(idx[d] < block.size(D, d));
 
-  return block.map().template impl_subblock_from_global_index<D>(idx);
+  return block.map().template impl_patch_from_global_index<D>(idx);
 }
 
 template <typename B>
diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index e919d59..4a0ec44 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -180,6 +180,11 @@ public:
     const VSIP_NOTHROW
   { return 0;}
 
+  template <dimension_type D1>
+  index_type impl_patch_from_global_index(Index<D1> const& /*idx*/)
+    const VSIP_NOTHROW
+  { return 0;}
+
   template <dimension_type D1>
   Domain<D> impl_local_from_global_domain(index_type /*sb*/,
 					  Domain<D1> const& dom)
-- 
2.43.0


From 6cd2036e4d563914add0b7ccaf288a092c44f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 28/77] fix: convert local to global indices of a view's
 dimension

---
 src/vsip/impl/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/parallel.hpp b/src/vsip/impl/parallel.hpp
index ee91bde..8aa460f 100644
--- a/src/vsip/impl/parallel.hpp
+++ b/src/vsip/impl/parallel.hpp
@@ -276,7 +276,7 @@ typename ovxx::enable_if<ovxx::is_view_type<V>::value, index_type>::type
 global_from_local_index(V const &view, dimension_type dim,
 			index_type sb, index_type idx)
 {
-  return ovxx::parallel::block_global_from_local_index(view, dim, sb, idx);
+  return ovxx::parallel::block_global_from_local_index(view.block(), dim, sb, idx);
 }
 
 /// Determine VIEW's global index corresponding to local index L_IDX
-- 
2.43.0


From f452735f35bc69839354a7efae5bde5586eb69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 29/77] fix: describe a replicated view on processors that do
 not hold it

---
 src/vsip/impl/replicated_map.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index 4a0ec44..dc68c69 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -14,6 +14,7 @@
 #include <ovxx/parallel/map_traits.hpp>
 #include <ovxx/parallel/scalar_map.hpp>
 #include <ovxx/block_traits.hpp>
+#include <ovxx/domain_utils.hpp>
 #include <ovxx/c++11.hpp>
 
 namespace vsip
@@ -143,28 +144,40 @@ public:
   }
 
   length_type impl_num_patches(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return 1;}
+  { OVXX_PRECONDITION(sb == 0 || sb == no_subblock); return sb == 0 ? 1 : 0;}
 
   void impl_apply(Domain<D> const& dom) VSIP_NOTHROW
   { dom_ = dom;}
 
   template <dimension_type D1>
   Domain<D1> impl_subblock_domain(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return dom_;}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return sb == 0 ? dom_ : ovxx::empty_domain<D>();
+  }
 
   template <dimension_type D1>
   ovxx::Length<D1> impl_subblock_extent(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return extent(dom_);}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return extent(sb == 0 ? dom_ : ovxx::empty_domain<D>());
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_global_domain(index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    OVXX_PRECONDITION((sb == 0 && patch == 0) || sb == no_subblock);
+    return sb == 0 ? dom_ : ovxx::empty_domain<D>();
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_local_domain (index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    OVXX_PRECONDITION((sb == 0 && patch == 0) || sb == no_subblock);
+    return sb == 0 ? dom_ : ovxx::empty_domain<D>();
+  }
 
   index_type impl_global_from_local_index(dimension_type /*d*/, index_type sb,
 					  index_type idx)
-- 
2.43.0


From a0c69d743fd8177c24a5eff337ca0fdf91ceaae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 30/77] fix: project a map to the distributions of its
 remaining dimensions

---
 src/ovxx/parallel/map_utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/parallel/map_utils.hpp b/src/ovxx/parallel/map_utils.hpp
index 203b1fa..054d5da 100644
--- a/src/ovxx/parallel/map_utils.hpp
+++ b/src/ovxx/parallel/map_utils.hpp
@@ -92,7 +92,7 @@ struct map_project_1<1, Map<D0, D1, D2> >
 					 fix_sb_1*num_sb_2      + sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 2));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D2>(map, 2));
   }
 };
 
@@ -136,7 +136,7 @@ struct map_project_1<2, Map<D0, D1, D2> >
 					 fix_sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 1));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D1>(map, 1));
   }
 };
 
@@ -185,7 +185,7 @@ struct map_project_2<0, 1, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<0, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D1> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx0,
@@ -227,7 +227,7 @@ struct map_project_2<0, 2, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<1, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D0> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx1,
-- 
2.43.0


From 54643ff6b1fbca4a40169b8da4403ac09f4ae209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 31/77] fix: describe the subblocks of a distributed subview

---
 src/ovxx/parallel/subset_map_decl.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ovxx/parallel/subset_map_decl.hpp b/src/ovxx/parallel/subset_map_decl.hpp
index a1f5f7b..03cd137 100644
--- a/src/ovxx/parallel/subset_map_decl.hpp
+++ b/src/ovxx/parallel/subset_map_decl.hpp
@@ -80,8 +80,8 @@ public:
 
   length_type impl_num_patches(index_type sb) const VSIP_NOTHROW
   {
-    OVXX_PRECONDITION(sb < this->num_subblocks());
-    return sb_patch_gd_[sb].size();
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
+    return sb == no_subblock ? 0 : sb_patch_gd_[sb].size();
   }
 
   void impl_apply(Domain<D> const& dom) VSIP_NOTHROW
@@ -92,16 +92,23 @@ public:
 
   template <dimension_type D1>
   Domain<D1> impl_subblock_domain(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb < this->num_subblocks()); return domain(sb_ext_[sb]);}
+  {
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
+    return sb == no_subblock ? empty_domain<D>() : domain(sb_ext_[sb]);
+  }
 
   template <dimension_type D1>
   Length<D1> impl_subblock_extent(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb < this->num_subblocks()); return sb_ext_[sb];}
+  {
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
+    return sb == no_subblock ? extent(empty_domain<D>()) : sb_ext_[sb];
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_global_domain(index_type sb, index_type p)
     const VSIP_NOTHROW
   {
+    if (sb == no_subblock) return empty_domain<D>();
     OVXX_PRECONDITION(sb < this->num_subblocks());
     OVXX_PRECONDITION(p < this->impl_num_patches(sb));
     return sb_patch_gd_[sb][p];
@@ -111,6 +118,7 @@ public:
   Domain<D1> impl_local_domain (index_type sb, index_type p)
     const VSIP_NOTHROW
   {
+    if (sb == no_subblock) return empty_domain<D>();
     OVXX_PRECONDITION(sb < this->num_subblocks());
     OVXX_PRECONDITION(p < this->impl_num_patches(sb));
     return sb_patch_ld_[sb][p];
@@ -255,7 +263,7 @@ subset_map<D>::subset_map(M const &map, Domain<D> const &dom)
       pvec_.push_back(map.impl_proc_from_rank(sb));
 
       Length<D> par_sb_ext = map.template impl_subblock_extent<D>(sb);
-      Length<D> sb_ext     = par_sb_ext;
+      Length<D> sb_ext     = extent(l_vec[0]);
       parent_sdom_.push_back(domain(par_sb_ext));
       sb_ext_.push_back(sb_ext);
       parent_sb_.push_back(sb);
-- 
2.43.0


From 79ce84cc74dca55ef8e88b2cc1453d1375ddeda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 32/77] fix: describe the subblocks of a transposed distributed
 view

---
 src/ovxx/parallel/transpose_map_decl.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ovxx/parallel/transpose_map_decl.hpp b/src/ovxx/parallel/transpose_map_decl.hpp
index 558eec9..7279c21 100644
--- a/src/ovxx/parallel/transpose_map_decl.hpp
+++ b/src/ovxx/parallel/transpose_map_decl.hpp
@@ -43,7 +43,7 @@ public:
   { return map_.distribution(parent_dim(dim));}
 
   length_type num_subblocks(dimension_type dim) const VSIP_NOTHROW
-  { return map_.num_subblock(parent_dim(dim));}
+  { return map_.num_subblocks(parent_dim(dim));}
 
   length_type cyclic_contiguity(dimension_type dim) const VSIP_NOTHROW
   { return map_.cyclic_contiguity(parent_dim(dim));}
@@ -79,7 +79,7 @@ public:
   template <dimension_type D>
   Domain<D> impl_subblock_domain(index_type sb) const VSIP_NOTHROW
   {
-    OVXX_PRECONDITION(sb < this->num_subblocks());
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
     Domain<D> p_dom = map_.template impl_subblock_domain<D>(sb);
     return Domain<D>(p_dom[1], p_dom[0]);
   }
@@ -87,7 +87,7 @@ public:
   template <dimension_type D>
   Length<D> impl_subblock_extent(index_type sb) const VSIP_NOTHROW
   {
-    OVXX_PRECONDITION(sb < this->num_subblocks());
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
     Length<D> p_ext = map_.template impl_subblock_extent<D>(sb);
     return Length<D>(p_ext[1], p_ext[0]);
   }
@@ -96,8 +96,8 @@ public:
   Domain<D> impl_global_domain(index_type sb, index_type p)
     const VSIP_NOTHROW
   {
-    OVXX_PRECONDITION(sb < this->num_subblocks());
-    OVXX_PRECONDITION(p  < this->impl_num_patches(sb));
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
+    OVXX_PRECONDITION(p  < this->impl_num_patches(sb) || sb == no_subblock);
     Domain<D> p_dom = map_.template impl_global_domain<D>(sb, p);
     return Domain<D>(p_dom[1], p_dom[0]);
   }
@@ -106,8 +106,8 @@ public:
   Domain<D> impl_local_domain (index_type sb, index_type p)
     const VSIP_NOTHROW
   {
-    OVXX_PRECONDITION(sb < this->num_subblocks());
-    OVXX_PRECONDITION(p  < this->impl_num_patches(sb));
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
+    OVXX_PRECONDITION(p  < this->impl_num_patches(sb) || sb == no_subblock);
     Domain<D> p_dom = map_.template impl_local_domain<D>(sb, p);
     return Domain<D>(p_dom[1], p_dom[0]);
   }
-- 
2.43.0


From a561d945fb0f8065e9ff2330d5c691f80c1088ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 33/77] fix: let a copy of a transposed block refer to its own
 parent's map

---
 src/ovxx/expr/transposed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/expr/transposed.hpp b/src/ovxx/expr/transposed.hpp
index 26c9104..c3811a9 100644
--- a/src/ovxx/expr/transposed.hpp
+++ b/src/ovxx/expr/transposed.hpp
@@ -35,12 +35,12 @@ public:
 
   Transposed(Block &block) VSIP_NOTHROW
   : block_(&block),
-    map_(map_functor::project(block.map()))
+    map_(map_functor::project(block_->map()))
   { map_.impl_apply(block_domain<dim>(*this));}
 
   Transposed(Transposed const& b)
     : block_(&*b.block_),        // &* work's around holder's lack of copy-cons.
-      map_ (b.map_)
+      map_ (map_functor::project(block_->map()))
   { map_.impl_apply(block_domain<dim>(*this));}
 
     ~Transposed() VSIP_NOTHROW {}
-- 
2.43.0


From 37c04a5d464b7d8bd5283c13bbf275bcf3986f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 34/77] fix: locate an element of a transposed distributed view

---
 src/ovxx/parallel/transpose_map_decl.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/ovxx/parallel/transpose_map_decl.hpp b/src/ovxx/parallel/transpose_map_decl.hpp
index 7279c21..8baf20f 100644
--- a/src/ovxx/parallel/transpose_map_decl.hpp
+++ b/src/ovxx/parallel/transpose_map_decl.hpp
@@ -120,26 +120,21 @@ public:
     return Domain<D>(p_dom[1], p_dom[0]);
   }
 
-  index_type impl_global_from_local_index(dimension_type /*d*/, index_type sb,
+  index_type impl_global_from_local_index(dimension_type d, index_type sb,
 				     index_type idx)
     const VSIP_NOTHROW
-  {
-    OVXX_DO_THROW(unimplemented(
-	      "transpose_map::impl_global_from_local_index not implemented."));
-    return 0;
-  }
+  { return map_.impl_global_from_local_index(parent_dim(d), sb, idx);}
 
   index_type impl_local_from_global_index(dimension_type dim, index_type idx)
     const VSIP_NOTHROW
   { return map_.impl_local_from_global_index(parent_dim(dim), idx); }
 
   template <dimension_type D>
-  index_type impl_subblock_from_global_index(Index<D> const& /*idx*/)
+  index_type impl_subblock_from_global_index(Index<D> const& idx)
     const VSIP_NOTHROW
   {
-    OVXX_DO_THROW(unimplemented(
-	      "transpose_map::impl_subblock_from_global_index not implemented."));
-    return 0;
+    OVXX_CT_ASSERT(dim == D);
+    return map_.impl_subblock_from_global_index(Index<dim>(idx[1], idx[0]));
   }
 
   template <dimension_type D>
-- 
2.43.0


From 98aee9e0f028439624775e9c7821e290db3443c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 35/77] fix: hold a slice of a replicated view on the
 processors of the view

---
 src/ovxx/expr/sliced.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/expr/sliced.hpp b/src/ovxx/expr/sliced.hpp
index cad73b4..f0899ee 100644
--- a/src/ovxx/expr/sliced.hpp
+++ b/src/ovxx/expr/sliced.hpp
@@ -30,7 +30,8 @@ template <dimension_type D, dimension_type S>
 struct sliced_map<Replicated_map<D>, S>
 {
   typedef Replicated_map<D - 1> type;
-  static type convert_map(Replicated_map<D> const&, index_type) { return type();}
+  static type convert_map(Replicated_map<D> const &map, index_type)
+  { return type(map.processor_set());}
 }; 
 
 template <dimension_type D, dimension_type S>
@@ -78,7 +79,8 @@ template <dimension_type D, dimension_type S1, dimension_type S2>
 struct sliced2_map<Replicated_map<D>, S1, S2>
 {
   typedef Replicated_map<D - 2> type;
-  static type convert_map(Replicated_map<D> const&, index_type, index_type) { return type();}
+  static type convert_map(Replicated_map<D> const &map, index_type, index_type)
+  { return type(map.processor_set());}
 }; 
 
 template <dimension_type S1, dimension_type S2>
-- 
2.43.0


From 1e6c8c6e4fadffed5a467a6fe2ab0ffd8dfd867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 36/77] fix: assign slices with equal maps only on processors
 that hold them

---
 src/ovxx/parallel/assign.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ovxx/parallel/assign.hpp b/src/ovxx/parallel/assign.hpp
index 3b78418..b0c3bbd 100644
--- a/src/ovxx/parallel/assign.hpp
+++ b/src/ovxx/parallel/assign.hpp
@@ -34,6 +34,10 @@ struct Dispatcher<D, LHS, RHS, par_assign<Assign> >
     if (parallel::has_same_map<D>(lhs.map(), rhs))
     {
       // Maps are same, no communication required.
+      // (If this is a slice of a bigger view, this processor may hold other
+      // parts of that, but nothing of the slice.)
+      if (lhs.map().subblock() == no_subblock) return;
+
       typedef typename distributed_local_block<LHS>::type lhs_local_block_type;
       typedef typename distributed_local_block<RHS>::type rhs_local_block_type;
       typedef typename block_traits<lhs_local_block_type>::plain_type 
@@ -70,6 +74,10 @@ struct Dispatcher<D, LHS, RHS, par_expr>
     if (parallel::has_same_map<D>(lhs.map(), rhs))
     {
       // Maps are same, no communication required.
+      // (If this is a slice of a bigger view, this processor may hold other
+      // parts of that, but nothing of the slice.)
+      if (lhs.map().subblock() == no_subblock) return;
+
       typedef typename distributed_local_block<LHS>::type lhs_local_block_type;
       typedef typename distributed_local_block<RHS>::type rhs_local_block_type;
       typedef typename block_traits<lhs_local_block_type>::plain_type 
@@ -108,6 +116,10 @@ struct Dispatcher<D, LHS, RHS, par_expr_noreorg>
     if (parallel::has_same_map<D>(lhs.map(), rhs))
     {
       // Maps are same, no communication required.
+      // (If this is a slice of a bigger view, this processor may hold other
+      // parts of that, but nothing of the slice.)
+      if (lhs.map().subblock() == no_subblock) return;
+
       typedef typename distributed_local_block<LHS>::type lhs_local_block_type;
       typedef typename distributed_local_block<RHS>::type rhs_local_block_type;
       typedef typename block_traits<lhs_local_block_type>::plain_type 
-- 
2.43.0


From e99b23ab89853ea72513898e4bce6eb58cc56bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 37/77] fix: store what is received for a slice of a
 distributed view

---
 src/ovxx/dda/persistent.hpp               | 14 ++++--
 src/ovxx/parallel/assign_block_vector.hpp | 53 ++++++++++++++---------
 src/ovxx/parallel/assign_chain.hpp        |  7 ++-
 3 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/src/ovxx/dda/persistent.hpp b/src/ovxx/dda/persistent.hpp
index 6890140..05ec354 100644
--- a/src/ovxx/dda/persistent.hpp
+++ b/src/ovxx/dda/persistent.hpp
@@ -20,10 +20,11 @@ namespace dda
 // uses block_traits<B>::ptr_type to make sure the block remains
 // valid. (This technique might be too costly for ordinary dda::Data.)
 template <typename B,
-         typename L  = typename dda::dda_block_layout<B>::layout_type>
+         typename L  = typename dda::dda_block_layout<B>::layout_type,
+         sync_policy S = dda::in>
 class Persistent_data
 {
-  typedef Accessor<B, L, dda::in> backend_type;
+  typedef Accessor<B, L, S> backend_type;
 
 public:
 
@@ -39,7 +40,7 @@ public:
   static int const ct_cost = backend_type::ct_cost;
 
   Persistent_data(B &block,
-		  dda::sync_policy sync = dda::inout,
+		  dda::sync_policy sync = S,
 		  non_const_ptr_type buffer = non_const_ptr_type())
     : block_(&block),
       buffer_(buffer),
@@ -47,7 +48,12 @@ public:
       backend_(*block_, buffer_)
   {}
 
-  ~Persistent_data() {}
+  ~Persistent_data()
+  {
+    // The backend is about to write its data back.
+    // Don't let it undo changes made to the block since the last sync_out().
+    if (S & dda::out) backend_.sync_in();
+  }
   void sync_in() { if (sync_ & dda::in) backend_.sync_in();}
   void sync_out() { if (sync_ & dda::out) backend_.sync_out();}
 
diff --git a/src/ovxx/parallel/assign_block_vector.hpp b/src/ovxx/parallel/assign_block_vector.hpp
index a4459c4..4ea5836 100644
--- a/src/ovxx/parallel/assign_block_vector.hpp
+++ b/src/ovxx/parallel/assign_block_vector.hpp
@@ -11,6 +11,7 @@
 
 #include <vector>
 #include <algorithm>
+#include <memory>
 
 #include <vsip/support.hpp>
 #include <vsip/domain.hpp>
@@ -19,6 +20,7 @@
 #include <ovxx/adjust_layout.hpp>
 #include <ovxx/storage.hpp>
 #include <ovxx/dda.hpp>
+#include <ovxx/dda/persistent.hpp>
 
 // Verbosity level:
 //  0 - no debug info
@@ -61,7 +63,9 @@ class Assignment<D, LHS, RHS, Blkvec_assign>
 		dst_lp;
 
   typedef dda::Persistent_data<src_local_block, src_lp> src_dda_type;
-  typedef dda::Persistent_data<dst_local_block, dst_lp> dst_dda_type;
+  // Only part of the local block may be received in a single message,
+  // so the rest needs to be synchronized, too.
+  typedef dda::Persistent_data<dst_local_block, dst_lp, dda::inout> dst_dda_type;
 
   typedef typename LHS::map_type dst_appmap_t;
   typedef typename RHS::map_type src_appmap_t;
@@ -151,11 +155,18 @@ public:
       copy_list (),
       req_list  (),
       msg_count (0),
-      src_dda_  (src_.local().block(), dda::in),
-      dst_dda_  (dst_.local().block(), dda::out)
+      src_dda_  (),
+      dst_dda_  ()
   {
     OVXX_PRECONDITION(src_am_.impl_comm() == dst_am_.impl_comm());
 
+    // If src or dst are slices of bigger views, their local views are only
+    // valid on processors that hold them.
+    if (src_am_.subblock() != no_subblock)
+      src_dda_.reset(new src_dda_type(src_.local().block(), dda::in));
+    if (dst_am_.subblock() != no_subblock)
+      dst_dda_.reset(new dst_dda_type(dst_.local().block(), dda::inout));
+
     build_send_list();
     if (!disable_copy)
       build_copy_list();
@@ -212,8 +223,8 @@ private:
 
   int                       msg_count;
 
-  src_dda_type              src_dda_;
-  dst_dda_type              dst_dda_;
+  std::shared_ptr<src_dda_type> src_dda_;
+  std::shared_ptr<dst_dda_type> dst_dda_;
 };
 
 // Overload set for send, abstracts handling of interleaved- and
@@ -307,7 +318,7 @@ Assignment<D, LHS, RHS, Blkvec_assign>::build_send_list()
     Domain<dim> src_dom  = global_domain(src_, src_sb, 0);
     Domain<dim> src_ldom = local_domain (src_, src_sb, 0);
 
-    src_dda_.sync_in();
+    src_dda_->sync_in();
 
     // Iterate over all processors
     for (index_type pi=0; pi<dsize; ++pi)
@@ -336,10 +347,10 @@ Assignment<D, LHS, RHS, Blkvec_assign>::build_send_list()
 	  Domain<dim> send_dom = domain(first(src_ldom) + offset,
 					extent(intr));
 
-	  stride_type xoff   = send_dom.first()  * src_dda_.stride(0);
+	  stride_type xoff   = send_dom.first()  * src_dda_->stride(0);
 	  length_type length = send_dom.length();
-	  // stride = send_dom.stride() * src_dda_.stride(0) == 1
-	  OVXX_PRECONDITION(send_dom.stride() * src_dda_.stride(0) == 1);
+	  // stride = send_dom.stride() * src_dda_->stride(0) == 1
+	  OVXX_PRECONDITION(send_dom.stride() * src_dda_->stride(0) == 1);
 
 	  send_list.push_back(Msg_record(proc, src_sb, xoff, length));
 
@@ -358,7 +369,7 @@ Assignment<D, LHS, RHS, Blkvec_assign>::build_send_list()
 	}
       }
     }
-    src_dda_.sync_out();
+    src_dda_->sync_out();
   }
 }
 
@@ -389,7 +400,7 @@ Assignment<D, LHS, RHS, Blkvec_assign>::build_recv_list()
     Domain<dim> dst_dom  = global_domain(dst_, dst_sb, 0);
     Domain<dim> dst_ldom = local_domain (dst_, dst_sb, 0);
 
-    dst_dda_.sync_in();
+    dst_dda_->sync_in();
       
     // Iterate over all sending processors
     for (index_type pi=0; pi<ssize; ++pi)
@@ -428,9 +439,9 @@ Assignment<D, LHS, RHS, Blkvec_assign>::build_recv_list()
 	  Domain<dim> recv_dom = domain(first(dst_ldom) + offset,
 					extent(intr));
 
-	  ptrdiff_t   xoff   = recv_dom.first()  * dst_dda_.stride(0);
-	  // stride = recv_dom.stride() * dst_dda_.stride(0) == 1
-	  OVXX_PRECONDITION(recv_dom.stride() * dst_dda_.stride(0) == 1);
+	  ptrdiff_t   xoff   = recv_dom.first()  * dst_dda_->stride(0);
+	  // stride = recv_dom.stride() * dst_dda_->stride(0) == 1
+	  OVXX_PRECONDITION(recv_dom.stride() * dst_dda_->stride(0) == 1);
 	  length_type length = recv_dom.length();
 
 	  recv_list.push_back(Msg_record(proc, dst_sb, xoff, length));
@@ -450,7 +461,7 @@ Assignment<D, LHS, RHS, Blkvec_assign>::build_recv_list()
 	}
       }
     }
-    dst_dda_.sync_out();
+    dst_dda_->sync_out();
   }
 }
 
@@ -530,11 +541,11 @@ Assignment<D, LHS, RHS, Blkvec_assign>::exec_send_list()
   {
     processor_type proc = (*sl_cur).proc_;
 
-    src_dda_.sync_in();
+    src_dda_->sync_in();
     send(comm_, proc,
-	 storage::offset(src_dda_.ptr(), (*sl_cur).offset_),
+	 storage::offset(src_dda_->ptr(), (*sl_cur).offset_),
 	 (*sl_cur).size_, req_list);
-    src_dda_.sync_out();
+    src_dda_->sync_out();
   }
 }
 
@@ -563,11 +574,11 @@ Assignment<D, LHS, RHS, Blkvec_assign>::exec_recv_list()
   {
     processor_type proc = (*rl_cur).proc_;
 
-    dst_dda_.sync_in();
+    dst_dda_->sync_in();
     recv(comm_, proc,
-	 storage::offset(dst_dda_.ptr(), (*rl_cur).offset_),
+	 storage::offset(dst_dda_->ptr(), (*rl_cur).offset_),
 	 (*rl_cur).size_);
-    dst_dda_.sync_out();
+    dst_dda_->sync_out();
   }
 }
 
diff --git a/src/ovxx/parallel/assign_chain.hpp b/src/ovxx/parallel/assign_chain.hpp
index e54b5eb..d812ce9 100644
--- a/src/ovxx/parallel/assign_chain.hpp
+++ b/src/ovxx/parallel/assign_chain.hpp
@@ -168,7 +168,10 @@ class Assignment<D, LHS, RHS, Chained_assign>
   typedef typename view_of<rhs_local_block>::const_type rhs_lview_type;
 
   typedef ovxx::dda::Persistent_data<rhs_local_block> rhs_dda_type;
-  typedef ovxx::dda::Persistent_data<lhs_local_block> lhs_dda_type;
+  typedef typename dda::dda_block_layout<lhs_local_block>::layout_type lhs_lp;
+  // Only part of the local block may be received in a single message,
+  // so the rest needs to be synchronized, too.
+  typedef ovxx::dda::Persistent_data<lhs_local_block, lhs_lp, dda::inout> lhs_dda_type;
 
   typedef typename LHS::map_type lhs_appmap_t;
   typedef typename RHS::map_type rhs_appmap_t;
@@ -261,7 +264,7 @@ public:
     OVXX_PRECONDITION(rhs_am_.impl_comm() == lhs_am_.impl_comm());
 
     chain_assign::build_dda_array<D, RHS>(rhs_, rhs_am_, rhs_dda_, dda::in);
-    chain_assign::build_dda_array<D, LHS>(lhs_, lhs_am_, lhs_dda_, dda::out);
+    chain_assign::build_dda_array<D, LHS>(lhs_, lhs_am_, lhs_dda_, dda::inout);
 
     build_send_list();
     if (!disable_copy)
-- 
2.43.0


From 22a634afe954ba958fd7481e857ea03dca4922ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 38/77] fix: transfer all of the elements of interleaved
 complex distributed views

---
 src/ovxx/parallel/assign_block_vector.hpp | 26 +++++++++++++++++++++--
 src/ovxx/parallel/assign_chain.hpp        |  3 ---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/ovxx/parallel/assign_block_vector.hpp b/src/ovxx/parallel/assign_block_vector.hpp
index 4ea5836..4c03a8b 100644
--- a/src/ovxx/parallel/assign_block_vector.hpp
+++ b/src/ovxx/parallel/assign_block_vector.hpp
@@ -227,6 +227,24 @@ private:
   std::shared_ptr<dst_dda_type> dst_dda_;
 };
 
+// Express data in terms of elements: Message sizes, as well as offsets
+// into the data, count elements, not components of elements.
+template <typename T, storage_format_type S>
+struct message_data
+{
+  template <typename P>
+  static P elements(P data) { return data;}
+};
+
+template <typename T>
+struct message_data<complex<T>, interleaved_complex>
+{
+  static complex<T> *elements(T *data)
+  { return reinterpret_cast<complex<T> *>(data);}
+  static complex<T> const *elements(T const *data)
+  { return reinterpret_cast<complex<T> const *>(data);}
+};
+
 // Overload set for send, abstracts handling of interleaved- and
 // split- complex.
 
@@ -534,6 +552,7 @@ Assignment<D, LHS, RHS, Blkvec_assign>::exec_send_list()
 #endif
   typedef typename std::vector<Msg_record>::iterator sl_iterator;
   typedef storage_traits<typename RHS::value_type, src_lp::storage_format> storage;
+  typedef message_data<typename RHS::value_type, src_lp::storage_format> message;
 
   sl_iterator sl_cur = send_list.begin();
   sl_iterator sl_end = send_list.end();
@@ -543,7 +562,8 @@ Assignment<D, LHS, RHS, Blkvec_assign>::exec_send_list()
 
     src_dda_->sync_in();
     send(comm_, proc,
-	 storage::offset(src_dda_->ptr(), (*sl_cur).offset_),
+	 message::elements(storage::offset(src_dda_->ptr(),
+					    (*sl_cur).offset_)),
 	 (*sl_cur).size_, req_list);
     src_dda_->sync_out();
   }
@@ -566,6 +586,7 @@ Assignment<D, LHS, RHS, Blkvec_assign>::exec_recv_list()
 
   typedef typename std::vector<Msg_record>::iterator rl_iterator;
   typedef storage_traits<typename LHS::value_type, dst_lp::storage_format> storage;
+  typedef message_data<typename LHS::value_type, dst_lp::storage_format> message;
 
   rl_iterator rl_cur = recv_list.begin();
   rl_iterator rl_end = recv_list.end();
@@ -576,7 +597,8 @@ Assignment<D, LHS, RHS, Blkvec_assign>::exec_recv_list()
 
     dst_dda_->sync_in();
     recv(comm_, proc,
-	 storage::offset(dst_dda_->ptr(), (*rl_cur).offset_),
+	 message::elements(storage::offset(dst_dda_->ptr(),
+					    (*rl_cur).offset_)),
 	 (*rl_cur).size_);
     dst_dda_->sync_out();
   }
diff --git a/src/ovxx/parallel/assign_chain.hpp b/src/ovxx/parallel/assign_chain.hpp
index d812ce9..dc2db12 100644
--- a/src/ovxx/parallel/assign_chain.hpp
+++ b/src/ovxx/parallel/assign_chain.hpp
@@ -43,9 +43,6 @@ template <typename D,
 struct element_type
 { typedef T type;};
 template <typename D, typename T>
-struct element_type<D, complex<T>, interleaved_complex>
-{ typedef T type;};
-template <typename D, typename T>
 struct element_type<D, complex<T>, split_complex>
 { typedef T type;};
 
-- 
2.43.0


From 68313ea701c3f5c5a78a3c2c302a084dcf59a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 39/77] fix: compute the size of empty aligned layouts

---
 src/ovxx/layout.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index b77e075..4f00717 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -352,7 +352,10 @@ public:							   \
   length_type size(dimension_type d) const		   \
   { return size_[d];}					   \
   length_type total_size() const			   \
-  { return stride_ * size_[0] - (stride_-size_[1]);}	   \
+  {							   \
+    return size_[0] == 0 ? 0				   \
+      : stride_ * size_[0] - (stride_-size_[1]);	   \
+  }							   \
 							   \
 private:						   \
   length_type size_[2];					   \
@@ -409,7 +412,10 @@ public:							   \
   length_type size(dimension_type d) const		   \
   { return size_[d];}					   \
   length_type total_size() const			   \
-  { return stride_ * size_[1] - (stride_-size_[0]);}	   \
+  {							   \
+    return size_[1] == 0 ? 0				   \
+      : stride_ * size_[1] - (stride_-size_[0]);	   \
+  }							   \
 							   \
 private:						   \
   length_type size_[2];					   \
-- 
2.43.0


From 941d7dc47dd14bdb40c3ef06c64b9805cbca29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 40/77] fix: compute strides of column-major aligned layouts
 from their columns

---
 src/ovxx/layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index 4f00717..2466c8a 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -387,7 +387,7 @@ public:							   \
   {							   \
     size_[0] = size0;					   \
     size_[1] = size1;					   \
-    stride_ = size_[1];					   \
+    stride_ = size_[0];					   \
     if (stride_ % A != 0) stride_ += (A - stride_%A);	   \
   }							   \
 							   \
-- 
2.43.0


From 9622ecf8b5521ee5c9af2227d75fd7631bae4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 41/77] fix: convert elements in parallel assignments between
 value types

---
 src/ovxx/assign.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/assign.hpp b/src/ovxx/assign.hpp
index eddf66d..e673910 100644
--- a/src/ovxx/assign.hpp
+++ b/src/ovxx/assign.hpp
@@ -50,7 +50,10 @@ struct trait
   static bool const is_local      = parallel::is_local_map<lhs_map_type>::value &&
     parallel::is_local_map<rhs_map_type>::value;
   static bool const is_rhs_expr   = is_expr_block<RHS>::value;
-  static bool const is_rhs_simple = is_simple_distributed_block<RHS>::value;
+  // A parallel assignment transfers elements as they are, so it can't convert
+  // them to another type.
+  static bool const is_rhs_simple = is_simple_distributed_block<RHS>::value &&
+    is_same<typename LHS::value_type, typename RHS::value_type>::value;
   static bool const is_rhs_reorg  = parallel::is_reorg_ok<RHS>::value;
 
   static bool const is_lhs_split  = is_split_block<LHS>::value;
-- 
2.43.0


From 4bb3ae552451fdcc475390befe64a919cd3af472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 42/77] fix: divide negative strides of domains

---
 src/vsip/domain.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index 683f6ba..d146541 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -207,11 +207,18 @@ Domain<1>::Mem(Arg const a) VSIP_NOTHROW	      \
 OVXX_DEF_DOM1_MEMBER(impl_add_in, index_difference_type, index_, +=)
 OVXX_DEF_DOM1_MEMBER(impl_sub_out, index_difference_type, index_, -=)
 OVXX_DEF_DOM1_MEMBER(impl_mul_by, stride_scalar_type, stride_, *=)
-OVXX_DEF_DOM1_MEMBER(impl_div_by, stride_scalar_type, stride_, /=)
 
 #undef OVXX_DEF_DOM1_MEMBER
 
 
+inline void
+Domain<1>::impl_div_by(stride_scalar_type s) VSIP_NOTHROW
+{
+  // As the stride can be negative, the division has to be signed.
+  this->stride_ /= static_cast<stride_type>(s);
+  assert(this->impl_is_valid());
+}
+
 inline bool 
 Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
 { return this->length() == d.length(); }
-- 
2.43.0


From 3a77cf6821dc90e5c9b0f1f0e9b3f5a7bdd458c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 43/77] fix: compare domains by the indices they contain

---
 src/vsip/domain.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index d146541..b70ad42 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -226,7 +226,11 @@ Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
 inline bool 
 Domain<1>::impl_equals(Domain const& d) const VSIP_NOTHROW
 {
-  return this->length() == d.length() &&
+  // The stride of a domain with fewer than two elements is irrelevant.
+  if (this->length() != d.length()) return false;
+  else if (this->length() == 0) return true;
+  else if (this->length() == 1) return this->first() == d.first();
+  else return
     ((this->stride() == d.stride() && this->first() == d.first()) ||
      (this->stride() == -d.stride() && 
       this->first() == d.first() + (d.length() - 1) * d.stride()));
-- 
2.43.0


From 1dece2a90fff3f5deae6fbd1b81af57567f6f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 44/77] fix: do not intersect with empty domains

---
 src/ovxx/domain_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ovxx/domain_utils.hpp b/src/ovxx/domain_utils.hpp
index 6850044..c11b236 100644
--- a/src/ovxx/domain_utils.hpp
+++ b/src/ovxx/domain_utils.hpp
@@ -133,6 +133,9 @@ intersect(Domain<1> const &dom1,
 {
   OVXX_PRECONDITION(dom1.stride() == 1);
 
+  if (dom1.size() == 0 || dom2.size() == 0)
+    return false;
+
   if (dom2.stride() == 1)
   {
     index_type first   = std::max(dom1.first(),     dom2.first());
-- 
2.43.0


From 81b2131b66e310dd076203992b7dc4b5f36d30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 45/77] fix: intersect domains with negative strides

---
 src/ovxx/domain_utils.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/domain_utils.hpp b/src/ovxx/domain_utils.hpp
index c11b236..fb09a07 100644
--- a/src/ovxx/domain_utils.hpp
+++ b/src/ovxx/domain_utils.hpp
@@ -148,6 +148,14 @@ intersect(Domain<1> const &dom1,
     }
     else return false;
   }
+  else if (dom2.stride() < 0)
+  {
+    // Intersect the reversed domain, then restore its direction.
+    Domain<1> reversed(dom2.impl_last(), -dom2.stride(), dom2.size());
+    if (!intersect(dom1, reversed, reversed)) return false;
+    res = Domain<1>(reversed.impl_last(), dom2.stride(), reversed.size());
+    return true;
+  }
   else
   {
     index_type first1  = dom1.first();
@@ -275,7 +283,8 @@ inline Domain<1>
 subset_from_intr(Domain<1> const &dom,
 		 Domain<1> const &intr)
 {
-  return Domain<1>((intr.first() - dom.first()) / dom.stride(),
+  return Domain<1>(static_cast<stride_type>(intr.first() - dom.first()) /
+		   dom.stride(),
 		   1,
 		   intr.size());
 }
-- 
2.43.0


From ea2f148a37b2fd5fa2a3fdb62ea2432f732f9c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 46/77] fix: check the dimension of serialized integral data

---
 src/vsip/serialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 5f71220..3ec41cb 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -145,7 +145,8 @@ struct block_compatibility<ovxx::Strided<D, T, Layout<D, O, dense, S>, Local_map
     // ...else we require strict type equality
     else if (type_info<T>::value != info.value_type)
       return false;
-    else if (D != info.dimensions)
+
+    if (D != info.dimensions)
       return false; // dimension mismatch
     
     // TODO: support non-dense layouts
-- 
2.43.0


From adbc50774aebb004d4ed4c6a200befa75905ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 47/77] fix: check all strides of serialized three-dimensional
 data

---
 src/vsip/serialization.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 3ec41cb..54ce6c3 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -125,7 +125,9 @@ struct ordering_compatibility<tuple<D0, D1, D2> >
 	 static_cast<length_type>(info.stride[D0]) != info.size[D1])) return false;
     else if (info.dimensions == 3 && 
 	     (info.stride[D0] < 0 ||
-	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1])) return false;
+	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1] ||
+	      info.stride[D1] < 0 ||
+	      static_cast<length_type>(info.stride[D1]) != info.size[D2])) return false;
     return true;
   }
 };
-- 
2.43.0


From 3af83ac9522ba14b38c7012a2efe46db953156d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 48/77] fix: keep all processes when none are excluded from a
 group

---
 src/ovxx/mpi/group.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/mpi/group.hpp b/src/ovxx/mpi/group.hpp
index cd43993..b98ddd6 100644
--- a/src/ovxx/mpi/group.hpp
+++ b/src/ovxx/mpi/group.hpp
@@ -89,7 +89,7 @@ Group::include(int *first, int *last)
 template<typename InputIterator>
 Group Group::exclude(InputIterator first, InputIterator last)
 {
-  if (first == last) return Group();
+  if (first == last) return *this;
   std::vector<int> ranks(first, last);
   MPI_Group g;
   OVXX_MPI_CHECK_RESULT(MPI_Group_excl, (*this, ranks.size(), &ranks[0], &g));
-- 
2.43.0


From 1a5b7cfe3799731f6db480b6f947997e83e1934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 49/77] fix: assign elements of tensor fibres through proxies
 of the fibre's dimension

---
 src/ovxx/block_traits.hpp | 2 +-
 src/ovxx/strided.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/block_traits.hpp b/src/ovxx/block_traits.hpp
index 3891c1d..1a42836 100644
--- a/src/ovxx/block_traits.hpp
+++ b/src/ovxx/block_traits.hpp
@@ -273,7 +273,7 @@ struct lvalue_factory_type
 {
   typedef proxy_factory<B, D> type;
   template <typename O>
-  struct rebind { typedef proxy_factory<O, D> type;};
+  struct rebind { typedef proxy_factory<O, O::dim> type;};
 };
 
 /// }
diff --git a/src/ovxx/strided.hpp b/src/ovxx/strided.hpp
index 6164054..717c747 100644
--- a/src/ovxx/strided.hpp
+++ b/src/ovxx/strided.hpp
@@ -334,7 +334,7 @@ struct strided_lvalue_factory_type<B, D, true>
 {
   typedef proxy_factory<B, D> type;
   template <typename O>
-  struct rebind { typedef proxy_factory<O, D> type;};
+  struct rebind { typedef proxy_factory<O, O::dim> type;};
 };
 
 } // namespace ovxx::detail
-- 
2.43.0


From e57e9c04546825e66832c135cc97612fae83542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 50/77] fix: serialize the creation and destruction of FFTW
 plans

---
 src/ovxx/fftw/fft.cpp  |  6 ++++++
 src/ovxx/fftw/fftw.cpp | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/fftw/fft.cpp b/src/ovxx/fftw/fft.cpp
index e46d43e..ee07236 100644
--- a/src/ovxx/fftw/fft.cpp
+++ b/src/ovxx/fftw/fft.cpp
@@ -9,6 +9,7 @@
 #include <ovxx/support.hpp>
 #include <ovxx/layout.hpp>
 #include <ovxx/aligned_array.hpp>
+#include <ovxx/thread.hpp>
 #include <vsip/dense.hpp>
 #include <fftw3.h>
 
@@ -23,6 +24,11 @@ namespace fftw
 // As best guess we use the library default complex storage-format.
 storage_format_type const complex_storage_format = Dense<1, complex<float> >::storage_format;
 
+// FFTW's planner isn't thread-safe: the creation and the destruction
+// of plans need to be serialized (the execution of plans doesn't).
+std::mutex planner_mutex;
+typedef std::lock_guard<std::mutex> planner_lock;
+
 // Turn a dimension to make 'A' the major axis
 Domain<1> turn(Domain<1> const &dom, int) { return dom;}
 Domain<2> turn(Domain<2> const &dom, int A)
diff --git a/src/ovxx/fftw/fftw.cpp b/src/ovxx/fftw/fftw.cpp
index dd42b5b..e08f56e 100644
--- a/src/ovxx/fftw/fftw.cpp
+++ b/src/ovxx/fftw/fftw.cpp
@@ -58,6 +58,7 @@ struct planner<D, complex<SCALAR_TYPE>, complex<SCALAR_TYPE> >
     in_buffer_ = aligned_array<complex<SCALAR_TYPE> >(32, total_size);
     out_buffer_ = aligned_array<complex<SCALAR_TYPE> >(32, total_size);
 
+    planner_lock lock(planner_mutex);
     FFTW(iodim) dims[D];
     for (index_type i = 0; i != D; ++i) 
     { 
@@ -103,6 +104,7 @@ struct planner<D, complex<SCALAR_TYPE>, complex<SCALAR_TYPE> >
   }
   ~planner() VSIP_NOTHROW
   {
+    planner_lock lock(planner_mutex);
     FFTW(destroy_plan)(plan_op_);
     FFTW(destroy_plan)(plan_ip_);
   }
@@ -164,6 +166,7 @@ struct planner<D, SCALAR_TYPE, complex<SCALAR_TYPE> >
     in_buffer_ = aligned_array<SCALAR_TYPE>(32, in_total_size);
     out_buffer_ = aligned_array<complex<SCALAR_TYPE> >(32, out_total_size);
 
+    planner_lock lock(planner_mutex);
     FFTW(iodim) dims[D];
     for (index_type i = 0; i != D; ++i) 
     {
@@ -188,7 +191,11 @@ struct planner<D, SCALAR_TYPE, complex<SCALAR_TYPE> >
     }
     if (!plan_) OVXX_DO_THROW(std::bad_alloc());
   }
-  ~planner() VSIP_NOTHROW { FFTW(destroy_plan)(plan_);}
+  ~planner() VSIP_NOTHROW
+  {
+    planner_lock lock(planner_mutex);
+    FFTW(destroy_plan)(plan_);
+  }
 
   aligned_array<SCALAR_TYPE> in_buffer_;
   aligned_array<complex<SCALAR_TYPE> > out_buffer_;
@@ -246,6 +253,7 @@ struct planner<D, complex<SCALAR_TYPE>, SCALAR_TYPE>
     in_buffer_ = aligned_array<complex<SCALAR_TYPE> >(32, in_total_size);
     out_buffer_ = aligned_array<SCALAR_TYPE>(32, out_total_size);
     
+    planner_lock lock(planner_mutex);
     FFTW(iodim) dims[D];    
     for (index_type i = 0; i != D; ++i) 
     {
@@ -270,7 +278,11 @@ struct planner<D, complex<SCALAR_TYPE>, SCALAR_TYPE>
     }
     if (!plan_) OVXX_DO_THROW(std::bad_alloc());
   }
-  ~planner() VSIP_NOTHROW { FFTW(destroy_plan)(plan_);}
+  ~planner() VSIP_NOTHROW
+  {
+    planner_lock lock(planner_mutex);
+    FFTW(destroy_plan)(plan_);
+  }
 
   aligned_array<complex<SCALAR_TYPE> > in_buffer_;
   aligned_array<SCALAR_TYPE> out_buffer_;
-- 
2.43.0


From 658e3556af14e8b23a7cd44b790c891dfe691dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 51/77] fix: let several translation units include the window
 functions

---
 src/vsip/impl/signal/window.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vsip/impl/signal/window.hpp b/src/vsip/impl/signal/window.hpp
index 4effeba..a782471 100644
--- a/src/vsip/impl/signal/window.hpp
+++ b/src/vsip/impl/signal/window.hpp
@@ -15,7 +15,7 @@ namespace vsip
 {
 
 // Generates Blackman window
-const_Vector<float>
+inline const_Vector<float>
 blackman(length_type len) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
@@ -23,7 +23,7 @@ blackman(length_type len) VSIP_THROW((std::bad_alloc))
 }
 
 // Generates Chebyshev window
-const_Vector<float>
+inline const_Vector<float>
 cheby(length_type len, float ripple) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
@@ -31,7 +31,7 @@ cheby(length_type len, float ripple) VSIP_THROW((std::bad_alloc))
 }
 
 // Generates Hanning window
-const_Vector<float>
+inline const_Vector<float>
 hanning(length_type len) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
@@ -39,7 +39,7 @@ hanning(length_type len) VSIP_THROW((std::bad_alloc))
 }
 
 // Generates Kaiser window
-const_Vector<float>
+inline const_Vector<float>
 kaiser(length_type len, float beta) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
-- 
2.43.0


From f7e074ac31480c4b905125a970781805eb71a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 52/77] fix: release the real plane if the imaginary one can't
 be allocated

---
 src/ovxx/storage/host.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/storage/host.hpp b/src/ovxx/storage/host.hpp
index a86100a..1e51d85 100644
--- a/src/ovxx/storage/host.hpp
+++ b/src/ovxx/storage/host.hpp
@@ -14,6 +14,19 @@
 namespace ovxx
 {
 
+// Allocate the two planes of a split-complex array: either both or none.
+template <typename T>
+inline std::pair<T*,T*> split_allocate(allocator *a, length_type size)
+{
+  T *real = a->allocate<T>(size);
+  try { return std::make_pair(real, a->allocate<T>(size));}
+  catch (...)
+  {
+    a->deallocate(real, size);
+    throw;
+  }
+}
+
 template <typename T, storage_format_type F>
 class host_storage : public storage<T, F>
 {
@@ -233,8 +246,7 @@ public:
   {
     if (own_data_ && !this->data_.first)
     {
-      this->data_.first = allocator_->allocate<T>(this->size_);
-      this->data_.second = allocator_->allocate<T>(this->size_);
+      this->data_ = split_allocate<T>(allocator_, this->size_);
     }
   }
   virtual void deallocate()
@@ -332,8 +344,7 @@ public:
 	this->data_ = allocator_->allocate<T>(2*this->size_);
 	break;
       case split_complex:
-	this->data_ = std::make_pair(allocator_->allocate<T>(this->size_),
-				     allocator_->allocate<T>(this->size_));
+	this->data_ = split_allocate<T>(allocator_, this->size_);
 	break;
       default: assert(0);
     }
-- 
2.43.0


From 337790b7f272f8a9c65d7f5ce8de9c42d781ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 53/77] fix: address the components of complex Python blocks in
 their own units

---
 src/ovxx/python/block.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/ovxx/python/block.hpp b/src/ovxx/python/block.hpp
index 29937f3..d3bbc51 100644
--- a/src/ovxx/python/block.hpp
+++ b/src/ovxx/python/block.hpp
@@ -135,6 +135,7 @@ bool is_storage_compatible(PyArrayObject const *a)
 // For float and double we need a storage wrapper,
 // as we can't be sure what value-type our storage
 // has, to support real-valued views into complex storage.
+// In that case indices count the (interleaved) real values.
 template <typename T>
 class sm_proxy
 {
@@ -159,20 +160,17 @@ public:
   value_type get(index_type i) const
   {
     if (parent_) return parent_->get(i);
-    else if (real_) return cparent_->at(i).real();
-    else return cparent_->at(i).imag();
+    else return const_cast<sm_proxy*>(this)->ptr()[i];
   }
   void put(index_type i, value_type value)
   {
     if (parent_) parent_->put(i, value);
-    else if (real_) cparent_->at(i) = complex<T>(value, cparent_->at(i).imag());
-    else cparent_->at(i) = complex<T>(cparent_->at(i).real(), value);
+    else ptr()[i] = value;
   }
   reference_type at(index_type i)
   {
     if (parent_) return parent_->at(i);
-    else if (real_) return cparent_->at(i).real();
-    else return cparent_->at(i).imag();
+    else return ptr()[i];
   }
   
   ptr_type ptr()
@@ -277,8 +275,8 @@ public:
   // construct a real or imaginary component block from a complex
   // parent block
   Block(Block<D, complex<T> > &parent, bool real)
-    : offset_(parent.offset_),
-      layout_(parent.layout_),
+    : offset_(2 * parent.offset_),
+      layout_(component_domain(parent.layout_)),
       smanager_(new smanager_type(parent.smanager_, real)),
       array_refcount_(0)
   {}
@@ -420,6 +418,19 @@ public:
   }
 
 private:
+  // The physical domain (in real values) of a component
+  // of a complex block with the given layout.
+  static Domain<dim> component_domain(applied_layout_type const &l)
+  {
+    Domain<dim> dom;
+    for (dimension_type d = 0; d != dim; ++d)
+    {
+      stride_type const last = 2 * l.stride(d) * (stride_type(l.size(d)) - 1);
+      dom.impl_at(d) = Domain<1>(last < 0 ? -last : 0, 2 * l.stride(d), l.size(d));
+    }
+    return dom;
+  }
+
   length_type offset_;
   applied_layout_type layout_;
   std::shared_ptr<smanager_type> smanager_;
-- 
2.43.0


From 8a0782437af85635afee55b0de03e482d6063df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 54/77] fix: take rows, columns and diagonals of Python
 subblocks from the right place

---
 python/src/block_api.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index 6e71d7c..45a0a6f 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -300,7 +300,9 @@ template <typename T, typename M>
 bpl::object get_row(Block<2, T, M> &b, int i)
 {
   if (i < 0) i += b.size(2, 0);
-  Domain<1> domain(i * b.stride(2, 0), 1, b.size(2, 1));
+  if (i < 0 || index_type(i) >= b.size(2, 0))
+    PYVSIP_THROW(IndexError, "row index out of range");
+  Domain<1> domain(b.offset() + i * b.stride(2, 0), b.stride(2, 1), b.size(2, 1));
   return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
 }
 
@@ -308,14 +310,16 @@ template <typename T, typename M>
 bpl::object get_col(Block<2, T, M> &b, int i)
 {
   if (i < 0) i += b.size(2, 1);
-  Domain<1> domain(i * b.stride(2, 1), b.stride(2, 0), b.size(2, 0));
+  if (i < 0 || index_type(i) >= b.size(2, 1))
+    PYVSIP_THROW(IndexError, "column index out of range");
+  Domain<1> domain(b.offset() + i * b.stride(2, 1), b.stride(2, 0), b.size(2, 0));
   return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
 }
 
 template <typename T, typename M>
 bpl::object diag(Block<2, T, M> &b)
 {
-  Domain<1> domain(0, b.stride(2, 0) + b.stride(2, 1), std::min(b.size(2, 0), b.size(2, 1)));
+  Domain<1> domain(b.offset(), b.stride(2, 0) + b.stride(2, 1), std::min(b.size(2, 0), b.size(2, 1)));
   return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
 }
 
-- 
2.43.0


From fd30240f933d48b82e904f7c8db949557ba017ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 55/77] fix: keep a Python block alive as long as arrays refer
 to its data

---
 python/src/block_api.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index 45a0a6f..08a5dd3 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -219,10 +219,10 @@ bpl::object construct(bpl::object o)
 template <typename B>
 struct array_backref
 {
-  array_backref(B &b) : b_(b) { b_.ref_ptr();}
-  array_backref(array_backref const &r) : b_(r.b_) { b_.ref_ptr();}
-  ~array_backref() { b_.unref_ptr();}
-  B &b_;
+  array_backref(std::shared_ptr<B> const &b) : b_(b) { b_->ref_ptr();}
+  array_backref(array_backref const &r) : b_(r.b_) { b_->ref_ptr();}
+  ~array_backref() { b_->unref_ptr();}
+  std::shared_ptr<B> b_;
 };
 
 // Construct an array referencing a block's data.
@@ -254,8 +254,8 @@ template <dimension_type D, typename T>
 bpl::object make_array(bpl::object o)
 {
   typedef Block<D, T> block_type;
-  block_type &block = bpl::extract<block_type &>(o);
-  bpl::handle<PyArrayObject> a = make_array_(block);
+  std::shared_ptr<block_type> block = bpl::extract<std::shared_ptr<block_type> >(o);
+  bpl::handle<PyArrayObject> a = make_array_(*block);
   std::shared_ptr<array_backref<block_type> > lock
     (new array_backref<block_type>(block));
   bpl::object backref(lock);
@@ -417,7 +417,7 @@ void define_block(char const *type_name)
   std::string backref_name(type_name);
   backref_name.append("_backref");
   bpl::class_<backref_type, std::shared_ptr<backref_type>, boost::noncopyable>
-    backref(backref_name.c_str(), bpl::init<block_type&>());
+    backref(backref_name.c_str(), bpl::init<std::shared_ptr<block_type> >());
 
   bpl::class_<block_type, std::shared_ptr<block_type>, boost::noncopyable> 
     block(type_name, bpl::no_init);
-- 
2.43.0


From f114e28b52dd8ab5c4b1990fecd2466f619a6a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 56/77] fix: honour the layout of a Python block in ref(i)

---
 src/ovxx/python/block.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/python/block.hpp b/src/ovxx/python/block.hpp
index d3bbc51..7963b84 100644
--- a/src/ovxx/python/block.hpp
+++ b/src/ovxx/python/block.hpp
@@ -342,12 +342,12 @@ public:
   reference_type ref(index_type i) VSIP_NOTHROW
   {
     OVXX_PRECONDITION(i < size());
-    return smanager_->at(offset_ + i);
+    return smanager_->at(offset_ + layout_.index(i));
   }
   const_reference_type ref(index_type i) const VSIP_NOTHROW
   {
     OVXX_PRECONDITION(i < size());
-    return smanager_->at(offset_ + i);
+    return smanager_->at(offset_ + layout_.index(i));
   }
   reference_type ref(index_type i, index_type j)
   {
-- 
2.43.0


From fd981b0f40e71a8ee17a2c69c01c1eeee95c67cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 57/77] fix: don't claim Python blocks to be dense

---
 src/ovxx/python/block.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/python/block.hpp b/src/ovxx/python/block.hpp
index 7963b84..85d53f5 100644
--- a/src/ovxx/python/block.hpp
+++ b/src/ovxx/python/block.hpp
@@ -513,7 +513,8 @@ struct get_block_layout<ovxx::python::Block<D, T> >
   static dimension_type const dim = D;
 
   typedef tuple<> order_type;
-  static pack_type const packing = dense;
+  // subblocks share this type, and may be arbitrarily strided.
+  static pack_type const packing = any_packing;
   static storage_format_type const storage_format = array;
   typedef Layout<dim, order_type, packing, storage_format> type;
 };
-- 
2.43.0


From b73cb3d8db5d114b0ca1146f7668f883876b4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 58/77] fix: import the matching block module when converting
 to Python

---
 src/ovxx/python/converter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/python/converter.hpp b/src/ovxx/python/converter.hpp
index 7ee734a..3fa80ba 100644
--- a/src/ovxx/python/converter.hpp
+++ b/src/ovxx/python/converter.hpp
@@ -26,8 +26,8 @@ template <> struct block_mod<T>            \
   static void import() { bpl::import(#M);} \
 };
 
-OVXX_PYTHON_IMPORT(bool, vsip._block_i)
-OVXX_PYTHON_IMPORT(int, vsip._block_b)
+OVXX_PYTHON_IMPORT(bool, vsip._block_b)
+OVXX_PYTHON_IMPORT(int, vsip._block_i)
 OVXX_PYTHON_IMPORT(float, vsip._block_f)
 OVXX_PYTHON_IMPORT(double, vsip._block_d)
 OVXX_PYTHON_IMPORT(complex<float>, vsip._block_cf)
-- 
2.43.0


From cd8be90916e14fb2ba17ebb618e5fb52ab16af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 59/77] fix: export mat_uplo to Python, as chold requires it

---
 python/src/math/types.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/math/types.cpp b/python/src/math/types.cpp
index c5e1e3a..9c500eb 100644
--- a/python/src/math/types.cpp
+++ b/python/src/math/types.cpp
@@ -7,6 +7,7 @@
 
 #include <ovxx/python/block.hpp>
 #include <vsip/math.hpp>
+#include <vsip/solvers.hpp>
 
 BOOST_PYTHON_MODULE(types)
 {
@@ -18,6 +19,10 @@ BOOST_PYTHON_MODULE(types)
   mat_op.value("herm", vsip::mat_herm);
   mat_op.value("conj", vsip::mat_conj);
 
+  bpl::enum_<vsip::mat_uplo> mat_uplo("mat_uplo");
+  mat_uplo.value("lower", vsip::lower);
+  mat_uplo.value("upper", vsip::upper);
+
   bpl::enum_<vsip::product_side_type> product_side("product_side");
   product_side.value("lside", vsip::mat_lside);
   product_side.value("rside", vsip::mat_rside);
-- 
2.43.0


From 618d04b4b9b7e70475af4e66e11b8fce7b81c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 60/77] fix: initialize the NumPy API used by the _cast module,
 and cast to a block type Python knows

---
 python/src/_cast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/_cast.cpp b/python/src/_cast.cpp
index 2ef2c51..e1d3961 100644
--- a/python/src/_cast.cpp
+++ b/python/src/_cast.cpp
@@ -34,7 +34,7 @@ bpl::object as_type(bpl::object type, ovxx::python::Block<D, T> const &b)
 #else
     if (type.ptr() == (PyObject*)&PyLong_Type)
 #endif
-      return cast<long>(b);
+      return cast<int>(b);
     else if (type.ptr() == (PyObject*)&PyFloat_Type)
       return cast<double>(b);
     else if (type.ptr() == (PyObject*)&PyComplex_Type)
@@ -55,6 +55,7 @@ bpl::object as_type(bpl::object type, ovxx::python::Block<D, T> const &b)
 
 BOOST_PYTHON_MODULE(_cast)
 {
+  ovxx::python::initialize();
   bpl::def("as_type", as_type<1, int>);
   bpl::def("as_type", as_type<2, int>);
   bpl::def("as_type", as_type<1, float>);
-- 
2.43.0


From 91e590a25fd0b4c0ba0d12ae9b359c6078d24174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 61/77] fix: report invalid slices of Python blocks

---
 python/src/block_api.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index 08a5dd3..29ba673 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -277,6 +277,7 @@ inline Domain<1> slice_to_domain(bpl::slice s, index_type offset, stride_type st
   int status = PySlice_GetIndicesEx(s.ptr(), size,
 				    &start, &stop, &step, &length);
 #endif
+  if (status < 0) throw bpl::error_already_set();
   return Domain<1>(offset + start*stride, step*stride, length);
 }
 
-- 
2.43.0


From b9aaa53d5fc09c1171b4f69a5db173e3f0cdf252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 62/77] fix: let empty slices of Python blocks start anywhere

---
 python/src/block_api.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index 29ba673..a0cf879 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -278,6 +278,7 @@ inline Domain<1> slice_to_domain(bpl::slice s, index_type offset, stride_type st
 				    &start, &stop, &step, &length);
 #endif
   if (status < 0) throw bpl::error_already_set();
+  if (length == 0) return Domain<1>(offset, 1, 0);
   return Domain<1>(offset + start*stride, step*stride, length);
 }
 
-- 
2.43.0


From 4f58b502579c24ced4b37ed64541aacc7b65b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 63/77] fix: allow slicing of Python subblocks with reversed
 columns

---
 python/src/block_api.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index a0cf879..2547137 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -292,8 +292,11 @@ bpl::object subblock1(Block<1, T> &b, bpl::slice s)
 template <typename T, typename M>
 bpl::object subblock2(Block<2, T, M> &b, bpl::slice i, bpl::slice j)
 {
-  Domain<1> domi = slice_to_domain(i, b.offset(), b.stride(2, 0), b.size(2, 0));
-  Domain<1> domj = slice_to_domain(j, 0, b.stride(2, 1), b.size(2, 1));
+  // The part of the offset due to reversed columns belongs to the second dimension.
+  stride_type last = (b.size(2, 1) - 1) * b.stride(2, 1);
+  index_type offset = b.size(2, 1) && last < 0 ? -last : 0;
+  Domain<1> domi = slice_to_domain(i, b.offset() - offset, b.stride(2, 0), b.size(2, 0));
+  Domain<1> domj = slice_to_domain(j, offset, b.stride(2, 1), b.size(2, 1));
   return bpl::object(std::shared_ptr<Block<2, T, M> >(new Block<2, T, M>
     (b, Domain<2>(domi, domj))));
 }
-- 
2.43.0


From d830299c60ef21e739f9da62b797cf6f38609de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 64/77] fix: refuse to assign Python blocks of different shapes

---
 python/src/block_api.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index 2547137..df40de4 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -345,6 +345,9 @@ bpl::object imag(Block<D, complex<T>, M> &b)
 template <dimension_type D, typename T, typename M>
 void assign(Block<D, T, M> &b, Block<D, T, M> const &other)
 {
+  for (dimension_type d = 0; d != D; ++d)
+    if (b.size(D, d) != other.size(D, d))
+      PYVSIP_THROW(ValueError, "blocks have different shapes");
   ovxx::assign<D>(b, other);
 }
 
-- 
2.43.0


From 67b70e9444686d7535d3e35992518afe55267ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 65/77] fix: refuse in-place operations on Python blocks of
 different shapes

---
 src/ovxx/python/block.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ovxx/python/block.hpp b/src/ovxx/python/block.hpp
index 85d53f5..6ae79fb 100644
--- a/src/ovxx/python/block.hpp
+++ b/src/ovxx/python/block.hpp
@@ -381,6 +381,8 @@ public:
 #define OVXX_DEFINE_OP(OP)						\
   Block &operator OP(Block const &o)					\
   {									\
+    for (dimension_type d = 0; d != dim; ++d)				\
+      OVXX_PRECONDITION(size(dim, d) == o.size(dim, d));		\
     typename view_of<Block>::type self(*this);				\
     typename view_of<Block>::const_type other(const_cast<Block&>(o));	\
     self OP other;							\
-- 
2.43.0


From 8b2f61d0e9334a97c119cf1031ecd43448c869a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 66/77] fix: don't let traces disturb, or fail because of,
 pending Python exceptions

---
 src/ovxx/python/block.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/python/block.hpp b/src/ovxx/python/block.hpp
index 6ae79fb..1d70481 100644
--- a/src/ovxx/python/block.hpp
+++ b/src/ovxx/python/block.hpp
@@ -45,14 +45,26 @@ namespace bpl = boost::python;
 // Send all traces from OVXX_TRACE to the Python logger
 inline void trace(char const *format, ...)
 {
-  bpl::object logging = bpl::import("logging");
-  bpl::object info = logging.attr("info");
+  // Traces are also sent from destructors, where a Python
+  // exception may be pending, and none may be raised.
+  PyObject *type, *value, *traceback;
+  PyErr_Fetch(&type, &value, &traceback);
   va_list args;
   char msg[128];
   va_start(args, format);
   vsnprintf(msg, sizeof(msg), format, args);
   va_end(args);
-  info(msg);
+  try
+  {
+    bpl::object logging = bpl::import("logging");
+    bpl::object info = logging.attr("info");
+    info(msg);
+  }
+  catch (bpl::error_already_set const &)
+  {
+    PyErr_Clear();
+  }
+  PyErr_Restore(type, value, traceback);
 }
 
 namespace
-- 
2.43.0


From 08760841398d7f3e63d5248f6de97d77f9b08410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 67/77] fix: let FFTW operate on interleaved data in all
 configurations

Plans for split complex data can only be executed with arrays whose parts
are as far apart as those the plan was created for, and the buffers offered
to the workspace aren't split. With split as default storage-format
transforms thus aborted or produced wrong values.
---
 src/ovxx/fftw/fft.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/fftw/fft.cpp b/src/ovxx/fftw/fft.cpp
index ee07236..abff17a 100644
--- a/src/ovxx/fftw/fft.cpp
+++ b/src/ovxx/fftw/fft.cpp
@@ -21,8 +21,11 @@ namespace fftw
 // FFTW needs to know the complex storage-format during planning.
 // Since the actual storage-format is only known at execution time,
 // we need to use a best guess, and then require that via query_layout().
-// As best guess we use the library default complex storage-format.
-storage_format_type const complex_storage_format = Dense<1, complex<float> >::storage_format;
+// Plans for split complex data can only be executed with arrays whose
+// real and imaginary parts are the same distance apart as those the plan
+// was created for. As this doesn't hold for arbitrary blocks, always use
+// interleaved data, no matter what the library default is.
+storage_format_type const complex_storage_format = array;
 
 // FFTW's planner isn't thread-safe: the creation and the destruction
 // of plans need to be serialized (the execution of plans doesn't).
-- 
2.43.0


From 88f443bbe2913df1053659abc9441c7a4476e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 68/77] fix: let complex convolutions compile if split is the
 default storage-format

---
 src/ovxx/signal/conv.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/signal/conv.hpp b/src/ovxx/signal/conv.hpp
index 948a278..2e3db5e 100644
--- a/src/ovxx/signal/conv.hpp
+++ b/src/ovxx/signal/conv.hpp
@@ -971,7 +971,9 @@ class Convolution
 {
   static dimension_type const dim = dim_of_view<V>::dim;
 
-  typedef typename view_of<Dense<dim, T> >::type coeff_view_type;
+  // The kernels work on arrays, no matter what the default storage-format is.
+  typedef Layout<dim, tuple<0,1,2>, dense, array> coeff_layout_type;
+  typedef typename view_of<Strided<dim, T, coeff_layout_type> >::type coeff_view_type;
 
 public:
   static symmetry_type const       symmtry = S;
-- 
2.43.0


From d82a11ed7dafa67dc6c4587257e5e527859dbcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 69/77] fix: let FIR filters write only their output if split
 is the default storage-format

---
 src/ovxx/signal/fir.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/signal/fir.hpp b/src/ovxx/signal/fir.hpp
index aee007c..094a0cc 100644
--- a/src/ovxx/signal/fir.hpp
+++ b/src/ovxx/signal/fir.hpp
@@ -100,18 +100,21 @@ public:
   length_type apply(T const *in, stride_type in_stride, length_type in_length,
                     T *out, stride_type out_stride, length_type out_length)
   {
-    typedef expr::Subset<Dense<1, T> > block_type;
+    // The data are accessed in place, so the storage-format of the blocks
+    // has to be that of the data (and not the default one).
+    typedef Strided<1, T, Layout<1, tuple<0,1,2>, dense, array> > io_block_type;
+    typedef expr::Subset<io_block_type> block_type;
     typedef Vector<T, block_type> view_type;
 
     length_type in_extent = abs(in_stride) * (in_length - 1) + 1;
     T *nc_in = const_cast<T*>(in);
-    Dense<1, T> in_block(in_extent, in_stride > 0 ? nc_in : nc_in - in_extent + 1);
+    io_block_type in_block(in_extent, in_stride > 0 ? nc_in : nc_in - in_extent + 1);
     block_type sub_in_block(Domain<1>(in_stride > 0 ? 0 : in_extent - 1,
                                       in_stride, in_length), in_block);
     view_type input(sub_in_block);
 
     length_type out_extent = abs(out_stride) * (out_length - 1) + 1;
-    Dense<1, T> out_block(out_extent, out_stride > 0 ? out : out - out_extent + 1);
+    io_block_type out_block(out_extent, out_stride > 0 ? out : out - out_extent + 1);
     block_type sub_out_block(Domain<1>(out_stride > 0 ? 0 : out_extent - 1,
                                        out_stride, out_length), out_block);
     view_type output(sub_out_block);
-- 
2.43.0


From 103de9b895a9fd9e989c256b7e0726dcf4354f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 70/77] fix: allocate a block's storage before exchanging data
 with user storage

A block's storage is allocated on first access. Binding user storage of
another format to a block that wasn't accessed before made admit(true)
and release(true) dereference a null pointer.
---
 src/ovxx/storage/manager.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/storage/manager.hpp b/src/ovxx/storage/manager.hpp
index edce52e..4aa4708 100644
--- a/src/ovxx/storage/manager.hpp
+++ b/src/ovxx/storage/manager.hpp
@@ -209,7 +209,7 @@ public:
     if (!admitted_ && !use_user_storage_ && update &&
 	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
-	host_storage_.put(i, user_storage_.get(i));
+	put(i, user_storage_.get(i));
     admitted_ = true;
   }
   void release(bool update = true)
@@ -218,7 +218,7 @@ public:
     if (!use_user_storage_ && update &&
 	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
-	user_storage_.put(i, host_storage_.get(i));
+	user_storage_.put(i, get(i));
     admitted_ = false;
   }
   void release(bool update, T*&ptr)
-- 
2.43.0


From ccf062dfdcbf1c32e5831eeede094909d45bc275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 71/77] fix: release the default allocator in configurations
 without MPI

---
 src/ovxx/library.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/library.cpp b/src/ovxx/library.cpp
index 123fe9c..e3808b5 100644
--- a/src/ovxx/library.cpp
+++ b/src/ovxx/library.cpp
@@ -131,8 +131,8 @@ void finalize()
   {
 #if OVXX_HAVE_MPI
     mpi::finalize(global_count == 0);
-    allocator::finalize();
 #endif
+    allocator::finalize();
   }
   if (!global_count)
   {
-- 
2.43.0


From 80a4e33a4878b8755b9792e71d66e5bb3c7621d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 72/77] fix: do not leak a map with every access to the local
 part of a remapped block

---
 src/ovxx/parallel/map_subset_block.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/parallel/map_subset_block.hpp b/src/ovxx/parallel/map_subset_block.hpp
index 0d4d725..9759642 100644
--- a/src/ovxx/parallel/map_subset_block.hpp
+++ b/src/ovxx/parallel/map_subset_block.hpp
@@ -39,7 +39,7 @@ public:
 
   void increment_count() const VSIP_NOTHROW {}
   void decrement_count() const VSIP_NOTHROW {}
-  map_type const &map() const VSIP_NOTHROW { return *(new map_type());}
+  map_type const &map() const VSIP_NOTHROW { return local_map_;}
 
   value_type get(index_type i) const
   {
@@ -77,7 +77,7 @@ private:
   M const &map_;
   index_type   sb_;
   Domain<dim>  dom_;
-
+  map_type     local_map_;
 };
 
 } // namespace ovxx::parallel
-- 
2.43.0


From 52f3c7181d7246067bf667f1cdb8edcdd51ab7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 73/77] fix: do not take the coinciding addresses of empty
 matrices for an in-place transpose

---
 src/ovxx/assign/copy.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index 6a9d441..1acbd1a 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -183,6 +183,9 @@ void copy(LHS &lhs, RHS const &rhs, col2_type, col2_type)
 template <typename LHS, typename RHS>
 void copy(LHS &lhs, RHS const &rhs, col2_type, row2_type)
 {
+  // The addresses of empty data may coincide without them being the same.
+  if (lhs.size() == 0) return;
+
   vsip::dda::Data<LHS, dda::out, typename data_layout<LHS>::type> lhs_data(lhs);
   vsip::dda::Data<RHS, dda::in, typename data_layout<RHS>::type> rhs_data(rhs);
 
@@ -212,6 +215,9 @@ void copy(LHS &lhs, RHS const &rhs, col2_type, row2_type)
 template <typename LHS, typename RHS>
 void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
 {
+  // The addresses of empty data may coincide without them being the same.
+  if (lhs.size() == 0) return;
+
   vsip::dda::Data<LHS, dda::out, typename data_layout<LHS>::type> lhs_data(lhs);
   vsip::dda::Data<RHS, dda::in, typename data_layout<RHS>::type> rhs_data(rhs);
 
-- 
2.43.0


From bf1e3b45071de934bca3f661bef16407c07f628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:50 +0000
Subject: [PATCH 74/77] fix: allocate the padding of the local copy of a
 distributed block accessed directly

---
 src/ovxx/dda/accessor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index e72c741..ba4d091 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -513,7 +513,7 @@ public:
 
   Accessor(B &b, non_const_ptr_type buffer = non_const_ptr_type())
     : block_(b),
-      storage_(b.size(), buffer),
+      storage_(required_buffer_size(b), buffer),
       lblock_(block_domain<B::dim>(b), storage_.ptr()),
       assigner_(lblock_, block_),
       local_access_(lblock_)
-- 
2.43.0


From 94dac908c991fe8acf657dfd57baed956e304879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:51 +0000
Subject: [PATCH 75/77] fix: let unit-stride access to distributed blocks
 compile

---
 src/ovxx/dda/accessor.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index ba4d091..735d9df 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -485,10 +485,17 @@ class Accessor<B, L, S, remote_access,
     B &b_;
   };
 
+  typedef typename adjust_layout<L, typename get_block_layout<B>::type>::type
+    adjusted_layout_type;
+
 public:
   static access_kind const access = remote_access;
-  typedef typename adjust_layout<L, typename get_block_layout<B>::type>::type
-    layout_type;
+  // The local copy is dense where unit stride is all that matters.
+  typedef Layout<adjusted_layout_type::dim,
+		 typename adjusted_layout_type::order_type,
+		 adjusted_layout_type::packing == unit_stride ?
+		   dense : adjusted_layout_type::packing,
+		 adjusted_layout_type::storage_format> layout_type;
   typedef typename B::value_type value_type;
   typedef typename view_of<B>::type dist_view_type;
 
-- 
2.43.0


From 2a39b5cd7a4480d22a91c6c3ef17745a60776b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:51 +0000
Subject: [PATCH 76/77] fix: let direct access to subviews of replicated blocks
 compile

---
 src/ovxx/dda/accessor.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 735d9df..6be89b2 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -332,6 +332,10 @@ class Accessor<B, L, S, local_access,
     typename distributed_local_block<non_const_block_type>::type>::type
   local_block_type;
   typedef Accessor<local_block_type, L, S> local_access_type;
+  // Local blocks of subviews are values, others are references.
+  typedef typename block_traits<
+    typename distributed_local_block<non_const_block_type>::type>::plain_type
+  local_storage_type;
 
 public:
   static access_kind const access = local_access;
@@ -357,7 +361,8 @@ public:
   { return local_access_type::required_buffer_size(b);}
 
   Accessor(B &b, non_const_ptr_type buffer = non_const_ptr_type())
-    : local_access_(local_cast(b), buffer)
+    : local_block_(get_local_block(const_cast<non_const_block_type &>(b))),
+      local_access_(local_block_, buffer)
   {}
   ~Accessor() {}
 
@@ -375,9 +380,7 @@ public:
   length_type storage_size() const { return local_access_.storage_size();}
 
 private:
-  static local_block_type &local_cast(B &b)
-  { return get_local_block(const_cast<non_const_block_type &>(b));}
-
+  local_storage_type local_block_;
   local_access_type local_access_;
 };
 
-- 
2.43.0


From 6bb2561cf1c6025f6cabfab4bbf35b39f54e7d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 77/77] fix: do not copy padded split-complex matrices over the
 end of the buffers of convolution and correlation

---
 src/ovxx/signal/conv.hpp | 12 ++++++++----
 src/ovxx/signal/corr.hpp | 16 +++++++++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/ovxx/signal/conv.hpp b/src/ovxx/signal/conv.hpp
index 2e3db5e..302c0a6 100644
--- a/src/ovxx/signal/conv.hpp
+++ b/src/ovxx/signal/conv.hpp
@@ -1098,10 +1098,14 @@ Convolution<V, S, R, T, N, H>::convolve
   typedef typename get_block_layout<B1>::type L1;
   typedef typename get_block_layout<B2>::type L2;
 
-  typedef Layout<2, any_type, any_packing, array> req_layout;
-
-  typedef typename adjust_layout<req_layout, L1>::type use_l1;
-  typedef typename adjust_layout<req_layout, L2>::type use_l2;
+  // Data in another storage format is copied into our (dense) buffers.
+  typedef Layout<2, any_type,
+    L1::storage_format == array ? any_packing : dense, array> req_layout1;
+  typedef Layout<2, any_type,
+    L2::storage_format == array ? any_packing : dense, array> req_layout2;
+
+  typedef typename adjust_layout<req_layout1, L1>::type use_l1;
+  typedef typename adjust_layout<req_layout2, L2>::type use_l2;
 
   typedef dda::Data<typename coeff_view_type::block_type, dda::in>
     coeff_data_type;
diff --git a/src/ovxx/signal/corr.hpp b/src/ovxx/signal/corr.hpp
index 54036fc..7066332 100644
--- a/src/ovxx/signal/corr.hpp
+++ b/src/ovxx/signal/corr.hpp
@@ -748,11 +748,17 @@ Correlation<D, R, T, N, H>::correlate
   typedef typename get_block_layout<B2>::type L2;
   typedef typename get_block_layout<B3>::type L3;
 
-  typedef Layout<2, any_type, any_packing, array> req_layout;
-
-  typedef typename adjust_layout<req_layout, L1>::type use_l1;
-  typedef typename adjust_layout<req_layout, L2>::type use_l2;
-  typedef typename adjust_layout<req_layout, L3>::type use_l3;
+  // Data in another storage format is copied into our (dense) buffers.
+  typedef Layout<2, any_type,
+    L1::storage_format == array ? any_packing : dense, array> req_layout1;
+  typedef Layout<2, any_type,
+    L2::storage_format == array ? any_packing : dense, array> req_layout2;
+  typedef Layout<2, any_type,
+    L3::storage_format == array ? any_packing : dense, array> req_layout3;
+
+  typedef typename adjust_layout<req_layout1, L1>::type use_l1;
+  typedef typename adjust_layout<req_layout2, L2>::type use_l2;
+  typedef typename adjust_layout<req_layout3, L3>::type use_l3;
 
   typedef dda::Data<B1, dda::in, use_l1> ref_data_type;
   typedef dda::Data<B2, dda::in, use_l2> in_data_type;
-- 
2.43.0

