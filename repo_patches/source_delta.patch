From 62c7205cb8ad258699332bf63e50834a91410221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 01/37] fix: LVARRAY_ERROR_IF_LE and LVARRAY_THROW_IF_LE tested
 the opposite relation

---
 src/Macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Macros.hpp b/src/Macros.hpp
index aa8fe6f..da2ce11 100644
--- a/src/Macros.hpp
+++ b/src/Macros.hpp
@@ -446,7 +446,7 @@
  * @param lhs expression to be evaluated and used as left-hand side in comparison
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  */
-#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_GE_MSG( lhs, rhs, "" )
+#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_LE_MSG( lhs, rhs, "" )
 
 /**
  * @brief Throw an exception if one value compares less than or equal to the other.
@@ -454,7 +454,7 @@
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  * @param TYPE the type of exception to throw
  */
-#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_GE_MSG( lhs, rhs, "", TYPE )
+#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_LE_MSG( lhs, rhs, "", TYPE )
 
 /**
  * @brief Abort execution if @p lhs @p OP @p rhs is false.
-- 
2.43.0


From be9fc73d768338fd2b762b5fa8d4b4486bb21e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 02/37] fix: integerConversion from a signed type to a larger
 unsigned type did not check for negative values

---
 src/limits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limits.hpp b/src/limits.hpp
index 9a55104..4f7d754 100644
--- a/src/limits.hpp
+++ b/src/limits.hpp
@@ -120,7 +120,8 @@ constexpr bool sameSignedness = ( std::is_signed< T >::value && std::is_signed<
  * @brief True iff @tparam OUTPUT can hold every possible value of @tparam INPUT.
  */
 template< typename INPUT, typename OUTPUT >
-constexpr bool canEasilyConvert = sizeof( INPUT ) < sizeof( OUTPUT ) ||
+constexpr bool canEasilyConvert = ( sizeof( INPUT ) < sizeof( OUTPUT ) &&
+                                    ( std::is_unsigned< INPUT >::value || std::is_signed< OUTPUT >::value ) ) ||
                                   ( sizeof( INPUT ) == sizeof( OUTPUT ) && sameSignedness< INPUT, OUTPUT > );
 
 } // namespace internal
-- 
2.43.0


From 8a61c35224b943a9437d2c461384f449f4dc3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 03/37] fix: math::getFirst and math::getSecond did not compile
 for single-valued types

---
 src/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.hpp b/src/math.hpp
index f832e0f..b197055 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -77,7 +77,7 @@ struct SingleType
  */
 template< typename T >
 LVARRAY_HOST_DEVICE inline constexpr
-SingleType< T > getFirst( T const x )
+typename SingleType< T >::type getFirst( T const x )
 { return x; }
 
 /**
@@ -87,7 +87,7 @@ SingleType< T > getFirst( T const x )
  */
 template< typename T >
 LVARRAY_HOST_DEVICE inline constexpr
-SingleType< T > getSecond( T const x )
+typename SingleType< T >::type getSecond( T const x )
 { return x; }
 
 /**
-- 
2.43.0


From 6435bbb47793e231ca3525e3eda65d55091e2dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 04/37] fix: check the extents of the operand of the in-place
 3x3 tensorOps::invert

---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index f006d86..a16b731 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -628,9 +628,11 @@ struct SquareMatrixOps< 3 >
    * @note @p srcMatrix must contain floating point values.
    */
   template< typename MATRIX >
-  LVARRAY_HOST_DEVICE constexpr inline
+  LVARRAY_HOST_DEVICE CONSTEXPR_WITHOUT_BOUNDS_CHECK inline
   static auto invert( MATRIX && matrix )
   {
+    checkSizes< 3, 3 >( matrix );
+
     using realType = std::remove_reference_t< decltype( matrix[ 0 ][ 0 ] ) >;
 #if 0
     realType temp[ 3 ][ 3 ];
-- 
2.43.0


From 0d9e6f044e6e4f701c09dd7c99456467308b15bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 05/37] fix: keep debugger display rows inside the display
 buffer

TV_ttf_add_row added the used part of the buffer to the space it believed to be left, never reported that the
buffer was exhausted, looped for ever once a row was truncated, and printed addresses with bit 31 set by reading
outside the table of digits.
---
 src/totalview/tv_data_display.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/totalview/tv_data_display.c b/src/totalview/tv_data_display.c
index 7770087..dfd48c2 100644
--- a/src/totalview/tv_data_display.c
+++ b/src/totalview/tv_data_display.c
@@ -139,9 +139,10 @@ marshal_string ( char * buffer, size_t len, const char * s,
     ret_val++;
     if( len > 1 )
     {
-      *cursor++ = *s++;
+      *cursor++ = *s;
       len--;
     }
+    s++;
   }
   if( len > 0 )
     *cursor = '\0';
@@ -166,7 +167,7 @@ marshal_unsigned_body ( char * buffer, size_t len, size_t val, int base,
   char * my_buffer  = buffer;
   size_t my_len     = len;
 
-  if( (int)val < base )
+  if( val < (size_t)base )
   {
     r = val;
   }
@@ -269,8 +270,8 @@ int TV_ttf_add_row( const char * field_name,
     TV_ttf_data_format_control = TV_FORMAT_APPEND_CALL;
   }
 
-  remaining = TV_ttf_data_buffer_ptr +
-              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_format_buffer;
+  remaining = TV_ttf_data_format_buffer +
+              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_buffer_ptr;
 
 /*
    out = snprintf(TV_ttf_data_buffer_ptr,
@@ -280,8 +281,12 @@ int TV_ttf_add_row( const char * field_name,
   out = marshal_row ( TV_ttf_data_buffer_ptr, remaining,
                       field_name, type_name, value, 0, 0 );
 
-  if( out < 1 )
+  if( out < 1 || (size_t) out >= remaining )
+  {
+    /* Drop the truncated row. */
+    *TV_ttf_data_buffer_ptr = '\0';
     return TV_ttf_ec_buffer_exhausted;
+  }
 
   TV_ttf_data_buffer_ptr += out;
 
-- 
2.43.0


From 99d829329fcb4911e36ab64d34c6286a731a91dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 06/37] fix: debugger display of arrays did not compile, slices
 showed storage they do not have

ArrayView::TV_ttf_display_type called a non-template with template arguments and passed CArrays by value. The
m_data row of ArraySlice claimed dims[ 0 ] values also when another extent is zero.
---
 src/ArraySlice.hpp | 3 ++-
 src/ArrayView.hpp  | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index b4e2234..62e8c64 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -355,7 +355,8 @@ public:
       //std::cout<<"Totalview using ("<<totalview::format<T,INDEX_TYPE>(NDIM, av->m_dims )<<") for display of
       // m_data;"<<std::endl;
       TV_ttf_add_row( "tv(m_data)", totalview::format< T, INDEX_TYPE >( NDIM, av->m_dims ).c_str(), (av->m_data) );
-      TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 1, av->m_dims ).c_str(), (av->m_data) );
+      INDEX_TYPE const size = av->size();
+      TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 1, &size ).c_str(), (av->m_data) );
       TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims) );
       TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides) );
     }
diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index cbbf669..a522136 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -703,9 +703,9 @@ public:
       // m_data;"<<std::endl;
       // TV_ttf_add_row( "tv(m_data)", totalview::format< T, INDEX_TYPE >( NDIM, av->m_dims ).c_str(), (av->m_data) );
       // TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 0, av->m_dims ).c_str(), (av->m_data) );
-      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims) );
-      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides) );
-      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangle< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
+      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), &(av->m_dims) );
+      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), &(av->m_strides) );
+      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangleType< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
       TV_ttf_add_row( "m_singleParameterResizeIndex", "int", &(av->m_singleParameterResizeIndex) );
     }
     return 0;
-- 
2.43.0


From d7ff12449970817a42eb2787acad53ba591f39f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 07/37] fix: bounds checked size( dim ) and stride( dim )
 accepted negative (slices) or any (views in release builds) dimensions

---
 src/ArraySlice.hpp | 2 ++
 src/ArrayView.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index 62e8c64..e7db868 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -190,6 +190,7 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
@@ -203,6 +204,7 @@ public:
   INDEX_TYPE stride( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_strides[ dim ];
diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index a522136..f36cf5e 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -416,8 +416,8 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
-    LVARRAY_ASSERT_GE( dim, 0 );
-    LVARRAY_ASSERT_GT( NDIM, dim );
+    LVARRAY_ERROR_IF_LT( dim, 0 );
+    LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
   }
-- 
2.43.0


From ab88019054067a7e0812d4338e1c1f9d8b06443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 08/37] fix: bufferManipulation::erase did not reject negative
 positions

---
 src/bufferManipulation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bufferManipulation.hpp b/src/bufferManipulation.hpp
index 62b9453..860a7b8 100644
--- a/src/bufferManipulation.hpp
+++ b/src/bufferManipulation.hpp
@@ -373,6 +373,7 @@ template< typename BUFFER >
 void erase( BUFFER & buf, std::ptrdiff_t const size, std::ptrdiff_t const pos )
 {
   check( buf, size );
+  LVARRAY_ERROR_IF_LT( pos, 0 );
   LVARRAY_ERROR_IF_GE( pos, size );
 
   arrayManipulation::erase( buf.data(), size, pos, std::ptrdiff_t( 1 ) );
-- 
2.43.0


From 01fd1a9c6fdf6dcd534038ade7bf4b3ef4384bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 09/37] fix: bounds checked ArrayOfArraysView::appendToArray
 wrote past the capacity before checking it

---
 src/ArrayOfArraysView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 7aebc59..824504a 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -484,10 +484,10 @@ public:
   void appendToArray( INDEX_TYPE const i, ITER const first, ITER const last ) const
   {
     ARRAYOFARRAYS_CHECK_BOUNDS( i );
+    ARRAYOFARRAYS_CAPACITY_CHECK( i, arrayManipulation::iterDistance( first, last ) );
 
     T * const ptr = m_values.data() + m_offsets[ i ];
     INDEX_TYPE const n = arrayManipulation::append( ptr, sizeOfArray( i ), first, last );
-    ARRAYOFARRAYS_CAPACITY_CHECK( i, n );
     m_sizes[ i ] += n;
   }
 
-- 
2.43.0


From 7e6bdf78ec79cfc0083f12c5c33464063a3c142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 10/37] fix: bounds checked ArrayOfArrays::emplace and
 insertIntoArray moved values before checking the position

---
 src/ArrayOfArrays.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 1ce2231..e83cb58 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -378,6 +378,7 @@ public:
   template< typename ... ARGS >
   void emplace( INDEX_TYPE const i, INDEX_TYPE const j, ARGS && ... args )
   {
+    ARRAYOFARRAYS_CHECK_INSERT_BOUNDS2( i, j );
     dynamicallyGrowArray( i, 1 );
     ParentClass::emplace( i, j, std::forward< ARGS >( args )... );
   }
@@ -393,6 +394,7 @@ public:
   template< typename ITER >
   void insertIntoArray( INDEX_TYPE const i, INDEX_TYPE const j, ITER const first, ITER const last )
   {
+    ARRAYOFARRAYS_CHECK_INSERT_BOUNDS2( i, j );
     INDEX_TYPE const n = arrayManipulation::iterDistance( first, last );
     dynamicallyGrowArray( i, n );
     ParentClass::insertIntoArray( i, j, first, last );
-- 
2.43.0


From 66ce3555f950fa48a7df19b07ea71885b51d2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 11/37] fix: bounds checked SparsityPattern, CRSMatrix and
 CRSMatrixView inserted and removed columns beyond the number of columns

---
 src/CRSMatrix.hpp       | 17 +++++++++++++++--
 src/CRSMatrixView.hpp   | 30 +++++++++++++++++++++++++++---
 src/SparsityPattern.hpp | 17 +++++++++++++++--
 3 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index ddd786c..ad9ed52 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -376,7 +376,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -393,7 +397,16 @@ public:
                              COL_TYPE const * const cols,
                              T const * const entriesToInsert,
                              INDEX_TYPE const ncols )
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   using ParentClass::removeNonZero;
   using ParentClass::removeNonZeros;
diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 703688c..d7c7337 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -276,7 +276,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry ) const
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -294,7 +298,16 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 T const * const LVARRAY_RESTRICT entriesToInsert,
                                 INDEX_TYPE const ncols ) const
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   /**
    * @brief Remove a non-zero entry at the given position.
@@ -304,7 +317,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool removeNonZero( INDEX_TYPE const row, COL_TYPE const col ) const
-  { return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr )); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr ));
+  }
 
   /**
    * @brief Remove non-zero entries from the given row.
@@ -320,6 +337,13 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 INDEX_TYPE const ncols ) const
   {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
     T * const entries = getEntries( row );
     INDEX_TYPE const rowNNZ = numNonZeros( row );
     INDEX_TYPE const nRemoved = ParentClass::removeFromSetImpl( row, cols, cols + ncols, CallBacks( *this, row, nullptr ) );
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 652d5e5..947de4d 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -324,7 +324,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) );
+  }
 
   /**
    * @tparam ITER An iterator type.
@@ -338,7 +342,16 @@ public:
   template< typename ITER >
   inline
   INDEX_TYPE insertNonZeros( INDEX_TYPE const row, ITER const first, ITER const last )
-  { return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( ITER iter = first; iter != last; ++iter )
+    { SPARSITYPATTERN_COLUMN_CHECK( *iter ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) );
+  }
 
   using ParentClass::removeNonZero;
 
-- 
2.43.0


From 8721fed72a7039a7efbb023b2f3b36e2416239bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 12/37] fix: the report of a failed ArrayOfArraysView bounds
 check read the size of the array that does not exist

---
 src/ArrayOfArraysView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 824504a..9ddec6c 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -46,7 +46,7 @@
   LVARRAY_ERROR_IF( !arrayManipulation::isPositive( i ) || i >= this->size() || \
                     !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
                     "Bounds Check Failed: i=" << i << " size()=" << this->size() << \
-                    " j=" << j << " m_sizes[ i ]=" << this->m_sizes[ i ] )
+                    " j=" << j << " sizeOfArray( i )=" << this->sizeOfArray( i ) )
 
 /**
  * @brief Check that @p i is a valid index to insert an array at.
-- 
2.43.0


From d1b391b82e9baa2fae9bd55c04f5bd4fe832d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 13/37] fix: copy assigning an ArrayOfArrays moved values that
 it had already destroyed, and read beyond the end of the old buffer

---
 src/ArrayOfArraysView.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 9ddec6c..f0c6959 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -840,10 +840,10 @@ protected:
     bufferManipulation::copyInto( m_offsets, offsetsSize, srcOffsets, srcNumArrays + 1 );
     bufferManipulation::copyInto( m_sizes, m_numArrays, srcSizes, srcNumArrays );
 
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [maxOffset, srcMaxOffset]( auto & dstBuffer )
+    // The values have been destroyed, there are none to carry over.
+    typeManipulation::forEachArg( [srcMaxOffset]( auto & dstBuffer )
     {
-      bufferManipulation::reserve( dstBuffer, maxOffset, MemorySpace::host, srcMaxOffset );
+      bufferManipulation::reserve( dstBuffer, 0, MemorySpace::host, srcMaxOffset );
     }, m_values, pairs.first ... );
 
     m_numArrays = srcNumArrays;
-- 
2.43.0


From 78c0de8bbc42d65764af6160837eeb45891c5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 14/37] fix: move assignment of Array and SortedArray leaked
 the storage of the target

---
 src/Array.hpp       | 3 ++-
 src/SortedArray.hpp | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 69fc34e..1eb1964 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -185,13 +185,14 @@ public:
   }
 
   /**
-   * @brief Move assignment operator, performs a shallow copy of rhs.
+   * @brief Move assignment operator, frees the current values and performs a shallow copy of rhs.
    * @param rhs Source for the assignment.
    * @return *this.
    */
   LVARRAY_HOST_DEVICE
   Array & operator=( Array && rhs )
   {
+    bufferManipulation::free( this->m_dataBuffer, this->size() );
     ParentClass::operator=( std::move( rhs ) );
 
     for( int i = 0; i < NDIM; ++i )
diff --git a/src/SortedArray.hpp b/src/SortedArray.hpp
index 58ea36f..854f57d 100644
--- a/src/SortedArray.hpp
+++ b/src/SortedArray.hpp
@@ -106,12 +106,17 @@ public:
   }
 
   /**
-   * @brief Default move assignment operator, performs a shallow copy.
+   * @brief Move assignment operator, frees the current values and performs a shallow copy.
    * @param src the SortedArray to be moved from.
    * @return *this.
    */
   inline
-  SortedArray & operator=( SortedArray && src ) = default;
+  SortedArray & operator=( SortedArray && src )
+  {
+    bufferManipulation::free( this->m_values, size() );
+    ParentClass::operator=( std::move( src ) );
+    return *this;
+  }
 
   ///@}
 
-- 
2.43.0


From e779f777fb59e09c9f36e74a6bc0af07e93eac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 15/37] fix: copy assigning an ArrayOfArrays, ArrayOfSets,
 SparsityPattern or CRSMatrix to itself destroyed its values and then copied
 them

---
 src/ArrayOfArrays.hpp   | 2 ++
 src/ArrayOfSets.hpp     | 2 ++
 src/CRSMatrix.hpp       | 2 ++
 src/SparsityPattern.hpp | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index e83cb58..6a5ae16 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -168,6 +168,8 @@ public:
   inline
   ArrayOfArrays & operator=( ArrayOfArrays const & src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index c8b7519..2a976f0 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -98,6 +98,8 @@ public:
   inline
   ArrayOfSets & operator=( ArrayOfSets const & src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index ad9ed52..93dcf73 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -100,6 +100,8 @@ public:
   inline
   CRSMatrix & operator=( CRSMatrix const & src )
   {
+    if( this == &src ) return *this;
+
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 947de4d..7496c81 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -95,6 +95,8 @@ public:
   inline
   SparsityPattern & operator=( SparsityPattern const & src )
   {
+    if( this == &src ) return *this;
+
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
-- 
2.43.0


From 6b47d03ebfd22487c2d918d1e958dae20de6295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 16/37] fix: copying an ArrayOfArrays, ArrayOfSets,
 SparsityPattern or CRSMatrix that was moved from read offsets it does not
 have

---
 src/ArrayOfArrays.hpp     | 2 +-
 src/ArrayOfArraysView.hpp | 5 ++++-
 src/ArrayOfSets.hpp       | 2 +-
 src/CRSMatrix.hpp         | 2 +-
 src/SparsityPattern.hpp   | 2 +-
 5 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 6a5ae16..d7a7b3a 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -171,7 +171,7 @@ public:
     if( this == &src ) return *this;
 
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index f0c6959..269c7fc 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -837,7 +837,10 @@ protected:
 
     INDEX_TYPE const offsetsSize = ( m_numArrays == 0 ) ? 0 : m_numArrays + 1;
 
-    bufferManipulation::copyInto( m_offsets, offsetsSize, srcOffsets, srcNumArrays + 1 );
+    // A source that was moved from has no offsets.
+    if( srcNumArrays == 0 ) bufferManipulation::resize( m_offsets, offsetsSize, 1, 0 );
+    else bufferManipulation::copyInto( m_offsets, offsetsSize, srcOffsets, srcNumArrays + 1 );
+
     bufferManipulation::copyInto( m_sizes, m_numArrays, srcSizes, srcNumArrays );
 
     // The values have been destroyed, there are none to carry over.
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index 2a976f0..a7b73cc 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -101,7 +101,7 @@ public:
     if( this == &src ) return *this;
 
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index 93dcf73..3b1c64c 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -104,7 +104,7 @@ public:
 
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values,
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 7496c81..5af072c 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -99,7 +99,7 @@ public:
 
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
-- 
2.43.0


From af266612a93783aa631c51d549630ace87d4e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 17/37] fix: copy assigning to or resizing a container with a
 ChaiBuffer that was moved from dereferenced its null record

---
 src/ChaiBuffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 7a3bfd5..4c4f9b1 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -280,6 +280,9 @@ public:
    */
   void reallocate( std::ptrdiff_t const size, MemorySpace const space, std::ptrdiff_t const newCapacity )
   {
+    // A buffer that was moved from has no record to copy the callback and the allocators from.
+    if( m_pointerRecord == nullptr ) *this = ChaiBuffer( true );
+
     chai::PointerRecord * const newRecord = new chai::PointerRecord{};
     newRecord->m_size = newCapacity * sizeof( T );
     newRecord->m_user_callback = m_pointerRecord->m_user_callback;
-- 
2.43.0


From a79413df60ed4566a608f8112e3cb0537b8231cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:30 +0000
Subject: [PATCH 18/37] fix: ArraySlice::isContiguous, a slice with no elements
 is contiguous

---
 src/ArraySlice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index e7db868..8bc0b95 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -229,7 +229,8 @@ public:
       {
         if( j != i ) prod *= m_dims[j];
       }
-      rval &= (m_strides[i] <= prod);
+      // If another dimension is empty so is the slice, whatever the strides.
+      rval &= ( prod == 0 || m_strides[i] <= prod );
     }
     return rval;
   }
-- 
2.43.0


From 5892fe253ad74f2fd09a999f272eec50ab37f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:30 +0000
Subject: [PATCH 19/37] fix: CRSMatrixView::zero, the number of bytes need not
 fit in the index type

---
 src/CRSMatrixView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index d7c7337..68c3648 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -401,7 +401,7 @@ public:
       ParentClass::move( m_entries.getPreviousSpace(), false );
       m_entries.move( m_entries.getPreviousSpace(), true );
 
-      INDEX_TYPE const numBytes = m_entries.capacity() * sizeof( T );
+      std::size_t const numBytes = m_entries.capacity() * sizeof( T );
       umpireInterface::memset( m_entries.data(), 0, numBytes );
     }
   }
-- 
2.43.0


From 963643686b4d3dd004fc1db062dd9a101af33fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:59 +0000
Subject: [PATCH 20/37] fix: slices with debugger display and bounds checks did
 not compile in release builds

The debugger headers were included in debug builds only.
---
 src/ArraySlice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index 8bc0b95..1927378 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -40,7 +40,7 @@ DEFINE_GDB_PY_SCRIPT( "scripts/gdb-printers.py" )
 #include "Macros.hpp"
 
 // System includes
-#ifndef NDEBUG
+#if !defined(NDEBUG) || ( defined(LVARRAY_USE_TOTALVIEW_OUTPUT) && !defined(__CUDA_ARCH__) )
   #include "totalview/tv_data_display.h"
   #include "totalview/tv_helpers.hpp"
 #endif
-- 
2.43.0


From 222275a465f99c7240980c6e1a364b516e8a328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 21/37] fix: text input nested deeper than the array wrote past
 the parser's counters

"{{1},{{2}}}" passes the other format checks of a two dimensional array and indexed dims, currentDims and dimSet with 2.
---
 src/input.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index fde15d5..d88481d 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -230,6 +230,10 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     if( c=='{' )
     {
       ++dimLevel;
+      LVARRAY_ERROR_IF( dimLevel>=NDIM,
+                        "In parsing the input string, the number of nested dimensions exceeds that of the array ("<<NDIM<<
+                        "). The values that have been parsed prior to the error are:\n"<<
+                        valueString.substr( 0, charCount+1 ) );
     }
     else if( c=='}' )
     {
-- 
2.43.0


From fb2a72a61fa6bc0b1a93afed32188865fce69ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 22/37] fix: text input with an invalid value threw
 std::out_of_range while composing the error message

tellg() is -1 on a failed stream, and substr( -1 ) throws, so the error handler was never called.
---
 src/input.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/input.hpp b/src/input.hpp
index d88481d..f03e3a1 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -63,8 +63,7 @@ struct StringToArrayHelper
     inputStream >> arrayValue;
 
     LVARRAY_ERROR_IF( inputStream.fail(),
-                      "Invalid value of type " << typeid(T).name() << " in: " <<
-                      ( inputStream.eof()  ?  "" : inputStream.str().substr( inputStream.tellg() ) ) );
+                      "Invalid value of type " << typeid(T).name() << " in: " << inputStream.str() );
   }
 
   /**
-- 
2.43.0


From a29082c78b5a107825c1ae2e9825e6d1bfca6dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 23/37] fix: text input with a comma before a closing brace was
 accepted when an earlier value could be split in two

---
 src/input.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index f03e3a1..7a149ce 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -237,6 +237,9 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     else if( c=='}' )
     {
       // } means that we are closing a dimension. That means we know the size of this dimLevel
+      LVARRAY_ERROR_IF( lastChar==',',
+                        "character of '}' follows ','. A value must follow a comma. The values that have been parsed "
+                        "prior to the error are:\n"<<valueString.substr( 0, charCount+1 ) );
       dimSet[dimLevel] = true;
       LVARRAY_ERROR_IF( dims[dimLevel]!=currentDims[dimLevel],
                         "Dimension "<<dimLevel<<" is inconsistent across the expression. "
-- 
2.43.0


From 4b29f469a732c5d810ffb177dd848771154a55b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:10 +0000
Subject: [PATCH 24/37] fix: methods of an ArrayOfArrays or ArrayOfSets created
 by calling its Python type dereferenced a null container

---
 src/python/PyArrayOfArrays.cpp | 7 +++++++
 src/python/PyArrayOfSets.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index d4dcd7c..04ca2f6 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -107,6 +107,7 @@ static PyObject * PyArrayOfArrays_getitem( PyArrayOfArrays * const self, Py_ssiz
 
 static int PyArrayOfArrays_delitem( PyArrayOfArrays * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfArrays == nullptr, PyExc_RuntimeError, "The PyArrayOfArrays is not initialized.", -1 );
   if( self->arrayOfArrays->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfArrays is not resizeable" );
@@ -153,6 +154,8 @@ static constexpr char const * PyArrayOfArrays_insertIntoDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insertIntoArray( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long array, index;
   PyObject * arr;
@@ -184,6 +187,8 @@ static constexpr char const * PyArrayOfArrays_insertDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insert( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
@@ -212,6 +217,8 @@ static constexpr char const * PyArrayOfArrays_eraseFromDocString =
   "Remove the value at ``index`` in the subarray ``array``.";
 static PyObject * PyArrayOfArrays_eraseFrom( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index, begin;
   if( !PyArg_ParseTuple( args, "LL", &index, &begin ) )
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 33192fd..5ee446d 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -107,6 +107,7 @@ static PyObject * PyArrayOfSets_getitem( PyArrayOfSets * const self, Py_ssize_t
 
 static int PyArrayOfSets_delitem( PyArrayOfSets * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfSets == nullptr, PyExc_RuntimeError, "The PyArrayOfSets is not initialized.", -1 );
   if( self->arrayOfSets->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfSets is not resizeable" );
@@ -155,6 +156,8 @@ static constexpr char const * PyArrayOfSets_insertIntoDocString =
   "    The number of values inserted into the set.";
 static PyObject * PyArrayOfSets_insertIntoSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long setIndex;
   PyObject * arr;
@@ -188,6 +191,8 @@ static constexpr char const * PyArrayOfSets_insertSetDocString =
   "Insert a new set with a starting capacity";
 static PyObject * PyArrayOfSets_insertSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   long long capacity = 0;
@@ -219,6 +224,8 @@ static constexpr char const * PyArrayOfSets_removeFromSetDocString =
   "    The number of values removed from the set.";
 static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
-- 
2.43.0


From 5c6b1e79c4f2c9aa88fcbb085520af3bf185466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:10 +0000
Subject: [PATCH 25/37] fix: ArrayOfSets.erase_from ignored a failed conversion
 of its values and returned with an exception set

---
 src/python/PyArrayOfSets.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 5ee446d..b14240a 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -243,6 +243,11 @@ static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject *
   std::tuple< PyObjectRef< PyObject >, void const *, long long > ret =
     parseNumPyArray( arr, self->arrayOfSets->valueType() );
 
+  if( std::get< 0 >( ret ) == nullptr )
+  {
+    return nullptr;
+  }
+
   return PyLong_FromLongLong( self->arrayOfSets->removeFromSet( index,
                                                                 std::get< 1 >( ret ),
                                                                 std::get< 2 >( ret ) ) );
-- 
2.43.0


From efc48eb57dbf5bb5e11901d7c08aee1e0fac5acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 26/37] fix: CRSMatrix.add_to_row read past its columns when
 given fewer columns than values

---
 src/python/PyCRSMatrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 9b81a4b..782c7a1 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -334,6 +334,9 @@ static PyObject * PyCRSMatrix_addToRow( PyCRSMatrix * const self, PyObject * con
     return nullptr;
   }
 
+  PYTHON_ERROR_IF( std::get< 2 >( colsInfo ) != std::get< 2 >( valsInfo ), PyExc_RuntimeError,
+                   "Number of columns and values must match!", nullptr );
+
   long long const numRows = self->matrix->numRows();
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
-- 
2.43.0


From eb7767c5bca7141d7226337a83b2f2222dd39e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 27/37] fix: CRSMatrix.to_scipy leaked its three arrays and
 crashed when scipy could not be imported

---
 src/python/PyCRSMatrix.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 782c7a1..4f41b2a 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -166,24 +166,36 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
                    "Empty matrices cannot be exported to SciPy", nullptr );
 
   std::array< PyObject *, 3 > const triple = self->matrix->getEntriesColumnsAndOffsets();
+  PyObjectRef<> entries{ triple[ 0 ] };
+  PyObjectRef<> columns{ triple[ 1 ] };
+  PyObjectRef<> offsets{ triple[ 2 ] };
 
-  PYTHON_ERROR_IF( triple[ 0 ] == nullptr, PyExc_RuntimeError,
+  PYTHON_ERROR_IF( entries == nullptr, PyExc_RuntimeError,
                    "Error constructing the entries NumPy array", nullptr );
 
-  PYTHON_ERROR_IF( triple[ 1 ] == nullptr, PyExc_RuntimeError,
+  PYTHON_ERROR_IF( columns == nullptr, PyExc_RuntimeError,
                    "Error constructing the columns NumPy array", nullptr );
 
-  PYTHON_ERROR_IF( triple[ 2 ] == nullptr, PyExc_RuntimeError,
+  PYTHON_ERROR_IF( offsets == nullptr, PyExc_RuntimeError,
                    "Error constructing the offsets NumPy array", nullptr );
 
   PyObjectRef<> sciPySparse = PyImport_ImportModule( "scipy.sparse" );
+  if( sciPySparse == nullptr )
+  {
+    return nullptr;
+  }
+
   PyObjectRef<> constructor = PyObject_GetAttrString( sciPySparse, "csr_matrix" );
+  if( constructor == nullptr )
+  {
+    return nullptr;
+  }
 
   return PyObject_CallFunction( constructor,
                                 "(OOO)(ll)",
-                                triple[ 0 ],
-                                triple[ 1 ],
-                                triple[ 2 ],
+                                entries.get(),
+                                columns.get(),
+                                offsets.get(),
                                 self->matrix->numRows(),
                                 self->matrix->numColumns() );
 }
-- 
2.43.0


From cb505b5501a28ff56f6d603d44be354d4ee7a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 28/37] fix: Array.resize_all aborted the interpreter when
 given a negative dimension

---
 src/python/PyArray.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 8e36b51..9be6145 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -178,7 +178,13 @@ static PyObject * PyArray_resizeAll( PyArray * const self, PyObject * const args
   PYTHON_ERROR_IF( std::get< 2 >( ret ) != self->array->ndim(), PyExc_RuntimeError,
                    "Invalid number of dimensions, should be " << self->array->ndim(), nullptr );
 
-  self->array->resize( reinterpret_cast< long long const * >( std::get< 1 >( ret ) ) );
+  long long const * const dims = reinterpret_cast< long long const * >( std::get< 1 >( ret ) );
+  for( long long i = 0; i < std::get< 2 >( ret ); ++i )
+  {
+    PYTHON_ERROR_IF( dims[ i ] < 0, PyExc_RuntimeError, "Dimensions must be positive.", nullptr );
+  }
+
+  self->array->resize( dims );
 
   Py_RETURN_NONE;
 }
-- 
2.43.0


From 53fc754ec61c26eadf849119745aa20772ebe865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 29/37] fix: parseNumPyArray used the result of a cast that
 failed

---
 src/python/numpyHelpers.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/numpyHelpers.cpp b/src/python/numpyHelpers.cpp
index 0929fcc..afe6840 100644
--- a/src/python/numpyHelpers.cpp
+++ b/src/python/numpyHelpers.cpp
@@ -267,6 +267,11 @@ parseNumPyArray( PyObject * const obj, std::type_index const expectedType )
                    " to " << getNumPyTypeName( expectedNumPyType ), ErrorReturn );
 
   PyArrayObject * convertedArray = reinterpret_cast< PyArrayObject * >( PyArray_Cast( array, expectedNumPyType ) );
+  if( convertedArray == nullptr )
+  {
+    return ErrorReturn;
+  }
+
   void const * vals = PyArray_DATA( convertedArray );
   long long const nVals = integerConversion< long long >( PyArray_SIZE( convertedArray ) );
   return ReturnType{ reinterpret_cast< PyObject * >( convertedArray ), vals, nVals };
-- 
2.43.0


From b59dee5e2ffeec86a46dbaa3c7eddc368bbf4d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 30/37] fix: createPyListOfStrings used a list or string that
 could not be created

---
 src/python/pythonHelpers.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/python/pythonHelpers.cpp b/src/python/pythonHelpers.cpp
index 53f737d..b6bee3c 100644
--- a/src/python/pythonHelpers.cpp
+++ b/src/python/pythonHelpers.cpp
@@ -84,13 +84,23 @@ PyObject * create( std::string const & value )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * createPyListOfStrings( std::string const * const strptr, long long const size )
 {
-  PyObject * pylist = PyList_New( size );
+  PyObjectRef<> pylist{ PyList_New( size ) };
+  if( pylist == nullptr )
+  {
+    return nullptr;
+  }
+
   for( long long i = 0; i < size; ++i )
   {
     PyObject * pystr = PyUnicode_FromString( strptr[ i ].c_str() );
-    PyList_SET_ITEM( pylist, integerConversion< Py_ssize_t >( i ), pystr );
+    if( pystr == nullptr )
+    {
+      return nullptr;
+    }
+
+    PyList_SET_ITEM( pylist.get(), integerConversion< Py_ssize_t >( i ), pystr );
   }
-  return pylist;
+  return pylist.release();
 }
 
 } // namespace python
-- 
2.43.0


From ed4ef93ef672449ddf495726696e6efc986869c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 31/37] fix: createCupyArrayImpl released the references its
 tuples had stolen

---
 src/python/numpyHelpers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/numpyHelpers.cpp b/src/python/numpyHelpers.cpp
index afe6840..233f4f2 100644
--- a/src/python/numpyHelpers.cpp
+++ b/src/python/numpyHelpers.cpp
@@ -190,8 +190,8 @@ PyObject * createCupyArrayImpl( void * const data,
       return nullptr;
     }
 
-    PyTuple_SET_ITEM( static_cast< PyObject * >( strideTuple ), i, strideEntry );
-    PyTuple_SET_ITEM( static_cast< PyObject * >( dimTuple ), i, dimEntry );
+    PyTuple_SET_ITEM( static_cast< PyObject * >( strideTuple ), i, strideEntry.release() );
+    PyTuple_SET_ITEM( static_cast< PyObject * >( dimTuple ), i, dimEntry.release() );
   }
 
   PyObjectRef<> cupyHelper = PyImport_ImportModule( "cupy_helper" );
-- 
2.43.0


From bd7f64213b89282272859fe7cc7cd3f078e4220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 32/37] fix: assigning to a PyObjectRef that held an object
 leaked that object

---
 src/python/pythonHelpers.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/python/pythonHelpers.hpp b/src/python/pythonHelpers.hpp
index 3a5c976..9e8430f 100644
--- a/src/python/pythonHelpers.hpp
+++ b/src/python/pythonHelpers.hpp
@@ -189,8 +189,10 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef const & src )
   {
-    m_object = src.m_object;
+    T * const old = m_object;
     internal::xincref( reinterpret_cast< PyObject * >( src.m_object ) );
+    m_object = src.m_object;
+    internal::xdecref( reinterpret_cast< PyObject * >( old ) );
     return *this;
   }
 
@@ -202,8 +204,14 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef && src )
   {
-    m_object = src.m_object;
-    src.m_object = nullptr;
+    if( this != &src )
+    {
+      T * const old = m_object;
+      m_object = src.m_object;
+      src.m_object = nullptr;
+      internal::xdecref( reinterpret_cast< PyObject * >( old ) );
+    }
+
     return *this;
   }
 
-- 
2.43.0


From 4c7b7fa6e09cf5b5a308cf740b5ec6956b481b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 33/37] fix: addPyLvArrayModule released the reference the
 module had stolen and ignored a failed import

---
 src/python/python.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/python.cpp b/src/python/python.cpp
index 341bab1..29720f1 100644
--- a/src/python/python.cpp
+++ b/src/python/python.cpp
@@ -146,11 +146,18 @@ PyObjectRef<> getModule()
 bool addPyLvArrayModule( PyObject * module )
 {
   LvArray::python::PyObjectRef<> pylvarrayModule { PyImport_ImportModule( "pylvarray" ) };
+  if( pylvarrayModule == nullptr )
+  {
+    return false;
+  }
+
   if( PyModule_AddObject( module, "pylvarray", pylvarrayModule ) < 0 )
   {
     return false;
   }
 
+  // PyModule_AddObject stole the reference.
+  pylvarrayModule.release();
   return true;
 }
 
-- 
2.43.0


From 58b54f44a95f65114b97baa7fb26d852746f820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:05 +0000
Subject: [PATCH 34/37] fix: the create functions leaked the new object when
 its dtype could not be made

---
 src/python/PyArray.cpp         | 1 +
 src/python/PyArrayOfArrays.cpp | 1 +
 src/python/PyArrayOfSets.cpp   | 1 +
 src/python/PyCRSMatrix.cpp     | 1 +
 src/python/PySortedArray.cpp   | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 9be6145..f1f2346 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -300,6 +300,7 @@ PyObject * create( std::unique_ptr< PyArrayWrapperBase > && array )
   PyObject * typeObject = getNumPyTypeObject( array->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index 04ca2f6..00abaef 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -329,6 +329,7 @@ PyObject * create( std::unique_ptr< PyArrayOfArraysWrapperBase > && arrayOfArray
   PyObject * typeObject = getNumPyTypeObject( arrayOfArrays->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index b14240a..fac4275 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -349,6 +349,7 @@ PyObject * create( std::unique_ptr< PyArrayOfSetsWrapperBase > && arrayOfSets )
   PyObject * typeObject = getNumPyTypeObject( arrayOfSets->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 4f41b2a..959e15f 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -460,6 +460,7 @@ PyObject * create( std::unique_ptr< PyCRSMatrixWrapperBase > && matrix )
   PyObject * typeObject = getNumPyTypeObject( matrix->entryType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index 669ba1e..2b95afc 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -249,6 +249,7 @@ PyObject * create( std::unique_ptr< PySortedArrayWrapperBase > && sortedArray )
   PyObject * typeObject = getNumPyTypeObject( sortedArray->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
-- 
2.43.0


From 5e6f529a0403261540f0f90ec265f5e4c0525179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:05 +0000
Subject: [PATCH 35/37] fix: destroyed Python objects never gave back their own
 storage

---
 src/python/PyArray.cpp         | 6 +++++-
 src/python/PyArrayOfArrays.cpp | 6 +++++-
 src/python/PyArrayOfSets.cpp   | 6 +++++-
 src/python/PyCRSMatrix.cpp     | 6 +++++-
 src/python/PySortedArray.cpp   | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index f1f2346..ae110ec 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -69,7 +69,11 @@ struct PyArray
  * @param self The PyArray to destroy.
  */
 static void PyArray_dealloc( PyArray * const self )
-{ delete self->array; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->array;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 /**
  * @brief The Python __repr__ method for PyArray.
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index 00abaef..b61c391 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfArrays
 };
 
 static void PyArrayOfArrays_dealloc( PyArrayOfArrays * const self )
-{ delete self->arrayOfArrays; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfArrays;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfArrays_repr( PyObject * const obj )
 {
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index fac4275..f5c75da 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfSets
 };
 
 static void PyArrayOfSets_dealloc( PyArrayOfSets * const self )
-{ delete self->arrayOfSets; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfSets;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfSets_repr( PyObject * const obj )
 {
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 959e15f..8c0f9fa 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -64,7 +64,11 @@ struct PyCRSMatrix
 };
 
 static void PyCRSMatrix_dealloc( PyCRSMatrix * const self )
-{ delete self->matrix; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->matrix;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyCRSMatrix_repr( PyObject * const obj )
 {
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index 2b95afc..219c3fd 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -64,7 +64,11 @@ struct PySortedArray
 
 
 static void PySortedArray_dealloc( PySortedArray * const self )
-{ delete self->sortedArray; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->sortedArray;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 
 static PyObject * PySortedArray_repr( PyObject * const obj )
-- 
2.43.0


From 6bdc5e46dd0da89a891c3f716cf9872d43e543ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:20 +0000
Subject: [PATCH 36/37] fix: CRSMatrix.get_entries was writable at any access
 level other than zero, negative ones included

---
 src/python/PyCRSMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index b7659e3..262a28f 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -291,7 +291,7 @@ public:
     T * const entries = m_matrix.getEntries( convertedRow );
     INDEX_TYPE const nnz = m_matrix.numNonZeros( convertedRow );
     constexpr INDEX_TYPE unitStride = 1;
-    return createNumPyArray( entries, getAccessLevel(), 1, &nnz, &unitStride );
+    return createNumPyArray( entries, getAccessLevel() >= static_cast< int >( LvArray::python::PyModify::MODIFIABLE ), 1, &nnz, &unitStride );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 940be7133ef4feb6942b3c909b043c9910c23d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:42 +0000
Subject: [PATCH 37/37] fix: introsortLoop overran its stack of ranges for
 adversarial orders

---
 src/sortedArrayManipulationHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sortedArrayManipulationHelpers.hpp b/src/sortedArrayManipulationHelpers.hpp
index be6765b..bccc89e 100644
--- a/src/sortedArrayManipulationHelpers.hpp
+++ b/src/sortedArrayManipulationHelpers.hpp
@@ -650,9 +650,9 @@ LVARRAY_HOST_DEVICE inline void introsortLoop( RandomAccessIterator first, Rando
   {
     RandomAccessIterator const m_first = ranges[nRanges - 1];
 
-    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD )
+    // When the stack of ranges is full the rest of this range is left to the insertion sort that follows.
+    if( nRanges < MAX_RANGES && ranges[nRanges] - m_first > INTROSORT_THRESHOLD )
     {
-      LVARRAY_ASSERT( nRanges < MAX_RANGES );
       ranges[nRanges + 1] = ranges[nRanges];
       ranges[nRanges] = unguardedPartitionPivot( m_first, ranges[nRanges], comp );
       ++nRanges;
-- 
2.43.0

