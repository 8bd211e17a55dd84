From 7cc1fb3ebd8be53f5028eb64914aed2a49ce0111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 01/44] fix: integerConversion rejects negative values of a
 narrower signed type when the target is unsigned

---
 src/limits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limits.hpp b/src/limits.hpp
index 9a55104..b0ff438 100644
--- a/src/limits.hpp
+++ b/src/limits.hpp
@@ -120,7 +120,8 @@ constexpr bool sameSignedness = ( std::is_signed< T >::value && std::is_signed<
  * @brief True iff @tparam OUTPUT can hold every possible value of @tparam INPUT.
  */
 template< typename INPUT, typename OUTPUT >
-constexpr bool canEasilyConvert = sizeof( INPUT ) < sizeof( OUTPUT ) ||
+constexpr bool canEasilyConvert = ( sizeof( INPUT ) < sizeof( OUTPUT ) &&
+                                    ( std::is_unsigned< INPUT >::value || sameSignedness< INPUT, OUTPUT > ) ) ||
                                   ( sizeof( INPUT ) == sizeof( OUTPUT ) && sameSignedness< INPUT, OUTPUT > );
 
 } // namespace internal
-- 
2.43.0


From 0093f67e0386e2c658d165e4131ae2f3c7e9a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 02/44] fix: LVARRAY_ERROR_IF_LE and LVARRAY_THROW_IF_LE
 compare with <= instead of >=

---
 src/Macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Macros.hpp b/src/Macros.hpp
index aa8fe6f..da2ce11 100644
--- a/src/Macros.hpp
+++ b/src/Macros.hpp
@@ -446,7 +446,7 @@
  * @param lhs expression to be evaluated and used as left-hand side in comparison
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  */
-#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_GE_MSG( lhs, rhs, "" )
+#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_LE_MSG( lhs, rhs, "" )
 
 /**
  * @brief Throw an exception if one value compares less than or equal to the other.
@@ -454,7 +454,7 @@
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  * @param TYPE the type of exception to throw
  */
-#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_GE_MSG( lhs, rhs, "", TYPE )
+#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_LE_MSG( lhs, rhs, "", TYPE )
 
 /**
  * @brief Abort execution if @p lhs @p OP @p rhs is false.
-- 
2.43.0


From d035573255b5b63cc4dd143aec49dbd20f6323b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 03/44] fix: introsortLoop no longer writes past its stack of
 ranges on adversarial inputs

---
 src/sortedArrayManipulationHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sortedArrayManipulationHelpers.hpp b/src/sortedArrayManipulationHelpers.hpp
index be6765b..7baa72e 100644
--- a/src/sortedArrayManipulationHelpers.hpp
+++ b/src/sortedArrayManipulationHelpers.hpp
@@ -650,9 +650,9 @@ LVARRAY_HOST_DEVICE inline void introsortLoop( RandomAccessIterator first, Rando
   {
     RandomAccessIterator const m_first = ranges[nRanges - 1];
 
-    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD )
+    // If the stack of ranges is full leave the range unpartitioned, the final insertion sort will take care of it.
+    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD && nRanges < MAX_RANGES )
     {
-      LVARRAY_ASSERT( nRanges < MAX_RANGES );
       ranges[nRanges + 1] = ranges[nRanges];
       ranges[nRanges] = unguardedPartitionPivot( m_first, ranges[nRanges], comp );
       ++nRanges;
-- 
2.43.0


From f0dd35e5232ad361c781a7b691387788a54959f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 04/44] fix: report an out of range array index without reading
 out of bounds

With bounds checking on the message of ArrayOfArraysView's two index check read m_sizes[ i ] for the
offending i before the error handler was reached.
---
 src/ArrayOfArraysView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 7aebc59..99e9f23 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -46,7 +46,7 @@
   LVARRAY_ERROR_IF( !arrayManipulation::isPositive( i ) || i >= this->size() || \
                     !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
                     "Bounds Check Failed: i=" << i << " size()=" << this->size() << \
-                    " j=" << j << " m_sizes[ i ]=" << this->m_sizes[ i ] )
+                    " j=" << j << " sizeOfArray( i )=" << this->sizeOfArray( i ) )
 
 /**
  * @brief Check that @p i is a valid index to insert an array at.
-- 
2.43.0


From abfb89aa10fdcf8b4b1002bdcb3c16e02f58b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 05/44] fix: ArrayOfArraysView::appendToArray checks the
 capacity before it writes the values

---
 src/ArrayOfArraysView.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 99e9f23..2b1da73 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -484,10 +484,13 @@ public:
   void appendToArray( INDEX_TYPE const i, ITER const first, ITER const last ) const
   {
     ARRAYOFARRAYS_CHECK_BOUNDS( i );
+  #ifdef LVARRAY_BOUNDS_CHECK
+    INDEX_TYPE const increase = arrayManipulation::iterDistance( first, last );
+    ARRAYOFARRAYS_CAPACITY_CHECK( i, increase );
+  #endif
 
     T * const ptr = m_values.data() + m_offsets[ i ];
     INDEX_TYPE const n = arrayManipulation::append( ptr, sizeOfArray( i ), first, last );
-    ARRAYOFARRAYS_CAPACITY_CHECK( i, n );
     m_sizes[ i ] += n;
   }
 
-- 
2.43.0


From c272e5ad4e16d98f0ac9bc453700585309b0379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 06/44] fix: inserting an empty range into an unallocated array
 is not an error

The debug assertion in arrayManipulation::insert demanded a pointer even when there was nothing to insert, unlike shiftUp and append.
---
 src/arrayManipulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 9cf25ee..03f6729 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -505,7 +505,7 @@ void insert( T * const LVARRAY_RESTRICT ptr,
              ITERATOR first,
              std::ptrdiff_t const n )
 {
-  LVARRAY_ASSERT( ptr != nullptr );
+  LVARRAY_ASSERT( ptr != nullptr || (size == 0 && n == 0) );
   LVARRAY_ASSERT( isPositive( size ) );
   ARRAYMANIPULATION_CHECK_INSERT_BOUNDS( index );
 
-- 
2.43.0


From ae4531f9ae0f0709fb3f1f84a1959db37a0cb153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 07/44] fix: resizing with a temporary default gives every new
 element the value

arrayManipulation::resize forwarded the arguments once per new element, so elements after the first were built from a moved-from value.
---
 src/arrayManipulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 03f6729..e28b37e 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -303,7 +303,7 @@ void resize( T * const LVARRAY_RESTRICT ptr,
   {
     for( std::ptrdiff_t i = size; i < newSize; ++i )
     {
-      new ( ptr + i ) T( std::forward< ARGS >( args )... );
+      new ( ptr + i ) T( args ... );
     }
   }
 }
-- 
2.43.0


From 7a8266ff1dc3049f03e7f519b65af14eff0df1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 08/44] fix: shiftUp destroys every value it has moved out of
 before constructing another in its place

Values shifted by less than the distance to the end were constructed on top of moved-from objects that were never destroyed.
---
 src/arrayManipulation.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index e28b37e..fb02a82 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -333,16 +333,13 @@ void shiftUp( T * const LVARRAY_RESTRICT ptr,
   if( n == 0 )
     return;
 
-  // Move the existing values up by n.
+  // Move the existing values up by n, deleting each value once it has been moved out of.
   for( std::ptrdiff_t i = size; i > index; --i )
   {
     std::ptrdiff_t const curIndex = i - 1;
     new ( ptr + curIndex + n ) T( std::move( ptr[ curIndex ] ) );
+    destroy( ptr + curIndex, 1 );
   }
-
-  // Delete the values moved out of.
-  std::ptrdiff_t const bounds = (index + n < size) ? index + n : size;
-  destroy( ptr + index, bounds - index );
 }
 
 /**
-- 
2.43.0


From 6ecef383248243df1816ba27571f7c5a1fba0549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 09/44] fix: growing an inner dimension terminates for unsigned
 index types

The loop over the iterations ran from numIterations - 1 down while i >= 0, which never ends when INDEX_TYPE is unsigned.
---
 src/Array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 69fc34e..2ef5fa4 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -633,7 +633,7 @@ private:
       INDEX_TYPE const numIterations = ( newSize - curSize ) / valuesToAddPerIteration;
 
       // Iterate backwards over the iterations.
-      for( INDEX_TYPE i = numIterations - 1; i >= 0; --i )
+      for( INDEX_TYPE i = numIterations; i-- > 0; )
       {
         // First shift the values up to make remove for the values of subsequent iterations.
         // This step is a no-op on the last iteration (i=0).
-- 
2.43.0


From 70cbd00ca712325ee7e99d41ae0d87b92221dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 10/44] fix: move assignment of Array and SortedArray releases
 the previous contents

---
 src/Array.hpp       | 1 +
 src/SortedArray.hpp | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 2ef5fa4..813ff8e 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -192,6 +192,7 @@ public:
   LVARRAY_HOST_DEVICE
   Array & operator=( Array && rhs )
   {
+    bufferManipulation::free( this->m_dataBuffer, this->size() );
     ParentClass::operator=( std::move( rhs ) );
 
     for( int i = 0; i < NDIM; ++i )
diff --git a/src/SortedArray.hpp b/src/SortedArray.hpp
index 58ea36f..477fa59 100644
--- a/src/SortedArray.hpp
+++ b/src/SortedArray.hpp
@@ -106,12 +106,17 @@ public:
   }
 
   /**
-   * @brief Default move assignment operator, performs a shallow copy.
+   * @brief Move assignment operator, releases the contents of *this and performs a shallow copy.
    * @param src the SortedArray to be moved from.
    * @return *this.
    */
   inline
-  SortedArray & operator=( SortedArray && src ) = default;
+  SortedArray & operator=( SortedArray && src )
+  {
+    bufferManipulation::free( this->m_values, size() );
+    ParentClass::operator=( std::move( src ) );
+    return *this;
+  }
 
   ///@}
 
-- 
2.43.0


From c5b1f84b4adde3e5811b08d2ff6e113723907c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 11/44] fix: a moved-from Array has the strides of an empty
 array and can be appended to

---
 src/Array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 813ff8e..c4f318d 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -153,8 +153,9 @@ public:
     for( int i = 0; i < NDIM; ++i )
     {
       source.m_dims[ i ] = 0;
-      source.m_strides[ i ] = 0;
     }
+
+    source.m_strides = indexing::calculateStrides< PERMUTATION >( source.m_dims );
   }
 
   /**
@@ -198,9 +199,10 @@ public:
     for( int i = 0; i < NDIM; ++i )
     {
       rhs.m_dims[ i ] = 0;
-      rhs.m_strides[ i ] = 0;
     }
 
+    rhs.m_strides = indexing::calculateStrides< PERMUTATION >( rhs.m_dims );
+
     return *this;
   }
 
-- 
2.43.0


From 8d748254271495d9181fc51b6128c1ac6e814ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 12/44] fix: copy assignment of arrays of arrays, sets,
 patterns and matrices from itself, from a moved-from source and onto
 destroyed values

---
 src/ArrayOfArrays.hpp     |  4 +++-
 src/ArrayOfArraysView.hpp | 14 +++++++++++---
 src/ArrayOfSets.hpp       |  4 +++-
 src/CRSMatrix.hpp         |  4 +++-
 src/SparsityPattern.hpp   |  4 +++-
 5 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 1ce2231..2d99784 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -168,8 +168,10 @@ public:
   inline
   ArrayOfArrays & operator=( ArrayOfArrays const & src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 2b1da73..ab296c2 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -840,13 +840,21 @@ protected:
 
     INDEX_TYPE const offsetsSize = ( m_numArrays == 0 ) ? 0 : m_numArrays + 1;
 
+    // The source may have been moved from, in which case it doesn't have any offsets.
+    if( srcNumArrays == 0 )
+    {
+      bufferManipulation::resize( m_offsets, offsetsSize, 1, 0 );
+      m_numArrays = 0;
+      return;
+    }
+
     bufferManipulation::copyInto( m_offsets, offsetsSize, srcOffsets, srcNumArrays + 1 );
     bufferManipulation::copyInto( m_sizes, m_numArrays, srcSizes, srcNumArrays );
 
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [maxOffset, srcMaxOffset]( auto & dstBuffer )
+    // The values have been destroyed so there is nothing to keep when reallocating.
+    typeManipulation::forEachArg( [srcMaxOffset]( auto & dstBuffer )
     {
-      bufferManipulation::reserve( dstBuffer, maxOffset, MemorySpace::host, srcMaxOffset );
+      bufferManipulation::reserve( dstBuffer, 0, MemorySpace::host, srcMaxOffset );
     }, m_values, pairs.first ... );
 
     m_numArrays = srcNumArrays;
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index c8b7519..a7b73cc 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -98,8 +98,10 @@ public:
   inline
   ArrayOfSets & operator=( ArrayOfSets const & src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index ddd786c..0c290a2 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -100,9 +100,11 @@ public:
   inline
   CRSMatrix & operator=( CRSMatrix const & src )
   {
+    if( this == &src ) return *this;
+
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values,
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 652d5e5..9b82e87 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -95,9 +95,11 @@ public:
   inline
   SparsityPattern & operator=( SparsityPattern const & src )
   {
+    if( this == &src ) return *this;
+
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
-- 
2.43.0


From e9b11c778b0c8259df59a85a59cd5e0f28a67af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 13/44] fix: an empty slice of an array is contiguous whatever
 its extents

---
 src/ArraySlice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index b4e2234..3c98949 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -216,7 +216,7 @@ public:
   bool isContiguous() const
   {
     if( USD < 0 ) return false;
-    if( NDIM == 1 && USD == 0 ) return true;
+    if( ( NDIM == 1 && USD == 0 ) || size() == 0 ) return true;
 
     bool rval = true;
     for( int i = 0; i < NDIM; ++i )
-- 
2.43.0


From f339cc091944a254efd41c76b5678b23cb653acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 14/44] fix: reinterpreting an array with spare capacity does
 not require the capacity to divide evenly

---
 src/ChaiBuffer.hpp   | 2 +-
 src/MallocBuffer.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 7a3bfd5..8c1d73f 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -234,7 +234,7 @@ public:
   LVARRAY_HOST_DEVICE inline constexpr
   ChaiBuffer( ChaiBuffer< U > const & src ):
     m_pointer( reinterpret_cast< T * >( src.data() ) ),
-    m_capacity( typeManipulation::convertSize< T, U >( src.capacity() ) ),
+    m_capacity( src.capacity() * static_cast< std::ptrdiff_t >( sizeof( U ) ) / static_cast< std::ptrdiff_t >( sizeof( T ) ) ),
     m_pointerRecord( &src.pointerRecord() )
   {}
 
diff --git a/src/MallocBuffer.hpp b/src/MallocBuffer.hpp
index f40051a..8088261 100644
--- a/src/MallocBuffer.hpp
+++ b/src/MallocBuffer.hpp
@@ -88,7 +88,7 @@ public:
   LVARRAY_HOST_DEVICE inline constexpr
   MallocBuffer( MallocBuffer< U > const & src ):
     m_data( reinterpret_cast< T * >( src.data() ) ),
-    m_capacity( typeManipulation::convertSize< T, U >( src.capacity() ) )
+    m_capacity( src.capacity() * static_cast< std::ptrdiff_t >( sizeof( U ) ) / static_cast< std::ptrdiff_t >( sizeof( T ) ) )
   {}
 
   /**
-- 
2.43.0


From 379ed12359875ee973cfe1ca247bdecd6f23dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 15/44] fix: check the columns inserted into and removed from
 sparsity patterns and matrices

---
 src/CRSMatrix.hpp       | 17 +++++++++++++++--
 src/CRSMatrixView.hpp   | 30 +++++++++++++++++++++++++++---
 src/SparsityPattern.hpp | 17 +++++++++++++++--
 3 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index 0c290a2..3b1c64c 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -378,7 +378,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -395,7 +399,16 @@ public:
                              COL_TYPE const * const cols,
                              T const * const entriesToInsert,
                              INDEX_TYPE const ncols )
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   using ParentClass::removeNonZero;
   using ParentClass::removeNonZeros;
diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 703688c..d7c7337 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -276,7 +276,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry ) const
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -294,7 +298,16 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 T const * const LVARRAY_RESTRICT entriesToInsert,
                                 INDEX_TYPE const ncols ) const
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   /**
    * @brief Remove a non-zero entry at the given position.
@@ -304,7 +317,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool removeNonZero( INDEX_TYPE const row, COL_TYPE const col ) const
-  { return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr )); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr ));
+  }
 
   /**
    * @brief Remove non-zero entries from the given row.
@@ -320,6 +337,13 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 INDEX_TYPE const ncols ) const
   {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
     T * const entries = getEntries( row );
     INDEX_TYPE const rowNNZ = numNonZeros( row );
     INDEX_TYPE const nRemoved = ParentClass::removeFromSetImpl( row, cols, cols + ncols, CallBacks( *this, row, nullptr ) );
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 9b82e87..5af072c 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -326,7 +326,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) );
+  }
 
   /**
    * @tparam ITER An iterator type.
@@ -340,7 +344,16 @@ public:
   template< typename ITER >
   inline
   INDEX_TYPE insertNonZeros( INDEX_TYPE const row, ITER const first, ITER const last )
-  { return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( ITER iter = first; iter != last; ++iter )
+    { SPARSITYPATTERN_COLUMN_CHECK( *iter ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) );
+  }
 
   using ParentClass::removeNonZero;
 
-- 
2.43.0


From ed741573b09e12c65685f9469143a2c01dd7d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 16/44] fix: compute the size of the memory CRSMatrixView::zero
 clears in std::size_t

---
 src/CRSMatrixView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index d7c7337..68c3648 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -401,7 +401,7 @@ public:
       ParentClass::move( m_entries.getPreviousSpace(), false );
       m_entries.move( m_entries.getPreviousSpace(), true );
 
-      INDEX_TYPE const numBytes = m_entries.capacity() * sizeof( T );
+      std::size_t const numBytes = m_entries.capacity() * sizeof( T );
       umpireInterface::memset( m_entries.data(), 0, numBytes );
     }
   }
-- 
2.43.0


From 70270b16f67bd47cafa8ffc9860ed53c6fc127b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 17/44] fix: reject memcpy between slices whose extents differ

---
 src/memcpy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memcpy.hpp b/src/memcpy.hpp
index 0ef94ea..6afb1da 100644
--- a/src/memcpy.hpp
+++ b/src/memcpy.hpp
@@ -78,6 +78,7 @@ void memcpy( ArraySlice< T, NDIM, USD, DST_INDEX_TYPE > const dst,
 
   for( int i = 0; i < NDIM; ++i )
   {
+    LVARRAY_ERROR_IF_NE( dst.size( i ), src.size( i ) );
     LVARRAY_ERROR_IF_NE( dst.stride( i ), src.stride( i ) );
   }
 
@@ -113,6 +114,7 @@ camp::resources::Event memcpy( camp::resources::Resource & resource,
 
   for( int i = 0; i < NDIM; ++i )
   {
+    LVARRAY_ERROR_IF_NE( dst.size( i ), src.size( i ) );
     LVARRAY_ERROR_IF_NE( dst.stride( i ), src.stride( i ) );
   }
 
-- 
2.43.0


From 4d2cd15bc8da1ffeee735da998e482a25579224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 18/44] fix: calculateSize cut off the unit of sizes of 10000
 GB and more

---
 src/system.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index 019fe66..c2f2d65 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -425,8 +425,8 @@ std::string calculateSize( size_t const bytes )
 
   double const units = double( bytes ) / ( 1 << shift );
 
-  char result[10];
-  std::snprintf( result, 10, "%.1f %s", units, suffix );
+  char result[32];
+  std::snprintf( result, 32, "%.1f %s", units, suffix );
   return result;
 }
 
-- 
2.43.0


From 5aa0713f25908dda6dc6f0136522f5bf37002a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 19/44] fix: resetSignalHandling restored an installed handler
 after two calls of setSignalHandling

---
 src/system.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/system.cpp b/src/system.cpp
index c2f2d65..82dd217 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -490,6 +490,9 @@ void stackTraceHandler( int const sig, bool const exit )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void setSignalHandling( void (* handler)( int ) )
 {
+  // The handlers saved by an earlier call are the original ones.
+  std::map< int, handle_type > const savedHandler = initialHandler;
+
   initialHandler[SIGHUP] = signal( SIGHUP, handler );
   initialHandler[SIGINT] = signal( SIGINT, handler );
   initialHandler[SIGQUIT] = signal( SIGQUIT, handler );
@@ -510,6 +513,11 @@ void setSignalHandling( void (* handler)( int ) )
   initialHandler[SIGPIPE] = signal( SIGPIPE, handler );
   initialHandler[SIGTERM] = signal( SIGTERM, handler );
 
+  for( auto const & a : savedHandler )
+  {
+    initialHandler[ a.first ] = a.second;
+  }
+
   return;
 }
 
@@ -520,6 +528,8 @@ void resetSignalHandling()
   {
     signal( a.first, a.second );
   }
+
+  initialHandler.clear();
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 735408eac3c32c9ec0d3612fd138a51d6b9cde2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 20/44] fix: report an invalid array value through the error
 handler instead of an uncaught exception

---
 src/input.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input.hpp b/src/input.hpp
index fde15d5..8c8da5d 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -64,7 +64,7 @@ struct StringToArrayHelper
 
     LVARRAY_ERROR_IF( inputStream.fail(),
                       "Invalid value of type " << typeid(T).name() << " in: " <<
-                      ( inputStream.eof()  ?  "" : inputStream.str().substr( inputStream.tellg() ) ) );
+                      ( inputStream.eof()  ?  "" : ( inputStream.clear(), inputStream.str().substr( inputStream.tellg() ) ) ) );
   }
 
   /**
-- 
2.43.0


From 388d0a392c066368c69dfa89487c4cffd9b7d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 21/44] fix: stringToArray wrote past its dimension arrays when
 braces were nested too deep

---
 src/input.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index 8c8da5d..7108e94 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -230,6 +230,8 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     if( c=='{' )
     {
       ++dimLevel;
+      LVARRAY_ERROR_IF( dimLevel>=NDIM,
+                        "More than "<<NDIM<<" nested '{' in the input string: "<<valueString );
     }
     else if( c=='}' )
     {
-- 
2.43.0


From 27ecd13264286fd63eaea2919124eb685fc3ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 22/44] fix: stringToArray accepted texts such as {1-2,} with a
 stray delimiter

---
 src/input.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index 7108e94..b28fe64 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -235,6 +235,8 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     }
     else if( c=='}' )
     {
+      LVARRAY_ERROR_IF( lastChar==',', "character of '}' follows ','. A closing } must follow an array value." );
+
       // } means that we are closing a dimension. That means we know the size of this dimLevel
       dimSet[dimLevel] = true;
       LVARRAY_ERROR_IF( dims[dimLevel]!=currentDims[dimLevel],
-- 
2.43.0


From e917a2de2270138e396d62ade33ea5eb9ed37a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 23/44] fix: setCapacityOfArray compares capacities instead of
 a wrapped difference for unsigned index types

---
 src/ArrayOfArraysView.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index ab296c2..69683d4 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -893,7 +893,8 @@ protected:
     INDEX_TYPE const capacityIncrease = newCapacity - arrayCapacity;
     if( capacityIncrease == 0 ) return;
 
-    if( capacityIncrease > 0 )
+    // Compare the capacities and not the difference, which wraps around when INDEX_TYPE is unsigned.
+    if( newCapacity > arrayCapacity )
     {
       INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
       typeManipulation::forEachArg(
-- 
2.43.0


From 2fbeeec4f77f3abf09f98e15651c78cd186d5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 24/44] fix: patterns without columns were rejected for
 unsigned index types

---
 src/CRSMatrix.hpp           | 2 +-
 src/SparsityPattern.hpp     | 2 +-
 src/SparsityPatternView.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index 3b1c64c..a5a529d 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -179,7 +179,7 @@ public:
   void resizeFromRowCapacities( INDEX_TYPE const nRows, INDEX_TYPE const nCols, INDEX_TYPE const * const rowCapacities )
   {
     LVARRAY_ERROR_IF( !arrayManipulation::isPositive( nCols ), "nCols must be positive." );
-    LVARRAY_ERROR_IF( nCols - 1 > std::numeric_limits< COL_TYPE >::max(),
+    LVARRAY_ERROR_IF( nCols > 0 && nCols - 1 > std::numeric_limits< COL_TYPE >::max(),
                       "COL_TYPE must be able to hold the range of columns: [0, " << nCols - 1 << "]." );
 
     this->m_numCols = nCols;
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 5af072c..1d3c5e9 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -132,7 +132,7 @@ public:
   void resizeFromRowCapacities( INDEX_TYPE const nRows, INDEX_TYPE const nCols, INDEX_TYPE const * const rowCapacities )
   {
     LVARRAY_ERROR_IF( !arrayManipulation::isPositive( nCols ), "nCols must be positive." );
-    LVARRAY_ERROR_IF( nCols - 1 > std::numeric_limits< COL_TYPE >::max(),
+    LVARRAY_ERROR_IF( nCols > 0 && nCols - 1 > std::numeric_limits< COL_TYPE >::max(),
                       "COL_TYPE must be able to hold the range of columns: [0, " << nCols - 1 << "]." );
 
     this->m_numCols = nCols;
diff --git a/src/SparsityPatternView.hpp b/src/SparsityPatternView.hpp
index b2fa19a..de02001 100644
--- a/src/SparsityPatternView.hpp
+++ b/src/SparsityPatternView.hpp
@@ -438,7 +438,7 @@ protected:
   {
     LVARRAY_ERROR_IF( !arrayManipulation::isPositive( nrows ), "nrows must be positive." );
     LVARRAY_ERROR_IF( !arrayManipulation::isPositive( ncols ), "ncols must be positive." );
-    LVARRAY_ERROR_IF( ncols - 1 > std::numeric_limits< COL_TYPE >::max(),
+    LVARRAY_ERROR_IF( ncols > 0 && ncols - 1 > std::numeric_limits< COL_TYPE >::max(),
                       "COL_TYPE must be able to hold the range of columns: [0, " << ncols - 1 << "]." );
 
     m_numCols = ncols;
-- 
2.43.0


From 401b4e277b4b8d55f14bcdfa54f05f0449fd0e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 25/44] fix: the in-place inverse of a 3x3 matrix checks the
 extents like every other operation

---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index f006d86..a16b731 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -628,9 +628,11 @@ struct SquareMatrixOps< 3 >
    * @note @p srcMatrix must contain floating point values.
    */
   template< typename MATRIX >
-  LVARRAY_HOST_DEVICE constexpr inline
+  LVARRAY_HOST_DEVICE CONSTEXPR_WITHOUT_BOUNDS_CHECK inline
   static auto invert( MATRIX && matrix )
   {
+    checkSizes< 3, 3 >( matrix );
+
     using realType = std::remove_reference_t< decltype( matrix[ 0 ][ 0 ] ) >;
 #if 0
     realType temp[ 3 ][ 3 ];
-- 
2.43.0


From 3797a2aae73b6e4675757747ebb625fa98ea99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 26/44] fix: the header of a stack trace announces the number
 of frames listed

---
 src/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system.cpp b/src/system.cpp
index 82dd217..75d5e83 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -366,7 +366,7 @@ std::string stackTrace( bool const location )
   std::size_t const size = collect( array, MAX_FRAMES, 1 );
 
   std::ostringstream oss;
-  oss << "\n** StackTrace of " << size - 1 << " frames **\n";
+  oss << "\n** StackTrace of " << size << " frames **\n";
   for( std::size_t i = 0; i < size; ++i )
   {
     oss << "Frame " << i << ": " << getFunctionNameFromFrame( array[ i ] );
-- 
2.43.0


From 8e5aac0082bb3bc85d5cb44ef2ee607f708eccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 27/44] fix: destroying a Python object frees the object itself

---
 src/python/PyArray.cpp         | 6 +++++-
 src/python/PyArrayOfArrays.cpp | 6 +++++-
 src/python/PyArrayOfSets.cpp   | 6 +++++-
 src/python/PyCRSMatrix.cpp     | 6 +++++-
 src/python/PySortedArray.cpp   | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 8e36b51..86980d8 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -69,7 +69,11 @@ struct PyArray
  * @param self The PyArray to destroy.
  */
 static void PyArray_dealloc( PyArray * const self )
-{ delete self->array; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->array;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 /**
  * @brief The Python __repr__ method for PyArray.
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index d4dcd7c..e6b4778 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfArrays
 };
 
 static void PyArrayOfArrays_dealloc( PyArrayOfArrays * const self )
-{ delete self->arrayOfArrays; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfArrays;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfArrays_repr( PyObject * const obj )
 {
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 33192fd..a93a874 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfSets
 };
 
 static void PyArrayOfSets_dealloc( PyArrayOfSets * const self )
-{ delete self->arrayOfSets; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfSets;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfSets_repr( PyObject * const obj )
 {
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 9b81a4b..bcebe8c 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -64,7 +64,11 @@ struct PyCRSMatrix
 };
 
 static void PyCRSMatrix_dealloc( PyCRSMatrix * const self )
-{ delete self->matrix; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->matrix;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyCRSMatrix_repr( PyObject * const obj )
 {
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index 669ba1e..b23e2b1 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -64,7 +64,11 @@ struct PySortedArray
 
 
 static void PySortedArray_dealloc( PySortedArray * const self )
-{ delete self->sortedArray; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->sortedArray;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 
 static PyObject * PySortedArray_repr( PyObject * const obj )
-- 
2.43.0


From 0da2e4e5ac4378b650e2992ad5cb74d41440d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 28/44] fix: release the new Python object when its dtype can
 not be found

---
 src/python/PyArray.cpp         | 1 +
 src/python/PyArrayOfArrays.cpp | 1 +
 src/python/PyArrayOfSets.cpp   | 1 +
 src/python/PyCRSMatrix.cpp     | 1 +
 src/python/PySortedArray.cpp   | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 86980d8..8baa7a7 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -298,6 +298,7 @@ PyObject * create( std::unique_ptr< PyArrayWrapperBase > && array )
   PyObject * typeObject = getNumPyTypeObject( array->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index e6b4778..95c0e3d 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -326,6 +326,7 @@ PyObject * create( std::unique_ptr< PyArrayOfArraysWrapperBase > && arrayOfArray
   PyObject * typeObject = getNumPyTypeObject( arrayOfArrays->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index a93a874..c3ecf46 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -341,6 +341,7 @@ PyObject * create( std::unique_ptr< PyArrayOfSetsWrapperBase > && arrayOfSets )
   PyObject * typeObject = getNumPyTypeObject( arrayOfSets->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index bcebe8c..0cd583f 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -449,6 +449,7 @@ PyObject * create( std::unique_ptr< PyCRSMatrixWrapperBase > && matrix )
   PyObject * typeObject = getNumPyTypeObject( matrix->entryType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index b23e2b1..219c3fd 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -253,6 +253,7 @@ PyObject * create( std::unique_ptr< PySortedArrayWrapperBase > && sortedArray )
   PyObject * typeObject = getNumPyTypeObject( sortedArray->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
-- 
2.43.0


From f97d603cc05504076dfb3ae2285e9ef0b1ed29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 29/44] fix: PyArrayOfSets erase_from raises when its values
 can not be converted

---
 src/python/PyArrayOfSets.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index c3ecf46..820f3bc 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -240,6 +240,11 @@ static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject *
   std::tuple< PyObjectRef< PyObject >, void const *, long long > ret =
     parseNumPyArray( arr, self->arrayOfSets->valueType() );
 
+  if( std::get< 0 >( ret ) == nullptr )
+  {
+    return nullptr;
+  }
+
   return PyLong_FromLongLong( self->arrayOfSets->removeFromSet( index,
                                                                 std::get< 1 >( ret ),
                                                                 std::get< 2 >( ret ) ) );
-- 
2.43.0


From 193b408d2b62fc8c85d2e536f6506e7c2edc5301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 30/44] fix: the modifying methods of PyArrayOfArrays and
 PyArrayOfSets refuse an uninitialized object

---
 src/python/PyArrayOfArrays.cpp | 7 +++++++
 src/python/PyArrayOfSets.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index 95c0e3d..b61c391 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -111,6 +111,7 @@ static PyObject * PyArrayOfArrays_getitem( PyArrayOfArrays * const self, Py_ssiz
 
 static int PyArrayOfArrays_delitem( PyArrayOfArrays * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfArrays == nullptr, PyExc_RuntimeError, "The PyArrayOfArrays is not initialized.", -1 );
   if( self->arrayOfArrays->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfArrays is not resizeable" );
@@ -157,6 +158,8 @@ static constexpr char const * PyArrayOfArrays_insertIntoDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insertIntoArray( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long array, index;
   PyObject * arr;
@@ -188,6 +191,8 @@ static constexpr char const * PyArrayOfArrays_insertDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insert( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
@@ -216,6 +221,8 @@ static constexpr char const * PyArrayOfArrays_eraseFromDocString =
   "Remove the value at ``index`` in the subarray ``array``.";
 static PyObject * PyArrayOfArrays_eraseFrom( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index, begin;
   if( !PyArg_ParseTuple( args, "LL", &index, &begin ) )
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 820f3bc..f5c75da 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -111,6 +111,7 @@ static PyObject * PyArrayOfSets_getitem( PyArrayOfSets * const self, Py_ssize_t
 
 static int PyArrayOfSets_delitem( PyArrayOfSets * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfSets == nullptr, PyExc_RuntimeError, "The PyArrayOfSets is not initialized.", -1 );
   if( self->arrayOfSets->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfSets is not resizeable" );
@@ -159,6 +160,8 @@ static constexpr char const * PyArrayOfSets_insertIntoDocString =
   "    The number of values inserted into the set.";
 static PyObject * PyArrayOfSets_insertIntoSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long setIndex;
   PyObject * arr;
@@ -192,6 +195,8 @@ static constexpr char const * PyArrayOfSets_insertSetDocString =
   "Insert a new set with a starting capacity";
 static PyObject * PyArrayOfSets_insertSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   long long capacity = 0;
@@ -223,6 +228,8 @@ static constexpr char const * PyArrayOfSets_removeFromSetDocString =
   "    The number of values removed from the set.";
 static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
-- 
2.43.0


From 2d5fa933b84bda9f5a7df02c5abd043835e0d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 31/44] fix: parseNumPyArray reports a failed conversion

---
 src/python/numpyHelpers.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/numpyHelpers.cpp b/src/python/numpyHelpers.cpp
index 0929fcc..afe6840 100644
--- a/src/python/numpyHelpers.cpp
+++ b/src/python/numpyHelpers.cpp
@@ -267,6 +267,11 @@ parseNumPyArray( PyObject * const obj, std::type_index const expectedType )
                    " to " << getNumPyTypeName( expectedNumPyType ), ErrorReturn );
 
   PyArrayObject * convertedArray = reinterpret_cast< PyArrayObject * >( PyArray_Cast( array, expectedNumPyType ) );
+  if( convertedArray == nullptr )
+  {
+    return ErrorReturn;
+  }
+
   void const * vals = PyArray_DATA( convertedArray );
   long long const nVals = integerConversion< long long >( PyArray_SIZE( convertedArray ) );
   return ReturnType{ reinterpret_cast< PyObject * >( convertedArray ), vals, nVals };
-- 
2.43.0


From 152cd74ba1f924e5b068a3c4da1cfe721496ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 32/44] fix: PyArray resize_all refuses negative dimensions

---
 src/python/PyArray.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 8baa7a7..d6a6b1e 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -182,7 +182,13 @@ static PyObject * PyArray_resizeAll( PyArray * const self, PyObject * const args
   PYTHON_ERROR_IF( std::get< 2 >( ret ) != self->array->ndim(), PyExc_RuntimeError,
                    "Invalid number of dimensions, should be " << self->array->ndim(), nullptr );
 
-  self->array->resize( reinterpret_cast< long long const * >( std::get< 1 >( ret ) ) );
+  long long const * const newDims = reinterpret_cast< long long const * >( std::get< 1 >( ret ) );
+  for( int i = 0; i < self->array->ndim(); ++i )
+  {
+    PYTHON_ERROR_IF( newDims[ i ] < 0, PyExc_ValueError, "Dimensions must be positive.", nullptr );
+  }
+
+  self->array->resize( newDims );
 
   Py_RETURN_NONE;
 }
-- 
2.43.0


From 08b4c9031db10353046947d0364a715c11bc6798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 33/44] fix: PyCRSMatrix add_to_row refuses columns and values
 of different lengths

---
 src/python/PyCRSMatrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 0cd583f..475ea18 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -338,6 +338,9 @@ static PyObject * PyCRSMatrix_addToRow( PyCRSMatrix * const self, PyObject * con
     return nullptr;
   }
 
+  PYTHON_ERROR_IF( std::get< 2 >( colsInfo ) != std::get< 2 >( valsInfo ), PyExc_RuntimeError,
+                   "Number of columns and values must match!", nullptr );
+
   long long const numRows = self->matrix->numRows();
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
-- 
2.43.0


From 0ddcf75d903489c9f37c71578bca6097da0df966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 34/44] fix: assigning a PyObjectRef releases the reference it
 held

---
 src/python/pythonHelpers.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/pythonHelpers.hpp b/src/python/pythonHelpers.hpp
index 3a5c976..1e877f9 100644
--- a/src/python/pythonHelpers.hpp
+++ b/src/python/pythonHelpers.hpp
@@ -189,8 +189,10 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef const & src )
   {
-    m_object = src.m_object;
+    T * const old = m_object;
     internal::xincref( reinterpret_cast< PyObject * >( src.m_object ) );
+    m_object = src.m_object;
+    internal::xdecref( reinterpret_cast< PyObject * >( old ) );
     return *this;
   }
 
@@ -202,8 +204,11 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef && src )
   {
-    m_object = src.m_object;
-    src.m_object = nullptr;
+    if( this != &src )
+    {
+      internal::xdecref( reinterpret_cast< PyObject * >( m_object ) );
+      m_object = src.release();
+    }
     return *this;
   }
 
-- 
2.43.0


From ed9a1eac8c3d897e01dae3a14a794cb357911399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 35/44] fix: PyCRSMatrix to_scipy releases the arrays it passes
 on and reports a failed import

---
 src/python/PyCRSMatrix.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 475ea18..d750805 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -170,24 +170,36 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
                    "Empty matrices cannot be exported to SciPy", nullptr );
 
   std::array< PyObject *, 3 > const triple = self->matrix->getEntriesColumnsAndOffsets();
+  PyObjectRef<> const entries = triple[ 0 ];
+  PyObjectRef<> const columns = triple[ 1 ];
+  PyObjectRef<> const offsets = triple[ 2 ];
 
-  PYTHON_ERROR_IF( triple[ 0 ] == nullptr, PyExc_RuntimeError,
+  PYTHON_ERROR_IF( entries.get() == nullptr, PyExc_RuntimeError,
                    "Error constructing the entries NumPy array", nullptr );
 
-  PYTHON_ERROR_IF( triple[ 1 ] == nullptr, PyExc_RuntimeError,
+  PYTHON_ERROR_IF( columns.get() == nullptr, PyExc_RuntimeError,
                    "Error constructing the columns NumPy array", nullptr );
 
-  PYTHON_ERROR_IF( triple[ 2 ] == nullptr, PyExc_RuntimeError,
+  PYTHON_ERROR_IF( offsets.get() == nullptr, PyExc_RuntimeError,
                    "Error constructing the offsets NumPy array", nullptr );
 
   PyObjectRef<> sciPySparse = PyImport_ImportModule( "scipy.sparse" );
+  if( sciPySparse == nullptr )
+  {
+    return nullptr;
+  }
+
   PyObjectRef<> constructor = PyObject_GetAttrString( sciPySparse, "csr_matrix" );
+  if( constructor == nullptr )
+  {
+    return nullptr;
+  }
 
   return PyObject_CallFunction( constructor,
                                 "(OOO)(ll)",
-                                triple[ 0 ],
-                                triple[ 1 ],
-                                triple[ 2 ],
+                                entries.get(),
+                                columns.get(),
+                                offsets.get(),
                                 self->matrix->numRows(),
                                 self->matrix->numColumns() );
 }
-- 
2.43.0


From 91ae9b3187462ae2b4a3264de1e338fe3c388ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 36/44] fix: addPyLvArrayModule does not release the reference
 the module took over

---
 src/python/python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/python.cpp b/src/python/python.cpp
index 341bab1..4aecb15 100644
--- a/src/python/python.cpp
+++ b/src/python/python.cpp
@@ -151,6 +151,8 @@ bool addPyLvArrayModule( PyObject * module )
     return false;
   }
 
+  // The reference was stolen by PyModule_AddObject.
+  pylvarrayModule.release();
   return true;
 }
 
-- 
2.43.0


From a676fb5d5b5096dbec05e55d22cdaaf351317cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 37/44] fix: createPyListOfStrings reports a failed allocation

---
 src/python/pythonHelpers.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python/pythonHelpers.cpp b/src/python/pythonHelpers.cpp
index 53f737d..50e2788 100644
--- a/src/python/pythonHelpers.cpp
+++ b/src/python/pythonHelpers.cpp
@@ -85,9 +85,20 @@ PyObject * create( std::string const & value )
 PyObject * createPyListOfStrings( std::string const * const strptr, long long const size )
 {
   PyObject * pylist = PyList_New( size );
+  if( pylist == nullptr )
+  {
+    return nullptr;
+  }
+
   for( long long i = 0; i < size; ++i )
   {
     PyObject * pystr = PyUnicode_FromString( strptr[ i ].c_str() );
+    if( pystr == nullptr )
+    {
+      Py_DECREF( pylist );
+      return nullptr;
+    }
+
     PyList_SET_ITEM( pylist, integerConversion< Py_ssize_t >( i ), pystr );
   }
   return pylist;
-- 
2.43.0


From 3d13eadfcc7058532bf0a678bc9b2d955cac41a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 38/44] fix: createCupyArrayImpl hands over the references its
 tuples steal

---
 src/python/numpyHelpers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/numpyHelpers.cpp b/src/python/numpyHelpers.cpp
index afe6840..233f4f2 100644
--- a/src/python/numpyHelpers.cpp
+++ b/src/python/numpyHelpers.cpp
@@ -190,8 +190,8 @@ PyObject * createCupyArrayImpl( void * const data,
       return nullptr;
     }
 
-    PyTuple_SET_ITEM( static_cast< PyObject * >( strideTuple ), i, strideEntry );
-    PyTuple_SET_ITEM( static_cast< PyObject * >( dimTuple ), i, dimEntry );
+    PyTuple_SET_ITEM( static_cast< PyObject * >( strideTuple ), i, strideEntry.release() );
+    PyTuple_SET_ITEM( static_cast< PyObject * >( dimTuple ), i, dimEntry.release() );
   }
 
   PyObjectRef<> cupyHelper = PyImport_ImportModule( "cupy_helper" );
-- 
2.43.0


From 2ff86729b6cfe1289943d039dd78ef9ea4d6b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 39/44] fix: values passed from Python need not be sorted or
 unique

---
 src/python/PyArrayOfSets.hpp | 14 ++++++++------
 src/python/PyCRSMatrix.hpp   | 19 +++++++++++++++----
 src/python/PySortedArray.hpp | 12 ++++++------
 src/python/numpyHelpers.hpp  | 22 ++++++++++++++++++++++
 4 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/src/python/PyArrayOfSets.hpp b/src/python/PyArrayOfSets.hpp
index 93f77cb..89343cf 100644
--- a/src/python/PyArrayOfSets.hpp
+++ b/src/python/PyArrayOfSets.hpp
@@ -113,7 +113,7 @@ public:
   /**
    * @brief Remove values from the a set.
    * @param setIndex The set to remove from.
-   * @param values The values to remove. Must be of type @c valueType, of length @c numVals, and sorted unique.
+   * @param values The values to remove. Must be of type @c valueType and of length @c numVals.
    * @param numVals The number of values to remove.
    * @return The number of values removed.
    * @note This wraps ArrayOfSets::removeFromSet.
@@ -123,7 +123,7 @@ public:
   /**
    * @brief Insert values into a set.
    * @param setIndex The set to insert into.
-   * @param values The values to insert. Must be of type @c valueType, of length @c numVals, and sorted unique.
+   * @param values The values to insert. Must be of type @c valueType and of length @c numVals.
    * @param numVals The number of values to insert.
    * @return The number of values inserted.
    * @note This wraps ArrayOfSets::insertIntoSet.
@@ -225,8 +225,9 @@ public:
                                    long long const numVals ) final override
   {
     INDEX_TYPE convertedIndex = integerConversion< INDEX_TYPE >( setIndex );
-    T const * begin = static_cast< T const * >( values );
-    T const * end = begin + numVals;
+    auto const sorted = internal::sortedUniqueCopy( static_cast< T const * >( values ), numVals );
+    T const * begin = sorted.first.get();
+    T const * end = begin + sorted.second;
     return integerConversion< long long >( m_arrayOfSets.removeFromSet( convertedIndex, begin, end ) );
   }
 
@@ -236,8 +237,9 @@ public:
                                    long long const numVals ) final override
   {
     INDEX_TYPE convertedSetIndex = integerConversion< INDEX_TYPE >( setIndex );
-    T const * begin = static_cast< T const * >( values );
-    T const * end = begin + numVals;
+    auto const sorted = internal::sortedUniqueCopy( static_cast< T const * >( values ), numVals );
+    T const * begin = sorted.first.get();
+    T const * end = begin + sorted.second;
     return integerConversion< long long >( m_arrayOfSets.insertIntoSet( convertedSetIndex, begin, end ) );
   }
 
diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index b7659e3..bb2387a 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -345,7 +345,17 @@ public:
     COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
     T const * const castedEntries = reinterpret_cast< T const * >( entries );
     INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
-    return integerConversion< long long >( m_matrix.insertNonZeros( convertedRow, castedCols, castedEntries, convertedNumCols ) );
+    if( sortedArrayManipulation::isSortedUnique( castedCols, castedCols + numCols ) )
+    {
+      return integerConversion< long long >( m_matrix.insertNonZeros( convertedRow, castedCols, castedEntries, convertedNumCols ) );
+    }
+
+    long long numInserted = 0;
+    for( long long i = 0; i < numCols; ++i )
+    {
+      numInserted += m_matrix.insertNonZero( convertedRow, castedCols[ i ], castedEntries[ i ] );
+    }
+    return numInserted;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -354,9 +364,10 @@ public:
                                     long long const numCols ) final override
   {
     INDEX_TYPE const convertedRow = integerConversion< INDEX_TYPE >( row );
-    COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
-    INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
-    return integerConversion< long long >( m_matrix.removeNonZeros( convertedRow, castedCols, convertedNumCols ) );
+    auto const sorted = internal::sortedUniqueCopy( reinterpret_cast< COL_TYPE const * >( cols ), numCols );
+    return integerConversion< long long >( m_matrix.removeNonZeros( convertedRow,
+                                                                    sorted.first.get(),
+                                                                    integerConversion< INDEX_TYPE >( sorted.second ) ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/src/python/PySortedArray.hpp b/src/python/PySortedArray.hpp
index 8b0c9a5..2a932cf 100644
--- a/src/python/PySortedArray.hpp
+++ b/src/python/PySortedArray.hpp
@@ -83,7 +83,7 @@ public:
 
   /**
    * @brief Insert values into the set.
-   * @param values The values to insert. Must be of type @c valueType, of length @c nVals and sorted unique.
+   * @param values The values to insert. Must be of type @c valueType and of length @c nVals.
    * @param nVals The number of values to insert.
    * @return The number of values inserted.
    * @note This wraps SortedArray::insert.
@@ -92,7 +92,7 @@ public:
 
   /**
    * @brief Remove values from the set.
-   * @param values The values to remove. Must be of type @c valueType, of length @c nVals and sorted unique.
+   * @param values The values to remove. Must be of type @c valueType and of length @c nVals.
    * @param nVals The number of values to remove.
    * @return The number of values removed.
    * @note This wraps SortedArray::remove.
@@ -168,15 +168,15 @@ public:
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
   virtual long long insert( void const * const values, long long const nVals ) final override
   {
-    T const * const castedValues = reinterpret_cast< T const * >( values );
-    return integerConversion< long long >( m_sortedArray.insert( castedValues, castedValues + nVals ) );
+    auto const sorted = internal::sortedUniqueCopy( reinterpret_cast< T const * >( values ), nVals );
+    return integerConversion< long long >( m_sortedArray.insert( sorted.first.get(), sorted.first.get() + sorted.second ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
   virtual long long remove( void const * const values, long long const nVals ) final override
   {
-    T const * const castedValues = reinterpret_cast< T const * >( values );
-    return integerConversion< long long >( m_sortedArray.remove( castedValues, castedValues + nVals ) );
+    auto const sorted = internal::sortedUniqueCopy( reinterpret_cast< T const * >( values ), nVals );
+    return integerConversion< long long >( m_sortedArray.remove( sorted.first.get(), sorted.first.get() + sorted.second ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/src/python/numpyHelpers.hpp b/src/python/numpyHelpers.hpp
index 7c7bcb3..d6f6e3f 100644
--- a/src/python/numpyHelpers.hpp
+++ b/src/python/numpyHelpers.hpp
@@ -27,8 +27,12 @@
 #include "pythonForwardDeclarations.hpp"
 #include "pythonHelpers.hpp"
 #include "../limits.hpp"
+#include "../sortedArrayManipulation.hpp"
 
 // system includes
+#include <algorithm>
+#include <memory>
+#include <utility>
 #include <vector>
 #include <typeindex>
 #include <type_traits>
@@ -83,6 +87,24 @@ PyObject * createCupyArrayImpl( void * const data,
                                 long long const * const dims,
                                 long long const * const strides );
 
+/**
+ * @brief Return a sorted copy of @p values without the duplicates, and the number of values it holds.
+ * @tparam T The type of the values.
+ * @param values The values to copy, in any order.
+ * @param nVals The number of values.
+ * @return A sorted copy of @p values without the duplicates, and the number of values it holds.
+ * @note The containers take ranges which are sorted and unique, Python may pass any.
+ */
+template< typename T >
+std::pair< std::unique_ptr< T[] >, std::ptrdiff_t >
+sortedUniqueCopy( T const * const values, long long const nVals )
+{
+  std::unique_ptr< T[] > copy( new T[ nVals ] );
+  std::copy( values, values + nVals, copy.get() );
+  std::ptrdiff_t const size = sortedArrayManipulation::makeSortedUnique( copy.get(), copy.get() + nVals );
+  return { std::move( copy ), size };
+}
+
 } // namespace internal
 
 /**
-- 
2.43.0


From 096d95d1bf68415f4ea6439c8282512886078451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 40/44] fix: PyCRSMatrix insert_nonzeros refuses columns which
 are out of bounds

---
 src/python/PyCRSMatrix.cpp | 13 +++++++++----
 src/python/PyCRSMatrix.hpp | 11 ++++++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index d750805..4fc87f9 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -278,10 +278,15 @@ static PyObject * PyCRSMatrix_insertNonZeros( PyCRSMatrix * const self, PyObject
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
 
-  return PyLong_FromLongLong( self->matrix->insertNonZeros( row,
-                                                            std::get< 1 >( colsInfo ),
-                                                            std::get< 1 >( entriesInfo ),
-                                                            std::get< 2 >( entriesInfo ) ) );
+  long long const numInserted = self->matrix->insertNonZeros( row,
+                                                              std::get< 1 >( colsInfo ),
+                                                              std::get< 1 >( entriesInfo ),
+                                                              std::get< 2 >( entriesInfo ) );
+
+  PYTHON_ERROR_IF( numInserted < 0, PyExc_ValueError,
+                   "A column is out of bounds for a matrix with " << self->matrix->numColumns() << " columns.", nullptr );
+
+  return PyLong_FromLongLong( numInserted );
 }
 
 static constexpr char const * PyCRSMatrix_removeNonZerosDocString =
diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index bb2387a..fa1da3b 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -155,7 +155,7 @@ public:
    * @param cols The columns to insert, must be of type @c columnType() and length @c numCols.
    * @param entries The entries to insert, must be of type @c entryType() and length @c numCols.
    * @param numCols The number of columns to insert.
-   * @return The number of entries inserted.
+   * @return The number of entries inserted, or -1 if a column is out of bounds in which case nothing is inserted.
    * @note This wraps CRSMatrix::insertNonZeros.
    */
   virtual long long insertNonZeros( long long const row,
@@ -345,6 +345,15 @@ public:
     COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
     T const * const castedEntries = reinterpret_cast< T const * >( entries );
     INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
+
+    for( long long i = 0; i < numCols; ++i )
+    {
+      if( !arrayManipulation::isPositive( castedCols[ i ] ) || castedCols[ i ] >= m_matrix.numColumns() )
+      {
+        return -1;
+      }
+    }
+
     if( sortedArrayManipulation::isSortedUnique( castedCols, castedCols + numCols ) )
     {
       return integerConversion< long long >( m_matrix.insertNonZeros( convertedRow, castedCols, castedEntries, convertedNumCols ) );
-- 
2.43.0


From 08efe3790f4ac4cade5f264f5a21d2aca4976479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 41/44] fix: PyCRSMatrix get_entries is writeable only from
 MODIFIABLE on

---
 src/python/PyCRSMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index fa1da3b..13808ec 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -291,7 +291,7 @@ public:
     T * const entries = m_matrix.getEntries( convertedRow );
     INDEX_TYPE const nnz = m_matrix.numNonZeros( convertedRow );
     constexpr INDEX_TYPE unitStride = 1;
-    return createNumPyArray( entries, getAccessLevel(), 1, &nnz, &unitStride );
+    return createNumPyArray( entries, getAccessLevel() >= static_cast< int >( LvArray::python::PyModify::MODIFIABLE ), 1, &nnz, &unitStride );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From ca22ba8399ca538b53ad487d63f8e1dbd6a73db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:02 +0000
Subject: [PATCH 42/44] fix: the capacity of an ArrayOfArrays is the number of
 arrays both buffers hold

---
 src/ArrayOfArraysView.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 69683d4..f0d9cc7 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -369,8 +369,9 @@ public:
   LVARRAY_HOST_DEVICE CONSTEXPR_WITH_NDEBUG inline
   INDEX_TYPE_NC capacity() const
   {
-    LVARRAY_ASSERT( m_sizes.capacity() < m_offsets.capacity());
-    return m_sizes.capacity();
+    // There is one more offset than there are arrays and the two buffers grow independently of each other.
+    return m_sizes.capacity() < m_offsets.capacity() ? m_sizes.capacity() :
+           m_offsets.capacity() > 0 ? m_offsets.capacity() - 1 : 0;
   }
 
   /**
-- 
2.43.0


From 6cabca73e4efbf33164e7e8744c6544577072d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:25 +0000
Subject: [PATCH 43/44] fix: an error handler that sets another one is kept
 until it returns

---
 src/system.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index 75d5e83..7d1323b 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -11,6 +11,7 @@
 
 // System includes
 #include <map>
+#include <memory>
 #include <sstream>
 #include <iostream>
 #include <signal.h>
@@ -434,29 +435,31 @@ std::string calculateSize( size_t const bytes )
  * @brief A static pointer to the error handler.
  * @note When using a std::function directly there was an exit time error, by not deallocating it we get around it.
  */
-std::function< void() > * s_errorHandler = nullptr;
+std::shared_ptr< std::function< void() > > * s_errorHandler = nullptr;
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void setErrorHandler( std::function< void() > const & handler )
 {
   LVARRAY_ERROR_IF( handler == nullptr, "Error handler cannot be null." );
-  if( s_errorHandler != nullptr )
+  if( s_errorHandler == nullptr )
   {
-    delete s_errorHandler;
+    s_errorHandler = new std::shared_ptr< std::function< void() > >();
   }
 
-  s_errorHandler = new std::function< void() >( handler );
+  *s_errorHandler = std::make_shared< std::function< void() > >( handler );
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void callErrorHandler()
 {
-  if( s_errorHandler == nullptr || *s_errorHandler == nullptr )
+  if( s_errorHandler == nullptr || **s_errorHandler == nullptr )
   {
     return std::abort();
   }
 
-  (*s_errorHandler)();
+  // The handler may set another one, it is kept until it returns.
+  std::shared_ptr< std::function< void() > > const handler = *s_errorHandler;
+  (*handler)();
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a9223ee00b5969fce1d887d084dfd86cd3ac9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:25 +0000
Subject: [PATCH 44/44] fix: the message about a move of 10000 GB or more does
 not throw

---
 src/ChaiBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 8c1d73f..bffbeb1 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -449,7 +449,7 @@ public:
       if( act == chai::ACTION_MOVE )
       {
         std::string const size = system::calculateSize( record->m_size );
-        std::string const paddedSize = std::string( 9 - size.size(), ' ' ) + size;
+        std::string const paddedSize = std::string( size.size() < 9 ? 9 - size.size() : 0, ' ' ) + size;
         char const * const spaceStr = ( s == chai::CPU ) ? "HOST  " : "DEVICE";
         LVARRAY_LOG( "Moved " << paddedSize << " to the " << spaceStr << ": " << typeString << " " << name );
       }
-- 
2.43.0

