From 434990b1cfea926ae0c93ece2e339e9a16833d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 01/50] fix: appending a RealVector of another implementation
 lost its entries

---
 array_real_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 66811bc..49bf571 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -140,8 +140,8 @@ func NewArrayRealVectorFromTwoRealVector(v1, v2 RealVector) (*ArrayRealVector, e
         data[i] = v1.At(i)
     }
 
-    for i := l1; i < l2; i++ {
-        data[i] = v2.At(i)
+    for i := 0; i < l2; i++ {
+        data[l1+i] = v2.At(i)
     }
 
     return &ArrayRealVector{data: data}, nil
-- 
2.43.0


From 31a08adb4420dcd81ef7cd8749970bdc9957ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 02/50] fix: Array2DRowRealMatrix.SetRow panicked for every row
 but the first

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2b2da55..f2c1561 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -707,7 +707,7 @@ func (a2drrm *Array2DRowRealMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
-	copy(a2drrm.data[row][0:row+nCols], array[0:nCols])
+	copy(a2drrm.data[row], array)
 }
 
 func (a2drrm *Array2DRowRealMatrix) RowMatrixAt(row int) RealMatrix {
-- 
2.43.0


From 9dcafeb110b8de0d532f5a2903e311ddab06f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 03/50] fix: OperateVector and PreMultiplyVector dereferenced
 nil for vectors of another implementation

---
 array_2d_row_real_matrix.go | 12 ++++++------
 block_real_matrix.go        | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index f2c1561..2dfc93e 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -470,15 +470,15 @@ func (a2drrm *Array2DRowRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
 		for row := 0; row < nRows; row++ {
 			var sum float64
 			for i := 0; i < nCols; i++ {
-				sum += a2drrm.data[row][i] * v.At(i)
+				sum += a2drrm.data[row][i] * vec.At(i)
 			}
 			out[row] = sum
 		}
@@ -500,15 +500,15 @@ func (a2drrm *Array2DRowRealMatrix) PreMultiplyVector(vec RealVector) RealVector
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
 		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += a2drrm.data[i][col] * v.At(i)
+				sum += a2drrm.data[i][col] * vec.At(i)
 			}
 			out[col] = sum
 		}
diff --git a/block_real_matrix.go b/block_real_matrix.go
index 9f8a6c0..505fd24 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -977,8 +977,8 @@ func (brm *BlockRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
@@ -1046,15 +1046,15 @@ func (brm *BlockRealMatrix) PreMultiplyVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
-		out := make([]float64, nCols)
+		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += brm.At(i, col) * v.At(i)
+				sum += brm.At(i, col) * vec.At(i)
 			}
 			out[col] = sum
 		}
-- 
2.43.0


From efe5c999901fe113a0ec5bf2418d6030ea0ab363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 04/50] fix: Array2DRowRealMatrix.SetColumnVector ignored an
 invalid column index

---
 array_2d_row_real_matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2dfc93e..418ff83 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -795,7 +795,9 @@ func (a2drrm *Array2DRowRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector) {
-	checkColumnIndex(a2drrm, column)
+	if err := checkColumnIndex(a2drrm, column); err != nil {
+		panic(err)
+	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
 		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
-- 
2.43.0


From 0bf65538f57202489eef119f5c8f9d2d5d4845ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 05/50] fix: DiagonalMatrix submatrix and bounded walks ignored
 invalid indices

---
 diagonal_matrix.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 49db089..6ad1b31 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -575,10 +575,18 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		}
 	}
 
-	checkRowIndex(dm, row)
-	checkColumnIndex(dm, column)
-	checkRowIndex(dm, nRows+row-1)
-	checkColumnIndex(dm, nCols+column-1)
+	if err := checkRowIndex(dm, row); err != nil {
+		panic(err)
+	}
+	if err := checkColumnIndex(dm, column); err != nil {
+		panic(err)
+	}
+	if err := checkRowIndex(dm, nRows+row-1); err != nil {
+		panic(err)
+	}
+	if err := checkColumnIndex(dm, nCols+column-1); err != nil {
+		panic(err)
+	}
 
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
@@ -588,7 +596,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 }
 
 func (dm *DiagonalMatrix) SubMatrix(startRow, endRow, startColumn, endColumn int) RealMatrix {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	if (endRow - startRow + 1) != (endColumn - startColumn + 1) {
 		panic(dimensionsMismatchSimpleErrorf((endRow - startRow + 1), (endColumn - startColumn + 1)))
 	}
@@ -676,7 +686,9 @@ func (dm *DiagonalMatrix) WalkInRowOrder(visitor RealMatrixPreservingVisitor) fl
 }
 
 func (dm *DiagonalMatrix) WalkInRowOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -699,7 +711,9 @@ func (dm *DiagonalMatrix) WalkInUpdateRowOrder(visitor RealMatrixChangingVisitor
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateRowOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -734,7 +748,9 @@ func (dm *DiagonalMatrix) WalkInColumnOrder(visitor RealMatrixPreservingVisitor)
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
@@ -745,7 +761,9 @@ func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChang
 }
 
 func (dm *DiagonalMatrix) WalkInColumnOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
-- 
2.43.0


From ad6125dbb7ec4e319a3ef06ccd601beb6d2c199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 06/50] fix: DiagonalMatrix entry updates ignored invalid
 off-diagonal indices

---
 diagonal_matrix.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 6ad1b31..abbe373 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -206,6 +206,9 @@ func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
 		}
 		dm.data[row] = value
 	} else {
+		if err := checkMatrixIndex(dm, row, column); err != nil {
+			panic(err)
+		}
 		if err := dm.ensureZero(value); err != nil {
 			panic(err)
 		}
@@ -219,6 +222,9 @@ func (dm *DiagonalMatrix) AddToEntry(row, column int, increment float64) {
 		}
 		dm.data[row] += increment
 	} else {
+		if err := checkMatrixIndex(dm, row, column); err != nil {
+			panic(err)
+		}
 		if err := dm.ensureZero(increment); err != nil {
 			panic(err)
 		}
@@ -240,6 +246,8 @@ func (dm *DiagonalMatrix) MultiplyEntry(row, column int, factor float64) {
 			panic(err)
 		}
 		dm.data[row] *= factor
+	} else if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
 	}
 }
 
-- 
2.43.0


From d99a29239e69eb2428071ab6d1080c2449f46f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 07/50] fix: ULP comparison was wrong across signs (-0.0 !=
 0.0) and depended on argument order

---
 utils.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/utils.go b/utils.go
index dc0d844..a8f1483 100644
--- a/utils.go
+++ b/utils.go
@@ -22,7 +22,7 @@ import (
 )
 
 const (
-	sgn_mask_float = 0x80000000
+	sgn_mask_float = uint64(1) << 63
 )
 
 var (
@@ -87,16 +87,19 @@ func equalsWithULP(x, y float64, maxUlps int) bool {
 	var isEqual bool
 	if ((xInt ^ yInt) & sgn_mask_float) == 0 {
 		// number have same sign, there is no risk of overflow
-		isEqual = uint64(math.Abs(float64(xInt-yInt))) <= uint64(maxUlps)
+		if xInt < yInt {
+			xInt, yInt = yInt, xInt
+		}
+		isEqual = xInt-yInt <= uint64(maxUlps)
 	} else {
 		// number have opposite signs, take care of overflow
 		var deltaPlus, deltaMinus uint64
 		if xInt < yInt {
-			deltaPlus = yInt - positive_zero_float64_bits
-			deltaMinus = xInt - negative_zero_float64_bits
-		} else {
 			deltaPlus = xInt - positive_zero_float64_bits
 			deltaMinus = yInt - negative_zero_float64_bits
+		} else {
+			deltaPlus = yInt - positive_zero_float64_bits
+			deltaMinus = xInt - negative_zero_float64_bits
 		}
 
 		if deltaPlus > uint64(maxUlps) {
-- 
2.43.0


From 9b4d213865b22b11d969e446b4c07fd2015ec876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 08/50] fix: matrix constructors and Block SetSubMatrix hit
 index-out-of-range on empty data

---
 array_2d_row_real_matrix.go | 3 +++
 block_real_matrix.go        | 9 +++++++++
 real_matrix.go              | 2 +-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 418ff83..544b742 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -68,6 +68,9 @@ func NewArray2DRowRealMatrixFromSlice(v []float64) (*Array2DRowRealMatrix, error
 	if v == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
+	if len(v) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 
 	ans := new(Array2DRowRealMatrix)
 	nRows := len(v)
diff --git a/block_real_matrix.go b/block_real_matrix.go
index 505fd24..4bd04d1 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -79,6 +79,9 @@ func NewBlockRealMatrix(rowDimension, columnDimension int) (*BlockRealMatrix, er
 }
 
 func NewBlockRealMatrixFromSlices(rawData [][]float64) (*BlockRealMatrix, error) {
+	if len(rawData) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 	return NewBlockRealMatrixFromBlockData(len(rawData), len(rawData[0]), toBlocksLayout(rawData))
 }
 
@@ -99,6 +102,9 @@ func NewBlockRealMatrixFromBlockData(rows, columns int, blockData [][]float64) (
 	ans.blockColumns = (columns + BLOCK_SIZE - 1) / BLOCK_SIZE
 
 	ans.blocks = blockData
+	if len(blockData) != ans.blockRows*ans.blockColumns {
+		return nil, dimensionsMismatchSimpleErrorf(len(blockData), ans.blockRows*ans.blockColumns)
+	}
 
 	var index int
 	for iBlock := 0; iBlock < ans.blockRows; iBlock++ {
@@ -545,6 +551,9 @@ func (brm *BlockRealMatrix) SetSubMatrix(subMatrix [][]float64, row, column int)
 		panic(invalidArgumentSimpleErrorf())
 	}
 
+	if len(subMatrix) == 0 {
+		panic(noDataErrorf(at_least_one_row))
+	}
 	refLength := len(subMatrix[0])
 	if refLength == 0 {
 		panic(noDataErrorf(at_least_one_column))
diff --git a/real_matrix.go b/real_matrix.go
index 6d83661..6f2bea0 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -333,7 +333,7 @@ func NewRealMatrixWithDimension(rows, columns int) (RealMatrix, error) {
 }
 
 func NewRealMatrixFromSlices(data [][]float64) (RealMatrix, error) {
-	if data == nil || data[0] == nil {
+	if len(data) == 0 || data[0] == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
 
-- 
2.43.0


From ed4a5c1f76c8575af75759feed87ee3266f2a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 09/50] fix: CopySubMatrix helpers hit index-out-of-range on an
 empty destination

---
 real_matrix.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/real_matrix.go b/real_matrix.go
index 6f2bea0..049bf45 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -402,6 +402,9 @@ func CopySubMatrix(m RealMatrix, startRow, endRow, startColumn, endColumn int, d
 
 	rowsCount := endRow + 1 - startRow
 	columnsCount := endColumn + 1 - startColumn
+	if len(destination) == 0 {
+		panic(matrixDimensionMismatchErrorf(0, 0, rowsCount, columnsCount))
+	}
 	if (len(destination) < rowsCount) || (len(destination[0]) < columnsCount) {
 		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), rowsCount, columnsCount))
 	}
@@ -428,6 +431,9 @@ func CopySubMatrixFromIndices(m RealMatrix, selectedRows, selectedColumns []int,
 	}
 
 	nCols := len(selectedColumns)
+	if len(destination) == 0 {
+		panic(matrixDimensionMismatchErrorf(0, 0, len(selectedRows), nCols))
+	}
 	if (len(destination) < len(selectedRows)) || (len(destination[0]) < nCols) {
 		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
 	}
-- 
2.43.0


From a8c77df1129eaae2d4d564c206d3bc741293a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 10/50] fix: SubMatrix ignored invalid row and column
 selections

---
 real_matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/real_matrix.go b/real_matrix.go
index 049bf45..2ca2929 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -466,7 +466,9 @@ func (drmcv realMatrixChangingVisitorImpl) End() float64 { return 0 }
  * Gets a submatrix. Rows and columns are indicated counting from 0 to n-1.
  */
 func SubMatrix(m RealMatrix, selectedRows, selectedColumns []int) RealMatrix {
-	checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns)
+	if err := checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns); err != nil {
+		panic(err)
+	}
 
 	subMatrix, err := NewRealMatrixWithDimension(len(selectedRows), len(selectedColumns))
 	if err != nil {
-- 
2.43.0


From a74a61152bcaeb9e4316116f8bae7d6e40fa9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 11/50] fix: SetSubVector overwrote its own source when both
 vectors share storage

---
 array_real_vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/array_real_vector.go b/array_real_vector.go
index 49bf571..06d1068 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -455,6 +455,7 @@ func (arv *ArrayRealVector) SetSubVector(index int, vec RealVector) {
 
     if v, ok := vec.(*ArrayRealVector); ok {
         arv.SetSubVectorWithSlice(index, v.data)
+        return
     }
 
     for i := index; i < index+vec.Dimension(); i++ {
-- 
2.43.0


From e0886bfb0ad0ced94c95f6b1fd7567b461bd81f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 12/50] fix: sized vector constructors panicked on a negative
 size instead of returning an error

---
 array_real_vector.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/array_real_vector.go b/array_real_vector.go
index 06d1068..ca55c72 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -30,6 +30,9 @@ type ArrayRealVector struct {
  * @param size Size of the vector.
  */
 func NewSizedArrayRealVector(size int) (*ArrayRealVector, error) {
+    if size < 0 {
+        return nil, notPositiveErrorf(number_of_elements_should_be_positive, float64(size))
+    }
     return &ArrayRealVector{data: make([]float64, size)}, nil
 }
 
@@ -100,6 +103,9 @@ func NewArrayRealVector(d []float64, copyArray bool) (*ArrayRealVector, error) {
  * @param preset All entries will be set with this value.
  */
 func NewSizedArrayRealVectorWithPreset(size int, preset float64) (*ArrayRealVector, error) {
+    if size < 0 {
+        return nil, notPositiveErrorf(number_of_elements_should_be_positive, float64(size))
+    }
     ans := &ArrayRealVector{data: make([]float64, size)}
     for i := 0; i < size; i++ {
         ans.data[i] = preset
-- 
2.43.0


From aaea37f2c8190cd0ec3f8312a96b381324544e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 13/50] fix: Projection overwrote the vector projected onto

---
 real_vector.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/real_vector.go b/real_vector.go
index 5550008..8823515 100644
--- a/real_vector.go
+++ b/real_vector.go
@@ -476,8 +476,9 @@ func Projection(src, dest RealVector) RealVector {
 		panic(mathArithmeticErrorf(zero_norm))
 	}
 
-	dest.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
-	return dest
+	projection := dest.Copy()
+	projection.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
+	return projection
 }
 
 /**
-- 
2.43.0


From 54a567ebf297973f2f1617861dafc03b91e37b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 14/50] fix: RRQR solver Inverse panicked for non-square
 matrices

---
 rrqr_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 5499d0e..8f41325 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -181,7 +181,7 @@ func (rrqrds *rrqrDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 }
 
 func (rrqrds *rrqrDecompositionSolver) Inverse() RealMatrix {
-	m, err := NewRealIdentityMatrix(rrqrds.rrqrd.P().RowDimension())
+	m, err := NewRealIdentityMatrix(len(rrqrds.rrqrd.qrt[0]))
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 9c9dadb53f15530ba97d95245d67d905a81935a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 15/50] fix: RRQR Rank of a zero matrix was 1

---
 rrqr_decomposition.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 8f41325..0e91288 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -135,6 +135,9 @@ func (rrqrd *RRQRDecomposition) Rank(dropThreshold float64) int {
 	rank := 1
 	lastNorm := MatFrobeniusNorm(r)
 	rNorm := lastNorm
+	if rNorm == 0 {
+		return 0
+	}
 	for rank < int(math.Min(float64(rows), float64(columns))) {
 		thisNorm := MatFrobeniusNorm(r.SubMatrix(rank, rows-1, rank, columns-1))
 		if thisNorm == 0 || (thisNorm/lastNorm)*rNorm < dropThreshold {
-- 
2.43.0


From bd9c8b33a8f4293601ab9c7f1a3cae88f59ff808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 16/50] fix: SVD treated every singular value below 1e-8 as
 zero whatever the matrix scale

---
 singular_value_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 14ce2cb..1302350 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -444,7 +444,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 	}
 
 	// Set the small value tolerance used to calculate rank and pseudo-inverse
-	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(doubleeps))
+	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(math.Ldexp(1, -1022)))
 
 	if !ans.transposed {
 		ans.cachedU, err = NewRealMatrixFromSlices(U)
-- 
2.43.0


From 962e65a89faee06321855123b1da2d753dd9f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 17/50] fix: SVD Covariance of a wide matrix was cut to its
 leading block

---
 singular_value_decomposition.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 1302350..e74a06f 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -564,9 +564,10 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		panic(numberIsTooLargeErrorf(too_large_cutoff_singular_value, minSingularValue, svd.singularValues[0], true))
 	}
 
+	columns := svd.V().RowDimension()
 	data := make([][]float64, dimension)
 	for i := 0; i < dimension; i++ {
-		data[i] = make([]float64, p)
+		data[i] = make([]float64, columns)
 	}
 
 	t := struct{ svdPreservingVisitor }{}
@@ -575,7 +576,7 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		data[row][column] = value / svd.singularValues[row]
 	}
 
-	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, p-1)
+	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, columns-1)
 
 	jv, err := NewArray2DRowRealMatrixFromSlices(data, true)
 	if err != nil {
-- 
2.43.0


From d1146e0b82f371d131d8ebc772b86856bf64dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 18/50] fix: Eigen Determinant ignored the imaginary parts of
 complex eigenvalues

---
 eigen_decomposition.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 48276f6..aede92e 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -261,8 +261,13 @@ func (ed *EigenDecomposition) EigenvectorAt(i int) RealVector {
  */
 func (ed *EigenDecomposition) Determinant() float64 {
 	determinant := 1.
-	for _, lambda := range ed.realEigenvalues {
-		determinant *= lambda
+	for i, lambda := range ed.realEigenvalues {
+		if im := ed.imagEigenvalues[i]; im > 0 {
+			// first of two conjugates, their product is the squared modulus
+			determinant *= lambda*lambda + im*im
+		} else if im == 0 {
+			determinant *= lambda
+		}
 	}
 	return determinant
 }
-- 
2.43.0


From 1f74fc0fef2e284c4944cbbfac872106a3a105e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 19/50] fix: real eigenvalues of large matrices were reported
 as complex pairs

---
 eigen_decomposition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index aede92e..249548e 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -504,12 +504,13 @@ func (ed *EigenDecomposition) transformToSchur(matrix RealMatrix) (*SchurTransfo
 	}
 
 	matT := schurTransform.T().Data()
+	tol := eps_ed * MatFrobeniusNorm(schurTransform.T())
 
 	ed.realEigenvalues = make([]float64, len(matT))
 	ed.imagEigenvalues = make([]float64, len(matT))
 
 	for i := 0; i < len(ed.realEigenvalues); i++ {
-		if i == (len(ed.realEigenvalues)-1) || equalsWithError(matT[i+1][i], 0.0, eps_ed) {
+		if i == (len(ed.realEigenvalues)-1) || equalsWithError(matT[i+1][i], 0.0, tol) {
 			ed.realEigenvalues[i] = matT[i][i]
 		} else {
 			x := matT[i+1][i+1]
-- 
2.43.0


From b31a9bcf1be4d2fd73797aa66b8c225181f70a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 20/50] fix: eigenvectors of small nonsymmetric matrices took
 complex pairs below 1e-12 for real

---
 eigen_decomposition.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 249548e..46c97eb 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -167,9 +167,9 @@ func (ed *EigenDecomposition) D() RealMatrix {
 		}
 
 		for i := 0; i < len(ed.imagEigenvalues); i++ {
-			if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) > 0 {
+			if ed.imagEigenvalues[i] > 0 {
 				ed.cachedD.SetEntry(i, i+1, ed.imagEigenvalues[i])
-			} else if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+			} else if ed.imagEigenvalues[i] < 0 {
 				ed.cachedD.SetEntry(i, i-1, ed.imagEigenvalues[i])
 			}
 		}
@@ -544,7 +544,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 	}
 
 	// we can not handle a matrix with zero norm
-	if equalsWithError(norm, 0.0, eps_ed) {
+	if norm == 0.0 {
 		return mathArithmeticErrorf(zero_norm)
 	}
 
@@ -556,7 +556,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 		p := ed.realEigenvalues[idx]
 		q := ed.imagEigenvalues[idx]
 
-		if equals(q, 0.0) {
+		if q == 0.0 {
 			// Real vector
 			l := idx
 			matrixT[idx][idx] = 1.0
@@ -566,12 +566,12 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				for j := l; j <= idx; j++ {
 					r += matrixT[i][j] * matrixT[j][idx]
 				}
-				if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+				if ed.imagEigenvalues[i] < 0 {
 					z = w
 					s = r
 				} else {
 					l = i
-					if equals(ed.imagEigenvalues[i], 0.0) {
+					if ed.imagEigenvalues[i] == 0.0 {
 						if w != 0.0 {
 							matrixT[i][idx] = -r / w
 						} else {
@@ -626,13 +626,13 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				}
 				w := matrixT[i][i] - p
 
-				if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+				if ed.imagEigenvalues[i] < 0 {
 					z = w
 					r = ra
 					s = sa
 				} else {
 					l = i
-					if equals(ed.imagEigenvalues[i], 0.0) {
+					if ed.imagEigenvalues[i] == 0.0 {
 						c := complex(-ra, -sa) / complex(w, q)
 						matrixT[i][idx-1] = real(c)
 						matrixT[i][idx] = imag(c)
-- 
2.43.0


From d4949316c426ffa20ba8ca5cdfbf4f3090a205eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 21/50] fix: Schur transform of a zero matrix did not converge

---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index dd0d27e..94b837b 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -221,7 +221,7 @@ func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx int, norm float
 		if s == 0.0 {
 			s = norm
 		}
-		if math.Abs(st.matrixT[l][l-1]) < doubleeps*s {
+		if math.Abs(st.matrixT[l][l-1]) <= doubleeps*s {
 			break
 		}
 		l--
-- 
2.43.0


From 81b28dff50be08b0cf7e67912995bb54817f148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 22/50] fix: NewSchurTransformer panicked instead of returning
 its convergence error

---
 schur_transformer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 94b837b..dbfbc30 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -55,7 +55,9 @@ func NewSchurTransformer(matrix RealMatrix) (*SchurTransformer, error) {
 	ans.matrixP = transformer.P().Data()
 
 	// transform matrix
-	ans.transform()
+	if err := ans.transform(); err != nil {
+		return nil, err
+	}
 	return ans, nil
 }
 
@@ -110,7 +112,7 @@ func (st *SchurTransformer) T() RealMatrix {
 /**
  * Transform original matrix to Schur form.
  */
-func (st *SchurTransformer) transform() {
+func (st *SchurTransformer) transform() error {
 	n := len(st.matrixT)
 
 	// compute matrix norm
@@ -185,7 +187,7 @@ func (st *SchurTransformer) transform() {
 			// stop transformation after too many iterations
 			iteration++
 			if iteration > max_iter_st {
-				panic(maxIterationErrorf(convergence_failed, max_iter_st))
+				return maxIterationErrorf(convergence_failed, max_iter_st)
 			}
 
 			// the initial houseHolder vector for the QR step
@@ -195,6 +197,8 @@ func (st *SchurTransformer) transform() {
 			st.performDoubleQRStep(il, im, iu, shift, hVec)
 		}
 	}
+
+	return nil
 }
 
 /**
-- 
2.43.0


From 8a7d29bc3986a32fbe5ca562faee1525f153e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 23/50] fix: Eigen solver returned wrong solutions for
 non-symmetric matrices

---
 eigen_decomposition.go | 47 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 46c97eb..e992d50 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -714,6 +714,36 @@ func newEigenDecompositionSolver(ed *EigenDecomposition) *eigenDecompositionSolv
 	return &eigenDecompositionSolver{ed: ed}
 }
 
+/**
+ * Solves V &times; D &times; V<sup>-1</sup> &times; X = B, for the eigenvectors of a
+ * non-symmetric matrix, which are not orthogonal.
+ */
+func (s *eigenDecompositionSolver) solveNonSymmetric(b RealMatrix) RealMatrix {
+	v, err := NewRealMatrixWithDimension(len(s.ed.eigenvectors), len(s.ed.eigenvectors))
+	if err != nil {
+		panic(err)
+	}
+	for k, vec := range s.ed.eigenvectors {
+		v.SetColumnVector(k, vec)
+	}
+	lu, err := NewLUDecompositionWithThreshold(v, 0)
+	if err != nil {
+		panic(err)
+	}
+
+	y := lu.Solver().SolveMatrix(b).Data()
+	for i := range y {
+		for k := range y[i] {
+			y[i][k] /= s.ed.realEigenvalues[i]
+		}
+	}
+	mat, err := NewRealMatrixFromSlices(y)
+	if err != nil {
+		panic(err)
+	}
+	return v.Multiply(mat)
+}
+
 func (s *eigenDecompositionSolver) IsNonSingular() bool {
 	largestEigenvalueNorm := 0.0
 	// Looping over all values (in case they are not sorted in decreasing
@@ -750,6 +780,13 @@ func (s *eigenDecompositionSolver) SolveVector(b RealVector) RealVector {
 	if !s.IsNonSingular() {
 		panic(singularMatrixSimpleErrorf())
 	}
+	if !s.ed.isSymmetric {
+		mat, err := NewArray2DRowRealMatrixFromSlice(b.ToArray())
+		if err != nil {
+			panic(err)
+		}
+		return s.solveNonSymmetric(mat).ColumnVectorAt(0)
+	}
 
 	bp := make([]float64, m)
 	for i := 0; i < m; i++ {
@@ -774,6 +811,9 @@ func (s *eigenDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 	if !s.IsNonSingular() {
 		panic(singularMatrixSimpleErrorf())
 	}
+	if !s.ed.isSymmetric {
+		return s.solveNonSymmetric(b)
+	}
 
 	nColB := b.ColumnDimension()
 	bp := make([][]float64, m)
@@ -811,6 +851,13 @@ func (s *eigenDecompositionSolver) Inverse() RealMatrix {
 	}
 
 	m := len(s.ed.realEigenvalues)
+	if !s.ed.isSymmetric {
+		id, err := NewRealIdentityMatrix(m)
+		if err != nil {
+			panic(err)
+		}
+		return s.solveNonSymmetric(id)
+	}
 	invData := make([][]float64, m)
 
 	for i := 0; i < m; i++ {
-- 
2.43.0


From f0826a70ca152a25856c02791afab079195630d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 24/50] fix: number error messages showed their bounds as a
 slice

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 760939f..4201dd0 100644
--- a/error.go
+++ b/error.go
@@ -491,7 +491,7 @@ func (e mathIllegalNumberError) Argument() float64 {
 
 func mathIllegalNumberErrorf(pattern string, wrong float64, arguments ...interface{}) mathIllegalNumberError {
 	ret := mathIllegalNumberError{argument: wrong}
-	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, wrong, arguments)
+	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, append([]interface{}{wrong}, arguments...)...)
 	return ret
 }
 
-- 
2.43.0


From a9aea3a7a54abe38eac881660b164b26fe724251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 25/50] fix: error messages carried formatting leftovers and
 swapped bounds

---
 array_real_vector.go |  6 +++---
 error.go             | 16 ++++++++--------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index ca55c72..03b5161 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -620,7 +620,7 @@ func (arv *ArrayRealVector) WalkInUpdateOptimizedOrderBounded(visitor RealVector
 func checkIndex(v RealVector, idx int) error {
     dim := v.Dimension()
     if idx < 0 || idx >= dim {
-        return outOfRangeErrorf(index, float64(idx), 0, float64(dim)-1)
+        return outOfRangeErrorf("index %v out of [%v, %v] range", float64(idx), 0, float64(dim)-1)
     }
 
     return nil
@@ -629,10 +629,10 @@ func checkIndex(v RealVector, idx int) error {
 func checkIndices(v RealVector, start, end int) error {
     dim := v.Dimension()
     if (start < 0) || (start >= dim) {
-        return outOfRangeErrorf(index, float64(start), 0, float64(dim-1))
+        return outOfRangeErrorf("index %v out of [%v, %v] range", float64(start), 0, float64(dim-1))
     }
     if (end < 0) || (end >= dim) {
-        return outOfRangeErrorf(index, float64(end), 0, float64(dim-1))
+        return outOfRangeErrorf("index %v out of [%v, %v] range", float64(end), 0, float64(dim-1))
     }
     if end < start {
         return numberIsTooSmallErrorf(initial_row_after_final_row, float64(end), float64(start), false)
diff --git a/error.go b/error.go
index 4201dd0..9ffb075 100644
--- a/error.go
+++ b/error.go
@@ -42,17 +42,17 @@ const (
 	no_data                               = "no data"
 	out_of_range_simple                   = "%v out of [%v, %v] range"
 	index                                 = "index (%v)"
-	number_of_elements_should_be_positive = "number of elements should be positive (%v)"
-	initial_row_after_final_row           = "initial row %v after final row %v"
-	initial_column_after_final_column     = "initial column %v after final column %v"
+	number_of_elements_should_be_positive = "number of elements should be positive (%[1]v)"
+	initial_row_after_final_row           = "initial row %[2]v after final row %[1]v"
+	initial_column_after_final_column     = "initial column %[2]v after final column %[1]v"
 	number_too_small                      = "%v is smaller than the minimum (%v)"
 	number_too_small_bound_excluded       = "%v is smaller than, or equal to, the minimum (%v)"
 	number_too_large                      = "%v is larger than the maximum (%v)"
 	number_too_large_bound_excluded       = "%v is larger than, or equal to, the maximum (%v)"
 	empty_selected_column_index_array     = "empty selected column index array"
 	empty_selected_row_index_array        = "empty selected row index array"
-	row_index                             = "row index (%v)"
-	column_index                          = "column index ((%v)"
+	row_index                             = "row index (%v) out of [%v, %v] range"
+	column_index                          = "column index (%v) out of [%v, %v] range"
 	illegal_state                         = "illegal state"
 	first_rows_not_initialized_yet        = "first %v rows are not initialized yet"
 	first_columns_not_initialized_yet     = "first %v columns are not initialized yet"
@@ -63,12 +63,12 @@ const (
 	non_symmetric_matrix                  = "non symmetric matrix: the difference between entries at (%v,%v) and (%v,%v) is larger than %v"
 	not_positive_definite_matrix          = "not positive definite matrix"
 	array_element                         = "value %v at index %v"
-	not_positive_exponent                 = "invalid exponent %v (must be positive)"
+	not_positive_exponent                 = "invalid exponent %[1]v (must be positive)"
 	singular_matrix                       = "matrix is singular"
 	unsupported_operation                 = "unsupported operation"
 	convergence_failed                    = "convergence failed"
 	max_count_exceeded                    = "maximal count (%d) exceeded"
-	too_large_cutoff_singular_value       = "cutoff singular value is {0}, should be at most {1}"
+	too_large_cutoff_singular_value       = "cutoff singular value is %v, should be at most %v"
 )
 
 type maxIterationError struct {
@@ -539,7 +539,7 @@ func (e mathError) Error() string {
 	return e.msg
 }
 
-func (e mathError) addMsg(msg string) {
+func (e *mathError) addMsg(msg string) {
 	e.msg += " : " + msg
 }
 
-- 
2.43.0


From 3921afe4e743d95c8199e3c8cd05843bc3c3efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 26/50] fix: concurrent solves with one RRQR solver raced on
 the cached permutation

---
 rrqr_decomposition.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 0e91288..4d2b85c 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -168,6 +168,8 @@ type rrqrDecompositionSolver struct {
 }
 
 func newRRQRDecompositionSolver(rrqrd *RRQRDecomposition) *rrqrDecompositionSolver {
+	// the permutation is cached here, so that concurrent solves only read it
+	rrqrd.P()
 	return &rrqrDecompositionSolver{rrqrd: rrqrd, qrds: rrqrd.QRDecomposition.Solver().(*qrDecompositionSolver)}
 }
 
-- 
2.43.0


From 14f1fa05d9937ab468a12b77e449cebecf304478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 27/50] fix: QR H held NaN for a column that needed no
 reflection

---
 qr_decomposition.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qr_decomposition.go b/qr_decomposition.go
index 51a6236..b2fa635 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -251,7 +251,9 @@ func (qrd *QRDecomposition) H() RealMatrix {
 		for i := 0; i < m; i++ {
 			ha[i] = make([]float64, n)
 			for j := 0; j < int(math.Min(float64(i+1), float64(n))); j++ {
-				ha[i][j] = qrd.qrt[j][i] / -qrd.rDiag[j]
+				if qrd.rDiag[j] != 0 {
+					ha[i][j] = qrd.qrt[j][i] / -qrd.rDiag[j]
+				}
 			}
 		}
 		var err error
-- 
2.43.0


From 222ace1be8220309ffd945bd736484515a6503d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 28/50] fix: rectangular Cholesky of a non-square matrix
 panicked or dropped columns

---
 rectangular_cholesky_decomposition.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index 3b02e29..5d4d8c5 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -32,6 +32,10 @@ func NewRectangularCholeskyDecomposition(matrix RealMatrix) (*RectangularCholesk
 }
 
 func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small float64) (*RectangularCholeskyDecomposition, error) {
+	if !IsSquare(matrix) {
+		return nil, nonSquareMatrixSimpleErrorf(matrix.RowDimension(), matrix.ColumnDimension())
+	}
+
 	ans := new(RectangularCholeskyDecomposition)
 	order := matrix.RowDimension()
 	c := matrix.Data()
-- 
2.43.0


From c0377940c92c1adde63969b7013b11a7bcf6dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 29/50] fix: Block SetRowVector and SetColumnVector
 dereferenced nil for vectors of another implementation

---
 block_real_matrix.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 4bd04d1..79677ca 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -752,8 +752,8 @@ func (brm *BlockRealMatrix) RowVectorAt(row int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetRowVector(row int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetRow(row, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetRow(row, v.DataRef())
 	} else {
 		if err := checkRowIndex(brm, row); err != nil {
 			panic(err)
@@ -793,8 +793,8 @@ func (brm *BlockRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetColumnVector(column int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetColumn(column, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetColumn(column, v.DataRef())
 	} else {
 		if err := checkColumnIndex(brm, column); err != nil {
 			panic(err)
-- 
2.43.0


From fd4500ea42ab51d0d10c00e9c9b41051342583fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 30/50] fix: eigen decomposition reported bad indices and
 tridiagonal sizes as run-time faults

---
 eigen_decomposition.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index e992d50..dd4fb66 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -102,6 +102,13 @@ func NewEigenDecomposition(matrix RealMatrix) (*EigenDecomposition, error) {
  * matrix.  The Householder matrix is assumed to be the identity matrix.
  */
 func NewEigenDecompositionFromTridiagonal(main, secondary []float64) (*EigenDecomposition, error) {
+	if len(main) == 0 {
+		return nil, noDataErrorSimpleErrorf()
+	}
+	if len(secondary) != len(main)-1 {
+		return nil, dimensionsMismatchSimpleErrorf(len(secondary), len(main)-1)
+	}
+
 	ans := new(EigenDecomposition)
 	ans.isSymmetric = true
 	ans.main = append([]float64{}, main...)
@@ -230,6 +237,7 @@ func (ed *EigenDecomposition) RealEigenvalues() []float64 {
  * matrix.
  */
 func (ed *EigenDecomposition) RealEigenvalueAt(i int) float64 {
+	ed.checkEigenvalueIndex(i)
 	return ed.realEigenvalues[i]
 }
 
@@ -246,6 +254,7 @@ func (ed *EigenDecomposition) ImagEigenvalues() []float64 {
  * matrix.
  */
 func (ed *EigenDecomposition) ImagEigenvalue(i int) float64 {
+	ed.checkEigenvalueIndex(i)
 	return ed.imagEigenvalues[i]
 }
 
@@ -253,9 +262,16 @@ func (ed *EigenDecomposition) ImagEigenvalue(i int) float64 {
  * Gets a copy of the i<sup>th</sup> eigenvector of the original matrix.
  */
 func (ed *EigenDecomposition) EigenvectorAt(i int) RealVector {
+	ed.checkEigenvalueIndex(i)
 	return ed.eigenvectors[i].Copy()
 }
 
+func (ed *EigenDecomposition) checkEigenvalueIndex(i int) {
+	if n := len(ed.realEigenvalues); i < 0 || i >= n {
+		panic(outOfRangeSimpleErrorf(float64(i), 0, float64(n-1)))
+	}
+}
+
 /**
  * Computes the determinant of the matrix.
  */
-- 
2.43.0


From adfd47a27c6af63b39a60f3502db93d41b0f1519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 31/50] fix: Schur QR step skipped sub-diagonal entries below
 an absolute 1e-16 and never converged on low-rank or graded matrices

---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index dbfbc30..0861a59 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -333,7 +333,7 @@ func (st *SchurTransformer) performDoubleQRStep(il, im, iu int, shift *ShiftInfo
 			}
 
 			shift.x = math.Abs(p) + math.Abs(q) + math.Abs(r)
-			if equalsWithError(shift.x, 0.0, doubleeps) {
+			if shift.x == 0.0 {
 				continue
 			}
 			p /= shift.x
-- 
2.43.0


From 118956cc1a0484a8fe1eb628b4aa78cf8a49a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 32/50] fix: Householder reflections of vectors whose squares
 underflow gave NaN factors

---
 bidiagonal_transformer.go | 62 +++++++++++++++++++++++++--------------
 hessenberg_transformer.go |  7 ++++-
 qr_decomposition.go       | 18 ++++++++----
 utils.go                  | 26 ++++++++++++++++
 4 files changed, 84 insertions(+), 29 deletions(-)

diff --git a/bidiagonal_transformer.go b/bidiagonal_transformer.go
index e6e31cf..262140d 100644
--- a/bidiagonal_transformer.go
+++ b/bidiagonal_transformer.go
@@ -60,7 +60,7 @@ func (bdt *BiDiagonalTransformer) U() RealMatrix {
 					for i := k; i < m; i++ {
 						alpha -= ua[i][j] * bdt.householderVectors[i][k-diagOffset]
 					}
-					alpha /= diagonal[k-diagOffset] * hK[k-diagOffset]
+					alpha = (alpha / diagonal[k-diagOffset]) / hK[k-diagOffset]
 
 					for i := k; i < m; i++ {
 						ua[i][j] += -alpha * bdt.householderVectors[i][k-diagOffset]
@@ -148,7 +148,7 @@ func (bdt *BiDiagonalTransformer) V() RealMatrix {
 					for i := k; i < n; i++ {
 						beta -= va[i][j] * hK[i]
 					}
-					beta /= diagonal[k-diagOffset] * hK[k]
+					beta = (beta / diagonal[k-diagOffset]) / hK[k]
 
 					for i := k; i < n; i++ {
 						va[i][j] += -beta * hK[i]
@@ -186,6 +186,32 @@ func (bdt *BiDiagonalTransformer) IsUpperBiDiagonal() bool {
 	return len(bdt.householderVectors) >= len(bdt.householderVectors[0])
 }
 
+// columnNorm returns the norm of the entries of column j from row first on, given
+// the sum of their squares, and clears these entries if they are negligible.
+func (bdt *BiDiagonalTransformer) columnNorm(sumSqr float64, first, j int) float64 {
+	hv := bdt.householderVectors
+	norm := safeNorm(sumSqr, len(hv)-first, func(i int) float64 { return hv[first+i][j] })
+	if norm == 0 {
+		for i := first; i < len(hv); i++ {
+			hv[i][j] = 0
+		}
+	}
+	return norm
+}
+
+// rowNorm returns the norm of the entries of row i from column first on, given
+// the sum of their squares, and clears these entries if they are negligible.
+func (bdt *BiDiagonalTransformer) rowNorm(sumSqr float64, i, first int) float64 {
+	row := bdt.householderVectors[i][first:]
+	norm := safeNorm(sumSqr, len(row), func(j int) float64 { return row[j] })
+	if norm == 0 {
+		for j := range row {
+			row[j] = 0
+		}
+	}
+	return norm
+}
+
 func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 
 	m := len(bdt.householderVectors)
@@ -198,11 +224,9 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 			xNormSqr += c * c
 		}
 		hK := bdt.householderVectors[k]
-		var a float64
+		a := bdt.columnNorm(xNormSqr, k, k)
 		if hK[k] > 0 {
-			a = -math.Sqrt(xNormSqr)
-		} else {
-			a = math.Sqrt(xNormSqr)
+			a = -a
 		}
 
 		bdt.main[k] = a
@@ -214,7 +238,7 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 					hI := bdt.householderVectors[i]
 					alpha -= hI[j] * hI[k]
 				}
-				alpha /= a * bdt.householderVectors[k][k]
+				alpha = (alpha / a) / bdt.householderVectors[k][k]
 				for i := k; i < m; i++ {
 					hI := bdt.householderVectors[i]
 					hI[j] -= alpha * hI[k]
@@ -229,11 +253,9 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 				c := hK[j]
 				xNormSqr += c * c
 			}
-			var b float64
+			b := bdt.rowNorm(xNormSqr, k, k+1)
 			if hK[k+1] > 0 {
-				b = -math.Sqrt(xNormSqr)
-			} else {
-				b = math.Sqrt(xNormSqr)
+				b = -b
 			}
 			bdt.secondary[k] = b
 			if b != 0.0 {
@@ -244,7 +266,7 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 					for j := k + 1; j < n; j++ {
 						beta -= hI[j] * hK[j]
 					}
-					beta /= b * hK[k+1]
+					beta = (beta / b) / hK[k+1]
 					for j := k + 1; j < n; j++ {
 						hI[j] -= beta * hK[j]
 					}
@@ -265,11 +287,9 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 			c := hK[j]
 			xNormSqr += c * c
 		}
-		var a float64
+		a := bdt.rowNorm(xNormSqr, k, k)
 		if hK[k] > 0 {
-			a = -math.Sqrt(xNormSqr)
-		} else {
-			a = math.Sqrt(xNormSqr)
+			a = -a
 		}
 		bdt.main[k] = a
 		if a != 0.0 {
@@ -280,7 +300,7 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 				for j := k; j < n; j++ {
 					alpha -= hI[j] * hK[j]
 				}
-				alpha /= a * bdt.householderVectors[k][k]
+				alpha = (alpha / a) / bdt.householderVectors[k][k]
 				for j := k; j < n; j++ {
 					hI[j] -= alpha * hK[j]
 				}
@@ -295,11 +315,9 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 				c := bdt.householderVectors[i][k]
 				xNormSqr += c * c
 			}
-			var b float64
+			b := bdt.columnNorm(xNormSqr, k+1, k)
 			if hKp1[k] > 0 {
-				b = -math.Sqrt(xNormSqr)
-			} else {
-				b = math.Sqrt(xNormSqr)
+				b = -b
 			}
 			bdt.secondary[k] = b
 			if b != 0.0 {
@@ -310,7 +328,7 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 						hI := bdt.householderVectors[i]
 						beta -= hI[j] * hI[k]
 					}
-					beta /= b * hKp1[k]
+					beta = (beta / b) / hKp1[k]
 					for i := k + 1; i < m; i++ {
 						hI := bdt.householderVectors[i]
 						hI[j] -= beta * hI[k]
diff --git a/hessenberg_transformer.go b/hessenberg_transformer.go
index 811c201..0758f86 100644
--- a/hessenberg_transformer.go
+++ b/hessenberg_transformer.go
@@ -181,7 +181,12 @@ func (hs *HessenbergTransformer) transform() {
 			scale += math.Abs(hs.householderVectors[i][m-1])
 		}
 
-		if !equals(scale, 0) {
+		if scale < tinyNorm {
+			// the column is negligible, there is nothing to eliminate
+			for i := m; i <= high; i++ {
+				hs.householderVectors[i][m-1] = 0
+			}
+		} else {
 			// Compute Householder transformation.
 			h := 0.
 			for i := high; i >= m; i-- {
diff --git a/qr_decomposition.go b/qr_decomposition.go
index b2fa635..ca26f40 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -92,7 +92,13 @@ func (qrd *QRDecomposition) performHouseholderReflection(minor int, matrix [][]f
 		c := qrtMinor[row]
 		xNormSqr += c * c
 	}
-	a := math.Sqrt(xNormSqr)
+	a := safeNorm(xNormSqr, len(qrtMinor)-minor, func(i int) float64 { return qrtMinor[minor+i] })
+	if a == 0 {
+		// what is left of the column is negligible
+		for row := minor; row < len(qrtMinor); row++ {
+			qrtMinor[row] = 0
+		}
+	}
 	if qrtMinor[minor] > 0 {
 		a *= -1
 	}
@@ -129,7 +135,8 @@ func (qrd *QRDecomposition) performHouseholderReflection(minor int, matrix [][]f
 			for row := minor; row < len(qrtCol); row++ {
 				alpha -= qrtCol[row] * qrtMinor[row]
 			}
-			alpha /= a * qrtMinor[minor]
+			// Double division avoids possible underflow
+			alpha = (alpha / a) / qrtMinor[minor]
 
 			// Subtract the column vector alpha*v from x.
 			for row := minor; row < len(qrtCol); row++ {
@@ -217,7 +224,7 @@ func (qrd *QRDecomposition) QT() RealMatrix {
 					for row := minor; row < m; row++ {
 						alpha -= qta[col][row] * qrtMinor[row]
 					}
-					alpha /= qrd.rDiag[minor] * qrtMinor[minor]
+					alpha = (alpha / qrd.rDiag[minor]) / qrtMinor[minor]
 
 					for row := minor; row < m; row++ {
 						qta[col][row] += -alpha * qrtMinor[row]
@@ -327,7 +334,7 @@ func (qrds *qrDecompositionSolver) SolveVector(b RealVector) RealVector {
 		for row := minor; row < m; row++ {
 			dotProduct += y[row] * qrtMinor[row]
 		}
-		dotProduct /= qrds.qrd.rDiag[minor] * qrtMinor[minor]
+		dotProduct = (dotProduct / qrds.qrd.rDiag[minor]) / qrtMinor[minor]
 
 		for row := minor; row < m; row++ {
 			y[row] += dotProduct * qrtMinor[row]
@@ -380,7 +387,6 @@ func (qrds *qrDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 		// apply Householder transforms to solve Q.y = b
 		for minor := 0; minor < int(math.Min(float64(m), float64(n))); minor++ {
 			qrtMinor := qrds.qrd.qrt[minor]
-			factor := 1.0 / (qrds.qrd.rDiag[minor] * qrtMinor[minor])
 
 			for i := 0; i < kWidth; i++ {
 				alpha[i] = 0.
@@ -394,7 +400,7 @@ func (qrds *qrDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 				}
 			}
 			for k := 0; k < kWidth; k++ {
-				alpha[k] *= factor
+				alpha[k] = (alpha[k] / qrds.qrd.rDiag[minor]) / qrtMinor[minor]
 			}
 
 			for row := minor; row < m; row++ {
diff --git a/utils.go b/utils.go
index a8f1483..ac1ed45 100644
--- a/utils.go
+++ b/utils.go
@@ -58,6 +58,32 @@ func _isSymmetric(matrix RealMatrix, relativeTolerance float64, raiseException b
 	return true
 }
 
+// tinyNorm is the norm below which a vector has no accurate Householder
+// reflection: its entries are too close to the underflow threshold.
+const tinyNorm = 0x1p-970
+
+// safeNorm returns the Euclidean norm of the n values at(0) ... at(n-1), given
+// the sum of their squares. It only differs from the square root of that sum
+// when the squares underflow.
+func safeNorm(sumSqr float64, n int, at func(int) float64) float64 {
+	if !(sumSqr < tinyNorm) {
+		return math.Sqrt(sumSqr)
+	}
+	var scale float64
+	for i := 0; i < n; i++ {
+		scale = math.Max(scale, math.Abs(at(i)))
+	}
+	if scale < tinyNorm {
+		return 0
+	}
+	var sum float64
+	for i := 0; i < n; i++ {
+		c := at(i) / scale
+		sum += c * c
+	}
+	return scale * math.Sqrt(sum)
+}
+
 func isSymmetric(matrix RealMatrix, eps float64) bool {
 	return _isSymmetric(matrix, eps, false)
 }
-- 
2.43.0


From e95250f36d0148b57e0fbd2a82547d9289262926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 33/50] fix: Schur transformation did not converge when the
 noise of a low-rank matrix underflowed

---
 schur_transformer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 0861a59..64642b5 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -24,6 +24,10 @@ var (
 	max_iter_st = 100
 )
 
+// negligible is the ratio to the norm of the matrix below which a sub-diagonal
+// entry is round-off noise whatever its neighbours: its square underflows.
+const negligible = 0x1p-400
+
 /**
  * Class transforming a general real matrix to Schur form.
  * <p>A m &times; m matrix A can be written as the product of three matrices: A = P
@@ -225,7 +229,8 @@ func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx int, norm float
 		if s == 0.0 {
 			s = norm
 		}
-		if math.Abs(st.matrixT[l][l-1]) <= doubleeps*s {
+		sub := math.Abs(st.matrixT[l][l-1])
+		if sub <= doubleeps*s || (sub <= negligible*norm && !math.IsInf(norm, 0)) {
 			break
 		}
 		l--
@@ -321,6 +326,13 @@ func (st *SchurTransformer) performDoubleQRStep(il, im, iu int, shift *ShiftInfo
 	q := hVec[1]
 	r := hVec[2]
 
+	// only the direction of the initial vector matters
+	if x := math.Abs(p) + math.Abs(q) + math.Abs(r); x != 0.0 {
+		p /= x
+		q /= x
+		r /= x
+	}
+
 	for k := im; k <= iu-1; k++ {
 		notlast := k != (iu - 1)
 		if k != im {
-- 
2.43.0


From c397ad21593c347b49198e495de2d2c7b380c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 34/50] fix: symmetric eigen decomposition of low-rank matrices
 of order above about 80 did not converge

The iteration budget is now shared by all eigenvalues, as in LAPACK.
---
 eigen_decomposition.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index dd4fb66..3236dc5 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -391,8 +391,8 @@ func (ed *EigenDecomposition) findEigenVectors(householderMatrix [][]float64) er
 		}
 	}
 
+	its := 0
 	for j := 0; j < n; j++ {
-		its := 0
 		var m int
 		for ok := true; ok; ok = m != j {
 			for m = j; m < n-1; m++ {
@@ -403,8 +403,8 @@ func (ed *EigenDecomposition) findEigenVectors(householderMatrix [][]float64) er
 				}
 			}
 			if m != j {
-				if its == max_iter_ed {
-					return maxIterationErrorf(convergence_failed, max_iter_ed)
+				if its == max_iter_ed*n {
+					return maxIterationErrorf(convergence_failed, max_iter_ed*n)
 				}
 				its++
 				q := (ed.realEigenvalues[j+1] - ed.realEigenvalues[j]) / (2 * e[j])
-- 
2.43.0


From 433dfe93eb4203d75ed4db3983510986d11a9fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 35/50] fix: Schur transformation cycled for ever on some
 matrices, [[0 4 0] [-1 3 -4] [0 1 0]] for one

---
 schur_transformer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/schur_transformer.go b/schur_transformer.go
index 64642b5..3b1a60a 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -282,6 +282,14 @@ func (st *SchurTransformer) computeShift(l, idx, iteration int, shift *ShiftInfo
 			shift.w = 0.964
 		}
 	}
+
+	// LAPACK's exceptional shift, for the cycles that the ones above do not break
+	if iteration > 30 && iteration%10 == 0 {
+		s := math.Abs(st.matrixT[idx][idx-1])
+		shift.x = st.matrixT[idx][idx] + 0.75*s
+		shift.y = shift.x
+		shift.w = -0.4375 * s * s
+	}
 }
 
 /**
-- 
2.43.0


From 648a283754b1f4036993d6f6e449d3069fdfa15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 36/50] fix: Schur transformation gave up on matrices with
 defective clusters of eigenvalues

---
 schur_transformer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 3b1a60a..fd39628 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -125,6 +125,10 @@ func (st *SchurTransformer) transform() error {
 	// shift information
 	shift := new(ShiftInfo)
 
+	// the eigenvalues share the iterations: a defective cluster needs many of them
+	maxTotal := max_iter_st * int(math.Max(3., float64(n)))
+	total := 0
+
 	// Outer loop over eigenvalue index
 	iteration := 0
 	iu := n - 1
@@ -188,10 +192,11 @@ func (st *SchurTransformer) transform() error {
 			// No convergence yet
 			st.computeShift(il, iu, iteration, shift)
 
-			// stop transformation after too many iterations
+			// stop transformation after too many iterations, in all
 			iteration++
-			if iteration > max_iter_st {
-				return maxIterationErrorf(convergence_failed, max_iter_st)
+			total++
+			if total > maxTotal {
+				return maxIterationErrorf(convergence_failed, maxTotal)
 			}
 
 			// the initial houseHolder vector for the QR step
-- 
2.43.0


From 58c06400cddeec9bca609713801122c34728f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 37/50] fix: singular vectors of low-rank matrices of order
 above about 20 were not orthogonal when the noise became denormal

---
 singular_value_decomposition.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index e74a06f..c3782b7 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -23,6 +23,10 @@ import (
 const (
 	eps_svd  = 2.220446049250313e-16
 	tiny_svd = 1.6033346880071782e-291
+
+	// vectors whose norm is below scalable_svd are multiplied by scale_svd for their reflection
+	scalable_svd = 0x1p-960
+	scale_svd    = 0x1p+120
 )
 
 /**
@@ -84,6 +88,16 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 			for i := k; i < m; i++ {
 				ans.singularValues[k] = math.Hypot(ans.singularValues[k], A[i][k])
 			}
+			scale := 1.
+			if ans.singularValues[k] != 0 && ans.singularValues[k] < scalable_svd {
+				// Denormal entries are too coarse to be normalized as they are.
+				scale = scale_svd
+				ans.singularValues[k] = 0
+				for i := k; i < m; i++ {
+					A[i][k] *= scale
+					ans.singularValues[k] = math.Hypot(ans.singularValues[k], A[i][k])
+				}
+			}
 			if ans.singularValues[k] != 0 {
 				if A[k][k] < 0 {
 					ans.singularValues[k] = -ans.singularValues[k]
@@ -93,7 +107,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 				}
 				A[k][k] += 1
 			}
-			ans.singularValues[k] = -ans.singularValues[k]
+			ans.singularValues[k] = -ans.singularValues[k] / scale
 		}
 		for j := k + 1; j < n; j++ {
 			if k < nct && ans.singularValues[k] != 0 {
@@ -126,6 +140,15 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 			for i := k + 1; i < n; i++ {
 				e[k] = math.Hypot(e[k], e[i])
 			}
+			scale := 1.
+			if e[k] != 0 && e[k] < scalable_svd {
+				scale = scale_svd
+				e[k] = 0
+				for i := k + 1; i < n; i++ {
+					e[i] *= scale
+					e[k] = math.Hypot(e[k], e[i])
+				}
+			}
 			if e[k] != 0 {
 				if e[k+1] < 0 {
 					e[k] = -e[k]
@@ -135,7 +158,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 				}
 				e[k+1] += 1
 			}
-			e[k] = -e[k]
+			e[k] = -e[k] / scale
 			if k+1 < m &&
 				e[k] != 0 {
 				// Apply the transformation.
-- 
2.43.0


From 94308b02fdc8540159a1274db5ce9eab896f166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 38/50] fix: Schur classified a pair of eigenvalues before
 restoring its shift, so that some double eigenvalues kept a block of order
 two

---
 schur_transformer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index fd39628..d2ee73e 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -145,10 +145,10 @@ func (st *SchurTransformer) transform() error {
 			iteration = 0
 		} else if il == iu-1 {
 			// Two roots found
-			p := (st.matrixT[iu-1][iu-1] - st.matrixT[iu][iu]) / 2.0
-			q := p*p + st.matrixT[iu][iu-1]*st.matrixT[iu-1][iu]
 			st.matrixT[iu][iu] += shift.exShift
 			st.matrixT[iu-1][iu-1] += shift.exShift
+			p := (st.matrixT[iu-1][iu-1] - st.matrixT[iu][iu]) / 2.0
+			q := p*p + st.matrixT[iu][iu-1]*st.matrixT[iu-1][iu]
 
 			if q >= 0 {
 				z := math.Sqrt(math.Abs(q))
-- 
2.43.0


From b24e65d2c0ccce175e857104f2888cf5697b3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 39/50] fix: tridiagonal reduction of rows whose squares
 underflow gave infinite eigenvectors

---
 tridiagonal_transformer.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/tridiagonal_transformer.go b/tridiagonal_transformer.go
index 706164e..441b97c 100644
--- a/tridiagonal_transformer.go
+++ b/tridiagonal_transformer.go
@@ -85,11 +85,11 @@ func (tdf *TriDiagonalTransformer) QT() RealMatrix {
 
 		// build up first part of the matrix by applying Householder transforms
 		for k := m - 1; k >= 1; k-- {
-			hK := tdf.householderVectors[k-1]
+			hK, a := tdf.reflector(k - 1)
 			qta[k][k] = 1
 			if hK[k] != 0.0 {
-				inv := 1.0 / (tdf.secondary[k-1] * hK[k])
-				beta := 1.0 / tdf.secondary[k-1]
+				inv := 1.0 / (a * hK[k])
+				beta := 1.0 / a
 				qta[k][k] = 1 + beta*hK[k]
 				for i := k + 1; i < m; i++ {
 					qta[k][i] = beta * hK[i]
@@ -176,6 +176,21 @@ func (tdf *TriDiagonalTransformer) SecondaryDiagonalRef() []float64 {
 	return tdf.secondary
 }
 
+// reflector returns the k-th Householder vector and its secondary diagonal element,
+// both multiplied by a power of two if their products would underflow.
+func (tdf *TriDiagonalTransformer) reflector(k int) ([]float64, float64) {
+	hK, a := tdf.householderVectors[k], tdf.secondary[k]
+	if a == 0 || !(math.Abs(a) < 0x1p-400) {
+		return hK, a
+	}
+	_, exp := math.Frexp(a)
+	v := make([]float64, len(hK))
+	for j := k + 1; j < len(hK); j++ {
+		v[j] = math.Ldexp(hK[j], -exp)
+	}
+	return v, math.Ldexp(a, -exp)
+}
+
 /**
  * Transform original matrix to tridiagonal form.
  * Transformation is done using Householder transforms.
@@ -194,7 +209,13 @@ func (tdf *TriDiagonalTransformer) transform() {
 			xNormSqr += c * c
 		}
 
-		a := math.Sqrt(xNormSqr)
+		a := safeNorm(xNormSqr, m-k-1, func(j int) float64 { return hK[k+1+j] })
+		if a == 0 {
+			// what is left of the row is negligible
+			for j := k + 1; j < m; j++ {
+				hK[j] = 0
+			}
+		}
 		if hK[k+1] > 0 {
 			a *= -1
 		}
@@ -203,6 +224,7 @@ func (tdf *TriDiagonalTransformer) transform() {
 			// apply Householder transform from left and right simultaneously
 
 			hK[k+1] -= a
+			hK, a := tdf.reflector(k)
 			beta := -1 / (a * hK[k+1])
 
 			// compute a = beta A v, where v is the Householder vector
-- 
2.43.0


From 0a26b3d533dc94b40f67f245cec7f349da4dbed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 40/50] fix: eigenvectors of equal eigenvalues that are
 negligible beside the norm overflowed to NaN

---
 eigen_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 3236dc5..b40fcec 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -588,7 +588,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				} else {
 					l = i
 					if ed.imagEigenvalues[i] == 0.0 {
-						if w != 0.0 {
+						if math.Abs(w) > negligible*norm {
 							matrixT[i][idx] = -r / w
 						} else {
 							matrixT[i][idx] = -r / (doubleeps * norm)
-- 
2.43.0


From 76b8cf89c645b109257f3c7295e0d8de2ddd0535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 41/50] fix: eigenvectors were wrong for pairs of eigenvalues
 whose imaginary parts underflow when squared

---
 eigen_decomposition.go | 9 ++++++++-
 schur_transformer.go   | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index b40fcec..3c278da 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -609,6 +609,9 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 
 					// Overflow control
 					t := math.Abs(matrixT[i][idx])
+					if ed.imagEigenvalues[i] != 0.0 {
+						t = math.Max(t, math.Abs(matrixT[i+1][idx]))
+					}
 					if (doubleeps*t)*t > 1 {
 						for j := i; j <= idx; j++ {
 							matrixT[j][idx] /= t
@@ -658,7 +661,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 						y := matrixT[i+1][i]
 						vr := (ed.realEigenvalues[i]-p)*(ed.realEigenvalues[i]-p) + ed.imagEigenvalues[i]*ed.imagEigenvalues[i] - q*q
 						vi := (ed.realEigenvalues[i] - p) * 2.0 * q
-						if equals(vr, 0.0) && equals(vi, 0.0) {
+						if math.Abs(vr)+math.Abs(vi) <= negligible*norm*norm {
 							vr = doubleeps * norm * (math.Abs(w) + math.Abs(q) + math.Abs(x) + math.Abs(y) + math.Abs(z))
 						}
 						c := complex(x*r-z*ra+q*sa, x*s-z*sa-q*ra) / complex(vr, vi)
@@ -680,6 +683,10 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 					// Overflow control
 					t := math.Max(math.Abs(matrixT[i][idx-1]),
 						math.Abs(matrixT[i][idx]))
+					if ed.imagEigenvalues[i] != 0.0 {
+						t = math.Max(t, math.Max(math.Abs(matrixT[i+1][idx-1]),
+							math.Abs(matrixT[i+1][idx])))
+					}
 					if (doubleeps*t)*t > 1 {
 						for j := i; j <= idx; j++ {
 							matrixT[j][idx-1] /= t
diff --git a/schur_transformer.go b/schur_transformer.go
index d2ee73e..b40b27b 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -150,8 +150,9 @@ func (st *SchurTransformer) transform() error {
 			p := (st.matrixT[iu-1][iu-1] - st.matrixT[iu][iu]) / 2.0
 			q := p*p + st.matrixT[iu][iu-1]*st.matrixT[iu-1][iu]
 
-			if q >= 0 {
-				z := math.Sqrt(math.Abs(q))
+			if q >= -negligible*norm*norm {
+				// real roots, or a pair so close to the real axis that it counts as a double one
+				z := math.Sqrt(math.Max(q, 0))
 				if p >= 0 {
 					z = p + z
 				} else {
-- 
2.43.0


From 20e73f69dc7538c3a94bc959170b488edeb77f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 42/50] fix: LU with a zero threshold takes an exactly null
 pivot for a singular matrix

---
 lu_decomposition.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lu_decomposition.go b/lu_decomposition.go
index 49e8392..9a76a2b 100644
--- a/lu_decomposition.go
+++ b/lu_decomposition.go
@@ -102,8 +102,8 @@ func NewLUDecompositionWithThreshold(matrix RealMatrix, singularityThreshold flo
 			}
 		}
 
-		// Singularity check
-		if math.Abs(ans.lu[max][col]) < singularityThreshold {
+		// Singularity check, no threshold allows a division by zero
+		if pivot := math.Abs(ans.lu[max][col]); pivot == 0 || pivot < singularityThreshold {
 			ans.singular = true
 			return ans, nil
 		}
-- 
2.43.0


From 174cf8fac0a21564ce8d24f4b891fda48a91aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 43/50] fix: SetColumnVector of the array storage reported the
 shape of its argument transposed

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 544b742..2ce0b9d 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -803,7 +803,7 @@ func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector)
 	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
-		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
+		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 
 	}
 	for i := 0; i < nRows; i++ {
-- 
2.43.0


From 85139e9cb40b954cb2009c18d0f4f0e5d8314efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 44/50] fix: SetSubMatrix of the array storage complained about
 rows when columns were missing

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2ce0b9d..6e50c3d 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -290,7 +290,7 @@ func (a2drrm *Array2DRowRealMatrix) SetSubMatrix(subMatrix [][]float64, row, col
 
 	nCols := len(subMatrix[0])
 	if nCols == 0 {
-		panic(noDataErrorf(at_least_one_row))
+		panic(noDataErrorf(at_least_one_column))
 	}
 
 	if a2drrm.data == nil {
-- 
2.43.0


From 47228b61607977116982ff2f01fb0131438288a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 45/50] fix: RectangularCholesky reported a wrong place for a
 negative diagonal element

---
 rectangular_cholesky_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index 5d4d8c5..85c1b3b 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -81,7 +81,7 @@ func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small f
 				if c[index[i]][index[i]] < -small {
 					// there is at least one sufficiently negative diagonal element,
 					// the symmetric positive semidefinite matrix is wrong
-					return nil, nonPositiveDefiniteMatrixErrorf(c[index[i]][index[i]], i, small)
+					return nil, nonPositiveDefiniteMatrixErrorf(c[index[i]][index[i]], index[i], small)
 				}
 			}
 
-- 
2.43.0


From 48c9292e9c555e46dea3d027d9d0a546415e2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 46/50] fix: CopySubMatrixFromIndices reported the length of
 the first row for another row that is too short

---
 real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/real_matrix.go b/real_matrix.go
index 2ca2929..2ee7189 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -441,7 +441,7 @@ func CopySubMatrixFromIndices(m RealMatrix, selectedRows, selectedColumns []int,
 	for i := 0; i < len(selectedRows); i++ {
 		destinationI := destination[i]
 		if len(destinationI) < nCols {
-			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
+			panic(matrixDimensionMismatchErrorf(len(destination), len(destinationI), len(selectedRows), len(selectedColumns)))
 		}
 		for j := 0; j < len(selectedColumns); j++ {
 			destinationI[j] = m.At(selectedRows[i], selectedColumns[j])
-- 
2.43.0


From db23d2b4f9ec14b53eac4eb05515345b068529a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 47/50] fix: a size of zero was said to be smaller than zero

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 9ffb075..17e8eb3 100644
--- a/error.go
+++ b/error.go
@@ -319,7 +319,7 @@ func (e notStrictlyPositiveError) Status() int {
 
 func notStrictlyPositiveErrorf(number float64) notStrictlyPositiveError {
 	ret := notStrictlyPositiveError{}
-	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, true)
+	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, false)
 	return ret
 }
 
-- 
2.43.0


From 2fa702acea8f0bf22e40ccc5d6ed29993b299cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:54 +0000
Subject: [PATCH 48/50] fix: a refused first SetSubMatrix left the matrix half
 initialised or ended in a runtime error

---
 array_2d_row_real_matrix.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 6e50c3d..e271690 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -294,26 +294,24 @@ func (a2drrm *Array2DRowRealMatrix) SetSubMatrix(subMatrix [][]float64, row, col
 	}
 
 	if a2drrm.data == nil {
-		if row > 0 {
+		if row != 0 {
 			panic(mathIllegalStateErrorf(first_rows_not_initialized_yet, row))
 		}
 
-		if column > 0 {
+		if column != 0 {
 			panic(mathIllegalStateErrorf(first_columns_not_initialized_yet, column))
 		}
 
-		a2drrm.data = make([][]float64, len(subMatrix))
-
-		for i := 0; i < nRows; i++ {
-			a2drrm.data[i] = make([]float64, nCols)
-		}
-
-		for i := 0; i < len(a2drrm.data); i++ {
+		for i := 1; i < nRows; i++ {
 			if len(subMatrix[i]) != nCols {
 				panic(dimensionsMismatchSimpleErrorf(len(subMatrix[i]), nCols))
 			}
+		}
+
+		a2drrm.data = make([][]float64, nRows)
 
-			copy(a2drrm.data[i+row][column:column+nCols], subMatrix[i][0:nCols])
+		for i := 0; i < nRows; i++ {
+			a2drrm.data[i] = append([]float64{}, subMatrix[i]...)
 		}
 	} else {
 
-- 
2.43.0


From f8e295443c0ff4e05e57347a6f7767b913914480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:36 +0000
Subject: [PATCH 49/50] fix: singular vectors were not orthogonal when a
 rotation met denormal numbers

---
 singular_value_decomposition.go | 35 +++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index c3782b7..82e3647 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -24,11 +24,28 @@ const (
 	eps_svd  = 2.220446049250313e-16
 	tiny_svd = 1.6033346880071782e-291
 
-	// vectors whose norm is below scalable_svd are multiplied by scale_svd for their reflection
+	// vectors whose norm is below scalable_svd are multiplied by scale_svd for their reflection or rotation
 	scalable_svd = 0x1p-960
 	scale_svd    = 0x1p+120
 )
 
+// rotation returns the norm of (f, g), and the cosine and the sine of the rotation
+// that makes its second coordinate zero. They are computed from multiples of f and g
+// where these are denormal, hence too coarse to be normalized as they are.
+func rotation(f, g float64) (t, cs, sn float64) {
+	t = math.Hypot(f, g)
+	if t == 0 {
+		return 0, 1, 0
+	}
+	if t < scalable_svd {
+		f *= scale_svd
+		g *= scale_svd
+		h := math.Hypot(f, g)
+		return t, f / h, g / h
+	}
+	return t, f / t, g / t
+}
+
 /**
  * Calculates the compact Singular Value Decomposition of a matrix.
  *
@@ -323,9 +340,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 				f := e[p-2]
 				e[p-2] = 0
 				for j := p - 2; j >= k; j-- {
-					t := math.Hypot(ans.singularValues[j], f)
-					cs := ans.singularValues[j] / t
-					sn := f / t
+					t, cs, sn := rotation(ans.singularValues[j], f)
 					ans.singularValues[j] = t
 					if j != k {
 						f = -sn * e[j-1]
@@ -346,9 +361,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 				f := e[k-1]
 				e[k-1] = 0
 				for j := k; j < p; j++ {
-					t := math.Hypot(ans.singularValues[j], f)
-					cs := ans.singularValues[j] / t
-					sn := f / t
+					t, cs, sn := rotation(ans.singularValues[j], f)
 					ans.singularValues[j] = t
 					f = -sn * e[j]
 					e[j] = cs * e[j]
@@ -386,9 +399,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 				g := sk * ek
 				// Chase zeros.
 				for j := k; j < p-1; j++ {
-					t := math.Hypot(f, g)
-					cs := f / t
-					sn := g / t
+					t, cs, sn := rotation(f, g)
 					if j != k {
 						e[j-1] = t
 					}
@@ -402,9 +413,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 						V[i][j+1] = -sn*V[i][j] + cs*V[i][j+1]
 						V[i][j] = t
 					}
-					t = math.Hypot(f, g)
-					cs = f / t
-					sn = g / t
+					t, cs, sn = rotation(f, g)
 					ans.singularValues[j] = t
 					f = cs*e[j] + sn*ans.singularValues[j+1]
 					ans.singularValues[j+1] = -sn*e[j] + cs*ans.singularValues[j+1]
-- 
2.43.0


From 3a4b2644d121fe06f858f86a87173246837da999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:41 +0000
Subject: [PATCH 50/50] fix: SVD of graded matrices with entries near 1e-290
 never ended

---
 singular_value_decomposition.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 82e3647..972891e 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -27,6 +27,9 @@ const (
 	// vectors whose norm is below scalable_svd are multiplied by scale_svd for their reflection or rotation
 	scalable_svd = 0x1p-960
 	scale_svd    = 0x1p+120
+
+	// steps, per singular value left, after which the iteration is given up
+	max_iter_svd = 100
 )
 
 // rotation returns the norm of (f, g), and the cosine and the sine of the rotation
@@ -271,9 +274,9 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 
 	// Main iteration loop for the singular values.
 	pp := p - 1
+	iteration, maxIteration := 0, max_iter_svd*(p+1)
 	for p > 0 {
 		var k, kase int
-		// Here is where a test for too many iterations would go.
 		// This section of the program inspects for
 		// negligible elements in the s and e arrays.  On
 		// completion the variables kase and k are set as follows.
@@ -397,6 +400,14 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 				}
 				f := (sk+sp)*(sk-sp) + shift
 				g := sk * ek
+				iteration++
+				if iteration > maxIteration {
+					return nil, maxIterationErrorf(convergence_failed, maxIteration)
+				}
+				if iteration > 30 && iteration%2 == 1 {
+					// The shift has no effect when what it moves underflows.
+					f, g = ans.singularValues[k], e[k]
+				}
 				// Chase zeros.
 				for j := k; j < p-1; j++ {
 					t, cs, sn := rotation(f, g)
@@ -470,6 +481,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 					k++
 				}
 				p--
+				iteration = 0
 			}
 			break
 		}
-- 
2.43.0

