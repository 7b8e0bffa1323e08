From 0c0a7278d49d86ab02b9588d9602833bfb15bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 01/30] fix: SparseVector looks up indices against the last
 stored index, not the count

---
 sparseVector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparseVector.go b/sparseVector.go
index d7a9bf4..7a25866 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -188,7 +188,7 @@ func (s *SparseVector[T]) remove(pointer int) {
 
 func (s *SparseVector[T]) index(i int) (int, int, error) {
 	length := len(s.indices)
-	if i > length {
+	if length == 0 || i > s.indices[length-1] {
 		return length, length, nil
 	}
 
-- 
2.43.0


From dc369a69e7f2e85c3be2b1b9beaa11b637b906f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 02/30] fix: mapping an element of a sparse format to zero
 keeps the iterator in place

---
 cscMatrix.go    | 2 ++
 csrMatrix.go    | 2 ++
 sparseVector.go | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/cscMatrix.go b/cscMatrix.go
index 587d450..bba5210 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -407,6 +407,8 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.c)
+		s.pointerStart--
+		s.pointerEnd--
 	}
 }
 
diff --git a/csrMatrix.go b/csrMatrix.go
index e6e375e..d359ea6 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -397,6 +397,8 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.r)
+		s.pointerStart--
+		s.pointerEnd--
 	}
 }
 
diff --git a/sparseVector.go b/sparseVector.go
index 7a25866..cca1b6e 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -362,6 +362,8 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.old] = value
 	} else {
 		s.matrix.remove(s.old)
+		s.last--
+		s.size--
 	}
 }
 
-- 
2.43.0


From 9fae4d67180c069d97010b1dbe6eed5535a49f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 03/30] fix: Add keeps the elements only one operand holds,
 also when the output is an operand

---
 operators.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index aa18ffa..03d19dd 100644
--- a/operators.go
+++ b/operators.go
@@ -188,14 +188,23 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// The operands are still read while the matrix is written
+	if s == matrix {
+		s = s.Copy()
+	}
+
+	if m == matrix {
+		m = m.Copy()
+	}
+
 	var iterator Enumerate[T]
-	var source Matrix[T]
+	var source, other Matrix[T]
 	if IsSparseMatrix[T](s) {
 		iterator = s.Enumerate()
-		source = m
+		source, other = m, s
 	} else {
 		iterator = m.Enumerate()
-		source = s
+		source, other = s, m
 	}
 
 	for iterator.HasNext() {
@@ -210,6 +219,19 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 			}
 		}
 	}
+
+	// The elements only the source holds
+	for iterator = source.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, value := iterator.Next()
+			if IsZero(other.At(r, c)) && !mask.Element(r, c) {
+				matrix.Set(r, c, value)
+			}
+		}
+	}
 }
 
 func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-- 
2.43.0


From 0f6db951dec5a3cccf99da0b2c16f161a14b1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 04/30] fix: Subtract subtracts the elements of m and not the
 previous content of the output

---
 operators.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 03d19dd..c641132 100644
--- a/operators.go
+++ b/operators.go
@@ -324,6 +324,15 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// The operands are still read while the matrix is written
+	if s == matrix {
+		s = s.Copy()
+	}
+
+	if m == matrix {
+		m = m.Copy()
+	}
+
 	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
@@ -331,9 +340,20 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Update(r, c, func(v T) T {
-					return value - v
-				})
+				matrix.Set(r, c, value-m.At(r, c))
+			}
+		}
+	}
+
+	// The elements only m holds
+	for iterator := m.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, value := iterator.Next()
+			if IsZero(s.At(r, c)) && !mask.Element(r, c) {
+				matrix.Set(r, c, -value)
 			}
 		}
 	}
-- 
2.43.0


From f73a089f5ece0385bbfa6765bbee24b2f5928899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 05/30] fix: Equal of a sparse and a dense matrix also compares
 the elements only the dense one holds

---
 operators.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/operators.go b/operators.go
index c641132..3145fde 100644
--- a/operators.go
+++ b/operators.go
@@ -587,6 +587,27 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 		}
 	}
 
+	// A dense matrix must not hold any elements the sparse one is missing
+	if isSparseMatrixS != isSparseMatrixM {
+		if isSparseMatrixS {
+			iterator, matrix = m.Enumerate(), s
+		} else {
+			iterator, matrix = s.Enumerate(), m
+		}
+
+		for iterator.HasNext() {
+			select {
+			case <-ctx.Done():
+				return false
+			default:
+				r, c, v := iterator.Next()
+				if v != matrix.At(r, c) {
+					return false
+				}
+			}
+		}
+	}
+
 	return true
 }
 
-- 
2.43.0


From ae5c1f95770d7679bc79efbb8a55649af26083bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 06/30] fix: IsSparseMatrix recognises a sparse format for
 every element type

---
 matrixRegistry.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 7de4bcb..bd03921 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -8,24 +8,39 @@ package graphblas
 import (
 	"log"
 	"reflect"
+	"strings"
 
 	"github.com/rossmerr/graphblas/constraints"
 )
 
 var sparseMatrixRegistry = make(map[string]reflect.Type)
 
+// sparseFormats are the registered storage formats, whatever their element type
+var sparseFormats = make(map[string]struct{})
+
+// typeName is the name of the type qualified by its package
+func typeName(t reflect.Type) string {
+	return t.PkgPath() + "." + t.Name()
+}
+
+// formatName is the name of the type without its type arguments
+func formatName(t reflect.Type) string {
+	name, _, _ := strings.Cut(t.Name(), "[")
+	return t.PkgPath() + "." + name
+}
+
 // RegisterMatrix add's the sparse matrix to the registry
 func RegisterMatrix(matrix reflect.Type) {
-	if _, found := sparseMatrixRegistry[matrix.Name()]; found {
+	if _, found := sparseMatrixRegistry[typeName(matrix)]; found {
 		log.Panicf("Already registered Matrix %q.", matrix.Name())
 	}
-	sparseMatrixRegistry[matrix.Name()] = matrix
-
+	sparseMatrixRegistry[typeName(matrix)] = matrix
+	sparseFormats[formatName(matrix)] = struct{}{}
 }
 
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
 	t := reflect.TypeOf(s).Elem()
-	_, found := sparseMatrixRegistry[t.Name()]
+	_, found := sparseFormats[formatName(t)]
 	return found
 }
-- 
2.43.0


From b8f8d2a358560580e4210dacd81878b58f65dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 07/30] fix: Negative negates the elements of s and not the
 previous content of the output

---
 operators.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/operators.go b/operators.go
index 3145fde..ecc2f27 100644
--- a/operators.go
+++ b/operators.go
@@ -421,18 +421,15 @@ func Negative[T constraints.Number](ctx context.Context, s Matrix[T], mask Mask,
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	for iterator := matrix.Map(); iterator.HasNext(); {
+	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
 			return
 		default:
-			iterator.Map(func(r, c int, value T) T {
-				if !mask.Element(r, c) {
-					return -value
-				}
-
-				return value
-			})
+			r, c, value := iterator.Next()
+			if !mask.Element(r, c) {
+				matrix.Set(r, c, -value)
+			}
 		}
 	}
 }
-- 
2.43.0


From 83e94ca052815102692aa086dd90cadb4cee6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 08/30] fix: Apply in place leaves the masked elements and not
 the others

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index ecc2f27..1b10d15 100644
--- a/operators.go
+++ b/operators.go
@@ -382,7 +382,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 				return
 			default:
 				iterator.Map(func(r, c int, value T) T {
-					if mask.Element(r, c) {
+					if !mask.Element(r, c) {
 						return u.Apply(value)
 					}
 
-- 
2.43.0


From a8689a4fdff73b75378f4b54dbd2298054e0c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 09/30] fix: Apply stores the result at the position of the
 element and not transposed

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 1b10d15..d9a7388 100644
--- a/operators.go
+++ b/operators.go
@@ -401,7 +401,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Set(c, r, u.Apply(value))
+				matrix.Set(r, c, u.Apply(value))
 			}
 		}
 	}
-- 
2.43.0


From e3f01f531e3934c5d20543aba4aaa8654843fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 10/30] fix: Transpose tests the mask at the position of the
 output

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index d9a7388..6c566df 100644
--- a/operators.go
+++ b/operators.go
@@ -457,7 +457,7 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 		default:
 			r, c, value := iterator.Next()
 
-			if !mask.Element(r, c) {
+			if !mask.Element(c, r) {
 				matrix.Set(c, r, value)
 			}
 		}
-- 
2.43.0


From 489a05e5ea03a70e43dbf8b588761036803bbd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 11/30] fix: element-wise multiply in place clears the elements
 a sparse operand is missing

---
 operators.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/operators.go b/operators.go
index 6c566df..0f9d3d5 100644
--- a/operators.go
+++ b/operators.go
@@ -105,27 +105,31 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 		}
 	}
 
-	// when the matrix is the same object of s or m we use the setSource func to self update
-	setSource := func(r, c int, value T) {
-		if !mask.Element(r, c) {
-			source.Update(r, c, func(v T) T {
-				if value != v {
-					return Default[T]()
-				}
-				return v
-			})
+	// when the matrix is the same object of s or m its elements are updated in place
+	if m == matrix || s == matrix {
+		source = s
+		if m != matrix {
+			source = m
+		}
+
+		for iterator := matrix.Map(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				iterator.Map(func(r, c int, v T) T {
+					if !mask.Element(r, c) && source.At(r, c) != v {
+						return Default[T]()
+					}
+					return v
+				})
+			}
 		}
+
+		return
 	}
 
-	if m == matrix {
-		target = setSource
-		iterator = s.Enumerate()
-		source = m
-	} else if s == matrix {
-		target = setSource
-		iterator = m.Enumerate()
-		source = s
-	} else if IsSparseMatrix[T](s) {
+	if IsSparseMatrix[T](s) {
 		iterator = s.Enumerate()
 		source = m
 	} else {
-- 
2.43.0


From fde17da37f16efe9e8ef1f3829c7c9c150dfaad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 12/30] fix: element-wise matrix operations require operands of
 equal shape

---
 operators.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/operators.go b/operators.go
index 0f9d3d5..e49a1cd 100644
--- a/operators.go
+++ b/operators.go
@@ -152,8 +152,12 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 //
 // eWiseMult
 func ElementWiseMatrixMultiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length miss match %+v, %+v", m.Rows(), s.Columns())
+	if s.Columns() != m.Columns() {
+		log.Panicf("Column mismatch %+v, %+v", s.Columns(), m.Columns())
+	}
+
+	if s.Rows() != m.Rows() {
+		log.Panicf("Row mismatch %+v, %+v", s.Rows(), m.Rows())
 	}
 
 	elementWiseMultiply(ctx, s, m, mask, matrix)
@@ -288,8 +292,12 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 //
 // eWiseMult
 func ElementWiseMatrixAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length mismatch %+v, %+v", m.Rows(), s.Columns())
+	if s.Columns() != m.Columns() {
+		log.Panicf("Column mismatch %+v, %+v", s.Columns(), m.Columns())
+	}
+
+	if s.Rows() != m.Rows() {
+		log.Panicf("Row mismatch %+v, %+v", s.Rows(), m.Rows())
 	}
 
 	elementWiseAdd(ctx, s, m, mask, matrix)
-- 
2.43.0


From 47e703e77fb611c2bd9e68eaa7df34abf80a3e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 13/30] fix: Multiply of a vector returns a matrix of the shape
 of the product

---
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index d68a835..00162cf 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -223,7 +223,7 @@ func (s *DenseVectorNumber[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *DenseVectorNumber[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
diff --git a/sparseVector.go b/sparseVector.go
index cca1b6e..ae4c2df 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -236,7 +236,7 @@ func (s *SparseVector[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *SparseVector[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
-- 
2.43.0


From 5d023fc05bbeef53665f3a455bcdd3adc36eae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 14/30] fix: reading a vector at an invalid column is rejected

---
 denseVector.go  | 10 +++++++++-
 sparseVector.go |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 00162cf..879b9a5 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -130,6 +130,14 @@ func (s *DenseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *DenseVector[T]) At(r, c int) (value T) {
+	if r < 0 || r >= s.Rows() {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r)
 }
 
@@ -351,5 +359,5 @@ func (s *denseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *DenseVectorNumber[T]) Element(r, c int) bool {
-	return s.AtVec(r) > Default[T]()
+	return s.At(r, c) > Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index ae4c2df..748fd5a 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -369,5 +369,5 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *SparseVector[T]) Element(r, c int) bool {
-	return s.AtVec(r) > Default[T]()
+	return s.At(r, c) > Default[T]()
 }
-- 
2.43.0


From 34c8a685dfa3791e4bbced8540ac985b380a52a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 15/30] fix: ReSize to a smaller size keeps that many elements

---
 denseVector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 879b9a5..b919705 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -91,8 +91,7 @@ func (s *DenseVector[T]) ReSize(size int) int {
 		arr := make([]T, length)
 		s.values = append(s.values, arr...)
 	} else if size < s.l {
-		length := s.l - size
-		s.values = append([]T(nil), s.values[:length]...)
+		s.values = append([]T(nil), s.values[:size]...)
 	}
 
 	s.l = len(s.values)
-- 
2.43.0


From 0f5072069bf3629902dda807024e6008c15cf7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 16/30] fix: a mask element is true for every non-zero value,
 also negative ones

---
 cscMatrix.go    | 2 +-
 csrMatrix.go    | 2 +-
 denseMatrix.go  | 2 +-
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index bba5210..236c8c5 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -415,7 +415,7 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
 	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
+		b = v != Default[T]()
 		return v
 	})
 
diff --git a/csrMatrix.go b/csrMatrix.go
index d359ea6..39332fa 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -405,7 +405,7 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
 	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
+		b = v != Default[T]()
 		return v
 	})
 
diff --git a/denseMatrix.go b/denseMatrix.go
index 220637f..46f8847 100644
--- a/denseMatrix.go
+++ b/denseMatrix.go
@@ -362,5 +362,5 @@ func (s *DenseMatrixNumber[T]) Element(r, c int) bool {
 }
 
 func (s *DenseMatrixNumber[T]) element(r, c int) bool {
-	return s.At(r, c) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
diff --git a/denseVector.go b/denseVector.go
index b919705..8c3660d 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -358,5 +358,5 @@ func (s *denseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *DenseVectorNumber[T]) Element(r, c int) bool {
-	return s.At(r, c) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index 748fd5a..3e0cd39 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -369,5 +369,5 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *SparseVector[T]) Element(r, c int) bool {
-	return s.At(r, c) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
-- 
2.43.0


From b482b26423e30339eaa2ebb6813da78f4d733bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 17/30] fix: Scalar returns when its context is cancelled

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index e49a1cd..d37d4ff 100644
--- a/operators.go
+++ b/operators.go
@@ -631,7 +631,7 @@ func Scalar[T constraints.Number](ctx context.Context, s Matrix[T], alpha T) Mat
 	for iterator := matrix.Map(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-			break
+			return matrix
 		default:
 			iterator.Map(func(r, c int, v T) T {
 				return alpha * v
-- 
2.43.0


From c115a20bef7f435010eea090743f5b9ff85a147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 18/30] fix: a reduction ends when its context is cancelled and
 starts no goroutine for a mismatched mask

---
 operators.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/operators.go b/operators.go
index d37d4ff..754bda1 100644
--- a/operators.go
+++ b/operators.go
@@ -679,13 +679,6 @@ func ReduceMatrixToScalar[T constraints.Number](ctx context.Context, s MatrixLog
 // ReduceMatrixToScalarWithMonoID perform's a reduction on the Matrix
 // monoid used in the element-wise reduction operation
 func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s MatrixLogical[T], monoID binaryop.MonoID[T], mask Mask) T {
-	done := make(chan struct{})
-	slice := make(chan T)
-	defer close(slice)
-	defer close(done)
-
-	out := monoID.Reduce(done, slice)
-
 	if mask == nil {
 		mask = NewEmptyMask(s.Rows(), s.Columns())
 	}
@@ -698,7 +691,15 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), s.Columns())
 	}
 
+	done := make(chan struct{})
+	slice := make(chan T)
+	defer close(slice)
+	defer close(done)
+
+	out := monoID.Reduce(done, slice)
+
 	go func() {
+		defer func() { done <- struct{}{} }()
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
@@ -710,7 +711,6 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 				}
 			}
 		}
-		done <- struct{}{}
 	}()
 
 	return <-out
-- 
2.43.0


From ea5a5dc80213d3841f496f8547ac9906ad091741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 19/30] fix: reading an element of a sparse format does not
 write to it

---
 cscMatrix.go    | 23 +++++++++++++----------
 csrMatrix.go    | 23 +++++++++++++----------
 sparseVector.go | 13 ++++++++-----
 3 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index 236c8c5..c7bf751 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -105,10 +105,18 @@ func (s *CSCMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSCMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.rowIndex(r, c)
+	if pointerStart < pointerEnd && s.rows[pointerStart] == r {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -414,10 +422,5 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v != Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) != Default[T]()
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index 39332fa..1c11528 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -97,10 +97,18 @@ func (s *CSRMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSRMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.columnIndex(r, c)
+	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -404,10 +412,5 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v != Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) != Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index 3e0cd39..9a5e2ab 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -114,12 +114,15 @@ func (s *SparseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *SparseVector[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.Rows() {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
 
-	return
+	return s.AtVec(r)
 }
 
 // Set sets the value at r-th, c-th of the vector
-- 
2.43.0


From 3c2aeadbdc950ca73537b9cd2bf8acd999039a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 20/30] fix: MutexMatrix clears under the write lock and reads
 shape and count under the read lock

---
 mutexMatrix.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index 5c01fd8..1e32a53 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -26,11 +26,17 @@ func NewMutexMatrix[T constraints.Number](matrix Matrix[T]) *MutexMatrix[T] {
 
 // Columns the number of columns of the matrix
 func (s *MutexMatrix[T]) Columns() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Columns()
 }
 
 // Rows the number of rows of the matrix
 func (s *MutexMatrix[T]) Rows() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Rows()
 }
 
@@ -156,18 +162,24 @@ func (s *MutexMatrix[T]) NotEqual(m MatrixLogical[T]) bool {
 
 // Size of the matrix
 func (s *MutexMatrix[T]) Size() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Size()
 }
 
 // Values the number of elements in the matrix
 func (s *MutexMatrix[T]) Values() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Values()
 }
 
 // Clear removes all elements from a matrix
 func (s *MutexMatrix[T]) Clear() {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	s.matrix.Clear()
 }
-- 
2.43.0


From a83ae4581ca4bcb970931d8109e2d25a3ac01b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 21/30] fix: Strassen falls back to the ordinary product where
 the matrices do not divide into quarters

---
 math/strassen/strassen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/strassen/strassen.go b/math/strassen/strassen.go
index a64a8c7..09664e8 100644
--- a/math/strassen/strassen.go
+++ b/math/strassen/strassen.go
@@ -26,7 +26,7 @@ func MultiplyCrossoverPoint[T constraints.Number](ctx context.Context, a, b grap
 	}
 
 	n := b.Rows()
-	if n <= crossover {
+	if n <= crossover || n%2 != 0 || a.Rows() != n || b.Columns() != n {
 		matrix := graphblas.NewDenseMatrixN[T](a.Rows(), b.Columns())
 		graphblas.MatrixMatrixMultiply[T](ctx, a, b, nil, matrix)
 		return matrix
-- 
2.43.0


From af49c0191d255fe7006d701ad3c6c04f65d0374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 22/30] fix: String reads all elements row by row, also of
 sparse formats

---
 operators.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/operators.go b/operators.go
index 754bda1..134f591 100644
--- a/operators.go
+++ b/operators.go
@@ -524,15 +524,15 @@ func Greater(ctx context.Context, s, m MatrixLogical[rune]) bool {
 func String(ctx context.Context, s MatrixLogical[rune]) string {
 	var b strings.Builder
 	b.Grow(s.Size())
-	enumator := s.Enumerate()
 
-	for enumator.HasNext() {
-		select {
-		case <-ctx.Done():
-			return b.String()
-		default:
-			_, _, r := enumator.Next()
-			b.WriteRune(r)
+	for r := 0; r < s.Rows(); r++ {
+		for c := 0; c < s.Columns(); c++ {
+			select {
+			case <-ctx.Done():
+				return b.String()
+			default:
+				b.WriteRune(s.At(r, c))
+			}
 		}
 	}
 
-- 
2.43.0


From df6889f12c7a450ae269d14720b254a9e107a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 23/30] fix: bubble sorts also move the zeros of sparse formats

---
 sort/bubble.go | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/sort/bubble.go b/sort/bubble.go
index 845e9c8..25d9212 100644
--- a/sort/bubble.go
+++ b/sort/bubble.go
@@ -14,16 +14,9 @@ func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune
 			vj := result.RowsAt(j)
 			vi := result.RowsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(j, c, v)
-				}
-
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(i, c, v)
+				for c := 0; c < vi.Length(); c++ {
+					result.Set(j, c, vi.AtVec(c))
+					result.Set(i, c, vj.AtVec(c))
 				}
 			}
 		}
@@ -40,16 +33,9 @@ func BubbleColumns(ctx context.Context, a graphblas.MatrixRune) graphblas.Matrix
 			vj := result.ColumnsAt(j)
 			vi := result.ColumnsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, j, v)
-				}
-
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, i, v)
+				for r := 0; r < vi.Length(); r++ {
+					result.Set(r, j, vi.AtVec(r))
+					result.Set(r, i, vj.AtVec(r))
 				}
 			}
 		}
-- 
2.43.0


From 42a4f6bb96ec92d95b7e5572b9089043619fa1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 24/30] fix: enumerating CSR and CSC matrices stepped through
 every index between two elements

---
 cscMatrix.go | 17 ++++-------------
 csrMatrix.go | 17 ++++-------------
 2 files changed, 8 insertions(+), 26 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index c7bf751..77df841 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -349,7 +349,6 @@ type cSCMatrixIterator[T constraints.Number] struct {
 	last         int
 	c            int
 	r            int
-	rIndex       int
 	index        int
 	pointerStart int
 	pointerEnd   int
@@ -369,20 +368,12 @@ func (s *cSCMatrixIterator[T]) next() {
 		s.c++
 		s.pointerStart = s.matrix.colStart[s.c]
 		s.pointerEnd = s.matrix.colStart[s.c+1]
-		s.rIndex = s.matrix.rows[s.pointerStart]
 	}
 
-	for s.pointerStart < s.pointerEnd {
-		if s.matrix.rows[s.pointerStart] == s.rIndex {
-			s.index = s.pointerStart
-			s.pointerStart++
-			s.r = s.rIndex
-			s.rIndex++
-			s.last++
-			return
-		}
-		s.rIndex++
-	}
+	s.index = s.pointerStart
+	s.r = s.matrix.rows[s.pointerStart]
+	s.pointerStart++
+	s.last++
 }
 
 // Next moves the iterator and returns the row, column and value
diff --git a/csrMatrix.go b/csrMatrix.go
index 1c11528..057f94e 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -330,7 +330,6 @@ type cSRMatrixIterator[T constraints.Number] struct {
 	last         int
 	c            int
 	r            int
-	cIndex       int
 	index        int
 	pointerStart int
 	pointerEnd   int
@@ -351,20 +350,12 @@ func (s *cSRMatrixIterator[T]) next() {
 		s.r++
 		s.pointerStart = s.matrix.rowStart[s.r]
 		s.pointerEnd = s.matrix.rowStart[s.r+1]
-		s.cIndex = s.matrix.cols[s.pointerStart]
 	}
 
-	for s.pointerStart < s.pointerEnd {
-		if s.matrix.cols[s.pointerStart] == s.cIndex {
-			s.index = s.pointerStart
-			s.pointerStart++
-			s.c = s.cIndex
-			s.cIndex++
-			s.last++
-			return
-		}
-		s.cIndex++
-	}
+	s.index = s.pointerStart
+	s.c = s.matrix.cols[s.pointerStart]
+	s.pointerStart++
+	s.last++
 }
 
 // HasNext checks the iterator has any more values
-- 
2.43.0


From aba22b786bc160d5e829d1e079171b4a8519e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 25/30] fix: classifying a matrix whose format is not a pointer
 panicked

---
 matrixRegistry.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index bd03921..823b08d 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -40,7 +40,10 @@ func RegisterMatrix(matrix reflect.Type) {
 
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
-	t := reflect.TypeOf(s).Elem()
+	t := reflect.TypeOf(s)
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
 	_, found := sparseFormats[formatName(t)]
 	return found
 }
-- 
2.43.0


From 8311856841305f6162e6d42291fc35de55e9533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 26/30] fix: an update whose function changes the matrix stored
 its result at a stale place

---
 cscMatrix.go   | 7 ++++---
 csrMatrix.go   | 6 ++++--
 denseMatrix.go | 3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index 77df841..bd25983 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -85,10 +85,12 @@ func (s *CSCMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 		log.Panicf("Column '%+v' is invalid", c)
 	}
 
+	value := f(s.At(r, c))
+
+	// f may have changed other elements, so only now look up the place
 	pointerStart, pointerEnd := s.rowIndex(r, c)
 
 	if pointerStart < pointerEnd && s.rows[pointerStart] == r {
-		value := f(s.values[pointerStart])
 		if IsZero(value) {
 			s.remove(pointerStart, c)
 		} else {
@@ -97,8 +99,7 @@ func (s *CSCMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 		return pointerStart, 0
 	} else {
-		zero := Zero[T]()
-		col := s.insert(pointerStart, r, c, f(zero))
+		col := s.insert(pointerStart, r, c, value)
 		return pointerStart, col
 	}
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index 057f94e..c275102 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -79,10 +79,12 @@ func (s *CSRMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 		log.Panicf("Column '%+v' is invalid", c)
 	}
 
+	value := f(s.At(r, c))
+
+	// f may have changed other elements, so only now look up the place
 	pointerStart, pointerEnd := s.columnIndex(r, c)
 
 	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
-		value := f(s.values[pointerStart])
 		if value == Default[T]() {
 			s.remove(pointerStart, r)
 		} else {
@@ -90,7 +92,7 @@ func (s *CSRMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 		}
 		return pointerStart, 0
 	} else {
-		row := s.insert(pointerStart, r, c, f(Default[T]()))
+		row := s.insert(pointerStart, r, c, value)
 		return pointerStart, row
 	}
 }
diff --git a/denseMatrix.go b/denseMatrix.go
index 46f8847..b37e763 100644
--- a/denseMatrix.go
+++ b/denseMatrix.go
@@ -96,7 +96,8 @@ func (s *DenseMatrix[T]) Update(r, c int, f func(T) T) {
 		log.Panicf("Column '%+v' is invalid", c)
 	}
 
-	s.data[r][c] = f(s.data[r][c])
+	value := f(s.data[r][c])
+	s.data[r][c] = value
 
 	return
 }
-- 
2.43.0


From 825165de6895c1ab31d13ff35087b95a634bd323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:59 +0000
Subject: [PATCH 27/30] fix: operations on formats which can not be compared
 panicked

A storage format that is not a pointer may hold slices, maps or functions.
Asking whether an operand and the output are the same matrix panicked with
'comparing uncomparable type'.
---
 matrixRegistry.go | 24 ++++++++++++++++++++++++
 operators.go      | 18 +++++++++---------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 823b08d..fd64ed3 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -6,9 +6,11 @@
 package graphblas
 
 import (
+	"bytes"
 	"log"
 	"reflect"
 	"strings"
+	"unsafe"
 
 	"github.com/rossmerr/graphblas/constraints"
 )
@@ -47,3 +49,25 @@ func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
 	_, found := sparseFormats[formatName(t)]
 	return found
 }
+
+// isSame is 's' the same object as 'm'
+func isSame[T constraints.Number](s, m Matrix[T]) bool {
+	t := reflect.TypeOf(s)
+	if t != reflect.TypeOf(m) {
+		return false
+	}
+	if t == nil || t.Comparable() {
+		return s == m
+	}
+
+	// A format holding slices, maps or functions by value can not be compared,
+	// it is the same when it refers to the same
+	return bytes.Equal(valueBytes(s, t), valueBytes(m, t))
+}
+
+// valueBytes is the memory of a value, not of what it refers to
+func valueBytes(s any, t reflect.Type) []byte {
+	value := reflect.New(t)
+	value.Elem().Set(reflect.ValueOf(s))
+	return unsafe.Slice((*byte)(value.UnsafePointer()), int(t.Size()))
+}
diff --git a/operators.go b/operators.go
index 134f591..655db66 100644
--- a/operators.go
+++ b/operators.go
@@ -106,9 +106,9 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 	}
 
 	// when the matrix is the same object of s or m its elements are updated in place
-	if m == matrix || s == matrix {
+	if isSame(m, matrix) || isSame(s, matrix) {
 		source = s
-		if m != matrix {
+		if !isSame(m, matrix) {
 			source = m
 		}
 
@@ -197,11 +197,11 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 	}
 
 	// The operands are still read while the matrix is written
-	if s == matrix {
+	if isSame(s, matrix) {
 		s = s.Copy()
 	}
 
-	if m == matrix {
+	if isSame(m, matrix) {
 		m = m.Copy()
 	}
 
@@ -255,7 +255,7 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	if s != matrix {
+	if !isSame(s, matrix) {
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
@@ -271,7 +271,7 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 		}
 	}
 
-	if m != matrix {
+	if !isSame(m, matrix) {
 		for iterator := m.Enumerate(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
@@ -337,11 +337,11 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 	}
 
 	// The operands are still read while the matrix is written
-	if s == matrix {
+	if isSame(s, matrix) {
 		s = s.Copy()
 	}
 
-	if m == matrix {
+	if isSame(m, matrix) {
 		m = m.Copy()
 	}
 
@@ -387,7 +387,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	if in == matrix {
+	if isSame(in, matrix) {
 		for iterator := in.Map(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
-- 
2.43.0


From 46171be8b15203fe71a1061d8a10c5b4e02c8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:53 +0000
Subject: [PATCH 28/30] fix: a reduction folded zeros from a closed input

Between closing the input and signalling done the monoid received and folded
any number of zero values.
---
 binaryop/monoID.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binaryop/monoID.go b/binaryop/monoID.go
index 1eb1103..bf71c04 100644
--- a/binaryop/monoID.go
+++ b/binaryop/monoID.go
@@ -37,7 +37,12 @@ func (s *monoID[T]) Reduce(done <-chan struct{}, slice <-chan T) <-chan T {
 		result := s.unit
 		for {
 			select {
-			case value := <-slice:
+			case value, ok := <-slice:
+				if !ok {
+					// no more values, a closed channel would yield zeros
+					slice = nil
+					continue
+				}
 				result = s.BinaryOp.Apply(result, value)
 			case <-done:
 				out <- result
-- 
2.43.0


From 3213c622ae87a88bc4e7d5e1a60adb4f3596dbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:42 +0000
Subject: [PATCH 29/30] fix: formats that leave zeros out without being
 registered were unequal to dense ones

Enumerate is specified to iterate the non-zero elements. Equal compared the
numbers of values of two formats that are not registered as sparse, and then
looked only at the elements one of them enumerates.
---
 operators.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/operators.go b/operators.go
index 655db66..9c2c731 100644
--- a/operators.go
+++ b/operators.go
@@ -564,7 +564,7 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 	isSparseMatrixS := IsSparseMatrix(s)
 	isSparseMatrixM := IsSparseMatrix(m)
 
-	if (isSparseMatrixS && isSparseMatrixM) || (!isSparseMatrixS && !isSparseMatrixM) {
+	if isSparseMatrixS && isSparseMatrixM {
 		if s.Values() != m.Values() {
 			return false
 		}
@@ -583,7 +583,8 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 		matrix = s
 	}
 
-	for iterator.HasNext() {
+	elements := 0
+	for ; iterator.HasNext(); elements++ {
 		select {
 		case <-ctx.Done():
 			return false
@@ -596,8 +597,8 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 		}
 	}
 
-	// A dense matrix must not hold any elements the sparse one is missing
-	if isSparseMatrixS != isSparseMatrixM {
+	// The other matrix must not hold any elements that were not enumerated
+	if !(isSparseMatrixS && isSparseMatrixM) && elements != s.Size() {
 		if isSparseMatrixS {
 			iterator, matrix = m.Enumerate(), s
 		} else {
-- 
2.43.0


From cfee0a518b02e92b54c3f7a58dd2bd4823b14fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:32 +0000
Subject: [PATCH 30/30] fix: sorting lost rows of formats whose rows are not
 copies

A row or column that shows the matrix itself changes while it is exchanged
with another one, so both values are read before either is written.
---
 sort/bubble.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sort/bubble.go b/sort/bubble.go
index 25d9212..9853705 100644
--- a/sort/bubble.go
+++ b/sort/bubble.go
@@ -15,8 +15,9 @@ func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune
 			vi := result.RowsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
 				for c := 0; c < vi.Length(); c++ {
-					result.Set(j, c, vi.AtVec(c))
-					result.Set(i, c, vj.AtVec(c))
+					vic, vjc := vi.AtVec(c), vj.AtVec(c)
+					result.Set(j, c, vic)
+					result.Set(i, c, vjc)
 				}
 			}
 		}
@@ -34,8 +35,9 @@ func BubbleColumns(ctx context.Context, a graphblas.MatrixRune) graphblas.Matrix
 			vi := result.ColumnsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
 				for r := 0; r < vi.Length(); r++ {
-					result.Set(r, j, vi.AtVec(r))
-					result.Set(r, i, vj.AtVec(r))
+					vir, vjr := vi.AtVec(r), vj.AtVec(r)
+					result.Set(r, j, vir)
+					result.Set(r, i, vjr)
 				}
 			}
 		}
-- 
2.43.0

