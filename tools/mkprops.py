import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs or [],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
STORE=["csrMatrix.go","cscMatrix.go","denseMatrix.go","denseVector.go","sparseVector.go"]
p("C01","Every storage format behaves as a faithful map from position to value",
 "A matrix or vector of any storage format (dense, CSR, CSC, dense vector, sparse vector) and any supported element type behaves as a total map from its in-range positions to values: after any history of sets, updates, clears and reads, reading a position returns the value last stored there, or zero if nothing was stored since creation or the last clear. An update calls its function exactly once with the current value and stores what it returns. No operation on one position changes another position, and rows, columns, length and size never change.",
 ["histories","inputs"],"every sequence of set/update/clear/read calls, every shape, every element type, every storage format and way of construction",
 "Tests set 2x2 or 2x3 cells in row-major order on float64 only and compare once; insertion order, overwrites, removals by writing zero, other types and longer histories are never reached.",
 STORE,[("binary search of a compressed row/column, insert and remove shifting start offsets","csrMatrix.go UpdateReturnPointer/insert/remove/columnIndex; cscMatrix.go"),("binary search over sparse vector indices","sparseVector.go index/insert/remove")],
 [("values/cols/rowStart","compressed rows sorted by column, offsets monotone","csrMatrix.go"),("values/rows/colStart","compressed columns sorted by row","cscMatrix.go"),("values/indices","sorted indices of the stored elements","sparseVector.go")],["At, AtVec, Rows, Columns, Size, Length"])
p("C02","Enumeration and in-place mapping visit every stored element exactly once",
 "Enumerating a matrix or vector yields every non-zero element exactly once with its own position and value and never yields a position twice; sparse formats yield nothing else, and the reported number of values is the number of non-zeros for sparse formats and rows times columns for dense ones. Mapping in place hands each of those elements to the function exactly once and replaces it by the result, also when the result is zero, after which the structure stays fully usable.",
 ["histories","inputs"],"every content and sparsity pattern, every storage format and type, every replacement function (constant, zeroing, selective zeroing), after any prior history",
 "Tests enumerate one 3x3 matrix and map with the identity only, so no map ever removes an element while iterating.",
 STORE+["enumerate.go","map.go"],[("iterators over compressed storage","csrMatrix.go cSRMatrixIterator; cscMatrix.go cSCMatrixIterator; sparseVector.go sparseVectorIterator"),("map removing zeroed entries while iterating","csrMatrix.go/cscMatrix.go/sparseVector.go Map")],None,["Enumerate, Map, Values"])
p("C03","Rows, columns and array conversions carry exactly the elements of the matrix",
 "Extracting any row or column, as a vector or (for rows) as an array, yields a vector of the matching length whose every element equals the element of the matrix at that position, for every storage format and for vectors seen as one-column matrices. A matrix or vector built from an array holds exactly the elements of that array.",
 ["inputs","histories"],"every shape, content, sparsity pattern, element type, storage format, row and column index",
 "Tests extract one row and one column of one 2x2 matrix and compare with an equality that skips positions.",
 STORE,[("ColumnsAt/RowsAt/RowsAtToArray","csrMatrix.go, cscMatrix.go, denseMatrix.go, denseVector.go, sparseVector.go"),("From-array constructors","New*FromArray")],None,["AtVec, Length of the extracted vector"])
p("C04","Copies and results are independent of their sources; operands are not modified",
 "A copy, an extracted row or column, and the result of every operation that returns a new matrix or vector share no state with what they were computed from: later writes to either side are never visible on the other. Operations that return a new result or write to a separate output leave their operands and mask observably unchanged.",
 ["histories","inputs"],"every operation, every storage format and type, every sequence of writes made afterwards to source or result",
 "Tests compare a copy once and never write to either side afterwards, nor look at operands after an operation.",
 STORE+["operators.go"],[("Copy/CopyLogical","all storage files"),("method operators that start from a copy","Add/Subtract/Negative/Scalar in all storage files")],None,["At on source and result after writes"])
p("C05","Equality means same shape and same values, whatever the storage format",
 "Two matrices or vectors compare equal exactly when they have the same number of rows and columns and equal values at every position, regardless of storage format, element type or which of the two is the receiver. Not-equal is always the negation, and a copy always equals its original (NaN, which differs from itself, excepted). No matrix at all (nil) equals only itself.",
 ["inputs","configurations"],"every pair of storage formats, element types, shapes and contents, including pairs differing in a single element and pairs where one side is zero",
 "Tests compare identical and fully different float64 matrices; pairs differing only where the sparse side has no entry, and non-float64 types, are never compared.",
 ["operators.go","matrixRegistry.go"]+STORE,[("choice of which side to enumerate","operators.go Equal"),("classification of sparse formats by type","matrixRegistry.go IsSparseMatrix")],None,["Equal, NotEqual (method and function)"])
p("C06","Add, subtract, negate and scale are entrywise in every storage format",
 "Adding, subtracting, negating and scaling (by a finite factor) matrices or vectors produces at every position the sum, difference, negation or multiple of the operands' values at that position, in the arithmetic of the element type, for every combination of storage formats. The method forms and the free functions writing to a separate output agree with this; only positions at which no operand stores an element may keep what that output held before.",
 ["inputs","configurations"],"every pair of storage formats, element types (with wrap-around), shapes and sparsity patterns, in particular positions held by only one operand and results that are zero",
 "Tests add and subtract one 2x2 pair in which the sparse operand has an entry everywhere, and compare with an equality that ignores entries missing on the sparse side.",
 ["operators.go"]+STORE,[("choice of enumerated operand","operators.go Add, Subtract"),("Negative, Scalar via in-place map","operators.go Negative, Scalar")],None,["At on every position of the result"])
p("C07","Matrix products are correct for all formats, shapes and sparsity patterns",
 "The product of two conformable matrices or vectors, by method or by the matrix-matrix, matrix-vector and vector-matrix functions, has the rows of the left and the columns of the right operand and holds at every position the sum of products of the left row and right column, in the arithmetic of the element type and for every combination of storage formats. The vector-matrix form computes the same as the matrix-vector form: entry i is the sum over j of matrix[i][j] times vector[j]. Products respect identity, transposition and distributivity over addition.",
 ["inputs","configurations"],"every pair of storage formats, every conformable shape, content and element type",
 "Tests multiply one fully dense 2x3 by 3x2 pair; sparse rows and columns with gaps and vector products are not reached.",
 ["operators.go"]+STORE,[("row by column inner product over extracted vectors","operators.go multiply"),("result allocation of Multiply methods","storage files Multiply")],None,["At on every position of the result"])
p("C08","Transpose mirrors every element and is an involution",
 "Transposing any matrix or vector, by method, by the free function into an empty output of any format, or into CSR or CSC form, yields the matrix with rows and columns swapped that holds at (c, r) exactly the value the source holds at (r, c), including all zeros. Transposing twice gives back the original.",
 ["inputs","configurations"],"every shape, content, sparsity pattern, type, and pair of source and target format",
 "One full 2x3 matrix is transposed in the tests; sparse, square, single-row and empty patterns are not.",
 ["operators.go"]+STORE,[("Transpose/TransposeToCSR/TransposeToCSC","operators.go")],None,["At on every position"])
p("C09","Masks protect exactly the positions they mark",
 "For every operation that takes a mask (multiply, add, subtract, negate, element-wise add and multiply, apply, transpose) each output position whose mask element is true keeps its previous value and each other position receives what the unmasked operation gives; no mask, or the empty mask, protects nothing. A mask element is true exactly when the value at that output position is non-zero, in every storage format and type. In reductions masked positions are left out. A mask that is itself an operand or (element-wise addition excepted) the output marks what it held when the call was made.",
 ["inputs","configurations"],"every operation, operand, mask content (positive, negative, zero), mask storage format, output format, prior output content and shape (including non-square)",
 "No test passes a mask to anything except one breadth-first search on one graph.",
 ["operators.go","mask.go"]+STORE,[("mask.Element guards before each write","operators.go"),("Element","csrMatrix.go, cscMatrix.go, denseMatrix.go, denseVector.go, sparseVector.go"),("EmptyMask","mask.go")],None,["At on every output position before and after"])
p("C10","Apply maps the operator over every stored element at its own position",
 "Applying a unary operator to a matrix or vector stores, at each position for which the input holds a stored element (any position of a dense input, the non-zeros of a sparse one), the operator's result on that element at that same position of the output. The operator is called exactly once per unprotected stored element. Positions of the output without a stored input element keep their value.",
 ["inputs","configurations"],"every unary operator (including ones returning zero and mapping zero to non-zero), content, shape including non-square, format pair and type",
 "The existing tests never call it.",
 ["operators.go","unaryop/unaryOp.go"],[("Apply","operators.go Apply"),("unary operator","unaryop/unaryOp.go")],None,["At on every output position, calls of the operator"])
p("C11","Element-wise add is pattern union and element-wise multiply pattern intersection",
 "For operands of equal shape holding zeros and ones, element-wise addition into an empty output yields one exactly where at least one operand is one, and element-wise multiplication yields one exactly where both are, for every combination of storage formats of matrices and vectors. For operands with other values the result of element-wise addition is non-zero exactly where at least one operand is and is there the second operand's value if that is non-zero and the first's otherwise; element-wise multiplication is never non-zero outside the intersection of the patterns.",
 ["inputs","configurations"],"every pair of operands of equal shape, including non-square, every format combination and type",
 "Tests use one 7x7 pattern with a dense second operand, square only.",
 ["operators.go"],[("elementWiseMultiply, elementWiseAdd","operators.go")],None,["At on every output position"])
p("C12","Reductions fold exactly the matrix's elements",
 "Reducing a matrix or vector to a scalar returns the fold of its elements with the given associative and commutative monoid starting from the monoid's identity, whatever the goroutine schedule: all elements of a dense format, the non-zero ones of a sparse format, leaving out masked positions. The default scalar reduction is the sum of all elements, and the default reduction to a vector yields for each column the largest of zero and the column's elements.",
 ["inputs","schedules","configurations"],"every content, format, type, monoid, mask and goroutine interleaving of producer and fold",
 "Tests reduce one 7x7 0/1 matrix by sum and maximum.",
 ["operators.go","binaryop/monoID.go","default.go"],[("channel-fed fold","binaryop/monoID.go Reduce"),("producer goroutine","operators.go ReduceMatrixToScalarWithMonoID"),("per-column reduction","operators.go ReduceMatrixToVectorWithMonoID")],None,["returned scalar / vector"])
p("C13","Operators compute their documented function and a monoid left-folds its input",
 "Every arithmetic, selection, comparison and boolean operator, in both operator packages, computes its documented function on all arguments of every supported type. A monoid reports the identity it was created with and reduces any sequence of values received before completion is signalled to the left fold of its operator over that sequence from the identity, delivering exactly one result and then closing. Closing the input before completion is signalled adds nothing to the fold.",
 ["inputs","schedules"],"all argument pairs (exhaustively for 8-bit types and booleans), every sequence, non-commutative operators included, every interleaving of the sender and the fold",
 "Tests apply each operator to three pairs of float32 and fold a single value.",
 ["binaryop/operators.go","binaryop/monoID.go","binaryop/binaryOp.go","binaryop/binaryOpToBool.go","operators/arithmetic.go","operators/boolean.go","operators/comparison.go","operators/other.go","unaryop/unaryOp.go","default.go"],[("operator closures","binaryop/operators.go, operators/*.go"),("Reduce","binaryop/monoID.go")],None,["Apply, Zero, Reduce"])
p("C14","Out-of-range access and mismatched shapes are rejected, changing nothing",
 "Reading, writing, updating or extracting at a row, column or index outside the declared shape, negative ones included, panics for every storage format. Operations on operands with incompatible shapes, or with a mask of another shape than the output, panic. In all these cases no operand, mask or output is changed.",
 ["inputs","configurations"],"every index outside the shape, every incompatible pair of shapes, every format and every operation, while every compatible combination (non-square included) is accepted",
 "No test exercises a rejected call.",
 ["operators.go","math/strassen/strassen.go"]+STORE,[("range checks","At/Set/Update/ColumnsAt/RowsAt/RowsAtToArray/AtVec/SetVec"),("shape checks","operators.go")],None,["panic raised; contents before and after"])
p("C15","Strassen multiplication equals the ordinary product for all shapes",
 "Strassen multiplication of any conformable operands, with the default or any positive crossover point, has the shape of the ordinary product and equals it at every position (wherever the element type's arithmetic on the values is exact), for even, odd, square and rectangular sizes, every storage format and every goroutine schedule.",
 ["inputs","schedules","configurations"],"every conformable shape and content, every crossover point >= 1, storage format and exact element type",
 "One 4x4 product with crossover 2 is tested; benchmarks use 100x100 without checking results.",
 ["math/strassen/strassen.go"],[("quartering, seven concurrent sub-products, recombination","math/strassen/strassen.go MultiplyCrossoverPoint")],None,["returned matrix"])
p("C16","Row reduction returns the unique reduced row echelon form",
 "For a floating point matrix whose elimination is exactly representable, row reduction returns the reduced row echelon form of the matrix: the unique matrix with the same row space, leading ones in strictly increasing columns that are the only non-zeros of their columns, and zero rows last. The result does not depend on the storage format, reducing it again changes nothing, and the argument is not modified.",
 ["inputs","configurations"],"every shape, rank, pivot pattern (zero columns, required row exchanges, dependent rows) and storage format",
 "One full-rank 3x4 system without row exchange is tested.",
 ["math/reduced/reduced.go"],[("Gauss-Jordan elimination","math/reduced/reduced.go Reduced")],None,["returned matrix"])
p("C17","Symmetry predicates are exact",
 "The symmetric predicate is true exactly for square matrices with element (r, c) equal to element (c, r) everywhere, and the skew-symmetric predicate exactly for square matrices whose element (r, c) is the negation of element (c, r) everywhere, diagonal included, for every storage format and type.",
 ["inputs","configurations"],"every shape and content, in particular matrices one element away from being (skew-)symmetric",
 "Tests check one positive 3x3 example per predicate and no negative one.",
 ["math/symmetric/symmetric.go","math/skewsymmetric/skewSymmetric.go","operators.go"],[("transpose then compare","math/symmetric, math/skewsymmetric")],None,["returned boolean"])
p("C18","Breadth-first search visits exactly the vertices at each distance",
 "Searching a graph given as a square adjacency matrix with non-negative weights (a non-zero element at (i, j) is an edge from j to i) calls the stop predicate once per level, the d-th call with a vector that is non-zero exactly at the vertices whose distance from the source is d, until the predicate holds or as many levels as there are vertices have been tried. It returns the vector of the level that satisfied the predicate, or the all-zero vector if none did. For 0/1 adjacency matrices the values are the numbers of shortest paths, and neither graph nor result depends on the storage format. (Numbers of paths the element type cannot hold are excepted.)",
 ["inputs","configurations"],"every directed graph (self-loops, cycles, unreachable parts), source, predicate, storage format and type in which path counts do not overflow",
 "One seven-vertex graph and one predicate are tested.",
 ["breadthfirst/breadthFirst.go","operators.go"],[("frontier times adjacency masked by visited","breadthfirst/breadthFirst.go Search")],None,["predicate arguments and returned vector"])
p("C19","Comparison of rune matrices is a lexicographic total order",
 "For rune matrices and vectors of one shape holding valid code points, in any storage format that holds runes, comparison is the sign of the lexicographic order of their elements read row by row: zero exactly for equal contents, antisymmetric, transitive and consistent with the less and greater predicates. The string form is the text of all elements, zeros included, in that order.",
 ["inputs","configurations"],"all pairs and triples of rune matrices of one shape with valid code points of every UTF-8 length and zero",
 "Only reached through two 3x3 sorts of the letters a to c.",
 ["operators.go"],[("String, Compare, Less, Greater","operators.go")],None,["Compare, Less, Greater, String"])
p("C20","Sorting rows or columns yields the ordered permutation of the input",
 "Sorting a rune matrix of valid code points by rows (columns) returns a matrix of the same shape whose rows (columns) are in non-decreasing lexicographic order and are exactly the rows (columns) of the input with their multiplicities, for every storage format; the input is not modified. If the context is cancelled at any moment the result is still a permutation of the input's rows (columns).",
 ["inputs","fault_sequences"],"every rune matrix (duplicates, zeros, already and reverse sorted, single row/column, non-square), storage format and cancellation point",
 "One 3x3 dense matrix each for rows and columns is tested.",
 ["sort/bubble.go","operators.go"],[("exchange sort over rows/columns","sort/bubble.go")],None,["returned matrix"])
p("C21","Cancellation ends every operation promptly and leaves no wrong output",
 "Every operation that takes a context returns without hanging, spinning or crashing when the context is cancelled before the call or at any point during it. After cancellation each position of the output matrix passed in, or of the matrix returned by transposing, scaling or Strassen multiplication, holds either its previous value or the value the uncancelled operation would have stored (element-wise operations: on zeros and ones), operands are untouched, a comparison for equality never reports matrices that differ as equal, a reduction folds no more than the elements there are, and with a context that is never cancelled the result is complete.",
 ["fault_sequences","inputs"],"every context-taking operation, every point of cancellation, operand formats and contents",
 "No test uses a cancellable context.",
 ["operators.go","breadthfirst/breadthFirst.go","math/strassen/strassen.go","sort/bubble.go"],[("ctx.Done polling in each loop","operators.go"),("reduction hand-off between goroutines","operators.go ReduceMatrixToScalarWithMonoID, binaryop/monoID.go")],None,["return of the call, output positions, number of polls after cancellation"])
p("C22","The mutex wrapper makes single calls atomic and otherwise changes nothing",
 "Calls made concurrently on a mutex-wrapped matrix behave as if executed one at a time: a set, update or clear never overlaps any other call on the wrapped matrix, no update is lost, every history of reads and writes is linearizable and there is no data race (iterators handed out excepted). Each call otherwise returns and changes exactly what the same call on the wrapped matrix would.",
 ["schedules","histories"],"every set of concurrent calls and schedule of them, every wrapped format; every sequential history",
 "The wrapper is not used by any test.",
 ["mutexMatrix.go"]+STORE,[("RWMutex around each delegated call","mutexMatrix.go")],None,["overlap of calls seen by an instrumented inner matrix, results, race detector"])
p("C23","Reading is free of side effects, so concurrent readers are safe",
 "Reading operations (element access, mask tests, extraction, enumeration, equality, copying, reductions and arithmetic with a separate result) never write to their operands, so any number of goroutines may run them on the same matrices at once without a data race and each obtains the result it would obtain alone.",
 ["schedules","inputs"],"every set of concurrent reading operations on shared operands, every storage format and schedule",
 "No test shares a matrix between goroutines.",
 ["operators.go","math/strassen/strassen.go"]+STORE,[("At, Element and the other readers","csrMatrix.go, cscMatrix.go, sparseVector.go"),("internal goroutines","operators.go reductions, math/strassen")],None,["race detector; results compared with sequential ones"])
p("C24","Writing a result onto one of the operands gives the same result",
 "Addition, subtraction, negation, apply, and element-wise add and multiply may name one of their operands as the output: every unprotected position then holds what the same operation would have stored in a separate output for the same operands (for element-wise operations on zeros and ones), positions protected by a mask keep their value, and the other operand is unchanged.",
 ["inputs","configurations"],"every choice of aliased operand, both operands being the same object, storage formats, contents, masks and types",
 "Two element-wise operations on one 7x7 pattern with a dense second operand are tested in place.",
 ["operators.go"],[("comparison of output with operands","operators.go elementWiseMultiply, elementWiseAdd, Apply, Add, Subtract, Negative")],None,["At on every position of output and operands"])
p("C25","Resizing a dense vector keeps the common prefix",
 "Resizing a dense vector to any non-negative size gives it exactly that length and returns it; elements below both the old and the new length keep their values and new elements are zero. After any history of resizes and writes the vector is consistent in all its views (length, rows, size, values, enumeration, copy).",
 ["histories","inputs"],"every sequence of resizes, writes and clears",
 "It is not tested.",
 ["denseVector.go"],[("ReSize","denseVector.go")],None,["Length, AtVec, Enumerate, Copy"])
p("C26","A context with a mode otherwise behaves exactly like its parent",
 "A context created with a mode reports that mode, and any other context reports blocking mode and that no mode was set. Its deadline, values, error and cancellation are those of the parent at every moment.",
 ["inputs","histories"],"every parent context (background, value, cancelled, deadline, nested modes) and mode, before and after cancellation",
 "It is not tested.",
 ["context.go"],[("NewContext, BlockingMode","context.go")],None,["BlockingMode, Done, Err, Deadline, Value"])
p("C27","Matrices are classified as sparse exactly by storage format",
 "A matrix is reported as sparse exactly when its storage format is a sparse one (CSR, CSC, sparse vector, or a format registered by the user), for every element type, and never for dense matrices and dense vectors. Registering a format a second time is rejected and a rejected or additional registration does not change the classification of the others.",
 ["configurations","histories"],"every storage format and element type, every sequence of registrations",
 "Three float64 formats are tested.",
 ["matrixRegistry.go"],[("registry keyed by type","matrixRegistry.go RegisterMatrix, IsSparseMatrix")],None,["IsSparseMatrix"])
p("C28","Operations leave nothing running behind",
 "Once an operation has returned, whether complete, cancelled before or during it, or rejected with a panic, no goroutine it started is still running or waiting. The same holds for a monoid's fold once its single result has been received. The operands remain usable.",
 ["schedules","fault_sequences"],"every operation that starts goroutines or takes a context, every way and moment of its ending, every sequence of such calls",
 "No test looks at goroutines, and none cancels an operation.",
 ["operators.go","binaryop/monoID.go","math/strassen/strassen.go"],[("hand-off between producer and fold","operators.go ReduceMatrixToScalarWithMonoID, binaryop/monoID.go"),("the seven products","math/strassen/strassen.go")],None,["goroutines of the process after each call"])
p("C29","Programs over matrices behave like the same programs over plain arrays",
 "Any sequence of writes, in-place maps, operations into existing matrices (which may be operands or masks of earlier and later ones) and operations that return new objects, over any mix of storage formats, leaves every matrix with exactly the contents that the same sequence gives on plain arrays, and every reading operation answers for the contents at that moment: nothing depends on what was computed or stored before.",
 ["histories","configurations"],"every sequence of operations over several matrices and vectors of differing formats, shapes and element types",
 "Tests apply one operation to freshly built matrices and never reuse a result.",
 STORE+["operators.go","math/strassen/strassen.go","breadthfirst/breadthFirst.go"],[("all operations","operators.go and the methods of the storage files")],None,["At, Enumerate and Values of every matrix after every step; answers of reading operations"])
p("C30","Operations work alike on any implementation of the matrix and vector interfaces",
 "A format of a user that implements the Matrix or Vector interface over storage of its own (as a pointer or as a value that need not be comparable; enumerating all elements or its non-zero ones, the latter registered with RegisterMatrix or not; with rows and columns that are copies or show the matrix itself) serves as operand, mask and output of every operation, search, reduction, comparison, sort and product, by itself or mixed with the formats of the library, with the same results as the formats of the library, whatever the order in which it enumerates its elements.",
 ["configurations","inputs"],"every implementation of the interface, every order of enumeration, every combination with the formats of the library, shape, pattern and element type",
 "Tests use the five formats of the library, whose enumeration is always in order.",
 STORE+["operators.go","matrix.go","vector.go","matrixRegistry.go","math/strassen/strassen.go","math/reduced/reduced.go","breadthfirst/breadthFirst.go","sort/bubble.go"],[("all operations","operators.go and the packages beside it")],None,["At of results, outputs and operands; answers of comparisons, reductions, searches and sorts"])
p("C31","Sparse formats hold elements anywhere in any shape at the cost of those stored",
 "A sparse vector of any length, a CSR matrix of any number of columns and a CSC matrix of any number of rows (up to the largest int) are maps from positions to values: elements at indices beyond 16, 31, 32 or 53 bits are stored, read, updated, mapped, enumerated, counted, copied, compared, added, subtracted, scaled, transposed, masked and reduced exactly, positions that agree in their low bits stay apart, and no such operation takes time or memory in proportion to the number of positions. Products, sums and transpositions along dimensions of more than 2^16 are exact too.",
 ["inputs","histories"],"every shape, every index, every sequence of operations on sparse matrices and vectors",
 "Tests use matrices of at most 7 by 7.",
 ["csrMatrix.go","cscMatrix.go","sparseVector.go","operators.go"],[("storage, iterators and operations","the storage files of the sparse formats and operators.go")],None,["At near all indices used, Enumerate and Values after every step; results of operations"])
p("C32","A panic in a function of the caller leaves all data intact and usable",
 "When a function handed to the library panics (that of Update or Map, a unary operator, a mask, the predicate of a search), the panic reaches the caller with its value, and after the caller has recovered, an updated structure is unchanged, a mapped one has exactly the elements mapped so far changed, every position of an output is as before or as the complete operation leaves it, operands are unchanged, sparse structures count and enumerate consistently, no lock stays held, and everything can be used further with the usual results.",
 ["fault_sequences","histories"],"every function of the caller, every use of it at which it panics, every later history, format, shape and element type; left out: the functions a reduction calls on a goroutine of the library",
 "Tests contain no panicking callback.",
 STORE+["operators.go","mutexMatrix.go","breadthfirst/breadthFirst.go"],[("Update, Map and the operations that call masks and operators","storage files and operators.go")],None,["the recovered value; At, Enumerate and Values after the panic and after later steps"])
p("C33","Functions of the caller may use the library and the data they are called for",
 "A function handed to the library (that of Update or Map, a unary operator, the operator of a monoid, a mask, a user-defined operand, the predicate of a search) may itself use the library: it sees the structures it is called for as they are before its result is stored, other operations, reductions, searches and uses of the same operation inside it give their usual results and do not block, the interrupted operation ends with the same result as without them, and Update stores its function's result at its position also when the function has written, updated or cleared the structure (it is At followed by Set).",
 ["programs","histories"],"every nesting of uses of the library within its callbacks, every format, shape, element type and content; left out: a function that uses the MutexMatrix that calls it, or writes to a structure being mapped, enumerated or read by the operation",
 "Callbacks in tests are arithmetic; none uses the library.",
 STORE+["operators.go","mutexMatrix.go","breadthfirst/breadthFirst.go","binaryop/monoID.go"],[("Update does a At and Set on the matrix element","storage files"),("operations that call masks and operators","operators.go")],None,["arguments and results of callbacks, reads within them, and the final content and outputs"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,S)
    print(x['id'],len(x['title']))
