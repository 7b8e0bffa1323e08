"""What each check runs: tests of harness/<id> with cases per shard (quick; thorough: x25)."""
CHECKS = {
    "C01": dict(
        rule="A case is a drawn history of set/update/clear/read operations on a matrix or vector of drawn format, "
             "element type and shape, replayed against a position->value map; non-trivial if a stored non-zero was "
             "both overwritten by another value and removed by storing zero during the history (histories on large structures: "
             "if the number of stored elements changed after filling).",
        tests=[dict(name="TestNumbers", quick=84000), dict(name="TestLong", quick=36000), dict(name="TestBool", quick=6300), dict(name="TestHuge", quick=2400)]),
    "C02": dict(
        rule="A case is a matrix of drawn format, type, shape and content (built in a drawn way) that is enumerated and "
             "mapped in place with drawn results, in part or completely, then changed and enumerated again, or operands of a drawn "
             "operation whose results are enumerated and mapped; non-trivial "
             "if it has more than one position and some stored element was mapped to zero (dense element types: "
             "non-square with a non-zero; results: two elements or more are held).",
        tests=[dict(name="TestNumbers", quick=80000), dict(name="TestDerived", quick=40000), dict(name="TestLogical", quick=24000)]),
    "C03": dict(
        rule="A case is a matrix of drawn format, type, shape and content, every row and column of which is extracted "
             "before and after drawn changes, or an array from which every format is made; non-trivial if it holds both "
             "zeros and non-zeros.",
        tests=[dict(name="TestExtract", quick=84000), dict(name="TestArrays", quick=30000), dict(name="TestBool", quick=10500)]),
    "C05": dict(
        rule="A case is a pair of matrices of drawn formats, made equal or different in a drawn way (one position, one "
             "element removed, two swapped, other shape, other content), compared in both directions in every form, or a long "
             "matrix that differs in each position of one line in turn; "
             "non-trivial if there is more than one position and a non-zero.",
        tests=[dict(name="TestEqual", quick=99000), dict(name="TestFar", quick=800), dict(name="TestBool", quick=15600)]),
    "C06": dict(
        rule="A case is a drawn add, subtract, negate or scale of matrices of drawn formats, type, shape and content, by "
             "method or into an empty or filled output of drawn format, compared position by position with the model; "
             "non-trivial if there is more than one position and each operand of a binary operation holds an element the "
             "other lacks (unary: it holds an element).",
        tests=[dict(name="TestFunctions", quick=99000), dict(name="TestMethods", quick=108000)]),
    "C07": dict(
        rule="A case is a drawn product (mxm, mxv, vxm, Multiply) of operands of drawn formats, type, shape and content "
             "into an output of drawn format and content, compared with the triple loop over the models, also through "
             "identity, transposition and distributivity; non-trivial if the product has a non-zero and the left operand "
             "a zero.",
        tests=[dict(name="TestFunctions", quick=84000), dict(name="TestMethods", quick=60000)]),
    "C08": dict(
        rule="A case is a matrix of drawn format, type, shape and content transposed in every way the library offers; "
             "non-trivial if it is not square and holds a non-zero.",
        tests=[dict(name="TestNumbers", quick=99000), dict(name="TestBool", quick=10500)]),
    "C09": dict(
        rule="A case is a mask of drawn format and type read element by element, or a drawn operation run with and "
             "without a drawn mask on the same operands and output content, or a masked reduction; non-trivial if the "
             "mask protects a position that would have changed (element reads: marks some positions and not others; "
             "reductions: leaves out a non-zero).",
        tests=[dict(name="TestMasked", quick=87000), dict(name="TestElements", quick=48000), dict(name="TestReductions", quick=36000)]),
    "C04": dict(
        rule="A case is a drawn operation (copy, extraction, arithmetic, transposition, reduction, product, sort, search, "
             "masked operation) on operands of drawn formats and content, followed by drawn writes to results and "
             "operands in drawn order, each of which must show on the side written only; non-trivial if the source holds "
             "a non-zero and has more than one position.",
        tests=[dict(name="TestDerived", quick=108000), dict(name="TestPurity", quick=60000), dict(name="TestOthers", quick=18000), dict(name="TestSort", quick=14400)]),
    "C10": dict(
        rule="A case is a drawn operator applied to a matrix of drawn format and content under a drawn mask into a filled "
             "output of drawn format or in place, with every call of the operator recorded; non-trivial if some position "
             "changes and there is more than one.",
        tests=[dict(name="TestApply", quick=90000)]),
    "C11": dict(
        rule="A case is an element-wise operation on two matrices or vectors of drawn formats, zeros and ones or general "
             "values, into an empty output of drawn format; non-trivial if each operand holds an element the other lacks "
             "and there is one in common.",
        tests=[dict(name="TestPatterns", quick=198000)]),
    "C12": dict(
        rule="A case is a matrix of drawn format, type and content reduced in every way with a drawn monoid and drawn "
             "masks (producer and fold giving way at drawn steps), compared with the fold over the model; non-trivial if "
             "it holds at least two non-zeros.",
        tests=[dict(name="TestReductions", quick=36000), dict(name="TestPlain", quick=24000), dict(name="TestRace", quick=2160, race=True)]),
    "C13": dict(
        rule="A case is a pair of drawn arguments (extremes, zeros of both signs, NaN and infinities included, equal and "
             "related pairs) given to every operator of both packages and compared with its documented formula, or "
             "drawn sequences reduced by a drawn monoid (non-commutative operators included) with drawn pacing and "
             "completion; non-trivial if the arguments differ and are not zero (reductions: two or more values).",
        tests=[dict(name="TestOperators", quick=450000), dict(name="TestBool", quick=21000), dict(name="TestMonoid", quick=66000)]),
    "C14": dict(
        rule="A case is a matrix or vector of drawn format, type, shape and content on which every accessor is called at "
             "drawn positions outside its shape, or a drawn operation with an operand or mask of a drawn wrong shape "
             "(mirrored, one off, same size); every call has to panic and leave all arguments as they were (also for vectors resized since their last use); non-trivial if the "
             "argument holds a non-zero and is not square (operations: has more than one position).",
        tests=[dict(name="TestAccess", quick=33000), dict(name="TestPlain", quick=120000), dict(name="TestShapes", quick=99000),
               dict(name="TestReductions", quick=120000), dict(name="TestResized", quick=20000)]),
    "C15": dict(
        rule="A case is a pair of conformable operands of drawn formats, type, shape (even, odd, repeatedly even, "
             "rectangular) and content with a drawn crossover point, multiplied by Strassen's method and compared with the "
             "triple loop; non-trivial if the operands were divided at least once and the product has two non-zeros.",
        tests=[dict(name="TestProducts", quick=16500), dict(name="TestDeep", quick=1200), dict(name="TestDefault", quick=240), dict(name="TestBlocks", quick=60),
               dict(name="TestRace", quick=1440, race=True)]),
    "C17": dict(
        rule="A case is a matrix of drawn format, type and content, drawn freely, mirrored, mirrored with the other sign, or "
             "one of those changed at one place, compared with the definition of both predicates, or a large one changed at the "
             "places of a line in turn; non-trivial if it is square, "
             "larger than 1x1 and holds a non-zero.",
        tests=[dict(name="TestPredicates", quick=132000), dict(name="TestFar", quick=300)]),
    "C18": dict(
        rule="A case is a drawn graph (path, cycle, star, layers, tree, complete, random; drawn weights, type, format and "
             "source) searched with a drawn stop predicate, each level compared with the distances and numbers of shortest "
             "paths of a queue-based search, or a graph of up to 200 vertices with one path to each; non-trivial if some vertex is more than one edge away.",
        tests=[dict(name="TestSearch", quick=45000), dict(name="TestFar", quick=40)]),
    "C19": dict(
        rule="A case is three rune matrices of one drawn shape in drawn formats, the later ones the same as, one change away "
             "from, or unlike the earlier, compared pairwise with the order of their element lists; non-trivial if two of them "
             "differ and there is more than one position.",
        tests=[dict(name="TestOrder", quick=140000)]),
    "C20": dict(
        rule="A case is a rune matrix of drawn format and content (repeated, nearly equal, descending lines) sorted by rows or "
             "columns (many or long lines too), to the end and cancelled at drawn polls of the context, compared with the sorted list "
             "of its lines; "
             "non-trivial if the input was not ordered already.",
        tests=[dict(name="TestSort", quick=220000), dict(name="TestFar", quick=400)]),
    "C16": dict(
        rule="A case is a matrix of drawn format and shape with a drawn rank and drawn leading columns, composed or found so "
             "that its elimination is exact, possibly with its rows exchanged, reduced and compared with the result of exact "
             "rational arithmetic, or, for larger ones, with the reduced form it was made from; non-trivial if its rank is at least two.",
        tests=[dict(name="TestReduced", quick=84000), dict(name="TestFar", quick=1500)]),
    "C21": dict(
        rule="A case is a drawn operation (separate output or in place) on drawn operands run to the end and again with the "
             "context cancelled before the call, at a drawn poll of the context, at a drawn call of mask or operator, or by "
             "another goroutine; every output position has to be old or final; non-trivial if the operation changes at least "
             "two positions (concurrent: wrote something; others: the operand holds two non-zeros).",
        tests=[dict(name="TestOutputs", quick=96000), dict(name="TestReturned", quick=57000), dict(name="TestOthers", quick=66000),
               dict(name="TestPrompt", quick=60000), dict(name="TestConcurrent", quick=54000)]),
    "C22": dict(
        rule="A case is a drawn list of calls made on a wrapped matrix of drawn format, type and shape, alone beside an equal "
             "plain matrix (bad positions and panicking functions included), or by 2 to 6 goroutines at once, watching overlaps "
             "inside the wrapped matrix, counting updates, or searching an order that explains all results; non-trivial if the "
             "calls change something and, for histories, at least two calls overlapped.",
        tests=[dict(name="TestAlone", quick=48000), dict(name="TestOverlap", quick=39000, procs=4),
               dict(name="TestHistory", quick=69000, procs=4), dict(name="TestLost", quick=36000, procs=4),
               dict(name="TestRace", quick=5400, race=True, procs=4)]),
    "C23": dict(
        rule="A case is 2 to 4 goroutines running drawn reading operations on shared matrices, vectors and masks of drawn "
             "formats, type and content at once, under the race detector, each result compared with that of the same "
             "operation alone on an equal set; non-trivial if the shared matrix holds a non-zero.",
        tests=[dict(name="TestReaders", quick=7200, race=True, procs=4)]),
    "C24": dict(
        rule="A case is an operation drawn with its operands' formats and content, a drawn mask and a drawn way in which output "
             "and operands are one object, compared with the same operation into a separate output; non-trivial if the call "
             "changes some position and there is more than one.",
        tests=[dict(name="TestAliased", quick=111000)]),
    "C25": dict(
        rule="A case is a drawn history of resizes, writes and clears of a dense vector of drawn kind, type and content, all views "
             "of which are compared with a slice after every step, and copies kept from it at the end; non-trivial if it grew "
             "again after shrinking and being written.",
        tests=[dict(name="TestHistories", quick=33000), dict(name="TestBool", quick=12600)]),
    "C26": dict(
        rule="A case is a tree of contexts drawn from modes, values, cancellations, causes, deadlines and parents of other types, "
             "grown and cancelled in drawn order, every context with a mode compared with its parent after every step, or one "
             "context that drawn goroutines ask at once while it is cancelled; "
             "non-trivial if a context with a mode was observed after it was cancelled (asked at once: twice or more each).",
        tests=[dict(name="TestContexts", quick=240000), dict(name="TestShared", quick=6000, race=True)]),
    "C27": dict(
        rule="A case is a drawn sequence of registrations (new formats, generic and not, some named like those of the library, and "
             "repetitions) with every format and element type classified after each, or a matrix of drawn format and type and "
             "what is derived from it, or a drawn plan of constructions and registrations carried out and classified in a process of its own; "
             "non-trivial if a repetition was rejected (derived: it holds a non-zero; fresh process: two steps or more).",
        tests=[dict(name="TestRegistrations", quick=18000), dict(name="TestDerived", quick=246000), dict(name="TestFresh", quick=1800)]),
    "C28": dict(
        rule="A case is a sequence of one to five operations that take a context or start goroutines, each complete, cancelled "
             "before it, cancelled at a drawn poll, or rejected, after each of which the goroutines of the process are looked "
             "at; non-trivial if the operations of the case ended in more than one way and the operand holds a non-zero.",
        tests=[dict(name="TestLeft", quick=60000, procs=4)]),
    "C29": dict(
        rule="A case is a program of 3 to 24 drawn steps over a pool of five or six matrices and vectors of drawn formats (writes, "
             "maps, operations into the pool, with its members as masks, operations with new results put into the pool, "
             "reading operations), replayed on arrays, everything compared after each step; non-trivial if more than one "
             "step changed a matrix that an earlier operation of the program had read.",
        tests=[dict(name="TestPrograms", quick=120000)]),
    "C30": dict(
        rule="A case is an operation, function or method with operands, mask and output in formats of a user (own storage, "
             "enumerated in arbitrary order, registered as sparse or not, matrix or vector) mixed with those of the library, of drawn "
             "shape, type and content, the operand at times being the output, compared with arrays; non-trivial if a format "
             "of a user took part and the operand holds a non-zero.",
        tests=[dict(name="TestOperations", quick=60000), dict(name="TestFunctions", quick=60000), dict(name="TestRunes", quick=30000)]),
    "C31": dict(
        rule="A case is a history of up to 8 drawn writes, maps and operations on a sparse matrix or vector of up to 200 000 lines in "
             "one dimension and up to the largest int in the other, with indices near powers of two, near the ends and congruent to one "
             "another, replayed on a map; or a product, sum, transposition and comparison of rows and columns of 2^15 to 2^17 "
             "elements; non-trivial if elements beyond index 2^16 are stored (long rows: the product is not zero).",
        tests=[dict(name="TestSparse", quick=40000), dict(name="TestLong", quick=400)]),
    "C32": dict(
        rule="A case is a history of up to 10 drawn updates, maps, writes and copies of one structure (at times behind a mutex) whose "
             "functions panic at a drawn use, compared with an array after each step; or an operation whose mask or operator panics at a "
             "drawn use; or a search whose predicate does; non-trivial if something panicked and the structure was changed "
             "afterwards (operation: some positions were final and some not yet; search: there are edges).",
        tests=[dict(name="TestStructure", quick=60000), dict(name="TestOperation", quick=60000), dict(name="TestSearch", quick=20000)]),
    "C33": dict(
        rule="A case is a structure updated up to 6 times by functions that themselves read, write, update (to depth 3) and clear it, compared "
             "with an array at every step; or a Map, an operation, a reduction or a search whose function, mask, operand, operator or predicate "
             "runs up to 3 drawn other uses of the library, also on the same matrices and of the same operation, with results known before; "
             "non-trivial if a function changed the structure (Update), or the callback ran more than once.",
        tests=[dict(name="TestUpdate", quick=40000), dict(name="TestMap", quick=25000), dict(name="TestOperation", quick=30000),
               dict(name="TestReduction", quick=8000), dict(name="TestSearch", quick=8000)]),
}
