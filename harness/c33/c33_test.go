package c33

import (
	"fmt"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// job is a use of the library with its result known before; run does it and checks the result.
// Everything random is drawn when it is made, so that it can run inside any callback.
type job struct {
	name string
	run  func()
}

// drawJob draws a complete use of the library. x, when given, is a matrix that does not change
// while the job runs, with the content now returns.
func drawJob[T constraints.Number](c *vh.Case, x gb.Matrix[T], now func() vh.Mat[T]) job {
	kind := vh.Uni(c, 9, "job")
	if x == nil && kind > 2 {
		kind %= 3
	}
	name := [...]string{"operation", "reduction", "search", "read all", "copy", "enumerate", "transpose", "add to itself", "equal"}[kind]
	c.Desc("[%s", name)
	defer c.Desc("]")
	switch kind {
	case 0:
		i := vh.DrawInst[T](c, vh.AllOps, 5, vh.Exact, true)
		mask, _ := vh.DrawMask(c, i.Prev.R, i.Prev.C)
		onto := inPlace(c, i)
		once := func() gb.Matrix[T] {
			s, m, out := vh.Plain(i.FS, i.S), gb.Matrix[T](nil), i.Out()
			if i.Binary {
				m = vh.Plain(i.FM, i.M)
			}
			if onto {
				out = s
			}
			i.Run(vh.BG, s, m, mask, out)
			return out
		}
		want := vh.Snap[T](once())
		return job{name, func() { vh.Expect[T](c, "output of the operation within", once(), want) }}
	case 1:
		r, k := vh.Shape(c, 5, true)
		a := vh.GenMat(c, r, k, vh.Palette[T](c, vh.Exact))
		m, _ := vh.BuildAny(c, "red", a)
		var sum T
		for _, v := range a.D {
			sum += v
		}
		return job{name, func() {
			if got := gb.ReduceMatrixToScalar[T](vh.BG, m, nil); got != sum {
				c.Failf("the reduction within gives %v, want %v", got, sum)
			}
		}}
	case 2:
		n := rapid.IntRange(1, 4).Draw(c.T, "n")
		m, _ := vh.BuildAny(c, "graph", vh.GenMat(c, n, n, []T{1}))
		src := vh.Uni(c, n, "source")
		want := searchCalls(m, src, nil)
		return job{name, func() {
			if got := searchCalls(m, src, nil); got != want {
				c.Failf("the search within calls with %v, want %v", got, want)
			}
		}}
	case 3:
		return job{name, func() { vh.Expect[T](c, "read within", x, now()) }}
	case 4:
		return job{name, func() {
			y, w := x.Copy(), now()
			vh.Expect[T](c, "copied within", y, w)
			y.Set(0, 0, y.At(0, 0)+1)
			vh.Expect[T](c, "after writing to a copy within", x, w)
		}}
	case 5:
		return job{name, func() {
			w := now()
			got := vh.NewMat[T](w.R, w.C)
			n := 0
			for it := x.Enumerate(); it.HasNext(); n++ {
				i, j, v := it.Next()
				if n > 2*len(w.D) {
					c.Failf("the enumeration within does not end")
				}
				got.Set(i, j, v)
			}
			vh.ExpectMat(c, "enumerated within", got, w)
		}}
	case 6:
		return job{name, func() {
			w := now()
			vh.Expect[T](c, "transposed within", gb.TransposeToCSR[T](vh.BG, x), w.Tr())
			vh.Expect[T](c, "transposed within", gb.TransposeToCSC[T](vh.BG, x), w.Tr())
		}}
	case 7:
		return job{name, func() {
			w := now()
			out := vh.Empty[T](vh.CSR, w.R, w.C)
			gb.Add[T](vh.BG, x, x, nil, out)
			vh.Expect[T](c, "added to itself within", out, vh.Mapm(w, func(v T) T { return v + v }))
		}}
	}
	return job{name, func() {
		w := now()
		if y := vh.Plain(vh.CSC, w); !gb.Equal[T](vh.BG, x, y) || !gb.Equal[T](vh.BG, y, x) {
			c.Failf("not equal to its content within")
		}
	}}
}

// inPlace decides whether an operation writes to its first operand.
func inPlace[T constraints.Number](c *vh.Case, i *vh.Inst[T]) bool {
	switch i.Op {
	case "add", "sub", "neg", "apply":
		if i.S.R == i.Prev.R && i.S.C == i.Prev.C && rapid.Bool().Draw(c.T, "in place") {
			c.Desc("in place")
			return true
		}
	}
	return false
}

// jobs draws up to n jobs and a schedule of which of them runs at which use of a callback.
func jobs[T constraints.Number](c *vh.Case, n int, x gb.Matrix[T], now func() vh.Mat[T]) func() {
	var js []job
	for k := rapid.IntRange(1, n).Draw(c.T, "jobs"); k > 0; k-- {
		js = append(js, drawJob(c, x, now))
	}
	every, use := rapid.IntRange(1, 3).Draw(c.T, "every"), 0
	return func() {
		if use++; use%every == 0 && use < 30 {
			js[use/every%len(js)].run()
		}
	}
}

// searchCalls tells what the predicate of a search is called with.
func searchCalls[T constraints.Number](a gb.Matrix[T], src int, f func()) string {
	s := ""
	n := 0
	breadthfirst.Search[T](vh.BG, a, src, func(v gb.Vector[T]) bool {
		s += fmt.Sprint(vh.Snap[T](v))
		if f != nil {
			f()
		}
		s += fmt.Sprint(vh.Snap[T](v).NNZ())
		n++
		return n > 40
	})
	return s
}

// update: a history of updates whose functions use the structure, also to change it, and the rest
// of the library. Update is documented as At followed by Set.
func update[T constraints.Number](c *vh.Case) {
	pal := append(vh.Palette[T](c, vh.Exact), 0)
	r, k := vh.Shape(c, 12, false)
	m := vh.GenMat(c, r, k, pal)
	x, f := vh.BuildAny(c, "x", m)
	nested := 0
	// behind a mutex only the outermost steps go through the wrapper
	var w *gb.MutexMatrix[T]
	if vh.Uni(c, 5, "mutex") == 0 {
		c.Desc("mutex")
		w = gb.NewMutexMatrix[T](x)
	}
	var step func(depth int) func()
	// step draws a change of the structure and returns it.
	step = func(depth int) func() {
		i, j, a := vh.Uni(c, r, "r"), vh.Uni(c, k, "c"), pal[vh.Uni(c, len(pal), "v")]
		switch kind := vh.Uni(c, 8, "step"); {
		case kind == 0:
			c.Desc("set (%d,%d)=%v", i, j, a)
			return func() { x.Set(i, j, a); m.Set(i, j, a) }
		case kind == 1 && depth > 0:
			c.Desc("clear")
			return func() {
				x.Clear()
				m = vh.NewMat[T](r, k)
			}
		case kind == 2 && depth > 0:
			j := drawJob[T](c, x, func() vh.Mat[T] { return m })
			return j.run
		case kind == 3:
			comp, ok := x.(gb.MatrixCompressed[T])
			if ok {
				c.Desc("set with pointer (%d,%d)=%v", i, j, a)
				return func() { comp.SetReturnPointer(i, j, a); m.Set(i, j, a) }
			}
		}
		c.Desc("update (%d,%d)=%v {", i, j, a)
		var body []func()
		if depth < 3 {
			for n := rapid.IntRange(0, 3).Draw(c.T, "body"); n > 0; n-- {
				body = append(body, step(depth+1))
			}
		}
		c.Desc("}")
		via := vh.Uni(c, 2, "via")
		return func() {
			fn := func(g T) T {
				if !vh.Same(g, m.At(i, j)) {
					c.Failf("Update is given %v, want %v", g, m.At(i, j))
				}
				for _, b := range body {
					before := m.Clone()
					b()
					if fmt.Sprint(before) != fmt.Sprint(m) {
						nested++
					}
					vh.Expect[T](c, "within Update", x, m)
				}
				return a
			}
			if w != nil && depth == 0 {
				w.Update(i, j, fn)
			} else if comp, ok := x.(gb.MatrixCompressed[T]); ok && via == 0 {
				comp.UpdateReturnPointer(i, j, fn)
			} else {
				x.Update(i, j, fn)
			}
			m.Set(i, j, a)
		}
	}
	for n := rapid.IntRange(1, 6).Draw(c.T, "steps"); n > 0; n-- {
		step(0)()
		vh.CheckStore(c, "after the step", x, f, m)
		vh.Expect[T](c, "after the step", x, m)
		if want := m.NNZ(); f.Sparse() && x.Values() != want {
			c.Failf("Values is %d, want %d", x.Values(), want)
		}
	}
	c.NonTrivial(nested > 0)
}

func TestUpdate(t *testing.T) {
	vh.Check(t, vh.Types13(update[float64], update[int], update[int8], update[uint8], update[int32], update[float32], update[int16],
		update[int64], update[uint], update[uint16], update[uint32], update[uint64], update[uintptr]))
}

// mapping: the function of Map reads the structure and uses the rest of the library.
func mapping[T constraints.Number](c *vh.Case) {
	pal := append(vh.Palette[T](c, vh.Exact), 0)
	r, k := vh.Shape(c, 8, false)
	m := vh.GenMat(c, r, k, pal)
	x, f := vh.BuildAny(c, "x", m)
	use := jobs[T](c, 3, x, func() vh.Mat[T] { return m })
	u := vh.DrawUnary[T](c, pal)
	seen := vh.NewMat[bool](r, k)
	want := m.NNZ()
	if !f.Sparse() {
		want = r * k
	}
	n, at := 0, 0
	for it := x.Map(); it.HasNext(); {
		it.Map(func(i, j int, g T) T {
			n++
			at = i*k + j
			if seen.D[at] {
				c.Failf("(%d,%d) is mapped twice", i, j)
			}
			seen.D[at] = true
			if !vh.Same(g, m.At(i, j)) {
				c.Failf("Map is given %v at (%d,%d), want %v", g, i, j, m.At(i, j))
			}
			use()
			return u(g)
		})
		m.D[at] = u(m.D[at])
		vh.Expect[T](c, "between two steps of Map", x, m)
	}
	if n != want {
		c.Failf("Map calls %d times, want %d", n, want)
	}
	vh.CheckStore(c, "mapped", x, f, m)
	c.NonTrivial(n > 1)
}

func TestMap(t *testing.T) {
	vh.Check(t, vh.Types13(mapping[float64], mapping[int], mapping[int8], mapping[uint8], mapping[int32], mapping[float32], mapping[int16],
		mapping[int64], mapping[uint], mapping[uint16], mapping[uint32], mapping[uint64], mapping[uintptr]))
}

// nosy is an operand that uses the library when it is read.
type nosy[T constraints.Number] struct {
	gb.Matrix[T]
	use func()
}

func (n nosy[T]) At(r, c int) T { n.use(); return n.Matrix.At(r, c) }
func (n nosy[T]) Enumerate() gb.Enumerate[T] {
	n.use()
	return nosyEnum[T]{n.Matrix.Enumerate(), n.use}
}

type nosyEnum[T constraints.Number] struct {
	gb.Enumerate[T]
	use func()
}

func (n nosyEnum[T]) Next() (int, int, T) { n.use(); return n.Enumerate.Next() }

// operation: masks, operators and operands that use the library while an operation runs.
func operation[T constraints.Number](c *vh.Case) {
	i := vh.DrawInst[T](c, vh.AllOps, 8, vh.Exact, true)
	i.DrawSame()
	s, m := i.Operands()
	mask, _ := vh.DrawMask(c, i.Prev.R, i.Prev.C)
	if mask == nil {
		mask = gb.NewEmptyMask(i.Prev.R, i.Prev.C)
	}
	// an operand that is written meanwhile is only read afterwards
	onto := !i.Same && inPlace(c, i)
	var use func()
	uses, quiet := 0, true
	call := func() {
		if !quiet {
			use()
		}
	}
	by, u, a, b := mask, i.U, s, m
	where := rapid.IntRange(0, 2).Draw(c.T, "where")
	nose := func(x gb.Matrix[T]) gb.Matrix[T] {
		if onto && x == s {
			where = 0
			return x
		}
		if _, ok := x.(gb.Vector[T]); ok || x == nil {
			where = 0
			return x
		}
		return nosy[T]{x, call}
	}
	switch {
	case where == 1 && i.Op == "apply":
		u = func(v T) T { call(); return i.U(v) }
		c.Desc("operator")
	case where == 1:
		c.Desc("first operand")
		if a = nose(s); i.Same {
			b = a
		}
	case where == 2:
		c.Desc("second operand")
		if b = nose(m); i.Same {
			a = b
		}
	}
	if where == 0 {
		by = vh.FuncMask{R: mask.Rows(), C: mask.Columns(), F: func(r, cc int) bool { call(); return mask.Element(r, cc) }}
		c.Desc("mask")
	}
	// the run without other uses: operands of an unknown format may take other ways than those of the library
	final, fa := i.Out(), a
	if onto {
		final = vh.Plain(i.FS, i.S)
		fa = final
	}
	vh.RunOp(vh.BG, i.Op, fa, b, by, final, u)
	want := vh.Snap[T](final)
	if i.S.R*i.S.C == 0 {
		c.NonTrivial(false)
		return
	}
	var still gb.Matrix[T]
	if !onto {
		still = s
	}
	other := jobs[T](c, 3, still, func() vh.Mat[T] { return i.S })
	// the same operation once more, on the same operands with the same mask
	again := rapid.Bool().Draw(c.T, "again")
	use = func() {
		quiet = true
		if uses++; again && uses < 4 {
			o, oa := i.Out(), a
			if onto {
				o = vh.Plain(i.FS, i.S)
				oa = o
			}
			vh.RunOp(vh.BG, i.Op, oa, b, by, o, u)
			vh.Expect[T](c, "output of the same operation within", o, want)
		} else {
			other()
		}
		quiet = false
	}
	quiet = false
	out, fo := i.Out(), i.FO
	if onto {
		out, fo = s, i.FS
	}
	vh.RunOp(vh.BG, i.Op, a, b, by, out, u)
	quiet = true
	vh.Expect[T](c, "output", out, want)
	vh.CheckStore(c, "output", out, fo, want)
	if !onto {
		vh.Expect[T](c, "s afterwards", s, i.S)
	}
	if m != nil {
		vh.Expect[T](c, "m afterwards", m, i.M)
	}
	c.Class(uses > 0, "used in "+i.Op)
	c.NonTrivial(uses > 1)
}

func TestOperation(t *testing.T) {
	vh.Check(t, vh.Types13(operation[float64], operation[int], operation[int8], operation[uint8], operation[int32], operation[float32], operation[int16],
		operation[int64], operation[uint], operation[uint16], operation[uint32], operation[uint64], operation[uintptr]))
}

// reduction: the operator of a monoid and the mask of a reduction use the library, also reductions with the same monoid.
func reduction[T constraints.Number](c *vh.Case) {
	r, k := vh.Shape(c, 6, true)
	m := vh.GenMat(c, r, k, vh.Palette[T](c, vh.Exact))
	x, _ := vh.BuildAny(c, "x", m)
	uses, depth := 0, 0
	use := jobs[T](c, 2, x, func() vh.Mat[T] { return m })
	if r*k == 0 {
		use = func() {}
	}
	var mon binaryop.MonoID[T]
	var sum T
	for _, v := range m.D {
		sum += v
	}
	self := rapid.Bool().Draw(c.T, "self")
	// the operator runs in a goroutine of the library, so its failure is kept for later
	var failed any
	mon = binaryop.NewMonoID[T](0, binaryop.NewBinaryOp(func(p, q T) T {
		uses++
		if depth > 0 || failed != nil {
			return p + q
		}
		depth++
		defer func() { depth-- }()
		b, v := vh.Panics(func() {
			if !self || uses > 4 {
				use()
			} else if got := gb.ReduceMatrixToScalarWithMonoID[T](vh.BG, x, mon, nil); got != sum {
				c.Failf("the reduction within gives %v, want %v", got, sum)
			}
		})
		if b {
			failed = v
		}
		return p + q
	}))
	defer func() {
		if failed != nil {
			panic(failed)
		}
	}()
	switch rapid.IntRange(0, 2).Draw(c.T, "kind") {
	case 0:
		if got := gb.ReduceMatrixToScalarWithMonoID[T](vh.BG, x, mon, nil); got != sum {
			c.Failf("the reduction gives %v, want %v", got, sum)
		}
	case 1:
		got := gb.ReduceMatrixToVectorWithMonoID[T](vh.BG, x, mon, nil)
		for j := 0; j < k; j++ {
			var w T
			for i := 0; i < r; i++ {
				w += m.At(i, j)
			}
			if got.AtVec(j) != w {
				c.Failf("the reduction of column %d gives %v, want %v", j, got.AtVec(j), w)
			}
		}
	case 2:
		want := gb.ReduceMatrixToScalar[T](vh.BG, x, nil)
		got := gb.ReduceMatrixToScalar[T](vh.BG, x, vh.FuncMask{R: r, C: k, F: func(int, int) bool { uses++; use(); return false }})
		if got != want || got != sum {
			c.Failf("the reductions give %v and %v, want %v", got, want, sum)
		}
	}
	c.NonTrivial(uses > 1)
}

func TestReduction(t *testing.T) {
	vh.Check(t, vh.Types13(reduction[float64], reduction[int], reduction[int8], reduction[uint8], reduction[int32], reduction[float32], reduction[int16],
		reduction[int64], reduction[uint], reduction[uint16], reduction[uint32], reduction[uint64], reduction[uintptr]))
}

// search: the predicate of a search uses the library, also for a search of the same graph.
func search(c *vh.Case) {
	n := rapid.IntRange(1, 7).Draw(c.T, "n")
	m := vh.GenMat(c, n, n, []int{1})
	a, _ := vh.BuildAny(c, "a", m)
	src, other := vh.Uni(c, n, "source"), vh.Uni(c, n, "other")
	use := jobs[int](c, 3, a, func() vh.Mat[int] { return m })
	want, inner := searchCalls(a, src, nil), searchCalls(a, other, nil)
	uses := 0
	got := searchCalls(a, src, func() {
		uses++
		if in := searchCalls(a, other, use); in != inner {
			c.Failf("the search within calls with %v, want %v", in, inner)
		}
		use()
	})
	if got != want {
		c.Failf("the search calls with %v, want %v", got, want)
	}
	vh.Expect[int](c, "a afterwards", a, m)
	c.NonTrivial(uses > 1 && m.NNZ() > 0)
}

func TestSearch(t *testing.T) { vh.Check(t, search) }
