package c14

import (
	"math"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/strassen"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// bad draws an index outside 0..n-1.
func bad(c *vh.Case, label string, n int) int {
	k := rapid.SampledFrom([]int{-1, n, n + 1, -n, -2, math.MaxInt, math.MinInt, math.MaxInt32, -n - 1, 2 * n, 1 << 32}).Draw(c.T, label)
	if k >= 0 && k < n {
		return n
	}
	return k
}

// pos draws a position outside the shape: row, column or both are outside.
func pos(c *vh.Case, r, cc int) (int, int) {
	which := rapid.IntRange(0, 3).Draw(c.T, "which")
	if which == 3 && r != cc { // the mirrored position exists
		i, k := max(r, cc)-1, 0
		if r > cc {
			return k, i
		}
		return i, k
	}
	if r == 0 || (which == 2 && cc > 0) {
		which = 2
	} else if cc == 0 || which == 3 {
		which = 1
	}
	i, k := 0, 0
	if which != 1 { // bad row
		i = bad(c, "badr", r)
	} else {
		i = vh.Uni(c, r, "okr")
	}
	if which != 2 || cc == 0 {
		k = bad(c, "badc", cc)
	} else {
		k = vh.Uni(c, cc, "okc")
	}
	if which == 0 && rapid.Bool().Draw(c.T, "flip") && cc > 0 {
		k = vh.Uni(c, cc, "okc2")
	}
	return i, k
}

func rejects(c *vh.Case, what string, f func()) {
	if p, _ := vh.Panics(f); !p {
		c.Failf("%s was accepted", what)
	}
}

func logical[T constraints.Type](c *vh.Case, s gb.MatrixLogical[T], v T) {
	r, cc := s.Rows(), s.Columns()
	for n := rapid.IntRange(1, 4).Draw(c.T, "tries"); n > 0; n-- {
		i, k := pos(c, r, cc)
		c.Desc("(%d,%d)", i, k)
		rejects(c, "At", func() { s.At(i, k) })
		rejects(c, "Set", func() { s.Set(i, k, v) })
		rejects(c, "Update", func() { s.Update(i, k, func(T) T { return v }) })
		if m, ok := s.(gb.Mask); ok {
			rejects(c, "Element", func() { m.Element(i, k) })
		}
		if x, ok := s.(interface {
			SetReturnPointer(r, c int, value T) (int, int)
			UpdateReturnPointer(r, c int, f func(T) T) (int, int)
		}); ok {
			rejects(c, "SetReturnPointer", func() { x.SetReturnPointer(i, k, v) })
			rejects(c, "UpdateReturnPointer", func() { x.UpdateReturnPointer(i, k, func(T) T { return v }) })
		}
		b := bad(c, "bad row", r)
		c.Desc("row %d", b)
		rejects(c, "RowsAt", func() { s.RowsAt(b) })
		rejects(c, "RowsAtToArray", func() { s.RowsAtToArray(b) })
		b = bad(c, "bad column", cc)
		c.Desc("column %d", b)
		rejects(c, "ColumnsAt", func() { s.ColumnsAt(b) })
		if x, ok := s.(gb.VectorLogial[T]); ok {
			b = bad(c, "bad index", x.Length())
			c.Desc("index %d", b)
			rejects(c, "AtVec", func() { x.AtVec(b) })
			rejects(c, "SetVec", func() { x.SetVec(b, v) })
		}
	}
}

func access[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, true)
	m := vh.GenMat(c, r, cc, vh.Palette[T](c, vh.Exact))
	s, f := vh.BuildAny(c, "s", m)
	v := vh.Val[T](c, vh.Any)
	n := s.Values()
	logical[T](c, s, v)
	logical[T](c, s, 0)
	vh.Expect[T](c, "after rejected calls", s, m)
	if s.Values() != n || s.Size() != r*cc {
		c.Failf("number of values %d and size %d after rejected calls, want %d and %d", s.Values(), s.Size(), n, r*cc)
	}
	seen := 0
	for it := s.Enumerate(); it.HasNext(); {
		i, k, x := it.Next()
		if !vh.Same(x, m.At(i, k)) {
			c.Failf("enumeration after rejected calls yields %v at (%d,%d), want %v", x, i, k, m.At(i, k))
		}
		seen++
	}
	if seen != n {
		c.Failf("enumeration after rejected calls yields %d elements, want %d", seen, n)
	}
	// and the derived vectors
	if r > 0 && cc > 0 {
		i, k := vh.Uni(c, r, "row"), vh.Uni(c, cc, "col")
		logical[T](c, s.RowsAt(i), v)
		logical[T](c, s.ColumnsAt(k), v)
		// the corners are accepted
		s.Set(r-1, cc-1, v)
		s.Update(0, 0, func(x T) T { return x })
		if x := s.At(r-1, cc-1); !vh.Same(x, v) {
			c.Failf("last position = %v, want %v", x, v)
		}
	}
	c.Class(true, f.String())
	c.NonTrivial(m.NNZ() > 0 && r != cc)
}

func TestAccess(t *testing.T) {
	vh.Check(t, vh.Types13(access[float64], access[int], access[int8], access[uint8], access[int32], access[float32], access[int16], access[int64], access[uint], access[uint16], access[uint32], access[uint64], access[uintptr]))
}

func plain[T constraints.Type](v, w T) func(c *vh.Case) {
	return func(c *vh.Case) {
		r, cc := vh.Shape(c, 0, true)
		var s gb.MatrixLogical[T] = gb.NewDenseMatrix[T](r, cc)
		if cc == 1 && rapid.Bool().Draw(c.T, "vec") {
			s = gb.NewDenseVector[T](r)
		}
		c.Desc("plain %T %dx%d", s, r, cc)
		m := vh.NewMat[T](r, cc)
		for k := range m.D {
			if rapid.Bool().Draw(c.T, "on") {
				m.D[k] = v
				s.Set(k/cc, k%cc, v)
			}
		}
		logical(c, s, w)
		vh.Expect(c, "after rejected calls", s, m)
		c.NonTrivial(m.NNZ() > 0 && r != cc)
	}
}

func TestPlain(t *testing.T) {
	fs := []func(c *vh.Case){plain(true, true), plain('a', 'b'), plain(1.5, 2.5), plain(uint8(1), 2)}
	vh.Check(t, func(c *vh.Case) { fs[vh.Uni(c, len(fs), "kind")](c) })
}

// wrong draws a shape other than r x cc, often of the same size or mirrored.
func wrong(c *vh.Case, r, cc int) (int, int) {
	for {
		a, b := r, cc
		switch rapid.IntRange(0, 8).Draw(c.T, "wrong") {
		case 0, 1:
			a, b = cc, r
		case 2:
			a++
		case 3:
			a--
		case 4:
			b++
		case 5:
			b--
		case 6:
			a, b = r*cc, 1
		case 7:
			a, b = 1, 1
		case 8:
			a, b = a+1, b+1
		}
		if a >= 0 && b >= 0 && (a != r || b != cc) {
			return a, b
		}
	}
}

func shapes[T constraints.Number](c *vh.Case) {
	i := vh.DrawInst[T](c, vh.AllOps, 0, vh.Exact, true)
	pal := vh.Palette[T](c, vh.Exact)
	vec := i.Op == "mxv" || i.Op == "vxm" || i.Op == "ewmulv" || i.Op == "ewaddv"
	badMask := !i.Binary || rapid.IntRange(0, 2).Draw(c.T, "what") == 0
	var mask gb.Mask
	var marks vh.Mat[bool]
	var mm vh.Mat[int8]
	if badMask {
		a, b := wrong(c, i.Prev.R, i.Prev.C)
		mm = vh.GenMat(c, a, b, []int8{1})
		if rapid.IntRange(0, 2).Draw(c.T, "empty mask") == 0 {
			mask = gb.NewEmptyMask(a, b)
			mm = vh.NewMat[int8](a, b)
		} else {
			mask, _ = vh.BuildAny(c, "mask", mm)
		}
		c.Desc("mask %dx%d for output %dx%d", a, b, i.Prev.R, i.Prev.C)
	} else {
		// one operand of another shape
		left := rapid.Bool().Draw(c.T, "left")
		x, f := &i.M, &i.FM
		if left {
			x, f = &i.S, &i.FS
		}
		a, b := x.R, x.C
		switch i.Op {
		case "mxm", "mxv", "vxm":
			// the inner dimensions differ
			d := rapid.SampledFrom([]int{1, -1, 2}).Draw(c.T, "d")
			inner := &a
			if left {
				inner = &b
			}
			if i.Op == "vxm" {
				inner = &a
				if !left {
					inner = &b
				}
			}
			if *inner += d; *inner < 1 {
				*inner += 2
			}
			// two operands of one shape, not square
			if i.Op == "mxm" && rapid.IntRange(0, 2).Draw(c.T, "same") == 0 && i.S.R != i.S.C {
				x, f, a, b = &i.M, &i.FM, i.S.R, i.S.C
				i.Prev = vh.NewMat[T](i.S.R, i.S.C)
				i.FO = vh.PickF(c, "FO", i.S.C)
			}
		default:
			a, b = wrong(c, a, b)
			if vec {
				b = 1
				if a == x.R {
					a++
				}
			}
		}
		isVec := i.Op == "mxv" && !left || i.Op == "vxm" && left || i.Op == "ewmulv" || i.Op == "ewaddv"
		*x = vh.GenMat(c, a, b, pal)
		if isVec {
			*f = vh.DVec + vh.F(rapid.IntRange(0, 1).Draw(c.T, "F"))
		} else {
			*f = vh.PickF(c, "F", b)
		}
		if rapid.Bool().Draw(c.T, "mask") {
			mask, marks = vh.DrawMask(c, i.Prev.R, i.Prev.C)
		}
	}
	s, m := i.Operands()
	out := i.Out()
	c.Desc("into %v %v", i.FO, i.Prev)
	var elems vh.Mat[bool]
	if mask != nil {
		elems = vh.NewMat[bool](mask.Rows(), mask.Columns())
		for k := range elems.D {
			elems.D[k] = mask.Element(k/elems.C, k%elems.C)
		}
	}
	_ = marks
	rejects(c, i.Op, func() { i.Run(vh.BG, s, m, mask, out) })
	vh.Expect[T](c, "output after the rejected call", out, i.Prev)
	vh.Expect[T](c, "left operand after the rejected call", s, i.S)
	if i.Binary {
		vh.Expect[T](c, "right operand after the rejected call", m, i.M)
	}
	for k := range elems.D {
		if mask.Element(k/elems.C, k%elems.C) != elems.D[k] {
			c.Failf("mask changed at %d", k)
		}
	}
	if i.Binary && !badMask {
		switch i.Op {
		case "mxm", "mxv":
			rejects(c, "Multiply", func() { s.Multiply(m) })
			rejects(c, "strassen.Multiply", func() { strassen.Multiply[T](vh.BG, s, m) })
			x := rapid.IntRange(1, 4).Draw(c.T, "crossover")
			rejects(c, "strassen.MultiplyCrossoverPoint", func() { strassen.MultiplyCrossoverPoint[T](vh.BG, s, m, x) })
		case "add":
			rejects(c, "method Add", func() { s.Add(m) })
			rejects(c, "method Add", func() { m.Add(s) })
		case "sub":
			rejects(c, "method Subtract", func() { s.Subtract(m) })
			rejects(c, "method Subtract", func() { m.Subtract(s) })
		}
		vh.Expect[T](c, "left operand after rejected methods", s, i.S)
		vh.Expect[T](c, "right operand after rejected methods", m, i.M)
		if s.Equal(m) && (i.S.R != i.M.R || i.S.C != i.M.C) {
			c.Failf("operands of different shape are equal")
		}
	}
	c.Class(true, i.Op)
	c.Class(badMask, "mask of a wrong shape")
	c.NonTrivial(i.S.NNZ() > 0 && i.S.R*i.S.C > 1)
}

func TestShapes(t *testing.T) {
	vh.Check(t, vh.Types13(shapes[float64], shapes[int], shapes[int8], shapes[uint8], shapes[int32], shapes[float32], shapes[int16], shapes[int64], shapes[uint], shapes[uint16], shapes[uint32], shapes[uint64], shapes[uintptr]))
}

func reductions[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, false)
	m := vh.GenMat(c, r, cc, vh.Palette[T](c, vh.Exact))
	s, _ := vh.BuildAny(c, "s", m)
	a, b := wrong(c, r, cc)
	mm := vh.GenMat(c, a, b, []int8{1})
	mask, _ := vh.BuildAny(c, "mask", mm)
	id := gb.DefaultMonoIDAddition[T]()
	rejects(c, "ReduceMatrixToScalar", func() { gb.ReduceMatrixToScalar[T](vh.BG, s, mask) })
	rejects(c, "ReduceMatrixToScalarWithMonoID", func() { gb.ReduceMatrixToScalarWithMonoID[T](vh.BG, s, id, mask) })
	if v, ok := s.(gb.VectorLogial[T]); ok {
		rejects(c, "ReduceVectorToScalar", func() { gb.ReduceVectorToScalar[T](vh.BG, v, mask) })
		rejects(c, "ReduceVectorToScalarWithMonoID", func() { gb.ReduceVectorToScalarWithMonoID[T](vh.BG, v, id, mask) })
	}
	if a != r || b != 1 {
		rejects(c, "ReduceMatrixToVectorWithMonoID", func() { gb.ReduceMatrixToVectorWithMonoID[T](vh.BG, s, id, mask) })
	}
	if cc != 1 { // the mask of a column reduction is a column
		full := gb.NewEmptyMask(r, cc)
		rejects(c, "ReduceMatrixToVectorWithMonoID with a mask of the matrix's shape", func() { gb.ReduceMatrixToVectorWithMonoID[T](vh.BG, s, id, full) })
	}
	vh.Expect[T](c, "operand after rejected reductions", s, m)
	vh.Expect[int8](c, "mask after rejected reductions", mask, mm)
	c.NonTrivial(m.NNZ() > 0 && r*cc > 1)
}

func TestReductions(t *testing.T) {
	vh.Check(t, vh.Types13(reductions[float64], reductions[int], reductions[int8], reductions[uint8], reductions[int32], reductions[float32], reductions[int16], reductions[int64], reductions[uint], reductions[uint16], reductions[uint32], reductions[uint64], reductions[uintptr]))
}

// resized checks vectors whose length changed since they were last used: the
// length of the moment decides what is rejected, never an earlier one.
func resized[T constraints.Number](c *vh.Case) {
	pal := vh.Palette[T](c, vh.Exact)
	draw := func(n int) vh.Mat[T] { return vh.GenMat(c, n, 1, pal) }
	n := rapid.IntRange(1, 8).Draw(c.T, "n")
	w := draw(n)
	v := gb.NewDenseVectorN[T](n)
	for k, x := range w.D {
		v.SetVec(k, x)
	}
	c.Desc("vector %v", w.D)
	lengths := []int{n}
	held := false
	for steps := rapid.IntRange(1, 4).Draw(c.T, "steps"); steps > 0; steps-- {
		held = held || w.NNZ() > 0
		n = rapid.IntRange(0, 10).Draw(c.T, "to")
		c.Desc("resize to %d", n)
		v.ReSize(n)
		d := vh.NewMat[T](n, 1)
		copy(d.D, w.D)
		w = d
		// the positions of earlier lengths
		for _, l := range lengths {
			for _, k := range []int{l - 1, l} {
				if k < n || k < 0 {
					continue
				}
				rejects(c, "AtVec", func() { v.AtVec(k) })
				rejects(c, "SetVec", func() { v.SetVec(k, 1) })
				rejects(c, "At", func() { v.At(k, 0) })
				rejects(c, "Set", func() { v.Set(k, 0, 1) })
				rejects(c, "Update", func() { v.Update(k, 0, func(T) T { return 1 }) })
				rejects(c, "Element", func() { v.Element(k, 0) })
				rejects(c, "RowsAt", func() { v.RowsAt(k) })
				rejects(c, "RowsAtToArray", func() { v.RowsAtToArray(k) })
			}
		}
		logical[T](c, v, 1)
		vh.Expect[T](c, "after rejected calls", v, w)
		// operands, masks and outputs of an earlier length are of another shape
		l := lengths[vh.Uni(c, len(lengths), "earlier")]
		if l != n && n > 0 && l > 0 {
			om := draw(l)
			var o gb.Vector[T] = gb.NewSparseVector[T](l)
			if rapid.Bool().Draw(c.T, "dense") {
				o = gb.NewDenseVectorN[T](l)
			}
			for k, x := range om.D {
				if x != 0 {
					o.SetVec(k, x)
				}
			}
			c.Desc("with a vector %v", om.D)
			fresh := func(n int) gb.Vector[T] { return gb.NewDenseVectorN[T](n) }
			id := gb.DefaultMonoIDAddition[T]()
			same := draw(n)
			var u gb.Vector[T] = gb.NewDenseVectorN[T](n)
			for k, x := range same.D {
				u.SetVec(k, x)
			}
			rejects(c, "Add", func() { gb.Add[T](vh.BG, v, o, nil, fresh(n)) })
			rejects(c, "Add", func() { gb.Add[T](vh.BG, o, v, nil, fresh(l)) })
			rejects(c, "Subtract", func() { gb.Subtract[T](vh.BG, v, o, nil, fresh(n)) })
			rejects(c, "Subtract", func() { gb.Subtract[T](vh.BG, o, v, nil, fresh(l)) })
			rejects(c, "method Add", func() { v.Add(o) })
			rejects(c, "method Add", func() { o.Add(v) })
			rejects(c, "method Subtract", func() { v.Subtract(o) })
			rejects(c, "method Subtract", func() { o.Subtract(v) })
			rejects(c, "ElementWiseMatrixMultiply", func() { gb.ElementWiseMatrixMultiply[T](vh.BG, v, o, nil, fresh(n)) })
			rejects(c, "ElementWiseVectorMultiply", func() { gb.ElementWiseVectorMultiply[T](vh.BG, o, v, nil, fresh(l)) })
			rejects(c, "ElementWiseMatrixAdd", func() { gb.ElementWiseMatrixAdd[T](vh.BG, v, o, nil, fresh(n)) })
			rejects(c, "ElementWiseVectorAdd", func() { gb.ElementWiseVectorAdd[T](vh.BG, o, v, nil, fresh(l)) })
			a := gb.NewCSRMatrix[T](2, l)
			a.Set(0, 0, 1)
			rejects(c, "MatrixVectorMultiply", func() { gb.MatrixVectorMultiply[T](vh.BG, a, v, nil, fresh(2)) })
			// as a mask
			rejects(c, "Add with the vector as mask", func() { gb.Add[T](vh.BG, o, o, v, fresh(l)) })
			rejects(c, "Negative with the vector as mask", func() { gb.Negative[T](vh.BG, o, v, fresh(l)) })
			rejects(c, "a reduction with the vector as mask", func() { gb.ReduceVectorToScalarWithMonoID[T](vh.BG, o, id, v) })
			rejects(c, "a reduction of the vector with an earlier mask", func() { gb.ReduceVectorToScalar[T](vh.BG, v, o) })
			if v.Equal(o) || o.Equal(v) || gb.Equal[T](vh.BG, v, o) || !gb.NotEqual[T](vh.BG, o, v) {
				c.Failf("vectors of %d and %d elements are equal", n, l)
			}
			vh.Expect[T](c, "the vector after rejected operations", v, w)
			vh.Expect[T](c, "the other vector after rejected operations", o, om)
			// and those of the present length are accepted
			out := fresh(n)
			gb.Add[T](vh.BG, v, u, nil, out)
			sum := vh.NewMat[T](n, 1)
			for k := range sum.D {
				sum.D[k] = w.D[k] + same.D[k]
			}
			vh.Expect[T](c, "sum at the present length", out, sum)
			gb.Negative[T](vh.BG, u, v, out)
		}
		lengths = append(lengths, n)
		if n > 0 && rapid.Bool().Draw(c.T, "write") {
			k := vh.Uni(c, n, "k")
			x := pal[vh.Uni(c, len(pal), "x")]
			c.Desc("set %d to %v", k, x)
			v.SetVec(k, x)
			w.D[k] = x
		}
	}
	c.NonTrivial(held && len(lengths) > 2)
}

func TestResized(t *testing.T) {
	vh.Check(t, vh.Types13(resized[float64], resized[int], resized[int8], resized[uint8], resized[int32], resized[float32], resized[int16], resized[int64], resized[uint], resized[uint16], resized[uint32], resized[uint64], resized[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
