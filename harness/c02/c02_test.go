package c02

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// views of one matrix: enumerate it and compare with the model.
func enumerate[T constraints.Type](c *vh.Case, label string, s gb.MatrixLogical[T], m vh.Mat[T], sparse bool, extraHasNext int) {
	var z T
	seen := vh.NewMat[bool](m.R, m.C)
	n := 0
	it := s.Enumerate()
	// going on while HasNext says so, or by the number of values alone
	for steps := s.Values(); extraHasNext < 3 && it.HasNext() || extraHasNext == 3 && n < steps; {
		for k := 0; k < extraHasNext%3; k++ {
			if !it.HasNext() {
				c.Failf("%s: HasNext changes its answer", label)
			}
		}
		r, cc, v := it.Next()
		n++
		if r < 0 || r >= m.R || cc < 0 || cc >= m.C {
			c.Failf("%s: enumerated position (%d,%d) outside %dx%d", label, r, cc, m.R, m.C)
		}
		if seen.At(r, cc) {
			c.Failf("%s: position (%d,%d) enumerated twice", label, r, cc)
		}
		seen.Set(r, cc, true)
		if !vh.Same(v, m.At(r, cc)) {
			c.Failf("%s: enumerated (%d,%d,%v), element is %v", label, r, cc, v, m.At(r, cc))
		}
		if sparse && v == z {
			c.Failf("%s: sparse format enumerates the zero at (%d,%d)", label, r, cc)
		}
	}
	if it.HasNext() {
		c.Failf("%s: HasNext true after the end", label)
	}
	for i, v := range m.D {
		if v != z && !seen.D[i] {
			c.Failf("%s: element (%d,%d) = %v not enumerated", label, i/m.C, i%m.C, v)
		}
	}
	want := m.R * m.C
	if sparse {
		want = m.NNZ()
	}
	if s.Values() != want {
		c.Failf("%s: Values() = %d, want %d", label, s.Values(), want)
	}
}

func both[T constraints.Number](c *vh.Case, label string, s gb.Matrix[T], m vh.Mat[T], f vh.F, x int) {
	vh.Expect[T](c, label, s, m)
	enumerate[T](c, label, s, m, f.Sparse(), x)
}

func num[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, true)
	pal := vh.Palette[T](c, vh.AnyNaN)
	m := vh.GenMat(c, r, cc, pal)
	s, f := vh.BuildAny(c, "a", m)
	x := rapid.IntRange(0, 3).Draw(c.T, "hasnext")
	c.Class(true, f.String())
	both(c, "built", s, m, f, x)
	// iterators at once do not disturb each other
	if r*cc > 0 && rapid.IntRange(0, 3).Draw(c.T, "two") == 0 {
		its := []gb.Enumerate[T]{s.Enumerate(), s.Enumerate(), s.Enumerate()}
		seen := []vh.Mat[bool]{vh.NewMat[bool](r, cc), vh.NewMat[bool](r, cc), vh.NewMat[bool](r, cc)}
		lag := rapid.IntRange(0, 4).Draw(c.T, "lag")
		for open := true; open; {
			open = false
			for k, it := range its {
				for n := 0; n <= k*lag && it.HasNext(); n++ {
					open = true
					i, j, v := it.Next()
					if i < 0 || i >= r || j < 0 || j >= cc || seen[k].At(i, j) || !vh.Same(v, m.At(i, j)) {
						c.Failf("one of three iterators at once gives (%d,%d,%v)", i, j, v)
					}
					seen[k].Set(i, j, true)
				}
			}
		}
		for k := range its {
			for i, v := range m.D {
				if v != 0 && !seen[k].D[i] {
					c.Failf("one of three iterators at once leaves out (%d,%d) = %v", i/cc, i%cc, v)
				}
			}
		}
	}
	zeroed := 0
	for round := rapid.IntRange(1, 3).Draw(c.T, "maps"); round > 0; round-- {
		rpal := vh.Palette[T](c, vh.AnyNaN)
		pz := rapid.SampledFrom([]int{0, 60, 128, 256}).Draw(c.T, "pzero")
		res := vh.NewMat[T](r, cc)
		for i := range res.D {
			if pz < 256 && int(rapid.Byte().Draw(c.T, "z")) >= pz {
				res.D[i] = rpal[vh.Uni(c, len(rpal), "pi")]
			}
		}
		limit := -1
		if rapid.IntRange(0, 4).Draw(c.T, "partial") == 0 {
			limit = rapid.IntRange(0, 5).Draw(c.T, "limit")
		}
		c.Desc("map(%v, limit %d)", res, limit)
		seen := vh.NewMat[bool](r, cc)
		n := 0
		want := m.Clone()
		for it, steps := s.Map(), s.Values(); (x == 3 && n < steps || x < 3 && it.HasNext()) && n != limit; {
			for k := 0; k < x%3; k++ {
				if !it.HasNext() {
					c.Failf("Map: HasNext changes its answer")
				}
			}
			calls := 0
			it.Map(func(i, k int, v T) T {
				calls++
				if i < 0 || i >= r || k < 0 || k >= cc {
					c.Failf("mapped position (%d,%d) outside %dx%d", i, k, r, cc)
				}
				if seen.At(i, k) {
					c.Failf("position (%d,%d) mapped twice", i, k)
				}
				seen.Set(i, k, true)
				if !vh.Same(v, m.At(i, k)) {
					c.Failf("mapped (%d,%d,%v), element is %v", i, k, v, m.At(i, k))
				}
				if f.Sparse() && v == 0 {
					c.Failf("sparse format maps the zero at (%d,%d)", i, k)
				}
				want.Set(i, k, res.At(i, k))
				return res.At(i, k)
			})
			if calls != 1 {
				c.Failf("one step of Map calls the function %d times", calls)
			}
			n++
		}
		if limit < 0 {
			for i, v := range m.D {
				if v != 0 && !seen.D[i] {
					c.Failf("element (%d,%d) = %v not mapped", i/cc, i%cc, v)
				}
			}
		}
		for i := range m.D {
			if m.D[i] != 0 && want.D[i] == 0 {
				zeroed++
			}
		}
		m = want
		both(c, "after map", s, m, f, x)
		// the structure stays usable
		switch vh.Uni(c, 10, "turn") {
		case 0:
			c.Desc("cleared")
			s.Clear()
			m = vh.NewMat[T](r, cc)
			both(c, "after clear", s, m, f, x)
		case 1:
			c.Desc("copied")
			s = s.Copy()
			both(c, "copied", s, m, f, x)
		}
		if r*cc > 0 {
			for k := rapid.IntRange(0, 3).Draw(c.T, "sets"); k > 0; k-- {
				p := vh.Uni(c, r*cc, "pos")
				v := rapid.SampledFrom(append([]T{0}, pal...)).Draw(c.T, "v")
				c.Desc("set(%d,%d,%v)", p/cc, p%cc, v)
				s.Set(p/cc, p%cc, v)
				m.D[p] = v
			}
			both(c, "after sets", s, m, f, x)
		}
	}
	c.Class(zeroed > 0, "map to zero")
	c.Class(zeroed > 2, "map several to zero")
	c.NonTrivial(m.R*m.C > 1 && zeroed > 0)
}

func TestNumbers(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

// isSparse tells whether x has a sparse format of the library.
func isSparse[T constraints.Number](x gb.MatrixLogical[T]) bool {
	switch x.(type) {
	case *gb.CSRMatrix[T], *gb.CSCMatrix[T], *gb.SparseVector[T]:
		return true
	}
	return false
}

// derived enumerates what the operations of the library return or leave in their output: its
// elements are those that reading the positions gives.
func derived[T constraints.Number](c *vh.Case) {
	vals := vh.Any
	if rapid.Bool().Draw(c.T, "bits") {
		vals = vh.Bit
	}
	i := vh.DrawInst[T](c, vh.AllOps, 0, vals, true)
	if (i.Op == "add" || i.Op == "sub") && rapid.Bool().Draw(c.T, "cancelling") {
		for k, v := range i.S.D { // results that are zero where elements are stored
			if rapid.IntRange(0, 3).Draw(c.T, "k") != 0 {
				i.M.D[k] = v
				if i.Op == "add" {
					i.M.D[k] = -v
				}
			}
		}
	}
	i.DrawSame()
	s, m := i.Operands()
	out := i.Out()
	var mask gb.Mask
	if rapid.Bool().Draw(c.T, "masked") {
		mask, _ = vh.DrawMask(c, i.Prev.R, i.Prev.C)
	}
	var got []gb.MatrixLogical[T]
	var labels []string
	add := func(label string, x gb.MatrixLogical[T]) { got, labels = append(got, x), append(labels, label) }
	i.Run(vh.BG, s, m, mask, out)
	add(i.Op+" into "+i.FO.String(), out)
	alpha := vh.Val[T](c, vals)
	switch method := rapid.SampledFrom([]string{"add", "sub", "mul", "neg", "scalar", "transpose", "copy", "tocsr", "tocsc", "rows", "columns", "reduce"}).Draw(c.T, "method"); {
	case method == "add" && i.Binary && s.Rows() == m.Rows() && s.Columns() == m.Columns():
		add("Add", s.Add(m))
	case method == "sub" && i.Binary && s.Rows() == m.Rows() && s.Columns() == m.Columns():
		add("Subtract", s.Subtract(m))
	case method == "mul" && i.Binary && s.Columns() == m.Rows():
		add("Multiply", s.Multiply(m))
	case method == "neg":
		add("Negative", s.Negative())
	case method == "scalar" && alpha-alpha == 0:
		c.Desc("scalar %v", alpha)
		add("Scalar", s.Scalar(alpha))
	case method == "transpose":
		add("Transpose", s.Transpose())
	case method == "copy":
		add("Copy", s.Copy())
	case method == "tocsr":
		add("TransposeToCSR", gb.TransposeToCSR[T](vh.BG, s))
	case method == "tocsc":
		add("TransposeToCSC", gb.TransposeToCSC[T](vh.BG, s))
	case method == "rows" && s.Rows() > 0:
		add("RowsAt", s.RowsAt(vh.Uni(c, s.Rows(), "r")))
	case method == "columns" && s.Columns() > 0:
		add("ColumnsAt", s.ColumnsAt(vh.Uni(c, s.Columns(), "c")))
	case method == "reduce":
		add("ReduceMatrixToVector", gb.ReduceMatrixToVector[T](vh.BG, s))
	}
	held := 0
	for k, x := range got {
		w := vh.Snap[T](x)
		held += w.NNZ()
		enumerate(c, labels[k], x, w, isSparse(x), rapid.IntRange(0, 3).Draw(c.T, "hasnext"))
		c.Class(isSparse(x), labels[k]+" sparse")
		// and after a step of a map and a write
		y, ok := x.(gb.Matrix[T])
		if !ok || w.R*w.C == 0 {
			continue
		}
		once := vh.NewMat[bool](w.R, w.C)
		for n, it := 0, y.Map(); it.HasNext() && n <= w.R*w.C; n++ {
			it.Map(func(r, cc int, v T) T {
				if once.At(r, cc) || !vh.Same(v, w.At(r, cc)) || isSparse(x) && v == 0 {
					c.Failf("%s: maps (%d,%d,%v), element is %v", labels[k], r, cc, v, w.At(r, cc))
				}
				once.Set(r, cc, true)
				if (r+cc)%2 == 0 {
					v = alpha
				}
				w.Set(r, cc, v)
				return v
			})
		}
		for n, v := range w.D {
			if v != 0 && !once.D[n] {
				c.Failf("%s: (%d,%d) = %v is not mapped", labels[k], n/w.C, n%w.C, v)
			}
		}
		p := vh.Uni(c, w.R*w.C, "pos")
		y.Set(p/w.C, p%w.C, alpha)
		w.D[p] = alpha
		enumerate(c, labels[k]+" after a map and a write", x, w, isSparse(x), 0)
	}
	c.NonTrivial(held > 1)
}

// TestDerived enumerates results of operations.
func TestDerived(t *testing.T) {
	vh.Check(t, vh.Types13(derived[float64], derived[int], derived[int8], derived[uint8], derived[int32], derived[float32], derived[int16], derived[int64], derived[uint], derived[uint16], derived[uint32], derived[uint64], derived[uintptr]))
}

// TestLogical enumerates the dense formats of any element type, and what transposing,
// extraction and copying return.
func logical[T constraints.Type](c *vh.Case, pal []T) {
	r, cc := vh.Shape(c, 0, true)
	m := vh.NewMat[T](r, cc)
	var s gb.MatrixLogical[T] = gb.NewDenseMatrix[T](r, cc)
	if cc == 1 && rapid.Bool().Draw(c.T, "vec") {
		s = gb.NewDenseVector[T](r)
	}
	for i := range m.D {
		if rapid.Bool().Draw(c.T, "on") {
			m.D[i] = rapid.SampledFrom(pal).Draw(c.T, "v")
			s.Set(i/cc, i%cc, m.D[i])
		}
	}
	c.Desc("%T %v", s, m)
	enumerate(c, "dense", s, m, false, 0)
	enumerate(c, "copy", s.CopyLogical(), m, false, 1)
	enumerate(c, "transpose", s.Transpose(), m.Tr(), false, 0)
	c.NonTrivial(r != cc && r*cc > 1 && m.NNZ() > 0)
}

func TestLogical(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		if rapid.Bool().Draw(c.T, "bool") {
			logical(c, []bool{true, false})
		} else {
			logical(c, []rune{'a', 'b', 0, 0x10FFFF})
		}
	})
}

func TestMain(m *testing.M) { vh.Main(m) }
