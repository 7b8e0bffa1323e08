package c30

import (
	"fmt"
	"strings"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	"github.com/rossmerr/graphblas/sort"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// counter of formats of the user drawn in a case
type cs struct {
	*vh.Case
	users int
}

// build draws a format, of the user or of the library, and tells whether it stores zeros.
func build[T constraints.Number](c *cs, label string, m vh.Mat[T], vec bool) (x gb.Matrix[T], dense bool) {
	if vh.Uni(c.Case, 4, label+" lib") == 0 {
		if vec {
			f := vh.DVec + vh.F(vh.Uni(c.Case, 2, "f"))
			return vh.Build(c.Case, label, f, m), !f.Sparse()
		}
		x, f := vh.BuildAny(c.Case, label, m)
		return x, !f.Sparse()
	}
	c.users++
	sparse := rapid.Bool().Draw(c.T, label+" sparse")
	if m.C == 1 && !vec {
		vec = rapid.Bool().Draw(c.T, label+" vector")
	}
	c.Desc("%s=user sparse=%v vector=%v %v", label, sparse, vec, m)
	return user(m, sparse, vec, rapid.Uint64().Draw(c.T, "salt")), !sparse
}

func ops[T constraints.Number](vc *vh.Case) {
	c := &cs{Case: vc}
	op := vh.AllOps[vh.Uni(vc, len(vh.AllOps), "op")]
	c.Desc("%s", op)
	pal := vh.Palette[T](vc, vh.Exact)
	if strings.HasPrefix(op, "ew") {
		pal = []T{0, 1}
	}
	r, k := vh.Shape(vc, 9, false)
	var s, m, want vh.Mat[T]
	isVec, sVec, mVec := false, false, false
	u := func(v T) T { return v }
	switch op {
	case "mxm":
		n := vh.Dim(vc, "n", 9)
		s, m = vh.GenMat(vc, r, k, pal), vh.GenMat(vc, k, n, pal)
		want = vh.Mul(s, m)
	case "mxv":
		s, m = vh.GenMat(vc, r, k, pal), vh.GenMat(vc, k, 1, pal)
		want, isVec, mVec = vh.Mul(s, m), true, true
	case "vxm":
		s, m = vh.GenMat(vc, k, 1, pal), vh.GenMat(vc, r, k, pal)
		want, isVec, sVec = vh.Mul(m, s), true, true
	case "ewmulv", "ewaddv":
		k = 1
		isVec, sVec, mVec = true, true, true
		fallthrough
	case "add", "sub", "ewmul", "ewadd":
		s, m = vh.GenMat(vc, r, k, pal), vh.GenMat(vc, r, k, pal)
		want = vh.Zip(s, m, func(a, b T) T {
			switch op {
			case "add":
				return a + b
			case "sub":
				return a - b
			case "ewmul", "ewmulv":
				return a * b
			}
			return max(a, b)
		})
	case "neg", "apply", "transpose":
		s = vh.GenMat(vc, r, k, pal)
		switch op {
		case "neg":
			want = vh.Mapm(s, func(v T) T { return -v })
		case "transpose":
			want = s.Tr()
		case "apply":
			u = vh.DrawUnary[T](vc, pal)
		}
	}
	x, xd := build(c, "s", s, sVec)
	if op == "apply" {
		want = vh.Mapm(s, func(v T) T {
			if v != 0 || xd {
				return u(v)
			}
			return v
		})
	}
	var y gb.Matrix[T]
	if m.D != nil {
		y, _ = build(c, "m", m, mVec)
	}
	prev := vh.NewMat[T](want.R, want.C)
	var out gb.Matrix[T]
	where := 0
	if strings.Contains(" add sub ewmul ewadd ewmulv ewaddv neg apply ", " "+op+" ") {
		where = vh.Uni(vc, 5, "where")
	}
	switch {
	case where == 1:
		out, prev = x, s
		c.Desc("onto s")
	case where == 2 && y != nil:
		out, prev = y, m
		c.Desc("onto m")
	default:
		out, _ = build(c, "out", prev, isVec)
	}
	var mask gb.Mask
	marks := vh.NewMat[bool](want.R, want.C)
	if vh.Uni(vc, 3, "user mask") == 0 {
		mm := vh.GenMat(vc, want.R, want.C, vh.Palette[T](vc, vh.Exact))
		mask, _ = build(c, "mask", mm, false)
		marks = vh.Mapm(mm, func(v T) bool { return v != 0 })
	} else {
		mask, marks = vh.DrawMask(vc, want.R, want.C)
	}
	exp := vh.Zip(want, marks, func(v T, b bool) T {
		if b {
			return 0
		}
		return v
	})
	for i, b := range marks.D {
		if b {
			exp.D[i] = prev.D[i]
		}
	}
	c.NonTrivial(c.users > 0 && s.NNZ() > 0)
	vh.RunOp(vh.BG, op, x, y, mask, out, u)
	vh.Expect[T](vc, op, out, exp)
	if where != 1 {
		vh.Expect[T](vc, "s afterwards", x, s)
	}
	if y != nil && where != 2 {
		vh.Expect[T](vc, "m afterwards", y, m)
	}
}

func funcs[T constraints.Number](vc *vh.Case) {
	c := &cs{Case: vc}
	kind := vh.Uni(vc, 13, "function")
	pal := vh.Palette[T](vc, vh.Exact)
	r, k := vh.Shape(vc, 9, false)
	if kind >= 6 && kind <= 8 {
		k = r
	}
	s := vh.GenMat(vc, r, k, pal)
	if kind == 6 || kind == 7 {
		for i := 0; i < r; i++ {
			for j := 0; j < i; j++ {
				if kind == 6 {
					s.Set(i, j, s.At(j, i))
				} else {
					s.Set(i, j, -s.At(j, i))
				}
			}
			if kind == 7 {
				s.Set(i, i, 0)
			}
		}
		if rapid.Bool().Draw(vc.T, "change") {
			s.D[vh.Uni(vc, len(s.D), "at")] = pal[vh.Uni(vc, len(pal), "value")]
		}
	}
	x, _ := build(c, "s", s, false)
	bg := vh.BG
	defer func() { vh.Expect[T](vc, "s afterwards", x, s) }()
	vh.Rounds(vc, func() { vh.Rewrite[T](vc, "s", x, s, pal) }, func() {
		switch kind {
		case 0, 1: // equality
			m := s.Clone()
			if rapid.Bool().Draw(vc.T, "change") {
				m.D[vh.Uni(vc, len(m.D), "at")] = pal[vh.Uni(vc, len(pal), "value")]
			}
			y, _ := build(c, "m", m, false)
			want := true
			for i := range m.D {
				want = want && m.D[i] == s.D[i]
			}
			c.Desc("equal %v", want)
			for i, g := range []bool{x.Equal(y), y.Equal(x), !x.NotEqual(y), !y.NotEqual(x), gb.Equal[T](bg, x, y), gb.Equal[T](bg, y, x), !gb.NotEqual[T](bg, x, y)} {
				if g != want {
					c.Failf("equality %d gives %v, want %v", i, g, want)
				}
			}
		case 2:
			a := pal[vh.Uni(vc, len(pal), "alpha")]
			c.Desc("scalar %v", a)
			vh.Expect[T](vc, "Scalar", gb.Scalar[T](bg, x, a), vh.Mapm(s, func(v T) T { return v * a }))
		case 3:
			c.Desc("transpose to")
			vh.Expect[T](vc, "TransposeToCSR", gb.TransposeToCSR[T](bg, x), s.Tr())
			vh.Expect[T](vc, "TransposeToCSC", gb.TransposeToCSC[T](bg, x), s.Tr())
		case 4, 5:
			c.Desc("reduce")
			mask, marks := vh.DrawMask(vc, r, k)
			var sum T
			top := vh.NewMat[T](k, 1)
			for i, v := range s.D {
				if !marks.D[i] {
					sum += v
				}
				top.D[i%k] = max(top.D[i%k], v)
			}
			if g := gb.ReduceMatrixToScalar[T](bg, x, mask); g != sum {
				c.Failf("ReduceMatrixToScalar gives %v, want %v", g, sum)
			}
			vh.Expect[T](vc, "ReduceMatrixToVector", gb.ReduceMatrixToVector[T](bg, x), top)
		case 6:
			c.Desc("symmetric")
			want := true
			for i := range s.D {
				want = want && s.D[i] == s.Tr().D[i]
			}
			if g := symmetric.Symmetric[T](x); g != want {
				c.Failf("Symmetric gives %v", g)
			}
		case 7:
			c.Desc("skew")
			want := true
			for i := range s.D {
				want = want && s.D[i] == -s.Tr().D[i]
			}
			if g := skewsymmetric.SkewSymmetric[T](x); g != want {
				c.Failf("SkewSymmetric gives %v", g)
			}
		case 8:
			src := vh.Uni(vc, r, "source")
			c.Desc("search from %d", src)
			one := vh.Mapm(s, func(v T) T {
				if v != 0 {
					return 1
				}
				return 0
			})
			x, _ := build(c, "a", one, false)
			run := func(a gb.Matrix[T]) string {
				var b strings.Builder
				res := breadthfirst.Search[T](bg, a, src, func(v gb.Vector[T]) bool {
					fmt.Fprintln(&b, vh.Snap[T](v))
					return false
				})
				return b.String() + fmt.Sprint(vh.Snap[T](res))
			}
			if g, w := run(x), run(vh.Plain(vh.Dense, one)); g != w {
				c.Failf("Search gives\n%s, on a dense matrix\n%s", g, w)
			}
		case 9:
			c.Desc("reduced")
			vh.Expect[T](vc, "Reduced", reduced.Reduced[T](x), vh.Snap[T](reduced.Reduced[T](vh.Plain(vh.Dense, s))))
		case 10:
			m := vh.GenMat(vc, k, vh.Dim(vc, "n", 9), pal)
			y, _ := build(c, "m", m, false)
			cross := rapid.IntRange(1, 9).Draw(vc.T, "crossover")
			c.Desc("strassen %d", cross)
			vh.Expect[T](vc, "strassen", strassen.MultiplyCrossoverPoint[T](bg, x, y, cross), vh.Mul(s, m))
		case 11: // methods of one format with operands of another
			m := vh.GenMat(vc, r, k, pal)
			y, _ := build(c, "m", m, false)
			n := vh.GenMat(vc, k, vh.Dim(vc, "n", 9), pal)
			z, _ := build(c, "n", n, false)
			c.Desc("methods")
			vh.Expect[T](vc, "Add", x.Add(y), vh.Zip(s, m, func(a, b T) T { return a + b }))
			vh.Expect[T](vc, "Subtract", x.Subtract(y), vh.Zip(s, m, func(a, b T) T { return a - b }))
			vh.Expect[T](vc, "Multiply", x.Multiply(z), vh.Mul(s, n))
			vh.Expect[T](vc, "Transpose", x.Transpose(), s.Tr())
			vh.Expect[T](vc, "Negative", x.Negative(), vh.Mapm(s, func(v T) T { return -v }))
		case 12: // guarded by the mutex wrapper
			c.Desc("guarded")
			m := s.Clone()
			y, dense := build(c, "guarded", m, false)
			g := gb.NewMutexMatrix[T](y)
			for n := rapid.IntRange(1, 6).Draw(vc.T, "steps"); n > 0; n-- {
				i, j := vh.Uni(vc, r, "i"), vh.Uni(vc, k, "j")
				v := pal[vh.Uni(vc, len(pal), "v")]
				switch step := vh.Uni(vc, 12, "step"); step {
				case 0, 1:
					c.Desc("set(%d,%d,%v)", i, j, v)
					g.Set(i, j, v)
					m.Set(i, j, v)
				case 2:
					c.Desc("update(%d,%d)+%v", i, j, v)
					g.Update(i, j, func(x T) T { return x + v })
					m.Set(i, j, m.At(i, j)+v)
				case 3:
					c.Desc("map*%v", v)
					for it := g.Map(); it.HasNext(); {
						it.Map(func(_, _ int, x T) T { return x * v })
					}
					m = vh.Mapm(m, func(x T) T { return x * v })
				case 4:
					vh.Expect[T](vc, "guarded Scalar", g.Scalar(v), vh.Mapm(m, func(x T) T { return x * v }))
				case 5:
					vh.Expect[T](vc, "guarded Negative", g.Negative(), vh.Mapm(m, func(x T) T { return -x }))
				case 6:
					vh.Expect[T](vc, "guarded Transpose", g.Transpose(), m.Tr())
				case 7:
					vh.Expect[T](vc, "guarded Add", g.Add(x), vh.Zip(m, s, func(a, b T) T { return a + b }))
					vh.Expect[T](vc, "guarded Subtract", g.Subtract(x), vh.Zip(m, s, func(a, b T) T { return a - b }))
				case 8:
					o := vh.GenMat(vc, k, vh.Dim(vc, "n", 9), pal)
					z, _ := build(c, "right", o, false)
					vh.Expect[T](vc, "guarded Multiply", g.Multiply(z), vh.Mul(m, o))
				case 9:
					same := true
					for q := range m.D {
						same = same && m.D[q] == s.D[q]
					}
					if g.Equal(x) != same || g.NotEqual(x) == same {
						c.Failf("guarded: equality is not %v", same)
					}
				case 10:
					c.Desc("clear")
					g.Clear()
					m = vh.NewMat[T](r, k)
				case 11: // the copy is one's own
					o := g.Copy()
					o.Set(i, j, v)
					w := m.Clone()
					w.Set(i, j, v)
					vh.Expect(vc, "changed copy of the guarded", o, w)
				}
				if g.Rows() != r || g.Columns() != k || g.Size() != r*k || g.At(i, j) != m.At(i, j) || g.Element(i, j) != (m.At(i, j) != 0) {
					c.Failf("guarded: shape %dx%d, size %d, (%d,%d)=%v, want %dx%d, %v", g.Rows(), g.Columns(), g.Size(), i, j, g.At(i, j), r, k, m.At(i, j))
				}
				if n := g.Values(); n != y.Values() || !dense && n != m.NNZ() {
					c.Failf("guarded: %d values, the format has %d", n, y.Values())
				}
				for q, v := range g.RowsAtToArray(i) {
					if !vh.Same(v, m.At(i, q)) {
						c.Failf("guarded: row %d has %v at %d, want %v", i, v, q, m.At(i, q))
					}
				}
				if v := g.RowsAt(i).AtVec(j); !vh.Same(v, m.At(i, j)) {
					c.Failf("guarded: row %d has %v at %d, want %v", i, v, j, m.At(i, j))
				}
				if v := g.ColumnsAt(j).AtVec(i); !vh.Same(v, m.At(i, j)) {
					c.Failf("guarded: column %d has %v at %d, want %v", j, v, i, m.At(i, j))
				}
				vh.Expect[T](vc, "guarded", y, m)
			}
			// as a mask
			out := vh.NewMat[T](r, k)
			want := vh.Zip(m, s, func(a, b T) T {
				if a != 0 {
					return 0
				}
				return -b
			})
			o, _ := build(c, "out", out, false)
			gb.Negative[T](bg, x, g, o)
			vh.Expect[T](vc, "negative with a guarded mask", o, want)
		}
	})
	c.NonTrivial(c.users > 0 && s.NNZ() > 0)
}

// runes: order and sorting of matrices of runes in the formats of a user
func runes(vc *vh.Case) {
	c := &cs{Case: vc}
	r, k := vh.Shape(vc, 7, false)
	pal := []rune{0, 'a', 'b', 'é', '世', 0x10ffff, 1, rapid.SampledFrom(vh.Runes).Draw(vc.T, "rune")}
	s := vh.GenMat[rune](vc, r, k, pal)
	m := s.Clone()
	if rapid.Bool().Draw(vc.T, "other") {
		m = vh.GenMat[rune](vc, r, k, pal)
	} else {
		m.D[vh.Uni(vc, len(m.D), "at")] = pal[vh.Uni(vc, len(pal), "value")]
	}
	x, _ := build(c, "s", s, false)
	y, _ := build(c, "m", m, false)
	c.NonTrivial(c.users > 0)
	want := strings.Compare(string(s.D), string(m.D))
	if g := gb.Compare(vh.BG, x, y); g != want {
		c.Failf("Compare gives %d, want %d", g, want)
	}
	if g := gb.Less(vh.BG, x, y); g != (want < 0) {
		c.Failf("Less gives %v", g)
	}
	if g := gb.Greater(vh.BG, x, y); g != (want > 0) {
		c.Failf("Greater gives %v", g)
	}
	if g := gb.String(vh.BG, x); g != string(s.D) {
		c.Failf("String gives %q", g)
	}
	sorted := func(m vh.Mat[rune]) vh.Mat[rune] {
		m = m.Clone()
		for i := 0; i < m.R; i++ {
			for j := 0; j+1 < m.R; j++ {
				a, b := m.D[j*m.C:(j+1)*m.C], m.D[(j+1)*m.C:(j+2)*m.C]
				if string(a) > string(b) {
					t := append([]rune(nil), a...)
					copy(a, b)
					copy(b, t)
				}
			}
		}
		return m
	}
	vh.Expect[rune](vc, "BubbleRow", sort.BubbleRow(vh.BG, x), sorted(s))
	vh.Expect[rune](vc, "BubbleColumns", sort.BubbleColumns(vh.BG, x), sorted(s.Tr()).Tr())
	vh.Expect[rune](vc, "s afterwards", x, s)
}

func TestOperations(t *testing.T) {
	vh.Check(t, vh.Types13(ops[float64], ops[int], ops[int8], ops[uint8], ops[int32], ops[float32], ops[int16],
		ops[int64], ops[uint], ops[uint16], ops[uint32], ops[uint64], ops[uintptr]))
}

func TestFunctions(t *testing.T) {
	vh.Check(t, vh.Types13(funcs[float64], funcs[int], funcs[int8], funcs[uint8], funcs[int32], funcs[float32], funcs[int16],
		funcs[int64], funcs[uint], funcs[uint16], funcs[uint32], funcs[uint64], funcs[uintptr]))
}

func TestRunes(t *testing.T) { vh.Check(t, runes) }
