package c31

import (
	"math"
	"sort"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/unaryop"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

type pos struct{ r, c int }

// model of a matrix of any shape: its non-zero elements.
type model[T constraints.Number] struct {
	r, c int
	e    map[pos]T
}

func (m model[T]) set(p pos, v T) {
	if v == 0 {
		delete(m.e, p)
	} else {
		m.e[p] = v
	}
}

func (m model[T]) clone() model[T] { return m.mapped(func(_ pos, v T) T { return v }) }

func (m model[T]) mapped(f func(p pos, v T) T) model[T] {
	o := model[T]{m.r, m.c, map[pos]T{}}
	for p, v := range m.e {
		o.set(p, f(p, v))
	}
	return o
}

func (m model[T]) zip(b model[T], f func(x, y T) T) model[T] {
	o := model[T]{m.r, m.c, map[pos]T{}}
	for p, v := range m.e {
		o.set(p, f(v, b.e[p]))
	}
	for p, v := range b.e {
		o.set(p, f(m.e[p], v))
	}
	return o
}

func (m model[T]) tr() model[T] {
	o := model[T]{m.c, m.r, map[pos]T{}}
	for p, v := range m.e {
		o.e[pos{p.c, p.r}] = v
	}
	return o
}

// list gives the elements in row-major order, for descriptions and drawing.
func (m model[T]) list() []pos {
	l := make([]pos, 0, len(m.e))
	for p := range m.e {
		l = append(l, p)
	}
	sort.Slice(l, func(i, k int) bool { return l[i].r < l[k].r || l[i].r == l[k].r && l[i].c < l[k].c })
	return l
}

var wide = []int{1 << 8, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 53, 1 << 62}

// long draws an extent below a power of two that an index might be cut at, at or beyond it.
func long(c *vh.Case, label string, limit int) int {
	n := wide[vh.Uni(c, len(wide), label)]
	n += rapid.IntRange(-2, 70).Draw(c.T, label+" off")
	if rapid.IntRange(0, 9).Draw(c.T, label+" max") == 0 {
		n = math.MaxInt
	}
	if n < 1 || n > limit {
		n = 1 + vh.Uni(c, limit, label)
	}
	return n
}

// index draws an index below n: small, near the end, near a power of two, or congruent to one used before.
func index(c *vh.Case, n int, used []int) int {
	i := 0
	switch vh.Uni(c, 6, "index kind") {
	case 0:
		i = rapid.IntRange(0, 6).Draw(c.T, "i")
	case 1:
		i = n - 1 - rapid.IntRange(0, 6).Draw(c.T, "i")
	case 2:
		i = wide[vh.Uni(c, len(wide), "i")] + rapid.IntRange(-2, 2).Draw(c.T, "i")
	case 3:
		if len(used) > 0 {
			i = used[vh.Uni(c, len(used), "of")] + wide[vh.Uni(c, len(wide), "i")]
		}
	case 4:
		if len(used) > 0 {
			i = used[vh.Uni(c, len(used), "of")]
		}
	default:
		i = int(rapid.Uint64().Draw(c.T, "i") % uint64(n))
	}
	if i < 0 || i >= n {
		i = int(uint64(i) % uint64(n))
	}
	return i
}

type run[T constraints.Number] struct {
	*vh.Case
	f      vh.F
	r, c   int
	rs, cs []int
	pal    []T
}

func (u *run[T]) draw() pos {
	p := pos{index(u.Case, u.r, u.rs), 0}
	if u.c > 1 {
		p.c = index(u.Case, u.c, u.cs)
	}
	u.rs, u.cs = append(u.rs, p.r), append(u.cs, p.c)
	return p
}

func (u *run[T]) value() T { return u.pal[vh.Uni(u.Case, len(u.pal), "v")] }

// fill makes a matrix of the format and shape of the case.
func (u *run[T]) fill(label string, n int) (gb.Matrix[T], model[T]) {
	x, m := vh.Empty[T](u.f, u.r, u.c), model[T]{u.r, u.c, map[pos]T{}}
	u.Desc("%s:", label)
	for ; n > 0; n-- {
		p, v := u.draw(), u.value()
		x.Set(p.r, p.c, v)
		m.set(p, v)
		u.Desc("(%d,%d)=%v", p.r, p.c, v)
	}
	return x, m
}

// check compares x with m at the stored positions, at others, by enumeration and by count.
func (u *run[T]) check(label string, x gb.MatrixLogical[T], m model[T]) {
	if x.Rows() != m.r || x.Columns() != m.c {
		u.Failf("%s: shape %dx%d, want %dx%d", label, x.Rows(), x.Columns(), m.r, m.c)
	}
	n := 0
	seen := map[pos]bool{}
	for it := x.Enumerate(); it.HasNext(); n++ {
		r, c, v := it.Next()
		w, ok := m.e[pos{r, c}]
		if !ok || seen[pos{r, c}] || v != w {
			u.Failf("%s: enumerates (%d,%d)=%v, want %v", label, r, c, v, w)
		}
		seen[pos{r, c}] = true
	}
	if n != len(m.e) || x.Values() != n {
		u.Failf("%s: %d elements enumerated, Values is %d, want %d", label, n, x.Values(), len(m.e))
	}
	for _, r := range append([]int{0, m.r - 1}, u.rs...) {
		for _, c := range append([]int{0, m.c - 1}, u.cs...) {
			if r >= m.r || c >= m.c {
				r, c = c, r // a transposed one
			}
			if r >= m.r || c >= m.c {
				continue
			}
			if g := x.At(r, c); g != m.e[pos{r, c}] {
				u.Failf("%s: At(%d,%d) is %v, want %v", label, r, c, g, m.e[pos{r, c}])
			}
		}
	}
}

func huge[T constraints.Number](vc *vh.Case) {
	u := &run[T]{Case: vc, pal: append(vh.Palette[T](vc, vh.Exact), 0)}
	const dense = 5000 // extent of the dimension with an entry for each line
	lim := dense
	if vh.Uni(vc, 40, "many lines") == 0 {
		lim = 200000
	}
	switch vh.Uni(vc, 3, "format") {
	case 0:
		u.f, u.r, u.c = vh.SVec, long(vc, "length", math.MaxInt), 1
	case 1:
		u.f, u.r, u.c = vh.CSR, 1+vh.Uni(vc, 1+vh.Uni(vc, lim, "rows"), "rows"), long(vc, "columns", math.MaxInt)
	case 2:
		u.f, u.r, u.c = vh.CSC, long(vc, "rows", math.MaxInt), 1+vh.Uni(vc, 1+vh.Uni(vc, lim, "columns"), "columns")
	}
	u.Desc("%v %dx%d", u.f, u.r, u.c)
	x, m := u.fill("x", rapid.IntRange(0, 12).Draw(vc.T, "n"))
	u.check("filled", x, m)
	bg := vh.BG
	far := false
	for _, p := range m.list() {
		far = far || p.r > 1<<16 || p.c > 1<<16
	}
	same := func() (gb.Matrix[T], model[T]) { return u.fill("y", rapid.IntRange(0, 6).Draw(vc.T, "n")) }
	for steps := rapid.IntRange(1, 8).Draw(vc.T, "steps"); steps > 0; steps-- {
		op := vh.Uni(vc, 16, "step")
		switch op {
		case 0, 1:
			p, v := u.draw(), u.value()
			u.Desc("set (%d,%d)=%v", p.r, p.c, v)
			x.Set(p.r, p.c, v)
			m.set(p, v)
		case 2:
			p, v := u.draw(), u.value()
			u.Desc("update (%d,%d)+=%v", p.r, p.c, v)
			x.Update(p.r, p.c, func(w T) T {
				if w != m.e[p] {
					u.Failf("Update is given %v, want %v", w, m.e[p])
				}
				return w + v
			})
			m.set(p, m.e[p]+v)
		case 3:
			u.Desc("map")
			want := m.mapped(func(p pos, v T) T {
				if (p.r+p.c)%3 == 0 {
					return 0
				}
				return v + v
			})
			for it := x.Map(); it.HasNext(); {
				it.Map(func(r, c int, v T) T {
					if w := m.e[pos{r, c}]; v == 0 || v != w {
						u.Failf("Map is given (%d,%d)=%v, want %v", r, c, v, w)
					}
					return want.e[pos{r, c}]
				})
			}
			m = want
		case 4:
			u.Desc("clear")
			x.Clear()
			m = model[T]{u.r, u.c, map[pos]T{}}
		case 5:
			u.Desc("copy")
			old, was := x, m.clone()
			x = x.Copy()
			p, v := u.draw(), u.value()
			x.Set(p.r, p.c, v)
			m.set(p, v)
			u.check("copied", old, was)
		case 6:
			u.Desc("negative")
			u.check("Negative", x.Negative(), m.mapped(func(_ pos, v T) T { return -v }))
		case 7:
			a := u.value()
			u.Desc("scalar %v", a)
			u.check("Scalar", x.Scalar(a), m.mapped(func(_ pos, v T) T { return v * a }))
		case 8, 9:
			y, n := same()
			out := vh.Empty[T](u.f, u.r, u.c)
			mask, k := same()
			keep := func(o model[T]) model[T] {
				return o.mapped(func(p pos, v T) T {
					if k.e[p] != 0 {
						return 0
					}
					return v
				})
			}
			if op == 8 {
				u.Desc("add")
				want := m.zip(n, func(a, b T) T { return a + b })
				u.check("Add", x.Add(y), want)
				gb.Add[T](bg, x, y, mask, out)
				u.check("Add with mask", out, keep(want))
			} else {
				u.Desc("subtract")
				want := m.zip(n, func(a, b T) T { return a - b })
				u.check("Subtract", x.Subtract(y), want)
				gb.Subtract[T](bg, x, y, mask, out)
				u.check("Subtract with mask", out, keep(want))
			}
			u.check("operand", y, n)
		case 10:
			y, n := same()
			one := func(m model[T]) model[T] { return m.mapped(func(pos, T) T { return 1 }) }
			a, b := one(m), one(n)
			xa, xb := vh.Empty[T](u.f, u.r, u.c), vh.Empty[T](u.f, u.r, u.c)
			for p := range a.e {
				xa.Set(p.r, p.c, 1)
			}
			for p := range b.e {
				xb.Set(p.r, p.c, 1)
			}
			u.Desc("elementwise")
			and, or := vh.Empty[T](u.f, u.r, u.c), vh.Empty[T](u.f, u.r, u.c)
			gb.ElementWiseMatrixMultiply[T](bg, xa, xb, nil, and)
			gb.ElementWiseMatrixAdd[T](bg, xa, xb, nil, or)
			u.check("eWiseMult", and, a.zip(b, func(v, w T) T { return v * w }))
			u.check("eWiseAdd", or, a.zip(b, func(v, w T) T { return max(v, w) }))
			_ = y
		case 11:
			u.Desc("transpose")
			switch u.f {
			case vh.CSR: // the transposed has many rows
				u.check("TransposeToCSC", gb.TransposeToCSC[T](bg, x), m.tr())
			case vh.CSC, vh.SVec:
				u.check("TransposeToCSR", gb.TransposeToCSR[T](bg, x), m.tr())
			}
		case 12:
			y := x.Copy()
			u.Desc("equal")
			if !x.Equal(y) || !y.Equal(x) || x.NotEqual(y) {
				u.Failf("not equal to its copy")
			}
			p, v := u.draw(), u.value()
			if v != m.e[p] {
				y.Set(p.r, p.c, v)
				u.Desc("but (%d,%d)=%v", p.r, p.c, v)
				if x.Equal(y) || y.Equal(x) || !x.NotEqual(y) {
					u.Failf("equal to a matrix that differs at (%d,%d)", p.r, p.c)
				}
			}
		case 13:
			u.Desc("reduce")
			var sum T
			for _, v := range m.e {
				sum += v
			}
			if g := gb.ReduceMatrixToScalar[T](bg, x, nil); g != sum {
				u.Failf("ReduceMatrixToScalar is %v, want %v", g, sum)
			}
		case 14:
			a := u.value()
			u.Desc("apply +%v", a)
			out := vh.Empty[T](u.f, u.r, u.c)
			gb.Apply[T](bg, x, nil, unaryop.NewUnaryOp(func(v T) T { return v + a }), out)
			u.check("Apply", out, m.mapped(func(_ pos, v T) T { return v + a }))
		case 15:
			p := u.draw()
			u.Desc("lines at (%d,%d)", p.r, p.c)
			row, col := model[T]{u.c, 1, map[pos]T{}}, model[T]{u.r, 1, map[pos]T{}}
			for q, v := range m.e {
				if q.r == p.r {
					row.e[pos{q.c, 0}] = v
				}
				if q.c == p.c {
					col.e[pos{q.r, 0}] = v
				}
			}
			u.check("RowsAt", x.RowsAt(p.r), row)
			u.check("ColumnsAt", x.ColumnsAt(p.c), col)
			if x.Element(p.r, p.c) != (m.e[p] != 0) {
				u.Failf("Element(%d,%d) is wrong", p.r, p.c)
			}
		}
		u.check("afterwards", x, m)
	}
	u.Class(true, u.f.String())
	u.Class(far, "an index beyond 16 bits")
	u.NonTrivial(len(m.e) > 1 && far)
}

func TestSparse(t *testing.T) {
	vh.Check(t, vh.Types13(huge[float64], huge[int], huge[int8], huge[uint8], huge[int32], huge[float32], huge[int16],
		huge[int64], huge[uint], huge[uint16], huge[uint32], huge[uint64], huge[uintptr]))
}

// wideDense: long dense structures, and products and reductions along long dimensions.
func wideDense[T constraints.Number](c *vh.Case) {
	n := []int{1 << 15, 1 << 16, 1 << 17}[vh.Uni(c, 3, "n")] + rapid.IntRange(-2, 70).Draw(c.T, "off")
	pal := vh.Palette[T](c, vh.Positive)
	used := []int{}
	draw := func() map[int]T {
		m := map[int]T{}
		for k := rapid.IntRange(1, 8).Draw(c.T, "elements"); k > 0; k-- {
			i := index(c, n, used)
			used = append(used, i)
			m[i] = pal[vh.Uni(c, len(pal), "v")]
		}
		return m
	}
	a, b := draw(), draw()
	for i, v := range a { // so that there are common terms
		if i%2 == 0 {
			b[i] = v
		}
	}
	make1 := func(label string, m map[int]T, row bool) gb.Matrix[T] {
		f := []vh.F{vh.Dense, vh.CSR, vh.CSC, vh.DVec, vh.SVec}[vh.Uni(c, 5, label)]
		if row {
			f = []vh.F{vh.Dense, vh.CSR, vh.CSC}[vh.Uni(c, 3, label)]
		}
		c.Desc("%s %v row=%v %v", label, f, row, m)
		if row {
			x := vh.Empty[T](f, 1, n)
			for i, v := range m {
				x.Set(0, i, v)
			}
			return x
		}
		x := vh.Empty[T](f, n, 1)
		for i, v := range m {
			x.Set(i, 0, v)
		}
		return x
	}
	c.Desc("n=%d", n)
	x, y := make1("x", a, true), make1("y", b, false)
	var want, sum T
	for i, v := range a {
		want += v * b[i]
		sum += v
	}
	out := vh.Empty[T](vh.F(vh.Uni(c, 3, "out")), 1, 1)
	gb.MatrixMatrixMultiply[T](vh.BG, x, y, nil, out)
	if g := out.At(0, 0); g != want {
		c.Failf("product of %d terms is %v, want %v", n, g, want)
	}
	if g := gb.ReduceMatrixToScalar[T](vh.BG, x, nil); g != sum {
		c.Failf("sum of %d terms is %v, want %v", n, g, sum)
	}
	z := make1("z", a, false)
	tr := x.Transpose()
	for _, i := range append(used, 0, n-1) {
		if x.At(0, i) != a[i] || z.At(i, 0) != a[i] || tr.At(i, 0) != a[i] {
			c.Failf("element %d is %v in the row, %v in the column, %v in the transposed, want %v", i, x.At(0, i), z.At(i, 0), tr.At(i, 0), a[i])
		}
	}
	if !z.Equal(tr) || !tr.Equal(z) {
		c.Failf("the column and the transposed row are not equal")
	}
	c.NonTrivial(want != 0)
}

func TestLong(t *testing.T) {
	vh.Check(t, vh.Types13(wideDense[float64], wideDense[int], wideDense[int8], wideDense[uint8], wideDense[int32], wideDense[float32], wideDense[int16],
		wideDense[int64], wideDense[uint], wideDense[uint16], wideDense[uint32], wideDense[uint64], wideDense[uintptr]))
}
