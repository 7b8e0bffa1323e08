package c29

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	"github.com/rossmerr/graphblas/sort"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// obj is a matrix of the program and what it should hold.
type obj[T constraints.Number] struct {
	x gb.Matrix[T]
	m vh.Mat[T]
}

func (o *obj[T]) sparse() bool {
	switch o.x.(type) {
	case *gb.CSRMatrix[T], *gb.CSCMatrix[T], *gb.SparseVector[T]:
		return true
	}
	return false
}

func (o *obj[T]) f() vh.F {
	if o.sparse() {
		return vh.CSR
	}
	return vh.Dense
}

type prog[T constraints.Number] struct {
	c     *vh.Case
	pool  []*obj[T]
	pal   []T
	dims  []int
	wrote int // operations that changed something an earlier operation had read
	read  map[*obj[T]]bool
}

func (p *prog[T]) any(label string) *obj[T] { return p.pool[vh.Uni(p.c, len(p.pool), label)] }

// with picks an object with a property, nil if there is none.
func (p *prog[T]) with(label string, ok func(o *obj[T]) bool) *obj[T] {
	var l []*obj[T]
	for _, o := range p.pool {
		if ok(o) {
			l = append(l, o)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[vh.Uni(p.c, len(l), label)]
}

func (p *prog[T]) idx(o *obj[T]) int {
	for i, x := range p.pool {
		if x == o {
			return i
		}
	}
	return -1
}

// put adds a new object, in the place of a drawn one if the pool is full.
func (p *prog[T]) put(x gb.MatrixLogical[T], m vh.Mat[T]) {
	n, ok := x.(gb.Matrix[T])
	if !ok {
		if d := vh.Diff(x, m); d != "" {
			p.c.Failf("result: %s", d)
		}
		return
	}
	o := &obj[T]{n, m}
	if len(p.pool) < 6 {
		p.pool = append(p.pool, o)
		p.c.Desc("->#%d", len(p.pool)-1)
		return
	}
	i := vh.Uni(p.c, len(p.pool), "replace")
	p.pool[i] = o
	p.c.Desc("->#%d", i)
}

func bits[T constraints.Number](m vh.Mat[T]) bool {
	for _, v := range m.D {
		if v != 0 && v != 1 {
			return false
		}
	}
	return true
}

// small tells whether arithmetic with these stays exact.
func small[T constraints.Number](ms ...vh.Mat[T]) bool {
	if !vh.IsFloat[T]() {
		return true
	}
	for _, m := range ms {
		for _, v := range m.D {
			if f := float64(v); f > 256 || f < -256 {
				return false
			}
		}
	}
	return true
}

func (p *prog[T]) touch(os ...*obj[T]) {
	for _, o := range os {
		p.read[o] = true
	}
}

func (p *prog[T]) wr(o *obj[T]) {
	if p.read[o] {
		p.wrote++
	}
}

// mask draws one: none, or one of the objects as it is, or a fresh one.
func (p *prog[T]) mask(r, cc int) (gb.Mask, vh.Mat[bool]) {
	if vh.Uni(p.c, 3, "mask?") > 0 {
		return nil, vh.NewMat[bool](r, cc)
	}
	if o := p.with("mask", func(o *obj[T]) bool { return o.m.R == r && o.m.C == cc }); o != nil && rapid.Bool().Draw(p.c.T, "mask of the pool") {
		p.c.Desc("mask #%d", p.idx(o))
		return o.x, vh.Mapm(o.m, func(v T) bool { return v != 0 })
	}
	return vh.DrawMask(p.c, r, cc)
}

// out draws an output of a shape that is none of not, or nil.
func (p *prog[T]) out(r, cc int, not ...*obj[T]) *obj[T] {
	return p.with("out", func(o *obj[T]) bool {
		for _, n := range not {
			if n == o {
				return false
			}
		}
		return o.m.R == r && o.m.C == cc
	})
}

func (p *prog[T]) step() {
	c := p.c
	a := p.any("a")
	same := func(o *obj[T]) bool { return o.m.R == a.m.R && o.m.C == a.m.C }
	n := len(a.m.D)
	kind := vh.Uni(c, 24, "kind")
	pos := func() (int, int) { k := vh.Uni(c, n, "pos"); return k / a.m.C, k % a.m.C }
	val := func() T {
		return append([]T{0, 1}, p.pal...)[vh.Uni(c, 2+len(p.pal), "val")]
	}
	i := p.idx(a)
	switch kind {
	case 0, 1, 2:
		r, k := pos()
		v := val()
		c.Desc("set #%d(%d,%d)=%v", i, r, k, v)
		p.wr(a)
		a.x.Set(r, k, v)
		a.m.Set(r, k, v)
	case 3:
		r, k := pos()
		v := val()
		if !small(a.m) {
			return
		}
		c.Desc("update #%d(%d,%d)+=%v", i, r, k, v)
		p.wr(a)
		a.x.Update(r, k, func(o T) T { return o + v })
		a.m.Set(r, k, a.m.At(r, k)+v)
	case 4:
		if vh.Uni(c, 3, "clear") == 0 {
			c.Desc("clear #%d", i)
			p.wr(a)
			a.x.Clear()
			a.m = vh.NewMat[T](a.m.R, a.m.C)
		}
	case 5, 6:
		lim := vh.Uni(c, 8, "map how many")
		v := val()
		k := vh.Uni(c, 3, "map what")
		c.Desc("map #%d %d %v", i, k, v)
		p.wr(a)
		for it := a.x.Map(); it.HasNext() && (lim != 1); lim-- {
			it.Map(func(r, cc int, o T) T {
				w := v
				switch k {
				case 1:
					w = 0
					if (r+cc)%2 == 0 {
						w = o
					}
				case 2:
					w = o
					if o == v {
						w = 1
					}
				}
				if !vh.Same(o, a.m.At(r, cc)) {
					c.Failf("Map gives (%d,%d)=%v, want %v", r, cc, o, a.m)
				}
				a.m.Set(r, cc, w)
				return w
			})
		}
	case 7, 8, 9, 10: // entrywise with an output of the pool
		b := p.with("b", same)
		op := []string{"add", "sub", "neg", "apply", "ewadd", "ewmul"}[vh.Uni(c, 6, "op")]
		if !small(a.m, b.m) || (op == "ewadd" || op == "ewmul") && !(bits(a.m) && bits(b.m)) {
			return
		}
		o := p.out(a.m.R, a.m.C)
		un := op == "neg" || op == "apply"
		if o != a && (un || o != b) {
			c.Desc("clear #%d", p.idx(o))
			o.x.Clear()
			o.m = vh.NewMat[T](o.m.R, o.m.C)
		}
		mask, mb := p.mask(o.m.R, o.m.C)
		if mask == gb.Mask(o.x) && op == "ewadd" {
			mask, mb = nil, vh.NewMat[bool](o.m.R, o.m.C)
		}
		u := func(v T) T { return v }
		if op == "apply" {
			u = vh.DrawUnary(c, p.pal)
		}
		c.Desc("%s #%d #%d -> #%d", op, i, p.idx(b), p.idx(o))
		want := o.m.Clone()
		for k := range want.D {
			if mb.D[k] {
				continue
			}
			x, y := a.m.D[k], b.m.D[k]
			switch op {
			case "add":
				want.D[k] = x + y
			case "sub":
				want.D[k] = x - y
			case "neg":
				want.D[k] = -x
			case "apply":
				if x != 0 || !a.sparse() {
					want.D[k] = u(x)
				}
			case "ewadd":
				want.D[k] = 0
				if x != 0 || y != 0 {
					want.D[k] = 1
				}
			case "ewmul":
				want.D[k] = x * y
			}
		}
		p.wr(o)
		vh.RunOp(vh.BG, op, a.x, b.x, mask, o.x, u)
		o.m = want
		p.touch(a, b)
	case 11, 12: // products and transposition into the pool
		if vh.Uni(c, 3, "transpose") == 0 {
			o := p.out(a.m.C, a.m.R, a)
			if o == nil {
				return
			}
			mask, mb := p.mask(o.m.R, o.m.C)
			c.Desc("transpose #%d -> #%d", i, p.idx(o))
			if mask != gb.Mask(o.x) {
				o.x.Clear()
				o.m = vh.NewMat[T](o.m.R, o.m.C)
			} else {
				mask = nil
				mb = vh.NewMat[bool](o.m.R, o.m.C)
				o.x.Clear()
				o.m = vh.NewMat[T](o.m.R, o.m.C)
			}
			p.wr(o)
			vh.RunOp[T](vh.BG, "transpose", a.x, nil, mask, o.x, nil)
			t := a.m.Tr()
			for k := range t.D {
				if !mb.D[k] {
					o.m.D[k] = t.D[k]
				}
			}
			p.touch(a)
			return
		}
		b := p.with("b", func(o *obj[T]) bool { return o.m.R == a.m.C })
		if b == nil || !small(a.m, b.m) {
			return
		}
		o := p.out(a.m.R, b.m.C, a, b)
		if o == nil {
			return
		}
		mask, mb := p.mask(o.m.R, o.m.C)
		c.Desc("multiply #%d #%d -> #%d", i, p.idx(b), p.idx(o))
		t := vh.Mul(a.m, b.m)
		p.wr(o)
		_, v1 := vh.TryVec(b.x)
		_, v2 := vh.TryVec(o.x)
		if v1 && v2 && rapid.Bool().Draw(c.T, "mxv") {
			vh.RunOp[T](vh.BG, "mxv", a.x, b.x, mask, o.x, nil)
		} else {
			vh.RunOp[T](vh.BG, "mxm", a.x, b.x, mask, o.x, nil)
		}
		for k := range t.D {
			if !mb.D[k] {
				o.m.D[k] = t.D[k]
			}
		}
		p.touch(a, b)
	case 13, 14, 15: // methods with a result of their own
		b := p.with("b", same)
		m := vh.Uni(c, 8, "method")
		c.Desc("method %d of #%d (#%d)", m, i, p.idx(b))
		if !small(a.m, b.m) {
			m = 0
		}
		p.touch(a, b)
		switch m {
		case 0:
			p.put(a.x.Copy(), a.m.Clone())
		case 1:
			p.put(a.x.CopyLogical(), a.m.Clone())
		case 2:
			p.put(a.x.Add(b.x), vh.Zip(a.m, b.m, func(x, y T) T { return x + y }))
		case 3:
			p.put(a.x.Subtract(b.x), vh.Zip(a.m, b.m, func(x, y T) T { return x - y }))
		case 4:
			p.put(a.x.Negative(), vh.Mapm(a.m, func(x T) T { return -x }))
		case 5:
			v := val()
			p.put(a.x.Scalar(v), vh.Mapm(a.m, func(x T) T { return v * x }))
		case 6:
			p.put(a.x.Transpose(), a.m.Tr())
		case 7:
			if d := p.with("d", func(o *obj[T]) bool { return o.m.R == a.m.C }); d != nil && small(d.m) {
				c.Desc("times #%d", p.idx(d))
				p.touch(d)
				p.put(a.x.Multiply(d.x), vh.Mul(a.m, d.m))
			}
		}
	case 16: // lines
		r, k := pos()
		if rapid.Bool().Draw(c.T, "row") {
			c.Desc("row %d of #%d", r, i)
			want := vh.NewMat[T](a.m.C, 1)
			copy(want.D, a.m.D[r*a.m.C:(r+1)*a.m.C])
			for j, v := range a.x.RowsAtToArray(r) {
				if !vh.Same(v, want.D[j]) {
					c.Failf("RowsAtToArray(%d)[%d] = %v, want %v", r, j, v, want)
				}
			}
			x := a.x.RowsAt(r)
			p.touch(a)
			if x.Rows() == want.R { // a row may lie or stand
				p.put(x, want)
			} else if d := vh.Diff[T](x, want.Tr()); d != "" {
				c.Failf("RowsAt(%d): %s", r, d)
			}
			return
		}
		c.Desc("column %d of #%d", k, i)
		want := vh.NewMat[T](a.m.R, 1)
		for r := range want.D {
			want.D[r] = a.m.At(r, k)
		}
		p.touch(a)
		p.put(a.x.ColumnsAt(k), want)
	case 17: // equality
		b := p.any("b")
		c.Desc("#%d == #%d", i, p.idx(b))
		want := a.m.R == b.m.R && a.m.C == b.m.C
		for k := 0; want && k < n; k++ {
			want = a.m.D[k] == b.m.D[k]
		}
		if g := a.x.Equal(b.x); g != want {
			c.Failf("Equal = %v: %v, %v", g, a.m, b.m)
		}
		if g := gb.NotEqual[T](vh.BG, b.x, a.x); g == want {
			c.Failf("NotEqual = %v: %v, %v", g, b.m, a.m)
		}
		p.touch(a, b)
	case 18: // reductions
		if !small(a.m) {
			return
		}
		mask, mb := p.mask(a.m.R, a.m.C)
		c.Desc("reduce #%d", i)
		sum, most := T(0), vh.MinOf[T]()
		for k, v := range a.m.D {
			if !mb.D[k] && (v != 0 || !a.sparse()) {
				sum += v
				most = max(most, v)
			}
		}
		if g := gb.ReduceMatrixToScalar[T](vh.BG, a.x, mask); !vh.Same(g, sum) {
			c.Failf("ReduceMatrixToScalar = %v, want %v: %v", g, sum, a.m)
		}
		id := binaryop.NewMonoID(vh.MinOf[T](), binaryop.Maximum[T]())
		if g := gb.ReduceMatrixToScalarWithMonoID[T](vh.BG, a.x, id, mask); !vh.Same(g, most) {
			c.Failf("ReduceMatrixToScalarWithMonoID(max) = %v, want %v: %v", g, most, a.m)
		}
		p.touch(a)
		tops := vh.NewMat[T](a.m.C, 1)
		for k, v := range a.m.D {
			tops.D[k%a.m.C] = max(tops.D[k%a.m.C], v)
		}
		p.put(gb.ReduceMatrixToVector[T](vh.BG, a.x), tops)
	case 19: // predicates
		c.Desc("symmetric #%d", i)
		sy, sk := a.m.R == a.m.C, a.m.R == a.m.C
		for k := 0; sy && k < n; k++ {
			sy = a.m.D[k] == a.m.At(k%a.m.C, k/a.m.C)
		}
		for k := 0; sk && k < n; k++ {
			sk = a.m.D[k] == -a.m.At(k%a.m.C, k/a.m.C)
		}
		if g := symmetric.Symmetric[T](a.x); g != sy {
			c.Failf("Symmetric = %v: %v", g, a.m)
		}
		if g := skewsymmetric.SkewSymmetric[T](a.x); g != sk {
			c.Failf("SkewSymmetric = %v: %v", g, a.m)
		}
		p.touch(a)
	case 20: // Strassen
		b := p.with("b", func(o *obj[T]) bool { return o.m.R == a.m.C })
		if b == nil || !small(a.m, b.m) || vh.IsFloat[T]() && n > 36 {
			return
		}
		x := rapid.IntRange(1, 3).Draw(c.T, "crossover")
		c.Desc("strassen #%d #%d", i, p.idx(b))
		p.touch(a, b)
		p.put(strassen.MultiplyCrossoverPoint[T](vh.BG, a.x, b.x, x), vh.Mul(a.m, b.m))
	case 21: // the vertices at distance one from a source
		if a.m.R != a.m.C || !bits(a.m) {
			return
		}
		s := vh.Uni(c, a.m.R, "source")
		c.Desc("search #%d from %d", i, s)
		want := vh.NewMat[T](a.m.R, 1)
		for r := range want.D {
			if r != s {
				want.D[r] = a.m.At(r, s)
			}
		}
		p.touch(a)
		p.put(breadthfirst.Search[T](vh.BG, a.x, s, func(gb.Vector[T]) bool { return true }), want)
	case 22: // conversion
		c.Desc("convert #%d", i)
		p.touch(a)
		if rapid.Bool().Draw(c.T, "csr") {
			p.put(gb.TransposeToCSR[T](vh.BG, a.x), a.m.Tr())
		} else {
			p.put(gb.TransposeToCSC[T](vh.BG, a.x), a.m.Tr())
		}
	case 23: // runes
		ra, ok := any(a.x).(gb.MatrixLogical[rune])
		if !ok {
			return
		}
		for _, v := range a.m.D {
			if v < 0 || float64(v) > 0xD7FF {
				return
			}
		}
		c.Desc("sort #%d", i)
		res := vh.Snap[rune](sort.BubbleRow(vh.BG, ra))
		for r := 0; r+1 < res.R; r++ {
			for k := 0; k < res.C; k++ {
				if x, y := res.At(r, k), res.At(r+1, k); x < y {
					break
				} else if x > y {
					c.Failf("BubbleRow: %v of %v", res, a.m)
				}
			}
		}
		p.touch(a)
	}
}

func num[T constraints.Number](c *vh.Case) {
	p := &prog[T]{c: c, read: map[*obj[T]]bool{}}
	if vh.IsFloat[T]() {
		for k := rapid.IntRange(1, 4).Draw(c.T, "npal"); k > 0; k-- {
			p.pal = append(p.pal, T(rapid.IntRange(-3, 3).Draw(c.T, "pal")))
		}
	} else if rapid.Bool().Draw(c.T, "bits") {
		p.pal = []T{1}
	} else {
		p.pal = vh.Palette[T](c, vh.Any)
	}
	most := 5
	if vh.Uni(c, 6, "large") == 0 {
		most = 13
	}
	r := 1 + vh.Uni(c, most, "r")
	k := r
	if rapid.Bool().Draw(c.T, "not square") {
		k = 1 + vh.Uni(c, most, "c")
	}
	shapes := [][2]int{{r, k}, {r, k}, {k, r}, {r, r}, {k, 1}}
	for _, s := range shapes {
		m := vh.GenMat(c, s[0], s[1], p.pal)
		x, _ := vh.BuildAny(c, "new", m)
		p.pool = append(p.pool, &obj[T]{x, m})
	}
	steps := rapid.IntRange(3, 24).Draw(c.T, "steps")
	if vh.Deep {
		steps *= 3
	}
	for n := 0; n < steps; n++ {
		p.step()
		for i, o := range p.pool {
			if d := vh.Diff[T](o.x, o.m); d != "" {
				c.Failf("after step %d, #%d: %s", n, i, d)
			}
		}
		o := p.pool[n%len(p.pool)]
		vh.CheckStore(c, "enumeration", o.x, o.f(), o.m)
		if nnz := o.m.NNZ(); o.sparse() && o.x.Values() != nnz {
			c.Failf("after step %d, #%d: Values = %d, want %d", n, p.idx(o), o.x.Values(), nnz)
		}
	}
	c.Class(p.wrote > 0, "changed after it was read")
	c.Class(p.wrote > 3, "changed after it was read more than three times")
	c.NonTrivial(p.wrote > 1)
}

func TestPrograms(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
