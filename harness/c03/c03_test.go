package c03

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func vec[T constraints.Type](c *vh.Case, label string, v gb.VectorLogial[T], want []T) {
	if v.Length() != len(want) || v.Rows() != len(want) || v.Columns() != 1 || v.Size() != len(want) {
		c.Failf("%s: length %d shape %dx%d, want length %d", label, v.Length(), v.Rows(), v.Columns(), len(want))
	}
	for i, w := range want {
		if g := v.AtVec(i); !vh.Same(g, w) {
			c.Failf("%s: AtVec(%d) = %v, want %v", label, i, g, w)
		}
		if g := v.At(i, 0); !vh.Same(g, w) {
			c.Failf("%s: At(%d,0) = %v, want %v", label, i, g, w)
		}
	}
	var z T
	left := len(want)
	got := make([]T, len(want))
	for it := v.Enumerate(); it.HasNext() && left >= 0; left-- {
		r, _, x := it.Next()
		if r < 0 || r >= len(want) {
			c.Failf("%s: enumerates index %d of %d", label, r, len(want))
		}
		if x != z {
			got[r] = x
		}
	}
	for i, w := range want {
		if !vh.Same(got[i], w) {
			c.Failf("%s: enumerated %v at %d, want %v", label, got[i], i, w)
		}
	}
}

func extract[T constraints.Type](c *vh.Case, s gb.MatrixLogical[T], m vh.Mat[T]) {
	vh.Expect(c, "matrix", s, m)
	// in any order: the last row or column taken before may be the first now
	order := vh.Uni(c, 3, "order")
	at := func(i, n int) int {
		switch order {
		case 1:
			return n - 1 - i
		case 2:
			return (i + n/2) % n
		}
		return i
	}
	rows := func() {
		for i := 0; i < m.R; i++ {
			r := at(i, m.R)
			want := m.D[r*m.C : (r+1)*m.C]
			vec(c, "RowsAt", s.RowsAt(r), want)
			a := s.RowsAtToArray(r)
			if len(a) != m.C {
				c.Failf("RowsAtToArray(%d) has %d elements, want %d", r, len(a), m.C)
			}
			for i := range a {
				if !vh.Same(a[i], want[i]) {
					c.Failf("RowsAtToArray(%d)[%d] = %v, want %v", r, i, a[i], want[i])
				}
			}
		}
	}
	columns := func() {
		for i := 0; i < m.C; i++ {
			k := at(i, m.C)
			want := make([]T, m.R)
			for r := range want {
				want[r] = m.At(r, k)
			}
			vec(c, "ColumnsAt", s.ColumnsAt(k), want)
		}
	}
	if order == 1 {
		columns()
		rows()
	} else {
		rows()
		columns()
	}
	vh.Expect(c, "matrix afterwards", s, m)
}

// change changes s and its model in a drawn way.
func change[T constraints.Number](c *vh.Case, s gb.Matrix[T], m vh.Mat[T], pal []T) {
	p := vh.Uni(c, len(m.D), "pos")
	r, k := p/m.C, p%m.C
	v := rapid.SampledFrom(append([]T{0}, pal...)).Draw(c.T, "v")
	switch vh.Uni(c, 12, "change") {
	case 0:
		c.Desc("clear")
		s.Clear()
		clear(m.D)
	case 1:
		c.Desc("update(%d,%d,%v)", r, k, v)
		s.Update(r, k, func(T) T { return v })
		m.D[p] = v
	case 2, 3:
		c.Desc("map(row or column %d to %v)", p, v)
		for it := s.Map(); it.HasNext(); {
			it.Map(func(i, j int, x T) T {
				if i == r || j == k {
					x = v
				}
				m.Set(i, j, x)
				return x
			})
		}
	case 4:
		c.Desc("negated in place")
		gb.Negative[T](vh.BG, s, nil, s)
		for i := range m.D {
			m.D[i] = -m.D[i]
		}
	case 5:
		if comp, ok := s.(gb.MatrixCompressed[T]); ok {
			c.Desc("set with pointer (%d,%d,%v)", r, k, v)
			comp.SetReturnPointer(r, k, v)
			m.D[p] = v
		}
	default:
		c.Desc("set(%d,%d,%v)", r, k, v)
		s.Set(r, k, v)
		m.D[p] = v
	}
}

func num[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, true)
	pal := vh.Palette[T](c, vh.AnyNaN)
	m := vh.GenMat(c, r, cc, pal)
	s, f := vh.BuildAny(c, "a", m)
	extract[T](c, s, m)
	for n := rapid.IntRange(0, 2).Draw(c.T, "rounds"); n > 0 && r*cc > 0; n-- { // again after a few changes
		for k := rapid.IntRange(1, 4).Draw(c.T, "changes"); k > 0; k-- {
			change(c, s, m, pal)
		}
		extract[T](c, s, m)
	}
	c.Class(true, f.String())
	c.NonTrivial(r*cc > 1 && m.NNZ() > 0 && m.NNZ() < r*cc)
}

func TestExtract(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func arrays[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, false)
	m := vh.GenMat(c, r, cc, vh.Palette[T](c, vh.AnyNaN))
	c.Desc("array %v", m)
	vh.Expect[T](c, "NewDenseMatrixFromArray", gb.NewDenseMatrixFromArray(m.Rows2()), m)
	d := gb.NewDenseMatrixFromArrayN(m.Rows2())
	extract[T](c, d, m)
	for i, row := range d.RawMatrix() {
		for k, v := range row {
			if !vh.Same(v, m.At(i, k)) {
				c.Failf("RawMatrix()[%d][%d] = %v", i, k, v)
			}
		}
	}
	extract[T](c, gb.NewCSRMatrixFromArray(m.Rows2()), m)
	extract[T](c, gb.NewCSCMatrixFromArray(m.Rows2()), m)
	n := vh.Mat[T]{R: r * cc, C: 1, D: m.Clone().D}
	extract[T](c, gb.NewDenseVectorFromArray(n.Clone().D), n)
	extract[T](c, gb.NewDenseVectorFromArrayN(n.Clone().D), n)
	extract[T](c, gb.NewSparseVectorFromArray(n.Clone().D), n)
	c.NonTrivial(r*cc > 1 && m.NNZ() > 0 && m.NNZ() < r*cc)
}

func TestArrays(t *testing.T) {
	vh.Check(t, vh.Types13(arrays[float64], arrays[int], arrays[int8], arrays[uint8], arrays[int32], arrays[float32], arrays[int16], arrays[int64], arrays[uint], arrays[uint16], arrays[uint32], arrays[uint64], arrays[uintptr]))
}

func TestBool(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		r, cc := vh.Shape(c, 0, false)
		m := vh.NewMat[bool](r, cc)
		s := gb.NewDenseMatrix[bool](r, cc)
		for i := range m.D {
			if rapid.Bool().Draw(c.T, "b") {
				m.D[i] = true
				s.Set(i/cc, i%cc, true)
			}
		}
		c.Desc("bool %v", m)
		extract[bool](c, s, m)
		n := vh.Mat[bool]{R: r * cc, C: 1, D: m.D}
		extract[bool](c, gb.NewDenseVectorFromArray(n.Clone().D), n)
		c.NonTrivial(m.NNZ() > 0 && m.NNZ() < r*cc)
	})
}

func TestMain(m *testing.M) { vh.Main(m) }
