package c05

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

type pair[T constraints.Number] struct {
	name string
	m    gb.MatrixLogical[T]
}

func check[T constraints.Number](c *vh.Case, a, b pair[T], want bool) {
	if g := a.m.Equal(b.m); g != want {
		c.Failf("%s.Equal(%s) = %v, want %v", a.name, b.name, g, want)
	}
	if g := b.m.Equal(a.m); g != want {
		c.Failf("%s.Equal(%s) = %v, want %v", b.name, a.name, g, want)
	}
	if g := a.m.NotEqual(b.m); g == want {
		c.Failf("%s.NotEqual(%s) = %v, want %v", a.name, b.name, g, !want)
	}
	if g := b.m.NotEqual(a.m); g == want {
		c.Failf("%s.NotEqual(%s) = %v, want %v", b.name, a.name, g, !want)
	}
	if g := gb.Equal[T](vh.BG, a.m, b.m); g != want {
		c.Failf("Equal(%s, %s) = %v, want %v", a.name, b.name, g, want)
	}
	if g := gb.NotEqual[T](vh.BG, a.m, b.m); g == want {
		c.Failf("NotEqual(%s, %s) = %v, want %v", a.name, b.name, g, !want)
	}
}

// any builds m in a drawn format, the ones without arithmetic included.
func build[T constraints.Number](c *vh.Case, label string, m vh.Mat[T]) pair[T] {
	switch rapid.IntRange(0, 9).Draw(c.T, label+"kind") {
	case 0:
		s := gb.NewDenseMatrix[T](m.R, m.C)
		for i, v := range m.D {
			s.Set(i/m.C, i%m.C, v)
		}
		c.Desc("%s=DenseMatrix %v", label, m)
		return pair[T]{label + " DenseMatrix", s}
	case 1: // via transposing twice
		x, f := vh.BuildAny(c, label, m.Tr())
		return pair[T]{label + " transposed " + f.String(), x.Transpose()}
	case 2:
		if m.C == 1 {
			c.Desc("%s=DenseVector %v", label, m)
			return pair[T]{label + " DenseVector", gb.NewDenseVectorFromArray(m.Clone().D)}
		}
	case 3:
		x, f := vh.BuildAny(c, label, m)
		c.Desc("copied")
		return pair[T]{label + " copied " + f.String(), x.CopyLogical()}
	case 4: // after mapping every element to another value and back by sets
		x, f := vh.BuildAny(c, label, m)
		for it := x.Map(); it.HasNext(); {
			it.Map(func(_, _ int, v T) T { return 0 })
		}
		for i, v := range m.D {
			x.Set(i/m.C, i%m.C, v)
		}
		c.Desc("refilled")
		return pair[T]{label + " refilled " + f.String(), x}
	}
	x, f := vh.BuildAny(c, label, m)
	return pair[T]{label + " " + f.String(), x}
}

func num[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, true)
	vals := vh.Any
	if vh.Uni(c, 4, "nan") == 0 {
		vals = vh.AnyNaN
	}
	pal := vh.Palette[T](c, vals)
	m := vh.GenMat(c, r, cc, pal)
	n := m.Clone()
	kind := rapid.IntRange(0, 9).Draw(c.T, "rel")
	pos := 0
	if r*cc > 0 {
		pos = vh.Uni(c, r*cc, "pos")
	}
	rel := "same"
	switch {
	case r*cc == 0 && kind <= 5: // another shape without elements
		n.R, n.C = rapid.IntRange(0, 4).Draw(c.T, "rows"), rapid.IntRange(0, 4).Draw(c.T, "columns")
		if rapid.Bool().Draw(c.T, "keep") {
			if r == 0 {
				n.R = 0
			} else {
				n.C = 0
			}
		}
		n = vh.NewMat[T](n.R, n.C)
		rel = "other empty shape"
	case kind <= 3 || r*cc == 0:
	case kind == 4: // one position changed (added, removed or altered)
		v := rapid.SampledFrom(append([]T{0}, pal...)).Draw(c.T, "v")
		n.D[pos] = v
		rel = "one position"
	case kind == 5: // one element removed
		for i := range n.D {
			if k := (pos + i) % len(n.D); n.D[k] != 0 {
				n.D[k] = 0
				break
			}
		}
		rel = "one removed"
	case kind == 6: // two positions swapped: same number of elements
		q := vh.Uni(c, r*cc, "q")
		n.D[pos], n.D[q] = n.D[q], n.D[pos]
		rel = "swapped"
	case kind == 7: // another shape with the same elements in order
		n.R, n.C = n.C, n.R
		rel = "reshaped"
	case kind == 8: // one more row or column of zeros
		if rapid.Bool().Draw(c.T, "row") {
			n = vh.NewMat[T](r+1, cc)
			copy(n.D, m.D)
		} else {
			n = vh.NewMat[T](r, cc+1)
			for i, v := range m.D {
				n.Set(i/cc, i%cc, v)
			}
		}
		rel = "larger"
	case kind == 9:
		n = vh.GenMat(c, r, cc, pal)
		rel = "other"
	}
	a, b := build(c, "a", m), build(c, "b", n)
	want := false
	vh.Rounds(c, func() {
		if rapid.Bool().Draw(c.T, "side") {
			vh.Rewrite(c, "a", a.m, m, pal)
		} else {
			vh.Rewrite(c, "b", b.m, n, pal)
		}
		if m.R == n.R && m.C == n.C && rapid.IntRange(0, 2).Draw(c.T, "made equal") == 0 {
			c.Desc("a made equal")
			for i, v := range n.D {
				if m.D[i] != v {
					a.m.Set(i/m.C, i%m.C, v)
					m.D[i] = v
				}
			}
		}
	}, func() {
		want = m.R == n.R && m.C == n.C
		for i := 0; want && i < len(m.D); i++ {
			want = m.D[i] == n.D[i]
		}
		check(c, a, b, want)
	})
	// NaN is no value equal to itself
	itself := func(m vh.Mat[T]) bool {
		for _, v := range m.D {
			if v != v {
				return false
			}
		}
		return true
	}
	check(c, a, a, itself(m))
	check(c, b, pair[T]{"copy of b", b.m.CopyLogical()}, itself(n))
	c.Class(!itself(m), "NaN")
	if gb.Equal[T](vh.BG, a.m, nil) || gb.Equal[T](vh.BG, nil, a.m) || !gb.Equal[T](vh.BG, nil, nil) {
		c.Failf("a matrix equals no matrix, or no matrix does not equal itself")
	}
	if !gb.NotEqual[T](vh.BG, a.m, nil) || !gb.NotEqual[T](vh.BG, nil, a.m) || gb.NotEqual[T](vh.BG, nil, nil) {
		c.Failf("NotEqual of no matrix is not the negation of Equal")
	}
	c.Class(true, rel)
	c.Class(want, "equal")
	c.Class(gb.IsSparseMatrix[T](a.m) != gb.IsSparseMatrix[T](b.m), "sparse with dense")
	c.NonTrivial(r*cc > 1 && m.NNZ() > 0)
	vh.Expect(c, "a afterwards", a.m, m)
	vh.Expect(c, "b afterwards", b.m, n)
}

func TestEqual(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestBool(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		r, cc := vh.Shape(c, 6, false)
		a, b := gb.NewDenseMatrix[bool](r, cc), gb.NewDenseMatrix[bool](r, cc)
		m := vh.NewMat[bool](r, cc)
		for i := range m.D {
			m.D[i] = rapid.Bool().Draw(c.T, "b")
			a.Set(i/cc, i%cc, m.D[i])
			b.Set(i/cc, i%cc, m.D[i])
		}
		want := true
		if rapid.Bool().Draw(c.T, "flip") {
			p := vh.Uni(c, r*cc, "pos")
			b.Set(p/cc, p%cc, !m.D[p])
			want = false
			c.Desc("flip %d", p)
		}
		c.Desc("bool %v", m)
		var y gb.MatrixLogical[bool] = b
		if cc == 1 {
			v := gb.NewDenseVector[bool](r)
			for i := 0; i < r; i++ {
				v.SetVec(i, b.At(i, 0))
			}
			y = v
		}
		if a.Equal(y) != want || y.Equal(a) != want || a.NotEqual(y) == want || y.NotEqual(a) == want {
			c.Failf("Equal = %v, want %v", a.Equal(y), want)
		}
		if !a.Equal(a.CopyLogical()) {
			c.Failf("copy is not equal")
		}
		c.NonTrivial(r*cc > 1)
	})
}

func TestMain(m *testing.M) { vh.Main(m) }
