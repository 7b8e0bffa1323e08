package c05

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// far compares long matrices that differ in one position, which goes through all of a line.
func far[T constraints.Number](c *vh.Case) {
	l, w := 20+vh.Uni(c, 330, "long"), 1+vh.Uni(c, 4, "wide")
	r, cc := l, w
	if rapid.Bool().Draw(c.T, "lying") {
		r, cc = w, l
	} else if vh.Uni(c, 4, "square") == 0 {
		r = 20 + vh.Uni(c, 40, "side")
		if vh.Uni(c, 6, "larger") == 0 {
			r += vh.Uni(c, 60, "side")
		}
		cc = r
	}
	m := vh.NewMat[T](r, cc)
	pal := vh.Palette[T](c, vh.Exact)
	for k := rapid.IntRange(0, 12).Draw(c.T, "elements"); k > 0; k-- {
		m.D[vh.Uni(c, r*cc, "at")] = rapid.SampledFrom(pal).Draw(c.T, "value")
	}
	if rapid.Bool().Draw(c.T, "full") {
		for i := range m.D {
			if m.D[i] == 0 {
				m.D[i] = T(i%5 + 1)
			}
		}
	}
	a, f := vh.BuildAny(c, "a", m)
	b, g := vh.BuildAny(c, "b", m)
	line := vh.Uni(c, min(r, cc), "line")
	other := pal[0]
	c.Desc("every position of line %d, other value %v", line, other)
	check(c, pair[T]{"a", a}, pair[T]{"b", b}, true)
	for k := 0; k < max(r, cc); k++ {
		i, j := line, k
		if r > cc {
			i, j = k, line
		}
		v := m.At(i, j)
		x := other
		if v == x {
			x = 0
		}
		if k%3 == 1 && v != 0 {
			x = 0
		}
		if x == v {
			continue
		}
		b.Set(i, j, x)
		if a.Equal(b) || b.Equal(a) || !gb.NotEqual[T](vh.BG, a, b) {
			c.Failf("%v and %v are equal but for (%d,%d) %v and %v", f, g, i, j, v, x)
		}
		b.Set(i, j, v)
	}
	check(c, pair[T]{"a", a}, pair[T]{"b", b}, true)
	c.Class(f.Sparse() != g.Sparse(), "sparse with dense")
	c.NonTrivial(m.NNZ() > 0)
}

func TestFar(t *testing.T) {
	vh.Check(t, vh.Types13(far[float64], far[int], far[int8], far[uint8], far[int32], far[float32], far[int16], far[int64], far[uint], far[uint16], far[uint32], far[uint64], far[uintptr]))
}
