package c17

import (
	"testing"

	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/symmetric"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func num[T constraints.Number](c *vh.Case) {
	pal := vh.Palette[T](c, vh.Any)
	r, cc := vh.Shape(c, 0, true)
	kind := rapid.IntRange(0, 9).Draw(c.T, "kind")
	if kind > 1 {
		r = min(r, 70)
		cc = r
	}
	m := vh.GenMat(c, r, cc, pal)
	if kind > 2 { // mirrored, or mirrored with the other sign
		skew := kind%2 == 1
		for i := 0; i < r; i++ {
			for k := 0; k <= i; k++ {
				v := m.At(i, k)
				if skew {
					if i == k {
						v = 0
						if rapid.IntRange(0, 24).Draw(c.T, "extreme") == 0 && !vh.IsFloat[T]() && vh.IsSigned[T]() {
							v = vh.MinOf[T]() // its own negation
						}
						m.Set(i, i, v)
						continue
					}
					v = -v
				}
				m.Set(k, i, v)
			}
		}
		if kind > 5 && r > 0 { // but for one place
			i, k := vh.Uni(c, r, "i"), vh.Uni(c, r, "k")
			switch rapid.IntRange(0, 4).Draw(c.T, "how") {
			case 0:
				m.Set(i, k, 0)
			case 1:
				m.Set(i, k, -m.At(i, k))
			case 2:
				m.Set(i, k, vh.Val[T](c, vh.Any))
			case 3: // two elements exchanged
				j := vh.Uni(c, r, "j")
				a, b := m.At(i, k), m.At(j, k)
				m.Set(i, k, b)
				m.Set(j, k, a)
			case 4: // one element moved across the diagonal
				m.Set(k, i, m.At(i, k))
				m.Set(i, k, 0)
			}
		}
	}
	s, f := vh.BuildAny(c, "s", m)
	sym, skew := false, false
	vh.Rounds(c, func() {
		if r == 0 || r != cc || rapid.Bool().Draw(c.T, "anywhere") {
			vh.Rewrite[T](c, "s", s, m, pal)
			return
		}
		// an element and the one across the diagonal
		p := vh.Uni(c, r*r, "p")
		i, k := p/r, p%r
		v := rapid.SampledFrom(pal).Draw(c.T, "v")
		w := v
		if rapid.Bool().Draw(c.T, "negated") {
			w = -v
		}
		c.Desc("set (%d,%d) %v and across %v", i, k, v, w)
		s.Set(i, k, v)
		m.Set(i, k, v)
		if rapid.IntRange(0, 3).Draw(c.T, "one") > 0 {
			s.Set(k, i, w)
			m.Set(k, i, w)
		}
	}, func() {
		sym, skew = r == cc, r == cc
		for i := 0; i < r && r == cc; i++ {
			for k := 0; k < r; k++ {
				sym = sym && m.At(i, k) == m.At(k, i)
				skew = skew && m.At(i, k) == -m.At(k, i)
			}
		}
		if got := symmetric.Symmetric[T](s); got != sym {
			c.Failf("Symmetric = %v, want %v", got, sym)
		}
		if got := skewsymmetric.SkewSymmetric[T](s); got != skew {
			c.Failf("SkewSymmetric = %v, want %v", got, skew)
		}
		if got := symmetric.Symmetric[T](s); got != sym {
			c.Failf("Symmetric the second time = %v, want %v", got, sym)
		}
		vh.Expect[T](c, "argument afterwards", s, m)
	})
	c.Class(sym && !skew, "symmetric only")
	c.Class(skew && !sym, "skew-symmetric only")
	c.Class(r == cc && !sym && !skew, "square, neither")
	c.Class(true, f.String())
	c.NonTrivial(r == cc && r > 1 && m.NNZ() > 0)
}

func TestPredicates(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
