package c17

import (
	"testing"

	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/symmetric"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// far asks large matrices with few elements, mirrored but for one place, which goes through a line.
func far[T constraints.Number](c *vh.Case) {
	n := 20 + vh.Uni(c, 330, "n")
	f := vh.F(vh.Uni(c, 3, "format"))
	if f == vh.Dense {
		n = 20 + vh.Uni(c, 60, "n")
		if vh.Uni(c, 12, "larger") == 0 {
			n += vh.Uni(c, 120, "n")
		}
	}
	skew := rapid.Bool().Draw(c.T, "skew")
	m := vh.NewMat[T](n, n)
	s := vh.Empty[T](f, n, n)
	sign := func(v T) T {
		if skew {
			return -v
		}
		return v
	}
	set := func(i, k int, v T) { m.Set(i, k, v); s.Set(i, k, v) }
	put := func(i, k int, v T) {
		if i == k && skew {
			return
		}
		set(i, k, v)
		set(k, i, sign(v))
	}
	for k := rapid.IntRange(0, 12).Draw(c.T, "elements"); k > 0; k-- {
		put(vh.Uni(c, n, "row"), vh.Uni(c, n, "column"), T(vh.Uni(c, 3, "value")+1))
	}
	if rapid.Bool().Draw(c.T, "band") {
		d := 1 + vh.Uni(c, n-1, "band")
		for i := 0; i+d < n; i++ {
			put(i, i+d, T(i%3+1))
		}
	}
	ask := func() bool {
		if skew {
			return skewsymmetric.SkewSymmetric[T](s)
		}
		return symmetric.Symmetric[T](s)
	}
	how := vh.Uni(c, 4, "line")
	at := vh.Uni(c, n, "at")
	c.Desc("%v %dx%d skew %v, %d elements, line %d at %d", f, n, n, skew, m.NNZ(), how, at)
	if !ask() {
		c.Failf("a mirrored matrix is not recognised")
	}
	step := 1
	if f == vh.Dense {
		step = 1 + n/16
	}
	for i := vh.Uni(c, step, "first"); i < n; i += step {
		k := at
		switch how {
		case 1:
			k = 0
		case 2:
			k = n - 1
		case 3:
			k = (i + at) % n
		}
		v := m.At(i, k)
		x := v + 1
		if v != 0 && i%2 == 0 {
			x = 0
		}
		if i == k && (!skew || x == -x) {
			continue
		}
		s.Set(i, k, x)
		if ask() {
			c.Failf("(%d,%d) is %v, (%d,%d) is %v", i, k, x, k, i, m.At(k, i))
		}
		s.Set(i, k, v)
	}
	if !ask() {
		c.Failf("a mirrored matrix is not recognised afterwards")
	}
	c.Class(skew, "skew")
	c.Class(true, f.String())
	c.NonTrivial(m.NNZ() > 0)
}

func TestFar(t *testing.T) {
	vh.Check(t, vh.Types13(far[float64], far[int], far[int8], far[uint8], far[int32], far[float32], far[int16], far[int64], far[uint], far[uint16], far[uint32], far[uint64], far[uintptr]))
}
