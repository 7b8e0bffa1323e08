package c16

import (
	"math"
	"testing"

	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// whole tells whether eliminating m with the first row that has an element at the leading column
// meets whole numbers only, small enough to be exact in T. (The reduced form is unique, so what
// other orders of elimination give is the same but for rounding.)
func whole[T constraints.Number](m vh.Mat[T]) bool {
	lim := int64(1) << 40
	if vh.Bits[T]() == 32 {
		lim = 1 << 20
	}
	a := make([][]int64, m.R)
	for i := range a {
		a[i] = make([]int64, m.C)
		for k := range a[i] {
			a[i][k] = int64(m.At(i, k))
		}
	}
	rank := 0
	for lead := 0; lead < m.C && rank < m.R; lead++ {
		i := rank
		for i < m.R && a[i][lead] == 0 {
			i++
		}
		if i == m.R {
			continue
		}
		a[i], a[rank] = a[rank], a[i]
		p := a[rank]
		if p[lead] != 1 && p[lead] != -1 {
			return false
		}
		if p[lead] < 0 {
			for k := range p {
				p[k] = -p[k]
			}
		}
		for j := range a {
			if f := a[j][lead]; j != rank && f != 0 {
				for k := lead; k < m.C; k++ {
					a[j][k] -= f * p[k]
					if v := a[j][k]; v > lim || v < -lim {
						return false
					}
				}
			}
		}
		rank++
	}
	return true
}

// far reduces large matrices made from their reduced form: each row is a row of it, with a small
// multiple of the row before, and the rows are exchanged if the elimination stays exact.
func far[T constraints.Number](c *vh.Case) {
	var r, cc int
	switch vh.Uni(c, 5, "shape") {
	case 0, 1:
		r, cc = 20+vh.Uni(c, 300, "long"), 1+vh.Uni(c, 5, "wide")
	case 2, 3:
		r, cc = 1+vh.Uni(c, 5, "wide"), 20+vh.Uni(c, 300, "long")
	default:
		r = 18 + vh.Uni(c, 34, "side")
		if vh.Uni(c, 12, "larger") == 0 {
			r += vh.Uni(c, 100, "side")
		}
		cc = max(1, r+vh.Uni(c, 5, "more columns")-2)
	}
	rank := min(r, cc)
	if rapid.Bool().Draw(c.T, "deficient") {
		rank = vh.Uni(c, rank+1, "rank")
	}
	// the reduced form: columns without a pivot are drawn, and what stands in them
	e := vh.NewMat[T](r, cc)
	pivot := make([]bool, cc)
	free := cc - rank
	early := rapid.Bool().Draw(c.T, "early free")
	for i, p := 0, 0; i < rank; i, p = i+1, p+1 {
		for free > 0 && (early && i == 0 || vh.Uni(c, 3*cc, "free") <= 2*(cc-rank)) {
			p++
			free--
			if early && vh.Uni(c, 8, "enough") == 0 {
				break
			}
		}
		e.Set(i, p, 1)
		pivot[p] = true
	}
	for i := 0; i < rank; i++ {
		p := 0
		for e.At(i, p) == 0 {
			p++
		}
		for k := p + 1; k < cc; k++ {
			if !pivot[k] && vh.Uni(c, 3, "e") == 0 {
				e.Set(i, k, T(vh.Uni(c, 7, "v"))-3)
			}
		}
	}
	m := vh.NewMat[T](r, cc)
	for i := 0; i < r; i++ {
		l, from := T(vh.Uni(c, 4, "l"))-1, i-1
		if i >= rank && rank > 0 {
			from = vh.Uni(c, rank, "from")
		}
		s := T(1)
		if vh.Uni(c, 3, "sign") == 0 {
			s = -s
		}
		for k := 0; k < cc; k++ {
			v := s * e.At(i, k)
			if from >= 0 {
				v += l * e.At(from, k)
			}
			m.Set(i, k, v)
		}
	}
	ok := whole(m)
	swapped := false
	for try := 0; try < 2 && r > 1; try++ {
		n := m.Clone()
		move := func(a, b int) {
			for k := 0; k < cc; k++ {
				x, y := n.At(a, k), n.At(b, k)
				n.Set(a, k, y)
				n.Set(b, k, x)
			}
		}
		switch vh.Uni(c, 3, "order") {
		case 0:
			move(vh.Uni(c, r, "row"), vh.Uni(c, r, "with"))
		case 1:
			move(0, r-1)
		case 2:
			for i := 0; i < r/2; i++ {
				move(i, r-1-i)
			}
		}
		if whole(n) {
			m, ok, swapped = n, true, true
			break
		}
	}
	if !ok {
		panic("vh: the elimination is not exact")
	}
	s, f := vh.BuildAny(c, "s", m)
	got := reduced.Reduced[T](s)
	if got.Rows() != r || got.Columns() != cc {
		c.Failf("shape %dx%d, want %dx%d", got.Rows(), got.Columns(), r, cc)
	}
	for i := 0; i < r; i++ {
		for k := 0; k < cc; k++ {
			if g, w := float64(got.At(i, k)), float64(e.At(i, k)); !(math.Abs(g-w) <= 1e-5*math.Max(1, math.Abs(w))) {
				c.Failf("(%d,%d) = %v, want %v", i, k, g, w)
			}
		}
	}
	vh.Expect[T](c, "argument afterwards", s, m)
	c.Class(swapped, "rows exchanged")
	c.Class(rank < min(r, cc), "rank deficient")
	c.Class(r > 100 || cc > 100, "more than 100 lines")
	c.Class(true, f.String())
	c.NonTrivial(rank > 1)
}

func TestFar(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		if vh.Uni(c, 3, "type") == 0 {
			c.Desc("float32")
			far[float32](c)
		} else {
			far[float64](c)
		}
	})
}
