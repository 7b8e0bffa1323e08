package c16

import (
	"math"
	"math/big"
	"testing"

	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

type rats [][]*big.Rat

func toRats[T constraints.Number](m vh.Mat[T]) rats {
	o := make(rats, m.R)
	for r := range o {
		o[r] = make([]*big.Rat, m.C)
		for k := range o[r] {
			o[r][k] = new(big.Rat).SetFloat64(float64(m.At(r, k)))
		}
	}
	return o
}

// exact tells whether T holds x exactly.
func exact[T constraints.Number](x *big.Rat) bool {
	if vh.Bits[T]() == 32 {
		_, ok := x.Float32()
		return ok
	}
	_, ok := x.Float64()
	return ok
}

// rref gives the reduced row echelon form of m by exact arithmetic, whether every value met when
// eliminating with the first row that has one at the leading column is exact in T, and the rank
// and number of row exchanges.
func rref[T constraints.Number](m vh.Mat[T]) (a rats, ok bool, rank, swaps int) {
	a, ok = toRats(m), true
	for lead := 0; lead < m.C && rank < m.R; lead++ {
		i := rank
		for i < m.R && a[i][lead].Sign() == 0 {
			i++
		}
		if i == m.R {
			continue
		}
		if i != rank {
			a[i], a[rank] = a[rank], a[i]
			swaps++
		}
		inv := new(big.Rat).Inv(a[rank][lead])
		ok = ok && exact[T](inv)
		for k := range a[rank] {
			a[rank][k] = new(big.Rat).Mul(a[rank][k], inv)
			ok = ok && exact[T](a[rank][k])
		}
		for r := range a {
			if r == rank {
				continue
			}
			f := a[r][lead]
			row := make([]*big.Rat, m.C)
			for k := range row {
				p := new(big.Rat).Mul(f, a[rank][k])
				row[k] = new(big.Rat).Sub(a[r][k], p)
				ok = ok && exact[T](p) && exact[T](row[k])
			}
			a[r] = row
		}
		rank++
	}
	return
}

// compose draws L*D*R: R in reduced row echelon form, D powers of two, L unit lower triangular,
// whose elimination in the given order is exact.
func compose[T constraints.Number](c *vh.Case, r, cc int) vh.Mat[T] {
	rank := rapid.IntRange(0, min(r, cc)).Draw(c.T, "rank")
	if rapid.Bool().Draw(c.T, "full rank") {
		rank = min(r, cc)
	}
	e := vh.NewMat[T](r, cc)
	free := cc - rank
	for i, p := 0, 0; i < rank; i, p = i+1, p+1 {
		for free > 0 && rapid.IntRange(0, 2).Draw(c.T, "free") == 0 {
			p++
			free--
		}
		e.Set(i, p, 1)
		for k := p + 1; k < cc; k++ {
			e.Set(i, k, T(rapid.IntRange(-3, 3).Draw(c.T, "e")))
		}
	}
	for i := 0; i < rank; i++ { // nothing else in the columns of the leading ones
		for k := 0; k < cc; k++ {
			if e.At(i, k) != 0 {
				for j := 0; j < rank; j++ {
					if j != i {
						e.Set(j, k, 0)
					}
				}
				break
			}
		}
	}
	for i := 0; i < rank; i++ {
		d := rapid.SampledFrom([]int{1, 1, 2, -1, 4, -2}).Draw(c.T, "d")
		for k := 0; k < cc; k++ {
			v := e.At(i, k) * T(d)
			e.Set(i, k, v)
		}
	}
	m := vh.NewMat[T](r, cc)
	for i := 0; i < r; i++ {
		for j := 0; j <= i && j < rank; j++ {
			l := 1
			if j < i {
				l = rapid.IntRange(-2, 2).Draw(c.T, "l")
			}
			for k := 0; k < cc; k++ {
				m.Set(i, k, m.At(i, k)+T(l)*e.At(j, k))
			}
		}
	}
	return m
}

// scale multiplies rows, columns or one row by drawn powers of two if elimination stays exact.
func scale[T constraints.Number](c *vh.Case, m vh.Mat[T]) vh.Mat[T] {
	most := 60
	if vh.Bits[T]() == 32 {
		most = 18
	}
	if vh.Uni(c, 4, "far") == 0 {
		most = most * 5 // intermediate values that leave the range make the case inexact
	}
	n := m.Clone()
	pow := func() T { return T(math.Ldexp(1, rapid.IntRange(-most, most).Draw(c.T, "exp"))) }
	switch vh.Uni(c, 3, "what") {
	case 0: // all of it
		p := pow()
		for i := range n.D {
			n.D[i] *= p
		}
	case 1: // each row by its own
		for r := 0; r < m.R; r++ {
			p := pow()
			for k := 0; k < m.C; k++ {
				n.Set(r, k, p*n.At(r, k))
			}
		}
	case 2: // one row
		if m.R > 0 {
			r, p := vh.Uni(c, m.R, "row"), pow()
			for k := 0; k < m.C; k++ {
				n.Set(r, k, p*n.At(r, k))
			}
		}
	}
	if _, ok, _, _ := rref(n); !ok {
		return m
	}
	c.Desc("scaled: %v", n)
	return n
}

func num[T constraints.Number](c *vh.Case) {
	r, cc := rapid.IntRange(0, 7).Draw(c.T, "r"), rapid.IntRange(0, 8).Draw(c.T, "c")
	if rapid.IntRange(0, 7).Draw(c.T, "vector") == 0 {
		cc = 1
	}
	var m vh.Mat[T]
	kind := rapid.IntRange(0, 3).Draw(c.T, "kind")
	if vh.Uni(c, 24, "larger") == 0 {
		r, cc = rapid.IntRange(6, 20).Draw(c.T, "r"), rapid.IntRange(6, 20).Draw(c.T, "c")
	}
	switch kind {
	case 0: // anything small whose elimination turns out to be exact
		ok := false
		for i := 0; i < 4 && !ok; i++ {
			pal := rapid.SampledFrom([][]T{{1, 2}, {1}, {1, 2, 4}, {T(1) / 2, 1}, {1, 3}}).Draw(c.T, "pal")
			for _, v := range pal[:len(pal):len(pal)] {
				pal = append(pal, -v)
			}
			m = vh.GenMat(c, r, cc, pal)
			_, ok, _, _ = rref(m)
		}
		if !ok {
			m = compose[T](c, r, cc)
		}
	default:
		m = compose[T](c, r, cc)
		if kind > 1 && r > 1 { // rows in another order, if the elimination stays exact
			for i := 0; i < 3; i++ {
				idx := make([]int, r)
				for k := range idx {
					idx[k] = k
				}
				idx = rapid.Permutation(idx).Draw(c.T, "rows")
				n := vh.NewMat[T](r, cc)
				for i, k := range idx {
					copy(n.D[i*cc:(i+1)*cc], m.D[k*cc:(k+1)*cc])
				}
				if _, ok, _, _ := rref(n); ok {
					m = n
					break
				}
			}
		}
	}
	// Scaling rows or columns by powers of two keeps the elimination exact, whatever the pivots'
	// size: nothing but zero is zero.
	scaled := vh.Uni(c, 3, "scaled") == 0
	if scaled {
		m = scale(c, m)
	}
	c.Class(scaled, "powers of two in rows or columns")
	s, f := vh.BuildAny(c, "s", m)
	rank, swaps := 0, 0
	vh.Rounds(c, func() { // to another matrix whose elimination is exact
		n := m.Clone()
		if r*cc == 0 {
			return
		}
		for k := rapid.IntRange(1, 3).Draw(c.T, "changes"); k > 0; k-- {
			o := n.Clone()
			i, j := vh.Uni(c, r, "i"), vh.Uni(c, r, "j")
			switch vh.Uni(c, 4, "change") {
			case 0: // rows exchanged
				for k := 0; k < cc; k++ {
					x, y := o.At(i, k), o.At(j, k)
					o.Set(i, k, y)
					o.Set(j, k, x)
				}
			case 1: // one row negated or doubled
				p := T(rapid.SampledFrom([]int{-1, 2}).Draw(c.T, "by"))
				for k := 0; k < cc; k++ {
					o.Set(i, k, p*o.At(i, k))
				}
			case 2: // one row added to another
				for k := 0; k < cc; k++ {
					o.Set(i, k, o.At(i, k)+o.At(j, k))
				}
			case 3: // one element
				o.Set(i, vh.Uni(c, cc, "k"), T(rapid.SampledFrom([]int{1, -1, 2, 0}).Draw(c.T, "to")))
			}
			if _, ok, _, _ := rref(o); ok {
				n = o
			}
		}
		for i, v := range n.D {
			if m.D[i] != v {
				s.Set(i/cc, i%cc, v)
			}
		}
		c.Desc("changed to %v", n)
		m = n
	}, func() {
		var want rats
		var ok bool
		want, ok, rank, swaps = rref(m)
		if !ok {
			panic("vh: elimination is not exact")
		}
		w := vh.NewMat[float64](r, cc)
		for i := range want {
			for k := range want[i] {
				w.D[i*cc+k], _ = want[i][k].Float64()
			}
		}
		check := func(what string, got interface{ At(r, c int) T }, rows, cols int) {
			if rows != r || cols != cc {
				c.Failf("%s: shape %dx%d, want %dx%d", what, rows, cols, r, cc)
			}
			for i := 0; i < r; i++ {
				for k := 0; k < cc; k++ {
					g := float64(got.At(i, k))
					if d := math.Abs(g - w.At(i, k)); !(d <= 1e-5*math.Max(1, math.Abs(w.At(i, k)))) {
						c.Failf("%s: (%d,%d) = %v, want %v; want %v", what, i, k, g, w.At(i, k), w)
					}
				}
			}
		}
		got := reduced.Reduced[T](s)
		check("Reduced", got, got.Rows(), got.Columns())
		vh.Expect[T](c, "argument afterwards", s, m)
		if rapid.IntRange(0, 2).Draw(c.T, "more") > 0 {
			again := reduced.Reduced[T](got)
			check("Reduced of the result", again, again.Rows(), again.Columns())
			if g := vh.PickF(c, "G", cc); g != f {
				x := vh.Plain(g, m)
				o := reduced.Reduced[T](x)
				check("Reduced in format "+g.String(), o, o.Rows(), o.Columns())
				vh.Expect[T](c, "argument afterwards", x, m)
			}
		}
		if r*cc > 0 {
			got.Set(0, 0, 7)
			vh.Expect[T](c, "argument after a write to the result", s, m)
		}
	})
	c.Class(swaps > 0, "rows exchanged")
	c.Class(rank < min(r, cc), "rank deficient")
	c.Class(rank > 0 && rank < cc, "free columns")
	c.Class(true, f.String())
	c.NonTrivial(rank > 1)
}

func TestReduced(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		if rapid.IntRange(0, 2).Draw(c.T, "type") == 0 {
			c.Desc("float32")
			num[float32](c)
		} else {
			num[float64](c)
		}
	})
}

func TestMain(m *testing.M) { vh.Main(m) }
