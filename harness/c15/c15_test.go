package c15

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/strassen"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// side draws a side length; many are even, often repeatedly.
func side(c *vh.Case, label string, top int) int {
	switch k := rapid.IntRange(0, 9).Draw(c.T, label+"k"); {
	case k < 5:
		return min(top, rapid.SampledFrom([]int{2, 4, 6, 8, 10, 12, 14, 16, 20, 24, 28, 32, 40, 48}).Draw(c.T, label))
	}
	return min(top, rapid.IntRange(1, 18).Draw(c.T, label))
}

// cost is the number of leaf products.
func cost(n, x int) int {
	k := 1
	for n > x && n%2 == 0 {
		n, k = n/2, k*7
	}
	return k
}

func num[T constraints.Number](top, budget int, rect bool) func(c *vh.Case) {
	return func(c *vh.Case) {
		n := side(c, "n", top)
		r, k, cc := n, n, n
		x := 0
		for _, v := range []int{1, 2, 3, 4, 8} {
			if cost(n, v) <= budget {
				x = v
				break
			}
		}
		if x == 0 {
			x = n
		}
		switch rapid.IntRange(0, 5).Draw(c.T, "crossover kind") {
		case 0:
			x = max(x, rapid.IntRange(1, 2*n).Draw(c.T, "crossover"))
		case 1:
			x = max(x, n/2)
		case 2:
			x = max(x, rapid.IntRange(1, 4).Draw(c.T, "crossover"))
		case 3:
			x = max(x, n-1)
		}
		if rect && rapid.IntRange(0, 2).Draw(c.T, "rect") == 0 {
			switch rapid.IntRange(0, 3).Draw(c.T, "rectk") {
			case 0:
				r = side(c, "r", top)
			case 1:
				cc = side(c, "c", top)
			case 2:
				r, cc = side(c, "r", top), side(c, "c", top)
			case 3:
				k = side(c, "k", top)
			}
		}
		vals := vh.Exact
		if vh.IsFloat[T]() && vh.Bits[T]() == 32 {
			vals = vh.Tiny
		}
		pal := vh.Palette[T](c, vals)
		a, b := vh.GenMat(c, r, k, pal), vh.GenMat(c, k, cc, pal)
		s, fs := vh.BuildAny(c, "a", a)
		m, fm := vh.BuildAny(c, "b", b)
		c.Desc("crossover %d", x)
		var want vh.Mat[T]
		split := false
		vh.Rounds(c, func() {
			if rapid.Bool().Draw(c.T, "side") {
				vh.Rewrite[T](c, "a", s, a, pal)
			} else {
				vh.Rewrite[T](c, "b", m, b, pal)
			}
		}, func() {
			want = vh.Mul(a, b)
			got := strassen.MultiplyCrossoverPoint[T](vh.BG, s, m, x)
			vh.Expect[T](c, "MultiplyCrossoverPoint", got, want)
			split = n > x && n%2 == 0 && r == n && k == n && cc == n
			if !split || rapid.IntRange(0, 3).Draw(c.T, "default") == 0 {
				vh.Expect[T](c, "Multiply", strassen.Multiply[T](vh.BG, s, m), want)
			}
			vh.Expect[T](c, "left operand afterwards", s, a)
			vh.Expect[T](c, "right operand afterwards", m, b)
			if r*cc > 0 { // the result is a matrix of its own
				got.Set(r-1, cc-1, want.At(r-1, cc-1)+1)
				vh.Expect[T](c, "left operand after a write to the product", s, a)
				vh.Expect[T](c, "right operand after a write to the product", m, b)
			}
		})
		c.Class(split, "divided")
		c.Class(split && (n/2)%2 == 0 && n/2 > x, "divided twice or more")
		c.Class(split && (n/2)%2 != 0 && n/2 > x, "odd halves")
		c.Class(r != cc || r != k, "rectangular")
		c.Class(n%2 != 0, "odd")
		c.Class(true, fs.String()+" "+fm.String())
		c.NonTrivial(split && want.NNZ() > 1)
	}
}

func small[T constraints.Number](c *vh.Case) {
	if vh.Deep {
		num[T](32, 343, true)(c)
		return
	}
	num[T](20, 49, true)(c)
}

func TestProducts(t *testing.T) {
	vh.Check(t, vh.Types13(small[float64], small[int], small[int8], small[uint8], small[int32], small[float32], small[int16], small[int64], small[uint], small[uint16], small[uint32], small[uint64], small[uintptr]))
}

// TestDeep divides more often.
func TestDeep(t *testing.T) {
	f, g, h := num[float64](32, 2401, false), num[int](32, 2401, false), num[uint8](48, 2401, false)
	vh.Check(t, func(c *vh.Case) {
		[]func(*vh.Case){f, g, h}[rapid.IntRange(0, 2).Draw(c.T, "type")](c)
	})
}

// TestDefault has operands large enough for the default crossover point.
func TestDefault(t *testing.T) { dflt(t, 66, 65, 64, 68, 70, 72, 67) }

// TestBlocks has operands that the default crossover point divides into blocks
// of up to 64 elements a side, or divides again.
func TestBlocks(t *testing.T) {
	if vh.Deep {
		dflt(t, 128, 96, 100, 112, 120, 126, 130, 132, 160, 192, 256, 260)
		return
	}
	dflt(t, 128, 96, 100, 112, 120, 126, 130, 132, 160)
}

func dflt(t *testing.T, sides ...int) {
	vh.Check(t, func(c *vh.Case) {
		n := rapid.SampledFrom(sides).Draw(c.T, "n")
		r, cc := n, n
		switch rapid.IntRange(0, 4).Draw(c.T, "shape") {
		case 0:
			r = rapid.IntRange(1, 70).Draw(c.T, "r")
		case 1:
			cc = rapid.IntRange(1, 70).Draw(c.T, "c")
		}
		seed := rapid.Uint64().Draw(c.T, "seed")
		gen := func(r, cc int) vh.Mat[int64] {
			m := vh.NewMat[int64](r, cc)
			for i := range m.D {
				seed = seed*6364136223846793005 + 1442695040888963407
				if seed>>62 != 0 {
					m.D[i] = int64(seed>>40)%9 - 4
				}
			}
			return m
		}
		a, b := gen(r, n), gen(n, cc)
		c.Desc("%dx%d %dx%d seed %d", r, n, n, cc, seed)
		fa, fb := vh.F(rapid.IntRange(0, 2).Draw(c.T, "fa")), vh.F(rapid.IntRange(0, 1).Draw(c.T, "fb"))
		s, m := vh.Plain(fa, a), vh.Plain(fb, b)
		vh.Expect[int64](c, "Multiply", strassen.Multiply[int64](vh.BG, s, m), vh.Mul(a, b))
		c.NonTrivial(r == n && cc == n && n > 64 && n%2 == 0)
	})
}

// TestRace is TestProducts built with the race detector; products run on the same operands at once.
func TestRace(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		n := rapid.SampledFrom([]int{2, 4, 6, 8}).Draw(c.T, "n")
		x := rapid.IntRange(1, 3).Draw(c.T, "crossover")
		pal := vh.Palette[int](c, vh.Exact)
		a, b := vh.GenMat(c, n, n, pal), vh.GenMat(c, n, n, pal)
		s, _ := vh.BuildAny(c, "a", a)
		m, _ := vh.BuildAny(c, "b", b)
		want := vh.Mul(a, b)
		const par = 3
		out := make(chan gb.Matrix[int], par)
		for i := 0; i < par; i++ {
			go func() { out <- strassen.MultiplyCrossoverPoint[int](vh.BG, s, m, x) }()
		}
		for i := 0; i < par; i++ {
			vh.Expect[int](c, "product", <-out, want)
		}
		c.NonTrivial(want.NNZ() > 1)
	})
}

func TestMain(m *testing.M) { vh.Main(m) }
