package c07

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func stats[T constraints.Number](c *vh.Case, a, b vh.Mat[T], w vh.Mat[T]) {
	cancel := false
	for r := 0; r < w.R; r++ {
		for k := 0; k < w.C; k++ {
			terms := 0
			for l := 0; l < a.C; l++ {
				if a.At(r, l)*b.At(l, k) != 0 {
					terms++
				}
			}
			cancel = cancel || (terms > 1 && w.At(r, k) == 0)
		}
	}
	c.Class(cancel, "cancelling terms")
	c.Class(a.R != a.C || b.R != b.C, "rectangular")
	c.NonTrivial(w.NNZ() > 0 && len(w.D) > 1 && a.NNZ() < len(a.D))
}

func free[T constraints.Number](c *vh.Case) {
	dirty := rapid.Bool().Draw(c.T, "dirty")
	i := vh.DrawInst[T](c, []string{"mxm", "mxm", "mxv", "vxm"}, 0, vh.Exact, dirty)
	i.DrawSame()
	s, m := i.Operands()
	out := i.Out()
	c.Desc("out=%v %v", i.FO, i.Prev)
	var mask gb.Mask
	if rapid.Bool().Draw(c.T, "empty mask") {
		mask = gb.NewEmptyMask(i.Prev.R, i.Prev.C)
	}
	var a, b, w vh.Mat[T]
	vh.Rounds(c, func() {
		i.Rewrite(s, m)
		if rapid.Bool().Draw(c.T, "other output") {
			out = i.Out()
		}
	}, func() {
		i.Run(vh.BG, s, m, mask, out)
		a, b = i.S, i.M
		if i.Op == "vxm" {
			a, b = b, a
		}
		w = vh.Mul(a, b)
		vh.Expect[T](c, i.Op+" into "+i.FO.String(), out, w)
		vh.Expect[T](c, "s afterwards", s, i.S)
		vh.Expect[T](c, "m afterwards", m, i.M)
	})
	c.Class(true, i.Op)
	stats(c, a, b, w)
}

func TestFunctions(t *testing.T) {
	vh.Check(t, vh.Types13(free[float64], free[int], free[int8], free[uint8], free[int32], free[float32], free[int16], free[int64], free[uint], free[uint16], free[uint32], free[uint64], free[uintptr]))
}

func methods[T constraints.Number](c *vh.Case) {
	i := vh.DrawInst[T](c, []string{"mxm"}, 0, vh.Exact, false)
	i.DrawSame()
	s, m := i.Operands()
	var w vh.Mat[T]
	vh.Rounds(c, func() { i.Rewrite(s, m) }, func() {
		w = vh.Mul(i.S, i.M)
		got := s.Multiply(m)
		vh.Expect[T](c, "Multiply method", got, w)
		switch rapid.IntRange(0, 5).Draw(c.T, "law") {
		case 0: // identity
			id := vh.NewMat[T](i.S.C, i.S.C)
			for k := 0; k < i.S.C; k++ {
				id.Set(k, k, 1)
			}
			e, _ := vh.BuildAny(c, "identity", id)
			vh.Expect[T](c, "S I", s.Multiply(e), i.S)
			vh.Expect[T](c, "I M", e.Multiply(m), i.M)
		case 1: // transposition
			t := gb.TransposeToCSR[T](vh.BG, m).Multiply(gb.TransposeToCSC[T](vh.BG, s))
			vh.Expect[T](c, "Mt St", t, w.Tr())
		case 2: // distributivity
			n := vh.GenMat(c, i.M.R, i.M.C, vh.Palette[T](c, vh.Exact))
			x, _ := vh.BuildAny(c, "x", n)
			sum := s.Multiply(m).Add(s.Multiply(x))
			vh.Expect[T](c, "S M + S X", sum, vh.Mul(i.S, vh.Zip(i.M, n, func(x, y T) T { return x + y })))
			vh.Expect[T](c, "S (M + X)", s.Multiply(m.Add(x)), vh.Snap[T](sum))
		}
		vh.Expect[T](c, "s afterwards", s, i.S)
		vh.Expect[T](c, "m afterwards", m, i.M)
	})
	c.Class(true, i.FS.String()+" by "+i.FM.String())
	stats(c, i.S, i.M, w)
}

func TestMethods(t *testing.T) {
	vh.Check(t, vh.Types13(methods[float64], methods[int], methods[int8], methods[uint8], methods[int32], methods[float32], methods[int16], methods[int64], methods[uint], methods[uint16], methods[uint32], methods[uint64], methods[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
