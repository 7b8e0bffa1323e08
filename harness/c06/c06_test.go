package c06

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// want gives the entrywise result and the positions at which no operand stores an element.
func want[T constraints.Number](i *vh.Inst[T]) (vh.Mat[T], vh.Mat[bool]) {
	switch i.Op {
	case "add", "sub":
		f := func(x, y T) T { return x + y }
		if i.Op == "sub" {
			f = func(x, y T) T { return x - y }
		}
		return vh.Zip(i.S, i.M, f), vh.Zip(i.S, i.M, func(x, y T) bool { return x == 0 && y == 0 })
	}
	return vh.Mapm(i.S, func(x T) T { return -x }), vh.Mapm(i.S, func(x T) bool { return x == 0 })
}

func free[T constraints.Number](c *vh.Case) {
	dirty := rapid.Bool().Draw(c.T, "dirty")
	i := vh.DrawInst[T](c, []string{"add", "sub", "neg"}, 0, vh.AnyNaN, dirty)
	i.DrawSame()
	s, m := i.Operands()
	out := i.Out()
	c.Desc("out=%v %v", i.FO, i.Prev)
	var mask gb.Mask
	if rapid.Bool().Draw(c.T, "empty mask") {
		mask = gb.NewEmptyMask(i.Prev.R, i.Prev.C)
	}
	vh.Rounds(c, func() {
		i.Rewrite(s, m)
		out = i.Out()
	}, func() {
		i.Run(vh.BG, s, m, mask, out)
		w, keep := want(i)
		if out.Rows() != w.R || out.Columns() != w.C {
			c.Failf("%s: shape of the output changed", i.Op)
		}
		for r := 0; r < w.R; r++ {
			for k := 0; k < w.C; k++ {
				g := out.At(r, k)
				if vh.Same(g, w.At(r, k)) || (keep.At(r, k) && vh.Same(g, i.Prev.At(r, k))) {
					continue
				}
				c.Failf("%s into %v: (%d,%d) = %v, want %v", i.Op, i.FO, r, k, g, w.At(r, k))
			}
		}
		vh.Expect[T](c, "s afterwards", s, i.S)
		if m != nil {
			vh.Expect[T](c, "m afterwards", m, i.M)
		}
	})
	c.Class(true, i.Op)
	c.Class(dirty, "dirty output")
	nt(c, i)
}

func nt[T constraints.Number](c *vh.Case, i *vh.Inst[T]) {
	only1, only2, both := 0, 0, 0
	for k := range i.S.D {
		if !i.Binary {
			if i.S.D[k] != 0 {
				both++
			}
			continue
		}
		switch a, b := i.S.D[k] != 0, i.M.D[k] != 0; {
		case a && b:
			both++
		case a:
			only1++
		case b:
			only2++
		}
	}
	c.Class(only1 > 0 && only2 > 0 && both > 0, "patterns overlap in part")
	c.NonTrivial(len(i.S.D) > 1 && (only1 > 0 || only2 > 0 || both > 0) && (!i.Binary || (only1 > 0 && only2 > 0)))
}

func TestFunctions(t *testing.T) {
	vh.Check(t, vh.Types13(free[float64], free[int], free[int8], free[uint8], free[int32], free[float32], free[int16], free[int64], free[uint], free[uint16], free[uint32], free[uint64], free[uintptr]))
}

func methods[T constraints.Number](c *vh.Case) {
	i := vh.DrawInst[T](c, []string{"add", "sub", "neg"}, 0, vh.AnyNaN, false)
	if i.Op == "neg" && rapid.Bool().Draw(c.T, "scalar") {
		s := vh.Build(c, "s", i.FS, i.S)
		var alpha T
		switch rapid.IntRange(0, 4).Draw(c.T, "alpha") {
		case 0:
		case 1:
			alpha = 1
		case 2:
			alpha--
		default:
			alpha = vh.Val[T](c, vh.Exact)
		}
		c.Desc("scalar %v", alpha)
		vh.Rounds(c, func() {
			vh.Rewrite[T](c, "s", s, i.S, i.Pal)
		}, func() {
			w := vh.Mapm(i.S, func(v T) T {
				if v == 0 {
					return 0 // alpha is finite
				}
				return alpha * v
			})
			vh.Expect[T](c, "Scalar method", s.Scalar(alpha), w)
			vh.Expect[T](c, "Scalar function", gb.Scalar[T](vh.BG, s, alpha), w)
			vh.Expect[T](c, "s afterwards", s, i.S)
		})
		c.Class(true, "scalar")
		c.Class(alpha == 0, "scalar 0")
		c.NonTrivial(len(i.S.D) > 1 && i.S.NNZ() > 0)
		return
	}
	i.DrawSame()
	s, m := i.Operands()
	vh.Rounds(c, func() { i.Rewrite(s, m) }, func() {
		w, _ := want(i)
		var got gb.MatrixLogical[T]
		switch i.Op {
		case "add":
			got = s.Add(m)
		case "sub":
			got = s.Subtract(m)
		case "neg":
			got = s.Negative()
		}
		vh.Expect(c, i.Op+" method", got, w)
		vh.Expect[T](c, "s afterwards", s, i.S)
		if m != nil {
			vh.Expect[T](c, "m afterwards", m, i.M)
		}
		if i.Binary && rapid.IntRange(0, 3).Draw(c.T, "chain") == 0 { // (s+m)-m = s and s-m = -(m-s), on integers
			if !vh.IsFloat[T]() {
				vh.Expect[T](c, "(s+m)-m", s.Add(m).Subtract(m), i.S)
				vh.Expect[T](c, "(m-s).Scalar(-1)", m.Subtract(s).Scalar(T(0)-1), vh.Zip(i.S, i.M, func(x, y T) T { return x - y }))
			}
			vh.Expect[T](c, "self add", s.Add(s), vh.Mapm(i.S, func(x T) T { return x + x }))
			vh.Expect[T](c, "self subtract", s.Subtract(s), vh.Mapm(i.S, func(x T) T { return x - x }))
		}
	})
	c.Class(true, i.Op)
	nt(c, i)
}

func TestMethods(t *testing.T) {
	vh.Check(t, vh.Types13(methods[float64], methods[int], methods[int8], methods[uint8], methods[int32], methods[float32], methods[int16], methods[int64], methods[uint], methods[uint16], methods[uint32], methods[uint64], methods[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
