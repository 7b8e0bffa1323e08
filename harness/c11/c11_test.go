package c11

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func want[T constraints.Number](c *vh.Case, i *vh.Inst[T], out gb.Matrix[T], bits bool) {
	for k := range i.S.D {
		r, cc := k/i.S.C, k%i.S.C
		x, y, g := i.S.D[k], i.M.D[k], out.At(r, cc)
		switch i.Op {
		case "ewadd", "ewaddv":
			w := x
			if y != 0 {
				w = y
			}
			if g != w {
				c.Failf("%s of %v and %v into %v: (%d,%d) = %v for operands %v and %v, want %v", i.Op, i.FS, i.FM, i.FO, r, cc, g, x, y, w)
			}
		default:
			if g != 0 && (x == 0 || y == 0) {
				c.Failf("%s of %v and %v into %v: (%d,%d) = %v outside the intersection", i.Op, i.FS, i.FM, i.FO, r, cc, g)
			}
			if bits && x == 1 && y == 1 && g != 1 {
				c.Failf("%s of %v and %v into %v: (%d,%d) = %v, want 1", i.Op, i.FS, i.FM, i.FO, r, cc, g)
			}
		}
	}
}

func num[T constraints.Number](c *vh.Case) {
	vals := vh.Bit
	if rapid.IntRange(0, 2).Draw(c.T, "general") == 0 {
		vals = vh.Any
	}
	i := vh.DrawInst[T](c, []string{"ewmul", "ewadd", "ewmulv", "ewaddv"}, 0, vals, false)
	i.DrawSame()
	s, m := i.Operands()
	out := i.Out()
	c.Desc("into %v", i.FO)
	var mask gb.Mask
	if rapid.Bool().Draw(c.T, "empty mask") {
		mask = gb.NewEmptyMask(i.Prev.R, i.Prev.C)
	}
	vh.Rounds(c, func() {
		i.Rewrite(s, m)
		out = i.Out()
	}, func() {
		i.Run(vh.BG, s, m, mask, out)
		want(c, i, out, vals == vh.Bit)
		if out.Rows() != i.S.R || out.Columns() != i.S.C {
			c.Failf("shape of the output changed")
		}
		vh.Expect[T](c, "s afterwards", s, i.S)
		vh.Expect[T](c, "m afterwards", m, i.M)
	})
	o1, o2, b := 0, 0, 0
	for k := range i.S.D {
		switch p, q := i.S.D[k] != 0, i.M.D[k] != 0; {
		case p && q:
			b++
		case p:
			o1++
		case q:
			o2++
		}
	}
	c.Class(true, i.Op)
	c.Class(vals == vh.Any, "general values")
	c.Class(true, i.FS.String()+" "+i.FM.String())
	c.NonTrivial(o1 > 0 && o2 > 0 && b > 0)
}

func TestPatterns(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
