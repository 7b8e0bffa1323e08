package c10

import (
	"testing"

	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// calls records what an operator is given.
type calls[T constraints.Number] struct {
	n   map[T]int
	nan int
	all int
}

func (k *calls[T]) op(u func(T) T) func(T) T {
	return func(v T) T {
		k.all++
		if v != v {
			k.nan++
		} else {
			k.n[v]++
		}
		return u(v)
	}
}

func num[T constraints.Number](c *vh.Case) {
	i := vh.DrawInst[T](c, []string{"apply"}, 0, vh.AnyNaN, true)
	s, _ := i.Operands()
	mask, bits := vh.DrawMask(c, i.Prev.R, i.Prev.C)
	place := rapid.IntRange(0, 2).Draw(c.T, "in place") == 0
	var prev, want vh.Mat[T]
	var exp calls[T]
	prot := 0
	vh.Rounds(c, func() {
		if place {
			copy(i.S.D, want.D)
		}
		if mask != nil && rapid.Bool().Draw(c.T, "other mask") {
			vh.RewriteMask(c, mask, bits)
		}
		vh.Rewrite[T](c, "s", s, i.S, i.Pal)
	}, func() {
		stored := vh.Stored(i.FS, i.S)
		prev = i.Prev.Clone()
		out := i.Out()
		if place {
			out, prev = s, i.S.Clone()
			c.Desc("in place")
		} else {
			c.Desc("out=%v %v", i.FO, i.Prev)
		}
		want = prev.Clone()
		exp = calls[T]{n: map[T]int{}}
		count := exp.op(func(v T) T { return v })
		prot = 0
		for k := range want.D {
			if bits.D[k] {
				if stored.D[k] {
					prot++
				}
				continue
			}
			if stored.D[k] {
				count(i.S.D[k])
				want.D[k] = i.U(i.S.D[k])
			}
		}
		rec := calls[T]{n: map[T]int{}}
		vh.RunOp[T](vh.BG, "apply", s, nil, mask, out, rec.op(i.U))
		vh.Expect[T](c, "output", out, want)
		if !place {
			vh.Expect[T](c, "input afterwards", s, i.S)
		}
		if rec.all != exp.all || rec.nan != exp.nan {
			c.Failf("the operator was called %d times (%d on NaN), want %d (%d)", rec.all, rec.nan, exp.all, exp.nan)
		}
		for v, n := range exp.n {
			if rec.n[v] != n {
				c.Failf("the operator was called %d times on %v, want %d", rec.n[v], v, n)
			}
		}
	})
	moved := false
	for k := range want.D {
		moved = moved || !vh.Same(want.D[k], prev.D[k])
	}
	c.Class(place, "in place")
	c.Class(prot > 0, "protects stored elements")
	c.Class(i.S.R != i.S.C, "rectangular")
	c.NonTrivial(moved && len(want.D) > 1 && exp.all > 0)
}

func TestApply(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
