package c04

import (
	"context"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	"github.com/rossmerr/graphblas/sort"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// cancelling is a context that, in some cases, is cancelled after some steps.
func cancelling(c *vh.Case) context.Context {
	if vh.Uni(c, 4, "cancel") != 0 {
		return vh.BG
	}
	n := 1 + vh.Uni(c, rapid.SampledFrom([]int{1, 4, 30}).Draw(c.T, "steps"), "at")
	c.Desc("cancelled at poll %d", n)
	c.Class(true, "cancelled")
	return vh.NewPollCtx(n)
}

// side is a matrix or array under test, with its model.
type side[T constraints.Number] struct {
	name string
	m    gb.MatrixLogical[T]
	want vh.Mat[T]
	arr  []T
}

func (s *side[T]) check(c *vh.Case, when string) {
	if s.arr != nil {
		for i, v := range s.arr {
			if !vh.Same(v, s.want.D[i]) {
				c.Failf("%s: %s[%d] = %v, want %v", when, s.name, i, v, s.want.D[i])
			}
		}
		return
	}
	if d := vh.Diff(s.m, s.want); d != "" {
		c.Failf("%s: %s: %s", when, s.name, d)
	}
	n := 0
	for it := s.m.Enumerate(); it.HasNext() && n <= len(s.want.D); n++ {
		r, cc, v := it.Next()
		if r >= s.want.R || cc >= s.want.C || !vh.Same(v, s.want.At(r, cc)) {
			c.Failf("%s: %s enumerates (%d,%d,%v), want %v", when, s.name, r, cc, v, s.want)
		}
	}
}

// derive takes something from a matrix as it is at this moment.
func (s *side[T]) derive(c *vh.Case, kind, p int) *side[T] {
	r, k := p/s.want.C, p%s.want.C
	var x gb.MatrixLogical[T]
	switch kind {
	case 0:
		a := s.m.RowsAtToArray(r)
		return &side[T]{name: "array of a row", arr: a, want: vh.Mat[T]{R: s.want.C, C: 1, D: append([]T(nil), s.want.D[r*s.want.C:(r+1)*s.want.C]...)}}
	case 1:
		x = s.m.RowsAt(r)
		return &side[T]{name: "row", m: x, want: vh.Mat[T]{R: s.want.C, C: 1, D: append([]T(nil), s.want.D[r*s.want.C:(r+1)*s.want.C]...)}}
	case 2:
		x = s.m.ColumnsAt(k)
		w := vh.NewMat[T](s.want.R, 1)
		for i := range w.D {
			w.D[i] = s.want.At(i, k)
		}
		return &side[T]{name: "column", m: x, want: w}
	case 3:
		return &side[T]{name: "transpose", m: s.m.Transpose(), want: s.want.Tr()}
	case 4:
		return &side[T]{name: "logical copy", m: s.m.CopyLogical(), want: s.want.Clone()}
	}
	if x, ok := s.m.(gb.Matrix[T]); ok {
		return &side[T]{name: "copy", m: x.Copy(), want: s.want.Clone()}
	}
	return &side[T]{name: "copy", m: s.m.CopyLogical(), want: s.want.Clone()}
}

// write changes one side in a drawn way and returns what was derived from it meanwhile.
func (s *side[T]) write(c *vh.Case, pal []T) (more []*side[T]) {
	n := len(s.want.D)
	if n == 0 {
		return
	}
	// something is derived at this step of a map, or within an update
	at, what := -1, 0
	if s.arr == nil && vh.Uni(c, 2, "meanwhile") == 0 {
		at, what = vh.Uni(c, min(n, 8), "at"), vh.Uni(c, 8, "what")
		defer func() {
			c.Class(len(more) > 0, "derived meanwhile")
		}()
	}
	p := vh.Uni(c, n, "wpos")
	v := rapid.SampledFrom(append([]T{0}, pal...)).Draw(c.T, "wval")
	kind := rapid.IntRange(0, 9).Draw(c.T, "wkind")
	c.Desc("write(%s,%d,%v,%d)", s.name, p, v, kind)
	if s.arr != nil {
		s.arr[p] = v
		s.want.D[p] = v
		return
	}
	switch kind {
	case 0:
		s.m.Clear()
		s.want = vh.NewMat[T](s.want.R, s.want.C)
	case 1:
		s.m.Update(p/s.want.C, p%s.want.C, func(T) T {
			if at == 0 {
				more = append(more, s.derive(c, what, p))
			}
			return v
		})
		s.want.D[p] = v
	case 2:
		if x, ok := s.m.(gb.Matrix[T]); ok {
			step := 0
			for it := x.Map(); it.HasNext(); step++ {
				if step == at && p%2 == 0 {
					more = append(more, s.derive(c, what, p))
				}
				it.Map(func(r, cc int, o T) T {
					if step == at && p%2 != 0 {
						more = append(more, s.derive(c, what, p))
					}
					s.want.Set(r, cc, o+v)
					return o + v
				})
			}
		}
	case 3: // every position
		for i := range s.want.D {
			s.m.Set(i/s.want.C, i%s.want.C, v)
			s.want.D[i] = v
		}
	default:
		s.m.Set(p/s.want.C, p%s.want.C, v)
		s.want.D[p] = v
	}
	if len(more) > 0 {
		c.Desc("meanwhile %s at %d", more[0].name, at)
	}
	return
}

// play checks that later writes to any side show on that side only.
func play[T constraints.Number](c *vh.Case, sides []*side[T], pal []T) {
	for _, s := range sides {
		s.check(c, "right after")
	}
	for k := rapid.IntRange(1, 6).Draw(c.T, "writes"); k > 0; k-- {
		i := vh.Uni(c, len(sides), "side")
		sides = append(sides, sides[i].write(c, pal)...)
		for _, s := range sides {
			s.check(c, "after a write to "+sides[i].name)
		}
	}
}

// bound is n, in some cases none.
func bound(c *vh.Case, n int) int {
	if vh.Uni(c, 6, "unbounded") == 0 {
		return 0
	}
	return n
}

func derived[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, bound(c, 10), false)
	pal := vh.Palette[T](c, vh.Exact)
	m := vh.GenMat(c, r, cc, pal)
	a, f := vh.BuildAny(c, "a", m)
	src := &side[T]{name: "source", m: a, want: m.Clone()}
	sides := []*side[T]{src}
	add := func(name string, x gb.MatrixLogical[T]) {
		sides = append(sides, &side[T]{name: name, m: x, want: vh.Snap(x)})
	}
	kind := rapid.IntRange(0, 15).Draw(c.T, "kind")
	var before []*side[T]
	if rapid.IntRange(0, 3).Draw(c.T, "prewrite") == 0 { // a source with spare capacity
		for k := 0; k < 3; k++ {
			before = append(before, src.write(c, pal)...)
		}
		m = src.want.Clone()
	}
	var name string
	switch kind {
	case 0, 1:
		name = "Copy"
		add(name, a.Copy())
	case 2, 3:
		name = "CopyLogical"
		add(name, a.CopyLogical())
	case 4:
		name = "RowsAt"
		add(name, a.RowsAt(vh.Uni(c, r, "row")))
	case 5:
		name = "ColumnsAt"
		add(name, a.ColumnsAt(vh.Uni(c, cc, "col")))
	case 6:
		name = "RowsAtToArray"
		x := a.RowsAtToArray(vh.Uni(c, r, "row"))
		sides = append(sides, &side[T]{name: name, arr: x, want: vh.Mat[T]{R: len(x), C: 1, D: append([]T(nil), x...)}})
	case 7:
		name = "Transpose"
		add(name, a.Transpose())
	case 8:
		name = "TransposeToCSR/CSC"
		add(name, gb.TransposeToCSR[T](cancelling(c), a))
		add(name, gb.TransposeToCSC[T](cancelling(c), a))
	case 9:
		name = "Scalar"
		alpha := rapid.SampledFrom(append([]T{0, 1}, pal...)).Draw(c.T, "alpha")
		if rapid.Bool().Draw(c.T, "function") {
			add(name, gb.Scalar[T](cancelling(c), a, alpha))
		} else {
			add(name, a.Scalar(alpha))
		}
	case 10:
		name = "Negative"
		add(name, a.Negative())
	case 11:
		name = "ReduceMatrixToVector"
		add(name, gb.ReduceMatrixToVector[T](cancelling(c), a))
	case 12, 13:
		b, _ := vh.BuildAny(c, "b", vh.GenMat(c, r, cc, pal))
		add("other operand", b)
		name = "Add"
		if kind == 12 {
			add(name, a.Add(b))
		} else {
			name = "Subtract"
			add(name, a.Subtract(b))
		}
	case 14:
		b, _ := vh.BuildAny(c, "b", vh.GenMat(c, cc, vh.Dim(c, "n", 10), pal))
		add("other operand", b)
		name = "Multiply"
		add(name, a.Multiply(b))
	case 15:
		name = "two results"
		add("Copy", a.Copy())
		add("Copy of Copy", sides[1].m.CopyLogical())
		add("Transpose", a.Transpose())
	}
	c.Desc("%s", name)
	c.Class(true, name)
	c.Class(true, f.String())
	if d := vh.Diff[T](a, m); d != "" {
		c.Failf("%s changed its operand: %s", name, d)
	}
	play(c, append(sides, before...), pal)
	c.NonTrivial(m.NNZ() > 0 && r*cc > 1)
}

func TestDerived(t *testing.T) {
	vh.Check(t, vh.Types13(derived[float64], derived[int], derived[int8], derived[uint8], derived[int32], derived[float32], derived[int16], derived[int64], derived[uint], derived[uint16], derived[uint32], derived[uint64], derived[uintptr]))
}

// others: results of the packages built on top.
func others(c *vh.Case) {
	r := vh.Dim(c, "r", 7)
	if vh.Uni(c, 8, "larger") == 0 {
		r = vh.Dim(c, "r", 24)
	}
	pal := vh.Palette[float64](c, vh.Tiny)
	m := vh.GenMat(c, r, r, pal)
	kind := rapid.IntRange(0, 6).Draw(c.T, "kind")
	a, _ := vh.BuildAny(c, "a", m)
	sides := []*side[float64]{{name: "source", m: a, want: m.Clone()}}
	add := func(name string, x gb.MatrixLogical[float64]) {
		sides = append(sides, &side[float64]{name: name, m: x, want: vh.Snap(x)})
	}
	switch kind {
	case 0, 1:
		b, _ := vh.BuildAny(c, "b", vh.GenMat(c, r, r, pal))
		add("other operand", b)
		add("strassen", strassen.MultiplyCrossoverPoint[float64](cancelling(c), a, b, rapid.IntRange(1, 4).Draw(c.T, "x")))
	case 2:
		add("reduced", reduced.Reduced[float64](a))
	case 3:
		symmetric.Symmetric[float64](a)
	case 4:
		skewsymmetric.SkewSymmetric[float64](a)
	case 5:
		b, _ := vh.BuildAny(c, "graph", vh.Mapm(m, func(v float64) float64 { return v * v }))
		add("graph", b)
		add("search", breadthfirst.Search[float64](cancelling(c), b, 0, func(gb.Vector[float64]) bool { return false }))
	case 6:
		x := gb.NewMutexMatrix[float64](a)
		add("mutex copy", x.Copy())
		add("mutex transpose", x.Transpose())
		add("mutex row", x.RowsAt(0))
	}
	if d := vh.Diff[float64](a, m); d != "" {
		c.Failf("the operation %d changed its operand: %s", kind, d)
	}
	play(c, sides, pal)
	c.NonTrivial(m.NNZ() > 0 && r > 1)
}

func TestOthers(t *testing.T) { vh.Check(t, others) }

// TestSort: sorting leaves its argument and shares nothing with it.
func TestSort(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		r, cc := vh.Shape(c, rapid.SampledFrom([]int{6, 6, 6, 20}).Draw(c.T, "max"), false)
		pal := []rune{1, 'a', 'b', 'é', 0x10FFFF}
		m := vh.GenMat(c, r, cc, pal)
		a, _ := vh.BuildAny(c, "a", m)
		var res gb.MatrixRune
		if rapid.Bool().Draw(c.T, "rows") {
			res = sort.BubbleRow(cancelling(c), a)
		} else {
			res = sort.BubbleColumns(cancelling(c), a)
		}
		if d := vh.Diff[rune](a, m); d != "" {
			c.Failf("sorting changed its argument: %s", d)
		}
		play(c, []*side[rune]{{name: "source", m: a, want: m.Clone()}, {name: "sorted", m: res, want: vh.Snap[rune](res)}}, pal)
		c.NonTrivial(m.NNZ() > 0 && r*cc > 1)
	})
}

// purity: operations writing to a separate output leave operands and mask unchanged, and the
// output is independent of them afterwards.
func purity[T constraints.Number](c *vh.Case) {
	i := vh.DrawInst[T](c, vh.AllOps, bound(c, 8), vh.Exact, true)
	i.DrawSame()
	s, m := i.Operands()
	out := i.Out()
	mask, _ := vh.DrawMask(c, i.Prev.R, i.Prev.C)
	sides := []*side[T]{{name: "s", m: s, want: i.S.Clone()}}
	if m != nil && !i.Same {
		sides = append(sides, &side[T]{name: "m", m: m, want: i.M.Clone()})
	}
	var bits []bool
	probe := func() (b []bool) {
		if mask == nil {
			return
		}
		for k := range i.Prev.D {
			b = append(b, mask.Element(k/i.Prev.C, k%i.Prev.C))
		}
		return
	}
	bits = probe()
	vals := s.Values()
	i.Run(cancelling(c), s, m, mask, out)
	if s.Values() != vals {
		c.Failf("%s changed the number of values of s from %d to %d", i.Op, vals, s.Values())
	}
	sides = append(sides, &side[T]{name: "output", m: out, want: vh.Snap[T](out)})
	play(c, sides, vh.Palette[T](c, vh.Exact))
	for k, b := range probe() {
		if b != bits[k] {
			c.Failf("the mask changed at %d", k)
		}
	}
	c.Class(true, i.Op)
	c.NonTrivial(i.S.NNZ() > 0 && len(i.Prev.D) > 1)
}

func TestPurity(t *testing.T) {
	vh.Check(t, vh.Types13(purity[float64], purity[int], purity[int8], purity[uint8], purity[int32], purity[float32], purity[int16], purity[int64], purity[uint], purity[uint16], purity[uint32], purity[uint64], purity[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
