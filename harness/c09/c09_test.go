package c09

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// elements: a mask element is true exactly when the value there is non-zero.
func elements[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, false)
	pal := vh.Palette[T](c, vh.AnyNaN)
	m := vh.GenMat(c, r, cc, pal)
	s, _ := vh.BuildAny(c, "mask", m)
	var x gb.Mask = s
	if rapid.IntRange(0, 4).Draw(c.T, "mutex") == 0 {
		x = gb.NewMutexMatrix[T](s)
	}
	if x.Rows() != r || x.Columns() != cc {
		c.Failf("mask of shape %dx%d, want %dx%d", x.Rows(), x.Columns(), r, cc)
	}
	neg := false
	vh.Rounds(c, func() { vh.Rewrite[T](c, "mask", s, m, pal) }, func() {
		for i, v := range m.D {
			neg = neg || v < 0
			if g := x.Element(i/cc, i%cc); g != (v != 0) {
				c.Failf("Element(%d,%d) = %v for value %v", i/cc, i%cc, g, v)
			}
		}
	})
	e := gb.NewEmptyMask(r, cc)
	if e.Rows() != r || e.Columns() != cc {
		c.Failf("empty mask of shape %dx%d", e.Rows(), e.Columns())
	}
	for i := range m.D {
		if e.Element(i/cc, i%cc) {
			c.Failf("the empty mask marks a position")
		}
	}
	vh.Expect[T](c, "mask afterwards", s, m)
	c.Class(neg, "negative value")
	c.NonTrivial(len(m.D) > 1 && m.NNZ() > 0 && m.NNZ() < len(m.D))
}

func TestElements(t *testing.T) {
	vh.Check(t, vh.Types13(elements[float64], elements[int], elements[int8], elements[uint8], elements[int32], elements[float32], elements[int16], elements[int64], elements[uint], elements[uint16], elements[uint32], elements[uint64], elements[uintptr]))
}

func masked[T constraints.Number](c *vh.Case) {
	vals := vh.Exact
	if rapid.Bool().Draw(c.T, "tiny") {
		vals = vh.Tiny
	}
	ops := vh.AllOps
	if vh.Uni(c, 6, "any values") == 0 { // not for sums of several terms
		ops, vals = vh.AllOps[3:], vh.AnyNaN
	}
	i := vh.DrawInst[T](c, ops, 0, vals, true)
	i.DrawSame()
	s, m := i.Operands()
	free, out := i.Out(), i.Out()
	c.Desc("out=%v %v", i.FO, i.Prev)
	mask, bits := vh.DrawMask(c, i.Prev.R, i.Prev.C)
	nz := func(v T) bool { return v != 0 }
	own, with := false, 0
	switch vh.Uni(c, 12, "mask is") {
	case 0:
		if i.S.R == i.Prev.R && i.S.C == i.Prev.C {
			c.Desc("mask is s")
			c.Class(true, "mask is an operand")
			mask, bits, with = s, vh.Mapm(i.S, nz), 1
		}
	case 1:
		if i.Binary && i.M.R == i.Prev.R && i.M.C == i.Prev.C {
			c.Desc("mask is m")
			c.Class(true, "mask is an operand")
			mask, bits, with = m, vh.Mapm(i.M, nz), 2
		}
	case 2: // what the output holds when the call is made
		if i.Op != "ewadd" && i.Op != "ewaddv" {
			c.Desc("mask is the output")
			c.Class(true, "mask is the output")
			mask, bits, own = out, vh.Mapm(i.Prev, nz), true
		}
	}
	prot, changed := 0, 0
	round := func() {
		var before []bool
		if mask != nil && !own {
			for k := range bits.D {
				before = append(before, mask.Element(k/bits.C, k%bits.C))
			}
		}
		i.Run(vh.BG, s, m, nil, free)
		i.Run(vh.BG, s, m, mask, out)
		prot, changed = 0, 0
		for k := range i.Prev.D {
			r, cc := k/i.Prev.C, k%i.Prev.C
			g, u := out.At(r, cc), free.At(r, cc)
			if bits.D[k] {
				prot++
				if !vh.Same(u, i.Prev.D[k]) {
					changed++
				}
				if !vh.Same(g, i.Prev.D[k]) {
					c.Failf("%s: masked position (%d,%d) of the %v output changed from %v to %v", i.Op, r, cc, i.FO, i.Prev.D[k], g)
				}
			} else if !vh.Same(g, u) {
				c.Failf("%s: position (%d,%d) of the %v output is %v under the mask, %v without", i.Op, r, cc, i.FO, g, u)
			}
		}
		for k, b := range before {
			if mask.Element(k/bits.C, k%bits.C) != b {
				c.Failf("%s changed its mask", i.Op)
			}
		}
		vh.Expect[T](c, "s afterwards", s, i.S)
	}
	if own {
		round()
	} else {
		vh.Rounds(c, func() {
			if w := vh.Uni(c, 3, "rewrite"); w > 0 {
				i.Rewrite(s, m)
				switch with {
				case 1:
					bits = vh.Mapm(i.S, nz)
				case 2:
					bits = vh.Mapm(i.M, nz)
				}
			} else if with == 0 && mask != nil {
				vh.RewriteMask(c, mask, bits)
			}
			if rapid.Bool().Draw(c.T, "other previous content") {
				i.Prev = vh.GenMat(c, i.Prev.R, i.Prev.C, i.Pal)
			}
			free, out = i.Out(), i.Out()
		}, round)
	}
	c.Class(true, i.Op)
	c.Class(changed > 0, "protected from a change: "+i.Op)
	c.NonTrivial(changed > 0 && prot < len(i.Prev.D))
}

func TestMasked(t *testing.T) {
	vh.Check(t, vh.Types13(masked[float64], masked[int], masked[int8], masked[uint8], masked[int32], masked[float32], masked[int16], masked[int64], masked[uint], masked[uint16], masked[uint32], masked[uint64], masked[uintptr]))
}

// reductions leave out masked positions
func reduced[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, true)
	pal := vh.Palette[T](c, vh.Exact)
	m := vh.GenMat(c, r, cc, pal)
	s, _ := vh.BuildAny(c, "s", m)
	mask, bits := vh.DrawMask(c, r, cc)
	vm, vb := vh.DrawMask(c, r, 1)
	skipped := false
	vh.Rounds(c, func() {
		switch vh.Uni(c, 3, "rewrite") {
		case 0:
			vh.RewriteMask(c, mask, bits)
			vh.RewriteMask(c, vm, vb)
		default:
			vh.Rewrite[T](c, "s", s, m, pal)
		}
	}, func() {
		var want T
		for k, v := range m.D {
			if !bits.D[k] {
				want += v
			} else if v != 0 {
				skipped = true
			}
		}
		if g := gb.ReduceMatrixToScalar[T](vh.BG, s, mask); g != want {
			c.Failf("ReduceMatrixToScalar under a mask = %v, want %v", g, want)
		}
		if v, ok := s.(gb.VectorLogial[T]); ok {
			if g := gb.ReduceVectorToScalar[T](vh.BG, v, mask); g != want {
				c.Failf("ReduceVectorToScalar under a mask = %v, want %v", g, want)
			}
		}
		got := gb.ReduceMatrixToVectorWithMonoID[T](vh.BG, s, gb.DefaultMonoIDAddition[T](), vm)
		if got.Length() != cc {
			c.Failf("ReduceMatrixToVectorWithMonoID has length %d, want %d", got.Length(), cc)
		}
		for k := 0; k < cc; k++ {
			var w T
			for i := 0; i < r; i++ {
				if !vb.At(i, 0) {
					w += m.At(i, k)
				}
			}
			if g := got.AtVec(k); g != w {
				c.Failf("column %d reduced under a mask = %v, want %v", k, g, w)
			}
		}
	})
	c.NonTrivial(skipped)
}

func TestReductions(t *testing.T) {
	vh.Check(t, vh.Types13(reduced[float64], reduced[int], reduced[int8], reduced[uint8], reduced[int32], reduced[float32], reduced[int16], reduced[int64], reduced[uint], reduced[uint16], reduced[uint32], reduced[uint64], reduced[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
