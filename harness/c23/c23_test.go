package c23

import (
	"fmt"
	"sync"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	"github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// world is what the goroutines share: two matrices of one shape, one to multiply with, a column,
// a square matrix and a mask.
type world[T constraints.Number] struct {
	a, b, right, vec, col, sq gb.Matrix[T]
	mask, cmask               gb.Mask
	id                        binaryop.MonoID[T]
	u                         unaryop.UnaryOp[T]
}

type spec[T constraints.Number] struct {
	a, b, right, vec, col, sq vh.Mat[T]
	f                         [6]vh.F
	mask, cmask               vh.Mat[int8]
	fm                        [2]vh.F
	none                      [2]bool // an empty mask instead
}

func (s spec[T]) world() *world[T] {
	op := binaryop.Addition[T]()
	mask, cmask := gb.Mask(vh.Plain(s.fm[0], s.mask)), gb.Mask(vh.Plain(s.fm[1], s.cmask))
	if s.none[0] {
		mask = gb.NewEmptyMask(s.mask.R, s.mask.C)
	}
	if s.none[1] {
		cmask = gb.NewEmptyMask(s.cmask.R, s.cmask.C)
	}
	return &world[T]{vh.Plain(s.f[0], s.a), vh.Plain(s.f[1], s.b), vh.Plain(s.f[2], s.right), vh.Plain(s.f[3], s.vec), vh.Plain(s.f[4], s.col), vh.Plain(s.f[5], s.sq),
		mask, cmask, binaryop.NewMonoID(T(0), op), unaryop.NewUnaryOp(func(v T) T { return v + v + 1 })}
}

func show[T constraints.Number](m gb.MatrixLogical[T]) string { return fmt.Sprint(vh.Snap(m)) }

// acts are the reading operations; p and q are drawn numbers.
func acts[T constraints.Number]() map[string]func(w *world[T], p, q int) string {
	out := func(w *world[T], m gb.Matrix[T], q int) gb.Matrix[T] {
		return vh.Empty[T](vh.F(q%3), m.Rows(), m.Columns())
	}
	return map[string]func(w *world[T], p, q int) string{
		"At": func(w *world[T], p, q int) string {
			return fmt.Sprint(w.a.At(p%w.a.Rows(), q%w.a.Columns()), w.vec.At(p%w.vec.Rows(), 0))
		},
		"AtVec": func(w *world[T], p, q int) string {
			v := w.vec.(gb.Vector[T])
			return fmt.Sprint(v.AtVec(p%v.Length()), v.Length())
		},
		"Element": func(w *world[T], p, q int) string {
			return fmt.Sprint(w.a.Element(p%w.a.Rows(), q%w.a.Columns()), w.mask.Element(p%w.a.Rows(), q%w.a.Columns()), w.vec.Element(p%w.vec.Rows(), 0))
		},
		"RowsAt": func(w *world[T], p, q int) string {
			return show[T](w.a.RowsAt(p%w.a.Rows())) + show[T](w.vec.RowsAt(p%w.vec.Rows()))
		},
		"ColumnsAt": func(w *world[T], p, q int) string {
			return show[T](w.a.ColumnsAt(q%w.a.Columns())) + show[T](w.vec.ColumnsAt(0))
		},
		"RowsAtToArray": func(w *world[T], p, q int) string { return fmt.Sprint(w.a.RowsAtToArray(p % w.a.Rows())) },
		"Enumerate": func(w *world[T], p, q int) string {
			s := ""
			for _, m := range []gb.Matrix[T]{w.a, w.vec} {
				for it := m.Enumerate(); it.HasNext(); {
					r, c, v := it.Next()
					s += fmt.Sprint(r, c, v, ";")
				}
			}
			return s
		},
		"Equal": func(w *world[T], p, q int) string {
			return fmt.Sprint(w.a.Equal(w.b), w.b.Equal(w.a), w.a.Equal(w.a), gb.Equal[T](vh.BG, w.a, w.b), w.vec.Equal(w.col))
		},
		"NotEqual": func(w *world[T], p, q int) string {
			return fmt.Sprint(w.a.NotEqual(w.b), gb.NotEqual[T](vh.BG, w.b, w.a))
		},
		"Copy":        func(w *world[T], p, q int) string { return show[T](w.a.Copy()) + show[T](w.vec.Copy()) },
		"CopyLogical": func(w *world[T], p, q int) string { return show[T](w.a.CopyLogical()) + show[T](w.vec.CopyLogical()) },
		"Scalar":      func(w *world[T], p, q int) string { return show[T](w.a.Scalar(2)) + show[T](w.vec.Scalar(3)) },
		"Multiply":    func(w *world[T], p, q int) string { return show[T](w.a.Multiply(w.right)) },
		"Add":         func(w *world[T], p, q int) string { return show[T](w.a.Add(w.b)) + show[T](w.vec.Add(w.col)) },
		"Subtract":    func(w *world[T], p, q int) string { return show[T](w.a.Subtract(w.b)) + show[T](w.vec.Subtract(w.col)) },
		"Negative":    func(w *world[T], p, q int) string { return show[T](w.a.Negative()) + show[T](w.vec.Negative()) },
		"Transpose": func(w *world[T], p, q int) string {
			return show[T](w.a.Transpose()) + show[T](gb.TransposeToCSR[T](vh.BG, w.a)) + show[T](gb.TransposeToCSC[T](vh.BG, w.b)) + show[T](w.vec.Transpose())
		},
		"Values": func(w *world[T], p, q int) string {
			return fmt.Sprint(w.a.Values(), w.a.Size(), w.a.Rows(), w.a.Columns(), w.vec.Values(), gb.IsSparseMatrix[T](w.a))
		},
		"reduce": func(w *world[T], p, q int) string {
			return fmt.Sprint(gb.ReduceMatrixToScalar[T](vh.BG, w.a, w.mask), gb.ReduceMatrixToScalarWithMonoID[T](vh.BG, w.b, w.id, w.mask),
				show[T](gb.ReduceMatrixToVector[T](vh.BG, w.a)), show[T](gb.ReduceMatrixToVectorWithMonoID[T](vh.BG, w.b, w.id, w.cmask)))
		},
		"functions": func(w *world[T], p, q int) string {
			s := ""
			for _, op := range []string{"add", "sub", "ewmul", "ewadd", "neg", "apply", "transpose"} {
				o := out(w, w.a, q)
				mask := w.mask
				if op == "transpose" {
					o, mask = vh.Empty[T](vh.F(q%3), w.a.Columns(), w.a.Rows()), nil
				}
				vh.RunOp(vh.BG, op, w.a, w.b, mask, o, w.u.Apply)
				s += show[T](o)
			}
			return s
		},
		"products": func(w *world[T], p, q int) string {
			o := vh.Empty[T](vh.F(q%3), w.a.Rows(), w.right.Columns())
			gb.MatrixMatrixMultiply[T](vh.BG, w.a, w.right, nil, o)
			v := gb.NewDenseVectorN[T](w.a.Rows())
			gb.MatrixVectorMultiply[T](vh.BG, w.a, w.col.(gb.Vector[T]), w.cmask, v)
			x := gb.NewSparseVector[T](w.a.Rows())
			gb.VectorMatrixMultiply[T](vh.BG, w.col.(gb.Vector[T]), w.a, w.cmask, x)
			return show[T](o) + show[T](v) + show[T](x)
		},
		"vectors": func(w *world[T], p, q int) string {
			x, y := gb.NewDenseVectorN[T](w.vec.Rows()), gb.NewSparseVector[T](w.vec.Rows())
			v := w.vec.(gb.Vector[T])
			gb.ElementWiseVectorAdd[T](vh.BG, v, v, w.cmask, x)
			gb.ElementWiseVectorMultiply[T](vh.BG, v, v, nil, y)
			return show[T](x) + show[T](y) + fmt.Sprint(gb.ReduceVectorToScalar[T](vh.BG, v, w.cmask))
		},
		"square": func(w *world[T], p, q int) string {
			return show[T](strassen.MultiplyCrossoverPoint[T](vh.BG, w.sq, w.sq, 2)) +
				fmt.Sprint(symmetric.Symmetric[T](w.sq), skewsymmetric.SkewSymmetric[T](w.sq)) +
				show[T](breadthfirst.Search[T](vh.BG, w.sq, p%w.sq.Rows(), func(v gb.Vector[T]) bool { return v.AtVec(q%v.Length()) != 0 }))
		},
		"runes": func(w *world[T], p, q int) string {
			a, ok := any(w.a).(gb.MatrixLogical[rune])
			if !ok {
				return ""
			}
			b := any(w.b).(gb.MatrixLogical[rune])
			return fmt.Sprint(gb.Compare(vh.BG, a, b), gb.Less(vh.BG, a, b), gb.Greater(vh.BG, a, b), gb.String(vh.BG, a),
				vh.Snap[rune](sort.BubbleRow(vh.BG, a)), vh.Snap[rune](sort.BubbleColumns(vh.BG, b)))
		},
	}
}

var names = []string{"At", "AtVec", "Element", "RowsAt", "ColumnsAt", "RowsAtToArray", "Enumerate", "Equal", "NotEqual", "Copy", "CopyLogical", "Scalar",
	"Multiply", "Add", "Subtract", "Negative", "Transpose", "Values", "reduce", "functions", "products", "vectors", "square", "runes"}

type act struct {
	name string
	p, q int
}

func num[T constraints.Number](c *vh.Case) {
	r, cc := rapid.IntRange(1, 6).Draw(c.T, "r"), rapid.IntRange(1, 6).Draw(c.T, "c")
	pal := vh.Palette[T](c, vh.Tiny)
	if vh.Bits[T]() == 32 && !vh.IsFloat[T]() {
		for i := range pal {
			if pal[i] < 0 {
				pal[i] = -pal[i]
			}
		}
	}
	n := rapid.IntRange(1, 4).Draw(c.T, "n")
	s := spec[T]{a: vh.GenMat(c, r, cc, pal), b: vh.GenMat(c, r, cc, pal), right: vh.GenMat(c, cc, n, pal), vec: vh.GenMat(c, r, 1, pal),
		col: vh.GenMat(c, cc, 1, pal), sq: vh.GenMat(c, 4, 4, pal), mask: vh.GenMat(c, r, cc, []int8{1}), cmask: vh.GenMat(c, r, 1, []int8{1})}
	if rapid.IntRange(0, 3).Draw(c.T, "same") == 0 {
		s.b = s.a.Clone()
	}
	if s.vec.R != s.col.R { // vec and col are added in some acts
		s.vec = s.col.Clone()
		s.cmask = vh.GenMat(c, r, 1, []int8{1})
	}
	s.f = [6]vh.F{vh.PickF(c, "fa", cc), vh.PickF(c, "fb", cc), vh.PickF(c, "fr", n), vh.DVec + vh.F(rapid.IntRange(0, 1).Draw(c.T, "fv")),
		vh.DVec + vh.F(rapid.IntRange(0, 1).Draw(c.T, "fc")), vh.F(rapid.IntRange(0, 2).Draw(c.T, "fs"))}
	s.fm = [2]vh.F{vh.PickF(c, "fm", cc), vh.PickF(c, "fm1", 1)}
	s.none = [2]bool{vh.Uni(c, 4, "empty mask") == 0, vh.Uni(c, 4, "empty mask") == 0}
	c.Class(s.none[0] || s.none[1], "empty mask")
	c.Desc("%v", s)
	table := acts[T]()
	gs := rapid.IntRange(2, 4).Draw(c.T, "goroutines")
	list := make([][]act, gs)
	focus := rapid.IntRange(0, 1).Draw(c.T, "focus") == 0
	one := rapid.SampledFrom(names).Draw(c.T, "focus on")
	for g := range list {
		for k := rapid.IntRange(1, 4).Draw(c.T, "acts"); k > 0; k-- {
			a := act{rapid.SampledFrom(names).Draw(c.T, "act"), rapid.IntRange(0, 11).Draw(c.T, "p"), rapid.IntRange(0, 11).Draw(c.T, "q")}
			if focus && rapid.Bool().Draw(c.T, "focus here") {
				a.name = one
			}
			if a.name == "vectors" && s.vec.R != r {
				a.name = "Copy"
			}
			list[g] = append(list[g], a)
		}
	}
	c.Desc("%v", list)
	// alone, on equal matrices that are not shared
	want := map[act]string{}
	for _, l := range list {
		for _, a := range l {
			if _, ok := want[a]; !ok {
				want[a] = table[a.name](s.world(), a.p, a.q)
			}
		}
	}
	w := s.world()
	got := make([][]string, gs)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range list {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, a := range list[g] {
				got[g] = append(got[g], table[a.name](w, a.p, a.q))
			}
		}()
	}
	close(start)
	wg.Wait()
	for g, l := range list {
		for i, a := range l {
			if got[g][i] != want[a] {
				c.Failf("%v at once with others: %s, alone %s", a, got[g][i], want[a])
			}
		}
	}
	vh.Expect[T](c, "a afterwards", w.a, s.a)
	vh.Expect[T](c, "b afterwards", w.b, s.b)
	vh.Expect[T](c, "right afterwards", w.right, s.right)
	vh.Expect[T](c, "vec afterwards", w.vec, s.vec)
	vh.Expect[T](c, "col afterwards", w.col, s.col)
	vh.Expect[T](c, "sq afterwards", w.sq, s.sq)
	for k, v := range s.mask.D {
		if e := w.mask.Element(k/s.mask.C, k%s.mask.C); e != (v != 0 && !s.none[0]) {
			c.Failf("mask afterwards: Element at %d = %v", k, e)
		}
	}
	for _, l := range list {
		for _, a := range l {
			c.Class(true, a.name)
		}
	}
	c.NonTrivial(s.a.NNZ() > 0)
}

func TestReaders(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
