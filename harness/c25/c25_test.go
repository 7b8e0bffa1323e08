package c25

import (
	"fmt"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// vec is what both dense vectors have.
type vec[T constraints.Type] interface {
	gb.VectorLogial[T]
	ReSize(int) int
}

// views compares everything the vector shows with the model.
func views[T constraints.Type](c *vh.Case, step string, v vec[T], w []T) {
	var z T
	if v.Length() != len(w) || v.Rows() != len(w) || v.Size() != len(w) || v.Values() != len(w) || v.Columns() != 1 {
		c.Failf("%s: length %d, rows %d, size %d, values %d, columns %d; want length %d", step,
			v.Length(), v.Rows(), v.Size(), v.Values(), v.Columns(), len(w))
	}
	for i, x := range w {
		if g := v.AtVec(i); !vh.Same(g, x) {
			c.Failf("%s: AtVec(%d) = %v, want %v", step, i, g, x)
		}
		if g := v.At(i, 0); !vh.Same(g, x) {
			c.Failf("%s: At(%d,0) = %v, want %v", step, i, g, x)
		}
		if g := v.RowsAtToArray(i); len(g) != 1 || !vh.Same(g[0], x) {
			c.Failf("%s: RowsAtToArray(%d) = %v, want %v", step, i, g, x)
		}
		if g := v.RowsAt(i); g.Length() != 1 || !vh.Same(g.AtVec(0), x) {
			c.Failf("%s: RowsAt(%d), want %v", step, i, x)
		}
	}
	seen := make([]bool, len(w))
	n := 0
	for it := v.Enumerate(); it.HasNext(); n++ {
		if n >= len(w) {
			c.Failf("%s: enumeration gives more than %d elements", step, len(w))
		}
		r, k, x := it.Next()
		if k != 0 || r < 0 || r >= len(w) || seen[r] || !vh.Same(x, w[r]) {
			c.Failf("%s: enumeration gives (%d,%d)=%v", step, r, k, x)
		}
		seen[r] = true
	}
	for i, x := range w {
		if !seen[i] && x != z {
			c.Failf("%s: enumeration leaves out %d", step, i)
		}
	}
	m := vh.Mat[T]{R: len(w), C: 1, D: w}
	vh.Expect[T](c, step+": copy", v.CopyLogical(), m)
	vh.Expect[T](c, step+": column", v.ColumnsAt(0), m)
	vh.Expect[T](c, step+": transpose", v.Transpose(), m.Tr())
	same := gb.NewDenseVector[T](len(w))
	nan := false
	for i, x := range w {
		same.SetVec(i, x)
		nan = nan || x != x
	}
	if !nan && (!v.Equal(same) || !same.Equal(v) || v.NotEqual(same)) {
		c.Failf("%s: not equal to a vector of the same elements", step)
	}
	if longer := gb.NewDenseVector[T](len(w) + 1); v.Equal(longer) || !v.NotEqual(longer) {
		c.Failf("%s: equal to a longer vector", step)
	}
	for _, i := range []int{-1, len(w), len(w) + 1} {
		if p, _ := vh.Panics(func() { v.AtVec(i) }); !p {
			c.Failf("%s: AtVec(%d) is accepted", step, i)
		}
		if p, _ := vh.Panics(func() { v.SetVec(i, z) }); !p {
			c.Failf("%s: SetVec(%d) is accepted", step, i)
		}
		if p, _ := vh.Panics(func() { v.Set(i, 0, z) }); !p {
			c.Failf("%s: Set(%d,0) is accepted", step, i)
		}
		if p, _ := vh.Panics(func() { v.RowsAt(i) }); !p {
			c.Failf("%s: RowsAt(%d) is accepted", step, i)
		}
	}
}

type earlier[T constraints.Type] struct {
	step string
	x    gb.MatrixLogical[T]
	m    vh.Mat[T]
}

// run replays a drawn history on v and the slice that models it; extra checks what only
// DenseVectorNumber has.
func run[T constraints.Type](c *vh.Case, v vec[T], w []T, draw func() T, extra func(step string, w []T)) {
	var z T
	var kept []earlier[T]
	grew, shrank, wrote := false, false, false
	views(c, "at the start", v, w)
	steps := rapid.IntRange(1, 14).Draw(c.T, "steps")
	for k := 0; k < steps; k++ {
		step := ""
		switch op := rapid.IntRange(0, 9).Draw(c.T, "op"); {
		case op < 5:
			size := 0
			switch rapid.IntRange(0, 5).Draw(c.T, "how") {
			case 0:
				size = len(w)
			case 1:
				size = len(w) + 1
			case 2:
				size = max(0, len(w)-1)
			case 3:
				size = len(w) + rapid.IntRange(0, 2*len(w)+3).Draw(c.T, "by")
			default:
				size = rapid.IntRange(0, 40).Draw(c.T, "size")
			}
			if vh.Uni(c, 150, "far") == 0 {
				size = rapid.SampledFrom([]int{300, 1100, 4200}).Draw(c.T, "about")
				size = size - size/16 + vh.Uni(c, size/8, "size")
			} else if size > 400 && size > 2*len(w) {
				size = 400
			}
			size = min(size, 5000)
			step = fmt.Sprintf("resize(%d)", size)
			c.Desc("%s", step)
			grew = grew || (size > len(w) && shrank && wrote)
			shrank = shrank || size < len(w)
			if g := v.ReSize(size); g != size {
				c.Failf("%s of length %d returned %d", step, len(w), g)
			}
			n := make([]T, size)
			copy(n, w)
			w = n
		case op < 8 && len(w) > 0:
			i := vh.Uni(c, len(w), "i")
			if rapid.IntRange(0, 2).Draw(c.T, "last") == 0 {
				i = len(w) - 1
			}
			x := draw()
			wrote = true
			switch rapid.IntRange(0, 2).Draw(c.T, "way") {
			case 0:
				v.SetVec(i, x)
			case 1:
				v.Set(i, 0, x)
			case 2:
				v.Update(i, 0, func(o T) T {
					if !vh.Same(o, w[i]) {
						c.Failf("Update(%d) sees %v, want %v", i, o, w[i])
					}
					return x
				})
			}
			w[i] = x
			step = fmt.Sprintf("set(%d,%v)", i, x)
			c.Desc("%s", step)
		case op == 8:
			step = "clear"
			c.Desc("%s", step)
			v.Clear()
			for i := range w {
				w[i] = z
			}
		default:
			step = "keep"
			c.Desc("%s", step)
			m := vh.Mat[T]{R: len(w), C: 1, D: append([]T(nil), w...)}
			kept = append(kept, earlier[T]{fmt.Sprintf("copy of step %d", k), v.CopyLogical(), m},
				earlier[T]{fmt.Sprintf("column of step %d", k), v.ColumnsAt(0), m})
		}
		views(c, step, v, w)
		if extra != nil {
			extra(step, w)
		}
	}
	for _, e := range kept {
		vh.Expect(c, e.step, e.x, e.m)
	}
	c.Class(shrank, "shrank")
	c.Class(len(kept) > 0, "kept copies")
	c.NonTrivial(grew)
}

func num[T constraints.Number](c *vh.Case) {
	pal := append(vh.Palette[T](c, vh.AnyNaN), 0)
	draw := func() T { return pal[vh.Uni(c, len(pal), "x")] }
	w := start(c, draw)
	if rapid.Bool().Draw(c.T, "number") {
		c.Desc("DenseVectorNumber %v", w)
		var v *gb.DenseVectorNumber[T]
		if rapid.Bool().Draw(c.T, "array") {
			v = gb.NewDenseVectorFromArrayN(spare(c, w))
		} else {
			v = gb.NewDenseVectorN[T](len(w))
			for i, x := range w {
				v.SetVec(i, x)
			}
		}
		run[T](c, v, w, draw, func(step string, w []T) {
			vh.Expect[T](c, step+": Copy", v.Copy(), vh.Mat[T]{R: len(w), C: 1, D: w})
			for i, x := range w {
				if v.Element(i, 0) != (x != 0) {
					c.Failf("%s: Element(%d,0) for %v", step, i, x)
				}
			}
			n := 0
			for it := v.Map(); it.HasNext(); n++ {
				if n >= len(w) {
					c.Failf("%s: mapping visits more than %d elements", step, len(w))
				}
				it.Map(func(r, k int, x T) T {
					if k != 0 || r < 0 || r >= len(w) || !vh.Same(x, w[r]) {
						c.Failf("%s: mapping visits (%d,%d)=%v", step, r, k, x)
					}
					return x
				})
			}
			if n != len(w) {
				c.Failf("%s: mapping visits %d of %d elements", step, n, len(w))
			}
			if neg := v.Negative(); neg.Rows() != len(w) {
				c.Failf("%s: negative has %d rows", step, neg.Rows())
			}
		})
		return
	}
	c.Desc("DenseVector %v", w)
	run[T](c, fresh(c, w), w, draw, nil)
}

func start[T any](c *vh.Case, draw func() T) []T {
	w := make([]T, rapid.IntRange(0, 12).Draw(c.T, "len"))
	for i := range w {
		w[i] = draw()
	}
	return w
}

// spare copies w to an array with room behind it, which is not empty: it repeats w.
func spare[T constraints.Type](c *vh.Case, w []T) []T {
	n := rapid.IntRange(0, 6).Draw(c.T, "spare")
	a := append([]T(nil), w...)
	for i := 0; i < n && len(w) > 0; i++ {
		a = append(a, w[i%len(w)])
	}
	return a[:len(w)]
}

func fresh[T constraints.Type](c *vh.Case, w []T) *gb.DenseVector[T] {
	if rapid.Bool().Draw(c.T, "array") {
		return gb.NewDenseVectorFromArray(spare(c, w))
	}
	v := gb.NewDenseVector[T](len(w))
	for i, x := range w {
		v.SetVec(i, x)
	}
	return v
}

func TestHistories(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestBool(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		draw := func() bool { return rapid.IntRange(0, 2).Draw(c.T, "x") > 0 }
		w := start(c, draw)
		c.Desc("bool %v", w)
		run[bool](c, fresh(c, w), w, draw, nil)
	})
}

func TestMain(m *testing.M) { vh.Main(m) }
