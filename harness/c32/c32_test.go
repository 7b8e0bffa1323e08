package c32

import (
	"fmt"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// boom is what the functions of these tests panic with.
type boom struct{ n int }

// fuse panics at its k-th use.
type fuse struct{ n, k int }

func (f *fuse) tick() {
	f.n++
	if f.n == f.k {
		panic(boom{f.k})
	}
}

// blown runs f and tells whether the fuse ended it; other panics go on.
func blown(c *vh.Case, f func()) (b bool) {
	p, v := vh.Panics(f)
	if !p {
		return false
	}
	if _, ok := v.(boom); !ok {
		c.Failf("panicked with %v instead of the caller's value", v)
	}
	return true
}

// structure: a history of updates and maps whose functions may panic, and of plain writes.
func structure[T constraints.Number](c *vh.Case) {
	pal := append(vh.Palette[T](c, vh.Exact), 0)
	r, k := vh.Shape(c, 12, false)
	m := vh.GenMat(c, r, k, pal)
	x, f := vh.BuildAny(c, "x", m)
	v := func() T { return pal[vh.Uni(c, len(pal), "v")] }
	blew, after := 0, 0
	mutex := rapid.IntRange(0, 4).Draw(c.T, "mutex") == 0
	var w *gb.MutexMatrix[T]
	if mutex {
		c.Desc("mutex")
		w = gb.NewMutexMatrix[T](x)
	}
	for steps := rapid.IntRange(1, 10).Draw(c.T, "steps"); steps > 0; steps-- {
		i, j, a := vh.Uni(c, r, "r"), vh.Uni(c, k, "c"), v()
		b := false
		switch op := vh.Uni(c, 7, "step"); op {
		case 0, 1, 2:
			boomed := rapid.IntRange(0, 2).Draw(c.T, "panics") > 0
			fn := func(g T) T {
				if !vh.Same(g, m.At(i, j)) {
					c.Failf("Update is given %v, want %v", g, m.At(i, j))
				}
				if boomed {
					panic(boom{1})
				}
				return a
			}
			c.Desc("update%d (%d,%d)=%v panic=%v", op, i, j, a, boomed)
			b = blown(c, func() {
				comp, ok := x.(gb.MatrixCompressed[T])
				switch {
				case op == 0 && ok:
					comp.UpdateReturnPointer(i, j, fn)
				case op == 1 && mutex:
					w.Update(i, j, fn)
				default:
					x.Update(i, j, fn)
				}
			})
			if b != boomed {
				c.Failf("the panic of the function was swallowed or made up: %v, want %v", b, boomed)
			}
			if !b {
				m.Set(i, j, a)
			}
		case 3, 4:
			fu := &fuse{k: rapid.IntRange(1, 8).Draw(c.T, "at")}
			c.Desc("map to %v panic at %d", a, fu.k)
			want := m.Clone()
			b = blown(c, func() {
				it := x.Map()
				if mutex && op == 4 {
					it = w.Map()
				}
				for it.HasNext() {
					it.Map(func(i, j int, g T) T {
						fu.tick()
						want.Set(i, j, g*a)
						return g * a
					})
				}
			})
			m = want
		case 5:
			c.Desc("set (%d,%d)=%v", i, j, a)
			if mutex {
				w.Set(i, j, a)
			} else {
				x.Set(i, j, a)
			}
			m.Set(i, j, a)
		case 6:
			c.Desc("copy")
			x = x.Copy()
			if mutex {
				w = gb.NewMutexMatrix[T](x)
			}
		}
		if b {
			blew++
		} else if blew > 0 {
			after++
		}
		vh.CheckStore(c, "after the step", x, f, m)
		vh.Expect[T](c, "after the step", x, m)
		if want := m.NNZ(); f.Sparse() && x.Values() != want {
			c.Failf("Values is %d, want %d", x.Values(), want)
		}
	}
	c.Class(mutex, "mutex")
	c.NonTrivial(blew > 0 && after > 0)
}

func TestStructure(t *testing.T) {
	vh.Check(t, vh.Types13(structure[float64], structure[int], structure[int8], structure[uint8], structure[int32], structure[float32], structure[int16],
		structure[int64], structure[uint], structure[uint16], structure[uint32], structure[uint64], structure[uintptr]))
}

// panicky is a mask that panics at a drawn question.
type panicky struct {
	gb.Mask
	*fuse
}

func (p panicky) Element(r, c int) bool { p.tick(); return p.Mask.Element(r, c) }

// operation: mask or operator panic in the middle of an operation.
func operation[T constraints.Number](c *vh.Case) {
	i := vh.DrawInst[T](c, vh.AllOps, 12, vh.Exact, true)
	i.DrawSame()
	s, m := i.Operands()
	out, final := i.Out(), i.Out()
	c.Desc("out=%v %v", i.FO, i.Prev)
	onto := 0
	switch i.Op {
	case "add", "sub", "neg", "apply":
		if i.S.R == i.Prev.R && i.S.C == i.Prev.C && vh.Uni(c, 4, "onto s") == 0 {
			c.Desc("onto s")
			onto, out, final = 1, s, vh.Plain(i.FS, i.S)
			i.Prev, i.FO = i.S, i.FS
		}
	}
	mask, _ := vh.DrawMask(c, i.Prev.R, i.Prev.C)
	if mask == nil {
		mask = gb.NewEmptyMask(i.Prev.R, i.Prev.C)
	}
	// the complete run
	fs, fm := s, m
	if onto == 1 {
		fs = final
		if i.Same {
			fm = fs
		}
	}
	vh.RunOp(vh.BG, i.Op, fs, fm, mask, final, i.U)
	fu := &fuse{k: 1 + vh.Uni(c, 1+vh.Uni(c, 40, "at"), "at")}
	u := i.U
	var by gb.Mask = panicky{mask, fu}
	if i.Op == "apply" && rapid.Bool().Draw(c.T, "operator") {
		by, u = mask, func(v T) T { fu.tick(); return i.U(v) }
		c.Desc("operator")
	}
	c.Desc("panics at use %d", fu.k)
	b := blown(c, func() { vh.RunOp(vh.BG, i.Op, s, m, by, out, u) })
	if b != (fu.n >= fu.k) {
		c.Failf("the panic of the caller's function did not reach the caller")
	}
	changed, kept := 0, 0
	got := vh.Snap[T](out)
	for k, g := range got.D {
		r, cc := k/got.C, k%got.C
		old, fin := i.Prev.D[k], final.At(r, cc)
		if !vh.Same(g, old) && !vh.Same(g, fin) && !(b && transient(i, g, k)) {
			c.Failf("position (%d,%d) is %v, neither %v as before nor %v as in the end", r, cc, g, old, fin)
		}
		if !b && !vh.Same(g, fin) {
			c.Failf("position (%d,%d) is %v, want %v", r, cc, g, fin)
		}
		if !vh.Same(old, fin) {
			if vh.Same(g, fin) {
				changed++
			} else {
				kept++
			}
		}
	}
	vh.CheckStore(c, "the output", out, i.FO, got)
	if onto == 0 {
		vh.Expect[T](c, "s afterwards", s, i.S)
	}
	if m != nil && m != out {
		vh.Expect[T](c, "m afterwards", m, i.M)
	}
	// everything goes on working
	for k := range got.D {
		out.Set(k/got.C, k%got.C, T(k%7))
		got.D[k] = T(k % 7)
	}
	vh.Expect[T](c, "written afterwards", out, got)
	c.Class(b, "panicked in "+i.Op)
	c.NonTrivial(b && changed > 0 && kept > 0)
}

// transient: element-wise addition writes the first operand's value before the second one's.
func transient[T constraints.Number](i *vh.Inst[T], g T, k int) bool {
	return (i.Op == "ewadd" || i.Op == "ewaddv") && vh.Same(g, i.S.D[k])
}

func TestOperation(t *testing.T) {
	vh.Check(t, vh.Types13(operation[float64], operation[int], operation[int8], operation[uint8], operation[int32], operation[float32], operation[int16],
		operation[int64], operation[uint], operation[uint16], operation[uint32], operation[uint64], operation[uintptr]))
}

// search: the predicate panics.
func search(c *vh.Case) {
	n := rapid.IntRange(1, 9).Draw(c.T, "n")
	m := vh.GenMat(c, n, n, []int{1})
	a, _ := vh.BuildAny(c, "a", m)
	src := vh.Uni(c, n, "source")
	fu := &fuse{k: rapid.IntRange(1, 4).Draw(c.T, "at")}
	c.Desc("from %d, panics at %d", src, fu.k)
	calls := func(f func()) (l []string) {
		blown(c, func() {
			breadthfirst.Search[int](vh.BG, a, src, func(v gb.Vector[int]) bool {
				l = append(l, fmt.Sprint(vh.Snap[int](v)))
				f()
				return false
			})
		})
		return
	}
	full := calls(func() {})
	part := calls(fu.tick)
	if len(part) > fu.k || len(part) < min(fu.k, len(full)) || fmt.Sprint(part) != fmt.Sprint(full[:len(part)]) {
		c.Failf("%d calls before the panic at %d, they are %v, want a prefix of %v", len(part), fu.k, part, full)
	}
	vh.Expect[int](c, "a afterwards", a, m)
	if again := calls(func() {}); fmt.Sprint(again) != fmt.Sprint(full) {
		c.Failf("a search after the panic gives %v, want %v", again, full)
	}
	c.NonTrivial(m.NNZ() > 0 && fu.n >= fu.k)
}

func TestSearch(t *testing.T) { vh.Check(t, search) }
