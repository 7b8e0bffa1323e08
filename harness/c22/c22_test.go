package c22

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// probe wraps a matrix, notices overlapping calls and gives way in the middle of every call.
type probe[T constraints.Number] struct {
	gb.Matrix[T]
	readers, writers, calls atomic.Int32
	bad                     atomic.Pointer[string]
	yields                  int
}

func (p *probe[T]) in(name string, write bool) func() {
	p.calls.Add(1)
	look := func() {
		w, r := p.writers.Load(), p.readers.Load()
		if w > 1 || (w > 0 && r > 0) {
			s := fmt.Sprintf("%s overlaps another call (%d writing, %d reading)", name, w, r)
			p.bad.CompareAndSwap(nil, &s)
		}
	}
	n := &p.readers
	if write {
		n = &p.writers
	}
	n.Add(1)
	look()
	for i := 0; i < p.yields; i++ {
		runtime.Gosched()
		look()
	}
	return func() {
		for i := 0; i < p.yields; i++ {
			runtime.Gosched()
		}
		look()
		n.Add(-1)
	}
}

func (p *probe[T]) Columns() int { defer p.in("Columns", false)(); return p.Matrix.Columns() }
func (p *probe[T]) Rows() int    { defer p.in("Rows", false)(); return p.Matrix.Rows() }
func (p *probe[T]) Size() int    { defer p.in("Size", false)(); return p.Matrix.Size() }
func (p *probe[T]) Values() int  { defer p.in("Values", false)(); return p.Matrix.Values() }
func (p *probe[T]) At(r, c int) T {
	defer p.in("At", false)()
	return p.Matrix.At(r, c)
}
func (p *probe[T]) Element(r, c int) bool {
	defer p.in("Element", false)()
	return p.Matrix.Element(r, c)
}
func (p *probe[T]) ColumnsAt(c int) gb.VectorLogial[T] {
	defer p.in("ColumnsAt", false)()
	return p.Matrix.ColumnsAt(c)
}
func (p *probe[T]) RowsAt(r int) gb.VectorLogial[T] {
	defer p.in("RowsAt", false)()
	return p.Matrix.RowsAt(r)
}
func (p *probe[T]) RowsAtToArray(r int) []T {
	defer p.in("RowsAtToArray", false)()
	return p.Matrix.RowsAtToArray(r)
}
func (p *probe[T]) Copy() gb.Matrix[T] { defer p.in("Copy", false)(); return p.Matrix.Copy() }
func (p *probe[T]) CopyLogical() gb.MatrixLogical[T] {
	defer p.in("CopyLogical", false)()
	return p.Matrix.CopyLogical()
}
func (p *probe[T]) Scalar(a T) gb.Matrix[T] {
	defer p.in("Scalar", false)()
	return p.Matrix.Scalar(a)
}
func (p *probe[T]) Multiply(m gb.Matrix[T]) gb.Matrix[T] {
	defer p.in("Multiply", false)()
	return p.Matrix.Multiply(m)
}
func (p *probe[T]) Add(m gb.Matrix[T]) gb.Matrix[T] {
	defer p.in("Add", false)()
	return p.Matrix.Add(m)
}
func (p *probe[T]) Subtract(m gb.Matrix[T]) gb.Matrix[T] {
	defer p.in("Subtract", false)()
	return p.Matrix.Subtract(m)
}
func (p *probe[T]) Negative() gb.MatrixLogical[T] {
	defer p.in("Negative", false)()
	return p.Matrix.Negative()
}
func (p *probe[T]) Transpose() gb.MatrixLogical[T] {
	defer p.in("Transpose", false)()
	return p.Matrix.Transpose()
}
func (p *probe[T]) Equal(m gb.MatrixLogical[T]) bool {
	defer p.in("Equal", false)()
	return p.Matrix.Equal(m)
}
func (p *probe[T]) NotEqual(m gb.MatrixLogical[T]) bool {
	defer p.in("NotEqual", false)()
	return p.Matrix.NotEqual(m)
}
func (p *probe[T]) Set(r, c int, v T) { defer p.in("Set", true)(); p.Matrix.Set(r, c, v) }
func (p *probe[T]) Clear()            { defer p.in("Clear", true)(); p.Matrix.Clear() }
func (p *probe[T]) Update(r, c int, f func(T) T) {
	defer p.in("Update", true)()
	v := f(p.Matrix.At(r, c))
	for i := 0; i < p.yields; i++ {
		runtime.Gosched()
	}
	p.Matrix.Set(r, c, v)
}

// target is what both the wrapper and a plain matrix offer.
type target[T constraints.Number] interface {
	Columns() int
	Rows() int
	Update(r, c int, f func(T) T)
	At(r, c int) T
	Set(r, c int, value T)
	ColumnsAt(c int) gb.VectorLogial[T]
	RowsAt(r int) gb.VectorLogial[T]
	RowsAtToArray(r int) []T
	Scalar(alpha T) gb.Matrix[T]
	Multiply(m gb.Matrix[T]) gb.Matrix[T]
	Add(m gb.Matrix[T]) gb.Matrix[T]
	Subtract(m gb.Matrix[T]) gb.Matrix[T]
	Negative() gb.MatrixLogical[T]
	Transpose() gb.MatrixLogical[T]
	Equal(m gb.MatrixLogical[T]) bool
	NotEqual(m gb.MatrixLogical[T]) bool
	Size() int
	Values() int
	Clear()
	Enumerate() gb.Enumerate[T]
	Map() gb.Map[T]
	Element(r, c int) bool
}

type call[T constraints.Number] struct {
	kind string
	r, c int
	v    T
}

var kinds = []string{"Columns", "Rows", "Update", "At", "Set", "ColumnsAt", "RowsAt", "RowsAtToArray", "Copy", "Scalar",
	"Multiply", "Add", "Subtract", "Negative", "Transpose", "Equal", "NotEqual", "Size", "Values", "Clear", "Element"}

func drawCall[T constraints.Number](c *vh.Case, from []string, r, cc int) call[T] {
	k := call[T]{kind: rapid.SampledFrom(from).Draw(c.T, "call"), r: vh.Uni(c, r, "r"), c: vh.Uni(c, cc, "c")}
	if rapid.IntRange(0, 3).Draw(c.T, "zero") > 0 {
		k.v = vh.Val[T](c, vh.Exact)
	}
	return k
}

func (k call[T]) String() string { return fmt.Sprintf("%s(%d,%d,%v)", k.kind, k.r, k.c, k.v) }

// do performs a call and describes what it returned.
func do[T constraints.Number](x target[T], k call[T], same, right gb.Matrix[T]) string {
	show := func(m gb.MatrixLogical[T]) string { return fmt.Sprintf("%T %v", m, vh.Snap(m)) }
	switch k.kind {
	case "Columns":
		return fmt.Sprint(x.Columns())
	case "Rows":
		return fmt.Sprint(x.Rows())
	case "Update":
		var got []T
		x.Update(k.r, k.c, func(v T) T { got = append(got, v); return v + k.v })
		return fmt.Sprint(got)
	case "At":
		return fmt.Sprint(x.At(k.r, k.c))
	case "Set":
		x.Set(k.r, k.c, k.v)
	case "ColumnsAt":
		return show(x.ColumnsAt(k.c))
	case "RowsAt":
		return show(x.RowsAt(k.r))
	case "RowsAtToArray":
		return fmt.Sprint(x.RowsAtToArray(k.r))
	case "Copy":
		switch y := any(x).(type) {
		case interface{ Copy() gb.MatrixLogical[T] }:
			return show(y.Copy())
		case interface{ Copy() gb.Matrix[T] }:
			return show(y.Copy())
		}
		panic("vh: no Copy")
	case "Scalar":
		return show(x.Scalar(k.v))
	case "Multiply":
		return show(x.Multiply(right))
	case "Add":
		return show(x.Add(same))
	case "Subtract":
		return show(x.Subtract(same))
	case "Negative":
		return show(x.Negative())
	case "Transpose":
		return show(x.Transpose())
	case "Equal":
		return fmt.Sprint(x.Equal(same))
	case "NotEqual":
		return fmt.Sprint(x.NotEqual(same))
	case "Size":
		return fmt.Sprint(x.Size())
	case "Values":
		return fmt.Sprint(x.Values())
	case "Clear":
		x.Clear()
	case "Element":
		return fmt.Sprint(x.Element(k.r, k.c))
	case "Enumerate":
		n, s := 0, ""
		for it := x.Enumerate(); it.HasNext() && n < 10000; n++ {
			r, c, v := it.Next()
			s += fmt.Sprint(r, c, v, ";")
		}
		return s
	case "Map":
		s := ""
		for it := x.Map(); it.HasNext(); {
			it.Map(func(r, c int, v T) T { s += fmt.Sprint(r, c, v, ";"); return v + k.v })
		}
		return s
	}
	return ""
}

// one goes through calls made alone, the wrapper and an equal plain matrix side by side.
func one[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 8, false)
	pal := vh.Palette[T](c, vh.Exact)
	m := vh.GenMat(c, r, cc, pal)
	inner, f := vh.BuildAny(c, "s", m)
	w, plain := gb.NewMutexMatrix[T](inner), inner.Copy()
	same, _ := vh.BuildAny(c, "same", vh.GenMat(c, r, cc, pal))
	right, _ := vh.BuildAny(c, "right", vh.GenMat(c, cc, rapid.IntRange(1, 4).Draw(c.T, "n"), pal))
	all := append([]string{"Enumerate", "Map", "Set", "Update", "Set"}, kinds...)
	changes := 0
	for n := rapid.IntRange(1, 14).Draw(c.T, "calls"); n > 0; n-- {
		k := drawCall[T](c, all, r, cc)
		switch rapid.IntRange(0, 11).Draw(c.T, "wild") {
		case 0: // outside: both panic
			if rapid.Bool().Draw(c.T, "row") {
				k.r = rapid.SampledFrom([]int{-1, r, r + 3}).Draw(c.T, "bad row")
			} else {
				k.c = rapid.SampledFrom([]int{-1, cc, cc + 3}).Draw(c.T, "bad column")
			}
		case 1: // a function that panics
			c.Desc("panicking Update")
			p, v := vh.Panics(func() { w.Update(k.r, k.c, func(T) T { panic("user") }) })
			if !p || v != "user" {
				c.Failf("a panic of the update function gives %v", v)
			}
		case 2:
			same, _ = plain.Copy(), 0
		}
		c.Desc("%v", k)
		var a, b string
		p1, _ := vh.Panics(func() { a = do[T](w, k, same, right) })
		p2, _ := vh.Panics(func() { b = do[T](plain, k, same, right) })
		if p1 != p2 || a != b {
			c.Failf("%v of %v: %q (panic %v), of the matrix itself %q (panic %v)", k, f, a, p1, b, p2)
		}
		if x, y := vh.Snap[T](inner), vh.Snap[T](plain); x.String() != y.String() {
			c.Failf("after %v the wrapped matrix is %v, want %v", k, x, y)
		}
		if k.kind == "Set" || k.kind == "Update" || k.kind == "Clear" {
			changes++
		}
	}
	c.Class(true, f.String())
	c.NonTrivial(changes > 0 && r*cc > 1)
}

func TestAlone(t *testing.T) {
	vh.Check(t, vh.Types13(one[float64], one[int], one[int8], one[uint8], one[int32], one[float32], one[int16], one[int64], one[uint], one[uint16], one[uint32], one[uint64], one[uintptr]))
}

// together runs lists of calls at once.
func together(n int, f func(g int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f(g)
		}()
	}
	close(start)
	wg.Wait()
}

// overlap watches the calls that reach the wrapped matrix.
func overlap[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 5, false)
	pal := vh.Palette[T](c, vh.Exact)
	inner, _ := vh.BuildAny(c, "s", vh.GenMat(c, r, cc, pal))
	p := &probe[T]{Matrix: inner, yields: rapid.IntRange(1, 3).Draw(c.T, "yields")}
	w := gb.NewMutexMatrix[T](p)
	same, _ := vh.BuildAny(c, "same", vh.GenMat(c, r, cc, pal))
	right, _ := vh.BuildAny(c, "right", vh.GenMat(c, cc, 2, pal))
	gs := rapid.IntRange(2, 5).Draw(c.T, "goroutines")
	list := make([][]call[T], gs)
	for g := range list {
		from := kinds
		if rapid.IntRange(0, 2).Draw(c.T, "writer") == 0 {
			from = []string{"Set", "Update", "Clear"}
		}
		for n := rapid.IntRange(1, 6).Draw(c.T, "calls"); n > 0; n-- {
			list[g] = append(list[g], drawCall[T](c, from, r, cc))
		}
	}
	c.Desc("%v", list)
	together(gs, func(g int) {
		for _, k := range list[g] {
			do[T](w, k, same, right)
		}
	})
	if b := p.bad.Load(); b != nil {
		c.Failf("%s", *b)
	}
	wr := 0
	for _, l := range list {
		for _, k := range l {
			if k.kind == "Set" || k.kind == "Update" || k.kind == "Clear" {
				wr++
				break
			}
		}
	}
	c.NonTrivial(wr > 0)
	c.Class(wr > 1, "two or more writers")
}

func TestOverlap(t *testing.T) {
	vh.Check(t, vh.Types13(overlap[float64], overlap[int], overlap[int8], overlap[uint8], overlap[int32], overlap[float32], overlap[int16], overlap[int64], overlap[uint], overlap[uint16], overlap[uint32], overlap[uint64], overlap[uintptr]))
}

// operation of a concurrent history.
type event struct {
	call[int]
	from, to int64
	out      string
}

// linearizable searches an order of the events that explains every result.
func linearizable(r, cc int, init []int, evs []event) bool {
	type key struct {
		done  uint64
		state string
	}
	seen := map[key]bool{}
	var rec func(done uint64, st []int) bool
	rec = func(done uint64, st []int) bool {
		if done == 1<<len(evs)-1 {
			return true
		}
		k := key{done, fmt.Sprint(st)}
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int64(1) << 62
		for i, e := range evs {
			if done>>i&1 == 0 {
				first = min(first, e.to)
			}
		}
		for i, e := range evs {
			if done>>i&1 != 0 || e.from > first {
				continue
			}
			n := append([]int(nil), st...)
			if step(r, cc, n, e.call) == e.out && rec(done|1<<i, n) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

// step is the sequential meaning of a call on the state.
func step(r, cc int, st []int, k call[int]) string {
	p := k.r*cc + k.c
	switch k.kind {
	case "At":
		return fmt.Sprint(st[p])
	case "Element":
		return fmt.Sprint(st[p] != 0)
	case "Set":
		st[p] = k.v
	case "Update":
		v := st[p]
		st[p] += k.v
		return fmt.Sprint([]int{v})
	case "Clear":
		clear(st)
	case "RowsAtToArray":
		return fmt.Sprint(st[k.r*cc : (k.r+1)*cc])
	case "Copy":
		return fmt.Sprint(st)
	case "Values":
		n := 0
		for _, v := range st {
			if v != 0 {
				n++
			}
		}
		return fmt.Sprint(n)
	}
	return ""
}

func history(c *vh.Case) {
	r, cc := rapid.IntRange(1, 2).Draw(c.T, "r"), rapid.IntRange(1, 2).Draw(c.T, "c")
	m := vh.GenMat(c, r, cc, []int{1, 2, 3})
	inner, f := vh.BuildAny(c, "s", m)
	var in gb.Matrix[int] = inner
	if rapid.IntRange(0, 2).Draw(c.T, "probe") > 0 {
		in = &probe[int]{Matrix: inner, yields: rapid.IntRange(1, 3).Draw(c.T, "yields")}
	}
	w := gb.NewMutexMatrix(in)
	from := []string{"At", "Set", "Update", "Update", "Clear", "Element", "RowsAtToArray", "Copy"}
	if f.Sparse() {
		from = append(from, "Values")
	}
	gs := rapid.IntRange(2, 4).Draw(c.T, "goroutines")
	list := make([][]call[int], gs)
	for g := range list {
		for n := rapid.IntRange(1, 5).Draw(c.T, "calls"); n > 0; n-- {
			k := drawCall[int](c, from, r, cc)
			k.v = rapid.IntRange(0, 9).Draw(c.T, "v")
			list[g] = append(list[g], k)
		}
	}
	c.Desc("%v", list)
	var clock atomic.Int64
	evs := make([][]event, gs)
	together(gs, func(g int) {
		for _, k := range list[g] {
			e := event{call: k, from: clock.Add(1)}
			switch k.kind {
			case "Copy":
				e.out = fmt.Sprint(vh.Snap(w.Copy()).D)
			default:
				e.out = do[int](w, k, nil, nil)
			}
			e.to = clock.Add(1)
			evs[g] = append(evs[g], e)
		}
	})
	var all []event
	for _, l := range evs {
		all = append(all, l...)
	}
	over := 0
	for i, a := range all {
		for _, b := range all[:i] {
			if a.from < b.to && b.from < a.to {
				over++
			}
		}
	}
	if !linearizable(r, cc, m.Clone().D, all) {
		s := ""
		for _, e := range all {
			s += fmt.Sprintf("\n[%d,%d] %v -> %s", e.from, e.to, e.call, e.out)
		}
		c.Failf("no order of the calls explains their results, from %v:%s", m, s)
	}
	vh.Count("pairs of calls that overlapped", over)
	c.NonTrivial(over > 0)
}

func TestHistory(t *testing.T) { vh.Check(t, history) }

// lost counts updates made at once.
func lost[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 4, false)
	f := vh.PickF(c, "F", cc)
	w := gb.NewMutexMatrix(vh.Empty[T](f, r, cc))
	gs, n := rapid.IntRange(2, 6).Draw(c.T, "goroutines"), rapid.IntRange(1, 16).Draw(c.T, "updates")
	stride := rapid.IntRange(0, 3).Draw(c.T, "stride")
	yield := rapid.Bool().Draw(c.T, "yield")
	c.Desc("%v %dx%d: %d goroutines, %d updates, stride %d", f, r, cc, gs, n, stride)
	together(gs, func(g int) {
		for i := 0; i < n; i++ {
			p := (g + i*stride) % (r * cc)
			w.Update(p/cc, p%cc, func(v T) T {
				if yield {
					runtime.Gosched()
				}
				return v + 1
			})
			if i%5 == 4 {
				w.At(p/cc, p%cc)
				w.Values()
				w.RowsAt(p / cc)
			}
		}
	})
	want := vh.NewMat[T](r, cc)
	for g := 0; g < gs; g++ {
		for i := 0; i < n; i++ {
			want.D[(g+i*stride)%(r*cc)]++
		}
	}
	for i, v := range want.D {
		if x := w.At(i/cc, i%cc); x != v {
			c.Failf("(%d,%d) = %v after %v updates by one", i/cc, i%cc, x, v)
		}
	}
	c.NonTrivial(n > 1)
}

func TestLost(t *testing.T) {
	vh.Check(t, vh.Types13(lost[float64], lost[int], lost[int8], lost[uint8], lost[int32], lost[float32], lost[int16], lost[int64], lost[uint], lost[uint16], lost[uint32], lost[uint64], lost[uintptr]))
}

// TestRace runs calls of every kind at once on real matrices under the race detector.
func race[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 5, false)
	pal := vh.Palette[T](c, vh.Exact)
	inner, _ := vh.BuildAny(c, "s", vh.GenMat(c, r, cc, pal))
	w := gb.NewMutexMatrix(inner)
	same, _ := vh.BuildAny(c, "same", vh.GenMat(c, r, cc, pal))
	right, _ := vh.BuildAny(c, "right", vh.GenMat(c, cc, 2, pal))
	gs := rapid.IntRange(2, 4).Draw(c.T, "goroutines")
	list := make([][]call[T], gs)
	for g := range list {
		from := append([]string{"Set", "Update"}, kinds...)
		for n := rapid.IntRange(2, 8).Draw(c.T, "calls"); n > 0; n-- {
			list[g] = append(list[g], drawCall[T](c, from, r, cc))
		}
	}
	c.Desc("%v", list)
	together(gs, func(g int) {
		for _, k := range list[g] {
			do[T](w, k, same, right)
		}
	})
	c.NonTrivial(true)
}

func TestRace(t *testing.T) {
	vh.Check(t, vh.Types13(race[float64], race[int], race[int8], race[uint8], race[int32], race[float32], race[int16], race[int64], race[uint], race[uint16], race[uint32], race[uint64], race[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
