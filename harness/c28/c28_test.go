package c28

import (
	"context"
	"runtime"
	"strings"
	"testing"
	"time"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	"github.com/rossmerr/graphblas/sort"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

const lib = "github.com/rossmerr/graphblas"

// behind gives the stacks of the goroutines, apart from the caller's, that are in library code or
// were started there, and whether all of these wait on a channel or lock.
func behind() (l []string, blocked bool) {
	buf := space[:runtime.Stack(space, true)]
	blocked = true
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 || !strings.Contains(g, lib) {
			continue
		}
		l = append(l, g)
		a, b := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
		if a < 0 || b < a {
			continue
		}
		st := g[a+1 : b]
		if !strings.HasPrefix(st, "chan ") && !strings.HasPrefix(st, "select") && !strings.HasPrefix(st, "semacquire") && !strings.HasPrefix(st, "sync.") {
			blocked = false
		}
	}
	return
}

var space = make([]byte, 1<<20)

// quiet waits until no goroutine of the library is left. The caller waits for none of them, so if
// all that are left wait in one and the same moment, they wait for each other for ever. One that
// goes on computing is left to the watchdog, which judges by processor time.
func quiet(c *vh.Case, after string) {
	if runtime.NumGoroutine() <= idle {
		return
	}
	for n := 0; ; n++ {
		l, blocked := behind()
		if len(l) == 0 {
			return
		}
		if blocked {
			c.Failf("%s left %d goroutines waiting for ever:\n%s", after, len(l), strings.Join(l, "\n\n"))
		}
		if n < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

// lagging is a counting context that gives way when it is asked after its cancellation.
type lagging struct{ *vh.PollCtx }

func (l lagging) Done() <-chan struct{} {
	ch := l.PollCtx.Done()
	if l.Cancelled() {
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
	}
	return ch
}

// idle is the number of goroutines when nothing runs.
var idle int

func num[T constraints.Number](c *vh.Case) {
	if idle == 0 {
		idle = runtime.NumGoroutine()
	}
	r, cc := vh.Shape(c, 9, false)
	pal := vh.Palette[T](c, vh.Exact)
	m := vh.GenMat(c, r, cc, pal)
	s, _ := vh.BuildAny(c, "s", m)
	ends := map[string]bool{}
	for k := rapid.IntRange(1, 5).Draw(c.T, "operations"); k > 0; k-- {
		// how it ends: by itself, cancelled before, cancelled on the way, rejected
		var ctx context.Context = vh.BG
		end := []string{"complete", "complete", "cancelled before", "cancelled on the way", "cancelled on the way", "rejected"}[vh.Uni(c, 6, "end")]
		var px *vh.PollCtx
		switch end {
		case "cancelled before":
			px = vh.NewPollCtx(0)
			px.Cancel()
			ctx = lagging{px}
		case "cancelled on the way":
			px = vh.NewPollCtx(1 + vh.Uni(c, rapid.SampledFrom([]int{3, 10, 60}).Draw(c.T, "within"), "at"))
			ctx = lagging{px}
		default:
			if rapid.Bool().Draw(c.T, "counting") {
				px = vh.NewPollCtx(0)
				ctx = px
			}
		}
		var mask gb.Mask
		mr, mc := r, cc
		if end == "rejected" {
			mr += 1 + vh.Uni(c, 2, "more rows")
			mask = gb.NewEmptyMask(mr, mc)
		} else if rapid.Bool().Draw(c.T, "masked") {
			mask, _ = vh.DrawMask(c, r, cc)
		}
		op := vh.Uni(c, 9, "op")
		name := ""
		var f func()
		switch op {
		case 0, 1:
			name = "ReduceMatrixToScalar"
			f = func() { gb.ReduceMatrixToScalar[T](ctx, s, mask) }
		case 2:
			name = "ReduceMatrixToScalarWithMonoID"
			y := rapid.IntRange(0, 3).Draw(c.T, "yield")
			i := 0
			id := binaryop.NewMonoID(T(0), binaryop.NewBinaryOp(func(a, b T) T {
				if i++; y > 0 && i%y == 0 {
					runtime.Gosched()
				}
				return a + b
			}))
			f = func() { gb.ReduceMatrixToScalarWithMonoID[T](ctx, s, id, mask) }
		case 3:
			name = "ReduceMatrixToVector"
			f = func() { gb.ReduceMatrixToVector[T](ctx, s) }
			if end == "rejected" {
				id := binaryop.NewMonoID(T(0), binaryop.Addition[T]())
				f = func() { gb.ReduceMatrixToVectorWithMonoID[T](ctx, s, id, gb.NewEmptyMask(r+1, 1)) }
			}
		case 4:
			name = "strassen"
			n := rapid.SampledFrom([]int{2, 4, 6, 8}).Draw(c.T, "n")
			q := vh.Plain(vh.F(vh.Uni(c, 3, "F")), vh.GenMat(c, n, n, pal))
			x := rapid.IntRange(1, 3).Draw(c.T, "crossover")
			f = func() { strassen.MultiplyCrossoverPoint[T](ctx, q, q, x) }
			if end == "rejected" {
				f = func() { strassen.MultiplyCrossoverPoint[T](ctx, q, vh.Empty[T](vh.CSR, n+1, n), x) }
			}
		case 5:
			name = "search"
			q := vh.Plain(vh.F(vh.Uni(c, 3, "F")), vh.GenMat(c, r, r, []T{1}))
			stop := vh.Uni(c, r+1, "stop")
			from := 0
			if end == "rejected" {
				from = r
			}
			f = func() {
				breadthfirst.Search[T](ctx, q, from, func(gb.Vector[T]) bool { stop--; return stop < 0 })
			}
		case 6:
			name = "MonoID.Reduce"
			id := binaryop.NewMonoID(T(0), binaryop.Addition[T]())
			length, late := rapid.IntRange(0, 5).Draw(c.T, "length"), rapid.Bool().Draw(c.T, "close")
			f = func() {
				done, slice := make(chan struct{}), make(chan T)
				out := id.Reduce(done, slice)
				for k := 0; k < length; k++ {
					slice <- 1
				}
				if late {
					close(done)
				} else {
					done <- struct{}{}
				}
				<-out
			}
			end = "complete"
		case 7:
			f = func() {
				symmetric.Symmetric[T](s)
				skewsymmetric.SkewSymmetric[T](s)
				if x, ok := any(s).(gb.MatrixLogical[rune]); ok {
					sort.BubbleRow(ctx, x)
				}
				gb.Equal[T](ctx, s, s)
				gb.Scalar[T](ctx, s, 2)
			}
			name = "predicates, sorting, comparison"
			if end == "rejected" {
				f = func() { s.At(r, 0) }
			}
		case 8:
			i := vh.DrawInst[T](c, vh.AllOps, 6, vh.Exact, true)
			a, b := i.Operands()
			o := i.Out()
			name = i.Op
			f = func() { i.Run(ctx, a, b, nil, o) }
			if end == "rejected" {
				f = func() { i.Run(ctx, a, b, gb.NewEmptyMask(i.Prev.R+1, i.Prev.C), o) }
			}
		}
		c.Desc("%s %s", name, end)
		panicked, v := vh.Panics(f)
		polls := 0
		if px != nil {
			polls = px.Polls()
		}
		if panicked && end != "rejected" {
			panic(v)
		}
		if px != nil && !px.Cancelled() && end != "rejected" {
			end = "complete"
		}
		ends[end] = true
		c.Class(true, name)
		c.Class(true, end)
		quiet(c, name+" ("+end+")")
		if px != nil && px.Polls() != polls {
			c.Failf("%s (%s) asked its context %d times after it had returned", name, end, px.Polls()-polls)
		}
	}
	// and the operands can still be used
	vh.Expect[T](c, "operand afterwards", s, m)
	c.NonTrivial(len(ends) > 1 && m.NNZ() > 0)
}

func TestLeft(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
