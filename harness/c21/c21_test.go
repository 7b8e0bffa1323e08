package c21

import (
	"context"
	"runtime"
	"slices"
	"testing"
	"time"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/sort"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// dead draws a context that is cancelled already.
func dead(c *vh.Case) context.Context {
	switch rapid.IntRange(0, 3).Draw(c.T, "dead") {
	case 0:
		ctx, cancel := context.WithCancel(vh.BG)
		cancel()
		return ctx
	case 1:
		ctx, cancel := context.WithDeadline(vh.BG, time.Unix(1, 0))
		c.Cleanup(cancel)
		return ctx
	case 2:
		ctx, cancel := context.WithCancel(vh.BG)
		cancel()
		return gb.NewContext(ctx, gb.NonBlocking)
	}
	p := vh.NewPollCtx(0)
	p.Cancel()
	return p
}

// maybe wraps ctx in a context with a mode.
func maybe(c *vh.Case, ctx context.Context) context.Context {
	if rapid.IntRange(0, 3).Draw(c.T, "wrap") == 0 {
		return gb.NewContext(ctx, gb.Blocking)
	}
	return ctx
}

// cancelled draws a context and when it is cancelled: before, at one of its polls, or (by the
// returned function, called with the number of the call) at a call of the mask or operator.
func cancelled(c *vh.Case, polls, calls int) (ctx context.Context, tick func(), how string) {
	tick = func() {}
	k := rapid.IntRange(0, 5).Draw(c.T, "cancel")
	switch {
	case k == 0 || polls == 0 && calls == 0:
		c.Desc("before")
		return dead(c), tick, "before"
	case k == 1 && calls > 0 || polls == 0:
		at := rapid.IntRange(1, calls).Draw(c.T, "at call")
		c.Desc("at call %d of %d", at, calls)
		p := vh.NewPollCtx(0)
		n := 0
		return maybe(c, p), func() {
			if n++; n == at {
				p.Cancel()
			}
		}, "at a call"
	}
	at := rapid.IntRange(1, polls).Draw(c.T, "at poll")
	c.Desc("at poll %d of %d", at, polls)
	return maybe(c, vh.NewPollCtx(at)), tick, "at a poll"
}

var ops = vh.AllOps

// hook makes mask and operator call f.
func hooked[T constraints.Number](i *vh.Inst[T], marks vh.Mat[bool], f func()) (gb.Mask, func(T) T) {
	u := i.U
	if u != nil {
		u = func(v T) T { f(); return i.U(v) }
	}
	return vh.FuncMask{R: marks.R, C: marks.C, F: func(r, c int) bool { f(); return marks.At(r, c) }}, u
}

func draw[T constraints.Number](c *vh.Case) *vh.Inst[T] {
	op := rapid.SampledFrom(ops).Draw(c.T, "which")
	vals := vh.Exact
	if op[:2] == "ew" {
		vals = vh.Bit
	}
	return vh.DrawInst[T](c, []string{op}, 12, vals, true)
}

func num[T constraints.Number](c *vh.Case) {
	i := draw[T](c)
	_, marks := vh.DrawMask(c, i.Prev.R, i.Prev.C)
	c.Desc("into %v %v", i.FO, i.Prev)
	s, m := i.Operands()
	// the output may be one of the operands
	alias := 0
	if i.Op != "transpose" && i.Op[:2] != "mx" && i.Op != "vxm" {
		alias = rapid.IntRange(0, 7).Draw(c.T, "alias")
	}
	prev := i.Prev
	f := i.FO
	switch {
	case alias == 1:
		prev, f = i.S, i.FS
	case alias == 2 && i.Binary:
		prev, f = i.M, i.FM
	default:
		alias = 0
	}
	target := func() (gb.Matrix[T], gb.Matrix[T], gb.Matrix[T]) {
		out := vh.Plain(f, prev)
		switch alias {
		case 1:
			return out, out, m
		case 2:
			return out, s, out
		}
		return out, s, m
	}
	c.Desc("alias%d", alias)
	// without cancellation
	calls := 0
	mask, u := hooked(i, marks, func() { calls++ })
	out, a, b := target()
	vh.RunOp(vh.BG, i.Op, a, b, mask, out, u)
	final := vh.Snap[T](out)
	count := vh.NewPollCtx(0)
	calls = 0
	out, a, b = target()
	vh.RunOp(context.Context(count), i.Op, a, b, mask, out, u)
	vh.Expect[T](c, "with a context that is never cancelled", out, final)
	polls := count.Polls()
	changed := 0
	for k := range final.D {
		if !vh.Same(final.D[k], prev.D[k]) {
			changed++
		}
	}
	for n := rapid.IntRange(1, 3).Draw(c.T, "runs"); n > 0; n-- {
		ctx, tick, how := cancelled(c, polls, calls)
		mask, u := hooked(i, marks, tick)
		out, a, b := target()
		vh.RunOp(ctx, i.Op, a, b, mask, out, u)
		if out.Rows() != prev.R || out.Columns() != prev.C {
			c.Failf("%s cancelled %s: shape of the output changed", i.Op, how)
		}
		got, part := vh.Snap[T](out), 0
		for k := range got.D {
			if !vh.Same(got.D[k], prev.D[k]) {
				part++
				if !vh.Same(got.D[k], final.D[k]) {
					c.Failf("%s cancelled %s: (%d,%d) = %v, before %v, uncancelled %v", i.Op, how, k/got.C, k%got.C, got.D[k], prev.D[k], final.D[k])
				}
			}
		}
		c.Class(part > 0 && part < changed, "part of the output written")
		c.Class(true, how)
		// the interrupted output is fully usable
		seen := 0
		for it := out.Enumerate(); it.HasNext(); {
			it.Next()
			seen++
		}
		if seen != out.Values() {
			c.Failf("%s cancelled %s: enumeration yields %d elements of %d", i.Op, how, seen, out.Values())
		}
	}
	if alias != 1 {
		vh.Expect[T](c, "left operand afterwards", s, i.S)
	}
	if i.Binary && alias != 2 {
		vh.Expect[T](c, "right operand afterwards", m, i.M)
	}
	c.Class(true, i.Op)
	c.Class(alias > 0, "in place")
	c.NonTrivial(changed > 1)
}

func TestOutputs(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

// returned matrices: transposition, scaling, Strassen.
func returned[T constraints.Number](c *vh.Case) {
	op := rapid.SampledFrom([]string{"Scalar", "TransposeToCSR", "TransposeToCSC", "strassen"}).Draw(c.T, "op")
	c.Desc(op)
	pal := vh.Palette[T](c, vh.Tiny)
	var s, o vh.Mat[T]
	var x int
	if op == "strassen" {
		n := rapid.IntRange(1, 12).Draw(c.T, "n")
		x = max(n/4, rapid.IntRange(1, 6).Draw(c.T, "crossover"))
		s, o = vh.GenMat(c, n, n, pal), vh.GenMat(c, n, n, pal)
	} else {
		r, cc := vh.Shape(c, 12, true)
		s = vh.GenMat(c, r, cc, pal)
	}
	a, _ := vh.BuildAny(c, "s", s)
	var b gb.Matrix[T]
	if op == "strassen" {
		b, _ = vh.BuildAny(c, "m", o)
	}
	alpha := vh.Val[T](c, vh.Tiny)
	run := func(ctx context.Context) gb.Matrix[T] {
		switch op {
		case "Scalar":
			return gb.Scalar[T](ctx, a, alpha)
		case "TransposeToCSR":
			return gb.TransposeToCSR[T](ctx, a)
		case "TransposeToCSC":
			return gb.TransposeToCSC[T](ctx, a)
		}
		return strassen.MultiplyCrossoverPoint[T](ctx, a, b, x)
	}
	var final, prev vh.Mat[T]
	switch op {
	case "Scalar":
		prev, final = s, vh.Mapm(s, func(v T) T { return alpha * v })
	case "strassen":
		prev, final = vh.NewMat[T](s.R, s.C), vh.Mul(s, o)
	default:
		prev, final = vh.NewMat[T](s.C, s.R), s.Tr()
	}
	count := vh.NewPollCtx(0)
	vh.Expect[T](c, op+" never cancelled", run(count), final)
	for n := rapid.IntRange(1, 3).Draw(c.T, "runs"); n > 0; n-- {
		ctx, _, how := cancelled(c, count.Polls(), 0)
		got := run(ctx)
		if got.Rows() != final.R || got.Columns() != final.C {
			c.Failf("%s cancelled %s: shape %dx%d, want %dx%d", op, how, got.Rows(), got.Columns(), final.R, final.C)
		}
		g := vh.Snap[T](got)
		for k := range g.D {
			if g.D[k] != prev.D[k] && g.D[k] != final.D[k] {
				c.Failf("%s cancelled %s: (%d,%d) = %v, before %v, uncancelled %v", op, how, k/g.C, k%g.C, g.D[k], prev.D[k], final.D[k])
			}
		}
		c.Class(true, how)
	}
	vh.Expect[T](c, "operand afterwards", a, s)
	if b != nil {
		vh.Expect[T](c, "right operand afterwards", b, o)
	}
	c.Class(true, op)
	c.NonTrivial(s.NNZ() > 1)
}

func TestReturned(t *testing.T) {
	vh.Check(t, vh.Types13(returned[float64], returned[int], returned[int8], returned[uint8], returned[int32], returned[float32], returned[int16], returned[int64], returned[uint], returned[uint16], returned[uint32], returned[uint64], returned[uintptr]))
}

// others end: reductions, comparisons, searches and sorts.
func others[T constraints.Number](c *vh.Case) {
	kind := rapid.SampledFrom([]string{"reduce", "columns", "search", "compare", "sort", "equal"}).Draw(c.T, "kind")
	c.Desc(kind)
	r, cc := vh.Shape(c, 9, kind != "search")
	if kind == "search" {
		cc = r
	}
	switch kind {
	case "compare", "sort":
		pal := []rune{'a', 'b', 'c'}
		m, o := vh.GenMat(c, r, cc, pal), vh.GenMat(c, r, cc, pal)
		if rapid.Bool().Draw(c.T, "same") {
			o = m.Clone()
		}
		s, _ := vh.BuildAny(c, "s", m)
		x, _ := vh.BuildAny(c, "x", o)
		run := func(ctx context.Context) {
			if kind == "sort" {
				sort.BubbleRow(ctx, s)
				sort.BubbleColumns(ctx, s)
				return
			}
			gb.Compare(ctx, s, x)
			gb.Less(ctx, s, x)
			gb.Greater(ctx, s, x)
			gb.String(ctx, s)
		}
		count := vh.NewPollCtx(0)
		run(count)
		ctx, _, _ := cancelled(c, count.Polls(), 0)
		run(ctx)
		vh.Expect[rune](c, "operand afterwards", s, m)
		vh.Expect[rune](c, "operand afterwards", x, o)
		c.Class(true, kind)
		c.NonTrivial(m.NNZ() > 1)
		return
	}
	pal := vh.Palette[T](c, vh.Tiny)
	ones := kind == "reduce" && rapid.Bool().Draw(c.T, "ones")
	if ones {
		pal = []T{1}
	}
	m := vh.GenMat(c, r, cc, pal)
	s, _ := vh.BuildAny(c, "s", m)
	// an other matrix, which differs in one position
	o := m.Clone()
	if len(o.D) > 0 {
		k := vh.Uni(c, len(o.D), "differs")
		if o.D[k] != 0 && rapid.Bool().Draw(c.T, "swap") {
			q := vh.Uni(c, len(o.D), "with")
			o.D[k], o.D[q] = o.D[q], o.D[k]
		} else {
			o.D[k] += T(rapid.IntRange(1, 2).Draw(c.T, "by"))
		}
	}
	other, _ := vh.BuildAny(c, "other", o)
	differ := !slices.Equal(o.D, m.D)
	yield := rapid.IntRange(0, 3).Draw(c.T, "yield")
	var marks vh.Mat[bool]
	mr, mc := r, cc
	if kind == "columns" {
		mc = 1
	}
	_, marks = vh.DrawMask(c, mr, mc)
	src := 0
	if kind == "search" {
		src = vh.Uni(c, r, "source")
	}
	inMask := rapid.Bool().Draw(c.T, "in mask")
	run := func(ctx context.Context, tick func()) (v T) {
		n := 0
		op := binaryop.NewBinaryOp(func(x, y T) T {
			if n++; yield > 0 && n%yield == 0 {
				runtime.Gosched()
			}
			if !inMask {
				tick()
			}
			return x + y
		})
		mask := vh.FuncMask{R: mr, C: mc, F: func(r, c int) bool {
			if inMask {
				tick()
			}
			return marks.At(r, c)
		}}
		id := binaryop.NewMonoID(T(0), op)
		switch kind {
		case "reduce":
			v = gb.ReduceMatrixToScalarWithMonoID[T](ctx, s, id, mask)
			gb.ReduceMatrixToScalar[T](ctx, s, nil)
		case "columns":
			gb.ReduceMatrixToVectorWithMonoID[T](ctx, s, id, mask)
			gb.ReduceMatrixToVector[T](ctx, s)
		case "search":
			breadthfirst.Search[T](ctx, s, src, func(gb.Vector[T]) bool { tick(); return false })
		case "equal":
			gb.Equal[T](ctx, s, s.Copy())
			gb.NotEqual[T](ctx, s, s.Copy())
			if gb.Equal[T](ctx, s, other) && differ {
				c.Failf("a comparison, cancelled or not, reports equality of %v and %v", m, o)
			}
			if !gb.NotEqual[T](ctx, other, s) && differ {
				c.Failf("a comparison, cancelled or not, denies inequality of %v and %v", o, m)
			}
		}
		return
	}
	calls := 0
	count := vh.NewPollCtx(0)
	full := run(count, func() { calls++ })
	if kind == "reduce" {
		if v := run(vh.BG, func() {}); !vh.Same(v, full) {
			c.Failf("reduction with a context that is never cancelled = %v, want %v", full, v)
		}
	}
	for n := rapid.IntRange(1, 3).Draw(c.T, "runs"); n > 0; n-- {
		ctx, tick, how := cancelled(c, count.Polls(), calls)
		v := run(ctx, tick)
		if ones && !(v >= 0 && v <= full) {
			c.Failf("a reduction cancelled %s = %v, more than the %v ones there are", how, v, full)
		}
		c.Class(true, how)
	}
	vh.Expect[T](c, "operand afterwards", s, m)
	if v := run(vh.BG, func() {}); kind == "reduce" && !vh.Same(v, full) {
		c.Failf("reduction after a cancelled one = %v, want %v", v, full)
	}
	c.Class(true, kind)
	c.NonTrivial(m.NNZ() > 1)
}

func TestOthers(t *testing.T) {
	vh.Check(t, vh.Types13(others[float64], others[int], others[int8], others[uint8], others[int32], others[float32], others[int16], others[int64], others[uint], others[uint16], others[uint32], others[uint64], others[uintptr]))
}

// prompt: an operation on a cancelled context does not go on to the end.
func prompt[T constraints.Number](c *vh.Case) {
	op := rapid.SampledFrom(append([]string{"Scalar", "TransposeToCSR", "TransposeToCSC", "strassen", "reduce", "columns"}, ops...)).Draw(c.T, "which")
	r, k, n := rapid.IntRange(8, 12).Draw(c.T, "r"), rapid.IntRange(8, 12).Draw(c.T, "k"), rapid.IntRange(8, 12).Draw(c.T, "n")
	one := func(r, c int, v T) vh.Mat[T] { return vh.Mapm(vh.NewMat[T](r, c), func(T) T { return v }) }
	c.Desc("%s %d %d %d", op, r, k, n)
	pick := func(label string, cc int) vh.F { return vh.PickF(c, label, cc) }
	vec := func(label string) vh.F { return vh.DVec + vh.F(rapid.IntRange(0, 1).Draw(c.T, label)) }
	changed := func(x gb.MatrixLogical[T], old T) (d int) {
		for _, v := range vh.Snap(x).D {
			if v != old {
				d++
			}
		}
		return
	}
	few := func(what string, got, all int) {
		if got > all/2 {
			c.Failf("%s: %d of %d positions written all the same", what, got, all)
		}
	}
	i := &vh.Inst[T]{Op: op, C: c, U: func(v T) T { return v + 2 }}
	switch op {
	case "Scalar":
		s := vh.Plain(pick("F", k), one(r, k, 1))
		few("Scalar on a cancelled context", changed(gb.Scalar[T](dead(c), s, 3), 1), r*k)
		return
	case "TransposeToCSR":
		few("TransposeToCSR on a cancelled context", changed(gb.TransposeToCSR[T](dead(c), vh.Plain(pick("F", k), one(r, k, 1))), 0), r*k)
		return
	case "TransposeToCSC":
		few("TransposeToCSC on a cancelled context", changed(gb.TransposeToCSC[T](dead(c), vh.Plain(pick("F", k), one(r, k, 1))), 0), r*k)
		return
	case "strassen":
		s := vh.Plain(pick("F", r), one(r, r, 1))
		few("Strassen on a cancelled context", changed(strassen.MultiplyCrossoverPoint[T](dead(c), s, s, max(r/2, k)), 0), r*r)
		return
	case "reduce", "columns":
		s := vh.Plain(pick("F", k), one(r, k, 1))
		calls := 0
		mask := vh.FuncMask{R: r, C: k, F: func(int, int) bool { calls++; return false }}
		if op == "columns" {
			mask.C = 1
			gb.ReduceMatrixToVectorWithMonoID[T](dead(c), s, gb.DefaultMonoIDAddition[T](), mask)
		} else {
			gb.ReduceMatrixToScalarWithMonoID[T](dead(c), s, gb.DefaultMonoIDAddition[T](), mask)
		}
		if calls > r*k/2 {
			c.Failf("%s on a cancelled context went through %d of %d elements", op, calls, r*k)
		}
		return
	case "mxm":
		i.S, i.M, i.Prev, i.FS, i.FM = one(r, k, 1), one(k, n, 1), one(r, n, 77), pick("FS", k), pick("FM", n)
		i.FO = pick("FO", n)
	case "mxv":
		i.S, i.M, i.Prev, i.FS, i.FM, i.FO = one(r, k, 1), one(k, 1, 1), one(r, 1, 77), pick("FS", k), vec("FM"), vec("FO")
	case "vxm":
		i.S, i.M, i.Prev, i.FS, i.FM, i.FO = one(k, 1, 1), one(r, k, 1), one(r, 1, 77), vec("FS"), pick("FM", k), vec("FO")
	case "ewmulv", "ewaddv":
		i.S, i.M, i.Prev, i.FS, i.FM, i.FO = one(r, 1, 1), one(r, 1, 1), one(r, 1, 77), vec("FS"), vec("FM"), vec("FO")
	case "transpose":
		i.S, i.Prev, i.FS, i.FO = one(r, k, 1), one(k, r, 77), pick("FS", k), pick("FO", r)
	default:
		i.S, i.M, i.Prev, i.FS, i.FM, i.FO = one(r, k, 1), one(r, k, 1), one(r, k, 77), pick("FS", k), pick("FM", k), pick("FO", k)
		if op == "sub" {
			i.M = one(r, k, 2)
		}
	}
	i.Binary = op != "neg" && op != "apply" && op != "transpose"
	s := vh.Plain(i.FS, i.S)
	var m gb.Matrix[T]
	if i.Binary {
		m = vh.Plain(i.FM, i.M)
	}
	all := i.Prev.R * i.Prev.C
	out := i.Out()
	i.Run(dead(c), s, m, nil, out)
	few(op+" on a cancelled context", changed(out, 77), all)
	// cancelled by one of the first calls of the mask
	p := vh.NewPollCtx(0)
	calls, at := 0, rapid.IntRange(1, all/8).Draw(c.T, "at")
	mask := vh.FuncMask{R: i.Prev.R, C: i.Prev.C, F: func(int, int) bool {
		if calls++; calls == at {
			p.Cancel()
		}
		return false
	}}
	out = i.Out()
	i.Run(maybe(c, p), s, m, mask, out)
	few(op+" cancelled under way", changed(out, 77), all)
	c.Class(true, op)
	c.NonTrivial(true)
}

func TestPrompt(t *testing.T) {
	vh.Check(t, vh.Types13(prompt[float64], prompt[int], prompt[int8], prompt[uint8], prompt[int32], prompt[float32], prompt[int16], prompt[int64], prompt[uint], prompt[uint16], prompt[uint32], prompt[uint64], prompt[uintptr]))
}

// concurrent cancellation at an arbitrary moment.
func concurrent[T constraints.Number](c *vh.Case) {
	i := draw[T](c)
	_, marks := vh.DrawMask(c, i.Prev.R, i.Prev.C)
	s, m := i.Operands()
	yield := rapid.IntRange(0, 3).Draw(c.T, "yield")
	tick := func() {
		if yield > 0 {
			runtime.Gosched()
		}
	}
	mask, u := hooked(i, marks, tick)
	out := i.Out()
	vh.RunOp(vh.BG, i.Op, s, m, mask, out, u)
	final := vh.Snap[T](out)
	out = i.Out()
	spin := rapid.IntRange(0, 60).Draw(c.T, "spin")
	ctx, cancel := context.WithCancel(vh.BG)
	go func() {
		for k := 0; k < spin; k++ {
			runtime.Gosched()
		}
		cancel()
	}()
	vh.RunOp(ctx, i.Op, s, m, mask, out, u)
	got, part := vh.Snap[T](out), 0
	for k := range got.D {
		if !vh.Same(got.D[k], i.Prev.D[k]) {
			part++
			if !vh.Same(got.D[k], final.D[k]) {
				c.Failf("%s cancelled: (%d,%d) = %v, before %v, uncancelled %v", i.Op, k/got.C, k%got.C, got.D[k], i.Prev.D[k], final.D[k])
			}
		}
	}
	// and other operations with the same fate
	ctx2, cancel2 := context.WithCancel(vh.BG)
	go func() {
		for k := 0; k < spin; k++ {
			runtime.Gosched()
		}
		cancel2()
	}()
	gb.ReduceMatrixToScalar[T](ctx2, s, nil)
	gb.ReduceMatrixToVector[T](ctx2, s)
	if i.S.R == i.S.C && i.S.R > 0 {
		strassen.MultiplyCrossoverPoint[T](ctx2, s, s, max(2, i.S.R/2))
		breadthfirst.Search[T](ctx2, s, 0, func(gb.Vector[T]) bool { return false })
	}
	cancel()
	cancel2()
	vh.Expect[T](c, "left operand afterwards", s, i.S)
	if i.Binary {
		vh.Expect[T](c, "right operand afterwards", m, i.M)
	}
	c.Class(true, i.Op)
	c.NonTrivial(part > 0)
}

func TestConcurrent(t *testing.T) {
	vh.Check(t, vh.Types13(concurrent[float64], concurrent[int], concurrent[int8], concurrent[uint8], concurrent[int32], concurrent[float32], concurrent[int16], concurrent[int64], concurrent[uint], concurrent[uint16], concurrent[uint32], concurrent[uint64], concurrent[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
