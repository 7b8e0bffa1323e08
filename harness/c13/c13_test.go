package c13

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/operators"
	"github.com/rossmerr/graphblas/unaryop"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

type num2[T constraints.Number] struct {
	name string
	op   func() binaryop.BinaryOp[T]
	f    func(x, y T) T
	div  bool
}

type bool2[T constraints.Number] struct {
	name string
	op   func() binaryop.BinaryOpToBool[T]
	f    func(x, y T) bool
}

func value[T constraints.Number](c *vh.Case) T {
	if rapid.IntRange(0, 5).Draw(c.T, "zero") == 0 {
		if vh.IsFloat[T]() && rapid.Bool().Draw(c.T, "neg zero") {
			return vh.F64[T](math.Copysign(0, -1))
		}
		return 0
	}
	return vh.Val[T](c, vh.AnyNaN)
}

// same tells values apart that compare equal but are not the same (0 and -0).
func same[T constraints.Number](a, b T) bool {
	if !vh.Same(a, b) {
		return false
	}
	if a == 0 && vh.IsFloat[T]() {
		return math.Signbit(float64(a)) == math.Signbit(float64(b))
	}
	return true
}

func arith[T constraints.Number](c *vh.Case) {
	first := func(x, y T) T { return x }
	second := func(x, y T) T { return y }
	lo := func(x, y T) T {
		if x < y {
			return x
		}
		return y
	}
	hi := func(x, y T) T {
		if x > y {
			return x
		}
		return y
	}
	add := func(x, y T) T { return x + y }
	sub := func(x, y T) T { return x - y }
	mul := func(x, y T) T { return x * y }
	div := func(x, y T) T { return x / y }
	ops := []num2[T]{
		{"binaryop.FirstArgument", binaryop.FirstArgument[T], first, false},
		{"binaryop.SecondArgument", binaryop.SecondArgument[T], second, false},
		{"binaryop.Minimum", binaryop.Minimum[T], lo, false},
		{"binaryop.Maximum", binaryop.Maximum[T], hi, false},
		{"binaryop.Addition", binaryop.Addition[T], add, false},
		{"binaryop.Subtraction", binaryop.Subtraction[T], sub, false},
		{"binaryop.Multiplication", binaryop.Multiplication[T], mul, false},
		{"binaryop.Division", binaryop.Division[T], div, true},
		{"operators.FirstArgument", operators.FirstArgument[T], first, false},
		{"operators.SecondArgument", operators.SecondArgument[T], second, false},
		{"operators.Minimum", operators.Minimum[T], lo, false},
		{"operators.Maximum", operators.Maximum[T], hi, false},
		{"operators.Addition", operators.Addition[T], add, false},
		{"operators.Subtraction", operators.Subtraction[T], sub, false},
		{"operators.Multiplication", operators.Multiplication[T], mul, false},
		{"operators.Division", operators.Division[T], div, true},
	}
	cmp := []bool2[T]{
		{"Equal", operators.Equal[T], func(x, y T) bool { return x == y }},
		{"NotEqual", operators.NotEqual[T], func(x, y T) bool { return x != y }},
		{"GreaterThan", operators.GreaterThan[T], func(x, y T) bool { return x > y }},
		{"LessThan", operators.LessThan[T], func(x, y T) bool { return x < y }},
		{"GreaterThanOrEqual", operators.GreaterThanOrEqual[T], func(x, y T) bool { return x >= y }},
		{"LessThanOrEqual", operators.LessThanOrEqual[T], func(x, y T) bool { return x <= y }},
	}
	x, y := value[T](c), value[T](c)
	switch rapid.IntRange(0, 5).Draw(c.T, "relation") {
	case 0:
		y = x
	case 1:
		y = x + 1
	case 2:
		y = -x
	}
	c.Desc("%v %v", x, y)
	if x == 0 && y == 0 {
		c.Desc("signs %v %v", math.Signbit(float64(x)), math.Signbit(float64(y)))
	}
	for _, o := range ops {
		if o.div && y == 0 && !vh.IsFloat[T]() {
			if p, _ := vh.Panics(func() { o.op().Apply(x, y) }); !p {
				c.Failf("%s(%v, 0) of integers gives a value", o.name, x)
			}
			continue
		}
		want := o.f(x, y)
		op := o.op()
		for k := 0; k < 2; k++ {
			if got := op.Apply(x, y); !same(got, want) && !(vh.Same(got, want) && (o.name[len(o.name)-3:] == "mum")) {
				c.Failf("%s(%v, %v) = %v, want %v (call %d)", o.name, x, y, got, want, k)
			}
		}
	}
	for _, o := range cmp {
		if got, want := o.op().Apply(x, y), o.f(x, y); got != want {
			c.Failf("operators.%s(%v, %v) = %v, want %v", o.name, x, y, got, want)
		}
	}
	// user operators get their arguments in order, once
	var calls []string
	u := binaryop.NewBinaryOp(func(a, b T) T { calls = append(calls, fmt.Sprint(a, b)); return a - b - b })
	if got, want := u.Apply(x, y), x-y-y; !vh.Same(got, want) || len(calls) != 1 || calls[0] != fmt.Sprint(x, y) {
		c.Failf("NewBinaryOp: Apply(%v, %v) = %v with calls %v", x, y, got, calls)
	}
	ub := binaryop.NewBinaryOpToBool(func(a, b T) bool { return a+1 < b })
	if got, want := ub.Apply(x, y), x+1 < y; got != want {
		c.Failf("NewBinaryOpToBool: Apply(%v, %v) = %v", x, y, got)
	}
	n := 0
	un := unaryop.NewUnaryOp(func(a T) T { n++; return a + a + 3 })
	if got, want := un.Apply(x), x+x+3; !vh.Same(got, want) || n != 1 {
		c.Failf("NewUnaryOp: Apply(%v) = %v after %d calls", x, got, n)
	}
	if gb.Zero[T]() != 0 || gb.Default[T]() != 0 || gb.IsZero(x) != (x == 0) || gb.IsZero(y) != (y == 0) {
		c.Failf("zero: %v %v, IsZero(%v) = %v", gb.Zero[T](), gb.Default[T](), x, gb.IsZero(x))
	}
	c.Class(x != x || y != y, "NaN")
	c.Class(x == y, "equal arguments")
	c.Class(x == 0 || y == 0, "zero argument")
	c.NonTrivial(x != y && x != 0 && y != 0)
}

func TestOperators(t *testing.T) {
	vh.Check(t, vh.Types13(arith[float64], arith[int], arith[int8], arith[uint8], arith[int32], arith[float32], arith[int16], arith[int64], arith[uint], arith[uint16], arith[uint32], arith[uint64], arith[uintptr]))
}

// TestBool tries all arguments of the boolean operators.
func TestBool(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		x, y := rapid.Bool().Draw(c.T, "x"), rapid.Bool().Draw(c.T, "y")
		c.Desc("%v %v", x, y)
		if operators.LOR.Apply(x, y) != (x || y) || operators.LAND.Apply(x, y) != (x && y) ||
			operators.LXOR.Apply(x, y) != (x != y) || operators.LogicalInverse.Apply(x) != !x {
			c.Failf("LOR %v LAND %v LXOR %v LogicalInverse %v of %v, %v", operators.LOR.Apply(x, y), operators.LAND.Apply(x, y),
				operators.LXOR.Apply(x, y), operators.LogicalInverse.Apply(x), x, y)
		}
		if gb.IsZero(x) == x || gb.Zero[bool]() {
			c.Failf("zero of bool")
		}
		// a fold of booleans
		n := rapid.IntRange(0, 6).Draw(c.T, "n")
		var vs []bool
		for i := 0; i < n; i++ {
			vs = append(vs, rapid.Bool().Draw(c.T, "b"))
		}
		c.Desc("%v", vs)
		k := rapid.IntRange(0, 2).Draw(c.T, "op")
		op := []binaryop.BinaryOp[bool]{operators.LOR, operators.LAND, operators.LXOR}[k]
		id := binaryop.NewMonoID(x, op)
		if id.Zero() != x {
			c.Failf("Zero() = %v, want %v", id.Zero(), x)
		}
		want := x
		for _, v := range vs {
			want = []bool{want || v, want && v, want != v}[k]
		}
		reduce(c, id, vs, want)
		c.NonTrivial(n > 1)
	})
}

// reduce feeds vs to the monoid and checks the one result and the end of the channel.
func reduce[T constraints.None](c *vh.Case, id binaryop.MonoID[T], vs []T, want T) {
	byClose := rapid.Bool().Draw(c.T, "done by close")
	closed := rapid.IntRange(0, 2).Draw(c.T, "input closed") == 0
	gap := rapid.IntRange(0, 3).Draw(c.T, "gap")
	early := rapid.Bool().Draw(c.T, "receiver waits")
	done, in := make(chan struct{}), make(chan T)
	out := id.Reduce(done, in)
	got := make(chan T, 1)
	var wg sync.WaitGroup
	recv := func() {
		defer wg.Done()
		if v, ok := <-out; ok {
			got <- v
		}
		close(got)
	}
	wg.Add(1)
	if early {
		go recv()
	}
	for k, v := range vs {
		if gap > 0 && k%gap == 0 {
			runtime.Gosched()
		}
		in <- v
		select {
		case v, ok := <-got:
			c.Failf("a result %v (%v) before the end of the input", v, ok)
		default:
		}
	}
	if closed { // which adds nothing
		c.Desc("input closed")
		close(in)
		for ; gap > 0; gap-- {
			runtime.Gosched()
		}
		select {
		case v, ok := <-got:
			c.Failf("a result %v (%v) before the end of the input", v, ok)
		default:
		}
	}
	if byClose {
		close(done)
	} else {
		done <- struct{}{}
	}
	if !early {
		go recv()
	}
	wg.Wait()
	v, ok := <-got
	if !ok {
		c.Failf("the result channel was closed without a result")
	}
	if !vh.Same(v, want) {
		c.Failf("Reduce(%v) from %v = %v, want %v", vs, id.Zero(), v, want)
	}
	if v, ok := <-out; ok {
		c.Failf("a second result %v", v)
	}
}

func monoid[T constraints.Number](c *vh.Case) {
	k := rapid.IntRange(0, 7).Draw(c.T, "op")
	var f func(x, y T) T
	var op binaryop.BinaryOp[T]
	switch k {
	case 0:
		f, op = func(x, y T) T { return x - y }, binaryop.Subtraction[T]()
	case 1:
		f, op = func(x, y T) T { return x }, operators.FirstArgument[T]()
	case 2:
		f, op = func(x, y T) T { return y }, binaryop.SecondArgument[T]()
	case 3:
		f, op = func(x, y T) T { return x + y }, operators.Addition[T]()
	default: // neither associative nor commutative
		f = func(x, y T) T { return x*3 + y }
		op = binaryop.NewBinaryOp(f)
	case 7:
		f = func(x, y T) T { return y + y - x }
		op = binaryop.NewBinaryOp(f)
	}
	z := value[T](c)
	id := binaryop.NewMonoID(z, op)
	c.Desc("op%d from %v", k, z)
	if !same(id.Zero(), z) {
		c.Failf("Zero() = %v, want %v", id.Zero(), z)
	}
	max := 8
	switch vh.Uni(c, 20, "long") {
	case 0, 1:
		max = 60
	case 2:
		max = 400
	}
	seq := func() ([]T, T) {
		n := vh.Uni(c, max+1, "n")
		vs, w := make([]T, n), z
		for i := range vs {
			vs[i] = value[T](c)
			w = f(w, vs[i])
		}
		c.Desc("%v", vs)
		return vs, w
	}
	tot := 0
	for rounds := rapid.IntRange(1, 3).Draw(c.T, "rounds"); rounds > 0; rounds-- {
		vs, w := seq()
		tot += len(vs)
		reduce(c, id, vs, w)
	}
	if !same(id.Zero(), z) {
		c.Failf("Zero() = %v after Reduce, want %v", id.Zero(), z)
	}
	// several reductions of one monoid at once, their inputs interleaved
	n := rapid.IntRange(0, 3).Draw(c.T, "parallel")
	type run struct {
		vs   []T
		want T
		done chan struct{}
		in   chan T
		out  <-chan T
	}
	var rs []*run
	for i := 0; i < n; i++ {
		r := &run{done: make(chan struct{}), in: make(chan T)}
		r.vs, r.want = seq()
		r.out = id.Reduce(r.done, r.in)
		rs = append(rs, r)
	}
	for i := 0; ; i++ {
		more := false
		for _, r := range rs {
			if i < len(r.vs) {
				r.in <- r.vs[i]
				more = true
			}
		}
		if !more {
			break
		}
	}
	for i := n - 1; i >= 0; i-- {
		close(rs[i].done)
		if v, ok := <-rs[i].out; !ok || !vh.Same(v, rs[i].want) {
			c.Failf("Reduce(%v) at once with others = %v (%v), want %v", rs[i].vs, v, ok, rs[i].want)
		}
		if v, ok := <-rs[i].out; ok {
			c.Failf("a second result %v", v)
		}
	}
	a, m := gb.DefaultMonoIDAddition[T](), gb.DefaultMonoIDMaximum[T]()
	if a.Zero() != 0 || m.Zero() != 0 {
		c.Failf("identities of the default monoids: %v %v", a.Zero(), m.Zero())
	}
	vs, _ := seq()
	s, top := T(0), T(0)
	for _, v := range vs {
		s += v
		if !(top > v) {
			top = v
		}
	}
	reduce(c, a, vs, s)
	reduce(c, m, vs, top)
	c.Class(n > 1, "several at once")
	c.NonTrivial(tot > 1)
}

func TestMonoid(t *testing.T) {
	vh.Check(t, vh.Types13(monoid[float64], monoid[int], monoid[int8], monoid[uint8], monoid[int32], monoid[float32], monoid[int16], monoid[int64], monoid[uint], monoid[uint16], monoid[uint32], monoid[uint64], monoid[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
