package c26

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"testing"
	"time"

	gb "github.com/rossmerr/graphblas"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

type key int

// mock is a parent whose answers are whatever the history says.
type mock struct {
	ch   chan struct{}
	err  error
	dl   time.Time
	has  bool
	vals map[any]any
}

func (m *mock) Deadline() (time.Time, bool) { return m.dl, m.has }
func (m *mock) Done() <-chan struct{} {
	if m.ch == nil {
		return nil
	}
	return m.ch
}
func (m *mock) Err() error      { return m.err }
func (m *mock) Value(k any) any { return m.vals[k] }

// node is one context of the case with what is expected of it.
type node struct {
	ctx    context.Context
	parent int // the context it was made from, -1: none
	mode   gb.Mode
	own    bool // made by NewContext
	name   string
}

var errCause = errors.New("cause")

func closed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// settled gives the asynchronous propagation of a cancellation through package context the
// time it needs (it runs in goroutines of that package when parents are of other types).
func settled(ctx context.Context) bool {
	if ctx.Done() == nil {
		return false
	}
	for i := 0; i < 2000; i++ {
		if closed(ctx.Done()) {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func run(c *vh.Case) {
	var nodes []node
	var cancels []func() // cancellations not yet called
	var cancelOf []int   // the node each cancels
	var mocks []*mock
	dead := map[int]bool{} // cancelled nodes
	keys := []any{key(0), key(1), "a", 7, struct{ a, b int }{1, 2}}
	// keys no value is stored under by the test
	asked := []any{nil, 0, 1, "", "mode", "Mode", gb.Blocking, gb.NonBlocking, reflect.TypeOf(0), new(int)}
	isDead := func(i int) bool {
		for ; i >= 0; i = nodes[i].parent {
			if dead[i] {
				return true
			}
		}
		return false
	}
	check := func(step string) {
		for i, n := range nodes {
			m, ok := gb.BlockingMode(n.ctx)
			if n.own && (!ok || m != n.mode) {
				c.Failf("%s: mode of %s is (%v,%v), want (%v,true)", step, n.name, m, ok, n.mode)
			}
			if !n.own && (ok || m != gb.Blocking) {
				c.Failf("%s: mode of %s is (%v,%v), want (%v,false)", step, n.name, m, ok, gb.Blocking)
			}
			if isDead(i) {
				if !settled(n.ctx) {
					c.Failf("%s: %s is not done, but was cancelled", step, n.name)
				}
			} else if n.ctx.Done() != nil && closed(n.ctx.Done()) {
				c.Failf("%s: %s is done, but was not cancelled", step, n.name)
			}
			if !n.own {
				continue
			}
			if g, ok := n.ctx.(gb.Context); !ok || g.Mode() != n.mode {
				c.Failf("%s: %s is not a Context of mode %v", step, n.name, n.mode)
			}
			p := nodes[n.parent].ctx
			d1, o1 := n.ctx.Deadline()
			d2, o2 := p.Deadline()
			if o1 != o2 || !d1.Equal(d2) {
				c.Failf("%s: deadline of %s is (%v,%v), of its parent (%v,%v)", step, n.name, d1, o1, d2, o2)
			}
			if e1, e2 := n.ctx.Err(), p.Err(); e1 != e2 {
				c.Failf("%s: error of %s is %v, of its parent %v", step, n.name, e1, e2)
			}
			if (n.ctx.Done() == nil) != (p.Done() == nil) {
				c.Failf("%s: %s can be done %v, its parent %v", step, n.name, n.ctx.Done() != nil, p.Done() != nil)
			}
			if e1, e2 := context.Cause(n.ctx), context.Cause(p); e1 != e2 {
				c.Failf("%s: cause of %s is %v, of its parent %v", step, n.name, e1, e2)
			}
			for _, k := range append(keys[:len(keys):len(keys)], asked...) {
				if v1, v2 := n.ctx.Value(k), p.Value(k); v1 != v2 {
					c.Failf("%s: value of %v in %s is %v, in its parent %v", step, k, n.name, v1, v2)
				}
			}
		}
	}
	add := func(n node) {
		n.name = fmt.Sprintf("%d:%s", len(nodes), n.name)
		nodes = append(nodes, n)
	}
	add(node{ctx: context.Background(), parent: -1, name: "background"})
	add(node{ctx: context.TODO(), parent: -1, name: "todo"})
	after := 0 // checks of a context with a mode after its cancellation
	steps := rapid.IntRange(2, 12).Draw(c.T, "steps")
	for s := 0; s < steps; s++ {
		p := vh.Uni(c, len(nodes), "parent")
		if rapid.Bool().Draw(c.T, "latest") {
			p = len(nodes) - 1
		}
		step := ""
		switch op := rapid.IntRange(0, 15).Draw(c.T, "op"); op {
		case 0, 1, 2, 3, 4:
			mode := rapid.SampledFrom([]gb.Mode{gb.Blocking, gb.NonBlocking, 2, -1, 1 << 40}).Draw(c.T, "mode")
			step = fmt.Sprintf("mode(%d,%d)", p, mode)
			deep := 1
			if rapid.IntRange(0, 15).Draw(c.T, "deep") == 0 { // one in another, many times
				deep = rapid.IntRange(2, 40).Draw(c.T, "depth")
				step = fmt.Sprintf("mode(%d,%d)*%d", p, mode, deep)
			}
			for ; deep > 0; deep-- {
				add(node{ctx: gb.NewContext(nodes[p].ctx, mode), parent: p, mode: mode, own: true, name: "mode"})
				p, mode = len(nodes)-1, mode+1
			}
		case 5:
			k := rapid.SampledFrom(keys).Draw(c.T, "key")
			step = fmt.Sprintf("value(%d,%v)", p, k)
			add(node{ctx: context.WithValue(nodes[p].ctx, k, s), parent: p, name: "value"})
		case 6, 7:
			step = fmt.Sprintf("cancel(%d)", p)
			ctx, f := context.WithCancel(nodes[p].ctx)
			defer f()
			cancels, cancelOf = append(cancels, f), append(cancelOf, len(nodes))
			add(node{ctx: ctx, parent: p, name: "cancel"})
		case 8:
			step = fmt.Sprintf("cause(%d)", p)
			ctx, f := context.WithCancelCause(nodes[p].ctx)
			defer f(nil)
			cancels, cancelOf = append(cancels, func() { f(errCause) }), append(cancelOf, len(nodes))
			add(node{ctx: ctx, parent: p, name: "cause"})
		case 9:
			past := rapid.Bool().Draw(c.T, "past")
			step = fmt.Sprintf("deadline(%d,%v)", p, past)
			d := time.Date(3000, 1, s+1, 0, 0, 0, 0, time.UTC)
			if past {
				d = time.Date(2000, 1, s+1, 0, 0, 0, 0, time.UTC)
				dead[len(nodes)] = true
			}
			ctx, f := context.WithDeadline(nodes[p].ctx, d)
			defer f()
			cancels, cancelOf = append(cancels, f), append(cancelOf, len(nodes))
			add(node{ctx: ctx, parent: p, name: "deadline"})
		case 10:
			step = fmt.Sprintf("detached(%d)", p)
			// not a child as far as cancellation goes
			add(node{ctx: context.WithoutCancel(nodes[p].ctx), parent: -1, name: "detached"})
		case 11:
			step = "mock"
			m := &mock{vals: map[any]any{keys[0]: s}}
			if rapid.Bool().Draw(c.T, "done") {
				m.ch = make(chan struct{})
			}
			mocks = append(mocks, m)
			i := len(nodes)
			if m.ch != nil {
				cancels = append(cancels, func() {
					if m.err == nil {
						m.err = errors.New("own error")
						close(m.ch)
					}
				})
				cancelOf = append(cancelOf, i)
			}
			add(node{ctx: m, parent: -1, name: "mock"})
		case 12:
			if len(mocks) > 0 { // answers of a parent change
				m := mocks[vh.Uni(c, len(mocks), "mock")]
				step = "change"
				m.vals[rapid.SampledFrom(keys).Draw(c.T, "key")] = s
				m.dl, m.has = time.Date(2500+s, 1, 1, 0, 0, 0, 0, time.UTC), !m.has
			}
		default:
			if len(cancels) > 0 {
				k := vh.Uni(c, len(cancels), "which")
				step = fmt.Sprintf("cancelled(%d)", cancelOf[k])
				cancels[k]()
				dead[cancelOf[k]] = true
				for i, n := range nodes {
					if n.own && isDead(i) {
						after++
					}
				}
			}
		}
		c.Desc("%s", step)
		check(step)
	}
	c.Class(len(mocks) > 0, "parents of other types")
	c.Class(after > 0, "modes observed after cancellation")
	own := 0
	for _, n := range nodes {
		if n.own {
			own++
		}
	}
	c.Class(own > 1, "several modes")
	c.NonTrivial(own > 0 && after > 0)
}

// shared is one context of a mode that several goroutines ask at once while it is cancelled.
func shared(c *vh.Case) {
	mode := rapid.SampledFrom([]gb.Mode{gb.Blocking, gb.NonBlocking, 5}).Draw(c.T, "mode")
	par := rapid.IntRange(2, 6).Draw(c.T, "goroutines")
	asks := rapid.IntRange(1, 6).Draw(c.T, "asks")
	kinds := make([]int, par)
	for i := range kinds {
		kinds[i] = rapid.IntRange(0, 5).Draw(c.T, "ask")
	}
	parent, cancel := context.WithCancelCause(context.WithValue(context.Background(), key(0), "v"))
	defer cancel(nil)
	ctx := gb.NewContext(parent, mode)
	c.Desc("mode %d asked %v, %d times", mode, kinds, asks)
	start, out := make(chan struct{}), make(chan string, par)
	for _, k := range kinds {
		go func() {
			<-start
			bad := ""
			for i := 0; i < asks; i++ {
				switch (k + i) % 6 {
				case 0:
					if m, ok := gb.BlockingMode(ctx); !ok || m != mode {
						bad = fmt.Sprintf("mode is (%v,%v)", m, ok)
					}
				case 1:
					if v := ctx.Value(key(0)); v != "v" {
						bad = fmt.Sprintf("value is %v", v)
					}
				case 2:
					if e := ctx.Err(); e != nil && e != context.Canceled {
						bad = fmt.Sprintf("error is %v", e)
					}
				case 3:
					<-ctx.Done()
					if ctx.Err() != context.Canceled || context.Cause(ctx) != errCause {
						bad = fmt.Sprintf("error is %v, cause %v", ctx.Err(), context.Cause(ctx))
					}
				case 4:
					if _, ok := ctx.Deadline(); ok {
						bad = "has a deadline"
					}
				case 5:
					child := gb.NewContext(ctx, mode+1)
					if m, ok := gb.BlockingMode(child); !ok || m != mode+1 {
						bad = fmt.Sprintf("mode of a child is (%v,%v)", m, ok)
					}
				}
			}
			out <- bad
		}()
	}
	close(start)
	cancel(errCause)
	for range kinds {
		select {
		case bad := <-out:
			if bad != "" {
				c.Failf("while others ask and it is cancelled, %s of a context of mode %d", bad, mode)
			}
		case <-time.After(20 * time.Second):
			c.Failf("the context was cancelled, but is not done")
		}
	}
	c.NonTrivial(asks > 1)
}

// TestShared is built with the race detector.
func TestShared(t *testing.T) { vh.Check(t, shared) }

func TestContexts(t *testing.T) { vh.Check(t, run) }

func TestMain(m *testing.M) { vh.Main(m) }
