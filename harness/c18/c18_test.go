package c18

import (
	"fmt"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// graph draws the edges of a graph: on[i*n+j] is an edge from j to i.
func graph(c *vh.Case, n int, simple bool) []bool {
	on := make([]bool, n*n)
	edge := func(from, to int) { on[to*n+from] = true }
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	if rapid.Bool().Draw(c.T, "shuffle") {
		perm = rapid.Permutation(perm).Draw(c.T, "perm")
	}
	kind := rapid.IntRange(0, 9).Draw(c.T, "graph")
	if simple { // few edges, hence few paths
		kind = []int{0, 1, 2, 4}[kind%4]
	}
	switch kind {
	case 0: // path
		for i := 0; i+1 < n; i++ {
			edge(perm[i], perm[i+1])
		}
	case 1: // cycle
		for i := 0; i < n; i++ {
			edge(perm[i], perm[(i+1)%n])
		}
	case 2: // star and back
		for i := 1; i < n; i++ {
			edge(perm[0], perm[i])
			edge(perm[i], perm[0])
		}
	case 3: // layers of drawn width
		w := rapid.IntRange(1, 4).Draw(c.T, "width")
		for i := range perm {
			for j := range perm {
				if j/w == i/w+1 && rapid.IntRange(0, 3).Draw(c.T, "e") > 0 {
					edge(perm[i], perm[j])
				}
			}
		}
	case 4: // tree
		for i := 1; i < n; i++ {
			edge(perm[vh.Uni(c, i, "parent")], perm[i])
		}
	case 5: // complete
		for i := range on {
			on[i] = true
		}
	default:
		thr := rapid.SampledFrom([]int{15, 30, 60, 100, 180}).Draw(c.T, "density")
		for i := range on {
			on[i] = int(rapid.Byte().Draw(c.T, "e")) < thr
		}
	}
	if kind < 5 { // some edges more
		for k := rapid.IntRange(0, 4).Draw(c.T, "more"); k > 0; k-- {
			on[vh.Uni(c, n*n, "edge")] = true
		}
	}
	return on
}

func num[T constraints.Number](c *vh.Case) {
	// the sums of products of weights stay below e^(n*w/e), within the type
	lim := map[int]int{8: 12, 16: 28, 32: 42, 64: 60}[vh.Bits[T]()]
	w := rapid.IntRange(1, 3).Draw(c.T, "weights")
	top := min(lim/w, 14)
	if vh.Deep || rapid.IntRange(0, 15).Draw(c.T, "large") == 0 {
		top = min(lim/w, 36)
	}
	n := rapid.IntRange(1, top).Draw(c.T, "n")
	simple := vh.Uni(c, 80, "long") == 0
	if simple {
		n, w = 30+vh.Uni(c, 90, "n"), 1
	}
	on := graph(c, n, simple)
	m := vh.NewMat[T](n, n)
	for k, e := range on {
		if e {
			m.D[k] = 1
			if w > 1 {
				m.D[k] = T(rapid.IntRange(1, w).Draw(c.T, "w"))
				if vh.IsFloat[T]() && rapid.IntRange(0, 3).Draw(c.T, "half") == 0 {
					m.D[k] = T(1) / 2
				}
			}
		}
	}
	src := vh.Uni(c, n, "source")
	// levels of the model: distances, and numbers of shortest paths for 0/1 weights
	dist := make([]int, n)
	paths := make([]uint64, n)
	far := 0
	model := func() {
		for i := range dist {
			dist[i], paths[i] = -1, 0
		}
		dist[src], paths[src] = 0, 1
		for q := []int{src}; len(q) > 0; {
			j := q[0]
			q = q[1:]
			far = dist[j]
			for i := 0; i < n; i++ {
				if !on[i*n+j] {
					continue
				}
				if dist[i] < 0 {
					dist[i] = dist[j] + 1
					q = append(q, i)
				}
				if dist[i] == dist[j]+1 {
					paths[i] += paths[j]
				}
			}
		}
	}
	model()
	// the stop predicate
	var kind, at, goal int
	draw := func() {
		kind = rapid.IntRange(0, 3).Draw(c.T, "stop")
		at = rapid.IntRange(1, n+1).Draw(c.T, "stop at")
		goal = vh.Uni(c, n, "goal")
		c.Desc("from %d stop%d,%d,%d", src, kind, at, goal)
	}
	stop := func(d int, v gb.Vector[T]) bool {
		switch kind {
		case 0:
			return false
		case 1:
			return d == at
		case 2:
			return v.AtVec(goal) != 0
		}
		return v.AtVec(goal) == 0 && d > 1
	}
	f, vecs := vh.F(rapid.IntRange(0, 2).Draw(c.T, "format")), n == 1 && rapid.Bool().Draw(c.T, "vector")
	if vecs {
		f = vh.DVec + vh.F(rapid.IntRange(0, 1).Draw(c.T, "format"))
	}
	s := vh.Build(c, "a", f, m)
	draw()
	var results []gb.Vector[T] // of all searches, with what they held
	var held []vh.Mat[T]
	run := func(s gb.Matrix[T], f vh.F) string {
		d, stopped := 0, false
		var last []T
		trace := ""
		res := breadthfirst.Search[T](vh.BG, s, src, func(v gb.Vector[T]) bool {
			d++
			if stopped {
				c.Failf("%v: level %d after the predicate held", f, d)
			}
			if d > n {
				c.Failf("%v: level %d for %d vertices", f, d, n)
			}
			if v.Length() != n {
				c.Failf("%v: vector of length %d for %d vertices", f, v.Length(), n)
			}
			last = last[:0]
			for i := 0; i < n; i++ {
				x := v.AtVec(i)
				last = append(last, x)
				if (x != 0) != (dist[i] == d) {
					c.Failf("%v: level %d: vertex %d at distance %d holds %v", f, d, i, dist[i], x)
				}
				if w == 1 && dist[i] == d && x != T(paths[i]) {
					c.Failf("%v: level %d: vertex %d holds %v, number of shortest paths %d", f, d, i, x, paths[i])
				}
			}
			trace += fmt.Sprint(last)
			stopped = stop(d, v)
			return stopped
		})
		if !stopped && d != n {
			c.Failf("%v: %d levels for %d vertices", f, d, n)
		}
		if res.Length() != n {
			c.Failf("%v: result of length %d for %d vertices", f, res.Length(), n)
		}
		for i := 0; i < n; i++ {
			want := T(0)
			if stopped {
				want = last[i]
			}
			if g := res.AtVec(i); g != want {
				c.Failf("%v: result %d = %v, want %v (stopped: %v)", f, i, g, want, stopped)
			}
		}
		vh.Expect[T](c, "graph afterwards", s, m)
		results, held = append(results, res), append(held, vh.Snap[T](res))
		c.Class(stopped, "stopped by the predicate")
		c.Class(!stopped, "all levels")
		return trace
	}
	t1 := run(s, f)
	if g := vh.F(rapid.IntRange(0, 2).Draw(c.T, "other format")); g != f {
		if t2 := run(vh.Plain(g, m), g); t1 != t2 {
			c.Failf("levels of %v: %s, of %v: %s", f, t1, g, t2)
		}
	}
	// more searches, from other vertices and stopped elsewhere
	first := far
	if !simple && vh.Uni(c, 3, "again") == 0 {
		for k := rapid.IntRange(1, 3).Draw(c.T, "searches"); k > 0; k-- {
			if rapid.Bool().Draw(c.T, "elsewhere") {
				src = vh.Uni(c, n, "source")
			}
			draw()
			for e := rapid.IntRange(0, 3).Draw(c.T, "edges changed"); e > 0; e-- {
				p := vh.Uni(c, n*n, "edge")
				switch rapid.IntRange(0, 2).Draw(c.T, "how") {
				case 0: // an edge more, or one less
					on[p] = !on[p]
				case 1: // an edge moved
					q := vh.Uni(c, n*n, "to")
					on[p], on[q] = on[q], on[p]
					m.D[p], m.D[q] = m.D[q], m.D[p]
					s.Set(q/n, q%n, m.D[q])
				}
				m.D[p] = 0
				if on[p] {
					m.D[p] = T(rapid.IntRange(1, w).Draw(c.T, "w"))
				}
				s.Set(p/n, p%n, m.D[p])
				c.Desc("edge (%d,%d)=%v", p/n, p%n, m.D[p])
			}
			model()
			run(s, f)
		}
		c.Class(true, "searched again from elsewhere")
	}
	for k := range results {
		vh.Expect[T](c, "result after later searches", results[k], held[k])
	}
	far = first
	c.Class(far > 30, "more than 30 levels")
	c.Class(far > 3, "more than 3 levels")
	c.Class(w == 1, "0/1")
	c.NonTrivial(far > 1)
}

func TestSearch(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
