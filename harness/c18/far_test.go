package c18

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// far searches graphs of many vertices in which every vertex but the source has one predecessor:
// each vertex is reached once, with the value one.
func far[T constraints.Number](c *vh.Case) {
	n := 40 + vh.Uni(c, 160, "n")
	src, shift := vh.Uni(c, n, "source"), 1
	if rapid.Bool().Draw(c.T, "stride") {
		for shift = 1 + vh.Uni(c, n, "shift"); gcd(shift, n) != 1; shift++ {
		}
	}
	name := func(i int) int { return (src + i*shift) % n } // the i-th vertex
	a := vh.Empty[T](vh.F(vh.Uni(c, 3, "format")), n, n)
	dist := make([]int, n)
	kind := vh.Uni(c, 4, "graph")
	width := 1 + vh.Uni(c, 6, "width")
	most := 0
	for i := 1; i < n; i++ {
		p := i - 1 // path
		switch kind {
		case 1: // several paths side by side
			p = max(0, i-width)
		case 2: // tree
			p = vh.Uni(c, i, "parent")
		case 3: // a path with a tail that is not reached
			if i > n*3/4 {
				p = -1
			}
		}
		if p < 0 {
			dist[name(i)] = -1
			a.Set(name(i), name(n-1), 1)
			continue
		}
		dist[name(i)] = dist[name(p)] + 1
		most = max(most, dist[name(i)])
		a.Set(name(i), name(p), 1)
	}
	if rapid.Bool().Draw(c.T, "back") { // an edge to a vertex nearer to the source changes nothing
		i := name(vh.Uni(c, n, "back"))
		if dist[i] >= 0 {
			a.Set(src, i, 1)
		}
	}
	stop := n + 1
	if vh.Uni(c, 3, "stop") == 0 {
		stop = 1 + vh.Uni(c, n, "stop at")
	}
	c.Desc("%d vertices from %d, shift %d, graph %d, width %d, stop %d", n, src, shift, kind, width, stop)
	d := 0
	res := breadthfirst.Search[T](vh.BG, a, src, func(v gb.Vector[T]) bool {
		d++
		for i := 0; i < n; i++ {
			want := T(0)
			if dist[i] == d {
				want = 1
			}
			if g := v.AtVec(i); g != want {
				c.Failf("level %d: vertex %d at distance %d holds %v", d, i, dist[i], g)
			}
		}
		return d == stop
	})
	if want := min(stop, n); d != want {
		c.Failf("%d levels, want %d", d, want)
	}
	for i := 0; i < n; i++ {
		want := T(0)
		if stop <= n && dist[i] == stop {
			want = 1
		}
		if g := res.AtVec(i); g != want {
			c.Failf("result: vertex %d at distance %d holds %v", i, dist[i], g)
		}
	}
	c.Class(most > 64, "more than 64 levels")
	c.NonTrivial(most > 1)
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func TestFar(t *testing.T) {
	vh.Check(t, vh.Types13(far[float64], far[int], far[int8], far[uint8], far[int32], far[float32], far[int16], far[int64], far[uint], far[uint16], far[uint32], far[uint64], far[uintptr]))
}
