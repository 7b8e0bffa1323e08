package c20

import (
	"fmt"
	"slices"
	"testing"

	"github.com/rossmerr/graphblas/sort"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// TestFar sorts many short lines or few long ones.
func TestFar(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		r, cc := 30+vh.Uni(c, 140, "lines"), 1+vh.Uni(c, 3, "length")
		many := vh.Uni(c, 3, "many") == 0
		if !many {
			r, cc = 2+vh.Uni(c, 5, "lines"), 30+vh.Uni(c, 400, "length")
		}
		m := vh.NewMat[rune](r, cc)
		pal := []rune{'a', 'b', rapid.SampledFrom(vh.Runes).Draw(c.T, "rune")}
		if many {
			for i := range m.D {
				m.D[i] = rune('a' + vh.Uni(c, 26, "letter"))
			}
		} else { // equal lines, then changes in drawn places
			for i := range m.D {
				m.D[i] = pal[i%cc%2]
			}
			for k := rapid.IntRange(0, 2*r).Draw(c.T, "changes"); k > 0; k-- {
				m.D[vh.Uni(c, r*cc, "at")] = rapid.SampledFrom(pal).Draw(c.T, "with")
			}
		}
		cols := rapid.Bool().Draw(c.T, "columns")
		x, f, name := m, sort.BubbleRow, "BubbleRow"
		if cols {
			x, f, name = m.Tr(), sort.BubbleColumns, "BubbleColumns"
		}
		want := lines(m, false)
		sorted := slices.IsSorted(want)
		slices.Sort(want)
		s := build(c, x)
		c.Desc(name)
		got := f(vh.BG, s)
		if got.Rows() != x.R || got.Columns() != x.C {
			c.Failf("%s: shape %dx%d, want %dx%d", name, got.Rows(), got.Columns(), x.R, x.C)
		}
		if g := lines(vh.Snap(got), cols); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", want) {
			c.Failf("%s = %q, want %q", name, g, want)
		}
		vh.Expect(c, "input afterwards", s, x)
		c.Class(many, "many lines")
		c.NonTrivial(!sorted)
	})
}
