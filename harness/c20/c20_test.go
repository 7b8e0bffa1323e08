package c20

import (
	"context"
	"fmt"
	"slices"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/sort"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func build(c *vh.Case, m vh.Mat[rune]) gb.MatrixLogical[rune] {
	k := rapid.IntRange(0, 3).Draw(c.T, "format")
	if k == 3 {
		var s gb.MatrixLogical[rune] = gb.NewDenseMatrix[rune](m.R, m.C)
		if m.C == 1 && rapid.Bool().Draw(c.T, "vector") {
			s = gb.NewDenseVector[rune](m.R)
		}
		for i, v := range m.D {
			s.Set(i/m.C, i%m.C, v)
		}
		c.Desc("plain %v", m)
		return s
	}
	s, _ := vh.BuildAny(c, "s", m)
	return s
}

// lines are the rows (or the columns) of m.
func lines(m vh.Mat[rune], cols bool) []string {
	if cols {
		m = m.Tr()
	}
	o := []string{}
	for i := 0; i < m.R; i++ {
		o = append(o, string(m.D[i*m.C:(i+1)*m.C]))
	}
	return o
}

func TestSort(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		r, cc := rapid.IntRange(0, 9).Draw(c.T, "r"), rapid.IntRange(0, 9).Draw(c.T, "c")
		if rapid.IntRange(0, 2).Draw(c.T, "narrow") == 0 {
			cc = min(cc, 2)
		}
		if vh.Uni(c, 40, "longer") == 0 {
			r = rapid.IntRange(10, 48).Draw(c.T, "r")
			if rapid.Bool().Draw(c.T, "turned") {
				r, cc = cc, r
			}
		}
		n := rapid.IntRange(1, 4).Draw(c.T, "alphabet")
		var pal []rune
		for i := 0; i < n; i++ {
			pal = append(pal, rapid.SampledFrom(vh.Runes).Draw(c.T, "rune"))
		}
		m := vh.GenMat(c, r, cc, pal)
		cols := rapid.Bool().Draw(c.T, "columns")
		cnt := r
		if cols {
			cnt = cc
		}
		if cnt > 1 { // repeated, nearly equal and already ordered lines
			switch rapid.IntRange(0, 5).Draw(c.T, "lines") {
			case 0, 1:
				x := m
				if cols {
					x = m.Tr()
				}
				for k := rapid.IntRange(1, 3).Draw(c.T, "copies"); k > 0; k-- {
					a, b := vh.Uni(c, cnt, "from"), vh.Uni(c, cnt, "to")
					copy(x.D[b*x.C:(b+1)*x.C], x.D[a*x.C:(a+1)*x.C])
					if x.C > 0 && rapid.Bool().Draw(c.T, "vary") {
						x.D[b*x.C+vh.Uni(c, x.C, "at")] = rapid.SampledFrom(pal).Draw(c.T, "with")
					}
				}
				if cols {
					m = x.Tr()
				}
			case 2: // descending
				x := m
				if cols {
					x = m.Tr()
				}
				ls := lines(x, false)
				slices.Sort(ls)
				slices.Reverse(ls)
				for i, l := range ls {
					copy(x.D[i*x.C:], []rune(l))
				}
				if cols {
					m = x.Tr()
				}
			}
		}
		s := build(c, m)
		f, name := sort.BubbleRow, "BubbleRow"
		if cols {
			f, name = sort.BubbleColumns, "BubbleColumns"
		}
		c.Desc(name)
		var want []string
		var ctx context.Context = vh.BG
		count := vh.NewPollCtx(0)
		if rapid.Bool().Draw(c.T, "count") {
			ctx = count
		}
		check := func(what string, got gb.MatrixLogical[rune], ordered bool) {
			if got.Rows() != r || got.Columns() != cc {
				c.Failf("%s%s: shape %dx%d, want %dx%d", name, what, got.Rows(), got.Columns(), r, cc)
			}
			g := lines(vh.Snap(got), cols)
			if ordered && fmt.Sprintf("%q", g) != fmt.Sprintf("%q", want) {
				c.Failf("%s%s = %q, want %q", name, what, g, want)
			}
			slices.Sort(g)
			if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", want) {
				c.Failf("%s%s is no permutation of the input: %q, want %q", name, what, g, want)
			}
			vh.Expect(c, "input afterwards", s, m)
		}
		vh.Rounds(c, func() { vh.Rewrite(c, "s", s, m, pal) }, func() {
			want = lines(m, cols)
			slices.Sort(want)
			if ctx == context.Context(count) {
				count = vh.NewPollCtx(0)
				ctx = count
			}
			got := f(ctx, s)
			check("", got, true)
			if r*cc > 0 {
				got.Set(0, 0, got.At(0, 0)+1)
				vh.Expect(c, "input after a write to the result", s, m)
			}
		})
		cancelled := false
		if polls := count.Polls(); polls > 0 {
			for k := rapid.IntRange(1, 4).Draw(c.T, "cancels"); k > 0; k-- {
				at := rapid.IntRange(1, polls).Draw(c.T, "cancel at")
				p := vh.NewPollCtx(at)
				check(fmt.Sprintf(" cancelled at poll %d of %d", at, polls), f(p, s), false)
				cancelled = cancelled || at > 1
			}
		}
		ls := lines(m, cols)
		c.Class(cols, "columns")
		c.Class(cancelled, "cancelled under way")
		c.Class(len(slices.Compact(slices.Clone(want))) < len(want), "repeated lines")
		c.NonTrivial(!slices.IsSorted(ls))
	})
}

func TestMain(m *testing.M) { vh.Main(m) }
