package c19

import (
	"fmt"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// build makes m in one of the formats that hold runes.
func build(c *vh.Case, m vh.Mat[rune]) gb.MatrixLogical[rune] {
	k := rapid.IntRange(0, 3).Draw(c.T, "format")
	if k == 3 {
		var s gb.MatrixLogical[rune] = gb.NewDenseMatrix[rune](m.R, m.C)
		if m.C == 1 && rapid.Bool().Draw(c.T, "vector") {
			s = gb.NewDenseVector[rune](m.R)
		}
		for i, v := range m.D {
			s.Set(i/m.C, i%m.C, v)
		}
		c.Desc("plain %v", m)
		return s
	}
	s, _ := vh.BuildAny(c, "s", m)
	return s
}

func sign(a, b vh.Mat[rune]) int {
	for i := range a.D {
		if a.D[i] < b.D[i] {
			return -1
		}
		if a.D[i] > b.D[i] {
			return 1
		}
	}
	return 0
}

func TestOrder(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		r, cc := vh.Shape(c, 0, true)
		n := rapid.IntRange(2, 5).Draw(c.T, "alphabet")
		var pal []rune
		for i := 0; i < n; i++ {
			pal = append(pal, rapid.SampledFrom(vh.Runes).Draw(c.T, "rune"))
		}
		if rapid.IntRange(0, 4).Draw(c.T, "any") == 0 {
			v := rune(rapid.IntRange(0, 0x10ffff).Draw(c.T, "any rune"))
			if v >= 0xd800 && v < 0xe000 {
				v = 'z'
			}
			pal = append(pal, v)
		}
		var ms []vh.Mat[rune]
		ms = append(ms, vh.GenMat(c, r, cc, pal))
		for i := 0; i < 2; i++ {
			m := ms[rapid.IntRange(0, i).Draw(c.T, "from")].Clone()
			if r*cc > 0 {
				switch rapid.IntRange(0, 4).Draw(c.T, "change") {
				case 0: // none
				case 1, 2:
					m.D[vh.Uni(c, r*cc, "pos")] = rapid.SampledFrom(pal).Draw(c.T, "to")
				case 3: // two exchanged
					a, b := vh.Uni(c, r*cc, "pos"), vh.Uni(c, r*cc, "pos2")
					m.D[a], m.D[b] = m.D[b], m.D[a]
				case 4:
					m = vh.GenMat(c, r, cc, pal)
				}
			}
			ms = append(ms, m)
		}
		var ss []gb.MatrixLogical[rune]
		for _, m := range ms {
			ss = append(ss, build(c, m))
		}
		diff := false
		i := rapid.IntRange(0, 2).Draw(c.T, "which") // the one that changes
		vh.Rounds(c, func() {
			vh.Rewrite(c, fmt.Sprint("s", i), ss[i], ms[i], pal)
		}, func() {
			alone := vh.Uni(c, 4, "alone") == 0 // the text of one matrix, and nothing else
			for j, m := range ms {
				if alone && j != i {
					continue
				}
				if got, want := gb.String(vh.BG, ss[j]), string(m.D); got != want {
					c.Failf("String = %q, want %q", got, want)
				}
			}
			for i := range ss {
				for j := range ss {
					if alone {
						break
					}
					w := sign(ms[i], ms[j])
					if g := gb.Compare(vh.BG, ss[i], ss[j]); g != w {
						c.Failf("Compare(%d, %d) = %d, want %d", i, j, g, w)
					}
					if g := gb.Less(vh.BG, ss[i], ss[j]); g != (w < 0) {
						c.Failf("Less(%d, %d) = %v, Compare %d", i, j, g, w)
					}
					if g := gb.Greater(vh.BG, ss[i], ss[j]); g != (w > 0) {
						c.Failf("Greater(%d, %d) = %v, Compare %d", i, j, g, w)
					}
					diff = diff || w != 0
				}
			}
			for i := range ss {
				vh.Expect(c, "argument afterwards", ss[i], ms[i])
			}
		})
		c.Class(diff, "different contents")
		c.NonTrivial(diff && r*cc > 1)
	})
}

func TestMain(m *testing.M) { vh.Main(m) }
