package vh

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
)

// Rewrite changes x and its model m in a drawn way, in place: what was derived from x or computed
// of it before must not show in what is asked of it afterwards. Half of the changes keep the
// number of non-zero elements.
func Rewrite[T constraints.Type](c *Case, label string, x gb.MatrixLogical[T], m Mat[T], pal []T) {
	var z T
	n := len(m.D)
	if n == 0 {
		return
	}
	set := func(p int, v T) {
		c.Desc("%s(%d,%d)=%v", label, p/m.C, p%m.C, v)
		switch Uni(c, 4, "by") {
		case 0:
			x.Update(p/m.C, p%m.C, func(T) T { return v })
		case 1:
			if s, ok := any(x).(interface {
				SetReturnPointer(r, c int, value T) (int, int)
			}); ok {
				s.SetReturnPointer(p/m.C, p%m.C, v)
				break
			}
			fallthrough
		default:
			x.Set(p/m.C, p%m.C, v)
		}
		m.D[p] = v
	}
	value := func() T { return rapid.SampledFrom(pal).Draw(c.T, "to") }
	nonzero := func() int { // the first element at or after a drawn place
		p := Uni(c, n, "pos")
		for i := 0; i < n; i++ {
			if q := (p + i) % n; m.D[q] != z {
				return q
			}
		}
		return p
	}
	for k := rapid.IntRange(1, 3).Draw(c.T, "changes"); k > 0; k-- {
		switch Uni(c, 8, "change") {
		case 0: // anywhere, to any value
			p := Uni(c, n, "pos")
			if rapid.Bool().Draw(c.T, "zero") {
				set(p, z)
			} else {
				set(p, value())
			}
		case 1, 2: // one element takes another value
			set(nonzero(), value())
		case 3, 4: // two elements exchanged
			p, q := nonzero(), Uni(c, n, "with")
			v, w := m.D[p], m.D[q]
			set(p, w)
			set(q, v)
		case 5: // one removed
			set(nonzero(), z)
		case 6: // the elements of a row or of a column take one value
			p, v := nonzero(), value()
			row := rapid.Bool().Draw(c.T, "row")
			for i := range m.D {
				if m.D[i] != z && ((row && i/m.C == p/m.C) || (!row && i%m.C == p%m.C)) {
					set(i, v)
				}
			}
		case 7: // all of it
			c.Desc("%s cleared", label)
			x.Clear()
			clear(m.D)
			for j := rapid.IntRange(0, 3).Draw(c.T, "fill"); j > 0; j-- {
				set(Uni(c, n, "pos"), value())
			}
		}
	}
}

// Rounds runs f on a case once, and in some of the cases again after each of a few changes.
func Rounds(c *Case, change, f func()) {
	f()
	if Uni(c, 3, "again") > 0 {
		return
	}
	for k := rapid.IntRange(1, 2).Draw(c.T, "rounds"); k > 0; k-- {
		c.Desc("again:")
		change()
		f()
	}
	c.Class(true, "again after changes")
}

// Rewrite changes one or both operands, as built from the models.
func (i *Inst[T]) Rewrite(s, m gb.Matrix[T]) {
	pal := i.Pal
	w := Uni(i.C, 3, "which")
	if w != 1 || !i.Binary || i.Same {
		Rewrite[T](i.C, "s", s, i.S, pal)
	}
	if w != 0 && i.Binary && !i.Same {
		Rewrite[T](i.C, "m", m, i.M, pal)
	}
}

// RewriteMask changes a mask that DrawMask gave and the positions it marks.
func RewriteMask(c *Case, mask gb.Mask, bits Mat[bool]) {
	switch x := mask.(type) {
	case gb.Matrix[int8]:
		rewriteMask(c, x, bits)
	case gb.Matrix[uint8]:
		rewriteMask(c, x, bits)
	case gb.Matrix[float32]:
		rewriteMask(c, x, bits)
	case gb.Matrix[int]:
		rewriteMask(c, x, bits)
	case gb.Matrix[float64]:
		rewriteMask(c, x, bits)
	}
}

func rewriteMask[U constraints.Number](c *Case, x gb.Matrix[U], bits Mat[bool]) {
	m := Snap[U](x)
	Rewrite[U](c, "mask", x, m, []U{1, 2})
	for i, v := range m.D {
		bits.D[i] = v != 0
	}
}
