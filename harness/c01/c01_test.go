package c01

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

type op struct{ Kind, R, C, V int }

var names = []string{"Set", "Set", "Set", "Set", "Zero", "Update", "UpdateId", "UpdateZero", "At", "Clear", "SetVec", "AtVec", "Ptr", "UpdPtr", "Read", "Set"}

func ops(c *vh.Case, r, cc int) []op {
	max := 40
	if vh.Deep {
		max = 160
	}
	if rapid.IntRange(0, 5).Draw(c.T, "long") == 0 {
		max *= 4
	}
	spread := rapid.Bool().Draw(c.T, "spread")
	g := rapid.Custom(func(t *rapid.T) op {
		if spread {
			return op{rapid.IntRange(0, len(names)-1).Draw(t, "op"), vh.UniT(t, r, "r"), vh.UniT(t, cc, "c"), rapid.IntRange(0, 5).Draw(t, "v")}
		}
		return op{rapid.IntRange(0, len(names)-1).Draw(t, "op"), rapid.IntRange(0, r-1).Draw(t, "r"),
			rapid.IntRange(0, cc-1).Draw(t, "c"), rapid.IntRange(0, 5).Draw(t, "v")}
	})
	n := rapid.IntRange(1, max).Draw(c.T, "n")
	return rapid.SliceOfN(g, n, n).Draw(c.T, "ops")
}

// run applies the history to s, which holds m, and to the model m, comparing after every step.
func run[T constraints.Type](c *vh.Case, s gb.MatrixLogical[T], m vh.Mat[T], pal []T, hist []op) {
	r, cc := m.R, m.C
	var zero T
	vec, isVec := s.(interface {
		AtVec(int) T
		SetVec(int, T)
		Length() int
	})
	shape := func(step int) {
		if s.Rows() != r || s.Columns() != cc || s.Size() != r*cc || (isVec && vec.Length() != r) {
			c.Failf("step %d: shape changed to %dx%d size %d, was %dx%d", step, s.Rows(), s.Columns(), s.Size(), r, cc)
		}
	}
	shape(-1)
	vh.Expect(c, "new", s, m)
	small := r*cc <= 30
	over, del, refill := false, false, false
	cleared := false
	for i, o := range hist {
		name := names[o.Kind]
		v := pal[o.V%len(pal)]
		if (name == "SetVec" || name == "AtVec") && !isVec {
			name = "Set"
		}
		old := m.At(o.R, o.C)
		put := func(v T) {
			if old != zero {
				over = over || v != zero
				del = del || v == zero
			}
			if cleared && v != zero {
				refill = true
			}
			m.Set(o.R, o.C, v)
		}
		upd := func(nv T, f func(int, int, func(T) T)) {
			calls := 0
			var got T
			f(o.R, o.C, func(x T) T { calls++; got = x; return nv })
			if calls != 1 {
				c.Failf("step %d %s(%d,%d): function called %d times", i, name, o.R, o.C, calls)
			}
			if !vh.Same(got, old) {
				c.Failf("step %d %s(%d,%d): function got %v, current value is %v", i, name, o.R, o.C, got, old)
			}
			put(nv)
		}
		c.Desc("%s(%d,%d,%v)", name, o.R, o.C, v)
		switch name {
		case "Set":
			s.Set(o.R, o.C, v)
			put(v)
		case "Zero":
			s.Set(o.R, o.C, zero)
			put(zero)
		case "Update":
			upd(v, s.Update)
		case "UpdateId":
			upd(old, s.Update)
		case "UpdateZero":
			upd(zero, s.Update)
		case "At":
			if g := s.At(o.R, o.C); !vh.Same(g, old) {
				c.Failf("step %d At(%d,%d) = %v, want %v", i, o.R, o.C, g, old)
			}
		case "Clear":
			s.Clear()
			m = vh.NewMat[T](r, cc)
			cleared = true
		case "SetVec":
			vec.SetVec(o.R, v)
			put(v)
		case "AtVec":
			if g := vec.AtVec(o.R); !vh.Same(g, old) {
				c.Failf("step %d AtVec(%d) = %v, want %v", i, o.R, g, old)
			}
		case "Ptr", "UpdPtr":
			p, ok := any(s).(ptr[T])
			if !ok {
				s.Set(o.R, o.C, v)
				put(v)
				break
			}
			if name == "Ptr" {
				p.SetReturnPointer(o.R, o.C, v)
				put(v)
			} else {
				upd(v, func(r, c int, f func(T) T) { p.UpdateReturnPointer(r, c, f) })
			}
		case "Read": // other readers must not disturb the contents
			switch o.V {
			case 0:
				s.RowsAt(o.R)
			case 1:
				s.ColumnsAt(o.C)
			case 2:
				s.RowsAtToArray(o.R)
			case 3:
				for it := s.Enumerate(); it.HasNext(); {
					it.Next()
				}
			case 4:
				cp := s.CopyLogical()
				s.NotEqual(cp)
			case 5:
				s.Values()
				s.Transpose()
			}
		}
		if g := s.At(o.R, o.C); !vh.Same(g, m.At(o.R, o.C)) {
			c.Failf("step %d %s(%d,%d): reads %v, want %v", i, name, o.R, o.C, g, m.At(o.R, o.C))
		}
		if small || i%16 == 15 || i == len(hist)-1 {
			shape(i)
			if d := vh.Diff(s, m); d != "" {
				c.Failf("after step %d %s(%d,%d): %s", i, name, o.R, o.C, d)
			}
		}
	}
	if isVec {
		for i := 0; i < r; i++ {
			if g := vec.AtVec(i); !vh.Same(g, m.At(i, 0)) {
				c.Failf("AtVec(%d) = %v, want %v", i, g, m.At(i, 0))
			}
		}
	}
	c.Class(over, "overwrite")
	c.Class(del, "delete")
	c.Class(refill, "refill after clear")
	c.Class(m.NNZ() > 12, "more than 12 stored at the end")
	c.NonTrivial(over && del)
}

type ptr[T any] interface {
	SetReturnPointer(r, c int, value T) (pointer int, start int)
	UpdateReturnPointer(r, c int, f func(T) T) (pointer int, start int)
}

func num[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, false)
	f := vh.PickF(c, "F", cc)
	pal := vh.Palette[T](c, vh.AnyNaN)
	hist := ops(c, r, cc)
	typed := f.Sparse() || rapid.IntRange(0, 3).Draw(c.T, "plain") > 0
	c.Desc("%v %dx%d", f, r, cc)
	c.Class(true, f.String())
	if !typed { // the dense types without arithmetic
		if f == vh.DVec {
			run[T](c, gb.NewDenseVector[T](r), vh.NewMat[T](r, cc), pal, hist)
		} else {
			run[T](c, gb.NewDenseMatrix[T](r, cc), vh.NewMat[T](r, cc), pal, hist)
		}
		return
	}
	if vh.Uni(c, 3, "filled") == 0 {
		m := vh.GenMat(c, r, cc, pal)
		c.Class(m.NNZ() > 64, "more than 64 stored at the start")
		run[T](c, vh.Build(c, "s", f, m), m, pal, hist)
		return
	}
	run[T](c, vh.Empty[T](f, r, cc), vh.NewMat[T](r, cc), pal, hist)
}

func TestNumbers(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestBool(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		r, cc := vh.Shape(c, 0, false)
		hist := ops(c, r, cc)
		vec := cc == 1 && rapid.Bool().Draw(c.T, "vec")
		c.Desc("bool vec=%v %dx%d", vec, r, cc)
		pal := []bool{true, true, false}
		if vec {
			run[bool](c, gb.NewDenseVector[bool](r), vh.NewMat[bool](r, cc), pal, hist)
		} else {
			run[bool](c, gb.NewDenseMatrix[bool](r, cc), vh.NewMat[bool](r, cc), pal, hist)
		}
	})
}

// vecs: longer sparse and dense vectors.
func vecs[T constraints.Number](c *vh.Case) {
	r := rapid.IntRange(1, 80).Draw(c.T, "len")
	f := rapid.SampledFrom([]vh.F{vh.SVec, vh.SVec, vh.DVec, vh.CSC, vh.CSR}).Draw(c.T, "F")
	cc := 1
	if !f.IsVec() && rapid.Bool().Draw(c.T, "row") {
		r, cc = 1, r
	}
	c.Desc("%v %dx%d", f, r, cc)
	run[T](c, vh.Empty[T](f, r, cc), vh.NewMat[T](r, cc), vh.Palette[T](c, vh.Any), ops(c, r, cc))
}

func TestLong(t *testing.T) {
	vh.Check(t, vh.Types13(vecs[float64], vecs[int], vecs[int8], vecs[uint8], vecs[int32], vecs[float32], vecs[int16], vecs[int64], vecs[uint], vecs[uint16], vecs[uint32], vecs[uint64], vecs[uintptr]))
}

// huge: a vector, row, column or matrix with up to some thousand stored elements, changed at a few places.
func huge[T constraints.Number](c *vh.Case) {
	n := 300 + vh.Uni(c, 4700, "n")
	if vh.Uni(c, 3, "power") == 0 {
		n = 1<<rapid.IntRange(8, 12).Draw(c.T, "log") + rapid.IntRange(-1, 1).Draw(c.T, "off")
	}
	f := []vh.F{vh.SVec, vh.SVec, vh.DVec, vh.CSC, vh.CSR, vh.Dense}[vh.Uni(c, 6, "F")]
	r, cc := n, 1
	if !f.IsVec() {
		switch vh.Uni(c, 3, "lying") {
		case 0:
			r, cc = 1, n
		case 1:
			r = 2 + vh.Uni(c, 90, "rows")
			cc = max(1, n/r)
		}
	}
	n = r * cc
	m := vh.NewMat[T](r, cc)
	s := vh.Empty[T](f, r, cc)
	x, every := rapid.Uint64().Draw(c.T, "seed"), uint64(rapid.SampledFrom([]int{1, 1, 2, 9}).Draw(c.T, "every"))
	next := func() uint64 { x = x*6364136223846793005 + 1442695040888963407; return x >> 33 }
	set := func(k int, v T) {
		s.Set(k/cc, k%cc, v)
		m.D[k] = v
	}
	back := rapid.Bool().Draw(c.T, "backwards")
	for i := 0; i < n; i++ {
		k := i
		if back {
			k = n - 1 - i
		}
		if next()%every == 0 {
			set(k, T(1+next()%100))
		}
	}
	c.Desc("%v %dx%d every %d seed %d backwards %v", f, r, cc, every, x, back)
	stored := func() int {
		nnz := m.NNZ()
		if f.Sparse() && s.Values() != nnz {
			c.Failf("Values = %d, want %d", s.Values(), nnz)
		}
		return nnz
	}
	before := stored()
	for k := rapid.IntRange(0, 40).Draw(c.T, "changes"); k > 0; k-- {
		p := int(next() % uint64(n))
		switch next() % 4 {
		case 0:
			set(p, 0)
		case 1: // a stretch of zeros
			for e := min(n, p+int(next()%64)); p < e; p++ {
				set(p, 0)
			}
		default:
			set(p, T(1+next()%100))
		}
	}
	if d := vh.Diff[T](s, m); d != "" {
		c.Failf("%s", d)
	}
	after := stored()
	vh.CheckStore(c, "enumeration", s, f, m)
	c.Class(before > 1024, "more than 1024 stored")
	c.NonTrivial(after != before)
}

func TestHuge(t *testing.T) {
	vh.Check(t, vh.Types13(huge[float64], huge[int], huge[int8], huge[uint8], huge[int32], huge[float32], huge[int16], huge[int64], huge[uint], huge[uint16], huge[uint32], huge[uint64], huge[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
