package c12

import (
	"runtime"
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// mono is a drawn associative and commutative monoid; yield makes the fold give way to the
// producer at drawn steps.
func mono[T constraints.Number](c *vh.Case) (binaryop.MonoID[T], T, func(T, T) T, string) {
	var f func(x, y T) T
	var z T
	name := ""
	op := binaryop.BinaryOp[T](nil)
	k := rapid.IntRange(0, 7).Draw(c.T, "monoid")
	if vh.IsFloat[T]() && k == 5 {
		k = 0
	}
	switch k {
	default:
		name, f, z = "sum", func(x, y T) T { return x + y }, 0
		if rapid.Bool().Draw(c.T, "lib") {
			op = binaryop.Addition[T]()
		}
	case 2:
		name, f, z = "max", func(x, y T) T { return max(x, y) }, vh.MinOf[T]()
		if rapid.Bool().Draw(c.T, "lib") {
			op = binaryop.Maximum[T]()
		}
	case 3:
		name, f, z = "min", func(x, y T) T { return min(x, y) }, vh.MaxOf[T]()
		if rapid.Bool().Draw(c.T, "lib") {
			op = binaryop.Minimum[T]()
		}
	case 4:
		name, f, z = "max from 0", func(x, y T) T { return max(x, y) }, 0
	case 5:
		name, f, z = "product", func(x, y T) T { return x * y }, 1
		if rapid.Bool().Draw(c.T, "lib") {
			op = binaryop.Multiplication[T]()
		}
	case 6: // number of elements equal to zero, or not: counts every element once
		name, f, z = "or", func(x, y T) T {
			if x != 0 || y != 0 {
				return 1
			}
			return 0
		}, 0
	}
	yield := rapid.IntRange(0, 4).Draw(c.T, "yield")
	if op == nil {
		n := 0
		op = binaryop.NewBinaryOp(func(x, y T) T {
			if n++; yield > 0 && n%yield == 0 {
				runtime.Gosched()
			}
			return f(x, y)
		})
	}
	c.Desc("%s", name)
	if rapid.IntRange(0, 3).Draw(c.T, "own") == 0 {
		own := &ownID[T]{z: z, op: op, buffer: rapid.IntRange(0, 2).Draw(c.T, "buffer"), late: rapid.Bool().Draw(c.T, "late")}
		c.Desc("of the caller, buffer %d, late %v", own.buffer, own.late)
		return own, z, f, name
	}
	return binaryop.NewMonoID(z, op), z, f, name
}

// ownID is a monoid of the caller.
type ownID[T constraints.Number] struct {
	z      T
	op     binaryop.BinaryOp[T]
	buffer int
	late   bool // folds when all values are there
}

func (s *ownID[T]) Zero() T { return s.z }

func (s *ownID[T]) Reduce(done <-chan struct{}, slice <-chan T) <-chan T {
	out := make(chan T, s.buffer)
	go func() {
		defer close(out)
		var kept []T
		result := s.z
		for {
			select {
			case v := <-slice:
				if s.late {
					kept = append(kept, v)
				} else {
					result = s.op.Apply(result, v)
				}
			case <-done:
				for _, v := range kept {
					result = s.op.Apply(result, v)
				}
				out <- result
				return
			}
		}
	}()
	return out
}

func fold[T constraints.Number](z T, f func(T, T) T, m vh.Mat[T], take func(k int) bool) T {
	for k, v := range m.D {
		if take(k) {
			z = f(z, v)
		}
	}
	return z
}

func num[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, true)
	pal := vh.Palette[T](c, vh.Exact)
	m := vh.GenMat(c, r, cc, pal)
	s, f := vh.BuildAny(c, "s", m)
	mask, bits := vh.DrawMask(c, r, cc)
	if mask != nil && rapid.IntRange(0, 3).Draw(c.T, "slow mask") == 0 { // the producer gives way
		inner := mask
		mask = vh.FuncMask{R: r, C: cc, F: func(i, k int) bool { runtime.Gosched(); return inner.Element(i, k) }}
	}
	sp := f.Sparse()
	skipped, zeros := false, false
	take := func(k int) bool {
		if bits.D[k] {
			skipped = skipped || m.D[k] != 0
			return false
		}
		return !sp || m.D[k] != 0
	}
	id, z, g, name := mono[T](c)
	vm, vb := vh.DrawMask(c, r, 1)
	vh.Rounds(c, func() {
		if vh.Uni(c, 4, "rewrite") == 0 {
			if _, slow := mask.(vh.FuncMask); mask != nil && !slow {
				vh.RewriteMask(c, mask, bits)
			}
			vh.RewriteMask(c, vm, vb)
		}
		vh.Rewrite[T](c, "s", s, m, pal)
	}, func() {
		want := fold(z, g, m, take)
		part := vh.Uni(c, 4, "part") // all reductions, or one kind alone
		if part < 2 {
			if v := gb.ReduceMatrixToScalarWithMonoID[T](vh.BG, s, id, mask); !vh.Same(v, want) {
				c.Failf("ReduceMatrixToScalarWithMonoID(%s) = %v, want %v", name, v, want)
			}
			if v := gb.ReduceMatrixToScalarWithMonoID[T](vh.BG, s, id, mask); !vh.Same(v, want) {
				c.Failf("the second ReduceMatrixToScalarWithMonoID(%s) with one monoid = %v, want %v", name, v, want)
			}
		}
		if part == 0 || part == 2 {
			sum := fold(T(0), func(x, y T) T { return x + y }, m, take)
			if v := gb.ReduceMatrixToScalar[T](vh.BG, s, mask); !vh.Same(v, sum) {
				c.Failf("ReduceMatrixToScalar = %v, want %v", v, sum)
			}
			if v, ok := s.(gb.VectorLogial[T]); ok {
				if x := gb.ReduceVectorToScalar[T](vh.BG, v, mask); !vh.Same(x, sum) {
					c.Failf("ReduceVectorToScalar = %v, want %v", x, sum)
				}
				if x := gb.ReduceVectorToScalarWithMonoID[T](vh.BG, v, id, mask); !vh.Same(x, want) {
					c.Failf("ReduceVectorToScalarWithMonoID(%s) = %v, want %v", name, x, want)
				}
			}
		}
		if part == 0 || part == 3 {
			// by column
			got := gb.ReduceMatrixToVectorWithMonoID[T](vh.BG, s, id, vm)
			def := gb.ReduceMatrixToVector[T](vh.BG, s)
			if got.Length() != cc || def.Length() != cc {
				c.Failf("reduction to a vector of length %d and %d, want %d", got.Length(), def.Length(), cc)
			}
			for k := 0; k < cc; k++ {
				w, top := z, T(0)
				for i := 0; i < r; i++ {
					v := m.At(i, k)
					top = max(top, v)
					zeros = zeros || v == 0
					if !vb.At(i, 0) && (!sp || v != 0) {
						w = g(w, v)
					}
				}
				if x := got.AtVec(k); !vh.Same(x, w) {
					c.Failf("ReduceMatrixToVectorWithMonoID(%s): column %d = %v, want %v", name, k, x, w)
				}
				if x := def.AtVec(k); !vh.Same(x, top) {
					c.Failf("ReduceMatrixToVector: column %d = %v, want %v", k, x, top)
				}
			}
		}
		vh.Expect[T](c, "operand afterwards", s, m)
	})
	c.Class(true, name)
	c.Class(skipped, "mask leaves out non-zeros")
	c.Class(sp && zeros, "sparse with zeros")
	c.NonTrivial(m.NNZ() > 1)
}

func TestReductions(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

// logical operands: extracted columns and the dense types without arithmetic.
func plain[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, false)
	pal := vh.Palette[T](c, vh.Exact)
	m := vh.GenMat(c, r, cc, pal)
	s := gb.NewDenseMatrix[T](r, cc)
	for i, v := range m.D {
		s.Set(i/cc, i%cc, v)
	}
	c.Desc("DenseMatrix %v", m)
	sum := func(x, y T) T { return x + y }
	all := func(int) bool { return true }
	id, z, f, name := mono[T](c)
	vh.Rounds(c, func() { vh.Rewrite[T](c, "s", s, m, pal) }, func() {
		if g, w := gb.ReduceMatrixToScalar[T](vh.BG, s, nil), fold(T(0), sum, m, all); !vh.Same(g, w) {
			c.Failf("ReduceMatrixToScalar = %v, want %v", g, w)
		}
		if g, w := gb.ReduceMatrixToScalarWithMonoID[T](vh.BG, s, id, nil), fold(z, f, m, all); !vh.Same(g, w) {
			c.Failf("ReduceMatrixToScalarWithMonoID(%s) = %v, want %v", name, g, w)
		}
		for k := 0; k < cc; k++ {
			w := z
			for i := 0; i < r; i++ {
				w = f(w, m.At(i, k))
			}
			if g := gb.ReduceVectorToScalarWithMonoID[T](vh.BG, s.ColumnsAt(k), id, nil); !vh.Same(g, w) {
				c.Failf("ReduceVectorToScalarWithMonoID(%s) of column %d = %v, want %v", name, k, g, w)
			}
		}
	})
	c.NonTrivial(m.NNZ() > 1)
}

func TestPlain(t *testing.T) {
	vh.Check(t, vh.Types13(plain[float64], plain[int], plain[int8], plain[uint8], plain[int32], plain[float32], plain[int16], plain[int64], plain[uint], plain[uint16], plain[uint32], plain[uint64], plain[uintptr]))
}

// TestRace is TestReductions built with the race detector.
func TestRace(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
