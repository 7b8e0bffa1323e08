package c30

import (
	"fmt"
	"reflect"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"verif/harness/vh"
)

// The formats of a user: an array that is enumerated in an arbitrary order, either all positions
// (unregistered, hence dense) or the non-zero ones (registered as sparse).
type (
	core[T constraints.Number] struct {
		r, c   int
		d      []T
		sparse bool
		view   bool // rows and columns are not copies
		salt   uint64
		self   gb.Matrix[T]

		// a row or column that is not a copy: its elements are those of the matrix
		of *core[T]
		in func(p int) int
	}
	vcore[T constraints.Number]        struct{ *core[T] }
	UserMatrix[T constraints.Number]   struct{ *core[T] }
	UserSparse[T constraints.Number]   struct{ *core[T] }
	UserVector[T constraints.Number]   struct{ vcore[T] }
	UserSpVector[T constraints.Number] struct{ vcore[T] }

	// the same with fields that can not be compared
	labels                               []string
	LabelledMatrix[T constraints.Number] struct {
		*core[T]
		labels
	}
	LabelledSparse[T constraints.Number] struct {
		labels
		*core[T]
	}
	LabelledVector[T constraints.Number] struct {
		vcore[T]
		label func(int) string
	}
	LabelledSpVector[T constraints.Number] struct {
		vcore[T]
		label map[int]string
	}
)

func init() {
	gb.RegisterMatrix(reflect.TypeOf((*UserSparse[float64])(nil)).Elem())
	gb.RegisterMatrix(reflect.TypeOf((*UserSpVector[float64])(nil)).Elem())
	gb.RegisterMatrix(reflect.TypeOf((*LabelledSparse[float64])(nil)).Elem())
	gb.RegisterMatrix(reflect.TypeOf((*LabelledSpVector[float64])(nil)).Elem())
}

func user[T constraints.Number](m vh.Mat[T], sparse, vec bool, salt uint64) gb.Matrix[T] {
	k := &core[T]{r: m.R, c: m.C, d: m.Clone().D, sparse: sparse, salt: salt, view: salt>>13&3 == 0}
	value := salt>>7&3 == 0 // the format is the struct itself, not a pointer to it
	labelled := value && salt>>9&1 == 0
	known := sparse && salt>>11&3 != 0 // registered; else the zeros are left out all the same, as the interface has it
	switch {
	case vec && known && labelled:
		k.self = LabelledSpVector[T]{vcore[T]{k}, map[int]string{0: "first"}}
	case vec && labelled:
		k.self = LabelledVector[T]{vcore[T]{k}, func(i int) string { return fmt.Sprint(i) }}
	case known && labelled:
		k.self = LabelledSparse[T]{labels{"a"}, k}
	case labelled:
		k.self = LabelledMatrix[T]{k, labels{"b"}}
	case vec && known && value:
		k.self = UserSpVector[T]{vcore[T]{k}}
	case vec && value:
		k.self = UserVector[T]{vcore[T]{k}}
	case known && value:
		k.self = UserSparse[T]{k}
	case value:
		k.self = UserMatrix[T]{k}
	case vec && known:
		k.self = &UserSpVector[T]{vcore[T]{k}}
	case vec:
		k.self = &UserVector[T]{vcore[T]{k}}
	case known:
		k.self = &UserSparse[T]{k}
	default:
		k.self = &UserMatrix[T]{k}
	}
	return k.self
}

func (s *core[T]) pos(r, c int) int {
	if r < 0 || r >= s.r || c < 0 || c >= s.c {
		panic(fmt.Sprintf("user format: (%d,%d) is not in a %d by %d matrix", r, c, s.r, s.c))
	}
	return r*s.c + c
}

// ref is the place of an element.
func (s *core[T]) ref(p int) *T {
	if s.of != nil {
		return s.of.ref(s.in(p))
	}
	return &s.d[p]
}

func (s *core[T]) isVec() bool {
	_, ok := s.self.(gb.Vector[T])
	return ok
}

func (s *core[T]) Columns() int                 { return s.c }
func (s *core[T]) Rows() int                    { return s.r }
func (s *core[T]) At(r, c int) T                { return *s.ref(s.pos(r, c)) }
func (s *core[T]) Set(r, c int, v T)            { *s.ref(s.pos(r, c)) = v }
func (s *core[T]) Update(r, c int, f func(T) T) { p := s.ref(s.pos(r, c)); *p = f(*p) }
func (s *core[T]) Element(r, c int) bool        { return s.At(r, c) != 0 }
func (s *core[T]) Size() int                    { return s.r * s.c }
func (s *core[T]) Clear() {
	for p := 0; p < s.r*s.c; p++ {
		*s.ref(p) = 0
	}
}
func (s *core[T]) Values() int { return len(s.stored()) }

func (s *core[T]) line(n int, in func(i int) int) gb.VectorLogial[T] {
	m := vh.NewMat[T](n, 1)
	for i := range m.D {
		m.D[i] = *s.ref(in(i))
	}
	s.salt++
	v := user(m, s.sparse, true, s.salt).(gb.VectorLogial[T])
	if k := v.(interface{ base() *core[T] }).base(); s.view {
		k.of, k.in, k.d = s, in, nil
	}
	return v
}
func (s *core[T]) base() *core[T] { return s }
func (s *core[T]) ColumnsAt(c int) gb.VectorLogial[T] {
	if s.r > 0 {
		s.pos(0, c)
	}
	return s.line(s.r, func(i int) int { return i*s.c + c })
}
func (s *core[T]) RowsAt(r int) gb.VectorLogial[T] {
	if s.c > 0 {
		s.pos(r, 0)
	}
	return s.line(s.c, func(i int) int { return r*s.c + i })
}
func (s *core[T]) RowsAtToArray(r int) []T {
	a := make([]T, s.c)
	for i := range a {
		a[i] = s.At(r, i)
	}
	return a
}
func (s *core[T]) model() vh.Mat[T] {
	m := vh.NewMat[T](s.r, s.c)
	for p := range m.D {
		m.D[p] = *s.ref(p)
	}
	return m
}
func (s *core[T]) Copy() gb.Matrix[T]                  { return user(s.model(), s.sparse, s.isVec(), s.salt+1) }
func (s *core[T]) CopyLogical() gb.MatrixLogical[T]    { return s.Copy() }
func (s *core[T]) Equal(m gb.MatrixLogical[T]) bool    { return gb.Equal[T](vh.BG, s.self, m) }
func (s *core[T]) NotEqual(m gb.MatrixLogical[T]) bool { return gb.NotEqual[T](vh.BG, s.self, m) }
func (s *core[T]) Scalar(a T) gb.Matrix[T]             { return gb.Scalar[T](vh.BG, s.self, a) }
func (s *core[T]) like(r, c int) gb.Matrix[T] {
	return user(vh.NewMat[T](r, c), s.sparse, false, s.salt+1)
}
func (s *core[T]) Transpose() gb.MatrixLogical[T] {
	o := s.like(s.c, s.r)
	gb.Transpose[T](vh.BG, s.self, nil, o)
	return o
}
func (s *core[T]) Negative() gb.MatrixLogical[T] {
	o := s.like(s.r, s.c)
	gb.Negative[T](vh.BG, s.self, nil, o)
	return o
}
func (s *core[T]) Multiply(m gb.Matrix[T]) gb.Matrix[T] {
	o := s.like(s.r, m.Columns())
	gb.MatrixMatrixMultiply[T](vh.BG, s.self, m, nil, o)
	return o
}
func (s *core[T]) Add(m gb.Matrix[T]) gb.Matrix[T] {
	o := s.like(s.r, s.c)
	gb.Add[T](vh.BG, s.self, m, nil, o)
	return o
}
func (s *core[T]) Subtract(m gb.Matrix[T]) gb.Matrix[T] {
	o := s.like(s.r, s.c)
	gb.Subtract[T](vh.BG, s.self, m, nil, o)
	return o
}

func (s vcore[T]) Length() int       { return s.r }
func (s vcore[T]) AtVec(i int) T     { return s.At(i, 0) }
func (s vcore[T]) SetVec(i int, v T) { s.Set(i, 0, v) }

// stored gives the stored positions in an arbitrary order.
func (s *core[T]) stored() []int {
	var p []int
	for i := 0; i < s.r*s.c; i++ {
		if *s.ref(i) != 0 || !s.sparse {
			p = append(p, i)
		}
	}
	s.salt++
	x := s.salt*0x9e3779b97f4a7c15 + 1
	for i := len(p) - 1; i > 0; i-- {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		j := int(x % uint64(i+1))
		p[i], p[j] = p[j], p[i]
	}
	return p
}

type iter[T constraints.Number] struct {
	s *core[T]
	p []int
}

func (s *core[T]) Enumerate() gb.Enumerate[T] { return &iter[T]{s, s.stored()} }
func (s *core[T]) Map() gb.Map[T]             { return &iter[T]{s, s.stored()} }
func (i *iter[T]) HasNext() bool              { return len(i.p) > 0 }
func (i *iter[T]) Next() (int, int, T) {
	p := i.p[0]
	i.p = i.p[1:]
	return p / i.s.c, p % i.s.c, *i.s.ref(p)
}
func (i *iter[T]) Map(f func(int, int, T) T) {
	p := i.p[0]
	r, c, v := i.Next()
	*i.s.ref(p) = f(r, c, v)
}
