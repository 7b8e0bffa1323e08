package vh

import (
	"fmt"
	"hash/fnv"
	"math"
	"strings"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
)

// Mat is the reference model of a matrix: a total map from position to value.
type Mat[T comparable] struct {
	R, C int
	D    []T
}

func NewMat[T comparable](r, c int) Mat[T] { return Mat[T]{r, c, make([]T, r*c)} }

func (m Mat[T]) At(r, c int) T     { return m.D[r*m.C+c] }
func (m Mat[T]) Set(r, c int, v T) { m.D[r*m.C+c] = v }
func (m Mat[T]) Clone() Mat[T] {
	return Mat[T]{m.R, m.C, append(make([]T, 0, len(m.D)), m.D...)}
}

// Tr is the transpose.
func (m Mat[T]) Tr() Mat[T] {
	t := NewMat[T](m.C, m.R)
	for r := 0; r < m.R; r++ {
		for c := 0; c < m.C; c++ {
			t.Set(c, r, m.At(r, c))
		}
	}
	return t
}

// NNZ counts the non-zero elements.
func (m Mat[T]) NNZ() int {
	var z T
	n := 0
	for _, v := range m.D {
		if v != z {
			n++
		}
	}
	return n
}

// Zip combines two models of one shape.
func Zip[T, U, V comparable](a Mat[T], b Mat[U], f func(T, U) V) Mat[V] {
	o := NewMat[V](a.R, a.C)
	for i := range o.D {
		o.D[i] = f(a.D[i], b.D[i])
	}
	return o
}

// Mapm applies f to every element.
func Mapm[T, V comparable](a Mat[T], f func(T) V) Mat[V] {
	o := NewMat[V](a.R, a.C)
	for i := range o.D {
		o.D[i] = f(a.D[i])
	}
	return o
}

// Mul is the ordinary product.
func Mul[T constraints.Number](a, b Mat[T]) Mat[T] {
	o := NewMat[T](a.R, b.C)
	for r := 0; r < a.R; r++ {
		for c := 0; c < b.C; c++ {
			var s T
			for l := 0; l < a.C; l++ {
				s += a.At(r, l) * b.At(l, c)
			}
			o.Set(r, c, s)
		}
	}
	return o
}

// Rows gives the model as an array of rows.
func (m Mat[T]) Rows2() [][]T {
	o := make([][]T, m.R)
	for r := range o {
		o[r] = append(make([]T, 0, m.C), m.D[r*m.C:(r+1)*m.C]...)
	}
	return o
}

func (m Mat[T]) String() string {
	var b strings.Builder
	if len(m.D) > 400 { // a digest will do: the replay file holds every draw
		h, nz := fnv.New64a(), 0
		var z T
		for i, v := range m.D {
			if v != z {
				nz++
				fmt.Fprint(h, i, v, " ")
			}
		}
		return fmt.Sprintf("%dx%d[%d elements, digest %016x]", m.R, m.C, nz, h.Sum64())
	}
	fmt.Fprintf(&b, "%dx%d[", m.R, m.C)
	for r := 0; r < m.R; r++ {
		if r > 0 {
			b.WriteString("; ")
		}
		for c := 0; c < m.C; c++ {
			if c > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprint(&b, m.At(r, c))
		}
	}
	b.WriteByte(']')
	return b.String()
}

// Same is equality of values, with NaN equal to itself and -0 equal to 0.
func Same[T comparable](a, b T) bool { return a == b || (a != a && b != b) }

// F is a storage format.
type F int

const (
	Dense F = iota
	CSR
	CSC
	DVec
	SVec
)

func (f F) String() string { return [...]string{"Dense", "CSR", "CSC", "DVec", "SVec"}[f] }

// Sparse tells whether the format stores only non-zero elements.
func (f F) Sparse() bool { return f == CSR || f == CSC || f == SVec }

// IsVec tells whether the format is a vector.
func (f F) IsVec() bool { return f == DVec || f == SVec }

// Empty makes a zero matrix of format f.
func Empty[T constraints.Number](f F, r, c int) gb.Matrix[T] {
	switch f {
	case Dense:
		return gb.NewDenseMatrixN[T](r, c)
	case CSR:
		return gb.NewCSRMatrix[T](r, c)
	case CSC:
		return gb.NewCSCMatrix[T](r, c)
	case DVec:
		if c != 1 {
			panic("vh: vector with columns")
		}
		return gb.NewDenseVectorN[T](r)
	case SVec:
		if c != 1 {
			panic("vh: vector with columns")
		}
		return gb.NewSparseVector[T](r)
	}
	panic("vh: format")
}

// Plain builds m in format f, position by position in row-major order.
func Plain[T constraints.Number](f F, m Mat[T]) gb.Matrix[T] {
	s := Empty[T](f, m.R, m.C)
	var z T
	for r := 0; r < m.R; r++ {
		for c := 0; c < m.C; c++ {
			if v := m.At(r, c); v != z {
				s.Set(r, c, v)
			}
		}
	}
	return s
}

// Snap reads every position of s.
func Snap[T constraints.Type](s gb.MatrixLogical[T]) Mat[T] {
	m := NewMat[T](s.Rows(), s.Columns())
	for r := 0; r < m.R; r++ {
		for c := 0; c < m.C; c++ {
			m.D[r*m.C+c] = s.At(r, c)
		}
	}
	return m
}

// Diff describes the first difference between the shape or values of got and want ("" if none).
func Diff[T constraints.Type](got gb.MatrixLogical[T], want Mat[T]) string {
	if got.Rows() != want.R || got.Columns() != want.C {
		return fmt.Sprintf("shape %dx%d, want %dx%d", got.Rows(), got.Columns(), want.R, want.C)
	}
	for r := 0; r < want.R; r++ {
		for c := 0; c < want.C; c++ {
			if g := got.At(r, c); !Same(g, want.At(r, c)) {
				return fmt.Sprintf("(%d,%d) = %v, want %v", r, c, g, want.At(r, c))
			}
		}
	}
	return ""
}

// Expect fails the case unless got has the shape and values of want.
func Expect[T constraints.Type](c *Case, label string, got gb.MatrixLogical[T], want Mat[T]) {
	if d := Diff(got, want); d != "" {
		c.Failf("%s: %s; want %v", label, d, want)
	}
}

// ExpectMat compares two models.
func ExpectMat[T comparable](c *Case, label string, got, want Mat[T]) {
	if got.R != want.R || got.C != want.C {
		c.Failf("%s: shape %dx%d, want %dx%d", label, got.R, got.C, want.R, want.C)
	}
	for i := range got.D {
		if !Same(got.D[i], want.D[i]) {
			c.Failf("%s: (%d,%d) = %v, want %v", label, i/got.C, i%got.C, got.D[i], want.D[i])
		}
	}
}

// IsFloat tells whether T is a floating point type.
func IsFloat[T constraints.Number]() bool { return T(1)/T(2) != 0 }

// IsSigned tells whether T has negative values.
func IsSigned[T constraints.Number]() bool { var z T; return z-1 < z }

// Bits is the size of T.
func Bits[T constraints.Number]() int {
	var z T
	switch any(z).(type) {
	case int8, uint8:
		return 8
	case int16, uint16:
		return 16
	case int32, uint32, float32:
		return 32
	}
	return 64
}

// MaxOf and MinOf are the extremes of T.
func MaxOf[T constraints.Number]() T {
	var z T
	switch any(z).(type) {
	case float32:
		return cast[T](float32(math.MaxFloat32))
	case float64:
		return cast[T](float64(math.MaxFloat64))
	}
	if !IsSigned[T]() {
		return z - 1
	}
	m := int64(1)<<(Bits[T]()-1) - 1
	return T(m)
}

func MinOf[T constraints.Number]() T {
	if IsFloat[T]() {
		return -MaxOf[T]()
	}
	if !IsSigned[T]() {
		return 0
	}
	return -MaxOf[T]() - 1
}

func cast[T any](v any) T { return v.(T) }

// F64 converts a float64 to T, if T is a floating point type.
func F64[T constraints.Number](f float64) T {
	var z T
	switch any(z).(type) {
	case float32:
		return cast[T](float32(f))
	case float64:
		return cast[T](f)
	}
	return T(f)
}

// Vals says which values a generator draws.
type Vals int

const (
	Bit      Vals = iota // 1
	Exact                // arithmetic on these is exact: any integers, small dyadic floats
	Any                  // any value that equals itself (also infinities, extremes)
	AnyNaN               // also NaN
	Positive             // 1..5
	Tiny                 // -2..2 (1..4 if unsigned): many cancellations
)

// Val draws a non-zero value.
func Val[T constraints.Number](c *Case, k Vals) T {
	for i := 0; i < 8; i++ {
		if v := val[T](c, k); v != 0 {
			return v
		}
	}
	return 1
}

func val[T constraints.Number](c *Case, k Vals) T {
	switch k {
	case Bit:
		return 1
	case Positive:
		return T(rapid.IntRange(1, 5).Draw(c.T, "v"))
	case Tiny:
		v := rapid.SampledFrom([]int64{1, -1, 2, -2, 3}).Draw(c.T, "v")
		if !IsSigned[T]() && v < 0 {
			v = 2 - v
		}
		return T(v)
	}
	kind := rapid.IntRange(0, 9).Draw(c.T, "vk")
	if IsFloat[T]() {
		switch {
		case kind <= 3:
			return T(rapid.IntRange(-4, 4).Draw(c.T, "v"))
		case kind <= 6 || k == Exact:
			return T(rapid.IntRange(-16, 16).Draw(c.T, "v")) / 4
		case kind == 7:
			return F64[T](rapid.Float64().Draw(c.T, "v"))
		case kind == 8:
			return F64[T](rapid.SampledFrom([]float64{1e30, -1e30, 3.3, -0.1, 1e-30, 16777217, 123456.789, math.Copysign(0, -1)}).Draw(c.T, "v"))
		default:
			sp := []float64{math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}
			if k == AnyNaN {
				sp = append(sp, math.NaN())
			}
			i := rapid.IntRange(0, len(sp)+2).Draw(c.T, "v")
			if i < len(sp) {
				return F64[T](sp[i])
			}
			return []T{MaxOf[T](), MinOf[T](), F64[T](5e-45)}[i-len(sp)]
		}
	}
	switch {
	case kind <= 4:
		return T(rapid.Int64Range(-4, 4).Draw(c.T, "v"))
	case kind <= 7:
		return T(rapid.Int64().Draw(c.T, "v"))
	default:
		return rapid.SampledFrom([]T{MaxOf[T](), MinOf[T](), MaxOf[T]() / 2, MinOf[T]() + 1, MaxOf[T]() - 1}).Draw(c.T, "v")
	}
}

// Palette draws the few values one case works with, so that values repeat and cancel.
func Palette[T constraints.Number](c *Case, k Vals) []T {
	if k == Bit {
		return []T{1}
	}
	n := rapid.IntRange(1, 5).Draw(c.T, "npal")
	p := make([]T, 0, n+1)
	for i := 0; i < n; i++ {
		p = append(p, Val[T](c, k))
	}
	if rapid.IntRange(0, 2).Draw(c.T, "opp") == 0 && k != Positive {
		p = append(p, -p[0])
	}
	return p
}

// Uni draws a number below n, all alike (package rapid prefers small numbers).
func Uni(c *Case, n int, label string) int { return UniT(c.T, n, label) }

// UniT is Uni inside a generator.
func UniT(t *rapid.T, n int, label string) int {
	u := 0
	for k := 1; k < 4*n; k *= 2 {
		u *= 2
		if rapid.Bool().Draw(t, label) {
			u++
		}
	}
	return u % n
}

// Dim draws one dimension by size class. max bounds it (0: no bound).
func Dim(c *Case, label string, max int) int {
	k := Uni(c, 100, label+"cls")
	lo, hi := 1, 3
	switch {
	case k < 24:
	case k < 74:
		lo, hi = 2, 8
	case k < 95:
		lo, hi = 6, 14
	case k < 99 || Uni(c, 3, label+"large") > 0:
		lo, hi = 12, 33
		if Deep {
			hi = 80
		}
	default:
		lo, hi = 34, 140
	}
	if max > 0 && hi > max {
		hi = max
		if lo > hi {
			lo = hi
		}
	}
	return rapid.IntRange(lo, hi).Draw(c.T, label)
}

// Shape draws a shape, at times square, a column or a row. zero allows empty dimensions.
func Shape(c *Case, max int, zero bool) (int, int) {
	k := Uni(c, 20, "shape")
	r := Dim(c, "r", max)
	switch {
	case k < 5:
		return r, r
	case k == 5:
		return r, 1
	case k == 6:
		return 1, r
	case k == 8 && max == 0 && Uni(c, 12, "large") == 0: // thin, or past a power of two
		l := rapid.IntRange(34, 320).Draw(c.T, "long")
		w := rapid.IntRange(1, 4).Draw(c.T, "wide")
		switch rapid.IntRange(0, 3).Draw(c.T, "lying") {
		case 0:
			return l, w
		case 1:
			return w, l
		case 2:
			return l, 1
		}
		return min(l, 70), min(l, 70) - w%3
	case k == 7 && zero:
		switch rapid.IntRange(0, 2).Draw(c.T, "zero") {
		case 0:
			return 0, r
		case 1:
			return r, 0
		}
		return 0, 0
	}
	return r, Dim(c, "c", max)
}

// GenMat draws the contents of an r x c matrix.
func GenMat[T constraints.Number](c *Case, r, cc int, pal []T) Mat[T] {
	m := NewMat[T](r, cc)
	cell := func(i int) {
		k := 0
		if len(pal) > 1 {
			k = rapid.IntRange(0, len(pal)-1).Draw(c.T, "pi")
		}
		m.D[i] = pal[k]
	}
	if r*cc == 0 {
		return m
	}
	if r*cc > 256 && (r > 33 || cc > 33) { // too many for a draw each
		x := rapid.Uint64().Draw(c.T, "seed")
		thr := uint64(rapid.SampledFrom([]int{3, 12, 50, 128, 230, 256}).Draw(c.T, "of 256"))
		if r*cc > 10000 {
			thr = min(thr, 12)
		}
		for i := range m.D {
			x += 0x9e3779b97f4a7c15
			z := (x ^ x>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			z ^= z >> 31
			if z&255 < thr {
				m.D[i] = pal[int((z>>8)%uint64(len(pal)))]
			}
		}
		return m
	}
	kind := Uni(c, 20, "dens")
	thr := -1
	switch kind {
	case 0: // empty
	case 1: // one element
		cell(Uni(c, r*cc, "pos"))
	case 2: // full
		thr = 0
	case 3, 4:
		thr = 256 - 26
	case 5, 6, 7:
		thr = 256 - 77
	case 8, 9, 10:
		thr = 128
	case 11, 16:
		thr = 26
	case 17, 18:
		thr = 4
	case 19:
		thr = 60
	case 12: // diagonal
		d := rapid.IntRange(-1, 1).Draw(c.T, "diag")
		for i := 0; i < r; i++ {
			if k := i + d; k >= 0 && k < cc {
				cell(i*cc + k)
			}
		}
	case 13: // some whole rows or columns
		byRow := rapid.Bool().Draw(c.T, "byrow")
		n := cc
		if byRow {
			n = r
		}
		for k := 0; k < n; k++ {
			if rapid.IntRange(0, 2).Draw(c.T, "on") == 0 {
				continue
			}
			for i := range m.D {
				if (byRow && i/cc == k) || (!byRow && i%cc == k) {
					cell(i)
				}
			}
		}
	case 14: // triangle
		up := rapid.Bool().Draw(c.T, "up")
		for i := range m.D {
			if (i/cc < i%cc) == up {
				cell(i)
			}
		}
	case 15: // random with empty rows and columns
		er, ec := rapid.IntRange(0, r-1).Draw(c.T, "er"), rapid.IntRange(0, cc-1).Draw(c.T, "ec")
		for i := range m.D {
			if i/cc != er && i%cc != ec && rapid.Byte().Draw(c.T, "b") >= 90 {
				cell(i)
			}
		}
	}
	if thr >= 0 {
		for i := range m.D {
			if thr == 0 || int(rapid.Byte().Draw(c.T, "b")) >= thr {
				cell(i)
			}
		}
	}
	return m
}

// PickF draws a storage format for a matrix with c columns.
func PickF(cs *Case, label string, cols int) F {
	n := 3
	if cols == 1 {
		n = 7 // vectors at 4 of 7
	}
	k := Uni(cs, n, label)
	if k >= 3 {
		return DVec + F((k-3)%2)
	}
	return F(k)
}

// Build makes matrix m in format f; the way it is filled is drawn too.
func Build[T constraints.Number](c *Case, label string, f F, m Mat[T]) gb.Matrix[T] {
	c.Desc("%s=%v %v", label, f, m)
	way := Uni(c, 8, "way")
	n := m.R * m.C
	var z T
	if n == 0 {
		return Empty[T](f, m.R, m.C)
	}
	if way == 1 { // from array
		switch f {
		case Dense:
			return gb.NewDenseMatrixFromArrayN(m.Rows2())
		case CSR:
			return gb.NewCSRMatrixFromArray(m.Rows2())
		case CSC:
			return gb.NewCSCMatrixFromArray(m.Rows2())
		case DVec:
			return gb.NewDenseVectorFromArrayN(m.Clone().D)
		case SVec:
			return gb.NewSparseVectorFromArray(m.Clone().D)
		}
	}
	s := Empty[T](f, m.R, m.C)
	set := func(i int) {
		if v := m.D[i]; v != z {
			s.Set(i/m.C, i%m.C, v)
		}
	}
	switch way {
	default: // row-major
		for i := 0; i < n; i++ {
			set(i)
		}
	case 2: // column-major
		for k := 0; k < m.C; k++ {
			for r := 0; r < m.R; r++ {
				set(r*m.C + k)
			}
		}
	case 3: // reverse
		for i := n - 1; i >= 0; i-- {
			set(i)
		}
	case 4: // strided order
		st := rapid.IntRange(1, n).Draw(c.T, "stride")
		for gcd(st, n) != 1 {
			st++
		}
		for i, k := 0, 0; i < n; i, k = i+1, (k+st)%n {
			set(k)
		}
	case 5: // noise first, overwritten by value or zero
		c.Desc("noise")
		for k := rapid.IntRange(1, 6).Draw(c.T, "noise"); k > 0; k-- {
			i := Uni(c, n, "ni")
			s.Set(i/m.C, i%m.C, 1)
		}
		for i := 0; i < n; i++ {
			s.Set(i/m.C, i%m.C, m.D[i])
		}
	case 6: // by Update, reverse
		for i := n - 1; i >= 0; i-- {
			if v := m.D[i]; v != z {
				s.Update(i/m.C, i%m.C, func(T) T { return v })
			}
		}
	}
	return s
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// BuildAny draws a format and builds m in it.
func BuildAny[T constraints.Number](c *Case, label string, m Mat[T]) (gb.Matrix[T], F) {
	f := PickF(c, label+"F", m.C)
	return Build(c, label, f, m), f
}

// Types13 dispatches to one of the instantiations for the 13 element types, in the order
// float64 int int8 uint8 int32 float32 int16 int64 uint uint16 uint32 uint64 uintptr.
func Types13(fs ...func(c *Case)) func(c *Case) {
	if len(fs) != 13 {
		panic("vh: 13 types")
	}
	names := []string{"float64", "int", "int8", "uint8", "int32", "float32", "int16", "int64", "uint", "uint16", "uint32", "uint64", "uintptr"}
	return func(c *Case) {
		i := Uni(c, 13, "type")
		c.Desc("%s", names[i])
		fs[i](c)
	}
}

// Panics runs f and tells whether it panicked, and with what.
func Panics(f func()) (p bool, v any) {
	p = true
	defer func() {
		if p {
			v = recover()
		}
	}()
	f()
	p = false
	return
}

// TryVec converts to a Vector where the format is one.
func TryVec[T constraints.Number](m gb.Matrix[T]) (gb.Vector[T], bool) {
	v, ok := m.(gb.Vector[T])
	return v, ok
}

// CheckStore fails the case unless enumerating x shows each position once with its value in want:
// all positions of a dense format, the non-zero ones of a sparse format.
func CheckStore[T constraints.Number](c *Case, label string, x gb.Matrix[T], f F, want Mat[T]) {
	seen := make([]bool, len(want.D))
	n := 0
	for it := x.Enumerate(); it.HasNext(); n++ {
		if n > len(want.D) {
			c.Failf("%s: enumeration gives more elements than there are positions", label)
		}
		r, k, v := it.Next()
		if r < 0 || r >= want.R || k < 0 || k >= want.C || seen[r*want.C+k] || !Same(v, want.At(r, k)) {
			c.Failf("%s: enumeration gives (%d,%d)=%v wrongly; want %v", label, r, k, v, want)
		}
		seen[r*want.C+k] = true
	}
	for k, w := range want.D {
		if !seen[k] && (w != 0 || !f.Sparse()) {
			c.Failf("%s: enumeration leaves out (%d,%d)=%v", label, k/want.C, k%want.C, w)
		}
	}
}

// Runes are the code points at the bounds of encodings and those that text functions are tempted to treat specially:
// white space and control characters, letter case and foldings, marks, invisible characters, quotes and format verbs.
var Runes = []rune{0, 'a', 'b', 'c', 1, ' ', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff,
	'A', 'B', 0xe4, 0xc4, 0x130, 0x131, 0x17f, 0x212a, 0x3a3, 0x3c2, 0x3c3, 0xdf, 0x301, 0x308, 0xad, 0xa0, 0x85, 0x200b, 0x200d, 0x2028, 0x2060, 0xfeff, 0xfffe, 0x3000,
	'\t', '\n', '\v', '\r', 0x1b, '0', '9', '%', '"', '\\', '\'', '-', '+', 0x661, 0xff11}
