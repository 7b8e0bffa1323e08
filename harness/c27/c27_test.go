package c27

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"sync"
	"testing"
	"time"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// subject is a matrix of some format and element type, with the classification expected.
type subject struct {
	name   string
	sparse func() bool // what the library says
	typ    reflect.Type
	want   func() bool
}

func always(b bool) func() bool { return func() bool { return b } }

func sub[T constraints.Type](name string, m gb.MatrixLogical[T], want func() bool) subject {
	return subject{name, func() bool { return gb.IsSparseMatrix[T](m) }, reflect.TypeOf(m).Elem(), want}
}

func fullSubs[T constraints.Number](out *[]subject) {
	var z T
	n := fmt.Sprintf("%T", z)
	for _, f := range []vh.F{vh.Dense, vh.CSR, vh.CSC, vh.DVec, vh.SVec} {
		*out = append(*out, sub[T](f.String()+" of "+n, vh.Empty[T](f, 2, 1), always(f.Sparse())))
	}
	*out = append(*out, sub[T]("DenseVector of "+n, gb.NewDenseVector[T](2), always(false)),
		sub[T]("DenseMatrix of "+n, gb.NewDenseMatrix[T](2, 2), always(false)))
}

// Formats of a user: each embeds one of the library. The first three carry names of the
// library, and the last ones names that begin or end like them.
type CSRMatrix struct{ *gb.DenseMatrixNumber[float64] }
type SparseVector[T constraints.Number] struct{ *gb.DenseMatrixNumber[T] }
type DenseMatrixNumber[T constraints.Number] struct{ *gb.CSRMatrix[T] }
type Coordinates struct{ *gb.CSRMatrix[float64] }
type Blocks[T constraints.Number] struct{ *gb.DenseMatrixNumber[T] }
type Flags[T constraints.Type] struct{ *gb.DenseMatrix[T] }
type CSRMatrixes struct{ *gb.DenseVectorNumber[int] }
type MyCSRMatrix[T constraints.Number] struct{ *gb.CSRMatrix[T] }

// format is one format of a user, registered through one of its instantiations.
type format struct {
	name string
	regs []reflect.Type // what can be registered
	subs []subject
}

var (
	library []subject
	users   []*format
	// the registrations made so far, which last as long as the process
	registered = map[reflect.Type]bool{}
	formats    = map[*format]bool{}
)

func user(name string, make func(f *format) []subject) {
	f := &format{name: name}
	f.subs = make(f)
	for _, s := range f.subs {
		f.regs = append(f.regs, s.typ)
	}
	users = append(users, f)
}

// setup makes the matrices; it is no init function, for a fresh process to begin without any.
var setup = sync.OnceFunc(func() {
	fullSubs[float64](&library)
	fullSubs[float32](&library)
	fullSubs[int](&library)
	fullSubs[int8](&library)
	fullSubs[int16](&library)
	fullSubs[int32](&library)
	fullSubs[int64](&library)
	fullSubs[uint](&library)
	fullSubs[uint8](&library)
	fullSubs[uint16](&library)
	fullSubs[uint32](&library)
	fullSubs[uint64](&library)
	fullSubs[uintptr](&library)
	library = append(library, sub[bool]("DenseMatrix of bool", gb.NewDenseMatrix[bool](2, 2), always(false)),
		sub[bool]("DenseVector of bool", gb.NewDenseVector[bool](2), always(false)))
	d, s := gb.NewDenseMatrixN[float64](2, 2), gb.NewCSRMatrix[float64](2, 2)
	u := func(f *format) func() bool { return func() bool { return formats[f] } }
	user("CSRMatrix", func(f *format) []subject {
		return []subject{sub[float64]("user's CSRMatrix", &CSRMatrix{d}, u(f))}
	})
	user("SparseVector", func(f *format) []subject {
		return []subject{sub[float64]("user's SparseVector of float64", &SparseVector[float64]{d}, u(f)),
			sub[int]("user's SparseVector of int", &SparseVector[int]{gb.NewDenseMatrixN[int](1, 1)}, u(f))}
	})
	user("DenseMatrixNumber", func(f *format) []subject {
		return []subject{sub[float64]("user's DenseMatrixNumber of float64", &DenseMatrixNumber[float64]{s}, u(f)),
			sub[uint8]("user's DenseMatrixNumber of uint8", &DenseMatrixNumber[uint8]{gb.NewCSRMatrix[uint8](1, 1)}, u(f))}
	})
	user("Coordinates", func(f *format) []subject {
		return []subject{sub[float64]("Coordinates", &Coordinates{s}, u(f))}
	})
	user("Blocks", func(f *format) []subject {
		return []subject{sub[float64]("Blocks of float64", &Blocks[float64]{d}, u(f)),
			sub[int8]("Blocks of int8", &Blocks[int8]{gb.NewDenseMatrixN[int8](1, 1)}, u(f)),
			sub[float32]("Blocks of float32", &Blocks[float32]{gb.NewDenseMatrixN[float32](1, 1)}, u(f))}
	})
	user("Flags", func(f *format) []subject {
		return []subject{sub[bool]("Flags of bool", &Flags[bool]{gb.NewDenseMatrix[bool](1, 1)}, u(f)),
			sub[int32]("Flags of int32", &Flags[int32]{gb.NewDenseMatrix[int32](1, 1)}, u(f))}
	})
	user("CSRMatrixes", func(f *format) []subject {
		return []subject{sub[int]("CSRMatrixes", &CSRMatrixes{gb.NewDenseVectorN[int](2)}, u(f))}
	})
	user("MyCSRMatrix", func(f *format) []subject {
		return []subject{sub[float64]("MyCSRMatrix of float64", &MyCSRMatrix[float64]{s}, u(f))}
	})
})

func classify(c *vh.Case, step string, all []subject) {
	for _, s := range all {
		if g := s.sparse(); g != s.want() {
			c.Failf("%s: %s is reported as sparse: %v", step, s.name, g)
		}
	}
}

// built are the registrations of the library itself, known by trying nothing: the three formats
// at float64, all of which have to be rejected when repeated.
func built() []reflect.Type {
	return []reflect.Type{reflect.TypeOf(gb.CSRMatrix[float64]{}), reflect.TypeOf(gb.CSCMatrix[float64]{}), reflect.TypeOf(gb.SparseVector[float64]{})}
}

// histories registers formats in drawn order. The registry belongs to the process, so a case
// begins with what cases before it registered; it states that in its description.
func histories(c *vh.Case) {
	var before []string
	for t := range registered {
		before = append(before, t.String())
	}
	sort.Strings(before)
	c.Desc("registered %d before", len(before))
	all := append([]subject(nil), library...)
	for _, f := range users {
		all = append(all, f.subs...)
	}
	classify(c, "before", all)
	rejected, added := 0, 0
	for n := rapid.IntRange(1, 6).Draw(c.T, "n"); n > 0; n-- {
		if rapid.IntRange(0, 3).Draw(c.T, "own") == 0 {
			t := rapid.SampledFrom(built()).Draw(c.T, "built")
			c.Desc("%v", t)
			if p, _ := vh.Panics(func() { gb.RegisterMatrix(t) }); !p {
				c.Failf("registering %v again is accepted", t)
			}
			rejected++
			classify(c, fmt.Sprintf("after registering %v again", t), all)
			continue
		}
		f := users[vh.Uni(c, len(users), "user")]
		t := f.regs[vh.Uni(c, len(f.regs), "reg")]
		c.Desc("%v", t)
		known := registered[t]
		other := formats[f] && !known // another instantiation of a registered format
		p, v := vh.Panics(func() { gb.RegisterMatrix(t) })
		switch {
		case known && !p:
			c.Failf("registering %v again is accepted", t)
		case !known && !other && p:
			c.Failf("registering %v for the first time is rejected: %v", t, v)
		}
		if p {
			rejected++
		} else {
			added++
		}
		if !p || other {
			registered[t], formats[f] = !p || registered[t], true
		}
		classify(c, fmt.Sprintf("after registering %v", t), all)
	}
	c.Class(added > 0, "registered something new")
	c.Class(rejected > 0, "rejected a repetition")
	c.NonTrivial(rejected > 0)
}

func TestRegistrations(t *testing.T) { vh.Check(t, histories) }

// derived classifies what the library returns from a matrix of each format.
func derived[T constraints.Number](c *vh.Case) {
	pal := vh.Palette[T](c, vh.Any)
	r, k := vh.Shape(c, 8, false)
	m := vh.GenMat(c, r, k, pal)
	x, f := vh.BuildAny(c, "x", m)
	say := func(name string, g gb.MatrixLogical[T], want bool) {
		if gb.IsSparseMatrix[T](g) != want {
			c.Failf("%s of %v (%T) is reported as sparse: %v", name, f, g, !want)
		}
	}
	say("the matrix", x, f.Sparse())
	say("copy", x.Copy(), sparseType[T](x.Copy()))
	say("logical copy", x.CopyLogical(), sparseType(x.CopyLogical()))
	for _, g := range []gb.MatrixLogical[T]{x.RowsAt(0), x.ColumnsAt(0), x.Transpose(), x.Negative(), x.Scalar(pal[0])} {
		say("result", g, sparseType(g))
	}
	x.Clear()
	say("the cleared matrix", x, f.Sparse())
	x.Set(0, 0, pal[0])
	say("the changed matrix", x, f.Sparse())
	c.Class(true, f.String())
	c.NonTrivial(r*k > 1 && m.NNZ() > 0)
}

// sparseType knows the formats of the library.
func sparseType[T constraints.Number](g gb.MatrixLogical[T]) bool {
	switch g.(type) {
	case *gb.CSRMatrix[T], *gb.CSCMatrix[T], *gb.SparseVector[T]:
		return true
	}
	return false
}

func TestDerived(t *testing.T) {
	vh.Check(t, vh.Types13(derived[float64], derived[int], derived[int8], derived[uint8], derived[int32], derived[float32], derived[int16], derived[int64], derived[uint], derived[uint16], derived[uint32], derived[uint64], derived[uintptr]))
}

// A plan is a history of a process: matrices of drawn types made by drawn constructors, and
// registrations of the user's formats, each followed by its classification.
type step struct{ Make, Type int }

const makers, freshTypes = 20, 13

// make1 makes one matrix; sparse is what its format is.
func make1[T constraints.Number](k int) (m gb.MatrixLogical[T], name string, sparse bool) {
	a, v := [][]T{{1, 0}, {0, 2}}, []T{1, 0, 2}
	d := func() *gb.DenseMatrixNumber[T] { return gb.NewDenseMatrixFromArrayN(a) }
	switch k {
	case 0:
		return gb.NewCSRMatrix[T](2, 2), "NewCSRMatrix", true
	case 1:
		return gb.NewCSRMatrixFromArray(a), "NewCSRMatrixFromArray", true
	case 2:
		return gb.NewCSCMatrix[T](2, 2), "NewCSCMatrix", true
	case 3:
		return gb.NewCSCMatrixFromArray(a), "NewCSCMatrixFromArray", true
	case 4:
		return gb.NewSparseVector[T](3), "NewSparseVector", true
	case 5:
		return gb.NewSparseVectorFromArray(v), "NewSparseVectorFromArray", true
	case 6:
		return gb.NewDenseMatrix[T](2, 2), "NewDenseMatrix", false
	case 7:
		return gb.NewDenseMatrixN[T](2, 2), "NewDenseMatrixN", false
	case 8:
		return gb.NewDenseMatrixFromArray(a), "NewDenseMatrixFromArray", false
	case 9:
		return d(), "NewDenseMatrixFromArrayN", false
	case 10:
		return gb.NewDenseVector[T](2), "NewDenseVector", false
	case 11:
		return gb.NewDenseVectorN[T](2), "NewDenseVectorN", false
	case 12:
		return gb.NewDenseVectorFromArray(v), "NewDenseVectorFromArray", false
	case 13:
		return gb.NewDenseVectorFromArrayN(v), "NewDenseVectorFromArrayN", false
	case 14:
		return gb.TransposeToCSR[T](vh.BG, d()), "TransposeToCSR", true
	case 15:
		return gb.TransposeToCSC[T](vh.BG, d()), "TransposeToCSC", true
	case 16:
		return new(gb.CSRMatrix[T]), "new CSRMatrix", true
	case 17:
		return new(gb.CSCMatrix[T]), "new CSCMatrix", true
	case 18:
		return new(gb.SparseVector[T]), "new SparseVector", true
	}
	return new(gb.DenseMatrixNumber[T]), "new DenseMatrixNumber", false
}

func step1[T constraints.Number](k int) string {
	m, name, sparse := make1[T](k)
	var z T
	g := gb.IsSparseMatrix(m)
	if g == sparse {
		return ""
	}
	return fmt.Sprintf("%s of %T is reported as sparse: %v", name, z, g)
}

// child runs the plan in this process.
func child(plan []step) string {
	for i, s := range plan {
		var r string
		if s.Make < 0 {
			setup()
			f := users[s.Type%len(users)]
			if p, v := vh.Panics(func() { gb.RegisterMatrix(f.regs[0]) }); p && !formats[f] {
				r = fmt.Sprintf("registering %v for the first time is rejected: %v", f.regs[0], v)
			}
			formats[f] = true
			for _, u := range f.subs {
				if u.sparse() != true {
					r = u.name + " is not reported as sparse after its registration"
				}
			}
		} else {
			r = []func(int) string{step1[float64], step1[float32], step1[int], step1[int8], step1[int16], step1[int32], step1[int64], step1[uint], step1[uint8], step1[uint16], step1[uint32], step1[uint64], step1[uintptr]}[s.Type](s.Make)
		}
		if r != "" {
			return fmt.Sprintf("step %d: %s", i+1, r)
		}
	}
	return ""
}

func TestFresh(t *testing.T) {
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	vh.Check(t, func(c *vh.Case) {
		var plan []step
		for n := rapid.IntRange(1, 8).Draw(c.T, "n"); n > 0; n-- {
			s := step{vh.Uni(c, makers+2, "make"), vh.Uni(c, freshTypes, "type")}
			if s.Make >= makers {
				s.Make = -1
			}
			plan = append(plan, s)
		}
		c.Desc("%v", plan)
		b, _ := json.Marshal(plan)
		var out []byte
		var err error
		for try := 0; try < 5; try++ { // a process that could not be started or was killed says nothing
			cmd := exec.Command(self)
			cmd.Env = append(os.Environ(), "VH_FRESH="+string(b))
			out, err = cmd.Output()
			if e, ok := err.(*exec.ExitError); err == nil || ok && e.ExitCode() >= 0 {
				break
			}
			out, err = []byte("fresh:"), nil
			time.Sleep(10 * time.Millisecond)
		}
		if err != nil || !bytes.HasPrefix(out, []byte("fresh:")) {
			c.Failf("fresh process: %v %q", err, out)
		}
		if r := string(out[6:]); r != "" {
			c.Failf("in a fresh process, %s", r)
		}
		c.NonTrivial(len(plan) > 1)
	})
}

func TestMain(m *testing.M) {
	if p := os.Getenv("VH_FRESH"); p != "" {
		var plan []step
		if err := json.Unmarshal([]byte(p), &plan); err != nil {
			panic(err)
		}
		fmt.Print("fresh:" + child(plan))
		os.Exit(0)
	}
	setup()
	vh.Main(m)
}
