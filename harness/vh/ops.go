package vh

import (
	"context"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/unaryop"
	"pgregory.net/rapid"
)

// Inst is one drawn use of an operation that writes to an output under a mask: the operation,
// its operands and formats, and the previous content of the output.
type Inst[T constraints.Number] struct {
	Op         string
	S, M       Mat[T] // models of the operands (M unused for unary ones)
	Binary     bool
	Prev       Mat[T] // model of the output before
	FS, FM, FO F
	U          func(T) T // operator of apply
	Same       bool      // both operands are one object
	C          *Case
	Pal        []T // the values of the case
}

// AllOps are the operations that take a mask and an output.
var AllOps = []string{"mxm", "mxv", "vxm", "add", "sub", "ewmul", "ewadd", "ewmulv", "ewaddv", "neg", "apply", "transpose"}

func pickVec(c *Case, label string) F {
	return DVec + F(rapid.IntRange(0, 1).Draw(c.T, label))
}

// DrawInst draws an instance of one of ops with shapes at most max (0: no bound). dirty says
// whether the output may hold something before.
func DrawInst[T constraints.Number](c *Case, ops []string, max int, vals Vals, dirty bool) *Inst[T] {
	op := ops[Uni(c, len(ops), "op")]
	pal := Palette[T](c, vals)
	i := &Inst[T]{Op: op, C: c, Pal: pal}
	or, oc := 0, 0
	switch op {
	case "mxm":
		r, k := Shape(c, max, true)
		n := Dim(c, "n", max)
		if r == k && Uni(c, 4, "square") == 0 {
			n = r
		}
		i.S, i.M, i.Binary = GenMat(c, r, k, pal), GenMat(c, k, n, pal), true
		i.FS, i.FM = PickF(c, "FS", k), PickF(c, "FM", n)
		or, oc = r, n
	case "mxv", "vxm":
		r, k := Shape(c, max, false)
		a, v := GenMat(c, r, k, pal), GenMat(c, k, 1, pal)
		i.Binary = true
		if op == "mxv" {
			i.S, i.M = a, v
			i.FS, i.FM = PickF(c, "FS", k), pickVec(c, "FM")
		} else {
			i.S, i.M = v, a
			i.FS, i.FM = pickVec(c, "FS"), PickF(c, "FM", k)
		}
		or, oc = r, 1
	case "add", "sub", "ewmul", "ewadd":
		r, k := Shape(c, max, true)
		i.S, i.M, i.Binary = GenMat(c, r, k, pal), GenMat(c, r, k, pal), true
		i.FS, i.FM = PickF(c, "FS", k), PickF(c, "FM", k)
		or, oc = r, k
	case "ewmulv", "ewaddv":
		r := Dim(c, "r", max)
		i.S, i.M, i.Binary = GenMat(c, r, 1, pal), GenMat(c, r, 1, pal), true
		i.FS, i.FM = pickVec(c, "FS"), pickVec(c, "FM")
		or, oc = r, 1
	case "neg", "apply":
		r, k := Shape(c, max, true)
		i.S, i.FS = GenMat(c, r, k, pal), PickF(c, "FS", k)
		or, oc = r, k
		if op == "apply" {
			i.U = DrawUnary[T](c, pal)
		}
	case "transpose":
		r, k := Shape(c, max, true)
		i.S, i.FS = GenMat(c, r, k, pal), PickF(c, "FS", k)
		or, oc = k, r
	}
	i.FO = PickF(c, "FO", oc)
	if op == "mxv" || op == "vxm" || op == "ewmulv" || op == "ewaddv" {
		i.FO = pickVec(c, "FOv")
	}
	i.Prev = NewMat[T](or, oc)
	if dirty {
		i.Prev = GenMat(c, or, oc, pal)
	}
	c.Desc("%s", op)
	return i
}

// DrawUnary draws a unary function.
func DrawUnary[T constraints.Number](c *Case, pal []T) func(T) T {
	k := rapid.IntRange(0, 5).Draw(c.T, "unary")
	p := pal[rapid.IntRange(0, len(pal)-1).Draw(c.T, "upal")]
	c.Desc("u%d(%v)", k, p)
	switch k {
	case 0:
		return func(v T) T { return v + 1 }
	case 1:
		return func(v T) T { return v + v + 1 }
	case 2:
		return func(v T) T { return -v }
	case 3:
		return func(T) T { return 0 }
	case 4:
		return func(T) T { return 7 }
	}
	return func(v T) T {
		if v == p {
			return 0
		}
		return v
	}
}

// DrawSame makes both operands of a binary operation one object in some of the cases that allow it.
func (i *Inst[T]) DrawSame() {
	if i.Binary && i.Op != "mxv" && i.Op != "vxm" && i.S.R == i.M.R && i.S.C == i.M.C && Uni(i.C, 10, "same") == 0 {
		i.Same, i.M, i.FM = true, i.S, i.FS
		i.C.Desc("s=m")
	}
}

// Operands builds fresh operands.
func (i *Inst[T]) Operands() (s, m gb.Matrix[T]) {
	s = Build(i.C, "s", i.FS, i.S)
	if i.Same {
		m = s
	} else if i.Binary {
		m = Build(i.C, "m", i.FM, i.M)
	}
	return
}

// Out builds an output with the previous content.
func (i *Inst[T]) Out() gb.Matrix[T] { return Plain(i.FO, i.Prev) }

// Run calls the operation.
func (i *Inst[T]) Run(ctx context.Context, s, m gb.Matrix[T], mask gb.Mask, out gb.Matrix[T]) {
	RunOp(ctx, i.Op, s, m, mask, out, i.U)
}

// RunOp calls the operation op.
func RunOp[T constraints.Number](ctx context.Context, op string, s, m gb.Matrix[T], mask gb.Mask, out gb.Matrix[T], u func(T) T) {
	switch op {
	case "mxm":
		gb.MatrixMatrixMultiply[T](ctx, s, m, mask, out)
	case "mxv":
		gb.MatrixVectorMultiply[T](ctx, s, m.(gb.Vector[T]), mask, out.(gb.Vector[T]))
	case "vxm":
		gb.VectorMatrixMultiply[T](ctx, s.(gb.Vector[T]), m, mask, out.(gb.Vector[T]))
	case "add":
		gb.Add[T](ctx, s, m, mask, out)
	case "sub":
		gb.Subtract[T](ctx, s, m, mask, out)
	case "ewmul":
		gb.ElementWiseMatrixMultiply[T](ctx, s, m, mask, out)
	case "ewadd":
		gb.ElementWiseMatrixAdd[T](ctx, s, m, mask, out)
	case "ewmulv":
		gb.ElementWiseVectorMultiply[T](ctx, s.(gb.Vector[T]), m.(gb.Vector[T]), mask, out.(gb.Vector[T]))
	case "ewaddv":
		gb.ElementWiseVectorAdd[T](ctx, s.(gb.Vector[T]), m.(gb.Vector[T]), mask, out.(gb.Vector[T]))
	case "neg":
		gb.Negative[T](ctx, s, mask, out)
	case "apply":
		gb.Apply[T](ctx, s, mask, unaryop.NewUnaryOp(u), out)
	case "transpose":
		gb.Transpose[T](ctx, s, mask, out)
	default:
		panic("vh: op " + op)
	}
}

// FuncMask is a mask computed by a function.
type FuncMask struct {
	R, C int
	F    func(r, c int) bool
}

func (m FuncMask) Rows() int             { return m.R }
func (m FuncMask) Columns() int          { return m.C }
func (m FuncMask) Element(r, c int) bool { return m.F(r, c) }

// DrawMask draws a mask of the given shape, of any format and of several element types, and
// the positions it marks.
func DrawMask(c *Case, r, cc int) (gb.Mask, Mat[bool]) {
	switch Uni(c, 10, "mask") {
	case 0:
		c.Desc("nomask")
		return nil, NewMat[bool](r, cc)
	case 1:
		c.Desc("emptymask")
		return gb.NewEmptyMask(r, cc), NewMat[bool](r, cc)
	case 2, 3:
		return maskOf[int8](c, r, cc)
	case 4:
		return maskOf[uint8](c, r, cc)
	case 5:
		return maskOf[float32](c, r, cc)
	case 6:
		return maskOf[int](c, r, cc)
	}
	return maskOf[float64](c, r, cc)
}

func maskOf[U constraints.Number](c *Case, r, cc int) (gb.Mask, Mat[bool]) {
	pal := Palette[U](c, AnyNaN)
	m := GenMat(c, r, cc, pal)
	x, _ := BuildAny(c, "mask", m)
	return x, Mapm(m, func(v U) bool { return v != 0 })
}

// Stored tells at which positions a matrix of the given format and content stores an element.
func Stored[T comparable](f F, m Mat[T]) Mat[bool] {
	var z T
	return Mapm(m, func(v T) bool { return !f.Sparse() || v != z })
}
