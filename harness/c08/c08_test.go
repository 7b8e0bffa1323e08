package c08

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func num[T constraints.Number](c *vh.Case) {
	r, cc := vh.Shape(c, 0, true)
	pal := vh.Palette[T](c, vh.AnyNaN)
	m := vh.GenMat(c, r, cc, pal)
	s, f := vh.BuildAny(c, "s", m)
	vh.Rounds(c, func() { vh.Rewrite[T](c, "s", s, m, pal) }, func() {
		w := m.Tr()
		t := s.Transpose()
		vh.Expect(c, "Transpose method", t, w)
		vh.Expect(c, "transposed twice", t.Transpose(), m)
		csr, csc := gb.TransposeToCSR[T](vh.BG, s), gb.TransposeToCSC[T](vh.BG, s)
		vh.Expect[T](c, "TransposeToCSR", csr, w)
		vh.Expect[T](c, "TransposeToCSC", csc, w)
		if _, ok := csr.(*gb.CSRMatrix[T]); !ok {
			c.Failf("TransposeToCSR returns %T", csr)
		}
		if _, ok := csc.(*gb.CSCMatrix[T]); !ok {
			c.Failf("TransposeToCSC returns %T", csc)
		}
		vh.Expect[T](c, "ToCSC of ToCSR", gb.TransposeToCSC[T](vh.BG, csr), m)
		vh.Expect[T](c, "ToCSR of ToCSC", gb.TransposeToCSR[T](vh.BG, csc), m)
		fo := vh.PickF(c, "FO", r)
		out := vh.Empty[T](fo, cc, r)
		var mask gb.Mask
		if rapid.Bool().Draw(c.T, "empty mask") {
			mask = gb.NewEmptyMask(cc, r)
		}
		c.Desc("into %v", fo)
		gb.Transpose[T](vh.BG, s, mask, out)
		vh.Expect[T](c, "Transpose into "+fo.String(), out, w)
		if rapid.Bool().Draw(c.T, "plain") { // the dense types without arithmetic
			d := gb.NewDenseMatrix[T](cc, r)
			gb.Transpose[T](vh.BG, s, nil, d)
			vh.Expect[T](c, "Transpose into DenseMatrix", d, w)
			vh.Expect(c, "DenseMatrix.Transpose", d.Transpose(), m)
			back, _ := vh.Empty[T](vh.PickF(c, "FB", cc), r, cc), 0
			gb.Transpose[T](vh.BG, d, nil, back)
			vh.Expect[T](c, "Transpose of DenseMatrix", back, m)
		}
		vh.Expect[T](c, "source afterwards", s, m)
	})
	c.Class(true, f.String())
	c.NonTrivial(r != cc && r*cc > 1 && m.NNZ() > 0)
}

func TestNumbers(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestBool(t *testing.T) {
	vh.Check(t, func(c *vh.Case) {
		r, cc := vh.Shape(c, 0, true)
		m := vh.NewMat[bool](r, cc)
		var s gb.MatrixLogical[bool] = gb.NewDenseMatrix[bool](r, cc)
		if cc == 1 && rapid.Bool().Draw(c.T, "vec") {
			s = gb.NewDenseVector[bool](r)
		}
		for i := range m.D {
			m.D[i] = rapid.Bool().Draw(c.T, "b")
			s.Set(i/cc, i%cc, m.D[i])
		}
		c.Desc("%T %v", s, m)
		vh.Rounds(c, func() { vh.Rewrite(c, "s", s, m, []bool{true, false}) }, func() {
			vh.Expect(c, "Transpose", s.Transpose(), m.Tr())
			vh.Expect(c, "twice", s.Transpose().Transpose(), m)
			o := gb.NewDenseMatrix[bool](cc, r)
			gb.Transpose[bool](vh.BG, s, nil, o)
			vh.Expect[bool](c, "function", o, m.Tr())
		})
		c.NonTrivial(r != cc && m.NNZ() > 0)
	})
}

func TestMain(m *testing.M) { vh.Main(m) }
