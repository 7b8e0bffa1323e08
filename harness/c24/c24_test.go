package c24

import (
	"testing"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// aliases are the ways in which output and operands can be one object.
var aliases = []string{"out=s", "out=m", "out=s=m", "s=m"}

func num[T constraints.Number](c *vh.Case) {
	ew := rapid.IntRange(0, 2).Draw(c.T, "ew") == 0
	ops, vals := []string{"add", "sub", "neg", "apply"}, vh.Any
	if ew {
		ops, vals = []string{"ewmul", "ewadd", "ewmulv", "ewaddv"}, vh.Bit
	} else if rapid.Bool().Draw(c.T, "tiny") {
		vals = vh.Tiny
	}
	i := vh.DrawInst[T](c, ops, 0, vals, true)
	how := "out=s"
	if i.Binary {
		how = rapid.SampledFrom(aliases).Draw(c.T, "alias")
	}
	// the formats and contents the aliasing forces
	switch how {
	case "out=s":
		i.FO, i.Prev = i.FS, i.S
	case "out=m":
		i.FO, i.Prev = i.FM, i.M
	case "out=s=m":
		i.M, i.FM, i.FO, i.Prev = i.S, i.FS, i.FS, i.S
	case "s=m":
		i.M, i.FM = i.S, i.FS
		i.Prev = vh.NewMat[T](i.S.R, i.S.C)
	}
	mask, prot := vh.DrawMask(c, i.S.R, i.S.C)

	// the mask may be an operand or the output, too: it marks what they hold when the call is made
	alias := vh.Uni(c, 20, "mask is")
	if alias > 2 || (alias == 1 && !i.Binary) {
		alias = -1
	}
	if alias >= 0 {
		c.Desc("mask is %d", alias)
		c.Class(true, "mask is operand or output")
		prot = vh.Mapm([]vh.Mat[T]{i.S, i.M, i.Prev}[alias], func(v T) bool { return v != 0 })
	}

	c.Desc("%s", how)
	s := vh.Build(c, "s", i.FS, i.S)
	var m, out gb.Matrix[T]
	if i.Binary {
		if how == "out=s=m" || how == "s=m" {
			m = s
		} else {
			m = vh.Build(c, "m", i.FM, i.M)
		}
	}
	switch how {
	case "out=m":
		out = m
	case "s=m":
		out = vh.Empty[T](i.FO, i.S.R, i.S.C)
	default:
		out = s
	}
	if alias >= 0 {
		mask = []gb.Mask{s, m, out}[alias]
	}
	var want vh.Mat[T]
	vh.Rounds(c, func() {
		// the output of before is an operand now, or the operands change
		switch how {
		case "out=s":
			i.S, i.Prev = want, want
		case "out=m":
			i.M, i.Prev = want, want
		case "out=s=m":
			i.S, i.M, i.Prev = want, want, want
		case "s=m":
			out = vh.Empty[T](i.FO, i.S.R, i.S.C)
		}
		if how == "s=m" || rapid.Bool().Draw(c.T, "rewrite") {
			if how == "out=m" || !i.Binary || rapid.Bool().Draw(c.T, "side") || how == "out=s=m" || how == "s=m" {
				vh.Rewrite[T](c, "s", s, i.S, i.Pal)
			} else {
				vh.Rewrite[T](c, "m", m, i.M, i.Pal)
			}
		}
		if how == "s=m" {
			i.Prev = vh.NewMat[T](i.S.R, i.S.C)
		}
		if alias >= 0 {
			mask = []gb.Mask{s, m, out}[alias]
			prot = vh.Mapm([]vh.Mat[T]{i.S, i.M, i.Prev}[alias], func(v T) bool { return v != 0 })
		}
	}, func() {
		// reference: separate operands, separate empty output, no mask
		ref := vh.Empty[T](i.FO, i.S.R, i.S.C)
		var rm gb.Matrix[T]
		if i.Binary {
			rm = vh.Plain(i.FM, i.M)
		}
		i.Run(vh.BG, vh.Plain(i.FS, i.S), rm, nil, ref)
		want = vh.Snap[T](ref)
		for k := range want.D {
			if prot.D[k] {
				want.D[k] = i.Prev.D[k]
			}
		}

		i.Run(vh.BG, s, m, mask, out)
		vh.Expect[T](c, i.Op+" with "+how, out, want)
		switch {
		case how == "out=s" && i.Binary:
			vh.Expect[T](c, "the other operand", m, i.M)
		case how == "out=m" || how == "s=m":
			vh.Expect[T](c, "the other operand", s, i.S)
		}
		// the output stays usable: what it stores is what it shows
		vh.CheckStore[T](c, i.Op+" with "+how, out, i.FO, want)
	})

	changed, kept := 0, 0
	for k := range want.D {
		if !vh.Same(want.D[k], i.Prev.D[k]) {
			changed++
		} else if prot.D[k] {
			kept++
		}
	}
	c.Class(true, i.Op+" "+how)
	c.Class(true, i.FS.String()+" "+i.FM.String())
	c.Class(kept > 0, "protected positions")
	c.NonTrivial(len(want.D) > 1 && changed > 0)
}

func TestAliased(t *testing.T) {
	vh.Check(t, vh.Types13(num[float64], num[int], num[int8], num[uint8], num[int32], num[float32], num[int16], num[int64], num[uint], num[uint16], num[uint32], num[uint64], num[uintptr]))
}

func TestMain(m *testing.M) { vh.Main(m) }
