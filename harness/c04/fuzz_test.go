package c04

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestDerived, TestOthers, TestSort, TestPurity)
}
