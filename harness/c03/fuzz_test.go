package c03

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestExtract, TestArrays, TestBool)
}
