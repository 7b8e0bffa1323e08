package c02

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestNumbers, TestDerived, TestLogical)
}
