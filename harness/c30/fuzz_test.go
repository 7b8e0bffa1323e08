package c30

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestOperations, TestFunctions, TestRunes)
}
