package c05

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestEqual, TestBool, TestFar)
}
