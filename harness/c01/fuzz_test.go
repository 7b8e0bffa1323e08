package c01

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestNumbers, TestBool, TestLong, TestHuge)
}
