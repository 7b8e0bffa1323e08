package c14

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestAccess, TestPlain, TestShapes, TestReductions, TestResized)
}
