package c27

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestRegistrations, TestDerived, TestFresh)
}
