package c33

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestUpdate, TestMap, TestOperation, TestReduction, TestSearch)
}
