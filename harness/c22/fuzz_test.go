package c22

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestAlone, TestOverlap, TestHistory, TestLost, TestRace)
}
