package c15

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestProducts, TestDeep, TestDefault, TestBlocks, TestRace)
}
