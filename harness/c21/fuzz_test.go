package c21

import (
	"testing"

	"verif/harness/vh"
)

func FuzzCase(f *testing.F) {
	vh.Fuzz(f, TestOutputs, TestReturned, TestOthers, TestPrompt, TestConcurrent)
}
