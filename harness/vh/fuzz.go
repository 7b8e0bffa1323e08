package vh

import (
	"encoding/binary"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// captured receives the property of a test function called with a nil *testing.T.
var captured func(c *Case)

// Fuzz drives one of the tests (named by VH_FUZZ) with Go's coverage-guided fuzzer: the bytes
// of the fuzzer are the random choices of the generators, two bytes to a choice.
func Fuzz(f *testing.F, tests ...func(*testing.T)) {
	want := os.Getenv("VH_FUZZ")
	if want == "" {
		f.Skip("VH_FUZZ names no test")
	}
	var prop func(c *Case)
	for _, t := range tests {
		name := runtime.FuncForPC(reflect.ValueOf(t).Pointer()).Name()
		if name[strings.LastIndexByte(name, '.')+1:] == want {
			captured = nil
			t(nil)
			prop = captured
		}
	}
	if prop == nil {
		f.Fatalf("vh: no test %s", want)
	}
	seed, _ := strconv.ParseUint(os.Getenv("VH_FUZZSEED"), 10, 64)
	s := mix(seed)
	for _, n := range []int{0, 16, 64, 64, 128, 128, 256, 256, 256, 512, 512, 512, 512, 1024, 1024, 1024, 1024, 2048, 2048, 2048, 4096, 4096} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(s() >> 56)
		}
		f.Add(b)
	}
	fn := rapid.MakeFuzz(func(rt *rapid.T) { one(rt, prop) })
	f.Fuzz(func(t *testing.T, in []byte) { fn(t, FuzzWords(in)) })
}

// FuzzWords turns a fuzzer's input into the random words of rapid: sixteen bits of it fill a
// word, and behind the end of the input a fixed pseudo-random sequence goes on.
func FuzzWords(in []byte) []byte {
	if len(in) > 1<<14 {
		in = in[:1<<14]
	}
	out := make([]byte, 0, len(in)*4+len(fuzzTail))
	for i := 0; i+1 < len(in); i += 2 {
		x := uint64(in[i]) | uint64(in[i+1])<<8
		out = binary.LittleEndian.AppendUint64(out, x*0x0001000100010001)
	}
	return append(out, fuzzTail...)
}

var fuzzTail = func() []byte {
	var out []byte
	s := mix(42)
	for i := 0; i < 3000; i++ {
		out = binary.LittleEndian.AppendUint64(out, s())
	}
	return out
}()

func mix(seed uint64) func() uint64 {
	return func() uint64 {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return z ^ z>>31
	}
}

// shrink makes the words of a failing case (a fail file of rapid, as the fuzzer left it)
// smaller for up to twenty seconds, and writes the file anew.
func shrink(t *testing.T, f func(c *Case), path string) {
	raw, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var words []uint64
	for _, l := range strings.Fields(string(raw))[1:] {
		w, err := strconv.ParseUint(l, 0, 64)
		if err != nil {
			t.Fatal(err)
		}
		words = append(words, w)
	}
	fn := rapid.MakeFuzz(func(rt *rapid.T) { one(rt, f) })
	end := time.Now().Add(20 * time.Second)
	fails := func(w []uint64) bool {
		b := make([]byte, 0, 8*len(w))
		for _, x := range w {
			b = binary.LittleEndian.AppendUint64(b, x)
		}
		return time.Now().Before(end) && !t.Run("x", func(t *testing.T) { fn(t, b) })
	}
	if !fails(words) {
		return
	}
	try := func(w []uint64) bool {
		ok := fails(w)
		if ok {
			words = w
			os.WriteFile(path+".tmp", []byte(failText(words)), 0o644)
			os.Rename(path+".tmp", path)
		}
		return ok
	}
	for n := len(words); n > 0; n /= 2 { // the end is often not used
		for len(words) > n && try(append([]uint64(nil), words[:len(words)-n]...)) {
		}
	}
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		for n := 64; n > 0; n /= 2 {
			for i := len(words) - n; i >= 0; i -= n {
				if i+n > len(words) {
					continue
				}
				w := append(append([]uint64(nil), words[:i]...), words[i+n:]...)
				if try(w) {
					progress = true
					continue
				}
				w = append([]uint64(nil), words...)
				some := false
				for k := i; k < i+n; k++ {
					some = some || w[k] != 0
					w[k] = 0
				}
				if some && try(w) {
					progress = true
				}
			}
		}
		for i := range words {
			for _, x := range []uint64{1, words[i] >> 32, words[i] >> 8, words[i] >> 1, words[i] - 1} {
				if x < words[i] {
					w := append([]uint64(nil), words...)
					w[i] = x
					progress = try(w) || progress
				}
			}
		}
	}
}

func failText(words []uint64) string {
	var b strings.Builder
	b.WriteString("v0.4.8#1")
	for _, w := range words {
		b.WriteString("\n0x" + strconv.FormatUint(w, 16))
	}
	return b.String()
}
