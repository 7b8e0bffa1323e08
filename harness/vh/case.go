// Package vh is the common part of the property checks: bookkeeping of generated cases
// (description, non-triviality, classes), a watchdog, generators and reference models.
package vh

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Deep is set for the thorough tier: larger sizes, longer histories.
var Deep = os.Getenv("VH_DEEP") != ""

// Case is one generated case.
type Case struct {
	*rapid.T
	b      strings.Builder
	non    bool
	cls    []string
	mu     sync.Mutex
	closed bool
}

// Desc appends to the description of the case, which identifies it and is shown on failure.
func (c *Case) Desc(format string, a ...any) {
	c.mu.Lock()
	fmt.Fprintf(&c.b, format, a...)
	c.b.WriteByte(' ')
	c.mu.Unlock()
}

func (c *Case) text() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.b.String()
}

// NonTrivial marks the case as non-trivial.
func (c *Case) NonTrivial(cond bool) {
	if cond {
		c.non = true
	}
}

// Class counts the case in a class, when cond holds.
func (c *Case) Class(cond bool, name string) {
	if cond {
		c.cls = append(c.cls, name)
	}
}

// Failf reports a violation of the property.
func (c *Case) Failf(format string, a ...any) {
	c.T.Helper()
	c.T.Fatalf(format, a...)
}

var (
	statMu   sync.Mutex
	evals    int
	nonEvals int
	seen     = map[uint64]struct{}{}
	classes  = map[string]int{}
	samples  []string
	extra    = map[string]int{}
	frozen   bool

	caseNo    atomic.Int64
	caseStart atomic.Int64 // wall ns
	caseCPU   atomic.Int64 // process cpu ns at the start
	current   atomic.Pointer[Case]
	running   atomic.Bool
)

// Count adds to a named measured counter of the run.
func Count(name string, n int) {
	statMu.Lock()
	if !frozen {
		extra[name] += n
	}
	statMu.Unlock()
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

var trace = os.Getenv("VH_TRACE")

var slowest int64 // processor time of the slowest case

// Check runs f on generated cases.
func Check(t *testing.T, f func(c *Case)) {
	if t == nil {
		captured = f
		return
	}
	if p := os.Getenv("VH_SHRINK"); p != "" {
		shrink(t, f, p)
		return
	}
	rapid.Check(t, func(rt *rapid.T) { one(rt, f) })
}

func one(rt *rapid.T, f func(c *Case)) {
	c := &Case{T: rt}
	ctxName, release := drawBG(rt)
	defer release()
	current.Store(c)
	caseStart.Store(time.Now().UnixNano())
	caseCPU.Store(cpuNow())
	caseNo.Add(1)
	running.Store(true)
	defer func() {
		running.Store(false)
		if !c.closed { // failed or panicked
			statMu.Lock()
			frozen = os.Getenv("VH_FUZZ") == "" // cases of the shrinking phase do not count
			statMu.Unlock()
			d := c.text()
			rt.Logf("case: %s (context: %s)", d, ctxName)
			if out := os.Getenv("VH_OUT"); out != "" {
				os.WriteFile(filepath.Join(out, "case.txt"), []byte(d+"\n"), 0o644)
			}
		}
	}()
	f(c)
	c.closed = true
	c.Class(true, "context "+ctxName)
	if d := cpuNow() - caseCPU.Load(); d > slowest {
		slowest = d
		if os.Getenv("VH_SLOW") != "" {
			fmt.Printf("slowest so far: %v %.300s\n", time.Duration(d), c.text())
		}
	}
	c.record()
}

func (c *Case) record() {
	d := c.text()
	h := fnv.New64a()
	io.WriteString(h, d)
	statMu.Lock()
	defer statMu.Unlock()
	if frozen {
		return
	}
	evals++
	for _, s := range c.cls {
		classes[s]++
	}
	if c.non {
		nonEvals++
		k := h.Sum64()
		if _, ok := seen[k]; !ok {
			seen[k] = struct{}{}
			if len(samples) < 4 && len(d) < 900 && len(seen)%7 == 3 {
				samples = append(samples, d)
			}
		}
	}
}

type statFile struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Extra       map[string]int `json:"extra"`
	Samples     []string       `json:"samples"`
}

// Main is the TestMain of every check.
func Main(m *testing.M) {
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	go watchdog()
	code := m.Run()
	if out := os.Getenv("VH_OUT"); out != "" {
		statMu.Lock()
		js, _ := json.Marshal(statFile{evals, nonEvals, classes, extra, samples})
		worker := "" // the processes of the fuzzer each write their own
		if os.Getenv("VH_FUZZ") != "" {
			worker = fmt.Sprintf("-%d", os.Getpid())
		}
		os.WriteFile(filepath.Join(out, "stats"+worker+".json"), js, 0o644)
		hb := make([]byte, 0, 8*len(seen))
		for k := range seen {
			hb = binary.LittleEndian.AppendUint64(hb, k)
		}
		os.WriteFile(filepath.Join(out, "hashes"+worker+".bin"), hb, 0o644)
		statMu.Unlock()
	}
	os.Exit(code)
}

const (
	spinCPU   = 40 * time.Second // processor time one case may use (they take milliseconds)
	heapLimit = 5 << 29
)

// watchdog ends the process with status 77 when a single case spins (uses processor time
// without end), runs away with memory, or is deadlocked (no goroutine can run at all,
// observed repeatedly). It never judges by elapsed time alone, so a busy machine is no failure.
func watchdog() {
	blocked := 0
	var last int64 = -1
	for {
		time.Sleep(500 * time.Millisecond)
		if !running.Load() {
			blocked = 0
			continue
		}
		n := caseNo.Load()
		if n != last {
			last, blocked = n, 0
			continue
		}
		if cpuNow()-caseCPU.Load() > int64(spinCPU) {
			hang("the case does not end: it used more than %v of processor time", spinCPU)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapLimit {
			hang("the case does not end: it holds more than %d bytes", int64(heapLimit))
		}
		if time.Now().UnixNano()-caseStart.Load() < int64(5*time.Second) {
			continue
		}
		if allBlocked() {
			blocked++
		} else {
			blocked = 0
		}
		if blocked >= 10 && caseNo.Load() == n && running.Load() {
			hang("the case does not end: all goroutines are blocked for ever")
		}
	}
}

// allBlocked tells whether every goroutine but the caller waits on a channel, select or lock
// (and none sleeps, does I/O, or can run).
func allBlocked() bool {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // the watchdog itself
		}
		a, b := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
		if a < 0 || b < a {
			continue
		}
		st := g[a+1 : b]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		switch {
		case strings.HasPrefix(st, "chan "), strings.HasPrefix(st, "select"),
			strings.HasPrefix(st, "semacquire"), strings.HasPrefix(st, "sync."):
		case strings.Contains(st, "GC"), strings.HasPrefix(st, "finalizer"), strings.Contains(st, "force gc"):
		default:
			return false
		}
	}
	return true
}

func hang(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	d := ""
	if c := current.Load(); c != nil && c.mu.TryLock() {
		d = c.b.String()
		c.mu.Unlock()
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	fmt.Printf("HANG: %s\ncase: %s\n%s\n", msg, d, buf)
	if out := os.Getenv("VH_OUT"); out != "" {
		os.WriteFile(filepath.Join(out, "case.txt"), []byte(d+"\n"), 0o644)
		os.WriteFile(filepath.Join(out, "hang.txt"), []byte(msg+"\n"), 0o644)
	}
	os.Exit(77)
}
