package vh

import (
	"context"
	"sync"
	"time"

	gb "github.com/rossmerr/graphblas"
	"pgregory.net/rapid"
)

// PollCtx is a context that counts how often it is asked whether it is done and is cancelled
// by the At-th question (never if At is 0), so that a cancellation falls at a chosen step.
type PollCtx struct {
	mu   sync.Mutex
	n    int
	At   int
	ch   chan struct{}
	done bool
}

// NewPollCtx makes a context cancelled at poll at (0: never).
func NewPollCtx(at int) *PollCtx { return &PollCtx{At: at, ch: make(chan struct{})} }

func (p *PollCtx) poll() {
	p.n++
	if p.At > 0 && p.n >= p.At && !p.done {
		p.done = true
		close(p.ch)
	}
}

// Cancel cancels it now.
func (p *PollCtx) Cancel() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.done {
		p.done = true
		close(p.ch)
	}
}

// Cancelled tells whether it is cancelled, Polls how often it was asked.
func (p *PollCtx) Cancelled() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.done }
func (p *PollCtx) Polls() int      { p.mu.Lock(); defer p.mu.Unlock(); return p.n }

func (p *PollCtx) Done() <-chan struct{} {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.poll()
	return p.ch
}

func (p *PollCtx) Err() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.poll()
	if p.done {
		return context.Canceled
	}
	return nil
}

func (p *PollCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (p *PollCtx) Value(any) any               { return nil }

// BG is the context of the current case wherever its test does not cancel: it is never cancelled,
// but not always the background context.
var BG = context.Background()

type ctxKey struct{}

func drawBG(t *rapid.T) (name string, release func()) {
	BG, release = context.Background(), func() {}
	switch UniT(t, 12, "ctx") {
	case 0:
		BG, name = gb.NewContext(BG, gb.NonBlocking), "non-blocking"
	case 1:
		BG, name = gb.NewContext(BG, gb.Blocking), "blocking"
	case 2:
		BG, release = context.WithCancel(BG)
		name = "cancellable"
	case 3:
		BG, release = context.WithTimeout(context.WithValue(BG, ctxKey{}, 1), 100*time.Hour)
		BG, name = gb.NewContext(BG, gb.NonBlocking), "deadline and mode"
	case 4:
		dead, kill := context.WithCancel(BG)
		kill()
		BG, name = context.WithoutCancel(dead), "detached from a cancelled one"
	case 5:
		BG, release = context.WithCancel(gb.NewContext(BG, gb.NonBlocking))
		name = "derived from a non-blocking one"
	case 6:
		BG, name = NewPollCtx(0), "counting"
	default:
		name = "background"
	}
	return name, release
}
