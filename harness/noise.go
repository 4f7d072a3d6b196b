package main

import (
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/jumboframes/armorigo/log"
	"github.com/singchia/go-timer/v2"
)

// noisyLog is a logger which now and then holds up who logs, so that the goroutines of an End meet
// in orders they'd hardly meet in otherwise.
func noisyLog(seed int64, often int) *log.Log {
	return log.NewLog().WithOutput(&noise{rnd: rand.New(rand.NewSource(seed)), often: often}).WithLevel(log.LevelTrace)
}

type noise struct {
	mu    sync.Mutex
	rnd   *rand.Rand
	often int // percent
}

func (x *noise) Write(b []byte) (int, error) {
	x.mu.Lock()
	r := x.rnd.Intn(100)
	n := x.rnd.Intn(2000)
	x.mu.Unlock()
	switch {
	case r < x.often:
		time.Sleep(time.Duration(n) * time.Microsecond)
	case r < 30:
		runtime.Gosched()
	}
	return len(b), nil
}

var realTimer = sync.OnceValue(func() timer.Timer { return timer.NewTimer() })

// lazyTimer fires late, up to the given time, and doesn't cancel what is already due: the
// handler is about to run then.
type lazyTimer struct {
	mu  sync.Mutex
	rnd *rand.Rand
	max time.Duration
}

func newLazy(seed int64, max time.Duration) *lazyTimer {
	return &lazyTimer{rnd: rand.New(rand.NewSource(seed)), max: max}
}

func (x *lazyTimer) Add(d time.Duration, opts ...timer.TickOption) timer.Tick {
	x.mu.Lock()
	late := time.Duration(x.rnd.Int63n(int64(x.max)))
	if x.rnd.Intn(3) == 0 {
		late = 0
	}
	x.mu.Unlock()
	due := time.Now().Add(d)
	return &lazyTick{Tick: realTimer().Add(d+late, opts...), due: due}
}

func (x *lazyTimer) Close()  {}
func (x *lazyTimer) Pause()  {}
func (x *lazyTimer) Moveon() {}

type lazyTick struct {
	timer.Tick
	due time.Time
}

func (t *lazyTick) Cancel() error {
	if !time.Now().Before(t.due) {
		return timer.ErrCancelOnNonWait
	}
	return t.Tick.Cancel()
}

// log is the logger of the n-th End of a run
func (s *Sys) log(n int) *log.Log {
	if s.pert&1 == 0 {
		return quietLog
	}
	return noisyLog(s.seed*7+int64(n), 1+int(s.seed%4))
}
