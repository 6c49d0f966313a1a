package harness

import (
	"context"
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zlog"
)

// chaosLogger replaces zinx's logger: zinx logs at most interesting points of
// its own code, so a logger that yields or sleeps there perturbs schedules
// exactly inside the code under test, without touching it. It takes no locks
// (a lock would order the goroutines and hide races).
type chaosLogger struct{}

// chaosLevel holds yield (out of 1000), nap (out of 1000) and the longest nap. It is
// only loaded while zinx runs, which orders nothing.
var chaosYield, chaosNap, chaosMax atomic.Int64

func (l *chaosLogger) hit() {
	y, n := chaosYield.Load(), chaosNap.Load()
	if y == 0 && n == 0 {
		return
	}
	r := rand.Int64N(1000)
	switch {
	case r < n:
		time.Sleep(time.Duration(rand.Int64N(chaosMax.Load() + 1)))
	case r < n+y:
		runtime.Gosched()
	}
}
func (l *chaosLogger) InfoF(string, ...interface{})                    { l.hit() }
func (l *chaosLogger) ErrorF(string, ...interface{})                   { l.hit() }
func (l *chaosLogger) DebugF(string, ...interface{})                   { l.hit() }
func (l *chaosLogger) InfoFX(context.Context, string, ...interface{})  { l.hit() }
func (l *chaosLogger) ErrorFX(context.Context, string, ...interface{}) { l.hit() }
func (l *chaosLogger) DebugFX(context.Context, string, ...interface{}) { l.hit() }

func quietZinx() { zlog.SetLogger(&chaosLogger{}) }

// chaos sets the schedule noise, in one of a few intensities.
func chaos(level int) {
	set := func(y, n int64, m time.Duration) {
		chaosYield.Store(y)
		chaosNap.Store(n)
		chaosMax.Store(int64(m))
	}
	switch level {
	case 0:
		set(0, 0, 0)
	case 1:
		set(300, 5, 200*time.Microsecond)
	case 2:
		set(200, 60, 600*time.Microsecond)
	default:
		set(100, 200, 3*time.Millisecond)
	}
}
