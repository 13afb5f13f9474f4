package main

import (
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	logging "github.com/ipfs/go-log/v2"
	"go.uber.org/zap/zapcore"
)

// jitter is a log sink that writes nothing and sometimes delays the goroutine
// that logs: points between the critical sections of the code under test at
// which the schedule is perturbed. It decides nothing.
type jitter struct {
	n      *uint64
	seed   uint64
	one    uint64 // delay one log call in this many
	max    uint64 // by up to this many microseconds
	counts *int64
}

func (j *jitter) Enabled(zapcore.Level) bool        { return true }
func (j *jitter) With([]zapcore.Field) zapcore.Core { return j }
func (j *jitter) Sync() error                       { return nil }
func (j *jitter) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, j)
}

// logHooks are called with each message logged while jitterLogs is on.
var logHooks sync.Map

// onLog calls f with each message that is logged, until the result is called.
func onLog(f func(msg string)) func() {
	k := new(int)
	logHooks.Store(k, f)
	return func() { logHooks.Delete(k) }
}

func (j *jitter) Write(e zapcore.Entry, _ []zapcore.Field) error {
	logHooks.Range(func(_, f interface{}) bool {
		f.(func(string))(e.Message)
		return true
	})
	x := (atomic.AddUint64(j.n, 1) + j.seed) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	if x%j.one != 0 {
		return nil
	}
	atomic.AddInt64(j.counts, 1)
	x /= j.one
	if x&1 == 0 {
		runtime.Gosched()
		return nil
	}
	time.Sleep(time.Duration(x>>1%j.max) * time.Microsecond)
	return nil
}

// jitterLogs perturbs the schedule at the log calls of the code under test for
// the rest of the run.
func (c *Ctx) jitterLogs(one, maxMicros uint64) {
	j := &jitter{n: new(uint64), seed: uint64(c.Seed) * 7919, one: one, max: maxMicros, counts: new(int64)}
	for _, s := range logging.GetSubsystems() {
		if strings.HasPrefix(s, "indexer") || s == "go-legs" || strings.HasPrefix(s, "dt") || s == "graphsync" {
			_ = logging.SetLogLevel(s, "debug")
		}
	}
	logging.SetPrimaryCore(j)
	c.atEnd = append(c.atEnd, func() { c.Count("log_points_perturbed", atomic.LoadInt64(j.counts)) })
}
