// Package vsync stands in for package sync in the code under test during native replays, so that the
// order in which goroutines get its mutexes can be that of the engine's schedule. Everything else is sync's.
package vsync

import (
	"runtime"
	"strings"
	"sync"

	"verif/harness/vx"
)

type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Map       = sync.Map
	Once      = sync.Once
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

func fromRepo() bool {
	var pc [1]uintptr
	if runtime.Callers(3, pc[:]) == 0 {
		return false
	}
	f, _ := runtime.CallersFrames(pc[:]).Next()
	return strings.HasPrefix(f.Function, "go.f110.dev/go-memcached/")
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if vx.Scheduled() && fromRepo() {
		vx.Turn("lock", m.m.Lock)
		return
	}
	m.m.Lock()
}
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	if vx.Scheduled() && fromRepo() {
		vx.Turn("lock", m.m.Lock)
		return
	}
	m.m.Lock()
}
func (m *RWMutex) Unlock()       { m.m.Unlock() }
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }
func (m *RWMutex) RLock() {
	if vx.Scheduled() && fromRepo() {
		vx.Turn("lock", m.m.RLock)
		return
	}
	m.m.RLock()
}
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker { return m.m.RLocker() }
