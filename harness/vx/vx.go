// Package vx is the interface between a harness and the symbolic engine. The functions below are
// interpreted by the engine; their Go bodies replay one concrete witness natively.
package vx

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Input is one recorded nondeterministic value.
type Input struct {
	Name string   `json:"n"`
	Vals []uint64 `json:"v"`
}

// Replay is the state of one native replay.
type Replay struct {
	mu      sync.Mutex
	in      map[string][][]uint64
	gates   []string
	pos     int
	wake    chan struct{}
	Failed  []string
	OnFail  func(failed []string)
	Reached map[string]bool
	Trace   []string
	Diverge string
	names   map[uint64]string
	tier    string
	start   time.Time
	IdleFn  func()
}

// StopSignal ends a harness early.
type StopSignal struct{ Why string }

var r *Replay

// Start begins a replay (native only).
func Start(in []Input, gates []string, tier string) *Replay {
	r = &Replay{in: map[string][][]uint64{}, gates: gates, wake: make(chan struct{}), Reached: map[string]bool{}, names: map[uint64]string{}, tier: tier, start: time.Now()}
	for _, i := range in {
		r.in[i.Name] = append(r.in[i.Name], i.Vals)
	}
	return r
}

func next(name string, n int) []uint64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	q := r.in[name]
	if len(q) == 0 {
		if r.Diverge == "" {
			r.Diverge = "input " + name + " not recorded"
		}
		return make([]uint64, n)
	}
	r.in[name] = q[1:]
	v := q[0]
	if len(v) != n {
		if r.Diverge == "" {
			r.Diverge = "input " + name + " has another size"
		}
		v = append(v, make([]uint64, n)...)[:n]
	}
	return v
}

func U8(name string) byte    { return byte(next(name, 1)[0]) }
func U16(name string) uint16 { return uint16(next(name, 1)[0]) }
func U32(name string) uint32 { return uint32(next(name, 1)[0]) }
func U64(name string) uint64 { return next(name, 1)[0] }
func Bool(name string) bool  { return next(name, 1)[0] != 0 }

// Int is any integer in [lo, hi].
func Int(name string, lo, hi int) int { return int(next(name, 1)[0]) }

// Range is any byte in [lo, hi].
func Range(name string, lo, hi byte) byte { return byte(next(name, 1)[0]) }

// Bytes is any n bytes.
func Bytes(name string, n int) []byte {
	v := next(name, n)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v[i])
	}
	return b
}

// Choose is any of 0..n-1, one path each.
func Choose(name string, n int) int { return int(next(name, 1)[0]) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		r.mu.Lock()
		r.Diverge = "assumption does not hold"
		r.mu.Unlock()
		panic(StopSignal{"assume"})
	}
}

// Assert is the property.
func Assert(c bool, label string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Reached[label] = true
	if !c {
		r.Failed = append(r.Failed, label)
		if r.OnFail != nil {
			r.OnFail(r.Failed)
		}
	}
}

func Fail(label string) { Assert(false, label) }

// Reach marks a point that some path has to reach for the check to mean anything.
func Reach(label string) {
	r.mu.Lock()
	r.Reached[label] = true
	r.mu.Unlock()
}

func obs(s string) {
	r.mu.Lock()
	r.Trace = append(r.Trace, s)
	r.mu.Unlock()
}

// Obs records an observable value, compared between the engine and the native run.
func Obs(name string, s string)  { obs(fmt.Sprintf("%s=%x", name, s)) }
func ObsB(name string, b []byte) { obs(fmt.Sprintf("%s=%x", name, b)) }
func ObsI(name string, v int)    { obs(fmt.Sprintf("%s=%d", name, uint64(v))) }

// Bound states a bound of the check, for the evidence.
func Bound(s string) {}

// Expect declares that some path must Reach the label (or assert it).
func Expect(label string) {}

// Stop ends the harness.
func Stop() { panic(StopSignal{"stop"}) }

func gid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.ParseUint(f[1], 10, 64)
	return id
}

// Go starts a named goroutine.
func Go(name string, f func()) {
	go func() {
		id := gid()
		r.mu.Lock()
		r.names[id] = name
		r.mu.Unlock()
		f()
	}()
}

// Own names the goroutine after a connection it uses, if it has no name.
func Own(name string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.gates) == 0 {
		return
	}
	if id := gid(); r.names[id] == "" {
		r.names[id] = "@" + name
	}
}

// Gate is a scheduling point.
func Gate(name string) {
	if r == nil {
		return
	}
	r.mu.Lock()
	if len(r.gates) == 0 {
		r.mu.Unlock()
		return
	}
	key := r.names[gid()] + ":" + name
	for r.pos < len(r.gates) && r.gates[r.pos] != key {
		w := r.wake
		r.mu.Unlock()
		<-w
		r.mu.Lock()
	}
	r.mu.Unlock()
	for i := 0; i < 3000; i++ {
		runtime.Gosched()
	}
	r.mu.Lock()
	if r.pos < len(r.gates) {
		r.pos++
	}
	close(r.wake)
	r.wake = make(chan struct{})
	r.mu.Unlock()
}

// Scheduled says whether a schedule is being followed (native only).
func Scheduled() bool { return r != nil && len(r.gates) > 0 }

// Turn runs f when it is the goroutine's turn (native only).
func Turn(name string, f func()) {
	r.mu.Lock()
	key := r.names[gid()] + ":" + name
	for r.pos < len(r.gates) && r.gates[r.pos] != key {
		w := r.wake
		r.mu.Unlock()
		<-w
		r.mu.Lock()
	}
	on := r.pos < len(r.gates)
	r.mu.Unlock()
	f()
	if !on {
		return
	}
	r.mu.Lock()
	r.pos++
	close(r.wake)
	r.wake = make(chan struct{})
	r.mu.Unlock()
}

// Explore turns on schedule exploration with at most n preemptions.
func Explore(n int) {}

// MapOrders makes the repository's map iterations run in every order.
func MapOrders() {}

// Idle waits until every other goroutine is blocked.
func Idle() {
	if len(r.gates) > 0 {
		time.Sleep(time.Nanosecond)
		return
	}
	if r.IdleFn != nil {
		r.IdleFn()
	}
}

// Concrete splits on the value of x.
func Concrete(x int) int { return x }

// Now is the virtual time in nanoseconds.
func Now() int { return int(time.Since(r.start)) }

func Thorough() bool { return r.tier == "thorough" }

func Debug(name string, v interface{}) {}
