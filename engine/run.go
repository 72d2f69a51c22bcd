package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Run struct {
	prop         string
	tier         string
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	hpkg         *ssa.Package
	canon        canonTab
	typesMu      sync.Mutex
	rtErrorType  types.Type
	fnDecodeRune *ssa.Function
	models       map[string]*ssa.Function
	all          []*Harness
	hs           []*Harness

	maxSteps    int64
	nspin       int
	outOfMem    atomic.Bool
	maxConc     int
	maxSymAlloc int
	workers     int
	deadline    time.Time
	maxViol     int
	verbose     bool
	onlyPrefix  string
	nSamples    int

	mu      sync.Mutex
	cond    *sync.Cond
	jobs    []*Job
	active  int
	stopped bool
	stats   Stats
	viols   map[string][]*Violation
	nviol   int
	incompl map[string]int
	outside map[string]bool
	bounds  map[string]bool
	perH    map[string]*HStat
	samples []*Witness
	dbg     map[string]bool
}

type HStat struct {
	Paths    int             `json:"paths"`
	Done     int             `json:"completed"`
	Infeas   int             `json:"infeasible"`
	Steps    int64           `json:"instructions"`
	Asserts  map[string]int  `json:"-"`
	Reached  map[string]int  `json:"-"`
	Incompl  int             `json:"incomplete"`
	Expect   map[string]bool `json:"-"`
	Time     time.Duration   `json:"time_ns"`
	MaxDepth int             `json:"max_decisions"`
}

type Stats struct {
	Paths, Done, Infeasible                  int
	Forks, Forced, AssertQ, Trivial, Asserts int
	Queries, CacheHits, Unknown              int
	SolverTime, Longest                      time.Duration
	Steps                                    int64
	Decisions                                int64
	RepoFns                                  map[string]bool
	LibFns                                   map[string]bool
}

// W is a worker.
type W struct {
	run        *Run
	id         int
	tt         *TT
	sv         *Solver
	globals    map[*ssa.Global]*Value
	ourGlobals []*ssa.Global
	finfos     map[*ssa.Function]*finfo
	canonCache map[types.Type]types.Type
	implCache  map[implKey]bool
	methCache  map[methKey]*ssa.Function
	inited     map[*ssa.Package]bool
	initing    int
	repoFns    map[string]bool
	freeFrames []*frame
	freeEnvs   [65][][]Value
	rtypes     map[types.Type]*Value
	sizes      types.Sizes
	wg         sync.WaitGroup

	nForks, nForced, nAssertQ, nTrivial int
}

func (r *Run) newWorker(id int) *W {
	w := &W{run: r, id: id, globals: map[*ssa.Global]*Value{}, finfos: map[*ssa.Function]*finfo{}, canonCache: map[types.Type]types.Type{},
		implCache: map[implKey]bool{}, methCache: map[methKey]*ssa.Function{}, inited: map[*ssa.Package]bool{}, repoFns: map[string]bool{}, rtypes: map[types.Type]*Value{}, sizes: types.SizesFor("gc", "amd64")}
	w.resetTerms()
	return w
}

func (w *W) resetTerms() {
	if w.sv != nil {
		w.flushSolver()
		w.sv.Close()
	}
	w.tt = newTT()
	w.sv = newSolver(w.tt, 20000)
}

func (w *W) flushSolver() {
	r := w.run
	r.mu.Lock()
	r.stats.Queries += w.sv.queries
	r.stats.CacheHits += w.sv.hits
	r.stats.Unknown += w.sv.unknown
	r.stats.SolverTime += w.sv.spent
	if w.sv.longest > r.stats.Longest {
		r.stats.Longest = w.sv.longest
	}
	w.sv.queries, w.sv.hits, w.sv.unknown, w.sv.spent = 0, 0, 0, 0
	r.mu.Unlock()
}

func (r *Run) push(j *Job) {
	r.mu.Lock()
	r.jobs = append(r.jobs, j)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) next() *Job {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopped {
			return nil
		}
		if n := len(r.jobs); n > 0 {
			j := r.jobs[n-1]
			r.jobs = r.jobs[:n-1]
			r.active++
			return j
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) debugf(f string, a ...interface{}) {
	if !r.verbose {
		return
	}
	s := fmt.Sprintf(f, a...)
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.dbg[s] {
		r.dbg[s] = true
		fmt.Fprintln(os.Stderr, "debug:", s)
	}
}

func (r *Run) noteOutside(s string) {
	r.mu.Lock()
	r.outside[s] = true
	r.mu.Unlock()
}

func (r *Run) explore() {
	r.cond = sync.NewCond(&r.mu)
	r.viols = map[string][]*Violation{}
	r.incompl = map[string]int{}
	r.outside = map[string]bool{}
	r.bounds = map[string]bool{}
	r.perH = map[string]*HStat{}
	r.dbg = map[string]bool{}
	r.stats.RepoFns = map[string]bool{}
	for i := len(r.hs) - 1; i >= 0; i-- {
		h := r.hs[i]
		r.perH[h.name] = &HStat{Expect: map[string]bool{}, Reached: map[string]int{}, Asserts: map[string]int{}}
		r.jobs = append(r.jobs, &Job{h: h})
	}
	over := make(chan bool)
	defer close(over)
	go r.watchMemory(over)
	var wg sync.WaitGroup
	for i := 0; i < r.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := r.newWorker(i)
			for {
				j := r.next()
				if j == nil {
					break
				}
				w.runJob(j)
				r.mu.Lock()
				r.active--
				if r.active == 0 && len(r.jobs) == 0 {
					r.cond.Broadcast()
				}
				if time.Now().After(r.deadline) && !r.stopped {
					r.stopped = true
					if len(r.jobs) > 0 || r.active > 0 {
						r.incompl[fmt.Sprintf("time limit reached with %d paths pending", len(r.jobs)+r.active)]++
					}
					r.cond.Broadcast()
				}
				r.mu.Unlock()
				if w.tt.next > 1500000 {
					w.resetTerms()
				}
			}
			w.flushSolver()
			r.mu.Lock()
			r.stats.Forks += w.nForks
			r.stats.Forced += w.nForced
			r.stats.AssertQ += w.nAssertQ
			r.stats.Trivial += w.nTrivial
			for f := range w.repoFns {
				r.stats.RepoFns[f] = true
			}
			r.mu.Unlock()
			r.cond.Broadcast()
		}(i)
	}
	wg.Wait()
}

// watchMemory ends the exploration before the sandbox runs out of memory.
func (r *Run) watchMemory(over chan bool) {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		select {
		case <-over:
			return
		case <-time.After(500 * time.Millisecond):
		}
		metrics.Read(s)
		if s[0].Value.Uint64() > 20<<30 {
			r.mu.Lock()
			if !r.stopped {
				r.stopped = true
				r.incompl["memory limit reached"]++
			}
			r.outOfMem.Store(true)
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
	}
}

func (w *W) runJob(j *Job) {
	p := &Path{w: w, job: j, pc: map[*Term]bool{}, vgroup: map[uint32]*group{}, usedVar: map[uint32]bool{}, nfresh: map[string]int{},
		reached: map[string]bool{}, asserted: map[string]int{}, mu: map[*Value]*mutexState{}, side: map[*Value]interface{}{}, digMemo: map[*Term][]*Term{}, digBack: map[string]*Term{}, digOf: map[uint32]*digDef{},
		endCh: make(chan pathEnd, 64)}
	w.tt.gen++
	p.model = &Model{gen: w.tt.gen}
	t0 := time.Now()
	g := p.newG()
	p.cur = g
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		defer func() {
			r := recover()
			g.done = true
			if p.dead {
				return
			}
			if r != nil {
				p.endCh <- p.classify(g, r)
				return
			}
			p.endCh <- pathEnd{"done", ""}
		}()
		g.resetOurs()
		g.callFn(j.h.fn, nil, nil)
	}()
	end := <-p.endCh
	p.dead = true
	for _, g := range p.gs {
		select {
		case g.wake <- struct{}{}:
		default:
		}
	}
	w.wg.Wait()
	w.finish(p, end, time.Since(t0))
}

func (w *W) finish(p *Path, end pathEnd, dur time.Duration) {
	r := w.run
	var sample *Witness
	switch end.kind {
	case "panic":
		p.violate("panic", "panic", end.msg)
	case "hang":
		p.violate("hang", "hang", end.msg)
	case "done", "infeasible", "fail", "huge", "stop":
	case "limit":
		p.note(end.msg)
	case "spin":
		p.note(end.msg)
		p.violate("hang", "endless", end.msg)
	default:
		p.note(end.kind + ": " + end.msg)
	}
	if end.kind == "done" && len(p.viol) == 0 && len(p.incompl) == 0 {
		r.mu.Lock()
		st := r.perH[p.job.h.name]
		n := st.Done
		r.mu.Unlock()
		if n < 3 || (n < 4096 && n&(n-1) == 0) {
			sample = p.witness("", "")
			sample.Obs = p.evalObs()
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.stats.Paths++
	r.stats.Steps += p.steps
	r.stats.Decisions += int64(len(p.dec))
	r.stats.Asserts += p.nAssert
	st := r.perH[p.job.h.name]
	st.Paths++
	st.Steps += p.steps
	st.Time += dur
	if len(p.dec) > st.MaxDepth {
		st.MaxDepth = len(p.dec)
	}
	switch end.kind {
	case "done", "fail", "panic", "hang", "stop":
		st.Done++
		r.stats.Done++
	case "infeasible":
		st.Infeas++
		r.stats.Infeasible++
	case "huge":
		r.outside[end.msg] = true
	}
	for l := range p.reached {
		st.Reached[l]++
	}
	for l, n := range p.asserted {
		st.Asserts[l] += n
	}
	if len(p.incompl) > 0 {
		st.Incompl++
		for _, s := range p.incompl {
			r.incompl[p.job.h.name+": "+s]++
		}
	}
	for _, v := range p.viol {
		k := v.Harness + "|" + v.key()
		if len(r.viols[k]) < 4 {
			r.viols[k] = append(r.viols[k], v)
		}
		r.nviol++
	}
	if end.kind == "spin" {
		if r.nspin++; r.nspin >= 8 { // each takes long, and more would tell nothing new
			r.stopped = true
			r.cond.Broadcast()
		}
	}
	if r.maxViol > 0 && r.nviol >= r.maxViol && !r.stopped {
		r.stopped = true
		r.cond.Broadcast()
	}
	if sample != nil {
		r.samples = append(r.samples, sample)
	}
	if r.verbose && os.Getenv("VX_PATHS") != "" {
		fmt.Fprintf(os.Stderr, "path %s: %s %s dec=%d steps=%d\n", p.job.h.name, end.kind, end.msg, len(p.dec), p.steps)
	}
}

// key identifies a violation independently of the concrete witness: the assertion label, or for a
// panic/hang the message and the innermost repository function.
func (v *Violation) key() string {
	if v.kind == "assert" {
		return v.Label
	}
	return v.Label + ":" + firstRepoFrame(v.Detail)
}

func firstRepoFrame(d string) string {
	i := strings.Index(d, repoPath)
	if i < 0 {
		return ""
	}
	s := d[i:]
	if j := strings.IndexAny(s, " <\n"); j > 0 {
		s = s[:j]
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

var _ = debug.Stack
