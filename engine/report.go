package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Native_ builds and runs the harnesses natively against the real code.
type Native_ struct {
	root, tmp    string
	overlayFile  string
	overlayBytes map[string][]byte
	done         chan error
}

var repoDir = "/repo" // -repo, for trials on a copy

var syncImport = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)(\w+\s+)?"sync"`)

var harnessRe = regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)`)

// netHook is the only change made to the standard library: outgoing connections and listeners may be
// supplied by the harness.
func netHook(src string) (string, error) {
	s := src
	const d = "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
	if !strings.Contains(s, d) {
		return "", fmt.Errorf("net/dial.go: DialContext not found")
	}
	s = strings.Replace(s, d, d+"\tif VerifDial != nil {\n\t\treturn VerifDial(ctx, network, address)\n\t}\n", 1)
	const l = "func Listen(network, address string) (Listener, error) {\n"
	if !strings.Contains(s, l) {
		return "", fmt.Errorf("net/dial.go: Listen not found")
	}
	s = strings.Replace(s, l, l+"\tif VerifListen != nil {\n\t\treturn VerifListen(network, address)\n\t}\n", 1)
	s += "\n// VerifDial and VerifListen are set by verification harnesses.\nvar VerifDial func(ctx context.Context, network, address string) (Conn, error)\nvar VerifListen func(network, address string) (Listener, error)\n"
	return s, nil
}

func (n *Native_) prepare() error {
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	n.overlayBytes = map[string][]byte{}
	repl := map[string]string{}
	dial := filepath.Join(strings.TrimSpace(string(goroot)), "src/net/dial.go")
	b, err := os.ReadFile(dial)
	if err != nil {
		return err
	}
	s, err := netHook(string(b))
	if err != nil {
		return err
	}
	n.overlayBytes[dial] = []byte(s)
	f := filepath.Join(n.tmp, "dial.go")
	if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
		return err
	}
	repl[dial] = f
	// the repository's mutexes, for following a schedule
	shared, err := instrument(repoDir, token.NewFileSet())
	if err != nil {
		return err
	}
	for path, s := range shared {
		n.overlayBytes[path] = s
		if os.Getenv("VX_SHARED") != "" {
			fmt.Fprintf(os.Stderr, "%s\n%s\n", path, s)
		}
	}
	k := 0
	err = filepath.WalkDir(repoDir, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if path != repoDir && (strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		orig := string(b)
		if x, ok := shared[path]; ok {
			b = x
		}
		s := syncImport.ReplaceAllStringFunc(string(b), func(m string) string {
			x := syncImport.FindStringSubmatch(m)
			if x[2] == "" {
				x[2] = "sync "
			}
			return x[1] + x[2] + "\"verif/harness/vsync\""
		})
		if s == orig {
			return nil
		}
		k++
		f := filepath.Join(n.tmp, fmt.Sprintf("sync%d.go", k))
		repl[path] = f
		return os.WriteFile(f, []byte(s), 0o644)
	})
	if err != nil {
		return err
	}
	// registry of harnesses, for the native driver
	files, _ := filepath.Glob(filepath.Join(n.root, "harness/h/*.go"))
	var names []string
	for _, hf := range files {
		b, err := os.ReadFile(hf)
		if err != nil {
			return err
		}
		for _, m := range harnessRe.FindAllStringSubmatch(string(b), -1) {
			names = append(names, m[1])
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package h\n\nfunc init() {\n\tregistry = map[string]func(){\n")
	for _, x := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", x, x)
	}
	sb.WriteString("\t}\n}\n")
	rf := filepath.Join(n.tmp, "registry_test.go")
	if err := os.WriteFile(rf, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(n.root, "harness/h/zz_registry_test.go")] = rf
	j, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	n.overlayFile = filepath.Join(n.tmp, "overlay.json")
	return os.WriteFile(n.overlayFile, j, 0o644)
}

func (n *Native_) startBuild() {
	n.done = make(chan error, 1)
	go func() {
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-ldflags=-checklinkname=0", "-overlay", n.overlayFile, "-o", filepath.Join(n.tmp, "replay.test"), "./h")
		cmd.Dir = filepath.Join(n.root, "harness")
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v\n%s", err, out)
		}
		n.done <- err
	}()
}

func (n *Native_) wait() error {
	if n.done == nil {
		return fmt.Errorf("no native build")
	}
	err := <-n.done
	n.done <- err
	return err
}

// Outcome is what a native replay showed.
type Outcome struct {
	Failed  []string `json:"failed"`
	Diverge string   `json:"diverge"`
	Obs     []string `json:"obs"`
	Panic   string   `json:"panic"`
	Hang    bool     `json:"hang"`
	Done    bool     `json:"done"`
	raw     string
}

func (o *Outcome) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

func readWitness(f string) (*Witness, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	w := &Witness{}
	return w, json.Unmarshal(b, w)
}

func (n *Native_) run(w *Witness, verbose bool) *Outcome {
	f, err := os.CreateTemp(n.tmp, "w*.json")
	if err != nil {
		return &Outcome{Diverge: err.Error()}
	}
	b, _ := json.Marshal(w)
	f.Write(b)
	f.Close()
	out := f.Name() + ".out"
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(n.tmp, "replay.test"), "-test.run", "^TestReplay$", "-test.timeout", "60s")
	cmd.Dir = n.tmp
	cmd.Env = append(os.Environ(), "VX_IN="+f.Name(), "VX_OUT="+out, "GOMEMLIMIT=2GiB", "GOTRACEBACK=all")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.WaitDelay = time.Second
	cmd.Run()
	o := &Outcome{raw: buf.String()}
	if b, err := os.ReadFile(out); err == nil {
		json.Unmarshal(b, o)
	}
	s := buf.String()
	if !o.Done {
		switch {
		case ctx.Err() != nil || strings.Contains(s, "deadlock:") || strings.Contains(s, "all goroutines are asleep"):
			o.Hang = true
		case strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:"):
			i := strings.Index(s, "panic:")
			if i < 0 {
				i = strings.Index(s, "fatal error:")
			}
			o.Panic = s[i:]
			if len(o.Panic) > 600 {
				o.Panic = o.Panic[:600]
			}
		default:
			o.Diverge = "no result: " + s
		}
	}
	return o
}

// confirms reports whether the native run shows the violation the engine found.
func (o *Outcome) confirms(v *Violation) bool {
	switch v.kind {
	case "panic":
		return o.Panic != "" || len(o.Failed) > 0
	case "hang":
		return o.Hang
	}
	for _, f := range o.Failed {
		if f == v.Label {
			return true
		}
	}
	return o.Panic != ""
}

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type findingsFile struct {
	Findings []finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func (r *Run) report(nat *Native_, root string, seed int, start time.Time, loadT time.Duration, noreplay bool) int {
	var ff findingsFile
	if b, err := os.ReadFile(filepath.Join(root, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &ff); err != nil {
			fmt.Fprintln(os.Stderr, "ERROR: known_findings.json:", err)
			return 2
		}
	}
	known := map[string]finding{}
	for _, f := range ff.Findings {
		if f.Property == r.prop {
			known[f.Key] = f
		}
	}
	code := 0
	bad := func(f string, a ...interface{}) {
		fmt.Printf("ERROR: "+f+"\n", a...)
		if code == 0 {
			code = 2
		}
	}
	// counterexamples
	nviol := 0
	keys := sortedKeys(r.viols)
	os.MkdirAll(filepath.Join(root, "replays"), 0o755)
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	var confirmedSamples []interface{}
	unconfirmed := []string{}
	replayed := 0
	seenKnown := map[string]bool{}
	for i, k := range keys {
		vs := r.viols[k]
		ok := false
		var last *Outcome
		for _, v := range vs {
			if noreplay {
				ok = true
				fmt.Printf("counterexample (not replayed) %s: %s\n", k, v.Detail)
				printWitness(v.Witness)
				break
			}
			tries := 1
			if v.Witness.MapOrder {
				tries = 40
			} else if len(v.Witness.Gates) > 0 {
				tries = 40
			}
			for t := 0; t < tries && !ok; t++ {
				last = nat.run(v.Witness, false)
				replayed++
				ok = last.confirms(v)
			}
			if !ok {
				continue
			}
			if f, isKnown := known[k]; isKnown {
				if !seenKnown[k] {
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.prop, f.What, k)
				}
				seenKnown[k] = true
				break
			}
			path := filepath.Join(root, "replays", fmt.Sprintf("%s-%d.json", r.prop, i))
			b, _ := json.MarshalIndent(v.Witness, "", " ")
			os.WriteFile(path, b, 0o644)
			nviol++
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
			fmt.Printf("  harness %s: %s: %s\n  native replay: %s\n", v.Harness, v.Label, short(v.Detail, 600), short(last.String(), 400))
			code = 1
			confirmedSamples = append(confirmedSamples, v.Witness)
			break
		}
		if !ok {
			unconfirmed = append(unconfirmed, k)
			v := vs[0]
			fmt.Printf("unconfirmed counterexample %s: %s\n  native: %s\n", k, short(v.Detail, 900), short(last.String(), 500))
			b, _ := json.MarshalIndent(v.Witness, "", " ")
			os.WriteFile(filepath.Join(root, "replays", fmt.Sprintf("%s-unconfirmed-%d.json", r.prop, i)), b, 0o644)
		}
	}
	if len(unconfirmed) > 0 && nviol == 0 {
		bad("%d counterexamples of the encoding were not confirmed by the real code", len(unconfirmed))
	}
	// validation of the encoding on passing paths
	validated, mismatch, unfollowed := 0, 0, 0
	if !noreplay {
		type res struct {
			w *Witness
			o *Outcome
		}
		sort.SliceStable(r.samples, func(i, j int) bool { return r.samples[i].Harness < r.samples[j].Harness })
		max := 64
		if r.tier == "thorough" {
			max = 256
		}
		samples := pick(r.samples, max)
		in := make(chan *Witness)
		outc := make(chan res)
		var wg sync.WaitGroup
		for i := 0; i < runtime.NumCPU(); i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for w := range in {
					outc <- res{w, nat.run(w, false)}
				}
			}()
		}
		go func() {
			for _, w := range samples {
				in <- w
			}
			close(in)
			wg.Wait()
			close(outc)
		}()
		for x := range outc {
			o := x.o
			okk := o.Done && o.Diverge == "" && len(o.Failed) == 0 && o.Panic == "" && !o.Hang
			if okk && !x.w.MapOrder {
				okk = strings.Join(o.Obs, "\n") == strings.Join(x.w.Obs, "\n")
			}
			if okk {
				validated++
				continue
			}
			if len(x.w.Gates) > 0 { // schedule-dependent replays get more attempts
				lost := o.Hang || o.Diverge != ""
				for t := 0; t < 24 && !okk; t++ {
					o = nat.run(x.w, false)
					okk = o.Done && o.Diverge == "" && len(o.Failed) == 0 && strings.Join(o.Obs, "\n") == strings.Join(x.w.Obs, "\n")
					lost = lost && (okk || o.Hang || o.Diverge != "")
				}
				if okk {
					validated++
					continue
				}
				if lost { // what is left to chance natively (which ready case a select takes) never followed the schedule
					unfollowed++
					fmt.Printf("schedule not followed natively: %s\n", x.w.Harness)
					continue
				}
			}
			mismatch++
			if mismatch <= 3 {
				fmt.Printf("encoding mismatch in %s:\n  engine %s\n  native %s\n", x.w.Harness, short(strings.Join(x.w.Obs, " "), 800), short(o.String()+o.raw, 1500))
				b, _ := json.MarshalIndent(x.w, "", " ")
				os.WriteFile(filepath.Join(root, "replays", fmt.Sprintf("%s-mismatch-%d.json", r.prop, mismatch)), b, 0o644)
			}
		}
		if unfollowed > 2 && unfollowed > validated/4 && code != 1 {
			bad("%d sampled schedules could not be followed natively", unfollowed)
		}
		if mismatch > 0 && code != 1 {
			bad("%d of %d sampled paths behave differently natively", mismatch, mismatch+validated)
		}
	}
	// incompleteness and vacuity
	timeout := false
	shown := 0
	for _, k := range sortedKeys(r.incompl) {
		if strings.Contains(k, "time limit") {
			timeout = true
			fmt.Printf("INCOMPLETE: %s\n", k)
			continue
		}
		if shown++; shown <= 4 {
			fmt.Printf("incomplete (%d paths): %s\n", r.incompl[k], short(k, 700))
		}
		if code == 0 {
			bad("the encoding does not cover every path")
		}
	}
	hstats := map[string]interface{}{}
	for _, h := range r.hs {
		st := r.perH[h.name]
		hstats[h.name] = st
		n := 0
		for _, c := range st.Asserts {
			n += c
		}
		if (st.Done == 0 || n == 0) && code == 0 && !timeout {
			bad("harness %s is vacuous: %d paths, %d completed, %d assertions", h.name, st.Paths, st.Done, n)
		}
		for l := range st.Expect {
			if st.Reached[l] == 0 && code == 0 && !timeout {
				bad("harness %s never reached %q", h.name, l)
			}
		}
	}
	// evidence
	samples := append([]interface{}{}, confirmedSamples...)
	for _, w := range pick(r.samples, 4) {
		samples = append(samples, w)
	}
	s := r.stats
	cov := map[string]interface{}{
		"states":                        int(s.Decisions) + s.Paths,
		"transitions":                   s.Steps,
		"traces_validated_against_impl": validated + replayed,
		"samples":                       samples,
		"paths":                         s.Paths,
		"paths_completed":               s.Done,
		"paths_infeasible":              s.Infeasible,
		"solver_queries":                s.Queries,
		"solver_cache_hits":             s.CacheHits,
		"solver_unknown":                s.Unknown,
		"solver_time_s":                 s.SolverTime.Seconds(),
		"longest_query_s":               s.Longest.Seconds(),
		"assertions":                    s.Asserts,
		"assertions_decided_by_solver":  s.AssertQ,
		"assertions_decided_by_rewrite": s.Trivial,
		"branches_forked":               s.Forks,
		"branches_forced":               s.Forced,
		"functions_encoded":             sortedKeys(s.RepoFns),
		"bounds":                        sortedKeys(r.bounds),
		"outside_the_claim":             sortedKeys(r.outside),
		"harnesses":                     hstats,
		"complete":                      !timeout && len(r.incompl) == 0,
		"native_mismatches":             mismatch,
		"unconfirmed":                   unconfirmed,
		"known_findings_seen":           sortedKeys(seenKnown),
		"load_s":                        loadT.Seconds(),
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the engine's Go semantics (SSA interpreter, models of sync/time/atomic/net dialling) and Z3 are trusted; sampled paths are re-run natively and compared",
			"input sizes, numbers of operations and preemptions are bounded as listed under bounds",
		},
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", r.prop+".json"), b, 0o644); err != nil {
		bad("evidence: %v", err)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths (%d completed, %d infeasible), %d assertions (%d by solver), %d queries (%d cached), solver %.1fs, %d functions, validated %d, load %.1fs, wall %.1fs\n", r.prop, r.tier, len(r.hs),
		s.Paths, s.Done, s.Infeasible, s.Asserts, s.AssertQ, s.Queries, s.CacheHits, s.SolverTime.Seconds(), len(s.RepoFns), validated, loadT.Seconds(), time.Since(start).Seconds())
	if r.verbose {
		for _, h := range r.hs {
			st := r.perH[h.name]
			fmt.Printf("  %-40s paths %6d done %6d steps %10d depth %4d  %.1fs\n", h.name, st.Paths, st.Done, st.Steps, st.MaxDepth, st.Time.Seconds())
		}
	}
	return code
}

func printWitness(w *Witness) {
	b, _ := json.Marshal(w)
	fmt.Println("  ", short(string(b), 3000))
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func pick(s []*Witness, n int) []*Witness {
	if len(s) <= n {
		return s
	}
	var out []*Witness
	for i := 0; i < n; i++ {
		out = append(out, s[i*len(s)/n])
	}
	return out
}
