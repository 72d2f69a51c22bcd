package h

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"testing"
	"testing/synctest"

	"verif/harness/vx"
)

var registry map[string]func()

type witness struct {
	Harness string     `json:"harness"`
	Tier    string     `json:"tier"`
	Inputs  []vx.Input `json:"inputs"`
	Gates   []string   `json:"gates"`
}

type outcome struct {
	Failed  []string `json:"failed"`
	Diverge string   `json:"diverge"`
	Obs     []string `json:"obs"`
	Panic   string   `json:"panic"`
	Done    bool     `json:"done"`
}

// TestReplay runs one harness natively on a recorded witness, in a bubble of virtual time.
func TestReplay(t *testing.T) {
	in := os.Getenv("VX_IN")
	if in == "" {
		t.Skip("no witness")
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	w := witness{}
	if err := json.Unmarshal(b, &w); err != nil {
		t.Fatal(err)
	}
	f := registry[w.Harness]
	if f == nil {
		t.Fatal("unknown harness " + w.Harness)
	}
	synctest.Test(t, func(t *testing.T) {
		r := vx.Start(w.Inputs, w.Gates, w.Tier)
		r.IdleFn = synctest.Wait
		o := outcome{}
		r.OnFail = func(l []string) { // in case the rest hangs
			b, _ := json.Marshal(outcome{Failed: l})
			os.WriteFile(os.Getenv("VX_OUT"), b, 0o644)
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(vx.StopSignal); !ok {
						o.Panic = fmt.Sprint(x) + "\n" + string(debug.Stack())
					}
				}
			}()
			f()
		}()
		o.Failed, o.Diverge, o.Obs, o.Done = r.Failed, r.Diverge, r.Trace, true
		b, _ := json.Marshal(o)
		if err := os.WriteFile(os.Getenv("VX_OUT"), b, 0o644); err != nil {
			panic(err)
		}
		os.Exit(0)
	})
}
