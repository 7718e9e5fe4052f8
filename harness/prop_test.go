//go:debug randseednop=0
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Result of one case.
type Result struct {
	Viol    *Violation
	Classes map[string]int
	NonTriv bool
	Sample  string
	Trace   string
}

type Prop struct {
	ID   string
	Gen  func(rt *rapid.T) *Plan
	Run  func(t *testing.T, p *Plan) *Result
	Rule string // what makes a case non-trivial
	Real bool   // runs in real time, outside a synctest bubble
}

// knownScenarios replay the recorded findings; each returns the failure.
var knownScenarios = map[string]func(t *testing.T) string{}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type stats struct {
	Cases     int
	NonTriv   int
	Distinct  int
	Classes   map[string]int
	Samples   []string
	Rule      string
	Violation string
	Hashes    []uint64 // of the distinct non-trivial plans
	Capped    bool
	WallS     float64
}

var curPlan atomic.Pointer[Plan]

// simProp registers a property decided on simulated competitions.
func simProp(id string, gen func(rt *rapid.T) *Plan, mk func() Oracle, rule string, nontriv func(w *World) bool) {
	register(&Prop{ID: id, Gen: gen, Rule: rule, Run: func(t *testing.T, p *Plan) *Result {
		var w *World
		synctest.Test(t, func(t *testing.T) {
			w = newWorld(p, mk())
			w.run()
		})
		res := &Result{Viol: w.viol, Classes: w.classes}
		res.NonTriv = nontriv(w)
		if w.viol != nil || w.trace || os.Getenv("VERIF_TRACE") != "" {
			res.Trace = w.dump(100000)
		}
		kinds := map[string]int{}
		for _, s := range w.steps {
			if s.Op != nil {
				k := s.Op.Kind
				if s.Err != nil {
					k += "!"
				}
				kinds[k]++
			}
		}
		st := "-"
		if w.lastPost != nil {
			st = w.lastPost.Status
		}
		for _, r := range w.recs {
			if r.Kind == "settle" {
				kinds["hands"]++
			}
		}
		res.Sample = fmt.Sprintf("%s seat=%d min=%d final=%d levels=%d break=%v ops=%v ended=%s", p.Mode, p.Cfg.MaxSeat, p.Cfg.MinPlayers, p.Cfg.FinalIdx, len(p.Cfg.Levels), hasBreak(p), kinds, st)
		if w.lastPost != nil {
			res.Classes["mode:"+p.Mode]++
			res.Classes["status:"+st]++
			res.Classes["hands"] += kinds["hands"]
			res.Classes["ops"] += w.ops
		}
		return res
	}})
}

func hasBreak(p *Plan) bool {
	for _, l := range p.Cfg.Levels {
		if l.Level == -1 {
			return true
		}
	}
	return false
}

func runCase(t *testing.T, pr *Prop, p *Plan) *Result {
	p.Prop = pr.ID
	curPlan.Store(p)
	if f := os.Getenv("VERIF_CUR"); f != "" {
		_ = os.WriteFile(f, mustJSON(p), 0o644)
	}
	heartbeat.Add(1)
	return pr.Run(t, p)
}

func TestProp(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	if id == "" {
		t.Skip("VERIF_PROP not set")
	}
	pr := props[id]
	if pr == nil {
		t.Fatalf("unknown property %q", id)
	}
	realOut := os.Stdout
	if os.Getenv("VERIF_LOUD") == "" {
		os.Stdout = nil
	} // the code under test prints a lot
	defer func() { os.Stdout = realOut }()
	if !pr.Real {
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(2 << 30) // a runaway case must not take the machine with it
	}
	failPath := os.Getenv("VERIF_FAIL")
	go watchdog(failPath)
	start := time.Now()
	st := &stats{Classes: map[string]int{}, Rule: pr.Rule}
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			t.Fatal(err)
		}
		var f failFile
		if err := json.Unmarshal(b, &f); err != nil || f.Plan == nil {
			var p Plan
			if err := json.Unmarshal(b, &p); err != nil {
				t.Fatal(err)
			}
			f.Plan = &p
		}
		res := runCase(t, pr, f.Plan)
		if res.Trace != "" {
			fmt.Fprintln(os.Stderr, res.Trace)
		}
		if res.Viol != nil {
			fmt.Fprintln(os.Stderr, "REPLAY-VIOLATION:", res.Viol.Msg)
			if failPath != "" {
				_ = os.WriteFile(failPath, mustJSON(failFile{Msg: res.Viol.Msg, Plan: f.Plan}), 0o644)
			}
			t.Fail()
		} else {
			fmt.Fprintln(os.Stderr, "REPLAY-OK", res.Sample)
		}
		return
	}
	if k := os.Getenv("VERIF_KNOWN"); k != "" {
		kf := knownScenarios[k]
		if kf == nil {
			t.Fatalf("unknown scenario %q", k)
		}
		if msg := kf(t); msg != "" {
			_ = os.WriteFile(failPath, mustJSON(failFile{Msg: msg}), 0o644)
			t.Fail()
		}
		return
	}
	capS := 3600.0
	if v := os.Getenv("VERIF_CAP_S"); v != "" {
		fmt.Sscanf(v, "%f", &capS)
	}
	seen := map[uint64]bool{}
	failed := false
	every := 1
	defer func() {
		st.Distinct = len(seen)
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		st.WallS = time.Since(start).Seconds()
		if f := os.Getenv("VERIF_OUT"); f != "" {
			_ = os.WriteFile(f, mustJSON(st), 0o644)
		}
	}()
	var ms runtime.MemStats
	runs, gcAt := 0, uint64(300<<20)
	rapid.Check(t, func(rt *rapid.T) {
		if !failed && time.Since(start).Seconds() > capS {
			st.Capped = true
			return
		}
		p := pr.Gen(rt)
		res := runCase(t, pr, p)
		if res.Viol != nil && !pr.Real {
			// the scheduler may split two timers of the same instant once in
			// a while; such a failure does not come back
			if again := runCase(t, pr, p); again.Viol == nil {
				res = again
				res.Classes["failures that did not come back"]++
			}
		}
		// no collection while a case runs: it would disturb the schedule
		if runs++; runs%10 == 0 && !pr.Real {
			if runtime.ReadMemStats(&ms); ms.HeapAlloc > gcAt {
				runtime.GC()
				runtime.ReadMemStats(&ms)
				gcAt = max(300<<20, 2*ms.HeapAlloc)
			}
		}
		if !failed {
			st.Cases++
			for k, v := range res.Classes {
				st.Classes[k] += v
			}
			if res.NonTriv {
				st.NonTriv++
				h := fnv.New64a()
				h.Write(mustJSON(p))
				seen[h.Sum64()>>12] = true
				if len(st.Samples) < 6 && st.NonTriv%every == 0 {
					st.Samples = append(st.Samples, res.Sample)
					every *= 4
				}
			}
		}
		if res.Viol != nil {
			failed = true
			st.Violation = res.Viol.Msg
			if failPath != "" {
				_ = os.WriteFile(failPath, mustJSON(failFile{Msg: res.Viol.Msg, Plan: p, Trace: tail(res.Trace, 60)}), 0o644)
			}
			rt.Fatalf("%s", res.Viol.Msg)
		}
	})
}

type failFile struct {
	Msg   string
	Plan  *Plan
	Trace []string
}

func tail(s string, n int) []string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return l
}

// watchdog reports operations of the code under test that are stuck on a
// mutex or spin forever; it lives outside the virtual-time bubbles.
func watchdog(failPath string) {
	last := heartbeat.Load()
	since := time.Now()
	stuck := 0
	for {
		time.Sleep(2 * time.Second)
		h := heartbeat.Load()
		if h != last {
			last, since, stuck = h, time.Now(), 0
			continue
		}
		if curPlan.Load() == nil || time.Since(since) < 6*time.Second {
			continue
		}
		buf := make([]byte, 4<<20)
		dump := string(buf[:runtime.Stack(buf, true)])
		hit := ""
		for _, g := range strings.Split(dump, "\n\n") {
			if (strings.Contains(g, "sync.(*Mutex)") || strings.Contains(g, "sync.(*RWMutex)")) && strings.Contains(g, "/pokercompetition") && strings.Contains(g, "sync.Mutex.Lock") || strings.Contains(g, "sync.RWMutex") && strings.Contains(g, "pokercompetition") {
				hit = g
				break
			}
		}
		msg := ""
		if hit != "" {
			stuck++
			if stuck >= 3 {
				msg = "the competition is blocked for good: a call never returns (stuck on a lock)\n" + hit
			}
		} else if time.Since(since) > 150*time.Second {
			msg = "the competition is blocked for good: no progress for 150 s"
		}
		if msg != "" {
			if failPath != "" {
				_ = os.WriteFile(failPath, mustJSON(failFile{Msg: msg, Plan: curPlan.Load()}), 0o644)
			}
			fmt.Fprintln(os.Stderr, "WATCHDOG:", msg)
			os.Exit(7)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	k := []string{}
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
