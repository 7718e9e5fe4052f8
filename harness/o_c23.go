//go:build yield

package harness

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"pgregory.net/rapid"
)

// ---- C23 concurrent operations --------------------------------------------------
//
// The code under test is built with a scheduling hook before every statement.
// A group of player operations is started at the same instant on its own
// goroutines of one processor; the schedule decides at which statements the
// running one is held back. The outcome must be that of one of the orders in
// which the operations can be issued one after another, which are tried on
// replayed copies of the same competition.

type sched struct {
	on    bool
	mode  int // 0 random walk, 1 one long pause, 2 two long pauses
	point [2]int
	pct   int
	rnd   rng
	hits  int
	yield int
	live  int // unfinished operations
}

var theSched sched

func (s *sched) hit(int) {
	if !s.on || s.live < 1 {
		return
	}
	s.hits++
	switch s.mode {
	case 0:
		if s.rnd.n(100) < s.pct {
			s.yield++
			runtime.Gosched()
		}
	default:
		for i := 0; i < s.mode; i++ {
			if s.hits == s.point[i] {
				s.yield++
				n := s.live
				for k := 0; k < 3000 && s.live == n; k++ {
					runtime.Gosched()
				}
			}
		}
	}
}

func init() { pc.VerifYield = func(site int) { theSched.hit(site) } }

// concCall is an operation with its target fixed.
type concCall struct {
	name string
	fn   func(e pc.CompetitionEngine) error
}

// concCalls fixes the targets of the group by the state before it.
func concCalls(w *World, ops []Op) []concCall {
	c := snapComp(w.comp)
	out := []concCall{}
	ids := []string{}
	waiting := []string{}
	alive := []string{}
	for i := range c.Players {
		p := &c.Players[i]
		ids = append(ids, p.PlayerID)
		if p.Status == stRebuy {
			waiting = append(waiting, p.PlayerID)
		}
		if p.Chips > 0 && p.CurrentTableID != "" {
			alive = append(alive, p.PlayerID)
		}
	}
	table := ""
	if len(c.Tables) > 0 {
		table = c.Tables[0].ID
	}
	for _, op := range ops {
		op := op
		from := func(l []string) string {
			if len(l) == 0 {
				return "ghost"
			}
			return l[mod(op.P, min(len(l), 3))]
		}
		id := ""
		buy := func(e pc.CompetitionEngine) error {
			return e.PlayerBuyIn(pc.JoinPlayer{PlayerID: id, RedeemChips: op.Chips, Unit: op.Unit})
		}
		switch op.Kind {
		case "new":
			id = fmt.Sprintf("x%d", mod(op.P, 3))
			out = append(out, concCall{"buyin " + id, buy})
		case "rebuy":
			id = from(waiting)
			if id == "ghost" {
				id = from(ids)
			}
			out = append(out, concCall{"rebuy " + id, buy})
		case "topup":
			id = from(alive)
			out = append(out, concCall{"topup " + id, buy})
		case "addon":
			id = from(alive)
			t := table
			if p := c.find(id); p != nil {
				t = p.CurrentTableID
			}
			out = append(out, concCall{"addon " + id, func(e pc.CompetitionEngine) error {
				return e.PlayerAddon(t, pc.JoinPlayer{PlayerID: id, RedeemChips: op.Chips, Unit: op.Unit})
			}})
		case "refund":
			id = from(ids)
			out = append(out, concCall{"refund " + id, func(e pc.CompetitionEngine) error { return e.PlayerRefund(id) }})
		}
	}
	return out
}

// concState is what the operations may determine.
func concState(w *World, from int, errs []error) string {
	b := strings.Builder{}
	for _, e := range errs {
		fmt.Fprintf(&b, "%s\n", errText(e))
	}
	if w.plan.Mode == "mtt" {
		b.WriteString(masked(w))
	} else {
		var m map[string]any
		_ = json.Unmarshal([]byte(norm(w)), &m)
		st, _ := m["state"].(map[string]any)
		delete(m, "update_serial")
		if l, ok := st["tables"].([]any); ok {
			for _, t := range l {
				if q, ok := t.(map[string]any); ok {
					delete(q, "update_serial")
				}
			}
		}
		b.Write(mustJSON(m))
	}
	// the tables: who sits with how much, and the calls they got
	tabs := []string{}
	for _, id := range w.fake.order {
		for _, p := range w.fake.tables[id].T.State.PlayerStates {
			tabs = append(tabs, fmt.Sprintf("%s sits with %d", p.PlayerID, p.Bankroll))
		}
	}
	sort.Strings(tabs)
	fmt.Fprintf(&b, "\n%v\n", tabs)
	calls := []string{}
	for _, r := range w.recs[from:] {
		if r.Kind == "call" && w.plan.Mode != "mtt" {
			calls = append(calls, fmt.Sprintf("%s %v %v", r.Name, r.Join, r.Leave))
		}
		if r.Kind == "cashout" || r.Kind == "rank" {
			calls = append(calls, r.Kind)
		}
		if r.Kind == "err" {
			calls = append(calls, "error "+errText(r.Err))
		}
	}
	sort.Strings(calls)
	fmt.Fprintf(&b, "%v", calls)
	return b.String()
}

type concOut struct {
	pre, post string
	names     []string
	errs      []error
	started   bool
	hits      int
	yields    int
	status    string
	later     string
}

// play replays the competition up to the moment and issues the group, in the
// given order or (order nil) at once.
func play(t *testing.T, p *Plan, order []int) *concOut {
	o := &concOut{}
	synctest.Test(t, func(t *testing.T) {
		w := newWorld(p)
		hands := 0
		w.until = func() bool {
			c := w.lastPost
			n := 0
			for _, r := range w.recs {
				if r.Kind == "settle" {
					n++
				}
			}
			hands = n
			hit := false
			switch p.When {
			case "rebuy":
				for i := range c.Players {
					hit = hit || c.Players[i].Status == stRebuy
				}
			case "addon":
				l := c.CLI
				hit = l >= 0 && l < len(p.Cfg.Levels) && p.Cfg.Levels[l].Addon && hands >= 1
			case "nearfull":
				hit = len(c.Players) == p.Cfg.MaxSeat-1
			case "reg":
				hit = c.CLI < 0 && len(c.Players) >= 3
			case "hand":
				hit = hands >= 1
			}
			return hit && !c.ended()
		}
		cut := false
		u := w.until
		w.until = func() bool { cut = u(); return cut }
		w.runCore()
		if cut && w.viol == nil && !w.loop {
			o.started = true
			synctest.Wait()
			o.status = w.lastPost.Status
			o.pre = concState(w, len(w.recs), nil)
			from := len(w.recs)
			calls := concCalls(w, p.Conc)
			for _, c := range calls {
				o.names = append(o.names, c.name)
			}
			o.errs = make([]error, len(calls))
			if order != nil {
				for _, i := range order {
					i := i
					go func() { o.errs[i] = calls[i].fn(w.eng) }()
					synctest.Wait()
				}
			} else {
				theSched = sched{mode: p.Sched[0], point: [2]int{p.Sched[1], p.Sched[2]}, pct: []int{3, 10, 30, 100}[mod(p.Sched[1], 4)], rnd: rng(p.Sched[3]), live: len(calls)}
				theSched.on = true
				for i := range calls {
					i := i
					go func() {
						o.errs[i] = calls[i].fn(w.eng)
						theSched.live--
					}()
				}
				synctest.Wait()
				theSched.on = false
				o.hits, o.yields = theSched.hits, theSched.yield
				if theSched.live != 0 {
					w.fail("hang")
				}
			}
			o.post = concState(w, from, o.errs)
			// the competition goes on working
			if !w.lastPost.ended() {
				done := false
				go func() {
					_ = w.eng.PlayerBuyIn(pc.JoinPlayer{PlayerID: "x0", RedeemChips: 0, Unit: 1})
					_ = w.eng.PlayerAddon("", pc.JoinPlayer{PlayerID: "ghost"})
					_ = w.eng.PlayerRefund("ghost")
					done = true
				}()
				synctest.Wait()
				if !done {
					o.later = "an operation after the group never returns"
				}
			}
		}
		w.stopped = true
		time.Sleep(48 * time.Hour)
		synctest.Wait()
	})
	return o
}

func perms(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	out := [][]int{}
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C23", Rule: "the group was issued, held back at least once and changed the competition", Gen: func(rt *rapid.T) *Plan {
		when := rapid.SampledFrom([]string{"reg", "reg", "addon", "addon", "rebuy", "rebuy", "nearfull", "hand"}).Draw(rt, "when")
		pf := Prof{Modes: []string{"ct", "mtt", "cash"}, MaxOps: 12, ForceMin: true, CashOpen: true, AddonPct: 60, OpW: map[string]int{"buyin": 8, "rebuy": 1, "addon": 1}}
		switch when {
		case "reg":
			pf.Modes = []string{"ct", "mtt", "mtt"}
		case "nearfull":
			pf.Modes = []string{"ct", "ct", "cash"}
		case "rebuy":
			pf.Modes, pf.ReMax = []string{"ct", "mtt", "cash"}, []int{1, 1, 2}
		case "addon":
			pf.Modes, pf.AddonPct = []string{"ct", "mtt"}, 100
		}
		p := genPlan(rt, pf)
		p.When = when
		p.Faults = nil
		if when == "reg" {
			p.Cfg.MinPlayers = max(p.Cfg.MinPlayers, 5)
			p.Cfg.StartIn = -1
			if p.Mode == "ct" && p.Cfg.MaxSeat < 5 {
				p.Cfg.MaxSeat = 5
			}
		}
		if when == "rebuy" {
			for i := range p.Hands {
				p.Hands[i].Bets = []int{100}
			}
			p.Cfg.ReWait = max(p.Cfg.ReWait, 3)
		}
		if when == "addon" {
			p.Cfg.AddonMax = max(p.Cfg.AddonMax, 1)
			p.Cfg.BreakOnly = false
		}
		p.HorizonS = min(p.HorizonS, 40)
		w := map[string][]string{"reg": {"refund", "refund", "new", "new"}, "addon": {"addon", "addon", "new"}, "rebuy": {"rebuy", "rebuy", "new", "addon"}, "nearfull": {"new", "new", "topup", "refund"}, "hand": {"new", "topup", "addon", "rebuy", "refund"}}[when]
		n := rapid.SampledFrom([]int{2, 2, 2, 3}).Draw(rt, "group")
		for i := 0; i < n; i++ {
			p.Conc = append(p.Conc, Op{Kind: rapid.SampledFrom(w).Draw(rt, "conc"), P: ri(rt, 0, 2, "who"), Chips: int64(100 * ri(rt, 1, 9, "chips")), Unit: ri(rt, 1, 2, "unit")})
		}
		mode := rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(rt, "schedMode")
		p.Sched = []int{mode, ri(rt, 1, rapid.SampledFrom([]int{40, 150, 400}).Draw(rt, "range"), "point"), ri(rt, 1, 400, "point2"), ri(rt, 0, 1<<20, "seed")}
		return p
	}, Run: func(t *testing.T, p *Plan) *Result {
		res := &Result{Classes: map[string]int{}}
		got := play(t, p, nil)
		res.Sample = fmt.Sprintf("%s when=%s %v sched=%v hits=%d held=%d -> %v", p.Mode, p.When, got.names, p.Sched, got.hits, got.yields, got.errs)
		if !got.started {
			res.Classes["moment not reached"]++
			return res
		}
		res.Classes["group "+p.When+" "+p.Mode]++
		res.Classes["statements"] += got.hits
		res.Classes["held back"] += got.yields
		if got.later != "" {
			res.Viol = &Violation{Msg: got.later}
			return res
		}
		changed := got.pre != got.post
		orders := []string{}
		outs := []string{}
		skipped := 0
		ok := false
		for _, pm := range perms(len(got.names)) {
			ref := play(t, p, pm)
			if ref.pre != got.pre || strings.Join(ref.names, ";") != strings.Join(got.names, ";") {
				skipped++
				continue
			}
			if ref.post == got.post {
				ok = true
				break
			}
			orders = append(orders, fmt.Sprint(pm))
			outs = append(outs, ref.post)
		}
		switch {
		case ok:
			res.Classes["explained by an order"]++
		case skipped > 0:
			res.Classes["replay differed (random seating)"]++
		default:
			msg := fmt.Sprintf("%v issued at once returned %v and left something no order leaves", got.names, errsText(got.errs))
			for i := range outs {
				msg += fmt.Sprintf("; order %s differs: %s", orders[i], firstDiff(outs[i], got.post))
			}
			res.Viol = &Violation{Msg: msg}
			res.Trace = got.post
		}
		res.NonTriv = ok && changed && got.yields > 0
		return res
	}})
}

func errsText(l []error) []string {
	o := []string{}
	for _, e := range l {
		o = append(o, errText(e))
	}
	return o
}
