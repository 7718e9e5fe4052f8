package harness

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"errors"

	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
	"pgregory.net/rapid"
)

// C26: the player-side runner against a model of it, over histories of table
// states, manual actions, mode switches and waits in virtual time.

func init() {
	register(&Prop{ID: "C26", Rule: "the runner acted for the player at least once, and the history has at least two states asking for a move", Gen: genC26, Run: runC26})
}

func genC26(rt *rapid.T) *Plan {
	a := &ActorPlan{Direct: pct(rt, 50, "direct"), Threshold: ri(rt, 0, 4, "thr"), ActionTime: rapid.SampledFrom([]int{0, 1, 3, 10, 10}).Draw(rt, "at")}
	if a.Mute = pct(rt, 12, "mute"); a.Mute {
		a.Threshold = 1000
	}
	ms := a.ActionTime * 1000
	dts := []int{0, 1, 700, 1000, ms, ms, ms + 1, 2*ms + 1}
	if ms > 0 {
		dts = append(dts, ms-1, ms-1, ms/2)
	}
	kinds := []string{"act", "act", "act", "act", "act", "ready", "ready", "pass", "ante", "blinds", "none", "nogame"}
	tbl := func(k []string) *ATable {
		x := genATable(rt, k)
		if pct(rt, 6, "notPlaying") {
			x.Status = rapid.SampledFrom(aStatuses).Draw(rt, "st")
		}
		if x.Kind == "nogame" && x.Status == "table_game_playing" {
			x.Status = "table_game_standby"
		}
		return x
	}
	n := ri(rt, 1, 14, "steps")
	for i := 0; i < n; i++ {
		s := AStep{K: "state", DtMs: rapid.SampledFrom(dts).Draw(rt, "dt")}
		if i > 0 || pct(rt, 5, "early") {
			s.K = rapid.SampledFrom([]string{"state", "state", "state", "state", "dup", "old", "manual", "manual", "auto", "resume", "wait"}).Draw(rt, "k")
		}
		s.Err = pct(rt, 12, "err")
		switch s.K {
		case "state", "old":
			s.Tbl = tbl(kinds)
		case "manual":
			s.Act = rapid.SampledFrom([]string{"allowed", "allowed", "allowed", "allowed", "allowed", "fold", "check", "call", "call", "allin", "raise", "bet", "ready", "pay", "pass"}).Draw(rt, "act")
			s.Chips = int64(ri(rt, 1, 200, "chips"))
		case "auto":
			s.On = pct(rt, 75, "on")
		}
		if a.ActionTime > 0 && pct(rt, 18, "follow") {
			s.Follow = tbl(kinds)
		}
		a.Steps = append(a.Steps, s)
	}
	return &Plan{Mode: "actor", Actor: a}
}

type c26log struct {
	calls []string // accepted or refused, in order
	ok    []bool
	ann   []string
	on    int
	off   int
}

type c26pend struct {
	due  time.Time
	tb   *pokertable.Table
	flex bool // auto mode was switched on meanwhile: it may act before the deadline
	opt  bool // the hand is gone: it may as well not act
}

// aAuto is the automatic action for the state: ready, check or fold.
func aAuto(tb *pokertable.Table, id string) string {
	p := aMine(tb, id)
	for _, k := range []string{"ready", "check", "fold"} {
		if p != nil && hasStr(p.AllowedActions, k) {
			return k
		}
	}
	return ""
}

// aMine is the player's part of the hand, if he is in it.
func aMine(tb *pokertable.Table, id string) *pokerface.PlayerState {
	if tb == nil || tb.State.GameState == nil {
		return nil
	}
	for g, i := range tb.State.GamePlayerIndexes {
		if tb.State.PlayerStates[i].PlayerID == id {
			return tb.State.GameState.Players[g]
		}
	}
	return nil
}

func runC26(t *testing.T, p *Plan) *Result {
	res := &Result{Classes: map[string]int{}}
	ap := p.Actor
	trace := []string{}
	synctest.Test(t, func(t *testing.T) {
		start := time.Now()
		ms := func() int64 { return time.Since(start).Milliseconds() }
		tr := func(f string, a ...any) { trace = append(trace, fmt.Sprintf("%6dms ", ms())+fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...any) {
			if res.Viol == nil {
				res.Viol = &Violation{Msg: fmt.Sprintf(f, a...)}
				tr("FAIL: "+f, a...)
			}
		}
		pr := actor.NewPlayerRunner(aMe)
		var lg c26log
		refuse := false
		var follow *pokertable.Table   // the table reports it from within the next accepted action
		var followed *pokertable.Table // it did
		canFollow := false
		var upd func(*pokertable.Table) error
		rec := &recAdapter{me: aMe}
		rec.on = func(kind string, chips int64) error {
			tr("table <- %s(%d) refused=%v", kind, chips, refuse)
			lg.calls = append(lg.calls, fmt.Sprintf("%s(%d)", kind, chips))
			lg.ok = append(lg.ok, !refuse)
			if refuse {
				return errors.New("refused")
			}
			if follow != nil && canFollow {
				f := follow
				follow, followed, canFollow = nil, f, false
				c, _ := f.Clone()
				tr("table -> follow-up state: %s", aDesc(f))
				upd(c)
			}
			return nil
		}
		raw := wire(pr, rec, ap.Direct)
		var shown []*pokertable.Table // the reports an announcement made now can refer to
		upd = func(tb *pokertable.Table) error {
			c, _ := tb.Clone()
			shown = append(shown, c)
			return raw(tb)
		}
		tableNow := func() string {
			if len(shown) == 0 {
				return ""
			}
			return shown[len(shown)-1].ID
		}
		pr.SetSuspendThreshold(ap.Threshold)
		if ap.Mute {
			pr.SetEventSubscribed(false)
		}
		pr.OnAutoModeUpdated(func(tid string, on bool) {
			tr("announced auto mode %v (%s)", on, tid)
			if tid != tableNow() {
				fail("auto mode %v is announced for table %q, the player is at %q", on, tid, tableNow())
			}
			if on {
				lg.on++
			} else {
				lg.off++
			}
		})
		amountKnown := true
		var judged *pokertable.Table // the last state that was taken as new
		pr.OnTableGameWagerActionUpdated(func(tid, gid string, n int, r, act string, c int64) {
			tr("announced %s(%d) table %s", act, c, tid)
			lg.ann = append(lg.ann, fmt.Sprintf("%s(%d)", act, c))
			about := len(shown) == 0
			for _, x := range shown {
				g := x.State.GameState
				about = about || (tid == x.ID && n == x.State.GameCount && (g == nil || (gid == g.GameID && r == g.Status.Round)))
			}
			if !about {
				last := shown[len(shown)-1]
				fail("%s(%d) is announced for table %q game %q number %d round %q; the player is at %q, game number %d: %s", act, c, tid, gid, n, r, last.ID, last.State.GameCount, aDesc(last))
			}
		})
		collect := func() c26log {
			synctest.Wait()
			l := lg
			lg = c26log{}
			if k := len(shown); k > 2 {
				shown = shown[k-2:]
			}
			return l
		}
		// the model
		susp, idled, c := false, false, 0
		var lastAt int64
		var cur *pokertable.Table // last fresh state
		var pend *c26pend
		at := time.Duration(ap.ActionTime) * time.Second
		expected := 0
		auto := 0
		// checkLog compares what happened with the expected calls; amounts maps an
		// accepted wager action to its announced amount ("" = any)
		checkLog := func(what string, l c26log, calls []string, ok []bool, amount func(i int) string) {
			if strings.Join(l.calls, " ") != strings.Join(calls, " ") {
				fail("%s: the runner asked the table for [%s], expected [%s]", what, strings.Join(l.calls, " "), strings.Join(calls, " "))
				return
			}
			want := []string{}
			for i, cl := range calls {
				k := cl[:strings.Index(cl, "(")]
				if ok[i] && (k == "check" || k == "fold" || k == "call" || k == "allin" || k == "raise" || k == "bet") {
					want = append(want, amount(i))
				}
			}
			got := append([]string{}, l.ann...)
			for i, w := range want {
				if strings.HasSuffix(w, "(*)") {
					for _, g := range got {
						if strings.HasPrefix(g, w[:len(w)-2]) {
							want[i] = g
						}
					}
				}
			}
			sort.Strings(want)
			sort.Strings(got)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				fail("%s: the runner announced [%s], but the accepted moves are [%s]", what, strings.Join(got, " "), strings.Join(want, " "))
			}
		}
		zero := func(calls []string) func(int) string {
			return func(i int) string { return calls[i] }
		}
		noMode := func(what string, l c26log) {
			if l.on > 0 || l.off > 0 {
				fail("%s: auto mode announced on %d times, off %d times, without a reason", what, l.on, l.off)
			}
		}
		// react: what the model does at a state; returns the calls expected at once
		react := func(tb *pokertable.Table, now time.Time) (calls []string, waits bool) {
			g := tb.State.GameState
			if g != nil {
				if g.UpdatedAt <= lastAt {
					return nil, false
				}
				lastAt = g.UpdatedAt
			}
			cur, amountKnown, judged = tb, true, tb
			me := aMine(tb, aMe)
			if string(tb.State.Status) != "table_game_playing" || me == nil || len(me.AllowedActions) == 0 {
				return nil, false
			}
			expected++
			switch {
			case hasStr(me.AllowedActions, "pass"):
				return []string{"pass(0)"}, false
			case g.Status.CurrentEvent == "AnteRequested":
				return []string{fmt.Sprintf("pay(%d)", g.Meta.Ante)}, false
			case g.Status.CurrentEvent == "BlindsRequested":
				return []string{fmt.Sprintf("pay(%d)", aBlind(g, me))}, false
			}
			if susp {
				if a := aAuto(tb, aMe); a != "" {
					return []string{a + "(0)"}, false
				}
				return nil, false
			}
			pend = &c26pend{due: now.Add(at), tb: tb}
			return nil, true
		}
		needsWait := func(tb *pokertable.Table) bool { return needsWaitIf(tb, susp) }
		// timeout: the pending decision ran out now
		timeout := func(l c26log) {
			pd := pend
			pend = nil
			if pd.opt && len(l.calls) == 0 && followed == nil {
				checkLog("time-out of a move whose hand is gone", l, nil, nil, nil)
				return
			}
			was := susp
			if !susp {
				c++
				idled = true
				switch {
				case l.on > 1:
					fail("auto mode was announced %d times at one time-out", l.on)
				case l.on == 1 && c < ap.Threshold:
					fail("auto mode was entered after %d consecutive time-outs, threshold %d", c, ap.Threshold)
				case l.on == 1:
					susp = true
					res.Classes["suspended by time-outs"]++
				case c > ap.Threshold && !ap.Mute:
					fail("%d consecutive time-outs and auto mode is still off, threshold %d", c, ap.Threshold)
				}
			} else if l.on > 1 {
				fail("auto mode was announced %d times at one time-out", l.on)
			}
			if l.off > 0 {
				fail("auto mode was announced off at a time-out")
			}
			calls, ok := []string{}, []bool{}
			if a := aAuto(pd.tb, aMe); a != "" {
				calls, ok = append(calls, a+"(0)"), append(ok, !refuse)
				auto++
			}
			if f := followed; f != nil {
				followed = nil
				now := pd.due
				if !was && susp && len(l.calls) == len(calls) && needsWaitIf(f, false) {
					// suspension may be decided after the automatic move
					susp = false
					cs, _ := react(f, now)
					susp = true
					calls = append(calls, cs...)
				} else {
					cs, _ := react(f, now)
					calls = append(calls, cs...)
				}
				for len(ok) < len(calls) {
					ok = append(ok, true)
				}
			}
			checkLog("time-out", l, calls, ok, zero(calls))
			res.Classes["time-out"]++
		}
		advance := func(to time.Time) {
			for res.Viol == nil && pend != nil && !pend.due.After(to) {
				if pend.due.After(time.Now()) {
					time.Sleep(pend.due.Sub(time.Now()) - 1)
					l := collect()
					if pend.flex && len(l.calls) > 0 {
						timeout(l)
						continue
					}
					checkLog("before the deadline", l, nil, nil, nil)
					noMode("before the deadline", l)
				}
				canFollow = true
				if d := pend.due.Sub(time.Now()); d > 0 {
					time.Sleep(d)
				}
				l := collect()
				canFollow = false
				timeout(l)
			}
			if d := to.Sub(time.Now()); d > 0 {
				canFollow = pend != nil && pend.flex
				time.Sleep(d)
				l := collect()
				canFollow = false
				checkLog("nothing is due", l, nil, nil, nil)
				noMode("nothing is due", l)
			}
		}
		game, serial := 1, int64(1_000_000_000)
		mk := func(x *ATable) *pokertable.Table {
			if x.NewGame {
				game++
			}
			serial += 1000
			return x.build(game, serial, ap.ActionTime)
		}
		var lastTb *pokertable.Table
		for i, st := range ap.Steps {
			advance(time.Now().Add(time.Duration(st.DtMs) * time.Millisecond))
			if res.Viol != nil {
				break
			}
			what := fmt.Sprintf("step %d (%s)", i, st.K)
			switch st.K {
			case "state", "dup", "old":
				var tb *pokertable.Table
				switch {
				case st.K == "dup":
					if lastTb == nil {
						continue
					}
					tb = lastTb
					amountKnown = tb.State.GameState == nil || tb == judged
				case st.K == "old":
					tb = st.Tbl.build(game, serial-500, ap.ActionTime)
					amountKnown = false
				default:
					tb = mk(st.Tbl)
				}
				if pend != nil && tb.State.GameState == nil {
					pend.opt = true
					res.Classes["hand gone while a move is pending"]++
				}
				if st.K == "state" && pend != nil && !needsWait(tb) && tb.State.GameState != nil {
					// a newer state that needs no waiting: let the pending move resolve first
					tr("waiting for the pending move")
					advance(pend.due)
					for pend != nil && res.Viol == nil {
						advance(pend.due)
					}
					if res.Viol != nil {
						break
					}
					if tb.State.GameState != nil && tb.State.GameState.UpdatedAt <= lastAt {
						tb = mk(st.Tbl)
					}
				}
				refuse = st.Err
				follow = nil
				if st.Follow != nil && !refuse {
					follow = mk(st.Follow)
				}
				lastTb, _ = tb.Clone()
				model, _ := tb.Clone()
				tr("table -> %s", aDesc(tb))
				had := pend
				calls, waits := react(model, time.Now())
				if waits && had != nil {
					res.Classes["a newer state replaces the pending move"]++
				}
				upd(tb)
				l := collect()
				if waits && at == 0 {
					timeout(l)
					break
				}
				ok := []bool{}
				for range calls {
					ok = append(ok, !refuse)
				}
				if len(calls) > 0 {
					auto++
				}
				checkLog(what, l, calls, ok, zero(calls))
				noMode(what, l)
			case "manual":
				if st.Act == "allowed" {
					st.Act = "check"
					if me := aMine(cur, aMe); me != nil && len(me.AllowedActions) > 0 {
						st.Act = me.AllowedActions[int(st.Chips)%len(me.AllowedActions)]
					}
				}
				refuse = st.Err
				follow, followed, canFollow = nil, nil, false
				if st.Follow != nil && !refuse {
					follow, canFollow = mk(st.Follow), true
				}
				before, known := cur, amountKnown
				tr("player: %s %d", st.Act, st.Chips)
				wasSusp := susp
				if st.Act == "fold" {
					susp = false
					c = 0
				}
				err := doManual(pr, st.Act, st.Chips)
				l := collect()
				if (err != nil) != refuse {
					fail("%s: manual %s returned %v, table refused: %v", what, st.Act, err, refuse)
				}
				chips := int64(0)
				if st.Act == "raise" || st.Act == "bet" || st.Act == "pay" {
					chips = st.Chips
				}
				calls, ok := []string{fmt.Sprintf("%s(%d)", st.Act, chips)}, []bool{!refuse}
				if !refuse {
					pend = nil
					c = 0
				}
				if f := followed; f != nil {
					followed = nil
					cs, _ := react(f, time.Now())
					calls = append(calls, cs...)
					for range cs {
						ok = append(ok, true)
					}
					res.Classes["state reported from within a manual action"]++
				}
				checkLog(what, l, calls, ok, func(i int) string {
					if i > 0 || (st.Act != "call" && st.Act != "allin") {
						return calls[i]
					}
					me := aMine(before, aMe)
					if me == nil || !known || !hasStr(me.AllowedActions, st.Act) {
						return st.Act + "(*)"
					}
					res.Classes["amount of "+st.Act]++
					if st.Act == "allin" {
						return fmt.Sprintf("allin(%d)", me.StackSize)
					}
					return fmt.Sprintf("call(%d)", aCall(before.State.GameState, me))
				})
				if l.on > 0 {
					fail("%s: auto mode announced on at a manual action", what)
				}
				if st.Act == "fold" {
					modeOff(fail, what, l, wasSusp && !ap.Mute)
					idled = false
				} else if l.off > 0 {
					fail("%s: auto mode announced off", what)
				}
				res.Classes["manual"]++
			case "auto", "resume":
				refuse = st.Err
				follow = nil
				on := st.K == "auto" && st.On
				wasSusp := susp
				if on {
					canFollow = true
					if st.Follow != nil && !refuse {
						follow = mk(st.Follow)
					}
				}
				tr("player: auto mode %v", on)
				if st.K == "auto" {
					pr.AutoMode(st.On)
				} else {
					pr.Resume()
				}
				l := collect()
				canFollow = false
				susp = on
				if on {
					if l.off > 0 || l.on > 1 || (l.on == 0 && !wasSusp && !ap.Mute) || (ap.Mute && l.on > 0) {
						fail("%s: auto mode switched on, announced on %d times, off %d times", what, l.on, l.off)
					}
					if pend != nil {
						pend.flex = true
						res.Classes["auto mode switched on while a move is pending"]++
						if len(l.calls) > 0 {
							l.on, l.off = 0, 0
							timeout(l)
							break
						}
					}
				} else {
					modeOff(fail, what, l, wasSusp && !ap.Mute)
					c, idled = 0, false
				}
				checkLog(what, l, nil, nil, nil)
			}
			if res.Viol != nil {
				break
			}
			if tid, on := pr.IsAutoMode(); tid != tableNow() || (susp && !on) || (on && !susp && !idled) {
				fail("%s: the runner says auto mode %v at table %q; the player is at %q, suspended %v, has timed out %v", what, on, tid, tableNow(), susp, idled)
			}
		}
		for k := 0; k < 4 && pend != nil && res.Viol == nil; k++ {
			advance(pend.due)
		}
		if res.Viol == nil {
			advance(time.Now().Add(30 * time.Second))
		}
		res.NonTriv = auto > 0 && expected > 1
	})
	if res.Viol != nil {
		res.Trace = strings.Join(trace, "\n")
	}
	res.Sample = fmt.Sprintf("threshold %d, action time %d s, %d steps, %v", ap.Threshold, ap.ActionTime, len(ap.Steps), res.Classes)
	return res
}

// needsWaitIf: the state asks for a move the runner waits for.
func needsWaitIf(tb *pokertable.Table, susp bool) bool {
	me := aMine(tb, aMe)
	if susp || string(tb.State.Status) != "table_game_playing" || me == nil || len(me.AllowedActions) == 0 || hasStr(me.AllowedActions, "pass") {
		return false
	}
	e := tb.State.GameState.Status.CurrentEvent
	return e != "AnteRequested" && e != "BlindsRequested"
}

func modeOff(fail func(string, ...any), what string, l c26log, must bool) {
	if l.on > 0 || l.off > 1 || (must && l.off == 0) {
		fail("%s: auto mode switched off, announced on %d times, off %d times", what, l.on, l.off)
	}
}

func aDesc(tb *pokertable.Table) string {
	x := fmt.Sprintf("%s", tb.State.Status)
	if g := tb.State.GameState; g != nil {
		x += fmt.Sprintf(" %s %s at %d, wager %d", g.GameID, g.Status.CurrentEvent, g.UpdatedAt, g.Status.CurrentWager)
		if me := aMine(tb, aMe); me != nil {
			x += fmt.Sprintf(", me: %v pos %v stack %d wager %d", me.AllowedActions, me.Positions, me.StackSize, me.Wager)
		} else {
			x += ", me not in the hand"
		}
	}
	return x
}
