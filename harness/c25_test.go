package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
	"pgregory.net/rapid"
)

// C25: what a player-side runner hands out, against a reference filter.

func init() {
	register(&Prop{ID: "C25", Rule: "at least one handed-out state had something to hide from the player", Gen: genC25, Run: runC25})
}

func genC25(rt *rapid.T) *Plan {
	a := &ActorPlan{Direct: pct(rt, 50, "direct"), Threshold: ri(rt, 0, 3, "thr"), ActionTime: rapid.SampledFrom([]int{0, 1, 5}).Draw(rt, "at")}
	n := ri(rt, 1, 8, "steps")
	for i := 0; i < n; i++ {
		s := AStep{K: "state", DtMs: rapid.SampledFrom([]int{0, 1, 700, 1000, 1500, 6000}).Draw(rt, "dt"), Mess: pct(rt, 40, "mess")}
		if i > 0 {
			s.K = rapid.SampledFrom([]string{"state", "state", "state", "dup", "old", "manual", "sub"}).Draw(rt, "k")
		}
		switch s.K {
		case "state", "old":
			s.Tbl = genATable(rt, []string{"none", "none", "none", "act", "pass", "ready", "ante", "blinds", "nogame"})
			if pct(rt, 45, "status") {
				s.Tbl.Status = rapid.SampledFrom(aStatuses).Draw(rt, "st")
			}
			if s.Tbl.Kind == "none" && pct(rt, 30, "closed") {
				s.Tbl.Event = "GameClosed"
				if pct(rt, 60, "settled") {
					s.Tbl.Status = "table_game_settled"
				}
			}
			if s.Tbl.Kind == "nogame" && (s.Tbl.Status == "table_game_playing" || s.Tbl.Status == "table_game_settled") {
				s.Tbl.Status = "table_game_standby"
			}
		case "manual":
			s.Act = rapid.SampledFrom([]string{"fold", "check", "call", "allin", "raise", "bet", "ready", "pay", "pass"}).Draw(rt, "act")
			s.Chips = int64(ri(rt, 1, 200, "chips"))
		case "sub":
			s.On = pct(rt, 60, "on")
		}
		a.Steps = append(a.Steps, s)
	}
	return &Plan{Mode: "actor", Actor: a}
}

// cleanJSON drops nulls and empty lists, which mean the same.
func cleanJSON(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			if c := cleanJSON(e); c != nil {
				m[k] = c
			}
		}
		return m
	case []any:
		if len(x) == 0 {
			return nil
		}
		l := []any{}
		for _, e := range x {
			l = append(l, cleanJSON(e))
		}
		return l
	}
	return v
}

func toJSONMap(b []byte) map[string]any {
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return m
}

// c25Want is what the player may see of table t; secret counts what is hidden.
func c25Want(t *pokertable.Table) (want any, secret int) {
	m := toJSONMap(mustJSON(t))
	st := m["state"].(map[string]any)
	gs, ok := st["game_state"].(map[string]any)
	if !ok || gs == nil {
		return cleanJSON(m), 0
	}
	me := -1
	for g, i := range t.State.GamePlayerIndexes {
		if t.State.PlayerStates[i].PlayerID == aMe {
			me = g
		}
	}
	delete(gs["meta"].(map[string]any), "deck")
	delete(gs["status"].(map[string]any), "burned")
	closed := t.State.GameState.Status.CurrentEvent == "GameClosed"
	for i, p := range gs["players"].([]any) {
		pm := p.(map[string]any)
		if i == me || (closed && pm["fold"] != true) {
			continue
		}
		secret++
		delete(pm, "hole_cards")
		delete(pm, "combination")
	}
	return cleanJSON(m), secret
}

func diffJSON(path string, a, b any) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	am, ok1 := a.(map[string]any)
	bm, ok2 := b.(map[string]any)
	if ok1 && ok2 {
		for _, k := range allKeys(am, bm) {
			if d := diffJSON(path+"."+k, am[k], bm[k]); d != "" {
				return d
			}
		}
	}
	al, ok1 := a.([]any)
	bl, ok2 := b.([]any)
	if ok1 && ok2 && len(al) == len(bl) {
		for i := range al {
			if d := diffJSON(fmt.Sprintf("%s[%d]", path, i), al[i], bl[i]); d != "" {
				return d
			}
		}
	}
	return fmt.Sprintf("%s is %.120v, expected %.120v", path, a, b)
}

func allKeys(ms ...map[string]any) []string {
	s := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			s[k] = true
		}
	}
	return sortedKeys(s)
}

func c25Scribble(t *pokertable.Table) {
	t.ID, t.Meta.ActionTime, t.State.Status = "scribbled", 999, "table_closed"
	for _, p := range t.State.PlayerStates {
		p.PlayerID, p.Bankroll = "scribbled", -1
		if len(p.Positions) > 0 {
			p.Positions[0] = "scribbled"
		}
	}
	for i := range t.State.GamePlayerIndexes {
		t.State.GamePlayerIndexes[i] = 0
	}
	gs := t.State.GameState
	if gs == nil {
		return
	}
	gs.GameID, gs.UpdatedAt = "scribbled", 1
	gs.Meta.Ante, gs.Meta.Blind = 777, pokerface.BlindSetting{Dealer: 777, SB: 777, BB: 777}
	gs.Status.CurrentEvent, gs.Status.CurrentWager = "AnteRequested", 777
	for i := range gs.Status.Board {
		gs.Status.Board[i] = "XX"
	}
	for _, p := range gs.Players {
		p.AllowedActions, p.StackSize, p.Wager, p.Idx = []string{"pay"}, 777, 777, 0
		p.HoleCards = append(p.HoleCards, "XX")
		for i := range p.Positions {
			p.Positions[i] = "scribbled"
		}
	}
}

type c25Side struct {
	upd   func(*pokertable.Table) error
	pr    *actor.PlayerRunner
	calls []string
	outs  []*pokertable.Table
	snaps [][]byte
}

func runC25(t *testing.T, p *Plan) *Result {
	res := &Result{Classes: map[string]int{}}
	fail := func(f string, a ...any) {
		if res.Viol == nil {
			res.Viol = &Violation{Msg: fmt.Sprintf(f, a...)}
		}
	}
	ap := p.Actor
	synctest.Test(t, func(t *testing.T) {
		start := time.Now()
		since := func() int64 { return time.Since(start).Milliseconds() }
		var mess bool
		var want any
		var got int
		mk := func(twin bool) *c25Side {
			s := &c25Side{pr: actor.NewPlayerRunner(aMe)}
			ad := &recAdapter{me: aMe}
			ad.on = func(kind string, chips int64) error {
				s.calls = append(s.calls, fmt.Sprintf("%s(%d)@%d", kind, chips, since()))
				return nil
			}
			s.upd = wire(s.pr, ad, ap.Direct)
			s.pr.SetSuspendThreshold(ap.Threshold)
			s.pr.OnTableGameWagerActionUpdated(func(tid, gid string, n int, r, act string, c int64) {
				s.calls = append(s.calls, fmt.Sprintf("announce %s %s %d %s %s(%d)@%d", tid, gid, n, r, act, c, since()))
			})
			s.pr.OnTableStateUpdated(func(h *pokertable.Table) {
				if twin {
					return
				}
				got++
				if d := diffJSON("table", cleanJSON(toJSONMap(mustJSON(h))), want); d != "" {
					fail("the handed-out state differs from what the player may see: %s", d)
				}
				if mess {
					c25Scribble(h)
				}
				s.outs = append(s.outs, h)
				s.snaps = append(s.snaps, mustJSON(h))
			})
			return s
		}
		a, b := mk(false), mk(true)
		ins := []*pokertable.Table{}
		inSnaps := [][]byte{}
		game, at := 1, int64(1_000_000_000)
		subscribed := true
		var last *pokertable.Table
		for i, st := range ap.Steps {
			time.Sleep(time.Duration(st.DtMs) * time.Millisecond)
			synctest.Wait()
			mess = st.Mess
			switch st.K {
			case "state", "dup", "old":
				var tb *pokertable.Table
				switch {
				case st.K == "dup" && last != nil:
					tb, _ = last.Clone()
				case st.K == "old":
					tb = st.Tbl.build(game, at-500, ap.ActionTime)
				default:
					if st.Tbl == nil {
						continue
					}
					if st.Tbl.NewGame {
						game++
					}
					at += 1000
					tb = st.Tbl.build(game, at, ap.ActionTime)
				}
				last, _ = tb.Clone()
				tb2, _ := tb.Clone()
				w, secret := c25Want(tb)
				want, got = w, 0
				ins, inSnaps = append(ins, tb), append(inSnaps, mustJSON(tb))
				a.upd(tb)
				b.upd(tb2)
				synctest.Wait()
				if got > 1 {
					fail("step %d: one reported state was handed out %d times", i, got)
				}
				if got == 0 && subscribed {
					fail("step %d: a reported state was not handed out", i)
				}
				if secret > 0 && got > 0 {
					res.NonTriv = true
					res.Classes[string(tb.State.Status)]++
					if tb.GamePlayerIndex(aMe) < 0 {
						res.Classes["observer"]++
					}
				}
				if mess && got > 0 {
					res.Classes["listener scribbles"]++
				}
			case "manual":
				doManual(a.pr, st.Act, st.Chips)
				doManual(b.pr, st.Act, st.Chips)
			case "sub":
				subscribed = st.On
				a.pr.SetEventSubscribed(st.On)
				b.pr.SetEventSubscribed(st.On)
			}
			synctest.Wait()
		}
		time.Sleep(20 * time.Second)
		synctest.Wait()
		for i := range ins {
			if d := diffJSON("table", cleanJSON(toJSONMap(mustJSON(ins[i]))), cleanJSON(toJSONMap(inSnaps[i]))); d != "" {
				fail("the table's own state number %d was altered by the player side: %s", i, d)
			}
		}
		for _, in := range ins {
			c25Scribble(in)
		}
		for i := range a.outs {
			if d := diffJSON("table", cleanJSON(toJSONMap(mustJSON(a.outs[i]))), cleanJSON(toJSONMap(a.snaps[i]))); d != "" {
				fail("handed-out state number %d was altered afterwards: %s", i, d)
			}
		}
		if x, y := strings.Join(a.calls, " "), strings.Join(b.calls, " "); x != y {
			fail("what the listener wrote into its copy changed the runner's behaviour: it did [%s] instead of [%s]", x, y)
		}
		if res.Viol != nil {
			res.Trace = strings.Join(a.calls, "\n")
		}
	})
	res.Sample = fmt.Sprintf("%d steps, %v", len(ap.Steps), res.Classes)
	return res
}

func doManual(pr *actor.PlayerRunner, act string, chips int64) error {
	switch act {
	case "fold":
		return pr.Fold()
	case "check":
		return pr.Check()
	case "call":
		return pr.Call()
	case "allin":
		return pr.Allin()
	case "raise":
		return pr.Raise(chips)
	case "bet":
		return pr.Bet(chips)
	case "ready":
		return pr.Ready()
	case "pay":
		return pr.Pay(chips)
	}
	return pr.Pass()
}
