package harness

import (
	"reflect"
	"time"

	"pgregory.net/rapid"
)

func readyMap(t *TableSnap) map[string]int {
	m := map[string]int{}
	for i, p := range t.PS {
		if p.IsIn && p.Bankroll > 0 {
			m[p.ID] = i
		}
	}
	return m
}

// within returns the records between an emission and the return of the
// handler (same table).
func (w *World) within(i int) []*Rec {
	e := w.recs[i]
	for j := i + 1; j < len(w.recs); j++ {
		if w.recs[j].Kind == "emitted" && w.recs[j].Table == e.Table {
			return w.recs[i+1 : j]
		}
	}
	return w.recs[i+1:]
}

// ---- C17 countdown tournaments and cash games ---------------------------------

type oC17 struct {
	NopOracle
	startCalls             int
	due                    time.Time
	dueWhy                 string
	readySince             time.Time
	pausings, reopens      int
	ends, idleCloses, stop int
	lastDue                time.Time
}

func (o *oC17) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	c := &w.plan.Cfg
	pre, post := s.Pre, s.Post
	ct := w.plan.Mode == "ct"
	// start
	for i := s.From; i < s.To; i++ {
		r := w.recs[i]
		if r.Kind == "call" && r.Name == "StartTableGame" && (o.startCalls == 0 || r.TS.Count > 0) {
			o.startCalls++
			if r.TS.ready() < c.MinPlayers {
				w.fail("the table was started with %d seated players with chips, the minimum is %d", r.TS.ready(), c.MinPlayers)
				return
			}
			if ct && r.Comp.StartAt > r.At.Unix() {
				w.fail("the table was started %d s before the start time", r.Comp.StartAt-r.At.Unix())
				return
			}
			if ct && c.StartIn >= 0 && r.At.Unix() < w.t0.Unix()+int64(c.StartIn) && !o.manual(w) {
				w.fail("the table was started before the scheduled start")
				return
			}
			if o.startCalls > 1 {
				w.fail("the table was started again after %d hands", r.TS.Count)
				return
			}
		}
		if r.Kind == "call" && r.Name == "SetUpTableGame" && r.TS != nil {
			if want := readyMap(r.TS); r.TS.Start != -1 && r.Comp != nil && r.TS.Count > 0 && (r.Count != r.TS.Count+1 || !reflect.DeepEqual(r.Parts, want)) {
				w.fail("hand %d was set up with %v; the table has played %d hands and can seat %v", r.Count, r.Parts, r.TS.Count, want)
				return
			}
		}
		if r.Kind == "emit" && r.TS.Status == "table_pausing" && r.Comp != nil && r.Comp.table(r.Table) != nil {
			n := 0
			var call *Rec
			for _, x := range w.within(i) {
				if x.Kind == "call" && x.Name == "SetUpTableGame" {
					n++
					call = x
				}
			}
			o.pausings++
			may := !r.Comp.ended() && !r.Comp.breaking(w.plan) && r.TS.ready() >= c.TableMin
			must := may && (!ct || r.Comp.Status == "delayed_buy_in")
			if r.Comp.Status == "registering" {
				must = false
			}
			if must && n != 1 || !may && n != 0 || n > 1 {
				w.fail("a paused table with %d players ready (minimum %d, status %s, break %v) was set up %d times", r.TS.ready(), c.TableMin, r.Comp.Status, r.Comp.breaking(w.plan), n)
				return
			}
			if n == 1 {
				o.reopens++
				if call.Table != r.Table || call.Count != r.TS.Count+1 || !reflect.DeepEqual(call.Parts, readyMap(r.TS)) {
					w.fail("paused table after %d hands with %v ready is given hand %d with %v", r.TS.Count, readyMap(r.TS), call.Count, call.Parts)
					return
				}
			}
		}
	}
	var tb *TableSnap
	if len(post.Tables) > 0 {
		tb = s.PostF[post.Tables[0].ID]
	}
	if post.Status == "registering" && tb != nil && tb.ready() >= c.MinPlayers && (!ct || s.At.Unix() >= w.t0.Unix()+int64(c.StartIn)) {
		if o.readySince.IsZero() {
			o.readySince = s.At
		}
		if s.At.Sub(o.readySince) > 2*time.Second {
			w.fail("%d of %d required players are seated with chips since %v and play has not begun", tb.ready(), c.MinPlayers, s.At.Sub(o.readySince))
			return
		}
	} else {
		o.readySince = time.Time{}
	}
	// end
	if r := w.settleRec(s); r != nil && taken(s, r) {
		over := r.At.Unix() > r.TS.Start+int64(c.MaxDur)
		few := ct && pre.stopped() && r.TS.alive() < c.TableMin
		if over || few {
			if o.due.IsZero() {
				o.due = s.At
				o.dueWhy = "a hand was settled past the duration"
				if few {
					o.dueWhy = "a hand left fewer than the minimum players after buy-in stopped"
				}
			}
		}
	}
	stopNow := post.stopped() && !pre.stopped() && post.CLI >= 0
	if stopNow && ct && !pre.ended() {
		t := s.PreF[pre.Tables[0].ID]
		o.stop++
		if pre.CLI >= 0 && t.alive() < 2 && !post.ended() {
			w.fail("buy-in stopped with %d stacks at the table and the tournament goes on", t.alive())
			return
		}
	}
	if spontaneousEnd(s) && post.Status != "auto_end" {
		o.ends++
		ok := !o.due.IsZero() && s.At.Sub(o.due) >= 2500*time.Millisecond
		if ct && stopNow && pre.table(pre.Tables[0].ID) != nil && s.PreF[pre.Tables[0].ID].alive() < 2 {
			ok = true
		}
		if ct && pre.StartAt > 0 && s.At.Unix() >= pre.StartAt+int64(c.MaxDur) && len(w.calls(s, "CloseTable")) > 0 {
			ok = true
			o.idleCloses++
		}
		if ct && s.Kind == "autoend" && pre.Status == "stopped_buy_in" {
			ok = true // the table itself reports that it opens no more hands
		}
		if !ok {
			w.fail("ended by itself (%s) without reason; due %v (%s)", s.Kind, o.due.UTC().Format("15:04:05.000"), o.dueWhy)
		}
		return
	}
	if post.ended() {
		return
	}
	if !o.due.IsZero() && s.At.Sub(o.due) > 5*time.Second {
		w.fail("%s %v ago and the competition has not ended", o.dueWhy, s.At.Sub(o.due))
		return
	}
	if ct && pre.StartAt > 0 && pre.CLI >= 0 && !pre.ended() && len(pre.Tables) > 0 {
		end := pre.StartAt + int64(c.MaxDur)
		switch pre.Tables[0].Status {
		case "table_game_opened", "table_game_playing", "table_game_settled", "table_closed":
		default:
			// idle at the end time: the step contains it
			if len(w.steps) > 1 && w.steps[len(w.steps)-2].At.Unix() < end && s.At.UnixMilli() >= end*1000+1 && s.Kind == "gap" {
				w.fail("the idle table was not closed at the end time of the tournament (%s)", pre.Tables[0].Status)
			}
		}
	}
}

func (o *oC17) manual(w *World) bool {
	for _, st := range w.steps {
		if st.Op != nil && st.Kind == "op" && st.Op.Kind == "start" {
			return true
		}
	}
	return false
}

// ---- C18 breaks -------------------------------------------------------------------

type oC18 struct {
	NopOracle
	breaks, resumes, hands int
	checked                int
	idle                   map[int]map[string]*TableSnap // tables at the end of the break
}

func (o *oC18) Rec(w *World, r *Rec) {}

func (o *oC18) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "call" && (r.Name == "SetUpTableGame" || r.Name == "StartTableGame") && r.Comp != nil {
			if r.Comp.breaking(w.plan) {
				w.fail("%s during the break (level index %d)", r.Name, r.Comp.CLI)
				return
			}
			if r.Comp.ended() {
				w.fail("%s after the end", r.Name)
				return
			}
		}
		if r.Kind == "open" && r.Blind.Level == -1 {
			w.fail("a hand was opened with break blinds")
			return
		}
	}
	// the gap steps end 1 ms after every whole second, so the one that
	// contains E+1 s shows the resumption
	if s.Kind != "gap" || w.blindAt == 0 {
		return
	}
	e := w.ends()
	lv := w.plan.Cfg.Levels
	for i := w.initIdx(); i < len(lv)-1; i++ {
		if e[i] < 0 {
			break
		}
		if lv[i].Level != -1 || lv[i+1].Level == -1 {
			continue
		}
		E := e[i]
		if s.At.UnixMilli() < E*1000+2500 || o.idle[i] != nil {
			continue
		}
		o.idle[i] = map[string]*TableSnap{}
		o.breaks++
		o.check(w, s, i, E)
		if w.viol != nil {
			return
		}
	}
}

// check looks at the two seconds after the end E of a break.
func (o *oC18) check(w *World, s *Step, lvl int, E int64) {
	start := E
	for i := lvl; i >= 0 && w.plan.Cfg.Levels[i].Level == -1; i-- {
		start -= int64(w.plan.Cfg.Levels[i].Dur)
	}
	endT := time.Unix(E, 0)
	// the state of the tables at E and when the timers fire (E+1)
	var atE, atR *Step
	for _, x := range w.steps {
		if x.At.Before(endT.Add(2 * time.Millisecond)) {
			atE = x
		}
		if x.At.UnixMilli() < E*1000+1000 {
			atR = x
		}
	}
	if atE == nil || atR == nil || atR.Post.ended() {
		return
	}
	for id, t := range atR.PostF {
		ft := w.fake.tables[id]
		if ft.dead() && !o.aliveAt(w, id, E) {
			continue
		}
		if atR.Post.table(id) == nil {
			continue
		}
		timer, emit, other := 0, 0, 0
		busy := false
		var call *Rec
		for i, r := range w.recs {
			if r.At.Before(endT) || r.Table != id || r.At.UnixMilli() > E*1000+2000 {
				continue
			}
			// starting a table that has been started does nothing
			again := r.TS != nil && r.TS.Start != -1
			first := again && r.TS.Count == 0 && r.TS.Start < E
			if r.Kind == "call" && (r.Name == "SetUpTableGame" && (r.Count > 0 || first) || r.Name == "StartTableGame" && !again) {
				if w.inEmission(i) {
					emit++
				} else {
					timer++
					call = r
				}
			}
			if r.Kind == "settle" || r.Kind == "open" {
				busy = true
			}
			_ = other
		}
		if timer > 1 {
			w.fail("table %s was asked %d times to resume after the break that ended at %s", short(id), timer, endT.UTC().Format("15:04:05"))
			return
		}
		switch t.Status {
		case "table_game_opened", "table_game_playing", "table_game_settled":
			busy = true
		}
		if te := atE.PostF[id]; te == nil || te.Status == "table_game_opened" || te.Status == "table_game_playing" {
			busy = true
		}
		if has2(atR.Post.Adv.UpdatedTableIDs, id) {
			busy = true
		}
		if w.plan.Mode != "mtt" && t.Start == -1 && atR.Post.Status == "registering" {
			continue
		}
		if timer == 1 {
			o.resumes++
			if call.TS.alive() < w.plan.Cfg.TableMin {
				w.fail("table %s with %d stacks (minimum %d) was asked to resume", short(id), call.TS.alive(), w.plan.Cfg.TableMin)
				return
			}
			if call.Name == "SetUpTableGame" && (call.Count != call.TS.Count+1 && !(call.Count == 0 && call.TS.Count == 0) || !reflect.DeepEqual(call.Parts, readyMap(call.TS))) {
				w.fail("table %s resumes hand %d with %v, it has played %d and has %v ready", short(id), call.Count, call.Parts, call.TS.Count, readyMap(call.TS))
				return
			}
		}
		if busy || t.Count == 0 && t.Start >= E { // or it has just started by itself
			continue
		}
		o.checked++
		if t.ready() >= w.plan.Cfg.TableMin && timer+emit == 0 {
			w.fail("table %s (%s, %d hands, %d ready) was not asked to resume within two seconds of the break's end %s", short(id), t.Status, t.Count, t.ready(), endT.UTC().Format("15:04:05"))
			return
		}
	}
}

func (o *oC18) aliveAt(w *World, id string, E int64) bool {
	for _, r := range w.recs {
		if r.Kind == "call" && (r.Name == "CloseTable" || r.Name == "ReleaseTable") && r.Table == id {
			return r.At.Unix() > E+1
		}
	}
	return true
}

func (w *World) inEmission(i int) bool {
	depth := 0
	for j := i - 1; j >= 0; j-- {
		r := w.recs[j]
		if r.Table == w.recs[i].Table && r.Kind == "emitted" {
			depth++
		}
		if r.Table == w.recs[i].Table && r.Kind == "emit" {
			if depth == 0 {
				return true
			}
			depth--
		}
		if w.recs[i].At.Sub(r.At) > time.Second {
			return false
		}
	}
	return false
}

func init() {
	simProp("C17", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "ct", "cash"}, MaxOps: 16, Break: 15, Sched: 30, ForceMin: pct(rt, 70, "fm"), ShortDur: 50, ReMax: []int{0, 0, 1, 2},
			OpW: map[string]int{"buyin": 4, "rebuy": 4, "topup": 1, "cashout": 2, "refund": 1, "quit": 1, "start": 1, "resend": 1}})
	}, func() Oracle { return &oC17{} }, "play began and a paused table was continued or the competition ended by itself", func(w *World) bool {
		o := w.orcs[0].(*oC17)
		w.classes["paused reports"], w.classes["continued"], w.classes["own ends"], w.classes["closed idle"] = o.pausings, o.reopens, o.ends, o.idleCloses
		return o.startCalls > 0 && (o.reopens > 0 || o.ends > 0)
	})
	simProp("C18", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt", "mtt", "cash"}, MaxOps: 14, Break: 100, Sched: 10, ForceMin: true, AdvPct: 5, CashOpen: true, ReMax: []int{0, 1, 2, 5}, Final: []int{-2, 100, 100, 100},
			OpW: map[string]int{"buyin": 5, "rebuy": 6, "cashout": 1, "close": 1, "resend": 1}})
	}, func() Oracle { return &oC18{idle: map[int]map[string]*TableSnap{}} }, "a break ended with an idle open table that could resume", func(w *World) bool {
		o := w.orcs[0].(*oC18)
		w.classes["breaks ended"], w.classes["resumed by timer"], w.classes["idle tables judged"] = o.breaks, o.resumes, o.checked
		return o.resumes > 0
	})
}
