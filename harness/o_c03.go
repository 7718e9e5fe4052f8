package harness

import (
	"reflect"
	"time"

	"pgregory.net/rapid"
)

// C03: lifecycle of the competition status.
type oC03 struct {
	NopOracle
	started  bool
	settled  int
	endSnap  *CompSnap
	maxPhase int
	lateOps  int
	last     string
}

func phase(s string) int {
	switch s {
	case "registering":
		return 0
	case "delayed_buy_in":
		return 1
	case "stopped_buy_in":
		return 2
	case "end", "auto_end", "force_end":
		return 3
	}
	return -1
}

func (o *oC03) see(w *World, c *CompSnap) {
	ph := phase(c.Status)
	if ph < 0 {
		w.fail("unknown status %q", c.Status)
		return
	}
	if ph < o.maxPhase || (o.maxPhase == 3 && c.Status != o.last) {
		w.fail("status went from %s back to %s", o.last, c.Status)
	}
	o.maxPhase, o.last = ph, c.Status
}

func (o *oC03) Rec(w *World, r *Rec) {
	if r.Comp != nil && (r.Kind == "update" || r.Kind == "state") {
		o.see(w, r.Comp)
	}
	if r.Kind == "state" && r.Name == "Started" {
		if o.started {
			w.fail("the start was announced twice")
		}
		o.started = true
		if phase(r.Comp.Status) == 3 {
			w.fail("started in status %s", r.Comp.Status)
		}
		if r.Comp.StartAt != r.At.Unix() {
			w.fail("started at %d but the recorded start is %d", r.At.Unix(), r.Comp.StartAt)
		}
	}
	if r.Kind == "state" && r.Name == "Settled" {
		o.settled++
		if o.settled > 1 {
			w.fail("the end was announced twice")
		}
		if phase(r.Comp.Status) != 3 {
			w.fail("end announced in status %s", r.Comp.Status)
		}
	}
}

func (o *oC03) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	o.see(w, s.Post)
	c := &w.plan.Cfg
	pre, post := s.Pre, s.Post
	wasStarted := false
	for _, r := range w.recs[:s.From] {
		if r.Kind == "state" && r.Name == "Started" {
			wasStarted = true
			break
		}
	}
	if opDone(s, "start") {
		if wasStarted || pre.ended() {
			w.refused(s, "it was already started or ended")
		} else {
			if s.Err != nil {
				w.fail("start refused: %v", s.Err)
			} else if !o.started || post.StartAt != s.At.Unix() || s.StartAt != s.At.Unix() {
				w.fail("a manual start took no effect")
			}
		}
	}
	if opDone(s, "close") {
		want := "force_end"
		if s.Op.N == 1 {
			want = "end"
		} else if s.Op.N == 2 {
			want = "auto_end"
		}
		if !pre.ended() && post.Status != want {
			w.fail("closing with %s left status %s", want, post.Status)
		}
		if pre.ended() && post.Status != pre.Status {
			w.fail("closing an ended competition changed its status")
		}
	}
	if opDone(s, "initlevel") {
		if pre.Status == "registering" {
			if s.Err != nil {
				w.fail("setting the initial level was refused while registering")
			}
		} else {
			w.refused(s, "the competition is not registering")
		}
	}
	if !pre.ended() && post.ended() {
		if !opDone(s, "close") && post.Status == "force_end" {
			w.fail("the competition force-ended itself")
		}
		o.endSnap = post
		if o.settled != 1 {
			w.fail("the competition ended without (or with more than one) announcement")
		}
	}
	// the disable time
	dis := w.t0.Unix() + int64(c.DisableIn)
	now := time.Now()
	inWin := func(t int64) bool { // the timer at t fired inside this gap
		return s.Kind == "gap" && now.Unix() == t && now.Nanosecond() == 1000000
	}
	if post.DisableAt != dis {
		w.fail("disable time %d, configured %d", post.DisableAt, dis)
	}
	if inWin(dis) && !pre.ended() {
		want := pre.Status == "registering" && len(pre.Players) < c.MinPlayers && (post.Status == "registering" || post.ended())
		if want != (post.Status == "auto_end") {
			w.fail("at the disable time with %d of %d players in status %s the status became %s", len(pre.Players), c.MinPlayers, pre.Status, post.Status)
		}
		w.class("disable-time")
	} else if pre.Status != "auto_end" && post.Status == "auto_end" && !(opDone(s, "close") && s.Op.N == 2) {
		w.fail("auto-ended at %d, the disable time is %d", now.Unix(), dis)
	}
	// a scheduled start
	if c.StartIn >= 0 {
		st := w.t0.Unix() + int64(c.StartIn)
		if inWin(st) && pre.Status == "registering" && !wasStarted && !post.ended() {
			want := w.plan.Mode == "mtt"
			if w.plan.Mode == "ct" {
				t := pre.Tables[0]
				want = t.ready() >= c.MinPlayers
			}
			if want && !o.started {
				w.fail("the scheduled start took no effect (%d players)", len(pre.Players))
			}
			w.class("scheduled-start")
		}
		if o.started && !wasStarted && now.Unix() < st && !opDone(s, "start") {
			w.fail("started %d s before the scheduled start", st-now.Unix())
		}
	}
	// the phase follows the schedule
	if !post.ended() {
		if w.blindAt == 0 {
			if post.Status != "registering" {
				w.fail("status %s before the blinds run", post.Status)
			}
		} else if lv := w.levelAt(now); len(lv) == 1 {
			stop := c.FinalIdx != -2 && (c.FinalIdx == -1 || lv[0] > c.FinalIdx)
			want := "delayed_buy_in"
			if stop {
				want = "stopped_buy_in"
			}
			if post.Status != want {
				w.fail("status %s at level index %d with final buy-in index %d", post.Status, lv[0], c.FinalIdx)
			}
		}
	}
	// an end is final
	if o.endSnap != nil && pre.ended() {
		a, b := o.endSnap, post
		if s.Op != nil && s.Kind == "op" {
			o.lateOps++
			if opDone(s, "buyin", "rebuy", "addon", "start") && s.Err == nil {
				w.fail("%s(%s) was accepted after the end", s.Op.Kind, s.Target)
			}
		}
		if !reflect.DeepEqual(a.Rankings, b.Rankings) {
			w.fail("rankings changed after the end: %v -> %v", a.Rankings, b.Rankings)
		}
		if len(a.Tables) != len(b.Tables) {
			w.fail("the table list changed after the end")
		}
		if w.plan.Mode != "cash" {
			if len(a.Players) != len(b.Players) {
				w.fail("the player list changed after the end")
			} else {
				for i := range a.Players {
					x, y := a.Players[i], b.Players[i]
					if x.PlayerID != y.PlayerID || x.Chips != y.Chips || x.Status != y.Status || x.CompetitionRank != y.CompetitionRank || x.TotalRedeemChips != y.TotalRedeemChips || x.TotalGameCounts != y.TotalGameCounts {
						w.fail("player %s changed after the end: %+v -> %+v", x.PlayerID, x, y)
					}
				}
			}
		}
		for _, r := range w.recs[s.From:s.To] {
			if r.Kind == "call" && (r.Name == "SetUpTableGame" || r.Name == "StartTableGame" || r.Name == "CreateTable") && r.Err == nil {
				w.fail("%s was asked for after the end", r.Name)
			}
		}
		if s.Kind == "op" && opDone(s, "late") && !same(pre, post) {
			w.fail("a late table report changed an ended competition: %s", diffComp(pre, post))
		}
	}
}

func init() {
	simProp("C03", func(rt *rapid.T) *Plan {
		p := genPlan(rt, Prof{Modes: []string{"ct", "mtt", "cash"}, MaxOps: 16, Break: 20, Sched: 40, ShortDur: 15, AdvPct: 15, CloseEnd: true,
			OpW: map[string]int{"buyin": 3, "rebuy": 3, "addon": 1, "start": 2, "close": 1, "initlevel": 2, "late": 4, "resend": 1, "quit": 1, "refund": 0, "refundX": 0}})
		p.TailS = 60
		return p
	}, func() Oracle { return &oC03{} }, "the competition went through at least two phases, and an end was followed by further operations or a phase change, disable time or scheduled start was decided", func(w *World) bool {
		o := w.orcs[0].(*oC03)
		return o.maxPhase >= 1 && (o.lateOps > 0 || w.blindAt > 0 || w.classes["disable-time"]+w.classes["scheduled-start"] > 0)
	})
}
