package harness

import (
	"time"

	"pgregory.net/rapid"
)

// C02: every open table plays the blinds of the current level.
type oC02 struct {
	NopOracle
	changes int
	opens   int
}

func (o *oC02) Rec(w *World, r *Rec) {
	if w.viol != nil {
		return
	}
	if (r.Kind == "update" || r.Kind == "state") && r.Comp.CLI >= 0 {
		c := r.Comp
		if !c.ended() {
			if lv := w.levelAt(r.At); !has(lv, c.CLI) {
				w.fail("announcement %s %q carries level index %d, the schedule says %v", r.Kind, r.Name, c.CLI, lv)
			}
		}
		if c.Final != w.plan.Cfg.FinalIdx {
			w.fail("announced final buy-in index %d, configured %d", c.Final, w.plan.Cfg.FinalIdx)
		}
		if r.Kind == "state" && r.Name == "BlindActivated" || c.CLI > w.initIdx() {
			e := w.ends()
			for i := w.initIdx(); i < len(e); i++ {
				if e[i] < 0 {
					if c.EndAts[i] != -1 {
						w.fail("announced end of unlimited level %d is %d", i, c.EndAts[i])
					}
					break
				}
				if c.EndAts[i] != e[i] {
					w.fail("announced end of level %d is %d, the schedule says %d", i, c.EndAts[i], e[i])
				}
			}
		}
		if c.StartAt > 0 && r.Name == "BlindActivated" && r.At.Unix() != w.blindAt {
			w.fail("blind activated twice")
		}
	}
}

func (o *oC02) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "open" {
			o.opens++
			ok := false
			lv := w.levelAt(r.At)
			for _, i := range lv {
				if i >= 0 && w.wantBlind(i) == r.Blind {
					ok = true
				}
			}
			if !ok {
				w.fail("table %s opened hand %d with blinds %+v, level in force %v", short(r.Table), r.Count, r.Blind, lv)
			}
		}
		if r.Kind == "call" && r.Name == "CreateTable" && r.Err == nil && w.blindAt > 0 {
			if lv := w.levelAt(r.At); len(lv) == 1 && r.Blind != w.wantBlind(lv[0]) {
				w.fail("table %s created with blinds %+v, level %d is in force", short(r.Table), r.Blind, lv[0])
			}
		}
	}
	if s.Pre.CLI != s.Post.CLI {
		o.changes++
	}
	if s.Post.CLI < 0 || s.Post.ended() {
		return
	}
	lv := w.levelAt(time.Now())
	if len(lv) != 1 {
		return
	}
	if s.Post.CLI != lv[0] {
		w.fail("current level index %d, the schedule says %d", s.Post.CLI, lv[0])
	}
	want := w.wantBlind(lv[0])
	for _, id := range openTables(s.PostF, w.fake) {
		if got := s.PostF[id].Blind; got != want {
			w.fail("table %s is set to blinds %+v while level index %d needs %+v", short(id), got, lv[0], want)
		}
	}
}

func init() {
	simProp("C02", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt", "mtt", "cash"}, ForceMin: true, MaxOps: 10, Break: 30, Sched: 20, AdvPct: 10,
			OpW: map[string]int{"buyin": 3, "rebuy": 4, "addon": 1, "topup": 1, "cashout": 1, "initlevel": 2, "resend": 2}})
	}, func() Oracle { return &oC02{} }, "the blind level changed at least twice with a table open or a table was created after a level change, and hands were opened", func(w *World) bool {
		o := w.orcs[0].(*oC02)
		return o.changes >= 2 && o.opens > 0
	})
}
