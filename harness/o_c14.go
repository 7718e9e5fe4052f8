package harness

import (
	"fmt"
	"reflect"
	"time"

	"pgregory.net/rapid"
)

// byOp: the competition was ended by a close operation in this step.
func closedByOp(s *Step) bool { return s.Op != nil && s.Kind == "op" && s.Op.Kind == "close" }

func spontaneousEnd(s *Step) bool { return s.Post.ended() && !s.Pre.ended() && !closedByOp(s) }

// ---- C14 placement -----------------------------------------------------------

type oC14 struct {
	NopOracle
	hands, seatings, waits, moves int
	tableTimes                    int
	noTabSince                    time.Time
	waitHands                     map[string]int
	seatedBefore                  map[string]bool
	maxTables                     int
	pausings, reopens             int
}

// paused judges a report of a paused table: with enough players ready, and no break running, it
// is given its next hand, with exactly those players; otherwise it is left alone.
func (o *oC14) paused(w *World, i int, r *Rec) bool {
	n := 0
	var call *Rec
	for _, x := range w.within(i) {
		if x.Kind == "call" && x.Name == "SetUpTableGame" && x.Table == r.Table {
			n++
			call = x
		}
	}
	o.pausings++
	may := !r.Comp.ended() && !r.Comp.breaking(w.plan) && r.TS.ready() >= w.plan.Cfg.TableMin
	if may && n != 1 || !may && n != 0 {
		w.fail("the paused table %s with %d players ready (minimum %d, status %s, break %v) was set up %d times", short(r.Table), r.TS.ready(), w.plan.Cfg.TableMin, r.Comp.Status, r.Comp.breaking(w.plan), n)
		return false
	}
	if n == 1 {
		o.reopens++
		if call.Count != r.TS.Count+1 || !reflect.DeepEqual(call.Parts, readyMap(r.TS)) {
			w.fail("paused table after %d hands with %v ready is given hand %d with %v", r.TS.Count, readyMap(r.TS), call.Count, call.Parts)
			return false
		}
	}
	return true
}

func (o *oC14) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	pre, post := s.Pre, s.Post
	for i := s.From; i < s.To; i++ {
		r := w.recs[i]
		if r.Kind == "emit" && r.TS.Status == "table_pausing" && r.Comp != nil && r.Comp.table(r.Table) != nil && !has2(r.Comp.Adv.UpdatedTableIDs, r.Table) && !o.paused(w, i, r) {
			return
		}
		if r.Kind != "call" || (r.Name != "CreateTable" && r.Name != "UpdateTablePlayers") || len(r.Join) == 0 {
			continue
		}
		o.seatings++
		if r.Err != nil {
			w.fail("%s was asked to seat %d more players (limit %d) and refused: %v", short(r.Table), len(r.Join), w.plan.Cfg.MaxSeat, r.Err)
			return
		}
		if r.Name == "CreateTable" && len(r.Join) > w.plan.Cfg.MaxSeat {
			w.fail("a table of %d seats is created for %d players", w.plan.Cfg.MaxSeat, len(r.Join))
			return
		}
		for _, j := range r.Join {
			cp := r.Comp.find(j.PlayerID)
			if cp == nil || cp.Chips <= 0 || cp.Status == stKnock {
				w.fail("%s seats %s, who is %+v", r.Name, j.PlayerID, cp)
				return
			}
			if o.seatedBefore[j.PlayerID] {
				o.moves++
			}
			o.seatedBefore[j.PlayerID] = true
		}
	}
	if post.ended() {
		return
	}
	at := map[string]string{}
	seat := map[string]int{}
	open := openTables(s.PostF, w.fake)
	if len(open) > o.maxTables {
		o.maxTables = len(open)
	}
	for _, id := range open {
		t := s.PostF[id]
		if len(t.PS) > w.plan.Cfg.MaxSeat {
			w.fail("%s has %d players, the limit is %d", short(id), len(t.PS), w.plan.Cfg.MaxSeat)
			return
		}
		for _, p := range t.PS {
			cp := post.find(p.ID)
			if cp == nil {
				w.fail("%s, who does not take part, sits at %s", p.ID, short(id))
				return
			}
			if cp.Chips <= 0 && !has2(post.Adv.UpdatedTableIDs, id) {
				w.fail("%s without chips (%s) sits at %s", p.ID, cp.Status, short(id))
				return
			}
			if at[p.ID] != "" {
				w.fail("%s sits at %s and at %s", p.ID, short(at[p.ID]), short(id))
				return
			}
			at[p.ID], seat[p.ID] = id, p.Seat
		}
	}
	live, waiting := 0, 0
	for i := range post.Players {
		p := &post.Players[i]
		if p.Chips <= 0 {
			continue
		}
		live++
		switch p.Status {
		case stPlaying:
			if at[p.PlayerID] != p.CurrentTableID || p.CurrentTableID == "" || seat[p.PlayerID] != p.CurrentSeat {
				w.fail("%s is recorded at %q seat %d and sits at %q seat %d", p.PlayerID, short(p.CurrentTableID), p.CurrentSeat, short(at[p.PlayerID]), seat[p.PlayerID])
				return
			}
		case stWaiting:
			waiting++
			if at[p.PlayerID] != "" || p.CurrentTableID != "" || p.CurrentSeat != -1 {
				w.fail("%s is recorded as waiting (table %q, seat %d) and sits at %q", p.PlayerID, short(p.CurrentTableID), p.CurrentSeat, short(at[p.PlayerID]))
				return
			}
		default:
			w.fail("%s with %d chips is %s", p.PlayerID, p.Chips, p.Status)
			return
		}
	}
	if waiting > 0 {
		o.waits++
	}
	// a waiting player is seated once enough players are available
	need := w.plan.Cfg.RegMin
	started := post.CLI >= 0 || post.StartAt > 0 && post.StartAt <= s.At.Unix()
	if len(open) == 0 && started && live >= need && len(post.Players) >= w.plan.Cfg.MinPlayers {
		if o.noTabSince.IsZero() {
			o.noTabSince = s.At
		}
		if s.At.Sub(o.noTabSince) > 3*time.Second {
			w.fail("%d players with chips are available and no table has been opened for %v", live, s.At.Sub(o.noTabSince))
			return
		}
	} else {
		o.noTabSince = time.Time{}
	}
	if r := w.settleRec(s); r != nil && taken(s, r) {
		o.hands++
		waitedTooLong(w, post, open, live, o.waitHands)
	}
	_ = pre
}

// waitedTooLong counts the hands a player waits through although everybody
// fits at the one table left.
func waitedTooLong(w *World, post *CompSnap, open []string, live int, hands map[string]int) {
	for i := range post.Players {
		p := &post.Players[i]
		if p.Status == stWaiting && p.Chips > 0 && len(open) == 1 && live <= w.plan.Cfg.MaxSeat && post.Adv.Status != "updating" && post.Adv.Status != "end" {
			hands[p.PlayerID]++
			if hands[p.PlayerID] > 3 {
				w.fail("%s waited through %d hands although all %d players fit at the only table (%d seats)", p.PlayerID, hands[p.PlayerID], live, w.plan.Cfg.MaxSeat)
			}
		} else {
			delete(hands, p.PlayerID)
		}
	}
}

// ---- C15 tables and the end ------------------------------------------------------

type oC15 struct {
	NopOracle
	started  bool
	created  int
	closedN  int
	due      time.Time
	dueWhy   string
	ends     int
	noTables time.Time
}

func (o *oC15) Rec(w *World, r *Rec) {
	if r.Kind == "state" && r.Name == "Started" {
		o.started = true
	}
}

func (o *oC15) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	pre, post := s.Pre, s.Post
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind != "call" {
			continue
		}
		if r.Name == "CreateTable" && r.Err == nil {
			o.created++
			// the start is announced last, but the start time is set before
			if !(o.started || r.Comp.StartAt > 0 && r.Comp.StartAt <= r.At.Unix()) || len(r.Comp.Players) < w.plan.Cfg.MinPlayers {
				w.fail("a table was opened with %d players (minimum %d), started %v", len(r.Comp.Players), w.plan.Cfg.MinPlayers, o.started)
				return
			}
			if len(r.Join) == 0 {
				w.fail("a table was opened for nobody")
				return
			}
		}
		if r.Name == "CloseTable" && r.Err == nil {
			o.closedN++
			if len(r.TS.PS) > 0 {
				w.fail("%s was closed with %d players", short(r.Table), len(r.TS.PS))
				return
			}
		}
	}
	if !post.ended() {
		for _, t := range pre.Tables {
			if post.table(t.ID) == nil && !w.fake.tables[t.ID].dead() {
				w.fail("open table %s was dropped from the list", short(t.ID))
				return
			}
		}
		for id, t := range s.PostF {
			if w.fake.tables[id].dead() {
				if post.table(id) != nil {
					w.fail("closed table %s is still listed", short(id))
					return
				}
				continue
			}
			if post.table(id) == nil {
				w.fail("open table %s is not listed", short(id))
				return
			}
			if len(t.PS) == 0 {
				w.fail("%s has no players left and is open", short(id))
				return
			}
		}
	}
	open := len(openTables(s.PostF, w.fake))
	if post.ended() {
		if spontaneousEnd(s) && post.Status == "end" {
			o.ends++
			if pre.withChips() > 1 && post.withChips() > 1 && len(openTables(s.PreF, w.fake)) > 0 && pre.Adv.Status != "end" && !(len(pre.Tables) == 0) {
				w.fail("ended by itself with %d players with chips", post.withChips())
			}
		}
		if spontaneousEnd(s) && post.Status == "end" && !post.stopped() {
			w.fail("ended by itself (%d with chips) before buy-in stopped", post.withChips())
		}
		return
	}
	if pre.Status == "delayed_buy_in" && post.stopped() && len(openTables(s.PreF, w.fake)) == 0 && open == 0 && s.Kind == "gap" {
		w.fail("buy-in stopped with no table open (%d players with chips, %d needed for a table) and the tournament goes on", post.withChips(), w.plan.Cfg.RegMin)
		return
	}
	why := ""
	if post.stopped() && post.Status == "stopped_buy_in" {
		if post.withChips() <= 1 && open <= 1 {
			why = fmt.Sprintf("%d player with chips is left at %d table", post.withChips(), open)
		} else if open == 0 && o.created > 0 && post.withChips() < w.plan.Cfg.RegMin {
			why = "no table is left"
		}
	}
	if why == "" {
		o.due, o.dueWhy = time.Time{}, ""
		return
	}
	if o.due.IsZero() {
		o.due, o.dueWhy = s.At, why
	}
	if s.At.Sub(o.due) > 5*time.Second {
		w.fail("%s since %v and the tournament has not ended", o.dueWhy, s.At.Sub(o.due))
	}
}

// ---- C16 advancement -----------------------------------------------------------------

type oC16 struct {
	NopOracle
	asked         int
	paused        map[string]bool
	due           time.Time
	pauses, hands int
	ends          int
	unmet         int
	done          bool
}

func (o *oC16) rule(w *World) bool {
	return w.plan.Cfg.AdvRule == "player_count" || w.plan.Cfg.AdvRule == "blind_level"
}

func (o *oC16) Rec(w *World, r *Rec) {
	if r.Kind != "advance" {
		return
	}
	o.asked++
	c := snapComp(w.comp)
	if w.plan.Cfg.AdvRule != "player_count" {
		w.fail("the advancing number was asked for without the player count rule")
	}
	if !c.stopped() || o.asked > 1 {
		w.fail("the advancing number was asked for %d times (buy-in stopped: %v)", o.asked, c.stopped())
	}
	if r.Rank != c.Stat.TotalBuyInCount {
		w.fail("the advancing number was asked for with %d buy-ins, there were %d", r.Rank, c.Stat.TotalBuyInCount)
	}
}

func (o *oC16) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	pre, post := s.Pre, s.Post
	ps := w.calls(s, "PauseTable")
	if !o.rule(w) && len(ps) > 0 {
		w.fail("table paused without an advancement rule")
		return
	}
	r := w.settleRec(s)
	if r == nil || !taken(s, r) {
		if len(ps) > 0 {
			w.fail("%s paused %s", s.Kind, short(ps[0].Table))
			return
		}
	}
	if post.stopped() && post.Status == "stopped_buy_in" && w.plan.Cfg.AdvRule == "player_count" && o.asked != 1 {
		w.fail("buy-in stopped and the advancing number was asked for %d times", o.asked)
		return
	}
	if post.stopped() && post.Status == "stopped_buy_in" && w.plan.Cfg.AdvRule == "player_count" && post.AdvPlayers != w.plan.Cfg.AdvPlayers {
		w.fail("buy-in stopped, the advancing number asked for is %d, the competition holds %d", w.plan.Cfg.AdvPlayers, post.AdvPlayers)
		return
	}
	allPaused := func() bool {
		open := openTables(s.PostF, w.fake)
		for _, id := range open {
			if !o.paused[id] {
				return false
			}
		}
		return len(open) > 0
	}
	if r != nil && taken(s, r) && o.rule(w) && !o.done {
		o.hands++
		met := false
		if pre.stopped() && pre.Status == "stopped_buy_in" {
			if w.plan.Cfg.AdvRule == "blind_level" {
				met = w.plan.Cfg.Levels[pre.CLI].Level >= w.plan.Cfg.AdvLevel
			} else {
				met = post.withChips() < w.plan.Cfg.AdvPlayers
			}
		}
		n := 0
		for _, p := range ps {
			if p.Table != r.Table {
				w.fail("the hand at %s paused %s", short(r.Table), short(p.Table))
				return
			}
			n++
		}
		if met && n != 1 || !met && n != 0 {
			w.fail("after the hand at %s (buy-in stopped %v, %s, level %d of %d, %d with chips of %d) the table was paused %d times", short(r.Table), pre.stopped(), w.plan.Cfg.AdvRule, w.plan.Cfg.Levels[pre.CLI].Level, w.plan.Cfg.AdvLevel, post.withChips(), w.plan.Cfg.AdvPlayers, n)
			return
		}
		if !met && pre.stopped() {
			o.unmet++
		}
		if met {
			o.pauses++
			o.paused[r.Table] = true
			if !post.ended() && allPaused() {
				o.due, o.done = s.At, true
			}
		}
	}
	if o.rule(w) && !post.ended() {
		ids := map[string]bool{}
		for _, id := range post.Adv.UpdatedTableIDs {
			ids[id] = true
		}
		if !reflect.DeepEqual(ids, o.paused) && len(ids)+len(o.paused) > 0 && !o.done {
			w.fail("advancement lists %v, paused are %v", post.Adv.UpdatedTableIDs, sortedKeys(o.paused))
			return
		}
		if len(ids) > 0 && post.Adv.UpdatedTables != len(ids) {
			w.fail("advancement counts %d paused tables, %d are listed", post.Adv.UpdatedTables, len(ids))
			return
		}
	}
	if !o.due.IsZero() {
		if !post.ended() && s.At.Sub(o.due) > 5*time.Second {
			w.fail("every open table is paused since %v and the tournament has not ended", s.At.Sub(o.due))
		}
	}
	if spontaneousEnd(s) && post.Status == "end" && o.rule(w) {
		o.ends++
		if o.due.IsZero() && pre.withChips() > 1 && len(openTables(s.PreF, w.fake)) > 0 {
			w.fail("ended by itself with %d players with chips; paused %v of %v", pre.withChips(), sortedKeys(o.paused), openTables(s.PreF, w.fake))
		}
	}
}

// saneSeats keeps the minimum size of a new table at or below two thirds of
// the seats: above that the regulator library itself asks for a table with more
// players than seats (known finding KF2).
func saneSeats(p *Plan) {
	if p.Cfg.MaxSeat < 3 {
		p.Cfg.MaxSeat = 3
	}
	if m := (2*p.Cfg.MaxSeat + 1) / 3; p.Cfg.RegMin > m {
		p.Cfg.RegMin = m
	}
}

func init() {
	simProp("C14", func(rt *rapid.T) *Plan {
		p := genPlan(rt, Prof{Modes: []string{"mtt"}, MaxOps: 16, Break: 20, Sched: 20, ForceMin: pct(rt, 80, "fm"), AdvPct: 10, MaxPlayers: 24,
			OpW: map[string]int{"buyin": 6, "rebuy": 5, "rebuyX": 1, "addon": 1, "refund": 1, "again": 1}})
		saneSeats(p)
		return p
	}, func() Oracle { return &oC14{waitHands: map[string]int{}, seatedBefore: map[string]bool{}} }, "at least two tables were open at once and a player was moved to another table", func(w *World) bool {
		o := w.orcs[0].(*oC14)
		w.classes["paused reports"], w.classes["paused tables continued"] = o.pausings, o.reopens
		w.classes["seatings"], w.classes["moves"], w.classes["steps with waiting players"] = o.seatings, o.moves, o.waits
		return o.maxTables >= 2 && o.moves > 0
	})
	simProp("C15", func(rt *rapid.T) *Plan {
		pf := Prof{Modes: []string{"mtt"}, MaxOps: 10, Break: 15, Sched: 20, ForceMin: pct(rt, 80, "fm"), AdvPct: 5, MaxPlayers: 16, ReMax: []int{0, 0, 1, 2}, Final: []int{-1, 100, 100, 100, 100, -2},
			OpW: map[string]int{"buyin": 4, "rebuy": 3, "refund": 1, "again": 1}}
		few := pct(rt, 8, "few")
		if few { // enough players to start, not enough for a table
			pf.MaxPlayers, pf.MaxOps = ri(rt, 3, 7, "fewPlayers"), 2
		}
		p := genPlan(rt, pf)
		if few {
			p.Cfg.MaxSeat, p.Cfg.MinPlayers = 9, ri(rt, 2, 3, "fewMin")
			p.Cfg.RegMin = ri(rt, 4, 9, "fewReg")
		}
		return p
	}, func() Oracle { return &oC15{} }, "a table was closed or the tournament ended by itself", func(w *World) bool {
		o := w.orcs[0].(*oC15)
		w.classes["tables opened"], w.classes["tables closed"], w.classes["own ends"] = o.created, o.closedN, o.ends
		return o.closedN > 0 || o.ends > 0
	})
	simProp("C16", func(rt *rapid.T) *Plan {
		p := genPlan(rt, Prof{Modes: []string{"mtt"}, MaxOps: 8, Break: 15, Sched: 5, ForceMin: true, AdvPct: 95, MaxPlayers: 18, ReMax: []int{0, 0, 1, 2}, Final: []int{-1, 100, 100, 100, 100, 100, -2},
			OpW: map[string]int{"buyin": 4, "rebuy": 4}})
		if p.Cfg.AdvRule == "blind_level" {
			// no break once the advancing level is reached
			hit := false
			for i := range p.Cfg.Levels {
				l := &p.Cfg.Levels[i]
				if l.Level >= p.Cfg.AdvLevel {
					hit = true
				}
				if hit && l.Level == -1 {
					*l = LevelSpec{Level: p.Cfg.Levels[i-1].Level, SB: 5, BB: 10, Ante: 0, Dur: l.Dur}
				}
			}
		}
		return p
	}, func() Oracle { return &oC16{paused: map[string]bool{}} }, "a table was paused for advancement", func(w *World) bool {
		o := w.orcs[0].(*oC16)
		w.classes["pauses"], w.classes["hands short of the rule"], w.classes["ended"] = o.pauses, o.unmet, o.ends
		return o.pauses > 0
	})
}
