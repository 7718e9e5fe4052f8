package harness

import (
	"reflect"

	pc "github.com/weedbox/pokercompetition"
	"pgregory.net/rapid"
)

// ---- C04 buy-in ----------------------------------------------------------

type oC04 struct {
	NopOracle
	l          *ledger
	acc, rej   int
	seatedOnce map[string]int
	waitHands  map[string]int
}

func (o *oC04) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	defer func() {
		if w.viol == nil {
			o.l.step(w, s)
			if w.plan.Mode != "cash" && s.Post.Stat.TotalBuyInCount != o.l.buyins {
				w.fail("total buy-in count %d, accepted units sum to %d", s.Post.Stat.TotalBuyInCount, o.l.buyins)
			}
		}
	}()
	if r := w.settleRec(s); r != nil && w.plan.Mode == "mtt" && taken(s, r) && !s.Post.ended() {
		// what was handed to the balancing queue comes out of it
		live := 0
		for i := range s.Post.Players {
			if s.Post.Players[i].Chips > 0 {
				live++
			}
		}
		waitedTooLong(w, s.Post, openTables(s.PostF, w.fake), live, o.waitHands)
	}
	if !opDone(s, "buyin", "rebuy") || s.Pre.find(s.Target) != nil {
		return
	}
	pre, post := s.Pre, s.Post
	ok := s.Chips > 0 && (pre.Status == "registering" || pre.Status == "delayed_buy_in")
	if w.plan.Mode == "ct" {
		n := 0
		for i := range pre.Players {
			if st := pre.Players[i].Status; st == stPlaying || st == stRebuy {
				n++
			}
		}
		ok = ok && len(pre.Tables) > 0 && n < w.plan.Cfg.MaxSeat
	}
	if !ok {
		o.rej++
		w.refused(s, "chips, phase or seats do not allow it")
		return
	}
	o.acc++
	if s.Err != nil {
		w.fail("buy-in of %s refused: %v", s.Target, s.Err)
		return
	}
	p := post.find(s.Target)
	if p == nil || len(post.Players) != len(pre.Players)+1 {
		w.fail("after the buy-in of %s there are %d players, before %d", s.Target, len(post.Players), len(pre.Players))
		return
	}
	if !w.othersSame(s, s.Target, w.plan.Mode == "mtt") {
		return
	}
	want := pc.CompetitionPlayer{PlayerID: s.Target, JoinAt: s.At.Unix(), ReBuyWaitingAt: -1, KnockoutAt: -1, Rank: -1, TableRank: -1, Chips: s.Chips, ReBuyEndAt: -1,
		TotalBuyInUnits: s.Unit, TotalRedeemChips: s.Chips, BestWinningCombo: []string{}}
	got := *p
	want.Status, want.CurrentTableID, want.CurrentSeat, want.CompetitionRank = got.Status, got.CurrentTableID, got.CurrentSeat, got.CompetitionRank
	if !reflect.DeepEqual(want, got) {
		w.fail("buy-in recorded %+v, want %+v", got, want)
		return
	}
	w.announced(s, "CompetitionStatisticUpdated")
	if w.plan.Mode == "mtt" {
		if got.Status != stWaiting && got.Status != stPlaying {
			w.fail("an entered MTT player has status %s", got.Status)
		}
		w.handed(s, got.Status == stPlaying)
	} else {
		if got.Status != stPlaying {
			w.fail("an entered player has status %s", got.Status)
		}
		w.reservedOnce(s, pre)
	}
}

// announced: the operation was published with the player in it.
func (w *World) announced(s *Step, ev string) {
	up, st, pl := false, false, false
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "update" && r.Comp.find(s.Target) != nil {
			up = true
		}
		if r.Kind == "state" && r.Name == ev && r.Comp.find(s.Target) != nil {
			st = true
		}
		if r.Kind == "player" && r.Player.PlayerID == s.Target {
			pl = true
		}
	}
	if !up || !st || !pl {
		w.fail("%s(%s) was not announced (update %v, %s %v, player %v)", s.Op.Kind, s.Target, up, ev, st, pl)
	}
}

// handed: if an MTT player was seated within the step he brought his chips.
func (w *World) handed(s *Step, seated bool) {
	n := 0
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "call" && (r.Name == "CreateTable" || r.Name == "UpdateTablePlayers") {
			for _, j := range r.Join {
				if j.PlayerID == s.Target {
					n++
					if j.RedeemChips != s.Chips {
						w.fail("%s(%s) with %d chips was seated with %d", s.Op.Kind, s.Target, s.Chips, j.RedeemChips)
					}
				}
			}
		}
	}
	if n > 1 || (seated && n != 1) {
		w.fail("%s(%s): seated %d times", s.Op.Kind, s.Target, n)
	}
}

// reservedOnce: exactly one reservation with the paid chips at the table.
func (w *World) reservedOnce(s *Step, pre *CompSnap) {
	rs := w.calls(s, "PlayerReserve")
	if len(rs) != 1 {
		w.fail("%s(%s) made %d reservations", s.Op.Kind, s.Target, len(rs))
		return
	}
	r := rs[0]
	if r.Table != pre.Tables[0].ID || r.Join[0].PlayerID != s.Target || r.Join[0].RedeemChips != s.Chips {
		w.fail("%s(%s) with %d chips reserved %+v at %s", s.Op.Kind, s.Target, s.Chips, r.Join[0], r.Table)
	}
	if w.plan.Mode == "ct" && r.Err != nil {
		w.fail("%s(%s): the table had no seat for an accepted player: %v", s.Op.Kind, s.Target, r.Err)
	}
	if r.Err == nil {
		p := s.Post.find(s.Target)
		t := s.PostF[r.Table]
		if tp := t.find(s.Target); tp == nil || p.CurrentTableID != r.Table || p.CurrentSeat != tp.Seat {
			w.fail("%s(%s): recorded at %s seat %d, the table has %+v", s.Op.Kind, s.Target, p.CurrentTableID, p.CurrentSeat, tp)
		}
	}
}

// ---- C05 re-buy ------------------------------------------------------------

type oC05 struct {
	NopOracle
	l        *ledger
	acc, rej int
	waited   map[string]bool
}

func (o *oC05) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	defer func() {
		if w.viol == nil {
			o.l.step(w, s)
			if w.plan.Mode != "cash" && s.Post.Stat.TotalBuyInCount != o.l.buyins {
				w.fail("total buy-in count %d, accepted units sum to %d", s.Post.Stat.TotalBuyInCount, o.l.buyins)
			}
		}
	}()
	if !opDone(s, "buyin", "rebuy", "topup") {
		return
	}
	p := s.Pre.find(s.Target)
	if p == nil || p.Status == stLeaving {
		return
	}
	pre, post := s.Pre, s.Post
	open := pre.Status == "registering" || pre.Status == "delayed_buy_in"
	ok := s.Chips > 0 && open
	cash := w.plan.Mode == "cash"
	if !cash {
		ok = ok && p.Chips == 0 && p.Status == stRebuy && p.ReBuyTimes < w.plan.Cfg.ReMax
	}
	if !ok {
		o.rej++
		w.refused(s, "player status, chips, limit or phase do not allow it")
		return
	}
	o.acc++
	if s.Err != nil {
		w.fail("re-buy of %s refused: %v (%+v)", s.Target, s.Err, p)
		return
	}
	if len(post.Players) != len(pre.Players) || !w.othersSame(s, s.Target, w.plan.Mode == "mtt") {
		if w.viol == nil {
			w.fail("the re-buy of %s changed the number of players", s.Target)
		}
		return
	}
	want, got := *p, *post.find(s.Target)
	want.Chips = s.Chips
	if cash {
		want.Chips = p.Chips + s.Chips
	} else {
		want.TotalBuyInUnits += s.Unit
	}
	want.ReBuyTimes++
	want.TotalRedeemChips += s.Chips
	want.IsReBuying, want.ReBuyEndAt, want.ReBuyWaitingAt = false, -1, -1
	want.Status, want.CurrentTableID, want.CurrentSeat, want.CompetitionRank = got.Status, got.CurrentTableID, got.CurrentSeat, got.CompetitionRank
	if !reflect.DeepEqual(want, got) {
		w.fail("re-buy recorded %+v, want %+v", got, want)
		return
	}
	w.announced(s, "CompetitionStatisticUpdated")
	if w.plan.Mode == "mtt" {
		if got.Status != stWaiting && got.Status != stPlaying {
			w.fail("a re-entered MTT player has status %s", got.Status)
		}
		if got.Status == stWaiting && (got.CurrentTableID != "" || got.CurrentSeat != -1) {
			w.fail("a waiting MTT player is still recorded at table %q seat %d", got.CurrentTableID, got.CurrentSeat)
		}
		w.handed(s, got.Status == stPlaying)
	} else {
		if got.Status != stPlaying {
			w.fail("a re-entered player has status %s", got.Status)
		}
		w.reservedOnce(s, pre)
	}
}

// ---- C06 add-on --------------------------------------------------------------

type oC06 struct {
	NopOracle
	acc, rej, beErr int
}

func (o *oC06) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	if s.Kind != "op" && s.Post.Stat.TotalAddonCount != s.Pre.Stat.TotalAddonCount {
		w.fail("the total add-on count changed without an add-on")
		return
	}
	if !opDone(s, "addon") {
		return
	}
	pre, post := s.Pre, s.Post
	p := pre.find(s.Target)
	c := &w.plan.Cfg
	ok := s.Chips > 0 && p != nil && p.Chips > 0 && (pre.Status == "delayed_buy_in" || pre.Status == "stopped_buy_in") && p.AddonTimes < c.AddonMax
	if ok {
		lv := c.Levels[pre.CLI]
		ok = lv.Addon && (!c.BreakOnly || lv.Level == -1)
	}
	if !ok {
		o.rej++
		w.refused(s, "player, limit, level or phase do not allow it")
		return
	}
	rs := w.calls(s, "PlayerRedeemChips")
	if len(rs) == 1 && rs[0].Err != nil {
		o.beErr++
		w.refused(s, "the table refused it")
		return
	}
	o.acc++
	if s.Err != nil {
		w.fail("add-on of %s refused: %v", s.Target, s.Err)
		return
	}
	if len(rs) != 1 || rs[0].Table != s.TableID || rs[0].Join[0].PlayerID != s.Target || rs[0].Join[0].RedeemChips != s.Chips {
		w.fail("add-on of %d chips for %s told the table %v", s.Chips, s.Target, rs)
		return
	}
	if !w.othersSame(s, s.Target, false) {
		return
	}
	want, got := *p, *post.find(s.Target)
	want.Chips += s.Chips
	want.TotalRedeemChips += s.Chips
	want.AddonTimes++
	want.CompetitionRank, want.CurrentTableID = got.CompetitionRank, s.TableID
	if !reflect.DeepEqual(want, got) {
		w.fail("add-on recorded %+v, want %+v", got, want)
		return
	}
	u := pre.Stat.TotalAddonCount
	if w.plan.Mode != "cash" {
		u += s.Unit
	}
	if post.Stat.TotalAddonCount != u || post.Stat.TotalBuyInCount != pre.Stat.TotalBuyInCount {
		w.fail("total add-on count %d, want %d (buy-ins %d -> %d)", post.Stat.TotalAddonCount, u, pre.Stat.TotalBuyInCount, post.Stat.TotalBuyInCount)
	}
	w.announced(s, "CompetitionStatisticUpdated")
	if a, b := s.PreF[s.TableID].find(s.Target), s.PostF[s.TableID].find(s.Target); a != nil && (b == nil || b.Bankroll != a.Bankroll+s.Chips) {
		w.fail("the table did not get the add-on chips")
	}
}

// ---- C07 refund ----------------------------------------------------------------

type oC07 struct {
	NopOracle
	acc, rej, again, later int
	gone                   map[string]bool
}

func (o *oC07) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	pre, post := s.Pre, s.Post
	// a refunded player is never seated
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "call" {
			for _, j := range r.Join {
				if o.gone[j.PlayerID] && !(opDone(s, "buyin", "rebuy") && s.Target == j.PlayerID) {
					w.fail("refunded player %s was seated by %s", j.PlayerID, r.Name)
				}
			}
		}
	}
	for id := range o.gone {
		if opDone(s, "buyin", "rebuy") && s.Target == id && s.Err == nil {
			delete(o.gone, id)
			o.again++
			continue
		}
		if post.find(id) != nil {
			w.fail("refunded player %s is back without a buy-in", id)
		}
	}
	if w.plan.Mode != "mtt" {
		for id, t := range s.PostF {
			for _, p := range t.PS {
				if o.gone[p.ID] {
					w.fail("refunded player %s still sits at %s", p.ID, short(id))
				}
			}
		}
	}
	// after everything is said and done, a re-entered id must be seated once
	if w.plan.Mode == "mtt" && !post.ended() {
		n := map[string]int{}
		for _, id := range openTables(s.PostF, w.fake) {
			for _, p := range s.PostF[id].PS {
				n[p.ID]++
				if n[p.ID] > 1 {
					w.fail("player %s sits at two tables", p.ID)
				}
			}
		}
	}
	if opDone(s, "buyin", "rebuy") && s.Err != nil && w.plan.Mode == "ct" && pre.find(s.Target) == nil && s.Chips > 0 && (pre.Status == "registering" || pre.Status == "delayed_buy_in") {
		n := 0
		for i := range pre.Players {
			if pre.Players[i].Status != stKnock {
				n++
			}
		}
		if n < w.plan.Cfg.MaxSeat {
			w.fail("buy-in of %s refused (%v) although only %d of %d places are taken", s.Target, s.Err, n, w.plan.Cfg.MaxSeat)
		}
	}
	if !opDone(s, "refund") {
		return
	}
	p := pre.find(s.Target)
	if p == nil || pre.CLI >= 0 {
		o.rej++
		w.refused(s, "the blinds run or the player does not take part")
		return
	}
	o.acc++
	if s.Err != nil {
		if pre.ended() { // the table has been released
			w.refused(s, "the competition had ended")
			return
		}
		w.fail("refund of %s refused: %v", s.Target, s.Err)
		return
	}
	if post.find(s.Target) != nil || len(post.Players) != len(pre.Players)-1 || !w.othersSame(s, s.Target, false) {
		if w.viol == nil {
			w.fail("refund of %s left %d players of %d", s.Target, len(post.Players), len(pre.Players))
		}
		return
	}
	if w.plan.Mode != "cash" && post.Stat.TotalBuyInCount != pre.Stat.TotalBuyInCount-p.TotalBuyInUnits {
		w.fail("total buy-in count %d after refunding %d units of %d", post.Stat.TotalBuyInCount, p.TotalBuyInUnits, pre.Stat.TotalBuyInCount)
	}
	// the seat release is a table report, upon which a started competition may begin
	if post.Status != pre.Status && !(pre.Status == "registering" && (post.Status == "delayed_buy_in" || post.Status == "stopped_buy_in")) {
		w.fail("a refund changed the status")
	}
	rs := w.calls(s, "PlayersLeave")
	if w.plan.Mode == "ct" || w.plan.Mode == "cash" && p.CurrentSeat != -1 {
		if len(rs) != 1 || rs[0].Table != p.CurrentTableID || len(rs[0].Leave) != 1 || rs[0].Leave[0] != s.Target {
			if !pre.ended() {
				w.fail("refund of %s freed %v", s.Target, rs)
			}
		}
	}
	up, st := false, false
	for _, r := range w.recs[s.From:s.To] {
		up = up || r.Kind == "update" && r.Comp.find(s.Target) == nil
		st = st || r.Kind == "state" && r.Name == "CompetitionStatisticUpdated" && r.Comp.find(s.Target) == nil
	}
	if !up || !st {
		w.fail("the refund of %s was not announced", s.Target)
	}
	o.gone[s.Target] = true
	o.later = len(w.recs)
}

func init() {
	simProp("C04", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt", "cash"}, MaxOps: 18, Break: 15, Sched: 25, MaxPlayers: 12, AdvPct: 10, CloseEnd: true,
			OpW: map[string]int{"buyin": 6, "again": 3, "zero": 2, "rebuy": 3, "addon": 1, "quit": 1, "close": 1, "start": 1}})
	}, func() Oracle { return &oC04{l: newLedger(), waitHands: map[string]int{}} }, "at least two buy-ins were accepted and one was refused", func(w *World) bool {
		o := w.orcs[0].(*oC04)
		w.classes["accepted"], w.classes["refused"] = o.acc, o.rej
		return o.acc >= 2 && o.rej >= 1
	})
	simProp("C05", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "ct", "mtt", "cash"}, MaxOps: 22, Break: 15, Sched: 10, ForceMin: true, ReMax: []int{0, 1, 1, 2, 5}, Final: []int{-2, 100, 100},
			OpW: map[string]int{"buyin": 2, "rebuy": 8, "rebuyX": 3, "topup": 3, "again": 1, "zero": 1, "addon": 1, "quit": 1}})
	}, func() Oracle { return &oC05{l: newLedger()} }, "a re-buy (cash: top-up) was accepted and another was refused", func(w *World) bool {
		o := w.orcs[0].(*oC05)
		w.classes["accepted"], w.classes["refused"] = o.acc, o.rej
		return o.acc >= 1 && (o.rej >= 1 || w.plan.Mode == "cash")
	})
	simProp("C06", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt", "cash"}, MaxOps: 22, Break: 50, Sched: 10, ForceMin: true, CloseEnd: true, AddonPct: 80,
			OpW: map[string]int{"buyin": 1, "rebuy": 2, "addon": 10, "addonX": 3, "close": 0}})
	}, func() Oracle { return &oC06{} }, "an add-on was accepted and another was refused", func(w *World) bool {
		o := w.orcs[0].(*oC06)
		w.classes["accepted"], w.classes["refused"], w.classes["table-refused"] = o.acc, o.rej, o.beErr
		return o.acc >= 1 && o.rej >= 1
	})
	simProp("C07", func(rt *rapid.T) *Plan {
		p := genPlan(rt, Prof{Modes: []string{"ct", "mtt", "mtt", "cash"}, MaxOps: 6, Sched: 40, AdvPct: 5,
			OpW: map[string]int{"buyin": 2, "refund": 4, "refundX": 1, "again": 3, "start": 1, "rebuy": 1}})
		// refunds belong before the start: mix them into the entries
		for i := 0; i < len(p.Ops); i++ {
			if p.Ops[i].Kind == "buyin" && p.Ops[i].N == 0 && pct(rt, 35, "mix") {
				k := rapid.SampledFrom([]string{"refund", "refund", "again"}).Draw(rt, "mixKind")
				o := Op{DtMs: ri(rt, 1, 900, "mdt"), Kind: k, P: ri(rt, 0, 15, "mp"), Chips: 700, Unit: 2}
				if k == "again" {
					o.Kind, o.N = "buyin", 1
				}
				p.Ops = append(p.Ops[:i+1], append([]Op{o}, p.Ops[i+1:]...)...)
				i++
			}
		}
		return p
	}, func() Oracle { return &oC07{gone: map[string]bool{}} }, "a refund was accepted and the history went on (another operation or a hand)", func(w *World) bool {
		o := w.orcs[0].(*oC07)
		w.classes["accepted"], w.classes["refused"], w.classes["re-entered"] = o.acc, o.rej, o.again
		return o.acc >= 1 && o.later > 0 && o.later < len(w.recs)-5
	})
}
