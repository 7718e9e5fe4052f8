package harness

import (
	"reflect"

	"pgregory.net/rapid"
)

// ---- C24 backend failures ---------------------------------------------------------

type oC24 struct {
	NopOracle
	faults, viaErr, viaOp, after, blinds, agree int
	paused                                      map[string]bool
	taint                                       map[string]bool // players whose seat request failed
	byMethod                                    map[string]int
	anyFault                                    bool
	// known finding stale-seat-rebuy: busted players the backend failed to
	// take off their table, and those of them who bought in again
	stranded map[string]string
	doubled  map[string]bool
}

// reported methods: the failures the statement speaks of.
var c24methods = map[string]bool{"CreateTable": true, "PlayerReserve": true, "PlayersLeave": true, "UpdateTablePlayers": true, "PauseTable": true, "CloseTable": true, "UpdateBlind": true, "PlayerRedeemChips": true, "StartTableGame": true}

func (o *oC24) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	pre, post := s.Pre, s.Post
	faultHere := false
	for i := s.From; i < s.To; i++ {
		r := w.recs[i]
		if r.Kind == "call" && r.Name == "UpdateTablePlayers" {
			for _, id := range r.Leave {
				if r.Fault {
					o.stranded[id] = r.Table
				} else if r.Err == nil && o.stranded[id] == r.Table {
					delete(o.stranded, id)
				}
			}
		}
		if r.Kind != "call" || !r.Fault {
			continue
		}
		faultHere = true
		o.faults++
		o.byMethod[r.Name]++
		o.anyFault = true
		for _, j := range r.Join {
			o.taint[j.PlayerID] = true
		}
		if !c24methods[r.Name] {
			continue
		}
		told := false
		for _, x := range w.recs[i+1 : s.To] {
			if x.Kind == "err" && x.Err == errFault {
				told = true
				o.viaErr++
				break
			}
		}
		if !told && s.Op != nil && s.Kind == "op" && s.Done && s.Err != nil {
			told = true
			o.viaOp++
		}
		if !told && s.Kind == "start" && w.createErr != nil {
			told = true
		}
		if !told {
			w.fail("%s failed at the table backend (%s) and nobody was told", r.Name, s.Kind)
			return
		}
	}
	if s.Op != nil && (s.Op.Kind == "rebuy" || s.Op.Kind == "buyin") && (!s.Done || s.Err == nil) && o.stranded[s.Target] != "" {
		o.doubled[s.Target] = true
		w.classes["known: bought in again from a stale seat"]++
	}
	// an operation reported as failed has not happened
	if s.Kind == "op" && s.Done && s.Err != nil && s.Op.Kind != "start" && s.Op.Kind != "close" {
		if !reflect.DeepEqual(pre.Players, post.Players) || !reflect.DeepEqual(pre.Stat, post.Stat) {
			w.fail("%s(%s) failed (%v) and changed the records: %s", s.Op.Kind, s.Target, s.Err, diffComp(pre, post))
			return
		}
		for id, t := range s.PreF {
			u := s.PostF[id]
			if u == nil || len(t.PS) != len(u.PS) {
				w.fail("%s(%s) failed (%v) and changed the seats of table %s", s.Op.Kind, s.Target, s.Err, short(id))
				return
			}
			for i := range t.PS {
				if t.PS[i].ID != u.PS[i].ID || t.PS[i].Bankroll != u.PS[i].Bankroll {
					w.fail("%s(%s) failed (%v) and changed the stacks of table %s", s.Op.Kind, s.Target, s.Err, short(id))
					return
				}
			}
		}
	}
	// only a table that was paused counts as paused for advancing
	for _, r := range w.calls(s, "PauseTable") {
		if r.Err == nil {
			o.paused[r.Table] = true
		}
	}
	for _, id := range post.Adv.UpdatedTableIDs {
		if !o.paused[id] {
			w.fail("table %s counts as paused for advancing and the backend never paused it", short(id))
			return
		}
	}
	// every table hears of the new blinds, whatever happens at another one
	if s.Kind == "gap" && !pre.ended() && !post.ended() && post.CLI > pre.CLI && pre.CLI >= 0 && len(w.kinds(s, "state", "BlindUpdated")) > 0 {
		for _, t := range pre.Tables {
			if post.table(t.ID) == nil || w.fake.tables[t.ID].dead() {
				continue
			}
			told := false
			for _, r := range w.calls(s, "UpdateBlind") {
				told = told || r.Table == t.ID
			}
			if !told {
				w.fail("table %s was not told the new blinds", short(t.ID))
				return
			}
			o.blinds++
		}
	}
	// whoever sits is known and recorded there, and recorded seats exist
	if !post.ended() {
		busy := false
		for _, x := range w.steps {
			if !x.Done {
				busy = true
			}
		}
		if !busy {
			o.agree++
			for _, t := range post.Tables {
				ft := s.PostF[t.ID]
				if ft == nil || w.fake.tables[t.ID].dead() {
					continue
				}
				for _, p := range ft.PS {
					q := post.find(p.ID)
					if q == nil && p.Bankroll > 0 && !o.anyFault && w.plan.Mode != "cash" {
						w.fail("player %s sits at table %s and is not recorded", p.ID, short(t.ID))
						return
					}
					if w.plan.Mode == "mtt" && p.Bankroll > 0 && q != nil && q.CurrentTableID != t.ID && !o.doubled[p.ID] {
						w.fail("player %s sits at table %s and is recorded at %q", p.ID, short(t.ID), q.CurrentTableID)
						return
					}
				}
			}
			if w.plan.Mode == "mtt" {
				for i := range post.Players {
					p := &post.Players[i]
					if p.Status != stPlaying || p.Chips <= 0 || o.doubled[p.PlayerID] {
						continue
					}
					if t := s.PostF[p.CurrentTableID]; t == nil || t.find(p.PlayerID) == nil {
						w.fail("player %s is recorded at table %q and does not sit there", p.PlayerID, p.CurrentTableID)
						return
					}
				}
			}
		}
	}
	// later operations work
	if opDone(s, "buyin") && pre.find(s.Target) == nil && s.Chips > 0 && o.anyFault && !faultHere && (pre.Status == "registering" || pre.Status == "delayed_buy_in") {
		free := w.plan.Mode != "ct"
		if !free && len(pre.Tables) > 0 {
			n := 0
			for i := range pre.Players {
				if st := pre.Players[i].Status; st == stPlaying || st == stRebuy {
					n++
				}
			}
			free = n < w.plan.Cfg.MaxSeat
		}
		if free {
			o.after++
			if s.Err != nil {
				w.fail("after backend failures the buy-in of %s is refused: %v", s.Target, s.Err)
				return
			}
			if len(w.calls(s, "PlayerReserve")) == 0 && w.plan.Mode != "mtt" {
				w.fail("after backend failures the buy-in of %s does not reach the table", s.Target)
				return
			}
		}
	}
	if opDone(s, "refund") && o.anyFault && !faultHere && pre.find(s.Target) != nil && pre.CLI < 0 && !pre.ended() && s.Err != nil && !o.taint[s.Target] && w.plan.Mode != "cash" {
		if t := s.PreF[pre.find(s.Target).CurrentTableID]; t == nil || t.find(s.Target) != nil {
			w.fail("after backend failures the refund of %s is refused: %v", s.Target, s.Err)
		}
	}
}

func (o *oC24) End(w *World) {
	if w.created == (w.createErr != nil) {
		w.fail("creation reported %v, created %v", w.createErr, w.created)
	}
}

func init() {
	simProp("C24", func(rt *rapid.T) *Plan {
		ms := [][]string{{"UpdateTablePlayers", "CreateTable"}, {"PlayersLeave"}, {"PlayerReserve", "PlayersLeave"}, {"CloseTable", "PauseTable"}, {"UpdateBlind"}, {"PlayerRedeemChips"}, {"CreateTable", "PlayerReserve", "PlayersLeave", "UpdateTablePlayers", "PauseTable", "CloseTable", "UpdateBlind", "PlayerRedeemChips", "StartTableGame"}}
		k := ri(rt, 0, len(ms)-1, "faultKind")
		pf := Prof{Modes: []string{"ct", "mtt", "mtt", "cash"}, MaxOps: 16, Break: 15, Sched: 10, ForceMin: pct(rt, 85, "fm"), CashOpen: true, FaultM: ms[k],
			OpW: map[string]int{"buyin": 5, "rebuy": 4, "addon": 4, "addonX": 1, "refund": 1, "quit": 3, "cashout": 2, "close": 0}}
		switch k {
		case 0:
			pf.Modes = []string{"mtt"}
		case 1:
			pf.Modes = []string{"ct", "cash"}
		case 3:
			pf.Modes, pf.AdvPct, pf.Final = []string{"mtt", "mtt", "ct"}, 60, []int{-1, 100, 100}
		case 2:
			pf.OpW["refund"] = 5
		case 5:
			pf.AddonPct = 90
		}
		return genPlan(rt, pf)
	}, func() Oracle {
		return &oC24{taint: map[string]bool{}, paused: map[string]bool{}, stranded: map[string]string{}, doubled: map[string]bool{}, byMethod: map[string]int{}}
	}, "an injected backend failure was hit", func(w *World) bool {
		o := w.orcs[0].(*oC24)
		w.classes["failures"], w.classes["announced"], w.classes["returned"], w.classes["later buy-ins"], w.classes["blind updates"] = o.faults, o.viaErr, o.viaOp, o.after, o.blinds
		for k, v := range o.byMethod {
			w.classes["fault:"+k] = v
		}
		return o.faults > 0
	})
}
