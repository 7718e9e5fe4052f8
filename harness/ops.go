package harness

import (
	"fmt"
	"sort"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

// resolve turns a plan operation into a call on the engine, choosing targets
// relative to the current state so that any plan is executable.
func (w *World) resolve(s *Step, op *Op) func() error {
	c := s.Pre
	pick := func(f func(p *pc.CompetitionPlayer) bool) *pc.CompetitionPlayer {
		l := []*pc.CompetitionPlayer{}
		for i := range c.Players {
			if f(&c.Players[i]) {
				l = append(l, &c.Players[i])
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[mod(op.P, len(l))]
	}
	any := func(*pc.CompetitionPlayer) bool { return true }
	tid := ""
	if len(c.Tables) > 0 {
		tid = c.Tables[mod(op.N, len(c.Tables))].ID
	}
	s.Chips, s.Unit = op.Chips, op.Unit
	e := w.eng
	switch op.Kind {
	case "buyin": // a new player (or, with N=1, a returning id)
		id := fmt.Sprintf("p%02d", w.newID)
		if op.N == 1 && len(w.ids) > 0 {
			id = w.ids[mod(op.P, len(w.ids))]
		} else {
			w.newID++
			w.ids = append(w.ids, id)
		}
		s.Target = id
		return func() error { return e.PlayerBuyIn(pc.JoinPlayer{PlayerID: id, RedeemChips: op.Chips, Unit: op.Unit}) }
	case "rebuy":
		p := pick(func(p *pc.CompetitionPlayer) bool { return p.Status == pc.CompetitionPlayerStatus_ReBuyWaiting })
		if p == nil && op.N == 1 {
			p = pick(any)
		}
		if p == nil {
			return nil
		}
		s.Target = p.PlayerID
		return func() error {
			return e.PlayerBuyIn(pc.JoinPlayer{PlayerID: s.Target, RedeemChips: op.Chips, Unit: op.Unit})
		}
	case "topup": // cash: buy-in of a seated player
		p := pick(func(p *pc.CompetitionPlayer) bool { return p.Status == pc.CompetitionPlayerStatus_Playing })
		if p == nil {
			return nil
		}
		s.Target = p.PlayerID
		return func() error {
			return e.PlayerBuyIn(pc.JoinPlayer{PlayerID: s.Target, RedeemChips: op.Chips, Unit: op.Unit})
		}
	case "addon":
		p := pick(func(p *pc.CompetitionPlayer) bool { return p.Chips > 0 && p.CurrentTableID != "" })
		if op.N == 1 || p == nil {
			p = pick(any)
		}
		s.Target = "ghost"
		s.TableID = tid
		if p != nil {
			s.Target = p.PlayerID
			if p.CurrentTableID != "" {
				s.TableID = p.CurrentTableID
			}
		}
		switch op.N {
		case 2:
			s.TableID = "no-such-table"
		case 3: // a table of the competition, perhaps another one than the player's
			if len(c.Tables) > 0 {
				s.TableID = c.Tables[mod(op.Unit+op.P, len(c.Tables))].ID
			}
		}
		return func() error {
			return e.PlayerAddon(s.TableID, pc.JoinPlayer{PlayerID: s.Target, RedeemChips: op.Chips, Unit: op.Unit})
		}
	case "refund":
		p := pick(any)
		s.Target = "ghost"
		if p != nil && op.N != 1 {
			s.Target = p.PlayerID
		}
		return func() error { return e.PlayerRefund(s.Target) }
	case "quit":
		p := pick(func(p *pc.CompetitionPlayer) bool {
			return p.Status == pc.CompetitionPlayerStatus_ReBuyWaiting && p.Chips == 0
		})
		s.Target, s.TableID = "ghost", tid
		if p == nil {
			if op.N == 0 && w.plan.Mode == "ct" {
				return nil
			}
		} else {
			s.Target = p.PlayerID
		}
		if op.N == 1 {
			s.TableID = "no-such-table"
		} else if len(c.Tables) > 0 {
			s.TableID = c.Tables[0].ID
		}
		return func() error { return e.PlayerQuit(s.TableID, s.Target) }
	case "cashout":
		p := pick(func(p *pc.CompetitionPlayer) bool { return p.Status != pc.CompetitionPlayerStatus_CashLeaving })
		s.Target, s.TableID = "ghost", tid
		if p != nil && op.N != 1 {
			s.Target = p.PlayerID
		}
		if op.N == 2 {
			s.TableID = "no-such-table"
		} else if len(c.Tables) > 0 {
			s.TableID = c.Tables[0].ID
		}
		return func() error { return e.PlayerCashOut(s.TableID, s.Target) }
	case "start":
		return func() error {
			at, err := e.StartCompetition()
			s.StartAt = at
			return err
		}
	case "close":
		st := pc.CompetitionStateStatus_ForceEnd
		if op.N == 1 {
			st = pc.CompetitionStateStatus_End
		}
		if op.N == 2 {
			st = pc.CompetitionStateStatus_AutoEnd
		}
		return func() error { return e.CloseCompetition(st) }
	case "initlevel":
		return func() error { return e.UpdateCompetitionBlindInitialLevel(op.N) }
	case "dup": // the backend reports the last settled hand again
		t := w.pickSettled(op.P)
		if t == nil {
			return nil
		}
		s.TableID = t.ID
		return func() error { e.UpdateTable(cloneTable(t)); return nil }
	case "unknown": // update of a table the competition does not have
		w.opJSON = mustJSON(w.comp)
		return func() error {
			t := &pokertable.Table{ID: "stranger", State: &pokertable.TableState{Status: pokertable.TableStateStatus_TableGameSettled, BlindState: &pokertable.TableBlindState{}}}
			for _, ft := range w.fake.tables {
				t = cloneTable(ft.T)
				break
			}
			t.ID = "stranger"
			t.State.Status = []pokertable.TableStateStatus{pokertable.TableStateStatus_TableClosed, pokertable.TableStateStatus_TablePausing, pokertable.TableStateStatus_TableCreated}[mod(op.P, 3)]
			e.UpdateTable(t)
			return nil
		}
	case "mutate": // the reporter scribbles over the object it reported
		ids := []string{}
		for id := range w.fake.lastSent {
			ids = append(ids, id)
		}
		if len(ids) == 0 {
			return nil
		}
		sort.Strings(ids)
		s.TableID = ids[mod(op.P, len(ids))]
		t := w.fake.lastSent[s.TableID]
		w.opJSON = mustJSON(w.comp)
		return func() error {
			t.State.Status = pokertable.TableStateStatus_TableRestoring
			t.State.GameCount += 1000
			if t.State.BlindState != nil {
				t.State.BlindState.Level += 77
			}
			for _, p := range t.State.PlayerStates {
				p.Bankroll += 12345
				p.PlayerID = "scribble"
				p.IsIn = !p.IsIn
			}
			for i := range t.State.SeatMap {
				t.State.SeatMap[i] = 99
			}
			if t.State.GameState != nil {
				for _, p := range t.State.GameState.Players {
					p.Bankroll += 7
					if p.Combination != nil && len(p.Combination.Cards) > 0 {
						p.Combination.Cards[0] = "XX"
					}
				}
			}
			return nil
		}
	case "resend", "late": // the backend reports a table's unchanged current state again
		ids := []string{}
		if op.Kind == "late" { // a late report, after the end
			if len(w.fake.order) == 0 || !c.ended() {
				return nil
			}
			id := w.fake.order[mod(op.P, len(w.fake.order))]
			s.TableID = id
			return func() error {
				t := cloneTable(w.fake.tables[id].T)
				t.State.Status = []pokertable.TableStateStatus{pokertable.TableStateStatus_TableClosed, pokertable.TableStateStatus_TablePausing, pokertable.TableStateStatus_TableCreated, pokertable.TableStateStatus_TableGameStandby}[mod(int(op.Chips), 4)]
				e.UpdateTable(t)
				return nil
			}
		}
		for _, id := range w.fake.order {
			if !w.fake.tables[id].dead() {
				ids = append(ids, id)
			}
		}
		if len(ids) == 0 {
			return nil
		}
		s.TableID = ids[mod(op.P, len(ids))]
		return func() error { w.fake.emit(w.fake.tables[s.TableID]); return nil }
	}
	panic("unknown op " + op.Kind)
}

func (w *World) pickSettled(p int) *pokertable.Table {
	ids := []string{}
	for _, id := range w.fake.order {
		if w.fake.settled[id] != nil {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return nil
	}
	return w.fake.settled[ids[mod(p, len(ids))]]
}

func mod(a, n int) int { return ((a % n) + n) % n }
