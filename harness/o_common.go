package harness

import (
	"fmt"
	"reflect"
	"sort"

	pc "github.com/weedbox/pokercompetition"
)

// same reports whether nothing observable changed between two snapshots.
func same(a, b *CompSnap) bool { return reflect.DeepEqual(a, b) }

func diffComp(a, b *CompSnap) string {
	s := ""
	va, vb := reflect.ValueOf(*a), reflect.ValueOf(*b)
	for i := 0; i < va.NumField(); i++ {
		if !reflect.DeepEqual(va.Field(i).Interface(), vb.Field(i).Interface()) {
			s += fmt.Sprintf("%s: %+v -> %+v; ", va.Type().Field(i).Name, short2(va.Field(i).Interface()), short2(vb.Field(i).Interface()))
		}
	}
	return s
}

func short2(v any) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// calls returns the backend calls of one method within a step.
func (w *World) calls(s *Step, method string) []*Rec {
	out := []*Rec{}
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "call" && (method == "" || r.Name == method) {
			out = append(out, r)
		}
	}
	return out
}

func (w *World) kinds(s *Step, kind, name string) []*Rec {
	out := []*Rec{}
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == kind && (name == "" || r.Name == name) {
			out = append(out, r)
		}
	}
	return out
}

// refused demands that a rejected operation left no trace.
func (w *World) refused(s *Step, why string) bool {
	if s.Err == nil {
		w.fail("%s(%s) was accepted although %s (pre: %s)", s.Op.Kind, s.Target, why, s.Pre.Status)
		return false
	}
	return w.unchanged(s)
}

func (w *World) unchanged(s *Step) bool {
	if !same(s.Pre, s.Post) {
		w.fail("refused %s(%s) [%v] changed the competition: %s", s.Op.Kind, s.Target, s.Err, diffComp(s.Pre, s.Post))
		return false
	}
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "call" && r.Err == nil {
			w.fail("refused %s(%s) called the table backend: %s", s.Op.Kind, s.Target, r)
			return false
		}
		if r.Kind == "update" || r.Kind == "state" || r.Kind == "player" {
			w.fail("refused %s(%s) announced %s %s", s.Op.Kind, s.Target, r.Kind, r.Name)
			return false
		}
	}
	if !reflect.DeepEqual(s.PreF, s.PostF) {
		w.fail("refused %s(%s) changed a table", s.Op.Kind, s.Target)
		return false
	}
	return true
}

// opDone: the step is a player operation that has returned. The settlement of
// a hand runs apart from operations, so an operation always returns at once.
func opDone(s *Step, kinds ...string) bool {
	if s.Kind != "op" || s.Op == nil || !s.Done {
		return false
	}
	for _, k := range kinds {
		if s.Op.Kind == k {
			return true
		}
	}
	return false
}

// othersSame: all players but one kept everything except the fields that a
// re-ranking or (MTT) a seating may touch.
func (w *World) othersSame(s *Step, except string, seats bool) bool {
	for i := range s.Pre.Players {
		a := s.Pre.Players[i]
		if a.PlayerID == except {
			continue
		}
		b := s.Post.find(a.PlayerID)
		if b == nil {
			w.fail("%s(%s) removed player %s", s.Op.Kind, s.Target, a.PlayerID)
			return false
		}
		c := *b
		a.CompetitionRank, c.CompetitionRank = 0, 0
		if seats {
			a.CurrentTableID, c.CurrentTableID, a.CurrentSeat, c.CurrentSeat, a.Status, c.Status = "", "", 0, 0, "", ""
		}
		if !reflect.DeepEqual(a, c) {
			w.fail("%s(%s) changed player %s: %+v -> %+v", s.Op.Kind, s.Target, a.PlayerID, s.Pre.find(a.PlayerID), b)
			return false
		}
	}
	for i := range s.Post.Players {
		if id := s.Post.Players[i].PlayerID; id != except && s.Pre.find(id) == nil {
			w.fail("%s(%s) added player %s", s.Op.Kind, s.Target, id)
			return false
		}
	}
	n := map[string]int{}
	for i := range s.Post.Players {
		n[s.Post.Players[i].PlayerID]++
		if n[s.Post.Players[i].PlayerID] > 1 {
			w.fail("player %s is listed twice after %s(%s)", s.Post.Players[i].PlayerID, s.Op.Kind, s.Target)
			return false
		}
	}
	return true
}

// ledger keeps the reference account of accepted operations.
type ledger struct {
	redeemed map[string]int64
	chips    int64
	units    map[string]int
	buyins   int
	addons   int
}

func newLedger() *ledger { return &ledger{redeemed: map[string]int64{}, units: map[string]int{}} }

func (l *ledger) step(w *World, s *Step) {
	if s.Kind != "op" || s.Op == nil || !s.Done || s.Err != nil {
		return
	}
	t := w.plan.Mode != "cash"
	switch s.Op.Kind {
	case "buyin", "rebuy", "topup":
		l.redeemed[s.Target] += s.Chips
		l.chips += s.Chips
		if t {
			l.units[s.Target] += s.Unit
			l.buyins += s.Unit
		}
	case "addon":
		l.redeemed[s.Target] += s.Chips
		l.chips += s.Chips
		if t {
			l.addons += s.Unit
		}
	case "refund":
		l.chips -= l.redeemed[s.Target]
		l.redeemed[s.Target] = 0
		if t {
			l.buyins -= l.units[s.Target]
			l.units[s.Target] = 0
		}
	}
}

// byStack checks that ids are ordered by chips (desc), ties by entry time.
func stackOrderErr(c *CompSnap, ids []string) string {
	for i := 1; i < len(ids); i++ {
		a, b := c.find(ids[i-1]), c.find(ids[i])
		if a.Chips < b.Chips || (a.Chips == b.Chips && a.JoinAt > b.JoinAt) {
			return fmt.Sprintf("%s (chips %d, joined %d) is ranked before %s (chips %d, joined %d)", a.PlayerID, a.Chips, a.JoinAt, b.PlayerID, b.Chips, b.JoinAt)
		}
	}
	return ""
}

func openTables(m map[string]*TableSnap, f *Fake) []string {
	out := []string{}
	for id := range m {
		if !f.tables[id].dead() {
			out = append(out, id)
		}
	}
	sort.Strings(out)
	return out
}

const (
	stPlaying = pc.CompetitionPlayerStatus_Playing
	stWaiting = pc.CompetitionPlayerStatus_WaitingTableBalancing
	stRebuy   = pc.CompetitionPlayerStatus_ReBuyWaiting
	stKnock   = pc.CompetitionPlayerStatus_Knockout
	stLeaving = pc.CompetitionPlayerStatus_CashLeaving
)
