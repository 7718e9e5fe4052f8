package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"pgregory.net/rapid"
)

// ---- C29: following the announcements is enough -----------------------------

type oC29 struct {
	NopOracle
	last     *CompSnap                        // the latest announcement of the competition
	since    map[string]*pc.CompetitionPlayer // announced on the player channel since then
	latest   map[string]*pc.CompetitionPlayer // the latest announcement of each player
	compared int
	playerCh int
	changes  int
	namedN   int
	due      []time.Time          // settled hands whose event is due
	owed     map[string]time.Time // knocked out by a hand, its event still due
	prev     int64
}

func (o *oC29) Rec(w *World, r *Rec) {
	switch r.Kind {
	case "update", "state":
		o.last = r.Comp
		o.since = map[string]*pc.CompetitionPlayer{}
	case "player":
		o.since[r.Player.PlayerID] = r.Player
		o.latest[r.Player.PlayerID] = r.Player
		o.playerCh++
	}
}

func (o *oC29) Step(w *World, s *Step) {
	if s.Post == nil || o.last == nil {
		return
	}
	if s.Op != nil && s.Op.Kind == "mutate" {
		return
	}
	o.compared++
	a, b := seen29(o.last, o.since), seen29(s.Post, nil)
	if s.Post.Serial != o.prev {
		o.prev = s.Post.Serial
		o.changes++
	}
	if !reflect.DeepEqual(a, b) {
		x, _ := json.Marshal(a)
		y, _ := json.Marshal(b)
		w.fail("after %s: who follows the announcements does not know the competition as it is: %s", s.name(), firstDiff(string(x), string(y)))
		return
	}
	if !o.named(w, s) {
		return
	}
	for i := range s.Post.Players {
		p := &s.Post.Players[i]
		q := o.latest[p.PlayerID]
		if q == nil {
			w.fail("after %s: %s takes part and was never announced on the player channel", s.name(), p.PlayerID)
			return
		}
		if k, l := key29(q), key29(p); k != l {
			w.fail("after %s: %s was last announced as {%s} and is {%s}", s.name(), p.PlayerID, k, l)
			return
		}
	}
}

// named: every change is announced by the state event of its kind, which shows it.
func (o *oC29) named(w *World, s *Step) bool {
	pre, post := s.Pre, s.Post
	if pre == nil {
		return true
	}
	has := func(what string, see func(c *CompSnap) bool, names ...string) bool {
		for _, r := range w.recs[s.From:s.To] {
			if r.Kind == "state" && has2(names, r.Name) && see(r.Comp) {
				o.namedN++
				return true
			}
		}
		w.fail("after %s: %s, and no %v event shows it", s.name(), what, names)
		return false
	}
	if !post.ended() && pre.CLI != post.CLI && !has("the blind level changed", func(c *CompSnap) bool { return c.CLI == post.CLI }, "BlindUpdated", "BlindActivated") {
		return false
	}
	if !post.ended() && pre.Status != post.Status && post.Status == "stopped_buy_in" && !has("buy-in stopped", func(c *CompSnap) bool { return c.Status == post.Status }, "BlindUpdated", "BlindActivated") {
		return false
	}
	if post.ended() && !pre.ended() && !has("the competition ended", func(c *CompSnap) bool {
		return c.Status == post.Status && c.EndAt == post.EndAt && reflect.DeepEqual(c.Rankings, post.Rankings)
	}, "Settled") {
		return false
	}
	if a, b := tableIDs(pre), tableIDs(post); a != b && !has("the tables changed from "+a+" to "+b, func(c *CompSnap) bool { return tableIDs(c) == b }, "TableUpdated") {
		return false
	}
	if pre.Stat.TotalBuyInCount != post.Stat.TotalBuyInCount || pre.Stat.TotalAddonCount != post.Stat.TotalAddonCount {
		if !has("the totals changed", func(c *CompSnap) bool {
			return c.Stat.TotalBuyInCount == post.Stat.TotalBuyInCount && c.Stat.TotalAddonCount == post.Stat.TotalAddonCount
		}, "CompetitionStatisticUpdated") {
			return false
		}
	}
	for i := range post.Players {
		p := &post.Players[i]
		if q := pre.find(p.PlayerID); p.Status == stKnock && (q == nil || q.Status != stKnock) {
			if s.Op != nil && s.Op.Kind == "quit" || q != nil && q.Status == stRebuy && pre.Status != post.Status && !post.ended() {
				if !has(p.PlayerID+" was knocked out", func(c *CompSnap) bool {
					x := c.find(p.PlayerID)
					return x != nil && x.Status == stKnock
				}, "KnockoutPlayers") {
					return false
				}
			} else if o.owed[p.PlayerID].IsZero() {
				o.owed[p.PlayerID] = time.Now()
			}
		}
	}
	if r := w.settleRec(s); r != nil && taken(s, r) {
		o.due = append(o.due, time.Now())
	}
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "state" && r.Name == "TableGameSettled" {
			if len(o.due) == 0 {
				w.fail("after %s: a settled hand is announced, every hand was announced before", s.name())
				return false
			}
			o.due = o.due[1:]
		}
	}
	if len(o.due) > 0 && time.Since(o.due[0]) > 2*time.Second {
		w.fail("a hand was settled and within two seconds no TableGameSettled event came")
		return false
	}
	for id, t := range o.owed {
		for _, r := range w.recs[s.From:s.To] {
			if r.Kind != "state" {
				continue
			}
			if x := r.Comp.find(id); (r.Name == "KnockoutPlayers" || r.Name == "TableGameSettled") && x != nil && x.Status == stKnock {
				delete(o.owed, id)
				o.namedN++
				break
			}
		}
		if _, is := o.owed[id]; is && time.Since(t) > 2*time.Second {
			w.fail("%s was knocked out by a hand, and within two seconds no KnockoutPlayers or TableGameSettled event shows it", id)
			return false
		}
	}
	for i := range pre.Players {
		p := pre.Players[i].PlayerID
		if post.find(p) == nil && w.plan.Mode == "cash" && (s.Op == nil || s.Op.Kind != "refund") &&
			!has(p+" was paid out and left", func(c *CompSnap) bool { return c.find(p) == nil }, "CashOutPlayers") {
			return false
		}
	}
	return true
}

func tableIDs(c *CompSnap) string {
	s := ""
	for _, t := range c.Tables {
		s += short(t.ID) + " "
	}
	return s
}

func (s *Step) name() string {
	if s.Op == nil {
		return s.Kind
	}
	return fmt.Sprintf("%s %s", s.Op.Kind, s.Target)
}

// seen29 is what an observer knows: everything but the announcement's own
// number and time and the inside of the tables, which report themselves.
func seen29(c *CompSnap, newer map[string]*pc.CompetitionPlayer) any {
	d := *c
	d.Serial, d.UpdateAt = 0, 0
	d.Tables = nil
	for _, t := range c.Tables {
		d.Tables = append(d.Tables, &TableSnap{ID: t.ID})
	}
	d.Players = append([]pc.CompetitionPlayer{}, c.Players...)
	for i := range d.Players {
		if q := newer[d.Players[i].PlayerID]; q != nil {
			d.Players[i] = *q
		}
	}
	return &d
}

func key29(p *pc.CompetitionPlayer) string {
	return fmt.Sprintf("%s, %d chips, table %q seat %d, re-buys %d, add-ons %d, re-buy window %v until %d", p.Status, p.Chips, short(p.CurrentTableID), p.CurrentSeat, p.ReBuyTimes, p.AddonTimes, p.IsReBuying, p.ReBuyEndAt)
}

func init() {
	simProp("C29", func(rt *rapid.T) *Plan {
		pf := Prof{Modes: []string{"ct", "ct", "mtt", "mtt", "cash"}, MaxOps: 24, Break: 20, Sched: 20, ForceMin: pct(rt, 80, "fm"), CashOpen: true, AdvPct: 15, ShortDur: 20,
			OpW: map[string]int{"buyin": 5, "again": 1, "rebuy": 5, "addon": 2, "topup": 1, "refund": 2, "quit": 2, "cashout": 2, "start": 1, "close": 1, "unknown": 1, "resend": 2, "dup": 0}}
		return genPlan(rt, pf)
	}, func() Oracle {
		return &oC29{latest: map[string]*pc.CompetitionPlayer{}, since: map[string]*pc.CompetitionPlayer{}, owed: map[string]time.Time{}}
	}, "the competition changed at least ten times and at least one player was announced", func(w *World) bool {
		o := w.orcs[0].(*oC29)
		w.classes["quiet moments compared"], w.classes["changes"], w.classes["player announcements"], w.classes["changes seen in their state event"] = o.compared, o.changes, o.playerCh, o.namedN
		return o.changes >= 10 && o.playerCh > 0
	})
}
