package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"pgregory.net/rapid"
)

// ---- C19 re-buy windows and quitting ------------------------------------------

type window struct {
	bust    time.Time
	end     int64 // published end second
	removed bool
	table   string
}

type oC19 struct {
	NopOracle
	win                                                map[string]*window
	retry                                              map[string]bool
	opened, expired, inTime, backLate, quits, quitFail int
}

func (o *oC19) Step(w *World, s *Step) {
	if w.viol != nil || w.plan.Mode != "ct" {
		if w.viol == nil && opDone(s, "quit") {
			w.refused(s, "the competition is not a countdown tournament")
		}
		if w.viol == nil && w.plan.Mode == "mtt" && s.Post != nil {
			for i := range s.Post.Players {
				if p := &s.Post.Players[i]; p.ReBuyEndAt != -1 || p.Status == stRebuy && p.CurrentSeat != -1 {
					w.fail("multi-table: %s (%s) is given a re-buy deadline %d, seat %d", p.PlayerID, p.Status, p.ReBuyEndAt, p.CurrentSeat)
					return
				}
			}
		}
		return
	}
	c := &w.plan.Cfg
	pre, post := s.Pre, s.Post
	if opDone(s, "quit") && !pre.ended() {
		o.quit(w, s)
		if w.viol != nil {
			return
		}
	}
	// every removal from the table has its reason
	settle := w.settleRec(s)
	for _, r := range w.calls(s, "PlayersLeave") {
		if pre.ended() {
			break
		}
		for _, id := range r.Leave {
			a, b := pre.find(id), post.find(id)
			if opDone(s, "quit", "refund") && s.Target == id {
				if len(r.Leave) != 1 {
					w.fail("%s(%s) removes %v from the table", s.Op.Kind, id, r.Leave)
					return
				}
				continue
			}
			if a == nil {
				w.fail("unknown player %s is taken off the table", id)
				return
			}
			if b != nil && b.Status == stKnock && a.Status != stKnock {
				continue // knocked out: leaves the seat
			}
			wd := o.win[id]
			if wd == nil {
				w.fail("player %s (chips %d, %s) is taken off table without a re-buy window", id, a.Chips, a.Status)
				return
			}
			if wd.removed {
				w.fail("player %s is taken off the table a second time for one re-buy window", id)
				return
			}
			if d := r.At.Sub(wd.bust); d < time.Duration(c.ReWait)*time.Second {
				w.fail("player %s is taken off the table %v after busting, the waiting time is %d s", id, d, c.ReWait)
				return
			}
			if !r.Fault && (b == nil || b.Status != stRebuy || b.CurrentSeat != -1 || b.Chips != 0 || b.IsReBuying) {
				w.fail("after the re-buy window player %s is %+v", id, b)
				return
			}
			if t := s.PostF[wd.table]; r.Err == nil && t != nil && t.find(id) != nil {
				w.fail("player %s still sits at the table after his window closed", id)
				return
			}
			wd.removed = true
			o.expired++
			if r.Err != nil {
				delete(o.win, id)
				o.retry[id] = true // the table still has him; the next hand gives him a new window
			}
		}
	}
	// an accepted re-buy closes the window
	if opDone(s, "buyin", "rebuy") && s.Err == nil && o.win[s.Target] != nil {
		wd := o.win[s.Target]
		if wd.removed {
			o.backLate++
		} else {
			o.inTime++
			if t := s.PostF[wd.table]; t == nil || t.find(s.Target) == nil || s.PreF[wd.table].find(s.Target) == nil || t.find(s.Target).Seat != s.PreF[wd.table].find(s.Target).Seat {
				w.fail("player %s re-bought in time and did not keep the seat", s.Target)
				return
			}
		}
		delete(o.win, s.Target)
	}
	if opDone(s, "quit", "refund") && s.Err == nil {
		delete(o.win, s.Target)
	}
	// a hand opens windows
	if settle != nil && taken(s, settle) {
		for _, p := range settle.TS.PS {
			a, b := pre.find(p.ID), post.find(p.ID)
			if a == nil || b == nil || p.Bankroll > 0 || b.Status != stRebuy || o.win[p.ID] != nil || a.Status == stRebuy && !o.retry[p.ID] {
				continue
			}
			// the published end is the waiting time from now
			if d := b.ReBuyEndAt - settle.At.Unix() - int64(c.ReWait); d < 0 || d > 1 || !b.IsReBuying {
				w.fail("player %s busted at %s, waiting time %d s, and the window is published as %d (re-buying %v)", p.ID, settle.At.UTC().Format("15:04:05.000"), c.ReWait, b.ReBuyEndAt-settle.At.Unix(), b.IsReBuying)
				return
			}
			if t := s.PostF[settle.Table]; t != nil && t.find(p.ID) == nil {
				w.fail("player %s lost the seat at once although he may re-buy", p.ID)
				return
			}
			delete(o.retry, p.ID)
			o.win[p.ID] = &window{bust: settle.At, end: b.ReBuyEndAt, table: settle.Table}
			o.opened++
		}
	}
	for id, wd := range o.win {
		p := post.find(id)
		if p == nil || post.ended() || p.Status == stKnock {
			delete(o.win, id)
			continue
		}
		if !wd.removed && s.At.Sub(wd.bust) > time.Duration(c.ReWait)*time.Second+3500*time.Millisecond {
			w.fail("player %s busted %v ago (waiting time %d s) and still keeps the seat", id, s.At.Sub(wd.bust), c.ReWait)
			return
		}
		if wd.removed && (p.Status != stRebuy || p.Chips != 0) {
			w.fail("player %s, whose window has closed, became %+v", id, p)
			return
		}
	}
}

func (o *oC19) quit(w *World, s *Step) {
	pre, post := s.Pre, s.Post
	a := pre.find(s.Target)
	switch {
	case a == nil:
		w.refused(s, "the player does not take part")
		return
	case pre.table(s.TableID) == nil:
		w.refused(s, "the table does not exist")
		return
	case pre.stopped():
		w.refused(s, "buy-in has stopped")
		return
	}
	n := w.calls(s, "PlayersLeave")
	if len(n) != 1 || n[0].Table != s.TableID || !reflect.DeepEqual(n[0].Leave, []string{s.Target}) {
		w.fail("quit(%s) made %d release calls %v", s.Target, len(n), n)
		return
	}
	if n[0].Err != nil {
		o.quitFail++
		if s.Err == nil {
			w.fail("quit(%s) succeeded although the seat release failed", s.Target)
			return
		}
		if !same(pre, post) {
			w.fail("failed quit(%s) changed the competition: %s", s.Target, diffComp(pre, post))
		}
		return
	}
	o.quits++
	b := post.find(s.Target)
	if s.Err != nil {
		w.fail("quit(%s) failed although the seat was released: %v", s.Target, s.Err)
		return
	}
	if b == nil || b.Status != stRebuy || b.CurrentSeat != -1 || b.IsReBuying || b.Chips != a.Chips {
		w.fail("quit(%s): %+v -> %+v", s.Target, a, b)
		return
	}
	if s.PostF[s.TableID].find(s.Target) != nil {
		w.fail("quit(%s) did not free the seat", s.Target)
		return
	}
	w.othersSame(s, s.Target, false)
}

// ---- C20 cash-out ----------------------------------------------------------------

type oC20 struct {
	NopOracle
	paid, now, atSettle, atWindow, refused int
	noSeat                                 map[string]bool
}

func (o *oC20) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	pre, post := s.Pre, s.Post
	cash := w.plan.Mode == "cash"
	if opDone(s, "cashout") && (!cash || pre.find(s.Target) == nil || pre.table(s.TableID) == nil) {
		o.refused++
		w.refused(s, "there is nothing to cash out")
		return
	}
	if !cash || pre.ended() {
		return
	}
	// a buy-in the table had no seat for is not on any table's record
	for _, r := range w.calls(s, "PlayerReserve") {
		if r.Err != nil {
			o.noSeat[r.Join[0].PlayerID] = true
		}
	}
	pays := w.kinds(s, "cashout", "")
	paid := map[string]int{}
	settle := w.settleRec(s)
	for _, r := range pays {
		id := r.Player.PlayerID
		a := pre.find(id)
		paid[id]++
		if paid[id] > 1 {
			w.fail("player %s is paid out twice", id)
			return
		}
		if a == nil {
			w.fail("player %s is paid out and is not in the game", id)
			return
		}
		if post.find(id) != nil {
			w.fail("player %s is paid out and still in the game", id)
			return
		}
		for tid, t := range s.PostF {
			if t.find(id) != nil && pre.table(tid) != nil && !opDone(s, "buyin") {
				w.fail("player %s is paid out and still at table %s", id, tid)
				return
			}
		}
		// the stack the table recorded
		var stack int64 = -1
		var why string
		switch {
		case opDone(s, "cashout") && s.Target == id:
			why = "at once"
			if t := s.PreF[pre.Tables[0].ID]; t != nil && t.find(id) != nil {
				stack = t.find(id).Bankroll
			} else {
				stack = a.Chips // no seat was free for him
			}
			o.now++
		case settle != nil && a.Status == stLeaving:
			why = "at the end of the hand"
			stack = a.Chips
			if p := settle.TS.find(id); p != nil {
				stack = p.Bankroll
			}
			o.atSettle++
		case s.Kind == "gap" && a.Chips == 0 && (a.Status == stRebuy || a.Status == stLeaving):
			why = "at the end of the re-buy window"
			stack = 0
			o.atWindow++
			if r.At.Unix() < a.ReBuyEndAt {
				w.fail("player %s is paid out before his re-buy window ends", id)
				return
			}
		default:
			w.fail("player %s (%s, chips %d) is paid out (%s) without leaving", id, a.Status, a.Chips, s.Kind)
			return
		}
		o.paid++
		if r.Player.Chips != stack && !o.noSeat[id] {
			w.fail("player %s is paid %d %s, the table recorded %d", id, r.Player.Chips, why, stack)
			return
		}
	}
	// nobody leaves unpaid
	for i := range pre.Players {
		id := pre.Players[i].PlayerID
		if post.find(id) == nil && paid[id] == 0 && !(opDone(s, "refund") && id == s.Target) {
			w.fail("player %s disappears without a payout (%s)", id, s.Kind)
			return
		}
	}
	for _, r := range w.calls(s, "PlayersLeave") {
		for _, id := range r.Leave {
			if paid[id] == 0 && !(opDone(s, "refund") && id == s.Target) {
				w.fail("player %s is taken off the table without a payout", id)
				return
			}
		}
	}
	if opDone(s, "cashout") {
		if s.Err != nil {
			w.fail("cashout(%s) refused: %v", s.Target, s.Err)
			return
		}
		immediate := pre.Status == "registering" || pre.Status == "delayed_buy_in" && pre.Tables[0].Status == "table_pausing"
		if immediate != (paid[s.Target] == 1) {
			w.fail("cashout(%s) with status %s, table %s: paid at once %v", s.Target, pre.Status, pre.Tables[0].Status, paid[s.Target] == 1)
			return
		}
		if b := post.find(s.Target); !immediate && (b == nil || b.Status != stLeaving || b.Chips != pre.find(s.Target).Chips) {
			w.fail("cashout(%s) during a hand: %+v", s.Target, b)
			return
		}
		w.othersSame(s, s.Target, false)
		if w.viol != nil {
			return
		}
	}
	if settle != nil && taken(s, settle) {
		for i := range pre.Players {
			p := &pre.Players[i]
			if t := settle.TS.find(p.PlayerID); p.Status == stLeaving && t != nil && t.Bankroll > 0 && paid[p.PlayerID] == 0 && !post.ended() {
				w.fail("player %s asked to leave and is not paid when the hand ends", p.PlayerID)
				return
			}
		}
	}
	// windows close
	if s.Kind == "gap" && !post.ended() {
		for i := range post.Players {
			p := &post.Players[i]
			if p.Status == stRebuy && p.Chips == 0 && p.ReBuyEndAt > 0 && s.At.Unix() > p.ReBuyEndAt+3 {
				w.fail("player %s busted, his window closed at %s and he is not paid out", p.PlayerID, time.Unix(p.ReBuyEndAt, 0).UTC().Format("15:04:05"))
				return
			}
		}
	}
}

// ---- C21 serials, snapshots, JSON ---------------------------------------------------

type oC21 struct {
	NopOracle
	serial, updAt    int64
	seen             bool
	updates, trips   int
	mutated, unknown int
	lastEmit         map[string]*TableSnap
	kinds            map[string]bool
}

func (o *oC21) Rec(w *World, r *Rec) {
	if w.viol != nil {
		return
	}
	switch r.Kind {
	case "update":
		o.updates++
		if o.seen && r.Comp.Serial != o.serial+1 {
			w.fail("an update with serial %d follows one with serial %d", r.Comp.Serial, o.serial)
			return
		}
		if r.Comp.UpdateAt < o.updAt {
			w.fail("the update time goes back from %d to %d", o.updAt, r.Comp.UpdateAt)
			return
		}
		if r.Comp.UpdateAt != r.At.Unix() {
			w.fail("an update at %d carries the time %d", r.At.Unix(), r.Comp.UpdateAt)
			return
		}
		o.seen, o.serial, o.updAt = true, r.Comp.Serial, r.Comp.UpdateAt
	}
	if r.Comp != nil && r.Kind != "call" && r.Kind != "emit" && r.Comp.ID != "c1" {
		w.fail("%s announces competition %q", r.Kind, r.Comp.ID)
	}
	if r.CompID != "" && r.CompID != "c1" {
		w.fail("%s announces competition %q", r.Kind, r.CompID)
	}
}

func (o *oC21) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	if o.seen && s.Post.Serial != o.serial {
		w.fail("the serial is %d, the last announced one %d", s.Post.Serial, o.serial)
		return
	}
	if opDone(s, "unknown", "mutate") {
		if s.Op.Kind == "mutate" {
			o.mutated++
		} else {
			o.unknown++
		}
		if !w.unchanged(s) {
			return
		}
		now := mustJSON(w.comp)
		if string(now) != string(w.opJSON) {
			w.fail("%s changed the competition: %s", s.Op.Kind, firstDiff(string(w.opJSON), string(now)))
			return
		}
	}
	// the competition holds the tables as last reported
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "emit" && !s.Pre.ended() {
			o.lastEmit[r.Table] = r.TS
		}
	}
	if !s.Post.ended() {
		for _, t := range s.Post.Tables {
			e := o.lastEmit[t.ID]
			if e == nil {
				continue
			}
			x, y := *e, *t
			x.Blind, y.Blind = pokertable.TableBlindState{}, pokertable.TableBlindState{} // kept by the competition
			if !reflect.DeepEqual(x, y) {
				w.fail("table %s is held as %+v, it last reported %+v", short(t.ID), *t, *e)
				return
			}
		}
	}
	key := fmt.Sprint(s.Kind, s.Post.Status)
	if s.Kind == "op" {
		key += s.Op.Kind
	}
	if !o.kinds[key] || s.Kind == "settle" {
		o.kinds[key] = true
		o.trip(w)
	}
}

func (o *oC21) End(w *World) { o.trip(w) }

func (o *oC21) trip(w *World) {
	o.trips++
	str, err := w.comp.GetJSON()
	if err != nil {
		w.fail("JSON form: %v", err)
		return
	}
	var c pc.Competition
	if err := json.Unmarshal([]byte(str), &c); err != nil {
		w.fail("JSON form does not read back: %v", err)
		return
	}
	a, b := *w.comp, c
	sa, sb := *a.State, *b.State
	if len(sa.Tables) != len(sb.Tables) {
		w.fail("JSON form has %d of %d tables", len(sb.Tables), len(sa.Tables))
		return
	}
	for i := range sa.Tables {
		x, y := mustJSON(sa.Tables[i]), mustJSON(sb.Tables[i])
		if string(x) != string(y) {
			w.fail("JSON form of table differs: %s", firstDiff(string(x), string(y)))
			return
		}
	}
	sa.Tables, sb.Tables = nil, nil
	a.State, b.State = &sa, &sb
	if p := deepDiff(reflect.ValueOf(a), reflect.ValueOf(b), "competition"); p != "" {
		w.fail("the JSON form reads back different: %s", p)
	}
}

// deepDiff is DeepEqual with nil and empty slices and maps equal; it returns
// the path of the first difference.
func deepDiff(a, b reflect.Value, path string) string {
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path
			}
			return ""
		}
		return deepDiff(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if p := deepDiff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); p != "" {
				return p
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return path
		}
		for i := 0; i < a.Len(); i++ {
			if p := deepDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); p != "" {
				return p
			}
		}
		return ""
	case reflect.Int, reflect.Int64, reflect.Int32:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d vs %d", path, a.Int(), b.Int())
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q vs %q", path, a.String(), b.String())
		}
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return path
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return path
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() {
				return path
			}
			if p := deepDiff(a.MapIndex(k), b.MapIndex(k), path+"["+k.String()+"]"); p != "" {
				return p
			}
		}
		return ""
	case reflect.Float64:
		if a.Float() != b.Float() {
			return path
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("%q vs %q", a[lo:min(len(a), i+60)], b[lo:min(len(b), i+60)])
}

func init() {
	simProp("C19", func(rt *rapid.T) *Plan {
		pf := Prof{Modes: []string{"ct", "ct", "ct", "ct", "ct", "mtt", "cash"}, MaxOps: 18, Break: 10, Sched: 10, ForceMin: true, ReMax: []int{1, 2, 3, 5}, Final: []int{-2, -2, 100, 100},
			OpW: map[string]int{"buyin": 4, "rebuy": 8, "quit": 5, "quitX": 1, "close": 0, "refund": 1, "resend": 1}}
		if pct(rt, 25, "leaveFault") {
			pf.FaultM = []string{"PlayersLeave"}
		}
		return genPlan(rt, pf)
	}, func() Oracle { return &oC19{retry: map[string]bool{}, win: map[string]*window{}} }, "a re-buy window expired, or was used in time, or a player quit", func(w *World) bool {
		o := w.orcs[0].(*oC19)
		w.classes["windows opened"], w.classes["expired"], w.classes["re-bought in time"], w.classes["re-bought later"], w.classes["quits"], w.classes["quits whose release failed"] = o.opened, o.expired, o.inTime, o.backLate, o.quits, o.quitFail
		return o.expired+o.inTime+o.quits > 0
	})
	simProp("C20", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"cash", "cash", "cash", "cash", "cash", "ct", "mtt"}, MaxOps: 18, Break: 10, ForceMin: pct(rt, 80, "fm"), CashOpen: true,
			OpW: map[string]int{"buyin": 4, "again": 2, "rebuy": 4, "addon": 1, "cashout": 8, "cashoutX": 1, "cashoutT": 1, "resend": 1}})
	}, func() Oracle { return &oC20{noSeat: map[string]bool{}} }, "a player was paid out", func(w *World) bool {
		o := w.orcs[0].(*oC20)
		w.classes["paid at once"], w.classes["paid at settlement"], w.classes["paid at window end"], w.classes["refused"] = o.now, o.atSettle, o.atWindow, o.refused
		return o.paid > 0
	})
	simProp("C21", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt", "mtt", "cash"}, MaxOps: 20, Break: 20, Sched: 10, ForceMin: pct(rt, 80, "fm"), CashOpen: true, AdvPct: 10, ShortDur: 20,
			OpW: map[string]int{"buyin": 4, "rebuy": 4, "addon": 2, "refund": 1, "quit": 1, "cashout": 1, "start": 1, "close": 1, "unknown": 3, "mutate": 6, "resend": 2, "dup": 0}})
	}, func() Oracle { return &oC21{lastEmit: map[string]*TableSnap{}, kinds: map[string]bool{}} }, "more than ten updates were announced and a reported table was mutated afterwards or an unknown table reported", func(w *World) bool {
		o := w.orcs[0].(*oC21)
		w.classes["updates"], w.classes["mutated reports"], w.classes["unknown tables"], w.classes["JSON round trips"] = o.updates, o.mutated, o.unknown, o.trips
		return o.updates > 10 && o.mutated+o.unknown > 0
	})
}
