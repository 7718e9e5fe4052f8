package harness

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"pgregory.net/rapid"
)

// settleRec is the settled hand reported in a step, if any.
func (w *World) settleRec(s *Step) *Rec {
	if s.Kind != "settle" {
		return nil
	}
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "settle" {
			return r
		}
	}
	return nil
}

// taken: the competition was running and knew the table.
func taken(s *Step, r *Rec) bool { return !s.Pre.ended() && s.Pre.table(r.Table) != nil }

// ---- C08 conservation ---------------------------------------------------------

type oC08 struct {
	NopOracle
	l                          *ledger
	hands, moves, more, checks int
	seen                       map[string]bool
	off                        bool
}

func (o *oC08) Rec(w *World, r *Rec) {}

func (o *oC08) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	o.l.step(w, s)
	if s.Op != nil && s.Err == nil && s.Kind == "op" && (s.Op.Kind == "rebuy" || s.Op.Kind == "addon") {
		o.more++
	}
	post := s.Post
	var sum int64
	for i := range post.Players {
		p := &post.Players[i]
		sum += p.Chips
		if p.TotalRedeemChips != o.l.redeemed[p.PlayerID] {
			w.fail("%s is recorded with %d redeemed chips, accepted operations gave %d", p.PlayerID, p.TotalRedeemChips, o.l.redeemed[p.PlayerID])
		}
		if p.Chips < 0 {
			w.fail("%s has %d chips", p.PlayerID, p.Chips)
		}
	}
	if sum != o.l.chips {
		w.fail("after %s the players hold %d chips, redeemed are %d", s.Kind, sum, o.l.chips)
		return
	}
	if r := w.settleRec(s); r != nil && taken(s, r) {
		o.hands++
		for _, p := range r.TS.PS {
			if cp := post.find(p.ID); cp != nil && cp.Chips != p.Bankroll {
				w.fail("after the hand %s is recorded with %d chips, the table settled with %d", p.ID, cp.Chips, p.Bankroll)
			}
		}
	}
	for _, r := range w.recs[s.From:s.To] {
		if r.Kind == "call" && (r.Name == "CreateTable" || r.Name == "UpdateTablePlayers") && w.plan.Mode == "mtt" && r.Comp != nil {
			for _, j := range r.Join {
				if o.seen[j.PlayerID] {
					o.moves++
				}
				if r.Err == nil {
					o.seen[j.PlayerID] = true
				}
				cp := r.Comp.find(j.PlayerID)
				if cp == nil {
					w.fail("unknown player %s is seated", j.PlayerID)
				} else if cp.Chips != j.RedeemChips {
					// an entering player is seated before or after he is
					// recorded; the operation's chips count
					w.fail("%s with %d chips is seated with %d", j.PlayerID, cp.Chips, j.RedeemChips)
				}
			}
		}
	}
	if !post.ended() {
		for id, t := range s.PostF {
			if w.fake.tables[id].dead() {
				continue
			}
			for _, p := range t.PS {
				if cp := post.find(p.ID); cp != nil && cp.Chips != p.Bankroll {
					w.fail("%s has %d chips in the competition but %d at the table", p.ID, cp.Chips, p.Bankroll)
				}
			}
		}
	} else if !s.Pre.ended() && len(post.Rankings) > 0 {
		var f int64
		for _, r := range post.Rankings {
			f += r.FinalChips
		}
		o.checks++
		if f != o.l.chips {
			w.fail("the final ranking adds up to %d chips, redeemed are %d", f, o.l.chips)
		}
	}
}

// ---- C09 statistics -------------------------------------------------------------

type oC09 struct {
	NopOracle
	model   map[string]pc.CompetitionPlayer
	combos  map[string]map[string]bool // combos seen with the best power
	hands   int
	dups    int
	wins    int
	pending map[string]*Rec
	walks   int
}

var statFields = func() []int {
	out := []int{}
	t := reflect.TypeOf(pc.CompetitionPlayer{})
	for i := 0; i < t.NumField(); i++ {
		n := t.Field(i).Name
		if strings.HasPrefix(n, "Total") && n != "TotalBuyInUnits" && n != "TotalRedeemChips" {
			out = append(out, i)
		}
	}
	return out
}()

func (o *oC09) apply(w *World, s *Step, r *Rec) {
	t := r.Full
	st := t.State
	folds := 0
	for _, p := range st.PlayerStates {
		if p.IsParticipated && p.GameStatistics.IsFold && p.GameStatistics.FoldRound == "preflop" && s.Pre.find(p.PlayerID) != nil {
			folds++
		}
	}
	for _, p := range st.PlayerStates {
		if !p.IsParticipated || s.Pre.find(p.PlayerID) == nil {
			continue
		}
		m := o.model[p.PlayerID]
		g := p.GameStatistics
		inc := func(x *int, b bool) {
			if b {
				*x++
			}
		}
		m.TotalGameCounts++
		inc(&m.TotalFoldTimes, g.IsFold)
		inc(&m.TotalPreflopFoldTimes, g.IsFold && g.FoldRound == "preflop")
		inc(&m.TotalFlopFoldTimes, g.IsFold && g.FoldRound == "flop")
		inc(&m.TotalTurnFoldTimes, g.IsFold && g.FoldRound == "turn")
		inc(&m.TotalRiverFoldTimes, g.IsFold && g.FoldRound == "river")
		m.TotalActionTimes += g.ActionTimes
		m.TotalRaiseTimes += g.RaiseTimes
		m.TotalCallTimes += g.CallTimes
		m.TotalCheckTimes += g.CheckTimes
		inc(&m.TotalVPIPChances, g.IsVPIPChance)
		inc(&m.TotalVPIPTimes, g.IsVPIP)
		inc(&m.TotalPFRChances, g.IsPFRChance)
		inc(&m.TotalPFRTimes, g.IsPFR)
		inc(&m.TotalATSChances, g.IsATSChance)
		inc(&m.TotalATSTimes, g.IsATS)
		inc(&m.Total3BChances, g.Is3BChance)
		inc(&m.Total3BTimes, g.Is3B)
		inc(&m.TotalFt3BChances, g.IsFt3BChance)
		inc(&m.TotalFt3BTimes, g.IsFt3B)
		inc(&m.TotalCheckRaiseChances, g.IsCheckRaiseChance)
		inc(&m.TotalCheckRaiseTimes, g.IsCheckRaise)
		inc(&m.TotalCBetChances, g.IsCBetChance)
		inc(&m.TotalCBetTimes, g.IsCBet)
		inc(&m.TotalFtCBChances, g.IsFtCBChance)
		inc(&m.TotalFtCBTimes, g.IsFtCB)
		for gi, pi := range st.GamePlayerIndexes {
			if st.PlayerStates[pi].PlayerID != p.PlayerID {
				continue
			}
			for _, res := range st.GameState.Result.Players {
				if res.Idx != gi || res.Changed <= 0 {
					continue
				}
				o.wins++
				m.TotalProfitTimes++
				if st.CurrentBBSeat == p.Seat && g.ActionTimes == 0 && folds == len(st.GamePlayerIndexes)-1 {
					m.TotalWalkTimes++
					o.walks++
				}
				if res.Changed > m.BestWinningPotChips {
					m.BestWinningPotChips = res.Changed
				}
				c := st.GameState.Players[gi].Combination
				if c.Power > m.BestWinningPower {
					m.BestWinningPower = c.Power
					o.combos[p.PlayerID] = map[string]bool{}
				}
				if c.Power >= m.BestWinningPower {
					if o.combos[p.PlayerID] == nil {
						o.combos[p.PlayerID] = map[string]bool{}
					}
					o.combos[p.PlayerID][comboKey(c.Type, c.Cards)] = true
				}
			}
		}
		o.model[p.PlayerID] = m
	}
}

func comboKey(t string, c []string) string { return t + "/" + strings.Join(c, ",") }

func (o *oC09) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	for id := range o.model {
		if s.Post.find(id) == nil || (opDone(s, "buyin", "rebuy") && s.Pre.find(id) == nil) {
			delete(o.model, id)
			delete(o.combos, id)
		}
	}
	if r := w.settleRec(s); r != nil && taken(s, r) {
		o.hands++
		o.apply(w, s, r)
	}
	if opDone(s, "dup", "resend") {
		if s.Op.Kind == "dup" {
			o.dups++
		}
		if !reflect.DeepEqual(s.Pre.Players, s.Post.Players) {
			w.fail("a repeated report of %s changed the players: %s", short(s.TableID), diffComp(s.Pre, s.Post))
			return
		}
	}
	for i := range s.Post.Players {
		p := s.Post.Players[i]
		m := o.model[p.PlayerID]
		a, b := reflect.ValueOf(p), reflect.ValueOf(m)
		for _, f := range statFields {
			if a.Field(f).Int() != b.Field(f).Int() {
				w.fail("after %s: %s of %s is %d, the settled hands give %d", s.Kind, a.Type().Field(f).Name, p.PlayerID, a.Field(f).Int(), b.Field(f).Int())
				return
			}
		}
		if p.BestWinningPotChips != m.BestWinningPotChips || p.BestWinningPower != m.BestWinningPower {
			w.fail("best pot/power of %s are %d/%d, the settled hands give %d/%d", p.PlayerID, p.BestWinningPotChips, p.BestWinningPower, m.BestWinningPotChips, m.BestWinningPower)
			return
		}
		if m.BestWinningPower > 0 && !o.combos[p.PlayerID][comboKey(p.BestWinningType, p.BestWinningCombo)] {
			w.fail("best combination of %s is %s %v, the settled hands give %v", p.PlayerID, p.BestWinningType, p.BestWinningCombo, sortedKeys(o.combos[p.PlayerID]))
			return
		}
	}
}

func (o *oC09) End(w *World) {
	open := map[string]*Rec{}
	for _, r := range w.recs {
		if r.Kind == "settle" {
			open[r.Table] = r
		}
		if r.Kind == "settled" {
			delete(open, r.Table)
		}
	}
	for id, r := range open {
		if time.Since(r.At) > 6*time.Second {
			w.fail("the settlement of hand %d at %s never returned", r.Count, short(id))
		}
	}
}

// ---- C10 knockouts ----------------------------------------------------------------

type oC10 struct {
	NopOracle
	ann            map[string]int
	ko             map[string]bool
	koHand, koStop int
	waits          int
}

func (o *oC10) Rec(w *World, r *Rec) {
	if r.Kind == "player" && r.Player.Status == stKnock {
		// at a table paused for advancement he keeps the seat, and a later
		// report of that table republishes him
		for _, t := range w.comp.State.Tables {
			if ft := w.fake.tables[t.ID]; o.ko[r.Player.PlayerID] && ft != nil && ft.find(r.Player.PlayerID) >= 0 && has2(w.comp.State.AdvanceState.UpdatedTableIDs, t.ID) {
				return
			}
		}
		o.ann[r.Player.PlayerID]++
		if o.ann[r.Player.PlayerID] > 1 {
			w.fail("the knockout of %s was announced twice", r.Player.PlayerID)
		}
	}
}

func (o *oC10) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	pre, post := s.Pre, s.Post
	want := map[string]pc.CompetitionPlayerStatus{}
	if r := w.settleRec(s); r != nil && taken(s, r) {
		for _, p := range r.TS.PS {
			cp := pre.find(p.ID)
			if p.Bankroll > 0 || cp == nil || cp.Status == stKnock {
				continue
			}
			if pre.stopped() || cp.ReBuyTimes >= w.plan.Cfg.ReMax {
				want[p.ID] = stKnock
				o.koHand++
				for _, q := range w.recs[s.From:s.To] {
					if q.Kind == "player" && q.Player.PlayerID == p.ID && q.Player.Status == stRebuy {
						w.fail("%s without chips (re-bought %d of %d, buy-in stopped %v) was announced as waiting for a re-buy", p.ID, cp.ReBuyTimes, w.plan.Cfg.ReMax, pre.stopped())
						return
					}
				}
			} else {
				want[p.ID] = stRebuy
				o.waits++
			}
		}
	}
	if post.stopped() && !pre.stopped() && !pre.ended() {
		for i := range pre.Players {
			if p := &pre.Players[i]; p.Status == stRebuy && p.Chips == 0 {
				want[p.PlayerID] = stKnock
				o.koStop++
			}
		}
	}
	for i := range post.Players {
		p := &post.Players[i]
		was := pc.CompetitionPlayerStatus("")
		if q := pre.find(p.PlayerID); q != nil {
			was = q.Status
		}
		if wnt, ok := want[p.PlayerID]; ok && p.Status != wnt {
			w.fail("%s of %s without chips (re-bought %d of %d, buy-in stopped %v) is %s, want %s", s.Kind, p.PlayerID, p.ReBuyTimes, w.plan.Cfg.ReMax, pre.stopped(), p.Status, wnt)
			return
		}
		if _, ok := want[p.PlayerID]; !ok && p.Status != was && (p.Status == stKnock || p.Status == stRebuy) {
			w.fail("%s made %s (chips %d) %s", s.Kind, p.PlayerID, p.Chips, p.Status)
			return
		}
		if p.Chips > 0 && (p.Status == stKnock || p.Status == stRebuy) {
			w.fail("%s has %d chips but is %s", p.PlayerID, p.Chips, p.Status)
			return
		}
		if o.ko[p.PlayerID] && (p.Status != stKnock || p.Chips != 0) {
			w.fail("knocked-out player %s is back: %s with %d chips", p.PlayerID, p.Status, p.Chips)
			return
		}
		if p.Status == stKnock && (p.IsReBuying || p.ReBuyEndAt != -1) && !post.ended() {
			w.fail("knocked-out player %s is recorded as re-buying (until %d)", p.PlayerID, p.ReBuyEndAt)
			return
		}
		if p.Status == stKnock && !o.ko[p.PlayerID] {
			o.ko[p.PlayerID] = true
			if o.ann[p.PlayerID] != 1 {
				w.fail("the knockout of %s was announced %d times", p.PlayerID, o.ann[p.PlayerID])
				return
			}
			if p.KnockoutAt <= 0 || p.KnockoutAt > s.At.Unix() || p.KnockoutAt < pre.UpdateAt-1 && p.KnockoutAt < s.At.Unix()-2 {
				w.fail("%s was knocked out at about %d but is recorded at %d", p.PlayerID, s.At.Unix(), p.KnockoutAt)
				return
			}
		}
		if p.Status == stKnock && !post.ended() {
			for id, t := range s.PostF {
				if w.fake.tables[id].dead() || t.find(p.PlayerID) == nil {
					continue
				}
				if has2(post.Adv.UpdatedTableIDs, id) {
					continue
				}
				w.fail("knocked-out player %s still has a seat at %s", p.PlayerID, short(id))
				return
			}
			if p.CurrentSeat != -1 {
				w.fail("knocked-out player %s is recorded in seat %d", p.PlayerID, p.CurrentSeat)
				return
			}
		}
	}
	for id := range o.ko {
		if post.find(id) == nil {
			w.fail("knocked-out player %s vanished from the competition", id)
		}
	}
}

func has2(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// ---- C11 final ranking --------------------------------------------------------------

type oC11 struct {
	NopOracle
	outAt   map[string]int // step of elimination
	n       int
	notices []*Rec
	endSeen bool
	ranked  int
	out     int
	groups  int
}

func (o *oC11) Rec(w *World, r *Rec) {
	if r.Kind == "rank" {
		r.Comp = snapComp(w.comp)
		o.notices = append(o.notices, r)
	}
}

func (o *oC11) Step(w *World, s *Step) {
	if w.viol != nil || o.endSeen {
		return
	}
	o.n++
	pre, post := s.Pre, s.Post
	same := 0
	for i := range post.Players {
		p := &post.Players[i]
		if _, ok := o.outAt[p.PlayerID]; !ok && p.Status == stKnock {
			o.outAt[p.PlayerID] = o.n
			same++
		}
	}
	if same > 1 {
		o.groups++
	}
	if !post.ended() || pre.ended() {
		return
	}
	o.endSeen = true
	if pre.Status == "registering" && !(post.CLI >= 0) {
		if len(post.Rankings) > 0 {
			w.fail("a competition that never started has a final ranking")
		}
		return
	}
	if pre.Status == "registering" {
		return
	}
	pos := map[string]int{}
	for i, r := range post.Rankings {
		if pos[r.PlayerID] > 0 {
			w.fail("%s is in the final ranking twice", r.PlayerID)
			return
		}
		pos[r.PlayerID] = i + 1
		p := post.find(r.PlayerID)
		if p == nil {
			w.fail("unknown player %s is in the final ranking", r.PlayerID)
			return
		}
		if r.FinalChips != p.Chips {
			w.fail("%s is ranked with %d chips and has %d", r.PlayerID, r.FinalChips, p.Chips)
			return
		}
		if p.CompetitionRank != i+1 {
			w.fail("%s is at position %d of the final ranking but has rank %d", r.PlayerID, i+1, p.CompetitionRank)
			return
		}
		if p.Chips > 0 {
			o.ranked++
		} else {
			o.out++
		}
	}
	if len(post.Rankings) != len(post.Players) {
		w.fail("%d of %d players are in the final ranking", len(post.Rankings), len(post.Players))
		return
	}
	key := func(p *pc.CompetitionPlayer) (int64, int) {
		if p.Chips > 0 {
			return p.Chips, 0
		}
		if n, ok := o.outAt[p.PlayerID]; ok {
			return 0, n
		}
		return 0, o.n + 1
	}
	for i := 1; i < len(post.Rankings); i++ {
		a, b := post.find(post.Rankings[i-1].PlayerID), post.find(post.Rankings[i].PlayerID)
		ca, na := key(a)
		cb, nb := key(b)
		bad := ca < cb || (ca == cb && ca == 0 && na < nb) || (ca == cb && (ca > 0 || na == nb) && a.JoinAt > b.JoinAt)
		if bad {
			w.fail("final ranking puts %s (chips %d, out in step %d, entered %d) before %s (chips %d, out in step %d, entered %d)", a.PlayerID, a.Chips, na, a.JoinAt, b.PlayerID, b.Chips, nb, b.JoinAt)
			return
		}
	}
	for _, r := range o.notices {
		if (r.Comp.stopped() || r.Seq >= s.From) && pos[r.PlayerID] != r.Rank {
			w.fail("%s was told final rank %d (%s) and ended at %d", r.PlayerID, r.Rank, r.At.UTC().Format("15:04:05.000"), pos[r.PlayerID])
			return
		}
	}
}

// ---- C12 live ranks --------------------------------------------------------------------

type oC12 struct {
	NopOracle
	bust   map[string]int64
	out    map[string]int
	seen   int
	mixed  int
	tables int
}

func (o *oC12) Rec(w *World, r *Rec) {
	if w.viol != nil {
		return
	}
	if r.Kind == "player" {
		p := r.Player
		if p.Status == stRebuy {
			if _, ok := o.bust[p.PlayerID]; !ok {
				o.bust[p.PlayerID] = r.At.Unix()
			}
		} else {
			delete(o.bust, p.PlayerID)
		}
		if _, ok := o.out[p.PlayerID]; p.Status == stKnock && !ok {
			o.out[p.PlayerID] = len(w.steps)
		}
	}
	if r.Kind != "state" || r.Name != "PlayerRankUpdated" {
		return
	}
	o.seen++
	by := map[int]*pc.CompetitionPlayer{}
	n, zeros := 0, 0
	for i := range r.Comp.Players {
		p := &r.Comp.Players[i]
		if !(p.Chips > 0 || p.Status == stRebuy || p.Status == stKnock) {
			continue
		}
		n++
		if p.Chips == 0 {
			zeros++
		}
		if by[p.CompetitionRank] != nil {
			w.fail("%s and %s both have rank %d", by[p.CompetitionRank].PlayerID, p.PlayerID, p.CompetitionRank)
			return
		}
		by[p.CompetitionRank] = p
	}
	if zeros > 1 && n > zeros {
		o.mixed++
	}
	class := func(p *pc.CompetitionPlayer) int {
		switch {
		case p.Chips > 0:
			return 0
		case p.Status == stRebuy:
			return 1
		}
		return 2
	}
	for k := 1; k <= n; k++ {
		b := by[k]
		if b == nil {
			w.fail("nobody has rank %d of %d", k, n)
			return
		}
		if k == 1 {
			continue
		}
		a := by[k-1]
		ca, cb := class(a), class(b)
		bad := ca > cb
		if ca == cb {
			switch ca {
			case 0:
				bad = a.Chips < b.Chips || a.Chips == b.Chips && a.JoinAt > b.JoinAt
			case 1:
				bad = o.bust[a.PlayerID] < o.bust[b.PlayerID]
			case 2:
				ta, tb := o.out[a.PlayerID], o.out[b.PlayerID]
				bad = ta < tb || ta == tb && a.JoinAt > b.JoinAt
			}
		}
		if bad {
			d := func(p *pc.CompetitionPlayer) string {
				return fmt.Sprintf("%s (%s, chips %d, entered %d, bust %d, out in step %d)", p.PlayerID, p.Status, p.Chips, p.JoinAt, o.bust[p.PlayerID], o.out[p.PlayerID])
			}
			w.fail("rank %d %s is ahead of %s", k-1, d(a), d(b))
			return
		}
	}
}

func (o *oC12) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	for id := range o.bust {
		if s.Post.find(id) == nil {
			delete(o.bust, id)
		}
	}
	r := w.settleRec(s)
	if r == nil || !taken(s, r) {
		return
	}
	o.tables++
	part := map[string]bool{}
	for _, id := range r.Leave {
		part[id] = true
	}
	by := map[int]PSnap{}
	n := 0
	for _, ps := range r.TS.PS {
		p := s.Post.find(ps.ID)
		if p == nil {
			if s.Pre.find(ps.ID) != nil && part[ps.ID] { // paid out with this hand
				return
			}
			continue
		}
		if !part[ps.ID] {
			if p.TableRank != 0 || p.Rank != 0 {
				w.fail("%s sat the hand out but has table rank %d/%d", ps.ID, p.TableRank, p.Rank)
			}
			continue
		}
		n++
		if p.Rank != p.TableRank || by[p.TableRank].ID != "" {
			w.fail("table rank of %s is %d/%d (also %s)", ps.ID, p.TableRank, p.Rank, by[p.TableRank].ID)
			return
		}
		by[p.TableRank] = ps
	}
	for k := 1; k <= n; k++ {
		if by[k].ID == "" {
			w.fail("nobody has table rank %d of %d", k, n)
			return
		}
		if k > 1 {
			a, b := by[k-1], by[k]
			ja, jb := s.Post.find(a.ID).JoinAt, s.Post.find(b.ID).JoinAt
			if a.Bankroll < b.Bankroll || a.Bankroll == b.Bankroll && ja > jb {
				w.fail("table rank %d %s (%d chips, entered %d) is ahead of %s (%d chips, entered %d)", k-1, a.ID, a.Bankroll, ja, b.ID, b.Bankroll, jb)
				return
			}
		}
	}
}

// ---- C13 counters ----------------------------------------------------------------------

type oC13 struct {
	NopOracle
	l       *ledger
	seen    int
	settled int
	rich    int
}

func (o *oC13) Rec(w *World, r *Rec) {
	if w.viol != nil || r.Kind != "state" {
		return
	}
	o.seen++
	n := map[pc.CompetitionPlayerStatus]int{}
	for i := range r.Comp.Players {
		n[r.Comp.Players[i].Status]++
	}
	if len(n) > 1 {
		o.rich++
	}
	st := r.Comp.Stat
	if st.PlayingPlayerCount != n[stPlaying] || st.WaitingTableBalancingPlayerCount != n[stWaiting] || st.ReBuyWaitingPlayerCount != n[stRebuy] || st.KnockoutPlayerCount != n[stKnock] {
		w.fail("%s publishes %d playing, %d waiting, %d re-buy waiting, %d knocked out; the players are %v", r.Name, st.PlayingPlayerCount, st.WaitingTableBalancingPlayerCount, st.ReBuyWaitingPlayerCount, st.KnockoutPlayerCount, n)
	}
}

func (o *oC13) Step(w *World, s *Step) {
	if w.viol != nil {
		return
	}
	o.l.step(w, s)
	if w.plan.Mode == "cash" {
		return
	}
	if s.Post.Stat.TotalBuyInCount != o.l.buyins || s.Post.Stat.TotalAddonCount != o.l.addons {
		w.fail("totals are %d buy-ins and %d add-ons, accepted were %d and %d", s.Post.Stat.TotalBuyInCount, s.Post.Stat.TotalAddonCount, o.l.buyins, o.l.addons)
	}
}

var _ = pokertable.ErrTableNoEmptySeats

func init() {
	simProp("C08", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt", "mtt"}, MaxOps: 16, Break: 25, Sched: 10, ForceMin: true, CloseEnd: true, AdvPct: 10,
			OpW: map[string]int{"buyin": 2, "rebuy": 6, "addon": 5, "refund": 1, "quit": 1, "dup": 1}})
	}, func() Oracle { return &oC08{l: newLedger(), seen: map[string]bool{}} }, "at least two settled hands and a re-buy, an add-on or a move between tables", func(w *World) bool {
		o := w.orcs[0].(*oC08)
		w.classes["moves"], w.classes["rebuys+addons"], w.classes["final sums"] = o.moves, o.more, o.checks
		return o.hands >= 2 && o.moves+o.more > 0
	})
	simProp("C09", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt", "cash"}, MaxOps: 16, Break: 15, ForceMin: true, CloseEnd: true, AdvPct: 10,
			OpW: map[string]int{"buyin": 2, "rebuy": 4, "dup": 8, "resend": 3, "cashout": 2, "topup": 1, "addon": 1}})
	}, func() Oracle {
		return &oC09{model: map[string]pc.CompetitionPlayer{}, combos: map[string]map[string]bool{}}
	}, "at least two hands were settled and a settled hand was reported again", func(w *World) bool {
		o := w.orcs[0].(*oC09)
		w.classes["wins"], w.classes["walks"], w.classes["repeats"] = o.wins, o.walks, o.dups
		return o.hands >= 2 && o.dups > 0
	})
	simProp("C10", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt"}, MaxOps: 16, Break: 10, ForceMin: true, AdvPct: 15, Final: []int{-1, 100, 100, 100, 100, -2}, ReMax: []int{0, 1, 1, 2, 3},
			OpW: map[string]int{"buyin": 2, "rebuy": 8, "rebuyX": 1, "quit": 1, "addon": 1, "dup": 1}})
	}, func() Oracle { return &oC10{ann: map[string]int{}, ko: map[string]bool{}} }, "a player was knocked out and another one waited for a re-buy", func(w *World) bool {
		o := w.orcs[0].(*oC10)
		w.classes["knocked out by a hand"], w.classes["knocked out at the stop"], w.classes["put on re-buy waiting"] = o.koHand, o.koStop, o.waits
		return o.koHand+o.koStop > 0 && o.waits > 0
	})
	simProp("C11", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt"}, MaxOps: 12, Break: 10, ForceMin: true, AdvPct: 20, CloseEnd: true, ReMax: []int{0, 0, 1, 2}, ShortDur: 20,
			OpW: map[string]int{"buyin": 3, "rebuy": 5, "addon": 1, "close": 0}})
	}, func() Oracle { return &oC11{outAt: map[string]int{}} }, "the tournament ended with at least two eliminated players", func(w *World) bool {
		o := w.orcs[0].(*oC11)
		w.classes["ranked with chips"], w.classes["ranked without chips"], w.classes["same-hand eliminations"] = o.ranked, o.out, o.groups
		return o.endSeen && o.out >= 2
	})
	simProp("C12", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt", "cash"}, CashOpen: true, MaxOps: 14, Break: 10, ForceMin: true, AdvPct: 10, ReMax: []int{0, 1, 1, 2}, Final: []int{-2, -1, 100, 100, 100},
			OpW: map[string]int{"buyin": 3, "rebuy": 4, "addon": 2, "cashout": 1, "topup": 1}})
	}, func() Oracle { return &oC12{bust: map[string]int64{}, out: map[string]int{}} }, "ranks were announced with players with chips and at least two without", func(w *World) bool {
		o := w.orcs[0].(*oC12)
		w.classes["rankings"], w.classes["table rankings"] = o.seen, o.tables
		return o.mixed > 0
	})
	simProp("C13", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt", "cash"}, MaxOps: 18, Break: 15, ForceMin: true, AdvPct: 10, Sched: 10,
			OpW: map[string]int{"buyin": 3, "again": 1, "rebuy": 5, "addon": 3, "refund": 1, "quit": 1, "cashout": 1, "topup": 1}})
	}, func() Oracle { return &oC13{l: newLedger()} }, "a counted announcement was made with players in at least two different states", func(w *World) bool {
		o := w.orcs[0].(*oC13)
		w.classes["announcements"] = o.seen
		return o.rich > 0
	})
}
