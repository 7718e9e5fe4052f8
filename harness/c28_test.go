package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokertable"
	"pgregory.net/rapid"
)

func init() {
	register(&Prop{ID: "C28", Gen: genC28, Run: runC28, Rule: "a run of at least two settled hands that came to an end, or a layer case with at least three forwarded calls"})
}

func genC28(rt *rapid.T) *Plan {
	if pct(rt, 35, "layer") {
		return genC28Layer(rt)
	}
	p := &Plan{Mode: rapid.SampledFrom([]string{"ct", "ct", "mtt", "mtt", "cash"}).Draw(rt, "mode")}
	c := &p.Cfg
	c.MinPlayers, c.TableMin, c.ActionTimeS = 2, 2, rapid.SampledFrom([]int{1, 3, 10}).Draw(rt, "at")
	c.Rule = "default" // the table module opens no hands by the other rules
	c.MaxSeat = ri(rt, 2, 9, "seats")
	c.RegMin = 2
	c.StartIn, c.DisableIn, c.ContinueMs = rapid.SampledFrom([]int{-1, -1, 20}).Draw(rt, "start"), 100000, 1000
	n := ri(rt, 2, 6, "levels")
	sb := int64(ri(rt, 1, 5, "sb"))
	for i := 0; i < n; i++ {
		l := LevelSpec{Level: i + 1, SB: sb, BB: 2 * sb, Dur: ri(rt, 20, 120, "dur"), Addon: pct(rt, 30, "addon")}
		if pct(rt, 40, "ante?") {
			l.Ante = sb
		}
		if i > 0 && i < n-1 && pct(rt, 30, "break") {
			l = LevelSpec{Level: -1, Dur: ri(rt, 5, 60, "bdur"), Addon: true}
		}
		c.Levels = append(c.Levels, l)
		sb *= int64(ri(rt, 1, 4, "mul"))
	}
	c.Levels = append(c.Levels, LevelSpec{Level: n + 1, SB: 500, BB: 1000, Dur: 100000})
	c.InitialLevel = 1
	c.DealerTime = rapid.SampledFrom([]int{0, 1}).Draw(rt, "dt")
	c.FinalIdx = ri(rt, 0, n-1, "final")
	c.ReMax, c.ReWait, c.AddonMax = rapid.SampledFrom([]int{0, 1, 2}).Draw(rt, "re"), ri(rt, 3, 20, "rw"), 1
	c.BreakOnly = pct(rt, 50, "bo")
	c.MaxDur = 100000
	if p.Mode == "ct" && pct(rt, 30, "short") {
		c.MaxDur = ri(rt, 60, 400, "maxdur")
	}
	switch p.Mode {
	case "cash":
		c.FinalIdx = -1
		c.ReMax = -1
	}
	np := ri(rt, 2, c.MaxSeat, "players")
	if p.Mode == "mtt" {
		c.MaxSeat = ri(rt, 4, 9, "mttseats")
		np = ri(rt, 2, 16, "players")
	}
	c.MinPlayers = 2
	for i := 0; i < np; i++ {
		o := Op{Kind: "buyin", P: i, Chips: int64(ri(rt, 20, 300, "chips")), N: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(rt, "who")}
		if i > 1 && pct(rt, 25, "late") {
			o.DtMs = ri(rt, 1, 60000, "dt")
		}
		p.Ops = append(p.Ops, o)
	}
	k := ri(rt, 0, 6, "more")
	kinds := []string{"addon", "rebuy", "rebuy", "quit"}
	if p.Mode == "cash" {
		kinds = []string{"rebuy", "rebuy", "cashout"}
	}
	for i := 0; i < k; i++ {
		p.Ops = append(p.Ops, Op{Kind: rapid.SampledFrom(kinds).Draw(rt, "op"), P: ri(rt, 0, np-1, "p"), Chips: int64(ri(rt, 20, 300, "chips")), DtMs: ri(rt, 0, 60000, "dt")})
	}
	p.HorizonS = 4 * 3600
	if p.Mode == "cash" {
		p.HorizonS = ri(rt, 30, 400, "hz")
	}
	p.When = "run"
	p.Sched = []int{int(rapid.Int32().Draw(rt, "seed"))}
	return p
}

// teeBackend is the bundled backend; it also shows the tables' events to the
// players.
type teeBackend struct {
	pc.TableManagerBackend
	see func(t *pokertable.Table)
	log func(f string, a ...any)
}

func (b *teeBackend) OnTableUpdated(fn func(t *pokertable.Table)) {
	b.TableManagerBackend.OnTableUpdated(func(t *pokertable.Table) {
		x, err := t.Clone()
		if err != nil {
			panic(err)
		}
		b.see(x)
		fn(t)
	})
}

func (b *teeBackend) SetUpTableGame(tid string, n int, ps map[string]int) error {
	if c28Trace {
		b.log("set up hand %d of %s: %v", n, shortT(tid), ps)
	}
	return b.TableManagerBackend.SetUpTableGame(tid, n, ps)
}

type c28 struct {
	mu      sync.Mutex
	p       *Plan
	tm      pokertable.Manager
	cm      pc.Manager
	eng     pc.CompetitionEngine
	start   time.Time
	trace   []string
	seats   map[string]chan *pokertable.Table // table/player
	hands   map[string]int64                  // settled hands per player
	games   map[string]bool
	last    map[string]*pokertable.Table // last state per table
	lastAt  map[string]time.Time
	gaveUp  map[string]bool // the table module gave up opening a hand
	wired   map[string]bool
	settled map[string]int64 // chips per player after his last hand
	paidIn  map[string]int64
	paidOut map[string]int64
	final   map[string][]int
	errs    []string
	ended   bool
	who     map[string]int
	more    map[string]bool // bought chips after his last settled hand
	viol    *Violation
	classes map[string]int
	level   []c28lv
}

type c28lv struct {
	at time.Time
	b  pokertable.TableBlindState
}

func (s *c28) tr(f string, a ...any) {
	s.trace = append(s.trace, fmt.Sprintf("%9.3fs ", time.Since(s.start).Seconds())+fmt.Sprintf(f, a...))
}

func (s *c28) fail(f string, a ...any) {
	if s.viol == nil {
		s.viol = &Violation{Msg: fmt.Sprintf(f, a...)}
		s.tr("FAIL: "+f, a...)
	}
}

// see takes a table event: it notes settled hands and feeds the players.
func (s *c28) see(t *pokertable.Table) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.last[t.ID] = t
	s.lastAt[t.ID] = time.Now()
	if c28Trace {
		x := ""
		if gs := t.State.GameState; gs != nil {
			x = fmt.Sprintf(" %s %s cur=%d", gs.Status.Round, gs.Status.CurrentEvent, gs.Status.CurrentPlayer)
			for _, q := range gs.Players {
				x += fmt.Sprintf(" %d:%v", q.Idx, q.AllowedActions)
			}
		}
		s.tr("   %s #%d %s%s", shortT(t.ID), t.UpdateSerial, t.State.Status, x)
	}
	if t.State.Status == pokertable.TableStateStatus_TableGameSettled && t.State.GameState != nil && !s.ended && !s.games[t.State.GameState.GameID] {
		s.games[t.State.GameState.GameID] = true
		x := ""
		for _, r := range t.State.GameState.Result.Players {
			if r.Idx < len(t.State.GamePlayerIndexes) {
				ps := t.State.PlayerStates[t.State.GamePlayerIndexes[r.Idx]]
				s.hands[ps.PlayerID]++
				s.settled[ps.PlayerID] = ps.Bankroll
				s.more[ps.PlayerID] = false
				x += fmt.Sprintf(" %s=%d", ps.PlayerID, ps.Bankroll)
			}
		}
		s.tr("%s hand %d settled:%s", shortT(t.ID), t.State.GameCount, x)
		s.checkBlind(t)
	}
	if t.State.Status == pokertable.TableStateStatus_TableGameStandby {
		return
	}
	for _, ps := range t.State.PlayerStates {
		k := t.ID + "/" + ps.PlayerID
		if s.seats[k] == nil {
			if _, err := s.tm.GetTableEngine(t.ID); err != nil { // just being created
				go func() {
					time.Sleep(50 * time.Millisecond)
					if _, err := s.tm.GetTableEngine(t.ID); err == nil {
						s.mu.Lock()
						x := s.last[t.ID]
						s.mu.Unlock()
						s.see(x)
					}
				}()
				return
			}
			s.seats[k] = s.player(t, ps.PlayerID)
		}
	}
	for k, ch := range s.seats {
		if strings.HasPrefix(k, t.ID+"/") {
			x, _ := t.Clone()
			select {
			case ch <- x:
			default:
				panic("queue full")
			}
		}
	}
}

// checkBlind: a hand is played at a blind level that was current when it was
// opened.
func (s *c28) checkBlind(t *pokertable.Table) {
	g := t.State.GameBlindState
	if g == nil {
		return
	}
	opened := time.Unix(t.State.GameState.CreatedAt, 0)
	if t.State.GameState.CreatedAt > 1e11 {
		opened = time.UnixMilli(t.State.GameState.CreatedAt)
	}
	var cur *c28lv
	for i := range s.level {
		l := &s.level[i]
		if l.at.After(opened.Add(time.Second)) {
			break
		}
		cur = l
		// levels of the second before count as well
		if i+1 < len(s.level) && s.level[i+1].at.Before(opened.Add(-time.Second)) {
			continue
		}
		if l.b == *g {
			return
		}
	}
	if cur != nil {
		s.fail("hand %d of %s was played at %+v, the current level was %+v", t.State.GameCount, shortT(t.ID), *g, cur.b)
	}
}

func shortT(id string) string {
	if i := strings.LastIndex(id, "-"); i >= 0 && len(id)-i < 6 {
		return id[i+1:]
	}
	if len(id) > 6 {
		return id[:6]
	}
	return id
}

func (s *c28) player(t *pokertable.Table, id string) chan *pokertable.Table {
	te, err := s.tm.GetTableEngine(t.ID)
	if err != nil {
		return nil
	}
	a := actor.NewActor()
	a.SetAdapter(actor.NewTableEngineAdapter(te, t))
	if s.who[id] == 2 {
		a.SetRunner(actor.NewPlayerRunner(id))
	} else {
		bot := actor.NewBotRunner(id)
		bot.Humanized(s.who[id] == 1)
		bot.OnTableAutoJoinActionRequested(func(cid, tid, pid string) {
			go func() {
				if err := s.tm.PlayerJoin(tid, pid); err != nil {
					s.mu.Lock()
					s.tr("%s joins %s: %v", pid, shortT(tid), err)
					s.mu.Unlock()
				}
			}()
		})
		a.SetRunner(bot)
	}
	ch := make(chan *pokertable.Table, 4096)
	go func() {
		for x := range ch {
			time.Sleep(3 * time.Millisecond) // states are told apart by their time
			_ = a.GetTable().UpdateTableState(x)
		}
	}()
	return ch
}

func runC28(t *testing.T, p *Plan) *Result {
	if p.When == "layer" {
		return runC28Layer(t, p)
	}
	rand.Seed(int64(p.Sched[0]))
	s := &c28{p: p, seats: map[string]chan *pokertable.Table{}, hands: map[string]int64{}, games: map[string]bool{}, last: map[string]*pokertable.Table{}, settled: map[string]int64{}, lastAt: map[string]time.Time{}, gaveUp: map[string]bool{}, wired: map[string]bool{},
		paidIn: map[string]int64{}, paidOut: map[string]int64{}, final: map[string][]int{}, who: map[string]int{}, more: map[string]bool{}, classes: map[string]int{}}
	func() {
		defer func() {
			// the table module leaves goroutines behind that wait for ever
			if r := recover(); r != nil && !strings.Contains(fmt.Sprint(r), "deadlock") {
				panic(r)
			}
		}()
		synctest.Test(t, func(t *testing.T) { s.run() })
	}()
	res := &Result{Viol: s.viol, Classes: s.classes}
	res.NonTriv = s.ended && len(s.games) >= 2
	if s.viol != nil || c28Trace {
		res.Trace = strings.Join(s.trace, "\n")
	}
	s.classes["mode:"+p.Mode]++
	s.classes["hands"] += len(s.games)
	res.Sample = fmt.Sprintf("%s %s %d seats, %d players, %d levels, %d hands, ended %v", p.Mode, p.Cfg.Rule, p.Cfg.MaxSeat, len(s.who), len(p.Cfg.Levels), len(s.games), s.ended)
	return res
}

func (s *c28) run() {
	p := s.p
	s.start = time.Now()
	s.tm = pokertable.NewManager()
	be := &teeBackend{TableManagerBackend: pc.NewNativeTableManagerBackend(s.tm), see: s.see, log: func(f string, a ...any) { s.mu.Lock(); s.tr(f, a...); s.mu.Unlock() }}
	s.cm = pc.NewManager(be)
	o := pokertable.NewTableEngineOptions()
	o.GameContinueInterval, o.OpenGameTimeout = 1, 2
	s.cm.SetTableEngineOptions(o)
	opt := pc.NewDefaultCompetitionEngineOptions()
	locked := func(fn func()) { s.mu.Lock(); defer s.mu.Unlock(); fn() }
	seen := 0
	opt.OnCompetitionUpdated = func(c *pc.Competition) {
		x := snapComp(c)
		locked(func() {
			if x.CLI >= 0 && x.CLI != seen-1 {
				seen = x.CLI + 1
				l := p.Cfg.Levels[x.CLI]
				b := pokertable.TableBlindState{Level: l.Level, Ante: l.Ante, SB: l.SB, BB: l.BB}
				if p.Cfg.DealerTime > 0 {
					b.Dealer = l.Ante * (int64(p.Cfg.DealerTime) - 1)
				}
				s.level = append(s.level, c28lv{time.Now(), b})
				s.tr("level %d", l.Level)
			}
			if x.Status == string(pc.CompetitionStateStatus_End) {
				s.ended = true
			}
		})
	}
	opt.OnCompetitionErrorUpdated = func(c *pc.Competition, err error) {
		locked(func() { s.errs = append(s.errs, err.Error()); s.tr("error: %v", err) })
	}
	opt.OnCompetitionFinalPlayerRankUpdated = func(cid, pid string, rank int) {
		locked(func() { s.final[pid] = append(s.final[pid], rank); s.tr("final rank of %s: %d", pid, rank) })
	}
	opt.OnCompetitionStateUpdated = func(ev string, c *pc.Competition) {
		st := c.State.Status
		locked(func() { s.tr("%s: %s", ev, st) })
	}
	opt.OnCompetitionPlayerCashOut = func(cid string, cp *pc.CompetitionPlayer) {
		locked(func() { s.paidOut[cp.PlayerID] += cp.Chips; s.tr("%s cashes out %d", cp.PlayerID, cp.Chips) })
	}
	comp, err := s.cm.CreateCompetition(p.setting("c28"), opt)
	if err != nil {
		s.fail("create: %v", err)
		return
	}
	s.eng, _ = s.cm.GetCompetitionEngine(comp.ID)
	wireEnd := func() {
		for _, t := range s.eng.GetCompetition().State.Tables {
			if te, err := s.tm.GetTableEngine(t.ID); err == nil {
				te.OnAutoGameOpenEnd(func(cid, tid string) { s.cm.AutoGameOpenEnd(cid, tid) })
			}
		}
	}
	wireEnd()
	// inHand: the player's table is between the opening of a hand and its end
	inHand := func(id string) bool {
		for _, cp := range s.eng.GetCompetition().State.Players {
			if cp.PlayerID != id {
				continue
			}
			te, err := s.tm.GetTableEngine(cp.CurrentTableID)
			if err != nil {
				return false
			}
			switch te.GetTable().State.Status {
			case pokertable.TableStateStatus_TableGameOpened, pokertable.TableStateStatus_TableGamePlaying, pokertable.TableStateStatus_TableGameSettled:
				return cp.Chips > 0
			}
		}
		return false
	}
	op := func(o Op) {
		id := fmt.Sprintf("p%d", o.P)
		if !p.InHand && (o.Kind == "addon" || o.Kind == "rebuy") && inHand(id) {
			// known finding: chips added during a hand are lost
			locked(func() { s.classes["in hand: "+o.Kind+" skipped"]++ })
			return
		}
		jp := pc.JoinPlayer{PlayerID: id, RedeemChips: o.Chips}
		tid := "c28-t0"
		var err error
		switch o.Kind {
		case "buyin", "rebuy":
			err = s.cm.PlayerBuyIn(comp.ID, jp)
			if err == nil {
				s.paidIn[id] += o.Chips
			}
		case "addon":
			for _, cp := range s.eng.GetCompetition().State.Players {
				if cp.PlayerID == id {
					tid = cp.CurrentTableID
				}
			}
			err = s.cm.PlayerAddon(comp.ID, tid, jp)
			if err == nil {
				s.paidIn[id] += o.Chips
			}
		case "quit":
			for _, cp := range s.eng.GetCompetition().State.Players {
				if cp.PlayerID == id && cp.Chips > 0 {
					return
				}
			}
			err = s.cm.PlayerQuit(comp.ID, tid, id)
		case "cashout":
			err = s.cm.PlayerCashOut(comp.ID, tid, id)
		}
		s.mu.Lock()
		s.more[id] = s.more[id] || err == nil
		s.tr("%s %s %d: %v", o.Kind, id, o.Chips, err)
		k := o.Kind
		if err != nil {
			k += "!"
		}
		s.classes[k]++
		s.mu.Unlock()
	}
	first := []Op{}
	later := []Op{}
	for _, o := range p.Ops {
		if o.Kind == "buyin" {
			s.who[fmt.Sprintf("p%d", o.P)] = o.N
		}
		if o.Kind == "buyin" && o.DtMs == 0 {
			first = append(first, o)
		} else {
			later = append(later, o)
		}
	}
	for _, o := range first {
		op(o)
	}
	if p.Mode != "ct" || p.Cfg.StartIn >= 0 {
		time.Sleep(time.Second)
	}
	if p.Mode == "mtt" && p.Cfg.StartIn < 0 || p.Mode == "cash" {
		_, err := s.cm.StartCompetition(comp.ID)
		s.tr("start: %v", err)
	}
	sort.SliceStable(later, func(i, j int) bool { return later[i].DtMs < later[j].DtMs })
	base := time.Now()
	end := base.Add(time.Duration(p.HorizonS) * time.Second)
	next := 0
	for time.Now().Before(end) {
		s.mu.Lock()
		stop := s.ended
		s.mu.Unlock()
		if stop {
			break
		}
		for next < len(later) && !time.Now().Before(base.Add(time.Duration(later[next].DtMs)*time.Millisecond)) {
			op(later[next])
			next++
		}
		s.nudge()
		time.Sleep(500 * time.Millisecond)
	}
	if p.Mode == "cash" {
		if err := s.cm.CloseCompetition(comp.ID, pc.CompetitionStateStatus_End); err != nil {
			s.fail("close: %v", err)
		}
	}
	time.Sleep(40 * time.Second)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.judge()
	for _, ch := range s.seats {
		close(ch)
	}
	s.seats = map[string]chan *pokertable.Table{}
}

// nudge opens the next hand of a table that the table module has forgotten:
// it only counts the players of the last hand, so when all but one of them
// bust, players who sat that hand out wait for ever. It also gives up opening
// a hand after some attempts, each of which fails at random on tables with
// fewer than nine seats.
func (s *c28) nudge() {
	s.mu.Lock()
	type job struct {
		id string
		n  int
		ps map[string]int
	}
	jobs := []job{}
	for id := range s.last {
		te, err := s.tm.GetTableEngine(id)
		if err != nil {
			continue
		}
		if !s.wired[id] {
			s.wired[id] = true
			te.OnTableErrorUpdated(func(_ *pokertable.Table, err error) {
				s.mu.Lock()
				defer s.mu.Unlock()
				s.tr("table error of %s: %v", shortT(id), err)
				s.gaveUp[id] = s.gaveUp[id] || errors.Is(err, pokertable.ErrTableOpenGameFailed)
			})
		}
		st := te.GetTable().State.Status
		if !s.gaveUp[id] && (st != pokertable.TableStateStatus_TableGameStandby || time.Since(s.lastAt[id]) < 25*time.Second) || te.GetTable().State.BlindState.Level <= 0 {
			continue
		}
		delete(s.gaveUp, id)
		ps := map[string]int{}
		for i, p := range te.GetTable().State.PlayerStates {
			if p.Bankroll > 0 && p.IsIn {
				ps[p.PlayerID] = i
			}
		}
		if len(ps) >= 2 {
			s.lastAt[id] = time.Now()
			jobs = append(jobs, job{id, te.GetTable().State.GameCount + 1, ps})
			s.classes["nudges"]++
			s.tr("nudge %s %v", shortT(id), ps)
		}
	}
	s.mu.Unlock()
	for _, j := range jobs {
		_ = s.tm.SetUpTableGame(j.id, j.n, j.ps)
	}
}

func (s *c28) judge() {
	c := snapComp(s.eng.GetCompetition())
	if !s.ended {
		tb := ""
		live, playable := 0, false
		for _, cp := range c.Players {
			if cp.Chips > 0 {
				live++
			}
		}
		for _, t := range s.last {
			n := 0
			for _, ps := range t.State.PlayerStates {
				if ps.Bankroll > 0 {
					n++
				}
			}
			playable = playable || n >= 2 && t.State.Status != pokertable.TableStateStatus_TableClosed
		}
		if s.p.Mode == "mtt" && live >= 2 && !playable {
			// the regulator leaves single players at tables of their own
			s.classes["regulator stalls"]++
			return
		}
		for id, t := range s.last {
			tb += fmt.Sprintf(" %s:%s#%d", shortT(id), t.State.Status, t.State.GameCount)
			if gs := t.State.GameState; gs != nil {
				tb += fmt.Sprintf(" %s %s player %d", gs.Status.Round, gs.Status.CurrentEvent, gs.Status.CurrentPlayer)
				for _, x := range gs.Players {
					tb += fmt.Sprintf(" %d:%v", x.Idx, x.AllowedActions)
				}
			}
			for _, ps := range t.State.PlayerStates {
				tb += fmt.Sprintf(" %s=%d(in %v, kind %d)", ps.PlayerID, ps.Bankroll, ps.IsIn, s.who[ps.PlayerID])
			}
		}
		s.fail("the competition did not end within %d s: status %s,%s, hands %d, errors %v", s.p.HorizonS, c.Status, tb, len(s.games), s.errs)
		return
	}
	var in, out, now int64
	for _, v := range s.paidIn {
		in += v
	}
	for _, v := range s.paidOut {
		out += v
	}
	for _, cp := range c.Players {
		now += cp.Chips
		if cp.TotalGameCounts != s.hands[cp.PlayerID] {
			s.fail("%s took part in %d settled hands, the competition counts %d", cp.PlayerID, s.hands[cp.PlayerID], cp.TotalGameCounts)
		}
	}
	if in != now+out {
		s.fail("%d chips were paid in, %d are held by players and %d were paid out", in, now, out)
	}
	if s.p.Mode != "cash" && len(s.games) > 0 {
		place := map[string]int{}
		for i, r := range c.Rankings {
			if place[r.PlayerID] != 0 {
				s.fail("%s is ranked twice: %v", r.PlayerID, c.Rankings)
			}
			place[r.PlayerID] = i + 1
			if i > 0 && c.Rankings[i-1].FinalChips < r.FinalChips {
				s.fail("the ranking is not by chips: %v", c.Rankings)
			}
		}
		for _, cp := range c.Players {
			if place[cp.PlayerID] == 0 {
				s.fail("%s is missing in the ranking %v", cp.PlayerID, c.Rankings)
			} else if cp.CompetitionRank != place[cp.PlayerID] {
				s.fail("%s is on place %d of the ranking, his rank is %d", cp.PlayerID, place[cp.PlayerID], cp.CompetitionRank)
			}
		}
	}
	// what the tables say
	for _, cp := range c.Players {
		if v, ok := s.settled[cp.PlayerID]; ok && !s.more[cp.PlayerID] && s.paidOut[cp.PlayerID] == 0 && v != cp.Chips {
			s.fail("%s left his last hand with %d chips, the competition says %d", cp.PlayerID, v, cp.Chips)
		}
	}
}

var c28Trace = os.Getenv("VERIF_TRACE") != ""

// ---- the layer itself ----

func genC28Layer(rt *rapid.T) *Plan {
	p := &Plan{When: "layer", Mode: "layer"}
	n := ri(rt, 1, 12, "n")
	kinds := []string{"CreateTable", "PauseTable", "CloseTable", "StartTableGame", "SetUpTableGame", "UpdateBlind", "UpdateTablePlayers", "PlayerReserve", "PlayerJoin", "PlayerRedeemChips", "PlayersLeave", "ReleaseTable", "evTable", "evReserved", "evReady", "UpdateTable"}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{Kind: rapid.SampledFrom(kinds).Draw(rt, "k"), P: ri(rt, 0, 3, "p"), Chips: int64(ri(rt, 1, 999, "c")), Unit: ri(rt, 0, 4, "u"), N: ri(rt, 0, 99, "x")})
	}
	return p
}

// recManager records what reaches the table manager.
type recManager struct {
	pokertable.Manager
	calls []string
	cbs   []*pokertable.TableEngineCallbacks
	err   error
	seats map[string]int
	table *pokertable.Table
}

func (m *recManager) add(f string, a ...any) error {
	m.calls = append(m.calls, fmt.Sprintf(f, a...))
	return m.err
}
func (m *recManager) CreateTable(o *pokertable.TableEngineOptions, cb *pokertable.TableEngineCallbacks, s pokertable.TableSetting) (*pokertable.Table, error) {
	m.cbs = append(m.cbs, cb)
	m.add("CreateTable %p %s", o, mustJSON(s))
	if m.err != nil {
		return nil, m.err
	}
	return m.table, nil
}
func (m *recManager) PauseTable(t string) error     { return m.add("PauseTable %s", t) }
func (m *recManager) CloseTable(t string) error     { return m.add("CloseTable %s", t) }
func (m *recManager) StartTableGame(t string) error { return m.add("StartTableGame %s", t) }
func (m *recManager) ReleaseTable(t string) error   { return m.add("ReleaseTable %s", t) }
func (m *recManager) SetUpTableGame(t string, n int, ps map[string]int) error {
	return m.add("SetUpTableGame %s %d %v", t, n, ps)
}
func (m *recManager) UpdateBlind(t string, l int, a, d, s, b int64) error {
	return m.add("UpdateBlind %s %d %d %d %d %d", t, l, a, d, s, b)
}
func (m *recManager) UpdateTablePlayers(t string, j []pokertable.JoinPlayer, l []string) (map[string]int, error) {
	m.add("UpdateTablePlayers %s %v %v", t, j, l)
	if m.err != nil {
		return nil, m.err
	}
	return m.seats, nil
}
func (m *recManager) PlayerReserve(t string, j pokertable.JoinPlayer) error {
	return m.add("PlayerReserve %s %v", t, j)
}
func (m *recManager) PlayerJoin(t, p string) error { return m.add("PlayerJoin %s %s", t, p) }
func (m *recManager) PlayerRedeemChips(t string, j pokertable.JoinPlayer) error {
	return m.add("PlayerRedeemChips %s %v", t, j)
}
func (m *recManager) PlayersLeave(t string, ps []string) error {
	return m.add("PlayersLeave %s %v", t, ps)
}

func runC28Layer(t *testing.T, p *Plan) *Result {
	res := &Result{Classes: map[string]int{"mode:layer": 1}}
	fail := func(f string, a ...any) {
		if res.Viol == nil {
			res.Viol = &Violation{Msg: fmt.Sprintf(f, a...)}
			res.Trace = string(mustJSON(p.Ops))
		}
	}
	m := &recManager{}
	be := pc.NewNativeTableManagerBackend(m)
	type ev struct {
		kind string
		tbl  *pokertable.Table
		ps   *pokertable.TablePlayerState
		all  []*pokertable.TablePlayerState
		tid  string
		n    int
	}
	var evs []ev
	if p.Ops[0].N%5 > 0 { // otherwise nobody listens
		be.OnTableUpdated(func(t *pokertable.Table) { evs = append(evs, ev{kind: "table", tbl: t}) })
		be.OnTablePlayerReserved(func(tid string, ps *pokertable.TablePlayerState) {
			evs = append(evs, ev{kind: "reserved", tid: tid, ps: ps})
		})
		be.OnReadyOpenFirstTableGame(func(tid string, n int, ps []*pokertable.TablePlayerState) {
			evs = append(evs, ev{kind: "ready", tid: tid, n: n, all: ps})
		})
	}
	listening := p.Ops[0].N%5 > 0
	fwd := 0
	for _, o := range p.Ops {
		m.calls, evs, m.err, m.seats, m.table = nil, nil, nil, nil, nil
		if o.N%3 == 0 {
			m.err = errors.New("refused")
		}
		tid := fmt.Sprintf("t%d", o.P)
		jp := pokertable.JoinPlayer{PlayerID: fmt.Sprintf("p%d", o.Unit), RedeemChips: o.Chips, Seat: o.N%9 - 1}
		ids := []string{}
		jps := []pokertable.JoinPlayer{}
		parts := map[string]int{}
		states := []*pokertable.TablePlayerState{}
		for i := 0; i < o.Unit; i++ {
			ids = append(ids, fmt.Sprintf("q%d", (o.N+i)%7))
			jps = append(jps, pokertable.JoinPlayer{PlayerID: fmt.Sprintf("j%d", i), RedeemChips: o.Chips + int64(i), Seat: i})
			parts[fmt.Sprintf("q%d", i)] = (i + o.N) % 5
			states = append(states, &pokertable.TablePlayerState{PlayerID: fmt.Sprintf("q%d", i), Seat: i, Bankroll: o.Chips + int64(i), IsIn: i%2 == 0, Positions: []string{"bb"}})
		}
		opts := &pokertable.TableEngineOptions{GameContinueInterval: o.N, OpenGameTimeout: 2}
		set := pokertable.TableSetting{TableID: tid, JoinPlayers: jps, Meta: pokertable.TableMeta{CompetitionID: "c", TableMaxSeatCount: 9, MinChipUnit: o.Chips}, Blind: pokertable.TableBlindState{Level: o.N, Ante: 1, Dealer: 2, SB: 3, BB: 4}}
		tbl := &pokertable.Table{ID: tid, UpdateSerial: int64(o.N), Meta: set.Meta, State: &pokertable.TableState{Status: "x", GameCount: o.N, BlindState: &set.Blind, PlayerStates: states, SeatMap: []int{1, 2}, GamePlayerIndexes: []int{0}}}
		var err error
		want := ""
		switch o.Kind {
		case "CreateTable":
			m.table = tbl
			var got *pokertable.Table
			got, err = be.CreateTable(opts, set)
			want = fmt.Sprintf("CreateTable %p %s", opts, mustJSON(set))
			if err == nil && got != tbl {
				fail("CreateTable returns another table: %+v", got)
			}
		case "PauseTable":
			err, want = be.PauseTable(tid), "PauseTable "+tid
		case "CloseTable":
			err, want = be.CloseTable(tid), "CloseTable "+tid
		case "StartTableGame":
			err, want = be.StartTableGame(tid), "StartTableGame "+tid
		case "ReleaseTable":
			err, want = be.ReleaseTable(tid), "ReleaseTable "+tid
		case "SetUpTableGame":
			err, want = be.SetUpTableGame(tid, o.N, parts), fmt.Sprintf("SetUpTableGame %s %d %v", tid, o.N, parts)
		case "UpdateBlind":
			err, want = be.UpdateBlind(tid, o.N, 10+o.Chips, 20+o.Chips, 30+o.Chips, 40+o.Chips), fmt.Sprintf("UpdateBlind %s %d %d %d %d %d", tid, o.N, 10+o.Chips, 20+o.Chips, 30+o.Chips, 40+o.Chips)
		case "UpdateTablePlayers":
			m.seats = parts
			var got map[string]int
			got, err = be.UpdateTablePlayers(tid, jps, ids)
			want = fmt.Sprintf("UpdateTablePlayers %s %v %v", tid, jps, ids)
			if err == nil && !reflect.DeepEqual(got, parts) {
				fail("UpdateTablePlayers returns the seats %v instead of %v", got, parts)
			}
		case "PlayerReserve":
			err, want = be.PlayerReserve(tid, jp), fmt.Sprintf("PlayerReserve %s %v", tid, jp)
		case "PlayerJoin":
			err, want = be.PlayerJoin(tid, jp.PlayerID), fmt.Sprintf("PlayerJoin %s %s", tid, jp.PlayerID)
		case "PlayerRedeemChips":
			err, want = be.PlayerRedeemChips(tid, jp), fmt.Sprintf("PlayerRedeemChips %s %v", tid, jp)
		case "PlayersLeave":
			err, want = be.PlayersLeave(tid, ids), fmt.Sprintf("PlayersLeave %s %v", tid, ids)
		case "UpdateTable":
			be.UpdateTable(tbl)
			m.err = nil
			if listening && (len(evs) != 1 || !reflect.DeepEqual(evs[0].tbl, tbl)) {
				fail("UpdateTable hands on %d events", len(evs))
			}
		default:
			m.err = nil
			if len(m.cbs) == 0 {
				continue
			}
			cb := m.cbs[o.N%len(m.cbs)]
			switch o.Kind {
			case "evTable":
				before := mustJSON(tbl)
				cb.OnTableUpdated(tbl)
				if listening {
					if len(evs) != 1 || evs[0].kind != "table" || string(mustJSON(evs[0].tbl)) != string(before) {
						fail("a table event arrives as %s", mustJSON(evs))
					} else {
						x := evs[0].tbl
						x.ID, x.State.Status, x.State.BlindState.BB, x.State.SeatMap[0] = "changed", "changed", -5, -5
						for _, ps := range x.State.PlayerStates {
							ps.Bankroll = -5
						}
						if string(mustJSON(tbl)) != string(before) {
							fail("the table handed on is not a copy: %s became %s", before, mustJSON(tbl))
						}
					}
				}
			case "evReserved":
				if len(states) == 0 {
					continue
				}
				before := mustJSON(states[0])
				cb.OnTablePlayerReserved("c", tid, states[0])
				if listening {
					if len(evs) != 1 || evs[0].kind != "reserved" || evs[0].tid != tid || string(mustJSON(evs[0].ps)) != string(before) {
						fail("a reservation of %s at %s arrives as %s", before, tid, mustJSON(evs))
					} else if evs[0].ps == states[0] {
						fail("the player state handed on is not a copy")
					}
				}
			case "evReady":
				before := mustJSON(states)
				cb.OnReadyOpenFirstTableGame("c", tid, o.N, states)
				if listening {
					if len(evs) != 1 || evs[0].kind != "ready" || evs[0].tid != tid || evs[0].n != o.N || string(mustJSON(evs[0].all)) != string(before) {
						fail("the first hand of %s (%d) with %s arrives as %s", tid, o.N, before, mustJSON(evs))
					} else if len(states) > 0 && evs[0].all[0] == states[0] {
						fail("the player states handed on are not copies")
					}
				}
			}
			fwd++
		}
		if want != "" {
			fwd++
			res.Classes[o.Kind]++
			if len(m.calls) != 1 || m.calls[0] != want {
				fail("%s reached the table manager as %v instead of %s", o.Kind, m.calls, want)
			}
			if !errors.Is(err, m.err) || (m.err == nil) != (err == nil) {
				fail("%s returns %v, the table manager said %v", o.Kind, err, m.err)
			}
		}
	}
	res.NonTriv = fwd >= 3
	res.Sample = fmt.Sprintf("layer: %d calls and events", fwd)
	_ = json.Valid
	return res
}
