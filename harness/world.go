package harness

import (
	"container/heap"
	"encoding/json"
	"fmt"
	"sync/atomic"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

// ---- snapshots -----------------------------------------------------------

type PSnap struct {
	ID       string
	Seat     int
	Bankroll int64
	IsIn     bool
	IsPart   bool
}

type TableSnap struct {
	ID     string
	Status string
	Start  int64
	Count  int
	Blind  pokertable.TableBlindState
	PS     []PSnap
	Serial int64
}

func snapTable(t *pokertable.Table) *TableSnap {
	s := &TableSnap{ID: t.ID, Status: string(t.State.Status), Start: t.State.StartAt, Count: t.State.GameCount, Serial: t.UpdateSerial}
	if t.State.BlindState != nil {
		s.Blind = *t.State.BlindState
	}
	s.PS = make([]PSnap, len(t.State.PlayerStates))
	for i, p := range t.State.PlayerStates {
		s.PS[i] = PSnap{p.PlayerID, p.Seat, p.Bankroll, p.IsIn, p.IsParticipated}
	}
	return s
}

func (t *TableSnap) find(id string) *PSnap {
	for i := range t.PS {
		if t.PS[i].ID == id {
			return &t.PS[i]
		}
	}
	return nil
}
func (t *TableSnap) alive() int {
	n := 0
	for _, p := range t.PS {
		if p.Bankroll > 0 {
			n++
		}
	}
	return n
}
func (t *TableSnap) ready() int {
	n := 0
	for _, p := range t.PS {
		if p.Bankroll > 0 && p.IsIn {
			n++
		}
	}
	return n
}

type CompSnap struct {
	Serial, UpdateAt  int64
	ID                string
	Status            string
	OpenAt, DisableAt int64
	StartAt, EndAt    int64
	CLI, Final        int
	EndAts            []int64
	Players           []pc.CompetitionPlayer
	Tables            []*TableSnap
	Rankings          []pc.CompetitionRank
	Adv               pc.AdvanceState
	Stat              pc.Statistic
	AdvPlayers        int
}

func snapComp(c *pc.Competition) *CompSnap {
	if c == nil {
		return nil
	}
	s := &CompSnap{Serial: c.UpdateSerial, UpdateAt: c.UpdateAt, ID: c.ID, Status: string(c.State.Status), OpenAt: c.State.OpenAt, DisableAt: c.State.DisableAt,
		StartAt: c.State.StartAt, EndAt: c.State.EndAt, CLI: c.State.BlindState.CurrentLevelIndex, Final: c.State.BlindState.FinalBuyInLevelIndex,
		EndAts: append([]int64{}, c.State.BlindState.EndAts...), Adv: *c.State.AdvanceState, Stat: *c.State.Statistic, AdvPlayers: c.Meta.AdvanceSetting.PlayerCount}
	s.Adv.UpdatedTableIDs = append([]string{}, c.State.AdvanceState.UpdatedTableIDs...)
	s.Players = make([]pc.CompetitionPlayer, len(c.State.Players))
	for i, p := range c.State.Players {
		s.Players[i] = *p
		s.Players[i].BestWinningCombo = append([]string{}, p.BestWinningCombo...)
	}
	for _, t := range c.State.Tables {
		s.Tables = append(s.Tables, snapTable(t))
	}
	for _, r := range c.State.Rankings {
		s.Rankings = append(s.Rankings, *r)
	}
	return s
}

func (s *CompSnap) find(id string) *pc.CompetitionPlayer {
	for i := range s.Players {
		if s.Players[i].PlayerID == id {
			return &s.Players[i]
		}
	}
	return nil
}
func (s *CompSnap) table(id string) *TableSnap {
	for _, t := range s.Tables {
		if t.ID == id {
			return t
		}
	}
	return nil
}
func (s *CompSnap) ended() bool {
	return s.Status == "end" || s.Status == "auto_end" || s.Status == "force_end"
}
func (s *CompSnap) stopped() bool {
	if s.Final == -2 {
		return false
	}
	if s.Final == -1 {
		return true
	}
	return s.CLI > s.Final
}
func (s *CompSnap) withChips() int {
	n := 0
	for i := range s.Players {
		if s.Players[i].Chips > 0 {
			n++
		}
	}
	return n
}
func (s *CompSnap) breaking(p *Plan) bool {
	return s.CLI >= 0 && p.Cfg.Levels[s.CLI].Level == -1
}

// ---- records -------------------------------------------------------------

type Rec struct {
	Seq      int
	At       time.Time
	Kind     string // update state err player rank advance cashout created | call emit emitted reserved open settle settled | opstart opend
	Name     string
	Comp     *CompSnap
	Player   *pc.CompetitionPlayer
	PlayerID string
	Table    string
	Rank     int
	Seat     int
	Count    int
	Parts    map[string]int
	Join     []pokertable.JoinPlayer
	Leave    []string
	Blind    pokertable.TableBlindState
	TS       *TableSnap
	Full     *pokertable.Table
	Err      error
	Fault    bool
	CompID   string
}

func (r *Rec) String() string {
	s := fmt.Sprintf("#%d %s %s %s", r.Seq, r.At.UTC().Format("15:04:05.000"), r.Kind, r.Name)
	if r.Table != "" {
		s += " table=" + short(r.Table)
	}
	if r.PlayerID != "" {
		s += " player=" + r.PlayerID
	}
	if r.Player != nil {
		s += fmt.Sprintf(" player=%s chips=%d st=%s", r.Player.PlayerID, r.Player.Chips, r.Player.Status)
	}
	if r.Kind == "rank" || r.Kind == "advance" {
		s += fmt.Sprintf(" rank=%d", r.Rank)
	}
	if r.Kind == "call" || r.Kind == "open" || r.Kind == "settle" {
		s += fmt.Sprintf(" count=%d parts=%v join=%v leave=%v blind=%v", r.Count, r.Parts, r.Join, r.Leave, r.Blind)
	}
	if r.TS != nil {
		s += fmt.Sprintf(" [%s gc=%d %v]", r.TS.Status, r.TS.Count, r.TS.PS)
	}
	if r.Err != nil {
		s += " err=" + r.Err.Error()
	}
	if r.Comp != nil && r.Kind == "state" {
		s += fmt.Sprintf(" {%s cli=%d}", r.Comp.Status, r.Comp.CLI)
	}
	return s
}

func short(s string) string {
	if len(s) > 6 {
		return s[:6]
	}
	return s
}

// Step is one director action (or the gap between two actions) with the full
// state before and after it.
type Step struct {
	Kind      string // op gap open settle continue join autoend tick start
	Op        *Op
	Target    string // resolved player
	TableID   string
	Chips     int64
	Unit      int
	Err       error
	StartAt   int64
	Pre, Post *CompSnap
	PreF      map[string]*TableSnap // backend tables
	PostF     map[string]*TableSnap
	From, To  int // record range
	At        time.Time
	Done      bool
	EndedAt   time.Time
}

// Violation is a property failure.
type Violation struct {
	Msg string
}

type Oracle interface {
	Rec(w *World, r *Rec)
	Step(w *World, s *Step)
	End(w *World)
}

type NopOracle struct{}

func (NopOracle) Rec(*World, *Rec)   {}
func (NopOracle) Step(*World, *Step) {}
func (NopOracle) End(*World)         {}

// ---- event queue -----------------------------------------------------------

type event struct {
	at   time.Time
	seq  int
	name string
	fn   func()
	op   *Op
}
type evq []*event

func (q evq) Len() int { return len(q) }
func (q evq) Less(i, j int) bool {
	if q[i].at.Equal(q[j].at) {
		return q[i].seq < q[j].seq
	}
	return q[i].at.Before(q[j].at)
}
func (q evq) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *evq) Push(x any)   { *q = append(*q, x.(*event)) }
func (q *evq) Pop() any     { o := *q; n := len(o); e := o[n-1]; *q = o[:n-1]; return e }

// World is one simulated competition.
type World struct {
	plan      *Plan
	eng       pc.CompetitionEngine
	fake      *Fake
	comp      *pc.Competition
	recs      []*Rec
	steps     []*Step
	orcs      []Oracle
	viol      *Violation
	stopped   bool
	q         evq
	seq       int
	wake      chan struct{}
	busy      *Step // unfinished op
	t0        time.Time
	classes   map[string]int
	created   bool
	createErr error
	newID     int
	ids       []string // ids ever used in buy-in attempts
	endedAt   time.Time
	lastPost  *CompSnap
	lastPostF map[string]*TableSnap
	trace     bool
	advAsked  int
	manager   pc.Manager
	ops       int
	gapFrom   int
	blindAt   int64
	initLevel int
	endPre    *CompSnap
	hold      chan struct{} // the update handler waits for it
	held      bool
	until     func() bool // ends the run before the horizon
	loop      bool        // the known endless seating loop was cut short: nothing more is judged
	opJSON    []byte      // competition before a mutate/unknown operation
}

func (w *World) fail(format string, a ...any) {
	if w.viol == nil {
		w.viol = &Violation{Msg: fmt.Sprintf(format, a...)}
	}
}

func (w *World) class(s string) { w.classes[s]++ }

func (w *World) rec(kind, name string) *Rec {
	r := &Rec{Seq: len(w.recs), At: time.Now(), Kind: kind, Name: name}
	if !w.stopped {
		w.recs = append(w.recs, r)
	}
	return r
}

func (w *World) after(ms int, name string, fn func()) {
	if w.stopped {
		return
	}
	if ms < 1 {
		ms = 1
	}
	w.at(time.Now().Add(time.Duration(ms)*time.Millisecond), name, fn, nil)
}

func (w *World) at(t time.Time, name string, fn func(), op *Op) {
	// never collide with timers of the code under test, which sit on whole
	// seconds or copy the sub-second part of another event
	if name != "tick" && t.Nanosecond() == 0 {
		t = t.Add(7 * time.Millisecond)
	}
	w.seq++
	heap.Push(&w.q, &event{at: t, seq: w.seq, name: name, fn: fn, op: op})
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

func (w *World) snapF() map[string]*TableSnap {
	m := map[string]*TableSnap{}
	for id, t := range w.fake.tables {
		m[id] = snapTable(t.T)
	}
	return m
}

func (w *World) pop() *event { return heap.Pop(&w.q).(*event) }

var heartbeat atomic.Int64

// setting builds the competition setting of the plan.
func (p *Plan) setting(id string) pc.CompetitionSetting {
	c := p.Cfg
	now := time.Now().Unix()
	levels := []pc.BlindLevel{}
	for _, l := range c.Levels {
		levels = append(levels, pc.BlindLevel{Level: l.Level, SB: l.SB, BB: l.BB, Ante: l.Ante, Duration: l.Dur, AllowAddon: l.Addon})
	}
	st := int64(-1)
	if c.StartIn >= 0 {
		st = now + int64(c.StartIn)
	}
	s := pc.CompetitionSetting{CompetitionID: id, StartAt: st, DisableAt: now + int64(c.DisableIn), Meta: pc.CompetitionMeta{
		Blind:       pc.Blind{ID: "b", InitialLevel: c.InitialLevel, FinalBuyInLevelIndex: c.FinalIdx, DealerBlindTime: c.DealerTime, Levels: levels},
		MaxDuration: c.MaxDur, MinPlayerCount: c.MinPlayers, MaxPlayerCount: 100, TableMaxSeatCount: c.MaxSeat, TableMinPlayerCount: c.TableMin,
		RegulatorMinInitialPlayerCount: c.RegMin, Rule: pc.CompetitionRule(c.Rule), Mode: pc.CompetitionMode(p.Mode),
		ReBuySetting: pc.ReBuySetting{MaxTime: c.ReMax, WaitingTime: c.ReWait}, AddonSetting: pc.AddonSetting{IsBreakOnly: c.BreakOnly, RedeemChips: []int64{1000}, MaxTime: c.AddonMax},
		AdvanceSetting: pc.AdvanceSetting{Rule: pc.CompetitionAdvanceRule(c.AdvRule), PlayerCount: c.advConfigured(), BlindLevel: c.AdvLevel}, ActionTime: c.actionTime(), MinChipUnit: 1}}
	if p.Mode != "mtt" {
		s.TableSettings = []pc.TableSetting{{TableID: id + "-t0"}}
	}
	return s
}

func (w *World) wire() {
	e, o := w.eng, w.options()
	e.OnCompetitionUpdated(o.OnCompetitionUpdated)
	e.OnCompetitionErrorUpdated(o.OnCompetitionErrorUpdated)
	e.OnCompetitionPlayerUpdated(o.OnCompetitionPlayerUpdated)
	e.OnCompetitionFinalPlayerRankUpdated(o.OnCompetitionFinalPlayerRankUpdated)
	e.OnCompetitionStateUpdated(o.OnCompetitionStateUpdated)
	e.OnAdvancePlayerCountUpdated(o.OnAdvancePlayerCountUpdated)
	e.OnCompetitionPlayerCashOut(o.OnCompetitionPlayerCashOut)
}

// options are the event handlers of this competition.
func (w *World) options() *pc.CompetitionEngineOptions {
	return &pc.CompetitionEngineOptions{
		OnCompetitionUpdated: func(c *pc.Competition) {
			r := w.rec("update", "")
			r.Comp = snapComp(c)
			r.CompID = c.ID
			w.onRec(r)
			if h := w.hold; h != nil {
				w.held = true
				<-h
			}
		},
		OnCompetitionErrorUpdated: func(c *pc.Competition, err error) {
			r := w.rec("err", "")
			r.Err = err
			r.CompID = c.ID
			w.onRec(r)
		},
		OnCompetitionPlayerUpdated: func(id string, p *pc.CompetitionPlayer) {
			r := w.rec("player", "")
			q := *p
			r.Player = &q
			r.CompID = id
			w.onRec(r)
		},
		OnCompetitionFinalPlayerRankUpdated: func(id, pid string, rank int) {
			r := w.rec("rank", "")
			r.PlayerID, r.Rank, r.CompID = pid, rank, id
			w.onRec(r)
		},
		OnCompetitionStateUpdated: func(ev string, c *pc.Competition) {
			r := w.rec("state", ev)
			r.Comp = snapComp(c)
			r.CompID = c.ID
			w.onRec(r)
		},
		OnAdvancePlayerCountUpdated: func(id string, total int) int {
			r := w.rec("advance", "")
			r.Rank = total
			r.CompID = id
			w.advAsked++
			w.onRec(r)
			return w.plan.Cfg.AdvPlayers // the number that counts; the settings hold another one
		},
		OnCompetitionPlayerCashOut: func(id string, p *pc.CompetitionPlayer) {
			r := w.rec("cashout", "")
			q := *p
			r.Player = &q
			r.CompID = id
			w.onRec(r)
		},
	}
}

func (w *World) onRec(r *Rec) {
	if w.stopped {
		return
	}
	if r.Comp != nil {
		w.noteBlind(r.Comp, r.At)
	}
	for _, o := range w.orcs {
		o.Rec(w, r)
	}
}

func (w *World) autoGameOpenEnd(id string) {
	if w.stopped {
		return
	}
	_ = w.eng.AutoGameOpenEnd(id)
}

// newWorld creates the competition; it must run inside a synctest bubble.
func newWorld(p *Plan, orcs ...Oracle) *World {
	w := &World{plan: p, wake: make(chan struct{}, 1), classes: map[string]int{}, orcs: orcs, initLevel: p.Cfg.InitialLevel}
	w.fake = newFake(w)
	return w
}

func (w *World) create() {
	p := w.plan
	time.Sleep(time.Duration(p.Cfg.T0Ms) * time.Millisecond)
	w.t0 = time.Now()
	opt := pokertable.NewTableEngineOptions()
	w.eng = pc.NewCompetitionEngine(pc.WithTableManagerBackend(w.fake), pc.WithTableOptions(opt))
	w.wire()
	_, err := w.eng.CreateCompetition(p.setting("c1"))
	w.createErr = err
	w.comp = w.eng.GetCompetition()
	w.created = err == nil
}

// run plays the plan. It must run inside a synctest bubble.
func (w *World) run() {
	w.runCore()
	w.stopped = true
	// let every pending timer of the code under test fire and its goroutine end
	time.Sleep(48 * time.Hour)
	synctest.Wait()
}

func (w *World) runCore() {
	p := w.plan
	w.create()
	if w.comp == nil {
		return
	}
	base := w.t0.Truncate(time.Second)
	at := w.t0
	for i := range p.Ops {
		op := &p.Ops[i]
		at = at.Add(time.Duration(op.DtMs) * time.Millisecond)
		w.at(at, "op", nil, op)
	}
	horizon := base.Add(time.Duration(p.HorizonS)*time.Second + 900*time.Millisecond)
	for k := 1; k <= p.HorizonS; k++ {
		w.at(base.Add(time.Duration(k)*time.Second+time.Millisecond), "tick", nil, nil)
	}
	synctest.Wait()
	w.lastPost, w.lastPostF = snapComp(w.comp), w.snapF()
	for _, o := range w.orcs {
		o.Step(w, &Step{Kind: "start", Pre: w.lastPost, Post: w.lastPost, PreF: w.lastPostF, PostF: w.lastPostF, From: 0, To: len(w.recs), At: time.Now(), Done: true})
	}
	w.gapFrom = len(w.recs)
	for w.viol == nil && !w.loop && len(w.q) > 0 {
		heartbeat.Add(1)
		e := w.q[0]
		now := time.Now()
		if e.at.After(horizon) {
			break
		}
		if e.at.After(now) {
			tm := time.NewTimer(e.at.Sub(now))
			select {
			case <-tm.C:
			case <-w.wake:
				tm.Stop()
				continue
			}
		}
		synctest.Wait()
		if w.q[0] != e {
			continue
		}
		if w.busy != nil && w.busy.Op != nil && e.op != nil {
			// player operations are issued one after another
			heap.Pop(&w.q)
			if now.Sub(w.busy.At) > 10*time.Second {
				w.fail("operation %s(%s) has not returned after %v", w.busy.Op.Kind, w.busy.Target, now.Sub(w.busy.At))
				break
			}
			e.at = now.Add(300 * time.Millisecond)
			heap.Push(&w.q, e)
			continue
		}
		heap.Pop(&w.q)
		w.do(e)
		if w.until != nil && w.until() {
			return
		}
		if !w.endedAt.IsZero() && time.Since(w.endedAt) > time.Duration(p.TailS)*time.Second {
			break
		}
	}
	synctest.Wait()
	if w.viol == nil && !w.loop {
		w.gap()
		if w.busy != nil && w.busy.Op != nil && time.Since(w.busy.At) > 10*time.Second {
			w.fail("operation %s(%s) has not returned after %v", w.busy.Op.Kind, w.busy.Target, time.Since(w.busy.At))
		}
	}
	if w.loop {
		w.classes["known: seating repeated for ever"]++
	}
	if w.viol == nil && !w.loop {
		for _, o := range w.orcs {
			o.End(w)
		}
	}
}

// gap closes the interval since the last step (timers of the code under test).
func (w *World) gap() (*CompSnap, map[string]*TableSnap) {
	pre, preF := snapComp(w.comp), w.snapF()
	s := &Step{Kind: "gap", Pre: w.lastPost, Post: pre, PreF: w.lastPostF, PostF: preF, From: w.gapFrom, To: len(w.recs), At: time.Now(), Done: true}
	w.step(s)
	return pre, preF
}

// noteBlind remembers when the blind system was first seen running.
func (w *World) noteBlind(c *CompSnap, at time.Time) {
	if w.blindAt == 0 && c.CLI >= 0 {
		w.blindAt = at.Unix()
	}
}

// initIdx is the index of the configured initial level.
func (w *World) initIdx() int {
	for i, l := range w.plan.Cfg.Levels {
		if l.Level == w.initLevel {
			return i
		}
	}
	return 0
}

// ends returns the window end of every level from the initial one on
// (-1 = never).
func (w *World) ends() []int64 {
	out := make([]int64, len(w.plan.Cfg.Levels))
	for i := range out {
		out[i] = -1
	}
	at := w.blindAt
	for i := w.initIdx(); i < len(out); i++ {
		d := w.plan.Cfg.Levels[i].Dur
		if d < 0 {
			break
		}
		at += int64(d)
		out[i] = at
	}
	return out
}

// levelAt is the level in force at t by the schedule (the set has two members
// within 20 ms of a boundary).
func (w *World) levelAt(t time.Time) []int {
	if w.blindAt == 0 {
		return []int{-1}
	}
	e := w.ends()
	n := len(e)
	find := func(ms int64) int {
		i := w.initIdx()
		for i < n-1 && e[i] >= 0 && ms >= e[i]*1000 {
			i++
		}
		return i
	}
	ms := t.UnixMilli()
	a, b := find(ms-20), find(ms)
	if t.Nanosecond() == 0 || t.Nanosecond()/1000000 == 0 {
		a = find(ms - 1)
	} else {
		a = b
	}
	if a == b {
		return []int{a}
	}
	return []int{a, b}
}

func has(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// wantBlind is what a table must be told for level index i.
func (w *World) wantBlind(i int) pokertable.TableBlindState {
	l := w.plan.Cfg.Levels[i]
	d := int64(0)
	if w.plan.Cfg.DealerTime > 0 {
		d = l.Ante * int64(w.plan.Cfg.DealerTime-1)
	}
	return pokertable.TableBlindState{Level: l.Level, Ante: l.Ante, Dealer: d, SB: l.SB, BB: l.BB}
}

func (w *World) step(s *Step) {
	if w.loop {
		return
	}
	w.noteBlind(s.Post, s.At)
	if s.Op != nil && s.Op.Kind == "initlevel" && s.Kind == "op" && s.Done && s.Err == nil && s.Pre.Status == "registering" {
		w.initLevel = s.Op.N
	}
	if s.Post.ended() && !s.Pre.ended() {
		w.endPre = s.Pre
	}
	if w.endedAt.IsZero() && s.Post.ended() {
		w.endedAt = time.Now()
	}
	w.steps = append(w.steps, s)
	for _, o := range w.orcs {
		o.Step(w, s)
	}
}

func (w *World) do(e *event) {
	pre, preF := w.gap()
	w.lastPost, w.lastPostF, w.gapFrom = pre, preF, len(w.recs)
	if w.viol != nil || e.name == "tick" {
		return
	}
	s := &Step{Kind: e.name, Op: e.op, Pre: pre, PreF: preF, From: len(w.recs), At: time.Now()}
	if e.op != nil {
		fn := w.resolve(s, e.op)
		if fn == nil {
			s.Kind = "skip"
			s.Done = true
		} else {
			w.ops++
			w.busy = s
			w.rec("opstart", e.op.Kind+" "+s.Target)
			go func() {
				s.Err = fn()
				s.Done = true
				s.EndedAt = time.Now()
				r := w.rec("opend", e.op.Kind+" "+s.Target)
				r.Err = s.Err
				w.busy = nil
			}()
		}
	} else {
		go func() {
			e.fn()
			s.Done = true
			s.EndedAt = time.Now()
		}()
	}
	synctest.Wait()
	s.Post, s.PostF, s.To = snapComp(w.comp), w.snapF(), len(w.recs)
	w.lastPost, w.lastPostF, w.gapFrom = s.Post, s.PostF, s.To
	w.step(s)
}

func (w *World) dump(n int) string {
	s := ""
	from := len(w.recs) - n
	if from < 0 {
		from = 0
	}
	for _, r := range w.recs[from:] {
		s += r.String() + "\n"
	}
	return s
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
