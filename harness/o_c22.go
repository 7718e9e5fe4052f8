package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"pgregory.net/rapid"
)

// ---- C22 manager ----------------------------------------------------------------
//
// Two or three competitions with the same player ids live in one manager on
// one table backend. Every managed competition has a twin: a stand-alone
// engine with a backend of its own that gets the same operations at the same
// virtual instants.

// mgrEng drives one managed competition through the manager only.
type mgrEng struct {
	pc.CompetitionEngine
	m    pc.Manager
	id   string
	lost func(string) func(error)
}

func (e *mgrEng) PlayerBuyIn(j pc.JoinPlayer) error           { return e.m.PlayerBuyIn(e.id, j) }
func (e *mgrEng) PlayerAddon(t string, j pc.JoinPlayer) error { return e.m.PlayerAddon(e.id, t, j) }
func (e *mgrEng) PlayerRefund(p string) error                 { return e.m.PlayerRefund(e.id, p) }
func (e *mgrEng) PlayerCashOut(t, p string) error             { return e.m.PlayerCashOut(e.id, t, p) }
func (e *mgrEng) PlayerQuit(t, p string) error                { return e.m.PlayerQuit(e.id, t, p) }
func (e *mgrEng) StartCompetition() (int64, error)            { return e.m.StartCompetition(e.id) }
func (e *mgrEng) CloseCompetition(s pc.CompetitionStateStatus) error {
	return e.m.CloseCompetition(e.id, s)
}
func (e *mgrEng) UpdateCompetitionBlindInitialLevel(l int) error {
	return e.m.UpdateCompetitionBlindInitialLevel(e.id, l)
}
func (e *mgrEng) AutoGameOpenEnd(t string) error {
	done := e.lost("AutoGameOpenEnd")
	err := e.m.AutoGameOpenEnd(e.id, t)
	done(err)
	return err
}
func (e *mgrEng) UpdateTable(t *pokertable.Table) {
	done := e.lost("UpdateTable")
	done(e.m.UpdateTable(e.id, t))
}
func (e *mgrEng) UpdateReserveTablePlayerState(t string, p *pokertable.TablePlayerState) {
	done := e.lost("UpdateReserveTablePlayerState")
	done(e.m.UpdateReserveTablePlayerState(e.id, t, p))
}
func (e *mgrEng) ReadyFirstTableGame(t string, n int, ps []*pokertable.TablePlayerState) error {
	done := e.lost("ReadyFirstTableGame")
	err := e.m.ReadyFirstTableGame(e.id, t, n, ps)
	done(err)
	return err
}

// muxBackend is the one backend of the manager: it hands each call to the
// simulated tables of the competition concerned.
type muxBackend struct {
	r   *mgrRun
	opt *pokertable.TableEngineOptions
	// whose operation is running: calls on a table nobody has are his
	busy *mslot
}

func (b *muxBackend) OnTableUpdated(func(*pokertable.Table))                           {}
func (b *muxBackend) OnTablePlayerReserved(func(string, *pokertable.TablePlayerState)) {}
func (b *muxBackend) OnReadyOpenFirstTableGame(func(string, int, []*pokertable.TablePlayerState)) {
}
func (b *muxBackend) of(table string) *Fake {
	for i := len(b.r.all) - 1; i >= 0; i-- {
		if f := b.r.all[i].m.fake; f.tables[table] != nil {
			return f
		}
	}
	if b.busy != nil {
		return b.busy.m.fake
	}
	b.r.nobody.recs = nil
	return b.r.nobody.fake // no such table
}
func (b *muxBackend) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	known := false
	for i := len(b.r.all) - 1; i >= 0; i-- {
		if b.r.all[i].id == s.Meta.CompetitionID {
			known = true
			if o == b.r.all[i].opt {
				return b.r.all[i].m.fake.CreateTable(o, s)
			}
		}
	}
	if known {
		b.r.fail("a table of %s is created with other options than the manager had", s.Meta.CompetitionID)
		return nil, pokertable.ErrTableInvalidCreateSetting
	}
	b.r.fail("a table is created for the unknown competition %q", s.Meta.CompetitionID)
	return nil, pokertable.ErrTableInvalidCreateSetting
}
func (b *muxBackend) PauseTable(t string) error     { return b.of(t).PauseTable(t) }
func (b *muxBackend) CloseTable(t string) error     { return b.of(t).CloseTable(t) }
func (b *muxBackend) StartTableGame(t string) error { return b.of(t).StartTableGame(t) }
func (b *muxBackend) SetUpTableGame(t string, n int, p map[string]int) error {
	return b.of(t).SetUpTableGame(t, n, p)
}
func (b *muxBackend) UpdateBlind(t string, l int, a, d, s, bb int64) error {
	return b.of(t).UpdateBlind(t, l, a, d, s, bb)
}
func (b *muxBackend) UpdateTablePlayers(t string, j []pokertable.JoinPlayer, l []string) (map[string]int, error) {
	return b.of(t).UpdateTablePlayers(t, j, l)
}
func (b *muxBackend) PlayerReserve(t string, j pokertable.JoinPlayer) error {
	return b.of(t).PlayerReserve(t, j)
}
func (b *muxBackend) PlayerJoin(t, p string) error { return b.of(t).PlayerJoin(t, p) }
func (b *muxBackend) PlayerRedeemChips(t string, j pokertable.JoinPlayer) error {
	return b.of(t).PlayerRedeemChips(t, j)
}
func (b *muxBackend) PlayersLeave(t string, p []string) error { return b.of(t).PlayersLeave(t, p) }
func (b *muxBackend) UpdateTable(t *pokertable.Table)         {}
func (b *muxBackend) ReleaseTable(t string) error             { return b.of(t).ReleaseTable(t) }

type mslot struct {
	id    string
	plan  *Plan
	m, tw *World
	gone  bool // not managed (any more)
	rel   bool // released: still running, not managed
	step  *Step
	opt   *pokertable.TableEngineOptions
}

type mgrRun struct {
	p       *Plan
	mgr     pc.Manager
	mux     *muxBackend
	all     []*mslot // every slot ever, in order of creation
	cur     []*mslot // by index
	wake    chan struct{}
	viol    *Violation
	classes map[string]int
	t0      time.Time
	n       int
	nobody  *World
	u       time.Duration
	trace   []string
}

func (r *mgrRun) fail(f string, a ...any) {
	if r.viol == nil {
		r.viol = &Violation{Msg: fmt.Sprintf(f, a...)}
	}
}

func (r *mgrRun) log(f string, a ...any) {
	r.trace = append(r.trace, fmt.Sprintf("%v ", time.Since(r.t0))+fmt.Sprintf(f, a...))
}

// norm is the competition with the random table ids replaced.
func norm(w *World) string {
	if w.comp == nil {
		return ""
	}
	l := []string{}
	for i, id := range w.fake.order {
		l = append(l, id, fmt.Sprintf("T%d", i))
	}
	return strings.NewReplacer(l...).Replace(string(mustJSON(w.comp)))
}

// masked is the competition without what depends on the choice of a table.
func masked(w *World) string {
	var m map[string]any
	if json.Unmarshal(mustJSON(w.comp), &m) != nil {
		return ""
	}
	delete(m, "update_serial")
	if st, ok := m["state"].(map[string]any); ok {
		delete(st, "tables")
		ps, _ := st["players"].([]any)
		for _, p := range ps {
			if q, ok := p.(map[string]any); ok {
				delete(q, "table_id")
				delete(q, "seat")
				delete(q, "table_rank")
			}
		}
	}
	return string(mustJSON(m))
}

// foot is everything an operation on another competition must leave alone.
func foot(w *World) string {
	n := 0
	for _, c := range w.fake.counts {
		n += c
	}
	return norm(w) + fmt.Sprint(" records:", len(w.recs), " backend calls:", n)
}

func jdiff(a, b string) string {
	var x, y any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		from := max(0, i-60)
		return fmt.Sprintf("...%s <> ...%s", a[from:min(len(a), i+40)], b[from:min(len(b), i+40)])
	}
	return firstDiff(string(mustJSON(x)), string(mustJSON(y)))
}

func (r *mgrRun) create(i int) {
	p := r.p.Subs[i]
	id := []string{"c1", "c", "c11"}[i]
	if o := r.cur[i]; o != nil && !o.gone {
		return
	}
	for _, x := range r.all {
		if x.id == id { // tells the tables of both holders of the id apart
			r.mux.opt = pokertable.NewTableEngineOptions()
			r.mgr.SetTableEngineOptions(r.mux.opt)
			break
		}
	}
	o := r.others(nil)
	s := &mslot{id: id, plan: p, opt: r.mux.opt}
	mk := func() *World {
		w := newWorld(p)
		w.wake = r.wake
		w.t0 = time.Now()
		w.fake.onUpd, w.fake.onRes, w.fake.onReady = func(*pokertable.Table) {}, func(string, *pokertable.TablePlayerState) {}, func(string, int, []*pokertable.TablePlayerState) {}
		return w
	}
	s.m, s.tw = mk(), mk()
	setting := func() pc.CompetitionSetting {
		st := p.setting(id)
		for k := range st.TableSettings {
			st.TableSettings[k].TableID += fmt.Sprintf("-%d", len(r.all))
		}
		return st
	}
	sm := setting()
	r.all = append(r.all, s)
	c, err := r.mgr.CreateCompetition(sm, s.m.options())
	synctest.Wait()
	// the twin
	tb := &twinBackend{Fake: s.tw.fake}
	te := pc.NewCompetitionEngine(pc.WithTableManagerBackend(tb), pc.WithTableOptions(pokertable.NewTableEngineOptions()))
	s.tw.eng = te
	s.tw.wire()
	st := sm
	s.tw.eng = nil
	_, terr := te.CreateCompetition(st)
	s.tw.eng = te
	s.tw.comp = te.GetCompetition()
	synctest.Wait()
	r.log("create %s: %v", id, err)
	r.classes["created"]++
	if (err == nil) != (terr == nil) || (c == nil) != (err != nil) {
		r.fail("creating %s through the manager returned %v, %v, on its own %v", id, c != nil, err, terr)
		return
	}
	if err != nil {
		r.classes["creation refused"]++
		if err != terr && err.Error() != terr.Error() {
			r.fail("creating %s through the manager returned %v, on its own %v", id, err, terr)
		}
		s.gone = true
		s.m.comp = nil
		if old := r.cur[i]; old == nil {
			r.cur[i] = s
		}
		r.notFound(id)
		r.same(o, nil, "creating "+id)
		return
	}
	s.m.comp = c
	g, gerr := r.mgr.GetCompetitionEngine(id)
	if gerr != nil || g.GetCompetition() != c || c.ID != id {
		r.fail("the manager does not know %s after creating it: %v", id, gerr)
		return
	}
	e := &mgrEng{CompetitionEngine: g, m: r.mgr, id: id}
	e.lost = func(what string) func(error) {
		cur, gone := r.cur[i], s.gone
		return func(err error) {
			if cur != s || cur != r.cur[i] || gone != s.gone {
				return // the id has been taken over or was closed meanwhile
			}
			if gone && err != pc.ErrManagerCompetitionNotFound {
				r.fail("%s of %s is answered with %v after it is gone", what, id, err)
			}
			if !gone && err == pc.ErrManagerCompetitionNotFound {
				r.fail("%s of %s is answered with %v", what, id, err)
			}
		}
	}
	s.m.eng = e
	// reports of the tables travel through the manager; once the id belongs
	// to a newer competition those of the old one are dropped
	live := func() bool { return r.cur[i] == s }
	s.m.fake.onUpd = func(t *pokertable.Table) {
		if live() {
			e.UpdateTable(t)
		}
	}
	s.m.fake.onRes = func(t string, p *pokertable.TablePlayerState) {
		if live() {
			e.UpdateReserveTablePlayerState(t, p)
		}
	}
	s.m.fake.onReady = func(t string, n int, ps []*pokertable.TablePlayerState) {
		if live() {
			_ = e.ReadyFirstTableGame(t, n, ps)
		}
	}
	s.tw.fake.onUpd = func(t *pokertable.Table) { te.UpdateTable(t) }
	s.tw.fake.onRes = func(t string, p *pokertable.TablePlayerState) { te.UpdateReserveTablePlayerState(t, p) }
	s.tw.fake.onReady = func(t string, n int, ps []*pokertable.TablePlayerState) { _ = te.ReadyFirstTableGame(t, n, ps) }
	r.cur[i] = s
	if a, b := norm(s.m), norm(s.tw); a != b {
		r.fail("%s created through the manager is not what its engine makes of the settings: %s", id, jdiff(a, b))
	}
	r.same(o, s, "creating "+id)
	base := time.Now()
	at := base
	for k := range p.Ops {
		op := &p.Ops[k]
		at = at.Add(time.Duration(op.DtMs) * time.Millisecond)
		s.m.at(at, "op", nil, op)
	}
}

// twinBackend never registers callbacks (they are wired after creation).
type twinBackend struct{ *Fake }

func (b *twinBackend) OnTableUpdated(func(*pokertable.Table))                           {}
func (b *twinBackend) OnTablePlayerReserved(func(string, *pokertable.TablePlayerState)) {}
func (b *twinBackend) OnReadyOpenFirstTableGame(func(string, int, []*pokertable.TablePlayerState)) {
}

// others remembers all competitions but one.
func (r *mgrRun) others(not *mslot) map[*mslot]string {
	m := map[*mslot]string{}
	for _, s := range r.all {
		if s != not && s.m.comp != nil {
			m[s] = foot(s.m)
		}
	}
	return m
}

func (r *mgrRun) same(m map[*mslot]string, not *mslot, what string) {
	for s, f := range m {
		if s == not {
			continue
		}
		if g := foot(s.m); g != f {
			r.fail("%s changes %s: %s", what, s.id, jdiff(f, g))
			return
		}
		r.classes["other competition compared"]++
	}
}

// instant moves on to an instant at which no timer can be pending: every
// operation gets a sub-millisecond part of its own, which its timers inherit.
func (r *mgrRun) instant() {
	r.u += 1009
	now := time.Now()
	time.Sleep(now.Truncate(time.Millisecond).Add(time.Millisecond + r.u%1000000).Sub(now))
	synctest.Wait()
}

// notFound: every manager call on id must be refused.
func (r *mgrRun) notFound(id string) {
	r.n++
	m := r.mgr
	j := pc.JoinPlayer{PlayerID: "p00", RedeemChips: 100, Unit: 1}
	_, e0 := m.GetCompetitionEngine(id)
	_, e1 := m.StartCompetition(id)
	t := &pokertable.Table{ID: id + "-t0", State: &pokertable.TableState{}}
	ps := &pokertable.TablePlayerState{PlayerID: "p00"}
	for k, e := range []error{e0, e1, m.PlayerBuyIn(id, j), m.PlayerAddon(id, id+"-t0", j), m.PlayerRefund(id, "p00"), m.PlayerCashOut(id, id+"-t0", "p00"), m.PlayerQuit(id, id+"-t0", "p00"),
		m.UpdateCompetitionBlindInitialLevel(id, 1), m.UpdateTable(id, t), m.UpdateReserveTablePlayerState(id, id+"-t0", ps), m.AutoGameOpenEnd(id, id+"-t0"), m.ReadyFirstTableGame(id, id+"-t0", 0, []*pokertable.TablePlayerState{ps}), m.CloseCompetition(id, pc.CompetitionStateStatus_ForceEnd)} {
		if e != pc.ErrManagerCompetitionNotFound {
			r.fail("call %d on the unknown competition %q returned %v", k, id, e)
			return
		}
		r.classes["unknown id refused"]++
	}
}

// call runs fn and returns whether it came back.
func call(s *Step, fn func() error) bool {
	go func() {
		s.Err = fn()
		s.Done = true
	}()
	synctest.Wait()
	return s.Done
}

func kinds(w *World, from int) []string {
	l := []string{}
	rep := []string{}
	for i, id := range w.fake.order {
		rep = append(rep, id, fmt.Sprintf("T%d", i))
	}
	rp := strings.NewReplacer(rep...)
	for _, x := range w.recs[from:] {
		if x.Kind == "opstart" || x.Kind == "opend" {
			continue
		}
		l = append(l, rp.Replace(fmt.Sprint(x.Kind, " ", x.Name, " ", x.Table, " ", x.PlayerID, " ", x.Rank, " ", x.Err)))
	}
	sort.Strings(l)
	return l
}

func errText(e error) string {
	if e == nil {
		return "success"
	}
	return e.Error()
}

// op performs one operation on a managed competition and on its twin.
func (r *mgrRun) op(s *mslot, op *Op) {
	if s.step != nil && !s.step.Done || s.m.comp == nil {
		return
	}
	for _, x := range r.all {
		if x != s && x.id == s.id && s.gone && !x.gone {
			return // the id belongs to a newer competition
		}
	}
	r.instant()
	oth := r.others(s)
	preM, preT := norm(s.m), norm(s.tw)
	st := &Step{Op: op, Pre: snapComp(s.m.comp)}
	fn := s.m.resolve(st, op)
	if fn == nil {
		return
	}
	r.n++
	fm, ft := len(s.m.recs), len(s.tw.recs)
	counts := fmt.Sprint(s.m.fake.counts)
	s.step = st
	busy := r.mux.busy
	r.mux.busy = s
	done := call(st, fn)
	r.mux.busy = busy
	r.log("%s(%s) on %s: %v %v", op.Kind, st.Target, s.id, done, st.Err)
	r.classes["op "+op.Kind]++
	r.same(oth, s, op.Kind+" on "+s.id)
	if r.viol != nil {
		return
	}
	if s.gone {
		if !done {
			r.fail("%s on %s, which is gone, never returns", op.Kind, s.id)
			return
		}
		report := op.Kind == "dup" || op.Kind == "unknown" || op.Kind == "resend" || op.Kind == "late"
		if st.Err != pc.ErrManagerCompetitionNotFound && !report {
			r.fail("%s on %s, which is gone, returned %s", op.Kind, s.id, errText(st.Err))
			return
		}
		if op.Kind != "resend" && (norm(s.m) != preM || fmt.Sprint(s.m.fake.counts) != counts) {
			r.fail("%s on %s, which is gone, changes it: %s", op.Kind, s.id, jdiff(preM, norm(s.m)))
			return
		}
		r.classes["op on gone"]++
		if _, err := r.mgr.GetCompetitionEngine(s.id); err != pc.ErrManagerCompetitionNotFound {
			r.fail("%s is gone and can still be found", s.id)
		}
		return
	}
	// the twin's turn: the same call on the stand-alone engine
	tst := &Step{Op: op, Pre: snapComp(s.tw.comp)}
	if s.tw.newID != s.m.newID-b2i(op.Kind == "buyin" && op.N != 1) {
		s.tw.newID = s.m.newID - b2i(op.Kind == "buyin" && op.N != 1)
	}
	tfn := s.tw.resolve(tst, op)
	s.tw.newID, s.tw.ids = s.m.newID, append([]string{}, s.m.ids...)
	if tfn != nil {
		tdone := call(tst, tfn)
		if preM == preT && tst.Target == st.Target {
			r.classes["op compared with its twin"]++
			if done != tdone || done && errText(st.Err) != errText(tst.Err) || st.StartAt != tst.StartAt {
				r.fail("%s(%s) on %s through the manager: returned=%v %s, start %d; on its engine: returned=%v %s, start %d", op.Kind, st.Target, s.id, done, errText(st.Err), st.StartAt, tdone, errText(tst.Err), tst.StartAt)
				return
			}
			a, b := norm(s.m), norm(s.tw)
			if s.plan.Mode == "mtt" {
				// the balancing library picks among equal tables at random
				a, b = masked(s.m), masked(s.tw)
			}
			if a != b {
				r.fail("%s(%s) on %s through the manager leaves something else than on its engine: %s", op.Kind, st.Target, s.id, jdiff(a, b))
				return
			}
			if a, b := kinds(s.m, fm), kinds(s.tw, ft); s.plan.Mode != "mtt" && strings.Join(a, ";") != strings.Join(b, ";") {
				r.fail("%s(%s) on %s through the manager has other effects than on its engine: %s", op.Kind, st.Target, s.id, firstDiffList(a, b))
				return
			}
		} else {
			r.classes["twin out of step"]++
		}
	}
	if op.Kind == "close" && done {
		if st.Err == nil {
			s.gone = true
			r.classes["closed"]++
			r.notFound(s.id)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func firstDiffList(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "-", "-"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%s <> %s", x, y)
		}
	}
	return ""
}

func (r *mgrRun) mop(m *MOp) {
	r.instant()
	n := len(r.p.Subs)
	s := r.cur[mod(m.I, n)]
	switch m.Kind {
	case "create":
		r.create(mod(m.I, n))
	case "ghost":
		oth := r.others(nil)
		r.notFound([]string{"", "nope", "c1 ", "C1", "c12"}[mod(m.J, 5)])
		synctest.Wait()
		r.same(oth, nil, "calls on an unknown competition")
	case "options":
		o := pokertable.NewTableEngineOptions()
		r.mgr.SetTableEngineOptions(o)
		r.mux.opt = nil
		if r.mgr.GetTableEngineOptions() != o {
			r.fail("the manager does not return the table options it was given")
		}
		r.mux.opt = o
	case "release":
		if s == nil || s.gone {
			return
		}
		oth := r.others(nil)
		r.mgr.ReleaseCompetition(s.id)
		synctest.Wait()
		s.gone, s.rel = true, true
		r.log("release %s", s.id)
		r.same(oth, nil, "releasing "+s.id)
		r.notFound(s.id)
		synctest.Wait()
		r.same(oth, nil, "calls on the released "+s.id)
		r.classes["released"]++
	case "reset":
		for _, x := range r.cur {
			if x != nil && x.step != nil && !x.step.Done {
				return
			}
		}
		oth := map[*mslot]string{}
		type pr struct {
			s  *mslot
			eq bool
		}
		live := []pr{}
		for _, x := range r.all {
			if x.m.comp == nil {
				continue
			}
			if x.gone {
				oth[x] = foot(x.m)
			} else {
				live = append(live, pr{x, norm(x.m) == norm(x.tw)})
			}
		}
		st := &Step{}
		if !call(st, func() error { r.mgr.Reset(); return nil }) {
			r.fail("reset never returns")
			return
		}
		r.log("reset with %d", len(live))
		r.classes["reset"]++
		for _, l := range live {
			tst := &Step{}
			if !call(tst, func() error { return l.s.tw.eng.CloseCompetition(pc.CompetitionStateStatus_ForceEnd) }) {
				continue
			}
			if c := l.s.m.comp; c.State.Status != pc.CompetitionStateStatus_ForceEnd && l.s.tw.comp.State.Status == pc.CompetitionStateStatus_ForceEnd && l.eq {
				r.fail("reset leaves %s %s", l.s.id, c.State.Status)
				return
			}
			if l.eq {
				if a, b := norm(l.s.m), norm(l.s.tw); a != b {
					r.fail("reset leaves something else of %s than closing it would: %s", l.s.id, jdiff(a, b))
					return
				}
				r.classes["reset compared"]++
			}
			l.s.gone = true
		}
		r.same(oth, nil, "a reset")
		for _, l := range live {
			r.notFound(l.s.id)
		}
	case "hold":
		// one operation of s hangs in the competition's own event handler
		// while another competition is used
		o := r.cur[mod(m.J, n)]
		if s == nil || o == nil || s == o || s.gone || o.gone || s.m.comp == nil || s.step != nil && !s.step.Done {
			return
		}
		preM, preT := norm(s.m), norm(s.tw)
		op := &Op{Kind: "buyin", Chips: 1000, Unit: 1}
		st := &Step{Op: op, Pre: snapComp(s.m.comp)}
		fn := s.m.resolve(st, op)
		h := make(chan struct{})
		s.m.hold, s.m.held = h, false
		s.step = st
		r.mux.busy = s
		call(st, fn)
		r.mux.busy = nil
		if s.m.held {
			r.classes["handler held"]++
			op2 := m.Op
			r.op(o, &op2)
			if r.viol == nil && o.step != nil && !o.step.Done {
				r.fail("%s on %s waits for an event handler of %s", op2.Kind, o.id, s.id)
			}
		}
		s.m.hold = nil
		close(h)
		synctest.Wait()
		tst := &Step{Op: op, Pre: snapComp(s.tw.comp)}
		s.tw.newID = s.m.newID - 1
		tfn := s.tw.resolve(tst, op)
		s.tw.newID, s.tw.ids = s.m.newID, append([]string{}, s.m.ids...)
		call(tst, tfn)
		if preM == preT && st.Done && tst.Done && errText(st.Err) != errText(tst.Err) {
			r.fail("a buy-in on %s through the manager returned %s, on its engine %s", s.id, errText(st.Err), errText(tst.Err))
		}
	}
}

func (r *mgrRun) run() {
	r.mux = &muxBackend{r: r}
	r.nobody = newWorld(&Plan{})
	r.mgr = pc.NewManager(r.mux)
	r.mux.opt = r.mgr.GetTableEngineOptions()
	r.wake = make(chan struct{}, 1)
	r.cur = make([]*mslot, len(r.p.Subs))
	r.t0 = time.Now()
	type ev struct {
		at time.Time
		m  *MOp
	}
	mops := []ev{}
	for i := range r.p.MOps {
		m := &r.p.MOps[i]
		mops = append(mops, ev{r.t0.Add(time.Duration(m.AtMs)*time.Millisecond + 3*time.Millisecond), m})
	}
	sort.SliceStable(mops, func(a, b int) bool { return mops[a].at.Before(mops[b].at) })
	end := r.t0.Add(time.Duration(r.p.HorizonS) * time.Second)
	for r.viol == nil {
		heartbeat.Add(1)
		var at time.Time
		var who *World
		var slot *mslot
		if len(mops) > 0 {
			at = mops[0].at
		}
		for _, s := range r.all {
			for _, w := range []*World{s.m, s.tw} {
				if len(w.q) > 0 && (at.IsZero() || w.q[0].at.Before(at)) {
					at, who, slot = w.q[0].at, w, s
				}
			}
		}
		if at.IsZero() || at.After(end) {
			break
		}
		if now := time.Now(); at.After(now) {
			tm := time.NewTimer(at.Sub(now))
			select {
			case <-tm.C:
			case <-r.wake:
				tm.Stop()
				continue
			}
			synctest.Wait()
			continue
		}
		synctest.Wait()
		if who == nil {
			m := mops[0].m
			mops = mops[1:]
			r.mop(m)
			continue
		}
		e := who.pop()
		if e.op != nil {
			r.op(slot, e.op)
			continue
		}
		r.n++
		var oth map[*mslot]string
		if r.n%4 == 0 && who == slot.m {
			oth = r.others(slot)
		}
		go e.fn()
		synctest.Wait()
		if oth != nil {
			r.same(oth, slot, "a table event of "+slot.id)
			r.classes["table events watched"]++
		}
		for _, s := range r.all {
			if s.m.loop || s.tw.loop {
				r.viol = nil
				r.stop()
				return
			}
		}
	}
	for _, s := range r.all {
		for _, x := range s.m.recs {
			if x.CompID != "" && x.CompID != s.id && r.viol == nil {
				r.fail("the handlers of %s get an event of %s", s.id, x.CompID)
			}
		}
	}
	r.stop()
}

func (r *mgrRun) stop() {
	for _, s := range r.all {
		s.m.stopped, s.tw.stopped = true, true
	}
	time.Sleep(48 * time.Hour)
	synctest.Wait()
}

func init() {
	register(&Prop{ID: "C22", Rule: "at least two competitions lived at once and at least five operations were compared", Gen: func(rt *rapid.T) *Plan {
		p := &Plan{Mode: "manager"}
		n := ri(rt, 2, 3, "comps")
		for i := 0; i < n; i++ {
			pf := Prof{Modes: []string{"ct", "mtt", "cash", "ct"}, MaxOps: 10, Break: 15, Sched: 10, NoWild: true, ForceMin: pct(rt, 80, "fm"), CashOpen: true,
				OpW: map[string]int{"buyin": 6, "rebuy": 4, "addon": 4, "refund": 3, "quit": 3, "quitX": 1, "addonX": 1, "refundX": 1, "cashout": 3, "cashoutX": 1, "cashoutT": 2, "close": 1, "initlevel": 2, "topup": 1, "dup": 1, "resend": 1}}
			if pct(rt, 10, "faulty creation") {
				pf.FaultM = []string{"CreateTable"}
			}
			q := genPlan(rt, pf)
			q.Cfg.T0Ms = 0
			p.Subs = append(p.Subs, q)
			p.MOps = append(p.MOps, MOp{AtMs: ri(rt, 0, 2000, "at"), Kind: "create", I: i})
		}
		p.HorizonS = ri(rt, 15, 50, "horizon")
		k := ri(rt, 1, 8, "mops")
		for i := 0; i < k; i++ {
			m := MOp{AtMs: ri(rt, 100, p.HorizonS*1000, "at"), I: ri(rt, 0, n-1, "i"), J: ri(rt, 0, 4, "j")}
			m.Kind = rapid.SampledFrom([]string{"ghost", "release", "reset", "create", "create", "hold", "hold", "hold", "options"}).Draw(rt, "kind")
			m.Op = Op{Kind: rapid.SampledFrom([]string{"buyin", "refund", "addon", "start", "quit", "cashout"}).Draw(rt, "op"), P: ri(rt, 0, 9, "p"), N: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "opN"), Chips: 1000, Unit: 1}
			p.MOps = append(p.MOps, m)
		}
		return p
	}, Run: func(t *testing.T, p *Plan) *Result {
		r := &mgrRun{p: p, classes: map[string]int{}}
		synctest.Test(t, func(t *testing.T) { r.run() })
		res := &Result{Viol: r.viol, Classes: r.classes, Trace: strings.Join(r.trace, "\n")}
		res.NonTriv = len(r.all) >= 2 && r.classes["op compared with its twin"] >= 5
		modes := []string{}
		for _, s := range p.Subs {
			modes = append(modes, s.Mode)
		}
		mk := []string{}
		for _, m := range p.MOps {
			mk = append(mk, m.Kind)
		}
		res.Sample = fmt.Sprintf("%v %v compared=%d", modes, mk, r.classes["op compared with its twin"])
		return res
	}})
}
