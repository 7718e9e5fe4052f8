package harness

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"pgregory.net/rapid"
)

// ---- C30: creating a competition ---------------------------------------------

// Creation is a competition setting relative to the moment of creation.
type Creation struct {
	Manager bool  // through the manager, else on an engine
	Start   int   // seconds from now, -1000: not scheduled
	Disable int   // seconds from now
	Joins   []int // per table the number of players seated with it
	Fault   int   // the backend refuses the n-th table, 0: none
	Min     int64 // minimal chip unit
	MaxP    int
	ReWait  int
	Redeem  []int64
	Act     int // action time
	Dur     int // longest duration
	TMin    int // players a table needs
	RegMin  int
	Zero    bool // the scheduled start is the instant 0
	Levels  []int
	Close   string // status it is closed with afterwards
	WaitS   int
}

type stub30 struct {
	pc.TableManagerBackend
	fault    int
	settings []pokertable.TableSetting
	options  []*pokertable.TableEngineOptions
	tables   []*pokertable.Table
	released []string
	other    []string
}

func (b *stub30) OnTableUpdated(func(*pokertable.Table))                           {}
func (b *stub30) OnTablePlayerReserved(func(string, *pokertable.TablePlayerState)) {}
func (b *stub30) OnReadyOpenFirstTableGame(func(string, int, []*pokertable.TablePlayerState)) {
}
func (b *stub30) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	s.JoinPlayers = append([]pokertable.JoinPlayer(nil), s.JoinPlayers...)
	b.settings, b.options = append(b.settings, s), append(b.options, o)
	if len(b.settings) == b.fault {
		return nil, errors.New("no table")
	}
	bl := s.Blind
	t := &pokertable.Table{ID: s.TableID, Meta: s.Meta, State: &pokertable.TableState{StartAt: -1, BlindState: &bl, Status: pokertable.TableStateStatus_TableCreated}}
	b.tables = append(b.tables, t)
	return t, nil
}
func (b *stub30) ReleaseTable(id string) error { b.released = append(b.released, id); return nil }
func (b *stub30) CloseTable(id string) error {
	b.other = append(b.other, "CloseTable "+id)
	return nil
}
func (b *stub30) UpdateBlind(id string, _ int, _, _, _, _ int64) error {
	b.other = append(b.other, "UpdateBlind "+id)
	return nil
}
func (b *stub30) StartTableGame(id string) error {
	b.other = append(b.other, "StartTableGame "+id)
	return nil
}
func (b *stub30) PauseTable(id string) error {
	b.other = append(b.other, "PauseTable "+id)
	return nil
}

func genC30(rt *rapid.T) *Plan {
	p := genPlan(rt, Prof{Modes: []string{"ct", "mtt", "cash"}, MaxOps: 0, Break: 20, AdvPct: 30})
	p.Hands, p.Joins, p.Ops = nil, nil, nil
	c := &Creation{Manager: rapid.Bool().Draw(rt, "manager"), Start: -1000, Min: int64(ri(rt, 1, 100, "unit")), MaxP: ri(rt, 0, 200, "maxP"), ReWait: ri(rt, 0, 20, "reWait"), WaitS: ri(rt, 0, 5, "wait")}
	if pct(rt, 60, "scheduled") {
		c.Start = rapid.SampledFrom([]int{0, 0, -1, 1, 5, 40, -60}).Draw(rt, "start")
		c.Zero = pct(rt, 5, "zero")
	}
	c.Disable = rapid.SampledFrom([]int{0, 30, 1, 400, 400, 30, 30, -1, -60}).Draw(rt, "disable")
	nt := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3}).Draw(rt, "tables")
	if p.Mode == "mtt" && pct(rt, 70, "noTables") {
		nt = 0
	}
	for i := 0; i < nt; i++ {
		j := 0
		if pct(rt, 50, "seated") {
			j = rapid.SampledFrom([]int{1, p.Cfg.MaxSeat, p.Cfg.MaxSeat, p.Cfg.MaxSeat + 1, p.Cfg.MaxSeat - 1}).Draw(rt, "joins")
		}
		c.Joins = append(c.Joins, j)
	}
	if nt > 0 && pct(rt, 12, "fault") {
		c.Fault = ri(rt, 1, nt, "nth")
	}
	c.Act, c.Dur, c.TMin, c.RegMin = ri(rt, 0, 60, "act"), ri(rt, 0, 5000, "dur"), ri(rt, 0, 6, "tmin"), ri(rt, 0, 9, "regmin")
	if pct(rt, 15, "noUnit") {
		c.Min = 0
	}
	c.Redeem = rapid.SliceOfN(rapid.Int64Range(0, 5000), 0, 3).Draw(rt, "redeem")
	for i := ri(rt, 0, 3, "nlevels"); i > 0; i-- {
		c.Levels = append(c.Levels, ri(rt, -2, len(p.Cfg.Levels)+2, "level"))
	}
	c.Close = rapid.SampledFrom([]string{"", "end", "auto_end", "force_end"}).Draw(rt, "close")
	p.Create = c
	return p
}

func (p *Plan) setting30(now int64) pc.CompetitionSetting {
	c := p.Create
	s := p.setting("comp-30")
	s.StartAt = -1
	if c.Start != -1000 {
		s.StartAt = now + int64(c.Start)
		if c.Zero {
			s.StartAt = 0
		}
	}
	s.DisableAt = now + int64(c.Disable)
	s.Meta.MinChipUnit, s.Meta.MaxPlayerCount, s.Meta.ReBuySetting.WaitingTime = c.Min, c.MaxP, c.ReWait
	s.Meta.ActionTime, s.Meta.MaxDuration, s.Meta.TableMinPlayerCount, s.Meta.RegulatorMinInitialPlayerCount = c.Act, c.Dur, c.TMin, c.RegMin
	s.Meta.AddonSetting.RedeemChips = append([]int64{}, c.Redeem...)
	s.TableSettings = nil
	for i, n := range c.Joins {
		ts := pc.TableSetting{TableID: fmt.Sprintf("table-%d", i)}
		for k := 0; k < n; k++ {
			ts.JoinPlayers = append(ts.JoinPlayers, pokertable.JoinPlayer{PlayerID: fmt.Sprintf("q%d-%d", i, k), RedeemChips: int64(100 + k), Seat: k})
		}
		s.TableSettings = append(s.TableSettings, ts)
	}
	return s
}

func runC30(t *testing.T, p *Plan) *Result {
	res := &Result{Classes: map[string]int{}}
	trace := []string{}
	c := p.Create
	synctest.Test(t, func(t *testing.T) {
		tr := func(f string, a ...any) {
			trace = append(trace, time.Now().UTC().Format("15:04:05.000 ")+fmt.Sprintf(f, a...))
		}
		fail := func(f string, a ...any) {
			if res.Viol == nil {
				res.Viol = &Violation{Msg: fmt.Sprintf(f, a...)}
				tr("FAIL: "+f, a...)
			}
		}
		time.Sleep(time.Duration(p.Cfg.T0Ms) * time.Millisecond)
		now := time.Now().Unix()
		want := p.setting30(now)
		b := &stub30{fault: c.Fault}
		var told []*CompSnap
		opts := pc.NewDefaultCompetitionEngineOptions()
		opts.OnCompetitionUpdated = func(x *pc.Competition) {
			told = append(told, snapComp(x))
			tr("announced #%d %s, %d tables", x.UpdateSerial, x.State.Status, len(x.State.Tables))
		}
		opts.OnCompetitionStateUpdated = func(ev string, x *pc.Competition) {
			told = append(told, snapComp(x))
			tr("announced %s: %s, %d tables", ev, x.State.Status, len(x.State.Tables))
		}
		var m pc.Manager
		var eng pc.CompetitionEngine
		var comp *pc.Competition
		var err error
		tableOpts := pokertable.NewTableEngineOptions()
		if c.Manager {
			m = pc.NewManager(b)
			tableOpts = m.GetTableEngineOptions()
			comp, err = m.CreateCompetition(p.setting30(now), opts)
			e2, err2 := m.GetCompetitionEngine(want.CompetitionID)
			if (err == nil) != (err2 == nil) {
				fail("creating returned %v, looking the competition up returned %v", err, err2)
				return
			}
			eng = e2
		} else {
			eng = pc.NewCompetitionEngine(pc.WithTableManagerBackend(b), pc.WithTableOptions(tableOpts))
			eng.OnCompetitionUpdated(opts.OnCompetitionUpdated)
			eng.OnCompetitionStateUpdated(opts.OnCompetitionStateUpdated)
			comp, err = eng.CreateCompetition(p.setting30(now))
		}
		tr("created: %v", err)
		bad := ""
		switch {
		case want.StartAt != -1 && want.StartAt < now:
			bad = "its start time has passed"
		case want.DisableAt < now:
			bad = "its disable time has passed"
		default:
			for _, ts := range want.TableSettings {
				if len(ts.JoinPlayers) > want.Meta.TableMaxSeatCount {
					bad = fmt.Sprintf("%d players are to sit at a table with %d seats", len(ts.JoinPlayers), want.Meta.TableMaxSeatCount)
				}
			}
		}
		tables := want.TableSettings
		if p.Mode == "mtt" {
			tables = nil
		}
		refusedTable := bad == "" && c.Fault > 0 && c.Fault <= len(tables)
		if bad != "" || refusedTable {
			if bad == "" {
				bad = "the backend refused a table"
				if err == nil || err.Error() != "no table" {
					fail("the backend refused table %d: creating returned %v", c.Fault, err)
					return
				}
				res.Classes["refused by the backend"]++
			} else {
				if err != pc.ErrCompetitionInvalidCreateSetting {
					fail("%s: creating returned %v", bad, err)
					return
				}
				if len(b.settings) > 0 || len(told) > 0 {
					fail("%s: refused, and yet %d tables were asked for and %d announcements made", bad, len(b.settings), len(told))
					return
				}
				res.Classes["refused: "+strings.Fields(bad)[1]]++
			}
			if comp != nil {
				fail("%s: refused, and yet a competition was returned", bad)
				return
			}
			n := len(told)
			time.Sleep(500 * time.Second)
			synctest.Wait()
			if len(told) != n || len(b.other) > 0 {
				fail("%s: refused, and %d announcements and the calls %v followed later", bad, len(told)-n, b.other)
			}
			res.NonTriv = true
			return
		}
		if c.Start == 0 || c.Disable == 0 {
			// within the very second the timers either fire at once or cannot be
			// set any more: not specified
			res.Classes["the very second"]++
			if eng != nil {
				_ = eng.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
			}
			time.Sleep(500 * time.Second)
			return
		}
		if err != nil || comp == nil {
			fail("a valid setting (start %+d s, disable %+d s, tables %v of %d seats) was refused: %v", c.Start, c.Disable, c.Joins, want.Meta.TableMaxSeatCount, err)
			return
		}
		res.Classes["accepted "+p.Mode]++
		look := func(what string, x *pc.Competition) {
			if x == nil {
				fail("%s is missing", what)
				return
			}
			if x.ID != want.CompetitionID || !reflect.DeepEqual(x.Meta, want.Meta) {
				fail("%s records %q %+v, the setting is %q %+v", what, x.ID, x.Meta, want.CompetitionID, want.Meta)
				return
			}
			s := x.State
			if s.Status != pc.CompetitionStateStatus_Registering || s.OpenAt != now || s.DisableAt != want.DisableAt || s.StartAt != want.StartAt || s.EndAt != -1 {
				fail("%s is %s, open %d, disable %d, start %d, end %d; expected registering, %d, %d, %d, -1", what, s.Status, s.OpenAt, s.DisableAt, s.StartAt, s.EndAt, now, want.DisableAt, want.StartAt)
				return
			}
			if len(s.Players)+len(s.Rankings) != 0 || s.Players == nil || s.Rankings == nil || s.Tables == nil {
				fail("%s starts with %d players (%v) and %d ranks (%v), tables %v", what, len(s.Players), s.Players == nil, len(s.Rankings), s.Rankings == nil, s.Tables == nil)
				return
			}
			ends := make([]int64, len(want.Meta.Blind.Levels))
			if s.BlindState.CurrentLevelIndex != -1 || s.BlindState.FinalBuyInLevelIndex != want.Meta.Blind.FinalBuyInLevelIndex || !reflect.DeepEqual(s.BlindState.EndAts, ends) {
				fail("%s has blind state %+v, expected no level, final index %d and no end times for %d levels", what, *s.BlindState, want.Meta.Blind.FinalBuyInLevelIndex, len(ends))
				return
			}
			if a := s.AdvanceState; a.Status != pc.CompetitionAdvanceStatus_NotStart || a.TotalTables != -1 || a.UpdatedTables != -1 || len(a.UpdatedTableIDs) != 0 {
				fail("%s has advance state %+v", what, *a)
				return
			}
			if *s.Statistic != (pc.Statistic{}) {
				fail("%s has statistics %+v", what, *s.Statistic)
				return
			}
			if len(s.Tables) != len(tables) {
				fail("%s has %d tables, expected %d", what, len(s.Tables), len(tables))
				return
			}
			for i, ts := range tables {
				if s.Tables[i].ID != ts.TableID {
					fail("%s has table %s at %d, expected %s", what, s.Tables[i].ID, i, ts.TableID)
				}
			}
		}
		look("the created competition", comp)
		look("the engine's competition", eng.GetCompetition())
		if res.Viol != nil {
			return
		}
		if len(b.settings) != len(tables) {
			fail("%d tables were asked for, expected %d", len(b.settings), len(tables))
			return
		}
		for i, ts := range tables {
			mt := want.Meta
			w := pokertable.TableSetting{TableID: ts.TableID, JoinPlayers: append([]pokertable.JoinPlayer(nil), ts.JoinPlayers...), Blind: pokertable.TableBlindState{Level: 0, Ante: -1, Dealer: -1, SB: -1, BB: -1},
				Meta: pokertable.TableMeta{CompetitionID: want.CompetitionID, Rule: string(mt.Rule), Mode: string(mt.Mode), MaxDuration: mt.MaxDuration, TableMaxSeatCount: mt.TableMaxSeatCount, TableMinPlayerCount: mt.TableMinPlayerCount, MinChipUnit: mt.MinChipUnit, ActionTime: mt.ActionTime}}
			if !reflect.DeepEqual(b.settings[i], w) {
				fail("table %d was asked for as %+v, expected %+v", i, b.settings[i], w)
				return
			}
			if b.options[i] != tableOpts {
				fail("table %d was asked for with other table options than the given ones", i)
				return
			}
		}
		if len(b.other) > 0 {
			fail("creation made the calls %v", b.other)
			return
		}
		if len(told) == 0 {
			fail("the creation was not announced")
			return
		}
		if l := told[len(told)-1]; l.Status != "registering" || len(l.Tables) != len(tables) || l.StartAt != want.StartAt {
			fail("the creation was last announced as %s with %d tables, start %d", l.Status, len(l.Tables), l.StartAt)
			return
		}
		// before the start
		time.Sleep(time.Duration(c.WaitS)*time.Second + 137*time.Millisecond)
		synctest.Wait()
		reg := eng.GetCompetition().State.Status == pc.CompetitionStateStatus_Registering
		for _, l := range c.Levels {
			err := eng.UpdateCompetitionBlindInitialLevel(l)
			if reg != (err == nil) || !reg && err != pc.ErrCompetitionUpdateBlindInitialLevelRejected {
				fail("setting the initial level to %d in status %s returned %v", l, eng.GetCompetition().State.Status, err)
				return
			}
			res.Classes[fmt.Sprintf("initial level set: %v", err == nil)]++
		}
		if c.Close != "" && reg {
			at, end := time.Now().Unix(), int64(-1)
			if p.Mode == "mtt" {
				end = at
			}
			if eng.GetCompetition().State.StartAt != -1 && eng.GetCompetition().State.StartAt <= at {
				end = eng.GetCompetition().State.EndAt // already under way
				if p.Mode == "mtt" {
					end = at
				}
			}
			if err := eng.CloseCompetition(pc.CompetitionStateStatus(c.Close)); err != nil {
				fail("closing returned %v", err)
				return
			}
			synctest.Wait()
			s := eng.GetCompetition().State
			if string(s.Status) != c.Close || s.EndAt != end {
				fail("closed as %s at %d: it is %s, ended %d, expected %d", c.Close, at, s.Status, s.EndAt, end)
				return
			}
			if len(b.released) != len(tables) {
				fail("closed: the tables %v of %d were released", b.released, len(tables))
				return
			}
			for i, ts := range tables {
				if b.released[i] != ts.TableID {
					fail("closed: the tables %v were released, expected %s at %d", b.released, ts.TableID, i)
					return
				}
			}
			if err := eng.UpdateCompetitionBlindInitialLevel(1); err != pc.ErrCompetitionUpdateBlindInitialLevelRejected {
				fail("setting the initial level of a closed competition returned %v", err)
			}
			if err := eng.CloseCompetition(pc.CompetitionStateStatus_AutoEnd); err != nil || string(eng.GetCompetition().State.Status) != c.Close {
				fail("closing a closed competition again returned %v, it is %s", err, eng.GetCompetition().State.Status)
			}
			res.Classes["closed "+p.Mode]++
		}
		res.NonTriv = len(tables) > 0 || c.Close != "" || len(c.Levels) > 0
		_ = eng.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
		time.Sleep(500 * time.Second)
	})
	if res.Viol != nil {
		res.Trace = strings.Join(trace, "\n")
	}
	res.Sample = fmt.Sprintf("%s start %+d disable %+d joins %v/%d fault %d levels %v close %q manager %v: %v", p.Mode, c.Start, c.Disable, c.Joins, p.Cfg.MaxSeat, c.Fault, c.Levels, c.Close, c.Manager, res.Classes)
	return res
}

func init() {
	register(&Prop{ID: "C30", Rule: "the setting was refused, or accepted with at least one table, and initial levels or a close followed", Gen: genC30, Run: runC30})
}
