package pokercompetition

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
)

// dB is a tiny scripted table backend: tables change only when told to.
type dB struct {
	eng    *competitionEngine
	tables map[string]*pokertable.Table
	order  []string
	calls  []string
	fail   map[string]error // method -> error for every call
	onCall func(method, table string, ids []string)
}

func (b *dB) call(m, id string, ids ...string) error {
	b.calls = append(b.calls, fmt.Sprint(m, " ", id, " ", ids))
	if b.onCall != nil {
		b.onCall(m, id, ids)
	}
	return b.fail[m]
}

func (b *dB) count(m, id string) int {
	n := 0
	for _, c := range b.calls {
		if len(c) > len(m)+len(id) && c[:len(m)+1+len(id)] == m+" "+id {
			n++
		}
	}
	return n
}

func (b *dB) OnTableUpdated(fn func(*pokertable.Table)) {}
func (b *dB) OnTablePlayerReserved(fn func(string, *pokertable.TablePlayerState)) {
}
func (b *dB) OnReadyOpenFirstTableGame(fn func(string, int, []*pokertable.TablePlayerState)) {
}

func dClone(t *pokertable.Table) *pokertable.Table {
	var c pokertable.Table
	x, _ := json.Marshal(t)
	json.Unmarshal(x, &c)
	return &c
}

func (b *dB) join(t *pokertable.Table, j pokertable.JoinPlayer) int {
	for _, p := range t.State.PlayerStates {
		if p.PlayerID == j.PlayerID {
			p.Bankroll += j.RedeemChips
			return p.Seat
		}
	}
	used := map[int]bool{}
	for _, p := range t.State.PlayerStates {
		used[p.Seat] = true
	}
	s := 0
	for used[s] {
		s++
	}
	t.State.PlayerStates = append(t.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: j.PlayerID, Seat: s, Bankroll: j.RedeemChips, IsIn: true})
	return s
}

func (b *dB) leave(t *pokertable.Table, ids []string) {
	for _, id := range ids {
		for i, p := range t.State.PlayerStates {
			if p.PlayerID == id {
				t.State.PlayerStates = append(t.State.PlayerStates[:i:i], t.State.PlayerStates[i+1:]...)
				break
			}
		}
	}
}

func (b *dB) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	if err := b.call("CreateTable", s.TableID); err != nil {
		return nil, err
	}
	bl := s.Blind
	t := &pokertable.Table{ID: s.TableID, Meta: s.Meta, State: &pokertable.TableState{
		Status: pokertable.TableStateStatus_TableCreated, StartAt: pokertable.UnsetValue, BlindState: &bl,
		PlayerStates: []*pokertable.TablePlayerState{}, GamePlayerIndexes: []int{}, NextBBOrderPlayerIDs: []string{},
	}}
	if s.Blind.Level == -1 {
		t.State.Status = pokertable.TableStateStatus_TablePausing
	}
	for _, j := range s.JoinPlayers {
		b.join(t, j)
	}
	b.tables[t.ID] = t
	b.order = append(b.order, t.ID)
	return dClone(t), nil
}
func (b *dB) PauseTable(id string) error { return b.call("PauseTable", id) }
func (b *dB) CloseTable(id string) error {
	if err := b.call("CloseTable", id); err != nil {
		return err
	}
	b.report(id, pokertable.TableStateStatus_TableClosed)
	return nil
}
func (b *dB) StartTableGame(id string) error {
	if err := b.call("StartTableGame", id); err != nil {
		return err
	}
	if t := b.tables[id]; t.State.StartAt <= 0 {
		t.State.StartAt = time.Now().Unix()
	}
	return nil
}
func (b *dB) SetUpTableGame(id string, c int, p map[string]int) error {
	ids := []string{}
	for k := range p {
		ids = append(ids, k)
	}
	return b.call("SetUpTableGame", id, ids...)
}
func (b *dB) UpdateBlind(id string, level int, ante, dealer, sb, bb int64) error {
	if err := b.call("UpdateBlind", id, fmt.Sprint(level, ante, dealer, sb, bb)); err != nil {
		return err
	}
	b.tables[id].State.BlindState = &pokertable.TableBlindState{Level: level, Ante: ante, Dealer: dealer, SB: sb, BB: bb}
	return nil
}
func (b *dB) UpdateTablePlayers(id string, js []pokertable.JoinPlayer, leave []string) (map[string]int, error) {
	ids := []string{}
	for _, j := range js {
		ids = append(ids, "+"+j.PlayerID)
	}
	for _, l := range leave {
		ids = append(ids, "-"+l)
	}
	if err := b.call("UpdateTablePlayers", id, ids...); err != nil {
		return nil, err
	}
	t := b.tables[id]
	b.leave(t, leave)
	for _, j := range js {
		b.join(t, j)
	}
	m := map[string]int{}
	for _, p := range t.State.PlayerStates {
		m[p.PlayerID] = p.Seat
	}
	return m, nil
}
func (b *dB) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	if err := b.call("PlayerReserve", id, j.PlayerID); err != nil {
		return err
	}
	if t := b.tables[id]; t != nil {
		b.join(t, j)
	}
	return nil
}
func (b *dB) PlayerJoin(id, p string) error { return nil }
func (b *dB) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	if err := b.call("PlayerRedeemChips", id, j.PlayerID); err != nil {
		return err
	}
	b.join(b.tables[id], j)
	return nil
}
func (b *dB) PlayersLeave(id string, ids []string) error {
	if err := b.call("PlayersLeave", id, ids...); err != nil {
		return err
	}
	if t := b.tables[id]; t != nil {
		b.leave(t, ids)
	}
	return nil
}
func (b *dB) UpdateTable(t *pokertable.Table) {}
func (b *dB) ReleaseTable(id string) error    { return b.call("ReleaseTable", id) }

// report hands the table to the engine with the given status.
func (b *dB) report(id string, st pokertable.TableStateStatus) {
	t := b.tables[id]
	t.State.Status = st
	b.eng.UpdateTable(dClone(t))
}

func (b *dB) find(id, pid string) *pokertable.TablePlayerState {
	for _, p := range b.tables[id].State.PlayerStates {
		if p.PlayerID == pid {
			return p
		}
	}
	return nil
}

// settle plays a hand: everybody seated takes part; chips says the bankrolls after it.
func (b *dB) settle(id string, chips map[string]int64, edit ...func(*pokertable.Table)) {
	t := b.tables[id]
	t.State.GameCount++
	t.State.GamePlayerIndexes = nil
	gs := &pokerface.GameState{GameID: fmt.Sprint(id, t.State.GameCount), Result: nil}
	res := []*rp{}
	t.State.NextBBOrderPlayerIDs = nil
	for i, p := range t.State.PlayerStates {
		p.IsParticipated = p.Bankroll > 0
		if !p.IsParticipated {
			continue
		}
		old := p.Bankroll
		if v, ok := chips[p.PlayerID]; ok {
			p.Bankroll = v
		}
		if p.Bankroll > 0 {
			t.State.NextBBOrderPlayerIDs = append(t.State.NextBBOrderPlayerIDs, p.PlayerID)
		}
		gi := len(t.State.GamePlayerIndexes)
		t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, i)
		gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: gi, Combination: &pokerface.CombinationInfo{}})
		res = append(res, &rp{gi, p.Bankroll, p.Bankroll - old})
	}
	x, _ := json.Marshal(map[string]any{"result": map[string]any{"players": res}})
	var tmp pokerface.GameState
	json.Unmarshal(x, &tmp)
	gs.Result = tmp.Result
	t.State.GameState = gs
	t.State.Status = pokertable.TableStateStatus_TableGameSettled
	for _, f := range edit {
		f(t)
	}
	b.eng.UpdateTable(dClone(t))
	time.Sleep(time.Second)
}

type rp struct {
	Idx     int   `json:"idx"`
	Final   int64 `json:"final"`
	Changed int64 `json:"changed"`
}

func dSetting(mode CompetitionMode, edit func(*CompetitionSetting)) CompetitionSetting {
	s := CompetitionSetting{
		CompetitionID: "c",
		Meta: CompetitionMeta{
			Mode: mode, Rule: CompetitionRule_Default, MaxDuration: 3600, MinPlayerCount: 2,
			TableMaxSeatCount: 9, TableMinPlayerCount: 2, RegulatorMinInitialPlayerCount: 2,
			MinChipUnit: 1, ActionTime: 10,
			ReBuySetting: ReBuySetting{MaxTime: 2, WaitingTime: 15},
			AddonSetting: AddonSetting{MaxTime: 2},
			Blind: Blind{ID: "b", InitialLevel: 1, FinalBuyInLevelIndex: 1, DealerBlindTime: 1, Levels: []BlindLevel{
				{Level: 1, SB: 10, BB: 20, Duration: 100, AllowAddon: true},
				{Level: 2, SB: 20, BB: 40, Duration: 100, AllowAddon: true},
				{Level: 3, SB: 30, BB: 60, Duration: 10000, AllowAddon: true},
			}},
		},
		StartAt: UnsetValue, DisableAt: time.Now().Add(5 * time.Hour).Unix(),
	}
	if mode != CompetitionMode_MTT {
		s.TableSettings = []TableSetting{{TableID: "t1"}}
	}
	if edit != nil {
		edit(&s)
	}
	return s
}

func dNew(t *testing.T, s CompetitionSetting) (*competitionEngine, *dB) {
	b := &dB{tables: map[string]*pokertable.Table{}, fail: map[string]error{}}
	e := NewCompetitionEngine(WithTableManagerBackend(b)).(*competitionEngine)
	b.eng = e
	if _, err := e.CreateCompetition(s); err != nil {
		t.Fatal(err)
	}
	return e, b
}

func dPlayer(e *competitionEngine, id string) *CompetitionPlayer {
	for _, p := range e.competition.State.Players {
		if p.PlayerID == id {
			return p
		}
	}
	return nil
}

func dBuy(t *testing.T, e *competitionEngine, chips int64, ids ...string) {
	for _, id := range ids {
		if err := e.PlayerBuyIn(JoinPlayer{PlayerID: id, RedeemChips: chips, Unit: 1}); err != nil {
			t.Fatalf("buy in %s: %v", id, err)
		}
		time.Sleep(time.Second)
	}
}

func dRun(t *testing.T, f func(t *testing.T)) {
	out := os.Stdout
	os.Stdout = nil
	defer func() { os.Stdout = out }()
	synctest.Test(t, func(t *testing.T) {
		done := make(chan bool)
		go func() {
			defer close(done)
			f(t)
		}()
		<-done
		time.Sleep(30 * time.Hour) // lets every timer run out
	})
}
