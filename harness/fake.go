package harness

import (
	"errors"
	"fmt"
	"sort"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	"github.com/weedbox/pokertable"
)

var errFault = errors.New("injected backend failure")

type setupInfo struct {
	count int
	parts map[string]int
	seq   int
}

type FTable struct {
	T        *pokertable.Table
	closed   bool
	released bool
	paused   bool
	setup    *setupInfo
	setupSeq int
	parts    []string // participants of the running hand in game order
	start    map[string]int64
	newcomer map[string]bool
	startCt  int // StartTableGame effective calls
	noEmit   int
}

func (t *FTable) dead() bool { return t.closed || t.released }

func (t *FTable) find(pid string) int {
	for i, p := range t.T.State.PlayerStates {
		if p.PlayerID == pid {
			return i
		}
	}
	return -1
}

// Fake is a table backend that follows the observable behaviour of
// pokertable v0.1.83 but plays scripted hands.
type Fake struct {
	w        *World
	tables   map[string]*FTable
	order    []string
	onUpd    func(*pokertable.Table)
	onRes    func(string, *pokertable.TablePlayerState)
	onReady  func(string, int, []*pokertable.TablePlayerState)
	counts   map[string]int
	handNo   int
	joinNo   int
	lastSent map[string]*pokertable.Table // last delivered object per table
	settled  map[string]*pokertable.Table // clone of last settled report
	faultHit int
	loopAt   time.Time
	loopN    int
}

func newFake(w *World) *Fake {
	return &Fake{w: w, tables: map[string]*FTable{}, counts: map[string]int{}, lastSent: map[string]*pokertable.Table{}, settled: map[string]*pokertable.Table{},
		onUpd: func(*pokertable.Table) {}, onRes: func(string, *pokertable.TablePlayerState) {}, onReady: func(string, int, []*pokertable.TablePlayerState) {}}
}

func cloneTable(t *pokertable.Table) *pokertable.Table {
	c := *t
	s := t.State
	cs := *t.State
	c.State = &cs
	if s.BlindState != nil {
		b := *s.BlindState
		c.State.BlindState = &b
	}
	if s.GameBlindState != nil {
		b := *s.GameBlindState
		c.State.GameBlindState = &b
	}
	c.State.SeatMap = append([]int{}, s.SeatMap...)
	c.State.GamePlayerIndexes = append([]int{}, s.GamePlayerIndexes...)
	c.State.NextBBOrderPlayerIDs = append([]string{}, s.NextBBOrderPlayerIDs...)
	c.State.PlayerStates = make([]*pokertable.TablePlayerState, len(s.PlayerStates))
	for i, p := range s.PlayerStates {
		q := *p
		q.Positions = append([]string{}, p.Positions...)
		c.State.PlayerStates[i] = &q
	}
	if s.GameState != nil {
		g := *s.GameState
		g.Players = make([]*pokerface.PlayerState, len(s.GameState.Players))
		for i, p := range s.GameState.Players {
			q := *p
			if p.Combination != nil {
				cc := *p.Combination
				cc.Cards = append([]string{}, p.Combination.Cards...)
				q.Combination = &cc
			}
			g.Players[i] = &q
		}
		if s.GameState.Result != nil {
			r := &settlement.Result{Pots: []*settlement.PotResult{}}
			for _, pr := range s.GameState.Result.Players {
				x := *pr
				r.Players = append(r.Players, &x)
			}
			g.Result = r
		}
		c.State.GameState = &g
	}
	return &c
}

func (f *Fake) OnTableUpdated(fn func(*pokertable.Table)) { f.onUpd = fn }
func (f *Fake) OnTablePlayerReserved(fn func(string, *pokertable.TablePlayerState)) {
	f.onRes = fn
}
func (f *Fake) OnReadyOpenFirstTableGame(fn func(string, int, []*pokertable.TablePlayerState)) {
	f.onReady = fn
}

// emit reports the table as it is now in the calling goroutine.
func (f *Fake) emit(t *FTable) {
	t.T.UpdateSerial++
	t.T.UpdateAt = time.Now().Unix()
	c := cloneTable(t.T)
	f.lastSent[t.T.ID] = c
	if c.State.Status == pokertable.TableStateStatus_TableGameSettled {
		f.settled[t.T.ID] = cloneTable(c)
	}
	r := f.w.rec("emit", "")
	r.Table = t.T.ID
	r.TS = snapTable(c)
	if f.w.stopped {
		return
	}
	if f.w.eng != nil {
		r.Comp = snapComp(f.w.eng.GetCompetition())
	}
	f.onUpd(c)
	f.w.rec("emitted", "").Table = t.T.ID
}

func (f *Fake) begin(method, table string) (*Rec, *FTable, error) {
	f.counts[method]++
	r := f.w.rec("call", method)
	r.Table = table
	t := f.tables[table]
	if t != nil {
		r.TS = snapTable(t.T)
	}
	if f.w.eng != nil && f.w.eng.GetCompetition() != nil {
		r.Comp = snapComp(f.w.eng.GetCompetition())
	}
	for _, ft := range f.w.plan.Faults {
		if n := f.counts[method]; ft.Method == method && ft.Nth <= n && n <= ft.Nth+ft.Len {
			f.faultHit++
			r.Err = errFault
			r.Fault = true
			return r, t, errFault
		}
	}
	if method != "CreateTable" {
		if t == nil || t.released {
			r.Err = pokertable.ErrManagerTableNotFound
			return r, t, r.Err
		}
	}
	return r, t, nil
}

func (f *Fake) CreateTable(_ *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	r, _, err := f.begin("CreateTable", s.TableID)
	r.Join = append([]pokertable.JoinPlayer{}, s.JoinPlayers...)
	r.Blind = s.Blind
	if err != nil {
		return nil, err
	}
	if len(s.JoinPlayers) > s.Meta.TableMaxSeatCount {
		r.Err = pokertable.ErrTableInvalidCreateSetting
		return nil, r.Err
	}
	b := s.Blind
	t := &FTable{newcomer: map[string]bool{}, T: &pokertable.Table{ID: s.TableID, Meta: s.Meta, State: &pokertable.TableState{
		StartAt: -1, BlindState: &b, CurrentDealerSeat: -1, CurrentSBSeat: -1, CurrentBBSeat: -1,
		PlayerStates: []*pokertable.TablePlayerState{}, GamePlayerIndexes: []int{}, Status: pokertable.TableStateStatus_TableCreated, NextBBOrderPlayerIDs: []string{},
	}}}
	for i := 0; i < s.Meta.TableMaxSeatCount; i++ {
		t.T.State.SeatMap = append(t.T.State.SeatMap, -1)
	}
	if b.Level == -1 {
		t.T.State.Status = pokertable.TableStateStatus_TablePausing
	}
	f.tables[s.TableID] = t
	f.order = append(f.order, s.TableID)
	f.emit(t)
	if len(s.JoinPlayers) > 0 {
		f.addPlayers(t, s.JoinPlayers)
		if s.Meta.Mode == "mtt" && t.T.State.Status != pokertable.TableStateStatus_TablePausing {
			t.T.State.Status = pokertable.TableStateStatus_TableBalancing
		}
		f.emit(t)
	}
	return t.T, nil
}

func (f *Fake) addPlayers(t *FTable, js []pokertable.JoinPlayer) {
	added := []*pokertable.TablePlayerState{}
	for _, j := range js {
		seat := -1
		for i, v := range t.T.State.SeatMap {
			if v == -1 {
				seat = i
				break
			}
		}
		p := &pokertable.TablePlayerState{PlayerID: j.PlayerID, Seat: seat, Positions: []string{}, Bankroll: j.RedeemChips}
		t.T.State.PlayerStates = append(t.T.State.PlayerStates, p)
		t.T.State.SeatMap[seat] = len(t.T.State.PlayerStates) - 1
		if t.T.State.GameCount > 0 {
			t.newcomer[j.PlayerID] = true
		}
		added = append(added, p)
	}
	for _, p := range added {
		q := *p
		q.Positions = []string{}
		r := f.w.rec("reserved", "")
		r.Table, r.PlayerID, r.Seat = t.T.ID, p.PlayerID, p.Seat
		f.onRes(t.T.ID, &q)
	}
	ids := []string{}
	for _, p := range added {
		ids = append(ids, p.PlayerID)
	}
	f.scheduleJoins(t, ids)
}

func (f *Fake) scheduleJoins(t *FTable, ids []string) {
	for _, id := range ids {
		id := id
		d := 1500
		if n := len(f.w.plan.Joins); n > 0 {
			d = f.w.plan.Joins[f.joinNo%n]
		}
		f.joinNo++
		f.w.after(d, "join", func() { f.join(t, id) })
	}
}

// join is the player's client taking the reserved seat.
func (f *Fake) join(t *FTable, id string) {
	i := t.find(id)
	if i < 0 || t.dead() || t.T.State.PlayerStates[i].IsIn {
		return
	}
	t.T.State.PlayerStates[i].IsIn = true
	f.emit(t)
	f.maybeAutoStart(t)
}

// maybeAutoStart: in an MTT the table starts by itself once its players sit.
func (f *Fake) maybeAutoStart(t *FTable) {
	if t.T.Meta.Mode != "mtt" || t.dead() {
		return
	}
	in, alive := 0, 0
	for _, p := range t.T.State.PlayerStates {
		if p.IsIn {
			in++
		}
		if p.Bankroll > 0 {
			alive++
		}
	}
	all := in == len(t.T.State.PlayerStates)
	st := t.T.State.Status
	running := st == pokertable.TableStateStatus_TableGameOpened || st == pokertable.TableStateStatus_TableGamePlaying || st == pokertable.TableStateStatus_TableGameSettled || st == pokertable.TableStateStatus_TableGameStandby
	if all && in >= 2 && alive >= 2 && !running && t.T.State.BlindState.Level > 0 && t.T.State.GameCount == 0 {
		f.startTable(t)
	}
}

func (f *Fake) startTable(t *FTable) {
	if t.T.State.StartAt != -1 {
		return
	}
	t.T.State.StartAt = time.Now().Unix()
	t.startCt++
	f.emit(t)
	ps := cloneTable(t.T).State.PlayerStates
	f.onReady(t.T.ID, t.T.State.GameCount, ps)
}

func (f *Fake) PauseTable(id string) error {
	_, t, err := f.begin("PauseTable", id)
	if err != nil {
		return err
	}
	t.T.State.Status = pokertable.TableStateStatus_TablePausing
	if f.w.plan.Cfg.PauseSticky {
		t.paused = true
	}
	return nil
}

func (f *Fake) CloseTable(id string) error {
	_, t, err := f.begin("CloseTable", id)
	if err != nil {
		return err
	}
	t.T.State.Status = pokertable.TableStateStatus_TableClosed
	t.closed = true
	f.emit(t)
	return nil
}

func (f *Fake) StartTableGame(id string) error {
	_, t, err := f.begin("StartTableGame", id)
	if err != nil {
		return err
	}
	f.startTable(t)
	return nil
}

func (f *Fake) SetUpTableGame(id string, count int, parts map[string]int) error {
	r, t, err := f.begin("SetUpTableGame", id)
	r.Count = count
	r.Parts = map[string]int{}
	for k, v := range parts {
		r.Parts[k] = v
	}
	if err != nil {
		return err
	}
	f.setUp(t, count, r.Parts)
	return nil
}

func (f *Fake) setUp(t *FTable, count int, parts map[string]int) {
	t.paused = false
	t.setupSeq++
	si := &setupInfo{count: count, parts: parts, seq: t.setupSeq}
	t.setup = si
	d := f.hand(f.handNo).OpenMs
	f.w.after(d, "open", func() { f.open(t, si, 0) })
}

func (f *Fake) hand(i int) HandSpec {
	if n := len(f.w.plan.Hands); n > 0 {
		return f.w.plan.Hands[i%n]
	}
	return HandSpec{DurMs: 2003, OpenMs: 703, Bets: []int{10}, Winners: []int{0}}
}

func (f *Fake) UpdateBlind(id string, level int, ante, dealer, sb, bb int64) error {
	r, t, err := f.begin("UpdateBlind", id)
	r.Blind = pokertable.TableBlindState{Level: level, Ante: ante, Dealer: dealer, SB: sb, BB: bb}
	if err != nil {
		return err
	}
	*t.T.State.BlindState = r.Blind
	return nil
}

// remove follows calcLeavePlayers + RemoveSeats: states are removed first, a
// player who is not seated yields an error afterwards.
func (f *Fake) remove(t *FTable, ids []string) error {
	leave := map[string]bool{}
	var err error
	for _, id := range ids {
		if t.find(id) < 0 {
			err = pokertable.ErrTablePlayerNotFound
		}
		leave[id] = true
	}
	old := t.T.State.PlayerStates
	oldIdx := map[int]string{}
	for i, p := range old {
		oldIdx[i] = p.PlayerID
	}
	gp := []string{}
	for _, gi := range t.T.State.GamePlayerIndexes {
		gp = append(gp, oldIdx[gi])
	}
	nps := []*pokertable.TablePlayerState{}
	for i := range t.T.State.SeatMap {
		t.T.State.SeatMap[i] = -1
	}
	for _, p := range old {
		if !leave[p.PlayerID] {
			nps = append(nps, p)
			t.T.State.SeatMap[p.Seat] = len(nps) - 1
		}
	}
	t.T.State.PlayerStates = nps
	ngi := []int{}
	for _, id := range gp {
		if !leave[id] {
			ngi = append(ngi, t.find(id))
		}
	}
	t.T.State.GamePlayerIndexes = ngi
	return err
}

func (f *Fake) UpdateTablePlayers(id string, join []pokertable.JoinPlayer, leave []string) (m map[string]int, err error) {
	// the balancing library repeats a failed seating for ever: cut that short
	if !f.loopAt.Equal(time.Now()) {
		f.loopAt, f.loopN = time.Now(), 0
	}
	if f.loopN >= 100 {
		if f.w.loop = true; f.faultHit == 0 {
			f.w.fail("seating %d players at table %s is repeated for ever", len(join), short(id))
		}
		return map[string]int{}, nil
	}
	defer func() {
		if err != nil {
			f.loopN++
		}
	}()
	r, t, err := f.begin("UpdateTablePlayers", id)
	r.Join = append([]pokertable.JoinPlayer{}, join...)
	r.Leave = append([]string{}, leave...)
	if err != nil {
		return nil, err
	}
	if len(leave) > 0 {
		if err := f.remove(t, leave); err != nil {
			r.Err = err
			return nil, err
		}
	}
	if len(join) > 0 {
		if len(t.T.State.PlayerStates)+len(join) > t.T.Meta.TableMaxSeatCount {
			r.Err = pokertable.ErrTableNoEmptySeats
			return nil, r.Err
		}
		f.addPlayers(t, join)
	}
	f.emit(t)
	return t.T.PlayerSeatMap(), nil
}

func (f *Fake) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	r, t, err := f.begin("PlayerReserve", id)
	r.Join = []pokertable.JoinPlayer{j}
	if err != nil {
		return err
	}
	if i := t.find(j.PlayerID); i >= 0 {
		p := t.T.State.PlayerStates[i]
		p.Bankroll += j.RedeemChips
		q := *p
		rr := f.w.rec("reserved", "")
		rr.Table, rr.PlayerID, rr.Seat = id, p.PlayerID, p.Seat
		f.onRes(id, &q)
	} else {
		if len(t.T.State.PlayerStates) == t.T.Meta.TableMaxSeatCount {
			r.Err = pokertable.ErrTableNoEmptySeats
			return r.Err
		}
		f.addPlayers(t, []pokertable.JoinPlayer{j})
	}
	f.emit(t)
	return nil
}

func (f *Fake) PlayerJoin(id, pid string) error {
	if t := f.tables[id]; t != nil {
		f.join(t, pid)
	}
	return nil
}

func (f *Fake) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	r, t, err := f.begin("PlayerRedeemChips", id)
	r.Join = []pokertable.JoinPlayer{j}
	if err != nil {
		return err
	}
	i := t.find(j.PlayerID)
	if i < 0 {
		r.Err = pokertable.ErrTablePlayerNotFound
		return r.Err
	}
	t.T.State.PlayerStates[i].Bankroll += j.RedeemChips
	f.emit(t)
	return nil
}

func (f *Fake) PlayersLeave(id string, ids []string) error {
	r, t, err := f.begin("PlayersLeave", id)
	r.Leave = append([]string{}, ids...)
	if err != nil {
		return err
	}
	if err := f.remove(t, ids); err != nil {
		r.Err = err
		return err
	}
	f.emit(t)
	return nil
}

func (f *Fake) UpdateTable(t *pokertable.Table) { f.onUpd(t) }

func (f *Fake) ReleaseTable(id string) error {
	_, t, err := f.begin("ReleaseTable", id)
	if err != nil {
		return err
	}
	t.released = true
	return nil
}

// ---- hands -------------------------------------------------------------

func (f *Fake) running(t *FTable) bool {
	switch t.T.State.Status {
	case pokertable.TableStateStatus_TableGameOpened, pokertable.TableStateStatus_TableGamePlaying, pokertable.TableStateStatus_TableGameSettled:
		return true
	}
	return false
}

func (f *Fake) open(t *FTable, si *setupInfo, try int) {
	if t.setup != si || t.dead() || len(si.parts) <= 1 || f.running(t) {
		return
	}
	b := t.T.State.BlindState
	if b.Level == 0 || b.Ante < 0 || b.Dealer < 0 || b.SB < 0 || b.BB < 0 {
		if try < 10 {
			f.w.after(3000, "open", func() { f.open(t, si, try+1) })
		}
		return
	}
	if b.Level == -1 {
		return
	}
	h := f.hand(f.handNo)
	st := t.T.State
	elig := []int{}
	for i, p := range st.PlayerStates {
		p.IsParticipated = false
		if p.IsIn && p.Bankroll > 0 {
			elig = append(elig, i)
		}
	}
	if len(elig) < 2 {
		return
	}
	if h.SitOut {
		keep := []int{}
		for _, i := range elig {
			if !t.newcomer[st.PlayerStates[i].PlayerID] {
				keep = append(keep, i)
			}
		}
		if len(keep) >= 2 {
			elig = keep
		}
	}
	t.newcomer = map[string]bool{}
	t.setup = nil
	f.handNo++
	st.GameCount++
	for _, i := range elig {
		st.PlayerStates[i].IsParticipated = true
	}
	sort.Slice(elig, func(a, b int) bool { return st.PlayerStates[elig[a]].Seat < st.PlayerStates[elig[b]].Seat })
	rot := st.GameCount % len(elig)
	gpi := append(append([]int{}, elig[rot:]...), elig[:rot]...)
	st.GamePlayerIndexes = gpi
	st.CurrentDealerSeat = st.PlayerStates[gpi[0]].Seat
	st.CurrentSBSeat = st.PlayerStates[gpi[len(gpi)*1/2%len(gpi)]].Seat
	if len(gpi) == 2 {
		st.CurrentSBSeat = st.PlayerStates[gpi[0]].Seat
		st.CurrentBBSeat = st.PlayerStates[gpi[1]].Seat
	} else {
		st.CurrentSBSeat = st.PlayerStates[gpi[1]].Seat
		st.CurrentBBSeat = st.PlayerStates[gpi[2]].Seat
	}
	gb := *b
	st.GameBlindState = &gb
	t.parts = nil
	t.start = map[string]int64{}
	for _, i := range gpi {
		t.parts = append(t.parts, st.PlayerStates[i].PlayerID)
		t.start[st.PlayerStates[i].PlayerID] = st.PlayerStates[i].Bankroll
	}
	st.Status = pokertable.TableStateStatus_TableGameOpened
	rr := f.w.rec("open", "")
	rr.Table, rr.Count, rr.Blind, rr.TS = t.T.ID, st.GameCount, *b, snapTable(t.T)
	rr.Leave = append([]string{}, t.parts...)
	f.emit(t)
	if st.Status == pokertable.TableStateStatus_TableGameOpened {
		st.Status = pokertable.TableStateStatus_TableGamePlaying
		f.emit(t)
	}
	d := h.DurMs
	if d < 50 {
		d = 50
	}
	f.w.after(d, "settle", func() { f.settle(t, h) })
}

type rng uint64

func (r *rng) n(k int) int {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	return int(z % uint64(k))
}
func (r *rng) b() bool { return r.n(2) == 0 }

func (f *Fake) settle(t *FTable, h HandSpec) {
	if t.dead() || t.T.State.Status != pokertable.TableStateStatus_TableGamePlaying {
		return
	}
	st := t.T.State
	// participants still present
	ids := []string{}
	for _, gi := range st.GamePlayerIndexes {
		ids = append(ids, st.PlayerStates[gi].PlayerID)
	}
	n := len(ids)
	changed := make([]int64, n)
	g := rng(h.Seed)
	gs := &pokerface.GameState{GameID: fmt.Sprintf("%s-%d", t.T.ID, st.GameCount), Result: settlement.NewResult()}
	if n > 0 {
		bets := make([]int64, n)
		for i, id := range ids {
			pct := int64(10)
			if len(h.Bets) > 0 {
				pct = int64(h.Bets[i%len(h.Bets)])
			}
			bets[i] = t.start[id] * pct / 100
		}
		win := []int{}
		if len(h.Winners) == 0 {
			win = append(win, 0)
		}
		for _, x := range h.Winners {
			w := ((x % n) + n) % n
			dup := false
			for _, y := range win {
				dup = dup || y == w
			}
			if !dup {
				win = append(win, w)
			}
		}
		isWin := map[int]bool{}
		var capw int64
		for _, w := range win {
			isWin[w] = true
			if capw == 0 || t.start[ids[w]] < capw {
				capw = t.start[ids[w]]
			}
		}
		var pot int64
		for i := range ids {
			if !isWin[i] {
				l := bets[i]
				if l > capw {
					l = capw
				}
				changed[i] = -l
				pot += l
			}
		}
		share := pot / int64(len(win))
		for k, w := range win {
			changed[w] = share
			if k == 0 {
				changed[w] += pot - share*int64(len(win))
			}
		}
	}
	rounds := []string{"preflop", "flop", "turn", "river"}
	walk := g.n(6) == 0
	for i, id := range ids {
		p := st.PlayerStates[t.find(id)]
		s := pokertable.NewPlayerGameStatistics()
		s.ActionTimes = g.n(6)
		s.RaiseTimes = g.n(3)
		s.CallTimes = g.n(3)
		s.CheckTimes = g.n(3)
		if changed[i] <= 0 && (walk || g.b()) {
			s.IsFold = true
			s.FoldRound = rounds[g.n(4)]
			if walk {
				s.FoldRound = "preflop"
			}
		}
		if walk && changed[i] > 0 {
			s.ActionTimes = 0
		}
		s.IsVPIPChance, s.IsVPIP = g.b(), g.b()
		s.IsPFRChance, s.IsPFR = g.b(), g.b()
		s.IsATSChance, s.IsATS = g.b(), g.b()
		s.Is3BChance, s.Is3B = g.b(), g.b()
		s.IsFt3BChance, s.IsFt3B = g.b(), g.b()
		s.IsCheckRaiseChance, s.IsCheckRaise = g.b(), g.b()
		s.IsCBetChance, s.IsCBet = g.b(), g.b()
		s.IsFtCBChance, s.IsFtCB = g.b(), g.b()
		p.GameStatistics = s
		gp := &pokerface.PlayerState{Idx: i, Fold: s.IsFold, Bankroll: t.start[id]}
		gp.Combination = &pokerface.CombinationInfo{Type: fmt.Sprintf("T%d", g.n(9)), Cards: []string{fmt.Sprintf("C%d", g.n(52)), fmt.Sprintf("D%d", g.n(52))}, Power: g.n(1000)}
		gs.Players = append(gs.Players, gp)
		p.Bankroll += changed[i]
		gs.Result.Players = append(gs.Result.Players, &settlement.PlayerResult{Idx: i, Final: p.Bankroll, Changed: changed[i]})
	}
	gs.Status.CurrentEvent = "GameClosed"
	st.GameState = gs
	st.Status = pokertable.TableStateStatus_TableGameSettled
	// next BB order: players with chips in seat order after the BB
	st.NextBBOrderPlayerIDs = []string{}
	m := len(st.SeatMap)
	for i := 1; i <= m; i++ {
		s := (st.CurrentBBSeat + i) % m
		if pi := st.SeatMap[s]; pi >= 0 && st.PlayerStates[pi].Bankroll > 0 {
			st.NextBBOrderPlayerIDs = append(st.NextBBOrderPlayerIDs, st.PlayerStates[pi].PlayerID)
		}
	}
	rr := f.w.rec("settle", "")
	rr.Table, rr.Count, rr.TS, rr.Full = t.T.ID, st.GameCount, snapTable(t.T), cloneTable(t.T)
	rr.Leave = ids
	f.emit(t)
	f.w.rec("settled", "").Table = t.T.ID
	if t.closed {
		return
	}
	if !(t.paused) {
		st.Status = pokertable.TableStateStatus_TableGameStandby
	}
	st.GamePlayerIndexes = []int{}
	st.NextBBOrderPlayerIDs = []string{}
	st.GameState = nil
	for _, p := range st.PlayerStates {
		p.GameStatistics = pokertable.NewPlayerGameStatistics()
	}
	if t.released {
		return
	}
	if mode := t.T.Meta.Mode; mode != "mtt" {
		if time.Now().Unix() > st.StartAt+int64(t.T.Meta.MaxDuration) {
			f.w.after(1000, "autoend", func() { f.w.autoGameOpenEnd(t.T.ID) })
			return
		}
	}
	f.w.after(f.w.plan.Cfg.ContinueMs, "continue", func() { f.cont(t) })
}

func (f *Fake) cont(t *FTable) {
	if t.dead() || t.paused {
		return
	}
	st := t.T.State
	if t.T.ShouldPause() {
		st.Status = pokertable.TableStateStatus_TablePausing
		f.emit(t)
		return
	}
	if st.Status != pokertable.TableStateStatus_TableGameStandby {
		return
	}
	parts := map[string]int{}
	for i, p := range st.PlayerStates {
		if p.IsIn && p.Bankroll > 0 {
			parts[p.PlayerID] = i
		}
	}
	f.setUp(t, st.GameCount+1, parts)
}

var _ pc.TableManagerBackend = (*Fake)(nil)
