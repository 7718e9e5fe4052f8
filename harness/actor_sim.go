package harness

import (
	"encoding/json"
	"fmt"

	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
	"pgregory.net/rapid"
)

const aMe = "me"

// aCards deals distinct cards in an order given by the seed.
func aCards(r *rng) []string {
	d := []string{}
	for _, s := range "SHDC" {
		for _, n := range "23456789TJQKA" {
			d = append(d, string(s)+string(n))
		}
	}
	for i := len(d) - 1; i > 0; i-- {
		j := r.n(i + 1)
		d[i], d[j] = d[j], d[i]
	}
	return d
}

// aActions are the actions pokerface offers the player to move.
func aActions(gs *pokerface.GameState, p *pokerface.PlayerState) []string {
	a := []string{"allin"}
	if p.Wager < gs.Status.CurrentWager {
		a = append(a, "fold")
		if p.InitialStackSize > gs.Status.CurrentWager {
			a = append(a, "call")
			if p.InitialStackSize > gs.Status.CurrentWager+gs.Status.PreviousRaiseSize {
				a = append(a, "raise")
			}
		}
		return a
	}
	a = append(a, "check")
	if p.InitialStackSize >= gs.Status.MiniBet {
		if gs.Status.CurrentWager == 0 {
			a = append(a, "bet")
		} else {
			a = append(a, "raise")
		}
	}
	return a
}

// build makes the table state; game and at say which hand and which state of
// it this is.
func (s *ATable) build(game int, at int64, actionTime int) *pokertable.Table {
	r := rng(uint64(s.Seed)*2654435761 + 12345)
	st := &pokertable.TableState{
		Status: pokertable.TableStateStatus(s.Status), StartAt: 1000, GameCount: game,
		BlindState:     &pokertable.TableBlindState{Level: 1, Ante: s.Ante, Dealer: s.Dealer, SB: s.SB, BB: s.BB},
		GameBlindState: &pokertable.TableBlindState{Level: 1, Ante: s.Ante, Dealer: s.Dealer, SB: s.SB, BB: s.BB},
	}
	t := &pokertable.Table{ID: "t1", UpdateSerial: at % 1000000, State: st, UpdateAt: at / 1000,
		Meta: pokertable.TableMeta{CompetitionID: "c1", Rule: "default", Mode: "ct", TableMaxSeatCount: 9, TableMinPlayerCount: 2, MinChipUnit: 10, ActionTime: actionTime}}
	for i := 0; i < s.NP; i++ {
		id := fmt.Sprintf("p%d", i)
		if i == s.Me {
			id = aMe
		}
		st.PlayerStates = append(st.PlayerStates, &pokertable.TablePlayerState{PlayerID: id, Seat: (i*5 + 2) % 9, Bankroll: 1000 + int64(r.n(9000)), IsIn: i != s.Me || !s.Out})
		if r.n(6) == 0 { // all in, or out of chips
			st.PlayerStates[i].Bankroll = 0
		}
	}
	if s.Kind == "nogame" {
		return t
	}
	// the hand: NG distinct players, me at Pos if I am in it
	order := []int{}
	for i := 0; i < s.NP; i++ {
		if i != s.Me {
			order = append(order, i)
		}
	}
	for i := len(order) - 1; i > 0; i-- {
		j := r.n(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	if s.Pos >= 0 && s.Me >= 0 {
		g := append([]int{}, order[:s.Pos]...)
		g = append(g, s.Me)
		order = append(g, order[s.Pos:]...)
	}
	order = order[:s.NG]
	st.GamePlayerIndexes = order
	deck := aCards(&r)
	gs := &pokerface.GameState{GameID: fmt.Sprintf("g%d", game), CreatedAt: 5, UpdatedAt: at}
	gs.Meta = pokerface.Meta{Ante: s.Ante, Blind: pokerface.BlindSetting{Dealer: s.Dealer, SB: s.SB, BB: s.BB}, Limit: "no", HoleCardsCount: 2, Deck: deck, BurnCount: 1}
	k := 0
	take := func(n int) []string { k += n; return append([]string{}, deck[k-n:k]...) }
	gs.Status = pokerface.Status{MiniBet: max(s.BB, s.Dealer), CurrentDeckPosition: 30, CurrentEvent: "RoundStarted", PreviousRaiseSize: s.Prev, CurrentWager: s.CurW, CurrentRoundPot: int64(r.n(500)), CurrentPlayer: s.Pos}
	for i := range order {
		p := &pokerface.PlayerState{Idx: i, Positions: []string{}, Bankroll: 5000, Pot: int64(r.n(40)), InitialStackSize: 500 + int64(r.n(500)), Wager: int64(r.n(20))}
		p.StackSize = p.InitialStackSize - p.Wager
		switch {
		case i == 0 && s.NG == 2:
			p.Positions = []string{"dealer", "sb"}
		case i == 0:
			p.Positions = []string{"dealer"}
		case i == 1 && s.NG == 2:
			p.Positions = []string{"bb"}
		case i == 1:
			p.Positions = []string{"sb"}
		case i == 2:
			p.Positions = []string{"bb"}
		}
		p.Fold = s.Fold>>uint(i)&1 == 1
		p.HoleCards = take(2)
		p.Combination = &pokerface.CombinationInfo{Type: "Pair", Cards: append(append([]string{}, p.HoleCards...), deck[40:43]...), Power: r.n(5000) + 1}
		gs.Players = append(gs.Players, p)
		tp := st.PlayerStates[order[i]]
		tp.Positions = p.Positions
		tp.IsParticipated = true
		tp.GameStatistics.ActionTimes = r.n(4)
	}
	gs.Status.Burned = take(3)
	gs.Status.Board = take(3 + r.n(3))
	gs.Status.Round = []string{"preflop", "flop", "turn", "river"}[r.n(4)]
	st.NextBBOrderPlayerIDs = []string{st.PlayerStates[order[0]].PlayerID}
	st.LastPlayerGameAction = &pokertable.TablePlayerGameAction{TableID: t.ID, PlayerID: st.PlayerStates[order[0]].PlayerID, Action: "call", Chips: 20}
	if s.Event == "GameClosed" {
		x := map[string]any{}
		ps := []any{}
		for i := range order {
			ps = append(ps, map[string]any{"idx": i, "final": 100 * i, "changed": 10 * i})
		}
		x["result"] = map[string]any{"players": ps}
		var tmp pokerface.GameState
		_ = json.Unmarshal(mustJSON(x), &tmp)
		gs.Result = tmp.Result
	}
	st.GameState = gs
	var me *pokerface.PlayerState
	if s.Pos >= 0 && s.Me >= 0 {
		me = gs.Players[s.Pos]
		me.InitialStackSize, me.Wager = s.Stack, s.Wager
		me.StackSize = me.InitialStackSize - me.Wager
	}
	switch s.Kind {
	case "none":
		gs.Status.CurrentEvent = s.Event
	case "act":
		if me != nil {
			me.Fold = false
			me.AllowedActions = aActions(gs, me)
		}
	case "pass":
		if me != nil {
			me.AllowedActions = []string{"pass"}
		}
	case "ready":
		gs.Status.CurrentEvent = "ReadyRequested"
		for _, p := range gs.Players {
			p.AllowedActions = []string{"ready"}
		}
	case "ante":
		gs.Status.CurrentEvent = "AnteRequested"
		for _, p := range gs.Players {
			p.AllowedActions = []string{"pay"}
		}
	case "blinds":
		gs.Status.CurrentEvent = "BlindsRequested"
		for _, p := range gs.Players {
			if aBlind(gs, p) > 0 {
				p.AllowedActions = []string{"pay"}
			}
		}
	}
	return t
}

// aBlind is the blind the table asks this player for, 0 if none.
func aBlind(gs *pokerface.GameState, p *pokerface.PlayerState) int64 {
	b := gs.Meta.Blind
	switch {
	case b.BB > 0 && hasStr(p.Positions, "bb"):
		return b.BB
	case b.SB > 0 && hasStr(p.Positions, "sb"):
		return b.SB
	case b.Dealer > 0 && hasStr(p.Positions, "dealer"):
		return b.Dealer
	}
	return 0
}

func hasStr(l []string, x string) bool {
	for _, s := range l {
		if s == x {
			return true
		}
	}
	return false
}

// aCall is what calling costs the player.
func aCall(gs *pokerface.GameState, p *pokerface.PlayerState) int64 {
	lvl := gs.Status.CurrentWager
	if lvl < gs.Meta.Blind.BB {
		lvl = gs.Meta.Blind.BB
	}
	if d := lvl - p.Wager; d < p.StackSize {
		return d
	}
	return p.StackSize
}

// recAdapter records what the runner asks of the table.
type recAdapter struct {
	me  string
	on  func(kind string, chips int64) error
	tbl *pokertable.Table
}

type aCall_ struct {
	Kind  string
	Chips int64
	Err   bool
	AtMs  int64
}

func (c aCall_) String() string {
	x := fmt.Sprintf("%s(%d)@%dms", c.Kind, c.Chips, c.AtMs)
	if c.Err {
		x += " refused"
	}
	return x
}

func (a *recAdapter) SetActor(actor.Actor)                     {}
func (a *recAdapter) UpdateTableState(*pokertable.Table) error { return nil }
func (a *recAdapter) GetGamePlayerIndex(id string) int         { return a.tbl.GamePlayerIndex(id) }
func (a *recAdapter) GetGameState() *pokerface.GameState       { return a.tbl.State.GameState }
func (a *recAdapter) GetTableState() *pokertable.Table         { return a.tbl }
func (a *recAdapter) act(id, k string, c int64) error {
	if id != a.me {
		k = "for " + id + ": " + k
	}
	return a.on(k, c)
}
func (a *recAdapter) Pass(p string) error                 { return a.act(p, "pass", 0) }
func (a *recAdapter) Ready(p string) error                { return a.act(p, "ready", 0) }
func (a *recAdapter) Pay(p string, c int64) error         { return a.act(p, "pay", c) }
func (a *recAdapter) Check(p string) error                { return a.act(p, "check", 0) }
func (a *recAdapter) Bet(p string, c int64) error         { return a.act(p, "bet", c) }
func (a *recAdapter) Call(p string) error                 { return a.act(p, "call", 0) }
func (a *recAdapter) Fold(p string) error                 { return a.act(p, "fold", 0) }
func (a *recAdapter) Allin(p string) error                { return a.act(p, "allin", 0) }
func (a *recAdapter) Raise(p string, c int64) error       { return a.act(p, "raise", c) }
func (a *recAdapter) ShowCard(p string, _ []string) error { return a.act(p, "showcard", 0) }
func (a *recAdapter) AutoMode(p string, _ bool) error     { return a.act(p, "automode", 0) }

// recEngine records what the bundled adapter asks of the table engine.
type recEngine struct {
	pokertable.TableEngine
	rec *recAdapter
}

func (e *recEngine) PlayerPass(p string) error           { return e.rec.Pass(p) }
func (e *recEngine) PlayerReady(p string) error          { return e.rec.Ready(p) }
func (e *recEngine) PlayerPay(p string, c int64) error   { return e.rec.Pay(p, c) }
func (e *recEngine) PlayerCheck(p string) error          { return e.rec.Check(p) }
func (e *recEngine) PlayerBet(p string, c int64) error   { return e.rec.Bet(p, c) }
func (e *recEngine) PlayerCall(p string) error           { return e.rec.Call(p) }
func (e *recEngine) PlayerFold(p string) error           { return e.rec.Fold(p) }
func (e *recEngine) PlayerAllin(p string) error          { return e.rec.Allin(p) }
func (e *recEngine) PlayerRaise(p string, c int64) error { return e.rec.Raise(p, c) }

// wire connects a runner to a recorder, through the bundled adapter unless
// direct; the result takes table states.
func wire(r actor.Runner, rec *recAdapter, direct bool) func(*pokertable.Table) error {
	a := actor.NewActor()
	a.SetRunner(r)
	if direct {
		a.SetAdapter(rec)
		return a.UpdateTableState
	}
	ad := actor.NewTableEngineAdapter(&recEngine{rec: rec}, nil)
	a.SetAdapter(ad)
	return ad.UpdateTableState
}

var aStatuses = []string{"table_game_playing", "table_game_settled", "table_pausing", "table_closed", "table_game_opened", "table_game_standby", "table_balancing", "table_created", "table_restoring"}

var aEvents = []string{"Started", "Initialized", "Prepared", "AnteRequested", "AntePaid", "BlindsRequested", "BlindsPaid", "ReadyRequested", "Readiness", "PreflopRoundEntered", "FlopRoundEntered", "TurnRoundEntered", "RiverRoundEntered", "RoundInitialized", "RoundPrepared", "RoundStarted", "RoundClosed", "GameCompleted", "SettlementRequested", "SettlementCompleted"}

// genATable draws a table state; kinds are the wanted kinds.
func genATable(rt *rapid.T, kinds []string) *ATable {
	s := &ATable{Kind: rapid.SampledFrom(kinds).Draw(rt, "kind"), Seed: ri(rt, 0, 99999, "seed")}
	s.NP = ri(rt, 2, 6, "np")
	s.NG = ri(rt, 2, s.NP, "ng")
	s.Me = ri(rt, 0, s.NP-1, "me")
	s.Pos = ri(rt, 0, s.NG-1, "pos")
	s.Status = "table_game_playing"
	s.SB, s.BB = 10, 20
	switch ri(rt, 0, 5, "blinds") {
	case 0:
		s.SB, s.BB, s.Dealer, s.Ante = 0, 0, 30, 5
	case 1:
		s.SB, s.BB, s.Dealer, s.Ante = 10, 20, 30, 5
	case 2:
		s.SB, s.BB, s.Ante = 0, 50, 0
	case 3:
		s.SB, s.BB, s.Ante = 25, 50, 7
	}
	if s.Kind == "ante" && s.Ante == 0 {
		s.Ante = 5
	}
	s.Fold = ri(rt, 0, 63, "fold")
	if pct(rt, 40, "nofold") {
		s.Fold = 0
	}
	// wagers: mine, the current one, the last raise
	s.Stack = int64(rapid.SampledFrom([]int{1, 5, 15, 19, 20, 21, 40, 50, 51, 90, 200, 1000}).Draw(rt, "stack"))
	s.CurW = int64(rapid.SampledFrom([]int{0, 0, 5, 15, 20, 40, 50, 200}).Draw(rt, "curw"))
	s.Wager = int64(rapid.SampledFrom([]int{0, 0, 5, 10, 15, 20, 40}).Draw(rt, "wager"))
	s.Prev = int64(rapid.SampledFrom([]int{0, 10, 20, 50}).Draw(rt, "prev"))
	if s.Wager > s.CurW {
		s.Wager = s.CurW
	}
	if s.Wager >= s.Stack {
		s.Wager = s.Stack - 1
	}
	if s.Kind == "none" {
		s.Event = rapid.SampledFrom(aEvents).Draw(rt, "event")
		if pct(rt, 15, "notIn") {
			if s.NG < s.NP {
				s.Pos = -1
			}
			if pct(rt, 50, "gone") {
				s.Me, s.Pos = -1, -1
				if s.NG > s.NP {
					s.NG = s.NP
				}
			}
		}
	}
	s.NewGame = pct(rt, 20, "newgame")
	return s
}
