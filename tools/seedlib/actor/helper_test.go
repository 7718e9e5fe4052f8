package actor

import (
	"fmt"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/weedbox/pokerface"
	pokertable "github.com/weedbox/pokertable"
)

// dA records what the player does at the table.
type dA struct {
	calls []string
	err   error
}

func (d *dA) SetActor(a Actor)                           {}
func (d *dA) UpdateTableState(t *pokertable.Table) error { return nil }
func (d *dA) GetGamePlayerIndex(playerID string) int     { return -1 }
func (d *dA) GetGameState() *pokerface.GameState         { return nil }
func (d *dA) GetTableState() *pokertable.Table           { return nil }
func (d *dA) add(n string, c int64) error {
	d.calls = append(d.calls, fmt.Sprint(n, " ", c))
	return d.err
}
func (d *dA) Pass(string) error               { return d.add("pass", 0) }
func (d *dA) Ready(string) error              { return d.add("ready", 0) }
func (d *dA) Pay(_ string, c int64) error     { return d.add("pay", c) }
func (d *dA) Check(string) error              { return d.add("check", 0) }
func (d *dA) Bet(_ string, c int64) error     { return d.add("bet", c) }
func (d *dA) Call(string) error               { return d.add("call", 0) }
func (d *dA) Fold(string) error               { return d.add("fold", 0) }
func (d *dA) Allin(string) error              { return d.add("allin", 0) }
func (d *dA) Raise(_ string, c int64) error   { return d.add("raise", c) }
func (d *dA) ShowCard(string, []string) error { return nil }
func (d *dA) AutoMode(string, bool) error     { return nil }

// dTable is a table where p0, p1 and p2 play and p3 only sits.
func dTable(game string, at int64, actions ...string) *pokertable.Table {
	gs := &pokerface.GameState{GameID: game, UpdatedAt: at}
	gs.Meta.Blind.BB = 20
	gs.Meta.Blind.SB = 10
	gs.Status.Round = "flop"
	gs.Status.CurrentEvent = "RoundStarted"
	gs.Status.MiniBet = 20
	t := &pokertable.Table{ID: "t1", State: &pokertable.TableState{Status: pokertable.TableStateStatus_TableGamePlaying, GameState: gs, BlindState: &pokertable.TableBlindState{}}}
	t.Meta.ActionTime = 10
	for i := 0; i < 4; i++ {
		t.State.PlayerStates = append(t.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: fmt.Sprint("p", i), Seat: i, Bankroll: 1000, IsIn: true})
		if i < 3 {
			t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, i)
			gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: i, InitialStackSize: 1000, StackSize: 1000, HoleCards: []string{fmt.Sprint("S", i+2), fmt.Sprint("H", i+2)}})
		}
	}
	gs.Players[0].AllowedActions = actions
	return t
}

func dSit(r Runner) *dA {
	d := &dA{}
	a := NewActor()
	a.SetRunner(r)
	a.SetAdapter(d)
	return d
}

func dRun(t *testing.T, f func(t *testing.T)) {
	out := os.Stdout
	os.Stdout = nil
	defer func() { os.Stdout = out }()
	synctest.Test(t, func(t *testing.T) {
		done := make(chan bool)
		go func() {
			defer close(done)
			f(t)
		}()
		<-done
		time.Sleep(time.Hour)
	})
}
