package harness

import (
	"fmt"
	"os"
	"testing"
	"testing/synctest"
	"time"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
)

func init() {
	// C24: while the backend refuses every change of a table's players the
	// balancing library repeats the seating of a late entry for ever.
	knownScenarios["seating-outage"] = func(t *testing.T) string {
		p := &Plan{Prop: "C24", Mode: "mtt", HorizonS: 5, Hands: []HandSpec{{DurMs: 900, OpenMs: 300, Bets: []int{0}, Winners: []int{0}}}, Joins: []int{51}}
		p.Cfg = Cfg{Levels: []LevelSpec{{Level: 1, SB: 1, BB: 2, Dur: -1}}, InitialLevel: 1, FinalIdx: -2, Rule: "default", MinPlayers: 3, MaxSeat: 5, TableMin: 2, RegMin: 3, ReMax: 1, ReWait: 2, MaxDur: 900, StartIn: -1, DisableIn: 400, ContinueMs: 1013}
		p.Faults = []Fault{{Method: "UpdateTablePlayers", Nth: 1, Len: 1000000}}
		for i := 0; i < 3; i++ {
			p.Ops = append(p.Ops, Op{DtMs: 10, Kind: "buyin", Chips: 1000, Unit: 1})
		}
		p.Ops = append(p.Ops, Op{DtMs: 10, Kind: "start"}, Op{DtMs: 10, Kind: "buyin", Chips: 1000, Unit: 1})
		var w *World
		synctest.Test(t, func(t *testing.T) {
			w = newWorld(p, NopOracle{})
			w.run()
		})
		if w.loop {
			return "a late buy-in whose seating keeps failing at the backend never returns: the seating is repeated for ever"
		}
		return ""
	}
	// C24: the backend fails to take a busted player off his table; he buys
	// in again while waiting for a seat, and the next hand settled at the old
	// table takes the new chips away.
	knownScenarios["stale-seat-rebuy"] = func(t *testing.T) string {
		p := &Plan{Prop: "C24", Mode: "mtt", HorizonS: 12, Hands: []HandSpec{{DurMs: 900, OpenMs: 300, Bets: []int{0, 0, 100}, Winners: []int{0}}, {DurMs: 900, OpenMs: 300, Bets: []int{0}, Winners: []int{0}}}, Joins: []int{51}}
		p.Cfg = Cfg{Levels: []LevelSpec{{Level: 1, SB: 1, BB: 2, Dur: -1}}, InitialLevel: 1, FinalIdx: -2, Rule: "default", MinPlayers: 3, MaxSeat: 3, TableMin: 2, RegMin: 3, ReMax: 1, ReWait: 2, MaxDur: 900, StartIn: -1, DisableIn: 400, ContinueMs: 2013}
		p.Faults = []Fault{{Method: "UpdateTablePlayers", Nth: 1}}
		for i := 0; i < 3; i++ {
			p.Ops = append(p.Ops, Op{DtMs: 10, Kind: "buyin", P: i, Chips: 1000, Unit: 1})
		}
		p.Ops = append(p.Ops, Op{DtMs: 10, Kind: "start"})
		for i := 0; i < 30; i++ {
			p.Ops = append(p.Ops, Op{DtMs: 300, Kind: "rebuy", P: 0, Chips: 500, Unit: 1})
		}
		var w *World
		synctest.Test(t, func(t *testing.T) {
			w = newWorld(p, NopOracle{})
			w.run()
		})
		who := ""
		for _, s := range w.steps {
			if s.Op != nil && s.Op.Kind == "rebuy" && s.Err == nil {
				who = "?"
			}
		}
		if os.Getenv("VERIF_TRACE") != "" {
			fmt.Fprintln(os.Stderr, w.dump(100000))
		}
		if who != "" {
			for _, cp := range w.lastPost.Players {
				if cp.ReBuyTimes > 0 && cp.Chips == 0 {
					return "a player who bought in again while the backend had failed to take him off his old table loses the new chips when the next hand there is settled"
				}
			}
		}
		return ""
	}
	// C22: two competitions on one native backend: the second one takes over
	// the table events of the first.
	knownScenarios["shared-native-backend"] = func(t *testing.T) string {
		try := func(second bool) bool {
			m := pc.NewManager(pc.NewNativeTableManagerBackend(pokertable.NewManager()))
			mk := func(id string) *pc.Competition {
				p := &Plan{Mode: "ct"}
				p.Cfg = Cfg{Levels: []LevelSpec{{Level: 1, SB: 1, BB: 2, Dur: 600}}, InitialLevel: 1, FinalIdx: -2, Rule: "default", MinPlayers: 2, MaxSeat: 3, TableMin: 2, RegMin: 2, ReMax: 1, ReWait: 2, MaxDur: 900, StartIn: -1, DisableIn: 400}
				c, err := m.CreateCompetition(p.setting(id), pc.NewDefaultCompetitionEngineOptions())
				if err != nil {
					t.Fatal(err)
				}
				return c
			}
			c := mk("c1")
			if second {
				mk("c2")
			}
			if err := m.PlayerBuyIn("c1", pc.JoinPlayer{PlayerID: "p", RedeemChips: 100, Unit: 1}); err != nil {
				t.Fatal(err)
			}
			for i := 0; i < 50; i++ {
				if c.State.Players[0].CurrentSeat >= 0 {
					return true
				}
				time.Sleep(10 * time.Millisecond)
			}
			return false
		}
		if !try(false) {
			t.Fatal("a buy-in on the native backend gets no seat")
		}
		if !try(true) {
			return "after a second competition is created on the same native backend the first one gets no table events: a player who buys in never gets his seat"
		}
		return ""
	}
}

func init() {
	// C28: chips added while a hand is played are overwritten by the table
	// module when the hand is settled.
	knownScenarios["addon-in-hand"] = func(t *testing.T) string {
		p := &Plan{Prop: "C28", Mode: "ct", When: "run", InHand: true, HorizonS: 4 * 3600, Sched: []int{7}}
		p.Cfg = Cfg{Levels: []LevelSpec{{Level: 1, SB: 5, BB: 10, Dur: 60, Addon: true}, {Level: 2, SB: 500, BB: 1000, Dur: 100000}}, InitialLevel: 1, FinalIdx: 0, Rule: "default", MinPlayers: 2, MaxSeat: 9, TableMin: 2, RegMin: 2, ReWait: 5, AddonMax: 1, MaxDur: 100000, StartIn: -1, DisableIn: 100000, ContinueMs: 1000, ActionTimeS: 10}
		for i := 0; i < 3; i++ {
			// slow players: a hand lasts long
			p.Ops = append(p.Ops, Op{Kind: "buyin", P: i, Chips: 1000, N: 1})
		}
		p.Ops = append(p.Ops, Op{DtMs: 6000, Kind: "addon", P: 0, Chips: 300})
		r := runC28(t, p)
		if r.Viol == nil {
			return ""
		}
		return r.Viol.Msg
	}
}
