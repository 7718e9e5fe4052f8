package harness

import (
	"fmt"
	"testing"
	"testing/synctest"
)

// Scenarios of the recorded findings (known_findings.json).

func init() {
	// C14: eight entries wait, three-seat tables with an initial minimum of
	// three: the balancing library asks for a table of more than three.
	knownScenarios["regulator-oversized-table"] = func(t *testing.T) string {
		p := &Plan{Prop: "C14", Mode: "mtt", HorizonS: 5, Hands: []HandSpec{{DurMs: 900, OpenMs: 300, Bets: []int{0}, Winners: []int{0}}}, Joins: []int{51}}
		p.Cfg = Cfg{Levels: []LevelSpec{{Level: 1, SB: 1, BB: 2, Dur: -1}}, InitialLevel: 1, FinalIdx: -2, Rule: "default", MinPlayers: 2, MaxSeat: 3, TableMin: 2, RegMin: 3, ReMax: 1, ReWait: 2, MaxDur: 900, StartIn: -1, DisableIn: 400, ContinueMs: 1013}
		for i := 0; i < 8; i++ {
			p.Ops = append(p.Ops, Op{DtMs: 10, Kind: "buyin", Chips: 1000, Unit: 1})
		}
		p.Ops = append(p.Ops, Op{DtMs: 10, Kind: "start"})
		var w *World
		synctest.Test(t, func(t *testing.T) {
			w = newWorld(p, NopOracle{})
			w.run()
		})
		for _, r := range w.recs {
			if r.Kind == "call" && r.Name == "CreateTable" && len(r.Join) > p.Cfg.MaxSeat {
				return fmt.Sprintf("a table is asked to seat %d players, its limit is %d", len(r.Join), p.Cfg.MaxSeat)
			}
		}
		return ""
	}
}
