package harness

import "pgregory.net/rapid"

func init() {
	simProp("smoke", func(rt *rapid.T) *Plan {
		return genPlan(rt, Prof{Modes: []string{"ct", "mtt", "cash"}, MaxOps: 20, Break: 30, Sched: 20, ShortDur: 20, AdvPct: 30,
			OpW: map[string]int{"buyin": 3, "rebuy": 5, "addon": 2, "topup": 1, "cashout": 2, "quit": 1}})
	}, func() Oracle { return NopOracle{} }, "", func(w *World) bool { return true })
}
