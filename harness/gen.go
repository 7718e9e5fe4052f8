package harness

import "pgregory.net/rapid"

// Prof steers the plan generator towards the histories a property needs.
type Prof struct {
	Modes      []string
	OpW        map[string]int // operation weights after the initial entries
	NoWild     bool           // only the operations of OpW
	MaxOps     int
	Break      int // percent of plans with breaks
	Late       bool
	AdvPct     int
	FaultM     []string
	Sched      int // percent with a scheduled start
	ShortDur   int // percent of plans with a short maximum duration
	Final      []int
	MaxPlayers int
	ReMax      []int
	StartEarly bool
	ForceMin   bool
	CloseEnd   bool
	AddonPct   int  // percent of levels that allow add-ons (default 40)
	CashOpen   bool // cash games never stop the buy-in
}

func pct(rt *rapid.T, p int, name string) bool {
	if p <= 0 {
		return false
	}
	return rapid.IntRange(0, 99).Draw(rt, name) >= 100-p
}

func ri(rt *rapid.T, lo, hi int, name string) int { return rapid.IntRange(lo, hi).Draw(rt, name) }

func genPlan(rt *rapid.T, pf Prof) *Plan {
	p := &Plan{}
	p.Mode = rapid.SampledFrom(pf.Modes).Draw(rt, "mode")
	c := &p.Cfg
	// blinds
	n := ri(rt, 1, 6, "levels")
	step := rapid.SampledFrom([]int{1, 1, 3}).Draw(rt, "lvstep")
	addonPct := 40
	if pf.AddonPct > 0 {
		addonPct = pf.AddonPct
	}
	wantBreak := pct(rt, pf.Break, "wantBreak")
	init := 0
	if n > 1 && pct(rt, 30, "initLater") {
		init = ri(rt, 0, min(n-1, 2), "initIdx")
	}
	for i := 0; i < n; i++ {
		l := LevelSpec{Level: 1 + i*step, SB: int64(ri(rt, 1, 50, "sb")), Ante: int64(ri(rt, 0, 20, "ante")), Dur: ri(rt, 5, 30, "dur"), Addon: pct(rt, addonPct, "addonOK")}
		l.BB = l.SB * 2
		if wantBreak && i > init && pct(rt, 45, "isBreak") {
			l.Level = -1
			l.SB, l.BB, l.Ante = 0, 0, 0
			l.Dur = ri(rt, 3, 14, "breakDur")
		}
		if i == n-1 && l.Level != -1 {
			l.Dur = rapid.SampledFrom([]int{-1, 300, 600, 20}).Draw(rt, "lastDur")
		}
		c.Levels = append(c.Levels, l)
	}
	if c.Levels[n-1].Level == -1 { // a competition does not end on a break
		c.Levels = append(c.Levels, LevelSpec{Level: 1 + n*step, SB: 9, BB: 18, Ante: 1, Dur: 300, Addon: true})
		n++
	}
	c.InitialLevel = c.Levels[init].Level
	fin := pf.Final
	if fin == nil {
		fin = []int{-2, -1, 100, 100, 100, 100}
	}
	f := rapid.SampledFrom(fin).Draw(rt, "final")
	if f >= 100 {
		f = ri(rt, 0, n-1, "finalIdx")
	}
	c.FinalIdx = f
	c.DealerTime = rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(rt, "dealerTime")
	c.Rule = rapid.SampledFrom([]string{"default", "default", "short_deck", "omaha"}).Draw(rt, "rule")
	// sizes
	switch p.Mode {
	case "mtt":
		c.MaxSeat = rapid.SampledFrom([]int{2, 3, 4, 5, 6, 9}).Draw(rt, "maxSeat")
		c.RegMin = ri(rt, 2, c.MaxSeat, "regMin")
		c.MinPlayers = ri(rt, 2, 6, "minPlayers")
	default:
		c.MaxSeat = ri(rt, 2, 9, "maxSeat")
		c.RegMin = 2
		c.MinPlayers = ri(rt, 2, min(4, c.MaxSeat), "minPlayers")
	}
	c.TableMin = 2
	if p.Mode != "mtt" && pct(rt, 25, "tableMin3") && c.MaxSeat >= 3 {
		c.TableMin = 3
		if c.MinPlayers < 3 {
			c.MinPlayers = 3
		}
	}
	rm := pf.ReMax
	if rm == nil {
		rm = []int{0, 1, 2, 5}
	}
	c.ReMax = rapid.SampledFrom(rm).Draw(rt, "reMax")
	c.ReWait = ri(rt, 2, 12, "reWait")
	if p.Mode == "cash" {
		c.ReMax = 1000
		if c.FinalIdx != -2 && (pf.CashOpen || pct(rt, 70, "cashNoStop")) {
			c.FinalIdx = -2
		}
	}
	c.AddonMax = ri(rt, 0, 2, "addonMax")
	if pf.AddonPct > 0 && c.AddonMax == 0 {
		c.AddonMax = ri(rt, 0, 3, "addonMax2")
	}
	c.BreakOnly = pct(rt, 25, "breakOnly")
	c.MaxDur = 900
	if pct(rt, pf.ShortDur, "shortDur") {
		c.MaxDur = ri(rt, 15, 60, "maxDur")
	}
	c.StartIn = -1
	if p.Mode != "cash" && pct(rt, pf.Sched, "sched") {
		c.StartIn = ri(rt, 2, 25, "startIn")
	}
	c.DisableIn = rapid.SampledFrom([]int{30, 60, 400, 400}).Draw(rt, "disableIn")
	c.ContinueMs = rapid.SampledFrom([]int{1013, 2017, 3011}).Draw(rt, "contMs")
	c.T0Ms = rapid.SampledFrom([]int{0, 1, 333, 777, 999}).Draw(rt, "t0")
	c.PauseSticky = rapid.Bool().Draw(rt, "sticky")
	if p.Mode == "mtt" && pct(rt, pf.AdvPct, "adv") {
		c.AdvRule = rapid.SampledFrom([]string{"player_count", "blind_level"}).Draw(rt, "advRule")
		c.AdvPlayers = ri(rt, 1, 8, "advPlayers")
		c.AdvLevel = c.Levels[ri(rt, 0, n-1, "advLvl")].Level
		if c.AdvLevel < 0 {
			c.AdvLevel = c.Levels[n-1].Level
		}
	}
	// hands
	nh := ri(rt, 1, 8, "hands")
	for i := 0; i < nh; i++ {
		h := HandSpec{DurMs: 10*ri(rt, 60, 500, "handDur") + 3, OpenMs: 10*ri(rt, 30, 190, "openDur") + 1, SitOut: pct(rt, 30, "sitOut"), Seed: rapid.Uint64().Draw(rt, "hseed")}
		h.Bets = rapid.SliceOfN(rapid.SampledFrom([]int{0, 5, 20, 50, 100, 100, 100}), 1, 5).Draw(rt, "bets")
		h.Winners = rapid.SliceOfN(rapid.IntRange(0, 8), 1, 2).Draw(rt, "win")
		p.Hands = append(p.Hands, h)
	}
	p.Joins = rapid.SliceOfN(rapid.SampledFrom([]int{51, 303, 1507, 2909, 9001}), 1, 5).Draw(rt, "joins")
	// entries, then mixed operations
	chips := []int64{100, 500, 1000, 1000, 1000, 1500, 777}
	op := func(kind string, dlo, dhi int) Op {
		o := Op{DtMs: ri(rt, dlo, dhi, "dt"), Kind: kind, P: ri(rt, 0, 15, "p"), Chips: rapid.SampledFrom(chips).Draw(rt, "chips"), Unit: rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "unit")}
		return o
	}
	maxE := pf.MaxPlayers
	if maxE == 0 {
		maxE = 10
		if p.Mode == "mtt" {
			maxE = 14
		}
	}
	lo := 1
	if pf.ForceMin {
		lo = c.MinPlayers
	}
	if maxE < lo {
		maxE = lo
	}
	ne := ri(rt, lo, maxE, "entries")
	startAfter := -1
	if p.Mode == "mtt" && c.StartIn < 0 {
		startAfter = ri(rt, 0, ne, "startAfter")
	}
	for i := 0; i < ne; i++ {
		if i == startAfter {
			p.Ops = append(p.Ops, op("start", 1, 3000))
		}
		p.Ops = append(p.Ops, op("buyin", 1, 900))
	}
	if startAfter == ne {
		p.Ops = append(p.Ops, op("start", 1, 3000))
	}
	if len(pf.OpW) > 0 && !pf.NoWild && pct(rt, 15, "wild") { // every kind of operation, also those the property is not about
		// a settled hand reported again takes the competition's view of the
		// table back to that hand: only where the property speaks of it
		w := map[string]int{"dup": pf.OpW["dup"]}
		for _, k := range []string{"buyin", "again", "rebuy", "rebuyX", "topup", "addon", "addonX", "refund", "refundX", "quit", "quitX", "cashout", "cashoutX", "cashoutT", "start", "close", "initlevel", "unknown", "mutate", "resend", "zero"} {
			w[k] = 1
			if n, ok := pf.OpW[k]; ok {
				w[k] = n
			}
		}
		pf.OpW = w
	}
	kinds := []string{}
	for _, k := range []string{"buyin", "again", "rebuy", "rebuyX", "topup", "addon", "addonX", "refund", "refundX", "quit", "quitX", "cashout", "cashoutX", "cashoutT", "start", "close", "initlevel", "dup", "unknown", "mutate", "resend", "late", "zero"} {
		for i := 0; i < pf.OpW[k]; i++ {
			kinds = append(kinds, k)
		}
	}
	if len(kinds) > 0 && pf.MaxOps > 0 {
		m := ri(rt, 0, pf.MaxOps, "nops")
		for i := 0; i < m; i++ {
			k := rapid.SampledFrom(kinds).Draw(rt, "kind")
			o := op(k, 1, 9000)
			switch k {
			case "again":
				o.Kind, o.N = "buyin", 1
			case "rebuyX":
				o.Kind, o.N = "rebuy", 1
			case "addonX":
				o.Kind, o.N = "addon", ri(rt, 1, 3, "addonWhere")
			case "refundX":
				o.Kind, o.N = "refund", 1
			case "quitX":
				o.Kind, o.N = "quit", 1
			case "cashoutX":
				o.Kind, o.N = "cashout", 1
			case "cashoutT":
				o.Kind, o.N = "cashout", 2
			case "late": // only after the end
				o.Kind, o.N, o.Chips = "late", 1, int64(ri(rt, 0, 3, "lateStatus"))
			case "zero":
				o.Kind, o.N = "buyin", ri(rt, 0, 1, "zn")
				o.Chips = rapid.SampledFrom([]int64{0, -5}).Draw(rt, "zchips")
			case "initlevel":
				o.N = c.Levels[ri(rt, 0, n-1, "il")].Level
				if o.N < 0 {
					o.N = c.InitialLevel
				}
			case "close":
				o.N = ri(rt, 0, 2, "closeKind")
			case "topup":
				if p.Mode != "cash" {
					o.Kind, o.N = "rebuy", 1
				}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	if len(pf.FaultM) > 0 && pct(rt, 85, "faulty") {
		nf := ri(rt, 1, 4, "nf")
		for i := 0; i < nf; i++ {
			ft := Fault{Method: rapid.SampledFrom(pf.FaultM).Draw(rt, "fm"), Nth: rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 4, 6, 8}).Draw(rt, "nth")}
			if pct(rt, 20, "outage") {
				ft.Len = rapid.SampledFrom([]int{1, 2, 5, 1000}).Draw(rt, "outageLen")
			}
			p.Faults = append(p.Faults, ft)
		}
	}
	p.HorizonS = ri(rt, 40, 200, "horizon")
	p.TailS = 25
	if pf.CloseEnd && pct(rt, 50, "closeEnd") {
		t := 0
		for _, o := range p.Ops {
			t += o.DtMs
		}
		d := p.HorizonS*1000 - 8000 - t
		if d < 1000 {
			d = 1000
		}
		p.Ops = append(p.Ops, Op{DtMs: d, Kind: "close", N: ri(rt, 0, 2, "ck")})
	}
	return p
}
