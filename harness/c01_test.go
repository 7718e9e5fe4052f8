package harness

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	pokerblind "github.com/weedbox/pokercompetition/blind"
	"github.com/weedbox/pokerface"
	"pgregory.net/rapid"
)

// C01: the blind package against a reference schedule.

type c01rep struct {
	at  time.Time
	idx int
}

func init() {
	register(&Prop{ID: "C01", Rule: "the blind system was started and ran over at least one level boundary, a zero-length or unlimited level, or a refused/ended start", Gen: genC01, Run: runC01})
}

func genC01(rt *rapid.T) *Plan {
	p := &Plan{Mode: "blind"}
	n := ri(rt, 1, 8, "levels")
	for i := 0; i < n; i++ {
		d := rapid.SampledFrom([]int{1, 1, 2, 3, 5, 10, 60, 3600, 0, 0, -1}).Draw(rt, "dur")
		lv := i + 1
		if i > 0 && pct(rt, 20, "brk") {
			lv = -1
		}
		p.Cfg.Levels = append(p.Cfg.Levels, LevelSpec{Level: lv, SB: int64(10 * (i + 1)), BB: int64(20 * (i + 1)), Ante: int64(i), Dur: d})
	}
	pickLevel := func() int {
		for k := 0; k < 4; k++ {
			if l := p.Cfg.Levels[ri(rt, 0, n-1, "lv")].Level; l > 0 {
				return l
			}
		}
		return p.Cfg.Levels[0].Level
	}
	p.Cfg.InitialLevel = p.Cfg.Levels[0].Level
	if pct(rt, 50, "later") {
		p.Cfg.InitialLevel = pickLevel()
	}
	if pct(rt, 8, "unknownLevel") {
		p.Cfg.InitialLevel = rapid.SampledFrom([]int{0, 99, -7}).Draw(rt, "ulv")
	}
	p.Cfg.FinalIdx = ri(rt, -2, n-1, "final")
	p.Cfg.T0Ms = rapid.SampledFrom([]int{0, 1, 250, 500, 999}).Draw(rt, "t0")
	if pct(rt, 10, "noopt") {
		p.Ops = append(p.Ops, Op{Kind: "noopt", DtMs: 3})
	}
	m := ri(rt, 1, 6, "nops")
	for i := 0; i < m; i++ {
		k := rapid.SampledFrom([]string{"start", "start", "start", "end", "initlevel"}).Draw(rt, "kind")
		o := Op{Kind: k, DtMs: rapid.SampledFrom([]int{3, 313, 1107, 4211, 11503, 70009}).Draw(rt, "dt")}
		if k == "initlevel" {
			o.N = pickLevel()
			if pct(rt, 10, "ul") {
				o.N = 77
			}
		}
		p.Ops = append(p.Ops, o)
	}
	p.HorizonS = rapid.SampledFrom([]int{30, 100, 8000, 40000}).Draw(rt, "horizon")
	return p
}

func runC01(t *testing.T, p *Plan) *Result {
	res := &Result{Classes: map[string]int{}}
	fail := func(f string, a ...any) {
		if res.Viol == nil {
			res.Viol = &Violation{Msg: fmt.Sprintf(f, a...)}
		}
	}
	started, crossed := false, 0
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(time.Duration(p.Cfg.T0Ms) * time.Millisecond)
		b := pokerblind.NewBlind()
		var reps []c01rep
		errs := 0
		inStart := false
		startReps := []int{}
		last := func() int { return b.GetState().Status.CurrentLevelIndex }
		b.OnBlindStateUpdated(func(bs *pokerblind.BlindState) {
			if inStart {
				startReps = append(startReps, bs.Status.CurrentLevelIndex)
				return
			}
			reps = append(reps, c01rep{time.Now(), bs.Status.CurrentLevelIndex})
		})
		b.OnErrorUpdated(func(*pokerblind.BlindState, error) { errs++ })
		if len(p.Ops) > 0 && p.Ops[0].Kind == "noopt" {
			if _, err := b.Start(); err == nil {
				fail("starting without options succeeded")
			}
			if b.IsStarted() {
				fail("a blind system without options claims to be started")
			}
			res.Classes["noopt"]++
		}
		opt := &pokerblind.BlindOptions{ID: "b", InitialLevel: p.Cfg.InitialLevel, FinalBuyInLevelIndex: p.Cfg.FinalIdx}
		for _, l := range p.Cfg.Levels {
			opt.Levels = append(opt.Levels, pokerblind.BlindLevel{Level: l.Level, Ante: l.Ante, Blind: pokerface.BlindSetting{SB: l.SB, BB: l.BB}, Duration: l.Dur})
		}
		b.ApplyOptions(opt)
		init := p.Cfg.InitialLevel
		n := len(p.Cfg.Levels)
		var startSec int64
		i0 := -1
		var endAt time.Time
		ends := make([]int64, n)
		// index in force at ms
		idxAt := func(ms int64) int {
			if !endAt.IsZero() && ms > endAt.UnixMilli() {
				ms = endAt.UnixMilli()
			}
			i := i0
			for i < n-1 && ends[i] >= 0 && ms >= ends[i]*1000 {
				i++
			}
			return i
		}
		check := func(where string) {
			if !started {
				if b.IsStarted() {
					fail("%s: not started but IsStarted", where)
				}
				if last() != -1 {
					fail("%s: not started but on level index %d", where, last())
				}
				return
			}
			if !b.IsStarted() {
				fail("%s: started but IsStarted is false", where)
			}
			if w := idxAt(time.Now().UnixMilli()); last() != w {
				fail("%s at +%d ms: level index %d, schedule says %d (levels %v)", where, time.Now().UnixMilli()-startSec*1000, last(), w, p.Cfg.Levels)
			}
			st := b.GetState()
			for i := range ends {
				if i >= i0 && st.Status.LevelEndAts[i] != ends[i] {
					fail("%s: level %d end time %d, want %d", where, i, st.Status.LevelEndAts[i], ends[i])
				}
			}
			if st.Status.FinalBuyInLevelIndex != p.Cfg.FinalIdx || st.StartedAt != startSec {
				fail("%s: final index %d start %d", where, st.Status.FinalBuyInLevelIndex, st.StartedAt)
			}
		}
		sleepMid := func(d time.Duration) { // never look exactly at a boundary
			time.Sleep(d)
			if time.Now().Nanosecond() == 0 {
				time.Sleep(3 * time.Millisecond)
			}
			synctest.Wait()
		}
		for _, o := range p.Ops {
			heartbeat.Add(1)
			sleepMid(time.Duration(o.DtMs) * time.Millisecond)
			check("before " + o.Kind)
			switch o.Kind {
			case "start":
				want := -1
				for i, l := range p.Cfg.Levels {
					if l.Level == init {
						want = i
					}
				}
				inStart = true
				startReps = nil
				before := *b.GetState()
				bs, err := b.Start()
				inStart = false
				switch {
				case started:
					if err == nil {
						fail("a second start succeeded")
					}
					if len(startReps) > 0 || b.GetState().StartedAt != before.StartedAt {
						fail("a refused start changed the blind state")
					}
					res.Classes["restart"]++
				case want == -1:
					if err == nil {
						fail("starting with an unknown initial level succeeded")
					}
					if b.IsStarted() || last() != -1 {
						fail("a refused start left the blind system started")
					}
					res.Classes["unknown-level"]++
				default:
					if err != nil {
						fail("start refused: %v", err)
						break
					}
					started = true
					startSec = time.Now().Unix()
					i0 = want
					at := startSec
					for i := range ends {
						ends[i] = -1
					}
					for i := i0; i < n; i++ {
						if p.Cfg.Levels[i].Dur < 0 {
							break
						}
						at += int64(p.Cfg.Levels[i].Dur)
						ends[i] = at
					}
					endAt = time.Time{}
					if bs == nil || bs.Status.CurrentLevelIndex != idxAt(time.Now().UnixMilli()) {
						fail("start returned level index %v", bs)
					}
					if len(startReps) > 0 {
						if p.Cfg.Levels[i0].Dur != 0 {
							fail("level change reported at start: %v", startReps)
						}
						for i := 1; i < len(startReps); i++ {
							if startReps[i] < startReps[i-1] {
								fail("reports at start go backwards: %v", startReps)
							}
						}
						if startReps[len(startReps)-1] != last() {
							fail("last report at start %v, level %d", startReps, last())
						}
					}
				}
			case "end":
				b.End()
				if endAt.IsZero() && started {
					endAt = time.Now()
				}
				res.Classes["end"]++
			case "initlevel":
				if err := b.UpdateInitialLevel(o.N); err != nil {
					fail("UpdateInitialLevel: %v", err)
				}
				if !started {
					init = o.N
				}
			}
			synctest.Wait()
			check("after " + o.Kind)
			if res.Viol != nil {
				break
			}
		}
		end := time.Now().Add(time.Duration(p.HorizonS) * time.Second)
		stepD := time.Duration(p.HorizonS) * time.Second / 60
		for time.Now().Before(end) && res.Viol == nil {
			sleepMid(stepD + 17*time.Millisecond)
			check("later")
		}
		// the reports: exactly one per boundary, in order, at the boundary
		if started && res.Viol == nil {
			var want []c01rep
			stop := time.Now().UnixMilli()
			if !endAt.IsZero() {
				stop = endAt.UnixMilli()
			}
			cur := idxAt(startSec * 1000)
			for cur < n-1 && ends[cur] >= 0 {
				t := ends[cur]
				if t*1000 >= stop {
					break
				}
				cur = idxAt(t * 1000)
				want = append(want, c01rep{time.Unix(t, 0), cur})
			}
			crossed = len(want)
			if len(want) != len(reps) {
				fail("%d level changes reported, %d are due (levels %v, initial %d): got %v want %v", len(reps), len(want), p.Cfg.Levels, i0, reps, want)
			} else {
				for i := range want {
					if want[i].idx != reps[i].idx || reps[i].at.Sub(want[i].at) > 50*time.Millisecond || reps[i].at.Before(want[i].at) {
						fail("report %d: level %d at %v, due: level %d at %v", i, reps[i].idx, reps[i].at, want[i].idx, want[i].at)
					}
				}
			}
			if errs > 0 {
				fail("%d errors reported by the blind system", errs)
			}
		}
		time.Sleep(20 * 24 * time.Hour)
		synctest.Wait()
		if !endAt.IsZero() && started && last() != idxAt(time.Now().UnixMilli()) {
			fail("the level still changed after End")
		}
	})
	res.NonTriv = (started && (crossed > 0 || len(res.Classes) > 0)) || res.Classes["unknown-level"] > 0
	for _, l := range p.Cfg.Levels {
		if started && l.Dur <= 0 {
			res.NonTriv = true
			res.Classes["special-duration"]++
			break
		}
	}
	res.Classes["boundaries"] += crossed
	durs := []int{}
	for _, l := range p.Cfg.Levels {
		durs = append(durs, l.Dur)
	}
	res.Sample = fmt.Sprintf("durations=%v initial=%d ops=%d crossed=%d started=%v", durs, p.Cfg.InitialLevel, len(p.Ops), crossed, started)
	return res
}
