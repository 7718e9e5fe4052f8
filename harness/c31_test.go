package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"

	pc "github.com/weedbox/pokercompetition"
	pokerblind "github.com/weedbox/pokercompetition/blind"
	"github.com/weedbox/pokertable"
	"pgregory.net/rapid"
)

// ---- C31: what a competition says about itself --------------------------------

// Query is a recorded state to ask questions about; what is not listed derives
// from Seed.
type Query struct {
	Seed   uint64
	Status []string // of the players
	Chips  []int64
	Tables []string // ids, possibly repeated
	Levels []LevelSpec
	Cur    int // current level index
	Final  int
	Dealer int
	Mode   string
	Ask    []string // table ids
	AskP   []int    // players
}

func genC31(rt *rapid.T) *Plan {
	q := &Query{Seed: rapid.Uint64().Draw(rt, "seed"), Mode: rapid.SampledFrom([]string{"ct", "mtt", "cash"}).Draw(rt, "mode")}
	sts := []string{string(stPlaying), string(stWaiting), "re_buy_waiting", string(stKnock), "cash_leaving"}
	for i := ri(rt, 0, 9, "np"); i > 0; i-- {
		q.Status = append(q.Status, rapid.SampledFrom(sts).Draw(rt, "st"))
		q.Chips = append(q.Chips, rapid.SampledFrom([]int64{0, 0, 1, 500, 7000}).Draw(rt, "chips"))
	}
	ids := []string{"a", "b", "c", "d", ""}
	q.Tables = rapid.SliceOfN(rapid.SampledFrom(ids[:4]), 0, 4).Draw(rt, "tables")
	q.Ask = rapid.SliceOfN(rapid.SampledFrom(ids), 1, 5).Draw(rt, "ask")
	q.AskP = rapid.SliceOfN(rapid.IntRange(0, 10), 1, 5).Draw(rt, "askP")
	for i := ri(rt, 1, 6, "levels"); i > 0; i-- {
		l := LevelSpec{Level: len(q.Levels) + 1, SB: int64(ri(rt, 0, 90, "sb")), BB: int64(ri(rt, 0, 180, "bb")), Ante: int64(ri(rt, 0, 50, "ante")), Dur: ri(rt, -1, 60, "dur"), Addon: rapid.Bool().Draw(rt, "addon")}
		if pct(rt, 30, "break") {
			l.Level = -1
		}
		q.Levels = append(q.Levels, l)
	}
	q.Cur = ri(rt, -1, len(q.Levels)-1, "cur")
	q.Final = ri(rt, -2, len(q.Levels), "final")
	q.Dealer = ri(rt, 0, 4, "dealer")
	return &Plan{Query: q}
}

// fill31 sets everything settable below v to arbitrary values; lists stay short.
func fill31(v reflect.Value, r *rng, depth int) {
	switch v.Kind() {
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(int64(r.n(2000000)) - 3)
	case reflect.String:
		v.SetString(string("xyz\"<>é"[r.n(6)]) + fmt.Sprint(r.n(1000)))
	case reflect.Bool:
		v.SetBool(r.b())
	case reflect.Float64:
		v.SetFloat(float64(r.n(1000)) / 4)
	case reflect.Slice:
		n := 1 + r.n(2)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill31(s.Index(i), r, depth+1)
		}
		v.Set(s)
	case reflect.Pointer:
		if v.Type().Elem() == reflect.TypeOf(pokertable.Table{}) {
			v.Set(reflect.ValueOf(&pokertable.Table{ID: fmt.Sprint("t", r.n(100)), UpdateSerial: int64(r.n(50)), State: &pokertable.TableState{StartAt: int64(r.n(50)), GameCount: r.n(9), SeatMap: []int{-1, 0}}}))
			return
		}
		p := reflect.New(v.Type().Elem())
		fill31(p.Elem(), r, depth+1)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fill31(v.Field(i), r, depth+1)
			}
		}
	}
}

func runC31(t *testing.T, p *Plan) *Result {
	res := &Result{Classes: map[string]int{}}
	q := p.Query
	fail := func(f string, a ...any) {
		if res.Viol == nil {
			res.Viol = &Violation{Msg: fmt.Sprintf(f, a...)}
		}
	}
	r := rng(q.Seed | 1)
	c := &pc.Competition{}
	fill31(reflect.ValueOf(c).Elem(), &r, 0)
	// the JSON form reads back to the same competition
	js, err := c.GetJSON()
	if err != nil {
		fail("GetJSON: %v", err)
		return res
	}
	back := &pc.Competition{}
	if err := json.Unmarshal([]byte(js), back); err != nil {
		fail("the JSON form does not read back: %v", err)
		return res
	}
	if d := deepDiff(reflect.ValueOf(c).Elem(), reflect.ValueOf(back).Elem(), "competition"); d != "" {
		fail("the JSON form does not read back: %s differs", d)
		return res
	}
	// the players, tables and levels of the plan
	c.Meta.Mode = pc.CompetitionMode(q.Mode)
	c.State.Players = nil
	id := func(i int) string { return fmt.Sprintf("p%d", i) }
	for i := range q.Status {
		x := &pc.CompetitionPlayer{}
		fill31(reflect.ValueOf(x).Elem(), &r, 0)
		x.PlayerID, x.Status, x.Chips = id(i), pc.CompetitionPlayerStatus(q.Status[i]), q.Chips[i]
		c.State.Players = append(c.State.Players, x)
	}
	c.State.Tables = nil
	for _, t := range q.Tables {
		c.State.Tables = append(c.State.Tables, &pokertable.Table{ID: t, State: &pokertable.TableState{}})
	}
	c.Meta.Blind.Levels = nil
	opt := pokerblind.Meta{InitialLevel: 1, FinalBuyInLevelIndex: q.Final}
	for _, l := range q.Levels {
		c.Meta.Blind.Levels = append(c.Meta.Blind.Levels, pc.BlindLevel{Level: l.Level, SB: l.SB, BB: l.BB, Ante: l.Ante, Duration: l.Dur, AllowAddon: l.Addon})
		opt.Levels = append(opt.Levels, pokerblind.BlindLevel{Level: l.Level, Ante: l.Ante, Duration: l.Dur})
	}
	c.Meta.Blind.DealerBlindTime = q.Dealer
	c.Meta.Blind.FinalBuyInLevelIndex = q.Final
	c.State.BlindState.FinalBuyInLevelIndex, c.State.BlindState.CurrentLevelIndex = q.Final, q.Cur
	before, _ := c.GetJSON()
	chips, by, idx := 0, map[pc.CompetitionPlayerStatus]int{}, map[string]int{}
	for i, x := range c.State.Players {
		if x.Chips > 0 {
			chips++
		}
		by[x.Status]++
		idx[x.PlayerID] = i
	}
	if n := c.PlayingPlayerCount(); n != chips {
		fail("PlayingPlayerCount is %d, %d players have chips", n, chips)
	}
	for _, s := range []pc.CompetitionPlayerStatus{stPlaying, stWaiting, "re_buy_waiting", stKnock, "cash_leaving", "?"} {
		if n := c.GetPlayerCountByStatus(s); n != by[s] {
			fail("%d players are %s, GetPlayerCountByStatus says %d", by[s], s, n)
		}
	}
	if m := c.GetPlayerIndexMap(); !reflect.DeepEqual(m, idx) {
		fail("GetPlayerIndexMap is %v, expected %v", m, idx)
	}
	for _, i := range q.AskP {
		want := -1
		if i < len(q.Status) {
			want = i
		}
		if n := c.FindPlayerIdx(func(x *pc.CompetitionPlayer) bool { return x.PlayerID == id(i) }); n != want {
			fail("FindPlayerIdx(%s) is %d, expected %d", id(i), n, want)
		}
		// the first of several
		want = -1
		for k, x := range c.State.Players {
			if want < 0 && x.Chips == 0 && k >= i/2 {
				want = k
			}
		}
		if n := c.FindPlayerIdx(func(x *pc.CompetitionPlayer) bool { return x.Chips == 0 && idx[x.PlayerID] >= i/2 }); n != want {
			fail("FindPlayerIdx for the first of several is %d, expected %d", n, want)
		}
	}
	for _, t := range q.Ask {
		want := -1
		for k := len(q.Tables) - 1; k >= 0; k-- {
			if q.Tables[k] == t {
				want = k
			}
		}
		if n := c.FindTableIdx(func(x *pokertable.Table) bool { return x.ID == t }); n != want {
			fail("FindTableIdx(%q) among %v is %d, expected %d", t, q.Tables, n, want)
		}
		if e := c.IsTableExist(t); e != (want >= 0) {
			fail("IsTableExist(%q) among %v is %v", t, q.Tables, e)
		}
	}
	if b := c.IsModeCTorMTT(); b != (q.Mode != "cash") {
		fail("IsModeCTorMTT is %v in mode %s", b, q.Mode)
	}
	var lv pc.BlindLevel
	if q.Cur >= 0 {
		lv = c.Meta.Blind.Levels[q.Cur]
	}
	if l := c.CurrentBlindLevel(); l != lv {
		fail("CurrentBlindLevel at index %d is %+v, expected %+v", q.Cur, l, lv)
	}
	dealer := int64(0)
	if q.Dealer > 0 {
		dealer = lv.Ante * int64(q.Dealer-1)
	}
	if a, b, d, e, f := c.CurrentBlindData(); a != lv.Level || b != lv.Ante || d != dealer || e != lv.SB || f != lv.BB {
		fail("CurrentBlindData is (%d %d %d %d %d) at %+v, dealer multiplier %d", a, b, d, e, f, lv, q.Dealer)
	}
	if b := c.IsBreaking(); b != (lv.Level == -1) {
		fail("IsBreaking is %v at %+v", b, lv)
	}
	if s := c.State.BlindState.IsStopBuyIn(); s != (q.Final != -2 && (q.Final == -1 || q.Cur > q.Final)) {
		fail("IsStopBuyIn is %v at index %d, final buy-in index %d", s, q.Cur, q.Final)
	}
	if after, _ := c.GetJSON(); after != before {
		fail("asking questions changed the competition: %s", firstDiff(before, after))
	}
	// the blind package's own state
	bs := &pokerblind.BlindState{Meta: opt, StartedAt: -1, Status: pokerblind.Status{FinalBuyInLevelIndex: q.Final, CurrentLevelIndex: q.Cur}}
	if bs.IsActive() {
		fail("a blind state that was never started is active")
	}
	bs.StartedAt = int64(q.Seed % 1000)
	if !bs.IsActive() {
		fail("a blind state started at %d is not active", bs.StartedAt)
	}
	if q.Cur >= 0 {
		if l := bs.CurrentLevel(); l != opt.Levels[q.Cur] {
			fail("the blind state's current level at index %d is %+v", q.Cur, l)
		}
		if bs.IsBreaking() != (lv.Level == -1) {
			fail("the blind state's IsBreaking is wrong at %+v", lv)
		}
	}
	// a player's view has no tables, everything else stays
	x := &pc.Competition{}
	_ = json.Unmarshal([]byte(before), x)
	x.AsPlayer()
	if len(x.State.Tables) != 0 {
		fail("a player's view still has %d tables", len(x.State.Tables))
	}
	c.State.Tables, x.State.Tables = nil, nil
	if a, b := string(mustJSON(c)), string(mustJSON(x)); a != b {
		fail("a player's view differs in more than the tables: %s", firstDiff(a, b))
	}
	if q.Cur >= 0 && lv.Level == -1 {
		res.Classes["during a break"]++
	}
	if q.Cur < 0 {
		res.Classes["before the blinds start"]++
	}
	res.Classes[fmt.Sprintf("buy-in stopped: %v", c.State.BlindState.IsStopBuyIn())]++
	res.NonTriv = len(q.Status) > 0 && len(q.Tables) > 0
	if res.Viol != nil {
		res.Trace = res.Viol.Msg
	}
	res.Sample = fmt.Sprintf("%s players %s chips %v tables %v ask %v levels %d at %d final %d", q.Mode, strings.Join(q.Status, ","), q.Chips, q.Tables, q.Ask, len(q.Levels), q.Cur, q.Final)
	return res
}

func init() {
	register(&Prop{ID: "C31", Rule: "the competition has players and tables", Gen: genC31, Run: runC31})
}
