package harness

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
	"pgregory.net/rapid"
)

// C27: bots, on made-up states of every kind and in real hands on the real
// game engine.

func init() {
	register(&Prop{ID: "C27", Rule: "a bot had to move at least twice", Gen: genC27, Run: runC27})
}

func genC27(rt *rapid.T) *Plan {
	a := &ActorPlan{Direct: pct(rt, 50, "direct"), Human: pct(rt, 40, "human"), ActionTime: rapid.SampledFrom([]int{0, 1, 2, 5, 10}).Draw(rt, "at")}
	if pct(rt, 30, "game") {
		g := &BotGame{Bots: ri(rt, 2, 6, "bots"), Seed: ri(rt, 0, 99999, "seed"), SB: 10, BB: 20}
		switch ri(rt, 0, 5, "blinds") {
		case 0:
			g.SB, g.BB, g.Dealer, g.Ante = 0, 0, 30, 5
		case 1:
			g.Dealer, g.Ante = 30, 5
		case 2:
			g.SB, g.BB = 0, 50
		case 3:
			g.SB, g.BB, g.Ante = 25, 50, 7
		}
		g.Dup = rapid.SampledFrom([]int{0, 30, 80}).Draw(rt, "dup")
		g.Old = rapid.SampledFrom([]int{0, 30}).Draw(rt, "old")
		for i, n := 0, ri(rt, 1, 3, "hands"); i < n; i++ {
			h := []int64{}
			in := 0
			for j := 0; j < g.Bots; j++ {
				x := int64(rapid.SampledFrom([]int{1, 5, 9, 10, 19, 20, 21, 39, 40, 50, 60, 100, 300, 1000, 5000}).Draw(rt, "stack"))
				if pct(rt, 15, "sitOut") {
					x = 0
				}
				if x > 0 {
					in++
				}
				h = append(h, x)
			}
			for j := 0; in < 2; j++ {
				if h[j] == 0 {
					h[j] = 100
					in++
				}
			}
			g.Hands = append(g.Hands, h)
		}
		a.Game = g
		return &Plan{Mode: "actor", Actor: a}
	}
	n := ri(rt, 1, 12, "steps")
	for i := 0; i < n; i++ {
		s := AStep{K: "state", DtMs: rapid.SampledFrom([]int{0, 0, 1, 500, 1000, 2000, 3500}).Draw(rt, "dt"), Err: pct(rt, 12, "err")}
		if i > 0 {
			s.K = rapid.SampledFrom([]string{"state", "state", "state", "state", "dup", "old"}).Draw(rt, "k")
		}
		s.Tbl = genATable(rt, []string{"act", "act", "act", "act", "act", "act", "ready", "pass", "ante", "blinds", "none", "nogame"})
		if pct(rt, 8, "notPlaying") {
			s.Tbl.Status = rapid.SampledFrom(aStatuses).Draw(rt, "st")
		}
		if s.Tbl.Kind == "nogame" && s.Tbl.Status == "table_game_playing" {
			s.Tbl.Status = "table_game_standby"
		}
		if pct(rt, 8, "out") {
			s.Tbl.Out = true
		}
		a.Steps = append(a.Steps, s)
	}
	return &Plan{Mode: "actor", Actor: a}
}

// botMust is the move a bot makes at once, "" if it may choose.
func botMust(gs *pokerface.GameState, me *pokerface.PlayerState) string {
	switch {
	case hasStr(me.AllowedActions, "ready"):
		return "ready(0)"
	case hasStr(me.AllowedActions, "pass"):
		return "pass(0)"
	case hasStr(me.AllowedActions, "pay") && gs.Status.CurrentEvent == "AnteRequested":
		return fmt.Sprintf("pay(%d)", gs.Meta.Ante)
	case hasStr(me.AllowedActions, "pay") && gs.Status.CurrentEvent == "BlindsRequested":
		return fmt.Sprintf("pay(%d)", aBlind(gs, me))
	}
	return ""
}

// botMove judges a chosen move and returns the announcement it calls for.
func botMove(gs *pokerface.GameState, me *pokerface.PlayerState, kind string, chips int64) (ann, bad string) {
	if !hasStr(me.AllowedActions, kind) {
		return "", fmt.Sprintf("%s is not allowed, allowed are %v", kind, me.AllowedActions)
	}
	switch kind {
	case "bet":
		lo := min(gs.Status.MiniBet, me.InitialStackSize)
		if chips < lo || chips > me.InitialStackSize {
			return "", fmt.Sprintf("a bet of %d is outside %d..%d", chips, lo, me.InitialStackSize)
		}
	case "raise":
		lo := min(gs.Status.CurrentWager+gs.Status.PreviousRaiseSize, me.InitialStackSize)
		if chips < lo || chips > me.InitialStackSize {
			return "", fmt.Sprintf("a raise to %d is outside %d..%d", chips, lo, me.InitialStackSize)
		}
	case "call":
		chips = aCall(gs, me)
	case "allin":
		chips = me.StackSize
	case "check", "fold":
	default:
		return "", ""
	}
	return fmt.Sprintf("%s(%d)", kind, chips), ""
}

type botRun struct {
	id    string
	calls []aCall_
	anns  []string
	joins []string
	upd   func(*pokertable.Table) error
}

func newBot(id string, ap *ActorPlan, on func(b *botRun, kind string, chips int64) error, tr func(string, ...any)) *botRun {
	b := &botRun{id: id}
	r := actor.NewBotRunner(id)
	r.Humanized(ap.Human)
	r.OnTableGameWagerActionUpdated(func(tid, gid string, n int, round, act string, c int64) {
		tr("%s announces %s(%d)", id, act, c)
		b.anns = append(b.anns, fmt.Sprintf("%s %s %d %s %s(%d)", tid, gid, n, round, act, c))
	})
	r.OnTableAutoJoinActionRequested(func(cid, tid, pid string) { b.joins = append(b.joins, cid+" "+tid+" "+pid) })
	rec := &recAdapter{me: id}
	rec.on = func(kind string, chips int64) error {
		err := on(b, kind, chips)
		tr("%s: %s(%d) err=%v", id, kind, chips, err)
		b.calls = append(b.calls, aCall_{Kind: kind, Chips: chips, Err: err != nil})
		return err
	}
	b.upd = wire(r, rec, ap.Direct)
	return b
}

func runC27(t *testing.T, p *Plan) *Result {
	if p.Actor.Game != nil {
		return runC27Game(t, p)
	}
	res := &Result{Classes: map[string]int{}}
	ap := p.Actor
	trace := []string{}
	moves := 0
	synctest.Test(t, func(t *testing.T) {
		start := time.Now()
		tr := func(f string, a ...any) {
			trace = append(trace, fmt.Sprintf("%6dms ", time.Since(start).Milliseconds())+fmt.Sprintf(f, a...))
		}
		fail := func(f string, a ...any) {
			if res.Viol == nil {
				res.Viol = &Violation{Msg: fmt.Sprintf(f, a...)}
				tr("FAIL: "+f, a...)
			}
		}
		refuse := false
		b := newBot(aMe, ap, func(b *botRun, kind string, chips int64) error {
			if refuse {
				return errors.New("refused")
			}
			return nil
		}, tr)
		take := func() botRun {
			synctest.Wait()
			x := *b
			b.calls, b.anns, b.joins = nil, nil, nil
			return x
		}
		var pend *pokertable.Table // a decision the bot still thinks about
		var due time.Time
		judge := func(what string, tb *pokertable.Table, x botRun) {
			me := aMine(tb, aMe)
			gs := tb.State.GameState
			if len(x.calls) != 1 {
				fail("%s: the bot made %d moves for one state: %v", what, len(x.calls), x.calls)
				return
			}
			moves++
			c := x.calls[0]
			res.Classes[c.Kind]++
			ann, bad := botMove(gs, me, c.Kind, c.Chips)
			if bad != "" {
				fail("%s: %s", what, bad)
			}
			want := ""
			if ann != "" && !c.Err {
				want = fmt.Sprintf("%s %s %d %s %s", tb.ID, gs.GameID, tb.State.GameCount, gs.Status.Round, ann)
			}
			if got := strings.Join(x.anns, " + "); got != want {
				fail("%s: move %v was announced as [%s], expected [%s]", what, c, got, want)
			}
		}
		quiet := func(what string, x botRun) {
			if len(x.calls)+len(x.anns)+len(x.joins) > 0 {
				fail("%s: the bot did %v, announced %v, asked to join %v", what, x.calls, x.anns, x.joins)
			}
		}
		at := time.Duration(ap.ActionTime) * time.Second
		advance := func(to time.Time) {
			for res.Viol == nil && time.Now().Before(to) {
				d := 250 * time.Millisecond
				if pend == nil || to.Sub(time.Now()) < d {
					d = to.Sub(time.Now())
				}
				time.Sleep(d)
				x := take()
				if pend != nil && len(x.calls) > 0 {
					judge("thinking", pend, x)
					res.Classes["moved after thinking"]++
					pend = nil
					continue
				}
				quiet("nothing to do", x)
				if pend != nil && !time.Now().Before(due) {
					fail("the bot did not move within the action time")
				}
			}
		}
		game, serial := 1, int64(1_000_000_000)
		lastAt := map[string]int64{}
		var lastGame string
		var lastTb *pokertable.Table
		for i, st := range ap.Steps {
			advance(time.Now().Add(time.Duration(st.DtMs) * time.Millisecond))
			if res.Viol != nil {
				break
			}
			what := fmt.Sprintf("step %d (%s)", i, st.K)
			var tb *pokertable.Table
			switch st.K {
			case "dup":
				tb = lastTb
			case "old":
				tb = st.Tbl.build(game, serial-500, ap.ActionTime)
			default:
				if st.Tbl.NewGame {
					game++
					if st.Tbl.Seed%4 == 0 { // the next hand's clock is behind the last one's
						serial -= 7000
						res.Classes["hand with an earlier clock"]++
					}
				}
				serial += 1000
				tb = st.Tbl.build(game, serial, ap.ActionTime)
			}
			if tb == nil {
				continue
			}
			model, _ := tb.Clone()
			me := aMine(model, aMe)
			gs := model.State.GameState
			fresh := gs != nil && (gs.GameID != lastGame || gs.UpdatedAt > lastAt[gs.GameID])
			seated, out := false, false
			for _, ps := range model.State.PlayerStates {
				if ps.PlayerID == aMe {
					seated, out = true, !ps.IsIn
				}
			}
			asks := seated && !out && fresh && string(model.State.Status) == "table_game_playing" && me != nil && len(me.AllowedActions) > 0
			thinks := asks && botMust(gs, me) == "" && ap.Human && ap.ActionTime > 1
			if pend != nil && !(st.K == "dup") && !thinks {
				// let the bot finish its move before the hand goes on
				refuse = false
				advance(due)
				if res.Viol != nil {
					break
				}
				pend = nil
			}
			refuse = st.Err
			tr("table -> %s in=%v", aDesc(tb), !out)
			lastTb, _ = tb.Clone()
			b.upd(tb)
			x := take()
			if seated && out {
				want := "c1 t1 " + aMe
				if len(x.calls)+len(x.anns) > 0 || len(x.joins) != 1 || x.joins[0] != want {
					fail("%s: not let in yet, the bot did %v, announced %v, asked to join %v", what, x.calls, x.anns, x.joins)
				}
				res.Classes["asks to join"]++
				// the state was seen without being used; it may be used later
				continue
			}
			if seated && gs != nil && fresh {
				lastGame = gs.GameID
				lastAt[gs.GameID] = gs.UpdatedAt
			}
			if !asks {
				res.Classes["nothing asked"]++
				quiet(what, x)
				continue
			}
			if must := botMust(gs, me); must != "" {
				got := ""
				for _, c := range x.calls {
					got += fmt.Sprintf("%s(%d)", c.Kind, c.Chips)
				}
				if got != must || len(x.anns)+len(x.joins) > 0 {
					fail("%s: the bot did [%s], announced %v, expected [%s]", what, got, x.anns, must)
				}
				moves++
				res.Classes[must[:strings.Index(must, "(")]]++
				continue
			}
			pend = nil
			if len(x.calls) == 0 && thinks {
				if len(x.anns)+len(x.joins) > 0 {
					fail("%s: the bot announced %v without a move", what, x.anns)
				}
				pend, due = model, time.Now().Add(at)
				continue
			}
			judge(what, model, x)
			res.Classes["moved at once"]++
		}
		if res.Viol == nil && pend != nil {
			advance(due)
		}
		if res.Viol == nil {
			advance(time.Now().Add(20 * time.Second))
		}
	})
	res.NonTriv = moves > 1
	if res.Viol != nil {
		res.Trace = strings.Join(trace, "\n")
	}
	res.Sample = fmt.Sprintf("%d made-up states, humanized %v: %v", len(ap.Steps), ap.Human, res.Classes)
	return res
}

func runC27Game(t *testing.T, p *Plan) *Result {
	res := &Result{Classes: map[string]int{}}
	ap, g := p.Actor, p.Actor.Game
	trace := []string{}
	moves := 0
	synctest.Test(t, func(t *testing.T) {
		tr := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...any) {
			if res.Viol == nil {
				res.Viol = &Violation{Msg: fmt.Sprintf(f, a...)}
				tr("FAIL: "+f, a...)
			}
		}
		rnd := rand.New(rand.NewSource(int64(g.Seed)))
		be := pokertable.NewNativeGameBackend()
		var cur, next *pokerface.GameState
		var tbl *pokertable.Table
		acted := map[string]int{}
		on := func(b *botRun, kind string, chips int64) error {
			me := aMine(tbl, b.id)
			if me == nil || len(me.AllowedActions) == 0 {
				fail("%s does %s(%d) although nothing is asked of it", b.id, kind, chips)
				return errors.New("not asked")
			}
			acted[b.id]++
			moves++
			res.Classes[kind]++
			if acted[b.id] > 1 {
				fail("%s moves a second time for the same state: %s(%d)", b.id, kind, chips)
				return errors.New("again")
			}
			if must := botMust(cur, me); must != "" {
				if got := fmt.Sprintf("%s(%d)", kind, chips); got != must {
					fail("%s does %s, expected %s", b.id, got, must)
				}
				if kind == "pass" {
					var err error
					if next, err = be.Pass(cur); err != nil {
						panic(err)
					}
				}
				return nil
			}
			if _, bad := botMove(cur, me, kind, chips); bad != "" {
				fail("%s: %s", b.id, bad)
				return errors.New("illegal")
			}
			var err error
			switch kind {
			case "bet":
				next, err = be.Bet(cur, chips)
			case "raise":
				next, err = be.Raise(cur, chips)
			case "call":
				next, err = be.Call(cur)
			case "check":
				next, err = be.Check(cur)
			case "fold":
				next, err = be.Fold(cur)
			case "allin":
				next, err = be.Allin(cur)
			}
			if err != nil {
				fail("the game engine refuses the move %s(%d) of %s: %v", kind, chips, b.id, err)
			} else {
				// what the move really cost
				paid := me.StackSize - next.Players[me.Idx].StackSize
				if kind == "call" && paid != aCall(cur, me) && next.Status.CurrentEvent == cur.Status.CurrentEvent {
					panic(fmt.Sprintf("reference: call costs %d, not %d", paid, aCall(cur, me)))
				}
			}
			return err
		}
		bots := []*botRun{}
		for i := 0; i < g.Bots; i++ {
			bots = append(bots, newBot(fmt.Sprintf("b%d", i), ap, on, tr))
		}
		ghost := newBot("ghost", ap, on, tr)
		serial := int64(1_000_000_000)
		var old *pokertable.Table
		for hi, stacks := range g.Hands {
			if res.Viol != nil {
				break
			}
			order := []int{}
			for k := range stacks {
				if i := (k + hi) % len(stacks); stacks[i] > 0 {
					order = append(order, i)
				}
			}
			opts := pokerface.NewStardardGameOptions()
			opts.Deck = pokerface.NewStandardDeckCards()
			rnd.Shuffle(len(opts.Deck), func(i, j int) { opts.Deck[i], opts.Deck[j] = opts.Deck[j], opts.Deck[i] })
			opts.Ante = g.Ante
			opts.Blind = pokerface.BlindSetting{Dealer: g.Dealer, SB: g.SB, BB: g.BB}
			pos := map[int][]string{0: {"dealer"}, 1: {"sb"}, 2: {"bb"}}
			if len(order) == 2 {
				pos = map[int][]string{0: {"dealer", "sb"}, 1: {"bb"}}
			}
			for i, k := range order {
				opts.Players = append(opts.Players, &pokerface.PlayerSetting{Bankroll: stacks[k], Positions: pos[i]})
			}
			gs, err := be.CreateGame(opts)
			if err != nil {
				panic(err)
			}
			tr("hand %d: stacks %v", hi, stacks)
			old = nil
			for n := 0; n < 400 && res.Viol == nil; n++ {
				ev := gs.Status.CurrentEvent
				for _, p := range gs.Players {
					switch {
					case ev == "ReadyRequested":
						p.AllowAction("ready")
					case ev == "AnteRequested":
						p.AllowAction("pay")
					case ev == "BlindsRequested" && aBlind(gs, p) > 0:
						p.AllowAction("pay")
					}
				}
				serial += 1000
				gs.UpdatedAt = serial
				cur, next = gs, nil
				tbl = &pokertable.Table{ID: "t1", Meta: pokertable.TableMeta{CompetitionID: "c1", ActionTime: ap.ActionTime}, State: &pokertable.TableState{Status: "table_game_playing", GameCount: hi + 1, GamePlayerIndexes: order, GameState: gs}}
				for i := range bots {
					tbl.State.PlayerStates = append(tbl.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: bots[i].id, Seat: i, IsIn: true, Bankroll: stacks[i]})
				}
				acted = map[string]int{}
				asked := []*botRun{}
				choose := false
				for _, b := range bots {
					if me := aMine(tbl, b.id); me != nil && len(me.AllowedActions) > 0 {
						asked = append(asked, b)
						choose = choose || botMust(gs, me) == "" || hasStr(me.AllowedActions, "pass")
					}
					b.anns = nil
				}
				tr("state %s, wager %d, raise %d, asked %d", ev, gs.Status.CurrentWager, gs.Status.PreviousRaiseSize, len(asked))
				send := []*botRun{ghost}
				for _, b := range bots {
					send = append(send, b)
				}
				rnd.Shuffle(len(send), func(i, j int) { send[i], send[j] = send[j], send[i] })
				give := func(b *botRun, x *pokertable.Table) {
					c, _ := x.Clone()
					b.upd(c)
				}
				for _, b := range send {
					give(b, tbl)
					synctest.Wait()
					for rnd.Intn(100) < g.Dup {
						give(b, tbl)
						res.Classes["repeated state"]++
					}
					if len(acted) == 0 && !choose && old != nil && rnd.Intn(100) < g.Old {
						give(b, old)
						res.Classes["old state"]++
					}
				}
				for s := 0; s < 4*ap.ActionTime && len(acted) < len(asked); s++ {
					time.Sleep(250 * time.Millisecond)
					synctest.Wait()
				}
				if res.Viol != nil {
					break
				}
				for _, b := range asked {
					if acted[b.id] != 1 {
						fail("%s was asked to move in event %s and moved %d times", b.id, ev, acted[b.id])
						break
					}
					me := aMine(tbl, b.id)
					want := ""
					if botMust(gs, me) == "" {
						c := b.calls[len(b.calls)-1]
						ann, _ := botMove(gs, me, c.Kind, c.Chips)
						want = fmt.Sprintf("t1 %s %d %s %s", gs.GameID, hi+1, gs.Status.Round, ann)
					}
					if got := strings.Join(b.anns, " + "); got != want {
						fail("%s: the move was announced as [%s], expected [%s]", b.id, got, want)
					}
				}
				if res.Viol != nil {
					break
				}
				old, _ = tbl.Clone()
				switch {
				case ev == "GameClosed":
					n = 1000
					res.Classes["hand finished"]++
					continue
				case ev == "ReadyRequested":
					gs, err = be.ReadyForAll(gs)
				case ev == "AnteRequested":
					gs, err = be.PayAnte(gs)
				case ev == "BlindsRequested":
					gs, err = be.PayBlinds(gs)
				case ev == "RoundClosed":
					gs, err = be.Next(gs)
				case next != nil:
					gs = next
				default:
					panic("hand is stuck in " + ev)
				}
				if err != nil {
					panic(err)
				}
				for _, p := range gs.Players {
					if ev == "ReadyRequested" || ev == "AnteRequested" || ev == "BlindsRequested" {
						l := []string{}
						for _, x := range p.AllowedActions {
							if x != "ready" && x != "pay" {
								l = append(l, x)
							}
						}
						p.AllowedActions = l
					}
				}
			}
		}
		for _, b := range append(bots, ghost) {
			if len(b.joins) > 0 {
				fail("%s asks to join although it is in", b.id)
			}
		}
		if len(ghost.calls) > 0 {
			fail("a bot that is not at the table moves: %v", ghost.calls)
		}
	})
	res.NonTriv = moves > 1
	if res.Viol != nil {
		res.Trace = strings.Join(trace, "\n")
	}
	res.Sample = fmt.Sprintf("%d bots play %d real hands, humanized %v: %v", g.Bots, len(g.Hands), ap.Human, res.Classes)
	return res
}
