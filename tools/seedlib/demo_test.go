package pokercompetition

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	dRun(t, func(t *testing.T) {
		e, b := dNew(t, dSetting(CompetitionMode_CT, nil))
		dBuy(t, e, 1000, "a", "b")
		b.report("t1", "table_created")
		time.Sleep(time.Second)
		if b.count("StartTableGame", "t1") != 1 {
			t.Fatal("not started", b.calls)
		}
		b.settle("t1", map[string]int64{"a": 0, "b": 2000})
		t.Log(dPlayer(e, "a").Status, b.calls)
	})
}
