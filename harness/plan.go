package harness

// Plan is the generated input of one simulated competition: configuration,
// hand outcomes, operations and injected backend faults. Everything the
// simulation does is a pure function of the plan.
type Plan struct {
	InHand bool // C28: add-ons and top-ups also during a hand
	Prop   string
	Mode   string // ct | mtt | cash | blind | ...
	Cfg    Cfg
	Hands  []HandSpec
	Joins  []int // join delays in ms after a seat is reserved, cycled
	Ops    []Op
	Faults []Fault
	// HorizonS is the number of virtual seconds simulated (the run stops
	// earlier once the competition has ended and TailS seconds passed).
	HorizonS int
	TailS    int
	// several competitions (C22): their plans and the manager operations
	Subs []*Plan `json:",omitempty"`
	MOps []MOp   `json:",omitempty"`
	// concurrent operations (C23)
	When  string `json:",omitempty"` // the moment at which they are issued
	Conc  []Op   `json:",omitempty"`
	Sched []int  `json:",omitempty"` // the schedule: mode, point, seed
	// actor package (C25-C27)
	Actor *ActorPlan `json:",omitempty"`
	// creation of a competition (C30)
	Create *Creation `json:",omitempty"`
	// a recorded state (C31)
	Query *Query `json:",omitempty"`
}

// MOp is a manager-level event at AtMs after the start.
type MOp struct {
	AtMs int
	Kind string
	I, J int
	Op   Op
}

type LevelSpec struct {
	Level        int
	SB, BB, Ante int64
	Dur          int
	Addon        bool
}

type Cfg struct {
	Levels       []LevelSpec
	InitialLevel int
	FinalIdx     int
	DealerTime   int
	Rule         string
	MinPlayers   int
	MaxSeat      int
	TableMin     int
	RegMin       int
	ReMax        int
	ReWait       int
	AddonMax     int
	BreakOnly    bool
	AdvRule      string
	AdvPlayers   int
	AdvLevel     int
	MaxDur       int
	StartIn      int // seconds after creation, -1 unset
	DisableIn    int
	ContinueMs   int
	T0Ms         int
	PauseSticky  bool // backend keeps a paused table paused
	ActionTimeS  int  `json:",omitempty"` // 0: 10 s
}

// HandSpec gives one hand's outcome: Bets are percentages of each
// participant's stack (cycled), Winners picks the winning participants.
type HandSpec struct {
	DurMs   int
	OpenMs  int
	Bets    []int
	Winners []int
	SitOut  bool // newly seated players sit this hand out
	Seed    uint64
}

type Op struct {
	DtMs  int // after the previous op
	Kind  string
	P     int
	Chips int64
	Unit  int
	N     int
}

type Fault struct {
	Method string
	Nth    int // 1-based count of calls of Method
	Len    int `json:",omitempty"` // so many more calls fail as well
}

// ActorPlan is a history of one player-side runner.
type ActorPlan struct {
	Threshold  int
	ActionTime int // seconds
	Mute       bool
	Human      bool
	Direct     bool `json:",omitempty"` // states go to the actor without the bundled adapter
	Steps      []AStep
	Game       *BotGame `json:",omitempty"`
}

// BotGame is a run of real hands on the real game engine, played by bots.
type BotGame struct {
	Bots         int       // bots at the table
	Hands        [][]int64 // per hand the stacks of the bots, 0: not in the hand
	SB, BB, Ante int64
	Dealer       int64
	Seed         int
	Dup, Old     int // per cent of repeated and of old states
}

// AStep is one input of the runner, DtMs after the previous one.
type AStep struct {
	K      string // state | dup | old | manual | auto | resume | wait
	DtMs   int
	Tbl    *ATable `json:",omitempty"`
	Act    string  `json:",omitempty"` // manual action
	Chips  int64   `json:",omitempty"`
	On     bool    `json:",omitempty"`
	Err    bool    `json:",omitempty"` // the table refuses the actions of this step
	Follow *ATable `json:",omitempty"` // state the table reports from within the next accepted action
	Mess   bool    `json:",omitempty"` // the listener scribbles over the state it gets
}

// ATable describes a table state; everything not listed derives from Seed.
type ATable struct {
	Status  string
	Kind    string // act | ready | pass | ante | blinds | none | nogame
	Event   string // current event when Kind is none
	NP, NG  int    // seated players, players in the hand
	Me      int    // index at the table, -1: not there
	Pos     int    // index in the hand, -1: not in it
	Out     bool   `json:",omitempty"` // not let in yet
	Seed    int
	Stack   int64
	Wager   int64
	CurW    int64
	Prev    int64
	Fold    int // bits of the folded players
	SB, BB  int64
	Ante    int64
	Dealer  int64
	NewGame bool `json:",omitempty"`
}

func (c Cfg) actionTime() int {
	if c.ActionTimeS > 0 {
		return c.ActionTimeS
	}
	return 10
}

// advConfigured is the advancing number of the settings: the one that counts is asked for when
// buy-in stops (AdvPlayers), so the settings hold a different one.
func (c Cfg) advConfigured() int {
	if c.AdvPlayers > 4 {
		return c.AdvPlayers - 4
	}
	return c.AdvPlayers + 4
}
