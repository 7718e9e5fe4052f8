#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids, anchors and text stay in one place)."""
import json, os
CE="competition_engine.go"; CI="competition_engine_internal.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe,hook_needed=hook)))

p("C01","Blind schedule follows the configured level durations",
  "Once started, the blind system is at every instant on the level whose configured time window (counted from the configured initial level and the whole second of the start) contains that instant, publishes those window ends as the level end times, and reports each level change exactly once, in order, at its boundary; a level of unlimited duration (-1) never ends and a zero-length level is skipped over at once. Ending the blind system stops all further changes and reports, starting it a second time is refused and changes nothing. Starting without options or with an initial level that does not exist is refused with an error, never a crash.",
  ["inputs","histories"],"all level lists (durations -1, 0 and positive), initial levels, final buy-in indexes, start instants, query instants, and interleavings of start/end/update-initial-level calls",
  "The eight blind tests each run one fixed three-level list in real time (seconds per case); they never combine zero, unlimited and break levels, an initial level in the middle, End, or a bad initial level.",
  ["blind/blind.go","blind/state.go"],[("Start computes level end times and arms one timer per level","blind/blind.go:Start"),("updateLevel moves to the next level at the deadline","blind/blind.go:updateLevel"),("End flag","blind/blind.go:End")],
  ["Blind.GetState()","OnBlindStateUpdated events","return values of Start/UpdateInitialLevel"],
  [("CurrentLevelIndex","level in force","blind/state.go:Status"),("LevelEndAts","end time per level","blind/state.go:Status")])

p("C02","Every open table plays the blinds of the current level",
  "From the moment a competition's blind system runs, every open table of that competition (including tables created later) has been told exactly the level, ante, small blind, big blind and dealer blind (ante x (dealer blind multiplier - 1), 0 when no multiplier is set) of the level currently in force, and no hand is opened with other amounts. The competition's published blind state (current level index, level end times, final buy-in index) agrees with the schedule at every announcement.",
  ["inputs","histories","configurations"],"all modes, level lists, dealer multipliers, table creation times relative to level boundaries, and hand/player histories",
  "The two competition tests play one CT table with dealer multiplier 1 and never compare what the table was told with the schedule; multi-table competitions are not tested at all.",
  [CE,CI,"competition.go","regulator.go"],[("blind state callback updates all tables",CI+":initBlind"),("blind amounts for the current level","competition.go:CurrentBlindData"),("new MTT tables get the current blinds","regulator.go:regulatorCreateAndDistributePlayers")],
  ["TableManagerBackend.UpdateBlind / CreateTable calls","Competition.State.BlindState at BlindActivated/BlindUpdated"])

p("C03","Competition status only moves forward, at the specified instants",
  "A competition's status goes registering -> delayed buy-in or stopped buy-in -> end (or straight to an end status) and never backwards: buy-in stops exactly when the current level passes the final buy-in level (at once when no re-entry is configured, never when buy-in is unlimited), a registering competition is auto-ended at its disable time exactly when it has fewer than the minimum players, and a scheduled start takes effect at its start time. Starting a second time or after the end is refused; an end status is final: it is announced once, and no later level change, table update, start, buy-in, re-buy or add-on changes status, players, rankings or tables.",
  ["histories","configurations"],"all configurations of start/disable times, final buy-in level, player counts and all operation histories, including table updates and operations arriving after the end",
  "Tests only use competitions that start at once, stop buy-in at one fixed level and end normally; no test sends anything to an ended competition or uses scheduled starts or disable times.",
  [CE,CI],[("auto start / auto end timers",CE+":CreateCompetition"),("stop-buy-in transition",CI+":initBlind"),("end status guard",CI+":isEndStatus"),("settlement",CI+":settleCompetition")],
  ["Competition.State.Status at every OnCompetitionUpdated/OnCompetitionStateUpdated","StartCompetition results"])

p("C04","Buy-in admission: who may enter, and what entering records",
  "A new player's buy-in is accepted exactly when the chips are positive, the competition is registering or in delayed buy-in, and (countdown tournament) a table exists with a seat not taken by a playing or re-buy-waiting player; otherwise it is refused with an error and changes nothing. An accepted buy-in adds the player exactly once with the paid chips, units and default counters, adds the units to the total buy-in count (tournaments), announces it, and hands the player with exactly those chips to the table (CT/cash) or to the balancing queue (MTT).",
  ["inputs","histories","configurations"],"all histories of buy-ins, refunds, re-buys, hands and level changes, and all chip/unit amounts including zero and negative",
  "Tests only buy three players into an empty CT before it starts and never make a buy-in that must be refused.",
  [CE,CI],[("PlayerBuyIn validation and bookkeeping",CE+":PlayerBuyIn"),("default player record",CI+":newDefaultCompetitionPlayerData")],
  ["PlayerBuyIn result","Competition.State.Players / Statistic","TableManagerBackend.PlayerReserve"])

p("C05","Re-buy admission: only busted players within limit, window and phase",
  "In a tournament an existing player may buy in again exactly when buy-in is still open, the player has no chips, is waiting for a re-buy (not knocked out) and has re-bought fewer times than the limit; the re-buy then sets the chips to the paid amount, raises the re-buy count by one, adds chips and units to the totals and returns the player to the table or to the balancing queue. A refused re-buy changes nothing. In a cash game a buy-in of a seated player adds the paid chips to the chips he has.",
  ["histories","configurations"],"all histories of hands, busts, re-buys, re-buy windows expiring, quits and buy-in stops, all re-buy limits including 0",
  "Tests never re-buy: the bots bust and wait; the limit, the stop and the totals are never compared with anything.",
  [CE,CI],[("re-buy validation",CE+":PlayerBuyIn"),("re-buy waiting",CI+":handleReBuy")],
  ["PlayerBuyIn result","Competition.State.Players","TableManagerBackend.PlayerReserve / UpdateTablePlayers"])

p("C06","Add-on admission and accounting",
  "An add-on is accepted exactly when the chips are positive, the player takes part and still has chips, the competition is running, the current blind level allows add-ons, it is a break if add-ons are break-only, and the player has made fewer add-ons than the limit; it then raises the player's chips, redeemed chips and add-on count and the total add-on count (tournaments) by exactly the given amounts and gives the table the same chips. A refused add-on changes nothing.",
  ["histories","configurations","inputs"],"all level lists with any add-on permissions, break-only or not, limits, amounts and player states over a competition's life",
  "The tests configure add-on limit 0 and never call the operation.",
  [CE],[("PlayerAddon",CE+":PlayerAddon")],["PlayerAddon result","Competition.State","TableManagerBackend.PlayerRedeemChips"])

p("C07","Refund only before the blinds start, and it undoes the buy-in",
  "Until the competition ends, a refund is accepted exactly when the player takes part and the blind system has not started; it then removes exactly that player, takes all of the player's units out of the total buy-in count, frees the seat (countdown tournament, cash) and removes the player from the MTT waiting queue, so that a refunded player is never seated and the seat and the player id can be bought in again. A refused refund changes nothing.",
  ["histories"],"all interleavings of buy-ins, refunds, repeated buy-ins of the same player, starts and table joins in CT and MTT",
  "No test refunds anyone.",
  [CE,CI],[("PlayerRefund",CE+":PlayerRefund"),("waiting queue",CE+":waitingPlayers")],
  ["PlayerRefund result","Competition.State.Players/Statistic","TableManagerBackend.PlayersLeave / CreateTable / UpdateTablePlayers"])

p("C08","Chips are conserved across hands, moves, re-buys, add-ons and breaks",
  "At every settled hand and at the end, the chips recorded for all players of a tournament sum to all chips redeemed by buy-ins, re-buys and add-ons; right after a hand every player at that table is recorded with exactly the stack the table reports. Whenever a player is moved between tables or seated, the new table receives exactly the player's recorded chips, so that competition and tables never disagree outside a running hand.",
  ["histories","configurations"],"all histories of hands with arbitrary chip transfers, re-buys, add-ons, table balancing and breaks in all modes",
  "The tests never add the chips up; the multi-table path has no test.",
  [CE,CI,"regulator.go","rank.go"],[("settlement copies table stacks",CI+":updatePlayerCompetitionTableRecords"),("moves carry chips",CI+":handleMTTTableSettlementNextStep"),("regulator seating","regulator.go")],
  ["Competition.State.Players[].Chips at TableGameSettled/Settled","join chips in CreateTable/UpdateTablePlayers/PlayerReserve"])

p("C09","Each settled hand is counted exactly once in the player statistics",
  "However often and from whichever operation a table reports the same settled hand, it is applied once: every participant's hand count, fold/action/raise/call/check counters, chance/frequency counters and win counters grow by exactly that hand's figures, players who did not take part are untouched, and the best winning pot and best combination are the maximum over all hands won. No settlement, player operation or repeated report may block the competition.",
  ["histories","schedules","inputs"],"all sequences of hands with arbitrary per-player statistics, duplicate and late settled reports, and operations arriving while a settlement is being processed",
  "The tests only check that the competition ends; no counter is compared and duplicate reports come only from the table engine's own timing.",
  [CI],[("settled-hand record",CI+":settleCompetitionTable"),("statistics",CI+":updatePlayerCompetitionTableRecords")],
  ["Competition.State.Players statistics at TableGameSettled","liveness of calls"])

p("C10","Players are knocked out exactly when out of chips with no way back",
  "After each settled hand of a tournament, a zero-chip player of that table becomes knocked out when buy-in has stopped or the re-buy limit is used up, and waits for a re-buy otherwise; when buy-in stops, all players still waiting for a re-buy are knocked out. A player with chips is never knocked out or put on re-buy waiting by a hand, a knocked-out player never returns, each knockout is announced once, and knocked-out players leave their table seat (unless the table is paused for advancement). A cash game knocks nobody out while its buy-in stays open.",
  ["histories","configurations"],"all histories of hands, simultaneous busts, re-buys, window expiries and buy-in stops, all re-buy limits",
  "The tests print final rankings but check none of the transitions.",
  [CI,"rank.go"],[("table knockouts",CI+":handleTableKnockoutPlayers"),("buy-in stop knockouts",CI+":initBlind"),("selection","rank.go:GetSortedTableSettlementKnockoutPlayerRankings")],
  ["Competition.State.Players[].Status","OnCompetitionFinalPlayerRankUpdated","TableManagerBackend.PlayersLeave/UpdateTablePlayers"])

p("C11","Final rankings list every tournament player once, in the right order",
  "When a tournament whose blinds have started ends, the final ranking contains every participant exactly once: first the players with chips by chips (ties: earlier entry first), then the players without chips, later elimination before earlier and, within one hand, earlier entry before later; each player's competition rank equals his position. Every final-rank notice sent after buy-in has stopped states the rank the player finally gets.",
  ["histories","configurations"],"all histories, including several busts in one hand, ties, forced ends in any phase, and ends while players wait for a re-buy",
  "The tests print the ranking of three players and assert nothing about it.",
  [CI,"rank.go"],[("final ranking",CI+":updatePlayerFinalRankings"),("knockout ranking",CI+":handleTableKnockoutPlayers")],
  ["Competition.State.Rankings at Settled","OnCompetitionFinalPlayerRankUpdated","Players[].CompetitionRank"])

p("C12","Live ranks always order players by chips, then by staying power",
  "Whenever competition ranks are announced, the ranked players hold the ranks 1..N without gaps or repeats: players with chips by chips (ties: earlier entry first), then players waiting for a re-buy (later bust first), then knocked-out players (later elimination first). After each hand, the participants' table ranks are 1..n by stack (ties: earlier entry first) and non-participants at the table have table rank 0 (in cash games, while buy-in stays open).",
  ["histories"],"all histories of buy-ins, refunds, hands, re-buys, add-ons and knockouts",
  "Tests never read a rank.",
  [CI,"rank.go"],[("live ranks",CI+":refreshPlayerCompetitionRanks"),("table ranks","rank.go:GetParticipatedPlayerTableRankingData")],
  ["Players[].CompetitionRank at PlayerRankUpdated","Players[].Rank/TableRank at player events"])

p("C13","Published counters equal the player list",
  "Whenever the competition announces a state event (statistics, knockout, hand settled, tables, blinds, end), the published numbers of playing, waiting-for-table, re-buy-waiting and knocked-out players equal the numbers of players in those states in the same announcement. The total buy-in and add-on counts equal the units of all accepted buy-ins, re-buys and add-ons less refunds.",
  ["histories"],"all histories of player operations, hands, table balancing, window expiries and buy-in stops in all modes",
  "Tests never read the statistics.",
  [CE,CI],[("recount",CI+":refreshPlayerStatusStatistics"),("unit totals",CE+":PlayerBuyIn/PlayerAddon/PlayerRefund")],
  ["Competition.State.Statistic at CompetitionStatisticUpdated/KnockoutPlayers/TableGameSettled"])

p("C14","MTT: every live player is in exactly one place and tables never overflow",
  "In a multi-table tournament every player with chips is at all times at exactly one table or waiting for one, no table is ever asked to seat more players than its limit, and no busted, refunded or unknown player is ever seated. Players recorded as playing are recorded at the table and seat where they sit, players recorded as waiting sit nowhere, and a waiting player is seated once enough players are available; a paused table with enough players ready, outside breaks and advancement, is given its next hand with exactly those players.",
  ["histories","configurations"],"all player counts, table sizes, minimum initial players, bust patterns, re-buy and late-registration sequences",
  "There is no test of multi-table tournaments in the repository (the setting helper is unused).",
  [CE,CI,"regulator.go"],[("regulator callbacks","regulator.go"),("balancing after a hand",CI+":handleMTTTableSettlementNextStep"),("waiting queue",CE+":PlayerBuyIn")],
  ["TableManagerBackend.CreateTable/UpdateTablePlayers calls","Competition.State.Players[].Status/CurrentTableID/CurrentSeat"])

p("C15","MTT: empty tables close and the tournament ends with its last table",
  "A multi-table tournament opens its tables only once it is started and the minimum number of players has entered, closes every table that is left without players, and drops closed tables from its table list. With buy-in stopped, it ends normally within seconds of the hand that leaves a single player with chips at a single table, or when no table is left (at once if no table exists when buy-in stops); it does not end while two players with chips remain (unless advancement or a forced end applies).",
  ["histories","configurations"],"all player counts, bust sequences across tables, and positions of the buy-in stop relative to them",
  "No multi-table test exists.",
  [CE,CI,"regulator.go"],[("activation",CE+":shouldActivateRegulator"),("close rule",CI+":handleMTTTableSettlement"),("last table",CI+":closeCompetitionTable")],
  ["TableManagerBackend.CloseTable","Competition.State.Tables","status End"])

p("C16","Advancement pauses tables and ends the tournament by its rule",
  "With an advancement rule, and only after buy-in has stopped, a table is paused after a hand exactly when the rule is met (the current blind level has reached the configured level, or fewer players with chips remain than the advancing number asked for when buy-in stopped); tables short of the rule keep being balanced. The tournament ends within seconds of the pause that makes every open table paused, not before, and the advancement state counts each paused table once.",
  ["histories","configurations"],"both rules and none, all thresholds, table counts, hand orders across tables and break levels",
  "No test sets an advancement rule.",
  [CI],[("advancement set-up",CI+":initAdvancement"),("per-hand rule",CI+":handleMTTTableSettlement")],
  ["TableManagerBackend.PauseTable","AdvanceState","status End"])

p("C17","CT and cash games start, continue and end by their conditions",
  "A countdown tournament or cash game starts exactly when enough seated players with chips are present (and, for a countdown tournament, its configured start time, if any, has come or it was started by hand); while it may continue, a paused table with enough seated players is given its next hand with exactly those players, consecutively numbered. A countdown tournament ends shortly after a hand settled past its duration, after a hand that leaves fewer than the minimum players once buy-in stopped, or when buy-in stops with fewer than two stacks at the table; a cash game only by duration or force; neither ends earlier, and an idle table is closed at a countdown tournament's end time.",
  ["histories","configurations"],"all start times, minimum player counts, durations, join orders, bust patterns and buy-in stop positions",
  "Two fixed CT runs, no cash game, no scheduled start, no assertion on when or why they end.",
  [CE,CI],[("start conditions",CI+":canStartCT/canStartCash"),("pause handling",CI+":updatePauseCompetition"),("close rules",CI+":shouldCloseCTCompetition/shouldCloseCashCompetition"),("CT timer",CE+":StartCompetition")],
  ["StartTableGame/SetUpTableGame/CloseTable calls","status changes"])

p("C18","Breaks stop play and every table resumes exactly once afterwards",
  "While the current blind level is a break no table is asked to open a hand. When the break (or run of consecutive breaks) ends, every open table that finished its hand or was created during it and has enough players is asked effectively exactly once to resume, with the players able to play and the next hand number, within two seconds of the break's end - a table whose first hand fell into the break included (a table still playing a hand at that moment may be asked once or not at all); a competition that has ended is not resumed.",
  ["histories","configurations"],"all level lists with single, consecutive, leading and trailing breaks, all hand timings relative to break boundaries, tables created during breaks",
  "One CT test has isolated 10-second breaks between 2-second levels and asserts nothing about pausing or resuming.",
  [CI],[("break timer per table and level",CI+":handleBreaking"),("no reopen in a break",CI+":updatePauseCompetition")],
  ["SetUpTableGame/StartTableGame calls and their times"])

p("C19","Re-buy windows and quitting free the seat exactly when due",
  "A busted countdown-tournament player with re-buys left keeps the seat for the configured waiting time (plus at most a few seconds) and then leaves the table while staying entitled to re-buy; a player who re-buys in time keeps the seat and is never removed by the expired window, and each window removes the player at most once (a removal the backend refused may be tried again after the next hand). A busted countdown-tournament player may quit only while buy-in is open and only at an existing table; quitting frees the seat, and a failed seat release leaves the player unchanged. A multi-table player who waits for a re-buy keeps no seat and has no deadline.",
  ["histories","configurations","fault_sequences"],"all waiting times, re-buy instants relative to the window, repeated busts with overlapping windows, quits, buy-in stops and backend failures",
  "No test re-buys or quits; the window timer runs only as a side effect.",
  [CE,CI],[("seat-holding timer",CI+":handleReBuy"),("PlayerQuit",CE+":PlayerQuit")],
  ["TableManagerBackend.PlayersLeave calls and times","Players[].IsReBuying/ReBuyEndAt/CurrentSeat/Status"])

p("C20","Cash games pay each leaving player once, with exactly his chips",
  "In a cash game whose buy-in stays open, a cash-out request pays the player at once when no hand can be running (before the start or while the table is paused), otherwise when the current hand settles; a busted player who does not top up is paid out (zero) when the window closes. Each departure is paid exactly once, with the chips the table recorded for the player at that moment (his own buy-in if the table never had a seat for him), removes the player from table and competition, and no one else is paid or removed; in tournaments cash-out is refused without effect.",
  ["histories"],"all histories of buy-ins, top-ups, hands, busts, several simultaneous leavers, cash-outs before, between and during hands, and re-entry after leaving",
  "No cash-game test exists.",
  [CE,CI],[("PlayerCashOut",CE+":PlayerCashOut"),("handleCashOut",CI+":handleCashOut"),("at settlement",CI+":handleCashTableSettlement")],
  ["OnCompetitionPlayerCashOut","TableManagerBackend.PlayersLeave","Competition.State.Players"])

p("C21","Update serials strictly increase and published tables are snapshots",
  "Every competition update announcement carries a serial number one higher than the previous one and a non-decreasing time stamp, and refers to the same competition. The competition keeps its own copy of each reported table: changing the reported object afterwards does not change the competition (which keeps its own blind values on the copy), an update for an unknown table changes nothing, and the competition's JSON form reads back to an equal competition.",
  ["histories","inputs"],"all operation histories and all reported table contents",
  "Tests write the JSON to a log file and compare nothing.",
  [CE,"event.go","competition.go"],[("serial","event.go:emitEvent"),("copy on update",CE+":UpdateTable"),("JSON form","competition.go:GetJSON")],
  ["OnCompetitionUpdated","GetCompetition().State.Tables","GetJSON"])

p("C22","The manager routes each call to its competition and to no other",
  "Every manager operation on a competition has exactly the effect and result of the same operation on that competition's engine, leaves all other competitions unchanged, and fails with the not-found error when the id is unknown, released, closed or reset away. Reset force-ends every managed competition and forgets them all; table events of one competition never reach or block another, also when several share one table backend.",
  ["histories"],"all interleavings of operations on several competitions with similar player and table ids, including close, release, reset and re-creation",
  "Tests manage a single competition and check only one not-found case.",
  ["manager.go","native_table_manager_backend.go",CE],[("registry","manager.go"),("callback registration",CE+":WithTableManagerBackend")],
  ["Manager results","state of every competition after every call"])

p("C23","Concurrent player operations behave as if done one after another",
  "When player operations (buy-in, re-buy, add-on, refund) reach one competition concurrently, their results and the resulting players, totals and table seats are those of some one-after-the-other order: no player is entered twice, no limit is exceeded, no operation hits another player, none is lost and none hangs.",
  ["schedules","histories"],"all pairs and triples of concurrent operations on the same or different players, at every point where one operation can overtake another, in each mode and phase",
  "Tests call operations from one goroutine.",
  [CE],[("engine mutex",CE+":competitionEngine.mu")],["operation results","Competition.State after quiescence","backend calls"])

p("C24","Backend failures are reported and never corrupt the player records",
  "When the table backend fails to create a table, take a reservation, release a seat, update players, pause, close or update blinds, the failure is returned to the caller or announced on the error channel, the competition does not crash or hang, and the players, seats and totals keep agreeing with what the backend actually did for every operation that returned an error. Later operations still work.",
  ["fault_sequences","histories"],"every backend call failing at any one point (or several) of any history, in all modes",
  "Tests use the in-process backend, which never fails.",
  [CE,CI,"regulator.go"],[("error events","event.go:emitErrorEvent"),("error returns",CE)],["operation results","OnCompetitionErrorUpdated","Competition.State"])

p("C25","Players never see other players' hidden cards",
  "The table state a player-side runner hands out never shows, before the showdown, the hole cards, hand strength, deck or burned cards that belong to others, while the player's own cards and all public data are unchanged; the state handed out is a private copy, so that neither side can alter the other's. Observers who are not in the hand see no one's hidden cards; deck and burned cards are never shown to anyone, and other players' cards only once the hand is closed and only of players who did not fold. Every reported state is handed out exactly once while someone listens, whatever the table's status.",
  ["inputs","histories"],"all table states reachable in a hand (every round, folds, all-ins, showdown), any player or observer, with and without subscription",
  "Actor tests only use bots, which bypass the player-side runner completely.",
  ["actor/player_runner.go","actor/table_engine_adapter.go"],[("filtering","actor/player_runner.go:UpdateTableState")],["OnTableStateUpdated payloads"])

p("C26","An absent player is played safely: auto-pay, ready, check, else fold",
  "For each game state at which the player must act, the player-side runner takes at most one action for him: it passes or pays ante and blinds at once with exactly the required amounts, otherwise waits the action time and then readies, else checks, else folds, and never bets, calls, raises or goes all in. A manual action cancels the pending automatic one; when consecutive time-outs reach the configured threshold (one more at the latest) the player is switched to automatic mode (announced), which then acts at once, and resuming or folding manually switches back; stale or repeated states trigger nothing, a newer state that asks for a move replaces the pending one and restarts the action time, and each accepted wager action, manual or automatic, is announced once with the chips it really costs.",
  ["inputs","histories","schedules"],"all sequences of game states, manual actions, time-outs and mode switches, thresholds and action times, at every instant relative to the deadline",
  "The player-side runner has no test.",
  ["actor/player_runner.go"],[("requestMove/automate","actor/player_runner.go"),("idle counting","actor/player_runner.go:Idle")],["Adapter calls and their times","OnAutoModeUpdated","OnTableGameWagerActionUpdated"])

p("C27","Bots only make legal moves",
  "For every game state that asks it for a move a bot makes exactly one move (within the action time when humanized), and only one the state allows: it readies, passes and pays the exact ante or blind at once, and any bet or raise lies within the legal range for its stack and the state's minimum; when the table has not let it in yet, each table state makes it ask once to join instead. A bot that is not at the table or not in the hand, or sees an old state of the same hand again, does nothing, and each accepted move is announced once with the true amount.",
  ["inputs","histories"],"all game states (allowed-action sets, stacks, minimum bets and raises, positions), bot in or out of hand, repeated states, humanized or not",
  "Bots play a few real hands in two tests; illegal moves are silently refused by the table engine and would not fail the tests.",
  ["actor/bot_runner.go","actor/actions.go"],[("requestMove/requestAI","actor/bot_runner.go")],["Adapter calls","OnTableGameWagerActionUpdated","OnTableAutoJoinActionRequested"])

p("C28","A whole competition on the bundled backend runs to a correct end",
  "A competition created through the manager on the bundled native table backend, with players that keep acting, opens its hands without outside wiring of the tables' state callbacks, and reaches the normal end with all chips accounted for, every player ranked exactly once by his final chips and the survivors matching the tables' stacks. Every hand the tables settle is counted for its players, and every hand is opened with the blinds in force. The bundled backend forwards every request to the table manager unchanged, returns its results and errors, and hands on every table event once, as a private copy. (Hands and players the table and balancing modules themselves forget, and chips added during a hand, are excepted.)",
  ["histories","configurations","schedules"],"random small competitions (mode, players, stacks, blinds, break levels) played by bots on the real table and game engines",
  "The two end-to-end tests use one fixed CT set-up each, wire the table callbacks by hand and only wait for the end.",
  ["native_table_manager_backend.go","manager.go",CE,CI],[("native backend","native_table_manager_backend.go"),("engine",CI)],["manager API and competition events"])

p("C29","Following the announcements is enough to know the competition",
  "Whenever no operation, table report or timer is being handled, a listener that keeps only the latest competition announcement (update or state event), and for each player any later player announcement, knows the competition as it is: status, start/end times, blind level and end times, advancement state, statistics, final rankings, the tables by id, and every field of every player; only the announcement's own serial and time and the inside of the tables are excepted. Every participant has been announced on the player channel, and the latest such announcement carries the player's present status, chips, table, seat, re-buy count, add-on count and re-buy window. The end, each change of the blind level, of the tables and of the unit totals, the stop of buy-in, each knockout, each cash-game departure and each settled hand (once) is also announced by the state event of its kind, which shows the change (for a hand within a second or two).",
  ["histories","configurations"],"all modes and all histories of operations, accepted and refused, hands, level changes, breaks, windows, moves and ends, at every quiet moment",
  "The tests' listeners only print; no test compares what was announced with the competition.",
  [CE,CI,"event.go","regulator.go"],[("competition announcements","event.go:emitEvent"),("state announcements","event.go:emitCompetitionStateEvent"),("player announcements","event.go:emitPlayerEvent")],
  ["OnCompetitionUpdated / OnCompetitionStateUpdated / OnCompetitionPlayerUpdated","GetCompetition()"])

p("C30","Creation refuses invalid settings and records exactly the given one",
  "CreateCompetition (engine and manager) refuses, with the invalid-setting error, a start time in the past (unless unset), a disable time in the past and a table with more players than seats; then nothing is created, asked of the backend, announced or done later. If the backend refuses a table, creation returns that error and no competition (settings whose start or disable time is the current second are not specified). Otherwise the competition is registering with exactly the given id, meta data, start and disable time, opened now, no end, no players or rankings, no blind level and no level end times, advancement not started, empty statistics; a countdown tournament or cash game asks the backend for exactly the given tables, in order, with the given players, the competition's table settings, the given table options and no blinds, and holds them, a multi-table tournament asks for none; the creation is announced. The initial blind level can be changed while registering and not after; closing records the given end status, the end time (multi-table tournament), and releases every table once; closing again changes nothing.",
  ["inputs","configurations"],"all settings (modes, times around the present second, table lists, seat limits, level lists), creation through manager or engine, backend refusals, and level changes and closes afterwards",
  "The two competition tests create one valid setting each and never look at the created record.",
  [CE,CI,"competition_settings.go","manager.go"],[("validation and record",CE+":CreateCompetition"),("table settings","competition_settings.go:NewPokerTableSetting"),("table creation",CI+":addCompetitionTable"),("initial level",CE+":UpdateCompetitionBlindInitialLevel"),("end",CI+":settleCompetition")],
  ["CreateCompetition result","GetCompetition()","TableManagerBackend.CreateTable / ReleaseTable calls","competition announcements"])

p("C31","A competition's queries and JSON form tell exactly its recorded state",
  "For every recorded competition state: GetJSON reads back to an equal competition; PlayingPlayerCount and GetPlayerCountByStatus equal a recount of the players (with chips, in that status); FindPlayerIdx, FindTableIdx give the first match or the unset value, IsTableExist and GetPlayerIndexMap agree with them; CurrentBlindLevel, CurrentBlindData (dealer blind = ante x (multiplier - 1), 0 without multiplier) and IsBreaking describe the level at the current index and nothing before the blinds start; IsStopBuyIn is false when buy-in is unlimited, true when no re-entry is configured, else true exactly past the final buy-in index; the player's view hides the tables and nothing else. No query changes the competition.",
  ["inputs"],"all competition states: any players, tables, levels, indexes and field values",
  "The tests call three of these on one state each.",
  ["competition.go","blind/state.go"],[("getters","competition.go"),("blind state getters","blind/state.go")],
  ["return values of the Competition, BlindState and pokerblind.BlindState methods"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
