From f97546fc5ecde73ff425bcea4420456cda5f84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 01/39] fix: starting a blind system without options returns an
 error instead of crashing

---
 blind/blind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blind/blind.go b/blind/blind.go
index 9d3eb2c..1cd8fef 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -153,7 +153,7 @@ func (b *blind) End() {
 }
 
 func (b *blind) IsStarted() bool {
-	return b.bs.IsActive()
+	return b.bs != nil && b.bs.IsActive()
 }
 
 func (b *blind) updateLevel(endAt int64) {
-- 
2.43.0


From bb77aabf94c91e0c8fc0bf0ba49b47ad79065cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 02/39] fix: starting a blind system with an unknown initial
 level returns an error instead of crashing

---
 blind/blind.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/blind/blind.go b/blind/blind.go
index 1cd8fef..9db9ae6 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -13,6 +13,7 @@ var (
 	ErrBlindNoOptions      = errors.New("blind: options not available")
 	ErrBlindNoState        = errors.New("blind: state not available")
 	ErrBlindAlreadyStarted = errors.New("blind: already started")
+	ErrBlindLevelNotFound  = errors.New("blind: initial level not found")
 )
 
 type Blind interface {
@@ -113,15 +114,20 @@ func (b *blind) Start() (*BlindState, error) {
 		return nil, ErrBlindNoOptions
 	}
 
-	startAt := time.Now()
-	b.bs.StartedAt = startAt.Unix()
-	b.isEnd = false
-
+	initialLevelIndex := UnsetValue
 	for idx, bl := range b.bs.Meta.Levels {
 		if bl.Level == b.bs.Meta.InitialLevel {
-			b.bs.Status.CurrentLevelIndex = idx
+			initialLevelIndex = idx
 		}
 	}
+	if initialLevelIndex == UnsetValue {
+		return nil, ErrBlindLevelNotFound
+	}
+
+	startAt := time.Now()
+	b.bs.StartedAt = startAt.Unix()
+	b.bs.Status.CurrentLevelIndex = initialLevelIndex
+	b.isEnd = false
 
 	for i := (b.bs.Status.CurrentLevelIndex); i < len(b.bs.Meta.Levels); i++ {
 		if i == b.bs.Status.CurrentLevelIndex {
-- 
2.43.0


From 5381cfead3ebbe1614ec555e236334ad00e10382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 03/39] fix: blind levels after an unlimited level are never
 scheduled

---
 blind/blind.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blind/blind.go b/blind/blind.go
index 9db9ae6..3ac39a9 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -139,6 +139,9 @@ func (b *blind) Start() (*BlindState, error) {
 		if b.bs.Meta.Levels[i].Duration == -1 {
 			// unlimited duration
 			b.bs.Status.LevelEndAts[i] = int64(b.bs.Meta.Levels[i].Duration)
+
+			// levels after an unlimited level are never reached
+			break
 		} else if b.bs.Meta.Levels[i].Duration > 0 {
 			blindPassedSeconds := int64(b.bs.Meta.Levels[i].Duration)
 			b.bs.Status.LevelEndAts[i] += blindPassedSeconds
-- 
2.43.0


From 290bfb024971ecfd2f882100345312a726a46edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 04/39] fix: zero-length blind levels are skipped at once
 instead of shifting the schedule

---
 blind/blind.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/blind/blind.go b/blind/blind.go
index 3ac39a9..a655b95 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -148,8 +148,11 @@ func (b *blind) Start() (*BlindState, error) {
 
 			// update blind to all tables
 			go b.updateLevel(b.bs.Status.LevelEndAts[i])
-		} else if b.bs.Meta.Levels[i].Duration == 0 {
-			// emit event immediately
+		} else if b.bs.Meta.Levels[i].Duration == 0 && i == b.bs.Status.CurrentLevelIndex {
+			// current level is over at once: move on to the next one (if any) & emit event immediately
+			if i+1 < len(b.bs.Meta.Levels) {
+				b.bs.Status.CurrentLevelIndex++
+			}
 			b.emitState()
 		}
 	}
@@ -178,6 +181,11 @@ func (b *blind) updateLevel(endAt int64) {
 
 		if b.bs.Status.CurrentLevelIndex+1 < len(b.bs.Meta.Levels) {
 			b.bs.Status.CurrentLevelIndex++
+
+			// zero-length levels are over at once
+			for b.bs.Meta.Levels[b.bs.Status.CurrentLevelIndex].Duration == 0 && b.bs.Status.CurrentLevelIndex+1 < len(b.bs.Meta.Levels) {
+				b.bs.Status.CurrentLevelIndex++
+			}
 			b.emitState()
 		}
 	}); err != nil {
-- 
2.43.0


From f4515351957c12741ae47398e06d42a6fdbebf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 05/39] fix: a repeated settled report during a player
 operation no longer deadlocks the competition

---
 competition_engine_internal.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cf1d2f8..64265c5 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -223,13 +223,9 @@ settleCompetitionTable 桌次結算
 */
 func (ce *competitionEngine) settleCompetitionTable(table pokertable.Table, tableIdx int) {
 	gameSettledRecordID := fmt.Sprintf("%s.%d", table.ID, table.State.GameCount)
-	ce.mu.Lock()
-	if isGameSettled, ok := ce.gameSettledRecords.Load(gameSettledRecordID); ok && isGameSettled.(bool) {
-		ce.mu.Unlock()
+	if _, isGameSettled := ce.gameSettledRecords.LoadOrStore(gameSettledRecordID, true); isGameSettled {
 		return
 	}
-	ce.gameSettledRecords.Store(gameSettledRecordID, true)
-	ce.mu.Unlock()
 
 	// 更新玩家相關賽事數據
 	ce.updatePlayerCompetitionTableRecords(table)
-- 
2.43.0


From c21c1c7b7aaa5776546466a51909b56bf9521aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 06/39] fix: a scheduled or manually started CT/Cash
 competition opens its table once enough players are seated

---
 competition_engine.go          | 14 ++++++++++++--
 competition_engine_internal.go | 16 ++++++++++------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index a0bd264..d5ab573 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -271,9 +271,19 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 				return
 			}
 
-			if ce.competition.State.Status == CompetitionStateStatus_Registering {
-				ce.StartCompetition()
+			if ce.competition.State.Status != CompetitionStateStatus_Registering {
+				return
+			}
+
+			// CT/Cash start by themselves as soon as enough players are seated
+			if ce.competition.Meta.Mode == CompetitionMode_CT || ce.competition.Meta.Mode == CompetitionMode_Cash {
+				if len(ce.competition.State.Tables) > 0 {
+					ce.handleCompetitionTableCreated(*ce.competition.State.Tables[0], 0)
+				}
+				return
 			}
+
+			ce.StartCompetition()
 		}); err != nil {
 			return nil, err
 		}
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 64265c5..b0aa1aa 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -68,9 +68,11 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 		}
 
 		// auto start game if condition is reached
-		if _, err := ce.StartCompetition(); err != nil {
-			ce.emitErrorEvent("CT Auto StartCompetition", "", err)
-			return
+		if !ce.isStarted {
+			if _, err := ce.StartCompetition(); err != nil {
+				ce.emitErrorEvent("CT Auto StartCompetition", "", err)
+				return
+			}
 		}
 
 		// 啟動盲注系統
@@ -93,9 +95,11 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 		}
 
 		// auto start game if condition is reached
-		if _, err := ce.StartCompetition(); err != nil {
-			ce.emitErrorEvent("Cash Auto StartCompetition", "", err)
-			return
+		if !ce.isStarted {
+			if _, err := ce.StartCompetition(); err != nil {
+				ce.emitErrorEvent("Cash Auto StartCompetition", "", err)
+				return
+			}
 		}
 
 		// 啟動盲注系統
-- 
2.43.0


From fe071a8376c9e840cbd081b09f4487cb2b138328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 07/39] fix: a competition that has ended cannot be started

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index d5ab573..c80c015 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -341,7 +341,7 @@ StartCompetition 開賽
   - 適用時機: MTT 手動開賽、MTT 自動開賽、CT 開賽
 */
 func (ce *competitionEngine) StartCompetition() (int64, error) {
-	if ce.isStarted {
+	if ce.isStarted || ce.isEndStatus() {
 		return ce.competition.State.StartAt, ErrCompetitionStartRejected
 	}
 
-- 
2.43.0


From 9fd307da0128b72bd8b83325f65e52fc6e3085ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 08/39] fix: a refund refreshes the player statistics and ranks

---
 competition_engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index c80c015..7c9029b 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -634,6 +634,8 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
+	ce.refreshPlayerStatusStatistics()
+	ce.refreshPlayerCompetitionRanks()
 	defer ce.mu.Unlock()
 
 	// emit events
-- 
2.43.0


From d0b961402483dc3a857bba057581a224dc94d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 09/39] fix: a cash game top-up adds to the chips the player
 still has

---
 competition_engine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 7c9029b..a84384f 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -488,7 +488,12 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = playerStatus
 		cp.ReBuyWaitingAt = UnsetValue
-		cp.Chips = joinPlayer.RedeemChips
+		if ce.competition.Meta.Mode == CompetitionMode_Cash {
+			// 現金桌補碼: 累加在現有籌碼上
+			cp.Chips += joinPlayer.RedeemChips
+		} else {
+			cp.Chips = joinPlayer.RedeemChips
+		}
 		cp.ReBuyTimes++
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
-- 
2.43.0


From 97a4e0291923fb83585bff3bf9931d7220d6a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 10/39] fix: buy-in, add-on and refund validate and apply under
 one lock

---
 competition_engine.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index a84384f..b543f51 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -402,6 +402,9 @@ func (ce *competitionEngine) StartCompetition() (int64, error) {
 }
 
 func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate join player data
 	if joinPlayer.RedeemChips <= 0 {
 		return ErrCompetitionNoRedeemChips
@@ -473,7 +476,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	var competitionPlayer *CompetitionPlayer
 
 	// do logic
-	ce.mu.Lock()
 	if isBuyIn {
 		player := ce.newDefaultCompetitionPlayerData(tableID, joinPlayer.PlayerID, joinPlayer.RedeemChips, playerStatus, joinPlayer.Unit)
 		ce.competition.State.Players = append(ce.competition.State.Players, &player)
@@ -513,7 +515,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		ce.refreshPlayerCompetitionRanks()
 		competitionPlayer = cp
 	}
-	defer ce.mu.Unlock()
 
 	if isBuyIn {
 		ce.emitEvent(fmt.Sprintf("PlayerBuyIn -> %s Buy In", joinPlayer.PlayerID), joinPlayer.PlayerID)
@@ -554,6 +555,9 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 }
 
 func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate join player data
 	if joinPlayer.RedeemChips <= 0 {
 		return ErrCompetitionNoRedeemChips
@@ -581,7 +585,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	}
 
 	// do logic
-	ce.mu.Lock()
 	cp.CurrentTableID = tableID
 	cp.Chips += joinPlayer.RedeemChips
 	cp.AddonTimes++
@@ -590,7 +593,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		ce.competition.State.Statistic.TotalAddonCount += joinPlayer.Unit
 	}
 	ce.refreshPlayerCompetitionRanks()
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerAddon", joinPlayer.PlayerID)
@@ -611,6 +613,9 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 }
 
 func (ce *competitionEngine) PlayerRefund(playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate refund conditions
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
@@ -633,7 +638,6 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	}
 
 	// refund logic
-	ce.mu.Lock()
 	if ce.competition.IsModeCTorMTT() {
 		ce.competition.State.Statistic.TotalBuyInCount -= player.TotalBuyInUnits
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
@@ -641,7 +645,6 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	ce.deletePlayer(playerIdx)
 	ce.refreshPlayerStatusStatistics()
 	ce.refreshPlayerCompetitionRanks()
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerRefund", playerID)
-- 
2.43.0


From 6d40bbeed835513342150b9987dbfb6d38766564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 11/39] fix: an add-on is refused for players without chips and
 for competitions that are not running

---
 competition_engine.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index b543f51..b5e9650 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -579,7 +579,21 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionAddonRejected
 	}
 
+	// validate competition status: 進行中賽事才能增購
+	validStatuses := []CompetitionStateStatus{
+		CompetitionStateStatus_DelayedBuyIn,
+		CompetitionStateStatus_StoppedBuyIn,
+	}
+	if !funk.Contains(validStatuses, ce.competition.State.Status) {
+		return ErrCompetitionAddonRejected
+	}
+
+	// validate player chips: 沒籌碼 (淘汰、等待補碼) 玩家不能增購
 	cp := ce.competition.State.Players[playerIdx]
+	if cp.Chips <= 0 {
+		return ErrCompetitionAddonRejected
+	}
+
 	if cp.AddonTimes >= ce.competition.Meta.AddonSetting.MaxTime {
 		return ErrCompetitionExceedAddonLimit
 	}
-- 
2.43.0


From ca7c4c502d8d277a2e59e8727838c150172c065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 12/39] fix: an add-on the table refuses is not booked

---
 competition_engine.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index b5e9650..d7676ad 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -598,6 +598,16 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionExceedAddonLimit
 	}
 
+	// call tableEngine
+	jp := pokertable.JoinPlayer{
+		PlayerID:    joinPlayer.PlayerID,
+		RedeemChips: joinPlayer.RedeemChips,
+		Seat:        pokertable.UnsetValue,
+	}
+	if err := ce.tableManagerBackend.PlayerRedeemChips(tableID, jp); err != nil {
+		return err
+	}
+
 	// do logic
 	cp.CurrentTableID = tableID
 	cp.Chips += joinPlayer.RedeemChips
@@ -613,16 +623,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	ce.emitPlayerEvent("PlayerAddon", cp)
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CompetitionStatisticUpdated)
 
-	// call tableEngine
-	jp := pokertable.JoinPlayer{
-		PlayerID:    joinPlayer.PlayerID,
-		RedeemChips: joinPlayer.RedeemChips,
-		Seat:        pokertable.UnsetValue,
-	}
-	if err := ce.tableManagerBackend.PlayerRedeemChips(tableID, jp); err != nil {
-		return err
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 3bbe974f146b5965e5726a05d75ed103fe76fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 13/39] fix: a refund whose table seat cannot be released is
 not booked

---
 competition_engine.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index d7676ad..ed2b3c4 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -651,6 +651,13 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 		playerTableID = player.CurrentTableID
 	}
 
+	// call tableEngine
+	if playerTableID != "" {
+		if err := ce.tableManagerBackend.PlayersLeave(playerTableID, []string{playerID}); err != nil {
+			return err
+		}
+	}
+
 	// refund logic
 	if ce.competition.IsModeCTorMTT() {
 		ce.competition.State.Statistic.TotalBuyInCount -= player.TotalBuyInUnits
@@ -673,13 +680,6 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	}
 	ce.waitingPlayers = waitingPlayers
 
-	// call tableEngine
-	if playerTableID != "" {
-		if err := ce.tableManagerBackend.PlayersLeave(playerTableID, []string{playerID}); err != nil {
-			return err
-		}
-	}
-
 	return nil
 }
 
-- 
2.43.0


From a0bc8d7e53eba1b67c57677df2fbad2c6cad6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 14/39] fix: a quit whose table seat cannot be released reports
 the error

---
 competition_engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/competition_engine.go b/competition_engine.go
index ed2b3c4..74a9b6a 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -750,6 +750,7 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 	if err := ce.tableManagerBackend.PlayersLeave(tableID, []string{playerID}); err != nil {
 		fmt.Printf("[DEBUG#PlayerQuit] PlayersLeave Error: %+v. CompetitionID: %s, TableID: %s, PlayerID: %s", err, ce.competition.ID, tableID, playerID)
 		// ce.emitErrorEvent("Player Quit Knockout Players -> PlayersLeave", playerID, err)
+		return err
 	} else {
 		ce.mu.Lock()
 		cp := ce.competition.State.Players[playerIdx]
-- 
2.43.0


From 4b728d43222e8b357afdf4c3b7232fe6489e5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 15/39] fix: after consecutive breaks tables resume once, when
 the last break is over

---
 competition_engine_internal.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index b0aa1aa..d9a21f8 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -574,7 +574,8 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 	}
 
 	// reopen table game
-	endAt := ce.competition.State.BlindState.EndAts[ce.competition.State.BlindState.CurrentLevelIndex] + 1
+	breakingLevelIndex := ce.competition.State.BlindState.CurrentLevelIndex
+	endAt := ce.competition.State.BlindState.EndAts[breakingLevelIndex] + 1
 	if err := timebank.NewTimeBank().NewTaskWithDeadline(time.Unix(endAt, 0), func(isCancelled bool) {
 		if isCancelled {
 			fmt.Println("[DEBUG#handleBreaking] timer is canceled. TableID:", tableID)
@@ -586,7 +587,13 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			return
 		}
 
-		if ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] {
+		// 連續中場休息: 由最後一個中場休息的 timer 處理
+		if ce.competition.IsBreaking() {
+			fmt.Println("[DEBUG#handleBreaking] still breaking. TableID:", tableID)
+			return
+		}
+
+		if ce.breakingPauseResumeStates[tableID][breakingLevelIndex] {
 			fmt.Println("[DEBUG#handleBreaking] 2 already resume table games from breaking. TableID:", tableID)
 			return
 		}
@@ -607,10 +614,10 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
 				ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
-				ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] = true
+				ce.breakingPauseResumeStates[tableID][breakingLevelIndex] = true
 			} else if t.State.GameCount == 0 {
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
-				ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] = true
+				ce.breakingPauseResumeStates[tableID][breakingLevelIndex] = true
 				if len(participants) >= ce.competition.Meta.TableMinPlayerCount {
 					if err := ce.tableManagerBackend.StartTableGame(tableID); err != nil {
 						ce.emitErrorEvent("resume game from breaking & auto start game", "", err)
-- 
2.43.0


From 7827b5f7ebe556e0468a5c2ea8ae603bbd8bdbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 16/39] fix: final rankings include players still waiting for a
 re-buy when the competition is ended

---
 competition_engine_internal.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index d9a21f8..b694213 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -935,6 +935,17 @@ func (ce *competitionEngine) updatePlayerFinalRankings() {
 	}
 	if funk.Contains(settleStatuses, ce.competition.State.Status) {
 		finalRankings := ce.GetParticipatedPlayerCompetitionRankingData(ce.competition.ID, ce.competition.State.Players)
+
+		// 延遲買入階段結束賽事: 尚在等待補碼玩家的名次在有籌碼玩家之後
+		reBuyWaitingPlayerIDs := ce.GetSortedStopBuyInKnockoutPlayerRankings()
+		for idx, playerID := range reBuyWaitingPlayerIDs {
+			ce.competition.State.Rankings = append(ce.competition.State.Rankings, &CompetitionRank{
+				PlayerID:   playerID,
+				FinalChips: 0,
+			})
+			ce.emitCompetitionStateFinalPlayerRankEvent(playerID, len(finalRankings)+len(reBuyWaitingPlayerIDs)-idx)
+		}
+
 		// 名次由後面到前面 insert 至 Rankings
 		for i := len(finalRankings) - 1; i >= 0; i-- {
 			ranking := finalRankings[i]
-- 
2.43.0


From 34998097d07a2a751f9f5d257bfcd66d4044ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 17/39] fix: a competition that starts past its final buy-in
 level has its buy-in stopped from the start

---
 competition_engine_internal.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index b694213..3bef063 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1146,16 +1146,16 @@ func (ce *competitionEngine) activateBlind() error {
 		return err
 	}
 
-	if ce.competition.Meta.Blind.FinalBuyInLevelIndex == UnsetValue || ce.competition.Meta.Blind.FinalBuyInLevelIndex < NoStopBuyInIndex {
+	ce.competition.State.BlindState.CurrentLevelIndex = bs.Status.CurrentLevelIndex
+	ce.competition.State.BlindState.FinalBuyInLevelIndex = bs.Status.FinalBuyInLevelIndex
+	copy(ce.competition.State.BlindState.EndAts, bs.Status.LevelEndAts)
+
+	if ce.competition.State.BlindState.IsStopBuyIn() {
 		ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
 	} else {
 		ce.competition.State.Status = CompetitionStateStatus_DelayedBuyIn
 	}
 
-	ce.competition.State.BlindState.CurrentLevelIndex = bs.Status.CurrentLevelIndex
-	ce.competition.State.BlindState.FinalBuyInLevelIndex = bs.Status.FinalBuyInLevelIndex
-	copy(ce.competition.State.BlindState.EndAts, bs.Status.LevelEndAts)
-
 	ce.emitEvent("ActivateBlind", "")
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_BlindActivated)
 	return nil
-- 
2.43.0


From 9d347e03d188fe80a9a5780a979b94d66ae5ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 18/39] fix: advancement and table breaking also work when
 buy-in is stopped from the start

---
 competition_engine_internal.go | 3 +++
 regulator.go                   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 3bef063..0d8c2d3 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1151,6 +1151,9 @@ func (ce *competitionEngine) activateBlind() error {
 	copy(ce.competition.State.BlindState.EndAts, bs.Status.LevelEndAts)
 
 	if ce.competition.State.BlindState.IsStopBuyIn() {
+		// 處理晉級
+		ce.initAdvancement()
+
 		ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
 	} else {
 		ce.competition.State.Status = CompetitionStateStatus_DelayedBuyIn
diff --git a/regulator.go b/regulator.go
index 34e1e79..1483620 100644
--- a/regulator.go
+++ b/regulator.go
@@ -117,6 +117,10 @@ func (ce *competitionEngine) activateRegulator() {
 
 	// 啟動拆併桌程式
 	ce.regulator.SetStatus(regulator.CompetitionStatus_Normal)
+	if ce.competition.State.Status == CompetitionStateStatus_StoppedBuyIn {
+		// 開賽即停止買入
+		ce.regulator.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
+	}
 	ce.isRegulatorStarted = true
 }
 
-- 
2.43.0


From b28ab0e4ed9334c03b5dc13164aea95cfce088e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 19/39] fix: every state event carries player counters that
 match the player list

---
 event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/event.go b/event.go
index 2572809..988b509 100644
--- a/event.go
+++ b/event.go
@@ -45,6 +45,9 @@ func (ce *competitionEngine) emitCompetitionStateFinalPlayerRankEvent(playerID s
 }
 
 func (ce *competitionEngine) emitCompetitionStateEvent(eventName string) {
+	// refresh statistic
+	ce.refreshPlayerStatusStatistics()
+
 	// emit event
 	ce.onCompetitionStateUpdated(eventName, ce.competition)
 }
-- 
2.43.0


From f10fb7aaed80df3e21a0412e2e3e1f64675adfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 20/39] fix: the table balancing respects the configured seat
 count of a table

---
 competition_engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/competition_engine.go b/competition_engine.go
index 74a9b6a..1c62a88 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -252,6 +252,7 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 		if ce.regulator == nil {
 			ce.regulator = regulator.NewRegulator(
 				regulator.MinInitialPlayers(competitionSetting.Meta.RegulatorMinInitialPlayerCount),
+				regulator.MaxPlayersPerTable(competitionSetting.Meta.TableMaxSeatCount),
 				regulator.WithRequestTableFn(func(playerIDs []string) (string, error) {
 					return ce.regulatorCreateAndDistributePlayers(playerIDs)
 				}),
-- 
2.43.0


From 7b322ecdb43ef5b5d067456fe2c6656fc52e0828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 21/39] fix: the native table backend opens the first game of
 its tables

---
 native_table_manager_backend.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/native_table_manager_backend.go b/native_table_manager_backend.go
index 87669c0..f2ea020 100644
--- a/native_table_manager_backend.go
+++ b/native_table_manager_backend.go
@@ -92,6 +92,21 @@ func (ntmb *nativeTableManagerBackend) CreateTable(options *pokertable.TableEngi
 		ntmb.onTablePlayerReserved(tableID, &clonePlayerState)
 	}
 
+	callbacks.OnReadyOpenFirstTableGame = func(competitionID, tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
+		data, err := json.Marshal(playerStates)
+		if err != nil {
+			return
+		}
+
+		var clonePlayerStates []*pokertable.TablePlayerState
+		err = json.Unmarshal([]byte(data), &clonePlayerStates)
+		if err != nil {
+			return
+		}
+
+		ntmb.onReadyOpenFirstTableGame(tableID, gameCount, clonePlayerStates)
+	}
+
 	table, err := ntmb.manager.CreateTable(options, callbacks, setting)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 72ba80663fb1d6e88e06ba4a62599ca74320e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 22/39] fix: advancement counts each paused table once and ends
 when every open table is paused

---
 competition_engine_internal.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 0d8c2d3..a51d29d 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -344,11 +344,20 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 			if err := ce.tableManagerBackend.PauseTable(table.ID); err != nil {
 				ce.emitErrorEvent(fmt.Sprintf("[%s][%d] Advance Pause Table", table.ID, table.State.GameCount), "", err)
 			} else {
-				ce.competition.State.AdvanceState.UpdatedTables++
-				ce.competition.State.AdvanceState.UpdatedTableIDs = append(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID)
+				if !funk.ContainsString(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID) {
+					ce.competition.State.AdvanceState.UpdatedTables++
+					ce.competition.State.AdvanceState.UpdatedTableIDs = append(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID)
+				}
 
-				// 晉級條件達成: 結束賽事
-				if ce.competition.State.AdvanceState.TotalTables == ce.competition.State.AdvanceState.UpdatedTables {
+				// 晉級條件達成 (所有桌次皆已暫停): 結束賽事
+				isAllTablesUpdated := true
+				for _, t := range ce.competition.State.Tables {
+					if !funk.ContainsString(ce.competition.State.AdvanceState.UpdatedTableIDs, t.ID) {
+						isAllTablesUpdated = false
+						break
+					}
+				}
+				if isAllTablesUpdated {
 					ce.competition.State.AdvanceState.Status = CompetitionAdvanceStatus_End
 					shouldCloseCompetition = true
 				}
-- 
2.43.0


From 66c8c9318f22e3db87634fd5662ff3ccef45c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 23/39] fix: an MTT ends exactly when one player with chips is
 left at the last table

---
 competition_engine_internal.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index a51d29d..7229663 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -364,6 +364,7 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 			}
 		} else {
 			ce.handleMTTTableSettlementNextStep(table, alivePlayerIDs, zeroChipPlayerIDs)
+			shouldCloseCompetition = ce.shouldCloseMTTCompetition()
 		}
 	} else {
 		// 無晉級計算
@@ -371,7 +372,7 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 		ce.handleMTTTableSettlementNextStep(table, alivePlayerIDs, zeroChipPlayerIDs)
 
 		// 判斷是否要關閉賽事
-		shouldCloseCompetition = !ce.isEndStatus() && ce.competition.State.BlindState.IsStopBuyIn() && len(alivePlayerIDs) == 1 && len(ce.competition.State.Tables) == 1
+		shouldCloseCompetition = ce.shouldCloseMTTCompetition()
 	}
 
 	return shouldCloseCompetition
@@ -998,6 +999,14 @@ func (ce *competitionEngine) shouldCloseCTCompetition(tableStartAt int64, tableA
 	return time.Now().Unix() > tableEndAt || (ce.competition.State.BlindState.IsStopBuyIn() && tableAlivePlayerCount < ce.competition.Meta.TableMinPlayerCount)
 }
 
+/*
+shouldCloseMTTCompetition MTT 計算賽事是否已達到結束條件
+  - 結束條件: 停止買入後且只剩一桌一人有籌碼
+*/
+func (ce *competitionEngine) shouldCloseMTTCompetition() bool {
+	return !ce.isEndStatus() && ce.competition.State.BlindState.IsStopBuyIn() && ce.competition.PlayingPlayerCount() == 1 && len(ce.competition.State.Tables) == 1
+}
+
 /*
 shouldCloseCashCompetition Cash 計算桌次是否已達到結束條件
   - 結束條件 1: 達到結束時間
-- 
2.43.0


From 432f5562b6fa0700fdb3217c301b30ea995d9d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 24/39] fix: the player whose buy-in completes the minimum of a
 started MTT is seated too

---
 competition_engine.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 1c62a88..3fdd09b 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -543,11 +543,10 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 			// 開賽後且達到開賽最低人數之後，丟到拆併桌程式
 			ce.regulatorAddPlayers([]string{joinPlayer.PlayerID})
 		} else {
+			// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
+			ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			if ce.shouldActivateRegulator() {
 				ce.activateRegulator()
-			} else {
-				// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
-				ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			}
 		}
 	}
-- 
2.43.0


From 7cafed86a485041a15ad2921ba96eff21f66240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 25/39] fix: failures to seat MTT players are reported on the
 error channel

---
 competition_engine.go | 4 +++-
 regulator.go          | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 3fdd09b..ca3981a 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -541,7 +541,9 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		// 更新拆併桌監管器狀態
 		if ce.isRegulatorStarted {
 			// 開賽後且達到開賽最低人數之後，丟到拆併桌程式
-			ce.regulatorAddPlayers([]string{joinPlayer.PlayerID})
+			if err := ce.regulatorAddPlayers([]string{joinPlayer.PlayerID}); err != nil {
+				ce.emitErrorEvent("PlayerBuyIn -> MTT Regulator Add Players", joinPlayer.PlayerID, err)
+			}
 		} else {
 			// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
 			ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
diff --git a/regulator.go b/regulator.go
index 1483620..deb317b 100644
--- a/regulator.go
+++ b/regulator.go
@@ -49,6 +49,7 @@ func (ce *competitionEngine) regulatorCreateAndDistributePlayers(playerIDs []str
 	}
 	tableID, err := ce.addCompetitionTable(tableSetting, blind)
 	if err != nil {
+		ce.emitErrorEvent("MTT Regulator Create Table", strings.Join(playerIDs, ","), err)
 		return "", err
 	}
 
@@ -81,6 +82,7 @@ func (ce *competitionEngine) regulatorDistributePlayers(tableID string, playerID
 		})
 	}
 	if _, err := ce.tableManagerBackend.UpdateTablePlayers(tableID, joinPlayers, []string{}); err != nil {
+		ce.emitErrorEvent(fmt.Sprintf("[%s] MTT Regulator Distribute Players", tableID), strings.Join(playerIDs, ","), err)
 		return err
 	}
 
-- 
2.43.0


From 3d262905bc8a03f00d86ee63c23b618b07b4b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 26/39] fix: hide other players' cards in every table state
 handed out by the player runner

---
 actor/player_runner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 66a6bb9..eb9e9ee 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -75,8 +75,8 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 	} else {
 		cloneTable = *table
 	}
-	// hide certain game state fields for player when table game is playing
-	if cloneTable.State.Status == pokertable.TableStateStatus_TableGamePlaying || cloneTable.State.Status == pokertable.TableStateStatus_TableGameSettled {
+	// hide certain game state fields for player whenever there is a game, whatever the table status is
+	if cloneTable.State.GameState != nil {
 		gpIdx := table.GamePlayerIndex(pr.playerID)
 		cloneTable.State.GameState.AsPlayer(gpIdx)
 	}
-- 
2.43.0


From d5fd55c5791b6d217c793d23a0e3b74eb78e05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:24 +0000
Subject: [PATCH 27/39] fix: player runner keeps its own copy of the game state
 apart from the emitted one

---
 actor/player_runner.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index eb9e9ee..463fd36 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -67,24 +67,18 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 
 	// Emit event
 	// TODO: ask Fred if emit event unconditionally is okay
-	var cloneTable pokertable.Table
-	if encoded, err := json.Marshal(table); err == nil {
-		if err := json.Unmarshal(encoded, &cloneTable); err != nil {
-			cloneTable = *table
-		}
-	} else {
-		cloneTable = *table
-	}
+	cloneTable := pr.cloneTable(table)
 	// hide certain game state fields for player whenever there is a game, whatever the table status is
 	if cloneTable.State.GameState != nil {
 		gpIdx := table.GamePlayerIndex(pr.playerID)
 		cloneTable.State.GameState.AsPlayer(gpIdx)
 	}
 	if pr.isEventSubscribed {
-		pr.onTableStateUpdated(&cloneTable)
+		pr.onTableStateUpdated(cloneTable)
 	}
 
-	gs := cloneTable.State.GameState
+	// The emitted table belongs to the receiver from now on, react to a private copy
+	gs := pr.cloneTable(table).State.GameState
 
 	// The state remains unchanged or is outdated
 	if gs != nil {
@@ -146,6 +140,19 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 	return nil
 }
 
+func (pr *PlayerRunner) cloneTable(table *pokertable.Table) *pokertable.Table {
+	var cloneTable pokertable.Table
+	if encoded, err := json.Marshal(table); err == nil {
+		if err := json.Unmarshal(encoded, &cloneTable); err != nil {
+			cloneTable = *table
+		}
+	} else {
+		cloneTable = *table
+	}
+
+	return &cloneTable
+}
+
 func (pr *PlayerRunner) OnAutoModeUpdated(fn func(string, bool)) error {
 	pr.onAutoModeUpdated = fn
 	return nil
-- 
2.43.0


From e116792cffa2ce895b391cdea438773ddee32e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 28/39] fix: player runner no longer crashes when a pending
 move times out after the table's hand is gone

---
 actor/player_runner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 463fd36..51670a3 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -229,7 +229,7 @@ func (pr *PlayerRunner) automate(gs *pokerface.GameState, playerIdx int) error {
 			return err
 		}
 
-		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO READY\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, pr.status)
+		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO READY\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, gs.Status.Round, pr.status)
 		return nil
 	} else if gs.HasAction(playerIdx, "check") {
 		err := pr.actions.Check()
@@ -237,7 +237,7 @@ func (pr *PlayerRunner) automate(gs *pokerface.GameState, playerIdx int) error {
 			return err
 		}
 
-		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO CHECK\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, pr.status)
+		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO CHECK\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, gs.Status.Round, pr.status)
 		pr.updateWagerAction(pokertable.WagerAction_Check, 0)
 		return nil
 	} else if gs.HasAction(playerIdx, "fold") {
@@ -246,7 +246,7 @@ func (pr *PlayerRunner) automate(gs *pokerface.GameState, playerIdx int) error {
 			return err
 		}
 
-		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO FOLD\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, pr.status)
+		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO FOLD\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, gs.Status.Round, pr.status)
 		pr.updateWagerAction(pokertable.WagerAction_Fold, 0)
 		return nil
 	}
-- 
2.43.0


From 901b0c011b695f9161c31d21433cd37851a2a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:22 +0000
Subject: [PATCH 29/39] fix: a manual action cancels only the move it answers,
 not the one requested meanwhile

---
 actor/player_runner.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 51670a3..5445d63 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -204,7 +204,10 @@ func (pr *PlayerRunner) requestMove(gs *pokerface.GameState, playerIdx int) erro
 		return pr.automate(gs, playerIdx)
 	}
 
-	// Setup timebank to wait for player
+	// Setup timebank to wait for player, each move has its own one so that
+	// finishing a previous move never cancels this one
+	pr.timebank.Cancel()
+	pr.timebank = timebank.NewTimeBank()
 	thinkingTime := time.Duration(pr.tableInfo.Meta.ActionTime) * time.Second
 	return pr.timebank.NewTask(thinkingTime, func(isCancelled bool) {
 
@@ -297,45 +300,49 @@ func (pr *PlayerRunner) Suspend() error {
 
 func (pr *PlayerRunner) Pass() error {
 
+	tb := pr.timebank
 	err := pr.actions.Pass()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Ready() error {
 
+	tb := pr.timebank
 	err := pr.actions.Ready()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Pay(chips int64) error {
 
+	tb := pr.timebank
 	err := pr.actions.Pay(chips)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Check() error {
 
+	tb := pr.timebank
 	err := pr.actions.Check()
 	if err != nil {
 		return err
@@ -343,13 +350,14 @@ func (pr *PlayerRunner) Check() error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Check, 0)
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Bet(chips int64) error {
 
+	tb := pr.timebank
 	err := pr.actions.Bet(chips)
 	if err != nil {
 		return err
@@ -357,7 +365,7 @@ func (pr *PlayerRunner) Bet(chips int64) error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Bet, chips)
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
@@ -371,6 +379,7 @@ func (pr *PlayerRunner) Call() error {
 		wager = pr.tableInfo.State.GameState.Status.CurrentWager - pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).Wager
 	}
 
+	tb := pr.timebank
 	err := pr.actions.Call()
 	if err != nil {
 		return err
@@ -378,20 +387,21 @@ func (pr *PlayerRunner) Call() error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Call, wager)
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Fold() error {
 	pr.Resume()
+	tb := pr.timebank
 	err := pr.actions.Fold()
 	if err != nil {
 		return err
 	}
 
 	pr.updateWagerAction(pokertable.WagerAction_Fold, 0)
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
@@ -404,6 +414,7 @@ func (pr *PlayerRunner) Allin() error {
 		wager = pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).StackSize
 	}
 
+	tb := pr.timebank
 	err := pr.actions.Allin()
 	if err != nil {
 		return err
@@ -411,13 +422,14 @@ func (pr *PlayerRunner) Allin() error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_AllIn, wager)
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
 
 func (pr *PlayerRunner) Raise(chipLevel int64) error {
 
+	tb := pr.timebank
 	err := pr.actions.Raise(chipLevel)
 	if err != nil {
 		return err
@@ -425,7 +437,7 @@ func (pr *PlayerRunner) Raise(chipLevel int64) error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Raise, chipLevel)
-	pr.timebank.Cancel()
+	tb.Cancel()
 
 	return nil
 }
-- 
2.43.0


From 3a3abd5f734b3dde58d83e728d4a4a88e1d06be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 30/39] fix: a time-out no longer ends the auto mode switched
 on while the move was pending

---
 actor/player_runner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 5445d63..1aab82b 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -275,6 +275,11 @@ func (pr *PlayerRunner) Resume() error {
 }
 
 func (pr *PlayerRunner) Idle() error {
+	// Auto mode is on already and only ends by resuming
+	if pr.status == PlayerStatus_Suspend {
+		return nil
+	}
+
 	if pr.status != PlayerStatus_Idle {
 		pr.status = PlayerStatus_Idle
 		pr.idleCount = 0
-- 
2.43.0


From 10ca06e2ebde26032ec7076cc7d134fe357b7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 31/39] fix: heads-up dealer pays the dealer blind when there
 is no small blind

---
 actor/bot_runner.go    |  8 +-------
 actor/player_runner.go | 13 +++----------
 actor/runner.go        | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index 9dbff43..fbdf930 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -187,13 +187,7 @@ func (br *botRunner) requestMove(gs *pokerface.GameState, playerIdx int) error {
 		case pokerface.GameEventSymbols[pokerface.GameEvent_BlindsRequested]:
 
 			// blinds
-			if gs.HasPosition(playerIdx, "sb") {
-				return br.actions.Pay(gs.Meta.Blind.SB)
-			} else if gs.HasPosition(playerIdx, "bb") {
-				return br.actions.Pay(gs.Meta.Blind.BB)
-			}
-
-			return br.actions.Pay(gs.Meta.Blind.Dealer)
+			return br.actions.Pay(requiredBlind(gs, playerIdx))
 		}
 	}
 
diff --git a/actor/player_runner.go b/actor/player_runner.go
index 1aab82b..0f2c299 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -187,16 +187,9 @@ func (pr *PlayerRunner) requestMove(gs *pokerface.GameState, playerIdx int) erro
 	case pokerface.GameEventSymbols[pokerface.GameEvent_BlindsRequested]:
 
 		// blinds
-		if gs.HasPosition(playerIdx, "sb") {
-			fmt.Printf("[%s#%d][%d][%s][%s] PAY SB (%d)\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, gs.Meta.Blind.SB)
-			return pr.actions.Pay(gs.Meta.Blind.SB)
-		} else if gs.HasPosition(playerIdx, "bb") {
-			fmt.Printf("[%s#%d][%d][%s][%s] PAY BB  (%d)\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, gs.Meta.Blind.BB)
-			return pr.actions.Pay(gs.Meta.Blind.BB)
-		}
-
-		fmt.Printf("[%s#%d][%d][%s][%s] PAY DEALER (%d)\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, gs.Meta.Blind.Dealer)
-		return pr.actions.Pay(gs.Meta.Blind.Dealer)
+		blind := requiredBlind(gs, playerIdx)
+		fmt.Printf("[%s#%d][%d][%s][%s] PAY BLIND (%d)\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, blind)
+		return pr.actions.Pay(blind)
 	}
 
 	// Player is suspended
diff --git a/actor/runner.go b/actor/runner.go
index e37659f..9add052 100644
--- a/actor/runner.go
+++ b/actor/runner.go
@@ -1,6 +1,7 @@
 package actor
 
 import (
+	"github.com/weedbox/pokerface"
 	"github.com/weedbox/pokertable"
 )
 
@@ -8,3 +9,16 @@ type Runner interface {
 	SetActor(a Actor)
 	UpdateTableState(t *pokertable.Table) error
 }
+
+// requiredBlind returns the blind chips that table requests from the player
+func requiredBlind(gs *pokerface.GameState, playerIdx int) int64 {
+	blind := gs.Meta.Blind
+	switch {
+	case blind.BB > 0 && gs.HasPosition(playerIdx, pokertable.Position_BB):
+		return blind.BB
+	case blind.SB > 0 && gs.HasPosition(playerIdx, pokertable.Position_SB):
+		return blind.SB
+	}
+
+	return blind.Dealer
+}
-- 
2.43.0


From ffe1d2d4e164dfea1c9a3a7d2100be92d1adecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:20 +0000
Subject: [PATCH 32/39] fix: announce the chips a call really costs

---
 actor/bot_runner.go    |  2 +-
 actor/player_runner.go |  2 +-
 actor/runner.go        | 16 ++++++++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index fbdf930..aa2804a 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -330,7 +330,7 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 		wager := int64(0)
 		gamePlayerIdx := br.tableInfo.FindGamePlayerIdx(br.playerID)
 		if gamePlayerIdx >= 0 && br.tableInfo != nil && br.tableInfo.State.GameState != nil && gamePlayerIdx < len(br.tableInfo.State.GameState.Players) {
-			wager = br.tableInfo.State.GameState.Status.CurrentWager - br.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).Wager
+			wager = requiredCall(br.tableInfo.State.GameState, gamePlayerIdx)
 		}
 
 		err := br.actions.Call()
diff --git a/actor/player_runner.go b/actor/player_runner.go
index 0f2c299..4263df6 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -374,7 +374,7 @@ func (pr *PlayerRunner) Call() error {
 	wager := int64(0)
 	gamePlayerIdx := pr.tableInfo.FindGamePlayerIdx(pr.playerID)
 	if gamePlayerIdx >= 0 && pr.tableInfo != nil && pr.tableInfo.State.GameState != nil && gamePlayerIdx < len(pr.tableInfo.State.GameState.Players) {
-		wager = pr.tableInfo.State.GameState.Status.CurrentWager - pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).Wager
+		wager = requiredCall(pr.tableInfo.State.GameState, gamePlayerIdx)
 	}
 
 	tb := pr.timebank
diff --git a/actor/runner.go b/actor/runner.go
index 9add052..f589c16 100644
--- a/actor/runner.go
+++ b/actor/runner.go
@@ -22,3 +22,19 @@ func requiredBlind(gs *pokerface.GameState, playerIdx int) int64 {
 
 	return blind.Dealer
 }
+
+// requiredCall returns the chips that a call actually costs the player
+func requiredCall(gs *pokerface.GameState, playerIdx int) int64 {
+	player := gs.GetPlayer(playerIdx)
+	wagerLevel := gs.Status.CurrentWager
+	if wagerLevel < gs.Meta.Blind.BB {
+		wagerLevel = gs.Meta.Blind.BB
+	}
+
+	// Calling with less chips is all in
+	if wagerLevel-player.Wager > player.StackSize {
+		return player.StackSize
+	}
+
+	return wagerLevel - player.Wager
+}
-- 
2.43.0


From 533c4bf2b3c3b39fd3a4ab3102cbbbf8096a0f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:21 +0000
Subject: [PATCH 33/39] fix: calling or going all in before any table state is
 refused by the table, not a crash

---
 actor/player_runner.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 4263df6..7b85c4e 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -372,8 +372,11 @@ func (pr *PlayerRunner) Call() error {
 	// calc chips when action is call
 	// TODO: should move logic to pokertable
 	wager := int64(0)
-	gamePlayerIdx := pr.tableInfo.FindGamePlayerIdx(pr.playerID)
-	if gamePlayerIdx >= 0 && pr.tableInfo != nil && pr.tableInfo.State.GameState != nil && gamePlayerIdx < len(pr.tableInfo.State.GameState.Players) {
+	gamePlayerIdx := -1
+	if pr.tableInfo != nil {
+		gamePlayerIdx = pr.tableInfo.FindGamePlayerIdx(pr.playerID)
+	}
+	if gamePlayerIdx >= 0 && pr.tableInfo.State.GameState != nil && gamePlayerIdx < len(pr.tableInfo.State.GameState.Players) {
 		wager = requiredCall(pr.tableInfo.State.GameState, gamePlayerIdx)
 	}
 
@@ -407,8 +410,11 @@ func (pr *PlayerRunner) Fold() error {
 func (pr *PlayerRunner) Allin() error {
 	// TODO: should move logic to pokertable
 	wager := int64(0)
-	gamePlayerIdx := pr.tableInfo.FindGamePlayerIdx(pr.playerID)
-	if gamePlayerIdx >= 0 && pr.tableInfo != nil && pr.tableInfo.State.GameState != nil && gamePlayerIdx < len(pr.tableInfo.State.GameState.Players) {
+	gamePlayerIdx := -1
+	if pr.tableInfo != nil {
+		gamePlayerIdx = pr.tableInfo.FindGamePlayerIdx(pr.playerID)
+	}
+	if gamePlayerIdx >= 0 && pr.tableInfo.State.GameState != nil && gamePlayerIdx < len(pr.tableInfo.State.GameState.Players) {
 		wager = pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).StackSize
 	}
 
-- 
2.43.0


From 8a9f2d2ec0f7281f306ce7652a9cad15a2c66e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:43 +0000
Subject: [PATCH 34/39] fix: bot announces a bet of its whole stack

---
 actor/bot_runner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index aa2804a..0e0dc8f 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -289,11 +289,11 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 		minBet := gs.Status.MiniBet
 
 		if player.InitialStackSize <= minBet {
-			return br.actions.Bet(player.InitialStackSize)
+			chips = player.InitialStackSize
+		} else {
+			chips = rand.Int63n(player.InitialStackSize-minBet) + minBet
 		}
 
-		chips = rand.Int63n(player.InitialStackSize-minBet) + minBet
-
 		err := br.actions.Bet(chips)
 		if err != nil {
 			return err
-- 
2.43.0


From 3251ed4782bb5a0ede712e7be5747e13aeff90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:43 +0000
Subject: [PATCH 35/39] fix: bot no longer moves for an outdated state after
 moving for a newer one at once

---
 actor/bot_runner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index 0e0dc8f..7f670d5 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -162,6 +162,9 @@ func (br *botRunner) UpdateTableState(table *pokertable.Table) error {
 
 func (br *botRunner) requestMove(gs *pokerface.GameState, playerIdx int) error {
 
+	// The move that is still being thought about belongs to an outdated state
+	br.timebank.Cancel()
+
 	//fmt.Println(br.tableInfo.State.GameState.Status.Round, br.gamePlayerIdx, gs.Players[br.gamePlayerIdx].AllowedActions)
 	/*
 		player := gs.Players[playerIdx]
-- 
2.43.0


From 7298b28a8c9bd41e58bfb4a2a4066f225c0294ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:07 +0000
Subject: [PATCH 36/39] fix: a table whose first hand fell into a break resumes
 afterwards

---
 competition_engine_internal.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 7229663..80408da 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -629,8 +629,13 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
 				ce.breakingPauseResumeStates[tableID][breakingLevelIndex] = true
 				if len(participants) >= ce.competition.Meta.TableMinPlayerCount {
-					if err := ce.tableManagerBackend.StartTableGame(tableID); err != nil {
-						ce.emitErrorEvent("resume game from breaking & auto start game", "", err)
+					if t.State.StartAt == UnsetValue {
+						if err := ce.tableManagerBackend.StartTableGame(tableID); err != nil {
+							ce.emitErrorEvent("resume game from breaking & auto start game", "", err)
+						}
+					} else if t.State.StartAt < ce.competition.State.BlindState.EndAts[breakingLevelIndex] {
+						// started before breaking, but the first game could not be opened: starting it again does nothing
+						ce.tableManagerBackend.SetUpTableGame(tableID, t.State.GameCount, participants)
 					}
 				}
 			}
-- 
2.43.0


From 5464acf27e137e620df06bba28b78a380993bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:28 +0000
Subject: [PATCH 37/39] fix: a refunded cash player leaves the table

---
 competition_engine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index ca3981a..342bf36 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -651,6 +651,9 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	playerTableID := ""
 	if ce.competition.Meta.Mode == CompetitionMode_CT {
 		playerTableID = player.CurrentTableID
+	} else if ce.competition.Meta.Mode == CompetitionMode_Cash && player.CurrentSeat != UnsetValue {
+		// cash tables may be full: only seated players leave the table
+		playerTableID = player.CurrentTableID
 	}
 
 	// call tableEngine
-- 
2.43.0


From 4c32628d79e18f69eb68e320892a18f505b9ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:22 +0000
Subject: [PATCH 38/39] fix: a cash-out at an unknown table is refused

---
 competition_engine.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 342bf36..f2b4920 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -701,6 +701,13 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 		return ErrCompetitionLeaveRejected
 	}
 
+	tableIdx := ce.competition.FindTableIdx(func(t *pokertable.Table) bool {
+		return tableID == t.ID
+	})
+	if tableIdx == UnsetValue {
+		return ErrCompetitionLeaveRejected
+	}
+
 	// update player status
 	cp := ce.competition.State.Players[playerIdx]
 	cp.Status = CompetitionPlayerStatus_CashLeaving
-- 
2.43.0


From a60d19b7e0207392802a2ecc719e2bce7442c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:14 +0000
Subject: [PATCH 39/39] fix: a player without chips in the seating queue no
 longer stops every later entry

---
 regulator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/regulator.go b/regulator.go
index deb317b..c63624b 100644
--- a/regulator.go
+++ b/regulator.go
@@ -73,7 +73,9 @@ func (ce *competitionEngine) regulatorDistributePlayers(tableID string, playerID
 
 		chips := ce.competition.State.Players[playerIdx].Chips
 		if chips <= 0 {
-			return fmt.Errorf("competition: failed to regulate player (%s) to table (%s)", playerID, tableID)
+			// 沒籌碼的玩家不入桌 (回傳錯誤會讓拆併桌程式無限重試)
+			ce.emitErrorEvent(fmt.Sprintf("[%s] MTT Regulator Distribute Players", tableID), playerID, fmt.Errorf("competition: failed to regulate player (%s) to table (%s)", playerID, tableID))
+			continue
 		}
 		joinPlayers = append(joinPlayers, pokertable.JoinPlayer{
 			PlayerID:    playerID,
@@ -81,6 +83,9 @@ func (ce *competitionEngine) regulatorDistributePlayers(tableID string, playerID
 			Seat:        UnsetValue,
 		})
 	}
+	if len(joinPlayers) == 0 {
+		return nil
+	}
 	if _, err := ce.tableManagerBackend.UpdateTablePlayers(tableID, joinPlayers, []string{}); err != nil {
 		ce.emitErrorEvent(fmt.Sprintf("[%s] MTT Regulator Distribute Players", tableID), strings.Join(playerIDs, ","), err)
 		return err
-- 
2.43.0

