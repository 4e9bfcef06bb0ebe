From 6fd36f730c1637718f915ef792f18cea4b045949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:31 +0000
Subject: [PATCH 01/33] fix: do not lose tasks scheduled or cancelled while the
 schedule is being performed

---
 x/schedule/keeper/keeper.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/x/schedule/keeper/keeper.go b/x/schedule/keeper/keeper.go
index 44d514e..9c62d6d 100644
--- a/x/schedule/keeper/keeper.go
+++ b/x/schedule/keeper/keeper.go
@@ -11,7 +11,6 @@ import (
 	"github.com/tendermint/tendermint/libs/log"
 
 	"github.com/cosmos/cosmos-sdk/codec"
-	"github.com/cosmos/cosmos-sdk/store/cachekv"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	paramtypes "github.com/cosmos/cosmos-sdk/x/params/types"
 
@@ -123,13 +122,25 @@ func (k Keeper) delete(ctx sdk.Context, time time.Time, predicate func(types.Tas
 // PerformSchedule performs scheduled tasks for the block height. Tasks will be removed from the store when they are
 // complete.
 func (k Keeper) PerformSchedule(ctx sdk.Context) {
-	store := cachekv.NewStore(ctx.KVStore(k.storeKey))
-	terminator := Key(ctx.BlockTime().Add(time.Nanosecond))
-	it := store.Iterator(nil, terminator)
+	store := ctx.KVStore(k.storeKey)
 
+	// Tasks may (un)schedule other ones while being performed, so the store must not be iterated at that time.
+	var keys [][]byte
+	it := store.Iterator(nil, Key(ctx.BlockTime().Add(time.Nanosecond)))
 	for ; it.Valid(); it.Next() {
+		keys = append(keys, it.Key())
+	}
+	it.Close()
+
+	for _, key := range keys {
+		bz := store.Get(key)
+		if bz == nil {
+			continue
+		}
+		store.Delete(key)
+
 		var sch types.Schedule
-		k.cdc.MustUnmarshalBinaryBare(it.Value(), &sch)
+		k.cdc.MustUnmarshalBinaryBare(bz, &sch)
 		for _, task := range sch.Tasks {
 			hook := k.eventHooks[task.HandlerName]
 			if hook != nil {
@@ -138,11 +149,7 @@ func (k Keeper) PerformSchedule(ctx sdk.Context) {
 				k.Logger(ctx).Error("callback is not registered", "hook", task.HandlerName)
 			}
 		}
-		store.Delete(it.Key())
 	}
-
-	it.Close()
-	store.Write()
 }
 
 func performSchedule(ctx sdk.Context, task types.Task, hook func(ctx sdk.Context, data []byte, time time.Time), logger log.Logger) {
-- 
2.43.0


From 8b0d13f1dce550c321977748f285f28bee14a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 02/33] fix: keep level-10 aggregates of all ancestors when an
 account is compressed

---
 x/referral/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index c61e21a..002d843 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -362,7 +362,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			value.Coins[k] = value.Coins[k].Add(coins[1])
 			value.Delegated[k] = value.Delegated[k].Add(delegated[1])
 			value.ActiveRefCounts[k] += refsCount[1]
-			for i := 1; i < 10-k; i++ {
+			for i := 1; i <= 10-k; i++ {
 				value.Coins[k+i] = value.Coins[k+i].Add(coins[i+1]).Sub(coins[i])
 				value.Delegated[k+i] = value.Delegated[k+i].Add(delegated[i+1]).Sub(delegated[i])
 				value.ActiveRefCounts[k+i] += refsCount[i+1] - refsCount[i]
-- 
2.43.0


From 5e14884607e1ccef219e6ad4d065fe46d5f6baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:23 +0000
Subject: [PATCH 03/33] fix: judge ancestors' statuses only when a subtree is
 completely moved

---
 x/referral/keeper/keeper.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 002d843..dba7bf3 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -803,9 +803,10 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	var (
 		bu                       = newBunchUpdater(k, ctx)
 		oldAncestor, newAncestor string
+		affected                 = []string{oldParent, newParent}
 	)
 
-	if err = bu.update(oldParent, true, func(value *types.Info) error {
+	if err = bu.update(oldParent, false, func(value *types.Info) error {
 		idx := 0
 		for ; idx < len(value.Referrals) && value.Referrals[idx] != subject; idx++ {
 		}
@@ -828,7 +829,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		panic(errors.Wrap(err, "cannot update old referrer data"))
 	}
 
-	if err = bu.update(newParent, true, func(value *types.Info) error {
+	if err = bu.update(newParent, false, func(value *types.Info) error {
 		value.Referrals = append(value.Referrals, subject)
 		if r.Active {
 			value.ActiveReferrals = append(value.ActiveReferrals, subject)
@@ -851,7 +852,8 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			break
 		}
 		if oldAncestor != "" {
-			if err = bu.update(oldAncestor, true, func(value *types.Info) error {
+			affected = append(affected, oldAncestor)
+			if err = bu.update(oldAncestor, false, func(value *types.Info) error {
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Sub(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Sub(r.Delegated[i-level])
@@ -864,7 +866,8 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			}
 		}
 		if newAncestor != "" {
-			if err = bu.update(newAncestor, true, func(value *types.Info) error {
+			affected = append(affected, newAncestor)
+			if err = bu.update(newAncestor, false, func(value *types.Info) error {
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Add(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Add(r.Delegated[i-level])
@@ -878,6 +881,17 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		}
 	}
 
+	// Statuses must not be judged until the whole subtree is relocated. The account where both chains meet keeps its
+	// totals, but the teams under it might have changed.
+	for _, ancestor := range append(affected, oldAncestor, newAncestor) {
+		if ancestor == "" {
+			continue
+		}
+		if err = bu.update(ancestor, true, func(_ *types.Info) error { return nil }); err != nil {
+			panic(errors.Wrap(err, "cannot check ancestor's status"))
+		}
+	}
+
 	if err = bu.commit(); err != nil {
 		panic(errors.Wrap(err, "cannot commit changes"))
 	}
-- 
2.43.0


From 02ae6b0368f10ae10d5a13fe296ef887eebb12eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:02 +0000
Subject: [PATCH 04/33] fix: check the status of the ancestor whose teams reach
 the tenth level

---
 x/referral/keeper/keeper.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index dba7bf3..12c23ac 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -355,7 +355,8 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 	//   * extend leg (as a distance shrinks, new nodes might appear in 10-lvl-radius)
 	// Parent (k = 1) only:
 	//   * new referrals
-	for k, anc := 1, parent; k <= 10 && anc != ""; k++ {
+	anc := parent
+	for k := 1; k <= 10 && anc != ""; k++ {
 		err = bu.update(anc, true, func(value *types.Info) error {
 			bu.addCallback(StakeChangedCallback, anc)
 			anc = value.Referrer
@@ -377,6 +378,12 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			return err
 		}
 	}
+	if anc != "" {
+		// Teams are counted ten levels down from a direct referral, so the next ancestor is to be checked as well
+		if err = bu.update(anc, true, func(_ *types.Info) error { return nil }); err != nil {
+			return err
+		}
+	}
 
 	util.EmitEvent(ctx,
 		&types.EventCompression{
@@ -627,6 +634,12 @@ func (k Keeper) SetActive(ctx sdk.Context, acc string, value, checkAncestorsForS
 			return errors.Wrapf(err, "cannot update ancestor's referral count (#%d)", i)
 		}
 	}
+	if ancestor != "" {
+		// Teams are counted ten levels down from a direct referral, so the next ancestor is to be checked as well
+		if err = bu.update(ancestor, checkAncestorsForStatusUpdate, func(_ *types.Info) error { return nil }); err != nil {
+			return errors.Wrap(err, "cannot check ancestor's status")
+		}
+	}
 
 	if parent != "" && !value && !valueIsAlreadySet {
 		k.ScheduleCompression(ctx, acc, ctx.BlockTime().Add(k.CompressionPeriod(ctx)))
-- 
2.43.0


From 42e94a614b7cd1ee48763f61b5f77437329c9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 05/33] fix: cancel the pending status downgrade of a
 compressed account

---
 x/referral/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 12c23ac..ef52ad6 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -327,6 +327,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 		value.CompressionAt = nil
 		bu.addCallback(StakeChangedCallback, acc)
 		k.setStatus(ctx, value, types.STATUS_LUCKY, acc)
+		value.StatusDowngradeAt = nil
 		bu.addCallback(StatusUpdatedCallback, acc)
 
 		if delegated[0].Int64() <= k.bankKeeper.GetParams(ctx).DustDelegation {
-- 
2.43.0


From 820baa980df34e2470570ad5aa8a33ee5a5b6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 06/33] fix: refuse to move accounts that are not in the
 referral or under such ones

---
 x/referral/keeper/keeper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index ef52ad6..e77f003 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -1278,6 +1278,12 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 	if subject == newParent {
 		return errors.New("subject cannot be their own referral")
 	}
+	if !k.exists(ctx, subject) {
+		return errors.New("subject account data missing")
+	}
+	if !k.exists(ctx, newParent) {
+		return errors.New("destination account data missing")
+	}
 	if r, err = k.Get(ctx, subject); err != nil {
 		return errors.Wrap(err, "subject account data missing")
 	}
-- 
2.43.0


From 410824c42057a0ae76476d7d2c255be16f47b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 07/33] fix: cancel the timeout of a resolved referrer change
 request

---
 x/referral/keeper/keeper.go          | 16 ++++++++++++++++
 x/referral/types/expected_keepers.go |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index e77f003..133246f 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -774,6 +774,10 @@ func (k Keeper) CancelTransition(ctx sdk.Context, subject string, timeout bool)
 		panic(errors.Wrap(err, "cannot write to KVStore"))
 	}
 
+	if !timeout {
+		k.unscheduleTransitionTimeout(ctx, subject)
+	}
+
 	var reason types.EventTransitionDeclined_Reason
 	if timeout {
 		reason = types.REASON_TIMEOUT
@@ -909,6 +913,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	if err = bu.commit(); err != nil {
 		panic(errors.Wrap(err, "cannot commit changes"))
 	}
+	k.unscheduleTransitionTimeout(ctx, subject)
 
 	util.EmitEvent(ctx,
 		&types.EventTransitionPerformed{
@@ -920,6 +925,17 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	return nil
 }
 
+// unscheduleTransitionTimeout cancels the timeout of a resolved transition, so that it won't affect the following ones.
+func (k Keeper) unscheduleTransitionTimeout(ctx sdk.Context, subject string) {
+	since := ctx.BlockTime()
+	to := since.Add(k.scheduleKeeper.OneDay(ctx) + time.Nanosecond)
+	for _, task := range k.scheduleKeeper.GetTasks(ctx, since, to) {
+		if task.HandlerName == TransitionTimeoutHookName && string(task.Data) == subject {
+			k.scheduleKeeper.Delete(ctx, task.Time, TransitionTimeoutHookName, task.Data)
+		}
+	}
+}
+
 // GetPendingTransition returns a new referral that the specified account is requested to be moved under. It returns
 // (nil, nil) if the account is OK, but a transition is not requested.
 func (k Keeper) GetPendingTransition(ctx sdk.Context, acc string) (string, error) {
diff --git a/x/referral/types/expected_keepers.go b/x/referral/types/expected_keepers.go
index 6c4ed62..1cabb83 100644
--- a/x/referral/types/expected_keepers.go
+++ b/x/referral/types/expected_keepers.go
@@ -8,6 +8,7 @@ import (
 	params "github.com/cosmos/cosmos-sdk/x/params/types"
 
 	"github.com/arterynetwork/artr/x/bank"
+	schedule "github.com/arterynetwork/artr/x/schedule/types"
 )
 
 // ParamSubspace defines the expected Subspace interface
@@ -25,6 +26,7 @@ type AccountKeeper interface {
 type ScheduleKeeper interface {
 	ScheduleTask(ctx sdk.Context, time time.Time, event string, data []byte)
 	Delete(ctx sdk.Context, time time.Time, event string, payload []byte)
+	GetTasks(ctx sdk.Context, since, to time.Time) []schedule.Task
 
 	OneDay(ctx sdk.Context) time.Duration
 	OneWeek(ctx sdk.Context) time.Duration
-- 
2.43.0


From 395de7217dbbff035014958e819d3d88a4e27ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 08/33] fix: store nicknames as trimmed as they are looked up

---
 x/profile/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/profile/keeper/keeper.go b/x/profile/keeper/keeper.go
index e6101f0..374ee9d 100644
--- a/x/profile/keeper/keeper.go
+++ b/x/profile/keeper/keeper.go
@@ -122,6 +122,7 @@ func (k Keeper) SetProfile(ctx sdk.Context, addr sdk.AccAddress, profile types.P
 	oldProfile := k.GetProfile(ctx, addr)
 
 	nickname := strings.TrimSpace(profile.Nickname)
+	profile.Nickname = nickname
 	if err := k.ValidateProfileNickname(ctx, addr, nickname); err != nil {
 		return errors.Wrap(err, "invalid nickname")
 	}
-- 
2.43.0


From 5daadc3bbd33d842ea49cc1a0e3147339bc0626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 09/33] fix: do not accept paid subscriptions and quotas in the
 profile of a new account

---
 x/profile/keeper/msg_server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/msg_server.go b/x/profile/keeper/msg_server.go
index 0964e9f..b4df042 100644
--- a/x/profile/keeper/msg_server.go
+++ b/x/profile/keeper/msg_server.go
@@ -41,7 +41,17 @@ func (s MsgServer) CreateAccount(ctx context.Context, msg *types.MsgCreateAccoun
 	}
 
 	if msg.WithProfile() {
-		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), *msg.Profile); err != nil {
+		// Only what a user can set by themselves is accepted, the rest must be paid for.
+		profile := types.Profile{
+			AutoPay:        msg.Profile.AutoPay,
+			Noding:         msg.Profile.Noding,
+			Storage:        msg.Profile.Storage,
+			Validator:      msg.Profile.Validator,
+			Vpn:            msg.Profile.Vpn,
+			Nickname:       msg.Profile.Nickname,
+			AutoPayImExtra: msg.Profile.AutoPayImExtra,
+		}
+		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), profile); err != nil {
 			return nil, errors.Wrap(err, "cannot create an account with profile")
 		}
 	} else {
-- 
2.43.0


From e09a406f07df6272c28b158e27c948792f44f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 10/33] fix: do not overflow when computing the price of
 storage in a tariff

---
 x/profile/keeper/subscription.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 3bfc006..1283dfd 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -52,8 +52,9 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 	}
 
 	storageFeeFrac := p.TokenRate.
-		MulInt64((int64(storageB) - int64(p.BaseStorageGb)*util.GBSize) * int64(p.StorageGbPrice)).
-		DivInt64(util.GBSize).Reduce()
+		MulInt64(int64(storageB) - int64(p.BaseStorageGb)*util.GBSize).
+		DivInt64(util.GBSize).Reduce().
+		MulInt64(int64(p.StorageGbPrice)).Reduce()
 	if profile.IsActive(ctx) {
 		if storageB != profile.StorageLimit {
 			time := k.monthPart(ctx, *profile.ActiveUntil)
-- 
2.43.0


From e30b942306ed7f7c7534c99d9ff114a02838f9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 11/33] fix: set the storage limit to what is paid for by an
 inactive account

---
 x/profile/keeper/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 1283dfd..1d5fb1b 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -68,9 +68,9 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 			if storageFeeFrac.IsNegative() {
 				storageFeeFrac = util.FractionZero()
 			}
-			profile.StorageLimit = storageB
 		}
 	}
+	profile.StorageLimit = storageB
 
 	tariffTotal = tariffTotal.Add(sdk.NewIntFromBigInt(storageFeeFrac.BigInt()))
 	// NOTE: `tariffTotal` cannot be just assigned to `total` here, 'cause Int is a struct over a pointer.
-- 
2.43.0


From 647c11a030bb1e88e1f557dd59f0fb535ede3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 12/33] fix: do not charge the fee of a messenger space renewal
 that fails

---
 x/profile/keeper/subscription.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 1d5fb1b..6ce5b03 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -443,8 +443,13 @@ func (k Keeper) monthlyImRoutine(ctx sdk.Context, addr sdk.AccAddress) error {
 	var err error
 
 	if profile.AutoPayImExtra {
-		err = k.prolongImExtra(ctx, addr, profile)
-		if err != nil {
+		// A failed attempt must not leave a half of the payment behind
+		cacheCtx, write := ctx.CacheContext()
+		err = k.prolongImExtra(cacheCtx, addr, profile)
+		if err == nil {
+			write()
+			ctx.EventManager().EmitEvents(cacheCtx.EventManager().Events())
+		} else {
 			k.Logger(ctx).Error("IM store autopay failed", "addr", addr.String(), "err", err)
 		}
 	} else {
-- 
2.43.0


From 5ceb2efaa051a74653f134b7f9f2b5d01e80ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 13/33] fix: cancel the overdue renewal when messenger space is
 bought anew

---
 x/profile/keeper/subscription.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 6ce5b03..53bd164 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -230,6 +230,10 @@ func (k Keeper) BuyImStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint3
 	} else {
 		profile.ImLimitExtra = uint64(extraGb)
 
+		if profile.ExtraImUntil != nil {
+			// The previous term is over, but its task may be yet to come
+			k.scheduleKeeper.Delete(ctx, *profile.ExtraImUntil, types.RefreshImHookName, addr.Bytes())
+		}
 		until := ctx.BlockTime().Add(k.scheduleKeeper.OneMonth(ctx))
 		profile.ExtraImUntil = &until
 		k.scheduleRenewIm(ctx, addr, until)
-- 
2.43.0


From 60b2f5f37d3550b1e7cc93246d775e35c7846e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:59 +0000
Subject: [PATCH 14/33] fix: never name a consensus key twice in validator
 updates

---
 x/noding/keeper/keeper.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 0b05ec4..e58f9ab 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -505,8 +505,11 @@ func (k Keeper) GatherValidatorUpdates(ctx sdk.Context) ([]abci.ValidatorUpdate,
 	for _, x := range result {
 		found := false
 		for j, y := range unique {
-			if x.PubKey == y.PubKey {
-				unique[j] = x
+			if x.PubKey.Equal(y.PubKey) {
+				// The key is removed only if nobody uses it now
+				if x.Power != 0 {
+					unique[j] = x
+				}
 				found = true
 				break
 			}
-- 
2.43.0


From 4c86be3a2f8595fc47350e597c77d6d709d4d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 15/33] fix: do not let a validator out of jail while its key
 is used by another one

---
 x/noding/keeper/keeper.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index e58f9ab..80f2e87 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -729,6 +729,16 @@ func (k Keeper) Unjail(ctx sdk.Context, acc sdk.AccAddress) error {
 		return err
 	}
 	if q {
+		if data.Status {
+			// The key might have been taken by somebody else in the meantime
+			consAddr := consAddressFromCryptoBubKey(cryptoPubKeyFromBech32(data.PubKey))
+			if holder, found, active, err := k.GetValidatorByConsAddr(ctx, consAddr); err != nil {
+				return err
+			} else if found && active && !holder.Equals(acc) {
+				return types.ErrPubkeyBusy
+			}
+			k.addNodeOperatorToIndex(ctx, consAddr, acc)
+		}
 		data.UpdateScore(delegation.Int64())
 	} else {
 		k.Logger(ctx).Info("banishing from validators", "acc", acc, "reason", reason)
-- 
2.43.0


From 34bc1d3318887382ea061519c605edfe693a9a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:05 +0000
Subject: [PATCH 16/33] fix: save that a validator whose stake fell below the
 minimum is switched off

---
 x/noding/keeper/keeper.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 80f2e87..b71c85c 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -320,7 +320,6 @@ func (k Keeper) OnStakeChanged(ctx sdk.Context, acc sdk.AccAddress) error {
 				Reason:  reason,
 			},
 		)
-		return nil
 	}
 
 	if changed {
-- 
2.43.0


From 5d08fe00ddc27495b04b0282fa8eec3f1f937a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:38 +0000
Subject: [PATCH 17/33] fix: count votes and evidence of known validators even
 if another one is unknown

---
 x/noding/abci.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/x/noding/abci.go b/x/noding/abci.go
index 634be65..f1921ba 100644
--- a/x/noding/abci.go
+++ b/x/noding/abci.go
@@ -56,26 +56,29 @@ func findValidatorAccAddress(ctx sdk.Context, k Keeper, validator abci.Validator
 }
 
 // punishWrongdoers - records infractions to the store and ban validators if needed
-func punishWrongdoers(ctx sdk.Context, evz []abci.Evidence, k Keeper) error {
+func punishWrongdoers(ctx sdk.Context, evz []abci.Evidence, k Keeper) (lastErr error) {
 	for _, ev := range evz {
+		// A failure must not affect the others
 		accAddr, err := findValidatorAccAddress(ctx, k, ev.Validator)
 		if err != nil {
-			return err
+			lastErr = err
+			continue
 		}
-		err = k.MarkByzantine(ctx, accAddr, ev)
-		if err != nil {
-			return err
+		if err = k.MarkByzantine(ctx, accAddr, ev); err != nil {
+			lastErr = err
 		}
 	}
-	return nil
+	return lastErr
 }
 
 // markStrokesAndTicks - increments signed/missed block counter and jail validators if needed
-func markStrokesAndTicks(ctx sdk.Context, votes []abci.VoteInfo, k Keeper) error {
+func markStrokesAndTicks(ctx sdk.Context, votes []abci.VoteInfo, k Keeper) (lastErr error) {
 	for _, vote := range votes {
+		// A failure must not affect the others
 		accAddr, err := findValidatorAccAddress(ctx, k, vote.Validator)
 		if err != nil {
-			return err
+			lastErr = err
+			continue
 		}
 		if vote.SignedLastBlock {
 			err = k.MarkTick(ctx, accAddr)
@@ -83,10 +86,10 @@ func markStrokesAndTicks(ctx sdk.Context, votes []abci.VoteInfo, k Keeper) error
 			err = k.MarkStroke(ctx, accAddr)
 		}
 		if err != nil {
-			return sdkerrors.Wrap(err, "cannot count a block for account "+accAddr.String())
+			lastErr = sdkerrors.Wrap(err, "cannot count a block for account "+accAddr.String())
 		}
 	}
-	return nil
+	return lastErr
 }
 
 func payProposerReward(ctx sdk.Context, consAddr sdk.ConsAddress, k Keeper) error {
-- 
2.43.0


From 1646c5b950542150733afd3b7e7b3bc7c0bc136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 18/33] fix: tell validators about stake changes when accounts
 are moved, banished or come back

---
 x/referral/keeper/keeper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 133246f..b726777 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -908,6 +908,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		if err = bu.update(ancestor, true, func(_ *types.Info) error { return nil }); err != nil {
 			panic(errors.Wrap(err, "cannot check ancestor's status"))
 		}
+		bu.addCallback(StakeChangedCallback, ancestor)
 	}
 
 	if err = bu.commit(); err != nil {
@@ -980,6 +981,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 		value.CompressionAt = nil
 		value.StatusDowngradeAt = nil
 		value.BanishmentAt = nil
+		bu.addCallback(StatusUpdatedCallback, acc)
 
 		return nil
 	}); err != nil {
@@ -998,6 +1000,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 			util.RemoveStringFast(&value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Sub(c)
 			value.Delegated[1] = value.Delegated[1].Sub(d)
+			bu.addCallback(StakeChangedCallback, parent)
 
 			return nil
 		}); err != nil {
@@ -1018,6 +1021,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 
 				value.Coins[lvl] = value.Coins[lvl].Sub(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Sub(d)
+				bu.addCallback(StakeChangedCallback, parent)
 
 				return nil
 			}); err != nil {
@@ -1082,6 +1086,7 @@ func (k Keeper) ComeBack(ctx sdk.Context, acc string) error {
 			value.Referrals = append(value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Add(c)
 			value.Delegated[1] = value.Delegated[1].Add(d)
+			bu.addCallback(StakeChangedCallback, parent)
 
 			return nil
 		}); err != nil {
@@ -1102,6 +1107,7 @@ func (k Keeper) ComeBack(ctx sdk.Context, acc string) error {
 
 				value.Coins[lvl] = value.Coins[lvl].Add(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Add(d)
+				bu.addCallback(StakeChangedCallback, parent)
 
 				return nil
 			}); err != nil {
-- 
2.43.0


From affee7fad67b304e5b4e68ce74c5ba7eb0272afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 19/33] fix: do not add a governor or an earning signer twice

---
 x/earning/keeper/params.go    | 8 +++++++-
 x/voting/keeper/government.go | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/params.go b/x/earning/keeper/params.go
index 34629c6..ce9742d 100644
--- a/x/earning/keeper/params.go
+++ b/x/earning/keeper/params.go
@@ -20,7 +20,13 @@ func (k Keeper) SetParams(ctx sdk.Context, params types.Params) {
 
 func (k Keeper) AddSigner(ctx sdk.Context, address sdk.AccAddress) {
 	p := k.GetParams(ctx)
-	p.Signers = append(p.Signers, address.String())
+	bech32 := address.String()
+	for _, signer := range p.Signers {
+		if signer == bech32 {
+			return
+		}
+	}
+	p.Signers = append(p.Signers, bech32)
 	k.SetParams(ctx, p)
 }
 
diff --git a/x/voting/keeper/government.go b/x/voting/keeper/government.go
index 3b7629d..dd9f76b 100644
--- a/x/voting/keeper/government.go
+++ b/x/voting/keeper/government.go
@@ -38,6 +38,9 @@ func (k Keeper) RemoveGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 
 func (k Keeper) AddGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 	govs := k.GetGovernment(ctx)
+	if govs.Contains(gov) {
+		return
+	}
 	govs.Append(gov)
 	k.SetGovernment(ctx, govs)
 }
-- 
2.43.0


From 157f9768b74884cb2fff0f4f476724e1517fc9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 20/33] fix: keep every proposal finished in the same block in
 the history

---
 x/voting/keeper/keeper.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 4fcb1da..6da56ec 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -166,25 +166,28 @@ func (k Keeper) SaveProposalToHistory(ctx sdk.Context, store sdk.KVStore) {
 		Finished:   ctx.BlockHeight(),
 	}
 
-	historyBz, err := proto.Marshal(&history)
-	if err != nil {
-		panic(err)
-	}
-	height := make([]byte, 8)
-	binary.BigEndian.PutUint64(height, uint64(ctx.BlockHeight()))
-	key := append(types.KeyHistoryPrefix, height...)
-	store.Set(key, historyBz)
+	setHistoryRecord(store, history)
 }
 
 func (k Keeper) AddProposalHistoryRecord(ctx sdk.Context, record types.ProposalHistoryRecord) {
-	store := ctx.KVStore(k.storeKey)
+	setHistoryRecord(ctx.KVStore(k.storeKey), record)
+}
+
+// setHistoryRecord stores a record by the block it's finished at. There may be several ones per block.
+func setHistoryRecord(store sdk.KVStore, record types.ProposalHistoryRecord) {
 	historyBz, err := proto.Marshal(&record)
 	if err != nil {
 		panic(err)
 	}
 	height := make([]byte, 8)
 	binary.BigEndian.PutUint64(height, uint64(record.Finished))
-	key := append(types.KeyHistoryPrefix, height...)
+	blockKey := append(types.KeyHistoryPrefix, height...)
+	key := blockKey
+	for i := uint32(1); store.Has(key); i++ {
+		idx := make([]byte, 4)
+		binary.BigEndian.PutUint32(idx, i)
+		key = append(append([]byte(nil), blockKey...), idx...)
+	}
 	store.Set(key, historyBz)
 }
 
-- 
2.43.0


From 8a05d62c70b77bd994d96f8a790f942a1817f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 21/33] fix: do not overwrite stored poll counters in place

---
 x/voting/keeper/keeper.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 6da56ec..6708c7f 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -610,16 +610,12 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 	}
 	ansStore.Set(key, ans)
 
-	var (
-		bz    []byte
-		value uint64
-	)
-	if bz = store.Get(countKey); bz != nil {
+	var value uint64
+	if bz := store.Get(countKey); bz != nil {
 		value = binary.BigEndian.Uint64(bz)
-	} else {
-		bz = make([]byte, 8)
 	}
 	value += 1
+	bz := make([]byte, 8) // never write to what the store has returned
 	binary.BigEndian.PutUint64(bz, value)
 	store.Set(countKey, bz)
 
-- 
2.43.0


From a80cfcdc29727a0efe35046ea63536e6f061853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 22/33] fix: an accepted proposal with an inapplicable value
 must not break voting

---
 x/earning/keeper/params.go |  4 ++++
 x/profile/keeper/params.go | 16 ++++++++++++++++
 x/voting/keeper/keeper.go  | 28 +++++++++++++++++++++-------
 3 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/x/earning/keeper/params.go b/x/earning/keeper/params.go
index ce9742d..b7e4130 100644
--- a/x/earning/keeper/params.go
+++ b/x/earning/keeper/params.go
@@ -36,6 +36,10 @@ func (k Keeper) RemoveSigner(ctx sdk.Context, address sdk.AccAddress) {
 	for i, signer := range p.Signers {
 		if signer == bech32 {
 			last := len(p.Signers) - 1
+			if last == 0 {
+				k.Logger(ctx).Error("the last signer cannot be removed")
+				return
+			}
 			if i != last {
 				p.Signers[i] = p.Signers[last]
 			}
diff --git a/x/profile/keeper/params.go b/x/profile/keeper/params.go
index 78db4a0..3b0daa8 100644
--- a/x/profile/keeper/params.go
+++ b/x/profile/keeper/params.go
@@ -39,6 +39,10 @@ func (k Keeper) AddFreeCreator(ctx sdk.Context, creator sdk.AccAddress) {
 func (k Keeper) RemoveFreeCreator(ctx sdk.Context, creator sdk.AccAddress) {
 	params := k.GetParams(ctx)
 	params.Creators = remove(params.Creators, creator.String())
+	if len(params.Creators) == 0 {
+		k.Logger(ctx).Error("the last account of a list cannot be removed")
+		return
+	}
 	k.SetParams(ctx, params)
 }
 
@@ -51,6 +55,10 @@ func (k Keeper) AddTokenRateSigner(ctx sdk.Context, signer sdk.AccAddress) {
 func (k Keeper) RemoveTokenRateSigner(ctx sdk.Context, signer sdk.AccAddress) {
 	params := k.GetParams(ctx)
 	params.TokenRateSigners = remove(params.TokenRateSigners, signer.String())
+	if len(params.TokenRateSigners) == 0 {
+		k.Logger(ctx).Error("the last account of a list cannot be removed")
+		return
+	}
 	k.SetParams(ctx, params)
 }
 
@@ -63,6 +71,10 @@ func (k Keeper) AddVpnCurrentSigner(ctx sdk.Context, signer sdk.AccAddress) {
 func (k Keeper) RemoveVpnCurrentSigner(ctx sdk.Context, signer sdk.AccAddress) {
 	p := k.GetParams(ctx)
 	p.VpnSigners = remove(p.VpnSigners, signer.String())
+	if len(p.VpnSigners) == 0 {
+		k.Logger(ctx).Error("the last account of a list cannot be removed")
+		return
+	}
 	k.SetParams(ctx, p)
 }
 
@@ -75,6 +87,10 @@ func (k Keeper) AddStorageCurrentSigner(ctx sdk.Context, signer sdk.AccAddress)
 func (k Keeper) RemoveStorageCurrentSigner(ctx sdk.Context, signer sdk.AccAddress) {
 	p := k.GetParams(ctx)
 	p.StorageSigners = remove(p.StorageSigners, signer.String())
+	if len(p.StorageSigners) == 0 {
+		k.Logger(ctx).Error("the last account of a list cannot be removed")
+		return
+	}
 	k.SetParams(ctx, p)
 }
 
diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 6708c7f..084d030 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -233,7 +233,9 @@ func (k Keeper) EndProposal(ctx sdk.Context, proposal types.Proposal, agreed boo
 		case types.PROPOSAL_TYPE_ENTER_PRICE:
 			p := k.profileKeeper.GetParams(ctx)
 			p.SubscriptionPrice = proposal.GetPrice().Price
-			k.profileKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.profileKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_DELEGATION_AWARD:
 			err = errors.New("parameter is deprecated")
 		case types.PROPOSAL_TYPE_DELEGATION_NETWORK_AWARD:
@@ -247,11 +249,15 @@ func (k Keeper) EndProposal(ctx sdk.Context, proposal types.Proposal, agreed boo
 		case types.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE:
 			p := k.profileKeeper.GetParams(ctx)
 			p.VpnGbPrice = proposal.GetPrice().Price
-			k.profileKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.profileKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE:
 			p := k.profileKeeper.GetParams(ctx)
 			p.StorageGbPrice = proposal.GetPrice().Price
-			k.profileKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.profileKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_FREE_CREATOR_ADD:
 			k.profileKeeper.AddFreeCreator(ctx, proposal.GetAddress().GetAddress())
 		case types.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
@@ -295,15 +301,21 @@ func (k Keeper) EndProposal(ctx sdk.Context, proposal types.Proposal, agreed boo
 		case types.PROPOSAL_TYPE_MIN_SEND:
 			p := k.bankKeeper.GetParams(ctx)
 			p.MinSend = proposal.GetMinAmount().MinAmount
-			k.bankKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.bankKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_MIN_DELEGATE:
 			p := k.delegatingKeeper.GetParams(ctx)
 			p.MinDelegate = proposal.GetMinAmount().MinAmount
-			k.delegatingKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.delegatingKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_MAX_VALIDATORS:
 			p := k.nodingKeeper.GetParams(ctx)
 			p.MaxValidators = proposal.GetCount().Count
-			k.nodingKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.nodingKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_GENERAL_AMNESTY:
 			k.nodingKeeper.GeneralAmnesty(ctx)
 		case types.PROPOSAL_TYPE_LUCKY_VALIDATORS:
@@ -325,7 +337,9 @@ func (k Keeper) EndProposal(ctx sdk.Context, proposal types.Proposal, agreed boo
 		case types.PROPOSAL_TYPE_DUST_DELEGATION:
 			p := k.bankKeeper.GetParams(ctx)
 			p.DustDelegation = proposal.GetMinAmount().MinAmount
-			k.bankKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.bankKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_VOTING_POWER:
 			p := k.nodingKeeper.GetParams(ctx)
 			p.VotingPower = *proposal.GetVotingPower()
-- 
2.43.0


From 0a96c2a7ca409129f6331bcfa64ca29aa863a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:43 +0000
Subject: [PATCH 23/33] fix: only the configured signers may set earners

---
 x/earning/keeper/msg_server.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/msg_server.go b/x/earning/keeper/msg_server.go
index 0057484..c6f51ea 100644
--- a/x/earning/keeper/msg_server.go
+++ b/x/earning/keeper/msg_server.go
@@ -7,6 +7,7 @@ import (
 	"google.golang.org/grpc/status"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 
 	"github.com/arterynetwork/artr/x/earning/types"
 )
@@ -16,7 +17,7 @@ type MsgServer Keeper
 var _ types.MsgServer = MsgServer{}
 
 func (s MsgServer) Set(ctx context.Context, msg *types.MsgSet) (resp *types.MsgSetResponse, err error) {
-	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}})
+	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}, Signer: msg.Signer})
 	if err != nil {
 		return nil, err
 	}
@@ -28,6 +29,17 @@ func (s MsgServer) SetMultiple(ctx context.Context, msg *types.MsgSetMultiple) (
 	k := Keeper(s)
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
+	authorized := false
+	for _, signer := range k.GetParams(sdkCtx).Signers {
+		if msg.Signer == signer {
+			authorized = true
+			break
+		}
+	}
+	if !authorized {
+		return nil, sdkerrors.Wrap(sdkerrors.ErrUnauthorized, msg.Signer)
+	}
+
 	for _, earner := range msg.Earners {
 		var acc sdk.AccAddress
 		acc, err = sdk.AccAddressFromBech32(earner.Account)
-- 
2.43.0


From 790b51adc078ad79cc3d213227f78ffa1b82ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:41 +0000
Subject: [PATCH 24/33] fix: read fractions from YAML

---
 util/fraction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/fraction.go b/util/fraction.go
index 5b0dce6..195a69b 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -59,7 +59,7 @@ func (x Fraction) MarshalYAML() (interface{}, error) {
 }
 
 func (x *Fraction) UnmarshalYAML(value *yaml.Node) error {
-	if value.Kind == yaml.ScalarNode && value.ShortTag() == "string" {
+	if value.Kind == yaml.ScalarNode && value.ShortTag() == "!!str" {
 		return x.unmarshalText(value.Value)
 	}
 	return errors.Errorf("string expected, %s got", value.ShortTag())
-- 
2.43.0


From 37dc8b51afaff4fe13e8bcbcd64a34039bc0b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:41 +0000
Subject: [PATCH 25/33] fix: refuse fractions with a zero denominator

---
 util/fraction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/fraction.go b/util/fraction.go
index 195a69b..ce3a26c 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -122,6 +122,9 @@ func ParseFraction(s string) (Fraction, error) {
 			if err != nil {
 				return Fraction{}, err
 			}
+			if denom.Sign() == 0 {
+				return Fraction{}, fmt.Errorf("invalid fraction, zero denominator: " + s)
+			}
 		} else {
 			denom = big.NewInt(1)
 		}
-- 
2.43.0


From 2984266c3fd6c56255f3499afd867f4d4be5db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 26/33] fix: read fractions with leading zeros as decimals

---
 util/fraction.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/util/fraction.go b/util/fraction.go
index ce3a26c..e318c15 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -99,7 +99,6 @@ func ParseFraction(s string) (Fraction, error) {
 	var (
 		num   = &big.Int{}
 		denom = &big.Int{}
-		err   error
 	)
 
 	if s == "" || s == "nil" {
@@ -118,9 +117,9 @@ func ParseFraction(s string) (Fraction, error) {
 			return Fraction{}, fmt.Errorf("invalid fraction format, 'x%' or 'x/y' expected: " + s)
 		}
 		if len(match) > 2 && len(match[2]) > 0 {
-			err = denom.UnmarshalText([]byte(match[2]))
-			if err != nil {
-				return Fraction{}, err
+			// UnmarshalText would treat a leading zero as an octal prefix
+			if _, ok := denom.SetString(match[2], 10); !ok {
+				return Fraction{}, fmt.Errorf("invalid denominator: " + s)
 			}
 			if denom.Sign() == 0 {
 				return Fraction{}, fmt.Errorf("invalid fraction, zero denominator: " + s)
@@ -130,9 +129,8 @@ func ParseFraction(s string) (Fraction, error) {
 		}
 	}
 
-	err = num.UnmarshalText([]byte(match[1]))
-	if err != nil {
-		return Fraction{}, err
+	if _, ok := num.SetString(match[1], 10); !ok {
+		return Fraction{}, fmt.Errorf("invalid numerator: " + s)
 	}
 
 	return Fraction{num, denom}, nil
-- 
2.43.0


From 82d3e1d4490d3359a6ad151877be1a8435908723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 27/33] fix: count delegated tokens of the network down to ten
 levels by default

The query's documented default left the depth at zero, so nothing but the
account's own tokens was ever counted.
---
 x/referral/keeper/keeper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index b726777..66d308e 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -422,6 +422,9 @@ func (k Keeper) GetCoinsInNetwork(ctx sdk.Context, acc string, maxDepth int) (sd
 // (at levels that are open according the person's current status, but no deeper than `maxDepth` levels down).
 // Own coins inclusive.
 func (k Keeper) GetDelegatedInNetwork(ctx sdk.Context, acc string, maxDepth int) (sdk.Int, error) {
+	if maxDepth <= 0 {
+		maxDepth = 10
+	}
 	data, err := k.Get(ctx, acc)
 	if err != nil {
 		return sdk.Int{}, err
-- 
2.43.0


From 4dfeda904daef817d957725d5d03176c6d05c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 28/33] fix: list earners at high page numbers without overflow

---
 x/earning/keeper/query_server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/earning/keeper/query_server.go b/x/earning/keeper/query_server.go
index d42f5b5..240fd9f 100644
--- a/x/earning/keeper/query_server.go
+++ b/x/earning/keeper/query_server.go
@@ -94,10 +94,10 @@ func (s QueryServer) List(ctx context.Context, req *types.ListRequest) (resp *ty
 	defer iterator.Close()
 
 	earners := make([]types.Earner, 0)
-	start := req.Limit * (req.Page - 1)
-	end := req.Limit * req.Page
+	start := int64(req.Limit) * (int64(req.Page) - 1)
+	end := int64(req.Limit) * int64(req.Page)
 
-	for current := int32(0); iterator.Valid() && (current < end); iterator.Next() {
+	for current := int64(0); iterator.Valid() && (current < end); iterator.Next() {
 		if current < start {
 			current++
 			continue
-- 
2.43.0


From 0a8ba540a7dc9630f7f9ef734ea8b7c5a1b82b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 29/33] fix: page through the proposal history without overflow

---
 x/voting/keeper/keeper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 084d030..05f2b62 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -432,10 +432,10 @@ func (k Keeper) GetHistory(ctx sdk.Context, limit int32, page int32) []types.Pro
 	defer iterator.Close()
 
 	records := make([]types.ProposalHistoryRecord, 0)
-	start := limit * (page - 1)
-	end := limit * page
+	start := int64(limit) * (int64(page) - 1)
+	end := int64(limit) * int64(page)
 
-	for current := int32(0); iterator.Valid() && (current < end); iterator.Next() {
+	for current := int64(0); iterator.Valid() && (current < end); iterator.Next() {
 		if current < start {
 			current++
 			continue
-- 
2.43.0


From d94f24f5358e93dff4bf8a092b83d1f653b07894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 30/33] fix: do not reserve memory for as many polls as a query
 asks for

---
 x/voting/keeper/keeper.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 05f2b62..9832715 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -706,7 +706,6 @@ func (k Keeper) GetPollHistory(ctx sdk.Context, limit int32, page int32) []types
 	)
 	if limit > 0 {
 		it = sdk.KVStorePrefixIteratorPaginated(store, types.KeyPollHistory, uint(page), uint(limit))
-		res = make([]types.PollHistoryItem, 0, limit)
 	} else {
 		it = sdk.KVStorePrefixIterator(store, types.KeyPollHistory)
 	}
-- 
2.43.0


From b1efa2f1f9df66bb5b1b639b2817c9472ab40a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 31/33] fix: export pending referrer changes of banished
 accounts

---
 x/referral/keeper/genesis.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/x/referral/keeper/genesis.go b/x/referral/keeper/genesis.go
index 3e0f0b3..8d627ef 100644
--- a/x/referral/keeper/genesis.go
+++ b/x/referral/keeper/genesis.go
@@ -31,6 +31,18 @@ func (k Keeper) ExportToGenesis(ctx sdk.Context) (*types.GenesisState, error) {
 		return nil, err
 	}
 
+	for _, ba := range banished {
+		data, err = k.Get(ctx, ba.Account)
+		if err != nil {
+			return nil, err
+		}
+		if data.Transition != "" {
+			transitions = append(transitions, types.Transition{
+				Subject:     ba.Account,
+				Destination: data.Transition,
+			})
+		}
+	}
 	for _, addr := range topLevel {
 		data, err = k.Get(ctx, addr)
 		if err != nil {
-- 
2.43.0


From e9004db26ed433372e849f842fb85ebc5a6aa374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 32/33] fix: import poll answers without asking whether they
 may still be given

A respondent may have ceased to meet the poll's requirements since, which
made the exported genesis impossible to start from.
---
 x/voting/keeper/keeper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 9832715..4be7f35 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -607,6 +607,11 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 		}
 	}
 
+	return k.saveAnswer(ctx, acc, yes)
+}
+
+// saveAnswer adds an answer to the current poll, no matter if the respondent is (still) allowed to give it.
+func (k Keeper) saveAnswer(ctx sdk.Context, acc string, yes bool) error {
 	store := prefix.NewStore(ctx.KVStore(k.storeKey), types.KeyPollPrefix)
 	ansStore := prefix.NewStore(store, types.KeyPollAnswers)
 	key := []byte(acc)
@@ -752,7 +757,7 @@ func (k Keeper) LoadPolls(ctx sdk.Context, state types.GenesisState) {
 	if state.CurrentPoll != nil {
 		store.Set(types.KeyPollCurrent, k.cdc.MustMarshalBinaryBare(state.CurrentPoll))
 		for _, ans := range state.PollAnswers {
-			if err := k.Answer(ctx, ans.Acc, ans.Ans); err != nil {
+			if err := k.saveAnswer(ctx, ans.Acc, ans.Ans); err != nil {
 				panic(err)
 			}
 		}
-- 
2.43.0


From 67b1db85aac18704df3b715d53e196044c73f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 33/33] fix: accept empty lists of votes in a genesis without a
 proposal

---
 x/voting/types/genesis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/voting/types/genesis.go b/x/voting/types/genesis.go
index c6bd2e7..7d0997e 100644
--- a/x/voting/types/genesis.go
+++ b/x/voting/types/genesis.go
@@ -46,10 +46,10 @@ func ValidateGenesis(data GenesisState) error {
 		if data.StartBlock != 0 {
 			return errors.New("invalid start_block: must be zero unless current_proposal is set")
 		}
-		if data.Agreed != nil {
+		if len(data.Agreed) != 0 {
 			return errors.New("invalid agreed: must be empty unless current_proposal is set")
 		}
-		if data.Disagreed != nil {
+		if len(data.Disagreed) != 0 {
 			return errors.New("invalid disagreed: must be empty unless current_proposal is set")
 		}
 	} else {
-- 
2.43.0

