From 3761dd1d1848af8671ffb7fb8b951c19898d8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 01/40] fix: keep the delegated tokens and shares when a
 service or an operator is updated

---
 x/operators/types/models.go | 7 ++++++-
 x/services/types/models.go  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/x/operators/types/models.go b/x/operators/types/models.go
index 9f67af3..ec83856 100644
--- a/x/operators/types/models.go
+++ b/x/operators/types/models.go
@@ -220,7 +220,7 @@ func (o *Operator) Update(update OperatorUpdate) Operator {
 		update.PictureURL = o.PictureURL
 	}
 
-	return NewOperator(
+	updated := NewOperator(
 		o.ID,
 		o.Status,
 		update.Moniker,
@@ -228,6 +228,11 @@ func (o *Operator) Update(update OperatorUpdate) Operator {
 		update.PictureURL,
 		o.Admin,
 	)
+
+	// Updating the description of the operator must not affect what has been delegated to it
+	updated.Tokens = o.Tokens
+	updated.DelegatorShares = o.DelegatorShares
+	return updated
 }
 
 // --------------------------------------------------------------------------------------------------------------------
diff --git a/x/services/types/models.go b/x/services/types/models.go
index 0426655..5a129a4 100644
--- a/x/services/types/models.go
+++ b/x/services/types/models.go
@@ -241,7 +241,7 @@ func (s *Service) Update(update ServiceUpdate) Service {
 		update.PictureURL = s.PictureURL
 	}
 
-	return NewService(
+	updated := NewService(
 		s.ID,
 		s.Status,
 		update.Name,
@@ -251,6 +251,11 @@ func (s *Service) Update(update ServiceUpdate) Service {
 		s.Admin,
 		s.Accredited,
 	)
+
+	// Updating the description of the service must not affect what has been delegated to it
+	updated.Tokens = s.Tokens
+	updated.DelegatorShares = s.DelegatorShares
+	return updated
 }
 
 // --------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 19fe2b67099719275bb4abe9ef5c1485efaffe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 02/40] fix: do not fail EndBlock when an unbonding delegation
 is queued more than once

---
 x/restaking/keeper/end_blocker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/restaking/keeper/end_blocker.go b/x/restaking/keeper/end_blocker.go
index 8e3aa90..85de0ee 100644
--- a/x/restaking/keeper/end_blocker.go
+++ b/x/restaking/keeper/end_blocker.go
@@ -1,6 +1,7 @@
 package keeper
 
 import (
+	"errors"
 	"fmt"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
@@ -20,6 +21,12 @@ func (k *Keeper) CompleteMatureUnbondingDelegations(ctx sdk.Context) error {
 
 		balances, err := k.CompleteUnbonding(ctx, data)
 		if err != nil {
+			// The queue holds one item per undelegation, while completing an unbonding delegation
+			// pays all of its mature entries at once: if nothing is left for this item, then its entry
+			// has already been completed by a previous one.
+			if errors.Is(err, types.ErrNoUnbondingDelegation) {
+				continue
+			}
 			return err
 		}
 
-- 
2.43.0


From 2f7a5070310863c701840facb4c891f11e02a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 03/40] fix: settle the pool rewards when the trust in a
 service changes

Changing the accreditation of a service failed as soon as the service had a
direct delegation, and left the shares of the pool delegators trusting it
untouched. A change of the preferences skipped the pools from which the service
was not borrowing security, while every other change of the delegations did
not.
---
 x/restaking/keeper/alias_functions.go   | 14 +++-
 x/rewards/keeper/delegation.go          | 41 +++++++++---
 x/rewards/keeper/hooks.go               |  9 +--
 x/rewards/keeper/pool_service_shares.go | 89 ++++++++++++++-----------
 4 files changed, 97 insertions(+), 56 deletions(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index ae6a80e..00a0fa5 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -462,11 +462,21 @@ func (k *Keeper) IterateAllServiceDelegations(ctx context.Context, cb func(del t
 func (k *Keeper) IterateServiceDelegations(ctx context.Context, serviceID uint32, cb func(del types.Delegation) (stop bool, err error)) error {
 	store := k.storeService.OpenKVStore(ctx)
 
-	iterator := storetypes.KVStorePrefixIterator(runtime.KVStoreAdapter(store), types.DelegationsByServiceIDStorePrefix(serviceID))
+	prefix := types.DelegationsByServiceIDStorePrefix(serviceID)
+	iterator := storetypes.KVStorePrefixIterator(runtime.KVStoreAdapter(store), prefix)
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
-		delegation := types.MustUnmarshalDelegation(k.cdc, iterator.Value())
+		// The index has no value: the delegator address is the last part of the key
+		delegator := string(iterator.Key()[len(prefix):])
+		delegation, found, err := k.GetServiceDelegation(ctx, serviceID, delegator)
+		if err != nil {
+			return err
+		}
+		if !found {
+			continue
+		}
+
 		stop, err := cb(delegation)
 		if err != nil {
 			return err
diff --git a/x/rewards/keeper/delegation.go b/x/rewards/keeper/delegation.go
index 594eb4b..65aeff9 100644
--- a/x/rewards/keeper/delegation.go
+++ b/x/rewards/keeper/delegation.go
@@ -58,7 +58,7 @@ func (k *Keeper) initializeDelegation(ctx context.Context, target DelegationTarg
 func (k *Keeper) calculateDelegationRewardsBetween(
 	ctx context.Context,
 	target DelegationTarget,
-	delegator string,
+	trustedServicesIDs []uint32,
 	startingPeriod, endingPeriod uint64,
 	stakes sdk.DecCoins,
 ) (rewards types.DecPools, err error) {
@@ -87,13 +87,8 @@ func (k *Keeper) calculateDelegationRewardsBetween(
 	var decPools types.DecPools
 
 	if target.DelegationType == restakingtypes.DELEGATION_TYPE_POOL {
-		servicesIDs, err := k.restakingKeeper.GetUserTrustedServicesIDs(ctx, delegator)
-		if err != nil {
-			return nil, err
-		}
-
 		for _, diff := range differences {
-			if slices.Contains(servicesIDs, diff.ServiceID) {
+			if slices.Contains(trustedServicesIDs, diff.ServiceID) {
 				decPools = decPools.Add(diff.DecPools...)
 			}
 		}
@@ -117,6 +112,21 @@ func (k *Keeper) calculateDelegationRewardsBetween(
 // between the starting period and the current block height
 func (k *Keeper) CalculateDelegationRewards(
 	ctx context.Context, target DelegationTarget, del restakingtypes.Delegation, endingPeriod uint64,
+) (rewards types.DecPools, err error) {
+	trustedServicesIDs, err := k.restakingKeeper.GetUserTrustedServicesIDs(ctx, del.UserAddress)
+	if err != nil {
+		return nil, err
+	}
+
+	return k.calculateDelegationRewards(ctx, target, del, endingPeriod, trustedServicesIDs)
+}
+
+// calculateDelegationRewards calculates the total rewards accrued by a delegation
+// between the starting period and the current block height, given the IDs of the
+// services that the delegator has been trusting during that period
+func (k *Keeper) calculateDelegationRewards(
+	ctx context.Context, target DelegationTarget, del restakingtypes.Delegation, endingPeriod uint64,
+	trustedServicesIDs []uint32,
 ) (rewards types.DecPools, err error) {
 	delAddr, err := k.accountKeeper.AddressCodec().StringToBytes(del.UserAddress)
 	if err != nil {
@@ -192,7 +202,7 @@ func (k *Keeper) CalculateDelegationRewards(
 	delRewards, err := k.calculateDelegationRewardsBetween(
 		ctx,
 		target,
-		del.UserAddress,
+		trustedServicesIDs,
 		startingPeriod,
 		endingPeriod,
 		stakes,
@@ -207,6 +217,19 @@ func (k *Keeper) CalculateDelegationRewards(
 // withdrawDelegationRewards withdraws the rewards from the delegation and reinitializes it
 func (k *Keeper) withdrawDelegationRewards(
 	ctx context.Context, target DelegationTarget, del restakingtypes.Delegation,
+) (types.Pools, error) {
+	trustedServicesIDs, err := k.restakingKeeper.GetUserTrustedServicesIDs(ctx, del.UserAddress)
+	if err != nil {
+		return nil, err
+	}
+
+	return k.withdrawDelegationRewardsFromServices(ctx, target, del, trustedServicesIDs)
+}
+
+// withdrawDelegationRewardsFromServices withdraws the rewards from the delegation,
+// given the IDs of the services that the delegator has been trusting so far
+func (k *Keeper) withdrawDelegationRewardsFromServices(
+	ctx context.Context, target DelegationTarget, del restakingtypes.Delegation, trustedServicesIDs []uint32,
 ) (types.Pools, error) {
 	delAddr, err := k.accountKeeper.AddressCodec().StringToBytes(del.UserAddress)
 	if err != nil {
@@ -228,7 +251,7 @@ func (k *Keeper) withdrawDelegationRewards(
 		return nil, err
 	}
 
-	rewardsRaw, err := k.CalculateDelegationRewards(ctx, target, del, endingPeriod)
+	rewardsRaw, err := k.calculateDelegationRewards(ctx, target, del, endingPeriod, trustedServicesIDs)
 	if err != nil {
 		return nil, err
 	}
diff --git a/x/rewards/keeper/hooks.go b/x/rewards/keeper/hooks.go
index ff1e17c..2c1b7b9 100644
--- a/x/rewards/keeper/hooks.go
+++ b/x/rewards/keeper/hooks.go
@@ -142,7 +142,8 @@ func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceI
 		return servicestypes.ErrServiceNotFound
 	}
 
-	err = k.restakingKeeper.IterateServiceDelegations(ctx, serviceID, func(del restakingtypes.Delegation) (stop bool, err error) {
+	// The trust in a service determines the rewards of the pool delegations
+	return k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
 		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
 		if err != nil {
 			return true, err
@@ -156,17 +157,13 @@ func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceI
 		trustedBefore := preferences.IsServiceTrusted(serviceBefore)
 		trustedAfter := preferences.IsServiceTrusted(service)
 		if trustedBefore != trustedAfter {
-			err = k.AfterUserTrustedServiceUpdated(ctx, del.UserAddress, service.ID, trustedAfter)
+			err = k.updatePoolDelegationTrust(ctx, del, service.ID, trustedAfter)
 			if err != nil {
 				return true, err
 			}
 		}
 		return false, nil
 	})
-	if err != nil {
-		return err
-	}
-	return nil
 }
 
 // AfterUserPreferencesModified is called after a user's trust in a service is
diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index b5dfe43..c236c2c 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -2,6 +2,7 @@ package keeper
 
 import (
 	"context"
+	"slices"
 
 	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
 )
@@ -15,47 +16,57 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 	serviceID uint32,
 	trusted bool,
 ) error {
-	delAddr, err := k.accountKeeper.AddressCodec().StringToBytes(userAddress)
+	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
+		err = k.updatePoolDelegationTrust(ctx, del, serviceID, trusted)
+		return err != nil, err
+	})
+}
+
+// updatePoolDelegationTrust pays the rewards that the given pool delegation has
+// accrued until now, and then updates the total delegator shares of the
+// pool-service pair following a change of the trust that the delegator has in
+// the service.
+func (k *Keeper) updatePoolDelegationTrust(
+	ctx context.Context,
+	del restakingtypes.Delegation,
+	serviceID uint32,
+	trusted bool,
+) error {
+	delAddr, err := k.accountKeeper.AddressCodec().StringToBytes(del.UserAddress)
 	if err != nil {
 		return err
 	}
 
-	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
-		isSecured, err := k.restakingKeeper.IsServiceSecuredByPool(ctx, serviceID, del.TargetID)
-		if err != nil {
-			return true, err
-		}
-
-		if !isSecured {
-			return false, nil
-		}
-
-		pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
-		if err != nil {
-			return true, err
-		}
-
-		// Calling these two methods has same effect as calling
-		// BeforePoolDelegationSharesModified and then AfterPoolDelegationModified.
-		_, err = k.withdrawDelegationRewards(ctx, pool, del)
-		if err != nil {
-			return true, err
-		}
-
-		err = k.initializeDelegation(ctx, pool, delAddr)
-		if err != nil {
-			return true, err
-		}
-
-		if trusted {
-			err = k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
-		} else {
-			err = k.DecrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
-		}
-		if err != nil {
-			return true, err
-		}
-
-		return false, nil
-	})
+	pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
+	if err != nil {
+		return err
+	}
+
+	// The rewards have been accrued while the delegator's trust in the service
+	// was the opposite of the new one.
+	trustedServicesIDs, err := k.restakingKeeper.GetUserTrustedServicesIDs(ctx, del.UserAddress)
+	if err != nil {
+		return err
+	}
+	previouslyTrustedIDs := slices.DeleteFunc(trustedServicesIDs, func(id uint32) bool { return id == serviceID })
+	if !trusted {
+		previouslyTrustedIDs = append(previouslyTrustedIDs, serviceID)
+	}
+
+	// Calling these two methods has same effect as calling
+	// BeforePoolDelegationSharesModified and then AfterPoolDelegationModified.
+	_, err = k.withdrawDelegationRewardsFromServices(ctx, pool, del, previouslyTrustedIDs)
+	if err != nil {
+		return err
+	}
+
+	err = k.initializeDelegation(ctx, pool, delAddr)
+	if err != nil {
+		return err
+	}
+
+	if trusted {
+		return k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
+	}
+	return k.DecrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
 }
-- 
2.43.0


From 20593db6a8178fe9b9a3cdfc33e26f4806ea866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 04/40] fix: account for the users trusting a service when it
 is created or deleted

The pool delegators trusting all the non accredited services were never added
to the shares of a service created after their delegation, and lost the rewards
not yet withdrawn when a service was deleted.
---
 x/rewards/keeper/hooks.go          | 28 ++++++++++++++++++++++++++++
 x/rewards/keeper/services_hooks.go | 15 ++++++++++++++-
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/x/rewards/keeper/hooks.go b/x/rewards/keeper/hooks.go
index 2c1b7b9..ea46b8c 100644
--- a/x/rewards/keeper/hooks.go
+++ b/x/rewards/keeper/hooks.go
@@ -166,6 +166,34 @@ func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceI
 	})
 }
 
+// updatePoolDelegationsTrustingService updates all the pool delegations of the
+// users that trust the given service, when it starts or stops existing
+func (k *Keeper) updatePoolDelegationsTrustingService(ctx context.Context, serviceID uint32, trusted bool) error {
+	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
+	if !found {
+		return servicestypes.ErrServiceNotFound
+	}
+
+	return k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
+		if err != nil {
+			return true, err
+		}
+
+		if preferences.IsServiceTrusted(service) {
+			err = k.updatePoolDelegationTrust(ctx, del, serviceID, trusted)
+			if err != nil {
+				return true, err
+			}
+		}
+		return false, nil
+	})
+}
+
 // AfterUserPreferencesModified is called after a user's trust in a service is
 // updated. It updates the total delegator shares for the service in all pools
 // where the user has a delegation.
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index d36a5ae..e65e1a0 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -19,7 +19,13 @@ func (k *Keeper) ServicesHooks() ServicesHooks {
 
 // AfterServiceCreated implements servicestypes.ServicesHooks
 func (h ServicesHooks) AfterServiceCreated(ctx context.Context, serviceID uint32) error {
-	return h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	err := h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	if err != nil {
+		return err
+	}
+
+	// Some users might trust the service since its creation
+	return h.k.updatePoolDelegationsTrustingService(ctx, serviceID, true)
 }
 
 // AfterServiceActivated implements servicestypes.ServicesHooks
@@ -34,6 +40,13 @@ func (h ServicesHooks) AfterServiceDeactivated(context.Context, uint32) error {
 
 // BeforeServiceDeleted implements servicestypes.ServicesHooks
 func (h ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint32) error {
+	// Pay the rewards that the service has given to the pools' delegators, as it
+	// will no longer be trusted by anyone
+	err := h.k.updatePoolDelegationsTrustingService(ctx, serviceID, false)
+	if err != nil {
+		return err
+	}
+
 	return h.k.BeforeDelegationTargetRemoved(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
 }
 
-- 
2.43.0


From ce3550f8edd717af595c17bd0a70b8abbbbcb620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 05/40] fix: refuse to delete a service or an operator that
 still has delegations

The delegated and unbonding funds were stranded, and completing an unbonding
delegation from the deleted target halted the chain.
---
 x/restaking/keeper/alias_functions.go | 26 ++++++++++++++++++++++++++
 x/restaking/keeper/operators_hooks.go | 11 +++++++++++
 x/restaking/keeper/services_hooks.go  | 11 +++++++++++
 x/restaking/types/errors.go           |  1 +
 4 files changed, 49 insertions(+)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index 00a0fa5..df287de 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -1121,6 +1121,32 @@ func (k *Keeper) GetUserPreferencesEntries(ctx context.Context) ([]types.UserPre
 	return entries, nil
 }
 
+// isTargetInUse tells whether the given target has any delegation or any
+// unbonding delegation that is not completed yet
+func (k *Keeper) isTargetInUse(ctx context.Context, delType types.DelegationType, targetID uint32) (bool, error) {
+	delegations, err := k.GetAllDelegations(ctx)
+	if err != nil {
+		return false, err
+	}
+	for _, del := range delegations {
+		if del.Type == delType && del.TargetID == targetID {
+			return true, nil
+		}
+	}
+
+	unbondingDelegations, err := k.GetAllUnbondingDelegations(ctx)
+	if err != nil {
+		return false, err
+	}
+	for _, ubd := range unbondingDelegations {
+		if ubd.Type == delType && ubd.TargetID == targetID {
+			return true, nil
+		}
+	}
+
+	return false, nil
+}
+
 // GetUserTrustedServicesIDs returns the IDs of the services that the user trusts
 // based on the user preferences and the services' status.
 func (k *Keeper) GetUserTrustedServicesIDs(ctx context.Context, userAddress string) ([]uint32, error) {
diff --git a/x/restaking/keeper/operators_hooks.go b/x/restaking/keeper/operators_hooks.go
index 0c3bd91..276ca8b 100644
--- a/x/restaking/keeper/operators_hooks.go
+++ b/x/restaking/keeper/operators_hooks.go
@@ -5,8 +5,10 @@ import (
 	"fmt"
 
 	"cosmossdk.io/collections"
+	"cosmossdk.io/errors"
 
 	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
+	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
 )
 
 var _ operatorstypes.OperatorsHooks = &OperatorsHooks{}
@@ -23,6 +25,15 @@ func (k *Keeper) OperatorsHooks() operatorstypes.OperatorsHooks {
 
 // BeforeOperatorDeleted implements types.OperatorsHooks.
 func (o *OperatorsHooks) BeforeOperatorDeleted(ctx context.Context, operatorID uint32) error {
+	// The funds delegated to the operator must be withdrawn before deleting it
+	inUse, err := o.isTargetInUse(ctx, restakingtypes.DELEGATION_TYPE_OPERATOR, operatorID)
+	if err != nil {
+		return err
+	}
+	if inUse {
+		return errors.Wrapf(restakingtypes.ErrTargetInUse, "operator %d", operatorID)
+	}
+
 	// After the operator has been deleted
 	// we remove the data that we keep in the x/restaking module that are linked
 	// to the operator.
diff --git a/x/restaking/keeper/services_hooks.go b/x/restaking/keeper/services_hooks.go
index 54485ae..37b9cb8 100644
--- a/x/restaking/keeper/services_hooks.go
+++ b/x/restaking/keeper/services_hooks.go
@@ -4,7 +4,9 @@ import (
 	"context"
 
 	"cosmossdk.io/collections"
+	"cosmossdk.io/errors"
 
+	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
 	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
@@ -20,6 +22,15 @@ func (k *Keeper) ServicesHooks() servicestypes.ServicesHooks {
 
 // BeforeServiceDeleted implements types.ServicesHooks.
 func (h *ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint32) error {
+	// The funds delegated to the service must be withdrawn before deleting it
+	inUse, err := h.isTargetInUse(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	if err != nil {
+		return err
+	}
+	if inUse {
+		return errors.Wrapf(restakingtypes.ErrTargetInUse, "service %d", serviceID)
+	}
+
 	// After the service has been deleted
 	// we remove the data that we keep in the x/restaking
 	// associated to this service.
diff --git a/x/restaking/types/errors.go b/x/restaking/types/errors.go
index ca193d8..3f08e12 100644
--- a/x/restaking/types/errors.go
+++ b/x/restaking/types/errors.go
@@ -19,4 +19,5 @@ var (
 	ErrPoolAlreadySecuringService     = errors.Register(ModuleName, 12, "pool already securing the service")
 	ErrPoolNotSecuringService         = errors.Register(ModuleName, 13, "pool not securing the service")
 	ErrDenomNotRestakable             = errors.Register(ModuleName, 14, "denom not restakable")
+	ErrTargetInUse                    = errors.Register(ModuleName, 15, "delegation target has delegations or unbonding delegations")
 )
-- 
2.43.0


From 4843301c65a2f371e1b819e89b4e4b5b551598f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 06/40] fix: terminate the rewards plans of a service when it
 is deleted

A rewards plan outliving its service made BeginBlock fail, both when allocating
its rewards and when terminating it.
---
 x/rewards/keeper/rewards_plan.go   | 11 +++++++++++
 x/rewards/keeper/services_hooks.go |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/x/rewards/keeper/rewards_plan.go b/x/rewards/keeper/rewards_plan.go
index 3eda7d4..5aa47c9 100644
--- a/x/rewards/keeper/rewards_plan.go
+++ b/x/rewards/keeper/rewards_plan.go
@@ -188,6 +188,17 @@ func (k *Keeper) TerminateEndedRewardsPlans(ctx context.Context) error {
 	})
 }
 
+// terminateServiceRewardsPlans terminates all the rewards plans of a service.
+func (k *Keeper) terminateServiceRewardsPlans(ctx context.Context, serviceID uint32) error {
+	return k.RewardsPlans.Walk(ctx, nil, func(planID uint64, plan types.RewardsPlan) (stop bool, err error) {
+		if plan.ServiceID != serviceID {
+			return false, nil
+		}
+		err = k.terminateRewardsPlan(ctx, plan)
+		return err != nil, err
+	})
+}
+
 // EditRewardsPlan edits an existing rewards plan.
 func (k *Keeper) EditRewardsPlan(
 	ctx context.Context,
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index e65e1a0..c394f64 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -47,6 +47,12 @@ func (h ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint3
 		return err
 	}
 
+	// Terminate the rewards plans of the service, as they can't outlive it
+	err = h.k.terminateServiceRewardsPlans(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return h.k.BeforeDelegationTargetRemoved(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
 }
 
-- 
2.43.0


From d8974c8f2de4c08a40c98de0ec5ace68a258059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 07/40] fix: remove the params of a service or an operator when
 it is deleted

The params of a deleted operator made the import of an exported genesis fail.
---
 x/operators/keeper/operators.go | 6 ++++++
 x/services/keeper/services.go   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/x/operators/keeper/operators.go b/x/operators/keeper/operators.go
index 16adc5d..c8ddb49 100644
--- a/x/operators/keeper/operators.go
+++ b/x/operators/keeper/operators.go
@@ -136,6 +136,12 @@ func (k *Keeper) DeleteOperator(ctx context.Context, operator types.Operator) er
 		return err
 	}
 
+	// Delete the operator params, that might have been set after the inactivation
+	err = k.DeleteOperatorParams(ctx, operator.ID)
+	if err != nil {
+		return err
+	}
+
 	return k.operatorAddressSet.Remove(ctx, operator.Address)
 }
 
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index 1535933..d0c74c9 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -147,6 +147,12 @@ func (k *Keeper) DeleteService(ctx context.Context, serviceID uint32) error {
 		return err
 	}
 
+	// Remove the service params
+	err = k.serviceParams.Remove(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return k.serviceAddressSet.Remove(ctx, service.Address)
 }
 
-- 
2.43.0


From af8154ddc248f80bf79685cfd89f0924126b5256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 08/40] fix: pay the accumulated commission of a deleted
 operator from the rewards pool

The commission was taken from a module account that does not exist, which made
the deletion panic, and was directed to the account of the operator rather than
to the withdraw address of its admin.
---
 x/rewards/keeper/alias_functions.go | 23 ++++-------------------
 x/rewards/keeper/target.go          |  2 +-
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/x/rewards/keeper/alias_functions.go b/x/rewards/keeper/alias_functions.go
index 568393b..087bc7f 100644
--- a/x/rewards/keeper/alias_functions.go
+++ b/x/rewards/keeper/alias_functions.go
@@ -69,30 +69,15 @@ func (k *Keeper) DeleteOperatorAccumulatedCommission(ctx context.Context, operat
 	return k.OperatorAccumulatedCommissions.Remove(ctx, operatorID)
 }
 
-// GetOperatorWithdrawAddr returns the outstanding rewards coins for an operator
+// GetOperatorWithdrawAddr returns the address that receives the commission of an
+// operator, that is the withdraw address of its admin
 func (k *Keeper) GetOperatorWithdrawAddr(ctx context.Context, operator operatorstypes.Operator) (sdk.AccAddress, error) {
-	// Try getting a custom withdraw address
-	operatorAddr, err := sdk.AccAddressFromBech32(operator.Address)
+	adminAddr, err := sdk.AccAddressFromBech32(operator.Admin)
 	if err != nil {
 		return nil, err
 	}
 
-	withdrawAddr, err := k.GetDelegatorWithdrawAddr(ctx, operatorAddr)
-	if err != nil {
-		return nil, err
-	}
-
-	if withdrawAddr != nil {
-		return withdrawAddr, nil
-	}
-
-	// By default, use the operator admin address as the withdraw address
-	adminAddress, err := sdk.AccAddressFromBech32(operator.Admin)
-	if err != nil {
-		return nil, err
-	}
-
-	return adminAddress, nil
+	return k.GetDelegatorWithdrawAddr(ctx, adminAddr)
 }
 
 // GetDelegatorWithdrawAddr returns the delegator's withdraw address if set, otherwise the delegator address is returned.
diff --git a/x/rewards/keeper/target.go b/x/rewards/keeper/target.go
index 1737ee0..a85d5d3 100644
--- a/x/rewards/keeper/target.go
+++ b/x/rewards/keeper/target.go
@@ -352,7 +352,7 @@ func (k *Keeper) clearOperator(ctx context.Context, outstanding sdk.DecCoins, op
 				return outstanding, err
 			}
 
-			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.ModuleName, withdrawAddr, coins)
+			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.RewardsPoolName, withdrawAddr, coins)
 			if err != nil {
 				return outstanding, err
 			}
-- 
2.43.0


From 946793700da334329cb2bea1dd72bc90f1c9e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 09/40] fix: do not wrap around the total weight of a rewards
 plan

---
 x/rewards/keeper/allocation.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 09330e4..28af52c 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -248,22 +248,22 @@ func (k *Keeper) AllocateRewardsByPlan(
 	}
 
 	// Only sum weights with non-zero delegation values.
-	totalWeightsNonZeroDelValues := uint32(0)
+	totalWeightsNonZeroDelValues := int64(0)
 	if totalPoolsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.PoolsDistribution.Weight
+		totalWeightsNonZeroDelValues += int64(plan.PoolsDistribution.Weight)
 	}
 	if totalOperatorsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.OperatorsDistribution.Weight
+		totalWeightsNonZeroDelValues += int64(plan.OperatorsDistribution.Weight)
 	}
 	if totalUsersDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.UsersDistribution.Weight
+		totalWeightsNonZeroDelValues += int64(plan.UsersDistribution.Weight)
 	}
 
 	var poolsRewards, operatorsRewards, usersRewards sdk.DecCoins
 	if totalWeightsNonZeroDelValues > 0 {
 		// If weights are specified, then split rewards by
 		// rewards * weight / totalWeights
-		totalWeightsDec := math.LegacyNewDec(int64(totalWeightsNonZeroDelValues))
+		totalWeightsDec := math.LegacyNewDec(totalWeightsNonZeroDelValues)
 		poolsRewards = rewards.MulDecTruncate(math.LegacyNewDec(int64(plan.PoolsDistribution.Weight))).
 			QuoDecTruncate(totalWeightsDec)
 		operatorsRewards = rewards.MulDecTruncate(math.LegacyNewDec(int64(plan.OperatorsDistribution.Weight))).
-- 
2.43.0


From 5113c55c7284fbfb2f0f21097030debdc757d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 10/40] fix: do not allocate rewards to the denoms that are not
 allowed

The rewards of a target were split over all its tokens, but in proportion to the
value of the allowed ones only: the total allocated exceeded the rewards.
---
 x/rewards/keeper/allocation.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 28af52c..d6a1665 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -21,10 +21,11 @@ import (
 	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
-// DistributionInfo stores information about a delegation target and its
-// delegation value.
+// DistributionInfo stores information about a delegation target, its tokens
+// that are allowed to be restaked and their delegation value.
 type DistributionInfo struct {
 	DelegationTarget DelegationTarget
+	Tokens           sdk.Coins
 	DelegationsValue math.LegacyDec
 }
 
@@ -295,6 +296,7 @@ func (k *Keeper) AllocateRewardsByPlan(
 			ctx,
 			plan.UsersDistribution,
 			service,
+			tokensDelegatedToService,
 			totalUsersDelValues,
 			usersRewards,
 		)
@@ -416,6 +418,7 @@ func (k *Keeper) getDistrInfos(
 
 		distrInfos = append(distrInfos, DistributionInfo{
 			DelegationTarget: target,
+			Tokens:           targetTokens,
 			DelegationsValue: delValue,
 		})
 		totalDelValues = totalDelValues.Add(delValue)
@@ -537,6 +540,7 @@ func (k *Keeper) allocateRewardsToUsers(
 	ctx context.Context,
 	distr types.UsersDistribution,
 	service servicestypes.Service,
+	tokens sdk.Coins,
 	totalDelValues math.LegacyDec,
 	rewards sdk.DecCoins,
 ) error {
@@ -553,6 +557,7 @@ func (k *Keeper) allocateRewardsToUsers(
 		}
 		return k.allocateDelegationTargetRewards(ctx, service.ID, DistributionInfo{
 			DelegationTarget: target,
+			Tokens:           tokens,
 			DelegationsValue: totalDelValues,
 		}, rewards)
 	default:
@@ -564,7 +569,7 @@ func (k *Keeper) allocateRewardsToUsers(
 func (k *Keeper) allocateDelegationTargetRewards(
 	ctx context.Context, serviceID uint32, distrInfo DistributionInfo, rewards sdk.DecCoins,
 ) error {
-	for _, token := range distrInfo.DelegationTarget.GetTokens() {
+	for _, token := range distrInfo.Tokens {
 		tokenValue, err := k.GetCoinValue(ctx, token)
 		if err != nil {
 			return err
-- 
2.43.0


From b8a70b04fc001cd6be52f7eea5450779c7326f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 11/40] fix: take the rewards of a plan only when they are
 allocated

The rewards of an inactive service, or of a service without any delegation, were
moved to the rewards pool without being given to anyone.
---
 x/rewards/keeper/allocation.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index d6a1665..bd7b7b8 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -192,12 +192,6 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return nil
 	}
 
-	// Send the current block's rewards to the global rewards pool.
-	err := k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
-	if err != nil {
-		return err
-	}
-
 	service, found, err := k.servicesKeeper.GetService(ctx, plan.ServiceID)
 	if err != nil {
 		return err
@@ -248,6 +242,12 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return nil
 	}
 
+	// Send the current block's rewards to the global rewards pool.
+	err = k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
+	if err != nil {
+		return err
+	}
+
 	// Only sum weights with non-zero delegation values.
 	totalWeightsNonZeroDelValues := int64(0)
 	if totalPoolsDelValues.IsPositive() {
-- 
2.43.0


From 98cc5281277765f6a989efa5856fc69ea5ff588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 12/40] fix: use the global restakable denoms when a service
 does not restrict them

The operators and the service itself were rewarded also for the denoms that can
not be restaked.
---
 x/rewards/keeper/allocation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index bd7b7b8..1f9fe47 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -147,6 +147,9 @@ func (k *Keeper) AllocateRewards(ctx context.Context) error {
 				)
 				return false, nil
 			}
+		} else {
+			// Only the global restakable denoms are set, use them
+			serviceRestakableDenoms = restakableDenoms
 		}
 
 		err = k.AllocateRewardsByPlan(ctx, plan, timeSinceLastAllocation, pools, operators, serviceRestakableDenoms)
-- 
2.43.0


From c6bde482c652ff3e2dcf700c0197179eda07334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 13/40] fix: do not halt the chain when a rewards plan can not
 be processed

Anyone owning a service could make BeginBlock panic with a rewards plan whose
amount per day overflows the decimal computations.
---
 utils/context.go                 | 26 ++++++++++++++++++++++++++
 x/rewards/keeper/allocation.go   |  8 ++++++--
 x/rewards/keeper/rewards_plan.go |  8 ++++++--
 3 files changed, 38 insertions(+), 4 deletions(-)
 create mode 100644 utils/context.go

diff --git a/utils/context.go b/utils/context.go
new file mode 100644
index 0000000..2c39c4c
--- /dev/null
+++ b/utils/context.go
@@ -0,0 +1,26 @@
+package utils
+
+import (
+	"fmt"
+
+	sdk "github.com/cosmos/cosmos-sdk/types"
+)
+
+// ApplyIfNoError runs the given function, and applies its state changes only if it
+// neither returns an error nor panics. In both cases the error is returned.
+func ApplyIfNoError(ctx sdk.Context, f func(ctx sdk.Context) error) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("panic: %v", r)
+		}
+	}()
+
+	cacheCtx, write := ctx.CacheContext()
+	err = f(cacheCtx)
+	if err != nil {
+		return err
+	}
+
+	write()
+	return nil
+}
diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 1f9fe47..fd7427b 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -152,9 +152,13 @@ func (k *Keeper) AllocateRewards(ctx context.Context) error {
 			serviceRestakableDenoms = restakableDenoms
 		}
 
-		err = k.AllocateRewardsByPlan(ctx, plan, timeSinceLastAllocation, pools, operators, serviceRestakableDenoms)
+		// A plan that can't be processed must not prevent the others from being
+		// processed, nor halt the chain
+		err = utils.ApplyIfNoError(sdkCtx, func(ctx sdk.Context) error {
+			return k.AllocateRewardsByPlan(ctx, plan, timeSinceLastAllocation, pools, operators, serviceRestakableDenoms)
+		})
 		if err != nil {
-			return false, err
+			sdkCtx.Logger().Error("Skipping rewards plan", "plan_id", plan.ID, "error", err)
 		}
 
 		return false, nil
diff --git a/x/rewards/keeper/rewards_plan.go b/x/rewards/keeper/rewards_plan.go
index 5aa47c9..3d4b3f1 100644
--- a/x/rewards/keeper/rewards_plan.go
+++ b/x/rewards/keeper/rewards_plan.go
@@ -9,6 +9,7 @@ import (
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 
+	"github.com/milkyway-labs/milkyway/v3/utils"
 	"github.com/milkyway-labs/milkyway/v3/x/rewards/types"
 	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
@@ -179,9 +180,12 @@ func (k *Keeper) TerminateEndedRewardsPlans(ctx context.Context) error {
 	return k.RewardsPlans.Walk(ctx, nil, func(planID uint64, plan types.RewardsPlan) (stop bool, err error) {
 		// If the plan has already ended, terminate it
 		if !blockTime.Before(plan.EndTime) {
-			err = k.terminateRewardsPlan(ctx, plan)
+			// A plan that can't be terminated must not halt the chain
+			err = utils.ApplyIfNoError(sdkCtx, func(ctx sdk.Context) error {
+				return k.terminateRewardsPlan(ctx, plan)
+			})
 			if err != nil {
-				return false, err
+				sdkCtx.Logger().Error("Failed to terminate rewards plan", "plan_id", plan.ID, "error", err)
 			}
 		}
 		return false, nil
-- 
2.43.0


From ceb23e5bed108d9ab7a266e613271914592754be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 14/40] fix: remove the previous ticker of an asset that is
 registered again

---
 x/assets/keeper/assets.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/x/assets/keeper/assets.go b/x/assets/keeper/assets.go
index c6e0afa..a08ae0c 100644
--- a/x/assets/keeper/assets.go
+++ b/x/assets/keeper/assets.go
@@ -4,12 +4,24 @@ import (
 	"context"
 
 	"cosmossdk.io/collections"
+	"cosmossdk.io/errors"
 
 	"github.com/milkyway-labs/milkyway/v3/x/assets/types"
 )
 
 // SetAsset stores an asset in the store
 func (k *Keeper) SetAsset(ctx context.Context, asset types.Asset) error {
+	// Remove the index of the previous ticker, if any
+	previous, err := k.GetAsset(ctx, asset.Denom)
+	if err != nil && !errors.IsOf(err, collections.ErrNotFound) {
+		return err
+	}
+	if err == nil {
+		if err := k.TickerIndexes.Remove(ctx, collections.Join(previous.Ticker, asset.Denom)); err != nil {
+			return err
+		}
+	}
+
 	if err := k.Assets.Set(ctx, asset.Denom, asset); err != nil {
 		return err
 	}
-- 
2.43.0


From 51804db190605fa59dbcabed25b983717474512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 15/40] fix: burn the restaked tokens of a user delegating also
 to other pools

Unbonding the tokens to be burned failed with an invalid denom error as soon as
the user had a delegation towards a pool of another denom.
---
 x/restaking/keeper/alias_functions.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index df287de..5386fa8 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -860,9 +860,15 @@ func (k *Keeper) UnbondRestakedAssets(ctx context.Context, user sdk.AccAddress,
 			return false, nil
 		}
 
+		// Consider only the tokens that have been delegated to this target
+		involvedTokens := utils.FilterDecCoinsByDenom(toUndelegateTokens, target.TokensFromShares(delegation.Shares))
+		if len(involvedTokens) == 0 {
+			return false, nil
+		}
+
 		// Compute the shares that this delegation should have to undelegate
 		// all the remaining tokens
-		involvedShares, err := target.SharesFromDecCoins(toUndelegateTokens)
+		involvedShares, err := target.SharesFromDecCoins(involvedTokens)
 		if err != nil {
 			return true, err
 		}
-- 
2.43.0


From 5b1dc60a87b3551e5d4944906a56975418d54ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 16/40] fix: look up the allowed operators by their ID in the
 invariant

---
 x/restaking/keeper/invariants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/keeper/invariants.go b/x/restaking/keeper/invariants.go
index 606a7e8..c11b736 100644
--- a/x/restaking/keeper/invariants.go
+++ b/x/restaking/keeper/invariants.go
@@ -374,7 +374,7 @@ func AllowedOperatorsExistInvariant(k *Keeper) sdk.Invariant {
 		// Iterate over all the services joined by operators
 		var notFoundOperatorsIDs []uint32
 		err := k.IterateAllServicesAllowedOperators(ctx, func(serviceID uint32, operatorID uint32) (stop bool, err error) {
-			_, found, err := k.operatorsKeeper.GetOperator(ctx, serviceID)
+			_, found, err := k.operatorsKeeper.GetOperator(ctx, operatorID)
 			if err != nil {
 				return true, err
 			}
-- 
2.43.0


From b92a5ca8d36992450248269c269701481e60bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 17/40] fix: do not call the hooks when importing the users
 preferences

The import failed when a user had both custom preferences and a delegation to a
pool, as the hook settles rewards that are not imported yet.
---
 x/restaking/keeper/genesis.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/restaking/keeper/genesis.go b/x/restaking/keeper/genesis.go
index 2e197e7..0e04a5a 100644
--- a/x/restaking/keeper/genesis.go
+++ b/x/restaking/keeper/genesis.go
@@ -111,7 +111,9 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 
 	// Store the user preferences
 	for _, entry := range data.UsersPreferences {
-		err := k.SetUserPreferences(ctx, entry.UserAddress, entry.Preferences)
+		// The hooks are not called because the rewards state already takes into
+		// account the preferences
+		err := k.usersPreferences.Set(ctx, entry.UserAddress, entry.Preferences)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 2e4167f3b21696a0f5bd44a3b7dfd5949c14f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 18/40] fix: restore the unbonding ids when importing the
 unbonding delegations

The ids of the imported entries were assigned again to new entries.
---
 x/restaking/keeper/genesis.go | 13 ++++++++++++-
 x/restaking/keeper/unbond.go  | 22 +++++++++++++++++++++-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/x/restaking/keeper/genesis.go b/x/restaking/keeper/genesis.go
index 0e04a5a..9734d75 100644
--- a/x/restaking/keeper/genesis.go
+++ b/x/restaking/keeper/genesis.go
@@ -96,12 +96,23 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 
 	// Store the unbonding delegations
 	for _, ubd := range data.UnbondingDelegations {
-		_, err := k.SetUnbondingDelegation(ctx, ubd)
+		ubdKey, err := k.SetUnbondingDelegation(ctx, ubd)
 		if err != nil {
 			return err
 		}
 
 		for _, entry := range ubd.Entries {
+			err = k.SetUnbondingDelegationByUnbondingID(ctx, ubd, ubdKey, entry.UnbondingID)
+			if err != nil {
+				return err
+			}
+
+			// Make sure that the IDs already used are not assigned again
+			err = k.ensureUnbondingIDIsUsed(ctx, entry.UnbondingID)
+			if err != nil {
+				return err
+			}
+
 			err = k.InsertUBDQueue(ctx, ubd, entry.CompletionTime)
 			if err != nil {
 				return err
diff --git a/x/restaking/keeper/unbond.go b/x/restaking/keeper/unbond.go
index 7a29241..b56e324 100644
--- a/x/restaking/keeper/unbond.go
+++ b/x/restaking/keeper/unbond.go
@@ -44,10 +44,30 @@ func (k *Keeper) IncrementUnbondingID(ctx context.Context) (unbondingID uint64,
 	return unbondingID, nil
 }
 
+// ensureUnbondingIDIsUsed makes sure that the given unbonding ID will not be
+// returned by IncrementUnbondingID
+func (k *Keeper) ensureUnbondingIDIsUsed(ctx context.Context, unbondingID uint64) error {
+	store := k.storeService.OpenKVStore(ctx)
+	bz, err := store.Get(types.UnbondingIDKey)
+	if err != nil {
+		return err
+	}
+
+	if bz != nil && binary.BigEndian.Uint64(bz) >= unbondingID {
+		return nil
+	}
+
+	return store.Set(types.UnbondingIDKey, sdk.Uint64ToBigEndian(unbondingID))
+}
+
 // DeleteUnbondingIndex removes a mapping from UnbondingId to unbonding operation
 func (k *Keeper) DeleteUnbondingIndex(ctx context.Context, id uint64) error {
 	store := k.storeService.OpenKVStore(ctx)
-	return store.Delete(types.GetUnbondingIndexKey(id))
+	err := store.Delete(types.GetUnbondingIndexKey(id))
+	if err != nil {
+		return err
+	}
+	return store.Delete(types.GetUnbondingTypeKey(id))
 }
 
 // ValidateUnbondAmount validates that a given unbond or redelegation amount is valid based on upon the
-- 
2.43.0


From aa07eba4cd0c83452a00be007326130f53d0b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 19/40] fix: accept a genesis where the insurance fund account
 has extra tokens

The liquid vesting module account can receive tokens from anyone, and a single
transfer made the import of an exported genesis fail.
---
 x/liquidvesting/keeper/genesis.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/liquidvesting/keeper/genesis.go b/x/liquidvesting/keeper/genesis.go
index cc39266..618c3cc 100644
--- a/x/liquidvesting/keeper/genesis.go
+++ b/x/liquidvesting/keeper/genesis.go
@@ -72,13 +72,14 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 		}
 	}
 
-	// Ensure that the balance of the liquid vesting module is equal to the
-	// sum of the users' insurance fund
+	// Ensure that the balance of the liquid vesting module covers the sum of the
+	// users' insurance fund. The balance can be greater than the sum because anyone
+	// can send tokens to the module account
 	coins, err := k.GetInsuranceFundBalance(ctx)
 	if err != nil {
 		return err
 	}
-	if !coins.Equal(totalCoins) {
+	if !coins.IsAllGTE(totalCoins) {
 		return fmt.Errorf("the liquid vesting module doesn't have the coins specified in the users' insurance fund")
 	}
 
-- 
2.43.0


From 4193adc8bb98c41245984d6f31f30b792b89219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 20/40] fix: deposit the local denom of the tokens returning to
 this chain

The insurance fund was credited with a denom that does not exist, leaving the
returned tokens stuck in the module account.
---
 x/liquidvesting/keeper/ibc.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/x/liquidvesting/keeper/ibc.go b/x/liquidvesting/keeper/ibc.go
index 3769463..c6b68f9 100644
--- a/x/liquidvesting/keeper/ibc.go
+++ b/x/liquidvesting/keeper/ibc.go
@@ -65,14 +65,8 @@ func (k *Keeper) OnRecvPacket(
 
 	// Deposit the amounts into the users' insurance fund
 	for _, deposit := range msgDepositInsurance.Amounts {
-		// Convert the coin denom to its IBC representation
-		sourcePrefix := transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel())
-		// NOTE: sourcePrefix contains the trailing "/"
-		prefixedDenom := sourcePrefix + data.Denom
-		// construct the denomination trace from the full raw denomination
-		denomTrace := transfertypes.ParseDenomTrace(prefixedDenom)
-		// Convert the insurance deposit to its IBC representation
-		ibcCoin := sdk.NewCoin(denomTrace.IBCDenom(), deposit.Amount)
+		// Convert the insurance deposit to the representation of the received coin
+		ibcCoin := sdk.NewCoin(receivedDenom(packet, data), deposit.Amount)
 
 		err = k.AddToUserInsuranceFund(ctx, deposit.Depositor, sdk.NewCoins(ibcCoin))
 		if err != nil {
@@ -90,3 +84,17 @@ func (k *Keeper) OnRecvPacket(
 
 	return nil
 }
+
+// receivedDenom returns the local denom of the tokens received with the given packet
+func receivedDenom(packet channeltypes.Packet, data transfertypes.FungibleTokenPacketData) string {
+	if transfertypes.ReceiverChainIsSource(packet.GetSourcePort(), packet.GetSourceChannel(), data.Denom) {
+		// The tokens are returning to this chain: remove the prefix added by the sender chain
+		voucherPrefix := transfertypes.GetDenomPrefix(packet.GetSourcePort(), packet.GetSourceChannel())
+		return transfertypes.ParseDenomTrace(data.Denom[len(voucherPrefix):]).IBCDenom()
+	}
+
+	// NOTE: sourcePrefix contains the trailing "/"
+	sourcePrefix := transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel())
+	// construct the denomination trace from the full raw denomination
+	return transfertypes.ParseDenomTrace(sourcePrefix + data.Denom).IBCDenom()
+}
-- 
2.43.0


From a8a915057641ffc3ff6db93a27d68a4c2f330529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 21/40] fix: reject a restake when the insurance fund can not
 be read

---
 x/liquidvesting/keeper/restake_restriction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/liquidvesting/keeper/restake_restriction.go b/x/liquidvesting/keeper/restake_restriction.go
index 2aba1b4..0a27203 100644
--- a/x/liquidvesting/keeper/restake_restriction.go
+++ b/x/liquidvesting/keeper/restake_restriction.go
@@ -39,7 +39,7 @@ func (k *Keeper) RestakeRestrictionFn(ctx context.Context, restakerAddress strin
 	// Get the user's insurance fund
 	userInsuranceFund, err := k.GetUserInsuranceFund(ctx, restakerAddress)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// Get the module params
-- 
2.43.0


From ad5f809db31a440f10ad8949705f9996790824e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 22/40] fix: require the minimum stake also for weighted votes

---
 ante/gov_vote_ante.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ante/gov_vote_ante.go b/ante/gov_vote_ante.go
index 0da4081..ac4755c 100644
--- a/ante/gov_vote_ante.go
+++ b/ante/gov_vote_ante.go
@@ -72,6 +72,16 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 			if err != nil {
 				return err
 			}
+		case *govv1beta1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
+		case *govv1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
 		default:
 			// not a vote message - nothing to validate
 			return nil
-- 
2.43.0


From f2ea5aef4e667989cfe406475d0643aa9128cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 23/40] fix: validate the votes inside nested authz executions

---
 ante/gov_vote_ante.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ante/gov_vote_ante.go b/ante/gov_vote_ante.go
index ac4755c..45791c0 100644
--- a/ante/gov_vote_ante.go
+++ b/ante/gov_vote_ante.go
@@ -124,12 +124,19 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 		return nil
 	}
 
-	validAuthz := func(execMsg *authz.MsgExec) error {
+	var validAuthz func(execMsg *authz.MsgExec) error
+	validAuthz = func(execMsg *authz.MsgExec) error {
 		for _, v := range execMsg.Msgs {
 			var innerMsg sdk.Msg
 			if err := g.cdc.UnpackAny(v, &innerMsg); err != nil {
 				return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
 			}
+			if innerExec, ok := innerMsg.(*authz.MsgExec); ok {
+				if err := validAuthz(innerExec); err != nil {
+					return err
+				}
+				continue
+			}
 			if err := validMsg(innerMsg); err != nil {
 				return err
 			}
-- 
2.43.0


From c183dbd57f029ec67cc8736ebb0d7655829d31cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 24/40] fix: validate the expedited proposals submitted through
 authz

---
 ante/gov_expedited_ante.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/ante/gov_expedited_ante.go b/ante/gov_expedited_ante.go
index b6282aa..51f891e 100644
--- a/ante/gov_expedited_ante.go
+++ b/ante/gov_expedited_ante.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/cosmos/cosmos-sdk/codec"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	"github.com/cosmos/cosmos-sdk/x/authz"
 	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
 
 	milkywayerrors "github.com/milkyway-labs/milkyway/v3/types/errors"
@@ -39,19 +40,35 @@ func NewGovExpeditedProposalsDecorator(cdc codec.BinaryCodec) GovExpeditedPropos
 // Legacy proposals submitted using "milkywayd tx gov submit-legacy-proposal" cannot be marked as expedited.
 func (g GovExpeditedProposalsDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (newCtx sdk.Context, err error) {
 	if expeditedPropDecoratorEnabled {
-		for _, msg := range tx.GetMsgs() {
-			prop, ok := msg.(*govv1.MsgSubmitProposal)
-			if !ok {
-				continue
-			}
-			if prop.Expedited {
-				if err := g.validateExpeditedGovProp(prop); err != nil {
-					return ctx, err
+		if err := g.validateMsgs(tx.GetMsgs()); err != nil {
+			return ctx, err
+		}
+	}
+	return next(ctx, tx, simulate)
+}
+
+// validateMsgs validates the expedited proposals submitted by the given messages,
+// either directly or through authz
+func (g GovExpeditedProposalsDecorator) validateMsgs(msgs []sdk.Msg) error {
+	for _, m := range msgs {
+		switch msg := m.(type) {
+		case *govv1.MsgSubmitProposal:
+			if msg.Expedited {
+				if err := g.validateExpeditedGovProp(msg); err != nil {
+					return err
 				}
 			}
+		case *authz.MsgExec:
+			innerMsgs, err := msg.GetMessages()
+			if err != nil {
+				return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
+			}
+			if err := g.validateMsgs(innerMsgs); err != nil {
+				return err
+			}
 		}
 	}
-	return next(ctx, tx, simulate)
+	return nil
 }
 
 func (g GovExpeditedProposalsDecorator) isWhitelisted(msgType string) bool {
-- 
2.43.0


From c39fccbb73b4cf664cd380756f7d093f086e6a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 25/40] fix: do not overflow the value of the assets with 19 or
 more decimals

---
 x/rewards/keeper/oracle.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index 388a7c6..bb6f900 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -2,7 +2,6 @@ package keeper
 
 import (
 	"context"
-	stdmath "math"
 
 	"cosmossdk.io/collections"
 	"cosmossdk.io/errors"
@@ -55,7 +54,7 @@ func (k *Keeper) GetCoinValue(ctx context.Context, coin sdk.Coin) (math.LegacyDe
 		return math.LegacyZeroDec(), nil
 	}
 
-	return price.MulInt(coin.Amount).QuoInt64(int64(stdmath.Pow10(int(asset.Exponent)))), nil
+	return price.MulInt(coin.Amount).QuoInt(math.NewIntWithDecimal(1, int(asset.Exponent))), nil
 }
 
 func (k *Keeper) GetCoinsValue(ctx context.Context, coins sdk.Coins) (math.LegacyDec, error) {
-- 
2.43.0


From 530c6c4a1b7d4cd4708b139ad1e84cef5bdc8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 26/40] fix: support the prices with more than 18 decimals

---
 x/rewards/keeper/oracle.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index bb6f900..ce6d4eb 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -41,7 +41,8 @@ func (k *Keeper) GetAssetAndPrice(ctx context.Context, denom string) (assetstype
 
 	// Divide returned quote price by 10^{decimals} gives us the real price in
 	// decimal number.
-	return asset, math.LegacyNewDecFromIntWithPrec(qpn.Price, int64(decimals)), nil
+	// NOTE: the decimals can exceed the precision of a LegacyDec
+	return asset, math.LegacyNewDecFromInt(qpn.Price).QuoInt(math.NewIntWithDecimal(1, int(decimals))), nil
 }
 
 func (k *Keeper) GetCoinValue(ctx context.Context, coin sdk.Coin) (math.LegacyDec, error) {
-- 
2.43.0


From f3c970fa2d028738234f2b55d1bb992f1d2ef600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 27/40] fix: do not keep the historical rewards set by the
 hooks when importing the genesis

---
 x/rewards/keeper/genesis.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/x/rewards/keeper/genesis.go b/x/rewards/keeper/genesis.go
index af6b170..59fb987 100644
--- a/x/rewards/keeper/genesis.go
+++ b/x/rewards/keeper/genesis.go
@@ -360,6 +360,16 @@ func (k *Keeper) initializeDelegationRecords(
 		totalOutstandingRewards = totalOutstandingRewards.Add(outstanding.OutstandingRewards.Sum()...)
 	}
 
+	// Remove the historical rewards that the hooks initialized when the targets were imported,
+	// as the period that they refer to might not be referenced anymore
+	for _, current := range records.CurrentRewards {
+		targetRange := collections.NewPrefixedPairRange[uint32, uint64](current.DelegationTargetID)
+		err = historicalRewardsCollection.Clear(ctx, targetRange)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// Store the historical rewards
 	for _, historical := range records.HistoricalRewards {
 		err = historicalRewardsCollection.Set(ctx, collections.Join(historical.DelegationTargetID, historical.Period), historical.Rewards)
-- 
2.43.0


From 8e0fdfb8b684ec6e655ebadface74a350bedd617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:16 +0000
Subject: [PATCH 28/40] fix: do not panic on deposit packets with invalid
 amounts

---
 x/liquidvesting/keeper/ibc.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/x/liquidvesting/keeper/ibc.go b/x/liquidvesting/keeper/ibc.go
index c6b68f9..c26c549 100644
--- a/x/liquidvesting/keeper/ibc.go
+++ b/x/liquidvesting/keeper/ibc.go
@@ -55,18 +55,20 @@ func (k *Keeper) OnRecvPacket(
 	if !ok {
 		return fmt.Errorf("invalid ics20 amount")
 	}
-	receivedAmount := sdk.NewCoin(data.Denom, amount)
 
 	// Ensure that we have received the same amount of tokens
 	// as the ones that needs to be added to the users' insurance fund
-	if !receivedAmount.Amount.Equal(totalDeposit) {
+	if !amount.Equal(totalDeposit) {
 		return fmt.Errorf("amount received is not equal to the amounts to deposit in the users' insurance fund")
 	}
 
 	// Deposit the amounts into the users' insurance fund
 	for _, deposit := range msgDepositInsurance.Amounts {
 		// Convert the insurance deposit to the representation of the received coin
-		ibcCoin := sdk.NewCoin(receivedDenom(packet, data), deposit.Amount)
+		ibcCoin := sdk.Coin{Denom: receivedDenom(packet, data), Amount: deposit.Amount}
+		if err := ibcCoin.Validate(); err != nil {
+			return err
+		}
 
 		err = k.AddToUserInsuranceFund(ctx, deposit.Depositor, sdk.NewCoins(ibcCoin))
 		if err != nil {
-- 
2.43.0


From 670117623c01a1f3d9f5fd4b0025f7ca2ca31ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:53 +0000
Subject: [PATCH 29/40] fix: refuse insurance fund deposits that are forwarded
 to another chain

---
 x/liquidvesting/ibc_module.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/liquidvesting/ibc_module.go b/x/liquidvesting/ibc_module.go
index 81f0fb0..fe92597 100644
--- a/x/liquidvesting/ibc_module.go
+++ b/x/liquidvesting/ibc_module.go
@@ -145,6 +145,12 @@ func (im IBCModule) OnRecvPacket(
 		return channeltypes.NewErrorAcknowledgement(err)
 	}
 
+	// The deposited tokens must stay in the module account, so they can not be
+	// forwarded to another chain by the packet forward middleware
+	if forward, _ := utils.JSONStringHasKey(data.GetMemo(), "forward"); forward {
+		return channeltypes.NewErrorAcknowledgement(errors.New("an insurance fund deposit can not be forwarded"))
+	}
+
 	// Handle the MsgDepositInsurance
 	if err := im.keeper.OnRecvPacket(ctx, packet, data, msgDepositInsurance); err != nil {
 		return channeltypes.NewErrorAcknowledgement(err)
-- 
2.43.0


From ac2d23a18a215c0cde29a6b9f2b9b2c07d84b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:53 +0000
Subject: [PATCH 30/40] fix: detect invalid exchange rates of services and
 operators

---
 utils/restaking.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/restaking.go b/utils/restaking.go
index fe74a88..9d1bec8 100644
--- a/utils/restaking.go
+++ b/utils/restaking.go
@@ -24,10 +24,11 @@ func GetTokenDenomFromSharesDenom(sharesDenom string) string {
 	return parts[2]
 }
 
-// IsInvalidExRate returns true if the delegated tokens are zero and the delegators shares are positive.
+// IsInvalidExRate returns true if the delegated tokens are zero and the delegators shares are positive for any denom.
 func IsInvalidExRate(delegatedTokens sdk.Coins, delegatorsShares sdk.DecCoins) bool {
-	for _, token := range delegatedTokens {
-		if token.IsZero() && delegatorsShares.AmountOf(token.Denom).IsPositive() {
+	for _, share := range delegatorsShares {
+		tokenDenom := GetTokenDenomFromSharesDenom(share.Denom)
+		if share.IsPositive() && delegatedTokens.AmountOfNoDenomValidation(tokenDenom).IsZero() {
 			return true
 		}
 	}
-- 
2.43.0


From 391b59d7e9cad0c2bde67ab68be4bfdb86ef4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:45 +0000
Subject: [PATCH 31/40] fix: value coins with any asset exponent

---
 x/rewards/keeper/oracle.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index ce6d4eb..b32c978 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -55,7 +55,18 @@ func (k *Keeper) GetCoinValue(ctx context.Context, coin sdk.Coin) (math.LegacyDe
 		return math.LegacyZeroDec(), nil
 	}
 
-	return price.MulInt(coin.Amount).QuoInt(math.NewIntWithDecimal(1, int(asset.Exponent))), nil
+	// 10^{maxPowerOfTen} is the greatest power of 10 that fits a math.Int, so greater
+	// exponents are applied in more steps
+	const maxPowerOfTen = 77
+	value := price.MulInt(coin.Amount)
+	exponent := asset.Exponent
+	for ; exponent > maxPowerOfTen && !value.IsZero(); exponent -= maxPowerOfTen {
+		value = value.QuoInt(math.NewIntWithDecimal(1, maxPowerOfTen))
+	}
+	if value.IsZero() {
+		return value, nil
+	}
+	return value.QuoInt(math.NewIntWithDecimal(1, int(exponent))), nil
 }
 
 func (k *Keeper) GetCoinsValue(ctx context.Context, coins sdk.Coins) (math.LegacyDec, error) {
-- 
2.43.0


From b3ecf205de0388b427d487a238abc8db3f6558c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 32/40] fix: list only the unbonding delegations of the
 requested target

The queries for the unbonding delegations from a pool, operator or service
returned the unbonding delegations from all the targets of that type.
---
 x/restaking/keeper/grpc_query.go | 54 +++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index 7c63b28..75c7153 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -253,19 +253,23 @@ func (k Querier) PoolUnbondingDelegations(ctx context.Context, req *types.QueryP
 	delegationsStore := prefix.NewStore(runtime.KVStoreAdapter(store), types.PoolUnbondingDelegationPrefix)
 
 	// Query the pool unbonding delegations for the given pool id
-	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
-		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
-		if err != nil {
-			return err
+	unbonds, pageRes, err := query.GenericFilteredPaginate(k.cdc, delegationsStore, req.Pagination, func(key []byte, unbond *types.UnbondingDelegation) (*types.UnbondingDelegation, error) {
+		if unbond.TargetID != req.PoolId {
+			return nil, nil
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		return unbond, nil
+	}, func() *types.UnbondingDelegation {
+		return &types.UnbondingDelegation{}
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
 	}
 
+	unbondingDelegations := make([]types.UnbondingDelegation, len(unbonds))
+	for i, unbond := range unbonds {
+		unbondingDelegations[i] = *unbond
+	}
+
 	return &types.QueryPoolUnbondingDelegationsResponse{
 		UnbondingDelegations: unbondingDelegations,
 		Pagination:           pageRes,
@@ -392,19 +396,23 @@ func (k Querier) OperatorUnbondingDelegations(ctx context.Context, req *types.Qu
 	delegationsStore := prefix.NewStore(runtime.KVStoreAdapter(store), types.OperatorUnbondingDelegationPrefix)
 
 	// Query the operator unbonding delegations for the given pool id
-	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
-		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
-		if err != nil {
-			return err
+	unbonds, pageRes, err := query.GenericFilteredPaginate(k.cdc, delegationsStore, req.Pagination, func(key []byte, unbond *types.UnbondingDelegation) (*types.UnbondingDelegation, error) {
+		if unbond.TargetID != req.OperatorId {
+			return nil, nil
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		return unbond, nil
+	}, func() *types.UnbondingDelegation {
+		return &types.UnbondingDelegation{}
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
 	}
 
+	unbondingDelegations := make([]types.UnbondingDelegation, len(unbonds))
+	for i, unbond := range unbonds {
+		unbondingDelegations[i] = *unbond
+	}
+
 	return &types.QueryOperatorUnbondingDelegationsResponse{
 		UnbondingDelegations: unbondingDelegations,
 		Pagination:           pageRes,
@@ -531,19 +539,23 @@ func (k Querier) ServiceUnbondingDelegations(ctx context.Context, req *types.Que
 	delegationsStore := prefix.NewStore(runtime.KVStoreAdapter(store), types.ServiceUnbondingDelegationPrefix)
 
 	// Query the service unbonding delegations for the given pool id
-	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
-		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
-		if err != nil {
-			return err
+	unbonds, pageRes, err := query.GenericFilteredPaginate(k.cdc, delegationsStore, req.Pagination, func(key []byte, unbond *types.UnbondingDelegation) (*types.UnbondingDelegation, error) {
+		if unbond.TargetID != req.ServiceId {
+			return nil, nil
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		return unbond, nil
+	}, func() *types.UnbondingDelegation {
+		return &types.UnbondingDelegation{}
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
 	}
 
+	unbondingDelegations := make([]types.UnbondingDelegation, len(unbonds))
+	for i, unbond := range unbonds {
+		unbondingDelegations[i] = *unbond
+	}
+
 	return &types.QueryServiceUnbondingDelegationsResponse{
 		UnbondingDelegations: unbondingDelegations,
 		Pagination:           pageRes,
-- 
2.43.0


From ea76caa6b8e660b77f3e97acbe50262c840d88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 33/40] fix: check the allow list of the right service in the
 service operators query

The service and operator ids were swapped, so the allow list of another
service was consulted.
---
 x/restaking/keeper/grpc_query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index 75c7153..6000ca2 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -140,7 +140,7 @@ func (k Querier) ServiceOperators(ctx context.Context, req *types.QueryServiceOp
 			// Here is k2 the operator id since the Service index provides association
 			// between a service and the operator securing it
 			operatorID := key.K2()
-			return k.CanOperatorValidateService(ctx, operatorID, req.ServiceId)
+			return k.CanOperatorValidateService(ctx, req.ServiceId, operatorID)
 		},
 		func(key collections.Pair[uint32, uint32], _ collections.NoValue) (operatorstypes.Operator, error) {
 			// Here is k2 the operator id since the Service index provides association
-- 
2.43.0


From 8242082edac49d9aeaf068acad5ced58725df941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 34/40] fix: create the liquid vesting module account when
 initializing the genesis

The address of the liquid vesting module is allowed to receive tokens. When
tokens reached it before the first mint, the bank module created a base account
at that address and from then on every mint panicked with "account is not a
module account".
---
 x/liquidvesting/keeper/genesis.go         | 8 ++++++++
 x/liquidvesting/types/expected_keepers.go | 1 +
 2 files changed, 9 insertions(+)

diff --git a/x/liquidvesting/keeper/genesis.go b/x/liquidvesting/keeper/genesis.go
index 618c3cc..0e5d24a 100644
--- a/x/liquidvesting/keeper/genesis.go
+++ b/x/liquidvesting/keeper/genesis.go
@@ -34,6 +34,14 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 		return err
 	}
 
+	// Make sure the module account exists. The module is allowed to receive tokens,
+	// so if the account is not created here the first incoming transfer would create
+	// a base account at its address, making it impossible to mint any token
+	moduleAcc := k.accountKeeper.GetModuleAccount(ctx, types.ModuleName)
+	if moduleAcc == nil {
+		return fmt.Errorf("%s module account has not been set", types.ModuleName)
+	}
+
 	// Store the params
 	err = k.SetParams(ctx, state.Params)
 	if err != nil {
diff --git a/x/liquidvesting/types/expected_keepers.go b/x/liquidvesting/types/expected_keepers.go
index 6b50d41..4347a23 100644
--- a/x/liquidvesting/types/expected_keepers.go
+++ b/x/liquidvesting/types/expected_keepers.go
@@ -13,6 +13,7 @@ import (
 
 type AccountKeeper interface {
 	AddressCodec() address.Codec
+	GetModuleAccount(ctx context.Context, moduleName string) sdk.ModuleAccountI
 }
 
 type BankKeeper interface {
-- 
2.43.0


From 9382aa057c94c9666bfc00c829ca03a3f56d2c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 35/40] fix: reading the next service, operator and pool id
 must not advance it

GetNext*ID used Sequence.Next, which stores the incremented value. Exporting
the state or checking the invariants therefore changed the state, and exporting
twice gave different genesis files.
---
 x/operators/keeper/operators.go | 6 +++---
 x/pools/keeper/pools.go         | 6 +++---
 x/services/keeper/services.go   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/x/operators/keeper/operators.go b/x/operators/keeper/operators.go
index c8ddb49..a8e0555 100644
--- a/x/operators/keeper/operators.go
+++ b/x/operators/keeper/operators.go
@@ -20,14 +20,14 @@ func (k *Keeper) SetNextOperatorID(ctx context.Context, operatorID uint32) error
 
 // GetNextOperatorID returns the next operator ID to be used when registering a new Operator
 func (k *Keeper) GetNextOperatorID(ctx context.Context) (operatorID uint32, err error) {
-	nextOperatorID, err := k.nextOperatorID.Next(ctx)
+	nextOperatorID, err := k.nextOperatorID.Peek(ctx)
 	if err != nil {
 		return 0, err
 	}
 
-	// If the next operator ID is 0, we need to increment it
+	// IDs start from 1
 	if nextOperatorID == 0 {
-		return k.GetNextOperatorID(ctx)
+		return 1, nil
 	}
 
 	return uint32(nextOperatorID), nil
diff --git a/x/pools/keeper/pools.go b/x/pools/keeper/pools.go
index 18c21ff..abdcc86 100644
--- a/x/pools/keeper/pools.go
+++ b/x/pools/keeper/pools.go
@@ -18,14 +18,14 @@ func (k *Keeper) SetNextPoolID(ctx context.Context, poolID uint32) error {
 
 // GetNextPoolID returns the next pool ID to be used when registering a new Pool
 func (k *Keeper) GetNextPoolID(ctx context.Context) (poolID uint32, err error) {
-	nextPoolID, err := k.nextPoolID.Next(ctx)
+	nextPoolID, err := k.nextPoolID.Peek(ctx)
 	if err != nil {
 		return 0, errors.Wrap(err, "failed to get next pool ID")
 	}
 
-	// If the next pool ID is 0, we need to increment it to 1
+	// IDs start from 1
 	if nextPoolID == 0 {
-		return k.GetNextPoolID(ctx)
+		return 1, nil
 	}
 
 	return uint32(nextPoolID), nil
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index d0c74c9..e5cb6b0 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -18,14 +18,14 @@ func (k *Keeper) SetNextServiceID(ctx context.Context, serviceID uint32) error {
 
 // GetNextServiceID returns the next service ID to be used when registering a new Service
 func (k *Keeper) GetNextServiceID(ctx context.Context) (serviceID uint32, err error) {
-	nextServiceID, err := k.nextServiceID.Next(ctx)
+	nextServiceID, err := k.nextServiceID.Peek(ctx)
 	if err != nil {
 		return 0, err
 	}
 
-	// If the next service ID is 0, we need to increment it
+	// IDs start from 1
 	if nextServiceID == 0 {
-		return k.GetNextServiceID(ctx)
+		return 1, nil
 	}
 
 	return uint32(nextServiceID), nil
-- 
2.43.0


From c94a180d723c3c627caccdeb936cb3ed4563a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 36/40] fix: reset the heights of the restaking rewards periods
 when exporting for height zero

A delegator withdrawing on the restarted chain at the height at which their
rewards period started on the old chain lost all the rewards of that period.
---
 app/export.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/app/export.go b/app/export.go
index c205d01..95d7932 100644
--- a/app/export.go
+++ b/app/export.go
@@ -5,6 +5,7 @@ import (
 
 	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
 
+	"cosmossdk.io/collections"
 	storetypes "cosmossdk.io/store/types"
 
 	servertypes "github.com/cosmos/cosmos-sdk/server/types"
@@ -12,6 +13,8 @@ import (
 	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
 	"github.com/cosmos/cosmos-sdk/x/staking"
 	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
+
+	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
 )
 
 // ExportAppStateAndValidators exports the state of the application for a genesis
@@ -255,6 +258,31 @@ func (app *MilkyWayApp) prepForZeroHeightGenesis(ctx sdk.Context, jailAllowedAdd
 		panic(err)
 	}
 
+	/* Handle rewards state. */
+
+	// reset the starting height of the restaking rewards periods. Otherwise the rewards of
+	// a delegator withdrawing at the same height of the new chain would be lost
+	for _, startingInfos := range []collections.Map[collections.Pair[uint32, sdk.AccAddress], rewardstypes.DelegatorStartingInfo]{
+		app.RewardsKeeper.PoolDelegatorStartingInfos,
+		app.RewardsKeeper.OperatorDelegatorStartingInfos,
+		app.RewardsKeeper.ServiceDelegatorStartingInfos,
+	} {
+		iterator, err := startingInfos.Iterate(ctx, nil)
+		if err != nil {
+			panic(err)
+		}
+		infos, err := iterator.KeyValues()
+		if err != nil {
+			panic(err)
+		}
+		for _, info := range infos {
+			info.Value.Height = 0
+			if err := startingInfos.Set(ctx, info.Key, info.Value); err != nil {
+				panic(err)
+			}
+		}
+	}
+
 	/* Handle slashing state. */
 
 	// reset start height on signing infos
-- 
2.43.0


From ef02b56bd83bd7dc777fc7b82f24190ae0fcbe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 37/40] fix: restake and set the preferences of a user under a
 single address spelling

---
 x/restaking/keeper/alias_functions.go | 12 +++++
 x/restaking/keeper/msg_server.go      | 63 +++++++++++++++++++++------
 2 files changed, 61 insertions(+), 14 deletions(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index 5386fa8..1c13616 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -603,6 +603,18 @@ func (k *Keeper) GetAllUserRestakedCoins(ctx context.Context, userAddress string
 	return totalDelegatedCoins, nil
 }
 
+// normalizeAddress returns the canonical representation of the given bech32 address.
+// NOTE: Bech32 addresses can also be written using only uppercase characters. Since delegations, unbonding
+// delegations and preferences are stored by using the string representation of the user address, it needs to be
+// normalized in order to make sure that all of them are associated to the same user.
+func (k *Keeper) normalizeAddress(address string) (string, error) {
+	addressBz, err := k.accountKeeper.AddressCodec().StringToBytes(address)
+	if err != nil {
+		return "", err
+	}
+	return k.accountKeeper.AddressCodec().BytesToString(addressBz)
+}
+
 // PerformDelegation performs a delegation of the given amount from the delegator to the receiver.
 // It sends the coins to the receiver address and updates the delegation object and returns the new
 // shares of the delegation.
diff --git a/x/restaking/keeper/msg_server.go b/x/restaking/keeper/msg_server.go
index bfab594..59cedb4 100644
--- a/x/restaking/keeper/msg_server.go
+++ b/x/restaking/keeper/msg_server.go
@@ -327,7 +327,12 @@ func (k msgServer) DelegatePool(ctx context.Context, msg *types.MsgDelegatePool)
 		)
 	}
 
-	newShares, err := k.DelegateToPool(ctx, msg.Amount, msg.Delegator)
+	delegator, err := k.normalizeAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
+	newShares, err := k.DelegateToPool(ctx, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -347,7 +352,7 @@ func (k msgServer) DelegatePool(ctx context.Context, msg *types.MsgDelegatePool)
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeDelegatePool,
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
 			sdk.NewAttribute(types.AttributeKeyNewShares, newShares.String()),
 		),
@@ -358,8 +363,13 @@ func (k msgServer) DelegatePool(ctx context.Context, msg *types.MsgDelegatePool)
 
 // UndelegatePool defines the rpc method for Msg/UndelegatePool
 func (k msgServer) UndelegatePool(ctx context.Context, msg *types.MsgUndelegatePool) (*types.MsgUndelegateResponse, error) {
+	delegator, err := k.normalizeAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
 	// Perform the undelegation
-	completionTime, err := k.UndelegateFromPool(ctx, msg.Amount, msg.Delegator)
+	completionTime, err := k.UndelegateFromPool(ctx, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -382,7 +392,7 @@ func (k msgServer) UndelegatePool(ctx context.Context, msg *types.MsgUndelegateP
 		sdk.NewEvent(
 			types.EventTypeUnbondPool,
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(types.AttributeKeyCompletionTime, completionTime.Format(time.RFC3339)),
 		),
 	})
@@ -401,7 +411,12 @@ func (k msgServer) DelegateOperator(ctx context.Context, msg *types.MsgDelegateO
 		)
 	}
 
-	newShares, err := k.Keeper.DelegateToOperator(ctx, msg.OperatorID, msg.Amount, msg.Delegator)
+	delegator, err := k.normalizeAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
+	newShares, err := k.Keeper.DelegateToOperator(ctx, msg.OperatorID, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -426,7 +441,7 @@ func (k msgServer) DelegateOperator(ctx context.Context, msg *types.MsgDelegateO
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeDelegateOperator,
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(operatorstypes.AttributeKeyOperatorID, fmt.Sprintf("%d", msg.OperatorID)),
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
 			sdk.NewAttribute(types.AttributeKeyNewShares, newShares.String()),
@@ -438,8 +453,13 @@ func (k msgServer) DelegateOperator(ctx context.Context, msg *types.MsgDelegateO
 
 // UndelegateOperator defines the rpc method for Msg/UndelegateOperator
 func (k msgServer) UndelegateOperator(ctx context.Context, msg *types.MsgUndelegateOperator) (*types.MsgUndelegateResponse, error) {
+	delegator, err := k.normalizeAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
 	// Perform the undelegation
-	completionTime, err := k.Keeper.UndelegateFromOperator(ctx, msg.OperatorID, msg.Amount, msg.Delegator)
+	completionTime, err := k.Keeper.UndelegateFromOperator(ctx, msg.OperatorID, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -467,7 +487,7 @@ func (k msgServer) UndelegateOperator(ctx context.Context, msg *types.MsgUndeleg
 		sdk.NewEvent(
 			types.EventTypeUnbondOperator,
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(operatorstypes.AttributeKeyOperatorID, fmt.Sprintf("%d", msg.OperatorID)),
 			sdk.NewAttribute(types.AttributeKeyCompletionTime, completionTime.Format(time.RFC3339)),
 		),
@@ -487,7 +507,12 @@ func (k msgServer) DelegateService(ctx context.Context, msg *types.MsgDelegateSe
 		)
 	}
 
-	newShares, err := k.Keeper.DelegateToService(ctx, msg.ServiceID, msg.Amount, msg.Delegator)
+	delegator, err := k.normalizeAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
+	newShares, err := k.Keeper.DelegateToService(ctx, msg.ServiceID, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -512,7 +537,7 @@ func (k msgServer) DelegateService(ctx context.Context, msg *types.MsgDelegateSe
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeDelegateService,
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(servicestypes.AttributeKeyServiceID, fmt.Sprintf("%d", msg.ServiceID)),
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
 			sdk.NewAttribute(types.AttributeKeyNewShares, newShares.String()),
@@ -524,8 +549,13 @@ func (k msgServer) DelegateService(ctx context.Context, msg *types.MsgDelegateSe
 
 // UndelegateService defines the rpc method for Msg/UndelegateService
 func (k msgServer) UndelegateService(ctx context.Context, msg *types.MsgUndelegateService) (*types.MsgUndelegateResponse, error) {
+	delegator, err := k.normalizeAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
 	// Perform the undelegation
-	completionTime, err := k.Keeper.UndelegateFromService(ctx, msg.ServiceID, msg.Amount, msg.Delegator)
+	completionTime, err := k.Keeper.UndelegateFromService(ctx, msg.ServiceID, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -553,7 +583,7 @@ func (k msgServer) UndelegateService(ctx context.Context, msg *types.MsgUndelega
 		sdk.NewEvent(
 			types.EventTypeUnbondService,
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(servicestypes.AttributeKeyServiceID, fmt.Sprintf("%d", msg.ServiceID)),
 			sdk.NewAttribute(types.AttributeKeyCompletionTime, completionTime.Format(time.RFC3339)),
 		),
@@ -578,7 +608,12 @@ func (k msgServer) SetUserPreferences(ctx context.Context, msg *types.MsgSetUser
 		}
 	}
 
-	err := k.Keeper.SetUserPreferences(ctx, msg.User, msg.Preferences)
+	user, err := k.normalizeAddress(msg.User)
+	if err != nil {
+		return nil, err
+	}
+
+	err = k.Keeper.SetUserPreferences(ctx, user, msg.Preferences)
 	if err != nil {
 		return nil, err
 	}
@@ -588,7 +623,7 @@ func (k msgServer) SetUserPreferences(ctx context.Context, msg *types.MsgSetUser
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeSetUserPreferences,
-			sdk.NewAttribute(types.AttributeKeyUser, msg.User),
+			sdk.NewAttribute(types.AttributeKeyUser, user),
 		),
 	})
 
-- 
2.43.0


From 0ef52f6c3ab59c52abeecdc2da4ae6d8a1ade37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 38/40] fix: keep a single insurance fund per user regardless
 of the address spelling

---
 x/liquidvesting/keeper/ibc.go            |  9 +++++++--
 x/liquidvesting/keeper/insurance_fund.go | 12 ++++++++++++
 x/liquidvesting/keeper/msg_server.go     | 11 ++++++++---
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/x/liquidvesting/keeper/ibc.go b/x/liquidvesting/keeper/ibc.go
index c26c549..18a61ce 100644
--- a/x/liquidvesting/keeper/ibc.go
+++ b/x/liquidvesting/keeper/ibc.go
@@ -70,7 +70,12 @@ func (k *Keeper) OnRecvPacket(
 			return err
 		}
 
-		err = k.AddToUserInsuranceFund(ctx, deposit.Depositor, sdk.NewCoins(ibcCoin))
+		depositor, err := k.normalizeAddress(deposit.Depositor)
+		if err != nil {
+			return err
+		}
+
+		err = k.AddToUserInsuranceFund(ctx, depositor, sdk.NewCoins(ibcCoin))
 		if err != nil {
 			return err
 		}
@@ -78,7 +83,7 @@ func (k *Keeper) OnRecvPacket(
 		// Dispatch the deposit event.
 		ctx.EventManager().EmitEvent(
 			sdk.NewEvent(types.EventTypeDepositToUserInsuranceFund,
-				sdk.NewAttribute(types.AttributeKeyUser, deposit.Depositor),
+				sdk.NewAttribute(types.AttributeKeyUser, depositor),
 				sdk.NewAttribute(sdk.AttributeKeyAmount, amount.String()),
 			),
 		)
diff --git a/x/liquidvesting/keeper/insurance_fund.go b/x/liquidvesting/keeper/insurance_fund.go
index 7509ed2..b78ec09 100644
--- a/x/liquidvesting/keeper/insurance_fund.go
+++ b/x/liquidvesting/keeper/insurance_fund.go
@@ -11,6 +11,18 @@ import (
 	"github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
 )
 
+// normalizeAddress returns the canonical representation of the given bech32 address.
+// NOTE: Bech32 addresses can also be written using only uppercase characters. Since the insurance funds are
+// stored by using the string representation of the user address, it needs to be normalized in order to make
+// sure that each user has a single insurance fund.
+func (k *Keeper) normalizeAddress(address string) (string, error) {
+	addressBz, err := k.accountKeeper.AddressCodec().StringToBytes(address)
+	if err != nil {
+		return "", err
+	}
+	return k.accountKeeper.AddressCodec().BytesToString(addressBz)
+}
+
 // AddToUserInsuranceFund adds the provided amount to the user's insurance fund.
 // NOTE: We assume that the amount that will be added to the user's insurance fund
 // is already present in the module account balance.
diff --git a/x/liquidvesting/keeper/msg_server.go b/x/liquidvesting/keeper/msg_server.go
index 4cfd67e..769358d 100644
--- a/x/liquidvesting/keeper/msg_server.go
+++ b/x/liquidvesting/keeper/msg_server.go
@@ -100,7 +100,12 @@ func (m msgServer) BurnLockedRepresentation(ctx context.Context, msg *types.MsgB
 
 // WithdrawInsuranceFund implements types.MsgServer.
 func (m msgServer) WithdrawInsuranceFund(ctx context.Context, msg *types.MsgWithdrawInsuranceFund) (*types.MsgWithdrawInsuranceFundResponse, error) {
-	canWithdraw, err := m.CanWithdrawFromInsuranceFund(ctx, msg.Sender, msg.Amount)
+	sender, err := m.normalizeAddress(msg.Sender)
+	if err != nil {
+		return nil, err
+	}
+
+	canWithdraw, err := m.CanWithdrawFromInsuranceFund(ctx, sender, msg.Amount)
 	if err != nil {
 		return nil, err
 	}
@@ -110,7 +115,7 @@ func (m msgServer) WithdrawInsuranceFund(ctx context.Context, msg *types.MsgWith
 	}
 
 	// Send the tokens back to the user
-	err = m.WithdrawFromUserInsuranceFund(ctx, msg.Sender, msg.Amount)
+	err = m.WithdrawFromUserInsuranceFund(ctx, sender, msg.Amount)
 	if err != nil {
 		return nil, err
 	}
@@ -119,7 +124,7 @@ func (m msgServer) WithdrawInsuranceFund(ctx context.Context, msg *types.MsgWith
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeWithdrawInsuranceFund,
-			sdk.NewAttribute(sdk.AttributeKeySender, msg.Sender),
+			sdk.NewAttribute(sdk.AttributeKeySender, sender),
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
 		),
 	})
-- 
2.43.0


From 61768ae1b7b111e6e70c8fd36a617ecefab520a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 39/40] fix: store the services and operators admins using
 their canonical address

---
 x/operators/keeper/msg_server.go | 14 ++++++++++++--
 x/services/keeper/msg_server.go  | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/x/operators/keeper/msg_server.go b/x/operators/keeper/msg_server.go
index d5c13e0..bea2cfc 100644
--- a/x/operators/keeper/msg_server.go
+++ b/x/operators/keeper/msg_server.go
@@ -30,6 +30,12 @@ func (k msgServer) RegisterOperator(ctx context.Context, msg *types.MsgRegisterO
 		return nil, err
 	}
 
+	// Use the canonical representation of the sender address as the admin one
+	adminAddress, err := sdk.AccAddressFromBech32(msg.Sender)
+	if err != nil {
+		return nil, errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid sender address: %s", msg.Sender)
+	}
+
 	// Create the new operator
 	operator := types.NewOperator(
 		operatorID,
@@ -37,7 +43,7 @@ func (k msgServer) RegisterOperator(ctx context.Context, msg *types.MsgRegisterO
 		msg.Moniker,
 		msg.Website,
 		msg.PictureURL,
-		msg.Sender,
+		adminAddress.String(),
 	)
 
 	// Validate the operator before storing
@@ -258,7 +264,11 @@ func (k msgServer) TransferOperatorOwnership(ctx context.Context, msg *types.Msg
 	}
 
 	// Update the operator admin
-	operator.Admin = msg.NewAdmin
+	newAdminAddress, err := sdk.AccAddressFromBech32(msg.NewAdmin)
+	if err != nil {
+		return nil, errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid new admin address: %s", msg.NewAdmin)
+	}
+	operator.Admin = newAdminAddress.String()
 	if err := k.SaveOperator(ctx, operator); err != nil {
 		return nil, err
 	}
diff --git a/x/services/keeper/msg_server.go b/x/services/keeper/msg_server.go
index cc7d2a8..1e4a4d5 100644
--- a/x/services/keeper/msg_server.go
+++ b/x/services/keeper/msg_server.go
@@ -32,6 +32,12 @@ func (k msgServer) CreateService(goCtx context.Context, msg *types.MsgCreateServ
 		return nil, err
 	}
 
+	// Use the canonical representation of the sender address as the admin one
+	adminAddress, err := sdk.AccAddressFromBech32(msg.Sender)
+	if err != nil {
+		return nil, errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid sender address: %s", msg.Sender)
+	}
+
 	// Create the Service and validate it
 	service := types.NewService(
 		serviceID,
@@ -40,7 +46,7 @@ func (k msgServer) CreateService(goCtx context.Context, msg *types.MsgCreateServ
 		msg.Description,
 		msg.Website,
 		msg.PictureURL,
-		msg.Sender,
+		adminAddress.String(),
 		false,
 	)
 
@@ -265,7 +271,11 @@ func (k msgServer) TransferServiceOwnership(ctx context.Context, msg *types.MsgT
 	}
 
 	// Update the service admin
-	service.Admin = msg.NewAdmin
+	newAdminAddress, err := sdk.AccAddressFromBech32(msg.NewAdmin)
+	if err != nil {
+		return nil, errors.Wrapf(sdkerrors.ErrInvalidAddress, "invalid new admin address: %s", msg.NewAdmin)
+	}
+	service.Admin = newAdminAddress.String()
 	if err := k.SaveService(ctx, service); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b2955bdcd00e6523a576c9abe42aff98493bf999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:06 +0000
Subject: [PATCH 40/40] fix: value assets whose currency pair has no price yet
 at zero

A currency pair registered in the oracle has a nil price until its first
update. Valuing an asset of such a pair panicked, so every rewards plan
involving a pool or target holding it was skipped at each block and the
queries reading it failed.
---
 x/rewards/keeper/oracle.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index b32c978..f75a8ab 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -34,6 +34,11 @@ func (k *Keeper) GetAssetAndPrice(ctx context.Context, denom string) (assetstype
 		return asset, math.LegacyDec{}, err
 	}
 
+	// A currency pair has no price until its first update, return 0 as well.
+	if qpn.Price.IsNil() {
+		return asset, math.LegacyZeroDec(), nil
+	}
+
 	decimals, err := k.oracleKeeper.GetDecimalsForCurrencyPair(sdkCtx, cp)
 	if err != nil {
 		return asset, math.LegacyDec{}, err
-- 
2.43.0

