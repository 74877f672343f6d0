package main

import (
	"context"
	"fmt"
	"math/rand"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/types/query"

	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// disturber does everything to a node that must not influence the blocks.
type disturber struct {
	r   *rand.Rand
	st  *stats
	rec *chainRec
}

// disturb acts on the node before block k (counted from 0) of the chain is executed.
func (d *disturber) disturb(n *Node, k int) {
	b := d.rec.Blocks[k]
	for c := d.r.Intn(5); c > 0; c-- {
		switch d.r.Intn(5) {
		case 0: // transactions of this block arrive in the mempool, in any order
			for _, tx := range b.Txs {
				if d.r.Intn(3) > 0 {
					_, _ = safely(func() error {
						_, err := n.App.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType(d.r.Intn(2))})
						return err
					})
					d.st.ev("checktx")
				}
			}
		case 1: // transactions of later blocks
			for _, l := range d.rec.Blocks[k:] {
				for _, tx := range l.Txs {
					if d.r.Intn(10) == 0 {
						_, _ = safely(func() error { _, err := n.App.CheckTx(&abci.RequestCheckTx{Tx: tx}); return err })
						d.st.ev("checktx")
					}
				}
			}
		case 2:
			for _, l := range d.rec.Blocks[k:] {
				for _, tx := range l.Txs {
					if d.r.Intn(6) == 0 {
						_, _ = safely(func() error { _, _, err := n.App.Simulate(tx); return err })
						d.st.ev("simulations")
					}
				}
			}
		case 3:
			for j := 0; j < 12; j++ {
				d.query(n, d.height(n))
			}
		case 4:
			_, _ = safely(func() error {
				rp, err := n.App.PrepareProposal(&abci.RequestPrepareProposal{Height: n.Height + 1, Time: n.Time.Add(time.Duration(b.Dt)), Txs: b.Txs, MaxTxBytes: 20_000_000, ProposerAddress: valKey().PubKey().Address()})
				if err != nil {
					return err
				}
				d.st.ev("proposals-prepared")
				_, err = n.App.ProcessProposal(&abci.RequestProcessProposal{Height: n.Height + 1, Time: n.Time.Add(time.Duration(b.Dt)), Txs: rp.Txs, ProposerAddress: valKey().PubKey().Address(), Hash: []byte(fmt.Sprintf("%032d", n.Height+1))})
				if err == nil {
					d.st.ev("proposals-processed")
				}
				return err
			})
		}
	}
}

func (d *disturber) height(n *Node) int64 {
	if d.r.Intn(3) == 0 && n.Height > 1 {
		return 1 + d.r.Int63n(n.Height)
	}
	return n.Height
}

// randomQuery makes up a query of a client.
func randomQuery(r *rand.Rand) (string, codecMsg) {
	u := actorList[r.Intn(len(actorList))].Str
	id := uint32(1 + r.Intn(4))
	pg := &query.PageRequest{Limit: uint64(r.Intn(4)), CountTotal: r.Intn(2) == 0}
	qs := []struct {
		p string
		m codecMsg
	}{
		{"/milkyway.restaking.v1.Query/PoolDelegations", &restakingtypes.QueryPoolDelegationsRequest{PoolId: id, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/OperatorDelegations", &restakingtypes.QueryOperatorDelegationsRequest{OperatorId: id, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/ServiceDelegations", &restakingtypes.QueryServiceDelegationsRequest{ServiceId: id, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/PoolUnbondingDelegations", &restakingtypes.QueryPoolUnbondingDelegationsRequest{PoolId: id, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/DelegatorPoolDelegations", &restakingtypes.QueryDelegatorPoolDelegationsRequest{DelegatorAddress: u, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/DelegatorOperatorDelegations", &restakingtypes.QueryDelegatorOperatorDelegationsRequest{DelegatorAddress: u, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/DelegatorServiceDelegations", &restakingtypes.QueryDelegatorServiceDelegationsRequest{DelegatorAddress: u, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/DelegatorPools", &restakingtypes.QueryDelegatorPoolsRequest{DelegatorAddress: u, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/DelegatorOperators", &restakingtypes.QueryDelegatorOperatorsRequest{DelegatorAddress: u, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/DelegatorServices", &restakingtypes.QueryDelegatorServicesRequest{DelegatorAddress: u, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/UserPreferences", &restakingtypes.QueryUserPreferencesRequest{UserAddress: u}},
		{"/milkyway.restaking.v1.Query/ServiceOperators", &restakingtypes.QueryServiceOperatorsRequest{ServiceId: id, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/ServiceAllowedOperators", &restakingtypes.QueryServiceAllowedOperatorsRequest{ServiceId: id, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/ServiceSecuringPools", &restakingtypes.QueryServiceSecuringPoolsRequest{ServiceId: id, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/OperatorJoinedServices", &restakingtypes.QueryOperatorJoinedServicesRequest{OperatorId: id, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/Params", &restakingtypes.QueryParamsRequest{}},
		{"/milkyway.restaking.v1.Query/OperatorUnbondingDelegations", &restakingtypes.QueryOperatorUnbondingDelegationsRequest{OperatorId: id, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/ServiceUnbondingDelegations", &restakingtypes.QueryServiceUnbondingDelegationsRequest{ServiceId: id, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/DelegatorPoolUnbondingDelegations", &restakingtypes.QueryDelegatorPoolUnbondingDelegationsRequest{DelegatorAddress: u, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/DelegatorOperatorUnbondingDelegations", &restakingtypes.QueryDelegatorOperatorUnbondingDelegationsRequest{DelegatorAddress: u, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/DelegatorServiceUnbondingDelegations", &restakingtypes.QueryDelegatorServiceUnbondingDelegationsRequest{DelegatorAddress: u, Pagination: pg}},
		{"/milkyway.restaking.v1.Query/PoolDelegation", &restakingtypes.QueryPoolDelegationRequest{DelegatorAddress: u, PoolId: id}},
		{"/milkyway.restaking.v1.Query/OperatorDelegation", &restakingtypes.QueryOperatorDelegationRequest{DelegatorAddress: u, OperatorId: id}},
		{"/milkyway.restaking.v1.Query/ServiceDelegation", &restakingtypes.QueryServiceDelegationRequest{DelegatorAddress: u, ServiceId: id}},
		{"/milkyway.restaking.v1.Query/PoolUnbondingDelegation", &restakingtypes.QueryPoolUnbondingDelegationRequest{DelegatorAddress: u, PoolId: id}},
		{"/milkyway.restaking.v1.Query/DelegatorPool", &restakingtypes.QueryDelegatorPoolRequest{DelegatorAddress: u, PoolId: id}},
		{"/milkyway.restaking.v1.Query/DelegatorOperator", &restakingtypes.QueryDelegatorOperatorRequest{DelegatorAddress: u, OperatorId: id}},
		{"/milkyway.restaking.v1.Query/DelegatorService", &restakingtypes.QueryDelegatorServiceRequest{DelegatorAddress: u, ServiceId: id}},
		{"/milkyway.rewards.v1.Query/DelegatorWithdrawAddress", &rewardstypes.QueryDelegatorWithdrawAddressRequest{DelegatorAddress: u}},
		{"/milkyway.rewards.v1.Query/RewardsPlan", &rewardstypes.QueryRewardsPlanRequest{PlanId: uint64(id)}},
		{"/milkyway.rewards.v1.Query/Params", &rewardstypes.QueryParamsRequest{}},
		{"/milkyway.services.v1.Query/Params", &servicestypes.QueryParamsRequest{}},
		{"/milkyway.operators.v1.Query/Params", &operatorstypes.QueryParamsRequest{}},
		{"/milkyway.rewards.v1.Query/DelegatorTotalRewards", &rewardstypes.QueryDelegatorTotalRewardsRequest{DelegatorAddress: u}},
		{"/milkyway.rewards.v1.Query/PoolDelegationRewards", &rewardstypes.QueryPoolDelegationRewardsRequest{DelegatorAddress: u, PoolId: id}},
		{"/milkyway.rewards.v1.Query/OperatorDelegationRewards", &rewardstypes.QueryOperatorDelegationRewardsRequest{DelegatorAddress: u, OperatorId: id}},
		{"/milkyway.rewards.v1.Query/ServiceDelegationRewards", &rewardstypes.QueryServiceDelegationRewardsRequest{DelegatorAddress: u, ServiceId: id}},
		{"/milkyway.rewards.v1.Query/OperatorCommission", &rewardstypes.QueryOperatorCommissionRequest{OperatorId: id}},
		{"/milkyway.rewards.v1.Query/PoolOutstandingRewards", &rewardstypes.QueryPoolOutstandingRewardsRequest{PoolId: id}},
		{"/milkyway.rewards.v1.Query/OperatorOutstandingRewards", &rewardstypes.QueryOperatorOutstandingRewardsRequest{OperatorId: id}},
		{"/milkyway.rewards.v1.Query/ServiceOutstandingRewards", &rewardstypes.QueryServiceOutstandingRewardsRequest{ServiceId: id}},
		{"/milkyway.rewards.v1.Query/RewardsPlans", &rewardstypes.QueryRewardsPlansRequest{Pagination: pg}},
		{"/milkyway.services.v1.Query/Services", &servicestypes.QueryServicesRequest{Pagination: pg}},
		{"/milkyway.services.v1.Query/Service", &servicestypes.QueryServiceRequest{ServiceId: id}},
		{"/milkyway.services.v1.Query/ServiceParams", &servicestypes.QueryServiceParamsRequest{ServiceId: id}},
		{"/milkyway.operators.v1.Query/Operators", &operatorstypes.QueryOperatorsRequest{Pagination: pg}},
		{"/milkyway.operators.v1.Query/Operator", &operatorstypes.QueryOperatorRequest{OperatorId: id}},
		{"/milkyway.operators.v1.Query/OperatorParams", &operatorstypes.QueryOperatorParamsRequest{OperatorId: id}},
		{"/milkyway.pools.v1.Query/Pools", &poolstypes.QueryPoolsRequest{Pagination: pg}},
		{"/milkyway.pools.v1.Query/PoolByID", &poolstypes.QueryPoolByIdRequest{PoolId: id}},
		{"/milkyway.pools.v1.Query/PoolByDenom", &poolstypes.QueryPoolByDenomRequest{Denom: dAtom}},
		{"/milkyway.assets.v1.Query/Assets", &assetstypes.QueryAssetsRequest{Pagination: pg}},
		{"/milkyway.assets.v1.Query/Asset", &assetstypes.QueryAssetRequest{Denom: dAtom}},
		{"/milkyway.liquidvesting.v1.Query/UserInsuranceFund", &lvtypes.QueryUserInsuranceFundRequest{UserAddress: u}},
		{"/milkyway.liquidvesting.v1.Query/UserInsuranceFunds", &lvtypes.QueryUserInsuranceFundsRequest{Pagination: pg}},
		{"/milkyway.liquidvesting.v1.Query/UserRestakableAssets", &lvtypes.QueryUserRestakableAssetsRequest{UserAddress: u}},
		{"/milkyway.liquidvesting.v1.Query/InsuranceFund", &lvtypes.QueryInsuranceFundRequest{}},
		{"/milkyway.liquidvesting.v1.Query/Params", &lvtypes.QueryParamsRequest{}},
	}
	q := qs[r.Intn(len(qs))]
	return q.p, q.m
}

func (d *disturber) query(n *Node, h int64) {
	p, m := randomQuery(d.r)
	bz, err := n.App.AppCodec().Marshal(m)
	must(err)
	_, _ = safely(func() error {
		r, err := n.App.Query(context.Background(), &abci.RequestQuery{Path: p, Data: bz, Height: h})
		if err != nil {
			return err
		}
		if r.Code == 0 {
			d.st.ev("queries-answered")
		} else {
			d.st.ev("queries-refused")
		}
		return nil
	})
}
