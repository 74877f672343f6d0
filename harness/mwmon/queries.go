package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	gogoproto "github.com/cosmos/gogoproto/proto"

	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// queryCheck asks the application's query router and compares the answers with the records in the state.
type queryCheck struct {
	r  *runner
	rn *rand.Rand
	c  *cmp
	n  int
}

type record struct {
	key  string
	show string
}

func canon(v reflect.Value) record {
	if v.CanAddr() {
		if m, ok := v.Addr().Interface().(gogoproto.Message); ok {
			bz, err := gogoproto.Marshal(m)
			must(err)
			return record{string(bz), cut(fmt.Sprint(m), 200)}
		}
	}
	s := fmt.Sprint(v.Interface())
	return record{s, s}
}

func recordOf(m gogoproto.Message) record { return canon(reflect.ValueOf(m).Elem()) }

func recordsOf[T any](l []T) []record {
	out := []record{}
	v := reflect.ValueOf(&l).Elem()
	for i := 0; i < v.Len(); i++ {
		out = append(out, canon(v.Index(i)))
	}
	return out
}

func filter[T any](l []T, f func(T) bool) []T {
	var out []T
	for _, x := range l {
		if f(x) {
			out = append(out, x)
		}
	}
	return out
}

func shown(l []record) string {
	s := []string{}
	for i, r := range l {
		if i == 4 {
			s = append(s, "...")
			break
		}
		s = append(s, r.show)
	}
	return fmt.Sprintf("%d{%s}", len(l), strings.Join(s, " ; "))
}

func sameSeq(a, b []record) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].key != b[i].key {
			return false
		}
	}
	return true
}

func sameSet(a, b []record) bool {
	k := func(l []record) []record {
		l = append([]record(nil), l...)
		sort.Slice(l, func(i, j int) bool { return l[i].key < l[j].key })
		return l
	}
	return sameSeq(k(a), k(b))
}

func reversed(l []record) []record {
	out := make([]record, 0, len(l))
	for i := len(l) - 1; i >= 0; i-- {
		out = append(out, l[i])
	}
	return out
}

func (q *queryCheck) ask(path string, req, resp codecMsg) error {
	q.n++
	return q.r.w.Query(q.r.w.ctx, path, req, resp)
}

// list checks a paginated query.
func (q *queryCheck) list(path string, req, resp codecMsg, want []record) {
	if len(q.c.discs) > 0 {
		return
	}
	page := func(pg *query.PageRequest) ([]record, *query.PageResponse, bool) {
		reflect.ValueOf(req).Elem().FieldByName("Pagination").Set(reflect.ValueOf(pg))
		out := reflect.New(reflect.TypeOf(resp).Elem())
		if err := q.ask(path, req, out.Interface().(codecMsg)); err != nil {
			q.c.d("R12", "query %s(%v) failed: %v", path, req, err)
			return nil, nil, false
		}
		pr, _ := out.Elem().FieldByName("Pagination").Interface().(*query.PageResponse)
		if pr == nil {
			pr = &query.PageResponse{}
		}
		var items []record
		for i := 0; i < out.Elem().NumField(); i++ {
			if f := out.Elem().Field(i); f.Kind() == reflect.Slice {
				for j := 0; j < f.Len(); j++ {
					items = append(items, canon(f.Index(j)))
				}
				break
			}
		}
		return items, pr, true
	}
	// everything at once
	var first *query.PageRequest
	if q.rn.Intn(3) > 0 {
		first = &query.PageRequest{Limit: 1000, CountTotal: q.rn.Intn(2) == 0}
	}
	all, pr, ok := page(first)
	if !ok {
		return
	}
	if first == nil && len(want) > 100 { // the default page
		if len(all) != 100 {
			q.c.d("R12", "query %s(%v) returned %d of %d records without a page request, want 100", path, req, len(all), len(want))
			return
		}
		q.r.st.ev("queries-default-page")
		first = &query.PageRequest{Limit: 1000}
		if all, pr, ok = page(first); !ok {
			return
		}
	}
	if !sameSet(all, want) {
		q.c.d("R12", "query %s(%v) returned %s, want %s", path, req, shown(all), shown(want))
		return
	}
	if first != nil && first.CountTotal && pr.Total != uint64(len(want)) {
		q.c.d("R12", "query %s(%v) reports a total of %d records, want %d", path, req, pr.Total, len(want))
		return
	}
	if len(want) < 2 && q.rn.Intn(4) > 0 {
		return
	}
	// page by page
	rev := q.rn.Intn(2) == 0
	exp := all
	if rev {
		exp = reversed(all)
	}
	lim := 1 + q.rn.Intn(3)
	if q.rn.Intn(4) == 0 {
		lim = 1 + q.rn.Intn(len(want)+2)
	}
	byKey := q.rn.Intn(2) == 0
	// the SDK counts offsets over the unfiltered records of a filtered collection
	raw := strings.HasSuffix(path, "/ServiceOperators")
	if raw {
		byKey = true
	}
	var got []record
	var key []byte
	for n := 0; ; n++ {
		pg := &query.PageRequest{Limit: uint64(lim), Reverse: rev}
		if byKey {
			pg.Key = key
		} else {
			pg.Offset = uint64(n * lim)
		}
		pg.CountTotal = q.rn.Intn(2) == 0
		items, pr, ok := page(pg)
		if !ok {
			return
		}
		if len(items) > lim {
			q.c.d("R12", "query %s(%v) returned %d records in a page of %d", path, req, len(items), lim)
			return
		}
		if pg.CountTotal && pg.Key == nil && pg.Offset < uint64(len(want)) && pr.Total != uint64(len(want)) {
			q.c.d("R12", "query %s(%v) reports a total of %d records, want %d", path, req, pr.Total, len(want))
			return
		}
		got = append(got, items...)
		if len(got) > len(want) || n > 3*len(want)+3 {
			break
		}
		if byKey {
			key = pr.NextKey
			if len(key) == 0 {
				break
			}
		} else if (n+1)*lim >= len(want)+lim {
			break
		}
	}
	q.r.st.ev("queries-paginated")
	if len(want) > lim {
		q.r.st.ev("queries-multi-page")
	}
	if !sameSeq(got, exp) {
		q.c.d("R12", "query %s(%v) in pages of %d (reverse %v, by key %v) returned %s, want %s", path, req, lim, rev, byKey, shown(got), shown(exp))
	}
}

// one checks a single-record query: want is nil when there is no such record.
func (q *queryCheck) one(path string, req, resp codecMsg, want *record) {
	if len(q.c.discs) > 0 {
		return
	}
	err := q.ask(path, req, resp)
	switch {
	case err != nil && want != nil:
		q.c.d("R12", "query %s(%v) failed: %v, want %s", path, req, err, want.show)
	case err == nil && want == nil:
		q.c.d("R12", "query %s(%v) returned %v, but there is no such record", path, req, resp)
	case err == nil:
		if got := canon(reflect.ValueOf(resp).Elem().Field(0)); got.key != want.key {
			q.c.d("R12", "query %s(%v) returned %s, want %s", path, req, got.show, want.show)
		}
	}
}

func (q *queryCheck) some(n int) bool { return q.rn.Intn(n) == 0 }

func find[T any](l []T, f func(T) bool) *record {
	for i := range l {
		if f(l[i]) {
			r := canon(reflect.ValueOf(&l[i]).Elem())
			return &r
		}
	}
	return nil
}

func ptr[T any](x T) *T { return &x }

const (
	qRestaking = "/milkyway.restaking.v1.Query/"
	qRewards   = "/milkyway.rewards.v1.Query/"
	qServices  = "/milkyway.services.v1.Query/"
	qOperators = "/milkyway.operators.v1.Query/"
	qPools     = "/milkyway.pools.v1.Query/"
	qAssets    = "/milkyway.assets.v1.Query/"
	qLV        = "/milkyway.liquidvesting.v1.Query/"
)

// doQueries checks a sample of all queries against the state.
func (r *runner) doQueries(o Op) bool {
	r.trace = append(r.trace, "Queries")
	c := &cmp{w: r.w, m: r.m}
	q := &queryCheck{r: r, rn: newRand(o.Dt), c: c}
	q.run()
	r.st.Events["queries"] += q.n
	r.relevant++
	return !r.report(c.discs, "")
}

func (q *queryCheck) run() {
	w, m, ctx := q.r.w, q.r.m, q.r.w.ctx
	a := w.App
	svcs, err := a.ServicesKeeper.GetServices(ctx)
	must(err)
	oprs, err := a.OperatorsKeeper.GetOperators(ctx)
	must(err)
	pools, err := a.PoolsKeeper.GetPools(ctx)
	must(err)
	dels, err := a.RestakingKeeper.GetAllDelegations(ctx)
	must(err)
	ubds, err := a.RestakingKeeper.GetAllUnbondingDelegations(ctx)
	must(err)

	// ---- registries
	q.list(qServices+"Services", &servicestypes.QueryServicesRequest{}, &servicestypes.QueryServicesResponse{}, recordsOf(svcs))
	q.list(qOperators+"Operators", &operatorstypes.QueryOperatorsRequest{}, &operatorstypes.QueryOperatorsResponse{}, recordsOf(oprs))
	q.list(qPools+"Pools", &poolstypes.QueryPoolsRequest{}, &poolstypes.QueryPoolsResponse{}, recordsOf(pools))
	for _, id := range m.someIDs() {
		if !q.some(2) {
			continue
		}
		q.one(qServices+"Service", &servicestypes.QueryServiceRequest{ServiceId: id}, &servicestypes.QueryServiceResponse{}, find(svcs, func(s servicestypes.Service) bool { return s.ID == id }))
		q.one(qOperators+"Operator", &operatorstypes.QueryOperatorRequest{OperatorId: id}, &operatorstypes.QueryOperatorResponse{}, find(oprs, func(s operatorstypes.Operator) bool { return s.ID == id }))
		q.one(qPools+"PoolByID", &poolstypes.QueryPoolByIdRequest{PoolId: id}, &poolstypes.QueryPoolResponse{}, find(pools, func(s poolstypes.Pool) bool { return s.ID == id }))
		var wantSP, wantOP *record
		if m.svc[id] != nil {
			x := recordOf(&servicestypes.ServiceParams{AllowedDenoms: m.svcDenoms[id]})
			wantSP = &x
		}
		if m.opr[id] != nil {
			rate, ok := m.opRate[id]
			if !ok {
				rate = math.LegacyZeroDec()
			}
			x := recordOf(&operatorstypes.OperatorParams{CommissionRate: rate})
			wantOP = &x
		}
		q.one(qServices+"ServiceParams", &servicestypes.QueryServiceParamsRequest{ServiceId: id}, &servicestypes.QueryServiceParamsResponse{}, wantSP)
		q.one(qOperators+"OperatorParams", &operatorstypes.QueryOperatorParamsRequest{OperatorId: id}, &operatorstypes.QueryOperatorParamsResponse{}, wantOP)
	}
	// ---- parameters
	if q.some(2) {
		sp, err := a.ServicesKeeper.GetParams(ctx)
		must(err)
		q.one(qServices+"Params", &servicestypes.QueryParamsRequest{}, &servicestypes.QueryParamsResponse{}, ptr(recordOf(&sp)))
		op, err := a.OperatorsKeeper.GetParams(ctx)
		must(err)
		q.one(qOperators+"Params", &operatorstypes.QueryParamsRequest{}, &operatorstypes.QueryParamsResponse{}, ptr(recordOf(&op)))
		rp, err := a.RestakingKeeper.GetParams(ctx)
		must(err)
		q.one(qRestaking+"Params", &restakingtypes.QueryParamsRequest{}, &restakingtypes.QueryParamsResponse{}, ptr(recordOf(&rp)))
		wp, err := a.RewardsKeeper.Params.Get(ctx)
		must(err)
		q.one(qRewards+"Params", &rewardstypes.QueryParamsRequest{}, &rewardstypes.QueryParamsResponse{}, ptr(recordOf(&wp)))
		lp, err := a.LiquidVestingKeeper.GetParams(ctx)
		must(err)
		q.one(qLV+"Params", &lvtypes.QueryParamsRequest{}, &lvtypes.QueryParamsResponse{}, ptr(recordOf(&lp)))
	}
	for _, d := range m.knownDenoms() {
		if q.some(3) {
			q.one(qPools+"PoolByDenom", &poolstypes.QueryPoolByDenomRequest{Denom: d}, &poolstypes.QueryPoolResponse{}, find(pools, func(p poolstypes.Pool) bool { return p.Denom == d }))
		}
	}
	// ---- assets
	var assets []assetstypes.Asset
	tickers := map[string]bool{"NOSUCH": true}
	for _, d := range sortedKeys(m.assets) {
		assets = append(assets, assetstypes.Asset{Denom: d, Ticker: m.assets[d].Ticker, Exponent: m.assets[d].Exp})
		tickers[m.assets[d].Ticker] = true
	}
	q.list(qAssets+"Assets", &assetstypes.QueryAssetsRequest{}, &assetstypes.QueryAssetsResponse{}, recordsOf(assets))
	for _, t := range sortedKeys(tickers) {
		q.list(qAssets+"Assets", &assetstypes.QueryAssetsRequest{Ticker: t}, &assetstypes.QueryAssetsResponse{},
			recordsOf(filter(assets, func(x assetstypes.Asset) bool { return x.Ticker == t })))
	}
	for _, d := range m.knownDenoms() {
		if q.some(3) {
			q.one(qAssets+"Asset", &assetstypes.QueryAssetRequest{Denom: d}, &assetstypes.QueryAssetResponse{}, find(assets, func(p assetstypes.Asset) bool { return p.Denom == d }))
		}
	}
	// ---- plans
	var plans []rewardstypes.RewardsPlan
	_ = a.RewardsKeeper.RewardsPlans.Walk(ctx, nil, func(_ uint64, p rewardstypes.RewardsPlan) (bool, error) {
		plans = append(plans, p)
		return false, nil
	})
	q.list(qRewards+"RewardsPlans", &rewardstypes.QueryRewardsPlansRequest{}, &rewardstypes.QueryRewardsPlansResponse{}, recordsOf(plans))
	for _, id := range append(sortedPlanIDs(m.plans), m.nextPlan) {
		if q.some(2) {
			q.one(qRewards+"RewardsPlan", &rewardstypes.QueryRewardsPlanRequest{PlanId: id}, &rewardstypes.QueryRewardsPlanResponse{}, find(plans, func(p rewardstypes.RewardsPlan) bool { return p.ID == id }))
		}
	}
	// ---- relations
	for _, id := range ids32(m.opr) {
		if q.some(2) {
			q.list(qRestaking+"OperatorJoinedServices", &restakingtypes.QueryOperatorJoinedServicesRequest{OperatorId: id}, &restakingtypes.QueryOperatorJoinedServicesResponse{}, recordsOf(ids32(m.joins[id])))
		}
	}
	for _, id := range ids32(m.svc) {
		if !q.some(2) {
			continue
		}
		q.list(qRestaking+"ServiceAllowedOperators", &restakingtypes.QueryServiceAllowedOperatorsRequest{ServiceId: id}, &restakingtypes.QueryServiceAllowedOperatorsResponse{}, recordsOf(ids32(m.allow[id])))
		q.list(qRestaking+"ServiceSecuringPools", &restakingtypes.QueryServiceSecuringPoolsRequest{ServiceId: id}, &restakingtypes.QueryServiceSecuringPoolsResponse{}, recordsOf(ids32(m.secs[id])))
		q.list(qRestaking+"ServiceOperators", &restakingtypes.QueryServiceOperatorsRequest{ServiceId: id}, &restakingtypes.QueryServiceOperatorsResponse{},
			recordsOf(filter(oprs, func(o operatorstypes.Operator) bool {
				return m.joins[o.ID][id] && (len(m.allow[id]) == 0 || m.allow[id][o.ID])
			})))
	}
	// ---- delegations
	resp := map[DKey]restakingtypes.DelegationResponse{}
	for _, d := range dels {
		k := DKey{Tgt{kindOf(d.Type), d.TargetID}, d.UserAddress}
		resp[k] = restakingtypes.DelegationResponse{Delegation: d, Balance: m.del[k]}
	}
	respOf := func(f func(DKey) bool) []restakingtypes.DelegationResponse {
		var out []restakingtypes.DelegationResponse
		for _, k := range m.delKeys() {
			if x, ok := resp[k]; ok && f(k) {
				out = append(out, x)
			}
		}
		return out
	}
	ubdsOf := func(k int, f func(restakingtypes.UnbondingDelegation) bool) []record {
		return recordsOf(filter(ubds, func(d restakingtypes.UnbondingDelegation) bool { return kindOf(d.Type) == k && f(d) }))
	}
	var tgts []Tgt
	for _, id := range ids32(m.pool) {
		tgts = append(tgts, Tgt{tPool, id})
	}
	for _, id := range ids32(m.opr) {
		tgts = append(tgts, Tgt{tOper, id})
	}
	for _, id := range ids32(m.svc) {
		tgts = append(tgts, Tgt{tSvc, id})
	}
	users := allActorNames()
	for _, t := range tgts {
		if !q.some(2) {
			continue
		}
		dl := recordsOf(respOf(func(k DKey) bool { return k.T == t }))
		ul := ubdsOf(t.K, func(d restakingtypes.UnbondingDelegation) bool { return d.TargetID == t.ID })
		switch t.K {
		case tPool:
			q.list(qRestaking+"PoolDelegations", &restakingtypes.QueryPoolDelegationsRequest{PoolId: t.ID}, &restakingtypes.QueryPoolDelegationsResponse{}, dl)
			q.list(qRestaking+"PoolUnbondingDelegations", &restakingtypes.QueryPoolUnbondingDelegationsRequest{PoolId: t.ID}, &restakingtypes.QueryPoolUnbondingDelegationsResponse{}, ul)
		case tOper:
			q.list(qRestaking+"OperatorDelegations", &restakingtypes.QueryOperatorDelegationsRequest{OperatorId: t.ID}, &restakingtypes.QueryOperatorDelegationsResponse{}, dl)
			q.list(qRestaking+"OperatorUnbondingDelegations", &restakingtypes.QueryOperatorUnbondingDelegationsRequest{OperatorId: t.ID}, &restakingtypes.QueryOperatorUnbondingDelegationsResponse{}, ul)
		case tSvc:
			q.list(qRestaking+"ServiceDelegations", &restakingtypes.QueryServiceDelegationsRequest{ServiceId: t.ID}, &restakingtypes.QueryServiceDelegationsResponse{}, dl)
			q.list(qRestaking+"ServiceUnbondingDelegations", &restakingtypes.QueryServiceUnbondingDelegationsRequest{ServiceId: t.ID}, &restakingtypes.QueryServiceUnbondingDelegationsResponse{}, ul)
		}
		for i := 0; i < 3; i++ {
			u := addr(users[q.rn.Intn(len(users))])
			if i == 0 {
				// prefer a delegator
				for k := range m.del {
					if k.T == t && (u > k.U || m.del[DKey{t, u}] == nil) {
						u = k.U
					}
				}
			}
			var wd *record
			if x, ok := resp[DKey{t, u}]; ok {
				y := recordOf(&x)
				wd = &y
			}
			wu := find(ubds, func(d restakingtypes.UnbondingDelegation) bool {
				return kindOf(d.Type) == t.K && d.TargetID == t.ID && d.DelegatorAddress == u
			})
			has := func(r *record) *record {
				if wd == nil {
					return nil
				}
				return r
			}
			switch t.K {
			case tPool:
				q.one(qRestaking+"PoolDelegation", &restakingtypes.QueryPoolDelegationRequest{PoolId: t.ID, DelegatorAddress: u}, &restakingtypes.QueryPoolDelegationResponse{}, wd)
				q.one(qRestaking+"PoolUnbondingDelegation", &restakingtypes.QueryPoolUnbondingDelegationRequest{PoolId: t.ID, DelegatorAddress: u}, &restakingtypes.QueryPoolUnbondingDelegationResponse{}, wu)
				q.one(qRestaking+"DelegatorPool", &restakingtypes.QueryDelegatorPoolRequest{PoolId: t.ID, DelegatorAddress: u}, &restakingtypes.QueryDelegatorPoolResponse{}, has(find(pools, func(p poolstypes.Pool) bool { return p.ID == t.ID })))
			case tOper:
				q.one(qRestaking+"OperatorDelegation", &restakingtypes.QueryOperatorDelegationRequest{OperatorId: t.ID, DelegatorAddress: u}, &restakingtypes.QueryOperatorDelegationResponse{}, wd)
				q.one(qRestaking+"OperatorUnbondingDelegation", &restakingtypes.QueryOperatorUnbondingDelegationRequest{OperatorId: t.ID, DelegatorAddress: u}, &restakingtypes.QueryOperatorUnbondingDelegationResponse{}, wu)
				q.one(qRestaking+"DelegatorOperator", &restakingtypes.QueryDelegatorOperatorRequest{OperatorId: t.ID, DelegatorAddress: u}, &restakingtypes.QueryDelegatorOperatorResponse{}, has(find(oprs, func(p operatorstypes.Operator) bool { return p.ID == t.ID })))
			case tSvc:
				q.one(qRestaking+"ServiceDelegation", &restakingtypes.QueryServiceDelegationRequest{ServiceId: t.ID, DelegatorAddress: u}, &restakingtypes.QueryServiceDelegationResponse{}, wd)
				q.one(qRestaking+"ServiceUnbondingDelegation", &restakingtypes.QueryServiceUnbondingDelegationRequest{ServiceId: t.ID, DelegatorAddress: u}, &restakingtypes.QueryServiceUnbondingDelegationResponse{}, wu)
				q.one(qRestaking+"DelegatorService", &restakingtypes.QueryDelegatorServiceRequest{ServiceId: t.ID, DelegatorAddress: u}, &restakingtypes.QueryDelegatorServiceResponse{}, has(find(svcs, func(p servicestypes.Service) bool { return p.ID == t.ID })))
			}
		}
	}
	// ---- users
	for _, n := range users {
		if !q.some(2) {
			continue
		}
		u := addr(n)
		mine := func(k int) []record {
			return recordsOf(respOf(func(x DKey) bool { return x.U == u && x.T.K == k }))
		}
		mineU := func(k int) []record {
			return ubdsOf(k, func(d restakingtypes.UnbondingDelegation) bool { return d.DelegatorAddress == u })
		}
		holds := func(k int, id uint32) bool { _, ok := resp[DKey{Tgt{k, id}, u}]; return ok }
		q.list(qRestaking+"DelegatorPoolDelegations", &restakingtypes.QueryDelegatorPoolDelegationsRequest{DelegatorAddress: u}, &restakingtypes.QueryDelegatorPoolDelegationsResponse{}, mine(tPool))
		q.list(qRestaking+"DelegatorOperatorDelegations", &restakingtypes.QueryDelegatorOperatorDelegationsRequest{DelegatorAddress: u}, &restakingtypes.QueryDelegatorOperatorDelegationsResponse{}, mine(tOper))
		q.list(qRestaking+"DelegatorServiceDelegations", &restakingtypes.QueryDelegatorServiceDelegationsRequest{DelegatorAddress: u}, &restakingtypes.QueryDelegatorServiceDelegationsResponse{}, mine(tSvc))
		q.list(qRestaking+"DelegatorPoolUnbondingDelegations", &restakingtypes.QueryDelegatorPoolUnbondingDelegationsRequest{DelegatorAddress: u}, &restakingtypes.QueryDelegatorPoolUnbondingDelegationsResponse{}, mineU(tPool))
		q.list(qRestaking+"DelegatorOperatorUnbondingDelegations", &restakingtypes.QueryDelegatorOperatorUnbondingDelegationsRequest{DelegatorAddress: u}, &restakingtypes.QueryDelegatorOperatorUnbondingDelegationsResponse{}, mineU(tOper))
		q.list(qRestaking+"DelegatorServiceUnbondingDelegations", &restakingtypes.QueryDelegatorServiceUnbondingDelegationsRequest{DelegatorAddress: u}, &restakingtypes.QueryDelegatorServiceUnbondingDelegationsResponse{}, mineU(tSvc))
		q.list(qRestaking+"DelegatorPools", &restakingtypes.QueryDelegatorPoolsRequest{DelegatorAddress: u}, &restakingtypes.QueryDelegatorPoolsResponse{},
			recordsOf(filter(pools, func(p poolstypes.Pool) bool { return holds(tPool, p.ID) })))
		q.list(qRestaking+"DelegatorOperators", &restakingtypes.QueryDelegatorOperatorsRequest{DelegatorAddress: u}, &restakingtypes.QueryDelegatorOperatorsResponse{},
			recordsOf(filter(oprs, func(p operatorstypes.Operator) bool { return holds(tOper, p.ID) })))
		q.list(qRestaking+"DelegatorServices", &restakingtypes.QueryDelegatorServicesRequest{DelegatorAddress: u}, &restakingtypes.QueryDelegatorServicesResponse{},
			recordsOf(filter(svcs, func(p servicestypes.Service) bool { return holds(tSvc, p.ID) })))
		q.userRewards(u)
		q.user(u)
	}
	q.funds()
	q.outstanding(tgts)
}

// userRewards: the list of all the pending rewards of a user agrees with the single queries.
func (q *queryCheck) userRewards(u string) {
	if len(q.c.discs) > 0 {
		return
	}
	m := q.r.m
	var tot rewardstypes.QueryDelegatorTotalRewardsResponse
	if err := q.ask(qRewards+"DelegatorTotalRewards", &rewardstypes.QueryDelegatorTotalRewardsRequest{DelegatorAddress: u}, &tot); err != nil {
		q.c.d("R12 W03", "total rewards of %s: %v", who(u), err)
		return
	}
	sum := dd{}
	seen := map[Tgt]bool{}
	for _, x := range tot.Rewards {
		t := Tgt{kindOf(x.DelegationType), x.DelegationTargetID}
		if seen[t] || m.del[DKey{t, u}] == nil {
			q.c.d("R12", "the total rewards of %s list %s wrongly or twice", who(u), t)
			return
		}
		seen[t] = true
		var single rewardstypes.DecPools
		var err error
		switch t.K {
		case tPool:
			var r rewardstypes.QueryPoolDelegationRewardsResponse
			err = q.ask(qRewards+"PoolDelegationRewards", &rewardstypes.QueryPoolDelegationRewardsRequest{DelegatorAddress: u, PoolId: t.ID}, &r)
			single = r.Rewards
		case tOper:
			var r rewardstypes.QueryOperatorDelegationRewardsResponse
			err = q.ask(qRewards+"OperatorDelegationRewards", &rewardstypes.QueryOperatorDelegationRewardsRequest{DelegatorAddress: u, OperatorId: t.ID}, &r)
			single = r.Rewards
		case tSvc:
			var r rewardstypes.QueryServiceDelegationRewardsResponse
			err = q.ask(qRewards+"ServiceDelegationRewards", &rewardstypes.QueryServiceDelegationRewardsRequest{DelegatorAddress: u, ServiceId: t.ID}, &r)
			single = r.Rewards
		}
		if err != nil {
			q.c.d("R12", "rewards of %s at %s: %v", who(u), t, err)
			return
		}
		if poolsKey(single) != poolsKey(x.Reward) {
			q.c.d("R12", "rewards of %s at %s are %s, but the total lists %s", who(u), t, single, x.Reward)
			return
		}
		for p, rm := range poolsDD(single) {
			for d, v := range rm {
				sum.add(p, d, v)
			}
		}
	}
	for k := range m.del {
		if k.U == u && !seen[k.T] {
			q.c.d("R12", "the total rewards of %s miss %s", who(u), k.T)
			return
		}
	}
	if got := poolsDD(tot.Total); ddKey(got) != ddKey(sum) {
		q.c.d("R12", "total rewards of %s are %s, want %s", who(u), ddKey(got), ddKey(sum))
	}
}

func poolsKey(p rewardstypes.DecPools) string { return ddKey(poolsDD(p)) }

func ddKey(d dd) string {
	var l []string
	for p, rm := range d {
		for r, v := range rm {
			if v.Sign() != 0 {
				l = append(l, p+"/"+r+"="+v.Text('f', 18))
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (q *queryCheck) user(u string) {
	m := q.r.m
	if len(q.c.discs) > 0 {
		return
	}
	wd := m.payee(u)
	var w rewardstypes.QueryDelegatorWithdrawAddressResponse
	if err := q.ask(qRewards+"DelegatorWithdrawAddress", &rewardstypes.QueryDelegatorWithdrawAddressRequest{DelegatorAddress: u}, &w); err != nil || w.WithdrawAddress != wd {
		q.c.d("R12", "withdraw address of %s is %s (%v), want %s", who(u), who(w.WithdrawAddress), err, who(wd))
		return
	}
	var p restakingtypes.QueryUserPreferencesResponse
	want := m.prefsOf(u)
	err := q.ask(qRestaking+"UserPreferences", &restakingtypes.QueryUserPreferencesRequest{UserAddress: u}, &p)
	if g := p.Preferences; err != nil || g.TrustNonAccreditedServices != want.NonAcc || g.TrustAccreditedServices != want.Acc || fmt.Sprint(uniq(g.TrustedServicesIDs)) != fmt.Sprint(uniq(want.IDs)) {
		q.c.d("R12", "preferences of %s are %v (%v), want %+v", who(u), g, err, want)
		return
	}
	var f lvtypes.QueryUserInsuranceFundResponse
	used := m.used(u)
	err = q.ask(qLV+"UserInsuranceFund", &lvtypes.QueryUserInsuranceFundRequest{UserAddress: u}, &f)
	if err != nil || !coinsEq(f.Balance, m.funds[u]) || !coinsEq(f.Used, used) {
		q.c.d("R12", "insurance fund of %s is %s used %s (%v), want %s used %s", who(u), f.Balance, f.Used, err, m.funds[u], used)
		return
	}
	var ra lvtypes.QueryUserRestakableAssetsResponse
	err = q.ask(qLV+"UserRestakableAssets", &lvtypes.QueryUserRestakableAssetsRequest{UserAddress: u}, &ra)
	wantR := sdk.Coins{}
	for _, x := range m.funds[u] {
		// floor(fund * 100 / percentage)
		n := new(big.Int).Mul(x.Amount.BigInt(), new(big.Int).Mul(big.NewInt(100), math.LegacyOneDec().BigInt()))
		n.Quo(n, m.lv.pct.BigInt())
		if n.Sign() > 0 {
			wantR = wantR.Add(coin("locked/"+x.Denom, math.NewIntFromBigInt(n)))
		}
	}
	if err != nil || !coinsEq(ra.Amount, wantR) {
		q.c.d("R12", "restakable assets of %s are %s (%v), want %s", who(u), ra.Amount, err, wantR)
	}
}

func (q *queryCheck) funds() {
	if len(q.c.discs) > 0 {
		return
	}
	w, m := q.r.w, q.r.m
	es, err := w.App.LiquidVestingKeeper.GetAllUsersInsuranceFundsEntries(w.ctx)
	must(err)
	var l []lvtypes.UserInsuranceFundData
	sum := sdk.Coins{}
	for _, e := range es {
		l = append(l, lvtypes.NewUserInsuranceFundData(e.UserAddress, e.Balance, m.used(e.UserAddress)))
		sum = sum.Add(e.Balance...)
	}
	q.list(qLV+"UserInsuranceFunds", &lvtypes.QueryUserInsuranceFundsRequest{}, &lvtypes.QueryUserInsuranceFundsResponse{}, recordsOf(l))
	var f lvtypes.QueryInsuranceFundResponse
	err = q.ask(qLV+"InsuranceFund", &lvtypes.QueryInsuranceFundRequest{}, &f)
	if err != nil || (!coinsEq(f.Amount, sum) && !coinsEq(f.Amount, m.bank[lvModule])) {
		q.c.d("R12", "the insurance fund is %s (%v), want %s", f.Amount, err, sum)
	}
}

func (q *queryCheck) outstanding(tgts []Tgt) {
	w := q.r.w
	rk := w.App.RewardsKeeper
	for _, t := range tgts {
		if len(q.c.discs) > 0 {
			return
		}
		if !q.some(2) {
			continue
		}
		var got, want rewardstypes.OutstandingRewards
		var err error
		switch t.K {
		case tPool:
			var r rewardstypes.QueryPoolOutstandingRewardsResponse
			err = q.ask(qRewards+"PoolOutstandingRewards", &rewardstypes.QueryPoolOutstandingRewardsRequest{PoolId: t.ID}, &r)
			got = r.Rewards
			want, _ = rk.PoolOutstandingRewards.Get(w.ctx, t.ID)
		case tOper:
			var r rewardstypes.QueryOperatorOutstandingRewardsResponse
			err = q.ask(qRewards+"OperatorOutstandingRewards", &rewardstypes.QueryOperatorOutstandingRewardsRequest{OperatorId: t.ID}, &r)
			got = r.Rewards
			want, _ = rk.OperatorOutstandingRewards.Get(w.ctx, t.ID)
		case tSvc:
			var r rewardstypes.QueryServiceOutstandingRewardsResponse
			err = q.ask(qRewards+"ServiceOutstandingRewards", &rewardstypes.QueryServiceOutstandingRewardsRequest{ServiceId: t.ID}, &r)
			got = r.Rewards
			want, _ = rk.ServiceOutstandingRewards.Get(w.ctx, t.ID)
		}
		if err != nil || poolsKey(got.Rewards) != poolsKey(want.Rewards) {
			q.c.d("R12", "outstanding rewards of %s are %s (%v), want %s", t, got.Rewards, err, want.Rewards)
			return
		}
		if t.K == tOper {
			var r rewardstypes.QueryOperatorCommissionResponse
			err = q.ask(qRewards+"OperatorCommission", &rewardstypes.QueryOperatorCommissionRequest{OperatorId: t.ID}, &r)
			cm, _ := rk.OperatorAccumulatedCommissions.Get(w.ctx, t.ID)
			if err != nil || poolsKey(r.Commission.Commissions) != poolsKey(cm.Commissions) {
				q.c.d("R12", "commission of operator %d is %s (%v), want %s", t.ID, r.Commission.Commissions, err, cm.Commissions)
			}
		}
	}
}

// knownDenoms are the denoms worth asking for.
func (m *Model) knownDenoms() []string {
	s := map[string]bool{}
	for _, d := range denoms {
		s[d] = true
	}
	for d := range m.assets {
		s[d] = true
	}
	return sortedKeys(s)
}

// used is the part of the insurance fund of u that covers its restaked tokens.
func (m *Model) used(u string) sdk.Coins { return m.required(m.lockedOf(u)).Min(m.funds[u]) }

// someIDs are the ids of all the objects and some unused ones.
func (m *Model) someIDs() []uint32 {
	s := map[uint32]bool{1: true, 2: true, m.nextSvc: true, m.nextOpr: true, m.nextPool: true}
	for id := range m.svc {
		s[id], s[id+1] = true, true
	}
	for id := range m.opr {
		s[id], s[id+1] = true, true
	}
	for id := range m.pool {
		s[id], s[id+1] = true, true
	}
	return ids32(s)
}
