package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/collections"
	"cosmossdk.io/math"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"

	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

var theCodec codec.Codec

// readBank reads every balance of the chain.
func readBank(w *World) map[string]sdk.Coins {
	out := map[string]sdk.Coins{}
	cache := map[string]string{}
	w.App.BankKeeper.IterateAllBalances(w.ctx, func(a sdk.AccAddress, c sdk.Coin) bool {
		s, ok := cache[string(a)]
		if !ok {
			s = a.String()
			cache[string(a)] = s
		}
		// the iteration is ordered by address and denom
		out[s] = append(out[s], c)
		return false
	})
	for a := range out {
		out[a] = out[a].Sort()
	}
	return out
}

func coinsEq(a, b sdk.Coins) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Denom != b[i].Denom || !a[i].Amount.Equal(b[i].Amount) {
			return false
		}
	}
	return true
}

func stripShare(d string) string {
	// share denoms look like pool/1/uatom
	p := strings.SplitN(d, "/", 3)
	if len(p) == 3 {
		return p[2]
	}
	return d
}

// sharesAsCoins turns shares into coins, reporting false when they are not integral.
func sharesAsCoins(s sdk.DecCoins) (sdk.Coins, bool) {
	out := sdk.Coins{}
	ok := true
	for _, x := range s {
		if !x.Amount.IsInteger() {
			ok = false
		}
		i := x.Amount.TruncateInt()
		if i.IsPositive() {
			out = out.Add(sdk.Coin{Denom: stripShare(x.Denom), Amount: i})
		}
	}
	return out, ok
}

type cmp struct {
	w     *World
	m     *Model
	discs []disc
	seen  int
	owner map[string]string // who holds its funds in an account
}

// own notes that an account belongs to who; an account of two owners is not the account of either.
func (c *cmp) own(props, address, who string) {
	if c.owner == nil {
		c.owner = map[string]string{}
	}
	if o := c.owner[address]; o != "" {
		c.d(props, "%s and %s share one account", o, who)
	}
	c.owner[address] = who
}

func (c *cmp) d(props, f string, a ...any) {
	c.discs = append(c.discs, disc{props, fmt.Sprintf(f, a...)})
}

func (c *cmp) err(props string, what string, err error) bool {
	if err != nil {
		c.d(props, "%s: %v", what, err)
		return true
	}
	return false
}

// compareBank compares every balance with the model.
func (c *cmp) compareBank(real map[string]sdk.Coins, skip map[string]bool) {
	addrs := map[string]bool{}
	for a := range real {
		addrs[a] = true
	}
	for a := range c.m.bank {
		addrs[a] = true
	}
	for _, a := range sortedKeys(addrs) {
		if skip[a] {
			continue
		}
		if !coinsEq(real[a], c.m.bank[a]) {
			rs, _ := real[a].SafeSub(c.m.bank[a]...)
			c.d(c.bankProps(a), "balance of %s is off by %s (have %s, want %s)", who(a), rs, real[a], c.m.bank[a])
		}
	}
}

func (c *cmp) bankProps(a string) string {
	p := "R02"
	if a == lvModule {
		return p + " L02 L04 L01"
	}
	if a == rewardPool {
		return p + " W01"
	}
	if c.m.isTarget(a) {
		return p + " R03"
	}
	return p
}

// compare checks the whole state against the model.
func (c *cmp) compare() {
	c.services()
	c.operators()
	c.pools()
	c.delegations()
	c.unbondings()
	c.relations()
	c.params()
	c.rewards()
	c.liquidvesting()
	c.assets()
	c.addressSets()
}

// addressSets checks which addresses are taken for those of services, operators and pools.
func (c *cmp) addressSets() {
	w, m := c.w, c.m
	look := func(what, props string, next uint32, address func(uint32) string, exists func(uint32) bool, is func(sdk.Context, string) (bool, error)) {
		var ids []uint32
		for id := uint32(1); id < next && id <= 6; id++ {
			ids = append(ids, id)
		}
		for id := next - 1; id > 6 && id+6 >= next; id-- {
			ids = append(ids, id)
		}
		for _, next := range ids {
			a := address(next)
			got, err := is(w.ctx, a)
			if c.err(props, what+" address", err) {
				return
			}
			if got != exists(next) {
				c.d(props, "the address of %s %d is taken for one of a restaking target: %v, it exists: %v", what, next, got, exists(next))
			}
		}
	}
	look("service", "R10 R07 L01", m.nextSvc, svcAddr, func(id uint32) bool { return m.svc[id] != nil }, func(x sdk.Context, a string) (bool, error) { return w.App.ServicesKeeper.IsServiceAddress(x, a) })
	look("operator", "R10 R08 L01", m.nextOpr, oprAddr, func(id uint32) bool { return m.opr[id] != nil }, func(x sdk.Context, a string) (bool, error) { return w.App.OperatorsKeeper.IsOperatorAddress(x, a) })
	look("pool", "R10 R01 L01", m.nextPool, poolAddr, func(id uint32) bool { return m.pool[id] != nil }, func(x sdk.Context, a string) (bool, error) { return w.App.PoolsKeeper.IsPoolAddress(x, a) })
}

func (c *cmp) services() {
	w, m := c.w, c.m
	l, err := w.App.ServicesKeeper.GetServices(w.ctx)
	if c.err("R07", "services", err) {
		return
	}
	seen := map[uint32]bool{}
	for _, s := range l {
		seen[s.ID] = true
		ms := m.svc[s.ID]
		if ms == nil {
			c.d("R07 R10", "unexpected service %d", s.ID)
			continue
		}
		if int(s.Status) != ms.Status {
			c.d("R07", "service %d has status %v, want %d", s.ID, s.Status, ms.Status)
		}
		if s.Admin != ms.Admin {
			c.d("R07 R06", "service %d has admin %s, want %s", s.ID, who(s.Admin), who(ms.Admin))
		}
		if s.Name != ms.Name || s.Description != ms.Desc || s.Website != ms.Web || s.PictureURL != ms.Pic || s.Address != ms.Addr {
			c.d("R07", "service %d has the wrong description: %v", s.ID, s)
		}
		if s.Accredited != ms.Accredited {
			c.d("R07 W04", "service %d accredited=%v, want %v", s.ID, s.Accredited, ms.Accredited)
		}
		c.target(Tgt{tSvc, s.ID}, s.Address, s.Tokens, s.DelegatorShares)
	}
	for id := range m.svc {
		if !seen[id] {
			c.d("R07", "service %d disappeared", id)
		}
	}
	ps, err := w.App.ServicesKeeper.GetAllServicesParams(w.ctx)
	if c.err("R07", "service params", err) {
		return
	}
	for _, p := range ps {
		if m.svc[p.ServiceID] == nil {
			c.d("R10", "params of deleted service %d are still there", p.ServiceID)
		}
	}
	for id := range m.svc {
		p, err := w.App.ServicesKeeper.GetServiceParams(w.ctx, id)
		if c.err("R07", "service params", err) {
			return
		}
		if !strsEq(p.AllowedDenoms, m.svcDenoms[id]) {
			c.d("R07 R04", "service %d allows denoms %v, want %v", id, p.AllowedDenoms, m.svcDenoms[id])
		}
	}
}

// target checks the tokens and shares of a delegation target.
func (c *cmp) target(t Tgt, address string, toks sdk.Coins, shares sdk.DecCoins) {
	want := c.m.tokens(t)
	c.own("R02", address, t.String())
	if !coinsEq(toks, want) {
		c.d("R01 R02", "%s has tokens %s, want %s (sum of its delegations)", t, toks, want)
	}
	sh, ok := sharesAsCoins(shares)
	if !ok || !coinsEq(sh, want) {
		c.d("R01", "%s has delegator shares %s, want %s", t, shares, want)
	}
	for _, s := range shares {
		pref := map[int]string{tPool: "pool", tOper: "operator", tSvc: "service"}[t.K]
		if !strings.HasPrefix(s.Denom, fmt.Sprintf("%s/%d/", pref, t.ID)) {
			c.d("R01", "%s has a share of denom %s", t, s.Denom)
		}
	}
	if a := c.m.tgtAddr(t); a != address {
		c.d("R01", "%s has address %s, want %s", t, address, a)
	}
}

func strsEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *cmp) operators() {
	w, m := c.w, c.m
	l, err := w.App.OperatorsKeeper.GetOperators(w.ctx)
	if c.err("R08", "operators", err) {
		return
	}
	seen := map[uint32]bool{}
	for _, s := range l {
		seen[s.ID] = true
		mo := m.opr[s.ID]
		if mo == nil {
			c.d("R08 R10", "unexpected operator %d", s.ID)
			continue
		}
		if int(s.Status) != mo.Status {
			c.d("R08", "operator %d has status %v, want %d", s.ID, s.Status, mo.Status)
		}
		if s.Admin != mo.Admin {
			c.d("R08 R06", "operator %d has admin %s, want %s", s.ID, who(s.Admin), who(mo.Admin))
		}
		if s.Moniker != mo.Moniker || s.Website != mo.Web || s.PictureURL != mo.Pic || s.Address != mo.Addr {
			c.d("R08", "operator %d has the wrong description: %v", s.ID, s)
		}
		c.target(Tgt{tOper, s.ID}, s.Address, s.Tokens, s.DelegatorShares)
	}
	for id := range m.opr {
		if !seen[id] {
			c.d("R08", "operator %d disappeared", id)
		}
	}
	ps, err := w.App.OperatorsKeeper.GetAllOperatorParamsRecords(w.ctx)
	if c.err("R08", "operator params", err) {
		return
	}
	for _, p := range ps {
		if m.opr[p.OperatorID] == nil {
			c.d("R10", "params of deleted operator %d are still there", p.OperatorID)
		}
	}
	for id := range m.opr {
		p, err := w.App.OperatorsKeeper.GetOperatorParams(w.ctx, id)
		if c.err("R08", "operator params", err) {
			return
		}
		want, ok := m.opRate[id]
		if !ok {
			want = math.LegacyZeroDec()
		}
		if !p.CommissionRate.Equal(want) {
			c.d("R08 W02", "operator %d has commission %s, want %s", id, p.CommissionRate, want)
		}
	}
	ia, err := w.App.OperatorsKeeper.GetInactivatingOperators(w.ctx)
	if c.err("R08", "inactivating operators", err) {
		return
	}
	got := map[uint32]time.Time{}
	for _, x := range ia {
		if _, dup := got[x.OperatorID]; dup {
			c.d("R08", "operator %d is queued twice for inactivation", x.OperatorID)
		}
		got[x.OperatorID] = x.UnbondingCompletionTime
		mo := m.opr[x.OperatorID]
		if mo == nil || mo.Status != osInactivating {
			c.d("R08 R10 R05", "operator %d is queued for inactivation but is not inactivating", x.OperatorID)
		} else if !mo.Due.Equal(x.UnbondingCompletionTime) {
			c.d("R08", "operator %d inactivates at %s, want %s", x.OperatorID, x.UnbondingCompletionTime, mo.Due)
		}
	}
	for id, mo := range m.opr {
		if _, ok := got[id]; mo.Status == osInactivating && !ok {
			c.d("R08", "operator %d is not queued for inactivation", id)
		}
	}
}

func (c *cmp) pools() {
	w, m := c.w, c.m
	l, err := w.App.PoolsKeeper.GetPools(w.ctx)
	if c.err("R01", "pools", err) {
		return
	}
	seen := map[uint32]bool{}
	for _, p := range l {
		seen[p.ID] = true
		mp := m.pool[p.ID]
		if mp == nil {
			c.d("R01 R04", "unexpected pool %d for %s", p.ID, p.Denom)
			continue
		}
		if mp.Denom != p.Denom {
			c.d("R01", "pool %d is for %s, want %s", p.ID, p.Denom, mp.Denom)
		}
		toks := sdk.Coins{}
		if p.Tokens.IsPositive() {
			toks = append(toks, sdk.Coin{Denom: p.Denom, Amount: p.Tokens})
		}
		var sh sdk.DecCoins
		if p.DelegatorShares.IsPositive() {
			sh = sdk.DecCoins{sdk.DecCoin{Denom: fmt.Sprintf("pool/%d/%s", p.ID, p.Denom), Amount: p.DelegatorShares}}
		}
		c.target(Tgt{tPool, p.ID}, p.Address, toks, sh)
		q, ok, err := w.App.PoolsKeeper.GetPoolByDenom(w.ctx, p.Denom)
		if err != nil || !ok || q.ID != p.ID {
			c.d("R01", "denom %s does not lead to pool %d", p.Denom, p.ID)
		}
	}
	for id := range m.pool {
		if !seen[id] {
			c.d("R01", "pool %d disappeared", id)
		}
	}
}

func (c *cmp) delegations() {
	w, m := c.w, c.m
	l, err := w.App.RestakingKeeper.GetAllDelegations(w.ctx)
	if c.err("R01", "delegations", err) {
		return
	}
	seen := map[DKey]bool{}
	for _, d := range l {
		k := DKey{Tgt{kindOf(d.Type), d.TargetID}, d.UserAddress}
		if seen[k] {
			c.d("R01", "delegation of %s to %s is listed twice", who(k.U), k.T)
		}
		seen[k] = true
		sh, ok := sharesAsCoins(d.Shares)
		if !ok || !coinsEq(sh, m.del[k]) {
			c.d("R01 R03 R04", "delegation of %s to %s has shares %s, want %s", who(k.U), k.T, d.Shares, m.del[k])
		}
		if !m.exists(k.T) {
			c.d("R10 R01", "delegation of %s to missing %s", who(k.U), k.T)
		}
	}
	for k, v := range m.del {
		if !seen[k] {
			c.d("R01 R02", "delegation of %s to %s (%s) is gone", who(k.U), k.T, v)
		}
	}
}

func ubdKey(t Tgt, u string, h int64, due time.Time) string {
	return fmt.Sprintf("%s|%s|%d|%d", t, u, h, due.UnixNano())
}

func (c *cmp) unbondings() {
	w, m := c.w, c.m
	l, err := w.App.RestakingKeeper.GetAllUnbondingDelegations(w.ctx)
	if c.err("R03", "unbonding delegations", err) {
		return
	}
	got := map[string]sdk.Coins{}
	ids := map[uint64]bool{}
	for _, d := range l {
		t := Tgt{kindOf(d.Type), d.TargetID}
		if !m.exists(t) {
			c.d("R10 R03", "unbonding delegation of %s from missing %s", who(d.DelegatorAddress), t)
		}
		if len(d.Entries) == 0 {
			c.d("R03", "empty unbonding delegation of %s from %s", who(d.DelegatorAddress), t)
		}
		for _, e := range d.Entries {
			k := ubdKey(t, d.DelegatorAddress, e.CreationHeight, e.CompletionTime)
			got[k] = got[k].Add(e.Balance...)
			if e.UnbondingID != 0 && ids[e.UnbondingID] {
				c.d("R03", "unbonding id %d is used twice", e.UnbondingID)
			}
			ids[e.UnbondingID] = true
		}
	}
	want := map[string]sdk.Coins{}
	for _, e := range m.ubd {
		k := ubdKey(e.T, e.U, e.Height, e.Due)
		want[k] = want[k].Add(e.Coins...)
	}
	for _, k := range sortedKeys(want) {
		if !coinsEq(got[k], want[k]) {
			c.d("R03", "unbonding entry %s has %s, want %s", k, got[k], want[k])
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			c.d("R03", "unexpected unbonding entry %s of %s", k, got[k])
		}
	}
}

func pairStr(m map[uint32]idSet) map[string]bool {
	out := map[string]bool{}
	for a, s := range m {
		for b := range s {
			out[fmt.Sprintf("%d-%d", a, b)] = true
		}
	}
	return out
}

func (c *cmp) relation(what string, got map[string]bool, dup []string, want map[uint32]idSet, refs string) {
	ws := pairStr(want)
	for _, k := range sortedKeys(got) {
		if !ws[k] {
			c.d("R09 R10 W02", "unexpected %s %s", what, k)
		}
	}
	for _, k := range sortedKeys(ws) {
		if !got[k] {
			c.d("R09 W02", "missing %s %s", what, k)
		}
	}
	if len(dup) > 0 {
		c.d("R09", "duplicated %s %v", what, dup)
	}
}

func (c *cmp) relations() {
	w, m := c.w, c.m
	rk := w.App.RestakingKeeper
	col := func() (map[string]bool, *[]string, func(a, b uint32)) {
		g := map[string]bool{}
		var dup []string
		return g, &dup, func(a, b uint32) {
			k := fmt.Sprintf("%d-%d", a, b)
			if g[k] {
				dup = append(dup, k)
			}
			g[k] = true
		}
	}
	js, err := rk.GetAllOperatorsJoinedServices(w.ctx)
	if !c.err("R09", "joined services", err) {
		g, dup, add := col()
		for _, x := range js {
			for _, s := range x.ServiceIDs {
				add(x.OperatorID, s)
			}
		}
		c.relation("joined service (operator-service)", g, *dup, m.joins, "")
	}
	as, err := rk.GetAllServicesAllowedOperators(w.ctx)
	if !c.err("R09", "allow lists", err) {
		g, dup, add := col()
		for _, x := range as {
			for _, s := range x.OperatorIDs {
				add(x.ServiceID, s)
			}
		}
		c.relation("allowed operator (service-operator)", g, *dup, m.allow, "")
	}
	ss, err := rk.GetAllServicesSecuringPools(w.ctx)
	if !c.err("R09", "securing pools", err) {
		g, dup, add := col()
		for _, x := range ss {
			for _, s := range x.PoolIDs {
				add(x.ServiceID, s)
			}
		}
		c.relation("securing pool (service-pool)", g, *dup, m.secs, "")
	}
	us, err := rk.GetUserPreferencesEntries(w.ctx)
	if !c.err("W04", "preferences", err) {
		got := map[string]mPrefs{}
		for _, u := range us {
			got[u.UserAddress] = mPrefs{NonAcc: u.Preferences.TrustNonAccreditedServices, Acc: u.Preferences.TrustAccreditedServices, IDs: u.Preferences.TrustedServicesIDs}
		}
		for u, p := range m.prefs {
			g, ok := got[u]
			if !ok || g.NonAcc != p.NonAcc || g.Acc != p.Acc || fmt.Sprint(uniq(g.IDs)) != fmt.Sprint(uniq(p.IDs)) {
				c.d("W04", "preferences of %s are %+v, want %+v", who(u), g, p)
			}
		}
		for u := range got {
			if _, ok := m.prefs[u]; !ok {
				c.d("W04 R06", "unexpected preferences of %s", who(u))
			}
		}
	}
}

func uniq(l []uint32) []uint32 {
	s := map[uint32]bool{}
	out := []uint32{}
	for _, x := range l {
		if !s[x] {
			s[x] = true
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (c *cmp) params() {
	w, m := c.w, c.m
	sp, err := w.App.ServicesKeeper.GetParams(w.ctx)
	if !c.err("R06", "services params", err) && !coinsEq(sp.ServiceRegistrationFee, m.svcFee) {
		c.d("R06 R07", "service fee is %s, want %s", sp.ServiceRegistrationFee, m.svcFee)
	}
	op, err := w.App.OperatorsKeeper.GetParams(w.ctx)
	if !c.err("R06", "operators params", err) {
		if !coinsEq(op.OperatorRegistrationFee, m.oprFee) || op.DeactivationTime != m.deactTime {
			c.d("R06 R08", "operators params are %v", op)
		}
	}
	rp, err := w.App.RestakingKeeper.GetParams(w.ctx)
	if !c.err("R06", "restaking params", err) {
		if rp.UnbondingTime != m.unbTime || !strsEq(rp.AllowedDenoms, m.allowed) {
			c.d("R06 R04 R03", "restaking params are %v", rp)
		}
	}
	wp, err := w.App.RewardsKeeper.Params.Get(w.ctx)
	if !c.err("R06", "rewards params", err) && !coinsEq(wp.RewardsPlanCreationFee, m.planFee) {
		c.d("R06 W05", "plan fee is %s, want %s", wp.RewardsPlanCreationFee, m.planFee)
	}
	lp, err := w.App.LiquidVestingKeeper.GetParams(w.ctx)
	if !c.err("R06", "liquid vesting params", err) {
		if !lp.InsurancePercentage.Equal(m.lv.pct) || !strsEq(lp.Burners, m.lv.burners) || !strsEq(lp.Minters, m.lv.minters) ||
			!strsEq(lp.TrustedDelegates, m.lv.trustees) || !strsEq(lp.AllowedChannels, m.lv.channels) {
			c.d("R06 L01 L02", "liquid vesting params are %v", lp)
		}
	}
}

func poolsDD(l rewardstypes.DecPools) dd {
	out := dd{}
	for _, p := range l {
		for _, x := range p.DecCoins {
			out.add(p.Denom, x.Denom, decF(x.Amount))
		}
	}
	return out
}

func (c *cmp) rewards() {
	w, m := c.w, c.m
	rk := w.App.RewardsKeeper
	// plans
	seen := map[uint64]bool{}
	_ = rk.RewardsPlans.Walk(w.ctx, nil, func(id uint64, p rewardstypes.RewardsPlan) (bool, error) {
		seen[id] = true
		mp := m.plans[id]
		if mp == nil {
			c.d("W05", "unexpected plan %d", id)
			return false, nil
		}
		if p.ID != id || p.ServiceID != mp.Svc || p.Description != mp.Desc || !coinsEq(p.AmountPerDay, mp.Amount) ||
			!p.StartTime.Equal(mp.St) || !p.EndTime.Equal(mp.En) || p.RewardsPool != planAddr(id) {
			c.d("W05", "plan %d is stored as %v", id, p)
		}
		c.own("W02 W05", p.RewardsPool, fmt.Sprintf("plan %d", id))
		if p.PoolsDistribution.Weight != mp.W[0] || p.OperatorsDistribution.Weight != mp.W[1] || p.UsersDistribution.Weight != mp.W[2] {
			c.d("W05", "plan %d has weights %d %d %d, want %v", id, p.PoolsDistribution.Weight, p.OperatorsDistribution.Weight, p.UsersDistribution.Weight, mp.W)
		}
		for i, d := range []rewardstypes.Distribution{p.PoolsDistribution, p.OperatorsDistribution} {
			t, err := rewardstypes.GetDistributionType(theCodec, d)
			if c.err("W05", "distribution", err) {
				continue
			}
			typ, ws := 0, []DW(nil)
			switch x := t.(type) {
			case *rewardstypes.DistributionTypeWeighted:
				typ = 1
				for _, y := range x.Weights {
					ws = append(ws, DW{y.DelegationTargetID, y.Weight})
				}
			case *rewardstypes.DistributionTypeEgalitarian:
				typ = 2
			}
			wantW := mp.DWp
			if i == 1 {
				wantW = mp.DWo
			}
			if typ != mp.DT[i] || fmt.Sprint(ws) != fmt.Sprint(wantW) {
				c.d("W05", "plan %d distribution %d is %d %v, want %d %v", id, i, typ, ws, mp.DT[i], wantW)
			}
		}
		return false, nil
	})
	for id := range m.plans {
		if !seen[id] {
			c.d("W05", "plan %d disappeared", id)
		}
	}
	// withdraw addresses
	nwd := 0
	_ = rk.DelegatorWithdrawAddrs.Walk(w.ctx, nil, func(a, b sdk.AccAddress) (bool, error) {
		nwd++
		if m.wd[a.String()] != b.String() {
			c.d("W03 R06", "withdraw address of %s is %s, want %s", who(a.String()), who(b.String()), who(m.wd[a.String()]))
		}
		return false, nil
	})
	if nwd != len(m.wd) {
		c.d("W03 R06", "%d withdraw addresses are stored, want %d", nwd, len(m.wd))
	}
	// trust totals
	want := map[[2]uint32]*big.Int{}
	for pid := range m.pool {
		for _, s := range m.svc {
			if t := m.trustTotal(pid, s); t.Sign() > 0 {
				want[[2]uint32{pid, s.ID}] = t
			}
		}
	}
	got := map[[2]uint32]bool{}
	_ = rk.PoolServiceTotalDelegatorShares.Walk(w.ctx, nil, func(k collections.Pair[uint32, uint32], v rewardstypes.PoolServiceTotalDelegatorShares) (bool, error) {
		key := [2]uint32{k.K1(), k.K2()}
		got[key] = true
		tot := math.LegacyZeroDec()
		for _, x := range v.Shares {
			tot = tot.Add(x.Amount)
		}
		wv := want[key]
		if wv == nil {
			wv = new(big.Int)
		}
		if !tot.Equal(math.LegacyNewDecFromBigInt(wv)) {
			c.d("W04 W02", "total trusting shares of pool %d for service %d is %s, want %s", key[0], key[1], tot, wv)
		}
		if m.svc[key[1]] == nil {
			c.d("R10 W04", "trust total for deleted service %d", key[1])
		}
		return false, nil
	})
	for k, v := range want {
		if !got[k] {
			c.d("W04 W02", "no trust total for pool %d and service %d, want %s", k[0], k[1], v)
		}
	}
	// outstanding rewards and commissions
	sumOut := map[string]math.LegacyDec{}
	outs := map[Tgt]dd{}
	addOut := func(k int) func(id uint32, v rewardstypes.OutstandingRewards) (bool, error) {
		return func(id uint32, v rewardstypes.OutstandingRewards) (bool, error) {
			t := Tgt{k, id}
			outs[t] = poolsDD(v.Rewards)
			for _, p := range v.Rewards {
				for _, x := range p.DecCoins {
					if sumOut[x.Denom].IsNil() {
						sumOut[x.Denom] = math.LegacyZeroDec()
					}
					sumOut[x.Denom] = sumOut[x.Denom].Add(x.Amount)
				}
			}
			if !m.exists(t) {
				c.d("R10 W01", "outstanding rewards of missing %s", t)
			}
			return false, nil
		}
	}
	_ = rk.PoolOutstandingRewards.Walk(w.ctx, nil, addOut(tPool))
	_ = rk.OperatorOutstandingRewards.Walk(w.ctx, nil, addOut(tOper))
	_ = rk.ServiceOutstandingRewards.Walk(w.ctx, nil, addOut(tSvc))
	c.cmpDD("W02 W01", "outstanding rewards", outs)
	bal := w.App.BankKeeper.GetAllBalances(w.ctx, sdk.MustAccAddressFromBech32(rewardPool))
	for d, v := range sumOut {
		if math.LegacyNewDecFromInt(bal.AmountOf(d)).LT(v) {
			c.d("W01", "rewards pool holds %s %s but owes %s", bal.AmountOf(d), d, v)
		}
	}
	coms := map[Tgt]dd{}
	_ = rk.OperatorAccumulatedCommissions.Walk(w.ctx, nil, func(id uint32, v rewardstypes.AccumulatedCommission) (bool, error) {
		coms[Tgt{tOper, id}] = poolsDD(v.Commissions)
		if m.opr[id] == nil {
			c.d("R10", "commission of deleted operator %d", id)
		}
		return false, nil
	})
	for id := range m.opr {
		c.cmpDD1("W02 W03", "commission", Tgt{tOper, id}, coms[Tgt{tOper, id}], m.rw.com[id], m.rw.comSlack[id]+1e-3)
	}
	// delegators' starting infos
	infos := map[DKey]bool{}
	walkInfo := func(k int) func(key collections.Pair[uint32, sdk.AccAddress], v rewardstypes.DelegatorStartingInfo) (bool, error) {
		return func(key collections.Pair[uint32, sdk.AccAddress], v rewardstypes.DelegatorStartingInfo) (bool, error) {
			dk := DKey{Tgt{k, key.K1()}, key.K2().String()}
			infos[dk] = true
			if m.del[dk] == nil {
				c.d("W03 R10", "reward tracking of %s for %s remains without a delegation", who(dk.U), dk.T)
				return false, nil
			}
			st, _ := v.Stakes.TruncateDecimal()
			if !coinsEq(st, m.del[dk]) {
				c.d("W02 W03", "reward tracking of %s for %s counts %s, delegated is %s", who(dk.U), dk.T, st, m.del[dk])
			}
			return false, nil
		}
	}
	_ = rk.PoolDelegatorStartingInfos.Walk(w.ctx, nil, walkInfo(tPool))
	_ = rk.OperatorDelegatorStartingInfos.Walk(w.ctx, nil, walkInfo(tOper))
	_ = rk.ServiceDelegatorStartingInfos.Walk(w.ctx, nil, walkInfo(tSvc))
	for k := range m.del {
		if !infos[k] {
			c.d("W02 W03", "no reward tracking for the delegation of %s to %s", who(k.U), k.T)
		}
	}
	// residue of deleted targets
	resid := func(what string, t Tgt) {
		if !m.exists(t) {
			c.d("R10", "%s of missing %s remain", what, t)
		}
	}
	_ = rk.PoolCurrentRewards.Walk(w.ctx, nil, func(id uint32, _ rewardstypes.CurrentRewards) (bool, error) {
		resid("current rewards", Tgt{tPool, id})
		return false, nil
	})
	_ = rk.OperatorCurrentRewards.Walk(w.ctx, nil, func(id uint32, _ rewardstypes.CurrentRewards) (bool, error) {
		resid("current rewards", Tgt{tOper, id})
		return false, nil
	})
	_ = rk.ServiceCurrentRewards.Walk(w.ctx, nil, func(id uint32, _ rewardstypes.CurrentRewards) (bool, error) {
		resid("current rewards", Tgt{tSvc, id})
		return false, nil
	})
	hist := func(k int) func(key collections.Pair[uint32, uint64], _ rewardstypes.HistoricalRewards) (bool, error) {
		return func(key collections.Pair[uint32, uint64], _ rewardstypes.HistoricalRewards) (bool, error) {
			resid("historical rewards", Tgt{k, key.K1()})
			return false, nil
		}
	}
	_ = rk.OperatorHistoricalRewards.Walk(w.ctx, nil, hist(tOper))
	_ = rk.ServiceHistoricalRewards.Walk(w.ctx, nil, hist(tSvc))
}

// cmpDD compares outstanding rewards of every target with the model.
func (c *cmp) cmpDD(props, what string, got map[Tgt]dd) {
	ts := map[Tgt]bool{}
	for t := range got {
		ts[t] = true
	}
	for t := range c.m.rw.out {
		ts[t] = true
	}
	for t := range ts {
		c.cmpDD1(props, what, t, got[t], c.m.rw.out[t], c.m.rw.outSlack[t]+1e-3)
	}
}

func (c *cmp) cmpDD1(props, what string, t Tgt, got, want dd, tol float64) {
	keys := map[[2]string]bool{}
	for p, rm := range got {
		for r := range rm {
			keys[[2]string{p, r}] = true
		}
	}
	for p, rm := range want {
		for r := range rm {
			keys[[2]string{p, r}] = true
		}
	}
	for k := range keys {
		g, w := got.get(k[0], k[1]), want.get(k[0], k[1])
		df := bminus(g, w)
		if df.Abs(df).Cmp(bflt(tol)) > 0 {
			c.d(props, "%s of %s in %s for its %s is %s, want %s", what, t, k[1], k[0], g.Text('f', 6), w.Text('f', 6))
		}
	}
}

func (c *cmp) liquidvesting() {
	w, m := c.w, c.m
	es, err := w.App.LiquidVestingKeeper.GetAllUsersInsuranceFundsEntries(w.ctx)
	if !c.err("L02", "insurance funds", err) {
		got := map[string]sdk.Coins{}
		sum := sdk.Coins{}
		for _, e := range es {
			got[e.UserAddress] = e.Balance
			sum = sum.Add(e.Balance...)
		}
		for u := range m.funds {
			if !coinsEq(got[u], m.funds[u]) {
				c.d("L02 L04", "insurance fund of %s is %s, want %s", who(u), got[u], m.funds[u])
			}
		}
		for u, b := range got {
			if m.funds[u] == nil && !b.IsZero() {
				c.d("L02 L04", "unexpected insurance fund of %s: %s", who(u), b)
			}
		}
		bal := w.App.BankKeeper.GetAllBalances(w.ctx, sdk.MustAccAddressFromBech32(lvModule))
		if !bal.IsAllGTE(sum) {
			c.d("L02 L04 R02", "liquid vesting module holds %s but insurance funds sum to %s", bal, sum)
		}
	}
	got := map[string]string{}
	tot := map[string]sdk.Coins{}
	for _, b := range w.App.LiquidVestingKeeper.GetAllBurnCoins(w.ctx) {
		k := fmt.Sprintf("%s@%d", b.DelegatorAddress, b.CompletionTime.UnixNano())
		tot[k] = tot[k].Add(b.Amount...)
	}
	for k, v := range tot {
		got[k] = v.String()
	}
	wt := map[string]sdk.Coins{}
	for _, b := range m.burns {
		k := fmt.Sprintf("%s@%d", b.U, b.Due.UnixNano())
		wt[k] = wt[k].Add(b.Coins...)
	}
	for k, v := range wt {
		if got[k] != v.String() {
			c.d("L03", "scheduled burn %s is %s, want %s", k, got[k], v)
		}
	}
	for k, v := range got {
		if _, ok := wt[k]; !ok {
			c.d("L03", "unexpected scheduled burn %s of %s", k, v)
		}
	}
}

func (c *cmp) assets() {
	w, m := c.w, c.m
	seen := map[string]bool{}
	_ = w.App.AssetsKeeper.Assets.Walk(w.ctx, nil, func(d string, a assetstypes.Asset) (bool, error) {
		seen[d] = true
		ma, ok := m.assets[d]
		if !ok || ma.Ticker != a.Ticker || ma.Exp != a.Exponent || a.Denom != d {
			c.d("A01", "asset %s is %v, want %v", d, a, ma)
		}
		return false, nil
	})
	for d := range m.assets {
		if !seen[d] {
			c.d("A01", "asset %s is missing", d)
		}
	}
	idx := map[string]bool{}
	_ = w.App.AssetsKeeper.TickerIndexes.Walk(w.ctx, nil, func(k collections.Pair[string, string]) (bool, error) {
		idx[k.K1()+"|"+k.K2()] = true
		if ma, ok := m.assets[k.K2()]; !ok || ma.Ticker != k.K1() {
			c.d("A01", "ticker %s still leads to %s", k.K1(), k.K2())
		}
		return false, nil
	})
	for d, a := range m.assets {
		if !idx[a.Ticker+"|"+d] {
			c.d("A01", "ticker %s does not lead to %s", a.Ticker, d)
		}
	}
}

var _ = restakingtypes.ModuleName
var _ = servicestypes.ModuleName
