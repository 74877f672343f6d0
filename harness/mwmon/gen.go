package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

// gen produces hostile but mostly meaningful histories; it looks at the model to find interesting operations.
type gen struct {
	r   *rand.Rand
	m   *Model
	run *runner
	w   map[string]int
	tot int
	ks  []string
	// options
	prof profile
}

// profile says what the cases of a property concentrate on.
type profile struct {
	boost  map[string]int
	steps  int
	final  []string // closing phases: "drain", "invariants", "mature", "export"
	locked int      // percentage of the delegations that are about locked tokens
	export int      // one Export every n steps on average
	query  int      // one Queries every n steps on average
}

var baseWeights = map[string]int{
	"Block": 60, "Delegate": 60, "Undelegate": 35,
	"CreateService": 6, "UpdateService": 4, "ActivateService": 8, "DeactivateService": 5, "DeleteService": 4, "TransferService": 2,
	"SetServiceParams": 5, "ServicesParams": 1, "Accredit": 4, "RevokeAccreditation": 4,
	"RegisterOperator": 6, "UpdateOperator": 4, "DeactivateOperator": 4, "ReactivateOperator": 4, "DeleteOperator": 4, "TransferOperator": 2,
	"SetOperatorParams": 6, "OperatorsParams": 1,
	"JoinService": 12, "LeaveService": 4, "AllowOperator": 6, "DisallowOperator": 4, "BorrowPool": 6, "CeasePool": 4,
	"SetPrefs": 10, "RestakingParams": 2,
	"CreatePlan": 6, "EditPlan": 3, "FundPlan": 6, "SetWithdrawAddr": 4, "WithdrawReward": 14, "WithdrawCommission": 6, "RewardsParams": 1,
	"MintLocked": 5, "BurnLocked": 6, "WithdrawInsurance": 4, "LVParams": 2, "IBC": 6, "Escrow": 1, "Refund": 1,
	"RegisterAsset": 2, "DeregisterAsset": 1, "Price": 2, "Send": 5, "ExecSend": 1, "FundCommunity": 1, "MultiSend": 1,
}

func mul(ks string, f int) map[string]int {
	out := map[string]int{}
	for _, k := range strings.Fields(ks) {
		out[k] = f
	}
	return out
}

func both(a, b map[string]int) map[string]int {
	for k, v := range b {
		a[k] = v
	}
	return a
}

var profiles = map[string]profile{
	"R01": {boost: mul("Delegate Undelegate UpdateService UpdateOperator BurnLocked", 3), steps: 90},
	"R02": {locked: 15, boost: mul("Delegate Undelegate Send Block", 2), steps: 90, final: []string{"mature"}},
	"R03": {locked: 15, boost: mul("Undelegate Block BurnLocked RestakingParams", 3), steps: 100, final: []string{"mature"}},
	"R04": {boost: mul("Delegate Undelegate SetServiceParams RestakingParams DeactivateOperator DeactivateService", 3), steps: 100},
	"R05": {boost: mul("Block Undelegate DeleteService DeleteOperator DeactivateOperator CreatePlan FundPlan EditPlan BurnLocked DeregisterAsset Price", 2), steps: 110, final: []string{"mature", "drain"}},
	"R06": {steps: 110},
	"R07": {boost: mul("CreateService UpdateService ActivateService DeactivateService DeleteService TransferService SetServiceParams ServicesParams Accredit RevokeAccreditation", 5), steps: 100},
	"R08": {boost: mul("RegisterOperator UpdateOperator DeactivateOperator ReactivateOperator DeleteOperator TransferOperator SetOperatorParams OperatorsParams", 5), steps: 110},
	"R09": {boost: mul("JoinService LeaveService AllowOperator DisallowOperator BorrowPool CeasePool DeleteService DeleteOperator DeactivateService DeactivateOperator", 4), steps: 110},
	"R10": {boost: mul("DeleteService DeleteOperator DeactivateOperator DeactivateService Undelegate CreateService RegisterOperator WithdrawReward", 4), steps: 120, final: []string{"mature", "deleteall", "invariants"}},
	"R11": {locked: 20, boost: mul("LVParams IBC MintLocked", 3), steps: 70, export: 25, final: []string{"export", "mature", "drain"}},
	"R12": {steps: 80, query: 12},
	"W01": {boost: mul("CreatePlan FundPlan WithdrawReward WithdrawCommission Delegate Undelegate Block", 2), steps: 110, final: []string{"drain"}},
	"W02": {boost: mul("CreatePlan FundPlan Block SetOperatorParams JoinService Price RegisterAsset SetServiceParams RestakingParams", 3), steps: 100, final: []string{"drain"}},
	"W03": {boost: mul("WithdrawReward WithdrawCommission SetWithdrawAddr Undelegate FundPlan", 3), steps: 110, final: []string{"drain"}},
	"W04": {boost: mul("SetPrefs Accredit RevokeAccreditation CreateService DeleteService DeactivateService BorrowPool CeasePool", 4), steps: 110, final: []string{"drain"}},
	"W05": {boost: mul("CreatePlan EditPlan FundPlan RewardsParams Block", 4), steps: 90, final: []string{"planends"}},
	"L01": {locked: 40, boost: mul("MintLocked BurnLocked Send MultiSend ExecSend FundCommunity LVParams", 5), steps: 90},
	"L02": {locked: 60, boost: mul("MintLocked IBC WithdrawInsurance Delegate Undelegate LVParams", 4), steps: 100, final: []string{"mature"}},
	"L03": {locked: 60, boost: both(mul("BurnLocked", 10), mul("MintLocked IBC Undelegate Block Delegate", 3)), steps: 100, final: []string{"mature"}},
	"L04": {boost: mul("IBC LVParams WithdrawInsurance Escrow Refund", 8), steps: 80},
	"A01": {boost: mul("RegisterAsset DeregisterAsset Price", 25), steps: 80},
}

func newGen(seed int64, run *runner, prof profile) *gen {
	g := &gen{r: newRand(seed), m: run.m, run: run, w: map[string]int{}, prof: prof}
	for k, v := range baseWeights {
		if b, ok := prof.boost[k]; ok {
			v *= b
		}
		g.w[k] = v
	}
	for k := range g.w {
		g.ks = append(g.ks, k)
	}
	sort.Strings(g.ks)
	for _, k := range g.ks {
		g.tot += g.w[k]
	}
	return g
}

func (g *gen) n(n int) int { return g.r.Intn(n) }

func (g *gen) p(pc int) bool { return g.r.Intn(100) < pc }

func pick[T any](g *gen, l ...T) T { return l[g.r.Intn(len(l))] }

func (g *gen) kind() string {
	x := g.n(g.tot)
	for _, k := range g.ks {
		if x < g.w[k] {
			return k
		}
		x -= g.w[k]
	}
	return "Block"
}

func nm(a string) string {
	if n, ok := nameOf[a]; ok {
		if _, ok := actors[n]; ok || n == "gov" {
			return n
		}
	}
	return a
}

func (g *gen) user() string { return pick(g, userNames[:4]...) }

func (g *gen) anyone() string { return pick(g, allActorNames()...) }

var denoms = []string{dAtom, dUsd, dNopr, dTia, lockedTia, lockedAtom, dStake}

func (g *gen) amount() string {
	if g.p(3) { // tokens with 18 decimals reach amounts beyond 64 bits
		return fmt.Sprint(1+g.r.Int63n(1_000_000_000)) + fmt.Sprintf("%0*d", 9+g.n(10), g.n(1_000_000_000))
	}
	switch g.n(8) {
	case 0:
		return fmt.Sprint(1 + g.n(3))
	case 1:
		return fmt.Sprint(1 + g.n(100))
	case 2, 3:
		return fmt.Sprint(1 + g.n(1_000_000))
	case 4:
		return fmt.Sprint(pick(g, 1, 3, 7, 10, 33, 1000) * pick(g, 1, 1000, 1_000_000, 1_000_000_000))
	case 5:
		return fmt.Sprint(1 + g.r.Int63n(1_000_000_000_000))
	default:
		return fmt.Sprint(1_000_000 + g.n(100_000_000))
	}
}

func sortSpec(c CoinSpec) CoinSpec {
	sort.Slice(c, func(i, j int) bool { return c[i].D < c[j].D })
	return c
}

// coinsOf makes a valid coin list of the given denoms.
func (g *gen) coinsOf(n int, ds []string) CoinSpec {
	perm := g.r.Perm(len(ds))
	var out CoinSpec
	for i := 0; i < n && i < len(ds); i++ {
		out = append(out, C{ds[perm[i]], g.amount()})
	}
	return sortSpec(out)
}

// mangle sometimes makes a coin list invalid.
func (g *gen) mangle(c CoinSpec) CoinSpec {
	if !g.p(4) {
		return c
	}
	switch g.n(5) {
	case 0:
		return CoinSpec{}
	case 1:
		return append(CoinSpec{}, C{dAtom, "0"})
	case 2:
		return append(CoinSpec{}, C{dAtom, "-5"})
	case 3:
		return append(CoinSpec{}, C{dUsd, "5"}, C{dAtom, "5"})
	}
	return append(CoinSpec{}, C{dAtom, "5"}, C{dAtom, "5"})
}

func (g *gen) svcID() uint32 {
	if g.p(3) {
		return pick(g, uint32(0), g.m.nextSvc, uint32(4294967295))
	}
	l := ids32(g.m.svc)
	if len(l) == 0 || g.p(3) {
		return uint32(1 + g.n(int(g.m.nextSvc)+1))
	}
	return pick(g, l...)
}

func (g *gen) oprID() uint32 {
	if g.p(3) {
		return pick(g, uint32(0), g.m.nextOpr, uint32(4294967295))
	}
	l := ids32(g.m.opr)
	if len(l) == 0 || g.p(3) {
		return uint32(1 + g.n(int(g.m.nextOpr)+1))
	}
	return pick(g, l...)
}

func (g *gen) poolID() uint32 {
	l := ids32(g.m.pool)
	if len(l) == 0 || g.p(4) {
		return uint32(g.n(int(g.m.nextPool) + 2))
	}
	return pick(g, l...)
}

func (g *gen) svcAdminOf(id uint32) string {
	if s := g.m.svc[id]; s != nil && !g.p(8) {
		return nm(s.Admin)
	}
	return pick(g, g.anyone(), pick(g, svcAdmins...), "gov")
}

func (g *gen) oprAdminOf(id uint32) string {
	if s := g.m.opr[id]; s != nil && !g.p(8) {
		return nm(s.Admin)
	}
	return pick(g, g.anyone(), pick(g, opAdmins...), "gov")
}

func (g *gen) authority() string {
	if g.p(8) {
		return g.anyone()
	}
	return "gov"
}

var longBlank = "   "

func (g *gen) name() string {
	if g.p(4) {
		return pick(g, "", longBlank, dnm)
	}
	return fmt.Sprintf("n%d", g.n(1000))
}

// text is a website or a picture.
func (g *gen) text() string {
	if g.p(3) {
		return dnm
	}
	return pick(g, "", "w1", "w2", "p1", "p2")
}

func (g *gen) fee(conf sdk.Coins) CoinSpec {
	if conf.IsZero() {
		if g.p(15) {
			return g.coinsOf(1, []string{dAtom, dUsd})
		}
		return nil
	}
	switch g.n(10) {
	case 0:
		return nil
	case 1:
		c := conf[g.n(len(conf))]
		return CoinSpec{{c.Denom, c.Amount.SubRaw(1).String()}}
	case 2:
		c := conf[g.n(len(conf))]
		return CoinSpec{{c.Denom, c.Amount.AddRaw(7).String()}}
	case 3:
		c := conf[g.n(len(conf))]
		return CoinSpec{{c.Denom, c.Amount.String()}}
	case 4:
		return CoinSpec{{dRwd, "5"}}
	case 5:
		return g.mangle(spec(conf))
	}
	return spec(conf)
}

func (g *gen) confFee() CoinSpec {
	switch g.n(4) {
	case 0:
		return nil
	case 1:
		return CoinSpec{{dAtom, "1000"}, {dUsd, "50"}}
	}
	return CoinSpec{{pick(g, dAtom, dUsd, dStake), fmt.Sprint(1 + g.n(100000))}}
}

// denomFor chooses a denom a user may well delegate.
func (g *gen) denomFor(u string, t Tgt) string {
	if g.p(g.prof.locked) {
		for _, d := range []string{lockedTia, lockedAtom} {
			if g.m.bal(addr(u)).AmountOf(d).IsPositive() && g.p(85) && g.m.funds[addr(u)].AmountOf(strings.TrimPrefix(d, "locked/")).IsPositive() {
				return d
			}
		}
	}
	for i := 0; i < 4; i++ {
		d := pick(g, dAtom, dAtom, dUsd, dTia, dNopr, lockedTia, lockedTia, lockedAtom, dStake)
		if g.p(7) {
			return d
		}
		if !inList(g.m.allowed, d) || (t.K == tSvc && !inList(g.m.svcDenoms[t.ID], d)) {
			continue
		}
		if g.m.bal(addr(u)).AmountOf(d).IsPositive() {
			return d
		}
	}
	return dAtom
}

func (g *gen) delegate() Op {
	u := g.user()
	o := Op{K: "Delegate", S: u, T: 1 + g.n(3)}
	switch o.T {
	case tOper:
		o.ID = g.oprID()
	case tSvc:
		o.ID = g.svcID()
	}
	n := 1
	if o.T != tPool && g.p(35) {
		n = 2 + g.n(2)
	}
	seen := map[string]bool{}
	both := n > 1 && g.p(g.prof.locked/2)
	for i := 0; i < n; i++ {
		d := g.denomFor(u, Tgt{o.T, o.ID})
		if both && i < 2 {
			d = []string{lockedTia, lockedAtom}[i]
		}
		if seen[d] {
			continue
		}
		seen[d] = true
		a := g.amount()
		bal := g.m.bal(addr(u)).AmountOf(d)
		if isLocked(d) && bal.IsPositive() && !g.p(10) {
			// stay near what insurance covers
			ai, _ := math.NewIntFromString(a)
			a = math.MinInt(ai, bal).String()
			if g.p(30) {
				a = g.maxCovered(addr(u), d, bal).String()
			}
		} else if g.p(2) {
			a = bal.AddRaw(1).String()
		}
		if a == "0" {
			a = "1"
		}
		o.C = append(o.C, C{d, a})
	}
	o.C = g.mangle(sortSpec(o.C))
	return o
}

// maxCovered is (about) the largest amount of a locked denom the insurance of u still covers, or one more.
func (g *gen) maxCovered(u, d string, bal math.Int) math.Int {
	nat := strings.TrimPrefix(d, "locked/")
	fund := g.m.funds[u].AmountOf(nat)
	locked := g.m.lockedOf(u).AmountOf(d)
	if !g.m.lv.pct.IsPositive() || !fund.IsPositive() {
		return math.OneInt()
	}
	max := math.LegacyNewDecFromInt(fund).MulInt64(100).Quo(g.m.lv.pct).TruncateInt().Sub(locked)
	if g.p(50) {
		max = max.AddRaw(int64(g.n(3)))
	}
	if max.GT(bal) {
		max = bal
	}
	if !max.IsPositive() {
		return math.OneInt()
	}
	return max
}

func (g *gen) someDel(f func(DKey) bool) (DKey, bool) {
	var ks []DKey
	for _, k := range g.m.delKeys() {
		if f == nil || f(k) {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return DKey{}, false
	}
	return ks[g.n(len(ks))], true
}

func (g *gen) part(a math.Int) math.Int {
	switch g.n(6) {
	case 0, 1, 2:
		return a
	case 3:
		return math.OneInt()
	case 4:
		return a.AddRaw(1)
	}
	x := a.QuoRaw(int64(2 + g.n(5)))
	if x.IsZero() {
		return math.OneInt()
	}
	return x
}

func (g *gen) undelegate() Op {
	k, ok := g.someDel(nil)
	if !ok || g.p(4) {
		return Op{K: "Undelegate", S: g.user(), T: 1 + g.n(3), ID: uint32(g.n(4)), C: g.coinsOf(1, denoms)}
	}
	o := Op{K: "Undelegate", S: nm(k.U), T: k.T.K, ID: k.T.ID}
	if g.p(3) {
		o.S = g.user()
	}
	cs := g.m.del[k]
	if k.T.K == tPool {
		c := cs[0]
		o.C = CoinSpec{{c.Denom, g.part(c.Amount).String()}}
		o.ID = 0
		o.C = g.mangle(o.C)
		return o
	}
	if g.p(40) {
		o.C = spec(cs)
	} else {
		for _, c := range cs {
			if len(o.C) == 0 || g.p(50) {
				o.C = append(o.C, C{c.Denom, g.part(c.Amount).String()})
			}
		}
	}
	o.C = g.mangle(o.C)
	return o
}

func (g *gen) dt() int64 {
	m := g.m
	// aim at something that is due
	if g.p(35) {
		var due []time.Time
		for _, e := range m.ubd {
			due = append(due, e.Due)
		}
		for _, e := range m.burns {
			due = append(due, e.Due)
		}
		for _, id := range ids32(m.opr) {
			if m.opr[id].Status == osInactivating {
				due = append(due, m.opr[id].Due)
			}
		}
		for _, id := range sortedPlanIDs(m.plans) {
			due = append(due, m.plans[id].En, m.plans[id].St)
		}
		if len(due) > 0 {
			d := pick(g, due...).Sub(m.t) + time.Duration(pick(g, 0, 0, 0, -1, 1, -1000000))
			if d > 0 && d < 400*24*time.Hour {
				return int64(d)
			}
		}
	}
	switch g.n(12) {
	case 0:
		return 1
	case 1:
		return int64(time.Millisecond)
	case 2:
		return int64(999999)
	case 3:
		return int64(time.Hour)
	case 4:
		return int64(24 * time.Hour)
	case 5:
		return int64(m.unbTime)
	case 6:
		return int64(time.Duration(g.r.Int63n(int64(6 * time.Hour))))
	}
	return int64(5*time.Second) + int64(g.n(1000))*int64(time.Millisecond)
}

func (g *gen) weights(idsOf []uint32) []DW {
	var out []DW
	for _, id := range idsOf {
		if g.p(70) {
			out = append(out, DW{id, uint32(1 + g.n(10))})
		}
	}
	if g.p(5) {
		out = append(out, DW{pick(g, uint32(0), 99), 1})
	}
	if g.p(5) && len(out) > 0 {
		out = append(out, out[0])
	}
	if g.p(5) && len(out) > 0 {
		out[0].W = 0
	}
	return out
}

func (g *gen) planTerms(o *Op) {
	m := g.m
	now := m.t.UnixNano()
	o.X = fmt.Sprintf("plan %d", g.n(100))
	o.C = g.coinsOf(1+g.n(2), []string{dRwd, dRwd2, dAtom, dUsd})
	for i := range o.C {
		if g.p(40) {
			o.C[i].A = fmt.Sprint(pick(g, 86400, 864000, 86400000, 100, 1000003, 1_000_000_000))
		}
	}
	o.C = g.mangle(o.C)
	if g.p(2) { // as much as can be written down
		o.C = CoinSpec{{dRwd, "1" + strings.Repeat("0", pick(g, 77, 76, 70, 60))}}
	}
	o.St = now + pick(g, int64(0), 1, -int64(time.Hour), int64(time.Minute), int64(time.Hour), int64(24*time.Hour))
	o.En = o.St + pick(g, int64(time.Hour), int64(24*time.Hour), int64(30*24*time.Hour), int64(30*24*time.Hour), int64(365*24*time.Hour), int64(time.Second))
	if g.p(3) {
		o.En = o.St - int64(g.n(2))
	}
	o.W = []uint32{pick(g, uint32(0), 1, 2, 5, 10), pick(g, uint32(0), 1, 3, 7), pick(g, uint32(0), 1, 4)}
	if g.p(3) {
		o.W = []uint32{4294967295, 4294967295, 2}
	}
	o.DT = []int{pick(g, 0, 0, 1, 2), pick(g, 0, 0, 1, 2)}
	if g.p(4) {
		o.DT[g.n(2)] = 10 + g.n(3)
	}
	if g.p(3) {
		o.X = strings.Repeat("x", pick(g, 1000, 1000, 1001))
	}
	if o.DT[0] == 1 {
		o.DWp = g.weights(ids32(m.pool))
	}
	if o.DT[1] == 1 {
		o.DWo = g.weights(ids32(m.opr))
	}
}

func (g *gen) lvParams() Op {
	o := Op{K: "LVParams", S: g.authority(), X: pick(g, "2", "2", "10", "0.000001", "33.333333333333333333", "100", "50", "1")}
	o.L = []string{"burner"}
	o.L2 = []string{"minter"}
	o.L3 = []string{"f:u5", "u5"}
	o.L4 = []string{"channel-0", "channel-3"}
	switch g.n(12) {
	case 0:
		o.X = pick(g, "0", "-1", "101")
	case 1:
		o.L = nil
	case 2:
		o.L2 = nil
	case 3:
		o.L3 = []string{"u4"}
	case 4:
		o.L4 = nil
	case 5:
		o.L = []string{"burner", "u0"}
	}
	return o
}

func (g *gen) ibc() Op {
	o := Op{K: "IBC", S: pick(g, "f:u5", "f:u5", "f:u5", "u5", "f:eve"), X: pick(g, "channel-0", "channel-0", "channel-0", "channel-3", "channel-9"), U: "lvmod"}
	if g.p(4) {
		o.U = pick(g, "u0", "eve", "bad", addr("gov"))
	}
	d := pick(g, "utia", "utia", "utia", "uother", "transfer/"+ibcSrcChannel+"/"+dAtom, "transfer/channel-5/ufar")
	if g.p(12) {
		o.X2 = pick(g, "", "other", "text", "malformed")
		o.C = CoinSpec{{d, g.amount()}}
		o.U = pick(g, "u0", "u1", "lvmod")
		return o
	}
	o.X2 = "deposit"
	o.Up = g.p(8)
	if g.p(6) {
		o.X2 = "forward"
	}
	tot := math.ZeroInt()
	n := 1 + g.n(3)
	for i := 0; i < n; i++ {
		a, _ := math.NewIntFromString(g.amount())
		if g.p(3) {
			a = math.ZeroInt()
		}
		tot = tot.Add(a)
		o.L = append(o.L, g.user())
		o.L2 = append(o.L2, a.String())
	}
	if g.p(4) {
		o.L[0] = "bad"
	}
	if g.p(4) {
		tot = tot.AddRaw(int64(pick(g, -1, 1, 1000)))
	}
	if g.p(2) {
		o.L = append(o.L, g.user())
		o.L2 = append(o.L2, "-5")
		tot = tot.SubRaw(5)
	}
	o.C = CoinSpec{{d, tot.String()}}
	return o
}

func (g *gen) next() Op {
	if g.prof.export > 0 && g.n(g.prof.export) == 0 {
		return Op{K: "Export"}
	}
	if g.prof.query > 0 && g.n(g.prof.query) == 0 {
		return Op{K: "Queries", Dt: g.r.Int63()}
	}
	o := g.make(g.kind())
	o.Up = o.Up || actors[o.S] != nil && g.p(3)
	return o
}

func (g *gen) make(k string) Op {
	m := g.m
	o := Op{K: k}
	switch k {
	case "Block":
		o.Dt = g.dt()
	case "Delegate":
		return g.delegate()
	case "Undelegate":
		return g.undelegate()
	case "CreateService":
		if len(m.svc) > 5 && !g.p(20) {
			return g.delegate()
		}
		o.S, o.X, o.X2, o.F = pick(g, svcAdmins...), g.name(), pick(g, "d", "", "other"), g.fee(m.svcFee)
		o.X3, o.X4 = g.text(), g.text()
		if g.p(2) {
			o.S = "bad"
		}
	case "UpdateService":
		o.ID = g.svcID()
		o.S, o.X, o.X2 = g.svcAdminOf(o.ID), pick(g, g.name(), dnm), pick(g, "dd", dnm, "")
		o.X3, o.X4 = pick(g, dnm, g.text()), pick(g, dnm, g.text())
	case "ActivateService", "DeactivateService", "DeleteService":
		o.ID = g.svcID()
		o.S = g.svcAdminOf(o.ID)
	case "TransferService":
		o.ID = g.svcID()
		o.S, o.U = g.svcAdminOf(o.ID), pick(g, append(svcAdmins, "u0", "bad")...)
	case "SetServiceParams":
		o.ID = g.svcID()
		o.S = g.svcAdminOf(o.ID)
		o.D = g.denomList()
	case "ServicesParams", "RewardsParams":
		o.S, o.C = g.authority(), g.mangle(g.confFee())
	case "Accredit", "RevokeAccreditation":
		o.S, o.ID = g.authority(), g.svcID()
	case "RegisterOperator":
		if len(m.opr) > 5 && !g.p(20) {
			return g.delegate()
		}
		o.S, o.X, o.F = pick(g, opAdmins...), g.name(), g.fee(m.oprFee)
		o.X2, o.X3 = g.text(), g.text()
	case "UpdateOperator":
		o.ID = g.oprID()
		o.S, o.X, o.X2 = g.oprAdminOf(o.ID), pick(g, g.name(), dnm), pick(g, "ww", dnm, "")
		o.X3 = pick(g, dnm, g.text())
	case "DeactivateOperator", "ReactivateOperator", "DeleteOperator", "WithdrawCommission":
		o.ID = g.oprID()
		o.S = g.oprAdminOf(o.ID)
	case "TransferOperator":
		o.ID = g.oprID()
		o.S, o.U = g.oprAdminOf(o.ID), pick(g, append(opAdmins, "u1", "bad")...)
	case "SetOperatorParams":
		o.ID = g.oprID()
		o.S, o.X = g.oprAdminOf(o.ID), pick(g, "0", "0.1", "0.05", "0.333333333333333333", "1", "0.000000000000000001")
		if g.p(5) {
			o.X = pick(g, "-0.1", "1.000000000000000001", "2")
		}
	case "OperatorsParams":
		o.S, o.C, o.Dt = g.authority(), g.mangle(g.confFee()), int64(pick(g, time.Hour, 24*time.Hour, 3*24*time.Hour, time.Second))
		if g.p(5) {
			o.Dt = 0
		}
	case "JoinService", "LeaveService":
		o.ID, o.ID2 = g.oprID(), g.svcID()
		o.S = g.oprAdminOf(o.ID)
		if k == "LeaveService" {
			if a, b, ok := g.pair(m.joins); ok && g.p(75) {
				o.ID, o.ID2 = a, b
				o.S = g.oprAdminOf(a)
			}
		}
	case "AllowOperator", "DisallowOperator":
		o.ID, o.ID2 = g.svcID(), g.oprID()
		if k == "DisallowOperator" {
			if a, b, ok := g.pair(m.allow); ok && g.p(75) {
				o.ID, o.ID2 = a, b
			}
		}
		o.S = g.svcAdminOf(o.ID)
	case "BorrowPool", "CeasePool":
		o.ID, o.ID2 = g.svcID(), g.poolID()
		if k == "CeasePool" {
			if a, b, ok := g.pair(m.secs); ok && g.p(75) {
				o.ID, o.ID2 = a, b
			}
		}
		o.S = g.svcAdminOf(o.ID)
	case "SetPrefs":
		o.S, o.B, o.B2 = g.user(), g.p(50), g.p(50)
		for _, id := range ids32(m.svc) {
			if g.p(30) {
				o.IDs = append(o.IDs, id)
			}
		}
		if g.p(3) {
			o.IDs = append(o.IDs, g.svcID())
		}
		if g.p(2) && len(o.IDs) > 0 {
			o.IDs = append(o.IDs, o.IDs[0])
		}
	case "RestakingParams":
		o.S, o.Dt, o.D = g.authority(), int64(pick(g, time.Hour, 24*time.Hour, 3*24*time.Hour, time.Second)), g.allowList()
		if g.p(4) {
			o.Dt = 0
		}
	case "CreatePlan":
		o.ID = g.svcID()
		o.S, o.F = g.svcAdminOf(o.ID), g.fee(m.planFee)
		g.planTerms(&o)
	case "EditPlan":
		o.PID = g.planID()
		o.S = g.anyone()
		if p := m.plans[o.PID]; p != nil {
			o.S = g.svcAdminOf(p.Svc)
		}
		g.planTerms(&o)
	case "FundPlan":
		o.S, o.PID, o.C = "eve", g.planID(), g.coinsOf(1, []string{dRwd, dRwd2, dAtom})
		if p := m.plans[o.PID]; p != nil {
			o.C = nil
			for _, c := range p.Amount {
				if c.Amount.BigInt().BitLen() > 150 {
					continue
				}
				o.C = append(o.C, C{c.Denom, c.Amount.MulRaw(int64(pick(g, 1, 3, 30))).String()})
			}
			if len(o.C) == 0 {
				o.C = CoinSpec{{dRwd, "5"}}
			}
		}
	case "SetWithdrawAddr":
		o.S, o.U = pick(g, g.user(), pick(g, opAdmins...)), pick(g, "wd0", "wd1", g.user(), "bad", rewardPool, distrAddr)
		if g.p(40) {
			o.U = pick(g, "wd0", "wd1")
		}
	case "WithdrawReward":
		if k, ok := g.someDel(nil); ok && !g.p(4) {
			o.S, o.T, o.ID = nm(k.U), k.T.K, k.T.ID
		} else {
			o.S, o.T, o.ID = g.user(), g.n(4), uint32(g.n(4))
		}
	case "MintLocked":
		o.S, o.U, o.C = "minter", g.user(), g.coinsOf(1+g.n(2), []string{dTia, dTia, dAtom, dAtom}[g.n(2):])
		o.C = dedup(o.C)
		if g.p(8) {
			o.S = g.anyone()
		}
		if g.p(4) {
			o.C = CoinSpec{{lockedTia, "5"}}
		}
		if g.p(3) {
			o.U = pick(g, "bad", rewardPool)
		}
		o.C = g.mangle(o.C)
	case "BurnLocked":
		o.S, o.U = "burner", g.user()
		var holders []string
		for _, n := range userNames[:4] {
			for _, k := range m.delKeys() {
				if k.U == addr(n) && (m.del[k].AmountOf(lockedTia).IsPositive() || m.del[k].AmountOf(lockedAtom).IsPositive()) {
					holders = append(holders, n)
				}
			}
		}
		if len(holders) > 0 && g.p(75) {
			o.U = pick(g, holders...)
		}
		if g.p(8) {
			o.S = g.anyone()
		}
		u := addr(o.U)
		for _, d := range []string{lockedAtom, lockedTia} {
			if !g.p(65) {
				continue
			}
			have := m.bal(u).AmountOf(d)
			for k, c := range m.del {
				if k.U == u {
					have = have.Add(c.AmountOf(d))
				}
			}
			a := m.bal(u).AmountOf(d)
			if g.p(60) || !a.IsPositive() {
				a = have
			}
			if !a.IsPositive() {
				if !g.p(10) {
					continue
				}
				a = math.OneInt()
			}
			if g.p(30) {
				a = g.part(a)
			} else if lo := m.bal(u).AmountOf(d); lo.LT(have) && g.p(30) {
				// some of the restaked ones
				a = lo.Add(g.part(have.Sub(lo)))
			} else if g.p(4) {
				a = a.AddRaw(1)
			}
			o.C = append(o.C, C{d, a.String()})
		}
		o.C = sortSpec(o.C)
		if len(o.C) == 0 {
			o.C = CoinSpec{{lockedTia, g.amount()}}
		}
		if g.p(3) {
			o.C = CoinSpec{{dAtom, "5"}}
		}
		o.C = g.mangle(o.C)
	case "WithdrawInsurance":
		o.S = g.user()
		f := m.funds[addr(o.S)]
		if len(f) == 0 {
			o.C = CoinSpec{{dTia, "1"}}
			break
		}
		need := m.required(m.lockedOf(addr(o.S)))
		for _, c := range f {
			if len(o.C) > 0 && g.p(50) {
				continue
			}
			a := c.Amount
			switch g.n(5) {
			case 0:
				a = a.Sub(need.AmountOf(c.Denom))
			case 1:
				a = a.Sub(need.AmountOf(c.Denom)).AddRaw(1)
			case 2:
				a = a.AddRaw(1)
			case 3:
				a = g.part(a)
			}
			if a.IsPositive() {
				o.C = append(o.C, C{c.Denom, a.String()})
			}
		}
		if len(o.C) == 0 {
			o.C = CoinSpec{{dTia, "1"}}
		}
		o.C = g.mangle(o.C)
	case "LVParams":
		return g.lvParams()
	case "IBC":
		return g.ibc()
	case "Escrow":
		o.S, o.X, o.C = "eve", pick(g, "channel-0", "channel-3"), CoinSpec{{dAtom, "1000000000"}}
	case "Refund":
		o.S, o.X, o.X2 = g.user(), pick(g, "channel-0", "channel-0", "channel-3"), pick(g, "ack", "nack", "timeout")
		o.C = CoinSpec{{pick(g, dAtom, dAtom, "transfer/"+o.X+"/utia", "transfer/channel-7/ufar"), pick(g, "1", "77", "1000", "100000", "2000000000")}}
		if g.p(40) {
			o.L = []string{g.user()}
		}
	case "RegisterAsset":
		o.S, o.X, o.X2, o.ID = g.authority(), pick(g, denoms...), pick(g, "ATOM", "USD", "TIA", "STAKE", "NEW"), uint32(pick(g, 0, 6, 6, 6, 18, 20))
		if g.p(3) {
			o.ID = pick(g, uint32(77), 78, 100, 1<<32-1)
		}
		if g.p(5) {
			o.X2 = pick(g, "", "a b", "TOOLONGTICKER")
		}
		if g.p(3) {
			o.X = pick(g, "", "1x", "x")
		}
	case "DeregisterAsset":
		o.S, o.X = g.authority(), pick(g, denoms...)
	case "Price":
		o.X, o.X2 = pick(g, "ATOM", "USD", "TIA"), pick(g, "1", "2.5", "0.000001", "1000", "13.37", "7.123456789012345678")
		if g.p(6) {
			o.X2 = "0"
		}
	case "Send", "ExecSend", "FundCommunity":
		o.S, o.C = pick(g, g.user(), "eve"), g.coinsOf(1, []string{dAtom, dUsd, lockedTia, lockedAtom, dTia})
		o.U = g.sendTo()
		o.C = g.mangle(o.C)
		if isLocked(o.C0()) {
			b := m.bal(addr(o.S)).AmountOf(o.C0())
			if b.IsPositive() && g.p(80) {
				o.C[0].A = g.part(b).String()
			}
		}
		if g.p(35) {
			o.C = g.held(addr(o.S))
		}
		if k == "ExecSend" && g.p(70) {
			o.X = "eve"
		}
	case "MultiSend":
		o.S, o.C = g.user(), CoinSpec{{pick(g, dAtom, lockedTia), fmt.Sprint(1 + g.n(50))}}
		if g.p(35) {
			o.C = g.held(addr(o.S))
			for i := range o.C {
				o.C[i].A = fmt.Sprint(1 + g.n(50))
			}
		}
		for i := 0; i < 1+g.n(3); i++ {
			o.L = append(o.L, g.sendTo())
		}
	}
	return o
}

// held picks parts of several of the balances of an account.
func (g *gen) held(a string) CoinSpec {
	var out CoinSpec
	for _, d := range append([]string{lockedTia, lockedAtom, dTia}, denoms...) {
		if b := g.m.bal(a).AmountOf(d); b.IsPositive() && g.p(50) {
			out = append(out, C{d, g.part(b).String()})
		}
	}
	if len(out) == 0 {
		return CoinSpec{{dAtom, "1"}}
	}
	return dedup(sortSpec(out))
}

// C0 is the denom of the first coin.
func (o Op) C0() string {
	if len(o.C) == 0 {
		return ""
	}
	return o.C[0].D
}

func dedup(c CoinSpec) CoinSpec {
	var out CoinSpec
	for _, x := range c {
		if len(out) == 0 || out[len(out)-1].D != x.D {
			out = append(out, x)
		}
	}
	return out
}

func (g *gen) sendTo() string {
	m := g.m
	switch g.n(8) {
	case 0:
		if l := ids32(m.svc); len(l) > 0 {
			return svcAddr(pick(g, l...))
		}
	case 1:
		if l := ids32(m.opr); len(l) > 0 {
			return oprAddr(pick(g, l...))
		}
	case 2:
		if l := ids32(m.pool); len(l) > 0 {
			return poolAddr(pick(g, l...))
		}
	case 3:
		return pick(g, rewardPool, distrAddr, lvModule, govAddr)
	case 4:
		if g.p(20) {
			return "bad"
		}
	}
	return g.user()
}

func (g *gen) pair(mm map[uint32]idSet) (uint32, uint32, bool) {
	var l [][2]uint32
	for _, a := range ids32(mm) {
		for _, b := range ids32(mm[a]) {
			l = append(l, [2]uint32{a, b})
		}
	}
	if len(l) == 0 {
		return 0, 0, false
	}
	x := l[g.n(len(l))]
	return x[0], x[1], true
}

func (g *gen) planID() uint64 {
	l := sortedPlanIDs(g.m.plans)
	if len(l) == 0 || g.p(4) {
		return uint64(g.n(int(g.m.nextPlan) + 2))
	}
	return pick(g, l...)
}

func (g *gen) denomList() []string {
	var out []string
	if g.p(40) {
		return nil
	}
	for _, d := range denoms {
		if g.p(45) {
			out = append(out, d)
		}
	}
	if g.p(3) {
		out = append(out, "!")
	}
	return out
}

func (g *gen) allowList() []string {
	if g.p(45) {
		return nil
	}
	if g.p(30) {
		return []string{dAtom, dUsd, dTia, lockedTia, lockedAtom}
	}
	return g.denomList()
}

// prelude sets up a plausible chain.
func (g *gen) prelude() []Op {
	var ops []Op
	add := func(o Op) { ops = append(ops, o) }
	gov := "gov"
	if g.p(30) {
		add(Op{K: "RestakingParams", S: gov, Dt: int64(pick(g, time.Hour, 24*time.Hour, 3*24*time.Hour)), D: pick(g, nil, []string{dAtom, dUsd, dTia, lockedTia, lockedAtom, dNopr})})
	}
	for _, a := range []struct {
		d, t string
		e    uint32
	}{{dAtom, "ATOM", 6}, {dUsd, "USD", 6}, {dTia, "TIA", 6}, {lockedTia, "TIA", 6}, {lockedAtom, "ATOM", 6}, {dStake, "STAKE", 18}} {
		if g.p(88) {
			add(Op{K: "RegisterAsset", S: gov, X: a.d, X2: a.t, ID: a.e})
		}
	}
	for _, t := range []string{"ATOM", "USD", "TIA"} {
		if g.p(93) {
			add(Op{K: "Price", X: t, X2: pick(g, "1", "2", "9.87", "0.01", "1", "123.456789"), ID: pick(g, uint32(18), 18, 8, 6, 12, 24)})
		} else if t != "USD" {
			add(Op{K: "Price", X: t, ID: 18}) // a market that has no price yet
		}
	}
	lv := g.lvParams()
	lv.S = gov
	lv.X = pick(g, "2", "2", "10", "33.333333333333333333", "100", "0.5")
	lv.L, lv.L2, lv.L3, lv.L4 = []string{"burner"}, []string{"minter"}, []string{"f:u5", "u5"}, []string{"channel-0", "channel-3"}
	add(lv)
	for _, u := range userNames[:4] {
		if g.p(60) {
			add(Op{K: "MintLocked", S: "minter", U: u, C: CoinSpec{{lockedAtom[7:], g.amount()}}})
		}
		if g.p(75) {
			add(Op{K: "MintLocked", S: "minter", U: u, C: CoinSpec{{dTia, g.amount()}}})
			if g.p(85) {
				a := g.amount()
				add(Op{K: "IBC", S: "f:u5", X: "channel-0", U: "lvmod", X2: "deposit", L: []string{u}, L2: []string{a}, C: CoinSpec{{"utia", a}}})
			}
		}
	}
	if g.p(g.prof.locked) {
		add(Op{K: "Escrow", S: "eve", X: "channel-0", C: CoinSpec{{dAtom, "1000000000"}}})
		for _, u := range userNames[:4] {
			if g.p(50) {
				a := pick(g, "1", "77", "1000", "100000000")
				add(Op{K: "IBC", S: "f:u5", X: "channel-0", U: "lvmod", X2: "deposit", L: []string{u}, L2: []string{a}, C: CoinSpec{{"transfer/" + ibcSrcChannel + "/" + dAtom, a}}})
			}
		}
	}
	ns, no := 1+g.n(3), 1+g.n(3)
	s0, o0 := g.m.nextSvc-1, g.m.nextOpr-1
	for i := 1; i <= ns; i++ {
		s := svcAdmins[g.n(len(svcAdmins))]
		add(Op{K: "CreateService", S: s, X: fmt.Sprintf("svc%d", i), X2: "d"})
		if g.p(90) {
			add(Op{K: "ActivateService", S: s, ID: s0 + uint32(i)})
		}
		if g.p(60) {
			add(Op{K: "Accredit", S: gov, ID: s0 + uint32(i)})
		}
	}
	for i := 1; i <= no; i++ {
		s := opAdmins[g.n(len(opAdmins))]
		add(Op{K: "RegisterOperator", S: s, X: fmt.Sprintf("op%d", i)})
		if g.p(50) {
			add(Op{K: "SetOperatorParams", S: s, ID: o0 + uint32(i), X: pick(g, "0.1", "0.05", "0.333333333333333333", "1")})
		}
		for j := 1; j <= ns; j++ {
			if g.p(60) {
				add(Op{K: "JoinService", S: s, ID: o0 + uint32(i), ID2: s0 + uint32(j)})
			}
		}
	}
	return ops
}

// scenario drives one case.
func (g *gen) scenario(steps int) {
	r := g.run
	if g.n(6) == 0 && !r.do(g.jump()) {
		return
	}
	for _, o := range g.prelude() {
		if !r.do(o) {
			return
		}
	}
	if g.n(3) == 0 && !r.do(g.jump()) {
		return
	}
	for i := 0; i < 6; i++ {
		if !r.do(g.delegate()) {
			return
		}
	}
	for i := 0; i < 2; i++ {
		if !r.do(g.make("CreatePlan")) || !r.do(g.make("FundPlan")) {
			return
		}
	}
	if often := g.prof.query > 0 || g.prof.export > 0; often && g.n(25) == 0 || g.n(100) == 0 {
		if !g.crowd() {
			return
		}
		steps /= 4
	}
	for i := 0; i < steps; i++ {
		if !r.do(g.next()) {
			return
		}
	}
	for _, f := range g.prof.final {
		if !g.closing(f) {
			return
		}
	}
	r.do(Op{K: "Invariants"})
}

// crowd makes more objects of one kind than fit in the default page of a query.
func (g *gen) crowd() bool {
	r, m := g.run, g.m
	n := 101 + g.n(20)
	u := userNames[g.n(3)]
	ok := func(o Op) bool { return r.do(o) }
	stake := func(t int, id uint32) bool {
		return ok(Op{K: "Delegate", S: u, T: t, ID: id, C: CoinSpec{{pick(g, dAtom, dUsd), g.amount()}}})
	}
	var ids []uint32
	switch k := g.n(3); k {
	case 0:
		for i := 0; i < n; i++ {
			id, a := m.nextSvc, svcAdmins[g.n(len(svcAdmins))]
			if !ok(Op{K: "CreateService", S: a, X: g.name(), X2: "d", F: spec(m.svcFee)}) {
				return false
			}
			if m.svc[id] == nil {
				continue
			}
			ids = append(ids, id)
			if g.p(80) && !ok(Op{K: "ActivateService", S: a, ID: id}) || !stake(tSvc, id) {
				return false
			}
		}
		if !ok(Op{K: "SetPrefs", S: u, IDs: ids}) {
			return false
		}
	case 1:
		sid := g.svcID()
		for i := 0; i < n; i++ {
			id, a := m.nextOpr, opAdmins[g.n(len(opAdmins))]
			if !ok(Op{K: "RegisterOperator", S: a, X: g.name(), F: spec(m.oprFee)}) {
				return false
			}
			if m.opr[id] == nil {
				continue
			}
			ids = append(ids, id)
			if !ok(Op{K: "JoinService", S: a, ID: id, ID2: sid}) || !stake(tOper, id) {
				return false
			}
			if g.p(70) && !ok(Op{K: "AllowOperator", S: g.svcAdminOf(sid), ID: sid, ID2: id}) {
				return false
			}
		}
	case 2:
		for i := 0; i < n; i++ {
			if !ok(g.make("CreatePlan")) {
				return false
			}
		}
	}
	r.st.ev("crowds")
	if !ok(Op{K: "Block", Dt: int64(6 * time.Second)}) || !ok(Op{K: "Queries", Dt: g.r.Int63()}) {
		return false
	}
	if g.p(50) {
		for _, k := range m.delKeys() {
			if nm(k.U) == u && k.T.K != tPool && !ok(Op{K: "Undelegate", S: u, T: k.T.K, ID: k.T.ID, C: spec(m.del[k])}) {
				return false
			}
		}
		if !ok(Op{K: "Queries", Dt: g.r.Int63()}) {
			return false
		}
	}
	if g.prof.export > 0 && !ok(Op{K: "Export"}) {
		return false
	}
	return true
}

// jump moves the id counters to values where encodings of ids get longer or share prefixes with existing ones.
func (g *gen) jump() Op {
	o := Op{K: "IDs"}
	for i := 0; i < 4; i++ {
		o.L = append(o.L, pick(g, "0", "0", "9", "10", "11", "20", "100", "255", "256", "257", "512", "1000", "65535", "65537", "65537", "16777217", "2147483649"))
	}
	if g.n(5) == 0 {
		o.L[3] = "4294967297"
	}
	return o
}

// closing runs an end game.
func (g *gen) closing(f string) bool {
	r, m := g.run, g.m
	switch f {
	case "mature":
		for i := 0; i < 60 && (len(m.ubd) > 0 || len(m.burns) > 0); i++ {
			next := time.Duration(1 << 62)
			for _, e := range m.ubd {
				if d := e.Due.Sub(m.t); d < next {
					next = d
				}
			}
			for _, e := range m.burns {
				if d := e.Due.Sub(m.t); d < next {
					next = d
				}
			}
			if next < 1 {
				next = 1
			}
			if !r.do(Op{K: "Block", Dt: int64(next)}) {
				return false
			}
		}
	case "drain":
		// everybody claims everything: every claim has to be paid
		if !r.do(Op{K: "Block", Dt: int64(time.Second)}) {
			return false
		}
		for _, k := range m.delKeys() {
			if !r.do(Op{K: "WithdrawReward", S: nm(k.U), T: k.T.K, ID: k.T.ID}) {
				return false
			}
		}
		for _, id := range ids32(m.opr) {
			if !r.do(Op{K: "WithdrawCommission", S: nm(m.opr[id].Admin), ID: id}) {
				return false
			}
		}
		r.st.ev("drained")
	case "deleteall":
		for _, k := range m.delKeys() {
			o := Op{K: "Undelegate", S: nm(k.U), T: k.T.K, ID: k.T.ID, C: spec(m.del[k])}
			if k.T.K == tPool {
				o.ID = 0
			}
			if !r.do(o) {
				return false
			}
		}
		if !g.closing("mature") {
			return false
		}
		for _, id := range ids32(m.opr) {
			if m.opr[id].Status == osActive && !r.do(Op{K: "DeactivateOperator", S: nm(m.opr[id].Admin), ID: id}) {
				return false
			}
		}
		if !r.do(Op{K: "Block", Dt: int64(m.deactTime) + int64(4*24*time.Hour)}) {
			return false
		}
		for _, id := range ids32(m.opr) {
			if !r.do(Op{K: "DeleteOperator", S: nm(m.opr[id].Admin), ID: id}) {
				return false
			}
		}
		for _, id := range ids32(m.svc) {
			if m.svc[id].Status == stActive && !r.do(Op{K: "DeactivateService", S: nm(m.svc[id].Admin), ID: id}) {
				return false
			}
			if !r.do(Op{K: "DeleteService", S: nm(m.svc[id].Admin), ID: id}) {
				return false
			}
		}
		return r.do(Op{K: "Block", Dt: int64(time.Hour)})
	case "planends":
		for i := 0; i < 12 && len(m.plans) > 0; i++ {
			next := time.Duration(1 << 62)
			for _, p := range m.plans {
				if d := p.En.Sub(m.t); d > 0 && d < next {
					next = d
				}
			}
			if next == 1<<62 {
				next = 1
			}
			if !r.do(Op{K: "Block", Dt: int64(next)}) {
				return false
			}
		}
	case "export":
		return r.do(Op{K: "Export"})
	case "invariants":
		return r.do(Op{K: "Invariants"})
	}
	return true
}
