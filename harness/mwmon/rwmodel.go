package main

import (
	"math/big"
	"sort"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

const fprec = 256

func bf(x int64) *big.Float { return new(big.Float).SetPrec(fprec).SetInt64(x) }
func bfi(x *big.Int) *big.Float {
	return new(big.Float).SetPrec(fprec).SetInt(x)
}
func bz() *big.Float                    { return new(big.Float).SetPrec(fprec) }
func bmul(a, b *big.Float) *big.Float   { return bz().Mul(a, b) }
func bquo(a, b *big.Float) *big.Float   { return bz().Quo(a, b) }
func bplus(a, b *big.Float) *big.Float  { return bz().Add(a, b) }
func bminus(a, b *big.Float) *big.Float { return bz().Sub(a, b) }
func bflt(f float64) *big.Float         { return bz().SetFloat64(f) }
func decF(d math.LegacyDec) *big.Float {
	return bquo(bfi(d.BigInt()), bfi(math.LegacyOneDec().BigInt()))
}
func ffloor(f *big.Float) *big.Int {
	i, acc := f.Int(nil)
	if f.Sign() < 0 && acc != big.Exact {
		i.Sub(i, big.NewInt(1))
	}
	return i
}

// dd is an amount per (pool denom, reward denom).
type dd map[string]map[string]*big.Float

func (d dd) add(p, r string, v *big.Float) {
	if d[p] == nil {
		d[p] = map[string]*big.Float{}
	}
	if d[p][r] == nil {
		d[p][r] = bz()
	}
	d[p][r] = bplus(d[p][r], v)
}

func (d dd) get(p, r string) *big.Float {
	if d[p] == nil || d[p][r] == nil {
		return bz()
	}
	return d[p][r]
}

// rwModel is the reference accounting of rewards: every allocation is split at once between the delegators
// that are entitled to it.
type rwModel struct {
	m        *Model
	acc      map[DKey]dd
	slack    map[DKey]float64
	out      map[Tgt]dd
	outSlack map[Tgt]float64
	com      map[uint32]dd
	comSlack map[uint32]float64

	allocs    int // allocations that reached at least one target
	skipped   int
	stranded  int
	lastAlloc map[uint64]sdk.Coins
}

func newRwModel(m *Model) *rwModel {
	return &rwModel{m: m, acc: map[DKey]dd{}, slack: map[DKey]float64{}, out: map[Tgt]dd{}, outSlack: map[Tgt]float64{},
		com: map[uint32]dd{}, comSlack: map[uint32]float64{}, lastAlloc: map[uint64]sdk.Coins{}}
}

// value of an amount of denom in 1e-18 units.
func (r *rwModel) value(d string, amt math.Int) *big.Int {
	a, ok := r.m.assets[d]
	if !ok {
		return new(big.Int)
	}
	p, ok := r.m.price[a.Ticker]
	if !ok {
		return new(big.Int)
	}
	v := new(big.Int).Mul(p.BigInt(), amt.BigInt())
	if a.Exp > 400 {
		return new(big.Int)
	}
	return v.Quo(v, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(a.Exp)), nil))
}

type distrInfo struct {
	t     Tgt
	toks  sdk.Coins
	value *big.Int
}

// allocate models one block of allocation at time now.
func (r *rwModel) allocate(now time.Time) {
	m := r.m
	last := m.last
	tt := now
	m.last = &tt
	if last == nil {
		return
	}
	el := now.Sub(*last)
	if el == 0 {
		return
	}
	ms := el.Milliseconds()
	ids := make([]uint64, 0, len(m.plans))
	for id := range m.plans {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		p := m.plans[id]
		if p.St.After(now) || !p.En.After(now) {
			continue
		}
		r.allocatePlan(p, ms)
	}
}

func (r *rwModel) allocatePlan(p *mPlan, ms int64) {
	m := r.m
	rewards := sdk.Coins{}
	for _, c := range p.Amount {
		v := new(big.Int).Mul(c.Amount.BigInt(), big.NewInt(ms))
		v.Quo(v, big.NewInt(86400000))
		if v.Sign() <= 0 {
			continue
		}
		if v.BitLen() > 256 {
			return // can never be funded
		}
		rewards = rewards.Add(coin(c.Denom, math.NewIntFromBigInt(v)))
	}
	if !m.bal(planAddr(p.ID)).IsAllGTE(rewards) {
		r.skipped++
		return
	}
	s := m.svc[p.Svc]
	if s == nil || s.Status != stActive {
		return
	}
	okDenom := func(d string) bool { return inList(m.allowed, d) && inList(m.svcDenoms[s.ID], d) }
	if len(m.allowed) > 0 && len(m.svcDenoms[s.ID]) > 0 {
		any := false
		for _, d := range m.allowed {
			if contains(m.svcDenoms[s.ID], d) {
				any = true
			}
		}
		if !any {
			return
		}
	}
	info := func(t Tgt) (distrInfo, bool) {
		di := distrInfo{t: t, toks: sdk.Coins{}, value: new(big.Int)}
		for _, c := range m.tokens(t) {
			if okDenom(c.Denom) {
				di.toks = di.toks.Add(c)
				di.value.Add(di.value, r.value(c.Denom, c.Amount))
			}
		}
		return di, di.value.Sign() > 0
	}
	var pools, opers, users []distrInfo
	sum := func(l []distrInfo) *big.Int {
		t := new(big.Int)
		for _, d := range l {
			t.Add(t, d.value)
		}
		return t
	}
	for _, id := range ids32(m.pool) {
		if sec := m.secs[s.ID]; len(sec) > 0 && !sec[id] {
			continue
		}
		if m.trustTotal(id, s).Sign() == 0 {
			continue
		}
		if di, ok := info(Tgt{tPool, id}); ok {
			pools = append(pools, di)
		}
	}
	for _, id := range ids32(m.opr) {
		if m.opr[id].Status != osActive || !m.joins[id][s.ID] {
			continue
		}
		if al := m.allow[s.ID]; len(al) > 0 && !al[id] {
			continue
		}
		if di, ok := info(Tgt{tOper, id}); ok {
			opers = append(opers, di)
		}
	}
	if di, ok := info(Tgt{tSvc, s.ID}); ok {
		users = append(users, di)
	}
	vals := [3]*big.Int{sum(pools), sum(opers), sum(users)}
	total := new(big.Int)
	tw := int64(0)
	for i, v := range vals {
		total.Add(total, v)
		if v.Sign() > 0 {
			tw += int64(p.W[i])
		}
	}
	if total.Sign() == 0 {
		return
	}
	m.move(planAddr(p.ID), rewardPool, rewards)
	r.lastAlloc[p.ID] = rewards
	r.allocs++
	cats := [3][]distrInfo{pools, opers, users}
	for i, cat := range cats {
		if len(cat) == 0 {
			continue
		}
		var frac *big.Float
		if tw > 0 {
			frac = bquo(bf(int64(p.W[i])), bf(tw))
		} else {
			frac = bquo(bfi(vals[i]), bfi(total))
		}
		if frac.Sign() == 0 {
			continue
		}
		dt, ws := 0, []DW(nil)
		if i == 0 {
			dt, ws = p.DT[0], p.DWp
		} else if i == 1 {
			dt, ws = p.DT[1], p.DWo
		}
		switch dt {
		case 1:
			tot := int64(0)
			by := map[uint32]int64{}
			for _, w := range ws {
				for _, di := range cat {
					if di.t.ID == w.ID {
						tot += int64(w.W)
						by[w.ID] += int64(w.W)
					}
				}
			}
			if tot == 0 {
				r.stranded++
			}
			for _, di := range cat {
				if by[di.t.ID] > 0 {
					r.toTarget(s, di, rewards, bmul(frac, bquo(bf(by[di.t.ID]), bf(tot))))
				}
			}
		case 2:
			for _, di := range cat {
				r.toTarget(s, di, rewards, bquo(frac, bf(int64(len(cat)))))
			}
		default:
			for _, di := range cat {
				r.toTarget(s, di, rewards, bmul(frac, bquo(bfi(di.value), bfi(vals[i]))))
			}
		}
	}
}

// trustTotal is the amount delegated to a pool by users trusting s.
func (m *Model) trustTotal(pool uint32, s *mService) *big.Int {
	t := new(big.Int)
	for k, c := range m.del {
		if k.T.K == tPool && k.T.ID == pool && trusts(m.prefsOf(k.U), s) {
			for _, x := range c {
				t.Add(t, x.Amount.BigInt())
			}
		}
	}
	return t
}

func (r *rwModel) toTarget(s *mService, di distrInfo, rewards sdk.Coins, frac *big.Float) {
	m := r.m
	for _, tok := range di.toks {
		v := r.value(tok.Denom, tok.Amount)
		if v.Sign() == 0 {
			continue
		}
		share := bmul(frac, bquo(bfi(v), bfi(di.value)))
		if r.out[di.t] == nil {
			r.out[di.t] = dd{}
		}
		for _, rc := range rewards {
			amt := bmul(bfi(rc.Amount.BigInt()), share)
			r.out[di.t].add(tok.Denom, rc.Denom, amt)
			// every truncation of a 1e-18 decimal that happens on the way may be scaled by the value of the target
			ra, _ := bfi(rc.Amount.BigInt()).Float64()
			tsl := ra*1e-17 + 1e-9
			// ... which shows when the target is worth only a few units of 1e-18
			dv, _ := bfi(di.value).Float64()
			tsl += 4 / dv
			r.outSlack[di.t] += tsl
			if di.t.K == tOper {
				rate, ok := m.opRate[di.t.ID]
				if ok && rate.IsPositive() {
					c := bmul(amt, decF(rate))
					if r.com[di.t.ID] == nil {
						r.com[di.t.ID] = dd{}
					}
					r.com[di.t.ID].add(tok.Denom, rc.Denom, c)
					rf, _ := decF(rate).Float64()
					r.comSlack[di.t.ID] += tsl*rf + 1e-9
					amt = bminus(amt, c)
				}
			}
			// split between delegators
			tot := new(big.Int)
			type du struct {
				k DKey
				a *big.Int
			}
			var dus []du
			for k, c := range m.del {
				if k.T != di.t {
					continue
				}
				if di.t.K == tPool && !trusts(m.prefsOf(k.U), s) {
					continue
				}
				a := c.AmountOf(tok.Denom).BigInt()
				if a.Sign() > 0 {
					tot.Add(tot, a)
					dus = append(dus, du{k, a})
				}
			}
			for _, x := range dus {
				if r.acc[x.k] == nil {
					r.acc[x.k] = dd{}
				}
				r.acc[x.k].add(tok.Denom, rc.Denom, bquo(bmul(amt, bfi(x.a)), bfi(tot)))
				af, _ := bfi(x.a).Float64()
				r.slack[x.k] += af*3e-18 + tsl
			}
		}
	}
}

// payout is an expected payment of rewards to a payee.
type payout struct {
	lo, hi map[string]*big.Int // per reward denom
	n      int
}

type payouts map[string]*payout

func (p payouts) addRange(payee, d string, lo, hi *big.Int) {
	x := p[payee]
	if x == nil {
		x = &payout{lo: map[string]*big.Int{}, hi: map[string]*big.Int{}}
		p[payee] = x
	}
	if x.lo[d] == nil {
		x.lo[d], x.hi[d] = new(big.Int), new(big.Int)
	}
	x.lo[d].Add(x.lo[d], lo)
	x.hi[d].Add(x.hi[d], hi)
	x.n++
}

func (m *Model) payee(u string) string {
	if w, ok := m.wd[u]; ok {
		return w
	}
	return u
}

// settle pays a delegation what it accrued.
func (r *rwModel) settle(k DKey, out payouts) {
	a := r.acc[k]
	sl := r.slack[k]
	payee := r.m.payee(k.U)
	for p, rm := range a {
		for rd, v := range rm {
			lo := ffloor(bminus(v, bflt(sl+1e-9)))
			if lo.Sign() < 0 {
				lo = new(big.Int)
			}
			hi := ffloor(bplus(v, bflt(sl+1e-6)))
			out.addRange(payee, rd, lo, hi)
			if r.out[k.T] != nil {
				r.out[k.T].add(p, rd, bz().Neg(v))
			}
		}
	}
	r.outSlack[k.T] += sl
	delete(r.acc, k)
	delete(r.slack, k)
}

// entitled is the range a delegation may currently claim, per reward denom.
func (r *rwModel) entitled(k DKey) payouts {
	out := payouts{}
	sl := r.slack[k]
	for _, rm := range r.acc[k] {
		for rd, v := range rm {
			lo := ffloor(bminus(v, bflt(sl+1e-9)))
			if lo.Sign() < 0 {
				lo = new(big.Int)
			}
			out.addRange("x", rd, lo, ffloor(bplus(v, bflt(sl+1e-6))))
		}
	}
	return out
}

func (r *rwModel) hasCommission(op uint32) bool {
	sl := r.comSlack[op] + 1e-6
	for _, rm := range r.com[op] {
		for _, v := range rm {
			if v.Cmp(bflt(sl)) > 0 {
				return true
			}
		}
	}
	return false
}

// payCommission pays the integral part of the accrued commission.
func (r *rwModel) payCommission(op uint32, payee string, out payouts) {
	sl := r.comSlack[op] + 1e-6
	for p, rm := range r.com[op] {
		for rd, v := range rm {
			lo := ffloor(bminus(v, bflt(sl)))
			hi := ffloor(bplus(v, bflt(sl)))
			if lo.Sign() < 0 {
				lo = new(big.Int)
			}
			out.addRange(payee, rd, lo, hi)
			_ = p
		}
	}
}

// payCommissionOnDelete pays what is left of the commission of a removed operator; the fractional parts of the
// different pools may be added up before they are cut.
func (r *rwModel) payCommissionOnDelete(op uint32, payee string, out payouts) {
	tot := map[string]*big.Float{}
	lo := map[string]*big.Int{}
	sl := r.comSlack[op] + 1e-6
	n := map[string]float64{}
	for _, rm := range r.com[op] {
		for rd, v := range rm {
			if tot[rd] == nil {
				tot[rd], lo[rd] = bz(), new(big.Int)
			}
			tot[rd] = bplus(tot[rd], v)
			n[rd]++
			l := ffloor(bminus(v, bflt(sl)))
			if l.Sign() > 0 {
				lo[rd].Add(lo[rd], l)
			}
		}
	}
	for rd, v := range tot {
		out.addRange(payee, rd, lo[rd], ffloor(bplus(v, bflt(sl*n[rd]))))
	}
	delete(r.com, op)
	delete(r.comSlack, op)
}

// dropTarget forgets a removed target: at most dust may be left, and it goes to the community pool.
func (r *rwModel) dropTarget(t Tgt, out payouts) {
	rds := map[string]bool{}
	for _, rm := range r.out[t] {
		for rd := range rm {
			rds[rd] = true
		}
	}
	hi := ffloor(bflt(r.outSlack[t] + 2))
	for rd := range rds {
		out.addRange(distrAddr, rd, new(big.Int), hi)
	}
	delete(r.out, t)
	delete(r.outSlack, t)
	for k := range r.acc {
		if k.T == t {
			delete(r.acc, k)
			delete(r.slack, k)
		}
	}
}

// reconcileCommission takes over the remainder the application kept after a withdrawal of commission.
func (r *rwModel) reconcileCommission(op uint32, paid map[string]*big.Int, real dd, p *pend) {
	tot := map[string]*big.Float{}
	n := map[string]float64{}
	sl := r.comSlack[op]
	for pd, rm := range r.com[op] {
		for rd, v := range rm {
			rem := real.get(pd, rd)
			if rem.Sign() < 0 || rem.Cmp(bf(1)) >= 0 {
				p.d("W03 W01", "commission of operator %d kept %s %s (%s) after a withdrawal", op, rem.Text('f', 6), rd, pd)
			}
			if tot[rd] == nil {
				tot[rd] = bz()
			}
			df := bminus(v, rem)
			tot[rd] = bplus(tot[rd], df)
			n[rd]++
			rm[rd] = rem
			t := Tgt{tOper, op}
			if r.out[t] != nil {
				r.out[t].add(pd, rd, bz().Neg(df))
			}
		}
	}
	for rd, v := range tot {
		pd := paid[rd]
		if pd == nil {
			pd = new(big.Int)
		}
		df := bminus(v, bfi(pd))
		if df.Abs(df).Cmp(bflt(1e-3+sl*n[rd])) > 0 {
			p.d("W03 W01", "commission of operator %d dropped by %s %s but %s was paid", op, v.Text('f', 6), rd, pd)
		}
	}
	// what is left now is what the application has; the outstanding rewards keep the doubt
	r.outSlack[Tgt{tOper, op}] += sl
	r.comSlack[op] = 0
}
