package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/utils"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// mathEngine drives the exported share and pool arithmetic with arbitrary values and compares it with rational arithmetic.
func mathEngine(quick, thorough int) engine {
	return engine{name: "arith", quick: quick, thorough: thorough, run: runMath,
		rule: "a case is (a) a target with random tokens and shares per denomination (one-to-one, slashed, appreciated, extreme rates) and a history of additions and removals by several delegators, every result compared with exact rational arithmetic, and (b) random algebra on reward pools and coin helpers compared with per-denomination maps; every case is non-trivial, distinct by its operations and values"}
}

type mathRun struct {
	*gen
	st    *stats
	trace strings.Builder
	bad   string
}

func (m *mathRun) fail(f string, a ...any) bool {
	if m.bad == "" {
		m.bad = fmt.Sprintf(f, a...)
	}
	return false
}

func runMath(_ *World, st *stats, prop string, seed int64, i int) (v *Violation) {
	m := &mathRun{gen: &gen{r: newRand(seed)}, st: st}
	func() {
		defer func() {
			if e := recover(); e != nil {
				m.fail("panic: %v (%s); after: %s", e, stackTop(), cut(m.trace.String(), 600))
			}
		}()
		for k := 0; k < 12 && m.bad == ""; k++ {
			switch m.n(3) {
			case 0, 1:
				m.shares()
			default:
				if m.p(60) {
					m.pools()
				} else {
					m.helpers()
				}
			}
		}
	}()
	st.Shapes[hashStr(m.trace.String())] = true
	st.Relevant++
	if len(st.Samples) < 2 {
		st.Samples = append(st.Samples, cut(m.trace.String(), 400))
	}
	if m.bad != "" {
		return &Violation{Prop: prop, What: m.bad, Case: Case{Prop: prop, Mode: "arith", Seed: seed, I: int64(i), What: m.bad}}
	}
	return nil
}

// anyInt is a positive integer of up to the given number of bits, often near a round or extreme value.
func (m *mathRun) anyInt(bits int) math.Int {
	switch m.n(6) {
	case 0:
		return math.NewInt(int64(1 + m.n(10)))
	case 1:
		return math.NewInt(int64(1 + m.n(1_000_000)))
	case 2:
		b := uint(1 + m.n(bits-1))
		x := new(big.Int).Lsh(big.NewInt(1), b)
		return math.NewIntFromBigInt(x.Add(x, big.NewInt(int64(m.n(3)-1)))).Add(math.OneInt())
	default:
		b := 1 + m.n(bits)
		x := new(big.Int).Rand(m.r, new(big.Int).Lsh(big.NewInt(1), uint(b)))
		return math.NewIntFromBigInt(x).Add(math.OneInt())
	}
}

func (m *mathRun) anyDec(bits int) math.LegacyDec {
	d := math.LegacyNewDecFromInt(m.anyInt(bits))
	if m.p(60) {
		f := math.LegacyNewDecFromIntWithPrec(math.NewInt(m.r.Int63n(1_000_000_000_000_000_000)), 18)
		d = d.Add(f)
	}
	if m.p(10) {
		d = math.LegacySmallestDec().MulInt64(int64(1 + m.n(1000)))
	}
	return d
}

var mathDenoms = []string{"uatom", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "locked/uatom", "factory/osmo1abc/x/y", "zzz"}

// mtarget is one of the three kinds of delegation targets.
type mtarget struct {
	kind int
	p    poolstypes.Pool
	o    operatorstypes.Operator
	s    servicestypes.Service
}

func (t mtarget) get() restakingtypes.DelegationTarget {
	switch t.kind {
	case tPool:
		return t.p
	case tOper:
		return t.o
	}
	return t.s
}

func (t mtarget) add(c sdk.Coins) (mtarget, sdk.DecCoins, error) {
	switch t.kind {
	case tPool:
		p, s, err := t.p.AddTokensFromDelegation(c[0])
		t.p = p
		return t, sdk.DecCoins{s}, err
	case tOper:
		o, s := t.o.AddTokensFromDelegation(c)
		t.o = o
		return t, s, nil
	}
	sv, s := t.s.AddTokensFromDelegation(c)
	t.s = sv
	return t, s, nil
}

func (t mtarget) remove(s sdk.DecCoins) (mtarget, sdk.Coins, error) {
	switch t.kind {
	case tPool:
		p, c, err := t.p.RemoveDelShares(s)
		t.p = p
		return t, c, err
	case tOper:
		o, c := t.o.RemoveDelShares(s)
		t.o = o
		return t, c, nil
	}
	sv, c := t.s.RemoveDelShares(s)
	t.s = sv
	return t, c, nil
}

var smallest = big.NewRat(1, 1_000_000_000_000_000_000)

func intRat(i math.Int) *big.Rat { return new(big.Rat).SetInt(i.BigInt()) }

// shares runs a history on one target.
func (m *mathRun) shares() bool {
	t := mtarget{kind: 1 + m.n(3)}
	id := uint32(1 + m.n(300))
	ds := append([]string(nil), mathDenoms[:1+m.n(len(mathDenoms))]...)
	if t.kind == tPool {
		ds = []string{mathDenoms[m.n(len(mathDenoms))]}
	}
	t.p = poolstypes.NewPool(id, ds[0])
	t.o = operatorstypes.NewOperator(id, operatorstypes.OPERATOR_STATUS_ACTIVE, "m", "", "", actors["u0"].Str)
	t.s = servicestypes.NewService(id, servicestypes.SERVICE_STATUS_ACTIVE, "s", "", "", "", actors["u0"].Str, false)
	// delegators' shares by denom
	hold := []map[string]math.LegacyDec{{}, {}, {}}
	sd := func(d string) string { return t.get().GetSharesDenom(d) }
	for _, d := range mathDenoms {
		if got := utils.GetTokenDenomFromSharesDenom(sd(d)); got != d {
			return m.fail("shares denom of %s maps back to %s", d, got)
		}
	}
	if !m.p(25) {
		// an arbitrary starting exchange rate: delegate, then set the tokens as a slash or a reward would
		var toks sdk.Coins
		var shs sdk.DecCoins
		for _, d := range ds {
			tot := math.LegacyZeroDec()
			for j := range hold {
				if m.p(70) {
					s := m.anyDec(80)
					hold[j][d] = s
					tot = tot.Add(s)
				}
			}
			if tot.IsZero() {
				continue
			}
			tk := m.anyInt(90)
			switch m.n(4) {
			case 0: // close to one-to-one
				tk = tot.TruncateInt().AddRaw(int64(m.n(3)))
				if !tk.IsPositive() {
					tk = math.OneInt()
				}
			case 1: // slashed
				tk = tot.MulInt64(int64(1 + m.n(999))).QuoInt64(1000).TruncateInt()
				if !tk.IsPositive() {
					tk = math.OneInt()
				}
			}
			// a token is worth at least one smallest share, else it can not be delegated
			if lim := tot.MulInt64(1_000_000_000_000_000).TruncateInt(); tk.GT(lim) {
				tk = math.MaxInt(math.OneInt(), lim)
			}
			// and not so many shares that they leave the range of the chain's numbers
			if lim := tot.QuoInt64(1_000_000_000_000).TruncateInt(); tk.LT(lim) {
				tk = lim
			}
			toks = toks.Add(sdk.NewCoin(d, tk))
			shs = shs.Add(sdk.NewDecCoinFromDec(sd(d), tot))
		}
		t.o.Tokens, t.o.DelegatorShares = toks, shs
		t.s.Tokens, t.s.DelegatorShares = toks, shs
		t.p.Tokens, t.p.DelegatorShares = toks.AmountOf(ds[0]), shs.AmountOf(sd(ds[0]))
	}
	value := func(tt mtarget, j int, d string) *big.Rat {
		x, ok := hold[j][d]
		s := tt.get().GetDelegatorShares().AmountOf(sd(d))
		if !ok || s.IsZero() {
			return new(big.Rat)
		}
		r := new(big.Rat).Mul(ratOf(x), intRat(tt.get().GetTokens().AmountOf(d)))
		return r.Quo(r, ratOf(s))
	}
	fmt.Fprintf(&m.trace, "T%d:%s/%s ", t.kind, t.get().GetTokens(), t.get().GetDelegatorShares())
	if t.get().InvalidExRate() {
		return m.fail("%s tokens with %s shares called an invalid exchange rate", t.get().GetTokens(), t.get().GetDelegatorShares())
	}
	// a target whose tokens of one denom are gone has an invalid rate
	if z := t; len(z.get().GetTokens()) > 0 {
		d := z.get().GetTokens()[0].Denom
		if z.get().GetDelegatorShares().AmountOf(sd(d)).IsPositive() {
			z.o.Tokens = z.o.Tokens.Sub(sdk.NewCoin(d, z.o.Tokens.AmountOf(d)))
			z.s.Tokens = z.s.Tokens.Sub(sdk.NewCoin(d, z.s.Tokens.AmountOf(d)))
			z.p.Tokens = math.ZeroInt()
			if !z.get().InvalidExRate() {
				return m.fail("shares without tokens of %s are a valid exchange rate", d)
			}
		}
	}
	for step := 0; step < 1+m.n(7); step++ {
		m.st.Steps++
		j := m.n(len(hold))
		before := t
		tg := t.get()
		if t.get().InvalidExRate() {
			break // rounding may take the last tokens; the chain accepts no more delegations then
		}
		if m.p(50) || len(hold[j]) == 0 {
			// add
			var c sdk.Coins
			for _, d := range ds {
				if t.kind == tPool || m.p(60) {
					c = c.Add(sdk.NewCoin(d, m.anyInt(90)))
				}
			}
			if len(c) == 0 {
				continue
			}
			t2, sh, err := t.add(c)
			if err != nil {
				return m.fail("adding %s to %s/%s: %v", c, tg.GetTokens(), tg.GetDelegatorShares(), err)
			}
			fmt.Fprintf(&m.trace, "+%s ", c)
			m.st.ev("add")
			// the views of the same conversion
			if !tg.GetDelegatorShares().IsZero() && !(t.kind == tPool && t.p.Tokens.IsZero()) {
				full, err := tg.SharesFromTokens(c)
				if err != nil {
					return m.fail("shares from tokens: %v", err)
				}
				trunc, err := tg.SharesFromTokensTruncated(c)
				if err != nil {
					return m.fail("shares from tokens truncated: %v", err)
				}
				dc, err := tg.SharesFromDecCoins(sdk.NewDecCoinsFromCoins(c...))
				if err != nil {
					return m.fail("shares from dec coins: %v", err)
				}
				for _, x := range c {
					n := sd(x.Denom)
					T, S := tg.GetTokens().AmountOf(x.Denom), tg.GetDelegatorShares().AmountOf(n)
					want := intRat(x.Amount)
					if !T.IsZero() {
						want.Mul(want, ratOf(S))
						want.Quo(want, intRat(T))
					}
					for what, got := range map[string]math.LegacyDec{"": full.AmountOf(n), " truncated": trunc.AmountOf(n), " of dec coins": dc.AmountOf(n)} {
						df := new(big.Rat).Sub(want, ratOf(got))
						lim := new(big.Rat).Set(smallest)
						if what != " truncated" {
							lim.Add(lim, smallest)
						}
						if new(big.Rat).Abs(df).Cmp(lim) >= 0 || (what == " truncated" && df.Sign() < 0) {
							return m.fail("shares from tokens%s of %s at %s/%s: %s, exactly %s", what, x, T, S, got, want.FloatString(22))
						}
					}
				}
				// and back: never more than what was put in
				var known sdk.DecCoins
				for _, x := range trunc {
					if tg.GetDelegatorShares().AmountOf(x.Denom).IsPositive() {
						known = known.Add(x)
					}
				}
				back := tg.TokensFromSharesTruncated(known)
				for _, x := range c {
					T := tg.GetTokens().AmountOf(x.Denom)
					if T.IsZero() {
						continue
					}
					if back.AmountOf(x.Denom).GT(math.LegacyNewDecFromInt(x.Amount)) {
						return m.fail("%s become %s shares and then %s tokens at %s/%s", x, trunc, back, T, tg.GetDelegatorShares())
					}
				}
			}
			for _, d := range ds {
				n := sd(d)
				T, S := tg.GetTokens().AmountOf(d), tg.GetDelegatorShares().AmountOf(n)
				a := c.AmountOf(d)
				got := sh.AmountOf(n)
				want := intRat(a)
				if S.IsPositive() {
					want.Mul(want, ratOf(S))
					want.Quo(want, intRat(T))
				}
				df := new(big.Rat).Sub(want, ratOf(got))
				if df.Sign() < 0 || df.Cmp(smallest) >= 0 {
					return m.fail("delegating %s to %s tokens and %s shares issued %s shares, exactly %s", sdk.NewCoin(d, a), T, S, got, want.FloatString(22))
				}
				if x := t2.get().GetTokens().AmountOf(d); !x.Equal(T.Add(a)) {
					return m.fail("delegating %s to %s tokens gave %s", sdk.NewCoin(d, a), T, x)
				}
				if x := t2.get().GetDelegatorShares().AmountOf(n); !x.Equal(S.Add(got)) {
					return m.fail("issuing %s to %s shares gave %s", got, S, x)
				}
			}
			for k := range hold {
				for _, d := range ds {
					if value(t2, k, d).Cmp(value(before, k, d)) < 0 {
						return m.fail("the stake of another delegator fell from %s to %s when %s was delegated", value(before, k, d).FloatString(22), value(t2, k, d).FloatString(22), c)
					}
				}
			}
			t = t2
			for _, x := range c {
				s := sh.AmountOf(sd(x.Denom))
				if old, ok := hold[j][x.Denom]; ok {
					s = s.Add(old)
				}
				if s.IsPositive() {
					hold[j][x.Denom] = s
				}
			}
			continue
		}
		// remove some or all of the delegator's shares
		var sh sdk.DecCoins
		for _, d := range ds {
			h, ok := hold[j][d]
			if !ok || !m.p(70) {
				continue
			}
			x := h
			if m.p(50) {
				x = h.MulInt64(int64(1 + m.n(999))).QuoInt64(1000)
			}
			if x.IsPositive() {
				sh = sh.Add(sdk.NewDecCoinFromDec(sd(d), x))
			}
		}
		if len(sh) == 0 {
			continue
		}
		t2, out, err := t.remove(sh)
		if err != nil {
			return m.fail("removing %s: %v", sh, err)
		}
		fmt.Fprintf(&m.trace, "-%s ", sh)
		m.st.ev("remove")
		plain, trunc := tg.TokensFromShares(sh), tg.TokensFromSharesTruncated(sh)
		for _, d := range ds {
			n := sd(d)
			T, S := tg.GetTokens().AmountOf(d), tg.GetDelegatorShares().AmountOf(n)
			x := sh.AmountOf(n)
			exact := new(big.Rat)
			if S.IsPositive() {
				exact.Mul(ratOf(x), intRat(T))
				exact.Quo(exact, ratOf(S))
			}
			if df := new(big.Rat).Sub(exact, ratOf(plain.AmountOf(d))); new(big.Rat).Abs(df).Cmp(smallest) > 0 {
				return m.fail("tokens of %s of %s shares (%s tokens): %s, exactly %s", x, S, T, plain.AmountOf(d), exact.FloatString(22))
			}
			if df := new(big.Rat).Sub(exact, ratOf(trunc.AmountOf(d))); df.Sign() < 0 || df.Cmp(smallest) > 0 {
				return m.fail("truncated tokens of %s of %s shares (%s tokens): %s, exactly %s", x, S, T, trunc.AmountOf(d), exact.FloatString(22))
			}
			got := out.AmountOf(d)
			df := new(big.Rat).Sub(exact, intRat(got))
			// the chain rounds to 18 decimals before it truncates
			if new(big.Rat).Add(df, smallest).Sign() < 0 || df.Cmp(big.NewRat(1, 1)) >= 0 {
				return m.fail("removing %s of %s shares with %s tokens paid %s, exactly %s", x, S, T, got, exact.FloatString(22))
			}
			if x.Equal(S) && !got.Equal(T) {
				return m.fail("removing the last shares of %s paid %s of %s", d, got, T)
			}
			if y := t2.get().GetTokens().AmountOf(d); !y.Equal(T.Sub(got)) {
				return m.fail("removing %s from %s tokens left %s", got, T, y)
			}
			if y := t2.get().GetDelegatorShares().AmountOf(n); !y.Equal(S.Sub(x)) {
				return m.fail("removing %s from %s shares left %s", x, S, y)
			}
		}
		for k := range hold {
			if k == j {
				continue
			}
			for _, d := range ds {
				if new(big.Rat).Add(value(t2, k, d), smallest).Cmp(value(before, k, d)) < 0 {
					return m.fail("the stake of another delegator fell from %s to %s when %s was removed", value(before, k, d).FloatString(22), value(t2, k, d).FloatString(22), sh)
				}
			}
		}
		t = t2
		for _, d := range ds {
			if h, ok := hold[j][d]; ok {
				h = h.Sub(sh.AmountOf(sd(d)))
				if h.IsZero() {
					delete(hold[j], d)
				} else {
					hold[j][d] = h
				}
			}
		}
	}
	// delegate and undelegate everything right away
	if !t.get().InvalidExRate() {
		var c sdk.Coins
		for _, d := range ds {
			c = c.Add(sdk.NewCoin(d, m.anyInt(90)))
		}
		t2, sh, err := t.add(c)
		if err != nil {
			return m.fail("adding %s: %v", c, err)
		}
		var nz sdk.DecCoins
		for _, x := range sh {
			if x.IsPositive() {
				nz = append(nz, x)
			}
		}
		if len(nz) > 0 {
			_, out, err := t2.remove(nz)
			if err != nil {
				return m.fail("removing %s: %v", nz, err)
			}
			for _, x := range c {
				T, S := t.get().GetTokens().AmountOf(x.Denom), t.get().GetDelegatorShares().AmountOf(sd(x.Denom))
				if out.AmountOf(x.Denom).GT(x.Amount) {
					return m.fail("delegating %s and undelegating it at %s/%s paid %s", x, T, S, out)
				}
				// one share unit must be worth less than a token for the loss to be bounded
				fine := !S.IsPositive() || new(big.Rat).Quo(intRat(T), ratOf(S)).Cmp(new(big.Rat).SetFrac64(100_000_000_000_000_000, 1)) < 0
				if fine && x.Amount.Sub(out.AmountOf(x.Denom)).GT(math.OneInt()) {
					return m.fail("delegating %s and undelegating it at %s/%s paid only %s", x, T, S, out)
				}
			}
			m.st.ev("round-trip")
		}
	}
	return true
}

// pmap is the meaning of a set of pools: amount by pool denom and coin denom.
type pmap map[string]map[string]*big.Rat

func (p pmap) add(a, b string, x *big.Rat) {
	if p[a] == nil {
		p[a] = map[string]*big.Rat{}
	}
	if p[a][b] == nil {
		p[a][b] = new(big.Rat)
	}
	p[a][b].Add(p[a][b], x)
}

func (p pmap) String() string {
	var out []string
	for a, m := range p {
		for b, x := range m {
			if x.Sign() != 0 {
				out = append(out, a+"|"+b+"="+x.FloatString(18))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func ofDec(p rewardstypes.DecPools) pmap {
	out := pmap{}
	for _, x := range p {
		for _, c := range x.DecCoins {
			out.add(x.Denom, c.Denom, ratOf(c.Amount))
		}
	}
	return out
}

func ofInt(p rewardstypes.Pools) pmap {
	out := pmap{}
	for _, x := range p {
		for _, c := range x.Coins {
			out.add(x.Denom, c.Denom, intRat(c.Amount))
		}
	}
	return out
}

func (p pmap) plus(q pmap, sign int64) pmap {
	out := pmap{}
	for a, m := range p {
		for b, x := range m {
			out.add(a, b, x)
		}
	}
	for a, m := range q {
		for b, x := range m {
			out.add(a, b, new(big.Rat).Mul(x, big.NewRat(sign, 1)))
		}
	}
	return out
}

func (p pmap) neg() bool {
	for _, m := range p {
		for _, x := range m {
			if x.Sign() < 0 {
				return true
			}
		}
	}
	return false
}

func wellFormedDec(p rewardstypes.DecPools) bool {
	for i, x := range p {
		if x.IsEmpty() || (i > 0 && p[i-1].Denom >= x.Denom) {
			return false
		}
		for j, c := range x.DecCoins {
			if c.Amount.IsZero() || (j > 0 && x.DecCoins[j-1].Denom >= c.Denom) {
				return false
			}
		}
	}
	return true
}

func wellFormedInt(p rewardstypes.Pools) bool {
	for i, x := range p {
		if x.IsEmpty() || (i > 0 && p[i-1].Denom >= x.Denom) {
			return false
		}
		for j, c := range x.Coins {
			if c.Amount.IsZero() || (j > 0 && x.Coins[j-1].Denom >= c.Denom) {
				return false
			}
		}
	}
	return true
}

func (m *mathRun) decPools(sub rewardstypes.DecPools) rewardstypes.DecPools {
	var out rewardstypes.DecPools
	below := sub != nil && m.p(45) // everything within sub
	for _, d := range sortedCopy(mathDenoms) {
		if !m.p(65) {
			continue
		}
		var cs sdk.DecCoins
		for _, e := range sortedCopy(mathDenoms) {
			if m.p(50) {
				x := m.anyDec(60)
				if below && len(sub.CoinsOf(d)) == 0 {
					continue
				}
				if y := sub.CoinsOf(d).AmountOf(e); below && y.IsZero() {
					continue
				} else if y.IsPositive() && (below || m.p(60)) {
					x = y
					if m.p(50) {
						x = y.MulInt64(int64(m.n(999))).QuoInt64(1000)
					}
				}
				if x.IsPositive() {
					cs = cs.Add(sdk.NewDecCoinFromDec(e, x))
				}
			}
		}
		if len(cs) > 0 {
			out = append(out, rewardstypes.NewDecPool(d, cs))
		}
	}
	return out
}

func sortedCopy(l []string) []string {
	o := append([]string(nil), l...)
	sort.Strings(o)
	return o
}

// pools does random algebra on reward pools.
func (m *mathRun) pools() bool {
	m.st.Steps++
	m.st.ev("pools")
	a := m.decPools(nil)
	b := m.decPools(a)
	fmt.Fprintf(&m.trace, "P %s ; %s ", a, b)
	pa, pb := ofDec(a), ofDec(b)
	sa, sb := a.String(), b.String()
	same := func(what string, got rewardstypes.DecPools, want pmap) bool {
		if ofDec(got).String() != want.String() {
			return m.fail("%s of %q and %q is %q, exactly %q", what, sa, sb, got, want)
		}
		if !wellFormedDec(got) && what != "difference" {
			return m.fail("%s of %q and %q is not in normal form: %q", what, sa, sb, got)
		}
		return true
	}
	if !same("sum", a.Add(b...), pa.plus(pb, 1)) || !same("sum", b.Add(a...), pa.plus(pb, 1)) {
		return false
	}
	diff, neg := a.SafeSub(b)
	want := pa.plus(pb, -1)
	if !same("difference", diff, want) {
		return false
	}
	if neg != want.neg() || diff.IsAnyNegative() != want.neg() {
		return m.fail("difference of %q and %q reported negative=%v", sa, sb, neg)
	}
	if !neg {
		if !same("difference", a.Sub(b), want) {
			return false
		}
		m.st.ev("subtractions")
	} else {
		func() {
			defer func() { _ = recover() }()
			a.Sub(b)
			m.fail("subtracting %q from %q did not fail", sb, sa)
		}()
	}
	inter := pmap{}
	for d, mm := range pa {
		for e, x := range mm {
			if y := pb[d][e]; y != nil {
				z := x
				if y.Cmp(x) < 0 {
					z = y
				}
				inter.add(d, e, z)
			}
		}
	}
	if !same("intersection", a.Intersect(b), inter) {
		return false
	}
	sum := map[string]*big.Rat{}
	for _, mm := range pa {
		for e, x := range mm {
			if sum[e] == nil {
				sum[e] = new(big.Rat)
			}
			sum[e].Add(sum[e], x)
		}
	}
	for _, got := range []sdk.DecCoins{a.Sum(), a.CoinsAmount()} {
		if len(got) != len(sum) {
			return m.fail("total of %q is %q", sa, got)
		}
		for e, x := range sum {
			if ratOf(got.AmountOf(e)).Cmp(x) != 0 {
				return m.fail("total of %q is %q", sa, got)
			}
		}
	}
	for _, d := range append([]string{"none"}, mathDenoms...) {
		got := a.CoinsOf(d)
		if len(got) != len(pa[d]) {
			return m.fail("coins of %s in %q: %q", d, sa, got)
		}
		for _, c := range got {
			if x := pa[d][c.Denom]; x == nil || ratOf(c.Amount).Cmp(x) != 0 {
				return m.fail("coins of %s in %q: %q", d, sa, got)
			}
		}
	}
	if a.IsEmpty() != (len(pa) == 0) {
		return m.fail("%q is empty: %v", sa, a.IsEmpty())
	}
	if a.IsEqual(b) != (pa.String() == pb.String()) || !a.IsEqual(append(rewardstypes.DecPools(nil), a...)) {
		return m.fail("%q equal to %q: %v", sa, sb, a.IsEqual(b))
	}
	ints, ch := a.TruncateDecimal()
	if got := ofInt(ints).plus(ofDec(ch), 1); got.String() != pa.String() || !wellFormedInt(ints) || !wellFormedDec(ch) {
		return m.fail("truncating %q gives %q and %q", sa, ints, ch)
	}
	for _, mm := range ofDec(ch) {
		for _, x := range mm {
			if x.Cmp(big.NewRat(1, 1)) >= 0 || x.Sign() < 0 {
				return m.fail("truncating %q left %q", sa, ch)
			}
		}
	}
	back := rewardstypes.NewDecPoolsFromPools(ints)
	if ofDec(back).String() != ofInt(ints).String() {
		return m.fail("pools %q as decimal pools: %q", ints, back)
	}
	// integer pools
	bi, _ := b.TruncateDecimal()
	qa, qb := ofInt(ints), ofInt(bi)
	isum := ints.Add(bi...)
	if ofInt(isum).String() != qa.plus(qb, 1).String() || !wellFormedInt(isum) {
		return m.fail("sum of %q and %q is %q", ints, bi, isum)
	}
	idiff, ineg := ints.SafeSub(bi)
	iw := qa.plus(qb, -1)
	if ofInt(idiff).String() != iw.String() || ineg != iw.neg() {
		return m.fail("difference of %q and %q is %q (negative %v)", ints, bi, idiff, ineg)
	}
	if ints.IsEqual(bi) != (qa.String() == qb.String()) {
		return m.fail("%q equal to %q: %v", ints, bi, ints.IsEqual(bi))
	}
	for _, d := range mathDenoms {
		got := ints.CoinsOf(d)
		for _, c := range got {
			if x := qa[d][c.Denom]; x == nil || intRat(c.Amount).Cmp(x) != 0 {
				return m.fail("coins of %s in %q: %q", d, ints, got)
			}
		}
	}
	if tot := ints.Sum(); !tot.IsZero() || len(qa) > 0 {
		w := map[string]*big.Rat{}
		for _, mm := range qa {
			for e, x := range mm {
				if w[e] == nil {
					w[e] = new(big.Rat)
				}
				w[e].Add(w[e], x)
			}
		}
		for e, x := range w {
			if intRat(tot.AmountOf(e)).Cmp(x) != 0 {
				return m.fail("total of %q is %q", ints, tot)
			}
		}
	}
	if a.String() != sa || b.String() != sb {
		return m.fail("an operand changed: %q to %q or %q to %q", sa, a, sb, b)
	}
	return true
}

// helpers checks the coin and slice helpers.
func (m *mathRun) helpers() bool {
	m.st.Steps++
	m.st.ev("helpers")
	mk := func() sdk.DecCoins {
		var c sdk.DecCoins
		for _, d := range mathDenoms {
			if m.p(50) {
				c = c.Add(sdk.NewDecCoinFromDec(d, math.LegacyNewDecWithPrec(int64(1+m.n(4)), 1)))
			}
		}
		return c
	}
	a, b := mk(), mk()
	fmt.Fprintf(&m.trace, "H %s ; %s ", a, b)
	am, bm := func(d string) math.LegacyDec { return a.AmountOf(d) }, func(d string) math.LegacyDec { return b.AmountOf(d) }
	allGTE, allGT, anyGT, subset := true, len(a) > 0, false, true
	for _, d := range mathDenoms {
		if bm(d).IsPositive() {
			allGTE = allGTE && am(d).GTE(bm(d))
			allGT = allGT && am(d).GT(bm(d))
			anyGT = anyGT || am(d).GT(bm(d))
		}
		if am(d).IsPositive() && bm(d).IsZero() {
			subset = false
		}
	}
	for _, x := range []struct {
		n    string
		g, w bool
	}{{"IsAllGTE", utils.IsAllGTE(a, b), allGTE}, {"IsAllGT", utils.IsAllGT(a, b), allGT}, {"IsAnyGT", utils.IsAnyGT(a, b), anyGT},
		{"IsAnyLT", utils.IsAnyLT(a, b), !allGTE}, {"DenomsSubsetOf", utils.DenomsSubsetOf(a, b), subset}} {
		if x.g != x.w {
			return m.fail("%s(%q, %q) = %v", x.n, a, b, x.g)
		}
	}
	f := utils.FilterDecCoinsByDenom(a, b)
	n := 0
	for _, d := range mathDenoms {
		w := math.LegacyZeroDec()
		if bm(d).IsPositive() && am(d).IsPositive() {
			w = am(d)
			n++
		}
		if !f.AmountOf(d).Equal(w) {
			return m.fail("FilterDecCoinsByDenom(%q, %q) = %q", a, b, f)
		}
	}
	if len(f) != n {
		return m.fail("FilterDecCoinsByDenom(%q, %q) = %q", a, b, f)
	}
	ia, _ := a.MulDec(math.LegacyNewDec(10)).TruncateDecimal()
	ib, _ := b.MulDec(math.LegacyNewDec(10)).TruncateDecimal()
	g := utils.FilterCoinsByDenom(ia, ib)
	for _, d := range mathDenoms {
		w := math.ZeroInt()
		if ib.AmountOf(d).IsPositive() {
			w = ia.AmountOf(d)
		}
		if !g.AmountOf(d).Equal(w) {
			return m.fail("FilterCoinsByDenom(%q, %q) = %q", ia, ib, g)
		}
	}
	var l, k []int
	for i := m.n(7); i > 0; i-- {
		l = append(l, m.n(6))
	}
	for i := m.n(7); i > 0; i-- {
		k = append(k, m.n(6))
	}
	fmt.Fprintf(&m.trace, "%v %v ", l, k)
	cnt := map[int]int{}
	for _, x := range l {
		cnt[x]++
	}
	dup := false
	for _, c := range cnt {
		dup = dup || c > 1
	}
	if x := utils.FindDuplicate(l); (x != nil) != dup || (x != nil && cnt[*x] < 2) {
		return m.fail("FindDuplicate(%v)", l)
	}
	rd := utils.RemoveDuplicates(l)
	if len(rd) != len(cnt) {
		return m.fail("RemoveDuplicates(%v) = %v", l, rd)
	}
	pos := 0
	for _, x := range l { // keeps the first occurrences in order
		if pos < len(rd) && rd[pos] == x {
			pos++
		}
	}
	if pos != len(rd) {
		return m.fail("RemoveDuplicates(%v) = %v", l, rd)
	}
	var want []int
	for _, x := range l {
		for _, y := range k {
			if x == y {
				want = append(want, x)
				break
			}
		}
	}
	if got := utils.Intersect(l, k); fmt.Sprint(got) != fmt.Sprint(want) {
		return m.fail("Intersect(%v, %v) = %v", l, k, got)
	}
	v := m.n(6)
	if !dup {
		old := fmt.Sprint(l)
		c := append([]int(nil), l...)
		got, ok := utils.Remove(c, v)
		want = nil
		for _, x := range l {
			if x != v {
				want = append(want, x)
			}
		}
		if ok != (cnt[v] == 1) || fmt.Sprint(append([]int{}, got...)) != fmt.Sprint(append([]int{}, want...)) {
			return m.fail("Remove(%s, %d) = %v, %v", old, v, got, ok)
		}
	}
	fl := utils.Filter(l, func(x int) bool { return x > v })
	mp := utils.Map(l, func(x int) string { return fmt.Sprint(x + 1) })
	want = nil
	for i, x := range l {
		if x > v {
			want = append(want, x)
		}
		if mp[i] != fmt.Sprint(x+1) {
			return m.fail("Map(%v) = %v", l, mp)
		}
	}
	if fmt.Sprint(fl) != fmt.Sprint(want) || len(mp) != len(l) {
		return m.fail("Filter(%v) = %v", l, fl)
	}
	if x, ok := utils.Find(l, func(x int) bool { return x == v }); ok != (cnt[v] > 0) || (ok && *x != v) {
		return m.fail("Find(%v, %d)", l, v)
	}
	return true
}
