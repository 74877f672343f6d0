package main

import (
	"fmt"
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
)

// valueEngine registers assets and prices with extreme parameters in the running application and compares valuations
// with rational arithmetic.
func valueEngine(quick, thorough int) engine {
	return engine{name: "valuation", quick: quick, thorough: thorough, run: runValue,
		rule: "a case registers a few assets (any exponent, shared tickers, missing prices) through governance messages, sets oracle prices of 1 to 36 decimals, and values random coins with the application, comparing with exact rational arithmetic (both roundings to 18 decimals allowed); non-trivial when a value was not zero, distinct by the values"}
}

func runValue(w *World, st *stats, prop string, seed int64, i int) (v *Violation) {
	g := &gen{r: newRand(seed)}
	m := &mathRun{gen: g, st: st}
	w.Fork()
	trace := ""
	fail := func(f string, a ...any) *Violation {
		what := fmt.Sprintf(f, a...)
		return &Violation{Prop: prop, What: what, Case: Case{Prop: prop, Mode: "valuation", Seed: seed, I: int64(i), What: what}}
	}
	defer func() {
		if e := recover(); e != nil {
			v = fail("valuation panicked: %v (%s) after %s", e, stackTop(), trace)
		}
	}()
	type pr struct {
		q   math.Int
		dec uint64
	}
	tickers := []string{"ATOM", "USD", "TIA", "X", "NOPR"}
	prices := map[string]pr{}
	for _, t := range tickers[:4] {
		if g.p(25) {
			if t != "USD" {
				must(setMarket(w, t, uint64(1+i%36))) // a market that has no price yet
			}
			continue
		}
		p := pr{q: m.anyInt(90), dec: uint64(1 + g.n(36))}
		if g.p(10) {
			p.q = math.ZeroInt()
		}
		if err := setPrice(w, t, p.q, p.dec); err != nil {
			continue
		}
		prices[t] = p
	}
	assets := map[string]assetstypes.Asset{}
	for k := 0; k < 4+g.n(4); k++ {
		d := pick(g, mathDenoms...)
		exp := pick(g, uint32(g.n(19)), 6, 18, uint32(g.n(40)), 76, 77, 78, 79, uint32(g.n(400)), 1<<31-1, 1<<31, 1<<32-1)
		a := assetstypes.NewAsset(d, pick(g, tickers...), exp)
		r := w.Exec(assetstypes.NewMsgRegisterAsset(govAddr, a))
		if r.err != nil {
			return fail("registering %v: %v", a, r.err)
		}
		assets[d] = a
		if g.p(15) {
			if r := w.Exec(assetstypes.NewMsgDeregisterAsset(govAddr, d)); r.err != nil {
				return fail("removing %v: %v", a, r.err)
			}
			delete(assets, d)
		}
	}
	one := big.NewRat(1, 1)
	tot := new(big.Rat)
	eps := new(big.Rat)
	var coins sdk.Coins
	nonzero := false
	for _, d := range mathDenoms {
		c := sdk.NewCoin(d, m.anyInt(95))
		progTick.Add(1)
		got, err := w.App.RewardsKeeper.GetCoinValue(w.ctx, c)
		if err != nil {
			return fail("valuing %s: %v", c, err)
		}
		st.Steps++
		want, e := new(big.Rat), new(big.Rat).Set(smallest)
		if a, ok := assets[d]; ok {
			if p, ok := prices[a.Ticker]; ok && p.q.IsPositive() {
				x := a.Exponent
				if x > 400 {
					x = 400 // nothing is left of the value
				}
				scale := new(big.Rat).SetInt(pow10(uint64(x)))
				want.Quo(intRat(p.q), new(big.Rat).SetInt(pow10(p.dec)))
				want.Mul(want, intRat(c.Amount))
				want.Quo(want, scale)
				// the price is rounded to 18 decimals, then the value
				f := new(big.Rat).Quo(intRat(c.Amount), scale)
				e.Mul(smallest, f.Add(f, one))
				st.ev("valued")
			} else {
				st.ev("no-price")
			}
		} else {
			st.ev("no-asset")
		}
		df := new(big.Rat).Sub(want, ratOf(got))
		if df.Abs(df).Cmp(e) > 0 || got.IsNegative() || (want.Sign() == 0 && !got.IsZero()) {
			return fail("%s is valued %s, exactly %s (asset %v, price %v)", c, got, want.FloatString(24), assets[d], prices[assets[d].Ticker])
		}
		if got.IsPositive() {
			nonzero = true
		}
		trace += fmt.Sprintf("%s=%s@%v/%v ", c, got, assets[d].Exponent, prices[assets[d].Ticker])
		if want.Cmp(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 200))) < 0 {
			coins = coins.Add(c)
			tot.Add(tot, want)
			eps.Add(eps, e)
		}
	}
	got, err := w.App.RewardsKeeper.GetCoinsValue(w.ctx, coins)
	if err != nil {
		return fail("valuing %s: %v", coins, err)
	}
	df := new(big.Rat).Sub(tot, ratOf(got))
	if df.Abs(df).Cmp(eps) > 0 {
		return fail("%s are valued %s, exactly %s", coins, got, tot.FloatString(24))
	}
	if nonzero {
		st.Shapes[hashStr(trace)] = true
		st.Relevant++
	}
	if len(st.Samples) < 2 {
		st.Samples = append(st.Samples, cut(trace, 400))
	}
	return nil
}
