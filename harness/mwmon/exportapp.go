package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/codec"
	servertypes "github.com/cosmos/cosmos-sdk/server/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
)

// Node operators export the state with the export command of the daemon. This
// engine builds a chain of signed transactions, exports it that way (for the
// next height and for a restart at height zero, all modules or some of them),
// starts new chains from the exports, and feeds the old and the new chains the
// same further blocks.

var (
	// heights differ on a chain restarted at height zero
	heightFields = regexp.MustCompile(`"(creation_height|height)":\s*"\d+"`)
	// the ids of unbondings only have to be fresh: they are not those the original chain would have used
	idFields = regexp.MustCompile(`"unbonding_id":\s*"\d+"`)
)

// mwState is the exported state of MilkyWay's own modules, by module.
func (n *Node) mwState() map[string][]byte {
	out := map[string][]byte{}
	for _, mn := range mwModules {
		c, _ := n.Ctx().CacheContext()
		x, ok := n.App.ModuleBasics[mn].(interface {
			ExportGenesis(sdk.Context, codec.JSONCodec) json.RawMessage
		})
		if !ok {
			panic(fmt.Sprintf("%s (%T) exports no genesis", mn, n.App.ModuleBasics[mn]))
		}
		out[mn] = x.ExportGenesis(c, n.App.AppCodec())
	}
	return out
}

// exportApp runs the export command on the node.
func exportApp(n *Node, zero bool, mods []string) (x servertypes.ExportedApp, gs map[string]json.RawMessage, err error) {
	err, _ = safely(func() (err error) {
		x, err = n.App.ExportAppStateAndValidators(zero, nil, mods)
		return err
	})
	if err == nil {
		err = json.Unmarshal(x.AppState, &gs)
	}
	return
}

// importNode starts a chain from an export.
func importNode(x servertypes.ExportedApp, at time.Time) (*Node, error) {
	n := &Node{DB: dbm.NewMemDB(), accNum: map[string]uint64{}, Seq: map[string]uint64{}, Time: at.UTC()}
	h := scratchHome()
	n.homes = append(n.homes, h)
	n.App = newApp(n.DB, h, true)
	first := x.Height
	if first == 0 {
		first = 1 // as the genesis document does
	}
	n.Height = first - 1
	err, _ := safely(func() error {
		_, err := n.App.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: n.Time, InitialHeight: first,
			Validators: []abci.ValidatorUpdate{}, ConsensusParams: consensusParams, AppStateBytes: x.AppState})
		return err
	})
	return n, err
}

// startingAt lists the delegations whose current reward period started at a height.
func (n *Node) startingAt(h int64) (out []Op) {
	var g rewardstypes.GenesisState
	n.App.AppCodec().MustUnmarshalJSON(n.mwState()["rewards"], &g)
	for t, recs := range map[int]rewardstypes.DelegationTypeRecords{1: g.PoolsRecords, 2: g.OperatorsRecords, 3: g.ServicesRecords} {
		for _, s := range recs.DelegatorStartingInfos {
			if s.StartingInfo.Height == uint64(h) {
				if name := byAddr(s.DelegatorAddress); name != "" {
					out = append(out, Op{K: "WithdrawReward", S: name, T: t, ID: s.DelegationTargetID})
				}
			}
		}
	}
	return
}

func byAddr(a string) string {
	for _, x := range actorList {
		if x.Str == a {
			return x.Name
		}
	}
	return ""
}

func exportCase(w *World, st *stats, prop string, seed int64, i int) *Violation {
	fail := func(f string, a ...any) *Violation {
		return &Violation{Prop: prop, What: fmt.Sprintf(f, a...), Case: Case{Prop: prop, Mode: "export", Seed: seed, I: int64(i)}}
	}
	setProgress(func() Case { return Case{Prop: prop, Mode: "export", Seed: seed, I: int64(i)} })
	rec, _, n, r := recordChain(w, st, seed, i, 0)
	if rec == nil {
		return nil
	}
	defer r.close()
	defer n.Close()
	rnd := newRand(seed + 2)

	x1, gs1, err := exportApp(n, false, nil)
	if err != nil {
		return fail("exporting the state of the chain failed: %v", err)
	}
	x2, _, err := exportApp(n, false, nil)
	if err != nil || !bytes.Equal(x1.AppState, x2.AppState) {
		return fail("exporting the same state twice gives different results: %v %s", err, jsonDiff(x1.AppState, x2.AppState))
	}
	if x1.Height != n.Height+1 {
		return fail("the export at height %d starts the new chain at height %d", n.Height, x1.Height)
	}
	// some of the modules
	var some []string
	for _, mn := range mwModules {
		if rnd.Intn(2) == 0 {
			some = append(some, mn)
		}
	}
	if len(some) > 0 {
		_, gs, err := exportApp(n, false, some)
		if err != nil {
			return fail("exporting %v failed: %v", some, err)
		}
		for _, mn := range some {
			if !bytes.Equal(compact(gs[mn]), compact(gs1[mn])) {
				return fail("the export of %v has another state of %s than the full export", some, mn)
			}
		}
		if len(gs) != len(some) {
			return fail("the export of %v has %d modules", some, len(gs))
		}
		st.ev("partial-exports")
	}
	want := n.mwState()
	for _, mn := range mwModules {
		if gs1[mn] == nil {
			return fail("the export has no state of %s", mn)
		}
		if !bytes.Equal(compact(gs1[mn]), compact(want[mn])) {
			return fail("the exported state of %s is not the committed one: %s", mn, jsonDiff(compact(gs1[mn]), compact(want[mn])))
		}
		if v, ok := n.App.ModuleBasics[mn].(module.HasGenesisBasics); ok {
			if err := v.ValidateGenesis(n.App.AppCodec(), n.App.GetTxConfig(), gs1[mn]); err != nil {
				return fail("the exported state of %s does not validate: %v", mn, err)
			}
		}
	}
	// for a restart at height zero
	xz, gsz, err := exportApp(n, true, nil)
	if err != nil {
		return fail("exporting the state for a restart at height zero failed: %v", err)
	}
	if xz.Height != 0 {
		return fail("the export for height zero starts at height %d", xz.Height)
	}
	for _, mn := range mwModules {
		if v, ok := n.App.ModuleBasics[mn].(module.HasGenesisBasics); ok {
			if err := v.ValidateGenesis(n.App.AppCodec(), n.App.GetTxConfig(), gsz[mn]); err != nil {
				return fail("the state of %s exported for height zero does not validate: %v", mn, err)
			}
		}
	}
	n2, err := importNode(x1, n.Time)
	defer n2.Close()
	if err != nil {
		if why := knownImport(n, gs1, err); why != "" {
			st.ev("known-finding-" + why)
			return nil
		}
		return fail("starting a chain from the exported state failed: %v", err)
	}
	n3, err := importNode(xz, n.Time)
	defer n3.Close()
	if err != nil {
		if why := knownImport(n, gsz, err); why != "" {
			st.ev("known-finding-" + why)
			return nil
		}
		return fail("starting a chain at height zero from the exported state failed: %v", err)
	}
	st.ev("exports-imported")

	// the chains go on together
	b := &txBuilder{g: newGen(seed+3, r, profiles[sortedKeys(profiles)[i%len(profiles)]]), n: n, used: map[string]uint64{}, st: st}
	var samples []string
	play := func(bl block) *Violation {
		progTick.Add(1)
		var resp [3]*abci.ResponseFinalizeBlock
		for k, x := range []*Node{n, n2, n3} {
			name := []string{"the exported chain", "the chain started from the export", "the chain restarted at height zero"}[k]
			err, _ := safely(func() (err error) { resp[k], err = x.Block(bl.Txs, time.Duration(bl.Dt)); return err })
			if err != nil {
				if k == 0 {
					st.ev("block-failed") // R05 decides this
					return nil
				}
				return fail("a block fails on %s only: %v", name, err)
			}
			for j := range resp[k].TxResults {
				a, c := resp[0].TxResults[j], resp[k].TxResults[j]
				if a.Code != c.Code || a.Codespace != c.Codespace {
					return fail("transaction %d of block %d: %s answers %s/%d (%s), the exported chain %s/%d (%s)", j, x.Height, name, c.Codespace, c.Code, c.Log, a.Codespace, a.Code, a.Log)
				}
				if !bytes.Equal(a.Data, c.Data) {
					return fail("transaction %d of block %d: %s answers other data than the exported chain", j, x.Height, name)
				}
				st.ev("results-compared")
			}
		}
		st.ev("blocks-continued")
		st.Steps++
		s := [3]map[string][]byte{n.mwState(), n2.mwState(), n3.mwState()}
		for _, mn := range mwModules {
			for k := range s {
				s[k][mn] = idFields.ReplaceAll(s[k][mn], nil)
			}
			if !bytes.Equal(s[0][mn], s[1][mn]) {
				return fail("state of %s after %d more blocks: %s", mn, n.Height-x1.Height+1, jsonDiff(s[0][mn], s[1][mn]))
			}
			a, c := heightFields.ReplaceAll(s[0][mn], nil), heightFields.ReplaceAll(s[2][mn], nil)
			if !bytes.Equal(a, c) {
				return fail("state of %s after %d more blocks on the chain restarted at height zero: %s", mn, n.Height-x1.Height+1, jsonDiff(a, c))
			}
		}
		for _, a := range append(actorStrs(), moduleAddr("fee_collector"), moduleAddr("distribution"), moduleAddr(rewardstypes.RewardsPoolName), moduleAddr("liquidvesting")) {
			acc, err := sdk.AccAddressFromBech32(a)
			must(err)
			x, y, z := n.App.BankKeeper.GetAllBalances(n.Ctx(), acc), n2.App.BankKeeper.GetAllBalances(n2.Ctx(), acc), n3.App.BankKeeper.GetAllBalances(n3.Ctx(), acc)
			if !x.Equal(y) || !x.Equal(z) {
				return fail("%s has %s on the exported chain, %s on the one started from the export, and %s on the one restarted at height zero", a, x, y, z)
			}
		}
		return nil
	}
	if v := play(block{Dt: int64(time.Second)}); v != nil {
		return v
	}
	for k := 30 + rnd.Intn(30); k > 0 && !r.dead; k-- {
		o := b.g.next()
		switch o.K {
		case "Export", "Queries", "Invariants", "IDs", "Price", "IBC", "Escrow", "Refund":
			continue
		}
		r.do(o)
		dt := int64(0)
		if o.K == "Block" {
			dt = o.Dt
		} else if b.add(o) {
			if v := play(b.take(int64(time.Second))); v != nil {
				return v
			}
			dt = int64(time.Second)
		}
		if dt == 0 && k%5 == 0 {
			dt = int64(6 * time.Second)
		}
		if dt != 0 {
			// who began a reward period at the height the restarted chain is at now
			for _, o := range n3.startingAt(n3.Height + 1) {
				b.add(o)
				st.ev("claims-at-a-repeated-height")
			}
			if v := play(b.take(dt)); v != nil {
				return v
			}
		}
	}
	if v := play(b.take(int64(time.Second))); v != nil {
		return v
	}
	if v := play(b.take(int64(14 * 24 * time.Hour))); v != nil {
		return v
	}
	st.Relevant++
	h := hashStr(string(n.App.LastCommitID().Hash))
	st.Shapes[h], st.States[h] = true, true
	if len(st.Samples) < 2 {
		st.Samples = append(st.Samples, fmt.Sprintf("exported at height %d, continued to %d; %s %s", x1.Height-1, n.Height, strings.Join(samples, " "), sample(r)))
	}
	return nil
}

// knownImport recognises the recorded findings among the refusals to start from an export.
func knownImport(n *Node, gs map[string]json.RawMessage, err error) string {
	cdc := n.App.AppCodec()
	if strings.Contains(err.Error(), "insurance fund amount is too low") {
		// KF1: that user really has less insurance than the restaked locked tokens need
		var rg restakingtypes.GenesisState
		var lg lvtypes.GenesisState
		cdc.MustUnmarshalJSON(gs["restaking"], &rg)
		cdc.MustUnmarshalJSON(gs["liquidvesting"], &lg)
		for _, f := range lg.UserInsuranceFunds {
			if !strings.Contains(err.Error(), "user: "+f.UserAddress+" insurance fund amount is too low") {
				continue
			}
			need := map[string]math.LegacyDec{} // by native denomination
			add := func(d string, x math.LegacyDec) {
				if !isLocked(d) {
					return
				}
				d = strings.TrimPrefix(d, "locked/")
				if y, ok := need[d]; ok {
					x = x.Add(y)
				}
				need[d] = x
			}
			for _, d := range rg.Delegations {
				if d.UserAddress == f.UserAddress {
					for _, s := range d.Shares { // a share is a token
						if p := strings.SplitN(s.Denom, "/", 3); len(p) == 3 {
							add(p[2], s.Amount)
						}
					}
				}
			}
			for _, u := range rg.UnbondingDelegations {
				if u.DelegatorAddress == f.UserAddress {
					for _, e := range u.Entries {
						for _, c := range e.Balance {
							add(c.Denom, math.LegacyNewDecFromInt(c.Amount))
						}
					}
				}
			}
			for d, x := range need {
				if x.Mul(lg.Params.InsurancePercentage).QuoInt64(100).GT(math.LegacyNewDecFromInt(f.Balance.AmountOf(d))) {
					return "undercovered-user"
				}
			}
		}
	}
	if strings.Contains(err.Error(), "expected module account was") {
		// KF2: coins were sent to the gov account
		var g govv1.GenesisState
		cdc.MustUnmarshalJSON(gs["gov"], &g)
		deps := sdk.NewCoins()
		for _, d := range g.Deposits {
			deps = deps.Add(d.Amount...)
		}
		acc, err := sdk.AccAddressFromBech32(govAddr)
		must(err)
		bal := n.App.BankKeeper.GetAllBalances(n.Ctx(), acc)
		if bal.IsAllGTE(deps) && !bal.Equal(deps) {
			return "gov-surplus"
		}
	}
	return ""
}

func actorStrs() (out []string) {
	for _, a := range actorList {
		out = append(out, a.Str)
	}
	return
}

func compact(x []byte) []byte {
	var b bytes.Buffer
	if json.Compact(&b, x) != nil {
		return x
	}
	return b.Bytes()
}

func exportEngine(quick, thorough int) engine {
	return engine{name: "export", quick: quick, thorough: thorough, run: exportCase,
		rule: "a case is a chain of signed transactions exported with the export command of the daemon (for the next height, for a restart at height zero, all or some modules), new chains started from the exports, and the same further blocks executed on the old and the new chains; it is non-trivial when the chains went on together to the end, and distinct when its last state hash is new"}
}
