package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"

	"github.com/cosmos/cosmos-sdk/x/gov"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	milkyway "github.com/milkyway-labs/milkyway/v3/app"
)

var mwModules = []string{"services", "operators", "pools", "restaking", "rewards", "assets", "liquidvesting"}

// exportAll exports every module of the application from the given context.
func exportAll(app *milkyway.MilkyWayApp, ctx sdk.Context) (gs milkyway.GenesisState, err error, panicked bool) {
	gs = milkyway.GenesisState{}
	err, panicked = safely(func() error {
		for name, m := range app.ModuleBasics {
			var raw json.RawMessage
			c, _ := ctx.CacheContext()
			switch x := m.(type) {
			case module.HasGenesis:
				raw = x.ExportGenesis(c, app.AppCodec())
			case module.HasABCIGenesis:
				raw = x.ExportGenesis(c, app.AppCodec())
			default:
				if name == govtypes.ModuleName {
					g, err := gov.ExportGenesis(c, app.GovKeeper)
					if err != nil {
						return err
					}
					raw = app.AppCodec().MustMarshalJSON(g)
				} else {
					continue
				}
			}
			gs[name] = raw
		}
		return nil
	})
	return
}

// importAll starts a fresh application from an exported genesis.
func importAll(gs milkyway.GenesisState, ctx sdk.Context) (w *World, err error, panicked bool) {
	home := scratchHome()
	var app *milkyway.MilkyWayApp
	err, panicked = safely(func() error {
		app = newApp(dbm.NewMemDB(), home, true)
		bz, err := json.Marshal(gs)
		if err != nil {
			return err
		}
		_, err = app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: ctx.BlockTime(), InitialHeight: ctx.BlockHeight(),
			Validators: []abci.ValidatorUpdate{}, ConsensusParams: consensusParams, AppStateBytes: bz})
		return err
	})
	if err != nil {
		_ = os.RemoveAll(home)
		return nil, err, panicked
	}
	w = &World{App: app, Home: home}
	// the state built by InitChain, without committing it
	c := app.NewContextLegacy(false, tmproto.Header{ChainID: chainID, Height: ctx.BlockHeight(), Time: ctx.BlockTime()})
	c, _ = c.CacheContext()
	w.base = c
	w.ctx = setBlockOn(c, ctx.BlockHeight(), ctx.BlockTime())
	return w, nil, false
}

// doExport exports the state, imports it in a fresh application and continues there.
func (r *runner) doExport(o Op) bool {
	r.trace = append(r.trace, "Export")
	r.log("%4d Export", r.step)
	gs, err, _ := exportAll(r.w.App, r.w.ctx)
	if err != nil {
		return !r.report([]disc{{"R11", fmt.Sprintf("exporting the state failed: %v", err)}}, "")
	}
	gs2, err, _ := exportAll(r.w.App, r.w.ctx)
	if err != nil {
		return !r.report([]disc{{"R11", fmt.Sprintf("exporting the state again failed: %v", err)}}, "")
	}
	for _, mn := range mwModules {
		if !bytes.Equal(gs[mn], gs2[mn]) {
			return !r.report([]disc{{"R11 D01", fmt.Sprintf("exporting %s twice gives different results", mn)}}, "")
		}
	}
	// the exported state has to pass its own validation
	for _, mn := range mwModules {
		if v, ok := r.w.App.ModuleBasics[mn].(module.HasGenesisBasics); ok {
			if err := v.ValidateGenesis(r.w.App.AppCodec(), nil, gs[mn]); err != nil {
				return !r.report([]disc{{"R11", fmt.Sprintf("the exported state of %s does not validate: %v", mn, err)}}, "")
			}
		}
	}
	nw, err, pan := importAll(gs, r.w.ctx)
	if err != nil {
		for _, u := range r.m.undercovered() {
			if strings.Contains(err.Error(), "user: "+u+" insurance fund amount is too low") {
				// known finding KF1
				r.st.ev("known-finding-undercovered-user")
				r.dead = true
				return false
			}
		}
		if strings.Contains(err.Error(), "expected module account was") && r.govSurplus(gs) {
			// known finding KF2; the running chain is unaffected
			r.st.ev("known-finding-gov-surplus")
			return true
		}
		return !r.report([]disc{{"R11", fmt.Sprintf("importing the exported state failed (panic=%v): %v", pan, err)}}, "")
	}
	gs3, err, _ := exportAll(nw.App, nw.ctx)
	if err != nil {
		nw.Close()
		return !r.report([]disc{{"R11", fmt.Sprintf("exporting the imported state failed: %v", err)}}, "")
	}
	for _, mn := range mwModules {
		if !bytes.Equal(gs[mn], gs3[mn]) {
			nw.Close()
			return !r.report([]disc{{"R11", fmt.Sprintf("state of %s changed in an export/import round trip: %s", mn, jsonDiff(gs[mn], gs3[mn]))}}, "")
		}
	}
	r.st.ev("round-trips")
	r.relevant++
	r.extraWorlds = append(r.extraWorlds, nw)
	r.w = nw
	return r.settleAndCompare(&pend{pay: payouts{}}, "R11")
}

func jsonDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) string {
		lo, hi := i-80, i+80
		if lo < 0 {
			lo = 0
		}
		if hi > len(x) {
			hi = len(x)
		}
		return strings.ReplaceAll(string(x[lo:hi]), "\n", " ")
	}
	return fmt.Sprintf("...%s... vs ...%s...", cut(a), cut(b))
}

// govSurplus reports whether the gov account holds more than the deposits of
// the exported proposals because coins were sent to it.
func (r *runner) govSurplus(gs milkyway.GenesisState) bool {
	var g govv1.GenesisState
	if err := r.w.App.AppCodec().UnmarshalJSON(gs[govtypes.ModuleName], &g); err != nil {
		return false
	}
	deps := sdk.NewCoins()
	for _, d := range g.Deposits {
		deps = deps.Add(d.Amount...)
	}
	acc, err := sdk.AccAddressFromBech32(govAddr)
	if err != nil {
		return false
	}
	bal := r.w.App.BankKeeper.GetAllBalances(r.w.ctx, acc)
	return bal.IsAllGTE(deps) && !bal.Equal(deps)
}
