package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/core/comet"
	"cosmossdk.io/core/header"
	"cosmossdk.io/log"
	"cosmossdk.io/math"
	wasmkeeper "github.com/CosmWasm/wasmd/x/wasm/keeper"
	abci "github.com/cometbft/cometbft/abci/types"
	cmted25519 "github.com/cometbft/cometbft/crypto/ed25519"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	tmtypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256r1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/cosmos/cosmos-sdk/server"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	oracleconfig "github.com/skip-mev/connect/v2/oracle/config"

	milkyway "github.com/milkyway-labs/milkyway/v3/app"
	_ "github.com/milkyway-labs/milkyway/v3/app/params"
)

const chainID = "mw-verif-1"

var genesisTime = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// Denoms of the test universe.
const (
	dAtom  = "uatom"
	dUsd   = "uusd"
	dNopr  = "unopr" // restakable but has no price
	dStake = "stake"
	dRwd   = "urwd"
	dRwd2  = "urwdb"
)

// dTia is a voucher denom (a chain token received over IBC), used as the native denom of the locked representation.
// It is what the chain receives for utia over channel-0.
var dTia = transfertypes.ParseDenomTrace("transfer/channel-0/utia").IBCDenom()

var lockedTia = "locked/" + dTia
var lockedAtom = "locked/" + dAtom

// Actor is a named account.
type Actor struct {
	Name string
	Priv cryptotypes.PrivKey
	Addr sdk.AccAddress
	Str  string
}

var (
	actors    = map[string]*Actor{}
	actorList []*Actor
	nameOf    = map[string]string{} // bech32 -> name
)

var userNames = []string{"u0", "u1", "u2", "u3", "u4", "u5"}
var svcAdmins = []string{"sa0", "sa1", "sa2"}
var opAdmins = []string{"oa0", "oa1", "oa2"}

func allActorNames() []string {
	out := append([]string{}, userNames...)
	out = append(out, svcAdmins...)
	out = append(out, opAdmins...)
	out = append(out, "minter", "burner", "eve", "relay", "wd0", "wd1")
	return out
}

var govAddr string

func initActors() {
	for _, n := range allActorNames() {
		h := sha256.Sum256([]byte("mwverif/" + n))
		var pk cryptotypes.PrivKey = &secp256k1.PrivKey{Key: h[:]}
		if n == "u3" { // an account whose address has 32 bytes, as those of contracts
			r1 := &secp256r1.PrivKey{}
			must(r1.Unmarshal(append([]byte{10, 32}, h[:]...)))
			pk = r1
		}
		a := &Actor{Name: n, Priv: pk, Addr: sdk.AccAddress(pk.PubKey().Address())}
		a.Str = a.Addr.String()
		actors[n] = a
		actorList = append(actorList, a)
		nameOf[a.Str] = n
	}
	govAddr = authtypes.NewModuleAddress(govtypes.ModuleName).String()
	nameOf[govAddr] = "gov"
}

// addr resolves an actor name ("gov", an actor, or a raw bech32 / arbitrary string).
func addr(n string) string {
	if n == "gov" {
		return govAddr
	}
	if a, ok := actors[n]; ok {
		return a.Str
	}
	return n
}

func accAddr(n string) sdk.AccAddress {
	a, err := sdk.AccAddressFromBech32(addr(n))
	if err != nil {
		return nil
	}
	return a
}

// World is one application instance plus the context the case runs in.
type World struct {
	App  *milkyway.MilkyWayApp
	Home string
	base sdk.Context // committed genesis state, never written to
	ctx  sdk.Context // current case fork
}

func appOpts(home string) simtestutil.AppOptionsMap {
	o := make(simtestutil.AppOptionsMap, 0)
	o["home"] = home
	o[server.FlagInvCheckPeriod] = uint(0)
	o[server.FlagMinGasPrices] = "0stake"
	return o
}

// noFastNodes makes the nodes run without the database's index of latest values: iterating over that index while
// a block is committed is not safe in the store library, so answers of concurrent queries could not be judged with it.
var noFastNodes = false

// endBlockHook runs at the end of a block, before its changes are written to the tree.
var endBlockHook func()

func newApp(db dbm.DB, home string, load bool) *milkyway.MilkyWayApp {
	app := milkyway.NewMilkyWayApp(log.NewNopLogger(), db, nil, load && endBlockHook == nil, map[int64]bool{}, home,
		oracleconfig.NewDefaultAppConfig(), appOpts(home), []wasmkeeper.Option{}, baseapp.SetChainID(chainID), baseapp.SetIAVLDisableFastNode(noFastNodes))
	if load && endBlockHook != nil {
		app.SetEndBlocker(func(ctx sdk.Context) (sdk.EndBlock, error) {
			r, err := app.EndBlocker(ctx)
			if h := endBlockHook; h != nil {
				h()
			}
			return r, err
		})
		must(app.LoadLatestVersion())
	}
	return app
}

func scratchHome() string {
	d, err := os.MkdirTemp("", "mwmon-home-")
	if err != nil {
		panic(err)
	}
	return d
}

var startBalance = func() sdk.Coins {
	amt, _ := math.NewIntFromString("1000000000000000000000000000000")
	return sdk.NewCoins(
		sdk.NewCoin(dAtom, amt), sdk.NewCoin(dUsd, amt), sdk.NewCoin(dNopr, amt),
		sdk.NewCoin(dStake, amt), sdk.NewCoin(dRwd, amt), sdk.NewCoin(dRwd2, amt), sdk.NewCoin(dTia, amt),
	)
}

func valKey() cmted25519.PrivKey {
	h := sha256.Sum256([]byte("mwverif/validator"))
	return cmted25519.GenPrivKeyFromSecret(h[:])
}

// baseGenesis builds the chain genesis used by every mode.
func baseGenesis(app *milkyway.MilkyWayApp) milkyway.GenesisState {
	cdc := app.AppCodec()
	gs := app.ModuleBasics.DefaultGenesis(cdc)

	var accs []authtypes.GenesisAccount
	var bals []banktypes.Balance
	total := sdk.NewCoins()
	for i, a := range actorList {
		acc := authtypes.NewBaseAccount(a.Addr, a.Priv.PubKey(), uint64(i), 0)
		accs = append(accs, acc)
		b := startBalance()
		bals = append(bals, banktypes.Balance{Address: a.Str, Coins: b})
		total = total.Add(b...)
	}
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))

	pk, err := cryptocodec.FromCmtPubKeyInterface(valKey().PubKey())
	must(err)
	pkAny, err := codectypes.NewAnyWithValue(pk)
	must(err)
	bond := sdk.DefaultPowerReduction
	val := stakingtypes.Validator{
		OperatorAddress: sdk.ValAddress(valKey().PubKey().Address()).String(),
		ConsensusPubkey: pkAny, Status: stakingtypes.Bonded, Tokens: bond,
		DelegatorShares: math.LegacyNewDecFromInt(bond), UnbondingTime: time.Unix(0, 0).UTC(),
		Commission: stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()),
	}
	del := stakingtypes.NewDelegation(actors["eve"].Str, val.OperatorAddress, math.LegacyNewDecFromInt(bond))
	sp := stakingtypes.DefaultParams()
	sp.BondDenom = dStake
	gs[stakingtypes.ModuleName] = cdc.MustMarshalJSON(stakingtypes.NewGenesisState(sp, []stakingtypes.Validator{val}, []stakingtypes.Delegation{del}))
	total = total.Add(sdk.NewCoin(dStake, bond))
	bals = append(bals, banktypes.Balance{
		Address: authtypes.NewModuleAddress(stakingtypes.BondedPoolName).String(),
		Coins:   sdk.NewCoins(sdk.NewCoin(dStake, bond)),
	})
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultParams(), bals, total, nil, nil))

	// everybody lets eve send their coins
	var grants []authz.GrantAuthorization
	ga, err := codectypes.NewAnyWithValue(authz.NewGenericAuthorization("/cosmos.bank.v1beta1.MsgSend"))
	must(err)
	for _, a := range actorList {
		if a.Name != "eve" {
			grants = append(grants, authz.GrantAuthorization{Granter: a.Str, Grantee: actors["eve"].Str, Authorization: ga})
		}
	}
	gs[authz.ModuleName] = cdc.MustMarshalJSON(authz.NewGenesisState(grants))

	mp := minttypes.DefaultParams()
	mp.MintDenom = dStake
	mp.InflationMax = math.LegacyZeroDec()
	mp.InflationMin = math.LegacyZeroDec()
	mp.InflationRateChange = math.LegacyZeroDec()
	mg := minttypes.NewGenesisState(minttypes.NewMinter(math.LegacyZeroDec(), math.LegacyZeroDec()), mp)
	gs[minttypes.ModuleName] = cdc.MustMarshalJSON(mg)
	return gs
}

var consensusParams = &tmproto.ConsensusParams{
	Block:     &tmproto.BlockParams{MaxBytes: 20000000, MaxGas: -1},
	Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 302400, MaxAgeDuration: 504 * time.Hour, MaxBytes: 10000},
	Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{tmtypes.ABCIPubKeyTypeEd25519}},
}

func initChain(app *milkyway.MilkyWayApp, gs milkyway.GenesisState) (*abci.ResponseInitChain, error) {
	bz, err := json.Marshal(gs)
	if err != nil {
		return nil, err
	}
	return app.InitChain(&abci.RequestInitChain{
		ChainId: chainID, Time: genesisTime, InitialHeight: 1,
		Validators: []abci.ValidatorUpdate{}, ConsensusParams: consensusParams, AppStateBytes: bz,
	})
}

// newWorld creates an application at height 1 with the base genesis committed.
func newWorld() *World {
	home := scratchHome()
	app := newApp(dbm.NewMemDB(), home, true)
	gs := baseGenesis(app)
	_, err := initChain(app, gs)
	must(err)
	_, err = app.FinalizeBlock(&abci.RequestFinalizeBlock{Height: 1, Time: genesisTime.Add(time.Second), ProposerAddress: valKey().PubKey().Address()})
	must(err)
	_, err = app.Commit()
	must(err)
	w := &World{App: app, Home: home}
	w.base = app.NewUncachedContext(false, tmproto.Header{ChainID: chainID, Height: 1, Time: genesisTime.Add(time.Second), ProposerAddress: valKey().PubKey().Address()})
	return w
}

func moduleAccounts() map[string]bool { return milkyway.ModuleAccountAddrs() }

func (w *World) Close() { _ = os.RemoveAll(w.Home) }

// Fork starts a new case on a throw-away copy of the base state.
func (w *World) Fork() {
	c, _ := w.base.CacheContext()
	w.ctx = c
	w.setBlock(1, genesisTime.Add(time.Second))
}

func (w *World) setBlock(h int64, t time.Time) {
	w.ctx = setBlockOn(w.ctx, h, t)
}

func setBlockOn(c sdk.Context, h int64, t time.Time) sdk.Context {
	t = t.UTC()
	return c.WithBlockHeight(h).WithBlockTime(t).
		WithHeaderInfo(header.Info{ChainID: chainID, Height: h, Time: t}).
		WithEventManager(sdk.NewEventManager()).
		WithCometInfo(emptyComet{}).
		WithGasMeter(infiniteGas()).WithBlockGasMeter(infiniteGas())
}

type emptyComet struct{}

func (emptyComet) GetEvidence() comet.EvidenceList { return emptyEvidence{} }
func (emptyComet) GetValidatorsHash() []byte       { return nil }
func (emptyComet) GetProposerAddress() []byte      { return valKey().PubKey().Address() }
func (emptyComet) GetLastCommit() comet.CommitInfo { return emptyCommit{} }

type emptyEvidence struct{}

func (emptyEvidence) Len() int               { return 0 }
func (emptyEvidence) Get(int) comet.Evidence { return nil }

type emptyCommit struct{}

func (emptyCommit) Round() int32           { return 0 }
func (emptyCommit) Votes() comet.VoteInfos { return emptyVotes{} }

type emptyVotes struct{}

func (emptyVotes) Len() int               { return 0 }
func (emptyVotes) Get(int) comet.VoteInfo { return nil }

// safely runs f converting a panic into an error.
func safely(f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			err = fmt.Errorf("panic: %v%s", r, repoFrames(st))
			panicked = true
		}
	}()
	return f(), false
}

func repoFrames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/x/") || strings.Contains(l, "/repo/app/") {
			out = append(out, strings.TrimSpace(strings.Split(l, " +")[0]))
			if len(out) >= 4 {
				break
			}
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " @ " + strings.Join(out, " < ")
}

// BeginBlock / EndBlock run the application's real block hooks on the case fork.
func (w *World) BeginBlock() (error, bool) {
	return safely(func() error { _, err := w.App.BeginBlocker(w.ctx); return err })
}

func (w *World) EndBlock() (error, bool) {
	return safely(func() error { _, err := w.App.EndBlocker(w.ctx); return err })
}

type execResult struct {
	err      error
	panicked bool
	res      *sdk.Result
	events   []abci.Event
}

// Exec executes a message the way the message router does: stateless validation, then the
// handler on a branched store that is only written back on success.
func (w *World) Exec(msg sdk.Msg) execResult {
	var r execResult
	r.err, r.panicked = safely(func() error {
		if v, ok := msg.(sdk.HasValidateBasic); ok {
			if err := v.ValidateBasic(); err != nil {
				return err
			}
		}
		h := w.App.MsgServiceRouter().Handler(msg)
		if h == nil {
			return fmt.Errorf("no handler for %T", msg)
		}
		cc, write := w.ctx.CacheContext()
		cc = cc.WithGasMeter(infiniteGas())
		res, err := h(cc, msg)
		if err != nil {
			return err
		}
		write()
		r.res = res
		if res != nil {
			r.events = res.Events
		}
		return nil
	})
	return r
}

// Query runs a gRPC query through the application's query router (which encodes and decodes it).
func (w *World) Query(ctx sdk.Context, path string, req, resp codecMsg) (err error) {
	e, _ := safely(func() error {
		h := w.App.GRPCQueryRouter().Route(path)
		if h == nil {
			return fmt.Errorf("no query handler for %s", path)
		}
		bz, err := w.App.AppCodec().Marshal(req)
		if err != nil {
			return err
		}
		c, _ := ctx.CacheContext()
		c = c.WithGasMeter(infiniteGas())
		r, err := h(c, &abci.RequestQuery{Data: bz, Path: path, Height: c.BlockHeight()})
		if err != nil {
			return err
		}
		return w.App.AppCodec().Unmarshal(r.Value, resp)
	})
	return e
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
