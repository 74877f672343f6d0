package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	feemarkettypes "github.com/skip-mev/feemarket/x/feemarket/types"

	milkyway "github.com/milkyway-labs/milkyway/v3/app"
)

// Node is an application driven only through its ABCI interface, as a validator node drives it.
type Node struct {
	App    *milkyway.MilkyWayApp
	DB     dbm.DB
	homes  []string
	Height int64
	Time   time.Time
	accNum map[string]uint64
	Seq    map[string]uint64 // next sequence by actor name
}

// newNode starts a chain with the genesis and runs its first block.
func newNode(gs milkyway.GenesisState) (*Node, *abci.ResponseFinalizeBlock) {
	n := &Node{DB: dbm.NewMemDB(), accNum: map[string]uint64{}, Seq: map[string]uint64{}, Time: genesisTime}
	h := scratchHome()
	n.homes = append(n.homes, h)
	n.App = newApp(n.DB, h, true)
	_, err := initChain(n.App, gs)
	must(err)
	for i, a := range actorList {
		n.accNum[a.Name] = uint64(i)
	}
	r, err := n.Block(nil, time.Second)
	must(err)
	return n, r
}

func (n *Node) Close() {
	for _, h := range n.homes {
		_ = os.RemoveAll(h)
	}
}

// Reopen stops the node and starts it again from its database.
func (n *Node) Reopen() {
	h := scratchHome()
	n.homes = append(n.homes, h)
	n.App = newApp(n.DB, h, true)
}

func (n *Node) Finalize(txs [][]byte, dt time.Duration) (*abci.ResponseFinalizeBlock, error) {
	return n.App.FinalizeBlock(&abci.RequestFinalizeBlock{Height: n.Height + 1, Time: n.Time.Add(dt), Txs: txs,
		ProposerAddress: valKey().PubKey().Address(), Hash: []byte(fmt.Sprintf("%032d", n.Height+1))})
}

// Block executes and commits a block.
func (n *Node) Block(txs [][]byte, dt time.Duration) (*abci.ResponseFinalizeBlock, error) {
	r, err := n.Finalize(txs, dt)
	if err != nil {
		return nil, err
	}
	if _, err := n.App.Commit(); err != nil {
		return nil, err
	}
	n.Height++
	n.Time = n.Time.Add(dt)
	return r, nil
}

// Ctx reads the last committed state.
func (n *Node) Ctx() sdk.Context {
	return n.App.NewUncachedContext(true, tmproto.Header{ChainID: chainID, Height: n.Height, Time: n.Time})
}

// chainSeq is the sequence of the actor in the committed state.
func (n *Node) chainSeq(name string) uint64 {
	a := n.App.AccountKeeper.GetAccount(n.Ctx(), actors[name].Addr)
	if a == nil {
		return 0
	}
	return a.GetSequence()
}

var txRand = rand.New(rand.NewSource(7))

const txGas = 4_000_000

// Tx builds a signed transaction. The signers are actor names; seqs are their sequences.
func (n *Node) Tx(msgs []sdk.Msg, signers []string, seqs []uint64) ([]byte, error) {
	return n.TxGas(msgs, signers, seqs, txGas)
}

func (n *Node) TxGas(msgs []sdk.Msg, signers []string, seqs []uint64, gas uint64) ([]byte, error) {
	cfg := n.App.GetTxConfig()
	var nums []uint64
	var privs = make([]cryptotypes.PrivKey, 0, len(signers))
	for _, s := range signers {
		nums = append(nums, n.accNum[s])
		privs = append(privs, actors[s].Priv)
	}
	tx, err := simtestutil.GenSignedMockTx(txRand, cfg, msgs, sdk.NewCoins(sdk.NewCoin(dStake, math.NewInt(10_000_000))), gas, chainID, nums, seqs, privs...)
	if err != nil {
		return nil, err
	}
	return cfg.TxEncoder()(tx)
}

func (n *Node) CheckTx(tx []byte) *abci.ResponseCheckTx {
	r, err := n.App.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_New})
	must(err)
	return r
}

// QueryRaw asks the node as a client does.
func (n *Node) QueryRaw(path string, data []byte, height int64) (*abci.ResponseQuery, error) {
	return n.App.Query(context.Background(), &abci.RequestQuery{Path: path, Data: data, Height: height})
}

// nodeGenesis is the genesis of the nodes: the base one with an enabled fee market at a small constant price.
func nodeGenesis(app *milkyway.MilkyWayApp) milkyway.GenesisState {
	gs := baseGenesis(app)
	p := feemarkettypes.DefaultParams()
	p.MinBaseGasPrice = math.LegacyMustNewDecFromStr("0.01")
	p.MaxBlockUtilization = 1_000_000_000_000
	p.FeeDenom = dStake
	p.Enabled = true
	st := feemarkettypes.DefaultState()
	st.BaseGasPrice = p.MinBaseGasPrice
	gs[feemarkettypes.ModuleName] = app.AppCodec().MustMarshalJSON(&feemarkettypes.GenesisState{Params: p, State: st})
	return gs
}

var blankNode *milkyway.MilkyWayApp

// blankApp is an application used only for its codecs and default genesis.
func blankApp() *milkyway.MilkyWayApp {
	if blankNode == nil {
		blankNode = newApp(dbm.NewMemDB(), scratchHome(), true)
	}
	return blankNode
}

func moduleAddr(m string) string { return authtypes.NewModuleAddress(m).String() }

func hashStr(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}
