package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	feemarkettypes "github.com/skip-mev/feemarket/x/feemarket/types"

	milkyway "github.com/milkyway-labs/milkyway/v3/app"
)

// A block as the consensus engine hands it to the application.
type block struct {
	Txs [][]byte `json:"txs"`
	Dt  int64    `json:"dt"`
}

// What the application answered for a block.
type blockRes struct {
	Resp []byte `json:"resp"` // the whole FinalizeBlock response
	Hash []byte `json:"hash"` // the committed application hash
}

// chainRec is a recorded chain: genesis and blocks.
type chainRec struct {
	Genesis json.RawMessage `json:"genesis"`
	Start   int64           `json:"start"` // unix nanoseconds of the genesis
	Blocks  []block         `json:"blocks"`
}

// liveGenesis turns an exported state into a genesis nodes can start from and execute transactions on.
func liveGenesis(app *milkyway.MilkyWayApp, gs milkyway.GenesisState) {
	cdc := app.AppCodec()
	p := feemarkettypes.DefaultParams()
	p.MinBaseGasPrice = math.LegacyMustNewDecFromStr("0.01")
	p.MaxBlockUtilization = 1_000_000_000_000
	p.FeeDenom = dStake
	p.Enabled = true
	fs := feemarkettypes.DefaultState()
	fs.BaseGasPrice = p.MinBaseGasPrice
	gs[feemarkettypes.ModuleName] = cdc.MustMarshalJSON(&feemarkettypes.GenesisState{Params: p, State: fs})
	var gg govv1.GenesisState
	cdc.MustUnmarshalJSON(gs[govtypes.ModuleName], &gg)
	vp, ep := time.Second, 500*time.Millisecond
	gg.Params.VotingPeriod, gg.Params.ExpeditedVotingPeriod = &vp, &ep
	gg.Params.MinDeposit = sdk.NewCoins(sdk.NewInt64Coin(dStake, 10))
	gg.Params.ExpeditedMinDeposit = sdk.NewCoins(sdk.NewInt64Coin(dStake, 20))
	gs[govtypes.ModuleName] = cdc.MustMarshalJSON(&gg)
}

// startNode starts a chain from a recorded genesis on the given database.
func startNode(db dbm.DB, gen []byte, start time.Time) (*Node, error) {
	n := &Node{DB: db, accNum: map[string]uint64{}, Seq: map[string]uint64{}, Time: start.UTC()}
	h := scratchHome()
	n.homes = append(n.homes, h)
	n.App = newApp(n.DB, h, true)
	err, _ := safely(func() error {
		_, err := n.App.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: n.Time, InitialHeight: 1,
			Validators: []abci.ValidatorUpdate{}, ConsensusParams: consensusParams, AppStateBytes: gen})
		return err
	})
	return n, err
}

// play executes a block and returns what the node answered. before runs between FinalizeBlock and Commit.
func (n *Node) play(b block, crash bool) (blockRes, error) {
	r, err := n.Finalize(b.Txs, time.Duration(b.Dt))
	if err != nil {
		return blockRes{}, err
	}
	if crash {
		// the process dies before the commit: the block is executed again after the restart
		n.Reopen()
		r2, err := n.Finalize(b.Txs, time.Duration(b.Dt))
		if err != nil {
			return blockRes{}, fmt.Errorf("executing the block again after a crash failed: %w", err)
		}
		a, _ := r.Marshal()
		c, _ := r2.Marshal()
		if !bytes.Equal(a, c) {
			return blockRes{}, fmt.Errorf("executing the block again after a crash gives another result: %s", respDiff(a, c))
		}
	}
	if _, err := n.App.Commit(); err != nil {
		return blockRes{}, err
	}
	n.Height++
	n.Time = n.Time.Add(time.Duration(b.Dt))
	bz, err := r.Marshal()
	must(err)
	return blockRes{Resp: bz, Hash: n.App.LastCommitID().Hash}, nil
}

// respDiff describes where two block responses differ.
func respDiff(a, b []byte) string {
	var x, y abci.ResponseFinalizeBlock
	if x.Unmarshal(a) != nil || y.Unmarshal(b) != nil {
		return "undecodable"
	}
	js := func(v any) string { b, _ := json.Marshal(v); return string(b) }
	if len(x.TxResults) != len(y.TxResults) {
		return "number of results"
	}
	for i := range x.TxResults {
		p, q := x.TxResults[i], y.TxResults[i]
		if p.Code != q.Code || !bytes.Equal(p.Data, q.Data) || p.GasUsed != q.GasUsed {
			return fmt.Sprintf("transaction %d: code %d gas %d %q vs code %d gas %d %q", i, p.Code, p.GasUsed, cut(p.Log, 300), q.Code, q.GasUsed, cut(q.Log, 300))
		}
		if s, t := js(p.Events), js(q.Events); s != t {
			return fmt.Sprintf("events of transaction %d: %s", i, jsonDiff([]byte(s), []byte(t)))
		}
		if p.Log != q.Log {
			return fmt.Sprintf("log of transaction %d: %s vs %s", i, cut(p.Log, 300), cut(q.Log, 300))
		}
	}
	if s, t := js(x.Events), js(y.Events); s != t {
		return "block events: " + jsonDiff([]byte(s), []byte(t))
	}
	if s, t := js(x.ValidatorUpdates), js(y.ValidatorUpdates); s != t {
		return "validator updates"
	}
	if !bytes.Equal(x.AppHash, y.AppHash) {
		return fmt.Sprintf("application hash %X vs %X", x.AppHash, y.AppHash)
	}
	return "other"
}

// sameResult compares answers. Log texts are not part of the agreement between nodes.
func sameResult(a, b blockRes) string {
	if bytes.Equal(a.Resp, b.Resp) && bytes.Equal(a.Hash, b.Hash) {
		return ""
	}
	var x, y abci.ResponseFinalizeBlock
	must(x.Unmarshal(a.Resp))
	must(y.Unmarshal(b.Resp))
	for _, r := range append(append([]*abci.ExecTxResult{}, x.TxResults...), y.TxResults...) {
		r.Log = ""
	}
	p, _ := x.Marshal()
	q, _ := y.Marshal()
	if bytes.Equal(p, q) && bytes.Equal(a.Hash, b.Hash) {
		return ""
	}
	return respDiff(a.Resp, b.Resp)
}

// txBuilder packs the messages of a history into transactions and blocks.
type txBuilder struct {
	g      *gen
	n      *Node
	cur    [][]byte
	used   map[string]uint64 // sequences used in the current block
	pend   []sdk.Msg         // messages of one signer to be put into one transaction
	signer string
	props  uint64
	st     *stats
}

func (b *txBuilder) seq(s string) uint64 {
	x := b.n.chainSeq(s) + b.used[s]
	b.used[s]++
	return x
}

func (b *txBuilder) flush() {
	if len(b.pend) == 0 {
		return
	}
	gas := uint64(txGas)
	if b.g.p(6) {
		gas = uint64(60_000 + b.g.n(400_000)) // many of these run out of gas somewhere in the middle
	}
	seq := b.seq(b.signer)
	if b.g.p(3) {
		seq += 2 // a wrong sequence
	}
	var tx []byte
	err, _ := safely(func() (err error) {
		tx, err = b.n.TxGas(b.pend, []string{b.signer}, []uint64{seq}, gas)
		return err
	})
	if err == nil {
		b.cur = append(b.cur, tx)
		b.st.ev("transactions")
	} else {
		b.used[b.signer]--
	}
	b.pend = nil
}

// add turns an op into transactions; it says whether blocks have to follow.
func (b *txBuilder) add(o0 Op) (gov bool) {
	o := normalise(o0)
	msg := buildMsg(o)
	if msg == nil {
		return false
	}
	if o.S == "gov" {
		b.flush()
		anyMsg, err := codectypes.NewAnyWithValue(msg)
		must(err)
		id, err := b.n.App.GovKeeper.ProposalID.Peek(b.n.Ctx())
		must(err)
		id += b.props
		b.props++
		b.signer = "eve"
		b.pend = []sdk.Msg{&govv1.MsgSubmitProposal{Messages: []*codectypes.Any{anyMsg}, Title: "t", Summary: "s",
			InitialDeposit: sdk.NewCoins(sdk.NewInt64Coin(dStake, 10)), Proposer: actors["eve"].Str}}
		b.flush()
		b.signer = "eve"
		b.pend = []sdk.Msg{&govv1.MsgVote{ProposalId: id, Voter: actors["eve"].Str, Option: govv1.OptionYes}}
		b.flush()
		b.st.ev("proposals")
		return true
	}
	if actors[o.S] == nil {
		return false
	}
	if o.K == "ExecSend" && o.X != "" {
		o.S = o.X // the grantee signs
	}
	if len(b.pend) > 0 && (b.signer != o.S || len(b.pend) > 3 || b.g.p(60)) {
		b.flush()
	}
	b.signer = o.S
	b.pend = append(b.pend, msg)
	return false
}

func (b *txBuilder) take(dt int64) block {
	b.flush()
	x := block{Txs: b.cur, Dt: dt}
	b.cur, b.used, b.props = nil, map[string]uint64{}, 0
	return x
}

// determCase records a chain on one node and replays it on others that are disturbed and restarted.
func determCase(w *World, st *stats, prop string, seed int64, i int) *Violation {
	fail := func(f string, a ...any) *Violation {
		return &Violation{Prop: prop, What: fmt.Sprintf(f, a...), Case: Case{Prop: prop, Mode: "determinism", Seed: seed, I: int64(i)}}
	}
	setProgress(func() Case { return Case{Prop: prop, Mode: "determinism", Seed: seed, I: int64(i)} })
	rec, res, n, r := recordChain(w, st, seed, i, 0)
	if rec == nil {
		return nil
	}
	defer r.close()
	defer n.Close()
	rnd := newRand(seed + 1)
	d := &disturber{r: rnd, st: st, rec: rec}

	// another node in this process, disturbed and restarted
	b, err := startNode(dbm.NewMemDB(), rec.Genesis, time.Unix(0, rec.Start))
	if err != nil {
		return fail("the same genesis was accepted by one node and rejected by another: %v", err)
	}
	defer b.Close()
	for k, bl := range rec.Blocks {
		progTick.Add(1)
		if k > 0 {
			if rnd.Intn(100) < 12 {
				b.Reopen()
				st.ev("restarts")
			}
			d.disturb(b, k)
		}
		crash := rnd.Intn(100) < 8
		if crash {
			st.ev("crashes-before-commit")
			if k == 0 {
				crash = false // a chain that has not committed its first block starts from the genesis again
			}
		}
		x, err := b.play(bl, crash)
		if err != nil {
			return fail("block %d: %v", k+1, err)
		}
		if s := sameResult(res[k], x); s != "" {
			return fail("block %d gives another result on a disturbed and restarted node: %s", k+1, s)
		}
		st.ev("blocks-compared")
		st.Steps++
	}
	e1, err1 := exportNode(n)
	e2, err2 := exportNode(b)
	if fmt.Sprint(err1) != fmt.Sprint(err2) || !bytes.Equal(e1, e2) {
		return fail("two nodes with the same history export different states: %v %v %s", err1, err2, jsonDiff(e1, e2))
	}
	// other processes, with a database on disk, another environment and another clock
	if i%3 == 0 {
		if s, err := replayElsewhere(rec, res, rnd.Intn(len(rec.Blocks)), rnd.Intn(4), st); err != nil {
			st.ev("process-failed")
			return fail("replaying the blocks in another process: %v", err)
		} else if s != "" {
			return fail("%s", s)
		}
	}
	st.Relevant++
	h := uint64(len(rec.Blocks))
	for _, x := range res {
		h = h*1099511628211 ^ hashStr(string(x.Hash))
		st.States[hashStr(string(x.Hash))] = true
	}
	st.Shapes[h] = true
	if len(st.Samples) < 2 {
		st.Samples = append(st.Samples, fmt.Sprintf("%d blocks, last hash %X; %s", len(rec.Blocks), res[len(res)-1].Hash, sample(r)))
	}
	return nil
}

func exportNode(n *Node) ([]byte, error) {
	var out []byte
	err, _ := safely(func() error {
		x, err := n.App.ExportAppStateAndValidators(false, nil, nil)
		out = x.AppState
		return err
	})
	return out, err
}

// recordChain generates a history, and executes it as blocks of transactions on a fresh node.
func recordChain(w *World, st *stats, seed int64, i int, minOps int) (*chainRec, []blockRes, *Node, *runner) {
	names := sortedKeys(profiles)
	prof := profiles[names[i%len(names)]]
	r := newRunner(w, "none", newStats())
	g := newGen(seed, r, prof)
	skip := func(why string) (*chainRec, []blockRes, *Node, *runner) {
		st.ev("skipped-" + why)
		st.Abandoned++
		r.close()
		return nil, nil, nil, nil
	}
	for _, o := range g.prelude() {
		if !r.do(o) {
			return skip("setup")
		}
	}
	for k := 0; k < 6; k++ {
		if !r.do(g.delegate()) {
			return skip("setup")
		}
	}
	for k := 0; k < 2; k++ {
		if !r.do(g.make("CreatePlan")) || !r.do(g.make("FundPlan")) {
			return skip("setup")
		}
	}
	for k := 20 + g.n(20); k > 0; k-- {
		if !r.do(g.next()) {
			return skip("setup")
		}
	}
	gs, err, _ := exportAll(r.w.App, r.w.ctx)
	if err != nil {
		return skip("export")
	}
	liveGenesis(r.w.App, gs)
	bz, err := json.Marshal(gs)
	must(err)
	start := r.w.ctx.BlockTime()
	n, err := startNode(dbm.NewMemDB(), bz, start)
	if err != nil {
		return skip("import")
	}
	rec := &chainRec{Genesis: bz, Start: start.UnixNano()}
	var res []blockRes
	play := func(b block) bool {
		progTick.Add(1)
		x, err := n.play(b, false)
		if err != nil {
			st.ev("block-failed") // R05 decides this
			return false
		}
		rec.Blocks = append(rec.Blocks, b)
		res = append(res, x)
		var fr abci.ResponseFinalizeBlock
		must(fr.Unmarshal(x.Resp))
		for _, t := range fr.TxResults {
			if t.Code == 0 {
				st.ev("transactions-ok")
			} else {
				st.ev(fmt.Sprintf("transactions-failed-%s-%d", t.Codespace, t.Code))
			}
		}
		return true
	}
	if !play(block{Dt: int64(time.Second)}) {
		n.Close()
		return skip("first-block")
	}
	for _, a := range actorList {
		if acc := n.App.AccountKeeper.GetAccount(n.Ctx(), a.Addr); acc != nil {
			n.accNum[a.Name] = acc.GetAccountNumber()
		}
	}
	b := &txBuilder{g: g, n: n, used: map[string]uint64{}, st: st}
	for k := 40 + minOps + g.n(40); k > 0 && !r.dead; k-- {
		o := g.next()
		switch o.K {
		case "Export", "Queries", "Invariants", "IDs", "Price", "IBC", "Escrow", "Refund":
			continue
		}
		r.do(o)
		if o.K == "Block" {
			if !play(b.take(o.Dt)) {
				break
			}
			continue
		}
		if b.add(o) {
			if !play(b.take(int64(time.Second))) || !play(b.take(int64(time.Second))) {
				break
			}
		}
	}
	play(b.take(int64(time.Second)))
	play(b.take(int64(14 * 24 * time.Hour)))
	return rec, res, n, r
}

// nodeSpec tells a node process what to do.
type nodeSpec struct {
	Chain string `json:"chain"`
	DB    string `json:"db"`
	From  int    `json:"from"`
	To    int    `json:"to"`
	Out   string `json:"out"`
}

// nodeProc is the main program of a node process: it executes blocks on a database on disk and dies.
func nodeProc(f string) {
	initActors()
	initModuleAddrs()
	var sp nodeSpec
	b, err := os.ReadFile(f)
	must(err)
	must(json.Unmarshal(b, &sp))
	var rec chainRec
	b, err = os.ReadFile(sp.Chain)
	must(err)
	must(json.Unmarshal(b, &rec))
	db, err := dbm.NewGoLevelDB("app", sp.DB, nil)
	must(err)
	var n *Node
	var out []blockRes
	if sp.From == 0 {
		n, err = startNode(db, rec.Genesis, time.Unix(0, rec.Start))
		must(err)
	} else {
		n = &Node{DB: db, accNum: map[string]uint64{}, Seq: map[string]uint64{}, Time: time.Unix(0, rec.Start).UTC()}
		n.Reopen()
		for _, x := range rec.Blocks[:sp.From] {
			n.Height++
			n.Time = n.Time.Add(time.Duration(x.Dt))
		}
		if n.App.LastBlockHeight() != n.Height {
			panic(fmt.Sprintf("the node came back at height %d, want %d", n.App.LastBlockHeight(), n.Height))
		}
	}
	for _, x := range rec.Blocks[sp.From:sp.To] {
		r, err := n.play(x, false)
		must(err)
		out = append(out, r)
	}
	n.Close()
	bz, err := json.Marshal(out)
	must(err)
	must(os.WriteFile(sp.Out, bz, 0o644))
	os.Exit(0) // without closing the database, as when killed
}

var nodeEnvs = [][]string{
	{"TZ=Asia/Kathmandu", "GOMAXPROCS=1", "LANG=C"},
	{"TZ=America/St_Johns", "GOMAXPROCS=4", "GOGC=30"},
	{"TZ=UTC", "GOMAXPROCS=2", "LC_ALL=tr_TR.UTF-8", "GODEBUG=randautoseed=0"},
	{"TZ=Pacific/Kiritimati", "GOMAXPROCS=8", "HOME=/nonexistent"},
}

// clockShifts are the offsets of the clocks of the node processes, in seconds.
var clockShifts = []string{"0", "-94608000", "86400", "1576800000"}

// replayElsewhere replays the chain in two successive processes.
func replayElsewhere(rec *chainRec, want []blockRes, cutAt, env int, st *stats) (string, error) {
	dir, err := os.MkdirTemp("", "mwmon-chain-")
	must(err)
	defer os.RemoveAll(dir)
	bz, err := json.Marshal(rec)
	must(err)
	must(os.WriteFile(filepath.Join(dir, "chain.json"), bz, 0o644))
	var got []blockRes
	bin := os.Getenv("MW_CLOCKBIN")
	if bin == "" {
		bin = os.Args[0]
	}
	for k, rg := range [][2]int{{0, cutAt}, {cutAt, len(rec.Blocks)}} {
		if rg[0] == rg[1] {
			continue
		}
		sp := nodeSpec{Chain: filepath.Join(dir, "chain.json"), DB: dir, From: rg[0], To: rg[1], Out: filepath.Join(dir, fmt.Sprintf("out%d.json", k))}
		b, _ := json.Marshal(sp)
		f := filepath.Join(dir, fmt.Sprintf("spec%d.json", k))
		must(os.WriteFile(f, b, 0o644))
		cmd := exec.Command(bin, "nodeproc", f)
		e := (env + k) % len(nodeEnvs)
		cmd.Env = append(append(os.Environ(), nodeEnvs[e]...), "MW_CLOCK_SHIFT="+clockShifts[e], "TMPDIR="+dir)
		buf := &bytes.Buffer{}
		cmd.Stdout, cmd.Stderr = buf, buf
		must(cmd.Start())
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		t := time.NewTicker(time.Second)
		var werr error
	wait:
		for {
			select {
			case werr = <-done:
				break wait
			case <-t.C:
				progTick.Add(1)
			}
		}
		t.Stop()
		progTick.Add(1)
		if werr != nil {
			o := buf.String()
			if j := strings.Index(o, "panic:"); j > 0 {
				o = o[j:]
			}
			return "", fmt.Errorf("%v: %s", werr, cut(o, 1500))
		}
		var out []blockRes
		b, err := os.ReadFile(sp.Out)
		must(err)
		must(json.Unmarshal(b, &out))
		got = append(got, out...)
		st.ev("node-processes")
	}
	for k := range want {
		if s := sameResult(want[k], got[k]); s != "" {
			return fmt.Sprintf("block %d gives another result in another process (restarted after block %d): %s", k+1, cutAt, s), nil
		}
		st.ev("blocks-compared-across-processes")
	}
	return "", nil
}

func determEngine(quick, thorough int) engine {
	return engine{name: "determinism", quick: quick, thorough: thorough, run: determCase,
		rule: "a case is a generated chain (genesis exported from a generated history, then blocks of signed transactions, some failing or out of gas, and governance proposals) recorded on one node and replayed on others that are queried, asked to check, simulate and propose, restarted, and killed between execution and commit, and on node processes with a database on disk, another environment and another clock; it is non-trivial when at least one block was compared, and distinct when its sequence of state hashes is new"}
}
