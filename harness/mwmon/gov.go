package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"
	"time"

	"cosmossdk.io/collections"
	"cosmossdk.io/math"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	cmted25519 "github.com/cometbft/cometbft/crypto/ed25519"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	govv1beta1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1beta1"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	milkyway "github.com/milkyway-labs/milkyway/v3/app"
)

// minVoteStake is the stake needed to vote, in base units.
const minVoteStake = 1_000_000

// onExpeditedList are the only messages an expedited proposal may contain.
var onExpeditedList = map[string]bool{
	"/cosmos.upgrade.v1beta1.MsgSoftwareUpgrade": true,
	"/cosmos.upgrade.v1beta1.MsgCancelUpgrade":   true,
}

func extraVal(i int) cmted25519.PrivKey {
	h := sha256.Sum256([]byte(fmt.Sprintf("mwverif/val%d", i)))
	return cmted25519.GenPrivKeyFromSecret(h[:])
}

func valOper(i int) string {
	if i == 0 {
		return sdk.ValAddress(valKey().PubKey().Address()).String()
	}
	return sdk.ValAddress(extraVal(i).PubKey().Address()).String()
}

// stakeGenesis gives the actors delegations to validators with different exchange rates and states.
func stakeGenesis(app *milkyway.MilkyWayApp, gs milkyway.GenesisState, g *gen) int {
	cdc := app.AppCodec()
	nv := 2 + g.n(4)
	type vd struct {
		num, den int64
		bonded   bool
	}
	vs := []vd{{1, 1, true}}
	for i := 1; i < nv; i++ {
		vs = append(vs, vd{int64(pick(g, 1, 9, 1, 999, 2)), int64(pick(g, 1, 10, 1, 1000, 3)), g.p(75)})
		if vs[i].num > vs[i].den {
			vs[i].num = 1
		}
	}
	shares := make([]math.Int, nv)
	for i := range shares {
		shares[i] = math.ZeroInt()
	}
	var dels []stakingtypes.Delegation
	add := func(name string, v int, s int64) {
		if s <= 0 {
			return
		}
		dels = append(dels, stakingtypes.NewDelegation(actors[name].Str, valOper(v), math.LegacyNewDec(s)))
		shares[v] = shares[v].AddRaw(s)
	}
	add("eve", 0, 50_000_000)
	for i := 1; i < nv; i++ {
		add("relay", i, 9_000_000)
	}
	for _, a := range actorList {
		if a.Name == "eve" || a.Name == "relay" || g.p(25) {
			continue
		}
		tot := int64(pick(g, 1, 500_000, 999_999, 999_999, 1_000_000, 1_000_000, 1_000_001, 1_999_999, 40_000_000))
		k := 1 + g.n(nv)
		if g.p(40) {
			k = 1
		}
		perm := g.r.Perm(nv)
		for j := 0; j < k; j++ {
			part := tot
			if j < k-1 {
				part = g.r.Int63n(tot + 1)
			}
			tot -= part
			v := vs[perm[j]]
			s := part * v.den / v.num
			if part*v.den%v.num != 0 && g.p(50) {
				s++
			}
			add(a.Name, perm[j], s)
		}
	}
	var vals []stakingtypes.Validator
	bonded, notBonded := math.ZeroInt(), math.ZeroInt()
	for i, v := range vs {
		key := valKey()
		if i > 0 {
			key = extraVal(i)
		}
		pk, err := cryptocodec.FromCmtPubKeyInterface(key.PubKey())
		must(err)
		anyPk, err := codectypes.NewAnyWithValue(pk)
		must(err)
		tok := shares[i].MulRaw(v.num).QuoRaw(v.den)
		st := stakingtypes.Bonded
		if v.bonded {
			bonded = bonded.Add(tok)
		} else {
			st = stakingtypes.Unbonded
			notBonded = notBonded.Add(tok)
		}
		vals = append(vals, stakingtypes.Validator{OperatorAddress: valOper(i), ConsensusPubkey: anyPk, Status: st, Jailed: !v.bonded,
			Tokens: tok, DelegatorShares: math.LegacyNewDecFromInt(shares[i]), UnbondingTime: time.Unix(0, 0).UTC(), MinSelfDelegation: math.OneInt(),
			Commission: stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec())})
	}
	sp := stakingtypes.DefaultParams()
	sp.BondDenom = dStake
	gs[stakingtypes.ModuleName] = cdc.MustMarshalJSON(stakingtypes.NewGenesisState(sp, vals, dels))
	var bg banktypes.GenesisState
	cdc.MustUnmarshalJSON(gs[banktypes.ModuleName], &bg)
	total := sdk.NewCoins()
	var bals []banktypes.Balance
	pools := map[string]math.Int{stakingtypes.BondedPoolName: bonded, stakingtypes.NotBondedPoolName: notBonded}
	skip := map[string]bool{moduleAddr(stakingtypes.BondedPoolName): true, moduleAddr(stakingtypes.NotBondedPoolName): true}
	for _, b := range bg.Balances {
		if !skip[b.Address] {
			bals = append(bals, b)
			total = total.Add(b.Coins...)
		}
	}
	for _, p := range sortedKeys(pools) {
		if pools[p].IsPositive() {
			c := sdk.NewCoins(sdk.NewCoin(dStake, pools[p]))
			bals = append(bals, banktypes.Balance{Address: moduleAddr(p), Coins: c})
			total = total.Add(c...)
		}
	}
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultParams(), bals, total, nil, nil))
	return nv
}

// stakeOf is the amount the address has delegated to validators, as an exact number.
func stakeOf(n *Node, a sdk.AccAddress) *big.Rat {
	tot := new(big.Rat)
	dels, err := n.App.StakingKeeper.GetDelegatorDelegations(n.Ctx(), a, 1000)
	must(err)
	for _, d := range dels {
		va, err := sdk.ValAddressFromBech32(d.ValidatorAddress)
		must(err)
		v, err := n.App.StakingKeeper.GetValidator(n.Ctx(), va)
		must(err)
		r := new(big.Rat).Mul(ratOf(d.Shares), new(big.Rat).SetInt(v.Tokens.BigInt()))
		tot.Add(tot, r.Quo(r, ratOf(v.DelegatorShares)))
	}
	return tot
}

func ratOf(d math.LegacyDec) *big.Rat {
	return new(big.Rat).SetFrac(d.BigInt(), new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil))
}

// govGen builds the transactions of the ante workload together with what must be decided about them.
type govGen struct {
	*gen
	n      *Node
	stakes map[string]*big.Rat // by address
	props  int
	maxBad int      // how many forbidden messages the transaction may get
	reject []string // reasons
	unsure bool
	kinds  map[string]bool
	shape  strings.Builder
}

func (g *govGen) voter(a string) {
	s := g.stakes[a]
	if s == nil {
		s = new(big.Rat)
	}
	min := new(big.Rat).SetInt64(minVoteStake)
	if s.Cmp(min) < 0 {
		g.reject = append(g.reject, fmt.Sprintf("%s votes with %s staked", nameOf[a], s.FloatString(6)))
		return
	}
	if new(big.Rat).Sub(s, min).Cmp(big.NewRat(1, 1_000_000_000_000)) < 0 && s.Cmp(min) != 0 {
		g.unsure = true // below the precision of the chain's arithmetic
	}
}

func (g *govGen) actor() string { return actorList[g.n_(len(actorList))].Name }

func (g *govGen) n_(k int) int { return g.gen.n(k) }

// leaf makes a message acting for who.
func (g *govGen) leaf(who string) sdk.Msg {
	a := actors[who]
	pid := uint64(1 + g.n_(g.props+1))
	weights := govv1.WeightedVoteOptions{govv1.NewWeightedVoteOption(govv1.OptionYes, math.LegacyMustNewDecFromStr("0.3")), govv1.NewWeightedVoteOption(govv1.OptionNo, math.LegacyMustNewDecFromStr("0.7"))}
	k := pick(g.gen, "vote", "vote", "votebeta", "weighted", "weighted", "weightedbeta", "submit", "expedited", "expedited", "legacy", "send", "deposit", "withdraw", "spend")
	full := len(g.reject) >= g.maxBad
	if full && (strings.HasPrefix(k, "vote") || strings.HasPrefix(k, "weighted")) {
		if s := g.stakes[a.Str]; s == nil || s.Cmp(big.NewRat(minVoteStake, 1)) < 0 {
			k = "send"
		}
	}
	g.kinds[k] = true
	g.shape.WriteString(k + " ")
	switch k {
	case "vote":
		g.voter(a.Str)
		return govv1.NewMsgVote(a.Addr, pid, govv1.OptionYes, "")
	case "votebeta":
		g.voter(a.Str)
		return govv1beta1.NewMsgVote(a.Addr, pid, govv1beta1.OptionNo)
	case "weighted":
		g.voter(a.Str)
		return govv1.NewMsgVoteWeighted(a.Addr, pid, weights, "")
	case "weightedbeta":
		g.voter(a.Str)
		return govv1beta1.NewMsgVoteWeighted(a.Addr, pid, govv1beta1.NewNonSplitVoteOption(govv1beta1.OptionAbstain))
	case "submit":
		m, err := govv1.NewMsgSubmitProposal(g.propMsgs(nil, false), sdk.NewCoins(sdk.NewInt64Coin(dStake, 10_000_000)), a.Str, "", "t", "s", false)
		must(err)
		return m
	case "expedited":
		var bad []string
		ms := g.propMsgs(&bad, full)
		for _, x := range bad {
			g.reject = append(g.reject, "expedited proposal with "+x)
		}
		m, err := govv1.NewMsgSubmitProposal(ms, sdk.NewCoins(sdk.NewInt64Coin(dStake, 50_000_000)), a.Str, "", "t", "s", true)
		must(err)
		return m
	case "legacy":
		m, err := govv1beta1.NewMsgSubmitProposal(govv1beta1.NewTextProposal("t", "d"), sdk.NewCoins(sdk.NewInt64Coin(dStake, 10_000_000)), a.Addr)
		must(err)
		return m
	case "deposit":
		return govv1.NewMsgDeposit(a.Addr, pid, sdk.NewCoins(sdk.NewInt64Coin(dStake, 1000)))
	case "withdraw":
		return distrtypes.NewMsgSetWithdrawAddress(a.Addr, actors["u0"].Addr)
	case "spend":
		return distrtypes.NewMsgFundCommunityPool(sdk.NewCoins(sdk.NewInt64Coin(dStake, 5)), a.Str)
	}
	return banktypes.NewMsgSend(a.Addr, actors[g.actor()].Addr, sdk.NewCoins(sdk.NewInt64Coin(dStake, 5)))
}

// propMsgs are the messages of a proposal; those that can not be expedited are named in bad.
func (g *govGen) propMsgs(bad *[]string, good bool) []sdk.Msg {
	var out []sdk.Msg
	n := 1 + g.n_(3)
	onlyGood := good || g.p(30)
	for i := 0; i < n; i++ {
		var m sdk.Msg
		k := g.n_(7)
		if onlyGood {
			k = g.n_(2)
		}
		switch k {
		case 0:
			m = &upgradetypes.MsgSoftwareUpgrade{Authority: govAddr, Plan: upgradetypes.Plan{Name: "n", Height: 1 << 40}}
		case 1:
			m = &upgradetypes.MsgCancelUpgrade{Authority: govAddr}
		case 2:
			m = banktypes.NewMsgSend(sdk.MustAccAddressFromBech32(govAddr), actors["u0"].Addr, sdk.NewCoins(sdk.NewInt64Coin(dStake, 1)))
		case 3:
			var err error
			m, err = govv1.NewLegacyContent(govv1beta1.NewTextProposal("t", "d"), govAddr)
			must(err)
		case 4:
			m = &banktypes.MsgUpdateParams{Authority: govAddr, Params: banktypes.DefaultParams()}
		case 5:
			m = &distrtypes.MsgCommunityPoolSpend{Authority: govAddr, Recipient: actors["u1"].Str, Amount: sdk.NewCoins(sdk.NewInt64Coin(dStake, 1))}
		case 6:
			var err error
			m, err = govv1.NewLegacyContent(upgradetypes.NewSoftwareUpgradeProposal("t", "d", upgradetypes.Plan{Name: "n", Height: 1 << 40}), govAddr)
			must(err)
		}
		if u := sdk.MsgTypeURL(m); bad != nil && !onExpeditedList[u] {
			*bad = append(*bad, u)
		}
		out = append(out, m)
	}
	return out
}

// tree makes a message signed by who; d is how deep it may nest.
func (g *govGen) tree(who string, d int) sdk.Msg {
	if d == 0 || g.p(45) {
		return g.leaf(who)
	}
	n := 1 + g.n_(3)
	var in []sdk.Msg
	g.shape.WriteString("exec( ")
	for i := 0; i < n; i++ {
		x := who
		if g.p(60) {
			x = g.actor()
		}
		in = append(in, g.tree(x, d-1))
	}
	g.shape.WriteString(") ")
	g.kinds["exec"] = true
	m := authz.NewMsgExec(actors[who].Addr, in)
	return &m
}

// govEngine runs transactions through the mempool check and through blocks and compares what is admitted.
func govEngine(quick, thorough int) engine {
	return engine{name: "ante", quick: quick, thorough: thorough, run: runGov,
		rule: "a case is a chain with random validators, exchange rates and delegations around the voting minimum, on which random transactions (votes of the four kinds, proposals, ordinary messages, nested in delegated execution up to depth 6) are checked and delivered with real signatures; admission is decided from exact stake amounts; it is non-trivial when it admitted and rejected at least one transaction, and distinct by the sequence of transaction shapes and decisions"}
}

func runGov(_ *World, st *stats, prop string, seed int64, i int) (viol *Violation) {
	g := &govGen{gen: &gen{r: newRand(seed)}, kinds: map[string]bool{}}
	txRand = newRand(seed + 1)
	var trace []string
	fail := func(step int, f string, a ...any) *Violation {
		what := fmt.Sprintf(f, a...)
		return &Violation{Prop: prop, Step: step, What: what, Case: Case{Prop: prop, Mode: "ante", Seed: seed, I: int64(i), What: what}}
	}
	app := blankApp()
	gs := nodeGenesis(app)
	nv := stakeGenesis(app, gs, g.gen)
	n, _ := newNode(gs)
	defer n.Close()
	g.n = n
	// proposals to vote on, and grants so that nested messages can be executed
	var txs [][]byte
	for k := 0; k < 3; k++ {
		m, err := govv1.NewMsgSubmitProposal([]sdk.Msg{&upgradetypes.MsgCancelUpgrade{Authority: govAddr}}, sdk.NewCoins(sdk.NewInt64Coin(dStake, 10_000_000)), actors["eve"].Str, "", "t", "s", false)
		must(err)
		b, err := n.Tx([]sdk.Msg{m}, []string{"eve"}, []uint64{uint64(k)})
		must(err)
		txs = append(txs, b)
	}
	g.props = 3
	exp := n.Time.Add(1000 * time.Hour)
	for k, a := range actorList {
		var ms []sdk.Msg
		for j := 0; j < 4; j++ {
			b := actorList[(k+1+g.n_(len(actorList)-1))%len(actorList)]
			for _, t := range []string{"/cosmos.gov.v1.MsgVote", "/cosmos.gov.v1.MsgVoteWeighted", "/cosmos.gov.v1beta1.MsgVote", "/cosmos.gov.v1.MsgSubmitProposal", "/cosmos.authz.v1beta1.MsgExec"} {
				m, err := authz.NewMsgGrant(a.Addr, b.Addr, authz.NewGenericAuthorization(t), &exp)
				must(err)
				ms = append(ms, m)
			}
		}
		s := n.chainSeq(a.Name)
		if a.Name == "eve" {
			s += 3
		}
		b, err := n.Tx(ms, []string{a.Name}, []uint64{s})
		must(err)
		txs = append(txs, b)
	}
	r, err := n.Block(txs, time.Second)
	must(err)
	for _, x := range r.TxResults {
		if x.Code != 0 {
			return fail(0, "an ordinary transaction was refused: %s", x.Log)
		}
	}
	votes := 0
	okTx, noTx := 0, 0
	for step := 0; step < 14; step++ {
		progTick.Add(1)
		g.stakes = map[string]*big.Rat{}
		for _, a := range actorList {
			g.stakes[a.Str] = stakeOf(n, a.Addr)
		}
		type item struct {
			signers []string
			seqs    []uint64
			why     []string
			unsure  bool
			shape   string
			tx      []byte
		}
		var items []item
		used := map[string]bool{}
		for len(items) < 9 {
			who := g.actor()
			if used[who] {
				if g.p(20) {
					break
				}
				continue
			}
			used[who] = true
			signers := []string{who}
			g.maxBad = pick(g.gen, 0, 0, 1, 1, 1, 1, 1000)
			g.reject, g.unsure = nil, false
			g.shape.Reset()
			var ms []sdk.Msg
			for k := 1 + g.n_(3); k > 0; k-- {
				x := who
				if y := g.actor(); g.p(15) && !used[y] {
					used[y] = true
					signers = append(signers, y)
					x = y
				}
				ms = append(ms, g.tree(x, g.n_(6)))
			}
			// every signer must sign a message, in order of first appearance
			signers = order(n, ms, signers)
			it := item{signers: signers, why: g.reject, unsure: g.unsure, shape: g.shape.String()}
			for _, s := range signers {
				it.seqs = append(it.seqs, n.chainSeq(s))
			}
			b, err := n.TxGas(ms, signers, it.seqs, 20_000_000)
			must(err)
			it.tx = b
			items = append(items, it)
		}
		// the mempool check decides
		var block [][]byte
		for _, it := range items {
			block = append(block, it.tx)
			st.Steps++
			c := n.CheckTx(it.tx)
			if it.unsure {
				continue
			}
			if len(it.why) > 0 && c.Code == 0 {
				return fail(step, "the mempool admitted a transaction although: %s; messages: %s", strings.Join(it.why, ", "), it.shape)
			}
			if len(it.why) == 0 && c.Code != 0 {
				return fail(step, "the mempool refused a transaction that no rule forbids: %s; messages: %s", c.Log, it.shape)
			}
		}
		res, err := n.Block(block, time.Duration(1+g.n_(5))*time.Second)
		if err != nil {
			return fail(step, "block failed: %v", err)
		}
		for k, it := range items {
			adm := n.chainSeq(it.signers[0]) != it.seqs[0]
			trace = append(trace, fmt.Sprint(it.shape, adm))
			st.ev(fmt.Sprintf("admitted-%v", adm))
			if adm && res.TxResults[k].Code == 0 {
				st.ev("executed")
			}
			if adm {
				okTx++
			} else {
				noTx++
			}
			if it.unsure {
				st.ev("on-the-edge")
				continue
			}
			if len(it.why) > 0 && adm {
				return fail(step, "a block admitted a transaction although: %s; messages: %s", strings.Join(it.why, ", "), it.shape)
			}
			if len(it.why) == 0 && !adm {
				return fail(step, "a block refused a transaction that no rule forbids: %s; messages: %s", res.TxResults[k].Log, it.shape)
			}
		}
		// what the chain recorded
		must(n.App.GovKeeper.Proposals.Walk(n.Ctx(), nil, func(id uint64, p govv1.Proposal) (bool, error) {
			if int(id) > g.props {
				g.props = int(id)
			}
			if p.Expedited {
				st.ev("expedited-proposals-recorded")
				for _, m := range p.Messages {
					if !onExpeditedList[m.TypeUrl] {
						viol = fail(step, "expedited proposal %d contains %s", id, m.TypeUrl)
					}
				}
			}
			return false, nil
		}))
		if viol != nil {
			return viol
		}
		cnt := 0
		must(n.App.GovKeeper.Votes.Walk(n.Ctx(), nil, func(k collections.Pair[uint64, sdk.AccAddress], v govv1.Vote) (bool, error) {
			cnt++
			if s := g.stakes[v.Voter]; cnt > votes && s == nil {
				viol = fail(step, "vote of %s who never had stake", v.Voter)
			}
			return false, nil
		}))
		if cnt > votes {
			st.Events["votes-recorded"] += cnt - votes
			votes = cnt
		}
		if viol != nil {
			return viol
		}
		// the stakes move
		var mv [][]byte
		for k := 0; k < 5; k++ {
			a := actorList[g.n_(len(actorList))]
			if a.Name == "eve" || a.Name == "relay" {
				continue
			}
			if used["mv"+a.Name] {
				continue
			}
			used["mv"+a.Name] = true
			amt := sdk.NewInt64Coin(dStake, int64(pick(g.gen, 1, 1, 2, 1000, 499_999, 1_000_000, 999_999)))
			var m sdk.Msg = stakingtypes.NewMsgDelegate(a.Str, valOper(g.n_(nv)), amt)
			switch g.n_(4) {
			case 0:
				m = stakingtypes.NewMsgUndelegate(a.Str, valOper(g.n_(nv)), amt)
			case 1:
				m = stakingtypes.NewMsgBeginRedelegate(a.Str, valOper(g.n_(nv)), valOper(g.n_(nv)), amt)
			}
			b, err := n.Tx([]sdk.Msg{m}, []string{a.Name}, []uint64{n.chainSeq(a.Name)})
			must(err)
			mv = append(mv, b)
		}
		mr, err := n.Block(mv, time.Second)
		if err != nil {
			return fail(step, "block failed: %v", err)
		}
		for _, x := range mr.TxResults {
			if x.Code == 0 {
				st.ev("stake-changes")
			}
		}
	}
	if okTx > 0 && noTx > 0 {
		st.Shapes[hashStr(strings.Join(trace, "|"))] = true
		st.Relevant += okTx
	}
	for k := range g.kinds {
		st.ev("cases-with-" + k)
	}
	if len(st.Samples) < 2 {
		st.Samples = append(st.Samples, strings.Join(trace[:3], " | "))
	}
	return nil
}

// order sorts the signers as the transaction needs them, dropping those that sign nothing.
func order(n *Node, ms []sdk.Msg, signers []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, m := range ms {
		ss, _, err := n.App.AppCodec().GetMsgV1Signers(m)
		must(err)
		for _, s := range ss {
			x := nameOf[sdk.AccAddress(s).String()]
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	return out
}
