package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	"github.com/cosmos/cosmos-sdk/client"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	feemarkettypes "github.com/skip-mev/feemarket/x/feemarket/types"

	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// The engine of T01: nodes receive correctly signed transactions and all kinds of incorrect ones, and a sequential model of
// sequences, balances, fee grants and a few message effects tells what each block must have done.

const nPoor = 4

// poor is a key whose account only exists once somebody has sent coins to it.
func poor(i int) *secp256k1.PrivKey {
	h := sha256.Sum256([]byte(fmt.Sprintf("mwverif/poor%d", i)))
	return &secp256k1.PrivKey{Key: h[:]}
}

type grant struct {
	limit sdk.Coins // nil: unlimited
	exp   time.Time
}

type txModel struct {
	seq      map[string]uint64
	num      map[string]uint64
	exists   map[string]bool
	bal      map[string]sdk.Coins
	grants   map[string]*grant // granter/grantee
	services map[string]int
	withdraw map[string]string
}

func (m *txModel) clone() *txModel {
	o := &txModel{map[string]uint64{}, map[string]uint64{}, map[string]bool{}, map[string]sdk.Coins{}, map[string]*grant{}, map[string]int{}, map[string]string{}}
	for k, v := range m.seq {
		o.seq[k] = v
	}
	for k, v := range m.num {
		o.num[k] = v
	}
	for k, v := range m.exists {
		o.exists[k] = v
	}
	for k, v := range m.bal {
		o.bal[k] = v
	}
	for k, v := range m.grants {
		g := *v
		o.grants[k] = &g
	}
	for k, v := range m.services {
		o.services[k] = v
	}
	for k, v := range m.withdraw {
		o.withdraw[k] = v
	}
	return o
}

type txItem struct {
	raw    []byte
	shape  string
	why    []string // why it must be refused
	noMem  bool     // the mempool cannot know (or may judge differently)
	effect func(m *txModel) bool
	after  func(m *txModel)
	signer []string
	fee    sdk.Coins
	payer  string // who pays the fee
	grant  string // key of the grant that pays, if any
	unsure bool
	gas    uint64
}

type txRun struct {
	*gen
	n       *Node
	cfg     client.TxConfig
	m       *txModel
	keys    map[string]cryptotypes.PrivKey
	names   map[string]string
	people  []string
	enabled bool
	price   math.LegacyDec
	old     [][]byte
	st      *stats
}

func txEngine(quick, thorough int) engine {
	return engine{name: "txs", quick: quick, thorough: thorough, run: runTxs,
		rule: "a case is a chain with a random fee market (enabled or not, several prices) whose blocks contain well-formed transactions of one to three signers in both sign modes, with fee payers, fee grants and failing messages, mixed with replayed, tampered, wrongly signed, underpaid and expired ones; a sequential model of sequences, balances and fee grants is compared with the committed state after every block; it is non-trivial when it executed and refused at least one transaction, and distinct by the sequence of transaction shapes and decisions"}
}

func (t *txRun) who() string { return t.people[t.n_(len(t.people))] }
func (t *txRun) n_(k int) int {
	return t.gen.n(k)
}

// person prefers accounts that exist.
func (t *txRun) person() string {
	for k := 0; k < 4; k++ {
		w := t.who()
		if t.m.exists[w] || t.p(2) {
			return w
		}
	}
	return actorList[0].Str
}

// message builds a message of the signer and its effect (false: it fails).
func (t *txRun) message(from string) (sdk.Msg, func(m *txModel) bool, string) {
	to := t.who()
	switch t.n_(8) {
	case 0:
		return servicestypes.NewMsgCreateService("svc", "", "", "", nil, from), func(m *txModel) bool { m.services[from]++; return true }, "service"
	case 1:
		return rewardstypes.NewMsgSetWithdrawAddress(to, from), func(m *txModel) bool { m.withdraw[from] = to; return true }, "withdraw"
	case 2:
		if t.p(50) {
			return banktypes.NewMsgSend(sdk.MustAccAddressFromBech32(from), sdk.MustAccAddressFromBech32(rewardPool), sdk.NewCoins(sdk.NewInt64Coin(dUsd, 1))),
				func(*txModel) bool { return false }, "blocked-send"
		}
		return banktypes.NewMsgSend(sdk.MustAccAddressFromBech32(from), sdk.MustAccAddressFromBech32(to), sdk.NewCoins(sdk.NewCoin(dUsd, startBalance().AmountOf(dUsd).MulRaw(5)))),
			func(*txModel) bool { return false }, "too-much"
	}
	var c sdk.Coins
	for _, d := range []string{dUsd, dAtom, dStake} {
		if t.p(40) {
			c = c.Add(sdk.NewInt64Coin(d, 1+int64(t.n_(3_000_000))))
		}
	}
	if c.IsZero() {
		c = sdk.NewCoins(sdk.NewInt64Coin(dUsd, 1+int64(t.n_(1000))))
	}
	return banktypes.NewMsgSend(sdk.MustAccAddressFromBech32(from), sdk.MustAccAddressFromBech32(to), c), func(m *txModel) bool {
		left, neg := m.bal[from].SafeSub(c...)
		if neg {
			return false
		}
		m.bal[from] = left
		m.bal[to] = m.bal[to].Add(c...)
		m.exists[to] = true
		return true
	}, "send"
}

// required is the smallest fee for the gas.
func (t *txRun) required(gas uint64) math.Int {
	return t.price.MulInt(math.NewIntFromUint64(gas)).Ceil().TruncateInt()
}

// feeRule tells whether the offered fee satisfies the fee market.
func (t *txRun) feeRule(fee sdk.Coins, gas uint64) string {
	if !t.enabled && t.price.IsZero() {
		return ""
	}
	if len(fee) != 1 || fee[0].Denom != dStake {
		return "the fee is not one coin of the fee denomination"
	}
	if fee[0].Amount.LT(t.required(gas)) {
		return "the fee is below the minimum"
	}
	return ""
}

func (t *txRun) sign(b client.TxBuilder, signers []string, keys []cryptotypes.PrivKey, modes []signing.SignMode, chain string, nums, seqs, claimed []uint64) error {
	var sigs []signing.SignatureV2
	for i := range signers {
		sigs = append(sigs, signing.SignatureV2{PubKey: keys[i].PubKey(), Data: &signing.SingleSignatureData{SignMode: modes[i]}, Sequence: claimed[i]})
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return err
	}
	for i, s := range signers {
		bz, err := authsigning.GetSignBytesAdapter(context.Background(), t.cfg.SignModeHandler(), modes[i],
			authsigning.SignerData{Address: s, ChainID: chain, AccountNumber: nums[i], Sequence: seqs[i], PubKey: keys[i].PubKey()}, b.GetTx())
		if err != nil {
			return err
		}
		sig, err := keys[i].Sign(bz)
		if err != nil {
			return err
		}
		sigs[i].Data = &signing.SingleSignatureData{SignMode: modes[i], Signature: sig}
	}
	return b.SetSignatures(sigs...)
}

var tampers = []string{"wrong-key", "wrong-signer", "chain-id", "account-number", "sequence", "sequence-signed", "dropped-signature", "extra-signature",
	"swapped-signatures", "bit-flip", "replay", "altered-message", "altered-fee", "timeout", "memo", "no-gas", "low-gas", "cut", "altered-granter", "extension", "many-signers"}

// make builds one transaction against the model state m, which already reflects the transactions before it.
func (t *txRun) build(m *txModel, alone bool) *txItem {
	it := &txItem{}
	tamper := ""
	if t.p(45) {
		tamper = tampers[t.n_(len(tampers))]
	}
	if tamper == "replay" {
		if len(t.old) > 0 {
			it.raw, it.shape, it.why = t.old[t.n_(len(t.old))], "replay", []string{"it was executed before"}
			return it
		}
		tamper = ""
	}
	refuse := func(s string) {
		if s != "" {
			it.why = append(it.why, s)
		}
	}
	nm := 1 + t.n_(3)
	if tamper == "many-signers" {
		nm = 8 + t.n_(3)
	}
	var msgs []sdk.Msg
	var effects []func(m *txModel) bool
	var shape []string
	main := t.person()
	for i := 0; i < nm; i++ {
		from := main
		if t.p(20) {
			from = t.person()
		}
		if tamper == "many-signers" {
			from = actorList[(i+t.n_(2)*nm)%len(actorList)].Str
		}
		msg, eff, sh := t.message(from)
		msgs, effects, shape = append(msgs, msg), append(effects, eff), append(shape, sh)
		if !contains(it.signer, from) {
			it.signer = append(it.signer, from)
		}
	}
	b := t.cfg.NewTxBuilder()
	gas := pick(t.gen, uint64(1_000_000), 1_000_000, 777_777, 2_500_001)
	if alone {
		gas, it.unsure = uint64(20_000+t.n_(150_000)), true
	}
	// fees
	req := t.required(gas)
	amt := req.AddRaw(pick(t.gen, int64(0), 0, 1, 1000, 1_000_000))
	if t.p(6) {
		amt = req.SubRaw(1)
	}
	if amt.IsNegative() {
		amt = math.ZeroInt()
	}
	fee := sdk.NewCoins(sdk.NewCoin(dStake, amt))
	switch t.n_(30) {
	case 0:
		fee = sdk.NewCoins(sdk.NewCoin(dUsd, amt.AddRaw(1)))
	case 1:
		fee = sdk.NewCoins(sdk.NewCoin(dUsd, amt.AddRaw(1)), sdk.NewCoin(dStake, amt.AddRaw(1)))
	case 2:
		fee = nil
	}
	switch tamper {
	case "no-gas":
		gas = 0
		refuse("no gas")
	case "low-gas":
		gas = pick(t.gen, uint64(1), 5000)
		refuse("not enough gas to verify it")
	}
	it.payer = it.signer[0]
	if t.p(15) {
		p := t.person()
		b.SetFeePayer(sdk.MustAccAddressFromBech32(p))
		it.payer = p
		if !contains(it.signer, p) {
			it.signer = append(it.signer, p)
		}
		shape = append(shape, "payer")
	}
	var granter string
	if t.p(25) {
		granter = t.who()
		if t.p(60) {
			for _, k := range sortedGrantKeys(m.grants) {
				if strings.HasSuffix(k, "/"+it.payer) && t.p(60) {
					granter = strings.Split(k, "/")[0]
				}
			}
		}
		b.SetFeeGranter(sdk.MustAccAddressFromBech32(granter))
		shape = append(shape, "granter")
	}
	must(b.SetMsgs(msgs...))
	b.SetFeeAmount(fee)
	b.SetGasLimit(gas)
	it.fee, it.gas = fee, gas
	refuse(t.feeRule(fee, gas))
	if granter != "" {
		if granter != it.payer {
			k := granter + "/" + it.payer
			g := m.grants[k]
			switch {
			case g == nil:
				refuse("no fee grant")
			case !g.exp.IsZero() && !g.exp.After(t.n.Time): // the block is later still
				refuse("the fee grant has expired")
			case g.limit != nil && !g.limit.IsAllGTE(fee):
				refuse("the fee grant does not cover the fee")
			default:
				it.grant = k
			}
		}
		it.payer = granter
	}
	if !m.exists[it.payer] {
		refuse("the payer does not exist")
	}
	if !m.bal[it.payer].IsAllGTE(fee) {
		refuse("the payer lacks the fee")
		it.noMem = true
	}
	// body
	switch {
	case tamper == "memo":
		b.SetMemo(strings.Repeat("m", 257))
		refuse("the memo is too long")
	case t.p(10):
		b.SetMemo(strings.Repeat("m", pick(t.gen, 1, 255, 256)))
	}
	switch {
	case tamper == "timeout":
		b.SetTimeoutHeight(uint64(1 + t.n_(int(t.n.Height))))
		refuse("its timeout has passed")
		it.noMem = true
	case t.p(10):
		b.SetTimeoutHeight(uint64(t.n.Height + 1 + int64(t.n_(3))))
	}
	if tamper == "extension" {
		eb, ok := b.(interface{ SetExtensionOptions(...*codectypes.Any) })
		if ok {
			a, err := codectypes.NewAnyWithValue(msgs[0])
			must(err)
			eb.SetExtensionOptions(a)
			refuse("an unknown extension option")
		}
	}
	// signatures
	mode := pick(t.gen, signing.SignMode_SIGN_MODE_DIRECT, signing.SignMode_SIGN_MODE_DIRECT, signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON)
	if tamper == "extension" {
		mode = signing.SignMode_SIGN_MODE_DIRECT
	}
	var keys []cryptotypes.PrivKey
	var modes []signing.SignMode
	var nums, seqs, claimed []uint64
	for _, s := range it.signer {
		keys = append(keys, t.keys[s])
		md := mode
		if len(it.signer) > 1 && t.p(30) && tamper != "extension" {
			md = pick(t.gen, signing.SignMode_SIGN_MODE_DIRECT, signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON)
		}
		modes = append(modes, md)
		nums = append(nums, m.num[s])
		seqs = append(seqs, m.seq[s])
		claimed = append(claimed, m.seq[s])
		if !m.exists[s] {
			refuse("a signer does not exist")
		}
		if _, known := m.num[s]; m.exists[s] && !known {
			// the account appeared in this very block: its number is not known here
			refuse("unknown account number")
			it.unsure = true
		}
	}
	if len(it.signer) > 7 {
		refuse("too many signers")
	}
	chain := chainID
	j := t.n_(len(it.signer))
	other := t.keys[t.who()]
	for other.Equals(keys[j]) {
		other = t.keys[t.who()]
	}
	realKeys := append([]cryptotypes.PrivKey{}, keys...)
	switch tamper {
	case "wrong-signer":
		keys[j] = other
		refuse("signed by somebody else")
	case "chain-id":
		chain = pick(t.gen, "mw-verif-2", "", "milkyway")
		refuse("signed for another chain")
	case "account-number":
		nums[j] += 1 + uint64(t.n_(3))
		refuse("signed for another account number")
	case "sequence":
		if seqs[j] > 0 && t.p(50) {
			seqs[j]--
		} else {
			seqs[j] += 1 + uint64(t.n_(2))
		}
		claimed[j] = seqs[j]
		refuse("signed for another sequence")
	case "sequence-signed":
		// in the direct mode the signed sequence is the one the transaction states
		if modes[j] == signing.SignMode_SIGN_MODE_DIRECT {
			break
		}
		seqs[j]++
		refuse("signed for another sequence")
	}
	must(t.sign(b, it.signer, keys, modes, chain, nums, seqs, claimed))
	switch tamper {
	case "wrong-key":
		sigs, err := b.GetTx().GetSignaturesV2()
		must(err)
		d := sigs[j].Data.(*signing.SingleSignatureData)
		bz, err := authsigning.GetSignBytesAdapter(context.Background(), t.cfg.SignModeHandler(), modes[j],
			authsigning.SignerData{Address: it.signer[j], ChainID: chain, AccountNumber: nums[j], Sequence: seqs[j], PubKey: realKeys[j].PubKey()}, b.GetTx())
		must(err)
		d.Signature, err = other.Sign(bz)
		must(err)
		must(b.SetSignatures(sigs...))
		refuse("a signature was made with another key")
	case "dropped-signature", "extra-signature", "swapped-signatures":
		sigs, err := b.GetTx().GetSignaturesV2()
		must(err)
		switch {
		case tamper == "extra-signature":
			sigs = append(sigs, sigs[0])
			refuse("too many signatures")
		case tamper == "swapped-signatures" && len(sigs) > 1:
			sigs[0], sigs[1] = sigs[1], sigs[0]
			refuse("signatures in the wrong order")
		default:
			sigs = sigs[:len(sigs)-1]
			refuse("a signature is missing")
		}
		must(b.SetSignatures(sigs...))
	case "altered-message":
		if s, ok := msgs[0].(*banktypes.MsgSend); ok {
			s.Amount[0].Amount = s.Amount[0].Amount.AddRaw(1)
			sigs, err := b.GetTx().GetSignaturesV2()
			must(err)
			must(b.SetMsgs(msgs...))
			must(b.SetSignatures(sigs...))
			refuse("a message was altered after signing")
		}
	case "altered-fee":
		b.SetFeeAmount(fee.Add(sdk.NewInt64Coin(dStake, 1)))
		refuse("the fee was altered after signing")
	case "altered-granter":
		b.SetFeeGranter(sdk.MustAccAddressFromBech32(t.who()))
		if t.p(50) {
			b.SetGasLimit(gas + 1)
		} else if granter == "" {
			refuse("the granter was altered after signing")
		} else {
			b.SetMemo("altered")
		}
		refuse("altered after signing")
	}
	raw, err := t.cfg.TxEncoder()(b.GetTx())
	must(err)
	switch tamper {
	case "bit-flip":
		allDirect := true
		for _, md := range modes {
			allDirect = allDirect && md == signing.SignMode_SIGN_MODE_DIRECT
		}
		if allDirect {
			var r txtypes.TxRaw
			must(r.Unmarshal(raw))
			part := [][]byte{r.BodyBytes, r.AuthInfoBytes, r.Signatures[t.n_(len(r.Signatures))]}[t.n_(3)]
			part[t.n_(len(part))] ^= 1 << t.n_(8)
			raw, err = r.Marshal()
			must(err)
			refuse("a bit was flipped after signing")
		}
	case "cut":
		raw = raw[:len(raw)-1-t.n_(len(raw)/2)]
		refuse("cut short")
	}
	it.raw = raw
	if tamper != "" {
		shape = append(shape, "!"+tamper)
	}
	it.shape = strings.Join(shape, "+")
	it.effect = func(m *txModel) bool {
		for _, e := range effects {
			if !e(m) {
				return false
			}
		}
		return true
	}
	return it
}

func sortedGrantKeys(m map[string]*grant) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// apply executes the item on the model: "refused", "failed" or "ok".
func (it *txItem) apply(m *txModel) (*txModel, string) {
	if len(it.why) > 0 {
		return m, "refused"
	}
	m = m.clone()
	for _, s := range it.signer {
		m.seq[s]++
	}
	m.bal[it.payer] = m.bal[it.payer].Sub(it.fee...)
	if it.grant != "" {
		g := m.grants[it.grant]
		if g.limit != nil {
			g.limit = g.limit.Sub(it.fee...)
			if g.limit.IsZero() {
				delete(m.grants, it.grant)
			}
		}
	}
	x := m.clone()
	if !it.effect(x) {
		return m, "failed"
	}
	return x, "ok"
}

// observe compares the committed state with the model.
func (t *txRun) observe(m *txModel) string {
	ctx := t.n.Ctx()
	for _, p := range t.people {
		a := sdk.MustAccAddressFromBech32(p)
		acc := t.n.App.AccountKeeper.GetAccount(ctx, a)
		if (acc != nil) != m.exists[p] {
			return fmt.Sprintf("account %s exists: %v", t.names[p], acc != nil)
		}
		if acc != nil && acc.GetSequence() != m.seq[p] {
			return fmt.Sprintf("the sequence of %s is %d, expected %d", t.names[p], acc.GetSequence(), m.seq[p])
		}
		if b := t.n.App.BankKeeper.GetAllBalances(ctx, a); !b.Equal(m.bal[p]) {
			return fmt.Sprintf("the balance of %s is %s, expected %s", t.names[p], b, m.bal[p])
		}
		w, err := t.n.App.RewardsKeeper.GetDelegatorWithdrawAddr(ctx, a)
		must(err)
		want := p
		if x := m.withdraw[p]; x != "" {
			want = x
		}
		if w.String() != want {
			return fmt.Sprintf("the withdraw address of %s is %s, expected %s", t.names[p], t.names[w.String()], t.names[want])
		}
	}
	n := map[string]int{}
	if err := t.n.App.ServicesKeeper.IterateServices(ctx, func(s servicestypes.Service) (bool, error) { n[s.Admin]++; return false, nil }); err != nil {
		return err.Error()
	}
	for _, p := range t.people {
		if n[p] != m.services[p] {
			return fmt.Sprintf("%s has %d services, expected %d", t.names[p], n[p], m.services[p])
		}
	}
	for _, k := range sortedGrantKeys(m.grants) {
		x := strings.Split(k, "/")
		f, err := t.n.App.FeeGrantKeeper.GetAllowance(ctx, sdk.MustAccAddressFromBech32(x[0]), sdk.MustAccAddressFromBech32(x[1]))
		g := m.grants[k]
		if err != nil || f == nil {
			if !g.exp.IsZero() && !g.exp.After(t.n.Time) {
				continue
			}
			return fmt.Sprintf("the fee grant of %s to %s vanished (%v)", t.names[x[0]], t.names[x[1]], err)
		}
		if b, ok := f.(*feegrant.BasicAllowance); ok && g.limit != nil && !b.SpendLimit.Equal(g.limit) {
			return fmt.Sprintf("the fee grant of %s to %s covers %s, expected %s", t.names[x[0]], t.names[x[1]], b.SpendLimit, g.limit)
		}
	}
	return ""
}

// refresh learns the numbers of new accounts.
func (t *txRun) refresh() {
	ctx := t.n.Ctx()
	for _, p := range t.people {
		if acc := t.n.App.AccountKeeper.GetAccount(ctx, sdk.MustAccAddressFromBech32(p)); acc != nil {
			t.m.num[p], t.m.seq[p], t.m.exists[p] = acc.GetAccountNumber(), acc.GetSequence(), true
		}
		t.m.bal[p] = t.n.App.BankKeeper.GetAllBalances(ctx, sdk.MustAccAddressFromBech32(p))
	}
}

func runTxs(_ *World, st *stats, prop string, seed int64, i int) (viol *Violation) {
	g := &gen{r: newRand(seed)}
	t := &txRun{gen: g, st: st, keys: map[string]cryptotypes.PrivKey{}, names: map[string]string{}}
	fail := func(step int, f string, a ...any) *Violation {
		what := fmt.Sprintf(f, a...)
		return &Violation{Prop: prop, Step: step, What: what, Case: Case{Prop: prop, Mode: "txs", Seed: seed, I: int64(i), What: what}}
	}
	app := blankApp()
	gs := nodeGenesis(app)
	var fm feemarkettypes.GenesisState
	app.AppCodec().MustUnmarshalJSON(gs[feemarkettypes.ModuleName], &fm)
	t.enabled = g.p(60)
	t.price = math.LegacyMustNewDecFromStr(pick(g, "0.01", "0.0025", "1", "0.333333333333333333", "0.000001", "0"))
	if t.enabled && t.price.IsZero() {
		t.price = math.LegacyMustNewDecFromStr("0.02")
	}
	fm.Params.Enabled, fm.Params.MinBaseGasPrice, fm.State.BaseGasPrice = t.enabled, t.price, t.price
	if t.price.IsZero() {
		fm.State.BaseGasPrice = math.LegacyOneDec()
	}
	fm.Params.DistributeFees = g.p(50)
	gs[feemarkettypes.ModuleName] = app.AppCodec().MustMarshalJSON(&fm)
	n, _ := newNode(gs)
	defer n.Close()
	t.n, t.cfg = n, n.App.GetTxConfig()
	for _, a := range actorList {
		t.people = append(t.people, a.Str)
		t.keys[a.Str], t.names[a.Str] = a.Priv, a.Name
	}
	for k := 0; k < nPoor; k++ {
		key := poor(k)
		s := sdk.AccAddress(key.PubKey().Address()).String()
		t.people = append(t.people, s, s, s)
		t.keys[s], t.names[s] = key, fmt.Sprintf("poor%d", k)
	}
	t.m = &txModel{map[string]uint64{}, map[string]uint64{}, map[string]bool{}, map[string]sdk.Coins{}, map[string]*grant{}, map[string]int{}, map[string]string{}}
	t.refresh()
	// grants and first transfers to the poor accounts
	var first [][]byte
	for k := 0; k < 12; k++ {
		a := actorList[k]
		var ms []sdk.Msg
		for j := 0; j < 2; j++ {
			to := t.who()
			key := a.Str + "/" + to
			if to == a.Str || t.m.grants[key] != nil || t.m.exists[to] == false {
				continue
			}
			gr := &grant{}
			al := &feegrant.BasicAllowance{}
			if g.p(60) {
				gr.limit = sdk.NewCoins(sdk.NewInt64Coin(dStake, int64(pick(g, 1, 1000, 25_000, 1_000_000, 5_000_000))))
				al.SpendLimit = gr.limit
			}
			if g.p(30) {
				gr.exp = n.Time.Add(time.Duration(20+g.n(60)) * time.Second)
				e := gr.exp
				al.Expiration = &e
			}
			m, err := feegrant.NewMsgGrantAllowance(al, a.Addr, sdk.MustAccAddressFromBech32(to))
			must(err)
			ms = append(ms, m)
			t.m.grants[key] = gr
		}
		if g.p(40) {
			ms = append(ms, banktypes.NewMsgSend(a.Addr, sdk.AccAddress(poor(g.n(nPoor)).PubKey().Address()), sdk.NewCoins(sdk.NewInt64Coin(dStake, int64(pick(g, 1, 10_000, 1_000_000, 3_000_000))), sdk.NewInt64Coin(dUsd, 500))))
		}
		if len(ms) == 0 {
			continue
		}
		b := t.cfg.NewTxBuilder()
		must(b.SetMsgs(ms...))
		b.SetGasLimit(1_000_000)
		b.SetFeeAmount(sdk.NewCoins(sdk.NewCoin(dStake, t.required(1_000_000))))
		must(t.sign(b, []string{a.Str}, []cryptotypes.PrivKey{t.keys[a.Str]}, []signing.SignMode{signing.SignMode_SIGN_MODE_DIRECT}, chainID, []uint64{t.m.num[a.Str]}, []uint64{t.m.seq[a.Str]}, []uint64{t.m.seq[a.Str]}))
		raw, err := t.cfg.TxEncoder()(b.GetTx())
		must(err)
		first = append(first, raw)
	}
	r, err := n.Block(first, time.Second)
	if err != nil {
		return fail(0, "block failed: %v", err)
	}
	for _, x := range r.TxResults {
		if x.Code != 0 {
			return fail(0, "an ordinary transaction was refused: %s", x.Log)
		}
	}
	t.refresh()
	supply := n.App.BankKeeper.GetSupply(n.Ctx(), dStake)
	escrow := func() math.Int {
		return n.App.BankKeeper.GetBalance(n.Ctx(), authtypes.NewModuleAddress(feemarkettypes.FeeCollectorName), dStake).Amount
	}
	// keeps is what the fee market may keep of the fee of a transaction after it passed the post handler (at most): the price
	// of the gas used, unless fees are distributed, and everything when the messages failed.
	keeps := func(it *txItem, how string, used int64) (lo, hi math.Int) {
		switch {
		case !t.enabled || how == "refused" || how == "ok" && fm.Params.DistributeFees:
			return math.ZeroInt(), math.ZeroInt()
		case how == "ok":
			return math.ZeroInt(), t.required(uint64(used))
		}
		f := it.fee.AmountOf(dStake)
		return f, f
	}
	var trace []string
	done := map[string]int{}
	for step := 0; step < 12; step++ {
		progTick.Add(1)
		alone := g.p(15)
		k := 1 + g.n(9)
		if alone {
			k = 1
		}
		dt := time.Duration(1+g.n(9)) * time.Second
		m := t.m
		keptLo := escrow()
		keptHi := keptLo
		var items []*txItem
		var want []string
		var raws [][]byte
		drift := false
		for ; k > 0; k-- {
			it := t.build(m, alone)
			if it.unsure && !alone {
				continue
			}
			var w string
			// grants that expire between the last block and this one are left alone
			if it.grant != "" {
				if e := m.grants[it.grant].exp; !e.IsZero() && !e.After(n.Time.Add(dt)) {
					continue
				}
			}
			st.Steps++
			c := n.CheckTx(it.raw)
			if !drift && !it.noMem && !it.unsure {
				if len(it.why) > 0 && c.Code == 0 {
					return fail(step, "the mempool admitted a transaction (%s) although: %s", it.shape, strings.Join(it.why, ", "))
				}
			}
			if !drift && len(it.why) == 0 && !it.unsure && c.Code != 0 && !strings.Contains(c.Log, "insufficient funds") && !strings.Contains(c.Log, "does not exist") {
				return fail(step, "the mempool refused a transaction (%s) that no rule forbids: %s", it.shape, c.Log)
			}
			// once the mempool's state and the model part, its later answers are not compared
			drift = drift || (c.Code == 0) != (len(it.why) == 0)
			m, w = it.apply(m)
			items, want, raws = append(items, it), append(want, w), append(raws, it.raw)
		}
		res, err := n.Block(raws, dt)
		if err != nil {
			return fail(step, "block failed: %v", err)
		}
		if alone && items != nil {
			// depending on the gas it is refused, fails or is executed, but nothing else
			it := items[0]
			code := res.TxResults[0].Code
			got := ""
			if len(it.why) == 0 {
				full, _ := it.apply(t.m)
				failing := *it
				failing.effect = func(*txModel) bool { return false }
				failed, _ := failing.apply(t.m)
				dFull, dFailed, dNone := t.observe(full), t.observe(failed), t.observe(t.m)
				switch {
				case code == 0 && dFull == "":
					got, m = "ok", full
				case code != 0 && dNone == "":
					got, m = "refused", t.m
				case code != 0 && dFailed == "":
					got, m = "failed", failed
				default:
					return fail(step, "a transaction (%s) with little gas and code %d had a partial effect: %s / %s / %s", it.shape, code, dFull, dFailed, dNone)
				}
				if got == "failed" && it.fee.IsZero() && m.seq[it.signer[0]] == t.m.seq[it.signer[0]] {
					got = "refused"
				}
				st.ev("little-gas-" + got)
				lo, hi := keeps(it, got, res.TxResults[0].GasUsed)
				keptLo, keptHi = keptLo.Add(lo), keptHi.Add(hi)
			} else if code == 0 {
				return fail(step, "a block executed a transaction (%s) although: %s", it.shape, strings.Join(it.why, ", "))
			} else {
				m = t.m
			}
			trace = append(trace, it.shape+got)
		} else {
			for j, it := range items {
				code := res.TxResults[j].Code
				trace = append(trace, it.shape+":"+want[j])
				st.ev(want[j])
				done[want[j]]++
				lo, hi := keeps(it, want[j], res.TxResults[j].GasUsed)
				keptLo, keptHi = keptLo.Add(lo), keptHi.Add(hi)
				if (code == 0) != (want[j] == "ok") {
					if len(it.why) > 0 {
						return fail(step, "a block executed a transaction (%s) although: %s", it.shape, strings.Join(it.why, ", "))
					}
					return fail(step, "a transaction (%s) returned code %d (%s), expected it to be %s", it.shape, code, res.TxResults[j].Log, want[j])
				}
				if want[j] != "refused" {
					t.old = append(t.old, it.raw)
				}
				if k := strings.LastIndex(it.shape, "!"); k >= 0 && want[j] == "refused" {
					st.ev("refused-" + it.shape[k+1:])
				}
			}
		}
		if d := t.observe(m); d != "" {
			return fail(step, "after a block with transactions %v: %s", describe(items, want), d)
		}
		if s := n.App.BankKeeper.GetSupply(n.Ctx(), dStake); !s.IsEqual(supply) {
			return fail(step, "the supply of the fee denomination changed from %s to %s", supply, s)
		}
		if e := escrow(); e.LT(keptLo) || e.GT(keptHi) {
			return fail(step, "after a block with transactions %v the fee market holds %s fees, expected %s to %s", describe(items, want), e, keptLo, keptHi)
		}
		t.m = m
		for _, k := range sortedGrantKeys(t.m.grants) {
			if e := t.m.grants[k].exp; !e.IsZero() && !e.After(n.Time) {
				delete(t.m.grants, k)
			}
		}
		t.refresh()
	}
	st.ev(fmt.Sprintf("fee-market-%v", t.enabled))
	if done["ok"] > 0 && done["refused"] > 0 {
		st.Shapes[hashStr(strings.Join(trace, "|"))] = true
		st.Relevant += done["ok"] + done["failed"]
	}
	if len(st.Samples) < 2 && len(trace) > 3 {
		st.Samples = append(st.Samples, strings.Join(trace[:3], " | "))
	}
	return nil
}

func describe(items []*txItem, want []string) []string {
	var out []string
	for i, it := range items {
		out = append(out, it.shape+" ("+want[i]+")")
	}
	return out
}
