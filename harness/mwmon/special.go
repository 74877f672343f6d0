package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"runtime/debug"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	host "github.com/cosmos/ibc-go/v8/modules/core/24-host"
	ibcexported "github.com/cosmos/ibc-go/v8/modules/core/exported"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	marketmaptypes "github.com/skip-mev/connect/v2/x/marketmap/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
)

func intOf(b *big.Int) math.Int { return math.NewIntFromBigInt(b) }

func stackTop() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "mwmon/") {
			f := strings.Fields(l)
			if len(f) > 0 {
				out = append(out, f[0][strings.LastIndex(f[0], "/")+1:])
			}
		}
	}
	if len(out) > 5 {
		out = out[2:7]
	}
	return strings.Join(out, " < ")
}

// doPrice publishes a price on the oracle; o.ID is the number of decimals of a market seen for the first time.
func (r *runner) doPrice(o Op) bool {
	var p math.LegacyDec
	if o.X2 != "" {
		p = dec(o.X2)
	}
	dp, ok := r.m.priceDec[o.X]
	if !ok {
		dp = uint64(o.ID)
		if dp == 0 || dp > 36 {
			dp = 18
		}
		r.m.priceDec[o.X] = dp
	}
	if o.X2 == "" {
		// a new market, not quoted yet: what is there already keeps its price
		must(setMarket(r.w, o.X, dp))
		r.trace = append(r.trace, "Market")
		r.log("%4d Market %s (%d decimals)", r.step, o.X, dp)
		r.st.ev("market-unquoted")
		return true
	}
	// the quoted integer, and the price it stands for
	q := new(big.Int).Mul(p.BigInt(), pow10(dp))
	q.Quo(q, pow10(18))
	must(setPrice(r.w, o.X, math.NewIntFromBigInt(q), dp))
	v := new(big.Int).Mul(q, pow10(18))
	v.Quo(v, pow10(dp))
	p = math.LegacyNewDecFromBigIntWithPrec(v, 18)
	r.m.price[o.X] = p
	r.trace = append(r.trace, "Price")
	r.log("%4d Price %s %s (%d decimals)", r.step, o.X, p, dp)
	return true
}

func pow10(n uint64) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), new(big.Int).SetUint64(n), nil)
}

// setMarket adds the market, and with it the currency pair without a price, unless it exists.
func setMarket(w *World, ticker string, decimals uint64) error {
	tk := marketmaptypes.NewTicker(ticker, rewardstypes.USDTicker, decimals, 1, true)
	ok, err := w.App.MarketMapKeeper.HasMarket(w.ctx, tk.String())
	if err != nil {
		return err
	}
	if !ok {
		mk := marketmaptypes.Market{Ticker: tk, ProviderConfigs: []marketmaptypes.ProviderConfig{{Name: "provider", OffChainTicker: ticker + "USD"}}}
		if err := w.App.MarketMapKeeper.CreateMarket(w.ctx, mk); err != nil {
			return err
		}
		return w.App.MarketMapKeeper.Hooks().AfterMarketCreated(w.ctx, mk)
	}
	return nil
}

func setPrice(w *World, ticker string, q math.Int, decimals uint64) error {
	if err := setMarket(w, ticker, decimals); err != nil {
		return err
	}
	return w.App.OracleKeeper.SetPriceForCurrencyPair(w.ctx, connecttypes.NewCurrencyPair(ticker, "USD"),
		oracletypes.QuotePrice{Price: q, BlockTimestamp: w.ctx.BlockTime(), BlockHeight: uint64(w.ctx.BlockHeight())})
}

const ibcSrcChannel = "channel-77"

func foreign(n string) string {
	if _, ok := actors[n]; !ok {
		return n
	}
	s, err := bech32.ConvertAndEncode("cosmos", actors[n].Addr)
	must(err)
	return s
}

// ibcAddr resolves address names used in IBC ops: "f:u0" is the address of u0 on the other chain.
func ibcAddr(n string) string {
	if strings.HasPrefix(n, "f:") {
		return foreign(n[2:])
	}
	if n == "lvmod" {
		return lvModule
	}
	return addr(n)
}

// doEscrow moves tokens to the escrow account of a channel, as an outgoing transfer does.
func (r *runner) doEscrow(o Op) bool {
	m := r.m
	c := o.C.coins()
	s := addr(o.S)
	if !validCoins(c) || !m.bal(s).IsAllGTE(c) {
		return true
	}
	esc := transfertypes.GetEscrowAddress("transfer", o.X)
	nameOf[esc.String()] = "escrow-" + o.X
	err, _ := safely(func() error { return r.w.App.BankKeeper.SendCoins(r.w.ctx, accAddr(o.S), esc, c) })
	if err != nil {
		return true
	}
	for _, x := range c {
		cur := r.w.App.TransferKeeper.GetTotalEscrowForDenom(r.w.ctx, x.Denom)
		r.w.App.TransferKeeper.SetTotalEscrowForDenom(r.w.ctx, sdk.NewCoin(x.Denom, cur.Amount.Add(x.Amount)))
	}
	if _, ok := r.w.App.IBCKeeper.ChannelKeeper.GetChannel(r.w.ctx, "transfer", o.X); !ok {
		r.w.App.IBCKeeper.ChannelKeeper.SetChannel(r.w.ctx, "transfer", o.X, channeltypes.Channel{State: channeltypes.OPEN, Ordering: channeltypes.UNORDERED,
			Counterparty: channeltypes.NewCounterparty("transfer", ibcSrcChannel), ConnectionHops: []string{"connection-0"}, Version: transfertypes.Version})
	}
	m.move(s, esc.String(), c)
	return true
}

type depositJSON struct {
	Depositor string `json:"depositor"`
	Amount    string `json:"amount"`
}

// memoOf builds the memo of an incoming transfer.
func memoOf(o Op) string {
	switch o.X2 {
	case "deposit":
		var ds []depositJSON
		for i, d := range o.L {
			a := "0"
			if i < len(o.L2) {
				a = o.L2[i]
			}
			n := ibcAddr(d)
			if o.Up && nameOf[n] != "" { // the same account, spelled in capitals
				n = strings.ToUpper(n)
			}
			ds = append(ds, depositJSON{n, a})
		}
		b, _ := json.Marshal(map[string]any{"liquidvesting": map[string]any{"amounts": ds}})
		return string(b)
	case "forward":
		var ds []depositJSON
		for i, d := range o.L {
			ds = append(ds, depositJSON{ibcAddr(d), o.L2[i]})
		}
		b, _ := json.Marshal(map[string]any{"liquidvesting": map[string]any{"amounts": ds},
			"forward": map[string]any{"receiver": foreign("u9"), "port": "transfer", "channel": fwdChannel}})
		return string(b)
	case "malformed":
		return `{"liquidvesting":{"amounts":"none"}}`
	case "other":
		return `{"wasm":{"contract":"x"}}`
	case "text":
		return "hello"
	}
	return ""
}

// fwdChannel is an open channel towards another chain.
const fwdChannel = "channel-99"

// openForwardChannel opens fwdChannel, so that tokens can be sent to another chain.
func (r *runner) openForwardChannel(c sdk.Context) {
	a := r.w.App
	a.IBCKeeper.ChannelKeeper.SetChannel(c, "transfer", fwdChannel, channeltypes.Channel{State: channeltypes.OPEN, Ordering: channeltypes.UNORDERED,
		Counterparty: channeltypes.NewCounterparty("transfer", "channel-98"), ConnectionHops: []string{ibcexported.LocalhostConnectionID}, Version: transfertypes.Version})
	a.IBCKeeper.ChannelKeeper.SetNextSequenceSend(c, "transfer", fwdChannel, 1)
	path := host.ChannelCapabilityPath("transfer", fwdChannel)
	k, err := a.ScopedIBCKeeper.NewCapability(c, path)
	must(err)
	must(a.ScopedTransferKeeper.ClaimCapability(c, k, path))
}

// doIBC delivers an ICS-20 packet to the application's transfer stack.
func (r *runner) doIBC(o Op) bool {
	m := r.m
	d := o.C[0]
	data := transfertypes.FungibleTokenPacketData{Denom: d.D, Amount: d.A, Sender: ibcAddr(o.S), Receiver: ibcAddr(o.U), Memo: memoOf(o)}
	packet := channeltypes.NewPacket(data.GetBytes(), 1, "transfer", ibcSrcChannel, "transfer", o.X, clienttypes.NewHeight(1, 1000000000), 0)
	rt, ok := r.w.App.IBCKeeper.PortKeeper.Router.GetRoute("transfer")
	if !ok {
		panic("no transfer route")
	}
	cc, write := r.w.ctx.CacheContext()
	if o.X2 == "forward" {
		r.openForwardChannel(cc)
	}
	success := false
	ackStr := ""
	err, pan := safely(func() error {
		ack := rt.OnRecvPacket(cc, packet, actors["relay"].Addr)
		if ack == nil { // the acknowledgement will be written later, the state is kept
			success = true
			return nil
		}
		success = ack.Success()
		ackStr = string(ack.Acknowledgement())
		return nil
	})
	if err == nil && success {
		write()
	}
	r.log("%4d %s -> %v %s %v", r.step, o, success, ackStr, err)
	r.trace = append(r.trace, "IBC")
	if pan {
		return !r.report([]disc{{"L04", fmt.Sprintf("handling an incoming transfer panicked: %v", err)}}, "")
	}
	if r.blind {
		if success {
			r.tryModel(func() {
				if _, eff := m.decideIBC(o); eff != nil {
					eff()
				}
			})
		}
		return true
	}
	why, eff := m.decideIBC(o)
	out := "rej"
	if success {
		out = "ok"
	}
	if o.X2 == "deposit" {
		r.st.ev("ibc-deposit/" + out)
	} else {
		r.st.ev("ibc-transfer/" + out)
	}
	switch {
	case why != "" && success:
		return !r.report([]disc{{"L04", "incoming transfer succeeded although: " + why}}, "")
	case why == "" && !success && o.Up:
		r.st.ev("capitals-refused")
	case why == "" && !success:
		return !r.report([]disc{{"L04", "incoming transfer failed: " + ackStr}}, "")
	case success:
		eff()
		r.relevant++
	}
	return r.settleAndCompare(&pend{pay: payouts{}}, "L04")
}

// doRefund delivers what became of a transfer sent earlier: X2 is "ack" (received), "nack" (refused by the other
// chain) or "timeout". Only the last two give the tokens back.
func (r *runner) doRefund(o Op) bool {
	m := r.m
	d := o.C[0]
	amt, ok := math.NewIntFromString(d.A)
	if !ok || !amt.IsPositive() {
		return true
	}
	data := transfertypes.FungibleTokenPacketData{Denom: d.D, Amount: d.A, Sender: addr(o.S), Receiver: foreign("u9")}
	if len(o.L) > 0 { // the memo is for the other chain
		b, _ := json.Marshal(map[string]any{"liquidvesting": map[string]any{"amounts": []depositJSON{{ibcAddr(o.L[0]), d.A}}}})
		data.Memo = string(b)
	}
	packet := channeltypes.NewPacket(data.GetBytes(), 1, "transfer", o.X, "transfer", ibcSrcChannel, clienttypes.NewHeight(1, 1000000000), 0)
	rt, _ := r.w.App.IBCKeeper.PortKeeper.Router.GetRoute("transfer")
	cc, write := r.w.ctx.CacheContext()
	err, pan := safely(func() error {
		switch o.X2 {
		case "timeout":
			return rt.OnTimeoutPacket(cc, packet, actors["relay"].Addr)
		case "nack":
			return rt.OnAcknowledgementPacket(cc, packet, channeltypes.NewErrorAcknowledgement(fmt.Errorf("refused")).Acknowledgement(), actors["relay"].Addr)
		}
		return rt.OnAcknowledgementPacket(cc, packet, channeltypes.NewResultAcknowledgement([]byte{1}).Acknowledgement(), actors["relay"].Addr)
	})
	if err == nil {
		write()
	}
	r.log("%4d %s -> %v", r.step, o, err)
	r.trace = append(r.trace, "Refund")
	if pan {
		return !r.report([]disc{{"L04", fmt.Sprintf("handling the outcome of an outgoing transfer panicked: %v", err)}}, "")
	}
	s := addr(o.S)
	got := sdk.Coins{coin(transfertypes.ParseDenomTrace(d.D).IBCDenom(), amt)}
	esc := transfertypes.GetEscrowAddress("transfer", o.X).String()
	home := transfertypes.SenderChainIsSource("transfer", o.X, d.D)
	can := o.X2 == "ack" || !home || (m.bal(esc).IsAllGTE(got) && m.sendOK(esc, s, got))
	eff := func() {
		switch {
		case o.X2 == "ack":
		case home:
			m.move(esc, s, got)
		default:
			m.add(s, got)
		}
	}
	if r.blind {
		if err == nil {
			r.tryModel(eff)
		}
		return true
	}
	out := "rej"
	if err == nil {
		out = "ok"
	}
	r.st.ev("ibc-" + o.X2 + "/" + out)
	switch {
	case !can && err == nil:
		return !r.report([]disc{{"L04", "tokens not in escrow were given back"}}, "")
	case can && err != nil:
		return !r.report([]disc{{"L04", fmt.Sprintf("the outcome of an outgoing transfer was not handled: %v", err)}}, "")
	case can:
		eff()
		r.relevant++
	}
	return r.settleAndCompare(&pend{pay: payouts{}}, "L04")
}

// decideIBC says whether an incoming transfer is to be accepted, and what it does.
func (m *Model) decideIBC(o Op) (string, func()) {
	d := o.C[0]
	amt, ok := math.NewIntFromString(d.A)
	if !ok || !amt.IsPositive() {
		return "invalid amount", nil
	}
	if blank(d.D) || o.S == "" || o.U == "" {
		return "invalid packet", nil
	}
	recv := ibcAddr(o.U)
	if _, err := sdk.AccAddressFromBech32(recv); err != nil {
		return "invalid receiver", nil
	}
	if blockedAddr(recv) {
		return "blocked receiver", nil
	}
	prefix := "transfer/" + ibcSrcChannel + "/"
	returning := strings.HasPrefix(d.D, prefix)
	got := ""
	esc := transfertypes.GetEscrowAddress("transfer", o.X).String()
	if returning {
		rest := d.D[len(prefix):]
		got = transfertypes.ParseDenomTrace(rest).IBCDenom()
		if !m.bal(esc).IsAllGTE(sdk.Coins{coin(got, amt)}) {
			return "nothing in escrow", nil
		}
		if !m.sendOK(esc, recv, sdk.Coins{coin(got, amt)}) {
			return "locked tokens or transfers between targets", nil
		}
	} else {
		got = transfertypes.ParseDenomTrace("transfer/" + o.X + "/" + d.D).IBCDenom()
	}
	var credits []struct {
		u string
		a math.Int
	}
	switch o.X2 {
	case "malformed":
		return "malformed deposit", nil
	case "forward":
		return "a deposit whose tokens leave the module", nil
	case "deposit":
		if !contains(m.lv.trustees, ibcAddr(o.S)) {
			return "sender is not a trusted delegate", nil
		}
		if !contains(m.lv.channels, o.X) {
			return "channel is not allowed", nil
		}
		if recv != lvModule {
			return "receiver is not the module", nil
		}
		tot := math.ZeroInt()
		for i, u := range o.L {
			if _, err := sdk.AccAddressFromBech32(ibcAddr(u)); err != nil {
				return "invalid depositor", nil
			}
			a, _ := math.NewIntFromString(o.L2[i])
			if a.IsNegative() {
				return "negative deposit", nil
			}
			tot = tot.Add(a)
			credits = append(credits, struct {
				u string
				a math.Int
			}{ibcAddr(u), a})
		}
		if !tot.Equal(amt) {
			return "deposits do not sum to the amount received", nil
		}
	}
	return "", func() {
		c := sdk.Coins{coin(got, amt)}
		if returning {
			m.move(esc, recv, c)
		} else {
			m.add(recv, c)
		}
		for _, x := range credits {
			if x.a.IsPositive() {
				m.setFund(x.u, m.funds[x.u].Add(coin(got, x.a)))
			}
		}
	}
}

// queryRewards asks the application's query server what a delegation could claim.
func (r *runner) queryRewards(kind int, id uint32, user string) (sdk.Coins, bool) {
	var pools rewardstypes.DecPools
	var err error
	switch kind {
	case tPool:
		resp := &rewardstypes.QueryPoolDelegationRewardsResponse{}
		err = r.w.Query(r.w.ctx, "/milkyway.rewards.v1.Query/PoolDelegationRewards", &rewardstypes.QueryPoolDelegationRewardsRequest{PoolId: id, DelegatorAddress: user}, resp)
		pools = resp.Rewards
	case tOper:
		resp := &rewardstypes.QueryOperatorDelegationRewardsResponse{}
		err = r.w.Query(r.w.ctx, "/milkyway.rewards.v1.Query/OperatorDelegationRewards", &rewardstypes.QueryOperatorDelegationRewardsRequest{OperatorId: id, DelegatorAddress: user}, resp)
		pools = resp.Rewards
	case tSvc:
		resp := &rewardstypes.QueryServiceDelegationRewardsResponse{}
		err = r.w.Query(r.w.ctx, "/milkyway.rewards.v1.Query/ServiceDelegationRewards", &rewardstypes.QueryServiceDelegationRewardsRequest{ServiceId: id, DelegatorAddress: user}, resp)
		pools = resp.Rewards
	default:
		return nil, false
	}
	if err != nil {
		return nil, false
	}
	out := sdk.Coins{}
	for _, p := range pools {
		t, _ := p.DecCoins.TruncateDecimal()
		out = out.Add(t...)
	}
	return out, true
}

func (r *runner) doInvariants(o Op) bool {
	c, _ := r.w.ctx.CacheContext()
	n := 0
	err, _ := safely(func() error {
		for _, ir := range r.w.App.CrisisKeeper.Routes() {
			own := ir.ModuleName == "bank"
			for _, mn := range mwModules {
				own = own || mn == ir.ModuleName
			}
			if !own {
				continue
			}
			n++
			if msg, broken := ir.Invar(c); broken {
				return fmt.Errorf("%s/%s: %s", ir.ModuleName, ir.Route, msg)
			}
		}
		return nil
	})
	r.st.Events["invariants-evaluated"] += n
	r.st.ev("invariants-asserted")
	if err != nil {
		return !r.report([]disc{{invProps(err.Error()), "registered invariant broken: " + err.Error()}}, "")
	}
	return true
}

func invProps(s string) string { return "R01 R02 R03 R09 R10 W01" }
