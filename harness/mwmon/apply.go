package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"

	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

var _ = poolstypes.ModuleName

// rej is the reason for which the specification refuses an operation.
type rej struct {
	props  string
	why    string
	either bool // the specification does not decide
}

func rj(props, why string, args ...any) *rej {
	return &rej{props: props, why: fmt.Sprintf(why, args...)}
}

// opProps lists, for every kind of operation, the properties that say when it has to be accepted and what it does.
var opProps = map[string]string{
	"CreateService": "R07", "UpdateService": "R07 R01", "ActivateService": "R07", "DeactivateService": "R07", "DeleteService": "R07 R10",
	"TransferService": "R07 R06", "SetServiceParams": "R07 R04", "ServicesParams": "R07 R06", "Accredit": "R07 W04", "RevokeAccreditation": "R07 W04",
	"RegisterOperator": "R08", "UpdateOperator": "R08 R01", "DeactivateOperator": "R08", "ReactivateOperator": "R08", "DeleteOperator": "R08 R10",
	"TransferOperator": "R08 R06", "SetOperatorParams": "R08", "OperatorsParams": "R08 R06",
	"Delegate": "R04 R01 R02 L02", "Undelegate": "R04 R03 R01", "JoinService": "R09", "LeaveService": "R09", "AllowOperator": "R09",
	"DisallowOperator": "R09", "BorrowPool": "R09", "CeasePool": "R09", "SetPrefs": "W04", "RestakingParams": "R04 R06",
	"CreatePlan": "W05", "EditPlan": "W05", "SetWithdrawAddr": "W03", "WithdrawReward": "W03", "WithdrawCommission": "W03", "RewardsParams": "W05 R06",
	"MintLocked": "L01", "BurnLocked": "L01 L03", "WithdrawInsurance": "L02", "LVParams": "L01 L02 R06",
	"RegisterAsset": "A01", "DeregisterAsset": "A01", "Send": "L01 R02", "ExecSend": "L01 R02", "FundCommunity": "L01 R02", "MultiSend": "L01 R02",
}

// pend collects what the application of an operation produces besides model updates.
type pend struct {
	pay   payouts
	why   map[string]string // payee -> reason of the payment
	com   []comPay          // commission withdrawals to reconcile
	disc  []disc
	props string
}

type comPay struct{ op uint32 }

// disc is a difference between the application and the specification.
type disc struct {
	props string
	what  string
}

func (p *pend) d(props, f string, a ...any) {
	p.disc = append(p.disc, disc{props, fmt.Sprintf(f, a...)})
}

type effect func(res *sdk.Result, p *pend)

func badAddr(s string) bool {
	_, err := sdk.AccAddressFromBech32(addr(s))
	return err != nil
}

func blank(s string) bool { return strings.TrimSpace(s) == "" }

const dnm = "[do-not-modify]"

// charge checks a creation fee.
func (m *Model) charge(sender string, configured, offered sdk.Coins, prop string) (*rej, func()) {
	if configured.IsZero() {
		return nil, func() {}
	}
	if !offered.IsAnyGTE(configured) {
		return rj(prop+" R06", "fee %s is below %s", offered, configured), nil
	}
	if !m.bal(sender).IsAllGTE(offered) {
		return rj(prop+" R02", "fee payer lacks funds"), nil
	}
	if !m.sendOK(sender, distrAddr, offered) {
		return rj("L01", "fee in locked tokens"), nil
	}
	return nil, func() { m.move(sender, distrAddr, offered) }
}

func noop(*sdk.Result, *pend) {}

// authority checks for governance messages.
func authOnly(o Op) *rej {
	if addr(o.S) != govAddr {
		return rj("R06", "only the authority may do this")
	}
	return nil
}

// decide tells whether the specification accepts op in the current state and, if so, what it does.
func (m *Model) decide(o Op) (*rej, effect) {
	s := addr(o.S)
	switch o.K {
	case "ServicesParams", "Accredit", "RevokeAccreditation", "OperatorsParams", "RestakingParams", "RewardsParams", "LVParams", "RegisterAsset", "DeregisterAsset":
		if r := authOnly(o); r != nil {
			return r, nil
		}
	default:
		if badAddr(o.S) {
			return rj("R06", "invalid sender"), nil
		}
	}
	switch o.K {
	case "CreateService":
		if blank(o.X) || o.X == dnm || o.X2 == dnm || o.X3 == dnm || o.X4 == dnm {
			return rj("R07", "invalid name or description"), nil
		}
		fee := o.F.coins()
		if !validCoins(fee) {
			return rj("R07", "invalid fee"), nil
		}
		r, pay := m.charge(s, m.svcFee, fee, "R07")
		if r != nil {
			return r, nil
		}
		return nil, func(res *sdk.Result, p *pend) {
			pay()
			id := m.nextSvc
			m.nextSvc++
			sv := &mService{ID: id, Status: stCreated, Admin: s, Name: o.X, Desc: o.X2, Web: o.X3, Pic: o.X4, Addr: svcAddr(id)}
			m.svc[id] = sv
			var resp servicestypes.MsgCreateServiceResponse
			unpack(res, &resp, p, "R07")
			if resp.NewServiceID != id {
				p.d("R07", "created service got id %d, want %d", resp.NewServiceID, id)
			}
			m.settleTrustChange(p, func(u string) bool { return trusts(m.prefsOf(u), sv) })
		}
	case "UpdateService":
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if o.X != dnm && blank(o.X) {
			return rj("R07", "blank name"), nil
		}
		return nil, func(*sdk.Result, *pend) {
			if o.X != dnm {
				sv.Name = o.X
			}
			if o.X2 != dnm {
				sv.Desc = o.X2
			}
			if o.X3 != dnm {
				sv.Web = o.X3
			}
			if o.X4 != dnm {
				sv.Pic = o.X4
			}
		}
	case "ActivateService":
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if sv.Status == stActive {
			return rj("R07", "already active"), nil
		}
		return nil, func(*sdk.Result, *pend) { sv.Status = stActive }
	case "DeactivateService":
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if sv.Status != stActive {
			return rj("R07", "not active"), nil
		}
		return nil, func(*sdk.Result, *pend) { sv.Status = stInactive }
	case "DeleteService":
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if sv.Status == stActive {
			return rj("R07", "an active service cannot be deleted"), nil
		}
		if m.hasStake(Tgt{tSvc, o.ID}) {
			return rj("R10 R02 R03", "a service with delegations or unbonding delegations cannot be deleted"), nil
		}
		return nil, func(_ *sdk.Result, p *pend) {
			m.settleTrustChange(p, func(u string) bool { return trusts(m.prefsOf(u), sv) })
			for _, id := range sortedPlanIDs(m.plans) {
				if m.plans[id].Svc == o.ID {
					m.endPlan(id)
				}
			}
			delete(m.svc, o.ID)
			delete(m.svcDenoms, o.ID)
			delete(m.allow, o.ID)
			delete(m.secs, o.ID)
			for _, j := range m.joins {
				delete(j, o.ID)
			}
			m.rw.dropTarget(Tgt{tSvc, o.ID}, p.pay)
		}
	case "TransferService":
		if badAddr(o.U) {
			return rj("R07", "invalid new admin"), nil
		}
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		return nil, func(*sdk.Result, *pend) { sv.Admin = addr(o.U) }
	case "SetServiceParams":
		for _, d := range o.D {
			if sdk.ValidateDenom(d) != nil {
				return rj("R07", "invalid denom"), nil
			}
		}
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		return nil, func(*sdk.Result, *pend) { m.svcDenoms[sv.ID] = append([]string{}, o.D...) }
	case "ServicesParams":
		if !validCoins(o.C.coins()) {
			return rj("R06", "invalid params"), nil
		}
		return nil, func(*sdk.Result, *pend) { m.svcFee = o.C.coins() }
	case "Accredit", "RevokeAccreditation":
		sv := m.svc[o.ID]
		if sv == nil {
			return rj("R07", "no such service"), nil
		}
		want := o.K == "Accredit"
		if sv.Accredited == want {
			// the specification does not say whether repeating is an error
			return &rej{either: true}, noop
		}
		return nil, func(_ *sdk.Result, p *pend) {
			b := *sv
			a := *sv
			a.Accredited = want
			m.settleTrustChange(p, func(u string) bool { return trusts(m.prefsOf(u), &b) != trusts(m.prefsOf(u), &a) })
			sv.Accredited = want
		}
	// ------------------------------------------------------------------ operators
	case "RegisterOperator":
		if blank(o.X) || o.X == dnm || o.X2 == dnm || o.X3 == dnm {
			return rj("R08", "invalid moniker"), nil
		}
		fee := o.F.coins()
		if !validCoins(fee) {
			return rj("R08", "invalid fee"), nil
		}
		r, pay := m.charge(s, m.oprFee, fee, "R08")
		if r != nil {
			return r, nil
		}
		return nil, func(res *sdk.Result, p *pend) {
			pay()
			id := m.nextOpr
			m.nextOpr++
			m.opr[id] = &mOperator{ID: id, Status: osActive, Admin: s, Moniker: o.X, Web: o.X2, Pic: o.X3, Addr: oprAddr(id)}
			var resp operatorstypes.MsgRegisterOperatorResponse
			unpack(res, &resp, p, "R08")
			if resp.NewOperatorID != id {
				p.d("R08", "registered operator got id %d, want %d", resp.NewOperatorID, id)
			}
		}
	case "UpdateOperator":
		op, r := m.opAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if o.X != dnm && blank(o.X) {
			return rj("R08", "blank moniker"), nil
		}
		return nil, func(*sdk.Result, *pend) {
			if o.X != dnm {
				op.Moniker = o.X
			}
			if o.X2 != dnm {
				op.Web = o.X2
			}
			if o.X3 != dnm {
				op.Pic = o.X3
			}
		}
	case "DeactivateOperator":
		op, r := m.opAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if op.Status != osActive {
			return rj("R08", "not active"), nil
		}
		return nil, func(*sdk.Result, *pend) {
			op.Status = osInactivating
			op.Due = m.t.Add(m.deactTime)
		}
	case "ReactivateOperator":
		op, r := m.opAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if op.Status != osInactive {
			return rj("R08", "not inactive"), nil
		}
		return nil, func(*sdk.Result, *pend) { op.Status = osActive }
	case "DeleteOperator":
		op, r := m.opAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if op.Status != osInactive {
			return rj("R08", "only an inactive operator can be deleted"), nil
		}
		if m.hasStake(Tgt{tOper, o.ID}) {
			return rj("R10 R02 R03", "an operator with delegations or unbonding delegations cannot be deleted"), nil
		}
		return nil, func(_ *sdk.Result, p *pend) {
			m.rw.payCommissionOnDelete(o.ID, m.payee(op.Admin), p.pay)
			delete(m.opr, o.ID)
			delete(m.opRate, o.ID)
			delete(m.joins, o.ID)
			for sid, al := range m.allow {
				if al[o.ID] {
					delete(al, o.ID)
					if len(al) == 0 && m.svc[sid] != nil && m.svc[sid].Status == stActive {
						m.svc[sid].Status = stInactive
					}
				}
			}
			m.rw.dropTarget(Tgt{tOper, o.ID}, p.pay)
		}
	case "TransferOperator":
		if badAddr(o.U) {
			return rj("R08", "invalid new admin"), nil
		}
		op, r := m.opAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		return nil, func(*sdk.Result, *pend) { op.Admin = addr(o.U) }
	case "SetOperatorParams":
		op, r := m.opAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		rate := dec(o.X)
		if rate.IsNil() || rate.IsNegative() || rate.GT(math.LegacyOneDec()) {
			return rj("R08 W02", "commission out of range"), nil
		}
		return nil, func(*sdk.Result, *pend) { m.opRate[op.ID] = rate }
	case "OperatorsParams":
		if !validCoins(o.C.coins()) || o.Dt <= 0 {
			return rj("R06", "invalid params"), nil
		}
		return nil, func(*sdk.Result, *pend) { m.oprFee = o.C.coins(); m.deactTime = time.Duration(o.Dt) }
	// ------------------------------------------------------------------ restaking
	case "Delegate":
		return m.decideDelegate(o)
	case "Undelegate":
		return m.decideUndelegate(o)
	case "JoinService":
		op, r := m.opAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		sv := m.svc[o.ID2]
		if sv == nil {
			return rj("R09", "no such service"), nil
		}
		if sv.Status != stActive {
			return rj("R09", "service not active"), nil
		}
		if m.joins[op.ID][sv.ID] {
			return &rej{either: true}, noop
		}
		return nil, func(*sdk.Result, *pend) { addID(m.joins, op.ID, sv.ID) }
	case "LeaveService":
		op, r := m.opAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if m.svc[o.ID2] == nil {
			return rj("R09", "no such service"), nil
		}
		if !m.joins[op.ID][o.ID2] {
			return &rej{either: true}, noop
		}
		return nil, func(*sdk.Result, *pend) { delete(m.joins[op.ID], o.ID2) }
	case "AllowOperator":
		if m.opr[o.ID2] == nil {
			return rj("R09", "no such operator"), nil
		}
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if m.allow[sv.ID][o.ID2] {
			return rj("R09", "already allowed"), nil
		}
		return nil, func(*sdk.Result, *pend) { addID(m.allow, sv.ID, o.ID2) }
	case "DisallowOperator":
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if !m.allow[sv.ID][o.ID2] {
			return rj("R09", "not in the allow list"), nil
		}
		return nil, func(*sdk.Result, *pend) { delete(m.allow[sv.ID], o.ID2) }
	case "BorrowPool":
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if sv.Status != stActive {
			return rj("R09", "service not active"), nil
		}
		if m.pool[o.ID2] == nil {
			return rj("R09", "no such pool"), nil
		}
		if m.secs[sv.ID][o.ID2] {
			return rj("R09", "already borrowed"), nil
		}
		return nil, func(*sdk.Result, *pend) { addID(m.secs, sv.ID, o.ID2) }
	case "CeasePool":
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if !m.secs[sv.ID][o.ID2] {
			return rj("R09", "not borrowed"), nil
		}
		return nil, func(*sdk.Result, *pend) { delete(m.secs[sv.ID], o.ID2) }
	case "SetPrefs":
		for _, id := range o.IDs {
			if id == 0 {
				return rj("W04", "invalid service id"), nil
			}
		}
		for _, id := range o.IDs {
			if m.svc[id] == nil {
				return rj("W04 R06", "no such service"), nil
			}
		}
		return nil, func(_ *sdk.Result, p *pend) {
			old := m.prefsOf(s)
			nw := mPrefs{NonAcc: o.B, Acc: o.B2, IDs: append([]uint32{}, o.IDs...)}
			changed := false
			for _, sv := range m.svc {
				if trusts(old, sv) != trusts(nw, sv) {
					changed = true
				}
			}
			if changed {
				m.settleTrustChange(p, func(u string) bool { return u == s })
			}
			m.prefs[s] = nw
		}
	case "RestakingParams":
		if o.Dt == 0 {
			return rj("R06", "invalid params"), nil
		}
		for _, d := range o.D {
			if sdk.ValidateDenom(d) != nil {
				return rj("R06", "invalid params"), nil
			}
		}
		return nil, func(*sdk.Result, *pend) { m.unbTime = time.Duration(o.Dt); m.allowed = append([]string{}, o.D...) }
	// ------------------------------------------------------------------ rewards
	case "CreatePlan":
		sv, r := m.svcAdmin(o.ID, s)
		if r != nil {
			return r, nil
		}
		if r := m.validPlan(o); r != nil {
			return r, nil
		}
		fee := o.F.coins()
		if !validCoins(fee) {
			if m.planFee.IsZero() {
				return &rej{either: true}, nil
			}
			return rj("W05", "invalid fee"), nil
		}
		r, pay := m.charge(s, m.planFee, fee, "W05")
		if r != nil {
			return r, nil
		}
		return nil, func(res *sdk.Result, p *pend) {
			pay()
			id := m.nextPlan
			m.nextPlan++
			m.plans[id] = planOf(id, sv.ID, o)
			var resp rewardstypes.MsgCreateRewardsPlanResponse
			unpack(res, &resp, p, "W05")
			if resp.NewRewardsPlanID != id {
				p.d("W05", "created plan got id %d, want %d", resp.NewRewardsPlanID, id)
			}
		}
	case "EditPlan":
		pl := m.plans[o.PID]
		if pl == nil {
			return rj("W05", "no such plan"), nil
		}
		_, r := m.svcAdmin(pl.Svc, s)
		if r != nil {
			r.props = "W05 " + r.props
			return r, nil
		}
		if !m.t.Before(pl.En) {
			return rj("W05", "plan has ended"), nil
		}
		if r := m.validPlan(o); r != nil {
			return r, nil
		}
		return nil, func(*sdk.Result, *pend) { m.plans[o.PID] = planOf(o.PID, pl.Svc, o) }
	case "SetWithdrawAddr":
		if badAddr(o.U) {
			return rj("W03", "invalid withdraw address"), nil
		}
		if blockedAddr(addr(o.U)) {
			return rj("W03", "blocked address"), nil
		}
		return nil, func(*sdk.Result, *pend) { m.wd[s] = addr(o.U) }
	case "WithdrawReward":
		k := DKey{Tgt{o.T, o.ID}, s}
		if o.T < 1 || o.T > 3 || m.del[k] == nil {
			return rj("W03", "no delegation"), nil
		}
		return nil, func(res *sdk.Result, p *pend) {
			want := m.rw.entitled(k)
			var resp rewardstypes.MsgWithdrawDelegatorRewardResponse
			unpack(res, &resp, p, "W03")
			checkRange(p, "W03", "withdrawn amount in the response", resp.Amount, want["x"])
			m.rw.settle(k, p.pay)
		}
	case "WithdrawCommission":
		op, r := m.opAdmin(o.ID, s)
		if r != nil {
			r.props = "W03 " + r.props
			return r, nil
		}
		var why *rej
		if !m.rw.hasCommission(op.ID) {
			why = &rej{either: true, why: "nothing accrued"}
		}
		return why, func(res *sdk.Result, p *pend) {
			pp := payouts{}
			m.rw.payCommission(op.ID, "x", pp)
			var resp rewardstypes.MsgWithdrawOperatorCommissionResponse
			unpack(res, &resp, p, "W03")
			checkRange(p, "W03", "withdrawn commission in the response", resp.Amount, pp["x"])
			m.rw.payCommission(op.ID, m.payee(op.Admin), p.pay)
			p.com = append(p.com, comPay{op.ID})
		}
	case "RewardsParams":
		if !validCoins(o.C.coins()) {
			return rj("R06", "invalid params"), nil
		}
		return nil, func(*sdk.Result, *pend) { m.planFee = o.C.coins() }
	// ------------------------------------------------------------------ liquid vesting
	case "MintLocked":
		if badAddr(o.U) {
			return rj("L01", "invalid receiver"), nil
		}
		c := o.C.coins()
		if !validCoins(c) || c.IsZero() {
			return rj("L01", "invalid amount"), nil
		}
		if !contains(m.lv.minters, s) {
			return rj("L01 R06", "not a minter"), nil
		}
		for _, x := range c {
			if isLocked(x.Denom) {
				return rj("L01", "cannot lock a locked representation"), nil
			}
		}
		if blockedAddr(addr(o.U)) {
			return rj("L01", "blocked receiver"), nil
		}
		return nil, func(*sdk.Result, *pend) {
			for _, x := range c {
				m.add(addr(o.U), sdk.Coins{coin("locked/"+x.Denom, x.Amount)})
			}
		}
	case "BurnLocked":
		return m.decideBurn(o)
	case "WithdrawInsurance":
		c := o.C.coins()
		if !validCoins(c) || c.IsZero() {
			if validCoins(c) {
				return &rej{either: true}, noop
			}
			return rj("L02", "invalid amount"), nil
		}
		f := m.funds[s]
		if !f.IsAllGTE(c) {
			return rj("L02 R02", "fund is smaller"), nil
		}
		if !m.covered(s, nil, f.Sub(c...)) {
			return rj("L02", "rest would not cover the restaked locked tokens"), nil
		}
		return nil, func(*sdk.Result, *pend) {
			m.setFund(s, f.Sub(c...))
			m.move(lvModule, s, c)
		}
	case "LVParams":
		pct := dec(o.X)
		if pct.IsNil() || !pct.IsPositive() || pct.GT(math.LegacyNewDec(100)) {
			return rj("R06 L02", "invalid percentage"), nil
		}
		for _, l := range [][]string{o.L, o.L2} {
			for _, a := range l {
				if badAddr(a) {
					return rj("R06", "invalid address"), nil
				}
			}
		}
		for _, a := range o.L3 {
			if _, _, err := bech32.DecodeAndConvert(ibcAddr(a)); err != nil {
				return rj("R06", "invalid address"), nil
			}
		}
		for _, ch := range o.L4 {
			if !channeltypes.IsValidChannelID(ch) {
				return rj("R06", "invalid channel"), nil
			}
		}
		return nil, func(*sdk.Result, *pend) {
			m.lv.pct, m.lv.burners, m.lv.minters, m.lv.trustees, m.lv.channels = pct, addrs(o.L), addrs(o.L2), ibcAddrs(o.L3), append([]string{}, o.L4...)
		}
	// ------------------------------------------------------------------ assets
	case "RegisterAsset":
		if sdk.ValidateDenom(o.X) != nil || !validTicker(o.X2) {
			return rj("A01", "invalid asset"), nil
		}
		return nil, func(*sdk.Result, *pend) { m.assets[o.X] = mAsset{o.X2, o.ID} }
	case "DeregisterAsset":
		if _, ok := m.assets[o.X]; !ok {
			return rj("A01", "no such asset"), nil
		}
		return nil, func(*sdk.Result, *pend) { delete(m.assets, o.X) }
	// ------------------------------------------------------------------ bank
	case "Send", "ExecSend", "FundCommunity":
		if o.K == "FundCommunity" {
			o.U = distrAddr
		}
		c := o.C.coins()
		if !validCoins(c) || c.IsZero() || badAddr(o.U) {
			return rj("R02", "invalid send"), nil
		}
		if o.K != "FundCommunity" && blockedAddr(addr(o.U)) {
			return rj("R02", "blocked receiver"), nil
		}
		if !m.bal(s).IsAllGTE(c) {
			return rj("R02", "insufficient funds"), nil
		}
		if !m.sendOK(s, addr(o.U), c) {
			return rj("L01", "locked tokens cannot be transferred"), nil
		}
		return nil, func(*sdk.Result, *pend) { m.move(s, addr(o.U), c) }
	case "MultiSend":
		c := o.C.coins()
		if !validCoins(c) || c.IsZero() || len(o.L) == 0 {
			return rj("R02", "invalid send"), nil
		}
		tot := sdk.NewCoins()
		for _, u := range o.L {
			if badAddr(u) || blockedAddr(addr(u)) {
				return rj("R02", "invalid receiver"), nil
			}
			tot = tot.Add(c...)
			if !m.sendOK(s, addr(u), c) {
				return rj("L01", "locked tokens cannot be transferred"), nil
			}
		}
		if !m.bal(s).IsAllGTE(tot) {
			return rj("R02", "insufficient funds"), nil
		}
		return nil, func(*sdk.Result, *pend) {
			for _, u := range o.L {
				m.move(s, addr(u), c)
			}
		}
	}
	panic("decide: unsupported op " + o.K)
}

var blockedSet = map[string]bool{}

func blockedAddr(a string) bool { return blockedSet[a] }

func validTicker(t string) bool {
	if len(t) == 0 || len(t) > 10 {
		return false
	}
	for _, r := range t {
		if !(r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r >= '0' && r <= '9') {
			return false
		}
	}
	return true
}

func addID(m map[uint32]idSet, a, b uint32) {
	if m[a] == nil {
		m[a] = idSet{}
	}
	m[a][b] = true
}

func (m *Model) setFund(u string, c sdk.Coins) {
	if c.IsZero() {
		delete(m.funds, u)
	} else {
		m.funds[u] = c
	}
}

func (m *Model) svcAdmin(id uint32, s string) (*mService, *rej) {
	sv := m.svc[id]
	if sv == nil {
		return nil, rj("R07 R09", "no such service")
	}
	if sv.Admin != s {
		return nil, rj("R06", "sender is not the admin of the service")
	}
	return sv, nil
}

func (m *Model) opAdmin(id uint32, s string) (*mOperator, *rej) {
	op := m.opr[id]
	if op == nil {
		return nil, rj("R08 R09", "no such operator")
	}
	if op.Admin != s {
		return nil, rj("R06", "sender is not the admin of the operator")
	}
	return op, nil
}

// hasStake tells whether any delegation or unbonding delegation refers to the target.
func (m *Model) hasStake(t Tgt) bool {
	for k := range m.del {
		if k.T == t {
			return true
		}
	}
	for _, e := range m.ubd {
		if e.T == t {
			return true
		}
	}
	return false
}

// settleTrustChange pays the pool delegations of the users selected by f.
func (m *Model) settleTrustChange(p *pend, f func(u string) bool) {
	for _, k := range m.delKeys() {
		if k.T.K == tPool && f(k.U) {
			m.rw.settle(k, p.pay)
		}
	}
}

func (m *Model) decideDelegate(o Op) (*rej, effect) {
	s := addr(o.S)
	c := o.C.coins()
	if o.T == tPool && len(c) > 1 {
		c = c[:1]
	}
	if !validCoins(c) || c.IsZero() {
		return rj("R04", "invalid amount"), nil
	}
	var t Tgt
	newPool := false
	switch o.T {
	case tPool:
		if !inList(m.allowed, c[0].Denom) {
			return rj("R04", "denom not restakable"), nil
		}
		id, ok := m.poolBy[c[0].Denom]
		if !ok {
			id = m.nextPool
			newPool = true
		}
		t = Tgt{tPool, id}
	case tOper:
		t = Tgt{tOper, o.ID}
		op := m.opr[o.ID]
		if op == nil {
			return rj("R04", "no such operator"), nil
		}
		for _, x := range c {
			if !inList(m.allowed, x.Denom) {
				return rj("R04", "denom not restakable"), nil
			}
		}
		if op.Status != osActive {
			return rj("R04", "operator not active"), nil
		}
	case tSvc:
		t = Tgt{tSvc, o.ID}
		sv := m.svc[o.ID]
		if sv == nil {
			return rj("R04", "no such service"), nil
		}
		for _, x := range c {
			if !inList(m.allowed, x.Denom) || !inList(m.svcDenoms[o.ID], x.Denom) {
				return rj("R04", "denom not restakable for the service"), nil
			}
		}
		if sv.Status != stActive {
			return rj("R04", "service not active"), nil
		}
	}
	locked := sdk.Coins{}
	for _, x := range c {
		if isLocked(x.Denom) {
			locked = locked.Add(x)
		}
	}
	if !locked.Empty() && !m.covered(s, locked, m.funds[s]) {
		return rj("L02 R04", "insurance fund does not cover the locked tokens"), nil
	}
	if !m.bal(s).IsAllGTE(c) {
		// the rewards accrued so far are paid before the tokens are taken
		have := m.bal(s)
		if k := (DKey{t, s}); m.del[k] != nil && m.payee(s) == s {
			if x := m.rw.entitled(k)["x"]; x != nil {
				for d, hi := range x.hi {
					if hi.Sign() > 0 {
						have = have.Add(coin(d, intOf(hi)))
					}
				}
			}
		}
		if have.IsAllGTE(c) {
			return &rej{either: true}, nil
		}
		return rj("R02 R04", "insufficient balance"), nil
	}
	if m.isTarget(s) {
		return &rej{either: true}, nil
	}
	return nil, func(_ *sdk.Result, p *pend) {
		if newPool {
			m.pool[t.ID] = &mPool{ID: t.ID, Denom: c[0].Denom, Addr: poolAddr(t.ID)}
			m.poolBy[c[0].Denom] = t.ID
			m.nextPool++
		}
		k := DKey{t, s}
		if m.del[k] != nil {
			m.rw.settle(k, p.pay)
		}
		m.move(s, m.tgtAddr(t), c)
		m.del[k] = m.del[k].Add(c...)
	}
}

// unbond moves stake from a delegation to the unbonding list.
func (m *Model) unbond(k DKey, c sdk.Coins, p *pend) time.Time {
	m.rw.settle(k, p.pay)
	due := m.t.Add(m.unbTime)
	rest := m.del[k].Sub(c...)
	if rest.Empty() {
		delete(m.del, k)
	} else {
		m.del[k] = rest
	}
	m.ubd = append(m.ubd, mUBD{T: k.T, U: k.U, Coins: c, Height: m.h, Due: due})
	return due
}

func (m *Model) decideUndelegate(o Op) (*rej, effect) {
	s := addr(o.S)
	c := o.C.coins()
	if o.T == tPool && len(c) > 1 {
		c = c[:1]
	}
	if !validCoins(c) || c.IsZero() {
		return rj("R04", "invalid amount"), nil
	}
	t := Tgt{o.T, o.ID}
	if o.T == tPool {
		id, ok := m.poolBy[c[0].Denom]
		if !ok {
			return rj("R04", "no such pool"), nil
		}
		t.ID = id
	}
	if !m.exists(t) {
		return rj("R04", "no such target"), nil
	}
	k := DKey{t, s}
	if !m.del[k].IsAllGTE(c) {
		return rj("R04 R02 R01", "undelegating more than what is delegated"), nil
	}
	return nil, func(res *sdk.Result, p *pend) {
		due := m.unbond(k, c, p)
		var got time.Time
		var r restakingtypes.MsgUndelegateResponse
		unpackUndelegate(res, &r, p)
		got = r.CompletionTime
		if !got.Equal(due) {
			p.d("R03", "undelegation response says completion at %s, want %s", got, due)
		}
	}
}

func (m *Model) decideBurn(o Op) (*rej, effect) {
	s := addr(o.S)
	u := addr(o.U)
	if badAddr(o.U) {
		return rj("L01", "invalid user"), nil
	}
	c := o.C.coins()
	if !validCoins(c) || c.IsZero() {
		return rj("L01", "invalid amount"), nil
	}
	if !contains(m.lv.burners, s) {
		return rj("L01 R06", "not a burner"), nil
	}
	liquid, rest := sdk.Coins{}, sdk.Coins{}
	for _, x := range c {
		if !isLocked(x.Denom) {
			return rj("L01", "only locked tokens can be burned"), nil
		}
		b := m.bal(u).AmountOf(x.Denom)
		if b.GTE(x.Amount) {
			liquid = liquid.Add(x)
		} else {
			if b.IsPositive() {
				liquid = liquid.Add(coin(x.Denom, b))
			}
			rest = rest.Add(coin(x.Denom, x.Amount.Sub(b)))
		}
	}
	// what can be unbonded
	have := sdk.Coins{}
	for k, d := range m.del {
		if k.U == u {
			have = have.Add(d...)
		}
	}
	if !rest.Empty() && !have.IsAllGTE(rest) {
		return rj("L03 L01", "the user does not hold the amount to burn"), nil
	}
	return nil, func(_ *sdk.Result, p *pend) {
		if !rest.Empty() {
			left := rest
			// pools, then services, then operators
			keys := []DKey{}
			for _, kind := range []int{tPool, tSvc, tOper} {
				for _, k := range m.delKeys() {
					if k.U == u && k.T.K == kind {
						keys = append(keys, k)
					}
				}
			}
			for _, k := range keys {
				take := sdk.Coins{}
				for _, x := range left {
					a := m.del[k].AmountOf(x.Denom)
					if a.IsPositive() {
						take = take.Add(coin(x.Denom, math.MinInt(a, x.Amount)))
					}
				}
				if take.Empty() {
					continue
				}
				left = left.Sub(take...)
				m.unbond(k, take, p)
			}
			m.burns = append(m.burns, mBurn{U: u, Coins: rest, Due: m.t.Add(m.unbTime)})
		}
		m.sub(u, liquid)
	}
}

// validPlan checks the terms of a rewards plan.
func (m *Model) validPlan(o Op) *rej {
	if len(o.X) > 1000 {
		return rj("W05", "description too long")
	}
	if !validCoins(o.C.coins()) {
		return rj("W05", "invalid amount")
	}
	if o.En <= o.St {
		return rj("W05", "ends before it starts")
	}
	for i, l := range [][]DW{o.DWp, o.DWo} {
		if o.dtyp(i) >= 10 {
			return rj("W05", "distribution of another kind")
		}
		if o.dtyp(i) != 1 {
			continue
		}
		seen := map[uint32]bool{}
		for _, w := range l {
			if w.W == 0 || w.ID == 0 || seen[w.ID] {
				return rj("W05", "invalid weights")
			}
			seen[w.ID] = true
		}
		for _, w := range l {
			if i == 0 && m.pool[w.ID] == nil || i == 1 && m.opr[w.ID] == nil {
				return rj("W05", "weight for an unknown target")
			}
		}
	}
	return nil
}

func planOf(id uint64, svc uint32, o Op) *mPlan {
	p := &mPlan{ID: id, Desc: o.X, Svc: svc, Amount: o.C.coins(), St: unixNs(o.St), En: unixNs(o.En)}
	for i := 0; i < 3; i++ {
		p.W[i] = o.weight(i)
	}
	for i := 0; i < 2; i++ {
		p.DT[i] = o.dtyp(i)
	}
	if p.DT[0] == 1 {
		p.DWp = o.DWp
	}
	if p.DT[1] == 1 {
		p.DWo = o.DWo
	}
	return p
}

// endBlock applies what the end of block does: mature unbondings are paid, then mature burns are burned.
func (m *Model) endBlock() (paid, burned int) {
	var rest []mUBD
	for _, e := range m.ubd {
		if !e.Due.After(m.t) {
			m.move(m.tgtAddr(e.T), e.U, e.Coins)
			paid++
		} else {
			rest = append(rest, e)
		}
	}
	m.ubd = rest
	var br []mBurn
	for _, b := range m.burns {
		if !b.Due.After(m.t) {
			m.sub(b.U, b.Coins)
			burned++
		} else {
			br = append(br, b)
		}
	}
	m.burns = br
	return
}

// endPlan removes a plan and returns what is left of it.
func (m *Model) endPlan(id uint64) {
	rest := m.bal(planAddr(id))
	if !rest.Empty() {
		if m.svc[m.plans[id].Svc] != nil {
			m.move(planAddr(id), svcAddr(m.plans[id].Svc), rest)
		} else {
			m.move(planAddr(id), distrAddr, rest)
		}
	}
	delete(m.plans, id)
}

// beginBlock moves to a new block.
func (m *Model) beginBlock(h int64, t time.Time) {
	m.h, m.t = h, t
	for _, id := range sortedPlanIDs(m.plans) {
		p := m.plans[id]
		if !t.Before(p.En) {
			m.endPlan(id)
		}
	}
	m.rw.allocate(t)
	for _, id := range ids32(m.opr) {
		op := m.opr[id]
		if op.Status == osInactivating && !op.Due.After(t) {
			op.Status = osInactive
			op.Due = time.Time{}
			delete(m.opRate, id)
		}
	}
}

func sortedPlanIDs(m map[uint64]*mPlan) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// unpack decodes the response of a message.
func unpack(res *sdk.Result, into codecMsg, p *pend, prop string) {
	if res == nil || len(res.MsgResponses) == 0 {
		p.d(prop, "no response returned")
		return
	}
	if err := theCodec.Unmarshal(res.MsgResponses[0].Value, into); err != nil {
		p.d(prop, "undecodable response: %v", err)
	}
}

func unpackUndelegate(res *sdk.Result, into codecMsg, p *pend) { unpack(res, into, p, "R03") }

func checkRange(p *pend, prop, what string, got sdk.Coins, want *payout) {
	seen := map[string]bool{}
	for _, c := range got {
		seen[c.Denom] = true
		lo, hi := new(big.Int), new(big.Int)
		if want != nil && want.lo[c.Denom] != nil {
			lo, hi = want.lo[c.Denom], want.hi[c.Denom]
		}
		v := c.Amount.BigInt()
		if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
			p.d(prop, "%s is %s, want between %s and %s %s", what, c, lo, hi, c.Denom)
		}
	}
	if want != nil {
		for d, lo := range want.lo {
			if !seen[d] && lo.Sign() > 0 {
				p.d(prop, "%s has no %s, want at least %s", what, d, lo)
			}
		}
	}
}
