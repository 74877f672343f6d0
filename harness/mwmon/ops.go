package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	"github.com/cosmos/gogoproto/proto"

	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

type codecMsg = proto.Message

func infiniteGas() storetypes.GasMeter { return storetypes.NewInfiniteGasMeter() }

// Target kinds, same numbering as the restaking delegation types.
const (
	tPool = 1
	tOper = 2
	tSvc  = 3
)

func delType(k int) restakingtypes.DelegationType {
	switch k {
	case tPool:
		return restakingtypes.DELEGATION_TYPE_POOL
	case tOper:
		return restakingtypes.DELEGATION_TYPE_OPERATOR
	case tSvc:
		return restakingtypes.DELEGATION_TYPE_SERVICE
	}
	return restakingtypes.DELEGATION_TYPE_UNSPECIFIED
}

func kindOf(t restakingtypes.DelegationType) int {
	switch t {
	case restakingtypes.DELEGATION_TYPE_POOL:
		return tPool
	case restakingtypes.DELEGATION_TYPE_OPERATOR:
		return tOper
	case restakingtypes.DELEGATION_TYPE_SERVICE:
		return tSvc
	}
	return 0
}

// CoinSpec is a JSON friendly list of coins. It is not normalised, so it can also express invalid coin lists.
type CoinSpec []C

// C is one coin.
type C struct {
	D string `json:"d"`
	A string `json:"a"`
}

func (c CoinSpec) coins() sdk.Coins {
	if len(c) == 0 {
		return nil
	}
	out := make(sdk.Coins, 0, len(c))
	for _, x := range c {
		a, ok := math.NewIntFromString(x.A)
		if !ok {
			a = math.ZeroInt()
		}
		out = append(out, sdk.Coin{Denom: x.D, Amount: a})
	}
	return out
}

func spec(coins sdk.Coins) CoinSpec {
	out := CoinSpec{}
	for _, c := range coins {
		out = append(out, C{c.Denom, c.Amount.String()})
	}
	return out
}

// DW is a weighted distribution entry.
type DW struct {
	ID uint32 `json:"id"`
	W  uint32 `json:"w"`
}

// Op is one step of a case; cases are replayable as JSON lists of ops.
type Op struct {
	K   string          `json:"k"`
	S   string          `json:"s,omitempty"`
	U   string          `json:"u,omitempty"`
	ID  uint32          `json:"id,omitempty"`
	ID2 uint32          `json:"id2,omitempty"`
	PID uint64          `json:"pid,omitempty"`
	T   int             `json:"t,omitempty"`
	C   CoinSpec        `json:"c,omitempty"`
	F   CoinSpec        `json:"f,omitempty"` // fee
	D   []string        `json:"dn,omitempty"`
	IDs []uint32        `json:"ids,omitempty"`
	Dt  int64           `json:"dt,omitempty"` // ns
	St  int64           `json:"st,omitempty"` // unix ns
	En  int64           `json:"en,omitempty"`
	W   []uint32        `json:"w,omitempty"`   // pools, operators, users weights
	DT  []int           `json:"dtp,omitempty"` // distribution types: 0 basic 1 weighted 2 egalitarian
	DWp []DW            `json:"dwp,omitempty"`
	DWo []DW            `json:"dwo,omitempty"`
	X   string          `json:"x,omitempty"`
	X2  string          `json:"x2,omitempty"`
	X3  string          `json:"x3,omitempty"`
	X4  string          `json:"x4,omitempty"`
	B   bool            `json:"b,omitempty"`
	B2  bool            `json:"b2,omitempty"`
	L   []string        `json:"l,omitempty"`
	L2  []string        `json:"l2,omitempty"`
	L3  []string        `json:"l3,omitempty"`
	L4  []string        `json:"l4,omitempty"`
	Raw json.RawMessage `json:"raw,omitempty"`
	Up  bool            `json:"up,omitempty"` // spell the addresses in capitals
}

func (o Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

func addrs(l []string) []string {
	out := make([]string, 0, len(l))
	for _, s := range l {
		out = append(out, addr(s))
	}
	return out
}

func ibcAddrs(l []string) []string {
	out := make([]string, 0, len(l))
	for _, s := range l {
		out = append(out, ibcAddr(s))
	}
	return out
}

func dwts(l []DW) []rewardstypes.DistributionWeight {
	out := []rewardstypes.DistributionWeight{}
	for _, d := range l {
		out = append(out, rewardstypes.NewDistributionWeight(d.ID, d.W))
	}
	return out
}

func distr(t restakingtypes.DelegationType, weight uint32, typ int, dw []DW) rewardstypes.Distribution {
	var d rewardstypes.DistributionType
	if typ >= 10 { // of another kind than it must be
		t = []restakingtypes.DelegationType{restakingtypes.DELEGATION_TYPE_UNSPECIFIED, restakingtypes.DELEGATION_TYPE_SERVICE, 3 - t}[typ%10]
		typ = 0
	}
	switch typ {
	case 1:
		d = &rewardstypes.DistributionTypeWeighted{Weights: dwts(dw)}
	case 2:
		d = &rewardstypes.DistributionTypeEgalitarian{}
	default:
		d = &rewardstypes.DistributionTypeBasic{}
	}
	any, err := codectypes.NewAnyWithValue(d)
	must(err)
	return rewardstypes.Distribution{DelegationType: t, Weight: weight, Type: any}
}

func (o Op) weight(i int) uint32 {
	if i < len(o.W) {
		return o.W[i]
	}
	return 0
}

func (o Op) dtyp(i int) int {
	if i < len(o.DT) {
		return o.DT[i]
	}
	return 0
}

func unixNs(ns int64) time.Time { return time.Unix(0, ns).UTC() }

func dec(s string) math.LegacyDec {
	d, err := math.LegacyNewDecFromStr(s)
	if err != nil {
		return math.LegacyDec{}
	}
	return d
}

func firstCoin(c sdk.Coins) sdk.Coin {
	if len(c) == 0 {
		return sdk.Coin{Denom: dAtom, Amount: math.ZeroInt()}
	}
	return c[0]
}

// buildMsg turns an op into the sdk message it stands for (nil when the op is not a message).
// buildMsg makes the message of an op.
func buildMsg(o Op) sdk.Msg {
	m := buildMsg0(o)
	if o.Up && m != nil {
		capitals(reflect.ValueOf(m))
	}
	return m
}

// capitals spells the addresses of users in a message in capitals, which denotes the same addresses.
func capitals(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			capitals(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				capitals(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			capitals(v.Index(i))
		}
	case reflect.String:
		if _, ok := nameOf[v.String()]; ok && v.CanSet() && strings.HasPrefix(v.String(), "milk1") {
			v.SetString(strings.ToUpper(v.String()))
		}
	}
}

func buildMsg0(o Op) sdk.Msg {
	s := addr(o.S)
	switch o.K {
	// --- services
	case "CreateService":
		return servicestypes.NewMsgCreateService(o.X, o.X2, o.X3, o.X4, o.F.coins(), s)
	case "UpdateService":
		return servicestypes.NewMsgUpdateService(o.ID, o.X, o.X2, o.X3, o.X4, s)
	case "ActivateService":
		return servicestypes.NewMsgActivateService(o.ID, s)
	case "DeactivateService":
		return servicestypes.NewMsgDeactivateService(o.ID, s)
	case "DeleteService":
		return servicestypes.NewMsgDeleteService(o.ID, s)
	case "TransferService":
		return servicestypes.NewMsgTransferServiceOwnership(o.ID, addr(o.U), s)
	case "SetServiceParams":
		return &servicestypes.MsgSetServiceParams{Sender: s, ServiceID: o.ID, ServiceParams: servicestypes.ServiceParams{AllowedDenoms: o.D}}
	case "ServicesParams":
		return &servicestypes.MsgUpdateParams{Authority: s, Params: servicestypes.Params{ServiceRegistrationFee: o.C.coins()}}
	case "Accredit":
		return &servicestypes.MsgAccreditService{Authority: s, ServiceID: o.ID}
	case "RevokeAccreditation":
		return &servicestypes.MsgRevokeServiceAccreditation{Authority: s, ServiceID: o.ID}
	// --- operators
	case "RegisterOperator":
		return &operatorstypes.MsgRegisterOperator{Sender: s, Moniker: o.X, Website: o.X2, PictureURL: o.X3, FeeAmount: o.F.coins()}
	case "UpdateOperator":
		return &operatorstypes.MsgUpdateOperator{Sender: s, OperatorID: o.ID, Moniker: o.X, Website: o.X2, PictureURL: o.X3}
	case "DeactivateOperator":
		return &operatorstypes.MsgDeactivateOperator{Sender: s, OperatorID: o.ID}
	case "ReactivateOperator":
		return &operatorstypes.MsgReactivateOperator{Sender: s, OperatorID: o.ID}
	case "DeleteOperator":
		return &operatorstypes.MsgDeleteOperator{Sender: s, OperatorID: o.ID}
	case "TransferOperator":
		return &operatorstypes.MsgTransferOperatorOwnership{Sender: s, OperatorID: o.ID, NewAdmin: addr(o.U)}
	case "SetOperatorParams":
		return &operatorstypes.MsgSetOperatorParams{Sender: s, OperatorID: o.ID, Params: operatorstypes.OperatorParams{CommissionRate: dec(o.X)}}
	case "OperatorsParams":
		return &operatorstypes.MsgUpdateParams{Authority: s, Params: operatorstypes.Params{OperatorRegistrationFee: o.C.coins(), DeactivationTime: time.Duration(o.Dt)}}
	// --- restaking
	case "Delegate":
		switch o.T {
		case tPool:
			return &restakingtypes.MsgDelegatePool{Delegator: s, Amount: firstCoin(o.C.coins())}
		case tOper:
			return &restakingtypes.MsgDelegateOperator{Delegator: s, OperatorID: o.ID, Amount: o.C.coins()}
		default:
			return &restakingtypes.MsgDelegateService{Delegator: s, ServiceID: o.ID, Amount: o.C.coins()}
		}
	case "Undelegate":
		switch o.T {
		case tPool:
			return &restakingtypes.MsgUndelegatePool{Delegator: s, Amount: firstCoin(o.C.coins())}
		case tOper:
			return &restakingtypes.MsgUndelegateOperator{Delegator: s, OperatorID: o.ID, Amount: o.C.coins()}
		default:
			return &restakingtypes.MsgUndelegateService{Delegator: s, ServiceID: o.ID, Amount: o.C.coins()}
		}
	case "JoinService":
		return &restakingtypes.MsgJoinService{Sender: s, OperatorID: o.ID, ServiceID: o.ID2}
	case "LeaveService":
		return &restakingtypes.MsgLeaveService{Sender: s, OperatorID: o.ID, ServiceID: o.ID2}
	case "AllowOperator":
		return &restakingtypes.MsgAddOperatorToAllowList{Sender: s, ServiceID: o.ID, OperatorID: o.ID2}
	case "DisallowOperator":
		return &restakingtypes.MsgRemoveOperatorFromAllowlist{Sender: s, ServiceID: o.ID, OperatorID: o.ID2}
	case "BorrowPool":
		return &restakingtypes.MsgBorrowPoolSecurity{Sender: s, ServiceID: o.ID, PoolID: o.ID2}
	case "CeasePool":
		return &restakingtypes.MsgCeasePoolSecurityBorrow{Sender: s, ServiceID: o.ID, PoolID: o.ID2}
	case "SetPrefs":
		return &restakingtypes.MsgSetUserPreferences{User: s, Preferences: restakingtypes.UserPreferences{
			TrustNonAccreditedServices: o.B, TrustAccreditedServices: o.B2, TrustedServicesIDs: o.IDs}}
	case "RestakingParams":
		return &restakingtypes.MsgUpdateParams{Authority: s, Params: restakingtypes.Params{UnbondingTime: time.Duration(o.Dt), AllowedDenoms: o.D}}
	// --- rewards
	case "CreatePlan":
		return &rewardstypes.MsgCreateRewardsPlan{Sender: s, Description: o.X, ServiceID: o.ID, Amount: o.C.coins(),
			StartTime: unixNs(o.St), EndTime: unixNs(o.En),
			PoolsDistribution:     distr(restakingtypes.DELEGATION_TYPE_POOL, o.weight(0), o.dtyp(0), o.DWp),
			OperatorsDistribution: distr(restakingtypes.DELEGATION_TYPE_OPERATOR, o.weight(1), o.dtyp(1), o.DWo),
			UsersDistribution:     rewardstypes.NewBasicUsersDistribution(o.weight(2)), FeeAmount: o.F.coins()}
	case "EditPlan":
		return &rewardstypes.MsgEditRewardsPlan{Sender: s, ID: o.PID, Description: o.X, Amount: o.C.coins(),
			StartTime: unixNs(o.St), EndTime: unixNs(o.En),
			PoolsDistribution:     distr(restakingtypes.DELEGATION_TYPE_POOL, o.weight(0), o.dtyp(0), o.DWp),
			OperatorsDistribution: distr(restakingtypes.DELEGATION_TYPE_OPERATOR, o.weight(1), o.dtyp(1), o.DWo),
			UsersDistribution:     rewardstypes.NewBasicUsersDistribution(o.weight(2))}
	case "SetWithdrawAddr":
		return &rewardstypes.MsgSetWithdrawAddress{Sender: s, WithdrawAddress: addr(o.U)}
	case "WithdrawReward":
		return &rewardstypes.MsgWithdrawDelegatorReward{DelegatorAddress: s, DelegationType: delType(o.T), DelegationTargetID: o.ID}
	case "WithdrawCommission":
		return &rewardstypes.MsgWithdrawOperatorCommission{Sender: s, OperatorID: o.ID}
	case "RewardsParams":
		return &rewardstypes.MsgUpdateParams{Authority: s, Params: rewardstypes.Params{RewardsPlanCreationFee: o.C.coins()}}
	// --- liquid vesting
	case "MintLocked":
		return &lvtypes.MsgMintLockedRepresentation{Sender: s, Receiver: addr(o.U), Amount: o.C.coins()}
	case "BurnLocked":
		return &lvtypes.MsgBurnLockedRepresentation{Sender: s, User: addr(o.U), Amount: o.C.coins()}
	case "WithdrawInsurance":
		return &lvtypes.MsgWithdrawInsuranceFund{Sender: s, Amount: o.C.coins()}
	case "LVParams":
		return &lvtypes.MsgUpdateParams{Authority: s, Params: lvtypes.Params{InsurancePercentage: dec(o.X), Burners: addrs(o.L),
			Minters: addrs(o.L2), TrustedDelegates: ibcAddrs(o.L3), AllowedChannels: o.L4}}
	// --- assets
	case "RegisterAsset":
		return &assetstypes.MsgRegisterAsset{Authority: s, Asset: assetstypes.Asset{Denom: o.X, Ticker: o.X2, Exponent: o.ID}}
	case "DeregisterAsset":
		return &assetstypes.MsgDeregisterAsset{Authority: s, Denom: o.X}
	// --- bank
	case "Send":
		return &banktypes.MsgSend{FromAddress: s, ToAddress: addr(o.U), Amount: o.C.coins()}
	case "ExecSend": // a transfer executed on behalf of S
		grantee := s
		if o.X != "" {
			grantee = addr(o.X)
		}
		in, err := codectypes.NewAnyWithValue(&banktypes.MsgSend{FromAddress: s, ToAddress: addr(o.U), Amount: o.C.coins()})
		must(err)
		return &authz.MsgExec{Grantee: grantee, Msgs: []*codectypes.Any{in}}
	case "FundCommunity":
		return &distrtypes.MsgFundCommunityPool{Depositor: s, Amount: o.C.coins()}
	case "MultiSend":
		var outs []banktypes.Output
		total := sdk.NewCoins()
		for _, u := range o.L {
			outs = append(outs, banktypes.Output{Address: addr(u), Coins: o.C.coins()})
			total = total.Add(o.C.coins()...)
		}
		return &banktypes.MsgMultiSend{Inputs: []banktypes.Input{{Address: s, Coins: total}}, Outputs: outs}
	}
	return nil
}

func unsupportedOp(o Op) error { return fmt.Errorf("unsupported op %s", o.K) }
