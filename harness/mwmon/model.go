package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"

	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// Tgt is a delegation target.
type Tgt struct {
	K  int
	ID uint32
}

func (t Tgt) String() string {
	return fmt.Sprintf("%s%d", []string{"?", "pool", "oper", "svc"}[t.K], t.ID)
}

// DKey identifies a delegation.
type DKey struct {
	T Tgt
	U string // bech32
}

const (
	stCreated  = 1
	stActive   = 2
	stInactive = 3

	osActive       = 1
	osInactivating = 2
	osInactive     = 3
)

type mService struct {
	ID         uint32
	Status     int
	Admin      string
	Name, Desc string
	Web, Pic   string
	Addr       string
	Accredited bool
}

type mOperator struct {
	ID       uint32
	Status   int
	Admin    string
	Moniker  string
	Web, Pic string
	Addr     string
	Due      time.Time // inactivation end
}

type mPool struct {
	ID    uint32
	Denom string
	Addr  string
}

type mUBD struct {
	T      Tgt
	U      string
	Coins  sdk.Coins
	Height int64
	Due    time.Time
}

type mPrefs struct {
	NonAcc, Acc bool
	IDs         []uint32
}

type mPlan struct {
	ID     uint64
	Desc   string
	Svc    uint32
	Amount sdk.Coins
	St, En time.Time
	W      [3]uint32
	DT     [2]int
	DWp    []DW
	DWo    []DW
}

type mBurn struct {
	U     string
	Coins sdk.Coins
	Due   time.Time
}

type idSet map[uint32]bool

// Model is the reference state the real application is compared with.
type Model struct {
	h    int64
	t    time.Time
	last *time.Time // last allocation time

	bank map[string]sdk.Coins

	svc       map[uint32]*mService
	svcDenoms map[uint32][]string
	nextSvc   uint32
	opr       map[uint32]*mOperator
	opRate    map[uint32]math.LegacyDec
	nextOpr   uint32
	pool      map[uint32]*mPool
	poolBy    map[string]uint32
	nextPool  uint32

	svcFee, oprFee, planFee sdk.Coins
	deactTime               time.Duration
	unbTime                 time.Duration
	allowed                 []string

	del   map[DKey]sdk.Coins
	ubd   []mUBD
	joins map[uint32]idSet // operator -> services
	allow map[uint32]idSet // service -> operators
	secs  map[uint32]idSet // service -> pools
	prefs map[string]mPrefs

	plans    map[uint64]*mPlan
	nextPlan uint64
	wd       map[string]string

	funds map[string]sdk.Coins
	burns []mBurn
	lv    struct {
		pct                        math.LegacyDec
		burners, minters, trustees []string
		channels                   []string
	}

	assets   map[string]mAsset
	price    map[string]math.LegacyDec // ticker -> price
	priceDec map[string]uint64

	rw *rwModel

	faults map[string]int
}

type mAsset struct {
	Ticker string
	Exp    uint32
}

var (
	lvModule   = authtypes.NewModuleAddress(lvtypes.ModuleName).String()
	distrAddr  = authtypes.NewModuleAddress(distrtypes.ModuleName).String()
	rewardPool = authtypes.NewModuleAddress(rewardstypes.RewardsPoolName).String()
)

func initModuleAddrs() {
	lvModule = authtypes.NewModuleAddress(lvtypes.ModuleName).String()
	distrAddr = authtypes.NewModuleAddress(distrtypes.ModuleName).String()
	rewardPool = authtypes.NewModuleAddress(rewardstypes.RewardsPoolName).String()
	nameOf[lvModule] = "lvmod"
	nameOf[distrAddr] = "community"
	nameOf[rewardPool] = "rewardpool"
}

func newModel(bank map[string]sdk.Coins, h int64, t time.Time) *Model {
	m := &Model{
		h: h, t: t, bank: bank,
		svc: map[uint32]*mService{}, svcDenoms: map[uint32][]string{}, nextSvc: 1,
		opr: map[uint32]*mOperator{}, opRate: map[uint32]math.LegacyDec{}, nextOpr: 1,
		pool: map[uint32]*mPool{}, poolBy: map[string]uint32{}, nextPool: 1,
		svcFee: sdk.Coins{}, oprFee: sdk.Coins{}, planFee: sdk.Coins{},
		deactTime: 3 * 24 * time.Hour, unbTime: 3 * 24 * time.Hour,
		del: map[DKey]sdk.Coins{}, joins: map[uint32]idSet{}, allow: map[uint32]idSet{}, secs: map[uint32]idSet{},
		prefs: map[string]mPrefs{}, plans: map[uint64]*mPlan{}, nextPlan: 1, wd: map[string]string{},
		funds: map[string]sdk.Coins{}, assets: map[string]mAsset{}, price: map[string]math.LegacyDec{}, priceDec: map[string]uint64{},
	}
	m.lv.pct = math.LegacyNewDec(2)
	m.rw = newRwModel(m)
	return m
}

// ---------------------------------------------------------------- helpers

func coin(d string, a math.Int) sdk.Coin { return sdk.Coin{Denom: d, Amount: a} }

func (m *Model) bal(a string) sdk.Coins { return m.bank[a] }

func (m *Model) add(a string, c sdk.Coins) {
	if len(c) == 0 {
		return
	}
	m.bank[a] = m.bank[a].Add(c...)
}

func (m *Model) sub(a string, c sdk.Coins) {
	if len(c) == 0 {
		return
	}
	r, neg := m.bank[a].SafeSub(c...)
	if neg {
		panic(fmt.Sprintf("model: negative balance of %s: %s - %s", who(a), m.bank[a], c))
	}
	if r.Empty() {
		delete(m.bank, a)
	} else {
		m.bank[a] = r
	}
}

func (m *Model) move(from, to string, c sdk.Coins) {
	m.sub(from, c)
	m.add(to, c)
}

func who(a string) string {
	if n, ok := nameOf[a]; ok {
		return n
	}
	return a
}

func svcAddr(id uint32) string  { return servicestypes.GetServiceAddress(id).String() }
func oprAddr(id uint32) string  { return operatorstypes.GetOperatorAddress(id).String() }
func poolAddr(id uint32) string { return poolstypes.GetPoolAddress(id).String() }
func planAddr(id uint64) string { return rewardstypes.GetRewardsPoolAddress(id).String() }

func (m *Model) tgtAddr(t Tgt) string {
	switch t.K {
	case tPool:
		return poolAddr(t.ID)
	case tOper:
		return oprAddr(t.ID)
	}
	return svcAddr(t.ID)
}

func (m *Model) isTarget(a string) bool {
	for _, p := range m.pool {
		if p.Addr == a {
			return true
		}
	}
	for _, p := range m.svc {
		if p.Addr == a {
			return true
		}
	}
	for _, p := range m.opr {
		if p.Addr == a {
			return true
		}
	}
	return false
}

func (m *Model) exists(t Tgt) bool {
	switch t.K {
	case tPool:
		return m.pool[t.ID] != nil
	case tOper:
		return m.opr[t.ID] != nil
	case tSvc:
		return m.svc[t.ID] != nil
	}
	return false
}

// tokens is the sum of all delegations to t.
func (m *Model) tokens(t Tgt) sdk.Coins {
	out := sdk.Coins{}
	for k, c := range m.del {
		if k.T == t {
			out = out.Add(c...)
		}
	}
	return out
}

func (m *Model) delKeys() []DKey {
	ks := make([]DKey, 0, len(m.del))
	for k := range m.del {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if a.T.K != b.T.K {
			return a.T.K < b.T.K
		}
		if a.T.ID != b.T.ID {
			return a.T.ID < b.T.ID
		}
		return a.U < b.U
	})
	return ks
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func isLocked(d string) bool { return strings.HasPrefix(d, "locked/") }

func ids32[V any](m map[uint32]V) []uint32 {
	out := make([]uint32, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (m *Model) prefsOf(u string) mPrefs {
	if p, ok := m.prefs[u]; ok {
		return p
	}
	return mPrefs{NonAcc: false, Acc: true}
}

func trusts(p mPrefs, s *mService) bool {
	for _, id := range p.IDs {
		if id == s.ID {
			return true
		}
	}
	if s.Accredited {
		return p.Acc
	}
	return p.NonAcc
}

// restakable tells whether denom may be restaked when both lists (empty meaning everything) apply.
func inList(l []string, d string) bool { return len(l) == 0 || contains(l, d) }

// lockedOf returns the locked representations of u that are restaked or unbonding.
func (m *Model) lockedOf(u string) sdk.Coins {
	out := sdk.Coins{}
	for k, c := range m.del {
		if k.U == u {
			for _, x := range c {
				if isLocked(x.Denom) {
					out = out.Add(x)
				}
			}
		}
	}
	for _, e := range m.ubd {
		if e.U == u {
			for _, x := range e.Coins {
				if isLocked(x.Denom) {
					out = out.Add(x)
				}
			}
		}
	}
	return out
}

// required is the insurance a set of locked coins needs.
func (m *Model) required(locked sdk.Coins) sdk.Coins {
	out := sdk.Coins{}
	for _, x := range locked {
		// ceil(pct * amount / 100)
		num := new(big.Int).Mul(m.lv.pct.BigInt(), x.Amount.BigInt())
		den := new(big.Int).Mul(big.NewInt(100), math.LegacyOneDec().BigInt())
		q, r := new(big.Int).QuoRem(num, den, new(big.Int))
		if r.Sign() > 0 {
			q.Add(q, big.NewInt(1))
		}
		if q.Sign() > 0 {
			out = out.Add(coin(strings.TrimPrefix(x.Denom, "locked/"), math.NewIntFromBigInt(q)))
		}
	}
	return out
}

func (m *Model) covered(u string, extra sdk.Coins, fund sdk.Coins) bool {
	return fund.IsAllGTE(m.required(m.lockedOf(u).Add(extra...)))
}

// undercovered names the users whose insurance fund does not cover their restaked locked tokens, which happens when
// the percentage is raised.
func (m *Model) undercovered() (out []string) {
	for _, n := range allActorNames() {
		u := addr(n)
		if !m.funds[u].Empty() && !m.covered(u, nil, m.funds[u]) {
			out = append(out, u)
		}
	}
	return out
}

// sendOK tells whether the bank lets coins move between the two accounts.
func (m *Model) sendOK(from, to string, c sdk.Coins) bool {
	if from == lvModule || to == lvModule {
		return true
	}
	ft, tt := m.isTarget(from), m.isTarget(to)
	if ft && tt {
		return false
	}
	for _, x := range c {
		if isLocked(x.Denom) && !ft && !tt {
			return false
		}
	}
	return true
}

func clone32(m map[uint32]idSet) map[uint32]idSet {
	out := map[uint32]idSet{}
	for k, v := range m {
		s := idSet{}
		for x := range v {
			s[x] = true
		}
		out[k] = s
	}
	return out
}

func validCoins(c sdk.Coins) bool { return c.Validate() == nil }
