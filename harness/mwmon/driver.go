package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
)

// Case is a replayable history.
type Case struct {
	Prop string `json:"property"`
	Seed int64  `json:"seed"`
	Mode string `json:"mode,omitempty"`
	I    int64  `json:"i,omitempty"`
	Ops  []Op   `json:"ops"`
	What string `json:"what,omitempty"`
}

// Violation is what a monitor reports.
type Violation struct {
	Prop  string `json:"property"`
	Step  int    `json:"step"`
	What  string `json:"what"`
	Props string `json:"props"`
	Case  Case   `json:"case"`
}

// stats is what a run observed.
type stats struct {
	Cases     int             `json:"cases"`
	Steps     int             `json:"steps"`
	Abandoned int             `json:"abandoned"`
	Relevant  int             `json:"relevant"`
	Events    map[string]int  `json:"events"`
	States    map[uint64]bool `json:"-"`
	Shapes    map[uint64]bool `json:"-"`
	Samples   []string        `json:"samples"`
	Foreign   []string        `json:"foreign"` // discrepancies that belong to other properties
}

func newStats() *stats {
	return &stats{Events: map[string]int{}, States: map[uint64]bool{}, Shapes: map[uint64]bool{}}
}

func (s *stats) ev(k string) { s.Events[k]++ }

// runner executes one case against the real application and the model.
type runner struct {
	w    *World
	m    *Model
	prop string // property to report, "" or "*" for all of them
	st   *stats
	ops  []Op
	step int

	viol *Violation
	dead bool // case abandoned

	// blind is set after a discrepancy that belongs to another property: from then on the model only guides the
	// workload, and the observations that need no model go on (blocks, panics, registered invariants)
	blind     bool
	foreign   string // the discrepancy of another property
	foreignAt int

	origApp, curHome string
	relevant         int
	trace            []string
	extraWorlds      []*World
	baseWorld        *World
	verbose          bool
}

func newRunner(w *World, prop string, st *stats) *runner {
	w.Fork()
	r := &runner{w: w, prop: prop, st: st, baseWorld: w}
	bank := readBank(w)
	r.m = newModel(bank, 1, w.ctx.BlockTime())
	last, err := w.App.RewardsKeeper.GetLastRewardsAllocationTime(w.ctx)
	must(err)
	r.m.last = last
	return r
}

func (r *runner) close() {
	for _, x := range r.extraWorlds {
		x.Close()
	}
}

func has(props, p string) bool {
	for _, x := range strings.Fields(props) {
		if x == p {
			return true
		}
	}
	return false
}

// report handles discrepancies; it returns true when the case has to stop.
func (r *runner) report(ds []disc, extra string) bool {
	if len(ds) == 0 {
		return false
	}
	for _, d := range ds {
		if r.prop == "*" || r.prop == "" || has(d.props+" "+extra, r.prop) {
			var all []string
			for i, x := range ds {
				if i < 6 {
					all = append(all, fmt.Sprintf("[%s] %s", x.props, x.what))
				}
			}
			r.dead = true
			r.viol = &Violation{Prop: r.prop, Step: r.step, What: strings.Join(all, "; "), Props: d.props + " " + extra}
			return true
		}
	}
	if r.blind {
		return false
	}
	r.foreign = fmt.Sprintf("step %d op %s: [%s] %s", r.step, lastOp(r.ops), ds[0].props, ds[0].what)
	if len(r.st.Foreign) < 20 {
		r.st.Foreign = append(r.st.Foreign, r.foreign)
	}
	r.foreignAt = r.step
	r.blind = true
	r.st.ev("continued-without-model")
	return false
}

// roundTripCause decides whether a discrepancy is due to an export and import of the state: the same history
// without them has to behave.
func (r *runner) roundTripCause() {
	if r.prop != "R11" || r.viol != nil || r.foreign == "" {
		return
	}
	var ops []Op
	for _, o := range r.ops[:r.foreignAt+1] {
		if o.K != "Export" {
			ops = append(ops, o)
		}
	}
	if len(ops) == r.foreignAt+1 {
		return
	}
	x := newRunner(r.baseWorld, "*", newStats())
	defer x.close()
	x.run(ops)
	if x.viol == nil && !x.dead {
		r.dead = true
		r.viol = &Violation{Prop: r.prop, Step: r.foreignAt, What: "only after the state was exported and imported: " + r.foreign, Props: "R11"}
	}
}

// tryModel lets the model follow as well as it can while it only guides the workload.
func (r *runner) tryModel(f func()) {
	defer func() { _ = recover() }()
	f()
}

// blindMsg runs a message without judging its outcome by the model.
func (r *runner) blindMsg(o0 Op) bool {
	o := normalise(o0)
	var eff effect
	r.tryModel(func() { _, eff = r.m.decide(o) })
	res := r.w.Exec(buildMsg(o))
	r.log("%4d (blind) %s -> %v", r.step, o0, res.err)
	if res.panicked && r.report([]disc{{opProps[o.K] + " R05 R06", fmt.Sprintf("%s panicked: %v", o.K, res.err)}}, "") {
		return false
	}
	if res.err == nil && eff != nil {
		r.tryModel(func() { eff(res.res, &pend{pay: payouts{}}) })
	}
	return true
}

// blindBlock runs a block, which must not fail.
func (r *runner) blindBlock(o Op) bool {
	m := r.m
	err, pan := r.w.EndBlock()
	if err != nil {
		r.blockFailed("EndBlock", err, pan)
		return false
	}
	r.tryModel(func() { m.endBlock() })
	return r.blindBegin(o)
}

func (r *runner) blindBegin(o Op) bool {
	m := r.m
	h, t := m.h+1, m.t.Add(time.Duration(o.Dt))
	r.w.setBlock(h, t)
	r.log("%4d (blind) Block %s", r.step, time.Duration(o.Dt))
	err, pan := r.w.BeginBlock()
	if err != nil {
		r.blockFailed("BeginBlock", err, pan)
		return false
	}
	r.tryModel(func() { m.beginBlock(h, t) })
	m.h, m.t = h, t
	r.st.ev("blocks-without-model")
	return r.doInvariants(o)
}

// blockFailed reports a failure of the begin or end blocker; what was due in the block is not carried out either.
func (r *runner) blockFailed(which string, err error, pan bool) {
	m := r.m
	props := "R05"
	if which == "EndBlock" {
		for _, e := range m.ubd {
			if !e.Due.After(m.t) {
				props += " R03"
				break
			}
		}
		for _, b := range m.burns {
			if !b.Due.After(m.t) {
				props += " L03"
				break
			}
		}
	} else if len(m.plans) > 0 {
		props += " W02 W05"
	}
	for _, x := range m.opr {
		if x.Status == osInactivating && !x.Due.After(m.t) {
			props += " R08"
			break
		}
	}
	r.report([]disc{{props, fmt.Sprintf("%s failed (panic=%v): %v", which, pan, err)}}, "")
	r.dead = true
}

func lastOp(ops []Op) string {
	if len(ops) == 0 {
		return ""
	}
	return ops[len(ops)-1].String()
}

// do runs one op; it returns false when the case is over.
func (r *runner) do(o Op) (cont bool) {
	r.ops = append(r.ops, o)
	r.step = len(r.ops) - 1
	r.st.Steps++
	progTick.Add(1)
	defer func() {
		if e := recover(); e != nil {
			if r.blind {
				cont = true
				return
			}
			// a failure of the reference model itself: never reported as a violation of the application
			r.dead = true
			cont = false
			r.st.ev("harness-panic")
			if len(r.st.Foreign) < 20 {
				r.st.Foreign = append(r.st.Foreign, fmt.Sprintf("HARNESS PANIC step %d op %s: %v %s", r.step, o, e, stackTop()))
			}
		}
	}()
	if r.blind {
		switch o.K {
		case "Block":
			return r.blindBlock(o)
		case "IBC":
			return r.doIBC(o)
		case "Price":
			return r.doPrice(o)
		case "Escrow":
			return r.doEscrow(o)
		case "Refund":
			return r.doRefund(o)
		case "Invariants":
			return r.doInvariants(o)
		case "Export", "Queries", "IDs":
			return true
		}
		return r.blindMsg(o)
	}
	switch o.K {
	case "Block":
		return r.doBlock(o)
	case "Price":
		return r.doPrice(o)
	case "IBC":
		return r.doIBC(o)
	case "Escrow":
		return r.doEscrow(o)
	case "Refund":
		return r.doRefund(o)
	case "Export":
		return r.doExport(o)
	case "Queries":
		return r.doQueries(o)
	case "Invariants":
		return r.doInvariants(o)
	case "IDs":
		return r.doIDs(o)
	}
	return r.doMsg(o)
}

func (r *runner) log(f string, a ...any) {
	if r.verbose {
		fmt.Printf(f+"\n", a...)
	}
}

// normalise rewrites ops that are shorthands.
func normalise(o Op) Op {
	if o.K == "FundPlan" {
		o.K = "Send"
		o.U = planAddr(o.PID)
	}
	return o
}

func (r *runner) doMsg(o0 Op) bool {
	o := normalise(o0)
	m := r.m
	reason, eff := m.decide(o)
	// what the reward query promises just before a claim
	var promised sdk.Coins
	var havePromise bool
	if o.K == "WithdrawReward" {
		promised, havePromise = r.queryRewards(o.T, o.ID, addr(o.S))
	}
	msg := buildMsg(o)
	res := r.w.Exec(msg)
	props := opProps[o.K]
	outcome := "ok"
	if res.err != nil {
		outcome = "rej"
	}
	r.st.ev(o.K + "/" + outcome)
	if res.err != nil {
		r.trace = append(r.trace, o.K+"!")
	} else {
		r.trace = append(r.trace, o.K)
	}
	why := ""
	if reason != nil {
		why = reason.why
	}
	r.log("%4d %s -> %v (model: %s)", r.step, o0, res.err, why)
	p := &pend{pay: payouts{}}
	switch {
	case res.panicked:
		if r.report([]disc{{props + " R05 R06", fmt.Sprintf("%s panicked: %v", o.K, res.err)}}, "") {
			return false
		}
	case reason != nil && !reason.either && res.err == nil:
		pr := reason.props
		r.relevant++
		return !r.report([]disc{{pr, fmt.Sprintf("%s was accepted although: %s", o.K, reason.why)}}, "")
	case reason == nil && res.err != nil && o.Up:
		// an account spelled in capitals may be refused, as long as nothing changes
		r.st.ev("capitals-refused")
	case reason == nil && res.err != nil:
		return !r.report([]disc{{props, fmt.Sprintf("%s was rejected: %v", o.K, res.err)}}, "")
	case res.err == nil && eff != nil:
		if o.Up {
			r.st.ev("capitals-accepted")
		}
		eff(res.res, p)
		r.relevant++
	case res.err == nil && eff == nil:
		// accepted, undecided and unmodelled: the model cannot follow
		r.dead = true
		r.st.ev("unmodelled")
		return false
	}
	extra := props
	if res.err != nil {
		extra = "R06"
	} else if r.prop == "R02" || r.prop == "W01" || r.prop == "R06" {
		// do not blame these for every difference
		extra = ""
	}
	if res.err == nil && havePromise && o.K == "WithdrawReward" {
		var resp rewardstypes.MsgWithdrawDelegatorRewardResponse
		unpack(res.res, &resp, p, "W03")
		if !coinsEq(resp.Amount, promised) {
			p.d("W03", "the query promised %s but the claim paid %s", promised, resp.Amount)
		}
		r.st.ev("claims-compared-with-query")
	}
	return r.settleAndCompare(p, extra)
}

// settleAndCompare adopts the payouts within their ranges and compares the whole state.
func (r *runner) settleAndCompare(p *pend, extra string) bool {
	if r.blind {
		return true
	}
	real := readBank(r.w)
	c := &cmp{w: r.w, m: r.m}
	paid := r.adopt(p, real, c)
	for _, cp := range p.com {
		cur := dd{}
		if v, err := r.w.App.RewardsKeeper.OperatorAccumulatedCommissions.Get(r.w.ctx, cp.op); err == nil {
			cur = poolsDD(v.Commissions)
		}
		op := r.m.opr[cp.op]
		r.m.rw.reconcileCommission(cp.op, paid[r.m.payee(op.Admin)], cur, p)
	}
	c.discs = append(c.discs, p.disc...)
	c.compareBank(real, nil)
	c.supply(real)
	c.compare()
	r.state(c)
	return !r.report(c.discs, extra)
}

// adopt checks payouts and moves them in the model.
func (r *runner) adopt(p *pend, real map[string]sdk.Coins, c *cmp) map[string]map[string]*big.Int {
	out := map[string]map[string]*big.Int{}
	payees := make([]string, 0)
	for a := range p.pay {
		payees = append(payees, a)
	}
	sort.Strings(payees)
	for _, a := range payees {
		pay := p.pay[a]
		out[a] = map[string]*big.Int{}
		ds := make([]string, 0)
		for d := range pay.lo {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for _, d := range ds {
			diff := new(big.Int).Sub(real[a].AmountOf(d).BigInt(), r.m.bal(a).AmountOf(d).BigInt())
			if diff.Cmp(pay.lo[d]) < 0 || diff.Cmp(pay.hi[d]) > 0 {
				c.d("W03 W01", "%s received %s %s of rewards, want between %s and %s", who(a), diff, d, pay.lo[d], pay.hi[d])
				continue
			}
			out[a][d] = diff
			if diff.Sign() > 0 {
				cc := sdk.Coins{coin(d, intOf(diff))}
				if !r.m.bal(rewardPool).IsAllGTE(cc) {
					c.d("W01", "more was paid to %s than the rewards pool held: %s", who(a), cc)
					continue
				}
				r.m.move(rewardPool, a, cc)
				r.st.ev("payouts")
			}
		}
	}
	return out
}

func (c *cmp) supply(real map[string]sdk.Coins) {
	sum := sdk.Coins{}
	_ = sum
	tot := map[string]*big.Int{}
	for _, cs := range real {
		for _, x := range cs {
			if tot[x.Denom] == nil {
				tot[x.Denom] = new(big.Int)
			}
			tot[x.Denom].Add(tot[x.Denom], x.Amount.BigInt())
		}
	}
	c.w.App.BankKeeper.IterateTotalSupply(c.w.ctx, func(x sdk.Coin) bool {
		t := tot[x.Denom]
		if t == nil {
			t = new(big.Int)
		}
		if t.Cmp(x.Amount.BigInt()) != 0 {
			c.d("R02 L01", "supply of %s is %s but accounts hold %s", x.Denom, x.Amount, t)
		}
		delete(tot, x.Denom)
		return false
	})
	for d, t := range tot {
		if t.Sign() != 0 {
			c.d("R02 L01", "accounts hold %s %s without supply", t, d)
		}
	}
}

// state records a fingerprint of the state reached.
func (r *runner) state(c *cmp) {
	m := r.m
	h := sha256.New()
	fmt.Fprintf(h, "%d|%d|%d|%d|", len(m.ubd), len(m.burns), len(m.plans), len(m.funds))
	for _, id := range ids32(m.svc) {
		s := m.svc[id]
		fmt.Fprintf(h, "s%d:%d:%v:%d:%d:%d;", id, s.Status, s.Accredited, len(m.svcDenoms[id]), len(m.allow[id]), len(m.secs[id]))
	}
	for _, id := range ids32(m.opr) {
		fmt.Fprintf(h, "o%d:%d:%d;", id, m.opr[id].Status, len(m.joins[id]))
	}
	for _, k := range m.delKeys() {
		fmt.Fprintf(h, "d%s:%s:%s;", k.T, k.U, m.del[k])
	}
	for u := range m.prefs {
		_ = u
	}
	var b [8]byte
	copy(b[:], h.Sum(nil))
	r.st.States[binary.BigEndian.Uint64(b[:])] = true
}

func (r *runner) doBlock(o Op) bool {
	m := r.m
	r.trace = append(r.trace, "Block")
	r.log("%4d Block %s -> %s", r.step, time.Duration(o.Dt), m.t.Add(time.Duration(o.Dt)).Format(time.RFC3339))
	err, pan := r.w.EndBlock()
	if err != nil {
		r.blockFailed("EndBlock", err, pan)
		return false
	}
	paid, burned := m.endBlock()
	r.st.Events["unbondings-paid"] += paid
	r.st.Events["burns-completed"] += burned
	if paid+burned > 0 {
		r.relevant++
		p := &pend{pay: payouts{}}
		ex := "R03"
		if burned > 0 {
			ex += " L03"
		}
		if !r.settleAndCompare(p, ex) {
			return false
		}
		if r.blind {
			return r.blindBegin(o)
		}
	}
	h, t := m.h+1, m.t.Add(time.Duration(o.Dt))
	r.w.setBlock(h, t)
	err, pan = r.w.BeginBlock()
	if err != nil {
		r.blockFailed("BeginBlock", err, pan)
		return false
	}
	np, na := len(m.plans), m.rw.allocs
	m.beginBlock(h, t)
	r.st.Events["plans-ended"] += np - len(m.plans)
	r.st.Events["allocations"] += m.rw.allocs - na
	r.st.ev("blocks")
	ex := ""
	if m.rw.allocs > na || np != len(m.plans) {
		ex = "W02 W05"
	}
	r.st.Events["trust-totals-checked"] += 0
	return r.settleAndCompare(&pend{pay: payouts{}}, ex)
}

// run executes a prepared list of ops.
func (r *runner) run(ops []Op) {
	for _, o := range ops {
		if !r.do(o) {
			break
		}
	}
}

// shape fingerprints the history of a case.
func (r *runner) shape() uint64 {
	s := sha256.Sum256([]byte(strings.Join(r.trace, ",")))
	return binary.BigEndian.Uint64(s[:8])
}

func parseOps(b []byte) (Case, error) {
	var c Case
	err := json.Unmarshal(b, &c)
	return c, err
}

// doIDs moves the id counters forward, as if many objects had been created and deleted.
func (r *runner) doIDs(o Op) bool {
	m, w := r.m, r.w
	var v [4]uint64
	for i := range v {
		if i < len(o.L) {
			v[i], _ = strconv.ParseUint(o.L[i], 10, 64)
		}
	}
	if x := uint32(v[0]); x > m.nextSvc {
		must(w.App.ServicesKeeper.SetNextServiceID(w.ctx, x))
		m.nextSvc = x
	}
	if x := uint32(v[1]); x > m.nextOpr {
		must(w.App.OperatorsKeeper.SetNextOperatorID(w.ctx, x))
		m.nextOpr = x
	}
	if x := uint32(v[2]); x > m.nextPool {
		must(w.App.PoolsKeeper.SetNextPoolID(w.ctx, x))
		m.nextPool = x
	}
	if v[3] > m.nextPlan {
		must(w.App.RewardsKeeper.NextRewardsPlanID.Set(w.ctx, v[3]))
		m.nextPlan = v[3]
	}
	return true
}
