package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
)

// recordMain records a chain for another program: mwmon record -seed S -i I -out FILE
func recordMain(args []string) {
	fs := flag.NewFlagSet("record", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	i := fs.Int("i", 0, "")
	out := fs.String("out", "", "")
	must(fs.Parse(args))
	w := boot()
	defer w.Close()
	rec, res, n, r := recordChain(w, newStats(), *seed, *i, 60)
	if rec == nil {
		return
	}
	r.close()
	n.Close()
	b, err := json.Marshal(recorded{rec, res})
	must(err)
	must(os.WriteFile(*out+".tmp", b, 0o644))
	must(os.Rename(*out+".tmp", *out))
}

type recorded struct {
	Chain *chainRec  `json:"chain"`
	Res   []blockRes `json:"res"`
}

// answer is what a concurrent client was told.
type answer struct {
	path   string
	data   []byte
	height int64
	code   uint32
	value  []byte
}

// raceCase executes a recorded chain while clients query, simulate and submit transactions.
func raceCase(_ *World, st *stats, prop string, seed int64, i int) *Violation {
	id := func() Case { return Case{Prop: prop, Mode: "concurrency", Seed: seed, I: int64(i)} }
	fail := func(f string, a ...any) *Violation {
		return &Violation{Prop: prop, What: fmt.Sprintf(f, a...), Case: id()}
	}
	setProgress(id)
	runtime.GOMAXPROCS(4)
	dir, err := os.MkdirTemp("", "mwmon-race-")
	must(err)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "chain.json")
	bin := os.Getenv("MW_PLAINBIN")
	if bin == "" {
		bin = os.Args[0]
	}
	cmd := exec.Command(bin, "record", "-seed", fmt.Sprint(seed), "-i", fmt.Sprint(i), "-out", f)
	cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	_ = cmd.Run()
	b, err := os.ReadFile(f)
	if err != nil {
		st.ev("skipped-record")
		st.Abandoned++
		return nil
	}
	var rc recorded
	must(json.Unmarshal(b, &rc))
	rec, res := rc.Chain, rc.Res
	noFastNodes = true
	// the mempool does not check transactions, and clients do not simulate, while the state is written to the
	// tree at the end of a block and during the commit: the store library does not allow it
	var mempool sync.RWMutex
	held := false
	endBlockHook = func() { mempool.Lock(); held = true }
	defer func() { endBlockHook = nil }()
	n, err := startNode(dbm.NewMemDB(), rec.Genesis, time.Unix(0, rec.Start))
	if err != nil {
		return fail("the same genesis was accepted by one node and rejected by another: %v", err)
	}
	defer n.Close()
	x, err := n.play(rec.Blocks[0], false)
	must(err)
	mempool.Unlock()
	held = false
	if s := sameResult(res[0], x); s != "" {
		return fail("block 1: %s", s)
	}

	var (
		stop    atomic.Bool
		height  atomic.Int64
		at      atomic.Int64 // index of the next block
		wg      sync.WaitGroup
		mu      sync.Mutex
		answers []answer
		crash   []string
		counts  [5]atomic.Int64
	)
	height.Store(1)
	at.Store(1)
	guard := func(what string, fn func()) {
		defer func() {
			if e := recover(); e != nil {
				mu.Lock()
				crash = append(crash, fmt.Sprintf("%s: %v %s", what, e, stackTop()))
				mu.Unlock()
			}
		}()
		fn()
	}
	client := func(k int) {
		defer wg.Done()
		rnd := newRand(seed + int64(k)*7919)
		for !stop.Load() {
			if rnd.Intn(4) == 0 {
				time.Sleep(time.Duration(rnd.Intn(2000)) * time.Microsecond)
			}
			switch {
			case k < 4: // a client asking
				p, m := randomQuery(rnd)
				bz, err := n.App.AppCodec().Marshal(m)
				must(err)
				h := int64(0)
				if rnd.Intn(3) == 0 {
					h = 1 + rnd.Int63n(height.Load())
				}
				guard("query "+p, func() {
					r, err := n.App.Query(context.Background(), &abci.RequestQuery{Path: p, Data: bz, Height: h})
					if err == nil {
						counts[0].Add(1)
						mu.Lock()
						if len(answers) < 3000 {
							answers = append(answers, answer{p, bz, r.Height, r.Code, r.Value})
						}
						mu.Unlock()
					}
				})
			case k == 4: // a client simulating
				txs := rec.Blocks[min(int(at.Load())+rnd.Intn(2), len(rec.Blocks)-1)].Txs
				if len(txs) > 0 {
					mempool.RLock()
					guard("simulation", func() { _, _, _ = n.App.Simulate(txs[rnd.Intn(len(txs))]) })
					mempool.RUnlock()
					counts[1].Add(1)
				} else {
					time.Sleep(time.Millisecond)
				}
			default: // the mempool
				txs := rec.Blocks[min(int(at.Load())+rnd.Intn(2), len(rec.Blocks)-1)].Txs
				if len(txs) > 0 {
					mempool.RLock()
					guard("transaction check", func() {
						_, _ = n.App.CheckTx(&abci.RequestCheckTx{Tx: txs[rnd.Intn(len(txs))], Type: abci.CheckTxType_New})
					})
					mempool.RUnlock()
					counts[2].Add(1)
				}
				time.Sleep(time.Millisecond)
			}
		}
	}
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go client(k)
	}
	var v *Violation
	rnd := newRand(seed + 99)
	for k := 1; k < len(rec.Blocks) && v == nil; k++ {
		progTick.Add(1)
		bl := rec.Blocks[k]
		r, err := n.Finalize(bl.Txs, time.Duration(bl.Dt))
		if err != nil {
			v = fail("block %d fails while clients are active: %v", k+1, err)
			break
		}
		_, err = n.App.Commit()
		mempool.Unlock()
		held = false
		must(err)
		n.Height++
		n.Time = n.Time.Add(time.Duration(bl.Dt))
		height.Store(n.Height)
		at.Store(int64(k + 1))
		bz, err := r.Marshal()
		must(err)
		if s := sameResult(res[k], blockRes{Resp: bz, Hash: n.App.LastCommitID().Hash}); s != "" {
			v = fail("block %d gives another result while clients are active: %s", k+1, s)
		}
		st.ev("blocks-compared")
		st.Steps++
		if rnd.Intn(3) == 0 {
			time.Sleep(time.Duration(rnd.Intn(20)) * time.Millisecond)
		}
	}
	stop.Store(true)
	if held {
		mempool.Unlock()
	}
	wg.Wait()
	st.Events["queries"] += int(counts[0].Load())
	st.Events["simulations"] += int(counts[1].Load())
	st.Events["checktx"] += int(counts[2].Load())
	if v != nil {
		return v
	}
	for _, c := range crash {
		if inRepo(c) {
			return fail("a concurrent request crashed: %s", c)
		}
		st.ev("crash-outside")
	}
	// every answer must be the one the same height gives in peace
	for _, a := range answers {
		progTick.Add(1)
		if a.height == 0 || a.code != 0 {
			continue
		}
		r, err := n.App.Query(context.Background(), &abci.RequestQuery{Path: a.path, Data: a.data, Height: a.height})
		must(err)
		if r.Code != 0 || !bytes.Equal(r.Value, a.value) {
			return fail("query %s at height %d was answered %q while blocks were executed, but in peace %d %q", a.path, a.height, cut(string(a.value), 300), r.Code, cut(string(r.Value), 300))
		}
		st.ev("answers-compared")
	}
	st.Relevant++
	st.Shapes[hashStr(string(res[len(res)-1].Hash))] = true
	for _, x := range res {
		st.States[hashStr(string(x.Hash))] = true
	}
	if len(st.Samples) < 2 {
		st.Samples = append(st.Samples, fmt.Sprintf("%d blocks with %d concurrent queries, %d simulations, %d checks", len(rec.Blocks), counts[0].Load(), counts[1].Load(), counts[2].Load()))
	}
	if what := raceReports(st); what != "" {
		return fail("%s", what)
	}
	return nil
}

func inRepo(s string) bool {
	return strings.Contains(s, "/repo/x/") || strings.Contains(s, "/repo/app/") || strings.Contains(s, "/repo/ante/") || strings.Contains(s, "/repo/utils/") || strings.Contains(s, "/repo/types/")
}

var frameRe = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n      (\S+):\d+`)

// transparent are frames of plain data operations: what matters is who called them.
var transparent = []string{"runtime.", "math/big.", "cosmossdk.io/math.", "sync.", "sync/atomic.", "sort.", "slices.", "maps.", "strings.", "bytes.", "time.", "internal/", "reflect.", "encoding/", "fmt.", "crypto/", "hash/",
	"github.com/cosmos/cosmos-sdk/types.Coin", "github.com/cosmos/cosmos-sdk/types.(*Coin", "github.com/cosmos/cosmos-sdk/types.DecCoin", "github.com/cosmos/cosmos-sdk/types.(*DecCoin", "github.com/cosmos/gogoproto/", "cosmossdk.io/collections"}

// raceReports reads the reports of the race detector and returns the first one about this repository's code.
func raceReports(st *stats) string {
	log := os.Getenv("MW_RACELOG")
	if log == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", log, os.Getpid()))
	if err != nil {
		return ""
	}
	parts := strings.Split(string(b), "==================")
	seen := map[string]bool{}
	for _, p := range parts {
		if !strings.Contains(p, "WARNING: DATA RACE") {
			continue
		}
		who := ownerOf(p)
		if !seen[who] {
			seen[who] = true
			if k := "race-report-outside: " + cut(who, 160); !strings.HasPrefix(who, "repo:") && st.Events[k] == 0 {
				st.Events[k] = 1
			}
		}
		if strings.HasPrefix(who, "repo:") {
			return "data race: " + cut(p, 6000)
		}
	}
	return ""
}

// ownerOf says whose memory accesses a race report is about.
func ownerOf(p string) string {
	// the two access stacks come first; the stacks of the goroutines' creation follow
	if i := strings.Index(p, "\nGoroutine "); i >= 0 {
		p = p[:i]
	}
	var owners []string
	for _, s := range regexp.MustCompile(`(?m)^(Previous |)?(Read|Write|read|write|Atomic|atomic).*$`).Split(p, -1)[1:] {
		for _, m := range frameRe.FindAllStringSubmatch(s, -1) {
			fn, file := m[1], m[2]
			if strings.Contains(file, "/zzverif/") || strings.Contains(file, "/harness/mwmon/") {
				owners = append(owners, "harness")
				break
			}
			if repoFile(file) && !strings.HasSuffix(file, ".pb.go") {
				owners = append(owners, "repo:"+fn)
				break
			}
			skip := false
			for _, t := range transparent {
				if strings.HasPrefix(fn, t) {
					skip = true
				}
			}
			if !skip {
				owners = append(owners, fn)
				break
			}
		}
	}
	// a report is about the repository when both accesses are its own: what it hands to the database and reads
	// back is published by the store library, which is not free of races itself
	for _, o := range owners {
		if !strings.HasPrefix(o, "repo:") {
			return strings.ReplaceAll(strings.Join(owners, " / "), "repo:", "")
		}
	}
	return strings.Join(owners, " / ")
}

// fatalOwner says whose code a fatal error of the runtime is about.
func fatalOwner(o string) string {
	i := strings.Index(o, "[running]:")
	if i < 0 {
		return ""
	}
	o = o[i:]
	if j := strings.Index(o, "\n\n"); j >= 0 {
		o = o[:j]
	}
	for _, m := range regexp.MustCompile(`(?m)^(\S+)\(.*\)\n\t(\S+):\d+`).FindAllStringSubmatch(o, -1) {
		fn, file := m[1], m[2]
		if repoFile(file) && !strings.Contains(file, "/zzverif/") {
			return "repo:" + fn
		}
		skip := false
		for _, t := range transparent {
			if strings.HasPrefix(fn, t) {
				skip = true
			}
		}
		if !skip {
			return fn
		}
	}
	return ""
}

func repoFile(f string) bool {
	root := os.Getenv("MW_REPO")
	if root == "" {
		root = "/repo"
	}
	return strings.HasPrefix(f, root+"/")
}

func raceEngine(quick, thorough int) engine {
	return engine{name: "concurrency", quick: quick, thorough: thorough, run: raceCase,
		rule: "a case is a recorded chain executed under the race detector while four querying clients (all query methods, latest and past heights), a simulating client and the mempool are active; results are compared with the undisturbed execution and every answer with the one given in peace; it is non-trivial when blocks were compared, and distinct when its final state hash is new"}
}
