package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// exit codes of a worker
const (
	exitOK      = 0
	exitFail    = 1 // a violation was found, minimal case in the result file
	exitHarness = 4 // the harness is broken
	exitStuck   = 5 // one case ran for too long or took too much memory
)

const (
	caseTimeLimit = 45 * time.Second
	caseMemLimit  = 4 << 30
)

type workerResult struct {
	Evals    int
	Labels   map[string]int
	Samples  []json.RawMessage
	Failed   bool
	Error    string
	Case     json.RawMessage
	Rejected int
}

type replayFile struct {
	Property string          `json:"property"`
	Error    string          `json:"error,omitempty"`
	Note     string          `json:"note,omitempty"`
	Case     json.RawMessage `json:"case"`
}

var (
	fMode    = flag.String("mode", "check", "check | worker | replay | list")
	fID      = flag.String("id", "", "property id")
	fTier    = flag.String("tier", "quick", "quick | thorough")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fShard   = flag.Int("shard", 0, "shard number")
	fChecks  = flag.Int("checks", 0, "cases (worker)")
	fOut     = flag.String("out", "", "result file prefix (worker)")
	fFile    = flag.String("file", "", "case file (replay)")
	fDir     = flag.String("dir", "/verif", "directory of the framework")
	fJournal = flag.Bool("journal", false, "write each case before running it")
	fShards  = flag.Int("shards", 8, "number of workers")
	fBudget  = flag.Int("budget", 0, "seconds after which a worker generates no more cases (0: 400, thorough 720)")
	fScale   = flag.Float64("scale", 1, "scale of the number of cases")
)

func main() {
	testing.Init()
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	switch *fMode {
	case "list":
		ids := make([]string, 0)
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "worker":
		os.Exit(worker())
	case "replay":
		os.Exit(replay())
	case "check":
		os.Exit(check())
	default:
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(2)
	}
}

func theProp() *Prop {
	p := props[*fID]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fID)
		os.Exit(exitHarness)
	}
	return p
}

// tb implements rapid.TB without package testing's runner.
type tb struct {
	failed bool
	log    bytes.Buffer
}

type tbStop struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "prop" }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *tb) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *tb) Skip(a ...any)             { panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.failed = true; panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.failed = true; panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// ---- watchdog ----

var (
	wdStart atomic.Int64 // start of the running case in unix nanoseconds, 0 if none
	wdCase  atomic.Pointer[any]
)

func watchdog(onStuck func(c any, why string)) {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			s := wdStart.Load()
			if s == 0 {
				continue
			}
			d := time.Since(time.Unix(0, s))
			why := ""
			if d > caseTimeLimit {
				why = fmt.Sprintf("one case ran for more than %v", caseTimeLimit)
			} else if d > 3*time.Second {
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > caseMemLimit {
					why = fmt.Sprintf("one case took more than %d bytes", caseMemLimit)
				}
			}
			if why == "" {
				continue
			}
			if c := wdCase.Load(); c != nil && wdStart.Load() == s {
				onStuck(*c, why)
			}
		}
	}()
}

func guarded(p *Prop, c any, st *Stat) error {
	wdCase.Store(&c)
	wdStart.Store(time.Now().UnixNano())
	err := p.runCase(c, st)
	wdStart.Store(0)
	return err
}

// ---- worker ----

func worker() (code int) {
	p := theProp()
	st := newStat()
	var lastErr error
	var lastCase any
	shrinking := false

	write := func(r workerResult) {
		r.Evals, r.Labels, r.Samples = st.Evals, st.Labels, st.Samples
		b, _ := json.Marshal(r)
		if err := os.WriteFile(*fOut+".json", b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitHarness)
		}
		hb := make([]byte, 0, 8*len(st.Hashes))
		for h := range st.Hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		_ = os.WriteFile(*fOut+".hash", hb, 0o644)
	}
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", he, debug.Stack())
				code = exitHarness
				return
			}
			fmt.Fprintf(os.Stderr, "worker panic: %v\n%s\n", r, debug.Stack())
			code = exitHarness
		}
	}()
	watchdog(func(c any, why string) {
		b := mustJSON(c)
		rb, _ := json.Marshal(workerResult{Failed: true, Error: why, Case: b})
		_ = os.WriteFile(*fOut+".stuck", rb, 0o644)
		os.Exit(exitStuck)
	})

	n := *fChecks
	seed := *fSeed*1000003 + uint64(*fShard)*7919 + 17
	if *fTier == "thorough" {
		seed += 500009
	}
	for _, kv := range [][2]string{
		{"rapid.checks", strconv.Itoa(n)},
		{"rapid.seed", strconv.FormatUint(seed, 10)},
		{"rapid.nofailfile", "true"},
		{"rapid.shrinktime", "20s"},
	} {
		if err := flag.Set(kv[0], kv[1]); err != nil {
			harnessBug("%v", err)
		}
	}
	var journal *os.File
	if *fJournal || p.Race {
		f, err := os.Create(*fOut + ".journal")
		if err != nil {
			harnessBug("%v", err)
		}
		journal = f
	}

	t := &tb{}
	var harnessPanic any
	began, soft := time.Now(), time.Duration(*fBudget)*time.Second
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if harnessPanic != nil || !shrinking && time.Since(began) > soft {
				return
			}
			c := p.gen(rt)
			if journal != nil {
				b := mustJSON(c)
				_ = journal.Truncate(0)
				_, _ = journal.WriteAt(b, 0)
			}
			st.nontrivial = false
			var err error
			func() {
				defer func() {
					harnessPanic = recover() // only a harnessError gets here
				}()
				err = guarded(p, c, st)
			}()
			if harnessPanic != nil {
				return
			}
			if !shrinking {
				st.record(c)
			}
			if err != nil {
				lastErr, lastCase, shrinking = errors.New(tail(err.Error(), 6000)), c, true
				rt.Fatalf("property falsified")
			}
		})
	}()
	if harnessPanic != nil {
		fmt.Fprintf(os.Stderr, "%v\n", harnessPanic)
		return exitHarness
	}
	if lastErr != nil {
		write(workerResult{Failed: true, Error: lastErr.Error(), Case: mustJSON(lastCase)})
		return exitFail
	}
	if t.failed {
		fmt.Fprintf(os.Stderr, "rapid: %s\n", t.log.String())
		return exitHarness
	}
	write(workerResult{})
	return exitOK
}

// ---- replay ----

func replay() (code int) {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	p := props[rf.Property]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", rf.Property)
		return exitHarness
	}
	c, err := p.decode(rf.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "%v\n", r)
			code = exitHarness
		}
	}()
	watchdog(func(c any, why string) {
		fmt.Println(why)
		os.Exit(exitStuck)
	})
	runs := 1
	if p.Race {
		runs = 200
	}
	for i := 0; i < runs; i++ {
		if err := guarded(p, c, newStat()); err != nil {
			fmt.Println(err)
			return exitFail
		}
	}
	return exitOK
}

// ---- check (parent) ----

type violation struct {
	err  string
	kase json.RawMessage
}

func self(args ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	return cmd
}

type runOutcome struct {
	code   int
	out    string
	timed  bool
	killed bool
}

func runCmd(cmd *exec.Cmd, limit time.Duration, kill <-chan struct{}) runOutcome {
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return runOutcome{code: 2, out: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	res := runOutcome{}
	select {
	case <-done:
	case <-time.After(limit):
		res.timed = true
		_ = cmd.Process.Kill()
		<-done
	case <-kill:
		res.killed = true
		_ = cmd.Process.Kill()
		<-done
	}
	res.code = cmd.ProcessState.ExitCode()
	res.out = out.String()
	return res
}

// crashed tells whether a worker died from the Go runtime (fatal error, race, ...),
// as opposed to being killed from outside.
func crashed(r runOutcome) bool {
	return !r.timed && !r.killed && (r.code == 2 || r.code == 66) &&
		(strings.Contains(r.out, "fatal error") || strings.Contains(r.out, "DATA RACE") ||
			strings.Contains(r.out, "goroutine ") || strings.Contains(r.out, "SIGSEGV")) &&
		!strings.Contains(r.out, "out of memory") && !strings.Contains(r.out, "cannot allocate")
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func runReplayFile(path string) runOutcome {
	return runCmd(self("-mode", "replay", "-file", path), 150*time.Second, nil)
}

func replayFails(r runOutcome) bool {
	return r.code == exitFail || r.code == exitStuck || crashed(r)
}

type finding struct {
	known bool
	prop  string
	file  string
	text  string
}

// readFindings reads known_findings.txt: lines of
//
//	known: property=<id> case=<file> <what fails>
//	fixed: property=<id> <commit> case=<file> <what failed>
func readFindings(dir string) (res []finding, err error) {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		kind, rest, ok := strings.Cut(line, ":")
		if !ok || (kind != "known" && kind != "fixed") {
			return nil, fmt.Errorf("known_findings.txt: bad line %q", line)
		}
		f := finding{known: kind == "known"}
		var words []string
		for _, w := range strings.Fields(rest) {
			switch {
			case strings.HasPrefix(w, "property="):
				f.prop = strings.TrimPrefix(w, "property=")
			case strings.HasPrefix(w, "case="):
				f.file = strings.TrimPrefix(w, "case=")
			default:
				words = append(words, w)
			}
		}
		f.text = strings.Join(words, " ")
		res = append(res, f)
	}
	return res, nil
}

func check() int {
	p := theProp()
	start := time.Now()
	dir := *fDir
	tmp, err := os.MkdirTemp("", "pbt-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	n, budget := p.Quick, 400 // a slow machine runs fewer cases
	if *fTier == "thorough" {
		n, budget = 60*p.Quick, 720
	}
	if *fBudget > 0 {
		n, budget = n*(1+*fBudget/budget), *fBudget
	}
	limit := time.Duration(budget+200) * time.Second
	n = int(float64(n) * *fScale)
	if n < 1 {
		n = 1
	}

	var viol *violation
	problem := ""

	// 1. saved cases: known findings, fixed findings, regressions
	findings, err := readFindings(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	knownFile := map[string]bool{}
	knownHit := 0
	for _, f := range findings {
		if f.prop != p.ID || !f.known {
			continue
		}
		path := filepath.Join(dir, f.file)
		knownFile[path] = true
		r := runReplayFile(path)
		switch {
		case replayFails(r):
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.text)
			knownHit++
		case r.code == exitOK:
			fmt.Printf("note: the known finding %s of %s does not fail any more\n", f.file, p.ID)
		case r.code == exitHarness:
			problem = fmt.Sprintf("replaying %s: exit %d\n%s", f.file, r.code, tail(r.out, 2000))
		default: // ended from outside: nothing was learnt
			fmt.Printf("KNOWN-FINDING: property=%s %s (not confirmed this time)\n", p.ID, f.text)
		}
	}
	saved, _ := filepath.Glob(filepath.Join(dir, "regress", p.ID, "*.json"))
	sort.Strings(saved)
	regress := 0
	for _, path := range saved {
		if knownFile[path] {
			continue
		}
		regress++
		r := runReplayFile(path)
		if replayFails(r) {
			var rf replayFile
			b, _ := os.ReadFile(path)
			_ = json.Unmarshal(b, &rf)
			viol = &violation{err: tail(r.out, 4000), kase: rf.Case}
			break
		}
		if r.code != exitOK {
			problem = fmt.Sprintf("replaying %s: exit %d\n%s", path, r.code, tail(r.out, 2000))
		}
	}

	// 2. generated cases
	labels := map[string]int{}
	var samples []json.RawMessage
	hashes := map[uint64]struct{}{}
	evals := 0
	if viol == nil && problem == "" {
		var mu, confirming sync.Mutex
		kill := make(chan struct{})
		var killOnce sync.Once
		var wg sync.WaitGroup
		outcomes := make([]runOutcome, *fShards)
		for i := 0; i < *fShards; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				out := filepath.Join(tmp, fmt.Sprintf("w%d", i))
				args := []string{
					"-mode", "worker", "-id", p.ID, "-seed", strconv.FormatUint(*fSeed, 10),
					"-shard", strconv.Itoa(i), "-checks", strconv.Itoa(n), "-out", out,
					"-tier", *fTier, "-budget", strconv.Itoa(budget),
				}
				r := runCmd(self(args...), limit, kill)
				if crashed(r) && !p.Race { // run again to learn on which case
					r = runCmd(self(append(args, "-journal")...), limit, kill)
				}
				outcomes[i] = r
				// a crash or a stuck case is replayed before it is believed, once for all workers
				var suspect *violation
				doubt := ""
				switch {
				case r.killed:
				case crashed(r):
					b, err := os.ReadFile(out + ".journal")
					if err != nil || len(b) == 0 || !json.Valid(b) {
						doubt = "worker crashed without a journal: " + tail(r.out, 3000)
						break
					}
					suspect = &violation{err: tail(r.out, 6000), kase: b}
					doubt = "a crash that does not reproduce: " + tail(r.out, 3000)
				case r.code == exitStuck:
					var wr workerResult
					b, _ := os.ReadFile(out + ".stuck")
					if json.Unmarshal(b, &wr) != nil {
						doubt = "stuck worker without a result"
						break
					}
					suspect = &violation{err: wr.Error, kase: wr.Case}
					doubt = "a stuck case that does not reproduce: " + wr.Error
				}
				if suspect != nil {
					confirming.Lock()
					defer confirming.Unlock()
				}
				mu.Lock()
				defer mu.Unlock()
				switch {
				case r.killed || suspect != nil && viol != nil:
				case suspect != nil:
					mu.Unlock()
					sure := true
					if p.Race && crashed(r) {
						shrinkCrash(p, tmp, suspect)
					} else {
						sure = confirm(p, tmp, i, suspect)
						if sure && crashed(r) {
							shrinkCrash(p, tmp, suspect)
						}
					}
					mu.Lock()
					if !sure {
						problem = doubt
					} else if viol == nil {
						viol = suspect
					}
				case doubt != "":
					problem = doubt
				case r.code == exitFail:
					var wr workerResult
					b, _ := os.ReadFile(out + ".json")
					if json.Unmarshal(b, &wr) != nil || !wr.Failed {
						problem = "worker failed without a result"
					} else if viol == nil {
						viol = &violation{err: wr.Error, kase: wr.Case}
					}
				case r.code == exitOK:
				default:
					problem = fmt.Sprintf("worker %d: exit %d timeout=%v\n%s", i, r.code, r.timed, tail(r.out, 3000))
				}
				if viol != nil {
					killOnce.Do(func() { close(kill) })
				}
			}(i)
		}
		wg.Wait()
		for i := range outcomes {
			out := filepath.Join(tmp, fmt.Sprintf("w%d", i))
			var wr workerResult
			b, err := os.ReadFile(out + ".json")
			if err != nil || json.Unmarshal(b, &wr) != nil {
				continue
			}
			evals += wr.Evals
			for k, v := range wr.Labels {
				labels[k] += v
			}
			if len(samples) < 6 {
				samples = append(samples, wr.Samples...)
			}
			hb, _ := os.ReadFile(out + ".hash")
			for len(hb) >= 8 {
				hashes[binary.LittleEndian.Uint64(hb)] = struct{}{}
				hb = hb[8:]
			}
		}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}

	nviol := 0
	if viol != nil {
		nviol = 1
		samples = append(samples, viol.kase)
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(hashes),
			"rule":                p.Rule,
			"samples":             samples,
			"labels":              labels,
			"saved_cases":         regress,
			"known_findings":      knownHit,
		},
		"assumptions": p.Assume,
		"wall_s":      float64(int(time.Since(start).Seconds()*100)) / 100,
		"violations":  nviol,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	if viol != nil {
		path := saveReplay(dir, p, viol)
		fmt.Println(tail(viol.err, 4000))
		fmt.Printf("case: %s\n", tail(string(viol.kase), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if problem != "" {
		fmt.Fprintln(os.Stderr, problem)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %.1f s: held\n",
		p.ID, *fTier, evals, len(hashes), time.Since(start).Seconds())
	return 0
}

func confirm(p *Prop, tmp string, i int, v *violation) bool {
	path := filepath.Join(tmp, fmt.Sprintf("confirm%d.json", i))
	b, _ := json.Marshal(replayFile{Property: p.ID, Case: v.kase})
	if os.WriteFile(path, b, 0o644) != nil {
		return false
	}
	return replayFails(runReplayFile(path))
}

// shrinkCrash takes elements out of a case as long as its replay still fails. A case
// whose failure ends the process cannot be shrunk by the generator's own means.
func shrinkCrash(p *Prop, tmp string, v *violation) {
	deadline := time.Now().Add(60 * time.Second)
	path := filepath.Join(tmp, "shrink.json")
	fails := func(c any) bool {
		kase, err := json.Marshal(c)
		if err != nil {
			return false
		}
		b, _ := json.Marshal(replayFile{Property: p.ID, Case: kase})
		if os.WriteFile(path, b, 0o644) != nil || time.Now().After(deadline) {
			return false
		}
		r := runReplayFile(path)
		if !replayFails(r) {
			return false
		}
		v.err, v.kase = tail(r.out, 6000), kase
		return true
	}
	for again := true; again && time.Now().Before(deadline); {
		again = false
		var c any
		d := json.NewDecoder(bytes.NewReader(v.kase))
		d.UseNumber()
		if d.Decode(&c) != nil {
			return
		}
		var walk func(x any, set func(any)) bool
		walk = func(x any, set func(any)) bool {
			switch x := x.(type) {
			case []any:
				for i := range x {
					l := append(append([]any{}, x[:i]...), x[i+1:]...)
					set(l)
					if fails(c) {
						return true
					}
					set(x)
				}
				for i := range x {
					if walk(x[i], func(y any) { x[i] = y }) {
						return true
					}
				}
			case map[string]any:
				keys := make([]string, 0, len(x))
				for k := range x {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					old := x[k]
					switch old.(type) {
					case []any, map[string]any:
					default:
						continue
					}
					if walk(old, func(y any) { x[k] = y }) {
						return true
					}
				}
			}
			return false
		}
		again = walk(c, func(y any) { c = y })
	}
}

func saveReplay(dir string, p *Prop, v *violation) string {
	d := filepath.Join(dir, "replays")
	_ = os.MkdirAll(d, 0o755)
	b, _ := json.MarshalIndent(replayFile{Property: p.ID, Error: tail(v.err, 4000), Case: v.kase}, "", " ")
	path := filepath.Join(d, p.ID+"-violation.json")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}
