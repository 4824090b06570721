// Package kit is the common machinery of the checks: it drives generated cases with rapid, counts what
// was generated, shrinks and stores failures, and supervises one child process per sub-check so that a
// crash of the code under test is an observation and not the end of the check.
package kit

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Sub is one generated check. Fn is run once per case.
type Sub struct {
	Name     string
	Quick    int // cases in the quick tier
	Thorough int // cases in the thorough tier
	Shards   int // processes the cases are spread over (quick); thorough uses at least 4
	Fn       func(*C)
	// Setup runs once per child process; what it returns is closed at the end.
	Setup func() func()
	// Shrink bounds minimisation. Zero means 15 s.
	Shrink time.Duration
	// Budget bounds the wall time of a child in the quick tier (default 90 s): reaching it ends the
	// generation early, it is never a violation.
	Budget time.Duration
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Subs        []Sub
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) {
	if _, dup := registry[c.ID]; dup {
		panic("duplicate " + c.ID)
	}
	registry[c.ID] = c
}

// C is one case.
type C struct {
	*rapid.T
	st *state
}

type state struct {
	mu       sync.Mutex
	evals    int
	nt       map[uint64]struct{}
	labels   map[string]int
	samples  []string
	known    map[string]string
	cur      caseInfo
	dir      string
	lastMsg  string
	curSamp  string
	replay   bool
	knownSet map[string]bool
}

type caseInfo struct {
	Property string `json:"property"`
	Sub      string `json:"sub"`
	Seed     uint64 `json:"seed"`
	Note     string `json:"note,omitempty"`
}

// NT marks the current case as non-trivial; key identifies it for the distinct count.
func (c *C) NT(key string) {
	h := fnv.New64a()
	h.Write([]byte(c.st.cur.Sub))
	h.Write([]byte{0})
	h.Write([]byte(key))
	k := h.Sum64()
	c.st.mu.Lock()
	defer c.st.mu.Unlock()
	if _, ok := c.st.nt[k]; !ok {
		c.st.nt[k] = struct{}{}
		if len(c.st.samples) < 3 || (len(c.st.samples) < 6 && len(c.st.nt)%97 == 0) {
			if len(key) > 600 {
				key = key[:600] + "..."
			}
			c.st.samples = append(c.st.samples, c.st.cur.Sub+": "+key)
		}
	}
}

// Label counts a class of cases.
func (c *C) Label(l string) {
	c.st.mu.Lock()
	c.st.labels[c.st.cur.Sub+"/"+l]++
	c.st.mu.Unlock()
}

// Note records what is about to run, for the case that the process dies.
func (c *C) Note(format string, args ...any) {
	c.st.cur.Note = fmt.Sprintf(format, args...)
	c.st.journal()
}

// Failf reports a violation of the property by the current case.
func (c *C) Failf(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	c.st.mu.Lock()
	c.st.lastMsg = msg
	c.st.mu.Unlock()
	c.T.Logf("violation: %s", msg)
	c.T.Fatalf("property violated") // a constant text: rapid compares failures by it while shrinking
}

// Hardf reports a violation that must not be re-run for shrinking (a hang, a lost race): the child ends.
func (c *C) Hardf(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	c.st.finish("violation", msg, nil)
	os.Exit(10)
}

// Known reports a failure that is listed as a known finding under key; it returns true if it is listed.
func (c *C) Known(key, what string) bool {
	if !c.st.knownSet[c.st.cur.Property+"/"+key] {
		return false
	}
	c.st.mu.Lock()
	c.st.known[key] = what
	c.st.mu.Unlock()
	return true
}

// Infra ends the child with an error that is not a verdict about the property.
func Infra(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "INFRASTRUCTURE: "+format+"\n", args...)
	os.Exit(3)
}

// Within runs f and reports whether it returned in time.
func Within(d time.Duration, f func()) bool {
	done := make(chan any, 1)
	go func() {
		defer func() {
			p := recover()
			if p != nil && !strings.HasPrefix(fmt.Sprintf("%T", p), "rapid.") {
				panic(p)
			}
			done <- p
		}()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			panic(p) // what ends a case ends it in its own goroutine
		}
		return true
	case <-time.After(d):
		return false
	}
}

// Panics runs f and returns the recovered panic with its stack, or "".
func Panics(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v\n%s", p, trim(string(debug.Stack()), 3000))
		}
	}()
	f()
	return ""
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (s *state) journal() {
	b, _ := json.Marshal(s.cur)
	os.WriteFile(filepath.Join(s.dir, "journal.json"), b, 0o644)
}

type childResult struct {
	Outcome string            `json:"outcome"` // ok, violation
	Message string            `json:"message,omitempty"`
	Case    caseInfo          `json:"case"`
	Fail    []byte            `json:"fail,omitempty"`
	Evals   int               `json:"evals"`
	NT      []uint64          `json:"nt"`
	Labels  map[string]int    `json:"labels"`
	Samples []string          `json:"samples"`
	Known   map[string]string `json:"known"`
}

func (s *state) finish(outcome, msg string, fail []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := childResult{Outcome: outcome, Message: msg, Case: s.cur, Fail: fail, Evals: s.evals, Labels: s.labels, Samples: s.samples, Known: s.known}
	for k := range s.nt {
		r.NT = append(r.NT, k)
	}
	b, err := json.Marshal(r)
	if err != nil {
		Infra("result: %v", err)
	}
	if err := os.WriteFile(filepath.Join(s.dir, "result.json"), b, 0o644); err != nil {
		Infra("result: %v", err)
	}
}

// tb satisfies rapid.TB outside "go test".
type tb struct {
	name   string
	failed bool
	log    bytes.Buffer
	mu     sync.Mutex
}

type tbStop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) Logf(f string, a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.log.Len() < 1<<20 {
		fmt.Fprintf(&t.log, f+"\n", a...)
	}
}
func (t *tb) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); panic(tbStop{}) }
func (t *tb) Skip(a ...any)             { panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func seedFor(base uint64, sub string, shard, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%d|%d", base, sub, shard, i)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

func runOne(st *state, sub *Sub, seed uint64, failfile string) (t *tb) {
	t = &tb{name: st.cur.Property + "_" + st.cur.Sub}
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.failfile", failfile)
	st.cur.Seed = seed
	st.cur.Note = ""
	st.lastMsg = ""
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(tbStop); !ok {
				panic(p)
			}
		}
	}()
	rapid.Check(t, func(rt *rapid.T) { sub.Fn(&C{rt, st}) })
	return t
}

func childMain(id, subName, tier string, base uint64, shard, cases int, dir string, replaySeed uint64, failfile string, budget time.Duration) {
	chk, ok := registry[id]
	if !ok {
		Infra("no check %s", id)
	}
	var sub *Sub
	for i := range chk.Subs {
		if chk.Subs[i].Name == subName {
			sub = &chk.Subs[i]
		}
	}
	if sub == nil {
		Infra("no sub %s", subName)
	}
	st := &state{nt: map[uint64]struct{}{}, labels: map[string]int{}, known: map[string]string{}, dir: dir, knownSet: loadKnown()}
	st.cur = caseInfo{Property: id, Sub: subName}
	if err := os.Chdir(dir); err != nil { // rapid writes and looks for testdata/rapid here
		Infra("%v", err)
	}
	sh := sub.Shrink
	if sh == 0 {
		sh = 15 * time.Second
	}
	flag.Set("rapid.checks", "1")
	flag.Set("rapid.shrinktime", sh.String())
	if sub.Setup != nil {
		st.journal()
		done := sub.Setup()
		if done != nil {
			defer done()
		}
	}
	start := time.Now()
	one := func(seed uint64, ff string) bool {
		st.cur.Seed = seed
		t := runOne(st, sub, seed, ff)
		st.evals++
		if !t.failed {
			return true
		}
		log := t.log.String()
		if strings.Contains(log, "[rapid] only generated") {
			Infra("generator produced no valid case: %s", trim(log, 2000))
		}
		if strings.Contains(log, "[rapid] panic after") || (strings.Contains(log, "Traceback") && st.lastMsg == "") {
			if !strings.Contains(log, "awcullen/opcua") && !strings.Contains(log, "/repo/") {
				Infra("the harness panicked: %s", trim(log, 6000))
			}
		}
		var fail []byte
		if m, _ := filepath.Glob("testdata/rapid/*/*.fail"); len(m) > 0 {
			sort.Strings(m)
			fail, _ = os.ReadFile(m[len(m)-1])
		}
		msg := st.lastMsg
		if msg == "" {
			msg = trim(log, 4000)
		}
		fmt.Fprintln(os.Stderr, trim(log, 8000))
		st.finish("violation", msg+"\n--- log\n"+trim(log, 20000), fail)
		return false
	}
	if replaySeed != 0 || failfile != "" {
		st.replay = true
		if replaySeed == 0 {
			replaySeed = 1
		}
		if !one(replaySeed, failfile) {
			os.Exit(10)
		}
		st.finish("ok", "", nil)
		return
	}
	lastJournal := time.Time{}
	for i := 0; i < cases; i++ {
		if time.Since(start) > budget {
			break
		}
		seed := seedFor(base, subName, shard, i)
		st.cur.Seed = seed
		st.cur.Note = ""
		if time.Since(lastJournal) > 0 && (cases < 5000 || i%64 == 0) {
			st.journal()
			lastJournal = time.Now()
		}
		if !one(seed, "") {
			os.Exit(10)
		}
	}
	if st.evals == 0 {
		Infra("no case ran")
	}
	st.finish("ok", "", nil)
}

// VerifDir is the root of the framework.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type knownFile struct {
	Known []knownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

func loadKnown() map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.json"))
	if err != nil {
		return m
	}
	var f knownFile
	if err := json.Unmarshal(b, &f); err != nil {
		Infra("known_findings.json: %v", err)
	}
	for _, k := range f.Known {
		m[k.Property+"/"+k.Key] = true
	}
	return m
}

type job struct {
	sub   *Sub
	shard int
	cases int
}

var goPanic = regexp.MustCompile(`(?m)^(panic: |fatal error: |unexpected fault address|SIGSEGV|runtime: goroutine stack exceeds)`)

// crashed decides whether the stderr of a dead child shows a crash inside the code under test.
func crashed(stderr string) (bool, string) {
	loc := goPanic.FindStringIndex(stderr)
	if loc == nil {
		return false, ""
	}
	tail := stderr[loc[0]:]
	if strings.Contains(tail[:min(len(tail), 300)], "out of memory") || strings.Contains(tail[:min(len(tail), 300)], "all goroutines are asleep") {
		return false, ""
	}
	// only the goroutine that died counts
	body := tail
	if strings.Contains(tail[:min(len(tail), 400)], "stack overflow") || strings.Contains(tail[:min(len(tail), 400)], "stack exceeds") || strings.HasPrefix(tail, "fatal error: concurrent map") {
		body = trim(tail, 40000)
	} else if i := strings.Index(tail, "\ngoroutine "); i >= 0 {
		rest := tail[i+1:]
		if j := strings.Index(rest, "\n\n"); j >= 0 {
			rest = rest[:j]
		}
		body = tail[:i] + "\n" + rest
	}
	if strings.Contains(body, "github.com/awcullen/opcua") || strings.Contains(body, "/repo/") {
		return true, trim(tail, 6000)
	}
	return false, ""
}

// Main is the entry point.
func Main() {
	testing.Init()
	var (
		tier     = flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
		child    = flag.String("child", "", "internal")
		sub      = flag.String("sub", "", "only this sub-check")
		shard    = flag.Int("shard", 0, "internal")
		cases    = flag.Int("cases", 0, "override the number of cases")
		dir      = flag.String("dir", "", "internal")
		rseed    = flag.Uint64("replayseed", 0, "internal")
		ff       = flag.String("failfile", "", "internal")
		budget   = flag.Duration("budget", 0, "internal")
		replayf  = flag.String("replay", "", "replay file")
		seedFlag = flag.Uint64("seed", envSeed(), "base seed")
		procs    = flag.Int("procs", runtime.NumCPU(), "concurrent children")
		helper   = flag.String("helper", "", "internal")
		harg     = flag.String("harg", "", "internal")
	)
	flag.Parse()
	if *helper != "" {
		if f, ok := helpers[*helper]; ok {
			f(*harg)
			return
		}
		Infra("no helper %s", *helper)
	}
	if *child != "" {
		childMain(*child, *sub, *tier, *seedFlag, *shard, *cases, *dir, *rseed, *ff, *budget)
		return
	}
	if *replayf != "" {
		os.Exit(replay(*replayf))
	}
	if flag.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: vh [-tier quick|thorough] [-sub NAME] CNN | -replay FILE")
		os.Exit(2)
	}
	os.Exit(supervise(flag.Arg(0), *tier, *seedFlag, *sub, *cases, *procs))
}

var helpers = map[string]func(string){}

// RegisterHelper adds an entry point for a helper process (see StartHelper).
func RegisterHelper(name string, f func(arg string)) { helpers[name] = f }

// HelperCmd returns a command that runs a registered helper in a new process.
func HelperCmd(name, arg string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		Infra("%v", err)
	}
	return exec.Command(exe, "-helper", name, "-harg", arg)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envSeed() uint64 {
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return v
	}
	return 1
}

func runChild(chk *Check, j job, tier string, base uint64, scratch string) (res *childResult, crash string, infra string) {
	dir, err := os.MkdirTemp(scratch, chk.ID+"-"+j.sub.Name+"-")
	if err != nil {
		return nil, "", err.Error()
	}
	defer os.RemoveAll(dir)
	budget := j.sub.Budget
	if budget == 0 {
		budget = 90 * time.Second
	}
	if tier == "thorough" {
		budget = 10 * time.Minute
		if j.sub.Budget > budget {
			budget = j.sub.Budget
		}
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-child", chk.ID, "-sub", j.sub.Name, "-tier", tier, "-seed", fmt.Sprint(base), "-shard", fmt.Sprint(j.shard),
		"-cases", fmt.Sprint(j.cases), "-dir", dir, "-budget", budget.String())
	var out bytes.Buffer
	stderr := &capped{max: 4 << 20}
	cmd.Stdout = &out
	cmd.Stderr = stderr
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "TMPDIR="+dir)
	if err := cmd.Start(); err != nil {
		return nil, "", err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	select {
	case werr = <-done:
	case <-time.After(budget + 4*time.Minute):
		cmd.Process.Signal(os.Interrupt)
		cmd.Process.Kill()
		<-done
		return nil, "", fmt.Sprintf("%s shard %d: no end within its time limit\n%s", j.sub.Name, j.shard, trim(stderr.String(), 3000))
	}
	code := 0
	if werr != nil {
		code = -1
		if ee, ok := werr.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	if code == 0 || code == 10 {
		b, err := os.ReadFile(filepath.Join(dir, "result.json"))
		if err == nil {
			res = &childResult{}
			if err = json.Unmarshal(b, res); err == nil {
				if (code == 10) == (res.Outcome == "violation") {
					return res, "", ""
				}
			}
		}
		return nil, "", fmt.Sprintf("%s: no usable result (exit %d, %v)", j.sub.Name, code, err)
	}
	if ok, tail := crashed(stderr.String()); ok {
		res = &childResult{Outcome: "violation"}
		if b, err := os.ReadFile(filepath.Join(dir, "journal.json")); err == nil {
			json.Unmarshal(b, &res.Case)
		}
		res.Message = "the process crashed inside the code under test\n" + tail
		return res, tail, ""
	}
	return nil, "", fmt.Sprintf("%s shard %d: exit %d\n%s", j.sub.Name, j.shard, code, lastPart(stderr.String(), 5000))
}

func lastPart(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type capped struct {
	mu  sync.Mutex
	b   bytes.Buffer
	max int
}

func (c *capped) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if room := c.max - c.b.Len(); room > 0 {
		if len(p) > room {
			c.b.Write(p[:room])
		} else {
			c.b.Write(p)
		}
	}
	return len(p), nil
}
func (c *capped) String() string { c.mu.Lock(); defer c.mu.Unlock(); return c.b.String() }

func supervise(id, tier string, base uint64, only string, override, procs int) int {
	chk, ok := registry[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	start := time.Now()
	scratch, err := os.MkdirTemp("", "vh-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	var jobs []job
	for i := range chk.Subs {
		s := &chk.Subs[i]
		if only != "" && s.Name != only {
			continue
		}
		n, sh := s.Quick, s.Shards
		if sh < 1 {
			sh = 1
		}
		if tier == "thorough" {
			n = s.Thorough
			if n == 0 {
				n = s.Quick * 10
			}
			if sh < 4 && n >= 40 {
				sh = 4
			}
		}
		if override > 0 {
			n = override
		}
		if sh > n {
			sh = n
		}
		for k := 0; k < sh; k++ {
			c := n / sh
			if k < n%sh {
				c++
			}
			jobs = append(jobs, job{s, k, c})
		}
	}
	type out struct {
		r     *childResult
		infra string
	}
	results := make([]out, len(jobs))
	sem := make(chan struct{}, procs)
	var wg sync.WaitGroup
	var stop sync.Once
	stopped := make(chan struct{})
	for i, j := range jobs {
		sem <- struct{}{}
		select {
		case <-stopped:
			<-sem
			continue
		default:
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r, _, infra := runChild(chk, j, tier, base, scratch)
			results[i] = out{r, infra}
			if r != nil && r.Outcome == "violation" {
				stop.Do(func() { close(stopped) })
			}
		}()
	}
	wg.Wait()
	nt := map[uint64]struct{}{}
	labels := map[string]int{}
	known := map[string]string{}
	var samples []string
	evals := 0
	var viol *childResult
	infra := ""
	perSub := map[string]int{}
	for i, o := range results {
		if o.infra != "" && infra == "" {
			infra = o.infra
		}
		if o.r == nil {
			continue
		}
		evals += o.r.Evals
		perSub[jobs[i].sub.Name] += o.r.Evals
		for _, k := range o.r.NT {
			nt[k] = struct{}{}
		}
		for k, v := range o.r.Labels {
			labels[k] += v
		}
		for k, v := range o.r.Known {
			known[k] = v
		}
		if jobs[i].shard == 0 || len(samples) == 0 {
			samples = append(samples, o.r.Samples...)
		}
		if o.r.Outcome == "violation" && viol == nil {
			viol = o.r
		}
	}
	if len(samples) > 14 {
		samples = samples[:14]
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": base, "level": "exploration",
		"coverage": map[string]any{"evaluations": evals, "distinct_nontrivial": len(nt), "rule": chk.Rule, "samples": samples, "cases_per_subcheck": perSub, "classes": labels},
		"wall_s":   time.Since(start).Seconds(), "violations": 0,
	}
	if len(chk.Assumptions) > 0 {
		ev["assumptions"] = chk.Assumptions
	}
	code := 0
	keys := make([]string, 0, len(known))
	for k := range known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, known[k])
	}
	switch {
	case viol != nil:
		ev["violations"] = 1
		path := writeReplay(id, base, tier, viol)
		fmt.Println(trim(viol.Message, 6000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	case infra != "":
		fmt.Fprintln(os.Stderr, "check error (no verdict):", infra)
		code = 2
	default:
		fmt.Printf("OK property=%s tier=%s cases=%d nontrivial=%d wall=%.1fs\n", id, tier, evals, len(nt), time.Since(start).Seconds())
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	edir := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(edir, 0o755)
	if err := os.WriteFile(filepath.Join(edir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			code = 2
		}
	}
	return code
}

type replayFile struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	BaseSeed uint64   `json:"base_seed"`
	CaseSeed uint64   `json:"case_seed"`
	Note     string   `json:"note,omitempty"`
	Message  []string `json:"message"`
	FailFile string   `json:"rapid_failfile,omitempty"`
	How      string   `json:"how"`
}

func writeReplay(id string, base uint64, tier string, r *childResult) string {
	d := filepath.Join(VerifDir(), "replays")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, fmt.Sprintf("%s-%s-%d.json", id, r.Case.Sub, r.Case.Seed))
	rf := replayFile{id, r.Case.Sub, base, r.Case.Seed, r.Case.Note, strings.Split(trim(r.Message, 30000), "\n"), string(r.Fail), "bash /verif/check.sh replay " + p}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "vh-replay-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	exe, _ := os.Executable()
	args := []string{"-child", rf.Property, "-sub", rf.Sub, "-dir", dir, "-replayseed", fmt.Sprint(rf.CaseSeed), "-budget", "10m"}
	if rf.FailFile != "" {
		f := filepath.Join(dir, "in.fail")
		os.WriteFile(f, []byte(rf.FailFile), 0o644)
		args = append(args, "-failfile", f)
	}
	cmd := exec.Command(exe, args...)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err = cmd.Run()
	if err == nil {
		fmt.Println("replay: the case passes on this tree")
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}
