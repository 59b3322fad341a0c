// Package mon is the frame every monitor runs in: it counts what was observed, collects violations,
// and turns crashes, panics and stalls of the code under test into violations with a replay file.
package mon

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// RepoPath marks stack frames of the code under test.
const RepoPath = "gitlab.com/alephledger/threshold-ecdsa/"

// Ctx is handed to a monitor.
type Ctx struct {
	Prop  string
	Quick bool
	Seed  int64
	Race  bool

	mx        sync.Mutex
	evals     int64
	distinct  map[[12]byte]bool
	samples   []interface{}
	counters  map[string]int64
	rule      string
	assume    []string
	violKeys  map[string]int
	known     map[string]bool // keys listed as known findings
	cases     map[int64]string
	caseID    int64
	out       *os.File
	exhausted bool
}

// Monitor decides one property.
type Monitor struct {
	Level   string
	Rule    string
	Assume  []string
	Run     func(c *Ctx)
	RaceRun func(c *Ctx) // part that is run in the race-detector build, if any
	MinEval int64
}

// Rng derives a generator from the seed.
func (c *Ctx) Rng(label string, more ...int) *rand.Rand {
	h := sha256.New()
	fmt.Fprintf(h, "%d/%s/%s/%v", c.Seed, c.Prop, label, more)
	return rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(h.Sum(nil)))))
}

// Pick returns q in the quick tier and t in the thorough one.
func (c *Ctx) Pick(q, t int) int {
	if c.Quick {
		return q
	}
	return t
}

// Eval counts one evaluated case; key identifies it.
func (c *Ctx) Eval(format string, a ...interface{}) {
	Tick()
	k := sha256.Sum256([]byte(fmt.Sprintf(format, a...)))
	var s [12]byte
	copy(s[:], k[:])
	c.mx.Lock()
	c.evals++
	c.distinct[s] = true
	c.mx.Unlock()
}

// Trivial counts a case that is not to be counted as distinct and non-trivial.
func (c *Ctx) Trivial() {
	Tick()
	c.mx.Lock()
	c.evals++
	c.mx.Unlock()
}

// Count adds to a named counter of what was observed.
func (c *Ctx) Count(name string, n int64) {
	c.mx.Lock()
	c.counters[name] += n
	c.mx.Unlock()
}

// Max keeps the maximum of a named quantity.
func (c *Ctx) Max(name string, n int64) {
	c.mx.Lock()
	if n > c.counters[name] {
		c.counters[name] = n
	}
	c.mx.Unlock()
}

// Sample keeps up to 8 actual cases for the evidence.
func (c *Ctx) Sample(format string, a ...interface{}) {
	c.mx.Lock()
	if len(c.samples) < 8 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mx.Unlock()
}

type record struct {
	Type   string
	Key    string
	Msg    string
	Result *result
}

type result struct {
	Evals    int64
	Distinct int64
	Samples  []interface{}
	Counters map[string]int64
	Rule     string
	Assume   []string
}

func (c *Ctx) emit(r record) {
	b, _ := json.Marshal(r)
	b = append(b, '\n')
	c.out.Write(b)
}

// Violate reports that the property is broken. key identifies the kind of failing case (it is what
// the known-findings file lists); only the first few of each key are kept.
func (c *Ctx) Violate(key, format string, a ...interface{}) {
	c.mx.Lock()
	defer c.mx.Unlock()
	c.violKeys[key]++
	if c.violKeys[key] > 3 {
		return
	}
	c.emit(record{Type: "violation", Key: key, Msg: fmt.Sprintf(format, a...)})
}

// Violated tells whether a key was already reported three times, to let long loops stop early.
func (c *Ctx) Violated() bool {
	c.mx.Lock()
	defer c.mx.Unlock()
	for k, n := range c.violKeys {
		if n >= 3 && !c.known[k] {
			return true
		}
	}
	return false
}

// Fatal is an error of the harness, not of the code under test.
func (c *Ctx) Fatal(format string, a ...interface{}) {
	c.mx.Lock()
	c.emit(record{Type: "error", Msg: fmt.Sprintf(format, a...)})
	os.Exit(4)
}

// Begin notes that a case is running, for the replay file of a crash or stall.
func (c *Ctx) Begin(format string, a ...interface{}) func() {
	c.mx.Lock()
	c.caseID++
	id := c.caseID
	s := fmt.Sprintf(format, a...)
	c.cases[id] = s
	b, _ := json.Marshal(record{Type: "begin", Key: strconv.FormatInt(id, 10), Msg: s})
	c.out.Write(append(b, '\n'))
	c.mx.Unlock()
	return func() {
		Tick()
		c.mx.Lock()
		delete(c.cases, id)
		b, _ := json.Marshal(record{Type: "end", Key: strconv.FormatInt(id, 10)})
		c.out.Write(append(b, '\n'))
		c.mx.Unlock()
	}
}

// Guard runs f and turns a panic of the code under test into a violation. It reports whether f
// ended normally.
func (c *Ctx) Guard(key, desc string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if !FromRepo(st) {
				c.Fatal("harness panic in %s: %v\n%s", desc, r, st)
			}
			c.Violate(key+"/panic", "%s\npanic: %v\n%s", desc, r, st)
			ok = false
		}
	}()
	f()
	return true
}

// FromRepo tells whether a panicking stack goes through the code under test.
func FromRepo(stack string) bool { return strings.Contains(stack, RepoPath) }

// Parallel runs f(0..n-1) on the given number of workers and stops early once violations pile up.
func (c *Ctx) Parallel(n, workers int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Violated() {
					return
				}
				f(i)
				Tick()
			}
		}()
	}
	wg.Wait()
}

func cpu() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

// Stalled is set by monitors that watch for stalls themselves.
var noWatch int32

// NoWatch suspends the watchdog while f runs.
func NoWatch(f func()) {
	atomic.AddInt32(&noWatch, 1)
	defer atomic.AddInt32(&noWatch, -1)
	f()
	Tick()
}

func (c *Ctx) watchdog() {
	grace := 60
	if g, err := strconv.Atoi(os.Getenv("VMON_GRACE")); err == nil {
		grace = g // only for trying out many changes during development
	}
	last, lastCPU := ticks(), cpu()
	idle, busy, after := 0, 0, 0
	for range time.Tick(time.Second) {
		// the verdict is known once something was violated: cases that do not end must not delay it
		if c.reported() {
			if after++; after >= grace {
				c.finish()
			}
		}
		p, u := ticks(), cpu()
		if p != last || atomic.LoadInt32(&noWatch) > 0 {
			last, lastCPU, idle, busy = p, u, 0, 0
			continue
		}
		// one second of our own clock without any event; quiet when also no work was done
		if u-lastCPU < 100*time.Millisecond {
			idle++
		} else {
			busy++
			idle = 0
		}
		lastCPU = u
		if idle >= 30 || busy >= 300 {
			buf := make([]byte, 1<<22)
			buf = buf[:runtime.Stack(buf, true)]
			c.mx.Lock()
			var cs []string
			for _, s := range c.cases {
				cs = append(cs, s)
			}
			what := "no event and no work any more: operations that never end"
			if busy >= 300 {
				what = "no event for 300 s of work: an operation that loops"
			}
			c.emit(record{Type: "stall", Msg: fmt.Sprintf("%s\nrunning cases:\n%s\n\n%s", what, strings.Join(cs, "\n"), buf)})
			os.Exit(5)
		}
	}
}

// Main runs the monitor named on the command line.
func Main(mons map[string]*Monitor, raceBuild bool) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "where the evidence goes")
	raceBin := flag.String("racebin", "", "race-detector build of this program")
	child := flag.String("child", "", "internal: result file")
	flag.Parse()
	m := mons[*prop]
	if m == nil {
		fmt.Println("no monitor for", *prop)
		os.Exit(2)
	}
	if *child != "" {
		runChild(m, *prop, *tier, *seed, *child, raceBuild)
		return
	}
	os.Exit(parent(m, *prop, *tier, *seed, *verif, *raceBin))
}

// realStderr keeps descriptor 2 open when os.Stderr is replaced, or the garbage collector would close it.
var realStderr = os.Stderr

func runChild(m *Monitor, prop, tier string, seed int64, outName string, race bool) {
	out, err := os.OpenFile(outName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = dn // chatter of the code under test; crashes still go to descriptor 2
	}
	debug.SetTraceback("all")
	c := &Ctx{Prop: prop, Quick: tier != "thorough", Seed: seed, Race: race, distinct: map[[12]byte]bool{},
		counters: map[string]int64{}, violKeys: map[string]int{}, cases: map[int64]string{}, out: out, rule: m.Rule, assume: m.Assume}
	c.known = map[string]bool{}
	for _, k := range readKnown(os.Getenv("VMON_KNOWN")) {
		if k.prop == prop {
			c.known[k.key] = true
		}
	}
	go c.watchdog()
	run := m.Run
	if race {
		run = m.RaceRun
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if !FromRepo(st) {
					c.Fatal("harness panic: %v\n%s", r, st)
				}
				c.Violate("panic", "panic: %v\n%s", r, st)
			}
		}()
		run(c)
	}()
	c.finish()
}

// finish writes what was observed and ends the process.
func (c *Ctx) finish() {
	c.mx.Lock()
	c.emit(record{Type: "result", Result: &result{c.evals, int64(len(c.distinct)), c.samples, c.counters, c.rule, c.assume}})
	c.out.Close()
	os.Exit(0)
}

// reported tells whether anything but known findings was reported.
func (c *Ctx) reported() bool {
	c.mx.Lock()
	defer c.mx.Unlock()
	for k := range c.violKeys {
		if !c.known[k] {
			return true
		}
	}
	return false
}

type violation struct{ key, msg string }

type outcome struct {
	viols  []violation
	errs   []string
	res    *result
	stderr string
}

func spawn(bin, prop, tier string, seed int64, knownFile string) (o outcome) {
	dir, err := os.MkdirTemp("", "vmon-"+prop+"-")
	if err != nil {
		return outcome{errs: []string{err.Error()}}
	}
	defer os.RemoveAll(dir)
	outName := filepath.Join(dir, "out")
	cmd := exec.Command(bin, "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-child", outName)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all", "VMON_DIR="+dir, "VMON_KNOWN="+knownFile)
	var eb bytes.Buffer
	cmd.Stderr = &limited{w: &eb, n: 8 << 20}
	cmd.Stdout = cmd.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	werr := cmd.Run()
	runtime.UnlockOSThread()
	o.stderr = eb.String()
	open := map[string]string{}
	if b, err := os.ReadFile(outName); err == nil {
		sc := bufio.NewScanner(bytes.NewReader(b))
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var r record
			if json.Unmarshal(sc.Bytes(), &r) != nil {
				continue
			}
			switch r.Type {
			case "violation":
				o.viols = append(o.viols, violation{r.Key, r.Msg})
			case "stall":
				o.viols = append(o.viols, violation{"stall", r.Msg})
			case "error":
				o.errs = append(o.errs, r.Msg)
			case "begin":
				open[r.Key] = r.Msg
			case "end":
				delete(open, r.Key)
			case "result":
				o.res = r.Result
			}
		}
	}
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		seen := map[string]bool{}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "DATA RACE") {
				continue
			}
			k := raceKey(blk)
			if !strings.Contains(blk, RepoPath) {
				o.errs = append(o.errs, "race outside the code under test:\n"+blk)
				continue
			}
			if !seen[k] {
				seen[k] = true
				o.viols = append(o.viols, violation{"race", "data race " + k + "\n" + blk})
			}
		}
	}
	if o.res == nil && len(o.viols) == 0 && len(o.errs) == 0 {
		var cs []string
		for _, s := range open {
			cs = append(cs, s)
		}
		sort.Strings(cs)
		if len(cs) > 40 {
			cs = cs[:40]
		}
		if crashFromRepo(o.stderr) {
			o.viols = append(o.viols, violation{"crash", fmt.Sprintf("the process crashed (%v)\nrunning cases:\n%s\n\n%s", werr, strings.Join(cs, "\n"), o.stderr)})
		} else {
			o.errs = append(o.errs, fmt.Sprintf("child ended with %v\n%s", werr, o.stderr))
		}
	}
	return o
}

// crashFromRepo looks at the first goroutine of a crash dump only.
func crashFromRepo(s string) bool {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return false
	}
	s = s[i+1:]
	if j := strings.Index(s, "\n\ngoroutine "); j >= 0 {
		s = s[:j]
	}
	return FromRepo(s)
}

var lineRe = regexp.MustCompile(`(?m)^  (\S+)\(`)

func raceKey(blk string) string {
	var fs []string
	for _, m := range lineRe.FindAllStringSubmatch(blk, -1) {
		if strings.Contains(m[1], "threshold-ecdsa") {
			fs = append(fs, m[1][strings.LastIndex(m[1], "/")+1:])
			if len(fs) == 4 {
				break
			}
		}
	}
	return strings.Join(fs, " | ")
}

type limited struct {
	w *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if room := l.n - l.w.Len(); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		l.w.Write(p[:room])
	}
	return len(p), nil
}

type known struct{ prop, key, text string }

func readKnown(name string) (ks []known) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^KNOWN property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			ks = append(ks, known{m[1], m[2], m[3]})
		}
	}
	return ks
}

func parent(m *Monitor, prop, tier string, seed int64, verif, raceBin string) int {
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var outs []outcome
	if m.Run != nil {
		outs = append(outs, spawn(self, prop, tier, seed, filepath.Join(verif, "known_findings.txt")))
	}
	if m.RaceRun != nil && raceBin != "" {
		outs = append(outs, spawn(raceBin, prop, tier, seed, filepath.Join(verif, "known_findings.txt")))
	}
	tot := result{Counters: map[string]int64{}, Rule: m.Rule, Assume: m.Assume}
	var viols []violation
	var errs []string
	for _, o := range outs {
		viols = append(viols, o.viols...)
		errs = append(errs, o.errs...)
		if o.res != nil {
			tot.Evals += o.res.Evals
			tot.Distinct += o.res.Distinct
			tot.Samples = append(tot.Samples, o.res.Samples...)
			for k, v := range o.res.Counters {
				tot.Counters[k] += v
			}
		}
	}
	ks := readKnown(filepath.Join(verif, "known_findings.txt"))
	var bad []violation
	seenKnown := map[string]bool{}
	for _, v := range viols {
		found := false
		for _, k := range ks {
			if k.prop == prop && k.key == v.key {
				found = true
				if !seenKnown[k.key] {
					seenKnown[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, k.key, k.text)
				}
			}
		}
		if !found {
			bad = append(bad, v)
		}
	}
	if tot.Samples == nil {
		tot.Samples = []interface{}{}
	}
	cov := map[string]interface{}{"evaluations": tot.Evals, "distinct_nontrivial": tot.Distinct, "rule": tot.Rule, "samples": tot.Samples, "observed": tot.Counters}
	var kf []string
	for k := range seenKnown {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	if len(kf) > 0 {
		cov["known_findings_seen"] = kf
	}
	level := m.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(bad)}
	if len(tot.Assume) > 0 {
		ev["assumptions"] = tot.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d evaluations, %d distinct, %.1f s, observed %v\n", prop, tot.Evals, tot.Distinct, time.Since(start).Seconds(), tot.Counters)
	if len(bad) > 0 {
		os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
		name := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d.txt", prop, tier, seed))
		var sb strings.Builder
		fmt.Fprintf(&sb, "replay: cd /verif && VERIF_SEED=%d VERIF_TIER=%s bash check.sh %s\n", seed, tier, prop)
		for _, v := range bad {
			fmt.Fprintf(&sb, "\n=== key=%s\n%s\n", v.key, v.msg)
		}
		os.WriteFile(name, []byte(sb.String()), 0o644)
		seen := map[string]bool{}
		for _, v := range bad {
			if !seen[v.key] {
				seen[v.key] = true
				msg := v.msg
				if len(msg) > 700 {
					msg = msg[:700] + "..."
				}
				fmt.Printf("-- key=%s\n%s\n", v.key, msg)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, name)
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Println("ERROR:", e)
		}
		return 2
	}
	if tot.Evals < m.MinEval || tot.Evals == 0 {
		fmt.Printf("ERROR: only %d evaluations, expected at least %d\n", tot.Evals, m.MinEval)
		return 2
	}
	return 0
}
