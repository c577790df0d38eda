package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

func str(v interface{}) string {
	if s, ok := v.(string); ok {
		return s
	}
	return fmt.Sprint(v)
}

// Prop is one property's workload and oracle.
type Prop struct {
	ID       string
	Quick    int // number of cases per tier
	Thorough int
	Run      func(c *Ctx)
	Rule     string
	Level    string
	Race     bool
	Workers  int
	Procs    int // GOMAXPROCS of a worker
	Assume   []string
	Init     func(c *Ctx) // once per worker
	NoVMem   bool         // no address space limit
}

func (p *Prop) cases(tier string) int {
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	// a percentage of the cases, for trying out many planted changes (tools/mutate.py)
	if s := os.Getenv("VMON_PCT"); s != "" {
		if pct, err := strconv.Atoi(s); err == nil && pct > 0 {
			n = (n*pct + 99) / 100
		}
	}
	return n
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

// Violation is what a monitor saw.
type Violation struct {
	Property string      `json:"property"`
	Key      string      `json:"key"`
	Message  string      `json:"message"`
	Case     int         `json:"case"`
	Seed     int64       `json:"seed"`
	Tier     string      `json:"tier"`
	Detail   interface{} `json:"detail,omitempty"`
}

// Ctx is handed to each case.
type Ctx struct {
	P       *Prop
	R       *Rand
	I       int // case number
	Tier    string
	Seed    int64
	Scratch string // directory of this worker
	counts  map[string]int64
	maxes   map[string]int64
	hashes  map[uint64]struct{}
	samples []interface{}
	evals   int64
	viols   []*Violation
	known   map[string]string
	hits    map[string]string
	onViol  func(*Violation)
	detail  map[string]interface{}
	verbose bool
}

const maxHashes = 400000

type abortCase struct{}

// Count adds to a counter shown in the evidence.
func (c *Ctx) Count(name string, n int) { c.counts[name] += int64(n) }

// Max keeps the largest value seen.
func (c *Ctx) Max(name string, n int) {
	if int64(n) > c.maxes[name] {
		c.maxes[name] = int64(n)
	}
}

// Eval counts evaluated executions.
func (c *Ctx) Eval(n int) { c.evals += int64(n) }

// Distinct registers a non-trivial case by its content.
func (c *Ctx) Distinct(parts ...interface{}) {
	if len(c.hashes) >= maxHashes {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(str(p)))
		h.Write([]byte{1})
	}
	c.hashes[h.Sum64()] = struct{}{}
}

// Sample keeps a few actual cases for the evidence.
func (c *Ctx) Sample(v interface{}) {
	if len(c.samples) < 3 {
		c.samples = append(c.samples, v)
	}
}

// Set attaches context reported with a violation of this case.
func (c *Ctx) Set(k string, v interface{}) { c.detail[k] = v }

// Report records a violation and goes on.
func (c *Ctx) Report(key, format string, args ...interface{}) {
	if text, ok := c.known[key]; ok {
		c.hits[key] = text
		return
	}
	v := &Violation{Property: c.P.ID, Key: key, Message: fmt.Sprintf(format, args...), Case: c.I, Seed: c.Seed, Tier: c.Tier}
	if len(c.detail) > 0 {
		v.Detail = printable(c.detail)
	}
	c.viols = append(c.viols, v)
	if c.onViol != nil {
		c.onViol(v)
	}
}

// Fail records a violation and ends the case.
func (c *Ctx) Fail(key, format string, args ...interface{}) {
	c.Report(key, format, args...)
	panic(abortCase{})
}

// printable makes arbitrary values (including invalid UTF-8) JSON safe.
func printable(d map[string]interface{}) interface{} {
	out := map[string]interface{}{}
	for k, v := range d {
		var s string
		switch x := v.(type) {
		case string:
			s = fmt.Sprintf("%q", x)
			if isPlain(x) {
				s = x
			}
		case []byte:
			s = fmt.Sprintf("%q", x)
		default:
			s = fmt.Sprintf("%+v", x)
		}
		if len(s) > 6000 {
			s = s[:6000] + fmt.Sprintf("... (%d characters)", len(s))
		}
		out[k] = s
	}
	return out
}

func isPlain(s string) bool {
	for _, r := range s {
		if (r < 32 && r != '\n') || r > 126 {
			return false
		}
	}
	return true
}

// runCase runs one case, turning panics of the code under test into violations.
func (c *Ctx) runCase(i int) (harnessErr string) {
	c.I = i
	c.R = newRand(c.P.ID, c.Seed, i)
	c.detail = map[string]interface{}{}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); ok {
				return
			}
			stack := string(debug.Stack())
			if blame(stack) {
				c.detail["stack"] = shorten(stack, 4000)
				c.Report("panic", "the code under test panicked: %v (%s)", e, topFrame(stack))
				return
			}
			harnessErr = fmt.Sprintf("case %d: harness panic: %v\n%s", i, e, stack)
		}
	}()
	c.evals++
	c.P.Run(c)
	return
}

// frames lists the functions of a stack below the panic.
func frames(stack string) []string {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i
		}
	}
	var out []string
	for _, l := range lines[start:] {
		if l == "" || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		out = append(out, l)
	}
	return out
}

// blame tells whether a panic happened in (or below) the code under test.
func blame(stack string) bool {
	for _, f := range frames(stack) {
		if strings.HasPrefix(f, "main.") || strings.HasPrefix(f, "vmon") {
			return false
		}
		if strings.HasPrefix(f, "github.com/senghoo/modsecurity-go") {
			return true
		}
	}
	return false
}

func topFrame(stack string) string {
	for _, f := range frames(stack) {
		if strings.HasPrefix(f, "github.com/senghoo/modsecurity-go") {
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			return "in " + f
		}
	}
	return ""
}

func shorten(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- worker -----------------------------------------------------------

type workerResult struct {
	Done    bool
	Evals   int64
	Cases   int64
	Counts  map[string]int64
	Maxes   map[string]int64
	Hashes  []uint64
	Samples []interface{}
	Viols   []*Violation
	Hits    map[string]string
	Harness string
}

// exit codes of a worker; the runtime itself exits with 2 when it dies
const (
	exitHang  = 77
	exitFatal = 4
)

var caseLimit = 40 * time.Second // CPU time of one case before it counts as hung

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func newCtx(p *Prop, tier string, seed int64, scratch string) *Ctx {
	loadDict()
	return &Ctx{P: p, Tier: tier, Seed: seed, Scratch: scratch,
		counts: map[string]int64{}, maxes: map[string]int64{}, hashes: map[uint64]struct{}{},
		known: loadKnown(p.ID), hits: map[string]string{}, detail: map[string]interface{}{}}
}

// A violation found ends the run of all workers soon after: what is known by
// then suffices, and a fault can make every case slow.
const foundMark = "found"

func markFound(marker string) {
	if f, err := os.OpenFile(marker, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0600); err == nil {
		f.Close()
	}
}

func foundFor(marker string) time.Duration {
	fi, err := os.Stat(marker)
	if err != nil {
		return 0
	}
	return time.Since(fi.ModTime())
}

// workerMain runs cases from, from+step, ... below to, noting the current case in a progress file.
func workerMain(p *Prop, tier string, seed int64, from, step, to int, dir string, out string) {
	if !p.Race && !p.NoVMem {
		lim := &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	}
	if p.Procs > 0 {
		runtime.GOMAXPROCS(p.Procs)
	} else {
		runtime.GOMAXPROCS(2)
	}
	debug.SetMaxStack(256 << 20)
	c := newCtx(p, tier, seed, dir)
	prog, err := os.Create(out + ".cur")
	if err != nil {
		fatal(err)
	}
	var cur int64 = -1
	var startCPU int64
	var startWall int64
	var stop int32
	marker := filepath.Join(filepath.Dir(out), foundMark)
	deadline, _ := strconv.ParseInt(os.Getenv("VMON_DEADLINE"), 10, 64)
	go func() { // watchdog
		for {
			time.Sleep(500 * time.Millisecond)
			found := foundFor(marker)
			if found > 45*time.Second {
				atomic.StoreInt32(&stop, 1)
			}
			if found > 3*time.Minute && atomic.LoadInt64(&cur) >= 0 {
				os.Exit(0) // what this worker found is on file
			}
			if deadline > 0 && time.Now().Unix() > deadline {
				atomic.StoreInt32(&stop, 2)
			}
			if atomic.LoadInt64(&cur) < 0 {
				continue
			}
			used := int64(cpuTime()) - atomic.LoadInt64(&startCPU)
			wall := time.Now().UnixNano() - atomic.LoadInt64(&startWall)
			if used > int64(caseLimit) || wall > int64(6*caseLimit) || wall > int64(2*caseLimit) && used < int64(time.Second) {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "HANG case %d cpu %v wall %v\n%s\n", atomic.LoadInt64(&cur), time.Duration(used), time.Duration(wall), buf[:n])
				os.Exit(exitHang)
			}
		}
	}()
	res := &workerResult{}
	flush := func(done bool) {
		res.Done = done
		res.Evals = c.evals
		res.Counts = c.counts
		res.Maxes = c.maxes
		res.Samples = c.samples
		res.Viols = c.viols
		res.Hits = c.hits
		res.Hashes = res.Hashes[:0]
		for h := range c.hashes {
			res.Hashes = append(res.Hashes, h)
		}
		b, err := json.Marshal(res)
		if err != nil {
			fatal(err)
		}
		if err := os.WriteFile(out+".tmp", b, 0600); err != nil {
			fatal(err)
		}
		os.Rename(out+".tmp", out)
	}
	c.onViol = func(*Violation) {
		flush(false)
		markFound(marker)
	}
	if p.Init != nil {
		p.Init(c)
	}
	var buf [8]byte
	last := time.Now()
	for i := from; i < to; i += step {
		for k := 0; k < 8; k++ {
			buf[k] = byte(uint64(i) >> (8 * uint(k)))
		}
		prog.WriteAt(buf[:], 0)
		atomic.StoreInt64(&startCPU, int64(cpuTime()))
		atomic.StoreInt64(&startWall, time.Now().UnixNano())
		atomic.StoreInt64(&cur, int64(i))
		if h := c.runCase(i); h != "" {
			res.Harness = h
			flush(false)
			os.Exit(3)
		}
		res.Cases++
		c.Max("slowest_case_cpu_ms", int((int64(cpuTime())-atomic.LoadInt64(&startCPU))/1e6))
		if len(c.viols) >= 5 || atomic.LoadInt32(&stop) == 1 {
			break
		}
		if atomic.LoadInt32(&stop) == 2 {
			c.Count("workers_out_of_time", 1)
			break
		}
		if time.Since(last) > 5*time.Second {
			flush(false)
			last = time.Now()
		}
	}
	atomic.StoreInt64(&cur, -1)
	flush(true)
}

// ---- known findings ---------------------------------------------------

func verifDir() string {
	if d := os.Getenv("VMON_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads the known findings of a property: key -> text.
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "KNOWN" && f[2] == "property="+id {
			out[f[1]] = f[3]
		}
	}
	return out
}

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(exitFatal)
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
