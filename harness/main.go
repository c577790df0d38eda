package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sirupsen/logrus"
)

func main() {
	logrus.SetLevel(logrus.WarnLevel)
	if len(os.Args) < 2 {
		fatal("usage: vmon check ID | replay FILE | case ID N")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "worker": // worker ID tier seed from step to dir out
		a := os.Args[2:]
		workerMain(props[a[0]], a[1], int64(atoi(a[2])), atoi(a[3]), atoi(a[4]), atoi(a[5]), a[6], a[7])
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fatal(err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatal(err)
		}
		os.Exit(replay(v.Property, v.Tier, v.Seed, v.Case))
	case "case":
		os.Exit(replay(os.Args[2], tier(), seed(), atoi(os.Args[3])))
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			p := props[id]
			race := ""
			if p.Race {
				race = " race"
			}
			fmt.Println(id + race)
		}
	default:
		fatal("unknown command " + os.Args[1])
	}
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fatal(err)
	}
	return n
}

func seed() int64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	}
	return 1
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// replay runs one case in this process and prints what it sees.
func replay(id, tier string, seed int64, i int) int {
	p := props[id]
	dir, err := os.MkdirTemp("", "vmon-replay-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", filepath.Join(dir, "sys"))
	os.MkdirAll(filepath.Join(dir, "sys"), 0700)
	c := newCtx(p, tier, seed, dir)
	c.verbose = true
	if p.Init != nil {
		p.Init(c)
	}
	if h := c.runCase(i); h != "" {
		fmt.Println(h)
		return 2
	}
	for _, v := range c.viols {
		b, _ := json.MarshalIndent(v, "", "  ")
		fmt.Println(string(b))
	}
	for k, t := range c.hits {
		fmt.Println("known:", k, t)
	}
	if len(c.viols) > 0 {
		return 1
	}
	fmt.Println("no violation in this case")
	return 0
}

type tally struct {
	sync.Mutex
	evals, cases int64
	counts       map[string]int64
	maxes        map[string]int64
	hashes       map[uint64]struct{}
	samples      []interface{}
	viols        []*Violation
	hits         map[string]string
	harness      []string
	notes        []string
}

func (t *tally) add(r *workerResult) {
	t.Lock()
	defer t.Unlock()
	t.evals += r.Evals
	t.cases += r.Cases
	for k, n := range r.Counts {
		t.counts[k] += n
	}
	for k, n := range r.Maxes {
		if n > t.maxes[k] {
			t.maxes[k] = n
		}
	}
	for _, h := range r.Hashes {
		t.hashes[h] = struct{}{}
	}
	if len(t.samples) < 4 {
		t.samples = append(t.samples, r.Samples...)
	}
	t.viols = append(t.viols, r.Viols...)
	for k, v := range r.Hits {
		t.hits[k] = v
	}
	if r.Harness != "" {
		t.harness = append(t.harness, r.Harness)
	}
}

func check(id string) int {
	p := props[id]
	if p == nil {
		fatal("no such property " + id)
	}
	start := time.Now()
	t := tier()
	sd := seed()
	dir, err := os.MkdirTemp("", "vmon-"+id+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	if t == "quick" { // far above what it takes
		os.Setenv("VMON_DEADLINE", strconv.FormatInt(start.Add(9*time.Minute).Unix(), 10))
	}
	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	if n, err := strconv.Atoi(os.Getenv("VMON_WORKERS")); err == nil && n > 0 {
		workers = n
	}
	total := p.cases(t)
	if workers > total {
		workers = total
	}
	tl := &tally{counts: map[string]int64{}, maxes: map[string]int64{}, hashes: map[uint64]struct{}{}, hits: map[string]string{}}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			runShard(p, t, sd, w, workers, total, dir, tl)
		}(w)
	}
	wg.Wait()
	return report(p, t, sd, tl, time.Since(start), workers)
}

func runShard(p *Prop, tier string, seed int64, from, step, total int, dir string, tl *tally) {
	marker := filepath.Join(dir, foundMark)
	for n := 0; ; n++ {
		if foundFor(marker) > 45*time.Second {
			return
		}
		out := filepath.Join(dir, fmt.Sprintf("w%d-%d.json", from%step, n))
		code, stderr, res := spawn(p, tier, seed, from, step, total, dir, out)
		if res != nil {
			tl.add(res)
		}
		if code == 0 || code == 3 {
			return
		}
		if code == exitFatal {
			tl.Lock()
			tl.harness = append(tl.harness, "harness: "+shorten(stderr, 3000))
			tl.Unlock()
			return
		}
		cur := readCur(out)
		if cur < from {
			tl.Lock()
			tl.harness = append(tl.harness, fmt.Sprintf("worker failed before its first case (exit %d): %s", code, shorten(stderr, 3000)))
			tl.Unlock()
			return
		}
		// the worker died in case cur: try it alone
		out2 := filepath.Join(dir, fmt.Sprintf("r%d-%d.json", from%step, n))
		code2, stderr2, res2 := spawn(p, tier, seed, cur, 1, cur+1, dir, out2)
		tl.Lock()
		again := code2 != 0 && code2 != 3 && code2 != exitFatal
		if !again && died(code, stderr) { // it takes what went before
			code2, stderr2, again = code, stderr, true
		}
		if again {
			kind := "crash"
			msg := "the process died: " + firstLines(stderr2)
			if code2 == exitHang {
				kind = "hang"
				msg = "the case did not end: " + firstLines(stderr2)
			}
			if !strings.Contains(stderr2, "senghoo/modsecurity-go") {
				tl.harness = append(tl.harness, fmt.Sprintf("case %d: worker died outside the code under test (exit %d): %s", cur, code2, shorten(stderr2, 3000)))
			} else {
				tl.viols = append(tl.viols, &Violation{Property: p.ID, Key: kind, Message: msg, Case: cur, Seed: seed, Tier: tier, Detail: map[string]string{"stderr": shorten(stderr2, 6000)}})
			}
		} else {
			if res2 != nil {
				tl.viols = append(tl.viols, res2.Viols...)
			}
			tl.notes = append(tl.notes, fmt.Sprintf("case %d ended a worker (exit %d) but not when run alone: %s", cur, code, firstLines(stderr)))
		}
		nv := len(tl.viols)
		if nv < 3 && n > 20 {
			tl.harness = append(tl.harness, fmt.Sprintf("worker %d died %d times, last in case %d (exit %d): %s", from%step, n, cur, code, shorten(stderr, 3000)))
		}
		tl.Unlock()
		if nv > 0 {
			markFound(marker)
		}
		if nv >= 3 || n > 20 {
			return
		}
		from = cur + step
		if from >= total {
			return
		}
	}
}

// died tells whether the runtime ended a worker for a fault in the code under test.
func died(code int, stderr string) bool {
	if code != 2 || strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate") {
		return false
	}
	i := strings.Index(stderr, "fatal error: ")
	if i < 0 {
		if i = strings.Index(stderr, "panic: "); i < 0 {
			return false
		}
	}
	s := stderr[i:]
	if j := strings.Index(s, "[running]"); j >= 0 { // the goroutine that failed
		s = s[j:]
		if k := strings.Index(s, "\n\n"); k >= 0 {
			s = s[:k]
		}
	}
	return strings.Contains(s, "senghoo/modsecurity-go")
}

func firstLines(s string) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > 3 {
		ls = ls[:3]
	}
	return strings.Join(ls, " / ")
}

func readCur(out string) int {
	b, err := os.ReadFile(out + ".cur")
	if err != nil || len(b) < 8 {
		return -1
	}
	var v uint64
	for k := 0; k < 8; k++ {
		v |= uint64(b[k]) << (8 * uint(k))
	}
	return int(v)
}

func spawn(p *Prop, tier string, seed int64, from, step, total int, dir, out string) (int, string, *workerResult) {
	exe, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	wd := out + ".d"
	os.MkdirAll(filepath.Join(wd, "sys"), 0700)
	cmd := exec.Command(exe, "worker", p.ID, tier, strconv.FormatInt(seed, 10), strconv.Itoa(from), strconv.Itoa(step), strconv.Itoa(total), wd, out)
	cmd.Env = append(os.Environ(), "TMPDIR="+filepath.Join(wd, "sys"), "GOTRACEBACK=all")
	if p.Race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 history_size=3 atexit_sleep_ms=0 log_path="+out+".race")
	}
	var stderr bytes.Buffer
	cmd.Stderr = &limitWriter{&stderr, 1 << 20}
	cmd.Stdout = os.Stdout
	err = cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
			if code == -1 {
				code = 128
			}
		}
	}
	var res *workerResult
	if b, err := os.ReadFile(out); err == nil {
		res = new(workerResult)
		if json.Unmarshal(b, res) != nil {
			res = nil
		}
	}
	if p.Race {
		if res == nil && code != 0 {
			res = &workerResult{}
		}
		raceReports(p, tier, seed, out, res)
		if i := strings.Index(stderr.String(), "fatal error: concurrent map"); i >= 0 && res != nil && strings.Contains(stderr.String(), "senghoo/modsecurity-go") {
			res.Viols = append(res.Viols, &Violation{Property: p.ID, Key: "race", Message: "the runtime found " + firstLines(stderr.String()[i:]), Case: readCur(out), Seed: seed, Tier: tier, Detail: map[string]string{"stderr": shorten(stderr.String()[i:], 5000)}})
		}
		if code == 66 {
			code = 0
		}
	}
	os.RemoveAll(wd)
	return code, stderr.String(), res
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// raceReports turns the race detector's log into violations.
func raceReports(p *Prop, tier string, seed int64, out string, res *workerResult) {
	files, _ := filepath.Glob(out + ".race*")
	n := 0
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "DATA RACE") || !strings.Contains(rep, "senghoo/modsecurity-go") {
				continue
			}
			n++
			if n <= 3 && res != nil {
				res.Viols = append(res.Viols, &Violation{Property: p.ID, Key: "race", Message: "data race: " + raceSite(rep), Case: readCur(out), Seed: seed, Tier: tier, Detail: map[string]string{"report": shorten(rep, 5000)}})
			}
		}
	}
	if res != nil {
		if res.Counts == nil {
			res.Counts = map[string]int64{}
		}
		res.Counts["race_reports"] += int64(n)
	}
}

func raceSite(rep string) string {
	for _, l := range strings.Split(rep, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/senghoo/modsecurity-go") {
			return l
		}
	}
	return "?"
}

func report(p *Prop, tier string, seed int64, t *tally, wall time.Duration, workers int) int {
	obs := map[string]interface{}{}
	for _, k := range sortedKeys(t.counts) {
		obs[k] = t.counts[k]
	}
	for _, k := range sortedKeys(t.maxes) {
		obs["max_"+k] = t.maxes[k]
	}
	if len(t.samples) > 4 {
		t.samples = t.samples[:4]
	}
	cov := map[string]interface{}{
		"evaluations":         t.evals,
		"distinct_nontrivial": len(t.hashes),
		"rule":                p.Rule,
		"samples":             t.samples,
		"observed":            obs,
		"cases":               t.cases,
		"workers":             workers,
	}
	if len(t.notes) > 0 {
		cov["inconclusive"] = t.notes
	}
	ev := map[string]interface{}{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       p.Level,
		"coverage":    cov,
		"assumptions": append([]string{"the Go compiler and runtime, the harness's reference models"}, p.Assume...),
		"wall_s":      float64(int(wall.Seconds()*100)) / 100,
		"violations":  len(t.viols),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fatal(err)
	}
	var ks []string
	for k := range t.hits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, t.hits[k])
	}
	if len(t.viols) > 0 {
		os.MkdirAll(filepath.Join(verifDir(), "replays"), 0755)
		seen := map[string]bool{}
		n := 0
		for _, v := range t.viols {
			if seen[v.Key] {
				continue
			}
			seen[v.Key] = true
			n++
			if n > 5 {
				break
			}
			f := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%s-%d.json", p.ID, sanitize(v.Key), v.Case))
			b, _ := json.MarshalIndent(v, "", "  ")
			os.WriteFile(f, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
			fmt.Printf("  [%s] %s\n", v.Key, shorten(v.Message, 1500))
		}
		return 1
	}
	if len(t.harness) > 0 {
		for _, h := range t.harness {
			fmt.Fprintln(os.Stderr, h)
		}
		return 2
	}
	fmt.Printf("%s %s: held on %d evaluations (%d distinct non-trivial), %.1f s\n", p.ID, tier, t.evals, len(t.hashes), wall.Seconds())
	return 0
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '.') {
			b[i] = '_'
		}
	}
	if len(b) > 60 {
		b = b[:60]
	}
	return string(b)
}
