//go:build go1.23

// Command vh decides the properties of /verif/properties.jsonl by exhaustive enumeration of bounded
// spaces on the real code (see /verif/DESIGN.md). A parent process spreads the enumerated cases over
// worker processes; a worker that panics, dies or hangs identifies the offending case through a
// memory-mapped slot.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check is one property's machinery
type Check struct {
	ID     string
	Level  string
	Rule   string
	Assume []string
	MemMB  int  // address space limit of a worker (0 = none)
	Shares bool // every case has its share of the time
	Run    func(x *X)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// X is the enumeration context of one worker
type X struct {
	Tier     string
	Thorough bool
	shard    int64
	nshards  int64
	only     int64
	upto     int64
	idx      int64
	deadline time.Time
	slot     []byte
	res      Result
	distinct map[uint64]struct{}
	stop     bool
	cut      bool // a case was not explored to its end
	beat     uint64
	counting bool  // only counts the cases
	total    int64 // number of cases, if counted
	pass     int
	left     int64         // cases of the second pass
	focused  int64         // those of them in focus
	whole    time.Duration // time of all cases
	kept     map[int64]interface{}
	reached  map[int64]int
	later    []later
	runs     uint64
}

// Result is what a worker reports
type Result struct {
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Evals       int64            `json:"evals"`
	Cases       int64            `json:"cases"`
	Executed    int64            `json:"executed"`
	Capped      bool             `json:"capped"`
	Extra       map[string]int64 `json:"extra"`
	Samples     []string         `json:"samples"`
	Known       map[string]int64 `json:"known"`
	Viol        *Viol            `json:"viol"`
}

// Viol is one violation
type Viol struct {
	Kind   string `json:"kind"` // mismatch, panic, crash, hang
	Case   int64  `json:"case"`
	Shard  int64  `json:"shard"`
	Label  string `json:"label"`
	Detail string `json:"detail"`
	Model  []byte `json:"model,omitempty"`
	Repro  string `json:"reproduced,omitempty"`
	// Schedule is the choice made at every step
	Schedule []int `json:"schedule,omitempty"`
}

// C is the context of one case
type C struct {
	x     *X
	label func() string
	model []byte
	stage string
	again bool // the case did not end within its share
	i     int64
	focus bool
	// choices gives the schedule of the run that is going on
	choices func() []int
}

type failure struct{ msg string }

// Failf records a violation and ends the case
func (c *C) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Stage notes what is going on, to explain panics
func (c *C) Stage(s string) { c.stage = s }

// SetModel keeps the model file of the case for the replay file
func (c *C) SetModel(b []byte) { c.model = b }

func (c *C) States(n int) { c.x.res.States += int64(n) }
func (c *C) Trans(n int)  { c.x.res.Transitions += int64(n) }
func (c *C) Traces(n int) { c.x.res.Traces += int64(n) }

// Evals counts evaluations and tells the watchdog that the case goes on
func (c *C) Evals(n int) {
	c.x.res.Evals += int64(n)
	c.Alive()
}

// Alive tells the watchdog that the case goes on
func (c *C) Alive() {
	c.x.beat++
	binary.LittleEndian.PutUint64(c.x.slot[16:], c.x.beat)
}
func (c *C) Distinct(h uint64)     { c.x.distinct[h] = struct{}{} }
func (c *C) Known(what string)     { c.x.res.Known[what]++ }
func (c *C) Extra(k string, n int) { c.x.res.Extra[k] += int64(n) }

// Case runs f as the next case of the enumeration
func (x *X) Case(label func() string, f func(c *C)) {
	i := x.idx
	x.idx++
	if x.counting {
		return
	}
	if x.stop {
		return
	}
	if x.only >= 0 {
		if i != x.only {
			return
		}
	} else {
		if i%x.nshards != x.shard {
			return
		}
		if x.upto >= 0 && i > x.upto {
			x.stop = true
			return
		}
		if x.res.Capped || (x.res.Executed&15 == 0 && time.Now().After(x.deadline)) {
			x.res.Capped = true
			return
		}
	}
	x.run(i, label, f)
}

// later is a case that did not end within its first share of the time
type later struct {
	i     int64
	label func() string
	f     func(c *C)
	focus bool
}

func (x *X) run(i int64, label func() string, f func(c *C)) {
	binary.LittleEndian.PutUint64(x.slot, uint64(i)+1)
	x.runs++
	binary.LittleEndian.PutUint64(x.slot[8:], x.runs)
	c := &C{x: x, label: label, i: i}
	func() {
		defer func() {
			if r := recover(); r != nil {
				v := &Viol{Case: i, Shard: x.shard, Label: label(), Model: c.model}
				if f, ok := r.(failure); ok {
					v.Kind = "mismatch"
					v.Detail = f.msg
				} else {
					v.Kind = "panic"
					v.Detail = fmt.Sprintf("%v (while %s)\n%s", r, c.stage, debug.Stack())
				}
				if c.choices != nil {
					v.Schedule = c.choices()
				}
				x.res.Viol = v
				x.stop = true
			}
		}()
		f(c)
	}()
	if c.again {
		x.later = append(x.later, later{i, label, f, c.focus})
		return
	}
	x.res.Executed++
	if x.res.Executed == 1 || (x.res.Executed&(x.res.Executed-1) == 0 && len(x.res.Samples) < 12) {
		x.res.Samples = append(x.res.Samples, label())
	}
}

// second runs the cases that did not end within their first share
func (x *X) second() {
	x.pass = 2
	todo := x.later
	x.later = nil
	sort.SliceStable(todo, func(a, b int) bool { return todo[a].focus && !todo[b].focus })
	for k, l := range todo {
		if x.stop {
			return
		}
		x.left = int64(len(todo) - k)
		x.focused = 0
		for _, o := range todo[k:] {
			if o.focus {
				x.focused++
			}
		}
		x.run(l.i, l.label, l.f)
	}
}

// Reach notes how far the first pass got with the case, Reached gives it in the second
func (c *C) Reach(n int) {
	if c.x.reached == nil {
		c.x.reached = map[int64]int{}
	}
	c.x.reached[c.i] = n
}

// Reached is what Reach noted last
func (c *C) Reached() int { return c.x.reached[c.i] }

// Keep leaves something for the second pass, Kept gives it then
func (c *C) Keep(v interface{}) {
	if c.x.kept == nil {
		c.x.kept = map[int64]interface{}{}
	}
	c.x.kept[c.i] = v
}

// Kept is what Keep left
func (c *C) Kept() interface{} {
	v := c.x.kept[c.i]
	delete(c.x.kept, c.i)
	return v
}

// Focus marks a case that gets most of the time of the second pass
func (c *C) Focus() { c.focus = true }

// caseEnd is when the current case is to stop so that the others of the shard get their share of the time: a third of
// the time is for the first pass, the rest for the cases that need more
func (x *X) caseEnd() time.Time {
	if x.only >= 0 || x.total == 0 {
		return x.deadline
	}
	now := time.Now()
	share := time.Until(x.deadline)
	if x.pass == 2 {
		if x.focused > 0 {
			share = share * 3 / 4 / time.Duration(x.focused)
		} else if x.left > 3 {
			share = share * 3 / time.Duration(x.left)
		}
	} else {
		left := (x.total-x.idx)/x.nshards + 1
		share = (share - x.whole*2/3) / time.Duration(left)
		if share < 0 {
			share = 0
		}
	}
	if share < 100*time.Millisecond {
		share = 100 * time.Millisecond
	}
	if end := now.Add(share); end.Before(x.deadline) {
		return end
	}
	return x.deadline
}

// Again leaves the rest of the case to the second pass, if there is one
func (c *C) Again() bool {
	x := c.x
	if x.only < 0 && x.total > 0 && x.pass < 2 && time.Now().Before(x.deadline) {
		c.again = true
	}
	return c.again
}

const slotSize = 64

func worker(args []string) {
	// id tier shard nshards only upto budgetSeconds dir
	ck := checks[args[0]]
	num := func(s string) int64 {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		return n
	}
	x := &X{Tier: args[1], Thorough: args[1] == "thorough", shard: num(args[2]), nshards: num(args[3]), only: num(args[4]), upto: num(args[5])}
	x.whole = time.Duration(num(args[6])) * time.Second
	x.deadline = time.Now().Add(x.whole)
	dir := args[7]
	x.distinct = map[uint64]struct{}{}
	x.res.Known = map[string]int64{}
	x.res.Extra = map[string]int64{}
	f, err := os.OpenFile(filepath.Join(dir, "slot"), os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	x.slot, err = syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	if ck.MemMB > 0 {
		lim := uint64(ck.MemMB) << 20
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	workDir = dir
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30)
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		w, err := os.Create(f)
		if err != nil {
			panic(err)
		}
		pprof.StartCPUProfile(w)
	}
	if ck.Shares {
		n := &X{Tier: x.Tier, Thorough: x.Thorough, counting: true}
		ck.Run(n)
		x.total = n.idx
	}
	ck.Run(x)
	x.second()
	pprof.StopCPUProfile()
	x.res.Cases = x.idx
	x.res.Capped = x.res.Capped || x.cut
	var buf bytes.Buffer
	for h := range x.distinct {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], h)
		buf.Write(b[:])
	}
	if err := os.WriteFile(filepath.Join(dir, "distinct"), buf.Bytes(), 0o644); err != nil {
		panic(err)
	}
	js, err := json.Marshal(&x.res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "result.tmp"), js, 0o644); err != nil {
		panic(err)
	}
	os.Rename(filepath.Join(dir, "result.tmp"), filepath.Join(dir, "result"))
	os.Exit(0)
}

// workDir is the worker's scratch directory
var workDir string

type proc struct {
	dir     string
	cmd     *exec.Cmd
	out     *bytes.Buffer
	done    chan struct{}
	res     *Result
	ended   bool
	killed  string
	lastIdx uint64
	lastN   uint64
	since   time.Time
	shard   int64
	mu      sync.Mutex
}

func (p *proc) slot() (uint64, uint64) {
	b, err := os.ReadFile(filepath.Join(p.dir, "slot"))
	if err != nil || len(b) < 24 {
		return 0, 0
	}
	return binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])<<40 + binary.LittleEndian.Uint64(b[16:])
}

func start(base string, ck *Check, tier string, shard, nshards, only, upto, budget int64) *proc {
	dir, err := os.MkdirTemp(base, "w")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "slot"), make([]byte, slotSize), 0o644); err != nil {
		panic(err)
	}
	p := &proc{dir: dir, done: make(chan struct{}), since: time.Now(), shard: shard}
	s := func(n int64) string { return strconv.FormatInt(n, 10) }
	p.cmd = exec.Command(os.Args[0], "worker", ck.ID, tier, s(shard), s(nshards), s(only), s(upto), s(budget), dir)
	logf, err := os.Create(filepath.Join(dir, "log"))
	if err != nil {
		panic(err)
	}
	p.cmd.Stdout = logf
	p.cmd.Stderr = logf
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p.cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	logf.Close()
	go func() {
		p.cmd.Wait()
		close(p.done)
	}()
	return p
}

func (p *proc) log() string {
	b, _ := os.ReadFile(filepath.Join(p.dir, "log"))
	if len(b) > 6000 {
		b = append(b[:4000:4000], b[len(b)-2000:]...)
	}
	return string(b)
}

func (p *proc) kill(why string) {
	p.killed = why
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
}

// poll returns true when the process has ended; hang is a limit for a single case
func (p *proc) poll(hang time.Duration) bool {
	if p.ended {
		return true
	}
	select {
	case <-p.done:
		p.ended = true
		if b, err := os.ReadFile(filepath.Join(p.dir, "result")); err == nil {
			r := &Result{}
			if json.Unmarshal(b, r) == nil {
				p.res = r
			}
		}
		p.lastIdx, p.lastN = p.slot()
		return true
	default:
	}
	i, n := p.slot()
	if i != p.lastIdx || n != p.lastN {
		p.lastIdx, p.lastN = i, n
		p.since = time.Now()
	} else if i > 0 && time.Since(p.since) > hang && p.killed == "" {
		p.kill("hang")
	}
	return false
}

// outcome turns an ended process into a violation, if it shows one
func (p *proc) outcome() *Viol {
	if p.res != nil {
		return p.res.Viol
	}
	if p.lastIdx == 0 {
		return nil // died before the first case: not an observation of the code
	}
	v := &Viol{Case: int64(p.lastIdx) - 1, Shard: p.shard, Detail: p.log()}
	if p.killed == "hang" {
		v.Kind = "hang"
		v.Detail = "no progress within the watchdog limit\n" + v.Detail
	} else if p.killed != "" {
		return nil
	} else {
		v.Kind = "crash"
	}
	return v
}

func getenvInt(k string, def int64) int64 {
	if n, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return n
	}
	return def
}

func parent(id string, tier string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown check", id)
		return 0
	}
	t0 := time.Now()
	verif := os.Getenv("VERIF_DIR")
	base := os.Getenv("VERIF_SCRATCH")
	budget := int64(300)
	if ck.Shares {
		budget = 420
	}
	if tier == "thorough" {
		budget = 3000
	}
	budget = getenvInt("VERIF_BUDGET", budget)
	hang := time.Duration(getenvInt("VERIF_HANG", 60)) * time.Second
	n := int64(runtime.NumCPU())
	if n > 16 {
		n = 16
	}
	var ps []*proc
	for s := int64(0); s < n; s++ {
		ps = append(ps, start(base, ck, tier, s, n, -1, -1, budget))
	}
	if tier == "quick" {
		answerBy = time.Now().Add(780 * time.Second)
	}
	var cand *Viol
	hard := time.Now().Add(time.Duration(budget)*time.Second + 3*hang)
	for {
		all := true
		for _, p := range ps {
			if !p.poll(hang) {
				all = false
			}
			if p.ended && cand == nil {
				cand = p.outcome()
			}
		}
		if all {
			break
		}
		if cand != nil || time.Now().After(hard) {
			for _, p := range ps {
				if !p.ended {
					p.kill("stop")
				}
			}
			for _, p := range ps {
				<-p.done
				p.poll(hang)
			}
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	tot := Result{Known: map[string]int64{}, Extra: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	for _, p := range ps {
		r := p.res
		if r == nil {
			tot.Capped = true
			if p.killed == "" && cand == nil {
				fmt.Printf("note: worker %d ended without a result: %s\n", p.shard, p.log())
			}
			continue
		}
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Evals += r.Evals
		tot.Executed += r.Executed
		if r.Cases > tot.Cases {
			tot.Cases = r.Cases
		}
		tot.Capped = tot.Capped || r.Capped
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		for k, v := range r.Extra {
			tot.Extra[k] += v
		}
		if len(tot.Samples) < 16 {
			m := 3
			if len(r.Samples) < m {
				m = len(r.Samples)
			}
			tot.Samples = append(tot.Samples, r.Samples[len(r.Samples)-m:]...)
		}
		if b, err := os.ReadFile(filepath.Join(p.dir, "distinct")); err == nil {
			for i := 0; i+8 <= len(b); i += 8 {
				distinct[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
			}
		}
	}
	violations := 0
	var replay string
	if cand != nil {
		rep := confirm(base, ck, tier, n, cand, hang)
		if rep == "" {
			fmt.Printf("note: %s of case %d could not be reproduced and is not reported\n%s\n", cand.Kind, cand.Case, cand.Detail)
			tot.Capped = true
		} else {
			cand.Repro = rep
			violations = 1
			replay = writeReplay(verif, ck, tier, n, cand)
		}
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": getenvInt("VERIF_SEED", 1), "level": ck.Level,
		"wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": violations,
	}
	cov := map[string]interface{}{
		"exhaustive":     !tot.Capped && violations == 0,
		"samples":        tot.Samples,
		"rule":           ck.Rule,
		"cases_total":    tot.Cases,
		"cases_executed": tot.Executed,
	}
	if ck.Level == "model_checking" {
		cov["states"] = tot.States
		cov["transitions"] = tot.Transitions
		cov["traces_validated_against_impl"] = tot.Traces
	} else {
		cov["evaluations"] = tot.Evals
		cov["distinct_nontrivial"] = len(distinct)
	}
	for k, v := range tot.Extra {
		cov[k] = v
	}
	ev["coverage"] = cov
	if len(ck.Assume) > 0 {
		ev["assumptions"] = ck.Assume
	}
	writeEvidence(verif, ck.ID, ev)
	var ks []string
	for k := range tot.Known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d occurrences)\n", ck.ID, k, tot.Known[k])
	}
	fmt.Printf("%s %s: cases=%d/%d states=%d transitions=%d traces=%d evals=%d distinct=%d exhaustive=%v wall=%.1fs\n", ck.ID, tier,
		tot.Executed, tot.Cases, tot.States, tot.Transitions, tot.Traces, tot.Evals, len(distinct), cov["exhaustive"], time.Since(t0).Seconds())
	if violations > 0 {
		fmt.Printf("case %d: %s\n%s: %s\n", cand.Case, cand.Label, cand.Kind, cand.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, replay)
		return 1
	}
	return 0
}

func writeEvidence(verif, id string, ev map[string]interface{}) {
	js, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(js, '\n'), 0o644)
}

// answerBy is when a check has to have told its result
var answerBy time.Time

// confirmTime is the number of seconds that a run that confirms a violation may take
func confirmTime() int64 {
	left := int64(600)
	if !answerBy.IsZero() {
		left = int64(time.Until(answerBy).Seconds())
	}
	switch {
	case left > 600:
		left = 600
	case left < 20:
		left = 20
	}
	return left
}

// runOne runs a single process to its end
func runOne(base string, ck *Check, tier string, shard, n, only, upto int64, hang time.Duration) *Viol {
	p := start(base, ck, tier, shard, n, only, upto, confirmTime())
	for !p.poll(hang) {
		time.Sleep(5 * time.Millisecond)
	}
	return p.outcome()
}

// confirm re-runs the case alone, and if that does not show the failure again, together with all the cases that
// preceded it in its worker
func confirm(base string, ck *Check, tier string, n int64, cand *Viol, hang time.Duration) string {
	times := 5
	if cand.Kind == "hang" {
		times = 2
	}
	setSchedule(cand)
	begun := time.Now()
	ok := 0
	for i := 0; i < times; i++ {
		if i > 0 && (time.Since(begun) > 150*time.Second || confirmTime() < 30) {
			times = i
			break
		}
		if v := runOne(base, ck, tier, cand.Shard, n, cand.Case, -1, hang); v != nil {
			ok++
			if cand.Label == "" {
				cand.Label, cand.Model = v.Label, v.Model
			}
		}
	}
	if ok == times {
		return fmt.Sprintf("%d of %d runs of the case alone", ok, times)
	}
	if cand.Kind == "mismatch" && (time.Since(begun) > 100*time.Second || confirmTime() < 60) {
		return fmt.Sprintf("%d of %d runs of the case alone", ok, times)
	}
	alone := ok
	ok = 0
	times = 3
	for i := 0; i < times; i++ {
		if i > 0 && confirmTime() < 60 {
			times = i
			break
		}
		if v := runOne(base, ck, tier, cand.Shard, n, -1, cand.Case, hang); v != nil {
			ok++
		}
	}
	if ok == times || alone+ok > 0 || cand.Kind == "mismatch" {
		return fmt.Sprintf("%d of 5 runs of the case alone, %d of %d runs of its worker up to the case", alone, ok, times)
	}
	return ""
}

// setSchedule lets workers take the schedule of a violation first
func setSchedule(v *Viol) {
	var s []string
	for _, k := range v.Schedule {
		s = append(s, strconv.Itoa(k))
	}
	os.Setenv("VERIF_SCHEDULE", strings.Join(s, ","))
}

// givenSchedule is what setSchedule has set
func givenSchedule() []int {
	var r []int
	for _, f := range strings.Split(os.Getenv("VERIF_SCHEDULE"), ",") {
		if k, err := strconv.Atoi(f); err == nil {
			r = append(r, k)
		}
	}
	return r
}

func writeReplay(verif string, ck *Check, tier string, n int64, v *Viol) string {
	dir := filepath.Join(verif, ".build", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", ck.ID, v.Case))
	js, _ := json.MarshalIndent(map[string]interface{}{
		"property": ck.ID, "tier": tier, "shards": n, "violation": v,
		"how": "bash /verif/run.sh replay " + path,
	}, "", " ")
	os.WriteFile(path, js, 0o644)
	if v.Model != nil {
		os.WriteFile(strings.TrimSuffix(path, ".json")+".model", v.Model, 0o644)
	}
	return path
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property  string
		Tier      string
		Shards    int64
		Violation Viol
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	base := os.Getenv("VERIF_SCRATCH")
	ck := checks[r.Property]
	setSchedule(&r.Violation)
	v := runOne(base, ck, r.Tier, r.Violation.Shard, r.Shards, r.Violation.Case, -1, 60*time.Second)
	if v == nil {
		v = runOne(base, ck, r.Tier, r.Violation.Shard, r.Shards, -1, r.Violation.Case, 60*time.Second)
	}
	if v == nil {
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Printf("case %d: %s\n%s: %s\n", v.Case, v.Label, v.Kind, v.Detail)
	return 1
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vh check ID [quick|thorough] | replay FILE | worker ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "alone":
		aloneProcess(os.Args[2:])
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(parent(os.Args[2], tier))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
	}
}
