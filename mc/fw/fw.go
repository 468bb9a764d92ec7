// Package fw runs the jobs of a property in worker processes, turns crashes and hangs into
// violations, confirms violations in fresh processes and writes the evidence file.
package fw

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Job is a deterministic unit of exploration.
type Job struct {
	Name  string
	Run   func(c *Ctx)
	Fresh bool // runs in a process that has run nothing else
}

// Prop is the check of one property.
type Prop struct {
	ID          string
	Jobs        func(tier string) []Job
	Bounds      func(tier string) string
	Assumptions []string
}

var registry = map[string]*Prop{}

// Register adds a check.
func Register(p *Prop) { registry[p.ID] = p }

// Violation is one broken case.
type Violation struct {
	Case []int  `json:"case"`
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
}

// Result of a job.
type Result struct {
	Job         int            `json:"job"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Traces      int            `json:"traces"`
	Outcomes    []uint64       `json:"outcomes"`
	Samples     []string       `json:"samples"`
	Extra       map[string]int `json:"extra,omitempty"`
	RSS         int            `json:"rss,omitempty"`
	Complete    bool           `json:"complete"`
	Violation   *Violation     `json:"violation,omitempty"`
	Skips       map[string]int `json:"skips,omitempty"`
}

// Ctx is handed to jobs.
type Ctx struct {
	Tier        string
	Only        []int // replay: run only this case
	R           Result
	outcomes    map[uint64]struct{}
	states      map[uint64]struct{}
	prog        []byte
	cur         []int
	deadline    time.Time
	n           int
	stopped     bool
	samplesSeen int
}

// Quick tells the tier.
func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Replaying tells whether a single case is being replayed.
func (c *Ctx) Replaying() bool { return c.Only != nil }

// Case announces the case about to run; false: skip it (replay of another one, or stopped).
func (c *Ctx) Case(id ...int) bool {
	if c.Stop() {
		return false
	}
	if c.Only != nil {
		if len(id) != len(c.Only) {
			return false
		}
		for i := range id {
			if id[i] != c.Only[i] {
				return false
			}
		}
	}
	c.Mark(id...)
	return true
}

// Mark records the current case in the shared progress area.
func (c *Ctx) Mark(id ...int) {
	c.cur = append(c.cur[:0], id...)
	if c.prog != nil {
		w := (*[256]int64)(unsafe.Pointer(&c.prog[0]))
		w[0]++
		k := len(id)
		if k > 250 {
			k = 250
		}
		w[1] = int64(k)
		for i := 0; i < k; i++ {
			w[2+i] = int64(id[i])
		}
	}
}

// Stop: a violation was found or time is up.
func (c *Ctx) Stop() bool {
	if c.stopped {
		return true
	}
	c.n++
	if c.n&63 == 0 && time.Now().After(c.deadline) {
		c.stopped = true
		c.R.Complete = false
		return true
	}
	// the race detector keeps something of every goroutine there ever was
	if c.n&4095 == 0 && rss() > 3<<30 {
		c.stopped = true
		c.R.Complete = false
		return true
	}
	return false
}

// rss is the resident memory of this process.
func rss() int {
	b, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize()
}

// Failed tells whether a violation was recorded.
func (c *Ctx) Failed() bool { return c.R.Violation != nil }

// Fail records a violation of the current case and stops the job.
func (c *Ctx) Fail(desc, format string, a ...interface{}) {
	if c.R.Violation == nil {
		c.R.Violation = &Violation{Case: append([]int{}, c.cur...), Desc: clip(desc), Msg: clip(fmt.Sprintf(format, a...))}
	}
	c.stopped = true
}

func clip(s string) string {
	if len(s) > 4000 {
		return s[:4000] + "..."
	}
	return s
}

// Hash is a string hash.
func Hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// State counts a distinct state; true if new.
func (c *Ctx) State(s string) bool {
	h := Hash(s)
	if _, ok := c.states[h]; ok {
		return false
	}
	c.states[h] = struct{}{}
	return true
}

// Nodes counts states known to be distinct by construction.
func (c *Ctx) Nodes(n int) { c.R.States += n }

// Outcome counts a distinct observable outcome.
func (c *Ctx) Outcome(s string) {
	if len(c.outcomes) < 200000 {
		c.outcomes[Hash(s)] = struct{}{}
	}
}

// Trans counts compared operations.
func (c *Ctx) Trans(n int) { c.R.Transitions += n }

// Trace counts one complete execution of the real code that was compared with the oracle.
func (c *Ctx) Trace() { c.R.Traces++ }

// Extra counts something else.
func (c *Ctx) Extra(k string, n int) {
	if c.R.Extra == nil {
		c.R.Extra = map[string]int{}
	}
	c.R.Extra[k] += n
}

// Sample keeps a few written-out cases (exponentially spaced).
func (c *Ctx) Sample(f func() string) {
	c.samplesSeen++
	n := c.samplesSeen
	if n == 2 || n == 500 || n == 20000 {
		c.R.Samples = append(c.R.Samples, f())
	}
}

// Try runs f and returns the panic text, if any.
func Try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint("panic: ", r)
		}
	}()
	f()
	return ""
}

type opts struct {
	prop, tier, work, verif string
	seed                    int
	budget                  time.Duration
	level                   string
}

// Main is the entry point of the mc binary.
func Main() {
	debug.SetMaxStack(256 << 20)
	args := map[string]string{}
	for _, a := range os.Args[1:] {
		kv := strings.SplitN(strings.TrimLeft(a, "-"), "=", 2)
		if len(kv) == 1 {
			kv = append(kv, "1")
		}
		args[kv[0]] = kv[1]
	}
	p := registry[args["prop"]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "mc: no such property:", args["prop"])
		os.Exit(2)
	}
	tier := args["tier"]
	if tier != "thorough" {
		tier = "quick"
	}
	jobs := p.Jobs(tier)
	if args["worker"] != "" {
		worker(p, jobs, tier, args)
		return
	}
	os.Exit(parent(p, jobs, tier, args))
}

func worker(p *Prop, jobs []Job, tier string, args map[string]string) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	var prog []byte
	if f := args["progress"]; f != "" {
		fd, err := os.OpenFile(f, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			fd.Truncate(4096)
			prog, _ = syscall.Mmap(int(fd.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
	}
	dl, _ := strconv.ParseInt(args["deadline"], 10, 64)
	var only []int
	if s := args["only"]; s != "" {
		json.Unmarshal([]byte(s), &only)
		if len(only) == 0 {
			only = nil
		}
	}
	out := json.NewEncoder(os.Stdout)
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		n, err := strconv.Atoi(strings.TrimSpace(sc.Text()))
		if err != nil || n < 0 || n >= len(jobs) {
			os.Exit(7)
		}
		c := &Ctx{Tier: tier, Only: only, prog: prog, deadline: time.Unix(dl, 0), outcomes: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
		c.R.Job = n
		c.R.Complete = true
		c.Mark()
		if msg := Try(func() { jobs[n].Run(c) }); msg != "" {
			c.Fail("", "%s", msg)
		}
		c.R.States += len(c.states)
		for o := range c.outcomes {
			c.R.Outcomes = append(c.R.Outcomes, o)
		}
		c.R.RSS = rss()
		out.Encode(&c.R)
	}
}

type wproc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	errb   *tail
	prog   string
	lastHB int64
	lastT  time.Time
}

type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 16000 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }

func readProg(f string) (hb int64, id []int) {
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 4096 {
		return 0, nil
	}
	w := (*[256]int64)(unsafe.Pointer(&b[0]))
	k := int(w[1])
	if k < 0 || k > 250 {
		k = 0
	}
	for i := 0; i < k; i++ {
		id = append(id, int(w[2+i]))
	}
	return w[0], id
}

const hangAfter = 240 * time.Second

var seqNo int
var seqMu sync.Mutex

func start(args map[string]string, deadline time.Time, only []int) (*wproc, error) {
	seqMu.Lock()
	seqNo++
	n := seqNo
	seqMu.Unlock()
	w := &wproc{prog: filepath.Join(args["work"], fmt.Sprintf("progress.%d.%d", os.Getpid(), n)), errb: &tail{}}
	a := []string{"-worker", "-prop=" + args["prop"], "-tier=" + args["tier"], "-progress=" + w.prog, "-work=" + args["work"], "-deadline=" + strconv.FormatInt(deadline.Unix(), 10)}
	if only != nil {
		b, _ := json.Marshal(only)
		a = append(a, "-only="+string(b))
	}
	w.cmd = exec.Command(os.Args[0], a...)
	w.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
	w.cmd.Stderr = w.errb
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	if err = w.cmd.Start(); err != nil {
		return nil, err
	}
	return w, nil
}

// run one job in the worker; a dead or hung worker becomes a violation (or an error).
func (w *wproc) run(n int, deadline time.Time) (*Result, bool) {
	fmt.Fprintln(w.in, n)
	type rd struct {
		line []byte
		err  error
	}
	ch := make(chan rd, 1)
	go func() { l, e := w.out.ReadBytes('\n'); ch <- rd{l, e} }()
	w.lastT = time.Now()
	w.lastHB = -1
	tk := time.NewTicker(2 * time.Second)
	defer tk.Stop()
	for {
		select {
		case r := <-ch:
			res := &Result{}
			if r.err == nil && json.Unmarshal(r.line, res) == nil {
				if res.Violation != nil {
					if e := w.errb.String(); e != "" {
						res.Violation.Msg += "\n" + e
					}
				}
				return res, true
			}
			err := w.cmd.Wait()
			_, id := readProg(w.prog)
			return &Result{Job: n, Violation: &Violation{Case: id, Msg: fmt.Sprintf("the process running the library died (%v):\n%s", err, head(w.errb.String(), 3000))}}, false
		case <-tk.C:
			hb, id := readProg(w.prog)
			if hb != w.lastHB {
				w.lastHB, w.lastT = hb, time.Now()
			}
			if time.Since(w.lastT) > hangAfter {
				w.cmd.Process.Kill()
				w.cmd.Wait()
				return &Result{Job: n, Violation: &Violation{Case: id, Msg: fmt.Sprintf("no progress for %v: an operation does not terminate", hangAfter)}}, false
			}
		}
	}
}

func (w *wproc) close() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	os.Remove(w.prog)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func parent(p *Prop, jobs []Job, tier string, args map[string]string) int {
	t0 := time.Now()
	if args["work"] == "" {
		args["work"] = os.TempDir()
	}
	args["tier"] = tier
	if f := args["replay"]; f != "" {
		return replay(p, jobs, args, f)
	}
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if b, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && b > 0 {
		budget = time.Duration(b) * time.Second
	}
	deadline := t0.Add(budget)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw > len(jobs) {
		nw = len(jobs)
	}
	var mu sync.Mutex
	next := 0
	var results []*Result
	var bad *Result
	skipped := 0
	var wg sync.WaitGroup
	var fatal error
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *wproc
			defer func() {
				if w != nil {
					w.close()
				}
			}()
			for {
				mu.Lock()
				if next >= len(jobs) || bad != nil || fatal != nil {
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					skipped += len(jobs) - next
					next = len(jobs)
					mu.Unlock()
					return
				}
				n := next
				next++
				mu.Unlock()
				if w != nil && jobs[n].Fresh {
					w.close()
					w = nil
				}
				if w == nil {
					var err error
					if w, err = start(args, deadline, nil); err != nil {
						mu.Lock()
						fatal = err
						mu.Unlock()
						return
					}
				}
				tj := time.Now()
				r, alive := w.run(n, deadline)
				if os.Getenv("MC_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%6.1fs %9d executions  %s\n", time.Since(tj).Seconds(), r.Traces, jobs[n].Name)
				}
				if !alive {
					os.Remove(w.prog)
					w = nil
				} else if r.RSS > 1<<30 || jobs[n].Fresh {
					w.close() // the next job gets a new process
					w = nil
				}
				if r.Violation != nil && strings.Contains(r.Violation.Msg, "died (signal: killed)") {
					// killed from outside, perhaps for want of memory: only counts if the case does it again
					if ok, _ := confirm(p, args, r); ok == 0 {
						r = &Result{Job: n, Extra: map[string]int{"killed": 1}}
					}
				}
				mu.Lock()
				results = append(results, r)
				if r.Violation != nil && bad == nil {
					bad = r
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if fatal != nil {
		fmt.Fprintln(os.Stderr, "mc:", fatal)
		return 2
	}
	cov := map[string]interface{}{}
	states, trans, traces := 0, 0, 0
	outs := map[uint64]struct{}{}
	extra := map[string]int{}
	var samples []string
	complete := skipped == 0 && bad == nil
	sort.Slice(results, func(i, j int) bool { return results[i].Job < results[j].Job })
	for _, r := range results {
		states += r.States
		trans += r.Transitions
		traces += r.Traces
		for _, o := range r.Outcomes {
			outs[o] = struct{}{}
		}
		for k, v := range r.Extra {
			extra[k] += v
		}
		if len(samples) < 12 {
			for _, s := range r.Samples {
				samples = append(samples, jobs[r.Job].Name+": "+s)
			}
		}
		if !r.Complete {
			complete = false
		}
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []string{}
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = traces
	cov["distinct_outcomes"] = len(outs)
	cov["samples"] = samples
	cov["exhaustive"] = complete
	cov["jobs"] = len(results)
	cov["bounds"] = p.Bounds(tier)
	cov["instrumentation"] = os.Getenv("MC_INSTRUMENTATION")
	for k, v := range extra {
		cov[k] = v
	}
	nviol := 0
	code := 0
	if bad != nil {
		v := bad.Violation
		ok, runs := confirm(p, args, bad)
		dir := filepath.Join(args["verif"], "out")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", p.ID, tier))
		art := map[string]interface{}{"property": p.ID, "tier": tier, "job": bad.Job, "jobname": jobs[bad.Job].Name, "case": v.Case, "desc": v.Desc, "msg": v.Msg,
			"confirmed": fmt.Sprintf("%d of %d fresh processes", ok, runs), "replay": "bash /verif/run.sh " + p.ID + " -replay=" + path}
		b, _ := json.MarshalIndent(art, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("job %s case %v\n%s\n%s\nconfirmed in %d of %d fresh processes\n", jobs[bad.Job].Name, v.Case, v.Desc, head(v.Msg, 4000), ok, runs)
		nviol = 1
		if ok == 0 {
			fmt.Println("mc: the violation does not reproduce: error of the check")
			code = 2
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			code = 1
		}
	}
	ev := map[string]interface{}{"property": p.ID, "tier": tier, "level": "model_checking", "coverage": cov,
		"wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": nviol, "assumptions": p.Assumptions}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev["seed"] = seed
	b, _ := json.MarshalIndent(ev, "", " ")
	ed := filepath.Join(args["verif"], "evidence")
	os.MkdirAll(ed, 0o755)
	if err := os.WriteFile(filepath.Join(ed, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		return 2
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d executions, %d distinct outcomes, exhaustive=%v, %.1fs\n", p.ID, tier, states, trans, traces, len(outs), complete, time.Since(t0).Seconds())
	return code
}

// confirm replays the case in fresh processes.
func confirm(p *Prop, args map[string]string, bad *Result) (int, int) {
	ok, runs := 0, 0
	for runs < 5 {
		runs++
		only := bad.Violation.Case
		if only == nil {
			only = []int{}
		}
		w, err := start(args, time.Now().Add(200*time.Second), only)
		if err != nil {
			continue
		}
		r, alive := w.run(bad.Job, time.Time{})
		if alive {
			w.close()
		}
		if r.Violation != nil {
			ok++
		}
		if strings.Contains(bad.Violation.Msg, "no progress for") {
			break
		}
	}
	// a race may need the accesses of several executions to be seen: explore the whole job again
	for i := 0; ok == 0 && i < 2 && strings.HasPrefix(bad.Violation.Msg, "data race"); i++ {
		w, err := start(args, time.Now().Add(100*time.Second), nil)
		if err != nil {
			continue
		}
		runs++
		r, alive := w.run(bad.Job, time.Time{})
		if alive {
			w.close()
		}
		if r.Violation != nil {
			ok++
		}
	}
	return ok, runs
}

func replay(p *Prop, jobs []Job, args map[string]string, f string) int {
	var art struct {
		Job  int
		Case []int
		Tier string
	}
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, &art)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		return 2
	}
	args["tier"] = art.Tier
	if art.Case == nil {
		art.Case = []int{}
	}
	w, err := start(args, time.Now().Add(600*time.Second), art.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		return 2
	}
	r, alive := w.run(art.Job, time.Time{})
	if alive {
		w.close()
	}
	if r.Violation != nil {
		fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", r.Violation.Desc, r.Violation.Msg, p.ID, f)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
