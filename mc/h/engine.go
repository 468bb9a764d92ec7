package h

import (
	"fmt"
	"strings"

	"xcoremc/fw"
	"xcoremc/rt"
)

// Inst is the implementation and its reference model, advanced together.
type Inst interface {
	// Apply runs operation op on both and returns what each answered.
	Apply(op int) (got, want string)
	// Key is the canonical state of both.
	Key() string
}

// apply turns a panic of the implementation into an answer.
func apply(in Inst, op int) (got, want string) {
	defer func() {
		if r := recover(); r != nil {
			got, want = fmt.Sprint("panic: ", r), "no panic"
		}
	}()
	return in.Apply(op)
}

func names(ops []string, hist []int) string {
	s := make([]string, len(hist))
	for i, o := range hist {
		s[i] = ops[o]
	}
	return strings.Join(s, "; ")
}

// BFS explores all states reachable within depth operations, merging equal (model, implementation)
// states, and compares each transition.
func BFS(c *fw.Ctx, mk func() Inst, ops []string, depth, maxStates int) {
	if c.Replaying() {
		in := mk()
		h := c.Only
		c.Mark(h...)
		for i, o := range h {
			if o < 0 || o >= len(ops) {
				return
			}
			if g, w := apply(in, o); g != w {
				c.Fail(names(ops, h[:i+1]), "operation %q answered %q, expected %q", ops[o], g, w)
				return
			}
		}
		return
	}
	type node struct {
		parent *node
		op     int8
		depth  int8
	}
	hist := func(n *node) []int {
		h := make([]int, n.depth)
		for n.depth > 0 {
			h[n.depth-1] = int(n.op)
			n = n.parent
		}
		return h
	}
	root := &node{}
	c.State(mk().Key())
	frontier := []*node{root}
	total := 1
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var next []*node
		for _, n := range frontier {
			h := hist(n)
			h = append(h, 0)
			for o := range ops {
				h[len(h)-1] = o
				if !c.Case(h...) {
					return
				}
				in := mk()
				for _, p := range h[:len(h)-1] {
					apply(in, p)
				}
				g, w := apply(in, o)
				c.Trans(1)
				c.Trace()
				if g != w {
					c.Fail(names(ops, h), "operation %q answered %q, expected %q", ops[o], g, w)
					return
				}
				c.Outcome(ops[o] + "=" + g)
				c.Sample(func() string { return names(ops, h) + " => " + g })
				if total < maxStates && c.State(in.Key()) {
					total++
					next = append(next, &node{parent: n, op: int8(o), depth: n.depth + 1})
				}
			}
		}
		frontier = next
	}
	if len(frontier) == 0 {
		c.Extra("closed_state_spaces", 1)
	}
	if total >= maxStates {
		c.Extra("state_cap_hit", 1)
		c.R.Complete = false
	}
}

// Seqs runs every operation sequence of exactly length n starting with prefix, comparing each step.
func Seqs(c *fw.Ctx, mk func() Inst, ops []string, prefix []int, n int) {
	h := make([]int, n)
	copy(h, prefix)
	k := len(prefix)
	for {
		if c.Stop() {
			return
		}
		if c.Case(h...) {
			in := mk()
			for i, o := range h {
				g, w := apply(in, o)
				if g != w {
					c.Fail(names(ops, h[:i+1]), "operation %q answered %q, expected %q", ops[o], g, w)
					return
				}
				if i == n-1 {
					c.Outcome(ops[o] + "=" + g)
				}
			}
			c.Trans(n)
			c.Trace()
			c.State(in.Key())
			c.Sample(func() string { return names(ops, h) })
		}
		i := n - 1
		for i >= k {
			h[i]++
			if h[i] < len(ops) {
				break
			}
			h[i] = 0
			i--
		}
		if i < k {
			return
		}
	}
}

// ---- controlled concurrency

// Model is a sequential reference model for linearizability.
type Model interface {
	Apply(op int) string
	Clone() Model
}

// Spec describes a shared object explored under all schedules.
type Spec struct {
	Ops      []string
	New      func() interface{}
	Do       func(s interface{}, op int) string
	NewModel func() Model // nil: no linearizability
	// Check probes the object after the join, on every execution (nil: none).
	Check func(s interface{}) string
	// Epilogue operations run alone after the join.
	Epilogue []int
	// Norm, if set, normalises a result before comparison (both sides, thread operations only).
	Norm func(op int, r string) string
	// Before/After one execution
	Setup func()
	// Once: only the schedule that starts with Prefix.
	Once   bool
	Prefix []int
}

type hop struct {
	op       int
	call     int
	ret      int
	res      string
	finished bool
}

// Explore runs all schedules (preemption bound; <0: none) of the threads after the prologue.
func Explore(c *fw.Ctx, sp *Spec, prologue []int, threads [][]int, bound int) {
	id := []int{len(prologue)}
	id = append(id, prologue...)
	id = append(id, len(threads))
	for _, t := range threads {
		id = append(id, len(t))
		id = append(id, t...)
	}
	id = append(id, -1)
	prefix := append([]int{}, sp.Prefix...)
	if c.Replaying() {
		if len(c.Only) < len(id) {
			return
		}
		for i := range id {
			if id[i] != c.Only[i] {
				return
			}
		}
		prefix = append([]int{}, c.Only[len(id):]...)
	}
	desc := func(e *rt.Exec) string {
		var b strings.Builder
		if len(prologue) > 0 {
			b.WriteString("after " + names(sp.Ops, prologue) + ": ")
		}
		for i, t := range threads {
			if i > 0 {
				b.WriteString(" || ")
			}
			b.WriteString(names(sp.Ops, t))
		}
		if e != nil {
			b.WriteString(" schedule(thread per decision)=")
			for _, p := range e.Points {
				fmt.Fprintf(&b, "%d", p.Tid)
			}
		}
		return b.String()
	}
	judged := map[string]string{}
	first := true
	again := 0
	execs := 0
	known := 0 // decisions already counted as states
	for {
		if c.Stop() {
			return
		}
		full := append(append([]int{}, id...), prefix...)
		c.Mark(full...)
		e, hist, pro, epi, s, pmsg := runOnce(sp, prologue, threads, prefix)
		execs++
		fail := func(f string, a ...interface{}) {
			full := append([]int{}, id...)
			for _, p := range e.Points {
				full = append(full, p.Chosen)
			}
			c.Mark(full...)
			c.Fail(desc(e), f, a...)
		}
		c.Trace()
		c.Trans(e.Steps)
		c.Nodes(len(e.Points) - known + 1)
		if e.Diverged {
			c.Extra("diverged", 1)
			c.R.Complete = false
		}
		if pmsg != "" {
			fail("%s", pmsg)
			return
		}
		if e.Unsure {
			c.Extra("unsure", 1)
			c.R.Complete = false
			return
		}
		if e.Deadlock {
			fail("deadlock: no goroutine can continue")
			return
		}
		if e.Livelock {
			fail("more than %d steps: livelock", rt.MaxSteps)
			return
		}
		if rt.RaceErrors() > 0 {
			fail("data race")
			return
		}
		key := outcomeKey(hist, pro, epi)
		msg, ok := judged[key]
		if !ok {
			msg = judge(sp, prologue, hist, pro, epi)
			judged[key] = msg
			c.Outcome(desc(nil) + key)
		}
		if msg == "" && sp.Check != nil {
			if p := fw.Try(func() { msg = sp.Check(s) }); p != "" {
				msg = "afterwards: " + p
			}
		}
		if msg != "" {
			fail("%s\nobserved: %s", msg, history(sp, hist, pro, epi))
			return
		}
		if first {
			first = false
			c.Sample(func() string { return desc(e) + " -> " + history(sp, hist, pro, epi) })
			if sp.Once && !c.Replaying() {
				break
			}
			// the same schedule must give the same observations
			var again []int
			for _, p := range e.Points {
				again = append(again, p.Chosen)
			}
			_, h2, p2, e2, _, _ := runOnce(sp, prologue, threads, again)
			if outcomeKey(h2, p2, e2) != key {
				c.Extra("diverged", 1)
				c.R.Complete = false
			}
		}
		if c.Replaying() {
			// the race detector keeps few accesses per word, chosen at random: give it several chances
			if again++; again < 300 {
				continue
			}
			return
		}
		// next schedule
		pts := e.Points
		cost := make([]int, len(pts)+1)
		for i, p := range pts {
			cost[i+1] = cost[i]
			if p.Chosen > 0 && p.CurFirst {
				cost[i+1]++
			}
		}
		i := len(pts) - 1
		for ; i >= 0; i-- {
			p := pts[i]
			if p.Chosen+1 < p.N {
				extra := 0
				if p.CurFirst {
					extra = 1
				}
				if bound < 0 || cost[i]+extra <= bound {
					break
				}
			}
		}
		if i < 0 {
			break
		}
		prefix = prefix[:0]
		for j := 0; j < i; j++ {
			prefix = append(prefix, pts[j].Chosen)
		}
		prefix = append(prefix, pts[i].Chosen+1)
		known = i + 1
	}
	c.Extra("programs", 1)
	if execs > c.R.Extra["max_schedules_of_one_program"] {
		c.R.Extra["max_schedules_of_one_program"] = execs
	}
}

func outcomeKey(hist [][]hop, pro, epi []string) string {
	var b strings.Builder
	for _, t := range hist {
		for _, h := range t {
			b.WriteString(h.res)
			b.WriteByte(';')
			// real-time order relative to the other threads
			for _, u := range hist {
				for _, g := range u {
					if h.ret < g.call {
						b.WriteByte('<')
					} else {
						b.WriteByte('.')
					}
				}
			}
		}
		b.WriteByte('|')
	}
	for _, p := range pro {
		b.WriteString(p + ";")
	}
	for _, p := range epi {
		b.WriteString(p + ";")
	}
	return b.String()
}

func history(sp *Spec, hist [][]hop, pro, epi []string) string {
	var b strings.Builder
	for i, t := range hist {
		fmt.Fprintf(&b, "T%d:", i)
		for _, h := range t {
			fmt.Fprintf(&b, " %s=%s[%d,%d]", sp.Ops[h.op], h.res, h.call, h.ret)
		}
		b.WriteString("  ")
	}
	b.WriteString("then:")
	for i, p := range epi {
		if i < len(sp.Epilogue) {
			b.WriteString(" " + sp.Ops[sp.Epilogue[i]] + "=" + p)
		}
	}
	return b.String()
}

func runOnce(sp *Spec, prologue []int, threads [][]int, prefix []int) (e *rt.Exec, hist [][]hop, pro, epi []string, s interface{}, pmsg string) {
	if sp.Setup != nil {
		sp.Setup()
	}
	s = sp.New()
	for _, o := range prologue {
		var r string
		if p := fw.Try(func() { r = sp.Do(s, o) }); p != "" {
			r = p
			pmsg = "prologue " + sp.Ops[o] + ": " + p
		}
		pro = append(pro, r)
	}
	hist = make([][]hop, len(threads))
	bodies := make([]func(), len(threads))
	for i := range threads {
		i := i
		hist[i] = make([]hop, len(threads[i]))
		bodies[i] = func() { threadBody(sp, s, threads[i], hist[i]) }
	}
	e = rt.Run(prefix, bodies)
	for _, t := range hist {
		for _, h := range t {
			if strings.HasPrefix(h.res, "panic: ") && pmsg == "" {
				pmsg = sp.Ops[h.op] + ": " + h.res
			}
		}
	}
	if e.Deadlock || e.Livelock || e.Unsure {
		if e.Deadlock && pmsg != "" {
			pmsg += " (and then a deadlock)"
		}
		return
	}
	for _, o := range sp.Epilogue {
		var r string
		if p := fw.Try(func() { r = sp.Do(s, o) }); p != "" {
			r = p
			if e.Killed && strings.Contains(p, "deadlock: ") {
				e.Unsure = true
				return
			}
			if pmsg == "" {
				pmsg = "afterwards, " + sp.Ops[o] + ": " + p
			}
		}
		epi = append(epi, r)
	}
	return
}

func threadBody(sp *Spec, s interface{}, ops []int, hist []hop) {
	for j, o := range ops {
		if j == 0 {
			rt.FirstOp()
		} else {
			rt.OpBoundary()
		}
		h := &hist[j]
		h.op = o
		h.call = rt.Tick()
		h.res = doOp(sp, s, o)
		h.ret = rt.Tick()
		h.finished = true
	}
}

func doOp(sp *Spec, s interface{}, o int) (r string) {
	defer func() {
		if p := recover(); p != nil {
			if rt.Aborted(p) {
				panic(p)
			}
			r = fmt.Sprint("panic: ", p)
		}
	}()
	return sp.Do(s, o)
}

func judge(sp *Spec, prologue []int, hist [][]hop, pro, epi []string) string {
	if sp.NewModel != nil {
		m := sp.NewModel()
		for i, o := range prologue {
			if w := m.Apply(o); w != pro[i] {
				return fmt.Sprintf("before the threads, %q answered %q, expected %q", sp.Ops[o], pro[i], w)
			}
		}
		if !linearize(sp, m, hist, make([]int, len(hist)), epi) {
			return "not linearizable: no one-at-a-time order of the operations gives these results"
		}
	}
	return ""
}

func linearize(sp *Spec, m Model, hist [][]hop, pos []int, epi []string) bool {
	minRet := 1 << 60
	left := false
	for t := range hist {
		if pos[t] < len(hist[t]) {
			left = true
			if r := hist[t][pos[t]].ret; r < minRet {
				minRet = r
			}
		}
	}
	if !left {
		for i, o := range sp.Epilogue {
			if w := m.Apply(o); w != epi[i] {
				return false
			}
		}
		return true
	}
	for t := range hist {
		if pos[t] >= len(hist[t]) {
			continue
		}
		h := hist[t][pos[t]]
		if h.call > minRet {
			continue
		}
		m2 := m.Clone()
		w, g := m2.Apply(h.op), h.res
		if sp.Norm != nil {
			w, g = sp.Norm(h.op, w), sp.Norm(h.op, g)
		}
		if w != g {
			continue
		}
		pos[t]++
		if linearize(sp, m2, hist, pos, epi) {
			pos[t]--
			return true
		}
		pos[t]--
	}
	return false
}

// Programs lists all operation sequences of length n over the given operations.
func Programs(ops []int, n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range Programs(ops, n-1) {
		for _, o := range ops {
			r = append(r, append(append([]int{}, p...), o))
		}
	}
	return r
}

// Threads explores all combinations of programs with the given lengths, one per thread; threads of
// equal length are interchangeable. The first program is taken modulo the shard.
func Threads(c *fw.Ctx, sp *Spec, prologue []int, alpha []int, lens []int, bound, shard, nshards int) {
	progs := make([][][]int, len(lens))
	for i, l := range lens {
		progs[i] = Programs(alpha, l)
	}
	at := make([]int, len(lens))
	threads := make([][]int, len(lens))
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == len(lens) {
			if c.Stop() {
				return false
			}
			Explore(c, sp, prologue, append([][]int{}, threads...), bound)
			return true
		}
		from := 0
		if k > 0 && lens[k] == lens[k-1] {
			from = at[k-1]
		}
		for i := from; i < len(progs[k]); i++ {
			if k == 0 && i%nshards != shard {
				continue
			}
			at[k], threads[k] = i, progs[k][i]
			if !rec(k + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

// shape is a set of programs to explore: lengths per thread and the preemption bound (<0: none).
type shape struct {
	lens  []int
	bound int
	alpha []int // nil: all operations
}

// shapeJobs splits the exploration of each shape over jobs.
func shapeJobs(tag string, sp *Spec, pro, alpha []int, shapes []shape) []fw.Job {
	var jobs []fw.Job
	for _, sh := range shapes {
		sh, alpha := sh, alpha
		if sh.alpha != nil {
			alpha = sh.alpha
		}
		n := 1
		for i := 0; i < sh.lens[0]; i++ {
			n *= len(alpha)
		}
		if n > 48 {
			n = 48
		}
		if len(sh.lens) == 2 && sh.lens[0]+sh.lens[1] == 2 {
			n = 1
		}
		for s := 0; s < n; s++ {
			s := s
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s threads %v bound %d part %d", tag, sh.lens, sh.bound, s), Run: func(c *fw.Ctx) {
				Threads(c, sp, pro, alpha, sh.lens, sh.bound, s, n)
			}})
		}
	}
	return jobs
}
