package h

import (
	"fmt"
	"io"
	"log"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"

	"xcoremc/fw"
	"xcoremc/rt"
)

const sec = time.Second

func sel(quick bool, a, b int) int {
	if quick {
		return a
	}
	return b
}

// ---- C01, C24: values and invalidation

func valueOps(v1 bool) []cop {
	ops := []cop{
		{kind: "set", key: "a", val: "a1"}, {kind: "set", key: "a", val: "a2"}, {kind: "set", key: "b", val: "b1"},
		{kind: "get", key: "a"}, {kind: "get", key: "b"},
		{kind: "del", key: "a"}, {kind: "clean", n: 0}, {kind: "clean", n: 50},
		{kind: "verify"}, {kind: "flush"}, {kind: "tick", d: 3 * sec}, {kind: "tick", d: 12 * sec},
	}
	if !v1 {
		ops = append(ops, cop{kind: "ttl", key: "a", d: 7 * sec}, cop{kind: "ttl", key: "a", d: 20 * sec}, cop{kind: "ttl", key: "a"}, cop{kind: "ttl", key: "b", d: 7 * sec})
	}
	return ops
}

func valueJobs(tier string, v1 bool) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	ops := valueOps(v1)
	for _, ex := range []time.Duration{0, 10 * sec} {
		for _, va := range []int{0, 1, 2} {
			k := cacheCfg{v1: v1, expire: ex, valid: va}
			jobs = append(jobs, fw.Job{Name: "bfs " + k.String(), Run: func(c *fw.Ctx) {
				rt.MapDesc = false
				BFS(c, func() Inst { return newCacheInst(k, ops) }, copNames(ops), sel(q, 9, 16), sel(q, 200000, 2000000))
			}})
			for f := range ops {
				f := f
				jobs = append(jobs, fw.Job{Name: "seqs " + k.String() + " " + ops[f].String(), Run: func(c *fw.Ctx) {
					Seqs(c, func() Inst { return newCacheInst(k, ops) }, copNames(ops), []int{f}, sel(q, 5, 6))
				}})
			}
			// the same in other units of time
			for _, u := range []time.Duration{1, time.Microsecond, time.Millisecond, 137 * time.Millisecond, time.Hour, 100 * 24 * time.Hour} {
				k := cacheCfg{v1: v1, expire: ex / sec * u, valid: va, unit: u}
				o := k.scaled(ops)
				jobs = append(jobs, fw.Job{Name: "bfs " + k.String(), Run: func(c *fw.Ctx) {
					BFS(c, func() Inst { return newCacheInst(k, o) }, copNames(o), sel(q, 5, 8), sel(q, 30000, 400000))
				}})
			}
		}
	}
	// the configuration changes between operations
	conf := []cop{{kind: "set", key: "a", val: "a1"}, {kind: "set", key: "b", val: "b1"}, {kind: "set", key: "c", val: "c1"}, {kind: "get", key: "a"}, {kind: "get", key: "b"}, {kind: "clean"}, {kind: "verify"}, {kind: "flush"}, {kind: "tick", d: 12 * sec},
		{kind: "max=", n: 0}, {kind: "max=", n: 1}, {kind: "max=", n: 2}, {kind: "expire="}, {kind: "expire=", d: 10 * sec}, {kind: "expire=", d: 20 * sec}, {kind: "validator="}, {kind: "validator=", n: 1}, {kind: "validator=", n: 2}}
	for _, max := range []int{0, 2} {
		for _, ex := range []time.Duration{0, 10 * sec} {
			k := cacheCfg{v1: v1, expire: ex, max: max}
			jobs = append(jobs, fw.Job{Name: "bfs configuration changes " + k.String(), Run: func(c *fw.Ctx) {
				BFS(c, func() Inst { return newCacheInst(k, conf) }, copNames(conf), sel(q, 6, 9), sel(q, 40000, 300000))
			}})
		}
	}
	for _, va := range []int{0, 1, 2} {
		k := cacheCfg{v1: v1, expire: 10 * sec, valid: va, max: 3}
		o := append(append([]cop{}, ops...), cop{kind: "set", key: "c", val: "c1"})
		jobs = append(jobs, fw.Job{Name: "bfs with the log on " + k.String(), Run: func(c *fw.Ctx) {
			log.SetOutput(io.Discard)
			x1.LOG, x2.LOG = true, true
			defer func() { x1.LOG, x2.LOG = false, false }()
			BFS(c, func() Inst { return newCacheInst(k, o) }, copNames(o), sel(q, 5, 7), sel(q, 20000, 100000))
		}})
	}
	jobs = append(jobs, fw.Job{Name: "kinds of values", Run: func(c *fw.Ctx) { cacheValues(c, v1) }})
	jobs = append(jobs, fw.Job{Name: "unusual keys", Run: func(c *fw.Ctx) { cacheKeys(c, v1) }})
	if !v1 {
		jobs = append(jobs, fw.Job{Name: "times to live set twice", Run: ttlTwice})
	}
	if !v1 {
		jobs = append(jobs, familyJobs(q, v1)...)
	}
	return jobs
}

// cacheValues: every kind of value, overwritten by every other, is handed back as it was stored.
func cacheValues(c *fw.Ctx, v1 bool) {
	x := 1
	type unc struct{ l []int }
	vals := []interface{}{nil, 0, "", false, 1, "x", []int{1}, []int(nil), map[string]int{"a": 1}, map[string]int(nil), &x, (*int)(nil), unc{[]int{1}}, struct{}{}, fmt.Errorf("e"), 1.5, make(chan int), time.Unix(5, 0), []interface{}{nil}, func() int { return 1 }}
	for i, a := range vals {
		for j, b := range vals {
			for _, ex := range []time.Duration{0, 10 * sec} {
				for va := 0; va < 2; va++ {
					if !c.Case(i, j, int(ex/sec), va) {
						continue
					}
					rt.SetClock(0)
					name := fmt.Sprintf("values %T(%v) then %T(%v), expire=%v validator=%d", a, a, b, b, ex, va)
					cache := cacheCfg{v1: v1, expire: ex, valid: va * 3}.build(nil)
					chk := func(k string, want interface{}, n int) bool {
						var g interface{}
						var inv bool
						if p := fw.Try(func() { g, inv = cache.Get(k) }); p != "" {
							c.Fail(name, "Get(%s): %s", k, p)
						} else if inv || !identical(g, want) {
							c.Fail(name, "Get(%s)=%T(%v),%v", k, g, g, inv)
						} else if m := cache.Count(); m != n {
							c.Fail(name, "Count()=%d, expected %d", m, n)
						}
						c.Trans(1)
						return !c.Failed()
					}
					step := func(f func()) bool {
						if p := fw.Try(f); p != "" {
							c.Fail(name, "%s", p)
						}
						return !c.Failed()
					}
					ok := step(func() { cache.Set("a", a) }) && chk("a", a, 1) && step(func() { cache.Set("b", b) }) && chk("b", b, 2) && chk("a", a, 2) &&
						step(func() { cache.Set("a", b) }) && chk("a", b, 2) && chk("a", b, 2) && step(func() { cache.Set("b", a) }) && chk("b", a, 2) &&
						step(func() { cache.Verify(); cache.Clean(0) }) && chk("a", b, 2) && chk("b", a, 2) && step(func() { cache.Clean(50) }) && chk("b", a, 1) && chk("a", nil, 1)
					if !ok {
						return
					}
					if ex != 0 {
						rt.Advance(12 * sec)
						if g, inv := cache.Get("b"); g != nil || !inv {
							c.Fail(name, "expired: Get(b)=%v,%v", g, inv)
							return
						}
						ok = step(func() { cache.Set("a", a); cache.Set("b", b) })
						rt.Advance(12 * sec)
						if n := cache.Clean(0); ok && n != 2 {
							c.Fail(name, "Clean(0) of two expired entries removed %d", n)
							return
						}
					}
					if !v1 { // with a time to live of its own
						t := func(k string, d time.Duration) { doCache(cache, cop{kind: "ttl", key: k, d: d}) }
						if !step(func() { cache.Flush(); cache.Set("a", a); cache.Set("b", b); t("a", 5*sec); t("b", 0) }) || !chk("a", a, 2) || !chk("b", b, 2) || !chk("a", a, 2) {
							return
						}
						rt.Advance(7 * sec)
						if g, inv := cache.Get("a"); g != nil || !inv {
							c.Fail(name, "past its time to live: Get(a)=%v,%v", g, inv)
							return
						}
						if !chk("b", b, 1) || !chk("a", nil, 1) {
							return
						}
					}
					// the same under a validator that refuses "a"
					step(func() { cache.Flush(); cache.Set("a", a); cache.Set("b", b) })
					doCache(cache, cop{kind: "validator=", n: 2})
					if g, inv := cache.Get("a"); g != nil || !inv {
						c.Fail(name, "refused: Get(a)=%v,%v", g, inv)
						return
					}
					if g, inv := cache.Get("a"); g != nil || inv {
						c.Fail(name, "refused, again: Get(a)=%v,%v", g, inv)
						return
					}
					step(func() { cache.Set("a", b) })
					if n := cache.Verify(); n != 1 {
						c.Fail(name, "Verify() of one refused entry removed %d", n)
						return
					}
					if !chk("b", b, 1) || !chk("a", nil, 1) {
						return
					}
					c.Trace()
					c.State(name)
					c.Sample(func() string { return name })
				}
			}
		}
	}
}

func identical(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return va.IsValid() == vb.IsValid()
	}
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Slice:
		return va.Pointer() == vb.Pointer() && va.Len() == vb.Len()
	case reflect.Map, reflect.Func:
		return va.Pointer() == vb.Pointer()
	}
	if !va.Comparable() {
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

// ttlTwice: of two times to live set the last counts, whatever the sizes of both.
func ttlTwice(c *fw.Ctx) {
	ds := []time.Duration{0, 1, 2, 999, 1000, time.Millisecond, time.Second - 1, time.Second, time.Minute, 59*time.Minute + 59*time.Second, 24 * time.Hour, 8760 * time.Hour}
	for e, ex := range []time.Duration{0, 5 * time.Millisecond, time.Hour} {
		for i, a := range ds {
			for j, b := range ds {
				for w := 0; w < 4; w++ { // w: read in between; written again at the end
					if !c.Case(e, i, j, w) {
						if c.Stop() {
							return
						}
						continue
					}
					ops := []cop{{kind: "set", key: "a", val: "1"}, {kind: "set", key: "b", val: "2"}, {kind: "ttl", key: "a", d: a}}
					if w%2 == 1 {
						ops = append(ops, cop{kind: "get", key: "a"})
					}
					ops = append(ops, cop{kind: "ttl", key: "a", d: b})
					if b > 1 {
						ops = append(ops, cop{kind: "tick", d: b - 1})
					}
					ops = append(ops, cop{kind: "get", key: "a"}, cop{kind: "tick", d: 2}, cop{kind: "get", key: "b"})
					if w < 2 {
						ops = append(ops, cop{kind: "get", key: "a"})
					} else {
						ops = append(ops, cop{kind: "clean", n: 0})
					}
					ops = append(ops, cop{kind: "count"}, cop{kind: "set", key: "a", val: "3"}, cop{kind: "tick", d: 3 * time.Millisecond}, cop{kind: "get", key: "a"}, cop{kind: "count"})
					in := newCacheInst(cacheCfg{expire: ex}, ops)
					for n := range ops {
						if g, w := apply(in, n); g != w {
							c.Fail(fmt.Sprintf("expire %v, time to live %v then %v, operation %d %s", ex, a, b, n, ops[n]), "answered %q, expected %q", g, w)
							return
						}
					}
					c.Trans(len(ops))
					c.Trace()
					c.Sample(func() string { return fmt.Sprintf("time to live %v then %v", a, b) })
				}
			}
		}
	}
}

// cacheKeys: keys are told apart exactly.
func cacheKeys(c *fw.Ctx, v1 bool) {
	keys := []string{"", " ", "a", "A", "a ", " a", "aa", "é", "e\u0301", "\x00", "a\x00", "a>b", "a:b", "0", "00", "-", "\xff", "\n", strings.Repeat("k", 5000), strings.Repeat("k", 5001)}
	for i, k1 := range keys {
		for j, k2 := range keys {
			for l, k3 := range keys {
				if i == j || j == l || i == l {
					continue
				}
				if !c.Case(i, j, l) {
					if c.Stop() {
						return
					}
					continue
				}
				ops := []cop{{kind: "set", key: k1, val: "1"}, {kind: "set", key: k2, val: "2"}, {kind: "get", key: k3}, {kind: "get", key: k1}, {kind: "get", key: k2}, {kind: "del", key: k3}, {kind: "set", key: k3, val: "3"}, {kind: "del", key: k1},
					{kind: "get", key: k1}, {kind: "get", key: k2}, {kind: "get", key: k3}, {kind: "clean", n: 50}, {kind: "get", key: k2}, {kind: "get", key: k3}, {kind: "set", key: k1, val: "4"}}
				if !v1 {
					ops = append(ops, cop{kind: "ttl", key: k1, d: 7 * sec}, cop{kind: "ttl", key: k2, d: 7 * sec})
				}
				ops = append(ops, cop{kind: "tick", d: 8 * sec}, cop{kind: "get", key: k3}, cop{kind: "get", key: k1}, cop{kind: "get", key: k2}, cop{kind: "clean", n: 100})
				in := newCacheInst(cacheCfg{v1: v1}, ops)
				for i := range ops {
					if g, w := apply(in, i); g != w {
						c.Fail(fmt.Sprintf("keys %q %q %q, operation %d", k1, k2, k3, i), "answered %q, expected %q", g, w)
						return
					}
				}
				c.Trans(len(ops))
				c.Trace()
				c.Sample(func() string { return fmt.Sprintf("keys %q %q %q", k1, k2, k3) })
			}
		}
	}
}

// ---- C02, C24: limits and recency

func limitOps(v1 bool, keys string, expire bool) []cop {
	var ops []cop
	for _, r := range keys {
		k := string(r)
		ops = append(ops, cop{kind: "set", key: k, val: k + "1"}, cop{kind: "get", key: k})
	}
	ops = append(ops, cop{kind: "del", key: "a"}, cop{kind: "clean", n: 34}, cop{kind: "clean", n: 50}, cop{kind: "flush"}, cop{kind: "verify"})
	if expire {
		ops = append(ops, cop{kind: "tick", d: 12 * sec}, cop{kind: "clean", n: 0})
		if !v1 {
			ops = append(ops, cop{kind: "ttl", key: "b", d: 7 * sec})
		}
	}
	return ops
}

func limitJobs(tier string, v1 bool) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	for max := 0; max <= sel(q, 4, 5); max++ {
		for _, ex := range []time.Duration{0, 10 * sec} {
			for _, va := range []int{0, 2} {
				if va != 0 && max > 2 {
					continue
				}
				k := cacheCfg{v1: v1, max: max, expire: ex, valid: va}
				keys := "abcde"
				if max >= 4 {
					keys = "abcdef"
				}
				ops := limitOps(v1, keys[:max+2-boolInt(max >= 4)+boolInt(max == 0)], ex != 0)
				for _, desc := range []bool{false, true} {
					desc := desc
					if desc && ex == 0 {
						continue
					}
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("bfs %s mapdesc=%v", k, desc), Run: func(c *fw.Ctx) {
						rt.MapDesc = desc
						defer func() { rt.MapDesc = false }()
						BFS(c, func() Inst { return newCacheInst(k, ops) }, copNames(ops), sel(q, 11, 16), sel(q, 200000, 2000000))
					}})
				}
			}
		}
	}
	// the maximum changes between operations
	mo := []cop{{kind: "get", key: "a"}, {kind: "get", key: "b"}, {kind: "del", key: "c"}, {kind: "clean", n: 34}, {kind: "max=", n: 0}, {kind: "max=", n: 1}, {kind: "max=", n: 2}, {kind: "max=", n: 3}, {kind: "max=", n: 5}}
	for _, n := range []string{"a", "b", "c", "d", "e", "f"} {
		mo = append(mo, cop{kind: "set", key: n, val: n + "1"})
	}
	for _, max := range []int{0, 3, 5} {
		k := cacheCfg{v1: v1, max: max}
		jobs = append(jobs, fw.Job{Name: "bfs changes of the maximum " + k.String(), Run: func(c *fw.Ctx) {
			BFS(c, func() Inst { return newCacheInst(k, mo) }, copNames(mo), sel(q, 8, 12), sel(q, 60000, 600000))
		}})
	}
	for part := 0; part < 4; part++ {
		part := part
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("changes of the maximum of a filled cache part %d", part), Run: func(c *fw.Ctx) {
			for n := 1 + part; n <= sel(q, 45, 130); n += 4 {
				var ops []cop
				for i := 0; i < n; i++ {
					ops = append(ops, cop{kind: "set", key: fmt.Sprint("k", i), val: fmt.Sprint("v", i)})
				}
				ops = append(ops, cop{kind: "set", key: "new", val: "nv"}, cop{kind: "set", key: "more", val: "mv"}, cop{kind: "set", key: "k0", val: "again"}, cop{kind: "get", key: "k0"})
				base := len(ops)
				for i := 0; i < n; i++ {
					ops = append(ops, cop{kind: "get", key: fmt.Sprint("k", i)})
				}
				ops = append(ops, cop{kind: "get", key: "new"}, cop{kind: "get", key: "more"}, cop{kind: "count"})
				for m := 0; m <= n+2; m++ {
					for w := 0; w < 3; w++ {
						if !c.Case(n, m, w) {
							if c.Stop() {
								return
							}
							continue
						}
						o := append(append([]cop{}, ops...), cop{kind: "max=", n: m})
						in := newCacheInst(cacheCfg{v1: v1, max: 0}, o)
						h := iota2(n)
						h = append(h, base-1, len(o)-1, n+w%3, n+(w+1)%3)
						for i := base; i < len(ops); i++ {
							h = append(h, i)
						}
						for i, x := range h {
							if g, wt := apply(in, x); g != wt {
								c.Fail(fmt.Sprintf("%d entries, maximum then %d, write %d: %s", n, m, w, names(copNames(o), h[:i+1])), "operation %q answered %q, expected %q", o[x].String(), g, wt)
								return
							}
						}
						c.Trans(len(h))
						c.Trace()
						c.State(fmt.Sprint(n, m, w))
						c.Sample(func() string { return fmt.Sprintf("%d entries, maximum then %d, write %d", n, m, w) })
					}
				}
			}
		}})
	}
	jobs = append(jobs, familyJobs(q, v1)...)
	return jobs
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// familyJobs: larger sizes, all combinations of size, touched entry, removed entry and percentage.
func familyJobs(q, v1 bool) []fw.Job {
	var jobs []fw.Job
	N := sel(q, 30, 60)
	percs := []int{0, 1, 3, 5, 7, 10, 15, 20, 25, 30, 33, 34, 40, 50, 51, 60, 66, 67, 75, 80, 90, 95, 99, 100}
	for n := 0; n <= N; n++ {
		n := n
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("family clean n=%d", n), Run: func(c *fw.Ctx) {
			for t := -1; t < n; t++ {
				for mode := 0; mode < 3; mode++ { // touch by read, by write, remove
					if t < 0 && mode > 0 {
						continue
					}
					for exp := 0; exp <= n; exp += max1(n / 3) { // that many entries are expired
						for _, p := range percs {
							if !c.Case(t, mode, exp, p) {
								if c.Stop() {
									return
								}
								continue
							}
							k := cacheCfg{v1: v1, expire: 10 * sec}
							var ops []cop
							for i := 0; i < n; i++ {
								if i == exp && exp > 0 {
									ops = append(ops, cop{kind: "tick", d: 6 * sec})
								}
								ops = append(ops, cop{kind: "set", key: "k" + strconv.Itoa(i), val: "v" + strconv.Itoa(i)})
							}
							if t >= 0 {
								kk := "k" + strconv.Itoa(t)
								ops = append(ops, []cop{{kind: "get", key: kk}, {kind: "set", key: kk, val: "w"}, {kind: "del", key: kk}}[mode])
							}
							if exp > 0 {
								ops = append(ops, cop{kind: "tick", d: 6 * sec})
							}
							ops = append(ops, cop{kind: "clean", n: p}, cop{kind: "clean", n: 20})
							runFamily(c, k, ops, n)
						}
					}
				}
			}
		}})
	}
	var sizes []int
	for n := 1; n <= sel(q, 40, 80); n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 199, 200, 255, 256, 257, 300)
	if !q {
		sizes = append(sizes, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1100)
	}
	jobs = append(jobs, bigCacheJobs(v1)...)
	pn := []int{149, 150, 199, 200, 201, 256, 300, 328, 400, 501, 512, 656, 700, 1000, 1023, 1100}
	for n := 0; n <= sel(q, 120, 140); n++ {
		pn = append(pn, n)
	}
	for _, n := range pn {
		n := n
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("family percentages n=%d", n), Run: func(c *fw.Ctx) {
			for p := 0; p <= 100; p++ {
				if !c.Case(p) {
					if c.Stop() {
						return
					}
					continue
				}
				var ops []cop
				for i := 0; i < n; i++ {
					ops = append(ops, cop{kind: "set", key: "k" + strconv.Itoa(i), val: "v"})
				}
				if n > 0 {
					ops = append(ops, cop{kind: "get", key: "k" + strconv.Itoa(n/2)}, cop{kind: "get", key: "k0"})
				}
				runFamily(c, cacheCfg{v1: v1}, append(ops, cop{kind: "clean", n: p}), n)
			}
		}})
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("family refill n=%d", n), Run: func(c *fw.Ctx) {
			for m := 1; m <= n+2; m++ {
				for empty := 0; empty < 3; empty++ { // empty it by Flush, Clean, Del
					if m > 20 && m < n-3 && m%7 != 0 || n > 300 && m > 2 && m < n-1 {
						continue
					}
					if !c.Case(m, empty) {
						if c.Stop() {
							return
						}
						continue
					}
					var ops []cop
					for i := 0; i < n; i++ {
						ops = append(ops, cop{kind: "set", key: "k" + strconv.Itoa(i), val: "v"})
					}
					switch empty {
					case 0:
						ops = append(ops, cop{kind: "flush"})
					case 1:
						ops = append(ops, cop{kind: "clean", n: 100})
					case 2:
						for i := 0; i < n; i++ {
							ops = append(ops, cop{kind: "del", key: "k" + strconv.Itoa(i)})
						}
					}
					for i := m - 1; i >= 0; i-- {
						ops = append(ops, cop{kind: "set", key: "k" + strconv.Itoa(i), val: "w"})
					}
					ops = append(ops, cop{kind: "get", key: "k" + strconv.Itoa(m-1)}, cop{kind: "clean", n: 50}, cop{kind: "clean", n: 30})
					runFamily(c, cacheCfg{v1: v1}, ops, m)
				}
			}
		}})
	}
	for _, n := range sizes {
		n := n
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("family drain n=%d", n), Run: func(c *fw.Ctx) {
			step := max1(n / 12)
			for t := -1; t < n; t++ {
				if n > 20 && t > 1 && t < n-3 && t%step != 0 {
					continue
				}
				for mode := 0; mode < 3; mode++ {
					if t < 0 && mode > 0 {
						continue
					}
					for _, first := range []int{0, 10, 50, 90} {
						if !c.Case(t, mode, first) {
							if c.Stop() {
								return
							}
							continue
						}
						k := cacheCfg{v1: v1}
						var ops []cop
						for i := 0; i < n; i++ {
							ops = append(ops, cop{kind: "set", key: "k" + strconv.Itoa(i), val: "v" + strconv.Itoa(i)})
						}
						if t >= 0 {
							kk := "k" + strconv.Itoa(t)
							ops = append(ops, []cop{{kind: "get", key: kk}, {kind: "set", key: kk, val: "w"}, {kind: "del", key: kk}}[mode])
						}
						ops = append(ops, cop{kind: "clean", n: first}, cop{kind: "set", key: "x0", val: "x"}, cop{kind: "get", key: "k" + strconv.Itoa(n-1)}, cop{kind: "clean", n: 50}, cop{kind: "clean", n: 50}, cop{kind: "set", key: "k0", val: "y"}, cop{kind: "clean", n: 99})
						runFamily(c, k, ops, n)
						ops = append(ops, cop{kind: "clean", n: 100}, cop{kind: "set", key: "k0", val: "z"}, cop{kind: "clean", n: 100})
						runFamily(c, k, ops, 2)
					}
				}
			}
		}})
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("family verify n=%d", n), Run: func(c *fw.Ctx) {
			for mod := 1; mod <= 5; mod++ {
				for r := 0; r < mod; r++ {
					for _, ex := range []int{0, 1, n / 2, n} {
						for _, desc := range []int{0, 1} {
							if !c.Case(mod, r, ex, desc) {
								if c.Stop() {
									return
								}
								continue
							}
							k := cacheCfg{v1: v1, valid: 10, refuse: ",", expire: 10 * sec}
							var ops []cop
							for i := 0; i < n; i++ {
								if i == ex && ex > 0 {
									ops = append(ops, cop{kind: "tick", d: 6 * sec})
								}
								kk := "k" + strconv.Itoa(i)
								if i%mod == r {
									k.refuse += kk + ","
								}
								ops = append(ops, cop{kind: "set", key: kk, val: "v" + strconv.Itoa(i)})
							}
							if ex > 0 {
								ops = append(ops, cop{kind: "tick", d: 6 * sec})
							}
							ops = append(ops, cop{kind: "verify"}, cop{kind: "verify"}, cop{kind: "set", key: "k0", val: "y"}, cop{kind: "verify"}, cop{kind: "clean", n: 50})
							rt.MapDesc = desc == 1
							runFamily(c, k, ops, n)
							rt.MapDesc = false
						}
					}
				}
			}
		}})
	}
	var maxs []int
	for m := 1; m <= sel(q, 64, 130); m++ {
		maxs = append(maxs, m)
	}
	maxs = append(maxs, 90, 96, 97, 98, 99, 100, 101, 109, 110, 111, 127, 128, 129, 130, 150, 199, 200, 201, 256, 257, 500)
	for _, m := range maxs {
		m := m
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("family max=%d", m), Run: func(c *fw.Ctx) {
			for t := -1; t < m; t++ {
				if m > 64 && t > 1 && t < m-3 && t%11 != 0 {
					continue
				}
				for mode := 0; mode < 3; mode++ {
					if t < 0 && mode > 0 {
						continue
					}
					for extra := 0; extra <= 3; extra++ {
						if !c.Case(t, mode, extra) {
							if c.Stop() {
								return
							}
							continue
						}
						k := cacheCfg{v1: v1, max: m}
						var ops []cop
						for i := 0; i < m-1; i++ {
							ops = append(ops, cop{kind: "set", key: "k" + strconv.Itoa(i), val: "v" + strconv.Itoa(i)})
						}
						if t >= 0 {
							kk := "k" + strconv.Itoa(t)
							ops = append(ops, []cop{{kind: "get", key: kk}, {kind: "set", key: kk, val: "w"}, {kind: "del", key: kk}}[mode])
						}
						for e := 0; e < extra; e++ {
							ops = append(ops, cop{kind: "set", key: "x" + strconv.Itoa(e), val: "x"})
							if e == 1 {
								ops = append(ops, cop{kind: "get", key: "k" + strconv.Itoa(m/2)})
							}
						}
						runFamily(c, k, ops, m)
					}
				}
			}
		}})
	}
	return jobs
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

// runFamily runs one sequence, then reads everything back.
func runFamily(c *fw.Ctx, k cacheCfg, ops []cop, n int) {
	for i := 0; i < n; i++ {
		ops = append(ops, cop{kind: "get", key: "k" + strconv.Itoa(i)})
	}
	for i := 0; i < 3; i++ {
		ops = append(ops, cop{kind: "get", key: "x" + strconv.Itoa(i)})
	}
	in := newCacheInst(k, ops)
	for i := range ops {
		g, w := apply(in, i)
		if g != w {
			c.Fail(strings.Join(copNames(ops[:i+1]), "; "), "%s answered %q, expected %q", ops[i], g, w)
			return
		}
	}
	c.Trans(len(ops))
	c.Trace()
	c.State(in.Key())
	c.Sample(func() string { return k.String() + ": " + strings.Join(copNames(ops), "; ") })
}

// ---- C05: validator protocol

type vcall struct {
	key string
	t   time.Time
}

type validInst struct {
	c     cacheAPI
	m     *cacheModel
	ops   []cop
	calls []vcall
}

func newValidInst(k cacheCfg, ops []cop) Inst {
	rt.SetClock(0)
	ageCap = 40 * k.u()
	v := &validInst{m: newCacheModel(k), ops: ops}
	v.c = k.build(func(key string, t time.Time) bool {
		v.calls = append(v.calls, vcall{key, t})
		return k.verdict(key, t, rt.Base.Add(rt.Clock()))
	})
	return v
}

func (v *validInst) Key() string { return v.m.key() + "/" + Dump(v.c) }

func (v *validInst) Apply(op int) (string, string) {
	o := v.ops[op]
	var must, may []vcall
	switch o.kind {
	case "get":
		if e, ok := v.m.items[o.key]; ok {
			if v.m.expOver(e) || v.m.ttlOver(e) {
				may = append(may, vcall{o.key, e.ctime})
			} else {
				must = append(must, vcall{o.key, e.ctime})
			}
		}
	case "verify":
		for k, e := range v.m.items {
			if !v.m.ttlOver(e) && !v.m.expOver(e) {
				must = append(must, vcall{k, e.ctime})
			}
		}
	}
	v.calls = nil
	w := v.m.do(o)
	g := doCache(v.c, o)
	calls := v.calls
	v.calls = nil
	g += " asked " + callStr(calls, may)
	w += " asked " + callStr(must, nil)
	g += " n=" + strconv.Itoa(v.c.Count())
	w += " n=" + strconv.Itoa(len(v.m.items))
	return g, w
}

func callStr(c []vcall, drop []vcall) string {
	var s []string
next:
	for _, x := range c {
		for _, d := range drop {
			if d.key == x.key && d.t.Equal(x.t) {
				continue next
			}
		}
		s = append(s, x.key+"@"+x.t.Sub(rt.Base).String())
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func validatorJobs(tier string, v1 bool) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	ops := append(valueOps(v1), cop{kind: "clean", n: 10}, cop{kind: "clean", n: 100})
	for _, ex := range []time.Duration{0, 10 * sec} {
		for _, va := range []int{1, 2, 3} {
			k := cacheCfg{v1: v1, expire: ex, valid: va}
			jobs = append(jobs, fw.Job{Name: "protocol " + k.String(), Run: func(c *fw.Ctx) {
				BFS(c, func() Inst { return newValidInst(k, ops) }, copNames(ops), sel(q, 9, 14), sel(q, 150000, 2000000))
			}})
		}
	}
	if !v1 { // version 1 has them with the limits
		for _, j := range familyJobs(q, v1) {
			if strings.HasPrefix(j.Name, "family verify") {
				jobs = append(jobs, j)
			}
		}
	}
	jobs = append(jobs, validatorConc(tier, v1)...)
	jobs = append(jobs, bigValidJob(v1))
	jobs = append(jobs, fw.Job{Name: "re-entrant", Run: func(c *fw.Ctx) { reentrant(c, v1) }})
	jobs = append(jobs, fw.Job{Name: "questions about questions", Run: func(c *fw.Ctx) { nestedQuestions(c, v1) }})
	jobs = append(jobs, fw.Job{Name: "panicking", Run: func(c *fw.Ctx) { panicking(c, v1) }})
	return jobs
}

// validatorConc: validators that use the cache or panic, while other goroutines use it.
func validatorConc(tier string, v1 bool) []fw.Job {
	ops := []cop{{kind: "get", key: "a"}, {kind: "get", key: "b"}, {kind: "verify"}, {kind: "set", key: "a", val: "a2"}, {kind: "set", key: "b", val: "b2"}, {kind: "del", key: "a"}, {kind: "clean", n: 0}, {kind: "clean", n: 50}, {kind: "count"}, {kind: "flush"}}
	shapes := []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: sel(tier != "thorough", 3, -1)}, {lens: []int{1, 1, 1}, bound: sel(tier != "thorough", 2, 3)}}
	var jobs []fw.Job
	for _, max := range []int{0, 3} {
		for va := 4; va <= 9; va++ {
			k := cacheCfg{v1: v1, valid: va, max: max}
			sp := &Spec{
				Ops:   copNames(ops),
				Setup: func() { rt.SetClock(0) },
				New: func() interface{} {
					c := k.build(nil)
					c.Set("a", "a1")
					c.Set("b", "b1")
					return c
				},
				Do: func(s interface{}, op int) (r string) {
					if k.valid == 9 {
						defer func() {
							if p := recover(); p != nil {
								if p != "validator" {
									panic(p)
								}
								r = "validator panicked"
							}
						}()
					}
					r = doCache(s.(cacheAPI), ops[op])
					if o := ops[op]; o.kind == "get" && r != "none" && r != "invalid" && !k.verdict(o.key, rt.Base, rt.Base) {
						panic("a refused entry was handed out: " + r)
					}
					return r
				},
				Check: func(s interface{}) string {
					c := s.(cacheAPI)
					doCache(c, cop{kind: "validator="})
					return cacheConsistent(c, k, []string{"a", "b", "c"})
				},
			}
			jobs = append(jobs, shapeJobs("validator at work "+k.String(), sp, nil, iota2(len(ops)), shapes)...)
		}
	}
	return append(jobs, verifyConc(tier, v1)...)
}

// verifyConc: a verification removes every refused entry nobody touches, whatever happens to the others meanwhile.
func verifyConc(tier string, v1 bool) []fw.Job {
	q := tier != "thorough"
	ops := []cop{{kind: "verify"}, {kind: "set", key: "a", val: "a2"}, {kind: "del", key: "a"}, {kind: "get", key: "a"}, {kind: "count"}, {kind: "clean"}, {kind: "flush"}, {kind: "get", key: "b"}, {kind: "set", key: "d", val: "d1"}}
	var jobs []fw.Job
	for _, ex := range []time.Duration{0, 20 * sec} {
		for _, desc := range []bool{false, true} {
			k, desc := cacheCfg{v1: v1, valid: 1, expire: ex}, desc
			sp := &Spec{
				Ops:   copNames(ops),
				Setup: func() { rt.SetClock(0); rt.MapDesc = desc },
				New: func() interface{} {
					c := k.build(nil)
					c.Set("a", "a1")
					c.Set("b", "b1")
					c.Set("c", "c1")
					rt.Advance(6 * sec)
					c.Set("e", "e1")
					return c
				},
				Do: func(s interface{}, op int) string { return doCache(s.(cacheAPI), ops[op]) },
				Check: func(s interface{}) string {
					rt.MapDesc = false
					c := s.(cacheAPI)
					doCache(c, cop{kind: "validator="})
					for _, kk := range []string{"b", "c"} {
						if g := getStr(c.Get(kk)); g != "none" {
							return "the refused entry " + kk + " survived the verification: " + g
						}
					}
					if g := getStr(c.Get("e")); g != "e1" && g != "none" {
						return "the good entry reads " + g
					}
					return cacheConsistent(c, k, []string{"a", "d", "e"})
				},
			}
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("verification with others %s mapdesc=%v", k, desc), Run: func(c *fw.Ctx) {
				for x := range ops {
					Explore(c, sp, nil, [][]int{{0}, {x}}, -1)
					for y := range ops {
						Explore(c, sp, nil, [][]int{{0}, {x, y}}, sel(q, 3, -1))
						Explore(c, sp, nil, [][]int{{0}, {x}, {y}}, sel(q, 2, 4))
					}
				}
			}})
		}
	}
	return jobs
}

// nestedQuestions: an entry is good if it is not refused itself and the entry it depends on can be read; the
// validator reads that one on the same cache, so that the reading asks again.
func nestedQuestions(c *fw.Ctx, v1 bool) {
	keys := []string{"a", "b", "c", "d"}
	for deps := 0; deps < 24; deps++ { // a on none, b, c, d; b on none, c, d; c on none, d
		dep := []int{deps % 4, 0, 0, 0}
		if n := deps / 4 % 3; n > 0 {
			dep[1] = n + 1
		}
		if deps/12 > 0 {
			dep[2] = 3
		}
		for refused := 0; refused < 16; refused++ {
			for missing := 0; missing < 5; missing++ {
				for first := 0; first < 5; first++ {
					for second := 0; second < 4; second++ {
						if !c.Case(deps, refused, missing, first, second) {
							if c.Stop() {
								return
							}
							continue
						}
						name := fmt.Sprintf("depends on %v (0: none), refused %04b, missing %d: read or verify %d, then read %d", dep, refused, missing, first, second)
						rt.SetClock(0)
						var cache cacheAPI
						var asked, want []string
						at := func(k string) int { return int(k[0] - 'a') }
						cache = cacheCfg{v1: v1, valid: 3}.build(func(key string, t time.Time) bool {
							asked = append(asked, key+t.Sub(rt.Base).String())
							i := at(key)
							ok := true
							if dep[i] > 0 {
								v, inv := cache.Get(keys[dep[i]])
								ok = v != nil && !inv
							}
							return ok && refused>>uint(i)&1 == 0
						})
						there := map[int]string{}
						for i, k := range keys {
							if i == missing {
								continue
							}
							cache.Set(k, k+"1")
							there[i] = k + rt.Clock().String()
							rt.Advance(sec)
						}
						var read func(i int) string
						read = func(i int) string {
							if there[i] == "" {
								return "none"
							}
							want = append(want, there[i])
							ok := true
							if dep[i] > 0 {
								r := read(dep[i])
								ok = r != "none" && r != "invalid"
							}
							if !ok || refused>>uint(i)&1 == 1 {
								delete(there, i)
								return "invalid"
							}
							return keys[i] + "1"
						}
						msg := try(func() string {
							if first < 4 {
								w := read(first)
								if g := getStr(cache.Get(keys[first])); g != w {
									return fmt.Sprintf("Get(%s)=%s, expected %s", keys[first], g, w)
								}
							} else { // in any order: everything that is not good goes
								all := map[int]string{}
								for i, t := range there {
									all[i] = t
								}
								for i := 3; i >= 0; i-- {
									read(i)
								}
								cache.Verify()
								for i, t := range all {
									if there[i] != "" && !strings.Contains(","+strings.Join(asked, ",")+",", ","+t+",") {
										return "not asked about " + keys[i]
									}
								}
								asked, want = nil, nil
							}
							w := read(second)
							if g := getStr(cache.Get(keys[second])); g != w {
								return fmt.Sprintf("then Get(%s)=%s, expected %s", keys[second], g, w)
							}
							if g, w := fmt.Sprint(asked), fmt.Sprint(want); g != w {
								return fmt.Sprintf("asked %s, expected %s", g, w)
							}
							if g := cache.Count(); g != len(there) {
								return fmt.Sprintf("%d entries, expected %d", g, len(there))
							}
							return ""
						})
						if msg != "" {
							c.Fail(name, "%s", msg)
							return
						}
						c.Trans(7)
						c.Trace()
						c.State(fmt.Sprint(deps, refused, missing, first, second))
						c.Sample(func() string { return name })
					}
				}
			}
		}
	}
}

// reentrant: the validator uses the cache itself.
func reentrant(c *fw.Ctx, v1 bool) {
	inner := []cop{{kind: "count"}, {kind: "get", key: "b"}, {kind: "set", key: "b", val: "b9"}, {kind: "set", key: "c", val: "c9"}, {kind: "set", key: "a", val: "a9"},
		{kind: "del", key: "a"}, {kind: "del", key: "b"}, {kind: "clean", n: 0}, {kind: "clean", n: 100}, {kind: "flush"}, {kind: "verify"}, {kind: "get", key: "a"}}
	if !v1 {
		inner = append(inner, cop{kind: "ttl", key: "a", d: 7 * sec}, cop{kind: "ttl", key: "b", d: 7 * sec})
	}
	outer := []cop{{kind: "get", key: "a"}, {kind: "verify"}}
	for oi, out := range outer {
		for ii, in := range inner {
			for verdict := 0; verdict < 3; verdict++ {
				for n := 1; n <= 3; n++ {
					for _, desc := range []bool{false, true} {
						if !c.Case(oi, ii, verdict, n, boolInt(desc)) {
							continue
						}
						rt.SetClock(0)
						rt.MapDesc = desc
						var cache cacheAPI
						armed, busy := false, false
						fired := 0
						asked := map[string]bool{}
						cache = cacheCfg{v1: v1, valid: 3}.build(func(key string, t time.Time) bool {
							if !armed || busy {
								return true
							}
							fired++
							asked[key] = true
							busy = true
							defer func() { busy = false }()
							doCache(cache, in)
							return verdict == 1 || (verdict == 0 && key != "a")
						})
						name := fmt.Sprintf("validator does %s and refuses %s during %s with %d entries", in, []string{"a", "nothing", "all"}[verdict], out, n)
						fail := func(f string, a ...interface{}) { c.Fail(name, f, a...) }
						for i := 0; i < n; i++ {
							kk := string(rune('a' + i))
							cache.Set(kk, kk+"1")
						}
						armed = true
						var res string
						if p := fw.Try(func() { res = doCache(cache, out) }); p != "" {
							fail("%s", p)
							break
						}
						armed = false
						c.Trace()
						c.Trans(n + 2)
						c.State(name + res + Dump(cache))
						c.Outcome(out.String() + res)
						c.Sample(func() string { return name })
						if fired == 0 {
							fail("the validator was not asked")
							break
						}
						// every entry nobody else touched is asked about
						all := in.kind != "flush" && in.n != 100
						for i := 0; i < n && all && out.kind == "verify"; i++ {
							kk := string(rune('a' + i))
							if (in.kind != "del" && in.kind != "set" || in.key != kk) && !asked[kk] {
								fail("the validator was not asked about %s", kk)
							}
						}
						if c.Failed() {
							break
						}
						if verdict == 2 {
							present := 0
							for i := 0; i < 3; i++ {
								kk := string(rune('a' + i))
								g := getStr(cache.Get(kk))
								if g != "none" {
									present++
								}
								may := in.kind == "set" && in.key == kk && g == in.val
								if out.kind == "get" && kk != "a" && i < n && all && !(in.kind == "del" && in.key == kk) {
									may = may || g == kk+"1"
								}
								if g != "none" && !may {
									fail("afterwards Get(%s)=%s", kk, g)
								}
							}
							if g := cache.Count(); g != present && !c.Failed() {
								fail("%d entries counted, %d can be read", g, present)
							}
							if !c.Failed() {
								if m := cacheConsistent(cache, cacheCfg{v1: v1}, []string{"a", "b", "c"}); m != "" {
									fail("%s", m)
								}
							}
							if c.Failed() {
								rt.MapDesc = false
								return
							}
							continue
						}
						// what must be there afterwards
						want := map[string]string{}
						for i := 0; i < n; i++ {
							kk := string(rune('a' + i))
							want[kk] = kk + "1"
						}
						switch in.kind {
						case "set":
							want[in.key] = in.val
						case "del":
							delete(want, in.key)
						case "flush":
							want = map[string]string{}
						case "clean":
							if in.n == 100 {
								want = map[string]string{}
							}
						}
						left := 0
						if verdict == 0 && want["a"] == "a1" {
							delete(want, "a")
							left = 1
						}
						if out.kind == "verify" && res != strconv.Itoa(left) {
							fail("reported %s removed entries, it removed %d", res, left)
							break
						}
						if out.kind == "get" {
							exp := []string{"a1"}
							if verdict == 0 {
								exp = []string{"invalid"}
								if in.kind == "del" || in.kind == "flush" || in.n == 100 {
									exp = append(exp, "none")
								}
								if in.kind == "set" && in.key == "a" {
									exp = append(exp, "a9")
								}
							} else if in.kind == "set" && in.key == "a" {
								exp = append(exp, "a9")
							} else if (in.kind == "del" && in.key == "a") || in.kind == "flush" || in.n == 100 {
								exp = append(exp, "none", "invalid")
							}
							if !contains(exp, res) {
								fail("answered %q, expected one of %v", res, exp)
								break
							}
						}
						if g := cache.Count(); g != len(want) {
							fail("%d entries left, expected %d (%v)", g, len(want), want)
							break
						}
						for _, kk := range []string{"a", "b", "c"} {
							w := want[kk]
							if w == "" {
								w = "none"
							}
							if g := getStr(cache.Get(kk)); g != w {
								fail("afterwards Get(%s)=%s, expected %s", kk, g, w)
							}
						}
						if !c.Failed() {
							if m := cacheConsistent(cache, cacheCfg{v1: v1}, []string{"a", "b", "c"}); m != "" {
								fail("%s", m)
							}
						}
						if c.Failed() {
							rt.MapDesc = false
							return
						}
					}
				}
			}
		}
	}
	rt.MapDesc = false
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// panicking: the validator panics on its n-th call.
func panicking(c *fw.Ctx, v1 bool) {
	follow := []cop{{kind: "count"}, {kind: "get", key: "a"}, {kind: "get", key: "b"}, {kind: "set", key: "a", val: "a2"}, {kind: "del", key: "a"}, {kind: "clean", n: 0}, {kind: "clean", n: 50}, {kind: "clean", n: 100}, {kind: "verify"}, {kind: "flush"}}
	outer := []cop{{kind: "get", key: "a"}, {kind: "get", key: "b"}, {kind: "verify"}}
	for oi, out := range outer {
		for at := 1; at <= 2; at++ {
			for f1, op1 := range follow {
				for f2, op2 := range follow {
					if !c.Case(oi, at, f1, f2) {
						continue
					}
					rt.SetClock(0)
					n := 0
					k := cacheCfg{v1: v1, valid: 3}
					cache := k.build(func(string, time.Time) bool {
						n++
						if n == at {
							panic("validator")
						}
						return true
					})
					m := newCacheModel(k)
					name := fmt.Sprintf("validator panics on call %d during %s, then %s; %s", at, out, op1, op2)
					for _, o := range []cop{{kind: "set", key: "a", val: "a1"}, {kind: "set", key: "b", val: "b1"}} {
						doCache(cache, o)
						m.do(o)
					}
					fw.Try(func() { doCache(cache, out) })
					if n >= at {
						// the entry asked about is neither read nor removed
					} else {
						m.do(out)
						if at == 2 {
							n = 100 // do not panic later
						}
					}
					for _, o := range []cop{op1, op2, {kind: "count"}, {kind: "get", key: "a"}, {kind: "get", key: "b"}} {
						var g string
						if p := fw.Try(func() { g = doCache(cache, o) }); p != "" {
							g = p
						}
						if w := m.do(o); g != w && !(o.kind == "get" && out.kind == "verify" && false) {
							c.Fail(name, "%s answered %q, expected %q", o, g, w)
							return
						}
						c.Trans(1)
					}
					c.Trace()
					c.State(name + Dump(cache))
					c.Outcome(op1.String() + op2.String())
					c.Sample(func() string { return name })
				}
			}
		}
	}
}

// ---- C03, C04, C25: concurrency

// cacheConsistent probes a quiescent cache; "" if all is well.
func cacheConsistent(c cacheAPI, k cacheCfg, keys []string) string {
	n := c.Count()
	if k.max > 0 && n > k.max {
		return fmt.Sprintf("%d entries with a maximum of %d", n, k.max)
	}
	var live []string
	found := 0
	for _, kk := range keys {
		r := getStr(c.Get(kk))
		switch {
		case r == "none":
		case r == "invalid":
			found++
		case strings.HasPrefix(r, kk):
			found++
			live = append(live, kk)
		default:
			return fmt.Sprintf("Get(%s)=%s", kk, r)
		}
	}
	if found != n {
		return fmt.Sprintf("Count()=%d but %d of the keys can be read or are invalid", n, found)
	}
	if g := c.Count(); g != len(live) {
		return fmt.Sprintf("Count()=%d after invalid entries were read, %d entries live", g, len(live))
	}
	if k.max == 0 {
		c.Set("y", "y1")
		c.Set("z", "z1")
		live = append(live, "y", "z")
	}
	num := len(live) / 2
	if g := c.Clean(50); g != num {
		return fmt.Sprintf("Clean(50) of %d entries removed %d", len(live), g)
	}
	for i, kk := range live {
		r := getStr(c.Get(kk))
		if (r != "none") != (i >= num) {
			return fmt.Sprintf("after Clean(50) of %v (oldest first) Get(%s)=%s", live, kk, r)
		}
	}
	if g := c.Clean(100); g != len(live)-num {
		return fmt.Sprintf("Clean(100) of %d entries removed %d", len(live)-num, g)
	}
	if g := c.Count(); g != 0 {
		return fmt.Sprintf("%d entries after Clean(100)", g)
	}
	c.Set("w", "w1")
	if r := getStr(c.Get("w")); r != "w1" {
		return "Get after refill: " + r
	}
	return ""
}

type cacheProg struct {
	cfg  cacheCfg
	pros [][]int
	ops  []cop
	// operations the threads may use
	alpha []int
}

func idx(ops []cop, o cop) int {
	for i := range ops {
		if ops[i] == o {
			return i
		}
	}
	panic("no such operation " + o.String())
}

func cacheProgs(v1, lin bool) []cacheProg {
	S := func(k, v string) cop { return cop{kind: "set", key: k, val: v} }
	G := func(k string) cop { return cop{kind: "get", key: k} }
	D := cop{kind: "del", key: "a"}
	C := func(n int) cop { return cop{kind: "clean", n: n} }
	tk := cop{kind: "tick", d: 12 * sec}
	flush, count, verify := cop{kind: "flush"}, cop{kind: "count"}, cop{kind: "verify"}
	ttlL := cop{kind: "ttl", key: "a", d: 70 * sec}
	ttlS := cop{kind: "ttl", key: "a", d: 7 * sec}
	base := []cop{S("a", "a1"), S("a", "a2"), S("b", "b1"), G("a"), G("b"), D, C(0), C(100), flush, count}
	if !v1 {
		base = append(base, ttlL)
	}
	nAlpha := len(base)
	if !lin {
		base = append(base, C(50), verify, S("c", "c1"), tk)
		nAlpha = len(base)
	}
	ops := append([]cop{}, base...)
	if lin {
		ops = append(ops, tk, C(50), S("c", "c1"), G("c"))
	}
	gone := []cop{{kind: "ttl", key: "z", d: -sec}, {kind: "ttl", key: "z"}, {kind: "ttl", key: "z", d: 7 * sec}, {kind: "del", key: "z"}, {kind: "get", key: "z"}}
	if !v1 {
		ops = append(ops, ttlS)
		ops = append(ops, gone...)
	}
	var alpha []int
	for i := 0; i < nAlpha; i++ {
		alpha = append(alpha, i)
	}
	p := func(l ...cop) []int {
		var r []int
		for _, o := range l {
			r = append(r, idx(ops, o))
		}
		return r
	}
	both := []cop{S("a", "a1"), S("b", "b1")}
	var r []cacheProg
	r = append(r, cacheProg{cfg: cacheCfg{v1: v1}, pros: [][]int{{}, p(both...)}, ops: ops, alpha: alpha})
	r = append(r, cacheProg{cfg: cacheCfg{v1: v1, expire: 10 * sec}, pros: [][]int{p(S("a", "a1"), tk, S("b", "b1"))}, ops: ops, alpha: alpha})
	r = append(r, cacheProg{cfg: cacheCfg{v1: v1, valid: 1}, pros: [][]int{p(S("a", "a1"), tk, S("b", "b1"))}, ops: ops, alpha: alpha})
	if !v1 {
		// giving a new time to live to an entry already past its old one is left out of the
		// linearizability runs: whether that revives it for overlapping readers is not specified
		al := alpha
		if lin {
			al = nil
			for _, i := range alpha {
				if ops[i].kind != "ttl" {
					al = append(al, i)
				}
			}
		}
		r = append(r, cacheProg{cfg: cacheCfg{}, pros: [][]int{p(S("a", "a1"), S("b", "b1"), ttlS, tk)}, ops: ops, alpha: al})
	}
	if lin { // evictions by the maximum, among writers only
		w := p(S("a", "a2"), S("b", "b1"), S("c", "c1"), D, C(0), C(50), C(100), count, flush)
		r = append(r, cacheProg{cfg: cacheCfg{v1: v1, max: 2}, pros: [][]int{{}, p(S("a", "a1"), S("b", "b1")), p(S("b", "b1"), S("a", "a1"))}, ops: ops, alpha: w})
		r = append(r, cacheProg{cfg: cacheCfg{v1: v1, max: 1, expire: 10 * sec}, pros: [][]int{p(S("a", "a1"), tk)}, ops: ops, alpha: w})
	}
	if !v1 && !lin { // a key that is not there
		r = append(r, cacheProg{cfg: cacheCfg{}, pros: [][]int{{}, p(both...)}, ops: ops, alpha: append(p(gone...), p(S("a", "a2"), G("a"), count, flush)...)})
	}
	if !lin {
		r = append(r, cacheProg{cfg: cacheCfg{v1: v1, max: 2}, pros: [][]int{{}, p(S("a", "a1"), S("b", "b1"))}, ops: ops, alpha: alpha})
		r = append(r, cacheProg{cfg: cacheCfg{v1: v1, max: 1}, pros: [][]int{p(S("a", "a1"))}, ops: ops, alpha: alpha})
		r = append(r, cacheProg{cfg: cacheCfg{v1: v1, max: 3, expire: 10 * sec, valid: 2}, pros: [][]int{p(S("a", "a1"), S("b", "b1"), tk, S("a", "a2"))}, ops: ops, alpha: alpha})
	}
	return r
}

// bigProgs: as cacheProgs with many other entries.
func bigProgs(v1, lin bool) []cacheProg {
	p := cacheProgs(v1, lin)[0]
	var r []cacheProg
	al := func(l ...cop) (r []int) {
		for _, o := range l {
			r = append(r, idx(p.ops, o))
		}
		return
	}
	S := func(k, v string) cop { return cop{kind: "set", key: k, val: v} }
	G, D := func(k string) cop { return cop{kind: "get", key: k} }, cop{kind: "del", key: "a"}
	C := func(n int) cop { return cop{kind: "clean", n: n} }
	tk, flush, count, verify := cop{kind: "tick", d: 12 * sec}, cop{kind: "flush"}, cop{kind: "count"}, cop{kind: "verify"}
	all := []cop{S("a", "a2"), S("b", "b1"), G("a"), D, C(0), C(100), flush, count}
	if !lin {
		all = append(all, verify, C(50))
	}
	writers := []cop{S("a", "a2"), S("c", "c1"), D, C(50), C(100), count, flush}
	add := func(k cacheCfg, alpha []cop, pro ...cop) {
		k.v1 = v1
		r = append(r, cacheProg{cfg: k, pros: [][]int{al(pro...)}, ops: p.ops, alpha: al(alpha...)})
	}
	for _, n := range []int{12, 40, 110, 1100} {
		add(cacheCfg{fill: n}, all, S("a", "a1"))
		if n < 1000 {
			add(cacheCfg{fill: n, max: n + 2}, writers, S("b", "b1"))
			add(cacheCfg{fill: n, expire: 10 * sec}, all, S("a", "a1"), tk, S("b", "b1"))
		}
	}
	if !lin {
		add(cacheCfg{fill: 40, valid: 1}, all, S("a", "a1"), tk, S("b", "b1"))
		add(cacheCfg{fill: 60, max: 62, valid: 2}, append(writers, G("a"), verify), S("a", "a1"))
	}
	return r
}

func cacheSpec(p cacheProg, lin, cons bool) *Spec {
	nm := copNames(p.ops)
	sp := &Spec{
		Ops:   nm,
		Setup: func() { rt.SetClock(0) },
		New: func() interface{} {
			c := p.cfg.build(nil)
			for _, k := range p.cfg.others() {
				doCache(c, cop{kind: "set", key: k, val: k})
			}
			return c
		},
		Do: func(s interface{}, op int) string {
			r := doCache(s.(cacheAPI), p.ops[op])
			if n, err := strconv.Atoi(r); err == nil && p.ops[op].kind == "count" && p.cfg.max > 0 && n > p.cfg.max {
				panic(fmt.Sprintf("Count()=%d with a maximum of %d", n, p.cfg.max))
			}
			return r
		},
	}
	if lin {
		sp.NewModel = func() Model { return &cacheLin{newCacheModel(p.cfg), p.ops} }
		// several readers may be told that the same old entry is invalid
		sp.Norm = func(op int, r string) string {
			if r == "invalid" {
				return "none"
			}
			return r
		}
		for _, o := range []cop{{kind: "count"}, {kind: "clean", n: 50}, {kind: "get", key: "a"}, {kind: "get", key: "b"}, {kind: "get", key: "c"}, {kind: "clean", n: 100}, {kind: "count"},
			{kind: "set", key: "b", val: "b1"}, {kind: "clean", n: 100}, {kind: "count"}} {
			sp.Epilogue = append(sp.Epilogue, idx(p.ops, o))
		}
	}
	if cons {
		sp.Check = func(s interface{}) string {
			return cacheConsistent(s.(cacheAPI), p.cfg, append([]string{"a", "b", "c"}, p.cfg.others()...))
		}
	}
	return sp
}

func schedJobs(tier string, v1, lin, cons bool) []fw.Job {
	shapes := []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: -1}, {lens: []int{1, 1, 1}, bound: -1}, {lens: []int{2, 2}, bound: -1}}
	if tier == "thorough" {
		shapes = append(shapes, shape{lens: []int{1, 3}, bound: -1}, shape{lens: []int{2, 1, 1}, bound: 3}, shape{lens: []int{1, 1, 1, 1}, bound: 3}, shape{lens: []int{2, 3}, bound: 3})
	}
	var jobs []fw.Job
	for _, p := range bigProgs(v1, lin) {
		sh := []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: sel(tier != "thorough", 3, -1)}, {lens: []int{1, 1, 1}, bound: sel(tier != "thorough", 1, 2)}}
		if p.cfg.valid > 0 { // many steps in one verification
			sh = []shape{{lens: []int{1, 1}, bound: sel(tier != "thorough", 2, 3)}, {lens: []int{1, 2}, bound: sel(tier != "thorough", 1, 2)}}
		}
		if p.cfg.fill > 150 {
			sh = sh[:1]
		}
		for pi, pro := range p.pros {
			jobs = append(jobs, shapeJobs(fmt.Sprintf("%s prologue %d", p.cfg, pi), cacheSpec(p, lin, cons), pro, p.alpha, sh)...)
		}
	}
	for _, p := range cacheProgs(v1, lin) {
		for pi, pro := range p.pros {
			jobs = append(jobs, shapeJobs(fmt.Sprintf("%s prologue %d", p.cfg, pi), cacheSpec(p, lin, cons), pro, p.alpha, shapes)...)
			for _, j := range shapeJobs(fmt.Sprintf("log on, %s prologue %d", p.cfg, pi), cacheSpec(p, lin, cons), pro, p.alpha, []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: 2}}) {
				run := j.Run
				j.Run = func(c *fw.Ctx) {
					log.SetOutput(io.Discard)
					x1.LOG, x2.LOG = true, true
					defer func() { x1.LOG, x2.LOG = false, false }()
					run(c)
				}
				jobs = append(jobs, j)
			}
		}
	}
	return jobs
}

const schedBounds = "every interleaving of all programs of 1+1, 1+2, 2+2 and 1+1+1 operations on 2, 2, 2 and 3 goroutines (thorough also 1+3 in full; 2+3, 2+1+1 and 1+1+1+1 with at most 3 preemptions); caches of 12, 40 and 110 other entries with 1+1 in full, 1+2 with 3 and 1+1+1 with 1 preemptions (thorough all and 2), 1100 others with 1+1; log on: 1+1 in full, 1+2 with 2 preemptions"

var schedAssume = []string{
	"scheduling points at lock, try-lock, atomic, sync.Map and WaitGroup operations and between operations; the code between two points is judged by the happens-before race detector instead of being split further",
	"writer preference as in sync.RWMutex: a waiting writer blocks new readers",
	"configuration fields (maximum, expiration, validator) are not changed while threads run",
}

func init() {
	seqAssume := []string{"virtual clock; the exact instant of expiry (age equal to duration) is not explored", "percentages outside 0..100 are not explored"}
	fw.Register(&fw.Prop{ID: "C01", Jobs: func(t string) []fw.Job { return valueJobs(t, false) }, Assumptions: seqAssume,
		Bounds: func(t string) string {
			return "16 operations on 2 keys x {no expiration, 10s} x {no validator, by age, by key}: all sequences of length 5 (thorough 6) and breadth-first to depth 9 (thorough 16) over distinct states; durations of 1ns to 100 days to depth 5 (8); configuration changed between operations to depth 6 (9); log on to depth 5 (7); all pairs of 20 kinds of values; unusual keys; all pairs of 12 times to live, from 1ns to a year, set one after the other"
		}})
	fw.Register(&fw.Prop{ID: "C02", Jobs: func(t string) []fw.Job { return limitJobs(t, false) }, Assumptions: seqAssume,
		Bounds: func(t string) string {
			return "maximum 0..4 (thorough 5) x both map orders: breadth-first to depth 11 (thorough 16); the maximum changed between operations to depth 8 (12), and changed from none to any m for n<=45 (130) entries and 3 writes; families n<=30 (60) entries x touched entry x percentage x expired count; all percentages 0..100 x n<=120 (140) and sizes to 1100; emptying and filling again; every maximum<=64 (130) and some up to 500; pairs of reads at 9 positions x percentages, and durations of any number of entries, in caches of 70 to 1100"
		}})
	fw.Register(&fw.Prop{ID: "C03", Jobs: func(t string) []fw.Job { return schedJobs(t, false, false, true) }, Assumptions: schedAssume, Bounds: func(string) string { return schedBounds }})
	fw.Register(&fw.Prop{ID: "C04", Jobs: func(t string) []fw.Job { return schedJobs(t, false, true, false) }, Assumptions: append([]string{"evictions by percentage are not run concurrently with reads (recency of an overlapping read is not specified)"}, schedAssume...), Bounds: func(string) string { return schedBounds }})
	fw.Register(&fw.Prop{ID: "C05", Jobs: func(t string) []fw.Job { return validatorJobs(t, false) }, Assumptions: seqAssume,
		Bounds: func(t string) string {
			return "protocol: breadth-first to depth 9 (thorough 14); re-entrance: 14 inner operations x 2 outer x 2 answers x 1..3 entries x map order; an entry depending on others read by the validator: 24 dependencies of 4 keys x refused x missing x 2 operations; panics: call 1..2 x outer x all pairs of 10 following operations; validators at work while other goroutines act: 1+1 (all schedules), 1+2 (3 preemptions, thorough all), 1+1+1 (2, thorough 3 or 4); verification of up to 40 (80) entries and of 63 to 300 (1100); all pairs of 44 unusual keys, up to 70000 bytes"
		}})
	fw.Register(&fw.Prop{ID: "C24", Jobs: func(t string) []fw.Job {
		return append(append(valueJobs(t, true), limitJobs(t, true)...), validatorJobs(t, true)...)
	}, Assumptions: seqAssume, Bounds: func(t string) string { return "as C01, C02, C05 on the version 1 package" }})
	fw.Register(&fw.Prop{ID: "C25", Jobs: func(t string) []fw.Job {
		return append(schedJobs(t, true, false, true), schedJobs(t, true, true, false)...)
	}, Assumptions: schedAssume, Bounds: func(string) string { return schedBounds }})
}
