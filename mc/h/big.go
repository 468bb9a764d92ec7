package h

// Large cases that the properties share: caches of many entries, wide and deep data, many lines, deep scopes.

import (
	"fmt"
	"strconv"
	"strings"

	"xcoremc/fw"
	"xcoremc/rt"

	x2 "github.com/webability-go/xcore/v2"
)

// bigCacheJobs: recency and durations among many entries.
func bigCacheJobs(v1 bool) []fw.Job {
	var jobs []fw.Job
	for _, n := range []int{70, 130, 257, 300, 600, 1100} {
		n := n
		set := func() (ops []cop) {
			for i := 0; i < n; i++ {
				ops = append(ops, cop{kind: "set", key: "k" + strconv.Itoa(i), val: "v" + strconv.Itoa(i)})
			}
			return
		}
		pos := []int{0, 1, n / 8, n / 2, n - n/8 - 1, n - n/16, n - 5, n - 2, n - 1}
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("family recency n=%d", n), Run: func(c *fw.Ctx) {
			for pi, p1 := range pos {
				for pj, p2 := range pos {
					for _, perc := range []int{10, 50, 90, 97, 99} {
						if n > 300 && perc != 99 && perc != 10 || !c.Case(pi, pj, perc) {
							if c.Stop() {
								return
							}
							continue
						}
						ops := append(set(), cop{kind: "get", key: "k" + strconv.Itoa(p1)}, cop{kind: "get", key: "k" + strconv.Itoa(p2)}, cop{kind: "clean", n: perc}, cop{kind: "clean", n: 50})
						runFamily(c, cacheCfg{v1: v1}, ops, n)
					}
				}
			}
		}})
		if v1 {
			continue
		}
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("family durations n=%d", n), Run: func(c *fw.Ctx) {
			for _, many := range []int{0, 1, 2, 33, 65, n / 3, n - 1, n} {
				for from := 0; from < 3; from++ { // the first, the last, the middle ones
					for _, end := range []cop{{kind: "clean", n: 0}, {kind: "clean", n: 30}, {kind: "verify"}, {kind: "count"}, {kind: "get", key: "k0"}} {
						for desc := 0; desc < 2; desc++ {
							if many > n || !c.Case(many, from, len(end.String()), end.n, desc) {
								if c.Stop() {
									return
								}
								continue
							}
							ops := set()
							at := []int{0, n - many, (n - many) / 2}[from]
							for i := at; i < at+many; i++ {
								ops = append(ops, cop{kind: "ttl", key: "k" + strconv.Itoa(i), d: 7 * sec})
							}
							ops = append(ops, cop{kind: "ttl", key: "none", d: 7 * sec}, cop{kind: "tick", d: 8 * sec}, end, cop{kind: "count"}, cop{kind: "set", key: "k1", val: "again"}, cop{kind: "clean", n: 0}, cop{kind: "count"})
							rt.MapDesc = desc == 1
							runFamily(c, cacheCfg{}, ops, n)
							rt.MapDesc = false
						}
					}
				}
			}
		}})
	}
	return jobs
}

// bigValidJob: what a validator is told about unusual keys.
func bigValidJob(v1 bool) fw.Job {
	return fw.Job{Name: "validators and unusual keys", Run: func(c *fw.Ctx) {
		keys := []string{"", " ", "A", "a ", " a", "é", "a\x00b", "a>b", "a:b", "%s", "\xff", "\n"}
		for _, n := range []int{16, 32, 33, 63, 64, 65, 100, 128, 255, 256, 257, 1000, 1024, 4096, 5000, 70000} {
			keys = append(keys, strings.Repeat("k", n), strings.Repeat("é ", n/2)+"end")
		}
		for i, k1 := range keys {
			for j, k2 := range keys {
				for valid := 1; valid <= 3; valid++ {
					if i == j || !c.Case(i, j, valid) {
						if c.Stop() {
							return
						}
						continue
					}
					ops := []cop{{kind: "set", key: k1, val: "1"}, {kind: "tick", d: 3 * sec}, {kind: "set", key: k2, val: "2"}, {kind: "get", key: k1}, {kind: "get", key: k2}, {kind: "verify"}, {kind: "tick", d: 3 * sec}, {kind: "get", key: k2}, {kind: "get", key: k1}, {kind: "tick", d: 8 * sec}, {kind: "verify"}, {kind: "set", key: k1, val: "3"}, {kind: "get", key: k1}, {kind: "get", key: k2}}
					in := newValidInst(cacheCfg{v1: v1, valid: valid}, ops)
					for o := range ops {
						if g, w := apply(in, o); g != w {
							if len(g)+len(w) > 600 {
								g, w = fmt.Sprint(len(g), " bytes"), fmt.Sprint(len(w), " others")
							}
							c.Fail(fmt.Sprintf("keys of %d and %d bytes (%.20q %.20q), validator %d, operation %d", len(k1), len(k2), k1, k2, valid, o), "answered %q, expected %q", g, w)
							return
						}
					}
					c.Trans(len(ops))
					c.Trace()
					c.State(fmt.Sprint(i, j, valid))
				}
			}
		}
	}}
}

// bigTrees: wide and deep data.
func bigTrees(sizes, depths []int) (r []*tree) {
	for _, n := range sizes {
		wide, mixed, list := ds("v", 1), ds("v", 2), col()
		for i := 0; i < n; i++ {
			wide.kids[fmt.Sprintf("key%04d", i)] = ds("v", i)
			mixed.kids[fmt.Sprintf("key%04d", i)] = []*tree{scalar(i), ds("v", i), col(ds("v", i))}[i%3]
			list.elems = append(list.elems, ds("v", i, "n", ds("v", "in")))
		}
		r = append(r, wide, mixed, list, ds("v", 3, "n", ds("l", list)))
	}
	for _, n := range depths {
		for kind := 0; kind < 3; kind++ {
			t := ds("v", "leaf")
			for i := 0; i < n; i++ {
				if kind == 1 || kind == 2 && i%2 == 0 {
					t = ds("c", col(ds("v", "other"), t), "v", i)
				} else {
					t = ds("n", t, "v", i)
				}
			}
			r = append(r, t)
		}
	}
	return
}

// universe lists the names of a tree.
func (t *tree) universe() []string {
	m := map[string]bool{"new": true}
	var rec func(t *tree)
	rec = func(t *tree) {
		for n, k := range t.kids {
			m[n] = true
			rec(k)
		}
		for _, e := range t.elems {
			rec(e)
		}
	}
	rec(t)
	u := ds()
	for n := range m {
		u.kids[n] = nil
	}
	return u.names()
}

// bigCloneJobs: everything of one side is changed at once.
func bigCloneJobs(k *kit) []fw.Job {
	var jobs []fw.Job
	for ti, t0 := range bigTrees([]int{101, 150, 300, 700, 1100}, []int{8, 12, 20, 40, 70, 120}) {
		ti, t0 := ti, t0
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s clones of large data %d", k.name, ti), Run: func(c *fw.Ctx) {
			univ := t0.universe()
			for impl := 0; impl < 3; impl++ {
				for side := 0; side < 2; side++ {
					for m := range mutNames {
						for desc := 0; desc < 2; desc++ {
							if impl > 0 && !k.ts || !c.Case(impl, side, m, desc) {
								if c.Stop() {
									return
								}
								continue
							}
							msg := try(func() string {
								rt.MapDesc = desc == 1
								defer func() { rt.MapDesc = false }()
								n := 0
								t := t0.copyTree(func() int { n++; return []int{0, 1, n % 2}[impl] })
								a := t.build(k)
								b := k.clone(a)
								if e := matches(k, b, t, univ); e != "" {
									return "the clone: " + e
								}
								x, other := a, b
								if side == 1 {
									x, other = b, a
								}
								for _, o := range k.containersOf(x, univ) {
									k.mutate(o, m)
								}
								if e := matches(k, other, t, univ); e != "" {
									return "the other side after the changes: " + e
								}
								return ""
							})
							if msg != "" {
								if len(msg) > 500 {
									msg = msg[:500]
								}
								c.Fail(fmt.Sprintf("large data %d kind %d, %s everywhere on side %d", ti, impl, mutNames[m], side), "%s", msg)
								return
							}
							c.Trans(2)
							c.Trace()
							c.State(fmt.Sprint(ti, impl, side, m, desc))
						}
					}
				}
			}
		}})
	}
	return jobs
}

// bigBuildJob: long lists, many keys and deep nesting as sources.
func bigBuildJob() fw.Job {
	return fw.Job{Name: "build large data", Run: func(c *fw.Ctx) {
		var source func(t *tree, any bool) interface{}
		source = func(t *tree, any bool) interface{} {
			switch t.kind {
			case 'd':
				m := map[string]interface{}{}
				for n, v := range t.kids {
					m[n] = source(v, any)
				}
				return m
			case 'c':
				var l []interface{}
				var ml []map[string]interface{}
				for i, e := range t.elems {
					m := source(e, any).(map[string]interface{})
					l = append(l, m)
					if i%7 == 6 {
						l = append(l, i)
					}
					ml = append(ml, m)
				}
				if any {
					return l
				}
				return ml
			}
			return t.val
		}
		for ti, t := range bigTrees([]int{65, 130, 260, 1030, 4100}, []int{5, 9, 17, 33, 65, 130, 260}) {
			univ := ds("n", t).universe()
			if len(univ) > 1100 { // the first and the others in the end: "n", "new", "v"
				univ = append(append([]string{}, univ[:1000]...), univ[len(univ)-20:]...)
			}
			for any := 0; any < 2; any++ {
				for as := 0; as < 3; as++ { // as it is, inside, in a list
					if !c.Case(ti, any, as) {
						if c.Stop() {
							return
						}
						continue
					}
					msg := try(func() string {
						src := source(t, any == 1)
						if as == 1 {
							return matches(&kit2, x2.NewXDataset(map[string]interface{}{"n": src}), ds("n", t), univ)
						}
						switch s := src.(type) {
						case map[string]interface{}:
							if as == 2 {
								return matches(&kit2, x2.NewXDatasetCollection([]map[string]interface{}{s, {"v": 1}, s}), col(t, ds("v", 1), t), univ)
							}
							return matches(&kit2, x2.NewXDataset(s), t, univ)
						case []map[string]interface{}:
							return matches(&kit2, x2.NewXDatasetCollection(s), t, univ)
						}
						return ""
					})
					if msg != "" {
						if len(msg) > 500 {
							msg = msg[:500]
						}
						c.Fail(fmt.Sprintf("large source %d kind %d form %d", ti, any, as), "%s", msg)
						return
					}
					c.Trans(1)
					c.Trace()
					c.State(fmt.Sprint(ti, any, as))
				}
			}
		}
	}}
}

// colKeys: unusual keys asked to a collection.
func colKeys(c *fw.Ctx, k *kit, kind int) {
	keys := []string{"", " ", "a", "A", "a ", " a", "é", "é", "\x00", "a.b", "0", "1", "-1", "00", "%s", "\n", "\xff", "own", "Own", strings.Repeat("k", 300), strings.Repeat("k", 301)}
	for i, k1 := range keys {
		for j, k2 := range keys {
			for has := 1; has < 27; has++ { // which of three elements have which of the keys
				if !c.Case(i, j, has) {
					if c.Stop() {
						return
					}
					continue
				}
				cl := k.newCol(kind & 1)
				want := map[string]interface{}{}
				h := has
				for e := 0; e < 3; e, h = e+1, h/3 {
					d := k.newDS(e & 1 * (kind >> 1))
					if h%3 > 0 {
						key := []string{k1, k2}[h%3-1]
						v := fmt.Sprint("v", e)
						d.Set(key, v)
						want[key] = v
					}
					k.push(cl, d)
				}
				msg := try(func() string {
					for _, key := range keys {
						w, wok := want[key]
						if v, ok := cl.GetData(key); v != w || ok != wok {
							return fmt.Sprintf("key %q gives %v,%v instead of %v,%v", key, v, ok, w, wok)
						}
						s, ok := cl.GetDataString(key)
						if ws, _ := w.(string); s != ws || ok != wok {
							return fmt.Sprintf("key %q gives string %q,%v instead of %q,%v", key, s, ok, ws, wok)
						}
					}
					return ""
				})
				if msg != "" {
					c.Fail(fmt.Sprintf("%s kind %d: keys %q and %q in elements %d", k.name, kind, k1, k2, has), "%s", msg)
					return
				}
				c.Trans(2 * len(keys))
				c.Trace()
				c.State(fmt.Sprint(kind, i, j, has))
			}
		}
	}
}

// deepScopes: templates nested n deep, what is outside seen from the innermost.
func deepScopes(n, kind int) string {
	var open, shut string
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("d%d", i)
		open += []string{"&&" + name + "&&[[" + name + "]](", "&&" + name + "&&&&far&&[[" + name + "]]" + fmt.Sprint(i), "@@l:" + name + "@@[[" + name + "]]{{a}}"}[min(kind, sel(i < 3, 2, 1))]
		shut = []string{")[[]]", "[[]][[q" + fmt.Sprint(i) + "]]Q{{c}}[[]]", "[[]]"}[min(kind, sel(i < 3, 2, 1))] + shut
	}
	return "R" + open + "&&far&&,&&q0&&,&&q1&&,&&q" + fmt.Sprint(n/2) + "&&,&&none&&,??c:far??" + shut + "[[far]]FAR{{c}}[[]][[far.x]]FX[[]]"
}

// deepData: the same data for renderings of any depth.
func deepData(d []*tdata) (r []*tdata) {
	for _, x := range d {
		y := *x
		y.deep = true
		r = append(r, &y)
	}
	return
}

func deepScopeJob(tk *tkit, d []*tdata) fw.Job {
	d = deepData(d)
	return fw.Job{Name: tk.name + " deep scopes", Run: func(c *fw.Ctx) {
		for kind := 0; kind < 3; kind++ {
			for _, n := range []int{5, 8, 10, 11, 16, 17, 20, 32, 33, 41, 51, 65, 101} {
				if !runText(c, tk, []int{kind, n}, deepScopes(n, kind), d, false) {
					return
				}
			}
		}
	}}
}

// bigTCloneJobs: large and deep templates, everything of one side changed at once.
func bigTCloneJobs(d []*tdata) []fw.Job {
	d = deepData(d)
	var jobs []fw.Job
	var texts []string
	for _, n := range []int{6, 7, 11, 21, 41, 65} {
		texts = append(texts, deepScopes(n, 0), deepScopes(n, 1))
	}
	for _, n := range []int{9, 17, 21, 33, 65, 101, 130, 260} {
		texts = append(texts, bigSubs(n), strings.Repeat("{{a}}x##e##@@l:s@@", n)+"[[s]]"+strings.Repeat("{{v}},", n)+"[[]]", "&&s&&[[s]]"+bigSubs(n)+"[[]]")
	}
	for ti, text := range texts {
		ti, text := ti, text
		jobs = append(jobs, fw.Job{Name: fmt.Sprint("clones of large templates ", ti), Run: func(c *fw.Ctx) {
			for side := 0; side < 2; side++ {
				for mut := range cloneMut {
					for via := 0; via < 2; via++ {
						if !c.Case(side, mut, via) {
							if c.Stop() {
								return
							}
							continue
						}
						msg := try(func() string { return bigTClone(text, d[0], side, mut, via) })
						if msg != "" {
							if len(msg) > 600 {
								msg = msg[:600]
							}
							c.Fail(fmt.Sprintf("template %.300q, %s everywhere on side %d, via %d", text, cloneMut[mut], side, via), "%s", msg)
							return
						}
						c.Trans(4)
						c.Trace()
						c.State(fmt.Sprint(ti, side, mut, via))
					}
				}
			}
		}})
	}
	return jobs
}

func bigTClone(text string, d *tdata, side, mut, via int) string {
	t, err := x2.NewXTemplateFromString(text)
	if err != nil {
		return err.Error()
	}
	tr, o := d.build(&tkit2, plainImpl)
	want, ok := expect(&tkit2, parseT(text, false), d, tr)
	if !ok {
		return ""
	}
	data := o.(x2.XDatasetDef)
	src, cl := t, t.Clone()
	if via == 1 {
		src, cl = cl, cl.Clone()
	}
	all := func(t *x2.XTemplate) (r []*x2.XTemplate) {
		var rec func(t *x2.XTemplate)
		rec = func(t *x2.XTemplate) {
			r = append(r, t)
			for _, s := range t.SubTemplates {
				rec(s)
			}
		}
		rec(t)
		return
	}
	for _, x := range []*x2.XTemplate{src, cl} {
		if g := x.Execute(data); g != want {
			return fmt.Sprintf("renders %q, expected %q", g, want)
		}
	}
	mine := map[*x2.XTemplate]bool{}
	for _, x := range all(src) {
		mine[x] = true
	}
	for _, x := range all(cl) {
		if mine[x] {
			return "sub-template " + x.Name + " is shared"
		}
		for _, n := range []string{"far", "q0", "s0", "s8", "d1"} {
			if g := x.GetTemplate(n); g != nil && mine[g] {
				return fmt.Sprintf("a sub-template of the clone finds %s in the source", n)
			}
		}
	}
	target, other := src, cl
	if side == 1 {
		target, other = cl, src
	}
	for _, x := range all(target) {
		mutT(x, mut)
	}
	if g := other.Execute(data); g != want {
		return fmt.Sprintf("after changing the other side: renders %q, expected %q", g, want)
	}
	return ""
}
