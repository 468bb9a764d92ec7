package h

import (
	"fmt"
	"sort"
	"strings"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"

	"xcoremc/fw"
	"xcoremc/rt"
)

// ---- C31: version 1 templates, data and tables read by several at once

type oldWorld struct {
	t     *x1.XTemplate
	d     x1.XDatasetDef
	l     *x1.XLanguage
	plain string
}

func oldConcJobs(tier string) []fw.Job {
	q := tier != "thorough"
	k := &tkit1
	full := func() *tdata {
		return &tdata{t: ds("a", "A", "k", "x", "v", "V", "o", ds("a", "OA"), "l", col(ds("v", 1, "l", col(ds("v", 11), ds("v", 12))), ds("v", 2))), lang: map[string]string{"e": "E", "f": "F"}}
	}
	ops := []string{"Execute(own data)", "Execute(shared data)", "Execute(nil)", "GetTemplate and execute", "String()", "data.Get", "data.Clone", "data prints", "table reads", "table prints"}
	names := []string{"a", "k", "v", "o", "l"}
	var jobs []fw.Job
	for ti, text := range []string{
		"{{a}}{{o>a}}##e##&&s&&[[s]]S{{v}}##e##[[]]",
		"@@l:s@@{{.counter}}[[s]]{{.counter}}{{v}}@@l:t@@[[t]]{{v}}[[]][[t.first]]F{{v}}[[]][[]][[s.last]]L{{v}}[[]]",
		"??k:t????no:t??[[t]]T&&u&&[[u]]U[[]][[]][[t.x]]TX{{a}}&&y&&[[y]]Y[[]][[]]",
		"&&:k:p&&&&t:o&&[[px]]PX[[]][[t|u]]T{{a}}[[]]%-- c --%!!dump!!{{l>1>v}}{{o}}{{l}}",
	} {
		ti, text := ti, text
		m := parseT(text, true)
		want := make(fixedModel, len(ops))
		d := full()
		tr, obj := d.build(k, plainImpl)
		want[0], _ = expect(k, m, d, tr)
		want[1] = want[0]
		want[2], _ = expect(k, m, &tdata{}, nil)
		sub := ""
		for _, n := range []string{"s", "t"} {
			if m.subs[n] != nil {
				sub = n
				break
			}
		}
		if sub != "" {
			want[3], _ = expect(k, m.subs[sub], d, tr)
		}
		want[5] = k.k.content(obj, names)
		want[6] = want[5]
		want[7] = obj.(x1.XDatasetDef).String() + obj.(x1.XDatasetDef).GoString()
		want[8] = "EF" + "l en"
		sp := &Spec{Ops: ops,
			New: func() interface{} {
				_, o := full().build(k, plainImpl)
				t, err := x1.NewXTemplateFromString(text)
				if err != nil {
					panic(err)
				}
				w := &oldWorld{t: t, d: o.(x1.XDatasetDef), plain: t.String()}
				l, _ := w.d.Get("#")
				w.l = l.(*x1.XLanguage)
				return w
			},
			Do: func(s interface{}, op int) string {
				w := s.(*oldWorld)
				switch op {
				case 0:
					_, o := full().build(k, plainImpl)
					return w.t.Execute(o.(x1.XDatasetDef))
				case 1:
					return w.t.Execute(w.d)
				case 2:
					return w.t.Execute(nil)
				case 3:
					if sub == "" {
						return ""
					}
					return w.t.GetTemplate(sub).Execute(w.d)
				case 4:
					if s := w.t.String(); s != w.plain || w.t.GoString() == "" {
						return s
					}
				case 5:
					return k.k.content(w.d, names)
				case 6:
					return k.k.content(w.d.Clone(), names)
				case 7:
					return w.d.String() + w.d.GoString()
				case 8:
					return w.l.Get("e") + w.l.Get("f") + w.l.Get("no") + w.l.GetName() + " " + w.l.GetLanguage().String()
				case 9:
					if w.l.String() != w.l.String() || len(w.l.GoString()) == 0 {
						return "print"
					}
				}
				return ""
			},
			NewModel: func() Model { return want },
			Epilogue: []int{1, 5, 8},
		}
		for i := range ops {
			for j := i; j < len(ops); j++ {
				i, j := i, j
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("template %d: %s with %s", ti, ops[i], ops[j]), Run: func(c *fw.Ctx) {
					Explore(c, sp, nil, [][]int{{i}, {j}}, -1)
					for k := j; k < len(ops); k++ {
						if c.Stop() {
							return
						}
						Explore(c, sp, nil, [][]int{{i}, {j}, {k}}, sel(q, 2, -1))
					}
				}})
			}
		}
	}
	return jobs
}

// ---- C32: printed forms of templates

type printer interface {
	String() string
	GoString() string
}

// printCase compiles the text and checks its printed forms.
func printCase(k *tkit, text string, seen map[string]string) string {
	m := parseT(text, k.v1)
	if m == nil {
		return ""
	}
	compile := func() printer {
		t, err := k.from(text)
		if err != nil {
			panic(err)
		}
		return t.(printer)
	}
	t := compile()
	before := Obs(t)
	s, g := t.String(), t.GoString()
	if Obs(t) != before {
		return "printing changed the template"
	}
	rt.MapDesc = true
	s2, g2 := t.String(), t.GoString()
	u := compile()
	rt.MapDesc = false
	if s2 != s || g2 != g {
		return "printed differently the second time"
	}
	if u.String() != s || u.GoString() != g {
		return fmt.Sprintf("the same text compiled again prints %q", u.String())
	}
	k.exec(t, nil)
	_, o := comboData()[0].build(k, plainImpl)
	if in, ok := expect(k, m, comboData()[0], nil); ok && in != "" {
		k.exec(t, o)
	}
	if t.String() != s || t.GoString() != g {
		return "printed differently after an execution"
	}
	if !k.v1 {
		if c := t.(*x2.XTemplate).Clone(); c.String() != s || c.GoString() != g {
			return fmt.Sprintf("the clone prints %q instead of %q", c.String(), s)
		}
	}
	// every element of the template appears as often as it is there
	count := map[string]int{}
	var all []string
	for _, n := range m.nodes {
		count[n.data]++
		all = append(all, string(n.kind)+n.data)
	}
	for d, n := range count {
		if strings.Count(s, d) < n {
			return fmt.Sprintf("%d elements %q, printed as %q", n, d, s)
		}
		if q := fmt.Sprintf("%#v", d); strings.Count(g, d) < n && strings.Count(g, q) < n {
			return fmt.Sprintf("%d elements %q, printed as %q", n, d, g)
		}
	}
	// and other elements print otherwise
	sort.Strings(all)
	key := fmt.Sprintf("%q", all)
	for _, p := range []string{"s" + s, "g" + g} {
		if old, ok := seen[p]; ok && old != key {
			return fmt.Sprintf("prints %q, as does a template of the elements %s", p[1:], old)
		}
		seen[p] = key
	}
	return ""
}

func printJobs(tier string) []fw.Job {
	q := tier != "thorough"
	toks := []string{"x", "y z", "\n", "{{f}}", "{{g}}", "##f##", "&&s&&", "@@s@@", "??s??", "!!dump!!", "[[s]]q{{f}}[[]]", "{{f", "é", "%--k w--%"}
	var jobs []fw.Job
	for _, k := range []*tkit{&tkit2, &tkit1} {
		for f := range toks {
			k, f := k, f
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s printed forms starting with %q", k.name, toks[f]), Run: func(c *fw.Ctx) {
				seen := map[string]string{}
				for n := 1; n <= sel(q, 4, 5); n++ {
					texts(toks, []int{f}, n, func(h []int, s string) bool {
						if c.Stop() {
							return false
						}
						// a replay needs the prints seen before it
						if !c.Case(h...) && !c.Replaying() {
							return true
						}
						if m := try(func() string { return printCase(k, s, seen) }); m != "" {
							c.Case(h...)
							c.Fail(fmt.Sprintf("%s template %q", k.name, s), "%s", m)
							return false
						}
						c.Trace()
						c.Trans(4)
						c.State(s)
						c.Sample(func() string { return fmt.Sprintf("%q", s) })
						return true
					})
					if c.Failed() {
						return
					}
				}
			}})
		}
	}
	for _, k := range []*tkit{&tkit2, &tkit1} {
		k := k
		jobs = append(jobs, fw.Job{Name: k.name + " printed forms of long elements and of many", Run: func(c *fw.Ctx) {
			seen := map[string]string{}
			id := 0
			one := func(s string) bool {
				id++
				if c.Stop() {
					return false
				}
				if !c.Case(id) && !c.Replaying() {
					return true
				}
				if m := try(func() string { return printCase(k, s, seen) }); m != "" {
					c.Case(id)
					if len(s) > 300 {
						s = s[:300] + "..."
					}
					c.Fail(fmt.Sprintf("%s template %q", k.name, s), "%s", m)
					return false
				}
				c.Trace()
				c.Trans(4)
				c.State(s)
				return true
			}
			for _, n := range []int{8, 15, 16, 17, 20, 31, 32, 33, 40, 50, 60, 63, 64, 65, 72, 80, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 1100} {
				a := strings.Repeat("abcde fghi", n/10+1)[:n-1]
				for _, end := range []string{"x", "y"} {
					for _, f := range []string{"A", "A{{f}}A", "%-- A --%", "{{A}}", "##A##", "&&A&&", "@@l:A@@", "??A??"} {
						if !one(strings.Replace(f, "A", a+end, -1)) {
							return
						}
					}
				}
				var distinct, same strings.Builder
				for i := 0; i < n; i++ {
					fmt.Fprintf(&distinct, "t%d{{f%d}}%%--c%d--%%##e%d##", i, i, i, i)
					same.WriteString("t{{f}}")
					if i >= n-2 && (!one(distinct.String()) || !one(same.String()) || !one(same.String()+"{{g}}")) {
						return
					}
				}
			}
		}})
	}
	jobs = append(jobs, fw.Job{Name: "templates not compiled", Run: func(c *fw.Ctx) {
		if !c.Case(0) {
			return
		}
		if m := try(func() string {
			t := x2.NewXTemplate()
			if t.String() != t.String() || t.GoString() != t.GoString() || t.Clone().String() != t.String() {
				return "prints differ"
			}
			return ""
		}); m != "" {
			c.Fail("a template without content", "%s", m)
		}
		c.Trace()
		c.Trans(3)
	}})
	return jobs
}

func init() {
	fw.Register(&fw.Prop{ID: "C31", Jobs: oldConcJobs, Bounds: func(string) string {
		return "4 templates x all pairs (all schedules) and triples (2 preemptions, thorough all) of 10 reading operations"
	}, Assumptions: schedAssume[:2]})
	fw.Register(&fw.Prop{ID: "C32", Jobs: printJobs, Bounds: func(string) string {
		return "both versions: all texts of up to 4 (thorough 5) of 13 pieces, printed twice, compiled again, after execution, cloned; prints of different element lists compared with each other; elements of up to 1100 characters and up to 4400 elements"
	}, Assumptions: []string{"version 1 templates without content are not printed"}})
}
