package h

import (
	"fmt"
	"sort"
	"strings"
	"time"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"

	"xcoremc/fw"
)

// ---- C33: separate objects share nothing

// sepTask makes its own objects, uses them and tells what it saw.
type sepTask struct {
	name string
	do   func() string
}

var sepText = "A{{a}}##e##@@l:t@@??a:c??&&s:n&&[[t]]<{{.counter}}{{v}}>[[]]\n[[t.first]]F{{v}}[[]][[c]]C[[]][[s]]S{{x}}&&c&&[[]]%-- no --%"

func sepMap() map[string]interface{} {
	return map[string]interface{}{"a": 1, "n": map[string]interface{}{"x": "X", "y": []string{"p", "q"}}, "l": []interface{}{map[string]interface{}{"v": 1}, map[string]interface{}{"v": 2}}, "m": []map[string]interface{}{{"v": 3}}}
}

func lines(m map[string]string) string {
	var r []string
	for k, v := range m {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func sepTasks() []sepTask {
	var r []sepTask
	add := func(n string, f func() string) { r = append(r, sepTask{n, f}) }
	xml := xmlDoc("x", "es", []xent{{"a", "5", "p"}, {"b", "6", "q"}}, 0)
	for _, tk := range []*tkit{&tkit2, &tkit1} {
		tk := tk
		lk := &langKit2
		if tk.v1 {
			lk = &langKit1
		}
		add(tk.name+" template", func() string {
			t, err := tk.from(sepText)
			if err != nil {
				return err.Error()
			}
			_, o := (&tdata{t: ds("a", "x", "n", ds("x", "NX"), "l", col(ds("v", 1), ds("v", 2))), lang: map[string]string{"e": "E"}}).build(tk, plainImpl)
			return tk.exec(t, o) + fmt.Sprint(t)
		})
		add(tk.name+" refused and changed template", func() string {
			_, err := tk.from("[[a]]x")
			t, err2 := tk.from("1&&s&&[[s]]S[[]]")
			if err2 != nil {
				return err2.Error()
			}
			s, err3 := tk.from("other")
			tk.add(t, "s", s)
			tk.load(s, "reloaded{{a}}")
			return fmt.Sprint(err, err3, tk.exec(t, nil))
		})
		add(tk.name+" table from text", func() string {
			l, err := lk.fromStr("#c\na=1\n b = 2 \n")
			if err != nil {
				return err.Error()
			}
			l.Set("c", "3")
			l.Del("a")
			l.SetName("n")
			l.SetLanguage(language.French)
			return fmt.Sprint(lines(lk.entries(l)), l, l.GetName(), l.GetLanguage())
		})
		add(tk.name+" table from XML", func() string {
			l, err := lk.fromXML(xml)
			if err != nil {
				return err.Error()
			}
			s := fmt.Sprint(lines(lk.entries(l)), l.GetName(), l.GetLanguage(), l.LoadXMLString("<bad"), l.Get("a"))
			if lk.v2 {
				s += l.(*x2.XLanguage).GetXML() + l.(*x2.XLanguage).GetStatus("b")
			}
			return s
		})
		add(tk.name+" datasets", func() string {
			k := tk.k
			d, n, c := k.newDS(0), k.newDS(0), k.newCol(0)
			n.Set("x", 1.5)
			k.push(c, n)
			k.unsh(c, k.newDS(0))
			d.Set("n", n)
			d.Set("c", c)
			d.Set("z", nil)
			cl := k.clone(d).(dsI)
			n.Set("x", 2)
			k.pop(c)
			i, ok := d.GetInt("n>x")
			s, ok2 := cl.GetString("c>1>x")
			return fmt.Sprint(i, ok, s, ok2, d, cl, d.GoString())
		})
		add(tk.name+" table empty", func() string {
			l := lk.mk("n", language.Und)
			s := fmt.Sprint(l.Get("a"), l)
			l.Set("a", "1")
			return s + l.Get("a")
		})
	}
	add("v2 built dataset", func() string {
		src := sepMap()
		d := x2.NewXDataset(src)
		d.Set("b", 2)
		v, _ := d.Get("l>1>v")
		n, _ := d.GetDataset("n")
		n.Set("x", "changed")
		c := x2.NewXDatasetCollection([]map[string]interface{}{sepMap(), {"b": 1}})
		g, ok := c.GetData("n>x")
		return fmt.Sprint(v, d, g, ok, c.Count(), len(src))
	})
	add("v2 thread-safe data", func() string {
		d := &x2.XDatasetTS{}
		d.Set("a", 1)
		e := x2.NewXDatasetTS(&x2.XDataset{"n": d})
		c := &x2.XDatasetCollectionTS{}
		c.Push(e)
		c.Unshift(d)
		cl := c.Clone()
		d.Set("a", 2)
		x := c.Shift()
		v, ok := cl.GetData("n>a")
		w, ok2 := c.GetData("n>a")
		return fmt.Sprint(v, ok, w, ok2, x, c.Count(), cl.Count(), c.Pop() != nil, c.Pop())
	})
	add("v2 cache", func() string {
		c := x2.NewXCache("c", 3, time.Hour)
		for i := 0; i < 5; i++ {
			c.Set(fmt.Sprint("k", i), i)
		}
		c.SetTTL("k4", time.Hour)
		v, inv := c.Get("k3")
		w, inv2 := c.Get("k0")
		c.Del("k4")
		s := fmt.Sprint(v, inv, w, inv2, c.Count(), c.Clean(50), c.Verify())
		c.Flush()
		return s + fmt.Sprint(c.Count())
	})
	add("v1 cache", func() string {
		c := x1.NewXCache("c", 3, time.Hour)
		c.Validator = func(key string, t time.Time) bool { return key != "k3" }
		for i := 0; i < 5; i++ {
			c.Set(fmt.Sprint("k", i), i)
		}
		v, inv := c.Get("k4")
		w, inv2 := c.Get("k3")
		c.Del("k4")
		s := fmt.Sprint(v, inv, w, inv2, c.Clean(0), c.Verify())
		c.Flush()
		return s + fmt.Sprint(c.Count())
	})
	return r
}

// sepPairs: two objects made alike, one is changed, the other stays as it was.
type sepPair struct {
	name string
	mk   func() interface{}
	mut  []func(x interface{})
}

func sepPairs() []sepPair {
	var r []sepPair
	for _, tk := range []*tkit{&tkit2, &tkit1} {
		tk := tk
		lk := &langKit2
		if tk.v1 {
			lk = &langKit1
		}
		lm := []func(x interface{}){
			func(x interface{}) { x.(langI).Set("a", "changed") },
			func(x interface{}) { x.(langI).Set("new", "1") },
			func(x interface{}) { x.(langI).Del("a") },
			func(x interface{}) { x.(langI).SetName("m"); x.(langI).SetLanguage(language.German) },
			func(x interface{}) { x.(langI).LoadString("a=2\nc=3") },
			func(x interface{}) { x.(langI).LoadXMLString(xmlDoc("x", "es", []xent{{"a", "5", "p"}}, 0)) },
		}
		if lk.v2 {
			lm = append(lm, func(x interface{}) { x.(*x2.XLanguage).SetStatus("a", "st") })
		}
		r = append(r,
			sepPair{tk.name + " new tables", func() interface{} { return lk.mk("n", language.English) }, lm},
			sepPair{tk.name + " tables from one text", func() interface{} { l, _ := lk.fromStr("a=1\nb=2"); return l }, lm},
			sepPair{tk.name + " tables from one document", func() interface{} {
				l, _ := lk.fromXML(xmlDoc("q", "fr", []xent{{"a", "1", "s"}, {"b", "2", "t"}}, 0))
				return l
			}, lm})
		must := func(s string) interface{} {
			t, err := tk.from(s)
			if err != nil {
				panic(err)
			}
			return t
		}
		tm := []func(x interface{}){
			func(x interface{}) { tk.add(x, "s", must("changed")) },
			func(x interface{}) { tk.add(x, "new", must("changed")) },
			func(x interface{}) { tk.load(x, "reloaded[[s]]RS[[]][[t]]RT[[]]") },
			func(x interface{}) {
				if s := tk.get(x, "s"); s != nil {
					tk.load(s, "reloaded")
				}
			},
			func(x interface{}) {
				if s := tk.get(x, "s"); s != nil {
					tk.add(s, "c", must("changed"))
				}
			},
		}
		r = append(r, sepPair{tk.name + " templates from one text", func() interface{} { return must(sepText) }, tm}, sepPair{tk.name + " empty templates", tk.empty, tm})
		for kind := 0; kind < 2; kind++ {
			if kind == 1 && tk.v1 {
				continue
			}
			kind := kind
			r = append(r, sepPair{fmt.Sprintf("%s datasets kind %d", tk.name, kind), func() interface{} { d := tk.k.newDS(kind); d.Set("a", 1); return d }, []func(x interface{}){
				func(x interface{}) { x.(dsI).Set("a", 2) }, func(x interface{}) { x.(dsI).Set("b", 2) }, func(x interface{}) { x.(dsI).Del("a") }}})
			r = append(r, sepPair{fmt.Sprintf("%s collections kind %d", tk.name, kind), func() interface{} { return tk.k.newCol(kind) }, []func(x interface{}){
				func(x interface{}) { tk.k.push(x.(colI), tk.k.newDS(0)) }, func(x interface{}) { tk.k.unsh(x.(colI), tk.k.newDS(0)) }}})
		}
	}
	dm := []func(x interface{}){
		func(x interface{}) { x.(dsI).Set("a", 2) }, func(x interface{}) { x.(dsI).Del("n") }, func(x interface{}) { x.(dsI).Set("new", 1) },
		func(x interface{}) { d, _ := x.(x2.XDatasetDef).GetDataset("n"); d.Set("x", "changed") },
		func(x interface{}) { d, _ := x.(x2.XDatasetDef).GetDataset("l>0"); d.Set("v", "changed") },
		func(x interface{}) { c, _ := x.(x2.XDatasetDef).GetCollection("l"); c.Push(&x2.XDataset{}) },
		func(x interface{}) { c, _ := x.(x2.XDatasetDef).GetCollection("m"); c.Pop() },
	}
	src := sepMap()
	r = append(r, sepPair{"v2 datasets from one map", func() interface{} { return x2.NewXDataset(src) }, dm})
	csrc := []map[string]interface{}{src, {"a": 1}, {}}
	r = append(r, sepPair{"v2 collections from one list", func() interface{} { return x2.NewXDatasetCollection(csrc) }, []func(x interface{}){
		func(x interface{}) { x.(x2.XDatasetCollectionDef).Pop() },
		func(x interface{}) { x.(x2.XDatasetCollectionDef).Shift().Set("n", 1) },
		func(x interface{}) { x.(x2.XDatasetCollectionDef).Push(&x2.XDataset{}) },
		func(x interface{}) { d, _ := x.(x2.XDatasetCollectionDef).Get(1); d.Set("a", 9) },
		func(x interface{}) { d, _ := x.(x2.XDatasetCollectionDef).Get(0); d.Set("n", 9) },
		func(x interface{}) {
			d, _ := x.(x2.XDatasetCollectionDef).Get(0)
			c, _ := d.GetCollection("l")
			c.Shift()
		},
	}})
	type cacheI interface {
		Set(string, interface{})
		Get(string) (interface{}, bool)
		Del(string)
		Clean(int) int
		Flush()
		Count() int
	}
	cm := []func(x interface{}){
		func(x interface{}) { x.(cacheI).Set("k", 2) }, func(x interface{}) { x.(cacheI).Set("new", 2) }, func(x interface{}) { x.(cacheI).Del("k") },
		func(x interface{}) { x.(cacheI).Flush() }, func(x interface{}) { x.(cacheI).Clean(100) }, func(x interface{}) { x.(cacheI).Get("k") },
	}
	r = append(r,
		sepPair{"v2 caches of one name", func() interface{} { c := x2.NewXCache("same", 2, time.Hour); c.Set("k", 1); return c }, cm},
		sepPair{"v1 caches of one name", func() interface{} { c := x1.NewXCache("same", 2, time.Hour); c.Set("k", 1); return c }, cm})
	return r
}

// seen tells what an object shows through its methods.
func sepSeen(x interface{}) string {
	switch o := x.(type) {
	case *x2.XTemplate:
		return sepRender(&tkit2, o)
	case *x1.XTemplate:
		return sepRender(&tkit1, o)
	case *x2.XCache:
		v, inv := o.Get("k")
		n, _ := o.Get("new")
		return fmt.Sprint(v, inv, n, o.Count(), o.Maxitems, o.ID)
	case *x1.XCache:
		v, inv := o.Get("k")
		n, _ := o.Get("new")
		return fmt.Sprint(v, inv, n, o.Count(), o.Maxitems, o.ID)
	case *x2.XLanguage:
		return o.GetXML() + o.String() + o.GetStatus("a") + o.Get("a")
	case *x1.XLanguage:
		return o.String() + o.GetName() + o.GetLanguage().String() + o.Get("a")
	case dsI:
		return o.String() + o.GoString()
	case colI:
		return o.String()
	}
	return "?"
}

func sepRender(tk *tkit, t interface{}) string {
	_, o := (&tdata{t: ds("a", "x", "n", ds("x", "NX"), "l", col(ds("v", 1), ds("v", 2)))}).build(tk, plainImpl)
	s := tk.exec(t, o) + tk.exec(t, nil)
	for _, n := range []string{"s", "t", "new", "c"} {
		if x := tk.get(t, n); x != nil {
			s += n + ":" + tk.exec(x, o)
		}
	}
	return s
}

// laterModel works out what a task should tell when it is asked, after the threads: nothing is done before them.
type laterModel struct {
	tasks []sepTask
	res   []*string
}

func (m *laterModel) Apply(op int) string {
	if m.res[op] == nil {
		s := m.tasks[op].do()
		m.res[op] = &s
	}
	return *m.res[op]
}
func (m *laterModel) Clone() Model { return m }

// firstUse: two goroutines do the first work of the process.
func firstUse(tasks []sepTask, ops []string, i, j int, prefix []int) fw.Job {
	return fw.Job{Name: fmt.Sprintf("first in the process: %s with %s %d", ops[i], ops[j], len(prefix)), Fresh: true, Run: func(c *fw.Ctx) {
		sp := &Spec{Ops: ops, New: func() interface{} { return nil }, Do: func(_ interface{}, op int) string { return tasks[op].do() }, NewModel: func() Model { return &laterModel{tasks, make([]*string, len(tasks))} }, Once: true, Prefix: prefix}
		Explore(c, sp, nil, [][]int{{i}, {j}}, 0)
	}}
}

func sepJobs(tier string) []fw.Job {
	q := tier != "thorough"
	tasks := sepTasks()
	var ops []string
	for _, t := range tasks {
		ops = append(ops, t.name)
	}
	want := &laterModel{tasks, make([]*string, len(tasks))}
	sp := &Spec{Ops: ops, New: func() interface{} { return nil }, Do: func(_ interface{}, op int) string { return tasks[op].do() }, NewModel: func() Model { return want }, Epilogue: iota2(len(ops))}
	var jobs []fw.Job
	for i := range ops {
		for j := i; j < len(ops); j++ {
			i, j := i, j
			jobs = append(jobs, fw.Job{Name: ops[i] + " with " + ops[j], Run: func(c *fw.Ctx) {
				Explore(c, sp, nil, [][]int{{i}, {j}}, sel(q, 2, 4))
				Explore(c, sp, nil, [][]int{{i, i}, {j}}, sel(q, 1, 2))
				if i == j || !q {
					Explore(c, sp, nil, [][]int{{i}, {j}, {i}}, 1)
				}
			}})
		}
	}
	jobs = append(jobs, fw.Job{Name: "objects made alike", Run: func(c *fw.Ctx) {
		for pi, p := range sepPairs() {
			for mi := range p.mut {
				for m2 := range p.mut {
					for side := 0; side < 2; side++ {
						if !c.Case(pi, mi, m2, side) {
							if c.Stop() {
								return
							}
							continue
						}
						msg := try(func() string {
							x := []interface{}{p.mk(), p.mk()}
							other := x[1-side]
							before := sepSeen(other)
							p.mut[mi](x[side])
							if g := sepSeen(other); g != before {
								return fmt.Sprintf("the other shows %q instead of %q", g, before)
							}
							fw.Try(func() { p.mut[m2](x[side]) }) // not every change can follow every other
							if g := sepSeen(other); g != before {
								return fmt.Sprintf("the other shows %q instead of %q", g, before)
							}
							if g := sepSeen(p.mk()); g != before {
								return fmt.Sprintf("a third one shows %q instead of %q", g, before)
							}
							return ""
						})
						if msg != "" {
							c.Fail(fmt.Sprintf("%s: changes %d and %d of object %d", p.name, mi, m2, side), "%s", msg)
							return
						}
						c.Trace()
						c.Trans(3)
						c.State(fmt.Sprint(pi, mi, m2, side))
						c.Sample(func() string { return fmt.Sprintf("%s: changes %d and %d", p.name, mi, m2) })
					}
				}
			}
		}
	}})
	for i := range ops {
		for j := range ops {
			jobs = append(jobs, firstUse(tasks, ops, i, j, nil))
			if i == j {
				for p := 1; p <= sel(q, 24, 90); p++ {
					prefix := make([]int, p+1)
					prefix[p] = 1
					jobs = append(jobs, firstUse(tasks, ops, i, j, prefix))
				}
			}
		}
	}
	return jobs
}

func init() {
	fw.Register(&fw.Prop{ID: "C33", Jobs: sepJobs, Bounds: func(string) string {
		return "all pairs of 16 tasks, each with objects of its own, in two goroutines (2 preemptions, thorough 4), 2+1 tasks and triples (1 preemption); all ordered pairs as the first thing a process does, equal ones with a switch at each of the first 24 (90) decisions; all pairs of changes of one of two objects made alike, 20 ways to make them"
	}, Assumptions: schedAssume[:2]})
}
