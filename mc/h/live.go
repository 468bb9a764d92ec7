package h

import (
	"fmt"
	"regexp"
	"strings"

	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"

	"xcoremc/fw"
)

// ---- C30: rendering shared thread-safe data while it changes

type liveWorld struct {
	d, o, o2 *x2.XDatasetTS
	l, l2    *x2.XDatasetCollectionTS
	el       []*x2.XDatasetTS
	lang     []*x2.XLanguage
	t        []*x2.XTemplate
}

// templates that look at the data once: the rendering is that of one moment
var liveOnce = []string{
	"{{a}}",
	"<##e##>",
	"{{o>a}}",
	"??a:t??[[t]]T[[]][[t.2]]T2[[]][[t.none]]N[[]]",
	"&&:a:p&&[[p]]P[[]][[p2]]P2[[]]",
	"&&s:o&&[[s]]({{a}})[[]]",
	"??o:t??[[t]]T{{a}}[[]][[t.array]]A{{a}}[[]]",
}

// templates that look several times, with the form of a right rendering
var liveMany = []struct{ text, form string }{
	{"@@l:t@@[[t]]<{{v}}>[[]][[t.none]]N[[]]", `^(N|(<\d+>)*)$`},
	{"@@l:t@@[[t]]<{{v}},{{.counter}}>[[]][[t.first]]F{{v}}[[]][[t.last]]L{{v}}[[]][[t.key.1]]K{{v}}[[]]", `^(F\d+|L\d+|K\d+|<\d*,\d*>)*$`},
	{"@@l:t@@[[t]]{{v}}(@@m:u@@)[[]][[u]]{{w}};[[]][[u.none]]n[[]][[t.none]]N[[]]", `^(N|(\d+\((\d+;)*n?\))*)$`},
	{"{{l>0>v}}|{{a}}{{a}}##e##", `^(\d+)?\|[12]?[12]?[EFG]?$`},
	{"!!dump!!", `^#`},
	{"&&s&&[[s]]@@l:t@@{{a}}@@l:t@@[[]][[t]]{{v}}[[]][[t.even]]e{{v}}[[]]", `^(e?\d+)*$`},
}

type liveOp struct {
	name string
	do   func(w *liveWorld) string
	mod  func(m *liveLin) string
}

// liveLin: the values the templates of liveOnce depend on.
type liveLin struct {
	a, oa, e string
	hasA     bool
	lang     int
	es       [2]string
	o        int // 1: the first nested dataset, 2: the second, 0: none
	ops      []liveOp
}

func (l *liveLin) Clone() Model        { c := *l; return &c }
func (l *liveLin) Apply(op int) string { return l.ops[op].mod(l) }

func liveOps() []liveOp {
	ops := []liveOp{
		{"Set(a,2)", func(w *liveWorld) string { w.d.Set("a", 2); return "" }, func(m *liveLin) string { m.a = "2"; return "" }},
		{"Set(a,nil)", func(w *liveWorld) string { w.d.Set("a", nil); return "" }, func(m *liveLin) string { m.a = ""; return "" }},
		{"Del(a)", func(w *liveWorld) string { w.d.Del("a"); return "" }, func(m *liveLin) string { m.a = ""; return "" }},
		{"o.Set(a,4)", func(w *liveWorld) string { w.o.Set("a", 4); return "" }, func(m *liveLin) string { m.oa = "4"; return "" }},
		{"lang.Set(e,F)", func(w *liveWorld) string { w.lang[0].Set("e", "F"); return "" }, func(m *liveLin) string { m.es[0] = "F"; return "" }},
		{"lang.Del(e)", func(w *liveWorld) string { w.lang[0].Del("e"); return "" }, func(m *liveLin) string { m.es[0] = ""; return "" }},
		{"lang.LoadString(e=F)", func(w *liveWorld) string { return fmt.Sprint(w.lang[0].LoadString("e=F")) }, func(m *liveLin) string { m.es[0] = "F"; return "<nil>" }},
		{"lang.LoadXMLString(e=F)", func(w *liveWorld) string {
			return fmt.Sprint(w.lang[0].LoadXMLString(xmlDoc("n", "es", []xent{{"e", "F", ""}}, 0)))
		}, func(m *liveLin) string { m.es[0] = "F"; return "<nil>" }},
		{"Set(#,other table)", func(w *liveWorld) string { w.d.Set("#", w.lang[1]); return "" }, func(m *liveLin) string { m.lang = 1; return "" }},
		{"Set(o,o2)", func(w *liveWorld) string { w.d.Set("o", w.o2); return "" }, func(m *liveLin) string { m.o = 2; return "" }},
		// on the collection
		{"l.Push(e2)", func(w *liveWorld) string { w.l.Push(w.el[2]); return "" }, nil},
		{"l.Unshift(e2)", func(w *liveWorld) string { w.l.Unshift(w.el[2]); return "" }, nil},
		{"l.Pop()", func(w *liveWorld) string { w.l.Pop(); return "" }, nil},
		{"l.Shift()", func(w *liveWorld) string { w.l.Shift(); return "" }, nil},
		{"Set(l,l2)", func(w *liveWorld) string { w.d.Set("l", w.l2); return "" }, nil},
		{"Del(l)", func(w *liveWorld) string { w.d.Del("l"); return "" }, nil},
		{"e0.Set(v,7)", func(w *liveWorld) string { w.el[0].Set("v", 7); return "" }, nil},
		{"m.Pop()", func(w *liveWorld) string {
			c, _ := w.el[1].GetCollection("m")
			c.Pop()
			return ""
		}, nil},
	}
	for i, text := range liveOnce {
		i := i
		n := parseT(text, false)
		ops = append(ops, liveOp{"Execute(" + text + ")", func(w *liveWorld) string { return w.t[i].Execute(w.d) }, func(m *liveLin) string {
			oa := m.oa
			if m.o == 2 {
				oa = "9"
			}
			val := func(s string) *tree {
				if s == "" {
					return scalar(nil)
				}
				return scalar(s)
			}
			t := ds("a", val(m.a), "o", ds("a", val(oa)))
			t.build(&kit2)
			in := &interp{lang: map[string]string{"e": m.es[m.lang]}}
			return in.render(n, []*tree{t}, 0)
		}})
	}
	for i, x := range liveMany {
		i, x := len(liveOnce)+i, x
		re := regexp.MustCompile(x.form)
		ops = append(ops, liveOp{"Execute(" + x.text + ")", func(w *liveWorld) string {
			out := w.t[i].Execute(w.d)
			if !re.MatchString(out) {
				panic(fmt.Sprintf("rendered %q, a right rendering has the form %s", out, x.form))
			}
			return ""
		}, nil})
	}
	return ops
}

func newLiveWorld() interface{} { return liveWorldOf(0) }

// liveWorldOf: with n more elements in the collection.
func liveWorldOf(n int) interface{} {
	w := &liveWorld{}
	for i := 0; i < 3; i++ {
		m := &x2.XDatasetCollectionTS{}
		for j := 0; j < i; j++ {
			m.Push(x2.NewXDatasetTS(&x2.XDataset{"w": 10*i + j}))
		}
		w.el = append(w.el, x2.NewXDatasetTS(&x2.XDataset{"v": i + 1, "m": m}))
	}
	w.l, w.l2 = &x2.XDatasetCollectionTS{}, &x2.XDatasetCollectionTS{}
	w.l.Push(w.el[0])
	w.l.Push(w.el[1])
	w.l2.Push(w.el[2])
	for i := 0; i < n; i++ {
		w.l.Push(w.el[i%3])
	}
	w.o, w.o2 = x2.NewXDatasetTS(&x2.XDataset{"a": 3}), x2.NewXDatasetTS(&x2.XDataset{"a": 9})
	for _, e := range []string{"E", "G"} {
		l := x2.NewXLanguage("n", language.English)
		l.Set("e", e)
		w.lang = append(w.lang, l)
	}
	w.d = x2.NewXDatasetTS(&x2.XDataset{"a": 1, "o": w.o, "l": w.l, "#": w.lang[0]})
	for _, t := range liveProtos() {
		w.t = append(w.t, t.Clone())
	}
	return w
}

var livePro []*x2.XTemplate

// liveProtos compiles the templates once per process.
func liveProtos() []*x2.XTemplate {
	if livePro == nil {
		for _, s := range liveOnce {
			livePro = append(livePro, mustT(s))
		}
		for _, s := range liveMany {
			livePro = append(livePro, mustT(s.text))
		}
	}
	return livePro
}

func mustT(s string) *x2.XTemplate {
	t, err := x2.NewXTemplateFromString(s)
	if err != nil {
		panic(err)
	}
	return t
}

func liveJobs(tier string) []fw.Job {
	q := tier != "thorough"
	ops := liveOps()
	var nm []string
	for _, o := range ops {
		nm = append(nm, o.name)
	}
	idx := func(f func(s string) bool) (r []int) {
		for i, n := range nm {
			if f(n) {
				r = append(r, i)
			}
		}
		return
	}
	in := func(l ...string) func(string) bool {
		return func(s string) bool {
			for _, x := range l {
				if x == s {
					return true
				}
			}
			return false
		}
	}
	do := func(s interface{}, op int) string { return ops[op].do(s.(*liveWorld)) }
	once := func(s string) bool {
		for _, x := range liveOnce {
			if s == "Execute("+x+")" {
				return true
			}
		}
		return false
	}
	lin := &Spec{Ops: nm, New: newLiveWorld, Do: do, NewModel: func() Model { return &liveLin{a: "1", oa: "3", es: [2]string{"E", "G"}, o: 1, ops: ops} }, Epilogue: idx(once)}
	sh := []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: -1}, {lens: []int{1, 1, 1}, bound: sel(q, 2, -1)}}
	if !q {
		sh = append(sh, shape{lens: []int{2, 2}, bound: 3})
	}
	var jobs []fw.Job
	for _, g := range [][]string{
		{"Set(a,2)", "Set(a,nil)", "Del(a)", "Execute({{a}})", "Execute(" + liveOnce[3] + ")", "Execute(" + liveOnce[4] + ")"},
		{"lang.Set(e,F)", "lang.Del(e)", "lang.LoadString(e=F)", "lang.LoadXMLString(e=F)", "Execute(<##e##>)", "Set(a,2)", "Execute({{a}})"},
		{"Set(#,other table)", "Execute(<##e##>)", "Set(a,2)", "Execute({{a}})"},
		{"o.Set(a,4)", "Execute({{o>a}})", "Execute(" + liveOnce[5] + ")", "Execute(" + liveOnce[6] + ")"},
		{"Set(o,o2)", "Execute({{o>a}})", "Execute(" + liveOnce[5] + ")", "Execute(" + liveOnce[6] + ")"},
	} {
		jobs = append(jobs, specJobs("render one value", lin, [][]int{{}}, idx(in(g...)), sh)...)
	}
	// several looks: no race, panic or deadlock, and the form of the rendering
	free := &Spec{Ops: nm, New: newLiveWorld, Do: do}
	changes := idx(func(s string) bool { return !strings.HasPrefix(s, "Execute(") })
	for i := range liveMany {
		ex := len(ops) - len(liveMany) + i
		for _, ch := range changes {
			ex, ch := ex, ch
			jobs = append(jobs, fw.Job{Name: "render meanwhile: " + nm[ex] + " with " + nm[ch], Run: func(c *fw.Ctx) {
				Explore(c, free, nil, [][]int{{ex}, {ch}}, -1)
				for _, c2 := range changes {
					if c.Stop() {
						return
					}
					Explore(c, free, nil, [][]int{{ex}, {ch, c2}}, sel(q, 2, -1))
					if c2 >= ch {
						Explore(c, free, nil, [][]int{{ex}, {ch}, {c2}}, sel(q, 1, 2))
					}
				}
				for j := range liveMany {
					if c.Stop() {
						return
					}
					Explore(c, free, nil, [][]int{{ex}, {len(ops) - len(liveMany) + j}, {ch}}, 1)
				}
			}})
		}
	}
	// long collections
	for _, n := range []int{20, 70} {
		n := n
		long := &Spec{Ops: nm, New: func() interface{} { return liveWorldOf(n) }, Do: do}
		for i := range liveMany {
			for _, ch := range changes {
				ex, ch := len(ops)-len(liveMany)+i, ch
				if n > 20 && (i == 1 || i == 2 || i == 5) && q {
					continue
				}
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%d more elements: %s with %s", n, nm[ex], nm[ch]), Run: func(c *fw.Ctx) {
					Explore(c, long, nil, [][]int{{ex}, {ch}}, sel(q, 1, 2))
				}})
			}
		}
	}
	return jobs
}

func init() {
	fw.Register(&fw.Prop{ID: "C30", Jobs: liveJobs, Bounds: func(string) string {
		return "7 templates that look once x 10 changes: pairs, 1+2 (all schedules) and triples (2 preemptions, thorough all); 6 templates with loops, nested loops and dumps x all 1 and 2 changes of 18 (all schedules for one change, 2 preemptions for two, thorough all); the same with 20 and 70 more elements with 1 (thorough 2) preemptions"
	}, Assumptions: schedAssume[:2]})
}
