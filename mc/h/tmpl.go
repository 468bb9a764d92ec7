package h

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	x2 "github.com/webability-go/xcore/v2"

	"xcoremc/fw"
)

// tdata is data to inject: the abstract tree (nil: no data) and the language entries.
type tdata struct {
	t    *tree
	lang map[string]string
	bad  bool // "#" holds something that is not a language table
	deep bool // rendered to any depth
}

func (d *tdata) build(tk *tkit, impl func() int) (*tree, interface{}) {
	if d.t == nil {
		return nil, nil
	}
	t := d.t.copyTree(impl)
	if d.lang != nil {
		t.kids["#"] = scalar(tk.lang(d.lang))
	}
	if d.bad {
		t.kids["#"] = scalar("not a language")
	}
	return t, t.build(tk.k)
}

func plainImpl() int { return 0 }

func tsImpl() int { return 1 }

func mixImpl() func() int { n := 0; return func() int { n++; return n & 1 } }

// expect renders with the reference; ok is false if the template does not end.
func expect(tk *tkit, m *mt, d *tdata, t *tree) (string, bool) {
	in := &interp{v1: tk.v1, lang: d.lang, deep: d.deep}
	var st []*tree
	if t != nil {
		st = []*tree{t}
	} else {
		in.lang = nil
	}
	s := in.render(m, st, 0)
	return s, !in.over
}

// renderCase compiles and renders one text with all data; "" if right.
func renderCase(tk *tkit, text string, datas []*tdata, full bool) (msg string, execs int) {
	m := parseT(text, tk.v1)
	var t interface{}
	var err error
	if p := fw.Try(func() { t, err = tk.from(text) }); p != "" {
		return "compiling: " + p, 1
	}
	if m == nil {
		if err == nil || t != nil {
			return fmt.Sprintf("unpaired marks give error %v and template %v", err, t), 1
		}
		return "", 1
	}
	if err != nil || t == nil {
		return fmt.Sprintf("refused: %v", err), 1
	}
	for di, d := range datas {
		impls := []func() int{plainImpl}
		if full && !tk.v1 {
			impls = []func() int{plainImpl, tsImpl, mixImpl(), ownImpl()}
		} else if full {
			impls = append(impls, ownImpl())
		}
		for ii, impl := range impls {
			tr, obj := d.build(tk, impl)
			want, ok := expect(tk, m, d, tr)
			if !ok {
				continue
			}
			var got string
			execs++
			if p := fw.Try(func() { got = tk.exec(t, obj) }); p != "" {
				return fmt.Sprintf("with data %d %v kind %d: %s", di, d.t, ii, p), execs
			}
			if got != want {
				return fmt.Sprintf("with data %d %v kind %d renders %q, expected %q", di, d.t, ii, got, want), execs
			}
		}
	}
	return "", execs
}

// runTexts is the loop over texts of a job.
func runText(c *fw.Ctx, tk *tkit, id []int, text string, datas []*tdata, full bool) bool {
	if c.Stop() {
		return false
	}
	if !c.Case(id...) {
		return true
	}
	m, n := renderCase(tk, text, datas, full)
	if m != "" {
		c.Fail(fmt.Sprintf("%s template %q", tk.name, text), "%s", m)
		return false
	}
	for i := 0; i < n; i++ {
		c.Trace()
	}
	c.Trans(n)
	c.State(text)
	c.Sample(func() string { return fmt.Sprintf("%q", text) })
	return true
}

// ---- C18: parsing

var parseTokens = []string{"x", "f", "{", "{{", "}", "}}", "[[", "[[s]]", "[[]]", "]]", "]", "\n", "\r\n", "%--", "--%", "##", "&&", "@@", "??", "!!", " ", "é", "#", ":"}

func parseData() []*tdata {
	return []*tdata{{t: ds("f", "V", "s", "W", "x", ds("f", "N"), "xf", col(ds("f", "L0"), ds("f", "L1"))), lang: map[string]string{"f": "LF", "x": "LX", "s": "LS"}}}
}

func parseJobs(tier string, tk *tkit) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	data := parseData()
	toks := parseTokens
	for f := range toks {
		f := f
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s texts starting with %q", tk.name, toks[f]), Run: func(c *fw.Ctx) {
			for n := 1; n <= 4; n++ {
				texts(toks, []int{f}, n, func(h []int, s string) bool { return runText(c, tk, h, s, data, false) })
			}
		}})
	}
	// longer texts over fewer pieces
	fam := [][]string{
		{"x", "\n", "[[s]]", "[[t|u]]", "[[]]", "&&s&&", "&&u&&", "[["},
		{"{{f}}", "{{", "}}", "{", "}", "f", ">", "\n"},
		{"%--", "--%", "--", "%", "\n", "\r\n", "x", "[[]]"},
		{"##f##", "##", "#", "f", "&&", "&", "F", "_"},
		{"@@s@@", "@@", "??s??", "??", "!!dump!!", "!!", "s", "[[s]]y[[]]"},
		{"[[", "]]", "[", "]", "s", "S", "|", "\n", "."},
	}
	ln := sel(q, 6, 7)
	for fi, a := range fam {
		for f := range a {
			fi, a, f := fi, a, f
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s family %d starting with %q", tk.name, fi, a[f]), Run: func(c *fw.Ctx) {
				texts(a, []int{f}, ln, func(h []int, s string) bool { return runText(c, tk, h, s, data, false) })
			}})
		}
	}
	if !q {
		for f := range toks {
			for g := range toks {
				f, g := f, g
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s texts of 5 starting with %q %q", tk.name, toks[f], toks[g]), Run: func(c *fw.Ctx) {
					texts(toks, []int{f, g}, 5, func(h []int, s string) bool { return runText(c, tk, h, s, data, false) })
				}})
			}
		}
	}
	// every character in every place of every tag
	forms := []string{"{{f%}}", "{{%f}}", "{{%}}", "##f%##", "##%##", "&&s%&&[[s]]y[[]]", "&&%s&&[[s]]y[[]]", "@@xf%:s@@[[s]]y[[]]", "??f%:s??[[s]]y[[]]", "!!dump%!!", "!!%!!",
		"[[s%]]y[[]]&&s%&&&&s&&", "[[%]]y[[]]", "[[%s]]y[[]]&&s&&", "[[s]]y[[%]]", "[%[s]]y", "{%{f}}", "{{f}%}", "#%#f##", "##f#%#", "%--%--%z", "%-%-x--%", "%--x-%-%", "[[s]]%y[[]]%&&s&&", "{{f}}%{{f}}", "&&s%&&[[s%]]y[[]]", "[[s%t]]y[[]]&&s&&&&t&&", "{{x%f}}", "@@xf%s@@[[s]]y[[]]", "??f%s??[[s]]y[[]]"}
	chars := []string{"é", "\u2028", "\U0001F600", "\r\n", "\n\r", "\xff", "--", "[[", "]]", "[[]]"}
	for ch := 0; ch < 128; ch++ {
		chars = append(chars, string(rune(ch)))
	}
	for fi := range forms {
		fi := fi
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s characters in %s", tk.name, forms[fi]), Run: func(c *fw.Ctx) {
			for ci, ch := range chars {
				d := parseData()
				if ch != ">" {
					for _, n := range []string{"f" + ch, ch + "f", ch, "x" + ch + "f"} {
						if !strings.Contains(n, ">") && d[0].t.kids[n] == nil && n != "#" {
							d[0].t.kids[n] = scalar("own")
						}
						if _, ok := d[0].lang[n]; !ok {
							d[0].lang[n] = "OWN"
						}
					}
				}
				if !runText(c, tk, []int{ci}, strings.Replace(forms[fi], "%", ch, -1), d, false) {
					return
				}
				// literally where the form itself has the character
				if strings.Count(forms[fi], "%") > 1 && !runText(c, tk, []int{ci, 1}, strings.Replace(forms[fi], "%", ch, 1), d, false) {
					return
				}
			}
		}})
	}
	jobs = append(jobs, fw.Job{Name: tk.name + " sizes", Run: func(c *fw.Ctx) { sizeTexts(c, tk, data, q) }})
	jobs = append(jobs, fw.Job{Name: tk.name + " files and refused loads", Run: func(c *fw.Ctx) {
		d, rm := scratch()
		defer rm()
		file := filepath.Join(d, "t")
		n := 0
		var st []*tree
		tr, obj := data[0].build(tk, plainImpl)
		st = []*tree{tr}
		for i := range toks {
			texts(toks, []int{i}, sel(q, 2, 3), func(h []int, s string) bool {
				n++
				if c.Stop() {
					return false
				}
				if !c.Case(n) {
					return true
				}
				m := parseT(s, tk.v1)
				msg := try(func() string {
					if err := os.WriteFile(file, []byte(s), 0600); err != nil {
						panic(err)
					}
					t, err := tk.fromFile(file)
					if (m == nil) != (err != nil) || (m == nil) != (t == nil) {
						return fmt.Sprintf("from a file: template %v error %v", t, err)
					}
					if m != nil {
						in := &interp{v1: tk.v1, lang: data[0].lang}
						want := in.render(m, st, 0)
						if got := tk.exec(t, obj); !in.over && got != want {
							return fmt.Sprintf("from a file renders %q, expected %q", got, want)
						}
						if in.over {
							return ""
						}
						// loaded over another template
						ld, err := tk.from("old{{f}}&&zz&&[[zz]]S[[]]")
						if err != nil {
							return "refused"
						}
						for f := 0; f < 2; f++ {
							if f == 0 {
								err = tk.load(ld, s)
							} else {
								err = tk.loadFile(ld, file)
							}
							if err != nil {
								return fmt.Sprintf("loading again refused: %v", err)
							}
							if got := tk.exec(ld, obj); got != want {
								return fmt.Sprintf("loaded again renders %q, expected %q", got, want)
							}
						}
						return ""
					}
					if tk.v1 {
						return ""
					}
					// a refused load on a loaded template
					for _, old := range []string{"old{{f}}&&s&&[[s]]S&&y&&[[y]]Y[[]][[]][[q]]Q[[]]", "o&&s&&&&x&&", ""} {
						ld, err := tk.from(old)
						if err != nil {
							return "refused " + old
						}
						before := tk.exec(ld, obj)
						dump := Obs(ld)
						for f := 0; f < 2; f++ {
							if f == 0 {
								err = tk.load(ld, "[[s]]new[[]][[y]]new[[]][[x]]new[[]]"+s)
							} else {
								err = tk.loadFile(ld, file)
							}
							if err == nil {
								return "load not refused"
							}
							if after := tk.exec(ld, obj); after != before || Obs(ld) != dump {
								return fmt.Sprintf("a refused load into %q changed the rendering from %q to %q", old, before, after)
							}
						}
					}
					return ""
				})
				if msg != "" {
					c.Fail(fmt.Sprintf("%s text %q", tk.name, s), "%s", msg)
					return false
				}
				c.Trace()
				c.Trans(2)
				return true
			})
		}
		for i, f := range []string{filepath.Join(d, "absent"), d, ""} {
			if !c.Case(-1, i) {
				continue
			}
			msg := try(func() string {
				t, err := tk.fromFile(f)
				if err == nil || t != nil {
					return fmt.Sprintf("gives %v %v", t, err)
				}
				ld, _ := tk.from("old{{f}}")
				before := tk.exec(ld, obj)
				if err := tk.loadFile(ld, f); err == nil || tk.exec(ld, obj) != before {
					return fmt.Sprintf("loading gives %v and %q", err, tk.exec(ld, obj))
				}
				return ""
			})
			if msg != "" {
				c.Fail(fmt.Sprintf("%s unreadable file %d", tk.name, i), "%s", msg)
				return
			}
			c.Trace()
			c.Trans(2)
		}
	}})
	return jobs
}

// sizeTexts: long texts, many tags, many definitions, deep nesting.
func sizeTexts(c *fw.Ctx, tk *tkit, data []*tdata, q bool) {
	id := 0
	one := func(s string) bool {
		id++
		return runText(c, tk, []int{id}, s, data, false)
	}
	for _, n := range []int{50, 255, 256, 1000, 4095, 4096, 4097, 65536, 200000} {
		x := strings.Repeat("lorem é\n", n/9+1)[:n]
		for _, f := range []string{"X", "X{{f}}X", "{{f}}X", "&&s&&[[s]]X[[]]X", "%-- X --%y", "X%-- X --%\nX##f##", "[[s]]X&&t&&[[t]]X[[]][[]]&&s&&", "X{{", "X[[s]]", "[[]]X"} {
			if !one(strings.Replace(f, "X", x, -1)) {
				return
			}
		}
	}
	// chains of definitions, one of them with another content
	for depth := 1; depth <= 16; depth++ {
		for at := 0; at < depth; at++ {
			for _, body := range []string{"", "x", "{{f}}", "##f##", "\n", "x{{f}}", "{{f}}x{{f}}", "%-- c --%"} {
				for style := 0; style < 4; style++ {
					b, e := "&&d0&&", ""
					for i := 0; i < depth; i++ {
						b += fmt.Sprintf("[[d%d]]", i)
						if i == at {
							b += body
						}
						if i < depth-1 && (i != at || style&1 == 1) {
							b += fmt.Sprintf("&&d%d&&", i+1)
						}
						if style&2 == 2 {
							e = "[[]]z" + e
						} else {
							e = "[[]]" + e
						}
					}
					if !one(b + e) {
						return
					}
				}
			}
		}
	}
	// very many tags, texts, comments and definitions
	for _, n := range []int{500, 999, 1000, 1001, 2049, 5000, 10001, 20001} {
		for _, s := range []string{strings.Repeat("{{f}}", n) + "z", strings.Repeat("x##f##\n", n), "&&s&&" + strings.Repeat("[[s]]S[[]]x", n/2) + "&&s&&", "&&s&&" + strings.Repeat("[[s]]", n/20) + strings.Repeat("[[]]", n/20), strings.Repeat("%-- c --%x", n)} {
			if !one(s) {
				return
			}
		}
	}
	for n := 2; n <= sel(q, 130, 1100); n += 1 + n/3 {
		var many, refs, deep, end, alt strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&many, "[[s%d]]S%d{{f}}[[]]\n", i, i)
			fmt.Fprintf(&refs, "&&s%d&&,", n-1-i)
			if i < 35 {
				fmt.Fprintf(&deep, "[[d%d]]D%d&&d%d&&(", i, i, i+1)
				end.WriteString(")[[]]")
			}
			fmt.Fprintf(&alt, "|s%d", i)
		}
		for _, s := range []string{
			strings.Repeat("{{f}}", n), strings.Repeat("{{f}}x", n), strings.Repeat("##f##&&s&&", n) + "[[s]]S[[]]", strings.Repeat("%-- c --%\n", n) + "z",
			many.String() + refs.String(), refs.String() + many.String(), "&&d0&&" + deep.String() + end.String(), deep.String(), end.String(),
			"[[s" + alt.String() + "]]Y[[]]" + refs.String(), "{{" + strings.Repeat("f", n) + "}}", "##" + strings.Repeat("f", n) + "##", "[[" + strings.Repeat("s", n) + "]]N[[]]&&" + strings.Repeat("s", n) + "&&",
			strings.Repeat("{{", n) + "f" + strings.Repeat("}}", n), strings.Repeat("[", n) + "s" + strings.Repeat("]", n), strings.Repeat("#", n), strings.Repeat("%--", n) + "--%x",
		} {
			if !one(s) {
				return
			}
		}
	}
}

// ---- C19: rendering

func subsets(names []string, body func(string) string, mask int) string {
	var b strings.Builder
	for i, n := range names {
		if mask>>uint(i)&1 == 1 {
			b.WriteString("[[" + n + "]]" + body(n) + "[[]]\n")
		}
	}
	return b.String()
}

func loopData() []*tdata {
	var r []*tdata
	mk := func(l *tree) {
		r = append(r, &tdata{t: ds("w", "W", "v", "outer", "l", l, "o", ds("l", l, "v", "ov"))})
	}
	mk(nil)
	mk(scalar(nil))
	mk(scalar("text"))
	mk(ds("v", 1))
	for n := 0; n <= 5; n++ {
		c := col()
		for i := 0; i < n; i++ {
			e := ds("v", fmt.Sprintf("v%d", i))
			if i == 1 {
				e = ds("z", 1)
			}
			if i == 3 {
				e = ds("v", nil, ".counter", "own")
			}
			c.elems = append(c.elems, e)
		}
		mk(c)
	}
	r = append(r, &tdata{})
	return r
}

func condData() []*tdata {
	var r []*tdata
	for _, v := range []*tree{nil, scalar(nil), scalar(""), scalar("x"), scalar("y"), scalar(0), scalar(1), scalar(true), scalar(false), scalar(1.5), ds("v", 9), ds(), col(), col(ds("v", 3)), scalar("none"), scalar("array"), scalar([]int{1}), scalar("a b"), scalar("X"), scalar("Y"), scalar("NONE"), scalar("True"), scalar(" x"), scalar("x "), scalar("x.x"), scalar("xx"), scalar("key.0"), scalar("first")} {
		r = append(r, &tdata{t: ds("v", "V", "c", v, "o", ds("c", v, "v", "ov"), "s", v)})
	}
	r = append(r, &tdata{})
	return r
}

var combo = []string{
	"{{a}}", "{{o>a}}", "{{.counter}}", "##e##", "&&s&&", "&&t:o&&", "&&:k:t&&", "&&s:zz&&", "@@l:t@@", "@@l:s@@", "@@o>l:t@@", "??k:t??", "??o:t??", "??no:t??", "!!dump!!", "{{v}}",
}

func comboData() []*tdata {
	inner := col(ds("v", "i0", "k", "x"), ds("v", "i1", "a", "A1"))
	full := ds("a", "A", "k", "x", "v", "rv", "o", ds("a", "OA", "k", "", "l", inner), "l", col(ds("v", "r0", "l", inner, "o", ds("a", "RO")), ds("a", nil, "v", "r1", "k", nil, "l", col())))
	return []*tdata{
		{t: full, lang: map[string]string{"e": "E!"}},
		{t: ds("a", 1, "k", "q", "o", "notds", "l", ds("a", 2)), bad: true},
		{t: ds("l", col(), "o", ds(), "k", nil, "a", nil, "v", false)},
		{t: ds()},
		{},
	}
}

func comboText(e []int) string {
	return "<" + combo[e[0]] + "|" + combo[e[1]] + ">\n[[s]]\n(" + combo[e[2]] + ")[[]]" +
		"[[t]][" + combo[e[3]] + "{{v}}][[]]\n[[t.none]]N[[]][[tx|t.x|t.first]]X{{v}}[[]][[t.array]]R{{a}}[[]]!{{v}}"
}

func renderJobs(tier string, tk *tkit) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	body := func(n string) string { return "<" + n + ":{{v}},{{.counter}},{{w}}>" }
	lnames := []string{"l", "l.key.0", "l.key.1", "l.key.2", "l.first", "l.last", "l.even", "l.none"}
	for part := 0; part < 8; part++ {
		part := part
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s loops part %d", tk.name, part), Run: func(c *fw.Ctx) {
			for mask := part; mask < 1<<uint(len(lnames)); mask += 8 {
				subs := subsets(lnames, body, mask)
				for fi, f := range []string{"a@@l@@b{{v}}{{.counter}}", "@@o>l:l@@", "@@zz:l@@", "&&in&&[[in]]({{v}}@@l@@{{v}})[[]]", "&&in:o&&[[in]]({{v}}@@l@@{{v}})[[]]", "@@l:in@@[[in]]{@@l@@}[[]]", "@@l:@@", "@@:l@@"} {
					if !runText(c, tk, []int{mask, fi}, f+"\n"+subs, loopData(), true) {
						return
					}
				}
			}
		}})
	}
	cnames := []string{"c", "c.none", "c.x", "c.1", "c.true", "c.array", "c.false"}
	for part := 0; part < 4; part++ {
		part := part
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s conditions part %d", tk.name, part), Run: func(c *fw.Ctx) {
			for mask := part; mask < 1<<uint(len(cnames)); mask += 4 {
				subs := subsets(cnames, body, mask)
				for fi, f := range []string{"a??c??b{{v}}", "??o>c:c??{{v}}", "??s:c??", "??c:zz??", "&&in:o&&[[in]](??c??{{v}})[[]]", "??c:in??[[in]](??c??{{v}})[[]]", "??c:c:c??"} {
					if !runText(c, tk, []int{mask, fi}, f+"\n"+subs, condData(), true) {
						return
					}
				}
			}
		}})
	}
	// parts that show nothing, and what comes after them
	jobs = append(jobs, fw.Job{Name: tk.name + " empty parts", Run: func(c *fw.Ctx) {
		names := []string{"c", "c.none", "c.x", "c.array", "l", "l.none", "l.first", "in"}
		for bi, eb := range []string{"", "{{zz}}", "%-- c --%", "\n", "&&zz&&"} {
			for mask := 0; mask < 1<<uint(len(names)); mask++ {
				subs := ""
				for i, n := range names {
					if mask>>uint(i)&1 == 1 {
						subs += "[[" + n + "]]" + eb + "[[]]"
					} else {
						subs += "[[" + n + "]]" + body(n) + "[[]]"
					}
				}
				for fi, f := range []string{"??c??{{v}}", "??o>c:c??{{v}}{{c}}", "&&in:o&&{{v}}", "&&in:o&&&&c:o&&{{v}}{{c}}", "@@l@@{{v}}", "@@o>l:l@@{{v}}{{.counter}}", "&&u:o&&[[u]]&&in:o&&@@l@@{{v}}[[]]{{v}}", "&&in&&{{v}}&&:c:in&&{{v}}"} {
					if fi%2 == 1 && bi > 1 {
						continue
					}
					d := condData()
					if strings.Contains(f, "l") {
						d = loopData()
					}
					if !runText(c, tk, []int{bi, mask, fi}, f+subs, d, false) {
						return
					}
				}
			}
		}
	}})
	rnames := []string{"s", "p", "px", "p1", "p.", "s.x"}
	jobs = append(jobs, fw.Job{Name: tk.name + " references", Run: func(c *fw.Ctx) {
		for mask := 0; mask < 1<<uint(len(rnames)); mask++ {
			subs := subsets(rnames, body, mask)
			for fi, f := range []string{"&&s&&{{v}}", "&&s:c&&{{v}}", "&&s:o&&{{v}}", "&&s:o>c&&{{v}}", "&&s:zz&&", "&&:c:p&&", "&&:o>c:p&&", "&&:zz:p&&", "&&:c:p.&&", "&&x:c:p&&", "&&s:c:p:q&&", "&&:c:&&", "&&zz&&", "&&s:&&", "&&:c&&", "&&in:o&&[[in]]&&:c:p&&&&s&&{{v}}[[]]"} {
				if !runText(c, tk, []int{mask, fi}, f+"\n"+subs, condData(), true) {
					return
				}
			}
		}
	}})
	jobs = append(jobs, fw.Job{Name: tk.name + " values", Run: func(c *fw.Ctx) {
		var d []*tdata
		for _, v := range convValues() {
			d = append(d, &tdata{t: ds("v", v, "n", ds("v", v))})
		}
		for i, s := range []string{"{{v}}", "{{n>v}}", "{{v}}{{v}}", "&&s:n&&[[s]]{{v}}[[]]", "??v??[[v]]Y[[]][[v.none]]N[[]][[v.1]]one[[]]", "@@v@@[[v]]Y[[]][[v.none]]N[[]]", "&&:v:p&&[[p]]P[[]][[p1]]P1[[]][[ptrue]]PT[[]]", "{{v>x}}", "{{v>0}}"} {
			if !runText(c, tk, []int{i}, s, d, true) {
				return
			}
		}
		var l []*tdata
		for _, m := range []map[string]string{nil, {}, {"e": "E", "e.x": "EX", "E-1_": "D"}, {"e": "{{v}}&&s&&"}, {"e": ""}, {"E": "U", "E.X": "UX", "e-1_": "L"}, {"E": "U", "e": "L", "zz": "Z"}, {" e ": "S", "e.": "D", ".x": "X", "x": "XX", "": "N", "#e#": "M", "é": "A"}, {"e": "##e.x##", "e.x": "##e##"}, {"e": "\n <b>&é\x00"}} {
			l = append(l, &tdata{t: ds("v", 1), lang: m}, &tdata{t: ds("e", "DE", "e.x", "DX", "E", "DU", "zz", "DZ", "x", "", "ZZ", nil), lang: m})
		}
		l = append(l, &tdata{t: ds("v", 1), bad: true}, &tdata{})
		for i, s := range []string{"##e##", "a##e.x##b##zz##", "##E-1_##", "&&s&&[[s]]##e##[[]]", "&&s&&[[s]]{{#}}##e##[[]]", "##E##", "##E.X####e-1_##", "##e.##", "##ZZ##", "##x##", "##X##",
			"[{{e}}]", "[{{e.x}}{{zz}}{{E}}]", "[??e??]", "[??e:s??][[s]]Y[[]][[s.none]]N[[]][[s.E]]E[[]]", "[@@e@@][[e]]Y[[]][[e.none]]N[[]]", "[&&:e:&&][[E]]Y[[]][[]]N[[]]", "[&&e&&][[E]]Y[[]]"} {
			if !runText(c, tk, []int{100 + i}, s, l, false) {
				return
			}
		}
	}})
	// the content of the data
	jobs = append(jobs, fw.Job{Name: tk.name + " dumps", Run: func(c *fw.Ctx) {
		d := []*tdata{{}, {t: ds()}, {t: ds("a", 1)}, {t: ds("dump", "D", "list", "L", "a", nil)}, {t: ds("l", col(ds("a", 1), ds("b", "x")), "o", ds("a", ds("c", 1.5)), "c", "x")}, {t: ds("a", true, "B", "é\n", "c", []string{"q"})}}
		for a, x := range []string{"dump", "list", "Dump", "LIST", "dumps", "a", "", " dump", "o", "dump list", "dump:o", "o>dump"} {
			for b, f := range []string{"!!%!!", "[!!%!!][!!%!!]", "&&s:o&&[[s]]!!%!![[]]", "@@l:s@@[[s]]<!!%!!>[[]]", "??c:s??[[s]]<!!%!!>[[]]??o:t??[[t]]<!!%!!{{a}}>[[]]", "!!%!!!!list!!", "!!!%!!!"} {
				if !runText(c, tk, []int{a, b}, strings.ReplaceAll(f, "%", x), d, true) {
					return
				}
			}
		}
	}})
	// definitions of the same names inside the sub-templates
	jobs = append(jobs, fw.Job{Name: tk.name + " same names inside", Run: func(c *fw.Ctx) {
		d := []*tdata{{t: ds("l", col(ds("a", 1), ds("a", 2), ds("a", 3)), "c", "x", "o", ds("a", "O"), "a", "A")}, {t: ds("l", col(), "c", "", "a", "x")}, {t: ds("l", col(ds("a", 1, "c", "x", "l", col(ds("a", 4), ds("a", 5)))))}}
		suf := []string{"", ".key.1", ".first", ".last", ".even", ".odd", ".x", ".none"}
		for ri, ref := range []string{"@@l:s@@", "??c:s??", "&&s:o&&", "&&s&&", "@@l:s@@??c:s??&&s:o&&"} {
			for o := 0; o < len(suf); o++ {
				for i := 0; i < len(suf); i++ {
					for j := 0; j < len(suf); j++ {
						text := "<" + ref + ">[[s" + suf[o] + "]]A{{a}}[[s" + suf[i] + "]]B{{a}}[[]][[s" + suf[j] + "]]C{{a}}[[]][[]]"
						if suf[o] != "" {
							text += "[[s]]D{{a}}[[]]"
						}
						if !runText(c, tk, []int{ri, o, i, j}, text, d, true) {
							return
						}
					}
				}
			}
		}
	}})
	// loops over many elements, variants for elements beyond the ninth
	jobs = append(jobs, fw.Job{Name: tk.name + " long loops", Run: func(c *fw.Ctx) {
		body := func(n string) string { return "<" + n + ":{{v}},{{.counter}},{{w}}>" }
		long := []string{"l", "l.key.9", "l.key.10", "l.key.11", "l.last", "l.key.1"}
		for n := 6; n <= sel(q, 40, 260); n += 1 + n/9 {
			cl := col()
			for i := 0; i < n; i++ {
				e := ds("v", i*11)
				if i%4 == 3 {
					e = ds("z", i)
				}
				if i%5 == 2 {
					e.kids["l"] = col(ds("v", "in"), ds())
				}
				cl.elems = append(cl.elems, e)
			}
			d := []*tdata{{t: ds("l", cl, "v", "V", "w", "W")}}
			for mask := 0; mask < 1<<uint(len(long)); mask++ {
				subs := subsets(long, body, mask)
				for fi, f := range []string{"@@l@@{{v}}", "@@l:m@@[[m]]{{.counter}}(@@l@@)[[]]"} {
					if fi == 1 && mask%7 != 0 {
						continue
					}
					if !runText(c, tk, []int{n, mask, fi}, f+subs, d, true) {
						return
					}
				}
			}
		}
	}})
	// values that look like parts of a template, long values, keys of all kinds
	jobs = append(jobs, fw.Job{Name: tk.name + " texts as values", Run: func(c *fw.Ctx) {
		for vi, v := range []string{"{{w}}", "&&s&&", "[[]]", "[[s]]", "##e##", "%--", "--%", "%s%d%v", "a\r\nb", "\x00\xff", " ", "\n", "é\u2028", "<b>&amp;\"", "$1${2}", "\\n", strings.Repeat("long ", 2000), "0", "false", "nil", "<nil>", "none", ".none", ":", ">", "a>b", "array"} {
			d := []*tdata{
				{t: ds("v", v, "w", "W", "n", ds("v", v), "l", col(ds("v", v), ds("v", v+v))), lang: map[string]string{"e": v, "f": "F"}},
				{t: ds("v", v), lang: map[string]string{"e": v + "##f##", "f": v}},
			}
			for i, s := range []string{"{{v}}", "a{{v}}b{{w}}", "{{n>v}}{{v}}", "##e##{{v}}##f##", "@@l@@[[l]]<{{v}}>[[]]", "&&s:n&&[[s]]<{{v}}>[[]]", "??v??[[v]]Y{{v}}[[]][[v.none]]N[[]][[v.0]]Z[[]][[v.array]]A[[]]", "&&:v:p&&[[p]]P[[]][[pnone]]PN[[]][[p0]]P0[[]]", "{{v>v}}", "{{v}}{{v}}[[s]]{{v}}[[]]&&s&&", "??n>v:t??[[t]]T{{v}}[[]][[t.false]]F[[]]"} {
				if !runText(c, tk, []int{vi, i}, s, d, true) {
					return
				}
			}
		}
		for ki, key := range []string{"A", "a.b", "a-b", "a_b", "0", "10", "1a", ".", "-", "_", ".counter", "a.", "ABC.def-GHI_0", "a=b", "a|b"} {
			d := []*tdata{{t: ds(key, "K", "n", ds(key, "NK"), "l", col(ds(key, "LK"), ds())), lang: map[string]string{key: "LANG"}}}
			for i, s := range []string{"{{K}}", "{{n>K}}{{l>0>K}}{{l>1>K}}", "##K##", "@@l@@[[l]]<{{K}}>[[]]", "??K:t??[[t]]T[[]][[t.none]]N[[]]", "&&:K:p&&[[p]]P[[]]", "&&s:n&&[[s]]<{{K}}>[[]]", "??n>K:t??[[t]]T[[]]"} {
				if !runText(c, tk, []int{100 + ki, i}, strings.Replace(s, "K", key, -1), d, true) {
					return
				}
			}
		}
	}})
	// three levels of loops
	jobs = append(jobs, fw.Job{Name: tk.name + " nested loops", Run: func(c *fw.Ctx) {
		for a := 0; a <= 3; a++ {
			for b := 0; b <= 3; b++ {
				for cc := 0; cc <= 2; cc++ {
					t := col()
					for i := 0; i < a; i++ {
						rb := col()
						for j := 0; j < b; j++ {
							rc := col()
							for k := 0; k < cc; k++ {
								rc.elems = append(rc.elems, ds("n", fmt.Sprint(i, j, k)))
							}
							e := ds("l", rc, "m", fmt.Sprint(i, j))
							if j == 1 {
								delete(e.kids, "l")
							}
							rb.elems = append(rb.elems, e)
						}
						t.elems = append(t.elems, ds("l", rb, "p", i))
					}
					d := []*tdata{{t: ds("l", t, "p", "P", "n", "N")}}
					for i, s := range []string{
						"@@l:x@@|{{.counter}}[[x]]{{.counter}}{{p}}(@@l:y@@)<{{.counter}}{{n}}>[[y]]{{.counter}}{{m}}{{p}}(@@l:z@@){{.counter}}{{n}}[[z]]{{.counter}}{{n}}{{m}}{{p}},[[]][[z.last]].{{.counter}}[[]][[]][[]]",
						"@@l:x@@[[x]]{{.counter}}{@@l:x2@@}[[x2]]{{.counter}}{{p}};[[]][[x2.none]]none{{p}}[[]][[]]",
						"@@l:x@@{{l>0>.counter}}[[x]]@@l@@{{.counter}}[[l]]??m??[[m]]{{m}}{{.counter}}[[]][[]][[]]",
					} {
						if !runText(c, tk, []int{a, b, cc, i}, s, d, true) {
							return
						}
					}
				}
			}
		}
	}})
	// data of many levels, and many elements
	for part := 0; part < 4; part++ {
		part := part
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s deep data part %d", tk.name, part), Run: func(c *fw.Ctx) {
			var depths []int
			for n := 1 + part; n <= sel(q, 40, 120); n += 4 {
				depths = append(depths, n)
			}
			for _, depth := range append(depths, 63+part, 67+part) {
				tk1, tl := ds("v", "end", "k", nil), ds("v", "end", "l", col())
				for i := depth; i > 0; i-- {
					tk1, tl = ds("v", i, "k", tk1), ds("v", i, "l", col(tl))
				}
				d := []*tdata{{t: tk1, deep: true}, {t: tl, deep: true}}
				txt := []string{"&&n&&[[n]]<{{v}}??k:n??{{v}}>[[]]", "&&n&&[[n]]<{{v}}??k:n??{{v}}>[[]][[n.none]]-[[]]", "@@l:n@@[[n]]<{{v}}@@l:n@@{{v}}{{.counter}}>[[]][[n.none]]-[[]]", "&&n&&[[n]]<{{v}}??k:m??{{v}}>[[m]]({{v}}&&n:k&&{{v}})[[]][[]]"}
				for _, use := range []string{"@@l:%s@@", "&&%s:k&&", "??k:%s??", "&&%s&&"} {
					b, e := "", ""
					for i := 0; i < depth; i++ {
						n := fmt.Sprintf("n%d", i)
						b += fmt.Sprintf(use, n) + "{{v}}[[" + n + "]]<{{v}}"
						e = ">[[]]" + e
					}
					txt = append(txt, b+e)
				}
				for i, s := range txt {
					if tk.v1 && i < 4 {
						continue // names are not looked for outside there
					}
					if !runText(c, tk, []int{depth, i}, s, d, true) {
						return
					}
				}
			}
			for _, n := range []int{50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 1025, 2049} {
				if n%4 != part {
					continue
				}
				l := col()
				for i := 0; i < n; i++ {
					l.elems = append(l.elems, ds("v", i))
				}
				d := []*tdata{{t: ds("l", l, "v", "V"), deep: true}}
				for i, s := range []string{"@@l@@{{v}}[[l]]{{v}},[[]]", "@@l@@{{v}}[[l]]{{.counter}}[[]][[l.even]]e{{v}}[[]][[l.last]]l{{v}}[[]][[l.key.100]]hundred[[]][[l.key.999]]m[[]]"} {
					if !runText(c, tk, []int{1000 + n, i}, s, d, true) {
						return
					}
				}
			}
		}})
	}
	if !tk.v1 { // there among the effects
		jobs = append(jobs, inPlaceJob(tier, tk))
	}
	// language tables inside the data are data like others
	jobs = append(jobs, fw.Job{Name: tk.name + " inner language tables", Run: func(c *fw.Ctx) {
		var d []*tdata
		in := func(v string) *tree { return scalar(tk.lang(map[string]string{"e": v})) }
		for _, top := range []map[string]string{nil, {"e": "TOP"}, {"f": "F"}} {
			d = append(d, &tdata{t: ds("o", ds("#", in("O")), "l", col(ds("#", in("L0")), ds("v", 1), ds("#", "text"))), lang: top}, &tdata{t: ds("o", ds("#", nil, "o", ds("#", in("OO"))), "l", col(ds("#", nil), ds("#", in("L1")))), lang: top})
		}
		for i, s := range []string{"##e##@@l:t@@##e##[[t]]##e##,[[]]", "##e##&&t:o&&##e##[[t]]##e##,[[]]", "##e##??o:t??##e##[[t]]##e##,[[]]", "??o:t??##e##[[t]]&&u:o&&##e##[[u]]##e##;[[]],[[]]", "&&:v:t&&[[t]]##e##[[]]##e##"} {
			if !runText(c, tk, []int{i}, s, d, true) {
				return
			}
		}
	}})
	cd := comboData()
	for e0 := range combo {
		for h := 0; h < 2; h++ {
			e0, h := e0, h
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s combinations starting with %s part %d", tk.name, combo[e0], h), Run: func(c *fw.Ctx) {
				for e1 := h; e1 < len(combo); e1 += 2 {
					for e2 := range combo {
						for e3 := range combo {
							e := []int{e0, e1, e2, e3}
							if !runText(c, tk, e, comboText(e), cd, !q) {
								return
							}
							// the same with definitions inside the sub-templates
							t := strings.NewReplacer("[[s]]", "[[s]][[zz]]Z[[]]", "[[t]]", "[[t]][[zz]]Z[[]]", "[[t.array]]", "[[t.array]][[zz]]Z[[]]", "t.first]]", "t.first]][[zz]]Z[[]]").Replace(comboText(e))
							if !runText(c, tk, append([]int{1}, e...), t, cd, false) {
								return
							}
						}
					}
				}
			}})
		}
	}
	return jobs
}

// ---- C20: scopes

// forests enumerates sub-template structures: sequences of definitions with names, nesting and
// probes, as texts. Each body shows a unique letter and optionally one reference.
func forests(n int, names []string, probes []string, f func(id []int, s string) bool) bool {
	// shapes as balanced sequences
	var shapes [][]bool
	var rec func(s []bool, open, left int)
	rec = func(s []bool, open, left int) {
		if left == 0 && open == 0 {
			shapes = append(shapes, append([]bool{}, s...))
			return
		}
		if left > 0 {
			rec(append(s, true), open+1, left-1)
		}
		if open > 0 {
			rec(append(s, false), open-1, left)
		}
	}
	rec(nil, 0, n)
	nm := make([]int, n)
	pr := make([]int, n)
	for si, sh := range shapes {
		var each func(i int) bool
		each = func(i int) bool {
			if i == n {
				var b strings.Builder
				b.WriteString("R&&s&&-&&t&&-")
				k := 0
				for _, o := range sh {
					if o {
						fmt.Fprintf(&b, "[[%s]]%c%s", names[nm[k]], 'A'+k, probes[pr[k]])
						k++
					} else {
						b.WriteString("z[[]]")
					}
				}
				b.WriteString("E&&s&&")
				id := append([]int{n, si}, nm...)
				return f(append(id, pr...), b.String())
			}
			for nm[i] = 0; nm[i] < len(names); nm[i]++ {
				for pr[i] = 0; pr[i] < len(probes); pr[i]++ {
					if !each(i + 1) {
						return false
					}
				}
			}
			nm[i], pr[i] = 0, 0
			return true
		}
		if !each(0) {
			return false
		}
	}
	return true
}

func scopeJobs(tier string, tk *tkit) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	d := []*tdata{{t: ds("l", col(ds("a", 1), ds("a", 2)), "c", "x")}}
	vd := append(d, &tdata{t: ds("l", col())}, &tdata{t: ds("l", col(ds("a", 1)), "c", "")}) // for the variants
	for n := 1; n <= sel(q, 4, 5); n++ {
		parts := 1
		if n >= 4 {
			parts = 32
		}
		probes := []string{"", "(&&s&&)", "(&&t&&)"}
		names := []string{"s", "t", "s|t"}
		for p := 0; p < parts; p++ {
			n, p := n, p
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s scopes of %d definitions part %d", tk.name, n, p), Run: func(c *fw.Ctx) {
				k := 0
				forests(n, names, probes, func(id []int, s string) bool {
					k++
					if k%parts != p {
						return true
					}
					return runText(c, tk, id, s, d, false)
				})
			}})
		}
	}
	// one definition under many names
	for kind := 0; kind < 3; kind++ {
		kind := kind
		jobs = append(jobs, fw.Job{Name: fmt.Sprint(tk.name, " many names kind ", kind), Run: func(c *fw.Ctx) {
			var pool []string
			for i := 0; i < 40; i++ {
				pool = append(pool, []string{fmt.Sprintf("n%d", i), string(rune('a' + i)), strings.Repeat("name", i/3+1) + fmt.Sprint(i)}[kind])
			}
			for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40} {
				if kind == 1 && n > 26 {
					break
				}
				refs := "R"
				for i := 0; i < n; i++ {
					refs += "&&" + pool[i] + "&&,"
				}
				for si, sep := range []string{"|", "||", "| ", " |", " | "} {
					all := strings.Join(pool[:n], sep)
					for i, s := range []string{
						refs + "[[" + all + "]]X{{c}}[[]]",
						refs + "[[" + pool[n-1] + "]]Y[[]][[" + all + "]]X[[]]",
						refs + "[[" + all + "]]X[[]][[" + pool[n-1] + "]]Y[[]]",
						refs + "[[" + all + "]]X[[]][[" + pool[n/2] + sep + pool[0] + "]]Y[[]]",
						"R&&o&&[[o]]" + refs + "[[" + all + "]]X&&o2&&[[o2]]O[[]][[]][[]]",
						refs + "[[" + all + "]]X@@l:" + pool[n-1] + "x@@[[" + strings.Join(pool[:n], "x"+sep) + "x]]{{a}}[[]][[]]",
						"R@@l:" + pool[0] + "@@[[" + pool[0] + sep + strings.Join(pool[:n], ".first"+sep) + ".last]]{{a}}[[]]",
						refs + "[[" + all + sep + "]]X[[]][[" + sep + "]]E[[]]&&&&@@l:@@??c:??&&:l&&&&:c:&&",
						refs + "[[" + sep + all + "]]X[[]]&&&&@@l:@@(??c:??)&&:l&&(&&:c:&&)",
					} {
						if !runText(c, tk, []int{n, si, i}, s, vd, false) {
							return
						}
					}
				}
			}
		}})
	}
	jobs = append(jobs, deepScopeJob(tk, vd))
	// variants resolved through scopes
	jobs = append(jobs, fw.Job{Name: tk.name + " variants through scopes", Run: func(c *fw.Ctx) {
		for n := 1; n <= 3; n++ {
			if !forests(n, []string{"s", "s.first", "s.none", "t|s.x", "s.key.1|s.last"}, []string{"", "@@l:s@@", "??c:s??", "&&:c:s.&&"}, func(id []int, s string) bool {
				s = strings.Replace(s, "R&&s&&-&&t&&-", "R@@l:s@@-&&t&&-??c:s??", 1)
				return runText(c, tk, id, s, vd, false)
			}) {
				return
			}
		}
	}})
	if tk.v1 {
		return jobs
	}
	// added and fetched by program
	ops := []string{}
	for _, p := range []string{"root", "u", "v"} {
		for _, n := range []string{"s", "t", "u", "v", "S"} {
			ops = append(ops, p+".Add("+n+")")
		}
	}
	for _, p := range []string{"root", "u", "v"} {
		for _, n := range []string{"s", "t"} {
			ops = append(ops, p+".Add("+n+") of what is known as s")
		}
	}
	for _, p := range []string{"root", "u"} {
		for _, n := range []string{"s", "u"} {
			ops = append(ops, p+".Add("+n+") of a template not yet loaded")
		}
	}
	ops = append(ops, "load what is known as s", "load what is known as u")
	for f := range ops {
		f := f
		jobs = append(jobs, fw.Job{Name: "v2 added by program first " + ops[f], Run: func(c *fw.Ctx) {
			Seqs(c, func() Inst { return newScopeInst() }, ops, []int{f}, sel(q, 4, 5))
		}})
	}
	return jobs
}

// scopeInst: fresh templates added to the root, or to what the root knows as u or v.
type scopeInst struct {
	root *x2.XTemplate
	m    *mt
	obj  map[*mt]*x2.XTemplate
	raw  map[*mt]bool // not yet loaded: what they render is not claimed
	n    int
}

func newScopeInst() Inst {
	r, err := x2.NewXTemplateFromString("&&s&&-&&t&&-&&u&&-&&v&&-&&S&&[[s]]S0[[]][[u]]U0&&s&&&&S&&[[]]")
	if err != nil {
		panic(err)
	}
	m := parseT("&&s&&-&&t&&-&&u&&-&&v&&-&&S&&[[s]]S0[[]][[u]]U0&&s&&&&S&&[[]]", false)
	i := &scopeInst{root: r, m: m, obj: map[*mt]*x2.XTemplate{m: r}, raw: map[*mt]bool{}}
	for _, n := range []string{"s", "u"} {
		i.obj[m.subs[n]] = r.GetTemplate(n)
	}
	return i
}

func (i *scopeInst) Key() string { return DumpAbs(i.root) }

func (i *scopeInst) Apply(op int) (string, string) {
	var where, name string
	move := op >= 15
	if op >= 25 {
		if m := i.m.find([]string{"s", "u"}[op-25], false); m != nil {
			i.n++
			body := fmt.Sprintf("L%d{{x}}", i.n)
			if err := i.obj[m].LoadString(body); err != nil {
				return err.Error(), ""
			}
			m.nodes = parseT(body, false).nodes
			delete(i.raw, m)
		}
	} else if op >= 21 {
		where = []string{"", "u"}[(op-21)/2]
		name = []string{"s", "u"}[(op-21)%2]
	} else if move {
		where = []string{"", "u", "v"}[(op-15)/2]
		name = []string{"s", "t"}[(op-15)%2]
	} else {
		where = []string{"", "u", "v"}[op/5]
		name = []string{"s", "t", "u", "v", "S"}[op%5]
	}
	pm := i.m
	if where != "" {
		pm = i.m.find(where, false)
	}
	var g, w []string
	if op >= 25 {
	} else if op >= 21 && pm != nil {
		nt, nm := &x2.XTemplate{}, &mt{}
		if i.n++; i.n%2 == 0 {
			nt = x2.NewXTemplate()
		}
		i.obj[pm].AddTemplate(name, nt)
		pm.add(name, nm)
		i.obj[nm] = nt
		i.raw[nm] = true
	} else if move && pm != nil {
		nm := i.m.find("s", false)
		i.obj[pm].AddTemplate(name, i.obj[nm])
		pm.add(name, nm)
	} else if pm != nil {
		i.n++
		body := fmt.Sprintf("%s%d", strings.ToUpper(name), i.n)
		switch name { // references that cannot recurse without end: u->s,t  v->s,t  t->s
		case "u", "v":
			body += "(&&s&&&&t&&)"
		case "t":
			body += "(&&s&&)"
		}
		nt, err := x2.NewXTemplateFromString(body)
		if err != nil {
			return err.Error(), ""
		}
		nm := parseT(body, false)
		p := i.obj[pm]
		p.AddTemplate(name, nt)
		pm.add(name, nm)
		i.obj[nm] = nt
	}
	// lookups from every template reachable
	seen := map[*mt]bool{}
	var all []*mt
	var rec func(m *mt, path string)
	rec = func(m *mt, path string) {
		if seen[m] {
			return
		}
		seen[m] = true
		all = append(all, m)
		for _, n := range []string{"s", "t", "u", "v", "zz", "", "S", "s.", " s", "s|t"} {
			got := i.obj[m].GetTemplate(n)
			want := m.find(n, false)
			if got != i.obj[want] {
				g = append(g, path+"."+n+" wrong")
			}
			if s := m.subs[n]; s != nil {
				rec(s, path+"."+n)
			}
		}
	}
	rec(i.m, "root")
	for _, m := range all {
		if i.raw[m] {
			return strings.Join(g, "|"), strings.Join(w, "|")
		}
	}
	for _, m := range all {
		in := &interp{}
		want := in.render(m, []*tree{ds()}, 0)
		if in.over {
			continue
		}
		g = append(g, i.obj[m].Execute(&x2.XDataset{}))
		w = append(w, want)
	}
	return strings.Join(g, "|"), strings.Join(w, "|")
}

// ---- C21: no effects, no panic

func weirdData() []*tdata {
	r := comboData()
	vals := []*tree{scalar(nil), scalar(5), scalar([]string{"q"}), scalar(struct{ A int }{1}), ds("a", 1, "v", col()), col(ds("a", col(ds())), ds("v", ds("a", 2))), scalar(map[string]interface{}{"a": 1}), scalar("")}
	for i, a := range vals {
		r = append(r, &tdata{t: ds("a", a, "k", vals[(i+1)%len(vals)], "v", vals[(i+2)%len(vals)], "o", vals[(i+3)%len(vals)], "l", vals[(i+4)%len(vals)], "#", vals[(i+5)%len(vals)])})
		r = append(r, &tdata{t: ds("o", ds("l", a, "a", a), "l", col(ds("v", a, "l", a, "k", a)), ".counter", a, "t", a)})
	}
	r = append(r, &tdata{t: ds("a", "&&s&&{{v}}[[s]]", "v", "[[]]", "k", "x|y")})
	return r
}

func effectCase(tk *tkit, text string, datas []*tdata) (string, int) {
	m := parseT(text, tk.v1)
	if m == nil {
		return "", 0
	}
	t, err := tk.from(text)
	if err != nil {
		return fmt.Sprint("refused: ", err), 0
	}
	tdump := Obs(t)
	n := 0
	type done struct {
		obj  interface{}
		dump string
		out  string
		di   int
	}
	var all []done
	for di, d := range datas {
		impls := []func() int{plainImpl}
		if !tk.v1 {
			impls = append(impls, tsImpl)
		}
		for _, impl := range impls {
			tr, obj := d.build(tk, impl)
			if _, ok := expect(tk, m, d, tr); !ok {
				continue
			}
			before := Obs(obj)
			var out string
			n++
			if p := fw.Try(func() { out = tk.exec(t, obj) }); p != "" {
				return fmt.Sprintf("data %d %v: %s", di, d.t, p), n
			}
			if a := Obs(obj); a != before {
				return fmt.Sprintf("data %d %v was changed by rendering: %s instead of %s", di, d.t, a, before), n
			}
			all = append(all, done{obj, before, out, di})
		}
	}
	if Obs(t) != tdump {
		return "the template was changed by rendering", n
	}
	// again, after all the others
	for i := len(all) - 1; i >= 0; i-- {
		a := all[i]
		n++
		if out := tk.exec(t, a.obj); out != a.out {
			return fmt.Sprintf("data %d renders %q the second time, %q before", a.di, out, a.out), n
		}
		if Obs(a.obj) != a.dump {
			return fmt.Sprintf("data %d was changed", a.di), n
		}
	}
	return "", n
}

// inPlaceJob renders, changes the data in place, and renders again: all sequences of changes.
func inPlaceJob(tier string, tk *tkit) fw.Job {
	q := tier != "thorough"
	texts := []string{"{{a}}-{{v}}-{{o>a}}-{{l>0>v}}", "??k:t??&&s:o&&&&:k:t&&[[t]]T{{k}}[[]][[s]]({{a}}{{v}})[[]][[t.x]]X[[]][[tx]]Y[[]][[t.none]]N[[]]", "@@l:t@@[[t]]{{.counter}}{{v}}{{a}},[[]][[t.none]]none[[]][[t.last]]last{{v}}[[]]", "##e##{{a}}&&s&&[[s]]##e##{{v}}[[]]", "plain", "&&s&&[[s]]&&t&&[[t]]@@l:u@@[[u]]{{v}}[[]][[]][[]]!!dump!!"}
	ops := []string{"a", "k", "v", "o", "o>a", "l", "push", "pop", "l>0>v", "language", "del", "nothing"}
	return fw.Job{Name: tk.name + " data changed in place", Run: func(c *fw.Ctx) {
		for impl := 0; impl < sel(tk.v1, 1, 2); impl++ {
			for ti, text := range texts {
				m := parseT(text, tk.v1)
				for code := 0; code < sel(q, 12*12*12, 12*12*12*12); code++ {
					if !c.Case(impl, ti, code) {
						if c.Stop() {
							return
						}
						continue
					}
					kind := func() int { return impl }
					var names []string
					msg := try(func() string {
						t, err := tk.from(text)
						if err != nil {
							return "refused"
						}
						d := &tdata{t: ds("a", "A", "v", "V", "k", "x", "o", ds("a", "OA"), "l", col(ds("v", 1), ds("v", 2))), lang: map[string]string{"e": "E"}}
						tr, obj := d.build(tk, kind)
						top := obj.(dsI)
						put := func(x *tree, name string, v *tree) {
							v = v.copyTree(kind)
							x.obj.(dsI).Set(name, v.build(tk.k))
							x.kids[name] = v
						}
						for i, n := 0, code; i <= sel(q, 3, 4); i++ {
							want, _ := expect(tk, m, d, tr)
							if got := tk.exec(t, top); got != want {
								return fmt.Sprintf("after %v renders %q, expected %q", names, got, want)
							}
							op := n % len(ops)
							n /= len(ops)
							names = append(names, ops[op])
							l := tr.kids["l"]
							switch op {
							case 0, 2:
								put(tr, ops[op], scalar(fmt.Sprint("new", i)))
							case 1:
								put(tr, "k", scalar([]string{"y", "", "x"}[i%3]))
							case 3:
								put(tr, "o", ds("a", fmt.Sprint("O", i)))
							case 4:
								put(tr.kids["o"], "a", scalar(fmt.Sprint("in o ", i)))
							case 5:
								put(tr, "l", col(ds("v", fmt.Sprint("L", i))))
							case 6:
								e := ds("v", fmt.Sprint("P", i)).copyTree(kind)
								tk.k.push(l.obj.(colI), e.build(tk.k).(dsI))
								l.elems = append(l.elems, e)
							case 7:
								if len(l.elems) > 0 {
									tk.k.pop(l.obj.(colI))
									l.elems = l.elems[:len(l.elems)-1]
								}
							case 8:
								if len(l.elems) > 0 {
									put(l.elems[0], "v", scalar(fmt.Sprint("E", i)))
								}
							case 9:
								lang := map[string]string{"e": fmt.Sprint("entry ", i)}
								if i%2 == 0 {
									top.Set("#", tk.lang(lang))
									tr.kids["#"] = scalar(nil)
								} else {
									x, _ := top.Get("#")
									x.(interface{ Set(string, string) }).Set("e", lang["e"])
								}
								d.lang = lang
							case 10:
								top.Del("a")
								delete(tr.kids, "a")
							}
						}
						return ""
					})
					if msg != "" {
						c.Fail(fmt.Sprintf("%s template %q kind %d", tk.name, text, impl), "%s", msg)
						return
					}
					c.Trace()
					c.Trans(7)
					c.State(fmt.Sprint(impl, ti, code))
				}
			}
		}
	}}
}

func effectJobs(tier string, tk *tkit) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	jobs = append(jobs, inPlaceJob(tier, tk))
	run := func(c *fw.Ctx, id []int, text string, d []*tdata) bool {
		if c.Stop() {
			return false
		}
		if !c.Case(id...) {
			return true
		}
		var m string
		var n int
		if p := fw.Try(func() { m, n = effectCase(tk, text, d) }); p != "" {
			m = p
		}
		if m != "" {
			c.Fail(fmt.Sprintf("%s template %q", tk.name, text), "%s", m)
			return false
		}
		for i := 0; i < n; i++ {
			c.Trace()
		}
		c.Trans(n)
		c.State(text)
		c.Sample(func() string { return fmt.Sprintf("%q", text) })
		return true
	}
	wd := weirdData()
	for e0 := range combo {
		e0 := e0
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s effects starting with %s", tk.name, combo[e0]), Run: func(c *fw.Ctx) {
			for e2 := range combo {
				for e3 := range combo {
					for e1 := range combo {
						if q && e1%4 != (e2+e3)%4 {
							continue
						}
						e := []int{e0, e1, e2, e3}
						if !run(c, e, comboText(e), wd) {
							return
						}
					}
				}
			}
		}})
	}
	jobs = append(jobs, fw.Job{Name: tk.name + " effects of loops and conditions", Run: func(c *fw.Ctx) {
		body := func(n string) string { return "<" + n + ":{{v}},{{.counter}}>" }
		ln := []string{"l", "l.key.1", "l.first", "l.last", "l.even", "l.none"}
		cn := []string{"c", "c.none", "c.x", "c.array"}
		for mask := 0; mask < 1<<uint(len(ln)); mask++ {
			if !run(c, []int{0, mask}, "@@l@@@@o>l:l@@"+subsets(ln, body, mask), loopData()) {
				return
			}
		}
		for mask := 0; mask < 1<<uint(len(cn)); mask++ {
			if !run(c, []int{1, mask}, "??c??&&c:c&&&&:c:c.&&"+subsets(cn, body, mask), condData()) {
				return
			}
		}
		// many executions of the same template with changing data
		for i, text := range []string{"{{a}}@@l:t@@##e##[[t]]{{.counter}}{{v}}[[]]", "??k:t??&&s:o&&&&:k:p&&[[t]]T{{k}}[[]][[s]]{{a}}[[]][[p]]P[[]][[px]]PX[[]]", "&&s&&[[s]]S&&t&&[[t]]T@@l:u@@[[u]]{{v}}[[]][[]][[]]!!dump!!"} {
			if !c.Case(3, i) {
				continue
			}
			m := parseT(text, tk.v1)
			msg := try(func() string {
				t, err := tk.from(text)
				if err != nil {
					return "refused"
				}
				for n := 0; n < sel(q, 300, 3000); n++ {
					cl := col()
					for j := 0; j < n%7; j++ {
						cl.elems = append(cl.elems, ds("v", fmt.Sprint(n, ".", j)))
					}
					d := &tdata{t: ds("a", n, "k", []string{"x", "y", ""}[n%3], "o", ds("a", -n), "l", cl), lang: map[string]string{"e": fmt.Sprint("E", n)}}
					tr, obj := d.build(tk, plainImpl)
					want, _ := expect(tk, m, d, tr)
					if got := tk.exec(t, obj); got != want {
						return fmt.Sprintf("execution %d renders %q, expected %q", n, got, want)
					}
					c.Trans(1)
				}
				return ""
			})
			if msg != "" {
				c.Fail(fmt.Sprintf("%s template %q executed again and again", tk.name, text), "%s", msg)
				return
			}
			c.Trace()
		}
		// templates without content
		for i := 0; i < 3; i++ {
			if !c.Case(2, i) {
				continue
			}
			msg := try(func() string {
				t := tk.empty()
				if i > 0 {
					r, _ := tk.from("a&&e&&b@@l:e@@")
					tk.add(r, "e", t)
					t = r
				}
				for _, d := range comboData() {
					_, obj := d.build(tk, plainImpl)
					out := tk.exec(t, obj)
					if !strings.Contains(out, "Error") {
						return fmt.Sprintf("renders %q", out)
					}
				}
				return ""
			})
			if msg != "" {
				c.Fail(tk.name+" empty template", "%s", msg)
				return
			}
			c.Trace()
			c.Trans(5)
		}
	}})
	return jobs
}

// ---- C22: clones

// nodes lists the templates of a tree with their paths.
func tnodes(t *x2.XTemplate, path string, depth int, f func(t *x2.XTemplate, path string)) {
	f(t, path)
	if depth == 0 {
		return
	}
	for _, n := range sortedNames(t) {
		tnodes(t.SubTemplates[n], path+"/"+n, depth-1, f)
	}
}

func sortedNames(t *x2.XTemplate) []string {
	var r []string
	for _, n := range []string{"l", "s", "t", "t.none", "t.x", "u", "v", "x"} {
		if t.SubTemplates[n] != nil {
			r = append(r, n)
		}
	}
	return r
}

var cloneMut = []string{"AddTemplate(s)", "AddTemplate(t)", "AddTemplate(new)", "LoadString", "replace all content", "clone again and change that"}

func mutT(t *x2.XTemplate, m int) {
	nt, _ := x2.NewXTemplateFromString("CHANGED[[s]]CS[[]]")
	switch m {
	case 0:
		t.AddTemplate("s", nt)
	case 1:
		t.AddTemplate("t", nt)
	case 2:
		t.AddTemplate("new", nt)
		t.AddTemplate("u", nt)
	case 3:
		t.LoadString("RELOADED&&s&&[[s]]RS[[]][[t]]RT[[]]")
	case 4:
		if t.Root != nil {
			for i := range *t.Root {
				(*t.Root)[i].Data = "OVERWRITTEN"
			}
		}
		for n := range t.SubTemplates {
			delete(t.SubTemplates, n)
		}
	case 5:
		c := t.Clone()
		c.AddTemplate("s", nt)
		for _, s := range c.SubTemplates {
			s.AddTemplate("t", nt)
		}
	}
}

func cloneTCase(c *fw.Ctx, text string, datas []*tdata, side, pos, mut, via int) (msg string) {
	m := parseT(text, false)
	if m == nil {
		return ""
	}
	t, err := x2.NewXTemplateFromString(text)
	if err != nil {
		return err.Error()
	}
	type run struct {
		obj  x2.XDatasetDef
		want string
		d    *tdata
		tr   *tree
	}
	var runs []run
	for _, d := range datas {
		tr, o := d.build(&tkit2, plainImpl)
		want, ok := expect(&tkit2, m, d, tr)
		if !ok {
			continue
		}
		r := run{want: want, d: d, tr: tr}
		if o != nil {
			r.obj = o.(x2.XDatasetDef)
		}
		runs = append(runs, r)
	}
	check := func(t *x2.XTemplate, who string) string {
		for _, r := range runs {
			if g := t.Execute(r.obj); g != r.want {
				return fmt.Sprintf("the %s renders %q, expected %q", who, g, r.want)
			}
			c.Trans(1)
		}
		return ""
	}
	before := Obs(t)
	src := t
	cl := t.Clone()
	if via == 1 { // clone of a clone
		src = cl
		cl = cl.Clone()
	}
	if Obs(t) != before {
		return "cloning changed the source"
	}
	if m := check(src, "source"); m != "" {
		return m
	}
	if m := check(cl, "clone"); m != "" {
		return m
	}
	// nothing shared, every sub-template resolves inside its own tree
	mine := map[*x2.XTemplate]bool{}
	tnodes(src, "", 4, func(t *x2.XTemplate, _ string) { mine[t] = true })
	bad := ""
	tnodes(cl, "", 4, func(t *x2.XTemplate, p string) {
		if mine[t] {
			bad = "sub-template " + p + " is shared"
		}
		for _, n := range []string{"s", "t", "u"} {
			if g := t.GetTemplate(n); g != nil && mine[g] {
				bad = fmt.Sprintf("sub-template %s of the clone finds %s in the source", p, n)
			}
		}
	})
	if bad != "" {
		return bad
	}
	// each sub-template of either side cloned on its own renders as it does itself
	for _, side := range []*x2.XTemplate{src, cl} {
		tnodes(side, "", 4, func(t *x2.XTemplate, p string) {
			mn := m
			for _, n := range strings.Split(p, "/")[1:] {
				mn = mn.subs[n]
			}
			for _, r := range runs {
				if _, ok := expect(&tkit2, mn, r.d, r.tr); !ok {
					continue
				}
				own := t.Clone()
				if g, w := own.Execute(r.obj), t.Execute(r.obj); g != w {
					bad = fmt.Sprintf("the clone of sub-template %s renders %q, itself %q", p, g, w)
				}
				for _, n := range []string{"s", "t", "u", "x"} {
					if (own.GetTemplate(n) == nil) != (t.GetTemplate(n) == nil) {
						bad = fmt.Sprintf("the clone of sub-template %s and itself differ in finding %s", p, n)
					}
				}
				c.Trans(2)
			}
		})
	}
	if bad != "" {
		return bad
	}
	if Obs(t) != before {
		return "cloning sub-templates changed the source"
	}
	var targets []*x2.XTemplate
	target, other, who := src, cl, "clone"
	if side == 1 {
		target, other, who = cl, src, "source"
	}
	tnodes(target, "", 4, func(t *x2.XTemplate, _ string) { targets = append(targets, t) })
	if pos >= len(targets) {
		return ""
	}
	mutT(targets[pos], mut)
	if m := check(other, who+" after changing the other"); m != "" {
		return m
	}
	c.Trace()
	c.State(fmt.Sprint(text, side, pos, mut, via))
	return ""
}

func cloneTJobs(tier string) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	d := []*tdata{{t: ds("a", "A", "k", "x", "v", "V", "o", ds("a", "OA"), "l", col(ds("v", 1), ds("v", 2))), lang: map[string]string{"e": "E"}}}
	run := func(c *fw.Ctx, id []int, text string) bool {
		for side := 0; side < 2; side++ {
			for pos := 0; pos < 5; pos++ {
				for mut := range cloneMut {
					for via := 0; via < 2; via++ {
						if c.Stop() {
							return false
						}
						if !c.Case(append([]int{side, pos, mut, via}, id...)...) {
							continue
						}
						if m := try(func() string { return cloneTCase(c, text, d, side, pos, mut, via) }); m != "" {
							c.Fail(fmt.Sprintf("template %q, %s at sub-template %d of side %d, via %d", text, cloneMut[mut], pos, side, via), "%s", m)
							return false
						}
					}
				}
			}
		}
		return true
	}
	const P = 16
	for p := 0; p < P; p++ {
		p := p
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("clones of scopes part %d", p), Run: func(c *fw.Ctx) {
			for n := 1; n <= 3; n++ {
				k := 0
				if n == 3 && q {
					if !forests(3, []string{"s", "t"}, []string{"", "(&&s&&)", "(&&t&&)"}, func(id []int, s string) bool {
						k++
						return k%P != p || run(c, id, s)
					}) {
						return
					}
					continue
				}
				if !forests(n, []string{"s", "t", "s|t"}, []string{"", "(&&s&&)", "(&&t&&)"}, func(id []int, s string) bool {
					k++
					if k%P != p {
						return true
					}
					return run(c, id, s)
				}) {
					return
				}
			}
		}})
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("clones of combinations %s", combo[p]), Run: func(c *fw.Ctx) {
			for e2 := range combo {
				for e3 := range combo {
					if q && (e2+e3+p)%2 != 0 {
						continue
					}
					e := []int{p, (e2 + e3) % len(combo), e2, e3}
					if !run(c, e, comboText(e)) {
						return
					}
				}
			}
		}})
	}
	jobs = append(jobs, fw.Job{Name: "clones of three levels", Run: func(c *fw.Ctx) {
		for i, s := range []string{
			"R&&s&&[[s]]S&&t&&[[t]]T&&u&&[[u]]U&&x&&[[]][[]][[]][[x]]X[[]]",
			"R@@l:s@@[[s]]S{{.counter}}&&t&&[[t]]T&&u&&[[]][[]][[u]]U&&x&&[[]][[x]]X{{v}}[[]]",
			"R&&s&&&&t&&[[s|t]]S&&x&&[[x]]X&&u&&[[]][[]][[u]]U[[]]",
			"R&&s&&(&&t&&)[[s]][[]][[t]]T[[]]", "R&&s&&&&t&&[[s]][[]][[t]][[]]", "[[s]][[t]][[]][[]]R&&s&&", "R&&s&&[[s]]%-- c --%[[]][[t]]\n[[]]", "R&&s&&[[s|t]][[]]&&t&&", "R@@l:s@@[[s]]&&t&&[[t]][[]][[]]",
			"", "plain", "%-- c --%{{a}}##e##??k:t??[[t]]T[[]][[t.x]]TX&&u&&[[]][[u]]U[[]]!!dump!!",
		} {
			if !run(c, []int{i}, s) {
				return
			}
		}
	}})
	return append(jobs, bigTCloneJobs(d)...)
}

// ---- C23: concurrent execution

type tworld struct {
	t     *x2.XTemplate
	d     []x2.XDatasetDef // shared data
	mk    func() x2.XDatasetDef
	plain string
}

type fixedModel []string

func (m fixedModel) Apply(op int) string { return m[op] }
func (m fixedModel) Clone() Model        { return m }

func concTemplates() []string {
	return []string{
		"{{a}}{{o>a}}##e##&&s&&[[s]]S{{v}}##e##[[]]",
		"@@l:s@@{{.counter}}[[s]]{{.counter}}{{v}}@@l:t@@[[]][[t]]{{v}}[[]][[t.none]]N[[]]",
		"??k:t????no:t??[[t]]T&&u&&[[u]]U&&x&&[[]][[]][[t.x]]TX{{a}}&&y&&[[y]]Y&&x&&[[]][[]][[t.none]]N[[]][[x]]X##e##[[]]",
		"&&:k:p&&&&t:o&&[[px]]PX&&t&&[[]][[t|u]]T{{a}}&&w&&[[]][[w]]W{{v}}[[]]",
		"!!dump!!{{l>1>v}}{{o}}{{l}}%-- c --%",
		"&&s&&[[s]]S&&t&&[[t]]T&&u&&[[u]]U&&x&&[[]][[]][[]][[x]]X@@l:s2@@[[]][[s2]]{{v}}[[]]",
		"{{a}}", "", "x", "##e##", "@@l@@", "&&s&&[[s]][[]]", "%-- c --%", "??k??[[k]]K[[]]", "{{o>a}}", "@@l@@[[l]]{{v}}[[]]",
		// large ones
		strings.Repeat("{{a}}x##e##", 60), "@@big@@[[big]]{{v}},[[]]", "@@big@@[[big]]{{.counter}}[[]][[big.even]]e{{v}}[[]][[big.last]]l[[]]", bigSubs(70),
	}
}

// bigSubs: a text of n sub-templates, all shown.
func bigSubs(n int) string {
	var a, b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&a, "&&s%d&&", i)
		fmt.Fprintf(&b, "[[s%d]]%d{{v}}[[]]", i, i)
	}
	return a.String() + b.String()
}

func concTJobs(tier string) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	full := func() *tdata {
		return &tdata{t: ds("a", "A", "k", "x", "v", "V", "o", ds("a", "OA"), "l", col(ds("v", 1, "l", col(ds("v", 11), ds("v", 12))), ds("v", 2))), lang: map[string]string{"e": "E"}}
	}
	ops := []string{"Execute(own data)", "Execute(shared plain data)", "Execute(shared thread-safe data)", "Clone and execute", "Execute(nil)", "GetTemplate and execute", "String()"}
	for ti, text := range concTemplates() {
		ti, text := ti, text
		m := parseT(text, false)
		want := make(fixedModel, len(ops))
		big := len(text) > 400 || strings.Contains(text, "big")
		full := func() *tdata {
			d := full()
			if strings.Contains(text, "big") {
				l := col()
				for i := 0; i < 70; i++ {
					l.elems = append(l.elems, ds("v", i))
				}
				d.t.kids["big"] = l
			}
			return d
		}
		d := full()
		for i, impl := range []func() int{plainImpl, plainImpl, tsImpl} {
			tr, _ := d.build(&tkit2, impl)
			want[i], _ = expect(&tkit2, m, d, tr)
		}
		want[3] = want[1]
		want[4], _ = expect(&tkit2, m, &tdata{}, nil)
		sub := ""
		for _, n := range []string{"s", "t"} {
			if m.subs[n] != nil {
				sub = n
				break
			}
		}
		if sub != "" {
			tr, _ := d.build(&tkit2, plainImpl)
			want[5], _ = expect(&tkit2, m.subs[sub], d, tr)
		}
		sp := &Spec{Ops: ops,
			New: func() interface{} {
				w := &tworld{}
				t, err := x2.NewXTemplateFromString(text)
				if err != nil {
					panic(err)
				}
				w.t = t
				for _, impl := range []func() int{plainImpl, tsImpl} {
					_, o := full().build(&tkit2, impl)
					w.d = append(w.d, o.(x2.XDatasetDef))
				}
				w.plain = t.String()
				return w
			},
			Do: func(s interface{}, op int) string {
				w := s.(*tworld)
				switch op {
				case 0:
					_, o := full().build(&tkit2, plainImpl)
					return w.t.Execute(o.(x2.XDatasetDef))
				case 1:
					return w.t.Execute(w.d[0])
				case 2:
					return w.t.Execute(w.d[1])
				case 3:
					return w.t.Clone().Execute(w.d[0])
				case 4:
					return w.t.Execute(nil)
				case 5:
					if sub == "" {
						return ""
					}
					return w.t.GetTemplate(sub).Execute(w.d[0])
				}
				if w.t.String() != w.plain {
					return w.t.String()
				}
				return ""
			},
			NewModel: func() Model { return want },
			Epilogue: []int{1, 2, 3, 5, 6},
		}
		for i := range ops {
			for j := i; j < len(ops); j++ {
				i, j := i, j
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("template %d: %s with %s", ti, ops[i], ops[j]), Run: func(c *fw.Ctx) {
					if big {
						Explore(c, sp, nil, [][]int{{i}, {j}}, sel(q, 1, 2))
						return
					}
					Explore(c, sp, nil, [][]int{{i}, {j}}, sel(q, 3, 4))
					for k := j; k < len(ops); k++ {
						if c.Stop() {
							return
						}
						Explore(c, sp, nil, [][]int{{i}, {j}, {k}}, sel(q, 1, 2))
					}
				}})
			}
		}
	}
	return jobs
}

func init() {
	b := func(s string) func(string) string { return func(string) string { return s } }
	pb := "all texts of up to 4 (thorough 5) of 24 pieces; all texts of 6 (thorough 7) pieces of six families of 8-9 pieces; every byte as a character; sizes to 200000 bytes and 20001 tags; files and refused loads for all texts of 2 (thorough 3) pieces"
	rb := "all subsets of loop, condition and reference sub-templates x forms x data; all 65536 combinations of 16 elements in 4 places of a template with sub-templates x 5 data; nested loops up to 3x3x2; 100 values; loops of every length to 40 (thorough 260) and around powers of two to 2049; data 40 (thorough 120) and 63 to 70 levels deep; template texts as values; inner language tables, names that are fields here and language entries there; dumps of the data at all levels; all choices of one outer and two inner definitions of the same names with 8 variants each x 5 references; all sequences of 3 (thorough 4) of 12 changes of the data in place, rendered after each"
	sb := "all forests of up to 4 (thorough 5) definitions x names {s, t, s|t} x references; variants through scopes up to 3 definitions; definitions of 2 to 40 names; scopes up to 101 deep; all programs of 4 (thorough 5) of 21 additions, moves and shared additions; templates added by program before they are loaded, and loaded later"
	eb := "combinations of 16 elements in 4 places (quick: 4096 of them) x 22 data x {plain, thread-safe}; loops and conditions with all subsets of variants; empty templates; 300 (thorough 3000) renderings in a row; all sequences of 3 (thorough 4) of 12 changes of the data in place, rendered after each"
	fw.Register(&fw.Prop{ID: "C18", Jobs: func(t string) []fw.Job { return parseJobs(t, &tkit2) }, Bounds: b(pb), Assumptions: []string{"templates that recurse without end are skipped"}})
	fw.Register(&fw.Prop{ID: "C19", Jobs: func(t string) []fw.Job { return renderJobs(t, &tkit2) }, Bounds: b(rb), Assumptions: []string{"templates that recurse without end are skipped", "nested data shown as a field is compared with its own printed form"}})
	fw.Register(&fw.Prop{ID: "C20", Jobs: func(t string) []fw.Job { return scopeJobs(t, &tkit2) }, Bounds: b(sb), Assumptions: []string{"templates that recurse without end are skipped"}})
	fw.Register(&fw.Prop{ID: "C21", Jobs: func(t string) []fw.Job { return effectJobs(t, &tkit2) }, Bounds: b(eb), Assumptions: []string{"templates that recurse without end are skipped", "collections without nil elements"}})
	fw.Register(&fw.Prop{ID: "C22", Jobs: cloneTJobs, Bounds: b("forests of up to 2 (thorough 3) definitions and a quarter of (thorough all) 4096 combinations x {clone, clone of clone} x side x sub-template x 6 changes; empty sub-templates; 36 templates of up to 65 levels, 260 sub-templates or 1040 elements, everything on one side changed at once")})
	fw.Register(&fw.Prop{ID: "C23", Jobs: concTJobs, Bounds: b("16 templates x all pairs (3 preemptions, thorough 4) and triples (1, thorough 2) of 7 operations; 4 large templates x pairs with 1 (thorough 2) preemptions"), Assumptions: schedAssume[:2]})
	fw.Register(&fw.Prop{ID: "C28", Jobs: func(t string) []fw.Job {
		k := &tkit1
		j := parseJobs(t, k)
		j = append(j, renderJobs(t, k)...)
		j = append(j, scopeJobs(t, k)...)
		return append(j, effectJobs(t, k)...)
	}, Bounds: b("as C18 to C21 on the version 1 package with its rules")})
}
