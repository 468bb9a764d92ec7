package h

import (
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"

	"xcoremc/fw"
	"xcoremc/rt"
)

// langI is the part of a language table common to both versions.
type langI interface {
	LoadXMLString(string) error
	LoadXMLFile(string) error
	LoadString(string) error
	LoadFile(string) error
	SetName(string)
	GetName() string
	SetLanguage(language.Tag)
	GetLanguage() language.Tag
	Set(string, string)
	Get(string) string
	Del(string)
	String() string
	GoString() string
}

type langKit struct {
	name     string
	v2       bool
	mk       func(name string, tag language.Tag) langI
	fromStr  func(s string) (langI, error)
	fromFile func(s string) (langI, error)
	fromXML  func(s string) (langI, error)
	fromXMLF func(s string) (langI, error)
	entries  func(l langI) map[string]string
}

func l2(l *x2.XLanguage, err error) (langI, error) {
	if l == nil {
		return nil, err
	}
	return l, err
}

func l1(l *x1.XLanguage, err error) (langI, error) {
	if l == nil {
		return nil, err
	}
	return l, err
}

var langKit2 = langKit{"v2", true,
	func(n string, t language.Tag) langI { return x2.NewXLanguage(n, t) },
	func(s string) (langI, error) { return l2(x2.NewXLanguageFromString(s)) },
	func(s string) (langI, error) { return l2(x2.NewXLanguageFromFile(s)) },
	func(s string) (langI, error) { return l2(x2.NewXLanguageFromXMLString(s)) },
	func(s string) (langI, error) { return l2(x2.NewXLanguageFromXMLFile(s)) },
	func(l langI) map[string]string { return l.(*x2.XLanguage).GetEntries() },
}

var langKit1 = langKit{"v1", false,
	func(n string, t language.Tag) langI { return x1.NewXLanguage(n, t) },
	func(s string) (langI, error) { return l1(x1.NewXLanguageFromString(s)) },
	func(s string) (langI, error) { return l1(x1.NewXLanguageFromFile(s)) },
	func(s string) (langI, error) { return l1(x1.NewXLanguageFromXMLString(s)) },
	func(s string) (langI, error) { return l1(x1.NewXLanguageFromXMLFile(s)) },
	func(l langI) map[string]string {
		m := map[string]string{}
		for k, v := range l.(*x1.XLanguage).Entries {
			m[k] = v
		}
		return m
	},
}

// readLines is the reference reader of text tables.
func readLines(text string) map[string]string {
	m := map[string]string{}
	for len(text) > 0 {
		line := text
		if i := strings.IndexByte(text, '\n'); i >= 0 {
			line, text = text[:i], text[i+1:]
		} else {
			text = ""
		}
		eq := strings.IndexByte(line, '=')
		if eq < 0 || line[0] == '#' || line[0] == ';' {
			continue
		}
		k := strings.TrimSpace(line[:eq])
		if k != "" {
			m[k] = strings.TrimSpace(line[eq+1:])
		}
	}
	return m
}

func mapEq(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

var langAlpha = []string{"a", "b", "=", "#", ";", " ", "\t", "\n", "\r\n", "é"}

// rarer characters: other white space, a byte order mark, quotes, escapes, invalid and zero bytes
var langRare = []string{"a", "=", "\n", "\r", "\u0085", "\u00a0", "\u2028", "\v", "\x00", "\xff", "\ufeff", "\"", "\\", "%s", ":", "//", "'"}

// pieces that mean something elsewhere: escapes, variables, entities, markup, sections, continuations
var langOdd = []string{"\\n", "\\t", "\\\\", "\\u0041", "$HOME", "${HOME}", "$a", "%41", "%d", "%%", "&amp;", "&#65;", "<b>", "<!--", "{{a}}", "##a##", "[a]", "]]", "export ", "A", "0", "null", "true", "`", "+", "\\", "\\\n", "!", "@", ",", "|", "~", "*", "#", ";", "=", "==", ":=", "=>", "\"a\"", "'a'", "a.b", "é", "e\u0301", "İ", "ß", "\U0001F600"}

// texts enumerates all strings of n tokens starting with the given one.
func texts(alpha []string, first []int, n int, f func(id []int, s string) bool) {
	h := make([]int, n)
	copy(h, first)
	for {
		var b strings.Builder
		for _, i := range h {
			b.WriteString(alpha[i])
		}
		if !f(h, b.String()) {
			return
		}
		i := n - 1
		for i >= len(first) {
			h[i]++
			if h[i] < len(alpha) {
				break
			}
			h[i] = 0
			i--
		}
		if i < len(first) {
			return
		}
	}
}

func textCase(k *langKit, s, file string) string {
	want := readLines(s)
	l, err := k.fromStr(s)
	if err != nil || l == nil {
		return fmt.Sprintf("not loaded: %v", err)
	}
	if g := k.entries(l); !mapEq(g, want) {
		return fmt.Sprintf("entries %q, expected %q", g, want)
	}
	// into a filled table
	l = k.mk("n", language.French)
	l.Set("a", "old")
	l.Set("z", "keep")
	if k.v2 {
		l.(*x2.XLanguage).SetStatus("z", "st")
	}
	if err := l.LoadString(s); err != nil {
		return fmt.Sprintf("not loaded: %v", err)
	}
	merged := map[string]string{"a": "old", "z": "keep"}
	for kk, v := range want {
		merged[kk] = v
	}
	if g := k.entries(l); !mapEq(g, merged) {
		return fmt.Sprintf("loaded into {a:old z:keep}: %q, expected %q", g, merged)
	}
	for kk, v := range merged {
		if l.Get(kk) != v {
			return fmt.Sprintf("Get(%q) gives %q, expected %q", kk, l.Get(kk), v)
		}
	}
	if l.GetName() != "n" || l.GetLanguage() != language.French {
		return "name or language changed"
	}
	if k.v2 && l.(*x2.XLanguage).GetStatus("z") != "st" {
		return "status of another entry changed"
	}
	if file == "" {
		return ""
	}
	if err := os.WriteFile(file, []byte(s), 0600); err != nil {
		panic("scratch file: " + err.Error())
	}
	f, err := k.fromFile(file)
	if err != nil || f == nil {
		return fmt.Sprintf("file not loaded: %v", err)
	}
	if g := k.entries(f); !mapEq(g, want) {
		return fmt.Sprintf("from a file: entries %q, expected %q", g, want)
	}
	l2 := k.mk("n", language.French)
	l2.Set("a", "old")
	l2.Set("z", "keep")
	if err := l2.LoadFile(file); err != nil || !mapEq(k.entries(l2), merged) {
		return fmt.Sprintf("file loaded into {a:old z:keep}: %q %v, expected %q", k.entries(l2), err, merged)
	}
	return ""
}

func scratch() (string, func()) {
	d, err := os.MkdirTemp(os.Getenv("MC_WORK"), "scratch")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func try(f func() string) (m string) {
	if p := fw.Try(func() { m = f() }); p != "" {
		return p
	}
	return m
}

func textJobs(tier string, k *langKit) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	run := func(c *fw.Ctx, h []int, s, file string) bool {
		if c.Stop() {
			return false
		}
		if !c.Case(h...) {
			return true
		}
		if m := try(func() string { return textCase(k, s, file) }); m != "" {
			c.Fail(fmt.Sprintf("%s text %q", k.name, s), "%s", m)
			return false
		}
		c.Trace()
		c.Trans(2)
		c.State(s)
		c.Outcome(fmt.Sprint(readLines(s)))
		c.Sample(func() string { return fmt.Sprintf("%q", s) })
		return true
	}
	for f := range langAlpha {
		f := f
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s texts starting with %q", k.name, langAlpha[f]), Run: func(c *fw.Ctx) {
			for n := 1; n <= sel(q, 6, 7); n++ {
				texts(langAlpha, []int{f}, n, func(h []int, s string) bool { return run(c, h, s, "") })
			}
		}})
		// whole lines: longer texts over meaningful pieces
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s files starting with %q", k.name, langAlpha[f]), Run: func(c *fw.Ctx) {
			d, rm := scratch()
			defer rm()
			for n := 1; n <= sel(q, 3, 4); n++ {
				texts(langAlpha, []int{f}, n, func(h []int, s string) bool { return run(c, append([]int{9}, h...), s, filepath.Join(d, "t")) })
			}
		}})
	}
	for f := range langRare {
		f := f
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s rare texts starting with %q", k.name, langRare[f]), Run: func(c *fw.Ctx) {
			for n := 1; n <= sel(q, 4, 5); n++ {
				texts(langRare, []int{f}, n, func(h []int, s string) bool { return run(c, h, s, "") })
			}
			texts(langRare, []int{f}, 2, func(h []int, s string) bool {
				return run(c, append([]int{1}, h...), s+"k"+s+"="+s+"v"+s+"\nb"+s+"=1", "") &&
					run(c, append([]int{2}, h...), "a=1\n#"+s+"=2\n"+s+"#=3\n"+s+"\n;"+s+"=4", "")
			})
		}})
	}
	for f := range langOdd {
		f := f
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s odd pieces with %q", k.name, langOdd[f]), Run: func(c *fw.Ctx) {
			for g, y := range langOdd {
				x := langOdd[f]
				for w := 0; w < 9; w++ {
					t := []string{"k=v " + x + " w " + y + " z", "k " + x + " l " + y + " m=v", " " + x + " a = " + y + "\n" + y + " \n = " + x, "k=" + x + y, "k=v" + x + "w" + y + "z", x + y + "=v", "k" + x + "l" + y + "=v\nk=2", x + "=" + y, "a=1\n" + x + "\n" + y + "\nb=" + x + " " + y + "\nc=3\n#" + x + "=" + y}[w]
					if !run(c, []int{g, w}, t, "") {
						return
					}
				}
			}
		}})
	}
	for part := 0; part < 8; part++ {
		part := part
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s bytes %d", k.name, part), Run: func(c *fw.Ctx) {
			for x := part; x < 256; x += 8 {
				for y := 0; y < 256; y++ {
					b := string([]byte{byte(x), byte(y)})
					for w := 0; w < 3; w++ {
						t := []string{"k=v" + b + "w", "k" + b + "l=v", b + "k=v" + b + "\nb=2"}[w]
						if !run(c, []int{x, y, w}, t, "") {
							return
						}
					}
				}
			}
		}})
	}
	lines := []string{"a=1\n", "b = 2 \r\n", "a=3", "\n", "#a=4\n", ";b=5\n", " #c=6\n", "=7\n", "a b=8=9\n", "c\n", "  \n", "\tc=\n"}
	for f := range lines {
		f := f
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s lines starting with %q", k.name, lines[f]), Run: func(c *fw.Ctx) {
			for n := 1; n <= sel(q, 4, 5); n++ {
				texts(lines, []int{f}, n, func(h []int, s string) bool { return run(c, h, s, "") })
			}
		}})
	}
	jobs = append(jobs, fw.Job{Name: k.name + " sizes and unreadable files", Run: func(c *fw.Ctx) {
		d, rm := scratch()
		defer rm()
		for i, s := range []string{"", "\n", "\r\n", " ", "\n\n\n", "x", "#", "=", "\ufeffa=1\n", "\ufeff", "a=1\x00", "a=1\n\x1ab=2"} {
			if !run(c, []int{200 + i}, s, "") || !run(c, []int{300 + i}, s, filepath.Join(d, "t")) {
				return
			}
		}
		for i, n := range []int{1000, 4095, 4096, 4097, 65535, 65536, 65537, 200000} {
			if !run(c, []int{i}, "a="+strings.Repeat("x", n)+"\nb=2\r\n"+strings.Repeat("y", n)+"=3", "") {
				return
			}
			var b strings.Builder
			for j := 0; j < n/40; j++ {
				fmt.Fprintf(&b, "k%d=v%d\n", j, j)
			}
			if !run(c, []int{i, 1}, b.String(), "") {
				return
			}
		}
		// many lines, some names again
		for _, n := range []int{2, 50, 100, 128, 201, 256, 300, 1000, 1025, 3000, 12000, 70000} {
			for every := 1; every <= 4; every++ {
				var b strings.Builder
				for j := 0; j < n; j++ {
					fmt.Fprintf(&b, "k%d=v%d\n", j, j)
				}
				for j := n - 1; j >= 0; j -= every {
					fmt.Fprintf(&b, "k%d=w%d\n", j, j)
				}
				if !run(c, []int{400 + n, every}, b.String(), "") {
					return
				}
			}
		}
		unreadable(c, k, false)
	}})
	return jobs
}

// unreadable: files that cannot be read give an error, no table, no change.
func unreadable(c *fw.Ctx, k *langKit, asXML bool) {
	d, rm := scratch()
	defer rm()
	for i, f := range []string{filepath.Join(d, "absent"), d, filepath.Join(d, "no", "dir"), ""} {
		if !c.Case(100 + i) {
			continue
		}
		m := try(func() string {
			from := k.fromFile
			if asXML {
				from = k.fromXMLF
			}
			l, err := from(f)
			if err == nil || l != nil {
				return fmt.Sprintf("reading %q gives table %v and error %v", f, l, err)
			}
			l = k.mk("n", language.French)
			l.Set("a", "1")
			before := Obs(l)
			if asXML {
				err = l.LoadXMLFile(f)
			} else {
				err = l.LoadFile(f)
			}
			if err == nil || Obs(l) != before {
				return fmt.Sprintf("loading %q: error %v, table %v", f, err, l)
			}
			return ""
		})
		if m != "" {
			c.Fail(fmt.Sprintf("%s unreadable file %d", k.name, i), "%s", m)
			return
		}
		c.Trace()
		c.Trans(2)
	}
}

// ---- C15: XML

var xmlTokens = []string{"", "a", "<", ">", "&", "\"", "'", "]]>", "]]", "]", "\n", "\r", "\r\n", "\t", " ", "é", "&amp;", "<![CDATA[", "<!--", "=", "\U0001F600", "\u0085", "\u2028", "-->", "&#xD;", "]>", "%s", "\\", "\ufeff"}

var xmlTags = []language.Tag{language.English, language.French, language.Und, language.MustParse("es-MX"), language.MustParse("zh-Hant-TW"), language.MustParse("de-CH-1901"), language.MustParse("sr-Latn"), language.MustParse("en-u-co-phonebk"), language.MustParse("x-private")}

type xent struct{ id, val, st string }

func roundTrip(name string, tag language.Tag, ents []xent, file string) string {
	l := x2.NewXLanguage(name, tag)
	want := map[string]xent{}
	for _, e := range ents {
		l.Set(e.id, e.val)
		l.SetStatus(e.id, e.st)
		want[e.id] = e
	}
	before := Obs(l)
	doc := l.GetXML()
	if Obs(l) != before {
		return "exporting changed the table"
	}
	same := func(n *x2.XLanguage, from string) string {
		if n.GetName() != name || n.GetLanguage() != tag {
			return fmt.Sprintf("%s: name %q language %v", from, n.GetName(), n.GetLanguage())
		}
		g := n.GetEntries()
		if len(g) != len(want) {
			return fmt.Sprintf("%s: entries %q", from, g)
		}
		for id, e := range want {
			v, ok := g[id]
			if !ok || v != e.val || n.Get(id) != e.val || n.GetStatus(id) != e.st {
				return fmt.Sprintf("%s: entry %q is %q (%v) with status %q, expected %q with status %q", from, id, v, ok, n.GetStatus(id), e.val, e.st)
			}
		}
		return ""
	}
	n, err := x2.NewXLanguageFromXMLString(doc)
	if err != nil || n == nil {
		return fmt.Sprintf("own XML not loaded: %v\n%s", err, doc)
	}
	if m := same(n, doc); m != "" {
		return m
	}
	if file != "" {
		if err := os.WriteFile(file, []byte(doc), 0600); err != nil {
			panic(err)
		}
		n, err := x2.NewXLanguageFromXMLFile(file)
		if err != nil || n == nil {
			return fmt.Sprintf("own XML not loaded from a file: %v", err)
		}
		if m := same(n, "from a file: "+doc); m != "" {
			return m
		}
	}
	return ""
}

func roundJobs(tier string) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	add := func(c *fw.Ctx, id []int, name string, tag language.Tag, ents []xent, file string) bool {
		if c.Stop() {
			return false
		}
		if !c.Case(id...) {
			return true
		}
		if m := try(func() string { return roundTrip(name, tag, ents, file) }); m != "" {
			c.Fail(fmt.Sprintf("table %q %v %q", name, tag, ents), "%s", m)
			return false
		}
		c.Trace()
		c.Trans(2)
		c.State(fmt.Sprint(name, tag, ents))
		c.Sample(func() string { return fmt.Sprintf("%q %v %q", name, tag, ents) })
		return true
	}
	for f := range xmlTokens {
		f := f
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("round trip %q", xmlTokens[f]), Run: func(c *fw.Ctx) {
			d, rm := scratch()
			defer rm()
			texts(xmlTokens, []int{f}, sel(q, 3, 4), func(h []int, s string) bool {
				return add(c, append([]int{0}, h...), "n", language.English, []xent{{"k", s, "st"}}, "")
			})
			texts(xmlTokens, []int{f}, 2, func(h []int, s string) bool {
				return add(c, append([]int{1}, h...), "n", language.English, []xent{{s, "v", ""}, {"k", "w", "u"}}, "") &&
					add(c, append([]int{2}, h...), "n", language.English, []xent{{"k", "v", s}}, filepath.Join(d, "x")) &&
					add(c, append([]int{3}, h...), s, xmlTags[(h[0]+h[1])%len(xmlTags)], []xent{{"k", s, "p"}, {s, s, s}}, "")
			})
			for ti, t := range xmlTags {
				for n := 0; n <= 4; n++ {
					var e []xent
					for i := 0; i < n; i++ {
						e = append(e, xent{xmlTokens[(f+i*5)%len(xmlTokens)], xmlTokens[(f+i*3+1)%len(xmlTokens)], xmlTokens[(f*2+i)%len(xmlTokens)]})
					}
					if !add(c, []int{4, ti, n}, "n", t, e, "") {
						return
					}
				}
			}
		}})
	}
	jobs = append(jobs, fw.Job{Name: "round trip with statuses of names that have no text", Run: func(c *fw.Ctx) {
		names := []string{"a", "b", "c"}
		for mask := 0; mask < 1<<9; mask++ { // per name: text, status, removed at the end
			if !c.Case(mask) {
				continue
			}
			m := try(func() string {
				l := x2.NewXLanguage("n", language.French)
				want := map[string]xent{}
				for i, n := range names {
					var e xent
					if mask>>(3*i)&1 != 0 {
						l.Set(n, "text "+n)
						e.val = "text " + n
					}
					if mask>>(3*i)&2 != 0 {
						l.SetStatus(n, "status "+n)
						e.st = "status " + n
					}
					if mask>>(3*i)&4 != 0 {
						l.Del(n)
					} else if e.val != "" {
						want[n] = e
					}
				}
				x, err := x2.NewXLanguageFromXMLString(l.GetXML())
				if err != nil {
					return err.Error()
				}
				for _, t := range []*x2.XLanguage{l, x} {
					g := t.GetEntries()
					for n, e := range want {
						if g[n] != e.val || t.Get(n) != e.val || t.GetStatus(n) != e.st {
							return fmt.Sprintf("entry %s is %q with status %q, expected %q with %q", n, g[n], t.GetStatus(n), e.val, e.st)
						}
					}
					if len(g) != len(want) {
						return fmt.Sprintf("entries %q, expected %q", g, want)
					}
				}
				return ""
			})
			if m != "" {
				c.Fail(fmt.Sprintf("names a, b, c: text 1, status 2, removed 4: %o", mask), "%s", m)
				return
			}
			c.Trace()
			c.Trans(2)
			c.State(fmt.Sprint(mask))
		}
	}})
	jobs = append(jobs, fw.Job{Name: "round trip of big tables", Run: func(c *fw.Ctx) {
		d, rm := scratch()
		defer rm()
		for _, n := range []int{5, 10, 20, 40, 80, 101, 160, 257, 320, 640, 1001, 1280, 2560, 5120}[:sel(q, 12, 14)] {
			var e []xent
			for i := 0; i < n; i++ {
				e = append(e, xent{fmt.Sprintf("k%d%s", i, xmlTokens[i%len(xmlTokens)]), strings.Repeat(xmlTokens[i%7], i) + xmlTokens[(i+3)%len(xmlTokens)], xmlTokens[i%5]})
			}
			if !add(c, []int{n}, "big", xmlTags[n%len(xmlTags)], e, filepath.Join(d, "x")) {
				return
			}
		}
		for i, t := range xmlTokens {
			for n := 10; n <= 100000; n *= 10 {
				if n > 10000 && i%5 != 0 {
					continue
				}
				v := strings.Repeat(t, n)
				if !add(c, []int{i, n}, "long", language.English, []xent{{"k", v, "s"}, {"l", "x" + v, v}}, "") {
					return
				}
			}
		}
	}})
	return jobs
}

// entity writes the characters with a meaning as entities.
func entity(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&#62;", "\"", "&quot;", "'", "&#x27;", "é", "&#233;").Replace(s)
}

// xmlDoc writes a document from known entries, in several styles.
func xmlDoc(name, lang string, ents []xent, style int) string {
	var b strings.Builder
	if style&1 == 0 {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n")
	}
	if style&2 == 0 {
		fmt.Fprintf(&b, "<language id=\"%s\" lang=\"%s\">\n", name, lang)
	} else {
		fmt.Fprintf(&b, "<language lang='%s' other=\"x\" id='%s'><!-- <entry id=\"no\">no</entry> -->", lang, name)
	}
	for _, e := range ents {
		st := ""
		if e.st != "" {
			st = " status=\"" + entity(e.st) + "\""
		}
		plain := e.val
		e.id, e.val = entity(e.id), entity(e.val)
		switch {
		case style&4 == 0:
			fmt.Fprintf(&b, "  <entry id=\"%s\"%s>%s</entry>\n", e.id, st, e.val)
		case style&8 == 0:
			fmt.Fprintf(&b, "<entry%s id=\"%s\"><![CDATA[%s]]></entry>", st, e.id, plain)
		default:
			fmt.Fprintf(&b, "<other>z</other><entry a=\"b\"%s id=\"%s\">%s<![CDATA[]]><!-- c --></entry>", st, e.id, e.val)
		}
	}
	b.WriteString("</language>")
	return b.String()
}

func xmlLoadCase(k *langKit, name, lang string, ents []xent, style, file int, dir string) string {
	doc := xmlDoc(name, lang, ents, style)
	tag, bad := language.Parse(lang)
	want := map[string]string{}
	st := map[string]string{}
	for _, e := range ents {
		want[e.id] = e.val
		st[e.id] = e.st
	}
	path := filepath.Join(dir, "d.xml")
	if file == 1 {
		if err := os.WriteFile(path, []byte(doc), 0600); err != nil {
			panic(err)
		}
	}
	var l langI
	var err error
	if file == 1 {
		l, err = k.fromXMLF(path)
	} else {
		l, err = k.fromXML(doc)
	}
	if err != nil || l == nil {
		return fmt.Sprintf("not loaded: %v\n%s", err, doc)
	}
	chk := func(l langI, want map[string]string) string {
		if g := k.entries(l); !mapEq(g, want) {
			return fmt.Sprintf("entries %q, expected %q from %s", g, want, doc)
		}
		if l.GetName() != name || (bad == nil || lang == "") && l.GetLanguage() != tag {
			return fmt.Sprintf("name %q language %v from %s", l.GetName(), l.GetLanguage(), doc)
		}
		for kk, v := range want {
			if l.Get(kk) != v {
				return fmt.Sprintf("Get(%q)=%q", kk, l.Get(kk))
			}
		}
		if k.v2 {
			for kk, v := range st {
				if g := l.(*x2.XLanguage).GetStatus(kk); g != v {
					return fmt.Sprintf("status of %q is %q, expected %q from %s", kk, g, v, doc)
				}
			}
		}
		return ""
	}
	if m := chk(l, want); m != "" {
		return m
	}
	// into a filled table
	l = k.mk("before", language.French)
	l.Set("a", "old")
	l.Set("z", "keep")
	for i, e := range ents { // some entries are there already, the same but for the status
		if i&1 == 1 && e.id != "a" {
			l.Set(e.id, want[e.id])
			if k.v2 {
				l.(*x2.XLanguage).SetStatus(e.id, "was")
			}
		}
	}
	if k.v2 {
		l.(*x2.XLanguage).SetStatus("a", "oldst")
		l.(*x2.XLanguage).SetStatus("z", "keepst")
		if _, ok := st["a"]; !ok {
			st["a"] = "oldst"
		}
		st["z"] = "keepst"
	}
	merged := map[string]string{"a": "old", "z": "keep"}
	for kk, v := range want {
		merged[kk] = v
	}
	if file == 1 {
		err = l.LoadXMLFile(path)
	} else {
		err = l.LoadXMLString(doc)
	}
	if err != nil {
		return fmt.Sprintf("not loaded: %v", err)
	}
	return chk(l, merged)
}

func badXML(k *langKit, doc, dir string) string {
	path := filepath.Join(dir, "bad.xml")
	if err := os.WriteFile(path, []byte(doc), 0600); err != nil {
		panic(err)
	}
	for file := 0; file < 2; file++ {
		var l langI
		var err error
		if file == 1 {
			l, err = k.fromXMLF(path)
		} else {
			l, err = k.fromXML(doc)
		}
		if err == nil || l != nil {
			return fmt.Sprintf("gives error %v and table %v", err, l)
		}
		l = k.mk("n", language.French)
		l.Set("a", "1")
		before := Obs(l)
		if file == 1 {
			err = l.LoadXMLFile(path)
		} else {
			err = l.LoadXMLString(doc)
		}
		if err == nil || Obs(l) != before {
			return fmt.Sprintf("loading gives error %v, name %q, table %v", err, l.GetName(), l)
		}
	}
	return ""
}

func xmlJobs(tier string, k *langKit) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	ents := []xent{{"a", "1", ""}, {"a", "2", "s"}, {"b", "", "t"}, {"b", "x y", ""}, {"", "e", "u"}, {"c", " p\n q ", "v"}, {"<d>&\"'é", "x<y>&amp;\"'é", "&<s>\"é"}}
	for f := range ents {
		f := f
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s documents starting with entry %d", k.name, f), Run: func(c *fw.Ctx) {
			d, rm := scratch()
			defer rm()
			for n := 0; n <= sel(q, 3, 4); n++ {
				if n == 0 && f > 0 {
					continue
				}
				idx := make([]int, n)
				if n > 0 {
					idx[0] = f
				}
				for {
					var e []xent
					for _, i := range idx {
						e = append(e, ents[i])
					}
					for style := 0; style < 16; style++ {
						for file := 0; file < 2; file++ {
							if file == 1 && n > 2 {
								continue
							}
							if c.Stop() {
								return
							}
							if !c.Case(append([]int{style, file}, idx...)...) {
								continue
							}
							if m := try(func() string { return xmlLoadCase(k, "tbl", "es", e, style, file, d) }); m != "" {
								c.Fail(fmt.Sprintf("%s entries %q style %d file %d", k.name, e, style, file), "%s", m)
								return
							}
							c.Trace()
							c.Trans(2)
							c.State(fmt.Sprint(e, style, file))
						}
					}
					i := n - 1
					for i >= 1 {
						idx[i]++
						if idx[i] < len(ents) {
							break
						}
						idx[i] = 0
						i--
					}
					if i < 1 {
						break
					}
				}
			}
		}})
	}
	jobs = append(jobs, fw.Job{Name: k.name + " names, languages and sizes of documents", Run: func(c *fw.Ctx) {
		d, rm := scratch()
		defer rm()
		one := func(id []int, name, lang string, e []xent, style, file int) bool {
			if c.Stop() {
				return false
			}
			if !c.Case(id...) {
				return true
			}
			if m := try(func() string { return xmlLoadCase(k, name, lang, e, style, file, d) }); m != "" {
				if len(m) > 2000 {
					m = m[:2000]
				}
				c.Fail(fmt.Sprintf("%s document %q in %q, %d entries, style %d file %d", k.name, name, lang, len(e), style, file), "%s", m)
				return false
			}
			c.Trace()
			c.Trans(2)
			c.State(fmt.Sprint(name, lang, len(e), style, file))
			return true
		}
		for ti, t := range xmlTags {
			for ni, name := range []string{"", "n", " n ", "a b", "é"} {
				for style := 0; style < 16; style++ {
					for file := 0; file < 2; file++ {
						if !one([]int{ti, ni, style, file}, name, t.String(), ents[:3], style, file) {
							return
						}
						if ti == 0 && !one([]int{50, ni, style, file}, name, "", ents[:3], style, file) {
							return
						}
						// not a language: the entries are loaded all the same
						if b := []string{"no language", "e", "klingonish-language", "!", "en us", "en-!"}; ti < len(b) && !one([]int{60 + ti, ni, style, file}, name, b[ti], ents[:3], style, file) {
							return
						}
					}
				}
			}
		}
		for _, n := range []int{5, 20, 80, 101, 257, 320, 1001, 1280, 5120}[:sel(q, 8, 9)] {
			var e []xent
			for i := 0; i < n; i++ {
				e = append(e, xent{fmt.Sprintf("key%d", i), fmt.Sprintf("value %d", i*7), fmt.Sprintf("s%d", i%3)})
			}
			e = append(e, xent{"long", strings.Repeat("x<", n*50), strings.Repeat("y", n)})
			for style := 0; style < 16; style++ {
				for file := 0; file < 2; file++ {
					if !one([]int{100, n, style, file}, "big", "fr", e, style, file) {
						return
					}
				}
			}
		}
	}})
	for st := 0; st <= 16; st++ {
		st := st
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s malformed documents %d", k.name, st), Run: func(c *fw.Ctx) {
			d, rm := scratch()
			defer rm()
			n := 0
			one := func(doc string) bool {
				n++
				if c.Stop() {
					return false
				}
				if !c.Case(n) {
					return true
				}
				if m := try(func() string { return badXML(k, doc, d) }); m != "" {
					c.Fail(fmt.Sprintf("%s document %q", k.name, doc), "%s", m)
					return false
				}
				c.Trace()
				c.Trans(4)
				c.State(doc)
				c.Sample(func() string { return doc })
				return true
			}
			if st < 16 {
				doc := xmlDoc("tbl", "es", ents, st)
				for i := 0; i < len(doc); i++ { // every truncation
					if !one(doc[:i]) {
						return
					}
				}
				return
			}
			for _, s := range []string{"", "x", "<", "<a", "<a>", "a=b", "</language>", "<language><entry></language>", "<language id=x></language>", "<language id=\"a\"><entry id=\"a\">&nope;</entry></language>",
				"<language id=\"a\"><entry id=\"a\">x&nbsp;y</entry></language>", "<language id=\"a\"><entry id=\"&eacute;\">x</entry></language>", "<language id=\"a\"><entry id=\"a\">&copy;</entry></language>", "<language id=\"a\"><entry id=\"a\">a & b</entry></language>", "<language id=\"a\"><entry id=\"a\">x<br></entry></language>", "<language id=a><entry id=b>x</entry></language>", "<LANGUAGE id=\"a\"></language>",
				"<language id=\"new\"><entry id=\"a\">new</entry><entry id=\"b\">x</entri></language>", "<language id=\"new\" lang=\"en\"><entry id=\"a\">\x01</entry></language>", "<language id=\"new\"><entry id=\"a\">new</entry><entry id=\"a\" id></entry></language>",
				"<?xml version=\"1.0\" encoding=\"nope\"?><language id=\"new\"></language>", "<language id=\"new\"><entry id=\"a\">new</entry>"} {
				if !one(s) {
					return
				}
			}
			unreadable(c, k, true)
		}})
	}
	return jobs
}

// ---- C16: map behaviour

type langInst struct {
	k    *langKit
	l    langI
	e, s map[string]string
	name string
	tag  language.Tag
}

func langOpNames(k *langKit) []string {
	n := []string{"Set(a,x)", "Set(a,y z)", "Set(b,)", "Del(a)", "Del(b)", "SetName(m)", "SetLanguage(fr-CA)", "LoadString(a=z)", "LoadXML(b)", "print"}
	if k.v2 {
		n = append(n, "SetStatus(a,s)", "SetStatus(b,t)", "SetStatus(a,)", "change the handed out entries")
	}
	return append(n, "Set(A,w)", "Set or Del of the empty name")
}

func newLangInst(k *langKit, kind int) Inst {
	i := &langInst{k: k, e: map[string]string{}, s: map[string]string{}, name: "n", tag: language.English}
	switch kind {
	case 0:
		i.l = k.mk("n", language.English)
	case 1:
		i.l, _ = k.fromStr("b=1")
		i.e["b"] = "1"
		i.name, i.tag = "", language.Tag{}
	case 2:
		i.l, _ = k.fromXML(xmlDoc("q", "es", []xent{{"a", "A", "S"}}, 0))
		i.e["a"], i.name, i.tag = "A", "q", language.Spanish
		if k.v2 {
			i.s["a"] = "S"
		}
	}
	return i
}

func (i *langInst) Key() string { return fmt.Sprint(i.e, i.s, i.name, i.tag) + DumpAbs(i.l) }

func (i *langInst) Apply(op int) (string, string) {
	var g, w []string
	if !i.k.v2 && op >= 10 {
		op += 4
	}
	switch op {
	case 14:
		i.l.Set("A", "w")
		i.e["A"] = "w"
	case 15:
		if _, ok := i.e[""]; ok {
			i.l.Del("")
			delete(i.e, "")
		} else {
			i.l.Set("", "")
			i.e[""] = ""
		}
	case 0:
		i.l.Set("a", "x")
		i.e["a"] = "x"
	case 1:
		i.l.Set("a", "y z")
		i.e["a"] = "y z"
	case 2:
		i.l.Set("b", "")
		i.e["b"] = ""
	case 3:
		i.l.Del("a")
		delete(i.e, "a")
		delete(i.s, "a")
	case 4:
		i.l.Del("b")
		delete(i.e, "b")
		delete(i.s, "b")
	case 5:
		i.l.SetName("m")
		i.name = "m"
	case 6:
		i.tag = language.CanadianFrench
		i.l.SetLanguage(i.tag)
	case 7:
		g = append(g, fmt.Sprint(i.l.LoadString("a=z")))
		w = append(w, "<nil>")
		i.e["a"] = "z"
	case 8:
		g = append(g, fmt.Sprint(i.l.LoadXMLString(xmlDoc("loaded", "es", []xent{{"b", "B", "st"}}, 0))))
		w = append(w, "<nil>")
		i.e["b"], i.name, i.tag = "B", "loaded", language.Spanish
		if i.k.v2 {
			i.s["b"] = "st"
		}
	case 9: // printed in both map orders
		rt.MapDesc = true
		s, gs := i.l.String(), i.l.GoString()
		x := ""
		if i.k.v2 {
			x = i.l.(*x2.XLanguage).GetXML()
		}
		rt.MapDesc = false
		if s != i.l.String() || gs != i.l.GoString() || (i.k.v2 && x != i.l.(*x2.XLanguage).GetXML()) {
			g = append(g, "prints depend on the order of the map")
		}
	case 10:
		i.l.(*x2.XLanguage).SetStatus("a", "s")
		i.s["a"] = "s"
	case 11:
		i.l.(*x2.XLanguage).SetStatus("b", "t")
		i.s["b"] = "t"
	case 12:
		i.l.(*x2.XLanguage).SetStatus("a", "")
		i.s["a"] = ""
	case 13:
		m := i.l.(*x2.XLanguage).GetEntries()
		if !mapEq(m, i.e) {
			g = append(g, fmt.Sprint(m))
		}
		m["a"], m["new"] = "changed", "1"
		delete(m, "b")
		m2 := i.l.(*x2.XLanguage).GetEntries()
		i.l.Set("zz", "1")
		if _, ok := m2["zz"]; ok {
			g = append(g, "handed out entries follow the table")
		}
		i.l.Del("zz")
		m3 := i.l.(*x2.XLanguage).GetEntries()
		m3["mine"] = "3"
		if !mapEq(m2, i.e) || m["a"] != "changed" || m["mine"] != "" || i.l.Get("mine") != "" {
			g = append(g, "entries handed out twice depend on each other")
		}
	}
	for _, k := range []string{"a", "b", "new", "", "A", "B", " a", "a ", "aa", "b.", "á"} {
		g = append(g, i.l.Get(k))
		w = append(w, i.e[k])
		if i.k.v2 {
			g = append(g, i.l.(*x2.XLanguage).GetStatus(k))
			w = append(w, i.s[k])
		}
	}
	g = append(g, i.l.GetName(), i.l.GetLanguage().String())
	w = append(w, i.name, i.tag.String())
	if !mapEq(i.k.entries(i.l), i.e) {
		g = append(g, fmt.Sprint("entries ", i.k.entries(i.l)))
	}
	s, gs := i.l.String(), i.l.GoString()
	for k, v := range i.e {
		if k == "" { // counted below
			continue
		}
		if strings.Count(s, k+":"+v) != 1 || strings.Count(gs, k+":"+fmt.Sprintf("%#v", v)) != 1 {
			g = append(g, "print", s, gs)
		}
	}
	if strings.Count(s, ":") != len(i.e) || strings.Count(gs, ":") != len(i.e) {
		g = append(g, "print", s, gs)
	}
	if i.k.v2 {
		x := i.l.(*x2.XLanguage).GetXML()
		n, m := parseLang(x)
		var ww []string
		for k, v := range i.e {
			ww = append(ww, k+"="+v+"/"+i.s[k])
		}
		sort.Strings(ww)
		wm := i.name + " " + i.tag.String() + " " + strings.Join(ww, ",")
		if n != len(i.e) || m != wm {
			g = append(g, "xml", m)
			w = append(w, "xml", wm)
		}
	}
	return strings.Join(g, "|"), strings.Join(w, "|")
}

// parseLang reads an exported document independently: number of entries and a summary.
func parseLang(doc string) (int, string) {
	var t struct {
		Name string `xml:"id,attr"`
		Lang string `xml:"lang,attr"`
		E    []struct {
			ID     string `xml:"id,attr"`
			Status string `xml:"status,attr"`
			V      string `xml:",chardata"`
		} `xml:"entry"`
	}
	if err := xml.Unmarshal([]byte(doc), &t); err != nil {
		return -1, err.Error()
	}
	var s []string
	for _, e := range t.E {
		s = append(s, e.ID+"="+e.V+"/"+e.Status)
	}
	sort.Strings(s)
	return len(t.E), t.Name + " " + t.Lang + " " + strings.Join(s, ",")
}

// langTexts: names and texts are kept as they are.
func langTexts(k *langKit, x, y string) string {
	l := k.mk("n", language.English)
	want := map[string]string{}
	l.Set("fixed", "text")
	want["fixed"] = "text"
	for i, st := range []struct{ n, v string }{{x, "first"}, {x, y}, {y, x}, {x + y, y + x}} {
		l.Set(st.n, st.v)
		want[st.n] = st.v
		if !mapEq(k.entries(l), want) {
			return fmt.Sprintf("after step %d the entries are %q", i, k.entries(l))
		}
		for n, v := range want {
			if g := l.Get(n); g != v {
				return fmt.Sprintf("after step %d %q reads as %q", i, n, g)
			}
		}
	}
	if k.v2 {
		v2 := l.(*x2.XLanguage)
		v2.SetStatus(x, y)
		v2.SetStatus(x+"!", x)
		if v2.GetStatus(x) != y || v2.GetStatus(x+"!") != x || v2.GetStatus("fixed") != "" || l.Get(x) != want[x] || l.Get(x+"!") != want[x+"!"] {
			return fmt.Sprintf("statuses read as %q and %q", v2.GetStatus(x), v2.GetStatus(x+"!"))
		}
	}
	l.Del(x)
	delete(want, x)
	if !mapEq(k.entries(l), want) || l.Get(x) != "" || (k.v2 && l.(*x2.XLanguage).GetStatus(x) != "") {
		return fmt.Sprintf("after the removal the entries are %q", k.entries(l))
	}
	return ""
}

func langMapJobs(tier string, k *langKit) []fw.Job {
	q := tier != "thorough"
	ops := langOpNames(k)
	var jobs []fw.Job
	jobs = append(jobs, fw.Job{Name: k.name + " names and languages", Run: func(c *fw.Ctx) {
		names := []string{"", "n", " n ", "N", "é", "a>b", "a b", "<&\">", "\n", strings.Repeat("name", 100)}
		for a, t1 := range xmlTags {
			for b, t2 := range xmlTags {
				for n1, nm1 := range names {
					if !c.Case(a, b, n1) {
						if c.Stop() {
							return
						}
						continue
					}
					nm2 := names[(n1+a+b)%len(names)]
					msg := try(func() string {
						l := k.mk(nm1, t1)
						if l.GetName() != nm1 || l.GetLanguage() != t1 {
							return fmt.Sprintf("made as %q %v, says %q %v", nm1, t1, l.GetName(), l.GetLanguage())
						}
						l.SetLanguage(t2)
						if l.GetName() != nm1 || l.GetLanguage() != t2 {
							return fmt.Sprintf("language set to %v, says %q %v", t2, l.GetName(), l.GetLanguage())
						}
						l.SetName(nm2)
						if l.GetName() != nm2 || l.GetLanguage() != t2 {
							return fmt.Sprintf("name set to %q, says %q %v", nm2, l.GetName(), l.GetLanguage())
						}
						return ""
					})
					if msg != "" {
						c.Fail(fmt.Sprintf("name %q language %v, then %q %v", nm1, t1, nm2, t2), "%s", msg)
						return
					}
					c.State(fmt.Sprint(nm1, t1, nm2, t2))
					c.Trans(3)
					c.Trace()
				}
			}
		}
	}})
	all := append(append([]string{"", " ", " a ", "\n", "a\n", "a\r\n", "\ta\t", "\x00", "a\x00b", strings.Repeat("long ", 3000)}, langOdd...), langRare...)
	for part := 0; part < 4; part++ {
		part := part
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s texts of all kinds part %d", k.name, part), Run: func(c *fw.Ctx) {
			for a := part; a < len(all); a += 4 {
				for b, y := range all {
					if !c.Case(a, b) {
						if c.Stop() {
							return
						}
						continue
					}
					x := all[a]
					if msg := try(func() string { return langTexts(k, x, y) }); msg != "" {
						c.Fail(fmt.Sprintf("entry %q with text %q", x, y), "%s", msg)
						return
					}
					c.State(x + "=" + y)
					c.Trans(9)
					c.Trace()
				}
			}
		}})
	}
	for kind := 0; kind < 3; kind++ {
		kind := kind
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s language bfs kind %d", k.name, kind), Run: func(c *fw.Ctx) {
			BFS(c, func() Inst { return newLangInst(k, kind) }, ops, sel(q, 6, 10), 200000)
		}})
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s language families kind %d", k.name, kind), Run: func(c *fw.Ctx) {
			langFamilies(c, k, kind, sel(q, 40, 150))
		}})
		for f := range ops {
			f := f
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s language sequences kind %d first %s", k.name, kind, ops[f]), Run: func(c *fw.Ctx) {
				Seqs(c, func() Inst { return newLangInst(k, kind) }, ops, []int{f}, sel(q, 4, 5))
			}})
		}
	}
	return jobs
}

// langFamilies: n entries put in, every step-th taken out again, looked at from all sides at each step.
func langFamilies(c *fw.Ctx, k *langKit, kind, max int) {
	var sizes []int
	for n := 1; n <= max; n += 1 + n/10 {
		sizes = append(sizes, n)
	}
	for _, n := range append(sizes, 65, 101, 257, 401, 1001, 1100) {
		for step := 1; step <= 3; step++ {
			for order := 0; order < 3; order++ {
				if n > 300 && step != order+1 || !c.Case(n, step, order) {
					if c.Stop() {
						return
					}
					continue
				}
				i := newLangInst(k, kind).(*langInst)
				key := func(j int) string {
					switch order {
					case 1:
						j = n - j
					case 2:
						j = j * 7 % 151
					}
					return fmt.Sprintf("key%d", j)
				}
				desc := fmt.Sprintf("%s kind %d: %d entries in order %d, every %d deleted", k.name, kind, n, order, step)
				msg := try(func() string {
					see := func(what string) string {
						if g, w := i.Apply(9); g != w {
							return what + ": " + g + " instead of " + w
						}
						return ""
					}
					for j := 0; j < n; j++ {
						i.l.Set(key(j), fmt.Sprintf("v%d!", j))
						i.e[key(j)] = fmt.Sprintf("v%d!", j)
						if k.v2 && j%2 == 0 {
							i.l.(*x2.XLanguage).SetStatus(key(j), fmt.Sprintf("s%d", j))
							i.s[key(j)] = fmt.Sprintf("s%d", j)
						}
						if n < 10 || j == n-1 {
							if m := see("after Set " + key(j)); m != "" {
								return m
							}
						}
					}
					for j := 0; j < n; j += step {
						i.l.Del(key(j))
						delete(i.e, key(j))
						delete(i.s, key(j))
						if n < 10 || j%9 == 0 && (n < 300 || j%99 == 0) {
							if m := see("after Del " + key(j)); m != "" {
								return m
							}
						}
					}
					for j := 0; j < n; j++ {
						if g := i.l.Get(key(j)); g != i.e[key(j)] {
							return fmt.Sprintf("%s is %q instead of %q", key(j), g, i.e[key(j)])
						}
						if k.v2 {
							if g := i.l.(*x2.XLanguage).GetStatus(key(j)); g != i.s[key(j)] {
								return fmt.Sprintf("status of %s is %q instead of %q", key(j), g, i.s[key(j)])
							}
						}
					}
					return see("at the end")
				})
				if msg != "" {
					c.Fail(desc, "%s", msg)
					return
				}
				c.Trace()
				c.Trans(n + n/step)
				c.State(desc)
				c.Sample(func() string { return desc })
			}
		}
	}
}

// ---- C17: concurrency

type lm struct {
	e, s map[string]string
	name string
	tag  string
	ops  []langOp
}

type langOp struct {
	name string
	do   func(l *x2.XLanguage) string
	mod  func(m *lm) string
}

func (m *lm) Apply(op int) string { return m.ops[op].mod(m) }
func (m *lm) Clone() Model {
	n := &lm{map[string]string{}, map[string]string{}, m.name, m.tag, m.ops}
	for k, v := range m.e {
		n.e[k] = v
	}
	for k, v := range m.s {
		n.s[k] = v
	}
	return n
}

func (m *lm) list(st bool) string {
	var s []string
	for k, v := range m.e {
		if st {
			v += "/" + m.s[k]
		}
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func langOps() []langOp {
	two := xmlDoc("x", "es", []xent{{"a", "5", "p"}, {"b", "6", "q"}}, 0)
	parse := func(s string) string {
		var r []string
		for _, f := range strings.Fields(strings.TrimRight(s[strings.Index(s, "{")+1:], "}")) {
			r = append(r, strings.Replace(strings.Replace(f, "\"", "", -1), ":", "=", 1))
		}
		sort.Strings(r)
		return strings.Join(r, ",")
	}
	return []langOp{
		{"Set(a,1)", func(l *x2.XLanguage) string { l.Set("a", "1"); return "" }, func(m *lm) string { m.e["a"] = "1"; return "" }},
		{"Set(b,2)", func(l *x2.XLanguage) string { l.Set("b", "2"); return "" }, func(m *lm) string { m.e["b"] = "2"; return "" }},
		{"Get(a)", func(l *x2.XLanguage) string { return l.Get("a") }, func(m *lm) string { return m.e["a"] }},
		{"Get(b)", func(l *x2.XLanguage) string { return l.Get("b") }, func(m *lm) string { return m.e["b"] }},
		{"SetStatus(a,s)", func(l *x2.XLanguage) string { l.SetStatus("a", "s"); return "" }, func(m *lm) string { m.s["a"] = "s"; return "" }},
		{"GetStatus(a)", func(l *x2.XLanguage) string { return l.GetStatus("a") }, func(m *lm) string { return m.s["a"] }},
		{"Del(a)", func(l *x2.XLanguage) string { l.Del("a"); return "" }, func(m *lm) string { delete(m.e, "a"); delete(m.s, "a"); return "" }},
		{"GetEntries()", func(l *x2.XLanguage) string { return (&lm{e: l.GetEntries()}).list(false) }, func(m *lm) string { return m.list(false) }},
		{"GetXML()", func(l *x2.XLanguage) string { _, s := parseLang(l.GetXML()); return s }, func(m *lm) string { return m.name + " " + m.tag + " " + m.list(true) }},
		{"String()", func(l *x2.XLanguage) string { return parse(l.String()) }, func(m *lm) string { return m.list(false) }},
		{"GoString()", func(l *x2.XLanguage) string { return parse(l.GoString()) }, func(m *lm) string { return m.list(false) }},
		{"SetName(m)", func(l *x2.XLanguage) string { l.SetName("m"); return "" }, func(m *lm) string { m.name = "m"; return "" }},
		{"GetName()", func(l *x2.XLanguage) string { return l.GetName() }, func(m *lm) string { return m.name }},
		{"SetLanguage(fr)", func(l *x2.XLanguage) string { l.SetLanguage(language.French); return "" }, func(m *lm) string { m.tag = "fr"; return "" }},
		{"GetLanguage()", func(l *x2.XLanguage) string { return l.GetLanguage().String() }, func(m *lm) string { return m.tag }},
		{"LoadXML(x,es,a=5/p,b=6/q)", func(l *x2.XLanguage) string { return fmt.Sprint(l.LoadXMLString(two)) }, func(m *lm) string {
			m.name, m.tag = "x", "es"
			m.e["a"], m.e["b"], m.s["a"], m.s["b"] = "5", "6", "p", "q"
			return "<nil>"
		}},
		{"LoadString(a=7)", func(l *x2.XLanguage) string { return fmt.Sprint(l.LoadString("#c\na=7\n")) }, func(m *lm) string { m.e["a"] = "7"; return "<nil>" }},
		// not atomic as a whole: explored for races, panics and deadlocks only
		{"LoadString(a=8,b=9)", func(l *x2.XLanguage) string { return fmt.Sprint(l.LoadString("a=8\nb=9\n")) }, nil},
	}
}

func langShapes(tier string) []shape {
	r := []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: -1}, {lens: []int{1, 1, 1}, bound: -1}, {lens: []int{2, 2}, bound: -1}}
	if tier == "thorough" {
		r = append(r, shape{lens: []int{1, 3}, bound: -1}, shape{lens: []int{2, 1, 1}, bound: -1}, shape{lens: []int{1, 1, 1, 1}, bound: 3})
	}
	return r
}

func langConcJobs(tier string) []fw.Job {
	ops := langOps()
	var nm []string
	for _, o := range ops {
		nm = append(nm, o.name)
	}
	sp := &Spec{Ops: nm,
		New:      func() interface{} { return x2.NewXLanguage("n", language.English) },
		Do:       func(s interface{}, op int) string { return ops[op].do(s.(*x2.XLanguage)) },
		NewModel: func() Model { return &lm{map[string]string{}, map[string]string{}, "n", "en", ops} },
		Epilogue: []int{8, 2, 5, 12},
	}
	n := len(ops) - 1
	jobs := specJobs("language", sp, [][]int{{}, {0, 1, 4}}, iota2(n), langShapes(tier))
	// many other entries, and many loaded at once
	for _, k := range []int{20, 70, 140} {
		k := k
		var many []xent
		for i := 0; i < k; i++ {
			many = append(many, xent{fmt.Sprintf("other%d", i), "z", "r"})
		}
		many = append(many, xent{"a", "z", "r"})
		doc := xmlDoc("y", "de", many, 0)
		ops := append(langOps(), langOp{fmt.Sprintf("LoadXML(%d entries)", k+1), func(l *x2.XLanguage) string { return fmt.Sprint(l.LoadXMLString(doc)) }, func(m *lm) string {
			m.name, m.tag = "y", "de"
			for _, e := range many {
				m.e[e.id], m.s[e.id] = e.val, e.st
			}
			return "<nil>"
		}})
		big := &Spec{Ops: append(append([]string{}, nm...), ops[n+1].name), Epilogue: sp.Epilogue,
			Do: func(s interface{}, op int) string { return ops[op].do(s.(*x2.XLanguage)) },
			New: func() interface{} {
				l := x2.NewXLanguage("n", language.English)
				for i := 0; i < k; i++ {
					l.Set(fmt.Sprintf("other%d", i), "o")
				}
				return l
			},
			NewModel: func() Model {
				m := &lm{map[string]string{}, map[string]string{}, "n", "en", ops}
				for i := 0; i < k; i++ {
					m.e[fmt.Sprintf("other%d", i)] = "o"
				}
				return m
			},
		}
		jobs = append(jobs, specJobs(fmt.Sprintf("language of %d others", k), big, [][]int{{0, 4}}, []int{0, 2, 4, 6, 7, 8, 9, 15, 16, 18}, []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: 3}})...)
	}
	racy := &Spec{Ops: nm, New: sp.New, Do: sp.Do, Epilogue: []int{8}}
	for f := 0; f < len(ops); f++ {
		f := f
		jobs = append(jobs, fw.Job{Name: "language text load with " + nm[f], Run: func(c *fw.Ctx) {
			for g := 0; g < len(ops); g++ {
				if c.Stop() {
					return
				}
				Explore(c, racy, nil, [][]int{{n}, {f, g}}, -1)
				Explore(c, racy, []int{0, 1, 4}, [][]int{{n, n}, {f, g}}, -1)
			}
		}})
	}
	return jobs
}

func init() {
	b := func(s string) func(string) string { return func(string) string { return s } }
	fw.Register(&fw.Prop{ID: "C14", Jobs: func(t string) []fw.Job { return textJobs(t, &langKit2) }, Bounds: b("all texts of up to 6 (thorough 7) pieces over a b = # ; space tab LF CRLF é; all texts of up to 4 (thorough 5) of 12 lines; files up to 3 (thorough 4) pieces; every pair of bytes in every position of a line; rare and odd pieces up to 4 (thorough 5); long lines up to 200000 bytes; up to 140000 lines; unreadable files")})
	fw.Register(&fw.Prop{ID: "C15", Jobs: func(t string) []fw.Job { return append(roundJobs(t), xmlJobs(t, &langKit2)...) }, Bounds: b("tables whose values are all strings of 3 (thorough 4) pieces, and names, statuses and keys all strings of 2 pieces, out of 29 significant pieces; all ways to give, mark and remove 3 names; documents of up to 3 (thorough 4) of 7 entries in 16 styles; tables of up to 1280 (thorough 5120) entries; every truncation and a list of malformed documents"),
		Assumptions: []string{"characters XML cannot carry (controls, invalid UTF-8) are outside"}})
	fw.Register(&fw.Prop{ID: "C16", Jobs: func(t string) []fw.Job { return langMapJobs(t, &langKit2) }, Bounds: b("16 operations x 3 ways to build: all sequences of length 4 (thorough 5), breadth-first to depth 6 (thorough 10); families of up to 40 (150) entries and of 65 to 1100; names and languages with regions and scripts in all pairs; all pairs of 74 names and texts of unusual characters")})
	fw.Register(&fw.Prop{ID: "C17", Jobs: langConcJobs, Bounds: b("every interleaving of all programs of 1+1, 1+2, 1+1+1 and 2+2 operations (thorough also 1+3 and 2+1+1 in full, 1+1+1+1 with 3 preemptions); tables of 20, 70 and 140 other entries and documents of as many with 1+1 in full and 1+2 with 3 preemptions"), Assumptions: append([]string{"loading a text of several lines is not one atomic operation; it is explored for races, panics and deadlocks"}, schedAssume[:2]...)})
	fw.Register(&fw.Prop{ID: "C27", Jobs: func(t string) []fw.Job {
		return append(append(textJobs(t, &langKit1), xmlJobs(t, &langKit1)...), langMapJobs(t, &langKit1)...)
	}, Bounds: b("as C14, C16 and the loading part of C15 on the version 1 package")})
}
