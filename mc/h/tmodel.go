package h

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"
)

// ---- access to both versions

type tkit struct {
	name     string
	v1       bool
	k        *kit
	from     func(s string) (interface{}, error)
	fromFile func(s string) (interface{}, error)
	load     func(t interface{}, s string) error
	loadFile func(t interface{}, s string) error
	exec     func(t, data interface{}) string
	get      func(t interface{}, name string) interface{}
	add      func(t interface{}, name string, sub interface{})
	lang     func(m map[string]string) interface{}
	empty    func() interface{}
}

var tkit2 = tkit{name: "v2", k: &kit2,
	from: func(s string) (interface{}, error) {
		t, err := x2.NewXTemplateFromString(s)
		return norm(t), err
	},
	fromFile: func(s string) (interface{}, error) {
		t, err := x2.NewXTemplateFromFile(s)
		return norm(t), err
	},
	load:     func(t interface{}, s string) error { return t.(*x2.XTemplate).LoadString(s) },
	loadFile: func(t interface{}, s string) error { return t.(*x2.XTemplate).LoadFile(s) },
	exec: func(t, d interface{}) string {
		if d == nil {
			return t.(*x2.XTemplate).Execute(nil)
		}
		return t.(*x2.XTemplate).Execute(d.(x2.XDatasetDef))
	},
	get:   func(t interface{}, n string) interface{} { return norm(t.(*x2.XTemplate).GetTemplate(n)) },
	add:   func(t interface{}, n string, s interface{}) { t.(*x2.XTemplate).AddTemplate(n, s.(*x2.XTemplate)) },
	empty: func() interface{} { return x2.NewXTemplate() },
	lang: func(m map[string]string) interface{} {
		l := x2.NewXLanguage("l", language.English)
		for k, v := range m {
			l.Set(k, v)
		}
		return l
	},
}

var tkit1 = tkit{name: "v1", v1: true, k: &kit1,
	from: func(s string) (interface{}, error) {
		t, err := x1.NewXTemplateFromString(s)
		return norm(t), err
	},
	fromFile: func(s string) (interface{}, error) {
		t, err := x1.NewXTemplateFromFile(s)
		return norm(t), err
	},
	load:     func(t interface{}, s string) error { return t.(*x1.XTemplate).LoadString(s) },
	loadFile: func(t interface{}, s string) error { return t.(*x1.XTemplate).LoadFile(s) },
	exec: func(t, d interface{}) string {
		if d == nil {
			return t.(*x1.XTemplate).Execute(nil)
		}
		return t.(*x1.XTemplate).Execute(d.(x1.XDatasetDef))
	},
	get:   func(t interface{}, n string) interface{} { return norm(t.(*x1.XTemplate).GetTemplate(n)) },
	add:   func(t interface{}, n string, s interface{}) { t.(*x1.XTemplate).AddTemplate(n, s.(*x1.XTemplate)) },
	empty: func() interface{} { return x1.NewXTemplate() },
	lang: func(m map[string]string) interface{} {
		l := x1.NewXLanguage("l", language.English)
		for k, v := range m {
			l.Set(k, v)
		}
		return l
	},
}

// ---- reference scanner

type tnode struct {
	kind byte // 't' text, or the tag character; '[' definition start, ']' end
	data string
}

func breakLen(s string) int {
	for _, b := range []string{"\r\n", "\n\r", "\n", "\r"} {
		if strings.HasPrefix(s, b) {
			return len(b)
		}
	}
	return 0
}

func wordLen(s, extra string) int {
	n := 0
	for n < len(s) {
		c := s[n]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte(extra, c) >= 0 {
			n++
		} else {
			break
		}
	}
	return n
}

// tagAt recognises a complete tag at the beginning of s: its node and length (0: none).
func tagAt(s string, v1 bool) (tnode, int) {
	if len(s) < 3 {
		return tnode{}, 0
	}
	two := s[:2]
	if strings.HasPrefix(s, "%--") {
		if e := strings.Index(s[3:], "--%"); e >= 0 {
			l := 3 + e + 3
			return tnode{'%', ""}, l + breakLen(s[l:])
		}
		return tnode{}, 0
	}
	pairs := map[string]string{"##": "##", "&&": "&&", "@@": "@@", "??": "??", "!!": "!!", "{{": "}}"}
	if cl, ok := pairs[two]; ok {
		if v1 {
			// anything, at least one character
			_, first := utf8.DecodeRuneInString(s[2:])
			if e := strings.Index(s[2+first:], cl); e >= 0 {
				return tnode{s[0], s[2 : 2+first+e]}, 2 + first + e + 2
			}
			return tnode{}, 0
		}
		extra := "-_=>:|."
		if two == "##" {
			extra = "-_."
		}
		n := wordLen(s[2:], extra)
		if n > 0 && strings.HasPrefix(s[2+n:], cl) {
			return tnode{s[0], s[2 : 2+n]}, 2 + n + 2
		}
		return tnode{}, 0
	}
	if two == "[[" {
		if strings.HasPrefix(s, "[[]]") {
			return tnode{']', ""}, 4 + breakLen(s[4:])
		}
		n := 0
		for 2+n < len(s) && (s[2+n] >= 'a' && s[2+n] <= 'z' || s[2+n] >= '0' && s[2+n] <= '9' || strings.IndexByte("|.-_", s[2+n]) >= 0) {
			n++
		}
		if n > 0 && strings.HasPrefix(s[2+n:], "]]") {
			l := 2 + n + 2
			return tnode{'[', s[2 : 2+n]}, l + breakLen(s[l:])
		}
	}
	return tnode{}, 0
}

// mt is a template of the reference model.
type mt struct {
	nodes  []tnode
	subs   map[string]*mt
	father *mt
	id     int
}

func (m *mt) add(name string, s *mt) {
	if m.subs == nil {
		m.subs = map[string]*mt{}
	}
	m.subs[name] = s
	s.father = m
}

// parseT gives nil if the marks do not pair up.
func parseT(s string, v1 bool) *mt {
	root := &mt{}
	cur := root
	var names []string
	var text strings.Builder
	flush := func() {
		if text.Len() > 0 {
			cur.nodes = append(cur.nodes, tnode{'t', text.String()})
			text.Reset()
		}
	}
	ids := 0
	for len(s) > 0 {
		n, l := tagAt(s, v1)
		if l == 0 {
			text.WriteByte(s[0])
			s = s[1:]
			continue
		}
		s = s[l:]
		flush()
		switch n.kind {
		case '%':
		case '[':
			names = append(names, n.data)
			ids++
			cur = &mt{father: cur, id: ids}
		case ']':
			if len(names) == 0 {
				return nil
			}
			done, up := cur, cur.father
			for _, nm := range strings.Split(names[len(names)-1], "|") {
				if nm != "" {
					up.add(nm, done)
				}
			}
			names = names[:len(names)-1]
			cur = up
		default:
			cur.nodes = append(cur.nodes, n)
		}
	}
	flush()
	if len(names) > 0 {
		return nil
	}
	return root
}

// ---- reference interpreter

type interp struct {
	v1    bool
	lang  map[string]string // nil: none
	over  bool              // recursion without end, or too much output
	deep  bool              // go on for longer
	calls int
}

func (m *mt) find(name string, v1 bool) *mt {
	for t := m; t != nil; t = t.father {
		if s := t.subs[name]; s != nil {
			return s
		}
		if v1 {
			return nil
		}
	}
	return nil
}

func look(stack []*tree, path string) *tree {
	segs := strings.Split(path, ">")
	for i := len(stack) - 1; i >= 0; i-- {
		if t := stack[i].walk(segs); t != nil {
			return t
		}
	}
	return nil
}

func textOf(t *tree) string {
	if t == nil || t.obj == nil {
		return ""
	}
	return fmt.Sprint(t.obj)
}

// render: stack is nil when there is no data at all.
func (in *interp) render(m *mt, stack []*tree, depth int) string {
	in.calls++
	if in.deep && (depth > 400 || in.calls > 100000) || !in.deep && (depth > 40 || in.calls > 3000) {
		in.over = true
	}
	if in.over {
		return ""
	}
	var b strings.Builder
	sub := func(t *mt, st []*tree) {
		if t != nil {
			b.WriteString(in.render(t, st, depth+1))
		}
	}
	push := func(t *tree) []*tree { return append(append([]*tree{}, stack...), t) }
	for _, n := range m.nodes {
		if in.over {
			return ""
		}
		switch n.kind {
		case 't':
			b.WriteString(n.data)
		case '#':
			b.WriteString(in.lang[n.data])
		case '{':
			b.WriteString(textOf(look(stack, n.data)))
		case '!':
			if (n.data == "dump" || n.data == "list") && stack != nil {
				b.WriteString(stack[0].obj.(dsI).GoString())
			}
		case '&':
			p := strings.Split(n.data, ":")
			if len(p) == 3 {
				t := m.find(p[2]+textOf(look(stack, p[1])), in.v1)
				if t == nil {
					t = m.find(p[2], in.v1)
				}
				sub(t, stack)
				break
			}
			t := m.find(p[0], in.v1)
			st := stack
			if len(p) == 2 {
				if d := look(stack, p[1]); d != nil && d.kind == 'd' {
					st = push(d)
				}
			}
			sub(t, st)
		case '@':
			p := strings.Split(n.data, ":")
			name := p[len(p)-1]
			if len(p) > 1 {
				name = p[1]
			}
			base := m.find(name, in.v1)
			if base == nil || stack == nil {
				break
			}
			d := look(stack, p[0])
			if d == nil || d.kind != 'c' || (!in.v1 && len(d.elems) == 0) {
				t := m.find(name+".none", in.v1)
				if t == nil {
					t = base
				}
				sub(t, stack)
				break
			}
			for i, e := range d.elems {
				var t *mt
				try := func(c bool, suffix string) {
					if t == nil && c {
						t = m.find(name+suffix, in.v1)
					}
				}
				try(true, ".key."+strconv.Itoa(i))
				try(i == 0, ".first")
				try(i == len(d.elems)-1, ".last")
				try(i%2 == 0, ".even")
				if t == nil {
					t = base
				}
				st := push(e)
				if !in.v1 {
					st = append(st, &tree{kind: 'd', kids: map[string]*tree{".counter": {kind: 's', val: i + 1, obj: i + 1}}})
				}
				sub(t, st)
			}
		case '?':
			p := strings.Split(n.data, ":")
			name := p[0]
			if len(p) > 1 {
				name = p[1]
			}
			base := m.find(name, in.v1)
			d := look(stack, p[0])
			s := textOf(d)
			if s == "" {
				if !in.v1 {
					sub(m.find(name+".none", in.v1), stack)
				}
				break
			}
			if base == nil {
				break
			}
			st := stack
			if d.kind == 'd' {
				if in.v1 {
					break
				}
				st = push(d)
				s = "array"
			}
			t := m.find(name+"."+s, in.v1)
			if t == nil {
				t = base
			}
			sub(t, st)
		}
	}
	return b.String()
}
