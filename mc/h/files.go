package h

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"

	"xcoremc/fw"
)

// ---- C29: loading from files

// loader is one kind of object that can be loaded from a file.
type loader struct {
	name     string
	fresh    func() interface{}
	loadStr  func(o interface{}, s string) error
	loadFile func(o interface{}, path string) error
	newStr   func(s string) (interface{}, error)
	newFile  func(path string) (interface{}, error)
	show     func(o interface{}) string
	good     [2]string
	bad      string
	sized    func(n int) string // a good content of n bytes ("" and n>0: none)
}

func langShow(k *langKit, o interface{}) string {
	l := o.(langI)
	var s []string
	for e, v := range k.entries(l) {
		st := ""
		if x, ok := l.(*x2.XLanguage); ok {
			st = x.GetStatus(e)
		}
		s = append(s, fmt.Sprintf("%q=%q/%q", e, v, st))
	}
	sort.Strings(s)
	return l.GetName() + " " + l.GetLanguage().String() + " " + strings.Join(s, " ")
}

func loaders() []*loader {
	var r []*loader
	nl := func(l langI, err error) (interface{}, error) {
		if l == nil {
			return nil, err
		}
		return l, err
	}
	for _, k := range []*langKit{&langKit2, &langKit1} {
		k := k
		r = append(r, &loader{name: k.name + " text table",
			fresh:    func() interface{} { return k.mk("n", language.French) },
			loadStr:  func(o interface{}, s string) error { return o.(langI).LoadString(s) },
			loadFile: func(o interface{}, p string) error { return o.(langI).LoadFile(p) },
			newStr:   func(s string) (interface{}, error) { return nl(k.fromStr(s)) },
			newFile:  func(p string) (interface{}, error) { return nl(k.fromFile(p)) },
			show:     func(o interface{}) string { return langShow(k, o) },
			good:     [2]string{"a=1\nb=2\n", "#c\nb = 3\r\nc=é"},
			bad:      "no table at all",
			sized: func(n int) string {
				var b strings.Builder
				for i := 0; b.Len() < n; i++ {
					fmt.Fprintf(&b, "k%d=v%d\n", i, i)
				}
				return b.String()[:n]
			},
		})
		r = append(r, &loader{name: k.name + " XML table",
			fresh:    func() interface{} { return k.mk("n", language.French) },
			loadStr:  func(o interface{}, s string) error { return o.(langI).LoadXMLString(s) },
			loadFile: func(o interface{}, p string) error { return o.(langI).LoadXMLFile(p) },
			newStr:   func(s string) (interface{}, error) { return nl(k.fromXML(s)) },
			newFile:  func(p string) (interface{}, error) { return nl(k.fromXMLF(p)) },
			show:     func(o interface{}) string { return langShow(k, o) },
			good:     [2]string{`<language id="x" lang="es"><entry id="a" status="s">1</entry><entry id="b">2</entry></language>`, `<?xml version="1.0"?><language id="y" lang="de"><entry id="b">é&amp;</entry></language>`},
			bad:      `<language id="x" lang="es"><entry id="a">1</entry>`,
			sized: func(n int) string {
				const a, z = `<language id="x" lang="es"><entry id="a">`, `</entry><entry id="z">9</entry></language>`
				if n < len(a)+len(z) {
					return ""
				}
				return a + strings.Repeat("v", n-len(a)-len(z)) + z
			},
		})
	}
	for _, tk := range []*tkit{&tkit2, &tkit1} {
		tk := tk
		data := &tdata{t: &tree{kind: 'd', kids: map[string]*tree{"f": scalar("F"), "g": scalar("G")}}}
		r = append(r, &loader{name: tk.name + " template",
			fresh:    func() interface{} { t, _ := tk.from("old {{f}} &&s&&[[s]]sub {{g}}[[]]"); return t },
			loadStr:  tk.load,
			loadFile: tk.loadFile,
			newStr:   tk.from,
			newFile:  tk.fromFile,
			show: func(o interface{}) string {
				_, d := data.build(tk, plainImpl)
				return tk.exec(o, d)
			},
			good: [2]string{"one {{f}} &&s&&[[s]]inner {{g}}[[]]", "<p>{{g}}</p>\r\n%-- c --%\nend"},
			bad:  "text [[s]] never closed",
			sized: func(n int) string {
				var b strings.Builder
				for b.Len() < n {
					b.WriteString("line {{f}} é\n")
				}
				return b.String()[:n]
			},
		})
	}
	return r
}

func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(l)
}

// fileStates prepares the files; content is nil for those that cannot be read.
func fileStates(d string, ld *loader) (names, paths []string, content []*string) {
	add := func(n, p string, c *string) {
		names, paths, content = append(names, n), append(paths, p), append(content, c)
	}
	w := func(n, s string) string {
		p := filepath.Join(d, n)
		if err := os.WriteFile(p, []byte(s), 0600); err != nil {
			panic(err)
		}
		return p
	}
	e := ""
	a := w("good0", ld.good[0])
	add("good file", a, &ld.good[0])
	add("other good file", w("good 1é.txt", ld.good[1]), &ld.good[1])
	add("bad file", w("bad", ld.bad), &ld.bad)
	add("empty file", w("empty", ""), &e)
	add("missing file", filepath.Join(d, "missing"), nil)
	add("directory", d, nil)
	os.Symlink(a, filepath.Join(d, "link"))
	add("link to a good file", filepath.Join(d, "link"), &ld.good[0])
	os.Symlink(filepath.Join(d, "nowhere"), filepath.Join(d, "broken"))
	add("broken link", filepath.Join(d, "broken"), nil)
	os.Symlink(filepath.Join(d, "loop"), filepath.Join(d, "loop"))
	add("link to itself", filepath.Join(d, "loop"), nil)
	add("no name", "", nil)
	add("file used as a directory", filepath.Join(a, "x"), nil)
	add("overlong name", filepath.Join(d, strings.Repeat("n", 300)), nil)
	add("name with a zero byte", d+"/a\x00b", nil)
	return
}

func fileJobs(tier string) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	for _, ld := range loaders() {
		ld := ld
		jobs = append(jobs, fw.Job{Name: ld.name + ": sequences of loads", Run: func(c *fw.Ctx) {
			d, rm := scratch()
			defer rm()
			// a leaked file must not be closed by the garbage collector meanwhile
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
			names, paths, content := fileStates(d, ld)
			for _, p := range paths {
				fw.Try(func() { ld.newFile(p) })
			}
			L := sel(q, 3, 4)
			n := len(paths)
			for _, l := range []int{1, L} {
				h := make([]int, l)
				for {
					if c.Stop() {
						return
					}
					if c.Case(append([]int{l}, h...)...) {
						desc := ld.name
						for _, i := range h {
							desc += "; " + names[i]
						}
						run := func() string { return try(func() string { return fileSeq(ld, h, names, paths, content) }) }
						m := run()
						for i := 0; i < 3 && m != ""; i++ {
							m = run()
						}
						if m != "" {
							c.Fail(desc, "%s", m)
							return
						}
						c.Trace()
						c.Trans(2 * l)
						c.State(desc)
						c.Sample(func() string { return desc })
					}
					i := l - 1
					for ; i >= 0; i-- {
						if h[i]++; h[i] < n {
							break
						}
						h[i] = 0
					}
					if i < 0 {
						break
					}
				}
			}
			// the files are as they were
			for i, p := range paths {
				if content[i] == nil {
					continue
				}
				b, err := os.ReadFile(p)
				if err != nil || string(b) != *content[i] {
					c.Fail(ld.name+"; "+names[i], "the file has changed: %q %v", head80(string(b)), err)
					return
				}
			}
		}})
		jobs = append(jobs, fw.Job{Name: ld.name + ": contents", Run: func(c *fw.Ctx) {
			d, rm := scratch()
			defer rm()
			p := filepath.Join(d, "f")
			parts := []string{ld.good[0], ld.good[1], ld.bad, "\ufeff", "\xff\xfe", "\xfe\xff", "\x00", "\n", "\r\n", "\r", " ", "\t", "\x1a", "\xe9", "é", "\\", "#!x\n", "\x1f\x8b\x08"}
			for n := 1; n <= sel(q, 3, 4); n++ {
				texts(parts, nil, n, func(h []int, s string) bool {
					if c.Stop() {
						return false
					}
					if !c.Case(h...) {
						return true
					}
					if err := os.WriteFile(p, []byte(s), 0600); err != nil {
						panic(err)
					}
					m := try(func() string {
						a, e1 := ld.newStr(s)
						b, e2 := ld.newFile(p)
						if m := sameLoad(ld, a, e1, b, e2); m != "" {
							return m
						}
						a, b = ld.fresh(), ld.fresh()
						e1, e2 = ld.loadStr(a, s), ld.loadFile(b, p)
						return sameLoad(ld, a, e1, b, e2)
					})
					if m != "" {
						c.Fail(fmt.Sprintf("%s, content %q", ld.name, s), "%s", m)
						return false
					}
					c.Trace()
					c.Trans(4)
					c.State(ld.name + s)
					return true
				})
			}
		}})
		jobs = append(jobs, fw.Job{Name: ld.name + ": sizes", Run: func(c *fw.Ctx) {
			d, rm := scratch()
			defer rm()
			p := filepath.Join(d, "f")
			var sizes []int
			for n := 0; n <= sel(q, 1100, 9000); n++ {
				sizes = append(sizes, n)
			}
			for _, b := range []int{2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20} {
				for o := -2; o <= 2; o++ {
					sizes = append(sizes, b+o)
				}
			}
			for _, n := range sizes {
				if c.Stop() {
					return
				}
				if !c.Case(n) {
					continue
				}
				s := ld.sized(n)
				if n > 0 && s == "" {
					continue
				}
				if err := os.WriteFile(p, []byte(s), 0600); err != nil {
					panic(err)
				}
				m := try(func() string {
					a, e1 := ld.newStr(s)
					b, e2 := ld.newFile(p)
					return sameLoad(ld, a, e1, b, e2)
				})
				if m != "" {
					c.Fail(fmt.Sprintf("%s, content of %d bytes", ld.name, n), "%s", m)
					return
				}
				c.Trace()
				c.Trans(2)
				c.State(fmt.Sprint(ld.name, n))
				c.Sample(func() string { return fmt.Sprintf("%s, content of %d bytes", ld.name, n) })
			}
		}})
	}
	return jobs
}

func head80(s string) string {
	if len(s) > 80 {
		return s[:80]
	}
	return s
}

func sameLoad(ld *loader, a interface{}, e1 error, b interface{}, e2 error) string {
	if (e1 == nil) != (e2 == nil) || (a == nil) != (b == nil) {
		return fmt.Sprintf("content gives object %v and error %v, the file object %v and error %v", a != nil, e1, b != nil, e2)
	}
	if a == nil {
		return ""
	}
	if x, y := ld.show(a), ld.show(b); x != y {
		i := 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		return fmt.Sprintf("the file gives a result of %d bytes, its content one of %d bytes, first difference at %d", len(y), len(x), i)
	}
	return ""
}

// fileSeq loads the files one after the other into one object, next to an object loaded with their contents.
func fileSeq(ld *loader, h []int, names, paths []string, content []*string) string {
	before := openFiles()
	o, sh := ld.fresh(), ld.fresh()
	for k, i := range h {
		was := ld.show(o)
		err := ld.loadFile(o, paths[i])
		if content[i] == nil {
			if err == nil {
				return fmt.Sprintf("load %d (%s) gives no error", k, names[i])
			}
			if now := ld.show(o); now != was {
				return fmt.Sprintf("load %d (%s) changed the object from %q to %q", k, names[i], was, now)
			}
		} else {
			werr := ld.loadStr(sh, *content[i])
			if (err == nil) != (werr == nil) {
				return fmt.Sprintf("load %d (%s) gives error %v, its content %v", k, names[i], err, werr)
			}
			if g, w := ld.show(o), ld.show(sh); g != w {
				return fmt.Sprintf("after load %d (%s): %q, loading its content: %q", k, names[i], g, w)
			}
		}
		n, err := ld.newFile(paths[i])
		if content[i] == nil {
			if err == nil || n != nil {
				return fmt.Sprintf("building from %s gives object %v and error %v", names[i], n != nil, err)
			}
		} else {
			w, werr := ld.newStr(*content[i])
			if m := sameLoad(ld, w, werr, n, err); m != "" {
				return fmt.Sprintf("building from %s: %s", names[i], m)
			}
		}
	}
	runtime.KeepAlive(o)
	if after := openFiles(); after > before {
		return fmt.Sprintf("%d files open before, %d after", before, after)
	}
	return ""
}

func init() {
	fw.Register(&fw.Prop{ID: "C29", Jobs: fileJobs,
		Bounds: func(string) string {
			return "6 kinds of objects (text table, XML table, template in both versions) x all sequences of 3 (thorough 4) loads over 13 states of the file system, by method and by constructor; contents of every size to 1100 (thorough 9000) bytes and around powers of two to 1 MiB"
		},
		Assumptions: []string{"the checks run as root: permissions are not explored", "files open are counted in /proc/self/fd with the garbage collector off"}})
}
