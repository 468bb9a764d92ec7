package h

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	x2 "github.com/webability-go/xcore/v2"

	"xcoremc/fw"
	"xcoremc/rt"
)

// ---- trees

func ds(kv ...interface{}) *tree {
	t := &tree{kind: 'd', kids: map[string]*tree{}}
	for i := 0; i < len(kv); i += 2 {
		if v, ok := kv[i+1].(*tree); ok {
			if v != nil {
				t.kids[kv[i].(string)] = v
			}
		} else {
			t.kids[kv[i].(string)] = scalar(kv[i+1])
		}
	}
	return t
}

func col(e ...*tree) *tree { return &tree{kind: 'c', elems: e} }

// dataTrees: all shapes over names a, b up to the depth.
func dataTrees(q bool) []*tree {
	opt := []*tree{nil, scalar(1), scalar(nil)}
	var d1 []*tree
	for _, a := range opt {
		for _, b := range opt {
			d1 = append(d1, ds("a", a, "b", b))
		}
	}
	rep := []*tree{ds(), ds("a", 5), ds("a", 6, "b", nil), ds("b", "x")}
	c1 := []*tree{col()}
	for _, x := range rep {
		c1 = append(c1, col(x))
		for _, y := range rep {
			c1 = append(c1, col(x, y))
		}
	}
	var d2 []*tree
	vals := append(append(append([]*tree{}, opt...), d1...), c1...)
	for _, a := range vals {
		for _, b := range []*tree{nil, scalar("y"), d1[4], c1[7]} {
			d2 = append(d2, ds("a", a, "b", b))
		}
	}
	all := append(append([]*tree{}, d1...), d2...)
	step := sel(q, 3, 1)
	for i := 0; i < len(d2); i += step {
		all = append(all, ds("a", d2[i]), ds("b", col(rep[i%4], d2[i])), ds("a", col(d2[i]), "b", d2[(i*7+3)%len(d2)]))
	}
	return all
}

// ---- C06: paths

func pathJobs(tier string, k *kit) []fw.Job {
	q := tier != "thorough"
	segs := []string{"a", "b", "0", "1", "2", "-1", "x", "", "1x", "0 ", "99999999999999999999"}
	var paths []string
	for n := 1; n <= sel(q, 4, 5); n++ {
		var rec func(p []string)
		rec = func(p []string) {
			if len(p) == n {
				paths = append(paths, strings.Join(p, ">"))
				return
			}
			for _, s := range segs {
				rec(append(p, s))
			}
		}
		rec(nil)
	}
	trees := dataTrees(q)
	var jobs []fw.Job
	const S = 16
	for s := 0; s < S; s++ {
		s := s
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s paths part %d", k.name, s), Run: func(c *fw.Ctx) {
			for ti := s; ti < len(trees); ti += S {
				for impl := 0; impl < 4; impl++ {
					if impl > 0 && impl < 3 && !k.ts || impl == 3 && q && ti/S%3 != 0 {
						continue
					}
					n := 0
					t := trees[ti].copyTree(func() int { n++; return []int{0, 1, n % 2, (n + ti/S/3) % 3}[impl] })
					t.build(k)
					before := Obs(t.obj)
					d := t.obj.(dsI)
					c.State(fmt.Sprint(impl, t))
					if !c.Replaying() {
						c.Sample(func() string { return t.String() })
					}
					for pi, p := range paths {
						if !c.Case(ti, impl, pi) {
							if c.Stop() {
								return
							}
							continue
						}
						want := t.walk(strings.Split(p, ">"))
						m := lookup(k, d, p, want)
						if m == "" && (pi < 1500 || !q) {
							m = convertTree(k, d, p, want)
						}
						if m != "" {
							c.Fail(fmt.Sprintf("%s path %q", t, p), "%s", m)
							return
						}
						c.Trans(4)
						c.Trace()
					}
					if Obs(t.obj) != before {
						c.Fail(t.String(), "lookups changed the data")
						return
					}
				}
			}
		}})
	}
	for s := 0; s < S; s++ {
		s := s
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s paths after changes part %d", k.name, s), Run: func(c *fw.Ctx) {
			for ti := s; ti < len(trees); ti += S * sel(q, 3, 1) {
				for impl := 0; impl < sel(k.ts, 3, 1); impl++ {
					pathsAfter(c, k, trees[ti], ti, impl)
					if c.Stop() || c.Failed() {
						return
					}
				}
			}
		}})
	}
	for p := 0; p < 8; p++ {
		p := p
		jobs = append(jobs, fw.Job{Name: fmt.Sprint(k.name, " unusual names, long collections, deep paths part ", p), Run: func(c *fw.Ctx) { widePaths(c, k, p) }})
	}
	jobs = append(jobs, fw.Job{Name: k.name + " names that look like paths", Run: func(c *fw.Ctx) { literalNames(c, k) }})
	return jobs
}

// pathsAfter looks all short paths up, changes one container anywhere in the tree, and looks all up again.
func pathsAfter(c *fw.Ctx, k *kit, tr *tree, ti, impl int) {
	var paths []string
	segs := []string{"a", "b", "0", "1"}
	for _, x := range segs {
		paths = append(paths, x)
		for _, y := range segs {
			paths = append(paths, x+">"+y)
			for _, z := range segs {
				paths = append(paths, x+">"+y+">"+z)
			}
		}
	}
	paths = append(paths, "a>0>a>a", "b>1>a>a", "b>1>a>0>a", "b>1>b>a", "a>a>0>a", "a>a>1>b", "a>0>a>0>b", "b>1>a>1", "b>a>1>a")
	nodes := func(t *tree) []*tree {
		var r []*tree
		var rec func(*tree)
		rec = func(t *tree) {
			if t.kind != 's' {
				r = append(r, t)
			}
			for _, n := range t.names() {
				rec(t.kids[n])
			}
			for _, e := range t.elems {
				rec(e)
			}
		}
		rec(t)
		return r
	}
	mk := func() *tree {
		n := 0
		t := tr.copyTree(func() int { n++; return []int{0, 1, n % 2}[impl] })
		t.build(k)
		return t
	}
	muts := []string{"set a", "set b nested", "set a list", "del a", "push", "unshift", "pop", "shift"}
	for pos := range nodes(mk()) {
		for m := range muts {
			if !c.Case(ti, impl, pos, m) {
				if c.Stop() {
					return
				}
				continue
			}
			t := mk()
			d := t.obj.(dsI)
			msg := try(func() string {
				for _, p := range paths {
					if e := lookup(k, d, p, t.walk(strings.Split(p, ">"))); e != "" {
						return p + " before: " + e
					}
				}
				x := nodes(t)[pos]
				put := func(name string, v *tree) {
					v = v.copyTree(func() int { return sel(impl == 1, 1, 0) })
					x.obj.(dsI).Set(name, v.build(k))
					x.kids[name] = v
				}
				switch {
				case x.kind == 'd' && m == 0:
					put("a", scalar("changed"))
				case x.kind == 'd' && m == 1:
					put("b", ds("a", "new", "b", col(ds("a", 77))))
				case x.kind == 'd' && m == 2:
					put("a", col(ds("a", "new0"), ds("b", "new1")))
				case x.kind == 'd' && m == 3:
					x.obj.(dsI).Del("a")
					delete(x.kids, "a")
				case x.kind == 'c' && m == 4:
					e := ds("a", "pushed")
					k.push(x.obj.(colI), e.build(k).(dsI))
					x.elems = append(x.elems, e)
				case x.kind == 'c' && m == 5:
					e := ds("b", "first")
					k.unsh(x.obj.(colI), e.build(k).(dsI))
					x.elems = append([]*tree{e}, x.elems...)
				case x.kind == 'c' && m == 6 && len(x.elems) > 0:
					k.pop(x.obj.(colI))
					x.elems = x.elems[:len(x.elems)-1]
				case x.kind == 'c' && m == 7 && len(x.elems) > 0:
					k.shift(x.obj.(colI))
					x.elems = x.elems[1:]
				default:
					return ""
				}
				for _, p := range paths {
					w := t.walk(strings.Split(p, ">"))
					e := lookup(k, d, p, w)
					if e == "" {
						e = convertTree(k, d, p, w)
					}
					if e != "" {
						return p + " after: " + e
					}
				}
				c.State(fmt.Sprint(impl, t))
				return ""
			})
			if msg != "" {
				c.Fail(fmt.Sprintf("%s looked up, then %s in container %d", t, muts[m], pos), "%s", msg)
				return
			}
			c.Trans(8 * len(paths))
			c.Trace()
		}
	}
}

// convertTree compares all typed readers on a path.
func convertTree(k *kit, d dsI, p string, want *tree) string {
	if want == nil {
		return convert(k, d, p, nil, false)
	}
	return convert(k, d, p, want.obj, true)
}

// widePaths: fewer shapes with unusual names, up to 25 elements and ten levels, all typed readers.
func widePaths(c *fw.Ctx, k *kit, part int) {
	type set struct {
		t     *tree
		paths []string
	}
	var sets []set
	// unusual names
	odd := []string{"", "0", "1", "10", "a b", "é", "A", "a", "a.b", "-1", "a=b", "#", ".counter"}
	vals := []interface{}{1, "s", nil, true, 2.5, colTime, []string{"p"}, []int{4}, []bool{true}, []float64{1.5}, []time.Time{colTime}, int8(3), ""}
	in := ds()
	for i, n := range odd {
		in.kids[n] = scalar(vals[i])
	}
	top := ds()
	for i, n := range odd {
		switch i % 3 {
		case 0:
			top.kids[n] = in
		case 1:
			top.kids[n] = col(in, ds("a", 1), in)
		default:
			top.kids[n] = scalar(vals[i])
		}
	}
	s := set{t: top}
	for _, a := range odd {
		s.paths = append(s.paths, a)
		for _, b := range odd {
			s.paths = append(s.paths, a+">"+b)
			for _, e := range odd {
				s.paths = append(s.paths, a+">"+b+">"+e)
			}
		}
	}
	sets = append(sets, s)
	// what is no position, and long names
	long := strings.Repeat("name", 40)
	s = set{t: ds("c", col(ds("v", 5), ds("v", "y")), long, ds(long, "z", "c", col(ds(long, 8)))), paths: []string{long, long + ">" + long, long + ">" + long + "x", long + ">c>0>" + long, long + ">c>0>" + long + ">v", long + "x", long[1:]}}
	for _, n := range []string{"0x0", "0x1", "0b1", "0o1", "1.0", "0.0", "0.5", "1e0", "0e0", "1_0", "0_1", "１", "٠", "a", "#0", "0#", "[0]", "0,1", "0.", ".0", "0 1", "1000", "1001", "100000", "4294967296", "4294967297", "-4294967295", "18446744073709551616", "18446744073709551617", "first", "last", "*", "len", "--1", "NaN", "Inf", "true"} {
		s.paths = append(s.paths, "c>"+n, "c>"+n+">v", long+">c>"+n, long+">c>"+n+">"+long)
	}
	sets = append(sets, s)
	// values that have parts but are no datasets
	raw := map[string]interface{}{"a": 1, "0": 2, "b": map[string]interface{}{"a": 3}}
	s = set{t: ds()}
	for i, v := range []interface{}{raw, map[string]string{"a": "x"}, map[interface{}]interface{}{"a": 1}, []string{"x", "y"}, []interface{}{1, raw}, []map[string]interface{}{raw, raw}, []int{1}, [2]int{1, 2}, struct{ A, B int }{1, 2}, &struct{ A, a int }{1, 2}, x2.XDataset{"a": 1}, x2.XDatasetCollection{&x2.XDataset{"a": 1}}, "text", "a>b", `{"a":1}`} {
		n := fmt.Sprint("p", i)
		s.t.kids[n] = scalar(v)
		for _, p := range []string{"", "a", "A", "0", "1", "-1", "a>a", "b>a", "0>a", "1>a", "0>b>a", "len", "x", "0>0"} {
			s.paths = append(s.paths, n, n+">"+p)
		}
	}
	s.t = ds("o", s.t, "l", col(s.t))
	for _, k := range []string{"o>", "l>0>"} {
		for _, p := range s.paths {
			if !strings.HasPrefix(p, "o>") && !strings.HasPrefix(p, "l>") {
				s.paths = append(s.paths, k+p)
			}
		}
	}
	sets = append(sets, s)
	// very long collections
	for _, n := range []int{1000, 1025, 2100, 66000} {
		l := col()
		for i := 0; i < n; i++ {
			l.elems = append(l.elems, ds("v", i))
		}
		s := set{t: ds("c", l)}
		for i := 0; i <= n+1; i++ {
			if n < 10000 && (i%97 == 0 || i%100 < 2 || i%128 < 2) || i&(i-1) == 0 || i&(i+1) == 0 || i > n-3 {
				s.paths = append(s.paths, fmt.Sprintf("c>%d", i), fmt.Sprintf("c>%d>v", i))
			}
		}
		sets = append(sets, s)
	}
	// long collections
	for _, n := range []int{9, 10, 11, 12, 25} {
		l := col()
		for i := 0; i < n; i++ {
			l.elems = append(l.elems, ds("v", vals[i%len(vals)], "i", i, "c", col(ds("v", i), ds("v", "x"))))
		}
		s := set{t: ds("c", l, "v", "top")}
		for i := -2; i <= n+1; i++ {
			p := fmt.Sprintf("c>%d", i)
			s.paths = append(s.paths, p, p+">v", p+">i", p+">c", p+">c>0>v", p+">c>1>v", p+">c>2", p+">c>1>v>0")
		}
		sets = append(sets, s)
	}
	// deep: every prefix, and every wrong segment at every level
	for v := 0; v < 12; v++ {
		kind, levels := v%3, []int{24, 40, 70, 140}[v/3]
		var segs []string
		leaf := ds("v", "leaf", "w", 5)
		t := leaf
		for i := 0; i < levels; i++ {
			if kind == 1 || kind == 2 && i%2 == 0 {
				t = ds("c", col(ds("v", "other"), t), "v", i)
				segs = append([]string{"c", "1"}, segs...)
			} else {
				t = ds("n", t, "v", i)
				segs = append([]string{"n"}, segs...)
			}
		}
		s := set{t: t}
		for l := 0; l <= len(segs); l++ {
			if levels > 24 && l%9 > 1 && l < len(segs)-2 {
				continue
			}
			for _, last := range []string{"v", "w", "zz", "0", "1", "n", "c", ""} {
				good := append(append([]string{}, segs[:l]...), last)
				s.paths = append(s.paths, strings.Join(good, ">"), strings.Join(append(good, segs[min(l+1, len(segs)):]...), ">"))
			}
		}
		sets = append(sets, s)
	}
	for si, s := range sets {
		for impl := 0; impl < 3; impl++ {
			if (si*3+impl)%8 != part || impl > 0 && !k.ts {
				continue
			}
			n := 0
			t := s.t.copyTree(func() int { n++; return []int{0, 1, n % 2}[impl] })
			d := t.build(k).(dsI)
			before := Obs(d)
			for pi, p := range s.paths {
				if !c.Case(si, impl, pi) {
					if c.Stop() {
						return
					}
					continue
				}
				want := t.walk(strings.Split(p, ">"))
				m := lookup(k, d, p, want)
				if m == "" {
					m = convertTree(k, d, p, want)
				}
				if m != "" {
					c.Fail(fmt.Sprintf("%s path %q", t, p), "%s", m)
					return
				}
				c.State(fmt.Sprint(si, impl, p))
				c.Trans(16)
				c.Trace()
			}
			if !c.Replaying() && Obs(d) != before {
				c.Fail(t.String(), "lookups changed the data")
				return
			}
		}
	}
}

func same(a, b interface{}) bool {
	defer func() { recover() }()
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Ptr, reflect.Func, reflect.Map, reflect.Chan:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Len() == vb.Len() && (va.Len() == 0 || va.Pointer() == vb.Pointer())
	case reflect.Float32, reflect.Float64:
		x, y := va.Float(), vb.Float()
		return x == y || (math.IsNaN(x) && math.IsNaN(y))
	}
	return reflect.DeepEqual(a, b)
}

func lookup(k *kit, d dsI, p string, want *tree) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	v, ok := d.Get(p)
	if ok != (want != nil) || (want != nil && !same(v, want.obj)) || (want == nil && norm(v) != nil) {
		return fmt.Sprintf("Get gives (%v,%v), expected %v", v, ok, want)
	}
	s, ok := d.GetString(p)
	ws := ""
	if want != nil && want.obj != nil {
		ws = fmt.Sprint(want.obj)
	}
	if ok != (want != nil) || s != ws {
		return fmt.Sprintf("GetString gives (%q,%v), expected %q %v", s, ok, ws, want != nil)
	}
	v, ok = k.dsOf(d, p)
	if wd := want != nil && want.kind == 'd'; ok != wd || (wd && !same(v, want.obj)) || (!wd && norm(v) != nil) {
		return fmt.Sprintf("GetDataset gives (%v,%v), expected %v", v, ok, want)
	}
	v, ok = k.colOf(d, p)
	if wc := want != nil && want.kind == 'c'; ok != wc || (wc && !same(v, want.obj)) || (!wc && norm(v) != nil) {
		return fmt.Sprintf("GetCollection gives (%v,%v), expected %v", v, ok, want)
	}
	return ""
}

// ---- C07: conversions

type named int
type plainStruct struct{ X, Y int }
type strer struct{ s string }

func (s strer) String() string { return "<" + s.s + ">" }

type pstrer struct{ s string }

func (s *pstrer) String() string { return "p" + s.s } // a nil pointer prints as <nil>

type errStrer struct{ s string }

func (s errStrer) Error() string  { return "error " + s.s }
func (s errStrer) String() string { return "text " + s.s }

type goStrer struct{ s string }

func (s goStrer) GoString() string { return "go " + s.s }

type namedFloat float64
type namedBool bool
type namedText string

func convValues() []interface{} {
	t := time.Date(2021, 5, 6, 7, 8, 9, 123, time.UTC)
	loc := time.FixedZone("z", 3600)
	pi, ps, pb, pf := 5, "s", false, 1.5
	return []interface{}{
		&t, &pi, &ps, &pb, &pf, (*time.Time)(nil), "2021-05-06T07:08:09Z", "2021-05-06 07:08:09", "2021-05-06", "1620284889", "1h5m", "[1 2]", "{\"a\":1}", "a,b", json.Number("5"), json.Number("x"), []*int{&pi}, [2]int{1, 2}, [1]string{"a"}, []int32{1}, []error{}, []time.Duration{1},
		nil, true, false,
		0, 1, -1, 42, math.MaxInt64, math.MinInt64,
		int8(0), int8(1), int8(-128), int8(127), int16(0), int16(-32768), int16(300), int32(0), int32(-70000), int32(math.MaxInt32), int64(0), int64(-5), int64(1 << 40), int64(math.MaxInt64),
		uint(0), uint(7), uint(1 << 40), uint8(0), uint8(200), uint8(255), uint16(0), uint16(40000), uint32(0), uint32(math.MaxUint32), uint64(0), uint64(9), uint64(1 << 60), uint64(1 << 63), uint64(math.MaxUint64), uint(1 << 63), uint(math.MaxUint64), uint64(1<<63 - 1),
		uint8(1), uint16(1), uint32(1), int8(-1), int16(-1), int32(-1), int16(32767), uint16(65535), int32(math.MinInt32), int64(math.MinInt64), int64(1), -0.999, 0.5, -1e15, 4503599627370496.5, float32(16777216), float32(0.1), float32(0), float32(0.5), float32(-0.5), float32(1.5), float32(-2.75), float32(1e6), float64(0), 0.25, -0.25, 0.999, 2.5, -3.99, 123.432, 1e15, math.Copysign(0, -1), math.SmallestNonzeroFloat64,
		math.Nextafter(3, 0), math.Nextafter(-3, 0), math.Nextafter(1, 0), math.Nextafter(-1, 0), math.Nextafter(3, 4), 2.9999999999, -2.9999999999, 0.1 + 0.2, 1e-300, 9007199254740991.0, -9007199254740991.0, 1e18, -1e18, math.Nextafter32(3, 0), float32(-2.9999998), float32(16777217), float32(1e-40), 1.0000000000000002, 999999.9999999999, int64(1<<53 + 1), int64(-1<<53 - 1), uint64(1<<53 + 1), int64(1 << 31), int64(-1<<31 - 1), uint32(1 << 31), 1 << 31, -1<<31 - 1,
		"", "x", "0", "false", "true", "12", "1.5", " ", "<nil>", "é>b", "nil", "T", "F", "no", "off", "-1", "0x10", "1e3", "\n", "\xff", "%d", strings.Repeat("w", 3000),
		time.Time{}, t, t.In(loc), time.Unix(-7, 600000000), time.Unix(1<<33, 999999999), time.Date(2262, 1, 1, 0, 0, 0, 0, loc), time.Time{}.Add(1), time.Unix(0, 0), time.Unix(-5, 0), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1, 1, 1, 1, 0, 0, 0, loc), time.Time{}.In(loc),
		[]string{"a", "b"}, []string{}, []bool{true, false}, []bool{}, []int{3, 4}, []int{}, []float64{1.5}, []float64{}, []time.Time{t}, []time.Time{}, []interface{}{1, "a"}, []int64{1}, []float32{1}, []byte("ab"),
		(*pstrer)(nil), &pstrer{"q"}, errStrer{"q"}, goStrer{"q"}, fmt.Errorf("failed %d", 3), (*plainStruct)(nil), []byte{}, []byte(nil), []byte("a\x00"), []strer{{"q"}}, []rune("ab"), [2]byte{1, 2},
		time.Duration(0), time.Second, 90 * time.Minute, time.March, time.Monday, namedFloat(0), namedFloat(2.5), namedBool(false), namedBool(true), namedText(""), namedText("x"),
		math.NaN(), math.Inf(1), math.Inf(-1), float32(math.NaN()), float32(math.Inf(1)), 1e19, -1e300,
		named(0), named(3), plainStruct{1, 2}, &plainStruct{3, 4}, strer{"q"}, complex(1, 2), map[string]int{"a": 1}, 'r', [2]int{1, 2},
	}
}

// longValues: long texts and lists.
func longValues() (r []interface{}) {
	for _, n := range []int{17, 33, 65, 101, 129, 257, 1001, 1025, 4097, 65537, 140000} {
		ss, is, fs, bs, ts := make([]string, n), make([]int, n), make([]float64, n), make([]bool, n), make([]time.Time, n)
		for i := range ss {
			ss[i], is[i], fs[i], bs[i], ts[i] = fmt.Sprint("s", i), i, float64(i)+0.5, i%3 == 0, time.Unix(int64(i), 0)
		}
		r = append(r, strings.Repeat("y", n))
		if n < 5000 {
			r = append(r, ss, is, fs, bs, ts)
		}
	}
	return
}

func convJobs(tier string, k *kit) []fw.Job {
	return []fw.Job{{Name: k.name + " conversions", Run: func(c *fw.Ctx) {
		vals := append(convValues(), longValues()...)
		nested := []*tree{ds(), ds("a", 1), col(), col(ds("a", 1))}
		for impl := 0; impl < 2; impl++ {
			if impl == 1 && !k.ts {
				continue
			}
			all := append([]interface{}{}, vals...)
			for _, n := range nested {
				for ni := 0; ni < 2; ni++ {
					if ni == 1 && !k.ts {
						continue
					}
					ni := ni
					all = append(all, n.copyTree(func() int { return ni }).build(k))
				}
			}
			for vi, v := range all {
				for place := 0; place < 6; place++ { // top level, nested, absent, in a collection, absent there, deeper
					if !c.Case(impl, vi, place) {
						continue
					}
					d := k.newDS(impl)
					d.Set("o", 77)
					key := "v"
					present := true
					switch place {
					case 0:
						d.Set("v", v)
					case 1:
						in := k.newDS(1 - impl)
						in.Set("v", v)
						d.Set("n", in)
						key = "n>v"
					case 2:
						d.Set("w", v)
						present = false
					case 3, 4:
						in := k.newDS(1 - impl)
						in.Set("v", v)
						l := k.newCol(impl)
						k.push(l, k.newDS(0))
						k.push(l, in)
						d.Set("l", l)
						key = "l>1>v"
						if place == 4 {
							key, present = "l>0>v", false
						}
					case 5:
						in, mid := k.newDS(impl), k.newDS(1-impl)
						in.Set("v", v)
						mid.Set("n", in)
						d.Set("n", mid)
						key = "n>n>v"
					}
					before := Obs(d)
					desc := fmt.Sprintf("%s %T(%.3000s) place %d", k.name, v, fmt.Sprintf("%#v", v), place)
					if m := convert(k, d, key, v, present); m != "" {
						c.Fail(desc, "%s", m)
						return
					}
					if Obs(d) != before {
						c.Fail(desc, "reading changed the data")
						return
					}
					c.State(desc)
					c.Trace()
					c.Trans(12)
					c.Outcome(before)
					c.Sample(func() string { return desc })
				}
			}
		}
	}}}
}

func convert(k *kit, d dsI, key string, v interface{}, present bool) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	v1 := k.name == "v1"
	chk := func(what string, got interface{}, gok bool, want interface{}, wok bool) {
		if !present {
			wok = false
			want = reflect.Zero(reflect.TypeOf(got)).Interface()
		}
		if msg == "" && (gok != wok || !same(got, want)) {
			msg = fmt.Sprintf("%s gives (%#v,%v), expected (%#v,%v)", what, got, gok, want, wok)
		}
	}
	g, ok := d.Get(key)
	if ok != present || (present && !same(g, v) && !reflect.DeepEqual(g, v)) || (!present && g != nil) {
		return fmt.Sprintf("Get gives (%#v,%v)", g, ok)
	}
	// text
	ws := ""
	if v != nil {
		ws = fmt.Sprint(v)
	}
	s, ok := d.GetString(key)
	chk("GetString", s, ok, ws, true)
	// numbers by kind, the exact built-in types only
	rv := reflect.ValueOf(v)
	builtin := v != nil && rv.Type().PkgPath() == ""
	isTime := false
	var tm time.Time
	if t, ok := v.(time.Time); ok {
		isTime, tm = true, t
	}
	wb, wbok := v != nil, true
	wi, wiok := 0, false
	wf, wfok := 0.0, false
	if v1 && v == nil {
		wbok = false
	}
	switch {
	case isTime && !v1:
		zero := tm.Equal(time.Time{})
		wb = !zero
		wiok, wfok = true, true
		if !zero {
			wi = int(tm.Unix())
			wf = float64(tm.Unix())
		}
	case builtin:
		switch rv.Kind() {
		case reflect.Bool:
			wb = rv.Bool()
			wi, wiok = boolInt(wb), true
			wf, wfok = float64(boolInt(wb)), true
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			wb = rv.Int() != 0
			wi, wiok = int(rv.Int()), true
			wf, wfok = float64(rv.Int()), true
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			wb = rv.Uint() != 0
			wi, wiok = int(rv.Uint()), true
			wf, wfok = float64(rv.Uint()), true
		case reflect.Float32, reflect.Float64:
			wb = rv.Float() != 0
			wi, wiok = int(math.Trunc(rv.Float())), true
			wf, wfok = rv.Float(), true
		}
	}
	b, ok := d.GetBool(key)
	chk("GetBool", b, ok, wb, wbok)
	i, ok := d.GetInt(key)
	if !outOfInt(v) { // beyond, the int is not specified
		chk("GetInt", i, ok, wi, wiok)
	}
	f, ok := d.GetFloat(key)
	chk("GetFloat", f, ok, wf, wfok)
	t, ok := d.GetTime(key)
	chk("GetTime", t, ok, tm, isTime)
	ss, ok := d.GetStringCollection(key)
	w1, k1 := v.([]string)
	chk("GetStringCollection", ss, ok, w1, k1)
	bs, ok := d.GetBoolCollection(key)
	w2, k2 := v.([]bool)
	chk("GetBoolCollection", bs, ok, w2, k2)
	is, ok := d.GetIntCollection(key)
	w3, k3 := v.([]int)
	chk("GetIntCollection", is, ok, w3, k3)
	fs, ok := d.GetFloatCollection(key)
	w4, k4 := v.([]float64)
	chk("GetFloatCollection", fs, ok, w4, k4)
	ts, ok := d.GetTimeCollection(key)
	w5, k5 := v.([]time.Time)
	chk("GetTimeCollection", ts, ok, w5, k5)
	_, isDS := v.(dsI)
	x, ok := k.dsOf(d, key)
	if want := isDS && present; ok != want || (want && !same(x, v)) || (!want && norm(x) != nil) {
		return fmt.Sprintf("GetDataset gives (%v,%v)", x, ok)
	}
	_, isC := v.(colI)
	x, ok = k.colOf(d, key)
	if want := isC && present; ok != want || (want && !same(x, v)) || (!want && norm(x) != nil) {
		return fmt.Sprintf("GetCollection gives (%v,%v)", x, ok)
	}
	return msg
}

// outOfInt: numbers that no int can hold.
func outOfInt(v interface{}) bool {
	switch n := v.(type) {
	case uint:
		return uint64(n) > math.MaxInt64
	case uint64:
		return n > math.MaxInt64
	case float32:
		return !(math.Abs(float64(n)) < 9.2e18)
	case float64:
		return !(math.Abs(n) < 9.2e18)
	}
	return false
}

// ---- C08: map behaviour

type mapInst struct {
	k    *kit
	d    dsI
	m    map[string]interface{}
	kind int
	keys []string
	vals []interface{}

	under *x2.XDataset // what is wrapped
}

// alphabets of keys and of values
var mapKeySets = [][]string{
	{"a", "b", "a.b"},
	{"a", "A", " a", ""},
	{"0", "é", "a\nb", "-1"},
	{"nil", "%v", "a:b", "a b"},
}

func mapValSets(k *kit) [][]interface{} {
	n := 5
	d, cl := k.newDS(0), k.newCol(0)
	d.Set("in", 1)
	k.push(cl, d)
	r := [][]interface{}{
		{1, "x", nil, []int{1, 2}},
		{d, cl, true, colTime},
		{&n, map[string]int{"k": 1}, 2.5, ""},
		{"%s", "a:b", "\x00é", uint8(3)},
	}
	if k.ts {
		r = append(r, []interface{}{k.newDS(1), k.newCol(1), struct{ A, B int }{1, 2}, time.Second})
	}
	return r
}

func mapOpNames(keys []string, vals []interface{}) []string {
	var n []string
	for _, k := range keys {
		for v := range vals {
			n = append(n, fmt.Sprintf("Set(%q,%T %d)", k, vals[v], v))
		}
		n = append(n, fmt.Sprintf("Del(%q)", k))
	}
	return append(n, "Del(none)")
}

func newMapInst(k *kit, kind int, keys []string, vals []interface{}) Inst {
	i := &mapInst{k: k, m: map[string]interface{}{}, kind: kind, keys: keys, vals: vals}
	switch kind {
	case 0:
		i.d = k.newDS(0)
	case 1:
		i.d = k.newDS(1)
	case 2:
		i.d = &x2.XDatasetTS{}
		i.d.Set("b", 1)
		i.m["b"] = 1
	case 3:
		i.under = &x2.XDataset{}
		i.d = x2.NewXDatasetTS(x2.NewXDatasetTS(i.under))
	case 4: // wraps filled data
		i.under = &x2.XDataset{"a": "old", "b": 2}
		i.d = x2.NewXDatasetTS(i.under)
		i.m["a"], i.m["b"] = "old", 2
	case 5: // wraps data of a kind of the program's own
		i.under = &x2.XDataset{"b": 2}
		i.d = x2.NewXDatasetTS(&ownDS2{i.under})
		i.m["b"] = 2
	}
	return i
}

func (i *mapInst) Key() string {
	return fmt.Sprintf("%#v", i.m) + DumpAbs(i.d)
}

func (i *mapInst) Apply(op int) (string, string) {
	nv := len(i.vals) + 1
	if op == nv*len(i.keys) {
		i.d.Del("none")
	} else {
		k, v := i.keys[op/nv], op%nv
		if v == nv-1 {
			i.d.Del(k)
			delete(i.m, k)
		} else {
			i.d.Set(k, i.vals[v])
			i.m[k] = i.vals[v]
		}
	}
	var g, w []string
	for _, k := range append([]string{"none", "", "a", "b"}, i.keys...) {
		v, ok := i.d.Get(k)
		wv, wok := i.m[k]
		g = append(g, fmt.Sprintf("%s=%T %#v,%v", k, v, v, ok))
		w = append(w, fmt.Sprintf("%s=%T %#v,%v", k, wv, wv, wok))
		if wok && !same(v, wv) {
			g = append(g, "not the stored value")
		}
		s, ok := i.d.GetString(k)
		ws := ""
		if wv != nil {
			ws = fmt.Sprint(wv)
		}
		g = append(g, fmt.Sprintf("%q,%v", s, ok))
		w = append(w, fmt.Sprintf("%q,%v", ws, wok))
	}
	// printed forms equal those of a plain dataset with that content
	ref := i.k.newDS(0)
	for k, v := range i.m {
		ref.Set(k, v)
	}
	g = append(g, i.d.String(), i.d.GoString())
	w = append(w, ref.String(), ref.GoString())
	if i.under != nil { // the wrapped data is what is worked on
		g = append(g, i.under.String())
		w = append(w, ref.String())
		for k, v := range i.m {
			if u, ok := i.under.Get(k); !ok || !same(u, v) {
				g = append(g, fmt.Sprintf("%s is %v,%v in the wrapped dataset", k, u, ok))
			}
		}
	}
	return strings.Join(g, " "), strings.Join(w, " ")
}

func mapJobs(tier string, k *kit) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	if k.ts { // version 1 has them with the paths
		jobs = append(jobs, fw.Job{Name: k.name + " names that look like paths", Run: func(c *fw.Ctx) { literalNames(c, k) }})
	}
	for kind := 0; kind < 6; kind++ {
		if kind > 0 && !k.ts {
			continue
		}
		kind := kind
		for ks, keys := range mapKeySets {
			for vs, vals := range mapValSets(k) {
				keys, vals := keys, vals
				ops := mapOpNames(keys, vals)
				mk := func() Inst { return newMapInst(k, kind, keys, vals) }
				tag := fmt.Sprintf("%s map kind %d keys %d values %d", k.name, kind, ks, vs)
				jobs = append(jobs, fw.Job{Name: tag + " bfs", Run: func(c *fw.Ctx) {
					BFS(c, mk, ops, sel(q, 6, 9), 20000)
				}})
				if ks != 0 || vs != 0 {
					jobs = append(jobs, fw.Job{Name: tag + " sequences", Run: func(c *fw.Ctx) {
						Seqs(c, mk, ops, nil, sel(q, 2, 3))
					}})
					continue
				}
				for f := range ops {
					f := f
					jobs = append(jobs, fw.Job{Name: tag + " sequences first " + ops[f], Run: func(c *fw.Ctx) {
						Seqs(c, mk, ops, []int{f}, sel(q, 4, 5))
					}})
				}
			}
		}
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s map kind %d families", k.name, kind), Run: func(c *fw.Ctx) {
			mapFamilies(c, k, kind, sel(q, 48, 200))
		}})
	}
	return jobs
}

// mapFamilies: n keys put in, then d of them taken out in three orders; every key asked after every call.
func mapFamilies(c *fw.Ctx, k *kit, kind, max int) {
	var sizes []int
	for n := 1; n <= max; n += 1 + n/12 {
		sizes = append(sizes, n)
	}
	for _, n := range append(sizes, 65, 130, 257, 501, 1030) {
		for order := 0; order < 4; order++ {
			for step := 1; step <= 3; step++ {
				if !c.Case(n, order, step) {
					if c.Stop() {
						return
					}
					continue
				}
				i := newMapInst(k, kind, nil, nil).(*mapInst)
				at := func(j int) string {
					switch order {
					case 1:
						j = n - 1 - j
					case 2:
						j = j * 7 % 211
					case 3:
						j = j / 2
					}
					return fmt.Sprintf("k%d", j)
				}
				msg := ""
				calls := 0
				see := func(what string) {
					if calls++; n > max && calls%100 != 0 && calls != n {
						return
					}
					for j := -1; j <= n && msg == ""; j++ {
						key := at(j)
						v, ok := i.d.Get(key)
						wv, wok := i.m[key]
						if v != wv || ok != wok {
							msg = fmt.Sprintf("after %s: %s is %v,%v instead of %v,%v", what, key, v, ok, wv, wok)
						}
					}
				}
				for j := 0; j < n && msg == ""; j++ {
					i.d.Set(at(j), j)
					i.m[at(j)] = j
					see("Set " + at(j))
				}
				for j := 0; j < n && msg == ""; j += step {
					i.d.Del(at(j))
					delete(i.m, at(j))
					see("Del " + at(j))
				}
				calls = n - 1
				see("all")
				if msg != "" {
					c.Fail(fmt.Sprintf("%s kind %d: %d keys in order %d, every %d deleted", k.name, kind, n, order, step), "%s", msg)
					return
				}
				c.Trace()
				c.Trans(n + n/step)
				c.State(fmt.Sprint(kind, n, order, step))
				c.Sample(func() string { return fmt.Sprintf("%d keys, order %d, every %d deleted", n, order, step) })
			}
		}
	}
}

// ---- C09: collections

var colTime = time.Date(2022, 2, 2, 2, 2, 2, 0, time.UTC)

type colInst struct {
	k    *kit
	c    colI
	m    []int // indexes of elements
	el   []dsI
	cont []map[string]interface{}
	kind int
}

var colOps = []string{"Push(e0)", "Push(e1)", "Push(e2)", "Push(e3)", "Unshift(e0)", "Unshift(e1)", "Unshift(e2)", "Pop()", "Shift()"}

func newColInst(k *kit, kind int) Inst {
	i := &colInst{k: k, c: k.newCol(kind & 1), kind: kind}
	sub := k.newCol(kind & 1)
	none := k.newCol(kind & 1)
	in := k.newDS(0)
	in.Set("x", 9)
	k.push(sub, in)
	i.cont = []map[string]interface{}{
		{"a": 1, "n": nil, "u": 4, "v": "full", "w": true, "x": sub},
		{"a": "x", "b": true, "s": sub, "u": int64(7), "v": "", "w": 0, "x": none},
		{"b": 2.5, "t": colTime, "a": nil, "s": 5, "u": float32(1.5), "v": false, "w": time.Time{}},
		{},
	}
	for n, c := range i.cont {
		d := k.newDS((kind >> 1 & 1) * (n & 1))
		for _, kk := range []string{"a", "b", "n", "s", "t", "u", "v", "w", "x"} {
			if v, ok := c[kk]; ok {
				d.Set(kk, v)
			}
		}
		i.el = append(i.el, d)
	}
	return i
}

func (i *colInst) Key() string { return fmt.Sprint(i.m) + DumpAbs(i.c) }

func (i *colInst) which(x interface{}) string {
	if x == nil {
		return "nil"
	}
	for n, e := range i.el {
		if x == interface{}(e) {
			return fmt.Sprintf("e%d", n)
		}
	}
	return fmt.Sprintf("? %v", x)
}

func (i *colInst) Apply(op int) (string, string) {
	var g, w []string
	add := func(a, b interface{}) {
		g = append(g, fmt.Sprint(a))
		w = append(w, fmt.Sprint(b))
	}
	switch {
	case op < 4:
		i.k.push(i.c, i.el[op])
		i.m = append(i.m, op)
	case op < 7:
		i.k.unsh(i.c, i.el[op-4])
		i.m = append([]int{op - 4}, i.m...)
	default:
		if len(i.m) == 0 {
			if i.kind&1 == 0 {
				return "", "" // not specified for the plain kind
			}
			if op == 7 {
				add(i.which(i.k.pop(i.c)), "nil")
			} else {
				add(i.which(i.k.shift(i.c)), "nil")
			}
		} else if op == 7 {
			add(i.which(i.k.pop(i.c)), fmt.Sprintf("e%d", i.m[len(i.m)-1]))
			i.m = i.m[: len(i.m)-1 : len(i.m)-1]
		} else {
			add(i.which(i.k.shift(i.c)), fmt.Sprintf("e%d", i.m[0]))
			i.m = append([]int{}, i.m[1:]...)
		}
	}
	add(i.c.Count(), len(i.m))
	for p := -1; p <= len(i.m); p++ {
		x, ok := i.k.at(i.c, p)
		we := "nil"
		wok := p >= 0 && p < len(i.m)
		if wok {
			we = fmt.Sprintf("e%d", i.m[p])
		}
		add(fmt.Sprint(i.which(x), ok), fmt.Sprint(we, wok))
	}
	for _, key := range []string{"a", "b", "n", "s", "t", "u", "v", "w", "x", "zz"} {
		var wv interface{}
		found := false
		for p := len(i.m) - 1; p >= 0 && !found; p-- {
			wv, found = i.cont[i.m[p]][key]
		}
		v, ok := i.c.GetData(key)
		add(fmt.Sprintf("%s %T,%v,%v", key, v, ok, same(v, wv)), fmt.Sprintf("%s %T,%v,%v", key, wv, found, true))
		ws := ""
		if wv != nil {
			ws = fmt.Sprint(wv)
		}
		s, ok := i.c.GetDataString(key)
		add(fmt.Sprintf("%q,%v", s, ok), fmt.Sprintf("%q,%v", ws, found))
		n, ok := i.c.GetDataInt(key)
		wn, wok := wv.(int)
		add(fmt.Sprint(n, ok), fmt.Sprint(wn, wok))
		b, ok := i.c.GetDataBool(key)
		wb, wok := wv.(bool)
		add(fmt.Sprint(b, ok), fmt.Sprint(wb, wok))
		f, ok := i.c.GetDataFloat(key)
		wf, wok := wv.(float64)
		add(fmt.Sprint(f, ok), fmt.Sprint(wf, wok))
		t, ok := i.c.GetDataTime(key)
		wt, wok := wv.(time.Time)
		add(fmt.Sprint(t, ok), fmt.Sprint(wt, wok))
		cc, ok := i.k.colCol(i.c, key)
		wc, wok := wv.(colI)
		add(fmt.Sprint(norm(cc) == interface{}(wc), ok), fmt.Sprint(true, wok))
	}
	// nested path search
	v, ok := i.c.GetData("s>0>x")
	var wv interface{}
	found := false
	for p := len(i.m) - 1; p >= 0; p-- {
		if i.m[p] == 1 {
			wv, found = 9, true
		}
	}
	add(fmt.Sprint(v, ok), fmt.Sprint(wv, found))
	return strings.Join(g, " "), strings.Join(w, " ")
}

func colJobs(tier string, k *kit) []fw.Job {
	q := tier != "thorough"
	var jobs []fw.Job
	for kind := 0; kind < 4; kind++ {
		if kind > 0 && !k.ts {
			continue
		}
		kind := kind
		for f := range colOps {
			for f2 := range colOps {
				f, f2 := f, f2
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s collection kind %d first %s %s", k.name, kind, colOps[f], colOps[f2]), Run: func(c *fw.Ctx) {
					Seqs(c, func() Inst { return newColInst(k, kind) }, colOps, []int{f, f2}, sel(q, 5, 7))
				}})
			}
		}
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s collection kind %d bfs", k.name, kind), Run: func(c *fw.Ctx) {
			BFS(c, func() Inst { return newColInst(k, kind) }, colOps, sel(q, 5, 7), 100000)
		}})
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s collection kind %d families", k.name, kind), Run: func(c *fw.Ctx) {
			colFamilies(c, k, kind, sel(q, 34, 130))
		}})
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s collection kind %d values", k.name, kind), Run: func(c *fw.Ctx) { colValues(c, k, kind) }})
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s collection kind %d unusual keys", k.name, kind), Run: func(c *fw.Ctx) { colKeys(c, k, kind) }})
	}
	return jobs
}

// colValues: every kind of value through the readers of a collection, in the first, middle or last of three elements.
func colValues(c *fw.Ctx, k *kit, kind int) {
	for vi, v := range convValues() {
		for at := 0; at < 3; at++ {
			for over := 0; over < 2; over++ { // an earlier element has the name too
				if !c.Case(vi, at, over) {
					if c.Stop() {
						return
					}
					continue
				}
				desc := fmt.Sprintf("%s kind %d: %T(%.300s) in element %d", k.name, kind, v, fmt.Sprintf("%#v", v), at)
				msg := try(func() string {
					cl := k.newCol(kind & 1)
					for e := 0; e < 3; e++ {
						d := k.newDS(kind >> 1 & 1 * (e & 1))
						d.Set("o", e)
						if e == at {
							d.Set("v", v)
						} else if over == 1 && e < at {
							d.Set("v", "earlier")
						}
						k.push(cl, d)
					}
					var g, w []string
					add := func(what string, got interface{}, gok bool, want interface{}, wok bool) {
						g = append(g, fmt.Sprintf("%s %#v %v %v", what, got, gok, same(got, want)))
						w = append(w, fmt.Sprintf("%s %#v %v true", what, want, wok))
					}
					x, ok := cl.GetData("v")
					if !ok || (!same(x, v) && !reflect.DeepEqual(x, v)) {
						return fmt.Sprintf("GetData gives %#v,%v", x, ok)
					}
					ws := ""
					if v != nil {
						ws = fmt.Sprint(v)
					}
					s, ok := cl.GetDataString("v")
					add("string", s, ok, ws, true)
					n, ok := cl.GetDataInt("v")
					wn, wok := v.(int)
					add("int", n, ok, wn, wok)
					b, ok := cl.GetDataBool("v")
					wb, wok := v.(bool)
					add("bool", b, ok, wb, wok)
					f, ok := cl.GetDataFloat("v")
					wf, wok := v.(float64)
					add("float", f, ok, wf, wok)
					t, ok := cl.GetDataTime("v")
					wt, wok := v.(time.Time)
					add("time", t, ok, wt, wok)
					if a, b := strings.Join(g, "; "), strings.Join(w, "; "); a != b {
						return a + " instead of " + b
					}
					return ""
				})
				if msg != "" {
					c.Fail(desc, "%s", msg)
					return
				}
				c.Trans(6)
				c.Trace()
				c.State(fmt.Sprint(vi, at, over))
				c.Sample(func() string { return desc })
			}
		}
	}
}

// colFamilies: n elements put in (at the end, at the start, alternating, in threes), then all taken out again
// (from the end, from the start, alternating); every position, own key and the common keys asked on the way.
func colFamilies(c *fw.Ctx, k *kit, kind, max int) {
	var sizes []int
	for n := 1; n <= max; n += 1 + n/8 {
		sizes = append(sizes, n)
	}
	for _, n := range append(sizes, 65, 70, 129, 260) {
		for in := 0; in < 4; in++ {
			for out := 0; out < 3; out++ {
				if n > max && in != out && in != 3 {
					continue
				}
				if !c.Case(n, in, out) {
					if c.Stop() {
						return
					}
					continue
				}
				cl := k.newCol(kind & 1)
				var m []int
				el := make([]dsI, n)
				desc := fmt.Sprintf("%s kind %d: %d elements in by %d, out by %d", k.name, kind, n, in, out)
				msg := ""
				see := func() {
					if cl.Count() != len(m) {
						msg = fmt.Sprintf("count %d instead of %d", cl.Count(), len(m))
						return
					}
					where := map[int]int{}
					for p := -len(m) - 2; p <= len(m)+1; p++ {
						x, ok := k.at(cl, p)
						if wok := p >= 0 && p < len(m); ok != wok || ok && x != interface{}(el[m[p]]) {
							msg = fmt.Sprintf("position %d of %d: %v,%v", p, len(m), x, ok)
							return
						} else if wok {
							where[m[p]] = p
						}
					}
					for e := 0; e < n; e++ {
						v, ok := cl.GetData(fmt.Sprintf("own%d", e))
						if _, in := where[e]; ok != in || ok && v != interface{}(e*3) {
							msg = fmt.Sprintf("own key of element %d: %v,%v", e, v, ok)
							return
						}
					}
					// the last element that has the key answers
					for _, key := range []struct {
						name string
						mod  int
					}{{"all", 1}, {"two", 2}, {"five", 5}} {
						var w interface{}
						for p := len(m) - 1; p >= 0; p-- {
							if m[p]%key.mod == 0 {
								w = m[p]
								break
							}
						}
						if v, ok := cl.GetData(key.name); v != w || ok != (w != nil) {
							msg = fmt.Sprintf("key %s: %v,%v instead of %v", key.name, v, ok, w)
							return
						}
					}
				}
				for e := 0; e < n && msg == ""; e++ {
					d := k.newDS(e & 1 * (kind >> 1))
					d.Set(fmt.Sprintf("own%d", e), e*3)
					d.Set("all", e)
					if e%2 == 0 {
						d.Set("two", e)
					}
					if e%5 == 0 {
						d.Set("five", e)
					}
					el[e] = d
					if in == 0 || in == 2 && e%2 == 0 || in == 3 && e%3 != 0 {
						k.push(cl, d)
						m = append(m, e)
					} else {
						k.unsh(cl, d)
						m = append([]int{e}, m...)
					}
					if n < 12 || e%5 == 0 && (n < 50 || e%25 == 0) || e == n-1 {
						see()
					}
				}
				for len(m) > 0 && msg == "" {
					var x interface{}
					e := m[0]
					if out == 0 || out == 2 && len(m)%2 == 0 {
						x, e = k.pop(cl), m[len(m)-1]
						m = m[:len(m)-1]
					} else {
						x = k.shift(cl)
						m = m[1:]
					}
					if x != interface{}(el[e]) {
						msg = fmt.Sprintf("taking out answered %v instead of element %d", x, e)
					} else if n < 12 || len(m)%5 == 0 && (n < 50 || len(m)%25 == 0) {
						see()
					}
				}
				if msg != "" {
					c.Fail(desc, "%s", msg)
					return
				}
				c.Trace()
				c.Trans(2 * n)
				c.State(fmt.Sprint(kind, n, in, out))
				c.Sample(func() string { return desc })
			}
		}
	}
}

// ---- C10: clones

func cloneTrees() []*tree {
	leafD := func(n int) *tree { return ds("v", n, "s", "str") }
	var l1, big []*tree // depth 1 containers
	l1 = append(l1, leafD(1), ds(), col(), col(leafD(2)), col(leafD(3), leafD(4)), ds("", 1, " ", "x", "é", ds("", ds("", 2))))
	for _, n := range []int{9, 18} { // many keys
		var kv []interface{}
		for i, k := range manyNames(n) {
			if i%4 == 3 {
				kv = append(kv, k, ds("V", i, "%v", "%d", "0", "zero", "a.b", true))
			} else {
				kv = append(kv, k, i)
			}
		}
		big = append(big, ds(kv...))
	}
	var l2 []*tree
	for _, x := range l1 {
		l2 = append(l2, ds("v", 7, "n", x))
		for _, y := range l1 {
			l2 = append(l2, ds("n", x, "m", y))
		}
		if x.kind == 'd' {
			l2 = append(l2, col(x, leafD(5)), col(leafD(6), x))
		}
	}
	var l3 []*tree
	for _, x := range l2 {
		l3 = append(l3, ds("v", 8, "n", x))
		if x.kind == 'd' {
			l3 = append(l3, col(x), col(leafD(9), x), ds("m", col(x, leafD(1))))
		}
	}
	// values of other types, and longer collections
	for _, v := range []interface{}{nil, true, false, 2.5, colTime, colTime.In(time.FixedZone("z", 7200)), time.Time{}, time.Unix(5, 7), "", " x ", uint(3), int8(-4), uint8(5), float32(0.5), math.MaxInt64, struct{ A int }{4}, &struct{ A int }{5}, time.Second, []string{"p", "q"}, []string{}, []string(nil), []int{1}, []interface{}{nil, 1}, map[string]interface{}{"k": 1}, map[string]interface{}(nil), fmt.Errorf("e"), 'x', complex(1, 2), named(3)} {
		l1 = append(l1, ds("v", v, "n", ds("v", v, "new", v)), col(ds("s", v), ds("v", v)))
	}
	for _, n := range []int{17, 33, 66} { // long collections
		var e []*tree
		for i := 0; i < n; i++ {
			e = append(e, leafD(i))
		}
		big = append(big, col(e...), ds("n", col(e...)))
	}
	for n := 3; n <= 9; n += 2 {
		var e []*tree
		for i := 0; i < n; i++ {
			e = append(e, leafD(i))
		}
		l1 = append(l1, col(e...), ds("n", col(e...)), ds("n", ds("m", col(col2(e)...))))
	}
	return append(append(append(l1, l2...), l3...), big...)
}

// col2 wraps each element in a dataset of its own.
func col2(e []*tree) (r []*tree) {
	for _, x := range e {
		r = append(r, ds("n", x))
	}
	return
}

var cloneNames = append([]string{"v", "s", "n", "m", "new", "", " ", "é", "a.b", "0", "%v", "V"}, manyNames(18)...)

func manyNames(n int) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf("key%02d", i))
	}
	return
}

// position lists all containers of an object, reached through the interface.
func (k *kit) containers(x interface{}) []interface{} { return k.containersOf(x, cloneNames) }

func (k *kit) containersOf(x interface{}, names []string) []interface{} {
	r := []interface{}{x}
	switch o := x.(type) {
	case dsI:
		for _, n := range names {
			if v, ok := o.Get(n); ok {
				switch v.(type) {
				case dsI, colI:
					r = append(r, k.containersOf(v, names)...)
				}
			}
		}
	case colI:
		for i := 0; i < o.Count(); i++ {
			e, _ := k.at(o, i)
			r = append(r, k.containersOf(e, names)...)
		}
	}
	return r
}

var mutNames = []string{"Set existing", "Set new", "Del", "Set nested away", "Push", "Unshift", "Pop", "Shift"}

func (k *kit) mutate(x interface{}, m int) bool {
	switch o := x.(type) {
	case dsI:
		switch m {
		case 0:
			o.Set("v", 1000)
		case 1:
			o.Set("new", "new")
		case 2:
			o.Del("v")
			o.Del("s")
		case 3:
			o.Set("n", "gone")
			o.Del("m")
		default:
			return false
		}
	case colI:
		e := k.newDS(0)
		e.Set("v", 2000)
		switch m {
		case 4:
			k.push(o, e)
		case 5:
			k.unsh(o, e)
		case 6:
			if o.Count() == 0 {
				return false
			}
			k.pop(o)
		case 7:
			if o.Count() == 0 {
				return false
			}
			k.shift(o)
		default:
			return false
		}
	}
	return true
}

func cloneJobs(tier string, k *kit) []fw.Job {
	q := tier != "thorough"
	trees := cloneTrees()
	var jobs []fw.Job
	const S = 16
	for s := 0; s < S; s++ {
		s := s
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s clones part %d", k.name, s), Run: func(c *fw.Ctx) {
			for ti := s; ti < len(trees); ti += S {
				for turn := 0; turn < 3; turn++ { // kinds of the program's own among the others
					mk := func() interface{} {
						n := turn
						return trees[ti].copyTree(func() int { n++; return n % 3 }).build(k)
					}
					for pos := 0; pos < 2*len(k.containers(mk())); pos++ {
						for m := range mutNames {
							if !c.Case(ti, -1, turn, pos, m) {
								if c.Stop() {
									return
								}
								continue
							}
							if msg := cloneCase(c, k, mk(), pos&1, pos>>1, m); msg != "" {
								c.Fail(fmt.Sprintf("%s, own kinds %d, after cloning: %s at container %d of the %s", trees[ti], turn, mutNames[m], pos>>1, []string{"original", "clone"}[pos&1]), "%s", msg)
								return
							}
						}
					}
				}
				nodes := 0
				trees[ti].copyTree(func() int { nodes++; return 0 })
				masks := 1
				if k.ts {
					masks = 1 << uint(nodes)
					if q && masks > 64 {
						masks = 64
					}
				}
				if k.ts && nodes > 14 {
					masks = 4
				}
				for mask := 0; mask < masks; mask++ {
					bits := mask
					if nodes > 14 {
						bits = []int{0, 0xffff, 0x5555, 0xaaaa}[mask]
					}
					mk := func() interface{} {
						n := 0
						t := trees[ti].copyTree(func() int { n++; return bits >> uint((n-1)%16) & 1 })
						return t.build(k)
					}
					rt.MapDesc = mask&1 == 1
					a := mk()
					nc := len(k.containers(a))
					for side := 0; side < 2; side++ {
						for pos := 0; pos < nc; pos++ {
							for m := range mutNames {
								if !c.Case(ti, mask, side, pos, m) {
									if c.Stop() {
										return
									}
									continue
								}
								if msg := cloneCase(c, k, mk(), side, pos, m); msg != "" {
									c.Fail(fmt.Sprintf("%s kinds %b, after cloning: %s at container %d of the %s", trees[ti], bits, mutNames[m], pos, []string{"original", "clone"}[side]), "%s", msg)
									return
								}
							}
						}
					}
				}
			}
			rt.MapDesc = false
		}})
		// a change on each side, seen from both sides, from a clone of the clone and from a second clone
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s two changes part %d", k.name, s), Run: func(c *fw.Ctx) {
			for ti := s; ti < len(trees); ti += S {
				nodes := 0
				trees[ti].copyTree(func() int { nodes++; return 0 })
				if nodes > sel(q, 5, 7) {
					continue
				}
				for mask := 0; mask < sel(k.ts, 4, 1); mask++ {
					bits := []int{0, 0xffff, 0x5555, 0xaaaa}[mask]
					mk := func() interface{} {
						n := 0
						t := trees[ti].copyTree(func() int { n++; return bits >> uint((n-1)%16) & 1 })
						return t.build(k)
					}
					nc := len(k.containers(mk()))
					for x := 0; x < nc*nc*len(mutNames)*len(mutNames); x++ {
						p1, p2 := x%nc, x/nc%nc
						m1, m2 := x/nc/nc%len(mutNames), x/nc/nc/len(mutNames)
						if !c.Case(ti, mask, x) {
							if c.Stop() {
								return
							}
							continue
						}
						if msg := cloneTwice(c, k, mk, p1, m1, p2, m2); msg != "" {
							c.Fail(fmt.Sprintf("%s kinds %b, after cloning: %s at container %d of the original, %s at container %d of the clone", trees[ti], bits, mutNames[m1], p1, mutNames[m2], p2), "%s", msg)
							return
						}
					}
				}
			}
		}})
	}
	return append(jobs, bigCloneJobs(k)...)
}

func cloneTwice(c *fw.Ctx, k *kit, mk func() interface{}, p1, m1, p2, m2 int) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	// what each side has to look like, from objects that never were cloned
	wa, wb := mk(), mk()
	start := k.content(wa, cloneNames)
	if !k.mutate(k.containers(wa)[p1], m1) || !k.mutate(k.containers(wb)[p2], m2) {
		return ""
	}
	a := mk()
	b := k.clone(a)
	cc := k.clone(b)
	k.mutate(k.containers(a)[p1], m1)
	b2 := k.clone(a)
	k.mutate(k.containers(b)[p2], m2)
	c2 := k.clone(b)
	for _, x := range []struct {
		what string
		o    interface{}
		want string
	}{
		{"the original", a, k.content(wa, cloneNames)},
		{"the clone", b, k.content(wb, cloneNames)},
		{"the clone of the clone", cc, start},
		{"a second clone", b2, k.content(wa, cloneNames)},
		{"a clone of the changed clone", c2, k.content(wb, cloneNames)},
	} {
		if g := k.content(x.o, cloneNames); g != x.want {
			return x.what + " is " + g + " instead of " + x.want
		}
	}
	c.Trans(2)
	c.Trace()
	c.State(start + fmt.Sprint(p1, m1, p2, m2))
	c.Sample(func() string { return start })
	return ""
}

func cloneCase(c *fw.Ctx, k *kit, orig interface{}, side, pos, m int) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	before := k.content(orig, cloneNames)
	cl := k.clone(orig)
	if g := k.content(orig, cloneNames); g != before {
		return "cloning changed the original to " + g
	}
	if g := k.content(cl, cloneNames); g != before {
		return "the clone differs: " + g + " instead of " + before
	}
	ca, cb := k.containers(orig), k.containers(cl)
	if len(ca) != len(cb) {
		return "different number of containers"
	}
	for _, x := range ca {
		for _, y := range cb {
			if x == y {
				return fmt.Sprintf("container %v is shared", x)
			}
		}
	}
	target, other := ca, cl
	if side == 1 {
		target, other = cb, orig
	}
	if !k.mutate(target[pos], m) {
		return ""
	}
	if g := k.content(other, cloneNames); g != before {
		return "the other side changed to " + g
	}
	c.Trans(2)
	c.Trace()
	c.State(before + fmt.Sprint(side, pos, m))
	c.Sample(func() string { return before })
	return ""
}

// ---- C13: construction and printing

type srcVal struct {
	mk   func() interface{}
	want *tree
	name string
}

func srcVals(depth int) []srcVal {
	v := []srcVal{
		{func() interface{} { return 1 }, scalar(1), "1"},
		{func() interface{} { return "s" }, scalar("s"), `"s"`},
		{func() interface{} { return nil }, scalar(nil), "nil"},
		{func() interface{} { return []string{"p", "q"} }, scalar([]string{"p", "q"}), "[]string"},
		{func() interface{} { return []interface{}{} }, col(), "[]any{}"},
		{func() interface{} { return []interface{}{1, "x"} }, col(), "[]any{1,x}"},
		{func() interface{} { return []map[string]interface{}{} }, col(), "[]map{}"},
		{func() interface{} { return map[string]interface{}{} }, ds(), "map{}"},
		{func() interface{} { return map[string]interface{}(nil) }, ds(), "map nil"},
		{func() interface{} { return []interface{}(nil) }, col(), "[]any nil"},
		{func() interface{} { return []map[string]interface{}(nil) }, col(), "[]map nil"},
		{func() interface{} { return []interface{}{map[string]interface{}(nil), 1, map[string]interface{}{}} }, col(ds(), ds()), "[]any{map nil,1,map{}}"},
	}
	if depth == 0 {
		return v
	}
	sub := srcMaps(depth - 1)
	v = append(v, srcVal{func() interface{} { return []map[string]interface{}{{"z": 1}, {}, nil, {"z": 2}} }, col(ds("z", 1), ds(), ds(), ds("z", 2)), "[]map{{z:1},{},nil,{z:2}}"})
	for _, m := range sub {
		m := m
		v = append(v, srcVal{func() interface{} { return m.mk() }, m.want, m.name},
			srcVal{func() interface{} { return []interface{}{m.mk(), 7, m.mk()} }, col(m.want, m.want), "[]any{" + m.name + ",7,same}"},
			srcVal{func() interface{} { return []interface{}{nil, "x", m.mk()} }, col(m.want), "[]any{nil,x," + m.name + "}"},
			srcVal{func() interface{} { return []map[string]interface{}{m.mk().(map[string]interface{})} }, col(m.want), "[]map{" + m.name + "}"},
			srcVal{func() interface{} { return []map[string]interface{}{m.mk().(map[string]interface{}), {"z": 1}} }, col(m.want, ds("z", 1)), "[]map{" + m.name + ",{z:1}}"})
	}
	return v
}

func srcMaps(depth int) []srcVal {
	r := []srcVal{{func() interface{} { return map[string]interface{}{} }, ds(), "{}"}}
	vals := srcVals(depth)
	for i, a := range vals {
		a := a
		b := vals[(i*5+1)%len(vals)]
		r = append(r, srcVal{func() interface{} { return map[string]interface{}{"a": a.mk()} }, ds("a", a.want), "{a:" + a.name + "}"},
			srcVal{func() interface{} { return map[string]interface{}{"b": b.mk(), "a": a.mk()} }, ds("a", a.want, "b", b.want), "{a:" + a.name + " b:" + b.name + "}"})
	}
	return r
}

// matches compares a built object with the abstract content.
func matches(k *kit, x interface{}, t *tree, universe []string) string {
	switch t.kind {
	case 's':
		if !reflect.DeepEqual(x, t.val) {
			return fmt.Sprintf("%#v instead of %#v", x, t.val)
		}
	case 'd':
		d, ok := x.(dsI)
		if !ok {
			return fmt.Sprintf("%T instead of a dataset", x)
		}
		for _, n := range universe {
			v, ok := d.Get(n)
			w := t.kids[n]
			if ok != (w != nil) {
				return fmt.Sprintf("key %s present: %v", n, ok)
			}
			if w != nil {
				if m := matches(k, v, w, universe); m != "" {
					return n + ": " + m
				}
			}
		}
	case 'c':
		c, ok := x.(colI)
		if !ok {
			return fmt.Sprintf("%T instead of a collection", x)
		}
		if c.Count() != len(t.elems) {
			return fmt.Sprintf("%d elements instead of %d", c.Count(), len(t.elems))
		}
		for i, e := range t.elems {
			v, _ := k.at(c, i)
			if m := matches(k, v, e, universe); m != "" {
				return fmt.Sprintf("%d: %s", i, m)
			}
		}
	}
	return ""
}

func buildJobs(tier string) []fw.Job {
	q := tier != "thorough"
	k := &kit2
	univ := []string{"a", "b", "z"}
	var jobs []fw.Job
	const S = 8
	for s := 0; s < S; s++ {
		s := s
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("build part %d", s), Run: func(c *fw.Ctx) {
			src := srcMaps(sel(q, 2, 3))
			for i := s; i < len(src); i += S {
				for _, desc := range []bool{false, true} {
					for list := 0; list < 2; list++ {
						if !c.Case(i, boolInt(desc), list) {
							if c.Stop() {
								return
							}
							continue
						}
						rt.MapDesc = desc
						m := src[i].mk().(map[string]interface{})
						before := Obs(m)
						want := src[i].want
						var x interface{}
						p := fw.Try(func() {
							if list == 0 {
								x = x2.NewXDataset(m)
							} else {
								x = x2.NewXDatasetCollection([]map[string]interface{}{m, {"z": 3}, m})
								want = col(src[i].want, ds("z", 3), src[i].want)
							}
						})
						msg := p
						if msg == "" {
							msg = matches(k, x, want, univ)
						}
						if msg == "" && Obs(m) != before {
							msg = "the source was changed"
						}
						rt.MapDesc = false
						if msg != "" {
							c.Fail(src[i].name, "%s", msg)
							return
						}
						c.Trans(1)
						c.Trace()
						c.State(src[i].name + fmt.Sprint(list))
						c.Sample(func() string { return src[i].name })
					}
				}
			}
			rt.MapDesc = false
		}})
	}
	jobs = append(jobs, fw.Job{Name: "build pairs of values", Run: func(c *fw.Ctx) {
		vals := srcVals(sel(q, 1, 2))
		for i, a := range vals {
			for j, b := range vals {
				if q && (i > 120 || j > 120) {
					continue
				}
				if !c.Case(i, j) {
					if c.Stop() {
						return
					}
					continue
				}
				m := map[string]interface{}{"a": a.mk(), "b": b.mk()}
				before := Obs(m)
				msg := try(func() string { return matches(k, x2.NewXDataset(m), ds("a", a.want, "b", b.want), univ) })
				if msg == "" && Obs(m) != before {
					msg = "the source was changed"
				}
				if msg != "" {
					c.Fail("{a:"+a.name+" b:"+b.name+"}", "%s", msg)
					return
				}
				c.Trans(1)
				c.Trace()
				c.State(fmt.Sprint(i, " ", j))
			}
		}
	}})
	jobs = append(jobs, fw.Job{Name: "build long lists", Run: func(c *fw.Ctx) {
		for n := 0; n <= 40; n++ {
			for kind := 0; kind < 3; kind++ {
				if !c.Case(n, kind) {
					continue
				}
				var l []interface{}
				var ml []map[string]interface{}
				want := col()
				for i := 0; i < n; i++ {
					m := map[string]interface{}{"a": i, "b": []interface{}{map[string]interface{}{"a": i}}}
					l = append(l, m)
					if i%4 == 3 {
						l = append(l, i)
					}
					ml = append(ml, m)
					want.elems = append(want.elems, ds("a", i, "b", col(ds("a", i))))
				}
				msg := try(func() string {
					switch kind {
					case 0:
						return matches(k, x2.NewXDataset(map[string]interface{}{"a": l}), ds("a", want), univ)
					case 1:
						return matches(k, x2.NewXDataset(map[string]interface{}{"a": ml}), ds("a", want), univ)
					}
					return matches(k, x2.NewXDatasetCollection(ml), want, univ)
				})
				if msg != "" {
					c.Fail(fmt.Sprintf("list of %d maps kind %d", n, kind), "%s", msg)
					return
				}
				c.Trans(1)
				c.Trace()
				c.State(fmt.Sprint(n, kind))
			}
		}
	}})
	jobs = append(jobs, bigBuildJob())
	jobs = append(jobs, fw.Job{Name: "printing", Run: func(c *fw.Ctx) { printing(c, k) }})
	jobs = append(jobs, fw.Job{Name: "printing long and nested", Run: func(c *fw.Ctx) { printing2(c, k) }})
	jobs = append(jobs, fw.Job{Name: "printing kinds of values", Run: func(c *fw.Ctx) { printing3(c, k) }})
	return jobs
}

// printing3: every kind of value, and names that differ little.
func printing3(c *fw.Ctx, k *kit) {
	for vi, v := range convValues() {
		for impl := 0; impl < 2; impl++ {
			for in := 0; in < 2; in++ {
				if impl == 1 && !k.ts || !c.Case(vi, impl, in) {
					continue
				}
				msg := try(func() string {
					d := k.newDS(impl)
					d.Set("aa~", 1)
					d.Set("vv~", v)
					d.Set("zz~", "z")
					d.Set("vw~", v)
					s, g := d.String(), d.GoString()
					if in == 1 {
						o, l := k.newDS(0), k.newCol(impl)
						k.push(l, d)
						o.Set("l", l)
						s, g = o.String(), o.GoString()
					}
					for _, n := range []string{"aa~", "vv~", "zz~", "vw~"} {
						if strings.Count(s, n+":") != 1 || strings.Count(g, n+":") != 1 {
							return fmt.Sprintf("%.3000q and %.3000q do not show %s once", s, g, n)
						}
					}
					if t := fmt.Sprintf("%v", v); !strings.Contains(s, "vv~:"+t) || !strings.Contains(s, "vw~:"+t) {
						return fmt.Sprintf("%.3000q does not show the value", s)
					}
					return ""
				})
				if msg != "" {
					c.Fail(fmt.Sprintf("%s %T(%.300s) kind %d", k.name, v, fmt.Sprint(v), impl), "%s", msg)
					return
				}
				c.Trans(2)
				c.Trace()
				c.State(fmt.Sprint(vi, impl, in))
			}
		}
	}
	keys := []string{"k", "K", "k ", " k", "k:1 k", "", "é", "É", "k1", "k01", "k1.0", "\u212a"}
	for i := range keys {
		for j := range keys {
			for l := range keys {
				for impl := 0; impl < 2; impl++ {
					if i == j || j == l || i == l || impl == 1 && !k.ts || !c.Case(1000+i, j, l, impl) {
						if c.Stop() {
							return
						}
						continue
					}
					msg := try(func() string {
						first := ""
						for _, p := range permutations([]int{i, j, l}) {
							for _, desc := range []bool{false, true} {
								rt.MapDesc = desc
								d := k.newDS(impl)
								for _, x := range p {
									d.Set(keys[x], 1)
								}
								s := d.String() + d.GoString()
								rt.MapDesc = false
								if first == "" {
									first = s
								}
								if s != first {
									return fmt.Sprintf("same content prints %q and %q", s, first)
								}
							}
						}
						return ""
					})
					rt.MapDesc = false
					if msg != "" {
						c.Fail(fmt.Sprintf("%s keys %q %q %q kind %d", k.name, keys[i], keys[j], keys[l], impl), "%s", msg)
						return
					}
					c.Trans(24)
					c.Trace()
					c.State(fmt.Sprint("keys", i, j, l, impl))
				}
			}
		}
	}
}

// literalNames: names that look like paths. They neither hide nor change what the path leads to.
func literalNames(c *fw.Ctx, k *kit) {
	type op struct {
		name string
		do   func(d dsI)
	}
	var ops []op
	for _, n := range []string{"n>x", "n>y", "l>0", "l>0>x", "n>m>x", "zz>x"} {
		n := n
		ops = append(ops, op{"Set(" + n + ")", func(d dsI) { d.Set(n, "literal") }}, op{"Del(" + n + ")", func(d dsI) { d.Del(n) }})
	}
	for impl := 0; impl < 4; impl++ {
		if impl > 0 && !k.ts {
			continue
		}
		for a := range ops {
			for b := range ops {
				for e := range ops {
					if !c.Case(impl, a, b, e) {
						if c.Stop() {
							return
						}
						continue
					}
					msg := try(func() string {
						m := k.newDS(impl >> 1)
						m.Set("x", 3)
						n := k.newDS(impl >> 1)
						n.Set("x", 1)
						n.Set("m", m)
						el := k.newDS(impl >> 1)
						el.Set("x", 2)
						l := k.newCol(impl >> 1)
						k.push(l, el)
						d := k.newDS(impl & 1)
						d.Set("n", n)
						d.Set("l", l)
						before := Obs(n) + Obs(l)
						for _, o := range []int{a, b, e} {
							ops[o].do(d)
							if Obs(n)+Obs(l) != before {
								return ops[o].name + " changed what the path leads to"
							}
							for _, p := range []struct {
								path string
								want interface{}
							}{{"n>x", 1}, {"n>y", nil}, {"l>0", el}, {"l>0>x", 2}, {"n>m>x", 3}, {"zz>x", nil}, {"n", n}, {"l", l}} {
								if v, ok := d.Get(p.path); ok != (p.want != nil) || !same(norm(v), p.want) {
									return fmt.Sprintf("after %s %s reads as %v,%v", ops[o].name, p.path, v, ok)
								}
							}
						}
						return ""
					})
					if msg != "" {
						c.Fail(fmt.Sprintf("%s kind %d: %s %s %s", k.name, impl, ops[a].name, ops[b].name, ops[e].name), "%s", msg)
						return
					}
					c.Trans(27)
					c.Trace()
					c.State(fmt.Sprint(impl, a, b, e))
				}
			}
		}
	}
}

// printing2: many keys, many elements, nested data.
func printing2(c *fw.Ctx, k *kit) {
	once := func(s string, toks []string, ordered bool) string {
		at := -1
		for _, x := range toks {
			i := strings.Index(s, x)
			if i < 0 || strings.LastIndex(s, x) != i {
				return fmt.Sprintf("%q shows %s %d times", s, x, strings.Count(s, x))
			}
			if ordered && i < at {
				return fmt.Sprintf("%q shows %s out of order", s, x)
			}
			at = i
		}
		return ""
	}
	impls := 1
	if k.ts {
		impls = 2
	}
	for n := 0; n <= 1100; n++ {
		if n > 30 && n&(n-1) != 0 && (n > 300 || n%50 > 1) && n != 501 && n != 1001 {
			continue
		}
		for impl := 0; impl < impls; impl++ {
			for what := 0; what < 4; what++ {
				if !c.Case(n, impl, what) {
					if c.Stop() {
						return
					}
					continue
				}
				name := fmt.Sprintf("%d entries kind %d form %d", n, impl, what)
				msg := try(func() string {
					var toks []string
					mk := func(order int) string {
						toks = nil
						var out string
						rt.MapDesc = order&1 == 1
						defer func() { rt.MapDesc = false }()
						idx := iota2(n)
						if order >= 2 {
							for i := range idx {
								idx[i] = n - 1 - i
							}
						}
						switch what {
						case 0: // many keys
							d := k.newDS(impl)
							for _, i := range idx {
								d.Set(fmt.Sprintf("key%04d", i), fmt.Sprintf("val%04d", i))
							}
							for i := 0; i < n; i++ {
								toks = append(toks, fmt.Sprintf("key%04d", i), fmt.Sprintf("val%04d", i))
							}
							out = d.String() + "|"
							if m := once(d.GoString(), toks, false); m != "" {
								return m
							}
							if m := once(d.String(), toks, false); m != "" {
								return m
							}
						case 1: // many elements
							l := k.newCol(impl)
							for i := 0; i < n; i++ {
								e := k.newDS(i & impl)
								ks := []string{"id", "zz"}
								if order >= 2 {
									ks = []string{"zz", "id"}
								}
								for _, kk := range ks {
									e.Set(kk, fmt.Sprintf("%s%04d", kk, i))
								}
								k.push(l, e)
								toks = append(toks, fmt.Sprintf("id%04d", i), fmt.Sprintf("zz%04d", i))
							}
							if m := once(l.GoString(), toks, true); m != "" {
								return m
							}
							if m := once(l.String(), toks, true); m != "" {
								return m
							}
							out = l.String() + l.GoString()
						case 3: // many elements inside
							l := k.newCol(impl)
							for i := 0; i < n; i++ {
								e := k.newDS(i & impl)
								for j := 0; j <= i%3; j++ {
									e.Set(fmt.Sprintf("id%04d%d", i, j), fmt.Sprintf("val%04d%d", i, j))
									toks = append(toks, fmt.Sprintf("id%04d%d", i, j), fmt.Sprintf("val%04d%d", i, j))
								}
								k.push(l, e)
							}
							d := k.newDS(impl)
							d.Set("x", l)
							in := k.newDS(impl)
							for i := 0; i < n; i++ {
								in.Set(fmt.Sprintf("in%04d", i), fmt.Sprintf("iv%04d", i))
								toks = append(toks, fmt.Sprintf("in%04d", i), fmt.Sprintf("iv%04d", i))
							}
							d.Set("y", in)
							if m := once(d.String(), toks, false); m != "" {
								return m
							}
							if m := once(d.GoString(), toks, false); m != "" {
								return m
							}
							out = d.String() + d.GoString()
						case 2: // nested
							var x interface{} = "leaf"
							for i := 0; i < n && i < 12; i++ {
								d := k.newDS((i + impl) & impl)
								kv := []interface{}{fmt.Sprintf("lev%04d", i), x, fmt.Sprintf("oth%04d", i), fmt.Sprintf("val%04d", i)}
								if order >= 2 {
									kv = []interface{}{kv[2], kv[3], kv[0], kv[1]}
								}
								for j := 0; j < 4; j += 2 {
									d.Set(kv[j].(string), kv[j+1])
								}
								toks = append(toks, fmt.Sprintf("lev%04d", i), fmt.Sprintf("val%04d", i))
								x = d
								if i%2 == 1 {
									l := k.newCol(impl)
									k.push(l, d)
									x = l
								}
							}
							if n == 0 {
								return ""
							}
							d := k.newDS(impl)
							d.Set("x", x)
							toks = append(toks, "leaf")
							if m := once(d.String(), toks, false); m != "" {
								return m
							}
							if m := once(d.GoString(), toks, false); m != "" {
								return m
							}
							out = d.String() + d.GoString()
						}
						return "|" + out
					}
					first := mk(0)
					if first != "" && first[0] != '|' {
						return first
					}
					for o := 1; o < 4; o++ {
						if g := mk(o); g != first {
							return fmt.Sprintf("prints %q and %q", first, g)
						}
						c.Trans(2)
					}
					return ""
				})
				rt.MapDesc = false
				if msg != "" {
					c.Fail(name, "%s", msg)
					return
				}
				c.Trace()
				c.State(name)
			}
		}
	}
}

// printing: complete and independent of the insertion order.
func printing(c *fw.Ctx, k *kit) {
	keys := []string{"k1", "k2", "k3", "k10", "K4"}
	vals := []interface{}{strings.Repeat("v~1", 2000), 22, "", nil, true}
	for mask := 0; mask < 1<<uint(len(keys)); mask++ {
		var ks []int
		for i := range keys {
			if mask>>uint(i)&1 == 1 {
				ks = append(ks, i)
			}
		}
		perms := permutations(ks)
		for impl := 0; impl < 2; impl++ {
			if impl == 1 && !k.ts {
				continue
			}
			first, firstGo := "", ""
			for pi, p := range perms {
				for _, desc := range []bool{false, true} {
					if !c.Case(mask, impl, pi, boolInt(desc)) {
						if c.Stop() {
							return
						}
						if !c.Replaying() || pi > 0 || desc {
							continue
						}
					}
					rt.MapDesc = desc
					d := k.newDS(impl)
					for _, i := range p {
						d.Set(keys[i], vals[i])
					}
					s, g := d.String(), d.GoString()
					rt.MapDesc = false
					if first == "" {
						first, firstGo = s, g
					}
					name := fmt.Sprintf("keys inserted in order %v kind %d descending %v", p, impl, desc)
					if s != first || g != firstGo {
						c.Fail(name, "same content prints %q and %q", s, first)
						return
					}
					for _, i := range p {
						if n := strings.Count(s, keys[i]+":"+fmt.Sprint(vals[i])); n != 1 {
							c.Fail(name, "%q shows key %s %d times", s, keys[i], n)
							return
						}
						if n := strings.Count(g, keys[i]+":"+fmt.Sprintf("%#v", vals[i])); n != 1 {
							c.Fail(name, "%q shows key %s %d times", g, keys[i], n)
							return
						}
					}
					if n := strings.Count(s, ":"); n != len(p) {
						c.Fail(name, "%q has %d entries instead of %d", s, n, len(p))
						return
					}
					// in a collection
					for ck := 0; ck < 2; ck++ {
						if ck == 1 && !k.ts {
							continue
						}
						co := k.newCol(ck)
						for i := 0; i < 3; i++ {
							e := k.newDS(impl)
							e.Set("id", fmt.Sprintf("e%d", i))
							k.push(co, e)
						}
						k.push(co, d)
						for _, str := range []string{co.String(), co.GoString()} {
							at := -1
							for i := 0; i < 3; i++ {
								n := strings.Index(str, fmt.Sprintf("e%d", i))
								if n <= at || strings.Count(str, fmt.Sprintf("e%d", i)) != 1 {
									c.Fail(name, "collection prints %q", str)
									return
								}
								at = n
							}
							if strings.Count(str, s) != 1 || strings.Index(str, s) < at {
								c.Fail(name, "collection prints %q", str)
								return
							}
						}
					}
					c.Trans(2)
					c.Trace()
					c.State(name)
					c.Outcome(s)
					c.Sample(func() string { return s })
				}
			}
		}
	}
}

func permutations(a []int) [][]int {
	if len(a) == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for i := range a {
		rest := append(append([]int{}, a[:i]...), a[i+1:]...)
		for _, p := range permutations(rest) {
			r = append(r, append([]int{a[i]}, p...))
		}
	}
	return r
}

// ---- C11: concurrent dataset

type tsOp struct {
	name string
	do   func(d *x2.XDatasetTS) string
	mod  func(m map[string]interface{}) string
}

func tsOps() []tsOp {
	set := func(k string, v interface{}) tsOp {
		return tsOp{fmt.Sprintf("Set(%s,%v)", k, v), func(d *x2.XDatasetTS) string { d.Set(k, v); return "" }, func(m map[string]interface{}) string { m[k] = v; return "" }}
	}
	show := func(m map[string]interface{}) string {
		return fmt.Sprintf("a=%v b=%v", m["a"], m["b"])
	}
	rd := func(n string, do func(d *x2.XDatasetTS) (interface{}, bool), mod func(v interface{}, ok bool) (interface{}, bool)) tsOp {
		return tsOp{n, func(d *x2.XDatasetTS) string { v, ok := do(d); return fmt.Sprint(v, ok) }, func(m map[string]interface{}) string {
			v, ok := m["a"]
			w, wok := mod(v, ok)
			return fmt.Sprint(w, wok)
		}}
	}
	none := func(z interface{}) func(interface{}, bool) (interface{}, bool) {
		return func(interface{}, bool) (interface{}, bool) { return z, false }
	}
	return []tsOp{
		set("a", 1), set("a", 2), set("b", 3),
		{"Del(a)", func(d *x2.XDatasetTS) string { d.Del("a"); return "" }, func(m map[string]interface{}) string { delete(m, "a"); return "" }},
		{"Clone()", func(d *x2.XDatasetTS) string {
			c := d.Clone()
			var a, b interface{}
			rt.Quiet(func() {
				a, _ = c.Get("a")
				b, _ = c.Get("b")
			})
			return fmt.Sprintf("a=%v b=%v", a, b)
		}, show},
		{"String()", func(d *x2.XDatasetTS) string { return parsePrint(d.String()) }, show},
		{"GoString()", func(d *x2.XDatasetTS) string { return parsePrint(d.GoString()) }, show},
		{"Get(b)", func(d *x2.XDatasetTS) string { v, ok := d.Get("b"); return fmt.Sprint(v, ok) }, func(m map[string]interface{}) string { v, ok := m["b"]; return fmt.Sprint(v, ok) }},
		rd("Get(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.Get("a") }, func(v interface{}, ok bool) (interface{}, bool) { return v, ok }),
		rd("GetString(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetString("a") }, func(v interface{}, ok bool) (interface{}, bool) {
			if !ok {
				return "", false
			}
			return fmt.Sprint(v), ok
		}),
		rd("GetInt(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetInt("a") }, func(v interface{}, ok bool) (interface{}, bool) {
			if !ok {
				return 0, false
			}
			return v, ok
		}),
		rd("GetFloat(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetFloat("a") }, func(v interface{}, ok bool) (interface{}, bool) {
			if !ok {
				return 0, false
			}
			return v, ok
		}),
		rd("GetBool(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetBool("a") }, func(v interface{}, ok bool) (interface{}, bool) { return ok, ok }),
		rd("GetTime(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetTime("a") }, none(time.Time{})),
		rd("GetDataset(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetDataset("a") }, none(nil)),
		rd("GetCollection(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetCollection("a") }, none(nil)),
		rd("GetStringCollection(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetStringCollection("a") }, none([]string{})),
		rd("GetBoolCollection(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetBoolCollection("a") }, none([]bool{})),
		rd("GetIntCollection(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetIntCollection("a") }, none([]int{})),
		rd("GetFloatCollection(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetFloatCollection("a") }, none([]float64{})),
		rd("GetTimeCollection(a)", func(d *x2.XDatasetTS) (interface{}, bool) { return d.GetTimeCollection("a") }, none([]time.Time{})),
	}
}

// parsePrint extracts the two keys from a printed form.
func parsePrint(s string) string {
	get := func(k string) string {
		i := strings.Index(s, k+":")
		if i < 0 {
			return "<nil>"
		}
		t := s[i+len(k)+1:]
		if j := strings.IndexAny(t, " }"); j >= 0 {
			t = t[:j]
		}
		return t
	}
	return fmt.Sprintf("a=%v b=%v", get("a"), get("b"))
}

type tsLin struct {
	m   map[string]interface{}
	ops []tsOp
}

func (l *tsLin) Apply(op int) string { return l.ops[op].mod(l.m) }
func (l *tsLin) Clone() Model {
	m := map[string]interface{}{}
	for k, v := range l.m {
		m[k] = v
	}
	return &tsLin{m, l.ops}
}

func iota2(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// specJobs: the usual set of explorations of one shared object.
func specJobs(tag string, sp *Spec, pros [][]int, alpha []int, shapes []shape) []fw.Job {
	var jobs []fw.Job
	for pi, pro := range pros {
		jobs = append(jobs, shapeJobs(fmt.Sprintf("%s prologue %d", tag, pi), sp, pro, alpha, shapes)...)
	}
	return jobs
}

// tsShapes: few is a reduced set of operations, one of each sort, for the longer programs.
func tsShapes(tier string, few []int) []shape {
	r := []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: -1}, {lens: []int{1, 1, 1}, bound: -1}, {lens: []int{2, 2}, bound: 3}, {lens: []int{2, 2}, bound: -1, alpha: few}, {lens: []int{1, 3}, bound: -1, alpha: few}, {lens: []int{2, 1, 1}, bound: 2, alpha: few}}
	if tier == "thorough" {
		r = append(r, shape{lens: []int{2, 2}, bound: -1}, shape{lens: []int{2, 1, 1}, bound: -1, alpha: few}, shape{lens: []int{1, 1, 1, 1}, bound: -1, alpha: few}, shape{lens: []int{2, 3}, bound: -1, alpha: few})
	}
	return r
}

func tsJobs(tier string) []fw.Job {
	ops := tsOps()
	var nm []string
	for _, o := range ops {
		nm = append(nm, o.name)
	}
	var jobs []fw.Job
	for kind := 0; kind < 3; kind++ {
		kind := kind
		sp := &Spec{Ops: nm,
			New: func() interface{} {
				switch kind {
				case 1:
					return x2.NewXDatasetTS(x2.NewXDatasetTS(&x2.XDataset{}))
				case 2:
					return x2.NewXDatasetTS(&x2.XDataset{}).Clone()
				}
				return x2.NewXDatasetTS(&x2.XDataset{})
			},
			Do:       func(s interface{}, op int) string { return ops[op].do(s.(*x2.XDatasetTS)) },
			NewModel: func() Model { return &tsLin{map[string]interface{}{}, ops} },
			Epilogue: []int{4, 8, 7, 5},
		}
		pros := [][]int{{}, {0, 2}}
		shapes := tsShapes(tier, []int{0, 2, 3, 4, 5, 8, 10})
		if kind > 0 {
			pros = [][]int{{0, 2}}
			shapes = []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: -1}, {lens: []int{1, 1, 1}, bound: sel(tier != "thorough", 2, -1), alpha: []int{0, 2, 3, 4, 5, 8, 10}}}
		}
		jobs = append(jobs, specJobs(fmt.Sprintf("dataset kind %d", kind), sp, pros, iota2(len(ops)), shapes)...)
	}
	// many other keys
	for _, n := range []int{20, 70, 140} {
		n := n
		sp := &Spec{Ops: nm,
			New: func() interface{} {
				d := x2.NewXDatasetTS(&x2.XDataset{})
				for i := 0; i < n; i++ {
					d.Set(fmt.Sprintf("other%d", i), i)
				}
				return d
			},
			Do:       func(s interface{}, op int) string { return ops[op].do(s.(*x2.XDatasetTS)) },
			NewModel: func() Model { return &tsLin{map[string]interface{}{}, ops} },
			Epilogue: []int{4, 8, 7, 5},
		}
		jobs = append(jobs, specJobs(fmt.Sprintf("dataset of %d others", n), sp, [][]int{{0, 2}}, []int{0, 2, 3, 4, 5, 6, 8, 10}, []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: 3}, {lens: []int{1, 1, 1}, bound: 1}})...)
	}
	// the zero value, first written by several goroutines at once
	zero := &Spec{Ops: nm,
		New:      func() interface{} { return &x2.XDatasetTS{} },
		Do:       func(s interface{}, op int) string { return ops[op].do(s.(*x2.XDatasetTS)) },
		NewModel: func() Model { return &tsLin{map[string]interface{}{}, ops} },
		Epilogue: []int{4, 8, 7, 5},
	}
	jobs = append(jobs, fw.Job{Name: "zero value first written by several", Run: func(c *fw.Ctx) {
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				Explore(c, zero, nil, [][]int{{i}, {j}}, -1)
				for f := 0; f < len(ops); f++ {
					Explore(c, zero, nil, [][]int{{i}, {j, f}}, -1)
					Explore(c, zero, nil, [][]int{{i, f}, {j, f}}, sel(tier != "thorough", 3, -1))
				}
				for l := 0; l < 3; l++ {
					Explore(c, zero, nil, [][]int{{i}, {j}, {l}}, -1)
				}
			}
		}
	}})
	return append(jobs, nestedJobs(tier)...)
}

// nestedJobs: thread-safe containers inside a shared thread-safe dataset, used through paths and directly.
type nestWorld struct {
	d      *x2.XDatasetTS
	n1, n2 x2.XDatasetDef
	c      *x2.XDatasetCollectionTS
}

type nestOp struct {
	name string
	do   func(w *nestWorld) string
}

func nestOps() []nestOp {
	sh := func(v interface{}, ok bool) string { return fmt.Sprint(v, ok) }
	return []nestOp{
		{"d.Set(n,n2)", func(w *nestWorld) string { w.d.Set("n", w.n2); return "" }},
		{"d.Set(n,5)", func(w *nestWorld) string { w.d.Set("n", 5); return "" }},
		{"d.Del(n)", func(w *nestWorld) string { w.d.Del("n"); return "" }},
		{"n1.Set(x,7)", func(w *nestWorld) string { w.n1.Set("x", 7); return "" }},
		{"n1.Del(x)", func(w *nestWorld) string { w.n1.Del("x"); return "" }},
		{"c.Push(n2)", func(w *nestWorld) string { w.c.Push(w.n2); return "" }},
		{"c.Pop()", func(w *nestWorld) string { w.c.Pop(); return "" }},
		{"c.Shift()", func(w *nestWorld) string { w.c.Shift(); return "" }},
		{"c.Unshift(n2)", func(w *nestWorld) string { w.c.Unshift(w.n2); return "" }},
		{"d.Get(n>x)", func(w *nestWorld) string { return sh(w.d.Get("n>x")) }},
		{"d.GetInt(n>x)", func(w *nestWorld) string { return sh(w.d.GetInt("n>x")) }},
		{"d.GetString(n>x)", func(w *nestWorld) string { return sh(w.d.GetString("n>x")) }},
		{"d.GetString(c>0>x)", func(w *nestWorld) string { return sh(w.d.GetString("c>0>x")) }},
		{"d.GetDataset(n)>x", func(w *nestWorld) string {
			n, ok := w.d.GetDataset("n")
			if !ok {
				return "none"
			}
			return sh(n.Get("x"))
		}},
		{"d.GetCollection(c).GetData(x)", func(w *nestWorld) string {
			n, ok := w.d.GetCollection("c")
			if !ok {
				return "none"
			}
			return sh(n.GetData("x"))
		}},
		{"d.Clone()>n>x", func(w *nestWorld) string {
			c := w.d.Clone()
			r := ""
			rt.Quiet(func() { r = sh(c.Get("n>x")) })
			return r
		}},
		{"d.String()", func(w *nestWorld) string { return w.d.String() }},
		{"d.GoString()", func(w *nestWorld) string { return w.d.GoString() }},
		{"c.Clone().GetData(x)", func(w *nestWorld) string {
			c := w.c.Clone()
			r := ""
			rt.Quiet(func() { r = sh(c.GetData("x")) })
			return r
		}},
		{"c.String()", func(w *nestWorld) string { return w.c.String() }},
		{"n1.GoString()", func(w *nestWorld) string { return w.n1.GoString() }},
		{"c.GetDataInt(x)", func(w *nestWorld) string { return sh(w.c.GetDataInt("x")) }},
	}
}

// nestLin models the part of it addressed by paths: n is n1 (1), n2 (2), a number (5) or absent (0).
type nestLin struct {
	n   int
	x   interface{}
	ops []nestOp
}

func (l *nestLin) Clone() Model { c := *l; return &c }
func (l *nestLin) Apply(op int) string {
	read := func() (interface{}, bool) {
		switch l.n {
		case 1:
			return l.x, l.x != nil
		case 2:
			return 20, true
		}
		return nil, false
	}
	v, ok := read()
	switch l.ops[op].name {
	case "d.Set(n,n2)":
		l.n = 2
	case "d.Set(n,5)":
		l.n = 5
	case "d.Del(n)":
		l.n = 0
	case "n1.Set(x,7)":
		l.x = 7
	case "n1.Del(x)":
		l.x = nil
	case "d.Get(n>x)", "d.Clone()>n>x":
		return fmt.Sprint(v, ok)
	case "d.GetInt(n>x)":
		if !ok {
			v = 0
		}
		return fmt.Sprint(v, ok)
	case "d.GetString(n>x)":
		if !ok {
			v = ""
		}
		return fmt.Sprint(fmt.Sprint(v), ok)
	}
	return ""
}

func nestedJobs(tier string) []fw.Job {
	ops := nestOps()
	var nm []string
	for _, o := range ops {
		nm = append(nm, o.name)
	}
	mk := func() interface{} {
		w := &nestWorld{n1: x2.NewXDatasetTS(&x2.XDataset{"x": 10}), n2: x2.NewXDatasetTS(&x2.XDataset{"x": 20}), c: &x2.XDatasetCollectionTS{}}
		w.c.Push(w.n1)
		w.d = x2.NewXDatasetTS(&x2.XDataset{"n": w.n1, "c": w.c})
		return w
	}
	do := func(s interface{}, op int) string { return ops[op].do(s.(*nestWorld)) }
	idx := func(l ...string) (r []int) {
		for _, x := range l {
			for i, n := range nm {
				if n == x {
					r = append(r, i)
				}
			}
		}
		return
	}
	lin := &Spec{Ops: nm, New: mk, Do: do, NewModel: func() Model { return &nestLin{1, 10, ops} }, Epilogue: idx("d.Get(n>x)")}
	alpha := idx("d.Set(n,n2)", "d.Set(n,5)", "d.Del(n)", "n1.Set(x,7)", "n1.Del(x)", "d.Get(n>x)", "d.GetInt(n>x)", "d.GetString(n>x)", "d.Clone()>n>x")
	jobs := specJobs("nested paths", lin, [][]int{{}}, alpha, []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: -1}, {lens: []int{1, 1, 1}, bound: 2}})
	// all operations: races, panics and deadlocks only
	free := &Spec{Ops: nm, New: mk, Do: do}
	sh := []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: sel(tier != "thorough", 2, -1)}}
	if tier == "thorough" {
		sh = append(sh, shape{lens: []int{1, 1, 1}, bound: 2})
	}
	return append(jobs, specJobs("nested containers", free, [][]int{{}}, iota2(len(ops)), sh)...)
}

// ---- C12: concurrent collection

type ctOp struct {
	name string
	do   func(w *ctWorld) string
	mod  func(m *ctLin) string
}

type ctWorld struct {
	c  *x2.XDatasetCollectionTS
	el []x2.XDatasetDef
}

type ctLin struct {
	l   []int
	ops []ctOp
}

func (l *ctLin) Apply(op int) string { return l.ops[op].mod(l) }
func (l *ctLin) Clone() Model        { return &ctLin{append([]int{}, l.l...), l.ops} }

var ctData = []map[string]interface{}{{"id": "e0", "a": 1}, {"id": "e1", "a": 2, "b": true}, {"id": "e2", "b": 1.5}}

func ctOps() []ctOp {
	id := func(d x2.XDatasetDef, ok bool) string {
		if d == nil {
			return fmt.Sprint("nil", ok)
		}
		s, _ := d.GetString("id")
		return fmt.Sprint(s, ok)
	}
	mid := func(m *ctLin, i int) string {
		if i < 0 || i >= len(m.l) {
			return "nilfalse"
		}
		return fmt.Sprintf("e%dtrue", m.l[i])
	}
	find := func(m *ctLin, k string) (interface{}, bool) {
		for i := len(m.l) - 1; i >= 0; i-- {
			if v, ok := ctData[m.l[i]][k]; ok {
				return v, true
			}
		}
		return nil, false
	}
	list := func(c x2.XDatasetCollectionDef) string {
		var s []string
		for i := 0; i < c.Count(); i++ {
			d, ok := c.Get(i)
			s = append(s, id(d, ok))
		}
		return strings.Join(s, " ")
	}
	mlist := func(m *ctLin) string {
		var s []string
		for i := range m.l {
			s = append(s, mid(m, i))
		}
		return strings.Join(s, " ")
	}
	plist := func(p string) string {
		var s []string
		for _, f := range strings.Split(p, "id:") {
			if strings.HasPrefix(f, "e") {
				s = append(s, f[:2]+"true")
			}
		}
		return strings.Join(s, " ")
	}
	ops := []ctOp{}
	for i := 0; i < 2; i++ {
		i := i
		ops = append(ops, ctOp{fmt.Sprintf("Push(e%d)", i), func(w *ctWorld) string { w.c.Push(w.el[i]); return "" }, func(m *ctLin) string { m.l = append(m.l, i); return "" }})
	}
	ops = append(ops,
		ctOp{"Unshift(e2)", func(w *ctWorld) string { w.c.Unshift(w.el[2]); return "" }, func(m *ctLin) string { m.l = append([]int{2}, m.l...); return "" }},
		ctOp{"Pop()", func(w *ctWorld) string { return id(w.c.Pop(), true) }, func(m *ctLin) string {
			if len(m.l) == 0 {
				return "niltrue"
			}
			r := mid(m, len(m.l)-1)
			m.l = m.l[:len(m.l)-1]
			return r
		}},
		ctOp{"Shift()", func(w *ctWorld) string { return id(w.c.Shift(), true) }, func(m *ctLin) string {
			if len(m.l) == 0 {
				return "niltrue"
			}
			r := mid(m, 0)
			m.l = append([]int{}, m.l[1:]...)
			return r
		}},
		ctOp{"Count()", func(w *ctWorld) string { return fmt.Sprint(w.c.Count()) }, func(m *ctLin) string { return fmt.Sprint(len(m.l)) }},
		ctOp{"Get(0)", func(w *ctWorld) string { return id(w.c.Get(0)) }, func(m *ctLin) string { return mid(m, 0) }},
		ctOp{"Get(1)", func(w *ctWorld) string { return id(w.c.Get(1)) }, func(m *ctLin) string { return mid(m, 1) }},
		ctOp{"GetData(a)", func(w *ctWorld) string { v, ok := w.c.GetData("a"); return fmt.Sprint(v, ok) }, func(m *ctLin) string { v, ok := find(m, "a"); return fmt.Sprint(v, ok) }},
		ctOp{"GetDataString(b)", func(w *ctWorld) string { v, ok := w.c.GetDataString("b"); return fmt.Sprintf("%q %v", v, ok) }, func(m *ctLin) string {
			v, ok := find(m, "b")
			if !ok {
				v = ""
			}
			return fmt.Sprintf("%q %v", fmt.Sprint(v), ok)
		}},
		ctOp{"GetDataInt(a)", func(w *ctWorld) string { v, ok := w.c.GetDataInt("a"); return fmt.Sprint(v, ok) }, func(m *ctLin) string {
			v, _ := find(m, "a")
			i, ok := v.(int)
			return fmt.Sprint(i, ok)
		}},
		ctOp{"GetDataBool(b)", func(w *ctWorld) string { v, ok := w.c.GetDataBool("b"); return fmt.Sprint(v, ok) }, func(m *ctLin) string {
			v, _ := find(m, "b")
			i, ok := v.(bool)
			return fmt.Sprint(i, ok)
		}},
		ctOp{"GetDataFloat(b)", func(w *ctWorld) string { v, ok := w.c.GetDataFloat("b"); return fmt.Sprint(v, ok) }, func(m *ctLin) string {
			v, _ := find(m, "b")
			i, ok := v.(float64)
			return fmt.Sprint(i, ok)
		}},
		ctOp{"GetDataTime(b)", func(w *ctWorld) string { _, ok := w.c.GetDataTime("b"); return fmt.Sprint(ok) }, func(m *ctLin) string { return "false" }},
		ctOp{"GetCollection(a)", func(w *ctWorld) string { v, ok := w.c.GetCollection("a"); return fmt.Sprint(v, ok) }, func(m *ctLin) string { return "<nil> false" }},
		ctOp{"Clone()", func(w *ctWorld) string { c := w.c.Clone(); r := ""; rt.Quiet(func() { r = list(c) }); return r }, mlist},
		ctOp{"String()", func(w *ctWorld) string { return plist(w.c.String()) }, mlist},
		ctOp{"GoString()", func(w *ctWorld) string { return plist(w.c.GoString()) }, mlist},
	)
	return ops
}

func ctJobs(tier string) []fw.Job {
	ops := ctOps()
	var nm []string
	for _, o := range ops {
		nm = append(nm, o.name)
	}
	var jobs []fw.Job
	for impl := 0; impl < 2; impl++ {
		impl := impl
		sp := &Spec{Ops: nm,
			New: func() interface{} {
				w := &ctWorld{c: &x2.XDatasetCollectionTS{}}
				for _, m := range ctData {
					d := kit2.newDS(impl).(x2.XDatasetDef)
					for k, v := range m {
						d.Set(k, v)
					}
					w.el = append(w.el, d)
				}
				return w
			},
			Do:       func(s interface{}, op int) string { return ops[op].do(s.(*ctWorld)) },
			NewModel: func() Model { return &ctLin{nil, ops} },
			Epilogue: []int{5, 15, 16, 3, 4},
		}
		pros := [][]int{{}, {0}, {0, 1}, {0, 1, 2}}
		shapes := tsShapes(tier, []int{0, 2, 3, 4, 5, 7, 8, 15})
		if impl == 1 {
			pros = [][]int{{0}}
			shapes = []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: -1}, {lens: []int{1, 1, 1}, bound: sel(tier != "thorough", 2, -1)}}
		}
		jobs = append(jobs, specJobs(fmt.Sprintf("collection impl %d", impl), sp, pros, iota2(len(ops)), shapes)...)
	}
	// many elements
	for _, n := range []int{18, 70, 140} {
		n := n
		sp := &Spec{Ops: nm,
			New: func() interface{} {
				w := &ctWorld{c: &x2.XDatasetCollectionTS{}}
				for _, m := range ctData {
					d := &x2.XDataset{}
					for k, v := range m {
						d.Set(k, v)
					}
					w.el = append(w.el, d)
				}
				for i := 0; i < n; i++ {
					w.c.Push(w.el[i*i%3])
				}
				return w
			},
			Do: func(s interface{}, op int) string { return ops[op].do(s.(*ctWorld)) },
			NewModel: func() Model {
				m := &ctLin{nil, ops}
				for i := 0; i < n; i++ {
					m.l = append(m.l, i*i%3)
				}
				return m
			},
			Epilogue: []int{5, 15, 16, 3, 4},
		}
		jobs = append(jobs, specJobs(fmt.Sprintf("collection of %d", n), sp, [][]int{{}}, []int{0, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17}, []shape{{lens: []int{1, 1}, bound: -1}, {lens: []int{1, 2}, bound: 3, alpha: []int{0, 2, 3, 4, 5, 8, 15}}, {lens: []int{1, 1, 1}, bound: 1, alpha: []int{0, 2, 3, 4, 15}}})...)
	}
	// thread-safe elements changed meanwhile: races, panics and deadlocks only
	more := append([]ctOp{}, ops...)
	more = append(more, ctOp{"e0.Set(a,7)", func(w *ctWorld) string { w.el[0].Set("a", 7); return "" }, nil},
		ctOp{"e0.Del(a)", func(w *ctWorld) string { w.el[0].Del("a"); return "" }, nil},
		ctOp{"e1.Set(b,false)", func(w *ctWorld) string { w.el[1].Set("b", false); return "" }, nil})
	nm = nil
	for _, o := range more {
		nm = append(nm, o.name)
	}
	free := &Spec{Ops: nm, Do: func(s interface{}, op int) string { return more[op].do(s.(*ctWorld)) }, New: func() interface{} {
		w := &ctWorld{c: &x2.XDatasetCollectionTS{}}
		for _, m := range ctData {
			d := x2.NewXDatasetTS(&x2.XDataset{})
			for k, v := range m {
				d.Set(k, v)
			}
			w.el = append(w.el, d)
		}
		w.c.Push(w.el[0])
		w.c.Push(w.el[1])
		return w
	}}
	for e := 18; e < 21; e++ {
		e := e
		jobs = append(jobs, fw.Job{Name: "elements changed meanwhile by " + nm[e], Run: func(c *fw.Ctx) {
			for f := range more {
				if c.Stop() {
					return
				}
				Explore(c, free, nil, [][]int{{e}, {f}}, -1)
				for g := range more {
					if c.Stop() {
						return
					}
					Explore(c, free, nil, [][]int{{e}, {f, g}}, 2)
				}
			}
		}})
	}
	return jobs
}

const tsBounds = "every interleaving of all programs of 1+1, 1+2 and 1+1+1 operations, of 2+2 operations with at most 3 preemptions, of 2+2 and 1+3 of the main operations in full, of 2+1+1 of them with 2 preemptions (thorough also all of 2+2; and 2+1+1, 1+1+1+1 and 2+3 of the main operations in full); nested paths and elements changed meanwhile 1+1 and 1+2 (thorough also 1+1+1); objects of 18 to 140 other entries or elements with 1+1 and 1+2"

func init() {
	b := func(s string) func(string) string { return func(string) string { return s } }
	fw.Register(&fw.Prop{ID: "C06", Jobs: func(t string) []fw.Job { return pathJobs(t, &kit2) }, Bounds: b("trees over names a,b up to depth 3 with collections up to 2 elements x {plain, thread-safe, mixed, mixed with kinds of the program's own} (quick: every third) x all paths up to 4 (thorough 5) segments over a, b, 0, 1, 2, -1, x and the empty segment; unusual names; collections of 1000 to 66000 elements; 24, 40, 70 and 140 levels; all short paths again after each of 8 changes of each container; names that look like paths beside the data the path leads to; paths into 15 values that have parts but are no datasets"),
		Assumptions: []string{"keys of the explored data do not contain '>'", "collection elements are not nil"}})
	fw.Register(&fw.Prop{ID: "C07", Jobs: func(t string) []fw.Job { return convJobs(t, &kit2) }, Bounds: b("180 values of all kinds (named types, nil pointers, errors, not-a-number and infinity among them) and texts up to 140000 bytes and lists up to 4097 elements x {top level, nested, absent} x {plain, thread-safe} x 12 readers"),
		Assumptions: []string{"values whose conversion overflows, NaN and infinities are not explored for the integer reader"}})
	fw.Register(&fw.Prop{ID: "C08", Jobs: func(t string) []fw.Job { return mapJobs(t, &kit2) }, Bounds: b("operations on 3 keys x 6 ways to build x 4 sets of keys x 4 to 5 sets of values: all sequences of length 4 (thorough 5) for the basic set and 2 (3) for the others, breadth-first to depth 6 (thorough 9); families of up to 48 (200) keys, and of 65 to 1030; names that look like paths")})
	fw.Register(&fw.Prop{ID: "C09", Jobs: func(t string) []fw.Job { return colJobs(t, &kit2) }, Bounds: b("9 operations with 4 elements x {plain, thread-safe} x {plain, mixed elements}: all sequences of length 5 (thorough 7), breadth-first to depth 5 (7), all readers and 6 keys after each step; families of up to 260 elements; all pairs of 21 unusual keys in all ways to spread them over three elements; 160 values of all kinds through every reader at 3 positions"),
		Assumptions: []string{"removal from an empty plain collection is not specified"}})
	fw.Register(&fw.Prop{ID: "C10", Jobs: func(t string) []fw.Job { return cloneJobs(t, &kit2) }, Bounds: b("all shapes up to depth 3 x kinds of each node (quick: up to 64 assignments; and 3 with kinds of the program's own) x side x container x 8 mutations; all pairs of mutations for shapes of up to 5 (thorough 7) nodes; 25 unusual names; collections of 17, 33 and 66 elements; data of 101 to 1100 keys or elements and 8 to 120 levels, everything on one side changed at once"),
		Assumptions: []string{"plain slices stored as values are shared by design and not checked"}})
	fw.Register(&fw.Prop{ID: "C11", Jobs: tsJobs, Bounds: b(tsBounds), Assumptions: schedAssume[:2]})
	fw.Register(&fw.Prop{ID: "C12", Jobs: ctJobs, Bounds: b(tsBounds), Assumptions: append([]string{"elements are changed only in the runs about changing elements"}, schedAssume[:2]...)})
	fw.Register(&fw.Prop{ID: "C13", Jobs: buildJobs, Bounds: b("source maps to depth 2 (thorough 3) with lists of maps and mixed lists, as dataset and collection, both map orders; all pairs of kinds of values; long lists; lists of up to 4100 and maps nested up to 260 deep; printing: all subsets of 5 keys x all insertion orders x both map orders, and up to 1025 entries; maps of the nil kind; printed forms of 150 kinds of values and of names that differ little, in both map orders")})
	fw.Register(&fw.Prop{ID: "C26", Jobs: func(t string) []fw.Job {
		k := &kit1
		var j []fw.Job
		j = append(j, pathJobs(t, k)...)
		j = append(j, convJobs(t, k)...)
		j = append(j, mapJobs(t, k)...)
		j = append(j, colJobs(t, k)...)
		j = append(j, cloneJobs(t, k)...)
		j = append(j, fw.Job{Name: "v1 printing", Run: func(c *fw.Ctx) { printing(c, k) }})
		j = append(j, fw.Job{Name: "v1 printing long and nested", Run: func(c *fw.Ctx) { printing2(c, k) }})
		j = append(j, fw.Job{Name: "v1 printing kinds of values", Run: func(c *fw.Ctx) { printing3(c, k) }})
		return j
	}, Bounds: b("as C06 to C10 and the printing part of C13 on the version 1 package")})
}
