package h

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"

	"xcoremc/rt"
)

// cacheAPI is what both versions offer.
type cacheAPI interface {
	Set(string, interface{})
	Get(string) (interface{}, bool)
	Del(string)
	Count() int
	Clean(int) int
	Verify() int
	Flush()
}

// cacheCfg is one configuration.
type cacheCfg struct {
	v1     bool
	max    int
	expire time.Duration
	valid  int           // 0 none, 1 refuses entries older than 5 units, 2 refuses key "a", 3 refuses nothing, 4.. use the cache themselves (see build)
	unit   time.Duration // of time in this run; 0 is a second
	refuse string        // valid 10: the keys refused, each between commas
	fill   int           // other entries already there
}

func (k cacheCfg) u() time.Duration {
	if k.unit == 0 {
		return time.Second
	}
	return k.unit
}

// scaled expresses operations written in seconds in this configuration's unit.
func (k cacheCfg) scaled(ops []cop) []cop {
	r := append([]cop{}, ops...)
	for i := range r {
		r[i].d = r[i].d / time.Second * k.u()
	}
	return r
}

func (k cacheCfg) String() string {
	v := "v2"
	if k.v1 {
		v = "v1"
	}
	r := fmt.Sprintf("%s max=%d expire=%v validator=%d", v, k.max, k.expire, k.valid)
	if k.unit != 0 {
		r += fmt.Sprintf(" unit=%v", k.unit)
	}
	if k.fill != 0 {
		r += fmt.Sprintf(" others=%d", k.fill)
	}
	return r
}

// verdict of the validator as a function of key and creation time.
func (k cacheCfg) verdict(key string, ctime, now time.Time) bool {
	switch k.valid {
	case 1:
		return now.Sub(ctime) < 5*k.u()
	case 2, 5, 6, 8:
		return key != "a"
	case 10:
		return !strings.Contains(k.refuse, ","+key+",")
	}
	return true
}

func (k cacheCfg) build(validator func(string, time.Time) bool) cacheAPI {
	if validator == nil && k.valid != 0 {
		validator = func(key string, t time.Time) bool {
			return k.verdict(key, t, rt.Base.Add(rt.Clock()))
		}
	}
	var self cacheAPI
	if v := validator; k.valid >= 4 && k.valid <= 9 {
		validator = func(key string, t time.Time) bool {
			switch k.valid {
			case 4, 5:
				self.Count()
			case 6:
				self.Set("c", "c9")
			case 7:
				self.Del("b")
			case 8:
				if key != "c" {
					self.Get("c")
				}
			case 9:
				panic("validator")
			}
			return v(key, t)
		}
	}
	if k.v1 {
		c := x1.NewXCache("c", k.max, k.expire)
		c.Validator = validator
		self = c
	} else {
		c := x2.NewXCache("c", k.max, k.expire)
		c.Validator = validator
		self = c
	}
	return self
}

type centry struct {
	val   string
	ctime time.Time
	ttl   time.Duration
}

// cacheModel is the sequential specification.
type cacheModel struct {
	cfg   cacheCfg
	items map[string]centry
	order []string // least recently used first
	now   time.Time
}

func newCacheModel(k cacheCfg) *cacheModel {
	m := &cacheModel{cfg: k, items: map[string]centry{}, now: rt.Base}
	for _, x := range k.others() {
		m.do(cop{kind: "set", key: x, val: x})
	}
	return m
}

// others lists the keys of the entries already there.
func (k cacheCfg) others() (r []string) {
	for i := 0; i < k.fill; i++ {
		r = append(r, fmt.Sprintf("other%d", i))
	}
	return
}

func (m *cacheModel) clone() *cacheModel {
	n := &cacheModel{cfg: m.cfg, items: make(map[string]centry, len(m.items)), order: append([]string{}, m.order...), now: m.now}
	for k, v := range m.items {
		n.items[k] = v
	}
	return n
}

func (m *cacheModel) drop(key string) {
	delete(m.items, key)
	for i, k := range m.order {
		if k == key {
			m.order = append(append([]string{}, m.order[:i]...), m.order[i+1:]...)
			return
		}
	}
}

func (m *cacheModel) touch(key string) {
	e := m.items[key]
	m.drop(key)
	m.items[key] = e
	m.order = append(m.order, key)
}

func (m *cacheModel) ttlOver(e centry) bool { return e.ttl != 0 && m.now.After(e.ctime.Add(e.ttl)) }
func (m *cacheModel) expOver(e centry) bool {
	return m.cfg.expire != 0 && m.now.After(e.ctime.Add(m.cfg.expire))
}

func (m *cacheModel) set(key, val string) {
	m.drop(key)
	m.items[key] = centry{val: val, ctime: m.now}
	m.order = append(m.order, key)
	if m.cfg.max > 0 && len(m.items) >= m.cfg.max {
		m.clean(10)
		for len(m.items) > m.cfg.max {
			m.drop(m.order[0])
		}
	}
}

func (m *cacheModel) get(key string) string {
	e, ok := m.items[key]
	if !ok {
		return "none"
	}
	if m.ttlOver(e) || m.expOver(e) || !m.cfg.verdict(key, e.ctime, m.now) {
		m.drop(key)
		return "invalid"
	}
	m.touch(key)
	return e.val
}

func (m *cacheModel) clean(perc int) int {
	n := 0
	for _, k := range append([]string{}, m.order...) {
		if e := m.items[k]; m.expOver(e) || m.ttlOver(e) {
			m.drop(k)
			n++
		}
	}
	num := len(m.items) * perc / 100
	for i := 0; i < num; i++ {
		m.drop(m.order[0])
		n++
	}
	return n
}

func (m *cacheModel) verify() int {
	n := m.clean(0)
	if m.cfg.valid != 0 {
		for _, k := range append([]string{}, m.order...) {
			if !m.cfg.verdict(k, m.items[k].ctime, m.now) {
				m.drop(k)
				n++
			}
		}
	}
	return n
}

func (m *cacheModel) key() string {
	var b strings.Builder
	for _, k := range m.order {
		e := m.items[k]
		a := m.now.Sub(e.ctime)
		if a > 40*m.cfg.u() {
			a = 40 * m.cfg.u()
		}
		fmt.Fprintf(&b, "%s=%s,%v,%v;", k, e.val, a, e.ttl)
	}
	fmt.Fprintf(&b, "%d,%v,%d", m.cfg.max, m.cfg.expire, m.cfg.valid)
	return b.String()
}

func getStr(v interface{}, invalid bool) string {
	if v == nil {
		if invalid {
			return "invalid"
		}
		return "none"
	}
	if invalid {
		return fmt.Sprintf("%v+invalid", v)
	}
	return fmt.Sprint(v)
}

// cop is an operation of the cache alphabet.
type cop struct {
	kind string
	key  string
	val  string
	n    int
	d    time.Duration
}

func (o cop) String() string {
	switch o.kind {
	case "set":
		return "Set(" + o.key + "," + o.val + ")"
	case "ttl":
		return "SetTTL(" + o.key + "," + o.d.String() + ")"
	case "get", "del":
		return strings.Title(o.kind) + "(" + o.key + ")"
	case "clean":
		return "Clean(" + strconv.Itoa(o.n) + ")"
	case "tick", "expire=":
		return o.kind + "(" + o.d.String() + ")"
	case "max=", "validator=":
		return o.kind + "(" + strconv.Itoa(o.n) + ")"
	}
	return strings.Title(o.kind) + "()"
}

func copNames(ops []cop) []string {
	s := make([]string, len(ops))
	for i, o := range ops {
		s[i] = o.String()
	}
	return s
}

func doCache(c cacheAPI, o cop) string {
	switch o.kind {
	case "set":
		c.Set(o.key, o.val)
	case "ttl":
		if t, ok := c.(interface {
			SetTTL(string, time.Duration)
		}); ok {
			t.SetTTL(o.key, o.d)
		}
	case "get":
		return getStr(c.Get(o.key))
	case "del":
		c.Del(o.key)
	case "count":
		return strconv.Itoa(c.Count())
	case "clean":
		return strconv.Itoa(c.Clean(o.n))
	case "verify":
		return strconv.Itoa(c.Verify())
	case "flush":
		c.Flush()
	case "tick":
		rt.Advance(o.d)
	case "max=", "expire=", "validator=":
		var max *int
		var exp *time.Duration
		var val *func(string, time.Time) bool
		switch x := c.(type) {
		case *x1.XCache:
			max, exp, val = &x.Maxitems, &x.Expire, &x.Validator
		case *x2.XCache:
			max, exp, val = &x.Maxitems, &x.Expire, &x.Validator
		}
		switch o.kind {
		case "max=":
			*max = o.n
		case "expire=":
			*exp = o.d
		default:
			*val = nil
			if o.n != 0 {
				*val = func(key string, t time.Time) bool {
					return cacheCfg{valid: o.n}.verdict(key, t, rt.Base.Add(rt.Clock()))
				}
			}
		}
	}
	return ""
}

func (m *cacheModel) do(o cop) string {
	switch o.kind {
	case "set":
		m.set(o.key, o.val)
	case "ttl":
		if e, ok := m.items[o.key]; ok && !m.cfg.v1 {
			e.ttl = o.d
			m.items[o.key] = e
		}
	case "get":
		return m.get(o.key)
	case "del":
		m.drop(o.key)
	case "count":
		return strconv.Itoa(len(m.items))
	case "clean":
		return strconv.Itoa(m.clean(o.n))
	case "verify":
		return strconv.Itoa(m.verify())
	case "flush":
		m.items = map[string]centry{}
		m.order = nil
	case "tick":
		m.now = m.now.Add(o.d)
	case "max=":
		m.cfg.max = o.n
	case "expire=":
		m.cfg.expire = o.d
	case "validator=":
		m.cfg.valid = o.n
	}
	return ""
}

// cacheInst runs both in lock step.
type cacheInst struct {
	c   cacheAPI
	m   *cacheModel
	ops []cop
}

func newCacheInst(k cacheCfg, ops []cop) Inst {
	rt.SetClock(0)
	ageCap = 40 * k.u()
	return &cacheInst{c: k.build(nil), m: newCacheModel(k), ops: ops}
}

func (i *cacheInst) Apply(op int) (string, string) {
	o := i.ops[op]
	w := i.m.do(o)
	g := doCache(i.c, o)
	// the number of entries is observable after every operation
	if o.kind != "count" {
		w += " n=" + strconv.Itoa(len(i.m.items))
		g += " n=" + strconv.Itoa(i.c.Count())
	}
	return g, w
}

func (i *cacheInst) Key() string { return i.m.key() + "/" + Dump(i.c) }

type cacheLin struct {
	m   *cacheModel
	ops []cop
}

func (l *cacheLin) Apply(op int) string { return l.m.do(l.ops[op]) }
func (l *cacheLin) Clone() Model        { return &cacheLin{l.m.clone(), l.ops} }

func sortedKeys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
