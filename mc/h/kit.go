package h

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
)

// dsI is the part of a dataset that is the same in both versions.
type dsI interface {
	Set(string, interface{})
	Get(string) (interface{}, bool)
	GetString(string) (string, bool)
	GetBool(string) (bool, bool)
	GetInt(string) (int, bool)
	GetFloat(string) (float64, bool)
	GetTime(string) (time.Time, bool)
	GetStringCollection(string) ([]string, bool)
	GetBoolCollection(string) ([]bool, bool)
	GetIntCollection(string) ([]int, bool)
	GetFloatCollection(string) ([]float64, bool)
	GetTimeCollection(string) ([]time.Time, bool)
	Del(string)
	String() string
	GoString() string
}

// colI is the part of a collection that is the same in both versions.
type colI interface {
	Count() int
	GetData(string) (interface{}, bool)
	GetDataString(string) (string, bool)
	GetDataInt(string) (int, bool)
	GetDataBool(string) (bool, bool)
	GetDataFloat(string) (float64, bool)
	GetDataTime(string) (time.Time, bool)
	String() string
	GoString() string
}

// kit gives version-independent access to datasets and collections.
type kit struct {
	name   string
	ts     bool // has thread-safe kinds
	newDS  func(kind int) dsI
	newCol func(kind int) colI
	dsOf   func(d dsI, k string) (interface{}, bool)
	colOf  func(d dsI, k string) (interface{}, bool)
	colCol func(c colI, k string) (interface{}, bool)
	clone  func(x interface{}) interface{}
	push   func(c colI, d dsI)
	unsh   func(c colI, d dsI)
	pop    func(c colI) interface{}
	shift  func(c colI) interface{}
	at     func(c colI, i int) (interface{}, bool)
}

// norm turns nil interfaces of any type into plain nil.
func norm(x interface{}) interface{} {
	if x == nil {
		return nil
	}
	v := reflect.ValueOf(x)
	if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Map) && v.IsNil() {
		return nil
	}
	return x
}

var kit2 = kit{
	name: "v2", ts: true,
	newDS: func(kind int) dsI {
		if kind == 1 {
			return x2.NewXDatasetTS(&x2.XDataset{})
		}
		if kind == 2 {
			return &ownDS2{&x2.XDataset{}}
		}
		return &x2.XDataset{}
	},
	newCol: func(kind int) colI {
		if kind == 1 {
			return &x2.XDatasetCollectionTS{}
		}
		if kind == 2 {
			return &ownCol2{&x2.XDatasetCollection{}}
		}
		return &x2.XDatasetCollection{}
	},
	dsOf:  func(d dsI, k string) (interface{}, bool) { r, ok := d.(x2.XDatasetDef).GetDataset(k); return r, ok },
	colOf: func(d dsI, k string) (interface{}, bool) { r, ok := d.(x2.XDatasetDef).GetCollection(k); return r, ok },
	colCol: func(c colI, k string) (interface{}, bool) {
		r, ok := c.(x2.XDatasetCollectionDef).GetCollection(k)
		return r, ok
	},
	clone: func(x interface{}) interface{} {
		if d, ok := x.(x2.XDatasetDef); ok {
			return d.Clone()
		}
		return x.(x2.XDatasetCollectionDef).Clone()
	},
	push: func(c colI, d dsI) { c.(x2.XDatasetCollectionDef).Push(d.(x2.XDatasetDef)) },
	unsh: func(c colI, d dsI) { c.(x2.XDatasetCollectionDef).Unshift(d.(x2.XDatasetDef)) },
	pop:  func(c colI) interface{} { return norm(c.(x2.XDatasetCollectionDef).Pop()) },
	shift: func(c colI) interface{} {
		return norm(c.(x2.XDatasetCollectionDef).Shift())
	},
	at: func(c colI, i int) (interface{}, bool) {
		r, ok := c.(x2.XDatasetCollectionDef).Get(i)
		return norm(r), ok
	},
}

var kit1 = kit{
	name: "v1",
	newDS: func(kind int) dsI {
		if kind == 2 {
			return &ownDS1{&x1.XDataset{}}
		}
		return &x1.XDataset{}
	},
	newCol: func(kind int) colI {
		if kind == 2 {
			return &ownCol1{&x1.XDatasetCollection{}}
		}
		return &x1.XDatasetCollection{}
	},
	dsOf:  func(d dsI, k string) (interface{}, bool) { r, ok := d.(x1.XDatasetDef).GetDataset(k); return r, ok },
	colOf: func(d dsI, k string) (interface{}, bool) { r, ok := d.(x1.XDatasetDef).GetCollection(k); return r, ok },
	colCol: func(c colI, k string) (interface{}, bool) {
		r, ok := c.(x1.XDatasetCollectionDef).GetCollection(k)
		return r, ok
	},
	clone: func(x interface{}) interface{} {
		if d, ok := x.(x1.XDatasetDef); ok {
			return d.Clone()
		}
		return x.(x1.XDatasetCollectionDef).Clone()
	},
	push: func(c colI, d dsI) { c.(x1.XDatasetCollectionDef).Push(d.(x1.XDatasetDef)) },
	unsh: func(c colI, d dsI) { c.(x1.XDatasetCollectionDef).Unshift(d.(x1.XDatasetDef)) },
	pop:  func(c colI) interface{} { return norm(c.(x1.XDatasetCollectionDef).Pop()) },
	shift: func(c colI) interface{} {
		return norm(c.(x1.XDatasetCollectionDef).Shift())
	},
	at: func(c colI, i int) (interface{}, bool) {
		r, ok := c.(x1.XDatasetCollectionDef).Get(i)
		return norm(r), ok
	},
}

// tree is the abstract content of nested data.
type tree struct {
	kind  byte // 's' plain value, 'd' dataset, 'c' collection
	val   interface{}
	impl  int // 0 plain, 1 thread safe
	kids  map[string]*tree
	elems []*tree
	obj   interface{} // built object
}

func scalar(v interface{}) *tree { return &tree{kind: 's', val: v} }

func (t *tree) names() []string {
	var k []string
	for n := range t.kids {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

func (t *tree) String() string {
	switch t.kind {
	case 's':
		return fmt.Sprintf("%#v", t.val)
	case 'd':
		var s []string
		for _, k := range t.names() {
			s = append(s, k+":"+t.kids[k].String())
		}
		return []string{"{", "TS{", "own{"}[t.impl] + strings.Join(s, " ") + "}"
	}
	var s []string
	for _, e := range t.elems {
		s = append(s, e.String())
	}
	return []string{"[", "TS[", "own["}[t.impl] + strings.Join(s, " ") + "]"
}

// copyTree makes a fresh tree with kinds assigned by f (called in preorder).
func (t *tree) copyTree(f func() int) *tree {
	n := &tree{kind: t.kind, val: t.val}
	switch t.kind {
	case 'd':
		n.impl = f()
		n.kids = map[string]*tree{}
		for _, k := range t.names() {
			n.kids[k] = t.kids[k].copyTree(f)
		}
	case 'c':
		n.impl = f()
		for _, e := range t.elems {
			n.elems = append(n.elems, e.copyTree(f))
		}
	}
	return n
}

// build creates the objects of a tree.
func (t *tree) build(k *kit) interface{} {
	switch t.kind {
	case 's':
		t.obj = t.val
	case 'd':
		d := k.newDS(t.impl)
		for _, n := range t.names() {
			d.Set(n, t.kids[n].build(k))
		}
		t.obj = d
	case 'c':
		c := k.newCol(t.impl)
		for _, e := range t.elems {
			k.push(c, e.build(k).(dsI))
		}
		t.obj = c
	}
	return t.obj
}

// walk resolves a path on the abstract tree: nil if not found.
func (t *tree) walk(segs []string) *tree {
	n := t.kids[segs[0]]
	if n == nil || len(segs) == 1 {
		return n
	}
	switch n.kind {
	case 'd':
		return n.walk(segs[1:])
	case 'c':
		i, err := strconv.Atoi(segs[1])
		if err != nil || i < 0 || i >= len(n.elems) {
			return nil
		}
		if len(segs) == 2 {
			return n.elems[i]
		}
		return n.elems[i].walk(segs[2:])
	}
	return nil
}

// content reads back an object through its interface, over a universe of names.
func (k *kit) content(x interface{}, universe []string) string {
	switch o := x.(type) {
	case dsI:
		var s []string
		for _, n := range universe {
			if v, ok := o.Get(n); ok {
				s = append(s, n+":"+k.content(v, universe))
			}
		}
		return reflect.TypeOf(x).String() + "{" + strings.Join(s, " ") + "}"
	case colI:
		var s []string
		for i := 0; i < o.Count(); i++ {
			e, ok := k.at(o, i)
			if !ok {
				s = append(s, "!")
				continue
			}
			s = append(s, k.content(e, universe))
		}
		return reflect.TypeOf(x).String() + "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprintf("%T(%#v)", x, x)
}
