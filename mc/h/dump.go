// Package h holds the harnesses: reference models, alphabets and bounds per property.
package h

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"

	"xcoremc/rt"
)

// ageCap bounds the ages in canonical states: older is all the same.
var ageCap = 40 * time.Second

type dumper struct {
	b    strings.Builder
	seen map[uintptr]int
	age  bool
	pub  bool
}

// Dump is a canonical deep rendering of any value, unexported fields included. Lock state and
// spare slice capacity are left out; times are given as bounded ages relative to the virtual clock.
func Dump(x interface{}) string { return dump(x, true) }

// DumpAbs is Dump with absolute times.
func DumpAbs(x interface{}) string { return dump(x, false) }

// Obs renders what a user of the library can see of a value: private fields are left out,
// thread-safe data and language tables are read through their methods.
func Obs(x interface{}) string {
	d := &dumper{seen: map[uintptr]int{}, pub: true}
	d.val(reflect.ValueOf(x))
	return d.b.String()
}

// opaque writes values without public content; false if v is not one.
func (d *dumper) opaque(v reflect.Value) bool {
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct || !v.CanInterface() {
		return false
	}
	switch o := v.Interface().(type) {
	case *x2.XDatasetTS:
		d.b.WriteString("TS" + o.GoString())
	case *x2.XDatasetCollectionTS:
		d.b.WriteString("TS<")
		for i := 0; i < o.Count(); i++ {
			e, _ := o.Get(i)
			d.val(reflect.ValueOf(e))
			d.b.WriteByte(' ')
		}
		d.b.WriteByte('>')
	case *x2.XLanguage:
		fmt.Fprintf(&d.b, "%q %v", o.GetName(), o.GetLanguage())
		e := o.GetEntries()
		keys := sortedKeys(e)
		for _, k := range append(keys, "a", "b", "z", "new", "") {
			fmt.Fprintf(&d.b, " %q=%q/%q", k, e[k], o.GetStatus(k))
		}
	case *x1.XLanguage:
		fmt.Fprintf(&d.b, "%q %v", o.Name, o.Language)
		for _, k := range sortedKeys(o.Entries) {
			fmt.Fprintf(&d.b, " %q=%q", k, o.Entries[k])
		}
	default:
		return false
	}
	return true
}

func dump(x interface{}, age bool) string {
	d := &dumper{seen: map[uintptr]int{}, age: age}
	v := reflect.ValueOf(x)
	d.val(v)
	return d.b.String()
}

var timeType = reflect.TypeOf(time.Time{})

func (d *dumper) val(v reflect.Value) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		p := v.Pointer()
		if n, ok := d.seen[p]; ok && t.Elem().Size() > 0 {
			d.b.WriteString("^" + strconv.Itoa(n))
			return
		}
		d.seen[p] = len(d.seen)
		if d.pub && d.opaque(v) {
			return
		}
		d.b.WriteByte('&')
		d.val(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteString(v.Elem().Type().String())
		d.b.WriteByte('(')
		d.val(v.Elem())
		d.b.WriteByte(')')
	case reflect.Struct:
		if !v.CanAddr() {
			n := reflect.New(t).Elem()
			n.Set(v)
			v = n
		}
		if t == timeType {
			tm := v.Interface().(time.Time)
			if tm.IsZero() {
				d.b.WriteString("t0")
			} else if d.age {
				a := rt.Base.Add(rt.Clock()).Sub(tm)
				if a > ageCap {
					a = ageCap
				}
				d.b.WriteString("t-" + a.String())
			} else {
				d.b.WriteString("t" + strconv.FormatInt(tm.UnixNano(), 10))
			}
			return
		}
		if strings.HasSuffix(t.PkgPath(), "/rt") || t.PkgPath() == "sync" || t.PkgPath() == "sync/atomic" {
			d.b.WriteByte('-')
			return
		}
		d.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if d.pub && t.Field(i).PkgPath != "" {
				continue
			}
			fv := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			d.b.WriteString(t.Field(i).Name)
			d.b.WriteByte(':')
			d.val(fv)
			d.b.WriteByte(' ')
		}
		d.b.WriteByte('}')
	case reflect.Map:
		if v.IsNil() {
			d.b.WriteString("nilmap")
			return
		}
		type kv struct {
			k string
			v reflect.Value
		}
		var ks []kv
		it := v.MapRange()
		for it.Next() {
			ks = append(ks, kv{fmt.Sprint(it.Key().Interface()), it.Value()})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
		d.b.WriteByte('[')
		for _, e := range ks {
			d.b.WriteString(strconv.Quote(e.k))
			d.b.WriteByte(':')
			d.val(e.v)
			d.b.WriteByte(' ')
		}
		d.b.WriteByte(']')
	case reflect.Slice:
		if v.IsNil() {
			d.b.WriteString("<>")
			return
		}
		fallthrough
	case reflect.Array:
		d.b.WriteByte('<')
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
			d.b.WriteByte(' ')
		}
		d.b.WriteByte('>')
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			d.b.WriteString("nilfn")
		} else {
			d.b.WriteString("fn")
		}
	case reflect.Bool:
		d.b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		d.b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		d.b.WriteString("?" + t.String())
	}
}
