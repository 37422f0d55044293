// Package dump looks at values by reflection: a canonical text of a value, the memory it occupies, and scribbling
// over everything that is reachable from it.
package dump

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

var timeType = reflect.TypeOf(time.Time{})

// skip: time stamps of the result.
func skip(t reflect.Type, f string) bool {
	return t.Name() == "SoqlQueryMeta" && (f == "Date" || f == "ElapsedTime")
}

type dumper struct {
	b    strings.Builder
	path []uintptr
}

// Value returns a canonical text of everything reachable from v, without the time stamps of results. A pointer to a value
// that is being printed already appears as its distance, so that back references are part of the text.
func Value(v interface{}) string {
	var d dumper
	d.value(reflect.ValueOf(v))
	return d.b.String()
}

func (d *dumper) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		d.b.WriteString("nil")
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		p := v.Pointer()
		for i := len(d.path) - 1; i >= 0; i-- {
			if d.path[i] == p {
				fmt.Fprintf(&d.b, "^%d", len(d.path)-i)
				return
			}
		}
		d.path = append(d.path, p)
		d.b.WriteString("&")
		d.value(v.Elem())
		d.path = d.path[:len(d.path)-1]
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		fmt.Fprintf(&d.b, "(%s)", v.Elem().Type())
		d.value(v.Elem())
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanInterface() {
				d.b.WriteString(v.Interface().(time.Time).Format(time.RFC3339Nano))
			}
			return
		}
		d.b.WriteString("{")
		n := 0
		for i := 0; i < v.NumField(); i++ {
			if skip(v.Type(), v.Type().Field(i).Name) || v.Field(i).IsZero() {
				continue
			}
			if n++; n > 1 {
				d.b.WriteString(" ")
			}
			d.b.WriteString(v.Type().Field(i).Name)
			d.b.WriteString(":")
			d.value(v.Field(i))
		}
		d.b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.b.WriteString(" ")
			}
			d.value(v.Index(i))
		}
		d.b.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		var es []string
		for _, k := range v.MapKeys() {
			e := dumper{path: append([]uintptr(nil), d.path...)}
			e.value(k)
			e.b.WriteString(":")
			e.value(v.MapIndex(k))
			es = append(es, e.b.String())
		}
		sort.Strings(es)
		d.b.WriteString("map[" + strings.Join(es, " ") + "]")
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		fmt.Fprint(&d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(&d.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(&d.b, v.Uint())
	case reflect.Float32, reflect.Float64:
		d.b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		d.b.WriteString("?" + v.Kind().String())
	}
}

// Range is a part of the memory that belongs to a value and can be modified through it.
type Range struct {
	From, To uintptr
	What     string
	keep     unsafe.Pointer // the memory is not given to something else as long as the range exists
}

// Memory returns the memory reachable from v through pointers, slices and maps (maps by their address).
func Memory(v interface{}) []Range {
	m := &memory{seen: map[[2]uintptr]bool{}}
	m.value(reflect.ValueOf(v), "")
	sort.Slice(m.r, func(i, j int) bool { return m.r[i].From < m.r[j].From })
	return m.r
}

type memory struct {
	r    []Range
	seen map[[2]uintptr]bool
}

func (m *memory) add(p unsafe.Pointer, size uintptr, what string) bool {
	if size == 0 {
		return false
	}
	from := uintptr(p)
	k := [2]uintptr{from, from + size}
	if m.seen[k] {
		return false
	}
	m.seen[k] = true
	m.r = append(m.r, Range{from, from + size, what, p})
	return true
}

func (m *memory) value(v reflect.Value, what string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || !m.add(v.UnsafePointer(), v.Type().Elem().Size(), what) {
			return
		}
		m.value(v.Elem(), what)
	case reflect.Interface:
		if !v.IsNil() {
			m.value(v.Elem(), what)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			m.value(v.Field(i), what+"."+v.Type().Field(i).Name)
		}
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		if v.Pointer() != 0 {
			m.add(v.UnsafePointer(), v.Type().Elem().Size()*uintptr(v.Cap()), what)
		}
		for i := 0; i < v.Len(); i++ {
			m.value(v.Index(i), fmt.Sprintf("%s[%d]", what, i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			m.value(v.Index(i), fmt.Sprintf("%s[%d]", what, i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		if !m.add(v.UnsafePointer(), 1, what) {
			return
		}
		for _, k := range v.MapKeys() {
			m.value(v.MapIndex(k), fmt.Sprintf("%s[%v]", what, k))
		}
	}
}

// Common reports memory that both values reach.
func Common(a, b []Range) string {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].To <= b[j].From:
			i++
		case b[j].To <= a[i].From:
			j++
		default:
			return fmt.Sprintf("%s and %s", name(a[i]), name(b[j]))
		}
	}
	return ""
}

func name(r Range) string {
	if r.What == "" {
		return "the query"
	}
	return r.What
}

// Scribble overwrites everything that is reachable from v, including the spare capacity of slices.
func Scribble(v interface{}) {
	s := &scribbler{seen: map[[2]uintptr]bool{}}
	s.value(reflect.ValueOf(v))
}

type scribbler struct{ seen map[[2]uintptr]bool }

func (s *scribbler) once(p uintptr, t reflect.Type) bool {
	// the type is part of the key: a struct and its first field have one address
	k := [2]uintptr{p, uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&t))[1])}
	if p == 0 || s.seen[k] {
		return false
	}
	s.seen[k] = true
	return true
}

func (s *scribbler) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || !s.once(v.Pointer(), v.Type()) {
			return
		}
		s.value(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		s.value(e)
		if v.CanSet() && v.NumMethod() == 0 {
			v.Set(reflect.ValueOf("scribbled"))
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			s.value(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || !s.once(v.Pointer(), v.Type()) {
			return
		}
		w := v.Slice(0, v.Cap())
		for i := 0; i < w.Len(); i++ {
			s.value(w.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.value(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() || !s.once(v.Pointer(), v.Type()) {
			return
		}
		keys := v.MapKeys()
		for i, k := range keys {
			e := v.MapIndex(k)
			n := reflect.New(e.Type()).Elem()
			n.Set(e)
			s.value(n)
			if i%2 == 0 {
				v.SetMapIndex(k, reflect.Value{})
			} else {
				v.SetMapIndex(k, n)
			}
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scribbled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 5)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 5)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 1)
		}
	}
}
