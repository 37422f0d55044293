package chk

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// roundTrip encodes and decodes a query and compares.
func roundTrip(q *types.SoqlQuery) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	if n := 0; !jsonParts(q, &n) {
		return "" // the JSON of subqueries nested in conditions doubles with each level
	}
	a, err := json.Marshal(q)
	if err != nil {
		return "encoding fails: " + err.Error()
	}
	var r types.SoqlQuery
	if err := json.Unmarshal(a, &r); err != nil {
		return "decoding fails: " + err.Error()
	}
	if q.Meta != nil && r.Meta != nil && string([]rune(q.Meta.Source)) == r.Meta.Source {
		// JSON has no bytes that are not UTF-8
		r.Meta.Source = q.Meta.Source
	}
	if d := diff("query", reflect.ValueOf(q).Elem(), reflect.ValueOf(&r).Elem(), true); d != "" {
		return "the decoded query differs: " + d
	}
	b, err := json.Marshal(&r)
	if err != nil {
		return "encoding the decoded query fails: " + err.Error()
	}
	if !bytes.Equal(a, b) {
		return "the decoded query has another JSON"
	}
	return ""
}

var timeType = reflect.TypeOf(time.Time{})

// diff compares two values; json: fields that are not part of the JSON are ignored.
func diff(at string, a, b reflect.Value, js bool) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s: %v and %v", at, a, b)
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: types %s and %s", at, a.Type(), b.Type())
	}
	if a.Type() == timeType {
		if !a.Interface().(time.Time).Equal(b.Interface().(time.Time)) {
			return fmt.Sprintf("%s: %v and %v", at, a, b)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: one is nil", at)
			}
			return ""
		}
		return diff(at, a.Elem(), b.Elem(), js)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d elements", at, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(fmt.Sprintf("%s[%d]", at, i), a.Index(i), b.Index(i), js); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d entries", at, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			x := b.MapIndex(k)
			if !x.IsValid() {
				return fmt.Sprintf("%s: no entry %v", at, k)
			}
			if d := diff(fmt.Sprintf("%s[%v]", at, k), a.MapIndex(k), x, js); d != "" {
				return d
			}
		}
	case reflect.Struct:
		t := a.Type()
		if js && t == reflect.TypeOf(types.SoqlCondition{}) && a.Field(0).Interface() != types.SoqlConditionOpcode_FieldInfo {
			// operators have no value
			return diff(at+".Opcode", a.Field(0), b.Field(0), js)
		}
		for i := 0; i < t.NumField(); i++ {
			if js && strings.HasPrefix(t.Field(i).Tag.Get("json"), "-") {
				continue
			}
			if d := diff(at+"."+t.Field(i).Name, a.Field(i), b.Field(i), js); d != "" {
				return d
			}
		}
	case reflect.Float64:
		x, y := a.Float(), b.Float()
		if math.IsNaN(x) && math.IsNaN(y) {
			return ""
		}
		if math.Float64bits(x) != math.Float64bits(y) {
			return fmt.Sprintf("%s: %v and %v", at, x, y)
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v and %v", at, a, b)
		}
	}
	return ""
}

// jsonParts counts what the JSON of a query consists of, up to a limit.
func jsonParts(q *types.SoqlQuery, n *int) bool {
	if q == nil {
		return true
	}
	var field func(f *types.SoqlFieldInfo) bool
	field = func(f *types.SoqlFieldInfo) bool {
		*n++
		for i := range f.Parameters {
			if !field(&f.Parameters[i]) {
				return false
			}
		}
		return *n < 200_000 && jsonParts(f.SubQuery, n)
	}
	fields := func(l []types.SoqlFieldInfo) bool {
		for i := range l {
			if !field(&l[i]) {
				return false
			}
		}
		return true
	}
	conds := func(l []types.SoqlCondition) bool {
		for i := range l {
			if !field(&l[i].Value) {
				return false
			}
		}
		return true
	}
	for i := range q.From {
		if *n++; !jsonParts(q.From[i].PerObjectQuery, n) {
			return false
		}
	}
	for i := range q.OrderBy {
		if !field(&q.OrderBy[i].Field) {
			return false
		}
	}
	return fields(q.Fields) && fields(q.GroupBy) && conds(q.Where) && conds(q.Having) && conds(q.PostProcessWhere)
}
