// Package chk compares the implementation with the reference model and checks the properties.
package chk

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"verif/mc/ref"
)

// Outcome is what one call of Parse returned.
type Outcome struct {
	Q     *types.SoqlQuery
	Err   error
	Panic string
}

// TooLarge counts the conditions whose truth function had too large a decision diagram.
var TooLarge atomic.Int64

func Parse(s string) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Panic: fmt.Sprint(r)}
		}
	}()
	k := enter(s)
	defer leave(k)
	o.Q, o.Err = parser.Parse(s)
	return
}

// pair is a query of the model with the query the implementation returned for it.
type pair struct {
	r      *ref.Query
	q      *types.SoqlQuery
	encl   *pair
	plans  []*types.SoqlQuery
	where  *node
	wcmps  []*cmp
	wOK    bool // the WHERE list corresponds to the text
	subsOf map[*ref.Query]*types.SoqlQuery
}

type walker struct {
	want  string
	msgs  []string
	pairs []*pair
	res   *ref.Result
	main  *types.SoqlQuery
	text  string
}

func (w *walker) add(props, format string, args ...interface{}) {
	if strings.Contains(props, w.want) {
		w.msgs = append(w.msgs, fmt.Sprintf(format, args...))
	}
}

func (w *walker) wants(props string) bool { return strings.Contains(props, w.want) }

// Compare checks an accepted query against the model for one property.
func Compare(want, text string, res *ref.Result, q *types.SoqlQuery) (msg string) {
	w := &walker{want: want, res: res, main: q, text: text}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(bddTooLarge); ok {
				TooLarge.Add(1)
				msg = strings.Join(w.msgs, "; ")
				return
			}
			panic(fmt.Sprintf("%v on %q", e, text))
		}
	}()
	w.query(res.Main, q, nil)
	for _, p := range w.pairs {
		if p.q == nil {
			w.add(want, "a subquery is missing")
			return strings.Join(w.msgs, "; ")
		}
	}
	if len(w.msgs) == 0 && w.wants("P03 P04 P05") {
		for _, p := range w.pairs {
			w.plan(p)
		}
	}
	if len(w.msgs) == 0 && w.wants("P06 P09 P11") {
		w.ids()
	}
	if len(w.msgs) == 0 && w.wants("P05 P07 P10") {
		w.graphs()
	}
	if w.wants("P16") {
		w.meta()
	}
	return strings.Join(w.msgs, "; ")
}

var kindOf = map[ref.Kind]types.SoqlFieldInfoType{
	ref.KField: types.SoqlFieldInfo_Field, ref.KFieldSet: types.SoqlFieldInfo_FieldSet,
	ref.KFunc: types.SoqlFieldInfo_Function, ref.KSub: types.SoqlFieldInfo_SubQuery,
	ref.KNull: types.SoqlFieldInfo_Literal_Null, ref.KInt: types.SoqlFieldInfo_Literal_Int,
	ref.KFloat: types.SoqlFieldInfo_Literal_Float, ref.KBool: types.SoqlFieldInfo_Literal_Bool,
	ref.KStr: types.SoqlFieldInfo_Literal_String, ref.KDate: types.SoqlFieldInfo_Literal_Date,
	ref.KDateTime: types.SoqlFieldInfo_Literal_DateTime, ref.KTime: types.SoqlFieldInfo_Literal_Time,
	ref.KList: types.SoqlFieldInfo_Literal_List, ref.KParam: types.SoqlFieldInfo_ParameterizedValue,
	ref.KDateLit: types.SoqlFieldInfo_DateTimeLiteralName,
}

func samePath(impl, ref_ []string) bool {
	if len(impl) != len(ref_) {
		return false
	}
	n := len(impl)
	if n == 0 {
		return true
	}
	return ref.Fold(impl[:n-1]) == ref.Fold(ref_[:n-1]) && impl[n-1] == ref_[n-1]
}

func nul(n []string) string { return strings.Join(n, "\x00") }

func dot(n []string) string { return strings.Join(n, ".") }

// literal compares a literal value; list items have their name in the value.
func (w *walker) literal(props, where string, o *ref.Operand, typ types.SoqlFieldInfoType, value interface{}, inList bool) {
	bad := func(want interface{}) {
		w.add(props+" P14", "%s: value %v (%T) instead of %v", where, value, value, want)
	}
	switch o.Kind {
	case ref.KNull:
		if value != nil {
			bad(nil)
		}
	case ref.KInt:
		if v, ok := value.(int64); !ok || v != o.I {
			bad(o.I)
		}
	case ref.KFloat:
		v, ok := value.(float64)
		if !ok || math.Float64bits(v) != math.Float64bits(o.F) && !(math.IsNaN(v) && math.IsNaN(o.F)) {
			bad(o.F)
		}
	case ref.KBool:
		if v, ok := value.(bool); !ok || v != o.B {
			bad(o.B)
		}
	case ref.KStr:
		if v, ok := value.(string); !ok || v != o.S {
			bad(fmt.Sprintf("%q", o.S))
		}
	case ref.KDate, ref.KDateTime, ref.KTime:
		v, ok := value.(time.Time)
		if !ok || !v.Equal(o.T) {
			bad(o.T)
		} else if _, off := v.Zone(); off != 0 {
			bad(o.T)
		}
	case ref.KDateLit:
		v, ok := value.(types.SoqlDateTimeLiteralName)
		if !ok || v.Name != o.Raw[0] || v.N != o.N {
			bad(fmt.Sprintf("%s:%d", o.Raw[0], o.N))
		}
	case ref.KParam:
		if inList {
			if v, ok := value.(string); !ok || v != o.Raw[0] {
				bad(o.Raw[0])
			}
		}
	case ref.KList:
		v, ok := value.([]types.SoqlListItem)
		if !ok || len(v) != len(o.List) {
			bad(fmt.Sprintf("a list of %d", len(o.List)))
			return
		}
		for i, x := range o.List {
			if v[i].Type != kindOf[x.Kind] {
				w.add(props+" P14", "%s: list item %d has type %s instead of %s", where, i, v[i].Type, kindOf[x.Kind])
				continue
			}
			w.literal(props, fmt.Sprintf("%s item %d", where, i), x, v[i].Type, v[i].Value, true)
		}
	}
}

// operand compares an operand, selected item or parameter.
func (w *walker) operand(p *pair, props, where string, o *ref.Operand, f *types.SoqlFieldInfo) {
	if f.Type != kindOf[o.Kind] {
		x := props
		if o.Kind >= ref.KNull || f.Type >= types.SoqlFieldInfo_Literal_Null {
			x += " P14"
		}
		if o.Kind == ref.KFieldSet {
			x += " P06"
		}
		w.add(x, "%s: %s instead of %s", where, f.Type, kindOf[o.Kind])
		return
	}
	switch o.Kind {
	case ref.KField, ref.KFieldSet:
		if !samePath(f.Name, o.Name) {
			x := props + " P06"
			if p.r.Encl != nil {
				x += " P11"
			}
			w.add(x, "%s: name %s instead of %s", where, dot(f.Name), dot(o.Name))
		}
	case ref.KFunc:
		if len(f.Name) != 1 || f.Name[0] != o.Raw[0] {
			w.add(props, "%s: function %s instead of %s", where, dot(f.Name), o.Raw[0])
		}
		if len(f.Parameters) != len(o.Params) {
			w.add(props, "%s: %d parameters instead of %d", where, len(f.Parameters), len(o.Params))
			return
		}
		for i := range o.Params {
			w.operand(p, props, fmt.Sprintf("%s parameter %d", where, i), o.Params[i], &f.Parameters[i])
		}
		if f.Aggregated != o.Agg {
			w.add("P12", "%s: aggregated is %v", where, f.Aggregated)
		}
	case ref.KParam, ref.KDateLit:
		if len(f.Name) != 1 || f.Name[0] != o.Raw[0] {
			w.add(props+" P14", "%s: name %s instead of %s", where, dot(f.Name), o.Raw[0])
		}
		w.literal(props, where, o, f.Type, f.Value, false)
	case ref.KSub:
		if f.SubQuery == nil {
			w.add(props, "%s: no subquery", where)
		}
		p.subsOf[o.Sub] = f.SubQuery
	default:
		w.literal(props, where, o, f.Type, f.Value, false)
	}
}

func (w *walker) query(r *ref.Query, q *types.SoqlQuery, encl *pair) {
	p := &pair{r: r, q: q, encl: encl, subsOf: map[*ref.Query]*types.SoqlQuery{}}
	w.pairs = append(w.pairs, p)
	if q == nil {
		return
	}
	w.from(p)
	w.items(p)
	p.where, p.wcmps, p.wOK = w.cond(p, "WHERE", r.Where, r.WhereCmps, q.Where)
	w.cond(p, "HAVING", r.Having, r.HavingCmps, q.Having)
	w.keys(p)
	sub := ""
	if r.Encl != nil {
		sub = " P11"
	}
	if q.IsAggregation != r.Agg {
		w.add("P12", "IsAggregation is %v", q.IsAggregation)
	}
	if q.IsCorelated != r.Correlated {
		w.add("P11", "IsCorelated is %v", q.IsCorelated)
	}
	g := r.Paging
	if q.OffsetAndLimit != (types.SoqlOffsetAndLimitClause{Offset: g.Offset, Limit: g.Limit, OffsetParamName: g.OffsetParam, LimitParamName: g.LimitParam}) {
		w.add("P13", "paging is %+v instead of %+v", q.OffsetAndLimit, g)
	}
	f := r.For
	if q.For != (types.SoqlForClause{View: f.View, Reference: f.Reference, Update: f.Update, UpdateTracking: f.Tracking, UpdateViewstat: f.Viewstat}) {
		w.add("P13", "FOR is %+v instead of %+v", q.For, f)
	}
	_ = sub
	for _, s := range r.Subs {
		w.query(s, p.subsOf[s], p)
	}
}

func (w *walker) from(p *pair) {
	r, q := p.r, p.q
	props := "P07"
	if r.Encl != nil {
		props += " P11"
	}
	if len(q.From) == 0 {
		w.add(props, "FROM is empty")
		return
	}
	want := map[string]*ref.Obj{}
	for _, o := range r.From {
		want[ref.Fold(o.Name)] = o
	}
	seen := map[string]bool{}
	for i := range q.From {
		o := &q.From[i]
		k := ref.Fold(o.Name)
		if i > 1 && len(o.Name) < len(q.From[i-1].Name) {
			w.add("P07", "objects are not sorted by path length")
		}
		x := want[k]
		if x == nil {
			w.add(props, "FROM has %s", dot(o.Name))
			continue
		}
		if i == 0 && k != ref.Fold(r.From[0].Name) {
			w.add(props, "the first object is %s instead of %s", dot(o.Name), dot(r.From[0].Name))
		}
		if seen[k] {
			w.add("P07", "%s is listed twice", dot(o.Name))
		}
		seen[k] = true
		if o.AliasName != x.Alias {
			w.add("P07", "alias of %s is %q instead of %q", dot(o.Name), o.AliasName, x.Alias)
		}
		// the last part of a declared name is kept as written
		if !x.Implicit && !samePath(o.Name, x.Name) && i == 0 && r.Encl == nil {
			w.add("P07", "object %s instead of %s", dot(o.Name), dot(x.Name))
		}
	}
	for k, o := range want {
		if !seen[k] {
			w.add(props, "%s is missing in FROM", dot(o.Name))
		}
	}
}

func (w *walker) items(p *pair) {
	r, q := p.r, p.q
	if len(q.Fields) < len(r.Items) {
		w.add("P08", "%d fields instead of at least %d", len(q.Fields), len(r.Items))
		for _, o := range r.Items {
			if o.Kind == ref.KSub {
				p.subsOf[o.Sub] = nil
			}
		}
		return
	}
	aliases := map[string]bool{}
	for _, o := range r.Items {
		if o.Alias != "" {
			aliases[strings.ToLower(o.Alias)] = true
		}
	}
	bare, aliased := map[string]bool{}, map[string]bool{}
	for i, o := range r.Items {
		f := &q.Fields[i]
		where := fmt.Sprintf("item %d", i)
		w.operand(p, "P08", where, o, f)
		if f.NotSelected {
			w.add("P08", "%s is marked as not selected", where)
		}
		if o.Alias != "" {
			if f.AliasName != o.Alias {
				w.add("P08", "%s: alias %q instead of %q", where, f.AliasName, o.Alias)
			}
			if o.Kind == ref.KField {
				aliased[ref.Fold(o.Name)] = true
			}
			continue
		}
		generated, free := o.Kind == ref.KFunc, false
		if o.Kind == ref.KField {
			k := ref.Fold(o.Name)
			generated = bare[k]
			free = !bare[k] && aliased[k]
			bare[k] = true
		}
		switch {
		case generated && f.AliasName == "":
			w.add("P08", "%s has no generated alias", where)
		case !generated && !free && f.AliasName != "":
			w.add("P08", "%s has the alias %q", where, f.AliasName)
		}
		if a := strings.ToLower(f.AliasName); a != "" {
			if aliases[a] {
				w.add("P08", "%s: generated alias %q is in use", where, f.AliasName)
			}
			aliases[a] = true
		}
	}
	seen := map[string]bool{}
	props := "P08"
	if len(r.Subs) > 0 || r.Encl != nil {
		props += " P11"
	}
	for i := len(r.Items); i < len(q.Fields); i++ {
		f := &q.Fields[i]
		k := ref.Fold(f.Name)
		switch {
		case f.Type != types.SoqlFieldInfo_Field:
			w.add("P08", "helper %d is a %s", i, f.Type)
		case !r.Helpers[k]:
			w.add(props, "helper field %s is not needed", dot(f.Name))
		case seen[k]:
			w.add(props, "helper field %s is listed twice", dot(f.Name))
		case !f.NotSelected:
			w.add(props, "helper field %s is marked as selected", dot(f.Name))
		case f.AliasName != "":
			w.add("P08", "helper field %s has an alias", dot(f.Name))
		}
		seen[k] = true
	}
	for k := range r.Helpers {
		if !seen[k] {
			w.add(props, "helper field %s is missing", strings.ReplaceAll(k, "\x00", "."))
		}
	}
}

func (w *walker) cond(p *pair, clause string, c *ref.Cond, rc []*ref.Cond, list []types.SoqlCondition) (*node, []*cmp, bool) {
	for _, x := range rc {
		if x.Right.Kind == ref.KSub {
			p.subsOf[x.Right.Sub] = nil
		}
	}
	n, cmps, err := parsePostfix(list)
	if err != "" {
		w.add("P01 P02", "%s is not a well-formed postfix list: %s", clause, err)
		return nil, nil, false
	}
	if n.hasNot() {
		w.add("P01", "%s has a NOT operator", clause)
	}
	if len(cmps) != len(rc) {
		w.add("P01 P02", "%s has %d comparisons instead of %d", clause, len(cmps), len(rc))
		return n, cmps, false
	}
	odd := map[*ref.Cond]bool{}
	parity(c, false, odd)
	v := make([]int, len(rc))
	ok := true
	for i, x := range rc {
		y := cmps[i]
		where := fmt.Sprintf("%s comparison %d", clause, i)
		before := len(w.msgs)
		w.operand(p, "P02", where+" left", x.Left, y.l)
		w.operand(p, "P02", where+" right", x.Right, y.r)
		if len(w.msgs) > before {
			ok = false
		}
		want := opOf[x.Cmp]
		v[i], y.v = i, i
		switch y.op {
		case want:
		case complement[want]:
			y.neg = true
		default:
			w.add("P01 P02", "%s: operator %s instead of %s", where, y.op, want)
			ok = false
		}
		if odd[x] {
			want = complement[want]
		}
		if y.op != want {
			w.add("P02 P01", "%s: operator %s instead of %s", where, y.op, want)
		}
	}
	if w.wants("P01") {
		f := newAlg(len(rc))
		a, b := f.node(n), f.ref(c, v)
		if !f.equal(a, b) {
			w.add("P01", "%s has another meaning: %s", clause, f.diff(a, b))
		}
	}
	return n, cmps, ok
}

func (w *walker) keys(p *pair) {
	r, q := p.r, p.q
	sub := ""
	if r.Encl != nil {
		sub = " P11"
	}
	itemOf := func(o *ref.Operand) int {
		for i, x := range r.Items {
			if x == o {
				return i
			}
		}
		return -1
	}
	one := func(prop, where string, k *ref.Key, f *types.SoqlFieldInfo) {
		i := itemOf(k.Field)
		if k.Field.Kind == ref.KField || i < 0 {
			if f.Type != types.SoqlFieldInfo_Field {
				w.add(prop, "%s is a %s", where, f.Type)
			} else if !samePath(f.Name, k.Field.Name) {
				w.add(prop+" P06"+sub, "%s is %s instead of %s", where, dot(f.Name), dot(k.Field.Name))
			}
			return
		}
		if i >= len(q.Fields) {
			return
		}
		it := &q.Fields[i]
		if f.Type != it.Type || nul(f.Name) != nul(it.Name) || len(f.Parameters) != len(it.Parameters) || f.SubQuery != it.SubQuery {
			w.add(prop, "%s does not stand for the item with its alias", where)
		}
		if f.ColumnId != it.ColumnId {
			w.add(prop+" P09", "%s has column id %d instead of the item's %d", where, f.ColumnId, it.ColumnId)
		}
	}
	if len(q.GroupBy) != len(r.GroupBy) {
		w.add("P12", "%d GROUP BY keys instead of %d", len(q.GroupBy), len(r.GroupBy))
	} else {
		for i, k := range r.GroupBy {
			one("P12", fmt.Sprintf("GROUP BY key %d", i), k, &q.GroupBy[i])
		}
	}
	if len(q.OrderBy) != len(r.OrderBy) {
		w.add("P13", "%d ORDER BY keys instead of %d", len(q.OrderBy), len(r.OrderBy))
	} else {
		for i, k := range r.OrderBy {
			where := fmt.Sprintf("ORDER BY key %d", i)
			one("P13", where, k, &q.OrderBy[i].Field)
			if q.OrderBy[i].Desc != k.Desc || q.OrderBy[i].NullsLast != k.NullsLast {
				w.add("P13", "%s: desc=%v nulls last=%v", where, q.OrderBy[i].Desc, q.OrderBy[i].NullsLast)
			}
		}
	}
}

func foldEq(a, b []string) bool { return ref.Fold(a) == ref.Fold(b) }

func ns(n []string) []string {
	if len(n) == 0 {
		return nil
	}
	return n[:len(n)-1]
}

// plan checks the execution plan (P03, P04, P05).
func (w *walker) plan(p *pair) {
	q := p.q
	// base: the written clause if the list corresponds to it, otherwise the list itself
	vars := len(p.wcmps)
	a := newAlg(vars)
	var base table
	byKey := map[string]*cmp{}
	if p.wOK {
		v := make([]int, vars)
		for i := range v {
			v[i] = i
			if x, ok := byKey[p.wcmps[i].key]; ok { // identical comparisons have one outcome
				v[i] = x.v
				p.wcmps[i].v, p.wcmps[i].neg = x.v, x.neg
				// the outcome is that of the recorded comparison
				if x.neg != (p.wcmps[i].op != opOf[p.r.WhereCmps[i].Cmp]) {
					return
				}
			} else {
				byKey[p.wcmps[i].key] = p.wcmps[i]
			}
		}
		base = a.ref(p.r.Where, v)
	} else {
		for i, c := range p.wcmps {
			c.v, c.neg = i, false
			if x, ok := byKey[c.key]; ok {
				c.v = x.v
			} else {
				byKey[c.key] = c
			}
		}
		base = a.node(p.where)
	}

	filter := func(what string, list []types.SoqlCondition) (*node, []*cmp, bool) {
		n, cmps, err := parsePostfix(list)
		if err != "" {
			w.add("P03", "%s is not a well-formed postfix list: %s", what, err)
			return nil, nil, false
		}
		for _, c := range cmps {
			x := byKey[c.key]
			if x == nil {
				w.add("P03", "%s has a comparison that is not in WHERE", what)
				return nil, nil, false
			}
			c.v, c.neg = x.v, x.neg
		}
		return n, cmps, true
	}

	all := a.constant(true)
	ok := true
	for i := range q.From {
		o := &q.From[i]
		pl := o.PerObjectQuery
		name := dot(o.Name)
		if pl == nil {
			w.add("P03 P04", "%s has no plan", name)
			return
		}
		n, cmps, good := filter("the filter of "+name, pl.Where)
		if !good {
			ok = false
			continue
		}
		t := a.node(n)
		all = a.and(all, t)

		own := func(f *types.SoqlFieldInfo) bool {
			switch f.Type {
			case types.SoqlFieldInfo_Field:
				return foldEq(ns(f.Name), o.Name)
			case types.SoqlFieldInfo_Function, types.SoqlFieldInfo_SubQuery, types.SoqlFieldInfo_FieldSet:
				return false
			}
			return true
		}
		for _, c := range cmps {
			if !own(c.l) || !own(c.r) {
				w.add("P04", "the filter of %s has a comparison on something else", name)
			}
		}
		// selectivity and inner join
		named := false
		isOwn := make([]bool, vars)
		for _, c := range p.wcmps {
			for _, f := range []*types.SoqlFieldInfo{c.l, c.r} {
				if f.Type == types.SoqlFieldInfo_Field && foldEq(ns(f.Name), o.Name) {
					named = true
				}
			}
			if own(c.l) && own(c.r) {
				isOwn[c.v] = true
			}
		}
		best := a.project(base, isOwn) // what the object's own comparisons must satisfy
		fails := a.constant(true)      // assignments where all comparisons on the object fail
		for _, c := range p.wcmps {
			if isOwn[c.v] {
				x := a.variable(c.v)
				if !c.neg { // the recorded comparison fails
					x = a.not(x)
				}
				fails = a.and(fails, x)
			}
		}
		if !a.equal(t, best) {
			w.add("P04", "the filter of %s: %s", name, a.diff(t, best))
		}
		join := i > 0 && a.empty(a.and(base, fails))
		if o.HasConditions != named {
			w.add("P05", "HasConditions of %s is %v", name, o.HasConditions)
		}
		if o.InnerJoin != join {
			w.add("P05", "InnerJoin of %s is %v", name, o.InnerJoin)
		}

		// fields, sort keys, paging, for
		var fields []*types.SoqlFieldInfo
		for k := range q.Fields {
			f := &q.Fields[k]
			if (f.Type == types.SoqlFieldInfo_Field || f.Type == types.SoqlFieldInfo_FieldSet) && foldEq(ns(f.Name), o.Name) {
				fields = append(fields, f)
			}
		}
		if len(fields) != len(pl.Fields) {
			w.add("P04", "the plan of %s has %d fields instead of %d", name, len(pl.Fields), len(fields))
		} else {
			for k, f := range fields {
				g := &pl.Fields[k]
				if f.Type != g.Type || nul(f.Name) != nul(g.Name) || f.NotSelected != g.NotSelected {
					w.add("P04", "field %d of the plan of %s is %s %s instead of %s %s", k, name, g.Type, dot(g.Name), f.Type, dot(f.Name))
				}
			}
		}
		var order []*types.SoqlOrderByInfo
		for k := range q.OrderBy {
			f := &q.OrderBy[k]
			if f.Field.Type == types.SoqlFieldInfo_Field && foldEq(ns(f.Field.Name), o.Name) {
				order = append(order, f)
			}
		}
		if len(order) != len(pl.OrderBy) {
			w.add("P04", "the plan of %s has %d sort keys instead of %d", name, len(pl.OrderBy), len(order))
		} else {
			for k, f := range order {
				g := &pl.OrderBy[k]
				if g.Field.Type != f.Field.Type || nul(g.Field.Name) != nul(f.Field.Name) || g.Desc != f.Desc || g.NullsLast != f.NullsLast {
					w.add("P04", "sort key %d of the plan of %s is %s", k, name, dot(g.Field.Name))
				}
			}
		}
		pg := types.SoqlOffsetAndLimitClause{}
		if i == 0 {
			pg = q.OffsetAndLimit
		}
		if pl.OffsetAndLimit != pg {
			w.add("P04", "the paging of the plan of %s is %+v", name, pl.OffsetAndLimit)
		}
		if pl.For != q.For {
			w.add("P04", "the FOR clause of the plan of %s is %+v", name, pl.For)
		}
		if len(pl.From) != 1 || !foldEq(pl.From[0].Name, o.Name) {
			w.add("P04", "the plan of %s is on another object", name)
		}
		if len(pl.GroupBy)+len(pl.Having)+len(pl.PostProcessWhere) != 0 {
			w.add("P04", "the plan of %s has further clauses", name)
		}
	}
	if n, _, good := filter("the post-process filter", q.PostProcessWhere); good && ok {
		all = a.and(all, a.node(n))
		if !a.equal(all, base) {
			w.add("P03", "the plan filters other rows: %s", a.diff(all, base))
		}
	}
}

func (t table) set(r int) { t[r>>6] |= 1 << (uint(r) & 63) }

// project: rows whose values of the kept variables occur in t.
func project(t table, n int, keep []bool) table {
	m := 0
	for i, k := range keep {
		if k {
			m |= 1 << uint(i)
		}
	}
	seen := map[int]bool{}
	for r := 0; r < 1<<uint(n); r++ {
		if t.row(r) {
			seen[r&m] = true
		}
	}
	u := constant(n, false)
	for r := 0; r < 1<<uint(n); r++ {
		if seen[r&m] {
			u.set(r)
		}
	}
	return u
}

// owner finds the query and object that own a field used in p.
func (p *pair) owner(name []string) (*pair, *types.SoqlObjectInfo) {
	n := ns(name)
	for o := p; o != nil; o = o.encl {
		for i := range o.q.From {
			if foldEq(o.q.From[i].Name, n) {
				return o, &o.q.From[i]
			}
		}
		if !o.r.InSelect {
			break
		}
	}
	return nil, nil
}

// ids checks keys, column ids, view ids, column indexes and counters (P06, P09).
func (w *walker) ids() {
	maxC, maxV, maxQ := 0, 0, 0
	colOf := map[string]int{}  // owner + name -> column id
	nameOf := map[int]string{} // column id -> owner + name or item
	keyOf := map[string]string{}
	nameOfKey := map[string]string{}
	note := func(f *types.SoqlFieldInfo) {
		if f.ColumnId > maxC {
			maxC = f.ColumnId
		}
	}
	ownId := func(where, id string, f *types.SoqlFieldInfo) {
		if x, ok := nameOf[f.ColumnId]; ok && x != id {
			w.add("P09", "%s: column id %d is also that of %s", where, f.ColumnId, x)
		}
		nameOf[f.ColumnId] = id
	}
	var field func(p *pair, where string, f *types.SoqlFieldInfo, strict bool)
	field = func(p *pair, where string, f *types.SoqlFieldInfo, strict bool) {
		note(f)
		if f.Type == types.SoqlFieldInfo_Field {
			o, obj := p.owner(f.Name)
			if o == nil {
				w.add("P09 P11", "%s: no object owns %s", where, dot(f.Name))
				return
			}
			p9 := "P09"
			if o != p {
				p9 = "P09 P11"
			}
			k := ref.Fold(f.Name)
			if x, ok := keyOf[k]; ok && x != f.Key {
				w.add("P06", "%s: %s has the keys %s and %s", where, dot(f.Name), x, f.Key)
			}
			keyOf[k] = f.Key
			if x, ok := nameOfKey[f.Key]; ok && x != k {
				w.add("P06", "%s: %s and %q have the key %s", where, dot(f.Name), x, f.Key)
			}
			nameOfKey[f.Key] = k
			id := fmt.Sprintf("query %d field %q", o.q.QueryId, k)
			if f.ColumnId == 0 {
				w.add("P06 P09", "%s: %s has no column id", where, dot(f.Name))
				return
			}
			if x, ok := colOf[id]; ok && x != f.ColumnId {
				w.add("P06 "+p9, "%s: %s has the column ids %d and %d", where, id, x, f.ColumnId)
			}
			colOf[id] = f.ColumnId
			if x, ok := nameOf[f.ColumnId]; ok && x != id {
				w.add("P06 P09", "%s: column id %d of %s is also that of %s", where, f.ColumnId, id, x)
			}
			nameOf[f.ColumnId] = id
			if f.ViewId != obj.ViewId {
				w.add(p9, "%s: view id of %s is %d instead of %d", where, dot(f.Name), f.ViewId, obj.ViewId)
			}
			pl := obj.PerObjectQuery
			if pl == nil {
				return
			}
			if f.ColIndex < 0 || f.ColIndex >= len(pl.Fields) {
				w.add(p9, "%s: column index %d of %s is not in the plan", where, f.ColIndex, dot(f.Name))
			} else if g := &pl.Fields[f.ColIndex]; g.Type != types.SoqlFieldInfo_Field || !foldEq(g.Name, f.Name) {
				w.add(p9, "%s: column index %d of %s is %s %s in the plan", where, f.ColIndex, dot(f.Name), g.Type, dot(g.Name))
			}
			return
		}
		for i := range f.Parameters {
			field(p, fmt.Sprintf("%s parameter %d", where, i), &f.Parameters[i], strict)
		}
	}
	var funcs func(where string, f *types.SoqlFieldInfo)
	funcs = func(where string, f *types.SoqlFieldInfo) {
		if f.Type == types.SoqlFieldInfo_Function {
			if f.ColumnId != 0 {
				ownId(where, where, f)
			}
			for i := range f.Parameters {
				funcs(fmt.Sprintf("%s parameter %d", where, i), &f.Parameters[i])
			}
		}
	}
	for _, p := range w.pairs {
		q := p.q
		if q.QueryId > maxQ {
			maxQ = q.QueryId
		}
		at := func(s string, i int) string { return fmt.Sprintf("query %d %s %d", q.QueryId, s, i) }
		for i := range q.From {
			if v := q.From[i].ViewId; v > maxV {
				maxV = v
			}
		}
		for i := range q.Fields {
			f := &q.Fields[i]
			where := at("item", i)
			field(p, where, f, true)
			if f.Type != types.SoqlFieldInfo_Field {
				if f.ColumnId == 0 {
					w.add("P09", "%s has no column id", where)
				} else {
					ownId(where, where, f)
				}
				if f.Type == types.SoqlFieldInfo_Function {
					for k := range f.Parameters {
						funcs(fmt.Sprintf("%s parameter %d", where, k), &f.Parameters[k])
					}
				}
			}
		}
		for i := range q.GroupBy {
			field(p, at("GROUP BY", i), &q.GroupBy[i], true)
		}
		for i := range q.OrderBy {
			field(p, at("ORDER BY", i), &q.OrderBy[i].Field, true)
		}
		for i := range q.Where {
			field(p, at("WHERE", i), &q.Where[i].Value, true)
			funcs(at("WHERE", i), &q.Where[i].Value)
		}
		for i := range q.Having {
			field(p, at("HAVING", i), &q.Having[i].Value, true)
			funcs(at("HAVING", i), &q.Having[i].Value)
		}
		for i := range q.From {
			pl := q.From[i].PerObjectQuery
			if pl == nil {
				continue
			}
			for k := range pl.Fields {
				f := &pl.Fields[k]
				field(p, at("plan "+dot(q.From[i].Name)+" field", k), f, true)
				if f.Type == types.SoqlFieldInfo_FieldSet {
					for j := range q.Fields {
						if g := &q.Fields[j]; g.Type == f.Type && nul(g.Name) == nul(f.Name) && g.ColumnId == f.ColumnId {
							f = nil
							break
						}
					}
					if f != nil {
						w.add("P09", "plan of %s: the field set has another column id", dot(q.From[i].Name))
					}
				}
			}
			for k := range pl.OrderBy {
				field(p, at("plan "+dot(q.From[i].Name)+" sort key", k), &pl.OrderBy[k].Field, true)
			}
			for k := range pl.Where {
				field(p, at("plan "+dot(q.From[i].Name)+" filter", k), &pl.Where[k].Value, true)
			}
		}
	}
	m := w.main.Meta
	if m.NextColumnId != maxC+1 || m.NextViewId != maxV+1 || m.NextQueryId != maxQ+1 {
		w.add("P09", "next ids are %d %d %d (columns, views, queries), the largest used %d %d %d", m.NextColumnId, m.NextViewId, m.NextQueryId, maxC, maxV, maxQ)
	}
}

// graphs checks the query graph and the view graph (P05, P07, P10).
func (w *walker) graphs() {
	m := w.main.Meta
	ids := map[int]bool{}
	depth := 0
	for _, p := range w.pairs {
		q := p.q
		if ids[q.QueryId] || q.QueryId <= 0 {
			w.add("P10", "query id %d is not unique", q.QueryId)
		}
		ids[q.QueryId] = true
		if p.r.Depth > depth {
			depth = p.r.Depth
		}
		l, ok := m.QueryGraph[q.QueryId]
		if !ok {
			w.add("P10", "query %d is not in the query graph", q.QueryId)
			continue
		}
		parent := 0
		if p.encl != nil {
			parent = p.encl.q.QueryId
		}
		cond := p.encl != nil && !p.r.InSelect
		if l.ParentQueryId != parent || l.Depth != p.r.Depth || l.IsConditional != cond {
			w.add("P10", "query graph entry %d is parent %d depth %d conditional %v instead of %d %d %v", q.QueryId, l.ParentQueryId, l.Depth, l.IsConditional, parent, p.r.Depth, cond)
		}
		if l.Query != q {
			w.add("P10", "query graph entry %d refers to another query", q.QueryId)
		}
		var enclQ *types.SoqlQuery
		if p.encl != nil && p.r.InSelect {
			enclQ = p.encl.q
		}
		if q.Parent != enclQ && (enclQ != nil || q.Parent != nil && (p.encl == nil || q.Parent != p.encl.q)) {
			w.add("P10", "query %d has another parent", q.QueryId)
		}
	}
	if len(m.QueryGraph) != len(w.pairs) {
		w.add("P10", "the query graph has %d entries instead of %d", len(m.QueryGraph), len(w.pairs))
	}
	if m.MaxQueryDepth != depth {
		w.add("P10", "MaxQueryDepth is %d instead of %d", m.MaxQueryDepth, depth)
	}

	views := map[int]bool{}
	maxDepth := 0
	for _, l := range m.ViewGraph {
		if l.Depth > maxDepth {
			maxDepth = l.Depth
		}
	}
	n := 0
	for _, p := range w.pairs {
		q := p.q
		for i := range q.From {
			o := &q.From[i]
			n++
			if views[o.ViewId] || o.ViewId <= 0 {
				w.add("P07 P09 P10", "view id %d of %s is not unique", o.ViewId, dot(o.Name))
			}
			views[o.ViewId] = true
			parent := 0
			if len(o.Name) > 1 {
				par := o.Name[:len(o.Name)-1]
				if _, x := p.owner(append(append([]string{}, par...), "")); x != nil {
					parent = x.ViewId
				} else {
					w.add("P07", "the parent of %s is in no query", dot(o.Name))
				}
			}
			if o.ParentViewId != parent {
				w.add("P07", "parent view id of %s is %d instead of %d", dot(o.Name), o.ParentViewId, parent)
			}
			l, ok := m.ViewGraph[o.ViewId]
			if !ok {
				w.add("P10", "%s is not in the view graph", dot(o.Name))
				continue
			}
			d, nested := len(o.Name), 0
			for e := p; e != nil; e = e.encl {
				if e.encl != nil && !e.r.InSelect {
					d += len(e.encl.q.From[0].Name)
					nested++
				}
			}
			many := p.r.InSelect && i == 0
			if l.Name != o.Name[len(o.Name)-1] || l.ParentViewId != parent || l.QueryId != q.QueryId ||
				l.Depth != d && nested <= 1 || l.QueryDepth != p.r.Depth || l.Many != many || l.NonResult != p.r.InCond {
				w.add("P10", "view graph entry of %s in query %d is %s parent %d query %d depth %d query depth %d many %v non-result %v", dot(o.Name), q.QueryId,
					l.Name, l.ParentViewId, l.QueryId, l.Depth, l.QueryDepth, l.Many, l.NonResult)
			}
			if l.Object != o || l.Query != q {
				w.add("P10", "view graph entry of %s refers to another object or query", dot(o.Name))
			}
			join := o.InnerJoin
			below := i > 0 && len(o.Name) > len(q.From[0].Name) && foldEq(o.Name[:len(q.From[0].Name)], q.From[0].Name)
			for j := range q.From {
				x := &q.From[j]
				if below && x.InnerJoin && len(x.Name) >= len(o.Name) && foldEq(x.Name[:len(o.Name)], o.Name) {
					join = true
				}
			}
			if l.InnerJoin != join && (below || i == 0 || join) {
				w.add("P05", "the view graph has inner join %v for %s", l.InnerJoin, dot(o.Name))
			}
		}
	}
	if len(m.ViewGraph) != n {
		w.add("P10", "the view graph has %d entries instead of %d", len(m.ViewGraph), n)
	}
	if m.MaxViewDepth != maxDepth {
		w.add("P10", "MaxViewDepth is %d instead of %d", m.MaxViewDepth, maxDepth)
	}
}

func (w *walker) meta() {
	m := w.main.Meta
	set := func(what string, got map[string]struct{}, want map[string]bool) {
		var a, b []string
		for k := range got {
			a = append(a, k)
		}
		for k := range want {
			b = append(b, k)
		}
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, "\x00") != strings.Join(b, "\x00") {
			w.add("P16", "%s are %q instead of %q", what, a, b)
		}
	}
	set("functions", m.Functions, w.res.Functions)
	set("parameters", m.Parameters, w.res.Parameters)
	set("date literals", m.DateTimeLiterals, w.res.DateLits)
	if m.Source != w.text {
		w.add("P16", "source is %q", m.Source)
	}
}
