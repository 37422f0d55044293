package ref

import (
	"sort"
	"strconv"
	"strings"
)

// Reject is the reason why a syntactically complete query is not accepted.
type Reject struct {
	Prop string // property that states the rule
	Msg  string
}

type rejection struct{ Reject }

func reject(prop, msg string) { panic(rejection{Reject{prop, msg}}) }

// Fold is the case-insensitive identity of a name.
func Fold(name []string) string {
	r := make([]string, len(name))
	for i, s := range name {
		r[i] = strings.ToLower(s)
	}
	return strings.Join(r, "\x00")
}

// Result of the model for a whole text.
type Result struct {
	Main       *Query
	Queries    []*Query // in the order main, then depth first
	Functions  map[string]bool
	Parameters map[string]bool
	DateLits   map[string]bool
}

// Analyze returns the model result, or (nil, reason): reason is nil if the text is not in the language.
func Analyze(s string) (r *Result, why *Reject) {
	q, ok := ParseSyntax(s)
	if !ok {
		return nil, nil
	}
	r = &Result{Main: q, Functions: map[string]bool{}, Parameters: map[string]bool{}, DateLits: map[string]bool{}}
	defer func() {
		if e := recover(); e != nil {
			if x, isRej := e.(rejection); isRej {
				r, why = nil, &x.Reject
				return
			}
			panic(e)
		}
	}()
	r.query(q, nil, false, 1, nil)
	return r, nil
}

func with(ns []string, last ...string) []string {
	return append(append([]string{}, ns...), last...)
}

func (q *Query) has(ns []string) bool {
	k := Fold(ns)
	for _, o := range q.From {
		if Fold(o.Name) == k {
			return true
		}
	}
	return false
}

// Primary is the query's first object.
func (q *Query) Primary() []string { return q.From[0].Name }

func (q *Query) implicit(path []string) {
	q.scope[Fold(path)] = path
	if !q.has(path) {
		q.From = append(q.From, &Obj{Name: path, Implicit: true})
	}
}

// walk replaces every known prefix of path that is longer than done by the path it stands for and
// registers the unknown ones. The first done components are the path of an object.
func (q *Query) walk(path []string, done, drop int, register func(p []string)) []string {
	for i := done + 1; i <= len(path)-drop; i++ {
		if full, ok := q.scope[Fold(path[:i])]; ok {
			path = with(full, path[i:]...)
			i = len(full)
		} else {
			register(append([]string{}, path[:i]...))
		}
	}
	return path
}

func (q *Query) declare(base []string, isPrimary bool, o *Obj) {
	path := append([]string{}, o.Raw...)
	done := 0
	if full, ok := q.scope[Fold(path[:1])]; ok {
		path = with(full, path[1:]...)
		done = len(full)
	} else if !isPrimary {
		path = with(base, path...)
		done = len(base)
	}
	path = q.walk(path, done, 1, func(p []string) {
		q.scope[Fold(p)] = p
		q.From = append(q.From, &Obj{Name: p, Implicit: true})
	})
	o.Name = path
	q.scope[Fold(path)] = path
	if o.Alias != "" {
		q.scope[Fold([]string{o.Alias})] = path
		q.scope[Fold(with(path[:len(path)-1], o.Alias))] = path
	}
}

type place struct{ sel, where, having, order, param bool }

func (q *Query) resolve(raw []string, pl place) []string {
	name := raw
	if len(name) == 1 {
		name = with(q.Primary(), name...)
		if pl.sel {
			q.own(name)
		}
		return name
	}
	last := name[len(name)-1]
	full, ok := q.scope[Fold(name[:len(name)-1])]
	if !ok {
		done := 0
		if _, known := q.scope[Fold(name[:1])]; !known {
			name = with(q.Primary(), name...)
			done = len(q.Primary())
		}
		name = q.walk(name, done, 1, func(p []string) {
			if pl.order {
				reject("P19", "ORDER BY names an object that is not used")
			}
			q.implicit(p)
		})
		full = q.scope[Fold(name[:len(name)-1])]
		if full == nil {
			full = name[:len(name)-1]
		}
	}
	name = with(full, last)
	if pl.sel {
		q.own(name)
	}
	return name
}

func (q *Query) own(name []string) {
	p := q.Primary()
	if len(name) <= len(p) || Fold(name[:len(p)]) != Fold(p) {
		reject("P19", "selected item of another object")
	}
}

func fn(o *Operand) string { return strings.ToLower(o.Raw[0]) }

func aggregates(o *Operand) bool {
	if o.Kind != KFunc {
		return false
	}
	switch fn(o) {
	case "count", "count_distinct":
		return true
	}
	for _, p := range o.Params {
		if aggregates(p) {
			return true
		}
	}
	return false
}

func (r *Result) operand(q *Query, o *Operand, pl place, grouping map[string]bool) {
	inGroup := func(name []string, alias string) bool {
		return grouping[Fold(name)] || alias != "" && grouping[Fold(with(q.Primary(), alias))]
	}
	switch o.Kind {
	case KField:
		o.Name = q.resolve(o.Raw, pl)
		if !pl.param && (pl.having || pl.sel && q.Agg) && !inGroup(o.Name, o.Alias) {
			reject("P12", "not a grouping field")
		}
	case KFunc:
		f := fn(o)
		r.Functions[f] = true
		o.Name = o.Raw
		if f == "fields" {
			switch {
			case pl.param || !pl.sel:
				reject("P19", "field set outside the select list")
			case q.Agg:
				reject("P12", "field set in an aggregation")
			case len(o.Params) != 1 || o.Params[0].Kind != KField:
				reject("P19", "malformed field set")
			}
			o.Kind = KFieldSet
			o.Raw = o.Params[0].Raw
			o.Params = nil
			o.Alias = ""
			name := o.Raw
			full, ok := q.Primary(), true
			if len(name) > 1 {
				full, ok = q.scope[Fold(name[:len(name)-1])]
			}
			if !ok {
				reject("P19", "field set of an unknown object")
			}
			o.Name = with(full, name[len(name)-1])
			q.own(o.Name)
			return
		}
		if f == "count" || f == "count_distinct" {
			if !pl.sel && !pl.having {
				reject("P12", "aggregate function in WHERE")
			}
			if len(o.Params) > 1 || f == "count_distinct" && len(o.Params) != 1 ||
				len(o.Params) == 1 && o.Params[0].Kind != KField {
				reject("P12", "wrong parameters of an aggregate function")
			}
		}
		for _, p := range o.Params {
			sub := pl
			sub.param = true
			r.operand(q, p, sub, grouping)
		}
		if pl.having || pl.sel && q.Agg {
			fields, funcs := false, false
			for _, p := range o.Params {
				fields = fields || p.Kind == KField
				funcs = funcs || p.Kind == KFunc
			}
			o.Agg = (fields || f == "count") && !funcs
			if !o.Agg {
				for _, p := range o.Params {
					if p.Kind == KField && !inGroup(p.Name, p.Alias) {
						reject("P12", "parameter is not a grouping field")
					}
				}
			}
		}
	case KParam:
		o.Name = o.Raw
		r.Parameters[strings.ToLower(o.Raw[0])] = true
	case KDateLit:
		o.Name = o.Raw
		r.DateLits[strings.ToLower(o.Raw[0])] = true
	case KList:
		for _, i := range o.List {
			r.operand(q, i, place{param: true}, nil)
		}
	}
}

// Cmps lists the comparisons of a condition in written order.
func (c *Cond) Cmps() []*Cond {
	if c == nil {
		return nil
	}
	if c.Op == CCmp {
		return []*Cond{c}
	}
	return append(c.L.Cmps(), c.R.Cmps()...)
}

// Eval evaluates a condition; out gives the outcome of the comparisons by Index.
func (c *Cond) Eval(out func(i int) bool) bool {
	switch c.Op {
	case CAnd:
		return c.L.Eval(out) && c.R.Eval(out)
	case COr:
		return c.L.Eval(out) || c.R.Eval(out)
	case CNot:
		return !c.L.Eval(out)
	}
	return out(c.Index)
}

// Same reports whether two written items denote one column.
func columnOf(q *Query, o *Operand) string {
	if o.Kind == KField {
		return "f" + Fold(o.Name)
	}
	for i, x := range q.Items {
		if x == o {
			return "i" + strconv.Itoa(i)
		}
	}
	return ""
}

func eachField(o *Operand, f func(o *Operand)) {
	if o.Kind == KField {
		f(o)
	}
	for _, p := range o.Params {
		eachField(p, f)
	}
}

func (r *Result) query(q, encl *Query, inSelect bool, depth int, scope map[string][]string) {
	r.Queries = append(r.Queries, q)
	q.Encl, q.InSelect, q.Depth = encl, inSelect, depth
	q.InCond = encl != nil && (!inSelect || encl.InCond)
	q.scope = map[string][]string{}
	var base []string
	if inSelect {
		for k, v := range scope {
			q.scope[k] = v
		}
		base = encl.Primary()
	} else {
		base = q.Declared[0].Raw
		if len(base) != 1 {
			reject("P19", "qualified primary object")
		}
	}

	aliases := map[string]bool{}
	q.From = append(q.From, q.Declared...)
	for i, o := range q.Declared {
		q.declare(base, i == 0 && !inSelect, o)
		if o.Alias != "" {
			a := strings.ToLower(o.Alias)
			if aliases[a] {
				reject("P19", "duplicate object alias")
			}
			aliases[a] = true
		}
	}
	seen := map[string]bool{}
	from := q.From
	q.From = nil
	for _, o := range from {
		if k := Fold(o.Name); !seen[k] {
			seen[k] = true
			q.From = append(q.From, o)
		}
	}

	grouping := map[string]bool{}
	for _, k := range q.GroupBy {
		k.Field = &Operand{Kind: KField, Raw: k.Raw}
		k.Field.Name = q.resolve(k.Raw, place{})
		grouping[Fold(k.Field.Name)] = true
	}

	q.Agg = q.GroupBy != nil
	for _, o := range q.Items {
		if aggregates(o) {
			q.Agg = true
		}
	}
	itemAlias := map[string]*Operand{}
	for _, o := range q.Items {
		if o.Kind != KSub {
			r.operand(q, o, place{sel: true}, grouping)
		}
		if o.Alias != "" {
			a := strings.ToLower(o.Alias)
			if itemAlias[a] != nil {
				reject("P19", "duplicate item alias")
			}
			itemAlias[a] = o
		}
	}
	for _, k := range q.GroupBy {
		if n := k.Field.Name; len(n) == len(q.Primary())+1 {
			if o := itemAlias[strings.ToLower(n[len(n)-1])]; o != nil {
				delete(grouping, Fold(n))
				k.Field = o
				if o.Kind == KField {
					grouping[Fold(o.Name)] = true
				}
			}
		}
	}

	clause := func(c *Cond, pl place) []*Cond {
		cmps := c.Cmps()
		for i, x := range cmps {
			x.Index = i
			for _, o := range []*Operand{x.Left, x.Right} {
				if o.Kind != KSub {
					g := grouping
					if pl.where {
						g = nil
					}
					r.operand(q, o, pl, g)
				}
			}
		}
		return cmps
	}
	q.WhereCmps = clause(q.Where, place{where: true})
	q.HavingCmps = clause(q.Having, place{having: true})

	for _, k := range q.OrderBy {
		if len(k.Raw) == 1 {
			k.Field = itemAlias[strings.ToLower(k.Raw[0])]
		}
		if k.Field == nil {
			k.Field = &Operand{Kind: KField, Raw: k.Raw, Name: q.resolve(k.Raw, place{order: true})}
		}
	}

	sort.SliceStable(q.From[1:], func(i, j int) bool { return len(q.From[i+1].Name) < len(q.From[j+1].Name) })

	// helper fields
	selected := map[string]bool{}
	for _, o := range q.Items {
		if o.Kind == KField {
			selected[Fold(o.Name)] = true
		}
	}
	q.Helpers = map[string]bool{}
	help := func(o *Operand) {
		eachField(o, func(o *Operand) {
			if k := Fold(o.Name); !selected[k] {
				q.Helpers[k] = true
			}
		})
	}
	for _, o := range q.Items {
		help(o)
	}
	for _, cs := range [][]*Cond{q.WhereCmps, q.HavingCmps} {
		for _, c := range cs {
			help(c.Left)
			help(c.Right)
		}
	}
	for _, ks := range [][]*Key{q.GroupBy, q.OrderBy} {
		for _, k := range ks {
			help(k.Field)
		}
	}

	// duplicate keys
	for _, ks := range [][]*Key{q.GroupBy, q.OrderBy} {
		dup := map[string]bool{}
		for _, k := range ks {
			c := columnOf(q, k.Field)
			if dup[c] {
				reject("P19", "duplicate key")
			}
			dup[c] = true
		}
	}

	// correlation
	outer := func(o *Operand) {
		ns := o.Name[:len(o.Name)-1]
		if q.has(ns) {
			return
		}
		q.Correlated = true
		for e := q; e.InSelect; {
			e = e.Encl
			if !e.has(ns) {
				continue
			}
			k := Fold(o.Name)
			for _, x := range e.Items {
				if x.Kind == KField && Fold(x.Name) == k {
					return
				}
			}
			e.Helpers[k] = true
			return
		}
		reject("P11", "unknown outer field")
	}
	for _, o := range q.Items {
		eachField(o, outer)
	}
	for k := range q.Helpers {
		outer(&Operand{Kind: KField, Name: strings.Split(k, "\x00")})
	}

	for _, o := range q.Items {
		if o.Kind == KSub {
			if q.Agg {
				reject("P12", "subquery in an aggregation")
			}
			q.Subs = append(q.Subs, o.Sub)
			r.query(o.Sub, q, true, depth+1, q.scope)
		}
	}
	for _, s := range []string{q.Paging.LimitParam, q.Paging.OffsetParam} {
		if s != "" {
			r.Parameters[strings.ToLower(s)] = true
		}
	}
	for _, cs := range [][]*Cond{q.WhereCmps, q.HavingCmps} {
		for _, c := range cs {
			if c.Right.Kind == KSub {
				q.Subs = append(q.Subs, c.Right.Sub)
				r.query(c.Right.Sub, q, false, depth+1, nil)
			}
		}
	}
}
