package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"slices"
	"strconv"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
)

var lookupStems = []string{"id", "name", "a", "ab", "abc", "b", "user_id", "userid", "x1", "x10", "col", "column", "日本", "größe", "*", "", "a b", "t.a", "COUNT", "ABS"}

// lookupName returns a name of a small pool in random letter case, so that lists contain duplicates and near misses.
func lookupName(rng *rand.Rand) string {
	return foldCase(rng, lookupStems[rng.Intn(len(lookupStems))])
}

// listName is the name of the k-th of size elements: long lists have different names, too.
func listName(rng *rand.Rand, k, size int) string {
	n := lookupName(rng)
	if 8 < size && rng.Intn(4) != 0 {
		n += strconv.Itoa(k)
	}
	return n
}

// probes returns the names to look up: those of the list in other letter case, and near misses.
func probes(rng *rand.Rand, names []string) []string {
	out := []string{lookupName(rng), lookupName(rng), "no_such_name", "", " "}
	for _, n := range names {
		out = append(out, n, foldCase(rng, n), n+"x", n+" ", " "+n, "x"+n)
		if 1 < len(n) {
			out = append(out, n[:len(n)-1], n[1:])
		}
	}
	return out
}

// firstOf is the reference lookup.
func firstOf(names []string, name string) int {
	return slices.IndexFunc(names, func(n string) bool { return strings.EqualFold(n, name) })
}

func same(a, b []string) bool { return slices.Equal(a, b) || (len(a) == 0 && len(b) == 0) }

func c24(r *Run) {
	r.Rule = "lists of columns, indexes, tables and selectors with duplicate and near-miss names, built directly and by parsing; every lookup, positional access and derived view against a plain scan of the list"
	r.Parallel("columns", r.N(6000, 150000), func(i int, rng *rand.Rand) {
		names := []string{}
		cols := query.NewColumns()
		size := many(rng, 7)
		for k := size; 0 < k; k-- {
			n := listName(rng, k, size)
			names = append(names, n)
			cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnLiteral(query.NewLiteralWith(k*7))))
		}
		desc := fmt.Sprintf("columns %q", names)
		if rng.Intn(2) == 0 {
			given := append(query.Columns{}, cols...)
			cols = query.NewColumnsWith(given...)
			for k := range given {
				given[k] = query.NewColumnWithName("overwritten")
			}
		}
		schema := query.NewSchemaWith("t", query.WithSchemaColumns(cols))
		for _, p := range probes(rng, names) {
			w := firstOf(names, p)
			c, err := cols.LookupColumn(p)
			n, nerr := cols.LookupIndexOfColumn(p)
			sc, serr := schema.LookupColumn(p)
			if w < 0 {
				if err == nil || nerr == nil || serr == nil || c != nil || sc != nil || 0 <= n {
					r.Fail("column lookup", "%s: %q is found: %v %v, position %d %v, %v %v", desc, p, c, err, n, nerr, sc, serr)
				} else if !errors.Is(err, query.ErrNotFound) || !errors.Is(nerr, query.ErrNotFound) || !errors.Is(serr, query.ErrNotFound) {
					r.Fail("column lookup", "%s: %q: %v, %v, %v", desc, p, err, nerr, serr)
				}
				r.Ev("absent columns")
				continue
			}
			if err != nil || nerr != nil || serr != nil || c != cols[w] || n != w || sc != cols[w] {
				r.Fail("column lookup", "%s: %q is at %d, and the lookups give %v %v, position %d %v, %v %v", desc, p, w, c, err, n, nerr, sc, serr)
			}
			r.Ev("found columns")
		}
		for _, p := range []int{-1, -2, math.MinInt, len(names), len(names) + 1, math.MaxInt} {
			if c, err := cols.ColumnAt(p); err == nil || c != nil {
				r.Fail("column position", "%s: position %d gives %v", desc, p, c)
			}
		}
		vals := []string{}
		for p := range names {
			if c, err := cols.ColumnAt(p); err != nil || c != cols[p] || c.Name() != names[p] {
				r.Fail("column position", "%s: position %d gives %v %v", desc, p, c, err)
			}
			vals = append(vals, cols[p].ValueString())
		}
		if !same(cols.Names(), names) || !same(cols.ColumnNames(), names) || cols.Len() != len(names) || !same(cols.Selectors().Names(), names) || cols.Selectors().Len() != len(names) || !same(schema.Selectors().Names(), names) || !same(cols.Columns().Names(), names) {
			r.Fail("column views", "%s: %q %q %d %q %q", desc, cols.Names(), cols.ColumnNames(), cols.Len(), cols.Selectors().Names(), schema.Selectors().Names())
		}
		if squeezeCommas(cols.NameString()) != squeezeCommas(strings.Join(names, ",")) || squeezeCommas(cols.ValueString()) != squeezeCommas(strings.Join(vals, ",")) || squeezeCommas(cols.Selectors().String()) != squeezeCommas(strings.Join(names, ",")) {
			r.Fail("column views", "%s: names %q, values %q of %q, selectors %q", desc, cols.NameString(), cols.ValueString(), vals, cols.Selectors())
		}
		star := len(names) == 0 || (len(names) == 1 && names[0] == "*")
		if cols.IsAsterisk() != star || cols.Selectors().IsAsterisk() != star {
			r.Fail("star", "%s: %v %v", desc, cols.IsAsterisk(), cols.Selectors().IsAsterisk())
		}
		for k, c := range cols {
			if c.IsAsterisk() != (names[k] == "*") {
				r.Fail("star", "%s: column %d: %v", desc, k, c.IsAsterisk())
			}
			if !c.IsName(names[k]) || c.IsName(names[k]+"x") {
				r.Fail("column lookup", "%s: column %d does not answer to its name only", desc, k)
			}
		}
		if cols.Selectors().HasFunction() || cols.Selectors().HasAggregator() || cols.Selectors().HasExecutor() || len(cols.Selectors().Functions()) != 0 {
			r.Fail("functions", "%s: a function is reported", desc)
		}
		cp := cols.Copy()
		if !same(cp.Names(), names) {
			r.Fail("column views", "%s: the copy has %q", desc, cp.Names())
		}
		// Result set and metadata columns of these names.
		rcols := []resultset.Column{}
		mcols := []system.SchemaColumn{}
		for _, n := range names {
			rcols = append(rcols, resultset.NewColumn(resultset.WithColumnName(n), resultset.WithColumnType(query.IntType)))
			m, err := system.NewColumn(system.WithColumnName(n), system.WithColumnTable("t"), system.WithColumnDataType("INT"))
			if err != nil {
				r.Fail("metadata", "%s: %v", desc, err)
				return
			}
			mcols = append(mcols, m)
		}
		rs := resultset.NewSchema(resultset.WithSchemaColumns(rcols))
		ms := system.NewSchemaColumns(system.WithColumns(mcols))
		for _, p := range probes(rng, names) {
			c, err := rs.LookupColumn(p)
			if w := slices.Index(names, p); 0 <= w && (err != nil || c != rcols[w]) {
				r.Fail("result set column lookup", "%s: %q is at %d: %v %v", desc, p, w, c, err)
			} else if w < 0 && firstOf(names, p) < 0 && err == nil {
				r.Fail("result set column lookup", "%s: %q is found: %v", desc, p, c)
			}
			m, err := ms.LookupColumn(p)
			if w := firstOf(names, p); 0 <= w && (err != nil || m != mcols[w]) {
				r.Fail("metadata column lookup", "%s: %q is at %d: %v %v", desc, p, w, m, err)
			} else if w < 0 && err == nil {
				r.Fail("metadata column lookup", "%s: %q is found: %v", desc, p, m)
			}
			r.Ev("result set and metadata lookups")
		}
		r.Case(desc)
	})
	r.Parallel("indexes", r.N(4000, 100000), func(i int, rng *rand.Rand) {
		names := []string{}
		idxs := query.NewIndexes()
		size := many(rng, 7)
		for k := size; 0 < k; k-- {
			n := listName(rng, k, size)
			c := query.NewColumnsWith(query.NewColumnWithName(n), query.NewColumnWithName("k"))[:1+rng.Intn(2)]
			if rng.Intn(4) == 0 {
				idxs = append(idxs, query.NewPrimaryIndexWith(c))
				if len(c) == 2 {
					n += "_k"
				}
			} else {
				idxs = append(idxs, query.NewSecondaryIndexWith(n, c))
			}
			names = append(names, n)
		}
		desc := fmt.Sprintf("indexes %q", names)
		schema := query.NewSchemaWith("t", query.WithSchemaIndexes(idxs))
		for _, p := range probes(rng, names) {
			w := firstOf(names, p)
			x, err := idxs.LookupIndex(p)
			n, nerr := idxs.LookupIndexOfIndex(p)
			sx, serr := schema.LookupIndex(p)
			if w < 0 {
				if !errors.Is(err, query.ErrNotFound) || !errors.Is(nerr, query.ErrNotFound) || !errors.Is(serr, query.ErrNotFound) || x != nil || sx != nil || 0 <= n {
					r.Fail("index lookup", "%s: %q: %v %v, position %d %v, %v %v", desc, p, x, err, n, nerr, sx, serr)
				}
				r.Ev("absent indexes")
				continue
			}
			if err != nil || nerr != nil || serr != nil || x != idxs[w] || n != w || sx != idxs[w] {
				r.Fail("index lookup", "%s: %q is at %d: %v %v, position %d %v, %v %v", desc, p, w, x, err, n, nerr, sx, serr)
			}
			r.Ev("found indexes")
		}
		if !same(idxs.IndexNames(), names) || len(idxs.Indexes()) != len(names) || !same(schema.Indexes().IndexNames(), names) {
			r.Fail("index views", "%s: %q", desc, idxs.IndexNames())
		}
		r.Case(desc)
	})
	r.Parallel("tables", r.N(5000, 100000), func(i int, rng *rand.Rand) {
		size := many(rng, 5)
		plain := func() string {
			for {
				n := listName(rng, rng.Intn(1000), size)
				if n != "" && !strings.Contains(n, ".") {
					return n
				}
			}
		}
		type tbl struct{ schema, name string }
		ts := []tbl{}
		list := query.NewTables()
		fulls := []string{}
		for k := size; 0 < k; k-- {
			t := tbl{name: plain()}
			opts := []query.TableOption{}
			if rng.Intn(2) == 0 {
				t.schema = plain()
				opts = append(opts, query.WithTableSchema(t.schema))
			}
			full := t.name
			if t.schema != "" {
				full = t.schema + "." + t.name
			}
			q := query.NewTableWith(t.name, opts...)
			if q.TableName() != t.name || q.SchemaName() != t.schema || q.FullTableName() != full {
				r.Fail("table", "%+v: %q %q %q", t, q.TableName(), q.SchemaName(), q.FullTableName())
			}
			sc := query.NewSchemaWith("other", query.WithSchemaTable(q))
			if sc.TableName() != t.name || sc.SchemaName() != t.schema || sc.FullTableName() != full {
				r.Fail("table", "schema of %+v: %q %q %q", t, sc.TableName(), sc.SchemaName(), sc.FullTableName())
			}
			for _, p := range probes(rng, []string{t.name, t.schema, full}) {
				if q.IsTableName(p) != strings.EqualFold(p, t.name) || q.IsFullTableName(p) != strings.EqualFold(p, full) || (p != "" && q.IsSchemaName(p) != strings.EqualFold(p, t.schema)) {
					r.Fail("table names", "%+v: %q: %v %v %v", t, p, q.IsTableName(p), q.IsFullTableName(p), q.IsSchemaName(p))
				}
				r.Ev("table name comparisons")
			}
			ts = append(ts, t)
			fulls = append(fulls, full)
			list = append(list, q)
		}
		desc := fmt.Sprintf("tables %q", fulls)
		if !same(list.TableNames(), fulls) || len(list.Tables()) != len(fulls) || !same(query.NewTablesWith(list...).TableNames(), fulls) {
			r.Fail("table views", "%s: %q", desc, list.TableNames())
		}
		pool := []string{}
		for _, t := range ts {
			pool = append(pool, t.name, t.schema)
		}
		ps := probes(rng, pool)
		for k := 0; k < 20; k++ {
			args := []string{}
			for j := rng.Intn(3); 0 <= j; j-- {
				args = append(args, ps[rng.Intn(len(ps))])
			}
			hasT, hasS := false, false
			for _, a := range args {
				for _, t := range ts {
					hasT = hasT || strings.EqualFold(a, t.name)
					hasS = hasS || strings.EqualFold(a, t.schema)
				}
			}
			if list.HasTable(args...) != hasT || list.HasTableName(args...) != hasT || (!slices.Contains(args, "") && list.HasSchemaTable(args...) != hasS) {
				r.Fail("table membership", "%s: %q: %v %v %v, and it should be %v and %v", desc, args, list.HasTable(args...), list.HasTableName(args...), list.HasSchemaTable(args...), hasT, hasS)
			}
			r.Ev("table membership")
		}
		if list.HasTable() || list.HasTableName() || list.HasSchemaTable() {
			r.Fail("table membership", "%s has no name at all", desc)
		}
		r.Case(desc)
	})
	aggrs := []string{"SUM", "AVG", "MIN", "MAX", "COUNT"}
	kindsOf := map[string]fn.FunctionType{}
	for _, m := range mathRefs {
		if 1 < len(m.name) { // not an operator
			kindsOf[m.name] = fn.MathFunction
		}
	}
	for _, n := range aggrs {
		kindsOf[n] = fn.AggregateFunction
	}
	for _, n := range []string{"UPPER", "LOWER", "TRIM"} {
		kindsOf[n] = fn.StringFunction
	}
	kindsOf["NOW"] = fn.TimeFunction
	fnNames := []string{}
	for n := range kindsOf {
		fnNames = append(fnNames, n)
	}
	slices.Sort(fnNames)
	// Columns that carry a function are selectors of both kinds.
	r.Parallel("function columns", r.N(1500, 30000), func(i int, rng *rand.Rand) {
		names, fnsWant := []string{}, []string{}
		sels := query.NewSelectors()
		agg := false
		for k := 1 + many(rng, 5); 0 < k; k-- {
			n := fmt.Sprintf("c%d", k)
			opts := []query.ColumnOption{query.WithColumnName(n)}
			if rng.Intn(2) == 0 {
				f := fnNames[rng.Intn(len(fnNames))]
				opts = append(opts, query.WithColumnFunction(fn.NewFunction(fn.WithFunctionName(f), fn.WithFunctionArguments(fn.NewArgumentWith("a")))))
				fnsWant = append(fnsWant, f)
				agg = agg || kindsOf[f] == fn.AggregateFunction
			}
			names = append(names, n)
			sels = append(sels, query.NewColumnWithOptions(opts...))
		}
		desc := fmt.Sprintf("columns %q with functions %q", names, fnsWant)
		cols := []string{}
		for _, c := range sels.Columns() {
			cols = append(cols, c.Name())
		}
		fns := []string{}
		for _, f := range sels.Functions() {
			fns = append(fns, f.Name())
		}
		if !same(cols, names) || !same(sels.Names(), names) || sels.Len() != len(names) {
			r.Fail("selector views", "%s: columns %q, names %q", desc, cols, sels.Names())
		}
		if !same(fns, fnsWant) || sels.HasFunction() != (0 < len(fnsWant)) || sels.HasAggregator() != agg {
			r.Fail("functions", "%s: functions %q, %v, aggregator %v", desc, fns, sels.HasFunction(), sels.HasAggregator())
		}
		for _, n := range append([]string{"NOSUCH"}, fnsWant...) {
			f, err := sels.LookupFunction(foldCase(rng, n))
			if (err == nil) != (n != "NOSUCH") || (err == nil && !f.IsName(n)) {
				r.Fail("function lookup", "%s: %s: %v", desc, n, err)
			}
		}
		r.Ev("function columns")
		r.Case(desc)
	})
	r.Parallel("selectors", r.N(6000, 150000), func(i int, rng *rand.Rand) {
		type item struct {
			text, name string
			isFn       bool
			args       []string
		}
		items := []item{}
		mode := rng.Intn(4) // all kinds, columns, aggregates, scalars
		for k := 1 + many(rng, 5); 0 < k; k-- {
			col := []string{"a", "b", "Cc", "t.d", "col_1"}[rng.Intn(5)]
			if mode == 1 || (mode == 0 && rng.Intn(2) == 0) || (1 < mode && rng.Intn(4) == 0) {
				items = append(items, item{text: col, name: col})
				continue
			}
			f := fnNames[rng.Intn(len(fnNames))]
			for mode == 2 && kindsOf[f] != fn.AggregateFunction || mode == 3 && kindsOf[f] == fn.AggregateFunction {
				f = fnNames[rng.Intn(len(fnNames))]
			}
			args := []string{}
			for j := arityOf(f); 0 < j; j-- {
				args = append(args, []string{"a", "b", "Cc"}[rng.Intn(3)])
			}
			if kindsOf[f] == fn.AggregateFunction || kindsOf[f] == fn.StringFunction {
				args = []string{[]string{"a", "b", "Cc"}[rng.Intn(3)]}
			}
			if f == "COUNT" && rng.Intn(2) == 0 {
				args = []string{"*"}
			}
			if kindsOf[f] == fn.TimeFunction {
				args = nil
			}
			items = append(items, item{text: foldCase(rng, f) + "(" + strings.Join(args, ", ") + ")", name: f, isFn: true, args: args})
		}
		texts := []string{}
		for _, it := range items {
			texts = append(texts, it.text)
		}
		desc := strings.Join(texts, ", ")
		var sels query.Selectors
		var st query.Select
		if rng.Intn(2) == 0 {
			s, err := parseOne[query.Select]("SELECT " + desc + " FROM t")
			if err != nil {
				r.Fail("parse", "%v", err)
				return
			}
			st = s
			sels = s.Selectors()
		} else {
			sels = query.NewSelectors()
			for _, it := range items {
				if !it.isFn {
					sels = append(sels, query.NewColumnWithName(it.name))
					continue
				}
				as := []fn.Argument{}
				for _, a := range it.args {
					as = append(as, fn.NewArgumentWith(a))
				}
				sels = append(sels, fn.NewFunction(fn.WithFunctionName(foldCase(rng, it.name)), fn.WithFunctionArguments(as...)))
			}
			if rng.Intn(2) == 0 {
				sels = query.NewSelectorsWith(sels...)
			}
		}
		if sels.Len() != len(items) || len(sels.Selectors()) != len(items) {
			r.Fail("selector views", "%s: %d selectors", desc, sels.Len())
			return
		}
		wantFns := []item{}
		types := map[fn.FunctionType]bool{}
		ncols := 0
		for k, it := range items {
			f, ok := sels[k].Function()
			if ok != it.isFn || sels[k].IsFunction() != it.isFn {
				r.Fail("functions", "%s: selector %d: function %v %v", desc, k, ok, sels[k].IsFunction())
				return
			}
			if sels[k].IsAsterisk() {
				r.Fail("star", "%s: selector %d is an asterisk", desc, k)
			}
			if !it.isFn {
				ncols++
				continue
			}
			wantFns = append(wantFns, it)
			types[kindsOf[it.name]] = true
			if !f.IsName(it.name) || f.Type() != kindsOf[it.name] || !f.IsType(kindsOf[it.name]) || f.IsAggregator() != (kindsOf[it.name] == fn.AggregateFunction) || !same(f.Arguments().Names(), it.args) {
				r.Fail("functions", "%s: selector %d is %s of type %v with %q", desc, k, f.Name(), f.Type(), f.Arguments())
			}
		}
		if sels.IsAsterisk() {
			r.Fail("star", "%s is reported as all columns", desc)
		}
		if sels.HasFunction() != (0 < len(wantFns)) || sels.HasAggregator() != types[fn.AggregateFunction] {
			r.Fail("functions", "%s: has function %v, has aggregator %v", desc, sels.HasFunction(), sels.HasAggregator())
		}
		for _, t := range []fn.FunctionType{fn.MathFunction, fn.AggregateFunction, fn.StringFunction, fn.TimeFunction, fn.CastFunction, fn.ArithOperator} {
			if sels.HasFunctionWithType(t) != types[t] {
				r.Fail("functions", "%s: has a function of type %v: %v", desc, t, sels.HasFunctionWithType(t))
			}
		}
		scalars := []item{}
		for _, it := range wantFns {
			if kindsOf[it.name] != fn.AggregateFunction {
				scalars = append(scalars, it)
			}
		}
		if sels.HasExecutor() != (0 < len(scalars)) {
			r.Fail("functions", "%s: has executor %v", desc, sels.HasExecutor())
		}
		if st != nil && (st.HasAggregator() != types[fn.AggregateFunction] || st.HasExecutor() != (0 < len(scalars))) {
			r.Fail("functions", "%s: the statement has aggregator %v, executor %v", desc, st.HasAggregator(), st.HasExecutor())
		}
		fns := sels.Functions()
		if len(fns) != len(wantFns) {
			r.Fail("functions", "%s: %d functions", desc, len(fns))
			return
		}
		for k, f := range fns {
			if !f.IsName(wantFns[k].name) || !same(f.Arguments().Names(), wantFns[k].args) {
				r.Fail("functions", "%s: function %d is %s", desc, k, f)
			}
		}
		exs, err := sels.Executors()
		if err != nil || len(exs) != len(scalars) {
			r.Fail("executors", "%s: %d executors, %v", desc, len(exs), err)
			return
		}
		for k, e := range exs {
			if e.Name() != scalars[k].name || e.Type() != kindsOf[scalars[k].name] {
				r.Fail("executors", "%s: executor %d is %s", desc, k, e.Name())
			}
		}
		for _, t := range []fn.FunctionType{fn.MathFunction, fn.StringFunction, fn.TimeFunction, fn.AggregateFunction} {
			want := []string{}
			for _, it := range scalars {
				if kindsOf[it.name] == t {
					want = append(want, it.name)
				}
			}
			got, err := sels.ExecutorsForType(t)
			names := []string{}
			for _, e := range got {
				names = append(names, e.Name())
			}
			if err != nil || !same(names, want) {
				r.Fail("executors", "%s: of type %v: %q %v", desc, t, names, err)
			}
		}
		for _, p := range append(slices.Clone(fnNames), "NOSUCH", "AB", "SUMX", "") {
			w := slices.IndexFunc(wantFns, func(it item) bool { return it.name == p })
			f, err := sels.LookupFunction(foldCase(rng, p))
			if w < 0 {
				if !errors.Is(err, query.ErrNotFound) || f != nil {
					r.Fail("function lookup", "%s: %q: %v %v", desc, p, f, err)
				}
				if e, err := sels.LookupExecutor(p); err == nil || e != nil {
					r.Fail("function lookup", "%s: executor %q: %v %v", desc, p, e, err)
				}
				continue
			}
			if err != nil || f != fns[w] {
				r.Fail("function lookup", "%s: %q is function %d: %v %v", desc, p, w, f, err)
				continue
			}
			r.Ev("functions found")
			if kindsOf[p] != fn.AggregateFunction {
				e, err := sels.LookupExecutor(foldCase(rng, p))
				if err != nil || e.Name() != p {
					r.Fail("function lookup", "%s: executor %q: %v", desc, p, err)
				}
			}
		}
		if len(scalars) == 0 && 0 < len(wantFns) {
			set, err := sels.Aggregators()
			if err != nil || len(set) != len(wantFns) {
				r.Fail("aggregators", "%s: %d aggregators, %v", desc, len(set), err)
				return
			}
			for k, a := range set {
				if a.Name() != wantFns[k].name {
					r.Fail("aggregators", "%s: aggregator %d is %s", desc, k, a.Name())
				}
			}
			r.Ev("aggregator sets")
		}
		if names := sels.Names(); len(names) != len(items) {
			r.Fail("selector views", "%s: names %q", desc, names)
		} else {
			for k, n := range names {
				w := items[k].name
				if items[k].isFn {
					w += "(" + strings.Join(items[k].args, ",") + ")"
				}
				if squeezeCommas(n) != squeezeCommas(w) {
					r.Fail("selector views", "%s: names %q", desc, names)
				}
			}
			if squeezeCommas(sels.String()) != squeezeCommas(strings.Join(names, ",")) {
				r.Fail("selector views", "%s: text %q, names %q", desc, sels.String(), names)
			}
		}
		if c := sels.Columns(); len(c) != ncols {
			r.Fail("selector views", "%s: %d plain columns", desc, len(c))
		}
		r.Ev("selector lists")
		r.Case(desc)
	})
	r.Serial("stars", 1, func(i int, rng *rand.Rand) {
		for _, q := range []string{"SELECT * FROM t", "select * from t where a = 1", "SELECT * FROM a, b"} {
			s, err := parseOne[query.Select](q)
			if err != nil || !s.Selectors().IsAsterisk() || s.HasAggregator() || s.HasExecutor() || s.Selectors().HasFunction() || !s.Selectors()[0].IsAsterisk() {
				r.Fail("star", "%s is not reported as all columns: %v", q, err)
			}
		}
		for _, q := range []string{"SELECT COUNT(*) FROM t", "SELECT a FROM t", "SELECT a, b FROM t", "SELECT '*' FROM t"} {
			s, err := parseOne[query.Select](q)
			if err != nil || s.Selectors().IsAsterisk() || s.Selectors()[0].IsAsterisk() {
				r.Fail("star", "%s is reported as all columns: %v", q, err)
			}
		}
		for _, a := range []fn.Arguments{fn.NewArgumentStrings("*"), fn.NewArguments()} {
			if !a.IsAsterisk() {
				r.Fail("star", "the arguments %q are not all columns", a)
			}
		}
		for _, a := range []fn.Arguments{fn.NewArgumentStrings("a"), fn.NewArgumentStrings("*", "a"), fn.NewArgumentStrings("**"), fn.NewArgumentStrings("*", "*")} {
			if a.IsAsterisk() {
				r.Fail("star", "the arguments %q are all columns", a)
			}
		}
		r.Ev("stars")
	})
}

func squeezeCommas(s string) string {
	parts := strings.Split(s, ",")
	for k := range parts {
		parts[k] = strings.TrimSpace(parts[k])
	}
	return strings.Join(parts, ",")
}
