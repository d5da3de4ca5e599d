package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
)

func init() {
	register("C14", checkAggregateSets)
	register("C15", checkWindow)
	register("C16", checkRowViews)
}

type aggrSpec struct{ name, arg string }

func (a aggrSpec) column() string { return a.name + "(" + a.arg + ")" }

// groupRows computes, per group, the values of the aggregates from the source rows.
func groupRows(rows []map[string]any, groups []string, specs []aggrSpec) (keys []string, want map[string][]any, of map[string][]any) {
	models := make([]*aggrModel, len(specs))
	for i, s := range specs {
		models[i] = &aggrModel{name: s.name, arg: s.arg, ngrp: len(groups)}
		for _, row := range rows {
			rr := []any{}
			for _, g := range groups {
				rr = append(rr, row[g])
			}
			var v any
			if s.arg != "*" {
				v = row[s.arg]
			}
			models[i].rows = append(models[i].rows, append(rr, v))
		}
	}
	want, of = map[string][]any{}, map[string][]any{}
	ks, _ := models[0].groups()
	for _, k := range ks {
		vals := []any{}
		for _, m := range models {
			_, members := m.groups()
			vals = append(vals, m.value(members[k]))
			if 0 < len(members[k]) {
				of[k] = members[k][0][:m.ngrp]
			}
		}
		want[k] = vals
	}
	return ks, want, of
}

func checkAggregateSets(r *Run) {
	aggregateParts(r)
	r.Rule = "random sets of aggregates with and without grouping over random rows (as objects, and as lists for equal arguments), and aggregate SELECT lists evaluated over source result sets with windows, repeatedly for the same statement, against recomputation per group; non-trivial: distinct sets of aggregates with rows"
	names := []string{"COUNT", "SUM", "AVG", "MIN", "MAX"}
	cols := []string{"x", "y", "Val"}
	gcols := []string{"g", "h", "k1"}
	randRow := func(rng *rand.Rand, spread int) map[string]any {
		row := map[string]any{}
		for _, c := range cols {
			switch rng.Intn(5) {
			case 0:
				row[c] = nil
			case 1:
				row[c] = float64(rng.Intn(400)-200) / 4
			default:
				row[c] = rng.Intn(200) - 100
			}
		}
		for n, c := range gcols {
			switch {
			case rng.Intn(8) == 0:
				row[c] = nil
			case n == 1:
				row[c] = rng.Intn(spread) - 1
			default:
				row[c] = groupStrings[(rng.Intn(spread)*5+n)%len(groupStrings)]
			}
		}
		return row
	}
	randSpecs := func(rng *rand.Rand) []aggrSpec {
		specs := []aggrSpec{}
		n := 1 + rng.Intn(5)
		if rng.Intn(6) == 0 {
			n = 5 + many(rng, 14)
		}
		for ; 0 < n; n-- {
			s := aggrSpec{names[rng.Intn(5)], cols[rng.Intn(len(cols))]}
			if s.name == "COUNT" && rng.Intn(2) == 0 {
				s.arg = "*"
			}
			specs = append(specs, s)
		}
		return specs
	}
	r.Parallel("set", r.N(8000, 200000), func(i int, rng *rand.Rand) {
		specs := randSpecs(rng)
		list := rng.Intn(3) == 0
		if list { // the same argument for all, rows as lists
			for k := range specs {
				specs[k].arg = "x"
			}
		}
		groups := append([]string{}, gcols[:rng.Intn(4)]...)
		rng.Shuffle(len(groups), func(a, b int) { groups[a], groups[b] = groups[b], groups[a] })
		nrows := rng.Intn(25)
		if i%50 == 0 {
			nrows = boundarySizes[rng.Intn(len(boundarySizes))]
		}
		spread := 1 + rng.Intn(6)
		rows := []map[string]any{}
		for k := 0; k < nrows; k++ {
			rows = append(rows, randRow(rng, spread))
		}
		desc := fmt.Sprintf("aggregates %v group by %q rows %v", specs, groups, clip(fmt.Sprint(rows), 1500))
		r.Guard(desc, func() {
			aggrs := []fn.Aggregator{}
			foreign := false
			var set fn.AggregatorSet
			var err error
			if list && rng.Intn(2) == 0 {
				ns := []string{}
				for _, s := range specs {
					ns = append(ns, s.name)
				}
				set, err = fn.NewAggregatorSetForNames(ns, fn.WithAggregatorArguments([]string{"x"}), fn.WithAggregatorGroupBys(groups...))
				if err != nil {
					r.Fail("constructor", "%v\n%s", err, desc)
					return
				}
			} else {
				for _, s := range specs {
					ag, err := newAggregator(rng.Intn(2), s.name, s.arg, groups)
					if err != nil {
						r.Fail("constructor", "%v\n%s", err, desc)
						return
					}
					aggrs = append(aggrs, ag)
				}
				if rng.Intn(8) == 0 { // aggregators of the user's own
					foreign = true
					for k := range aggrs {
						if rng.Intn(2) == 0 {
							aggrs[k] = struct{ fn.Aggregator }{aggrs[k]}
						}
					}
				}
				set = fn.NewAggregatorSetWith(aggrs)
				for k := range aggrs {
					aggrs[k] = nil // the list belongs to the caller
				}
			}
			if err := set.Reset(struct{}{}); err == nil {
				r.Fail("reset", "an unknown option is accepted\n%s", desc)
			}
			for round := 0; round < 2; round++ {
				if err := set.Reset(groups); err != nil {
					r.Fail("reset", "%v\n%s", err, desc)
					return
				}
				fed := rows
				if round == 1 { // other rows after a reset
					fed = rows[:len(rows)/2]
				}
				for _, row := range fed {
					if rng.Intn(10) == 0 { // a row that one of the aggregates refuses
						bad := map[string]any{}
						for k, v := range row {
							bad[k] = v
						}
						refusing := ""
						for _, s := range specs {
							if s.name != "COUNT" {
								refusing = s.arg
							}
						}
						if refusing != "" && !list && !foreign {
							bad[refusing] = "abc"
							if err := set.Aggregate(bad); err == nil {
								r.Fail("bad row accepted", "%v\n%s", bad, desc)
								return
							}
							r.Ev("rows refused")
						}
					}
					var in any = row
					if list {
						l := []any{}
						for _, g := range groups {
							l = append(l, row[g])
						}
						in = append(l, row["x"])
					} else if rng.Intn(2) == 0 {
						in = fn.NewMapWithMap(row)
					}
					if err := set.Aggregate(in); err != nil {
						r.Fail("row refused", "%v: %v\n%s", in, err, desc)
						return
					}
				}
				rs, err := set.Finalize()
				if err != nil {
					r.Fail("finalize", "%v\n%s", err, desc)
					return
				}
				wantCols := append([]string{}, groups...)
				for _, s := range specs {
					wantCols = append(wantCols, s.column())
				}
				if got := rs.Columns(); strings.Join(got, "|") != strings.Join(wantCols, "|") {
					r.Fail("columns", "%q instead of %q\n%s", got, wantCols, desc)
					return
				}
				got := [][]any{}
				for rs.Next() {
					row, err := rs.Row()
					if err != nil {
						r.Fail("row", "%v\n%s", err, desc)
						return
					}
					m, err := rs.Map()
					if err != nil {
						r.Fail("map", "%v\n%s", err, desc)
						return
					}
					for k, c := range wantCols {
						if k < len(row) && !reflect.DeepEqual(m[c], row[k]) && !dupColumn(wantCols, c) {
							r.Fail("row and map", "column %s: %v in the row, %v in the map\n%s", c, row[k], m[c], desc)
						}
					}
					got = append(got, append([]any{}, row...))
				}
				judgeGroups(r, desc, got, fed, groups, specs)
				r.Ev("result sets compared")
			}
		})
		if 0 < nrows {
			r.Case(desc)
		} else {
			r.Case("")
		}
	})
	// The select list of a query over a source result set.
	tblSchemas := []query.Schema{}
	for _, n := range []string{"t", "t", "g", "h", "k1", "x"} {
		stmts, err := Parse("CREATE TABLE " + n + " (x DOUBLE, y DOUBLE, Val DOUBLE, g TEXT, h INT, k1 TEXT)")
		if err != nil {
			r.Fail("schema", "%v", err)
			return
		}
		tblSchemas = append(tblSchemas, stmts[0].(query.CreateTable).Schema())
	}
	r.Parallel("select", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		specs := randSpecs(rng)
		tblSchema := tblSchemas[rng.Intn(len(tblSchemas))]
		// The same aggregate twice has one column name, which cannot tell two values apart, but both are the same.
		group := ""
		if rng.Intn(3) != 0 {
			group = gcols[rng.Intn(len(gcols))]
		}
		type item struct {
			text string
			spec int // -1: the group column
		}
		items := []item{}
		for k, s := range specs {
			n := s.name
			if rng.Intn(3) == 0 {
				n = randCase(rng, n)
			}
			items = append(items, item{n + "(" + s.arg + ")", k})
		}
		withGroup := group != "" && rng.Intn(4) != 0
		if withGroup {
			items = append(items, item{group, -1})
		}
		rng.Shuffle(len(items), func(a, b int) { items[a], items[b] = items[b], items[a] })
		texts := []string{}
		for _, it := range items {
			texts = append(texts, it.text)
		}
		q := "SELECT " + strings.Join(texts, ", ") + " FROM " + tblSchema.TableName()
		if group != "" {
			q += " GROUP BY " + group
		}
		stmts, err := Parse(q)
		if err != nil || len(stmts) != 1 {
			r.Fail("parse", "%s: %v", q, err)
			return
		}
		sel := stmts[0].(query.Select)
		for round := 0; round < 2; round++ {
			rows := []map[string]any{}
			spread := 1 + rng.Intn(5)
			for k, n := 0, many(rng, 15); k < n; k++ {
				row := randRow(rng, spread)
				rows = append(rows, row)
			}
			// A value that is no number makes the aggregates other than COUNT over it an error.
			bad, badArg := -1, ""
			if s := specs[rng.Intn(len(specs))]; rng.Intn(8) == 0 && 0 < len(rows) && s.name != "COUNT" && s.arg != "*" {
				bad, badArg = rng.Intn(len(rows)), s.arg
				rows[bad][badArg] = []any{"abc", "1x", []int{1}, struct{}{}, "--"}[rng.Intn(5)]
			}
			before := fmt.Sprint(rows)
			offset, limit := uint(0), uint(0)
			if rng.Intn(3) == 0 {
				offset, limit = uint(rng.Intn(4)), uint(rng.Intn(8))
			}
			window := rows[min(int(offset), len(rows)):]
			if 0 < limit && int(limit) < len(window) {
				window = window[:limit]
			}
			desc := fmt.Sprintf("%s (use %d of the statement)\noffset %d limit %d rows %v", q, round+1, offset, limit, clip(fmt.Sprint(rows), 2000))
			r.Guard(desc, func() {
				opts := []resultset.SchemaOption{resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableSchema(tblSchema), resultset.WithSchemaColumns(resultset.NewColumnsFrom(tblSchema.Columns()))}
				srcSchema, err := resultset.NewSchemaFrom(opts...)
				if err != nil {
					r.Fail("source schema", "%v", err)
					return
				}
				src, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(srcSchema), resultset.WithResultSetRowsOf(rows), resultset.WithResultSetOffset(offset), resultset.WithResultSetLimit(limit))
				if err != nil {
					r.Fail("source", "%v", err)
					return
				}
				// A source that can not deliver one of its rows gives no result.
				faulty := &faultySource{ResultSet: src, failAt: -1}
				if rng.Intn(8) == 0 {
					faulty.failAt = rng.Intn(len(window) + 1)
				}
				if rng.Intn(4) == 0 || 0 <= faulty.failAt {
					src = faulty
				}
				ao := []resultset.AggregatedResultSetOptions{resultset.WithAggregatedResultSetTableSchema(tblSchema), resultset.WithAggregatedResultSetSelectors(sel.Selectors()), resultset.WithAggregatedResultSetSource(src)}
				if group != "" || rng.Intn(2) == 0 {
					ao = append(ao, resultset.WithAggregatedResultSetGroupBy(sel.GroupBy()))
				}
				rs, err := resultset.NewAggregatedResultSetFrom(ao...)
				if 0 <= faulty.failAt && faulty.failAt < len(window) {
					if err == nil {
						r.Fail("no error", "the source failed to read row %d, but the aggregation gives a result %v\n%s", faulty.failAt, rs, desc)
					}
					r.Ev("aggregations of failing sources")
					return
				}
				if int(offset) <= bad && bad < int(offset)+len(window) {
					if err == nil {
						r.Fail("no error", "row %d has no number for %s, but the aggregation gives a result %v\n%s", bad, badArg, rs, desc)
					}
					r.Ev("aggregations refused")
					return
				}
				if err != nil {
					r.Fail("aggregation", "%v\n%s", err, desc)
					return
				}
				if sc := rs.Schema(); sc.DatabaseName() != "db" || sc.TableName() != tblSchema.TableName() {
					r.Fail("schema", "table %s of database %s\n%s", sc.TableName(), sc.DatabaseName(), desc)
				}
				rcols := rs.Schema().Columns()
				if len(rcols) != len(items) {
					r.Fail("columns", "%d columns instead of %d\n%s", len(rcols), len(items), desc)
					return
				}
				for k, it := range items {
					want := it.text
					if 0 <= it.spec {
						want = specs[it.spec].column()
					}
					if !strings.EqualFold(rcols[k].Name(), want) {
						r.Fail("columns", "column %d is %s instead of %s\n%s", k, rcols[k].Name(), want, desc)
						return
					}
				}
				groups := []string{}
				if group != "" {
					groups = append(groups, group)
				}
				keys, want, _ := groupRows(window, groups, specs)
				got := [][]any{}
				for rs.Next() {
					row, err := rs.Row()
					if err != nil {
						r.Fail("row", "%v\n%s", err, desc)
						return
					}
					vals := row.Values()
					if len(vals) != len(items) {
						r.Fail("row", "%d values instead of %d\n%s", len(vals), len(items), desc)
						return
					}
					for k, c := range rcols {
						v, err := row.ValueBy(c.Name())
						if err != nil || !reflect.DeepEqual(v, vals[k]) {
							r.Fail("views", "column %s: %v by position, %v %v by name\n%s", c.Name(), vals[k], v, err, desc)
						}
					}
					got = append(got, append([]any{}, vals...))
					if 10000 < len(got) {
						r.Fail("rows", "no end\n%s", desc)
						return
					}
				}
				if len(got) != len(keys) {
					r.Fail("groups", "%d rows instead of %d: %v\n%s", len(got), len(keys), got, desc)
					return
				}
				// With the group column selected rows are told apart by it, otherwise they are matched as a multiset.
				used := map[string]bool{}
				for _, row := range got {
					matched := ""
					for _, k := range keys {
						if used[k] {
							continue
						}
						ok := true
						for p, it := range items {
							if it.spec < 0 {
								ok = ok && groupText([]any{row[p]}) == k
							} else {
								ok = ok && sameAggr(specs[it.spec].name, row[p], want[k][it.spec])
							}
						}
						if ok {
							matched = k
							break
						}
					}
					if matched == "" && (0 < len(keys)) {
						r.Fail("row", "row %v belongs to no group; want %v\n%s", row, want, desc)
						return
					}
					used[matched] = true
				}
				if now := fmt.Sprint(rows); now != before {
					r.Fail("source modified", "%s\nnow %s", desc, now)
				}
				r.Ev("aggregate queries compared")
			})
			r.Case(desc)
		}
	})
}

// faultySource is a source result set of which one row can not be read.
type faultySource struct {
	resultset.ResultSet
	failAt, at int
}

func (s *faultySource) Row() (resultset.Row, error) {
	s.at++
	if s.at-1 == s.failAt {
		return nil, errors.New("injected read failure")
	}
	return s.ResultSet.Row()
}

func dupColumn(cols []string, c string) bool {
	n := 0
	for _, x := range cols {
		if x == c {
			n++
		}
	}
	return 1 < n
}

func judgeGroups(r *Run, desc string, got [][]any, fed []map[string]any, groups []string, specs []aggrSpec) {
	keys, want, _ := groupRows(fed, groups, specs)
	if len(got) != len(keys) {
		r.Fail("groups", "%d rows instead of %d: %v\n%s", len(got), len(keys), got, desc)
		return
	}
	seen := map[string]bool{}
	for _, row := range got {
		if len(row) != len(groups)+len(specs) {
			r.Fail("row", "row %v has %d values instead of %d\n%s", row, len(row), len(groups)+len(specs), desc)
			return
		}
		k := groupText(row[:len(groups)])
		w, ok := want[k]
		if !ok || seen[k] {
			r.Fail("group", "row %v: unknown or repeated group\n%s", row, desc)
			return
		}
		seen[k] = true
		for n, s := range specs {
			if !sameAggr(s.name, row[len(groups)+n], w[n]) {
				r.Fail("aggregate", "%s of group %s = %v, want %v\n%s", s.column(), k, row[len(groups)+n], w[n], desc)
				return
			}
		}
	}
}

func checkWindow(r *Run) {
	windowParts(r)
	r.Rule = "all row counts up to 12 with all offsets and limits around them, boundary sizes and extreme offsets and limits, under random interleavings of advancing and reading, against a cursor model; the result sets of the function package under the same model; non-trivial: distinct windows with read schedules"
	one := func(nrows int, offset, limit uint, rng *rand.Rand, withSchema bool) {
		rows := []resultset.Row{}
		maps := []map[string]any{}
		for k := 0; k < nrows; k++ {
			m := map[string]any{"id": k, "name": fmt.Sprintf("n%d", k)}
			maps = append(maps, m)
			rows = append(rows, resultset.NewRow(resultset.WithRowObject(m)))
		}
		desc := fmt.Sprintf("rows %d offset %d limit %d schema %v", nrows, offset, limit, withSchema)
		opts := []resultset.ResultSetOption{}
		if withSchema {
			opts = append(opts, resultset.WithResultSetSchema(resultset.NewSchema(resultset.WithSchemaColumns([]resultset.Column{resultset.NewColumn(resultset.WithColumnName("name")), resultset.NewColumn(resultset.WithColumnName("id"))}))))
		}
		switch rng.Intn(4) {
		case 0, 1:
			opts = append(opts, resultset.WithResultSetRows(rows))
		case 2:
			opts = append(opts, resultset.WithResultSetRowsOf(rows))
		default:
			opts = append(opts, resultset.WithResultSetRowsOf(maps))
		}
		if 0 < offset || rng.Intn(2) == 0 {
			opts = append(opts, resultset.WithResultSetOffset(offset))
		}
		if 0 < limit || rng.Intn(2) == 0 {
			opts = append(opts, resultset.WithResultSetLimit(limit))
		}
		from, to := nrows, nrows
		if offset < uint(nrows) {
			from = int(offset)
		}
		if 0 < limit && limit < uint(nrows-from) {
			to = from + int(limit)
		}
		sched := ""
		r.Guard(desc, func() {
			var rs resultset.ResultSet
			var err error
			if rng.Intn(2) == 0 {
				rs = resultset.NewResultSet(opts...)
			} else if rs, err = resultset.NewResultSetFrom(opts...); err != nil {
				r.Fail("constructor", "%s: %v", desc, err)
				return
			}
			pos := from - 1 // the row we are on
			after := false
			read := func() {
				for n := 1 + rng.Intn(2); 0 < n; n-- {
					row, err := rs.Row()
					sched += "R"
					if pos < from || after {
						if err == nil {
							r.Fail("row outside", "%s schedule %s: read %v without being on a row", desc, sched, row.Object())
						} else if !errors.Is(err, sqlerrors.ErrNoRows) {
							r.Fail("error", "%s schedule %s: %v", desc, sched, err)
						}
						continue
					}
					if err != nil {
						r.Fail("no row", "%s schedule %s: %v", desc, sched, err)
						continue
					}
					id, err := row.ValueBy("id")
					if err != nil || id != any(pos) {
						r.Fail("row", "%s schedule %s: row %v (%v) instead of %d", desc, sched, id, err, pos)
					}
					if nm, err := row.ValueBy("name"); err != nil || nm != any(fmt.Sprintf("n%d", pos)) {
						r.Fail("row", "%s schedule %s: name %v (%v) in row %d", desc, sched, nm, err, pos)
					}
					r.Ev("rows read")
				}
			}
			if rng.Intn(2) == 0 {
				read()
			}
			delivered := 0
			for {
				ok := rs.Next()
				sched += "N"
				if ok != (pos+1 < to) {
					r.Fail("advance", "%s schedule %s: advancing to row %d gave %v", desc, sched, pos+1, ok)
					return
				}
				if !ok {
					after = true
					break
				}
				pos++
				delivered++
				if rng.Intn(3) != 0 {
					read()
				}
			}
			if delivered != to-from {
				r.Fail("count", "%s: %d rows delivered", desc, delivered)
			}
			for k := 0; k < 4; k++ {
				if rng.Intn(2) == 0 {
					read()
				}
				sched += "N"
				if rs.Next() {
					r.Fail("advance after the end", "%s schedule %s", desc, sched)
					return
				}
			}
			read()
			r.Ev("result sets exhausted")
		})
		if 40 < len(sched) {
			sched = sched[:40]
		}
		r.Case(desc + " schedule " + sched)
	}
	type w struct {
		n      int
		off, l uint
	}
	ws := []w{}
	for n := 0; n <= 12; n++ {
		for o := 0; o <= n+2; o++ {
			for l := 0; l <= n+2; l++ {
				ws = append(ws, w{n, uint(o), uint(l)})
			}
		}
	}
	r.EvN("exhaustive small windows", len(ws))
	for _, n := range []int{0, 1, 2, 100, 255, 256, 257, 1000} {
		for _, o := range []uint{0, 1, uint(n), math.MaxUint, math.MaxUint - 1, math.MaxInt, 255, 256} {
			for _, l := range []uint{0, 1, uint(n), math.MaxUint, math.MaxUint - 1, math.MaxInt, 255, 256} {
				ws = append(ws, w{n, o, l})
			}
		}
	}
	r.Parallel("window", len(ws)*r.N(2, 20), func(i int, rng *rand.Rand) {
		x := ws[i%len(ws)]
		one(x.n, x.off, x.l, rng, rng.Intn(2) == 0)
	})
	r.Parallel("random", r.N(4000, 80000), func(i int, rng *rand.Rand) {
		n := rng.Intn(60)
		one(n, uint(rng.Intn(n+3)), uint(rng.Intn(n+5)), rng, rng.Intn(2) == 0)
	})
	// The result sets of aggregates.
	r.Parallel("fn", r.N(2000, 20000), func(i int, rng *rand.Rand) {
		n := rng.Intn(20)
		rows := []fn.Row{}
		for k := 0; k < n; k++ {
			rows = append(rows, fn.NewRow(k, fmt.Sprint("v", k)))
		}
		rs := fn.NewResultSet(fn.WithColumns([]string{"id", "v"}), fn.WithRows(rows))
		pos, sched := -1, ""
		desc := fmt.Sprintf("function result set of %d rows", n)
		r.Guard(desc, func() {
			for step := 0; step < 2*n+10; step++ {
				if rng.Intn(2) == 0 {
					ok := rs.Next()
					sched += "N"
					if ok != (pos+1 < n) {
						r.Fail("advance", "%s schedule %s: %v", desc, sched, ok)
						return
					}
					if pos < n {
						pos++
					}
					continue
				}
				sched += "R"
				row, err := rs.Row()
				m, merr := rs.Map()
				if pos < 0 || n <= pos {
					if err == nil || merr == nil {
						r.Fail("row outside", "%s schedule %s: %v %v", desc, sched, row, m)
					} else if !errors.Is(err, fn.ErrNoData) || !errors.Is(merr, fn.ErrNoData) {
						r.Fail("error", "%s schedule %s: %v %v", desc, sched, err, merr)
					}
					continue
				}
				if err != nil || merr != nil || len(row) != 2 || row[0] != any(pos) || m["id"] != any(pos) || m["v"] != any(fmt.Sprint("v", pos)) {
					r.Fail("row", "%s schedule %s: %v %v %v %v at %d", desc, sched, row, m, err, merr, pos)
				}
			}
		})
		r.Ev("function result sets")
		r.Case(desc + " schedule " + sched)
	})
}

func checkRowViews(r *Run) {
	columnParts(r)
	r.Rule = "result sets over random tables and select lists (columns, repeated columns, scalar functions with column and literal arguments) and rows with absent and null columns: values by position, by name, as object and by scanning against the source; positions and names outside; rows without schema; non-trivial: distinct queries with rows"
	colTypes := []string{"INT", "TEXT", "DOUBLE", "BOOLEAN", "VARCHAR(20)"}
	// The rows of aggregates as objects.
	r.Parallel("fn rows", r.N(1500, 20000), func(i int, rng *rand.Rand) {
		g := &G{Rand: rng}
		names := g.distinctNames(many(rng, 6))
		vals := []any{}
		for k, n := 0, many(rng, 8); k < n; k++ {
			vals = append(vals, []any{k, nil, fmt.Sprint("v", k), float64(k) / 2}[rng.Intn(4)])
		}
		want := map[string]any{}
		for k, n := range names {
			want[n] = nil
			if k < len(vals) {
				want[n] = vals[k]
			}
		}
		desc := fmt.Sprintf("columns %q of the row %v", names, vals)
		r.Guard(desc, func() {
			row := fn.NewRow(vals...)
			src := append([]any{}, vals...)
			rs := fn.NewResultSet(fn.WithColumns(names), fn.WithRows([]fn.Row{row}))
			rs.Next()
			m, err := rs.Map()
			for way, got := range []fn.Map{m, fn.NewMapWithRow(names, row), fn.NewMapWithMap(want)} {
				if err != nil || !reflect.DeepEqual(map[string]any(got), want) {
					r.Fail("object of a row", "%s: %v (way %d, %v), want %v", desc, got, way, err, want)
				}
				got["intruder"] = 1
			}
			if _, ok := want["intruder"]; ok {
				r.Fail("object of a row", "%s: the object is shared with its source", desc)
			}
			if !reflect.DeepEqual([]any(row), src) && len(src) != 0 {
				r.Fail("source changed", "%s: %v, was %v", desc, row, src)
			}
		})
		r.Ev("objects of rows")
		r.Case("fn " + desc)
	})
	r.Parallel("select", r.N(4000, 80000), func(i int, rng *rand.Rand) {
		g := &G{Rand: rng}
		ncols := 1 + many(rng, 6)
		names := g.distinctNames(ncols)
		kinds := make([]string, ncols)
		defs := []string{}
		for k, n := range names {
			kinds[k] = colTypes[rng.Intn(len(colTypes))]
			defs = append(defs, n+" "+kinds[k])
		}
		create := "CREATE TABLE tbl (" + strings.Join(defs, ", ") + ")"
		cs, err := Parse(create)
		if err != nil {
			r.Fail("parse", "%s: %v", create, err)
			return
		}
		tbl := cs[0].(query.CreateTable).Schema()
		type item struct {
			text  string
			value func(row map[string]any) (any, bool) // false: the function cannot be computed on the row
		}
		items := []item{}
		for k, n := 0, 1+many(rng, 5); k < n; k++ {
			c := rng.Intn(ncols)
			col := names[c]
			switch {
			case rng.Intn(3) != 0:
				items = append(items, item{col, func(row map[string]any) (any, bool) { return row[col], true }})
			case kinds[c] == "INT" || kinds[c] == "DOUBLE":
				ref := []string{"ABS", "CEIL", "FLOOR", "ROUND", "SQRT", "MOD", "POWER"}[rng.Intn(7)]
				text := randCase(rng, ref) + "(" + col + ")"
				second := ""
				if arityOf(ref) == 2 {
					second = []string{"3", "2", "'2'"}[rng.Intn(3)]
					text = randCase(rng, ref) + "(" + col + ", " + second + ")"
				}
				items = append(items, item{text, func(row map[string]any) (any, bool) {
					v, ok := row[col]
					if !ok || v == nil {
						return nil, false
					}
					args := []float64{toF(v)}
					if second != "" {
						args = append(args, toF(strings.Trim(second, "'")))
					}
					for _, m := range mathRefs {
						if m.name == ref {
							x, in := m.f(args)
							return x, in
						}
					}
					return nil, false
				}})
			case kinds[c] == "TEXT" || kinds[c] == "VARCHAR(20)":
				f := []string{"UPPER", "LOWER", "TRIM"}[rng.Intn(3)]
				items = append(items, item{randCase(rng, f) + "(" + col + ")", func(row map[string]any) (any, bool) {
					s, ok := row[col].(string)
					if !ok {
						return nil, false
					}
					switch f {
					case "UPPER":
						return strings.ToUpper(s), true
					case "LOWER":
						return strings.ToLower(s), true
					}
					return strings.TrimSpace(s), true
				}})
			default:
				items = append(items, item{col, func(row map[string]any) (any, bool) { return row[col], true }})
			}
		}
		texts := []string{}
		for _, it := range items {
			texts = append(texts, it.text)
		}
		q := "SELECT " + strings.Join(texts, ", ") + " FROM tbl"
		ss, err := Parse(q)
		if err != nil {
			r.Fail("parse", "%s: %v", q, err)
			return
		}
		sel := ss[0].(query.Select)
		maps := []map[string]any{}
		nrows := 1 + rng.Intn(4)
		for k := 0; k < nrows; k++ {
			m := map[string]any{"zz_extra": k}
			for c, n := range names {
				if rng.Intn(8) == 0 {
					continue
				}
				switch {
				case rng.Intn(8) == 0:
					m[n] = nil
				case kinds[c] == "INT":
					m[n] = []any{rng.Intn(100) - 50, int64(rng.Intn(1000)), 4}[rng.Intn(3)]
				case kinds[c] == "DOUBLE":
					m[n] = float64(rng.Intn(1000)-500) / 8
				case kinds[c] == "BOOLEAN":
					m[n] = rng.Intn(2) == 0
				default:
					m[n] = [...]string{" aB ", "", "x", "'", "日本É", "123"}[rng.Intn(6)]
				}
			}
			maps = append(maps, m)
		}
		desc := fmt.Sprintf("%s; %s; rows %v", create, q, maps)
		before := fmt.Sprintf("%#v", maps)
		r.Guard(desc, func() {
			schema, err := resultset.NewSchemaFrom(resultset.WithSchemaDatabaseName("db1"), resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(sel.Selectors()))
			if err != nil {
				r.Fail("schema", "%v\n%s", err, desc)
				return
			}
			if schema.TableName() != "tbl" || schema.DatabaseName() != "db1" || len(schema.Columns()) != len(items) || len(schema.Selectors()) != len(items) {
				r.Fail("schema", "table %s database %s columns %d\n%s", schema.TableName(), schema.DatabaseName(), len(schema.Columns()), desc)
				return
			}
			for k, c := range schema.Columns() {
				f, isFn := c.Function()
				if isFn != c.IsFunction() || isFn != strings.Contains(items[k].text, "(") || (isFn && f == nil) || !strings.EqualFold(squeeze(c.Name()), squeeze(items[k].text)) {
					r.Fail("schema", "column %d is %s (function: %v) instead of %s\n%s", k, c.Name(), isFn, items[k].text, desc)
				}
				if lc, err := schema.LookupColumn(c.Name()); err != nil || lc.Name() != c.Name() {
					r.Fail("schema", "lookup of %s: %v\n%s", c.Name(), err, desc)
				}
			}
			if _, err := schema.LookupColumn("no_such_column"); err == nil {
				r.Fail("schema", "lookup of an unknown column succeeded\n%s", desc)
			}
			rs, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(schema), resultset.WithResultSetRowsOf(maps))
			if err != nil {
				r.Fail("result set", "%v\n%s", err, desc)
				return
			}
			for n, src := range maps {
				if !rs.Next() {
					r.Fail("rows", "row %d missing\n%s", n, desc)
					return
				}
				computable := true
				for _, it := range items {
					if _, ok := it.value(src); !ok {
						computable = false
					}
				}
				row, err := rs.Row()
				if !computable {
					if err == nil {
						// A function without its argument must not get a made-up value.
						for k, it := range items {
							if _, ok := it.value(src); !ok {
								if v, err := row.ValueAt(k); err == nil && v != nil {
									r.Fail("made-up value", "row %d: %s = %v\n%s", n, it.text, v, desc)
								}
							}
						}
					}
					r.Ev("rows that cannot be computed")
					continue
				}
				if err != nil {
					r.Fail("row", "row %d: %v\n%s", n, err, desc)
					return
				}
				viewsAgree(r, desc, row, schema.Columns(), func(k int) any { v, _ := items[k].value(src); return v })
				again, err := rs.Row()
				if err != nil || !reflect.DeepEqual(again.Values(), row.Values()) {
					r.Fail("read twice", "row %d: %v then %v %v\n%s", n, row.Values(), again, err, desc)
				}
			}
			if rs.Next() {
				r.Fail("rows", "too many rows\n%s", desc)
			}
			if now := fmt.Sprintf("%#v", maps); now != before {
				r.Fail("source modified", "%s\nnow %s", desc, now)
			}
		})
		r.Case(desc)
	})
	// Rows without a schema, from objects and from values.
	r.Parallel("plain", r.N(3000, 40000), func(i int, rng *rand.Rand) {
		n := many(rng, 6)
		g := &G{Rand: rng}
		names := g.distinctNames(n)
		obj := map[string]any{}
		vals := []any{}
		cols := []resultset.Column{}
		for _, nm := range names {
			v := []any{1, "x", 2.5, nil, true, int64(7)}[rng.Intn(6)]
			obj[nm] = v
			vals = append(vals, v)
			cols = append(cols, resultset.NewColumn(resultset.WithColumnName(nm)))
		}
		desc := fmt.Sprintf("plain row %v in order %v", obj, names)
		r.Guard(desc, func() {
			var row resultset.Row
			schema := resultset.NewSchema(resultset.WithSchemaColumns(cols))
			want := func(k int) any { return vals[k] }
			switch rng.Intn(6) {
			case 4: // values alone: the positions are the names
				row = resultset.NewRow(resultset.WithRowValues(vals))
				for k := range cols {
					cols[k] = resultset.NewColumn(resultset.WithColumnName(strconv.Itoa(k + 1)))
				}
			case 5: // an object without some of the columns, and with others
				part := map[string]any{"zz_other": 1}
				for k, nm := range names {
					if rng.Intn(2) == 0 {
						part[nm] = vals[k]
					}
				}
				before := fmt.Sprint(part)
				row := resultset.NewRow(resultset.WithRowObject(part), resultset.WithRowSchema(schema))
				for round := 0; round < 2; round++ {
					for k, nm := range names {
						w, ok := part[nm]
						if v, err := row.ValueBy(nm); (err == nil) != ok || ok && !sameCell(v, w) {
							r.Fail("partial object", "by name %s: %v %v, want %v %v\n%s", nm, v, err, w, ok, desc)
						}
						if v, err := row.ValueAt(k); err != nil || !sameCell(v, w) {
							r.Fail("partial object", "by position %d: %v %v, want %v\n%s", k, v, err, w, desc)
						}
					}
					if v := row.Values(); len(v) != len(names) {
						r.Fail("partial object", "%d values for %d columns\n%s", len(v), len(names), desc)
					}
				}
				if now := fmt.Sprint(part); now != before {
					r.Fail("partial object", "the object of the caller is changed: %s, it was %s\n%s", now, before, desc)
				}
				r.Ev("partial objects")
				return
			case 0:
				row = resultset.NewRow(resultset.WithRowObject(obj), resultset.WithRowSchema(schema))
			case 1:
				row = resultset.NewRow(resultset.WithRowValues(vals), resultset.WithRowSchema(schema))
			case 2:
				maps, at := resultset.NewMapRows(), rng.Intn(3)
				for k := 0; k < at; k++ {
					maps = append(maps, map[string]any{"other": k})
				}
				maps = append(maps, obj)
				for k := rng.Intn(3); 0 < k; k-- {
					maps = append(maps, map[string]any{"other": -k})
				}
				rows, err := resultset.NewRowsFromMapRows(maps)
				if err != nil || len(rows) != len(maps) {
					r.Fail("rows", "%d rows of %d objects %v\n%s", len(rows), len(maps), err, desc)
					return
				}
				for k := range maps {
					if !reflect.DeepEqual(rows[k].Object(), maps[k]) {
						r.Fail("rows", "row %d of %d is %v instead of %v\n%s", k, len(maps), rows[k].Object(), maps[k], desc)
					}
				}
				rows = rows[at:]
				if !reflect.DeepEqual(rows[0].Object(), obj) {
					r.Fail("object", "%v\n%s", rows[0].Object(), desc)
				}
				if len(rows[0].Values()) != n {
					r.Fail("values", "%v\n%s", rows[0].Values(), desc)
				}
				for _, nm := range names {
					if v, err := rows[0].ValueBy(nm); err != nil || v != obj[nm] {
						r.Fail("by name", "%s: %v %v\n%s", nm, v, err, desc)
					}
				}
				outside(r, desc, rows[0], n)
				return
			case 3:
				var err error
				if row, err = resultset.NewRowFromObject(schema, obj); err != nil {
					r.Fail("row", "%v\n%s", err, desc)
					return
				}
			}
			viewsAgree(r, desc, row, cols, want)
		})
		if 0 < n {
			r.Case(desc)
		} else {
			r.Case("")
		}
	})
}

func sameCell(got, want any) bool {
	if reflect.DeepEqual(got, want) {
		return true
	}
	x, ok1 := numberOf(got)
	y, ok2 := numberOf(want)
	return ok1 && ok2 && sameNumber(x, y, false)
}

// viewsAgree compares all views of the row with the expected values.
func viewsAgree(r *Run, desc string, row resultset.Row, cols []resultset.Column, want func(k int) any) {
	vals := row.Values()
	if len(vals) != len(cols) {
		r.Fail("values", "%d values for %d columns\n%s", len(vals), len(cols), desc)
		return
	}
	obj := row.Object()
	for k, c := range cols {
		w := want(k)
		at, err := row.ValueAt(k)
		if err != nil || !sameCell(at, w) {
			r.Fail("by position", "%d (%s): %v %v, want %v\n%s", k, c.Name(), at, err, w, desc)
			return
		}
		by, err := row.ValueBy(c.Name())
		if err != nil || !reflect.DeepEqual(by, at) {
			r.Fail("by name", "%s: %v %v, by position %v\n%s", c.Name(), by, err, at, desc)
			return
		}
		if o, ok := obj[c.Name()]; !ok || !reflect.DeepEqual(o, at) || !reflect.DeepEqual(vals[k], at) {
			r.Fail("object", "%s: object %v values %v, by position %v\n%s", c.Name(), o, vals[k], at, desc)
			return
		}
		if at == nil {
			scanNull(r, desc, row, k, c.Name())
			continue
		}
		to1, to2 := reflect.New(reflect.TypeOf(at)), reflect.New(reflect.TypeOf(at))
		err1, err2 := row.ScanAt(k, to1.Interface()), row.ScanBy(c.Name(), to2.Interface())
		if err1 != nil || err2 != nil || !reflect.DeepEqual(to1.Elem().Interface(), at) || !reflect.DeepEqual(to2.Elem().Interface(), at) {
			r.Fail("scan", "%s: %v %v, %v %v, by position %v\n%s", c.Name(), to1.Elem().Interface(), err1, to2.Elem().Interface(), err2, at, desc)
			return
		}
		r.Ev("cells compared")
	}
	if o := len(obj); o > len(cols) {
		r.Fail("object", "%d entries for %d columns: %v\n%s", o, len(cols), obj, desc)
	}
	// Scanning a row fills the targets in column order.
	tos := []any{}
	for k := range vals {
		if vals[k] == nil {
			break
		}
		tos = append(tos, reflect.New(reflect.TypeOf(vals[k])).Interface())
	}
	if err := row.Scan(tos...); err != nil {
		r.Fail("scan row", "%v\n%s", err, desc)
	} else {
		for k, to := range tos {
			if !reflect.DeepEqual(reflect.ValueOf(to).Elem().Interface(), vals[k]) {
				r.Fail("scan row", "%d: %v, want %v\n%s", k, reflect.ValueOf(to).Elem().Interface(), vals[k], desc)
			}
		}
	}
	if len(tos) == len(vals) {
		var extra any
		var s string
		_ = extra
		if err := row.Scan(append(tos, &s)...); err == nil {
			r.Fail("scan row", "more targets than columns accepted\n%s", desc)
		}
	}
	outside(r, desc, row, len(cols))
}

// scanNull scans a null column into targets that hold something: that is refused, or the target is emptied.
func scanNull(r *Run, desc string, row resultset.Row, k int, name string) {
	scan := func(way string, f func(to any) error) {
		n, x, b, t := 77, 7.5, true, "old"
		errs := []error{f(&n), f(&x), f(&b), f(&t)}
		empty := []bool{n == 0, x == 0, !b, t == "" || strings.EqualFold(t, "NULL")}
		for i, err := range errs {
			if err == nil && !empty[i] {
				r.Fail("scan of null", "by %s: a null column left the target as it was, without an error: %d %v %v %q\n%s", way, n, x, b, t, desc)
			}
		}
		r.Ev("nulls scanned")
	}
	scan("position", func(to any) error { return row.ScanAt(k, to) })
	scan("name", func(to any) error { return row.ScanBy(name, to) })
	if k == 0 {
		scan("row", func(to any) error { return row.Scan(to) })
	}
}

func outside(r *Run, desc string, row resultset.Row, n int) {
	var s string
	for _, p := range []int{-1, -2, n, n + 1, math.MaxInt, math.MinInt} {
		if v, err := row.ValueAt(p); err == nil {
			r.Fail("outside", "position %d gave %v\n%s", p, v, desc)
		} else if !errors.Is(err, sqlerrors.ErrNotExist) {
			r.Fail("outside", "position %d: %v\n%s", p, err, desc)
		}
		if err := row.ScanAt(p, &s); err == nil {
			r.Fail("outside", "scan at position %d gave %v\n%s", p, s, desc)
		}
	}
	for _, nm := range []string{"no_such_column", "", "zz_extra", " "} {
		if v, err := row.ValueBy(nm); err == nil {
			r.Fail("outside", "name %q gave %v\n%s", nm, v, desc)
		} else if !errors.Is(err, sqlerrors.ErrNotExist) {
			r.Fail("outside", "name %q: %v\n%s", nm, err, desc)
		}
		if err := row.ScanBy(nm, &s); err == nil {
			r.Fail("outside", "scan by name %q gave %v\n%s", nm, s, desc)
		}
	}
	r.Ev("outside accesses refused")
}
