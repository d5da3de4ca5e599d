package main

import (
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"strings"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
)

// windowParts: a result set reports the options it was made with, whatever their order, and reading it changes none of them.
func windowParts(r *Run) {
	r.Parallel("parts", r.N(1500, 20000), func(i int, rng *rand.Rand) {
		affected, off, lim := uint(rng.Intn(5)), uint(rng.Intn(4)), uint(rng.Intn(4))
		group := []string{"", "g", "a b"}[rng.Intn(3)]
		n := rng.Intn(6)
		maps := []map[string]any{}
		for k := 0; k < n; k++ {
			maps = append(maps, map[string]any{"id": k})
		}
		schema := resultset.NewSchema(resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns([]resultset.Column{resultset.NewColumn(resultset.WithColumnName("id"))}))
		opts := []resultset.ResultSetOption{
			resultset.WithResultSetRowsAffected(affected), resultset.WithResultSetOffset(off), resultset.WithResultSetLimit(lim),
			resultset.WithResultSetGroupBy(group), resultset.WithResultSetSchema(schema), resultset.WithResultSetRowsOf(maps),
		}
		rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
		desc := fmt.Sprintf("result set of %d rows, affected %d offset %d limit %d group %q", n, affected, off, lim, group)
		r.Guard(desc, func() {
			rs, err := resultset.NewResultSetFrom(opts...)
			if err != nil {
				r.Fail("constructor", "%s: %v", desc, err)
				return
			}
			judge := func(when string) {
				if rs.RowsAffected() != affected || rs.Schema() != schema {
					r.Fail("parts", "%s, %s: affected %d schema %v", desc, when, rs.RowsAffected(), rs.Schema())
				}
				if w, ok := rs.(interface {
					Offset() uint
					Limit() uint
					GroupBy() string
				}); ok && (w.Offset() != off || w.Limit() != lim || w.GroupBy() != group) {
					r.Fail("parts", "%s, %s: offset %d limit %d group %q", desc, when, w.Offset(), w.Limit(), w.GroupBy())
				}
			}
			judge("new")
			count := 0
			for rs.Next() {
				row, err := rs.Row()
				if err != nil {
					r.Fail("row", "%s: %v", desc, err)
					return
				}
				if v, err := row.ValueBy("id"); err != nil || v != any(int(off)+count) {
					r.Fail("row", "%s: row %d is %v %v", desc, count, v, err)
				}
				count++
				if n < count {
					break
				}
			}
			want := max(0, n-int(off))
			if 0 < lim {
				want = min(want, int(lim))
			}
			if count != want {
				r.Fail("count", "%s: %d rows", desc, count)
			}
			judge("read")
			if err := rs.Close(); err != nil {
				r.Fail("close", "%s: %v", desc, err)
			}
			// What is no list of rows is refused and not taken as an empty result.
			bad := []any{nil, 1, "rows", map[string]any{"id": 1}, []any{1}, []string{"a"}}[rng.Intn(6)]
			if rs, err := resultset.NewResultSetFrom(resultset.WithResultSetRowsOf(bad)); err == nil || rs != nil {
				r.Fail("constructor", "rows of %T are accepted", bad)
			}
		})
		r.Ev("result set parts")
		r.Case(desc)
	})
}

// columnParts: columns and schemas of results report what they were made of.
func columnParts(r *Run) {
	types := allDataTypes()
	r.Parallel("columns", r.N(2000, 30000), func(i int, rng *rand.Rand) {
		g := &G{Rand: rng}
		name := g.distinctNames(1)[0]
		if rng.Intn(10) == 0 {
			name = "*"
		}
		t := types[rng.Intn(len(types))]
		c := query.Constraint(rng.Intn(8))
		desc := fmt.Sprintf("column %s %v %d", name, t, c)
		r.Guard(desc, func() {
			fx := fn.NewFunction(fn.WithFunctionName("ABS"), fn.WithFunctionArguments(fn.NewArgumentWith("x")))
			withFn := rng.Intn(3) == 0
			opts := []resultset.ColumnOption{resultset.WithColumnName(name), resultset.WithColumnType(t), resultset.WithColumnConstraint(c)}
			if withFn {
				opts = append(opts, resultset.WithColumnFunction(fx))
			}
			rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
			col := resultset.NewColumn(opts...)
			if col.Name() != name || col.DataType() != t || col.Constraint() != c || col.IsAsterisk() != (name == "*") || col.IsFunction() != withFn {
				r.Fail("column", "%s: %s %v %v asterisk %v function %v", desc, col.Name(), col.DataType(), col.Constraint(), col.IsAsterisk(), col.IsFunction())
			}
			if f, ok := col.Function(); ok != withFn || (ok && (f.Name() != "ABS" || strings.Join(col.Arguments().Names(), ",") != "x")) || (!ok && len(col.Arguments()) != 0) {
				r.Fail("column", "%s: function %v %v arguments %v", desc, f, ok, col.Arguments())
			}
			text := name + " " + t.String()
			for k, s := range []string{"PRIMARY KEY", "NOT NULL", "UNIQUE"} {
				if c&(1<<k) != 0 {
					if !strings.Contains(col.DefinitionString(), " "+s) {
						r.Fail("column", "%s: the definition %q does not have %s", desc, col.DefinitionString(), s)
					}
					text += " " + s
				} else if strings.Contains(strings.TrimPrefix(col.DefinitionString(), name), s) {
					r.Fail("column", "%s: the definition %q has %s", desc, col.DefinitionString(), s)
				}
			}
			if !strings.HasPrefix(col.DefinitionString(), name+" "+t.String()) || len(col.DefinitionString()) != len(text) {
				r.Fail("column", "%s: the definition is %q", desc, col.DefinitionString())
			}
			if col.String() != name {
				r.Fail("column", "%s: the text is %q", desc, col.String())
			}
			// From a column of a table.
			src := query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewDataDef(t, -1)))
			from, err := resultset.NewColumnFrom(src)
			if err != nil || from.Name() != name || from.DataType() != t || from.Constraint() != src.Constraint() || from.IsFunction() {
				r.Fail("column", "%s from a table: %v %v", desc, from, err)
			}
			list := resultset.NewColumnsFrom(query.NewColumnsWith(src, src))
			if len(list) != 2 || list[0].Name() != name || list[1].DataType() != t {
				r.Fail("column", "%s: list %v", desc, list)
			}
			// A schema of an object.
			obj, names := map[string]any{}, []string{}
			kinds := map[string]query.DataType{}
			for _, n := range g.distinctNames(rng.Intn(6)) {
				v := []any{1, int64(2), "x", 2.5, true, []byte("b"), float32(1)}[rng.Intn(7)]
				dt, err := query.NewDataTypeForValue(v)
				if err != nil {
					r.Fail("type", "%T: %v", v, err)
					return
				}
				obj[n], kinds[n] = v, dt
				names = append(names, n)
			}
			slices.Sort(names)
			sc, err := resultset.NewSchemaFrom(resultset.WithSchemaRowObject(obj), resultset.WithSchemaTableName(name), resultset.WithSchemaDatabaseName("d"))
			if err != nil || len(sc.Columns()) != len(names) || sc.TableName() != name || sc.DatabaseName() != "d" {
				r.Fail("schema of an object", "%v: %v", obj, err)
				return
			}
			seen := []string{}
			for _, c := range sc.Columns() {
				seen = append(seen, c.Name())
				if c.DataType() != kinds[c.Name()] {
					r.Fail("schema of an object", "%v: %s is %v", obj, c.Name(), c.DataType())
				}
			}
			slices.Sort(seen)
			if !slices.Equal(seen, names) {
				r.Fail("schema of an object", "%v: columns %q", obj, seen)
			}
			// A value without a type is refused, or its column is there.
			obj["null_value"] = nil
			if sc, err := resultset.NewSchemaFrom(resultset.WithSchemaRowObject(obj)); err == nil {
				if _, err := sc.LookupColumn("null_value"); err != nil || len(sc.Columns()) != len(obj) {
					r.Fail("schema of an object", "%v: %d columns without an error", obj, len(sc.Columns()))
				}
			}
			// Selecting what is not there, or from nothing, is refused.
			tbl := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnData(query.NewDataDef(query.IntType, -1))))))
			sels := query.NewSelectorsWith(query.NewColumnWithName("a"))
			if _, err := resultset.NewSchemaFrom(resultset.WithSchemaSelectors(sels)); err == nil {
				r.Fail("schema", "selectors without a table are accepted")
			}
			if _, err := resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(query.NewSelectorsWith(query.NewColumnWithName("a"), query.NewColumnWithName("nosuch")))); err == nil || !errors.Is(err, query.ErrNotFound) {
				r.Fail("schema", "a selector which is not in the table: %v", err)
			}
			if sc, err := resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(sels)); err != nil || len(sc.Columns()) != 1 || sc.Columns()[0].DataType() != query.IntType || sc.TableName() != "t" {
				r.Fail("schema", "a selector of the table: %v", err)
			}
			if _, err := sc.LookupColumn("no such column"); !errors.Is(err, query.ErrNotFound) {
				r.Fail("schema", "an unknown column: %v", err)
			}
		})
		r.Ev("columns and schemas")
		r.Case(desc)
	})
}

// aggregateParts: the aggregates of a statement, and aggregate results of incomplete sources.
func aggregateParts(r *Run) {
	stmts, err := Parse("CREATE TABLE t (g TEXT, x INT, y INT)")
	if err != nil {
		r.Fail("setup", "%v", err)
		return
	}
	tbl := stmts[0].(query.CreateTable).Schema()
	r.Parallel("statement", r.N(1500, 20000), func(i int, rng *rand.Rand) {
		specs := []aggrSpec{}
		texts := []string{}
		for k := 1 + rng.Intn(3); 0 < k; k-- {
			s := aggrSpec{[]string{"SUM", "COUNT", "MIN", "MAX", "AVG"}[rng.Intn(5)], []string{"x", "y"}[rng.Intn(2)]}
			specs = append(specs, s)
			texts = append(texts, s.column())
		}
		q := "SELECT " + strings.Join(texts, ", ") + " FROM t"
		groups := []string{}
		if rng.Intn(2) == 0 {
			q += " GROUP BY g"
			groups = append(groups, "g")
		}
		rows := []map[string]any{}
		for k, n := 0, rng.Intn(8); k < n; k++ {
			rows = append(rows, map[string]any{"g": []string{"a", "b", "c"}[rng.Intn(3)], "x": rng.Intn(20) - 10, "y": rng.Intn(5)})
		}
		desc := fmt.Sprintf("%s over %v", q, rows)
		r.Guard(desc, func() {
			sel, err := parseOne[query.Select](q)
			if err != nil {
				r.Fail("setup", "%s: %v", q, err)
				return
			}
			if st, ok := sel.(interface {
				Aggregators() (query.AggregatorSet, error)
			}); ok {
				for round := 0; round < 2; round++ {
					set, err := st.Aggregators()
					if err != nil {
						r.Fail("aggregates of a statement", "%s: %v", desc, err)
						return
					}
					for _, row := range rows {
						if err := set.Aggregate(row); err != nil {
							r.Fail("aggregates of a statement", "%s: %v", desc, err)
							return
						}
					}
					rs, err := set.Finalize()
					if err != nil {
						r.Fail("aggregates of a statement", "%s: %v", desc, err)
						return
					}
					got, err := drainFn(rs)
					if err != nil {
						r.Fail("aggregates of a statement", "%s: %v", desc, err)
						return
					}
					judgeGroups(r, fmt.Sprintf("%s (use %d)", desc, round+1), got, rows, groups, specs)
				}
				r.Ev("aggregates of statements")
			}
			// A source without a schema.
			full := func(rs resultset.ResultSet) []resultset.AggregatedResultSetOptions {
				return []resultset.AggregatedResultSetOptions{resultset.WithAggregatedResultSetTableSchema(tbl), resultset.WithAggregatedResultSetSelectors(sel.Selectors()), resultset.WithAggregatedResultSetSource(rs), resultset.WithAggregatedResultSetGroupBy(sel.GroupBy())}
			}
			src := resultset.NewResultSet(resultset.WithResultSetRowsOf(rows))
			ao := full(src)
			rng.Shuffle(len(ao), func(a, b int) { ao[a], ao[b] = ao[b], ao[a] })
			rs, err := resultset.NewAggregatedResultSetFrom(ao...)
			if err != nil {
				r.Fail("source without a schema", "%s: %v", desc, err)
				return
			}
			keys, _, _ := groupRows(rows, groups, specs)
			n := 0
			for rs.Next() {
				n++
			}
			if n != len(keys) {
				r.Fail("source without a schema", "%s: %d rows instead of %d", desc, n, len(keys))
			}
			if rs.Schema() == nil || len(rs.Schema().Columns()) != len(specs) || rs.Schema().TableName() != "t" {
				r.Fail("source without a schema", "%s: schema %v", desc, rs.Schema())
			}
			// Incomplete: an error, no result.
			drop := rng.Intn(3)
			ao = full(src)
			ao = append(ao[:drop:drop], ao[drop+1:]...)
			if rs, err := resultset.NewAggregatedResultSetFrom(ao...); err == nil || rs != nil {
				r.Fail("incomplete", "%s: accepted without part %d", desc, drop)
			}
			// No aggregates: the source itself.
			plain := query.NewSelectorsWith(query.NewColumnWithName("x"))
			if rs, err := resultset.NewAggregatedResultSetFrom(resultset.WithAggregatedResultSetTableSchema(tbl), resultset.WithAggregatedResultSetSelectors(plain), resultset.WithAggregatedResultSetSource(src)); err != nil || rs != src {
				r.Fail("no aggregates", "%s: %v", desc, err)
			}
			// A row without the aggregated column, an unknown aggregated column or a text that is no number is an error.
			bad := map[string]any{"g": "a", "x": 1, "y": 2}
			switch rng.Intn(2) {
			case 0:
				delete(bad, specs[0].arg)
			case 1:
				bad = map[string]any{"g": "a", "x": "no number", "y": "no number"}
				if !slices.ContainsFunc(specs, func(s aggrSpec) bool { return s.name != "COUNT" }) {
					return
				}
			}
			src = resultset.NewResultSet(resultset.WithResultSetRowsOf(append(slices.Clone(rows), bad)))
			if rs, err := resultset.NewAggregatedResultSetFrom(full(src)...); err == nil {
				r.Fail("bad row", "%s: the row %v is accepted: %v", desc, bad, rs)
			}
			r.Ev("aggregate results of plain sources")
		})
		r.Case(desc)
	})
}

// metadataParts: a column of the metadata reports what it was made of.
func metadataParts(r *Run) {
	types := allDataTypes()
	r.Parallel("metadata column", r.N(1500, 20000), func(i int, rng *rand.Rand) {
		names := []string{metaName(rng), metaName(rng), metaName(rng), metaName(rng)}
		t := types[rng.Intn(len(types))]
		c := query.Constraint(rng.Intn(8))
		desc := fmt.Sprintf("%q %v %d", names, t, c)
		r.Guard(desc, func() {
			var dt any = randCase(rng, t.String())
			if rng.Intn(3) == 0 {
				dt = []byte(t.String())
			}
			opts := []system.ColumnOption{system.WithColumnCatalog(names[0]), system.WithColumnSchema(names[1]), system.WithColumnTable(names[2]), system.WithColumnName(names[3]), system.WithColumnDataType(dt), system.WithColumnConstraint(c)}
			rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
			col, err := system.NewColumn(opts...)
			if err != nil || col.Catalog() != names[0] || col.Schema() != names[1] || col.Table() != names[2] || col.Name() != names[3] || col.DataType() != t || col.Constraint() != c {
				r.Fail("column", "%s: %+v %v", desc, col, err)
				return
			}
			list := system.NewSchemaColumns(system.WithColumns([]system.SchemaColumn{col}))
			if len(list.Columns()) != 1 || list.Columns()[0] != col {
				r.Fail("column", "%s: list %v", desc, list.Columns())
			}
			if name := foldCase(rng, names[3]); !strings.EqualFold(name, names[3]) {
				r.Ev("names without a case folding")
			} else if got, err := list.LookupColumn(name); err != nil || got != col {
				r.Fail("column", "%s: lookup %v %v", desc, got, err)
			}
			if got, err := list.LookupColumn(names[3] + "x"); err == nil || !errors.Is(err, system.ErrNotFound) || !strings.Contains(err.Error(), names[3]+"x") {
				r.Fail("column", "%s: lookup of an unknown column %v %v", desc, got, err)
			}
			if col, err := system.NewColumn(system.WithColumnName("c"), system.WithColumnDataType("no such type")); err == nil {
				r.Fail("column", "an unknown type is %v", col.DataType())
			}
		})
		// A metadata result from elsewhere, with columns in any order: each value ends up in its own place.
		r.Guard(desc, func() {
			cols := []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "DATA_TYPE"}
			obj := map[string]any{cols[0]: names[0], cols[1]: names[1], cols[2]: names[2], cols[3]: names[3], cols[4]: t.String(), "OTHER": "zzz"}
			rs := resultset.NewResultSet(resultset.WithResultSetRowsOf([]map[string]any{obj, obj}))
			back, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
			if err != nil || len(back.Columns()) != 2 {
				r.Fail("read back", "%s: %v", desc, err)
				return
			}
			for _, col := range back.Columns() {
				if col.Catalog() != names[0] || col.Schema() != names[1] || col.Table() != names[2] || col.Name() != names[3] || col.DataType() != t || col.Constraint() != query.ConstraintNone {
					r.Fail("read back", "%s: %+v", desc, col)
				}
			}
			// A missing column or an unknown type cannot be read back.
			miss := cols[rng.Intn(len(cols))]
			broken := map[string]any{}
			for k, v := range obj {
				if k != miss {
					broken[k] = v
				}
			}
			rs = resultset.NewResultSet(resultset.WithResultSetRowsOf([]map[string]any{obj, broken}))
			if back, err := system.NewSchemaColumnsResultSetFromResultSet(rs); err == nil {
				r.Fail("read back", "%s: a row without %s is accepted: %v", desc, miss, back.Columns())
			} else if !errors.Is(err, sqlerrors.ErrNotExist) {
				r.Fail("read back", "%s: a row without %s: %v", desc, miss, err)
			}
			broken = map[string]any{}
			for k, v := range obj {
				broken[k] = v
			}
			broken["DATA_TYPE"] = "no such type"
			rs = resultset.NewResultSet(resultset.WithResultSetRowsOf([]map[string]any{obj, broken}))
			if _, err := system.NewSchemaColumnsResultSetFromResultSet(rs); err == nil {
				r.Fail("read back", "%s: an unknown type is accepted", desc)
			}
		})
		r.Ev("metadata columns")
		r.Case(desc)
	})
}
