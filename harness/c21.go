package main

import (
	"fmt"
	"math/rand"
	"slices"
	"strconv"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
)

func init() {
	register("C21", c21)
}

// evalMeta evaluates a condition of a metadata query for one row of the metadata table.
func evalMeta(e query.Expr, row map[string]string) (bool, error) {
	switch e := e.(type) {
	case *query.AndExpr:
		l, err := evalMeta(e.Left(), row)
		if err != nil {
			return false, err
		}
		rr, err := evalMeta(e.Right(), row)
		return l && rr, err
	case *query.OrExpr:
		l, err := evalMeta(e.Left(), row)
		if err != nil {
			return false, err
		}
		rr, err := evalMeta(e.Right(), row)
		return l || rr, err
	case *query.CmpExpr:
		v, ok := row[strings.ToUpper(e.Left().Name())]
		if !ok {
			return false, fmt.Errorf("the condition is about %q", e.Left().Name())
		}
		s, isStr := e.Right().Value().(string)
		if !isStr || e.Right().ValueType() != query.StringLiteral {
			return false, fmt.Errorf("%q is compared with %v (%T), not with a string", e.Left().Name(), e.Right().Value(), e.Right().Value())
		}
		switch e.Operator() {
		case query.EQ:
			return v == s, nil
		case query.NEQ:
			return v != s, nil
		}
		return false, fmt.Errorf("operator %v", e.Operator())
	}
	return false, fmt.Errorf("%T cannot be evaluated", e)
}

// judgeMetaQuery decides that the query selects exactly the metadata of the tables of the database.
func judgeMetaQuery(sel query.Select, db string, tables []string, others []string) error {
	from := sel.From()
	if len(from) != 1 || !strings.EqualFold(from[0].FullTableName(), "information_schema.columns") {
		return fmt.Errorf("selects from %v", from.TableNames())
	}
	if !sel.Selectors().IsAsterisk() {
		return fmt.Errorf("selects %v", sel.Selectors().Names())
	}
	if sel.Limit() != nil && 0 < sel.Limit().Limit() {
		return fmt.Errorf("has a limit")
	}
	dbs := append([]string{db, db + "x", "", "other", strings.ToUpper(db) + "Z"}, others...)
	tbls := append(append([]string{"", "zzz", "a' OR '1'='1"}, tables...), others...)
	for _, t := range tables {
		tbls = append(tbls, t+"x", t+"'", "'"+t, strings.ReplaceAll(t, "'", "''"))
		if 1 < len(t) {
			tbls = append(tbls, t[:len(t)-1])
		}
	}
	for _, d := range dbs {
		for _, t := range tbls {
			want := (db == "" || d == db) && (len(tables) == 0 || slices.Contains(tables, t))
			got := true
			if sel.Where().HasConditions() {
				var err error
				got, err = evalMeta(sel.Where().Expr(), map[string]string{"TABLE_SCHEMA": d, "TABLE_NAME": t})
				if err != nil {
					return err
				}
			}
			if got != want {
				return fmt.Errorf("table %q of database %q is selected: %v, want %v", t, d, got, want)
			}
		}
	}
	return nil
}

// metaText evaluates the text of a metadata query: a reference reader of conditions with the usual precedence.
type metaText struct {
	toks []string
	pos  int
	row  map[string]string
}

func (m *metaText) next() string {
	if len(m.toks) <= m.pos {
		return ""
	}
	m.pos++
	return m.toks[m.pos-1]
}

func (m *metaText) peek() string {
	if len(m.toks) <= m.pos {
		return ""
	}
	return m.toks[m.pos]
}

func (m *metaText) or() (bool, error) {
	v, err := m.and()
	for err == nil && strings.EqualFold(m.peek(), "OR") {
		m.next()
		var w bool
		w, err = m.and()
		v = v || w
	}
	return v, err
}

func (m *metaText) and() (bool, error) {
	v, err := m.term()
	for err == nil && strings.EqualFold(m.peek(), "AND") {
		m.next()
		var w bool
		w, err = m.term()
		v = v && w
	}
	return v, err
}

func (m *metaText) term() (bool, error) {
	if m.peek() == "(" {
		m.next()
		v, err := m.or()
		if err == nil && m.next() != ")" {
			err = fmt.Errorf("unbalanced parentheses")
		}
		return v, err
	}
	name := m.next()
	v, ok := m.row[strings.ToUpper(name)]
	if !ok {
		return false, fmt.Errorf("the condition is about %q", name)
	}
	if op := m.next(); op != "=" {
		return false, fmt.Errorf("operator %q", op)
	}
	lit := m.next()
	if len(lit) < 2 || lit[0] != '\'' || lit[len(lit)-1] != '\'' {
		return false, fmt.Errorf("%q is compared with %s", name, lit)
	}
	return v == unquote(lit[1:len(lit)-1]), nil
}

// judgeMetaText decides the same as judgeMetaQuery for the text of the query.
func judgeMetaText(text, db string, tables, others []string) error {
	toks := lexSQL(text)
	head := []string{"SELECT", "*", "FROM", "information_schema", ".", "COLUMNS"}
	for k, h := range head {
		if len(toks) <= k || !strings.EqualFold(toks[k], h) {
			return fmt.Errorf("the text does not select from the metadata table: %q", toks)
		}
	}
	toks = toks[len(head):]
	if len(toks) == 0 {
		if db != "" || len(tables) != 0 {
			return fmt.Errorf("the text has no condition")
		}
		return nil
	}
	if !strings.EqualFold(toks[0], "WHERE") {
		return fmt.Errorf("the text has %q", toks[0])
	}
	for _, d := range append([]string{db, db + "x", ""}, others...) {
		for _, t := range append(append([]string{"", "zzz"}, tables...), others...) {
			m := &metaText{toks: toks[1:], row: map[string]string{"TABLE_SCHEMA": d, "TABLE_NAME": t}}
			got, err := m.or()
			if err == nil && m.pos != len(m.toks) {
				err = fmt.Errorf("the text goes on with %q", m.toks[m.pos:])
			}
			if err != nil {
				return err
			}
			if want := (db == "" || d == db) && (len(tables) == 0 || slices.Contains(tables, t)); got != want {
				return fmt.Errorf("the text selects table %q of database %q: %v, want %v", t, d, got, want)
			}
		}
	}
	return nil
}

func judgeMetaStmt(st system.SchemaColumnsStatement, db string, tables []string) error {
	if st.DatabaseName() != db {
		return fmt.Errorf("the database is %q, want %q", st.DatabaseName(), db)
	}
	if !slices.Equal(st.TableNames(), tables) && len(st.TableNames())+len(tables) != 0 {
		return fmt.Errorf("the tables are %q, want %q", st.TableNames(), tables)
	}
	return nil
}

func metaName(rng *rand.Rand) string {
	switch rng.Intn(8) {
	case 0:
		return []string{"?", "*", "NULL", "1", "1.5", "a' OR '1'='1", "'", "''", "x'; DROP TABLE t; --", "\\", "a\\'", "\"q\"", "`b`", "a b", "表", "é", "--", "/*", "%", "$1", "TRUE", " ", "a\nb", "\t"}[rng.Intn(24)]
	case 1:
		return randString(rng, false)
	}
	return []string{"users", "orders", "t1", "T1", "Users", "order_items", "t", "information_schema", "columns", "a.b"}[rng.Intn(10)]
}

func c21(r *Run) {
	metadataParts(r)
	r.Rule = "a metadata query for a database and table names, constructed, rendered, re-parsed and analysed, its condition evaluated on rows with the requested and with neighbouring names; a metadata result of table schemas read by all views and back"
	r.Parallel("query", r.N(5000, 100000), func(i int, rng *rand.Rand) {
		db := ""
		if rng.Intn(3) != 0 {
			db = metaName(rng)
		}
		tables := []string{}
		size := many(rng, 5)
		for k := size; 0 < k; k-- {
			n := metaName(rng)
			if 8 < size {
				n += strconv.Itoa(k)
			}
			if !slices.Contains(tables, n) {
				tables = append(tables, n)
			}
		}
		others := []string{metaName(rng), metaName(rng)}
		desc := fmt.Sprintf("database %q tables %q", db, tables)
		judgeAll := func(what string, sel query.Select) {
			if err := judgeMetaQuery(sel, db, tables, others); err != nil {
				r.Fail("query", "%s: %s: %v\n%s", desc, what, err, sel.String())
				return
			}
			if !system.IsSchemaColumsQuery(sel) {
				r.Fail("query", "%s: %s is not recognised as a metadata query", desc, what)
			}
			st, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(sel))
			if err != nil {
				r.Fail("analysis", "%s: %s: %v\n%s", desc, what, err, sel.String())
				return
			}
			if err := judgeMetaStmt(st, db, tables); err != nil {
				r.Fail("analysis", "%s: %s: %v\n%s", desc, what, err, sel.String())
			}
			if len(tables) != 0 { // the query decides, whatever names are given beside it
				both := []system.SchemaColumnsStatementOption{system.WithSchemaColumnsStatementSelect(sel), system.WithSchemaColumnsStatementTableNames([]string{"beside"})}
				if rng.Intn(2) == 0 {
					slices.Reverse(both)
				}
				st, err := system.NewSchemaColumnsStatement(both...)
				if err != nil {
					r.Fail("analysis", "%s: %s: %v\n%s", desc, what, err, sel.String())
				} else if err := judgeMetaStmt(st, db, tables); err != nil {
					r.Fail("analysis", "%s: %s, with other names beside it: %v\n%s", desc, what, err, sel.String())
				}
			}
			r.Ev("analysed " + what)
		}
		r.Guard(desc, func() {
			given := append([]string{}, tables...)
			opts := []system.SchemaColumnsStatementOption{}
			if db != "" {
				opts = append(opts, system.WithSchemaColumnsStatementDatabaseName(db))
			}
			if 0 < len(given) || rng.Intn(2) == 0 {
				opts = append(opts, system.WithSchemaColumnsStatementTableNames(given))
			}
			if rng.Intn(2) == 0 {
				slices.Reverse(opts)
			}
			st, err := system.NewSchemaColumnsStatement(opts...)
			if err != nil {
				r.Fail("query", "%s: %v", desc, err)
				return
			}
			if err := judgeMetaStmt(st, db, tables); err != nil {
				r.Fail("query", "%s: %v", desc, err)
			}
			judgeAll("constructed", st.Statement())
			if err := judgeMetaText(st.Statement().String(), db, tables, others); err != nil {
				r.Fail("text", "%s: %v\n%s", desc, err, st.Statement().String())
				return
			}
			// The dialect has at most one AND or OR.
			terms := len(tables)
			if db != "" {
				terms++
			}
			if terms <= 2 {
				again, err := parseOne[query.Select](st.Statement().String())
				if err != nil {
					r.Fail("query", "%s: the text %s is not a query: %v", desc, st.Statement().String(), err)
					return
				}
				judgeAll("re-parsed", again)
			}
			if db == "" {
				sel, err := system.NewSchemaColumnsQueryFromTableNames(given)
				if err != nil {
					r.Fail("query", "%s: %v", desc, err)
					return
				}
				judgeAll("from table names", sel)
			}
			// The same query written by hand.
			if 0 < terms && terms <= 2 {
				parts := []string{}
				alts := []string{}
				for _, t := range tables {
					alts = append(alts, randCase(rng, "TABLE_NAME")+" = "+quoted(t))
				}
				if db != "" {
					parts = append(parts, randCase(rng, "TABLE_SCHEMA")+" = "+quoted(db))
				}
				if 0 < len(alts) {
					a := strings.Join(alts, " OR ")
					if 1 < len(alts) && db != "" {
						a = "(" + a + ")"
					}
					parts = append(parts, a)
				}
				if rng.Intn(2) == 0 {
					slices.Reverse(parts)
				}
				q := "SELECT * FROM " + randCase(rng, "information_schema.columns") + " WHERE " + strings.Join(parts, " AND ")
				sel, err := parseOne[query.Select](q)
				if err != nil {
					r.Fail("setup", "%s: %v", q, err)
					return
				}
				judgeAll("written", sel)
			}
			if !slices.Equal(given, tables) {
				r.Fail("query", "%s: the given names became %q", desc, given)
			}
			r.Case(desc)
		})
	})
	// Other queries are not metadata queries, and conditions that name no set of tables are not analysed into one.
	for _, q := range []string{"SELECT * FROM t", "SELECT * FROM columns", "SELECT * FROM information_schema.tables", "SELECT * FROM x.columns", "SELECT * FROM information_schema.columns, t"} {
		sel, err := parseOne[query.Select](q)
		if err != nil {
			r.Fail("setup", "%s: %v", q, err)
			continue
		}
		if system.IsSchemaColumsQuery(sel) {
			r.Fail("recognition", "%s is taken for a metadata query", q)
		}
		r.Case(q)
	}
	for _, w := range []string{"TABLE_NAME <> 'a'", "TABLE_NAME > 'a'", "TABLE_NAME = 'a' OR TABLE_SCHEMA = 'b'", "TABLE_NAME = 'a' OR TABLE_NAME <> 'b'", "TABLE_SCHEMA = 'd' AND TABLE_NAME != 'x'", "TABLE_NAME LIKE 'a%'", "TABLE_SCHEMA <> 'd'", "NOT TABLE_NAME = 'a'", "TABLE_NAME IN ('a', 'b')", "TABLE_NAME BETWEEN 'a' AND 'b'", "TABLE_NAME IS NULL"} {
		q := "SELECT * FROM information_schema.columns WHERE " + w
		sel, err := parseOne[query.Select](q)
		if err != nil {
			continue
		}
		if st, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(sel)); err == nil {
			r.Fail("analysis", "%s is analysed as database %q tables %q", q, st.DatabaseName(), st.TableNames())
		}
		r.Ev("unanalysable conditions")
		r.Case(q)
	}
	// The same for conditions built from parts: other operators, and values that are no names.
	name, db := query.NewColumnWithName("TABLE_NAME"), query.NewColumnWithName("TABLE_SCHEMA")
	str := func(v any) *query.Literal {
		return query.NewLiteralWith(v, query.WithLiteralType(query.StringLiteral))
	}
	for _, col := range []query.Column{name, db} {
		bad := []query.Expr{query.NewNEQWith(col, str("a")), query.NewLTWith(col, str("a")), query.NewLEWith(col, str("a")), query.NewGTWith(col, str("a")), query.NewGEWith(col, str("a")), query.NewCmpExprWith(query.IN, col, str("a")), query.NewCmpExprWith(query.NIN, col, str("a")),
			query.NewEQWith(col, query.NewLiteralWith(nil)), query.NewEQWith(col, query.NewLiteralWith(5)), query.NewEQWith(col, query.NewLiteralWith(true))}
		for k, e := range bad {
			for way, w := range []query.Expr{e, query.NewAndExpr(query.NewEQWith(db, str("d")), e), query.NewAndExpr(e, query.NewEQWith(name, str("b"))), query.NewOrExpr(query.NewEQWith(name, str("b")), e)} {
				sel, err := system.NewSchemaColumnsQueryFromTableNames(nil)
				if err != nil {
					r.Fail("setup", "%v", err)
					continue
				}
				sel = query.NewSelectWith(sel.Selectors(), sel.From(), query.NewConditionWith(w))
				if st, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(sel)); err == nil {
					r.Fail("analysis", "%s is analysed as database %q tables %q", sel, st.DatabaseName(), st.TableNames())
				}
				r.Ev("unanalysable conditions")
				r.Case(fmt.Sprintf("built %s %d %d", col.Name(), k, way))
			}
		}
	}
	types := allDataTypes()
	r.Parallel("result", r.N(5000, 100000), func(i int, rng *rand.Rand) {
		type want struct {
			table, col string
			t          query.DataType
		}
		wants := []want{}
		schemas := []query.Schema{}
		for k := many(rng, 5); 0 < k; k-- {
			tbl := metaName(rng)
			cols := query.NewColumns()
			for c := many(rng, 5); 0 < c; c-- {
				t := types[rng.Intn(len(types))]
				n := metaName(rng)
				cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(query.NewDataDef(t, rng.Intn(40)-1))))
				wants = append(wants, want{tbl, n, t})
			}
			if rng.Intn(4) == 0 {
				schemas = append(schemas, query.NewSchemaWith("ignored", query.WithSchemaTable(query.NewTableWith(tbl, query.WithTableSchema("db"))), query.WithSchemaColumns(cols)))
			} else {
				schemas = append(schemas, query.NewSchemaWith(tbl, query.WithSchemaColumns(cols)))
			}
		}
		if 0 < len(schemas) && rng.Intn(5) == 0 { // a schema that is asked for twice
			k := len(schemas) - 1
			for _, c := range schemas[k].Columns() {
				wants = append(wants, want{schemas[k].TableName(), c.Name(), c.DataType()})
			}
			schemas = append(schemas, schemas[k])
		}
		desc := fmt.Sprintf("%v", wants)
		r.Guard(desc, func() {
			mk := func() resultset.ResultSet {
				rs, err := system.NewSchemaColumnsResultSetFromSchemas(schemas)
				if err != nil {
					r.Fail("result", "%s: %v", desc, err)
					return nil
				}
				return rs
			}
			rs := mk()
			if rs == nil {
				return
			}
			n := 0
			tableSchemas := []string{}
			for rs.Next() {
				row, err := rs.Row()
				if err != nil || len(wants) <= n {
					r.Fail("result", "%s: row %d: %v", desc, n, err)
					return
				}
				w := wants[n]
				for name, v := range map[string]string{"TABLE_CATALOG": "def", "TABLE_NAME": w.table, "COLUMN_NAME": w.col, "DATA_TYPE": w.t.String()} {
					if got, err := row.ValueBy(name); err != nil || fmt.Sprint(got) != v {
						r.Fail("result", "%s: row %d has %s = %v (%v), want %q", desc, n, name, got, err, v)
						return
					}
				}
				ts, err := row.ValueBy("TABLE_SCHEMA")
				if err != nil {
					r.Fail("result", "%s: row %d: %v", desc, n, err)
					return
				}
				tableSchemas = append(tableSchemas, fmt.Sprint(ts))
				n++
			}
			if n != len(wants) {
				r.Fail("result", "%s: %d rows", desc, n)
				return
			}
			if rs = mk(); rs == nil {
				return
			}
			back, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
			if err != nil {
				r.Fail("read back", "%s: %v", desc, err)
				return
			}
			cols := back.Columns()
			if len(cols) != len(wants) {
				r.Fail("read back", "%s: %d columns", desc, len(cols))
				return
			}
			for k, w := range wants {
				if c := cols[k]; c.Table() != w.table || c.Name() != w.col || c.DataType() != w.t || c.Catalog() != "def" || c.Schema() != tableSchemas[k] {
					r.Fail("read back", "%s: column %d is %s.%s.%s.%s %v", desc, k, c.Catalog(), c.Schema(), c.Table(), c.Name(), c.DataType())
					return
				}
			}
			for k := 0; k < 3; k++ {
				name := metaName(rng)
				if 0 < len(wants) && rng.Intn(3) != 0 {
					name = foldCase(rng, wants[rng.Intn(len(wants))].col)
				}
				first := -1
				for k, w := range wants {
					if strings.EqualFold(w.col, name) {
						first = k
						break
					}
				}
				c, err := back.LookupColumn(name)
				if (0 <= first) != (err == nil) || (err == nil && c != cols[first]) {
					r.Fail("read back", "%s: lookup of %q gave %v", desc, name, err)
				}
			}
			r.EvN("metadata rows", n)
			r.Case("result " + desc)
		})
	})
	// From parsed definitions.
	r.Parallel("parsed", r.N(800, 15000), func(i int, rng *rand.Rand) {
		schemas := []query.Schema{}
		want := []string{}
		qs := []string{}
		for k := 1 + rng.Intn(3); 0 < k; k-- {
			tbl := fmt.Sprintf("tbl%d", rng.Intn(5))
			defs := []string{}
			for c := 1 + rng.Intn(4); 0 < c; c-- {
				t := foldTypes[rng.Intn(len(foldTypes))]
				defs = append(defs, fmt.Sprintf("c%d %s", c, t.name))
				want = append(want, fmt.Sprintf("%s.c%d %v", tbl, c, t.t))
			}
			q := "CREATE TABLE " + []string{"", "db."}[rng.Intn(2)] + tbl + " (" + strings.Join(defs, ", ") + ")"
			st, err := parseOne[query.CreateTable](q)
			if err != nil {
				r.Fail("setup", "%s: %v", q, err)
				return
			}
			qs = append(qs, q)
			schemas = append(schemas, st.Schema())
		}
		rs, err := system.NewSchemaColumnsResultSetFromSchemas(schemas)
		if err != nil {
			r.Fail("result", "%v: %v", qs, err)
			return
		}
		back, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
		if err != nil {
			r.Fail("read back", "%v: %v", qs, err)
			return
		}
		got := []string{}
		for _, c := range back.Columns() {
			got = append(got, fmt.Sprintf("%s.%s %v", c.Table(), c.Name(), c.DataType()))
		}
		if !slices.Equal(got, want) {
			r.Fail("read back", "%v: %v, want %v", qs, got, want)
		}
		r.Case(strings.Join(qs, ";"))
	})
}
