package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-sqlparser/sql/parser"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
	"github.com/cybergarage/go-sqlparser/sql/system"
)

func init() {
	register("C22", c22)
	register("C23", c23)
	register("C24", c24)
}

// sentinel is a published error value and the kind it stands for.
type sentinel struct {
	name string
	err  error
	kind string
}

var sentinels = []sentinel{
	{"errors.ErrNotImplemented", sqlerrors.ErrNotImplemented, "unimplemented"},
	{"errors.ErrNotSupported", sqlerrors.ErrNotSupported, "unsupported"},
	{"errors.ErrNotExist", sqlerrors.ErrNotExist, "missing"},
	{"errors.ErrExist", sqlerrors.ErrExist, "duplicate"},
	{"errors.ErrNotEqual", sqlerrors.ErrNotEqual, "unequal"},
	{"errors.ErrInvalid", sqlerrors.ErrInvalid, "invalid"},
	{"errors.ErrNotFound", sqlerrors.ErrNotFound, "missing"},
	{"errors.ErrNoRows", sqlerrors.ErrNoRows, "no rows"},
	{"query.ErrInvalid", query.ErrInvalid, "invalid"},
	{"query.ErrNotFound", query.ErrNotFound, "missing"},
	{"query.ErrNotSupported", query.ErrNotSupported, "unsupported"},
	{"query.ErrNotSet", query.ErrNotSet, "unset"},
	{"stmt.ErrInvalid", stmt.ErrInvalid, "invalid"},
	{"stmt.ErrNotFound", stmt.ErrNotFound, "missing"},
	{"net.ErrExist", sqlnet.ErrExist, "duplicate"},
	{"net.ErrNotExist", sqlnet.ErrNotExist, "missing"},
	{"fn.ErrInvalid", fn.ErrInvalid, "invalid"},
	{"fn.ErrNotFound", fn.ErrNotFound, "missing"},
	{"fn.ErrNoData", fn.ErrNoData, "no data"},
	{"fn.ErrNotSupported", fn.ErrNotSupported, "unsupported"},
	{"fn.ErrNotImplemented", fn.ErrNotImplemented, "unimplemented"},
	{"fn.ErrNegativeValue", fn.ErrNegativeValue, "negative"},
	{"system.ErrInvalid", system.ErrInvalid, "invalid"},
	{"system.ErrNotFound", system.ErrNotFound, "missing"},
	{"parser.ErrEmptyQuery", parser.ErrEmptyQuery, "empty"},
}

func sentinelOf(err error) sentinel {
	for _, s := range sentinels {
		if s.err == err {
			return s
		}
	}
	panic("no such sentinel")
}

// judgeError decides whether the error is of the kind of the wanted sentinel, of no other kind, and names the items.
func judgeError(err error, want error, items ...string) error {
	if err == nil {
		return errors.New("no error was reported")
	}
	w := sentinelOf(want)
	if !errors.Is(err, want) {
		return fmt.Errorf("the error %q is not recognised as %s", err, w.name)
	}
	for _, s := range sentinels {
		if s.kind != w.kind && errors.Is(err, s.err) {
			return fmt.Errorf("the error %q is recognised as %s, and it should be %s only", err, s.name, w.name)
		}
	}
	for _, item := range items {
		if !strings.Contains(err.Error(), item) {
			return fmt.Errorf("the error %q does not name %q", err, item)
		}
	}
	return nil
}

func letters(s string) string {
	var sb strings.Builder
	for _, c := range strings.ToLower(s) {
		if ('a' <= c && c <= 'z') || ('0' <= c && c <= '9') {
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

func randItem(rng *rand.Rand) string {
	pool := []string{"t", "users", "日本", "a b", "50%", "%d", "%s%v", "it's", `"q"`, "sch.tbl", "x;y", "(p)", "NULL", "*", "a\tb", "%!", "%w", "ABS(", "0", "-1", "Ünï", "é"}
	s := pool[rng.Intn(len(pool))]
	if rng.Intn(2) == 0 {
		s += fmt.Sprint(rng.Intn(1000))
	}
	return s
}

func c22(r *Run) {
	r.Rule = "every published error code and class against the published list; every error constructor and every failing library operation, with random item names, compared with all published error values"
	checkCodes(r)
	type maker struct {
		name string
		f    func(s string) error
		want error
	}
	makers := []maker{
		{"NewErrNotImplemented", sqlerrors.NewErrNotImplemented, sqlerrors.ErrNotImplemented},
		{"NewErrNotExist", sqlerrors.NewErrNotExist, sqlerrors.ErrNotExist},
		{"NewErrExist", sqlerrors.NewErrExist, sqlerrors.ErrExist},
		{"NewErrNotSupported", sqlerrors.NewErrNotSupported, sqlerrors.ErrNotSupported},
		{"NewErrDatabaseNotExist", sqlerrors.NewErrDatabaseNotExist, sqlerrors.ErrNotExist},
		{"NewErrTableNotExist", sqlerrors.NewErrTableNotExist, sqlerrors.ErrNotExist},
		{"NewErrDatabaseExist", sqlerrors.NewErrDatabaseExist, sqlerrors.ErrExist},
		{"NewErrTableExist", sqlerrors.NewErrTableExist, sqlerrors.ErrExist},
		{"NewErrColumnNotExist", func(s string) error { return sqlerrors.NewErrColumnNotExist(s) }, sqlerrors.ErrNotExist},
		{"NewErrColumnValueNotExist", func(s string) error { return sqlerrors.NewErrColumnValueNotExist(s) }, sqlerrors.ErrNotExist},
		{"NewErrGroupByColumnValueNotFound", func(s string) error { return sqlerrors.NewErrGroupByColumnValueNotFound(s) }, sqlerrors.ErrNotFound},
		{"NewErrPreparedStatementNotExist", sqlerrors.NewErrPreparedStatementNotExist, sqlerrors.ErrNotExist},
		{"NewErrPreparedPortalNotExist", sqlerrors.NewErrPreparedPortalNotExist, sqlerrors.ErrNotExist},
		{"NewErrMultiplePreparedStatementNotSupported", sqlerrors.NewErrMultiplePreparedStatementNotSupported, sqlerrors.ErrNotSupported},
		{"NewErrMultipleTableNotSupported", sqlerrors.NewErrMultipleTableNotSupported, sqlerrors.ErrNotSupported},
		{"fn.NewErrNotSupportedFunction", fn.NewErrNotSupportedFunction, fn.ErrNotSupported},
	}
	judge := func(what string, err error, want error, items ...string) {
		if e := judgeError(err, want, items...); e != nil {
			r.Fail("error kind", "%s: %v", what, e)
			return
		}
		r.Ev("recognised " + sentinelOf(want).name)
		r.Case(what)
	}
	r.Serial("makers", r.N(200, 5000), func(i int, rng *rand.Rand) {
		for _, m := range makers {
			item := randItem(rng)
			judge(fmt.Sprintf("%s(%q)", m.name, item), m.f(item), m.want, item)
		}
		a, b := rng.Intn(100), 100+rng.Intn(100)
		judge(fmt.Sprintf("NewErrColumnsNotEqual(%d, %d)", a, b), sqlerrors.NewErrColumnsNotEqual(a, b), sqlerrors.ErrNotEqual, fmt.Sprint(a), fmt.Sprint(b))
		q := randItem(rng)
		if e := sqlerrors.NewErrNoTable(q); e == nil || !strings.Contains(e.Error(), q) {
			r.Fail("error kind", "NewErrNoTable(%q) = %v does not name the query", q, e)
		} else {
			for _, s := range sentinels {
				if s.kind != "missing" && s.kind != "invalid" && errors.Is(e, s.err) {
					r.Fail("error kind", "NewErrNoTable(%q) is recognised as %s", q, s.name)
				}
			}
		}
		st := query.NewDropTableWith(query.NewTablesWith(query.NewTableWith(q)), query.NewIfExistsWith(false))
		judge("NewErrStatementInvalid "+st.String(), query.NewErrStatementInvalid(st), query.ErrInvalid, q)
		judge("NewErrStatementNotSupported "+st.String(), query.NewErrStatementNotSupported(st), query.ErrNotSupported, q)
	})
	r.Parallel("operations", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		g := &G{Rand: rng}
		names := g.distinctNames(1 + rng.Intn(5))
		cols := query.NewColumns()
		idxs := query.NewIndexes()
		for _, n := range names {
			c := query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(query.NewDataDef(query.IntType, -1)))
			cols = append(cols, c)
			idxs = append(idxs, query.NewSecondaryIndexWith("ix_"+n, query.NewColumnsWith(c)))
		}
		missing := "no_such_" + randItem(rng)
		what := func(op string) string { return fmt.Sprintf("%s %q of %v", op, missing, names) }
		_, err := cols.LookupColumn(missing)
		judge(what("column lookup"), err, query.ErrNotFound, missing)
		_, err = cols.LookupIndexOfColumn(missing)
		judge(what("column position lookup"), err, query.ErrNotFound, missing)
		_, err = idxs.LookupIndex(missing)
		judge(what("index lookup"), err, query.ErrNotFound, missing)
		_, err = idxs.LookupIndexOfIndex(missing)
		judge(what("index position lookup"), err, query.ErrNotFound, missing)
		for _, n := range []int{-1, len(names), len(names) + 1 + rng.Intn(10), math.MaxInt32, math.MinInt32} {
			_, err = cols.ColumnAt(n)
			judge(fmt.Sprintf("column at %d of %d", n, len(names)), err, query.ErrNotFound, fmt.Sprint(n))
		}
		schema := query.NewSchemaWith("t", query.WithSchemaColumns(cols), query.WithSchemaIndexes(idxs))
		_, err = schema.LookupColumn(missing)
		judge(what("schema column lookup"), err, query.ErrNotFound, missing)
		_, err = schema.LookupIndex(missing)
		judge(what("schema index lookup"), err, query.ErrNotFound, missing)
		judge(what("schema column drop"), schema.DropColumn(missing), query.ErrNotFound, missing)
		judge(what("schema index drop"), schema.DropIndex(missing), query.ErrNotFound, missing)
		judge(what("column definition of"), query.NewColumnsWith(query.NewColumnWithName(missing)).SetSchema(schema), query.ErrNotFound, missing)
		_, err = cols.Selectors().LookupFunction(missing)
		judge(what("function lookup"), err, query.ErrNotFound, missing)
		_, err = cols.Selectors().LookupExecutor(missing)
		judge(what("executor lookup"), err, query.ErrNotFound, missing)
		_, err = query.NewDataTypeFrom(missing)
		judge(what("data type"), err, query.ErrInvalid, missing)
		_, err = query.NewDataTypeFromString(missing)
		judge(what("data type"), err, query.ErrInvalid, missing)
		_, err = query.NewDataDefFrom(missing, rng.Intn(100))
		judge(what("data definition"), err, query.ErrInvalid, missing)
		_, err = query.NewDataDefFromStrings([]string{"VARCHAR", "(", missing, ")"})
		judge(what("data definition size"), err, query.ErrInvalid, missing)
		_, err = query.NewDataTypeForValue(struct{ a string }{missing})
		judge(what("data type of an unknown value"), err, query.ErrInvalid)
		_, err = query.NewDataTypeFrom(rng.Intn(100))
		judge("data type from a number", err, query.ErrInvalid)
		// Alterations.
		for _, q := range []string{"ALTER TABLE t RENAME TO " + names[0], "ALTER TABLE t RENAME COLUMN " + names[0] + " TO zz"} {
			at, perr := parseOne[query.AlterTable](q)
			if perr != nil {
				r.Fail("parse", "%v", perr)
				continue
			}
			judge(q, schema.Alter(at), sqlerrors.ErrNotImplemented)
		}
		for _, q := range []string{"SELECT * FROM t", "DROP TABLE t", "BEGIN", "INSERT INTO t (a) VALUES (1)", "CREATE TABLE t (a INT)"} {
			st, perr := parseOne[query.Statement](q)
			if perr != nil {
				r.Fail("parse", "%v", perr)
				continue
			}
			_, err = query.NewAlterTableFrom(st)
			judge("conversion to ALTER TABLE of "+q, err, sqlerrors.ErrNotSupported)
		}
		// Statements that are not represented, empty or invalid input.
		n := names[0]
		for _, q := range []string{
			"CREATE VIEW v AS SELECT " + n + " FROM t", "DROP VIEW " + n, "PRAGMA " + n, "EXPLAIN SELECT " + n + " FROM t", "SAVEPOINT " + n,
			"CREATE TRIGGER g AFTER INSERT ON t BEGIN SELECT " + n + "; END", "ATTACH DATABASE 'f' AS " + n, "REINDEX " + n, "ANALYZE " + n,
			"WITH w AS (SELECT 1) SELECT " + n + " FROM w", "DROP TRIGGER " + n,
			"SELECT " + n + " FROM t UNION ALL SELECT b FROM u",
			"CREATE TABLE t AS SELECT " + n + " FROM u",
		} {
			_, err = Parse(q)
			judge(q, err, query.ErrNotSupported)
		}
		_, err = Parse("INSERT INTO t (a, " + n + "z) VALUES (1)")
		judge("INSERT with too few values", err, query.ErrInvalid)
		_, err = Parse("INSERT INTO t (a) VALUES (1, 2, 3)")
		judge("INSERT with too many values", err, query.ErrInvalid)
		empty := []string{"", " ", ";", " ; ;", "-- c\n", "/* c */", "\n\t"}[rng.Intn(7)]
		_, err = Parse(empty)
		judge(fmt.Sprintf("empty query %q", empty), err, parser.ErrEmptyQuery)
		bad := "SELECT FROM " + n + " WHERE"
		_, err = Parse(bad)
		if err == nil {
			r.Fail("error kind", "%q gave no error", bad)
		} else {
			for _, s := range sentinels {
				if s.kind != "invalid" && errors.Is(err, s.err) {
					r.Fail("error kind", "the syntax error of %q is recognised as %s", bad, s.name)
				}
			}
			r.Ev("syntax errors are of no other kind")
		}
	})
	r.Parallel("functions", r.N(1000, 20000), func(i int, rng *rand.Rand) {
		unknown := "NOFN" + randItem(rng)
		_, err := fn.NewExecutorForName(unknown)
		judge("executor "+unknown, err, fn.ErrNotSupported, unknown)
		_, err = fn.NewAggregatorForName(unknown)
		judge("aggregator "+unknown, err, fn.ErrNotSupported, unknown)
		_, err = fn.NewFunctionTypeForName(unknown)
		judge("function type "+unknown, err, fn.ErrNotSupported, unknown)
		f := fn.NewFunction(fn.WithFunctionName(unknown))
		_, err = f.Executor()
		judge("executor of function "+unknown, err, fn.ErrNotSupported, strings.ToUpper(unknown))
		_, err = f.Aggregator()
		judge("aggregator of function "+unknown, err, fn.ErrNotSupported, strings.ToUpper(unknown))
		for _, m := range mathRefs {
			args := []any{}
			for k := arityOf(m.name) + 1 + rng.Intn(3); 0 < k; k-- {
				args = append(args, 1)
			}
			ex, err := newScalar(m.name)
			if err != nil {
				r.Fail("function", "%s: %v", m.name, err)
				continue
			}
			_, err = ex.Execute(args)
			judge(fmt.Sprintf("%s with %d arguments", m.name, len(args)), err, fn.ErrInvalid, m.name)
			if 0 < arityOf(m.name) {
				_, err = ex.Execute([]any{})
				judge(m.name+" without arguments", err, fn.ErrInvalid, m.name)
			}
		}
		for _, name := range []string{"UPPER", "LOWER", "TRIM"} {
			ex, err := newScalar(name)
			if err != nil {
				r.Fail("function", "%s: %v", name, err)
				continue
			}
			_, err = ex.Execute([]any{"a", "b", "c"}[:2+rng.Intn(2)])
			judge(name+" with too many arguments", err, fn.ErrInvalid, name)
			_, err = ex.Execute([]any{})
			judge(name+" without arguments", err, fn.ErrInvalid, name)
		}
		neg := -1 - rng.Float64()*1000
		for _, name := range []string{"SQRT", "LOG", "LOG10"} {
			ex, err := newScalar(name)
			if err != nil {
				r.Fail("function", "%s: %v", name, err)
				continue
			}
			_, err = ex.Execute([]any{neg})
			judge(fmt.Sprintf("%s(%v)", name, neg), err, fn.ErrNegativeValue, fmt.Sprint(neg))
		}
		for _, ope := range []string{"/", "%"} {
			ex, err := newScalar(ope)
			if err != nil {
				r.Fail("function", "%s: %v", ope, err)
				continue
			}
			_, err = ex.Execute([]any{rng.Intn(100), 0})
			judge("division by zero: "+ope, err, fn.ErrInvalid, ope)
		}
		_, err = fn.NewAggregatorForName([]string{"SUM", "AVG", "MIN", "MAX"}[rng.Intn(4)])
		judge("aggregator without arguments", err, fn.ErrNotSupported)
		ex, err := fn.NewExecutorForName("ABS", fn.WithExecutorArguments([]string{"nocol"}))
		if err != nil {
			r.Fail("function", "ABS: %v", err)
			return
		}
		_, err = ex.Execute(map[string]any{"other": 1})
		judge("ABS(nocol) of a row without that column", err, fn.ErrNotFound, "nocol")
		// Aggregates.
		ag, err := fn.NewAggregatorForName([]string{"SUM", "AVG", "MIN", "MAX", "COUNT"}[rng.Intn(5)], fn.WithAggregatorArguments([]string{"nocol"}))
		if err != nil {
			r.Fail("function", "aggregator: %v", err)
			return
		}
		if err := ag.Reset(fn.GroupBy("nogroup")); err != nil {
			r.Fail("function", "reset: %v", err)
			return
		}
		judge("aggregate of a row without the group column", ag.Aggregate(map[string]any{"nocol": 1}), fn.ErrNotFound, "nogroup")
		if err := ag.Reset(); err != nil {
			r.Fail("function", "reset: %v", err)
			return
		}
		judge("aggregate of an unknown kind of row", ag.Aggregate(struct{}{}), fn.ErrInvalid)
		judge("reset with an unknown kind of option", ag.Reset(struct{}{}), fn.ErrInvalid)
	})
	r.Parallel("sessions", r.N(500, 10000), func(i int, rng *rand.Rand) {
		mgr := sqlnet.NewConnManager()
		c := &probeConn{Conn: sqlnet.NewConnWith(&rawConn{}), uid: uint64(1 + rng.Intn(1000)), uuid: uuidOf(1 + rng.Intn(1000))}
		if err := mgr.AddConn(c); err != nil {
			r.Fail("registry", "add: %v", err)
			return
		}
		sameUID := &probeConn{Conn: sqlnet.NewConnWith(&rawConn{}), uid: c.uid, uuid: uuidOf(2000 + rng.Intn(1000))}
		sameUUID := &probeConn{Conn: sqlnet.NewConnWith(&rawConn{}), uid: 5000, uuid: c.uuid}
		judge("adding a connection twice", mgr.AddConn(c), sqlnet.ErrExist)
		judge("adding a connection with a registered number", mgr.AddConn(sameUID), sqlnet.ErrExist, fmt.Sprint(c.uid))
		judge("adding a connection with a registered unique id", mgr.AddConn(sameUUID), sqlnet.ErrExist, c.uuid.String())
		other := &probeConn{Conn: sqlnet.NewConnWith(&rawConn{}), uid: 6000, uuid: uuidOf(6000)}
		judge("replacing an unregistered connection", mgr.UpdateConn(other, other), sqlnet.ErrNotExist)
		if err := mgr.AddConn(other); err != nil {
			r.Fail("registry", "add: %v", err)
			return
		}
		judge("replacing a connection by one with a registered number", mgr.UpdateConn(other, sameUID), sqlnet.ErrExist)
		judge("replacing a connection by one with a registered unique id", mgr.UpdateConn(other, sameUUID), sqlnet.ErrExist)
		// Binding.
		bind := func(q string, ps ...any) error {
			params := stmt.BindParams{}
			for _, p := range ps {
				params = append(params, stmt.NewBindParam(p))
			}
			_, err := stmt.NewBindStatement(stmt.WithBindStatementQuery(q), stmt.WithBindStatementParams(params)).Statements()
			return err
		}
		judge("binding without a placeholder", bind("SELECT a FROM t", rng.Intn(100)), stmt.ErrNotFound)
		judge("binding one parameter too many", bind("SELECT a FROM t WHERE a = ?", 1, rng.Intn(100)), stmt.ErrNotFound)
		judge("binding a value without a literal", bind("SELECT a FROM t WHERE a = ?", []any{math.NaN(), math.Inf(1), math.Inf(-1), float32(math.Inf(1))}[rng.Intn(4)]), stmt.ErrInvalid)
		// Result sets.
		rs := resultset.NewResultSet()
		_, err := rs.Row()
		judge("row of an empty result set", err, sqlerrors.ErrNoRows)
		row := resultset.NewRow(resultset.WithRowValues([]any{1, 2}))
		p := []int{-1, 2, 3 + rng.Intn(100)}[rng.Intn(3)]
		_, err = row.ValueAt(p)
		judge(fmt.Sprintf("value at %d of 2", p), err, sqlerrors.ErrNotExist, fmt.Sprint(p))
		miss := randItem(rng)
		_, err = resultset.NewRow(resultset.WithRowObject(map[string]any{"zz": 1})).ValueBy(miss)
		judge("value by "+miss, err, sqlerrors.ErrNotExist, miss)
		_, err = resultset.NewSchema().LookupColumn(miss)
		judge("result set column "+miss, err, query.ErrNotFound, miss)
		// Metadata.
		q := "SELECT * FROM information_schema.columns WHERE " + []string{"table_name > 'a'", "table_name >= 'b'", "table_name <> 'a'", "table_name = 'a' OR table_schema = 'b'", "table_name LIKE 'a%'", "table_name IS NULL"}[rng.Intn(6)]
		sel, perr := parseOne[query.Select](q)
		if perr != nil {
			r.Fail("parse", "%v", perr)
			return
		}
		_, err = system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(sel))
		judge("metadata analysis of "+q, err, system.ErrInvalid, "table_name")
		mcol, merr := system.NewColumn(system.WithColumnTable("t"), system.WithColumnName("a"), system.WithColumnDataType("INT"))
		if merr != nil {
			r.Fail("metadata", "%v", merr)
			return
		}
		_, err = system.NewSchemaColumns(system.WithColumns([]system.SchemaColumn{mcol})).LookupColumn("nocol" + miss)
		judge("metadata column "+miss, err, system.ErrNotFound, "nocol"+miss)
		_, err = system.NewColumn(system.WithColumnDataType("notype" + miss))
		judge("metadata data type "+miss, err, query.ErrInvalid, "notype"+miss)
	})
}

func checkCodes(r *Run) {
	codes := map[string]string{}
	texts := map[string]string{}
	unknown := sqlerrors.Code("ZZZZZ").String()
	unknownClass := sqlerrors.Class("ZZ").String()
	for _, c := range sqlCodes {
		s := string(c.code)
		if s != c.text {
			r.Fail("error code", "%s is %q, and it is published as %q", c.name, s, c.text)
		}
		if len(s) != 5 {
			r.Fail("error code", "%s is %q: not five characters", c.name, s)
			continue
		}
		if o, dup := codes[s]; dup {
			r.Fail("error code", "%s and %s have the code %q", c.name, o, s)
		}
		codes[s] = c.name
		d := c.code.String()
		if d == "" || d == unknown {
			r.Fail("error code", "%s (%s) has no description: %q", c.name, s, d)
			continue
		}
		if o, dup := texts[d]; dup {
			r.Fail("error code", "%s and %s are described as %q", c.name, o, d)
		}
		texts[d] = c.name
		if letters(d) != letters(c.name) {
			r.Fail("error code", "%s (%s) is described as %q", c.name, s, d)
		}
		class := sqlerrors.Class(s[:2])
		if t := class.String(); t == "" || t == unknownClass {
			r.Fail("error code", "%s (%s) belongs to no known class: %q", c.name, s, t)
		}
		r.Ev("error codes")
		r.Case(s + " " + d + " / " + class.String())
	}
	classes := map[string]string{}
	for _, c := range sqlClasses {
		if string(c.class) != c.id {
			r.Fail("error class", "the class %s is %q", c.id, string(c.class))
		}
		t := c.class.String()
		if letters(t) != letters(c.text) {
			r.Fail("error class", "the class %s is described as %q instead of %q", c.id, t, c.text)
		}
		if o, dup := classes[t]; dup {
			r.Fail("error class", "the classes %s and %s are described as %q", c.id, o, t)
		}
		classes[t] = c.id
		r.Ev("error classes")
	}
	for _, s := range []string{"", "0", "00", "0000", "000000", "99999", "4200", "42P99", "xx000", "zzzzz"} {
		if d := sqlerrors.Code(s).String(); texts[d] != "" {
			r.Fail("error code", "the unknown code %q is described as %q", s, d)
		}
	}
	for _, s := range []string{"", "0", "99", "xx", "000", "ZZ"} {
		if d := sqlerrors.Class(s).String(); classes[d] != "" {
			r.Fail("error class", "the unknown class %q is described as %q", s, d)
		}
	}
	for _, a := range sentinels {
		for _, b := range sentinels {
			if a.kind != b.kind && errors.Is(a.err, b.err) {
				r.Fail("error kind", "%s is recognised as %s", a.name, b.name)
			}
		}
		if a.err == nil || a.err.Error() == "" {
			r.Fail("error kind", "%s has no text", a.name)
		}
	}
}
