package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() { register("C25", checkBuilt) }

func buildLiteral(l *query.Literal) *query.Literal {
	if l == nil {
		return nil
	}
	return query.NewLiteralWith(l.Value(), query.WithLiteralType(l.ValueType()))
}

func buildTable(t query.Table) query.Table {
	opts := []query.TableOption{}
	if t.SchemaName() != "" {
		opts = append(opts, query.WithTableSchema(t.SchemaName()))
	}
	if s, ok := t.(hasAlias); ok {
		if alias := strings.TrimPrefix(s.String(), t.FullTableName()+" AS "); alias != s.String() {
			opts = append(opts, query.WithTableAlias(alias))
		}
	}
	return query.NewTableWith(t.TableName(), opts...)
}

func buildTables(tbls query.TableList) query.TableList {
	out := query.NewTables()
	for _, t := range tbls {
		out = append(out, buildTable(t))
	}
	return query.NewTablesWith(out...)
}

func buildExpr(e query.Expr) query.Expr {
	switch e := e.(type) {
	case *query.CmpExpr:
		col, lit := query.NewColumnWithName(e.Left().Name()), buildLiteral(e.Right())
		switch e.Operator() {
		case query.EQ:
			return query.NewEQWith(col, lit)
		case query.NEQ:
			return query.NewNEQWith(col, lit)
		case query.LT:
			return query.NewLTWith(col, lit)
		case query.GT:
			return query.NewGTWith(col, lit)
		case query.LE:
			return query.NewLEWith(col, lit)
		case query.GE:
			return query.NewGEWith(col, lit)
		}
		return query.NewCmpExprWith(e.Operator(), col, lit)
	case *query.AndExpr:
		return query.NewAndExpr(buildExpr(e.Left()), buildExpr(e.Right()))
	case *query.OrExpr:
		return query.NewOrExpr(buildExpr(e.Left()), buildExpr(e.Right()))
	}
	return e
}

func buildCond(c query.Condition) query.Condition {
	if !c.HasConditions() {
		return query.NewCondition()
	}
	return query.NewConditionWith(buildExpr(c.Expr()))
}

func buildColumn(c query.Column, rng *rand.Rand) query.Column {
	opts := []query.ColumnOption{query.WithColumnName(c.Name())}
	if def := c.Definition(); def != nil {
		if scaleText.MatchString(def.String()) || c.DataType() == query.UnknownData {
			opts = append(opts, query.WithColumnData(def))
		} else {
			opts = append(opts, query.WithColumnData(query.NewDataDef(c.DataType(), c.DataTypeSize())))
		}
	}
	if f, ok := c.Function(); ok {
		if ex, err := f.Executor(); err == nil {
			if x, err := fn.NewArithOperatorFor(ex.Name(), fn.WithExecutorArguments(c.Arguments().Names())); err == nil {
				opts = append(opts, query.WithColumnFunctionExecutor(x), query.WithColumnArguments(c.Arguments().Names()))
			}
		}
	} else if c.HasValue() {
		opts = append(opts, query.WithColumnLiteral(query.NewLiteralWith(c.Value(), query.WithLiteralType(c.ValueType()))))
	}
	rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
	return query.NewColumnWithOptions(opts...)
}

func buildColumns(cols query.Columns, rng *rand.Rand) query.Columns {
	out := []query.Column{}
	for _, c := range cols {
		out = append(out, buildColumn(c, rng))
	}
	return query.NewColumnsWith(out...)
}

func buildIndex(x query.Index, rng *rand.Rand) query.Index {
	switch {
	case x.Type() == query.SecondaryIndex && rng.Intn(2) == 0:
		return query.NewSecondaryIndexWith(x.Name(), buildColumns(x.Columns(), rng))
	case x.Type() == query.PrimaryIndex && rng.Intn(2) == 0:
		return query.NewPrimaryIndexWith(buildColumns(x.Columns(), rng))
	}
	return query.NewIndexWith(x.Name(), x.Type(), buildColumns(x.Columns(), rng))
}

func buildSchema(s query.Schema, rng *rand.Rand) query.Schema {
	idxs := query.NewIndexes()
	for _, x := range s.Indexes() {
		idxs = append(idxs, buildIndex(x, rng))
	}
	tblOpts := []query.TableOption{}
	if s.SchemaName() != "" {
		tblOpts = append(tblOpts, query.WithTableSchema(s.SchemaName()))
	}
	opts := []query.SchemaOption{
		query.WithSchemaTable(query.NewTableWith(s.TableName(), tblOpts...)),
		query.WithSchemaColumns(buildColumns(s.Columns(), rng)),
		query.WithSchemaIndexes(idxs),
	}
	rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
	return query.NewSchemaWith(s.TableName(), opts...)
}

// build makes the statement again from its parts, with the constructors of the library.
func build(stmt query.Statement, rng *rand.Rand) query.Statement {
	switch s := stmt.(type) {
	case query.CreateTable:
		return query.NewCreateTableWith(buildSchema(s.Schema(), rng), query.NewIfNotExistsWith(s.IfNotExists()))
	case query.CreateIndex:
		return query.NewCreateIndexWith(query.NewSchemaWith(s.TableName(), query.WithSchemaIndexes(query.Indexes{buildIndex(s.Index(), rng)})), query.NewIfNotExistsWith(s.IfNotExists()))
	case query.DropIndex:
		return query.NewDropIndexWith(s.TableName(), s.IndexName(), query.NewIfExistsWith(s.IfExists()))
	case query.DropTable:
		return query.NewDropTableWith(buildTables(s.Tables()), query.NewIfExistsWith(s.IfExists()))
	case query.Insert:
		rows := []query.Columns{}
		for _, row := range s.Values() {
			rows = append(rows, buildColumns(row, rng))
		}
		return query.NewInsertWith(buildTable(stmt.(query.Table)), rows)
	case query.Select:
		sels := query.NewSelectors()
		for _, sel := range s.Selectors() {
			if f, ok := sel.Function(); ok {
				args := []fn.Argument{}
				for _, a := range f.Arguments() {
					args = append(args, fn.NewArgumentWith(a.Name()))
				}
				fopts := []fn.FunctionOption{fn.WithFunctionName(f.Name()), fn.WithFunctionArguments(args...)}
				if x, ok := sel.(interface{ Alias() string }); ok && x.Alias() != "" {
					fopts = append(fopts, fn.WithFunctionAlias(x.Alias()))
				}
				rng.Shuffle(len(fopts), func(a, b int) { fopts[a], fopts[b] = fopts[b], fopts[a] })
				sels = append(sels, fn.NewFunction(fopts...))
			} else {
				sels = append(sels, query.NewColumnWithName(sel.Name()))
			}
		}
		opts := []query.SelectOption{query.WithSelectLimit(s.Limit().Offset(), s.Limit().Limit()), query.WithSelectGroupBy(s.GroupBy().ColumnName())}
		orders := []query.Order{}
		for _, o := range s.OrderBy().Orders() {
			if nullsName(o) != "" {
				orders = append(orders, o)
				continue
			}
			orders = append(orders, query.NewOrderWith(o.ColumnName(), o.Type()))
		}
		if 0 < len(orders) || rng.Intn(2) == 0 {
			opts = append(opts, query.WithSelectOrderBy(query.NewOrderByWith(orders)))
		}
		if d, ok := stmt.(interface{ IsDistinct() bool }); ok {
			opts = append(opts, query.WithSelectDistinct(d.IsDistinct()))
		}
		rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
		return query.NewSelectWith(query.NewSelectorsWith(sels...), buildTables(s.From()), buildCond(s.Where()), opts...)
	case query.Update:
		return query.NewUpdateWith(buildTable(stmt.(interface{ Table() query.Table }).Table()), buildColumns(s.Columns(), rng), buildCond(s.Where()))
	case query.AlterTable:
		opts := []query.AlterTableOption{}
		if t, ok := stmt.(query.Table); ok && t.SchemaName() != "" {
			opts = append(opts, query.WithAlterTableSchema(t.SchemaName()))
		}
		if t, ok := s.RenameTo(); ok {
			opts = append(opts, query.WithAlterTableRenameTo(buildTable(t)))
		}
		if a, b, ok := s.RenameColumns(); ok {
			opts = append(opts, query.WithAlterTableRenameColumn(buildColumn(a, rng), buildColumn(b, rng)))
		}
		if c, ok := s.AddColumn(); ok {
			opts = append(opts, query.WithAlterTableAddColumn(buildColumn(c, rng)))
		}
		if x, ok := s.AddIndex(); ok {
			opts = append(opts, query.WithAlterTableAddIndex(buildIndex(x, rng)))
		}
		if c, ok := s.DropColumn(); ok {
			opts = append(opts, query.WithAlterTableDropColumn(buildColumn(c, rng)))
		}
		if x, ok := s.DropIndex(); ok {
			opts = append(opts, query.WithAlterTableDropIndex(buildIndex(x, rng)))
		}
		rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
		return query.NewAlterTableWith(s.TableName(), opts...)
	}
	switch stmt.StatementType() {
	case query.CreateDatabaseStatement:
		s := stmt.(query.CreateDatabase)
		return query.NewCreateDatabaseWith(s.DatabaseName(), query.NewIfNotExistsWith(s.IfNotExists()))
	case query.DropDatabaseStatement:
		s := stmt.(query.DropDatabase)
		return query.NewDropDatabaseWith(s.DatabaseName(), query.NewIfExistsWith(s.IfExists()))
	case query.AlterDatabaseStatement:
		s := stmt.(query.AlterDatabase)
		return query.NewAlterDatabaseWith(s.DatabaseName(), s.RenameTo().DatabaseName())
	case query.UseStatement:
		return query.NewUseWith(stmt.(query.Use).DatabaseName())
	case query.TruncateStatement:
		return query.NewTruncateWith(buildTables(stmt.(query.Truncate).Tables()))
	case query.DeleteStatement:
		s := stmt.(query.Delete)
		return query.NewDeleteWith(buildTable(stmt.(interface{ Table() query.Table }).Table()), buildCond(s.Where()))
	case query.CopyStatement:
		s := stmt.(query.Copy)
		opts := []query.CopyOption{query.WithCopyFormat(randCase(rng, stmt.(interface{ Format() query.CopyFormat }).Format().String()))}
		if 0 < len(s.Columns()) {
			opts = append(opts, query.WithCopyColumns(buildColumns(s.Columns(), rng)...))
		}
		rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
		return query.NewCopyWith(s.TableName(), stmt.(interface{ Source() string }).Source(), opts...)
	case query.VacuumStatement:
		s := stmt.(query.Vacuum)
		if s.Table() == nil {
			return query.NewVacuum()
		}
		return query.NewVacuumWith(buildTable(s.Table()))
	case query.BeginStatement:
		return query.NewBegin()
	case query.CommitStatement:
		return query.NewCommit()
	case query.RollbackStatement:
		return query.NewRollback()
	}
	return nil
}

// boolTree is a condition over numbered atoms: op 0 is an atom, '&' and '|' have two operands.
type boolTree struct {
	op   byte
	atom int
	l, r *boolTree
}

func randTree(rng *rand.Rand, depth int, n *int) *boolTree {
	if depth == 0 || rng.Intn(4) == 0 || 6 < *n {
		*n++
		return &boolTree{atom: *n - 1}
	}
	op := byte('&')
	if rng.Intn(2) == 0 {
		op = '|'
	}
	l := randTree(rng, depth-1, n)
	return &boolTree{op: op, l: l, r: randTree(rng, depth-1, n)}
}

func (t *boolTree) eval(bits int) bool {
	switch t.op {
	case '&':
		return t.l.eval(bits) && t.r.eval(bits)
	case '|':
		return t.l.eval(bits) || t.r.eval(bits)
	}
	return bits>>t.atom&1 == 1
}

func (t *boolTree) expr() query.Expr {
	switch t.op {
	case '&':
		return query.NewAndExpr(t.l.expr(), t.r.expr())
	case '|':
		return query.NewOrExpr(t.l.expr(), t.r.expr())
	}
	return query.NewEQWith(query.NewColumnWithName(fmt.Sprintf("c%d", t.atom)), query.NewLiteralWith(t.atom))
}

// readTree reads a condition over "cN = N" atoms with the precedence of SQL.
func readTree(s string) (*boolTree, error) {
	toks := []string{}
	for _, tok := range lexSQL(s) {
		if strings.TrimSpace(tok) != "" {
			toks = append(toks, tok)
		}
	}
	pos := 0
	peek := func() string {
		if pos < len(toks) {
			return strings.ToUpper(toks[pos])
		}
		return ""
	}
	var or func() (*boolTree, error)
	atom := func() (*boolTree, error) {
		if peek() == "(" {
			pos++
			t, err := or()
			if err != nil {
				return nil, err
			}
			if peek() != ")" {
				return nil, fmt.Errorf("no ) at token %d", pos)
			}
			pos++
			return t, nil
		}
		var a, b int
		if len(toks) < pos+3 {
			return nil, fmt.Errorf("end at token %d", pos)
		}
		if _, err := fmt.Sscanf(strings.ToLower(strings.Join(toks[pos:pos+3], " ")), "c%d = %d", &a, &b); err != nil || a != b {
			return nil, fmt.Errorf("no atom at %v", toks[pos:pos+3])
		}
		pos += 3
		return &boolTree{atom: a}, nil
	}
	and := func() (*boolTree, error) {
		l, err := atom()
		for err == nil && peek() == "AND" {
			pos++
			var r *boolTree
			if r, err = atom(); err == nil {
				l = &boolTree{op: '&', l: l, r: r}
			}
		}
		return l, err
	}
	or = func() (*boolTree, error) {
		l, err := and()
		for err == nil && peek() == "OR" {
			pos++
			var r *boolTree
			if r, err = and(); err == nil {
				l = &boolTree{op: '|', l: l, r: r}
			}
		}
		return l, err
	}
	t, err := or()
	if err == nil && pos != len(toks) {
		err = fmt.Errorf("rest %v", toks[pos:])
	}
	return t, err
}

func checkBuilt(r *Run) {
	r.Rule = "every generated statement of the dialect is parsed and built again from its parts with the constructors, in random option order: the built statement must report what was written and render like the parsed one, and its text must parse to it; conditions nested with AND and OR are rendered, read with the precedence of SQL and compared on all assignments; clauses and columns are built and changed with their setters; non-trivial: distinct statements and conditions"
	r.Parallel("built", r.N(5000, 100000), func(i int, rng *rand.Rand) {
		g := NewStmt(rng, kAll, func(g *G) { g.Verb = i%2 == 0; g.Alias = i%3 == 0; g.Special = i%5 == 0; g.Big = i%20 == 0 })
		text := g.Text()
		r.Guard(text, func() {
			stmts, err := Parse(text)
			if err != nil || len(stmts) != 1 {
				r.Fail("rejected", "input: %s\nstatements %d error %v", text, len(stmts), err)
				return
			}
			b := build(stmts[0], rng)
			if b == nil {
				r.Fail("kind", "input: %s\na statement of type %v cannot be built", text, stmts[0].StatementType())
				return
			}
			r.Ev("built " + g.Kind)
			if got := Dump(b); !sameLines(g.Exp, got) {
				r.Fail("built content", "the parts of: %s\n%s", clip(text, 2000), diffLines(g.Exp, got))
			}
			if s, want := b.String(), stmts[0].String(); s != want {
				r.Fail("built text", "the parts of: %s\nparsed renders %s\nbuilt renders  %s", clip(text, 2000), want, s)
				return
			}
			again, err := Parse(b.String())
			if err != nil || len(again) != 1 {
				r.Fail("built text not accepted", "%s: %v", b.String(), err)
			} else if got := Dump(again[0]); !sameLines(g.Exp, got) {
				r.Fail("built content lost", "the parts of: %s\n%s", clip(text, 2000), diffLines(g.Exp, got))
			}
			if head := b.StatementType().String(); head == "" || !strings.HasPrefix(b.String()+" ", head+" ") {
				r.Fail("type", "%s is of the type %q", b.String(), head)
			}
		})
		r.Case(text)
	})
	// Nested conditions.
	r.Parallel("nested", r.N(4000, 80000), func(i int, rng *rand.Rand) {
		n := 0
		tree := randTree(rng, 1+rng.Intn(4), &n)
		cond := query.NewConditionWith(tree.expr())
		text := cond.String()
		r.Guard(text, func() {
			if !cond.HasConditions() || cond.Expr() == nil {
				r.Fail("condition", "%s is not reported as a condition", text)
			}
			back, err := readTree(text)
			if err != nil {
				r.Fail("nested condition", "%s: %v", text, err)
				return
			}
			for bits := 0; bits < 1<<n; bits++ {
				if back.eval(bits) != tree.eval(bits) {
					r.Fail("nested condition", "%s: on the assignment %b it means %v instead of %v", text, bits, back.eval(bits), tree.eval(bits))
					return
				}
			}
			// The statement keeps all of it.
			del := query.NewDeleteWith(query.NewTableWith("t"), cond)
			if del.String() != "DELETE FROM t WHERE "+text {
				r.Fail("nested condition", "%s rendered as %s", text, del.String())
			}
			stmts, err := Parse(del.String())
			if err != nil || len(stmts) != 1 { // the grammar has one AND or OR between plain comparisons
				r.Ev("nested conditions outside the grammar")
				return
			}
			again, err := readTree(stmts[0].(query.Delete).Where().String())
			if err != nil {
				r.Fail("nested condition", "%s parsed as %s: %v", del.String(), stmts[0].String(), err)
				return
			}
			for bits := 0; bits < 1<<n; bits++ {
				if again.eval(bits) != tree.eval(bits) {
					r.Fail("nested condition", "%s parsed as %s", del.String(), stmts[0].String())
					return
				}
			}
		})
		r.Ev("nested conditions")
		r.Case(text)
	})
	// Clauses with setters.
	r.Parallel("clauses", r.N(2000, 40000), func(i int, rng *rand.Rand) {
		name, other := randName(rng, false), randName(rng, false)
		off, lim := uint(rng.Intn(1000)), uint(rng.Intn(1000))
		desc := fmt.Sprintf("clauses %s %s %d %d", name, other, off, lim)
		r.Guard(desc, func() {
			l := query.NewLimitWith(off, lim)
			if l.Offset() != off || l.Limit() != lim {
				r.Fail("limit", "%s: %d %d", desc, l.Offset(), l.Limit())
			}
			if l.SetLimit(lim + 5); l.Offset() != off || l.Limit() != lim+5 {
				r.Fail("limit", "%s after setting the limit: %d %d", desc, l.Offset(), l.Limit())
			}
			if l.SetOffset(off + 3); l.Offset() != off+3 || l.Limit() != lim+5 {
				r.Fail("limit", "%s after setting the offset: %d %d", desc, l.Offset(), l.Limit())
			}
			if l.String() != fmt.Sprintf("LIMIT %d OFFSET %d", lim+5, off+3) {
				r.Fail("limit", "%s renders %q", desc, l.String())
			}
			if e := query.NewLimit(); e.Limit() != 0 || e.Offset() != 0 || e.String() != "" {
				r.Fail("limit", "no limit is %d %d %q", e.Limit(), e.Offset(), e.String())
			}
			gb := query.NewGroupBy()
			if gb.ColumnName() != "" || gb.String() != "" {
				r.Fail("group", "no grouping is %q %q", gb.ColumnName(), gb.String())
			}
			if gb.SetColumn(name); gb.ColumnName() != name || gb.String() != "GROUP BY "+name {
				r.Fail("group", "%s: %q %q", name, gb.ColumnName(), gb.String())
			}
			if o := query.NewOrder(); !o.IsNone() || o.IsAsc() || o.IsDesc() || o.ColumnName() != "" || o.String() != "" {
				r.Fail("order", "no ordering is %q %v", o.String(), o.Type())
			}
			if o := query.NewOrderBy(); len(o.Orders()) != 0 || o.String() != "" {
				r.Fail("order", "no ordering is %q", o.String())
			}
			for _, d := range []struct {
				name string
				t    query.OrderType
			}{{"ASC", query.OrderAsc}, {"DESC", query.OrderDesc}} {
				if query.NewOrderTypeWith(randCase(rng, d.name)) != d.t || d.t.String() != d.name {
					r.Fail("order", "%s is %v, %v is %s", d.name, query.NewOrderTypeWith(d.name), d.t, d.t.String())
				}
				if o := query.NewOrderWith(name, d.t); o.String() != name+" "+d.name {
					r.Fail("order", "%s %s renders %q", name, d.name, o.String())
				}
			}
			if query.NewOrderTypeWith(name) != query.OrderNone && !strings.EqualFold(name, "ASC") && !strings.EqualFold(name, "DESC") {
				r.Fail("order", "%q is the direction %v", name, query.NewOrderTypeWith(name))
			}
			if c := query.NewCondition(); c.HasConditions() || c.Expr() != nil || c.String() != "" {
				r.Fail("condition", "no condition is %q", c.String())
			}
			if p := query.NewBindParamWith(name); p.Name() != name || p.String() != name {
				r.Fail("placeholder", "%s: %q %q", name, p.Name(), p.String())
			}
			x := query.NewSecondaryIndexWith(name, query.NewColumnsWith(query.NewColumnWithName(other)))
			if x.Name() != name || fmt.Sprint(x) != name || x.Type() != query.SecondaryIndex || len(x.Columns()) != 1 || x.Columns()[0].Name() != other {
				r.Fail("index", "%s on %s: %s %v %v", name, other, x.Name(), x.Type(), x.Columns().Names())
			}
			if d := query.NewDatabaseWith(name); d.DatabaseName() != name || fmt.Sprint(d) != name {
				r.Fail("database", "%s: %s %v", name, d.DatabaseName(), d)
			}
			for _, c := range []query.Constraint{query.ConstraintNone, query.PrimaryKeyConstraint, query.NotNullConstraint, query.UniqueConstraint, query.PrimaryKeyConstraint | query.NotNullConstraint, query.NotNullConstraint | query.UniqueConstraint, query.PrimaryKeyConstraint | query.UniqueConstraint} {
				if c.IsPrimaryKey() != (c&1 != 0) || c.IsNotNull() != (c&2 != 0) || c.IsUnique() != (c&4 != 0) {
					r.Fail("constraint", "%d: %v %v %v", c, c.IsPrimaryKey(), c.IsNotNull(), c.IsUnique())
				}
				want, single := map[query.Constraint]string{0: "", 1: "PRIMARY KEY", 2: "NOT NULL", 4: "UNIQUE"}[c]
				if single && c.String() != want {
					r.Fail("constraint", "%d renders %q", c, c.String())
				}
			}
			// Parts that are reported in more than one way.
			tbl := query.NewTableWith(name, query.WithTableSchema(other))
			cond := query.NewConditionWith(query.NewEQWith(query.NewColumnWithName(name), query.NewLiteralWith(lim)))
			del := query.NewDeleteWith(tbl, cond)
			if d, ok := del.(interface {
				Table() query.Table
				From() query.Table
			}); ok && (d.Table() != tbl || d.From() != tbl) {
				r.Fail("delete", "%s: table %v from %v", desc, d.Table(), d.From())
			}
			if del.TableName() != name || del.Where() != cond || !del.HasConditions() || del.String() != fmt.Sprintf("DELETE FROM %s.%s WHERE %s = %d", other, name, name, lim) {
				r.Fail("delete", "%s: %s on %s", desc, del.String(), del.TableName())
			}
			if none := query.NewDeleteWith(tbl, query.NewCondition()); none.HasConditions() || none.String() != "DELETE FROM "+other+"."+name {
				r.Fail("delete", "%s without a condition: %s", desc, none.String())
			}
			sch := query.NewSchemaWith(other+"x", query.WithSchemaTable(tbl))
			if t, ok := sch.(interface{ SchemaTable() query.Table }); ok && t.SchemaTable() != tbl {
				r.Fail("schema", "%s: table %v", desc, t.SchemaTable())
			}
			if sch.TableName() != name || sch.SchemaName() != other || sch.FullTableName() != other+"."+name || len(sch.Columns()) != 0 || len(sch.Indexes()) != 0 {
				r.Fail("schema", "%s: %s %s %s", desc, sch.TableName(), sch.SchemaName(), sch.FullTableName())
			}
			for k, rows := range [][]query.Columns{nil, {}, {{}}, {nil}} {
				ins := query.NewInsertWith(tbl, rows)
				if len(ins.Values()) != len(rows) || len(ins.Columns()) != 0 || ins.TableName() != name || !strings.HasPrefix(ins.String(), "INSERT INTO "+other+"."+name) {
					r.Fail("insert", "%s without values (%d): %s", desc, k, ins.String())
				}
			}
			// Values put into a literal and taken out again.
			lit := query.NewLiteral()
			if lit.Value() != nil || lit.ValueType() != query.UnknownLiteral {
				r.Fail("literal", "an empty literal is %v %v", lit.Value(), lit.ValueType())
			}
			if lit.SetValue(name); lit.Value() != any(name) || lit.ValueType() != query.UnknownLiteral || lit.String() != name {
				r.Fail("literal", "%s: %v %v %s", name, lit.Value(), lit.ValueType(), lit.String())
			}
			if lit.SetValueType(query.StringLiteral); lit.Value() != any(name) || lit.ValueType() != query.StringLiteral || lit.String() != quoted(name) {
				r.Fail("literal", "%s as string: %v %v %s", name, lit.Value(), lit.ValueType(), lit.String())
			}
		})
		r.Ev("clauses")
		r.Case(desc)
	})
}
