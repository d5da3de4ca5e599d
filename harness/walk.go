package main

import (
	"fmt"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

// Walk calls every accessor of a parsed statement and of its parts. It returns a digest so that nothing is optimised away.
func Walk(stmt query.Statement) int {
	n := len(stmt.String()) + len(stmt.StatementType().String())
	n += len(Dump(stmt).String())
	switch s := stmt.(type) {
	case query.Insert:
		for _, row := range s.Values() {
			n += walkColumns(row)
		}
		n += walkColumns(s.Columns())
		n += len(s.TableName())
	case query.Update:
		n += walkColumns(s.Columns()) + walkCond(s.Where()) + len(s.TableName())
	case query.Select:
		n += walkSelectors(s.Selectors()) + walkCond(s.Where()) + walkTables(s.From())
		n += len(s.GroupBy().String()) + len(s.OrderBy().String()) + len(s.Limit().String())
		for _, o := range s.OrderBy().Orders() {
			n += len(o.String())
		}
		if s.HasAggregator() || s.HasExecutor() {
			n++
		}
	case query.Delete:
		n += walkCond(s.Where()) + len(s.TableName())
	case query.CreateTable:
		n += walkSchema(s.Schema())
	case query.CreateIndex:
		n += walkIndex(s.Index())
		if a, err := query.NewAlterTableFrom(stmt); err == nil {
			n += len(a.String())
		}
	case query.DropIndex:
		n += walkIndex(s.Index())
		if a, err := query.NewAlterTableFrom(stmt); err == nil {
			n += len(a.String())
		}
	case query.DropTable:
		n += walkTables(s.Tables())
	case query.Truncate:
		n += walkTables(s.Tables())
	case query.AlterTable:
		if c, ok := s.AddColumn(); ok {
			n += walkColumn(c)
		}
		if c, ok := s.DropColumn(); ok {
			n += walkColumn(c)
		}
		if a, b, ok := s.RenameColumns(); ok {
			n += walkColumn(a) + walkColumn(b)
		}
		if i, ok := s.AddIndex(); ok {
			n += walkIndex(i)
		}
		if i, ok := s.DropIndex(); ok {
			n += walkIndex(i)
		}
		if t, ok := s.RenameTo(); ok {
			n += len(t.FullTableName())
		}
		sc := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(query.NewColumnWithName("a"))))
		if err := sc.Alter(s); err != nil {
			n += len(err.Error())
		}
		n += walkSchema(sc)
	case query.Copy:
		n += walkColumns(s.Columns())
	case query.Vacuum:
		if t := s.Table(); t != nil {
			n += len(t.FullTableName())
		}
		n += len(s.TableName())
	}
	return n
}

func walkTables(tbls query.TableList) int {
	n := len(tbls.String()) + len(tbls.TableNames())
	for _, t := range tbls {
		n += len(t.FullTableName()) + len(t.SchemaName()) + len(t.TableName())
		t.IsFullTableName("x")
		t.IsSchemaName("x")
		t.IsTableName("x")
	}
	tbls.HasTable("x")
	tbls.HasSchemaTable("x")
	tbls.HasTableName("x")
	return n
}

func walkCond(c query.Condition) int {
	if c == nil {
		return 0
	}
	n := len(c.String())
	if c.HasConditions() {
		n += walkExpr(c.Expr())
	}
	return n
}

func walkExpr(e query.Expr) int {
	if e == nil {
		return 0
	}
	n := len(e.String())
	switch e := e.(type) {
	case *query.AndExpr:
		n += walkExpr(e.Left()) + walkExpr(e.Right())
	case *query.OrExpr:
		n += walkExpr(e.Left()) + walkExpr(e.Right())
	case *query.CmpExpr:
		n += walkColumn(e.Left()) + len(e.Operator().String())
		l := e.Right()
		n += len(l.String()) + len(l.ValueString()) + len(fmt.Sprint(l.Value())) + int(l.ValueType())
		l.IsAsterisk()
		l.IsPlaceHolder()
		l.HasValue()
		l.Equal("x")
	}
	return n
}

func walkColumns(cols query.Columns) int {
	n := len(cols.NameString()) + len(cols.ValueString()) + len(cols.DefinitionString()) + cols.Len()
	n += len(cols.Names()) + len(cols.ColumnNames()) + len(cols.Selectors())
	cols.IsAsterisk()
	for i, c := range cols {
		n += walkColumn(c)
		if _, err := cols.ColumnAt(i); err != nil {
			n++
		}
		if _, err := cols.LookupColumn(c.Name()); err != nil {
			n++
		}
		if _, err := cols.LookupIndexOfColumn(c.Name()); err != nil {
			n++
		}
	}
	n += len(cols.Copy())
	return n
}

func walkColumn(c query.Column) int {
	if c == nil {
		return 0
	}
	n := len(c.Name()) + len(c.String()) + len(c.DefinitionString()) + len(c.ValueString())
	n += int(c.DataType()) + c.DataTypeSize() + int(c.Constraint()) + len(c.Constraint().String()) + int(c.ValueType())
	n += len(fmt.Sprint(c.Value()))
	c.HasValue()
	c.IsAsterisk()
	c.IsPlaceHolder()
	c.IsFunction()
	c.IsName("x")
	n += len(c.Arguments().String()) + len(c.Arguments().Names())
	if d := c.Definition(); d != nil {
		n += len(d.String()) + int(d.DataType()) + d.DataTypeSize()
	}
	if f, ok := c.Function(); ok {
		n += walkFunction(f)
	}
	cp := c.Copy()
	n += len(cp.Name())
	if u, ok := c.(query.UpdatorStringer); ok {
		n += len(u.UpdatorString())
	}
	return n
}

func walkFunction(f fn.Function) int {
	n := len(f.Name()) + len(f.String()) + int(f.Type()) + len(f.Arguments().String())
	f.IsAsterisk()
	f.IsFunction()
	f.IsAggregator()
	f.IsName("x")
	f.IsType(fn.MathFunction)
	if x, err := f.Executor(); err == nil {
		n += len(x.Name()) + len(x.Arguments()) + int(x.Type())
		if v, err := x.Execute([]any{1, 2}); err == nil {
			n += len(fmt.Sprint(v))
		}
		if v, err := x.Execute(map[string]any{"a": 1, "b": "x"}); err == nil {
			n += len(fmt.Sprint(v))
		}
	}
	if a, err := f.Aggregator(); err == nil {
		n += len(a.Name()) + len(a.Arguments())
		_ = a.Aggregate(map[string]any{"a": 1})
		if rs, err := a.Finalize(); err == nil {
			n += len(rs.Columns())
		}
	}
	if t, err := query.NewDataTypeForFunction(f); err == nil {
		n += int(t)
	}
	return n
}

func walkSelectors(sels query.Selectors) int {
	n := len(sels.String()) + len(sels.Names()) + sels.Len() + len(sels.Columns()) + len(sels.Functions())
	sels.IsAsterisk()
	sels.HasFunction()
	sels.HasAggregator()
	sels.HasExecutor()
	for _, t := range []fn.FunctionType{fn.MathFunction, fn.AggregateFunction, fn.CastFunction, fn.ArithOperator, fn.TimeFunction, fn.StringFunction} {
		sels.HasFunctionWithType(t)
		if x, err := sels.ExecutorsForType(t); err == nil {
			n += len(x)
		}
	}
	if x, err := sels.Executors(); err == nil {
		n += len(x)
	}
	if x, err := sels.Aggregators(); err == nil {
		n += len(x)
	}
	for _, s := range sels {
		n += len(s.Name()) + len(s.String()) + len(s.Arguments())
		s.IsAsterisk()
		s.IsFunction()
		if f, ok := s.Function(); ok {
			n += walkFunction(f)
		}
		if _, err := sels.LookupFunction(s.Name()); err != nil {
			n++
		}
		if _, err := sels.LookupExecutor(s.Name()); err != nil {
			n++
		}
	}
	return n
}

func walkIndex(i query.Index) int {
	if i == nil {
		return 0
	}
	return len(i.Name()) + len(i.DefinitionString()) + len(i.Type().String()) + walkColumns(i.Columns())
}

func walkSchema(s query.Schema) int {
	n := len(s.FullTableName()) + len(s.SchemaName()) + len(s.TableName()) + walkColumns(s.Columns()) + walkSelectors(s.Selectors())
	n += len(s.Indexes().DefinitionString()) + len(s.Indexes().IndexNames())
	for _, i := range s.Indexes() {
		n += walkIndex(i)
		if _, err := s.LookupIndex(i.Name()); err != nil {
			n++
		}
	}
	for _, c := range s.Columns() {
		if _, err := s.LookupColumn(c.Name()); err != nil {
			n++
		}
	}
	return n
}
