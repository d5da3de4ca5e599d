package main

import (
	"reflect"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

// call calls the method of that name if the object has one which takes these arguments.
func call(obj any, name string, args ...any) {
	if obj == nil {
		return
	}
	m := reflect.ValueOf(obj).MethodByName(name)
	if !m.IsValid() || m.Type().NumIn() != len(args) || m.Type().IsVariadic() {
		return
	}
	in := []reflect.Value{}
	for k, a := range args {
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(m.Type().In(k)) {
			return
		}
		in = append(in, v)
	}
	m.Call(in)
}

func spoilColumns(cols query.Columns) {
	for k, c := range cols {
		spoilColumn(c)
		if k%2 == 1 {
			cols[k] = query.NewColumnWithName("vandal")
		}
	}
}

func spoilColumn(c query.Column) {
	if c == nil {
		return
	}
	c.SetValue("vandal")
	if d, ok := c.(interface{ SetDefinition(query.ColumnDef) error }); ok {
		d.SetDefinition(query.NewDataDef(query.LongBlobType, 77))
	}
	if f, ok := c.Function(); ok {
		call(f, "SetName", "vandal")
	}
}

func spoilExpr(e query.Expr) {
	switch e := e.(type) {
	case *query.CmpExpr:
		spoilColumn(e.Left())
		e.Right().SetValue("vandal")
		e.Right().SetValueType(query.StringLiteral)
	case *query.AndExpr:
		spoilExpr(e.Left())
		spoilExpr(e.Right())
	case *query.OrExpr:
		spoilExpr(e.Left())
		spoilExpr(e.Right())
	}
}

func spoilTables(tbls query.TableList) {
	for k := range tbls {
		tbls[k] = query.NewTableWith("vandal")
	}
}

// spoil changes everything of the statements a caller who owns them may change: lists, schemas, values, clauses, functions.
func spoil(stmts []query.Statement) {
	for n, stmt := range stmts {
		switch s := stmt.(type) {
		case query.CreateTable:
			schema := s.Schema()
			for _, x := range schema.Indexes() {
				spoilColumns(x.Columns())
			}
			spoilColumns(schema.Columns())
			if 0 < len(schema.Columns()) {
				schema.DropColumn(schema.Columns()[0].Name())
			}
			schema.AddColumn(query.NewColumnWithName("vandal"))
			schema.AddIndex(query.NewSecondaryIndexWith("vandal", query.NewColumnsWith(query.NewColumnWithName("vandal"))))
		case query.CreateIndex:
			spoilColumns(s.Index().Columns())
		case query.Insert:
			rows := s.Values()
			for _, row := range rows {
				spoilColumns(row)
			}
			if 0 < len(rows) {
				rows[0] = query.NewColumns()
			}
		case query.Select:
			for k, sel := range s.Selectors() {
				if f, ok := sel.Function(); ok {
					if a, err := f.Aggregator(); err == nil {
						if a.Reset(fn.GroupBy("g")) == nil {
							a.Aggregate([]any{"vandal", 1})
						}
					}
					call(f, "SetName", "vandal")
					if args := f.Arguments(); 0 < len(args) {
						args[0] = "vandal"
					}
				} else if c, ok := sel.(query.Column); ok {
					spoilColumn(c)
				}
				s.Selectors()[k] = query.NewColumnWithName("vandal")
			}
			spoilTables(s.From())
			spoilExpr(s.Where().Expr())
			call(s.Limit(), "SetLimit", uint(99))
			call(s.Limit(), "SetOffset", uint(99))
			call(s.GroupBy(), "SetColumn", "vandal")
			orders := s.OrderBy().Orders()
			for k := range orders {
				orders[k] = query.NewOrderWith("vandal", query.OrderDesc)
			}
		case query.Update:
			spoilColumns(s.Columns())
			spoilExpr(s.Where().Expr())
		case query.Delete:
			spoilExpr(s.Where().Expr())
		case query.DropTable:
			spoilTables(s.Tables())
		case query.Truncate:
			spoilTables(s.Tables())
		case query.AlterTable:
			if c, ok := s.AddColumn(); ok {
				spoilColumn(c)
			}
			if c, ok := s.DropColumn(); ok {
				spoilColumn(c)
			}
			if x, ok := s.AddIndex(); ok {
				spoilColumns(x.Columns())
			}
			if x, ok := s.DropIndex(); ok {
				spoilColumns(x.Columns())
			}
		case query.Copy:
			if cols, ok := stmt.(interface{ Columns() query.Columns }); ok {
				spoilColumns(cols.Columns())
			}
		}
		if n%2 == 1 {
			stmts[n] = nil
		}
	}
}

// use computes with the functions of the statements.
func use(stmts []query.Statement) (out []any) {
	for _, stmt := range stmts {
		s, ok := stmt.(query.Select)
		if !ok {
			continue
		}
		for _, sel := range s.Selectors() {
			f, ok := sel.Function()
			if !ok {
				continue
			}
			if ex, err := f.Executor(); err == nil {
				v, err := ex.Execute([]any{4.0}[:min(1, len(f.Arguments()))])
				if f.IsName("RAND") || f.IsName("NOW") || f.IsName("CURRENT_TIMESTAMP") {
					v = nil
				}
				out = append(out, ex.Name(), v, err != nil)
			}
			if a, err := f.Aggregator(); err == nil {
				if a.Reset(fn.GroupBy("g")) == nil {
					for k := 0; k < 5; k++ {
						a.Aggregate([]any{k % 2, k})
					}
					if rs, err := a.Finalize(); err == nil {
						rows, err := drainFn(rs)
						out = append(out, a.Name(), rows, err != nil)
					}
				}
			}
		}
	}
	return out
}
