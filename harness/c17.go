package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() {
	register("C17", c17)
	register("C18", c18)
}

// ---------------------------------------------------------------- C17

var foldNames = []string{"a", "b", "c", "id", "Name", "user_id", "col1", "col10", "col", "ab", "é", "idx", "abc", "_x", "order_no"}

var foldTypes = []struct {
	name string
	t    query.DataType
}{{"INT", query.IntType}, {"TEXT", query.TextType}, {"VARCHAR(10)", query.VarCharType}, {"DOUBLE", query.DoubleType}, {"BIGINT", query.BigIntType}, {"BOOLEAN", query.BooleanType}}

func foldCase(rng *rand.Rand, s string) string {
	switch rng.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

type schemaItem struct{ name, def string }

// schemaModel is the reference: two plain lists.
type schemaModel struct{ cols, idxs []schemaItem }

func (m *schemaModel) drop(l []schemaItem, name string) ([]schemaItem, bool) {
	for n, it := range l {
		if strings.EqualFold(it.name, name) {
			return append(append([]schemaItem{}, l[:n]...), l[n+1:]...), true
		}
	}
	return l, false
}

func colItem(c query.Column) schemaItem {
	return schemaItem{c.Name(), fmt.Sprintf("%v/%d/%s", c.DataType(), c.DataTypeSize(), c.DefinitionString())}
}

func idxItem(i query.Index) schemaItem {
	return schemaItem{i.Name(), fmt.Sprintf("%v/%s", i.Type(), strings.Join(i.Columns().Names(), ","))}
}

// judgeSchema compares every view of the schema with the model.
func judgeSchema(s query.Schema, m *schemaModel) error {
	cols := s.Columns()
	if len(cols) != len(m.cols) {
		return fmt.Errorf("columns are %v, want %v", cols.Names(), m.cols)
	}
	for n, c := range cols {
		if colItem(c) != m.cols[n] {
			return fmt.Errorf("column %d is %v, want %v", n, colItem(c), m.cols[n])
		}
	}
	idxs := s.Indexes()
	if len(idxs) != len(m.idxs) {
		return fmt.Errorf("indexes are %v, want %v", idxs.IndexNames(), m.idxs)
	}
	for n, i := range idxs {
		if idxItem(i) != m.idxs[n] {
			return fmt.Errorf("index %d is %v, want %v", n, idxItem(i), m.idxs[n])
		}
	}
	sels := s.Selectors()
	if len(sels) != len(m.cols) {
		return fmt.Errorf("%d selectors for %d columns", len(sels), len(m.cols))
	}
	for n, sel := range sels {
		if sel.Name() != m.cols[n].name {
			return fmt.Errorf("selector %d is %s, want %s", n, sel.Name(), m.cols[n].name)
		}
	}
	return nil
}

func judgeLookups(s query.Schema, m *schemaModel, name string) error {
	want, has := schemaItem{}, false
	for _, it := range m.cols {
		if strings.EqualFold(it.name, name) {
			want, has = it, true
			break
		}
	}
	c, err := s.LookupColumn(name)
	switch {
	case has && (err != nil || colItem(c) != want):
		return fmt.Errorf("lookup of column %q: %v, want %v", name, err, want)
	case !has && err == nil:
		return fmt.Errorf("lookup of the absent column %q gave %v", name, colItem(c))
	}
	want, has = schemaItem{}, false
	for _, it := range m.idxs {
		if strings.EqualFold(it.name, name) {
			want, has = it, true
			break
		}
	}
	i, err := s.LookupIndex(name)
	switch {
	case has && (err != nil || idxItem(i) != want):
		return fmt.Errorf("lookup of index %q: %v, want %v", name, err, want)
	case !has && err == nil:
		return fmt.Errorf("lookup of the absent index %q gave %v", name, idxItem(i))
	}
	return nil
}

func parseOne[T any](q string) (T, error) {
	var zero T
	stmts, err := Parse(q)
	if err != nil {
		return zero, err
	}
	if len(stmts) != 1 {
		return zero, fmt.Errorf("%d statements", len(stmts))
	}
	st, ok := stmts[0].(T)
	if !ok {
		return zero, fmt.Errorf("got %T", stmts[0])
	}
	return st, nil
}

func c17(r *Run) {
	r.Rule = "a history of schema alterations (direct, by ALTER TABLE, by converted CREATE/DROP INDEX, parsed or constructed) checked after every step against a list model, including a second schema sharing the initial lists"
	asciiName := func(s string) bool {
		for _, c := range []byte(s) {
			if 127 < c {
				return false
			}
		}
		return true
	}
	r.Parallel("hist", r.N(6000, 150000), func(i int, rng *rand.Rand) {
		// The initial schema: constructed over shared lists, or parsed.
		m := &schemaModel{}
		var s, twin query.Schema
		var log []string
		mkCol := func(name string) query.Column {
			if rng.Intn(8) == 0 {
				return query.NewColumnWithName(name)
			}
			t := foldTypes[rng.Intn(len(foldTypes))]
			size := -1
			if rng.Intn(3) == 0 {
				size = 1 + rng.Intn(300)
			}
			return query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewDataDef(t.t, size)))
		}
		mkIdx := func(name string) query.Index {
			cols := query.NewColumns()
			for k := rng.Intn(3); 0 <= k; k-- {
				cols = append(cols, query.NewColumnWithName(foldNames[rng.Intn(len(foldNames))]))
			}
			if rng.Intn(4) == 0 {
				return query.NewPrimaryIndexWith(cols)
			}
			return query.NewSecondaryIndexWith(name, cols)
		}
		freshName := func() string {
			if rng.Intn(10) == 0 { // possibly a duplicate
				return foldNames[rng.Intn(len(foldNames))]
			}
			for try := 0; ; try++ {
				n := foldNames[rng.Intn(len(foldNames))]
				if 3 < try {
					n = fmt.Sprintf("%s%d", n, rng.Intn(1000))
				}
				if _, ok := m.drop(m.cols, n); ok {
					continue
				}
				if _, ok := m.drop(m.idxs, n); ok {
					continue
				}
				return n
			}
		}
		if rng.Intn(3) == 0 {
			parts := []string{}
			for k := 1 + many(rng, 4); 0 < k; k-- {
				n := freshName()
				if !asciiName(n) {
					continue
				}
				if _, ok := m.drop(m.cols, n); ok {
					continue
				}
				parts = append(parts, n+" "+foldTypes[rng.Intn(len(foldTypes))].name)
				m.cols = append(m.cols, schemaItem{name: n})
			}
			if len(parts) == 0 {
				parts = append(parts, "z0 INT")
			}
			q := "CREATE TABLE t (" + strings.Join(parts, ", ") + ")"
			st, err := parseOne[query.CreateTable](q)
			if err != nil {
				r.Fail("setup", "%s: %v", q, err)
				return
			}
			s = st.Schema()
			log = append(log, q)
			*m = schemaModel{}
			for _, c := range s.Columns() {
				m.cols = append(m.cols, colItem(c))
			}
			for _, x := range s.Indexes() {
				m.idxs = append(m.idxs, idxItem(x))
			}
		} else {
			// Lists with spare capacity, shared by two schemas.
			cols := make(query.Columns, 0, rng.Intn(12))
			idxs := make(query.Indexes, 0, rng.Intn(8))
			for k := many(rng, 6); 0 < k; k-- {
				c := mkCol(freshName())
				cols = append(cols, c)
				m.cols = append(m.cols, colItem(c))
			}
			for k := many(rng, 4); 0 < k; k-- {
				x := mkIdx(freshName())
				idxs = append(idxs, x)
				m.idxs = append(m.idxs, idxItem(x))
			}
			s = query.NewSchemaWith("t", query.WithSchemaColumns(cols), query.WithSchemaIndexes(idxs))
			twin = query.NewSchemaWith("u", query.WithSchemaColumns(cols), query.WithSchemaIndexes(idxs))
			log = append(log, fmt.Sprintf("schema of %v %v", m.cols, m.idxs))
		}
		tm := &schemaModel{append([]schemaItem{}, m.cols...), append([]schemaItem{}, m.idxs...)}
		desc := func() string { return strings.Join(log, "\n") }
		check := func(err error) bool {
			if err != nil {
				r.Fail("schema", "%v\nafter\n%s", err, desc())
				return false
			}
			return true
		}
		steps := 1 + rng.Intn(10)
		for k := 0; k < steps; k++ {
			target, mod := s, m
			if twin != nil && rng.Intn(3) == 0 {
				target, mod = twin, tm
			}
			anyName := func(l []schemaItem) string {
				if 0 < len(l) && rng.Intn(5) != 0 {
					return foldCase(rng, l[rng.Intn(len(l))].name)
				}
				switch rng.Intn(6) {
				case 0:
					return ""
				case 1:
					if 0 < len(l) { // a prefix or extension of an existing name
						n := l[rng.Intn(len(l))].name
						if rng.Intn(2) == 0 || len(n) < 2 {
							return n + "x"
						}
						return n[:len(n)-1]
					}
				}
				return foldNames[rng.Intn(len(foldNames))]
			}
			op := rng.Intn(10)
			var err error
			applyStmt := func(q string) error {
				log = append(log, q)
				stmts, err := Parse(q)
				if err != nil {
					return fmt.Errorf("setup: %w", err)
				}
				switch st := stmts[0].(type) {
				case query.AlterTable:
					return target.Alter(st)
				default:
					alt, err := query.NewAlterTableFrom(st)
					if err != nil {
						return fmt.Errorf("setup: %w", err)
					}
					return target.Alter(alt)
				}
			}
			plain := func(n string) bool {
				return n != "" && asciiName(n) && isWord(n) && !strings.ContainsAny(n[:1], "0123456789")
			}
			switch op {
			case 0: // add a column directly
				c := mkCol(freshName())
				log = append(log, fmt.Sprintf("AddColumn %v", colItem(c)))
				err = target.AddColumn(c)
				mod.cols = append(mod.cols[:len(mod.cols):len(mod.cols)], colItem(c))
				r.Ev("add column")
			case 1: // add a column by a statement
				n := freshName()
				var c query.Column
				if rng.Intn(2) == 0 && plain(n) {
					q := "ALTER TABLE t ADD COLUMN " + n + " " + foldTypes[rng.Intn(len(foldTypes))].name
					st, perr := parseOne[query.AlterTable](q)
					if perr != nil {
						r.Fail("setup", "%s: %v", q, perr)
						return
					}
					c, _ = st.AddColumn()
					log = append(log, q)
					err = target.Alter(st)
				} else {
					c = mkCol(n)
					log = append(log, fmt.Sprintf("Alter add %v", colItem(c)))
					err = target.Alter(query.NewAlterTableWith("t", query.WithAlterTableAddColumn(c)))
				}
				mod.cols = append(mod.cols[:len(mod.cols):len(mod.cols)], colItem(c))
				if c.Name() != n {
					r.Fail("schema", "the added column is named %q, want %q\n%s", c.Name(), n, desc())
				}
				r.Ev("add column")
			case 2, 3: // drop a column
				n := anyName(mod.cols)
				next, has := mod.drop(mod.cols, n)
				switch {
				case op == 2 || !plain(n):
					log = append(log, "DropColumn "+n)
					err = target.DropColumn(n)
				case rng.Intn(2) == 0:
					log = append(log, "Alter drop column "+n)
					err = target.Alter(query.NewAlterTableWith("t", query.WithAlterTableDropColumn(query.NewColumnWithName(n))))
				default:
					err = applyStmt("ALTER TABLE t DROP COLUMN " + n)
				}
				if has != (err == nil) {
					r.Fail("drop", "dropping column %q gave %v\n%s", n, err, desc())
					return
				}
				if !has && !errors.Is(err, query.ErrNotFound) {
					r.Fail("drop", "dropping the absent column %q is not reported as not found: %v\n%s", n, err, desc())
				}
				if has {
					r.Ev("drop column")
				} else {
					r.Ev("drop refused")
				}
				mod.cols, err = next, nil
			case 4, 5: // add an index
				n := freshName()
				var x query.Index
				switch {
				case op == 4:
					x = mkIdx(n)
					log = append(log, fmt.Sprintf("AddIndex %v", idxItem(x)))
					err = target.AddIndex(x)
				case rng.Intn(2) == 0 && plain(n):
					cols := []string{"a", "Name", "col1"}[:1+rng.Intn(3)]
					q := "CREATE INDEX " + n + " ON t (" + strings.Join(cols, ", ") + ")"
					st, perr := parseOne[query.CreateIndex](q)
					if perr != nil {
						r.Fail("setup", "%s: %v", q, perr)
						return
					}
					log = append(log, q)
					x = st.Index()
					if x.Name() != n || strings.Join(x.Columns().Names(), ",") != strings.Join(cols, ",") {
						r.Fail("schema", "%s defines %v", q, idxItem(x))
						return
					}
					alt, aerr := query.NewAlterTableFrom(st)
					if aerr != nil {
						r.Fail("convert", "%s: %v", q, aerr)
						return
					}
					if alt.TableName() != "t" {
						r.Fail("convert", "%s converts to an alteration of %q", q, alt.TableName())
					}
					err = target.Alter(alt)
				default:
					x = mkIdx(n)
					log = append(log, fmt.Sprintf("Alter add index %v", idxItem(x)))
					err = target.Alter(query.NewAlterTableWith("t", query.WithAlterTableAddIndex(x)))
				}
				mod.idxs = append(mod.idxs[:len(mod.idxs):len(mod.idxs)], idxItem(x))
				r.Ev("add index")
			case 6, 7: // drop an index
				n := anyName(mod.idxs)
				next, has := mod.drop(mod.idxs, n)
				switch {
				case op == 6 || !plain(n):
					log = append(log, "DropIndex "+n)
					err = target.DropIndex(n)
				case rng.Intn(2) == 0:
					log = append(log, "Alter drop index "+n)
					err = target.Alter(query.NewAlterTableWith("t", query.WithAlterTableDropIndex(query.NewIndexWith(n, query.SecondaryIndex, query.NewColumns()))))
				default:
					err = applyStmt("DROP INDEX " + n)
				}
				if has != (err == nil) {
					r.Fail("drop", "dropping index %q gave %v\n%s", n, err, desc())
					return
				}
				if !has && !errors.Is(err, query.ErrNotFound) {
					r.Fail("drop", "dropping the absent index %q is not reported as not found: %v\n%s", n, err, desc())
				}
				if has {
					r.Ev("drop index")
				} else {
					r.Ev("drop refused")
				}
				mod.idxs, err = next, nil
			case 8: // what is not implemented
				if rng.Intn(2) == 0 {
					err = applyStmt("ALTER TABLE t RENAME TO t2")
				} else {
					n := anyName(mod.cols)
					if !plain(n) {
						n = "a"
					}
					err = applyStmt("ALTER TABLE t RENAME COLUMN " + n + " TO new_name")
				}
				if !errors.Is(err, sqlerrors.ErrNotImplemented) {
					r.Fail("not implemented", "reported as %v\n%s", err, desc())
				}
				err = nil
				r.Ev("not implemented")
			case 9: // several alterations at once: all of them or none
				opts := []query.AlterTableOption{}
				next := &schemaModel{append([]schemaItem{}, mod.cols...), append([]schemaItem{}, mod.idxs...)}
				all := true
				what := ""
				if rng.Intn(2) == 0 {
					c := mkCol(fmt.Sprintf("added%d", k))
					what += fmt.Sprintf(" add column %v", colItem(c))
					opts = append(opts, query.WithAlterTableAddColumn(c))
					next.cols = append(next.cols, colItem(c))
				}
				if rng.Intn(2) == 0 {
					x := mkIdx(fmt.Sprintf("addedx%d", k))
					what += fmt.Sprintf(" add index %v", idxItem(x))
					opts = append(opts, query.WithAlterTableAddIndex(x))
					next.idxs = append(next.idxs, idxItem(x))
				}
				if rng.Intn(2) == 0 {
					n := anyName(mod.cols)
					what += fmt.Sprintf(" drop column %q", n)
					opts = append(opts, query.WithAlterTableDropColumn(query.NewColumnWithName(n)))
					var has bool
					next.cols, has = next.drop(next.cols, n)
					all = all && has
				}
				if rng.Intn(2) == 0 {
					n := anyName(mod.idxs)
					what += fmt.Sprintf(" drop index %q", n)
					opts = append(opts, query.WithAlterTableDropIndex(query.NewIndexWith(n, query.SecondaryIndex, query.NewColumns())))
					var has bool
					next.idxs, has = next.drop(next.idxs, n)
					all = all && has
				}
				rename := rng.Intn(5) == 0
				if rename {
					what += " rename"
					opts = append(opts, query.WithAlterTableRenameTo(query.NewTableWith("t2")))
				}
				rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
				log = append(log, "Alter"+what)
				aerr := target.Alter(query.NewAlterTableWith("t", opts...))
				switch {
				case !all && !errors.Is(aerr, query.ErrNotFound) && !(rename && errors.Is(aerr, sqlerrors.ErrNotImplemented)), all && rename && !errors.Is(aerr, sqlerrors.ErrNotImplemented):
					r.Fail("several alterations", "reported as %v\n%s", aerr, desc())
				case all && !rename:
					err = aerr
					*mod = *next
					r.Ev("several alterations")
				default:
					r.Ev("several alterations refused")
				}
			}
			if err != nil {
				r.Fail("alter", "%v\n%s", err, desc())
				return
			}
			if !check(judgeSchema(s, m)) {
				return
			}
			if twin != nil && !check(judgeSchema(twin, tm)) {
				return
			}
			for p := 0; p < 3; p++ {
				if !check(judgeLookups(s, m, anyName(m.cols))) || !check(judgeLookups(s, m, anyName(m.idxs))) {
					return
				}
			}
		}
		r.Case(desc())
	})
	// Other statements are not alterations.
	r.Parallel("convert", r.N(400, 4000), func(i int, rng *rand.Rand) {
		g := NewStmt(rng, -1, nil)
		stmts, err := Parse(g.Text())
		if err != nil {
			r.Fail("setup", "%s: %v", g.Text(), err)
			return
		}
		alt, err := query.NewAlterTableFrom(stmts[0])
		switch stmts[0].StatementType() {
		case query.CreateIndexStatement:
			idx, ok := alt.AddIndex()
			if err != nil || !ok || idxItem(idx) != idxItem(stmts[0].(query.CreateIndex).Index()) {
				r.Fail("convert", "%s: %v", g.Text(), err)
			}
		case query.DropIndexStatement:
			idx, ok := alt.DropIndex()
			if err != nil || !ok || idx.Name() != stmts[0].(query.DropIndex).IndexName() {
				r.Fail("convert", "%s: %v", g.Text(), err)
			}
		default:
			if err == nil || !errors.Is(err, sqlerrors.ErrNotSupported) {
				r.Fail("convert", "%s: converted, or not reported as not supported: %v", g.Text(), err)
			}
		}
		r.Case("convert " + g.Text())
	})
}

// ---------------------------------------------------------------- C18

var intRange = map[query.DataType][2]int64{
	query.TinyIntType: {math.MinInt8, math.MaxInt8}, query.SmallIntType: {math.MinInt16, math.MaxInt16},
	query.IntType: {math.MinInt32, math.MaxInt32}, query.IntegerType: {math.MinInt32, math.MaxInt32},
	query.BigIntType: {math.MinInt64, math.MaxInt64},
}

func asWidth(t query.DataType, v int64) any {
	switch t {
	case query.TinyIntType:
		return int8(v)
	case query.SmallIntType:
		return int16(v)
	case query.BigIntType:
		return v
	}
	return int32(v)
}

var edgeInts = []int64{0, 1, -1, 2, 10, 42, 99, 126, 127, 128, 129, -127, -128, -129, 255, 256, 257, 32766, 32767, 32768, -32768, -32769, 65535, 65536, 1000000,
	1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 1<<62 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1}

// typedInput is a value with what an exact conversion of it means.
type typedInput struct {
	v     any
	isInt bool // an integer of 64 bits
	i     int64
	isNum bool
	f     float64
	loose bool // an integer written in a way that may be refused
	kind  string
}

func randTypedInput(rng *rand.Rand) typedInput {
	n := edgeInts[rng.Intn(len(edgeInts))]
	if rng.Intn(3) == 0 {
		n = rng.Int63() >> uint(rng.Intn(63))
		if rng.Intn(2) == 0 {
			n = -n
		}
	}
	in := typedInput{isInt: true, i: n, isNum: true, f: float64(n)}
	switch rng.Intn(20) {
	case 0:
		in.v, in.kind = int(n), "int"
	case 1:
		in.i = int64(int8(n))
		in.v, in.kind = int8(n), "int8"
	case 2:
		in.i = int64(int16(n))
		in.v, in.kind = int16(n), "int16"
	case 3:
		in.i = int64(int32(n))
		in.v, in.kind = int32(n), "int32"
	case 4:
		in.v, in.kind = n, "int64"
	case 5:
		in.i = int64(uint8(n))
		in.v, in.kind = uint8(n), "uint8"
	case 6:
		in.i = int64(uint16(n))
		in.v, in.kind = uint16(n), "uint16"
	case 7:
		in.i = int64(uint32(n))
		in.v, in.kind = uint32(n), "uint32"
	case 8:
		u := uint64(n)
		in.v, in.kind = u, "uint64"
		if math.MaxInt64 < u {
			in.isInt = false
		}
		in.f = float64(u)
		return in
	case 9:
		u := uint(n)
		in.v, in.kind = u, "uint"
		if math.MaxInt64 < u {
			in.isInt = false
		}
		in.f = float64(u)
		return in
	case 10, 11: // a floating point number
		f := float64(n)
		if rng.Intn(2) == 0 {
			f = float64(n%1000) + []float64{0.5, 0.25, -0.75, 0.999, 1e-9}[rng.Intn(5)]
		}
		if rng.Intn(8) == 0 {
			f = []float64{1e300, -1e300, 1e19, -1e19, 9223372036854775808, math.MaxFloat32, math.MaxFloat32 * 2, 1e-300, math.SmallestNonzeroFloat64}[rng.Intn(9)]
		}
		if rng.Intn(3) == 0 {
			g := float32(f)
			if math.IsInf(float64(g), 0) {
				g = math.MaxFloat32
			}
			f = float64(g)
			in.v, in.kind = g, "float32"
		} else {
			in.v, in.kind = f, "float64"
		}
		in.f = f
		in.isInt = f == math.Trunc(f) && -9223372036854775808 <= f && f < 9223372036854775808
		if in.isInt {
			in.i = int64(f)
		}
		return in
	case 12, 13:
		in.v, in.kind = fmt.Sprint(n), "string integer"
	case 14:
		in.v, in.kind = []byte(fmt.Sprint(n)), "bytes integer"
		in.loose = true
	case 15: // an integral number written as a float
		m := n % 100000
		in.i, in.f = m, float64(m)
		in.v, in.kind, in.loose = fmt.Sprintf("%d.0", m), "string integral", true
		return in
	case 16:
		f := float64(n%1000) + 0.5
		in = typedInput{v: fmt.Sprint(f), isNum: true, f: f, kind: "string fraction"}
		if rng.Intn(3) == 0 {
			in.v, in.kind = []byte(fmt.Sprint(f)), "bytes fraction"
		}
		return in
	case 17:
		return typedInput{v: []string{"", "abc", "12abc", "1 2", "--1", "NULL", "0x", "٣", "1,000", "1.2.3", "null"}[rng.Intn(11)], kind: "string text"}
	case 18:
		return typedInput{v: rng.Intn(2) == 0, kind: "bool"}
	case 19:
		return typedInput{v: nil, kind: "nil"}
	}
	in.f = float64(in.i)
	return in
}

// judgeTyped decides what was made of the input for the type. old is what must remain after a refusal.
func judgeTyped(t query.DataType, in typedInput, got any, err error) (string, error) {
	if in.v == nil {
		if err != nil || got != nil {
			return "", fmt.Errorf("NULL became %v (%T) %v", got, got, err)
		}
		return "null kept", nil
	}
	if rg, ok := intRange[t]; ok {
		if in.kind == "bool" {
			want := int64(0)
			if in.v.(bool) {
				want = 1
			}
			if err == nil && got != asWidth(t, want) {
				return "", fmt.Errorf("gave %v (%T), want %v or an error", got, got, want)
			}
			return "bool", nil
		}
		fits := in.isInt && rg[0] <= in.i && in.i <= rg[1]
		switch {
		case fits && err == nil && got == asWidth(t, in.i):
			return "converted", nil
		case fits && err != nil && in.loose:
			return "refused", nil
		case !fits && err != nil:
			return "refused", nil
		}
		return "", fmt.Errorf("gave %v (%T) %v, want representable=%v value %v", got, got, err, fits, in.i)
	}
	switch t {
	case query.DoubleType, query.DoublePrecisionType, query.FloatType:
		if !in.isNum {
			if in.kind == "bool" {
				return "bool", nil
			}
			if err == nil {
				return "", fmt.Errorf("gave %v (%T) for what is not a number", got, got)
			}
			return "refused", nil
		}
		var want any = in.f
		fits := true
		if t == query.FloatType {
			f32 := float32(in.f)
			want, fits = f32, !math.IsInf(float64(f32), 0)
		}
		if strings.HasPrefix(in.kind, "bytes") && err != nil {
			return "refused", nil
		}
		if fits != (err == nil) || (fits && got != want) {
			return "", fmt.Errorf("gave %v (%T) %v, want representable=%v value %v (%T)", got, got, err, fits, want, want)
		}
		if fits {
			return "converted", nil
		}
		return "refused", nil
	case query.BooleanType:
		switch in.kind {
		case "bool":
			if err != nil || got != in.v {
				return "", fmt.Errorf("gave %v (%T) %v", got, got, err)
			}
			return "converted", nil
		case "string text":
			if err == nil {
				return "", fmt.Errorf("gave %v (%T)", got, got)
			}
			return "refused", nil
		}
		if in.isInt && (in.i == 0 || in.i == 1) && !strings.HasPrefix(in.kind, "bytes") {
			if err == nil && got != (in.i == 1) {
				return "", fmt.Errorf("gave %v (%T) %v", got, got, err)
			}
			return "converted", nil
		}
		if _, ok := got.(bool); err == nil && !ok {
			return "", fmt.Errorf("gave %v (%T) in a boolean column", got, got)
		}
		return "other", nil
	}
	if err != nil || !sameAny(got, in.v) {
		return "", fmt.Errorf("a value without conversion became %v (%T) %v", got, got, err)
	}
	return "kept", nil
}

func sameAny(a, b any) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	}
	if _, ok := b.([]byte); ok {
		return false
	}
	return a == b
}

func allDataTypes() []query.DataType {
	ts := []query.DataType{}
	for t := query.BigIntType; t <= query.NameType; t++ {
		ts = append(ts, t)
	}
	return ts
}

func describeColumn(c query.Column) string {
	s := fmt.Sprintf("%s|%v|%v|%d|%v|%T %v|%v|%v|%v|%s|%s", c.Name(), c.Constraint(), c.DataType(), c.DataTypeSize(), c.HasValue(), c.Value(), c.Value(), c.ValueType(), c.IsFunction(), c.Arguments(), c.DefinitionString(), c.ValueString())
	if f, ok := c.Function(); ok {
		s += "|" + f.String()
	}
	return s
}

func describeColumns(cols query.Columns) string {
	ss := []string{}
	for _, c := range cols {
		ss = append(ss, describeColumn(c))
	}
	return strings.Join(ss, "\n")
}

func c18(r *Run) {
	r.Rule = "a value of a Go type or a written literal put into a typed column by a table definition or by setting it, judged against exact arithmetic; copied column lists changed independently"
	types := allDataTypes()
	convs := []query.DataType{query.TinyIntType, query.SmallIntType, query.IntType, query.IntegerType, query.BigIntType, query.FloatType, query.DoubleType, query.DoublePrecisionType, query.BooleanType}
	r.Parallel("values", r.N(60000, 1500000), func(i int, rng *rand.Rand) {
		t := convs[rng.Intn(len(convs))]
		if rng.Intn(5) == 0 {
			t = types[rng.Intn(len(types))]
		}
		in := randTypedInput(rng)
		if in.kind == "bytes integer" && rng.Intn(2) == 0 && intRange[t] != [2]int64{} {
			in = randTypedInput(rng)
		}
		def := query.NewDataDef(t, -1)
		desc := fmt.Sprintf("%v (%s) into %v", in.v, in.kind, t)
		r.Guard(desc, func() {
			var got any
			var err error
			way := rng.Intn(2)
			switch way {
			case 0: // apply a table definition, with neighbours
				col := query.NewColumnWithOptions(query.WithColumnName("c"), query.WithColumnLiteral(query.NewLiteralWith(in.v)))
				schema := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(
					query.NewColumnWithOptions(query.WithColumnName("cc"), query.WithColumnData(query.NewDataDef(query.TextType, -1))),
					query.NewColumnWithOptions(query.WithColumnName("C"), query.WithColumnData(def)),
				)))
				err = query.NewColumnsWith(col).SetSchema(schema)
				got = col.Value()
				if err != nil && !sameAny(got, in.v) {
					r.Fail("refused value changed", "%s: error %v, but the value is now %v (%T)", desc, err, got, got)
				}
				if err == nil && col.DataType() != t {
					r.Fail("definition", "%s: the column has type %v", desc, col.DataType())
				}
			case 1: // set it on a typed column that holds another value
				col := query.NewColumnWithOptions(query.WithColumnName("c"), query.WithColumnData(def))
				if rng.Intn(2) == 0 {
					if e := col.SetValue(1); e != nil {
						r.Fail("set", "1 into %v: %v", t, e)
					}
				}
				before := col.Value()
				err = col.SetValue(in.v)
				got = col.Value()
				if err != nil && !sameAny(got, before) {
					r.Fail("refused value changed", "%s: error %v, the value was %v (%T) and is %v (%T)", desc, err, before, before, got, got)
				}
			}
			what, jerr := judgeTyped(t, in, got, err)
			if jerr != nil {
				r.Fail("conversion", "%s: %v", desc, jerr)
				return
			}
			r.Ev(what)
			r.Ev("type " + t.String())
			r.Case(desc)
		})
	})
	// Written literals, through the parser.
	typeNames := map[query.DataType]string{query.TinyIntType: "TINYINT", query.SmallIntType: "SMALLINT", query.IntType: "INT", query.IntegerType: "INTEGER", query.BigIntType: "BIGINT", query.FloatType: "FLOAT", query.DoubleType: "DOUBLE", query.BooleanType: "BOOLEAN", query.TextType: "TEXT", query.VarCharType: "VARCHAR(20)"}
	ptypes := []query.DataType{}
	for _, t := range types {
		if _, ok := typeNames[t]; ok {
			ptypes = append(ptypes, t)
		}
	}
	r.Parallel("written", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		n := 1 + many(rng, 3)
		defs, names, lits := []string{}, []string{}, []string{}
		ins := []typedInput{}
		ts := []query.DataType{}
		for k := 0; k < n; k++ {
			t := ptypes[rng.Intn(len(ptypes))]
			var in typedInput
			var lit string
			v := edgeInts[rng.Intn(len(edgeInts))]
			way := rng.Intn(5)
			if 8 < n { // a long list of values that fit
				v, way = int64(k%100), 0
			}
			switch way {
			case 0, 1:
				in = typedInput{isInt: true, i: v, isNum: true, f: float64(v), kind: "number"}
				lit = fmt.Sprint(v)
			case 2:
				f := float64(v%1000) + 0.5
				in = typedInput{isNum: true, f: f, kind: "fraction"}
				lit = fmt.Sprintf("%.1f", f)
			case 3:
				in = typedInput{isInt: true, i: v, isNum: true, f: float64(v), kind: "string integer"}
				lit = quoted(fmt.Sprint(v))
			case 4:
				s := []string{"abc", "1x", "it's", ""}[rng.Intn(4)]
				in = typedInput{kind: "string text"}
				lit = quoted(s)
			}
			if t == query.BooleanType {
				in, lit = typedInput{v: true, kind: "bool"}, "TRUE"
			}
			defs = append(defs, fmt.Sprintf("c%d %s", k, typeNames[t]))
			names = append(names, fmt.Sprintf("C%d", k))
			lits = append(lits, lit)
			ins = append(ins, in)
			ts = append(ts, t)
		}
		create := "CREATE TABLE t (" + strings.Join(defs, ", ") + ")"
		q := "INSERT INTO t (" + strings.Join(names, ", ") + ") VALUES (" + strings.Join(lits, ", ") + ")"
		if rng.Intn(3) == 0 {
			sets := []string{}
			for k := range names {
				sets = append(sets, names[k]+" = "+lits[k])
			}
			q = "UPDATE t SET " + strings.Join(sets, ", ")
		}
		desc := create + "; " + q
		r.Guard(desc, func() {
			ct, err := parseOne[query.CreateTable](create)
			if err != nil {
				r.Fail("setup", "%s: %v", desc, err)
				return
			}
			stmt, err := parseOne[interface{ Columns() query.Columns }](q)
			if err != nil {
				r.Fail("setup", "%s: %v", desc, err)
				return
			}
			cols := stmt.Columns()
			if len(cols) != n {
				r.Fail("setup", "%s: %d columns", desc, len(cols))
				return
			}
			raw := make([]any, n)
			for k, c := range cols {
				raw[k] = c.Value()
			}
			stmt2, _ := parseOne[interface{ Columns() query.Columns }](q)
			err = cols.SetSchema(ct.Schema())
			allFit := true
			for k := range cols {
				in := ins[k]
				if in.kind != "bool" {
					in.v = raw[k]
				}
				single := cols[k].Copy()
				got := single.Value()
				if err != nil {
					// Decide each column on its own: exactly the unrepresentable ones are refused.
					one := query.NewColumnsWith(stmt2.Columns()[k])
					err1 := one.SetSchema(ct.Schema())
					if err1 != nil {
						allFit = false
					}
					_, jerr := judgeTyped(ts[k], in, one[0].Value(), err1)
					if jerr != nil {
						r.Fail("written", "%s: column %d: %v", desc, k, jerr)
						return
					}
					continue
				}
				if _, jerr := judgeTyped(ts[k], in, got, nil); jerr != nil {
					r.Fail("written", "%s: column %d: %v", desc, k, jerr)
					return
				}
			}
			if err != nil && allFit {
				r.Fail("written", "%s: refused with %v, though each value is accepted", desc, err)
				return
			}
			if err != nil {
				r.Ev("written refused")
			} else {
				r.Ev("written converted")
			}
			r.Case(desc)
		})
	})
	// A column that the definition lacks is refused.
	r.Serial("unknown", 200, func(i int, rng *rand.Rand) {
		schema := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnData(query.NewDataDef(query.IntType, -1))))))
		name := []string{"b", "aa", "", "x"}[rng.Intn(4)]
		err := query.NewColumnsWith(query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnLiteral(query.NewLiteralWith(1)))).SetSchema(schema)
		if !errors.Is(err, query.ErrNotFound) {
			r.Fail("unknown column", "column %q: %v", name, err)
		}
		r.Case("")
	})
	// Copies.
	r.Parallel("copy", r.N(8000, 150000), func(i int, rng *rand.Rand) {
		var cols query.Columns
		for k := many(rng, 5); 0 <= k; k-- {
			opts := []query.ColumnOption{query.WithColumnName(foldNames[rng.Intn(len(foldNames))])}
			if rng.Intn(2) == 0 {
				opts = append(opts, query.WithColumnData(query.NewDataDef(types[rng.Intn(len(types))], rng.Intn(20)-1)))
			}
			if rng.Intn(3) != 0 {
				in := randTypedInput(rng)
				lit := query.NewLiteralWith(in.v)
				if _, ok := in.v.(string); ok {
					lit.SetValueType(query.StringLiteral)
				}
				opts = append(opts, query.WithColumnLiteral(lit))
			}
			if rng.Intn(4) == 0 {
				ex, _ := newScalar([]string{"ABS", "UPPER", "+"}[rng.Intn(3)])
				opts = append(opts, query.WithColumnFunctionExecutor(ex), query.WithColumnArguments([]string{"x", "1", "yy", "2.5", "z"}[:rng.Intn(6)]))
			}
			if rng.Intn(6) == 0 {
				opts = append(opts, query.WithColumnFunction(fn.NewFunction(fn.WithFunctionName("MAX"), fn.WithFunctionArguments(fn.NewArgumentStrings("y")...))))
			}
			cols = append(cols, query.NewColumnWithOptions(opts...))
		}
		cp := cols.Copy()
		before := describeColumns(cols)
		if describeColumns(cp) != before {
			r.Fail("copy", "the copy differs\n%s\n---\n%s", describeColumns(cp), before)
			return
		}
		changed, kept := cols, cp
		if rng.Intn(2) == 0 {
			changed, kept = cp, cols
		}
		log := []string{}
		for k := rng.Intn(4); 0 <= k; k-- {
			c := rng.Intn(len(changed))
			switch rng.Intn(3) {
			case 0, 1:
				v := randTypedInput(rng).v
				err := changed[c].SetValue(v)
				log = append(log, fmt.Sprintf("SetValue %d %v %v", c, v, err))
			case 2:
				scols := query.NewColumns()
				for _, x := range changed {
					scols = append(scols, query.NewColumnWithOptions(query.WithColumnName(x.Name()), query.WithColumnData(query.NewDataDef(types[rng.Intn(len(types))], 7))))
				}
				err := changed.SetSchema(query.NewSchemaWith("t", query.WithSchemaColumns(scols)))
				log = append(log, fmt.Sprintf("SetSchema %v", err))
			}
		}
		if now := describeColumns(kept); now != before {
			r.Fail("copy", "changes of one list show in the other\nbefore\n%s\nafter\n%s\n%s", before, now, strings.Join(log, "\n"))
			return
		}
		r.Ev("copies compared")
		r.Case("copy " + before + strings.Join(log, ";"))
	})

}
