package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

// typeNames is the published name of every data type.
var typeNames = map[query.DataType]string{
	query.BigIntType: "BIGINT", query.BinaryType: "BINARY", query.BitType: "BIT", query.BlobType: "BLOB", query.BooleanType: "BOOLEAN",
	query.CharType: "CHAR", query.CharacterType: "CHARACTER", query.ClobType: "CLOB", query.DateType: "DATE", query.DateTimeType: "DATETIME",
	query.DecimalType: "DECIMAL", query.DoubleType: "DOUBLE", query.DoublePrecisionType: "DOUBLE PRECISION", query.FloatType: "FLOAT",
	query.IntType: "INT", query.IntegerType: "INTEGER", query.LongBlobType: "LONGBLOB", query.LongTextType: "LONGTEXT",
	query.MediumBlobType: "MEDIUMBLOB", query.MediumIntType: "MEDIUMINT", query.MediumTextType: "MEDIUMTEXT", query.NumericType: "NUMERIC",
	query.RealType: "REAL", query.SetType: "SET", query.SmallIntType: "SMALLINT", query.TextType: "TEXT", query.TimeType: "TIME",
	query.TimeStampType: "TIMESTAMP", query.TinyBlobType: "TINYBLOB", query.TinyIntType: "TINYINT", query.TinyTextType: "TINYTEXT",
	query.VarBinaryType: "VARBINARY", query.VarCharType: "VARCHAR", query.VarCharacterType: "VARCHARACTER", query.YearType: "YEAR",
	query.SerialType: "SERIAL", query.BigSerialType: "BIGSERIAL", query.SmallSerialType: "SMALLSERIAL", query.NameType: "NAME",
}

// parseableTypes are the types whose name can be written in CREATE TABLE.
func writableType(t query.DataType) bool { return t != query.BinaryType && t != query.SetType }

func randSize(rng *rand.Rand) int {
	switch rng.Intn(6) {
	case 0:
		return 1 + rng.Intn(9)
	case 1:
		return []int{10, 100, 255, 256, 1000, 65535, 65536, 99999, math.MaxInt32, math.MaxInt32 - 1, math.MaxInt32 + 1, 1 << 40}[rng.Intn(12)]
	case 2:
		return -1
	default:
		return 1 + rng.Intn(5000)
	}
}

func splitDef(s string) []string {
	out := []string{}
	for _, f := range strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ", ", ", ",").Replace(s)) {
		out = append(out, f)
	}
	return out
}

func c23(r *Run) {
	r.Rule = "every data type name in random letter case resolved by every route and back, near-miss names refused; definitions of every type and size rendered and read back by every route; the type of Go values and functions, stable and wide enough"
	types := allDataTypes()
	if len(types) != len(typeNames) {
		r.Fail("types", "%d types and %d names", len(types), len(typeNames))
	}
	seen := map[string]query.DataType{}
	for _, t := range types {
		n := t.String()
		if n == "" {
			r.Fail("name", "the type %d has no name", int(t))
		}
		if letters(n) != letters(typeNames[t]) {
			r.Fail("name", "the type %s is named %q", typeNames[t], n)
		}
		if o, dup := seen[n]; dup {
			r.Fail("name", "the types %d and %d are both named %q", int(o), int(t), n)
		}
		seen[n] = t
		r.Ev("type names")
	}
	if n := query.UnknownData.String(); n != "" {
		if _, err := query.NewDataTypeFromString(n); err == nil {
			r.Fail("name", "the unknown type resolves by its name %q", n)
		}
	}
	r.Parallel("names", r.N(20000, 300000), func(i int, rng *rand.Rand) {
		t := types[rng.Intn(len(types))]
		name := foldCase(rng, t.String())
		routes := []struct {
			what string
			f    func(s string) (query.DataType, error)
		}{
			{"NewDataTypeFromString", query.NewDataTypeFromString},
			{"NewDataTypeFrom string", func(s string) (query.DataType, error) { return query.NewDataTypeFrom(s) }},
			{"NewDataTypeFrom bytes", func(s string) (query.DataType, error) { return query.NewDataTypeFrom([]byte(s)) }},
			{"NewDataDefFrom", func(s string) (query.DataType, error) {
				d, err := query.NewDataDefFrom(s, 3)
				if err != nil {
					return query.UnknownData, err
				}
				return d.DataType(), nil
			}},
			{"NewDataDefFromStrings", func(s string) (query.DataType, error) {
				d, err := query.NewDataDefFromStrings(strings.Fields(s))
				if err != nil {
					return query.UnknownData, err
				}
				return d.DataType(), nil
			}},
		}
		for _, route := range routes {
			got, err := route.f(name)
			if err != nil || got != t {
				r.Fail("resolve", "%s(%q) = %v, %v", route.what, name, got, err)
				continue
			}
			r.Ev("resolved by " + route.what)
		}
		r.Case(name)
		// Names that are no type name: cut, extended, with a letter replaced, or surrounded.
		b := t.String()
		near := ""
		switch rng.Intn(6) {
		case 0:
			near = b[:rng.Intn(len(b))]
		case 1:
			near = b + []string{"X", "_", "1", "S", " x", "(1)"}[rng.Intn(6)]
		case 2:
			k := rng.Intn(len(b))
			near = b[:k] + string(rune('A'+rng.Intn(26))) + b[k+1:]
		case 3:
			near = []string{"X", "_", "UN", "VAR", "BIG"}[rng.Intn(5)] + b
		case 4:
			near = []string{" INT", "INT ", "\tTEXT", "VAR CHAR", "DOUBLE  PRECISION", "DOUBLE_PRECISION", "", "UUID", "JSON", "BYTEA", "UNKNOWN", "0", "?", "NULL", "ÍNT", "int\x00", " ", "BİGİNT"}[rng.Intn(18)]
		case 5:
			k := rng.Intn(len(b) + 1)
			near = b[:k] + "_" + b[k:]
		}
		for _, known := range types {
			if strings.ReplaceAll(strings.ToUpper(near), " ", "") == strings.ReplaceAll(known.String(), " ", "") {
				return
			}
		}
		for _, route := range routes[:4] {
			if got, err := route.f(near); err == nil || got != query.UnknownData {
				r.Fail("resolve", "%s(%q) = %v, %v although there is no such type", route.what, near, got, err)
			} else {
				r.Ev("unknown names refused")
			}
		}
		r.Case("no type: " + near)
	})
	// Definitions that are not complete or whose size is no number.
	r.Parallel("broken", r.N(500, 5000), func(i int, rng *rand.Rand) {
		name := strings.Fields(foldCase(rng, types[rng.Intn(len(types))].String()))
		size := fmt.Sprint(1 + rng.Intn(300))
		for _, tail := range [][]string{{"("}, {"(", size}, {"(", ")"}, {"(", "x", ")"}, {"(", size + "x", ")"}, {"(", size, ","}, {"(", "", ")"}, {"(", size + ",x", ")"}, {"(", size, "("}} {
			strs := append(append([]string{}, name...), tail...)
			if d, err := query.NewDataDefFromStrings(strs); err == nil {
				r.Fail("definition", "%q is read as %v size %d", strs, d, d.DataTypeSize())
			}
			r.Ev("broken definitions refused")
		}
		for _, strs := range [][]string{{}, {"(", size, ")"}, {"NOSUCHTYPE"}, {"NOSUCHTYPE", "(", size, ")"}} {
			if d, err := query.NewDataDefFromStrings(strs); err == nil {
				r.Fail("definition", "%q is read as %v size %d", strs, d, d.DataTypeSize())
			}
		}
		r.Case(fmt.Sprintf("broken %v %s", name, size))
	})
	r.Parallel("definitions", r.N(10000, 200000), func(i int, rng *rand.Rand) {
		t := types[rng.Intn(len(types))]
		size := randSize(rng)
		want := ""
		if 0 < size {
			want = fmt.Sprintf("(%d)", size)
		}
		var d query.ColumnDef
		switch rng.Intn(3) {
		case 0:
			d = query.NewDataDef(t, size)
		case 1:
			var err error
			if d, err = query.NewDataDefFrom(foldCase(rng, t.String()), size); err != nil {
				r.Fail("definition", "%v(%d): %v", t, size, err)
				return
			}
		case 2:
			strs := strings.Fields(foldCase(rng, t.String()))
			if 0 < size {
				want = fmt.Sprintf("(%d)", size)
				nums := fmt.Sprint(size)
				if rng.Intn(3) == 0 {
					scale := rng.Intn(12)
					want = fmt.Sprintf("(%d,%d)", size, scale)
					nums += []string{",", ", "}[rng.Intn(2)] + fmt.Sprint(scale)
				}
				strs = append(strs, "(", nums, ")")
			}
			var err error
			if d, err = query.NewDataDefFromStrings(strs); err != nil {
				r.Fail("definition", "%q: %v", strs, err)
				return
			}
		}
		desc := fmt.Sprintf("%s size %d", t, size)
		if d.DataType() != t || (0 < size && d.DataTypeSize() != size) || (size <= 0 && 0 < d.DataTypeSize()) {
			r.Fail("definition", "%s: it has type %v and size %d", desc, d.DataType(), d.DataTypeSize())
		}
		text := d.String()
		if squeeze := strings.ReplaceAll(text, " ", ""); squeeze != strings.ReplaceAll(t.String(), " ", "")+want {
			r.Fail("definition", "%s: rendered as %q, want %s%s", desc, text, t, want)
		}
		back, err := query.NewDataDefFromStrings(splitDef(text))
		if err != nil || back.DataType() != t || max(back.DataTypeSize(), 0) != max(size, 0) {
			r.Fail("definition", "%s: rendered as %q, it reads back as %v, %v", desc, text, back, err)
			return
		}
		if back.String() != text {
			r.Fail("definition", "%s: rendered as %q, then as %q", desc, text, back.String())
		}
		r.Ev("definitions read back")
		r.Case(text)
		if !writableType(t) {
			return
		}
		col := query.NewColumnWithOptions(query.WithColumnName("c"), query.WithColumnData(d))
		q := "CREATE TABLE t (a INT, " + col.DefinitionString() + ", z TEXT)"
		if rng.Intn(2) == 0 {
			q = query.NewCreateTableWith(query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(
				query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnData(query.NewDataDef(query.IntType, -1))), col,
				query.NewColumnWithOptions(query.WithColumnName("z"), query.WithColumnData(query.NewDataDef(query.TextType, -1)))))), query.NewIfNotExistsWith(false)).String()
		}
		if rng.Intn(3) == 0 {
			q = strings.ReplaceAll(q, text, foldCase(rng, text))
		}
		ct, err := parseOne[query.CreateTable](q)
		if err != nil {
			r.Fail("definition", "%s: %v", q, err)
			return
		}
		cols := ct.Schema().Columns()
		if len(cols) != 3 || cols[1].DataType() != t || max(cols[1].DataTypeSize(), 0) != max(size, 0) || cols[0].DataType() != query.IntType || cols[2].DataType() != query.TextType {
			r.Fail("definition", "%s: it is read as %s", q, cols.DefinitionString())
			return
		}
		r.Ev("definitions read back from CREATE TABLE")
		at, err := parseOne[query.AlterTable]("ALTER TABLE t ADD COLUMN " + col.DefinitionString())
		if err != nil {
			r.Fail("definition", "ALTER TABLE t ADD COLUMN %s: %v", col.DefinitionString(), err)
			return
		}
		added, ok := at.AddColumn()
		if !ok || added.DataType() != t || max(added.DataTypeSize(), 0) != max(size, 0) {
			r.Fail("definition", "ALTER TABLE t ADD COLUMN %s is read as %v", col.DefinitionString(), added)
			return
		}
		r.Ev("definitions read back from ALTER TABLE")
	})
	// The type of Go values.
	type kind struct {
		name string
		mk   func(rng *rand.Rand) any
		cap  func(v any, t query.DataType) bool
	}
	isOneOf := func(ts ...query.DataType) func(any, query.DataType) bool {
		return func(_ any, t query.DataType) bool {
			for _, x := range ts {
				if x == t {
					return true
				}
			}
			return false
		}
	}
	holds := func(v any, t query.DataType) bool { return roundTrips(v, t) }
	ints := isOneOf(query.TinyIntType, query.SmallIntType, query.IntType, query.IntegerType, query.BigIntType, query.MediumIntType)
	kinds := []kind{
		{"int8", func(rng *rand.Rand) any { return []int8{math.MinInt8, math.MaxInt8, 0, int8(rng.Int())}[rng.Intn(4)] }, holds},
		{"int16", func(rng *rand.Rand) any {
			return []int16{math.MinInt16, math.MaxInt16, 0, int16(rng.Int())}[rng.Intn(4)]
		}, holds},
		{"int32", func(rng *rand.Rand) any {
			return []int32{math.MinInt32, math.MaxInt32, 0, int32(rng.Int())}[rng.Intn(4)]
		}, holds},
		{"int64", func(rng *rand.Rand) any {
			return []int64{math.MinInt64, math.MaxInt64, 0, int64(rng.Uint64())}[rng.Intn(4)]
		}, holds},
		{"int", func(rng *rand.Rand) any {
			return []int{math.MinInt, math.MaxInt, 0, int(rng.Uint64()), rng.Intn(1000)}[rng.Intn(5)]
		}, holds},
		{"uint", func(rng *rand.Rand) any { return uint(rng.Intn(1000)) }, ints},
		{"uint8", func(rng *rand.Rand) any { return uint8(rng.Intn(256)) }, ints},
		{"uint16", func(rng *rand.Rand) any { return uint16(rng.Intn(65536)) }, ints},
		{"uint32", func(rng *rand.Rand) any { return rng.Uint32() }, ints},
		{"uint64", func(rng *rand.Rand) any { return rng.Uint64() }, ints},
		{"float32", func(rng *rand.Rand) any {
			return []float32{math.MaxFloat32, -math.MaxFloat32, 0, rng.Float32()}[rng.Intn(4)]
		}, holds},
		{"float64", func(rng *rand.Rand) any {
			return []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, rng.Float64()}[rng.Intn(4)]
		}, holds},
		{"bool", func(rng *rand.Rand) any { return rng.Intn(2) == 0 }, isOneOf(query.BooleanType)},
		{"string", func(rng *rand.Rand) any { return strings.Repeat("x", rng.Intn(100)) }, isOneOf(query.VarCharType, query.TextType, query.CharType, query.LongTextType, query.ClobType, query.VarCharacterType)},
		{"bytes", func(rng *rand.Rand) any { return make([]byte, rng.Intn(100)) }, isOneOf(query.BlobType, query.BinaryType, query.VarBinaryType, query.LongBlobType)},
		{"time", func(rng *rand.Rand) any { return time.Unix(rng.Int63n(1<<32), 0) }, isOneOf(query.TimeStampType, query.DateTimeType)},
		{"*time", func(rng *rand.Rand) any { t := time.Unix(rng.Int63n(1<<32), 0); return &t }, isOneOf(query.TimeStampType, query.DateTimeType)},
	}
	first := map[string]query.DataType{}
	r.Serial("values", r.N(2000, 50000), func(i int, rng *rand.Rand) {
		for _, k := range kinds {
			v := k.mk(rng)
			t, err := query.NewDataTypeForValue(v)
			if err != nil {
				r.Fail("value type", "%s %v: %v", k.name, v, err)
				continue
			}
			if f, ok := first[k.name]; ok && f != t {
				r.Fail("value type", "%s values are of type %v and, for %v, of type %v", k.name, f, v, t)
			}
			first[k.name] = t
			if !k.cap(v, t) {
				r.Fail("value type", "the type chosen for the %s %v is %v, which cannot hold it", k.name, v, t)
			}
			r.Ev("value " + k.name)
			r.Case(fmt.Sprintf("%s %v %v", k.name, v, t))
		}
		for _, v := range []any{nil, struct{}{}, []int{1}, map[string]any{}, make(chan int), 1i} {
			if t, err := query.NewDataTypeForValue(v); err == nil || t != query.UnknownData {
				r.Fail("value type", "%T has the type %v, %v", v, t, err)
			}
		}
	})
	numeric := isOneOf(query.FloatType, query.DoubleType, query.DoublePrecisionType, query.RealType, query.NumericType, query.DecimalType)
	text := isOneOf(query.VarCharType, query.TextType, query.LongTextType)
	stamp := isOneOf(query.TimeStampType, query.DateTimeType)
	want := map[string]func(any, query.DataType) bool{}
	for _, m := range mathRefs {
		want[m.name] = numeric
	}
	for _, n := range []string{"SUM", "AVG", "MIN", "MAX", "COUNT", "+", "-", "*", "/", "%"} {
		want[n] = numeric
	}
	for _, n := range []string{"UPPER", "LOWER", "TRIM"} {
		want[n] = text
	}
	for _, n := range []string{"NOW", "CURRENT_TIMESTAMP"} {
		want[n] = stamp
	}
	r.Serial("functions", r.N(50, 1000), func(i int, rng *rand.Rand) {
		for n, ok := range want {
			fns := []fn.Function{fn.NewFunction(fn.WithFunctionName(foldCase(rng, n)), fn.WithFunctionArguments("a"))}
			if ex, err := fn.NewExecutorForName(n); err == nil {
				fns = append(fns, fn.NewFunction(fn.WithFunctionExecutor(ex)))
			}
			if ag, err := fn.NewAggregatorForName(n, fn.WithAggregatorArguments([]string{"a"})); err == nil {
				fns = append(fns, fn.NewFunction(fn.WithFunctionAggregator(ag)))
			}
			for _, f := range fns {
				t, err := query.NewDataTypeForFunction(f)
				t2, err2 := query.NewDataTypeFrom(f)
				if err != nil || err2 != nil || t != t2 {
					r.Fail("function type", "%s: %v %v, %v %v", f, t, err, t2, err2)
					continue
				}
				if !ok(nil, t) {
					r.Fail("function type", "the type chosen for %s is %v", f, t)
				}
				if o, dup := first["fn "+n]; dup && o != t {
					r.Fail("function type", "%s is of type %v and of type %v", f, o, t)
				}
				first["fn "+n] = t
				r.Ev("function types")
				r.Case(f.String() + " " + t.String())
			}
		}
		unknown := fn.NewFunction(fn.WithFunctionName("NOSUCH" + fmt.Sprint(rng.Intn(100))))
		if t, err := query.NewDataTypeForFunction(unknown); err == nil || t != query.UnknownData {
			r.Fail("function type", "the unknown function %s has the type %v", unknown, t)
		}
		if t, err := query.NewDataTypeForFunction(nil); err == nil || t != query.UnknownData {
			r.Fail("function type", "no function has the type %v", t)
		}
	})
}

// roundTrips decides whether a column of the type keeps the number.
func roundTrips(v any, t query.DataType) bool {
	col := query.NewColumnWithOptions(query.WithColumnName("c"), query.WithColumnData(query.NewDataDef(t, -1)))
	if err := col.SetValue(v); err != nil {
		return false
	}
	return fmt.Sprint(col.Value()) == fmt.Sprint(v)
}
