package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/fn"
)

func init() {
	register("C13", checkAggregates)
}

// aggrModel recomputes the aggregate of the rows that count, from scratch.
type aggrModel struct {
	name string
	arg  string
	ngrp int
	rows [][]any // group values followed by the value
}

func (m *aggrModel) value(rows [][]any) any {
	var vals []float64
	n := 0
	for _, row := range rows {
		v := row[len(row)-1]
		if v == nil && m.arg != "*" {
			continue
		}
		n++
		if m.name != "COUNT" && v != nil {
			vals = append(vals, toF(v))
		}
	}
	if m.name == "COUNT" {
		return float64(n)
	}
	if len(vals) == 0 {
		return nil
	}
	sum, lo, hi := 0.0, math.Inf(1), math.Inf(-1)
	for _, v := range vals {
		sum += v
		lo = math.Min(lo, v)
		hi = math.Max(hi, v)
	}
	switch m.name {
	case "SUM":
		return sum
	case "AVG":
		return sum / float64(len(vals))
	case "MIN":
		return lo
	}
	return hi
}

// groups splits the rows by their group values.
func (m *aggrModel) groups() (keys []string, of map[string][][]any) {
	of = map[string][][]any{}
	for _, row := range m.rows {
		k := groupText(row[:m.ngrp])
		if _, ok := of[k]; !ok {
			keys = append(keys, k)
		}
		of[k] = append(of[k], row)
	}
	if m.ngrp == 0 && len(keys) == 0 {
		k := groupText(nil)
		keys = []string{k}
		of[k] = nil
	}
	return keys, of
}

func groupText(vals []any) string {
	strs := []string{}
	for _, v := range vals {
		strs = append(strs, fmt.Sprintf("%T:%q", v, fmt.Sprint(v)))
	}
	return "(" + strings.Join(strs, " ") + ")"
}

func toF(v any) float64 {
	switch v := v.(type) {
	case int:
		return float64(v)
	case int64:
		return float64(v)
	case int32:
		return float64(v)
	case uint8:
		return float64(v)
	case float64:
		return v
	case float32:
		return float64(v)
	case string:
		var f float64
		fmt.Sscan(v, &f)
		return f
	}
	return math.NaN()
}

func sameAggr(name string, got, want any) bool {
	if want == nil {
		if got == nil {
			return true
		}
		// The sum of no values is reported as 0.
		x, ok := numberOf(got)
		return name == "SUM" && ok && x == 0
	}
	x, ok := numberOf(got)
	if !ok {
		return false
	}
	w := want.(float64)
	return x == w || math.Abs(x-w) <= 1e-9*math.Max(1, math.Max(math.Abs(x), math.Abs(w)))
}

var groupStrings = []string{"a", "b", "A", "a,b", ",", "", "NULL", "null", "\"", "'", "a\"", "x y", "日本", "a, b", "\\", "\",\"", "nil", "<nil>", "b,", "a\nb", "0"}

func aggrValue(rng *rand.Rand, name string) any {
	switch rng.Intn(9) {
	case 0:
		return nil
	case 1:
		return float64(rng.Intn(2000)-1000) / 8
	case 2:
		return int64(rng.Intn(1000000) - 500000)
	case 3:
		return float32(rng.Intn(100)) / 4
	case 4:
		return uint8(rng.Intn(256))
	case 5:
		return fmt.Sprint(rng.Intn(1000) - 500)
	case 6:
		if name == "COUNT" {
			return []any{"text", "", true, "x,y"}[rng.Intn(4)]
		}
		return int32(-rng.Intn(5))
	case 7:
		if name == "MIN" || name == "MAX" {
			return []float64{math.MaxFloat64, -math.MaxFloat64, 1e308, -1e308, 5e-324, math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.Copysign(0, -1)}[rng.Intn(10)]
		}
		return math.Copysign(0, float64(rng.Intn(2)*2-1))
	}
	return rng.Intn(200) - 100
}

func newAggregator(way int, name, arg string, groups []string) (fn.Aggregator, error) {
	args := []string{arg}
	if way == 0 {
		return fn.NewAggregatorForName(name, fn.WithAggregatorArguments(args), fn.WithAggregatorGroupBys(groups...))
	}
	switch name {
	case "COUNT":
		return fn.NewCount(fn.WithCountArguments(args), fn.WithCountGroupBys(groups...))
	case "SUM":
		return fn.NewSum(fn.WithSumArguments(args), fn.WithSumGroupBys(groups...))
	case "AVG":
		return fn.NewAvg(fn.WithAvgArguments(args), fn.WithAvgGroupBys(groups...))
	case "MIN":
		return fn.NewMin(fn.WithMinArguments(args), fn.WithMinGroupBys(groups...))
	}
	return fn.NewMax(fn.WithMaxArguments(args), fn.WithMaxGroupBys(groups...))
}

// drainFn reads a result set of the function package to its end.
func drainFn(rs fn.ResultSet) ([][]any, error) {
	rows := [][]any{}
	for rs.Next() {
		row, err := rs.Row()
		if err != nil {
			return nil, err
		}
		rows = append(rows, append([]any{}, row...))
		if 100000 < len(rows) {
			return nil, fmt.Errorf("no end of the rows")
		}
	}
	return rows, nil
}

// judgeAggr compares the rows of a finalized aggregator with the model.
func judgeAggr(r *Run, desc func() string, m *aggrModel, rows [][]any) {
	keys, of := m.groups()
	if len(rows) != len(keys) {
		r.Fail("groups", "%d result rows instead of %d\nrows: %v\n%s", len(rows), len(keys), rows, desc())
		return
	}
	seen := map[string]bool{}
	for _, row := range rows {
		if len(row) != m.ngrp+1 {
			r.Fail("row", "row %v has %d values instead of %d\n%s", row, len(row), m.ngrp+1, desc())
			return
		}
		k := groupText(row[:m.ngrp])
		members, ok := of[k]
		if !ok || seen[k] {
			r.Fail("group values", "row %v: unknown or repeated group %s\n%s", row, k, desc())
			return
		}
		seen[k] = true
		if want := m.value(members); !sameAggr(m.name, row[m.ngrp], want) {
			r.Fail("aggregate", "%s(%s) of group %s = %T(%v), want %v\n%s", m.name, m.arg, k, row[m.ngrp], row[m.ngrp], want, desc())
			return
		}
	}
}

// compareGroup orders group values: NULL first, then by value.
func compareGroup(a, b []any) int {
	for i := range a {
		switch {
		case a[i] == nil && b[i] == nil:
			continue
		case a[i] == nil:
			return -1
		case b[i] == nil:
			return 1
		}
		switch x := a[i].(type) {
		case int:
			if y := b[i].(int); x != y {
				if x < y {
					return -1
				}
				return 1
			}
		case float64:
			if y := b[i].(float64); x != y {
				if x < y {
					return -1
				}
				return 1
			}
		case string:
			if c := strings.Compare(x, b[i].(string)); c != 0 {
				return c
			}
		}
	}
	return 0
}

func checkAggregates(r *Run) {
	r.Rule = "random histories of feeding (as lists, rows, objects and maps), rejected rows, resets with other groupings and intermediate results, over all aggregates, against recomputation from the accepted rows; the same rows are fed again in another order; non-trivial: distinct histories"
	names := []string{"COUNT", "SUM", "AVG", "MIN", "MAX"}
	// Keys: different combinations of values have different keys, equal ones the same; wrong counts are refused.
	r.Parallel("keys", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		n := 1 + rng.Intn(4)
		groups := []string{}
		for k := 0; k < n; k++ {
			groups = append(groups, fmt.Sprintf("%s%d", randName(rng, false), k))
		}
		pick := func() []any {
			out := []any{}
			for k := 0; k < n; k++ {
				switch rng.Intn(6) {
				case 0:
					out = append(out, nil)
				case 1:
					out = append(out, "NULL")
				default:
					out = append(out, groupStrings[rng.Intn(len(groupStrings))])
				}
			}
			return out
		}
		a, b := pick(), pick()
		if rng.Intn(3) == 0 {
			b = append([]any{}, a...)
			if rng.Intn(2) == 0 && 1 < n { // swapped
				b[0], b[n-1] = b[n-1], b[0]
			}
		}
		desc := fmt.Sprintf("group values %q and %q", a, b)
		r.Guard(desc, func() {
			ka, err := fn.NewGroupBySetKey(groups, a)
			kb, err2 := fn.NewGroupBySetKey(groups, b)
			if err != nil || err2 != nil || (ka == kb) != reflect.DeepEqual(a, b) {
				r.Fail("keys", "%s: %q %q (%v %v)", desc, ka, kb, err, err2)
			}
			if k, err := fn.NewGroupBySetKey(groups, a[:n-1]); err == nil {
				r.Fail("keys", "%d columns, %d values: %q", n, n-1, k)
			}
			if k, err := fn.NewGroupBySetKey(groups[:n-1], a); err == nil {
				r.Fail("keys", "%d columns, %d values: %q", n-1, n, k)
			}
			plain := []string{}
			for _, g := range groups[:rng.Intn(n+1)] {
				plain = append(plain, strings.ReplaceAll(g, ",", "_"))
			}
			if back := fn.NewGroupBysFromGroupBySet(fn.NewGroupBySet(plain...)); fmt.Sprintf("%q", back) != fmt.Sprintf("%q", plain) {
				r.Fail("keys", "the grouping columns %q come back as %q", plain, back)
			}
		})
		r.Ev("group keys")
		r.Case(desc)
	})
	r.Parallel("hist", r.N(8000, 200000), func(i int, rng *rand.Rand) {
		name := names[i%5]
		arg := "v"
		if name == "COUNT" && rng.Intn(2) == 0 {
			arg = "*"
		}
		pool := []string{"g1", "G2", "grp", "x"}
		pickGroups := func() []string {
			n := rng.Intn(4)
			return append([]string{}, pool[:n]...)
		}
		groups := pickGroups()
		// 0: strings, 1: ints; every group column has one type.
		kinds := []int{rng.Intn(3), rng.Intn(3), rng.Intn(3), rng.Intn(3)}
		spread := 1 + rng.Intn(6)
		manyGroups := i%200 == 0
		groupVal := func(k int) any {
			if rng.Intn(8) == 0 {
				return nil
			}
			if manyGroups {
				n := rng.Intn(1000)
				return []any{fmt.Sprintf("%s%d", groupStrings[n%len(groupStrings)], n), n - 500, float64(n) / 4}[kinds[k]]
			}
			if kinds[k] == 1 {
				return []int{0, 1, -1, 2, 10, 9, 100, -10}[rng.Intn(spread+2)]
			}
			if kinds[k] == 2 {
				return []float64{0.5, -0.5, 1e300, 0.25, -1e-300, 100.125, 3, 12}[rng.Intn(spread+2)]
			}
			if spread == 1 {
				return groupStrings[rng.Intn(len(groupStrings))]
			}
			return groupStrings[(rng.Intn(spread)*7+i)%len(groupStrings)]
		}
		var log []string
		desc := func() string {
			l := log
			if 60 < len(l) {
				l = l[len(l)-60:]
			}
			return "history: " + strings.Join(l, "; ")
		}
		r.Guard(name, func() {
			ag, err := newAggregator(rng.Intn(2), name, arg, groups)
			if err != nil {
				r.Fail("constructor", "%s(%s) group by %v: %v", name, arg, groups, err)
				return
			}
			log = append(log, fmt.Sprintf("new %s(%s) group by %q", name, arg, groups))
			m := &aggrModel{name: name, arg: arg, ngrp: len(groups)}
			if !strings.EqualFold(ag.Name(), name) || ag.Type() != fn.AggregateFunction || fmt.Sprint(ag.Arguments()) != fmt.Sprint([]string{arg}) {
				r.Fail("constructor", "%s(%s) reports name %q, type %v, arguments %q", name, arg, ag.Name(), ag.Type(), ag.Arguments())
			}
			reportsGroups := func() {
				got, ok := ag.GroupBys()
				if ok != (0 < len(groups)) || len(got) != len(groups) || 0 < len(groups) && fmt.Sprint(got) != fmt.Sprint(groups) {
					r.Fail("grouping", "GroupBys() = %q, %v\n%s", got, ok, desc())
				}
			}
			reportsGroups()
			steps := 3 + rng.Intn(30)
			if i%100 == 0 {
				steps = 400
			}
			feed := func(ag fn.Aggregator, row []any, way int) error {
				// What is fed belongs to the caller, who uses it for the next row.
				scribble := func(row []any) {
					for k := range row {
						row[k] = "scribbled"
					}
				}
				switch way {
				case 0:
					list := append([]any{}, row...)
					defer scribble(list)
					if x, ok := ag.(interface{ AggregateRow(row []any) error }); ok && rng.Intn(3) == 0 {
						return x.AggregateRow(list)
					}
					return ag.Aggregate(list)
				case 1:
					list := fn.NewRow(append([]any{}, row...)...)
					defer scribble(list)
					return ag.Aggregate(list)
				}
				obj := map[string]any{"other": 12, "zz": "abc"}
				for k, g := range groups {
					obj[g] = row[k]
				}
				if arg != "*" {
					obj[arg] = row[len(row)-1]
				}
				defer func() {
					for k := range obj {
						obj[k] = "scribbled"
					}
				}()
				if way == 2 {
					if x, ok := ag.(interface{ AggregateMap(m map[string]any) error }); ok && rng.Intn(3) == 0 {
						return x.AggregateMap(obj)
					}
					return ag.Aggregate(obj)
				}
				return ag.Aggregate(fn.NewMapWithMap(obj))
			}
			check := func(opts ...any) [][]any {
				rs, err := ag.Finalize(opts...)
				if err != nil {
					r.Fail("finalize", "%v\n%s", err, desc())
					return nil
				}
				rows, err := drainFn(rs)
				if err != nil {
					r.Fail("rows", "%v\n%s", err, desc())
					return nil
				}
				judgeAggr(r, desc, m, rows)
				r.Ev("results compared")
				return rows
			}
			for s := 0; s < steps; s++ {
				k := rng.Intn(24)
				if manyGroups && k < 2 && rng.Intn(50) != 0 {
					k = 23
				}
				switch {
				case k == 0: // reset, maybe with another grouping
					switch rng.Intn(5) {
					case 3: // a name that is not there groups by nothing, as GROUP BY of a query without one
						groups = nil
						err = ag.Reset(fn.GroupBy(""))
						log = append(log, "reset group by \"\"")
					case 4:
						groups = []string{pool[rng.Intn(len(pool))]}
						err = ag.Reset([]fn.GroupBy{"", groups[0], ""})
						log = append(log, fmt.Sprintf("reset group by %q and empty names", groups))
					case 0:
						err = ag.Reset()
						log = append(log, "reset")
					case 1:
						groups = pickGroups()
						err = ag.Reset(groups)
						log = append(log, fmt.Sprintf("reset group by %q", groups))
					case 2:
						groups = []string{pool[rng.Intn(len(pool))]}
						err = ag.Reset(groups[0])
						log = append(log, fmt.Sprintf("reset group by %q", groups))
					}
					if err != nil {
						r.Fail("reset", "%v\n%s", err, desc())
						return
					}
					m.rows, m.ngrp = nil, len(groups)
					reportsGroups()
					r.Ev("reset")
				case k == 1:
					check()
				case k == 2 || k == 3: // a row that has to be refused
					row := []any{}
					for g := range groups {
						row = append(row, groupVal(g))
					}
					row = append(row, 5)
					var bad any
					switch rng.Intn(5) {
					case 0:
						bad = append(row, 7)
					case 1:
						bad = row[:len(row)-1]
					case 2:
						bad = []any{"scalar", 5, nil, struct{}{}}[rng.Intn(4)]
					case 3:
						if name == "COUNT" {
							continue
						}
						row[len(row)-1] = []any{"abc", struct{}{}, []int{1}, "", "1x"}[rng.Intn(5)]
						bad = row
					case 4:
						obj := map[string]any{"other": 1}
						for k, g := range groups {
							obj[g] = row[k]
						}
						if arg == "*" && len(groups) == 0 {
							continue
						}
						if arg == "*" {
							delete(obj, groups[rng.Intn(len(groups))])
						}
						bad = obj // the value column is missing
					}
					log = append(log, fmt.Sprintf("refused? %v", bad))
					if err := ag.Aggregate(bad); err == nil {
						r.Fail("bad row accepted", "%v\n%s", bad, desc())
						return
					}
					r.Ev("rows refused")
				default:
					row := []any{}
					for g := range groups {
						row = append(row, groupVal(indexOf(pool, groups[g])))
					}
					v := aggrValue(rng, name)
					way := rng.Intn(4)
					if arg == "*" && 2 <= way {
						v = nil
					}
					row = append(row, v)
					log = append(log, fmt.Sprintf("feed %v", row))
					if err := feed(ag, row, way); err != nil {
						r.Fail("row refused", "%v: %v\n%s", row, err, desc())
						return
					}
					m.rows = append(m.rows, row)
					r.Ev("rows fed")
				}
			}
			check()
			// Ordered results.
			for _, ord := range []fn.OrderBy{fn.OrderByAsc, fn.OrderByDesc} {
				rows := check(ord)
				if m.ngrp == 0 {
					continue
				}
				for k := 1; k < len(rows); k++ {
					c := compareGroup(rows[k-1][:m.ngrp], rows[k][:m.ngrp])
					if ord == fn.OrderByDesc {
						c = -c
					}
					if 0 < c {
						r.Fail("order", "order %v: %v before %v\n%s", ord, rows[k-1], rows[k], desc())
						break
					}
				}
				r.Ev("ordered results")
			}
			// The same rows in another order give the same results.
			other, err := newAggregator(rng.Intn(2), name, arg, groups)
			if err != nil {
				r.Fail("constructor", "%v", err)
				return
			}
			perm := rng.Perm(len(m.rows))
			for _, k := range perm {
				if err := feed(other, m.rows[k], 0); err != nil {
					r.Fail("row refused", "in another order %v: %v\n%s", m.rows[k], err, desc())
					return
				}
			}
			rs, err := other.Finalize()
			if err != nil {
				r.Fail("finalize", "%v", err)
				return
			}
			rows, err := drainFn(rs)
			if err != nil {
				r.Fail("rows", "%v", err)
				return
			}
			judgeAggr(r, desc, m, rows)
		})
		r.Case(desc())
	})
}

func indexOf(ss []string, s string) int {
	for i, x := range ss {
		if x == s {
			return i
		}
	}
	return 0
}
