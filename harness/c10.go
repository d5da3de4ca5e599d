package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
)

func init() { register("C10", checkBinding) }

type bindValue struct {
	v      any
	text   string // the literal in place
	isStr  bool
	report string
}

func randBindValue(rng *rand.Rand, long bool) bindValue {
	switch rng.Intn(16) {
	case 14:
		s := randString(rng, long)
		return bindValue{[]byte(s), quoted(s), true, s}
	case 15:
		if rng.Intn(2) == 0 {
			f := []float32{0.1, -3.4e38, 1e-45, 16777216, 1.1, -0.3, 1e10}[rng.Intn(7)]
			s := strconv.FormatFloat(float64(f), 'g', -1, 32)
			return bindValue{f, s, false, s}
		}
		t := time.Date(1970+rng.Intn(100), time.Month(1+rng.Intn(12)), 1+rng.Intn(28), rng.Intn(24), rng.Intn(60), rng.Intn(60), []int{1, 10, 999, 1000, 100000, 500000, 999999, 1 + rng.Intn(999999), 1 + rng.Intn(999)}[rng.Intn(9)]*1000, randZone(rng))
		s := t.Format("2006-01-02 15:04:05.000000")
		return bindValue{t, quoted(s), true, s}
	case 0:
		n := rng.Intn(2000) - 1000
		return bindValue{n, strconv.Itoa(n), false, strconv.Itoa(n)}
	case 1:
		n := int64(rng.Uint64())
		return bindValue{n, strconv.FormatInt(n, 10), false, strconv.FormatInt(n, 10)}
	case 2:
		n := rng.Uint64()
		return bindValue{n, strconv.FormatUint(n, 10), false, strconv.FormatUint(n, 10)}
	case 3:
		f := []float64{0, 1.5, -2.25, 1e300, 1e-300, math.Pi, 123456789.125, -0.1, math.MaxFloat64, 1e21, 1e6, 3}[rng.Intn(12)]
		s := strconv.FormatFloat(f, 'g', -1, 64)
		return bindValue{f, s, false, s}
	case 4:
		switch rng.Intn(7) {
		case 0:
			return bindValue{int8(-128), "-128", false, "-128"}
		case 1:
			return bindValue{uint8(255), "255", false, "255"}
		case 2:
			return bindValue{int16(-32768), "-32768", false, "-32768"}
		case 3:
			return bindValue{uint16(65535), "65535", false, "65535"}
		case 4:
			return bindValue{int32(math.MinInt32), "-2147483648", false, "-2147483648"}
		case 5:
			return bindValue{uint32(math.MaxUint32), "4294967295", false, "4294967295"}
		}
		return bindValue{float32(0.5), "0.5", false, "0.5"}
	case 5:
		b := rng.Intn(2) == 0
		return bindValue{b, strconv.FormatBool(b), false, strconv.FormatBool(b)}
	case 6:
		return bindValue{nil, "NULL", false, "NULL"}
	case 7:
		t := time.Date(1970+rng.Intn(100), time.Month(1+rng.Intn(12)), 1+rng.Intn(28), rng.Intn(24), rng.Intn(60), rng.Intn(60), 0, randZone(rng))
		s := t.Format("2006-01-02 15:04:05")
		return bindValue{t, quoted(s), true, s}
	case 8:
		s := []string{"?", "$1", "$2", "?1", "' OR '1'='1", "'; DROP TABLE t; --", "a'b", "''", "'", "--", "/*", "*/", "NULL", "1", "", "\\", "\\'", "$1$2$3", "? ? ?", ":name", "x' AND k = ?", "\"", "`", "%", "\n"}[rng.Intn(25)]
		return bindValue{s, quoted(s), true, s}
	}
	s := randString(rng, long)
	return bindValue{s, quoted(s), true, s}
}

// randZone: a time is bound as its own clock shows it.
func randZone(rng *rand.Rand) *time.Location {
	if rng.Intn(2) == 0 {
		return time.UTC
	}
	return time.FixedZone("Z", []int{9 * 3600, -8 * 3600, 5*3600 + 1800, -12 * 3600, 14 * 3600, 1}[rng.Intn(6)])
}

func checkBinding(r *Run) {
	r.Rule = "queries with sequential or numbered placeholders (repeated, permuted, more than nine, next to other tokens, beside placeholders inside strings, comments and quoted names) and hostile parameters; the bound statements must equal those of the query with hand-written literals in place, and the values must be reported unchanged; non-trivial: distinct queries with parameters"
	r.Parallel("bind", r.N(6000, 120000), func(i int, rng *rand.Rand) {
		style := rng.Intn(4) // 0: ?  1: $n  2: ?n  3: all of them
		nparams := rng.Intn(5)
		if i%10 == 0 {
			nparams = 9 + rng.Intn(16)
		}
		vals := make([]bindValue, nparams)
		for j := range vals {
			vals[j] = randBindValue(rng, i%50 == 0)
		}
		// The slots of the statement: each is either a fixed literal or a placeholder of a parameter.
		type slot struct {
			ph, lit string
			param   int
		}
		slots := []slot{}
		used := make([]bool, nparams)
		fixed := []string{"'a?b'", "'$1'", "'?'", "1", "'x'", "NULL", "'it''s ?'", "'?1 $2'", "/* ? $1 */ 5", "-- ? $1 '\n 6"}
		addFixed := func() {
			for rng.Intn(3) == 0 {
				f := fixed[rng.Intn(len(fixed))]
				slots = append(slots, slot{f, f, -1})
			}
		}
		order := rng.Perm(nparams)
		if style == 0 {
			for k := range order {
				order[k] = k
			}
		}
		addFixed()
		marks := 0 // question marks so far
		for _, p := range order {
			ph := "?"
			switch style {
			case 1:
				ph = "$" + strconv.Itoa(p+1)
			case 2:
				ph = "?" + strconv.Itoa(p+1)
			case 3:
				ph = []string{"$", "?"}[rng.Intn(2)] + strconv.Itoa(p+1)
				if rng.Intn(2) == 0 && marks < nparams { // the next question mark, of its own count
					slots = append(slots, slot{"?", vals[marks].text, marks})
					marks++
				}
			}
			slots = append(slots, slot{ph, vals[p].text, p})
			used[p] = true
			if style != 0 && rng.Intn(4) == 0 { // the same parameter again
				slots = append(slots, slot{ph, vals[p].text, p})
			}
			addFixed()
		}
		extra := 0 // placeholders without a parameter stay as they are
		if rng.Intn(8) == 0 {
			extra = 1
			ph := []string{"?", "$" + strconv.Itoa(nparams+1+rng.Intn(100)), "?" + strconv.Itoa(nparams+1+rng.Intn(100))}[style%3]
			if style == 3 {
				ph = "$" + strconv.Itoa(nparams+1)
			}
			slots = append(slots, slot{ph, ph, -1})
		}
		if len(slots) == 0 {
			slots = append(slots, slot{"7", "7", -1})
		}
		build := func(get func(s slot) string) string {
			brng := rand.New(rand.NewSource(int64(i)))
			names := []string{"c%d", "\"q?%d\"", "`b$1_%d`", "[z?%d]"}
			name := func(k int) string {
				n := 0
				if brng.Intn(5) == 0 {
					n = brng.Intn(len(names))
				}
				return fmt.Sprintf(names[n], k)
			}
			switch i % 4 {
			case 0: // one row
				cols, v := []string{}, []string{}
				for k, s := range slots {
					cols = append(cols, name(k))
					v = append(v, get(s))
				}
				return "INSERT INTO t (" + strings.Join(cols, ",") + ") VALUES (" + strings.Join(v, ",") + ")"
			case 1: // one column
				v := []string{}
				for _, s := range slots {
					v = append(v, "("+get(s)+")")
				}
				return "INSERT INTO t (a) VALUES " + strings.Join(v, ", ")
			case 2:
				sets := []string{}
				for k, s := range slots[1:] {
					sets = append(sets, name(k)+"="+get(s))
				}
				if len(sets) == 0 {
					return "DELETE FROM t WHERE k=" + get(slots[0])
				}
				// The condition comes first in the slot order, so it is only last in the text for numbered placeholders.
				return "UPDATE t SET f0=" + get(slots[0]) + "," + strings.Join(sets, ",")
			}
			// Several statements with conditions.
			v := []string{}
			for k, s := range slots {
				switch k % 3 {
				case 0:
					v = append(v, "DELETE FROM t WHERE "+name(k)+"="+get(s))
				case 1:
					v = append(v, "SELECT a FROM t WHERE k < "+get(s)+" AND j = 'x?'")
				case 2:
					v = append(v, "UPDATE t SET "+name(k)+" = "+get(s)+" WHERE j > 'x$1'")
				}
			}
			return strings.Join(v, ";")
		}
		q := build(func(s slot) string { return s.ph })
		inPlace := build(func(s slot) string { return s.lit })
		params := stmt.BindParams{}
		for _, v := range vals {
			params = append(params, stmt.NewBindParam(v.v))
		}
		desc := fmt.Sprintf("query: %q params: %q", q, fmt.Sprint(valuesOf(vals)...))
		r.Guard(desc, func() {
			want, err := Parse(inPlace)
			if err != nil {
				r.Fail("in place", "the query with literals in place is rejected: %v\n%q", err, inPlace)
				return
			}
			bs := stmt.NewBindStatement(stmt.WithBindStatementQuery(q), stmt.WithBindStatementParams(params))
			got, err := bs.Statements()
			if i%8 < 2 && err == nil { // binding again gives the same
				first := DumpAll(got)
				if got, err = bs.Statements(); err == nil && !sameLines(first, DumpAll(got)) {
					r.Fail("binding again", "%s\n%s", desc, diffLines(first, DumpAll(got)))
				}
			}
			if err != nil {
				r.Fail("binding rejected", "%s\nerror: %v", desc, err)
				return
			}
			dw, dg := DumpAll(want), DumpAll(got)
			if !sameLines(dw, dg) {
				r.Fail("binding", "%s\nin place: %q\n%s", desc, inPlace, diffLines(dw, dg))
			}
			if i%4 == 0 { // reported back
				row := got[0].(query.Insert).Values()[0]
				for k, s := range slots {
					if s.param < 0 || len(row) <= k {
						continue
					}
					v := vals[s.param]
					rep := fmt.Sprint(row[k].Value())
					if row[k].Value() == nil {
						rep = "NULL"
					}
					if v.isStr != (row[k].ValueType() == query.StringLiteral) || !strings.EqualFold(rep, v.report) && !v.isStr || v.isStr && rep != v.report {
						r.Fail("reported value", "%s\nparameter %d %q reported as %q (string: %v)", desc, s.param+1, v.report, rep, row[k].ValueType() == query.StringLiteral)
					}
					r.Ev("values reported back")
				}
			}
		})
		r.EvN("parameters bound", nparams)
		r.EvN("placeholders left unbound", extra)
		if 0 < nparams {
			r.Case(desc)
		} else {
			r.Case("")
		}
	})
	// Placeholders written next to other tokens, and comments up to the end of the query.
	r.Parallel("adjacent", r.N(2000, 40000), func(i int, rng *rand.Rand) {
		k := adjacent[i%len(adjacent)]
		tail := []string{"", "", " -- ?", " -- it's ? $1", "--?", " /* ? */", " -- ?\n", " /* ? $9 */ -- $1 ?"}[rng.Intn(8)]
		n := strings.Count(k[0], "?")
		vals := make([]bindValue, n)
		args := make([]any, n)
		params := stmt.BindParams{}
		for j := range vals {
			vals[j] = randBindValue(rng, false)
			args[j] = vals[j].text
			params = append(params, stmt.NewBindParam(vals[j].v))
		}
		q := k[0]
		if rng.Intn(2) == 0 && !strings.ContainsAny(q, "$") {
			for j := 1; j <= n; j++ {
				q = strings.Replace(q, "?", "$"+strconv.Itoa(j), 1)
			}
			if strings.Contains(k[0], "?e") { // "$1e5" is not a numbered placeholder for everyone
				q = k[0]
			}
		}
		inPlace := fmt.Sprintf(k[1], args...)
		q += tail
		desc := fmt.Sprintf("query: %q params: %q", q, fmt.Sprint(valuesOf(vals)...))
		r.Guard(desc, func() {
			want, werr := Parse(inPlace)
			got, gerr := stmt.NewBindStatement(stmt.WithBindStatementQuery(q), stmt.WithBindStatementParams(params)).Statements()
			if (werr == nil) != (gerr == nil) {
				r.Fail("adjacent tokens", "%s\nin place: %q error %v\nbound: error %v", desc, inPlace, werr, gerr)
				return
			}
			if werr == nil && (!sameLines(DumpAll(want), DumpAll(got)) || texts(want) != texts(got)) {
				r.Fail("adjacent tokens", "%s\nin place: %q\nwant: %s\ngot: %s\n%s", desc, inPlace, texts(want), texts(got), diffLines(DumpAll(want), DumpAll(got)))
			}
			if werr == nil {
				r.Ev("adjacent placeholders bound")
			}
			// One parameter more has no placeholder: those in a comment do not count.
			_, err := stmt.NewBindStatement(stmt.WithBindStatementQuery(q), stmt.WithBindStatementParams(append(params[:n:n], stmt.NewBindParam(1)))).Statements()
			if err == nil {
				r.Fail("parameter without placeholder accepted", "%s and one parameter more", desc)
			}
		})
		r.Case(desc)
	})
	// A parameter without a placeholder is an error.
	r.Parallel("missing", r.N(800, 10000), func(i int, rng *rand.Rand) {
		n := rng.Intn(4)
		m := n + 1 + rng.Intn(3)
		v := []string{"'?'", "1 /* ? $1 $2 $3 $4 */", "'$1 $2 $3 $4'"}
		style := rng.Intn(3)
		skip := -1
		for j := 0; j < n; j++ {
			v = append(v, []string{"?", "$" + strconv.Itoa(j+1), "?" + strconv.Itoa(j+1)}[style])
		}
		if style != 0 && 0 < n && rng.Intn(2) == 0 { // a gap in the numbers
			skip = rng.Intn(n)
			v[3+skip] = []string{"0", "$0", "?0", "$00"}[rng.Intn(4)]
			m = n
		}
		rng.Shuffle(len(v), func(a, b int) { v[a], v[b] = v[b], v[a] })
		cols := []string{}
		for j := range v {
			cols = append(cols, fmt.Sprintf("\"c?$1_%d\"", j))
		}
		q := "INSERT INTO t (" + strings.Join(cols, ", ") + ") VALUES (" + strings.Join(v, ", ") + ")"
		params := stmt.BindParams{}
		strs := []string{}
		for j := 0; j < m; j++ {
			b := randBindValue(rng, false)
			if rng.Intn(3) == 0 {
				b = bindValue{"? $1 $2 $3 $4 $5 $6 $7", "", true, ""}
			}
			params = append(params, stmt.NewBindParam(b.v))
			strs = append(strs, fmt.Sprint(b.v))
		}
		desc := fmt.Sprintf("query: %q params: %q", q, strs)
		r.Guard(desc, func() {
			stmts, err := stmt.NewBindStatement(stmt.WithBindStatementQuery(q), stmt.WithBindStatementParams(params)).Statements()
			if err == nil {
				r.Fail("parameter without placeholder accepted", "%s\ngot: %s", desc, texts(stmts))
			} else if !errors.Is(err, stmt.ErrNotFound) {
				r.Fail("error kind", "%s\nerror: %v", desc, err)
			}
		})
		r.Ev("parameters without placeholder")
		r.Case(desc)
	})
	// The parameters do not make invalid SQL valid or hide its rejection.
	r.Parallel("invalid", r.N(300, 4000), func(i int, rng *rand.Rand) {
		q := "DELETE FROM t WHERE a = ? ; " + invalidTexts[rng.Intn(len(invalidTexts))]
		desc := fmt.Sprintf("query: %q", q)
		r.Guard(desc, func() {
			stmts, err := stmt.NewBindStatement(stmt.WithBindStatementQuery(q), stmt.WithBindStatementParams(stmt.BindParams{stmt.NewBindParam(randBindValue(rng, false).v)})).Statements()
			if err == nil {
				r.Fail("invalid query accepted", "%s\ngot: %s", desc, texts(stmts))
			} else if len(stmts) != 0 {
				r.Fail("invalid query", "%s\nstatements next to the error %v", desc, err)
			}
		})
		r.Ev("invalid queries refused")
		r.Case(desc)
	})
	for _, f := range []any{math.NaN(), math.Inf(1), math.Inf(-1), float32(math.Inf(1))} {
		r.Guard(fmt.Sprint(f), func() {
			stmts, err := stmt.NewBindStatement(stmt.WithBindStatementQuery("INSERT INTO t (a) VALUES (?)"), stmt.WithBindStatementParams(stmt.BindParams{stmt.NewBindParam(f)})).Statements()
			if err == nil {
				r.Fail("no literal", "%v has no literal but gave %s", f, texts(stmts))
			}
		})
		r.Case(fmt.Sprint("no literal ", f))
	}
}

// adjacent holds queries with placeholders next to other tokens, and how the literals are written in place.
var adjacent = [][2]string{
	{"UPDATE t SET a = a-?", "UPDATE t SET a = a - %s"},
	{"UPDATE t SET a = b-?,c=? WHERE d=?", "UPDATE t SET a = b - %s , c = %s WHERE d = %s"},
	{"SELECT a-? FROM t", "SELECT a - %s FROM t"},
	{"SELECT ?-? FROM t", "SELECT %s - %s FROM t"},
	{"SELECT -? FROM t", "SELECT - %s FROM t"},
	{"SELECT ?e5 FROM t", "SELECT %s e5 FROM t"},
	{"SELECT ?x1F FROM t", "SELECT %s x1F FROM t"},
	{"SELECT ?'b' FROM t", "SELECT %s 'b' FROM t"},
	{"SELECT 'a'?FROM t", "SELECT 'a' %s FROM t"},
	{"SELECT x?FROM t", "SELECT x %s FROM t"},
	{"SELECT a FROM t WHERE b=?AND c=?", "SELECT a FROM t WHERE b = %s AND c = %s"},
	{"SELECT a FROM t WHERE b<?OR c>=?ORDER BY a", "SELECT a FROM t WHERE b < %s OR c >= %s ORDER BY a"},
	{"SELECT CASE WHEN a IS NULL THEN?ELSE?END FROM t", "SELECT CASE WHEN a IS NULL THEN %s ELSE %s END FROM t"},
	{"SELECT a FROM t WHERE a IN(?,?)", "SELECT a FROM t WHERE a IN ( %s , %s )"},
	{"SELECT a FROM t WHERE a BETWEEN?AND?", "SELECT a FROM t WHERE a BETWEEN %s AND %s"},
	{"DELETE FROM t WHERE a LIKE?", "DELETE FROM t WHERE a LIKE %s"},
	{"DELETE FROM t WHERE a=-?", "DELETE FROM t WHERE a = - %s"},
	{"INSERT INTO t (a,b) VALUES(?,?),(?,-?)", "INSERT INTO t (a,b) VALUES ( %s , %s ) , ( %s , - %s )"},
	{"INSERT INTO t (a) VALUES(?||?)", "INSERT INTO t (a) VALUES ( %s || %s )"},
	{"INSERT INTO t (a) VALUES(x'00'),(?)", "INSERT INTO t (a) VALUES ( x'00' ) , ( %s )"},
	{"DELETE FROM t WHERE a=?;DELETE FROM t WHERE a=?;", "DELETE FROM t WHERE a = %s ; DELETE FROM t WHERE a = %s ;"},
}

func valuesOf(vals []bindValue) []any {
	out := []any{}
	for _, v := range vals {
		out = append(out, v.v)
	}
	return out
}
