package main

import (
	"fmt"
	"math/rand"
	"slices"
	"strconv"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() { register("C06", checkKept) }

// xgen writes arbitrary expressions of the grammar, most of them without a structured representation.
type xgen struct{ *rand.Rand }

func (x xgen) lit() string {
	for {
		g := &G{Rand: x.Rand}
		g.literal()
		// A number that starts or ends with a dot may be written next to a word, where the monitor's tokenizer does not split.
		if t := g.Text(); strings.Contains(t, "'") || !strings.HasSuffix(t, ".") && !strings.HasPrefix(strings.TrimLeft(t, "+- "), ".") {
			return t
		}
	}
}

func (x xgen) col() string {
	n := randName(x.Rand, false)
	switch x.Intn(10) {
	case 0:
		return "`" + n + "`"
	case 1:
		return "\"" + n + "\""
	case 2:
		return "t1 . " + n
	}
	return n
}

func (x xgen) cmp() string {
	ops := []string{"=", "!=", "<>", "<", "<=", ">", ">="}
	return randName(x.Rand, false) + " " + ops[x.Intn(len(ops))] + " " + x.lit()
}

func (x xgen) list(n int, f func() string) string {
	strs := []string{}
	for i := 0; i < n; i++ {
		strs = append(strs, f())
	}
	return strings.Join(strs, " , ")
}

func (x xgen) expr(depth int) string {
	if depth <= 0 {
		switch x.Intn(3) {
		case 0:
			return x.lit()
		case 1:
			return x.col()
		}
		return x.cmp()
	}
	sub := func() string { return x.expr(depth - 1) }
	switch x.Intn(18) {
	case 0:
		return x.cmp()
	case 1:
		return x.cmp() + " AND " + x.cmp()
	case 2:
		return x.cmp() + " OR " + x.cmp()
	case 3:
		return "( " + sub() + " )"
	case 4:
		return "NOT " + sub()
	case 5:
		return x.col() + " BETWEEN " + x.lit() + " AND " + x.lit()
	case 6:
		return x.col() + " NOT BETWEEN " + x.lit() + " AND " + x.lit()
	case 7:
		return x.col() + []string{" IN ", " NOT IN "}[x.Intn(2)] + "( " + x.list(1+many(x.Rand, 4), x.lit) + " )"
	case 8:
		return x.col() + []string{" LIKE ", " NOT LIKE ", " GLOB ", " REGEXP ", " MATCH "}[x.Intn(5)] + x.lit()
	case 9:
		return x.col() + []string{" IS NULL", " IS NOT NULL", " ISNULL", " NOTNULL", " NOT NULL"}[x.Intn(5)]
	case 10:
		args := 0
		return []string{"ABS", "f", "LOWER", "COALESCE"}[x.Intn(4)] + "( " + x.list(1+many(x.Rand, 3), func() string {
			if args++; 3 < args {
				return x.col()
			}
			return sub()
		}) + " )"
	case 11:
		return []string{"", "EXISTS ", "NOT EXISTS "}[x.Intn(3)] + "( SELECT " + x.col() + " FROM " + randName(x.Rand, false) + " WHERE " + sub() + " )"
	case 12:
		return x.col() + " IN ( SELECT " + x.col() + " FROM " + randName(x.Rand, false) + " )"
	case 13:
		return "CASE WHEN " + sub() + " THEN " + x.lit() + " ELSE " + x.lit() + " END"
	case 14:
		return x.col() + " " + []string{"||", "<<", ">>", "&", "|", "==", "+", "-", "*", "/", "%"}[x.Intn(11)] + " " + x.lit()
	case 15:
		return "CAST ( " + x.col() + " AS INT )"
	case 16:
		return "( " + x.cmp() + " , " + x.cmp() + " )"
	}
	return x.cmp() + " COLLATE NOCASE"
}

// writtenIn decides whether the rendered texts say everything the input says.
func writtenIn(r *Run, input string, nstmts int, cond string, stmts []query.Statement, required []string) {
	if len(stmts) != nstmts {
		r.Fail("statement count", "%d statements written, %d returned without an error\ninput: %s\ngot: %s", nstmts, len(stmts), input, texts(stmts))
		return
	}
	all := []string{}
	for _, s := range stmts {
		all = append(all, lexSQL(s.String())...)
	}
	if cond != "" {
		has := false
		for _, s := range stmts {
			if c, ok := s.(interface{ HasConditions() bool }); ok && c.HasConditions() {
				has = true
			}
			if w, ok := s.(interface{ Where() query.Condition }); ok && w.Where() != nil && w.Where().HasConditions() {
				has = true
			}
		}
		if !has {
			r.Fail("condition dropped", "the statement acts without its condition\ninput: %s\ngot: %s", input, texts(stmts))
			return
		}
		if !containsSeq(all, lexSQL(cond)) {
			r.Fail("condition changed", "input: %s\ncondition: %s\ngot: %s", input, cond, texts(stmts))
			return
		}
	}
	if m := missingTokens(required, all, map[string]bool{"AS": true, ";": true, "ASC": true}); 0 < len(m) {
		r.Fail("dropped", "not represented: %v\ninput: %s\ngot: %s", m, input, texts(stmts))
	}
}

func texts(stmts []query.Statement) string {
	strs := []string{}
	for _, s := range stmts {
		strs = append(strs, s.String())
	}
	return strings.Join(strs, " ; ")
}

func checkKept(r *Run) {
	r.Rule = "statements with arbitrary grammar expressions as conditions and values, clauses and whole statements the library has no structure for, alone and inside lists; accepted inputs must render every written token with the condition contiguous, or be rejected; non-trivial: distinct inputs; events count accepted and rejected ones"
	one := func(kind, text string, n int, cond string, required []string) {
		r.Guard(text, func() {
			stmts, err := Parse(text)
			if err != nil {
				r.Ev(kind + " rejected")
				if 0 < len(stmts) {
					r.Fail("error with statements", "input: %s\nerror %v with %d statements", text, err, len(stmts))
				}
				return
			}
			r.Ev(kind + " kept")
			writtenIn(r, text, n, cond, stmts, required)
		})
		r.Case(text)
	}
	r.Parallel("cond", r.N(6000, 150000), func(i int, rng *rand.Rand) {
		x := xgen{rng}
		cond := x.expr(rng.Intn(4))
		var text string
		switch rng.Intn(3) {
		case 0:
			text = "DELETE FROM " + randName(rng, false) + " WHERE " + cond
		case 1:
			text = "UPDATE " + randName(rng, false) + " SET " + randName(rng, false) + " = " + x.lit() + " WHERE " + cond
		case 2:
			text = "SELECT " + randName(rng, false) + " FROM " + randName(rng, false) + " WHERE " + cond
			if rng.Intn(2) == 0 {
				text += " ORDER BY " + randName(rng, false) + " DESC LIMIT " + strconv.Itoa(1+rng.Intn(50))
			}
		}
		one("condition", text, 1, cond, lexSQL(text))
	})
	r.Parallel("value", r.N(4000, 100000), func(i int, rng *rand.Rand) {
		x := xgen{rng}
		val := func() string {
			return x.expr(rng.Intn(3))
		}
		n := 1 + rng.Intn(4)
		cols := []string{}
		for j := 0; j < n; j++ {
			cols = append(cols, fmt.Sprintf("%s_%d", randName(rng, false), j))
		}
		var text, cond string
		switch rng.Intn(5) {
		case 0:
			text = "SELECT " + x.list(n, val) + " FROM " + randName(rng, false)
		case 1, 2:
			text = "INSERT INTO " + randName(rng, false) + " ( " + strings.Join(cols, " , ") + " ) VALUES "
			rows := 1 + rng.Intn(3)
			text += x.list(rows, func() string { return "( " + x.list(n, val) + " )" })
		default:
			sets := []string{}
			for _, c := range cols {
				sets = append(sets, c+" = "+val())
			}
			cond = x.cmp()
			text = "UPDATE " + randName(rng, false) + " SET " + strings.Join(sets, " , ") + " WHERE " + cond
		}
		one("value", text, 1, cond, lexSQL(text))
	})
	// Numbers of values that do not fit the column list.
	r.Parallel("arity", r.N(500, 5000), func(i int, rng *rand.Rand) {
		x := xgen{rng}
		n, m := 1+rng.Intn(6), 1+rng.Intn(6)
		if n == m {
			m++
		}
		cols := []string{}
		for j := 0; j < n; j++ {
			cols = append(cols, fmt.Sprintf("c%d", j))
		}
		rows := []string{}
		for j, k := 0, rng.Intn(3); j < k; j++ {
			rows = append(rows, "( "+x.list(n, x.lit)+" )")
		}
		bad := rng.Intn(len(rows) + 1)
		rows = append(rows[:bad:bad], append([]string{"( " + x.list(m, x.lit) + " )"}, rows[bad:]...)...)
		text := "INSERT INTO t ( " + strings.Join(cols, " , ") + " ) VALUES " + strings.Join(rows, " , ")
		r.Guard(text, func() {
			if stmts, err := Parse(text); err == nil {
				r.Fail("values without column", "%d columns, a row with %d values\ninput: %s\ngot: %s", n, m, text, texts(stmts))
			}
		})
		r.Ev("arity mismatch")
		r.Case(text)
	})
	// Clauses and statements without a structure.
	r.Parallel("clause", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		x := xgen{rng}
		text, cond := x.clause(i)
		one("clause", text, 1, cond, lexSQL(text))
	})
	// Statements without a structure anywhere in a list.
	odd := []string{"PRAGMA foo = 1", "EXPLAIN SELECT a FROM t", "ANALYZE", "REINDEX", "ATTACH DATABASE 'x' AS y", "DETACH DATABASE y", "SAVEPOINT x", "RELEASE x", "ROLLBACK TO SAVEPOINT x", "CREATE VIEW v AS SELECT a FROM t",
		"CREATE TRIGGER tr BEFORE INSERT ON t BEGIN DELETE FROM u WHERE a = 1 ; END", "DROP VIEW v", "DROP TRIGGER x", "CREATE VIRTUAL TABLE v USING fts5 ( a )", "CREATE TABLE t AS SELECT a FROM u", "VALUES ( 1 , 2 )", "INSERT INTO t DEFAULT VALUES",
		"WITH c AS ( SELECT 1 ) SELECT a FROM c", "SELECT a FROM t GROUP BY a , b", "SELECT a FROM t LEFT JOIN u USING ( id )"}
	r.Parallel("list", r.N(1500, 30000), func(i int, rng *rand.Rand) {
		n := 1 + many(rng, 5)
		parts := []string{}
		classes := kInsert | kUpdate | kSelect | kDelete | kAdmin
		for j := 0; j < n; j++ {
			parts = append(parts, NewStmt(rng, classes, nil).Text())
		}
		if rng.Intn(3) == 0 { // nothing but statements of the dialect
			one("list", strings.Join(parts, " ; "), n, "", nil)
			return
		}
		at := rng.Intn(n + 1)
		parts = append(parts[:at:at], append([]string{odd[i%len(odd)]}, parts[at:]...)...)
		text := strings.Join(parts, " ; ")
		required := lexSQL(odd[i%len(odd)])
		one("list", text, n+1, "", required)
	})
	// Limits without a representation.
	for _, k := range []struct{ key, text, what string }{
		{"limit-0", "SELECT a FROM t LIMIT 0", "LIMIT 0"},
		{"limit-placeholder", "SELECT a FROM t LIMIT ?", "LIMIT ?"},
		{"offset-placeholder", "SELECT a FROM t LIMIT 10 OFFSET ?", "OFFSET ?"},
	} {
		r.Guard(k.text, func() {
			stmts, err := Parse(k.text)
			lost := err == nil && len(stmts) == 1 && !containsSeq(lexSQL(stmts[0].String()), lexSQL(k.what))
			r.Known(k.key, lost, "input: "+k.text+"\ngot: "+texts(stmts))
		})
		r.Case(k.text)
	}
}

const clauseKinds = 50

// clause writes a statement of the numbered kind with a clause the library may have no structure for, and gives its condition.
func (x xgen) clause(i int) (string, string) {
	n := func() string { return randName(x.Rand, false) }
	var text, cond string
	switch i % clauseKinds {
	case 0:
		text = "SELECT " + n() + " FROM " + n() + " GROUP BY " + n() + " HAVING COUNT ( * )"
	case 1:
		text = "SELECT " + n() + " FROM " + n() + " GROUP BY " + n() + " , " + n()
	case 2:
		text = "SELECT " + n() + " FROM " + n() + " " + []string{"", "LEFT ", "INNER ", "CROSS "}[x.Intn(4)] + "JOIN " + n() + " USING ( " + n() + " )"
	case 3:
		text = "SELECT " + n() + " FROM " + n() + " UNION ALL SELECT " + n() + " FROM " + n()
	case 4:
		text = "VALUES ( " + x.list(1+x.Intn(3), x.lit) + " )"
	case 5:
		text = "WITH " + n() + " AS ( SELECT " + n() + " FROM " + n() + " ) SELECT " + n() + " FROM " + n()
	case 6:
		cond = x.cmp()
		text = "WITH " + n() + " AS ( SELECT " + n() + " FROM " + n() + " ) DELETE FROM " + n() + " WHERE " + cond
	case 7:
		cond = x.cmp()
		text = "DELETE FROM " + n() + " WHERE " + cond + " RETURNING " + n()
	case 8:
		cond = x.cmp()
		text = "DELETE FROM " + n() + " WHERE " + cond + " LIMIT " + strconv.Itoa(1+x.Intn(9))
	case 9:
		text = "DELETE FROM " + n() + " ORDER BY " + n() + " LIMIT " + strconv.Itoa(1+x.Intn(9))
	case 10:
		cond = x.cmp()
		text = "UPDATE " + n() + " SET " + n() + " = " + x.lit() + " WHERE " + cond + " LIMIT " + strconv.Itoa(1+x.Intn(9))
	case 11:
		cond = x.cmp()
		text = "UPDATE " + n() + " SET " + n() + " = " + x.lit() + " FROM " + n() + " WHERE " + cond
	case 12:
		text = "UPDATE OR " + []string{"IGNORE", "REPLACE", "ABORT", "FAIL", "ROLLBACK"}[x.Intn(5)] + " " + n() + " SET " + n() + " = " + x.lit()
	case 13:
		text = "UPDATE " + n() + " SET ( " + n() + " , " + n() + " ) = ( " + x.lit() + " , " + x.lit() + " )"
	case 14:
		text = "INSERT OR " + []string{"IGNORE", "REPLACE", "ABORT", "FAIL", "ROLLBACK"}[x.Intn(5)] + " INTO " + n() + " ( " + n() + " ) VALUES ( " + x.lit() + " )"
	case 15:
		text = "REPLACE INTO " + n() + " ( " + n() + " ) VALUES ( " + x.lit() + " )"
	case 16:
		text = "INSERT INTO " + n() + " ( " + n() + " ) SELECT " + n() + " FROM " + n() + " WHERE " + x.cmp()
	case 17:
		text = "INSERT INTO " + n() + " DEFAULT VALUES"
	case 18:
		text = "INSERT INTO " + n() + " ( " + n() + " ) VALUES ( " + x.lit() + " ) ON CONFLICT DO NOTHING"
	case 19:
		text = "INSERT INTO " + n() + " ( " + n() + " ) VALUES ( " + x.lit() + " ) ON CONFLICT ( " + n() + " ) DO UPDATE SET " + n() + " = " + x.lit()
	case 20:
		text = "INSERT INTO " + n() + " ( " + n() + " ) VALUES ( " + x.lit() + " ) RETURNING " + n()
	case 21:
		text = "SELECT " + n() + " FROM ( SELECT " + n() + " FROM " + n() + " WHERE " + x.cmp() + " ) WHERE " + x.cmp()
	case 22:
		text = "SELECT " + x.expr(2) + " FROM " + n()
	case 23:
		text = "SELECT COUNT ( DISTINCT " + n() + " ) FROM " + n()
	case 24:
		text = "SELECT SUM ( " + n() + " ) FILTER ( WHERE " + x.cmp() + " ) FROM " + n()
	case 25:
		text = "SELECT SUM ( " + n() + " ) OVER ( PARTITION BY " + n() + " ) FROM " + n()
	case 26:
		text = "SELECT DISTINCT " + n() + " , " + n() + " FROM " + n()
	case 27:
		text = "SELECT " + n() + " FROM " + n() + " ORDER BY " + n() + " DESC , " + x.expr(1)
	case 28:
		text = "SELECT " + n() + " FROM " + n() + " GROUP BY ABS ( " + n() + " )"
	case 29:
		text = "SELECT " + n() + " FROM " + n() + " LIMIT " + strconv.Itoa(1+x.Intn(99)) + "." + strconv.Itoa(1+x.Intn(9))
	case 30:
		text = "DELETE FROM " + n() + " WHERE " + x.expr(3) + " RETURNING *"
	case 31:
		text = "UPDATE " + n() + " SET " + n() + " = ( SELECT " + n() + " FROM " + n() + " WHERE " + x.cmp() + " )"
	case 32:
		text = "UPDATE " + n() + " SET " + n() + " = " + n() + " + " + n() + " + " + numText(x.Rand) + " - " + n()
	case 33:
		text = "CREATE INDEX " + n() + " ON " + n() + " ( " + n() + " ) WHERE " + x.cmp()
	case 34:
		text = "SELECT SUM ( " + n() + " ) OVER w FROM " + n() + " WINDOW w AS ( PARTITION BY " + n() + " ORDER BY " + n() + " )"
	case 35:
		text = "SELECT " + n() + " FROM " + n() + " WINDOW w AS ( ORDER BY " + n() + " )"
	case 36:
		text = "VACUUM " + []string{"", n() + " "}[x.Intn(2)] + "INTO 'x'"
	case 37:
		text = "SELECT " + n() + " FROM " + n() + " GROUP BY " + x.expr(1) + " , " + n() + " ORDER BY " + n()
	case 38:
		text = "SELECT " + n() + " - " + []string{"- ", "+ "}[x.Intn(2)] + strconv.Itoa(x.Intn(50)) + " FROM " + n() + " WHERE " + n() + " IN ( - - 3 , - " + n() + " )"
	case 39:
		text = "SELECT \"" + n() + "\" \"" + n() + "\" , x 'b' , " + n() + " '" + n() + "' FROM " + n()
	case 40:
		text = "SELECT " + n() + " FROM " + n() + " GROUP BY " + n() + " HAVING " + x.expr(2) + " ORDER BY " + n() + " LIMIT " + strconv.Itoa(1+x.Intn(9))
	case 41:
		text = "SELECT " + n() + " FROM " + n() + " " + []string{"UNION", "INTERSECT", "EXCEPT", "UNION ALL"}[x.Intn(4)] + " SELECT " + n() + " FROM " + n() + " ORDER BY " + n() + " LIMIT " + strconv.Itoa(1+x.Intn(9))
	case 42:
		text = "DELETE FROM " + n() + " AS " + n() + " ORDER BY " + n() + " LIMIT 1 OFFSET " + strconv.Itoa(1+x.Intn(9))
	case 43:
		text = "UPDATE " + n() + " AS " + n() + " SET " + n() + " = " + x.lit() + " RETURNING " + n()
	case 44:
		text = "SELECT " + n() + " FROM " + n() + " AS " + n() + " , " + n() + " NATURAL JOIN " + n()
	case 45:
		text = "SELECT " + n() + " FROM " + n() + " JOIN " + n() + " ON " + x.cmp()
	case 46:
		text = "SELECT " + n() + " FROM " + n() + " " + []string{"UNION", "INTERSECT", "EXCEPT"}[x.Intn(3)] + " SELECT " + n() + " FROM " + n()
	case 47:
		text = "SELECT " + x.expr(2) + " , " + x.expr(2) + " AS " + n() + " FROM " + n() + " , " + n() + " " + n() + " ORDER BY " + x.expr(1) + " DESC NULLS LAST"
	case 48:
		text = "INSERT INTO " + n() + " ( " + n() + " ) VALUES ( " + x.cmp() + " )"
	case 49:
		text = "INSERT INTO " + n() + " VALUES ( " + n() + []string{" < ", " > ", " <> ", " >= "}[x.Intn(4)] + x.lit() + " )"
	}
	return text, cond
}

// keptStream decides that what the statements of the chosen kinds say is kept or refused.
func keptStream(r *Run, stream string, count int, verbs ...string) {
	r.Parallel(stream, count, func(i int, rng *rand.Rand) {
		x := xgen{rng}
		var text, cond string
		for try := 0; ; try++ {
			text, cond = x.clause(i + try)
			verb := strings.Fields(text)[0]
			if slices.Contains(verbs, verb) {
				break
			}
		}
		r.Guard(text, func() {
			stmts, err := Parse(text)
			if err != nil {
				r.Ev(stream + " refused")
				return
			}
			r.Ev(stream + " kept")
			writtenIn(r, text, 1, cond, stmts, lexSQL(text))
		})
		r.Case(text)
	})
}
