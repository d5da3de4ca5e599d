package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
	sqlstrings "github.com/cybergarage/go-sqlparser/sql/util/strings"
)

func init() {
	register("C07", checkLiterals)
	register("C08", checkLists)
}

func quoted(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

type litWant struct {
	text   string // as written
	value  string // as reported
	string bool
}

// literalsReported parses the literals in inserted, assigned and compared positions and decides what is reported for them.
func literalsReported(r *Run, lits []litWant) {
	var cols, vals, sets []string
	for i, l := range lits {
		cols = append(cols, fmt.Sprintf("c%d", i))
		vals = append(vals, l.text)
		sets = append(sets, fmt.Sprintf("c%d = %s", i, l.text))
	}
	ins := fmt.Sprintf("INSERT INTO t (%s) VALUES (%s)", strings.Join(cols, ", "), strings.Join(vals, ", "))
	upd := fmt.Sprintf("UPDATE t SET %s WHERE k = %s", strings.Join(sets, ", "), lits[0].text)
	judge := func(where, input string, l litWant, v any, t query.LiteralType) {
		if l.string != (t == query.StringLiteral) {
			r.Fail("kind", "%s: %s reported as string: %v\ninput: %s", where, l.text, t == query.StringLiteral, clip(input, 2000))
			return
		}
		got := fmt.Sprint(v)
		if n, ok := v.(namer); ok && !l.string {
			got = n.Name()
		}
		if v == nil {
			got = "NULL"
		}
		if !l.string {
			got = squeeze(got)
		}
		if _, ok := v.(string); l.string && !ok {
			r.Fail("type", "%s: string %s reported as %T\ninput: %s", where, l.text, v, clip(input, 2000))
		}
		if got != l.value {
			r.Fail("value", "%s: %s reported as %q instead of %q\ninput: %s", where, l.text, got, l.value, clip(input, 2000))
		}
	}
	check := func(input string, again bool) string {
		stmts, err := Parse(input)
		if err != nil || len(stmts) != 1 {
			r.Fail("rejected", "input: %s\nstatements %d error %v", clip(input, 2000), len(stmts), err)
			return ""
		}
		pos := "inserted"
		if again {
			pos = "rendered and read again"
		}
		switch s := stmts[0].(type) {
		case query.Insert:
			if len(s.Values()) != 1 || len(s.Values()[0]) != len(lits) {
				r.Fail("shape", "input: %s", clip(input, 2000))
				return ""
			}
			for i, c := range s.Values()[0] {
				judge(pos, input, lits[i], c.Value(), c.ValueType())
			}
		case query.Update:
			if len(s.Columns()) != len(lits) {
				r.Fail("shape", "input: %s", clip(input, 2000))
				return ""
			}
			for i, c := range s.Columns() {
				judge(pos, input, lits[i], c.Value(), c.ValueType())
			}
			cmp, ok := s.Where().Expr().(*query.CmpExpr)
			if !ok {
				r.Fail("condition", "input: %s", clip(input, 2000))
				return ""
			}
			judge("compared", input, lits[0], cmp.Right().Value(), cmp.Right().ValueType())
			if lits[0].string && (cmp.Right().IsAsterisk() || cmp.Right().IsPlaceHolder()) {
				r.Fail("confusion", "string %s taken for an asterisk or a placeholder", lits[0].text)
			}
			if want := lits[0].text == "?"; !lits[0].string && cmp.Right().IsPlaceHolder() != want {
				r.Fail("placeholder", "%s: IsPlaceHolder %v", lits[0].text, !want)
			}
		default:
			r.Fail("kind", "input: %s", clip(input, 2000))
			return ""
		}
		return stmts[0].String()
	}
	for _, in := range []string{ins, upd} {
		r.Guard(in, func() {
			if s := check(in, false); s != "" {
				check(s, true)
			}
		})
		r.Case(in)
	}
	r.EvN("literals judged", 4*len(lits)+2)
}

func checkLiterals(r *Run) {
	r.Rule = "every string up to length 3 over a hostile alphabet, longer random strings, and all other literal kinds next to the strings of the same spelling, as inserted, assigned and compared values, before and after rendering; direct literals and the quoting helpers; non-trivial: distinct statements"
	alpha := []string{"'", "\"", "`", "\\", ";", "-", "/", "*", "?", "a", " ", "\n", "%", "("}
	strs := []string{""}
	level := []string{""}
	depth := r.N(3, 4)
	for d := 0; d < depth; d++ {
		next := []string{}
		for _, p := range level {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		strs = append(strs, next...)
		level = next
	}
	const batch = 24
	n := (len(strs) + batch - 1) / batch
	r.Parallel("short", n, func(i int, rng *rand.Rand) {
		lits := []litWant{}
		for _, s := range strs[i*batch : min((i+1)*batch, len(strs))] {
			lits = append(lits, litWant{quoted(s), s, true})
		}
		literalsReported(r, lits)
	})
	r.EvN("exhaustive short strings", len(strs))
	words := []string{"NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP", "null", "?", "?1", "$1", ":name", "*", "X'00'", "x'ab'", "0", "1", "-1", "1.5", "1e5", "0x10", "007", "1.0", "1.", ".5", "9223372036854775808"}
	r.Parallel("mixed", r.N(1500, 40000), func(i int, rng *rand.Rand) {
		lits := []litWant{}
		for j, n := 0, 1+rng.Intn(12); j < n; j++ {
			switch rng.Intn(4) {
			case 0:
				c := strContent(rng, i%10 == 0)
				lits = append(lits, litWant{"'" + c + "'", unquote(c), true})
			case 1:
				w := words[rng.Intn(len(words))]
				lits = append(lits, litWant{quoted(w), w, true})
			case 2:
				w := words[rng.Intn(len(words))]
				if w == "*" {
					w = "2"
				}
				lits = append(lits, litWant{w, w, false})
			case 3:
				n := numText(rng)
				lits = append(lits, litWant{n, n, false})
			}
		}
		rng.Shuffle(len(lits), func(a, b int) { lits[a], lits[b] = lits[b], lits[a] })
		literalsReported(r, lits)
	})
	// Strings of random characters, through the parser and through the helpers.
	r.Parallel("random", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		s := randString(rng, i%20 == 0)
		r.Guard(strconv.Quote(s), func() {
			lit := query.NewLiteralWith(s, query.WithLiteralType(query.StringLiteral))
			text := lit.String()
			if lit.Value() != s || lit.IsAsterisk() || lit.IsPlaceHolder() {
				r.Fail("direct literal", "%q value %v asterisk %v placeholder %v", s, lit.Value(), lit.IsAsterisk(), lit.IsPlaceHolder())
			}
			if got := sqlstrings.UnEscapeString(sqlstrings.EscapeString(s)); got != s {
				r.Fail("quoting helpers", "%q became %q", s, got)
			}
			stmts, err := Parse("INSERT INTO t (a, b) VALUES (" + text + ", 1)")
			if err != nil || len(stmts) != 1 {
				r.Fail("direct literal not readable", "%q rendered as %q: %v", s, text, err)
				return
			}
			row := stmts[0].(query.Insert).Values()[0]
			if len(row) != 2 || row[0].Value() != s || row[0].ValueType() != query.StringLiteral || fmt.Sprint(row[1].Value()) != "1" {
				r.Fail("direct literal changed", "%q rendered as %q read as %q", s, text, row[0].Value())
			}
		})
		r.Case("random " + strconv.Quote(s))
	})
}

func randString(rng *rand.Rand, long bool) string {
	n := rng.Intn(12)
	if long {
		n = boundarySizes[rng.Intn(len(boundarySizes))] * (1 + rng.Intn(8))
	}
	runes := make([]rune, n)
	for i := range runes {
		switch rng.Intn(6) {
		case 0:
			runes[i] = []rune{'\'', '"', '`', '\\', ';', '-', '?', '*', '%', '\n', '\r', '\t', '\'', '\''}[rng.Intn(14)]
		case 1:
			runes[i] = rune(1 + rng.Intn(0x7f))
		case 2:
			runes[i] = []rune{'é', '日', '😀', '\u200b', '\u00a0', '\ufeff', 'İ', 'ß', '‘', '’', '\u2028'}[rng.Intn(11)]
		default:
			runes[i] = rune('a' + rng.Intn(26))
		}
	}
	return string(runes)
}

// invalidTexts are no valid SQL of the dialect (keywords are accepted as names in many places), alone or in a list.
var invalidTexts = []string{
	"SELECT * FROM t WHERE a =", "SELECT a b c d FROM t",
	"INSERT INTO", "INSERT INTO t", "INSERT INTO t (a) VALUES", "INSERT INTO t (a) VALUES (1", "INSERT INTO t (a VALUES (1)", "INSERT INTO t () VALUES ()", "INSERT t VALUES (1)",
	"UPDATE t", "UPDATE t SET", "UPDATE t SET a", "UPDATE t SET a =", "UPDATE t SET a = 1 WHERE", "UPDATE SET a = 1", "DELETE", "DELETE FROM", "DELETE t WHERE a = 1", "DELETE FROM t WHERE a = 1 AND",
	"CREATE", "CREATE TABLE", "CREATE TABLE t (", "CREATE TABLE t (a INT", "CREATE TABLE t a INT)", "CREATE DATABASE", "CREATE INDEX i", "CREATE INDEX i ON t", "DROP", "DROP TABLE", "DROP INDEX", "ALTER TABLE", "ALTER TABLE t", "ALTER TABLE t ADD", "ALTER TABLE t DROP",
	"FOO", "FOO BAR", "hello world", "1", "a", "'x'", "(", ")", "()", ",", "= 1", "SELECT a FROM t )", "SELECT (a FROM t", "SELECT , a FROM t", "SELEC a FROM t", "SELECT a FRM t WHERE x = 1 )",
	"SELECT a FROM t WHERE a = = 1", "SELECT a FROM t WHERE a == = 1", "DELETE FROM t WHERE (a = 1", "DELETE FROM t WHERE a = 1)", "UPDATE t SET a = 1, WHERE b = 2", "INSERT INTO t (a,) VALUES (1)", "INSERT INTO t (a) VALUES (1,)", "INSERT INTO t (a) VALUES (,1)",
	"USE", "COPY", "COPY t", "COPY t FROM", "TRUNCATE", "BEGIN BEGIN x", "{", "}", "SELECT a FROM t {", "SELECT a ! FROM t", "SELECT # FROM t", "SELECT a FROM t WHERE a = 1 AND b = 2 AND", "\\",
}

func checkLists(r *Run) {
	r.Rule = "lists of generated statements joined by semicolons, with random layout, comments, keyword case and extra semicolons, compared with each statement parsed alone; invalid fragments at every position of a list; inputs without statement; non-trivial: distinct inputs"
	r.Parallel("list", r.N(2500, 60000), func(i int, rng *rand.Rand) {
		n := 1 + rng.Intn(5)
		if i%100 == 0 {
			n = boundarySizes[rng.Intn(len(boundarySizes)-6)] + 1
		}
		want := Lines{}
		wantText := []string{}
		var sb strings.Builder
		if rng.Intn(4) == 0 {
			sb.WriteString(strings.Repeat(" ;", 1+rng.Intn(3)))
		}
		ok := true
		for j := 0; j < n && ok; j++ {
			g := NewStmt(rng, kAll, func(g *G) { g.Verb = true; g.Alias = true })
			alone := g.Text()
			r.Guard(alone, func() {
				stmts, err := Parse(alone)
				if err != nil || len(stmts) != 1 {
					r.Fail("alone", "input: %s\nstatements %d error %v", alone, len(stmts), err)
					ok = false
					return
				}
				want = append(want, DumpAll(stmts)...)
				wantText = append(wantText, stmts[0].String())
			})
			if 0 < j {
				sb.WriteString([]string{";", " ; ", ";\n", ";;", " ; ; ", "; -- x\n", ";/* ; */"}[rng.Intn(7)])
			}
			sb.WriteString(g.Layout(rng))
		}
		if !ok {
			return
		}
		if rng.Intn(2) == 0 {
			sb.WriteString([]string{";", " ; ", ";;", ";\n", "; -- end", ";/* end */ ;"}[rng.Intn(6)])
		}
		text := sb.String()
		r.Guard(text, func() {
			stmts, err := Parse(text)
			if err != nil {
				r.Fail("list rejected", "input: %s\nerror: %v", clip(text, 3000), err)
				return
			}
			if len(stmts) != n {
				r.Fail("list length", "%d statements instead of %d\ninput: %s", len(stmts), n, clip(text, 3000))
				return
			}
			if got := DumpAll(stmts); !sameLines(want, got) {
				r.Fail("list content", "input: %s\n%s", clip(text, 3000), diffLines(want, got))
			}
			for j := range stmts {
				if s := stmts[j].String(); !strings.EqualFold(squeeze(s), squeeze(wantText[j])) {
					r.Fail("list text", "input: %s\nalone: %s\nin list: %s", clip(text, 3000), wantText[j], s)
				}
			}
		})
		r.EvN("statements compared", n)
		r.Case(text)
	})
	r.Parallel("invalid", r.N(2500, 50000), func(i int, rng *rand.Rand) {
		bad := invalidTexts[i%len(invalidTexts)]
		n := rng.Intn(4)
		parts := []string{}
		for j := 0; j < n; j++ {
			parts = append(parts, NewStmt(rng, kAll, nil).Text())
		}
		at := rng.Intn(n + 1)
		parts = append(parts[:at:at], append([]string{bad}, parts[at:]...)...)
		text := strings.Join(parts, " ; ")
		mustReject(r, text, "fragment "+bad)
	})
	// Truncated quotes and parentheses anywhere.
	r.Parallel("broken", r.N(1500, 40000), func(i int, rng *rand.Rand) {
		g := NewStmt(rng, kAll&^kAdmin, nil)
		var text, why string
		switch rng.Intn(4) {
		case 0: // drop one parenthesis
			at := []int{}
			for j, t := range g.Toks {
				if t.Text == "(" || t.Text == ")" {
					at = append(at, j)
				}
			}
			if len(at) == 0 {
				r.Case("")
				return
			}
			j := at[rng.Intn(len(at))]
			g.Toks = append(g.Toks[:j:j], g.Toks[j+1:]...)
			why = "unbalanced parenthesis"
			text = g.Text()
		case 1:
			text, why = g.Text()+" 'abc", "unterminated string"
		case 2:
			text, why = g.Text()+" )", "unbalanced parenthesis"
		case 3:
			text, why = "( "+g.Text(), "unbalanced parenthesis"
		}
		if rng.Intn(2) == 0 && why != "unterminated string" {
			text += " ; " + NewStmt(rng, kAll, nil).Text()
		}
		mustReject(r, text, why)
	})
	empties := []string{"", " ", "\n\t", ";", ";;", " ; ; ", "-- only a comment", "/* only a comment */", "/* a */ ; -- b\n ;", "\r\n", "/**/", "-- x\n-- y\n"}
	pieces := []string{" ", "\n", "\t", ";", "-- c\n", "/* ; */", "/**/", "\r\n", "-- SELECT a FROM t\n", "/* INSERT INTO t VALUES (1) */"}
	r.Parallel("empty", r.N(400, 5000), func(i int, rng *rand.Rand) {
		text := ""
		if i < len(empties) {
			text = empties[i]
		} else {
			for j, n := 0, rng.Intn(10); j < n; j++ {
				text += pieces[rng.Intn(len(pieces))]
			}
		}
		r.Guard(strconv.Quote(text), func() {
			stmts, err := Parse(text)
			if err == nil || 0 < len(stmts) {
				r.Fail("empty accepted", "input: %q statements %d error %v", text, len(stmts), err)
			} else if !isEmptyQuery(err) {
				r.Fail("empty not recognised", "input: %q error %v", text, err)
			}
		})
		r.Ev("empty inputs")
		r.Case("empty " + strconv.Quote(text))
	})
}

func mustReject(r *Run, text, why string) {
	r.Guard(text, func() {
		stmts, err := Parse(text)
		switch {
		case err == nil:
			r.Fail("invalid accepted", "%s\ninput: %s\ngot: %s", why, clip(text, 3000), clip(texts(stmts), 2000))
		case 0 < len(stmts):
			r.Fail("statements with an error", "%s\ninput: %s\nerror: %v\ngot: %s", why, clip(text, 3000), err, clip(texts(stmts), 2000))
		case isEmptyQuery(err):
			r.Fail("invalid taken for empty", "%s\ninput: %s\nerror: %v", why, clip(text, 3000), err)
		}
	})
	r.Ev("invalid inputs")
	r.Case(text)
}
