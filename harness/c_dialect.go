package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// expectContent parses the statement and compares what is reported with what was written.
func expectContent(r *Run, g *G, text string) {
	r.Guard(text, func() {
		stmts, err := Parse(text)
		r.Ev(g.Kind)
		if err != nil {
			r.Fail("rejected", "a statement of the supported dialect was rejected\ninput: %s\nerror: %v", text, err)
			return
		}
		if len(stmts) != 1 {
			r.Fail("count", "one statement gave %d statements\ninput: %s", len(stmts), text)
			return
		}
		got := Dump(stmts[0])
		if !sameLines(g.Exp, got) {
			r.Fail("content", "input: %s\n%s", clip(text, 3000), diffLines(g.Exp, got))
		}
	})
	r.Case(text)
}

func contentCheck(classes int, quick, thorough int, set func(g *G, i int)) func(r *Run) {
	return func(r *Run) {
		r.Rule = "statements generated from a grammar of the supported dialect together with the content that must be reported; non-trivial: the distinct statement texts; boundary list sizes and name lengths up to 257, string literals with quotes, separators, comment markers and placeholders"
		r.Parallel("stmt", r.N(quick, thorough), func(i int, rng *rand.Rand) {
			g := NewStmt(rng, classes, func(g *G) { set(g, i) })
			text := g.Text()
			if rng.Intn(3) == 0 {
				text = g.Layout(rng)
			}
			expectContent(r, g, text)
		})
		// What the statements have no structure for is kept or refused.
		switch {
		case classes&kSelect != 0:
			keptStream(r, "clause", r.N(quick/2, thorough/2), "SELECT", "DELETE", "WITH", "VALUES")
		case classes&kInsert != 0:
			keptStream(r, "clause", r.N(quick/2, thorough/2), "INSERT", "UPDATE", "REPLACE")
		}
		// What the statements cannot report has to be refused.
		if classes&(kInsert|kDDL) == 0 {
			return
		}
		r.Parallel("refuse", r.N(quick/10, thorough/10), func(i int, rng *rand.Rand) {
			g := &G{Rand: rng}
			set(g, i)
			what := ""
			if classes&kInsert != 0 {
				what = g.unfitInsert()
			} else {
				what = g.keyedAlter()
			}
			text := g.Text()
			if rng.Intn(3) == 0 {
				text = g.Layout(rng)
			}
			r.Guard(text, func() {
				r.Ev("refused " + what)
				if stmts, err := Parse(text); err == nil {
					r.Fail("not refused", "%s\ninput: %s\ngot: %s", what, clip(text, 3000), clip(texts(stmts), 3000))
				}
			})
			r.Case(text)
		})
	}
}

// unfitInsert writes an INSERT with a row that has more or less values than columns are named, or names other columns.
func (g *G) unfitInsert() string {
	g.kw("INSERT INTO")
	g.strictTable()
	if g.chance(3) {
		g.kw("VALUES")
		n, rows := 1+g.Intn(4), 1+g.Intn(4)
		bad := g.Intn(rows)
		if n == 1 && rows == 1 {
			rows = 2
		}
		at := g.Intn(n)
		kind := g.Intn(3)
		for i := 0; i < rows; i++ {
			g.comma(i)
			g.p("(")
			for j := 0; j < n; j++ {
				g.comma(j)
				switch {
				case i == bad && j == at && kind == 0 && (1 < n || 1 < rows):
				case i == bad && j == at && kind == 1 && 1 < rows:
					g.p("other =")
				case i == bad && j == at && kind == 2 && 1 < rows:
					g.p(fmt.Sprintf("c%d =", j))
					g.literal()
					g.p(fmt.Sprintf(", d%d =", j))
				case i == bad && j == at && 1 < n:
					// no name
				default:
					g.p(fmt.Sprintf("c%d =", j))
				}
				g.literal()
			}
			g.p(")")
		}
		return "rows that name different columns"
	}
	n, m := g.count(1, 6), g.count(1, 6)
	if n == m {
		m++
	}
	g.p("(")
	for i := 0; i < n; i++ {
		g.comma(i)
		g.name()
	}
	g.p(")")
	g.kw("VALUES")
	rows := 1 + g.Intn(4)
	bad := g.Intn(rows)
	for i := 0; i < rows; i++ {
		g.comma(i)
		g.p("(")
		k := n
		if i == bad {
			k = m
		}
		for j := 0; j < k; j++ {
			g.comma(j)
			g.literal()
		}
		g.p(")")
	}
	if m < n {
		return "row with less values than columns"
	}
	return "row with more values than columns"
}

// keyedAlter writes an ALTER TABLE that adds a column with a key, which an added column does not report.
func (g *G) keyedAlter() string {
	g.kw("ALTER TABLE")
	g.table()
	g.kw("ADD")
	if g.chance(3) {
		// A key or a constraint that has no representation is no column either.
		g.kw(g.pick("UNIQUE", "KEY", "UNIQUE KEY", "UNIQUE INDEX", "FOREIGN KEY", "CONSTRAINT c1 UNIQUE", "CONSTRAINT c1 FOREIGN KEY", "CONSTRAINT c1 CHECK"))
		switch last := g.Toks[len(g.Toks)-1].Text; {
		case strings.HasSuffix(last, "CHECK"):
			g.p("(")
			g.plainName()
			g.p("> 1 )")
		case strings.HasSuffix(last, "FOREIGN KEY"):
			g.p("(")
			g.plainName()
			g.p(")")
			g.kw("REFERENCES")
			g.plainName()
			g.p("(")
			g.plainName()
			g.p(")")
		default:
			if !strings.HasPrefix(last, "CONSTRAINT") && g.chance(2) {
				g.plainName()
			}
			g.p("(")
			g.plainName()
			g.p(")")
		}
		return "added key without a representation"
	}
	if g.chance(2) {
		g.kw("COLUMN")
	}
	g.strictName()
	if !g.chance(5) {
		g.typ()
	}
	if g.chance(2) {
		g.kw("PRIMARY KEY")
		return "added column with a primary key"
	}
	g.kw("INDEX")
	g.plainName()
	return "added column with a secondary key"
}

func init() {
	register("C03", contentCheck(kDDL|kAdmin, 6000, 120000, func(g *G, i int) { g.Special = i%3 == 0; g.Big = i%20 == 0 }))
	register("C04", contentCheck(kInsert|kUpdate, 4000, 80000, func(g *G, i int) { g.Verb = i%2 == 0; g.Special = i%3 == 0; g.Big = i%25 == 0 }))
	register("C05", contentCheck(kSelect|kDelete, 5000, 100000, func(g *G, i int) { g.Verb = i%2 == 0; g.Alias = i%3 == 0; g.Big = i%20 == 0 }))
	register("C02", checkRoundTrip)
}

func checkRoundTrip(r *Run) {
	r.Rule = "each generated statement is parsed, rendered, parsed again and rendered again; compared: kind, every reported part and the text; non-trivial: distinct statement texts"
	r.Parallel("rt", r.N(6000, 120000), func(i int, rng *rand.Rand) {
		g := NewStmt(rng, kAll, func(g *G) { g.Verb = true; g.Alias = true; g.Special = i%3 == 0; g.Big = i%20 == 0 })
		text := g.Text()
		if rng.Intn(3) == 0 {
			text = g.Layout(rng)
		}
		r.Guard(text, func() { roundTrip(r, g.Kind, text, g.Exp) })
		r.Case(text)
	})
	r.Parallel("kept", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		x := xgen{rng}
		var text string
		switch i % 4 {
		case 0:
			text = "SELECT " + x.expr(rng.Intn(3)) + " FROM " + randName(rng, false) + " WHERE " + x.expr(rng.Intn(4))
		case 1:
			text = "UPDATE " + randName(rng, false) + " SET " + randName(rng, false) + " = " + x.expr(rng.Intn(3)) + " WHERE " + x.expr(rng.Intn(4))
		case 2:
			text = "INSERT INTO " + randName(rng, false) + " ( a , b ) VALUES ( " + x.expr(rng.Intn(3)) + " , " + x.expr(rng.Intn(3)) + " )"
		case 3:
			text, _ = x.clause(i / 4)
		}
		r.Guard(text, func() { roundTripKept(r, text) })
		r.Case(text)
	})
}

// roundTripKept decides the round trip of an accepted statement with expressions and clauses of any kind.
func roundTripKept(r *Run, text string) {
	stmts, err := Parse(text)
	if err != nil || len(stmts) != 1 {
		r.Ev("clause refused")
		return
	}
	written, rendered := lexSQL(text), lexSQL(stmts[0].String())
	if m := missingTokens(written, rendered, map[string]bool{"AS": true, ";": true, "ASC": true}); 0 < len(m) {
		r.Fail("dropped", "not rendered: %v\ninput: %s\ngot: %s", m, text, texts(stmts))
		return
	}
	roundTrip(r, "clause", text, nil)
}

// numberTokens gives the integers of a text without leading zeros.
func numberTokens(text string) []string {
	nums := []string{}
	for _, t := range lexSQL(text) {
		if t == "" || strings.Trim(t, "0123456789") != "" {
			continue
		}
		if t = strings.TrimLeft(t, "0"); t == "" {
			t = "0"
		}
		nums = append(nums, t)
	}
	return nums
}

// renderWords are the words that the rendered text may have in addition: defaults and other forms of the same clause.
var renderWords = map[string]bool{"AS": true, "ASC": true, "PRIMARY": true, "KEY": true, "INDEX": true, "COMMIT": true, "OFFSET": true, "TABLE": true, "TEXT": true, "COLUMN": true, "(": true, ")": true, ",": true}

// addedTokens gives the tokens of the rendered text that appear nowhere in the written text.
func addedTokens(written, rendered string) []string {
	known := map[string]bool{}
	for _, t := range append(lexSQL(written), numberTokens(written)...) {
		known[t] = true
		if t[0] == '\'' { // a source of COPY
			known[strings.ToUpper(strings.Trim(t, "'"))] = true
		}
		if t[0] == '.' { // a number such as .5 may follow a word
			known["."], known[t[1:]] = true, true
		}
	}
	added := []string{}
	for _, t := range lexSQL(rendered) {
		if strings.HasPrefix(rendered, "COPY") && t[0] == '\'' {
			// a source, which may be written as a name
			if strings.Contains(written, "\""+strings.ReplaceAll(unquote(t[1:len(t)-1]), "\"", "\"\"")+"\"") {
				continue
			}
		}
		if !known[t] && !renderWords[t] {
			added = append(added, t)
		}
	}
	return added
}

// roundTrip also compares with the content that was written, if it is known.
func roundTrip(r *Run, kind, text string, exp Lines) {
	stmts, err := Parse(text)
	if err != nil || len(stmts) != 1 {
		r.Fail("rejected", "input: %s\nstatements %d error %v", text, len(stmts), err)
		return
	}
	r.Ev(kind)
	d1 := Dump(stmts[0])
	s1 := stmts[0].String()
	if s := stmts[0].String(); s != s1 {
		r.Fail("unstable rendering", "input: %s\nfirst:  %s\nsecond: %s", text, s1, s)
	}
	if extra := addedTokens(text, s1); 0 < len(extra) {
		r.Fail("added", "the rendered text says more than was written: %v\ninput: %s\nrendered: %s", extra, text, s1)
	}
	if extra := missingTokens(numberTokens(s1), numberTokens(text), nil); 0 < len(extra) && (kind == "create table" || kind == "alter table") {
		r.Fail("added", "the rendered text has numbers that were not written: %v\ninput: %s\nrendered: %s", extra, text, s1)
	}
	again, err := Parse(s1)
	if err != nil || len(again) != 1 {
		r.Fail("rendered text not accepted", "input: %s\nrendered: %s\nstatements %d error %v", text, s1, len(again), err)
		return
	}
	d2 := Dump(again[0])
	if !sameLines(d1, d2) {
		r.Fail("content changed", "input: %s\nrendered: %s\n%s", text, s1, diffLines(d1, d2))
	}
	if exp != nil && !sameLines(exp, d2) {
		r.Fail("content lost", "input: %s\nrendered: %s\n%s", text, s1, diffLines(exp, d2))
	}
	if s2 := again[0].String(); s2 != s1 {
		r.Fail("text changed", "input: %s\nrendered: %s\nagain:    %s", text, s1, s2)
	}
}

var _ = fmt.Sprint
var _ = strings.ToUpper
