package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
)

func init() { register("C09", checkIndependence) }

func isEmptyQuery(err error) bool { return errors.Is(err, sql.ErrEmptyQuery) }

var bindQueries = []string{"SELECT a FROM t WHERE x = ? AND y = ?", "INSERT INTO t (a, b) VALUES (?, ?)", "UPDATE t SET a = ? WHERE b = ?", "DELETE FROM t WHERE a > ? OR b = ?"}

// outcome is what a parse gave, through the public interface.
func outcome(stmts []query.Statement, err error) string {
	if err != nil {
		return fmt.Sprintf("error, %d statements", len(stmts))
	}
	return DumpAll(stmts).String() + "\n" + texts(stmts)
}

func checkIndependence(r *Run) {
	r.Rule = "the same texts (valid, invalid, empty, lists) parsed by concurrent parsers under the race detector before anything else ran, by reused parsers in random order with invalid texts in between, and by fresh parsers; all outcomes must agree and statements returned earlier must not change; non-trivial: distinct texts"
	const goroutines = 8
	n := r.N(160, 1200)
	texts := make([]string, 0, n)
	rng := r.RNG("texts", 0)
	for len(texts) < n {
		switch rng.Intn(7) {
		case 6:
			f := []string{"SUM", "COUNT", "MIN", "MAX", "AVG", "ABS", "CEIL", "FLOOR"}
			texts = append(texts, fmt.Sprintf("SELECT g, %s(x), %s(y) FROM t GROUP BY g", f[rng.Intn(len(f))], f[rng.Intn(len(f))]))
		case 0:
			texts = append(texts, invalidTexts[rng.Intn(len(invalidTexts))])
		case 1:
			texts = append(texts, NewStmt(rng, kAll, nil).Text()+" ; "+NewStmt(rng, kAll, func(g *G) { g.Verb = true }).Text())
		case 2:
			texts = append(texts, NewStmt(rng, kAll, nil).Text()+" ; "+invalidTexts[rng.Intn(len(invalidTexts))])
		case 3:
			if rng.Intn(4) == 0 {
				texts = append(texts, " ; ")
				continue
			}
			fallthrough
		default:
			texts = append(texts, NewStmt(rng, kAll, func(g *G) { g.Verb = true; g.Alias = true }).Text())
		}
	}
	// Some of them are long.
	long := []string{"INSERT INTO t (a, b) VALUES ('" + strings.Repeat("it''s long ", 7000) + "', 1)", "SELECT a FROM t WHERE b = '" + strings.Repeat("x", 300000) + "' AND c = 2"}
	rows := make([]string, 400)
	for k := range rows {
		rows[k] = fmt.Sprintf("(%d, '%s')", k, strings.Repeat("v", k%200))
	}
	long = append(long, "INSERT INTO t (a, b) VALUES "+strings.Join(rows, ", "), "SELECT a FROM t WHERE b = '"+strings.Repeat("x", 70000))
	for k, t := range long {
		texts[n/5+k*n/8] = t
	}
	// Phase 1: concurrent, first, so that nothing was initialised by an earlier parse. All goroutines start on the same texts.
	conc := make([][]string, goroutines)
	kept := make([][][]query.Statement, goroutines)
	used := make([][]string, goroutines)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < goroutines; w++ {
		conc[w] = make([]string, n)
		kept[w] = make([][]query.Statement, n)
		used[w] = make([]string, n)
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			order := make([]int, n)
			for i := range order {
				order[i] = i
			}
			if w%2 == 1 {
				lr := rand.New(rand.NewSource(r.Seed*100 + int64(w)))
				lr.Shuffle(n, func(a, b int) { order[a], order[b] = order[b], order[a] })
			}
			p := sql.NewParser()
			<-start
			for k, i := range order {
				if w%4 == 3 && k%3 == 0 {
					p = sql.NewParser()
				}
				r.Guard(texts[i], func() {
					stmts, err := p.ParseString(texts[i])
					conc[w][i] = outcome(stmts, err)
					if err == nil {
						used[w][i] = fmt.Sprint(use(stmts))
						if w%2 == 0 {
							kept[w][i] = stmts
						} else {
							spoil(stmts)
						}
					}
				})
				if k%16 == 0 { // rarely, as it orders the goroutines
					r.progress.Add(1)
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	r.EvN("concurrent parses", goroutines*n)
	independentUse(r, goroutines)
	// Each goroutine binds parameters of its own to the same queries.
	start = make(chan struct{})
	binds := r.N(40, 300)
	bound := make([][]string, goroutines)
	for w := 0; w < goroutines; w++ {
		bound[w] = make([]string, binds)
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for k := 0; k < binds; k++ {
				q := bindQueries[k%len(bindQueries)]
				r.Guard(q, func() {
					bound[w][k] = outcome(stmt.NewBindStatement(stmt.WithBindStatementQuery(q), stmt.WithBindStatementParams(stmt.BindParams{stmt.NewBindParam(w*1000 + k), stmt.NewBindParam(fmt.Sprintf("it's %d", w))})).Statements())
				})
				r.progress.Add(1)
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for w := range bound {
		for k, got := range bound[w] {
			q := strings.Replace(strings.Replace(bindQueries[k%len(bindQueries)], "?", fmt.Sprint(w*1000+k), 1), "?", fmt.Sprintf("'it''s %d'", w), 1)
			if want := outcome(sql.NewParser().ParseString(q)); got != want {
				r.Fail("concurrent binding", "%s\nbound: %s\nwritten: %s", q, clip(got, 1500), clip(want, 1500))
			}
			r.Ev("concurrent bindings")
		}
	}
	// Phase 2: fresh parsers, one after another.
	want := make([]string, n)
	for i, t := range texts {
		usedAlone := ""
		r.Guard(t, func() {
			stmts, err := sql.NewParser().ParseString(t)
			want[i] = outcome(stmts, err)
			if err == nil {
				usedAlone = fmt.Sprint(use(stmts))
			}
		})
		r.Case(t)
		for w := 0; w < goroutines; w++ {
			if used[w][i] != usedAlone {
				r.Fail("concurrent use", "goroutine %d\ninput: %s\nconcurrent: %s\nalone: %s", w, t, clip(used[w][i], 1500), clip(usedAlone, 1500))
			}
			if conc[w][i] != want[i] {
				r.Fail("concurrent outcome", "goroutine %d\ninput: %s\nconcurrent: %s\nalone: %s", w, t, clip(conc[w][i], 1500), clip(want[i], 1500))
			}
		}
	}
	// Phase 3: one parser for everything, in random order, repeatedly.
	p := sql.NewParser()
	order := r.RNG("order", 0)
	var held []struct {
		i     int
		stmts []query.Statement
	}
	rounds := r.N(3, 10) * n
	lastBad := ""
	for k := 0; k < rounds && !r.Failed(); k++ {
		i := order.Intn(n)
		r.Guard(texts[i], func() {
			stmts, err := p.ParseString(texts[i])
			if got := outcome(stmts, err); got != want[i] {
				r.Fail("reused parser", "after %d parses (last invalid text: %s)\ninput: %s\nreused: %s\nfresh: %s", k, lastBad, texts[i], clip(got, 1500), clip(want[i], 1500))
			}
			if err != nil {
				lastBad = texts[i]
				r.Ev("reuse after invalid text")
			} else if k%5 != 0 {
				// The statements belong to the caller, whose changes are nothing to later parses.
				spoil(stmts)
				r.Ev("statements changed by their owner")
			} else {
				held = append(held, struct {
					i     int
					stmts []query.Statement
				}{i, stmts})
			}
		})
		r.progress.Add(1)
	}
	r.EvN("parses by one reused parser", rounds)
	// Statements returned earlier are as they were.
	for _, h := range held {
		if got := outcome(h.stmts, nil); got != want[h.i] {
			r.Fail("earlier statements changed", "input: %s\nthen: %s\nnow: %s", texts[h.i], clip(want[h.i], 1500), clip(got, 1500))
		}
	}
	for w := range kept {
		for i, stmts := range kept[w] {
			if stmts != nil {
				if got := outcome(stmts, nil); got != want[i] {
					r.Fail("earlier statements changed", "input: %s\nthen: %s\nnow: %s", texts[i], clip(want[i], 1500), clip(got, 1500))
				}
				r.Ev("earlier statements re-read")
			}
		}
	}
	r.EvN("earlier statements re-read", len(held))
}

// independentUse: each goroutine has statements of its own, and renders, copies, computes with and changes them at once with the
// others, with nothing of this monitor which would order them.
func independentUse(r *Run, goroutines int) {
	rng := r.RNG("use", 0)
	texts := []string{}
	fs := []string{"SUM", "COUNT", "MIN", "MAX", "AVG", "ABS", "CEIL", "FLOOR", "UPPER", "LOWER", "SIGN", "SQRT", "EXP", "TRIM", "REVERSE", "RAND", "NOW"}
	for _, f := range fs {
		arg := "x"
		if f == "RAND" || f == "NOW" {
			arg = ""
		}
		texts = append(texts, fmt.Sprintf("SELECT g, %s(%s) FROM t WHERE a = 1 AND b > 'z' GROUP BY g ORDER BY g DESC LIMIT 3, 4", f, arg))
	}
	for k := 0; k < r.N(60, 400); k++ {
		texts = append(texts, NewStmt(rng, kAll, nil).Text())
	}
	mine := make([][][]query.Statement, goroutines)
	got := make([][]string, goroutines)
	for w := range mine {
		for _, t := range texts {
			stmts, err := sql.NewParser().ParseString(t)
			if err != nil {
				stmts = nil
			}
			mine[w] = append(mine[w], stmts)
		}
		got[w] = make([]string, len(texts))
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := range mine {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k, stmts := range mine[w] {
				r.Guard(texts[k], func() {
					got[w][k] = fmt.Sprint(use(stmts)) + outcome(stmts, nil)
					spoil(stmts)
				})
			}
		}()
	}
	close(start)
	wg.Wait()
	for k, t := range texts {
		for w := range got {
			if got[w][k] != got[0][k] {
				r.Fail("concurrent use", "goroutine %d\ninput: %s\none: %s\nanother: %s", w, t, clip(got[w][k], 1500), clip(got[0][k], 1500))
			}
		}
		r.Case("use " + t)
	}
	r.EvN("concurrent uses", len(texts)*goroutines)
	// The aggregators of two statements, fed in turns.
	for _, f := range fs[:5] {
		r.Guard(f, func() {
			var aggrs []fn.Aggregator
			for k := 0; k < 3; k++ {
				stmts, err := sql.NewParser().ParseString("SELECT " + f + "(x) FROM t")
				if err != nil {
					r.Fail("rejected", "%s: %v", f, err)
					return
				}
				fx, _ := stmts[0].(query.Select).Selectors()[0].Function()
				a, err := fx.Aggregator()
				if err != nil {
					r.Fail("aggregator", "%s: %v", f, err)
					return
				}
				aggrs = append(aggrs, a)
				a.Reset()
			}
			for n := 1; n < 10; n++ {
				for k, a := range aggrs {
					if n%(k+1) == 0 {
						a.Aggregate([]any{n * (k + 1)})
					}
				}
			}
			for k, a := range aggrs {
				sum, cnt, lo, hi := 0.0, 0.0, 0.0, 0.0
				for n := 1; n < 10; n++ {
					if n%(k+1) == 0 {
						v := float64(n * (k + 1))
						if cnt == 0 {
							lo = v
						}
						sum, cnt, hi = sum+v, cnt+1, v
					}
				}
				want := map[string]float64{"SUM": sum, "COUNT": cnt, "MIN": lo, "MAX": hi, "AVG": sum / cnt}[f]
				rs, err := a.Finalize()
				if err != nil {
					r.Fail("aggregator", "%s: %v", f, err)
					return
				}
				rows, err := drainFn(rs)
				if err != nil || len(rows) != 1 || len(rows[0]) != 1 || fmt.Sprint(rows[0][0]) != fmt.Sprint(want) {
					r.Fail("aggregators in turns", "%s of statement %d is %v (%v), want %v", f, k, rows, err, want)
				}
				r.Ev("aggregators in turns")
			}
		})
	}
}
