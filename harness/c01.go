package main

import (
	"math/rand"
	"strings"
)

// exotic statements: valid or nearly valid SQL that the library may or may not support.
var exotic = []string{
	"WITH c AS (SELECT 1) SELECT * FROM c", "SELECT a FROM t UNION SELECT b FROM u", "SELECT * FROM a JOIN b ON a.x = b.x", "SELECT * FROM a LEFT OUTER JOIN b USING (id)",
	"SELECT * FROM a NATURAL JOIN b", "SELECT COUNT(DISTINCT a) FROM t", "SELECT a, SUM(b) OVER (PARTITION BY c) FROM t", "SELECT * FROM (SELECT * FROM t)", "SELECT * FROM f(1)",
	"SELECT a FROM t GROUP BY a HAVING COUNT(*) > 1", "SELECT a FROM t GROUP BY a, b", "SELECT a FROM t ORDER BY a COLLATE NOCASE DESC NULLS LAST", "SELECT 1", "SELECT NULL", "SELECT 'x'", "SELECT -1", "SELECT ?", "SELECT @a", "SELECT @@v",
	"SELECT * FROM t LIMIT ?", "SELECT * FROM t LIMIT ? OFFSET ?", "SELECT * FROM t LIMIT 0", "SELECT * FROM t LIMIT -1", "SELECT * FROM t LIMIT 1 + 1", "SELECT * FROM t LIMIT 99999999999999999999999", "SELECT * FROM t LIMIT 'x'", "SELECT * FROM t LIMIT a",
	"SELECT CASE WHEN a = 1 THEN 'x' ELSE 'y' END FROM t", "SELECT CAST(a AS INT) FROM t", "SELECT a || b FROM t", "SELECT (a) FROM (t)", "SELECT t.* FROM t", "SELECT a.b.c FROM a.b", "SELECT DISTINCT * FROM t", "SELECT ALL a FROM t",
	"INSERT INTO t DEFAULT VALUES", "INSERT INTO t SELECT * FROM u", "INSERT OR REPLACE INTO t VALUES (1)", "REPLACE INTO t VALUES (1)", "INSERT INTO t (a) VALUES (1, 2)", "INSERT INTO t (a, b) VALUES (1)", "INSERT INTO t VALUES (a = 1, b = 2)", "INSERT INTO t VALUES (1) ON CONFLICT DO NOTHING", "INSERT INTO t VALUES (1) RETURNING a", "INSERT INTO t AS x (a) VALUES (1)", "INSERT INTO t VALUES ((SELECT 1))", "INSERT INTO t VALUES ()", "INSERT INTO t VALUES (NULL)", "INSERT INTO t () VALUES ()",
	"UPDATE t SET (a, b) = (1, 2)", "UPDATE t SET a = 1 FROM u", "UPDATE OR IGNORE t SET a = 1", "UPDATE t SET a = (SELECT 1)", "UPDATE t SET a = a", "UPDATE t SET a = a + b * c", "UPDATE t SET a = - a", "UPDATE t AS x SET a = 1", "UPDATE t INDEXED BY i SET a = 1", "UPDATE t SET a = 1 RETURNING a", "UPDATE t SET a = a / 0",
	"DELETE FROM t RETURNING a", "DELETE FROM t AS x WHERE a = 1", "DELETE FROM t WHERE a", "DELETE FROM t WHERE 1", "DELETE FROM t WHERE NOT a", "DELETE FROM t WHERE a IN ()", "DELETE FROM t NOT INDEXED",
	"CREATE TABLE t AS SELECT * FROM u", "CREATE TABLE t (a)", "CREATE TABLE t (a foo)", "CREATE TABLE t (a INT CHECK (a > 1), UNIQUE (a), FOREIGN KEY (a) REFERENCES u (b))", "CREATE TEMP TABLE t (a INT)", "CREATE TABLE t (a VARCHAR(10, 2) DEFAULT 'x' NOT NULL UNIQUE)", "CREATE TABLE t (a INT, PRIMARY KEY (a DESC))", "CREATE TABLE t (a INT PRIMARY KEY AUTOINCREMENT) WITHOUT ROWID", "CREATE TABLE t (KEY (a))", "CREATE TABLE t (KEY k (a))", "CREATE TABLE t (PRIMARY KEY (a))", "CREATE TABLE t (INDEX i (a), UNIQUE KEY u (a))", "CREATE TABLE t (a INT(-1))", "CREATE TABLE t (a DECIMAL(1e3))", "CREATE TABLE t (a ENUM('x','y'))", "CREATE TABLE t (a INT, b INT, PRIMARY KEY (a, b), CONSTRAINT c UNIQUE (b))", "CREATE TABLE t (a INT) ENGINE = InnoDB",
	"CREATE UNIQUE INDEX i ON t (a)", "CREATE INDEX i ON t (a + 1)", "CREATE INDEX i ON t (a COLLATE x ASC)", "CREATE INDEX i ON t (a) WHERE a > 1", "CREATE INDEX s.i ON t (a, b)", "CREATE VIEW v AS SELECT 1", "CREATE TRIGGER x AFTER INSERT ON t BEGIN SELECT 1; END", "CREATE VIRTUAL TABLE t USING fts5(a)",
	"DROP VIEW v", "DROP TRIGGER x", "DROP TABLE a, b CASCADE", "DROP INDEX s.i", "ALTER TABLE t ADD UNIQUE (a)", "ALTER TABLE t ADD CONSTRAINT p PRIMARY KEY (a)", "ALTER TABLE t ADD INDEX i (a, b)", "ALTER TABLE t ADD COLUMN KEY (a)", "ALTER TABLE t RENAME a TO b", "ALTER DATABASE a", "ALTER DATABASE a RENAME TO b", "ALTER TABLE t DROP COLUMN a",
	"EXPLAIN SELECT 1", "EXPLAIN QUERY PLAN SELECT * FROM t", "PRAGMA x = 1", "ATTACH DATABASE 'a' AS b", "DETACH a", "ANALYZE t", "REINDEX t", "SAVEPOINT s", "RELEASE s", "ROLLBACK TO s", "VALUES (1), (2)", "BEGIN IMMEDIATE TRANSACTION", "BEGIN TRANSACTION x", "END", "VACUUM a INTO 'x'", "VACUUM ANALYZE", "TRUNCATE TABLE a, b", "USE a", "COPY t FROM STDIN", "COPY t (a) FROM 'x' WITH FORMAT BINARY", "COPY t FROM (x)", "COPY s.t FROM x CSV", "COPY t AS x FROM y",
	"SET a = 1", "SHOW TABLES", "GRANT ALL", "", ";", ";;", " ", "\n", "--", "-- x", "/*", "/* */", "'", "''", "\"", "`", "[", "]", "(", ")", "()", "?", "*", "@", "@@", "$", ":", "X'", "X'0'", "0x", "1e", ".", "..", "\x00", "\ufeffSELECT 1", "SELECT 1\x00", "é", "SELECT é FROM t", "SELECT \"\" FROM ``", "SELECT [] FROM []", "SELECT '' FROM ''", "SELECT * FROM ''", "DROP TABLE ''", "DROP TABLE '", "CREATE TABLE `` (`` INT)", "CREATE TABLE t (`a` `INT`)", "CREATE TABLE t ('a' 'INT'('1'))", "INSERT INTO ('t') VALUES (1)", "SELECT ((a)) FROM ((t))", "CREATE DATABASE 'x'", "CREATE DATABASE (x)", "USE ''", "SELECT FROM t", "SELECT * t", "SELECT * FROM t WHERE", "SELECT * FROM t WHERE a =", "SELECT * FROM t GROUP BY", "SELECT * FROM t ORDER BY", "SELECT COUNT() FROM t", "SELECT COUNT(*, a) FROM t", "SELECT MAX() FROM t", "SELECT NOSUCH(a) FROM t", "SELECT ABS FROM t", "SELECT ABS() FROM t", "SELECT COUNT(*)", "SELECT ''()", "SELECT `COUNT`(*) FROM t", "SELECT COUNT ( * ) AS n FROM t", "SELECT a AS 'b c' FROM t AS 'x y'",
}

var soup = []string{"SELECT", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "FROM", "WHERE", "AND", "OR", "NOT", "IN", "IS", "NULL", "BETWEEN", "LIKE", "GROUP", "BY", "ORDER", "LIMIT", "OFFSET", "ASC", "DESC", "CREATE", "DROP", "ALTER", "TABLE", "DATABASE", "INDEX", "IF", "EXISTS", "PRIMARY", "KEY", "UNIQUE", "ADD", "COLUMN", "RENAME", "TO", "ON", "USE", "COPY", "TRUNCATE", "VACUUM", "ANALYZE", "BEGIN", "COMMIT", "END", "ROLLBACK", "TRANSACTION", "DISTINCT", "AS", "CASE", "WHEN", "THEN", "ELSE", "CAST", "COUNT", "SUM", "ABS", "INT", "VARCHAR", "TEXT", "CSV", "FORMAT", "WITH", "DEFAULT", "CASCADE", "UNION", "JOIN", "HAVING", "EXPLAIN", "(", ")", ",", ".", ";", "*", "=", "<", ">", "<=", ">=", "<>", "!=", "==", "+", "-", "/", "%", "||", "|", "&", "~", "?", "?1", "$1", ":n", "@n", "@@n", "a", "b", "t", "\"q\"", "`q`", "[q]", "'s'", "''", "1", "-1", "1.5", "1e5", "X'00'", "0x1", "'", "\"", "`", "[", "--", "/*", "*/", "\n", "\x00", "é", "😀", "\xff", "#", "\\", "{", "!", "^"}

func mutate(rng *rand.Rand, s string) string {
	switch rng.Intn(10) {
	case 0: // truncate
		if 0 < len(s) {
			return s[:rng.Intn(len(s))]
		}
	case 1: // cut front
		if 0 < len(s) {
			return s[rng.Intn(len(s)):]
		}
	case 2, 3, 4: // token edits
		f := strings.Fields(s)
		for k := 1 + rng.Intn(3); 0 < k && 0 < len(f); k-- {
			i := rng.Intn(len(f))
			switch rng.Intn(4) {
			case 0:
				f = append(f[:i:i], f[i+1:]...)
			case 1:
				f = append(f[:i:i], append([]string{f[rng.Intn(len(f))]}, f[i:]...)...)
			case 2:
				f[i] = soup[rng.Intn(len(soup))]
			case 3:
				j := rng.Intn(len(f))
				f[i], f[j] = f[j], f[i]
			}
		}
		return strings.Join(f, " ")
	case 5, 6: // byte edits
		b := []byte(s)
		for k := 1 + rng.Intn(4); 0 < k && 0 < len(b); k-- {
			i := rng.Intn(len(b))
			switch rng.Intn(3) {
			case 0:
				b[i] = byte(rng.Intn(256))
			case 1:
				b = append(b[:i], b[i+1:]...)
			case 2:
				b = append(b[:i:i], append([]byte{"'\"`()[];,.*?-=\\\x00\xff"[rng.Intn(17)]}, b[i:]...)...)
			}
		}
		return string(b)
	case 7: // splice
		o := exotic[rng.Intn(len(exotic))]
		i, j := 0, 0
		if 0 < len(s) {
			i = rng.Intn(len(s))
		}
		if 0 < len(o) {
			j = rng.Intn(len(o))
		}
		return s[:i] + o[j:]
	case 8:
		return s + ";" + exotic[rng.Intn(len(exotic))]
	case 9:
		return strings.NewReplacer("a", soup[rng.Intn(len(soup))], "t", soup[rng.Intn(len(soup))]).Replace(s)
	}
	return s
}

func totality(r *Run, text string) {
	r.Guard("input: "+clip(text, 3000), func() {
		stmts, err := Parse(text)
		if err != nil {
			r.Ev("rejected")
			if len(stmts) != 0 {
				r.Fail("both", "an error and %d statements\ninput: %q\nerror: %v", len(stmts), text, err)
			}
			_ = err.Error()
			return
		}
		r.Ev("accepted")
		if len(stmts) == 0 {
			r.Fail("neither", "neither statements nor an error\ninput: %q", text)
		}
		for _, s := range stmts {
			if s == nil {
				r.Fail("nil statement", "input: %q", text)
				continue
			}
			r.EvN("inspected", 1)
			Walk(s)
		}
	})
	r.Case(text)
}

func init() {
	register("C01", func(r *Run) {
		r.Rule = "inputs: exotic and malformed SQL, generated statements, token/byte/splice mutations of both, token soup, random bytes, nesting and long lists; every accepted statement is rendered and walked through every accessor; non-trivial: distinct inputs"
		r.Assume = []string{"a hang is recognised as 150 s without any case finishing (a case takes milliseconds)"}
		r.Parallel("exotic", len(exotic), func(i int, rng *rand.Rand) { totality(r, exotic[i]) })
		// Every prefix of some statements: the input may stop anywhere.
		r.Parallel("prefix", r.N(25, len(exotic)), func(i int, rng *rand.Rand) {
			s := exotic[(i*7)%len(exotic)]
			if 120 < len(s) {
				s = s[:120]
			}
			for n := range s {
				totality(r, s[:n])
			}
		})
		r.Parallel("gen", r.N(1500, 40000), func(i int, rng *rand.Rand) {
			totality(r, NewStmt(rng, kAll, func(g *G) { g.Verb, g.Alias, g.Special, g.Big = true, true, true, i%20 == 0 }).Text())
		})
		r.Parallel("mutant", r.N(8000, 250000), func(i int, rng *rand.Rand) {
			s := exotic[rng.Intn(len(exotic))]
			if rng.Intn(2) == 0 {
				s = NewStmt(rng, kAll, func(g *G) { g.Verb, g.Alias, g.Special = true, true, true }).Text()
			}
			for k := 1 + rng.Intn(3); 0 < k; k-- {
				s = mutate(rng, s)
			}
			totality(r, s)
		})
		r.Parallel("soup", r.N(2500, 60000), func(i int, rng *rand.Rand) {
			f := []string{}
			for k := rng.Intn(14); 0 <= k; k-- {
				f = append(f, soup[rng.Intn(len(soup))])
			}
			totality(r, strings.Join(f, []string{" ", "", "  "}[rng.Intn(3)]))
		})
		r.Parallel("bytes", r.N(600, 15000), func(i int, rng *rand.Rand) {
			b := make([]byte, rng.Intn(40))
			rng.Read(b)
			totality(r, string(b))
		})
		depths := []int{1, 2, 3, 5, 9, 17, 33, 65, 129}
		if r.Tier == "thorough" {
			depths = append(depths, 257, 513, 1025)
		}
		r.Parallel("nest", len(depths), func(i int, rng *rand.Rand) {
			d := depths[i]
			rep := strings.Repeat
			totality(r, "SELECT * FROM t WHERE "+rep("(", d)+"a = 1"+rep(")", d))
			totality(r, "SELECT * FROM t WHERE "+rep("(", d)+"a = 1")
			totality(r, "SELECT "+rep("ABS(", d)+"a"+rep(")", d)+" FROM t")
			totality(r, "INSERT INTO t VALUES ("+rep("(", d)+"1"+rep(")", d)+")")
			totality(r, "DELETE FROM t WHERE "+rep("NOT ", d)+"a")
			totality(r, "UPDATE t SET a = "+rep("- ", d)+"1")
			totality(r, "DROP TABLE "+rep("(", d)+"t"+rep(")", d))
			totality(r, "SELECT a"+rep(", a", d)+" FROM t"+rep(", t", d))
			totality(r, "INSERT INTO t VALUES (1"+rep(", ?", d)+")"+rep(", (1)", d))
			totality(r, rep(";", d)+"BEGIN"+rep(";", d))
			totality(r, "SELECT '"+rep("''", d)+"' FROM t")
			totality(r, rep("/*", d)+rep("*/", d))
			totality(r, "CREATE TABLE "+rep("x", d)+" (a INT"+rep(", KEY k (a)", d)+")")
		})
	})
}
