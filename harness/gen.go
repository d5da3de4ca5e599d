package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

// Tok is a token of a generated statement.
type Tok struct {
	Text string
	KW   bool // a keyword: its letter case is irrelevant
}

// G generates one statement of the supported dialect together with the content that has to be reported for it.
type G struct {
	*rand.Rand
	Toks []Tok
	Exp  Lines

	Special bool // identifiers that need quotes
	Verb    bool // conditions and values that are only kept verbatim
	Alias   bool // column aliases
	Big     bool // boundary sizes
	Kind    string
	used    []string // the names written so far
}

func (g *G) kw(s string) {
	for _, w := range strings.Fields(s) {
		g.Toks = append(g.Toks, Tok{w, true})
	}
}
func (g *G) p(s string)                   { g.Toks = append(g.Toks, Tok{s, false}) }
func (g *G) e(format string, args ...any) { g.Exp.add(format, args...) }
func (g *G) chance(n int) bool            { return g.Intn(n) == 0 }
func (g *G) pick(ss ...string) string     { return ss[g.Intn(len(ss))] }

// Text renders the tokens in the simplest layout.
func (g *G) Text() string {
	strs := []string{}
	for _, t := range g.Toks {
		strs = append(strs, t.Text)
	}
	return strings.Join(strs, " ")
}

// Layout renders the tokens with random white space, comments and keyword letter case.
func (g *G) Layout(r *rand.Rand) string {
	var sb strings.Builder
	gap := func(first bool) {
		n := 1
		if first {
			n = r.Intn(2)
		}
		if r.Intn(4) == 0 {
			n += r.Intn(3)
		}
		for i := 0; i < n; i++ {
			switch r.Intn(9) {
			case 0:
				sb.WriteString("\n")
			case 1:
				sb.WriteString("\t")
			case 2:
				sb.WriteString("\r\n")
			case 3:
				sb.WriteString("/* c; 'x' \" -- */")
			case 4:
				sb.WriteString(" -- c ; ' /* \"\n")
			case 5:
				sb.WriteString("/**/")
			case 6:
				sb.WriteString("\v")
			default:
				sb.WriteString(" ")
			}
		}
	}
	for i, t := range g.Toks {
		tight := 0 < i && (isPunct(t.Text) || isPunct(g.Toks[i-1].Text)) && t.Text != "-" && g.Toks[i-1].Text != "-"
		if !tight || r.Intn(2) == 0 {
			gap(i == 0)
		}
		s := t.Text
		if t.KW {
			s = randCase(r, s)
		}
		sb.WriteString(s)
	}
	if r.Intn(3) == 0 {
		gap(false)
	}
	return sb.String()
}

func isPunct(s string) bool { return s == "(" || s == ")" || s == "," || s == "=" || s == ";" }

func randCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i, c := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToLower(string(c))[0]
		} else {
			b[i] = strings.ToUpper(string(c))[0]
		}
	}
	return string(b)
}

var boundarySizes = []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257}

// count gives a list length: mostly small, sometimes a boundary size.
func (g *G) count(min, max int) int {
	if g.Big && g.chance(3) {
		n := boundarySizes[g.Intn(len(boundarySizes))]
		if n < min {
			n = min
		}
		return n
	}
	return min + g.Intn(max-min+1)
}

var plainNames = []string{"id", "ID", "name", "users", "orders", "price", "Customer", "a", "b", "c", "x", "y", "z", "col1", "C1", "tbl", "T_1", "_u", "ycsb_key", "field0", "FIELD1", "usertable", "o_id", "d_w_id", "HISTORY", "item", "age", "e", "E1", "x1", "pk", "ts", "Val", "Max1", "count_all", "value_", "nul", "truex"}

func randName(r *rand.Rand, big bool) string {
	switch r.Intn(4) {
	case 0, 1:
		return plainNames[r.Intn(len(plainNames))]
	case 2:
		n := 1 + r.Intn(6)
		if big && r.Intn(3) == 0 {
			n = boundarySizes[r.Intn(len(boundarySizes))]
		}
		const alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
		b := []byte{'q'}
		for i := 0; i < n; i++ {
			b = append(b, alpha[r.Intn(len(alpha))])
		}
		return string(b) + strconv.Itoa(r.Intn(100))
	}
	return plainNames[r.Intn(len(plainNames))] + "_" + strconv.Itoa(r.Intn(1000))
}

var specialNames = []string{"a b", "select", "Order", "group", "日本", "a-b", "1st", "x,y", "é", "a;b", "TABLE", "#t", "$x", "a--b", "a  b", "b'", "'z", "x)", "(y", "it's", "a`b", "`c", "f(x)", "a\"b", "[q", "copy", "Format", "USE", "column", "Csv", "engine", "primary", "key", "values"}

// backtick quotes a name.
func backtick(n string) string { return "`" + strings.ReplaceAll(n, "`", "``") + "`" }

// anyName gives a name, which is now and then one that the statement has already used elsewhere, maybe in another letter case.
func (g *G) anyName() string {
	n := ""
	if 0 < len(g.used) && g.chance(6) {
		n = g.used[g.Intn(len(g.used))]
		switch g.Intn(6) {
		case 0:
			n = strings.ToUpper(n)
		case 1:
			n = strings.ToLower(n)
		}
	} else {
		n = randName(g.Rand, g.Big)
	}
	g.used = append(g.used, n)
	return n
}

// name writes an identifier, maybe quoted, and returns its name; for positions that may report the quotes.
func (g *G) name() string {
	n := g.anyName()
	switch {
	case g.chance(12):
		g.p("`" + n + "`")
	case g.chance(12):
		g.p("\"" + n + "\"")
	case g.chance(20):
		g.p("[" + n + "]")
	default:
		g.p(n)
	}
	return n
}

// strictName writes an identifier for positions that report the name without quotes.
func (g *G) strictName() string {
	n := g.anyName()
	if g.Special && g.chance(4) {
		n = specialNames[g.Intn(len(specialNames))]
		g.p(backtick(n))
		return n
	}
	if g.chance(8) {
		g.p("`" + n + "`")
		return n
	}
	g.p(n)
	return n
}

func (g *G) plainName() string {
	n := g.anyName()
	g.p(n)
	return n
}

// strictTable writes a table name with an optional schema and returns (name, full name).
func (g *G) strictTable() (string, string) {
	if g.chance(5) {
		s := g.strictName()
		g.p(".")
		n := g.strictName()
		return n, s + "." + n
	}
	n := g.strictName()
	return n, n
}

func (g *G) table() string {
	if g.chance(5) {
		s := g.name()
		g.p(".")
		return s + "." + g.name()
	}
	return g.name()
}

var stringAlphabet = []string{"a", "b", "Z", "0", "9", " ", "''", "\"", "`", ";", "--", "/*", "*/", "?", "$1", ":n", "%", "_", "\\", "\n", "\t", "(", ")", ",", "=", "é", "日本", "😀", "NULL", "SELECT", ".", "-", "+", "\\'" + "'", "*", "@", "[", "]", "{", "}", "|", "&", "\x01", "\u00a0", "  "}

var oddStrings = []string{"", "''", "''''", "?", "*", "NULL", "null", "TRUE", "1", "-1", "1.5", "0x10", " ", "  x  ", "''a", "a''", "$1", ":x", "--", "/* */", "a;b", "\"q\"", "`q`", "()", "CURRENT_TIMESTAMP", "\\", "\\''", "X''00''", "2020-01-01 00:00:00", "a=b", "(", ")", "((x))"}

// strContent gives the inside of a string literal as written (quotes doubled).
func strContent(r *rand.Rand, big bool) string {
	if r.Intn(5) == 0 {
		return oddStrings[r.Intn(len(oddStrings))]
	}
	n := r.Intn(6)
	if big && r.Intn(4) == 0 {
		n = boundarySizes[r.Intn(len(boundarySizes))]
		if r.Intn(8) == 0 {
			n *= 16
		}
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(stringAlphabet[r.Intn(len(stringAlphabet))])
	}
	return sb.String()
}

func unquote(content string) string { return strings.ReplaceAll(content, "''", "'") }

var numberTexts = []string{"0", "1", "7", "42", "100", "007", "0.0", "0.5", ".5", "5.", "1e10", "1E+5", "2.5e-3", "1e308", "1e400", "127", "128", "255", "256", "32767", "32768", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "123456789012345678901234567890", "0x1F", "0.1", "3.141592653589793", "1000000", "00"}

func numText(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return numberTexts[r.Intn(len(numberTexts))]
	}
	switch r.Intn(3) {
	case 0:
		return strconv.Itoa(r.Intn(100000))
	case 1:
		return strconv.FormatFloat(r.NormFloat64()*1000, 'f', r.Intn(6), 64)[0:0] + strconv.FormatFloat(float64(r.Intn(100000))/16, 'f', r.Intn(6), 64)
	}
	return strconv.FormatInt(r.Int63(), 10)
}

// literal writes a literal value and returns how it has to be reported.
func (g *G) literal() string {
	switch g.Intn(12) {
	case 0, 1, 2, 3:
		s := strContent(g.Rand, g.Big)
		g.p("'" + s + "'")
		return "S:" + unquote(s)
	case 4, 5, 6, 7:
		n := numText(g.Rand)
		switch g.Intn(6) {
		case 0:
			g.p("-" + n)
			return "T:-" + n
		case 1:
			g.p("- " + n)
			return "T:-" + n
		case 2:
			g.p("+" + n)
			return "T:+" + n
		}
		g.p(n)
		return "T:" + n
	case 8:
		k := g.pick("NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP", "null", "true", "False")
		g.p(k)
		return "T:" + k
	case 9:
		b := g.pick("X''", "X'00'", "X'DEADBEEF'", "x'0aFf'", "X'27'")
		g.p(b)
		return "T:" + b
	case 10:
		return g.bind()
	}
	n := strconv.Itoa(g.Intn(1000))
	g.p(n)
	return "T:" + n
}

func (g *G) bind() string {
	b := g.pick("?", "?", "?", "?1", "?12", "$1", "$2", ":name", ":a1", "$x")
	g.p(b)
	return "T:" + b
}

var cmpOps = []struct{ text, name string }{{"=", "EQ"}, {"!=", "NEQ"}, {"<>", "NEQ"}, {"<", "LT"}, {"<=", "LE"}, {">", "GT"}, {">=", "GE"}}

func (g *G) cmp() string {
	n := g.name()
	op := cmpOps[g.Intn(len(cmpOps))]
	g.p(op.text)
	return fmt.Sprintf("cmp(%s %s %s)", n, op.name, g.literal())
}

// where writes an optional condition.
func (g *G) where() {
	if g.chance(4) {
		g.e("where=none")
		return
	}
	g.kw("WHERE")
	g.e("where=%s", g.cond())
}

func (g *G) cond() string {
	switch g.Intn(6) {
	case 0, 1, 2:
		return g.cmp()
	case 3:
		l := g.cmp()
		g.kw("AND")
		return fmt.Sprintf("and(%s, %s)", l, g.cmp())
	case 4:
		l := g.cmp()
		g.kw("OR")
		return fmt.Sprintf("or(%s, %s)", l, g.cmp())
	}
	if !g.Verb {
		return g.cmp()
	}
	return g.verbatimCond()
}

// verbatimCond writes a condition that has no structured representation.
func (g *G) verbatimCond() string {
	mark := len(g.Toks)
	switch g.Intn(12) {
	case 0:
		g.plainName()
		g.p(g.pick("BETWEEN", "NOT BETWEEN"))
		g.literal()
		g.p("AND")
		g.literal()
	case 1:
		g.plainName()
		g.p(g.pick("IN", "NOT IN"))
		g.p("(")
		for i, n := 0, g.count(1, 4); i < n; i++ {
			if 0 < i {
				g.p(",")
			}
			g.literal()
		}
		g.p(")")
	case 2:
		g.plainName()
		g.p(g.pick("LIKE", "NOT LIKE"))
		g.literal()
	case 3:
		g.plainName()
		g.p(g.pick("IS NULL", "IS NOT NULL", "ISNULL", "NOTNULL"))
	case 4:
		g.p("(")
		g.cmp()
		g.p(")")
	case 5:
		g.p("(")
		g.cmp()
		g.p("AND")
		g.cmp()
		g.p(")")
	case 6:
		g.p("NOT")
		g.p("(")
		g.cmp()
		g.p("OR")
		g.cmp()
		g.p(")")
	case 7:
		g.p("ABS")
		g.p("(")
		g.plainName()
		g.p(")")
		g.p("==")
		g.literal()
	case 8:
		g.p("((")
		g.cmp()
		g.p("))")
	case 9:
		g.p("EXISTS")
		g.p("( SELECT x1 FROM y1 WHERE")
		g.cmp()
		g.p(")")
	case 10:
		g.plainName()
		g.p("IN")
		g.p("( SELECT x1 FROM y1 )")
	case 11:
		g.plainName()
		g.p("LIKE")
		g.p("'a!%%'")
		g.p("ESCAPE")
		g.p("'!'")
	}
	return "text(" + toksText(g.Toks[mark:]) + ")"
}

func toksText(toks []Tok) string {
	strs := []string{}
	for _, t := range toks {
		strs = append(strs, t.Text)
	}
	return squeeze(strings.Join(strs, " "))
}

type typeDef struct {
	text string
	t    query.DataType
	args int // how many size arguments make sense
}

var typeDefs = []typeDef{
	{"INT", query.IntType, 1}, {"INTEGER", query.IntegerType, 1}, {"BIGINT", query.BigIntType, 1}, {"SMALLINT", query.SmallIntType, 1}, {"TINYINT", query.TinyIntType, 1}, {"MEDIUMINT", query.MediumIntType, 1},
	{"FLOAT", query.FloatType, 2}, {"DOUBLE", query.DoubleType, 2}, {"DOUBLE PRECISION", query.DoublePrecisionType, 0}, {"REAL", query.RealType, 0},
	{"DECIMAL", query.DecimalType, 2}, {"NUMERIC", query.NumericType, 2}, {"CHAR", query.CharType, 1}, {"CHARACTER", query.CharacterType, 1},
	{"VARCHAR", query.VarCharType, 1}, {"VARCHARACTER", query.VarCharacterType, 1}, {"TEXT", query.TextType, 0}, {"TINYTEXT", query.TinyTextType, 0}, {"MEDIUMTEXT", query.MediumTextType, 0}, {"LONGTEXT", query.LongTextType, 0},
	{"BLOB", query.BlobType, 0}, {"TINYBLOB", query.TinyBlobType, 0}, {"MEDIUMBLOB", query.MediumBlobType, 0}, {"LONGBLOB", query.LongBlobType, 0}, {"VARBINARY", query.VarBinaryType, 1},
	{"BIT", query.BitType, 1}, {"BOOLEAN", query.BooleanType, 0}, {"CLOB", query.ClobType, 0}, {"DATE", query.DateType, 0}, {"DATETIME", query.DateTimeType, 0}, {"TIME", query.TimeType, 0}, {"TIMESTAMP", query.TimeStampType, 0}, {"YEAR", query.YearType, 0},
	{"SERIAL", query.SerialType, 0}, {"BIGSERIAL", query.BigSerialType, 0}, {"SMALLSERIAL", query.SmallSerialType, 0}, {"NAME", query.NameType, 0},
}

// typ writes a data type and returns "type=.. size=.. scale=..".
func (g *G) typ() string {
	td := typeDefs[g.Intn(len(typeDefs))]
	g.kw(td.text)
	if !strings.Contains(td.text, " ") && g.chance(12) { // the first word of such a type is the type
		g.kw(g.pick("UNSIGNED", "VARYING", "AUTO_INCREMENT", "UNSIGNED ZEROFILL", "WITH TIME ZONE"))
	}
	size := 0
	scale := ""
	if 0 < td.args && !g.chance(3) {
		size = []int{1, 2, 3, 8, 10, 11, 20, 32, 64, 100, 127, 128, 255, 256, 1000, 4096, 65535, 65536, 16777215, 2147483647}[g.Intn(20)]
		g.p("(")
		g.p(strconv.Itoa(size))
		if td.args == 2 && g.chance(2) {
			g.p(",")
			scale = strconv.Itoa(g.Intn(10))
			g.p(scale)
		}
		g.p(")")
	}
	return fmt.Sprintf("type=%d size=%d scale=%s", td.t, size, scale)
}

// distinctNames makes n names that are distinct, ignoring letter case.
func (g *G) distinctNames(n int) []string {
	seen := map[string]bool{}
	names := []string{}
	for len(names) < n {
		c := g.anyName()
		if g.Special && g.chance(6) {
			c = specialNames[g.Intn(len(specialNames))]
		}
		if seen[strings.ToLower(c)] {
			c = fmt.Sprintf("%s_n%d", randName(g.Rand, false), len(names))
		}
		if seen[strings.ToLower(c)] {
			continue
		}
		seen[strings.ToLower(c)] = true
		names = append(names, c)
	}
	return names
}

// indexColumns gives the columns of an index, which may name a column twice.
func (g *G) indexColumns(n int) []string {
	names := g.distinctNames(n)
	if g.chance(12) {
		c := names[g.Intn(len(names))]
		if g.chance(2) {
			c = []string{strings.ToUpper(c), strings.ToLower(c)}[g.Intn(2)]
		}
		names = append(names, c)
	}
	return names
}

// writeStrict writes a given name for positions that report it without quotes.
func (g *G) writeStrict(n string) {
	for _, c := range n {
		if !(c == '_' || ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')) {
			g.p(backtick(n))
			return
		}
	}
	for _, s := range specialNames {
		if strings.EqualFold(s, n) {
			g.p(backtick(n))
			return
		}
	}
	if g.chance(8) {
		g.p(backtick(n))
		return
	}
	g.p(n)
}

func (g *G) comma(i int) {
	if 0 < i {
		g.p(",")
	}
}

// Statement kinds.
const (
	kDDL = 1 << iota
	kAdmin
	kInsert
	kUpdate
	kSelect
	kDelete
	kAll = kDDL | kAdmin | kInsert | kUpdate | kSelect | kDelete
)

type genFunc struct {
	name  string
	class int
	f     func(g *G)
}

var genFuncs = []genFunc{
	{"create database", kDDL, (*G).createDatabase},
	{"drop database", kDDL, (*G).dropDatabase},
	{"alter database", kDDL, (*G).alterDatabase},
	{"create table", kDDL, (*G).createTable},
	{"create table", kDDL, (*G).createTable},
	{"create index", kDDL, (*G).createIndex},
	{"drop table", kDDL, (*G).dropTable},
	{"drop index", kDDL, (*G).dropIndex},
	{"alter table", kDDL, (*G).alterTable},
	{"alter table", kDDL, (*G).alterTable},
	{"use", kAdmin, (*G).use},
	{"truncate", kAdmin, (*G).truncate},
	{"copy", kAdmin, (*G).copyFrom},
	{"vacuum", kAdmin, (*G).vacuum},
	{"transaction", kAdmin, (*G).transaction},
	{"insert", kInsert, (*G).insert},
	{"insert", kInsert, (*G).insert},
	{"update", kUpdate, (*G).update},
	{"update", kUpdate, (*G).update},
	{"select", kSelect, (*G).selectStmt},
	{"select", kSelect, (*G).selectStmt},
	{"select", kSelect, (*G).selectStmt},
	{"delete", kDelete, (*G).deleteStmt},
}

// NewStmt generates one statement of the specified classes.
func NewStmt(r *rand.Rand, classes int, set func(g *G)) *G {
	g := &G{Rand: r}
	if set != nil {
		set(g)
	}
	for {
		gf := genFuncs[r.Intn(len(genFuncs))]
		if gf.class&classes == 0 {
			continue
		}
		g.Kind = gf.name
		gf.f(g)
		return g
	}
}

func (g *G) ifNotExists() bool {
	if g.chance(2) {
		return false
	}
	g.kw("IF NOT EXISTS")
	return true
}

func (g *G) ifExists() bool {
	if g.chance(2) {
		return false
	}
	g.kw("IF EXISTS")
	return true
}

func (g *G) createDatabase() {
	g.e("kind=%d", query.CreateDatabaseStatement)
	g.kw("CREATE DATABASE")
	ine := g.ifNotExists()
	n := g.name()
	g.e("name=%s", n)
	g.e("if_not_exists=%v", ine)
}

func (g *G) dropDatabase() {
	g.e("kind=%d", query.DropDatabaseStatement)
	g.kw("DROP DATABASE")
	ie := g.ifExists()
	n := g.name()
	g.e("name=%s", n)
	g.e("if_exists=%v", ie)
}

func (g *G) alterDatabase() {
	g.e("kind=%d", query.AlterDatabaseStatement)
	g.kw("ALTER DATABASE")
	g.e("name=%s", g.name())
	g.kw("RENAME TO")
	g.e("to=%s", g.name())
}

func (g *G) use() {
	g.e("kind=%d", query.UseStatement)
	g.kw("USE")
	g.e("name=%s", g.name())
}

func (g *G) createTable() {
	g.e("kind=%d", query.CreateTableStatement)
	g.kw("CREATE TABLE")
	ine := g.ifNotExists()
	n, full := g.strictTable()
	g.e("name=%s", n)
	g.e("full=%s", full)
	g.e("schema=%s", strings.TrimSuffix(strings.TrimSuffix(full, n), "."))
	g.e("if_not_exists=%v", ine)
	g.p("(")
	names := g.distinctNames(g.count(1, 6))
	columnPK := -1
	if g.chance(4) {
		columnPK = g.Intn(len(names))
	}
	idx := Lines{}
	// MySQL style secondary keys on one column.
	key := func() {
		g.p(",")
		g.kw(g.pick("KEY", "INDEX"))
		c := names[g.Intn(len(names))]
		iname := ""
		if !g.chance(6) {
			iname = g.plainName()
		}
		g.p("(")
		g.writeStrict(c)
		g.p(")")
		idx.add("secondary name=%s columns=%s", iname, c)
	}
	for i, c := range names {
		g.comma(i)
		g.writeStrict(c)
		typed := !g.chance(10)
		if !typed {
			// a column without a type
			g.e("column[%d]=%s type=%d size=0 scale=", i, c, query.UnknownData)
		} else {
			g.e("column[%d]=%s %s", i, c, g.typ())
		}
		if typed {
			g.columnConstraints()
		}
		if i == columnPK {
			if typed && g.chance(8) {
				g.kw("CONSTRAINT")
				g.plainName()
			}
			g.kw("PRIMARY KEY")
			if g.chance(3) {
				g.kw(g.pick("ASC", "DESC"))
			}
			if typed && g.chance(8) {
				g.kw("AUTOINCREMENT")
			}
			idx.add("primary name= columns=%s", c)
		}
		if g.chance(12) {
			g.kw("INDEX")
			idx.add("secondary name=%s columns=%s", g.plainName(), c)
		}
		if g.chance(10) {
			g.kw("NOT NULL")
		}
		if typed {
			g.columnConstraints()
		}
		if g.chance(25) {
			key() // between the columns, maybe of one that follows
		}
	}
	keys := func() {
		for g.chance(5) {
			key()
		}
	}
	g.tableConstraints(names, true)
	keys()
	if columnPK < 0 && g.chance(6) {
		// The grammar reads a key of one column as a column definition, so that a secondary key may follow.
		columnPK = g.Intn(len(names))
		c := names[columnPK]
		g.p(",")
		if g.chance(3) {
			g.kw("CONSTRAINT")
			g.plainName()
		}
		g.kw("PRIMARY KEY")
		g.p("(")
		g.writeStrict(c)
		g.p(")")
		idx.add("primary name= columns=%s", c)
		g.tableConstraints(names, true)
		keys()
	}
	g.tableConstraints(names, false)
	if columnPK < 0 && g.chance(2) {
		g.p(",")
		if g.chance(4) {
			g.kw("CONSTRAINT")
			g.plainName()
		}
		g.kw("PRIMARY KEY")
		g.p("(")
		perm := g.Perm(len(names))
		k := 1 + g.Intn(len(names))
		if 40 < k {
			k = 40
		}
		cols := []string{}
		for i := 0; i < k; i++ {
			g.comma(i)
			g.writeStrict(names[perm[i]])
			cols = append(cols, names[perm[i]])
			if g.chance(10) {
				g.kw(g.pick("ASC", "DESC"))
			}
		}
		g.p(")")
		idx.add("primary name= columns=%s", strings.Join(cols, ","))
		g.tableConstraints(names, false)
	}
	g.p(")")
	for i, x := range idx {
		g.e("index[%d]=%s", i, x)
	}
}

// columnConstraints writes constraints of a column that are not reported, which must not disturb what is.
func (g *G) columnConstraints() {
	for g.chance(14) {
		switch g.Intn(6) {
		case 0:
			g.kw("DEFAULT")
			g.p(g.pick("5", "- 5", "'x , y )'", "NULL", "( 5 )", "''"))
		case 1:
			g.kw("UNIQUE")
		case 2:
			g.kw("CHECK")
			g.p("(")
			g.plainName()
			g.p("> 1 )")
		case 3:
			g.kw("REFERENCES")
			g.plainName()
			g.p("(")
			g.plainName()
			g.p(")")
		case 4:
			g.kw("COLLATE")
			g.plainName()
		case 5:
			g.kw("CONSTRAINT")
			g.plainName()
			g.kw("NOT NULL")
		}
	}
}

// tableConstraints writes constraints of a table that are not reported, which must not disturb what is.
func (g *G) tableConstraints(names []string, keyMayFollow bool) {
	for g.chance(10) {
		kind := g.Intn(3)
		g.p(",")
		if g.chance(3) || keyMayFollow && kind == 2 {
			g.kw("CONSTRAINT")
			g.plainName()
		}
		col := func() {
			g.p("(")
			g.writeStrict(names[g.Intn(len(names))])
			g.p(")")
		}
		switch kind {
		case 0:
			g.kw("UNIQUE")
			col()
		case 1:
			g.kw("FOREIGN KEY")
			col()
			g.kw("REFERENCES")
			g.plainName()
			g.p("(")
			g.plainName()
			g.p(")")
		case 2:
			g.kw("CHECK")
			g.p("(")
			g.plainName()
			g.p("> 1 )")
		}
	}
	if keyMayFollow && g.chance(12) {
		g.p(",")
		g.kw(g.pick("UNIQUE KEY", "UNIQUE INDEX"))
		if g.chance(2) {
			g.plainName()
		}
		g.p("(")
		g.writeStrict(names[g.Intn(len(names))])
		g.p(")")
	}
}

func (g *G) createIndex() {
	g.e("kind=%d", query.CreateIndexStatement)
	g.kw("CREATE INDEX")
	ine := g.ifNotExists()
	n := g.strictName()
	g.kw("ON")
	t := g.strictName()
	g.e("table=%s", t)
	g.e("if_not_exists=%v", ine)
	g.p("(")
	names := g.indexColumns(g.count(1, 4))
	for i, c := range names {
		g.comma(i)
		g.writeStrict(c)
	}
	g.p(")")
	g.e("index=secondary name=%s columns=%s", n, strings.Join(names, ","))
}

func (g *G) dropTable() {
	g.e("kind=%d", query.DropTableStatement)
	g.kw("DROP TABLE")
	ie := g.ifExists()
	g.e("if_exists=%v", ie)
	names := []string{}
	for i, n := 0, g.count(1, 4); i < n; i++ {
		g.comma(i)
		if i == 0 {
			_, full := g.strictTable()
			g.e("table[%d]=%s", i, full)
			names = append(names, full)
			continue
		}
		t := g.strictName()
		g.e("table[%d]=%s", i, t)
		names = append(names, t)
	}
	if g.chance(4) {
		g.kw("CASCADE")
	}
	g.e("names=%s", strings.Join(names, ","))
}

func (g *G) dropIndex() {
	g.e("kind=%d", query.DropIndexStatement)
	g.kw("DROP INDEX")
	ie := g.ifExists()
	schema := ""
	if g.chance(3) {
		schema = g.strictName()
		g.p(".")
	}
	n := g.strictName()
	g.e("if_exists=%v", ie)
	g.e("index=%s", n)
	g.e("index2=%s", n)
	g.e("schema=%s", schema)
}

func (g *G) alterTable() {
	g.e("kind=%d", query.AlterTableStatement)
	g.kw("ALTER TABLE")
	full := g.table()
	g.e("table=%s", full[strings.LastIndex(full, ".")+1:])
	g.e("full=%s", full)
	switch g.Intn(6) {
	case 0:
		g.kw("RENAME TO")
		g.e("rename_to=%s", g.strictName())
	case 1:
		g.kw("RENAME")
		if g.chance(2) {
			g.kw("COLUMN")
		}
		a := g.name()
		g.kw("TO")
		g.e("rename_column=%s->%s", a, g.name())
	case 2:
		g.kw("ADD")
		if g.chance(2) {
			g.kw("COLUMN")
		}
		n := g.strictName()
		g.e("add_column=%s %s", n, g.typ())
	case 3, 4:
		g.kw("ADD")
		prefix := "add_index=primary name="
		if g.chance(2) {
			g.kw("PRIMARY KEY")
		} else {
			g.kw("INDEX")
			prefix = "add_index=secondary name=" + g.strictName()
		}
		g.p("(")
		names := g.indexColumns(g.count(1, 3))
		for i, c := range names {
			g.comma(i)
			g.writeStrict(c)
		}
		g.p(")")
		g.e("%s columns=%s", prefix, strings.Join(names, ","))
	case 5:
		g.kw("DROP")
		if g.chance(2) {
			g.kw("COLUMN")
		}
		g.e("drop_column=%s", g.strictName())
	}
}

func (g *G) truncate() {
	g.e("kind=%d", query.TruncateStatement)
	g.kw("TRUNCATE")
	if g.chance(2) {
		g.kw("TABLE")
	}
	n := g.count(1, 4)
	for i := 0; i < n; i++ {
		g.comma(i)
		g.e("table[%d]=%s", i, g.name())
	}
	g.e("ntables=%d", n)
}

func (g *G) copyFrom() {
	g.e("kind=%d", query.CopyStatement)
	g.kw("COPY")
	// Names in double quotes are reported without them.
	quoted := func(n string) string { return "\"" + strings.ReplaceAll(n, "\"", "\"\"") + "\"" }
	part := func() string {
		if g.chance(4) {
			n := g.anyName()
			if g.Special && g.chance(2) {
				n = specialNames[g.Intn(len(specialNames))]
			}
			g.p(quoted(n))
			return n
		}
		return g.plainName()
	}
	tbl := part()
	if g.chance(5) {
		g.p(".")
		tbl += "." + part()
	}
	g.e("table=%s", bareQualified(tbl))
	if g.chance(2) {
		g.p("(")
		names := g.distinctNames(g.count(1, 4))
		for i, c := range names {
			g.comma(i)
			if g.chance(4) {
				g.p(quoted(c))
			} else {
				c = safeName(c)
				g.p(c)
			}
			g.e("column[%d]=%s", i, c)
		}
		g.p(")")
	}
	g.kw("FROM")
	if g.chance(2) {
		n := g.plainName()
		g.e("source=%s", n)
	} else if g.chance(3) {
		n := specialNames[g.Intn(len(specialNames))]
		g.p(quoted(n))
		g.e("source=%s", n)
	} else {
		s := strContent(g.Rand, g.Big)
		g.p("'" + s + "'")
		g.e("source=%s", unquote(s))
	}
	f := query.CopyFormatText
	if g.chance(2) {
		if g.chance(2) {
			g.kw("WITH")
		}
		if g.chance(2) {
			g.kw("FORMAT")
		}
		switch g.Intn(3) {
		case 0:
			g.kw("TEXT")
		case 1:
			g.kw("CSV")
			f = query.CopyFormatCSV
		case 2:
			g.kw("BINARY")
			f = query.CopyFormatBinary
		}
	}
	g.e("format=%d", f)
}

func safeName(s string) string {
	for _, c := range s {
		if !(c == '_' || ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')) {
			return "sn1"
		}
	}
	for _, x := range specialNames {
		if x == s {
			return "sn2"
		}
	}
	return s
}

func (g *G) vacuum() {
	g.e("kind=%d", query.VacuumStatement)
	g.kw("VACUUM")
	if g.chance(3) {
		g.kw("ANALYZE")
	}
	if g.chance(3) {
		g.e("table=")
		return
	}
	g.e("table=%s", g.name())
}

func (g *G) transaction() {
	switch g.Intn(4) {
	case 0:
		g.e("kind=%d", query.BeginStatement)
		g.kw("BEGIN")
	case 1:
		g.e("kind=%d", query.CommitStatement)
		g.kw("COMMIT")
	case 2:
		g.e("kind=%d", query.CommitStatement)
		g.kw("END")
	case 3:
		g.e("kind=%d", query.RollbackStatement)
		g.kw("ROLLBACK")
	}
	if g.chance(2) {
		g.kw("TRANSACTION")
	}
}

// value writes an inserted value: a literal or an expression that is kept by its text.
func (g *G) value() string {
	if !g.Verb || !g.chance(4) {
		return g.literal()
	}
	return g.exprValue()
}

func (g *G) exprValue() string {
	mark := len(g.Toks)
	switch g.Intn(10) {
	case 8:
		g.p("-")
		g.p("-")
		g.p(strconv.Itoa(g.Intn(100)))
	case 9:
		g.p("+")
		g.p("-")
		g.p(strconv.Itoa(g.Intn(100)))
	case 0:
		g.p("ABS")
		g.p("(")
		g.literal()
		g.p(")")
	case 1:
		g.p("(")
		g.literal()
		g.p(")")
	case 2:
		g.literal()
		g.p("||")
		g.literal()
	case 3:
		g.p("NOW")
		g.p("(")
		g.p(")")
	case 4:
		g.p("CAST")
		g.p("(")
		g.literal()
		g.p("AS INT )")
	case 5:
		g.p("CASE WHEN")
		g.plainName()
		g.p("IS NULL THEN")
		g.literal()
		g.p("ELSE")
		g.literal()
		g.p("END")
	case 6:
		g.p("UPPER")
		g.p("(")
		g.literal()
		g.p(",")
		g.literal()
		g.p(")")
	case 7:
		g.p("~")
		g.p(strconv.Itoa(g.Intn(100)))
	}
	return "T:" + toksText(g.Toks[mark:])
}

func (g *G) insert() {
	g.e("kind=%d", query.InsertStatement)
	g.kw("INSERT INTO")
	n, full := g.strictTable()
	g.e("table=%s", n)
	g.e("full=%s", full)
	ncols := g.count(1, 5)
	wide := g.Big && g.chance(12)
	if wide {
		ncols = 300 + g.Intn(500)
	}
	names := make([]string, ncols)
	keyed := !wide && g.chance(8)
	if keyed {
		// the rows name the columns
		for i := range names {
			names[i] = fmt.Sprintf("%s_%d", randName(g.Rand, false), i)
		}
	} else if !g.chance(6) {
		g.p("(")
		for i := range names {
			g.comma(i)
			names[i] = g.name()
		}
		g.p(")")
	}
	g.kw("VALUES")
	nrows := g.count(1, 3)
	if 1500 < nrows*ncols {
		nrows = 1 + 1500/ncols
	}
	g.e("rows=%d", nrows)
	for i := 0; i < nrows; i++ {
		g.comma(i)
		g.p("(")
		g.e("row[%d]=%d", i, ncols)
		for j := 0; j < ncols; j++ {
			g.comma(j)
			if keyed {
				g.p(names[j])
				g.p("=")
				g.e("row[%d][%d]=%s := %s", i, j, names[j], g.literal())
				continue
			}
			if g.Verb && names[j] != "" && g.chance(12) {
				// a comparison is a value
				mark := len(g.Toks)
				g.plainName()
				g.p(g.pick("=", "<", ">", "<=", ">=", "<>", "!="))
				g.literal()
				g.e("row[%d][%d]=%s := T:%s", i, j, names[j], toksText(g.Toks[mark:]))
				continue
			}
			g.e("row[%d][%d]=%s := %s", i, j, names[j], g.value())
		}
		g.p(")")
	}
	g.e("first_row=%d", ncols)
}

func (g *G) update() {
	g.e("kind=%d", query.UpdateStatement)
	g.kw("UPDATE")
	g.aliasedTable()
	g.kw("SET")
	n := g.count(1, 4)
	g.e("sets=%d", n)
	for i := 0; i < n; i++ {
		g.comma(i)
		c := g.name()
		g.p("=")
		if g.chance(3) {
			a := g.name()
			op := g.pick("+", "-", "*", "/", "%")
			g.p(op)
			mark := len(g.Toks)
			switch g.Intn(4) {
			case 0:
				g.plainName()
			case 1:
				if g.Verb {
					g.operand()
					break
				}
				g.p(numText(g.Rand))
			default:
				g.p(numText(g.Rand))
			}
			g.e("set[%d]=%s := %s(%s,%s)", i, c, op, a, toksText(g.Toks[mark:]))
			continue
		}
		g.e("set[%d]=%s := %s", i, c, g.value())
	}
	g.where()
}

// aliasedTable writes a table with an optional alias.
func (g *G) aliasedTable() {
	mark := len(g.Toks)
	g.e("table=%s", g.table())
	written := toksText(g.Toks[mark:])
	if g.chance(8) {
		g.kw("AS")
		written += " AS " + g.plainName()
	}
	g.e("table_text=%s", squeeze(written))
}

// operand writes an operand of several tokens, which is kept by its text.
func (g *G) operand() {
	switch g.Intn(6) {
	case 5:
		g.p("-")
		g.p(strconv.Itoa(g.Intn(100)))
	case 0:
		g.p("ABS")
		g.p("(")
		g.plainName()
		g.p(")")
	case 1:
		g.p("CASE WHEN")
		g.plainName()
		g.p("IS NULL THEN")
		g.p(numText(g.Rand))
		g.p("ELSE")
		g.plainName()
		g.p("END")
	case 2:
		g.p("NOT")
		g.plainName()
	case 3:
		g.p("CAST")
		g.p("(")
		g.plainName()
		g.p("AS INT )")
	case 4:
		g.p("(")
		g.p(numText(g.Rand))
		g.p(")")
	}
}

func (g *G) deleteStmt() {
	g.e("kind=%d", query.DeleteStatement)
	g.kw("DELETE FROM")
	g.aliasedTable()
	mark := len(g.Exp)
	g.where()
	has := g.Exp[mark] != "where=none"
	g.Exp = append(g.Exp[:mark:mark], append(Lines{fmt.Sprintf("has_conditions=%v", has)}, g.Exp[mark:]...)...)
}

var scalarNames = []string{"ABS", "CEIL", "FLOOR", "ROUND", "SQRT", "LOG", "LOG10", "EXP", "POWER", "MOD", "SIN", "COS", "TAN", "RAND", "PI", "UPPER", "LOWER", "TRIM", "NOW"}
var aggrNames = []string{"COUNT", "SUM", "AVG", "MIN", "MAX"}

func (g *G) selector() string {
	if g.Alias && g.chance(5) {
		return g.verbatimSelector()
	}
	switch g.Intn(8) {
	case 0, 1, 2, 3:
		return g.name()
	case 4:
		t := g.plainName()
		g.p(".")
		return t + "." + g.plainName()
	case 5:
		f := g.pick(aggrNames...)
		f = randCase(g.Rand, f)
		g.p(f)
		g.p("(")
		arg := "*"
		if g.chance(3) {
			g.p("*")
		} else {
			arg = g.plainName()
		}
		g.p(")")
		return fmt.Sprintf("fn %s(%s)%s", strings.ToUpper(f), arg, g.fnAlias())
	case 6:
		f := randCase(g.Rand, g.pick(scalarNames...))
		g.p(f)
		g.p("(")
		args := []string{}
		nargs := g.Intn(4)
		if g.chance(8) {
			nargs = 4 + g.Intn(4)
		}
		if g.Big && g.chance(4) {
			nargs = g.count(4, 40)
		}
		for i := 0; i < nargs; i++ {
			g.comma(i)
			mark := len(g.Toks)
			switch g.Intn(4) {
			case 0, 1:
				g.plainName()
			case 2:
				g.literal()
			case 3:
				g.p(g.pick("ABS", "f1"))
				g.p("(")
				g.plainName()
				g.p(",")
				g.literal()
				g.p(")")
			}
			args = append(args, toksText(g.Toks[mark:]))
		}
		g.p(")")
		return fmt.Sprintf("fn %s(%s)%s", strings.ToUpper(f), strings.Join(args, "|"), g.fnAlias())
	}
	if !g.Alias {
		return g.name()
	}
	n := ""
	if g.chance(4) {
		n = g.pick("5.", "1.", "0", "42", ".5", "2.5")
		g.p(n)
	} else {
		n = g.plainName()
	}
	if g.chance(4) {
		if g.chance(4) {
			g.p("e5")
			return n + " e5"
		}
		return n + " " + g.plainName()
	}
	g.p("AS")
	return n + " AS " + g.plainName()
}

// fnAlias writes an optional alias of a function.
func (g *G) fnAlias() string {
	if !g.Alias || !g.chance(4) {
		return ""
	}
	if g.chance(2) {
		g.p("AS")
	}
	return " AS " + g.name()
}

// verbatimSelector writes a selector that is kept by its text.
func (g *G) verbatimSelector() string {
	mark := len(g.Toks)
	quoted := func() {
		n := randName(g.Rand, false)
		q := g.pick("\"", "\"", "'", "`", "[")
		if q == "[" {
			g.p("[" + n + "]")
			return
		}
		g.p(q + n + q)
	}
	switch g.Intn(8) {
	case 0, 1:
		g.plainName()
		if g.chance(2) {
			g.p("AS")
		}
		quoted()
	case 2, 3:
		quoted()
		if g.chance(3) {
			g.p("AS")
		}
		quoted()
	case 4:
		g.plainName()
		g.p(".")
		g.p("*")
	case 5:
		g.plainName()
		g.p(".")
		g.plainName()
		g.p(".")
		g.plainName()
	case 6:
		g.plainName()
		g.p(g.pick("-", "+", "*", "/"))
		g.p("-")
		g.p(strconv.Itoa(g.Intn(100)))
	case 7:
		g.p("x")
		g.p("'" + randName(g.Rand, false) + "'")
	}
	return bare(toksText(g.Toks[mark:]))
}

// sortKey writes what a result is grouped or ordered by: a column, or an expression that is kept by its text.
func (g *G) sortKey() string {
	if !g.Verb || !g.chance(5) {
		return g.name()
	}
	mark := len(g.Toks)
	switch g.Intn(5) {
	case 0:
		g.p("CASE WHEN")
		g.plainName()
		g.p("IS NULL THEN")
		g.p(numText(g.Rand))
		g.p("ELSE")
		g.plainName()
		g.p("END")
	case 1:
		g.plainName()
		g.p("COLLATE")
		g.plainName()
	case 2:
		g.p("ABS")
		g.p("(")
		g.plainName()
		g.p(")")
	case 3:
		g.p("CAST")
		g.p("(")
		g.plainName()
		g.p("AS INT )")
	case 4:
		g.plainName()
		g.p(".")
		g.plainName()
	}
	return toksText(g.Toks[mark:])
}

func (g *G) selectStmt() {
	g.e("kind=%d", query.SelectStatement)
	g.kw("SELECT")
	if g.chance(8) {
		g.kw("DISTINCT")
		g.e("distinct")
	}
	if g.chance(4) {
		g.p("*")
		g.e("selector[0]=*")
	} else {
		for i, n := 0, g.count(1, 5); i < n; i++ {
			g.comma(i)
			if g.Alias && g.chance(20) {
				g.p("*")
				g.e("selector[%d]=*", i)
				continue
			}
			g.e("selector[%d]=%s", i, g.selector())
		}
	}
	g.kw("FROM")
	for i, n := 0, 1+g.Intn(3)*g.Intn(2); i < n; i++ {
		g.comma(i)
		schema := ""
		mark := len(g.Toks)
		if g.chance(5) {
			schema = g.name()
			g.p(".")
		}
		t := g.name()
		written := toksText(g.Toks[mark:])
		full := t
		if schema != "" {
			full = schema + "." + t
		}
		g.e("from[%d]=%s schema=%s", i, full, schema)
		if g.chance(6) {
			if g.chance(2) {
				g.kw("AS")
			}
			written += " AS " + g.plainName()
		}
		g.e("from_text[%d]=%s", i, squeeze(written))
	}
	g.where()
	group := ""
	if g.chance(3) {
		g.kw("GROUP BY")
		group = g.sortKey()
	}
	g.e("group=%s", group)
	if g.chance(2) {
		g.kw("ORDER BY")
		for i, n := 0, g.count(1, 3); i < n; i++ {
			g.comma(i)
			c := g.sortKey()
			dir := "asc"
			switch g.Intn(3) {
			case 0:
				g.kw("ASC")
			case 1:
				g.kw("DESC")
				dir = "desc"
			}
			if g.chance(6) {
				n := g.pick("FIRST", "LAST")
				g.kw("NULLS " + n)
				dir += " nulls " + strings.ToLower(n)
			}
			g.e("order[%d]=%s %s", i, c, dir)
		}
	}
	var limit, offset uint64
	if g.chance(2) {
		nums := []uint64{1, 2, 3, 9, 10, 11, 99, 100, 255, 256, 1000, 65535, 65536, 1 << 20, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807}
		limit = nums[g.Intn(len(nums))]
		g.kw("LIMIT")
		switch g.Intn(3) {
		case 0:
			g.p(g.zeros() + strconv.FormatUint(limit, 10))
		case 1:
			offset = nums[g.Intn(len(nums))]
			if g.chance(6) {
				offset = 0
			}
			g.p(g.zeros() + strconv.FormatUint(limit, 10))
			g.kw("OFFSET")
			g.p(g.zeros() + strconv.FormatUint(offset, 10))
		case 2:
			offset = nums[g.Intn(len(nums))]
			if g.chance(6) {
				offset = 0
			}
			g.p(g.zeros() + strconv.FormatUint(offset, 10))
			g.p(",")
			g.p(g.zeros() + strconv.FormatUint(limit, 10))
		}
	}
	g.e("limit=%d offset=%d", limit, offset)
}

// zeros gives leading zeros, which change nothing of a decimal number.
func (g *G) zeros() string {
	if !g.chance(8) {
		return ""
	}
	return strings.Repeat("0", 1+g.Intn(3))
}
