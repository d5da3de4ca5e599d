package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

// Lines is the observable content of a statement, one "path=value" per line.
type Lines []string

func (l *Lines) add(format string, args ...any) { *l = append(*l, fmt.Sprintf(format, args...)) }

func (l Lines) String() string { return strings.Join(l, "\n") }

func diffLines(want, got Lines) string {
	var sb strings.Builder
	n := len(want)
	if n < len(got) {
		n = len(got)
	}
	shown := 0
	for i := 0; i < n && shown < 12; i++ {
		w, g := "<none>", "<none>"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			fmt.Fprintf(&sb, "  want %s\n  got  %s\n", clip(w, 400), clip(g, 400))
			shown++
		}
	}
	return sb.String()
}

func sameLines(a, b Lines) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// bare removes one pair of identifier quotes.
func bare(s string) string {
	if len(s) < 2 {
		return s
	}
	f, l := s[0], s[len(s)-1]
	switch {
	case f == '"' && l == '"', f == '`' && l == '`':
		return strings.ReplaceAll(s[1:len(s)-1], string(f)+string(f), string(f))
	case f == '[' && l == ']':
		return s[1 : len(s)-1]
	}
	return s
}

// bareQualified removes the identifier quotes of every part of a dotted name.
func bareQualified(s string) string {
	parts := []string{}
	cur := ""
	var quote byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case quote != 0:
			cur += s[i : i+1]
			if c == quote {
				quote = 0
			}
		case c == '"' || c == '`':
			quote = c
			cur += s[i : i+1]
		case c == '[':
			quote = ']'
			cur += s[i : i+1]
		case c == '.':
			parts = append(parts, bare(cur))
			cur = ""
		default:
			cur += s[i : i+1]
		}
	}
	parts = append(parts, bare(cur))
	return strings.Join(parts, ".")
}

type namer interface{ Name() string }

// dumpValue gives the observable value of a literal: S: a string, T: anything reported by its text.
func dumpValue(v any, t query.LiteralType) string {
	if t == query.StringLiteral {
		return fmt.Sprintf("S:%v", v)
	}
	if n, ok := v.(namer); ok {
		return "T:" + n.Name()
	}
	if v == nil {
		return "T:NULL"
	}
	return "T:" + squeeze(fmt.Sprintf("%v", v))
}

func dumpLiteral(l *query.Literal) string {
	if l == nil {
		return "<no literal>"
	}
	return dumpValue(l.Value(), l.ValueType())
}

func dumpExpr(e query.Expr) string {
	switch e := e.(type) {
	case nil:
		return "<nil>"
	case *query.CmpExpr:
		if e.Left() == nil {
			return "cmp(<nil>)"
		}
		return fmt.Sprintf("cmp(%s %s %s)", bare(e.Left().Name()), opName(e.Operator()), dumpLiteral(e.Right()))
	case *query.AndExpr:
		return fmt.Sprintf("and(%s, %s)", dumpExpr(e.Left()), dumpExpr(e.Right()))
	case *query.OrExpr:
		return fmt.Sprintf("or(%s, %s)", dumpExpr(e.Left()), dumpExpr(e.Right()))
	}
	return "text(" + squeeze(e.String()) + ")"
}

func opName(op query.CmpExprOperator) string {
	switch op {
	case query.EQ:
		return "EQ"
	case query.NEQ:
		return "NEQ"
	case query.LT:
		return "LT"
	case query.GT:
		return "GT"
	case query.LE:
		return "LE"
	case query.GE:
		return "GE"
	case query.IN:
		return "IN"
	case query.NIN:
		return "NIN"
	}
	return fmt.Sprintf("OP%d", op)
}

// squeeze removes layout outside of quotes, so that texts are compared by their tokens: one space stays between two words.
// Keyword case is kept.
func squeeze(s string) string {
	var sb strings.Builder
	var quote, last byte
	gap := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if quote != 0 {
			sb.WriteByte(c)
			last = c
			if c == quote {
				quote = 0
			}
			continue
		}
		switch c {
		case '\'', '"', '`':
			quote = c
		case ' ', '\t', '\n', '\r':
			gap = true
			continue
		}
		if gap && (isWordByte(last) || (last == '.' && endsNumber(sb.String()))) && isWordByte(c) {
			sb.WriteByte(' ')
		}
		// Two strings, two quoted names, two signs and a name before a string do not become one token.
		if gap && last == c && (c == '-' || c == '\'' || c == '"' || c == '`') || gap && c == '\'' && endsBlobMark(sb.String()) {
			sb.WriteByte(' ')
		}
		gap = false
		sb.WriteByte(c)
		last = c
	}
	return sb.String()
}

// endsBlobMark reports whether the text ends with the word that makes a blob of the string after it.
func endsBlobMark(s string) bool {
	n := len(s)
	return 0 < n && (s[n-1] == 'x' || s[n-1] == 'X') && (n == 1 || !isWordByte(s[n-2]))
}

// endsNumber reports whether the text ends with a number that ends with its point, such as "5.".
func endsNumber(s string) bool {
	i := len(s) - 1
	k := i
	for 0 < k && '0' <= s[k-1] && s[k-1] <= '9' {
		k--
	}
	return k < i && (k == 0 || !isWordByte(s[k-1]))
}

func dumpCond(l *Lines, c query.Condition) {
	if c == nil || !c.HasConditions() {
		l.add("where=none")
		return
	}
	l.add("where=%s", dumpExpr(c.Expr()))
}

func dumpColumnDef(c query.Column) string {
	if c == nil {
		return "<nil>"
	}
	size := c.DataTypeSize()
	if size < 1 {
		size = 0
	}
	// The scale is only visible in the text of the definition.
	scale := ""
	if def := c.Definition(); def != nil {
		if m := scaleText.FindStringSubmatch(def.String()); m != nil {
			scale = m[1]
		}
	}
	return fmt.Sprintf("%s type=%d size=%d scale=%s", c.Name(), c.DataType(), size, scale)
}

var scaleText = regexp.MustCompile(`\(\s*\d+\s*,\s*(\d+)\s*\)`)

func dumpIndex(l *Lines, path string, idx query.Index) {
	if idx == nil {
		l.add("%s=<nil>", path)
		return
	}
	name := idx.Name()
	if idx.Type() == query.PrimaryIndex {
		name = "" // the name of a primary key is derived
	}
	l.add("%s=%s name=%s columns=%s", path, indexTypeName(idx.Type()), name, strings.Join(idx.Columns().Names(), ","))
}

func indexTypeName(t query.IndexType) string {
	switch t {
	case query.PrimaryIndex:
		return "primary"
	case query.SecondaryIndex:
		return "secondary"
	}
	return "unknown"
}

func dumpTable(t query.Table) string {
	if t == nil {
		return "<nil>"
	}
	return bareQualified(t.FullTableName())
}

type hasAlias interface{ String() string }

// Dump gives the observable content of a parsed statement through its public accessors.
func Dump(stmt query.Statement) Lines {
	l := Lines{}
	if stmt == nil {
		l.add("<nil statement>")
		return l
	}
	l.add("kind=%d", stmt.StatementType())
	switch stmt.StatementType() {
	case query.CreateDatabaseStatement:
		s := stmt.(query.CreateDatabase)
		l.add("name=%s", bare(s.DatabaseName()))
		l.add("if_not_exists=%v", s.IfNotExists())
	case query.DropDatabaseStatement:
		s := stmt.(query.DropDatabase)
		l.add("name=%s", bare(s.DatabaseName()))
		l.add("if_exists=%v", s.IfExists())
	case query.AlterDatabaseStatement:
		s := stmt.(query.AlterDatabase)
		l.add("name=%s", bare(s.DatabaseName()))
		l.add("to=%s", bare(s.RenameTo().DatabaseName()))
	case query.UseStatement:
		l.add("name=%s", bare(stmt.(query.Use).DatabaseName()))
	case query.CreateTableStatement:
		s := stmt.(query.CreateTable)
		l.add("name=%s", s.TableName())
		l.add("full=%s", s.Schema().FullTableName())
		l.add("schema=%s", s.Schema().SchemaName())
		l.add("if_not_exists=%v", s.IfNotExists())
		for i, c := range s.Schema().Columns() {
			l.add("column[%d]=%s", i, dumpColumnDef(c))
		}
		for i, x := range s.Schema().Indexes() {
			dumpIndex(&l, fmt.Sprintf("index[%d]", i), x)
		}
	case query.CreateIndexStatement:
		s := stmt.(query.CreateIndex)
		l.add("table=%s", s.TableName())
		l.add("if_not_exists=%v", s.IfNotExists())
		dumpIndex(&l, "index", s.Index())
	case query.DropTableStatement:
		s := stmt.(query.DropTable)
		l.add("if_exists=%v", s.IfExists())
		for i, t := range s.Tables() {
			l.add("table[%d]=%s", i, t.FullTableName())
		}
		l.add("names=%s", strings.Join(s.TableNames(), ","))
	case query.DropIndexStatement:
		s := stmt.(query.DropIndex)
		l.add("if_exists=%v", s.IfExists())
		l.add("index=%s", s.IndexName())
		l.add("index2=%s", s.Index().Name())
		l.add("schema=%s", s.TableName())
	case query.AlterTableStatement:
		s := stmt.(query.AlterTable)
		l.add("table=%s", bare(s.TableName()))
		if f, ok := stmt.(interface{ FullTableName() string }); ok {
			l.add("full=%s", bareQualified(f.FullTableName()))
		}
		if t, ok := s.RenameTo(); ok {
			l.add("rename_to=%s", dumpTable(t))
		}
		if a, b, ok := s.RenameColumns(); ok {
			l.add("rename_column=%s->%s", bare(a.Name()), bare(b.Name()))
		}
		if c, ok := s.AddColumn(); ok {
			l.add("add_column=%s", dumpColumnDef(c))
		}
		if x, ok := s.AddIndex(); ok {
			dumpIndex(&l, "add_index", x)
		}
		if c, ok := s.DropColumn(); ok {
			l.add("drop_column=%s", c.Name())
		}
		if x, ok := s.DropIndex(); ok {
			dumpIndex(&l, "drop_index", x)
		}
	case query.TruncateStatement:
		s := stmt.(query.Truncate)
		for i, t := range s.Tables() {
			l.add("table[%d]=%s", i, dumpTable(t))
		}
		l.add("ntables=%d", len(s.TableNames()))
	case query.CopyStatement:
		s := stmt.(query.Copy)
		l.add("table=%s", bareQualified(s.TableName()))
		for i, c := range s.Columns() {
			l.add("column[%d]=%s", i, bare(c.Name()))
		}
		if src, ok := stmt.(interface{ Source() string }); ok {
			l.add("source=%s", src.Source())
		}
		if f, ok := stmt.(interface{ Format() query.CopyFormat }); ok {
			l.add("format=%d", f.Format())
		}
	case query.VacuumStatement:
		l.add("table=%s", bareQualified(stmt.(query.Vacuum).TableName()))
	case query.BeginStatement, query.CommitStatement, query.RollbackStatement:
	case query.InsertStatement:
		s := stmt.(query.Insert)
		l.add("table=%s", s.TableName())
		if f, ok := stmt.(interface{ FullTableName() string }); ok {
			l.add("full=%s", f.FullTableName())
		}
		l.add("rows=%d", len(s.Values()))
		for i, row := range s.Values() {
			l.add("row[%d]=%d", i, len(row))
			for j, c := range row {
				l.add("row[%d][%d]=%s := %s", i, j, bare(c.Name()), dumpValue(c.Value(), c.ValueType()))
				if !c.HasValue() {
					l.add("row[%d][%d] has no value", i, j)
				}
			}
		}
		l.add("first_row=%d", len(s.Columns()))
	case query.UpdateStatement:
		s := stmt.(query.Update)
		if f, ok := stmt.(interface{ Table() query.Table }); ok {
			l.add("table=%s", dumpTable(f.Table()))
			if a, ok := f.Table().(hasAlias); ok {
				l.add("table_text=%s", squeeze(a.String()))
			}
		}
		l.add("sets=%d", len(s.Columns()))
		for i, c := range s.Columns() {
			l.add("set[%d]=%s := %s", i, bare(c.Name()), dumpAssigned(c))
		}
		dumpCond(&l, s.Where())
	case query.DeleteStatement:
		s := stmt.(query.Delete)
		l.add("table=%s", bareQualified(s.TableName()))
		if f, ok := stmt.(interface{ Table() query.Table }); ok {
			if a, ok := f.Table().(hasAlias); ok {
				l.add("table_text=%s", squeeze(a.String()))
			}
		}
		l.add("has_conditions=%v", s.HasConditions())
		dumpCond(&l, s.Where())
	case query.SelectStatement:
		s := stmt.(query.Select)
		if d, ok := stmt.(interface{ IsDistinct() bool }); ok && d.IsDistinct() {
			l.add("distinct")
		}
		for i, sel := range s.Selectors() {
			l.add("selector[%d]=%s", i, dumpSelector(sel))
		}
		for i, t := range s.From() {
			l.add("from[%d]=%s schema=%s", i, dumpTable(t), bare(t.SchemaName()))
			if a, ok := t.(hasAlias); ok {
				l.add("from_text[%d]=%s", i, squeeze(a.String()))
			}
		}
		dumpCond(&l, s.Where())
		l.add("group=%s", bare(squeeze(s.GroupBy().ColumnName())))
		for i, o := range s.OrderBy().Orders() {
			l.add("order[%d]=%s %s%s", i, bare(squeeze(o.ColumnName())), dirName(o), nullsName(o))
		}
		l.add("limit=%d offset=%d", s.Limit().Limit(), s.Limit().Offset())
	default:
		l.add("unexpected statement type %v", stmt.StatementType())
	}
	return l
}

// nullsName gives the order of the null values, which is only visible in the text of the order.
func nullsName(o query.Order) string {
	m := nullsText.FindStringSubmatch(strings.TrimPrefix(o.String(), o.ColumnName()))
	if m == nil {
		return ""
	}
	return " nulls " + strings.ToLower(m[1])
}

var nullsText = regexp.MustCompile(`(?i)\bNULLS\s+(FIRST|LAST)\s*$`)

func dirName(o query.Order) string {
	d := "?"
	switch o.Type() {
	case query.OrderAsc:
		d = "asc"
	case query.OrderDesc:
		d = "desc"
	case query.OrderNone:
		d = "none"
	}
	if o.IsAsc() != (d == "asc") || o.IsDesc() != (d == "desc") || o.IsNone() != (d == "none") {
		d += "(flags disagree)"
	}
	return d
}

func dumpAssigned(c query.Column) string {
	f, ok := c.Function()
	if !ok {
		return dumpValue(c.Value(), c.ValueType())
	}
	args := []string{}
	for _, a := range c.Arguments() {
		args = append(args, bare(squeeze(a.Name())))
	}
	name := f.Name()
	if x, err := f.Executor(); err == nil {
		name = x.Name()
	}
	return fmt.Sprintf("%s(%s)", name, strings.Join(args, ","))
}

func dumpSelector(sel query.Selector) string {
	f, ok := sel.Function()
	if !ok {
		return bare(squeeze(sel.Name()))
	}
	args := []string{}
	for _, a := range f.Arguments() {
		args = append(args, squeeze(a.Name()))
	}
	args2 := []string{}
	for _, a := range sel.Arguments() {
		args2 = append(args2, squeeze(a.Name()))
	}
	s := fmt.Sprintf("fn %s(%s)", strings.ToUpper(f.Name()), strings.Join(args, "|"))
	if strings.Join(args2, "|") != strings.Join(args, "|") {
		s += " selector arguments differ"
	}
	if x, ok := sel.(interface{ Alias() string }); ok && x.Alias() != "" {
		s += " AS " + bare(x.Alias())
	}
	return s
}

// Parse parses with a fresh parser.
func Parse(q string) ([]query.Statement, error) { return sql.NewParser().ParseString(q) }

// DumpAll dumps a statement list.
func DumpAll(stmts []query.Statement) Lines {
	l := Lines{}
	for _, s := range stmts {
		l = append(l, Dump(s)...)
		l = append(l, "--")
	}
	return l
}
