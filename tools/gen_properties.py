#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
V = "sql/parser/sqlite/parser_antlr_visitor.go"
PA = "sql/parser/sqlite/parser_antlr.go"
def add(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

add("C01", "Parsing is total: any input gives statements or an error, never a crash",
 "For every string handed to the parser, parsing returns either a list of statements or an error, and never crashes or hangs. Every statement it returns can be rendered to text and have every one of its parts (names, columns, values, conditions, indexes, selectors, limits) inspected without crashing.",
 ["inputs"], "every input string: valid SQL of any statement kind, near-valid SQL, truncated/spliced/mutated SQL, arbitrary bytes",
 "The suite parses about 11.8k fixed queries from files, all of them accepted; no rejected, exotic or malformed input is ever parsed.",
 [PA, V, "sql/query/column.go", "sql/query/literal.go"],
 [("error listener + error return", PA), ("visitor builds each statement kind", V)],
 ["ParseString result", "every accessor of the returned statements"])

add("C02", "Rendering a parsed statement and re-parsing it loses nothing",
 "For every statement of the supported dialect, the text rendered from the parsed statement parses again to exactly one statement of the same kind with the same content: object names, columns, types, keys, values, assignments, conditions, selectors, grouping, ordering, limits and options. Rendering that second statement gives the identical text.",
 ["inputs"], "every statement of the supported dialect (all 20 statement kinds, literals of every kind, 1..many columns/rows/terms)",
 "The suite only compares rendered text against itself after one re-parse, on file queries, so a clause lost on the first parse is lost on both sides and passes.",
 ["sql/query/select.go", "sql/query/insert.go", "sql/query/update.go", "sql/query/delete.go", "sql/query/create_table.go", "sql/query/alter_table.go", "sql/query/literal.go", V],
 [("String() of each statement", "sql/query/*.go"), ("literal escaping", "sql/util/strings/strings.go")],
 ["Statement.String()", "statement accessors before and after"])

add("C03", "Definition statements are represented exactly as written",
 "A parsed CREATE, ALTER or DROP of a database, table or index, and a parsed USE, TRUNCATE, COPY, VACUUM, BEGIN, COMMIT or ROLLBACK, reports exactly the object names, existence options, columns in order with their data type and size, primary and secondary keys with their columns in order (other constraints are not part of the representation), copy source and format, and rename/add/drop targets that were written. Nothing is missing, invented, reordered or attributed to another object.",
 ["inputs"], "every definition/administration statement of the supported dialect, any number of columns, keys and tables, any letter case, quoted or bare names",
 "File tests compare only rendered text, case-insensitively, for a handful of shapes; accessors are never compared with what was written.",
 [V, "sql/query/create_table.go", "sql/query/alter_table.go", "sql/query/drop_table.go", "sql/query/index.go", "sql/query/column_def.go", "sql/query/copy.go"],
 [("schema construction from the parse tree", V), ("data definitions", "sql/query/column_def.go")],
 ["accessors of definition statements"])

add("C04", "INSERT and UPDATE pair every column with exactly the value written for it",
 "A parsed INSERT yields one row per written row, in order, and in every row each column of the column list carries exactly the value written at its position, whatever mix of literals, placeholders and expressions the row contains. A parsed UPDATE yields one assignment per written assignment, in order, each carrying its column, its value or arithmetic operator with its operands, and the condition that was written.",
 ["inputs"], "every INSERT (1..many rows and columns) and UPDATE of the supported dialect, every mix of value kinds per row",
 "Tests use a few fixed column counts with homogeneous literals; misassignment that depends on position, row number or value kind is never sampled.",
 [V, "sql/query/insert.go", "sql/query/update.go", "sql/query/columns.go"],
 [("value/column pairing", V)], ["Insert.Values()/Columns()", "Update.Columns()/Where()"])

add("C05", "SELECT and DELETE report every clause as written",
 "A parsed SELECT reports its selected columns and function calls with their arguments in order, its source tables in order, its condition, its grouping column, its ordering terms in order with their direction (ascending when none is written), and its row limit and offset, exactly as written. A parsed DELETE reports its table and condition exactly as written.",
 ["inputs"], "every SELECT/DELETE of the supported dialect, every combination of optional clauses",
 "Only a few clause combinations appear in the query files, and only their rendered text is compared.",
 [V, "sql/query/select.go", "sql/query/order.go", "sql/query/limit.go", "sql/query/group.go", "sql/query/delete.go"],
 [("clause extraction", V)], ["Select and Delete accessors"])

add("C06", "What was written is represented or rejected, never silently dropped",
 "When an input contains a condition, an inserted or assigned value, or a whole statement that the library cannot represent structurally, it either keeps it verbatim (the statement still reports having a condition, and its rendered text still contains it) or reports an error. It never returns a statement that acts on more rows than written, writes other data than written, or omits a statement of the input.",
 ["inputs"], "every accepted input, in particular conditions and values outside the structured comparison forms, and statement kinds without a representation",
 "No test has a condition beyond one comparison or one AND/OR of two; unsupported forms were never tried.",
 [V, "sql/query/where.go", "sql/query/insert.go"],
 [("condition construction", V), ("statement list construction", V)],
 ["HasConditions()/String() of DELETE, UPDATE, SELECT", "length of the statement list"])

add("C07", "Literal values survive parsing and rendering unchanged",
 "The value reported for a string literal is exactly the text between its delimiters with doubled quotes read as one quote, whatever characters it contains; numbers, NULL, booleans, time keywords, blobs and placeholders are reported as written. Rendering a string value and parsing it again gives the same value, and a string is never confused with a number, keyword or placeholder of the same spelling.",
 ["inputs"], "every literal: all unicode text including quotes, comment markers, semicolons, newlines and placeholder characters; all numeric forms; in VALUES, SET and WHERE position",
 "Test literals are short alphanumeric words and small integers.",
 ["sql/util/strings/strings.go", "sql/query/literal.go", V],
 [("literal (un)escaping", "sql/util/strings/strings.go"), ("literal construction", V)],
 ["Literal value and type", "rendered literal"])

add("C08", "Statement lists compose, layout is irrelevant, syntax errors reject all",
 "Parsing several statements separated by semicolons gives exactly the statements obtained by parsing each one alone, in order; extra semicolons, whitespace, comments and keyword letter case between or around tokens do not change the result. If any part of the input is not valid SQL the whole input is rejected with an error and no statements are returned, and input without any statement is rejected as an empty query.",
 ["inputs"], "every sequence of supported statements, every layout of the same token sequence, every single-token corruption that makes the text ungrammatical",
 "Tests parse one statement at a time in one layout; the only rejection tests are the empty string and a lone semicolon.",
 [PA, V, "sql/parser/sqlite/parser_antlr_error_listener.go", "sql/parser/sqlite/antlr/SQLiteLexer.g4"],
 [("statement list visitor", V), ("error listener", "sql/parser/sqlite/parser_antlr_error_listener.go")],
 ["ParseString results"])

add("C09", "Parses are independent: deterministic, reusable and safe in parallel",
 "The outcome of parsing a text depends only on that text: the same text always gives the same statements or an error, however many texts (valid or invalid) the same parser handled before, and statements returned earlier are not changed by later parses. Parsers used concurrently, each goroutine using its own, give the same outcomes as one parser used alone, without data races.",
 ["histories", "schedules", "inputs"], "every history of valid and invalid texts on one parser instance; every interleaving of parsers in different goroutines",
 "One test parses six fixed valid queries in parallel with fresh parsers, checking only the statement count and without the race detector; no test reuses a parser.",
 [PA, "sql/parser/sqlite/parser_antlr_error_listener.go", "sql/parser/sqlite/antlr/sqlite_parser.go"],
 [("per-parse lexer/parser/error state", PA), ("shared prediction tables", "sql/parser/sqlite/antlr/sqlite_parser.go")],
 ["outcome of every parse in the history", "race detector reports"])

add("C10", "Bound parameters become exactly one literal each, at their placeholder",
 "Binding parameters to a query replaces each placeholder with a literal of the parameter bound to it and leaves everything else of the query as it was, so that the resulting statements are those of the query with the values in place: the n-th question mark takes the n-th parameter and a numbered placeholder takes the parameter of that number. A parameter's content never changes the structure of the query, never acts as a placeholder, and is reported back unchanged; a parameter without a placeholder is an error.",
 ["inputs"], "every query with placeholders (positional or numbered, more than nine, repeated, next to string literals) and every parameter value of the supported types",
 "There is no test of parameter binding.",
 ["sql/stmt/bind_impl.go", "sql/stmt/bind_param_impl.go"],
 [("placeholder substitution", "sql/stmt/bind_impl.go"), ("parameter rendering", "sql/stmt/bind_param_impl.go")],
 ["BindStatement.Statements()"])

add("C11", "Scalar functions and operators compute their mathematical definition",
 "For every argument list, each scalar function and arithmetic operator returns the value of its definition (absolute value, rounding, roots, logarithms, powers, remainders, trigonometry, case mapping, trimming, the four operations), independent of the numeric type the arguments arrive in and of whether they arrive as a list or by name from a row. A wrong number of arguments, a non-numeric argument or an argument outside the domain gives an error, never a crash or a made-up value.",
 ["inputs"], "every function and operator, every argument list: boundary and random values, numeric types, strings of numbers, wrong arity, row objects with missing columns",
 "Tests execute a few functions on one or two small values.",
 ["sql/fn/math_func.go", "sql/fn/arith_func.go", "sql/fn/string_func.go", "sql/fn/time_func.go", "sql/fn/executor_impl.go"],
 [("function table", "sql/fn/math_func.go"), ("argument dispatch", "sql/fn/executor_impl.go")],
 ["Executor.Execute results"])

add("C12", "A function name always resolves to that function and no other",
 "Every registered function name, in any letter case, resolves to exactly the function of that name with the matching kind (scalar, aggregate, operator, time, string), whether it is looked up directly, through the registry or from a parsed SELECT; aggregates are recognised as aggregates and scalars as executable. A name that is not registered is reported as unsupported rather than resolved to some other function.",
 ["inputs"], "every registered name in every letter case, every unregistered name (extensions, prefixes, look-alikes of registered names)",
 "Tests look up a handful of names, mostly upper case, and never names that merely begin with a registered name.",
 ["sql/fn/executor_func.go", "sql/fn/aggr_func.go", "sql/fn/type.go", "sql/fn/names.go", "sql/fn/func_impl.go", "sql/query/selectors_helper.go"],
 [("name dispatch", "sql/fn/executor_func.go"), ("type dispatch", "sql/fn/type.go")],
 ["NewExecutorForName/NewAggregatorForName/Function results"])

add("C13", "Aggregates over any rows equal their definition, per group",
 "After any sequence of rows, COUNT, SUM, AVG, MIN and MAX report the count, sum, mean, minimum and maximum of the values fed since the last reset: one result row without grouping, and with grouping exactly one row per distinct combination of group values, carrying those group values and the aggregate of exactly the rows that have them. The results do not depend on the order of the rows, are ordered by group value when that is requested, and a rejected row leaves the results as if it had not been fed.",
 ["inputs", "histories"], "every sequence of reset/feed/finalize operations, rows as lists or as name/value objects, 0..many rows, groups and grouping columns, group values of any type and text",
 "Tests feed a few short fixed sequences with simple group keys; collisions, interleaved resets, rejected rows and ordering of many groups are not sampled.",
 ["sql/fn/aggr_impl.go", "sql/fn/groupby.go", "sql/fn/sum.go", "sql/fn/avg.go", "sql/fn/min.go", "sql/fn/max.go", "sql/fn/count.go"],
 [("group keying", "sql/fn/groupby.go"), ("accumulation", "sql/fn/aggr_impl.go")],
 ["Aggregator.Finalize result rows and columns"])

add("C14", "Aggregate queries report matching columns and rows for each group",
 "When several aggregates are computed together, from an explicit set or from the select list of a query over the rows of a source result set, every result row belongs to one group and holds for each aggregate the value computed over exactly that group's rows, under the column of that aggregate. Column names and row values always correspond one to one, every group appears exactly once, and without grouping there is exactly one row. For the select list of a query, a source row that cannot be read or aggregated makes the aggregation an error, never a result without it.",
 ["inputs"], "every set of 1..many aggregates over shared rows, with 0..many grouping columns, from code or from a parsed SELECT",
 "Tests of aggregate sets use one group column and two or three groups, which a scrambled map order often leaves aligned; the result set pipeline is untested.",
 ["sql/fn/aggr_set.go", "sql/query/response/resultset/resultset_aggr.go", "sql/query/select_helper.go", "sql/query/selectors_helper.go"],
 [("merging of aggregates", "sql/fn/aggr_set.go"), ("aggregated result set", "sql/query/response/resultset/resultset_aggr.go")],
 ["aggregate set result set", "aggregated result set rows"])

add("C15", "A result set delivers exactly the rows of its offset/limit window, in order",
 "Advancing a result set delivers the source rows after the offset, at most the limit of them (all of them without a limit), each exactly once and in source order, then reports exhaustion on every further advance. Reading is only possible while positioned on a delivered row: before the first advance and after exhaustion it reports that there is no row, and never a row outside the window; reading a row twice gives the same values.",
 ["inputs", "histories"], "every combination of row count, offset and limit up to the largest integers, every sequence of advance/read calls",
 "There is no test of result sets.",
 ["sql/query/response/resultset/resultset_impl.go", "sql/query/response/resultset/resultset_helper.go"],
 [("row cursor", "sql/query/response/resultset/resultset_impl.go")],
 ["ResultSet.Next/Row"])

add("C16", "All views of a result row agree with its schema and its source",
 "For every row of a result set, the values by position, by column name, as an object and by scanning agree with each other and with the schema's column order; selected columns carry the source row's value (absent ones are null) and selected scalar functions carry the function's value on that row. Positions or names outside the row give an error, never a crash or another column's value, and reading never modifies the source rows.",
 ["inputs"], "every schema and row content (missing, extra and null columns, any value types), every select list of columns and scalar functions, every index and name",
 "There is no test of result rows or result schemas.",
 ["sql/query/response/resultset/row_impl.go", "sql/query/response/resultset/row_helper.go", "sql/query/response/resultset/schema_helper.go", "sql/query/response/resultset/schema_impl.go"],
 [("row views", "sql/query/response/resultset/row_impl.go"), ("projection", "sql/query/response/resultset/row_helper.go")],
 ["Row and Schema accessors"])

add("C17", "Altering a schema changes exactly the named column or index",
 "Adding a column or index appends it and dropping one removes exactly the one with that name, ignoring letter case, leaving all others as they were and in order; dropping an unknown name is an error that changes nothing. Applying a parsed or converted ALTER/CREATE INDEX/DROP INDEX statement has the same effect as the direct call, lookups always agree with the current column and index lists, and an alteration that is not implemented is reported as such.",
 ["histories", "inputs"], "every sequence of add/drop/lookup/alter operations on a table schema",
 "There is no test of schema alteration.",
 ["sql/query/schema.go", "sql/query/columns.go", "sql/query/indexes.go", "sql/query/alter_table_from.go"],
 [("schema mutation", "sql/query/schema.go"), ("lookup", "sql/query/columns.go")],
 ["Schema accessors after each operation"])

add("C18", "Typed column values are converted exactly or refused",
 "Applying a table definition to column values, or setting a value on a typed column, yields the written value in the column's type when it is representable and an error otherwise; it never truncates, wraps or replaces a value silently, and columns without conversion keep their value. A copied column list has the same content as the original and later changes to one do not show in the other.",
 ["inputs", "histories"], "every data type and every value (all integer boundaries, floats, numeric and non-numeric text, booleans), every sequence of set/copy operations",
 "There is one smoke test on column lists and no test of typed values.",
 ["sql/query/column.go", "sql/query/columns.go", "sql/query/literal.go"],
 [("conversion per data type", "sql/query/column.go"), ("copy", "sql/query/column.go")],
 ["Column values after SetSchema/SetValue/Copy"])

add("C19", "The connection registry is linearizable and its two indexes agree",
 "Concurrent add, update, remove, lookup and list operations behave as if executed one at a time: a connection is found by its number exactly when it is found by its unique id, is listed exactly once while registered, and is never found or listed after its removal. Adding a connection whose number or unique id is already registered, or replacing one that is not registered, fails and changes nothing; closing the registry closes and removes every connection registered at the time.",
 ["schedules", "histories"], "every interleaving of registry operations from many goroutines over few ids, including duplicate ids and failing closes",
 "There is no test of the connection registry.",
 ["sql/net/conn_manager_impl.go"],
 [("RWMutex over both maps", "sql/net/conn_manager_impl.go")],
 ["call/return history of every registry operation", "race detector reports"])

add("C20", "Connection session state is consistent under concurrent use",
 "Session attributes of a connection (user, database, schemas, trace context) can be read and written from many goroutines without data races, a read returns a value that was actually written, changing the database clears the schemas, the schema list never holds duplicates, and lists handed out are not changed by later calls. However many callers close a connection, the underlying connection is closed exactly once; a failed close can be retried.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of setters, getters and closes; every sequence of close failures",
 "There is no test of connections.",
 ["sql/net/conn_impl.go"],
 [("per-connection mutex", "sql/net/conn_impl.go")],
 ["getter results", "close calls seen by the underlying connection", "race detector reports"])

add("C21", "Column metadata queries and results name exactly the requested tables",
 "A column-metadata query built for a database and any set of tables selects from the metadata table with exactly those names as condition, names being data whatever characters they contain, and analysing that query gives the same database and tables back. The metadata result built from table schemas holds one row per column, in order, naming the right table, column and type, and reading it back yields the same list.",
 ["inputs"], "every database name, list of 0..many table names and list of schemas",
 "One fixed pair of a database and one table is tested, by rendered text.",
 ["sql/system/schema_columns_stmt_impl.go", "sql/system/schema_columns_resutset.go", "sql/system/schema_columns_resutset_from.go"],
 [("query generation and traversal", "sql/system/schema_columns_stmt_impl.go"), ("result construction", "sql/system/schema_columns_resutset_from.go")],
 ["generated statements", "metadata rows"])

add("C22", "Errors identify their cause; error codes map to their own text and class",
 "Every error reported by a library operation for a missing, duplicate, unsupported, unimplemented, invalid or empty item can be recognised as that kind by comparing with the published error values, names the item concerned, and is never recognised as the opposite kind. Every published SQL error code has five characters, is unique, has a description of its own, and belongs to a known class.",
 ["inputs"], "every error constructor and every failing operation with any item name; every published code and class",
 "Errors are never inspected by the tests beyond nil or the empty query error.",
 ["sql/errors/errors.go", "sql/errors/query.go", "sql/errors/code.go", "sql/errors/class.go", "sql/query/errors.go", "sql/net/errors.go"],
 [("wrapping of sentinels", "sql/errors/errors.go"), ("code tables", "sql/errors/code.go")],
 ["errors.Is on returned errors", "Code/Class text"])

add("C23", "Data type names and definitions are a stable two-way mapping",
 "Every data type has a name that resolves back to the same type in any letter case, distinct types have distinct names, and unknown names are refused. A column definition of any type and size renders to text that reads back as the same type and size, and the data type chosen for a Go value or a function is always the same for the same kind of value and of its family (text, binary, time, boolean, floating point, integer), wide enough for every signed integer and float of that kind.",
 ["inputs"], "every data type, every size, every letter case, every non-type text, every Go value kind",
 "One test covers a few type strings; lookups iterate a map, so a name clash shows only on some runs.",
 ["sql/query/data_type.go", "sql/query/column_def.go"],
 [("type name table", "sql/query/data_type.go")], ["NewDataTypeFrom*/NewDataDef* results"])

add("C24", "Name and index lookups find the right element or report absence",
 "Looking up a column, index, table or selector by name finds the first element with that name (ignoring letter case where names are case-insensitive) and its true position, and reports absence otherwise; access by position returns that element or an error for any position outside the list. Derived views (name lists, selector lists, star detection, function and aggregate detection, table membership) always agree with the underlying list.",
 ["inputs"], "every list of columns, selectors, tables and indexes (empty, one, many, duplicates, mixed case), every name and position",
 "Helpers are exercised only incidentally, through small queries.",
 ["sql/query/columns.go", "sql/query/indexes.go", "sql/query/tables.go", "sql/query/table.go", "sql/query/selectors.go", "sql/query/selectors_helper.go", "sql/util/stack.go"],
 [("list helpers", "sql/query/columns.go"), ("selector helpers", "sql/query/selectors_helper.go")],
 ["helper results vs a plain scan"])

add("C25", "Statements built from parts carry those parts and render like parsed ones",
 "A statement, condition, schema, clause or result built with the library's constructors and options reports exactly the parts it was given, in the order they were given and whatever the order of the options. It renders to the text a parsed statement with the same parts renders to, and that text parses back to the same content; conditions nested with AND and OR keep their structure in the text.",
 ["inputs", "histories"], "every statement of the dialect taken apart and rebuilt, every order of options, every nesting of conditions",
 "Constructors are used by the tests only through the parser; no test builds a statement and reads it back.",
 ["sql/query/create_table.go", "sql/query/insert.go", "sql/query/select.go", "sql/query/update.go", "sql/query/delete.go", "sql/query/alter_table.go", "sql/query/where.go", "sql/query/expr_and.go", "sql/query/expr_or.go", "sql/query/schema.go"],
 [("constructors and options", "sql/query/select.go"), ("rendering", "sql/query/expr_and.go")],
 ["accessors and text of built statements, compared with those of parsed ones"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
