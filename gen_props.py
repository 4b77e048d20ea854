#!/usr/bin/env python3
"""Writes properties.jsonl. The property texts live here so that they stay readable."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    anchors={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: anchors["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":anchors})

p("C01","Parsing any input ends in a model or a ParseError, never a panic or hang",
  "For every byte sequence, parsing terminates without panicking, and returns either a list of statements or an error, never both and never a partial list with an error. Every error raised about the SQL text is a ParseError, whether it comes from a string, a byte slice or a file. Whatever is accepted can be handed to the formatter and the differ, and those do not panic either.",
  ["inputs"],"all byte strings: arbitrary bytes, NULs, invalid UTF-8, token soup, truncations and mutations of valid schemas",
  "TestParser feeds about 50 well-formed snippets and five malformed ones; the space of malformed input (every cut, every swapped token, every encoding accident) is unbounded.",
  ["parser.go","lexer.go","errors.go"],
  [("lexer goroutine ends on EOF/illegal/cancel","lexer.go Run"),("error construction","errors.go newParseError"),("top-level statement loop","parser.go Parse")],
  ["Parser.Parse","Parser.ParseString","Parser.ParseFile","format.SQL","diff.Statements"])

p("C02","Parse errors point at the offending token",
  "When a schema is rejected because of one bad token, the reported line is the line that token is on, the column is its character offset in that line (counted from one on the first line, from zero below it), and the quoted excerpt is exactly the (at most 40 bytes of) source text in front of it. When the input simply ends too early the error says so (EOF) and points at the end of the input, and an error from a file names that file. Errors of diff and lint carry the same location: the parse error is their cause and ends their message.",
  ["inputs"],"all supported CREATE TABLE texts (any layout, comments, multi-byte text, line endings), any token position, with an unacceptable character inserted or the text cut there",
  "TestParseError1/2 check two single-line positions; multi-line input, multi-byte characters, tabs, comments and every other grammar position are unchecked.",
  ["lexer.go","errors.go","parser.go","diff/diff.go","lint/lint.go"],
  [("line/col/pos tracking with look-ahead","lexer.go emit/advance/str"),("excerpt extraction","errors.go newParseError"),("file name attribution","parser.go ParseFile"),("wrapping of parse errors","diff/diff.go Strings, lint/lint.go Run")],
  ["ParseError.Line","ParseError.Col","ParseError.EOF","ParseError.File","ParseError.Error"],
  [("lexer.start/cur","token start and read-ahead position","lexer.go")])

p("C03","The parsed model says what the DDL says",
  "For every CREATE TABLE statement in the supported dialect, the returned table has exactly the declared name, flags, columns (in order, with type, size, scale, sign, zerofill, binary, character set, collation, nullability, default, on-update, auto-increment, comment, enum/set members), indexes and constraints (kind, name, symbol, algorithm, columns with prefix length and direction, parser, reference with match and actions) and table options, modulo the documented normalization. Nothing is dropped, invented, reordered or attached to the wrong object.",
  ["inputs"],"all schemas of the supported dialect: every column type crossed with its attributes in every accepted order, every index kind, any number of columns, indexes, members and options",
  "The parser tests sample one or two attribute combinations each and compare formatted text; combinations, orders, long lists and multi-table files are not covered.",
  ["parser.go","lexer.go","model/table.go","model/table_column.go","model/index.go","model/reference.go"],
  [("column spec and options","parser.go parseTableColumnSpec/parseColumnOption"),("index parsing","parser.go parseColumnIndex*"),("table options","parser.go parseCreateTableOptions"),("normalization","model/table.go Normalize")],
  ["Parser.Parse result through the model interfaces"])

p("C04","Insignificant spelling never changes the result",
  "Two texts that differ only in keyword case, white space, line endings, comments, optional quoting of identifiers, quoting style of strings, optional noise words (KEY/INDEX, '=', CHARSET/CHARACTER SET), order of freely ordered column attributes, or empty statements parse to models that compare equal and format to identical SQL.",
  ["inputs"],"all supported schemas, all pairs of spellings of the same schema",
  "A metamorphic property over pairs of texts; tests fix one spelling per feature.",
  ["lexer.go","parser.go","tokens_gen.go"],
  [("keyword lookup","lexer.go Run / tokens_gen.go keywordIdentMap"),("whitespace and comment skipping","parser.go skipWhiteSpaces"),("comment lexing","lexer.go runCComment/runToEOL")],
  ["Parser.Parse","format.SQL","diff.Statements between the two spellings"])

p("C05","No table statement is silently lost",
  "If a script is accepted, the result contains one table per CREATE TABLE statement of the script, in script order, no matter which ignored statements (SET, USE, DROP, CREATE DATABASE, comments, empty statements) stand between them and what quotes, semicolons or comment markers those contain. SQL inside comments and string literals never takes effect. A script whose tail cannot be understood (unterminated string, identifier or comment, stray NUL byte) is an error, never a shortened result.",
  ["inputs"],"all scripts interleaving supported table statements with ignored statements, comments and literals of arbitrary content",
  "Silent truncation turns into DROP TABLE in the diff. Tests contain three fixed scripts.",
  ["parser.go","lexer.go"],
  [("statement loop and skip loop","parser.go Parse"),("quote and comment lexing","lexer.go runQuote/runCComment/runToEOL"),("end of input detection","lexer.go eof")],
  ["Parser.Parse statement list"])

p("C06","Normalization is canonical, idempotent and side-effect free",
  "Normalizing a column or table changes only notation: synonymous types, omitted widths and scales, explicit NULL / omitted DEFAULT NULL, quoted numeric defaults, boolean literals, column-level PRIMARY/UNIQUE and implicit constraint indexes are rewritten to one canonical form, and everything else is untouched. Normalizing twice equals normalizing once, the receiver is never modified, the reported 'modified' flag is truthful, and definitions that mean different things stay different.",
  ["inputs"],"all columns (type x sign x width x nullability x default x key flags x other attributes) and all tables built from them, through the parser or the model API",
  "TestTableColumnNormalize has eight columns, checks neither idempotence nor receiver mutation nor tables.",
  ["model/table_column.go","model/table.go","model/columns_gen.go"],
  [("column normalization","model/table_column.go Normalize/NativeLength"),("table normalization","model/table.go Normalize"),("synonyms","model/columns_gen.go SynonymType")],
  ["TableColumn.Normalize","Table.Normalize","Index.Normalize"])

p("C07","Formatted SQL parses back to the same schema",
  "For every accepted input, formatting each of the parsed statements gives SQL that the parser accepts and that parses to an equal list of statements; formatting that again gives the same bytes. The same holds for tables, columns, indexes, references and databases built or changed through the model API, up to normalization, whatever they were used for before.",
  ["inputs"],"all accepted texts (generated, mutated, garbage-but-accepted) and all API-built models whose parts are valid",
  "Format tests only log output; parser tests never re-parse what they format.",
  ["format/format.go","parser.go","model/table.go"],
  [("SQL rendering","format/format.go format*"),("parsing","parser.go")],
  ["format.SQL then Parser.Parse"])

p("C08","String contents and identifiers survive unchanged",
  "Whatever characters a string literal (comment, default, enum/set member, table option) or a quoted identifier contains (quotes of any kind, backslash escapes, semicolons, comment markers, line breaks, control or non-ASCII bytes), the SQL produced by formatting, linting and diffing contains a literal or identifier that denotes the same content. The content never leaks out of its quotes into the surrounding statement.",
  ["inputs"],"all literal and identifier contents in every position where one can occur, each in every quoting style",
  "Contents in the tests are plain ASCII words; escaping only goes wrong on unusual content.",
  ["lexer.go","format/format.go","diff/diff.go","internal/util/util.go"],
  [("unescaping","lexer.go unescapeQuotes/runQuote"),("quoting","format/format.go, internal/util/util.go Backquote"),("identifiers in ALTER/DROP","diff/diff.go")],
  ["format.SQL","diff.Strings output read by an independent SQL lexer"])

p("C09","Lint output is a stable canonical form",
  "Linting a schema prints exactly its CREATE TABLE statements in order, each terminated by a semicolon; the output means the same schema (empty diff against the source in both directions), linting it again reproduces it byte for byte, and all spellings of one schema lint to the same bytes. The indent option changes only the white space in front of lines.",
  ["inputs","configurations"],"all supported schemas x indent settings",
  "The lint package has no tests at all.",
  ["lint/lint.go","format/format.go","format/option.go"],
  [("lint loop","lint/lint.go Run"),("indent","format/option.go WithIndent")],
  ["lint.Linter.Run output"])

p("C10","Equivalent schemas produce an empty diff",
  "Diffing a schema against itself, against any respelling of it, against its formatted form, or against an equivalent declaration (synonym types, implied widths and defaults, column-level versus table-level keys, reordered indexes, implicit versus explicit constraint index) produces no statements. With the transaction option only the fixed wrapper is printed.",
  ["inputs"],"all supported schemas, all equivalent variants of each",
  "TestDiff has three no-change cases; spurious ALTERs show up only for particular attribute combinations.",
  ["diff/diff.go","model/table.go","model/table_column.go","model/index.go"],
  [("column comparison","diff/diff.go alterTableColumns"),("index identity","model/index.go ID"),("normalization","model/table.go Normalize")],
  ["diff.Strings output"])

p("C11","Applying the diff to the old schema yields the new schema",
  "For every pair of supported schemas whose tables are defined by column lists, either the differ returns an error because an unnamed index would have to be dropped, or executing the printed statements on the old schema gives exactly the new schema's tables, columns (definition and, for added columns, position), indexes and foreign keys. Table options, table flags and reordering of surviving columns are outside what the tool migrates.",
  ["inputs"],"all ordered pairs of supported schemas: independent pairs, and pairs related by edit scripts",
  "TestDiff checks 20 fixed pairs against fixed text; it never executes the statements and changes one thing at a time.",
  ["diff/diff.go","format/format.go","model/index.go"],
  [("drop/create/alter passes","diff/diff.go dropTables/createTables/alterTables"),("column placement","diff/diff.go addTableColumns"),("index set difference","diff/diff.go dropTableIndexes/addTableIndexes")],
  ["diff.Strings output executed by an independent DDL interpreter"])

p("C12","Every diff statement can be executed at its place in the sequence",
  "Executed in printed order on the old schema, no statement refers to a table, column or index that does not exist at that moment, adds one that already exists, positions a column after a missing one, removes a table's last column, drops an index before the foreign key it was implicitly created for, or creates a table LIKE one created later. Every statement is complete, terminated by a semicolon, and on its own line.",
  ["inputs"],"all ordered pairs of supported schemas",
  "Ordering mistakes depend on which kinds of change coincide in one table; tests cover a handful of coincidences.",
  ["diff/diff.go"],
  [("pass order","diff/diff.go alterTables procs"),("lazy foreign key handling","diff/diff.go dropTableIndexes/addTableIndexes"),("column dependency order","diff/diff.go addTableColumns")],
  ["diff.Strings output, statement by statement"])

p("C13","The diff touches only what differs",
  "Every printed statement concerns an object that differs between the two schemas: tables equal in both are never mentioned, columns and indexes equal in both are neither dropped, added nor changed, and no object is created, dropped or changed twice. A single edit (one attribute of one column or index) yields statements for just that object, and never none.",
  ["inputs"],"all ordered pairs of supported schemas; all single edits of a schema",
  "Minimality over arbitrary pairs and sensitivity to every single attribute are not sampled by the tests.",
  ["diff/diff.go","model/index.go","model/table_column.go"],
  [("set differences over IDs","diff/diff.go newDiffCtx/newAlterCtx"),("DeepEqual of columns","diff/diff.go alterTableColumns"),("index identity","model/index.go ID")],
  ["diff.Strings output"])

p("C14","Output is deterministic",
  "The same inputs and options always give byte-identical output (diff, format, lint) and identical errors, in every repetition, in every process, and under any scheduling or GOMAXPROCS setting.",
  ["inputs","schedules"],"all schema pairs, repeated in one process and across processes",
  "A test runs once per input with at most one changed object, so iteration order never shows.",
  ["diff/diff.go","format/format.go"],
  [("iteration order over sets","diff/diff.go")],
  ["bytes written by diff.Strings, format.SQL, lint.Run; error strings"])

p("C15","All diff entry points and the transaction option agree",
  "Diffing strings, files, sources or parsed statements with the same content gives the same output and fails on the same inputs. Turning the transaction option on adds exactly the BEGIN / SET FOREIGN_KEY_CHECKS = 0 prologue and the SET FOREIGN_KEY_CHECKS = 1 / COMMIT epilogue around the otherwise unchanged statements; on failure nothing is written. Inputs are not modified by diffing.",
  ["inputs","configurations"],"all schema pairs (valid and invalid) x entry points x options",
  "Only diff.Strings is tested, only without transaction (one printed example with).",
  ["diff/diff.go","diff/option.go"],
  [("option handling and framing","diff/diff.go Statements"),("delegation","diff/diff.go Strings/Files/Sources")],
  ["bytes written to dst, returned error"])

p("C16","Parsers and parsed models are safe for concurrent use",
  "Any number of goroutines may share one parser and one set of parsed statements for parsing, formatting, diffing, linting and lookups, and one source that can be read repeatedly (a file, a git object, a database): there is no data race, and every call returns what it would return if run alone.",
  ["schedules","inputs"],"interleavings of concurrent calls on shared parser, statements and tables",
  "No test runs anything concurrently, and the suite is not run under the race detector.",
  ["parser.go","lexer.go","model/table.go","diff/diff.go","format/format.go"],
  [("one context and channel per parse","parser.go Parse, lexer.go lex"),("table lock","model/table.go mu")],
  ["race detector reports; results compared with sequential results"])

p("C17","Nothing is leaked after a call returns",
  "After a parse, diff, lint or source read has returned, whether it succeeded, failed early or was given malformed input, no goroutine started by it stays alive and no file descriptor, child process or database connection it opened stays open.",
  ["inputs","schedules","fault_sequences"],"all inputs, with errors at every token position, on every source kind",
  "Leaks are invisible to tests that look at return values; they depend on where in the input the parser gives up.",
  ["lexer.go","parser.go","source.go"],
  [("cancel on return","parser.go Parse"),("select on ctx.Done in emit","lexer.go emit"),("Close of files and connections","source.go")],
  ["goroutine stacks, /proc/self/fd, fake MySQL server's connection table"])

p("C18","Sources deliver exactly the bytes they name",
  "A source string resolves to standard input for '-', to MySQL for mysql://, to a committed file for local-git://, and to a local file for file:// URLs and plain paths (whatever characters the path contains); anything else is an error and never a nil source. Reading a source yields exactly the bytes of that reader, file, or file at that commit, and an unreadable source is an error.",
  ["inputs","fault_sequences"],"all source strings, file names and contents, git histories and commit-ish spellings; readers that fail or return short counts",
  "TestSchemaSource only inspects the parsed fields of six well-behaved strings and reads nothing.",
  ["source.go"],
  [("URI dispatch","source.go NewSchemaSource"),("readers","source.go WriteSchema methods")],
  ["NewSchemaSource","SchemaSource.WriteSchema"])

p("C19","A MySQL source yields every table or an error",
  "Reading a schema from a MySQL server writes the CREATE statement of every table the server lists, in order and unmodified, or returns an error and writes nothing. A connection cut, server error or malformed reply at any point of the exchange is never turned into a shorter schema; table names are always sent quoted correctly; only read-only statements are sent.",
  ["fault_sequences","inputs"],"every packet boundary and byte cut of the exchange as fault point; table counts and names; server errors at every reply",
  "No test talks to a server. A cut in the table list would make the differ print DROP TABLE for the missing ones.",
  ["source.go"],
  [("SHOW TABLES / SHOW CREATE TABLE loop","source.go mysqlSource.WriteSchema"),("row iteration errors","source.go")],
  ["SchemaSource.WriteSchema against a scripted MySQL protocol server"])

p("C20","A failing output is always reported",
  "If the destination writer fails (accepting any part of what it is given) at any point of a diff, format, lint or source copy, the call returns an error; what reached the writer is a prefix of the correct output. If the call returns no error, the writer received the complete output.",
  ["fault_sequences","inputs"],"every byte offset at which the destination can fail, for all operations",
  "No test uses a failing writer.",
  ["diff/diff.go","format/format.go","lint/lint.go","source.go"],
  [("buffer then write","diff/diff.go Statements"),("write error checks","format/format.go, lint/lint.go Run")],
  ["returned error and bytes accepted by the writer"])

p("C21","The commands do what the library does",
  "schemalex and schemadiff print exactly what the library's diff gives for the two sources (transaction wrapper on unless -t=false), schemalint what the linter gives with the chosen indent, to standard output or to the -o file, reading standard input for '-'. The exit status is zero if and only if complete output was produced; errors go to standard error, not into the output.",
  ["inputs","configurations","fault_sequences"],"all schema inputs x options x source kinds x failing outputs",
  "The commands have no tests.",
  ["cmd/schemalex/schemalex.go","cmd/schemadiff/schemadiff.go","cmd/schemalint/schemalint.go"],
  [("option parsing and wiring","cmd/*/*.go _main")],
  ["process exit status, stdout, stderr, output file"])

p("C22","Identity of model objects is exactly their definition",
  "Two index definitions have equal identifiers if and only if they agree on table, name, symbol, kind, algorithm, columns (order, prefix length, direction), parser option and reference (table, columns, match, actions); likewise references, and tables, columns and databases by name. Looking up a statement, column or index by its identifier returns that object.",
  ["inputs"],"all pairs of index, reference, column, table definitions differing in any one respect or in none",
  "The diff relies on identifiers being injective and stable; no test compares identifiers.",
  ["model/index.go","model/reference.go","model/table.go","model/statement.go"],
  [("hash identity","model/index.go ID, model/reference.go ID"),("lookup","model/statement.go Lookup, model/table.go Lookup*")],
  ["ID() of Index, Reference, IndexColumn, Table, TableColumn; Lookup*"])

p("C23","Tables keep columns, order and lookups consistent and isolated",
  "After any sequence of additions, iterating a table gives columns, indexes and options in insertion order, and looking a column up by identifier returns that column, its position and its predecessor consistently with that order. A column added to a second table is copied, so changing either copy, or any clone, never shows in the other. Concurrent column additions and look-ups lose nothing and never race.",
  ["histories","schedules"],"all sequences of model operations; concurrent additions and look-ups",
  "TestStatement constructs four objects and asserts nothing.",
  ["model/table.go","model/table_column.go","model/index.go"],
  [("name index","model/table.go AddColumn/columnNameToIndex"),("cloning","model/table_column.go Clone"),("lock","model/table.go mu")],
  ["Table interface"])

p("C24","MySQL connection settings are honoured",
  "For every DSN, the derived configuration keeps user, password, network, address, database and session parameters as given. With a true tls flag it requires readable CA, certificate and key files, registers a configuration with exactly those under a fresh name for every call, and does not send the file parameters to the server as session variables; bad or missing files are errors, and other tls values pass through unchanged.",
  ["inputs","schedules"],"all DSNs x tls settings x certificate file states; repeated and concurrent calls",
  "TestSchemaSource checks one DSN with valid files and the prefix of the registered name.",
  ["source.go"],
  [("TLS parameter handling","source.go MySQLConfig"),("unique registration","source.go MySQLConfig tlsName")],
  ["MySQLConfig result, statements seen by a fake server"])

p("C25","Malformed definitions are refused, never half understood",
  "A CREATE TABLE that does not follow the grammar of the dialect - a token missing, doubled, out of place or of the wrong kind, a clause that the type does not have, a list without an end, words behind the end of a statement - makes parsing fail as a whole, without statements. A definition that is accepted means what all of its tokens say: no token is dropped, and no clause silently replaces another (an attribute that MySQL lets one repeat, such as DEFAULT, counts as MySQL has it: the last).",
  ["inputs"],"all token sequences, in particular all those a few edits away from a valid schema",
  "The parser's tests hold a handful of malformed texts; most of its error branches are never taken.",
  ["parser.go","lexer.go"],
  [("token expectations","parser.go newParseError sites"),("attribute applicability","parser.go parseColumnOption check"),("end of statement","parser.go eol")],
  ["Parse result and error"])

p("C26","Generating the code anew changes nothing",
  "go generate, run on the tree as it is, succeeds, writes exactly the files that say they are generated and leaves no others, and a program built with the regenerated files answers like one built with the committed ones: the same token, column type, index and reference names, the same keywords and synonyms, the same results and errors of parsing, formatting, linting and diffing. The generators write the same bytes every time, to the file and for the package they are told, and fail if they can not write them.",
  ["inputs","histories"],"all token and type numbers, all texts; repeated runs of the generators",
  "No test runs a generator; a generated file that has been edited by hand, or a generator that has been changed without running it, passes all tests until somebody regenerates.",
  ["internal/cmd/gentokens/main.go","internal/cmd/gencoltypes/main.go","tokens_gen.go","model/columns_gen.go"],
  [("token table and keywords","internal/cmd/gentokens/main.go, tokens_gen.go"),("column types and synonyms","internal/cmd/gencoltypes/main.go, model/columns_gen.go"),("names of enumerations","model/*_string_gen.go")],
  ["files written by the generators, answers of both programs"])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
