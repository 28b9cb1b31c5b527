#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code so ids, anchors and wording stay reviewable).
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","The scanner accounts for every byte of the script",
 "Splitting any script into tokens always ends, and the tokens tile the script: they appear in source order, start where the previous one ended, cover exactly the bytes they were read from, and carry the line and column of their first character. Nothing (no byte value, multi-byte character or comment) makes the scanner drop, repeat or invent text before the end of input, except that an unterminated string or quoted name ends the scan with an illegal token.",
 ["inputs"],"all byte sequences (any byte values, valid UTF-8 or not)",
 "The lexer tests look at the first token of 14 hand-written ASCII inputs; read-ahead accounting goes wrong only next to particular neighbouring characters.",
 ["lexer.go"],[("rune read-ahead and position accounting","lexer.go: peek, advance, emit, str"),("main scan loop","lexer.go: Run")],["token stream of the scanner"])
p("C02","Every lexeme gets the right kind and the right decoded value",
 "Words are recognised as keywords regardless of letter case and only when the whole word matches, numbers cover the documented integer/decimal/exponent forms, comments (to end of line and C style) are swallowed whole, and quoted strings and quoted names decode to exactly the text they denote (doubled quotes and, in strings, backslash escapes) and end only at their real closing quote.",
 ["inputs"],"all words, numbers, comments and quoted literals",
 "14 spot inputs in lexer_test.go; no test reads all keywords in all letter cases, nor quotes mixed with backslashes.",
 ["lexer.go","tokens_gen.go"],[("keyword table","tokens_gen.go: keywordIdentMap"),("quote scanning and decoding","lexer.go: runQuote, unescapeQuotes"),("numbers and comments","lexer.go: runNumber, runCComment, runToEOL")],["token kinds and values"])
p("C03","Parsing any input ends with a schema or a parse error",
 "For every input the parser terminates and either returns the statements or returns an error of the documented parse-error kind; it never panics, hangs, or reports an internal error type, and malformed or unsupported SQL is rejected rather than accepted with missing pieces.",
 ["inputs"],"all scripts: every continuation of every grammar position, including truncation at any point",
 "parser_test.go has a few dozen scripts; each of the parser's hundreds of token-dispatch points sees one or two follow-up tokens in tests.",
 ["parser.go","errors.go","lexer.go"],[("token look-ahead buffer","parser.go: peek, next, rewind"),("per-clause dispatch","parser.go: parseCreate*, parseTable*, parseColumn*"),("error construction","errors.go: newParseError")],["Parser.Parse / ParseString result"])
p("C04","Parse errors point at the offending place",
 "A parse error carries the line and column of a token of the input at or after which the script stops being parseable, says whether the input ended there, carries the file name when a file was parsed, and its text shows message, file, line, column and the source text just before that place.",
 ["inputs"],"all rejected scripts, any layout (newlines, multi-byte characters, comments) before the error",
 "One test checks one error message; position depends on all preceding bytes.",
 ["errors.go","parser.go","lexer.go"],[("error construction and context","errors.go: newParseError, Error"),("file name decoration","parser.go: ParseFile"),("line/column tracking","lexer.go: advance, emit")],["ParseError accessors and Error()"])
p("C05","Column definitions are read faithfully",
 "For every supported column type and every accepted combination of its attributes, in any letter case, spacing or comment layout, the parsed column has exactly the declared name, type, length/decimals, sign, zerofill, binary, character set, collation, enumerated values, nullability, default (quoted or not), on-update, auto-increment, key flags and comment, and nothing that was not declared (apart from the documented normalisation).",
 ["inputs"],"all column definitions of the supported grammar",
 "Tests sample each type once or twice, with few attribute combinations.",
 ["parser.go","model/table_column.go","model/columns_gen.go"],[("type and attribute parsing","parser.go: parseTableColumnSpec, parseColumnOption, parseSetOrEnum"),("column record","model/table_column.go")],["accessors of the parsed column"])
p("C06","Indexes and foreign keys are read faithfully",
 "For every index or constraint clause the parsed index has exactly the declared kind, constraint symbol, name, index type, columns in order with prefix length and sort direction, full-text parser, and referenced table, columns, match type and delete/update actions.",
 ["inputs"],"all PRIMARY/UNIQUE/INDEX/KEY/FULLTEXT/SPATIAL/FOREIGN KEY clauses of the supported grammar",
 "Tests sample a handful of index clauses; the combinations of symbol, name, type position, prefix, direction, reference options are not enumerated.",
 ["parser.go","model/index.go","model/reference.go"],[("index clauses","parser.go: parseTableConstraint, parseColumnIndex*"),("references","parser.go: parseColumnReference, parseReferenceOption")],["accessors of the parsed index and reference"])
p("C07","Scripts are read statement by statement, nothing lost or invented",
 "A script yields one table per CREATE TABLE statement in order, with its name, temporary / if-not-exists flags, LIKE source and every table option (under its own name, with its value), while comments, empty statements, CREATE DATABASE, DROP, SET and USE statements contribute nothing and never swallow a neighbouring statement.",
 ["inputs"],"all scripts made of the supported statements, any order, separators, comments and letter case",
 "Tests parse mostly one statement at a time with few table options.",
 ["parser.go","model/table.go"],[("statement loop","parser.go: Parse, parseCreate, parseCreateDatabase, eol"),("table options","parser.go: parseCreateTable, parseCreateTableOptions")],["returned statements and their accessors"])
p("C08","Printed SQL reads back as the same schema",
 "Formatting any parsed statement gives SQL that the parser accepts and reads as the same statement (printing several statements and putting a semicolon after each gives the same schema), and formatting that again gives byte-identical text. A table put together by hand, normalised or not, is printed as it was built.",
 ["inputs"],"all schemas expressible in the supported grammar, including arbitrary bytes in names, defaults, comments, enumerations and option values",
 "Tests compare formatted output with fixed strings for a few dozen schemas; none feeds arbitrary values back through the parser.",
 ["format/format.go","parser.go","model/table.go","internal/util/util.go"],[("printer","format/format.go"),("reader","parser.go")],["format.SQL output, re-parsed"])
p("C09","Names and literals never break out of their quotes",
 "Whatever characters a table, column, index or symbol name, a default, comment, enumerated value or option value contains, every statement the tools print keeps it inside its own quoted name or string literal: a reader of the output sees the same statement structure and the same value, never extra tokens or statements.",
 ["inputs"],"all names and literal values (arbitrary bytes), in formatted tables and in every kind of migration statement",
 "No test has a quote, backtick or backslash inside a name or value that is printed.",
 ["format/format.go","diff/diff.go","internal/util/util.go","model/reference.go","source.go"],[("quoting","internal/util/util.go: Backquote; format/format.go"),("migration statements","diff/diff.go")],["format.SQL and diff output"])
p("C10","Normalisation is idempotent and leaves its input alone",
 "Normalising a column or a table a second time changes nothing, reports 'unchanged' exactly when it returns an equal definition, never alters the object it was called on, and keeps everything it does not rewrite (names, flags, LIKE source, options, order of columns and indexes).",
 ["inputs"],"all columns and tables buildable through the model API",
 "table_column_test.go normalises about ten columns once each and compares one field.",
 ["model/table.go","model/table_column.go"],[("table normalisation","model/table.go: Normalize"),("column normalisation","model/table_column.go: Normalize, Clone")],["Normalize() results and receiver accessors"])
p("C11","Equivalent spellings of a schema compare as equal",
 "Two schemas that differ only in spellings MySQL treats as the same (type synonyms, default display widths of the integer types and of DECIMAL, explicit NULL / DEFAULT NULL, quoted numeric defaults, boolean literals, inline PRIMARY/UNIQUE keys versus the named table-level keys they stand for, the index a named foreign key implies, letter case of keywords, layout and comments) give an empty migration, and a genuine difference in any of those places does not.",
 ["inputs"],"all pairs (definition, respelled definition) of the supported grammar",
 "One long test pair from SHOW CREATE TABLE; each type x sign x null x default combination is not covered.",
 ["model/table_column.go","model/columns_gen.go","model/table.go","diff/diff.go"],[("synonyms and native widths","model/table_column.go: NativeLength, Normalize; model/columns_gen.go: SynonymType"),("inline keys and implied indexes","model/table.go: Normalize")],["diff output of the pair"])
p("C12","A schema compared with itself gives no migration",
 "Comparing any parseable schema with itself produces no statements at all, in whatever order internal collections are walked.",
 ["inputs"],"all parseable schemas, all map iteration orders",
 "Two tests compare one specific table with itself.",
 ["diff/diff.go","model/index.go","model/reference.go"],[("identity of tables, columns, indexes","model/*: ID"),("comparison","diff/diff.go")],["diff output"])
p("C13","Migrating columns yields exactly the new column list",
 "Running the column statements of a migration, in the order printed, on the old table only ever touches columns that exist at that moment, never leaves the table without columns, changes nothing that did not change, and ends with exactly the new table's columns and definitions, in the new table's order whenever the surviving columns keep their relative order.",
 ["inputs"],"all pairs of column lists (any adds, drops, redefinitions), all internal iteration orders",
 "diff_test.go has seven column cases; position logic depends on the whole pattern of old and new columns and on map order.",
 ["diff/diff.go"],[("column placement graph","diff/diff.go: addTableColumns, writeAddColumn"),("drops and changes","diff/diff.go: dropTableColumns, alterTableColumns")],["diff output applied to the old table"])
p("C14","Migrating indexes yields exactly the new keys, in a safe order",
 "Any difference between the old and new keys of a table (kind, name, symbol, type, columns, order, prefix length, sort direction, parser, reference and its actions) is migrated, and running the statements in order drops only keys that exist, drops a foreign key before an index, drops keys before columns and adds them after columns, adds an index before the foreign key that needs it, leaves unchanged keys alone, and ends with exactly the new keys; otherwise an error is returned.",
 ["inputs"],"all pairs of key lists, all internal iteration orders",
 "diff_test.go has a dozen single-change key cases.",
 ["diff/diff.go","model/index.go","model/reference.go"],[("key identity","model/index.go: ID; model/reference.go: ID"),("ordering","diff/diff.go: dropTableIndexes, addTableIndexes")],["diff output applied to the old table"])
p("C15","Every table is dropped, created or altered exactly when needed",
 "A migration drops exactly the tables that disappear, creates exactly the tables that appear (complete with their full definition), alters only tables present on both sides and only if they differ, each once, with all drops before all creates before all alterations and every statement terminated and separated, whatever the order internal collections are walked in.",
 ["inputs"],"all pairs of table sets, all internal iteration orders",
 "diff_test.go never has more than one table change per case.",
 ["diff/diff.go"],[("table sets","diff/diff.go: newDiffCtx, dropTables, createTables, alterTables"),("assembly","diff/diff.go: Statements")],["diff output"])
p("C16","Asking for a transaction only adds the wrapper",
 "With the transaction option the output is BEGIN and disabling of foreign key checks, then exactly the statements printed without the option in the same order, then re-enabling of the checks and COMMIT, each exactly once; without the option (or with it off) none of the wrapper appears; when the option is given several times, the last setting counts.",
 ["inputs","configurations"],"all schema pairs x transaction on/off, through every entry point",
 "One test prints one transaction.",
 ["diff/diff.go","diff/option.go"],[("wrapper","diff/diff.go: Statements"),("options","diff/option.go")],["diff output"])
p("C17","A failed comparison or parse reports an error and writes nothing",
 "If either side of a comparison cannot be retrieved, parsed or migrated, the comparison returns an error and not a single byte reaches the output; it never treats an unreadable schema as an empty one.",
 ["inputs","fault_sequences"],"all invalid inputs on either side, and source failures after any number of bytes",
 "No test compares an invalid schema or a failing source.",
 ["diff/diff.go"],[("buffered output","diff/diff.go: Statements, Strings, Sources, Files")],["returned error and bytes written to the output"])
p("C18","Write failures are never swallowed",
 "If the output refuses any write (at any point, including after part of the output was accepted), formatting, linting and comparing return an error; success is reported only when every byte of the result was accepted, in order.",
 ["fault_sequences"],"a write failure at any write call and any byte offset",
 "Tests always write to an in-memory buffer that cannot fail.",
 ["format/format.go","lint/lint.go","diff/diff.go"],[("final writes","format/format.go; lint/lint.go: Run; diff/diff.go: Statements")],["returned error"])
p("C19","A schema source delivers the whole schema or an error",
 "Retrieving a schema from a reader, a file, a git revision or a database either delivers every byte (for a database: the definition of every listed table, each terminated, in order) or returns an error; a failure at any step, including the connection breaking half way through the table list, is never mistaken for the end of the schema, and the output is not written to before the schema is complete for git and database sources.",
 ["fault_sequences","inputs"],"all failure points of the underlying file, command, connection, query, row iteration; all table names and definitions",
 "Only the happy path of file and git sources is tested; the database source has no test that runs without a server.",
 ["source.go"],[("database source","source.go: mysqlSource.WriteSchema"),("git, file and reader sources","source.go: WriteSchema of each")],["bytes written and error returned by WriteSchema"])
p("C20","Source strings select the right kind of source or an error",
 "A source string is resolved to standard input, a database, a git revision or a local file exactly as documented (with the directory, file and revision or path taken from it), and anything else, including remote hosts and unknown schemes, is reported as an error; a usable source is returned exactly when no error is.",
 ["inputs"],"all source strings",
 "source_test.go tries a handful of well-formed strings.",
 ["source.go"],[("dispatch","source.go: NewSchemaSource")],["NewSchemaSource result"])
p("C21","Linting rewrites layout only",
 "The lint output denotes the same schema as its input with every statement terminated, is accepted by the linter again with a byte-identical result, and the indentation setting changes nothing but the white space at the start of lines (the requested string repeated the requested number of times, at least once).",
 ["inputs","configurations"],"all parseable schemas x indentation settings",
 "No lint test exists; one format test checks one indentation.",
 ["lint/lint.go","format/format.go","format/option.go"],[("statement separation","lint/lint.go: Run"),("indentation","format/format.go: formatTable; format/option.go: WithIndent")],["bytes written by Run"])
p("C22","Results do not depend on scheduling and nothing is left running",
 "Parsing runs its scanner concurrently: for every interleaving the result (statements or error) is the same, no interleaving deadlocks, and once the call has returned, successfully or with an error, no goroutine it started remains blocked.",
 ["schedules","inputs"],"all interleavings of parser and scanner, all early exits",
 "Tests run one schedule each and never look for leftovers.",
 ["parser.go","lexer.go"],[("scanner goroutine and cancellation","lexer.go: lex, Run, emit; parser.go: Parse, peek")],["Parse result and goroutines alive afterwards"])
p("C23","Schema objects keep consistent books",
 "For every sequence of building steps, lookups by column agree with iteration order (position, predecessor, presence), adding a column that already belongs to a table does not disturb that table, a clone can be changed without affecting the original, and iterating never consumes or reorders what a later iteration sees.",
 ["histories","inputs"],"all sequences of add/set/clone/lookup calls on tables, columns and indexes",
 "model tests check one lookup sequence.",
 ["model/table.go","model/table_column.go","model/index.go"],[("column book-keeping","model/table.go: AddColumn, Lookup*"),("clones","model/table_column.go: Clone; model/index.go: Clone")],["accessors and lookups"])
p("C24","Database connection settings are honoured exactly",
 "For every database source string the resulting connection settings are those of the string; TLS parameters are demanded and loaded when the TLS flag is a true boolean and are never sent to the server as session variables, a registered or false TLS setting is passed through untouched, and every unreadable or malformed certificate file is an error rather than a connection without TLS.",
 ["inputs","fault_sequences"],"all DSNs x certificate-file failures",
 "source_test.go covers one TLS DSN with good files.",
 ["source.go"],[("DSN handling","source.go: MySQLConfig, open")],["MySQLConfig result"])
p("C25","The command line tools do what they were asked or exit non-zero",
 "For every combination of flags and arguments the tools compare or lint exactly the given sources with the given options into the given destination, and any failure (bad arguments, unreadable or invalid source, unwritable output) makes the command report an error.",
 ["configurations","fault_sequences"],"all flag and argument combinations x failures",
 "The commands have no tests.",
 ["cmd/schemalex/schemalex.go","cmd/schemadiff/schemadiff.go","cmd/schemalint/schemalint.go"],[("argument handling","cmd/*/: _main, main")],["error returned, output written"])
p("C26","Operations do not influence each other or their arguments",
 "What parsing, formatting, linting and comparing give depends on their arguments alone: no earlier call, successful or failed, with whatever options, changes what a later one gives. They leave the bytes, options and statements they are given as they were, what they return does not change when the input is overwritten afterwards, and what was read by separate calls, or as separate statements of one call, shares nothing that can be changed.",
 ["histories","inputs"],"all sequences of operations on all inputs",
 "Tests make one call per value and never look at the arguments again.",
 ["parser.go","lexer.go","diff/diff.go","format/format.go","lint/lint.go","model/table.go","model/index.go","model/table_column.go"],[("one parser, linter and set of options for many calls","parser.go: Parse; lint/lint.go: Run; diff/diff.go: Statements"),("statements walked and looked up","model/: Columns, Indexes, Options, Normalize")],["results of calls made before and after others","accessors of the arguments"])
p("C27","Every way of asking for the same thing gives the same result",
 "The same script gives the same statements, or the same error at the same position, whether given as bytes, string or file (whose name the error then carries). The same two schemas give the same migration or the same failure as statements, strings, files or sources, whatever the order of options. A list of statements is printed as its statements one by one, a column, key, reference or option printed alone means what it means inside its table, linting prints each statement with a terminator, and options given to a linter when it is made apply to every run of it.",
 ["inputs","configurations"],"all scripts, schemas and options x all entry points",
 "Each test uses one entry point, and none compares them.",
 ["parser.go","diff/diff.go","diff/option.go","format/format.go","lint/lint.go","source.go"],[("entry points of the parser","parser.go: Parse, ParseString, ParseFile"),("entry points of the comparison","diff/diff.go: Statements, Strings, Files, Sources"),("printing","format/format.go: SQL; lint/lint.go: New, Run")],["results and errors of the entry points"])
p("C28","A migration ends with the new schema, and the way back with the old one",
 "Applying, in order, the statements of a migration to a database that has the old schema is possible and ends with exactly the new schema: the same tables, columns with the same definitions, and keys. Comparing the result with the new schema leaves nothing to do; so a chain of migrations ends with the last schema wherever it went before, and the migration back restores the schema it started from. If a key cannot be dropped because it has no name, an error is returned and nothing written.",
 ["histories","inputs"],"all sequences of schemas, all internal iteration orders, with and without a transaction",
 "Tests compare the text of one migration with an expected text and never apply it.",
 ["diff/diff.go","model/table.go","model/table_column.go","model/index.go","format/format.go"],[("assembly of a migration","diff/diff.go: Statements and the alter procedures"),("identity of parts","model/: ID methods; model/table.go: Normalize")],["the statements, applied one after the other to a model of a database"])
p("C29","A database that has the schema needs no migration",
 "Comparing a schema file with a database that has this schema, where the database spells it as MySQL 5.7 or 8.0 does in SHOW CREATE TABLE (lower case types, display widths, quoted defaults, implicit NULL defaults, keys at the end, the key a foreign key brings along, table options and partitions), gives an empty migration, on whichever side the database is; if one of them is changed, the migration is not empty and changes just that.",
 ["inputs","configurations"],"all schemas x server versions",
 "No test that runs without a server uses a database source.",
 ["source.go","parser.go","model/table.go","model/table_column.go","model/index.go","diff/diff.go"],[("spellings treated alike","model/table_column.go: NativeLength, Normalize; model/table.go: Normalize; model/columns.go"),("what a server prints","parser.go: table options, comments"),("retrieval","source.go: mysqlSource.WriteSchema")],["diff output"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
