#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe="the text and arguments returned by Query, NamedQuery and String"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, state=state, observe=observe))

prop("C01", "Values never influence the SQL text",
 "The text of the positional and of the named rendering of a statement depends only on its shape: replacing any value by any other value, whatever it contains, leaves both texts unchanged byte for byte, as long as NULL stays NULL and lists keep their lengths. Every value other than NULL leaves the text entirely and travels as an argument.",
 ["inputs", "programs"], "all statements of the four kinds, all positions of values in them, and all pairs of value assignments of the same shape",
 "The tests bind a few benign values in fixed statements; injection safety is about every value in every position of every statement, nested ones included.",
 ["stmt/expression.go", "types/context.go", "builder/builder.go"],
 [("values are bound, never written", "stmt/expression.go Value.Write"), ("contexts emit placeholders", "types/context.go StdContext.Bind, NamedContext.Bind")],
 "metamorphic relation over random statements with two value assignments")
prop("C02", "Placeholders and arguments agree",
 "In the positional rendering the placeholders are $1 to $n in reading order and the i-th argument is the i-th value the program gave, unchanged; in the named rendering they are :arg_1 to :arg_n in reading order, each present exactly once in the argument map with that same value, and the map holds nothing else. NULL takes no placeholder, and the numbering runs on through nested statements of any number and size.",
 ["inputs", "programs"], "all statements with any number of values (tried up to several thousand), nested to any depth",
 "The tests compare fixed texts with a handful of arguments; an argument that is skipped, duplicated or shifted shows only for particular combinations of clauses, nestings, NULLs and counts.",
 ["types/context.go", "stmt/expression.go", "stmt/select.go", "stmt/insert.go", "stmt/update.go", "stmt/delete.go"],
 [("placeholder numbering", "types/context.go Bind"), ("clauses are written in reading order", "stmt/*.go Write")],
 "model of the argument list in reading order, over random statements")
prop("C03", "The three renderings agree",
 "The positional, the named and the inlined rendering of a builder are the same statement: replacing each placeholder of the positional text by its name gives the named text, and replacing each by the literal of its argument gives the inlined text. This includes comments, prefixes and suffixes.",
 ["inputs", "programs"], "all statements of the four kinds with all kinds of values",
 "The tests check each rendering on its own and mostly on different statements.",
 ["types/context.go", "format/format.go", "builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go"],
 [("one writer, three contexts", "types/context.go"), ("entry points", "builder/*.go String, NamedQuery, Query")],
 "differential comparison of the three renderings of random statements")
prop("C04", "A SELECT means what was built",
 "The text of a SELECT, read by PostgreSQL's grammar, is exactly the query the calls describe: with-queries, DISTINCT or DISTINCT ON, select list with aliases, aggregates and functions, FROM items with ONLY and aliases, joins with type, table and condition, WHERE, GROUP BY, HAVING, ORDER BY with directions, LIMIT, OFFSET, prefix and suffix, each with all its parts in the given order and nothing else. Later calls to list-like clauses (joins, ordering, with-queries) append; a later select list replaces the earlier one.",
 ["inputs", "programs"], "all SELECT programs over the public builder interface, with nested queries",
 "The tests compare about a hundred fixed statements with fixed texts; combinations of clauses, long lists, aliases, nesting and unusual names are not among them.",
 ["builder/select.go", "stmt/select.go", "stmt/from.go", "stmt/join.go", "stmt/column.go", "stmt/table.go", "stmt/orderby.go", "stmt/with.go", "stmt/aggregate.go"],
 [("clause order and guards", "stmt/select.go Write"), ("builder calls", "builder/select.go")],
 "model-based: the rendering is parsed by an independent PostgreSQL parser and compared with the model's tree")
prop("C05", "An INSERT means what was built",
 "The text of an INSERT, read by PostgreSQL's grammar, is exactly the insertion the calls describe: the table, the columns in order, every row with every value in its place (whether given as values, slices, rows or column-value pairs), the conflict targets in order with the action and its assignments, and the returned columns. No row, value or column is lost, duplicated, merged or reordered.",
 ["inputs", "programs"], "all INSERT programs: row counts and widths, every documented form of giving values, conflict clauses",
 "The tests use one to three rows of two or three values in a few of the forms.",
 ["builder/insert.go", "stmt/insert.go", "stmt/values.go", "stmt/expression.go", "stmt/conflict.go", "stmt/returning.go"],
 [("lists of rows", "stmt/expression.go NewArrayListExpression"), ("clause order", "stmt/insert.go Write")],
 "model-based: parsed back and compared with the model's tree")
prop("C06", "An UPDATE means what was built",
 "The text of an UPDATE, read by PostgreSQL's grammar, is exactly the update the calls describe: with-queries, ONLY, the table, every assignment (column = value pairs, or a column list with its values or subquery in order), FROM, the condition and the returned columns. No assignment or condition is lost, duplicated or reassigned to another column.",
 ["inputs", "programs"], "all UPDATE programs with pairs, maps, column lists, FROM, conditions, with-queries",
 "The tests use one or two assignments with simple conditions.",
 ["builder/update.go", "stmt/update.go", "stmt/set.go", "stmt/from.go", "stmt/where.go"],
 [("assignments", "stmt/set.go"), ("clause order", "stmt/update.go Write")],
 "model-based: parsed back and compared with the model's tree")
prop("C07", "A DELETE means what was built",
 "The text of a DELETE, read by PostgreSQL's grammar, is exactly the deletion the calls describe: the table with ONLY and alias, every USING table in order, the whole condition and the returned columns.",
 ["inputs", "programs"], "all DELETE programs with using tables, conditions and returned columns",
 "The tests use a dozen fixed statements.",
 ["builder/delete.go", "stmt/delete.go", "stmt/using.go", "stmt/where.go", "stmt/returning.go"],
 [("clause order", "stmt/delete.go Write"), ("builder calls", "builder/delete.go")],
 "model-based: parsed back and compared with the model's tree")
prop("C08", "Conditions keep the grouping the program built",
 "Read with SQL's operator precedence, the condition of a WHERE, HAVING or JOIN clause has exactly the AND/OR structure the program built, however deeply nested and mixed. A chain of where, and, or calls combines from the left: each call joins everything before it with its own condition.",
 ["inputs", "programs"], "all condition trees over comparisons, lists, ranges, null tests, subqueries, functions and raw operands, and all chains of calls",
 "A missing parenthesis changes the meaning only for particular mixtures of AND and OR at particular depths; the tests fix a few shapes.",
 ["stmt/infix.go", "stmt/where.go", "stmt/having.go", "stmt/expression.go", "stmt/on.go", "builder/select.go"],
 [("parentheses around each infix expression", "stmt/infix.go Write"), ("chaining", "stmt/where.go And, Or")],
 "model-based: the tree read back with SQL precedence is compared with the program's tree")
prop("C09", "No condition is silently lost",
 "Every condition given to where, and, or, having appears in the rendering exactly once. A nil or empty condition (one without a column or operand is empty), alone or as a part of a combination at any depth, is rejected by a panic when the statement is built or rendered; it never makes the clause, or another condition, disappear.",
 ["inputs", "programs"], "all chains and trees of conditions, on SELECT, UPDATE and DELETE, with nil or empty conditions injected at any place",
 "A lost condition turns a guarded UPDATE or DELETE into one of the whole table; the tests never mix empty conditions in.",
 ["stmt/where.go", "stmt/having.go", "stmt/infix.go", "builder/select.go", "builder/update.go", "builder/delete.go"],
 [("rejection of empty conditions", "stmt/where.go, stmt/having.go"), ("emptiness of expressions", "stmt/*.go IsEmpty")],
 "random condition trees with unique markers, and injection of empty conditions")
prop("C10", "Names are quoted and cannot break out",
 "Every table, column, alias and table qualifier given as a name (valid UTF-8 without NUL) reads back from the SQL text as that very name: dotted names as their parts, each part quoted on its own, with double quotes inside a part doubled, and the * wildcard unquoted; an alias is one name, dots included. No name, whatever characters it holds, can end its quoting and reach the rest of the statement. Ordering expressions, aggregate arguments, function names and with-query names are written as given and are not names in this sense.",
 ["inputs", "programs"], "all names of any characters, in every position that takes a table, a column or an alias, in all four kinds of statement",
 "The tests use plain ASCII names only.",
 ["stmt/stmt.go", "stmt/column.go", "stmt/table.go", "stmt/expression.go", "stmt/on.go", "stmt/groupby.go", "stmt/returning.go"],
 [("quoting", "stmt quote function"), ("use in every name position", "stmt/*.go Write")],
 "round trip of generated names through an independent SQL lexer, in every position")
prop("C11", "Builders are values: derived ones do not affect each other",
 "Deriving a builder from another leaves the other as it was: whatever tree of builders a program derives from shared bases, in whatever order and whenever it renders them, each renders as the sequence of calls on its own path alone would, rejected calls leaving no trace. Slices, maps and nested builders handed over and changed by the caller afterwards do not change it either.",
 ["histories", "inputs"], "all derivation trees over all builder calls of the four kinds, interleaved with renderings and with changes of the caller's own slices and maps",
 "Sharing of memory shows only for particular histories: a list long enough to have spare capacity, two derivations from the same base, a rendering in between.",
 ["builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go", "stmt/set.go", "stmt/where.go"],
 [("value receivers", "builder/*.go"), ("copies of lists and maps before they are changed", "builder/*.go, stmt/set.go Clone")],
 "stateful generation of derivation histories against replay of each path from scratch",
 state=[("query", "the statement a builder holds by value, with slices and a map inside", "builder/*.go")])
prop("C12", "Rendering is pure and safe to do concurrently",
 "Rendering a builder in any form, any number of times, in any order and from any number of goroutines at once, always gives the same text and arguments and changes nothing, whether or not renderings of it or of others failed before. Goroutines may derive further builders from a shared one and render them at the same time without a data race and without affecting each other.",
 ["schedules", "histories", "inputs"], "all interleavings of renderings and derivations on builders shared by several goroutines",
 "The tests are sequential and render each builder once.",
 ["builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go", "stmt/set.go", "types/context.go"],
 [("a fresh context for each rendering", "builder/*.go Query, NamedQuery, String"), ("no writes while rendering", "stmt/*.go Write")],
 "random concurrent programs under the Go race detector, compared with the sequential result")
prop("C13", "SET pairs: the last write wins, in a fixed order",
 "The pairs of an INSERT, an UPDATE or a conflict update, given by any mixture of pairs and maps over any number of calls, assign each column exactly once, its value being the last one given for it. Columns are ordered by the bytes of their names, and the same calls always give the same text.",
 ["histories", "inputs"], "all sequences of pairs and maps with repeated columns, whatever the map iteration order",
 "The tests use at most three distinct columns and no repetition.",
 ["stmt/set.go", "builder/builder.go", "builder/update.go", "builder/insert.go", "stmt/conflict.go"],
 [("pairs keyed by column", "stmt/set.go PairContainer.Add"), ("sorted output", "stmt/set.go Values")],
 "model-based over random sequences of pairs and maps, repeated renderings and rebuilds",
 state=[("pairs", "column to value map and column list", "stmt/set.go PairContainer")])
prop("C14", "Join strings are understood in full or rejected",
 "A join string of the form [[INNER|LEFT|RIGHT] JOIN] table ON conditions, or a condition string of the form [[INNER|LEFT|RIGHT] JOIN] [ON] conditions for a table given apart (conditions being column = column, combined by AND and OR, in any case and spacing, the conditions as a whole optionally in one pair of parentheses, the string optionally ended by one semicolon) gives exactly that join, AND and OR combining from the left. Every other string is rejected as an invalid join by an error or panic that is no crash; no part of a string is ever dropped or misread.",
 ["inputs"], "all strings, given to the parser and to the join calls of the builder",
 "The tests parse a dozen well-formed strings; dropped trailing text, missing operands and stray tokens are not among them.",
 ["parser/join.go", "lexer/lexer.go", "token/token.go", "builder/select.go"],
 [("join grammar", "parser/join.go"), ("tokens", "lexer/lexer.go")],
 "grammar-based generation and mutation of join strings against an independent reference reader", observe="the parsed join, the error, and the rendered JOIN clause")
prop("C15", "The lexer loses nothing and always ends",
 "For every input the token stream, concatenated with the whitespace between the tokens (space, tab, line feed, carriage return), is the input: words are the longest runs of ASCII letters, digits, underscore and dot, words that spell an SQL keyword of the dialect in any case are that keyword, the symbols * = ; , : ( ) are themselves, and any other character is one illegal token of its own. Then the stream ends, and stays ended, whatever the reader returns at a time; a failing reader is reported and never taken for the end of the input.",
 ["inputs", "fault_sequences"], "all byte strings, all ways a reader may portion them, and read failures at every position",
 "The tests lex a few well-formed fragments from a string reader.",
 ["lexer/lexer.go", "lexer/iteratee.go", "token/token.go"],
 [("token scanner", "lexer/lexer.go Next"), ("keyword table", "token/token.go Lookup")],
 "differential against a reference lexer over generated texts, portioned and failing readers", observe="the tokens of the lexer and its iterator")
prop("C16", "The order of clause calls does not matter",
 "Calling the clauses of a builder in another order, while keeping the order of the calls to one and the same clause (where, and, or are one clause, as are the assignments of an UPDATE with their values), gives the same text and the same arguments in all renderings.",
 ["histories", "programs"], "all interleavings of clause calls on all four kinds of builder",
 "The tests call the clauses in one customary order.",
 ["builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go"],
 [("independent clause fields", "builder/*.go"), ("guards on their own clause", "builder/*.go")],
 "metamorphic relation: random permutations of the clause calls")
prop("C17", "Literals of the inlined rendering denote their values",
 "In the inlined rendering each value is a literal that denotes it: numbers and booleans exactly (floats the same float, non-finite ones as quoted 'NaN', 'Infinity' and '-Infinity'), strings (valid UTF-8 without NUL) as one quoted string with backslash escapes that decodes to the value, bytes as a decode of their hexadecimal form, times (years 1 to 9999) as a quoted UTC timestamp with offset to the microsecond, nil and nil pointers as NULL, and database valuers as the literal of the value they return; a valuer that fails is rejected by a panic. The inlined rendering as a whole is the statement with these literals in place of its values.",
 ["inputs", "programs"], "all values of those kinds, alone and in every position of all statements",
 "The tests format a few values.",
 ["format/format.go", "types/context.go"],
 [("formatting by type", "format/format.go Value"), ("string escapes", "format/format.go String")],
 "round trip: literals are decoded by an independent lexer and compared with the values", observe="the formatting functions and String")
prop("C18", "LIMIT and OFFSET are exact or rejected",
 "A limit (positive) or an offset (not negative) of any Go integer type, as a decimal string or as the library's own limit or offset object, is rendered as exactly that number. Every other value (zero or negative limits, negative offsets, numbers beyond 64-bit signed range, strings that are not an integer, floats, other types) is rejected by a panic; an offset of zero is the same as none.",
 ["inputs"], "all integers of all Go integer types, all strings, all other types",
 "The tests use a few small numbers of some types.",
 ["builder/builder.go", "stmt/limit.go", "stmt/offset.go", "builder/select.go"],
 [("conversion", "builder/builder.go ToInt64, ToLimit, ToOffset"), ("rendering", "stmt/limit.go, stmt/offset.go")],
 "boundary-biased generation against exact arithmetic")
prop("C19", "Equivalent ways of giving an argument are equivalent",
 "The documented ways of giving the same thing produce the same statement: names as strings or as column and table objects (blanks around a column name in an assignment, or in a list given as strings, do not count), column lists as one comma-separated string, several arguments or a slice, lists and rows of values as arguments or as slices, pairs or maps, join as one string, as table and condition string, as objects, nested queries as builders or statements, conditions combined by methods or functions. They give the same text and the same arguments in all renderings.",
 ["inputs", "programs"], "all statements, with each argument's form chosen independently",
 "The tests try some forms for some clauses, one at a time.",
 ["builder/builder.go", "builder/select.go", "builder/insert.go", "loukoum.go", "stmt/expression.go", "parser/join.go"],
 [("argument conversion", "builder/builder.go To*"), ("list conversion", "stmt/expression.go toArray, toArrayList")],
 "metamorphic relation: the same statement with independently chosen argument forms")
prop("C20", "A subquery is embedded as it stands",
 "A SELECT used inside another statement (IN list, EXISTS, comparison operand, BETWEEN bound, function or list element, SET value, VALUES element, column-list assignment, with-query, select list) appears there with exactly the text it has alone, apart from placeholder numbers and its comment, which is dropped; where it is an operand it is enclosed in parentheses. Its arguments are numbered in their place between those before and after it, at any nesting depth, and the inner builder is unaffected.",
 ["inputs", "programs"], "all SELECTs in all embedding positions, nested to any depth, several per statement",
 "The tests embed a few fixed subqueries, mostly without values around them.",
 ["stmt/expression.go", "stmt/in.go", "stmt/subquery.go", "stmt/with.go", "stmt/select.go", "stmt/infix.go", "stmt/set.go"],
 [("statement encoders", "stmt/expression.go NewExpression"), ("wrapping", "stmt/expression.go Wrapper")],
 "metamorphic: the inner text is located, shifted by the arguments before it and compared with the inner rendering")
prop("C21", "Misuse is rejected, never rendered",
 "Building or rendering panics with a message (not a Go runtime error) when: a table, column (in a join condition too), order, with-query, prefix or suffix is empty or its argument has an unsupported type; DISTINCT ON, GROUP BY, FROM, JOIN, VALUES, column-list value or conflict arguments are missing, wrong in number or order, or hold an empty row, list or update; DISTINCT ON, FROM, GROUP BY, HAVING, LIMIT, a non-zero OFFSET, prefix, suffix, INSERT table, columns, values and conflict clause, DELETE table and USING, or RETURNING is defined a second time; INSERT pairs are mixed with columns or values, or UPDATE pairs with a column list; an UPDATE has no value; a condition is joined by AND or OR to a WHERE that has none. No such program ever yields a statement, wherever in the sequence of calls the misuse is.",
 ["inputs", "programs"], "all builder methods, all unsupported argument types, all positions of the misuse in otherwise legitimate programs",
 "The tests try about twenty fixed misuses.",
 ["builder/builder.go", "builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go", "stmt/set.go", "stmt/expression.go"],
 [("guards in builder calls", "builder/*.go"), ("guards when writing", "stmt/*.go Write")],
 "negative testing: one generated misuse injected into random legitimate programs, differential against the program without it", observe="the panic, or its absence")
prop("C22", "Builder predicates tell the kinds apart",
 "Each of the four type predicates is true for exactly the builders of its kind, given as values or as pointers, in whatever state of construction, and false for those of the other kinds, for other implementations of the interface and for nil. Asking changes nothing.",
 ["inputs", "programs"], "all builders of the four kinds, by value and by pointer, foreign implementations, nil",
 "The tests ask about one pointer of each kind.",
 ["builder/builder.go"], [("type switches", "builder/builder.go Is*Builder")],
 "generated builders, pointers and foreign implementations against the known kind", observe="the four predicates")
prop("C23", "Comments, prefixes and suffixes stay in their place",
 "A comment of any text appears on one line at the very end of the statement, line breaks in it being replaced by spaces, so that no text in it can be executed; it changes neither the rest of the text nor the arguments, an empty comment is none, of several comments given the last one counts, and a comment of a nested statement does not appear. A prefix and a suffix appear verbatim and separated by space, the prefix first and the suffix after everything but the comment, and change nothing else.",
 ["inputs", "programs"], "all texts of comments, prefixes and suffixes on all statements",
 "The tests use one-word comments and customary prefixes and suffixes.",
 ["stmt/comment.go", "stmt/prefix.go", "stmt/suffix.go", "stmt/select.go", "stmt/insert.go", "stmt/update.go", "stmt/delete.go"],
 [("single line comment", "stmt/comment.go Write"), ("position", "stmt/*.go Write")],
 "metamorphic: the statement with and without them, over adversarial texts")
prop("C24", "Go values become the documented arguments or are rejected",
 "Wherever a value is accepted (comparisons, lists, ranges, pairs, maps, rows, conflict updates, column-list values), a string, boolean, number, byte slice, time, int64 or string slice, pgx flat array or range, string-keyed map of strings or of anything, and any database valuer is passed on unchanged, a time pointer as the time, and a type with its own conversion to int64, bool, time or string as the result of that conversion, a valuer taking precedence over these and the string conversion coming last (a slice given alone as a list is that list); nil and a nil time pointer are NULL. A value of any other type is rejected by a panic.",
 ["inputs", "programs"], "all supported kinds of values and a broad set of unsupported ones, in every position of values",
 "The tests try a few types in one or two positions.",
 ["stmt/expression.go", "stmt/encoder.go", "builder/builder.go", "stmt/set.go"],
 [("conversion by type", "stmt/expression.go NewExpression"), ("list conversion", "stmt/expression.go toArray, NewArrayListExpression")],
 "model-based: the arguments are compared with the documented conversion; unsupported kinds are injected", observe="the arguments of Query and NamedQuery, or the panic")

prop("C25", "A condition selects the rows the program means",
 "Evaluated on any rows, NULLs included, the rendered condition is true, false or unknown exactly where the condition the program built is: equality and ordering, IS NULL, IS DISTINCT FROM, LIKE and ILIKE, BETWEEN, IN, array containment and overlap, their negations, EXISTS and IN over nested queries, and their combinations, chained or nested, in SELECT, UPDATE and DELETE, in all three renderings.",
 ["inputs", "programs"], "all conditions over integer, text and array columns, and all rows",
 "The tests compare texts; an operator, operand, bound or negation that is wrong in a combination the tests do not hold shows only in the rows selected.",
 ["stmt/expression.go", "stmt/infix.go", "stmt/operator.go", "stmt/between.go", "stmt/in.go", "stmt/where.go", "stmt/having.go", "builder/select.go"],
 [("operators", "stmt/expression.go Identifier methods, stmt/operator.go"), ("combination", "stmt/infix.go, stmt/where.go")],
 "differential evaluation: the program's condition and the parsed text are evaluated on random rows in three-valued logic")
prop("C26", "A statement writes itself to any context",
 "Written to a context of the caller's own, or to one of the library's, a statement gives that context the pieces of text and the values, in order, that make its renderings: with the placeholders put where the values are bound, the text and the values are those of Query, NamedQuery and String. Several statements, and text and values of the caller's, written to one context follow each other, the numbering of the values running on. A context can be read at any time, and as often as one likes: it holds what was written to it so far, whatever is rendered elsewhere.",
 ["inputs", "programs"], "all statements of the four kinds, one or several of them, and all contexts",
 "The tests use the three entry points, each with a fresh context and one statement.",
 ["types/context.go", "stmt/stmt.go", "builder/builder.go"],
 [("contexts", "types/context.go"), ("statements write to a context", "stmt/*.go Write")],
 "differential: what recording, embedding and library contexts receive against the three renderings", observe="the calls to the context; its text and values")
prop("C27", "Parts of statements are values",
 "Columns, tables, orders, identifiers, values, function calls, aggregates, conditions, join conditions, joins, where and having clauses, queries and with-queries can be used any number of times, in the same statement or others, and have others derived from them (alias, ONLY, DISTINCT, direction, comparisons, AND, OR): each always reads like one made from scratch.",
 ["inputs", "programs", "histories"], "all programs making parts from parts, with any sharing",
 "The tests use each part once, in one place.",
 ["stmt/column.go", "stmt/table.go", "stmt/expression.go", "stmt/infix.go", "stmt/on.go", "stmt/where.go", "stmt/having.go", "stmt/aggregate.go", "stmt/with.go"],
 [("methods return copies", "stmt/*.go As, Only, Distinct, And, Or")],
 "stateful: programs of part-making steps with sharing, each part compared with one made from scratch", observe="the text and values written by each part and by statements made of them")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=[x for x in p["files"] if os.path.exists(os.path.join("/repo", x))], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            missing = [x for x in p["files"] if not os.path.exists(os.path.join("/repo", x))]
            if missing:
                print(p["id"], "no such file:", missing)
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a), ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
            technique="property-based testing: " + p["note"], level="exploration",
            level_note="generated-input search; counts, classes and samples are in the evidence file; nothing is claimed beyond the cases explored"))
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[]), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

main()
