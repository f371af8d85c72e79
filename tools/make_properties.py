"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe,
        "hook_needed": hook,
    }
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": a,
        }
    )


LEX = "sqlvalidator/grammar/lexer.py"
SQL = "sqlvalidator/grammar/sql.py"
TOK = "sqlvalidator/grammar/tokeniser.py"
FMT = "sqlvalidator/sql_formatter.py"
VAL = "sqlvalidator/sql_validator.py"
FH = "sqlvalidator/file_handler.py"
MAIN = "sqlvalidator/main.py"

prop(
    "C01",
    "Formatting keeps every token of the query, or refuses",
    "The text returned for a query has exactly the tokens of the query in the same order: nothing is lost, duplicated, "
    "reordered, split or merged, the only licensed differences being white space, the case of keywords, type names and function "
    "names, and dropped trailing commas. A query of the supported SELECT dialect is always formatted; any other text is "
    "either formatted under the same guarantee or refused with a parsing error.",
    ["inputs"],
    "for all texts: all statements the dialect's grammar derives, and all other token sequences",
    "The 349 tests compare some 200 hand-picked queries with their expected text; the grammar has unboundedly many "
    "combinations of clauses, nested expressions and set operators, and most losses need a particular pair of constructs.",
    [LEX, SQL, TOK, FMT],
    [("statement parser", LEX), ("node printers", SQL), ("comparison of tokens before and after", FMT)],
    ["sqlvalidator.format_sql", "parse(...).format()", "--format"],
)
prop(
    "C02",
    "Formatting is idempotent",
    "Formatting text that the formatter produced returns the same text, and never refuses it.",
    ["inputs"],
    "for all texts that are formatted at all",
    "Tests check a second formatting for no query except incidentally; instability needs constructs whose printed form is "
    "parsed differently (line breaks at the width limit, nested parentheses, quoting).",
    [LEX, SQL, TOK, FMT],
    [("printer and parser agree on every printed form", SQL)],
    ["sqlvalidator.format_sql", "--format twice, then --check-format"],
)
prop(
    "C03",
    "Input layout and keyword case do not influence any result",
    "Two texts of the same query that differ only in white space between tokens (spaces, tabs, line breaks of any kind, "
    "none where SQL needs none) and in the case of keywords and function names give the same formatted text, the same verdict and the same errors.",
    ["inputs"],
    "for all statements and all their layouts and keyword cases",
    "Tests write each query in one layout; the number of layouts is exponential in the number of tokens and a defect "
    "shows at one gap or one keyword only.",
    [TOK, LEX, SQL],
    [("splitting into tokens", TOK), ("case-insensitive comparison of keywords", LEX)],
    ["sqlvalidator.format_sql", "parse(...).is_valid()"],
)
prop(
    "C04",
    "Quoted text, names and numbers come out exactly as written",
    "Whatever stands between quotes (string literals and quoted names, with escapes, doubled quotes, newlines, keywords, "
    "brackets or comment markers inside), every name, whatever keyword it contains as a part, and every number keeps "
    "exactly its spelling in the formatted query, and is never interpreted as SQL.",
    ["inputs"],
    "for all literal contents, quote styles, names and number spellings at every position of a statement",
    "Tests use a few dozen plain literals; what breaks is a particular character pair at a particular position.",
    [TOK, LEX, SQL],
    [("quote tracking", TOK), ("string parser", LEX), ("literal printers", SQL)],
    ["sqlvalidator.format_sql"],
)
prop(
    "C05",
    "Every supported query has the one canonical layout",
    "The formatted text follows the house style without exception: keywords and function names in upper case, each "
    "clause on its own line, several items of a clause one per line indented by one space more than their clause, subqueries indented one "
    "level per nesting, conditions and argument lists broken exactly when they do not fit in 88 characters or contain a line break, no trailing commas or white space.",
    ["inputs"],
    "for all statements the dialect's grammar derives",
    "Tests pin the layout of some 200 statements; combinations (a construct in another clause, nested twice, one character "
    "around the line limit) are unbounded.",
    [SQL],
    [("node printers", SQL), ("line length limit", SQL)],
    ["sqlvalidator.format_sql", "--format"],
)
prop(
    "C06",
    "Formatting does not change what validation says",
    "For every query that can be formatted, the verdict and the list of errors of the formatted text are those of the original text.",
    ["inputs"],
    "for all texts that are formatted",
    "No test validates formatted text; a disagreement needs a construct whose printed form is read differently by the validator.",
    [SQL, LEX, VAL, FMT],
    [("one parser for formatting and validation", LEX)],
    ["sqlvalidator.format_sql", "parse(...).is_valid()", "parse(...).errors"],
)
prop(
    "C07",
    "Results depend on the text alone, not on what was done before",
    "Formatting and validating the same text gives the same result whatever operations ran before in the process, in "
    "whatever order and how often the operations of one query object are called, and in every process regardless of hash randomisation.",
    ["histories", "configurations"],
    "for all sequences of format / parse / validate / inspect operations on shared or separate queries, and all hash seeds",
    "Each test runs one operation on a fresh object; state shared between operations (caches, mutable defaults, printers "
    "that modify the parsed query, iteration over sets) shows only in sequences or in other processes.",
    [VAL, FMT, SQL, LEX],
    [("lazy parsing and validation of a query object", VAL), ("printing does not modify the parsed query", SQL)],
    ["SQLQuery.format", "SQLQuery.is_valid", "SQLQuery.errors", "sqlvalidator.format_sql"],
    [("parsed query", "kept by the query object and reused by its operations", VAL)],
)
prop(
    "C08",
    "Concurrent use of the library gives the sequential results",
    "When threads of one process format and validate queries at the same time, every operation returns what it returns alone, "
    "whatever the interleaving.",
    ["schedules"],
    "for all interleavings of two threads with a bounded number of preemptions",
    "No test uses threads; a race on state at module or class level needs a switch inside a window of a few bytecodes.",
    [TOK, LEX, SQL, FMT, VAL],
    [("no mutable state outside the call", SQL)],
    ["sqlvalidator.format_sql", "parse(...).is_valid()"],
)
prop(
    "C09",
    "Columns are resolved by SQL's scope rules",
    "When a query selects from subqueries whose columns are all known, a column that none of them provides, wherever it is referred to "
    "(select list, WHERE, GROUP BY, HAVING, ORDER BY, join conditions; plain, as operand or argument), is reported as missing, by name, and a column that one of them "
    "provides (by its name or alias, plain or qualified by the subquery's alias) is never reported. Plain tables and WITH names are taken to have every column. "
    "Joins, stars with EXCEPT and REPLACE, set operators (columns of the first query), the names of the result in ORDER BY and "
    "outer queries of subqueries in expressions count as SQL defines; aliases stand for the rows of their subqueries, also of those whose columns have no names; subqueries in FROM do not see outer queries. Ambiguous columns are the matter of C24.",
    ["programs", "inputs"],
    "for all nestings of FROM items, joins, aliases, select lists and references in every clause",
    "Tests check some 60 queries; the scope rules are a function of the nesting of subqueries, aliases, stars and joins, "
    "whose combinations are unbounded.",
    [SQL, VAL],
    [("known fields of each FROM item", SQL), ("column lookup", SQL)],
    ["parse(...).is_valid()", "parse(...).errors", "--verbose-validate"],
    [("known fields", "columns that the FROM items of a query provide", SQL)],
)
prop(
    "C10",
    "Positions, LIMIT and OFFSET are checked exactly",
    "A position in GROUP BY or ORDER BY is reported exactly when it does not denote one of the selected expressions (all "
    "positive positions are possible with a star); integers elsewhere (window, arguments, operands) are no positions. LIMIT and OFFSET accept non-negative integers and "
    "placeholders (LIMIT also ALL), with or without parentheses, and columns, negative numbers and other literals are reported.",
    ["inputs", "programs"],
    "for all numbers of selected expressions, positions and clause values, in every nested query",
    "Tests check a few positions and values; boundaries multiply with the shape of the select list, the clause and the nesting.",
    [SQL],
    [("position check", SQL), ("LIMIT and OFFSET checks", SQL)],
    ["parse(...).is_valid()", "parse(...).errors"],
)
prop(
    "C11",
    "Boolean contexts reject exactly what is known not to be boolean",
    "In WHERE, HAVING and as an operand of AND and OR, an expression whose type is known (literals, arithmetic, boolean operators and "
    "comparisons, and columns of subqueries that select such expressions, through aliases, parentheses, stars and further subqueries) is reported "
    "exactly when that type is not boolean; expressions of unknown type (other columns, calls, casts, NULL, placeholders, CASE) are never reported, nor are the bounds of BETWEEN.",
    ["inputs", "programs"],
    "for all expressions up to a nesting bound in all boolean contexts",
    "Tests check single literals; type resolution goes through parentheses, aliases, subqueries and nested operators.",
    [SQL],
    [("return types", SQL), ("clause type checks", SQL)],
    ["parse(...).is_valid()", "parse(...).errors"],
)
prop(
    "C12",
    "An error in any part of a query is reported wherever the part stands",
    "A query that is wrong on its own is also reported as wrong when it stands inside a larger query - as subquery "
    "in FROM, on either side of a join or set operator, in WITH, in a condition or any other expression - at any depth, with all its messages, and a larger query "
    "built only of correct parts is reported as valid. A join without its ON or USING is such an error; a CROSS or NATURAL join or a comma needs none.",
    ["programs"],
    "for all wrong and correct inner queries in all positions up to a nesting depth, with every combination of correct and wrong siblings",
    "Tests place an error in one or two positions; whether the error survives depends on the path of constructs around it.",
    [SQL, VAL],
    [("errors of the parts are collected", SQL)],
    ["parse(...).is_valid()", "parse(...).errors"],
)
prop(
    "C13",
    "Validation always delivers a verdict",
    "For any text whatsoever (not nested beyond the interpreter's recursion limit), validation ends with a boolean verdict and a matching list of messages (empty exactly when "
    "valid), never with an exception; formatting ends with a text or a parsing error. A statement of the supported dialect is never reported as unparsable.",
    ["inputs"],
    "for all texts: all token sequences, truncations and mutations of statements",
    "Tests feed mostly well-formed statements; the failing texts are truncated or slightly wrong in one of countless ways.",
    [LEX, TOK, VAL, FMT],
    [("parsing errors", LEX), ("conversion of unexpected ends", LEX)],
    ["parse(...).is_valid()", "parse(...).errors", "sqlvalidator.format_sql"],
)
prop(
    "C14",
    "--check-format predicts --format and never writes",
    "On the same files, checking reports exactly the files and numbers of queries that formatting then rewrites, exits with 1 exactly when there is "
    "something to rewrite and with 0 otherwise, and changes no file, time stamp or directory entry; validation alone changes nothing either.",
    ["histories", "inputs"],
    "for all Python sources assembled from marked and unmarked strings, and all file sets",
    "Tests compare the content computed for one file in memory; agreement between the two modes, exit status and absence of writes is "
    "a relation between runs over all files.",
    [FH, MAIN],
    [("one analysis for both modes", FH), ("exit status", FH)],
    ["sqlvalidator --check-format", "sqlvalidator --format", "the file system"],
)
prop(
    "C15",
    "Formatting a file changes nothing but its SELECT strings",
    "After formatting, the file is the same Python program except for the rewritten literals: every byte outside them is unchanged (line "
    "endings, encoding, file mode, owner and symbolic links included), every literal keeps its prefix and still denotes the same SQL "
    "in canonical layout, and a literal whose query is already formatted or cannot be formatted is untouched.",
    ["inputs"],
    "for all sources assembled from string forms (quotes, prefixes, escapes, f-strings, concatenations, bytes), contexts, line endings and encodings",
    "Tests rewrite about ten small sources; what breaks is a particular combination of quoting, escaping, position and "
    "neighbouring text.",
    [FH],
    [("replacement by position", FH), ("comparison of the literal's value", FH), ("atomic rewrite", FH)],
    ["sqlvalidator --format", "file contents and modes"],
)
prop(
    "C16",
    "After --format nothing is left to format",
    "Once a set of files has been formatted, formatting again changes nothing and checking exits with 0.",
    ["histories"],
    "for all file sets assembled from string forms and contexts",
    "Tests run one pass; convergence is a property of the composition of passes for each quoting, indentation and width.",
    [FH, FMT],
    [("formatted literals are recognised as formatted", FH)],
    ["sqlvalidator --format", "sqlvalidator --check-format"],
)
prop(
    "C17",
    "Opt-out comments silence exactly the string they follow",
    "A string followed (before any other string) by a comment containing nosqlformat is never rewritten and not counted as "
    "to be reformatted, and one followed by a comment containing nosqlvalidation is never reported as invalid; each comment "
    "affects neither the other kind of processing nor any other string.",
    ["inputs"],
    "for all arrangements of strings, other tokens and comments up to a bound",
    "Tests check one string with one comment; which string a comment belongs to depends on the tokens and line breaks between them.",
    [FH],
    [("search for the following comment", FH)],
    ["sqlvalidator --format", "sqlvalidator --validate"],
)
prop(
    "C18",
    "Each Python file is processed exactly once and counted exactly",
    "Every file named on the command line and every file ending in .py below a named directory is processed exactly once however often "
    "and by whatever path (relative, absolute, link) it is named, no other file is touched, and the summary lines and counts equal what was changed or found invalid.",
    ["inputs", "histories"],
    "for all directory trees and argument lists up to a bound",
    "Tests never run on a directory or on several arguments; double processing and wrong totals need overlapping arguments.",
    [FH],
    [("set of files already seen", FH), ("accumulated counts", FH)],
    ["sqlvalidator --format DIR FILE ...", "summary lines"],
    [("seen files", "files already processed in this run", FH)],
)
prop(
    "C19",
    "A failure or crash never damages a file nor stops the other files",
    "Whatever system call fails or at whatever point the process is killed while formatting, every source file holds either its "
    "old or its complete new content, and after a failed call (not a kill) all other files are still processed and no temporary file is left; a file that cannot be "
    "decoded, tokenised, read or written is reported and left as it is.",
    ["crash_points", "fault_sequences"],
    "for all points at which a system call on the files fails or is the last one executed, including partial writes",
    "Tests inject no faults and never kill a run.",
    [FH],
    [("replacement of the file in one step", FH), ("errors are caught per file", FH)],
    ["file contents after the crash", "messages"],
)
prop(
    "C20",
    "File validation reports exactly the invalid queries, with their lines",
    "Validating files counts exactly the marked strings whose SQL the library reports as invalid, names exactly the files that contain one, "
    "prints for each its first line and the library's errors in verbose mode, and in plain mode exits with 1 exactly when there is one.",
    ["inputs"],
    "for all sources assembled from valid, invalid and unparsable queries in all string forms and positions",
    "Tests check counts for a few sources; string forms, positions and combinations with formatting are not covered.",
    [FH, VAL],
    [("SQL denoted by a literal", FH), ("error locations", FH)],
    ["sqlvalidator --validate", "sqlvalidator --verbose-validate"],
)
prop(
    "C21",
    "Work grows polynomially with the query",
    "The work for formatting or validating a query grows at most polynomially (at most about cubically) with its nesting depth and length, for every way of nesting or chaining constructs.",
    ["inputs"],
    "for all constructs nested or chained in themselves and in each other",
    "Tests use shallow queries; exponential behaviour appears only with depth and only for particular nestings.",
    [LEX, SQL, TOK],
    [("each part is parsed and printed a bounded number of times", LEX)],
    ["time of sqlvalidator.format_sql", "time of parse(...).is_valid()"],
)
prop(
    "C22",
    "Command-line options combine as documented",
    "Formatting options exclude each other and so do the validation options, at least one option and one input are required (usage error 2 otherwise); with one of each kind a run "
    "formats or checks and validates the original text, printing both reports, and the exit status is 1 exactly when checking found something to reformat or plain "
    "validation something invalid.",
    ["configurations"],
    "for all option subsets and orders and all file states",
    "Tests never run the command line with options.",
    [MAIN, FH],
    [("argument parser", MAIN), ("exit status", FH)],
    ["sqlvalidator command line"],
)
prop(
    "C23",
    "Exactly the string literals that hold a SELECT are treated as SQL",
    "A complete string literal (any quoting or prefix, f-strings kept apart) whose text begins, after white space and in any case, with the word SELECT set off by white space is analysed; no other text is "
    "touched or reported: words that merely begin with it, comments, names, and pieces of strings that are concatenated, side by side or by +, also in parentheses.",
    ["inputs"],
    "for all string literals up to a bound on prefix, quote, leading text and following text, in all contexts",
    "Tests mark a handful of plain strings.",
    [FH],
    [("recognition of marked strings", FH)],
    ["sqlvalidator --format", "sqlvalidator --validate"],
)

prop(
    "C24",
    "Ambiguous columns are reported exactly",
    "In a query over several subqueries that have aliases and known columns, an unqualified column that two or more of the subqueries in scope provide, and that no USING or NATURAL join "
    "merges into one, is reported as ambiguous, by name, in the select list, WHERE, GROUP BY, HAVING and ORDER BY, also from a subquery in an expression that does not "
    "provide the column itself. A column that is qualified, provided once, merged, or provided by the query's own sources while an outer query has others is never reported as ambiguous.",
    ["programs", "inputs"],
    "for all trees of joins over aliased subqueries and all references in every clause",
    "Tests check one ambiguous column in a select list; which columns are ambiguous is a function of the whole tree of joins "
    "(each USING merges, each later join may make ambiguous again) and of what outer queries provide.",
    [SQL],
    [("lookup of unqualified columns", SQL), ("columns of joins", SQL)],
    ["validation", "parse(sql).errors", "sqlvalidator --validate"],
)

prop(
    "C25",
    "Names, and words of one kind, are treated alike",
    "Exchanging a name (of a column, table, alias, field, function or WITH query; also one that begins with, ends with or contains a keyword) throughout a query for another name, or an operator, "
    "join kind, set operator, direction, frame unit, date part, type, function name, literal or function without parentheses for another of its kind, changes the formatted "
    "text, the verdict and the errors in nothing but that name or word (and in line breaks that depend on its length).",
    ["programs", "inputs"],
    "for all names and all words of each kind, at all their places",
    "Tests use one or two words of each kind and names without keywords in them.",
    [LEX, SQL, TOK],
    [("words that are told apart by the tokeniser", TOK), ("vocabularies of the grammar", SQL)],
    ["formatting", "validation"],
)

prop(
    "C26",
    "A query is laid out the same wherever it stands",
    "A query that stands inside another (in FROM, on either side of a join, in WITH, in a set operation, in a condition, as an argument, in CASE or the select list, several levels deep) "
    "is formatted in exactly the lines it is formatted in alone, each indented by the same amount, and the lines around it do not depend on the query.",
    ["programs", "inputs"],
    "for all queries and all places in which a query can stand",
    "Tests fix the layout of a few nested queries; that the layout of the inner query is independent of the outer one is a statement about the product of both.",
    [SQL, FMT],
    [("indentation of nested queries", SQL)],
    ["formatting"],
)

prop(
    "C27",
    "Equivalent ways of writing a query get the same verdict",
    "Ways of writing a query that mean the same to SQL (AS or not, parentheses, quoted or qualified names, words for the same join or comparison, defaults written out, BETWEEN and IN written as comparisons, "
    "a comma or CROSS JOIN, a derived table with or without WITH, a semicolon) get the same verdict; the messages about the parts of a list (select items, FROM items, WITH queries, conditions, "
    "arguments, set operands) do not depend on the order of the parts, nor do those about a query on the place where it stands alone among others.",
    ["programs", "inputs"],
    "for all queries and all combinations of equivalent spellings, orders and places",
    "Relates the verdicts of many texts; tests look at one spelling of each query.",
    [SQL, LEX, VAL],
    [("validation of each expression", SQL), ("recognition of each spelling", LEX)],
    ["validation", "parse(sql).errors"],
)

prop(
    "C28",
    "Comments do not influence validation, and formatting never loses one",
    "A comment, whatever it contains (quotes, brackets, keywords, comment markers, semicolons, line breaks), counts as white space for validation: with comments between any tokens, "
    "the verdict and the messages are those of the text without them. Formatting such a text either refuses it or keeps every comment where it stood.",
    ["inputs"],
    "for all texts, all comments and all places in which comments can stand",
    "Tests put a few comments in a few places; that a comment changes nothing is a statement about all pairs of a comment and a place.",
    [TOK, LEX, VAL, FMT],
    [("removal of comments", TOK), ("comparison of tokens before and after", FMT)],
    ["validation", "parse(sql).errors", "formatting"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
