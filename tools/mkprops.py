"""Writes /verif/properties.jsonl (kept as Python for readability)."""
import json, os
OUT = []


def p(id, title, statement, text, why, files, mech, over=('inputs',)):
    for f in files + [w for _, w in mech]:
        assert os.path.exists('/repo/' + f), f
    assert len(title) <= 80, title
    OUT.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                    quantifier=dict(over=list(over), text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


SEARCH = 'src/commands/cmd_search/pyspark.rs'
EXPR = 'src/pyspark/transpiler/expr.rs'
TREE = 'syntax trees of any size and shape (every operator, constant kind and nesting)'

p('C01', 'A search keeps exactly the events its condition describes',
  '''For every search condition, the generated query without the runtime library reads the union of the tables named by the `index=x` comparisons that
  every event must satisfy (the default table if there are none) and filters it by all the rest of the condition, losing no other term; an `index` comparison
  elsewhere (under OR or another operator) is an error.  A bare word or literal matches the raw event case-insensitively, AND, OR and NOT distribute over such
  terms, and comparisons stay as they are.  With the runtime library every conjunct becomes one argument of the runtime search, in order.''',
  'every search condition: ' + TREE, '''The tests translate a few dozen fixed searches; a term dropped under one particular nesting or operator of
  the condition is not among them, and the tree is unbounded.''',
  [SEARCH, EXPR], [('index terms are split from the condition', SEARCH), ('bare terms become raw-event matches', EXPR)])

p('C02', 'Expressions translate to the column expression with the same meaning',
  '''For every SPL expression tree, the translated column expression applies the corresponding operator to the translations of the same operands in the same order
  (equality, logical and other comparison operators, wildcard equality and inequality as pattern matches, NOT, (in)equality of a field and an address range as (negated) membership in the range, membership in a list as a
  disjunction of one test per value), and every constant keeps its kind and value.  An expression kind or constant that has no column form is an error.''',
  'every expression tree: ' + TREE, '''Tests sample single operators on short expressions; swapped operands, a dropped alternative of a list, or one operator mistranslated under one
  kind of operand is a property of all trees.''',
  [EXPR, 'src/pyspark/ast.rs'], [('recursive translation', EXPR), ('smart constructors', 'src/pyspark/ast.rs')])

p('C03', 'Rendered code denotes the translated query, all of it and in order',
  '''For every translated query, the rendered program text contains each column, argument, method call and data frame exactly once where the query has it, in the
  query's order, with binary operations parenthesised wherever they are operands or receivers and a negation parenthesised when it is a receiver; every statement that a
  data frame depends on comes before its use. Asked to format, the module returns what the formatter (black, in its default mode) makes of the whole text, and the text
  itself when the formatter is missing or fails.''',
  'every PySpark query: any nesting of columns, any number of arguments and of data frames', '''Rendering is a recursion over an unbounded tree; the tests compare a few rendered strings,
  and none nests every construct in every other.''',
  ['src/pyspark/ast.rs', 'src/pyspark/base.rs', 'src/format_python.rs'], [('rendering by structural recursion', 'src/pyspark/ast.rs'), ('formatting', 'src/format_python.rs')], over=('programs',))

p('C04', 'Names given with `as` survive translation, everywhere and once',
  '''Naming a column and translating it gives one result column of the outermost name given, and never an alias nested inside an operand, an argument or another
  alias; a statistical function that is not renamed is called after the function, and renaming does not change which function is applied to what.''',
  'every aliased expression, however deeply aliases are nested', '''Aliases nest without bound and cross every translation function; the tests rename one level only.''',
  ['src/pyspark/alias.rs', EXPR, 'src/functions/stat_fns.rs'], [('alias stripping and re-applying', 'src/pyspark/alias.rs')])

p('C05', 'Ordering and row limits follow the query',
  '''`sort` orders by exactly the listed fields in the listed order, each descending exactly when its sign and the command-wide direction say so, then keeps the requested number of rows
  (all for 0); `head` and `tail` keep exactly the requested number of rows, for `head` also when it is given as a bound on the row count.  `top` counts per combination of the
  grouping fields and sorts by falling count, `rare` by rising count, and both keep the requested number of groups (all for 0); a number of rows that cannot be represented is an error.''',
  'every list of sort keys with signs, every limit including 0, negative and the largest integers', '''Tests use a handful of limits and one or two sort keys; boundary limits, sign and direction
  combinations and long key lists are not sampled.''',
  ['src/commands/cmd_sort/pyspark.rs', 'src/commands/cmd_head/pyspark.rs', 'src/commands/cmd_tail/pyspark.rs', 'src/commands/cmd_top/pyspark.rs', 'src/commands/cmd_rare/pyspark.rs'],
  [('limit and orderBy construction', 'src/commands/cmd_sort/pyspark.rs')])

p('C07', 'Joins, lookups and unions combine the right data on the right keys',
  '''`join` joins the data so far with the first result of the sub-search on equality of every listed field (and on the time order if asked for) with the requested join kind;
  `lookup` joins with the lookup table on every listed field under the name it has there, keeps all incoming columns and adds exactly the requested output columns under the requested names (all of
  them if none are listed); `multisearch` is the union of all sub-searches in order.  A join kind, match count or output mode that cannot be expressed is an error.''',
  'every list of join, lookup and output fields with and without aliases, every sub-search, any number of sub-searches', '''Tests join on one or two fields; lists of
  any length, alias combinations and nested sub-searches are unbounded.''',
  ['src/commands/cmd_join/pyspark.rs', 'src/commands/cmd_lookup/pyspark.rs', 'src/commands/cmd_multi_search/pyspark.rs'],
  [('join condition as conjunction of field equalities', 'src/commands/cmd_join/pyspark.rs')])

p('C08', 'Aggregations group by all keys and compute every function once',
  '''`stats` groups by exactly the listed fields in order (a field with a time span as a time window of that field and span) and computes exactly one result column per listed function, in
  order, over the data of all the commands before it; functions that depend on the order of events see them ordered by time.  With the runtime library the runtime call gets the same
  functions and the same grouping.''',
  'every list of functions and of grouping fields, of any length', '''The lists are unbounded and each function may also change the data it runs on; tests use up to three.''',
  ['src/commands/cmd_stats/pyspark.rs', 'src/commands/cmd_stats/spl.rs'], [('left fold over the functions', 'src/commands/cmd_stats/pyspark.rs')])

p('C09', 'Every eval function becomes its equivalent with the right arguments',
  '''A call of a supported eval function becomes the equivalent Spark expression of its name, with every argument translated, in the documented position, and constant arguments unchanged;
  too few or too many arguments, a non-constant where a constant is needed, and functions known not to be supported are errors.  With the runtime library a call becomes the runtime function of
  the same name on the same arguments in order.''',
  'every call: all function names, any number and kind of arguments', '''Each function has its own argument handling; the tests call each once with typical arguments.''',
  ['src/functions/eval_fns.rs'], [('argument extraction and column construction per function', 'src/functions/eval_fns.rs')])

p('C10', 'Every statistical and convert function becomes its equivalent',
  '''A call of a supported statistical function becomes the equivalent Spark aggregate of its argument (percentile functions with the percentage taken from the name), and a wrong number of
  arguments or an unsupported function is an error.  A convert function becomes its equivalent on the field it converts, with the time format of its command.''',
  'every call: all function names, any number and kind of arguments, every percentage in a name', '''One sample per function cannot settle argument handling for all calls and
  all percentile names.''',
  ['src/functions/stat_fns.rs', 'src/functions/convert_fns.rs'], [('per-function translation', 'src/functions/stat_fns.rs')])

p('C11', 'A pipeline is its commands applied in order, in the mode asked for',
  '''The translation of a pipeline applies each command, in order and once, to the result of the ones before it, and fails if any of them fails.  When the runtime library is not allowed no part of
  the result uses it; when it is allowed, a command or function uses it if it can and otherwise falls back to plain Spark; when it is required there is no fallback.''',
  'every pipeline: any number of commands of every kind, in each of the three modes', '''The number of commands is unbounded and the mode reaches every command and function; tests run short pipelines.''',
  ['src/pyspark/transpiler/mod.rs', 'src/commands/spl.rs'], [('fold over the commands', 'src/pyspark/transpiler/mod.rs')],
  over=('programs', 'configurations'))

p('C12', 'Runtime data frames are defined once, before use, under fresh names',
  '''In runtime mode every runtime command assigns a variable that no other command of the same translation assigns, from the data of the commands before it (none for the first), and passes exactly the
  options of the command.  Rendering emits the assignment before the first use, wherever in the query the variable is used.''',
  'every pipeline with any number and nesting of runtime commands', '''Needs several runtime commands, nested in joins, unions or arguments; names come from a shared counter across the
  whole translation.''',
  ['src/pyspark/utils.rs', 'src/pyspark/ast.rs', 'src/pyspark/base.rs'], [('shared counter for names', 'src/pyspark/transpiler/mod.rs'), ('preface statements', 'src/pyspark/base.rs')],
  over=('programs',))

p('C13', 'What cannot be translated is an error, never a silently wrong query',
  '''A query that uses a command, an option value, a function or an expression form that has no translation in the selected mode fails as a whole; it never yields a query in which that part is
  skipped.''',
  'every pipeline, wherever in it the unsupported part stands', '''The unsupported part may stand anywhere in an unbounded query; tests try few rejections.''',
  ['src/commands/spl.rs', 'src/pyspark/transpiler/mod.rs', 'src/commands'], [('errors are propagated by every translation function', 'src/pyspark/transpiler/mod.rs')],
  over=('programs',))

p('C14', 'Parsing, translating and rendering never panic',
  '''For every query text, parsing returns a syntax tree or an error, and for every syntax tree and every mode, translation and rendering return a result or an error: no arithmetic overflow, out-of-range index, failed unwrap or invalid slice ever aborts them.''',
  'every query text and every syntax tree, including extreme integers, empty lists, empty and non-ASCII strings', '''Panics hide at extreme integers, empty lists and odd strings, which the tests do not sample.''',
  ['src/spl', 'src/pyspark', 'src/functions', 'src/commands'], [('fallible conversions with errors', 'src/functions/shared.rs')])

p('C15', 'The same query always gives the same code',
  '''The result of a translation is a function of the syntax tree and the mode alone: no hash order, shared state of an earlier translation, clock or randomness shows in it.''',
  'every syntax tree and mode, every process (hash seed)', '''A test process sees one hash seed per set and cannot compare all seeds and histories.''',
  [SEARCH, 'src/pyspark/transpiler/mod.rs'], [('order of sets fixed before use', SEARCH)], over=('inputs', 'histories'))

p('C16', 'Time formats are converted directive by directive',
  '''A time format given to a time function or to convert keeps its plain text and has every known directive (no percent sign being escaped right before it) replaced by its Spark equivalent,
  however many it has and in whatever order; a directive known to have no equivalent makes the query an error.''',
  'every format string', '''Formats are arbitrary strings; the tests convert a few.''',
  ['src/pyspark/transpiler/utils.rs', 'src/functions/convert_fns.rs', 'src/functions/eval_fns.rs'], [('table of directives', 'src/pyspark/transpiler/utils.rs')])

p('C17', 'Regular expressions reach Spark unchanged, one column per group',
  '''`regex` keeps (or for `!=` drops) exactly the events whose named field, or raw text if none is named, matches the given expression; `rex` adds one column per capture group of the expression, in order, named after
  the group or by its number, taken from the requested field with that group's number.  The expression itself is passed on verbatim; invalid expressions, sed mode and repeated matching are errors.''',
  'every regular expression and field', '''Groups nest arbitrarily inside repetitions, alternations and classes; tests use flat ones.''',
  ['src/commands/cmd_rex/pyspark.rs', 'src/commands/cmd_regex/pyspark.rs', 'src/commands/regex_utils.rs'], [('walk over the regular expression', 'src/commands/regex_utils.rs')])

p('C18', 'Column commands change exactly the columns they name, in order',
  '''`eval`, `rename`, `fields` (listing fields to keep), `table`, `convert`, `spath`, `addtotals`, `fillnull` and `makeresults` apply their changes one after another in the order written: each names the right column, with the right source field
  and value, and no listed item is skipped, merged or repeated; an item that has no translation is an error.''',
  'every list of fields, assignments, renames and conversions, of any length, including repeated and dependent names', '''Order and completeness for lists of any length with repeated names
  is beyond sampled two-item lists.''',
  ['src/commands/cmd_eval/pyspark.rs', 'src/commands/cmd_rename/pyspark.rs', 'src/commands/cmd_fields/pyspark.rs', 'src/commands/cmd_convert/pyspark.rs'],
  [('left fold over the items', 'src/commands/cmd_eval/pyspark.rs')])

p('C20', 'Data model queries read the named data model and honour their options',
  '''`datamodel` and `tstats` read the named data model and the named dataset in it (without its root part), filter by the whole `where` condition before aggregating, and group and aggregate like `stats`;
  every option reaches the runtime call with the value given.  Options that cannot be honoured, and a data model command after other data, are errors.''',
  'every combination of options, functions, grouping fields and conditions', '''A dozen options combine with unbounded lists; the tests run a few combinations.''',
  ['src/commands/cmd_t_stats/pyspark.rs', 'src/commands/cmd_data_model/pyspark.rs'], [('translation of the options', 'src/commands/cmd_t_stats/pyspark.rs')])

p('C21', 'Macro expansion replaces every macro call and nothing else',
  '''Expanding macros replaces each macro call, in order, by the definition of the macro with its name, every parameter replaced literally by its argument (by position, or by name if all arguments are
  named), leaves the text between the calls as it is and drops trailing blanks and pipes, and expands the result again until nothing changes.  A number or names of arguments other than the macro's parameters, a
  mixture of named and positional arguments, and an unknown macro are errors.  A registry finds its own macros, and what is registered in one is seen in no other; a folder finds the definition in the one file of that name, read by the loader it was given, and fails if there is none or more than
  one; a combination takes the first of its loaders that knows the macro, then the fallback.''',
  'every query and macro table, every combination of loaders', 'Macro bodies and arguments are arbitrary strings and expand recursively; the tests expand a few.',
  ['python/spl_transpiler/macros.py'], [('recursive substitution', 'python/spl_transpiler/macros.py'), ('macro loaders', 'python/spl_transpiler/macros.py')])

RC = 'python/spl_transpiler/runtime/commands'
p('C27', 'Runtime commands do what the generated code asks of them',
  '''Executing a runtime command makes of the data frame what its arguments say: search filters by the conjunction of all expressions and field tests on the table looked up by index, source and the other
  keys (or on the data frame given), eval adds the columns in order, fill_null replaces the nulls of the named columns (all if none are named) by the value cast to the column's type, stats and tstats aggregate by
  all keys with every function under its label, tstats after filling nulls and filtering, data_model reads the named data set.  A string stands for the column of that name, a number, truth value or null for itself,
  and a time format for its Spark letters directive by directive; the default table lookup keeps every key it is given.  Converting a text is parsing and rendering it with the options given.''',
  'every data frame, any number of expressions, keys and labels, every combination of optional arguments', '''The commands take any number of arguments and many optional ones; the tests run a few
  combinations on small data frames.''',
  [RC + '/search.py', RC + '/eval.py', RC + '/fill_null.py', RC + '/stats.py', RC + '/tstats.py', RC + '/data_model.py', 'python/spl_transpiler/runtime/base.py', 'python/spl_transpiler/runtime/config.py',
   'python/spl_transpiler/runtime/functions/utils.py', 'python/spl_transpiler/utils.py'],
  [('commands', RC + '/__init__.py'), ('table lookup', 'python/spl_transpiler/runtime/config.py'), ('plain values to columns', 'python/spl_transpiler/runtime/base.py')], over=('inputs', 'programs'))

p('C28', 'Runtime functions are the Spark equivalents of their SPL names',
  '''Each eval function of the runtime library returns the Spark column expression that computes the SPL function of its name on the given arguments, every argument used in its place, and each statistics
  function stands for the Spark aggregate of its name, on the data frame ordered by time where the function depends on time; functions without an equivalent fail with NotImplementedError, impossible argument
  counts with an error.  The user defined functions test addresses against ranges, mask addresses, format and convert values as the SPL functions do, giving null or false instead of failing where SPL does.''',
  'every argument value and any number of arguments', '''There are some 150 functions with optional and repeated arguments; the tests call a fraction of them once.''',
  ['python/spl_transpiler/runtime/functions/eval.py', 'python/spl_transpiler/runtime/functions/stats.py', 'python/spl_transpiler/runtime/udfs/__init__.py', 'python/spl_transpiler/runtime/functions/utils.py'],
  [('eval functions', 'python/spl_transpiler/runtime/functions/eval.py'), ('statistics functions', 'python/spl_transpiler/runtime/functions/stats.py'), ('user defined functions', 'python/spl_transpiler/runtime/udfs/__init__.py')])

p('C29', 'The notebook magic runs the generated code and keeps its value',
  '''`%%spl` translates the cell with the options of its line (`--use-runtime`, `--format-code`, `--print-code`, `--dry-run`, `--var-name`, with their documented defaults), shows the code if it is to be
  printed, and unless it is a dry run executes exactly that code, once, with the notebook's names and, over them, commands, functions, spark and F visible in every part of it; the value of the code's last
  statement (its expression, or the target it assigns) is stored under the name asked for.  A failure while the code runs is a RuntimeError and stores nothing; code that is shown only leaves the notebook as it was.''',
  'every line of options, cell, notebook namespace and generated program', '''No test touches the magic; the programs it runs and the namespaces it runs them in are unbounded.''',
  ['python/spl_transpiler/runtime/magic.py', 'python/spl_transpiler/runtime/utils.py'],
  [('cell magic', 'python/spl_transpiler/runtime/magic.py'), ('value of the last statement', 'python/spl_transpiler/runtime/utils.py')], over=('inputs', 'programs'))

p('C19', 'Options are read as written: any order, last value wins, bad kinds rejected',
  '''For every command with options, the options may be written in any order and number before the command's other arguments; each option that is not written has its default, one
  that is written more than once has its last value, and an option whose value is not of its kind (a number, a time span, a truth value written as `true`, `t`, `false` or `f`, a word or quoted
  text) makes the command unparsable instead of being ignored.''',
  'every list of options of any length, with every key and every kind of value, for each of the commands', '''Some thirty commands have up to eleven options each; the tests set a few of them once.''',
  ['src/commands/spl.rs', 'src/commands', 'src/spl/parser.rs'], [('option tables: TryFrom<ParsedCommandOptions>', 'src/commands/spl.rs'), ('getters with defaults', 'src/commands/spl.rs')])

p('C22', 'Operators group by their documented precedence and parentheses',
  '''For every expression text, parsing yields the tree in which parentheses bind tightest, then calls, then `*` and `/`, then `+` and `-`, then concatenation, then comparisons and IN, then NOT, then AND,
  then OR (a chain of operators of one level grouping to the left for `*` and `/` and to the right otherwise), in whatever case the words are written and however blanks surround the symbols; every operand appears in the tree once and in order.  In a search
  condition OR binds loosest, then AND (written or implied by a blank), then NOT, each chain of one operator grouping to the left.''',
  'every expression and search condition: any nesting, any number of operands, any spacing and letter case', '''Operator nestings are unbounded; the tests parse some dozens of short expressions.''',
  ['src/spl/parser.rs', 'src/spl/operators.rs'], [('one parser function per level of precedence', 'src/spl/parser.rs')], over=('programs',))

p('C23', 'Literals are classified by their whole text and keep their value',
  '''For every word or quoted text standing where a value is expected, the syntax tree has exactly the first kind that fits its whole text, in the documented order of kinds (address range, address, relative time,
  time span, wildcard, quoted text, variable, decimal number, integer, name, truth value), with its exact value: sign and digits of numbers, amount and unit of time spans, quoted text without its
  quotes, and reserved words in any case are never names; an integer too large to represent is not read as a number.''',
  'every word and quoted text', '''Words are arbitrary texts and the kinds overlap (12, 12d, 1.2, 1.2.3.4, true, t*); the tests classify a few of each.''',
  ['src/spl/parser.rs'], [('literal and constant', 'src/spl/parser.rs'), ('lexical parsers', 'src/spl/parser.rs')])

p('C24', 'Each command is read with all its arguments in their places',
  '''For every command text, parsing yields the command with every field, clause, alias, function and sub-search that is written, in order and in the part of the command it belongs to, optional clauses absent exactly
  when they are not written, keywords in any letter case; text that is not of the command's form is not read as that command.''',
  'every command text: lists of any length, every combination of clauses, any spacing and letter case', '''Each of some thirty commands has a syntax of its own with unbounded lists; the tests parse
  a few texts per command.''',
  ['src/commands', 'src/commands/stats_utils.rs', 'src/spl/parser.rs'], [('SplCommand::parse_body of each command', 'src/commands/spl.rs')])

p('C25', 'A pipeline is all of its commands in order, and all of the text is read',
  '''Parsing a query yields its commands in the order written, each as the first command form (in the documented order) that fits its text, a sub-search in brackets or in a quoted `search=` as the pipeline
  of its own text; a query is accepted only if all of its text has been read, and is otherwise an error.  Rendering a parsed query gives the text of exactly its translation in the mode asked for, formatted only on request.''',
  'every query text, any number and nesting of pipelines', '''The number of commands and the nesting of sub-searches are unbounded; dropped trailing text shows only on texts that the tests do not contain.''',
  ['src/spl/parser.rs', 'src/lib.rs'], [('pipeline, sub_search, command', 'src/spl/parser.rs'), ('entry points', 'src/lib.rs')], over=('programs',))

p('C26', 'Macro calls are found exactly where they are written',
  '''Detecting macros in a text yields, for each pair of back quotes in order, the text before it and the macro name with its arguments in order (each with its parameter name if one is written), and the text after the last
  one; text without back quotes has no macro calls, and a text with an unpaired back quote or a malformed call is an error.''',
  'every text', '''Texts, argument lists and numbers of calls are unbounded.''',
  ['src/spl/macros.rs', 'src/lib.rs'], [('spl_macros', 'src/spl/macros.rs')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for o in OUT:
        f.write(json.dumps(o) + '\n')
