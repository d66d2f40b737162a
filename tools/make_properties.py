import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":["modularcalculator/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["ModularCalculator.calculate -> CalculatorResponse.results"]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Arithmetic expressions evaluate to the exact rational answer",
"Any expression built from numeric literals (decimal, percentage, scientific), brackets, implicit multiplication and the arithmetic operators + - * / % \\ ^ (integer powers) evaluates to exactly the rational number given by the documented precedence and left-to-right grouping, with no rounding, as long as no intermediate needs more digits than the configured number size. % is the remainder with the sign of the dividend and \\ is the floor of the quotient. Division or remainder by zero is reported as an error, never as a value.",
["inputs","programs"],"all arithmetic expressions (any nesting, operator mix, literal spelling, bracket placement) whose intermediates fit the number size",
"The tests check a few dozen fixed expressions; precedence and exactness must hold for every tree and operand, e.g. 1/3 chains, negative operands, literals after operators, implicit multiplication between brackets.",
["engine.py","objects/number.py","features/layout.py","features/numerical/basicarithmetic.py","features/numerical/advancedarithmetic.py","features/numerical/decimalnumbers.py","features/numerical/expnumbers.py","features/numerical/percentagenumbers.py"],
[("precedence-level scan","engine.py Engine.execute"),("numerator/denominator arithmetic","objects/number.py Number"),("operator precedence table","features/layout.py op_map")])

p("C02","Parsing is lossless: items, statements and highlighting tile the input text",
"For every input that parses, concatenating the texts of the parsed items of all results (and, recursively, of every bracket, function call, array or inline function) reproduces the input character for character, and each result's expression text is the concatenation of its own items. Syntax highlighting of any parsed or failed input yields pieces whose texts concatenate to exactly the highlighted text, with no gap, overlap or reordering. Parsing the same text again yields the same statements.",
["inputs","programs"],"all input texts accepted by any preset, over every syntactic construct, nesting and layout",
"Tests check a handful of highlight lists; tiling must hold for every nesting of brackets/functions/arrays/inline functions/comments/terminators and for failing inputs.",
["engine.py","objects/items.py","services/syntaxhighlighter.py","features/structure/functions.py","features/structure/innerexpressions.py","features/structure/inlinefunctions.py","features/structure/functionpointers.py","features/structure/terminator.py","features/arrays/arrays.py","features/nonfunctional/space.py","features/nonfunctional/comments.py"],
[("parser loop advancing by item length","engine.py Engine.parse"),("items_text","objects/items.py"),("highlight","services/syntaxhighlighter.py")],
observe=["CalculatorResult.items/.expression","SyntaxHighlighter.highlight_statements"])

p("C03","Every bad input is reported as a calculating error with an exact position",
"For any input text that does not ask for astronomically large results, exponentially branching recursion or a mixture of more than about ten different units, calculation terminates and either returns a response or raises the calculator's own parsing/execution error; no other exception type escapes. The error carries the results of exactly the statements that completed before it, its statements' texts together with the unparsed/unexecuted remainder locate a position inside the input that lies in the first failing statement, and truncating there yields a prefix of the input. A statement whose evaluation fails yields no result value.",
["inputs","fault_sequences"],"all texts (valid, truncated, mutated, random token soup) and all positions of a failing statement within a multi-statement program",
"The error tests contain ~40 fixed inputs; a raw Python exception or wrong position can hide behind any token combination.",
["engine.py","objects/exceptions.py","objects/operators.py","objects/number.py","features/structure/functions.py","features/structure/innerexpressions.py","features/arrays/arrays.py"],
[("error wrapping","engine.py Engine.calculate"),("find_pos","objects/exceptions.py find_pos"),("restore_non_functional_items","engine.py"),("Operation.call wrapping","objects/operators.py")],
observe=["CalculatingException.message/.statements/.next/.response/.find_pos/.truncate"])

p("C04","Results depend only on the text and stored variables, not on earlier calls",
"A calculator that has processed any sequence of earlier calculations, including failing ones, gives for every later expression the same outcome as a fresh calculator holding the same variables. An expression that fails to parse changes nothing; one that fails in its k-th statement leaves exactly the effects of the first k-1 statements (and of nested assignments inside the k-th that had already completed). Evaluating the statements of a program in one call or in successive calls gives the same results and the same final variables.",
["histories","fault_sequences"],"all sequences of calculations, successes and failures interleaved, and all splits of a program into calls",
"Every existing test runs short expressions with no adversarial history; leaks from failed or earlier calls need multi-step sequences to show.",
["engine.py","features/structure/terminator.py","features/state/assignment.py","features/structure/inlinefunctions.py","features/structure/externalfunctions.py"],
[("parse-then-execute","engine.py Engine.calculate"),("terminator look-ahead restoring state","features/structure/terminator.py")],
[("vars","variable store","features/state/assignment.py")])

p("C05","The variable store behaves as a map under assignments and compound assignments",
"A variable always reads as the value and unit last stored by =, ++, --, +=, -=, *=, /=, ^=, %=, \\= or, if it was unset, by ||=; each compound assignment stores and returns exactly what the plain operator returns on the old value and the operand (element by element for a variable holding an array), and a failing assignment stores nothing. No assignment affects any other variable; delete(x) removes exactly x and reset() removes all; reading an unset variable gives an empty value and using it in arithmetic is an error, never a stale value.",
["histories"],"all sequences of assignments, compound assignments, deletes, resets and reads over several variables, including failing right-hand sides and values with units, arrays, strings",
"Tests exercise each operator once or twice on fresh state; the map law quantifies over all histories.",
["features/state/assignment.py","features/state/assignmentoperators.py","features/state/assignmentfunctions.py"],
[("op_var_set / assignment_operator","features/state"),("delete/reset","features/state/assignmentfunctions.py")],
[("vars","name -> (value, unit)","features/state/assignment.py")])

p("C06","Stateless, parse-only and state-snapshot options do exactly what they say",
"With the stateless option no calculation, whatever it contains and whether or not it fails, changes the stored variables. With parse-only nothing is executed: no result values, no state change, same items and errors as a normal parse. With state snapshots every result carries the variables exactly as they were after its own statement, and a snapshot never changes afterwards.",
["inputs","histories","configurations"],"all programs under every combination of the three options, followed by arbitrary further calculations",
"No test checks that options hold for all operators/functions or that snapshots stay frozen under later statements.",
["engine.py","features/state/assignment.py","features/state/assignmentoperators.py","features/state/assignmentfunctions.py"],
[("flag checks","features/state/*.py"),("vars.copy()","engine.py Engine.calculate")],
observe=["CalculatorResult.state","calculator variables read back by evaluation"])

p("C07","Evaluating an expression never alters variables or constants it only reads",
"Reading variables or constants in any expression, function, array, unit conversion or comparison leaves their value, unit, elements and displayed representation unchanged. Evaluating the same read-only expression twice in a row gives the same result both times, and a result already handed out keeps its value whatever is evaluated later.",
["histories","inputs"],"all read-only expressions over all stored value kinds (numbers in every base, arrays, nested arrays, dates, strings, units) and all constants",
"Aliasing bugs show only when a shared value passes through a particular operator and is read again; tests never re-read.",
["objects/operators.py","objects/number.py","engine.py","services/unitnormaliser.py","features/state/constants.py","features/arrays/arrayfunctions.py"],
[("copy before convert/normalise","objects/operators.py Operation.call"),("finalize","engine.py")],
[("number_cast","display representation carried by a number","objects/number.py")])

p("C08","User functions see their own parameters and leave the caller's state untouched",
"Calling an inline or external function binds its arguments to PARAM1..PARAMn, returns what its last statement gives (no value when that has none), and afterwards - whether it succeeded or failed at any depth of nesting or recursion of calls - the caller's variables, including any outer PARAMs, are exactly as before. An inline function can read the caller's variables while an external one sees only its parameters. Declared external input types and unit dimensions (given by the names of the base dimensions, in any order) are enforced for every argument they apply to.",
["programs","fault_sequences","histories"],"all call trees of inline/external functions, with failures at any point, array arguments, nested calls and shadowed names",
"Tests call a few functions that succeed; restoration after failures and nesting is not exercised.",
["features/structure/inlinefunctions.py","features/structure/externalfunctions.py","features/structure/functionpointers.py","objects/operators.py"],
[("backup/restore of variables","inlinefunctions.py / externalfunctions.py do_function"),("#INPUT restrictions","externalfunctions.py handle")])

p("C09","Unit conversion is exact, reversible and rejects incompatible dimensions",
"Converting a quantity with 'to' between any two units or unit products of equal dimension yields exactly the value given by the published scale factors, converting back returns the original value exactly, and going via any third unit makes no difference. Temperature offsets are applied when a temperature unit stands alone, and not inside products, quotients or powers. Converting between different dimensions is always an error. The result carries the requested unit.",
["inputs"],"all ordered pairs of units of every dimension, all their prefixes and powers, and all rational values",
"Tests convert a small subset of the ~600 defined units and prefixes; one wrong scale factor or power sign is invisible elsewhere.",
["services/unitnormaliser.py","objects/units.py","features/units/units.py","features/unitdefinitions/distance.py","features/unitdefinitions/temperature.py","features/unitdefinitions/allunitdefinitions.py","features/units/basicunitprefixes.py","features/units/advancedunitprefixes.py"],
[("unit_conversion","services/unitnormaliser.py"),("UnitPowerList.convert","objects/units.py"),("scale tables","features/unitdefinitions/*.py")])

p("C10","Arithmetic on quantities conserves physical value and dimension",
"For the operators + - * / %, ^ with an integer exponent, \\ when the units cancel, and abs, sum, min, max, mean and median on quantities, the result expressed in base units equals the operation applied to the operands expressed in base units, with dimensions combined accordingly, whatever mixture of compatible units was used and with unit simplification on or off. (Temperatures with an offset: the operators act on the numbers as temperature differences, while aggregates and comparisons convert absolutely.) Adding, subtracting, comparing or aggregating quantities of different dimensions is always an error. Simplification changes only the unit chosen for display, never the physical quantity.",
["inputs","configurations"],"all operator trees over quantities in mixed compatible units, with simplification on and off and any unit-system preference order",
"Tests check selected products; conservation must hold for every unit mix, power sign and preference setting.",
["services/unitnormaliser.py","objects/units.py","objects/operators.py","features/units/units.py","features/numerical/basicarithmetic.py"],
[("normalise_inputs / simplify_units / dedupe","services/unitnormaliser.py"),("finalize","engine.py")])

p("C11","Unit reformatting functions preserve the quantity",
"compact() (explicit unit simplification) and format(), with or without a target system, preserve the quantity: compact() returns a quantity of the same dimension physically equal to its input, and format() prints parts that add up to its input, for every quantity, largest units first and with whole counts in all but the smallest part. format() to a named system uses only units of that system and is an error when the system has no unit of that dimension. Ambiguous unit names resolve consistently according to the configured system preference.",
["inputs","configurations"],"all quantities over all units and compositions (including negative and multi-unit powers), every unit system and preference order",
"Only a few formatted examples are tested.",
["features/units/unitfunctions.py","features/units/systems.py","services/unitnormaliser.py"],
[("func_format/func_compact","features/units/unitfunctions.py"),("systems preference","features/units/systems.py")])

p("C12","Base representations parse, propagate and print without changing the number",
"A number written in binary, octal, hexadecimal, any base 2-36, scientific or percentage form denotes exactly the value positional notation gives, including fractions and signs, and the base functions and 'as' conversions print a text that reads back as the same value (up to the configured number of places). The representation of an operation's result follows its first operand that has a non-decimal representation and never changes the value; the leading-zero width of binary literals is kept. Malformed literals are rejected, never misread.",
["inputs"],"all digit strings, bases, signs, fractions and widths, and all operators propagating representation",
"Tests use a few short literals per base; digit/base/sign/fraction combinations are unbounded.",
["features/numerical/bases.py","features/numerical/binarynumbers.py","features/numerical/octalnumbers.py","features/numerical/hexadecimalnumbers.py","features/numerical/arbitrarybasenumbers.py","features/numerical/expnumbers.py","features/numerical/percentagenumbers.py","features/numerical/numericalrepresentation.py","objects/operators.py"],
[("base_to_dec / dec_to_base","features/numerical/bases.py"),("number_cast propagation","objects/operators.py")])

p("C13","Displayed numbers are the exact value correctly rounded to the configured places",
"The decimal text of any result is the exact rational result rounded to the configured number of decimal places in the configured rounding mode, without exponent, trailing zeros or negative zero. Values exactly representable in that many places are printed exactly, and printing then re-entering such a value gives an equal value. Changing places or rounding mode affects only display, never the value of exact arithmetic.",
["inputs","configurations"],"all rational results (magnitudes within the number size) x all precisions x all rounding modes",
"Tests print short values under the default configuration only.",
["objects/number.py","numericalengine.py"],
[("Number.to_string","objects/number.py"),("set_precision / set_rounding","numericalengine.py")],
observe=["Number.to_string(calculator)"])

p("C14","Scalar operations on arrays act element by element",
"Applying any operator or function that expects scalars to arrays gives an array whose k-th element is exactly what the operation gives on the k-th elements (scalars being reused), at every nesting depth, with a failing element marked as an error in its own place only. Arrays of different lengths are rejected. Passing several arguments to a function that aggregates one array is the same as passing one array of them, and passing several arrays aggregates position by position. (When the failure comes from the scalar operand itself the whole operation may fail instead.)",
["inputs","programs"],"all operators and functions x all positions of array arguments x lengths, nestings, element types, units and failing elements",
"Tests broadcast few functions; the law is a pointwise equivalence over all operations.",
["objects/operators.py","features/arrays/arrays.py"],
[("Operation.call broadcasting","objects/operators.py")])

p("C15","Arrays, ranges and array functions follow sequence semantics",
"An array literal contains its elements in order; a range a .. b [step c] contains exactly a, a+c, a+2c, ... up to and including b if hit and never beyond, in either direction, in the unit of its start; a step in the wrong direction and components of different dimension or type are an error, and a zero step never loops. concat, element (1-based), filter, count, reverse and sort behave as on a plain sequence, sort returning an ascending permutation, and none of them loses, duplicates or alters elements or their units.",
["inputs"],"all element lists, nestings, range bounds/steps (fractions, negatives, mixed compatible units) and function compositions",
"Tests use short integer examples.",
["features/arrays/arrays.py","features/arrays/arrayfunctions.py"],
[("ArrayItem range expansion","features/arrays/arrays.py"),("array functions","features/arrays/arrayfunctions.py")])

p("C16","Comparisons, boolean logic and conditionals are consistent and lazy on errors",
"Numeric comparisons agree with the exact order of rationals across all literal forms and compatible units, form a total order, and == / != are complementary equivalences; and/or/xor/not follow truth tables with the usual precedence. 'cond then a else b' yields the selected branch with its value and unit, and a failing branch that is not selected, or a failing operand not needed to decide and/or, never causes an error. Comparing values of incompatible kinds or dimensions is an error or false, never a crash.",
["inputs"],"all pairs/triples of values in all representations and units, all boolean expression trees, failing sub-expressions in each position",
"Tests sample a few comparisons; order laws and laziness quantify over all values and trees.",
["features/boolean/booleans.py","objects/number.py","services/unitnormaliser.py"],
[("op_and/op_or/op_then","features/boolean/booleans.py"),("Number comparisons","objects/number.py")])

p("C17","String literals and functions follow string semantics",
"A string literal denotes exactly its characters with the escape rule applied, so any text can be written as a literal. Concatenation, repetition, length, case change, stripping of a character, find, replace, substr (zero-based, inclusive, negative from the end), split and join return what the same operation on the character sequence returns, for any text including empty, non-ASCII and special characters; split and join with the same non-empty delimiter are inverse. Numbers used where text is expected act as their displayed text; an unset variable is an error there.",
["inputs"],"all strings, delimiters, offsets (in and out of range) and compositions of the functions",
"Tests use one or two ASCII words per function.",
["features/strings/strings.py","features/strings/stringfunctions.py","features/strings/stringarrayfunctions.py"],
[("string parser and escapes","features/strings/strings.py"),("functions","features/strings/stringfunctions.py")])

p("C18","Regular-expression and text comparison operators agree with their definition",
"The regex operators and functions (match, no-match, get, split, substitute, count) give what the standard regular-expression engine gives on the same pattern and text (regexget for patterns with at most one group, indices from 1), =~ and !~ being complementary, and an invalid pattern is an error. The text comparison operators order by character sequence and their case-insensitive variants compare the lower-cased texts; ==/!= variants are complementary and the orderings are mutually consistent.",
["inputs"],"all patterns, texts and replacement strings; all pairs of texts",
"Tests use a handful of literals.",
["features/strings/regex.py","features/strings/stringcomparison.py"],
[("regex ops","features/strings/regex.py"),("comparison ops","features/strings/stringcomparison.py")])

p("C19","Date arithmetic follows the calendar exactly",
"A date literal denotes the written calendar moment and prints back the same; adding or subtracting a duration in any time unit moves it by exactly that many seconds (to the microsecond, across month, year and leap boundaries), subtracting undoes adding, and datedifference returns exactly the non-negative duration between two dates. Function and operator forms agree, dateformat prints the same moment, dates of equal format order by time when compared as text, and results outside the supported calendar or non-time durations are errors.",
["inputs"],"all dates in the supported calendar, all durations in all time units (fractional and negative included)",
"Tests use a few dates near 2020.",
["features/dates/dates.py","features/dates/datefunctions.py","features/dates/dateoperators.py"],
[("date parse/format","features/dates/dates.py"),("dateadd etc.","features/dates/datefunctions.py")])

p("C20","Layout never changes meaning",
"Inserting or removing spaces, tabs or comments between tokens, wrapping a sub-expression that is already grouped in extra brackets, breaking a line where an operator still needs its right operand or inside brackets, arrays or calls, and adding blank or comment-only lines never changes any value, unit or error of the program. Statements end exactly at a terminator outside brackets when the statement is complete. A comment runs from its symbol to the end of its line and has no other effect.",
["inputs","programs"],"all programs x all layout variations between tokens",
"Tests have a few fixed layouts.",
["features/nonfunctional/space.py","features/nonfunctional/comments.py","features/structure/terminator.py","features/structure/innerexpressions.py","engine.py"],
[("terminator look-ahead","features/structure/terminator.py"),("space/comment parsers","features/nonfunctional")])

p("C21","Any set of features composes, in any order, with the documented presets",
"Installing any set of features in one call, in any order, succeeds with all dependencies installed and yields a calculator with the same operators, functions, units and results as any other order of the same set, as does installing them in separate calls that respect the declared ordering; installing a feature twice changes nothing. Every preset installs completely, each bigger preset gives the same results as a smaller one for inputs that both support, and an unknown feature is rejected with the calculator's own error.",
["configurations"],"all subsets and permutations of the feature list and all presets",
"Tests only build the full preset(s) in file order.",
["modularcalculator.py","features/feature.py","features/presets.py","features/layout.py","features/unitdefinitions/allunitdefinitions.py"],
[("install_features / add_op / add_parser ordering","modularcalculator.py"),("dependencies()/after()","features/*")],
observe=["ModularCalculator.install_features","results of a probe suite"])

p("C22","Calculators are isolated from each other and work from any thread",
"Whatever other calculator instances exist, are created, configured or used in between, and whichever thread calls it, a calculator gives the same results: its variables, functions, constants, units, options, number size, decimal places and rounding are its own. Independent calculators used concurrently from different threads each give the results they would give alone (one calculator is used by one thread at a time).",
["schedules","configurations","histories"],"all interleavings (at call granularity and preemptive threads) of operations on several instances",
"All tests use instances one after another on the main thread.",
["numericalengine.py","objects/number.py","modularcalculator.py"],
[("per-instance settings","numericalengine.py")],
[("decimal context / decimal places","process- or thread-global settings","objects/number.py")])

p("C23","Numeric, statistical and trigonometric functions match their definition",
"abs, floor, ceil, round, fact, lcm, gcd, sum, min, max, mean, median and mode return the exact mathematical result for every admissible argument (any sign, fraction, order and number of arguments, compatible mixed units, non-negative integer places; mode a most frequent value); exp, log, standard deviation and trigonometric/hyperbolic functions are accurate to floating precision, the trigonometric ones for an argument in any angular unit, and inverse pairs are consistent. Arguments outside a function's domain are errors, never wrong values.",
["inputs"],"all argument lists of each function, including edge cases, mixed units and sign combinations",
"One to three fixed examples per function.",
["features/numerical/numericalfunctions.py","features/numerical/statisticalfunctions.py","features/numerical/trigonometryfunctions.py"],
[("function bodies","features/numerical/*functions.py")])

p("C24","The exact number type obeys rational algebra",
"Numbers are always in canonical form: integer numerator and positive integer denominator without common factor. Addition, subtraction, multiplication, division, floor division, remainder, integer power, negation, absolute value, rounding, floor and ceiling agree with exact rational arithmetic within the number size; equality and ordering agree with the rational order (for numbers whose cross products fit the number size), equal numbers hash equally, and operations never modify their operands. Constructing from equal decimal texts gives equal numbers.",
["inputs"],"all pairs/triples of rationals within the number size",
"Unit tests check a list of fixed pairs.",
["objects/number.py"],
[("Number","objects/number.py")],observe=["modularcalculator.objects.number.Number"])

p("C25","Bitwise operators act on the integer's two's-complement or fixed width bits",
"&, |, ^^, << and >> give exactly the integer bitwise result for all non-negative integers within the number size (a fraction is truncated first), and ~ inverts a binary literal within its written width, so that applying it twice restores the number, and any other integer within its minimal bit width. Identities (De Morgan within width, shift as multiplication by powers of two, x ^^ x = 0) hold, the representation follows the operands as for other operators, and unsuitable operands are errors.",
["inputs"],"all pairs of integers, widths and representations",
"Tests use a few small constants.",
["features/numerical/bitwiseoperators.py","features/numerical/binarynumbers.py"],
[("bitwise ops","features/numerical/bitwiseoperators.py")])

p("C26","Every operation rejects wrong argument counts, types and dimensions",
"Each function rejects, with an execution error naming it, any call with fewer or more arguments than it declares, any argument of a type it does not declare, and any quantity whose dimension it does not accept (dates and durations, trigonometry, addition, subtraction, comparison, conversion); each operator does the same for its operands. Booleans and texts that spell a number count as numbers, and any set value counts as text. Admissible calls are never rejected for count, type or dimension reasons. Rejected calls have no effect and return no value.",
["inputs"],"all functions and operators x argument counts around the limits x all value kinds in each position",
"Tests only check a couple of rejections.",
["objects/operators.py","features/structure/functions.py"],
[("Operation.validate","objects/operators.py")])

p("C27","Unit names and symbols resolve to the documented unit, longest match first",
"Every defined unit can be referred to by each of its singular/plural names in any letter case and by each of its symbols in exact case (except a symbol that is an operator word, such as as), with every applicable prefix, and resolves to that unit, or to the one of the preferred system when a name is shared, with the right power of ten (or 1024) scale. A unit is displayed by singular or plural name according to its value and the displayed name, re-entered, denotes the same unit. Unit words never swallow part of a longer word, variable or function name.",
["inputs","configurations"],"all names, plurals, symbols, prefixes and letter cases of all defined units",
"Tests use a small subset of names.",
["objects/units.py","features/units/units.py","features/units/basicunitprefixes.py","features/units/advancedunitprefixes.py","services/unitnormaliser.py","features/unitdefinitions/allunitdefinitions.py"],
[("parse_units","features/units/units.py"),("names()/symbols()","objects/units.py")])

p("C28","Special functions return the library value for their documented arguments",
"Each special mathematical function returns, for every admissible real argument list in documented order, the value of that mathematical function to floating precision (the leading order or count arguments of kn, bdtrc, bdtri and nbdtri being truncated to integers), and an error outside its domain instead of a non-number. Well-known identities between them (symmetry, recurrence, complement) hold.",
["inputs"],"all admissible real arguments of all special functions",
"One example per function.",
["features/numerical/specialfunctions.py"],
[("scipy wrappers","features/numerical/specialfunctions.py")])
p("C29","Configured symbols and formats mean exactly what the default ones meant",
"Setting a feature's symbol or format option (string quote and escape, comment, terminator, function pointer, array brackets, separator, range and step, exponent sign, date and human-readable date formats), before first use or on a calculator already in use, is equivalent to rewriting programs in that notation: a program written with the configured symbols gives the same values, failures, items and variables as the same program in the default notation, numbers and dates are displayed with the configured symbols and formats and read back as the same values, and a replaced symbol or format is no longer accepted. Symbols may have several characters (quote and escape: one) and contain any character, as long as they do not collide with other syntax.",
["configurations","inputs","histories"],"all consistent assignments of the options, at any moment of a calculator's life, over all programs",
"No test changes an option; a symbol is used by parsing, display, read-back, date functions and external function headers, each of which can lag behind or misread it.",
["features/nonfunctional/comments.py","features/structure/terminator.py","features/structure/functionpointers.py","features/structure/externalfunctions.py","features/strings/strings.py","features/numerical/expnumbers.py","features/arrays/arrays.py","features/dates/dates.py","features/dates/datefunctions.py"],
[("parsers reading feature_options","features/*/*.py"),("compiled exponent pattern","features/numerical/expnumbers.py compile_regex"),("date formats","features/dates/dates.py string_to_date/date_to_string")],
[("feature_options","symbol and format settings","modularcalculator.py")])
p("C30","What a host application adds behaves exactly as it declares",
"A function or operator added by a custom feature is called exactly once per scalar application (element by element over arrays in parameters not declared to take arrays, collected into one array where its only parameter is an array), only with arguments its declared counts, value types and dimensions admit, converted to numbers and to a common unit as its flags say; its result carries the unit, representation, errors and effects it returned and nothing else, and no call influences another. Added operators (binary, prefix, postfix, with separator symbols) group by the level and direction they are placed at. Added parsers are tried in the order of the parser map, an operator or parser added again under a name replaces the earlier one, added number types, constants, units, prefixes, dimensions, systems and ambiguous names resolve, convert and display as defined, finalizers are applied once to every result value in order, and imported feature files and presets register exactly their features, installed once each after their dependencies and order hints, on that calculator only.",
["configurations","inputs"],"all declarations of operations, operator tables, parsers, types, units and feature graphs, over all programs using them",
"Tests only use the built-in features; one example feature is shipped untested. The declarations' combinations (ranges of parameters, flags, levels, order hints) are what a host application relies on.",
["objects/operators.py","structure/functions.py".replace('structure','features/structure'),"features/structure/operators.py","engine.py","modularcalculator.py","features/feature.py","features/layout.py","services/unitnormaliser.py","numericalengine.py"],
[("Operation.call/validate","objects/operators.py"),("add_op/add_parser/add_number_type","modularcalculator.py"),("install_features/import_feature_file","modularcalculator.py"),("finalize","engine.py")])
json_lines=[json.dumps(x,ensure_ascii=False) for x in P]
open('/verif/properties.jsonl','w').write('\n'.join(json_lines)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
