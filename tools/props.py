import json
C='src/reparsec/core/'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ["Parser.parse(...).unwrap()"],hook_needed=None)))
p("C01","Plain parsing computes the documented committed-choice semantics",
 "Without recovery, a parser built from the documented parsers and combinators succeeds on an input exactly when the documented semantics does (left to right; an alternative, `maybe` or `many` moves on only if its operand failed without consuming input; `attempt` turns a failure into one that consumed nothing), and returns exactly the value and stops exactly at the input position that semantics gives.",
 ["programs","inputs"],"every grammar over the public combinators (strings, arbitrary sequences, token lists), every input",
 "The tests run some forty fixed grammar/input pairs; combinators compose without bound and the consumed/not-consumed flag only matters in compositions the tests do not contain.",
 [C+'combinators.py',C+'sequence.py',C+'scannerless.py',C+'primitive.py','src/reparsec/parser.py'],
 [("fast parse functions of each combinator",C+'combinators.py'),("consumed flag and prepend/set of expectations",C+'result.py'),("terminals",C+'sequence.py, scannerless.py')])
p("C02","A failed plain parse reports one error, at the right place, with all labels",
 "When a parse without recovery fails, exactly one error is reported, carrying no repair; its location is where the parse got stuck, and its expectation list holds, in grammar order, the label of every token or labelled construct that could have continued the parse at that point and nothing else. `label` replaces the list exactly when the labelled construct consumed no input; optional and repeated constructs that stopped without consuming still contribute what they expected. Labels of an alternative abandoned by `attempt` are merged with those of the other alternatives, at the place where the first alternative got stuck.",
 ["programs","inputs"],"every grammar and every input on which the plain parse fails",
 "Tests assert about a dozen messages of three grammars; expectation merging depends on every combination of optional, repeated, labelled and alternative parsers.",
 [C+'combinators.py',C+'result.py',C+'chain.py','src/reparsec/types.py'],
 [("Append / prepend_expected / set_expected",C+'result.py, chain.py'),("alt merges expectations",C+'combinators.py')],["ParseError.errors"])
p("C03","Enabling recovery never changes the result of a valid input",
 "If an input parses successfully without recovery, then parsing it with recovery enabled, for any insertion limit, succeeds with the same value and stopping position, reports no error, and `unwrap()` and `unwrap(recover=True)` both return that value.",
 ["programs","inputs","configurations"],"every grammar (including recover, recover_with, attempt, layout), every valid input, every max_insertions",
 "The recovery and plain parse functions are separate code for every combinator; tests run both only for a few grammars.",
 [C+'combinators.py',C+'sequence.py',C+'scannerless.py',C+'layout.py'],
 [("pairs of fast/recovering parse functions",C+'combinators.py'),("choice points first run with recovery disabled",C+'combinators.py')])
p("C04","Recovery never hides an error and starts from the same first error",
 "If an input does not parse without recovery, then with recovery enabled `unwrap()` still raises: either every reported error carries a repair and `unwrap(recover=True)` returns a value, or no repair was possible and both calls raise one error without a repair. For grammars that do not backtrack with `attempt`, the first error reported with recovery has the location and the expectations of the error reported without it.",
 ["programs","inputs","configurations"],"every grammar, every input the plain parse rejects, every insertion limit",
 "Tests compare messages for a handful of broken inputs; agreement of the two modes is a relation over all inputs.",
 [C+'combinators.py',C+'recovery.py',C+'repair.py',C+'result.py','src/reparsec/types.py'],
 [("Recovered keeps loc/expected of the first failure",C+'recovery.py'),("expectations of unconsumed repair operations",C+'repair.py')],["ParseError.errors","ParseResult.unwrap"])
p("C05","Applying the reported repairs yields a valid input with the same value",
 "For a grammar that decides with one token of lookahead, applying the reported repairs to the input (delete the skipped tokens, insert the inserted ones, at the reported positions) gives an input that the same parser accepts without recovery, returning the very value that recovery returned. The repairs are listed in input order, do not overlap and stay inside the input. Each later error has the position and expectations of the error that a parse without recovery reports once the repairs before it are applied.",
 ["programs","inputs"],"every LL(1) grammar over fixed tokens, token classes and recover_with of a token; every input that is repaired",
 "Tests look at values or messages of chosen inputs, never at the relation between repairs, input and value.",
 [C+'recovery.py',C+'repair.py',C+'sequence.py',C+'scannerless.py',C+'combinators.py'],
 [("continue_parse joins repair operations and values",C+'recovery.py'),("make_insert/make_skip positions and counts",C+'repair.py')],["ParseError.errors[].op","unwrap(recover=True)"])
p("C06","Never more insertions in a row than the configured limit",
 "With recovery enabled, reported repairs never contain more than `max_insertions` insertions in a row without input being consumed or skipped in between (none at all for a limit of 0; the default limit is 5). The limit is exact: a run of missing tokens is filled in by insertions if it is no longer than the limit, and the count starts afresh once input has been consumed.",
 ["programs","inputs","configurations"],"every grammar (also recursive), input and insertion limit",
 "No test sets max_insertions; the budget is threaded through every combinator.",
 ['src/reparsec/parser.py',C+'recovery.py',C+'combinators.py',C+'repair.py'],
 [("ins/rem threading",C+'combinators.py'),("budget reset in continue_parse",C+'recovery.py')],["ParseError.errors[].op"])
p("C07","Recovery succeeds whenever the grammar provides a way to recover",
 "With recovery enabled: input after a successful parse is skipped up to an end-of-input parser, giving the parsed value and one error that skips exactly the rest; a grammar of fixed tokens whose total size is within the insertion limit recovers from every input; and a parser (not using `attempt`) wrapped in `recover_with`/`recover_with_fn` that fails without consuming input recovers whenever at least one insertion is allowed, with the given value (for the function: the result of calling it with the input and the failure position) available as the replacement. Replacement functions are never called when recovery is off or the input is valid.",
 ["programs","inputs","configurations"],"every grammar of the stated forms, every input",
 "Tests recover from selected inputs only.",
 [C+'sequence.py',C+'combinators.py',C+'repair.py','src/reparsec/parser.py'],
 [("end-of-input skip",C+'sequence.py'),("user insertion repairs",C+'combinators.py, repair.py')])
p("C08","The chosen repair and its report are exactly the documented best one",
 "Among all repair sequences the grammar allows (insert a missing fixed token, skip to the next place where the failed token parser succeeds, skip to the end before an end-of-input parser, use a `recover_with` replacement; automatic insertions start only the first of several alternatives unless `recover` allows others), recovery returns the one with the fewest tokens inserted plus skipped, then the one that gets furthest, then one whose first repair is not an automatic insertion, then the first in grammar order. The value, the list of repairs with counts and labels, and each error's location and expectations are those of that sequence.",
 ["programs","inputs","configurations"],"every grammar, every invalid input, every insertion limit",
 "The set of candidate repairs is a product over all error sites and alternatives; tests pin the winner in about sixty cases.",
 [C+'recovery.py',C+'repair.py',C+'result.py',C+'combinators.py','src/reparsec/types.py'],
 [("continue_parse, join_repairs",C+'recovery.py'),("selection by (cost, -pos, prio)",'src/reparsec/types.py')],["ParseError.errors","unwrap(recover=True)"])
p("C09","String error locations are the true line and column",
 "With the string `parse` helper, every reported location (plain or recovering, first or later error) is the true zero-based line and column of the offset it reports, counting newline characters, and is displayed one-based as line:column; with plain `parse` it is the bare offset. A user-supplied location function is only asked to advance from a location it returned earlier for an offset not beyond the requested one, and a user-supplied formatter formats every location.",
 ["programs","inputs"],"every grammar over strings, every multi-line input, every consistent incremental location function",
 "Location is maintained incrementally in parsing state threaded through all combinators and repairs; tests check a few two- and three-line inputs.",
 [C+'types.py',C+'scannerless.py','src/reparsec/scannerless.py','src/reparsec/parser.py'],
 [("Ctx.update_loc/get_loc",C+'types.py'),("incremental get_loc",C+'scannerless.py')],["ErrorItem.loc","ErrorItem.loc_str","get_loc calls"])
p("C10","The lexer cuts the source into exactly the tokens of the specification",
 "For every source and specification the lexer terminates and either returns the tokens in order, each with the name and text of the last matched capture group and the true start and end location of the whole match (matches without a named group are dropped, nothing else is), or raises a lexing error located exactly at the first place where the specification matches no text. Tokens compare by kind and value only.",
 ["inputs","programs"],"every source text and every specification regular expression",
 "Tests lex short one-line JSON; locations over newlines, nested or unnamed groups, empty matches and lexing errors are not tested.",
 ['src/reparsec/lexer.py'],[("iter_tokens",'src/reparsec/lexer.py')],["split_tokens","LexError.loc"])
p("C11","Token parsers accept, report and repair by kind with source locations",
 "Over token lists, `token` accepts exactly tokens of its kind and reports that kind as expected; `token_ins` additionally offers an inserted token of that kind with the given value placed at the error's source location. With the lexer's `parse`, every error is located at the start of the offending token, or at the end of the last token at the end of input, whatever recovery did before.",
 ["programs","inputs"],"every grammar over token parsers, every token list (including empty), with and without recovery",
 "Tests use one-line inputs of one JSON grammar.",
 ['src/reparsec/lexer.py',C+'types.py'],[("token, token_ins, _loc_from_stream",'src/reparsec/lexer.py')],["ErrorItem.loc","unwrap(recover=True)"])
p("C12","Layout parsers compare true columns against the enclosing block",
 "`block` runs its parser with the mark set to the column where it starts, `aligned` accepts only at the column of the current mark, `indented(d)` only at exactly d columns right of the mark (and makes that column the new mark inside); otherwise they fail with \"indentation\" at that location without consuming. The mark in force outside is back afterwards whatever happened inside, for strings and token lists, with and without recovery.",
 ["programs","inputs"],"every layout grammar, every indentation structure, strings and token lists",
 "Tests have four one-line layout inputs and four short documents, none over tokens and none recovering.",
 [C+'layout.py',C+'types.py','src/reparsec/lexer.py'],[("mark in Ctx, set_mark/set_ctx",C+'layout.py, result.py')])
p("C13","Parsers carry no state: results depend only on parser, input and options",
 "Parsing the same input with the same parser gives the same outcome whatever was parsed before, after failures, recoveries, user exceptions and interrupts at any point, from several threads at once under any interleaving, and when a user function parses with the same parser while it is running. Results already returned are not affected by later parses, and changing a returned list affects no other result. A parser keeps nothing of the inputs and results of earlier parses alive once their users drop them.",
 ["histories","schedules","inputs"],"every history of parses on shared parser objects, every thread interleaving, re-entrant use",
 "Every test parses once, in one thread, and drops the parser.",
 [C+'combinators.py','src/reparsec/parser.py',C+'recovery.py',C+'repair.py'],[("parse state only in arguments and fresh result objects",C+'combinators.py')],["outcomes of interleaved parses"])
p("C14","Derived combinators agree with their definitions at any length",
 "For every number of items, `sep_by` returns all items in order (and an empty list if none starts), `between` the enclosed value, `chainl1`/`chainr1` the left/right-associative application of the parsed operators, `then`/`apply` all two to eight values in order, `many` all items in order. Method, operator and function forms of every combinator behave identically with and without recovery, and each derived form behaves like its expansion into basic combinators.",
 ["inputs","programs"],"all item counts, operator sequences, tuple widths, and forms of the same combinator",
 "Tests use at most four items and one order of operators.",
 ['src/reparsec/parser.py',C+'combinators.py'],[("sep_by, chainl1, chainr1, between, then, apply",'src/reparsec/parser.py')])
p("C15","Parsing terminates, in linear work and without growing the stack",
 "Repeating a parser that succeeds without consuming input raises RuntimeError in every repeating combinator and both modes instead of looping. Without recovery, and with recovery on valid input, `many`, `sep_by` and the chain combinators parse any number of items with call depth independent of the number of items and work (user predicate calls, executed steps, copying, and text walked over to locate `literal` and `regexp` matches) proportional to it; so does describing the error of such a parse. Recovering from one or two errors in a flat list also takes linear work and constant depth. Nested input takes work and call depth proportional to its depth (without backtracking), also when recovering from one error in plainly nested brackets.",
 ["inputs","programs"],"inputs of any length, every repeating combinator, both modes",
 "Test inputs are shorter than a line.",
 [C+'combinators.py',C+'chain.py','src/reparsec/lexer.py'],[("iterative many",C+'combinators.py'),("guard against empty repetition",C+'combinators.py')],["sys.monitoring step and depth counters"])
p("C16","Forward declarations behave as the parser they are defined as",
 "A forward-declared parser behaves in every context and mode exactly like its definition, however early it was used to build other parsers and however deeply it recurses. Using it before it is defined, or defining it twice, raises RuntimeError; a definition that is refused or fails changes nothing, and other threads may build and parse with it while it is being defined.",
 ["programs","histories","schedules"],"every grammar with forward declarations, every order of definition and use, every unfolding depth",
 "Tests define every declaration once, in one order.",
 ['src/reparsec/parser.py'],[("Delay",'src/reparsec/parser.py')])
p("C17","Parse results are stable, map lawfully and render errors as documented",
 "`unwrap` can be called any number of times in any order with the same result; mapping a function over a result maps the value (also the recovered one) and leaves the errors, the original result and the mapped result's stability unchanged. Every error message reads `at LOCATION: ` followed by `unexpected input` or the expectations joined by commas and a final `or`, followed by the skipped count (token/tokens) or inserted label if repaired, and the exception text joins all messages with commas.",
 ["inputs","histories"],"every result (success, failure, repaired) and every sequence of calls on it; every error list",
 "Tests check the text of some messages and never unwrap the same result in different orders or map results.",
 ['src/reparsec/types.py',C+'result.py'],[("ResultWrapper, ErrorItem.msg, ParseError",'src/reparsec/types.py')],["ParseResult","str(ParseError)"])
p("C18","User functions run exactly once per match and their exceptions pass through",
 "Without recovery, and with recovery on valid input, every mapping, binding, applying, operator or value-producing function is called exactly once for each time its parser matched during the parse, with exactly the matched value, in parse order, and never for a parser that did not match. An exception raised by any user function at any call reaches the caller unchanged, in both modes, and the parser works as before afterwards.",
 ["inputs","fault_sequences"],"every grammar and input; a fault injected at every user function call",
 "No test counts calls or lets a user function raise.",
 [C+'combinators.py',C+'primitive.py',C+'sequence.py',C+'result.py'],[("fmap/bind/PureFn/satisfy call user functions",C+'combinators.py')],["event log of user function calls"])
p("C19","Parsing depends only on the elements, not on the kind of sequence",
 "The same elements give the same outcome as a string (where possible), list, tuple or user-defined sequence; elements are only compared with `==` or given to predicates, so falsy elements, None, and equal but distinct objects are matched like any other, the element returned is the one in the input, and an inserted one is the one in the grammar. The input object is never changed.",
 ["inputs","configurations"],"every grammar over sequences, every element type, every sequence type, both modes",
 "All tests parse strings or token lists.",
 [C+'sequence.py','src/reparsec/sequence.py'],[("sym, satisfy, eof",C+'sequence.py')])
p("C20","Combinators obey their algebraic laws in every context and mode",
 "Expressions that the documentation makes equivalent are interchangeable in any context, with and without recovery: mapping composes and commutes with `label`, `attempt`, `recover`, `many` and alternatives; sequencing, choice and `bind` are associative with `Pure` and `unexpected` as units; `maybe(p)` is `p | Pure(None)`, `many(p)` unfolds to `p` followed by `many(p)` or an empty list, and the derived forms equal their expansions. Repeating `attempt`, `recover`, `maybe`, `label`, `block` or `aligned` adds nothing, and the outer `label` wins. Both sides give the same value, errors, locations, expectations and repairs.",
 ["programs","inputs","configurations"],"every law, every choice of sub-parsers and context, every input, mode and insertion limit",
 "Tests run single expressions; users refactor grammars by these laws, and each relates two programs over all inputs.",
 [C+'combinators.py',C+'result.py',C+'recovery.py',C+'layout.py',C+'primitive.py','src/reparsec/parser.py'],
 [("each combinator's plain and recovering parse function",C+'combinators.py'),("continue_parse / fmap over repairs",C+'recovery.py, repair.py, result.py')],["Parser.parse(...).unwrap()","ParseError.errors"])
p("C21","A plain parse depends only on the input up to where it got stuck",
 "Without recovery, parsing looks one element ahead and no further: it never depends on anything outside the input, for grammars without `attempt` and regular expressions it never looks at an element beyond the one where it stopped or got stuck nor goes back behind an element already passed, and so dropping, replacing or extending whatever follows that element changes neither the value nor the error. With recovery on, an input that is valid is looked at no further than without.",
 ["programs","inputs"],"every grammar, every input, every continuation of the input after the stopping place",
 "Tests only see outcomes on complete small inputs, never what was looked at or other continuations of the same prefix.",
 [C+'sequence.py',C+'scannerless.py',C+'combinators.py',C+'types.py'],
 [("stream[pos] guarded by len",C+'sequence.py'),("consumed flag stops alternatives",C+'combinators.py')],["__getitem__/__len__ of a user-defined sequence","Parser.parse(...).unwrap()"])
p("C22","A larger insertion limit never makes recovery worse",
 "If an input is repaired under some `max_insertions`, it is also repaired under every larger one, with no more tokens inserted plus skipped; and if the repairs chosen under the larger limit keep within the smaller one, value, errors and repairs are the same under both. The limit has no influence on valid inputs, on whether an error is reported, or on the error of an input that is not repaired.",
 ["programs","inputs","configurations"],"every grammar, every input, every pair of insertion limits",
 "No test sets max_insertions, let alone compares two limits.",
 ['src/reparsec/parser.py',C+'combinators.py',C+'recovery.py',C+'repair.py','src/reparsec/types.py'],
 [("ins/rem threading",C+'combinators.py'),("selection among repairs",'src/reparsec/types.py')],["ParseError.errors[].op","Parser.parse(max_insertions=...)"])
p("C23","Parsers are generic in the values they carry",
 "What user functions, `Pure`, `PureFn` and `recover_with` produce is only handed on: no parser compares, tests, iterates, calls, copies or otherwise inspects a value, and exchanging the values for any others changes neither which input is accepted, nor errors and repairs, nor which user functions are called with what. Predicates may answer with any truthy or falsy object.",
 ["programs","inputs","configurations"],"every grammar, every input, every assignment of values to the places that produce them",
 "Tests use strings, numbers and tuples as values, which behave well however they are treated.",
 [C+'combinators.py',C+'recovery.py',C+'primitive.py',C+'sequence.py','src/reparsec/parser.py','src/reparsec/types.py'],
 [("merging and mapping of values",C+'combinators.py'),("unwrap",'src/reparsec/types.py')])
p("C24","Parsing has no effects of its own and fits every interpreter setting",
 "Building parsers, parsing and reading results does nothing but call user functions and read the input: no output, log records, warnings, files, imports with effects, threads, or changes to the interpreter's global state (recursion limit, garbage collector, random state, hooks, signals) or to attributes of the user's functions, streams and elements, also when a user function raises. Outcomes are the same under every hash seed, optimisation level, warning filter, garbage collector, tracing and locale setting, whatever the environment variables, the clock and the signals that arrive, in every thread, fork, subinterpreter and event loop, and whatever was parsed before.",
 ["programs","inputs","configurations","fault_sequences"],"every grammar and input, every outcome including exceptions of user functions, every interpreter setting",
 "Tests run under one setting and look only at values and errors.",
 ['src/reparsec/parser.py',C+'combinators.py',C+'sequence.py',C+'scannerless.py','src/reparsec/lexer.py','src/reparsec/types.py'],
 [("pure functions of their arguments",C+'combinators.py')],["audit events, global interpreter state, child interpreters"])
p("C25","Tokens, locations and reported errors are plain values",
 "Errors of two runs of the same parse compare equal, items that differ in any reported fact do not, and copying, deep copying or pickling a `ParseError`, `LexError` or `Token` (alone or inside containers) preserves type, message, items, locations and repairs. Tokens are equal and hash alike exactly if kind and value are, keep their locations, and cannot be changed.",
 ["inputs","programs"],"every error any parse can report, every token, every copying protocol",
 "Tests compare errors of a few parses once and never copy them.",
 ['src/reparsec/types.py','src/reparsec/lexer.py',C+'types.py',C+'repair.py'],
 [("ErrorItem, ParseError",'src/reparsec/types.py'),("Token, LexError",'src/reparsec/lexer.py'),("Skip, Insert",C+'repair.py')])
p("C26","A parser works alike at every position of the input",
 "What comes before it has no influence on a parser: behind any prefix that was parsed successfully, of any length, it accepts the same continuations with the same value, the same expectations and the same repairs, plainly and recovering under every insertion limit, as at the start of the input, and every reported location is moved by exactly the prefix. (Regular expressions that look at the text before them are the exception, and layout parsers see the columns the prefix leads to.)",
 ["inputs","programs"],"every grammar, continuation, prefix and way of sequencing the two",
 "Tests parse a few elements from position 0.",
 [C+'combinators.py',C+'recovery.py',C+'sequence.py',C+'scannerless.py',C+'types.py','src/reparsec/types.py'],
 [("positions and locations",C+'types.py'),("choice of the repair",'src/reparsec/types.py'),("insertion count",C+'recovery.py')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S); assert len(x['title'])<=80,x['title']
print(len(P))
