import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

LEX="src/compile/lex.rs";PARSE="src/compile/parse.rs";CORE="src/render/core.rs";ITER="src/render/iter.rs";STACK="src/render/stack.rs";VAL="src/render/value.rs";ERR="src/error.rs";RMOD="src/render/mod.rs";LIB="src/lib.rs";AC="src/compile/search/ahocorasick/mod.rs";ACB="src/compile/search/ahocorasick/build.rs";SYN="src/types/syntax.rs";COMP="src/compile/mod.rs";FMT="src/fmt.rs";FILT="src/filters/mod.rs";ARGS="src/filters/args.rs";IMPLS="src/filters/impls.rs";SER="src/value/ser/mod.rs";SERM="src/value/ser/map.rs";FROM="src/value/from.rs";MAC="src/macros.rs"

p("C01","Compiling any text with any delimiters terminates and never panics",
"For every UTF-8 text and every delimiter configuration the builder accepts, compiling the text terminates and returns either a template or a syntax error; it never panics, aborts or hangs, and compiling the same text again gives the same outcome. Formatting the returned error in any of its display or debug forms never panics either.",
["inputs","configurations"],"all template sources, all delimiter configurations, compiled with Engine::compile or Engine::add_template",
"The tests compile about two hundred short ASCII templates, almost all with the default delimiters; byte slicing around multi-byte text, overlapping or whitespace delimiters, truncated tokens and error formatting over odd sources are inputs they never reach.",
[LEX,PARSE,COMP,AC,ERR],[("lexer state machine with cursor/trim slicing",LEX+":lex_template, lex_block, lex_comment"),("parser with block and scope stacks, unwraps",PARSE+":parse_template"),("error excerpt construction",ERR+":Pretty::build")],["Engine::compile","Engine::add_template","Display/Debug of Error"])

p("C02","Rendering any compiled template terminates and never panics",
"For every template that compiles, every context value and every set of registered filters, formatters and include resolvers (whether they succeed or return errors), rendering terminates and returns a string or an error; it never panics, aborts or hangs on its own account. The returned error can be formatted in all its display and debug forms without panicking.",
["inputs","programs"],"all compiled template sets, all contexts, all callback outcomes, all include graphs within the include depth limit",
"Tests render fixed well-formed pairs of template and context; the renderer relies on unwraps and on stack-shape panics that must be unreachable for every program, including after errors, in deep nesting, in include cycles and with scalar globals.",
[CORE,ITER,STACK,VAL,ERR],[("instruction interpreter with expr register unwraps",CORE+":render_one"),("stack pops that panic on a wrong shape",STACK+":pop_*")],["Renderer::to_string","Renderer::to_writer"])

p("C03","Text outside tags is emitted verbatim and comments emit nothing",
"Text outside tags is copied to the output byte for byte and in order, whatever Unicode, control or delimiter-like characters it contains, and text without any delimiter renders to itself. A comment contributes nothing to the output, changes nothing else, and its content is never interpreted.",
["inputs"],"all raw texts (any Unicode scalar values, any length) between any tags; all comment contents that contain no delimiter; text with partial delimiters",
"Tests use a few ASCII lorem-ipsum snippets; losing, duplicating or re-encoding bytes at particular lengths, positions, adjacent tags or partial-delimiter prefixes needs inputs the tests do not have.",
[LEX,AC,CORE],[("raw span calculation between tags",LEX+":lex_template"),("comment skipping",LEX+":lex_comment"),("raw emission",CORE+":EmitRaw")],["rendered output"])

p("C04","Whitespace control removes exactly the adjacent whitespace",
"A hyphen on the inner side of a tag's opening delimiter removes exactly the maximal run of Unicode whitespace at the end of the text immediately before that tag, and a hyphen on its closing delimiter removes exactly the maximal run at the start of the text immediately after it. This holds for expression, block and comment tags alike; it affects no other text, never reaches across a neighbouring tag, and values produced by expressions are never trimmed.",
["inputs","configurations"],"all sequences of tags of the three kinds with any combination of hyphens, separated by any text, under any delimiters",
"The tests cover a handful of hyphen placements around ASCII spaces and newlines; combinations such as text that is all whitespace between two trimming tags, Unicode whitespace, comment tags, trimming at file start or end and adjacent tags are not sampled.",
[LEX],[("left_trim/right_trim handling",LEX+":lex_template"),("left_trim set by end tags",LEX+":lex_block, lex_comment")],["rendered output"])

p("C05","Custom delimiters are recognised leftmost-longest and are otherwise equivalent",
"With any configured delimiters, tags are found leftmost first and the longest delimiter starting there wins, so delimiters may share prefixes, overlap, or contain any characters. A kind of tag that is not configured is plain text and cannot be used, and consistently renaming the delimiters of a template (to delimiters that occur nowhere else) never changes what it renders.",
["configurations","inputs"],"all delimiter configurations (1-3 kinds, any non-empty strings including shared prefixes, suffixes and multi-byte characters) and all templates written with them",
"Tests use two or three custom configurations; the hand-written multi-pattern automaton's failure links and leftmost-longest match kind matter only for overlapping delimiters and near-miss texts that tests do not contain.",
[SYN,AC,ACB,LEX],[("Aho-Corasick automaton with leftmost-longest semantics",ACB),("search loop",AC+":find_at"),("pattern registration per kind",SYN+":SyntaxBuilder::build")],["rendered output","syntax errors"])

p("C06","Exactly the documented template grammar is accepted",
"A template compiles if and only if it follows the documented grammar: correctly nested and closed if / else if / else, for, with and include blocks, expressions built from a path or literal and a chain of filter calls with comma separated arguments, with spaces and tabs optional between tokens and keywords reserved. Every other template is rejected at compile time with a syntax error, never accepted with some other meaning.",
["inputs"],"all sequences of tokens, blocks and delimiters, with any intra-tag spacing",
"Tests check a fixed list of good and bad templates; acceptance is a language-equality statement over all token sequences, where context dependent tokenisation (indexes versus numbers, keywords, adjacent tokens) and block nesting interact.",
[LEX,PARSE],[("tokenisation with path state",LEX+":lex_block"),("block stack matching",PARSE+":parse_template"),("expression grammar",PARSE+":parse_expr, parse_base_expr, parse_args")],["Engine::compile result"])

p("C07","Literals denote exactly the written value or are rejected",
"A literal in a template evaluates to exactly the value it denotes: integers in base 2, 8, 10 or 16 with optional sign and underscores over the full signed 64-bit range, floats to the nearest double, booleans, and strings with the escapes \\n \\r \\t \\\\ \\\" decoded and every other character unchanged. Malformed literals and prefixed integers outside the 64-bit range are rejected at compile time, never wrapped, truncated or silently altered.",
["inputs"],"all numeric, boolean and string literals in every position a literal may take",
"Tests try around forty literals; range limits per radix and sign, underscores, exponent forms, escape sequences next to quotes and multi-byte characters in strings form an unbounded space.",
[LEX,PARSE],[("number scanning",LEX+":lex_number"),("checked integer parsing",PARSE+":parse_literal_integer"),("float fallback",PARSE+":parse_literal_float"),("escape decoding",PARSE+":parse_string")],["value passed to a formatter or filter","Engine::compile result"])

p("C08","A dotted path yields exactly the addressed value or an error",
"A direct path evaluates to exactly the element reached by following each segment through map keys and zero-based list indexes, whatever the depth and wherever the root name is bound. If a key is missing, an index is out of range, or a segment is applied to a value of the wrong type, rendering fails with an error at that segment, and never yields another value or falls back to an outer variable once the root name was found.",
["inputs"],"all contexts, all paths of any length over keys and indexes, roots bound by the context, with, for or an included template's own context",
"Tests use paths of at most three segments over tiny contexts; four distinct lookup routines (context, with variable, loop variable, borrowed/owned) must agree on every path and context.",
[VAL,STACK,ITER],[("path lookup over borrowed and owned values",VAL+":lookup_path, lookup_path_maybe, lookup"),("stack search",STACK+":lookup_var"),("loop variable lookup",ITER+":lookup_var")],["rendered output","render error location"])

p("C09","Optional access yields none exactly when the member is absent",
"With optional access, a missing key or out-of-range index makes the whole path evaluate to none, which is falsy and renders as nothing by default; a member that exists evaluates as with direct access. It holds wherever the root name is bound (context, with, loop variable, the loop object), never falls through to an outer variable of the same name, and still fails when the accessed value is neither indexable nor keyed as the segment requires.",
["inputs"],"all contexts and all paths mixing direct and optional segments, in every binding position",
"Existing tests exercise optional access on plain context maps; the behaviour must be the same through loop variables, shadowed names, owned values, nested optional segments and filter arguments.",
[VAL,ITER,STACK],[("optional member handling",VAL+":lookup"),("optional member through loop variables",ITER+":lookup_var, lookup_loop")],["rendered output"])

p("C10","A conditional renders exactly the first branch whose condition is truthy",
"Exactly one branch of a conditional is rendered: the first if / else if whose condition (after not) is truthy, else the else branch if present, else nothing; conditions after the chosen one are not evaluated. Falsy values are exactly none, false, integer 0, float zero of either sign, and the empty string, list and map; every other value is truthy.",
["inputs","programs"],"all conditions over all values, all chain lengths and nestings",
"Tests cover short chains with a few values; desugaring of else-if chains into nested jumps has to be right for every chain length, negation pattern and nesting, and for every value.",
[COMP,CORE,VAL,PARSE],[("jump compilation",COMP+":compile_stmt IfElse"),("truthiness",VAL+":as_bool"),("else-if desugaring",PARSE+":parse_template EndIf")],["rendered output","callback trace"])

p("C11","A loop renders its body once per item, in order, with correct bindings",
"A for loop renders its body exactly once per item of a list in order, or per entry of a map in ascending key order, with the loop variables bound to that item or that key and value; loop.index, loop.first and loop.last always describe the innermost enclosing loop's position, and the outer loop's again after an inner loop ends. An empty collection renders nothing, and a non-iterable value or a wrong number of loop variables is an error.",
["inputs","programs"],"all iterables (borrowed from the context or owned results of filters), all nestings, all lengths",
"Tests iterate lists of at most a few elements, mostly borrowed; there are four iterator representations, nested loop state and restoration after inner loops that must agree at every length and nesting.",
[ITER,CORE,COMP],[("loop state machine",ITER+":LoopState"),("LoopStart/LoopNext",CORE+":render_one"),("loop compilation",COMP+":compile_stmt ForLoop")],["rendered output"])

p("C12","Names resolve to the innermost live binding and bindings end with their block",
"A name evaluates to the value bound by the innermost enclosing with or for block (evaluated outside that block's own scope), otherwise to the template's context; an inner binding hides outer ones of the same name and stops existing when its block ends, leaving outer bindings unchanged. A name bound nowhere is an error.",
["programs","inputs"],"all nestings and sequences of with, for, if and include blocks over a small set of clashing names",
"Tests shadow one name one level deep; push/pop discipline of the render stack across nested blocks, loops that run zero times, includes and skipped branches is a property of all programs.",
[STACK,CORE,COMP],[("stack search innermost-out",STACK+":lookup_var"),("WithStart/WithEnd, loop push/pop",CORE+":render_one")],["rendered output"])

p("C13","Include splices the named template; include-with isolates it",
"A plain include renders exactly what the named template would render at that point with all the includer's variables (including loop state) visible; include with an expression renders it with that value as its only context and none of the includer's variables visible. After the include, the includer's own bindings are exactly as before; the named template is looked up by exact name at render time, in the resolver function if one is given and else in the engine, and an unknown name is an error.",
["programs","inputs"],"all template sets with nested includes of both kinds inside any blocks, via engine registry or resolver function",
"Tests have a few single-level includes; isolation boundaries, restoration of scope after nested includes of both kinds and per-render resolvers interact in ways only composed programs show.",
[CORE,STACK],[("template stack and boundary push/pop",CORE+":render"),("boundary stops search",STACK+":lookup_var"),("resolver versus registry",CORE+":get_template")],["rendered output","resolver call trace"])

p("C14","The include depth limit is exact",
"A render succeeds if and only if (all else being fine) the number of simultaneously active templates, counting the root, never exceeds the limit (a root that includes nothing always renders); otherwise it fails with an error that reports the limit, so self-including templates always terminate. The limit is 64 unless changed on the engine, a limit set on the renderer overrides it for that render only, and completed sibling includes do not count.",
["inputs","configurations","programs"],"all limits, all include graphs (chains, trees, cycles, data-driven recursion), both include kinds and both template sources",
"Tests render one infinite recursion; exactness at the boundary, for siblings, override precedence and mixed include kinds is not tested.",
[CORE,LIB,RMOD],[("depth check after each step",CORE+":render"),("engine default and renderer override",RMOD+":with_max_include_depth")],["rendered output","error reason"])

p("C15","A filter chain is function application from left to right",
"An expression with filters evaluates to the left-to-right composition of the functions registered under the given names at render time, each receiving the previous result and its own arguments evaluated in the current scope; this is the same in inline expressions, conditions, loop iterables, with values and include contexts. An unregistered name, or a formatter used anywhere but as the last step without arguments of an inline expression, is an error and is never silently skipped.",
["programs","inputs"],"all chains of any length, in every expression position, with filters and formatters registered or missing",
"Tests apply one or two filters; composition order, argument scoping, dispatch between filter and formatter at the last step and all expression positions multiply beyond what is sampled.",
[CORE,COMP,PARSE],[("Apply/EmitWith dispatch",CORE+":render_one"),("last call becomes EmitWith",COMP+":pop_emit_expr"),("call chain parsing",PARSE+":parse_expr")],["rendered output","filter call trace"])

p("C16","Every supported filter signature receives the piped value and arguments in order",
"For every supported function shape (one piped value, owned or by reference, and zero to four arguments, owned or string reference), the function is called with the piped value first and the template's arguments in the written order, each unchanged. Its return value, or for a fallible function its success value, becomes the value of the expression.",
["inputs","configurations"],"all 155 function shapes over borrowed and owned values, literal and variable arguments",
"The implementations are machine-generated for each combination of owned and reference positions and the tests instantiate only a few; a transposed argument in one shape would pass them all.",
[IMPLS,FILT],[("generated impls per shape",IMPLS),("argument extraction per arity",FILT+":FilterArgs for tuples")],["arguments recorded by the registered function"])

p("C17","Filter arguments convert exactly or the call fails before the function runs",
"A filter runs if and only if the number of arguments matches and every value converts to the declared parameter type without loss: integers only when in range of the type, floats only to float types (rounded to nearest for the 32-bit one), strings, lists, maps, booleans and none only to their own kind, and a generic value accepts anything. Otherwise rendering fails with an error located at the filter name (count or piped value) or at the offending argument, and the function is never called with an altered value.",
["inputs"],"all values against all parameter types in every position, including the limits of every integer type",
"Tests check a few mismatches; every pair of value kind and parameter type, at the numeric boundaries, through three conversion paths (piped, borrowed argument, owned argument) is untested.",
[ARGS,FILT],[("FilterArg conversions",ARGS),("count check and error mapping",FILT+":check_args, err_expected_arg, err_expected_val")],["whether the function was called and with what","render error location"])

p("C18","Formatters decide the emitted text of every expression, exactly once",
"Each inline expression is formatted exactly once: by the formatter named as its last step, otherwise by the engine's default formatter (including after a final filter), and the text it writes appears unchanged at that place. The built-in default writes nothing for none, true/false, integers and floats as Rust displays them and strings unescaped, and rejects lists and maps with a format error.",
["inputs","configurations"],"all values, all formatters including ones writing nothing, in many pieces or failing midway, and all positions",
"Tests use one custom formatter; exactly-once formatting and the default/named/after-filter dispatch need to hold in all positions and for all values.",
[CORE,FMT,COMP],[("Emit/EmitWith",CORE+":render_one"),("default formatter",FMT+":default")],["formatter call trace","rendered output"])

p("C19","An error points at the exact place in the right template",
"The alternate display of a syntax or render error names the template it occurred in (the root's or the included template's registered name, or anonymous for an unnamed root), the one-based line and display column where the offending construct begins, and quotes that line with the construct underlined. This holds for any text before it, including multi-byte and wide characters, tabs, CRLF lines, and errors at the end of the source. The error's debug form, which unwrapping it prints, begins with that display.",
["inputs"],"all failing templates and contexts: every error cause at any position in any text, nested in any includes",
"Tests assert about a hundred positions, all in short ASCII sources with few lines; column and line arithmetic over other text and attribution through includes cannot be enumerated by examples.",
[ERR,CORE,PARSE,LEX],[("line/column computation",ERR+":to_ln_col, Pretty::build"),("template name attachment",CORE+":render"),("spans from lexer/parser",PARSE)],["format!(\"{:#}\", error)"])

p("C20","The right kind of error is reported and callback messages pass through unchanged",
"Every failure is reported as the kind it is (invalid syntax, render, filter, format, serialize or io error), and the message returned by a user's filter, formatter, resolver, value function or serializer appears unchanged as its reason. Only io errors carry an underlying source, and it is the writer's own error; while rendering, the first failure encountered is the one reported.",
["inputs","fault_sequences"],"all failure causes at all points of a render, with arbitrary messages",
"Tests check one example of each; precedence between simultaneous failure sources and pass-through of arbitrary messages from every callback position is not sampled.",
[ERR,CORE,FMT,FILT,RMOD],[("error constructors and kinds",ERR),("mapping in the renderer",CORE+":render_one"),("writer error recovery",RMOD+":to_writer")],["Display of Error","Error::source"])

p("C21","Rendering to a writer equals rendering to a string under every IO fault",
"Rendering to a writer delivers exactly the bytes of the string rendering, in order, regardless of short writes or interrupted writes. If the writer fails at any point, the bytes already accepted are exactly a prefix of that string, nothing is written after the failure, and the writer's own error is returned as an io error; if rendering itself fails, what was written is exactly the output produced before the failing construct.",
["fault_sequences","inputs"],"every failing write index, every error kind, short/interrupted/zero-length write behaviours, for any template",
"Tests use one always-failing writer; behaviour at each individual write, with partial acceptance and interleaved formatter output, needs fault enumeration.",
[FMT,RMOD,CORE],[("fmt-to-io adapter remembering the error",FMT+":Writer"),("error precedence",RMOD+":to_writer")],["bytes accepted by the writer","returned error"])

p("C22","Serializable data converts to exactly the documented value",
"Converting serializable data yields the structurally corresponding value: integers within the signed 64-bit range exactly (128-bit types may be rejected instead), floats widened exactly, characters and strings as strings, sequences, tuples and bytes as lists in order, maps and structs as maps with every entry (last duplicate wins), options transparently, unit as none, unit variants as their name and other variants as a one-entry map. Data that cannot be represented (larger integers, non string-like keys, failing serializers) is a serialize error, never a truncated or partial value, and converting a value again returns an equal value.",
["inputs"],"all data in the serde data model, any nesting",
"Tests convert a few structs; the serde data model has 29 shapes which nest and appear in key position, each with boundary values.",
[SER,SERM,"src/value/ser/list.rs","src/value/ser/variants.rs"],[("value serializer",SER),("map key serializer",SERM+":MapKeySerializer")],["upon::to_value"])

p("C23","Conversions and the value macro build exactly the value written",
"Converting Rust primitives, strings, options, arrays, vectors, maps and iterators into a value, and the value macro, produce the structurally equal value: numbers exact, order of list items kept, every map entry present with the last duplicate winning, and none for absent options. The same data built by conversion, by the macro or through serialization is equal and renders identically.",
["inputs"],"all supported source types over their full value ranges, nested arbitrarily, and macro forms with any nesting and trailing commas",
"Tests convert a couple of examples; there are some twenty conversion impls and a recursive macro whose rules overlap.",
[FROM,MAC],[("From/FromIterator impls",FROM),("value! muncher",MAC)],["resulting Value"])

p("C24","All ways of supplying the context and the template give the same result",
"Rendering the same template with the same data gives the same output, or the same error, whether the data is passed as serializable data, as a value, or through a value function that answers each path from that data, and whether the template is stored in an engine or compiled standalone, from owned or borrowed text. A value function sees exactly the paths the template mentions that are not bound inside it, with each segment's key or index and access mode.",
["inputs","configurations"],"all templates and data, three context sources, stored or standalone templates",
"Tests exercise each entry point separately on trivial templates and never compare them.",
[RMOD,STACK,LIB],[("three Globals variants",RMOD+":Renderer"),("value function path construction",STACK+":lookup_var")],["rendered output","value function call trace"])

p("C25","Callbacks run exactly once each, in document order, and never for skipped code",
"During a render the user's value function, include resolver, filters and formatters are invoked exactly once per evaluation of the construct that mentions them, in document order (piped value, then arguments left to right, then the call), with exactly the evaluated values. Nothing is invoked for branches not taken, for loops over nothing, or after the first failure.",
["programs","inputs","fault_sequences"],"all programs with side-effecting callbacks, failing at any call index",
"Tests only look at output, so duplicated, reordered or speculative calls are invisible to them unless they change the text.",
[CORE,FILT,STACK],[("sequential instruction execution",CORE+":render_one"),("argument evaluation",FILT+":get_arg")],["event log recorded by callbacks"])

p("C26","Rendering is repeatable and leaves no state behind",
"Rendering never changes the engine, the compiled templates or the context: repeating a render gives an identical result and identical callback invocations, whatever other renders (successful, failing, or unwinding from a panicking callback) ran in between. Two templates compiled from the same source, or an engine rebuilt the same way, behave identically.",
["histories","inputs"],"all sequences of renders over shared engines, templates and contexts, with failures and panics injected",
"Each test renders once and discards everything; leftovers from an aborted render or mutation of shared data would only show in histories.",
[CORE,LIB,RMOD],[("render state owned by the renderer",CORE+":RendererImpl"),("values borrowed or cloned, never mutated","src/value/cow.rs:take")],["rendered output across a history"])

p("C27","A shared engine can be rendered from many threads concurrently",
"Engine, templates and values can be shared between threads, and any number of threads compiling and rendering concurrently on one engine each get exactly the result they would get alone, without data races. This includes failing renders and panicking callbacks on other threads.",
["schedules","inputs"],"all interleavings of concurrent renders and compiles on a shared engine",
"All tests are single threaded; hidden shared mutable state (caches, globals, thread locals) is invisible to them.",
[LIB,CORE],[("no interior mutability; functions are Send + Sync",LIB+":Engine")],["per-thread rendered output","race detector"])

p("C28","The engine's registry behaves as a map from names to templates and functions",
"The engine behaves as two independent maps: adding a template or a function under a name replaces the previous one, removing deletes exactly that entry and reports whether (and what kind of function) was there, and lookup returns precisely the latest entry for exactly that name. Adding a template that does not compile is an error naming that template and leaves everything as it was; changed functions take effect in already compiled templates, and templates compiled earlier are unaffected by later registrations of their own name.",
["histories"],"all sequences of add/remove/replace/get/render operations over any names, with failing additions",
"Tests perform one or two registry operations; atomicity of failures and replacement semantics are properties of histories.",
[LIB],[("BTreeMap registries",LIB+":Engine::{add_template,remove_template,add_filter,add_formatter,remove_function,get_template}")],["return values of registry operations","renders after each operation"])

p("C29","Disabling crate features does not change the behaviour of what remains",
"With any combination of the filters, serde and unicode features, every template that uses only what is still available compiles to the same result, renders the same output and reports the same kind of error at the same line and column as with all features (columns count characters without unicode, display width with it). Without unicode, identifiers are limited to ASCII and non-ASCII ones are rejected with a syntax error; without filters, using a filter name is an error rather than ignored.",
["configurations","inputs"],"all eight feature combinations, all templates",
"The test suite runs with default features only; conditional compilation makes eight different crates of which seven are never run.",
[LIB,LEX,ERR,CORE,"Cargo.toml"],[("cfg(feature) branches",CORE+":render_one; "+LEX+":is_ident; "+ERR+":display_width")],["results of the same corpus in each build"])

p("C30","Whether a value is borrowed or computed never changes the result",
"Replacing a variable by an equal value that is computed (passed through an identity filter, bound with a with block, supplied by a value function or passed as an include's context) never changes what is rendered. The only exception is the documented one: string reference parameters after the first accept only borrowed strings or literals.",
["programs","inputs"],"all programs and data, with identity rewrites at any expression",
"The renderer has separate code for borrowed and owned values in lookup, iteration and filter calls, and the tests mostly hit the borrowed one.",
["src/value/cow.rs",VAL,ITER,STACK,FILT],[("ValueCow borrowed/owned branches",VAL+":lookup_path"),("owned/borrowed loop states",ITER+":LoopState")],["rendered output of both variants"])

p("C31","Templates compose: concatenation, extraction and unrolling preserve output",
"Rendering the concatenation of two complete templates (when no trimming tag faces the seam and no delimiter forms across it) gives the concatenation of their renderings; moving a complete fragment into its own template and including it, wrapping it in an always-true conditional or (if it does not use an outer loop's state) a one-element loop over unused names, or unrolling a loop over literal copies of its body, leaves the output unchanged. If a part fails, the whole fails with the first failing part's error.",
["programs"],"all complete templates without trimming at the joint, all contexts",
"Relations between renders of different templates are never tested.",
[COMP,CORE,PARSE],[("jump targets relative to instruction position",COMP+":update_jump"),("template stack",CORE+":render")],["rendered outputs of related programs"])

p("C32","Rendering streams: memory is bounded and fully released",
"Rendering to a writer passes output on as it is produced, so memory held during a render depends on the template, the context and the nesting but not on how much output is produced or how many iterations have run, and a context passed by reference is not copied; rendering to a string takes, besides, no more than a small multiple of the sizes of the source and the output. After engine, templates and results are dropped all memory allocated on their behalf is released, also after errors.",
["inputs","histories"],"all templates rendered over growing iteration counts and repeated renders",
"No test observes allocation; buffering all output, accumulating stack entries per iteration or copying the context would pass every test.",
[RMOD,CORE,ITER,FMT],[("direct write-through",FMT+":Writer"),("in-place loop state",ITER+":iterate"),("borrowed globals",RMOD+":Globals::Borrowed")],["counting global allocator","order of writes and callbacks"])

p("C33","Compiling and rendering cost no more than in proportion to what there is to do",
"The processor time and memory needed to compile a template, or to report that it does not compile, grow in proportion to the length of its source, whatever the delimiters and however that length comes about (much text, many tags, one long tag, many templates). Rendering costs in proportion to the constructs executed and the output produced, times at most the number of enclosing scopes: it does not depend on code that is skipped, on parts of the context that are not used, or on the size of data that is only looked up, tested, bound to a name or passed on by reference.",
["inputs","configurations"],"all sources, delimiter configurations and contexts of growing size, dimension by dimension",
"Tests and benchmarks run small templates at one size; a cost that grows with the square of a dimension only shows at sizes they do not have, and is a denial of service wherever templates or data come from outside.",
[LEX,PARSE,"src/compile/search/mod.rs",CORE,STACK,VAL,ERR],[("delimiter search anchored at the cursor","src/compile/search/mod.rs:starts_with"),("errors constructed only when reported",ERR+":Pretty::build"),("borrowed values",VAL+":lookup_path")],["thread CPU clock","counting global allocator"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
    print(x['id'],len(x['title']),len(x['statement']))
