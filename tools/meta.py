#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of the wording)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why,
                  files=files.split(), mech=mech, technique=technique, note=note, observe=list(observe)))


GEN = 'The checked claim is bounded by the generated cases; nothing is claimed beyond what evidence counts.'

prop('P01', 'Programs evaluate as the R5RS semantics say',
     'Evaluating any program built from the R5RS expression types (variable reference, literal, call, lambda with fixed, '
     'optional and rest formals, if, set!, cond with => and else, case, and, or, let, let*, letrec, named let, do, begin, internal and '
     'top-level define, apply, map, for-each) yields the value, output and side-effect order that the R5RS lexical-scope, '
     'applicative-order semantics define, with operands evaluated exactly once. A variable reference denotes the innermost '
     'enclosing binding wherever the closure is called from, and every closure and every loop iteration has its own fresh locations. Ill-formed special '
     'forms, wrong argument counts and unbound variables raise an error instead of yielding a value.',
     'programs', 'all well-formed and nearly well-formed programs in the core language',
     'The tests evaluate a fixed list of small expressions; scope resolution caching, frame layout and the interaction of '
     'nested binding forms only show up in combinations of them.',
     'src/eval.c src/syntax.c src/env.c src/procedure.c src/list.c',
     [('environment frames and lookup', 'src/env.c'), ('eval/call trampoline', 'src/eval.c'), ('special forms', 'src/syntax.c')],
     'random program generation against a reference interpreter',
     'Generated programs are run by the real interpreter and by an independent definitional interpreter in Python; values, printed effects and '
     'errors must agree.')
prop('P02', 'Tail calls run in bounded stack',
     'A call in a tail position of lambda bodies, if, cond (including =>), case, and, or, let, let*, letrec, begin, do result, '
     'and of apply and call-with-values, runs in constant native stack space, so a loop of any length written with tail calls, mutual recursion or loops of the do and named-let forms '
     'neither exhausts the stack nor accumulates live memory. Reading, writing, comparing, mapping over and otherwise traversing a list uses stack '
     'space independent of its length. The result is the same as for a short loop or list.',
     'programs', 'all compositions of tail contexts, any number of iterations',
     'Tests do at most small loops; each tail context and each composition has its own code path through the trampoline.',
     'src/eval.c src/syntax.c', [('SCM_VALTYPE_NEED_EVAL trampoline', 'src/eval.c, src/syntax.c')],
     'generated tail-context compositions run on a small native stack and bounded heap',
     'The stack limit is small enough that one native frame per iteration cannot fit.')
prop('P03', 'Continuations and dynamic-wind keep their order of effects',
     'Invoking a captured continuation within its extent delivers the passed values to its capture point and abandons everything in between, '
     'and every dynamic-wind before and after thunk runs exactly once per entry and exit, in nesting order, whether the exit is '
     'normal, by a continuation or by a raised condition. Invoking a continuation whose extent has ended raises an error and never '
     'corrupts the running computation.',
     'histories programs', 'all nestings of call/cc, dynamic-wind, escapes and raises',
     'The tests walk a few fixed nestings; the wind list and the escape frames are global state whose faults need particular sequences.',
     'src/continuation.c src/module-srfi34.c lib/sigscheme-init.scm',
     [('dynamic extent stack', 'src/continuation.c'), ('setjmp/longjmp continuation frames', 'src/continuation.c')],
     'random nesting histories against a reference model of escapes and winds',
     'One-shot escaping (nested) continuations are what this implementation provides; re-entry is only checked to be reported as an error.')
prop('P04', 'Raised conditions reach the right handler with the right object',
     'raise, error and every error signalled by a built-in reach the innermost handler installed by '
     'with-exception-handler or guard in the dynamic context of the raise, and the handler runs with the outer handler installed. guard selects '
     'the first matching clause, supports => and else, re-raises to the outer handler when no clause matches, and returns the clause value from the '
     'guard form. Error objects carry their message and irritants unchanged and satisfy the error predicates.',
     'programs histories', 'all nestings of handlers, guards and raises',
     'Handler stack handling goes wrong only in nestings (raise inside a handler, inside a reraise, across a continuation) that the samples do not enumerate.',
     'src/module-srfi34.c src/error.c src/module-srfi23.c', [('handler stack', 'src/module-srfi34.c'), ('error objects', 'src/error.c')],
     'random handler nestings against a reference model', 'The model covers non-continuable raise and handler return as an error.')
prop('P05', 'Promises, multiple values and the binding forms that use them',
     'A promise made by delay evaluates its expression at most once and every force returns the first value that was computed, also '
     'when forcing is re-entrant or the expression raises. values passed to call-with-values, receive or let-values style receivers '
     'arrive unchanged in number and order. let-optionals*, and-let*, receive and case-lambda-like argument binding bind exactly as their specifications say, evaluating '
     'defaults and tests left to right only when needed.',
     'programs', 'all expressions built from these forms', 'Tests sample each form once or twice.',
     'src/promise.c src/procedure.c src/module-srfi2.c src/module-srfi8.c src/module-sscm-ext.c',
     [('promise tags', 'src/promise.c'), ('value packets', 'src/procedure.c')],
     'random programs against a reference interpreter', GEN)
prop('P06', 'Quasiquotation builds the specified structure',
     'A quasiquote template evaluates to the structure R5RS defines: unquoted expressions are evaluated once in order and inserted, '
     'unquote-splicing inserts the elements of a list, nested levels are tracked through lists, dotted tails and vectors, and '
     'everything else is copied literally. The template itself is never modified, so evaluating it again gives an equal fresh result.',
     'inputs programs', 'all templates of any nesting level and shape',
     'The translator works by copy-on-change state machines over lists and vectors; the number of shapes is unbounded.',
     'src/qquote.c', [('translator copy/splice state', 'src/qquote.c')],
     'random templates against a reference expander, run repeatedly', GEN)
prop('P07', 'Exact integer arithmetic and comparison are correct within range',
     'For all integers whose result is representable, +, -, *, quotient, remainder, modulo, abs, gcd, lcm, min, max, the comparison chain operators, '
     'the integer predicates, and the SRFI-60 bitwise operations return the mathematically exact result, for any number of arguments and in any call form. '
     'Operations documented to detect overflow or division by zero raise an error in exactly those cases, and no operand makes the interpreter crash.',
     'inputs', 'all operand tuples over the whole fixnum range of each storage layout',
     'Unit tests use small operands; sign, boundary and tag-bit mistakes show up only at particular magnitudes and argument counts.',
     'src/number.c src/module-srfi60.c src/storage-compact.h src/storage-fatty.h',
     [('fixnum tagging', 'src/storage-compact.h'), ('reduction operators', 'src/number.c, src/eval.c')],
     'differential against Python integers with boundary-biased operands', 'Multiplication and lcm do not detect overflow (documented); only representable results are compared for them.')
prop('P08', 'Numbers convert to text and back exactly',
     'For every fixnum n and every supported radix, number->string yields the canonical digits of n, string->number reads them back to n, '
     'and literals with any radix prefix, sign and leading zeros denote the right integer. string->number returns false for every string that is not a '
     'number in the given radix, and out-of-range literals raise an error rather than a wrong value.',
     'inputs', 'all integers x radices, all strings', 'Tests use a handful of values per radix.',
     'src/number-io.c src/read.c src/format.c', [('digit conversion', 'src/number-io.c')],
     'differential against Python int conversion plus round-trips', GEN)
prop('P09', 'Strings and characters behave as sequences of code points',
     'Every string and character operation (construction, length, ref, set!, substring, append, copy, fill!, conversion to and from lists, symbols and numbers, '
     'comparison and case-insensitive comparison, char predicates and case mapping) acts on strings as sequences of characters of the current encoding, whatever '
     'the byte width of each character is. A mutation changes exactly the addressed positions of exactly that string, and indices out of range raise an error leaving the '
     'string intact.',
     'histories inputs configurations', 'all operation sequences on strings mixing character widths, in every codec',
     'Mutation of multibyte strings moves bytes; only sequences with mixed widths, growth and shrinkage exercise it.',
     'src/string-procedure.c src/string.c src/char.c src/encoding.c',
     [('string-set! splice', 'src/string-procedure.c'), ('codec scan/decode', 'src/encoding.c')],
     'stateful model-based testing against Python lists of code points', 'Run under the UTF-8, EUC-JP, EUC-KR, EUC-CN, Shift_JIS and ISO-8859-1 codecs, partly with AddressSanitizer.')
prop('P10', 'List operations agree with the list model',
     'Every R5RS pair and list procedure and every SRFI-1 procedure returns the list value its specification defines for all arguments it '
     'accepts, sharing or copying structure only as specified, calling its procedure arguments on the specified elements in the specified order. '
     'Non-linear-update procedures leave their arguments unmodified, and arguments that are not lists of the required kind raise an error. ',
     'inputs histories', 'all argument lists, including dotted and circular ones where the specification accepts them',
     'SRFI-1 has over a hundred procedures with n-ary variants; tests sample each with a couple of lists.',
     'src/list.c src/module-srfi1.c lib/srfi-1.scm', [('list procedures', 'src/list.c'), ('SRFI-1 in Scheme', 'lib/srfi-1.scm')],
     'differential against a Python list model, with argument-mutation checks', GEN)
prop('P11', 'Vector operations agree with the array model',
     'Every R5RS and SRFI-43 vector procedure returns or stores exactly what its specification defines for all index ranges, fills, '
     'n-ary vector arguments and callbacks, including overlapping copies. Every index or range outside the vector raises an error instead of touching anything '
     'outside it, and an operation on one vector changes no other.',
     'histories inputs', 'all operation sequences, ranges and lengths including empty ones',
     'Range handling and overlapping copies depend on combinations of indices.',
     'src/vector.c src/module-srfi43.c lib/srfi-43.scm', [('vector storage', 'src/vector.c'), ('SRFI-43', 'lib/srfi-43.scm')],
     'stateful model-based testing against Python lists', GEN)
prop('P12', 'Equivalence, symbols and hash tables are consistent',
     'eq?, eqv? and equal? are equivalence relations, each refining the next, that decide identity, value and structure as R5RS defines; '
     'two symbols are eq? exactly when their names are equal, however they were made. A hash table behaves as a finite map under its '
     'equivalence for every history of insertions, updates, deletions, folds and copies, keys that are equivalent hash alike, and association-list searches agree with linear search.',
     'histories inputs', 'all object pairs and all operation histories', 'Rehashing, deletion chains and equality of odd objects need particular histories.',
     'src/list.c src/sigscheme.c src/symbol.c lib/srfi-69.scm src/module-srfi69.c',
     [('equal?', 'src/sigscheme.c'), ('symbol interning', 'src/symbol.c'), ('hash tables', 'lib/srfi-69.scm')],
     'stateful model-based testing and relation laws over generated objects', GEN)
prop('P13', 'Sorting and merging are correct and stable',
     'sort, sort!, merge, merge! and sorted? on lists (and sort, sort! and sorted? on arrays, when the program has defined the array procedures before it loads the library), with any strict weak order and optional key, return the stable sorted permutation of '
     'the input (of both inputs, those of the first before equal ones of the second); sort and merge leave their arguments unmodified, however the comparison is left. The key is '
     'called at most once for each element, and a sequence that is no list raises an error.',
     'inputs', 'all sequences and orders', 'Stability and merge boundaries depend on the pattern of ties and lengths.',
     'lib/srfi-95.scm src/module-srfi95.c', [('merge sort', 'lib/srfi-95.scm')],
     'differential against Python stable sort with tagged elements', GEN)
prop('P14', 'Written data reads back equal and the reader accepts exactly the syntax',
     'For every datum made of booleans, fixnums, characters, strings, symbols with a plain spelling, pairs and vectors, reading what write produced yields an '
     'equal? datum and writing that yields the same text. The reader maps every text to the sequence of data its lexical syntax denotes, '
     'whatever whitespace, comments, radix prefixes, escapes, quotation abbreviations or dotted notation it uses and however long its tokens are, and reports an error for text '
     'outside the syntax. display shows the same structure with characters and strings raw.',
     'inputs', 'all data and all texts', 'Tests read and write a fixed list of literals.',
     'src/read.c src/write.c src/port.c', [('token buffers and char classes', 'src/read.c'), ('escapes', 'src/port.c, src/write.c')],
     'round-trip fuzzing and differential against a reference reader', 'The reference reader was written from R5RS/R6RS and doc/spec.txt and is part of the trusted base.',
     ['write', 'display', 'read'])


prop('P15', 'Shared structure is written faithfully and in finite text',
     'write-with-shared-structure (write/ss) writes every object graph, cyclic or not, in a finite text whose datum labels denote a graph isomorphic to the original: exactly the '
     'objects (pairs, vectors, closures, non-empty strings) that are reached more than once carry a label, each label is defined once and before it is used, and a graph without sharing '
     'is written as write does. Messages of errors with cyclic irritants are finite likewise. A call that fails in the middle does not affect later ones.',
     'inputs histories', 'all object graphs', 'Labels are assigned by a hash table of addresses over a traversal in two passes; particular graphs and sizes are needed for it to go wrong.',
     'src/write.c', [('scan and label tables', 'src/write.c')],
     'random object graphs; the output is parsed back and compared for isomorphism with the generated graph', GEN)
prop('P16', 'Character codecs decode and encode exactly their encodings',
     'Under each supported encoding (UTF-8, EUC-JP, EUC-KR, EUC-CN, Shift_JIS, ISO-8859-1) text read from a port, a string or a literal is split into exactly the '
     'characters that the encoding defines, and written back byte for byte; string->list, string-length and integer->char agree on the code values. Byte sequences '
     'that are malformed in the encoding raise an error, or are kept as they are, but never make the interpreter read outside the string, crash or mix up the neighbouring characters. '
     'with-char-codec uses the named codec for exactly the extent of its thunk and restores the former one however it is left.',
     'inputs configurations', 'all texts in all supported encodings, well-formed and malformed',
     'The tests have a few Japanese literals per codec; width classes, borders and truncated sequences are many.',
     'src/encoding.c src/scmport-mbchar.c src/module-sscm-ext.c src/string.c',
     [('scan/decode/encode per codec', 'src/encoding.c'), ('incremental decoding of ports', 'src/scmport-mbchar.c')],
     "differential against Python's codecs over generated well-formed and corrupted texts", 'Multibyte ports see the text in arbitrary pieces; partly run with AddressSanitizer.')

prop('P21', 'Garbage collection never changes what a program computes',
     'Whenever a collection happens, between any two allocations of any program, in each storage layout, the values, output and errors of the program are the same as '
     'without it: no object that is still reachable, or that a built-in procedure, the reader or the evaluator is still working on, is reclaimed or overwritten. '
     'Unreachable objects are reclaimed, so a program whose live data is bounded runs in a bounded heap for any length of time, and finalisation releases everything once.',
     'schedules programs configurations', 'all programs and all positions of collections in them',
     'A collection happens only when the free list runs out, which tests hardly provoke and never at each allocation of a built-in.',
     'src/storage-gc.c src/storage.c src/storage-compact.h src/storage-fatty.h',
     [('mark and sweep', 'src/storage-gc.c'), ('conservative roots', 'libgcroots via src/storage-gc.c'), ('object initialisation', 'src/storage.c')],
     'the generated programs of the other properties, rerun with collections forced at chosen and at every Nth allocation',
     'The forced collections use the collector of storage-gc.c compiled with a wrapper around scm_alloc_cell in /verif/harness/gcs.')

prop('P17', 'Ports deliver and keep exactly the text that was given to them',
     'For every history of operations on any number of string and file ports, each input port yields exactly the characters of its source in order (read-char, peek-char, read and end of file '
     'agree; later changes of the source string do not matter) and each output port accumulates exactly what write, display, newline and write-char put, visible by get-output-string, or in the file after the port '
     'is flushed or closed. The current ports are those of the innermost with-input-from-file or with-output-to-file extent and the former ones again however that extent is left. '
     'Operations on a closed port or in the wrong direction, and data lost on a failing device, raise an error; a port can be closed or dropped in any state without affecting anything else.',
     'histories', 'all histories of operations on any number of ports', 'Buffering, look-ahead, closing, sharing and failures of ports combine in histories that no fixed test lists.',
     'src/port.c src/scmport-file.c src/scmport-str.c src/scmport-mbchar.c src/scmport-basechar.c src/module-srfi6.c lib/sigscheme-init.scm',
     [('port objects and life cycle', 'src/port.c'), ('byte ports', 'src/scmport-file.c, src/scmport-str.c'), ('extents', 'lib/sigscheme-init.scm')],
     'stateful model-based testing with a model of ports and files, and devices that fail', GEN,
     ['values of port operations', 'contents of written files'])

prop('P18', 'format renders exactly what its directives define',
     'format (SRFI-28, SRFI-48) and format+ copy the format string, replace every directive by the text SRFI-28/48 define for it (~a ~s ~w ~d ~x ~o ~b ~c ~y ~% ~~ ~t ~_ ~& ~? ~k and ~F with width; '
     'format+ also widths and zero padding of the integer directives), consume the arguments one by one in order, and deliver the text to the given port, the current output port or as a new string. A missing or superfluous '
     'argument, an argument of the wrong type, an unknown or incomplete directive, and a directive not in the dialect raise an error.',
     'inputs', 'all format strings and argument lists', 'The directives, widths, nesting and encodings combine freely; the tests give each directive a few arguments.',
     'src/format.c src/module-srfi28.c src/module-srfi48.c', [('format interpreter', 'src/format.c')],
     'random format strings and arguments against a reference formatter', GEN, ['text produced by format'])
prop('P19', 'The reader survives every byte sequence',
     'Reading any byte sequence in any of the encodings, well-formed or not, ends with data, parse errors and end of file: it never crashes, hangs, or touches memory it does not own, whatever the length of its tokens. '
     'It gives the same data and errors from a string and from a file, and everything it accepts can be written and is read back as the same data.',
     'inputs', 'all byte sequences in all encodings', 'Buffer boundaries, truncated and malformed sequences and exotic tokens cannot be enumerated by hand.',
     'src/read.c src/encoding.c src/scmport-mbchar.c src/number.c', [('lexer and parser', 'src/read.c'), ('multibyte port', 'src/scmport-mbchar.c')],
     'structured fuzzing (soup, mutation, long and deep tokens) under sanitizers, with string/file differential and write/read round trip', GEN, ['data and errors of read'])
prop('P20', 'No builtin or special form crashes; ill-typed calls are errors',
     'Whatever arguments they are given, the builtin procedures, the procedures of the bundled libraries and the special forms either return, raise an error or do not end: they never crash the interpreter, and afterwards '
     'the builtins work as before. A core procedure that is given a wrong number of arguments or an argument that is not of its documented type raises an error (for calls with make-string the length 0 excepted).',
     'inputs', 'all calls of the builtins and all forms with the special forms as keywords, including malformed ones', 'The tests call each procedure with a handful of wrong arguments; the combinations with improper, circular, huge, closed and freed things are endless.',
     'src/eval.c src/syntax.c src/procedure.c src/list.c src/string.c src/vector.c src/number.c src/char.c src/port.c src/module-srfi34.c src/module-sscm-ext.c src/macro.c', [('argument collection', 'src/eval.c: call'), ('syntax checks', 'src/syntax.c')],
     'type-directed random calls and grammar-based malformed special forms under sanitizers, with a table of arities and types and a canary program as oracle', GEN, ['errors and values of calls'])
prop('P22', 'Programs behave the same under every storage, build and GC timing',
     'A program prints the same values, output and error messages, and raises the same conditions, under the compact and the fatty storage, with and without hygienic macros built in, at any optimisation level and with garbage '
     'collections at any moment. (Excepted are what the storages document as different: the range of integers, eq? of numbers and chars, and the mutability of list literals.)',
     'programs configurations', 'all programs, both storages, any GC timing', 'The tests run on each storage alone; that they agree beyond the tested values, in particular on what unusual calls return, is not looked at.',
     'src/storage-compact.h src/storage-fatty.h src/storage-gc.c src/storage.c src/write.c', [('object representations', 'src/storage-compact.h, src/storage-fatty.h'), ('collector', 'src/storage-gc.c')],
     'random nested calls of all builtins and bundled libraries, run on up to three builds and compared byte by byte', GEN, ['output and error messages of programs'])
prop('P24', 'Record types are disjoint and their fields keep their values',
     'After define-record-type, the constructor stores its arguments in the named fields in the named order, accessors return the last value stored by the constructor or the modifier, predicates hold exactly for records of that very type, '
     'records are neither vectors nor anything else, and using a constructor, accessor or modifier with a wrong number of arguments or an object of another type is an error that changes nothing. Redefining a type or the '
     'names involved does not affect existing records and procedures.',
     'histories', 'all histories of definitions, constructions, accesses and modifications', 'The tests define one null record and one pair; several types, permuted or missing constructor fields and redefinitions interact.',
     'src/module-srfi9.c lib/srfi-9.scm', [('definition expander', 'src/module-srfi9.c'), ('record representation', 'lib/srfi-9.scm')],
     'random histories over several record types against a model', GEN, ['values of record operations'])

prop('P25', 'The C API behaves the same in every life of the interpreter',
     'A program embedding libsscm may initialize, use and finalize the interpreter any number of times, with any storage configuration: every life starts from the same initial state (bindings, features, load path, registered functions), whatever the lives before did. '
     'Within a life, an object in a protected location, on the stack of a function called with scm_call_with_gc_ready_stack, or reachable from such an object keeps its value over all collections; a location is no root after it has been unprotected. '
     'Evaluating C strings, calling procedures with scm_call, converting lists to arrays and back, constructing and taking apart objects, registering C functions of every type code, aliases, features, require, load and library paths do what the equivalent Scheme does, including C functions that call back Scheme, are left by continuations or errors, or evaluate strings themselves. '
     'An unhandled error calls the fatal error callback and ends the process with a failure status.',
     'histories', 'all histories of API calls over all storage configurations', 'Only a few C unit tests exist and each covers one call in one life of the interpreter; the roots and the state left behind depend on the history.',
     'src/sigscheme.c src/storage-gc.c src/module.c src/procedure.c src/load.c src/eval.c src/error.c', [('lives', 'src/sigscheme.c scm_initialize, scm_finalize'), ('protected locations', 'src/storage-gc.c scm_gc_protect'), ('registration', 'src/module.c scm_register_func'), ('calls of C functions', 'src/eval.c call'), ('arrays', 'src/sigscheme.c scm_list2array')],
     'model-based histories of API calls by a C client linked with the library, over several lives, storage configurations and forced collections', GEN, ['what the client prints: written objects, accessor results, results of API calls, exit status'])

prop('P26', 'Constants cannot be modified, and copies do not share',
     'An attempt to modify a string or vector constant (a literal wherever it sits, an object that read returned, the name of a symbol; in the fatty storage a list constant as well) is an error that changes nothing, whichever procedure attempts it. '
     'Objects made by constructors and copying procedures can be modified, and a modification never shows in the object they were made from, in the arguments of apply, or in the name of a symbol.',
     'histories', 'all histories of making, copying and modifying strings, vectors and lists', 'The tests try one constant per mutator; which constant positions are frozen and which results share is a matter of every pair.',
     'src/string.c src/vector.c src/read.c src/storage-fatty.h src/storage-compact.h src/module-srfi43.c src/list.c', [('mutability flags', 'src/string.c'), ('literal vectors', 'src/read.c'), ('list constants', 'src/storage-fatty.h')],
     'random histories of copies and modifications against a model of ownership', GEN, ['values of strings, vectors and lists after each step'])

prop('P23', 'syntax-rules macros match, transcribe and stay hygienic',
     'In builds with hygienic macros, a macro use is replaced by the template of the first rule whose pattern matches it: literals match only an identifier of the same binding, constants match equal ones, an ellipsis takes all remaining elements of a list or vector, '
     'and in the template every pattern variable followed by ellipses yields one copy per matched element, in order, at any nesting depth. An identifier that the template introduces refers to what it meant where the macro was defined, a binding that the template introduces '
     'never captures an identifier of the use and the other way round, whatever names are chosen, for macros defined at top level, locally, recursively or by other macros. expand-macro yields the form that the use is replaced by, and match binds the variables of the first pattern that matches a datum. Malformed rules and uses that match no rule are errors.',
     'inputs', 'all programs with syntax-rules macros', 'The tests hold some forty hand-written uses; hygiene is about every combination of names, scopes and nested expansions.',
     'src/macro.c src/env.c src/syntax.c', [('matcher and transcriber', 'src/macro.c'), ('far symbols and environments', 'src/env.c'), ('keywords in bodies, cond, do, set!', 'src/syntax.c')],
     'random macros and programs with clashing names against a reference expander and evaluator', GEN, ['values of macro uses'])

prop('P27', 'The sscm command runs sessions, scripts and options as documented',
     'In an interactive session every datum of the input is evaluated in order in one lasting environment and its value is written after the output of the evaluation; an evaluation error is reported on the standard error (the message and the written irritants of an error object, or the written object of a raise), changes nothing else and the session goes on until the input ends (status 0) or exit is called. '
     'Data that the program reads itself are taken from the same input. A script is found under the current directory or by an absolute path, evaluated datum by datum without printing values, and ends with status 0, with the status given to exit, or with a failure status at the first unhandled error. '
     'The options of the command line and of the script prelude select the character encoding and the library path; an invalid option, encoding or path is refused with a message and a failure status, never a crash.',
     'histories', 'all inputs, scripts and argument vectors', 'The test suite runs the command only on well-formed test scripts; sessions, failing scripts and wrong options are not run at all.',
     'src/main.c src/load.c src/error.c src/sigscheme.c src/module-sscm-ext.c', [('session loop', 'src/main.c repl_loop'), ('options', 'src/sigscheme.c scm_interpret_argv'), ('prelude', 'src/load.c interpret_script_prelude')],
     'random sessions, scripts and option vectors run by the real sscm program against a model of transcript and status', GEN, ['standard output, number of error messages and exit status of sscm'])

prop('P28', 'define-macro macros are replaced by their expansion at each use',
     'Abstracting any part of a program into macros defined by define-macro does not change what the program does: the arguments reach the macro unevaluated, its body is evaluated in the toplevel environment, and the expansion is evaluated in the environment of the use, anew at each evaluation. '
     'A redefinition takes effect for later evaluations, a local variable of the same name hides the macro, and wrong numbers of arguments, a macro used as a value, a definition elsewhere than at toplevel or one whose value is not a toplevel closure are errors that leave other macros usable.',
     'histories', 'all programs with define-macro macros and all histories of their definition and use', 'The tests hold a few dozen macro uses; what is promised is that no program changes its meaning by abstraction.',
     'src/legacy-macro.c src/eval.c src/syntax.c', [('marking of the closure', 'src/legacy-macro.c scm_s_define_macro'), ('expansion', 'src/eval.c reduce of a syntactic closure')],
     'metamorphic: random programs with random subterms abstracted into macros must behave as before; model-based histories of definitions and uses', GEN, ['output and values of programs'])

prop('P29', 'Features, modules and load behave the same in any order',
     'A feature is provided exactly from the moment provide, use, require, require-extension or a module that includes it makes it so, and cond-expand evaluates at toplevel the body of the first clause whose requirement, any nesting of and, or, not and else, holds for the features provided then, and nothing else; without such a clause it is an error. '
     'Loading modules in any order, repeatedly, by any of the forms, gives each of them its functions and changes nothing that other modules or the core define beyond documented extensions; an unknown one is refused. '
     'load evaluates the data of the file in order in the toplevel environment, also in files loaded by files, stops at the first error or escape with what was done before kept, and leaves the current character encoding as it was, whatever prelude or setting the file has; require loads a file until it succeeded once.',
     'histories', 'all orders of loading modules, all feature expressions, all trees of files', 'The tests load each module once at the start of a test file, in one order, and hold a dozen cond-expand forms.',
     'src/module.c src/load.c src/module-srfi55.c src/module-sscm-ext.c lib/srfi-0.scm lib/srfi-55.scm lib/sigscheme-init.scm', [('feature list', 'src/module.c'), ('load', 'src/load.c scm_load_internal'), ('codec guard', 'lib/sigscheme-init.scm'), ('cond-expand', 'lib/srfi-0.scm')],
     'model-based histories of features and modules, random trees of files against a model of load', GEN, ['values and output of programs'])


prop('P30', 'The C API formats, converts and streams as documented',
     'Text that C code formats with scm_format, scm_error, scm_error_obj or its own error objects is exactly what its directives say for every argument, width, frame and modifier (raw C strings, words, pointers and chars as well as Scheme objects), and a directive that the given capability does not have is refused. '
     'scm_int2string, scm_string2number, scm_length and scm_list_tail return the exact digits, value, length class or tail for every input; C pointers and function pointers keep all their bits, through garbage collections, and are told apart. '
     'A port on a client-supplied byte stream takes from it exactly the bytes it needs, char-ready? never waits and is true exactly when a read would not, chars arriving in pieces are read as if whole, closing reaches the client once and further operations are refused; string ports call their finalizer exactly once; ports on a FILE that the client also uses read and write where the client left it.',
     'inputs and histories', 'all format strings and arguments, all integers, lists and pointers, all interleavings of client and port operations', 'The tests call the C formatter with three dozen fixed strings and never use custom byte ports, finalizers or shared files.',
     'src/format.c src/number-io.c src/list.c src/error.c src/port.c src/scmport-basechar.c src/scmport-mbchar.c src/scmport-sbchar.c src/scmport-str.c src/scmport-file.c src/storage-compact.h src/storage-fatty.h',
     [('C-level format', 'src/format.c scm_vformat, format_raw_c_directive'), ('conversion', 'src/number-io.c scm_int2string, scm_string2number'), ('char assembly', 'src/scmport-mbchar.c fill_rbuf'), ('pointers', 'src/storage-compact.h SCM_ISAL_C_POINTER*')],
     'model-based: a model of the format language, of byte streams that arrive in pieces and of a shared file, driven through procedures that expose the C API', GEN, ['values and errors of C API calls, bytes taken from and given to client streams'])
prop('P31', 'Registered C functions are called as their type declares',
     'A C function registered with any of the type codes (procedure or syntax, fixed or variadic, plain or tail-recursive, zero to five mandatory arguments), one by one, from a table or under an alias, is called with exactly the arguments of the call, in order, the rest of a variadic one as a list: evaluated once each for a procedure, as written for a syntax, with the environment of the call for a syntax. '
     'A call with too few, too many or an improper list of arguments, and applying or mapping a syntax, is an error, whether the call comes from an expression, apply, map, multiple values or scm_call. '
     'The result of a tail-recursive function is evaluated in the environment it leaves, in constant stack space, unless it says that the result is a value. A reduction operator is driven left to right over its operands with the documented states, and after it stops the rest are still evaluated.',
     'inputs', 'all function types, argument lists, calling procedures and environments', 'The built-in functions use a part of the types, each with its own arguments; the tests register no function.',
     'src/eval.c src/module.c src/sigscheme.h src/storage-compact.h src/storage-fatty.h',
     [('dispatch', 'src/eval.c call, scm_call'), ('reduction', 'src/eval.c reduce'), ('registration', 'src/module.c scm_register_func, scm_register_funcs, scm_define_alias')],
     'model-based: generated calls of functions of every type that report what they were called with; long loops through their tail positions on a small stack', GEN, ['values and errors of calls of registered C functions'])


CHECKED = sorted(os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(V, 'props', 'p[0-9][0-9]_*.py')))


def main():
    ids = [p['id'] for p in P]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            if p['id'] not in CHECKED and not os.environ.get('ALL'):
                continue
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'].strip(),
                quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                             observe_at=p['observe'] or ['values and output of evaluated programs'], hook_needed=None)),
                ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py',
             checks=[dict(property=p['id'], quick_cmd='./check.py %s --tier quick' % p['id'],
                          thorough_cmd='./check.py %s --tier thorough' % p['id'],
                          technique=p['technique'], level='exploration', level_note=p['note'] or GEN)
                     for p in sorted(P, key=lambda p: p['id']) if p['id'] in CHECKED],
             not_applicable=[],
             hooks=dict(guard='none', enable='no hooks are needed: the checks compile /repo/src as it is', source_commits=[]))
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    missing = [c for c in CHECKED if c not in ids]
    assert not missing, missing


main()
