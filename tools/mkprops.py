#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, observe=(), hook=None, state=()):
    P.append((id, title, statement, over, text, why, files, mech, level_note, observe, hook, state))


prop('C01', 'Any script text is handled without corrupting or hanging the host',
     'Running any sequence of bytes as a script ends with a result or a reported error, never with an out-of-bounds or '
     'use-after-free access, undefined behaviour, an abort or endless parsing, however long, truncated, mutated or deeply '
     'nested the text is. Afterwards the same engine instance is idle and runs further scripts correctly.',
     ['inputs', 'programs', 'histories'],
     'every byte string given to the engine as source, including truncations and mutations of valid programs and very '
     'deep or long ones, on engines with any history',
     'The tests parse a few hundred well-formed snippets and a handful of syntax errors; they run without sanitizers and '
     'cannot sample truncation points, nesting depths and token soups.',
     ['src/mjs_tok.c', 'src/mjs_parser.c', 'src/mjs_exec.c', 'src/mjs_bcode.c', 'src/mjs_util.c'],
     [('token reader bounded by the terminating NUL', 'src/mjs_tok.c: pnext'),
      ('recursive descent parser with a nesting limit', 'src/mjs_parser.c: mjs_parse'),
      ('bytecode loop restoring all stacks on error', 'src/mjs_exec.c: mjs_execute')],
     'mutated, truncated, token-soup and deep sources under ASan/UBSan with a step limit and follow-up scripts')
prop('C02', 'Garbage collection is invisible',
     'What a script or host program computes and observes does not depend on when, how often or how thoroughly garbage '
     'is collected. No value that can still be reached from variables, running calls, pending expression operands, '
     'arguments, object prototypes, owned host values or registered callbacks is ever reclaimed, moved from under its user or altered.',
     ['programs', 'schedules', 'histories'],
     'every program and host call history, and every choice of collection points between and inside operations',
     'Collections in the tests happen at a few natural points; a missing root only shows if a collection strikes in the '
     'window between allocation and linking.',
     ['src/mjs_gc.c', 'src/mjs_exec.c', 'src/mjs_string.c', 'src/mjs_object.c', 'src/mjs_json.c', 'src/mjs_ffi.c'],
     [('mark phase over all roots', 'src/mjs_gc.c: mjs_gc'), ('string compaction', 'src/mjs_gc.c: gc_compact_strings'),
      ('values owned by the host', 'src/mjs_core.c: mjs_own')],
     'collections forced at every/any bytecode step with string relocation and freed-cell poisoning, events compared with a reference interpreter',
     ['after each bytecode instruction', 'at cell allocation, release and use'],
     'bytecode step, cell allocation/release/use and end-of-collection observation points')
prop('C03', 'Unreachable memory is reclaimed and nothing outlives the engine',
     'After a full collection the engine holds exactly the objects, properties and strings that are still reachable, '
     'so a script that drops its data in a loop runs in bounded memory. Destroying an engine releases every byte it allocated, '
     'whatever happened before, errors included.',
     ['programs', 'histories', 'fault_sequences'],
     'every script and host history, with and without errors, followed by a collection or destruction at any point',
     'Tests compare memory in one or two hand-written loops and do not run under a leak monitor.',
     ['src/mjs_gc.c', 'src/mjs_core.c', 'src/mjs_bcode.c', 'src/mjs_ffi.c', 'src/mjs_json.c', 'src/mjs_object.c'],
     [('sweep and string compaction', 'src/mjs_gc.c: gc_sweep'), ('engine destruction', 'src/mjs_core.c: mjs_destroy')],
     'exact live-cell counts against the reachability of a reference heap, allocation balance after destruction',
     ['snapshot of live cell counts', 'allocator byte count around an engine\'s life'], 'snapshot of live objects, properties, signatures and string bytes')
prop('C04', 'Expressions evaluate to the documented values',
     'Every expression evaluates its operands in source order exactly once, obeys the documented precedence, associativity, '
     'short-circuiting and assignment rules and yields the documented value for every operand type, including numeric edge cases; '
     'unsupported operand types give an error instead of a value. Spacing, comments, line breaks and redundant parentheses never change the meaning.',
     ['inputs', 'programs'],
     'every expression built from literals, variables, operators, calls and members over all value types and nestings',
     'Tests check tens of fixed expressions; combinations of operators, nestings and operand types are unbounded.',
     ['src/mjs_parser.c', 'src/mjs_exec.c', 'src/mjs_tok.c', 'src/mjs_conversion.c', 'src/mjs_primitive.c'],
     [('operator precedence parser', 'src/mjs_parser.c: parse_binary'), ('operator evaluation', 'src/mjs_exec.c: exec_expr, do_op')],
     'random expressions with effect-logging operands against a reference interpreter')
prop('C05', 'Statements, scopes and calls follow the language rules',
     'For every nesting of blocks, conditionals, loops, break, continue, return and function calls, statements execute in the '
     'order the language defines, each name refers to the innermost visible declaration at the time of use, and each call gets its own arguments, '
     'locals and this. Leaving a construct by any route restores the state of the enclosing one.',
     ['programs', 'inputs'],
     'every combination and nesting of statements, scopes, recursion and exits from them',
     'Tests cover each statement in isolation and a few nestings.',
     ['src/mjs_parser.c', 'src/mjs_exec.c', 'src/mjs_bcode.c'],
     [('jump emission and patching', 'src/mjs_parser.c: parse_for, parse_while, parse_if'),
      ('scope, call and loop stacks', 'src/mjs_exec.c: mjs_execute')],
     'random structured programs against a reference interpreter, stack balance snapshots')
prop('C06', 'Objects behave as maps with prototype inheritance',
     'For every sequence of property writes, reads, deletions, enumerations and prototype links, reading a property returns the value last '
     'written to it on the object or, failing that, on its nearest prototype, or undefined; writes affect only the named property of the receiving object, for every possible '
     'name including empty, long, numeric-looking and binary ones. Enumeration visits each own property that stays present exactly once and terminates, also when the loop changes the object.',
     ['histories', 'inputs'],
     'every history of property operations on any object graph (cycles and cyclic prototypes included), from scripts and from the host',
     'Tests use a few short names and shallow prototype chains, and never delete during enumeration.',
     ['src/mjs_object.c', 'src/mjs_exec.c', 'src/mjs_string.c'],
     [('property lists', 'src/mjs_object.c: mjs_get_own_property, mjs_set_internal, mjs_del, mjs_next'),
      ('prototype lookup', 'src/mjs_object.c: mjs_get_v_proto')],
     'random property histories against a reference map')
prop('C07', 'Arrays keep every element in its place',
     'For every history of indexed reads and writes, push, splice, deletion, length queries and host array calls, an array holds exactly the elements written at exactly their indexes, its length is one '
     'more than the highest index in use, and splice removes, inserts and shifts exactly the requested elements and returns the removed ones in order. '
     'Invalid arguments are reported or clamped without changing the array otherwise.',
     ['histories', 'inputs'],
     'every history of array operations with any indexes and counts, holes and non-index properties included',
     'Tests perform a few fixed splices and pushes.',
     ['src/mjs_array.c', 'src/mjs_exec.c', 'src/mjs_object.c'],
     [('array operations', 'src/mjs_array.c'), ('index access', 'src/mjs_exec.c: getprop_builtin, exec_expr')],
     'random array histories against a reference array')
prop('C08', 'Strings are exact, immutable byte sequences',
     'A string value never changes, and literals with escapes, concatenation, slicing, indexing, searching, comparison, length and code conversions give exactly the specified bytes for every content, '
     'including empty strings, embedded NULs, bytes above 127 and lengths around every internal representation boundary, and for out-of-range positions. '
     'Two strings are equal exactly if their bytes are, however they were made.',
     ['inputs', 'histories'],
     'every string content and length, every origin (literal, computed, host-owned) and every argument of the string operations',
     'Tests use short ASCII strings and miss the boundaries between inline, heap and foreign storage.',
     ['src/mjs_string.c', 'src/mjs_tok.c', 'src/mjs_conversion.c', 'src/mjs_builtin.c'],
     [('string representations and embedding', 'src/mjs_string.c: mjs_mk_string, mjs_get_string, embed_string'),
      ('literal unescaping', 'src/mjs_string.c: unescape')],
     'random strings around representation boundaries against a reference')
prop('C09', 'JSON parsing and serialisation are faithful',
     'Parsing a valid JSON text yields exactly the value it denotes, an invalid text is reported as an error without side effects, and serialising a value yields a JSON text that an independent JSON parser '
     'reads back as that value, for all nestings, key names, escapes and numbers within the printed precision. Neither direction modifies its argument.',
     ['inputs', 'histories'],
     'every JSON document and every JSON-representable value graph, and malformed variants of them',
     'Tests contain a few dozen documents of moderate size.',
     ['src/mjs_json.c', 'src/frozen/frozen.c', 'src/mjs_conversion.c'],
     [('callback-driven parser', 'src/mjs_json.c: frozen_cb, mjs_json_parse'), ('serialiser', 'src/mjs_json.c: to_json_or_debug')],
     'random documents and values against independent JSON code')
prop('C10', 'Errors are contained and reported exactly once',
     'When a script, callback, host function or file load fails at any depth, execution stops there, the host receives the right error code and message, effects before the error stay and nothing after it runs; a script with a '
     'syntax error has no effect at all. Afterwards the engine is idle, with no leftover frames, scopes or receiver, and later scripts and calls behave as if the failed one had simply ended.',
     ['histories', 'fault_sequences', 'programs'],
     'every error kind raised at every nesting position inside any history of scripts and host calls on one engine',
     'Tests check isolated error messages on mostly fresh engines.',
     ['src/mjs_exec.c', 'src/mjs_core.c', 'src/mjs_builtin.c', 'src/mjs_ffi.c'],
     [('unwinding', 'src/mjs_exec.c: mjs_execute (clean)'), ('error state', 'src/mjs_core.c: mjs_set_errorf, mjs_prepend_errorf')],
     'random failing histories against a reference interpreter, idle-state snapshots after each entry', ['stack depths when idle'],
     'snapshot of the stacks')
prop('C11', 'Native functions receive and return the right values',
     'A native function bound by a supported signature is called exactly once per script call, with each argument converted to the declared C type and in the declared position, and its result arrives in the script as the declared type with the same value. '
     'Unsupported signatures, missing symbols, wrong argument counts or types are reported as errors and the native function is not called.',
     ['inputs', 'programs', 'configurations'],
     'every supported combination of argument and result types, every argument value, and every malformed signature',
     'Tests bind about twenty signatures with one value each.',
     ['src/mjs_ffi.c', 'src/ffi/ffi.c'],
     [('signature parser', 'src/mjs_ffi.c: mjs_parse_ffi_signature'), ('argument marshalling', 'src/mjs_ffi.c: mjs_ffi_call2'), ('register-level call', 'src/ffi/ffi.c: ffi_call_mjs')],
     'generated native functions log every argument they receive; compared with the sent values')
prop('C12', 'Script callbacks called from native code work while registered',
     'A script function passed to native code as a callback is invoked with exactly the arguments native code passes, in the declared types and order and with its own user data, and its result reaches the native caller, each time it is called, until it is freed, '
     'across collections and while other callbacks come and go. Each registration is independent of all others, and an error inside a callback never corrupts the engine or the native caller.',
     ['histories', 'schedules', 'inputs'],
     'every history of registering, calling (immediately, later, nested) and freeing callbacks of all supported signatures',
     'Tests register one callback of five shapes and call it at once.',
     ['src/mjs_ffi.c', 'src/ffi/ffi.c', 'src/mjs_gc.c'],
     [('callback trampolines', 'src/mjs_ffi.c: ffi_cb_impl_generic, get_cb_impl_by_signature'), ('registered callbacks as roots', 'src/mjs_gc.c: gc_mark_ffi_cbargs_list')],
     'native callers log what callbacks receive and return; histories against a reference')
prop('C13', 'The embedding API keeps host and script views consistent',
     'Values created, read, converted, stored, enumerated, owned, disowned and called through the C API are the same values scripts see: each conversion round-trips, each store is visible to the other side, calls from C behave as calls from scripts, '
     'and values owned by the host stay valid until disowned. API calls with values of the wrong type return the documented neutral result or error and change nothing.',
     ['histories', 'inputs'],
     'every history of API calls interleaved with scripts and collections on any values',
     'Tests call each API function a few times with matching types.',
     ['src/mjs_core.c', 'src/mjs_object.c', 'src/mjs_array.c', 'src/mjs_string.c', 'src/mjs_primitive.c', 'src/mjs_exec.c', 'src/mjs_util.c'],
     [('tagged values', 'src/mjs_primitive.c, src/mjs_core.h'), ('host call entry', 'src/mjs_exec.c: mjs_apply'), ('ownership list', 'src/mjs_core.c: mjs_own, mjs_disown')],
     'a register machine of API calls against a reference heap')
prop('C14', 'Loading files is transparent and happens once',
     'Loading a file runs its statements in the caller\'s environment, or in the supplied scope object, and yields its value; a file already run successfully by name is not run again unless a scope object is supplied, and a failing load reports which file failed '
     'and why and can be retried. With bytecode caching enabled scripts behave identically whether the source or the cached form is executed.',
     ['histories', 'programs', 'fault_sequences', 'configurations'],
     'every set of files, load order, nesting, failure and repetition, with and without the bytecode cache',
     'Tests load two or three fixed files once.',
     ['src/mjs_builtin.c', 'src/mjs_exec.c', 'src/mjs_bcode.c', 'src/mjs_util.c'],
     [('load()', 'src/mjs_builtin.c: mjs_load'), ('file execution and .jsc cache', 'src/mjs_exec.c: mjs_exec_file, src/mjs_exec.c: mjs_exec_internal'), ('lookup by name', 'src/mjs_util.c: mjs_get_loaded_file_bcode')],
     'random file sets and load histories against a reference interpreter, source and cached form')
prop('C15', 'Errors name the true file and line',
     'When an error is reported, the trace lists, innermost first, the file and line of the failing operation and of every active call, for code of any length and layout, however the code was entered. '
     'Syntax errors name the line on which parsing failed.',
     ['programs', 'inputs'],
     'every layout, length and nesting of scripts, files, callbacks and loads in which an error is raised',
     'One backtrace test with a fixed short script.',
     ['src/mjs_util.c', 'src/mjs_bcode.c', 'src/mjs_parser.c', 'src/mjs_exec.c'],
     [('offset to line map', 'src/mjs_parser.c: emit_line_no, src/mjs_util.c: mjs_get_lineno_by_offset'), ('trace generation', 'src/mjs_core.c: mjs_gen_stack_trace')],
     'programs with planted failing calls at known lines')
prop('C16', 'Build options and platform do not change results',
     'The same scripts and host calls give the same results whatever initial jump size, collection aggressiveness, compiler, optimisation level or pointer width the engine was built with, for code of any length. '
     'No result depends on uninitialised memory.',
     ['configurations', 'programs'],
     'every program (long ones with long jumps and large literals included) in every supported build configuration',
     'The test suite runs in each configuration but only with its own short programs.',
     ['src/mjs_bcode.c', 'src/common/cs_varint.c', 'src/mjs_parser.c', 'src/mjs_features.h', 'src/mjs_gc.c'],
     [('variable-size jump offsets', 'src/mjs_bcode.c: mjs_bcode_insert_offset'), ('varint coding', 'src/common/cs_varint.c')],
     'the same cases in seven differently built engines against one reference')
prop('C17', 'Raw memory views read and write exactly the addressed bytes',
     'Reading or writing an integer, float or pointer through a raw memory accessor transfers exactly the addressed bytes with the requested size, signedness and byte order, touches no other byte, and reading back what was written yields the same value. '
     'Converting a native struct by its descriptor yields an object with exactly the described fields and their values.',
     ['inputs', 'configurations'],
     'every offset, size, signedness, byte order and content, and every struct layout',
     'Tests read and write one or two values per width.',
     ['src/mjs_dataview.c', 'src/mjs_util.c', 'src/mjs_ffi.c', 'src/mjs_builtin.c'],
     [('memory accessors', 'src/mjs_dataview.c'), ('struct conversion', 'src/mjs_ffi.c: mjs_struct_to_obj')],
     'random accesses in guarded buffers against a byte-level reference')
prop('C18', 'The utility library keeps its contracts at every size',
     'Growable buffers preserve every byte across any sequence of insertions, removals, resizes and trims, integer coding round-trips every value, bounded formatting never writes past its buffer and matches the standard result where the formats are common, '
     'and string comparison, search, tokenising and conversion helpers give exact answers for every input.',
     ['inputs', 'histories'],
     'every sequence of operations and every argument, at all sizes including zero and allocation boundaries',
     'The repository has no tests for these helpers at all beyond incidental use.',
     ['src/common/mbuf.c', 'src/common/cs_varint.c', 'src/common/str_util.c', 'src/common/mg_str.c', 'src/common/cs_file.c'],
     [('buffer operations', 'src/common/mbuf.c'), ('varint', 'src/common/cs_varint.c'), ('formatting', 'src/common/str_util.c: c_vsnprintf'), ('string views', 'src/common/mg_str.c')],
     'random operation sequences against byte-level references under ASan/UBSan')
prop('C19', 'Engine instances are isolated from each other',
     'Several engines in one process, used alternately or from different threads, never influence each other\'s globals, values, errors, callbacks, caches or memory, and destroying one leaves the others intact. '
     'Each behaves exactly as if it were alone.',
     ['schedules', 'histories'],
     'every interleaving of operations on any number of engines in one or several threads',
     'All tests use one engine at a time and one thread.',
     ['src/mjs_core.c', 'src/mjs_ffi.c', 'src/mjs_exec.c', 'src/mjs_parser.c', 'src/mjs_json.c'],
     [('all state is per instance', 'src/mjs_core.h: struct mjs')],
     'interleaved histories against per-instance references; threads under ThreadSanitizer')
prop('C20', 'Printing a value is exact and stays within its buffer',
     'The printed form of any value, whether by the script print function, to a stream or into a caller-supplied buffer, is the documented text of that value, and printing into a buffer of any size never writes beyond it, terminates the text and keeps as much as fits. '
     'Printing never changes the value or the engine state.',
     ['inputs', 'histories'],
     'every value (numbers of all magnitudes, strings of all bytes, nested and cyclic objects, functions) and every buffer size',
     'Tests print a few primitive values into ample buffers.',
     ['src/mjs_util.c', 'src/mjs_conversion.c', 'src/mjs_json.c', 'src/mjs_builtin.c', 'src/common/str_util.c'],
     [('value printing', 'src/mjs_util.c: mjs_jprintf'), ('number formatting', 'src/mjs_conversion.c: mjs_to_string')],
     'random values and buffer sizes against a reference printer')
prop('C21', 'The bundled C JSON library scans, prints and edits exactly',
     'Scanning a JSON document with a path or format returns exactly the addressed token, walking visits every element once with its path and exact text, printing produces the requested JSON, and setting or deleting a path changes nothing else in the document. '
     'Malformed documents give the documented error code and no access outside the text or output buffer.',
     ['inputs'],
     'every document, path, format and buffer size',
     'The repository has no tests for the C JSON interface; only the script-level JSON functions are tested.',
     ['src/frozen/frozen.c'],
     [('parser', 'src/frozen/frozen.c: parse_value'), ('scanner', 'src/frozen/frozen.c: json_vscanf'), ('printer', 'src/frozen/frozen.c: json_vprintf'), ('editing', 'src/frozen/frozen.c: json_vsetf')],
     'random documents, paths and formats against an independent JSON implementation')

prop('C22', 'The bundled script libraries keep their documented contracts',
     'A data view reads and writes numbers of every width, sign and byte order exactly within its bounds and refuses every offset outside of them; files written, appended, read, renamed and removed by scripts hold exactly the given bytes and report what happened, also when writing fails; mathematical functions return what the C library computes. '
     'This holds for all byte contents, offsets and operation sequences.',
     ['inputs', 'histories'],
     'every sequence of view, file and mathematical operations with any bytes, offsets, sizes and numbers',
     'The repository only loads these libraries for a handful of sample calls.',
     ['lib/api_dataview.js', 'lib/api_file.js', 'lib/api_math.js', 'src/mjs_dataview.c'],
     [('bounds check', 'lib/api_dataview.js: DataView._cl'), ('byte order', 'src/mjs_dataview.c'), ('chunked file access', 'lib/api_file.js'), ('foreign calls', 'src/mjs_ffi.c')],
     'histories of library calls against byte-array, file and libm references')

prop('C23', 'The command-line tool runs its arguments faithfully, whatever is logged',
     'The tool executes the given texts and files in order in one engine, stops at the first failure, prints the last value or else the stack trace and message, and rejects unknown flags with a failure status. '
     'Its output and status are the same for every debug level, with debugging support compiled in or not, with bytecode files generated, current, stale or damaged or not used; debug output accesses no memory it does not own.',
     ['inputs', 'configurations', 'histories'],
     'every command line, set of script files, debug level and build with or without debugging',
     'The unit tests never run the tool, and none runs with debug output enabled.',
     ['src/mjs_main.c', 'src/mjs_util.c', 'src/mjs_exec.c', 'src/common/cs_dbg.c'],
     [('argument handling', 'src/mjs_main.c: main'), ('disassembler and dump', 'src/mjs_util.c: mjs_disasm, mjs_dump'), ('logging', 'src/common/cs_dbg.c'), ('bytecode files', 'src/mjs_exec.c: mjs_exec_internal')],
     'random command lines of the real tool, sanitized, against the reference interpreter')


def main():
    done = [p for p in P if os.path.exists('%s/checks/c%s.py' % (V, p[0][1:]))]
    with open(V + '/properties.jsonl', 'w') as f:
        for (id, title, st, over, text, why, files, mech, note, obs, hook, state) in done:
            assert len(title) <= 80, title
            f.write(json.dumps({'id': id, 'title': title, 'statement': st,
                                'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                                'anchors': {'files': files, 'state': [], 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                                            'observe_at': list(obs), 'hook_needed': hook}}) + '\n')
    hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hooks:', '--grep=^verification hook:'], capture_output=True, text=True).stdout.split()
    m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py',
         'hooks': {'guard': 'MJS_VERIF', 'enable': '-DMJS_VERIF (lib/build.py compiles /repo/src with it and links harness/hooks.c)',
                   'source_commits': hooks},
         'checks': [{'property': p[0], 'quick_cmd': 'python3 checks/run.py %s --tier quick' % p[0],
                     'thorough_cmd': 'python3 checks/run.py %s --tier thorough' % p[0],
                     'technique': 'runtime monitoring: ' + p[8], 'level': 'exploration',
                     'level_note': 'held on the executions produced; reach comes from the random workload described in DESIGN.md'}
                    for p in done],
         'not_applicable': []}
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
