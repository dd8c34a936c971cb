#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files.split(), mech=mech, state=state,
                  observe=list(observe), note=note))


prop('C01', 'The array list behaves as a sequence, for every operation history',
     'After any sequence of add, set, remove, get and size calls the list holds exactly the elements, in the order, that a plain sequence would hold, whatever the '
     'element size and contents, and growing it changes nothing but its capacity. Every invalid argument, out-of-range index, uninitialised or already initialised '
     'list and refused allocation is reported with the documented return code and leaves the contents as they were. No call reads or writes outside the '
     'allocated memory, and nothing is leaked after fini.',
     'histories inputs fault_sequences', 'every sequence of operations, every element size and value, every index, every pattern of refused allocations (within the bounds)',
     'The tests run a few fixed sequences with one element size; growth at every length, indices at the edges and failures at every allocation are not reached.',
     'src/array_list.c include/rcutils/types/array_list.h',
     [('bounds check and shift of elements', 'src/array_list.c: rcutils_array_list_remove, ARRAY_LIST_VALIDATE_*'), ('growth', 'src/array_list.c: rcutils_array_list_increase_capacity')],
     [('impl', 'size, capacity, data_size, list storage', 'src/array_list.c: struct rcutils_array_list_impl_s')])
prop('C02', 'Byte arrays keep their contents across every resize',
     'Resizing a byte array keeps the first min(old, new) bytes and the recorded length and capacity correct, for every length and every sequence of resizes. '
     'A zero size and a null argument are reported with the documented code and change nothing; a refused allocation is reported and leaves a consistent (possibly empty) array that can be used again, and nothing is leaked or freed twice.',
     'histories inputs fault_sequences', 'every sequence of init, resize and fini with every capacity, length and content, and every refused allocation',
     'The tests use one or two sizes; length against capacity in both directions and failure in the middle of a history are not covered.',
     'src/uint8_array.c include/rcutils/types/uint8_array.h',
     [('length clamp and reallocation', 'src/uint8_array.c: rcutils_uint8_array_resize')])
prop('C03', 'String arrays own their strings: init, resize, sort, compare, fini',
     'A string array created with n slots holds n null entries; resizing keeps the common prefix, frees dropped strings and nulls new slots; comparing orders two arrays as their strings compare one by one, then by length; '
     'sorting gives an ordered permutation. Null entries, null arguments and refused allocations get the documented codes, the array stays usable, and every string is released exactly once.',
     'histories inputs fault_sequences', 'every sequence of operations, sizes, null or set entries and string contents, and refused allocations (within the bounds)',
     'The tests sample a handful of arrays; holes, prefixes, resizes to any other size, and a failing resize are combinations they do not reach.',
     'src/string_array.c include/rcutils/types/string_array.h src/qsort.c',
     [('slot ownership', 'src/string_array.c: rcutils_string_array_resize, _fini'), ('ordering', 'src/string_array.c: rcutils_string_array_cmp, _sort_compare')])
prop('C04', 'Char arrays stay terminated and correct through every text operation',
     'Formatting, copying and concatenating into a char array yield exactly the text that the C library would yield in an unlimited buffer, null terminated and within the recorded capacity, growing as needed. '
     'An array that wraps a caller\'s buffer never frees or writes outside that buffer: it switches to memory of its own when it must grow. Null arguments are reported and change nothing; a refused allocation is reported and leaves a consistent (possibly empty) array that can be used again, and nothing is leaked or freed twice.',
     'histories inputs fault_sequences', 'every sequence of operations, every text and length limit, every starting capacity, owned or wrapped, every refused allocation',
     'The tests use literals of a few lengths; the exact-fit, one-short and not-terminated sources, and failures during growth, are not sampled.',
     'src/char_array.c include/rcutils/types/char_array.h',
     [('ownership flag', 'src/char_array.c: is_owner handling in rcutils_char_array_resize'), ('growth', 'src/char_array.c: rcutils_char_array_expand_as_needed, _vsprintf, _strncat')])
prop('C05', 'Splitting a string loses nothing and invents nothing',
     'Splitting at a delimiter yields exactly the maximal delimiter-free pieces, in order, without the empty ones; splitting at the last delimiter yields the text before it and the piece after it. '
     'This holds for every text, with delimiters leading, trailing or repeated; every returned string is terminated and owned by the result, and a refused allocation is reported without leaking.',
     'inputs fault_sequences', 'every text up to the bound, every delimiter, every refused allocation',
     'The tests list about a dozen texts; they miss repeated, leading and trailing delimiters in combination, and allocation failure at each point.',
     'src/split.c include/rcutils/split.h', [('two pass tokenizer', 'src/split.c: rcutils_split, rcutils_split_last')])
prop('C06', 'Replacing text replaces every occurrence, exactly once',
     'Replacing a substring gives the text in which all non-overlapping occurrences, found left to right, are replaced and everything else is kept, for every text, non-empty pattern and replacement, whether the result is longer, shorter or the same. '
     'The result is a newly allocated, terminated string; refused memory gives null and leaks nothing.',
     'inputs fault_sequences', 'every text, non-empty pattern and replacement up to the bounds, many occurrences (beyond the position cache), every refused allocation',
     'The tests have a few fixed texts and none that overlaps, or that grows the position cache while memory is refused.',
     'src/repl_str.c include/rcutils/repl_str.h', [('position cache and assembly', 'src/repl_str.c: rcutils_repl_str')])
prop('C07', 'Formatting and text comparison are exact up to the stated limit',
     'Formatting into a buffer of any size, or into a new string up to a limit, yields the text the C library formats, complete when it fits and cut at the limit otherwise, always terminated; null arguments, empty buffers, a zero limit and refused memory are reported. '
     'Case-insensitive comparison gives the sign the POSIX comparison gives, on at most the given number of characters, and reports null arguments. '
     'A character counts as alphanumeric exactly when it is an ASCII letter or digit.',
     'inputs fault_sequences', 'every format argument, buffer size, limit and pair of texts up to the bounds, every character, every refused allocation',
     'The tests try a few texts and one limit; the exact boundary and the error paths of the formatter are not exercised.',
     'src/format_string.c src/snprintf.c src/strcasecmp.c include/rcutils/format_string.h include/rcutils/snprintf.h include/rcutils/strcasecmp.h include/rcutils/isalnum_no_locale.h',
     [('two pass formatting', 'src/format_string.c: rcutils_format_string_limit'), ('', 'src/snprintf.c: rcutils_vsnprintf'), ('', 'src/strcasecmp.c')])
prop('C08', 'Allocator contracts: defaults, validity, reallocate-or-free',
     'The default allocator serves malloc, calloc, realloc and free semantics, the zero-initialised one is invalid, and an allocator counts as valid exactly when all its functions are set. '
     'Reallocate-or-free returns the new block with its contents kept, or releases the old block and returns null, for every pointer, size and allocator, and zero-allocation always yields zeroed memory.',
     'inputs fault_sequences', 'every subset of missing functions, every pointer and size, every outcome of the underlying allocator',
     'The allocator tests are outside the reliable set and check one size each; no test covers the subsets of missing functions or failing reallocation.',
     'src/allocator.c include/rcutils/allocator.h', [('', 'src/allocator.c: rcutils_reallocf, rcutils_allocator_is_valid')])
prop('C09', 'Environment access reads back what was written, or reports why not',
     'Setting, conditionally setting and unsetting an environment variable succeed exactly when the environment accepts the change, after which reading gives exactly the new value; a failure keeps the old value and sets an error message. '
     'Unset variables read as empty, null arguments and invalid names are reported, and the home directory is the value of HOME, or none when it is unset or empty.',
     'inputs fault_sequences histories', 'every name and value up to the bounds, every prior state of the variable, every failure of the environment',
     'The tests change one variable of the real environment and never see it refuse a change.',
     'src/env.c include/rcutils/env.h', [('', 'src/env.c: rcutils_set_env_overwrite, rcutils_get_env, rcutils_get_home_dir')])
prop('C10', 'The hash map is a map, for every hash function and history',
     'After any sequence of set, get, unset and iteration the hash map holds exactly the last value set for every key not unset since, whatever the hash function (all keys colliding included), key and value sizes, initial capacity and growth. '
     'Iterating visits every pair exactly once; sizes are exact; missing keys, null arguments, uninitialised maps and refused allocations give the documented codes and leave the map as it was. Nothing is leaked or accessed outside its memory.',
     'histories inputs fault_sequences', 'every sequence of operations on arbitrary keys with an arbitrary hash function, every refused allocation (within the bounds)',
     'The tests run fixed sequences with one hash function; collisions with growth and unset, iteration with holes, and failure while growing are not reached.',
     'src/hash_map.c include/rcutils/types/hash_map.h',
     [('bucket search and growth', 'src/hash_map.c: hash_map_find, hash_map_check_and_grow_map'), ('iteration', 'src/hash_map.c: rcutils_hash_map_get_next_key_and_data'), ('string keys', 'src/hash_map.c: rcutils_hash_map_string_hash_func/_cmp_func')],
     [('map', 'bucket lists, capacity, size', 'src/hash_map.c: rcutils_hash_map_impl_s')])
prop('C11', 'The string map is a map from strings to strings, for every history',
     'After any sequence of set, set without resize, unset, clear, reserve, shrink, copy and lookup, the string map holds exactly the last value set for every key, owning copies of keys and values; lookups by key prefix length match whole keys only. '
     'Size and capacity are exact, iterating the keys visits each once, and missing keys, a full map, null arguments and refused allocations get the documented codes without losing a pair or leaking.',
     'histories inputs fault_sequences', 'every sequence of operations over a pool of keys, every reserve size, every refused allocation, every key length',
     'The string map tests are outside the reliable set and run fixed sequences; holes after unset combined with reserve, shrink, iteration and failure are not reached.',
     'src/string_map.c include/rcutils/types/string_map.h',
     [('slot search', 'src/string_map.c: __get_index_of_key_if_exists'), ('reserve and shrink', 'src/string_map.c: rcutils_string_map_reserve'), ('growth', 'src/string_map.c: rcutils_string_map_set')])
prop('C12', 'Error messages are kept exactly, with their origin, until reset',
     'Setting an error stores the message, file and line exactly, shortened only when longer than the documented limits and always terminated; the error string is the message, file and line joined, also when the parts are at their limits. '
     'The error is set until it is reset, overwriting one prints both to standard error, and nothing set reads as "error not set". Initialising thread-local storage is idempotent and reports a bad allocator.',
     'inputs histories', 'every sequence of set, get and reset, message and file texts of every length around the limits, every line number',
     'The error handling tests are outside the reliable set and use a few short texts; lengths around each limit and digit counts of line numbers are not covered.',
     'src/error_handling.c src/error_handling_helpers.h include/rcutils/error_handling.h',
     [('bounded copy and formatting', 'src/error_handling_helpers.h'), ('error state', 'src/error_handling.c: gtls_rcutils_error_*')])
prop('C13', 'Each thread has an error state of its own',
     'Under every interleaving of threads that set, read and reset errors, each thread sees only the errors it set itself, with its own message, file and line, and never another thread\'s, and no thread\'s state survives into another.',
     'schedules', 'every interleaving of two and three threads within the preemption bound, every choice of operations per thread',
     'The tests use one thread; no test can enumerate interleavings.',
     'src/error_handling.c', [('thread local storage', 'src/error_handling.c: RCUTILS_THREAD_LOCAL state')])
prop('C14', 'SHA-256 equals FIPS 180-4 for every message, however it is fed',
     'The digest of every message equals the one FIPS 180-4 defines, for every content and length, and for every way of dividing the message over update calls. The context after init carries nothing over from earlier use.',
     'inputs histories', 'every message content at the block and padding boundaries, every division over updates (within the bounds)',
     'The tests check a few known digests; contents are 2^n and the padding boundaries and divisions are not covered.',
     'src/sha256.c include/rcutils/sha256.h', [('compression, buffering and padding', 'src/sha256.c: sha256_transform, rcutils_sha256_update, _final')])
prop('C15', 'Clock readings and time conversions are exact',
     'Reading the system or steady clock gives seconds times 10^9 plus nanoseconds of the right clock, or the documented error when the clock fails, reads before the epoch or the argument is null. '
     'Conversions between seconds, milliseconds, microseconds and nanoseconds are exact integer arithmetic for every value in range.',
     'inputs fault_sequences', 'every clock reading and failure, every value in the representable range',
     'The time tests are outside the reliable set and read the real clock, which never fails or reads negative.',
     'src/time_unix.c src/time.c include/rcutils/time.h', [('', 'src/time_unix.c: rcutils_system_time_now, rcutils_steady_time_now'), ('', 'include/rcutils/time.h: RCUTILS_*_TO_*')])
prop('C16', 'Times are printed exactly, and cut to any buffer safely',
     'Printing a time as nanoseconds gives its zero-padded decimal digits, as seconds its seconds and nine digit fraction, with the sign, and as a date the local date with milliseconds, for every representable value. '
     'Every buffer size is respected: output is the longest terminated prefix that fits, and nothing is written outside it; null arguments and failures of the calendar are reported.',
     'inputs fault_sequences', 'every 64 bit time, every buffer size from zero, every calendar result',
     'The tests print a few values into large buffers.',
     'src/time.c include/rcutils/time.h', [('', 'src/time.c: rcutils_time_point_value_as_*_string')])
prop('C22', 'Duplicating and searching strings is exact and stays inside the string',
     'Duplicating gives a terminated copy of the text, or of the given number of characters, in memory of its own, or null for null input or refused memory. Finding the first or last occurrence of a character gives its exact index, '
     'or the largest size when it does not occur, without reading past the text or the given length.',
     'inputs fault_sequences', 'every text, length argument and character up to the bounds, every refused allocation',
     'The tests list a few texts; reads past a text that fills its memory are invisible to them.',
     'src/strdup.c src/find.c include/rcutils/strdup.h include/rcutils/find.h', [('', 'src/find.c: rcutils_find_impl'), ('', 'src/strdup.c: rcutils_strndup')])
prop('C23', 'Command line options are found exactly when present',
     'An option is found exactly when one of the arguments equals it, and its value is the argument right after it, or null when there is none. No argument is read beyond its end or beyond the argument count, for every argument vector.',
     'inputs', 'every vector of arguments and option name up to the bounds, null arguments included',
     'The tests use two or three fixed vectors; prefixes, extensions, an option in last place and empty arguments are not covered.',
     'src/cmdline_parser.c include/rcutils/cmdline_parser.h', [('', 'src/cmdline_parser.c: rcutils_cli_option_exist, rcutils_cli_get_option')])
prop('C24', 'Sorting yields an ordered permutation with any comparison',
     'Sorting any array with any consistent comparison gives an ordered array with the same elements, for every element count, size and content; null arguments are reported and nothing outside the array is touched.',
     'inputs', 'every content of arrays up to the bound, every consistent order',
     'The tests sort a few arrays.', 'src/qsort.c include/rcutils/qsort.h', [('', 'src/qsort.c: rcutils_qsort')])
prop('C25', 'System error text is copied whole or cut, always terminated',
     'The text for the current error number is copied into the caller\'s buffer, cut to fit and always terminated, for every text, buffer size and outcome of the system call; nothing outside the buffer is written.',
     'inputs fault_sequences', 'every buffer size from zero, every system text and outcome',
     'The strerror tests are outside the reliable set and use one errno and one buffer.', 'src/strerror.c include/rcutils/strerror.h', [('', 'src/strerror.c: rcutils_strerror')])
prop('C26', 'The executable name is the last component of the invocation name',
     'The executable name returned is the last path component of the name the process was invoked with, for every such name, in newly allocated memory that leaves the original unchanged; refused memory or a bad allocator gives null without leaks. The process id is the one of the system.',
     'inputs fault_sequences', 'every invocation name up to the bound, every refused allocation',
     'A test process has one invocation name.', 'src/process.c include/rcutils/process.h', [('', 'src/process.c: rcutils_get_executable_name')])

prop('C17', 'Paths are joined, converted and expanded without losing a character',
     'Joining two paths gives the first, one separator and the second, for paths of any length; converting to native separators and expanding a leading tilde to the home directory likewise keep everything else exactly. '
     'Null arguments, a missing home directory and refused memory give null without leaks, and the working directory is reported exactly when the system reports it into the given buffer.',
     'inputs fault_sequences', 'every pair of short paths, long paths across buffer limits, every home directory, every refused allocation',
     'The filesystem tests are outside the reliable set and use a few short paths.',
     'src/filesystem.c include/rcutils/filesystem.h', [('', 'src/filesystem.c: rcutils_join_path, rcutils_to_native_path, rcutils_expand_user, rcutils_get_cwd')])
prop('C18', 'Path predicates, directory creation and file size follow the system',
     'A path is a directory, a file, existing, readable or writable exactly when the mode the system reports says so, for every mode; null and unknown paths are none of these. '
     'A directory is created only at an absolute path and reported as made exactly when the system made it or it already is a directory; the file size is the size of a regular file in full and zero for anything else.',
     'inputs fault_sequences', 'every mode and size the system can report, every outcome of the system calls',
     'The tests see the handful of modes their sandbox has, as root, and no failing system call.',
     'src/filesystem.c include/rcutils/filesystem.h', [('', 'src/filesystem.c: rcutils_is_*, rcutils_exists, rcutils_mkdir, rcutils_get_file_size')])
prop('C19', 'Directory traversal visits each entry once and sums exactly the files',
     'Iterating a directory lists every entry exactly once and ends. The size of a directory is the exact sum of the sizes of the regular files down to the given depth (without limit for zero), symbolic links not followed, for every tree. '
     'A directory that cannot be opened or read and refused memory are reported; every stream is closed and nothing leaks.',
     'inputs fault_sequences configurations', 'every tree of files, directories, links, pipes and vanishing entries up to the bound, every size, entry order and depth, every failure',
     'The tests use one fixed tree in the source directory, without links, empty streams, failures or depth combinations.',
     'src/filesystem.c include/rcutils/filesystem.h', [('work list of directories', 'src/filesystem.c: rcutils_calculate_directory_size_with_recursion, check_and_calculate_size'), ('iterator', 'src/filesystem.c: rcutils_dir_iter_*')])
prop('C20', 'Shared libraries are loaded, searched and unloaded exactly as the linker says',
     'A library object is usable exactly after a successful load and until it is unloaded; loading records the path the linker resolved, a symbol is reported present or returned exactly when the linker has it (a symbol of null value included), and no operation is misled by an earlier linker error. '
     'Every failure of the linker or the allocator is reported with an error message, closes what was opened, leaks nothing and leaves the object reusable; library file names are composed exactly for any buffer size.',
     'histories fault_sequences inputs', 'every sequence of load, lookup and unload up to the bound with every linker answer and failure, every refused allocation, every name and buffer size',
     'The tests load one dummy library; the linker does not fail, hold an old error, or refuse to close there.',
     'src/shared_library.c include/rcutils/shared_library.h', [('', 'src/shared_library.c: rcutils_load_shared_library, rcutils_get_symbol, rcutils_has_symbol, rcutils_unload_shared_library, rcutils_get_platform_library_name')])
prop('C21', 'Logger levels follow the dotted hierarchy for every history of settings',
     'After any sequence of setting logger levels and the default level, the effective level of any logger is that of its closest ancestor (or itself) whose level is set, and otherwise the default level; a severity is enabled exactly from that level up. '
     'Values cached for descendants never survive a later change, names are compared whole, an invalid level or a refused allocation is reported without losing the earlier level, and shutting down releases everything.',
     'histories inputs fault_sequences', 'every sequence of settings up to the bound over related names and every level, arbitrary short names, every refused allocation',
     'Most logging tests are outside the reliable set, and they follow a few fixed histories; stale cached levels need a set, a query and a set in a particular order.',
     'src/logging.c include/rcutils/logging.h src/hash_map.c',
     [('level lookup and caching', 'src/logging.c: rcutils_logging_get_logger_effective_level, get_severity_level'), ('setting', 'src/logging.c: rcutils_logging_set_logger_level, remove_key_and_value')],
     [('severities map', 'name to level, with a mark for levels set by the user', 'src/logging.c: g_rcutils_logging_severities_map')])
prop('C27', 'Log messages are formatted exactly as the configured format says',
     'The output of formatting a message is the configured format with every known token replaced by its value, every known escape decoded and everything else kept, for every format up to the documented limit and every message, name, location, severity and time. '
     'Refused memory and a failing calendar are reported, nothing is read or written out of bounds, and nothing of an earlier format remains.',
     'inputs fault_sequences configurations', 'every sequence of tokens, escapes and characters up to the bound, formats around the length limit, every message and name up to the bound, every refused allocation',
     'The format tests are outside the reliable set and try a few well-formed formats.',
     'src/logging.c include/rcutils/logging.h', [('decoding', 'src/logging.c: parse_and_create_handlers_list, create_format_string'), ('expansion', 'src/logging.c: rcutils_logging_format_message, expand_*')])
prop('C28', 'A log call reaches the output handler once exactly when it is enabled',
     'A log call reaches the current output handler exactly once when its severity is at or above the effective level of its logger, and never otherwise, with the location, severity, name, format, arguments and current time unchanged. '
     'Starting logging is idempotent, refuses incomplete allocators and refused memory without leaks, happens by itself on first use, and shutting down releases everything and allows a new start.',
     'inputs histories fault_sequences', 'every severity, level, clock reading and argument value; start and shutdown in every order with every refused allocation',
     'The logging tests are outside the reliable set and sample a few severities; a failing clock and failing start are not reachable.',
     'src/logging.c include/rcutils/logging.h', [('gate', 'src/logging.c: rcutils_log, rcutils_log_internal, vrcutils_log_internal'), ('life cycle', 'src/logging.c: rcutils_logging_initialize_with_allocator, rcutils_logging_shutdown')])
prop('C29', 'The environment configures log output, and wrong values are refused',
     'The output stream, its buffering and colours are those the environment variables select, for every value of the variables and every kind of stream: 0 and 1 are obeyed, an unset or empty variable gives the default, and any other value makes the start fail with an error. '
     'An outdated variable is warned about, a stream that cannot be configured is an error, and the messages go only to the selected stream.',
     'configurations inputs fault_sequences', 'every value of every variable up to two characters in every combination, terminals or not, a failing setvbuf',
     'The tests run in a single environment; combinations with terminals and failing streams are out of reach.',
     'src/logging.c include/rcutils/logging.h', [('', 'src/logging.c: rcutils_logging_initialize_with_allocator, rcutils_get_env_var_zero_or_one')])
prop('C30', 'The console writes each message whole, on one line, or complains',
     'The console output handler writes exactly one line with the whole formatted message, of any length, between the colour of its severity and a reset when colours are on. '
     'An unknown severity, logging not started, or refused memory is complained about on the error stream, with no partial message on the output and no leak.',
     'inputs fault_sequences', 'messages and names of lengths across the internal buffer limits, every severity value, every refused allocation',
     'The tests print short messages to the terminal and do not look at what was written.',
     'src/logging.c src/char_array.c', [('', 'src/logging.c: rcutils_logging_console_output_handler')])
prop('C31', 'Logging macros log exactly when their condition says so, from any history',
     'A logging macro logs its message, with its severity, name, arguments and place, exactly when its severity is enabled and its condition holds: once, from the second time on, when the expression or function is true, or when the last message is longer ago than the duration. '
     'Conditions are evaluated only when the severity is enabled, and only enabled calls count. '
     'A severity below the compile-time minimum logs nothing and evaluates nothing.',
     'histories inputs configurations', 'every macro and severity, every sequence of calls up to the bound at one place with every level, expression value and time, every kind of compile-time minimum tried',
     'The macro tests run one or two calls each at real time; histories with changing levels and arbitrary times are not covered.',
     'resource/logging_macros.h.em rcutils/logging.py include/rcutils/logging.h', [('', 'resource/logging_macros.h.em: RCUTILS_LOG_COND_NAMED, RCUTILS_LOG_CONDITION_*'), ('', 'rcutils/logging.py: feature_combinations')])
prop('C32', 'A severity is found from its name in any case, and from nothing else',
     'A text gives the severity whose name it spells, in any mixture of cases, and every other text is refused with the documented code and leaves the result untouched. Null arguments, an invalid allocator and refused memory are reported without leaks.',
     'inputs fault_sequences', 'every text up to the bound, every refused allocation',
     'The tests try the names and a few other texts.', 'src/logging.c include/rcutils/logging.h', [('', 'src/logging.c: rcutils_logging_severity_level_from_string')])
prop('C33', 'Fault injection fails exactly one fault point, counted over all threads',
     'With the count set to n, exactly the fault point passed n passes later fails, whichever thread passes it, and every pass counts once under every interleaving; with a negative count nothing fails and the count stays. '
     'The test macro runs its code once per fault point, failing each in turn, and once without a fault; the suspension macro restores the count.',
     'histories schedules', 'every sequence of operations and every count; every interleaving of two and three threads within the preemption bound',
     'The fault injection tests use one thread.', 'src/testing/fault_injection.c include/rcutils/testing/fault_injection.h include/rcutils/macros.h',
     [('compare and exchange loop', 'src/testing/fault_injection.c: _rcutils_fault_injection_maybe_fail')])
prop('C34', 'A fault injected anywhere is reported or harmless, and never leaks',
     'Whatever single fault point an operation passes is made to fail, the operation reports a failure or is unaffected, what it leaves behind is what a successful or a refused operation leaves, and everything can still be released: nothing leaks. Without a fault everything works.',
     'fault_sequences inputs', 'every fault point of the string, array, map, path, environment, time and logging operations, any text of the given length',
     'Tests inject faults into a few fixed scenarios and do not look at what is left behind.',
     'src/strdup.c src/split.c src/string_array.c src/string_map.c src/env.c src/snprintf.c src/shared_library.c src/logging.c', [('fault points', 'RCUTILS_CAN_RETURN_WITH_ERROR_OF, RCUTILS_CAN_FAIL_WITH')])
prop('C35', 'Atomic helpers neither lose nor tear an update',
     'Loads, stores, exchanges, additions and compare-and-exchange operations through the helpers return the previous value and leave the new one, for every value of every type. Under every interleaving of threads no update is lost or seen twice.',
     'inputs schedules', 'every 64 bit value; every interleaving of two and three threads within the preemption bound',
     'The atomics tests are single threaded.', 'include/rcutils/stdatomic_helper.h', [('', 'include/rcutils/stdatomic_helper.h')])
prop('C36', 'Threads logging at the same time get every message out whole, exactly once',
     'When threads log at the same time through the console, every enabled message comes out whole, on a line of its own, exactly once and in the order its thread logged it, under every interleaving. Logging concurrently leaks nothing and corrupts no logger level.',
     'schedules inputs', 'every interleaving of two and three threads within the preemption bound, with and without logger levels set',
     'No test logs from several threads, and none could enumerate interleavings.', 'src/logging.c include/rcutils/logging.h', [('', 'src/logging.c: rcutils_log, rcutils_logging_console_output_handler'), ('caching', 'src/logging.c: rcutils_logging_get_logger_effective_level')])
prop('C37', 'The error macros report exactly the text, with and without an earlier error',
     'Each macro that sets or prints an error uses exactly the text, formatted from its arguments once each and cut at the documented limit, with the place of the macro; the variants that append the previous error add it after a colon and reset it, and act like the plain variant when there is none. '
     'The checking macros set their error and run their statement exactly when the value is null or the allocator is incomplete. A text that cannot be formatted is reported, and never printed or set unformatted.',
     'inputs fault_sequences', 'every text and earlier error (within the bounds), lengths around each limit, percent signs anywhere, arguments of any name, failing formatting',
     'No test uses the variants that append; the others are tested with one short text.', 'include/rcutils/error_handling.h include/rcutils/allocator.h src/error_handling.c src/snprintf.c',
     [('macros', 'include/rcutils/error_handling.h: RCUTILS_SET_ERROR_MSG*, RCUTILS_SAFE_FWRITE_TO_STDERR*, RCUTILS_CHECK_*')])
P.sort(key=lambda p: p['id'])

NA = []
LEVEL = ('Every assertion and every memory-safety condition is decided by z3 (or by sound simplification before it) on every path within the bounds listed in the evidence '
         '(coverage.bounds). Trusted: the symbolic executor and its models of libc and of the outside world in lib/ and harness/, clang -O0, z3. Counterexamples are '
         'reported only after they replay on a native sanitizer build of the sources; sampled paths are replayed to check the model.')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            st = p['statement']
            assert len([s for s in st.replace('e.g.', '').split('. ') if s.strip()]) <= 3, (p['id'], 'sentences')
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': st, 'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                            'mechanism': [dict(name=a or 'implementation', where=b) for a, b in p['mech']],
                            'observe_at': p['observe'] or [x for x in p['files'] if x.startswith('include')], 'hook_needed': None}}) + '\n')
    import sys
    sys.path.insert(0, os.path.join(V, 'vp'))
    import checks
    cs = []
    for p in P:
        if p['id'] not in checks.CHECKS:
            NA.append(dict(property=p['id'], reason='no check built yet'))
            continue
        cs.append({'property': p['id'], 'quick_cmd': 'python3 vp/run_check.py %s' % p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough python3 vp/run_check.py --tier thorough %s' % p['id'],
                   'technique': 'symbolic execution of the LLVM bitcode of the real sources, SMT (z3) over all inputs within bounds' + p['note'],
                   'level': 'model_checking', 'level_note': LEVEL})
    m = {'version': 1, 'setup_cmd': 'make -C engine OUT=/verif/build', 'checks': cs, 'not_applicable': NA}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    missing = [c for c in checks.CHECKS if c not in [p['id'] for p in P]]
    print(len(P), 'properties', len(cs), 'checks', 'na', [n['property'] for n in NA], 'without property', missing)


main()
