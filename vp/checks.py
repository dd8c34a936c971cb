"""The jobs of every property: which harness, with which bounds."""
CHECKS = {}


def job(harness, params=None, tier='both', parts=1, err='stub', log='stub', omit=(), wrap=(), defs=(), threads=False, preempt=2, time=150,
        samples=6, steps=3000000, name=None, validate=True):
    return dict(harness=harness + '.c', params=params or {}, tier=tier, parts=parts, err=err, log=log, omit=list(omit), wrap=list(wrap),
                defs=list(defs), threads=threads, preempt=preempt, time=time, samples=samples, steps=steps, name=name, validate=validate)


def check(prop, jobs, bounds, assumptions=(), validate=40, level='model_checking'):
    CHECKS[prop] = dict(jobs=jobs, bounds=bounds, assumptions=list(assumptions) + BASE, validate=validate, level=level)


BASE = ['clang -O0 bitcode of the sources means what the compiled library does (the native replay runs cross-check this on sampled paths)',
        'the symbolic executor (engine/vpx) and z3 are correct']


check('C01', [
    job('array_list', {'K': 4}),
    job('array_list', {'K': 3, 'fail': 1}),
    job('array_list_big'),
    job('array_list_many', parts=2),
    job('array_list', {'K': 6, 'D': 2, 'cap': 2}, tier='thorough', parts=8),
], 'x')
check('C02', [job('uint8_array_many'), job('uint8_array', {'K': 3}), job('uint8_array', {'K': 2, 'fail': 1})], 'x')
check('C03', [job('string_array_cmp', {'N': 2, 'L': 256}), job('string_array', {'K': 2, 'N': 3}), job('string_array', {'K': 2, 'N': 3, 'fail': 1}), job('string_array_big'), job('string_array_many'),
   job('string_array_cmp', {'N': 2, 'L': 2}), job('string_array_cmp', {'N': 2, 'L': 1, 'holes': 1}), job('string_array_cmp', {'N': 3, 'L': 2, 'sort': 1})], 'x')
check('C04', [job('char_array_long'), job('char_array_long', {'two': 1}), job('format_fail', wrap=['vsnprintf', 'localtime_r']), job('char_array', {'K': 2}), job('char_array', {'K': 2, 'fail': 1}), job('char_array', {'K': 1, 'longn': 1})], 'x')
check('C05', [job('split', {'L': 7}), job('split', {'L': 5, 'fail': 1}), job('split_last', {'L': 7}), job('split_last', {'L': 5, 'fail': 1}), job('split', {'long': 9}), job('split_many'), job('split_last', {'long': 9})], 'x')
check('C06', [job('repl_str', {'L': 5, 'F': 2, 'T': 2}), job('repl_str', {'L': 4, 'F': 2, 'T': 1, 'fail': 1}), job('repl_str', {'T': 1, 'long': 15}), job('repl_str', {'T': 1, 'long': 63}), job('repl_str', {'T': 1, 'long': 16, 'span': 2, 'fail': 1}), job('repl_str', {'T': 1, 'long': 64, 'span': 2, 'fail': 1}), job('repl_str', {'T': 1, 'long': 207, 'fail': 1}, tier='thorough')], 'x')
check('C07', [job('format_fail', wrap=['vsnprintf', 'localtime_r']), job('format', {'L': 4}), job('format', {'L': 4, 'limit': 1}), job('strcase', {'L': 3}), job('format', {'long': 9}), job('format', {'long': 9, 'limit': 1}), job('strcase', {'long': 1}), job('isalnum')], 'x')
check('C08', [job('allocator', wrap=['malloc', 'free', 'calloc', 'realloc'])], 'x')
check('C09', [job('env', {'L': 2}, wrap=['getenv', 'setenv', 'unsetenv']), job('env', {'long': 7}, wrap=['getenv', 'setenv', 'unsetenv'])], 'x')
check('C22', [job('strdup', {'L': 6}), job('find', {'L': 7}), job('strdup', {'long': 24}), job('find', {'long': 9})], 'x')
check('C23', [job('cmdline', {'many': 300}), job('cmdline', {'L': 2, 'A': 3}), job('cmdline', {'L': 1, 'A': 2, 'prefix': 2}), job('cmdline', {'L': 2, 'A': 2, 'prefix': 255})], 'x')
check('C24', [job('qsort', {'many': 1}), job('qsort', {'N': 4})], 'x')
check('C25', [job('strerror', wrap=['strerror_r', 'strerror'])], 'x')
check('C26', [job('process', {'L': 5}, wrap=['getpid']), job('process', {'long': 24}, wrap=['getpid'])], 'x')
check('C10', [job('hash_map', {'K': 3, 'NK': 3}, parts=4), job('hash_map', {'K': 3, 'NK': 2, 'cap': 2, 'fail': 1}, parts=4), job('hash_map_big'), job('hash_map_many'), job('hash_map_many', {'N': 300}, parts=4, tier='thorough'), job('hash_map_str', {'L': 3}), job('hash_map_str', {'long': 1, 'L': 1})], 'x')
check('C11', [job('string_map_long'), job('string_map', {'K': 3}, parts=4), job('string_map', {'K': 4, 'pool': 3}, parts=4), job('string_map', {'K': 5, 'pool': 3}, parts=8, tier='thorough', time=600), job('string_map', {'K': 3, 'pool': 2, 'fail': 1}, parts=4), job('string_map', {'K': 2, 'fail': 1}, parts=2), job('string_map_many', steps=100000000, parts=2), job('string_map_n', {'L': 3}, parts=2), job('string_map_n', {'L': 1, 'copy': 1}, parts=2), job('string_map_n', {'L': 1, 'copy': 1, 'fail': 1}, parts=2)], 'x')
CAPTURE = ['fwrite', 'fputs', 'puts', 'fputc', 'putc', 'putchar', 'vfprintf', 'fprintf', 'printf', 'fflush', 'fileno', 'isatty', 'setvbuf']
check('C12', [job('error_state', err='real', wrap=CAPTURE), job('error_state', {'lines': 1}, err='real', wrap=CAPTURE, time=20), job('error_state', {'K': 3}, err='real', wrap=CAPTURE, parts=3), job('error_state', {'K': 4, 'L': 1}, err='real', wrap=CAPTURE, parts=8, time=600, tier='thorough')], 'x')
check('C14', [job('sha256', parts=3), job('sha256', {'long': 1}), job('sha256', {'all': 1}, tier='thorough', parts=6, time=750)], 'x')
T = dict(err='real', wrap=CAPTURE, threads=True)
check('C37', [job('error_macros', err='real', wrap=CAPTURE), job('error_macros', {'long': 1}, err='real', wrap=CAPTURE), job('error_macros', err='real', wrap=CAPTURE, defs=['RCUTILS_ENABLE_FAULT_INJECTION'], name='error_macros_fault'), job('error_macros_fail', err='real', wrap=CAPTURE + ['vsnprintf']), job('error_macros', {'L': 4}, err='real', wrap=CAPTURE, tier='thorough', time=600, parts=4)], 'x')
check('C13', [job('error_threads', {'K': 1}, preempt=4, **T), job('error_threads', {'K': 2}, preempt=2, parts=4, **T), job('error_threads', {'K': 1, 'N': 3}, preempt=2, parts=4, **T),
              job('error_threads', {'K': 2}, preempt=4, parts=8, tier='thorough', time=600, **T)], 'x')
check('C15', [job('time_now', wrap=['clock_gettime']), job('time_now', {'conv': 1}, wrap=['clock_gettime'])], 'x')
check('C16', [job('format_fail', wrap=['vsnprintf', 'localtime_r'])] + [job('time_string', {'fn': f}, wrap=['localtime_r']) for f in range(3)] + [job('time_string', {'fn': f, 'few': 1}, wrap=['localtime_r']) for f in range(3)] + [job('time_string', {'fn': f, 'all': 1}, wrap=['localtime_r'], tier='thorough', parts=2, time=600) for f in range(3)], 'x')
check('C17', [job('fs_path', {'L': 3}, wrap=['getenv', 'getcwd']), job('fs_path', {'L': 1, 'long': 1}, wrap=['getenv', 'getcwd'])], 'x')
check('C18', [job('fs_pred', {'long': 9}, wrap=['stat', 'lstat', 'mkdir'] + CAPTURE), job('fs_pred', wrap=['stat', 'lstat', 'mkdir'] + CAPTURE)], 'x')
FS = dict(wrap=['stat', 'lstat', 'opendir', 'readdir', 'closedir'] + CAPTURE)
check('C19', [job('fs_deep', steps=100000000, **FS), job('fs_tree', {'N': 3}, parts=8, **FS), job('fs_tree', {'N': 4, 'D': 4, 'plain': 1}, parts=4, **FS), job('fs_tree', {'N': 2, 'fail': 1}, parts=2, **FS), job('fs_tree', {'N': 2, 'iter': 1}, **FS),
              job('fs_tree', {'N': 2, 'iter': 1, 'fail': 1}, **FS)], 'x')
DL = dict(wrap=['dlopen', 'dlclose', 'dlsym', 'dlerror', 'dlinfo'] + CAPTURE)
check('C20', [job('shared_library', {'K': 3}, parts=4, **DL), job('shared_library', {'K': 2, 'long': 7}, parts=2, **DL)], 'x')
LOG = dict(err='real', log='real', wrap=['getenv', 'clock_gettime'] + CAPTURE)
check('C21', [job('log_levels_many', steps=100000000, **LOG), job('log_levels_many', {'loggers': 130}, steps=100000000, **LOG), job('log_levels', {'K': 2}, parts=4, **LOG), job('log_levels', {'K': 2, 'P': 2, 'fail': 1, 'few': 1}, parts=4, **LOG), job('log_levels', {'K': 3, 'P': 4, 'few': 1}, parts=4, **LOG),
              job('log_levels_sym', {'L': 2, 'Q': 4}, **LOG), job('log_levels_sym', {'L': 2, 'Q': 3, 'N': 2}, parts=2, **LOG)], 'x')
LF = dict(LOG, wrap=LOG['wrap'] + ['localtime_r'])
check('C27', [job('log_format_long', steps=100000000, **LOG), job('log_format', {'K': 1}, parts=2, **LF), job('log_format', {'K': 3, 'S': 12, 'L': 0}, parts=4, **LF), job('log_format', {'K': 2, 'S': 23, 'fail': 1, 'L': 1}, parts=2, **LF),
              job('log_format', {'K': 2, 'S': 12, 'L': 0, 'long': 1}, parts=2, **LF)], 'x')
check('C28', [job('log_gate', **LOG), job('log_gate', {'life': 1}, **LOG)], 'x')
check('C29', [job('log_env', parts=2, **dict(LOG, wrap=LOG['wrap']))], 'x')
check('C30', [job('log_console', parts=2, **LOG), job('log_console', {'fail': 1}, parts=2, **LOG)], 'x')
check('C31', [job('log_macros_many', steps=100000000, **LOG), job('log_macros', {'K': 3}, parts=4, **LOG), job('log_macros', {'K': 2, 'dur': 1}, defs=['DURATION=2147483647'], parts=2, **LOG), job('log_macros', {'K': 2, 'dur': 1}, defs=['DURATION=5000000000'], tier='thorough', **LOG), job('log_macros', {'K': 2, 'dur': 1}, defs=['DURATION=0'], tier='thorough', **LOG), job('log_macros', {'K': 2}, defs=['RCUTILS_LOG_MIN_SEVERITY=3'], **LOG), job('log_macros', {'K': 1}, defs=['RCUTILS_LOG_MIN_SEVERITY=5'], **LOG),
              job('log_macros', {'K': 5}, parts=8, tier='thorough', **dict(LOG))], 'x')
check('C32', [job('log_severity', {'long': 9}, **LOG), job('log_severity', **LOG)], 'x')
FI = dict(wrap=CAPTURE, defs=['RCUTILS_ENABLE_FAULT_INJECTION'])
check('C33', [job('fault', {'K': 4}, **FI), job('fault', {'mode': 1}, **FI), job('fault', {'mode': 2, 'K': 2}, threads=True, preempt=4, **FI), job('fault', {'mode': 2, 'N': 3, 'K': 1}, threads=True, preempt=3, **FI),
              job('fault', {'mode': 2, 'N': 3, 'K': 2}, threads=True, preempt=3, tier='thorough', time=600, **FI)], 'x')
check('C35', [job('atomics'), job('atomics', {'N': 2}, threads=True, preempt=6), job('atomics', {'N': 3, 'K': 1}, threads=True, preempt=4),
              job('atomics', {'N': 3, 'K': 2}, threads=True, preempt=3, tier='thorough', time=600)], 'x')
check('C34', [job('inject', **dict(LOG, defs=['RCUTILS_ENABLE_FAULT_INJECTION']))], 'x')
LT = dict(LOG, threads=True)
check('C36', [job('log_threads', {'mode': 0}, preempt=2, **LT), job('log_threads', {'mode': 1}, preempt=2, **LT), job('log_threads', {'mode': 2}, preempt=2, **LT)], 'x')

# What "for every" means in each check. Unless said otherwise every character, byte and integer is symbolic (any value), every
# allocation may be refused in the jobs with refused memory, and the memory model decides every access, release and leak.
BOUNDS = {
    'C01': 'element sizes 1..3, initial capacities 1..3 (and any 64-bit capacity and element size at init); 4 operations from an empty list (3 with refused memory, 6 in the thorough tier), indices any 64-bit value, elements any bytes; a list of 300 elements with a removal or replacement at any index',
    'C02': 'capacities 0..5 and any 64-bit size; 3 operations (2 with refused memory), contents any bytes; resizes between 12 sizes up to 100000',
    'C03': '2 operations on arrays of 0..3 entries (any 64-bit size too); comparison and sorting of arrays up to 3 entries of up to 2 characters, empty entries included; arrays of 300 strings resized across 0, 1, 127..129, 254..258, 299; comparison of texts of 256 characters that differ at their ends',
    'C04': '2 operations; capacities and user buffers of 0..4 bytes, texts up to 2 characters, strncat counts any 64-bit value, resizes up to 9 bytes; vsnprintf failing on any call; texts of 20 lengths from 0 to 5000',
    'C05': 'texts up to 7 characters (5 with refused memory), and texts of 9 lengths from 16 to 4096 with three arbitrary characters; any delimiter; a text of 300 pieces with any character at one of 15 places',
    'C06': 'texts up to 5 characters, patterns up to 2, replacements up to 2; runs of 15..18 and 63..66 matches (208 thorough) with one arbitrary character; refused memory at every request',
    'C07': 'texts up to 4 characters (and 9 lengths from 16 to 4096), every buffer size and limit around them; comparisons of texts up to 3 characters and long texts that differ near the end, any count; isalnum for every character value; vsnprintf failing or returning any length',
    'C08': 'blocks of 0..4 bytes to 0..6 bytes or any refused huge size; every subset of missing functions; every index of the released or returned block',
    'C09': 'names and values up to 2 characters and 7 lengths from 16 to 1023; prior state set or unset; every single refusal of the environment',
    'C10': '3 operations over 3 keys (2 with refused memory) with any 64-bit hash (low byte from 4 values), capacities 1..3, element sizes 1..2; any 64-bit capacity and sizes at init; histories of 70 keys with regular hashes (300 thorough); string keys up to 3 characters and long ones',
    'C11': '3 operations over arbitrary keys of up to 1 character, 4 operations over 3 prefix-related keys (5 thorough), 3 with refused memory; initial capacity 0..2, reserves 0..4 and any 64-bit value; keys by length up to 3 characters in exact buffers; a history of 261 keys; keys and values of 16 lengths from 7 to 4096 that differ in one place',
    'C12': 'one error with message and file lengths {0, 1, limit-1, limit, limit+1, beyond} and any 64-bit line number; histories of 3 operations (4 in thorough); symbolic characters at both ends of each text',
    'C13': '2 threads x 2 operations with 2 preemptions, 2 x 1 with 4, 3 x 1 with 2 (2 x 2 with 4 thorough), any operations and characters',
    'C14': '21 message lengths from 0 to 192 around the block and padding limits (every length 0..193 thorough) with every content, and cut into two updates; longer totals, up to 2^60 bytes, from any intermediate state at a block limit',
    'C15': 'every 64-bit clock reading and every outcome of clock_gettime; conversions for every 64-bit argument whose result is representable',
    'C16': 'every 64-bit time; buffer sizes 0..2 and around each output length (1..40 thorough); every calendar result with 4 digit years, and a failing calendar; vsnprintf failing on any call',
    'C17': 'paths up to 3 characters, and long paths around powers of two up to 4100 with symbolic ends; home directory unset or any such text; working directories around the buffer size; every refused allocation',
    'C18': 'every 32-bit mode, every file size up to 2^63-1, every errno listed by the calls, paths up to 2 characters; paths of 9 lengths up to 4096',
    'C19': 'every tree of up to 3 nodes below the root (files, directories, links, pipes, vanishing entries), and every tree of 4 files and directories; any size below 2^48 each; depth limits 0..3 (0..4); both entry orders; one failure of opendir, readdir or memory; chains of 16, 256 and 300 directories (names up to 255) and directories of 257 and 300 files',
    'C20': '3 operations with every linker answer (found, missing, null value, any address), an earlier linker error, failing close and path lookup; names up to 4 characters and long ones around the buffer limits; refused memory at every request',
    'C21': '2 operations over 5 related names with every level, 3 over 4 names with three levels, 2 over 2 names with refused memory; all queries after each; one or two loggers of arbitrary names up to 2 characters and any queried name up to 4; 130 loggers, and names of up to 300 parts or parts of 2000 characters',
    'C22': 'texts up to 6 or 7 characters in exact buffers, and texts of 9 lengths from 16 to 4096 with three arbitrary characters; any character; any length argument',
    'C23': 'up to 3 arguments of up to 2 characters and options up to 2 characters, null arguments included; common prefixes of 2 and 255 characters; 300 arguments with the option at 10 places',
    'C24': 'up to 4 elements of 1 or 2 bytes, any content, both orders, any comparison result sign; 8 to 100 elements of which one is arbitrary',
    'C25': 'buffers of 0..6 bytes, texts up to 5 characters, any errno, all outcomes of strerror_r',
    'C26': 'invocation names up to 5 characters and 24 lengths from 15 to 5000 with three arbitrary characters; every refused allocation; any process id',
    'C27': 'sequences of 1 segment from 23 kinds, of 3 from 12 kinds, of 2 from 23 kinds with refused memory; formats of length around 2047 bytes; messages, names, functions and files up to 2 characters, any line, every severity; names, functions, files and messages of 19 lengths up to 4100 and 170 tokens',
    'C28': 'one call with every severity, level, clock reading, integer arguments and handler; life cycle of start, failing start (every refused allocation), restart, and first use',
    'C29': 'every value up to 2 characters of each of three variables, the outdated variable set or not, terminals or not, failing setvbuf, after an earlier run with either value',
    'C30': 'messages and names of lengths around 1024 (the internal buffer) and its multiples, any severity value, every refused allocation',
    'C31': 'every macro and severity (including the unnamed and named forms), 3 calls at one place (5 thorough), any level, expression value and time below 2^61; durations 10, 0, 2^31-1 and 5*10^9 ms; compile-time minimum debug, error and none; 300 calls at one place after 0, 150 or 300 disabled ones',
    'C32': 'every text up to 6 characters; every refused allocation; texts of 9 lengths up to 4096',
    'C33': 'count any 64-bit value, 4 fault points in one thread; 2 threads x 2 with 4 preemptions, 3 x 1 with 3 (3 x 2 thorough)',
    'C34': 'one fault at any of the fault points passed by each of the operation groups (strings, splits, arrays, maps, char arrays, environment, formatting, logging, libraries), or none; texts of 3 arbitrary characters',
    'C35': 'every 64-, 32- and 8-bit value of each type in one thread; 2 threads x 2 operations with 6 preemptions, 3 x 1 with 4 (3 x 2 with 3 thorough)',
    'C36': '2 threads x 2 log calls (one enabled, one not; with and without logger levels, shared and separate names), 2 preemptions at every shared access',
    'C37': 'every error and error stream macro, with and without an earlier error; texts of up to 2 characters (4 in thorough) and 11 lengths around the limits of 767 and 1023; formatting failing; with and without fault injection',
}
for _p in CHECKS:
    CHECKS[_p]['bounds'] = BOUNDS[_p]
