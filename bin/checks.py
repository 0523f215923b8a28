"""What each check builds and explores."""
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
def _d(asserts, exc, alias=0):
    return ["-DCOIL_CONFIG_ENABLE_ASSERTS=%d" % asserts, "-DCOIL_CONFIG_CATCH_EXCEPTIONS=%d" % exc, "-DCOIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS=%d" % alias]

# functions the threads engine replaces in the library and harness objects: synchronisation, memory access, hidden state
REDEFINED = """__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once memcpy memmove memset memcmp memchr strlen strcmp strncmp strcpy strncpy strcat strchr
vsnprintf snprintf vsprintf sprintf strtof strtod strtold strtol strtoll strtoul strtoull strtok setlocale localeconv strerror rand srand localtime gmtime asctime ctime
getenv setenv unsetenv putenv malloc calloc realloc free strdup __cxa_allocate_exception""".split()

CONFIGS = {
    "asan": dict(cxx="g++", flags=SAN + _d(1, 1), note="g++ -O1, address and undefined-behaviour sanitizers, assertions on, exceptions caught"),
    "asan0": dict(cxx="g++", flags=SAN + _d(0, 0), note="g++ -O1, address and undefined-behaviour sanitizers, assertions off, exceptions not caught"),
    "rel": dict(cxx="g++", flags=["-O2"] + _d(0, 0), note="g++ -O2, assertions off, exceptions not caught"),
    "relx": dict(cxx="g++", flags=["-O2"] + _d(0, 1), note="g++ -O2, assertions off, exceptions caught"),
    "alias": dict(cxx="g++", flags=["-O0"] + _d(1, 1, 1), note="g++ -O0, assertions on, exceptions caught, integer type names replaced by aliases"),
    "dbg": dict(cxx="g++", flags=["-O1"] + _d(1, 0), note="g++ -O1, assertions on, exceptions not caught"),
    "gcc3": dict(cxx="g++", flags=["-O3"] + _d(0, 1), note="g++ -O3, assertions off, exceptions caught"),
    "gcc0": dict(cxx="g++", flags=["-O0"] + _d(0, 0), note="g++ -O0, assertions off, exceptions not caught"),
    "alias2": dict(cxx="g++", flags=["-O2"] + _d(0, 0, 1), note="g++ -O2, assertions off, exceptions not caught, integer type names replaced by aliases"),
    "clang0": dict(cxx="clang++", optional=True, flags=["-O0"] + _d(1, 1), note="clang++ -O0, assertions on, exceptions caught"),
    "clang2": dict(cxx="clang++", optional=True, flags=["-O2"] + _d(0, 0), note="clang++ -O2, assertions off, exceptions not caught"),
    "clang3": dict(cxx="clang++", optional=True, flags=["-O3"] + _d(0, 1, 1), note="clang++ -O3, assertions off, exceptions caught, integer type names replaced by aliases"),
    "ext": dict(cxx="g++", optional=True, flags=["-O2", "-DC25_EXTERN"] + _d(0, 1), note="g++ -O2, assertions off, exceptions caught, the program compiles the library's templates once (Extern.h)"),
    "threads": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-fno-builtin", "-DMC_THREADS"] + _d(1, 1), engine_flags=["-O2", "-U_FORTIFY_SOURCE"], link_flags=["-rdynamic", "-ldl"],
                    redefine=REDEFINED, note="g++ -O1, every memory access instrumented (-fsanitize=thread with a runtime of the framework's own), assertions on, exceptions caught"),
}

COMMON = ["the harness compiles /repo/src/*.cpp from the working tree; the C library and compiler are trusted",
          "behaviour outside the stated alphabets and bounds is not covered"]

CHECKS = {
    "C01": dict(sources=["c01.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of command lines; the real lexer compared with a reference grammar on each",
        bounds="all strings over 9 class representatives up to length 7 (5 under sanitizers), 20 wide symbols up to 5 (4), token sequences up to 5 (3), all 256 byte values (pairs) in 27 templates, 18 line shapes at every length to 320 and around powers of two to 70000",
        assumptions=COMMON),
    "C02": dict(sources=["c02.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of lexer configurations and command lines against a reference grammar",
        bounds="1296 combinations of character sets (empty, overlapping, high bytes) x all strings over 9 characters up to length 4 (3 under sanitizers); 15 selected configurations x all strings up to length 6 (4); every byte value configured in every category; sets of up to 200 characters; all setLexer/execute histories of 3 steps over 7 lexers and 9 lines",
        assumptions=COMMON),
    "C03": dict(sources=["c03.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive generation of command structures and all their spellings, executed and compared at the callee",
        bounds="one argument of one sub-value over 15 texts, lists of 2 (3) over 9 (4) texts, in every form, quoting of each element, separator and padding; up to 3 positional/named items in every arrangement, two spellings each; every spacing from 5 kinds in every gap of 5 shapes; every merge of up to 5 positional and 4 named arguments; every text length, sub-value count and named count up to 270 and around powers of two to 20000",
        assumptions=COMMON),
    "C04": dict(sources=["c04.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of input strings executed on a persistent interpreter under sanitizers and assertions, compared with a reference interpreter",
        bounds="all strings over 9 symbols up to length 7 (5 under sanitizers), all continuations up to length 6 (4) after 5 heads, all token sequences up to 5 (4) over 19 tokens, every byte (pairs of bytes) in 20 templates, line shapes of every length to 140 and long message parts of every length to 300, then around powers of two; pre-parsed inputs; every table state",
        assumptions=COMMON),
    "C05": dict(sources=["c05.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of overload lists, names, replacements and argument counts; the function called and the error compared with a reference dispatcher",
        bounds="all lists of up to 5 overloads (4 under sanitizers) of arity 0-4 in two parameter styles x 0-6 arguments x 3 argument styles; all subsets of 10 related names; all histories of 4 replacements/removals; up to 130 overloads or arguments densely, names and counts around powers of two",
        assumptions=COMMON),
    "C06": dict(sources=["c06.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of parameter-type tuples and argument texts; call, values and errors compared with reference conversions",
        bounds="30 single parameter types x all values of up to 3 sub-values over 16 (6) texts; 16 pairs and 5 triples of types over 16 (10) values per argument; every subset of 10 failing arguments; sequences of 3 calls; text lengths and list sizes to 270 and around powers of two to 70000",
        assumptions=COMMON),
    "C07": dict(sources=["c07.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of scripts of context operations performed by a command; the whole result compared with a reference accumulator",
        bounds="all scripts of up to 4 (3 under sanitizers) operations over 10 kinds and 3-5 texts, 5 return types; all histories of 3 executions with kept results; every text length to 600 and around powers of two to 70000; pairs of lengths to 300; up to 140 operations densely; 20 format shapes at 140 widths; 6 formats that cannot be printed, in 4 ways between other output",
        assumptions=COMMON),
    "C08": dict(sources=["c08.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of histories of command-table operations, with every lookup and execution compared with a plain map after each step",
        bounds="all histories of 5 (4 under sanitizers) operations over 3 names (two with the same hash); all toggle histories of 5-6 (4) steps over 6 names from 5 initial table sizes; all removal orders of 6 (5) names, colliding or not; all move histories of 4 steps between two owners; every table size to 140 and around powers of two to 2048 in 6 removal orders; all histories of 5 (4) operations that remove, replace, clear and execute through the name read from the table itself; all pairs of 222 odd names (empty, with null and control characters, numbers, printf and shell syntax, ...) in tables of 4 sizes, added, found, executed and removed, and all of them in one table in 4 orders",
        assumptions=COMMON),
    "C09": dict(sources=["c09.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of histories of hash map operations for hash patterns, bucket counts and load factors, compared with std::map after each step",
        bounds="8 hash patterns x 8 map shapes x all histories of 5 (4 under sanitizers) operations over 4 keys; toggle histories of 7 (5) steps over 5 keys; all erase orders of 7 (5) entries; histories of 5 (4) copy/move steps of two maps; every size to 40 (20) densely and around powers of two in 4 orders; all histories of 5 (4) operations whose keys and values are read from the map itself",
        assumptions=COMMON),
    "C10": dict(sources=["c10.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of histories of vector operations with lifetime-tracking elements, compared with a plain sequence after each step",
        bounds="all histories of 6 (5 under sanitizers; 5/4 for elements that allocate) of 15 operations on one vector of 4 element types, of 16 operations on two vectors; move-only elements to 6 steps; every size to 270 and around powers of two to 8192 in 7 ways; equality of all pairs of vectors of up to 3 elements over 15 element types whose equality is not that of their bits (signed zeros, NaN, padding, ignored fields, views, texts with null characters)",
        assumptions=COMMON),
    "C11": dict(sources=["c11.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of contents, ranges and histories of string operations, compared with plain byte strings after each step",
        bounds="all pairs of strings over {a, b, NUL, 0xff} up to length 4 (3 under sanitizers) compared, hashed and appended in 10 ways; all pairs of byte values; all ranges of all strings up to length 7 (5); all histories of 6 (5) of 19 operations on one string and 5 (4) of 26 on two; all pairs of lengths to 80 and around powers of two to 5000; every part of strings up to length 35 appended to the string itself",
        assumptions=COMMON),
    "C12": dict(sources=["c12.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of histories of operations on pairs of optionals, expecteds and pointers with lifetime-tracking contents",
        bounds="all histories of 6 (5 under sanitizers) of 18 operations on two optionals and two expecteds, of 12 operations on two owning strings and vectors, of 7 (6) of 12 operations on two owning pointers with polymorphic contents; equality of all pairs of optionals, expecteds, values and errors over 10 content types whose equality is not that of their bits; all histories of 5 (4) assignments of an object's own content to itself; all histories of 7 (6) operations on a chain of objects each of which owns the next",
        assumptions=COMMON),
    "C13": dict(sources=["c13.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of texts and values at every integer type, compared with exact 128-bit decimal arithmetic",
        bounds="all strings over 8 characters up to length 6 (4 under sanitizers) at 11 types; every byte inserted at or replacing every position of 9 numbers; 1500 values around powers of two and ten in 14 spellings; all lists of up to 4 sub-values of 6 texts; all 8 and 16-bit values rendered and read back (thorough: all 32-bit values); lengths to 270 and around powers of two to 70000",
        assumptions=COMMON),
    "C14": dict(sources=["c14.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of texts and values at every floating-point type, compared with the C library",
        bounds="all strings over 12 characters up to length 5 (4 under sanitizers), all sequences of up to 4 (3) of 32 pieces of number syntax, every byte at every position of 8 numbers, 12 mantissas at every decimal exponent in and around the ranges; every float exponent with 768 mantissas (thorough: every float), every double exponent with 64 mantissas; 200 neighbours on each side of 28 values",
        assumptions=COMMON + ["the C library's strtof/strtod/strtold and printf are correct; the C locale is used"]),
    "C15": dict(sources=["c15.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of texts and sub-value lists, compared with reference conversions and renderings",
        bounds="all strings over 12 and over 10 characters up to length 5 (4 under sanitizers), every letter case of true and false with every byte inserted, replaced or removed at every position, all strings of two bytes, all lists of up to 5 (4) sub-values over 6 texts, sizes to 300 and around powers of two to 70000; 24 renderings through commands for all strings over 4 characters up to length 5 (3)",
        assumptions=COMMON),
    "C16": dict(sources=["c16.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of sub-value lists at 20 compound types and as dynamic values, compared with reference conversions",
        bounds="all lists of up to 5 (4 under sanitizers) sub-values over 10 texts; 11 command parameter types x all lists of up to 5 (4) over 7 texts; list and element sizes to 140 and around powers of two to 5000 in 8 shapes; all pairs of strings over 3 characters up to length 3 as values and named values; all strings over 5 characters up to length 6 (4), all byte pairs and lengths to 70000 through the string conversions",
        assumptions=COMMON),
    "C17": dict(sources=["c17.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of lists of named arguments and of scripts of requests made by a command, compared with a plain list",
        bounds="all lists of up to 3 named arguments over 5 keys and 4 (7 for two) values, each asked for 6 keys at 15 types and modes; all scripts of 4 (3 under sanitizers) requests over 14 on 5 inputs; all command lines with up to 3 (2) named arguments over 4 keys, 6 values, 2 spellings; all pairs of keys over 5 characters up to length 3 (2), every byte; counts and lengths to 140 and around powers of two to 5000",
        assumptions=COMMON),
    "C18": dict(sources=["c18.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of histories of reads and writes of ten kinds of variables and properties, compared with plain storage",
        bounds="10 kinds of variables/properties x 12 argument texts, all histories of 3 (2 under sanitizers) for int, text and list values, of 2 for four more types; all histories of 5 (4) steps on one property including writes by the program; all value texts over 7 characters up to length 5 (3); sizes to 200 and around powers of two to 20000; all histories of 5 (4) over names sharing storage",
        assumptions=COMMON),
    "C19": dict(sources=["c19.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration of scripts of actions performed by running commands on their own bindings, every nested and outer execution compared with a model that runs in step",
        bounds="all scripts of 4 (3 under sanitizers) of 17 actions (nested executions, adding, replacing, removing, clearing, lexer changes, errors, output) distributed over executions nested up to 3 deep, from 8 starts, followed by executions at top level; recursion of every depth to 140 and to 514; tables grown by up to 140 and around powers of two to 1026 commands from inside a command",
        assumptions=COMMON + ["a command that replaces or removes itself does not touch its own captures afterwards"]),
    "C22": dict(sources=["c22.cpp"], configs=["asan", "asan0", "relx", "dbg"], level="fault_enumeration",
        technique="exhaustive enumeration of allocation failures: every allocation made by every operation of bounded histories is a choice point of the explorer",
        rule="one case is one operation history together with the choice of which allocations fail; distinct_nontrivial counts distinct complete observations (contents, results, kind of failure)",
        bounds="each scenario enumerates every choice of one failing allocation (two in operations and executions without sanitizers and in the thorough tier): every binding operation on tables of 0..9 other names over every old and new kind of function; 33 command lines covering every kind of command and error, parsed before or by execute; histories of 2 operations (thorough 3-4) from three start tables; all lines of up to 4-5 symbols (thorough 5-7); 12 parameter types with up to 4 sub-values (thorough 5); String, Vector (movable and copy-only elements), UnorderedMap, Optional, Expected histories of 2-5 operations (thorough 4-7); sizes up to some hundreds; first use of the function-local statics of type names",
        assumptions=COMMON + ["only allocations through operator new fail (the library uses no other)", "functions and elements bound by the harness do not throw when moved"]),
    "C21": dict(sources=["c21.cpp"], configs=["asan", "relx", "rel", "dbg", "asan0"], level="fault_enumeration",
        technique="exhaustive enumeration of exceptions: every conversion, copy, move, step, assignment and rendering of every kind of command is a point at which the explorer may throw each kind of exception",
        rule="one case is one history of command lines together with the choice of the points that throw and of what they throw; distinct_nontrivial counts distinct complete observations",
        bounds="44 command lines over 17 kinds of commands (values, references, vectors, optionals, overloads, variables, properties, member and free functions, named arguments), one exception at every point, 17 kinds of exceptions, executed plainly, while another exception is handled and during unwinding; histories of 3 lines (sanitizers 2, thorough 4) with up to 2 exceptions (thorough 3); commands that execute commands to depth 3 with up to 2 exceptions; commands that make up to 3 changes to the table (thorough 4) before throwing; messages of every length to 600 and around powers of two to 70000; output, errors, arguments, repetitions and nesting of every size to 300 and around powers of two",
        assumptions=COMMON),
    "C23": dict(accepted="c23_accepted.cpp", sources=["c23.cpp"], configs=["asan", "asan0", "relx", "dbg"], level="model_checking",
        technique="explicit-state exploration of the real bindings: every history of registrations, removals, moves and calls, with an ownership model of every callable, argument and result",
        bounds="all histories of 4 operations (3 under sanitizers, thorough 5/4) binding 9 kinds of callables to two names in 6 ways, removing, clearing, moving and replacing the bindings, calling; registrations whose callable throws at any of its moves, 1-2 in a row; callables of 1..40 bytes and around powers of two to 65537, alignments to 4096; 16 commands with copyable and move-only parameters (values, references, vectors, optionals) x 7 texts per argument x nested execution; 0..16 arguments with each single conversion failing; vectors to 300 and around powers of two to 5000 elements; tables to 200 and around powers of two to 1100 commands in 6 manners; 30000 calls of the same callables",
        assumptions=COMMON),
    "C24": dict(accepted="c24_accepted.cpp", sources=["c24.cpp", "c24_returns.cpp", "c24_lists.cpp", "c24_members.cpp"], configs=["asan", "rel", "alias"], level="model_checking",
        technique="exhaustive enumeration of the finite space of callable kinds, parameter lists, return types and ways of binding, each instantiated from the real templates, called with every combination of argument texts and compared with a reference",
        bounds="15 kinds of free functions, lambdas and functors x 23 return types and x 20 parameter lists (0-4 parameters; values, const and rvalue references, move-only, user, vector, optional and every arithmetic type; with and without context), 27 kinds of member function and object x 6 return types and x 7 parameter lists, each bound in 4 ways, called with every combination of 7 texts per argument (3 for three and more), 4 values per return type, right and wrong argument counts; every pair of about 270 of them as overloads, as neighbours and replacing each other; all of them in one table and as overloads of one name",
        assumptions=COMMON),
    "C25": dict(sources=["c25.cpp", "c25_values.cpp", "c25_extern.cpp"], configs=["rel", "relx", "ext", "dbg", "alias", "alias2", "gcc3", "gcc0", "asan", "clang0", "clang2", "clang3"], thorough_configs=["gcc0"], level="model_checking", builds_compared=True,
        technique="exhaustive enumeration of commands, conversions, table histories and container histories in every build configuration; the complete observation of each execution is digested and the digests of all builds compared",
        bounds="11 builds: two compilers, -O0 to -O3, sanitizers, assertions, exceptions and alias names on and off, templates compiled once for the program (Extern.h); all strings over 9 characters up to length 5 (6) on a table of 12 functions, token sequences up to 4 (5), all bytes in 17 templates, 18 line shapes at all lengths to 80 and around powers of two, 625 lexer configurations; table histories of 3 (4) steps over 4 names; named arguments, variables, properties, logs, exceptions, reentrancy; 23 types x all texts over 9 characters up to length 4 (5), 90 boundary texts, lists of up to 3; every exponent of float and double; container, string and optional histories of 5 (6) steps",
        assumptions=COMMON + ["what two builds observe is compared by 64-bit hashes of the full text"]),
    "C26": dict(sources=["c26.cpp", "c26_first.cpp", "c26_second.cpp", "c26_first_pairs.cpp", "c26_second_pairs.cpp", "c26_stored.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration: the real conversions and bindings instantiated for 14 user-taught types in every position and executed with every list of texts up to a bound, compared with a reference of each type and with what its converters were asked",
        bounds="14 types (enums and flags taught by partial specialisations, compound, move-only, non-assignable, over-aligned and large, falsy, polymorphic, nested templates, pairs) x 11 positions x given as text or as data x all lists of up to 3 of 10 texts; as named arguments in 3 ways present and absent; all pairs of types x 4 x 4 values; as variables and properties in 6 ways, all histories of 4 (3 under sanitizers, thorough 5) calls; 222 unusual words as values and as the converter's own error; lists to 5000 elements",
        assumptions=COMMON),
    "C27": dict(sources=["c27.cpp"], configs=["asan", "rel"], level="model_checking",
        technique="exhaustive enumeration: every command up to a bound given to the real bindings as text, as data, as the input of a result and by a lexer of the program's own, compared with a reference; every history of installing lexers, moving bindings and executing with an ownership model of the lexers",
        bounds="all commands of 8 names, up to 4 positional arguments with lists of up to 3 of 9 texts, up to 2 (3) named arguments of 5 keys, 222 unusual words in every place; all histories of 4 operations (3 under sanitizers, thorough 5/4) of 11 kinds over two bindings; lexers that run commands of the same bindings while they parse, nested 3 deep; lexer errors of all lengths to 520 and around powers of two to 70000; up to 20000 arguments, sub-values and named arguments",
        assumptions=COMMON),
    "C20": dict(sources=["c20.cpp"], engine_extra=["threads.cpp"], configs=["asan", "relx", "threads"], level="model_checking",
        technique="exhaustive exploration: all interleavings of operations of independent instances in one thread; all schedules up to a preemption bound of two real threads under a controlling scheduler, with every memory access checked for conflicts by vector clocks, each in a fresh process; every observation compared with that of the instances alone",
        bounds="20 compound operations covering bindings, lexers, conversions, variables, named arguments, exceptions, reentrancy and containers; all pairs in both roles with one (thorough: two) preemptions at any synchronisation or operation boundary and either thread first; all sequences of two against one; all operations against all; all interleavings of 2+2 operations in one thread; histories of 5 (6) creations, operations and destructions of 3 sets of instances",
        assumptions=COMMON + ["the C library's functions do not race among themselves except those known to share state (strtok, setlocale, strerror, rand, localtime, environment), which are treated as writes to one location", "schedules that differ only in the order of accesses that do not conflict are equivalent"]),
}
