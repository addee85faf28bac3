missed = {}
design = {
'C01': '''Generated: trees up to depth 4 with aliases, shared prefixes, titles reused in other branches; a random target; each command word spelled by any of its titles; flags interleaved. Oracle: the composer knows the target. Checked: the one handler call, its command argument, exit status, hit counts and hit titles along the path and zero elsewhere.''',
'C02': '''Generated: flags of 17 value types with defaults, values including extremes and texts with blanks, quotes, "=", commas; all spellings (--l=v, --l v, -s=v, -sv, quoted) in random order, repeated, plus unreadable values. Oracle: the last readable value given, else the default; read through the flag and the store.''',
'C03': '''Generated: boolean flags with prefix-sharing titles, written long/alias/short/combined with signs, repeated, hit handlers on some. Oracle: counts, last title, last value, order of handler calls from the composition. The combined-group words are built so that the greedy longest match reproduces the intention (else discarded by construction).''',
'C04': '''Generated: the same titles at several levels; flags placed behind any prefix of the path; foreign flags of siblings or descendants. Oracle: innermost definition in scope; foreign ones are refused. A second sub-check verifies that each flag has its own store entry.''',
'C05': '''Generated: lines with positional words behind leaf commands and anything at all (flag-like, "--", empty, multi-byte) behind the terminator. Oracle: list equality with the composition.''',
'C06': '''Generated: presence, return codes and exceptions (std, biz error, int, a request for an action) of all handlers, pre-handlers and the not-hooked callback, with and without an exception handler set by the application, calls made while the caller handles another exception. Oracle: an interpreter of the documented order producing the expected trace and status; the exception handler is told the escaped exception exactly once, without one it is reported.''',
'C07': '''Three sub-checks: refused (an unknown word anywhere, also a title which is known elsewhere in the tree, also on a second run), tolerant (unknown words injected and skipped; all oracles of C01-C05 apply to the rest), similar (suggestions and feel-like choice against an independent Jaro implementation, threshold 0.83).''',
'C08': '''Generated: required flags at all levels, given or not, on the command line or by environment. Oracle: set inclusion; both error reporting modes.''',
'C09': '''Generated: declaration histories with deliberate clashes in each name space. Oracle: model of taken titles; after a refusal everything declared before is still found and nothing else.''',
'C10': '''Generated: bound and automatic variables of flags of all types at all levels, readable and unreadable texts, with and without the flag on the line. Oracle: precedence rule.''',
'C11': '''Generated: several toggle groups per command at several levels, default choices, sequences of mentions. Oracle: last mention wins; other members off; other groups unaffected.''',
'C12': '''Generated: trees with groups, hidden items, long and multi-byte descriptions, placeholders, environment variables; help asked for in any spelling at any command. Oracle: the multiset of expected lines per section and group heading, re-joined from the wrapped screen; the lines before and behind the lists (description, examples, synopsis, header, closing line) are compared one by one. Also the tree screen (nesting, columns, shown twice), the completion list (plain and for zsh) and the version request.''',
'C13': '''Generated: argument vectors from the program's vocabulary with mutations and arbitrary bytes. Oracle: termination (time limit), sanitizer, status in {handler's, 0, -1}, required flags respected, and two fresh instances agree in trace, values and output.''',
'C14': '''Generated: declaration sequences with optional texts left out. Oracle: look-up of each declared title (plain and extensive) and of undeclared ones; defaults through flag and store.''',
'C15': '''Generated: interleavings of two or three instances with declare/run/reset/run. Before a reset half of the instances get callbacks of every kind, an exception handler and tolerant settings, none of which may be heard after it (runs with unknown words and throwing handlers). Oracle: each behaves as a fresh instance with the same declarations and line.''',
'S01': '''Generated: histories of set/overwrite/read/has/reset over overlapping dotted keys with values of all types, on a bare store and through an application. Oracle: std::map model compared after every operation.''',
'S02': '''Generated: values of all claimed types, random boolean spellings, unreadable texts. Oracle: round trip and type preservation.''',
'S03': '''Generated: histories as in S01, then walks, dumps (with filters), sub-trees, changes through references. Oracle: the model rendered independently.''',
'S04': '''Generated: YAML documents (block and flow style, comments, quoted keys, lists, null entries, all plain/quoted scalars), loaded directly, from --config, from CONFIG_FILE, or from the working folder. Oracle: the generated document.''',
'U01': '''Generated: short strings over small alphabets (so that delimiters and repetitions are frequent) for each helper; environments with references. Oracle: straightforward reference implementations and laws (join after split).''',
'U02': '''Generated: pairs over small alphabets, permutations, misspellings, thresholds at and around the score. Oracle: an independent Jaro implementation.''',
'P01': '''`harness/vt.hh` replaces mutex, condition_variable, thread, future, async and sleeping of the included header by stand-ins of a controlled scheduler: one thread runs at a time, the choices of the case draw the interleaving (stay-until-blocked, random walk, priorities with change points), spurious wake-ups and virtual time; a state without a runnable thread is a deadlock and reported at once. Generated: programs of tasks (value, exception, void, sleeping, nested, groups that wait for one another), 1-3 submitters, pools of 1-4, three ways to end, three pool variants. Oracle: how often each task started and ended, what its future says, how many were under way.''',
'P02': '''Same scheduler. Generated: producers, consumers, messages queued before, clearing when drained or at any step, consumers that hold their first message until every one has one (so a swallowed wake-up is a deadlock). Oracle: deliveries per message; nothing before and after clear(). A sequential sub-check compares the documented newest-first order with a model.''',
'P03': '''Same scheduler. Generated: waiters of all kinds with limits, setters, bool/int/killer variants, and the documented sleep loop. Oracle: the logical times at which settings began and ended against what each wait reported; deadlock detection for lost wake-ups; no real time is involved.''',
'P04': '''Real threads under ThreadSanitizer (`// SAN: thread`), started through a gate that orders nothing (relaxed atomics). Generated: programs over each primitive including its inspecting operations, with payloads written before and read after; threads that log and convert times. Oracle: the race detector, the payloads, and the C library's time conversion.''',
'P05': '''The whole library compiled against the stand-ins of vt.hh. Generated: 1-3 threads, each with own command lines, values, results and exceptions; the handlers yield in the middle. Oracle: never two runs inside, own options before and after the yield, own exit status, number of post-run calls.''',
'S05': '''As P04, on one store. Oracle: the race detector and the set of last writes per key.''',
'O01': '''Generated: histories over four observers and all registration spellings in four configurations, bound callbacks with arguments of their own, signals with slots that take by value, reference or rvalue and spoil what they got. Oracle: a list of registrations and the emitted values.''',
'O02': '''Scheduler of P01. Generated: threads that register (shared, weak, scoped), unregister and emit. Oracle: interval logic on begin/end of every operation (must hear / may hear / must not hear).''',
'Q01': '''Generated: histories of push, pop, pop_front, front, iteration (three styles), dump; keys from a small range so that ties are frequent; eight instantiations. Oracle: a stably sorted list.''',
'T01': '''Generated: times around 1970, day ends and daylight saving changes in seven zones, all stream settings; texts in all forms and junk; months with offsets up to 15 months; durations of every magnitude. Oracle: strftime, an independent civil calendar, reading texts back.''',
'X01': '''Generated: commands which write drawn bytes to both streams and exit or die by a signal, several alive at once, long command lines; nestings of redirections with reads and writes in between; formats and streams written into streams. Oracle: the generated content. Everything happens in a scratch folder with TMPDIR in it.''',
'F01': '''Generated: file names, contents and sizes; histories of own and given mappings with copies, moves, assignments, closing, writing; two processes with mappings. Oracle: the bytes on disk, the descriptor table, existence of files. Scratch folder only.''',
'C16': '''Two sub-checks. added: registrations of callbacks interleaved with the declarations of a generated tree (also empty callbacks and refused duplicates). matched: a composed command line with its sequence of events; matched-callbacks, external sources and hit handlers on a random half of the flags and commands, each recording what it can read at that time; one event may end the run (any aborting action, preferably inside a group of short flags) or request an action. Oracle: the event sequence of the composition.''',
'C17': '''Harness gen.cc. Generated: small trees, lines that are being completed (commands, flags with values) with a word under the cursor, request spellings, SHELL, and states of the folders. The request runs in a child process as an unprivileged user whose home and working folder are scratch folders. Oracle: the script is run by the installed bash with a stub for the program, which records the words it is asked with and answers with the real list; COMPREPLY is compared with the titles of the declared tree; all files below the home folder are compared with a model before and after. zsh is not installed, so only the list for it is checked (C12).''',
'C18': '''Harness help.cc. Generated: trees, command lines, environment variables, settings of the store (also with names that begin like `cli`), one to four ~~debug, ~~cli, and programs without any handler. Oracle: the mentions the line was composed of (number, last title, origin), the settings made; every line of the report must be accounted for.''',
'C19': '''Harness front.cc. Generated: histories of set (in seven forms, values of 18 types), get (in eight forms), has and changes of the store prefix over up to three applications; programs and command lines (as for C02) with built-in switches in front; and, each in a process of its own, the ways to make the first application. Oracle: a map from full key to the last value and its type per application; the command line model; counts of the switches.''',
'D01': '''Harness diag.cc. Generated: threads with log calls of six formats and texts up to some thousand characters in several zones; chains of nested exceptions of six types thrown behind up to 20 calls (also of functions with very long names), dumped one to three times, with and without stacks; sequences of installed handlers and a way to die (raise, kill, a bad pointer, an exception out of main code, a thread or a noexcept function) in a child process; instances of templates. Oracle: snprintf; the lines of each thread in order; an own backtrace taken before; the wait status, what the handler wrote to a pipe and what was on the streams. The binary exports its symbols (-rdynamic).''',
'K01': '''Generated: texts with chained colours and modifiers, orders of manipulators, program screens with colours on and off, environments, window sizes of a pseudo terminal. Oracle: a terminal model that keeps attributes per character (ECMA-48); plain screens against coloured ones with the sequences removed.''',
'L01': '''Generated: wrappers of every kind made in a scope that has ended when they are called, from variables, constants and temporaries, called and copied several times; argument objects that know when they are moved away or destroyed; nested scopes with defers and exceptions; threads meeting at a singleton; factory names; values to print. Oracle: the direct call and exact counts (under AddressSanitizer for what dangles).''',
}
