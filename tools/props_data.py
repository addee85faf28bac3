CLI = ['cmdr_app.hh', 'cmdr_impl.hh', 'cmdr_cmd.hh', 'cmdr_cmd_inl.h', 'cmdr_arg.hh', 'cmdr_internals.hh', 'cmdr_defs.hh']
RUN = 'cli.run(argc, argv): its return value, the handlers it calls, stdout/stderr'
STO = 'the option store: cli.get_for_cli(key), cli.store()'
LVL = 'Exploration: random cases from a seeded generator, each run in a forked worker under AddressSanitizer and judged by %s; failures are shrunk and replayed. Absence of a violation is evidence for the explored cases only.'

prop('C01', 'Command words select exactly the addressed command',
 'For every command tree and every sequence of command words, where each word is the long title, the short title or an alias of a child of the command selected so far (a long title or alias takes precedence over the short title of a sibling), running the application selects the command that the words address. If that command has no sub-commands its handler runs exactly once, with that command as its argument, no other handler runs and the handler result is the exit status; every command on the path, and no other, is recorded as hit with the word that was typed.',
 ['inputs', 'programs'], 'all command trees (any depth, groups, siblings whose titles are prefixes of one another or reused in other branches) and all spellings of all paths in them, with recognised flags interleaved between the words',
 'The demo programs have a fixed tree and the tests run a handful of fixed command lines, printing the result.',
 CLI, [('matching_command', 'cmdr_impl.hh'), ('process_command', 'cmdr_impl.hh'), ('cmd::add title indexes', 'cmdr_cmd_inl.h')], [RUN, 'hit_count()/hit_title() of each command'],
 level_note=LVL % 'a reference resolver over the generated tree')
prop('C02', 'A value given for a flag is the value the program reads',
 'For every flag with a typed default (signed and unsigned integers, floating point, strings, lists of texts) and every value of that type, each documented spelling (--long=value, --long value, --alias=value, -s value, -s=value, -svalue, optional quotes around the value) makes the program read exactly that value through the flag and through the option store, while every other flag keeps its default. When a flag is given several times the last value wins, and a value that cannot be read as a number never becomes the value: the flag keeps its previous one.',
 ['inputs', 'programs'], 'all flag types, values (including extremes, negative numbers, text with spaces, "=" and commas), spellings and orders of flags on one command line',
 'Tests feed one or two literal values per type and print them; values with spaces, extremes or mixed spellings are never tried.',
 CLI + ['cmdr_var_t.hh', 'cmdr_string.hh'], [('process_flag value parsing', 'cmdr_impl.hh'), ('variable >> dispatch', 'cmdr_var_t.hh'), ('strip_quotes', 'cmdr_string.hh')], [RUN, STO, "the flag's value()"],
 level_note=LVL % 'the generated values themselves (round trip) compared in memory and as text')
prop('C03', 'Boolean, combined and repeated flags are recorded exactly',
 'For every set of boolean flags and every way of writing them (long, alias, short, several shorts combined behind one dash, with a trailing + or - per flag), each mentioned flag ends with the value its last mention asks for (on, or off after a "-") and each unmentioned flag keeps its default. Each flag counts exactly the number of its mentions, remembers the title used last and whether it was ever mentioned by a long title or behind "~~", and a hit handler of the flag runs once per mention, in command-line order.',
 ['inputs', 'programs'], 'all flag sets, including titles that are prefixes of other titles, and all mixtures of spellings and repetitions, also when a combined group ends with a flag that takes a value',
 'Tests check two hit counts on fixed command lines; prefix-sharing titles and long mixtures are not exercised.',
 CLI, [('matching_flag_on longest match', 'cmdr_impl.hh'), ('update_hit_count', 'cmdr_arg.hh'), ('process_flag combined loop', 'cmdr_impl.hh')], [RUN, 'hit_count()/hit_title()/hit_long() of each flag', STO],
 level_note=LVL % 'a reference tokenizer working from how the command line was composed')
prop('C04', 'Flags resolve in the innermost command that defines them',
 'A flag is recognised when the current command or one of its ancestors defines it and at no other place: flags of sibling or deeper commands are rejected. When several commands on the path define the same title, the innermost one receives the value and the others keep theirs; each flag of the whole tree has its own entry in the option store, under the path of its command.',
 ['inputs', 'programs'], 'all command trees in which the same titles are defined at several levels, and all positions of the flag relative to the command words',
 'Tests never define one title at two levels or use a flag outside its scope.',
 CLI, [('matching_flag_on owner walk', 'cmdr_impl.hh'), ('dotted_key', 'cmdr_cmd_inl.h'), ('on_arg_matched', 'cmdr_impl.hh')], [RUN, STO],
 level_note=LVL % 'a reference scope lookup')
prop('C05', 'Positional arguments reach the handler unchanged',
 'Every non-empty word that is neither a flag, a flag value nor a command word, and every word (also an empty one) behind the terminator "--", is passed to the selected command exactly once, unchanged and in its original order. Words behind "--" are never interpreted as flags or commands, and "--" itself is not passed on.',
 ['inputs'], 'all interleavings of positional words with recognised flags and values, and all (also flag-like, empty or multi-byte) words behind the terminator',
 'Only one fixed command line with tail arguments exists in the tests.',
 CLI, [('app::run loop', 'cmdr_impl.hh'), ('remain_args', 'cmdr_impl.hh')], ['the argument list given to handlers'],
 level_note=LVL % 'the composed command line (list equality)')
prop('C06', 'Handlers run in order and decide the exit status',
 'For a selected command the global pre-handler, its own pre-handler, its handler, its own post-handler and the global post-handler run in that order; a non-zero result of a pre-handler skips the later pre-handler and the handler, the post-handlers still run, and the exit status is the last pre-handler or handler result. A command without handler falls back to the not-hooked callback; an exception out of a pre-handler skips the later pre-handler and the handler, one out of the handler still runs both post-handlers; it is given to the function for exceptions (if one was set, and reported on the terminal otherwise) and yields exit status -1, except that a cmdr_requests_exception gets the action it asks for run once, with its result as exit status; the post-run callbacks run exactly once whatever happens.',
 ['inputs', 'fault_sequences'], 'all combinations of present and absent handlers, their return codes, and exceptions thrown from the handler',
 'Tests install one or two handlers that return 0 and never throw.',
 CLI, [('invoke_command', 'cmdr_impl.hh'), ('app::run exception handling', 'cmdr_impl.hh')], [RUN],
 level_note=LVL % 'a trace produced by a reference interpreter of the lifecycle')
prop('C07', 'Unknown flags and commands are reported and nothing is run',
 'A command line with an unknown command or an unknown flag runs no command handler, reports the offending word on standard error and ends with exit status 0 (only the post-run callbacks are called), however the rest of the line looks. When the application has declared that unknown commands or flags are no error, they are skipped and the rest of the line is processed as if they were absent; in feel-like mode a misspelled command selects the most similar child if the similarity (Jaro) is at least 0.83, and otherwise the suggestions listed for a misspelling are exactly the titles (of flags: with their dashes) whose similarity reaches the threshold.',
 ['inputs', 'configurations'], 'all trees, all unknown words (random, misspellings, prefixes and extensions of real titles) at all positions, and the tolerant and feel-like modes',
 'Two fixed misspellings are run in tests and only printed.',
 CLI + ['cmdr_string.hh'], [('unknown_command_found / unknown_*_flag_found', 'cmdr_impl.hh'), ('jaro_winkler_distance', 'cmdr_string.hh')], [RUN],
 level_note=LVL % 'absence of handler calls, the reported word, and an independent similarity implementation')
prop('C08', 'A command never runs without its required flags',
 'The handler of a command runs only if every required flag of the command and of all its ancestors was given, on the command line or by its environment variable; otherwise no handler runs, and the caller sees the missing-flag error as an exception if that was asked for and as exit status -1 if not. A complete command line is never refused.',
 ['inputs', 'programs'], 'all placements of required flags over the levels of the tree, all subsets given in all spellings, both reporting modes',
 'The tests have one required flag in one place.',
 CLI, [('check_required_flags', 'cmdr_impl.hh'), ('required_flag_missed', 'cmdr_impl.hh')], [RUN],
 level_note=LVL % 'set inclusion computed from the composed command line')
prop('C09', 'Ambiguous titles are refused when they are declared',
 'Declaring a command whose long title or alias is already a long title or alias of a sibling command, or whose short title is already a short title of a sibling command, is refused, and so is a flag that clashes in the same way with a flag of the same command (long titles and aliases share one name space, short titles have their own, commands and flags are separate): it is refused with the library\'s duplicate error at the moment of the declaration. A refused declaration leaves nothing behind. Declarations without such a clash, including the same titles used in different commands, are always accepted, and afterwards every declared title finds its own command or flag.',
 ['inputs', 'histories'], 'all sequences of command and flag declarations at all levels, with and without clashes between the three kinds of titles',
 'One test declares one duplicate.',
 CLI, [('cmd::add', 'cmdr_cmd_inl.h'), ('dup_error types', 'cmdr_cmd.hh')], ['exceptions from +=', 'look-ups of each title'],
 level_note=LVL % 'a reference set of taken titles')
prop('C10', 'Environment variables preset flags; the command line overrides them',
 'If a variable bound to a flag, or the variable named after the flag\'s full path (upper-cased, with dots and dashes written as underscores, e.g. APP_CLI_SERVER_PORT), is set, then the program reads its text, converted to the flag\'s type, as the flag\'s value, and a flag preset by a bound variable counts as given. Of several bound variables the last one set wins, and a text which cannot be read as the flag\'s type leaves the default. A value on the command line overrides the environment, the environment overrides the declared default, and flags whose variables are not set are unaffected. During a run the variables APP_NAME, SAFE_APP_NAME (with underscores for dashes), APP_VERSION, EXE_PATH, EXE_DIR and EXE_NAME say which program it is.',
 ['inputs', 'configurations'], 'all subsets of set variables over flags of every type at every level, combined with command lines that do or do not give the flags',
 'No test sets an environment variable for a flag and checks the result.',
 CLI + ['cmdr_var_t.hh'], [('apply_env_vars', 'cmdr_impl.hh'), ('walk_args', 'cmdr_cmd_inl.h')], [STO, 'hit_env()'],
 level_note=LVL % 'the precedence rule applied to the generated configuration')
prop('C11', 'Flags of a toggle group exclude one another',
 'For every toggle group of boolean flags and every command line, the group reports as chosen the member mentioned last; after the run this member is on and all other members are off in the option store, and other groups are unaffected. A group of which no member was mentioned keeps the declared defaults and reports the default member.',
 ['inputs', 'programs'], 'all groups (several per command, at any level), all default choices and all sequences of mentions',
 'One fixed toggle example is printed by a test.',
 CLI, [('toggle group bookkeeping', 'cmdr_impl.hh'), ('toggle_group_set', 'cmdr_cmd_inl.h')], [STO, 'toggle_group(name)'],
 level_note=LVL % 'last-mention-wins computed from the composed command line')
prop('C12', 'Help lists every visible command and flag of its scope',
 'The help screen of a command lists every non-hidden sub-command and every non-hidden flag of the command and of its ancestors exactly once, with all of its titles and its description (wrapped, but never cutting a multi-byte character), those with a group under the heading of that group, and lists no hidden item (unless help is asked for three times) and nothing of other commands; before the lists it shows the name and version, the description and examples of the command and its synopsis, and after them the closing line and the ending, each as set by the application or absent if switched off; all descriptions of a screen and their further lines begin in one column, not before the tab stop set; asking for help never runs a handler and yields exit status 0. The tree screen lists every visible command of the whole tree at its level, the descriptions in one column, and looks the same when asked for again, the shell completion list has one line with the titles of each of the listed commands and flags (for zsh, one line per long or short title with its escaped description), and a version request prints exactly the version (or the one given by --version-sim); a build-info request shows the name and the version.',
 ['inputs', 'programs'], 'all trees (title lengths, groups, hidden items, descriptions) and all commands help is asked for, in all spellings of the help request',
 'Tests print one help screen of a fixed program and check nothing.',
 CLI + ['cmdr_terminal.hh'], [('print_usages / print_cmd', 'cmdr_impl.hh'), ('print_commands / print_flags / sort_keys', 'cmdr_cmd_inl.h'), ('print_tree_screen', 'cmdr_imp1.hh')], ['standard output'],
 level_note=LVL % 'a multiset of expected lines computed from the tree')
prop('C13', 'Any command line ends in a defined result',
 'For every program and every argument vector, including arbitrary bytes, empty words, stray dashes, missing values and unbalanced quotes, a run terminates without crashing, touching invalid memory or letting an exception out, and returns the status of the one handler that ran, 0, or -1. Running the same command line in another fresh instance of the program gives the same result.',
 ['inputs', 'programs'], 'all argument vectors: words built from the vocabulary of the program with mutations, plus arbitrary byte strings',
 'Tests only feed well-formed lines.',
 CLI + ['cmdr_var_t.hh', 'cmdr_string.hh', 'cmdr_chrono.hh'], [('app::run', 'cmdr_impl.hh'), ('variable >> dispatch', 'cmdr_var_t.hh')], [RUN],
 level_note=LVL % 'memory-safety instrumentation, a time limit and a run-twice comparison')
prop('C14', 'Declared commands and flags can be looked up with their defaults',
 'After any sequence of declarations every command and flag is found from its parent by its long title (and, in extensive look-ups, by its short title and aliases), reports its parent and full path, and before a run reads its declared default through the flag and through the option store. Look-ups of undeclared titles yield the invalid object and never a wrong one. This holds whichever of the optional texts of the application and its commands and flags are left out.',
 ['inputs', 'programs'], 'all declaration sequences and all titles looked up',
 'Tests look up two literal titles.',
 CLI, [('find_command / find_flag', 'cmdr_cmd_inl.h'), ('on_arg_added', 'cmdr_impl.hh'), ('dotted_key', 'cmdr_cmd_inl.h')], ['operator() / operator[]', STO],
 level_note=LVL % 'the generated tree')
prop('C15', 'Application instances do not influence one another',
 'Running one application object has no effect on the flags, values, hits or option store of another one, and an application that was reset and declared anew behaves like a fresh one on every command line.',
 ['histories'], 'all sequences of create, declare, run, reset and run again with random programs and command lines',
 'Tests create one application per process, or run without comparing.',
 CLI, [('app::reset', 'cmdr_impl.hh'), ('app::create_new', 'cmdr_app_inl.h')], [RUN, STO],
 level_note=LVL % 'comparison with a fresh instance given the same program and command line')

prop('S01', 'The option store behaves like a map of dotted paths',
 'After every history of assignments (values of all types, at any depth, overwriting values and passing through keys that already hold values) reading a key yields the value assigned last, a key that was never assigned reads as empty, existence queries agree with that, and reading a value as another type than the stored one is refused with an exception. Assigning one key never changes another, a prefixed access equals the access with the joined key, and a reset empties the store.',
 ['histories'], 'all histories of set, overwrite, read, existence and reset operations over overlapping dotted keys',
 'Tests set a dozen literal keys and print the tree.',
 ['cmdr_var_t.hh', 'cmdr_var_t_inl.h'], [('nodeT::_set', 'cmdr_var_t.hh'), ('_get_raw / _get_raw_p / has', 'cmdr_var_t_inl.h')], ['get_raw, get_raw_p, has'],
 level_note=LVL % 'a std::map model compared after every operation')
prop('S02', 'Option values survive a trip through their text form',
 'For every supported value type (booleans, integers, floating point to the printed precision of six digits, texts, complex numbers, lists whose elements have no commas or quotes), writing a value as text and reading that text into a variable of the same type gives the value back, and the readable spellings of booleans (1/0, t/f, true/false, y/n, yes/no, on/off in any case) mean what they say. Reading a text never changes the type a variable holds, and a text which cannot be read leaves its value.',
 ['inputs'], 'all values of all supported scalar, string, list and complex types',
 'Tests convert a few literals and print them.',
 ['cmdr_var_t.hh', 'cmdr_string.hh', 'cmdr_chrono.hh'], [('variable << and >>', 'cmdr_var_t.hh'), ('parse_bool/parse_array/parse_complex', 'cmdr_var_t.hh')], ['as_string(), >>, as<T>()'],
 level_note=LVL % 'equality after the round trip')
prop('S03', 'Walking, dumping and sub-trees agree with the stored content',
 'Walking the store visits every assigned key exactly once, in ascending order, with its current value; the key dump and the tree dump show exactly these entries, a filter removes exactly the entries it rejects, and the sub-tree of a prefix contains exactly the keys below that prefix. Changes through a sub-tree or a returned reference are visible through the full key.',
 ['histories'], 'all store contents reachable by random assignment histories, all prefixes and filters',
 'Tests print dumps without checking them.',
 ['cmdr_var_t.hh', 'cmdr_var_t_inl.h'], [('walk_by_full_keys / print_sorted', 'cmdr_var_t_inl.h'), ('dump_tree_f', 'cmdr_var_t_inl.h'), ('subtree', 'cmdr_var_t_inl.h')], ['walk_by_full_keys, dump_full_keys_f, dump_tree_f, subtree'],
 level_note=LVL % 'the std::map model of the same history')
prop('S04', 'A YAML file is loaded into the option store completely',
 'After loading a YAML document every scalar and list of the document is readable in the option store under the dotted path of its position, as the boolean, text or list which it denotes (a number as a number or as its text), replacing what was there; null entries are ignored, and options the document does not mention are unchanged. This holds for a file loaded directly, named by --config or by the variable CONFIG_FILE, or found in the working folder.',
 ['inputs'], 'all documents of nested maps with scalars and scalar lists',
 'One fixed file is loaded and printed.',
 ['addons/loaders/yaml_loader.hh', 'cmdr_var_t.hh'], [('yaml_loader_t', 'addons/loaders/yaml_loader.hh')], [STO],
 level_note=LVL % 'the generated document')

prop('U01', 'String helpers compute what their names say, for every input',
 'Splitting (a delimiter at the end only ends the last part), tokenizing, joining, replacing, trimming, case conversion, prefix/suffix tests, wrapping, padding, quote stripping and delimiter-bounded reading agree with their obvious definitions for every input, including empty strings and delimiters at the ends; joining the pieces of a split text gives the text back. Environment expansion replaces every $NAME and ${NAME} by the value of the variable. None of them reads outside its input or fails to terminate.',
 ['inputs'], 'all short strings over small alphabets, all delimiters',
 'Tests use one or two literals per helper.',
 ['cmdr_string.hh'], [('cmdr::string functions', 'cmdr_string.hh')], ['return values'],
 level_note=LVL % 'independent reference implementations and algebraic laws')
prop('U02', 'Similarity scores are Jaro similarities',
 'The similarity of two texts equals their Jaro similarity: it lies between 0 and 1, is 1 exactly for equal texts, 0 when nothing matches, and ignores case exactly when asked to. A pair counts as matched exactly when its score reaches the threshold.',
 ['inputs'], 'all pairs of short texts over small alphabets, misspellings of random words, all thresholds',
 'Tests print five literal pairs.',
 ['cmdr_string.hh'], [('jaro_winkler_distance', 'cmdr_string.hh')], ['operator(), calculate().matched(), get_distance()'],
 level_note=LVL % 'an independent implementation of the published definition')
SCHED = 'a controlled scheduler that draws the interleaving, spurious wake-ups and virtual time, and the model of each program'
prop('P01', 'A thread pool runs every task exactly once and delivers its result',
 'Every task that is given to a thread pool (thread_pool or thread_pool_lite, of any size, from any number of threads, also from inside a task) is run at most once, by a pool thread; its future delivers exactly its result or the exception it threw, and waiting for the futures of all tasks always comes to an end, also when tasks wait for one another and no more of them than the pool has threads. The tasks of a pool of n threads overlap up to n at a time and never more, active_threads() counts at least the tasks under way and at most n, and total_threads() is n until the pool is joined. Arguments given to thread_pool_lite::enqueue reach the task as they were at that time. Destroying or joining a pool ends: no task runs afterwards, every task that was begun is finished, thread_pool_lite first runs everything that was queued, and with thread_pool a task that was not begun is reported to its future as a broken promise rather than left pending.',
 ['schedules', 'programs'], 'all programs of tasks and submitting threads, all pool sizes, all points at which the pool is destroyed, under every interleaving of the threads including spurious wake-ups',
 'The tests queue a few tasks and wait; an unlucky interleaving has a negligible chance to occur there.',
 ['cmdr_pool.hh'], [('thread_pool::queue_task/join/run', 'cmdr_pool.hh'), ('thread_pool_lite::enqueue/destructor', 'cmdr_pool.hh'), ('threaded_message_queue', 'cmdr_pool.hh')], ['futures of the tasks', 'which tasks ran, how often, and how many at once'],
 level_note=LVL % SCHED)
prop('P02', 'A message queue delivers every message exactly once',
 'Every message put into a threaded_message_queue by any thread is handed out by pop_front() exactly once, unchanged, to one of the waiting or later consumers, unless the queue is cleared first; waiting consumers are woken as long as there are messages for them. pop_front() returns nothing only when the queue was cleared, clear() wakes all consumers, and nothing is handed out after it. With one thread the newest message comes out first, and empty() says whether there is any.',
 ['schedules', 'histories'], 'all numbers of producers, consumers and messages, all moments of clearing, under every interleaving including spurious wake-ups',
 'The queue is only tested indirectly, with one fixed pool.',
 ['cmdr_pool.hh'], [('threaded_message_queue::pop_front/emplace_back/clear/empty', 'cmdr_pool.hh')], ['the results of pop_front() in each consumer', 'termination of the consumers'],
 level_note=LVL % SCHED)
prop('P03', 'Conditional waits end when, and only when, the condition was set',
 'On a conditional_wait object (conditional_wait_for_bool, conditional_wait_for_int, timer_killer) wait() and the waits without limit return only when the condition was set (the int form: often enough), and all of them do return once it was set for all. A wait with a limit reports success only if the condition was set and gives up not before its limit; if the condition was set before the call it always reports success, also with a limit that has passed. A setting is never lost, whatever it coincides with, and stays: val() counts or shows all of them, and the documented patterns (a loop around timer_killer::wait_for that ends on kill(), cw_setter counting finished workers) end.',
 ['schedules', 'programs'], 'all numbers of waiters and setters, all kinds of waits and limits, under every interleaving including spurious wake-ups and time-outs that coincide with a setting',
 'Tests use one waiter and one setter with generous sleeps.',
 ['cmdr_pool.hh'], [('conditional_wait::wait/wait_for/wait_until/set', 'cmdr_pool.hh'), ('timer_killer', 'cmdr_pool.hh'), ('cw_setter', 'cmdr_pool.hh')], ['results and termination of the waits'],
 level_note=LVL % SCHED)
prop('P04', 'Concurrent use of pools, queues, waits, observers, log and times is race-free',
 'Threads that use one thread pool, message queue, conditional wait, timer killer or thread-safe observable at the same time, through any of their documented operations including the inspecting ones (empty(), terminated(), val() after a wait, the counters of the pool), never race on their memory, and neither do threads that write log lines or convert and format times; and what a thread wrote before queueing a task, sending a message, setting a condition or emitting an event is visible to whoever is run, receives, waits or observes because of it.',
 ['schedules'], 'all combinations of threads and operations on one object',
 'Tests run without a race detector and never use the inspecting operations concurrently.',
 ['cmdr_pool.hh', 'cmdr_common.hh'], [('thread_pool, thread_pool_lite, threaded_message_queue, conditional_wait, timer_killer', 'cmdr_pool.hh'), ('observable', 'cmdr_common.hh')], ['reports of ThreadSanitizer', 'payloads read by the receiver'],
 level_note='Exploration: random programs executed by real threads under ThreadSanitizer (happens-before analysis of each execution, so that a race is found without having to strike), plus payload checks. The failing program is shrunk and replayed. Absence of a violation is evidence for the explored cases only.')
prop('P05', 'Concurrent runs of one application are serialised',
 'When several threads call run() of one application at the same time, the runs do not overlap: each run calls the handlers of its own command line, which read the options of their own command line throughout, and returns the exit status of its own handler (also when one throws); the post-run callbacks are called once for each run.',
 ['schedules', 'programs'], 'all numbers of threads and all command lines and results they run with, under every interleaving',
 'The tests never call run() from two threads.',
 CLI, [('app::run lock', 'cmdr_impl.hh')], [RUN, STO],
 level_note=LVL % SCHED)
prop('S05', 'Concurrent writers of the option store lose nothing',
 'Threads that set keys of one option store (store::set_raw) at the same time, keys of their own or the same ones, creating branches on the way or not, never race on its memory; afterwards every key exists and reads the last value that one of its writers gave it.',
 ['schedules', 'inputs'], 'all numbers of threads, keys and values, under real concurrency',
 'The tests use the store from one thread.',
 ['cmdr_var_t.hh'], [('store / nodeT::set_raw lock', 'cmdr_var_t.hh')], ['the store after the threads ended', 'reports of ThreadSanitizer'],
 level_note='Exploration: random programs executed by real threads under ThreadSanitizer, and the final content compared with the set of last writes. Absence of a violation is evidence for the explored cases only.')
prop('O01', 'Every registered listener hears every event, once and in order',
 'For every history of adding, removing and emitting on an observable, every emission calls each registered observer once per registration, in the order of registration, with the emitted event; an observer that was removed (by pointer, shared pointer, operator or the end of a registerer\'s scope) or has been destroyed is not called, and the others still are. Callbacks bound with observable_bindable::on/add_callback, and slots connected to a signal (functions, lambdas, member functions, with arguments of their own or not), are all called in the order of connection, each with the values as they were emitted, whatever an earlier slot does with its copy.',
 ['histories', 'inputs'], 'all histories with up to four observers and ten callbacks or slots, all four configurations of the observable (locking or not, copy-on-emit or not), all parameter passing modes of slots',
 'Tests register one or two listeners and emit once.',
 ['cmdr_common.hh'], [('observable', 'cmdr_common.hh'), ('observable_bindable', 'cmdr_common.hh'), ('signal', 'cmdr_common.hh'), ('registerer', 'cmdr_common.hh')], ['the calls each listener gets'],
 level_note=LVL % 'a reference list of registrations')
prop('O02', 'Thread-safe observables neither lose nor repeat a notification',
 'On a thread-safe observable, with threads registering, unregistering and emitting at the same time: an observer that is registered during a whole emission hears that event, one that is not registered at any time during it does not, no observer hears an event more often than it was registered, and every operation comes to an end.',
 ['schedules', 'histories'], 'all programs of up to three threads, both modes of emission (copy-and-swap or in place), under every interleaving',
 'No test uses an observable from two threads.',
 ['cmdr_common.hh'], [('observable::add_observer/remove_observer/emit', 'cmdr_common.hh')], ['the calls each observer gets, ordered against begin and end of each operation'],
 level_note=LVL % SCHED)
prop('Q01', 'The priority queue pops the best first, equals first-come first-served',
 'For every history of pushes and pops on a priority_queue, pop() and front() give the element which the comparator ranks highest (lowest for the reversed queue) and, among those that rank the same, the one pushed first; every element comes out exactly once and unchanged, size() and empty() agree with what is inside, iterating and dump() visit all elements in exactly the order in which they would be popped, and popping an empty queue gives the null element.',
 ['histories', 'inputs'], 'all histories of pushes, pops and looks, all element orders and ties, comparators that answer by sign or by difference, list, deque and nested containers, both directions',
 'The tests push a fixed list once and print it.',
 ['cmdr_priority_queue.hh'], [('priority_queue::push/pop/front', 'cmdr_priority_queue.hh'), ('iterator and traversals', 'cmdr_priority_queue.hh')], ['results of pop(), front(), size(), iteration and dump()'],
 level_note=LVL % 'a stably sorted list')
prop('T01', 'Times and durations are formatted, parsed and computed exactly',
 'The text made from a time point shows the date and time it has in the chosen zone (GMT or local), with its fraction in exactly the chosen number of digits (3, 6 or 9), for times before and after 1970, and leaves the stream and settings as they were; the text made from a duration, read back by its units, is that duration, given in the largest possible units from the first one that is not zero, the same text for the same length in any unit and for an option value that holds it. A date, time or both in one of the known forms is parsed to exactly the moment it says, a text without one is refused and changes nothing. The last day of a month or year (with offsets from 1 to 31 or 366, any other offset changes nothing) is the right calendar day, comparing date parts orders by local calendar day, conversions between time_t, tm and time points are faithful, all across leap years, year ends and daylight saving changes of any zone; broken down into units the parts of a duration add up to it.',
 ['inputs', 'configurations'], 'all time points from 1903 to 2233, all durations of 64-bit nanoseconds, seven time zones with and without daylight saving',
 'Tests print the current time and compare a few literal dates in one zone.',
 ['cmdr_chrono.hh'], [('format_time_point, format_duration, serialize_time_point', 'cmdr_chrono.hh'), ('parse_datetime, try_parse_by', 'cmdr_chrono.hh'), ('last_day_at_this_month/year, compare_date_part', 'cmdr_chrono.hh')], ['the returned texts and times'],
 level_note=LVL % 'libc\'s strftime, an independent civil calendar and reading the text back')
prop('X01', 'Command output, exit status and redirected streams arrive complete',
 'process::exec delivers everything the command wrote to standard output and to standard error, unmixed, byte for byte and in any amount, with any number of them alive at once, and its exit status (also of a command ended by a signal). While a stream redirection (cout, cerr, cin, any nesting) is alive everything written or read goes to its target, and after its end to where it went before. Savers put back a stream\'s format. Writing one stream into another passes on its whole content and leaves the target usable.',
 ['inputs', 'histories'], 'all outputs (sizes up to several pipe buffers, all bytes), exit statuses and signals, command lengths, all nestings of redirections, all stream formats',
 'Tests run one short command and print its output.',
 ['cmdr_process.hh', 'cmdr_ios.hh'], [('process::exec', 'cmdr_process.hh'), ('cin/cout/cerr redirects', 'cmdr_ios.hh'), ('ios_flags_saver, ios_state_saver', 'cmdr_ios.hh')], ['the stream of the command, stderr_stream(), ret_code()', 'content of the targets'],
 level_note=LVL % 'the commands, which are generated together with what they write')
prop('F01', 'Files and memory mappings hold exactly what was written',
 'The file helpers do what they say and report it truthfully: ensure_file/ensure_directory make what is missing and leave what exists alone, writing and reading back a file gives the same bytes, a sparse file has exactly the wanted size and reads as zeros, delete_file removes the file and nothing else, path parts are the parts of the path, and temporary names are never given twice, in threads or processes. A memory mapping shows exactly the bytes of its file, a shared one writes through and a private one does not, mappings of their own files never overlap one another or those of other processes and remove the file at their end; copies, moves and assignments of a mapping stay usable until the last one is gone, and neither a file descriptor nor a mapping is left behind.',
 ['inputs', 'histories'], 'all contents and sizes (including 0), all histories of opening, copying, moving, writing and closing of mappings, two processes',
 'Tests map one file and print it.',
 ['cmdr_path.hh', 'cmdr_mmap.hh'], [('io::read_file_content, create_sparse_file, delete_file', 'cmdr_path.hh'), ('tmpname_autoincr', 'cmdr_path.hh'), ('mmaplib, mmap, mmap_um', 'cmdr_mmap.hh')], ['file contents on disk', 'data(), size(), is_open() of mappings', 'open descriptors'],
 level_note=LVL % 'the bytes that were written, the file system and the descriptor table')
prop('C16', 'Callbacks hear every declaration, match and hit once, in order',
 'The added-callbacks of an application are called once, in the order of registration, for each command and flag that is declared after their registration (and not for refused ones), when it can already be found with its default. During a run the callbacks for external sources are called once each before anything of the command line is read, and what they set holds unless the command line says otherwise; the matched-callbacks are called once for each command word and each mention of a flag, in command-line order and in the order of registration, when the new value, title and count can already be read; then the hit handler of that command or flag is called, with the command selected so far and exactly the words that are still unread. A hit handler that answers Abortion (or beyond) or a negative action ends the run at once with exit status 0 and no command handler; one that requests an action (at the last flag or command word) gets the action that was registered last for it run exactly once instead of the command, with its result as exit status.',
 ['programs', 'inputs', 'histories'], 'all command trees, interleavings of registrations and declarations, command lines, and answers of all hit handlers',
 'The demo program registers no such callbacks, and the tests have no handlers that end or redirect a run.',
 CLI, [('on_arg_added, on_cmd_added, on_arg_matched, on_cmd_matched, on_loading_externals', 'cmdr_impl.hh'), ('process_command, process_flag', 'cmdr_impl.hh'), ('after_run, internal_action', 'cmdr_impl.hh')], ['the calls of all callbacks with what they can read', RUN],
 level_note=LVL % 'the sequence of events of the composed command line')
prop('C17', 'The bash completion script offers exactly what can come next',
 '`generate shell` writes a bash script named after the program (or after --name, with every dash as an underscore) that bash accepts and registers for the program. Completing a word with it asks the program for the list of the words before that word, and offers exactly the titles of that list which begin with what was typed: every visible sub-command of the selected command and every visible flag in scope, and nothing else. The script goes to the working folder, or with --feel-like into the first bash_completion.d folder that can be written, and with --stdout to the standard output too; --drop removes that file and no other; --dry-run changes no file at all; nothing is written for other shells. The shell is the one asked for, or the one of the SHELL variable.',
 ['programs', 'inputs', 'configurations'], 'all command trees, lines that are being completed, request spellings, folder states and values of SHELL',
 'No test generates or runs the script.',
 ['cmdr_app_inl.h', 'cmdr_cmd_inl.h'], [('generate_bash_completion, on_generate_shell_completion, _write_bash_comp_file_to', 'cmdr_app_inl.h'), ('print_commands / print_flags', 'cmdr_cmd_inl.h'), ('print_cmd', 'cmdr_impl.hh')], ['COMPREPLY in a real bash', 'all files of the home and working folders', 'standard output'],
 level_note=LVL % 'the declared tree and a model of the folders; the script runs in the installed bash')
prop('C18', 'The debug report lists exactly what was given, and the settings',
 'A ~~debug at the end of the options of a command line runs no command and reports the selected command and each flag that was given on the line or by an environment variable, exactly once, with how often and under which title (or variable) it was given last, its full key and its value; nothing else is reported. Given twice it also lists every setting of the option store with its value once, and given three times also as a tree; settings of the command line interface itself (under app.cli) are left out unless ~~cli is given, and no other setting is. A command without any handler (and no handler for such commands) reports its name, the remaining words in order and the same flags, with exit status 0, and the built-in command print reports the same.',
 ['programs', 'inputs', 'configurations'], 'all programs, command lines, environments and settings',
 'No test asks for the report.',
 CLI, [('on_invoking_print_cmd, print_debug_info_screen', 'cmdr_app_inl.h'), ('update_hit_count, hit_title', 'cmdr_arg.hh'), ('dump_full_keys_f, dump_tree_f', 'cmdr_var_t.hh')], ['standard output', 'exit status'],
 level_note=LVL % 'the composed command line and the settings that were made')
prop('C19', 'Ready-made accessors speak for the current application',
 'cmdr::cli() and cmdr::new_cli() (or app::create) make the first application of a process with exactly the given name, version, author, copyright and description; later calls of cli() give that application unchanged and new_cli() is refused, and get_app(), get_store() and uniq() are the application created last. cmdr::set, get, has and app::set, get, has work on the settings under the store prefix of that application (as it is set at the time): what was set last under a key is read back with its exact value and type by every form of get, never from another application or prefix; a setting of another type or one which was never set is refused, not misread, and reading does not create it; text can be read as characters, and other values as characters give the empty text. After a run get_for_cli gives the value of every flag, is_verbose, is_debug, is_trace, is_quiet, is_no_color and is_help_hit tell exactly which of these switches were given, and get_verbose_level how often --verbose was.',
 ['inputs', 'histories'], 'all histories of sets, gets and changes of prefixes over several applications, all value types, programs and command lines',
 'Tests read a handful of settings of one application once.',
 ['cmdr_public.hh', 'cmdr_app.hh', 'cmdr_app_inl.h', 'cmdr_internals.hh', 'cmdr_var_t.hh'], [('cli, new_cli, get, set, has, get_for_cli, is_*', 'cmdr_public.hh'), ('app::get, set, has, store_prefix', 'cmdr_app.hh'), ('app_holder', 'cmdr_internals.hh'), ('variable::cast_as', 'cmdr_var_t.hh')], ['values and types read', 'exceptions', 'the option store'],
 level_note=LVL % 'a map per application and the command line model')
prop('K01', 'Colours show exactly the text as chosen, and nothing when they are off',
 'A text written through the colorizer shows exactly its characters, in exactly the chosen foreground, background and modifiers (bold, dim, italic, underline, blink, inverse, hidden, strike; 16, 256 and true colours), and what is written afterwards is shown plainly again. The stream manipulators switch exactly the style, colour or reset they name, on a stream with colours. When colours are off (by set_default_colorful(false), enable(false) or --no-color) no escape sequence at all is written; the help, completion, tree and debug screens in colours are the plain ones once the escape sequences are removed. terminfo reports from TERM and COLORTERM whether and how many colours there are, and the size of the terminal window (defaults where it is unknown).',
 ['inputs', 'configurations'], 'all texts, all colours and combinations of modifiers, all orders of manipulators, all program screens, all values of TERM and COLORTERM, all window sizes',
 'Tests print some coloured text for a human to look at, and compare nothing.',
 ['cmdr_terminal.hh', 'cmdr_impl.hh', 'cmdr_app_inl.h'], [('colorize, colorize::coloring', 'cmdr_terminal.hh'), ('operator<< of style, fg, bg, reset', 'cmdr_terminal.hh'), ('terminfo, terminal size', 'cmdr_terminal.hh'), ('print_usages, --no-color', 'cmdr_impl.hh')], ['the characters and attributes of a terminal that is fed with the output'],
 level_note=LVL % 'a model of a terminal (ECMA-48 select graphic rendition)')
prop('L01', 'Function tools pass on every argument and result, exactly once',
 'Function objects made by bind, easy_bind, bind_this, cool::partial, cool::curry (in any grouping), cool::bind_tie, traits::lambda, to_function, l2f and piped call the wrapped function exactly once for each complete call, with exactly the bound and then the given arguments in their places, and return its result; what was bound is kept as it was, however often they are called or copied and even if the originals are gone (an object bound by pointer is the original). The function of a defer runs exactly once, at the end of its scope, last declared first, also when an exception leaves the scope. A singleton is made exactly once, also when threads meet at its first use. A factory makes exactly one product, of exactly the named class and with the given arguments, and nothing for an unknown name; visit_any_as visits a value once as its first listed type or throws. Values, lists, tuples and enumerations are printed completely to the given stream; is_in, compare_vector_values and combined hashes answer by value.',
 ['inputs', 'programs', 'schedules'], 'all argument values, splits into bound and given arguments, value categories, repetitions, nestings of scopes with exceptions, product names and types',
 'The tests call each wrapper once with fixed arguments that outlive it.',
 ['cmdr_common.hh', 'cmdr_utils.hh', 'cmdr_pipeable.hh', 'cmdr_defs.hh'], [('bind, easy_bind, bind_this, partial, curry, bind_tie', 'cmdr_common.hh'), ('defer, singleton', 'cmdr_common.hh'), ('factory, visit_any_as', 'cmdr_utils.hh'), ('piped', 'cmdr_pipeable.hh'), ('vector_to_string, tuple and enum output', 'cmdr_defs.hh')], ['the calls the wrapped functions get', 'results', 'constructions and destructions', 'printed texts'],
 level_note=LVL % 'the direct call, and counting of calls and objects')
prop('D01', 'Diagnostics say exactly what happened, once',
 'Every cmdr_print (and, in a debug build, cmdr_debug) writes exactly one whole line to standard output: the current UTC date and time, its text as printf formats it, of any length, and its own source file, line and function; lines of several threads are never mixed, and its arguments are evaluated once. The what() of a cmdr exception is its text, two spaces, file and line, and its stack holds the calls that led to it up to the first one of the process; dumping an exception shows it (and with stacks every nested one, outermost first, each one more space indented) exactly once, with its text and the place of the dump, and its stack with the real names of the functions, and shows the same when it is dumped again. When an exception is not handled or a signal arrives for which a handler was installed, the function given to the handler installed last for it is called exactly once, with the signal, standard error names the signal, and the process exits with status 1, not losing output that was written before. Type names are the full names of the types as the source spells them, short_type_name() is the part behind the last scope, demangling gives the name, or the text itself if it is none.',
 ['inputs', 'schedules', 'fault_sequences'], 'all formats, texts and lengths, interleavings of threads, depths of calls and nestings of exceptions, orders of installing handlers, ways to die',
 'Tests print log lines and stacks for a human to look at; no test dies.',
 ['cmdr_log.hh', 'cmdr_dbg.hh'], [('Log::vdebug, cmdr_print', 'cmdr_log.hh'), ('cmdr_exception, save_stacktrace, dump_stacktrace', 'cmdr_dbg.hh'), ('UnhandledExceptionHookInstaller, SigSegVInstaller, SignalInstaller', 'cmdr_dbg.hh'), ('type_name, type, demangle', 'cmdr_dbg.hh')], ['standard output and standard error', 'exit status of a child process', 'what() and stacktrace()'],
 level_note=LVL % 'printf, a backtrace taken by the check itself, and counting')
