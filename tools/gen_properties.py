#!/usr/bin/env python3
"""Regenerates properties.jsonl (the source of truth is the table below)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, obs=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=obs or [], hook_needed=hook)))
I,H,F,C,CP,PR,S = "inputs","histories","fault_sequences","configurations","crash_points","programs","schedules"

p("C01","Hash table is a finite map from keys to data",
 "After any sequence of insertions, deletions and look-ups, on any number of tables, with the default string hash or any user hash/compare pair (including colliding, constant and 64-bit hashes), a hash table answers exactly like a finite map: inserting a new key returns 0 and stores key and datum pointers unchanged, inserting a present key returns 1 and changes nothing, deleting returns 0 exactly when the key was present, and a look-up returns the stored datum or NULL. Tables do not influence one another, and the table never frees, copies or writes to the caller's keys and data. The supplied default comparison and hash functions agree: equal strings hash equally, and equal pointers hash equally.",
 [I,H], "All operation sequences, key sets, hash functions and table sizes (from empty through many resizes).",
 "The hash test runs one fixed workload of a few thousand keys with the default hash and prints it; it does not delete between growths, mix tables, or use hostile hash functions.",
 ["maa/hash.c","maa/prime.c"],
 [("bucket lists searched with the compare function before inserting","maa/hash.c:hsh_insert"),("stored hash reused when rehashing","maa/hash.c:_hsh_insert"),("unlinking from bucket list","maa/hash.c:hsh_delete"),("move-to-front on look-up","maa/hash.c:hsh_retrieve")],
 [("bucket lists","chain of entries per hash value modulo the table size","struct table.buckets"),("entry count","number of live entries","struct table.entries")],
 ["return values of hsh_insert, hsh_delete, hsh_retrieve, hsh_iterate"])

p("C02","Iterating a hash table or set visits every entry exactly once",
 "Walking a hash table or a set, by callback or by position macro, presents each entry present at the start exactly once and nothing else, whatever look-ups are made during the walk, and for hash-table callbacks also when the callback deletes the entry it is given. A callback that returns non-zero stops the walk at once and makes it return non-zero; otherwise it returns zero. A position walk marks the container read-only until it ends or is ended explicitly, setting the read-only mark returns the previous mark, a callback walk over a set restores the mark it found, and after any completed or properly ended walk the container accepts modifications again.",
 [I,H], "All container contents and bucket layouts, stop points, nesting of callback walks, look-ups and deletions inside the walk.",
 "The tests iterate complete tables built once, never look up or delete during a walk, and never stop early at each position.",
 ["maa/hash.c","maa/set.c"],
 [("next pointer saved before the callback runs","maa/hash.c:hsh_iterate, hsh_iterate_arg"),("read-only flag set by first position, cleared at the end","maa/hash.c:hsh_init_position, hsh_next_position"),("saved and restored read-only flag","maa/set.c:set_iterate, set_iterate_arg"),("next bucket computed from the stored hash","maa/hash.c:hsh_next_position; maa/set.c:set_next_position")],
 [("read-only flag","modification refused and self-organisation off","struct table.readonly, struct set.readonly")],
 ["sequence of (key, datum) pairs presented","return values","hsh_readonly/set_readonly results"])

p("C03","Hash tables and sets grow and account truthfully",
 "A hash table's or set's reported size is always a prime; it starts with a prime size, grows by at least a factor of three, and after every insertion the number of entries never exceeds half the size plus one. The reported statistics are exact: entries equals the number of elements present, used buckets, singletons and maximum chain length are mutually consistent with it, resizings counts the size changes, and retrievals, hits and misses count every look-up, the look-ups found at the front of their chain, and the failed ones. A successful look-up in a container that is not read-only makes an immediately following look-up of the same key a hit, while look-ups in a read-only container leave the order unchanged; the printed statistics show the same numbers.",
 [I,H], "All operation histories, hash functions (including ones with known bucket layout) and growth steps.",
 "The hash test prints statistics for one workload; no test checks consistency after deletions, in read-only mode, after many growths or with known collisions.",
 ["maa/hash.c","maa/set.c","maa/prime.c"],
 [("growth when more than half full","maa/hash.c:hsh_insert; maa/set.c:set_insert"),("counters","maa/hash.c:hsh_retrieve; maa/set.c:set_member"),("statistics walk","maa/hash.c:hsh_get_stats; maa/set.c:set_get_stats")],
 [("resizings, retrievals, hits, misses","life-time counters","struct table, struct set")],
 ["hsh_get_stats, set_get_stats, *_print_stats output"])

p("C04","Set membership is exact under any history",
 "After any sequence of insertions and deletions, on any number of sets and with any hash/compare pair, a set contains exactly the elements inserted and not since deleted: insertion returns 0 for a new element and 1 (keeping the element stored first) for a present one, deletion returns 0 exactly when the element was present, membership returns 1 exactly for elements present, and the count equals their number. The hash and compare functions reported for a set are those it was created with (the string defaults when none were given). Sets do not influence one another, and never free, copy or write to the elements.",
 [I,H], "All operation sequences, element kinds, hash functions and set sizes.",
 "The set test uses one fixed workload with the string defaults.",
 ["maa/set.c"],
 [("uniqueness scan before insertion","maa/set.c:set_insert"),("unlinking","maa/set.c:set_delete"),("membership with self-organisation","maa/set.c:set_member")],
 [("bucket lists and entry count","the elements","struct set")],
 ["return values of set_insert, set_delete, set_member, set_count"])

p("C05","Set algebra computes exact results and preserves its operands",
 "Union, intersection and difference return a new set with exactly the mathematical result (holding element pointers taken from the operands) and the operands' hash and compare functions; adding and removing a set in place leaves exactly the union or difference in the first operand and returns it; equality is true exactly when both sets have the same elements. Operands that are only read keep their elements, read-only mark and usability, for every pair of sets including empty, identical (the same object passed twice), disjoint, nested and very differently sized ones. Operating on sets with different hash or compare functions is refused with a fatal diagnostic.",
 [I,H], "All pairs of sets and sequences of algebraic operations, including self-application.",
 "The tests combine a few fixed sets once; none passes the same set twice or checks that the operands survive.",
 ["maa/set.c"],
 [("element-wise insertion/deletion","maa/set.c:set_add, set_del, set_union, set_inter, set_diff"),("count comparison plus inclusion","maa/set.c:set_equal"),("temporary read-only mark on the second operand","maa/set.c:set_inter, set_diff, set_equal")],
 [("read-only flag of the second operand","saved and restored","struct set.readonly")],
 ["contents of results and operands after each operation"])

p("C06","A list is an exact sequence of pointers",
 "Under any sequence of operations a list behaves as a sequence: append adds at the tail, push at the head, pop removes and returns the head (NULL when empty), top and the 1-based n-th accessors and position accessors read and replace exactly the addressed element (NULL when it does not exist), membership is by pointer identity, and length is exact. Truncation to a length or to a saved position keeps exactly that prefix (a NULL position empties the list) and the list remains fully usable afterwards, in particular the next append goes directly behind the kept prefix. Iteration visits the elements in order and stops with non-zero as soon as the callback returns non-zero; lists never influence one another even though they share storage.",
 [I,H], "All interleavings of operations on several lists, all lengths and truncation points.",
 "The list test performs a fixed script of pushes, appends and reads; it never truncates to two or more elements, appends after truncating, or interleaves lists.",
 ["maa/list.c","maa/memory.c"],
 [("head/tail/count maintenance","maa/list.c:lst_append, lst_push, lst_pop"),("prefix walk and release of the rest","maa/list.c:lst_truncate, lst_truncate_position"),("shared node allocator","maa/list.c: static mem")],
 [("head, tail, count","the sequence","struct list")],
 ["return values of all list calls","sequence presented by iteration"])

p("C07","A stack is strictly last-in first-out",
 "Popping a stack returns the pushed pointers (NULL pointers included) in exactly the reverse order of pushing, each once; top returns the same pointer that the next pop will return and changes nothing; the emptiness test is true exactly when every pushed item has been popped; pop and top of an empty stack return NULL. Several stacks are independent, and destroying a non-empty stack releases its own storage but not the data.",
 [I,H], "All interleavings of pushes, pops and destructions over several stacks and depths up to hundreds of thousands.",
 "The stack test pushes and pops one small fixed sequence.",
 ["maa/stack.c"],
 [("linked cells","maa/stack.c:stk_push, stk_pop, stk_top, stk_isempty, stk_destroy")],
 [("top cell","current top","struct stack.data")],
 ["return values"])

p("C08","A skip list is an exact ordered map",
 "After any sequence of insertions and deletions, for every compare/key function pair, looking up a key returns exactly the datum inserted under an equal key and not since deleted, or NULL; iteration presents every datum exactly once in ascending key order, stops at the first non-zero callback result and returns that result. Iteration presents the data present at its start even if the callback inserts or deletes data, and the list is exact afterwards. Results do not depend on the state of the random number generator used for balancing; inserting a present key or deleting an absent one is a diagnosed internal error; several lists do not influence one another.",
 [I,H,S], "All insertion/deletion orders, key orders, random-level sequences, list sizes and mutating callbacks.",
 "The skip-list test inserts and deletes a fixed set with the default random sequence and prints the result.",
 ["maa/sl.c"],
 [("search recording predecessors per level","maa/sl.c:_sl_locate"),("splice in/out on every level","maa/sl.c:sl_insert, sl_delete"),("snapshot before calling back","maa/sl.c:sl_iterate, sl_iterate_arg")],
 [("level and head forward pointers","active levels","struct _sl_List")],
 ["return values of sl_find, sl_iterate","order of data presented"])

p("C09","String pools intern: one pointer per content, stable until destroyed",
 "Finding a string in a pool (whole, by length, or grown piecewise and finished) returns a pointer to a NUL-terminated string of exactly that content, the same pointer for equal contents and different pointers for different contents, and this content and pointer never change until the pool is destroyed, whatever else is done to the pool and to the caller's buffers. Existence is reported exactly for interned contents, plain copies are never interned, a unique string has the requested prefix and was not in the pool before, and walking the pool presents each interned content exactly once and leaves the pool modifiable even when stopped early. Pools, including the global one, are independent; destroying the global pool makes the next use start a fresh empty one; string, byte and retrieval statistics are exact.",
 [I,H], "All contents (empty, very long, high-bit bytes), orders of find/copy/grow/finish operations, several pools, destruction points.",
 "The string test interns one word list and checks pointers once; growth of already interned strings, early-stopped iteration and most global-pool entry points are never run.",
 ["maa/string.c","maa/memory.c","maa/hash.c"],
 [("hash look-up before copying","maa/string.c:str_pool_find"),("growing and finishing","maa/string.c:str_pool_grow, str_pool_finish"),("lazy creation of the global pool","maa/string.c:_str_check_global"),("iteration and its end","maa/string.c:str_pool_iterate, STR_ITERATE in maa/maa.h")],
 [("pool strings and index","interned strings","struct poolInfo"),("global pool","default pool","maa/string.c: global")],
 ["returned pointers and bytes behind them","str_pool_get_stats"])

p("C10","String memory keeps exact copies and reads only what it was given",
 "Every string stored in a string memory object, whole, by length, or grown in any number of pieces (including empty pieces and bytes with any value) and finished, is an exact NUL-terminated copy at an address of its own, and stays unchanged until the object is destroyed, when exactly the object's own storage is released. Storing by length reads exactly that many bytes from the caller, so the source needs no terminator and may be longer. The statistics count the finished strings and their bytes including terminators exactly, and objects do not influence one another.",
 [I,H], "All contents, lengths, piece boundaries and interleavings of several memory objects.",
 "The memstr test stores a handful of NUL-terminated strings whose length is passed exactly.",
 ["maa/memory.c","maa/stack.c"],
 [("copy and terminate","maa/memory.c:mem_strcpy, mem_strncpy"),("re-allocated top of the allocation stack while growing","maa/memory.c:mem_grow, mem_finish"),("release through the allocation stack","maa/memory.c:mem_destroy_strings")],
 [("growing size, count, bytes","growth state and statistics","struct stringInfo")],
 ["bytes behind returned pointers","mem_get_string_stats","sanitizer red zones around the source buffers"])

p("C11","Object allocator hands out disjoint, recycled, accounted objects",
 "Objects currently handed out by an object memory never overlap, each is at least the configured size, is suitably aligned and keeps its contents while other objects are taken and returned, and a returned object may be handed out again before new memory is used. A request for an empty object yields all-zero contents even when the object is recycled. The statistics are exact: total counts fresh objects, reused counts recycled hand-outs, used counts objects currently out, size is the configured size; destroying the memory releases every object of that memory and nothing else.",
 [I,H], "All object sizes and interleavings of take, take-empty and return over several memories.",
 "The memobj test takes and frees a few objects of one size in one order.",
 ["maa/memory.c","maa/stack.c"],
 [("free-list stack","maa/memory.c:mem_get_object, mem_free_object"),("zero fill","maa/memory.c:mem_get_empty_object"),("allocation stack","maa/memory.c:mem_destroy_objects")],
 [("free list, allocation list, counters","recycling state","struct objectInfo")],
 ["returned addresses and their contents","mem_get_object_stats"])

p("C12","Argument lists are exact, NULL-terminated vectors",
 "However items are added (whole, by length, or grown in pieces and finished) an argument list holds exactly those items in order as NUL-terminated strings: the count is exact, every index returns its item, and the vector handed out has that count followed by a NULL pointer, at every size. Adding by length reads exactly that many bytes. Items already added keep their contents as the list grows, and lists do not influence one another.",
 [I,H], "All sequences of additions, item contents and lengths, list sizes through many growth steps.",
 "The arg test adds a few items to one list; vector growth and by-length addition from longer buffers are not covered.",
 ["maa/arg.c","maa/memory.c"],
 [("vector doubling with room for the terminator","maa/arg.c:arg_add, arg_addn, arg_finish"),("string memory","maa/arg.c: struct Arg.object")],
 [("argc, argm, argv","vector state","struct Arg")],
 ["arg_get, arg_count, arg_get_vector"])

p("C13","Argument splitting follows the documented quoting grammar",
 "Splitting a string into arguments yields exactly the tokens of the documented grammar for every byte string and quoting mode: arguments are separated by spaces, tabs, carriage returns, vertical tabs and newlines; single or double quotes are stripped and protect separators, the other quote and backslashes; outside quotes a backslash makes the next character literal. With quoting or escaping disabled the corresponding characters are ordinary. Splitting always terminates without reading past the terminator, empty quoted arguments are kept, and an unterminated quote or trailing backslash yields the text read so far as the last argument.",
 [I], "All NUL-terminated byte strings and all four combinations of the two mode bits.",
 "The arg test splits a dozen fixed strings.",
 ["maa/arg.c","maa/arggram.txt","maa/arggram2c"],
 [("generated transition table","maa/arggram.txt, maa/arggram2c"),("character classes","maa/arg.c:char2char_type"),("driver loop","maa/arg.c:arg_argify")],
 None,
 ["arg_count, arg_get of the result"])

p("C14","Base-64 and base-26 codes round-trip",
 "Encoding a value and decoding the text gives the value back, for every 32-bit value in base 64 and every value below 26 to the 7th power in base 26; the text is the minimal-length (at least one digit) most-significant-first numeral over the documented alphabet. Decoding accepts numerals with leading zero digits (up to ten digits in all), decodes exactly the given length when one is given, and refuses every string with a character outside the alphabet with a diagnosed internal error. Results do not depend on what was encoded or decoded before.",
 [I,H], "All encodable values, all valid numerals, all invalid bytes, in any order of calls.",
 "The base test prints a fixed sample of small values; large values and call-order effects are not sampled.",
 ["maa/base64.c","maa/base26.c"],
 [("digit extraction","maa/base64.c:b64_encode; maa/base26.c:b26_encode"),("digit accumulation","maa/base64.c:b64_decode_buf; maa/base26.c:b26_decode"),("cached previous value","maa/base26.c:b26_encode")],
 [("static result buffer and previous value","call-order state","maa/base26.c:b26_encode")],
 ["returned strings and values","abort on illegal digit"])

p("C15","Primality and next prime are exact over 32-bit values",
 "The primality test answers 1 exactly for the primes among all 32-bit unsigned values, including 0, 1, 2, squares of primes and values near 2 to the 32nd. The next-prime function returns the smallest odd prime greater than or equal to its argument for every argument up to the largest 32-bit prime. Both terminate quickly (work proportional to the square root of the value).",
 [I], "All 32-bit unsigned values (next prime: up to 4294967291).",
 "The prime tests cover small ranges only.",
 ["maa/prime.c"],
 [("trial division by odd numbers","maa/prime.c:prm_is_prime"),("step by two from an odd start","maa/prime.c:prm_next_prime")],
 None, ["return values"])

p("C16","Bit operations touch and report exactly the addressed bit",
 "Setting or clearing a bit of an unsigned long changes that bit only; testing returns non-zero exactly when that bit is set, for every bit position of the word, and changes nothing. Counting returns the exact number of set bits for every word.",
 [I], "All words and all bit positions 0 to 63.",
 "The bit test uses a few positions and words.",
 ["maa/bit.c"],
 [("mask arithmetic","maa/bit.c:bit_set, bit_clr, bit_tst"),("parallel count","maa/bit.c:bit_cnt")],
 None, ["word values and return values"])

p("C17","Soundex codes follow the classic algorithm for every string",
 "For every byte string the Soundex code is one upper-case letter followed by three digits (zero padded), computed by the Odell/Russell coding given by Knuth over the ASCII letters only: first letter kept, following letters coded, zero-coded letters dropped, and runs of the same code reported once, with non-letters (including all bytes above 127) ignored; a string without letters gives Z000. The result is case-insensitive, independent of locale and of previous calls, and exactly five bytes are written to a caller's buffer.",
 [I], "All byte strings.",
 "No test runs the Soundex routines.",
 ["maa/text.c"],
 [("letter map and previous code","maa/text.c:txt_soundex2")],
 None, ["returned string; red zone after the caller's buffer"])

p("C18","Named flags: exactly the requested flags are on",
 "For debugging flags and run-time flags alike, a flag tests non-zero exactly when the latest command concerning it switched it on: setting by name or with a plus sign switches on that flag only, a minus sign switches off that flag only, 'all' and 'none' switch everything, and (debugging flags) setting or unsetting by value acts on that flag only, across all four sets selected by the top two bits. Registration refuses malformed flags, flags already in use under another name and (debugging) reserved flags; a name never registered is refused with a fatal diagnostic listing the valid names, and is never silently accepted or ignored. Listing prints each registered name once (nothing when there is none), run-time flag names map back from their values, and shutting down clears everything.",
 [I,H], "All sets of registered flags in the four groups and all command sequences.",
 "The debug test registers a few flags in one set and toggles them once; run-time flags are not tested.",
 ["maa/debug.c","maa/flags.c"],
 [("four flag words indexed by the two top bits","maa/debug.c: setFlags, TEST; maa/flags.c: setFlags, TEST"),("name parsing","maa/debug.c:dbg_set; maa/flags.c:flg_set"),("registration checks","maa/debug.c:_dbg_register; maa/flags.c:flg_register")],
 [("set and used flag words","current state","setFlags, usedFlags")],
 ["dbg_test, flg_test, dbg_list, flg_list, flg_name, exit status and stderr of refusals"])

p("C19","Error reports are complete, go to every sink, and end as promised",
 "A fatal error, fatal system error, warning or internal error writes its complete formatted message of any length, prefixed with the program's base name and routine name when known, to standard error, after everything written to standard output before it; a system error also names the error that was pending when it was raised. The same message goes to every open log. A warning returns to the caller with the program intact, fatal errors end the process with exit status 1 running exit handlers and flushing output, and an internal error aborts.",
 [I,C,H], "All program names, routine names (or none), formats with arguments, message lengths, log configurations and errno values.",
 "The err test prints a few warnings; process endings, ordering with buffered standard output, and log copies are not observed.",
 ["maa/error.c","maa/log.c"],
 [("prefix and formatting, flush, exit or abort","maa/error.c:err_fatal, err_fatal_errno, err_warning, err_internal"),("va_copy for the log copy","maa/error.c"),("base name","maa/error.c:err_set_program_name")],
 [("program name","prefix","_err_programName")],
 ["stderr, stdout, log file bytes and wait status of child processes"])

p("C20","Every log record reaches every open log exactly once, in order",
 "While a log file, a user stream and the system log are open in any combination, every informational or error record is delivered exactly once and in order to each open log and to no closed one, even if a write is interrupted by a signal: file and non-terminal streams get one line per record with the time, host name, the identification last given and process id (omitted under the short option), the routine name for errors, and the formatted message (up to 4095 bytes); the system log gets the message with error or informational priority. Records made with no log open are dropped silently, closing a log flushes it and affects no other, closing everything twice is harmless, and reopening works. File logs append to existing contents, create missing directories, and the named facility, for all standard facility names, is the one used and reported.",
 [I,H,C,F], "All sequences of open, close, option and record calls over the three kinds of log; record contents and lengths; interrupted writes.",
 "The log test writes a few messages to a file and a stream once; the system log, re-opening, concurrent sinks and long messages are not observed.",
 ["maa/log.c"],
 [("record formatting and fan-out","maa/log.c:_log_base_va"),("open/close accounting","maa/log.c:log_file, log_stream, log_syslog, log_close"),("facility table","maa/log.c: facilitynames")],
 [("open counters and descriptors","which logs are open","logFd, logUserStream, logSyslog, logOpen")],
 ["bytes in log files and streams","intercepted openlog/vsyslog/closelog/write calls"])

p("C21","Time-patterned log files rotate without losing records",
 "A log file name may contain time conversions, and at every record the file written is the one whose name results from expanding the pattern at that moment. When the expansion changes, the previous file is closed, missing directories are created and the new file is opened for appending, so that each record is in exactly one file, the one for its time, whatever the sequence of times (including going back). Exactly one descriptor is held for the log at any time and none after closing.",
 [I,H], "All patterns, record times and open/close histories.",
 "The log test logs with fixed names; time never crosses a rotation boundary.",
 ["maa/log.c"],
 [("pattern expansion and re-opening","maa/log.c:_log_check_filename"),("directory creation","maa/log.c:log_mkpath")],
 [("current name","name of the open file","logFilename")],
 ["file tree and contents under a virtual clock","/proc/self/fd"])

p("C22","Started processes get exactly the requested plumbing",
 "Starting a command connects its standard input, output and error exactly as requested, each inherited, taken from a given descriptor, taken from the null device, or connected to a new pipe whose other end is returned, with error optionally joined to output; bytes written to the command arrive unchanged and bytes it writes can be read unchanged. The command gets end-of-file when its input pipe is closed and the reader gets end-of-file when the command ends, because no other process started through the library holds ends of earlier pipes. The command receives exactly the words of the command line, a callback runs in the child before it, contradictory requests are refused with a diagnosed internal error, and starting leaves no stray descriptor open in the parent.",
 [I,C,H], "All flag combinations, descriptor sources, command lines, data, and numbers of concurrently open processes.",
 "The pr test runs a handful of shell pipelines, never with several open processes or every combination.",
 ["maa/pr.c","maa/arg.c"],
 [("child side dup/close","maa/pr.c:pr_open2 CHILD"),("parent side close/record","maa/pr.c:pr_open2 PARENT"),("closing recorded descriptors in the child","maa/pr.c:pr_open2")],
 [("descriptor-to-process table","which descriptors belong to which child","_pr_objects")],
 ["data exchanged with a probe program that reports its own descriptors and arguments"])

p("C23","Filtering returns exactly the filter's output, without deadlock",
 "Passing data through a filter command delivers every input byte once and in order followed by end-of-file, and returns exactly the command's complete output and its length, for every input size including zero and sizes far beyond pipe capacity, whenever the output fits within the buffer. This holds for every pattern of partial reads and writes, delays, interrupted system calls and chunk sizes on either side, without deadlock and without writing beyond the buffer. A filter's non-zero exit status is reported as a warning and its process is reaped. An output that does not fit, or a filter that ends or closes its output while input is left, is a fatal error, never a shortened result.",
 [I,S,F], "All input and output sizes (within memory), filter behaviours (early, late, chunked, expanding, shrinking output) and interruption points.",
 "The pr test filters a few short strings.",
 ["maa/pr.c"],
 [("non-blocking write and read loop around select","maa/pr.c:pr_readwrite"),("closing the input when drained","maa/pr.c:pr_readwrite"),("opening the filter","maa/pr.c:pr_filter")],
 None, ["returned length and buffer contents, guard bytes, stderr warnings, intercepted system calls"])

p("C24","Child processes are waited for once, reported truly, and never leaked",
 "Closing or waiting for a started process, or running one to completion, returns its exit status, or 128 plus the signal number if it was killed (0 for a broken-pipe signal), or 127 if the command could not be run, however the waiting is interrupted; a status already collected is reported as 0. Shutting down kills and reaps exactly the processes started through the library whose pipes are still open, and never sends a signal to any process that the library did not start or has already collected. After closing and shutdown no zombie remains and every descriptor closed through the library is closed, and the routines work again afterwards, also for descriptors beyond the limit that held when they were first used.",
 [H,F,S], "All orders of start, close, wait and shutdown over several children, exit codes, signals and interruptions.",
 "The pr test checks a few exit statuses; killing, shutdown with open children, stale process ids and leaks are not observed.",
 ["maa/pr.c"],
 [("status decoding with retry on interruption","maa/pr.c:pr_wait, pr_spawn"),("forgetting a descriptor when closed","maa/pr.c:pr_close_nowait"),("kill and wait for what is left","maa/pr.c:_pr_shutdown")],
 [("descriptor-to-process table","open children","_pr_objects")],
 ["intercepted fork, kill and waitpid calls","/proc task and descriptor listing"])

p("C25","Source tokens remember exactly where they came from",
 "Every token taken while reading source reports for ever, until the manager is destroyed, the file, line number, offset and length current when it was taken and the text of its line: lines stored advance the line number and reset the offset, tokens and explicit advances move the offset by their length, new-file and new-line notices and preprocessor line markers take effect for the following tokens. Stored lines are exact copies (tabs become spaces) of exactly the given length, through any number of lines. Without a token (NULL) the accessors give empty values, statistics are exact, and after destroying the manager a new one starts afresh.",
 [I,H], "All sequences of lines, tokens, notices and re-creations; line contents and lengths; thousands of lines.",
 "No test runs the source manager.",
 ["maa/source.c","maa/memory.c"],
 [("line table growth","maa/source.c:src_line"),("token capture","maa/source.c:src_get"),("line markers","maa/source.c:src_cpp_line"),("reset","maa/source.c:src_destroy")],
 [("current position","file, line, offset","Info"),("line table","stored lines","Lines, Used, Count")],
 ["src_filename, src_linenumber, src_offset, src_length, src_source_line, src_get_stats"])

p("C26","Source error messages point at the token",
 "Error and parse-error reports for a token print file, line and message, then the source line, then a marker line with one caret per byte of the token under the token's column; messages without a token say that the location is unknown; a message-only report prints just its first line. Parse-error messages are rewritten so that doubled quoting of a character is simplified and quoted symbolic token names are replaced by their registered concrete spelling when one exists (first registration wins), and every message of any content and length is printed completely and safely. With no stream given the report goes to standard output.",
 [I,H], "All tokens, messages (including unterminated or very long quoted names), and registered spellings.",
 "No test prints source errors or registers concrete spellings.",
 ["maa/source.c","maa/parse-concrete.c"],
 [("message rewriting","maa/source.c:_src_print_yyerror"),("caret line","maa/source.c:_src_print_error"),("spelling table","maa/parse-concrete.c")],
 [("spelling table","symbol to concrete spelling","_prs_hash")],
 ["bytes written to the stream"])

p("C27","Timers report the time between start and stop",
 "A named timer reports, with microsecond resolution, the wall-clock, user and system time (own plus collected children) between its most recent start and its most recent stop, zero after a reset or when never stopped, and restarting keeps the last result until the next stop. Timers are independent of one another whatever their number and names. Using a timer never started is a diagnosed internal error, and printing all timers lists each exactly once with the values reported.",
 [I,H,S], "All sequences of start, stop, reset and read over many timers and all clock readings (including second boundaries).",
 "No test uses timers apart from start-up and shutdown of the library.",
 ["maa/timer.c","maa/hash.c"],
 [("difference of time marks","maa/timer.c:tim_stop DIFFTIME"),("timer table","maa/timer.c: _tim_Hash")],
 [("marks and totals","per timer","struct tim_Entry")],
 ["tim_get_real, tim_get_user, tim_get_system, tim_print_timers under a virtual clock"])

p("C28","Initialise/use/shut down cycles leave nothing behind and can repeat",
 "After all objects created by the caller are destroyed and the library is shut down, no memory, descriptor or child process allocated by the library remains, and no pointer the library keeps refers to released memory. The library can then be initialised and used again any number of times with the same results as the first time, and each facility works whether or not the library was initialised. Destroying an object releases all of that object's own storage.",
 [H], "All histories of initialise, use of any subset of facilities, and shutdown, repeated.",
 "Each test program initialises at most once and never measures what is left.",
 ["maa/maa.c","maa/string.c","maa/list.c","maa/sl.c","maa/timer.c","maa/flags.c","maa/debug.c","maa/parse-concrete.c","maa/pr.c"],
 [("ordered shutdown of every facility","maa/maa.c:maa_shutdown"),("reset of static pointers","each module's shutdown function")],
 [("static module state","lazily created tables","global, mem, _sl_Memory, _tim_Hash, hash, _pr_objects, _prs_hash")],
 ["allocator interposition (live blocks), /proc/self/fd, results of each cycle"])

p("C29","Running out of memory is a diagnosed fatal error, never corruption",
 "Whichever allocation fails during any library operation, the process either completes the operation correctly or ends with exit status 1 after reporting on standard error that memory ran out; it never crashes, aborts, hangs, returns a wrong answer or continues with a missing element. This holds for every facility and for every position of the failing allocation in its history. Releasing a null pointer through the library's release function is likewise a diagnosed fatal error.",
 [F,H], "Every failing allocation index in workloads over every facility.",
 "No test injects allocation failures.",
 ["maa/xmalloc.c","maa/stack.c","maa/memory.c","maa/hash.c"],
 [("checked allocation wrappers","maa/xmalloc.c"),("every module allocates through the wrappers","maa/*.c")],
 None, ["wait status and stderr of child processes with the n-th allocation failing"])

p("C30","Misuse is stopped with a diagnosis before damage is done",
 "Passing a null handle or a live handle of another kind of object to an operation of hash tables, sets, lists, string and object memories, argument lists or skip lists, modifying or destroying a read-only hash table or set, asking for an argument index out of range, replacing a list element that does not exist, opening a log destination that is already open, closing a descriptor that belongs to no started process, or using a null key where keys are strings, ends the program with the library's own diagnostic (internal error and abort, or fatal error with status 1) on standard error that names the failing routine. It never crashes with a memory fault, never returns normally and never alters the object first. Operations documented to tolerate null handles (appending to no list, iterating no skip list) do so.",
 [I,H], "All operations of each handle kind times all wrong handles and object states.",
 "The tests never misuse handles.",
 ["maa/hash.c","maa/set.c","maa/list.c","maa/memory.c","maa/arg.c","maa/sl.c","maa/log.c","maa/pr.c"],
 [("magic numbers checked at entry","_hsh_check, _set_check, _lst_check, _mem_magic_strings, _mem_magic_objects, _arg_check, _sl_check_list"),("read-only checks","maa/hash.c, maa/set.c")],
 [("magic tags","kind of live object","first field of each structure")],
 ["wait status and stderr of child processes"])

p("C31","No memory error or undefined behaviour on any valid use",
 "For every valid sequence of calls over the whole interface, mixing all facilities and objects, no call reads or writes outside its objects, uses released or uninitialised memory, overflows a signed number, shifts out of range, or overflows the stack, whatever the sizes of the data. Text containing bytes above 127, empty strings and very long strings are valid everywhere strings are. Large containers (hundreds of thousands of elements) and long strings (megabytes) are handled within ordinary stack limits.",
 [I,H], "All valid call sequences and data sizes that fit in memory.",
 "The tests are built without instrumentation and use small inputs.",
 ["maa/*.c"],
 [("bounds and lifetime discipline throughout","maa/*.c"),("temporary storage for copies","maa/sl.c:sl_iterate; maa/string.c:str_findn, str_unique; maa/source.c:src_cpp_line")],
 None, ["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer reports; process termination"])

p("C32","The shared library exports the whole documented interface",
 "Every function declared in the installed header and defined by the library can be linked and called from a program using only the shared library and that header, and every convenience macro of the header (iteration over hash tables, sets, lists, list pairs and string pools, and their early-end forms) compiles and behaves like the functions it stands for. The reported version numbers and version string agree with each other and with the build. The header is self-contained: a program needs to include nothing before it.",
 [PR,C], "All programs using the public header.",
 "The tests link a static or in-tree library and use part of the header; several macros expand to functions that do not exist and are never instantiated.",
 ["maa/maa.h","maa/export.sym","maa/Makefile","maa/maa.c"],
 [("export list","maa/export.sym"),("header declarations and macros","maa/maa.h"),("version functions","maa/maa.c")],
 None, ["dynamic symbol look-ups and behaviour of programs linked with the shared library"])

p("C33","The library's own debugging changes no result and reports at shutdown",
 "Initialising the library makes its own debugging names (.memory, .time, .pr, .sl, .src, .parse) available, each standing for the flag of the header, and leaves all of them off. Switching any of them on, by name or value, changes no result, status or effect of any operation, whatever the logging of debugging records does to the system error number; it only adds informational records to the open logs and lines to standard output. At shutdown .memory and .time print the version, .memory the statistics of the global string pool and .time every timer including the total since initialisation, each once, on standard error; with neither on, shutting down prints nothing, and without debugging no record is made that the program did not ask for. After shutdown all of them are off again.",
 [H,C], "All programs run with every combination of the six debugging flags.",
 "The tests switch on nothing, or single flags around a few calls.",
 ["maa/maa.c","maa/debug.c","maa/pr.c","maa/source.c","maa/maa.h"],
 [("registration of the names and the reports at shutdown","maa/maa.c:maa_init, maa_shutdown"),("debugging records","maa/maa.h:PRINTF; maa/pr.c; maa/source.c")],
 [("debugging state","flags on at the time of an operation","maa/debug.c:setFlags")],
 ["results of operations, standard error, open logs, in pairs of runs"])

p("C34","A refusal by the operating system is reported, never taken for success",
 "When the system refuses the library a pipe, a process, a wait, a select or a transfer, or cannot open a log file (the first time or at a rotation), the operation does not pretend to have worked: it ends the program as a fatal error with exit status 1 whose report names the program and the system's error, on standard error and every open log, with exit handlers run and the library usable in them (processes opened earlier can still be closed and waited for). Three cases are answered instead: waiting for a process the system refuses to wait for gives -1; closing a process that was already collected gives 0; a command whose null-device stream cannot be set up is not run at all and ends with status 127. Interruptions by signals are not refusals and are retried. A log that cannot take a record (full device, size limit) loses only that record in that log: other logs and standard error get it, the program goes on, and later records arrive once there is room.",
 [F,H], "All refusals by the system at every point of every history of process and log operations.",
 "No test makes a system call fail.",
 ["maa/pr.c","maa/log.c","maa/error.c"],
 [("system errors of process plumbing","maa/pr.c:pr_open, pr_close_nohang, pr_filter, pr_readwrite, _pr_init"),("opening and writing of logs","maa/log.c:_log_check_filename, log_file, _log")],
 None, ["exit status, standard error and logs of child processes in which calls are refused"])

p("C35","Listings show exactly what an object holds",
 "Printing the keys of a hash table with string keys (hsh_key_strings) writes every key of the table exactly once to standard output, separated by blanks, starting a new line only when the line has reached 60 bytes, and ends the line; dumping a list (lst_dump) writes one line per element with its pointer, in the order of the list; dumping a skip list (_sl_dump) writes the number of entries and one line per entry, with its datum and key, in ascending order. This holds for objects of every size (empty ones included) and after every history, repeated listings are the same, and no listing changes the object.",
 [I,H], "All contents, key lengths, pointer values and histories.",
 "The tests print one fixed table and list and compare them with recorded output, never after deletions, with long keys or with extreme pointer values.",
 ["maa/hash.c","maa/list.c","maa/sl.c"],
 [("column counter reset at the start of a listing","maa/hash.c:hsh_key_strings, _hsh_key_strings"),("one line per node","maa/list.c:lst_dump"),("walk along the lowest level","maa/sl.c:_sl_dump")],
 [("column counter","static, survives between listings","maa/hash.c:_hsh_key_strings")],
 ["standard output of hsh_key_strings, lst_dump, _sl_dump"])

p("C36","Using the library changes nothing else about the program",
 "Whatever a program has arranged for itself before calling the library (signal handlers, ignored and blocked signals, working directory, file creation mask, locale, environment, resource limits, interval timers, rounding mode, name, group and user of the process, buffering of the standard streams, random number seed) is the same after each call that returns. Its own descriptors and the standard ones stay open on the same files with the same flags and read position, and when a workload has closed and destroyed what it opened, no descriptor is left open and no child process is left; children the program made itself stay its own to wait for. Commands started by pr_open, pr_filter and pr_spawn run with the program's directory, environment, file creation mask, limits, and ignored and blocked signals.",
 [C,H], "All arrangements of the process, and all sequences of calls over every facility, before and after initialisation and with debugging flags.",
 "No test looks at anything but its own output; all run with the default signals, mask, directory and environment, so a change to them, or one not passed on to commands, goes unnoticed.",
 ["maa/pr.c","maa/log.c","maa/error.c","maa/maa.c","maa/timer.c"],
 [("fork, dup2 and exec of commands without touching the parent","maa/pr.c:pr_open2, pr_spawn"),("descriptor flags changed only on the pipes of the filter","maa/pr.c:pr_filter"),("log files and directories created under the program's mask","maa/log.c:_log_mkpath, _log_check_filename"),("initialisation","maa/maa.c:maa_init")],
 [("process state","signals, masks, directory, limits, timers and descriptors","the operating system"),("standard streams","buffering of stdout and stderr","the C library")],
 ["sigaction, sigprocmask, umask, getcwd, environ, getrlimit, fcntl, fstat, and /proc/self/status of started commands"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
