"""Which monitors decide which property, how many executions, and what they must have seen."""

SCALE = 3   # executions of a quick run: the numbers below times this
def R(name, src, variant="asan", quick=0, thorough=None, **kw):
    return dict(name=name, src=src if isinstance(src, list) else [src], variant=variant, quick=quick * SCALE,
                thorough=thorough if thorough is not None else quick * 20, **kw)

PROPS = {}
TECH = {}
def P(pid, technique, note, rule, runs, level="exploration", need=None, assumptions=None):
    PROPS[pid] = dict(runs=runs, rule=rule, level=level, need=need or {}, technique=technique, note=note,
                      assumptions=assumptions or [])

P("C01", "model-based history monitor under ASan+UBSan and MSan",
  "Held on the generated histories only; the reference map (arrays indexed by key number) is trusted.",
  "each execution mixes operations on 1-3 tables over a generated key universe (11 kinds of hash/compare); non-trivial: duplicate insertions, deletions and more than 4 entries occurred; distinct by final contents and kinds",
  [R("map", "drv_map.c", "asan", 6000, defs=["-DSETS=0"]), R("map", "drv_map.c", "msan", 2000, defs=["-DSETS=0"]),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=1"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=1", "-DDOWN=6"], cpu=100, wall=300)],
  need={"largest container": 100000, "insertions": 1000, "deletions": 1000, "complete content comparisons": 100})
P("C04", "model-based history monitor under ASan+UBSan and MSan",
  "Held on the generated histories only; the reference set (arrays indexed by key number) is trusted.",
  "each execution mixes operations on 1-3 sets over a generated element universe (11 kinds of hash/compare); non-trivial: duplicate insertions, deletions and more than 4 elements occurred; distinct by final contents and kinds",
  [R("set", "drv_map.c", "asan", 6000, defs=["-DSETS=1"]), R("set", "drv_map.c", "msan", 2000, defs=["-DSETS=1"]),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=2"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=2", "-DDOWN=6"], cpu=100, wall=300)],
  need={"largest container": 100000, "insertions": 1000, "deletions": 1000, "complete content comparisons": 100})

P("C02", "walk monitor (exactly-once, mark transitions) under ASan+UBSan and MSan",
  "Held on the generated walks only; the entries present at the start of each walk are known from the model.",
  "each execution builds 1-2 containers and performs callback walks (nested to depth 3, with look-ups and deletions inside) and position walks; non-trivial: look-ups happened inside a walk together with nesting, deletion or an early stop; distinct by sequence of entries presented, depth, stops, deletions",
  [R("walk", "drv_walk.c", "asan", 6000), R("walk", "drv_walk.c", "msan", 2000),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=3"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=3", "-DDOWN=6"], cpu=100, wall=300)],
  need={"walks over large containers": 40, "walks": 1000, "nested walks": 100, "deletions inside a walk": 100, "look-ups inside a walk": 1000, "walks ended early": 100})

P("C03", "statistics recomputed from behaviour (chain fronts observed through look-ups) under ASan+UBSan",
  "Held on the generated histories; for larger containers statistics are compared at sampled points only.",
  "each execution drives one table or set through growth, deletion, look-ups, read-only passes, and observes the chain partition; non-trivial: at least two resizings and failed look-ups; distinct by final size, counters and kind",
  [R("stats", "drv_stats.c", "asan", 5000), R("stats", "drv_stats.c", "msan", 1500),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=4"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=4", "-DDOWN=6"], cpu=100, wall=300)],
  need={"largest size": 200000, "statistics read": 10000, "resizings observed": 500, "chain partitions observed": 100, "printed statistics parsed": 500, "read-only passes": 500, "read-only passes over large containers": 30})

P("C05", "set algebra against bit-vector model under ASan+UBSan and MSan",
  "Held on the generated operation sequences; reference results are bit vectors over the element universe.",
  "each execution keeps a pool of 2-7 sets over one universe and applies union, intersection, difference, in-place addition and removal, equality and single modifications, with read-only operands and self-application; non-trivial: every binary operation occurred and a self-application; distinct by final contents",
  [R("setalg", "drv_setalg.c", "asan", 3000), R("setalg", "drv_setalg.c", "msan", 1000),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=5"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=5", "-DDOWN=6"], cpu=100, wall=300)],
  need={"set operations": 40, "unions": 1000, "intersections": 1000, "differences": 1000, "in-place additions": 1000, "in-place removals": 1000, "equality tests": 1000, "self-applications": 1000, "refusals": 100})

P("C06", "sequence model over several lists under ASan+UBSan and MSan",
  "Held on the generated histories only; reference lists are arrays.",
  "each execution mixes all list operations over 1-4 lists sharing storage, with saved positions used later; non-trivial: an append directly behind a truncation, pops, at least two lists; distinct by final contents",
  [R("list", "drv_list.c", "asan", 4000), R("list", "drv_list.c", "msan", 1500),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=6"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=6", "-DDOWN=6"], cpu=100, wall=300)],
  need={"longest list": 200000, "appends": 1000, "truncations": 1000, "truncations to a saved position": 100, "pair walks": 100, "saved positions used": 1000, "pops of an empty list": 50, "iterations": 1000})
P("C07", "stack model under ASan+UBSan and MSan",
  "Held on the generated histories only; reference stacks are arrays.",
  "each execution mixes pushes (NULL included), pops, tops, emptiness tests and destructions over 1-4 stacks; non-trivial: several stacks, one emptied; distinct by history and depths",
  [R("stack", "drv_stack.c", "asan", 4000), R("stack", "drv_stack.c", "msan", 1500),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=7"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=7", "-DDOWN=6"], cpu=100, wall=300)],
  need={"greatest depth": 400000, "pushes": 1000, "pops": 1000, "pops of an empty stack": 100, "destructions": 100})
P("C08", "ordered-map model with controlled random levels under ASan+UBSan and MSan",
  "Held on the generated histories only; random() is replaced by six streams (uniform, always low, always high, alternating, bursts).",
  "each execution mixes operations on 1-3 skip lists of four key kinds, with mutating and nested iterations; non-trivial: the list was mutated inside an iteration and held more than four data; distinct by final contents",
  [R("sl", "drv_sl.c", "asan", 3000, wrap=["random"]), R("sl", "drv_sl.c", "msan", 1000, wrap=["random"]),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=8"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=8", "-DDOWN=6"], cpu=100, wall=300)],
  need={"most data in a list": 80000, "insertions": 1000, "deletions": 1000, "mutations inside an iteration": 1000, "insertions of a present key": 20, "deletions of an absent key": 20})
P("C09", "interning monitor with spoiled caller buffers under ASan+UBSan and MSan",
  "Held on the generated histories only; contents with embedded NUL bytes are outside the pools' domain.",
  "each execution mixes all pool operations over 1-3 pools and the global one with exact-size source buffers that are overwritten and released after every call; non-trivial: strings grown in pieces, copies and pool destructions occurred; distinct by history and contents",
  [R("str", "drv_str.c", "asan", 2500), R("str", "drv_str.c", "msan", 800),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=9"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=9", "-DDOWN=6"], cpu=100, wall=300)],
  need={"most contents in a pool": 100000, "longest string": 500000, "strings interned or found": 1000, "copies": 500, "strings grown in pieces": 500, "unique strings": 100, "walks stopped early": 100, "pools destroyed": 500, "statistics read": 500, "finds by length": 100, "long strings that differ late": 100, "contents with a long common beginning": 200})
P("C10", "string memory monitor with exact-size sources and block accounting under ASan+UBSan and MSan",
  "Held on the generated histories only; no other operation on the object comes between growing and finishing.",
  "each execution stores strings whole, by length and in pieces into 1-4 objects from exact-size buffers spoiled after every call; non-trivial: strings grown in pieces and an object destroyed midway; distinct by history and sizes",
  [R("mem", "drv_mem.c", "asan", 2500, defs=["-DARGS=0"]), R("mem", "drv_mem.c", "msan", 800, defs=["-DARGS=0"]),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=10"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=10", "-DDOWN=6"], cpu=100, wall=300)],
  need={"most strings in one object": 100000, "longest string": 500000, "stored whole": 1000, "stored by length without terminator": 1000, "grown in pieces": 1000, "empty pieces": 500, "statistics read": 500, "destructions": 500, "address maps checked": 100})
P("C11", "shadow map of live objects with fill patterns and block accounting under ASan+UBSan and MSan",
  "Held on the generated histories only; a returned object that is not handed out again while waiting counts as broken recycling.",
  "each execution takes and returns objects of 1-4 memories of 16 sizes; every live object is filled with its pattern; non-trivial: recycling and a destruction midway; distinct by history",
  [R("obj", "drv_obj.c", "asan", 3000), R("obj", "drv_obj.c", "msan", 1000),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=11"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=11", "-DDOWN=6"], cpu=100, wall=300)],
  need={"most objects live": 150000, "objects fresh": 1000, "objects recycled": 1000, "empty objects": 1000, "statistics read": 500, "destructions": 500, "address maps checked": 1000})
P("C12", "argument vector monitor with exact-size sources and block accounting under ASan+UBSan and MSan",
  "Held on the generated histories only; no other operation on the list comes between growing and finishing.",
  "each execution adds items whole, by length and in pieces to 1-4 lists from exact-size buffers spoiled after every call, reading every index and the vector; non-trivial: items grown in pieces and a list destroyed midway; distinct by history and sizes",
  [R("arg", "drv_mem.c", "asan", 2500, defs=["-DARGS=1"]), R("arg", "drv_mem.c", "msan", 800, defs=["-DARGS=1"]),
   R("big", "drv_big.c", "plain", 40, defs=["-DWHAT=12"], cpu=100, wall=300),
   R("bigs", "drv_big.c", "asan", 24, defs=["-DWHAT=12", "-DDOWN=6"], cpu=100, wall=300)],
  need={"most strings in one object": 100000, "longest string": 500000, "stored whole": 1000, "stored by length without terminator": 1000, "grown in pieces": 1000, "empty pieces": 500, "vectors read": 1000, "destructions": 500})
P("C13", "bounded-exhaustive input sweep against a reference tokenizer under ASan+UBSan and MSan",
  "All strings over the five character classes up to length 7 (quick) or 9 (thorough) in every mode, plus random long ones; the reference tokenizer is trusted.",
  "the first cases are blocks of the complete enumeration of class strings (each separator and ordinary character drawn at random from its class), the others random strings up to 60000 (thorough: 2 million) bytes; all are non-trivial; distinct by string",
  [R("argify", "drv_argify.c", "asan", 2500, 20000), R("argify", "drv_argify.c", "msan", 800, 12000)],
  need={"enumerated strings": 97656, "arguments compared": 100000, "empty arguments": 1000, "random strings": 500, "strings of runs": 300, "longest run": 60000})
P("C14", "value sweep against an independent numeral under ASan+UBSan, refusals in children",
  "Quick: boundary and random values, random blocks. Thorough: every 32-bit value in base 64 and every value below 26^7 in base 26.",
  "a case of run 'sweep' is a block of consecutive values (quick: 32768 at a random place, thorough: 4194304, all blocks); a case of run 'code' mixes 300 values, leading zeros, lengths and refused bytes; all are non-trivial; distinct by values",
  [R("code", "drv_code.c", "asan", 96, 2000), R("code", "drv_code.c", "msan", 32, 300), R("sweep", "drv_code.c", "plain", 600, 1024 + 1915, defs=["-DSWEEP"], cpu=60, wall=200)],
  need={"values round-tripped": 10000, "refusals": 1500, "decodings by length": 5000, "base 64 values swept": 1000000, "base 26 values swept": 1000000})
P("C15", "value sweep against a segmented sieve",
  "All values below 2^20, all squares of primes, products of neighbouring primes, the last 4096 values below 2^32 and random windows; not every 32-bit value (a complete sweep costs weeks). Termination in time proportional to the root is observed through the processor-time limit only.",
  "a case is a window of consecutive values or a group of structured composites; all are non-trivial; distinct by window",
  [R("num", "drv_num.c", "plain", 500, 20000, cpu=12), R("num", "drv_num.c", "asan", 160, 400, cpu=20)],
  need={"primality tests": 1000000, "next primes": 50000, "squares of primes": 6542, "semiprimes": 5000, "random windows": 300})
P("C16", "exhaustive bit positions over generated words under ASan+UBSan and MSan",
  "All 64 positions of generated words (structured and random); words are sampled.",
  "a case is 100 words with all positions and a random history on each; all are non-trivial; distinct by words",
  [R("bit", "drv_bit.c", "asan", 2000), R("bit", "drv_bit.c", "msan", 500)],
  need={"words": 100000})
CTYPE = ["__ctype_b_loc", "__ctype_toupper_loc", "__ctype_tolower_loc", "toupper", "tolower", "isalpha", "isupper", "islower", "isalnum", "isprint"]
P("C17", "bounded-exhaustive words against a reference coder under ASan+UBSan and MSan",
  "All words of two to four letters, every byte value in and before words, and random strings; the locales C and C.UTF-8, and one simulated in which bytes above 160 are letters.",
  "the first 676 cases enumerate words, the others are 200 random strings each; all are non-trivial; distinct by strings",
  [R("soundex", "drv_soundex.c", "asan", 1600, 30000, wrap=CTYPE), R("soundex", "drv_soundex.c", "msan", 800, 4000, wrap=CTYPE)],
  need={"words of the enumeration": 400000, "random strings": 100000, "strings of runs": 400, "longest string": 65535, "executions with letters above 127 in the locale": 500})
P("C18", "flag-state model with refusals in children under ASan+UBSan and MSan",
  "Held on the generated command histories only; states of unregistered flags after 'all' are not judged.",
  "each execution registers names over all four sets and issues commands by name, sign and value; after every command all 120 flags are compared with the model; non-trivial: flags of all four sets switched on and flags switched off; distinct by history",
  [R("flags", "drv_flags.c", "asan", 500, 10000), R("flags", "drv_flags.c", "msan", 200, 3000)],
  need={"registrations": 1000, "commands by name": 5000, "commands by value": 1000, "refusals": 500, "names that resemble others refused": 100, "listings": 500, "names from values": 500, "shut-downs": 200})
LOGW = ["time", "gettimeofday", "clock_gettime", "openlog", "closelog", "syslog", "vsyslog", "__syslog_chk", "__vsyslog_chk", "write", "gethostname"]
P("C20", "trace monitor of three sinks with interposed clock, system log and interrupted writes, under ASan+UBSan and MSan",
  "Held on the generated histories only; standard output and error as log streams are not judged, and a file and a stream open together share one ident.",
  "each execution opens and closes a file, a user stream (four kinds) and the system log in all combinations while records are made; every log is read back after closing and matched record by record; non-trivial: at least four combinations of open logs; distinct by history",
  [R("log", "drv_log.c", "asan", 800, 16000, wrap=LOGW), R("log", "drv_log.c", "msan", 300, 4000, wrap=LOGW)],
  need={"records": 10000, "log records matched": 5000, "system log records matched": 1000, "writes interrupted": 1000, "records with no log open": 500, "files with earlier contents": 100, "directories created": 100, "facilities set": 500, "short option": 200, "everything closed": 200})
P("C21", "trace monitor of rotated files under a virtual clock with descriptor accounting, under ASan+UBSan and MSan",
  "Held on the generated time sequences only; the clock stands still within one record.",
  "each execution writes 10-70 records to a log with one of 14 time patterns while the clock jumps forward and back; afterwards every file under the root is compared; non-trivial: at least two changes of name and a step back; distinct by pattern, times and changes",
  [R("rot", "drv_log.c", "asan", 800, 16000, wrap=LOGW, defs=["-DROT=1"]), R("rot", "drv_log.c", "msan", 300, 4000, wrap=LOGW, defs=["-DROT=1"])],
  need={"rotations": 3000, "files compared": 3000, "steps back in time": 1000, "descriptor counts": 10000, "log records matched": 10000, "relative patterns": 100, "long names": 40})
P("C19", "report monitor over child processes with sinks read back, under ASan+UBSan and MSan",
  "Held on the generated reports only; wording around program name, routine and message is not pinned.",
  "each execution is a child that makes 0-3 warnings and a last report of one of four kinds with output pending and up to three logs open; standard output and error are one file in most cases, to see the order; non-trivial: a log open or several reports; distinct by kinds and lengths",
  [R("err", "drv_err.c", "asan", 900, 20000, wrap=LOGW), R("err", "drv_err.c", "msan", 300, 5000, wrap=LOGW)],
  need={"reports compared": 1000, "fatal errors": 100, "fatal system errors": 100, "warnings last": 100, "internal errors": 100, "reports to all three logs": 30, "logs compared": 300, "standard error full": 30, "standard output full": 30, "aborts with the signal ignored, handled or blocked": 50, "system errors without a routine": 15})
PRW = ["fork", "vfork", "waitpid", "wait4", "kill", "killpg"]
P("C22", "plumbing monitor: descriptors, words and data reported by probe processes, under ASan+UBSan and MSan",
  "Held on the generated histories only; descriptors 0-2 are open in the parent and given descriptors are above 2.",
  "each execution starts 2-40 probe processes with generated modes of the three streams (inherited, null, given file, pipe, socket or earlier process's pipe, new pipe, joined), several open at once, and exchanges data group by group while the others stay open; non-trivial: two processes open at once; distinct by flags and sizes",
  [R("prfd", "drv_prfd.c", "asan", 500, 12000, wrap=PRW, noplain=True, helper="probe.c"), R("prfd", "drv_prfd.c", "msan", 150, 3000, wrap=PRW, noplain=True, helper="probe.c")],
  need={"processes started": 1000, "pipelines completed": 50, "ends of file seen by the reader": 500, "ends of file seen by a command": 500, "refusals": 50, "callbacks": 200, "streams inherited": 100, "streams from the null device": 100, "streams given": 500, "streams by new pipe": 1000, "errors joined to output": 100, "one descriptor given twice": 30})
P("C23", "input/output monitor of filters with injected interruptions, short transfers, delays and signals, under ASan+UBSan and MSan",
  "Held on the generated schedules only.",
  "each execution runs 1-4 generated filters (six kinds) with sizes from 0 to several times the pipe capacity while read, write, select and waitpid are interrupted, shortened or delayed and real signals arrive; non-trivial: an injection happened; distinct by kinds, sizes and rates",
  [R("filter", "drv_prfilter.c", "asan", 1400, 30000, wrap=PRW + ["read", "write", "select", "pselect", "poll"], noplain=True, helper="probe.c", wall=40), R("filter", "drv_prfilter.c", "msan", 450, 8000, wrap=PRW + ["read", "write", "select", "pselect", "poll"], noplain=True, helper="probe.c", wall=40)],
  need={"filters": 1000, "calls interrupted": 1000, "transfers shortened": 1000, "descriptors not ready": 1000, "waits without event": 300, "real signals": 30, "beyond pipe capacity": 50, "both beyond pipe capacity, output first": 20, "empty inputs": 30, "empty outputs": 30, "tight buffers": 300, "failing filters": 100, "another process open": 100, "waits for the end interrupted": 100, "outputs that do not fit": 50, "filters that end early": 50, "outputs closed early": 50})
P("C24", "life-time monitor of child processes with judged signals and interrupted waits, under ASan+UBSan and MSan",
  "Held on the generated histories only; reuse of a process id by the system while its pipes are open is not produced.",
  "each execution starts, closes, waits for, kills, stops and runs to completion up to 60 children of five kinds beside processes of the program's own, with shut-downs in between; every signal sent by the library is judged before it is delivered; non-trivial: statuses collected with more than two children; distinct by history",
  [R("child", "drv_prchild.c", "asan", 600, 15000, wrap=PRW, noplain=True, helper="probe.c", wall=60), R("child", "drv_prchild.c", "msan", 150, 3000, wrap=PRW, noplain=True, helper="probe.c", wall=60)],
  need={"children started": 1000, "commands run to completion": 500, "exit statuses": 300, "statuses of killed children": 100, "statuses with a core file": 50, "statuses of commands that cannot run": 100, "statuses of collected children": 100, "children ended by shutdown": 100, "closed children left alone": 30, "waits interrupted": 500, "processes of the program's own": 100, "signals judged": 50, "shut-downs": 500, "statuses in turn": 2000, "histories beyond the first limit on descriptors": 30})
P("C25", "position model over lines, tokens and notices under ASan+UBSan and MSan",
  "Held on the generated histories only; tokens taken before any file name or line are compared without it.",
  "each execution drives 1-3 source managers in turn with lines (exact-size buffers spoiled afterwards), tokens, advances, notices and markers; earlier tokens are looked at again at random and all of them at the end; non-trivial: more than ten tokens and several changes of file or line number; distinct by numbers of lines and tokens",
  [R("src", "drv_src.c", "asan", 2500, 40000, defs=["-DMSG=0"]), R("src", "drv_src.c", "msan", 800, 8000, defs=["-DMSG=0"])],
  need={"lines": 50000, "tokens": 100000, "tokens looked at": 200000, "line markers": 5000, "new-file notices": 5000, "new-line notices": 5000, "refusals": 100, "managers": 2000, "lines of one manager": 30000, "lines of one numbering": 33000, "tokens of one manager": 66000, "greatest offset": 1000000000, "longest line": 500000, "statistics read": 5000})
P("C26", "byte-exact report monitor with a reference rewriter under ASan+UBSan and MSan",
  "Held on the generated messages only; source lines end with a newline.",
  "each execution mixes lines, tokens, registrations of spellings and reports of four kinds with generated messages; every report is compared byte for byte; non-trivial: spellings, tokens and more than five reports; distinct by kinds and sizes of reports",
  [R("msg", "drv_src.c", "asan", 1500, 25000, defs=["-DMSG=1"]), R("msg", "drv_src.c", "msan", 500, 6000, defs=["-DMSG=1"])],
  need={"reports compared": 20000, "caret lines compared": 5000, "names replaced": 2000, "names kept": 2000, "unterminated names": 500, "quoted characters simplified": 2000, "second registrations": 2000, "reports without a token": 1000, "reports to standard output": 300})
P("C27", "timer model under virtual wall and processor clocks, ASan+UBSan and MSan",
  "Held on the generated histories only; the clocks do not run backwards.",
  "each execution starts, stops, resets, reads and prints up to thousands of timers while five virtual clocks (wall, own and children's user and system time) advance by generated steps around second boundaries; non-trivial: timers restarted and reset; distinct by measured times",
  [R("tim", "drv_tim.c", "asan", 1500, 30000, wrap=["time", "gettimeofday", "clock_gettime", "getrusage", "times"]), R("tim", "drv_tim.c", "msan", 500, 8000, wrap=["time", "gettimeofday", "clock_gettime", "getrusage", "times"])],
  need={"stops": 10000, "starts": 10000, "timers restarted": 5000, "resets": 2000, "timers read": 50000, "refusals": 300, "lists printed": 1000, "timers at once": 500, "timers without result read": 5000})
P("C28", "cycle monitor: block, descriptor and child accounting with result digests compared across cycles, ASan and MSan; LeakSanitizer searches after the workloads of the other monitors",
  "Held on the generated cycles only; descriptors of processes still open at shutdown stay the caller's; maa_shutdown is called after maa_init.",
  "each execution draws up to 40 workloads over 19 facilities and runs them in 2-12 cycles, initialised or not, in other orders and nested in one another; after each shutdown live blocks, descriptors and children are compared with the start; distinct by list of workloads and sizes",
  [R("cycle", "drv_cycle.c", "asan", 1000, 20000), R("cycle", "drv_cycle.c", "msan", 250, 5000)],
  need={"cycles": 3000, "workloads repeated": 5000, "shut-downs accounted": 3000, "cycles not initialised": 500, "cycles initialised": 500, "workloads nested": 5000, "objects destroyed and accounted": 5000, "process left to the shutdown": 50, "left to the shutdown": 500})
OOMW = ["malloc", "calloc", "realloc", "strdup"]
P("C29", "fault injection: every allocation position of small histories fails once, or from there on, in a child process",
  "Positions are enumerated completely for histories with up to 40 (thorough: 400) allocations and sampled beyond; allocations of the C library inside library calls fail in the gcc build, direct ones in the ASan build.",
  "each execution draws 1-5 workloads over 19 facilities with or without initialisation and shutdown, counts the allocations of a fault-free run and then makes each position fail in a child, alone and with all later ones; non-trivial: at least one allocation; distinct by workloads and sizes",
  [R("oom", "drv_oom.c", "plain", 400, 12000, defs=["-DGLIBC_HOOKS"], cpu=120, wall=400), R("oom", "drv_oom.c", "asan", 90, 3000, wrap=OOMW, cpu=120, wall=400)],
  level="fault_enumeration",
  need={"runs with one allocation failing": 3000, "runs with all allocations failing from a position": 3000, "diagnosed fatal errors": 5000, "direct requests": 300})
P("C30", "misuse monitor: every operation with every wrong handle in child processes, objects re-examined when the process ends, under ASan+UBSan and MSan",
  "All operations of the seven kinds that carry a handle, each with null and the eight other kinds; contents, keys and indexes are sampled.",
  "each execution takes one operation (or one read-only or index misuse) and performs every misuse of it in a child of its own, with objects of generated contents; the abort and exit paths compare all 18 live objects with their contents before; all are non-trivial; distinct by operation, key and contents",
  [R("misuse", "drv_misuse.c", "asan", 520, 9000), R("misuse", "drv_misuse.c", "msan", 260, 3000)],
  need={"null handles": 200, "handles of another kind": 2000, "read-only misuse": 200, "indexes out of range": 60, "misuse without a handle": 300, "null handles tolerated": 6})
P("C31", "whole-interface workloads, mixed, nested and large, under ASan+UBSan and MSan and with a bounded stack",
  "Held on the generated sequences only; sizes up to about 10 million bytes (quick) or 40 million (thorough).",
  "a case of run 'mix' performs 3-60 workloads drawn from 19 facilities, nested in one another, with strings up to a megabyte; a case of run 'large' drives one facility with hundreds of thousands of elements or megabytes of text (stack limited to 8 MB under sanitizers, 256 KB in the gcc build); all are non-trivial; distinct by workloads, sizes and results",
  [R("mix", "drv_mix.c", "asan", 700, 14000, cpu=60), R("mix", "drv_mix.c", "msan", 400, 6000, cpu=60),
   R("large", "drv_mix.c", "asan", 40, 400, defs=["-DLARGE"], cpu=90, wall=200, stack_kb=8192), R("large", "drv_mix.c", "msan", 20, 200, defs=["-DLARGE"], cpu=90, wall=200, stack_kb=8192),
   R("large", "drv_mix.c", "plain", 40, 400, defs=["-DLARGE"], cpu=90, wall=200, stack_kb=256)],
  need={"workloads": 5000, "workloads nested": 5000, "large cases": 90})
P("C32", "conformance monitor of a program linked with the shared library and the header only (symbols, macros against callbacks, versions)",
  "Macro use is sampled over generated contents; the shared library is linked by the check from the tree's own list of exported names.",
  "each process looks up every declared function in the shared library; each execution compares all iteration macros with the callback functions on 20 generated contents, reads the versions and runs workloads through the shared library; one builds programs with seven compiler modes; all are non-trivial; distinct by contents",
  [R("hdr", "drv_hdr.c", "plain", 16, 64, so=True), R("so", "drv_so.c", "plain", 400, 8000, so=True)],
  need={"declared functions looked up": 150, "programs built from header and shared library": 7, "versions read": 16, "macro loops compared": 50000, "other functions called": 50, "workloads against the shared library": 1000})

# C33: the same monitors judge with the library's own debugging switched on
_dbg = []
for _p, _n in (("C22", 120), ("C23", 240), ("C24", 120), ("C25", 400), ("C26", 200)):
    for _r in PROPS[_p]["runs"]:
        if _r["variant"] in ("asan", "msan"): _dbg.append(dict(_r, quick=_n if _r["variant"] == "asan" else _n // 3, thorough=(_n if _r["variant"] == "asan" else _n // 3) * 20, opts=["debug"]))
P("C33", "pairs of runs with and without the library's own debugging compared (results, output, logs, shutdown), and the monitors of C22-C26 with debugging on, under ASan+UBSan and MSan",
  "Held on the generated runs only; wording of debugging records is not judged, nor standard output with .pr or .src on.",
  "an execution of run 'dbg' performs the same workloads without debugging and with a random part of it, in two children; the others are executions of the monitors of processes and sources with debugging on and a log that spoils errno after every record; non-trivial: more than two workloads and a flag on; distinct by workloads and flags",
  [R("dbg", "drv_dbg.c", "asan", 300, 8000), R("dbg", "drv_dbg.c", "msan", 100, 2000)] + _dbg,
  need={"executions with the library's own debugging on": 1000, "bytes of debugging records": 1000000, "pairs of runs": 400, "workloads compared": 1000, "silent shut-downs": 400, "statistics at shutdown": 100, "timers at shutdown": 500, "logs with records of processes": 20, "logs with records of source lines": 20})

SYSW = PRW + ["pipe", "pipe2", "select", "poll", "read", "write", "fcntl"]
P("C34", "outcome monitor of child processes in which system calls are refused, by injection and by real limits, under ASan+UBSan and MSan",
  "Held on the generated refusals only; the injected calls are pipe, fork, waitpid, select, read, write and reading descriptor flags, one kind at a time.",
  "each execution is a child that performs one operation on processes, or a history of log records, while one kind of call is refused from a random place on (or once), or a real limit or an impossible path stands in the way; non-trivial: something was refused; distinct by operation, call, error and outcome",
  [R("sysp", "drv_sys.c", "asan", 1500, 30000, wrap=SYSW, noplain=True, helper="probe.c", defs=["-DPART=0"], wall=60), R("sysp", "drv_sys.c", "msan", 400, 6000, wrap=SYSW, noplain=True, helper="probe.c", defs=["-DPART=0"], wall=60),
   R("sysl", "drv_sys.c", "asan", 800, 16000, wrap=LOGW, defs=["-DPART=1"]), R("sysl", "drv_sys.c", "msan", 250, 4000, wrap=LOGW, defs=["-DPART=1"])],
  need={"refusals reported": 300, "pipes refused": 40, "processes refused": 40, "selects refused": 10, "reads refused": 10, "writes refused": 10, "waits refused": 50, "out of descriptors": 30, "opened with few descriptors left": 50, "commands not run for want of a descriptor": 5, "children ignored": 30, "log files that cannot be opened": 50, "rotations that fail": 50, "records that could not be written": 500, "streams that take nothing": 50, "records compared": 5000})

P("C35", "model of keys, pointers and entries against captured standard output under ASan+UBSan and MSan",
  "Held on the generated contents only; keys contain no blanks.",
  "each execution builds 1-6 tables, lists or skip lists through histories of insertions and deletions and lists them after every round; distinct by sizes",
  [R("dump", "drv_dump.c", "asan", 1800, 40000), R("dump", "drv_dump.c", "msan", 600, 10000)],
  need={"listings": 20000, "keys listed": 100000, "elements listed": 100000, "entries listed": 50000, "lines of a listing": 100})

P("C36", "state monitor: the process's signals, masks, directory, locale, environment, limits, timers, streams and descriptors compared around library calls and with what started commands report, under ASan and MSan",
  "Held on the generated workloads only; what the C library changes lazily (time zone data, stream contents) and the callback given to pr_open2 are outside; fatal errors end the program.",
  "each execution arranges the process at random (14 signals, masks, directory, locale, variables, limits, timers, rounding, stream modes, own descriptors) and runs 2-9 workloads over 19 facilities, with commands of every fate, rotated logs and messages between; the state is compared around calls and around every workload; distinct by list of workloads and sizes",
  [R("state", "drv_state.c", "asan", 500, 10000, wrap=["srandom", "srand", "srand48"] + LOGW, cpu=60), R("state", "drv_state.c", "msan", 200, 4000, wrap=["srandom", "srand", "srand48"] + LOGW, cpu=60)],
  need={"states compared": 300000, "workloads": 5000, "commands asked": 1000, "processes": 100, "logs to standard streams": 300, "further workloads": 1500, "own children waited for": 150, "filters of much": 80, "commands on descriptors given": 200, "logs rotated": 400, "messages": 400})

# C28 also looks for memory nothing refers to any more after the workloads of every other monitor
for _p in list(PROPS):
    if _p in ("C28", "C29", "C30", "C31", "C32", "C33", "C36"): continue
    for _r in PROPS[_p]["runs"]:
        if _r["variant"] != "asan" or _r["name"] == "bigs": continue
        PROPS["C28"]["runs"].append(dict(_r, quick=160, thorough=4000, sanonly=True, leak=True, prop=_p, opts=["leak"],
                                         cflags=_r.get("cflags", []) + ["-include", "lk.h"]))

# C31 also looks at the workloads of every other monitor, with seeds of its own, judging nothing but
# what the sanitizers (and crashes) report: the model's verdicts there belong to the other properties.
for _p in list(PROPS):
    if _p in ("C28", "C29", "C30", "C31", "C32", "C33", "C36"): continue
    for _r in PROPS[_p]["runs"]:
        if _r["variant"] not in ("asan", "msan"): continue
        PROPS["C31"]["runs"].append(dict(_r, quick=max(16, _r["quick"] // 3), thorough=max(200, _r["thorough"] // 6), sanonly=True, prop=_p))
