#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (per property, and which check catches which planted change)."""
import json, os, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
T = {json.loads(l)['id']: json.loads(l) for l in open(HERE + '/properties.jsonl')}
EX = {
'C01': ("a finite map kept in arrays indexed by key number; keys and data are checksummed; all keys of the universe are looked up again and again", "unequal keys that compare equal are part of the 11 universes; the layout of buckets is never assumed; compare functions that look up in the same table are outside"),
'C02': ("multiset of the entries present at the start of each walk; the read-only mark is followed through every walk; being modifiable is shown by modifying", "stop values include 256, 65536, INT_MIN, -1; nested position walks over one container and changing a set inside its own callback walk are not judged"),
'C03': ("statistics recomputed from behaviour: a look-up in a read-only container that counts as a hit is at the front of its chain; primes by an own sieve and Miller-Rabin", "-"),
'C04': ("as C01, for sets", "-"),
'C05': ("bit vectors over the element universe", "operands empty, identical, disjoint, nested, of very different sizes, read-only"),
'C06': ("arrays of pointers", "appending to a list inside its own iteration is not judged"),
'C07': ("arrays of pointers", "NULL and foreign stacks are outside (stacks carry no mark)"),
'C08': ("sorted arrays; random() replaced by six streams; refusals in children, on large lists too", "NULL data, key functions with static buffers and compare functions giving INT_MIN are outside"),
'C09': ("content table; every source buffer has exact size (red zone behind it) and is spoiled and released after the call", "embedded NUL bytes, NULL or foreign pools, operations between growing and finishing are outside"),
'C10': ("shadow copies, an interval map of addresses, live-block accounting", "operations between growing and finishing on the same object are outside"),
'C11': ("interval map of live objects filled with patterns; alignment; live-block accounting", "size 0 is outside"),
'C12': ("shadow vectors, exact-size sources", "operations between growing and finishing on the same list are outside"),
'C13': ("a tokenizer written from the documentation; complete enumeration of class strings", "-"),
'C14': ("own numerals; refusals in children", "numerals of more than ten digits are outside"),
'C15': ("segmented sieve", "next prime above 4294967291 is outside"),
'C16': ("per-bit recomputation", "-"),
'C17': ("reference coder; a locale simulated by wrapping the character classification", "no locale but C is installed here"),
'C18': ("two-level model of four groups of flags; refusals in children", "names starting with a sign, registrations of debugging flags in the reserved group, flags wider than 32 bits are outside"),
'C19': ("complete bytes of standard error, order with standard output, three logs, exit status, exit handlers", "program names ending in /, %m and empty routine names are outside"),
'C20': ("expected bytes of every sink under wrapped clock, host name, write and syslog", "a log to the standard streams prints only the body; file and stream opened together share one ident; idents that overflow the preamble are outside"),
'C21': ("files named by strftime of the simulated time compared with the records made; descriptor counts", "chdir between opening and rotating a relative pattern, and expansions beyond three times the pattern's length + 1024, are outside"),
'C22': ("what the started probe reports of itself (descriptors, words, data), /proc/self/fd of the parent", "-"),
'C23': ("input received and output sent by generated filters against what pr_filter and pr_readwrite return", "SIGPIPE is ignored by the harness, as a program using these must"),
'C24': ("every kill() of the library is judged before it is delivered; wait statuses against what the probe was told to do", "-"),
'C25': ("line/position model; all earlier tokens looked at again", "src_get before any line, offsets beyond 2e9, markers without number are outside"),
'C26': ("byte-exact reference rewriter", "-"),
'C27': ("five virtual clocks", "names passed to tim_ functions outlive the timers"),
'C28': ("live blocks, descriptors and children before and after each cycle; result digests compared across cycles; and LeakSanitizer searches after every execution of the workloads of every other monitor (harness/lk.h excludes what the drivers allocate, so a report is a loss by the library)", "two maa_shutdown in a row are outside; where LeakSanitizer cannot run, its searches count as cut short and the accounting remains"),
'C29': ("exit status 1 with a diagnostic or a correct completion; objects examined by exit handlers", "counts of the object whose operation was cut short are not judged"),
'C30': ("each misuse in a child; all 18 live objects compared with their contents before, in the abort and exit paths", "only the misuses the statement lists"),
'C31': ("sanitizers only: mixed and nested workloads, large data under bounded stacks, and a further pass over the workloads of every other monitor with seeds of its own", "-"),
'C32': ("dlsym on every declared function, macros against callbacks, programs built with the header alone", "C only; the header is not C++"),
'C33': ("pairs of runs with and without debugging; the monitors of C22-C26 with debugging on and a log that spoils errno", "-"),
'C34': ("outcome of an operation while one kind of system call is refused or limits are exhausted", "F_SETFL refused, closed or negative descriptors, short writes on full devices are outside"),
'C35': ("keys, pointers and entries parsed from captured standard output", "-"),
'C36': ("snapshot of the process before a call and after it; what started commands report of themselves", "-"),
}
rows = []
for p in sorted(props.PROPS):
    c = props.PROPS[p]; runs = {}
    for r in c['runs']:
        k = 'searches for lost memory over the other monitors' if r.get('leak') else 'sanitizers alone over the other monitors' if r.get('sanonly') else 'other monitors with debugging on' if r.get('opts') else r['name'] + ':' + r['variant']
        a = runs.setdefault(k, [0, 0]); a[0] += r['quick']; a[1] += r['thorough']
    rows.append("### %s %s\n\n* technique: %s\n* oracle: %s\n* executions, quick / thorough: %s\n* an execution: %s\n* bounds and domain: %s%s\n" % (
        p, T[p]['title'], c['technique'], EX[p][0], ', '.join('%s %d / %d' % (k, *v) for k, v in runs.items()), c['rule'], c['note'], '' if EX[p][1] == '-' else ' ' + EX[p][1][0].upper() + EX[p][1][1:] + '.'))
table = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(HERE + '/tools/catches.json')) if os.path.exists(HERE + '/tools/catches.json') else {}
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % d))
    table.append("| %s | %s | %s | %s |" % (d, m['property'], re.sub(r'[|\n]', ' ', m['needs'])[:160], res.get(d, '(' + m['property'] + ', when planted)')))
s = open(HERE + '/DESIGN.md').read()
for name, text in (('PROPERTIES', '\n'.join(rows)), ('CATCHES', '\n'.join(table))):
    a, b = '<!-- %s -->' % name, '<!-- END %s -->' % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + text + '\n' + s[j:]
open(HERE + '/DESIGN.md', 'w').write(s)
