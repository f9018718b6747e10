#!/usr/bin/env python3
# rewrites the "Planted bugs" part of DESIGN.md from seeded/*/meta.json
import json, os, glob
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
HEAD = '''## Planted bugs

`tools/trybug.sh ID` applies one, runs the stable tests, its demo and the property's check, and undoes it. All are caught by the
check of their own property (quick tier). Missed at first, and what was added: C01-lazy-formatter (`mixed_par`), C03-memory-mode-leak
(objects not met before), C05-write-right-lost (a library without RELRO), C07-wrap-lazy-only (application classes derived from
`cpptrace::exception`), C09-cache-cleared-under-reader (many files), C10-last-module-remembered (plugins sharing a name),
C14-transform-once-per-address (repeated frames), C15-shrink-forgets-all (large caches), C17-at-least-two (buffers of every size),
C02-colon-in-path (such paths in the symbol model).

Besides these, about 200 small mutations (wrong bound, dropped call, lock, check, flag or order) were tried property by property;
those that survived and were not equivalent led to: NUL in names, filters after transforms, null frame lists and small buffers in the
C interface, fork children that call `exit`, extra helper lines, late close-on-exec, EINTR while probing, page execution rights,
destructors of replaced callbacks, deep stacks, long mangled names, the terminate handler's caller. 16 behaviour-preserving
refactorings (helpers extracted, loops rewritten, statements reordered, types changed) were tried against the checks of the
properties around them; the checks stay quiet.

| id | property | what it breaks |
|---|---|---|
'''
p = os.path.join(D, 'DESIGN.md'); s = open(p).read()
i = s.find('## Planted bugs'); s = s if i < 0 else s[:i]
s = s.rstrip('\n') + '\n\n' + HEAD
for m in sorted(glob.glob(os.path.join(D, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m)); s += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'].rstrip('.').replace('|', '/'))
open(p, 'w').write(s)
