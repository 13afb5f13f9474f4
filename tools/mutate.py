#!/usr/bin/env python3
"""Development helper (no check uses it): run the quick checks on mutants.

  mutate.py FILE.py [-j N] [NAME...]    FILE.py defines M = [(name, "P01 P02",
                                        file, old, new), ...]; a mutant may
                                        have several (old, new) pairs.

Each mutant is made in a scratch copy of /repo under /tmp; nothing in /repo
changes. Prints which of the listed checks catch it, and, for one that no check
catches, whether it passes the stable tests.
"""
import concurrent.futures as cf, json, os, queue, re, runpy, shutil, subprocess, sys

args = sys.argv[1:]
jobs = 3
if '-j' in args:
    i = args.index('-j'); jobs = int(args[i + 1]); del args[i:i + 2]
M = runpy.run_path(args[0])['M']
only = args[1:]
slots = queue.Queue()
for i in range(jobs):
    d = f'/tmp/mut/w{i}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    slots.put(d)

def one(m):
    name, props, *edits = m
    d = slots.get()
    try:
        files = []
        for f, old, new in zip(edits[0::3], edits[1::3], edits[2::3]):
            p = f'{d}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return name, f'BADMUTANT {f}: {s.count(old)} matches of {old[:50]!r}'
            open(p, 'w').write(s.replace(old, new))
            files.append(f)
        res = []
        hit = False
        for p in props.split():
            r = subprocess.run(['python3', '/verif/run.py', p], cwd='/verif', capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/mut/ev'))
            res.append(f'{p}={r.returncode}')
            if r.returncode == 1:
                hit = True
                v = re.search(r'VIOLATION.*', r.stdout)
                k = re.search(r'(?m)^.*VIOLATION.*\n?.*', r.stdout)
                res.append((k.group(0) if k else '')[:260].replace('\n', ' '))
                break
            if r.returncode == 2:
                res.append(r.stdout[-300:].replace('\n', ' | '))
        if not hit:
            s = open('/opt/vp/test.sh').read()
            res.append('MISSED')
        return name, ' '.join(res)
    finally:
        subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'])
        slots.put(d)

with cf.ThreadPoolExecutor(jobs) as ex:
    for name, r in ex.map(one, [m for m in M if not only or m[0] in only]):
        print(('MISS  ' if 'MISSED' in r or 'BADM' in r else 'hit   ') + name, r, flush=True)
for i in range(jobs):
    shutil.rmtree(f'/tmp/mut/w{i}', ignore_errors=True)
