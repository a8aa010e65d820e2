#!/usr/bin/env python3
"""Lists the planted bugs that change lines which the fix: commits added (those do not count)."""
import os, re, subprocess, sys
BASE = '62cde88'
for b in sorted(os.listdir('/verif/seeded')):
    d = open(f'/verif/seeded/{b}/patch.diff').read()
    f = None; mine = 0; removed = 0
    for l in d.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]; blame = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', f'{BASE}..HEAD', '--', f], capture_output=True, text=True).stdout.split('\n')
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif f and l[:1] in ' -' and not l.startswith('---') :
            if l[:1] == '-':
                removed += 1
                if not blame[n - 1].startswith('^'): mine += 1
            n += 1
    if mine: print(b, 'changes', mine, 'of', removed, 'lines added by our commits')
    if not removed: print(b, 'adds only')
