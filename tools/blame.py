'''Does each planted bug change lines of the original repository?'''
import os
import re
import subprocess
import sys

SEED = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'seeded')


def git(*a):
    return subprocess.run(['git', '-C', '/repo', *a], check=True,
                          capture_output=True, text=True).stdout


root = git('rev-list', '--max-parents=0', 'HEAD').strip()
for i in sys.argv[1:] or sorted(os.listdir(SEED)):
    orig = mine = 0
    cur = line = None
    for x in open(os.path.join(SEED, i, 'patch.diff')):
        if x.startswith('--- '):
            cur = x[6:].strip()
            blame = [b.lstrip('^').split()[0] for b in git(
                'blame', '-l', '--root', 'HEAD', '--', cur).splitlines()]
        elif x.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', x).group(1))
        elif x.startswith('-'):
            if root.startswith(blame[line - 1]) or blame[line - 1] == root:
                orig += 1
            else:
                mine += 1
            line += 1
        elif x.startswith(' '):
            line += 1
    print(i, 'original lines changed:', orig, 'own:', mine,
          '' if orig else '  <-- none')
