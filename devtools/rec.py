"""rec.py PROP 'part of the subject of the commit' 'what failed': appends a fixed: line to KNOWN_FINDINGS.txt"""
import os
import subprocess
import sys
prop, subj, text = sys.argv[1:]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get('VERIF_REPO', '/repo')
for m in subprocess.check_output(['git', '-C', repo, 'log', '--format=%h %s'], text=True).splitlines():
    h, s = m.split(' ', 1)
    if subj in s:
        open(os.path.join(here, 'KNOWN_FINDINGS.txt'), 'a').write('fixed: property=%s %s %s\n' % (prop, h, text))
        break
else:
    raise SystemExit('not found ' + subj)
