#!/opt/venv/bin/python
"""sensitivity.py [ID...]: which planted bugs the checks of their property find, and how fast.

Works on a private copy of /repo; prints a markdown table.  A tool for the author, not a check.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    base = os.path.join(HERE, 'seeded')
    print('| planted bug | needs | found by | as | decisions |')
    print('|---|---|---|---|---|')
    for name in sorted(sys.argv[1:] or os.listdir(base)):
        meta = json.load(open(os.path.join(base, name, 'meta.json')))
        tmp = tempfile.mkdtemp(prefix='sens-')
        repo = os.path.join(tmp, 'repo')
        try:
            shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
            subprocess.run(['git', 'apply', os.path.join(base, name, 'patch.diff')], cwd=repo, check=True)
            t = time.time()
            r = subprocess.run([os.path.join(HERE, 'check'), meta['property'], 'quick'], capture_output=True, text=True,
                               env=dict(os.environ, GOST_SIM_REPO=repo, SIM_SHRINK_SECONDS='8'))
            t = time.time() - t
            kind = re.search(r'^  ([\w-]+): ', r.stdout, re.M)
            cut = re.search(r'minimised from (\d+) to (\d+)', r.stdout)
            print('| %s | %s | %s | %s | %s |' % (
                name, meta['needs'], '%s, %.0f s' % (meta['property'], t) if r.returncode == 1 else 'MISSED',
                kind.group(1) if kind else '-', '%s → %s' % cut.groups() if cut else '-'), flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
