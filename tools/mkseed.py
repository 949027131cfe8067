"""mk(id, prop, edits, demo, needs, breaks): writes seeded/<id> from edits.

edits: [(file, old, new)]; old must occur exactly once. Refuses edits of lines
that are not the original repository's.
"""
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '4426748'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **k)


def mk(sid, prop, edits, demo, needs, breaks):
    W = tempfile.mkdtemp(prefix='mkseed', dir='/tmp')
    try:
        r = os.path.join(W, 'r')
        sh('git', 'clone', '-q', '/repo', r)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            line0 = s[:s.index(old)].count('\n') + 1
            n = old.rstrip('\n').count('\n') + 1
            bl = sh('git', '-C', r, 'blame', '-s', '-L',
                    '%d,+%d' % (line0, n), f).stdout.splitlines()
            newl = set(new.split('\n'))
            for b in bl:
                h, text = b.split(' ', 1)
                text = text.split(') ', 1)[1] if ') ' in text else ''
                if not h.lstrip('^').startswith(BASE[:6]) and \
                        text not in newl and text.strip():
                    print('  WARNING %s changes a line of ours: %s' % (sid, b))
            open(p, 'w').write(s.replace(old, new))
        d = sh('git', '-C', r, 'diff').stdout
        out = os.path.join(VERIF, 'seeded', sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        open(os.path.join(out, 'demo.py'), 'w').write(demo.lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write(
            '#!/bin/bash\n'
            'export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 '
            'PYTHONDONTWRITEBYTECODE=1\n'
            'export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1'
            ' OMPI_MCA_btl=self OMPI_MCA_pml=ob1\n'
            'export PYTHONPATH="$PWD/src${PYTHONPATH:+:$PYTHONPATH}"\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(W)
