"""mkseed.py: helper for writing planted bugs: seed(id, [(file, old, new)...], meta)."""
import json
import os
import subprocess


def seed(i, edits, meta):
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) == 1, (i, f, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        out = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    open(d + '/patch.diff', 'wb').write(out)
    json.dump(meta, open(d + '/meta.json', 'w'), indent=1)
