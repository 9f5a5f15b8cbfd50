#!/opt/venv/bin/python
"""Write the planted bugs to /verif/seeded from this list (patches against /repo's HEAD)."""
import difflib, json, os, shutil, sys  # noqa

A = 'src/qnet/algebra/core/'
T = 'src/qnet/algebra/toolbox/'
R = 'src/qnet/algebra/_rules.py'
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))


from seeds import *  # noqa


def main():
    only = sys.argv[1:]
    for id, prop, edits, needs, breaks, demo in BUGS:
        if only and id not in only:
            continue
        d = '/verif/seeded/' + id
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = ''
        new = {}
        for path, old, rep in edits:
            s = new.get(path) or open('/repo/' + path).read()
            if s.count(old) != 1:
                raise SystemExit('%s: %d occurrences of %r' % (id, s.count(old), old))
            new[path] = s.replace(old, rep)
        for path, s in new.items():
            o = open('/repo/' + path).read()
            diff += ''.join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), 'a/' + path, 'b/' + path))
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(demo.strip() + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)


if __name__ == '__main__':
    main()
