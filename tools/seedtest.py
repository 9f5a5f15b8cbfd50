#!/opt/venv/bin/python
"""Try planted bugs in a scratch copy of /repo: seedtest.py [--notests] [--check [Q..,Q..]] ID...
For each: demo passes on the unchanged copy and fails on the patched one, the suite still has its 740 passes, and
(with --check) what the check of its property says."""
import json, os, shutil, subprocess, sys, tempfile  # noqa

ENV = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', )}
STABLE = set(x if isinstance(x, str) else x['id'] for x in [])


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout


def main():
    args = sys.argv[1:]
    notests = '--notests' in args
    check = '--check' in args
    ids = [a for a in args if not a.startswith('--')]
    if not ids:
        ids = sorted(os.listdir('/verif/seeded'))
    for i in ids:
        d = '/verif/seeded/' + i
        meta = json.load(open(d + '/meta.json'))
        tmp = tempfile.mkdtemp(prefix='seed_')
        try:
            repo = tmp + '/repo'
            shutil.copytree('/repo', repo, symlinks=True)
            env = dict(ENV, PYTHONPATH=repo + '/src', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONWARNINGS='ignore')
            demo = tmp + '/demo'
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
            r0, o0 = sh('bash %s/demo.sh' % demo, repo, env, 300)
            ra, oa = sh('git apply %s/patch.diff' % d, repo)
            r1, o1 = sh('bash %s/demo.sh' % demo, repo, env, 300)
            line = '%-28s %s demo %s/%s' % (i, meta['property'], r0, r1)
            bad = r0 != 0 or ra != 0 or r1 == 0
            if bad:
                print(oa, o0[-600:], '\n----\n', o1[-600:])
            if not notests and not bad:
                s = open('/opt/vp/test.sh').read().replace('/repo', repo).replace('unset PYTHONPATH', 'unset XX').replace('/opt/vp/reports', tmp + '/reports')
                open(tmp + '/t.sh', 'w').write(s)
                r, o = sh('bash %s/t.sh %s/o.json' % (tmp, tmp), repo, env)
                res = json.load(open(tmp + '/o.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                lost = lost_tests(base, res)
                line += '  lost tests: %d %s' % (len(lost), lost[:3])
            if check and not bad:
                r, o = sh('/verif/check %s --noevidence' % meta['property'], '/verif', dict(env, VF_REPO=repo, PYTHONPATH=''), 900)
                v = [x for x in o.splitlines() if x.startswith('VIOLATION')]
                line += '  check: exit %d, %d violations %s' % (r, len(v), [x.split('replay/')[-1] for x in v[:2]])
            print(line, flush=True)
        finally:
            shutil.rmtree(tmp)


def passed(res):
    if 'passed' in res and isinstance(res['passed'], list):
        return set(res['passed'])
    raise SystemExit('unknown format %s' % list(res)[:5])


def lost_tests(base, res):
    b = base.get('stable_pass') or base.get('passed') or base.get('stable')
    return sorted(set(b) - passed(res))


main()
