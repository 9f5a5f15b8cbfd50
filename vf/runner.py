"""check QNN [--tier quick|thorough]   run one property's check
check --replay FILE                     re-run one saved case (exit 1 if it still violates)"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(HERE, 'known_findings.json')


def load(pid):
    from . import env  # noqa
    return importlib.import_module('vf.props.%s' % pid.lower())


def known_entries(pid):
    try:
        with open(KNOWN_FILE) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data if e['property'] == pid and e['kind'] == 'known']


def corpus(pid):
    path = os.path.join(HERE, 'corpus', pid + '.jsonl')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(line) for line in f if line.strip()]


def make_known(mod, entries):
    preds = getattr(mod, 'KNOWN', {})
    active = {e['id']: preds[e['id']] for e in entries if e['id'] in preds}

    def known(part, case, exc):
        for kid, pred in active.items():
            if pred(part.name, case, exc):
                return kid
        return None
    return known


def shard_main(args):
    from . import core
    mod = load(args.prop)
    prop = mod.PROP
    idx, count = args.shard
    seed = args.seed * 1000 + idx * 7919
    deadline = time.monotonic() + args.cap
    known = make_known(mod, known_entries(args.prop))
    out = {'parts': {}, 'failures': [], 'known_hits': {}, 'corpus': 0}
    if idx == 0:
        for line in corpus(args.prop):
            part = prop.get(line['part'])
            try:
                core.run_case(part, line['case'])
            except core.Discard:
                pass
            except (Exception, core.CaseTimeout) as exc:
                if not known(part, line['case'], exc):
                    out['failures'].append({'part': part.name, 'case': line['case'], 'error': repr(exc)[:600],
                                            'tb': core.short_tb(exc), 'origin': 'corpus'})
            out['corpus'] += 1
    for k, part in enumerate(prop.parts):
        if args.part and part.name not in args.part:
            continue
        n = part.quick if args.tier == 'quick' else part.thorough
        n = max(1, int(n * args.scale / count + 0.999))
        t0 = time.monotonic()
        st, failure, hits = core.run_part(part, seed + 101 * k, n, deadline, known, (idx, count))
        out['parts'][part.name] = dict(
            evaluations=st.evaluations, discards=st.discards, skipped=st.skipped, nt=sorted(st.nt), tags=st.tags,
            samples=st.samples, discard_reasons=st.discard_reasons, wall_s=round(time.monotonic() - t0, 2),
            max_case_s=round(st.max_case_s, 2), rule=part.rule)
        for kid, c in hits.items():
            out['known_hits'][kid] = out['known_hits'].get(kid, 0) + c
        if failure:
            out['failures'].append({'part': part.name, 'case': failure.case, 'error': repr(failure.exc)[:600],
                                    'tb': core.short_tb(failure.exc), 'origin': 'generated'})
    with open(args.out, 'w') as f:
        json.dump(out, f, default=str)


def replay_main(path):
    from . import core
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec['property'])
    part = mod.PROP.get(rec['part'])
    try:
        core.run_case(part, rec['case'])
    except core.Discard as exc:
        print('case is out of the domain: %s' % exc)
        return 0
    except (Exception, core.CaseTimeout) as exc:
        print(core.short_tb(exc))
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    print('case passes')
    return 0


def probe_main(args):
    """Re-run the recorded case of each known finding; report those that still fail"""
    from . import core
    mod = load(args.prop)
    res = {}
    for e in known_entries(args.prop):
        part = mod.PROP.get(e['part'])
        try:
            core.run_case(part, e['case'])
            res[e['id']] = None
        except (Exception, core.CaseTimeout) as exc:
            res[e['id']] = repr(exc)[:300]
    with open(args.out, 'w') as f:
        json.dump(res, f)


def orchestrate(args):
    t0 = time.monotonic()
    envv = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', MPLBACKEND='Agg',
                HOME=os.environ.get('HOME', '/root'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    envv.pop('PYTHONPATH', None)
    shards = args.shards
    work = tempfile.mkdtemp(prefix='vf_')
    procs = []
    try:
        base = [sys.executable, '-W', 'ignore', '-m', 'vf.runner', args.prop, '--tier', args.tier, '--seed', str(args.seed),
                '--cap', str(args.cap), '--scale', str(args.scale)]
        if args.part:
            base += ['--part'] + args.part
        entries = known_entries(args.prop)
        if entries:
            procs.append((None, os.path.join(work, 'probe.json'), subprocess.Popen(
                base + ['--probe', '--out', os.path.join(work, 'probe.json')], cwd=HERE, env=envv,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for i in range(shards):
            out = os.path.join(work, 'shard%d.json' % i)
            log = open(os.path.join(work, 'shard%d.log' % i), 'w')
            procs.append((i, out, subprocess.Popen(base + ['--shard', '%d/%d' % (i, shards), '--out', out], cwd=HERE,
                                                   env=envv, stdout=log, stderr=subprocess.STDOUT, text=True)))
        results, probe, trouble = [], {}, []
        for i, out, p in procs:
            if i is None:
                txt, _ = p.communicate()
            else:
                p.wait()
                with open(os.path.join(work, 'shard%d.log' % i)) as f:
                    txt = f.read()
            if p.returncode != 0 or not os.path.exists(out):
                trouble.append((i, p.returncode, txt[-3000:]))
                continue
            with open(out) as f:
                if i is None:
                    probe = json.load(f)
                else:
                    results.append(json.load(f))
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)
    return finish(args, results, probe, trouble, entries, time.monotonic() - t0)


def finish(args, results, probe, trouble, entries, wall):
    mod_rule, assumptions = '', []
    ev = 0
    nt = set()
    parts, samples, failures, tags = {}, [], [], {}
    corpus_n = 0
    for r in results:
        corpus_n += r['corpus']
        failures += r['failures']
        for name, p in r['parts'].items():
            q = parts.setdefault(name, dict(evaluations=0, discarded=0, skipped_by_time_cap=0, nt=set(), tags={},
                                            discard_reasons={}, max_case_s=0, wall_s=0, rule=p['rule']))
            q['evaluations'] += p['evaluations']
            q['discarded'] += p['discards']
            q['skipped_by_time_cap'] += p['skipped']
            q['nt'] |= set(p['nt'])
            q['max_case_s'] = max(q['max_case_s'], p['max_case_s'])
            q['wall_s'] = max(q['wall_s'], p['wall_s'])
            for t, c in p['tags'].items():
                q['tags'][t] = q['tags'].get(t, 0) + c
            for t, c in p['discard_reasons'].items():
                q['discard_reasons'][t] = q['discard_reasons'].get(t, 0) + c
            samples += p['samples'][:1]
    for name, q in parts.items():
        ev += q['evaluations']
        nt |= {name + ':' + h for h in q['nt']}
        q['distinct_nontrivial'] = len(q.pop('nt'))
        if q['rule'] is None:
            q.pop('rule')
    meta = json.loads(os.environ.get('VF_META', '{}'))
    del meta
    samples.sort(key=lambda s: s['part'])
    seen, picked = {}, []
    for s in samples:
        if seen.get(s['part'], 0) < 2 and len(json.dumps(s, default=str)) < 4000:
            seen[s['part']] = seen.get(s['part'], 0) + 1
            picked.append(s)
    from .texts import RULES, ASSUMPTIONS
    evidence = dict(
        property=args.prop, tier=args.tier, seed=args.seed, level='exploration',
        coverage=dict(evaluations=ev, distinct_nontrivial=len(nt), rule=RULES.get(args.prop, 'see DESIGN.md'),
                      samples=picked or [{'note': 'no sample recorded'}], corpus_cases=corpus_n, parts=parts),
        assumptions=ASSUMPTIONS.get(args.prop, ASSUMPTIONS['*']), wall_s=round(wall, 1), violations=len(failures))
    if not args.part and not args.noevidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', args.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
    for name, q in sorted(parts.items()):
        print('%s part %-26s %6d evaluated %6d distinct non-trivial %5d discarded %5d skipped  (%.0f s, slowest case %.1f s)' % (
            args.prop, name, q['evaluations'], q['distinct_nontrivial'], q['discarded'], q['skipped_by_time_cap'],
            q['wall_s'], q['max_case_s']))
        if args.verbose:
            print('   tags', dict(sorted(q['tags'].items(), key=lambda t: -t[1])))
            print('   discards', q['discard_reasons'])
    for e in entries:
        if probe.get(e['id']):
            print('KNOWN-FINDING: property=%s %s' % (args.prop, e['what']))
        elif e['id'] in probe:
            print('note: known finding %s no longer fails' % e['id'])
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f['case'], default=str)))
        done = set()
        for f in failures:
            if f['part'] in done:
                continue
            done.add(f['part'])
            os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
            path = os.path.join(HERE, 'replay', '%s-%s-%s.json' % (args.prop, f['part'], abs(hash(json.dumps(f['case'], default=str))) % 10**8))
            with open(path, 'w') as fh:
                json.dump(dict(property=args.prop, part=f['part'], case=f['case'], error=f['error'], traceback=f['tb']),
                          fh, indent=1, default=str)
            print('--- %s part %s (%s): %s' % (args.prop, f['part'], f['origin'], f['error']))
            print('    case: %s' % json.dumps(f['case'], default=str)[:2000])
            if args.verbose:
                print(f['tb'])
            print('VIOLATION property=%s replay=%s' % (args.prop, path))
        return 1
    if trouble:
        for i, rc, txt in trouble:
            print('machinery trouble in shard %s (exit %s):\n%s' % (i, rc, txt))
        return 2
    print('%s: held on everything explored (%d evaluations, %d distinct non-trivial, %.0f s)' % (args.prop, ev, len(nt), wall))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cap', type=float, default=None)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--shards', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--shard')
    ap.add_argument('--part', nargs='*')
    ap.add_argument('--out')
    ap.add_argument('--probe', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--noevidence', action='store_true')
    ap.add_argument('-v', '--verbose', action='store_true')
    args = ap.parse_args()
    if args.cap is None:
        args.cap = 420 if args.tier == 'quick' else 5400
    if args.replay:
        return replay_main(args.replay)
    args.prop = args.prop.upper()
    if args.probe:
        return probe_main(args)
    if args.shard:
        args.shard = tuple(int(x) for x in args.shard.split('/'))
        return shard_main(args)
    return orchestrate(args)


if __name__ == '__main__':
    sys.exit(main())
