"""Entry point: ./check P01 [--tier quick|thorough] [--replay FILE]"""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYPOTHESIS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def worker(args):
    from pbt import core
    core.bootstrap()
    if HYPOTHESIS not in sys.path:
        sys.path.append(HYPOTHESIS)
    import hypothesis
    from hypothesis import given, settings, seed, HealthCheck, Phase
    mod = core.load(args.property)
    st = dict(n=0, discarded=0, nontrivial=set(), labels={}, samples=[], best=None, first=None, msg=None, harness=None)
    strategy = mod.strategy(args.tier)
    budget = 25.0 if args.tier == 'quick' else 90.0
    if os.environ.get('PBT_NOSHRINK'):  # for measuring detection only
        budget = -1.0

    @seed(args.seed * 1000 + args.shard)
    @settings(max_examples=args.cases, deadline=None, database=None, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), print_blob=False,
              phases=(Phase.generate, Phase.shrink))
    @given(strategy)
    def test(case):
        if st['harness'] is not None:
            return
        if st['first'] is not None and time.monotonic() - st['first'] > budget:
            return  # only the minimization of a found failure is cut short
        rec = core.Rec()
        if st['first'] is None:
            st['n'] += 1
        try:
            core.run_case(mod, case, rec)
        except core.Discard:
            if st['first'] is None:
                st['discarded'] += 1
            return
        except core.HarnessError as e:
            st['harness'] = str(e) + '\ncase: ' + json.dumps(case)
            return
        except core.Violation as v:
            if st['first'] is None:
                st['first'] = time.monotonic()
            size = len(json.dumps(case))
            if st['best'] is None or size <= st['best'][0]:
                st['best'] = (size, case, str(v))
            raise
        if st['first'] is None:
            for l in rec.labels:
                st['labels'][l] = st['labels'].get(l, 0) + 1
            if rec.nontrivial:
                k = core.case_key(case)
                if k not in st['nontrivial']:
                    st['nontrivial'].add(k)
                    if len(st['samples']) < 3 and len(json.dumps(case)) < 1500:
                        st['samples'].append(case)
    try:
        test()
    except core.Violation:
        pass
    except Exception as e:
        if st['best'] is None:
            import traceback
            st['harness'] = st['harness'] or traceback.format_exc()[-4000:]
    out = dict(n=st['n'], discarded=st['discarded'], nontrivial=sorted(st['nontrivial']), labels=st['labels'],
               samples=st['samples'], best=st['best'], harness=st['harness'])
    with open(args.worker, 'w') as f:
        json.dump(out, f)
    return 0


def replay(args):
    from pbt import core
    core.bootstrap()
    mod = core.load(args.property)
    with open(args.replay) as f:
        d = json.load(f)
    try:
        core.run_case(mod, d['case'], core.Rec())
    except core.Discard:
        print('discarded'); return 0
    except core.Violation as v:
        print('VIOLATION property=%s replay=%s' % (args.property, args.replay))
        print(str(v)); return 1
    print('holds'); return 0


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']


def corpus(pid):
    path = os.path.join(HERE, 'pbt', 'corpus', pid + '.jsonl')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(l)['case'] for l in f if l.strip()]


def master(args):
    t0 = time.time()
    from pbt import core
    core.bootstrap()
    mod = core.load(args.property)
    shards, cases = mod.SIZES[args.tier]
    if args.cases:
        cases = args.cases
    if args.shards:
        shards = args.shards
    tmp = tempfile.mkdtemp(prefix='pbt_%s_' % args.property)
    try:
        procs = []
        for i in range(shards):
            out = os.path.join(tmp, 'r%d.json' % i)
            err = open(os.path.join(tmp, 'e%d.txt' % i), 'w')
            procs.append((i, out, subprocess.Popen(
                [sys.executable, '-B', '-m', 'pbt.main', args.property, '--tier', args.tier, '--worker', out,
                 '--shard', str(i), '--seed', str(args.seed), '--cases', str(cases)],
                cwd=HERE, stdout=subprocess.DEVNULL, stderr=err)))
        results, harness = [], []
        for i, out, p in procs:
            p.wait()
            try:
                with open(out) as f:
                    r = json.load(f)
            except Exception:
                with open(os.path.join(tmp, 'e%d.txt' % i)) as f:
                    harness.append('worker %d ended with %s: %s' % (i, p.returncode, f.read()[-3000:]))
                continue
            results.append(r)
            if r['harness']:
                harness.append(r['harness'])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # the regression tier: plain cases, without the library (former failures and pinned scenarios)
    pinned = 0
    failing = [r['best'] for r in results if r['best']]
    for case in list(getattr(mod, 'PINNED', [])) + corpus(args.property):
        pinned += 1
        try:
            core.run_case(mod, case, core.Rec())
        except core.Violation as v:
            failing.append((len(json.dumps(case)), case, str(v)))
        except core.HarnessError as e:
            harness.append(str(e))
    known = []
    for k in known_findings(args.property):
        try:
            core.run_case(mod, k['case'], core.Rec())
        except core.Violation as v:
            if k.get('match', '') not in str(v):
                failing.append((len(json.dumps(k['case'])), k['case'], str(v)))
                continue
            print('KNOWN-FINDING: property=%s %s' % (args.property, k['what']))
            known.append(k['what'])
        except core.HarnessError as e:
            harness.append(str(e))
    nt = set()
    labels, n, disc, samples = {}, pinned, 0, []
    for r in results:
        nt.update(r['nontrivial']); n += r['n']; disc += r['discarded']
        for l, c in r['labels'].items():
            labels[l] = labels.get(l, 0) + c
        samples += r['samples'][:2]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=args.property, tier=args.tier, seed=args.seed, level='exploration',
              coverage=dict(evaluations=n, distinct_nontrivial=len(nt), rule=mod.RULE, samples=samples[:6],
                            labels=dict(sorted(labels.items(), key=lambda x: -x[1])), discarded=disc, pinned=pinned,
                            shards=shards, cases_per_shard=cases, known_findings=known),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=1 if failing else 0)
    with open(os.path.join(HERE, 'evidence', args.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if failing:
        size, case, msg = min(failing, key=lambda b: b[0])
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%s.json' % (args.property, core.case_key(case)))
        with open(path, 'w') as f:
            json.dump(dict(property=args.property, case=case, message=msg, seed=args.seed, tier=args.tier), f, indent=1)
        p = subprocess.run([sys.executable, '-B', '-m', 'pbt.main', args.property, '--replay', path], cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(msg)
        print('case: ' + json.dumps(case)[:3000])
        print('replayed in a fresh process: %s' % ('fails again' if p.returncode == 1 else 'does not fail there (depends on earlier cases of the run)'))
        print('VIOLATION property=%s replay=%s' % (args.property, path))
        return 1
    if harness:
        print('HARNESS ERROR'); print(harness[0]); return 2
    print('%s %s: held on %d cases, %d distinct non-trivial, %d discarded, %.1f s' % (args.property, args.tier, n, len(nt), disc, time.time() - t0))
    if args.verbose:
        for l, c in sorted(labels.items(), key=lambda x: -x[1]):
            print('   %6d %s' % (c, l))
    return 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property')
    a.add_argument('--tier', default=None, choices=['quick', 'thorough'])
    a.add_argument('--seed', type=int, default=None)
    a.add_argument('--cases', type=int, default=None)
    a.add_argument('--shards', type=int, default=None)
    a.add_argument('--shard', type=int, default=0)
    a.add_argument('--worker', default=None)
    a.add_argument('--replay', default=None)
    a.add_argument('-v', '--verbose', action='store_true')
    args = a.parse_args()
    if args.tier is None:
        args.tier = os.environ.get('VERIF_TIER', 'quick')
        if args.tier not in ('quick', 'thorough'):
            args.tier = 'quick'
    if args.seed is None:
        try:
            args.seed = abs(int(os.environ.get('VERIF_SEED', '1')))
        except ValueError:
            args.seed = 1
    if args.worker:
        return worker(args)
    if args.replay:
        return replay(args)
    return master(args)


if __name__ == '__main__':
    sys.exit(main())
