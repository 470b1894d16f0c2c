#!/usr/bin/env python3
"""check.py PROPERTY: proves the contracts behind one property on /repo's current
source (gocv), then runs the bounded companion harness, and reports."""
import glob, json, os, re, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CHECKER = 'bin/gocv -repo /repo -contracts contracts -prop %s (z3-new, z3 4.8.12)'


def goenv():
    env = dict(os.environ)
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'],
                             stdout=subprocess.PIPE, env=env).stdout.decode(errors='replace')
        for kv in out.split('\0'):
            if '=' in kv:
                k, v = kv.split('=', 1)
                env[k] = v
    except Exception:
        pass
    env.setdefault('GOPROXY', 'off')
    env['GOPROXY'] = 'off'
    env['GOFLAGS'] = '-mod=readonly'
    return env


ENV = goenv()


def run(cmd, timeout, cwd=None, env=None):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace'), time.time() - t0
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') + '\n[timeout]', time.time() - t0


def prove(prop, tmp):
    gocv = os.path.join(HERE, 'bin', 'gocv')
    if not os.path.exists(gocv):
        gocv = os.path.join(tmp, 'gocv')
        e = dict(ENV)
        e['GOFLAGS'] = '-mod=mod'
        rc, out, _ = run(['go', 'build', '-o', gocv, '.'], 300, os.path.join(HERE, 'gocv'), e)
        if rc != 0:
            return None, 'verifier does not build: ' + out[-2000:]
    rep = os.path.join(tmp, 'report.json')
    rc, out, _ = run([gocv, '-repo', REPO, '-contracts', os.path.join(HERE, 'contracts'),
                      '-prop', prop, '-out', rep], 420)
    if not os.path.exists(rep):
        return None, 'verifier gave no report: ' + out[-3000:]
    return json.load(open(rep)), out


def build_harness(tmp):
    ov = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'harness', 'verifh', '*.go'))):
        ov[os.path.join(REPO, 'verifh_', os.path.basename(f))] = f
    op = os.path.join(tmp, 'overlay.json')
    json.dump({'Replace': ov}, open(op, 'w'))
    binp = os.path.join(tmp, 'verifh')
    # export hooks for the sub tests of unexported functions; left out where they do not compile
    ox = dict(ov)
    for f in sorted(glob.glob(os.path.join(HERE, 'harness', 'verifx', '*.go.txt'))):
        ox[os.path.join(REPO, os.path.basename(f)[:-7], 'zz_verifx_export.go')] = f
    px = os.path.join(tmp, 'overlayx.json')
    json.dump({'Replace': ox}, open(px, 'w'))
    rc, out, _ = run(['go', 'build', '-tags', 'verifx', '-overlay', px, '-o', binp, './verifh_'], 400, REPO)
    if rc != 0:
        print('NOTE: export hooks do not compile, internal sub tests left out: ' + out[-300:])
        rc, out, _ = run(['go', 'build', '-overlay', op, '-o', binp, './verifh_'], 400, REPO)
    if rc != 0:
        return None, out
    rc, out, _ = run(['go', 'build', '-o', os.path.join(tmp, 'plugin'), '.'], 400, REPO)
    if rc != 0:
        return None, out
    return binp, ''


def harness(prop, binp, tmp, secs, seed, tag=''):
    out = os.path.join(tmp, 'harness%s.json' % tag)
    e = dict(ENV)
    e['VERIFH_PLUGIN'] = os.path.join(tmp, 'plugin')
    e['VERIFH_TMP'] = tmp
    rc, txt, _ = run([binp, '-prop', prop, '-seed', str(seed), '-time', str(secs), '-out', out],
                     secs * 4 + 120, tmp, e)
    if os.path.exists(out):
        return json.load(open(out)), txt
    return None, txt


def main():
    prop = sys.argv[1]
    if '--thorough' in sys.argv:
        tier = 'thorough'
    else:
        tier = TIER
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return go(prop, tier, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def go(prop, tier, tmp, t0):
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get('findings', []) if k.get('property') == prop]
    rep, log = prove(prop, tmp)
    failed, undecided, functions, trusted = [], [], [], set()
    nob = ndis = 0
    assumptions = set()
    backends = {}
    if rep is None:
        undecided.append({'function': '*', 'reason': log})
        print('UNDECIDED %s: %s' % (prop, log[-600:]))
    else:
        for f in rep['functions'] or []:
            obls = f.get('obligations') or []
            fo = []
            for o in obls:
                if o.get('props') and prop not in o['props']:
                    continue
                if f['status'] in ('proved', 'failed'):
                    nob += o['count']
                    if o['ok']:
                        ndis += o['count']
                        backends[o.get('backend', '?')] = backends.get(o.get('backend', '?'), 0) + o['count']
                    else:
                        fo.append(o)
            inv = f.get('invariant_obligations', 0)
            if f['status'] in ('proved', 'failed'):
                nob += inv
                ndis += inv
            if f['status'] == 'failed' and fo:
                for o in fo:
                    failed.append({'function': f['function'], **o})
            if f['status'] in ('undecided', 'vacuous'):
                undecided.append({'function': f['function'], 'reason': f.get('reason', '')})
                print('UNDECIDED %s %s: %s' % (prop, f['function'], f.get('reason', '')))
            if f['status'] == 'trusted':
                trusted.add(f['function'])
            for t in f.get('trusted') or []:
                assumptions.add(t)
            functions.append({'function': f['function'], 'status': f['status'],
                              'obligations': f['total'], 'discharged': f['discharged'],
                              'loop_invariants': f['invariants'], 'invariant_obligations': inv,
                              'inlined': f.get('inlined') or [], 'contracts_used': f.get('contracts_used') or [],
                              'ms': f['ms']})
        for l in rep.get('lemmas') or []:
            nob += 1
            if l['ok']:
                ndis += 1
            else:
                failed.append({'function': 'lemma', **l})
        for m in rep.get('missing') or []:
            undecided.append({'function': m, 'reason': 'function not found in the source'})
            print('UNDECIDED %s %s: function not found' % (prop, m))
        for a in rep.get('axioms') or []:
            assumptions.add('axiom: ' + a)

    # bounded companion
    secs = 10 if tier == 'quick' else 90
    hrep = None
    binp, err = build_harness(tmp)
    hfail, hknown = [], []
    if binp is None:
        print('UNDECIDED %s harness does not build: %s' % (prop, err[-500:]))
    else:
        hrep, txt = harness(prop, binp, tmp, secs, SEED)
        if hrep is None:
            # the process died: a crash the harness could not contain (fatal error in another goroutine)
            if 'fatal error' in txt or 'panic:' in txt or 'DATA RACE' in txt:
                hfail.append({'sub': 'process', 'seed': SEED, 'n': 0, 'input': ['whole run, seed %d' % SEED],
                              'fails': [txt[-1500:]]})
            else:
                print('UNDECIDED %s harness: %s' % (prop, txt[-300:]))
        else:
            for f in hrep.get('failures') or []:
                hfail.append(f)
            if failed and not hfail:
                for extra in range(2, 5):
                    h2, _ = harness(prop, binp, tmp, secs, SEED * 1000 + extra, str(extra))
                    if h2 and h2.get('failures'):
                        hfail += h2['failures']
                        break
    still = []
    for f in hfail:
        k = [k for k in known if k['sub'] == f['sub'] and re.search(k['match'], '\n'.join(f['fails']))]
        if k:
            hknown.append(k[0])
        else:
            still.append(f)
    hfail = still
    oblknown = []
    still = []
    for o in failed:
        k = [k for k in known if k.get('function') == o['function'] and k.get('obligation') == o['label']]
        if k:
            oblknown.append(k[0])
        else:
            still.append(o)
    failed = still
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    violations = 0
    lines = []
    rdir = os.path.join(HERE, 'replays')
    if hfail or failed:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-%s.json' % (prop, 'input' if hfail else 'obligation'))
        obj = {'property': prop,
               'failed_obligations': failed,
               'verifier_output': [o.get('output', '') for o in failed][:20],
               'failing_inputs': hfail,
               'replay': ('python3 %s/replay.py %s' % (HERE, rp)) if hfail else
                         'no failing input found; re-run the verifier: ' + CHECKER % prop}
        json.dump(obj, open(rp, 'w'), indent=1)
        violations = max(1, len(hfail) if hfail else len(failed))
        for o in failed:
            print('FAILED OBLIGATION %s: %s: %s %s (%s)' % (o['function'], o.get('kind'), o.get('label'), o.get('pos', ''), o.get('status')))
        for f in hfail:
            print('FAILING INPUT [%s seed %s n %s] %s => %s' % (f['sub'], f['seed'], f['n'], ' ; '.join((f['input'] or []))[:1500], ' | '.join(f['fails'])[:800]))
        line = 'VIOLATION property=%s replay=%s' % (prop, rp)
        if not hfail:
            line += ' no-failing-input-found'
        lines.append(line)

    cov = {'obligations': nob, 'discharged': ndis, 'checker_cmd': CHECKER % prop,
           'trusted_base': sorted(trusted) + ['gocv (SSA of golang.org/x/tools v0.52.0 -> verification conditions)',
                                              'z3-new / z3 4.8.12', 'Go compiler and runtime'],
           'functions': functions, 'undecided': undecided, 'backends': backends,
           'solver_ms': rep['solver_ms'] if rep else 0, 'queries': rep['queries'] if rep else 0}
    if hrep:
        cov.update({'evaluations': hrep['evaluations'], 'distinct_nontrivial': hrep['distinct_nontrivial'],
                    'rule': 'bounded companion (never counted as proved): ' + ' || '.join(hrep['rules']),
                    'samples': hrep.get('samples') or [], 'per_subtest': hrep.get('per_sub')})
    man = {}
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            man[c['property']] = c['level']
    except Exception:
        pass
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': man.get(prop, 'proof'), 'coverage': cov,
          'assumptions': sorted(assumptions) + [
              'integers are mathematical (no overflow of int64)',
              'floating point values are only compared: each comparison is exact, the arithmetic producing them is uninterpreted unless inlined'],
          'wall_s': round(time.time() - t0, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d functions; %d bounded cases; %.1fs' % (
        prop, ndis, nob, len(functions), (hrep or {}).get('evaluations', 0), time.time() - t0))
    for l in lines:
        print(l)
    return 1 if lines else 0


if __name__ == '__main__':
    sys.exit(main())
