#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--only harness,...] [--keep]

Symbolic execution of the library's templates (regenerated from /repo's working tree) with an SMT
solver deciding every branch and every assertion.  Exit 0: held on everything explored; exit 1 and a
line 'VIOLATION property=<id> replay=<path>': broken (the counterexample was replayed natively).
"""
import argparse
import json
import os
import re
import resource
import subprocess
import sys
import tempfile
import time
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'vlib'))
import sxbuild  # noqa: E402

PROP = ''
WORKERS = int(os.environ.get('SX_WORKERS', '8'))


def discover(prop):
    """harnesses registered for the property: [(group, name, opts)]"""
    out = []
    hd = os.path.join(VERIF, 'harness')
    for f in sorted(os.listdir(hd)):
        if not f.endswith('.cpp'):
            continue
        src = open(os.path.join(hd, f)).read()
        for m in re.finditer(r'^HARNESS\((\w+),\s*"([^"]*)",\s*"([^"]*)"\)', src, re.M):
            if prop in m.group(2).split(','):
                opts = dict(x.split('=', 1) if '=' in x else (x, '1') for x in m.group(3).split())
                out.append((f[:-4], m.group(1), opts, m.group(2).split(',')))
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_symbolic(exe, name, prefixes, slice_s, tier, tmp, seq, hard):
    pf = os.path.join(tmp, 'p%d' % seq)
    of = os.path.join(tmp, 'o%d' % seq)
    if prefixes is not None:
        with open(pf, 'w') as f:
            f.write('\n'.join(prefixes) + '\n')
    cmd = [exe, '--harness', name, '--slice', str(slice_s), '--tier', tier, '--out', of]
    if prefixes is not None:
        cmd += ['--prefixes', pf]
    env = dict(os.environ, SX_MODE='symbolic', SX_PROP=PROP)
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=hard,
                           preexec_fn=limits)
        if os.path.exists(of):
            with open(of) as f:
                r = json.load(f)
            os.unlink(of)
            return r
        return {'failed': 'exit %d %s' % (p.returncode, p.stderr[-300:].decode(errors='replace')), 'prefixes': prefixes}
    except subprocess.TimeoutExpired:
        return {'failed': 'time limit of one slice', 'prefixes': prefixes}
    except Exception as e:  # noqa
        return {'failed': repr(e), 'prefixes': prefixes}


def run_concrete(exe, name, inputs, label, tries, seed, tmp, tag):
    rf = os.path.join(tmp, 'r' + tag)
    of = os.path.join(tmp, 'c' + tag)
    with open(rf, 'w') as f:
        for k, v in inputs.items():
            f.write('%s\t%s\n' % (k, repr(v)))
    cmd = [exe, '--harness', name, '--replay', rf, '--label', label, '--tries', str(tries), '--seed', str(seed),
           '--out', of]
    try:
        subprocess.run(cmd, env=dict(os.environ, SX_MODE='concrete', SX_PROP=PROP), stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=40, preexec_fn=limits)
        with open(of) as f:
            return json.load(f)
    except Exception as e:  # noqa
        return {'reproduced': False, 'error': repr(e)}


class Merge:
    def __init__(self):
        self.num = dict.fromkeys(['paths', 'discarded', 'budget', 'infeasible', 'branches', 'queries', 'unknown',
                                  'fallbacks', 'crashed'], 0)
        self.solver_s = 0.0
        self.labels = {}
        self.reached = {}
        self.discards = {}
        self.notes = {}
        self.samples = []
        self.models = []
        self.violations = []
        self.failed = []
        self.left = 0
        self.complete = False

    def add(self, r):
        for k in self.num:
            self.num[k] += r.get(k, 0)
        self.solver_s += r.get('solver_s', 0)
        for l, a in r['labels'].items():
            b = self.labels.setdefault(l, [0] * 5)
            for i in range(5):
                b[i] += a[i]
        for f in ('reached', 'discards', 'notes'):
            d = getattr(self, f)
            for k, v in r[f].items():
                d[k] = d.get(k, 0) + v
        self.samples += r['samples']
        self.violations += r['violations']


def owns(prop, label, props, opts):
    if re.match(r'C\d\d\.', label):
        return label.startswith(prop + '.')
    owner = opts.get('crash')
    return owner is None or prop in owner.split(',')


def symbols(objs, cases):
    """functions of the library that the harness binary executes symbolically"""
    names = set()
    for o in objs:
        try:
            out = subprocess.run(['nm', '-C', '--defined-only', o], stdout=subprocess.PIPE, text=True).stdout
        except OSError:
            continue
        for line in out.splitlines():
            m = re.match(r'[0-9a-f]+ [TW] (.*)', line)
            if not m:
                continue
            s = m.group(1)
            if 'Eigen::' in s.split('(')[0] or 'std::' in s.split('(')[0] or '__gnu' in s.split('(')[0]:
                continue
            s = re.sub(r'\(.*$', '', s)
            s = re.sub(r'sx::SymT<\d>', 'S', s)
            if 'matslise' in s or 'calculate' in s or 'newton' in s or 'propagat' in s:
                names.add(s.split(' ')[-1] if '<' not in s else s)
    return sorted(names)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    global PROP
    prop, tier = a.property, a.tier
    PROP = prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cases = discover(prop)
    if a.only:
        cases = [c for c in cases if c[1] in a.only.split(',')]
    if not cases:
        print('no harness for', prop)
        return 2
    groups = {}
    notbuilt = {}
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        fs = {g: ex.submit(sxbuild.build, g) for g in sorted({c[0] for c in cases})}
    for g, f in fs.items():
        try:
            groups[g] = f.result()
        except sxbuild.BuildError as e:
            notbuilt[g] = str(e)
    if notbuilt:
        for g, e in notbuilt.items():
            print('NOT BUILT: %s\n%s' % (g, e[-1500:]))
        src = lambda g: open(os.path.join(VERIF, 'harness', g + '.cpp')).read()
        must = [g for g in notbuilt if prop in sxbuild.header_config(src(g)).get('mustcompile', '').split(',')]
        if must and groups:
            # the operation the harness asks for is missing: other harnesses of the property do build
            rd = os.path.join(sxbuild.BUILD, 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s-build.txt' % (prop, must[0]))
            with open(path, 'w') as f:
                f.write(notbuilt[must[0]])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        cases = [c for c in cases if c[0] in groups]
        if not cases:
            return 2
    build_s = time.time() - t0
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k['property'] == prop]

    merged = {c[1]: Merge() for c in cases}
    caseof = {c[1]: c for c in cases}
    tmpd = tempfile.TemporaryDirectory(prefix='sxrun')
    tmp = tmpd.name
    start = time.time()
    default_budget = 40 if tier == 'quick' else 900
    opt_of = lambda c, k, d: float(c[2].get(k, d))
    budget = {c[1]: a.budget or opt_of(c, tier, default_budget) for c in cases}
    total_cap = (a.budget or 0) + (100 if tier == 'quick' else 3600)
    confirmed, unconfirmed, knownhit = [], [], {}
    tried = {}
    stop = False
    validated = 0

    def consider(name, v):
        """replay a counterexample against the real code, natively"""
        c = caseof[name]
        if not owns(prop, v['label'], c[3], c[2]):
            return False
        key = (name, v['label'], v['detail'])
        if tried.get(key, 0) >= 5:
            return False
        tried[key] = tried.get(key, 0) + 1
        for k in known:
            if k.get('status') == 'known' and k.get('harness', name) == name and k['label'] == v['label'] and \
                    k.get('detail', '') == v['detail']:
                knownhit[k['what']] = k
                return False
        exe = groups[c[0]][0]
        for i, m in enumerate(v['models']):
            r = run_concrete(exe, name, m, v['label'], 1 if i else 400, seed, tmp, 'v%d_%d' % (len(tried), i))
            if r.get('reproduced'):
                confirmed.append((name, v, r))
                return True
        unconfirmed.append((name, v))
        return False

    # one worker pool for all harnesses; every harness explores until its own budget is used up
    queue = [(c[1], None) for c in cases]
    spent = dict.fromkeys(merged, 0.0)
    open_left = {n: [] for n in merged}
    running = {}
    seq = 0
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        while (queue or running) and not stop:
            while queue and len(running) < WORKERS:
                name, pre = queue.pop(0)
                c = caseof[name]
                remaining = min(budget[name] * WORKERS - spent[name], (start + total_cap - time.time()))
                if remaining <= 0.5 or time.time() - start > total_cap:
                    merged[name].left += len(pre) if pre else 1
                    continue
                sl = 1.5 if pre is None else min(12 if tier == 'quick' else 60, max(2, remaining))
                seq += 1
                hard = min(sl + float(c[2].get('pathmax', 60 if tier == 'quick' else 300)),
                           max(10, start + total_cap + 20 - time.time()))
                f = ex.submit(run_symbolic, groups[c[0]][0], name, pre, sl, tier, tmp, seq, hard)
                running[f] = (name, time.time(), pre)
            if not running:
                break
            done, _ = cf.wait(list(running), timeout=1, return_when=cf.FIRST_COMPLETED)
            for f in done:
                name, ts, pre = running.pop(f)
                spent[name] += time.time() - ts
                r = f.result()
                if 'failed' in r:
                    merged[name].failed.append(r['failed'])
                    pr = r['prefixes']
                    # a slice that died is split, a single prefix that dies alone is given up
                    if pr and len(pr) > 1:
                        queue += [(name, [x]) for x in pr[-WORKERS:]]
                        merged[name].left += max(0, len(pr) - WORKERS)
                    else:
                        merged[name].left += 1
                    continue
                merged[name].add(r)
                for v in r['violations']:
                    if consider(name, v):
                        stop = True
                        break
                left = r['left']
                if left:
                    k = min(len(left), WORKERS)
                    for i in range(k):
                        queue.append((name, left[i::k]))
                if stop:
                    break
        if stop:
            for f in running:
                f.cancel()
    # cross-validation of the encoding: sampled solver models are run natively through the same code
    # (an execution that disagrees is reported in the evidence, it is not a verdict)
    mismatches = []
    if not confirmed:
        vt = time.time()
        for name, m in merged.items():
            c = caseof[name]
            if 'novalidate' in c[2]:
                continue
            for s in m.samples[:3]:
                if time.time() - vt > 15:
                    break
                inp = {}
                for tok in s.split(': ', 1)[-1].split(' '):
                    if '=' in tok:
                        k, v = tok.rsplit('=', 1)
                        try:
                            inp[k] = float(v)
                        except ValueError:
                            pass
                r = run_concrete(groups[c[0]][0], name, inp, '', 1, seed, tmp, 's%d' % validated)
                validated += 1
                if r.get('reproduced'):
                    mismatches.append('%s: %s %s' % (name, r.get('label'), r.get('why')))
    tot = {k: sum(m.num[k] for m in merged.values()) for k in Merge().num}
    labels = {}
    for n, m in merged.items():
        for l, v in m.labels.items():
            if owns(prop, l, caseof[n][3], caseof[n][2]):
                b = labels.setdefault(l, [0] * 5)
                for i in range(5):
                    b[i] += v[i]
    obligations = sum(v[0] for v in labels.values())
    discharged = sum(v[1] for v in labels.values())
    undecided = sum(v[3] for v in labels.values())
    incomplete = {n: m.left for n, m in merged.items() if m.left}
    vac = []
    for n, m in merged.items():
        if not confirmed and (m.num['paths'] == 0 or not any(owns(prop, l, caseof[n][3], caseof[n][2]) and v[0]
                                                              for l, v in m.labels.items())):
            if not m.violations:
                vac.append(n)
    fn = set()
    for g, b in groups.items():
        fn |= set(symbols(b[2], None))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['branches'],
            'traces_validated_against_impl': validated,
            'samples': [s for m in merged.values() for s in m.samples[:4]][:16] or ['(no input is symbolic)'],
            'obligations': obligations, 'discharged': discharged,
            'undecided_obligations': undecided,
            'decided_by_normal_form': sum(v[4] for v in labels.values()),
            'solver_queries': tot['queries'], 'solver_unknown': tot['unknown'],
            'solver_seconds': round(sum(m.solver_s for m in merged.values()), 2),
            'infeasible_paths': tot['infeasible'], 'paths_outside_the_claim': tot['discarded'],
            'paths_over_budget': tot['budget'],
            'unexplored_path_prefixes': incomplete, 'groups_not_built': sorted(notbuilt), 'vacuous_harnesses': vac,
            'harnesses': {n: {'paths': m.num['paths'], 'queries': m.num['queries'], 'discards': m.discards,
                              'bounds': sorted(m.notes), 'reached': m.reached,
                              'solver_s': round(m.solver_s, 2), 'failed_slices': m.failed[:5],
                              'labels': {l: dict(zip(('checked', 'discharged', 'violated', 'undecided', 'normal_form'), v))
                                         for l, v in m.labels.items()}} for n, m in merged.items()},
            'functions_encoded': sorted(fn)[:400],
            'encoding_mismatches': mismatches,
            'exhaustive': not notbuilt and not incomplete and not undecided and tot['budget'] == 0,
            'explanation': 'symbolic execution of the real templates; states = completed symbolic paths, '
                           'transitions = branch decisions made by the solver, obligations = assertions sent to the '
                           'solver (normal_form: the two sides have the same polynomial normal form)',
        },
        'assumptions': sorted({n for m in merged.values() for n in m.notes}),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d paths, %d branch decisions, %d obligations (%d discharged, %d undecided), %d queries, '
          'build %.1fs, total %.1fs' % (prop, tier, tot['paths'], tot['branches'], obligations, discharged, undecided,
                                        tot['queries'], build_s, time.time() - t0))
    if a.verbose:
        for n, m in merged.items():
            print(' ', n, m.num, 'solver %.1f' % m.solver_s, 'left', m.left, 'spent %.1f' % spent[n])
            print('     labels', m.labels)
            print('     discards', m.discards, 'reached', m.reached, 'failed', m.failed[:3])
            for v in m.violations[:6]:
                print('     violation', v['label'], v['detail'], v['why'][:300], str(v['models'])[:700])
        print('validated', validated, 'mismatches', mismatches)
    for n in vac:
        print('NOTE: harness %s reached no obligation of %s' % (n, prop))
    if incomplete:
        print('BOUNDED: unexplored path prefixes', incomplete)
    if undecided:
        print('UNDECIDED: %d obligations' % undecided)
    for w, k in sorted(knownhit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for n, v in unconfirmed[:10]:
        print('UNCONFIRMED: %s %s %s (%s): the solver\'s model does not reproduce natively; not reported'
              % (n, v['label'], v['detail'], v['why'][:200]))
    if confirmed:
        name, v, r = confirmed[0]
        rd = os.path.join(sxbuild.BUILD, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (prop, name))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'harness': name, 'label': v['label'], 'detail': v['detail'], 'why': v['why'],
                       'native_run': r, 'binary': groups[caseof[name][0]][0],
                       'how': 'SX_MODE=concrete <binary> --harness %s --label %s --replay <file with name<TAB>value lines>'
                              % (name, v['label'])}, f, indent=1)
        print('  %s: %s' % (v['label'], v['why'][:400]))
        print('  native run: %s  inputs: %s' % (r.get('why'), json.dumps(r.get('inputs'))[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    try:
        sys.stdout.reconfigure(line_buffering=True)
        rc = main()
    except sxbuild.BuildError as e:
        print(str(e))
        rc = 2
    sys.exit(rc)
