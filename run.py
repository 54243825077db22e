#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, runs its generated cases and writes the evidence.

usage: run.py CHECK-ID [--tier quick|thorough] [--seed N] [--only SUBSTR] [--cases N] [--replay FILE] [--keep]
Exit status: 0 the property held on every generated case, 1 a violation was confirmed (VIOLATION line).
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS

CXX = '/usr/bin/g++'
BASE = ['-std=c++17', '-O1', '-g1', '-march=x86-64-v3', '-fno-omit-frame-pointer', '-w', '-I' + REPO + '/src', '-I' + HERE + '/pbt']
SAN = ['-fsanitize=address']
ENV = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:symbolize=0:abort_on_error=0:handle_segv=1:'
           'allocator_may_return_null=1:hard_rss_limit_mb=3000:quarantine_size_mb=16:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=99:print_stacktrace=0', LC_ALL='C')


def log(*a):
    print(*a, flush=True)


def flags_of(unit):
    f = list(BASE) + list(unit.get('san', SAN))
    if unit.get('ndebug', True):
        f.append('-DNDEBUG')
    return f + list(unit.get('flags', []))


def compile_units(units, build, jobs=None):
    """Compiles all units in parallel. Returns (objects, [(unit, stderr)])."""
    def one(i):
        u = units[i]
        o = os.path.join(build, 'u%d.o' % i)
        cmd = [u.get('cxx', CXX)] + flags_of(u) + ['-c', os.path.join(HERE, u['src']), '-o', o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return i, r.returncode, r.stderr, o
    objs, bad = [None] * len(units), []
    order = sorted(range(len(units)), key=lambda i: -units[i].get('cost', 1))
    with cf.ThreadPoolExecutor(jobs or os.cpu_count() or 8) as ex:
        for i, rc, err, o in ex.map(one, order):
            objs[i] = o
            if rc:
                bad.append((i, err))
    return objs, bad


def build_bins(check, build):
    """A check is one or more binaries; each is the harness main plus its units."""
    out, failures = [], []
    allunits, owner = [], []
    for b, spec in enumerate(check['bins']):
        san = spec.get('san', SAN)
        for u in [dict(src='pbt/main.cpp', cost=0)] + [dict(u) for u in spec['units']]:
            u.setdefault('san', san)
            if 'flags' in spec:
                u['flags'] = list(spec['flags']) + list(u.get('flags', []))
            if 'ndebug' in spec:
                u.setdefault('ndebug', spec['ndebug'])
            if 'cxx' in spec:
                u['cxx'] = spec['cxx']
            allunits.append(u)
            owner.append(b)
    objs, bad = compile_units(allunits, build)
    if bad:
        # once more, one at a time, so that a lack of memory is not taken for an error in the code
        again = [i for i, _ in bad]
        bad = []
        for i in again:
            u = allunits[i]
            r = subprocess.run([u.get('cxx', CXX)] + flags_of(u) + ['-c', os.path.join(HERE, u['src']), '-o', objs[i]],
                               capture_output=True, text=True)
            if r.returncode:
                bad.append((allunits[i], r.stderr))
    if bad:
        return None, bad
    for b, spec in enumerate(check['bins']):
        exe = os.path.join(build, 'bin%d' % b)
        cmd = [spec.get('cxx', CXX)] + list(spec.get('san', SAN)) + [objs[i] for i in range(len(objs)) if owner[i] == b] + ['-o', exe]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return None, [(dict(src='link of ' + spec['name']), r.stderr)]
        out.append(exe)
    return out, []


def known_findings(pid):
    r = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                r.append(l[len('finding: '):])
    except FileNotFoundError:
        pass
    return r


def main():
    pid = sys.argv[1]
    tier, seed, only, cases, replay, keep = None, None, None, None, None, False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--seed': seed = int(a.pop(0))
        elif x == '--only': only = a.pop(0)
        elif x == '--cases': cases = int(a.pop(0))
        elif x == '--replay': replay = a.pop(0)
        elif x == '--keep': keep = True
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        except ValueError:
            seed = 1
    check = dict(CHECKS[pid])
    try:
        cpu = set(next(l for l in open('/proc/cpuinfo') if l.startswith('flags')).split())
    except Exception:
        cpu = set()
    check['bins'] = [b for b in check['bins'] if set(b.get('needs', ())) <= cpu]
    t0 = time.time()
    build = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    outdir = os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rc = 0
    try:
        bins, bad = build_bins(check, build)
        tb = time.time() - t0
        if bins is None:
            # The harness uses only the documented interface of the library: if that does not compile any more, the
            # documented operation cannot be used.
            f = os.path.join(outdir, '%s.build.replay' % pid)
            with open(f, 'w') as o:
                for u, e in bad:
                    o.write('unit %s\n%s\n' % (u, e[:20000]))
            log('the library does not compile as the property uses it:')
            for u, e in bad:
                log('\n'.join([l for l in e.splitlines() if 'error' in l][:4]))
            log('VIOLATION property=%s replay=%s' % (pid, f))
            write_evidence(pid, tier, seed, check, [], time.time() - t0, 1, build_failed=True)
            return 1
        log('%s: built %d binaries from %s in %.1f s' % (pid, len(bins), REPO, tb))
        if replay:
            for b in bins:
                r = subprocess.run([b, '--replay', replay], env=ENV, capture_output=True, text=True)
                log(r.stdout)
                if r.returncode == 1:
                    log('VIOLATION property=%s replay=%s' % (pid, replay))
                    return 1
            return 0
        results = []
        for b, spec in zip(bins, check['bins']):
            n = cases or spec[tier]
            o = os.path.join(build, spec['name'] + '.json')
            rdir = outdir
            cmd = [b, '--property', pid, '--seed', str(seed), '--tier', tier, '--out', o, '--replay-dir', rdir,
                   '--tag', '%s.%s.%d' % (pid, spec['name'], seed), '--cases', str(n),
                   '--wall', str(spec.get('wall', {'quick': 240, 'thorough': 1500})[tier]),
                   '--cpu-limit', str(spec.get('cpu', 20)), '--workers', '8']
            if only:
                cmd += ['--only', only]
            unconfirmed = []
            for attempt in range(3):
                r = subprocess.run(cmd, env=ENV, capture_output=True, text=True)
                if r.stdout.strip():
                    log(r.stdout.strip())
                if r.returncode in (0, 1):
                    break
                log('binary %s ended with %d %s' % (spec['name'], r.returncode, r.stderr[-500:]))
                # A failure that does not replay alone (it needs what earlier cases left behind) counts only if the
                # whole run fails at the same case each of three times.
                unconfirmed += [l for l in r.stdout.splitlines() if l.startswith('UNCONFIRMED')][:1]
            try:
                res = json.load(open(o))
            except Exception:
                res = dict(evaluations=0, distinct_nontrivial=0, nontrivial=0, operations=0, labels={}, samples=[], violation='',
                           failed=False, cut_workers=0, planned=n, wall_s=0)
            res['name'] = spec['name']
            results.append(res)
            log('%s/%s: %d cases, %d operations, %d distinct non-trivial, %.1f s%s' % (
                pid, spec['name'], res['evaluations'], res['operations'], res['distinct_nontrivial'], res['wall_s'],
                '' if not res['cut_workers'] else ', cut by the time limit'))
            if r.returncode == 4 and len(unconfirmed) == 3 and len({' '.join(l.split()[:3]) for l in unconfirmed}) == 1:
                res['violation'] = os.path.join(outdir, '%s.%s.%d.replay' % (pid, spec['name'], seed))
                with open(res['violation'], 'w') as f:
                    f.write('property %s\nrun %s\n%s\n' % (pid, ' '.join(cmd[1:]), unconfirmed[0]))
                r.returncode = 1
            if r.returncode == 1:
                log('VIOLATION property=%s replay=%s' % (pid, res['violation']))
                rc = 1
                break
        for k in known_findings(pid):
            log('KNOWN-FINDING: ' + k)
        write_evidence(pid, tier, seed, check, results, time.time() - t0, rc)
        return rc
    finally:
        if not keep:
            shutil.rmtree(build, ignore_errors=True)
        else:
            log('build kept in', build)


def write_evidence(pid, tier, seed, check, results, wall, nviol, build_failed=False):
    labels = {}
    samples = []
    for r in results:
        for k, v in r['labels'].items():
            labels[r['name'] + '/' + k] = v
        samples += r['samples'][:4]
    ev = dict(
        property=pid, tier=tier, seed=seed, level=check.get('level', 'exploration'),
        coverage=dict(
            evaluations=sum(r['evaluations'] for r in results),
            distinct_nontrivial=sum(r['distinct_nontrivial'] for r in results),
            rule=check['rule'], samples=samples[:12] or ['none: ' + ('the harness did not build' if build_failed else 'a violation ended the run')],
            operations=sum(r['operations'] for r in results),
            nontrivial_cases=sum(r.get('nontrivial', 0) for r in results),
            cases_cut_by_time=sum(r['planned'] - r['evaluations'] for r in results if r['cut_workers']),
            classes=labels),
        assumptions=check.get('assumptions', []), wall_s=round(wall, 2), violations=nviol)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))


if __name__ == '__main__':
    sys.exit(main())
