#!/usr/bin/env python3
"""Driver of the runtime monitors.

  check.py PXX quick|thorough     builds the monitors of a property from /repo's
                                  working tree, runs them, judges, writes evidence
  check.py replay FILE            re-runs the case recorded in a replay file

Exit 0: held on everything executed.  Exit 1 + VIOLATION line: broken.
Any other exit: the check could not give an answer.
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(HERE, 'src')
GUARD_INC = '/opt/vp/boost-root/vp-guard'
JOBS = 8
sys.path.insert(0, HERE)
from specs import SPECS, TITLES  # noqa: E402


def includes():
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + SRC]
    return inc + boost_root()


def boost_root():
    # the other boost headers: what the build of the repository itself uses
    out = []
    for d in (GUARD_INC,):
        if os.path.isdir(d):
            out += ['-isystem', d]
    return out


def compile_cmd(b, exe):
    cxx = b.get('cxx', 'g++')
    cmd = [cxx, '-std=' + b.get('std', 'c++17')] + b.get('flags', '-O2').split()
    if b.get('rounding_math', True):
        cmd += ['-frounding-math']
    cmd += ['-w', '-g1'] if b.get('san') else ['-w']
    cmd += ['-D' + d for d in b.get('defs', [])]
    cmd += includes() + [os.path.join(SRC, s) for s in b['src'].split()] + ['-o', exe]
    cmd += b.get('libs', '-lmpfr -lgmp').split()
    return cmd


def run(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                         env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return p.returncode, o, e, True


SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=1:handle_abort=0:handle_segv=0:allow_user_segv_handler=1:detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98',
    'MSAN_OPTIONS': 'exitcode=97',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=96:second_deadlock_stack=1',
}
SAN_EXITS = {99: 'asan', 98: 'ubsan', 97: 'msan', 96: 'tsan'}


def parse(out):
    recs = []
    for line in out.splitlines():
        if line.startswith('{"t":'):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    return recs


def san_key(err):
    """name of a sanitizer report: kind and the first frame in the library"""
    kind, frame = 'report', ''
    for l in err.splitlines():
        if 'runtime error:' in l:
            kind = l.split('runtime error:')[1].strip()
            loc = l.split(':')[0]
            kind = os.path.basename(loc) + ' ' + kind
            break
        if 'ERROR: ' in l or 'WARNING: ' in l:
            kind = l.split('Sanitizer:')[-1].strip().split(' on address')[0].split(' (pid')[0]
            break
    for l in err.splitlines():
        if '/boost/numeric/interval' in l and ' in ' in l:
            frame = os.path.basename(l.split()[-1]).split(':')[0]
            break
    return (kind + ' ' + frame).strip()[:160]


def load_known(prop):
    known = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=' + prop + ' '):
                # known: property=PXX key=<key> <text>
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                known.append((key.replace('key=', '', 1).strip(), text.strip()))
    return known


def main():
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = SPECS[prop]
    builds = [b for b in spec['builds'] if tier == 'thorough' or not b.get('thorough_only')]
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(HERE, 'build'))
    try:
        return check(prop, tier, seed, t0, spec, builds, bdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def check(prop, tier, seed, t0, spec, builds, bdir):
    env = dict(os.environ)
    env.update(SAN_ENV)
    env['TMPDIR'] = bdir
    limit = 800 if tier == 'thorough' else 600
    deadline = t0 + limit
    viols, errors, notes = [], [], []   # viols: (key, message, replay dict)
    counters, samples = {}, []
    evals = nontriv_events = 0
    maps = []

    # ---- build
    def do_build(i):
        b = builds[i]
        exe = os.path.join(bdir, 'h%d' % i)
        rc, o, e, to = run(compile_cmd(b, exe), 400, env)
        return rc, e, to

    pool = ThreadPoolExecutor(JOBS)
    futs = [pool.submit(do_build, i) for i in range(len(builds))]
    built = []
    for i, f in enumerate(futs):
        rc, e, to = f.result()
        if rc != 0:
            first = next((l for l in e.splitlines() if 'error' in l), e[-300:])
            if builds[i].get('must_compile', True) and not to and smoke(bdir, env):
                viols.append(('compile/' + builds[i]['src'], 'valid client code no longer compiles: ' + first[:400],
                              {'build': builds[i], 'compile': True}))
            else:
                errors.append('cannot build %s: %s' % (builds[i]['src'], first[:600]))
        else:
            built.append(i)

    # ---- run
    tasks = []
    for i in built:
        b = builds[i]
        nsh = b.get('shards', 8)
        for s in range(nsh):
            args = ['--seed', str(seed * 64 + i), '--shard', str(s), str(nsh)]
            if tier == 'thorough':
                args.append('--thorough')
            sc = b.get('tscale', 1) if tier == 'thorough' else round(b.get('scale', 1) * spec.get('mult', 1), 3)
            if sc != 1:
                args += ['--scale', str(sc)]
            args += b.get('args', '').split()
            tasks.append((i, s, args))

    def do_run(t):
        i, s, args = t
        b = builds[i]
        exe = os.path.join(bdir, 'h%d' % i)
        bm = os.path.join(bdir, 'b%d.%d' % (i, s))
        left = deadline - time.time()
        if left < 5:
            return t, None, '', '', True
        e2 = dict(env)
        e2.update(b.get('env', {}))
        rc, o, e, to = run([exe] + args + ['--bitmap', bm], left, e2)
        return t, rc, o, e, to

    order = sorted(tasks, key=lambda t: -builds[t[0]].get('cost', 1))
    results = list(pool.map(do_run, order))
    per_build = {}
    for (i, s, args), rc, o, e, to in results:
        b = builds[i]
        exe = os.path.join(bdir, 'h%d' % i)
        recs = parse(o)
        done = False
        for r in recs:
            if r['t'] == 'viol':
                viols.append((r['key'], r['msg'], {'build': b, 'args': args, 'group': r['group'], 'idx': r['idx']}))
            elif r['t'] == 'stats':
                done = True
                evals += r['evals']
                nontriv_events += r['nontriv']
                per_build[i] = per_build.get(i, 0) + r['evals']
                for k, v in r['counters'].items():
                    counters[k] = counters.get(k, 0) + v
                samples += r['samples'][:3]
                maps.append(os.path.join(bdir, 'b%d.%d' % (i, s)))
            elif r['t'] == 'crash':
                done = True
                viols.append(('crash/%s/%s' % (r['group'], r['op']),
                              'the program was killed by signal %s in %s, group %s case %s: %s' %
                              (r['sig'], r['op'], r['group'], r['idx'], tail(e)),
                              {'build': b, 'args': args, 'group': r['group'], 'idx': r['idx']}))
            elif r['t'] == 'hang':
                done = True
                # re-run that one case before calling it a hang
                rc2, o2, e2, to2 = run([exe] + args + ['--group', r['group'], '--index', str(r['idx'])], 120, env)
                if rc2 == 78 or any(x['t'] == 'hang' for x in parse(o2)):
                    viols.append(('hang/%s/%s' % (r['group'], r['op']),
                                  'does not return: %s, group %s case %s' % (r['op'], r['group'], r['idx']),
                                  {'build': b, 'args': args, 'group': r['group'], 'idx': r['idx']}))
                else:
                    errors.append('hang not confirmed: %s' % r)
        if rc in SAN_EXITS:
            done = True
            viols.append((SAN_EXITS[rc] + '/' + san_key(e), 'sanitizer report: ' + head(e),
                          {'build': b, 'args': args}))
        elif to:
            errors.append('%s ran out of time (inconclusive)' % b['src'])
        elif not done:
            errors.append('%s ended with %s without a result: %s' % (b['src'], rc, tail(e)))
    distinct = popcount(maps)
    for b_i in built:
        if per_build.get(b_i, 0) == 0 and not viols and not errors:
            errors.append('%s observed nothing' % builds[b_i]['src'])
    for name, least in spec.get('minimum', {}).items():
        if counters.get(name, 0) < least and not viols and not errors:
            errors.append('coverage goal not reached: %s = %d < %d' % (name, counters.get(name, 0), least))

    # ---- verdict
    known = load_known(prop)
    fresh, hit = {}, {}
    for key, msg, rep in viols:
        k = next((t for t in known if key_match(t[0], key, msg)), None)
        if k:
            hit[k] = hit.get(k, 0) + 1
        elif key not in fresh:
            fresh[key] = (msg, rep)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': distinct, 'rule': spec['rule'],
            'samples': samples[:12] or ['none'],
            'nontrivial_events': nontriv_events,
            'distinct_counted_with': 'a bitmap of 2^24 hash buckets merged over all shards (an undercount)',
            'observed': counters,
            'builds': [{'source': builds[i]['src'], 'compiler': builds[i].get('cxx', 'g++'),
                        'flags': builds[i].get('flags', '-O2'), 'defines': builds[i].get('defs', []),
                        'evaluations': per_build.get(i, 0)} for i in built],
        },
        'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    if errors:
        ev['coverage']['errors'] = errors[:20]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in known:
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (prop, k[1], hit.get(k, 0)))
    if fresh:
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for n, (key, (msg, rep)) in enumerate(sorted(fresh.items())):
            if n >= 20:
                print('... and %d more kinds' % (len(fresh) - n))
                break
            path = os.path.join(rdir, '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'key': key, 'message': msg, 'seed': seed, **rep}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s] %s' % (key, msg))
        for e in errors[:5]:
            print('note:', e)
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR:', e)
        return 3
    print('%s held: %d evaluations, %d distinct non-trivial cases, %.1f s' % (prop, evals, distinct, time.time() - t0))
    return 0


def key_match(pat, key, msg):
    if ' @ ' in pat:
        k, m = pat.split(' @ ', 1)
        return k == key and m in msg
    return pat == key


def head(e):
    ls = [l for l in e.splitlines() if l.strip()]
    return ' | '.join(ls[:14])[:1500]


def tail(e):
    return ' | '.join(e.strip().splitlines()[-5:])[:800]


def smoke(bdir, env):
    f = os.path.join(bdir, 'smoke.cpp')
    with open(f, 'w') as g:
        g.write('#include <boost/numeric/interval.hpp>\nint main(){boost::numeric::interval<double> x(1,2);x=x+x*x;return x.lower()>3;}\n')
    rc, o, e, to = run(['g++', '-w'] + includes() + [f, '-o', f[:-4]], 100, env)
    return rc == 0


def popcount(maps):
    acc = 0
    for m in maps:
        try:
            acc |= int.from_bytes(open(m, 'rb').read(), 'little')
        except OSError:
            pass
    return bin(acc).count('1')


def replay(path):
    r = json.load(open(path))
    bdir = tempfile.mkdtemp(prefix='replay-', dir=os.path.join(HERE, 'build') if os.path.isdir(os.path.join(HERE, 'build')) else None)
    try:
        env = dict(os.environ); env.update(SAN_ENV); env.update(r['build'].get('env', {}))
        exe = os.path.join(bdir, 'h')
        rc, o, e, to = run(compile_cmd(r['build'], exe), 400, env)
        if rc:
            print(e[-3000:])
            return 1 if r.get('compile') else 3
        args = r['args']
        if 'group' in r:
            args = args + ['--group', r['group'], '--index', str(r['idx'])]
        rc, o, e, to = run([exe] + args, 600, env)
        print(o); print(e[-5000:])
        return 1 if rc or '"t":"viol"' in o else 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
