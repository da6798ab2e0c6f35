#!/usr/bin/env python3
"""Runs one registered check:  check.py <property> [--tier quick|thorough] [--runs N] [--replay FILE] ...

Builds the code under test from /repo's current working tree (both the amalgamation generated by the
project's own Makefile and, where it differs, the one committed in the tree), links it with the simulator in
/verif/sim, searches seeded runs, writes evidence/<property>.json, prints VIOLATION lines.
Exit: 0 held, 1 violation, 2 error of the check."""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
sys.path.insert(0, SIM)
from checks import CHECKS, WRAP_FS, WRAP_ALLOC  # noqa: E402

CODE_FLAGS = ('-std=gnu99 -g -O1 -w -fno-builtin -fno-strict-aliasing -fwrapv -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 '
              '-fsanitize=address -fsanitize-coverage=trace-pc -ftrivial-auto-var-init=pattern -fno-pie -include ' + os.path.join(SIM, 'seam.h')).split()
HARN_FLAGS = '-std=gnu++17 -O1 -g1 -w -fno-pie'.split()


def die(msg):
    print('ERROR:', msg)
    sys.exit(2)


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        die('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def normalised(path):
    """token text of a C file without comments and layout: decides whether two amalgamations are the same code"""
    p = subprocess.run(['gcc', '-fpreprocessed', '-dD', '-E', '-P', '-w', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return hashlib.sha256(re.sub(rb'\s+', b'', p.stdout)).hexdigest()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true', help='check the toolchain: build one check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--cap', type=float, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int)
    ap.add_argument('--keep', action='store_true', help='keep the build directory')
    ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    if a.setup:
        a.prop, a.build_only = 'C01', True
    if a.prop not in CHECKS:
        die('unknown property %s' % a.prop)
    c = CHECKS[a.prop]
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int(hashlib.sha256(a.seed.encode()).hexdigest()[:12], 16)
    t0 = time.time()
    env = {k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MFLAGS', 'CFLAGS', 'LDFLAGS', 'LCOV', 'ASAN_OPTIONS')}
    env['CC'] = 'gcc'
    env['LC_ALL'] = 'C.UTF-8'
    bd = os.path.join(VERIF, 'build', '%s-%d' % (a.prop, os.getpid()))
    src = os.path.join(bd, 'src')
    os.makedirs(src)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rc = 2
    try:
        rc = run(a, c, seed, env, bd, src, t0)
    finally:
        if not a.keep:
            shutil.rmtree(bd, ignore_errors=True)
    sys.exit(rc)


def run(a, c, seed, env, bd, src, t0):
    pool = concurrent.futures.ThreadPoolExecutor(10)
    cmds = []

    def compile_one(cmd, o, srcs):
        cache = os.environ.get('SIM_CACHE')  # objects of the simulator and harness, for repeated runs of tools/mutate.py
        if not cache or not srcs.startswith(SIM):
            return sh(cmd, env=env)
        h = hashlib.sha256(' '.join(cmd).replace(bd, '').encode())
        for d, _, fs in sorted(os.walk(SIM)):
            for f in sorted(fs):
                if f.endswith(('.cpp', '.h')):
                    h.update(open(os.path.join(d, f), 'rb').read())
        k = os.path.join(cache, h.hexdigest()[:24])
        if not os.path.exists(k):
            sh(cmd, env=env)
            shutil.copy(o, k)
        else:
            shutil.copy(k, o)

    def cc(out, srcs, flags, compiler):
        o = os.path.join(bd, out)
        return pool.submit(compile_one, [compiler] + flags + ['-c', '-o', o, srcs], o, srcs), o

    # simulator and harness: no dependency on the generated sources except headers of the tree
    shared = {}
    for m in ['sim', 'alloc'] + c['modules']:
        shared[m] = cc(m + '.o', os.path.join(SIM, m + '.cpp'), HARN_FLAGS, 'g++')
    sh(['rsync', '-a', '--exclude=/.git', '--exclude=/_build', '--exclude=obj', '--exclude=*.out', '--exclude=/cee-utils',
        '--exclude=/cee-one.c', '--exclude=/cee-json/cee-json-one.c', '--exclude=/tmp.c', '--exclude=/cee-json/tmp.c', REPO + '/', src + '/'])
    committed = os.path.join(bd, 'committed')
    os.makedirs(os.path.join(committed, 'cee-json'))
    for d in ('release', 'cee-json/release'):
        if os.path.isdir(os.path.join(src, d)):
            shutil.move(os.path.join(src, d), os.path.join(committed, d))
    for h in ('cee.h', 'cee-json/cee-json.h'):
        shutil.copy(os.path.join(src, h), os.path.join(committed, h))
    os.makedirs(os.path.join(src, 'cee-utils'), exist_ok=True)
    sh(['make', '-C', src, '-j8', 'release'], env=env)
    # headers used by the harness come from the tree under test
    incs = ['-I' + SIM, '-I' + src, '-I' + src + '/cee-json', '-I' + src + '/sqlite3']
    harn = cc('harness.o', os.path.join(SIM, c['src']), HARN_FLAGS + incs + ['-DPROP_' + a.prop] + c.get('defs', []), 'g++')
    variants = {'gen': src}
    if c.get('variants', True) and not os.environ.get('SIM_GEN_ONLY'):
        pair = [('release/cee.c'), ('cee-json/release/cee-json.c')] if c['json'] else [('release/cee.c')]
        if any(normalised(os.path.join(src, f)) != normalised(os.path.join(committed, f)) for f in pair):
            variants['committed'] = committed
    objs = {}
    if c.get('statics'):  # memory accesses report to the simulator (no ThreadSanitizer runtime is linked)
        variants['statics'] = src
    for v, r in variants.items():
        fl = [f.replace('=address', '=thread').replace('-O1', '-O0') for f in CODE_FLAGS] if v == 'statics' else CODE_FLAGS
        l = [cc(v + '-cee.o', r + '/release/cee.c', fl + ['-I' + r + '/release', '-I' + r], 'gcc')]
        if c['json']:
            l.append(cc(v + '-json.o', r + '/cee-json/release/cee-json.c', fl + ['-I' + r + '/cee-json', '-I' + r], 'gcc'))
        objs[v] = l
    for f in c.get('extra_code', []):
        fl = CODE_FLAGS + ['-I' + src, '-I' + src + '/cee-json', '-I' + src + '/sqlite3', '-I' + SIM + '/stubs'] + c.get('extra_flags', [])
        objs['gen'].append(cc(os.path.basename(f) + '.o', os.path.join(src, f), fl, 'gcc'))
    wraps = WRAP_ALLOC + (WRAP_FS if 'fs' in c['modules'] else [])
    bins = {}
    for f, _ in list(shared.values()) + [harn] + [x for l in objs.values() for x in l]:
        f.result()
    links = []
    for v in variants:
        b = os.path.join(bd, 'run-' + v)
        cmd = ['g++', '-fsanitize=address', '-no-pie', '-rdynamic', '-o', b, harn[1]] + [o for _, o in shared.values()] + [o for _, o in objs[v]] + \
              ['-Wl,' + ','.join('--wrap=' + w for w in wraps)] + c.get('libs', [])
        links.append(pool.submit(sh, cmd))
        bins[v] = b
    for l in links:
        l.result()
    t_build = time.time() - t0
    if a.build_only:
        print('built', bd)
        return 0
    if a.replay:
        m = re.search(r'^variant (\S+)', open(a.replay).read(), re.M)
        v = m.group(1) if m and m.group(1) in bins else 'gen'
        p = subprocess.run([bins[v], '--replay', os.path.abspath(a.replay)], env=env)
        return 1 if p.returncode in (1, 11) else p.returncode
    if a.one is not None:
        return subprocess.run([bins['gen'], '--seed', str(seed), '--one', str(a.one)], env=env).returncode
    stats, viol, out = [], None, []
    rc = 0
    for v, b in bins.items():
        sf = os.path.join(bd, 'stats-%s.json' % v)
        cap = a.cap or (c.get('cap_thorough', 3000.0) if a.tier == 'thorough' else 240.0)
        cmd = [b, '--seed', str(seed), '--tier', a.tier, '--stats', sf, '--replay-dir', os.path.join(VERIF, 'replays'), '--variant', v, '--cap', str(cap),
               '--workers', str(min(8, os.cpu_count() or 1))]
        if a.runs:
            cmd += ['--runs', str(a.runs)]
        known = [k[1] for k in known_findings() if k[0] == a.prop]
        if known:
            cmd += ['--known', ','.join(known)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env)
        sys.stdout.write(p.stdout)
        sys.stdout.flush()
        if os.path.exists(sf):
            stats.append(json.load(open(sf)))
        if p.returncode == 1:
            rc = 1
            break
        if p.returncode != 0:
            rc = 2
            if not os.path.exists(sf):
                print('ERROR: simulator ended with status %d' % p.returncode)
            break
    if stats:
        evidence(a, c, seed, stats, t_build, time.time() - t0, rc)
    for k in known_findings():
        if k[0] == a.prop:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k[2]))
    return rc


def known_findings():
    """lines 'known: property=<id> class=<violation class> <text>' of known-findings.txt"""
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) (.*)', l.strip())
            if m:
                r.append((m.group(1), m.group(2), m.group(3)))
    return r


def evidence(a, c, seed, stats, t_build, wall, rc):
    def tot(k):
        return sum(s[k] for s in stats)
    counters = {}
    for s in stats:
        for k, n in s['counters'].items():
            counters[k] = counters.get(k, 0) + n
    search = tot('wall_search_s') or 1e-9
    cov = {
        'evaluations': tot('runs'),
        'distinct_nontrivial': min(tot('nontrivial'), tot('distinct_histories')),
        'rule': stats[0]['rule'],
        'samples': stats[0]['samples'][:3],
        'simulated_runs_per_hour': int(tot('runs') / search * 3600),
        'seeds_per_hour': int(tot('runs') / search * 3600),
        'runs_with_nontrivial_workload': tot('nontrivial'),
        'runs_discarded': tot('discarded'),
        'simulated_time_s': tot('simulated_usec') / 1e6,
        'events_in_histories': tot('events'),
        'basic_blocks_executed_in_code_under_test': tot('basic_blocks_executed'),
        'basic_blocks_reached_in_code_under_test': max(s['basic_blocks_reached'] for s in stats),
        'distinct_histories': tot('distinct_histories'),
        'distinct_coverage_signatures': tot('distinct_coverage_signatures'),
        'distinct_model_states': tot('distinct_model_states'),
        'faults_and_probes_fired': {k: counters[k] for k in sorted(counters)},
        'runs_repeated_for_determinism': tot('rechecked_runs'),
        'determinism_mismatches': tot('recheck_mismatches'),
        'variants_of_the_code': [s['variant'] for s in stats],
        'components_running_real_code': stats[0]['real_components'],
        'components_stubbed': stats[0]['stub_components'],
        'build_s': round(t_build, 2),
    }
    e = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': c['level'], 'coverage': cov, 'assumptions': c.get('assumptions', []),
         'wall_s': round(wall, 3), 'violations': sum(1 for s in stats if 'violation' in s)}
    for s in stats:
        if 'violation' in s:
            cov['violation'] = s['violation']
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
