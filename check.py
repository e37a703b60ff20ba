#!/usr/bin/env python3
"""Driver of the checks:  check.py <PROPERTY> [--tier quick|thorough]

Builds the harness of a property together with the sources of /repo's working
tree it exercises (out of tree), runs the exhaustive exploration in parallel
shards, confirms a reported violation by replaying its trace, and writes
/verif/evidence/<PROPERTY>.json.

Exit: 0 held; 1 violated (a VIOLATION line is printed); 2 no answer.
"""
import argparse, glob, hashlib, json, os, re, shutil, struct, subprocess, sys
import tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
from registry import CHECKS  # noqa: E402

NCPU = os.cpu_count() or 4
CONFIGS = {
    # the project's debug build (assertions on), with sanitizers
    'dbg': ['-O1', '-g1', '-DDEBUG', '-fsanitize=address,undefined',
            '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute',
            '-fno-omit-frame-pointer'],
    # release semantics (assertions off), with the address sanitizer
    'rel': ['-O1', '-g1', '-DNDEBUG', '-fsanitize=address,undefined',
            '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute',
            '-fno-omit-frame-pointer'],
    # as the debug build, with the option for sparse admittance matrices
    'sparse': ['-O1', '-g1', '-DDEBUG', '-DSPARSE_ADMITTANCE_MATRIX',
               '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
               '-fno-sanitize=nonnull-attribute', '-fno-omit-frame-pointer'],
    # optimised, for numerically heavy explorations
    'fast': ['-O2', '-g1', '-DNDEBUG'],
}
BASE = ['-std=c++17', '-w', '-I', VERIF + '/shim', '-I', REPO + '/include',
        '-I', REPO + '/src', '-I', VERIF + '/harness']


class NoAnswer(Exception):
    pass


def compile_one(src, flags, outdir, cache):
    obj = os.path.join(outdir, re.sub(r'[^A-Za-z0-9]', '_', src) + '.o')
    key = None
    if cache:
        e = subprocess.run(['g++', *BASE, *flags, '-E', '-P', src],
                           capture_output=True)
        if e.returncode == 0:
            key = hashlib.sha256(' '.join(flags).encode() + src.encode()
                                 + e.stdout).hexdigest()
            hit = os.path.join(cache, key + '.o')
            if os.path.exists(hit):
                return hit
    r = subprocess.run(['g++', *BASE, *flags, '-c', src, '-o', obj],
                       capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer('failed to compile %s\n%s' % (src, r.stderr[:4000]))
    if key:
        tmp = os.path.join(cache, '%s.%d' % (key, os.getpid()))
        shutil.copy(obj, tmp)
        os.replace(tmp, os.path.join(cache, key + '.o'))
    return obj


def build(spec, cfg, outdir):
    flags = CONFIGS[cfg] + spec.get('flags', [])
    srcs = [os.path.join(VERIF, 'harness', h) for h in spec['harness']]
    nmain = len(srcs)
    excluded = []
    for pat in spec.get('lib', []):
        hit = sorted(glob.glob(os.path.join(REPO, 'src/lib', pat.lstrip('!'))))
        if pat.startswith('!'):
            srcs = [s for s in srcs if s not in hit]
            excluded += hit
            continue
        # a source that was moved is found below, when it is missed
        srcs += hit
    cache = os.path.join(VERIF, 'build', 'cache')
    os.makedirs(cache, exist_ok=True)
    objdir = os.path.join(outdir, 'obj-' + cfg)
    os.makedirs(objdir)
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags, objdir, cache),
                           srcs))
    exe = os.path.join(outdir, 'harness-' + cfg)
    lib = []
    if len(objs) > nmain:
        lib = [os.path.join(objdir, 'lib.a')]
        r = subprocess.run(['ar', 'rcs', *lib, *objs[nmain:]],
                           capture_output=True, text=True)
        if r.returncode:
            raise NoAnswer('failed to archive\n' + r.stderr[:4000])
    r = subprocess.run(['g++', *flags, *objs[:nmain], *lib,
                        *spec.get('link', []), '-o', exe],
                       capture_output=True, text=True)
    if r.returncode and spec.get('lib') and 'undefined reference' in r.stderr:
        # code may have moved to another source: offer all of the library
        rest = [s for s in sorted(glob.glob(os.path.join(
            REPO, 'src/lib', '**', '*.cpp'), recursive=True))
            if s not in srcs and s not in excluded]

        def attempt(s):
            try:
                return compile_one(s, flags, objdir, cache)
            except NoAnswer:
                return None
        with ThreadPoolExecutor(NCPU) as ex:
            more = [o for o in ex.map(attempt, rest) if o]
        alib = os.path.join(objdir, 'rest.a')
        subprocess.run(['ar', 'rcs', alib, *more], capture_output=True)
        r = subprocess.run(['g++', *flags, *objs[:nmain], *lib, alib, *lib,
                            *spec.get('link', []), '-o', exe],
                           capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer('failed to link\n' + r.stderr[:4000])
    return exe


def env_for(log):
    env = dict(os.environ)
    # fresh memory is filled with 0xff, i.e. with NaNs, so that an element
    # that was never written cannot pass for a number
    san = ('detect_leaks=0:max_malloc_fill_size=268435456:malloc_fill_byte=255:'
           'detect_stack_use_after_return=1:allocator_may_return_null=0:'
           'log_path=' + log)
    env['ASAN_OPTIONS'] = san
    env['VERIF_DIR'], env['VERIF_REPO'] = VERIF, REPO
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:log_path=' + log
    return env


def sanitizer_log(log):
    txt = ''
    for f in sorted(glob.glob(log + '.*')):
        with open(f, errors='replace') as fh:
            txt += fh.read()
    return txt


def replay(exe, rfile, work, tier, timeout, known=()):
    log = os.path.join(work, 'san-replay-%d' % time.time_ns())
    tmp = tempfile.mkdtemp(dir=work)
    env = env_for(log)
    cmd = [exe, '--tier', tier, '--tmp', tmp]
    m = re.search(r'^shard (\S+)', open(rfile).read(), re.M)
    if m:
        cmd += ['--shard', m.group(1), '--hang', '60', '--out', log + '.json']
        for k in known:
            cmd += ['--known', k]
    else:
        env['MC_VERBOSE'] = '1'
        cmd += ['--replay', rfile, '--hang', '20']
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp,
                           errors='replace', env=env, timeout=timeout)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = 97, (e.stdout or b'').decode(errors='replace') if \
            isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
    if m and os.path.exists(log + '.json'):
        v = json.load(open(log + '.json'))['violation']
        os.unlink(log + '.json')
        rc = 1 if v else 0
        out += str(v) + '\n'
    return rc, out, err + sanitizer_log(log)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay', help='replay a trace file and show it')
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    spec = CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    known = {}
    kf = os.path.join(VERIF, 'known_findings.txt')
    for line in open(kf):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
        if m and m.group(1) == pid:
            known[m.group(2)] = m.group(3).strip()

    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        configs = spec.get('configs', ['dbg', 'rel'])
        if tier == 'thorough':
            configs = spec.get('configs_thorough', configs)
        if a.replay:
            m = re.search(r'^config (\S+)', open(a.replay).read(), re.M)
            cfg = m.group(1) if m else configs[0]
            exe = build(spec, cfg, work)
            rc, out, err = replay(exe, a.replay, work, tier, 900, known)
            print(out)
            print(err)
            return 1 if rc else 0
        with ThreadPoolExecutor(2) as ex:
            exes = dict(zip(configs, ex.map(lambda c: build(spec, c, work),
                                            configs)))
        scen_names = None
        tot = dict(traces=0, transitions=0, comparisons=0, pruned=0)
        states = set()
        states_n = 0
        samples, per, known_hits = [], {}, {}
        violation = None
        budget = spec.get('budget', {}).get(
            tier, 780 if tier == 'quick' else 7200)
        for cfg in configs:
            exe = exes[cfg]
            nsh = spec.get('shards', NCPU)
            procs = []
            for s in range(nsh):
                tag = os.path.join(work, '%s-%d' % (cfg, s))
                tmp = tag + '-tmp'
                os.makedirs(tmp)
                cmd = [exe, '--tier', tier, '--out', tag + '.json', '--shared',
                       tag + '.sh', '--states', tag + '.st', '--tmp', tmp,
                       '--shard', '%d/%d' % (s, nsh),
                       '--hang', str(spec.get('hang', 60))]
                for k in known:
                    cmd += ['--known', k]
                procs.append((subprocess.Popen(
                    cmd, env=env_for(tag + '.san'), cwd=tmp,
                    stdout=open(tag + '.out', 'w'),
                    stderr=subprocess.STDOUT), tag))
            deadline = t0 + budget
            for p, tag in procs:
                try:
                    p.wait(timeout=max(1, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    for q, _ in procs:
                        q.kill()
                    raise NoAnswer('time budget of %d s exhausted' % budget)
            cfg_states = set()
            for p, tag in procs:
                v = None
                if os.path.exists(tag + '.json'):
                    d = json.load(open(tag + '.json'))
                    for k in tot:
                        tot[k] += d[k]
                    for sc in d['scenarios']:
                        key = cfg + '/' + sc['name']
                        per[key] = per.get(key, 0) + sc['traces']
                    if len(samples) < 12:
                        samples += [cfg + '/' + x for x in d['samples'][:2]]
                    for k, (n, msg) in d['known'].items():
                        known_hits.setdefault(k, [0, msg])[0] += n
                    v = d['violation']
                    if v:
                        v['kind'] = 'wrong result'
                elif p.returncode in (96, 98):
                    raise NoAnswer('harness error %d: %s' % (
                        p.returncode, open(tag + '.out').read()[-2000:]))
                else:
                    raw = open(tag + '.sh', 'rb').read()
                    _, sidx, n = struct.unpack_from('<Qii', raw)
                    n = min(n, 1000)
                    ch = list(struct.unpack_from('<%di' % n, raw, 16))
                    kind = {97: 'hang'}.get(p.returncode, 'crash or sanitizer '
                                            'report (exit %d)' % p.returncode)
                    v = dict(scenario_index=sidx, key='crash', choices=ch,
                             msg=kind, kind=kind)
                    if p.returncode == -9:
                        raise NoAnswer('harness killed (out of memory?)')
                if os.path.exists(tag + '.st'):
                    raw = open(tag + '.st', 'rb').read()
                    cfg_states.update(struct.unpack('<%dQ' % (len(raw) // 8),
                                                    raw))
                if v and not violation:
                    v['config'] = cfg
                    v['shard'] = tag.rsplit('-', 1)[1]
                    violation = v
            states |= cfg_states
            if violation:
                break

        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rfile = os.path.join(rdir, pid + '.txt')
        if violation:
            v = violation
            exe = exes[v['config']]
            if 'scenario' not in v:
                # the name of scenario number k is known to the harness only
                r = subprocess.run([exe, '--list'], capture_output=True,
                                   text=True)
                names = r.stdout.splitlines()
                v['scenario'] = names[v['scenario_index']]
            # the trace alone; if it takes an earlier one in the same process
            # (state kept where there should be none), with those before it;
            # in the end, all that this process did
            before = v.pop('before', [])
            sizes = [0] + [n for n in (1, 2, 4, 8, 16, 32, 64)
                           if n < 2 * len(before)] + [None]
            for n in sizes:
                hist = before[-n:] if n else []
                with open(rfile, 'w') as f:
                    f.write('property %s\nconfig %s\nscenario %s\n' % (
                        pid, v['config'], v['scenario']))
                    if n is None:
                        f.write('shard %s/%d\n' % (v['shard'],
                                                   spec.get('shards', NCPU)))
                    for ch in hist + [v['choices']]:
                        f.write('choices %s\n' % ' '.join(map(str, ch)))
                    f.write('key %s\nmessage %s\n' % (
                        v['key'], v['msg'].replace('\n', ' ')))
                rc, out, err = replay(exe, rfile, work, tier,
                                      300 if n is not None else 900, known)
                if rc not in (0, 96, 98):
                    break
            else:
                raise NoAnswer('violation did not replay: %s\n%s\n%s' %
                               (v, out[-3000:], err[-3000:]))
            if n is None or hist:
                v['kind'] += (', after %d other traces' % len(hist)
                              if hist else ', after the traces before it')
            with open(rfile, 'a') as f:
                f.write('--- replay (exit %d), "python3 check.py %s --replay '
                        'FILE" repeats it\n%s\n%s\n' % (
                            rc, pid, out[-20000:], err[-8000:]))
        wall = time.time() - t0
        level = spec.get('level', 'model_checking')
        cov = dict(
            states=len(states), transitions=tot['transitions'],
            traces_validated_against_impl=tot['traces'],
            comparisons=tot['comparisons'], pruned=tot['pruned'],
            samples=samples[:12], exhaustive=not violation,
            traces_per_scenario=per, bounds=spec['bounds'].get(
                tier, spec['bounds'].get('quick'))
            if isinstance(spec['bounds'], dict) else spec['bounds'],
            configurations=configs)
        if known_hits:
            cov['known_findings_seen'] = {k: n for k, (n, _) in
                                          known_hits.items()}
        ev = dict(property=pid, tier=tier, seed=seed, level=level,
                  coverage=cov, assumptions=spec.get('assumptions', []),
                  wall_s=round(wall, 2), violations=1 if violation else 0)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k, (n, msg) in sorted(known_hits.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]))
        if violation:
            print('%s: %s in scenario %s [%s]: %s' % (
                pid, violation['kind'], violation['scenario'],
                violation['config'], violation['msg']))
            print('VIOLATION property=%s replay=%s' % (pid, rfile))
            return 1
        if tot['traces'] == 0 or tot['comparisons'] == 0:
            raise NoAnswer('nothing was explored')
        print('%s: held on %d traces, %d transitions, %d states, %d '
              'comparisons (%s, %.1f s)' % (
                  pid, tot['traces'], tot['transitions'], len(states),
                  tot['comparisons'], tier, wall))
        return 0
    except NoAnswer as e:
        print('%s: no answer: %s' % (pid, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
