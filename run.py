#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.
usage: run.py <property> [--tier quick|thorough] [--replay FILE] [--build-only] [extra args]"""
import hashlib, os, subprocess, sys, time, json, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
from checks.table import CHECKS, META

BASE = ['g++', '-std=c++17', '-O1', '-g1', '-DNDEBUG', '-march=x86-64-v3', '-mtune=generic', '-w', '-fno-omit-frame-pointer']
ASAN = ['-fsanitize=address', '-fno-sanitize-recover=all']

def tree_hash(paths, extra):
    h = hashlib.sha256()
    for root in paths:
        files = []
        if os.path.isfile(root): files = [root]
        else:
            for d, dn, fn in os.walk(root):
                dn.sort()
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]

def has_v4():
    try: fl = open('/proc/cpuinfo').read().split('flags', 1)[1].split('\n', 1)[0].split()
    except Exception: return False
    return all(x in fl for x in ('avx512f', 'avx512bw', 'avx512vl', 'avx512dq', 'avx512cd'))

def build(prop):
    c = dict(CHECKS[prop])
    if not has_v4():
        n = len(c['units'])
        c['units'] = [u for u in c['units'] if '-march=x86-64-v4' not in u[1]]
        if len(c['units']) != n: sys.stderr.write('note: no AVX-512 here, %d variants are left out\n' % (n - len(c['units'])))
    asan = c.get('asan', True)
    base = BASE + (ASAN if asan else []) + c.get('flags', []) + ['-I' + os.path.join(HERE, 'mc'), '-I' + os.path.join(REPO, 'src')]
    key = tree_hash([os.path.join(REPO, 'src/jstd'), os.path.join(HERE, 'mc'), os.path.join(HERE, 'checks')], (base, c, META[prop]))
    out = os.path.join(HERE, 'build', prop)
    binp = os.path.join(out, 'check')
    stamp = os.path.join(out, 'stamp')
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == key: return binp, 0.0
    os.makedirs(out, exist_ok=True)
    t0 = time.time()
    info = os.path.join(out, 'info.cpp')
    q = lambda s: '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
    m = META[prop]
    open(info, 'w').write('#include "core.h"\nmc::CheckInfo mc::check_info = { %s, %s, %s, { %s } };\n' % (
        q(prop), q(m['level']), q(m['rule']), ', '.join(q(x) for x in m.get('assumptions', []))))
    units = [(os.path.join(HERE, 'mc/core.cpp'), [], 'core.o'), (info, [], 'info.o')]
    for n, (src, fl) in enumerate(c['units']):
        units.append((os.path.join(HERE, 'checks', src) if not src.startswith('/') else src, fl, 'u%d.o' % n))
    def comp(u):
        src, fl, o = u
        if src.startswith('REPO:'): src = os.path.join(REPO, src[5:])
        p = subprocess.run(base + fl + ['-c', src, '-o', os.path.join(out, o)], capture_output=True, text=True)
        if p.returncode and c.get('fallback'):
            # internal names may be gone after a refactoring: examine what is public
            sys.stderr.write('note: %s %s did not compile with internal helpers, without them:\n%s\n' % (src, fl, p.stderr[:600]))
            p = subprocess.run(base + fl + ['-DMC_FALLBACK', '-c', src, '-o', os.path.join(out, o)], capture_output=True, text=True)
        return u, p
    with cf.ThreadPoolExecutor(8) as ex:
        for u, p in ex.map(comp, units):
            if p.returncode:
                sys.stderr.write('BUILD FAILED: %s %s\n%s\n' % (u[0], u[1], p.stderr[:6000]))
                sys.exit(2)
    p = subprocess.run(base + [os.path.join(out, u[2]) for u in units] + ['-Wl,-z,muldefs', '-o', binp] + c.get('libs', []), capture_output=True, text=True)
    if p.returncode:
        sys.stderr.write('LINK FAILED\n' + p.stderr[:6000]); sys.exit(2)
    open(stamp, 'w').write(key)
    return binp, time.time() - t0

def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    binp, bt = build(prop)
    if '--build-only' in a: print('built in %.1f s' % bt); return 0
    outd = os.path.join(HERE, 'build', prop)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=86:quarantine_size_mb=16:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=6:allocator_release_to_os_interval_ms=-1')
    cmd = [binp]
    if '--replay' in a: cmd += a
    else:
        c = CHECKS[prop]
        lim = c.get('limit', {}).get(tier, 240 if tier == 'quick' else 3600)
        cmd += ['--tier', tier, '--out', outd, '--evidence', os.path.join(HERE, 'evidence', prop + '.json'), '--limit', str(lim)] + a
    p = subprocess.run(cmd, env=env)
    print('%s: built in %.1f s' % (prop, bt))
    return p.returncode

if __name__ == '__main__':
    sys.exit(main())
