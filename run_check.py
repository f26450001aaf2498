#!/usr/bin/env python3
"""Builds and runs the check of one property.

    run_check.py P02 [--tier quick|thorough] [--seed N]      the check itself
    run_check.py P02 --replay FILE                           re-run a recorded failure
    run_check.py --build-only                                build everything (setup)
"""
import argparse, array, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SRC = os.path.join(VERIF, 'src')
CXX = 'clang++'
JOBS = max(2, os.cpu_count() or 8)
COMMON = ['-std=c++17', '-g1', '-O1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-DBOOST_ALL_NO_LIB',
          '-w', '-I' + REPO + '/include', '-I' + REPO + '/src', '-no-pie', '-fno-pie', '-ftrivial-auto-var-init=pattern']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function']
COV = ['-fsanitize-coverage=inline-8bit-counters,trace-cmp', '-fsanitize-coverage-allowlist=' + BUILD + '/allow.txt']
LIB = ['cmdline', 'config_file', 'convert', 'options_description', 'parsers', 'positional_options', 'split',
       'utf8_codecvt_facet', 'value_semantic', 'variables_map', 'winmain']
SUPPORT = ['engine', 'podef', 'model', 'gen', 'common']
PROPS = ['P%02d' % i for i in range(1, 60) if os.path.exists('%s/p%02d.cpp' % (SRC, i))]
UB = ['-fsanitize=undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function']
FLAVOURS = {'a': SAN, 'n': UB, 't': ['-fsanitize=thread']}
# n: replaces system calls, which the address sanitizer intercepts; t: looks for data races
FLAVOUR = {'P08': 'n', 'P23': 't'}


def newest(paths):
    return max(os.stat(p).st_mtime_ns for p in paths)


def digest_tree():
    """What the objects depend on: every header and source, by content."""
    h = hashlib.sha256()
    for root in (REPO + '/include', REPO + '/src', SRC):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.cpp', '.h', '.ipp')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def header_digest():
    h = hashlib.sha256()
    for root in (REPO + '/include', REPO + '/src', SRC):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.h', '.ipp')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def source_digest(p, flags, headers):
    """An object is reused while its source, the sources it includes, all headers and the flags are the same."""
    h = hashlib.sha256(headers.encode()); text = open(p, 'rb').read()
    h.update(p.encode()); h.update(text); h.update(' '.join(flags).encode())
    for inc in re.findall(rb'#include "(\w+\.cpp)"', text):
        q = REPO + '/src/' + inc.decode()
        if os.path.exists(q):
            h.update(open(q, 'rb').read())
    return h.hexdigest()[:16]


def lib_sources():
    have = sorted(f[:-4] for f in os.listdir(REPO + '/src') if f.endswith('.cpp'))
    return have or LIB


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return None
    tmp = obj + '.tmp%d' % os.getpid()
    r = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return '%s\n%s' % (src, r.stdout[-4000:])
    os.rename(tmp, obj)
    return None


def build(props):
    os.makedirs(BUILD, exist_ok=True)
    allow = BUILD + '/allow.txt'
    with open(allow, 'w') as f:
        f.write('src:%s/*\nfun:*\n' % REPO)
    tag = digest_tree()
    out = os.path.join(BUILD, tag)
    for old in os.listdir(BUILD):
        if old != tag and os.path.isdir(os.path.join(BUILD, old)) and re.fullmatch('[0-9a-f]{16}', old):
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    objdir = BUILD + '/obj'
    os.makedirs(objdir, exist_ok=True)
    headers = header_digest()
    jobs, links = [], []
    variants = {}
    for p in props:
        variants.setdefault(FLAVOUR.get(p, 'a'), []).append(p)

    def add(src, name, flags):
        obj = '%s/%s.%s.o' % (objdir, name, source_digest(src, flags, headers))
        jobs.append((src, obj, flags))
        return obj
    for v, ps in variants.items():
        san, cov = FLAVOURS[v], COV if v != 't' else []
        own = {p: add('%s/%s.cpp' % (SRC, p.lower()), p + '.' + v, COMMON + san + cov) for p in ps}      # the slow ones first
        support = [add('%s/%s.cpp' % (SRC, s), s + '.' + v, COMMON + san + ([] if s == 'engine' else cov)) for s in SUPPORT]
        libs = [add('%s/src/%s.cpp' % (REPO, s), 'lib_' + s + '.' + v, COMMON + san + cov + ['-DBOOST_PROGRAM_OPTIONS_SOURCE']) for s in lib_sources()]
        for p in ps:
            links.append((p, [own[p]] + support + libs, san))
    used = {j[1] for j in jobs}
    old = sorted((os.path.join(objdir, f) for f in os.listdir(objdir)), key=os.path.getmtime)
    for f in [f for f in old if f not in used and f[:-3] not in used][:max(0, len(old) - 300)]:
        try:
            os.unlink(f)
        except OSError:
            pass
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        print('build failed:\n' + '\n'.join(errs)); sys.exit(2)

    def link(l):
        p, objs, san = l
        exe = '%s/%s' % (out, p)
        if os.path.exists(exe):
            return None
        r = subprocess.run([CXX, '-no-pie'] + san + objs + ['-o', exe + '.tmp', '-ldl', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return r.stdout[-4000:]
        os.rename(exe + '.tmp', exe)
        return None
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(link, links) if e]
    if errs:
        print('link failed:\n' + '\n'.join(errs)); sys.exit(2)
    dict_file(out, [o for l in links for o in l[1] if os.path.basename(o).startswith('lib_')])
    return out


def dict_file(out, objs):
    """String constants of the library's object files, for the generators."""
    words = set()
    for o in sorted(set(objs)):
        raw = o + '.ro'
        if not os.path.exists(raw):
            r = subprocess.run(['objcopy', '-O', 'binary', '-j', '.rodata.str1.1', '--set-section-flags', '.rodata.str1.1=alloc,contents', o, raw + '.t'], stderr=subprocess.DEVNULL)
            if r.returncode or not os.path.exists(raw + '.t'):
                continue
            os.rename(raw + '.t', raw)
        for w in open(raw, 'rb').read().split(b'\0'):
            if 2 <= len(w) <= 24 and all(33 <= b < 127 for b in w) and b',' not in w and not w.startswith((b'_Z', b'/')):
                words.add(w.decode())
    # identifiers from debug/sanitizer metadata are of no use
    words = [w for w in sorted(words) if not re.search(r'::|\.cpp|\.hpp|\.h$|[<>]', w)]
    with open(out + '/dict.txt', 'w') as f:
        f.write('\n'.join(words[:400]) + '\n')


def run_info(exe):
    return json.loads(subprocess.run([exe, 'info'], stdout=subprocess.PIPE, text=True).stdout)


def known_findings(prop):
    res = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.build_only:
        build(PROPS); print('built in %.1f s' % (time.time() - t0)); return 0
    prop = a.property
    out = build([prop])
    exe = '%s/%s' % (out, prop)
    work = '%s/work-%s-%d' % (out, prop, os.getpid())
    os.makedirs(work)
    env = dict(os.environ); env['LC_ALL'] = 'C'; env.pop('ASAN_OPTIONS', None); env.pop('UBSAN_OPTIONS', None)
    sym = shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18')
    if sym:
        env['ASAN_SYMBOLIZER_PATH'] = sym; env['UBSAN_SYMBOLIZER_PATH'] = sym
    try:
        return check(a, prop, exe, out, work, env, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(a, prop, exe, out, work, env, t0):
    base = ['--seed', str(a.seed), '--work', work, '--dict', out + '/dict.txt']
    if a.replay:
        f = json.load(open(a.replay))
        base[1] = str(f['seed'])
        if f['mode'] == 'prefix':
            cmd = [exe, 'prefix'] + base + ['--shard', str(f['shard']), '--index', str(f['index']), '--cases', str(f['total'])]
        else:
            tape = work + '/tape'; open(tape, 'w').write(' '.join(map(str, f['tape'])))
            cmd = [exe, 'replay'] + base + ['--index', str(f['index']), '--tape', tape]
        return subprocess.run(cmd, env=env).returncode

    info = run_info(exe)
    quick = a.tier != 'thorough'
    cases = a.cases or (info['quick'] if quick else info['thorough'])
    wall = a.wall or (420 if quick else 6 * 3600)
    build_s = time.time() - t0

    for fid, text in known_findings(prop):
        r = subprocess.run([exe, 'finding', '--id', fid] + base, env=env, stdout=subprocess.PIPE, text=True)
        if r.returncode == 1:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))

    r = subprocess.run([exe, 'run'] + base + ['--cases', str(cases), '--wall', str(wall)], env=env)
    fail = work + '/failure.json'
    failed = r.returncode == 1 and os.path.exists(fail)
    stats = []
    hashes = set()
    for s in range(8):
        p = '%s/stats%d.json' % (work, s)
        if os.path.exists(p):
            stats.append(json.load(open(p)))
            h = array.array('Q'); h.frombytes(open(p + '.hash', 'rb').read()); hashes.update(h)
    labels, samples = {}, []
    for s in stats:
        for k, v in s['labels'].items():
            labels[k] = labels.get(k, 0) + v
        samples += s['samples']
    evals = sum(s['evals'] for s in stats)
    if not failed and ((len(stats) < 8 and r.returncode == 0) or not evals):
        print('the check itself failed: %d of 8 shards reported' % len(stats)); return 2
    ev = {'property': prop, 'tier': 'quick' if quick else 'thorough', 'seed': a.seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(hashes),
                       'rule': info['rule'], 'samples': samples[:6] or ['(none: the run stopped at a violation)'],
                       'labels': dict(sorted(labels.items(), key=lambda x: -x[1])),
                       'discarded': sum(s['discarded'] for s in stats),
                       'coverage_guided_corpus': sum(s['corpus'] for s in stats),
                       'instrumented_counters_hit': max([s['counters'] for s in stats] or [0]),
                       'pinned_cases': info['pinned']},
          'assumptions': ['clang 18 with address and undefined behaviour sanitizers and libstdc++; Linux; locales C and C.UTF-8',
                          'the reference model in /verif/src is the specification where the documentation is silent'],
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if failed else 0}
    if info['exhaustive']:
        ev['coverage']['exhaustive_part'] = '%d cases enumerated completely: %s' % (info['exhaustive'], info['exhaustive_note'])
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as f:
        json.dump(ev, f, indent=1); f.write('\n')
    if failed:
        d = json.load(open(fail)); d['property'] = prop
        rd = VERIF + '/evidence/replays'; os.makedirs(rd, exist_ok=True)
        rp = '%s/%s-%s.json' % (rd, prop, hashlib.sha256(json.dumps(d['tape']).encode() + d['message'].encode()).hexdigest()[:10])
        json.dump(d, open(rp, 'w'), indent=1)
        print(d['case']); print(d['message'])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if r.returncode not in (0, 1, 3):
        print('the check itself failed with status %d' % r.returncode); return 2
    print('%s held: %d cases, %d distinct non-trivial, %d discarded; build %.1f s, total %.1f s' % (prop, evals, len(hashes), ev['coverage']['discarded'], build_s, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
