#!/usr/bin/env python3
"""Sensitivity study (not part of any check): random mutants of the library, in a scratch copy.

    mutate.py --n 100 --seed 1 [--files src/cmdline.cpp,...] [--frac 0.15]

For each mutant which compiles and passes the repository's tests, runs every check with a fraction of its
quick number of cases and records which of them report a violation, in /tmp/mut/results.jsonl.
"""
import argparse, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
M = '/tmp/mut'
ap = argparse.ArgumentParser()
ap.add_argument('--n', type=int, default=50); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--files', default=''); ap.add_argument('--frac', type=float, default=0.15)
ap.add_argument('--first', action='store_true', help='stop at the first check that notices'); ap.add_argument('--out', default=M + '/results.jsonl')
a = ap.parse_args()
os.makedirs(M, exist_ok=True)
R = M + '/repo'
if not os.path.exists(R):
    subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
subprocess.run('git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD' % (R, R), shell=True)
if not os.path.exists(M + '/vpcmake'):
    shutil.copytree('/opt/vp/cmake', M + '/vpcmake')
    p = M + '/vpcmake/CMakeLists.txt'; s = open(p).read().replace('set(PO_REPO /repo)', 'set(PO_REPO %s)' % R); open(p, 'w').write(s)
TB = M + '/tb'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    if not os.path.exists(TB):
        r = sh('CC=gcc CXX=g++ cmake -S %s/vpcmake -B %s -G Ninja -DPO_VARIANT=static -DBUILD_TESTING=ON -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS="-Wno-error -Wno-deprecated-declarations"' % (M, TB))
        if r.returncode: print(r.stdout); sys.exit(1)
    r = sh('ninja -C %s -j8' % TB)
    if r.returncode: return 'nobuild'
    r = sh('LANG=C.UTF-8 LC_ALL=C.UTF-8 ctest --test-dir %s -j8 --timeout 60' % TB)
    failed = set(re.findall(r'^\s*\d+ - (\S+) \(', r.stdout, re.M)) - {'static/test_convert'}
    return 'killed by tests: ' + ','.join(sorted(failed)) if failed else 'pass'
os.environ['VERIF_REPO'] = R; os.environ['VERIF_BUILD'] = M + '/build'
import run_check as rc
rc.COV = ['-fsanitize-coverage=inline-8bit-counters,trace-cmp', '-fsanitize-coverage-allowlist=' + rc.BUILD + '/allow.txt']
FILES = a.files.split(',') if a.files else ['src/cmdline.cpp'] * 4 + ['src/config_file.cpp'] * 2 + ['src/convert.cpp'] * 2 + ['src/options_description.cpp'] * 4 + ['src/parsers.cpp'] * 2 + ['src/positional_options.cpp', 'src/split.cpp', 'src/winmain.cpp'] + ['src/value_semantic.cpp'] * 3 + ['src/variables_map.cpp'] * 3 + [
    'include/boost/program_options/detail/value_semantic.hpp', 'include/boost/program_options/detail/config_file.hpp', 'include/boost/program_options/detail/parsers.hpp', 'include/boost/program_options/environment_iterator.hpp', 'include/boost/program_options/value_semantic.hpp', 'include/boost/program_options/errors.hpp', 'include/boost/program_options/eof_iterator.hpp']
rnd = random.Random(a.seed)
def strip(l):
    return l.split('//')[0]
def ops(line):
    """all mutations of a line"""
    out = []
    code = strip(line)
    t = code.strip()
    if not t or t.startswith(('#', '*', '/*')): return out
    def sub(pat, rep, k=None):
        for m in re.finditer(pat, code):
            out.append(line[:m.start()] + m.expand(rep) + line[m.end():])
    for x, y in (('==', '!='), ('!=', '=='), ('<=', '<'), ('>=', '>'), ('&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+\+', '--'),
                 (r' < ', ' <= '), (r' > ', ' >= '), (r' \+ ', ' - '), (r' - ', ' + '), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\bbegin\(\)', 'end()'), (r'\.front\(\)', '.back()'), (r'\.back\(\)', '.front()'),
                 (r'!(?=[A-Za-z_(])', ''), (r'\bif \((?!!)', r'if (!'), (r'\bfind\(', 'rfind('), (r'\bfind_first_of\(', 'find_last_of('), (r'\brfind\(', 'find('), ("'-'", "'/'"), ('"--"', '"-"'), ("'='", "':'"), (r'\bbreak;', ';'), (r'\bcontinue;', ';')):
        if x == r'\bif \((?!!)':
            m = re.search(r'\bif\s*\((.*)\)', code)
            if m and m.group(1).count('(') == m.group(1).count(')'): out.append(line[:m.start(1)] + '!(' + m.group(1) + ')' + line[m.end(1):]); out.append(line[:m.start(1)] + 'true' + line[m.end(1):]); out.append(line[:m.start(1)] + 'false' + line[m.end(1):])
            continue
        sub(x, y)
    if t.endswith(';') and not re.match(r'(return|throw|using|typedef|const|static|class|struct|template|virtual|friend|\}|public|private|int |bool |unsigned |string |std::string |std::vector|vector|size_t|char)', t) and t.count('(') == t.count(')'):
        out.append(line[:len(line) - len(line.lstrip())] + ';')
    if ' & ' in code: sub(r' & (\w+)', r' & ~\1')
    m = re.search(r'"([^"\\]{3,})"', code)
    if m: out.append(line[:m.start(1)] + m.group(1)[:-1] + line[m.end(1):])
    return [o for o in dict.fromkeys(out) if o != line]
def live(f, i):
    """not inside a comment, an #if 0 or an assertion"""
    comment = dead = 0
    for k, l in enumerate(open(R + '/' + f).read().split('\n')):
        t = l.strip()
        if re.match(r'#\s*if 0', t): dead = 1
        elif dead and re.match(r'#\s*if', t): dead += 1
        elif dead and re.match(r'#\s*endif', t): dead -= 1
        if k == i: return not (comment or dead or t.startswith('assert') or '/*' in t)
        if '/*' in l and '*/' not in l.split('/*')[-1]: comment = 1
        elif '*/' in l: comment = 0
seen = set()
if os.path.exists(a.out):
    for l in open(a.out):
        d = json.loads(l); seen.add(d['id'])
infos = {}
done = 0; import contextlib, io
while done < a.n:
    f = rnd.choice(FILES); lines = open(R + '/' + f).read().split('\n'); i = rnd.randrange(len(lines)); c = ops(lines[i]) if live(f, i) else None
    if not c: continue
    m = rnd.choice(c); ident = hashlib.sha1((f + str(i) + m).encode()).hexdigest()[:8]
    if ident in seen: continue
    seen.add(ident); done += 1
    orig = open(R + '/' + f).read(); n = list(lines); n[i] = m
    open(R + '/' + f, 'w').write('\n'.join(n))
    rec = {'id': ident, 'file': f, 'line': i + 1, 'old': lines[i].strip(), 'new': m.strip()}
    t0 = time.time()
    try:
        rec['tests'] = tests()
        if rec['tests'] == 'pass':
            try:
                with contextlib.redirect_stdout(io.StringIO()): out = rc.build(rc.PROPS)
            except SystemExit:  # (its output says why)
                rec['tests'] = 'nobuild-checks'; continue
            kills, procs = {}, []
            for p in rc.PROPS:
                exe = out + '/' + p
                if p not in infos: infos[p] = rc.run_info(exe)
                w = '%s/work-%s' % (out, p); os.makedirs(w, exist_ok=True)
                env = dict(os.environ, LC_ALL='C')
                try:
                    r = subprocess.run([exe, 'run', '--seed', '1', '--work', w, '--dict', out + '/dict.txt', '--cases', str(int(infos[p]['quick'] * a.frac)), '--wall', '60'], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
                    kills[p] = r.returncode
                    if r.returncode == 1:
                        d = json.load(open(w + '/failure.json')); rec.setdefault('msgs', {})[p] = d['message'][:200]
                except subprocess.TimeoutExpired: kills[p] = 'timeout'
                shutil.rmtree(w, ignore_errors=True)
                if a.first and kills.get(p) == 1: break
            rec['killed'] = [p for p, v in kills.items() if v == 1]; rec['odd'] = {p: v for p, v in kills.items() if v not in (0, 1)}
    finally:
        open(R + '/' + f, 'w').write(orig)
        rec['s'] = round(time.time() - t0, 1)
        open(a.out, 'a').write(json.dumps(rec) + '\n')
        print(json.dumps({k: v for k, v in rec.items() if k != 'msgs'}), flush=True)
