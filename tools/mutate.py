#!/usr/bin/env python3
"""mutate.py [--files a,b] [--n N] [--seed S] [--scale X] [--workers W]: mechanical mutants of typelib's
sources against the checks, in scratch copies below /tmp/mut. Survivors are listed in /tmp/mut/survivors."""
import argparse, os, random, re, shutil, subprocess, sys, threading, hashlib, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 'typelib/value_ops.cc': 'C01 C04 C06 C05 C02 C03 C07 C11 C29', 'typelib/memory_layout.cc': 'C11 C02 C01 C04 C06 C05 C29',
 'typelib/registry.cc': 'C12 C13 C14 C15 C16 C17 C19 C20 C26 C18 C27 C24 C29', 'typelib/typemodel.cc': 'C17 C28 C14 C16 C24 C13 C12 C19 C20 C15 C29',
 'typelib/typename.cc': 'C18 C19 C12', 'typelib/typebuilder.cc': 'C19 C18', 'typelib/endianness.cc': 'C08',
 'typelib/csvoutput.cc': 'C09', 'typelib/typedisplay.cc': 'C29 C09', 'typelib/value.cc': 'C10 C09 C22', 'typelib/typevisitor.cc': 'C10 C22 C09 C08',
 'lang/csupport/containers.cc': 'C07 C01 C04 C06 C02 C03 C05 C14 C19', 'lang/csupport/standard_types.cc': 'C27',
 'lang/tlb/import.cc': 'C20 C21', 'lang/tlb/export.cc': 'C20 C21', 'lang/idl/export.cc': 'C22', 'typelib/exporter.cc': 'C23 C20 C22',
 'typelib/importer.cc': 'C21 C20 C26', 'typelib/pluginmanager.cc': 'C26 C20', 'typelib/utilmm/configset.cc': 'C25',
 'typelib/utilmm/singleton/server.cc': 'C26', 'typelib/utilmm/singleton/dummy.cc': 'C26', 'typelib/registryiterator.cc': 'C12',
 'typelib/value_ops_details.hh': 'C01', 'typelib/typelib_details.cc': 'C01',
}
ap = argparse.ArgumentParser()
ap.add_argument('--files'); ap.add_argument('--n', type=int, default=100); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--scale', default='0.1'); ap.add_argument('--workers', type=int, default=8); ap.add_argument('--repo', default='/repo')
ap.add_argument('--only'); ap.add_argument('--list'); ap.add_argument('--checks')
a = ap.parse_args()
REPO = a.repo
OPS = [(' < ', ' <= '), (' > ', ' >= '), (' == ', ' != '), (' != ', ' == '), (' <= ', ' < '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '),
       ('(!', '('), (' !', ' '), (' + ', ' - '), (' - ', ' + '), ('++', '--'), (' += ', ' = '), (' -= ', ' = '), ('true', 'false'), ('false', 'true'),
       ('continue;', 'break;'), ('break;', ';'), ('continue;', ';'), (' * ', ' + '), ('begin()', 'end()'), ('find(', 'rfind(') ]
def mutants(f):
    src = open(os.path.join(REPO, f)).read(); lines = src.split('\n'); out = []
    code = []; inc = False
    for l in lines:   # blank comments, keep columns
        s = l
        if inc:
            k = s.find('*/')
            if k < 0: code.append(''); continue
            s = ' ' * (k + 2) + s[k + 2:]; inc = False
        s = re.sub(r'/\*.*?\*/', lambda m: ' ' * len(m.group()), s)
        k = s.find('/*')
        if k >= 0: s = s[:k]; inc = True
        s = re.sub(r'//.*', '', s)
        s = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '\0' * (len(m.group()) - 2) + '"', s)
        code.append(s)
    def put(i, new, what, upto=None):
        upto = i if upto is None else upto
        m = lines[:i] + [new] + [''] * (upto - i) + lines[upto + 1:]
        out.append((f, i + 1, what, lines[i].strip()[:100], '\n'.join(m)))
    for i, s in enumerate(code):
        if not s.strip() or s.lstrip().startswith('#') or 'assert' in s: continue
        for o, n in OPS:
            for m in re.finditer(re.escape(o), s):
                put(i, lines[i][:m.start()] + n + lines[i][m.end():], o.strip() + '->' + n.strip())
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', s):
            put(i, lines[i][:m.start()] + str(int(m.group(1)) + 1) + lines[i][m.end():], 'n+1')
            if int(m.group(1)) > 0: put(i, lines[i][:m.start()] + str(int(m.group(1)) - 1) + lines[i][m.end():], 'n-1')
        m = re.match(r'\s*(?:\}?\s*else )?(if|while)\s*\(', s)
        if m:
            d = 0; e = -1
            for k in range(m.end() - 1, len(s)):
                d += (s[k] == '(') - (s[k] == ')')
                if d == 0: e = k; break
            if e > 0:
                c = lines[i][m.end():e]
                if m.group(1) == 'if':
                    put(i, lines[i][:m.end()] + '(' + c + ') || true' + lines[i][e:], 'if true')
                put(i, lines[i][:m.end()] + '(' + c + ') && false' + lines[i][e:], m.group(1) + ' false')
        # statement deletion
        t = s.strip(); prev = next((code[k].strip() for k in range(i - 1, -1, -1) if code[k].strip()), '')
        if (prev.endswith((';', '{', '}', ':', ')')) or prev == 'else') and not re.match(r'(return|typedef|using|class|struct|namespace|template|else|if|for|while|case|default|\}|\{|public|private|protected|static|const |virtual)', t):
            d = 0
            for k in range(i, min(i + 8, len(code))):
                d += code[k].count('(') - code[k].count(')')
                if '{' in code[k] or '}' in code[k]: break
                if code[k].rstrip().endswith(';') and d == 0:
                    full = ' '.join(code[i:k + 1])
                    if re.search(r'[=(]|throw|delete|\+\+|--', full) and not re.match(r'\s*[\w:<>,\s\*&]+[\s\*&]\w+\s*(=|;|\()', full):
                        put(i, ';', 'delete', k)
                    elif re.match(r'\s*throw', full): put(i, ';', 'delete', k)
                    break
        m = re.match(r'\s*return (.+);', s)
        if m and m.group(1) not in ('true', 'false') and re.search(r'==|!=|<|>|&&|\|\|', m.group(1)) and 'cast' not in s:
            put(i, lines[i][:m.start(1)] + '!(' + lines[i][m.start(1):m.end(1)] + ')' + lines[i][m.end(1):], 'negate return')
    return out
files = a.files.split(',') if a.files else [f for f in MAP if os.path.exists(os.path.join(REPO, f))]
allm = []
for f in files: allm += mutants(f)
rnd = random.Random(a.seed); rnd.shuffle(allm)
if a.only: allm = [m for m in allm if f'{m[0]}:{m[1]}' in a.only.split(',')]
if a.list:
    want = set(l.rstrip('\n') for l in open(a.list)); allm = [m for m in allm if f'{m[0]}:{m[1]}: [{m[2]}] {m[3]}' in want]
print(len(allm), 'mutants, running', min(a.n, len(allm)), flush=True)
allm = allm[:a.n]
open('/tmp/mut/killed','w').close() if os.path.exists('/tmp/mut') else os.makedirs('/tmp/mut'); open('/tmp/mut/survivors','w').close()
lock = threading.Lock(); stats = {'killed': 0, 'nocompile': 0, 'same': 0, 'survived': 0}
MUT = '/tmp/mut'
shutil.rmtree(MUT + '/h', True); os.makedirs(MUT + '/h')
subprocess.run('cp ' + V + '/build/h_C?? ' + MUT + '/h', shell=True)
def prepare(w):
    d = f'{MUT}/w{w}'
    if not os.path.exists(d + '/build'):
        os.makedirs(d, exist_ok=True); subprocess.run(['cp', '-a', V + '/build', d + '/build'], check=True)
        shutil.copytree(V + '/lib', d + '/lib') ; os.makedirs(d + '/replays'); os.makedirs(d + '/evidence')
    env = dict(os.environ)
    subprocess.run(['python3', V + '/tools/sync.py', REPO, d + '/build/src'], check=True)
    subprocess.run(['make', '-s', '-f', V + '/Makefile', 'V=' + V, 'B=' + d + '/build', 'REPO=' + d + '/build/src', '-j8', 'libs'], check=True, env=env)
def objhash(o):
    t = o + '.s'; subprocess.run(['objcopy', '-g', o, t]); h = hashlib.md5(open(t, 'rb').read()).hexdigest() if os.path.exists(t) else ''
    return h
def run(w, m):
    f, line, what, text, src = m
    d = f'{MUT}/w{w}'; B = d + '/build'; p = f'{B}/src/{f}'; o = f'{B}/o/' + f[:-3] + '.o'
    orig = open(p).read(); h0 = objhash(o)
    open(p, 'w').write(src)
    r = subprocess.run(['make', '-s', '-f', V + '/Makefile', 'V=' + V, 'B=' + B, 'REPO=' + B + '/src', 'libs'], capture_output=True, text=True)
    res = None
    if r.returncode: res = 'nocompile'
    elif objhash(o) == h0: res = 'same'
    else:
        env = dict(os.environ, LD_LIBRARY_PATH=f'{B}:{B}/plugins', TYPELIB_PLUGIN_PATH=B + '/plugins', PBT_BUILD=B, PBT_SCALE=a.scale, PBT_NOSHRINK='1')
        res = 'survived'
        for c in (a.checks.split(',') if a.checks else MAP.get(f, '').split()):
            if not os.path.exists(f'{MUT}/h/h_{c}'): continue
            q = subprocess.Popen([f'{MUT}/h/h_{c}', '--verif', d, '--jobs', '1'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
            try: rc = q.wait(400)
            except subprocess.TimeoutExpired:
                rc = 99; os.killpg(q.pid, 9); q.wait()
            if rc != 0: res = 'killed'; by = f'{c} rc={rc}'; break
    open(p, 'w').write(orig)
    with lock:
        stats[res] += 1
        if res == 'survived':
            open(MUT + '/survivors', 'a').write(f'{f}:{line}: [{what}] {text}\n'); print(f'SURVIVED {f}:{line}: [{what}] {text}', flush=True)
        elif res == 'killed': open(MUT + '/killed', 'a').write(f'{f}:{line}: [{what}] {text} by {by}\n')
def worker(w):
    prepare(w)
    while True:
        with lock:
            if not allm: return
            m = allm.pop(0)
        try: run(w, m)
        except Exception as e: print('ERR', m[:4], e, flush=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.workers)]
for t in ts: t.start()
for t in ts: t.join()
print(stats)
