#!/usr/bin/env python3
"""mutate_rb.py [--files a,b] [--n N] [--seed S] [--scale X] [--workers W]: mechanical mutants of the Ruby
bindings (lib/typelib/*.rb and ext/*.cc) against the checks C30 to C36, in scratch copies below /tmp/mutr."""
import argparse, os, random, re, shutil, subprocess, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'bindings/ruby/lib/typelib/'; X = 'bindings/ruby/ext/'
MAP = { 'accessor.rb': 'C35', 'path.rb': 'C35', 'array_type.rb': 'C30 C31 C33 C34', 'compound_type.rb': 'C30 C33 C31 C34 C32', 'container_type.rb': 'C30 C31 C33 C34',
 'enum_type.rb': 'C30 C33 C32', 'numeric_type.rb': 'C30 C33', 'pointer_type.rb': 'C30 C31', 'type.rb': 'C30 C33 C31 C34 C35 C32', 'registry.rb': 'C32 C36 C35', 'registry_export.rb': 'C35',
 'specializations.rb': 'C34 C30', 'standard_convertions.rb': 'C34', 'gccxml.rb': 'C36', 'cxx.rb': 'C35 C36', 'metadata.rb': 'C35' }
XMAP = { 'convert.cc': 'C30 C33', 'memory.cc': 'C31 C30 C33', 'metadata.cc': 'C35 C32', 'registry.cc': 'C32 C35 C31 C36', 'specialized_types.cc': 'C30 C31 C33 C32 C34', 'strings.cc': 'C30 C33', 'value.cc': 'C33 C30 C31 C32 C34', 'typelib_ruby.cc': 'C30 C32' }
FMAP = {L + k: v for k, v in MAP.items()}; FMAP.update({X + k: v for k, v in XMAP.items()})
ap = argparse.ArgumentParser()
ap.add_argument('--files'); ap.add_argument('--n', type=int, default=100); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--scale', default='0.15'); ap.add_argument('--workers', type=int, default=6); ap.add_argument('--repo', default='/repo'); ap.add_argument('--only')
a = ap.parse_args()
OPS = [(' < ', ' <= '), (' > ', ' >= '), (' == ', ' != '), (' != ', ' == '), (' <= ', ' < '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '), ('if !', 'if '), (' + ', ' - '), (' - ', ' + '), (' += ', ' = '), ('true', 'false'), ('false', 'true'),
       ('.first', '.last'), ('.last', '.first'), ('.any?', '.all?'), ('.all?', '.any?'), ('shift', 'pop'), ('push', 'unshift'), ('.empty?', '.nil?'), ('unless ', 'if '), ('next', 'break'), ('&& !', '&& '), ('(!', '('), ('||=', '='), ('.dup', ''), ('.compact', ''), ('.uniq', ''), ('.reverse', ''), ('super', 'nil')]
def rb(f):
    lines = open(os.path.join(a.repo, f)).read().split('\n'); out = []
    def put(i, new, what): out.append((f, i + 1, what, lines[i].strip()[:110], '\n'.join(lines[:i] + [new] + lines[i + 1:])))
    for i, l in enumerate(lines):
        s = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '\0' * (len(m.group()) - 2) + '"', l); s = re.sub(r"'[^']*'", lambda m: "'" + '\0' * (len(m.group()) - 2) + "'", s); s = re.sub(r'(^|\s)#.*', '', s)
        t = s.strip()
        if not t or t.startswith(('raise', 'require', 'attr_', 'module', 'class ', 'warn', 'Typelib.warn', 'msg')) or 'ArgumentError' in s or 'warn' in s: continue
        for o, n in OPS:
            for m in re.finditer(re.escape(o), s): put(i, l[:m.start()] + n + l[m.end():], o.strip() + '->' + n.strip())
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', s):
            put(i, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], 'n+1')
        m = re.match(r'(\s*)(if|elsif|while) (.*[^,(|&])$', s)
        if m and ' then ' not in s:
            c = l[m.start(3):]
            put(i, m.group(1) + m.group(2) + ' (' + c + ') && false', m.group(2) + ' false')
            if m.group(2) != 'while': put(i, m.group(1) + m.group(2) + ' (' + c + ') || true', m.group(2) + ' true')
        m = re.match(r'.* (if|unless) ([^{}]*)$', s)
        if m and not t.startswith(('if', 'unless', 'elsif')) and not re.search(r'=\s*(if|unless) ', s):
            k = m.start(1); put(i, l[:k] + m.group(1) + ' false', 'mod false'); put(i, l[:k] + m.group(1) + ' true', 'mod true')
        if not re.match(r'(def|if|elsif|else|end|unless|while|case|when|begin|rescue|ensure|do|return|\}|\)|\]|private|public|include|[A-Z_]+ =|\w+ = *$|\|)', t) and not re.search(r'(\bdo\b( \|.*\|)?|[\[{(,|&]|\.)$', t) and t.count('(') == t.count(')') and t.count('{') == t.count('}') and t.count('[') == t.count(']'):
            if re.search(r'[=(.<]|\w!? \w|yield', t): put(i, re.match(r'\s*', l).group() + 'nil', 'delete')
    return out
def xc(f):
    import types
    src = open(V + '/tools/mutate.py').read(); i = src.index('OPS = ['); j = src.index('files = a.files'); g = {'os': os, 're': re, 'REPO': a.repo}
    exec(src[i:j], g); return [m for m in g['mutants'](f) if 'rb_define' not in m[3] and 'rb_raise' not in m[3]]
files = a.files.split(',') if a.files else list(FMAP)
files = [f if '/' in f else (L if f.endswith('.rb') else X) + f for f in files]
allm = []
for f in files: allm += rb(f) if f.endswith('.rb') else xc(f)
random.Random(a.seed).shuffle(allm)
if a.only: allm = [m for m in allm if f'{os.path.basename(m[0])}:{m[1]}' in a.only.split(',')]
print(len(allm), 'mutants, running', min(a.n, len(allm)), flush=True); allm = allm[:a.n]
MUT = '/tmp/mutr'; os.makedirs(MUT, exist_ok=True)
for n in ('killed', 'survivors'): open(f'{MUT}/{n}', 'a').close()
shutil.rmtree(MUT + '/h', True); os.makedirs(MUT + '/h'); subprocess.run(f'cp {V}/build/h_C3? {MUT}/h', shell=True)
shutil.rmtree(MUT + '/v', True); os.makedirs(MUT + '/v')
lock = threading.Lock(); stats = {'killed': 0, 'nocompile': 0, 'survived': 0}
def prepare(w):
    d = f'{MUT}/w{w}'
    if not os.path.exists(d + '/build'):
        os.makedirs(d, exist_ok=True); subprocess.run(['cp', '-a', V + '/build', d + '/build'], check=True); subprocess.run(f'rm -f {d}/build/h_*', shell=True)
        for x in ('replays', 'evidence', 'tmp'): os.makedirs(f'{d}/{x}', exist_ok=True)
    subprocess.run(['python3', V + '/tools/sync.py', a.repo, d + '/build/src'], check=True)
    subprocess.run(['make', '-s', '-f', V + '/Makefile', 'V=' + V, 'B=' + d + '/build', 'REPO=' + d + '/build/src', '-j8', 'libs', 'ruby'], check=True)
def run(w, m):
    f, line, what, text, src = m
    d = f'{MUT}/w{w}'; B = d + '/build'; p = f'{B}/src/{f}'; orig = open(p).read(); open(p, 'w').write(src); res = 'survived'; by = ''
    if f.endswith('.rb'): ok = subprocess.run(['ruby', '-W0', '-c', p], capture_output=True).returncode == 0
    else: ok = subprocess.run(['make', '-s', '-f', V + '/Makefile', 'V=' + V, 'B=' + B, 'REPO=' + B + '/src', 'ruby'], capture_output=True).returncode == 0
    if not ok: res = 'nocompile'
    else:
        env = dict(os.environ, LD_LIBRARY_PATH=f'{B}:{B}/plugins', TYPELIB_PLUGIN_PATH=B + '/plugins', PBT_BUILD=B, PBT_SCALE=a.scale, PBT_NOSHRINK='1', TMPDIR=d + '/tmp')
        for c in FMAP[f].split():
            q = subprocess.Popen([f'{MUT}/h/h_{c}', '--verif', d, '--jobs', '1'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
            try: rc = q.wait(300)
            except subprocess.TimeoutExpired: rc = 99; os.killpg(q.pid, 9); q.wait()
            if rc != 0: res = 'killed'; by = f'{c} rc={rc}'; break
    open(p, 'w').write(orig)
    with lock:
        stats[res] += 1; t = f'{os.path.basename(f)}:{line}: [{what}] {text}'
        if res == 'survived': open(MUT + '/survivors', 'a').write(t + '\n')
        elif res == 'killed': open(MUT + '/killed', 'a').write(t + ' by ' + by + '\n')
def worker(w):
    prepare(w)
    while True:
        with lock:
            if not allm: return
            m = allm.pop(0)
        try: run(w, m)
        except Exception as e: print('ERR', m[:4], e, flush=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.workers)]
for t in ts: t.start()
for t in ts: t.join()
print(stats)
