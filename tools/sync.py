# Mirrors /repo's sources into the build folder, writing only files whose
# content differs, so that rebuilds follow content and not time stamps.
import os, sys
repo, dst = sys.argv[1:3]
want = {}
for top in ('typelib', 'lang', 'tools', 'bindings'):
    for d, ds, fs in os.walk(os.path.join(repo, top)):
        for f in fs:
            if f.endswith(('.cc', '.hh', '.h', '.tcc', '.hpp', '.cpp', '.rb', '.in', '.g')):
                p = os.path.join(d, f)
                want[os.path.relpath(p, repo)] = p
for d, ds, fs in os.walk(dst):
    for f in fs:
        p = os.path.join(d, f)
        if os.path.relpath(p, dst) not in want:
            os.remove(p)
for r, p in want.items():
    q = os.path.join(dst, r)
    data = open(p, 'rb').read()
    try:
        if open(q, 'rb').read() == data: continue
    except OSError: pass
    os.makedirs(os.path.dirname(q), exist_ok=True)
    open(q, 'wb').write(data)
