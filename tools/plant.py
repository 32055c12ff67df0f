#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from the list below, in a scratch copy (run by hand)"""
import json, os, shutil, subprocess, sys
W = '/tmp/plant'
LIB = '''set -u
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
B=/repo/target/debug/ti-tools
[ -x "$B" ] || B=$PWD/target/debug/ti-tools
exec 9<&0
cat > "$T/lib.py" <<'PY'
import subprocess, sys, os, struct
T, B = sys.argv[1], sys.argv[2]
def p8(body, name=b'PROG', ty=5, dest=0, comment=b'hi', pid=0x0A, sig=b'**TI83F*', version=0):
    m = struct.pack('<HH', 0x0D, len(body)+2) + bytes([ty]) + name.ljust(8, b'\\0') + bytes([version, dest]) + struct.pack('<HH', len(body)+2, len(body))
    return sig + b'\\x1a\\x0a' + bytes([pid]) + comment.ljust(42, b'\\0') + struct.pack('<H', len(m)+len(body)) + m + body + struct.pack('<H', sum(m+body) & 0xffff)
def p3(body, name=b'PROG', ty=5, comment=b'hi', pid=0, sig=b'**TI83**'):
    m = struct.pack('<HH', 0x0B, len(body)+2) + bytes([ty]) + name.ljust(8, b'\\0') + struct.pack('<HH', len(body)+2, len(body))
    return sig + b'\\x1a\\x0a' + bytes([pid]) + comment.ljust(42, b'\\0') + struct.pack('<H', len(m)+len(body)) + m + body + struct.pack('<H', sum(m+body) & 0xffff)
def w(n, d):
    n = os.path.join(T, n)
    os.makedirs(os.path.dirname(n), exist_ok=True)
    open(n, 'wb').write(d if isinstance(d, bytes) else d.encode())
    return n
def r(n): return open(os.path.join(T, n), 'rb').read()
def has(n): return os.path.exists(os.path.join(T, n))
def cli(*a, inp=b''):
    return subprocess.run([B] + list(a), cwd=T, input=inp, capture_output=True, timeout=60)
def txt(body, name='PROG', ty='Program', dest='RAM', mode='accessible', model='TI-84+'):
    return '\\n'.join([name, 'c', ty, dest, mode, model]) + '\\n' + body
def body(d): return d[74:-2]
PY
cat > "$T/demo.py" <<'PY'
from lib import *
%s
PY
python3 "$T/demo.py" "$T" "$B"
'''
BUGS = []
def bug(id, prop, file, edits, demo, needs, what):
    BUGS.append((id, prop, file, edits, demo, needs, what))

exec(open('/verif/tools/bugs.py').read())

def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests(d):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=d + '/target', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
    p = subprocess.run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '-q'], cwd=d, env=e, capture_output=True, text=True)
    return p.returncode, p.stdout[-1500:] + p.stderr[-1500:]
def demo(sd):
    p = subprocess.run(['bash', sd + '/demo.sh'], cwd=W, capture_output=True, text=True, timeout=300, env=dict(os.environ, DEMO_B=W))
    return p.returncode, (p.stdout + p.stderr)[-600:]
only = sys.argv[1:]
if not os.path.exists(W): sh('cp -a /repo ' + W)
for id, prop, file, edits, dm, needs, what in BUGS:
    if only and id not in only: continue
    sd = '/verif/seeded/' + id
    sh('git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD; git -C %s reset -q --hard FETCH_HEAD' % (W, W, W))
    os.makedirs(sd, exist_ok=True)
    script = dm if dm.startswith('#!') else '#!/bin/bash\n' + LIB % dm
    open(sd + '/demo.sh', 'w').write(script)
    # for trying out only: the copy's binary
    sc = script.replace('B=/repo/target/debug/ti-tools', 'B=%s/target/debug/ti-tools' % W).replace('/repo', W)
    td = '/tmp/plantdemo'; os.makedirs(td, exist_ok=True); open(td + '/demo.sh', 'w').write(sc)
    c0, o0 = tests(W); d0, e0 = demo(td)
    ok = True
    for f, a, b in ([(file, x, y) for x, y in edits]):
        p = os.path.join(W, f); t = open(p).read()
        n = t.count(a)
        if n == 0: print(id, 'PATTERN NOT FOUND', a[:60]); ok = False; break
        t = t.replace(a, b, 1); open(p, 'w').write(t)
    if not ok: continue
    d = sh('git -C %s diff' % W).stdout
    open(sd + '/patch.diff', 'w').write(d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(sd + '/meta.json', 'w'), indent=1)
    c1, o1 = tests(W); d1, e1 = demo(td)
    good = c0 == 0 and c1 == 0 and d0 == 0 and d1 != 0
    print(id, 'GOOD' if good else 'BAD', 'tests', c0, c1, 'demo', d0, d1, '' if good else (e0 + o1 + e1)[-1500:])
    if not good: shutil.rmtree(sd)
sh('git -C %s checkout -q -- .' % W)
