#!/usr/bin/env python3
"""Runs the check of one property:  check.py C07 [--tier quick|thorough]
check.py --baseline   rewrites baseline.json from the present tree (run by hand only)
check.py --setup      builds the tools once (warms nothing that a later check relies on)

Thread A: vx extracts the crate in /repo, splices the contracts of contracts/ in and Verus decides
every obligation.  Thread B: the harness in replay/ runs the property's oracle against the real
code; it supplies failing inputs for refuted obligations and the bounded stand-in for functions the
verifier does not reach."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TI_REPO', '/repo')
WORK = os.path.join(V, '.work')
T0 = time.time()

KNOWN_HEADS = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied',
               'assertion failed', 'assertion not satisfied', 'possible arithmetic underflow/overflow',
               'possible division by zero', 'decreases not satisfied', 'loop ensures not satisfied',
               'loop invariant not satisfied', 'recommendation not met', 'possible bit shift',
               'could not prove termination', 'unable to prove', 'cannot prove', 'constructed value may fail',
               'fuel', 'possible truncation', 'requires not satisfied', 'cannot show')
UNDECIDED = ('resource limit', 'rlimit', 'timed out', 'timeout', 'canceled', 'solver')


def log(*a):
    print('[%5.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def run(cmd, cwd=None, env=None, timeout=600, out=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return 124, o.decode('utf8', 'replace'), er.decode('utf8', 'replace')
    return p.returncode, o.decode('utf8', 'replace'), er.decode('utf8', 'replace')


# ------------------------------------------------------------------ thread A: the proof
def cargo(dirname, target, args, env=None, timeout=500):
    e = {'CARGO_TARGET_DIR': os.path.join(WORK, target), 'CARGO_NET_OFFLINE': 'true'}
    e.update(env or {})
    return run(['cargo', 'build', '--offline', '-q'] + args, cwd=dirname, env=e, timeout=timeout)


class Proof:
    def __init__(self):
        self.ok = False            # Verus ran to the end
        self.why = ''
        self.fns = []              # map entries
        self.demoted = {}          # function -> first front-end message
        self.failed = []           # failing obligations
        self.obl = {}              # function -> number of obligations
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.missing = []
        self.vacuity = None
        self.assume_scan = {}


def fn_at(fns, line):
    for f in fns:
        if f['start'] <= line <= f['end'] and f['end'] > f['start']:
            return f
    return None


def air_counts(d, fns):
    """obligations per function: the assertions of the queries Verus sends to the solver"""
    out = {}
    for n in sorted(os.listdir(d)):
        if not n.endswith('.air'):
            continue
        cur, inq, head = None, False, False
        for l in open(os.path.join(d, n), errors='replace'):
            if l.startswith(';; Function-'):
                head = l.split()[-1]
                cur = head if l.startswith(';; Function-Def') or l.startswith(';; Function-Term') else None
            elif l.startswith(';; verified.rs:') and cur:
                m = re.match(r';; verified\.rs:(\d+):', l)
                f = fn_at(fns, int(m.group(1)))
                cur = f['path'] if f else head
            if l.startswith('(check-valid'):
                inq = True
            elif l.startswith('(') or l.startswith(';;'):
                inq = False
            if inq and cur and l.strip() == '(assert':
                out[cur] = out.get(cur, 0) + 1
    return out


def norm(s):
    s = re.sub(r'//.*', '', s)
    s = re.sub(r'/\*.*?\*/', '', s)
    return re.sub(r'\s+', ' ', s).strip().rstrip(',')


def prove(wd, threads=8, extra=(), vac=False):
    r = Proof()
    rc, o, e = cargo(os.path.join(V, 'vx'), 'vx-target', [])
    if rc != 0:
        r.why = 'vx does not build: ' + e[-400:]
        return r
    vx = os.path.join(WORK, 'vx-target', 'debug', 'vx')
    src, mp = os.path.join(wd, 'verified.rs'), os.path.join(wd, 'map.json')
    noclosure = set()
    for rnd in range(8):
        cmd = [vx, '--repo', REPO, '--contracts', os.path.join(V, 'contracts'), '--out', src, '--map', mp]
        if r.demoted:
            cmd += ['--demote', ','.join(sorted(r.demoted))]
        if noclosure:
            cmd += ['--noclosure', ','.join(sorted(noclosure))]
        rc, o, e = run(cmd, timeout=60)
        if rc != 0:
            r.why = 'extraction failed: ' + (e or o)[-400:]
            return r
        m = json.load(open(mp))
        r.fns, r.missing = m['functions'], m['missing']
        lines = open(src).read().split('\n')
        if any('fn json_symmetric() -> bool { false }' in l for l in lines):
            # serde attributes vx cannot judge: what is read back is unknown, the proof decides nothing there
            for f in r.fns:
                f['unsure'] = any('json' in c.lower() for c in f['calls'])
        logd = os.path.join(wd, 'air')
        shutil.rmtree(logd, ignore_errors=True)
        rc, o, e = run(['verus', 'verified.rs', '--crate-name', 'v', '--num-threads', str(threads),
                        '--multiple-errors', '4', '--output-json', '--time-expanded', '--triggers-mode', 'silent',
                        '--log-dir', logd, '--log', 'air', '--error-format=json'] + list(extra), cwd=wd, timeout=600)
        if rc == 124:
            r.why = 'Verus did not finish in 600 s'
            return r
        diags = []
        for l in e.split('\n'):
            if l.startswith('{'):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        errs = [d for d in diags if d.get('level') == 'error' and d.get('spans')]
        front = []
        fails = []
        for d in errs:
            msg = d['message']
            sp = d['spans']
            prim = [s for s in sp if s['is_primary']] or sp
            if any(u in msg.lower() for u in UNDECIDED):
                fails.append((d, 'undecided'))
            elif any(msg.startswith(h) or h in msg for h in KNOWN_HEADS) and not d.get('code'):
                fails.append((d, 'failed'))
            else:
                front.append((d, prim))
        js = None
        for k in [x.start() for x in re.finditer(r'^\{', o, re.M)]:
            try:
                js, _ = json.JSONDecoder().raw_decode(o[k:])
                break
            except ValueError:
                pass
        vr = (js or {}).get('verification-results', {})
        if front or not js or 'verified' not in vr or vr.get('encountered-vir-error'):
            new = False
            for d, prim in front:
                done = False
                for s in [x for x in d['spans'] if x['is_primary']] + [x for x in d['spans'] if not x['is_primary']]:
                    ln = s['line_start']
                    mm = re.findall(r'/\*vxclosure (\S+)', lines[ln - 1]) if ln <= len(lines) else []
                    c = [x for x in mm if x not in noclosure]
                    if c:
                        noclosure.update(c)
                        new = done = True
                        break
                    f = fn_at(r.fns, ln)
                    if f and f['path'] not in r.demoted:
                        r.demoted[f['path']] = d['message'][:300]
                        new = done = True
                        break
                if not done:
                    r.why = 'front end: ' + d['message'][:300]
            if not new:
                r.why = r.why or 'Verus gave no result: ' + (e[-300:] if not front else front[0][0]['message'][:300])
                return r
            continue
        r.ok = True
        r.verified, r.errors = vr['verified'], vr['errors']
        try:
            r.smt_ms = js['times-ms']['smt']['total']
        except KeyError:
            pass
        r.obl = air_counts(logd, r.fns)
        for d, kind in fails:
            prim = [s for s in d['spans'] if s['is_primary']]
            oth = [s for s in d['spans'] if not s['is_primary']]
            post = 'postcondition' in d['message']
            # the clause that failed, and the place where it failed
            clause = prim[0]['line_start'] if (post and prim) else (oth[0]['line_start'] if oth else 0)
            at = oth[0]['line_start'] if (post and oth) else (prim[0]['line_start'] if prim else 0)
            f = fn_at(r.fns, at)
            ctext = lines[clause - 1] if clause else ''
            span = [s for s in d['spans'] if s['line_start'] == clause]
            if span:
                ctext = ' '.join(lines[span[0]['line_start'] - 1: span[0]['line_end']])
            tags = re.findall(r'C\d\d', ' '.join(re.findall(r'//#[C0-9 ]+', ctext)))
            spec = None
            if f is None:
                for k in range(at, 0, -1):
                    mm = re.search(r'fn (\w+)', lines[k - 1])
                    if mm:
                        spec = 'contracts::' + mm.group(1)
                        break
            shim = False
            if clause and 'precondition' in d['message']:
                cf = fn_at(r.fns, clause)
                shim = cf is None or not cf['contract']
            r.failed.append({
                'function': f['path'] if f else spec, 'in_crate': f is not None, 'message': d['message'],
                'kind': kind, 'line': at, 'source': lines[at - 1].strip()[:300] if at else '',
                'clause': norm(ctext)[:400], 'tags': tags, 'panic': shim or 'arithmetic' in d['message']
                or 'division' in d['message'], 'rendered': (d.get('rendered') or '')[:3000]})
        break
    else:
        r.why = 'front-end errors left after 8 rounds'
    for n in ('admit', 'assume(', 'assume_specification', 'external_body', 'axiom fn', 'external_fn_specification',
              'exec_allows_no_decreases_clause'):
        r.assume_scan[n] = sum(1 for l in lines if n in l and not l.strip().startswith('//'))
    shutil.rmtree(os.path.join(wd, 'air'), ignore_errors=True)
    return r


# ------------------------------------------------------------------ thread B: the real code
class Real:
    def __init__(self):
        self.report = None
        self.why = ''
        self.crash = None


def real(prop, wd, tier, seed, secs):
    r = Real()
    bins = os.path.join(WORK, 'real')
    res = {}

    def b(name, *a, **k):
        res[name] = cargo(*a, **k)
    th = [threading.Thread(target=b, args=('replay', os.path.join(V, 'replay'), 'replay-target', ['--release'])),
          threading.Thread(target=b, args=('styles', os.path.join(V, 'replay', 'styles'), 'styles-target', ['--release'])),
          threading.Thread(target=b, args=('cli', REPO, 'cli-target', ['--release', '--bins']),
                           kwargs={'env': {'CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS': 'true',
                                           'CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS': 'true'}})]
    for t in th:
        t.start()
    for t in th:
        t.join()
    if res['cli'][0] != 0:
        r.why = 'the program does not build: ' + res['cli'][2][-300:]
    if res['replay'][0] != 0:
        r.why = 'the harness does not build against this tree: ' + res['replay'][2][-600:]
        return r
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
    d = tempfile.mkdtemp(prefix='ti-check-', dir=base)
    os.chmod(d, 0o755)
    try:
        sc = os.path.join(d, 's')
        os.mkdir(sc)
        os.chmod(sc, 0o777)
        exe = os.path.join(d, 'ti-tools')
        shutil.copy(os.path.join(WORK, 'cli-target', 'release', 'ti-tools'), exe)
        os.chmod(exe, 0o755)
        st = os.path.join(d, 'styles')
        if res['styles'][0] == 0:
            shutil.copy(os.path.join(WORK, 'styles-target', 'release', 'styles'), st)
            os.chmod(st, 0o755)
        rep = os.path.join(wd, 'report.json')
        if os.path.exists(rep):
            os.unlink(rep)
        words = os.path.join(d, 'words.json')
        w = {'ints': [], 'texts': []}
        try:
            w = new_words()
        except Exception as e:  # only a hint for the generators
            log('words: %r' % (e,))
        json.dump(w, open(words, 'w'))
        if w['ints'] or w['texts']:
            log('new in the source:', json.dumps(w)[:300])
        rc, o, e = run([os.path.join(WORK, 'replay-target', 'release', 'replay'), '--prop', prop, '--bin', exe, '--styles', st,
                        '--dir', sc, '--seed', str(seed), '--tier', tier, '--secs', str(secs), '--out', rep,
                        '--words', words, '--sheet', os.path.join(V, 'oracle', 'sheet.json'), '--defs', os.path.join(V, 'oracle', 'defs.json')],
                       timeout=secs + 120)
        if os.path.exists(rep):
            r.report = json.load(open(rep))
        if r.report is None:
            if rc < 0 or rc in (134, 139):
                r.crash = 'the harness was ended by signal %d inside the library: %s' % (-rc, e[-500:])
            else:
                r.why = 'harness exit %d: %s' % (rc, (e or o)[-400:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


# ------------------------------------------------------------------ what the program mentions
LIT = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(\#*)"(.*?)"\1|b?"((?:[^"\\]|\\.)*)"|b?'((?:[^'\\\n]|\\(?:x..|u\{[^}]*\}|.)))'|\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?\b|\b(?:as\s+)?([ui](?:8|16))\b(?:(?<=as\s..)|(?<=as\s...)|(?=::))''', re.S)


def unescape(s):
    def f(m):
        c = m.group(1)
        if c[0] == 'x':
            return chr(int(c[1:], 16))
        if c[0] == 'u':
            return chr(min(int(c[2:-1].replace('_', ''), 16), 0xFFFD))
        return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(c, c if c.strip() else '')
    return re.sub(r'\\(x..|u\{[0-9a-fA-F_]+\}|\s+|.)', f, s, flags=re.S)


def literals():
    """How often each number and text stands in the source."""
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if not f.endswith('.rs'):
                continue
            try:
                s = open(os.path.join(d, f), encoding='utf-8', errors='replace').read()
            except OSError:
                continue
            for m in LIT.finditer(s):
                if m.group(2) is not None:
                    k = 't:' + m.group(2)
                elif m.group(3) is not None:
                    k = 't:' + unescape(m.group(3))
                elif m.group(4) is not None:
                    k = 't:' + unescape(m.group(4))
                elif m.group(5) is not None:
                    try:
                        k = 'i:%d' % int(m.group(5).replace('_', ''), 0)
                    except ValueError:
                        k = 'i:%d' % int(re.sub(r'\D', '', m.group(5)))
                elif m.group(6) is not None:
                    # a conversion to or a limit of a small number type
                    k = 'i:%d' % {'u8': 256, 'i8': 128, 'u16': 65536, 'i16': 32768}[m.group(6)]
                else:
                    continue
                out[k] = out.get(k, 0) + 1
    return out


def new_words():
    """Numbers and texts that stand in the source more often than in the baseline: candidates for
    inputs on which the changed code may act differently."""
    was = load_baseline().get('literals', {})
    ints, texts = [], []
    for k, n in sorted(literals().items()):
        if n <= was.get(k, 0):
            continue
        if k[0] == 'i':
            x = int(k[2:])
            if x < 2 ** 63:
                ints.append(x)
                if x < 16:
                    ints.append(1 << x)
        elif len(k) < 300:
            t = k[2:]
            texts += [t] + [w for w in re.findall(r'[^{}\s]+', t) if w != t][:8]
            if len(t) == 1:
                ints.append(ord(t))
            else:
                ints.append(len(t.encode('utf-8', 'replace')))
    ints, texts = sorted(set(ints))[:60], sorted(set(texts))[:60]
    return {'ints': ints, 'texts': [t.encode('utf-8', 'replace').decode() for t in texts]}


# ------------------------------------------------------------------ decision
def load_baseline():
    p = os.path.join(V, 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {'functions': {}, 'failed': []}


def fhash(f):
    return hashlib.sha256((f['shape'] + '|' + ','.join(f['names']) + '|' + f['skeleton']).encode()).hexdigest()[:16]


def key(x):
    return [x['function'], x['message'], x['clause'], norm(x['source'])]


def relevant(x, prop, props):
    if x['tags']:
        return prop in x['tags']
    if x['panic']:
        return prop == ('C20' if (x['function'] or '').startswith('styles') else 'C18')
    return prop in props.get(x['function'], [])


def fn_props(fns):
    return {f['path']: f['props'] for f in fns}


def known_findings():
    out = {}
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def lean_alarm(f, b):
    """May a failed obligation of this function be reported without a failing input?  Only when the
    proof cannot have failed for its form alone."""
    if b is None or f['status'] != 'verified' or b.get('status') != 'verified' or f.get('unsure'):
        return False
    if fhash(f) == b['hash']:
        return True
    return (not f['hints'] and not b['hints'] and f['skeleton'] == b['skeleton'] == ''
            and set(f['calls']) <= set(b['calls']))


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        k = args.index('--tier')
        tier = args[k + 1]
        del args[k:k + 2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(WORK, exist_ok=True)
    if args and args[0] == '--setup':
        a = threading.Thread(target=lambda: cargo(os.path.join(V, 'vx'), 'vx-target', []))
        a.start()
        cargo(os.path.join(V, 'replay'), 'replay-target', ['--release'])
        a.join()
        return 0
    if args and args[0] == '--baseline':
        wd = tempfile.mkdtemp(prefix='base-', dir=WORK)
        pr = prove(wd)
        shutil.rmtree(wd, ignore_errors=True)
        if not pr.ok:
            print(pr.why)
            return 1
        fs = {f['path']: {'hash': fhash(f), 'status': f['status'], 'skeleton': f['skeleton'], 'hints': f['hints'],
                          'calls': sorted(set(f['calls'])), 'contract': f['contract'], 'props': f['props']} for f in pr.fns}
        json.dump({'functions': fs, 'failed': sorted(key(x) for x in pr.failed), 'demoted': sorted(pr.demoted),
                   'literals': literals()},
                  open(os.path.join(V, 'baseline.json'), 'w'), indent=1, sort_keys=True)
        print('functions', len(fs), 'failed', len(pr.failed), 'demoted', pr.demoted, 'missing', pr.missing)
        return 0
    prop = args[0]
    wd = tempfile.mkdtemp(prefix=prop + '-', dir=WORK)
    try:
        return check(prop, tier, seed, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def open_question(pr, prop):
    """Is something of this property left open by the proof that was discharged on the baseline?"""
    base = load_baseline()
    if not pr.ok:
        return True
    props = fn_props(pr.fns)
    known = {tuple(k) for k in base['failed']}
    if any(relevant(x, prop, props) for x in pr.failed if tuple(key(x)) not in known):
        return True
    gone = (set(pr.demoted) - set(base['demoted'])) | {m.split()[0] for m in pr.missing}
    bp = base['functions']
    return any(prop in (props.get(f) or bp.get(f, {}).get('props', [])) for f in gone)


def check(prop, tier, seed, wd):
    box = {}
    secs = 300 if tier == 'quick' else 900

    def A():
        try:
            box['p'] = prove(wd, threads=6 if tier == 'quick' else 8)
        except Exception as e:  # a tool failure is undecided, never an alarm
            p = Proof()
            p.why = 'internal: %r' % (e,)
            box['p'] = p
        log('proof done', box['p'].ok, box['p'].why[:200])

    def B():
        try:
            box['r'] = real(prop, wd, tier, seed, secs)
        except Exception as e:
            q = Real()
            q.why = 'internal: %r' % (e,)
            box['r'] = q
        log('real code done', box['r'].why[:200])
    ta, tb = threading.Thread(target=A), threading.Thread(target=B)
    ta.start(); tb.start(); ta.join(); tb.join()
    pr, re_ = box['p'], box['r']
    audit = (re_.report or {}).get('audit') or {}
    more = 0
    if tier == 'quick' and re_.report and not re_.report['failures'] and not re_.crash and open_question(pr, prop):
        # obligations of this property are open and no input has settled them: search longer
        t1 = time.time()
        for k in range(1, 4):
            left = 240 - (time.time() - t1)
            if left < 20:
                break
            q = real(prop, wd, 'thorough', seed + 1000 * k, int(left))
            if q.report:
                more += q.report.get('evaluations', 0)
                re_.report['evaluations'] += q.report.get('evaluations', 0)
                re_.report['failures'] += q.report['failures']
                re_.report['known'] += q.report['known']
            re_.crash = re_.crash or q.crash
            if re_.report['failures'] or re_.crash:
                break
        log('longer search:', more, 'evaluations')
    if pr.ok and audit.get('failures'):
        # what the contracts assume about data or library does not hold here: nothing counts as proved
        pr.ok, pr.why = False, 'assumptions refuted by the audit: ' + '; '.join(audit['failures'][:3])
        log(pr.why)
    base = load_baseline()
    props = fn_props(pr.fns)
    for f, b in base['functions'].items():
        props.setdefault(f, b.get('props', []))
    known = {tuple(k) for k in base['failed']}
    bykey = {f['path']: f for f in pr.fns}
    newf, oldf = [], []
    for x in pr.failed:
        (oldf if tuple(key(x)) in known else newf).append(x)
    rel = [x for x in newf if relevant(x, prop, props)]
    alarms = [x for x in rel if x['kind'] == 'failed' and x['in_crate'] and
              lean_alarm(bykey[x['function']], base['functions'].get(x['function']))]
    mine = [f for f in pr.fns if prop in f['props']]
    bad = {x['function'] for x in pr.failed if relevant(x, prop, props) or prop in props.get(x['function'], [])}
    # findings
    kf = known_findings()
    viol, shown = [], []
    if re_.report:
        viol += re_.report['failures']
        for k in re_.report['known']:
            if (prop, k['id']) in kf:
                shown.append(k)
            else:
                viol.append({'what': 'known id %s without an entry in known-findings.txt' % k['id'], 'detail': k['detail']})
    if re_.crash:
        viol.append({'what': re_.crash, 'detail': ''})
    for i in sorted({k['id'] for k in shown}):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[(prop, i)]))
    # evidence
    obl = disch = 0
    per = []
    for f in mine:
        n = pr.obl.get(f['path'], 0)
        bad_n = len({(x['message'], x['clause'], x['line']) for x in pr.failed if x['function'] == f['path']})
        st = f['status']
        if f['path'] in pr.demoted:
            st = 'bounded (outside the verifier on this tree: %s)' % pr.demoted[f['path']]
        elif bad_n:
            st = 'bounded (%d obligations not discharged)' % bad_n
        elif f['trusted']:
            st = 'trusted: ' + f['trusted']
        if st == 'verified':
            st = 'proved'
        obl += n
        disch += max(0, n - bad_n)
        per.append({'function': f['path'], 'file': f['file'], 'line': f['line'], 'obligations': n, 'status': st})
    theorems = {k: n for k, n in sorted(pr.obl.items()) if re.match(r'v::theorems::thm_%s(_|$)' % prop.lower(), k)}
    lemmas = sorted(k for k in pr.obl if re.match(r'v::(spec|vx|tab|enc|txt|show|edit|convert|search|cmdline|theorems)::', k))
    lem_n = sum(pr.obl[k] for k in lemmas)
    rp = re_.report or {}
    assumptions = [
        'the contracts of contracts/00_vx.rs on the standard library, serde and the operating system are assumed, not proved',
        'vx edits the source only as listed in DESIGN.md (extraction)',
        'command-line arguments are Unicode text, and there are fewer than 2^28 of them',
        'the file system changes only through this program while it runs',
        'Verus, its encoding and Z3 are trusted; stack depth and memory exhaustion are outside the proof',
    ]
    for f in per:
        if f['status'].startswith('trusted'):
            assumptions.append('%s: %s' % (f['function'], f['status']))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': obl, 'discharged': disch if pr.ok else 0,
            'checker_cmd': 'verus verified.rs --crate-name v (Verus %s, Z3 back end) on the file vx extracts from %s/src' % (
                '0.2026.09.13.671956e', REPO),
            'trusted_base': ['Verus and Z3', 'vx extraction', 'contracts/00_vx.rs (assumed library contracts)', 'rustc'],
            'functions': per,
            'lemma_obligations': lem_n, 'theorems': theorems,
            'crate_functions_verified': pr.verified, 'crate_functions_failing': pr.errors,
            'solver_ms': pr.smt_ms,
            'proof_ran': pr.ok, 'proof_note': pr.why,
            'demoted': pr.demoted, 'contracts_without_function': pr.missing,
            'undischarged': [{k: x[k] for k in ('function', 'message', 'clause', 'kind', 'source')} for x in pr.failed
                             if relevant(x, prop, props) or prop in props.get(x['function'], [])],
            'assumption_scan': pr.assume_scan, 'assumption_audit': audit,
            'evaluations': rp.get('evaluations', 0), 'distinct_nontrivial': rp.get('distinct', 0),
            'rule': 'bounded stand-in and counterexample search: the property\'s oracle run on generated inputs against the '
                    'real program and library; distinct counts different inputs',
            'samples': [str(s)[:400] for s in rp.get('samples', [])][:6],
            'real_code_note': re_.why, 'out_of_time': rp.get('out_of_time', False),
        },
        'assumptions': assumptions, 'wall_s': 0, 'violations': 0,
    }
    code = 0
    rdir = os.path.join(WORK, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, prop + '.json')
    if viol:
        json.dump({'property': prop, 'failures': viol[:20],
                   'failed_obligations': [{k: x[k] for k in ('function', 'message', 'clause', 'source', 'rendered')} for x in rel],
                   'rerun': 'VERIF_SEED=%d python3 %s %s --tier %s' % (seed, os.path.join(V, 'check.py'), prop, tier)},
                  open(rfile, 'w'), indent=1)
        for v in viol[:5]:
            log('FAIL', v['what'][:600], str(v['detail'])[:600])
        for x in rel[:5]:
            log('failed obligation', x['function'], x['message'], '::', x['clause'])
        print('VIOLATION property=%s replay=%s' % (prop, rfile))
        ev['violations'] = len(viol)
        code = 1
    elif alarms:
        json.dump({'property': prop, 'failed_obligations':
                   [{k: x[k] for k in ('function', 'message', 'clause', 'source', 'rendered')} for x in alarms],
                   'note': 'the obligation was discharged on the unchanged tree; no failing input was found by the search'},
                  open(rfile, 'w'), indent=1)
        for x in alarms[:5]:
            log('failed obligation', x['function'], x['message'], '::', x['clause'])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rfile))
        ev['violations'] = len(alarms)
        code = 1
    else:
        for x in rel:
            log('undecided obligation', x['function'], x['message'], '::', x['clause'][:200])
    ev['wall_s'] = round(time.time() - T0, 1)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    p = os.path.join(V, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(p + '.tmp', p)
    log('%s: obligations %d discharged %d, undischarged relevant %d (new %d), evaluations %d' % (
        prop, obl, disch, len(ev['coverage']['undischarged']), len(rel), rp.get('evaluations', 0)))
    return code


if __name__ == '__main__':
    sys.exit(main())
