"""proofonly.py DIR: what the proof alone would say of the tree in DIR (by hand)"""
import os, sys, tempfile, shutil
os.environ['TI_REPO'] = sys.argv[1]
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check as c
wd = tempfile.mkdtemp(prefix='po-')
pr = c.prove(wd)
base = c.load_baseline()
props = c.fn_props(pr.fns)
for f, b in base['functions'].items():
    props.setdefault(f, b.get('props', []))
by = {f['path']: f for f in pr.fns}
print('ok', pr.ok, pr.why, 'demoted', pr.demoted, 'missing', pr.missing, 'verified', pr.verified, 'errors', pr.errors)
al = set()
for x in pr.failed:
    ps = [p for p in ['C%02d' % i for i in range(1, 23)] if c.relevant(x, p, props)]
    lean = x['kind'] == 'failed' and x['in_crate'] and c.lean_alarm(by[x['function']], base['functions'].get(x['function']))
    print('ALARM' if lean else 'open ', x['function'], x['message'][:60], '|', x['clause'][:100], '|', x['source'][:80], ps)
    if lean:
        al |= set(ps)
print('alarms', sorted(al))
shutil.rmtree(wd)
