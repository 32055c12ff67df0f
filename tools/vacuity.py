"""Shows that no contract is vacuous (by hand; about 100 s): vx --probe puts an assertion of an unknown truth at every
function end, return and loop end; every one has to be refuted.  Lists those which are not."""
import concurrent.futures, json, os, re, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp()
subprocess.run(['cargo', 'build', '-q', '--offline'], cwd=V + '/vx', env={**os.environ, 'CARGO_TARGET_DIR': V + '/.work/vx-target'}, check=True)
subprocess.run([V + '/.work/vx-target/debug/vx', '--repo', '/repo', '--contracts', V + '/contracts', '--out', d + '/verified.rs', '--map',
                d + '/map.json', '--probe'], check=True)
p = subprocess.run(['verus', 'verified.rs', '--crate-name', 'v', '--num-threads', '8', '--multiple-errors', '300', '--rlimit', '40',
                    '--triggers-mode', 'silent'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
L = open(d + '/verified.rs').read().split('\n')
probes = [i + 1 for i, l in enumerate(L) if 'vx_arb(' in l and 'uninterp' not in l]
hit = {int(m[1]) for m in re.finditer(r'error: assertion failed\n\s+--> verified.rs:(\d+):', p.stdout)}
rl = {int(m[1]) for m in re.finditer(r'rlimit[^\n]*\n\s+--> verified.rs:(\d+)', p.stdout)}
def probe_alone(i):
    """the probe on line i again, without the others"""
    f = next(f for f in FNS if f['start'] <= i <= f['end'])
    w = '%s/p%d' % (d, i)
    os.mkdir(w)
    open(w + '/verified.rs', 'w').write('\n'.join(re.sub(r'if vx_arb\(\d+\) \{ assert\(false\); \}', '', l) if j + 1 != i else l for j, l in enumerate(L)))
    mod, fn = f['path'].rsplit('::', 1)
    q = subprocess.run(['verus', 'verified.rs', '--crate-name', 'v', '--num-threads', '1', '--verify-only-module', mod, '--verify-function', fn,
                        '--triggers-mode', 'silent'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return i if 'error: assertion failed\n' in q.stdout and 'verified.rs:%d:' % i in q.stdout else None
FNS = json.load(open(d + '/map.json'))['functions']
over = [f for f in FNS if any(f['start'] <= i <= f['end'] for i in rl)]
again = [i for i in probes if i not in hit and any(f['start'] <= i <= f['end'] for f in over)]
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    hit |= {i for i in ex.map(probe_alone, again) if i}
print('probes', len(probes), 'refuted', len([i for i in probes if i in hit]))
for i in probes:
    if i not in hit:
        fn = next((L[j].strip() for j in range(i - 1, 0, -1) if re.match(r'\s*(pub )?(proof )?fn ', L[j])), '?')
        print('not refuted:', fn[:60], '|', L[i].strip()[:90])
for i in rl:
    print('resource limit:', L[i - 1].strip()[:100])
subprocess.run(['/bin/rm', '-rf', d])
