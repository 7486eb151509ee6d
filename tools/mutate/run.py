#!/usr/bin/env python3
"""Mutation analysis: python3 run.py tests|checks WORKDIR

tests:  every mutant that compiles and passes the test suite goes to WORKDIR/alive.jsonl
checks: runs the checks (a share of the quick tier) on those; what none catches goes to WORKDIR/missed.jsonl
Everything is built through an overlay; /repo is not touched."""
import json, os, queue, re, subprocess, sys, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
ENV = dict(os.environ, PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
W = sys.argv[2]
os.makedirs(W, exist_ok=True)

def load(name):
    p = os.path.join(W, name)
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []

def key(m): return f"{m['File']}:{m['Start']}:{m['End']}:{m['New']}"

def overlay(m, d):
    src = open(m['File'], 'rb').read()
    new = src[:m['Start']] + m['New'].encode() + src[m['End']:]
    f = os.path.join(d, 'm.go')
    open(f, 'wb').write(new)
    o = os.path.join(d, 'o.json')
    json.dump({'Replace': {m['File']: f}}, open(o, 'w'))
    return o

def sh(cmd, cwd, t):
    try:
        return subprocess.run(['bash', '-c', 'ulimit -v 16000000; ulimit -f 2000000; exec timeout -k 2 %d %s' % (t, cmd)], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
    except Exception:
        return 99

def test(m):
    with tempfile.TemporaryDirectory(dir=W) as d:
        o = overlay(m, d)
        if sh(f'go build -overlay {o} ./...', '/repo', 100): return 'nocompile'
        if sh(f'go test -vet=off -timeout 20s -overlay {o} ./...', '/repo', 90): return 'killed'
        if sh(f'go test -vet=off -timeout 20s -overlay {o} ./...', '/repo/tests', 90): return 'killed'
        return 'alive'

def tests():
    files = sorted(f for f in glob.glob('/repo/*.go') + glob.glob('/repo/internal/*/*.go') if not f.endswith('_test.go'))
    subprocess.check_call(['go', 'build', '-o', W + '/mutate', HERE + '/main.go'], env=ENV)
    ms = [json.loads(l) for l in subprocess.check_output([W + '/mutate'] + files, env=ENV, cwd=HERE).splitlines()]
    if os.environ.get('RARE'): # seed,count
        subprocess.check_call(['go', 'build', '-o', W + '/rare', HERE + '/rare/main.go'], env=ENV)
        files = [f for f in files if '/errors/' not in f]
        ms = [json.loads(l) for l in subprocess.check_output([W + '/rare'] + os.environ['RARE'].split(',') + files, env=ENV, cwd='/repo').splitlines()]
    done = {key(m) for m in load('tested.jsonl')}
    ms = [m for m in ms if key(m) not in done]
    with ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex, open(W + '/tested.jsonl', 'a') as t, open(W + '/alive.jsonl', 'a') as a:
        for m, r in zip(ms, ex.map(test, ms)):
            m['tests'] = r
            t.write(json.dumps(m) + '\n'); t.flush()
            if r == 'alive':
                a.write(json.dumps(m) + '\n'); a.flush()

DECODE = 'C05 C03 C27 C25 C08 C15 C06 C26 C16 C24 C20 C19 C23 C18 C04 C07 C09 C22 C21 C12'.split()
ENCODE = 'C02 C27 C16 C17 C14 C18 C07 C13 C26 C22 C10 C01 C12 C21'.split()

def silly(m):
    """Changes that no behaviour described by a property can show."""
    src = open(m['File']).read()
    line = src.splitlines()[m['Line'] - 1]
    if '/errors/' in m['File']:
        return True
    if m['Kind'] == 'const' and re.match(r'\s*return (nil, )?0, .*(err|Err)', line) and m['Old'] == '0':
        return True
    if m['Kind'] in ('const', 'operator') and 'errors.Err' in line and 'return' in line:
        return True
    if m['File'].endswith('unmarshal_php.go') and m['Start'] > src.index('func unquoteBytes'):
        return True
    if m['Kind'] in ('case', 'char') and "case '-', '0'" in line:
        return True
    return False

def check(m, slot):
    shares = [float(x) for x in os.environ.get('SHARE', '0.02').split(',')] # of the quick tier, one after another
    with tempfile.TemporaryDirectory(dir=W) as d:
        o = overlay(m, d)
        if sh(f'go build -overlay {o} -o {d}/vmon .', VERIF + '/harness', 200):
            return None
        subprocess.run(['cp', VERIF + '/known_findings.txt', d])
        order = DECODE if 'decoder' in m['File'] else ENCODE if 'encoder' in m['File'] else DECODE + ENCODE
        for share, p in ((s, p) for s in shares for p in order):
            n = max(8, int(CASES[p] * share))
            r = subprocess.run(['taskset', '-c', f'{2*slot%8},{2*slot%8+1}', 'timeout', '-k', '5', '300', d + '/vmon', 'check', '-prop', p, '-verif', d], env=dict(ENV, VERIF_SEED='1', VMON_CASES=str(n)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if b'VIOLATION property=' in r.stdout:
                m['by'] = p
                return m
    m['by'] = None
    return m

def checks():
    done = {key(m) for m in load('caught.jsonl') + load('missed.jsonl')}
    todo = [m for m in load(os.environ.get('FROM', 'alive.jsonl')) if key(m) not in done and not silly(m)]
    print(len(todo), 'to do', flush=True)
    slots = queue.Queue()
    J = int(os.environ.get('J', '4'))
    for i in range(J): slots.put(i)
    def one(m):
        s = slots.get()
        try: return check(m, s)
        finally: slots.put(s)
    with ThreadPoolExecutor(J) as ex, open(W + '/caught.jsonl', 'a') as c, open(W + '/missed.jsonl', 'a') as x:
        for m in ex.map(one, todo):
            if m:
                f = c if m['by'] else x
                f.write(json.dumps(m) + '\n'); f.flush()

if sys.argv[1] == 'tests':
    tests()
else:
    CASES = {}
    for f in glob.glob(VERIF + '/harness/mon/*.go'):
        for a, b in re.findall(r'ID: "(C\d\d)", Quick: (\d+)', open(f).read()):
            CASES[a] = int(b)
    checks()
