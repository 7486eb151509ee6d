"""Development tool for planted bugs (no check uses it).

seedtool.py build [ID...]   make patch.diff/demo.sh/main.go/meta.json from bugs_*.py, and confirm each one:
                            applies, base lines only, builds, stable tests pass, demo 0 clean / nonzero patched
seedtool.py run ID PROPS    build the harness against a scratch copy with the patch and run those checks
"""
import sys, os, subprocess, shutil, json, tempfile, glob, importlib.util, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDED = os.environ.get('SEEDED') or os.path.join(VERIF, 'seeded')
ANY = bool(os.environ.get('SEEDED'))  # elsewhere: changes of fix lines count too
WORK = '/tmp/seedwork'
BASE = 'e9d0923'
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin',
           GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

DEMO = '''#!/bin/bash
# run with cwd = the repository, after a build: 0 when the property holds for the demonstrated case
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/zz_demo/main.go":"%%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" %s -o "$tmp/demo" ./zz_demo || exit 2
timeout 120 "$tmp/demo"
'''
PRE = '''// demonstration, see meta.json
package main

import (
%s)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf("FAIL: "+format+"\\n", args...)
		os.Exit(1)
	}
}

'''

def bugs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'bugs_*.py'))):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in out, b['id']
            if b.get('drop'): continue
            out[b['id']] = b
    return out

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def scratch(name):
    d = os.path.join(WORK, name)
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(WORK, exist_ok=True)
    rc, o = sh(f'git clone -q /repo {d}')
    assert rc == 0, o
    return d

def tests(d):
    logs = tempfile.mkdtemp(dir=WORK)
    sh(f'go test -json -vet=off -count=1 -timeout 5m ./... > {logs}/root.log', d)
    sh(f'go test -json -vet=off -count=1 -timeout 5m ./... > {logs}/tests.log', d + '/tests')
    sh(f"python3 /opt/vp/results.py {logs}/o.json 'gojson:{logs}/*.log'")
    o = json.load(open(logs + '/o.json')); shutil.rmtree(logs)
    return STABLE - set(o['passed'])

def gen(b, d):
    for path, pairs in b['edits'].items():
        s = open(f'{d}/{path}').read()
        for old, new in pairs:
            assert s.count(old) == 1, f"{b['id']}: {path}: {s.count(old)} matches of {old!r}"
            s = s.replace(old, new)
        open(f'{d}/{path}', 'w').write(s)
    sh('gofmt -w ' + ' '.join(p for p in b['edits']), d)
    rc, diff = sh('git diff', d)
    return diff

def blame_ok(d, diff):
    # removed lines must exist, and all come from the original repository
    f = None; n = 0; removed = []
    for l in diff.split('\n'):
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif l.startswith('-') and not l.startswith('---'):
            n += 1; removed.append((f, n))
        elif l.startswith(' '): n += 1
    if not removed: return 'no removed lines'
    bad = []
    for f, n in removed:
        rc, o = sh(f'git blame -s -L{n},{n} HEAD -- {f}', d)
        if BASE not in o: bad.append(f'{f}:{n} {o.strip()}')
    good = len(removed) - len(bad)
    if good == 0: return 'only fix lines removed: ' + '; '.join(bad)
    return ('partly: ' + '; '.join(bad)) if bad else ''

def one(b):
    id = b['id']
    d = scratch(id)
    try:
        out = os.path.join(SEEDED, id)
        tmpout = tempfile.mkdtemp(dir=WORK)
        imps = sorted({'fmt', 'os'} | set(b.get('imports', [])))
        src = PRE % (''.join(f'\t"{i}"\n' for i in imps) + '\n\tphp "github.com/trim21/go-phpserialize"\n') + b['demo'].strip() + '\n'
        open(tmpout + '/main.go', 'w').write(src)
        sh(f'gofmt -w {tmpout}/main.go')
        open(tmpout + '/demo.sh', 'w').write(DEMO % b.get('flags', '')); os.chmod(tmpout + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(tmpout + '/meta.json', 'w'), indent=1)
        rc, o = sh(f'bash {tmpout}/demo.sh', d)
        if rc != 0: return id, 'demo fails on clean: ' + o[-600:]
        diff = gen(b, d)
        if not diff.strip(): return id, 'empty diff'
        bl = blame_ok(d, diff)
        if bl and not bl.startswith('partly') and not ANY: return id, 'blame: ' + bl
        rc, o = sh('go build ./... && go vet ./ ./internal/...', d)
        if rc != 0: return id, 'build/vet: ' + o[-600:]
        miss = tests(d)
        if miss: return id, f'{len(miss)} stable tests fail: ' + ', '.join(sorted(miss)[:4])
        rc, o = sh(f'bash {tmpout}/demo.sh', d)
        if rc == 0: return id, 'demo passes on patched'
        open(tmpout + '/patch.diff', 'w').write(diff)
        if os.path.exists(out): shutil.rmtree(out)
        shutil.copytree(tmpout, out)
        return id, f'OK rc={rc} {bl} | ' + o.strip().split('\n')[0][:110]
    except AssertionError as e:
        return id, 'ASSERT ' + str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(tmpout, ignore_errors=True)

def run(id, props, seed='1', tier='quick', patch=None):
    d = scratch('run-' + id + '-' + seed)
    try:
        patch = patch or os.path.join(SEEDED, id, 'patch.diff')
        rc, o = sh(f'git apply {patch}', d)
        assert rc == 0, o
        mod = open(VERIF + '/harness/go.mod').read().replace('=> /repo', '=> ' + d)
        vb = d + '/zz_vb'; os.makedirs(vb)
        open(vb + '/alt.mod', 'w').write(mod)
        shutil.copy(VERIF + '/harness/go.sum', vb + '/alt.sum')
        shutil.copy(VERIF + '/known_findings.txt', vb)
        os.makedirs(vb + '/replays', exist_ok=True); os.makedirs(vb + '/evidence', exist_ok=True)
        rc, o = sh(f'go build -modfile={vb}/alt.mod -trimpath -o {vb}/vmon . && ( [ "{" ".join(props)}" = "${{x:-}}" ] || true )', VERIF + '/harness')
        if rc != 0: return id, {'build': o[-300:]}
        if 'C11' in props:
            rc, o = sh(f'CGO_ENABLED=1 go build -race -modfile={vb}/alt.mod -trimpath -o {vb}/vmon-race .', VERIF + '/harness')
        res = {}
        for p in props:
            bin = vb + '/vmon-race' if p == 'C11' else vb + '/vmon'
            rc, o = sh(f'VERIF_SEED={seed} VERIF_TIER={tier} VMON_PLAIN={vb}/vmon timeout 900 {bin} check -prop {p} -verif {vb}', timeout=1000)
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            res[p] = 'CAUGHT' if rc == 1 and any(f'property={p} ' in l for l in v) else ('quiet' if rc == 0 and not v else f'rc={rc} ' + o[-200:])
        return id, res
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == 'build':
        bs = bugs(); ids = sys.argv[2:] or [i for i in bs if not os.path.exists(f'{SEEDED}/{i}/patch.diff')]
        with ThreadPoolExecutor(6) as ex:
            for id, r in ex.map(lambda i: one(bs[i]), ids): print(id, r, flush=True)
    elif sys.argv[1] == 'run':
        ids = sys.argv[2].split(','); 
        have = sorted(os.listdir(SEEDED))
        ids = have if ids == ['all'] else [h for i in ids for h in have if h == i or h.startswith(i + '-')]
        arg = sys.argv[3] if len(sys.argv) > 3 else 'own'
        seed = sys.argv[4] if len(sys.argv) > 4 else '1'
        def go(i):
            own = json.load(open(f'{SEEDED}/{i}/meta.json'))['property']
            props = [own] if arg == 'own' else ([f'C{n:02d}' for n in range(1, 28) if n != 11 or own == 'C11'] if arg == 'all' else arg.split(','))
            return run(i, props, seed) + (own,)
        with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
            for id, res, own in ex.map(go, ids):
                print(id, 'own', own, res.get(own), '| others:', [p for p in res if p != own and res[p] == 'CAUGHT'], [f'{p}:{res[p][:150]}' for p in res if res[p] not in ('CAUGHT', 'quiet')], flush=True)
