#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turns bug descriptions into /verif/seeded/<id>/.

A description is B(id, property, [(file, old, new), ...], needs, breaks, demo). Each is confirmed in a
scratch copy of /repo: it builds, the stable tests pass, the demonstration succeeds without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile, re
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..', '..'))
HERE = os.path.dirname(os.path.abspath(__file__))
bugs = []
def B(id, prop, edits, needs, breaks, demo): bugs.append((id, prop, edits, needs, breaks, demo))
PRE = open(os.path.join(HERE, 'prelude.rs')).read()
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
scratch = tempfile.mkdtemp(prefix='plant.')
S = os.path.join(scratch, 'repo')
subprocess.check_call(['cp', '-a', '/repo', S])
env = dict(os.environ, CARGO_NET_OFFLINE='true')
base = json.load(open('/opt/vp/BASELINE.json'))
def run(cmd, cwd): 
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
def passed(out): return set(re.findall(r'^test (\S+) \.\.\. ok', out, re.M))
rc, out = run(['bash', '-c', '. /opt/vp/env.sh; export CARGO_TARGET_DIR=$PWD/target OPENSSL_NO_VENDOR=1; cargo test --workspace --offline'], S)
ok0 = passed(out)
print('baseline tests', len(ok0))
try:
    for id, prop, edits, needs, breaks, demo in bugs:
        if want and id not in want: continue
        subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])
        d = os.path.join(scratch, 'd'); shutil.rmtree(d, ignore_errors=True); os.mkdir(d)
        shutil.copy(os.path.join(HERE, 'demo.sh'), d)
        open(os.path.join(d, 'demo.rs'), 'w').write(PRE + demo)
        rc, out = run(['bash', os.path.join(d, 'demo.sh')], S)
        if rc != 0: print(id, 'REJECT demo fails on the unchanged tree', rc, out[-1500:]); continue
        bad = False
        for f, old, new in edits:
            p = os.path.join(S, f); t = open(p).read()
            if t.count(old) != 1: print(id, 'REJECT', f, 'occurrences', t.count(old), repr(old[:60])); bad = True; break
            open(p, 'w').write(t.replace(old, new))
        if bad: continue
        rc, out = run(['bash', '-c', '. /opt/vp/env.sh; export CARGO_TARGET_DIR=$PWD/target OPENSSL_NO_VENDOR=1; cargo build --workspace --offline && cargo test --workspace --offline --no-fail-fast'], S)
        if ok0 - passed(out): print(id, 'REJECT build/tests', rc, sorted(ok0 - passed(out)), out[-1500:]); continue
        rc, out = run(['bash', os.path.join(d, 'demo.sh')], S)
        if rc == 0 or rc in (3, 4): print(id, 'REJECT demo with the change', rc, out[-1500:]); continue
        diff = subprocess.check_output(['git', '-C', S, 'diff'], text=True)
        o = os.path.join(V, 'seeded', id); shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        print(id, 'kept; demo exit', rc, out.strip().splitlines()[-1][:160] if out.strip() else '', flush=True)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
