"""Planted bugs: each entry is (id, property, file, old, new, needs, what_it_breaks, demo cases).
Writes /verif/seeded/<id>/ after confirming in a scratch copy that the change builds, passes the
tests and is shown by its demonstration.  Never used by a check."""
import json, os, subprocess, sys, shutil, concurrent.futures as cf

HEAD = '''#!/bin/bash
# exit 0 when nxas does what the property says on the cases below
N="$PWD/_build/nxas"
D=$(mktemp -d)
trap 'rm -r -- "$D"' EXIT
rc=0
no() { echo "FAIL: $*"; rc=1; }
# ok TEXT WORDS: TEXT assembles to exactly these words
ok() {
    printf '%b' "$1" > "$D/a.s"
    timeout 60 "$N" "$D/a.s" -o "$D/o" 2> "$D/e" || { no "rejected: $1"; return; }
    local got; got=$(od -An -v -tx8 "$D/o" | tr '\\n' ' ' | tr -s ' ' | sed 's/^ //;s/ $//')
    [ "$got" = "$2" ] || no "$1: got $got, expected $2"
}
# bad TEXT L:C: TEXT is rejected with status 1 at this line and column
bad() {
    printf '%b' "$1" > "$D/a.s"
    timeout 60 "$N" "$D/a.s" -o "$D/o2" 2> "$D/e"
    local s=$?
    [ $s = 1 ] || { no "$1: status $s, expected 1"; return; }
    [ -z "$2" ] || sed 's/\\x1b\\[[0-9;]*m//g' "$D/e" | grep -q "a\\.s:$2: error" || no "$1: $(cat "$D/e"), expected $2"
}
'''
S = []
def seed(i, prop, f, old, new, needs, breaks, demo):
    S.append(dict(id=i, prop=prop, edits=[(f, old, new)] if isinstance(f, str) else f if old is None else None,
                  needs=needs, breaks=breaks, demo=demo))
exec(open(os.path.join(os.path.dirname(__file__), 'seedlist.py')).read())

def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)

def build(root):
    return sh(f"cmake -S {root} -B {root}/_build -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO='-O1 -g' && ninja -j2 -C {root}/_build")

def fill(demo):
    sys.path.insert(0, '/verif')
    from spec import oracle
    out = []
    for l in demo.split('\n'):
        if l.startswith('ok ') and l.endswith(' XX'):
            q = l[3:-3].strip()
            t = subprocess.run(['bash', '-c', "printf '%b' " + q], capture_output=True, text=True).stdout
            r = oracle.assemble(t)
            if not r.ok: raise Exception(f'{t}: {r.why} {r.pos}')
            l = f"ok {q} '" + ' '.join('%016x' % w for w in r.words) + "'"
        out.append(l)
    return '\n'.join(out)

def one(s):
    w = f"/tmp/seeds/{s['id']}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    try:
        fill(s['demo'])
        sh(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.email=a@b -c user.name=n commit -qm x")
        for f, old, new in s['edits']:
            t = open(f"{w}/{f}").read()
            if t.count(old) != 1: return s['id'], f"old text occurs {t.count(old)} times"
            open(f"{w}/{f}", 'w').write(t.replace(old, new))
        diff = sh(f"git -C {w} diff -- src").stdout
        d = f"{w}/demo"; os.makedirs(d)
        open(d + '/demo.sh', 'w').write(HEAD + fill(s['demo']).strip('\n') + '\nexit $rc\n')
        r = sh(f"bash {d}/demo.sh", cwd='/repo')
        if r.returncode: return s['id'], 'demo fails on the unchanged tree: ' + r.stdout + r.stderr
        b = build(w)
        if b.returncode: return s['id'], 'does not build: ' + b.stdout[-1500:]
        t = sh(f"ctest --test-dir {w}/_build -j4 | grep 'tests passed'")
        if '100%' not in t.stdout: return s['id'], 'tests: ' + t.stdout
        r = sh(f"bash {d}/demo.sh", cwd=w)
        if r.returncode == 0: return s['id'], 'demo passes with the change'
        o = f"/verif/seeded/{s['id']}"; os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        shutil.copy(d + '/demo.sh', o + '/demo.sh'); os.chmod(o + '/demo.sh', 0o755)
        json.dump({"property": s['prop'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        return s['id'], 'ok: ' + r.stdout.strip().replace('\n', ' | ')[:150]
    except Exception as e:
        return s['id'], repr(e)
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == '__main__':
    want = sys.argv[1:]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, [s for s in S if not want or s['id'] in want]):
            print(i, m, flush=True)
