"""Builds /verif/seeded/<id> from a list of edits: each is kept only if it applies, builds, passes the repository's tests, and its demonstration
fails with it. Usage: tools_seed.py LIST.py [id…]; LIST.py defines BUGS = [(id, property, [(file, old, new[, nth])], needs, breaks, select, features)].
--check also runs the property's check on the changed copy."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
WORK = '/tmp/seedwork'


def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    ns = {}
    exec(open(args[0]).read(), ns)
    only = args[1:]
    if not os.path.isdir(WORK):
        subprocess.run(['cp', '-a', '/repo', WORK], check=True)
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable_pass') or [])
    for bug in ns['BUGS']:
        bid, prop, edits, needs, breaks, select, feats = bug
        if only and bid not in only:
            continue
        out = os.path.join(ROOT, 'seeded', bid)
        if os.path.exists(os.path.join(out, 'patch.diff')) and '--force' not in sys.argv and not only:
            continue
        sh(['git', 'fetch', '-q', '/repo', 'HEAD'], WORK)
        sh(['git', 'reset', '-q', '--hard', 'FETCH_HEAD'], WORK)
        bad = None
        for e in edits:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else None
            p = os.path.join(WORK, f)
            s = open(p).read()
            n = s.count(old)
            if n == 0 or (n > 1 and nth is None):
                bad = '%s: %d matches for %r' % (f, n, old[:60])
                break
            if nth is None:
                s = s.replace(old, new)
            else:
                i = -1
                for _ in range(nth + 1):
                    i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            open(p, 'w').write(s)
        if bad:
            print(bid, 'EDIT', bad)
            continue
        diff = sh(['git', 'diff'], WORK).stdout
        r = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '8'], WORK)
        if r.returncode:
            print(bid, 'TESTS fail', [l for l in r.stdout.splitlines() if 'error' in l or 'FAILED' in l][:4])
            continue
        tmp = '/tmp/seed/' + bid
        os.makedirs(tmp, exist_ok=True)
        d = open(os.path.join(ROOT, 'seedlib', 'demo.sh')).read().replace('SELECT', select).replace('FEATURES', feats)
        cust = os.path.join(ROOT, 'seedlib', 'custom', bid + '.sh')
        if os.path.exists(cust):
            d = open(cust).read()
        open(os.path.join(tmp, 'demo.sh'), 'w').write(d)
        shutil.copy(os.path.join(ROOT, 'seedlib', 'demo.rs'), tmp)
        r = sh(['bash', os.path.join(tmp, 'demo.sh')], WORK)
        if r.returncode in (0, 8, 9):
            print(bid, 'DEMO passes' if r.returncode == 0 else 'DEMO does not build', r.stdout[-300:] if r.returncode else '')
            continue
        why = [l for l in r.stdout.splitlines() if l.strip()][:3]
        r0 = None
        if '--base' in sys.argv:
            r0 = sh(['bash', os.path.join(tmp, 'demo.sh')], '/repo')
            if r0.returncode:
                print(bid, 'DEMO fails on HEAD')
                continue
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        for f in ('demo.sh',) if os.path.exists(cust) else ('demo.sh', 'demo.rs'):
            shutil.copy(os.path.join(tmp, f), out)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        print(bid, prop, 'KEPT', why[:2])
        if '--check' in sys.argv:
            r = sh(['python3', os.path.join(ROOT, 'ana', 'check.py'), prop, '--repo', WORK], ROOT, 900)
            print('    check', r.returncode, [l for l in r.stdout.splitlines() if l][-3:])
        sys.stdout.flush()


main()
