"""check.py PROPERTY [--repo DIR]: decides one property for the crate's current source and writes its evidence.

Exit 0: nothing outside the known findings contradicts the property; 1: a VIOLATION line; 3: the source could not be analysed."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import modules  # noqa: E402


def content_key(repo):
    h = hashlib.sha256()
    for base, exts in ((repo, None), (HERE, '.py'), (os.path.join(ROOT, 'driver'), '.rs'), (os.path.join(ROOT, 'witness'), None)):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('.git', 'target', '__pycache__'))
            for f in sorted(fs):
                if exts and not f.endswith(exts):
                    continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b'\0')
                try:
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()[:32]


def get_dump(repo, cache):
    out = os.path.join(cache, 'dump.json')
    if not os.path.exists(out):
        fd, tmp = tempfile.mkstemp(dir=cache, suffix='.json')
        os.close(fd)
        r = subprocess.run([os.path.join(ROOT, 'run_dump.sh'), repo, tmp])
        if r.returncode != 0:
            os.unlink(tmp)
            print('the crate could not be analysed: it does not build', file=sys.stderr)
            sys.exit(3)
        os.replace(tmp, out)
    return out


def run_module(name, dump, repo, cache):
    p = os.path.join(cache, name + '.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    t = time.time()
    r = modules.RUN[name](dump, repo)
    r['wall_s'] = round(time.time() - t, 2)
    fd, tmp = tempfile.mkstemp(dir=cache, suffix='.tmp')
    with os.fdopen(fd, 'w') as f:
        json.dump(r, f)
    os.replace(tmp, p)
    return r


def known():
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    for line in open(p):
        line = line.rstrip('\n')
        if line.startswith('finding: '):
            prop, key, what = [x.strip() for x in line[len('finding: '):].split(' | ', 2)]
            out.append((prop, key, what))
    return out


def key_of(r):
    return '%s:%s:%s' % (r['fn'].replace('hash_trie::', ''), r['rule'], r['msg'])


def finding_of(r):
    """what a known finding is identified by: what the function does rather than its name, the rule, and the failing case"""
    return '%s: %s: %s' % (r.get('about') or r['fn'].replace('hash_trie::', ''), r['rule'], r['msg'])


def main():
    args = sys.argv[1:]
    repo = '/repo'
    if '--repo' in args:
        i = args.index('--repo')
        repo = args[i + 1]
        del args[i:i + 2]
    props = args
    t0 = time.time()
    cache = os.path.join(ROOT, 'build', 'cache', content_key(repo))
    os.makedirs(cache, exist_ok=True)
    dump = get_dump(repo, cache)
    rc = 0
    for prop in props:
        rc = max(rc, one(prop, dump, repo, cache, t0))
        t0 = time.time()
    sys.exit(rc)


def one(prop, dump, repo, cache, t0):
    spec = modules.PROPS[prop]
    reports, undec, obl, units, samples, floors, assume = {}, {}, [0, 0], {}, [], [], list(spec.get('assume', ()))
    for m in spec['modules']:
        r = run_module(m, dump, repo, cache)
        for x in r['reports']:
            if prop in x['props']:
                reports.setdefault(key_of(x), x)
        for x in r['undecided']:
            if prop in x['props']:
                undec.setdefault((x['fn'], x['why'], x['span']), x)
        n, ok = r['obl'].get(prop, (0, 0))
        obl[0] += n
        obl[1] += ok
        units[m] = r['units']
        samples += r.get('samples', {}).get(prop, [])[:6]
        if n == 0:
            floors.append(m)
    if len(floors) == len(spec['modules']):
        print('property %s: none of the code it is about was found (%s)' % (prop, ', '.join(floors)), file=sys.stderr)
        return 3
    kn = [(k, w) for p, k, w in known() if p == prop]
    shown = set()
    viol = []
    for k, x in sorted(reports.items()):
        hit = [w for kk, w in kn if kk == finding_of(x)]
        if hit:
            if hit[0] not in shown:
                shown.add(hit[0])
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
            continue
        viol.append((k, x))
    tier = os.environ.get('VERIF_TIER', 'quick')
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': spec['explain'],
            'rule': spec['rule'],
            'obligations': obl[0], 'discharged': obl[1],
            'analysed': units,
            'undecided': [{'function': x['fn'], 'place': x['span'], 'why': x['why']} for x in undec.values()][:40],
            'known_findings': sorted(shown),
            'samples': samples or [k for k, _ in viol][:5] or ['%d obligations over %s' % (obl[0], ', '.join(spec['modules']))],
            'exhaustive': not undec,
        },
        'assumptions': assume + ['a function listed under "undecided" was not decided by this run and nothing is claimed about it'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for x in list(undec.values())[:10]:
        print('not decided: %s at %s: %s' % (x['fn'], x['span'], x['why']))
    if viol:
        rp = os.path.join(ROOT, 'build', 'replay-%s.txt' % prop)
        with open(rp, 'w') as f:
            for k, x in viol:
                f.write('%s\n  where: %s\n  function: %s\n  rule: %s\n  what: %s\n  detail: %s\n  analysed path: %s\n\n' % (
                    k, x['span'], x['fn'], x['rule'], x['msg'], x.get('detail'), ' > '.join(x.get('path') or [])))
        for k, x in viol[:20]:
            print('%s: %s [%s] in %s%s' % (x['span'], x['msg'], x['rule'], x['fn'], ' (%s)' % x['detail'] if x.get('detail') else ''))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('property %s: %d obligations over %s, %d discharged, %d undecided places' % (prop, obl[0], ', '.join(spec['modules']), obl[1], len(undec)))
    return 0


if __name__ == '__main__':
    main()
