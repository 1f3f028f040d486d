"""What each property's check runs, and what each analysis yields."""
import api
import arrays
import bits
import flags
import ops
import same
import typed
from contracts import OPS, bag_type, node_kind
from ir import Crate, short
from sem import all_contracts
from verify import Verifier, fixpoint

KIND_PROPS = {
    'job': ('C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C13', 'C14', 'C17'),
    'find': ('C01', 'C13', 'C14'),
    'insert': ('C01', 'C03', 'C04', 'C13', 'C14', 'C15'),
    'remove': ('C01', 'C03', 'C04', 'C13', 'C14'),
    'visit': ('C12', 'C13', 'C14'),
    'lift': ('C01', 'C04', 'C13', 'C14'),
}
KNOWN_CONTRACTS = 60


def result():
    return {'reports': [], 'undecided': [], 'obl': {}, 'units': {}, 'samples': {}}


def about(cr, c):
    """what a function under contract does, whatever it is called: known findings are identified by it"""
    ins = [cr.ty(i) for i in cr.bodies[c.bid]['inputs'] or []]
    who = [node_kind(t) or ('list of entries' if bag_type(t) else short(t[1])) for t in ins if node_kind(t) or bag_type(t) or (t[0] == 'adt' and short(t[1]) in OPS)]
    return '%s(%s)' % (c.kind, ', '.join(who))


_fix = {}


def solved(dump):
    if dump not in _fix:
        cr = Crate(dump)
        cs = all_contracts(cr)
        _fix[dump] = (cr, cs) + fixpoint(cr, cs)
    return _fix[dump]


def core(dump, repo):
    cr, cs, shapes, res = solved(dump)
    out = result()
    callers = {}
    for b, v in res.items():
        for u in v.used:
            callers.setdefault(u, set()).add(b)
    # a helper that does not meet the contract its signature suggests is judged by what its callers make of it
    dropped = {}
    bad = [b for b, v in sorted(res.items()) if v.reports]
    for b in bad:
        cl = callers.get(b, set()) - {b}
        if not cl or b in res[b].used:
            continue
        rest = {x: c for x, c in cs.items() if x != b}
        ok = True
        for c in sorted(cl):
            v = Verifier(cr, rest, shapes, inline=(b,))
            v.verify(c)
            have = {(r['rule'], r['msg']) for r in res[c].reports}
            if any((r['rule'], r['msg']) not in have for r in v.reports) or v.undecided:
                ok = False
                break
        if ok:
            dropped[b] = len(res[b].reports)
            for r in res[b].reports:
                res[b].excused = True
    edges = {b: dict(v.edges) for b, v in res.items()}
    for b, v in sorted(res.items()):
        if b not in dropped:
            for r in v.reports:
                out['reports'].append(dict(r, about=about(cr, cs[b])))
            for p, (n, ok) in v.obl.items():
                a = out['obl'].setdefault(p, [0, 0])
                a[0] += n
                a[1] += ok
        kp = KIND_PROPS[cs[b].kind]
        for w, sp, path in v.undecided:
            out['undecided'].append({'props': list(kp), 'fn': b, 'why': w, 'span': sp, 'path': list(path)})
        for p in v.obl:
            out['samples'].setdefault(p, []).append('%s (%s): %d ways to end, %d obligations for %s' % (b, cs[b].kind, v.exits, v.obl[p][0], p))
    for cyc in cycles(edges):
        f = cyc[0]
        out['reports'].append({'props': ['C14'], 'rule': 'recursion-never-ends', 'fn': f, 'span': edges[f][cyc[1 % len(cyc)]],
                               'msg': 'these functions can call each other on inputs that do not get smaller', 'path': cyc, 'detail': ' > '.join(cyc)})
    a = out['obl'].setdefault('C14', [0, 0])
    a[0] += len(edges)
    a[1] += len(edges)
    out['units']['core'] = {
        'functions under contract': len(cs), 'ways to end': sum(v.exits for v in res.values()), 'bodies in the crate': len(cr.bodies),
        'helpers judged through their callers': dropped, 'kinds': {k: sum(1 for c in cs.values() if c.kind == k) for k in KIND_PROPS},
        'calls without a smaller input': sum(len(e) for e in edges.values())}
    return out


API_PROPS = ('C01', 'C03', 'C05', 'C06', 'C07', 'C08', 'C10', 'C11', 'C12', 'C14', 'C15')


def collect(name, pairs, props, what):
    out = result()
    n, exits, skipped = 0, 0, []
    for bid, v in pairs:
        if getattr(v, 'skipped', False):
            skipped.append(bid)
            continue
        n += 1
        exits += v.exits
        out['reports'] += v.reports
        for p, (a, ok) in v.obl.items():
            x = out['obl'].setdefault(p, [0, 0])
            x[0] += a
            x[1] += ok
            out['samples'].setdefault(p, []).append('%s: %d ways to end, %d obligations for %s' % (bid, v.exits, a, p))
        for w, sp, path in v.undecided:
            out['undecided'].append({'props': list(props), 'fn': bid, 'why': w, 'span': sp, 'path': list(path)})
    out['units'][name] = {what: n, 'ways to end': exits, 'judged elsewhere': skipped}
    return out


def api_mod(dump, repo):
    """every public operation of the map and the set"""
    cr, cs, shapes, _ = solved(dump)
    return collect('api', api.analyse(cr, cs, shapes), API_PROPS, 'public operations')


def ops_mod(dump, repo):
    """the operation types and result types"""
    cr, cs, shapes, _ = solved(dump)
    return collect('ops', ops.analyse(cr, cs, shapes), ('C06', 'C07', 'C08', 'C10', 'C11'), 'operation types, constructors and conversions')


def bits_mod(dump, repo):
    """the bit-word traits for every word and the hasher words"""
    cr, cs, shapes, _ = solved(dump)
    return collect('bits', bits.analyse(cr, cs, shapes), ('C18', 'C14', 'C04'), 'word operations at each width')


def flags_mod(dump, repo):
    """how a hash is cut into positions, for every width of hash and branching and every depth"""
    cr, cs, shapes, _ = solved(dump)
    return collect('flags', flags.analyse(cr, cs, shapes), ('C04', 'C14'), 'functions over hashes at each width and depth')


def arrays_mod(dump, repo):
    """the bit-indexed arrays, for every word, every length and every position"""
    cr, cs, shapes, _ = solved(dump)
    return collect('arrays', arrays.analyse(cr, cs, shapes), ('C19', 'C14'), 'array functions and value sources')


def same_mod(dump, repo):
    """every clone and every comparison of the library's own types"""
    out = result()
    same.analyse(solved(dump)[0], out)
    return out


def typed_mod(dump, repo):
    """queries over every body, type and implementation"""
    out = result()
    typed.analyse(solved(dump)[0], out)
    return out


def cycles(edges):
    """one cycle per strongly connected component of the call graph restricted to calls on inputs of the same size"""
    out, done = [], set()
    for s in sorted(edges):
        if s in done:
            continue
        stack, seen = [(s, [s])], set()
        while stack:
            x, p = stack.pop()
            for y in sorted(edges.get(x, ())):
                if y == s:
                    out.append(p)
                    done |= set(p)
                    stack = []
                    break
                if y not in seen:
                    seen.add(y)
                    stack.append((y, p + [y]))
    return out


RUN = {'core': core, 'api': api_mod, 'ops': ops_mod, 'bits': bits_mod, 'flags': flags_mod, 'arrays': arrays_mod, 'same': same_mod, 'typed': typed_mod}

ASSUME = ['keys are well-behaved: equality is an equivalence, equal keys have equal hashes, the hash of a key never changes',
          'the reduction is combined as a multiset: the order of combination is not part of the property',
          'core, alloc, futures and the memory model behave as documented']
CORE_EXPLAIN = ('Abstract interpretation of the compiler\'s MIR of every function that takes part, over linear equalities between multisets of entries. '
                'Each function is analysed once against a contract derived from its signature, with its callees replaced by their contracts; loops by the '
                'linear relations every iteration preserves. A report names the function, the place and the way to end that breaks the contract.')


TYPED_EXPLAIN = ('Queries over the resolved program: the MIR of every body with every callee resolved, the type of every field reached from a collection, '
                 'the bounds of every implementation of a thread marker, the signature of every public function. A report names the construct that breaks the rule.')
SAME_EXPLAIN = ('Path-sensitive interpretation over terms of the MIR of every Clone and PartialEq implementation of the library\'s types (derived ones included): '
                'each way a clone can end must answer the term it was given; each way a comparison can end with true must imply the same collection, and '
                'comparing a collection with its clone must never end with false.')
TYPED_TECH = 'queries over resolved MIR, types, implementations and signatures (effect, ownership and raw-pointer origin analysis)'
SAME_TECH = 'path-sensitive term interpretation of the MIR of each clone and comparison'
TYPED_NOTE = ('Static, for the whole crate: every body, type and implementation is covered. The rules are sufficient conditions: safe code is trusted to be checked by the compiler, '
              'so only raw pointers, unsafe operations, unsafe implementations, interior mutability and public signatures are judged. Trusted: core, alloc and futures keep their documented promises.')


def P(mods, rule, explain=CORE_EXPLAIN, assume=ASSUME, technique=None, note=None):
    return {'modules': mods, 'rule': rule, 'explain': explain, 'assume': assume, 'technique': technique, 'note': note}


PROPS = {
    'C01': P(['core', 'api'], 'each way a find, insert or remove function can end: found/absent agrees with membership of the key, the new node holds exactly the old entries plus/minus the one named'),
    'C02': P(['typed', 'same', 'api'], 'no type stored in a collection has interior mutability the library reaches; no write through a raw or shared pointer to something shared; no public operation takes a collection by mutable reference; every clone is the same collection',
             TYPED_EXPLAIN + ' ' + SAME_EXPLAIN, technique=TYPED_TECH + '; ' + SAME_TECH, note=TYPED_NOTE),
    'C16': P(['typed'], 'each unsafe operation, raw-pointer dereference and unsafe implementation in the crate is one a rule justifies: what is referred to stays alive, nothing uninitialised is read, a thread marker requires it of all that is stored',
             TYPED_EXPLAIN, technique=TYPED_TECH, note=TYPED_NOTE),
    'C17': P(['typed', 'core', 'api'], 'each public function with a callback: a callback that produces keys is only reachable through unsafe, none gets mutable access to a key; each entry stored again keeps its own key object',
             TYPED_EXPLAIN + ' ' + CORE_EXPLAIN, technique=TYPED_TECH + '; ' + 'abstract interpretation of MIR for the key each entry is stored under'),
    'C20': P(['typed'], 'each external item any body, type or static of the crate resolves to belongs to core, alloc or a dependency that needs nothing else; no mutable or interior-mutable static, no thread local, no foreign function',
             TYPED_EXPLAIN, technique=TYPED_TECH, note=TYPED_NOTE),
    'C21': P(['same'], 'each way a comparison of collections or nodes can end: true only for the same collection or equal entries, and never false for a collection and its clone',
             SAME_EXPLAIN, technique=SAME_TECH),
    'C03': P(['core', 'api'], 'each node built: the size stored equals the number of entries of what is stored in it'),
    'C04': P(['core', 'bits', 'flags'], 'each branch built: every child sits at the position and depth its entries\' hashes designate, and positions and children correspond one to one in order'),
    'C05': P(['core', 'api', 'same'], 'each way a transform can end: unchanged is reported only if the answers are that side\'s entries, and always if every answer names that side'),
    'C06': P(['core', 'api', 'ops'], 'each way a transform or transmute can end: the entries consumed are exactly the input, the entries returned exactly the answers'),
    'C07': P(['core', 'api', 'ops'], 'each way a joint operation can end: every entry consumed once by the operation of its side, pairs only with equal keys, one-sided only where no equal key remains'),
    'C08': P(['core', 'api', 'ops'], 'each way a transform can end: the reduced value is the sum of the answers\' reductions, each once'),
    'C09': P(['core'], 'each way a function that branches on the strategy can end: the same contract holds under both'),
    'C10': P(['core', 'api', 'ops'], 'each call of a both-operation and each delegation: left entry first after undoing reversals, operations in their roles'),
    'C11': P(['api', 'ops', 'same'], 'each way a public operation can end: it is the node-level operation of that name on the root with the arguments in their roles; each operation wrapper built on the way answers what the user\'s operation answers'),
    'C12': P(['core', 'api'], 'each way a visit can end: the entries handed to the operation are exactly the node\'s'),
    'C13': P(['core'], 'the contracts of the collision-list and single-entry functions, and the hash equality of every list built'),
    'C14': P(['core', 'api', 'bits', 'flags', 'arrays'], 'each panic, unwrap, index and arithmetic overflow the analysis can reach; each loop and each call cycle on inputs of the same size'),
    'C18': P(['bits'], 'each way a bit-word operation can end, for each word type: the answer is the one the set of bit positions gives, errors are the documented ones, nothing wraps or panics'),
    'C19': P(['arrays'], 'each way an array function can end: the value at every position, before and after, is the one the word and the arguments designate; refusals are exactly the documented ones'),
    'C15': P(['core', 'api'], 'each way an insert can end: the references handed back lie inside the new node and hold the inserted key and value'),
}

TECH = 'abstract interpretation of MIR against per-function contracts (linear multiset equalities, path-sensitive, modular)'
NOTE = ('Static, for all inputs: every way each analysed function can end is checked against its contract. Trusted: the models of core/alloc/futures calls, '
        'the trait laws of keys and bit words (C18, C19 check the library\'s own), the MIR dump. A function the analysis cannot decide is listed as undecided and not claimed.')
NOT_APPLICABLE = {
    'C22': 'a bound on running time and allocation under a spreading hash quantifies over the distribution of hash values; no static argument in reach bounds it',
    'C23': 'stack use per recursion level and the length of collision lists are run-time quantities; the recursion over a list is visible but whether it exhausts a stack is not decidable from the source',
}
