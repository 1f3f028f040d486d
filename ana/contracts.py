"""Recognises, from resolved signatures alone, the functions that take part in the collection-level contracts.
Nothing here depends on function names; only on parameter types, trait bounds and result types."""
from ir import short

RESULT_JOBS = {
    'MNodeTransformResult', 'LNodeTransformResult', 'SNodeTransformResult',
    'MNodeTransmuteResult', 'LNodeTransmuteResult', 'SNodeTransmuteResult',
    'MNodeJointTransformResult', 'LNodeJointTransformResult',
}
OPS = {'MapTransform', 'MapJointTransform', 'MapTransmute', 'SetTransform', 'SetJointTransform', 'SetTransmute'}
INSERTS = {'InsertResult', 'CNodeInsertResult', 'LNodeInsertResult', 'SNodeInsertResult'}
REMOVES = {'RemoveResult', 'CNodeRemoveResult', 'LNodeRemoveResult', 'SNodeRemoveResult'}
NODES = {'MNode', 'CNode', 'LNode', 'SNode'}


def is_adt(t, *names):
    return t[0] == 'adt' and short(t[1]) in names


def strip_ref(t):
    """&T, Arc<T>, Box<T>, Pin<T> -> T"""
    while True:
        if t[0] in ('ref', 'ptr'):
            t = t[2]
        elif is_adt(t, 'Arc', 'Box', 'Pin', 'Rc') and t[2]:
            t = t[2][0]
        else:
            return t


def node_kind(t):
    t = strip_ref(t)
    if t[0] == 'adt' and short(t[1]) in NODES:
        return short(t[1])
    return None


def is_future(t):
    t = strip_ref(t)
    return t[0] in ('dyn', 'alias', 'coroutine') and 'Future' in str(t[1]) or (t[0] == 'alias' and 'opaque' in str(t[1])) or t[0] == 'coroutine'


def async_output(cr, bid):
    """result type of an async fn: type of local 0 of its coroutine body"""
    for c in cr.children.get(bid, []):
        b = cr.bodies[c]
        if b.get('async') or any(cr.ty(x)[0] == 'coroutine' for x in b['body']['locals'][1:2]):
            return cr.ty(b['body']['locals'][0])
    return None


def fn_bounds(cr, b):
    """param name -> tuple of argument types of its Fn bound"""
    out = {}
    for p in b.get('preds') or []:
        st = cr.ty(p[0])
        if st[0] == 'param' and p[1] and short(p[1]) in ('Fn', 'FnMut', 'FnOnce') and len(p[2]) > 1:
            a = cr.ty(p[2][1])
            if a and a[0] == 'tuple':
                out.setdefault(st[1], a[1])
    return out


class Contract:
    def __init__(self, kind, bid):
        self.kind, self.bid = kind, bid

    def __repr__(self):
        return '<%s %s>' % (self.kind, {k: v for k, v in self.__dict__.items() if k not in ('kind', 'out')})


def bag_type(t):
    """&mut Vec<(&K,&V)>"""
    if t[0] == 'ref' and t[1] and is_adt(t[2], 'Vec'):
        e = t[2][2][0]
        if e[0] == 'tuple' and len(e[1]) == 2 and all(x[0] == 'ref' for x in e[1]):
            return e
    return None


def classify(cr, bid):
    b = cr.bodies[bid]
    if b['kind'] not in ('Fn', 'AssocFn') or b.get('in_trait'):
        return None
    ins = [cr.ty(i) for i in b['inputs'] or []]
    out = cr.ty(b['output'])
    isasync = False
    if is_future(out):
        o = async_output(cr, bid)
        if o is None:
            return None
        out, isasync = o, True
    fb = fn_bounds(cr, b)
    o = short(out[1]) if out[0] == 'adt' else None
    if o in RESULT_JOBS:
        c = Contract('job', bid)
        c.isasync, c.out = isasync, out
        c.nodes, c.ops, c.reduce, c.depth, c.par, c.bag = [], [], None, None, None, None
        for i, t in enumerate(ins):
            if t[0] == 'ref' and not t[1] and node_kind(t):
                if c.bag is not None:
                    return None
                c.nodes.append(i)
            elif bag_type(t):
                if c.bag is not None or len(c.nodes) != 1:
                    return None
                c.bag = i
            elif t[0] == 'adt' and short(t[1]) in OPS and len(t[2]) == 2:
                f = t[2][1]
                args = fb.get(f[1]) if f[0] == 'param' else None
                if args is None:
                    return None
                c.ops.append((i, short(t[1]), args))
            elif t[0] == 'param' and t[1] in fb and len(fb[t[1]]) == 2 and fb[t[1]][0] == fb[t[1]][1] and c.reduce is None:
                c.reduce = i
                c.rty = fb[t[1]][0][2] if fb[t[1]][0][0] == 'ref' else fb[t[1]][0]
            elif t == ('int', 'usize') and c.depth is None:
                c.depth = i
            elif is_adt(t, 'ParallelismStrategy') and c.par is None:
                c.par = i
            else:
                return None
        n = len(c.nodes) + (1 if c.bag is not None else 0)
        if n == 1:
            if len(c.ops) != 1 or len(c.ops[0][2]) != 2:
                return None
            if c.depth is not None:
                return None
            c.both = None
        elif n == 2:
            if len(c.ops) != 3 or len(c.ops[0][2]) != 4 or len(c.ops[1][2]) != 2 or len(c.ops[2][2]) != 2:
                return None
            c.both = c.ops[0]
        else:
            return None
        if o.startswith('MNodeJ') or o.startswith('LNodeJ'):
            c.fam = 'JTT'
        elif n == 1:
            c.fam = 'T1' if 'Transform' in o else 'U1'
        elif 'Transmute' in o:
            c.fam = 'JUU'
        else:
            c.fam = 'JTU' if c.ops[1][1] == 'MapTransform' else 'JUT'
        return c
    if o == 'FindResult' and len(ins) >= 2 and node_kind(ins[0]):
        c = Contract('find', bid)
        c.out = out
        c.node, c.key, c.flag = 0, None, None
        for i, t in enumerate(ins[1:], 1):
            if t[0] == 'ref' and t[2][0] == 'param' and c.key is None:
                c.key = i
            elif is_flag_opt(t) and c.flag is None:
                c.flag = i
            else:
                return None
        return c if c.key else None
    if o in INSERTS and len(ins) >= 3 and node_kind(ins[0]):
        c = Contract('insert', bid)
        c.out = out
        c.node, c.key, c.value, c.flag, c.replace = 0, None, None, None, None
        for i, t in enumerate(ins[1:], 1):
            if t[0] == 'param' and c.key is None:
                c.key = i
            elif t[0] == 'param' and c.value is None:
                c.value = i
            elif is_flag_opt(t) and c.flag is None:
                c.flag = i
            elif t[0] == 'bool' and c.replace is None:
                c.replace = i
            else:
                return None
        return c if c.value is not None and c.replace is not None else None
    if o in REMOVES and len(ins) >= 2 and node_kind(ins[0]):
        c = Contract('remove', bid)
        c.out = out
        c.node, c.key, c.flag = 0, None, None
        for i, t in enumerate(ins[1:], 1):
            if t[0] == 'ref' and t[2][0] == 'param' and c.key is None:
                c.key = i
            elif is_flag_opt(t) and c.flag is None:
                c.flag = i
            else:
                return None
        return c if c.key else None
    if out == ('tuple', ()) and len(ins) == 2 and node_kind(ins[0]):
        t = ins[1]
        while t[0] == 'ref':
            t = t[2]
        if t[0] == 'param' and len(fb.get(t[1], ())) == 2:
            c = Contract('visit', bid)
            c.node, c.op, c.out = 0, 1, out
            return c
    if o == 'CNode' and len(ins) == 4 and node_kind(ins[0]) == 'MNode' and node_kind(ins[2]) == 'MNode' and is_adt(ins[1], 'Flag') and is_adt(ins[3], 'Flag'):
        c = Contract('lift', bid)
        c.out = out
        return c
    return None


def is_flag_opt(t):
    return is_adt(t, 'Option') and is_adt(t[2][0], 'Flag')


if __name__ == '__main__':
    import sys
    from ir import Crate
    cr = Crate(sys.argv[1])
    for bid in cr.bodies:
        c = classify(cr, bid)
        if c:
            print(c.kind, getattr(c, 'fam', ''), 'async' if getattr(c, 'isasync', 0) else '', 'bag' if getattr(c, 'bag', None) is not None else '', 'depth' if getattr(c, 'depth', None) is not None else '', bid)
