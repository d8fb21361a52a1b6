"""For every class in the object hierarchy: it declares its own run-time type; both type queries return that very type record on
every path; the record is built with the type of the class's actual base class and with the class's own name. The type
tests (exact, inherits, dynamic-cast helper) are evaluated by constant propagation over an abstract chain of type records
and must answer exactly the ancestry relation. Also: every class's release operation detaches the object from its owner
and destroys it exactly once on every path."""
from ceval import *

ROOT = 'FUObject'


def ret_glob(P, R, I, f, obj):
    out = set()
    got = I.outs(R, f, obj, [])
    if got is None:
        return None
    for rv, st in got:
        out.add(rv.tag if isinstance(rv, T) else (rv.tag if isinstance(rv, Obj) else repr(rv)))
    return out


def record_hook(I, e, obj, args, fr):
    return NotImplemented


class TypeInterp(Interp):
    """Type records are kept as distinct opaque globals."""

    def glob(self, q):
        if q not in self.globals and (q.endswith('::__classType') or q.endswith('::baseObjectType')):
            self.globals[q] = Cell(T('glob:' + q))
        return Interp.glob(self, q)

    def opaque(self, f):
        return f.q.startswith(('fm::',))


def run(P, R):
    I = TypeInterp(P)
    if ROOT not in P.cls:
        raise Broken('FUObject not found')
    rec = {ROOT: 'FUObject::baseObjectType'}
    classes = sorted(P.descendants(ROOT))
    n = 0
    for c in classes:
        cl = P.cls[c]
        n += 1
        where = '%s:%d' % (cl.file, cl.line)
        var = c + '::__classType'
        short = re.sub(r'<.*', '', c).split('::')[-1]
        own = [f for f in P.byq.get(c + '::GetObjectType', ()) if f.body is not None]
        R.ob(c + ':declares', where, bool(own), 'class %s declares no run-time type of its own: its objects answer the type of %s' % (c, ', '.join(cl.bases)))
        if not own:
            continue
        for m in ('GetObjectType', 'GetClassType'):
            for f in P.byq.get('%s::%s' % (c, m), ()):
                o = ret_glob(P, R, I, f, Obj(c, 'x'))
                if o is None:
                    continue
                R.ob('%s:%s' % (c, m), f.loc(), o == {'glob:' + var}, '%s::%s answers %s instead of its own type record' % (c, m, sorted(o)))
        v = P.vars.get(var)
        if not v or not isinstance(v.get('init'), dict):
            R.bad(c + ':record', where, 'type record of %s has no initialiser' % c)
            continue
        init = v['init']
        args = init.get('args', [])
        base = [b for b in cl.bases if P.derives(b, ROOT)]
        pc = None
        for a in args:
            for x in walk_e(a):
                if x['k'] == 'Call' and callee_n(x) == 'GetClassType':
                    # the class whose static query is named
                    d = P.direct(x)
                    pc = x['cal'].get('c') or (d.cls if d else None)
        R.ob(c + ':parent', '%s:%d' % (v['file'], v['l']), pc in base, 'the type record of %s names %s as its parent, but the class derives from %s' % (c, pc, ', '.join(base)))
        nm = [x['s'] for a in args for x in walk_e(a) if x['k'] == 'Str']
        nm = [re.sub(r'<.*', '', s).split('::')[-1].strip() for s in nm]
        if '<' not in c:
            R.ob(c + ':name', '%s:%d' % (v['file'], v['l']), nm == [short], 'the type record of %s is named %s' % (c, nm))
    R.count('classes', n)
    R.floor('classes with run-time types', n, 110)
    # the records themselves: constructor stores parent and name
    ctors = [f for f in P.fns.values() if f.kind == 'ctor' and f.cls == 'FUObjectType' and len(f.params) == 2]
    if not ctors:
        raise Broken('FUObjectType constructor not found')
    chain = []

    def mk():
        chain[:] = []
        prev = None
        for i in range(4):
            o = Obj('FUObjectType', 'type%d' % i)
            if prev is None:
                I.construct(root0[0], o, [CStr('base')], [None])
            else:
                I.construct(ctors[0], o, [prev, CStr('t%d' % i)], [None, None])
            chain.append(o)
            prev = o
        other = Obj('FUObjectType', 'other')
        I.construct(ctors[0], other, [chain[0], CStr('t1')], [None, None])
        chain.append(other)
    root0 = [f for f in P.fns.values() if f.kind == 'ctor' and f.cls == 'FUObjectType' and len(f.params) == 1 and 'char' in f.params[0]['t']]

    def anc(i, j):    # type i is, or inherits, type j
        if i == 4:
            return j in (0, 4)
        return j <= i

    class HookI(TypeInterp):
        pass
    HI = HookI(P)
    HI.opaque = lambda f: False
    I.opaque = lambda f: False
    for fn, exact in (('HasType', False), ('IsType', True)):
        f = P.one('FUObject::' + fn)
        for i in range(5):
            for j in range(5):
                def hook(J, e, obj, args, fr, i=i):
                    if callee_n(e) == 'GetObjectType':
                        return chain[i]
                    return NotImplemented
                I.hook = None
                I.steps = 0
                I.depth = 0
                I.globals = {}
                HI.hook = hook

                def mk2(j=j):
                    I.steps = I.depth = 0
                    I.trace = []
                    mk()
                    return Obj('FUObject', 'x'), [chain[j]]
                res = set()
                got = HI.outs(R, f, mk=mk2)
                if got is None:
                    continue
                for rv, st in got:
                    res.add(rv if isinstance(rv, (bool, int)) else None)
                want = (i == j) if exact else anc(i, j)
                R.ob('%s:%d-%d' % (fn, i, j), f.loc(), res == {want}, 'FUObject::%s answers %s for a type at distance %d of the ancestry, expected %s' % (fn, sorted(map(str, res)), i - j, want))
    # release: detach then delete, once
    nrel = 0
    for c in [ROOT] + classes:
        for f in P.byq.get(c + '::Release', ()):
            if f.params:
                continue
            nrel += 1
            bad = check_release(P, f)
            R.ob(c + ':release', f.loc(), bad is None, '%s::Release %s' % (c, bad))
    R.count('release operations', nrel)
    R.floor('release operations', nrel, 80)


def check_release(P, f, depth=0):
    """None when every path detaches the object and deletes it exactly once afterwards."""
    cfg = f.cfg()
    # state: set of (detached, deleted)
    def tr(s, n):
        if n.k != 'ev':
            return s
        e = n.e
        if e['k'] == 'Del' and unwrap(e['e'])['k'] == 'This':
            return frozenset((d, min(k + 1, 2)) for d, k in s)
        if e['k'] == 'Call':
            if callee_n(e) == 'Detach' and (not e.get('obj') or unwrap(e['obj'])['k'] == 'This'):
                return frozenset((min(d + 1, 1), k) for d, k in s)
            o = e.get('obj')
            if o and unwrap(o)['k'] == 'This' and callee_n(e) == 'Release' and depth < 3:
                t = P.direct(e)
                if t and e.get('qual') and check_release(P, t, depth + 1) is None:
                    return frozenset((1, min(k + 1, 2)) for d, k in s)
        return s
    inn = solve(cfg, frozenset([(0, 0)]), tr, lambda s, a: s, lambda a, b: a | b)
    out = inn[cfg.exit.i]
    if out is None:
        return 'never returns'
    for d, k in sorted(out):
        if k == 0:
            return 'can return without destroying the object'
        if k > 1:
            return 'can destroy the object twice'
        if d == 0:
            return 'can destroy the object without telling its owner'
    return None
