"""P19: the reader never indexes one of its lists outside of it, whatever the document contains."""
import sys
from model import *
from bounds import Bounds, Lift, poly, is_int

SCOPE = ('FColladaPlugins/FArchiveXML/', 'FCollada/FUtils/FUStringConversion', 'FCollada/FUtils/FUXmlParser',
         'FCollada/FCDocument/FCDAnimationCurveTools.cpp', 'FCollada/FCDocument/FCDAnimationMultiCurve.cpp')


def scope(P):
    return sorted((f for f in P.fns.values() if f.body is not None and (f.file or '').startswith(SCOPE)), key=lambda f: (f.file, f.line, f.id))


def contract(f, e):
    """An index that a virtual function is handed by whoever calls it through the interface."""
    i = e['args'][0] if e['k'] == 'Call' and e.get('args') else e.get('i')
    i = unwrap(i) if isinstance(i, dict) else None
    return f.r.get('virt') and i is not None and i['k'] == 'Ref' and i.get('dk') == 'parm'


def run(P, R):
    sys.setrecursionlimit(6000)
    B = Bounds(P)
    B.mods()
    B.invariants()
    L = None
    cnt = {}
    n = nf = exempt = lifted = 0
    files = {}
    for f in scope(P):
        r = B.run(f)
        nf += 1
        for k, (e, text, ok) in sorted(r.obl.items(), key=lambda x: (x[1][0].get('l') or 0, x[1][1])):
            via = ''
            if not ok and contract(f, e):
                exempt += 1
                continue
            if not ok:
                if L is None:
                    L = Lift(B)
                h = L.holds(f, e)
                if h is True:
                    ok = True
                    lifted += 1
                elif h:
                    via = ' when called from %s (%s)' % (h[0][0].n, h[0][0].loc(h[0][1]))
            n += 1
            base = f.file.split('/')[-1]
            files[base] = files.get(base, 0) + 1
            cnt[f.q, text] = cnt.get((f.q, text), 0) + 1
            R.ob('%s:%s:%d' % (f.q, text, cnt[f.q, text]), f.loc(e), ok, '%s: nothing ensures that the index of %s is inside the list%s' % (f.n, text, via))
    R.analysed['functions followed'] = nf
    R.analysed['index sites proved'] = n
    R.analysed['proved from the callers'] = lifted
    R.analysed['left to the caller of a virtual function'] = exempt
    R.analysed['lists of equal length inferred'] = sum(len(v) for v in B.inv.values()) // 2
    raw(P, R, B)
    for k in sorted(files):
        R.notes.append('%s: %d index sites' % (k, files[k]))
    R.floor('index sites', n, 120)
    R.floor('functions', nf, 150)


def backing(P, B, g):
    """The list field whose storage a function hands out: `return list.begin();`"""
    for x in returns_of(g):
        x = unwrap(x)
        while isinstance(x, dict) and x['k'] in ('Cast', 'Call') and not (x['k'] == 'Call' and callee_n(x) in ('begin', 'front', 'data')):
            if x['k'] == 'Cast':
                x = unwrap(x['e'])
            else:
                return None
        if isinstance(x, dict) and x['k'] == 'Call' and x.get('obj') is not None:
            o = unwrap(x['obj'])
            if o['k'] == 'Mem' and B.vec(o.get('t')):
                return o['n'], o.get('c')
    return None


def returns_of(g):
    return [s['e'] for s in walk_s(g.body) if s['k'] == 'Return' and isinstance(s.get('e'), dict)] if g.body is not None else []


def growers(P, B):
    """Member functions that add one element to a list of their class on every path: (list field, class) -> ids."""
    out = {}
    for f in P.fns.values():
        if f.body is None or not f.cls or f.kind in ('ctor', 'dtor'):
            continue
        for e in f.calls():
            if callee_n(e) in ('push_back', 'insert') and e.get('obj') is not None:
                o = unwrap(e['obj'])
                if o['k'] == 'Mem' and o.get('c') == f.cls and B.vec(o.get('t')) and unwrap(o['b'])['k'] == 'This':
                    out.setdefault((o['n'], f.cls), set()).add(f.id)
    return out


def reaches(P, f, goal, memo={}):
    """f is one of the functions of goal, or calls one that is."""
    if not goal:
        return False
    k = f.id, frozenset(goal)
    if k not in memo:
        memo[k] = f.id in goal
        if not memo[k] and f.body is not None:
            memo[k] = any(reaches(P, t, goal) for e in f.calls() for t in P.targets(e))
    return memo[k]


def raw(P, R, B):
    """Plain arrays of objects that a model object hands out: the index is below the number of elements it holds, or below
    the number that was put in by the same routine."""
    G = None
    n = 0
    cnt = {}
    for f in scope(P):
        ptrs = {}
        for s in walk_s(f.body):
            if s['k'] != 'Decl':
                continue
            for d in s['d']:
                i = d.get('init')
                i = unwrap(i) if isinstance(i, dict) else None
                while isinstance(i, dict) and i['k'] == 'Cast':
                    i = unwrap(i['e'])
                if isinstance(i, dict) and i['k'] == 'Call' and i.get('obj') is not None and (d.get('t') or '').count('*') == 2:
                    ts = P.targets(i)
                    b = backing(P, B, ts[0]) if len(ts) == 1 and ts[0].body is not None else None
                    if b is None and len(ts) == 1:
                        for h in P.fns.values():
                            if h.q == ts[0].q and h.body is not None:
                                b = b or backing(P, B, h)
                    if b:
                        ptrs[d['d']] = (i, b)
        if not ptrs:
            continue
        if G is None:
            G = growers(P, B)
        use = {}
        for e in f.exprs():
            if e['k'] == 'Idx':
                b = unwrap(e['b'])
                if b['k'] == 'Ref' and b.get('d') in ptrs:
                    use[id(e)] = (e, b['d'])
        r = B.run(f, None, tuple(use))
        bounds = {}
        for d, (call, b) in ptrs.items():
            adds = lambda x: x['k'] in ('Call', 'Ctor') and any(reaches(P, t, G.get(b, ())) for t in P.targets(x))
            bs = []
            for s in walk_s(f.body):
                if s['k'] in ('For', 'While', 'Do') and isinstance(s.get('c'), dict) and any(adds(x) for x in walk_b(s)):
                    for c in walk_e(s['c']):
                        if c['k'] == 'Bin' and c['op'] in ('<', '!=', '>', '<=', '>='):
                            bs += [c['L'], c['R']]
            for x in f.calls():
                if adds(x):
                    bs += [a for a in x.get('args', ()) if isinstance(a, dict) and is_int(a.get('t'))]
            bounds[d] = bs
        for e, d in use.values():
            S = r.states.get(id(e), None)
            if S is None:
                continue
            call, b = ptrs[d]
            i = r.lin(e['i'], S)
            ok = False
            if i is not None and B.entails(S, i):
                lim = []
                k = r.key(call['obj'], S)
                if k is not None:
                    lim.append({B.sym(('sz', ('fld', k) + b)): 1})
                lim += [r.lin(x, S) for x in bounds[d]]
                for l in lim:
                    if l is not None and B.entails(S, poly.add(poly.add(l, i, -1), {0: -1})):
                        ok = True
            n += 1
            t = show(e)
            cnt[f.q, t] = cnt.get((f.q, t), 0) + 1
            R.ob('array:%s:%s:%d' % (f.q, t, cnt[f.q, t]), f.loc(e), ok, '%s: nothing ensures that the index of %s is below the number of elements there are' % (f.n, t))
    R.analysed['uses of arrays handed out'] = n
    # an array of pointers is not an array of objects
    m = 0
    for f in sorted((f for f in P.fns.values() if f.body is not None and (f.file or '').startswith(('FCollada/', 'FColladaPlugins/')) and (f.file or '').endswith(('.cpp', '.hpp'))), key=lambda f: (f.file, f.line)):
        for e in f.exprs():
            if e['k'] == 'Cast' and e.get('ex') and is_ptr(e.get('t')):
                a, b = bare2(e['e'].get('t')), bare2(e.get('t'))
                if a.count('*') == 2 and b.count('*') == 1:
                    m += 1
                    R.ob('cast:%s:%d' % (f.q, f.line), f.loc(e), b.rstrip('*').strip() in ('void', 'char', 'unsigned char', 'unsigned int', 'unsigned long', 'long', 'int') ,
                         '%s takes an array of pointers (%s) for an array of objects (%s)' % (f.n, a, b))
    R.analysed['casts of arrays of pointers'] = m


def bare2(t):
    return (t or '').replace('const', '').replace(' ', '')


def walk_b(s):
    for t in walk_s(s):
        for x in stmt_exprs(t):
            yield from walk_e(x)
