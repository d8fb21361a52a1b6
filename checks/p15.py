"""P15: every component of a composite value comes back from the place of the text it was written to."""
import re
from model import *
from ceval import *
from algebra import *
from textflow import TextFlow, Text, Node, NumList, Build, atoms, tokens, ORDER



def subst(s, env):
    """A formula with atoms replaced."""
    def poly(p):
        out = Sym.of(0)
        for mono, c in p.m.items():
            t = Sym.of(c)
            for a, n in mono:
                v = env.get(a)
                v = Sym.var(a) if v is None else v
                for _ in range(n):
                    t = t * v
            out = out + t
        return out
    return poly(s.n) / poly(s.d)


def scope(P):
    return [f for f in P.fns.values() if f.body is not None and 'FColladaPlugins' in f.file
            and any('xmlNode' in p['t'] or 'FCDENode' in p['t'] or 'FCDETechnique' in p['t'] for p in f.params)]


def run(P, R):
    A = TextFlow(P)
    fs = scope(P)
    for f in fs:
        A.walk(f)
    R.count('functions walked', len(fs))
    R.count('numbers read into the model', len(A.reads))
    R.count('texts written', len(A.writes))
    pair(P, R, A)
    order(P, R, A)
    sources(P, R, A)


def pair(P, R, A):
    reads, writes = {}, {}
    for name, v, rn, loc in A.reads:
        tx = [a for a in atoms(v) if a.startswith('#')]
        reads.setdefault(name, []).append((v, tx, rn, loc))
    for nd, name, attr, toks, loc in A.writes:
        nums = []
        for t in toks:
            nums.append(t if isinstance(t, Sym) else None)
        for k, t in enumerate(nums):
            if t is None:
                continue
            for a in atoms(t):
                writes.setdefault(a, []).append((name, attr, k, nums, loc))
    both = 0
    for F in sorted(reads):
        if F not in writes:
            continue
        cls = F.split('::')[0]
        done = set()
        for v, tx, rn, loc in reads[F]:
            if len(tx) != 1:
                R.notes.append('%s: %s is computed from %d numbers of the text; not followed' % (loc, F, len(tx)))
                continue
            names, attr, k, nd = rn[tx[0]]
            cands = [w for w in writes[F] if (w[1] or None) == (attr or None)]
            known = [w for w in cands if names and w[0] in names]
            if names and not known and all(w[0] for w in cands):
                continue        # another element: which elements there are is decided elsewhere
            cands = known or cands
            if not cands:
                continue
            others = [a for a in atoms(v) if not a.startswith('#') and a != F]
            if others:
                R.notes.append('%s: %s is combined with %s; not followed' % (loc, F, others[0]))
                continue
            both += 1
            ok = False
            for name, at, kw, nums, lw in cands:
                if k < len(nums) and nums[k] is not None:
                    back = subst(v, {tx[0]: nums[k]})
                    if back.same(Sym.var(F)):
                        ok = True
                        break
            w = cands[0]
            key = 'place:%s:%s' % (F, '|'.join(sorted(names)) or 'element')
            msg = '%s is read from number %d of <%s> as %s, but number %d written there (%s) is %s' % (
                F, k + 1, '|'.join(sorted(names)) or w[0] or 'its element', v.text().replace(tx[0], 'the number'), k + 1, w[4],
                w[3][k].text() if k < len(w[3]) and w[3][k] is not None else 'not there')
            R.ob(key, loc, ok, msg)
    R.count('components followed from text to text', both)
    R.floor('components read and written', both, 60)


def order(P, R, A):
    """The components of one element stand next to each other, in their order."""
    n = 0
    for q in ('ToVector2', 'ToVector3', 'ToVector4', 'ToMatrix'):
        for f in P.byq.get('FUStringConversion::' + q, ()):
            if f.body is None or not f.params or not f.params[0]['t'].endswith('**'):
                continue
            nd = A.node()
            A.f, A.reg, A.loc = f, [], f.loc()
            args = [Ptr(Cell(Text(nd)))]
            out = None
            if len(f.params) == 2:
                out = Obj('FMMatrix44')
                args.append(out)
            v = A.guarded(lambda: A.call_fn(f, None, args))
            v = out if out is not None else v
            got = layout(v, A, nd)
            n += 1
            R.ob('read:%s:%s' % (q, f.params[0]['t']), f.loc(), got is None or got, '%s does not take the numbers of the text in the order of the components' % q)
            if got is None:
                R.notes.append('%s: %s could not be followed' % (f.loc(), q))
    for q, cls in (('FUStringConversion::ToString', None), ('FUStringBuilderT<char>::append', None)):
        for f in P.byq.get(q, ()):
            ps = f.params
            if f.body is None or not ps or len(ps) > 2:
                continue
            t = bare(ps[-1]['t'].rstrip('*& '))
            if t not in ORDER and t != 'FMMatrix44' or len(ps) == 2 and 'Builder' not in ps[0]['t'] or len(ps) == 1 and 'Builder' not in q:
                continue
            b = Build()
            A.f, A.reg, A.loc = f, [], f.loc()
            x = Obj(t, 'value')
            A.guarded(lambda: A.call_fn(f, b if len(ps) == 1 else None, [b, x] if len(ps) == 2 else [x]))
            toks = tokens(b.toks)
            if not toks or not all(isinstance(v, Sym) for v in toks):
                R.notes.append('%s: the text of %s could not be followed' % (f.loc(), t))
                continue
            n += 1
            want = [Sym.var('value.' + c) for c in ORDER[t]] if t in ORDER else [A.fcell(x, 'm', 'float[4][4]').v[c][r] for r in range(4) for c in range(4)]
            sep = all(isinstance(y, str) and y.strip() == '' and y for y in b.toks if not isinstance(y, Sym)) and apart(b.toks)
            R.ob('write:%s:%s' % (q.split('::')[-1], t), f.loc(), len(toks) == len(want) and all(a.same(w) for a, w in zip(toks, want)) and sep,
                 'the text of a %s does not hold its components in order, each apart from the next' % t)
    R.count('conversions of composite values followed', n)
    # elements of lists
    m = 0
    groups = {}
    for tag, key, v, loc, fid in A.elem:
        a = pure(v)
        cls = 'FMVector4'
        if a and a.startswith('#'):
            src, k = a.rsplit(':', 1)
            groups.setdefault((fid, tag, src), []).append((ORDER[cls].index(key), int(k), loc))
    for (fid, tag, src), l in groups.items():
        for (i1, k1, w1), (i2, k2, w2) in zip(l, l[1:]):
            if abs(k2 - k1) == 1 and i1 != i2:
                m += 1
                R.ob('element:%s:%s' % (P.fns[fid].q, w2.split(':')[0]), w2, i2 - i1 == k2 - k1 or k2 == k1 + 1 and i2 == 0,
                     'the components of an element are not taken from the text in their order')
    for d, v, loc, fid in A.pushed:
        if isinstance(v, Obj) and v.cls in ORDER:
            ks = [(i, pure(v.fields[c].v)) for i, c in enumerate(ORDER[v.cls]) if c in v.fields and isinstance(v.fields[c].v, Sym)]
            ks = [(i, a.rsplit(':', 1)) for i, a in ks if a and a.startswith('#')]
            if len(ks) >= 2:
                m += 1
                b = {(s, int(k) - i) for i, (s, k) in ks}
                R.ob('element:%s:%s' % (P.fns[fid].q, loc.split(':')[0]), loc, len(b) == 1,
                     'the components of an element are not taken from the text in their order')
    R.count('elements of lists followed', m)


def apart(toks):
    last = None
    for t in toks:
        if isinstance(t, Sym) and isinstance(last, Sym):
            return False
        last = t
    return True


def pure(s):
    """The atom a number is a plain copy of."""
    if isinstance(s, Sym) and s.d.is_const() and len(s.n.m) == 1:
        (mono, c), = s.n.m.items()
        if len(mono) == 1 and mono[0][1] == 1 and c == s.d.value():
            return mono[0][0]
    return None


def layout(v, A, nd):
    want = None
    if isinstance(v, Obj) and v.cls in ORDER:
        want = [v.fields[c].v if c in v.fields else None for c in ORDER[v.cls]]
    elif isinstance(v, Obj) and 'm' in v.fields and isinstance(v.fields['m'].v, list):
        m = v.fields['m'].v
        want = [m[c][r] for r in range(4) for c in range(4)]
    if want is None or not any(isinstance(x, Sym) for x in want):
        return None
    return all(pure(x) == '#%d:%d' % (nd.no, k) for k, x in enumerate(want))


# ---- lists that are written and read as sources, by the meaning given to each source
COMP = {'x': 0, 'u': 0, 'y': 1, 'v': 1, 'z': 2, 'w': 3}


def past(e):
    """An expression without the anonymous union a component lives in."""
    e = unwrap(e)
    while e['k'] == 'Mem' and not e['n']:
        e = unwrap(e['b'])
    return e


def vec(e):
    return bare((past(e).get('t') or '').rstrip('&* ')) in ORDER


def root(e):
    """(declaration of the variable an element is taken from, component or None, True when it is a plain element)"""
    comp = None
    for _ in range(12):
        e = unwrap(e)
        if e['k'] == 'Ref' and e.get('dk') in ('var', 'parm'):
            return e['d'], comp
        if e['k'] == 'Mem' and comp is None and e['n'] in COMP and vec(e['b']):
            comp = COMP[e['n']]
            e = past(e['b'])
        elif e['k'] == 'Idx':
            e = e['b']
        elif e['k'] == 'Un' and e['op'] in ('*', '&'):
            e = e['e']
        elif e['k'] == 'Call' and isinstance(e.get('obj'), dict) and ((callee_n(e) or '') in ('operator[]', 'at', 'front', 'back', 'begin') or (callee_n(e) or '').startswith('operator') and '*' in callee_n(e)):
            e = e['obj']
        elif e['k'] == 'Ctor' and len(e.get('args', ())) == 1:
            e = e['args'][0]
        else:
            return None, None
    return None, None


def member(e):
    """(member of a key, component) a value is a plain copy of."""
    comp = None
    for _ in range(8):
        e = unwrap(e)
        if e['k'] == 'Mem' and e['n'] in COMP and comp is None and vec(e['b']):
            comp = COMP[e['n']]
            e = past(e['b'])
        elif e['k'] == 'Mem' and (e.get('c') or '').startswith('FCDAnimation'):
            return e['n'], comp
        elif e['k'] == 'Idx':
            e = e['b']
        elif e['k'] == 'Ctor' and len(e.get('args', ())) == 1:
            e = e['args'][0]
        else:
            return None, None
    return None, None


def lits(e):
    return [y['s'] for y in walk_e(e) if y['k'] == 'Str']


def sources(P, R, A):
    fs = [f for f in P.fns.values() if f.body is not None and 'FColladaPlugins' in f.file and 'Animation' in f.file]
    load, suffix, stored = {}, {}, {}
    for f in fs:
        # uniting the variables that stand for one list
        rep = {}

        def find(x):
            while rep.get(x, x) != x:
                x = rep[x]
            return x
        label = {}
        for s in walk_s(f.body):
            if s['k'] == 'If' and isinstance(s.get('c'), dict):
                names = A.literals(s['c'])
                if len(names) == 1:
                    todo = [s.get('T')]
                    while todo:
                        b = todo.pop()
                        if not isinstance(b, dict):
                            continue
                        if b['k'] == 'Block':
                            todo += b['s']
                        elif b['k'] == 'Expr':
                            x = unwrap(b['e'])
                            if x['k'] == 'Bin' and x['op'] == '=' and unwrap(x['L'])['k'] == 'Ref' and 'xmlNode' in unwrap(x['L']).get('t', ''):
                                label.setdefault(unwrap(x['L'])['d'], set()).update(names)
            elif s['k'] == 'Decl':
                for d in s['d']:
                    if isinstance(d.get('init'), dict) and d['t'].rstrip().endswith('&'):
                        r, _ = root(d['init'])
                        if r is not None:
                            rep[find(d['d'])] = find(r)
        es = list(f.exprs())
        for x in es:
            if x['k'] == 'Bin' and x['op'] == '=' or x['k'] == 'Call' and x.get('op') == '=':
                L, Rr = (x['L'], x['R']) if x['k'] == 'Bin' else (x.get('obj') or x['args'][0], x['args'][-1])
                if any(y['k'] == 'Un' and y['op'] == '&' for y in walk_e(Rr)):
                    a, _ = root(L)
                    b, _ = root(Rr)
                    if a is not None and b is not None:
                        rep[find(a)] = find(b)
        by = {}
        for x in es:
            if x['k'] == 'Call':
                got = [unwrap(a)['d'] for a in x.get('args', ()) if unwrap(a)['k'] == 'Ref' and unwrap(a).get('d') in label]
                if got:
                    for a in x['args']:
                        r, _ = root(a)
                        if r is not None and r not in label:
                            by.setdefault(find(r), set()).update(label[got[0]])
        for x in es:
            if x['k'] == 'Bin' and x['op'] == '=' or x['k'] == 'Call' and x.get('op') == '=':
                L, Rr = (x['L'], x['R']) if x['k'] == 'Bin' else (x.get('obj') or x['args'][0], x['args'][-1])
                m, c = member(L)
                r, rc = root(Rr)
                if m and r is not None and find(r) in by and len(by[find(r)]) == 1:
                    for sem in by[find(r)]:
                        load.setdefault(m, {})[(sem, c, rc)] = f.loc(x)
        # writing
        names = {}
        for x in es:
            if x['k'] == 'Call':
                ls = lits(x)
                sf = [t for t in ls if t.startswith('-')]
                if len(sf) == 1 and callee_n(x) == 'AddInput':
                    for t in ls:
                        if t != sf[0]:
                            suffix.setdefault(sf[0], set()).add(t)
                elif len(sf) == 1:
                    for a in x.get('args', ()):
                        r, _ = root(a)
                        if r is not None:
                            names.setdefault(find(r), set()).add(sf[0])
        put = []
        for s in walk_s(f.body):
            if s['k'] != 'Block':
                continue
            seq = {}
            for b in s['s']:
                x = unwrap(b['e']) if b['k'] == 'Expr' and isinstance(b.get('e'), dict) else None
                if x is None or x['k'] != 'Call' or callee_n(x) != 'push_back' or not isinstance(x.get('obj'), dict):
                    continue
                r, _ = root(x['obj'])
                if r is None:
                    continue
                a = unwrap(x['args'][0])
                if a['k'] in ('Ctor', 'Cast') and bare(a.get('t', '')) in ORDER and len(a.get('args', ())) >= 2:
                    for i, y in enumerate(a['args']):
                        m, c = member(y)
                        if m:
                            put.append((find(r), m, c, i, f.loc(x)))
                else:
                    m, c = member(a)
                    if bare((a.get('t') or '').rstrip('& ')) in ORDER:
                        if m:
                            put.append((find(r), m, c, None, f.loc(x)))
                    else:
                        i = seq[r] = seq.get(r, -1) + 1
                        if m:
                            put.append((find(r), m, c, i, f.loc(x)))
        for r, m, c, i, w in put:
            if len(names.get(r, ())) == 1:
                stored.setdefault((f.q, m), []).append((next(iter(names[r])), c, i, w))
    n = 0
    for (q, m), l in sorted(stored.items()):
        for (sem, c, rc), where in sorted(load.get(m, {}).items(), key=str):
            ok, at = False, None
            for sf, wc, i, w in l:
                at = at or w
                if sem in suffix.get(sf, ()) and same_place(c, rc, wc, i):
                    ok = True
            # all components of a whole value written one by one
            if not ok and c is None and rc is None:
                one = {(wc, i) for sf, wc, i, w in l if sem in suffix.get(sf, ()) and wc is not None}
                ok = len(one) >= 2 and all(a == b for a, b in one)
            n += 1
            R.ob('source:%s:%s:%s' % (q, m, sem), where, ok, 'the %s of a key is read from %s of the <%s> source, but is not what %s writes there (%s)' % (
                m, 'number %d' % (rc + 1) if rc is not None else 'the element', sem, q, at))
    R.count('components of animation keys followed', n)


def same_place(c, rc, wc, i):
    """Reading component rc into component c, writing component wc as component i."""
    return (0 if rc is None else rc) == (0 if i is None else i) and c == wc or rc is None and i is None and c == wc
