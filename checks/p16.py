"""P16: an animation drives the component its target names."""
import re
from model import *
from ceval import *
from algebra import *
from guards import Guards
from textflow import binding, TextFlow, Text, Node, Build, atoms
import p15

AXES = {'X': 'x', 'R': 'x', 'S': 'x', 'U': 'x', 'Y': 'y', 'G': 'y', 'T': 'y', 'V': 'y', 'Z': 'z', 'B': 'z', 'P': 'z', 'W': 'w', 'A': 'w', 'Q': 'w'}
LISTS = ('values', 'qualifiers', 'curves')


def run(P, R):
    slots = binds(P, R)
    A = TextFlow(P)
    fs = p15.scope(P)
    fs += [f for f in P.fns.values() if f.body is not None and f.cls == 'FArchiveXML' and f not in fs and any(callee_n(x).startswith(('Load', 'Link', 'Write')) and binding(P, x) for x in f.calls() if callee_n(x))]
    for f in fs:
        A.walk(f)
    A.bound = [b for b in A.bound if b[6]]
    order(P, R, A, slots)
    texts(P, R, A)
    both(P, R, A)
    copied(P, R)
    parallel(P, R)
    lists(P, R)


def names(q, comp):
    """Whether a qualifier names a component: the last member of its path, under the group it stands in."""
    m = re.fullmatch(r'\((\d+)\)\((\d+)\)', q)
    if m:
        return comp.endswith('[%s][%s]' % m.groups())
    if q == '':
        return True
    s = q.lstrip('.').upper()
    path = [c for c in re.split(r'[.]', comp) if c]
    if s == path[-1].upper():
        return len(path) < 2 or path[-1] not in 'xyzw' or len(s) > 1 or path[-2] in ('value', 'axis') or path[-2].endswith(')')
    if AXES.get(s[-1:]) != path[-1]:
        return False
    stem = s[:-1]
    group = path[-2].upper() if len(path) > 1 else ''
    if not stem:
        return group in ('VALUE', 'AXIS') or group.endswith(')')
    return group.startswith(stem)


def binds(P, R):
    """Each slot of an animated value names the component it points to."""
    slots, n = {}, 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or f.cls == 'FCDAnimated' or not any(x['k'] == 'New' and bare(x.get('nt', '')) == 'FCDAnimated' for x in f.exprs()):
            continue
        caught = []

        def hook(I_, e, obj, args, fr):
            if e['k'] in ('Ctor', 'New') and 'FCDAnimated' in (e.get('nt') or e.get('t', '')) and len(args) >= 4:
                caught.append(args)
                return T('animated', 'FCDAnimated *')
            if callee_n(e) == 'GetParent':
                return T('parent', 'FUParameterizable *')
            return NotImplemented
        I = Algebra(P, extra=hook)
        try:
            for p in I.paths(f, Obj(f.cls), [T('index', 'size_t')] * len(f.params)):
                pass
        except Unsupported as x:
            R.notes.append('%s: %s could not be followed: %s' % (f.loc(), f.q, x))
            continue
        for a in caught:
            cnt, qs, vs = a[1], a[2], a[3]
            if not isinstance(cnt, int) or not isinstance(qs, list) or not isinstance(vs, list):
                R.notes.append('%s: the slots of %s could not be followed' % (f.loc(), f.q))
                continue
            comps = []
            for v in vs:
                v = v.get() if isinstance(v, Ptr) else v
                comps.append(v.text() if isinstance(v, Sym) else getattr(v, 'tag', str(v)))
            R.ob('count:' + f.cls, f.loc(), len(comps) == cnt and len(qs) >= cnt and len(set(comps)) == cnt,
                 '%s makes %d slots out of %d distinct values and %d names' % (f.q, cnt, len(set(comps)), len(qs)))
            qt = [text(x) for x in qs]
            if any(x is None for x in qt[:cnt]):
                R.notes.append('%s: the names of %s could not be followed' % (f.loc(), f.q))
                continue
            for i, c in enumerate(comps[:cnt]):
                n += 1
                R.ob('name:%s:%d' % (f.cls, i), f.loc(), i < len(qt) and names(qt[i], c),
                     'slot %d of %s drives %s but is named "%s"' % (i, f.q, c.split('.', 1)[-1], qt[i] if i < len(qt) else ''))
            slots[f.cls] = [re.split(r'value\b|\)', c, maxsplit=1)[-1].lstrip('.') for c in comps[:cnt]]
    R.count('slots of animated values', n)
    R.floor('slots of animated values', n, 40)
    return slots


def order(P, R, A, slots):
    """The slots come in the order of the numbers of the element's text: an unqualified target drives them one after the other."""
    pos = {}
    for name, v, rn, loc in A.reads:
        a = [x for x in atoms(v) if x.startswith('#')]
        if len(a) == 1 and rn[a[0]][1] is None:
            pos.setdefault(name, set()).add((rn[a[0]][2], loc))
    n = 0
    for c in P.cls.values():
        for fl in c.fields:
            base = next((b for b in slots if b in P.ancestors(bare(fl['t'].rstrip('*& '))) or b == bare(fl['t'])), None)
            if base is None or len(slots[base]) < 2:
                continue
            for i, comp in enumerate(slots[base]):
                key = '%s::%s' % (c.q, fl['n'])
                key = key + comp if comp.startswith('[') else key + '.' + comp
                for k, loc in pos.get(key, ()):
                    n += 1
                    R.ob('order:%s' % key, loc, k == i,
                         '%s is number %d of the text of its element but slot %d of its animation' % (key, k + 1, i))
    R.count('slots compared with the text', n)
    R.floor('slots compared with the text', n, 30)


def texts(P, R, A):
    """An animation is bound to the element that holds the value it drives."""
    reads, writes = {}, {}
    def member(a):
        return re.sub(r'^([^.\[]*(?:<[^>]*>)?[^.\[]*).*', r'\1', a)
    for name, v, rn, loc in A.reads:
        for a in atoms(v):
            if a.startswith('#') and rn[a][3] is not None:
                reads.setdefault((id(rn[a][3]), frozenset(rn[a][0]) if rn[a][0] else None), []).append((member(name), loc))
    for nd, name, attr, toks, loc in A.writes:
        for t in toks:
            if isinstance(t, Sym) and attr is None:
                for a in atoms(t):
                    if '::' in a:
                        writes.setdefault(id(nd), []).append((member(a), loc))
    n = 0
    for nm, src, nds, said, loc, f, _ in A.bound:
        if not src or '|' in src or not nds:
            continue
        got = []
        if nm.startswith('Load') or nm.startswith('Link'):
            for (i, names_), l in reads.items():
                if i in {id(x) for x in nds} and (not said or names_ is None or not names_ or names_ & frozenset(said)):
                    got += l
        else:
            for nd in nds:
                got += writes.get(id(nd), [])
        cls = src.split('::')[0]
        got = [(m, l) for m, l in got if m.split('::')[0] == cls or m.split('::')[0] in P.ancestors(cls) or cls in P.ancestors(m.split('::')[0])]
        if not got:
            continue
        n += 1
        R.ob('text:%s:%s' % ('in' if nm[0] == 'L' else 'out', src), loc, any(m == src for m, l in got),
             'the animation of %s is bound to the element whose text is %s (%s)' % (src, got[0][0], got[0][1]))
    R.count('bindings to an element compared with its text', n)
    R.floor('bindings compared with the text', n, 15)


def both(P, R, A):
    ins, outs = {}, {}
    for nm, src, nds, said, loc, f, _ in A.bound:
        if not src:
            continue
        for s in src.split('|'):
            (outs if nm.startswith('Write') else ins).setdefault(s, loc)
    for s, loc in sorted(ins.items()):
        R.ob('export:' + s, loc, s in outs, 'the animation of %s is read here but never written out' % s)
    for s, loc in sorted(outs.items()):
        R.ob('import:' + s, loc, s in ins, 'the animation of %s is written here but never read in' % s)
    R.count('animated members read in', len(ins))
    R.count('animated members written out', len(outs))
    R.floor('animated members', len(ins), 15)


def members(P, e, depth=2):
    """The members of the model an expression names, itself or through its queries."""
    out = set()
    for x in walk_e(e):
        if x['k'] == 'Mem' and (x.get('c') or '').startswith('FCD') and x['n'] not in ('value', 'animated', ''):
            out.add('%s::%s' % (x['c'], x['n']))
        elif x['k'] == 'Call' and depth and (callee_n(x) or '').startswith(('Get', 'Is')) and callee_n(x) not in ('GetAnimated', 'GetDocument', 'GetParameters', 'GetExtra', 'GetContent'):
            f = P.direct(x)
            if f is not None and f.body is not None and (f.cls or '').startswith('FCD') and len(list(f.exprs())) < 25:
                for y in f.exprs():
                    if y['k'] == 'Mem' and (y.get('c') or '').startswith('FCD') and 'Parameter_' in y.get('t', ''):
                        out.add('%s::%s' % (y['c'], y['n']))
    return {x for x in out if not x.startswith('FCDEffectParameterAnimatableT')} or out


def copied(P, R):
    """A curve copied from one animated value to another goes where its value goes."""
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or 'FColladaPlugins' not in f.file and 'FCDocument/' not in f.file:
            continue
        last = {}
        for s in stmts(f):
            tops = [s['e']] if s['k'] == 'Expr' and isinstance(s.get('e'), dict) else [d['init'] for d in s['d'] if isinstance(d.get('init'), dict)] if s['k'] == 'Decl' else []
            if s['k'] == 'Decl':
                for d in s['d']:
                    if isinstance(d.get('init'), dict):
                        last[d['d']] = d['init']
            for t in tops:
                for x in walk_e(t):
                    if x['k'] == 'Bin' and x['op'] == '=' and unwrap(x['L'])['k'] == 'Ref':
                        last[unwrap(x['L']).get('d')] = x['R']
                    if x['k'] == 'Call' and callee_n(x) in ('Copy', 'Clone') and isanim(P, x.get('cal', {}).get('c')) and isinstance(x.get('obj'), dict) and x['args']:
                        a, b = unwrap(x['obj']), unwrap(x['args'][0])
                        side = []
                        for y in (a, b):
                            if not (y['k'] == 'Call' and callee_n(y) == 'GetAnimated' and isinstance(y.get('obj'), dict)):
                                break
                            o = unwrap(y['obj'])
                            m = members(P, o)
                            if o['k'] == 'Ref' and o.get('d') in last and not m:
                                i = unwrap(last[o['d']])
                                if i['k'] == 'Call' and callee_n(i) == 'AddParameter' and len(i['args']) > 1:
                                    m = members(P, i['args'][1])
                            side.append(m)
                        if len(side) == 2 and side[0] and side[1]:
                            n += 1
                            R.ob('copied:%s:%s' % (f.q, '|'.join(sorted(side[1]))), f.loc(x), bool(side[0] & side[1]),
                                 'the animation of %s is copied to %s' % tuple('|'.join(sorted(z)) for z in ((side[1], side[0]) if callee_n(x) == 'Copy' else (side[0], side[1]))))
    R.count('animations copied', n)
    R.floor('animations copied', n, 6)


# --- slots used together -------------------------------------------------------------------------------------------------------------

SLOTFN = {'GetCurve': 0, 'GetValue': 0, 'GetQualifier': 0, 'AddCurve': 0, 'RemoveCurve': 0, 'SetValue': 0, 'GetCurveCount': 0}


def isanim(P, t):
    c = bare((t or '').rstrip('*& '))
    return c == 'FCDAnimated' or 'FCDAnimated' in P.ancestors(c) if c in P.cls else c == 'FCDAnimated'


def parallel(P, R):
    """The value, the name and the curves used together are those of one slot."""
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.body is None:
            continue
        acc = [x for x in f.calls() if slot(P, f, x, {}) is not None]
        if len(acc) < 1:
            continue
        defs = {}
        for s in stmts(f):
            if s['k'] == 'Decl':
                for d in s['d']:
                    if isinstance(d.get('init'), dict):
                        defs.setdefault(d['d'], []).append(d['init'])
        for x in f.exprs():
            if x['k'] == 'Bin' and x['op'] == '=' and unwrap(x['L'])['k'] == 'Ref':
                defs.setdefault(unwrap(x['L']).get('d'), []).append(x['R'])
        one = {d: l[0] for d, l in defs.items() if len(l) == 1}
        acc = [x for x in f.calls() if slot(P, f, x, one) is not None]
        G = Guards(f)
        rets = {id(unwrap(s['e'])) for s in stmts(f) if s['k'] == 'Return' and isinstance(s.get('e'), dict)}
        for e in roots(f):
            seen = []
            spread(P, f, e, one, seen, set())
            # what is compared before this happens
            here = []
            for g in G.at.get(id(e), ()):
                if isinstance(g[0], dict) and g[1] is True:
                    u = unwrap(g[0])
                    if u['k'] == 'Bin' and u['op'] == '==' or u['k'] == 'Call' and callee_n(u) in ('operator==', 'IsEquivalent'):
                        spread(P, f, u, one, here, set())
            if seen:
                seen += here
            idx, idx_e = {}, {}
            for x, i in seen:
                k = index(i, one)
                if k is not None:
                    idx.setdefault(k, x)
                    idx_e[k] = i
            # a fixed slot of a value beside a moving slot of the same value
            whose = {owner(x, one) for x, i in seen if index(i, one) is not None}
            for x, i in seen:
                if index(i, one) is None and len(idx) == 1 and owner(x, one) in whose:
                    idx.setdefault(show(i), x)
            if len(seen) >= 2:
                n += 1
                ks = (sorted(idx) + ['', ''])[:2]
                tx = [show(idx[k]) if k in idx else '' for k in ks]
                R.ob('slot:%s:%s' % (f.q, '|'.join(sorted({show(x) for x, i in seen})[:2])), f.loc(e), len(idx) <= 1,
                     'slot %s and slot %s are used for one another: %s, %s' % (ks[0], ks[1], tx[0], tx[1]))
            if not seen and here and not const(e) and bare(f.r.get('ret') or '') in ('size_t', 'unsigned long', 'int', 'uint32', 'unsigned int') and id(e) in rets:
                for x, i in here:
                    k = index(i, one)
                    if k is not None:
                        n += 1
                        R.ob('found:%s' % f.q, f.loc(e), index(e, one) == k, '%s finds slot %s but answers %s' % (f.q, k, show(e)))
            if e['k'] == 'Bin' and e['op'] == '=' or e['k'] == 'Call' and callee_n(e) == 'operator=':
                L = e['L'] if e['k'] == 'Bin' else e.get('obj')
                L = unwrap(L) if isinstance(L, dict) else {'k': ''}
                ixs, M = [], L
                while True:
                    if M['k'] == 'Idx':
                        ixs.append(M['i'])
                        M = unwrap(M['b'])
                    elif M['k'] == 'Call' and callee_n(M) in ('operator[]', 'at') and len(M['args']) == 1 and isinstance(M.get('obj'), dict):
                        ixs.append(M['args'][0])
                        M = unwrap(M['obj'])
                    else:
                        break
                if ixs and slot(P, f, L, one) is None and len(idx) == 1 and not all('FCDAnimationChannel' in x.get('cal', {}).get('c', '') for x, i in seen):
                    k = next(iter(idx))
                    n += 1
                    R.ob('place:%s:%s' % (f.q, show(L)), f.loc(e), any(refs(idx_e[k], one) & refs(ix, one) for ix in ixs), 'slot %s is kept in %s' % (k, show(L)))
    R.count('uses of several parts of a slot', n)
    R.floor('uses of several parts of a slot', n, 8)


def stmts(f):
    out = []
    def go(s):
        if not isinstance(s, dict):
            return
        out.append(s)
        for c in sub_stmts(s):
            go(c)
    go(f.body)
    return out


def roots(f):
    """The full expressions of a function."""
    for s in stmts(f):
        if s['k'] in ('Expr', 'Return') and isinstance(s.get('e'), dict):
            yield unwrap(s['e'])
        elif s['k'] == 'Decl':
            for d in s['d']:
                if isinstance(d.get('init'), dict):
                    yield unwrap(d['init'])


def slot(P, f, x, one):
    """The index expression of an access to one slot of an animated value."""
    if x['k'] != 'Call':
        return None
    n = callee_n(x)
    if n in ('operator[]', 'at') and len(x.get('args', ())) == 1 and isinstance(x.get('obj'), dict):
        o = unwrap(x['obj'])
        for _ in range(3):
            if o['k'] == 'Ref' and o.get('d') in one and (o.get('t') or '').find('List') >= 0:
                o = unwrap(one[o['d']])
        if o['k'] == 'Mem' and o['n'] in LISTS and isanim(P, o.get('c')):
            return x['args'][0]
        if o['k'] == 'Call' and callee_n(o) in ('GetCurves', 'GetQualifiers') and isanim(P, o.get('cal', {}).get('c')):
            return x['args'][0]
    elif n == 'GetCurve' and x.get('args') and (x.get('cal', {}).get('c') or '') == 'FCDAnimationChannel':
        return x['args'][0]
    elif n in SLOTFN and x.get('args') and isanim(P, x.get('cal', {}).get('c')):
        return x['args'][0]
    return None


def owner(x, one):
    """The animated value an access is to a slot of."""
    o = unwrap(x['obj']) if isinstance(x.get('obj'), dict) else None
    for _ in range(4):
        if o is None:
            return 'this'
        if o['k'] == 'Ref' and o.get('d') in one:
            o = unwrap(one[o['d']])
        elif o['k'] == 'Mem' and o['n'] in LISTS:
            o = unwrap(o['b'])
        elif o['k'] == 'Call' and callee_n(o) in ('GetCurves', 'GetQualifiers') and isinstance(o.get('obj'), dict):
            o = unwrap(o['obj'])
        else:
            break
    return show(o)


def spread(P, f, e, one, seen, vis):
    for x in walk_e(e):
        i = slot(P, f, x, one)
        if i is not None:
            seen.append((x, i))
        if x['k'] == 'Ref' and x.get('d') in one and x['d'] not in vis and x.get('dk') == 'var':
            vis.add(x['d'])
            spread(P, f, one[x['d']], one, seen, vis)


def const(e):
    u = unwrap(e)
    return u['k'] in ('Int', 'Cast', 'Null', 'Bool') or isinstance(u.get('v'), int) or u['k'] == 'Un' and const(u['e'])


def refs(e, one):
    """The variables an index is made of."""
    out = set()
    def go(x, depth):
        for y in walk_e(x):
            if y['k'] == 'Ref' and y.get('dk') in ('var', 'parm'):
                if y.get('d') in one and depth and unwrap(one[y['d']])['k'] in ('Ref', 'Bin', 'Idx', 'Call'):
                    go(one[y['d']], depth - 1)
                out.add(y.get('d'))
    go(e, 3)
    return out


def index(e, one):
    e = unwrap(e)
    for _ in range(4):
        if e['k'] == 'Ref' and e.get('d') in one and unwrap(one[e['d']])['k'] in ('Ref', 'Bin', 'Idx'):
            e = unwrap(one[e['d']])
    if e['k'] in ('Int', 'Cast') or 'v' in e and isinstance(e['v'], int):
        return None
    return show(e)


# --- lists of animatable values --------------------------------------------------------------------------------------------------------

def lists(P, R):
    """When a list of animatable values is edited, the animations are told of the same edit and their pointers are set again."""
    n = 0
    done = set()
    for c in sorted(P.cls):
        if not c.startswith('FCDParameterListAnimatableT<'):
            continue
        for f in P.fns.values():
            if f.cls != c or f.body is None:
                continue
            if f.n in ('CreateAnimated', 'OnPotentialSizeChange') or f.r.get('const'):
                continue
            edits(P, R, f)
            n += 1
        for f in P.byq.get(c + '::OnPotentialSizeChange', ()):
            if f.body is not None:
                refresh(P, R, f)
                n += 1
    for q in ('FCDParameterListAnimatable::OnInsertion', 'FCDParameterListAnimatable::OnRemoval'):
        for f in P.byq.get(q, ()):
            shift(P, R, f)
    R.count('routines that edit a list of animatable values', n)
    R.floor('routines that edit a list of animatable values', n, 10)


def edits(P, R, f):
    N = Sym.var('n')

    class St:
        pass
    st = St()

    def mk():
        st.size = N
        st.ev = []
        return Obj(f.cls), [Sym.var('p:' + p['n']) if bare(p['t']) in ('size_t', 'unsigned long', 'int', 'uint32') else T('p:' + p['n'], p['t']) for p in f.params]

    def hook(I, e, obj, args, fr):
        n = callee_n(e)
        o = unwrap(e['obj']) if isinstance(e.get('obj'), dict) else None
        if n in ('OnInsertion', 'OnRemoval'):
            st.ev.append(('told', '+' if n == 'OnInsertion' else '-', Sym.of(args[0]), Sym.of(args[1]), f.loc(e)))
            return T('void')
        if n == 'OnPotentialSizeChange':
            st.ev.append(('set',))
            return T('void')
        if n in ('SetStructureChangedFlag', 'SetDirtyFlag', 'SetValueChange', 'GetParent'):
            return T('parent', 'FUParameterizable *')
        if o is not None and o['k'] == 'Mem' and o['n'] == 'values':
            if n in ('size', 'end'):
                return st.size
            if n == 'begin':
                return Sym.of(0)
            if n == 'find':
                return Sym.var('found')
            if n == 'empty':
                return NotImplemented
            args = [a for a, x in zip(args, e['args']) if not (isinstance(x, dict) and x.get('dflt'))]
            z = [a if isinstance(a, (Sym, int)) and not isinstance(a, bool) else None for a in args]
            ed = None
            if n == 'insert' and len(z) == 2:
                ed = ('+', z[0], 1)
            elif n == 'insert' and len(z) == 3:
                # (where, value, count), (where, count, value)
                t = [bare(a.get('t', '').rstrip('&')) if isinstance(a, dict) else '' for a in e['args']]
                ps = e.get('cal', {}).get('p') or []
                k = next((k for k in (1, 2) if k < len(ps) and bare(ps[k]) in ('size_t', 'unsigned long')), None)
                ed = ('+', z[0], z[k] if k else None)
            elif n == 'erase' and len(z) == 1:
                ed = ('-', z[0], 1)
            elif n == 'erase' and len(z) == 2:
                ed = ('-', z[0], Sym.of(z[1]) - Sym.of(z[0]))
            elif n == 'clear':
                ed = ('-', Sym.of(0), st.size)
            elif n == 'push_back':
                ed = ('+', st.size, 1)
            elif n == 'push_front':
                ed = ('+', Sym.of(0), 1)
            elif n == 'pop_back':
                ed = ('-', st.size - Sym.of(1), 1)
            elif n == 'pop_front':
                ed = ('-', Sym.of(0), 1)
            elif n == 'resize':
                ed = ('=', z[0], None)
            if ed is not None:
                if ed[1] is None or ed[0] != '=' and ed[2] is None:
                    raise Unsupported('edit of the list not followed: ' + show(e))
                if ed[0] == '=':
                    st.ev.append(('edit', '=', st.size, Sym.of(ed[1]), f.loc(e)))
                    st.size = Sym.of(ed[1])
                else:
                    cnt = Sym.of(ed[2])
                    st.ev.append(('edit', ed[0], Sym.of(ed[1]), cnt, f.loc(e)))
                    st.size = st.size + cnt if ed[0] == '+' else st.size - cnt
                return T('it')
            if n in ('at', 'operator[]', 'front', 'back', 'GetDataPtr', 'capacity', 'contains'):
                return T('element')
        return NotImplemented
    I = Algebra(P, extra=hook)
    try:
        for rv, _, s in I.paths(f, mk=mk):
            told(R, f, list(st.ev), s, I)
    except Unsupported as x:
        R.notes.append('%s: %s could not be followed: %s' % (f.loc(), f.q, x))


def said(ev):
    return ', '.join('%s %s at %s' % ('insert' if k == '+' else 'remove', c.text(), o.text()) for k, o, c in ev) or 'no edit'


def told(R, f, ev, s, I):
    if s['end'] != 'ret':
        return
    ed, tl = [], []
    sg = Signs(s['conds'])
    for x in ev:
        if x[0] == 'edit':
            if x[1] == '=':
                d = x[3] - x[2]
                if d.n.zero():
                    continue
                p, flip = canon(d)
                opts = sg.sg.get(p.text(), {'+', '-', '0'})
                if flip:
                    opts = {{'+': '-', '-': '+', '0': '0'}[o] for o in opts}
                ed.append(('=', x[2], x[3], opts))
            else:
                ed.append((x[1], x[2], x[3]))
        elif x[0] == 'told':
            tl.append((x[1], x[2], x[3]))
    ok = True
    rest = list(tl)
    for e in ed:
        t = rest.pop(0) if rest else None
        if e[0] == '=':
            grow = t and t[0] == '+' and t[1].same(e[1]) and t[2].same(e[2] - e[1]) and '-' not in e[3]
            fall = t and t[0] == '-' and t[1].same(e[2]) and t[2].same(e[1] - e[2]) and '+' not in e[3]
            none = t is None and e[3] <= {'0'}
            if t is not None and not grow and not fall and e[3] <= {'0'}:
                rest.insert(0, t)
                none = True
            ok = ok and bool(grow or fall or none)
        else:
            ok = ok and t is not None and t[0] == e[0] and t[1].same(e[1]) and t[2].same(e[2])
    ok = ok and not rest
    plain = [('+', e[1], e[2] - e[1]) if e[0] == '=' and '-' not in e[3] else ('-', e[2], e[1] - e[2]) if e[0] == '=' else e for e in ed]
    key = '%s(%s)' % (f.q, ','.join(p['t'] for p in f.params))
    R.ob('told:' + key, f.loc(), ok, '%s edits the list (%s) but tells the animations of %s' % (f.q, said(plain), said(tl)))
    last = max([i for i, x in enumerate(ev) if x[0] in ('edit', 'told')], default=None)
    if last is not None:
        R.ob('set:' + key, f.loc(), any(x[0] == 'set' for x in ev[last + 1:]), '%s leaves the animations pointing into the list as it was before the edit' % f.q)


def refresh(P, R, f):
    """Every animation of the list gets its pointers again: nothing but an empty list, or a broken invariant, ends the work early."""
    G = Guards(f)
    sets = [x for x in f.calls() if callee_n(x) == 'SetValue']
    key = f.q
    R.ob('refresh:' + key, f.loc(), bool(sets), '%s sets no pointer' % f.q)
    loops = set()
    for x in sets:
        for g in G.at.get(id(x), ()):
            if g[0] == 'loop':
                loops.add(id(g[1]))
        for g in G.at.get(id(x), ()):
            if isinstance(g[0], dict) and not harmless(g[0], g[1]):
                R.bad('refresh-all:' + key, f.loc(x), 'the pointer is set only when %s%s' % ('' if g[1] else 'not ', show(g[0])))
    for st in stmts(f):
        if st['k'] != 'Return':
            continue
        gs = G.at.get(id(st)) or (G.at.get(id(st['e'])) if isinstance(st.get('e'), dict) else None)
        if gs is None:
            gs = stguards(f, st)
        for g in gs[-1:]:
            if isinstance(g[0], dict):
                R.ob('refresh-all:%s:%s' % (key, show(g[0])), f.loc(st), harmless(g[0], g[1]),
                     '%s leaves without setting the pointers again when %s%s' % (f.q, '' if g[1] else 'not ', show(g[0])))


def harmless(c, pol):
    """An empty list, or the index of an animation compared with the size of the list."""
    u = unwrap(c)
    while u['k'] == 'Un' and u['op'] == '!':
        u, pol = unwrap(u['e']), not pol
    if u['k'] == 'Bin' and u['op'] in ('&&', '||'):
        return harmless(u['L'], pol) and harmless(u['R'], pol)
    names_ = {x.get('n') or callee_n(x) for x in walk_e(u)}
    if 'GetValue' in names_ or any(x['k'] == 'Un' and x['op'] == '&' for x in walk_e(u)):
        return False
    return u['k'] == 'Bin' and u['op'] in ('<', '>', '<=', '>=', '==', '!=') or u['k'] == 'Call' and callee_n(u) == 'empty' or u['k'] in ('Ref',)


def stguards(f, st):
    """The conditions around a statement."""
    out = []
    def go(s, gs):
        if s is st:
            out.append(gs)
            return
        if s['k'] == 'If':
            if isinstance(s.get('T'), dict):
                go(s['T'], gs + ((s['c'], True),))
            if isinstance(s.get('F'), dict):
                go(s['F'], gs + ((s['c'], False),))
            return
        for c in sub_stmts(s):
            go(c, gs)
    go(f.body, ())
    return out[0] if out else ()


def shift(P, R, f):
    """The animations behind an edit move by its size; those of removed elements go away."""
    if f.body is None or len(f.params) != 2:
        return
    off, cnt, k = Sym.var('offset'), Sym.var('count'), Sym.var('k')
    ev = []

    def mk():
        ev[:] = []
        return Obj(f.cls), [off, cnt]

    def hook(I, e, obj, args, fr):
        n = callee_n(e)
        if n == 'GetArrayElement':
            return k
        if n == 'BinarySearch':
            ev.append(('from', Sym.of(args[0])))
            return T('first', 'size_t')
        if n == 'SetArrayElement':
            ev.append(('set', Sym.of(args[0]), f.loc(e)))
            return T('void')
        if n in ('Release', 'erase'):
            ev.append(('gone', f.loc(e)))
            return T('void')
        return NotImplemented
    I = Algebra(P, extra=hook, maxpaths=4096)
    out = []
    try:
        for rv, _, s in I.paths(f, mk=mk):
            out.append((list(ev), s))
    except Unsupported as x:
        R.notes.append('%s: %s could not be followed: %s' % (f.loc(), f.q, x))
        return
    ins = f.n == 'OnInsertion'
    seen = {'set': 0, 'gone': 0}
    for l, s in out:
        frm = None
        for x in l:
            if x[0] == 'from':
                frm = x[1]
            elif x[0] == 'set':
                seen['set'] += 1
                want = k + cnt if ins else k - cnt
                R.ob('moved:' + f.n, x[2], x[1].same(want), '%s moves an animation from element k to %s, not %s' % (f.q, x[1].text(), want.text()))
                R.ob('moved-from:' + f.n, x[2], frm is None or frm.same(off if ins else off + cnt),
                     '%s moves the animations from element %s on, not %s' % (f.q, frm.text() if frm else '', (off if ins else off + cnt).text()))
            elif x[0] == 'gone':
                seen['gone'] += 1
                R.ob('gone:' + f.n, x[1], not ins and (frm is None or frm.same(off)), '%s drops the animations from element %s on' % (f.q, frm.text() if frm else '?'))
                d = k - off - cnt
                p, flip = canon(d)
                opts = Signs(s['conds']).sg.get(p.text(), {'+', '-', '0'})
                if flip:
                    opts = {{'+': '-', '-': '+', '0': '0'}[o] for o in opts}
                R.ob('gone-to:' + f.n, x[1], opts <= {'-'}, '%s drops animations of elements that are not removed' % f.q)
    R.ob('moved:' + f.n, f.loc(), seen['set'] > 0, '%s moves no animation' % f.q)
    if not ins:
        R.ob('gone:' + f.n, f.loc(), seen['gone'] > 0, '%s drops no animation' % f.q)


