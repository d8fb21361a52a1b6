"""P22: an object is only taken for a kind it is."""
import re
from model import *
import casts
from casts import Casts, clean, strip, key, const, decls, enumvals
import p14


def down(e):
    """A cast from a base class, or one between classes of which the routine only knows the names."""
    return e['k'] == 'Cast' and (e.get('ck') == 'BaseToDerived' or e.get('ck') == 'BitCast' and e.get('ex'))


def events(f):
    """Every base-to-derived cast of a routine with the node it is evaluated in (once per cast)."""
    seen = set()
    for n in f.cfg().nodes:
        es = [n.e] if n.k in ('ev', 'br', 'ret', 'sw', 'init') and isinstance(n.e, dict) else [d['init'] for d in decls(n) if isinstance(d.get('init'), dict)] if n.k == 'decl' else []
        es = [e if 'k' in e else e.get('e') for e in es]
        for e in es:
            for x in walk_e(e) if isinstance(e, dict) else ():
                if down(x) and id(x) not in seen:
                    seen.add(id(x))
                    yield n, x


def bare_kind(c):
    """Instantiations of one template that differ only in a number are laid out alike."""
    return re.sub(r', \d+>$', '>', c)


def tables(P):
    t = {}
    for tab in p14.handler_tables(P).values():
        for c, (h, w) in tab.items():
            t.setdefault(h.id, set()).add(c)
    return t


def reasons(P, C, f, x, S, to):
    """Evidence that is not about the object itself."""
    e = strip(x['e'])
    at = C.below(to)
    facts = [(k[1:], v) for k, v in S.items() if k[0] == '=']
    # the element of a table of which another table was made, entry by entry
    m = re.match(r'(.*)\[(.*)\]$', key(e) or '')
    if m:
        for t, v in facts:
            g = re.match(r'(.*)\[(.*)\]->(\w+)$', t)
            if g and g.group(2) == m.group(2):
                d = C.disc(clean(e.get('t')), g.group(3))
                if d and v in d and d[v] and d[v] <= at and any(
                        y['k'] == 'Call' and any(re.match(re.escape(m.group(1)) + r'\[.*\]->' + g.group(3) + '$', key(a) or '') for a in y.get('args', ())) for y in f.exprs()):
                    return True
    # the entries of two tables at the same place, filled with the same value
    d = S.get('?' + e['n']) if e['k'] == 'Ref' else None
    m = re.match(r'.*\[(.*)\]$', show(strip(d.e))) if d is not None else None
    if m:
        made = [show(a) for y in f.exprs() if y['k'] == 'Call' and clean(y.get('t')) == clean(e.get('t')) for a in map(strip, y.get('args', ())[:1]) if a['k'] == 'Mem']
        for t, v in facts:
            g = re.match(r'(\w+)->(\w+)$', t)
            o = S.get('?' + g.group(1)) if g else None
            if o is not None and re.match(r'.*\[' + re.escape(m.group(1)) + r'\]$', show(strip(o.e))):
                d = C.disc(clean(e.get('t')), g.group(2))
                if d and d.get(v) and d[v] <= at and len(made) > len(set(made)):
                    return True
    # the kind of the elements is picked by a value the owner was asked about
    frm = clean(x['e'].get('t'))
    for g in P.fns.values():
        if g.cls == f.cls and g.cls and g.body is not None and clean(g.r.get('ret')) == frm and is_ptr(str(g.r.get('ret'))):
            ps = [p for p in g.params if clean(p['t']) in P.enums]
            if len(ps) == 1:
                for t, v in facts if not (e['k'] == 'Ref' and d is not None) else ():
                    if '->' in t and not t.startswith('this->'):
                        continue
                    r = C.returns(g, {ps[0]['n']: v})
                    if r and r <= at:
                        return True
    # made here when it was not there yet
    lazy = key(e)
    for n in f.cfg().nodes:
        if n.k == 'br' and isinstance(n.e, dict) and e['k'] in ('Call', 'Mem'):
            y = unwrap(n.e)
            y = unwrap(y['e']) if y['k'] == 'Un' and y['op'] == '!' else y['L'] if y['k'] == 'Bin' and y['op'] in ('==', '!=') and C.null(y['R']) else y
            if key(y) == lazy:
                for c in f.exprs():
                    if c['k'] == 'Call' and len(c.get('args', ())) == 1 and c.get('obj') is not None and callee_n(e) in C.setter(c) and C.kinds(c['args'][0], {}, f) <= at:
                        return True
    n = 0
    while e['k'] == 'Ref' and '?' + e.get('n', '') in S and n < 4:
        e = strip(S['?' + e['n']].e)
        n += 1
    if e['k'] == 'Call':
        for a in e.get('args', ()):
            b = a
            while isinstance(b, dict) and b['k'] == 'Cast':
                b = b['e']
            # handed out together with a flag that tells which kind it is
            if b['k'] == 'Un' and b['op'] == '&' and str(strip(b['e']).get('t')) == 'bool':
                return True
            # made for what another object of the kind is made for
            a = strip(a)
            if a['k'] == 'Call' and a.get('obj') is not None and not a.get('args') and clean(a.get('t')) in P.enums:
                ks = C.kinds(a['obj'], S, f)
                if ks and ks <= at:
                    return True
    return False


def put(e, m):
    if isinstance(e, list):
        return [put(x, m) for x in e]
    if not isinstance(e, dict):
        return e
    if e.get('k') == 'Ref' and e.get('dk') == 'parm' and e['n'] in m:
        return m[e['n']]
    return {k: put(v, m) for k, v in e.items()}


def lifted(C, f, e, fit, depth=0):
    """Said of the arguments where the routine is called."""
    ps = {p['n'] for p in f.params}
    refs = [x for x in walk_e(e) if x['k'] in ('Ref', 'This')]
    if depth > 2 or not refs or f.id in C.tables or f.r.get('virt') or any(x['k'] == 'This' or x.get('dk') != 'parm' or x['n'] not in ps for x in refs):
        return False
    for x in f.exprs():
        t = strip(x['L']) if x['k'] == 'Bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') else strip(x['e']) if x['k'] == 'Un' and x['op'] in ('++', '--') else None
        if isinstance(t, dict) and t['k'] == 'Ref' and t.get('n') in {r['n'] for r in refs}:
            return False
    sites = C.sites(f)
    if not sites or f.id in C._taken:
        return False
    for g, c in sites:
        S = C.at(g, c)[0]
        if S is None:
            continue
        m = {p['n']: a for p, a in zip(f.params, c.get('args', ()))}
        if len(m) < len(f.params):
            return False
        y = put(e, m)
        if any(bare_kind(k) not in fit for k in C.arrive(y, S, g)) and not lifted(C, g, y, fit, depth + 1):
            return False
    return True


def tested(C, f, x, fit):
    """The result is first asked what it is: every use but the question finds it narrowed."""
    v = None
    for n in f.cfg().nodes:
        for d in decls(n):
            if isinstance(d.get('init'), dict) and any(y is x for y in walk_e(d['init'])) and strip(d['init']) is strip(x):
                v = d['n']
    if v is None:
        return False
    inn = C.flow(f)
    for n in f.cfg().nodes:
        if inn[n.i] is None or not isinstance(n.e, dict) or n.k not in ('ev', 'ret'):
            continue
        e = n.e
        use = None
        if e['k'] == 'Mem' and e.get('b') is not None:
            use = strip(e['b'])
        elif e['k'] == 'Call':
            o = e.get('obj')
            if o is not None and callee_n(e) not in ('HasType', 'IsType', 'GetObjectType', 'GetType'):
                use = strip(o)
            for a in e.get('args', ()):
                if strip(a)['k'] == 'Ref' and strip(a).get('n') == v:
                    use = strip(a)
        elif n.k == 'ret':
            use = strip(e)
        if isinstance(use, dict) and use['k'] == 'Ref' and use.get('n') == v:
            ks = inn[n.i].get(v)
            if ks is None or any(bare_kind(c) not in fit for c in ks):
                return False
    return True


def run(P, R):
    C = Casts(P, tables(P))
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file or '', f.line, f.id)):
        if f.body is None or not (f.file or '').startswith(('FCollada/', 'FColladaPlugins/')) or 'FColladaTest' in f.file:
            continue
        if not any(down(e) for e in f.exprs()):
            continue
        inn = None
        cnt = {}
        for node, x in events(f):
            to, frm = clean(x['t']), clean(x['e'].get('t'))
            if to not in P.cls or frm not in P.cls or not P.derives(to, frm) or frm == to or frm in ('FUTrackable', 'FUObject', 'FUParameterizable'):
                continue
            n += 1
            if inn is None:
                inn = C.flow(f)
            S = inn[node.i]
            k = '%s:%s' % (f.q, to)
            cnt[k] = cnt.get(k, 0) + 1
            k = '%s:%d' % (k, cnt[k])
            while k in R.obs:
                k += "'"
            if S is None:
                R.ob(k, f.loc(x), True, '')
                continue
            ks = C.arrive(x['e'], S, f)
            fit = {bare_kind(c) for c in C.below(to)}
            bad = sorted(c for c in ks if bare_kind(c) not in fit)
            if bad and (lifted(C, f, x['e'], fit) or reasons(P, C, f, x, S, to) or tested(C, f, x, fit)):
                bad = []
            R.ob(k, f.loc(x), not bad, '%s: %s is taken for a %s, it may be a %s' % (f.q, show(x['e']), to, ', '.join(bad[:4])))
    R.floor('casts to a derived kind', n, 150)
    types(P, R)
    factories(P, R, C)


INTS = ('int', 'unsigned int', 'uint32', 'int32', 'size_t', 'unsigned long', 'long')


def factories(P, R, C):
    """What is made when a kind is asked for answers that it is of that kind."""
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file or '', f.line, f.id)):
        if f.body is None or not is_ptr(str(f.r.get('ret'))) or clean(f.r.get('ret')) not in P.cls or 'FColladaTest' in (f.file or ''):
            continue
        ps = [p for p in f.params if clean(p['t']) in P.enums and not str(p['t']).endswith('*')]
        ets = {clean(p['t']) for p in ps}
        if not ps:
            # the kind is handed in as a number
            ps = [p for p in f.params if clean(p['t']) in INTS and any(n.k == 'sw' and isinstance(n.e, dict) and key(n.e) == p['n'] for n in f.cfg().nodes)]
            own = clean(f.r.get('ret'))
            ets = {clean(m.get('ret')) for m in P.cls[own].methods if not m.get('p') and clean(m.get('ret')) in P.enums}
            vs = {a[2] for n in f.cfg().nodes if n.k == 'sw' for s in n.succ for a in [s[1]] if a and a[0] == 'case' and a[2] is not None}
            ets = {t for t in ets if vs <= set(enumvals(P.enums[t]))}
        if len(ps) != 1 or len(ets) != 1 or not any(e['k'] == 'New' for e in f.exprs()):
            continue
        et = ets.pop()
        for v in enumvals(P.enums[et]):
            for c in sorted(C.returns(f, {ps[0]['n']: v})):
                for m in sorted({g.n for q in [c] + list(P.ancestors(c)) if q in P.cls for g in map(P.fns.get, {m.get('id') for m in P.cls[q].methods}) if g is not None and not g.params and clean(g.r.get('ret')) == et and g.r.get('virt')}):
                    t = C.tag(c, m)
                    if t is None:
                        continue
                    n += 1
                    # an object of that class is made for its own value; what is made for a value of no class is not told
                    own = any(C.tag(k, m) == v for k in P.cls if P.derives(k, clean(f.r.get('ret'))) and not P.cls[k].r.get('abstract'))
                    R.ob('made:%s:%s:%s' % (f.q, v, c), '%s:%d' % (f.file, f.line), t == v or not own, '%s makes a %s for a kind that is not the one it answers (%s() is %s)' % (f.q, c, m, t))
    R.floor('kinds made on request', n, 20)


def types(P, R):
    """What a class answers when asked what it is: itself, and as its parent the nearest class above it that answers."""
    own = {}
    for q, v in P.vars.items():
        if q.endswith('::__classType') and isinstance(v.get('init'), dict):
            a = v['init'].get('args') or []
            own[q[:-len('::__classType')]] = [e['cal'].get('c') for e in walk_e(a[0]) if e['k'] == 'Call' and e.get('cal')] if a else []
    for c in sorted(own):
        if c == 'FUObject' or c not in P.cls:
            continue
        up = [x for x in P.ancestors(c) if x in own or x == 'FUObject']
        where = P.cls[c].r.get('file') or c
        R.ob('parent:' + c, where, bool(own[c]) and bool(up) and own[c][0] == up[0],
             '%s says that it is a kind of %s; it is derived from %s' % (c, own[c][0] if own[c] else 'nothing', up[0] if up else 'nothing'))
        for m in ('GetObjectType', 'GetClassType'):
            for g in P.byq.get('%s::%s' % (c, m), []):
                for n in g.cfg().nodes:
                    if n.k == 'ret' and isinstance(n.e, dict):
                        x = unwrap(n.e)
                        q = x.get('q') if x['k'] == 'Ref' else callee_q(x) if x['k'] == 'Call' else ''
                        R.ob('%s:%s' % (m, c), g.loc(n.e), q in (c + '::__classType', c + '::GetClassType'), '%s answers %s' % (g.q, show(n.e)))
    for c in sorted(P.cls):
        if P.derives(c, 'FUObject') and c not in own and c != 'FUObject' and not P.cls[c].r.get('abstract'):
            # of a class that does not answer for itself, nothing may be taken for one of them by asking
            asked = [f.loc(e) for f in P.fns.values() if f.body is not None for e in f.exprs() if e['k'] == 'Cast' and clean(e.get('t')) == c and str(e.get('ck')) == 'BaseToDerived']
            R.ob('own:' + c, P.cls[c].r.get('file') or c, not asked, '%s does not answer for itself and is cast to at %s' % (c, asked[:1]))
    R.floor('classes that answer what they are', len(own), 60)
    includes(P, R)


def side(e):
    """'this', the name of a variable, or x->parent, for an object type handed about as itself, *it or &it."""
    e = strip(e)
    while isinstance(e, dict) and e['k'] == 'Un' and e['op'] in ('*', '&'):
        e = strip(e['e'])
    if not isinstance(e, dict):
        return None
    if e['k'] == 'This':
        return 'this'
    if e['k'] == 'Ref':
        return e['n']
    if e['k'] == 'Mem' and clean(e.get('t')) == 'FUObjectType':
        b = side(e['b']) if e.get('b') is not None else 'this'
        return b + '.' + e['n'] if b else None
    return None


def asked(e):
    """(sides compared, whether for being the same) of a comparison of two object types."""
    if e['k'] == 'Call' and e.get('op') in ('==', '!='):
        s = ([e['obj']] if e.get('obj') is not None else []) + list(e.get('args', ()))
        return tuple(map(side, s)), e['op'] == '=='
    if e['k'] == 'Bin' and e['op'] in ('==', '!='):
        if strip(e['R'])['k'] == 'Null' or strip(e['L'])['k'] == 'Null':
            return (side(e['R'] if strip(e['L'])['k'] == 'Null' else e['L']), None), e['op'] == '=='
        return (side(e['L']), side(e['R'])), e['op'] == '=='
    if is_ptr(str(e.get('t'))) and side(e):
        return (side(e), None), False
    return None


def includes(P, R):
    """Going up from a type one step at a time until the type asked for is met."""
    n = 0
    for f in P.byq.get('FUObjectType::Includes', []):
        if f.body is None or len(f.params) != 1:
            continue
        other = f.params[0]['n']

        def assume(S, a):
            return tell(S, a[0], a[1]) if not isinstance(a[0], str) else S

        def tell(S, e, t):
            e = unwrap(e)
            if e['k'] == 'Un' and e['op'] == '!':
                return tell(S, e['e'], not t)
            if e['k'] == 'Bin' and e['op'] in ('&&', '||'):
                if (e['op'] == '&&') == t:
                    return tell(tell(S, e['L'], t), e['R'], t)
                return S
            q = asked(e)
            return S | {(q[0][0], q[0][1], q[1] == t), (q[0][1], q[0][0], q[1] == t)} if q and q[0][0] else S

        def forget(S, v):
            return frozenset(x for x in S if not any(y == v or str(y).startswith(v + '.') for y in x[:2]))

        def step(S, v, e):
            s = side(e)
            S2 = forget(S, v)
            if s == v + '.parent' and (v, other, False) in S:
                return S2 | {(v, '^', True)}
            if s == 'this':
                return S2 | {(v, '^', True)}
            if s == 'this.parent' and ('this', other, False) in S:
                return S2 | {(v, '^', True)}
            return S2

        def transfer(S, nd):
            if nd.k == 'decl':
                for d in decls(nd):
                    if isinstance(d.get('init'), dict) and clean(d.get('t')) == 'FUObjectType':
                        S = step(S, d['n'], d['init'])
            elif nd.k == 'ev' and isinstance(nd.e, dict) and nd.e['k'] == 'Bin' and nd.e['op'] == '=':
                v = side(nd.e['L'])
                if v:
                    S = step(S, v, nd.e['R'])
            return S

        inn = solve(f.cfg(), frozenset(), transfer, assume, lambda a, b: a & b)
        for nd in f.cfg().nodes:
            if nd.k == 'ret' and inn[nd.i] is not None and isinstance(nd.e, dict):
                todo = [(unwrap(nd.e), inn[nd.i])]
                while todo:
                    e, S = todo.pop()
                    chain = [v for v, o, t in S if o == '^'] + ['this']
                    if e['k'] == 'Cond':
                        todo += [(unwrap(e['T']), tell(S, e['c'], True)), (unwrap(e['F']), tell(S, e['c'], False))]
                        continue
                    if e['k'] == 'Bin' and e['op'] in ('||', '&&'):
                        or_ = e['op'] == '||'
                        todo += [({'k': 'Bool', 'v': int(or_)}, tell(S, e['L'], or_)), (unwrap(e['R']), tell(S, e['L'], not or_))]
                        continue
                    n += 1
                    k = 'includes:%d' % n
                    if const(e) is not None:
                        if const(e):
                            ok = any((v, other, True) in S for v in chain)
                        else:
                            ok = any((v, None, True) in S and v != 'this' or (v, other, False) in S and (v + '.parent', None, True) in S for v in chain)
                        R.ob(k, f.loc(nd.e), ok, '%s answers %s without having compared the whole way up' % (f.q, 'yes' if const(e) else 'no'))
                    elif e['k'] == 'Call' and callee_q(e) == f.q:
                        o = side(e['obj']) if e.get('obj') is not None else 'this'
                        ok = side(e['args'][0]) == other and any(o == v + '.parent' and (v, other, False) in S for v in chain) or o != 'this' and o in chain and side(e['args'][0]) == other
                        R.ob(k, f.loc(nd.e), ok, '%s goes on with %s' % (f.q, show(e)))
                    elif asked(e):
                        q, t = asked(e)
                        ok = t and other in q and any(v in q and (v + '.parent', None, True) in S for v in chain)
                        R.ob(k, f.loc(nd.e), ok, '%s answers %s' % (f.q, show(e)))
    for m, same in (('FUObjectType::operator==', True), ('FUObjectType::operator!=', False)):
        for f in P.byq.get(m, []):
            for nd in f.cfg().nodes:
                q = asked(unwrap(nd.e)) if nd.k == 'ret' and isinstance(nd.e, dict) else None
                if q:
                    R.ob(m, f.loc(nd.e), q[1] == same and set(q[0]) == {'this', f.params[0]['n']}, '%s answers %s' % (m, show(nd.e)))
    for f in P.byq.get('FUObject::HasType', []) + P.byq.get('FUObject::IsType', []):
        for nd in f.cfg().nodes:
            e = unwrap(nd.e) if nd.k == 'ret' and isinstance(nd.e, dict) else None
            if e is not None and e['k'] == 'Call' and len(e.get('args', ())) >= 1:
                a = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
                mine = [strip(x)['k'] == 'Call' and callee_n(strip(x)) == 'GetObjectType' for x in a]
                his = [side(x) == f.params[0]['n'] for x in a]
                if callee_n(e) == 'Includes' and f.n == 'HasType':
                    ok = mine[0] and his[1]
                elif e.get('op') == '==' and f.n == 'IsType':
                    ok = any(mine) and any(his)
                elif callee_n(e) == 'Includes' or e.get('op') in ('==', '!='):
                    ok = False
                else:
                    continue
                R.ob(f.q, f.loc(nd.e), ok, '%s answers %s' % (f.q, show(e)))
