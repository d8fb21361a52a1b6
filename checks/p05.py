"""For every constructor of every class in the object hierarchy: a must-assign data-flow over the member initialisers and the
body (following calls on the same object) shows each numeric, boolean, enumeration and pointer member set on every path to
the end, wrapped parameter members counting as set only when their own constructor sets the wrapped value or the owner
assigns it. Also: no such member is read by the constructor before it is set."""
from initcheck import *

WRAP = ('FUParameterT<', 'FCDParameterAnimatableT<')
SCALARS = ('float', 'double', 'bool', 'int', 'unsigned int', 'unsigned char', 'char', 'short', 'unsigned short', 'long', 'unsigned long')


def wrapper_of(P, t):
    """The scalar-wrapping parameter class a member type is, or derives from."""
    t = bare(t)
    for c in [t] + P.ancestors(t):
        for w in WRAP:
            if c.startswith(w):
                a = c[len(w):].split(',')[0].rstrip('>').strip()
                if a in SCALARS or a.endswith('*') or a in P.enums:
                    return c
    return None


def leaves_undefined(P, A, ctor, depth=0):
    """Does a parameter wrapper's constructor leave the wrapped value without a definite value?"""
    if ctor is None or depth > 4:
        return False
    for i in ctor.r.get('inits', ()):
        if i.get('base') and isinstance(i.get('e'), dict) and i['e']['k'] == 'Ctor' and wrapper_of(P, i['base']):
            return leaves_undefined(P, A, P.direct(i['e']), depth + 1)
    c = P.cls.get(ctor.cls)
    if c is None:
        return False
    sc = [x['n'] for x in c.fields if x.get('scalar') and not x.get('inie') and x['n'] == 'value']
    if not sc:
        return False
    s = set(i['f'] for i in ctor.r.get('inits', ()) if i.get('f') and i.get('w'))
    if ctor.body is not None:
        s |= A.must(ctor)
    return any(x not in s for x in sc)


def run(P, R):
    A = InitAnalysis(P)
    nct = nf = npar = 0
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if f.kind != 'ctor' or f.body is None or f.r.get('implicit') or not f.cls:
            continue
        if 'FColladaTest' in f.file or not P.derives(f.cls, 'FUObject'):
            continue
        c = P.cls.get(f.cls)
        if c is None:
            continue
        inits = f.r.get('inits', ())
        if any(i.get('deleg') for i in inits):
            continue
        nct += 1
        sig = '(%s)' % ','.join(p['t'] for p in f.params)
        done = set(i['f'] for i in inits if i.get('f') and i.get('w')) | A.must(f)
        byf = {i['f']: i for i in inits if i.get('f')}
        for x in c.fields:
            key = '%s%s:%s' % (f.cls, sig.replace(' ', ''), x['n'])
            if x.get('scalar'):
                nf += 1
                R.ob(key, f.loc(), x.get('inie') or x.get('ini') or x['n'] in done,
                     'constructor of %s leaves member %s undefined on some path' % (f.cls, x['n']))
            elif wrapper_of(P, x['t']):
                npar += 1
                i = byf.get(x['n'])
                und = False
                if i and isinstance(i.get('e'), dict) and i['e']['k'] == 'Ctor':
                    und = leaves_undefined(P, A, P.direct(i['e']))
                    if und and not i.get('w') and x['n'] in A.must(f):
                        und = False
                    elif und:
                        und = not assigned(P, f, x['n'])
                R.ob(key, f.loc(), not und, 'constructor of %s leaves the value of parameter %s undefined' % (f.cls, x['n']))
        # reads before writes of own scalars
        names = {x['n'] for x in c.fields if x.get('scalar') and not x.get('inie')}
        early = read_early(P, A, f, names)
        for n, l in early:
            R.bad('%s%s:%s:read' % (f.cls, sig.replace(' ', ''), n), '%s:%d' % (f.file, l), 'constructor of %s reads member %s before setting it' % (f.cls, n))
    R.count('constructors', nct)
    R.count('scalar members', nf)
    R.count('wrapped parameter members', npar)
    R.floor('constructors', nct, 100)
    R.floor('scalar members', nf, 90)
    R.floor('wrapped parameter members', npar, 60)


def assigned(P, f, name):
    cfg = f.cfg()

    def tr(s, n):
        if s:
            return s
        if n.k == 'ev':
            e = n.e
            if e['k'] == 'Call' and e.get('op') == '=':
                o = e.get('obj') or (e['args'][0] if e['args'] else None)
                return this_field(o) == name
            if e['k'] == 'Bin' and e['op'] == '=':
                return this_field(e['L']) == name
        return s
    inn = solve(cfg, False, tr, lambda s, a: s, lambda a, b: a and b)
    return bool(inn[cfg.exit.i]) or inn[cfg.exit.i] is None


def read_early(P, A, f, names):
    cfg = f.cfg()
    lhs = set()
    for e in f.exprs():
        if e['k'] == 'Bin' and e['op'] == '=':
            lhs.add(id(unwrap(e['L'])))
        if e['k'] == 'Un' and e['op'] == '&':
            lhs.add(id(unwrap(e['e'])))
        if e['k'] == 'Call':
            ps = (e.get('cal') or {}).get('p', ())
            for i, a in enumerate(e.get('args', ())):
                if i < len(ps) and ps[i].endswith('&'):
                    lhs.add(id(unwrap(a)))
        if e['k'] in ('Idx', 'Ctor'):
            for a in e.get('args', ()):
                lhs.add(id(unwrap(a)))
    out = {}

    def tr(s, n):
        if n.k == 'ev':
            w = A.writes(n.e)
            return s | w if w else s
        if n.k == 'init' and n.e.get('f'):
            return s | {n.e['f']}
        return s
    inn = solve(cfg, frozenset(), tr, lambda s, a: s, lambda a, b: a & b)
    for n in cfg.nodes:
        if n.k == 'ev' and n.e['k'] == 'Mem' and inn[n.i] is not None and id(n.e) not in lhs:
            g = this_field(n.e)
            if g in names and g not in inn[n.i]:
                out[g] = n.e.get('l', f.line)
    return sorted(out.items())
