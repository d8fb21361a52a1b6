"""Each function that maps a kind tag to a freshly built object is evaluated by constant propagation for every enumerator of
the tag; the built object's own tag query, evaluated on that object, must return the requested tag (or the tag's library
entity type it was built for), and a tag for which some concrete class answers must not be mapped to nothing. Tag queries
of sibling concrete classes must be pairwise distinct."""
from ceval import *


def tag_methods(P):
    """Virtual, argument-less const queries returning an enumeration: (root class, method name) -> enum."""
    out = {}
    for c in P.cls.values():
        for m in c.methods:
            pass
    for f in P.fns.values():
        if f.cls and f.r.get('virt') and f.const and not f.params and bare(f.r['ret']) in P.enums and f.n.endswith('Type'):
            root = f.cls
            for a in P.ancestors(f.cls):
                if a in P.cls and any(m['n'] == f.n for m in P.cls[a].methods):
                    root = a
            out.setdefault((root, f.n), bare(f.r['ret']))
    for c in P.cls.values():     # pure ones
        for m in c.methods:
            pass
    return out


def concrete(P, root):
    return [c for c in sorted({root} | P.descendants(root)) if c in P.cls and not P.cls[c].r.get('abstract')]


def tags_of(P, R, I, cls, mname, obj=None):
    ms = P.method(cls, mname)
    if not ms:
        return None
    got = I.outs(R, ms[0], obj or Obj(cls, 'x'), [])
    return None if got is None else set(rv if isinstance(rv, int) and not isinstance(rv, bool) else None for rv, st in got)


def run(P, R):
    I = Interp(P)
    tm = tag_methods(P)
    nf = npairs = 0
    # 1. sibling classes answer distinct tags
    answers = {}
    for (root, mname), et in sorted(tm.items()):
        names = {x['v']: x['n'] for x in P.enums[et]['e']}
        own = {}
        for c in concrete(P, root):
            t = tags_of(P, R, I, c, mname)
            if t and len(t) == 1 and None not in t:
                own[c] = next(iter(t))
        answers[(root, mname)] = own
    # 2. factories
    for f in sorted(P.fns.values(), key=lambda f: f.q):
        if not is_ptr(f.r['ret']) or 'FColladaTest' in f.file or f.kind:
            continue
        base = bare(f.r['ret'])
        if base not in P.cls:
            continue
        news = [e for e in f.exprs() if e['k'] == 'New' and e['nt'] in P.cls and e['nt'] != base and P.derives(e['nt'], base)]
        if len(set(e['nt'] for e in news)) < 3:
            continue
        cand = [(k, et) for k, et in tm.items() if P.derives(base, k[0])]
        if not cand:
            continue
        ti = None
        for i, p in enumerate(f.params):
            t = bare(p['t'])
            for k, et in cand:
                if t == et:
                    ti, key = i, k
        if ti is None:
            for i, p in enumerate(f.params):
                if bare(p['t']) in ('unsigned int', 'int'):
                    ti, key = i, cand[0][0]
        if ti is None:
            continue
        nf += 1
        root, mname = key
        et = tm[key]
        own = {c: t for c, t in answers[key].items() if P.derives(c, base)}
        for x in P.enums[et]['e']:
            if any(c in x['n'] for c in ('UNKNOWN', 'INVALID', 'COUNT')):
                continue
            args = [T('a:%s' % p['n'], p['t']) for p in f.params]
            args[ti] = x['v']
            want = [c for c, t in own.items() if t == x['v']]
            got = I.outs(R, f, T('this'), args)
            if got is None:
                continue
            outs = [rv for rv, st in got if st['end'] == 'ret']
            built = any(isinstance(rv, Obj) for rv in outs)
            for rv in outs:
                k = '%s:%s' % (f.q, x['n'])
                if rv is None and not built:
                    R.ob(k, f.loc(), not want, '%s returns nothing for %s, which is the kind of %s' % (f.q, x['n'], ', '.join(want)))
                    npairs += 1
                elif isinstance(rv, Obj):
                    t = tags_of(P, R, I, rv.cls, mname, rv)
                    if t is None:
                        continue
                    R.ob(k, f.loc(), t == {x['v']}, '%s builds a %s for %s, whose %s() answers %s' % (f.q, rv.cls, x['n'], mname, sorted(map(str, t or []))))
                    npairs += 1
    R.count('factories', nf)
    R.count('factory cases', npairs)
    R.floor('factories', nf, 4)
    for (root, mname), own in answers.items():
        rev = defaultdict(list)
        for c, t in own.items():
            rev[t].append(c)
        for t, cs in rev.items():
            # a kind that inherits its answer, and instances of one template, share a tag by design
            top = set(P.method(c, mname)[0].cls.split('<')[0] for c in cs)
            top = [c for c in top if not any(o != c and P.derives(c, o) for o in top)]
            R.ob('%s::%s:%s' % (root, mname, t), '', len(top) <= 1, 'unrelated kinds answer the same tag: %s' % ', '.join(sorted(top)))
        R.count('kinds with tags', len(own))
