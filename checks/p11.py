"""Lists behind an object's accessors: the list a count is taken from is the list its indexed getter, its whole-list getter, its
adding and its removing functions work on; the indexed getter answers exactly the asked element and only after the index was
compared with that list's size; what an adding function answers is what it appended."""
from p10 import *

GROW = ('push_back', 'insert', 'push_front', 'AddEntity')
SHRINK = ('erase', 'release', 'remove', 'clear', 'pop_back', 'resize')
SIZE = re.compile(r'^size\(self\.([\w.]+)\)$')
ELEM = re.compile(r'(?:at|operator\[\])\(self\.([\w.]+),(.*?)\)')
# lists kept elsewhere or by another rule
BY_DESIGN = {
    'FCDGeometryPolygons::FaceVertexCount': 'a sum over the faces, holes included',
    'FCDGeometrySource::Value': 'groups of the stride',
}


def names(x):
    """Singular names of a count's subject: Instances, Children, Channel."""
    yield x
    if x.endswith('ren'):
        yield x[:-3]
    if x.endswith('s') and not x.endswith('ss'):
        yield x[:-1]


class Seen(Settings):
    """Also records what is appended to and removed from lists."""

    def step(self, I, e, obj, args, fr):
        n = callee_n(e) if e['k'] == 'Call' else ''
        if isinstance(e.get('obj'), dict) and isinstance(obj, T) and n in GROW + SHRINK and (kind(e).startswith(LISTS) or kind(e).startswith('fm::')):
            for w in ('grow', 'shrink') if n == 'resize' else ('grow' if n in GROW else 'shrink',):
                self.trace.append((w, self.tag(obj), list(args) if n != 'resize' else []))
            if n in ('clear', 'resize'):
                return Settings.step(self, I, e, obj, args, fr)
            return T('%s(%s)' % (n, self.tag(obj)), e.get('t', ''))
        return Settings.step(self, I, e, obj, args, fr)


def explore(P, q, f, nonnull=(), args=None, whole=True):
    try:
        for rv, tr, st in Seen(P, nonnull=nonnull).paths(f, mk=lambda: (state(q, 0), args or [T('V%d' % i, p['t']) for i, p in enumerate(f.params)])):
            if st['end'] == 'ret':
                yield rv, list(tr), st
    except Unsupported as ex:
        if 'too many paths' not in str(ex) or whole:
            raise
        yield None, [('partial',)], {'conds': []}


def run(P, R):
    S = Pairs(P)
    for q in sorted(S.of):
        if q.startswith(('fm::', 'std::', 'FMVector')):
            continue
        ms = S.of[q]
        for n, fs in sorted(ms.items()):
            if not (n.startswith('Get') and n.endswith('Count') and len(n) > 8):
                continue
            for f in fs:
                if f.params:
                    continue
                subject(P, R, S, q, n[3:-5], f)
        keyed(P, R, q, ms)
    R.floor('keyed lists', R.analysed.get('keyed lists', 0), 8)
    R.floor('counted lists', R.analysed.get('counted lists', 0), 45)
    R.floor('indexed getters', R.analysed.get('indexed getters', 0), 80)
    R.floor('adding functions', R.analysed.get('adding functions', 0), 20)


def subject(P, R, S, q, x, cf):
    ms = S.of[q]
    if '%s::%s' % (q, x) in BY_DESIGN:
        return
    try:
        cs = {norm(rv) for rv, tr, st in explore(P, q, cf)}
    except Unsupported:
        R.count('counts not decided')
        return
    m = [SIZE.match(c) for c in cs]
    if not all(m) or len(m) != 1:
        # not a list size: only decided together with an indexed getter
        for y in names(x):
            for g in ms.get('Get' + y, ()):
                if len(g.params) == 1 and 'long' in g.params[0]['t']:
                    R.ob('%s::Get%sCount' % (q, x), cf.loc(), False, '%s::%s answers %s, which is not the size of the list behind Get%s' % (q, cf.n, ', '.join(sorted(cs))[:100], y))
        return
    lst = m[0].group(1)
    R.count('counted lists')
    for y in names(x):
        for g in ms.get('Get' + y, ()):
            if len(g.params) != 1 or bare(g.params[0]['t']) not in ('unsigned long', 'unsigned int', 'int', 'long'):
                continue
            getter(P, R, q, x, lst, g)
        for g in ms.get('Get' + y + 's', []) + ([] if y == x else ms.get('Get' + x, [])):
            if g.params:
                continue
            try:
                rs = {norm(rv) for rv, tr, st in explore(P, q, g)}
            except Unsupported:
                continue
            ok = all(re.search(r'\bself\.%s\b' % re.escape(lst), r) or r in ('None', 'ptr') or not r.count('self.') for r in rs)
            R.count('whole-list getters')
            R.ob('%s::%s()' % (q, g.n), g.loc(), ok, '%s::%s answers %s, but %s counts %s' % (q, g.n, ', '.join(sorted(rs))[:100], cf.n, lst))
        for pre, word in (('Add', 'grow'), ('Remove', 'shrink'), ('Release', 'shrink')):
            for g in ms.get(pre + y, ()):
                changer(P, R, q, x, lst, g, word, cf)


def getter(P, R, q, x, lst, g):
    key = '%s::%s(%s)%s' % (q, g.n, g.params[0]['t'], ' const' if g.r.get('const') else '')
    try:
        rs = [(norm(rv), st['conds']) for rv, tr, st in explore(P, q, g)]
    except Unsupported:
        R.count('indexed getters not decided')
        R.notes.append('not decided: ' + key)
        return
    R.count('indexed getters')
    for r, conds in rs:
        for l, i in ELEM.findall(r):
            if l.startswith(('document', 'parent')):
                continue
            if l != lst:
                R.bad(key, g.loc(), '%s::%s answers an element of %s, but its count is the size of %s' % (q, g.n, l, lst))
                return
            if i != 'V0':
                R.bad(key, g.loc(), '%s::%s(i) answers element %s of %s' % (q, g.n, i, lst))
                return
            if not in_range(conds, lst):
                R.bad(key, g.loc(), '%s::%s reaches element i of %s without i < size on that path' % (q, g.n, lst))
                return
        if not ELEM.search(r) and ('self.' in r):
            R.bad(key, g.loc(), '%s::%s(i) answers %s, not an element of %s' % (q, g.n, r[:60], lst))
            return
    R.ob(key, g.loc(), True)


def in_range(conds, lst):
    for e, r, v in conds:
        if isinstance(v, T):
            t = v.tag
            s = 'size(self.%s)' % lst
            if r and t in ('(V0 < %s)' % s, '(%s > V0)' % s) or not r and t in ('(V0 >= %s)' % s, '(%s <= V0)' % s):
                return True
    return False


def changer(P, R, q, x, lst, g, word, cf):
    key = '%s::%s(%s)' % (q, g.n, ','.join(p['t'] for p in g.params))
    try:
        ps = list(explore(P, q, g, nonnull=tuple('V%d' % i for i, p in enumerate(g.params) if is_ptr(p['t'])), whole=False))
    except Unsupported:
        R.count('adding and removing functions not decided')
        R.notes.append('not decided: ' + key)
        return
    R.count('adding functions' if word == 'grow' else 'removing functions')
    any_, bad, wrong = False, None, None
    partial = any(tr == [('partial',)] for rv, tr, st in ps)
    if partial:
        R.count('functions followed on part of their paths')
        any_ = True
    for rv, tr, st in ps:
        ch = [t for t in tr if t[0] == word]
        other = [t for t in ch if t[1] != 'self.' + lst]
        mine = [t for t in ch if t[1] == 'self.' + lst]
        # lists that hold the same objects for another purpose may follow; the counted list must be among them
        if mine:
            any_ = True
        elif other and word == 'grow' and all(t[1].startswith('self.') and t[1].count('.') == 1 for t in other):
            wrong = 'appends to %s, but %s counts %s' % (other[0][1][5:], cf.n, lst)
        elif word == 'grow' and isinstance(rv, Obj) and rv.cls in P.cls and len(g.params) <= 1 and not other and bare(g.r['ret']).startswith('FCD'):
            bad = 'answers a new object that is not in %s' % lst
        if word == 'grow' and len(mine) > 1 and bad is None:
            bad = 'appends to %s %d times' % (lst, len(mine))
        if mine and word == 'grow' and isinstance(rv, Obj) and is_ptr(g.r['ret']):
            if not any(a is rv for t in mine for a in t[2]):
                bad = 'answers an object other than the one appended to %s' % lst
    if not any_ and bad is None:
        bad = wrong
    if not any_ and word == 'grow' and bad is None and not called(ps):
        bad = 'never appends to %s' % lst
    if not any_ and word == 'shrink' and bad is None and not called(ps):
        bad = 'never removes anything from %s' % lst
    R.ob(key, g.loc(), bad is None, '%s::%s %s' % (q, g.n, bad))


def called(ps):
    return any(t[0] == 'call' for rv, tr, st in ps for t in tr if len(t) > 1 and t[0] == 'call' and callee_n(t[1]) not in QUIET)


def keyed(P, R, q, ms):
    """Several lists told apart by a kind: for each kind the count, the list and the additions agree, and no two kinds share one."""
    kinds = {}
    for n, fs in ms.items():
        for f in fs:
            for p in f.params:
                if bare(p['t']) in ('unsigned int', 'int') or bare(p['t']) in P.enums:
                    kinds.setdefault(n, []).append(f)
                    break
    for n, fs in sorted(kinds.items()):
        if not (n.startswith('Get') and n.endswith('Count') and len(n) > 8):
            continue
        x = n[3:-5]
        for f in fs:
            if len(f.params) != 1:
                continue
            vals = cases(f)
            if len(vals) < 3:
                continue
            by = {}
            for v, name in sorted(vals.items()):
                try:
                    rs = {norm(rv) for rv, tr, st in explore(P, q, f, args=[v])}
                except Unsupported:
                    continue
                m = {SIZE.match(r).group(1) for r in rs if SIZE.match(r)}
                if len(m) == 1:
                    by[v] = next(iter(m))
            if len(by) < 3:
                continue
            back = {}
            for v, l in sorted(by.items()):
                R.count('keyed lists')
                key = '%s::%s:%s' % (q, n, vals[v])
                R.ob(key, f.loc(), l not in back, '%s::%s counts %s for both %s and %s' % (q, n, l, vals[v], back.get(l)))
                back[l] = vals[v]
                for g in ms.get('Add' + x, []) + [h for w in ('Get%ss', 'Get%sBucket', 'Get%sList') for h in ms.get(w % x, [])]:
                    pi = [i for i, p in enumerate(g.params) if bare(p['t']) == bare(f.params[0]['t'])]
                    if len(pi) != 1:
                        continue
                    a = [v if i == pi[0] else T('V%d' % i, p['t']) for i, p in enumerate(g.params)]
                    try:
                        ps = list(explore(P, q, g, args=a))
                    except Unsupported:
                        continue
                    if g.n.startswith('Add'):
                        got = {t[1][5:] for rv, tr, st in ps for t in tr if t[0] == 'grow' and t[1].startswith('self.') and t[1].count('.') == 1}
                    else:
                        got = {r for rv, tr, st in ps for r in re.findall(r'self\.(\w+)', norm(rv))}
                    R.count('uses of keyed lists')
                    R.ob('%s::%s(%s):%s' % (q, g.n, ','.join(p['t'] for p in g.params), vals[v]), g.loc(), got == {l} or not got and not g.n.startswith('Add'),
                         '%s::%s works on %s for %s, but %s counts %s' % (q, g.n, ', '.join(sorted(got)) or 'no list', vals[v], n, l))


def cases(f):
    """Enumerators a function tells apart: its case labels and comparisons with its parameter."""
    out = {}
    for s in walk_s(f.body):
        if s['k'] == 'Case' and isinstance(s.get('e'), dict):
            v = unwrap(s['e'])
            if 'v' in v and isinstance(v['v'], int):
                out[v['v']] = v.get('n') or str(v['v'])
    for e in f.exprs():
        if e['k'] == 'Bin' and e['op'] == '==':
            for x, y in ((e['L'], e['R']), (e['R'], e['L'])):
                x, y = unwrap(x), unwrap(y)
                if x['k'] == 'Ref' and x.get('d') == f.params[0]['d'] and isinstance(y.get('v'), int):
                    out[y['v']] = y.get('n') or str(y['v'])
    return out
