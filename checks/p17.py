"""P17: whatever keeps a reference to an object is registered with it, for as long as it keeps it."""
import itertools, re
from model import *
from ceval import *
import facts

HOLDERS = ('FUTrackedPtr<', 'FUTrackedList<', 'FUObjectRef<', 'FUObjectContainer<')
OWNERS = ('FUObjectRef<', 'FUObjectContainer<')
REG = {'TrackObject': 'reg', 'UntrackObject': 'unreg', 'AttachObject': 'reg', 'DetachObject': 'unreg', 'AddTracker': 'reg', 'RemoveTracker': 'unreg', 'SetObjectOwner': 'own'}


class Thing(Obj):
    """An object that can be referred to."""
    __slots__ = ('dead',)

    def __init__(self, cls, tag):
        Obj.__init__(self, cls, tag)
        self.dead = False


class Life(Interp):
    """Follows which objects a holder keeps and which it is registered with."""

    def __init__(self, P):
        Interp.__init__(self, P, hook=self.step, maxpaths=256, maxsteps=6000, maxdepth=18)

    def start(self):
        self.reg = {}           # id(holder) -> [objects]
        self.holders = {}
        self.bad = []
        self.freed = []
        self.me = None
        self.made = 0
        self.order = []
        self.going = None       # the object whose release is being told
        self.asked = []

    # what is said of a holder
    def regs(self, h):
        self.holders[id(h)] = h
        return self.reg.setdefault(id(h), [])

    def fault(self, msg):
        if msg not in self.bad:
            self.bad.append(msg)

    def isnull(self, v):
        return v is None or v == 0 and not isinstance(v, bool) or isinstance(v, T) and self.known.get(v.tag) is False

    def register(self, h, x):
        if self.isnull(x):
            return
        l = self.regs(h)
        if any(y is x for y in l):
            self.fault('registers twice with %s' % name(x))
        l.append(x)
        self.order.append((h, x))

    def unregister(self, h, x):
        if self.isnull(x):
            return
        l = self.regs(h)
        if not any(y is x for y in l):
            if isinstance(x, (Thing, T)):
                self.fault('unregisters from %s, with which it is not registered' % name(x))
            return
        for k, y in enumerate(l):
            if y is x:
                del l[k]
                break

    def release(self, x, how='Release'):
        if self.isnull(x) or not isinstance(x, (Thing, T)):
            return
        if any(y is x for y in self.freed):
            self.fault('releases %s, which is released already' % name(x))
            return
        self.freed.append(x)
        if isinstance(x, Thing):
            x.dead = True
        for i, l in list(self.reg.items()):
            h = self.holders[i]
            if any(y is x for y in l):
                l[:] = [y for y in l if y is not x]
                self.notify(h, x)

    def notify(self, h, x):
        for c in [h.cls] + self.P.ancestors(h.cls):
            for n in ('OnObjectReleased', 'OnOwnedObjectReleased'):
                g = self.P.byq.get(c + '::' + n)
                if g and g[0].body is not None:
                    self.call_fn(g[0], h, [x])
                    return

    # the functions that matter
    def family(self, f):
        c = f.cls or ''
        return c.startswith(HOLDERS) or self.me is not None and (c == self.me.cls or c in self.P.ancestors(self.me.cls) and 'FUTracker' in self.P.ancestors(c))

    def opaque(self, f):
        return not self.family(f)

    def un(self, e, fr):
        if e['op'] == '*':
            p = self.ev(e['e'], fr)
            if isinstance(p, Obj) and getattr(p, 'cls', '').startswith(HOLDERS):
                return p
            if isinstance(p, Ptr) and p.i is not None:
                if not 0 <= p.i < len(p.a):
                    self.fault('reads past the list')
                    return T('past')
                return p.a[p.i]
            if isinstance(p, (Thing,)):
                return p
        if e['op'] == '&' and unwrap(e['e'])['k'] == 'This':
            return fr[1]
        return Interp.un(self, e, fr)

    def new(self, e, fr):
        self.args(e.get('init') or {}, fr) if isinstance(e.get('init'), dict) else None
        self.made += 1
        return Thing(bare(e.get('nt', '')), 'a new %s' % bare(e.get('nt', '')))

    def ev(self, e, fr):
        if e['k'] == 'Del':
            x = self.ev(e['e'], fr)
            if isinstance(x, Thing):
                self.release(x)
            return None
        if e['k'] == 'Bin' and e['op'] in ('==', '!=') and self.going is not None:
            l, r = self.ev(e['L'], fr), self.ev(e['R'], fr)
            if l is self.going or r is self.going:
                self.asked.append(l is r)
        return Interp.ev(self, e, fr)

    def field(self, o, e):
        if isinstance(o, Ptr):
            o = o.get()
        t = e.get('t', '')
        if isinstance(o, Obj) and not isinstance(o, Thing) and bare(t.rstrip('& ')).startswith(HOLDERS) and e['n'] not in o.fields:
            h = Obj(bare(t.rstrip('& ')), e['n'])
            h.fields['ptr'] = Cell(None)
            h.fields['#items'] = []
            o.fields[e['n']] = Cell(h)
        return Interp.field(self, o, e)

    def items(self, o):
        if isinstance(o, Obj) and isinstance(o.fields.get('#items'), list):
            return o.fields['#items']
        return None

    def step(self, I, e, obj, args, fr):
        n = callee_n(e) or ''
        c = (e.get('cal') or {}).get('c') or ''
        if e['k'] == 'Ctor':
            if bare(e.get('t', '')).startswith(HOLDERS) and len(args) <= 1 and not (args and isinstance(args[0], Obj) and args[0].cls.startswith(HOLDERS)):
                s = Obj(bare(e['t']), 'a reference')
                s.fields['ptr'] = Cell(None if not args or self.isnull(args[0]) else args[0])
                s.fields['#items'] = []
                if args:
                    self.register(s, args[0])
                return s
            if c.startswith('fm::pvector') or c.startswith('fm::vector'):
                return T('list')
            return NotImplemented
        if isinstance(obj, Ptr):
            obj = obj.get()
        h = obj if obj is not None else fr[1]
        if n in ('TrackObject', 'AttachObject') and args:
            self.register(h, args[0])
            return None
        if n in ('UntrackObject', 'DetachObject') and args:
            self.unregister(h, args[0])
            return None
        if n == 'AddTracker' and args:
            self.register(args[0], obj)
            return None
        if n == 'RemoveTracker' and args:
            self.unregister(args[0], obj)
            return None
        if n == 'SetObjectOwner' and args and isinstance(obj, (Thing, T)):
            if self.isnull(args[0]):
                for l in self.reg.values():
                    l[:] = [y for y in l if y is not obj]
            else:
                self.register(args[0], obj)
            return None
        if n == 'Release':
            if isinstance(obj, (Thing, T)):
                self.release(obj)
            return None
        # the list underneath
        if c.startswith(('fm::pvector<', 'fm::vector<', 'std::vector<')):
            it = self.items(obj)
            if it is not None:
                r = self.listop(n, it, args, e)
                if r is not NotImplemented:
                    return r
        if isinstance(obj, (Thing, T)) and not (isinstance(obj, Thing) and self.family_of(obj)):
            return T('%s(%s)' % (n, ','.join(self.tag(a) for a in [obj] + args)) if e.get('args') or True else n, e.get('t', ''))
        return NotImplemented

    def family_of(self, o):
        return False

    def listop(self, n, it, args, e):
        def at(x):
            if isinstance(x, Ptr) and x.a is it:
                return x.i
            return x if isinstance(x, int) and not isinstance(x, bool) else None
        if n == 'begin':
            return Ptr(it, 0)
        if n == 'end':
            return Ptr(it, len(it))
        if n == 'size':
            return len(it)
        if n == 'empty':
            return not it
        if n in ('at', 'operator[]') and len(args) == 1 and isinstance(args[0], int):
            if not 0 <= args[0] < len(it):
                self.fault('reads past the list')
                return T('past')
            return it[args[0]]
        if n in ('back', 'front'):
            if not it:
                self.fault('reads an empty list')
                return T('past')
            return it[-1 if n == 'back' else 0]
        if n == 'clear':
            del it[:]
            return None
        if n == 'push_back':
            it.append(args[0])
            return None
        if n == 'push_front':
            it.insert(0, args[0])
            return None
        if n in ('pop_back', 'pop_front'):
            if not it:
                self.fault('removes from an empty list')
                return None
            del it[-1 if n == 'pop_back' else 0]
            return None
        if n in ('find', 'contains'):
            k = next((k for k, x in enumerate(it) if x is args[0]), len(it))
            return Ptr(it, k) if n == 'find' else k < len(it)
        if n == 'erase':
            if len(args) == 2:
                a, b = at(args[0]), at(args[1])
                if a is None or b is None:
                    raise Unsupported('erase of an unknown range')
                if not 0 <= a <= b <= len(it):
                    self.fault('erases a range that is not in the list')
                    return Ptr(it, 0)
                del it[a:b]
                return Ptr(it, a)
            a = at(args[0])
            if a is None:
                k = next((k for k, x in enumerate(it) if x is args[0]), None)
                if k is not None:
                    del it[k]
                return k is not None
            if not 0 <= a < len(it):
                self.fault('erases an element that is not in the list')
                return Ptr(it, 0)
            del it[a]
            return Ptr(it, a)
        if n in ('release', 'removeif'):
            return NotImplemented
        if n == 'insert':
            a = at(args[0])
            if a is None or not 0 <= a <= len(it):
                self.fault('inserts outside the list')
                return Ptr(it, 0)
            if len(args) == 2 and not (isinstance(args[1], int) and not isinstance(args[1], bool)):
                it.insert(a, args[1])
            elif len(args) >= 2 and isinstance(args[1], int):
                it[a:a] = [args[2] if len(args) > 2 and isinstance(args[2], Obj) else T('fresh')] * args[1]
            elif len(args) == 3 and isinstance(args[1], Ptr) and isinstance(args[2], Ptr):
                it[a:a] = list(args[1].a[args[1].i:args[2].i])
            else:
                raise Unsupported('insert')
            return Ptr(it, a)
        if n == 'operator=' and args:
            o = self.items(args[0])
            if o is not None:
                it[:] = list(o)
                return None
        if n in ('reserve', 'resize', 'capacity'):
            if n == 'resize' and args and isinstance(args[0], int):
                del it[args[0]:]
                it.extend([None] * (args[0] - len(it)))
            return None
        return NotImplemented


def name(x):
    return getattr(x, 'tag', None) or str(x)


def pointee(t):
    return bare(re.sub(r'\bconst\b', '', t).replace('*', '').replace('&', ''))


# --- the templates ------------------------------------------------------------------------------------------------------------------

def lists(P, R, done):
    L = Life(P)
    n = 0
    for c in sorted({f.cls for f in P.fns.values() if f.cls} | set(P.cls)):
        tpl = next((t for t in HOLDERS if c.startswith(t)), None)
        if tpl is None:
            continue
        single = tpl in ('FUTrackedPtr<', 'FUObjectRef<')
        owner = tpl in OWNERS
        el = c[len(tpl):-1]
        for f in sorted((f for f in P.fns.values() if f.cls == c and f.body is not None), key=lambda f: f.line):
            key = (tpl, f.n if not f.n.startswith('operator') or f.n == 'operator=' else 'op', tuple(kind(p['t'], el, c) for p in f.params), f.line if f.n != '~' else 0)
            if key in done or f.n.startswith('operator') and f.n != 'operator=':
                continue
            done.add(key)
            if f.r.get('defaulted') or f.r.get('implicit'):
                continue        # see copies()
            for sc in scenarios(L, f, el, c, single, owner):
                n += 1
                judge(P, R, L, f, sc, single, owner, tpl)
    R.count('cases of tracked pointers and lists', n)
    return n


def kind(t, el, c):
    b = t.replace('const ', '').strip()
    if b.rstrip('&* ').startswith(tuple(h[:-1] for h in HOLDERS)):
        return 'other'
    if b.endswith('**'):
        return 'it'
    if b.endswith('*'):
        return 'ptr'
    if bare(b) in ('size_t', 'unsigned long', 'int', 'unsigned int', 'long'):
        return 'n'
    return '?'


def scenarios(L, f, el, c, single, owner):
    """Ways to call a function of a holder: each rebuilds the holder, and says what it must keep afterwards."""
    ks = [kind(p['t'], el, c) for p in f.params]
    if '?' in ks:
        return
    ctor, dtor = f.n == c.split('<')[0], f.n.startswith('~')

    def holder(xs, tag):
        h = Obj(c, tag)
        if single:
            h.fields['ptr'] = Cell(xs[0] if xs else None)
        else:
            h.fields['#items'] = list(xs)
        for x in xs:
            L.regs(h).append(x)
        return h

    def case(start, arg, other=()):
        def mk():
            L.start()
            xs = [Thing(el, 'abc'[k]) for k in range(start)]
            h = holder(xs, 'the holder')
            L.me = h
            os = [Thing(el, 'de'[k]) for k in range(2)]
            o = holder(os[:len(other)] if other else [], 'the other') if 'other' in ks else None
            src = os
            it = h.fields.get('#items')
            nums = [1, 3] if len(ks) > 1 and ks[0] == 'n' and ks[1] == 'n' else [1]
            args, ni, ii = [], 0, 0
            three = ks == ['it', 'it', 'it']
            for k in ks:
                if k == 'other':
                    args.append(o if arg != 'self' else h)
                elif k == 'n':
                    args.append(nums[ni])
                    ni += 1
                elif k == 'it':
                    if three and ii:
                        args.append(Ptr(src, 0 if ii == 1 else 2))
                    else:
                        args.append(Ptr(it, [1, 3][ii]))
                    ii += 1
                else:
                    args.append({'none': None, 'kept': xs[1] if len(xs) > 1 else xs[0] if xs else None, 'new': os[0]}[arg])
            st = {'h': h, 'xs': xs, 'os': os, 'o': o}
            mk.st = st
            return h, args
        return mk
    n = f.n
    want = None
    if single:
        starts = [0] if ctor else [0, 1]
        args = ['new', 'none'] if 'ptr' in ks else ['other']
        if not ctor and 'ptr' in ks and not owner:
            args.append('kept')
    else:
        starts = [0] if ctor else [3]
        args = ['new', 'kept'] if 'ptr' in ks and n in ('erase', 'release', 'find', 'contains') else ['kept'] if n.startswith('On') else ['new']
    for s in starts:
        for a in args:
            if n.startswith('On'):
                if not s:
                    continue
                a = 'kept'
            if 'other' in ks:
                for oth in ((1,), ()):
                    yield (case(s, a, oth * (1 if single else 2)), s, a, oth)
                if not owner and n == 'operator=' and s:
                    yield (case(s, 'self'), s, 'self', ())
            else:
                yield (case(s, a), s, a, ())


def expected(n, ks, st, s, a, oth, single, ctor):
    """What is kept afterwards, by the name of the function."""
    x, o = st['xs'], st['os']
    if single:
        if n.startswith('~') or n.startswith('On'):
            return []
        if 'other' in ks:
            return x if a == 'self' else o[:len(oth)]
        if 'ptr' in ks and (ctor or n == 'operator='):
            return {'new': o[:1], 'none': [], 'kept': x[:1]}[a]
        return x
    if ctor:
        return o[:2 * len(oth)] if 'other' in ks else []
    if n.startswith('~') or n == 'clear':
        return []
    if n == 'operator=':
        return x if a == 'self' else o[:2 * len(oth)]
    if n == 'push_back':
        return x + o[:1]
    if n == 'push_front':
        return o[:1] + x
    if n == 'pop_back':
        return x[:-1]
    if n == 'pop_front':
        return x[1:]
    if n == 'insert':
        return x[:1] + (o[:2] if ks == ['it', 'it', 'it'] else o[:1]) + x[1:]
    if n in ('erase', 'release', 'Detach') or n.startswith('On'):
        if len(ks) == 2:
            return x[:1] + x[3:]
        if ks == ['ptr'] and a == 'new':
            return x
        return x[:1] + x[2:]
    return None


def judge(P, R, L, f, sc, single, owner, tpl):
    mk, s, a, oth = sc
    ks = [kind(p['t'], '', '') for p in f.params]
    ctor = f.n == f.cls.split('<')[0]
    key = '%s%s(%s):%d%s%s' % (tpl, f.n, ','.join(ks), s, a, len(oth) if 'other' in ks else '')
    what = '%s::%s' % (tpl.rstrip('<'), f.n)
    rel = f.n in ('OnObjectReleased', 'OnOwnedObjectReleased')

    def mk2():
        h, args = mk()
        if rel:
            L.regs(h)[:] = [y for y in L.regs(h) if y is not args[0]]
            args[0].dead = True
            L.freed.append(args[0])
        return h, args
    msgs = []
    try:
        for rv, _, end in L.paths(f, mk=mk2):
            st = mk.st
            h = st['h']
            kept = ([] if L.isnull(L.get(h.fields['ptr'])) else [L.get(h.fields['ptr'])]) if single else list(h.fields['#items'])
            msgs += L.bad
            want = expected(f.n, ks, st, s, a, oth, single, ctor)
            regs = L.regs(h)
            dtor = f.n.startswith('~')
            for x in ([] if dtor else kept):
                if not any(y is x for y in regs):
                    msgs.append('keeps %s without being registered with it' % name(x))
            for x in regs:
                if dtor or not any(y is x for y in kept):
                    msgs.append('stays registered with %s, which it does not keep' % name(x))
            if want is not None and not dtor and not same(kept, want):
                msgs.append('keeps [%s] where [%s] is expected' % (', '.join(map(name, kept)), ', '.join(map(name, want))))
            if owner:
                for x in st['xs']:
                    gone = not any(y is x for y in kept) or dtor
                    dead = any(y is x for y in L.freed)
                    if gone and not dead and f.n != 'Detach':
                        msgs.append('lets go of %s without releasing it' % name(x))
                    if dead and not gone or dead and f.n == 'Detach':
                        msgs.append('releases %s, which it is to keep' % name(x))
                    if not gone and dead:
                        msgs.append('keeps %s after releasing it' % name(x))
            elif f.n != 'release' and not rel:
                for x in L.freed:
                    msgs.append('releases %s, which it does not own' % name(x))
            if f.n == 'release' and a == 'kept' and not any(y is st['xs'][1] for y in L.freed):
                msgs.append('does not release %s' % name(st['xs'][1]))
            if st['o'] is not None and a != 'self':
                o = st['o']
                okept = ([] if L.isnull(L.get(o.fields['ptr'])) else [L.get(o.fields['ptr'])]) if single else o.fields['#items']
                for x in okept:
                    if not any(y is x for y in L.regs(o)):
                        msgs.append('the holder copied from keeps %s without being registered with it' % name(x))
                for x in L.regs(o):
                    if not any(y is x for y in okept):
                        msgs.append('the holder copied from stays registered with %s' % name(x))
    except (Unsupported, RecursionError, AttributeError, TypeError, KeyError, IndexError) as x:
        R.count('not decided')
        R.notes.append('not decided: %s: %s' % (f.q, str(x)[:120]))
        return
    R.ob('holder:' + key, f.loc(), not msgs, '%s (%d kept, given %s): %s' % (what, s, a, '; '.join(dict.fromkeys(msgs))))


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


# --- classes that keep pointers -----------------------------------------------------------------------------------------------------------

def subject(P, e):
    """The field of the same object an expression stands for."""
    e = unwrap(e)
    while True:
        if e['k'] == 'Call' and (callee_n(e) or '').startswith('operator') and isinstance(e.get('obj'), dict) and not e.get('args'):
            e = unwrap(e['obj'])
        elif e['k'] == 'Cast':
            e = unwrap(e['e'])
        else:
            break
    if e['k'] == 'Mem' and unwrap(e['b'])['k'] == 'This':
        return e['n'], e.get('t', '')
    return None


def fields(P, c):
    """The fields of a class whose objects it registers with."""
    out = {}
    for f in P.fns.values():
        if f.cls != c or f.body is None:
            continue
        args = [x['args'][0] for x in f.calls() if callee_n(x) in ('TrackObject', 'UntrackObject') and x.get('args') and (not isinstance(x.get('obj'), dict) or unwrap(x['obj'])['k'] == 'This')]
        for a in args:
            s = subject(P, a)
            if s:
                out[s[0]] = s[1]
            u = unwrap(a)
            while u['k'] == 'Cast':
                u = unwrap(u['e'])
            if u['k'] == 'Ref':
                for x in f.exprs():
                    if x['k'] == 'Bin' and x['op'] == '=':
                        s, v = subject(P, x['L']), x['R']
                        v = unwrap(v)
                        while v['k'] == 'Cast':
                            v = unwrap(v['e'])
                        if s and v['k'] == 'Ref' and v.get('d') == u.get('d'):
                            out[s[0]] = s[1]
        if f.n == 'OnObjectReleased' and f.params:
            for x in f.exprs():
                if x['k'] == 'Bin' and x['op'] in ('==', '!='):
                    for l, r in ((x['L'], x['R']), (x['R'], x['L'])):
                        u = unwrap(r)
                        while u['k'] == 'Cast':
                            u = unwrap(u['e'])
                        s = subject(P, l)
                        if s and u['k'] == 'Ref' and u.get('d') == f.params[0]['d']:
                            out[s[0]] = s[1]
    return out


def classes(P, R):
    L = Life(P)
    n = 0
    for c in sorted(P.cls):
        if '<' in c or 'FUTracker' not in P.ancestors(c):
            continue
        fl = fields(P, c)
        up = [a for a in P.ancestors(c) if 'FUTracker' in P.ancestors(a) and fields(P, a)]
        if not fl:
            # nothing of its own: only what it inherits
            if not up and any(callee_n(x) in ('TrackObject', 'UntrackObject') for f in P.fns.values() if f.cls == c and f.body is not None for x in f.calls()):
                R.notes.append('%s: what it registers with is not a field' % c)
            continue
        fns = [f for f in P.fns.values() if f.cls == c and f.body is not None and not f.r.get('static') and touches(P, f, c, fl)]
        inner = {f.id for f in fns if access(P, c, f) == 'private'}
        before = set()      # fields that are told of a release before the object is
        for f in sorted(fns, key=lambda f: (f.n == 'OnObjectReleased', f.line)):
            if f.id in inner and any(g.cls == c for g in callers(P, f)):
                continue            # seen where it is called from
            n += method(P, R, L, c, fl, f, before)
        R.ob('told:' + c, fns[0].loc() if fns else c, any(f.n == 'OnObjectReleased' for f in fns), '%s registers with objects but is not told when they are released' % c)
    R.count('cases of classes that register with objects', n)
    R.floor('cases of classes that register with objects', n, 20)


def access(P, c, f):
    for m in P.cls[c].methods:
        if m['id'] == f.id:
            return m.get('acc')
    return None


def callers(P, f):
    return [g for g in P.fns.values() if g.body is not None and any((x.get('cal') or {}).get('id') == f.id for x in g.calls())]


def touches(P, f, c, fl, depth=3):
    for x in f.exprs():
        if x['k'] == 'Mem' and x['n'] in fl and x.get('c') == c:
            return True
        if x['k'] == 'Call' and callee_n(x) in ('TrackObject', 'UntrackObject'):
            return True
        if depth and x['k'] == 'Call' and (x.get('cal') or {}).get('c') == c:
            g = P.direct(x)
            if g is not None and g is not f and g.body is not None and touches(P, g, c, fl, depth - 1):
                return True
    return any(i.get('f') in fl for i in f.r.get('inits', ()))


def method(P, R, L, c, fl, f, before):
    ctor, dtor, rel = f.n == c.split('::')[-1], f.n.startswith('~'), f.n == 'OnObjectReleased'
    ptrs = [k for k, p in enumerate(f.params) if is_ptr(p['t']) and pointee(p['t']) in P.cls and not p['t'].rstrip().endswith('**')]
    names = sorted(fl)
    n = 0
    msgs = {}
    for nulls in itertools.product((0, 1), repeat=0 if ctor else len(names)):
        opts = ['null', 'new'] + ([] if ctor else ['f:' + x for x, k in zip(names, nulls) if k])
        for pk in itertools.product(*[['f:' + x for x, k in zip(names, nulls) if k] if rel else
                                      [o for o in opts if not o.startswith('f:') or related(P, f.params[k]['t'], fl[o[2:]])] for k in ptrs]):
            if len(msgs) > 40:
                break
            n += 1
            box = {}

            def mk():
                L.start()
                h = Obj(c, c)
                L.me = h
                th = {}
                for x, k in zip(names, nulls if not ctor else [0] * len(names)):
                    t = fl[x]
                    o = Thing(pointee(t) if not bare(t).startswith(HOLDERS) else pointee(bare(t)[bare(t).index('<') + 1:-1]), 'its ' + x) if k else None
                    th[x] = o
                    if bare(t).startswith(HOLDERS):
                        s = Obj(bare(t), x)
                        s.fields['ptr'] = Cell(o)
                        s.fields['#items'] = []
                        h.fields[x] = Cell(s)
                        if o is not None:
                            L.regs(s).append(o)
                    else:
                        h.fields[x] = Cell(o)
                    if o is not None:
                        L.regs(h).append(o)
                args = []
                for k, p in enumerate(f.params):
                    if k in ptrs:
                        o = pk[ptrs.index(k)]
                        args.append(None if o == 'null' else th[o[2:]] if o.startswith('f:') else Thing(pointee(p['t']), 'the given ' + (p['n'] or 'object')))
                    else:
                        args.append(T('arg:' + p['n'], p['t']))
                if rel:
                    gone = next(a for a in args if isinstance(a, Thing))
                    L.regs(h)[:] = [y for y in L.regs(h) if y is not gone]
                    for x in before:
                        s = L.get(h.fields[x])
                        if isinstance(s, Obj) and L.get(s.fields['ptr']) is gone:
                            s.fields['ptr'] = Cell(None)
                            L.regs(s)[:] = []
                    L.freed.append(gone)
                    L.going = gone
                box['h'], box['th'] = h, th
                return h, args
            try:
                for rv, _, st in L.paths(f, mk=mk):
                    h = box['h']
                    ms = list(L.bad)
                    regs = L.regs(h)
                    kept = []
                    for x in names:
                        cell = h.fields.get(x)
                        v = L.get(cell) if cell is not None else None
                        if isinstance(v, Obj) and v.cls.startswith(HOLDERS):
                            v = L.get(v.fields['ptr'])
                        if not L.isnull(v):
                            kept.append((x, v))
                    for x, v in kept:
                        if isinstance(v, T) and v.tag.startswith('uninit'):
                            continue
                        if dtor:
                            continue
                        if not any(y is v for y in regs):
                            ms.append('keeps %s in %s without being registered with it' % (name(v), x))
                    for y in regs:
                        if L.isnull(y):
                            continue
                        if dtor or not any(v is y for _, v in kept):
                            ms.append('stays registered with %s' % name(y))
                    if rel and L.asked and not any(L.asked):
                        ms.append('does not recognise %s, which it was registered with%s' % (name(L.going), ' (the reference to it is cleared first)' if before else ''))
                    for a, (g, x) in enumerate(L.order):
                        if g is h and any(x is y and s.cls.startswith('FUTrackedPtr<') for s, y in L.order[:a]):
                            before |= {k for k in names if k in h.fields and isinstance(L.get(h.fields[k]), Obj) and any(s is L.get(h.fields[k]) for s, y in L.order[:a])}
                    for m in ms:
                        msgs.setdefault(m, (nulls, pk))
            except (Unsupported, RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError) as x:
                R.count('not decided')
                R.notes.append('not decided: %s: %s %s' % (f.q, type(x).__name__, str(x)[:120]))
                break
    R.ob('class:%s(%s)' % (f.q, ','.join(p['t'] for p in f.params)), f.loc(), not msgs, '%s: %s' % (f.q, '; '.join(sorted(msgs))))
    return n


def related(P, t, u):
    a, b = pointee(t), pointee(u if not bare(u).startswith(HOLDERS) else bare(u)[bare(u).index('<') + 1:-1])
    return a == b or a in P.ancestors(b)


# --- release --------------------------------------------------------------------------------------------------------------------------

class Going(Life):
    """Follows the release of one object: who is told, and how often."""

    def family(self, f):
        return f.cls in ('FUObject', 'FUTrackable')

    def ev(self, e, fr):
        if e['k'] == 'Del' and unwrap(e['e'])['k'] == 'This':
            self.told.append('deleted')
            for c in ('FUTrackable', 'FUObject'):
                if c in [fr[1].cls] + self.P.ancestors(fr[1].cls):
                    for g in self.P.byq.get('%s::~%s' % (c, c), ())[:1]:
                        self.call_fn(g, fr[1], [])
            return None
        return Interp.ev(self, e, fr)

    def un(self, e, fr):
        if e['op'] == '*':
            p = self.ev(e['e'], fr)
            if isinstance(p, Ptr) and p.i is not None:
                if not 0 <= p.i < len(p.a):
                    self.fault('goes past the list of trackers')
                    return T('past')
                return p.a[p.i]
        return Interp.un(self, e, fr)

    def step(self, I, e, obj, args, fr):
        n = callee_n(e) or ''
        c = (e.get('cal') or {}).get('c') or ''
        if n in ('OnObjectReleased', 'OnOwnedObjectReleased'):
            who = obj.get() if isinstance(obj, Ptr) else obj
            self.told.append('%s told%s' % (name(who), '' if args and args[0] is self.me else ' of something else'))
            return None
        if c.startswith(('fm::pvector<', 'fm::vector<')):
            it = self.items(obj)
            if it is not None:
                return self.listop(n, it, args, e)
        return NotImplemented


def releases(P, R):
    L = Going(P)
    n = 0
    for cls, f in [(c, f) for c in ('FUObject', 'FUTrackable') for f in P.fns.values()
                   if f.body is not None and (f.cls == c or f.cls == 'FUObject' and f.n == 'Release') and f.n in ('Release', 'Detach', '~' + c)]:
        for owned, count in itertools.product((0, 1), (0, 1, 2, 3) if cls == 'FUTrackable' else (0,)):
            n += 1

            def mk():
                L.start()
                L.told = []
                h = L.me = Obj(cls, 'the object')
                h.fields['objectOwner'] = Cell(Obj('FUObjectOwner', 'the owner') if owned else None)
                if cls == 'FUTrackable':
                    t = Obj('fm::pvector<FUTracker>', 'trackers')
                    t.fields['#items'] = [Obj('FUTracker', 'tracker %d' % k) for k in range(count)]
                    h.fields['trackers'] = Cell(t)
                return h, []
            want = ['tracker %d told' % k for k in range(count)] + ['the owner told'] * owned + ['deleted'] * (f.n == 'Release')
            msgs = []
            try:
                for rv, _, end in L.paths(f, mk=mk):
                    msgs += L.bad
                    for w in sorted(set(want + L.told)):
                        if want.count(w) != L.told.count(w):
                            msgs.append('%s %d times' % (w, L.told.count(w)))
                    if not L.isnull(L.get(L.me.fields['objectOwner'])) and f.n != 'Release':
                        msgs.append('keeps its owner')
                    if cls == 'FUTrackable' and L.get(L.me.fields['trackers']).fields['#items']:
                        msgs.append('keeps trackers that have been told')
            except (Unsupported, RecursionError, AttributeError, TypeError, KeyError, IndexError) as x:
                R.count('not decided')
                R.notes.append('not decided: %s: %s' % (f.q, str(x)[:120]))
                continue
            R.ob('gone:%s:%s:%d:%d' % (f.q, cls, owned, count), f.loc(), not msgs, '%s (%d trackers%s): %s' % (f.q, count, ', owned' if owned else '', '; '.join(dict.fromkeys(msgs))))
    R.count('cases of objects being released', n)
    R.floor('cases of objects being released', n, 8)


# --- copies ----------------------------------------------------------------------------------------------------------------------------

UNDO = ('UntrackObject', 'DetachObject', 'Release', 'RemoveTracker', 'fclose', 'Close', 'dlclose', 'xmlFreeDoc', 'xmlFreeParserCtxt', 'Unregister')


def undoing(P, f, depth=2):
    """What a destructor takes back of what its object holds."""
    for x in f.exprs():
        if x['k'] == 'Del':
            return 'deletes'
        if x['k'] == 'Call':
            n = callee_n(x) or ''
            if n in UNDO:
                return n
            g = P.direct(x)
            if depth and g is not None and g.body is not None and g.cls == f.cls and (not isinstance(x.get('obj'), dict) or unwrap(x['obj'])['k'] == 'This'):
                r = undoing(P, g, depth - 1)
                if r:
                    return r
    return None


def copies(P, R):
    """A class whose destructor takes something back says itself how it is copied."""
    n = 0
    used = {}
    for f in P.fns.values():
        for e in ([] if f.body is None else f.exprs()):
            cal = e.get('cal') or {}
            c, ps = cal.get('c') or '', cal.get('p', ())
            if len(ps) == 1 and bare(ps[0].rstrip('&* ')) == c and (e['k'] == 'Ctor' or e['k'] == 'Call' and callee_n(e) == 'operator='):
                if ps[0].endswith('&') and not ps[0].endswith('&&') or e['k'] == 'Call':
                    used.setdefault((c, 'copied' if e['k'] == 'Ctor' else 'assigned'), []).append((f, e))
    for (c, how), l in sorted(used.items(), key=lambda x: x[0]):
        if c not in P.cls:
            continue
        d = next((f for f in P.fns.values() if f.cls == c and f.n.startswith('~') and f.body is not None and not f.r.get('implicit')), None)
        if d is None:
            continue
        u = undoing(P, d)
        if u is None:
            continue
        n += 1
        nm = c.split('<')[0].split('::')[-1]
        mine = [m for m in P.cls[c].methods if m['n'] == ('operator=' if how == 'assigned' else nm) and len(m['p']) == 1 and bare(m['p'][0].rstrip('&* ')) == c]
        plain = [m for m in mine if m.get('defaulted') or m.get('implicit')]
        fn_ = [P.fns.get(m['id']) for m in mine]
        bad = not mine or any(m.get('defaulted') or m.get('implicit') for m in mine) or any(g is not None and (g.r.get('defaulted') or g.r.get('implicit')) for g in fn_)
        t = re.sub(r'<.*', '<>', c)
        f, e = l[0]
        R.ob('copy:%s:%s' % (c, how), f.loc(e), not bad, '%s is %s member by member here, but its destructor (%s) takes back what both would hold (%s)' % (c, how, d.loc(), u))
    R.count('copies of classes that take back what they hold', n)
    R.floor('copies of classes that take back what they hold', n, 5)


def run(P, R):
    done = set()
    n = lists(P, R, done)
    w = facts.witness()
    if w is None:
        R.notes.append('the containers could not be given elements of their own: only what the library itself uses of them was read')
    else:
        n += lists(Program(recs=w), R, done)
    R.floor('cases of tracked pointers and lists', n, 40)
    classes(P, R)
    releases(P, R)
    copies(P, R)

