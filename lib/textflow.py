"""Which number of a document's text goes to and comes from which component of the model: every function that deals with a document
node is walked once, statement by statement, each branch from the state at its start; numbers read from a text are atoms
named by node and position, components of the model are atoms named by class and member, and what is stored or
written is a formula over them."""
from algebra import *
import copy as _copy

ORDER = {'FMVector2': ['x', 'y'], 'FMVector3': ['x', 'y', 'z'], 'FMVector4': ['x', 'y', 'z', 'w']}
READS = {'ToFloat', 'ToInt32', 'ToUInt32', 'ToBoolean', 'HexToUInt32'}
LISTS = {'ToFloatList': 1, 'ToInt32List': 1, 'ToUInt32List': 1}


class Node(T):
    """A document element; its name may be known."""
    __slots__ = ('name', 'up', 'no', 'attr')

    def __init__(self, no, name=None, up=None):
        T.__init__(self, 'node%d' % no, 'xmlNode *')
        self.no, self.name, self.up = no, name, up

    def __deepcopy__(self, memo):
        return self


class Text(T):
    """What stands in an element or attribute, from some position on."""
    __slots__ = ('node', 'attr', 'pos')

    def __init__(self, node, attr=None, pos=0):
        T.__init__(self, 'text', 'const char *')
        self.node, self.attr, self.pos = node, attr, pos


class NumList(T):
    __slots__ = ('src',)

    def __init__(self, src):
        T.__init__(self, 'numbers', 'list')
        self.src = src


class Build(Obj):
    """A text being put together."""
    __slots__ = ('toks',)

    def __init__(self):
        Obj.__init__(self, 'FUStringBuilderT<char>')
        self.toks = []


ANIMATED = ('FCDParameterAnimatable', 'FCDParameterListAnimatable', 'FCDAnimated', 'FCDAnimatedCustom')


def binding(P, e):
    """Whether a call binds an animated value to an element."""
    f = P.direct(e)
    return f is not None and any(bare(p['t'].rstrip('*& ')) in ANIMATED for p in f.params)


class TextFlow(Algebra):
    OPQ = tuple(x for x in Algebra.OPQ if x not in ('FUStringBuilder', 'FUXml'))

    def __init__(self, P):
        Algebra.__init__(self, P, extra=self.prim, maxsteps=4000, maxdepth=14)
        self.reads, self.writes = [], []        # (field atom, Sym, where) ; (node, attr, tokens, where)
        self.nodes = {}
        self.byname = {}
        self.seen = {}
        self.skipped = 0
        self.inners = {}
        self.said = frozenset()
        self.bound = []         # (routine, arguments, where, function)
        self.pushed = []        # (list declaration, value, where, function)
        self.elem = []          # (element, component, Sym, where, function)

    # decisions: unknown equalities fail, anything else holds once
    def decide(self, e, v):
        if isinstance(v, T) and v.tag.startswith(('zero:', 'near:', 'neg:')):
            return False
        if isinstance(v, T) and v.tag.startswith('pos:'):
            return True
        if isinstance(v, T) and 'IsAnimated' in v.tag:
            return False
        if isinstance(v, T) and '==' in v.tag:
            return False
        n = self.seen[id(e)] = self.seen.get(id(e), 0) + 1
        return n == 1

    def node(self, name=None, up=None):
        n = Node(len(self.nodes) + 1, name, up)
        self.nodes[n.no] = n
        return n

    def asnode(self, v):
        if isinstance(v, T) and not isinstance(v, (Node, Text)) and ('xmlNode' in v.t or 'operator[]' in v.tag):
            n = self.byname.get(v.tag)
            if n is None:
                n = self.byname[v.tag] = self.node()
            return n
        return v if isinstance(v, Node) else None

    # components of the model
    def field(self, o, e):
        if isinstance(o, Ptr):
            o = o.get()
        if isinstance(o, (Obj, T)) and e['n'] and (e.get('c') or '').startswith('FCD') and not isinstance(o, (Node, Text, Build)):
            key = e['n']
            c = o.fields.get(key)
            if c is None:
                t = e.get('t', '')
                base = t.split('[')[0].strip()
                w = self.inner(base)
                if w is None and self.inner(e['c']):
                    return Algebra.field(self, o, e)
                v = self.model('%s::%s' % (e['c'], key), w or base, bool(w))
                c = o.fields[key] = Cell(v)
                self.reg.append((o, key, c, '%s::%s' % (e['c'], key)))
                self.held[id(c)] = (c, '%s::%s' % (e['c'], key))
            return c
        if isinstance(o, T) and not isinstance(o, (Node, Text)) and bare(o.t.rstrip('&* ')) in ORDER and e['n']:
            key = ALIAS.get((bare(o.t.rstrip('&* ')), e['n']), e['n'])
            c = o.fields.get(key)
            if c is None:
                c = o.fields[key] = Cell(Sym.var('%s.%s' % (o.tag, key)))
                self.reg.append((o, key, c, '@%s' % o.tag))
            return c
        if isinstance(o, (Node, Text)):
            return Cell(T('%s.%s' % (o.tag, e['n']), e.get('t', '')))
        return Algebra.field(self, o, e)

    def inner(self, t):
        """The type of the value a parameter class wraps."""
        t = bare(t.rstrip('*& '))
        if t not in self.inners:
            r = None
            for c in [t] + [getattr(x, 'q', x) for x in (self.P.ancestors(t) if t in self.P.cls else ())]:
                m = re.match(r'FCDParameterAnimatableT<(.*), \d+>$', c) or re.match(r'FUParameterT<(.*)>$', c)
                if m:
                    r = m.group(1)
                    break
            self.inners[t] = r
        return self.inners[t]

    def model(self, tag, t, wrapped):
        t = bare(t)
        if t in FLOATS or t in ('int', 'unsigned int', 'bool') and not wrapped and False:
            return Sym.var(tag)
        if t in VECS or t.startswith('FMMatrix'):
            return Obj(t, tag)
        m = re.match(r'FMSkew|FMLookAt|FMAngleAxis', t)
        if m:
            return Obj(t, tag)
        return T(tag, t)

    def where(self):
        return self.loc

    # primitives
    def prim(self, I, e, obj, args, fr):
        n = callee_n(e) or ''
        k = e['k']
        t = bare(e.get('t', '').rstrip('*& '))
        if k == 'Ctor':
            if t.startswith('FUStringBuilderT'):
                b = Build()
                for a in args[:1]:
                    self.append(b, a)
                return b
            if t.startswith('fm::stringT') and args:
                a = self.txt(args[0])
                return a if a is not None else NotImplemented
            if self.inner(t):
                return args[-1] if args else NotImplemented
            return NotImplemented
        if isinstance(obj, Build):
            if n in ('append', 'operator+=', 'set', 'operator=') and len(args) >= 1:
                if n in ('set', 'operator='):
                    obj.toks = []
                if isinstance(args[0], Obj) and not isinstance(args[0], Build):
                    return NotImplemented if n == 'append' and self.P.direct(e) is not None and self.P.direct(e).body is not None else self.vec(obj, args[0], e)
                self.append(obj, args[0])
                return obj
            if n in ('ToString', 'ToCharPtr', 'c_str') or n.startswith('operator') and '*' in n:
                b = Build()
                b.toks = list(obj.toks)
                return b
            if n == 'clear':
                obj.toks = []
                return None
            if n in ('length', 'index', 'empty', 'size'):
                return T('len')
            return None if n in ('reserve', 'pop_back', 'remove') else NotImplemented
        if isinstance(obj, Text) and (n in ('c_str', 'begin') or n.startswith('operator') and '*' in n):
            return obj
        if isinstance(obj, Text) and n in ('empty', 'length', 'size'):
            return T('len')
        if n in ('push_back', 'append') and len(args) == 1 and isinstance(e.get('obj'), dict):
            d = unwrap(e['obj'])
            self.pushed.append((d.get('d') if d['k'] == 'Ref' else None, copyv(args[0]) if isinstance(args[0], Obj) and not isinstance(args[0], Build) else args[0], self.loc, self.f.id))
            return None
        # reading
        if n in ('FindChildByType', 'FindChildByName') and len(args) >= 2:
            return self.node(text(args[1]), self.asnode(args[0]))
        if n in ('FindTechnique', 'FindTechniqueAccessor', 'FindChildByRef', 'FindChildById', 'FindChildByProperty'):
            return self.node(None, self.asnode(args[0]) if args else None)
        if n in ('FindChildNode', 'FindParameter') and text(args[0] if args else None) is not None:
            return self.node(text(args[0]), None)
        if n in ('ReadNodeContentDirect', 'ReadNodeContentFull') and args:
            return Text(self.asnode(args[0]) or self.node())
        if n == 'GetContent' and isinstance(obj, Node):
            return Text(obj)
        if n == 'ReadNodeProperty' and len(args) == 2 and text(args[1]) is not None:
            return Text(self.asnode(args[0]) or self.node(), text(args[1]))
        if n in READS and args:
            return self.number(args[0], n)
        if n in LISTS and len(args) >= 2:
            src = self.cursor(args[0])
            a = e['args'][1]
            c = self.lv(a, fr)
            if src is not None and c is not None:
                self.put(c, NumList(Text(src.node, src.attr, src.pos)))
            return None
        if isinstance(obj, NumList):
            if n in ('operator[]', 'at') and isinstance(args[0], int):
                return self.atom(obj.src, args[0])
            if n in ('front',):
                return self.atom(obj.src, 0)
            return T('numbers.' + n)
        # writing
        if n in ('AddChild', 'AddChildOnce', 'AddChildSorted', 'AddParameter', 'AddChildNode') and len(args) >= 2 or n in ('AddParameter', 'AddChildNode') and isinstance(obj, (T, Obj)) and args:
            ps = (e.get('cal') or {}).get('p', ())
            nm = 1 if ps and 'xmlNode' in ps[0] else 0
            name = text(args[nm]) if len(args) > nm else None
            if name is None:
                return NotImplemented if nm == 0 else None
            v = args[nm + 1] if len(args) > nm + 1 else None
            nd = self.node(name, self.asnode(args[0]) if nm else self.asnode(obj))
            if v is not None:
                self.write(nd, None, v, e)
            return nd
        if n in ('AddContent', 'AddContentUnprocessed', 'SetContent') and (len(args) == 2 or isinstance(obj, Node) and args):
            self.write(args[0] if len(args) == 2 else obj, None, args[-1], e)
            return None
        if n == 'AddAttribute' and len(args) >= 2:
            nd = args[0] if len(args) == 3 else obj
            if text(args[-2]) is not None:
                self.write(nd, text(args[-2]), args[-1], e)
            return None
        if n == 'ToString' and len(args) == 1 and not isinstance(args[0], Obj):
            b = Build()
            self.append(b, args[0])
            return b
        if n.startswith('operator') and isinstance(e.get('obj'), dict):
            ot = bare(e['obj'].get('t', '').rstrip('&* '))
            if self.inner(ot):
                if n == 'operator=' and len(args) == 1:
                    c = self.lv(e['obj'], fr)
                    if isinstance(obj, Obj) and isinstance(args[0], Obj):
                        obj.fields = {kk: Cell(copyv(cc.v)) for kk, cc in args[0].fields.items()}
                    elif c is not None:
                        self.put(c, args[0])
                    return args[0]
                if n not in ('operator==', 'operator!=', 'operator[]'):
                    return obj
        # the conversions of wrapped values and animation are not followed
        if n == 'GetAnimated' and isinstance(e.get('obj'), dict):
            src = self.origin(obj, e['obj'])
            if src:
                return T('animated!' + src, 'FCDAnimated *')
            src = self.overridden(e)
            if src:
                return T('animated!' + '|'.join(sorted(src)), 'FCDAnimated *')
        if n.startswith(('Load', 'LinkWith', 'Write', 'Link')) and 'Animat' in n and not self.helper(e):
            g = self.P.direct(e)
            k = next((k for k, p in enumerate(g.params) if bare(p['t'].rstrip('*& ')) in ANIMATED), 0) if g is not None else 0
            a = e['args'][k] if len(e.get('args', ())) > k else None
            src = self.origin(args[k], a) if len(args) > k and isinstance(a, dict) else None
            self.bound.append((n, src, [y for y in (self.asnode(x) for x in args) if y is not None], self.said, self.loc, self.f, binding(self.P, e)))
            return T('ok')
        f = self.P.direct(e)
        if f is not None and f.q.startswith('FArchiveXML::') and not self.helper(e) and n.startswith(('Load', 'Write', 'Link', 'Find', 'Let', 'Register')) or n in ('LoadSwitch', 'LetWriteObject', 'Error', 'GetErrorString'):
            if is_ptr(e.get('t', '')) and 'xmlNode' in e['t']:
                # an element made by another routine, under a name given to it
                nm = next((text(a) for a in args[1:] if text(a) is not None), None)
                return self.node(nm, next((a for a in args if isinstance(a, Node)), None))
            return T('call:' + n, e.get('t', ''))
        return NotImplemented

    def yields(self, e):
        if e['k'] == 'Cast' and not e.get('ex'):
            return self.yields(e['e'])
        if e['k'] != 'Call' or e.get('args') or not isinstance(e.get('obj'), dict):
            return None
        f = self.P.direct(e)
        if f is None or f.body is None or f.r.get('virt') or not (f.r.get('ret') or '').endswith('&') or self.inner(f.r['ret']) not in FLOATS or not (f.cls or '').startswith('FCD'):
            return None
        b = f.body['s'] if f.body['k'] == 'Block' else [f.body]
        if len(b) != 1 or b[0]['k'] != 'Return' or not isinstance(b[0].get('e'), dict):
            return None
        x = unwrap(b[0]['e'])
        return x if x['k'] == 'Mem' and unwrap(x['b'])['k'] == 'This' else None

    def lv(self, e, fr):
        m = self.yields(e)
        if m is not None:
            while e['k'] == 'Cast':
                e = e['e']
            return self.field(self.ev(e['obj'], fr), m)
        return Algebra.lv(self, e, fr)

    def helper(self, e):
        """Whether a routine takes one value of the model, whatever it is a member of."""
        f = self.P.direct(e)
        return f is not None and f.body is not None and not binding(self.P, e) and any('Animatable' in p['t'] and '<' in p['t'] for p in f.params)

    def origin(self, v, e):
        """The member of the model an animatable value is."""
        if isinstance(v, Ptr) and v.i is None:
            h = self.held.get(id(v.a))
            if h is not None:
                return h[1]
        if isinstance(v, Ptr):
            v = v.get()
        if isinstance(v, Sym):
            a = atoms(v)
            if len(a) == 1 and '::' in next(iter(a)):
                return next(iter(a))
        tag = getattr(v, 'tag', '') or ''
        if '::' in tag and not tag.startswith('operator') and not tag.startswith('animated!') and '(' not in tag:
            return tag
        if 'animated!' in tag:
            return tag[tag.index('animated!') + 9:].rstrip(')')
        # by the member its query answers with
        x = unwrap(e)
        while x['k'] == 'Un' and x['op'] in ('&', '*') or x['k'] == 'Call' and (callee_n(x) == 'GetAnimated' or (callee_n(x) or '').startswith('operator')) and isinstance(x.get('obj'), dict):
            x = unwrap(x['e'] if x['k'] == 'Un' else x['obj'])
        if x['k'] == 'Call':
            f = self.P.direct(x)
            if f is not None and f.body is not None:
                for m in f.exprs():
                    if m['k'] == 'Mem' and (m.get('c') or '').startswith('FCD'):
                        return '%s::%s' % (m['c'], m['n'])
        if x['k'] == 'Mem' and (x.get('c') or '').startswith('FCD') and x['n'] != 'animated':
            return '%s::%s' % (x['c'], x['n'])
        return None

    def overridden(self, e, depth=3):
        """The members a virtual query answers with, over the classes that answer it."""
        out = set()
        for f in self.P.targets(e):
            if f.body is None:
                continue
            got = [m for y in f.exprs() for m in (y,) if y['k'] == 'Mem' and (y.get('c') or '').startswith('FCD') and 'Parameter' in y.get('t', '')]
            out |= {'%s::%s' % (m['c'], m['n']) for m in got}
            if not got and depth:
                for x in f.calls():
                    if callee_n(x) == f.n:
                        out |= self.overridden(x, depth - 1)
        return out

    def txt(self, v):
        if isinstance(v, (Text, Build)):
            return v
        return None

    def vec(self, b, o, e):
        f = next((f for f in self.P.byq.get('FUStringBuilderT<char>::append', ()) if o.cls in f.params[0]['t']), None)
        if f is not None:
            self.call_fn(f, b, [o])
        return b

    def append(self, b, v):
        if isinstance(v, Build):
            b.toks += v.toks
        elif isinstance(v, Sym):
            b.toks.append(v)
        elif isinstance(v, bool) or v is None:
            b.toks.append('?')
        elif isinstance(v, int):
            b.toks.append(chr(v) if 0 < v < 256 else str(v))
        elif text(v) is not None:
            b.toks.append(text(v))
        elif isinstance(v, T) and bare(v.t) in FLOATS:
            b.toks.append(Sym.of(v))
        elif isinstance(v, float):
            b.toks.append(Sym.of(v))
        elif isinstance(v, T):
            b.toks.append(v)
        else:
            b.toks.append('?')

    def write(self, nd, attr, v, e):
        if not isinstance(nd, Node):
            return
        b = v
        if not isinstance(b, Build):
            b = Build()
            if isinstance(v, Obj):
                self.vec(b, v, e)
            else:
                self.append(b, v)
        self.writes.append((nd, nd.name, attr, tokens(b.toks), self.loc))

    def cursor(self, v):
        for _ in range(3):
            if isinstance(v, Ptr):
                v = v.get()
            if isinstance(v, Cell):
                v = v.v
        return v if isinstance(v, Text) else None

    def number(self, v, n, adv=None):
        c = self.cursor(v)
        if c is None:
            return T('number', 'float')
        if adv or isinstance(v, Ptr):
            a = self.atom(c, c.pos)
            c.pos += 1
            return a
        return self.atom(c, c.pos)

    def atom(self, src, k):
        return Sym.var('#%d%s:%d' % (src.node.no, '@' + src.attr if src.attr else '', k))

    # ---- one walk over a function
    def walk(self, f):
        self.f = f
        self.byname = {}
        env = {}
        self.reg = []
        self.held = {}
        self.loc = f.loc()
        for p in f.params:
            t = p['t']
            if 'xmlNode' in t and is_ptr(t):
                v = self.node()
            elif bare(t.rstrip('*& ')).startswith('FCDENode') or bare(t.rstrip('*& ')).startswith('FCDETechnique'):
                v = self.node()
            elif bare(t.rstrip('*& ')).startswith('FCD') and is_ptr(t):
                v = Obj(bare(t.rstrip('*& ')))
            else:
                v = T('arg:' + p['n'], t)
            env[p['d']] = Cell(v)
        self.fr = (f, Obj(f.cls) if f.cls and f.cls.startswith('FCD') and not f.r.get('static') else None, env)
        self.stmts([f.body])

    def stmts(self, ss):
        for s in ss:
            if isinstance(s, dict):
                self.one(s)

    def guarded(self, go):
        self.seen, self.steps, self.depth = {}, 0, 0
        self.trace, self.conds, self.known, self.newdec, self.pos = [], [], {}, [], 0
        try:
            return go()
        except (Unsupported, RecursionError, Dead, Ret, Brk, Cont, AttributeError, TypeError, KeyError, IndexError, ValueError, ZeroDivisionError):
            self.skipped += 1
            return None

    def one(self, s):
        k = s['k']
        if k == 'Block':
            self.stmts(s['s'])
        elif k in ('Expr', 'Decl', 'Return'):
            e = s.get('e') if k != 'Decl' else None
            self.loc = self.f.loc(s) if 'l' in s else self.loc
            if k == 'Return':
                if isinstance(e, dict):
                    self.guarded(lambda: self.ev(e, self.fr))
            else:
                self.guarded(lambda: self.st(s, self.fr))
            self.harvest()
        elif k == 'If':
            if isinstance(s.get('init'), dict):
                self.one(s['init'])
            if s.get('cv'):
                self.guarded(lambda: self.decl(s['cv'], self.fr))
            if isinstance(s.get('c'), dict):
                self.guarded(lambda: self.ev(s['c'], self.fr))
                self.harvest()
            self.branch(s.get('T'), s['c'])
            self.branch(s.get('F'), None)
            # which branch was taken is not known: what they assign is forgotten
            for b in (s.get('T'), s.get('F')):
                self.forget(b)
        elif k in ('While', 'For', 'Do', 'Range'):
            if k == 'For' and isinstance(s.get('init'), dict):
                self.one(s['init'])
            if k == 'Range':
                self.fr[2][s['var']['d']] = Cell(self.fresh(s['var'].get('t', '')))
            self.forget(s, True)
            if s.get('cv'):
                self.guarded(lambda: self.decl(s['cv'], self.fr))
            if isinstance(s.get('c'), dict):
                self.guarded(lambda: self.ev(s['c'], self.fr))
                self.harvest()
            self.branch(s.get('b'), None)
            self.forget(s)
        elif k == 'Switch':
            self.branch(s.get('b'), None)
            self.forget(s)
        elif k in ('Case', 'Default', 'Label'):
            self.one(s['s']) if isinstance(s.get('s'), dict) else None
        elif k == 'Try':
            self.branch(s['b'], None)

    def fresh(self, t):
        b = bare(t.rstrip('*& '))
        if 'xmlNode' in t or b in ('FCDENode', 'FCDEType', 'FCDETechnique'):
            return self.node()
        if b.startswith('FCD') and is_ptr(t):
            return Obj(b)
        return T('?', t)

    def forget(self, s, loop=False):
        if not isinstance(s, dict):
            return
        for x in walk_all(s):
            tgt = None
            if x['k'] == 'Bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                tgt = unwrap(x['L'])
            elif x['k'] == 'Un' and x['op'] in ('++', '--'):
                tgt = unwrap(x['e'])
            elif x['k'] == 'Call' and callee_n(x) == 'operator=' and isinstance(x.get('obj'), dict):
                tgt = unwrap(x['obj'])
            if tgt is not None and tgt['k'] == 'Ref' and tgt.get('dk') in ('var', 'parm') and tgt.get('d') in self.fr[2]:
                old = self.fr[2][tgt['d']].v
                if isinstance(old, Text) and is_ptr(tgt.get('t', '')) and tgt['t'].endswith('*'):
                    continue
                self.fr[2][tgt['d']] = Cell(self.fresh(tgt.get('t', '')))

    def branch(self, s, c):
        if not isinstance(s, dict):
            return
        save = self.fr
        memo = {}
        env = {d: Cell(self.dup(cell.v, memo)) if not (isinstance(cell.v, (Obj, T)) and getattr(cell.v, 'cls', '').startswith('FCD')) else cell for d, cell in save[2].items()}
        self.fr = (save[0], save[1], env)
        named = []
        said = self.said
        if c is not None:
            got = self.names(c)
            for nd, names in got:
                named.append((nd, nd.name))
                nd.name = names
            if not got:
                self.said = self.literals(c) or said
        try:
            self.one(s)
        finally:
            for nd, old in named:
                nd.name = old
            self.fr = save
            self.said = said

    def literals(self, c):
        """Texts some string is compared with."""
        out = set()
        todo = [c]
        while todo:
            x = unwrap(todo.pop())
            if x['k'] == 'Bin' and x['op'] in ('||', '&&'):
                todo += [x['L'], x['R']]
            elif x['k'] == 'Call' and (callee_n(x) in ('IsEquivalent', 'IsEquivalentI') or x.get('op') == '=='):
                out.update(y['s'] for y in walk_e(x) if y['k'] == 'Str')
        return frozenset(out)

    def dup(self, v, memo):
        if isinstance(v, Text):
            return Text(v.node, v.attr, v.pos)
        if isinstance(v, Build):
            b = Build()
            b.toks = list(v.toks)
            return b
        if isinstance(v, Obj) and (v.cls in VECS or v.cls.startswith('FM')):
            o = copyv(v)
            return o
        return v

    def names(self, c):
        """[(node, names)] the condition says of elements."""
        out = {}
        todo = [c]
        while todo:
            x = unwrap(todo.pop())
            if x['k'] == 'Bin' and x['op'] in ('||', '&&'):
                todo += [x['L'], x['R']]
                continue
            if x['k'] == 'Call' and len(x.get('args', ())) + (1 if isinstance(x.get('obj'), dict) else 0) == 2 and (callee_n(x) in ('IsEquivalent', 'IsEquivalentI') or x.get('op') == '==' ):
                ab = ([x['obj']] if isinstance(x.get('obj'), dict) else []) + list(x['args'])
                for a, b in (ab, ab[::-1]):
                    strs = [y['s'] for y in walk_e(b) if y['k'] == 'Str']
                    base = None
                    for y in walk_e(a):
                        if y['k'] == 'Mem' and y['n'] == 'name' and 'xmlNode' in (unwrap(y['b']).get('t') or ''):
                            base = y['b']
                        elif y['k'] == 'Call' and callee_n(y) == 'GetName' and isinstance(y.get('obj'), dict) and 'FCDENode' in (unwrap(y['obj']).get('t') or ''):
                            base = y['obj']
                    if strs and base is not None:
                        v = self.guarded(lambda: self.ev(base, self.fr))
                        if isinstance(v, Node):
                            out.setdefault(v.no, (v, set()))[1].update(strs)
        return [(v, frozenset(s)) for v, s in out.values()]

    def harvest(self):
        reg, self.reg = self.reg, []
        for o, key, c, tag in reg:
            if tag.startswith('@'):
                if isinstance(c.v, Sym) and any(a.startswith('#') for a in atoms(c.v)):
                    self.elem.append((tag, key, c.v, self.loc, self.f.id))
                o.fields.pop(key, None)
                continue
            self.read(c, tag)
            o.fields.pop(key, None)
        # what is written through a name kept for a member
        done = {id(c) for _, _, c, _ in reg}
        for c, tag in list(self.held.values()):
            if id(c) not in done and isinstance(c.v, Sym) and any(isinstance(a, str) and a.startswith('#') for a in atoms(c.v)):
                self.read(c, tag)
                c.v = Sym.var(tag)

    def read(self, c, tag):
        for name, v in comps(c.v, tag):
            if isinstance(v, Sym) and any(isinstance(a, str) and a.startswith('#') for a in atoms(v)):
                self.reads.append((name, v, self.readname(v), self.loc))

    def readname(self, v):
        out = {}
        for a in atoms(v):
            if isinstance(a, str) and a.startswith('#'):
                m = re.match(r'#(\d+)(?:@(.*))?:(\d+)$', a)
                nd = self.nodes[int(m.group(1))]
                nm = nd.name
                out[a] = (frozenset([nm]) if isinstance(nm, str) else nm or self.said, m.group(2), int(m.group(3)), nd)
        return out


def tokens(ts):
    """Numbers of a text: runs of characters between them count as separators, or as numbers of their own."""
    out = []
    for t in ts:
        if isinstance(t, str):
            out += [x for x in t.split()]
        else:
            out.append(t)
    return out


def comps(v, tag):
    if isinstance(v, Obj):
        for k, c in v.fields.items():
            yield from comps(c.v, '%s.%s' % (tag, k))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from comps(x, '%s[%d]' % (tag, i))
    else:
        yield tag, v


def atoms(s):
    out = set()
    for p in (s.n, s.d):
        for mono in p.m:
            for a, _ in mono:
                out.add(a)
    return out
