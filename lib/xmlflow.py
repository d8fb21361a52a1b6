"""Flow of values between XML names and members of the model, in the exporting and importing functions."""
from effects import *

XMLNS = ('FUXmlParser', 'FUXmlWriter', 'FUDaeParser', 'FUDaeWriter', 'FUXmlDocument')
NODE = ('_xmlNode', 'xmlNode')
MAXP = 4
EXTRA = ('FCDENode', 'FCDETechnique', 'FCDEType', 'FCDExtra', 'FCDEAttribute')
VALUE_PREFIX = ('FCDParameter', 'FCDConversion')


def is_node(t):
    return bare(t) in NODE or '_xmlNode' in t


class XmlFlow:
    def __init__(self, P, E=None):
        self.P, self.E = P, E or Effects(P)
        self.sum = {}
        self.busy = set()
        self.owner_memo = {}
        self.model = {}
        self.inputs = {}        # id suffix of a source -> semantics it is used under

    def is_model(self, c):
        """Classes whose members are the information content (as opposed to value and wrapper classes)."""
        if c not in self.model:
            self.model[c] = c in self.P.cls and '<' not in c and self.P.cls[c].n.startswith('FCD') and not self.P.cls[c].n.startswith(VALUE_PREFIX) and not (c.startswith('FCD') and any('FUObjectContainer' in a or 'fm::vector' in a for a in self.P.ancestors(c)))
        return self.model[c]

    def owner(self, c, m):
        k = (c, m)
        if k not in self.owner_memo:
            r = c
            for a in [c] + self.P.ancestors(c):
                if a in self.P.cls and any(x['n'] == m for x in self.P.cls[a].fields):
                    r = a
                    break
            self.owner_memo[k] = r
        return '%s::%s' % (self.owner_memo[k], m)

    # ---- summaries: {'ret': tags, 'w': set of (path, tag), 'r': set of (member, tag), 'wl','rl': locations}
    def summary(self, f):
        if f.id in self.sum:
            return self.sum[f.id]
        if f.id in self.busy or not f.body:
            return None
        self.busy.add(f.id)
        r = FnFlow(self, f).run()
        self.busy.discard(f.id)
        self.sum[f.id] = r
        return r


class FnFlow:
    def __init__(self, X, f):
        self.X, self.P, self.E, self.f = X, X.P, X.E, f
        self.w, self.r = {}, {}
        self.ret = set()
        self.encl = {}
        self.pidx = {p['d']: i for i, p in enumerate(f.params)}
        self.enclosing(f.body, ())
        self.idx = self.cursors()
        self.locals = {}
        for s in walk_s(f.body):
            if s['k'] == 'Decl':
                for d in s['d']:
                    if 'd' in d and 't' in d:
                        self.locals[d['d']] = d['t']
            elif s['k'] == 'Range':
                self.locals[s['var']['d']] = s['var']['t']
        self.alias = {}
        for e in f.exprs():
            if e['k'] == 'Bin' and e['op'] == '=':
                L, R = unwrap(e['L']), unwrap(e['R'])
            elif e['k'] == 'Call' and e.get('op') == '=' or e['k'] == 'Call' and callee_n(e) == 'push_back':
                a = ([e['obj']] if e.get('obj') is not None else []) + list(e.get('args', ()))
                if len(a) < 2:
                    continue
                L, R = unwrap(a[0]), unwrap(a[1])
            else:
                continue
            if isinstance(R, dict) and R['k'] == 'Un' and R['op'] == '&':
                x, y = self.base_var(L), self.base_var(R)
                if x is not None and y is not None and x != y:
                    self.alias.setdefault(x, set()).add(y)
        self.collect = False

    def cursors(self):
        """Variables that select the current element of a list of nodes or names."""
        out = set()
        for e in self.f.exprs():
            i = None
            if e['k'] == 'Idx':
                i, b = e['i'], e['b']
            elif e['k'] == 'Call' and (e.get('op') == '[]' or callee_n(e) == 'at') and e.get('args'):
                a = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
                b, i = a[0], a[-1]
            if i is not None and any(w in unwrap(b).get('t', '') for w in ('xmlNode', 'string', 'List', 'FCDENode')):
                out |= {x['d'] for x in walk_e(i) if x['k'] == 'Ref' and 'd' in x}
            if e['k'] == 'Ref' and 'd' in e and ('iterator' in e.get('t', '') or 'stringT' in e.get('t', '') or 'xmlNode' in e.get('t', '')):
                out.add(e['d'])
        return out

    def enclosing(self, s, ctx):
        if not isinstance(s, dict):
            return
        k = s['k']
        for e in stmt_exprs(s):
            for x in walk_e(e):
                self.encl[id(x)] = ctx
        if k == 'If':
            self.enclosing(s.get('init'), ctx)
            self.enclosing(s.get('T'), ctx + ((s['c'], True),))
            self.enclosing(s.get('F'), ctx + ((s['c'], False),))
        elif k == 'Switch':
            self.enclosing(s.get('b'), ctx + ((s['c'], True),))
        else:
            for x in sub_stmts(s):
                self.enclosing(x, ctx)

    def run(self):
        cfg = self.f.cfg()
        init = {}
        for p in self.f.params:
            i = self.pidx[p['d']]
            init[p['d']] = frozenset([('nd', ('$%d' % i,))]) if is_node(p['t']) and 'List' not in p['t'] and 'vector' not in p['t'] else frozenset([('p', i)])
        inn = solve(cfg, init, self.transfer, self.assume, self.join)
        self.collect = True
        for n in cfg.nodes:
            if inn[n.i] is not None:
                self.transfer(inn[n.i], n)
        return {'ret': frozenset(self.ret), 'w': self.w, 'r': self.r}

    def join(self, a, b):
        if a is b:
            return a
        out = {}
        for k, v in a.items():
            if isinstance(k, tuple):
                # a name established by comparison holds after the join only if it holds on both sides, or if the
                # other side knows nothing of the node
                if k in b:
                    out[k] = v | b[k]
                elif k[0] == '#m':
                    out[k] = v
                elif not self.mentions(b, k[1]):
                    out[k] = v
            else:
                out[k] = v
        for k, v in b.items():
            if isinstance(k, tuple):
                if k not in a and (k[0] == '#m' or not self.mentions(a, k[1])):
                    out[k] = v
                continue
            o = out.get(k)
            out[k] = v if o is None else (o | v if not v <= o else o)
        return out

    def mentions(self, st, p):
        return any(t[1] == p for k, v in st.items() if not isinstance(k, tuple) for t in v if t[0] in ('nd', 'n', 'nm'))

    def narrowed(self, tg, st):
        if not any(isinstance(k, tuple) and k[0] == '#' for k in st):
            return tg
        out = set()
        for t in tg:
            nm = st.get(('#', t[1])) if t[0] in ('nd', 'n', 'nm') else None
            if nm:
                out |= {(t[0], t[1][:-1] + (n,)) for n in nm}
            else:
                out.add(t)
        return frozenset(out)

    def cut(self, p):
        if len(p) > MAXP:
            return ('~',) + p[-(MAXP - 1):]
        return p

    # ---- expressions
    def tags(self, e, st):
        e = unwrap(e)
        if not isinstance(e, dict):
            return frozenset()
        k = e['k']
        if k == 'Str':
            return frozenset([('s', e['s'])])
        if k == 'Ref':
            if e.get('dk') in ('var', 'parm'):
                return self.narrowed(st.get(e['d'], frozenset()), st)
            g = self.P.vars.get(e.get('q') or '')
            if g is not None and isinstance(g.get('init'), dict) and unwrap(g['init'])['k'] == 'Str':
                return frozenset([('s', unwrap(g['init'])['s'])])
            return frozenset()
        if k == 'Mem':
            b = e.get('b')
            if not isinstance(b, dict) or e.get('dk') != 'field':
                return self.tags(b, st) if isinstance(b, dict) else frozenset()
            bt = bare(unwrap(b).get('t', ''))
            if bt in NODE:
                out = set()
                for t in self.tags(b, st):
                    if t[0] != 'nd':
                        continue
                    p = t[1]
                    if e['n'] in ('children', 'last'):
                        out.add(('nd', self.cut(p + ('*',))))
                    elif e['n'] in ('next', 'prev'):
                        out.add(('nd', p[:-1] + ('*',) if len(p) > 1 else p))
                    elif e['n'] == 'parent':
                        out.add(('nd', p[:-1] if len(p) > 1 else ('~',)))
                    elif e['n'] == 'name':
                        out.add(('nm', p))
                    else:
                        out.add(('n', p))
                return frozenset(out)
            c = self.mcls(e, bt)
            if c:
                return frozenset([('m', self.X.owner(c, e['n']))])
            return self.tags(b, st)
        if k == 'Call':
            return self.call(e, st)
        if k == 'Bin' and e['op'] == '=':
            return self.tags(e['R'], st)
        if k == 'Lambda':
            return frozenset()
        out = set()
        for x in kids(e):
            out |= self.tags(x, st)
        if k == 'New' and self.X.is_model(e.get('nt', '')):
            return frozenset()
        return frozenset(out)

    def mcls(self, e, bt):
        c = bare(e.get('fc') or e.get('c') or bt)
        if self.X.is_model(c):
            return c
        return bt if self.X.is_model(bt) else None

    def node_paths(self, tg):
        return [t[1] for t in tg if t[0] == 'nd']

    def names(self, tg):
        return [t[1] if t[0] == 's' else '$%d' % t[1] for t in tg if t[0] in ('s', 'p')]

    def child(self, ptags, ntags, attr=False):
        out = set()
        for p in self.node_paths(ptags) or [('~',)]:
            for n in self.names(ntags):
                out.add(self.cut(p + (('@' if attr else '') + n,)))
        return out

    def call(self, e, st):
        n = callee_n(e)
        q = callee_q(e)
        ns = q.rsplit('::', 1)[0] if '::' in q else ''
        args = [a for a in e.get('args', ()) if isinstance(a, dict)]
        at = [self.tags(a, st) for a in args]
        o = e.get('obj')
        if ns in XMLNS:
            r = self.xml_call(n, e, args, at, st)
            if r is not None:
                return r
        t = self.P.direct(e)
        if o is not None:
            ot = bare(unwrap(o).get('t', ''))
            cc = (e.get('cal') or {}).get('c') or ot
            x = self.extra_call(n, ot, o, at, st)
            if x is not None:
                return x
            if self.X.is_model(cc) or self.X.is_model(ot):
                if t is not None:
                    rt = self.E.returned(t)
                    if rt:
                        return frozenset(('m', self.X.owner(t.cls or ot, m)) for m in rt) | frozenset(x for x in self.tags(o, st) if x[0] == 'm')
                    if n.startswith(('Get', 'Is', 'Has')) and 'Flag' in n:
                        return frozenset([('m', '%s::%s' % (t.cls, n.replace('Get', '', 1)))])
                return frozenset(x for a in at for x in a if x[0] in ('n', 's', 'p')) if n.startswith(('Find', 'Add', 'Create')) is False else frozenset()
            out = set(self.tags(o, st))
            for a in at:
                out |= a
            return frozenset(out)
        if e.get('op'):
            return frozenset().union(*at) if at else frozenset()
        if t is not None and t.body is not None and self.follow(t):
            s = self.X.summary(t)
            if s is not None:
                r = frozenset(self.subst(s['ret'], at))
                if not r and is_node(e.get('t', '')):
                    r = frozenset(('nd', self.cut(p + ('*',))) for a in at for p in self.node_paths(a))
                return r
        out = set()
        for a in at:
            out |= {x for x in a if x[0] != 's'}
        return frozenset(out)

    def extra_call(self, n, ot, o, at, st):
        """Look-ups in the in-memory copy of an extra tree stand for the document elements they were loaded from."""
        if ot not in EXTRA:
            return None
        if n in ('FindRootNode', 'FindChildNode', 'FindParameter', 'FindAttribute') and at:
            base = [t[1] for t in self.tags(o, st) if t[0] == 'nd'] or [('~x',)]
            return frozenset(('nd', self.cut(p + (('@' if n == 'FindAttribute' else '') + x,))) for p in base for x in self.names(at[0]))
        if n in ('GetContent', 'GetValue', 'GetName'):
            base = [t[1] for t in self.tags(o, st) if t[0] == 'nd']
            if base:
                return frozenset(('nm' if n == 'GetName' else 'n', p) for p in base)
        return None

    def follow(self, t):
        return t.file.startswith('FColladaPlugins') or t.n.startswith('ReadNode')

    def xml_call(self, n, e, args, at, st):
        if not at:
            return None
        if n in ('FindChildByType', 'FindChildByName', 'FindTechnique', 'AddSibling', 'AddChildOnce', 'AddChildSorted', 'InsertChild') or n == 'AddChild':
            if n == 'AddChild' and len(at) == 2 and is_node(args[1].get('t', '')):
                return frozenset()
            i = 2 if n == 'InsertChild' else 1
            if len(at) > i:
                return frozenset(('nd', p) for p in self.child(at[0], at[i]))
        if n in ('FindChildById', 'FindChildByRef'):
            return frozenset(('nd', self.cut(p + ('*',))) for p in self.node_paths(at[0]))
        if n == 'CreateNode':
            return frozenset(('nd', self.cut(('~',) + (x,))) for x in self.names(at[0]))
        if n in ('ReadNodeProperty', 'ReadNodePropertyCRC', 'HasNodeProperty') and len(at) > 1:
            return frozenset(('n', p) for p in self.child(at[0], at[1], True))
        if n in ('ReadNodeUrl',):
            nm = at[1] if len(at) > 1 and at[1] else frozenset([('s', 'url')])
            return frozenset(('n', p) for p in self.child(at[0], nm, True))
        if n in ('ReadNodeContentDirect', 'ReadNodeContentFull'):
            return frozenset(('n', p) for p in self.node_paths(at[0]))
        if n.startswith('ReadSource'):
            return frozenset(('n', p) for p in self.node_paths(at[0]))
        if n in ('AddExtraTechniqueChild', 'AddTechniqueChild'):
            return frozenset(('nd', self.cut(p + ('technique',))) for p in self.node_paths(at[0]))
        if n == 'AddInput':
            return frozenset(('nd', self.cut(p + ('input',))) for p in self.node_paths(at[0]))
        if n in ('AddParameter', 'AddArray', 'AddAccessor') or n.startswith('AddSource'):
            return frozenset(('nd', self.cut(p + ('*',))) for p in self.node_paths(at[0]))
        if n in ('ReadNodeId', 'ReadNodeSid', 'ReadNodeSemantic', 'ReadNodeName', 'ReadNodeSource', 'ReadNodeStage', 'ReadNodeCount', 'ReadNodeStride'):
            return frozenset(('n', self.cut(p + ('@' + n[8:].lower(),))) for p in self.node_paths(at[0]))
        return None

    def subst(self, tg, at):
        out = set()
        for t in tg:
            if t[0] == 'p':
                if t[1] < len(at):
                    out |= at[t[1]]
            elif t[0] in ('nd', 'n', 'nm'):
                for p in self.subst_path(t[1], at):
                    out.add((t[0], p))
            else:
                out.add(t)
        return out

    def subst_path(self, p, at):
        outs = [()]
        for i, c in enumerate(p):
            pre, body = ('@', c[1:]) if c.startswith('@') else ('', c)
            if body.startswith('$'):
                a = at[int(body[1:])] if int(body[1:]) < len(at) else frozenset()
                if i == 0:
                    opts = [x for x in self.node_paths(a)] or [('~',)]
                else:
                    opts = [(pre + x,) for x in self.names(a)] or [('?',)]
            else:
                opts = [(c,)]
            outs = [o + x for o in outs for x in opts][:64]
        return [self.cut(o) for o in outs]

    def pointed(self, st, L, rt):
        """A pointer to a member chosen while the current name is known: what goes through it comes from that name."""
        ms = [t[1] for t in rt if t[0] == 'm']
        if not ms or not is_ptr(L.get('t', '')):
            return st
        nm = frozenset().union(*[v for k, v in st.items() if isinstance(k, tuple) and k[0] == '#'] or [frozenset()])
        if nm:
            st = dict(st)
            for m in ms:
                st[('#m', m)] = nm
        return st

    def selected(self, e, st):
        """Node chosen because its input has a certain semantic: the semantic names what is read from it."""
        out = set()
        for c, pol in self.encl.get(id(e), ()):
            if not pol:
                continue
            todo = [unwrap(c)]
            while todo:
                c = todo.pop()
                if c['k'] == 'Bin' and c['op'] in ('||', '&&'):
                    todo += [unwrap(c['L']), unwrap(c['R'])]
                    continue
                ops = self.equality(c, True)
                for x, y in ((ops, ops[::-1]) if ops else ()):
                    if any(t[0] == 'n' and t[1][-1] == '@semantic' for t in self.tags(x, st)):
                        out |= {('nd', ('~', 'source', '#' + n)) for n in self.names(self.tags(y, st))}
        return out

    # ---- events
    def ctl(self, e, st):
        out = set()
        for c, pol in self.encl.get(id(e), ()):
            out |= self.tags(c, st)
        return out

    def wev(self, paths, vt, e, st):
        if not self.collect:
            return
        v = {t for t in vt if t[0] in ('m', 'p', 'nd', 'n')}
        weak = False
        if not any(t[0] in ('m', 'p') for t in v):
            v = {t for t in self.ctl(e, st) if t[0] in ('m', 'p')}
            weak = True
        for p in paths:
            for t in v:
                if t[0] in ('m', 'p'):
                    self.w.setdefault((p, t, weak), self.f.loc(e))

    def rev(self, members, vt, e, st, weak=False):
        if not self.collect or not members:
            return
        v = {t for t in vt if t[0] in ('n', 'p', 'nm', 'nd')}
        if not any(t[0] in ('n', 'p', 'nd') for t in v):
            v = {t for t in self.ctl(e, st) if t[0] in ('n', 'nd', 'p')}
            weak = True
            # a node variable narrowed by name in the enclosing condition
            for c, pol in self.encl.get(id(e), ()):
                for x in walk_e(c):
                    if x['k'] == 'Ref' and is_node(x.get('t', '')):
                        v |= {('n', t[1]) for t in self.tags(x, st) if t[0] == 'nd'}
        for m in members:
            w = v
            nm = st.get(('#m', m))
            if nm:
                w = {t for t in v if t[0] in ('n', 'nd') and t[1][-1] in nm}
                if not w:
                    w = {(t[0], t[1][:-1] + (n,)) for t in v if t[0] in ('n', 'nd') and t[1][-1] == '*' for n in nm} or v
            for t in w:
                self.r.setdefault((frozenset(members), m, t, weak), self.f.loc(e))

    def base_var(self, e):
        e = unwrap(e)
        while isinstance(e, dict):
            k = e['k']
            if k == 'Ref' and e.get('dk') in ('var', 'parm'):
                return e['d']
            if k in ('Mem', 'Idx'):
                e = unwrap(e['b'])
            elif k == 'Un' and e['op'] in ('*', '&'):
                e = unwrap(e['e'])
            elif k == 'Call' and (e.get('op') in ('[]', '*', '->') or callee_n(e) in ('back', 'front', 'at', 'begin', 'last')):
                e = unwrap(e['obj'] if e.get('obj') is not None else e['args'][0])
            else:
                return None
        return None

    def lhs_members(self, e, st):
        out = set()
        b = self.base_var(e)
        bt = self.locals.get(b)
        byvalue = bt is not None and not bt.endswith(('&', '*')) and 'iterator' not in bt and not is_ptr(bt) and 'Ref' not in bt
        if byvalue and e['k'] == 'Mem' and self.X.is_model(bt) and self.mcls(e, bare(unwrap(e['b']).get('t', ''))):
            byvalue = False
        for t in self.tags(e, st):
            if byvalue:
                continue
            if t[0] == 'm':
                out.add(t[1])
            elif t[0] == 'p':
                pt = self.f.params[t[1]]['t']
                if (pt.endswith('&') or pt.endswith('*')) and not pt.startswith('const ') and not is_node(pt) and 'xmlNode' not in pt:
                    out.add('$%d' % t[1])
        return frozenset(out)

    def put(self, st, d, tg, weak):
        st = dict(st)
        for t in tg:
            if t[0] == 'nd':
                st.pop(('#', t[1]), None)
        st[d] = (st.get(d, frozenset()) | tg) if weak else frozenset(tg)
        for a in self.alias.get(d, ()):
            st[a] = st.get(a, frozenset()) | frozenset(tg)
        return st

    def transfer(self, st, n):
        if n.k == 'decl':
            d = n.e
            if isinstance(d.get('rangeof'), dict):
                st = {x: v for x, v in st.items() if not isinstance(x, tuple)}
                return self.put(st, d['d'], self.tags(d['rangeof'], st), False)
            if isinstance(d.get('init'), dict):
                return self.put(st, d['d'], self.tags(d['init'], st), False)
            return self.put(st, d['d'], frozenset(), False)
        if n.k == 'ret' and isinstance(n.e, dict):
            self.ret |= self.tags(n.e, st)
            return st
        if n.k == 'init':
            i = n.e
            if isinstance(i, dict) and i.get('f') and self.f.cls:
                ie = i.get('e')
                if isinstance(ie, dict):
                    self.rev(frozenset([self.X.owner(self.f.cls, i['f'])]), self.tags(ie, st), ie, st)
            return st
        if n.k != 'ev':
            return st
        e = n.e
        k = e['k']
        if k in ('Ctor', 'New'):
            self.construct(e, st)
            return st
        if (k == 'Un' and e['op'] in ('++', '--')) or (k == 'Call' and e.get('op') in ('++', '--')):
            o = e.get('e') if k == 'Un' else (e['obj'] if e.get('obj') is not None else e['args'][0])
            if not any(x['k'] == 'Ref' and x.get('d') in self.idx for x in walk_e(o)):
                return st
            return {x: v for x, v in st.items() if not (isinstance(x, tuple) and x[0] == '#')}
        if k == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            rt = self.tags(e['R'], st)
            L = unwrap(e['L'])
            if L['k'] == 'Ref' and L.get('dk') in ('var', 'parm'):
                if L.get('t', '').endswith('&'):
                    pass
                else:
                    rt = rt | self.selected(e, st) if any(t[0] in ('nd', 'n') for t in rt) else rt
                    st = self.pointed(st, L, rt)
                    return self.put(st, L['d'], rt, e['op'] != '=')
            m = self.lhs_members(L, st)
            if m:
                part = L['k'] == 'Mem' and not self.X.is_model(bare(unwrap(L['b']).get('t', ''))) and L['n'] in ('x', 'y', 'z', 'w', 'r', 'g', 'b', 'a')
                self.rev(m, rt, e, st, 'part:' + L['n'] if part else False)
            b = self.base_var(L)
            if b is not None and L['k'] != 'Ref' and not m:
                return self.put(st, b, rt, True)
            return st
        if k != 'Call':
            return st
        args = [a for a in e.get('args', ()) if isinstance(a, dict)]
        at = [self.tags(a, st) for a in args]
        nme, q = callee_n(e), callee_q(e)
        ns = q.rsplit('::', 1)[0] if '::' in q else ''
        o = e.get('obj')
        t = self.P.direct(e)
        if ns in XMLNS:
            if nme in ('AddChild', 'AddChildOnce', 'AddSibling') and len(at) >= 2 and not (len(at) == 2 and is_node(args[1].get('t', ''))):
                ps = self.child(at[0], at[1])
                if len(at) > 2 and not (args[2].get('dflt')):
                    self.wev(ps, at[2], e, st)
                else:
                    self.wev(ps, (), e, st)
            elif nme == 'AddAttribute' and len(at) >= 3:
                self.wev(self.child(at[0], at[1], True), at[2], e, st)
            elif nme in ('AddContent', 'AddContentUnprocessed') and len(at) >= 2:
                self.wev(self.node_paths(at[0]), at[1], e, st)
            elif nme == 'AddNodeSid' and len(at) >= 2:
                self.wev([self.cut(p + ('@sid',)) for p in self.node_paths(at[0])], at[1], e, st)
            elif nme == 'FindChildrenByType' and len(at) >= 3:
                b = self.base_var(args[2])
                if b is not None:
                    return self.put(st, b, frozenset(('nd', p) for p in self.child(at[0], at[1])), False)
            elif nme == 'FindParameters' or nme == 'ReadChildrenIds':
                for a in args[1:]:
                    b = self.base_var(a)
                    if b is not None:
                        kind = 'nd' if 'xmlNode' in a.get('t', '') else 'nm'
                        st = self.put(st, b, frozenset((kind, self.cut(p + ('*',))) for p in self.node_paths(at[0])), True)
                return st
            if nme.startswith(('ReadSource', 'ReadNodeTarget', 'CalculateNodeTarget')) or nme in ('FindChildrenByType',):
                src = frozenset(('n', p) for p in self.node_paths(at[0]))
                if nme.startswith('ReadSource'):
                    src |= {('n', t[1]) for t in self.selected(e, st)}
                for a, tg in list(zip(args, at))[1:]:
                    m = frozenset(x[1] for x in tg if x[0] == 'm')
                    self.rev(m, src, e, st)
                    b = self.base_var(a)
                    if b is not None and not m:
                        st = self.put(st, b, src, True)
                return st
            if nme == 'AddInput' and len(at) > 2:
                for i, nn in enumerate(('@source', '@semantic', '@offset', '@set')):
                    if i + 1 < len(at) and not args[i + 1].get('dflt'):
                        self.wev([self.cut(p + ('input', nn)) for p in self.node_paths(at[0]) or [('~',)]], at[i + 1], e, st)
                if self.collect:
                    for x in at[1]:
                        if x[0] == 's' and x[1].strip('-'):
                            for y in self.names(at[2]):
                                self.X.inputs.setdefault(x[1], {}).setdefault(y, self.f.loc(e))
                return st
            if nme.startswith('AddSource') and len(at) > 2:
                sfx = ['#' + x[1] for x in at[1] if x[0] == 's' and x[1].strip('-')]
                for p in self.node_paths(at[0]) or [('~',)]:
                    for x in sfx or [None]:
                        self.wev([self.cut(p + (('source', x) if x else ('source',)))], at[2], e, st)
                return st
            if nme in ('AddArray', 'AddAccessor'):
                return st
            if nme == 'AddParameter':
                v = set().union(*at[1:]) if len(at) > 1 else set()
                names = [x for x in self.names([y for a in at[1:] for y in a if y[0] == 's'])]
                for p in self.node_paths(at[0]) or [('~',)]:
                    for nn in names or ['*']:
                        self.wev([self.cut(p + (nn,))], v, e, st)
            if nme in ('AddTechniqueChild', 'AddExtraTechniqueChild') and len(at) > 1:
                self.wev([self.cut(p + ('technique', '@profile')) for p in self.node_paths(at[0])], at[1], e, st)
            return st
        if t is not None and o is None and not e.get('op') and t.body is not None and self.follow(t):
            s = self.X.summary(t)
            if s is not None:
                if self.collect:
                    for (p, tg, weak), loc in s['w'].items():
                        for p2 in self.subst_path(p, at):
                            for t2 in self.subst([tg], at):
                                if t2[0] in ('m', 'p'):
                                    self.w.setdefault((p2, t2, weak), loc if tg[0] == 'm' else self.f.loc(e))
                    for (grp, m, tg, weak), loc in s['r'].items():
                        ms = [m]
                        if m.startswith('$'):
                            ms = [x[1] if x[0] == 'm' else '$%d' % x[1] for x in (at[int(m[1:])] if int(m[1:]) < len(at) else ()) if x[0] in ('m', 'p')]
                        for m2 in ms:
                            g2 = grp if m2 == m else frozenset(ms)
                            for t2 in self.subst([tg], at):
                                if t2[0] in ('n', 'p', 'nd'):
                                    self.r.setdefault((g2, m2, t2, weak), self.f.loc(e) if m.startswith('$') else loc)
                # out parameters
                for i, a in enumerate(args):
                    if i < len(t.params) and t.params[i]['t'].endswith('&') and not t.params[i]['t'].startswith('const '):
                        b = self.base_var(a)
                        if b is not None and not any(x[0] == 'm' for x in at[i]):
                            v = frozenset(x for j, y in enumerate(at) if j != i for x in y if x[0] != 's')
                            if is_node(args[i].get('t', '')):
                                continue
                            st = self.put(st, b, frozenset(('n', x[1]) if x[0] == 'nd' else x for x in v), True)
            return st
        if o is not None:
            ot = bare(unwrap(o).get('t', ''))
            cc = (e.get('cal') or {}).get('c') or ot
            if ot in EXTRA and nme == 'FindParameters':
                for a, kind in zip(args, ('nd', 'nm')):
                    b = self.base_var(a)
                    if b is not None:
                        st = self.put(st, b, frozenset([(kind, ('~x', '*'))]), True)
                return st
            if ot in EXTRA and nme in ('AddParameter', 'AddAttribute') and len(at) > 1:
                base = [t[1] for t in self.tags(o, st) if t[0] == 'nd'] or [('~x',)]
                self.wev([self.cut(p + (('@' if nme == 'AddAttribute' else '') + x,)) for p in base for x in self.names(at[0])], at[1], e, st)
                return st
            if self.X.is_model(cc) or self.X.is_model(ot):
                if t is not None and not is_const_callee(e):
                    w = self.E.writes(t)
                    v = frozenset().union(*at) if at else frozenset()
                    precise = self.through(t, at, e, st)
                    if nme.startswith(('Set', 'Reset')) and 'Flag' in nme and nme not in ('SetDirtyFlag', 'SetNewChildFlag', 'SetValueChangedFlag', 'SetStructureChangedFlag', 'ResetDirtyFlag'):
                        self.rev(frozenset(['%s::%s' % (t.cls, nme.replace('Reset', '', 1).replace('Set', '', 1))]), v, e, st)
                    elif w and not nme.startswith('Get'):
                        if not precise:
                            self.rev(frozenset(self.X.owner(t.cls or ot, m) for m in w), v, e, st)
                        ot2 = self.tags(o, st)
                        outer = frozenset([x[1] for x in ot2 if x[0] == 'm'] + ['$%d' % x[1] for x in ot2 if x[0] == 'p'])
                        if outer and at:
                            self.rev(outer, v, e, st)
                return st
            # value object: mutation of a member through a wrapper or of a local
            if not is_const_callee(e) and at and nme not in ('begin', 'end', 'find', 'at', 'size', 'empty') and e.get('op') not in ('[]', '*', '->', '==', '!='):
                v = frozenset().union(*at)
                m = self.lhs_members(o, st)
                if m:
                    self.rev(m, v, e, st)
                else:
                    b = self.base_var(o)
                    if b is not None:
                        return self.put(st, b, v, not (e.get('op') == '=' and unwrap(o)['k'] == 'Ref'))
            return st
        if e.get('op') in ('=', '+=', '-=', '*=') and len(args) == 2:
            m = self.lhs_members(args[0], st)
            if m:
                self.rev(m, at[1], e, st)
            else:
                b = self.base_var(args[0])
                if b is not None:
                    return self.put(st, b, at[1], e['op'] != '=')
            return st
        # other functions receiving a destination by reference or address
        ps = (e.get('cal') or {}).get('p', ())
        for i, a in enumerate(args):
            if i < len(ps) and (ps[i].endswith('&') or ps[i].endswith('*')) and not ps[i].startswith('const ') and not is_node(ps[i]):
                v = frozenset(x for j, y in enumerate(at) if j != i for x in y if x[0] in ('n', 'p'))
                if not v:
                    continue
                m = self.lhs_members(a, st)
                if m:
                    self.rev(m, v, e, st)
                elif ps[i].endswith('&'):
                    b = self.base_var(a)
                    if b is not None:
                        st = self.put(st, b, v, True)
        return st

    def construct(self, e, st):
        if not self.collect:
            return
        ct = self.P.direct(e)
        if e['k'] == 'Ctor' and ct is not None and ct.cls and self.X.is_model(ct.cls):
            self.through(ct, [self.tags(a, st) for a in e.get('args', ()) if isinstance(a, dict)], e, st)

    def through(self, t, at, e, st):
        """Arguments stored by a member function of the model, argument by argument."""
        if not self.collect or not at or t.n.startswith('Get'):
            return False
        s = self.X.summary(t)
        done = False
        if s is not None:
            by = {}
            for (grp, m, tg, weak) in s['r']:
                if tg[0] == 'p' and not weak and not m.startswith('$') and tg[1] < len(at):
                    by.setdefault(tg[1], set()).add(m)
            for i, ms in by.items():
                v = {x for x in at[i] if x[0] in ('n', 'p', 'nd')}
                if v:
                    self.rev(frozenset(ms), v, e, st)
                elif at[i] is not None:
                    self.rev(frozenset(ms), frozenset(), e, st)
                done = True
        return done

    def assume(self, st, a):
        if not (isinstance(a[0], dict) and isinstance(a[1], bool)):
            return st
        e, pol = unwrap(a[0]), a[1]
        ops = self.equality(e, pol)
        if ops:
            for x, y in (ops, ops[::-1]):
                tx = self.tags(x, st)
                ps = {t[1] for t in tx if t[0] == 'nm' and t[1][-1] == '*'}
                ps |= {t[1][:-1] for t in tx if t[0] == 'n' and t[1][-1] == '@type' and len(t[1]) > 1 and t[1][-2] == '*'}
                if not ps:
                    continue
                nm = self.names(self.tags(y, st))
                if nm:
                    out = dict(st)
                    for p in ps:
                        out[('#', p)] = frozenset(nm)
                    return out
        return st

    def equality(self, e, pol):
        if e['k'] == 'Call' and callee_n(e) == 'IsEquivalent' and len(e.get('args', ())) >= 2 and pol:
            return tuple(e['args'][:2])
        if e['k'] == 'Call' and e.get('op') in ('==', '!=') and pol == (e['op'] == '=='):
            a = ([e['obj']] if e.get('obj') is not None else []) + list(e.get('args', ()))
            return tuple(a[:2]) if len(a) >= 2 else None
        if e['k'] == 'Bin' and e['op'] in ('==', '!='):
            if pol == (e['op'] == '=='):
                for x, y in ((e['L'], e['R']), (e['R'], e['L'])):
                    u = unwrap(x)
                    if u['k'] == 'Call' and callee_n(u) in ('strcmp', 'strcasecmp', 'xmlStrcmp') and unwrap(y).get('v') == 0:
                        return tuple(u['args'][:2])
                return (e['L'], e['R'])
        return None
