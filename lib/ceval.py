"""Abstract evaluation of source functions over a flat constant lattice: a value is a known constant, a tracked
object/lvalue, or unknown (an opaque term). Branches on unknown conditions are explored both ways; nothing of the
program under analysis is executed."""
from model import *


class Unsupported(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Dead(Exception):
    """The path ends here (throw, abort)."""


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


class T:
    """Unknown term, identified by its tag."""
    __slots__ = ('tag', 't', 'fields')

    def __init__(self, tag, t=''):
        self.tag = tag
        self.t = t
        self.fields = {}

    def __repr__(self):
        return '<%s>' % (self.tag,)


class Obj:
    """Object of known class."""
    __slots__ = ('cls', 'fields', 'tag')

    def __init__(self, cls, tag=''):
        self.cls = cls
        self.fields = {}
        self.tag = tag

    def __repr__(self):
        return '<%s %s>' % (self.cls, self.tag)


class Ptr:
    """Pointer to a cell, or into a list."""
    __slots__ = ('a', 'i')

    def __init__(self, a, i=None):
        self.a = a
        self.i = i

    def get(self):
        if self.i is None:
            return self.a.v
        if 0 <= self.i < len(self.a):
            return self.a[self.i]
        raise Unsupported('read outside an array')

    def set(self, v):
        if self.i is None:
            self.a.v = v
        elif 0 <= self.i < len(self.a):
            self.a[self.i] = v
        else:
            raise Unsupported('write outside an array')


class CStr:
    """Pointer into a constant character string."""
    __slots__ = ('s', 'i')

    def __init__(self, s, i=0):
        self.s = s
        self.i = i


def text(v):
    if isinstance(v, str):
        return v
    if isinstance(v, CStr):
        s = v.s[v.i:]
        j = s.find('\0')
        return s if j < 0 else s[:j]
    return None


UNSIGNED = {'unsigned int': 32, 'unsigned char': 8, 'unsigned short': 16, 'unsigned long': 64, 'unsigned long long': 64}
SIGNED = {'int': 32, 'signed char': 8, 'char': 8, 'short': 16, 'long': 64, 'long long': 64}


def wrap(v, t):
    if isinstance(v, (int, bool)):
        t = bare(t) if not is_ptr(t) else t
        if t in UNSIGNED:
            return int(v) & ((1 << UNSIGNED[t]) - 1)
        if t in SIGNED:
            n = SIGNED[t]
            v = int(v) & ((1 << n) - 1)
            return v - (1 << n) if v >> (n - 1) else v
    return v


class FileScope:
    """Stands for the function when an initialiser at file scope is evaluated."""
    body = None
    q = ''

    def __init__(self, file):
        self.file = file


class Interp:
    def __init__(self, P, hook=None, maxpaths=512, maxsteps=60000, maxdepth=40, loop_unknown=1):
        self.P = P
        self.hook = hook
        self.maxpaths = maxpaths
        self.maxsteps = maxsteps
        self.maxdepth = maxdepth
        self.loop_unknown = loop_unknown
        self.globals = {}

    # ---- path enumeration by replay of a decision list
    near = None

    def paths(self, fn, this=None, args=None, mk=None):
        """Yields (return value, trace, state) for each explored path. mk() -> (this, args) rebuilt per path."""
        todo = [[]]
        n = 0
        while todo:
            dec = todo.pop()
            n += 1
            if n > self.maxpaths:
                raise Unsupported('too many paths in ' + fn.q)
            self.dec, self.pos = dec, 0
            self.newdec = list(dec)
            self.steps = 0
            self.depth = 0
            self.trace = []
            self.conds = []
            self.globals = {}
            self.known = {}
            if mk:
                this, args = mk()
            end = 'ret'
            rv = None
            try:
                rv = self.call_fn(fn, this, list(args or []))
            except Dead:
                end = 'dead'
            yield rv, self.trace, {'end': end, 'conds': list(self.conds), 'this': this, 'args': args}
            # schedule the siblings of decisions taken beyond the prefix
            for i in range(len(self.newdec) - 1, len(dec) - 1, -1):
                if self.newdec[i]:
                    todo.append(self.newdec[:i] + [False])

    def outs(self, R, fn, this=None, args=None, mk=None):
        """[(return value, state)] of every path, or None, with a note, where the code is beyond the evaluator."""
        try:
            return [(rv, st) for rv, _, st in self.paths(fn, this, args, mk)]
        except (Unsupported, RecursionError, OverflowError) as x:
            R.count('not decided')
            R.notes.append('not decided: %s: %s' % (fn.q, str(x)[:120]))
            return None

    def decide(self, e, v):
        """Branch on an unknown condition."""
        key = None
        if isinstance(v, T):
            key = v.tag
            if key in self.known:
                return self.known[key]
        if self.pos < len(self.newdec):
            r = self.newdec[self.pos]
        else:
            r = True
            self.newdec.append(True)
        self.pos += 1
        if key is not None:
            self.known[key] = r
        self.conds.append((e, r, v))
        return r

    def truth(self, e, v):
        if isinstance(v, T):
            return self.decide(e, v)
        if v is None:
            return False
        if isinstance(v, (bool, int, float)):
            return bool(v)
        return True  # pointers, objects

    # ---- functions
    def call_fn(self, fn, this, args, argcells=None):
        if fn.body is None:
            raise Unsupported('no body: ' + fn.q)
        self.depth += 1
        if self.depth > self.maxdepth:
            self.depth -= 1
            raise Unsupported('call depth in ' + fn.q)
        env = {}
        for i, p in enumerate(fn.params):
            if argcells and i < len(argcells) and argcells[i] is not None:
                env[p['d']] = argcells[i]
            else:
                env[p['d']] = Cell(args[i] if i < len(args) else T('arg:%s' % p['n'], p['t']))
        fr = (fn, this, env)
        try:
            for i in fn.r.get('inits', ()):
                if isinstance(i.get('e'), dict):
                    v = self.ev(i['e'], fr)
                    if i.get('f') and isinstance(this, Obj):
                        this.fields[i['f']] = Cell(v)
            self.st(fn.body, fr)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1

    # ---- statements
    def st(self, s, fr):
        if not isinstance(s, dict):
            return
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('too many steps')
        k = s['k']
        if k == 'Block':
            for x in s['s']:
                self.st(x, fr)
        elif k == 'Expr':
            self.ev(s['e'], fr)
        elif k == 'Decl':
            for d in s['d']:
                self.decl(d, fr)
        elif k == 'If':
            self.st(s.get('init'), fr)
            if s.get('cv'):
                self.decl(s['cv'], fr)
            c = self.cond(s['c'], fr)
            if c:
                self.st(s.get('T'), fr)
            else:
                self.st(s.get('F'), fr)
        elif k in ('While', 'For', 'Do'):
            if k == 'For':
                self.st(s.get('init'), fr)
            unk = 0
            first = k == 'Do'
            while True:
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Unsupported('too many steps in a loop')
                if not first:
                    if s.get('cv'):
                        self.decl(s['cv'], fr)
                    if isinstance(s.get('c'), dict):
                        n0 = len(self.conds)
                        save = dict(self.known)
                        c = self.cond(s['c'], fr)
                        if len(self.conds) > n0:
                            self.known = save
                            unk += 1
                            if c and unk > self.loop_unknown:
                                raise Dead()
                        if not c:
                            break
                first = False
                try:
                    self.st(s.get('b'), fr)
                except Brk:
                    break
                except Cont:
                    pass
                if k == 'For' and isinstance(s.get('inc'), dict):
                    self.ev(s['inc'], fr)
                if k == 'Do' and not self.cond(s['c'], fr):
                    break
        elif k == 'Range':
            r = self.ev(s['r'], fr)
            items = r if isinstance(r, list) else None
            if items is None:
                t = T('elem:' + show(s['r']), s['var'].get('t', ''))
                if self.decide(s['r'], T('loop:%d' % id(s))):
                    fr[2][s['var']['d']] = Cell(t)
                    try:
                        self.st(s.get('b'), fr)
                    except (Brk, Cont):
                        pass
            else:
                for x in items:
                    fr[2][s['var']['d']] = Cell(x)
                    try:
                        self.st(s.get('b'), fr)
                    except Brk:
                        break
                    except Cont:
                        pass
        elif k == 'Switch':
            if s.get('cv'):
                self.decl(s['cv'], fr)
            v = self.ev(s['c'], fr)
            self.switch(s, v, fr)
        elif k in ('Case', 'Default', 'Label'):
            self.st(s.get('s'), fr)
        elif k == 'Break':
            raise Brk()
        elif k == 'Continue':
            raise Cont()
        elif k == 'Return':
            e = s.get('e')
            raise Ret(self.ev(e, fr) if isinstance(e, dict) else None)
        elif k == 'Try':
            self.st(s['b'], fr)
        elif k == 'Nop':
            pass
        else:
            raise Unsupported('statement ' + k)

    def switch(self, s, v, fr):
        body = s['b']['s'] if s['b'] and s['b']['k'] == 'Block' else [s['b']]
        flat = []       # (label chain, statement)
        for x in body:
            labels = []
            while isinstance(x, dict) and x['k'] in ('Case', 'Default'):
                labels.append(x.get('v') if x['k'] == 'Case' else 'default')
                x = x.get('s')
            flat.append((labels, x))
        start = None
        if isinstance(v, T):
            alls = [i for i, (ls, _) in enumerate(flat) if ls]
            hasdef = any('default' in ls for ls, _ in flat)
            for n, i in enumerate(alls):
                lab = flat[i][0]
                last = hasdef and n == len(alls) - 1
                if last or self.decide(s['c'], T('%s in %s' % (v.tag, lab))):
                    start = i
                    break
        else:
            if isinstance(v, bool):
                v = int(v)
            for i, (ls, _) in enumerate(flat):
                if any(l == v and l != 'default' for l in ls):
                    start = i
                    break
            if start is None:
                for i, (ls, _) in enumerate(flat):
                    if 'default' in ls:
                        start = i
                        break
        if start is None:
            return
        try:
            for _, x in flat[start:]:
                self.st(x, fr)
        except Brk:
            pass

    def decl(self, d, fr):
        t = d.get('t', '')
        init = d.get('init')
        if t.endswith('&') and isinstance(init, dict):
            c = self.lv(init, fr)
            fr[2][d['d']] = c if c is not None else Cell(self.ev(init, fr))
            return
        if isinstance(init, dict):
            fr[2][d['d']] = Cell(self.ev(init, fr))
        else:
            m = re.match(r'^(.*)\[(\d+)\]$', t)
            if m:
                def mk(dims):
                    return [mk(dims[1:]) if len(dims) > 1 else T('uninit') for _ in range(dims[0])]
                fr[2][d['d']] = Cell(mk([int(x) for x in re.findall(r'\[(\d+)\]', t)]))
            else:
                fr[2][d['d']] = Cell(T('uninit:%s' % d.get('n'), t))

    # ---- conditions
    def cond(self, e, fr):
        k = e['k']
        if k == 'Bin' and e['op'] == '&&':
            return self.cond(e['L'], fr) and self.cond(e['R'], fr)
        if k == 'Bin' and e['op'] == '||':
            return self.cond(e['L'], fr) or self.cond(e['R'], fr)
        if k == 'Un' and e['op'] == '!':
            return not self.cond(e['e'], fr)
        if k == 'Cast' and e.get('t') == 'bool':
            return self.cond(e['e'], fr)
        return self.truth(e, self.ev(e, fr))

    # ---- lvalues: a Cell or Ptr, or None
    def lv(self, e, fr):
        k = e['k']
        if k == 'Ref':
            if e.get('dk') in ('var', 'parm'):
                c = fr[2].get(e['d'])
                if c is None:
                    c = fr[2][e['d']] = Cell(T('%s' % e['n'], e.get('t', '')))
                return c
            if e.get('dk') == 'glob':
                if e.get('sl') and e.get('d') in fr[2] and 'const ' in e.get('t', ''):
                    return fr[2][e['d']]
                self.near = fr[0].file if fr[0] is not None else None
                return self.glob(e['q'])
            return None
        if k == 'Mem' and e.get('dk') == 'field':
            o = self.ev(e['b'], fr)
            return self.field(o, e)
        if k == 'Mem' and e.get('dk') == 'glob':
            self.near = fr[0].file if fr[0] is not None else None
            return self.glob(e.get('q') or (e.get('c', '') + '::' + e['n']))
        if k == 'Idx':
            b, i = self.ev(e['b'], fr), self.ev(e['i'], fr)
            if isinstance(i, int):
                if isinstance(b, list):
                    return Ptr(b, i)
                if isinstance(b, Ptr) and b.i is not None:
                    return Ptr(b.a, b.i + i)
                if isinstance(b, Ptr) and i == 0:
                    return b
            return None
        if k == 'Un' and e['op'] == '*':
            p = self.ev(e['e'], fr)
            if isinstance(p, Ptr):
                return p
            if isinstance(p, (Obj, T)):
                return Cell(p)
            return None
        if k == 'Un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e, fr)
            return self.lv(e['e'], fr)
        if k == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            self.ev(e, fr)
            return self.lv(e['L'], fr)
        if k == 'Cast':
            return self.lv(e['e'], fr)
        return None

    def get(self, c):
        return c.get() if isinstance(c, Ptr) else c.v

    def put(self, c, v):
        if isinstance(c, Ptr):
            c.set(v)
        else:
            c.v = v

    def field(self, o, e):
        if isinstance(o, Ptr):
            o = o.get()
        if isinstance(o, list) and isinstance(e.get('fi'), int):
            return Ptr(o, e['fi']) if e['fi'] < len(o) else Cell(0)
        if isinstance(o, (Obj, T)):
            c = o.fields.get(e['n'])
            if c is None:
                c = o.fields[e['n']] = Cell(T('%s.%s' % (o.tag if isinstance(o, T) else (o.tag or o.cls), e['n']), e.get('t', '')))
            return c
        return None

    def glob(self, q):
        near = self.near
        if q in self.globals:
            return self.globals[q]
        r = self.P.varsf.get((q, near))
        if r is not None and sum(1 for k in self.P.varsf if k[0] == q) == 1:
            r = None
        key = (q, near) if r is not None else q
        if key not in self.globals:
            r = r or self.P.vars.get(q)
            if r and isinstance(r.get('init'), dict):
                self.globals[key] = Cell(T('busy'))
                v = self.ev(r['init'], (FileScope(r['file']), None, {}))
                m = re.search(r'\[(\d+)\]', r['t'])
                if isinstance(v, list) and m:
                    v = v + [None if is_ptr(r['t'].split('[')[0]) else 0] * (int(m.group(1)) - len(v))
                self.globals[key] = Cell(v)
            else:
                self.globals[key] = Cell(T('glob:' + q, r['t'] if r else ''))
        return self.globals[key]

    # ---- expressions
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('too many steps')
        k = e['k']
        if k == 'Null' or (k == 'Cast' and e.get('ck') == 'NullToPointer'):
            return None
        if 'v' in e and k != 'Str':
            v = e['v']
            if e.get('t') == 'bool':
                return bool(v)
            return v
        if k == 'Int' or k == 'Chr':
            return e.get('v', 0)
        if k == 'Bool':
            return bool(e.get('v'))
        if k == 'Str':
            return CStr(e['s'])
        if k == 'Flt':
            return float(e['f'])
        if k == 'Null':
            return None
        if k == 'Zero':
            return None if is_ptr(e.get('t', '')) else 0
        if k == 'This':
            return fr[1]
        if k in ('Ref', 'Mem', 'Idx'):
            if k == 'Ref' and e.get('dk') == 'fn':
                return ('fn', e.get('id') or e.get('q') or e.get('n'))
            c = self.lv(e, fr)
            if c is not None:
                v = self.get(c)
                return v
            if k == 'Idx':
                b, i = self.ev(e['b'], fr), self.ev(e['i'], fr)
                if isinstance(b, CStr) and isinstance(i, int):
                    s = b.s + '\0'
                    if 0 <= b.i + i < len(s):
                        return ord(s[b.i + i])
                if isinstance(b, str) and isinstance(i, int) and 0 <= i <= len(b):
                    return ord((b + '\0')[i])
            return T('expr:' + show(e), e.get('t', ''))
        if k == 'Cast':
            v = self.ev(e['e'], fr)
            ck = e.get('ck')
            if e.get('t') == 'bool':
                if isinstance(v, T):
                    return v
                return self.truth(e, v)
            if ck in ('Dynamic', 'BaseToDerived') and e.get('cs') == 'dynamic':
                return v
            return wrap(v, e.get('t', ''))
        if k == 'Bin':
            return self.bin(e, fr)
        if k == 'Un':
            return self.un(e, fr)
        if k == 'Cond':
            return self.ev(e['T'] if self.cond(e['c'], fr) else e['F'], fr)
        if k == 'List':
            return [self.ev(x, fr) for x in (e.get('e') or e.get('args') or ())]
        if k == 'New':
            return self.new(e, fr)
        if k == 'Del':
            self.ev(e['e'], fr)
            return None
        if k == 'Sizeof':
            return T('sizeof')
        if k == 'Throw':
            raise Dead()
        if k == 'Call':
            return self.call(e, fr)
        if k == 'Ctor':
            return self.ctor(e, fr)
        if k == 'Lambda':
            return ('lambda', e, fr)
        return T('expr:' + show(e), e.get('t', ''))

    def bin(self, e, fr):
        op = e['op']
        if op in ('&&', '||'):
            return self.cond(e, fr)
        if op == '=':
            v = self.ev(e['R'], fr)
            c = self.lv(e['L'], fr)
            if c is not None:
                self.put(c, v)
            else:
                self.trace.append(('store', e, v))
            return v
        if op == ',':
            self.ev(e['L'], fr)
            return self.ev(e['R'], fr)
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            c = self.lv(e['L'], fr)
            a = self.get(c) if c is not None else self.ev(e['L'], fr)
            b = self.ev(e['R'], fr)
            v = wrap(self.arith(op[:-1], a, b, e), e.get('t', ''))
            if c is not None:
                self.put(c, v)
            return v
        a, b = self.ev(e['L'], fr), self.ev(e['R'], fr)
        return wrap(self.arith(op, a, b, e), e.get('t', ''))

    def arith(self, op, a, b, e):
        num = (int, float, bool)
        if isinstance(a, num) and isinstance(b, num):
            try:
                if op in ('+', '-', '*', '<', '>', '<=', '>=', '==', '!=', '&', '|', '^', '<<', '>>'):
                    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: a < b,
                            '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b,
                            '!=': lambda: a != b, '&': lambda: int(a) & int(b), '|': lambda: int(a) | int(b),
                            '^': lambda: int(a) ^ int(b), '<<': lambda: int(a) << int(b), '>>': lambda: int(a) >> int(b)}[op]()
                if op == '/':
                    if isinstance(a, float) or isinstance(b, float):
                        return a / b
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
                if op == '%':
                    r = abs(a) % abs(b)
                    return r if a >= 0 else -r
            except (ZeroDivisionError, OverflowError, TypeError, ValueError):
                pass
            return T('(%r %s %r)' % (a, op, b))
        if op in ('==', '!='):
            r = None
            nz = (Obj, Ptr, CStr, list, tuple)
            if a is None and b is None:
                r = True
            elif (a is None and isinstance(b, nz)) or (b is None and isinstance(a, nz)):
                r = False
            elif isinstance(a, Obj) and isinstance(b, Obj):
                r = a is b
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                r = a.a is b.a and a.i == b.i
            elif isinstance(a, CStr) and isinstance(b, CStr) and a.s is b.s:
                r = a.i == b.i
            elif isinstance(a, T) and isinstance(b, T) and a is b and 'float' not in a.t:
                r = True
            elif isinstance(a, T) and b in (None, 0) and not isinstance(b, float):
                # pointer/integer truth of an opaque term
                t = self.decide(e, a)
                return t if op == '!=' else not t
            elif isinstance(b, T) and a in (None, 0) and not isinstance(a, float):
                t = self.decide(e, b)
                return t if op == '!=' else not t
            if r is not None:
                return r if op == '==' else not r
        if isinstance(a, Ptr) and a.i is not None and isinstance(b, int) and op in '+-':
            return Ptr(a.a, a.i + b if op == '+' else a.i - b)
        if isinstance(a, list) and isinstance(b, int) and op == '+':
            return Ptr(a, b)
        if isinstance(a, list) and op == '-' and isinstance(b, (list, Ptr)):
            a = Ptr(a, 0)
        if isinstance(b, list) and op in ('-', '<', '!=', '==', '<=', '>', '>='):
            b = Ptr(b, 0)
        if isinstance(a, list) and op in ('<', '!=', '==', '<=', '>', '>='):
            a = Ptr(a, 0)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.a is b.a and a.i is not None:
            return {'-': a.i - b.i, '<': a.i < b.i, '>': a.i > b.i, '<=': a.i <= b.i, '>=': a.i >= b.i,
                    '==': a.i == b.i, '!=': a.i != b.i}.get(op, T('ptr'))
        if isinstance(a, CStr) and isinstance(b, int) and op in '+-':
            return CStr(a.s, a.i + (b if op == '+' else -b))
        if isinstance(a, CStr) and isinstance(b, CStr) and a.s is b.s:
            return {'-': a.i - b.i, '<': a.i < b.i, '>': a.i > b.i}.get(op, T('ptr'))
        return T('(%s %s %s)' % (self.tag(a), op, self.tag(b)))

    def tag(self, v):
        if isinstance(v, T):
            return v.tag
        if isinstance(v, Obj):
            return 'obj%x' % id(v)
        if isinstance(v, CStr):
            return repr(text(v))
        return repr(v)

    def un(self, e, fr):
        op = e['op']
        if op == '&':
            c = self.lv(e['e'], fr)
            if c is None:
                return self.ev(e['e'], fr)
            if isinstance(c, Cell) and isinstance(c.v, Obj):
                return c.v
            return c if isinstance(c, Ptr) else Ptr(c)
        if op == '*':
            p = self.ev(e['e'], fr)
            if isinstance(p, Ptr):
                return p.get()
            if isinstance(p, CStr):
                s = p.s + '\0'
                if 0 <= p.i < len(s):
                    return ord(s[p.i])
            if isinstance(p, list) and p:
                return p[0]
            if isinstance(p, Obj):
                return p
            if isinstance(p, T):
                return T('*' + p.tag, e.get('t', ''))
            return T('*?', e.get('t', ''))
        if op == '!':
            return not self.cond(e['e'], fr)
        if op in ('++', '--'):
            c = self.lv(e['e'], fr)
            if c is None:
                return T('incdec')
            old = self.get(c)
            nv = self.arith('+' if op == '++' else '-', old, 1, e)
            if not isinstance(nv, (Ptr, CStr)):
                nv = wrap(nv, e.get('t', ''))
            self.put(c, nv)
            return old if e.get('post') else nv
        v = self.ev(e['e'], fr)
        if isinstance(v, (int, float, bool)):
            if op == '-':
                return wrap(-v, e.get('t', ''))
            if op == '+':
                return v
            if op == '~':
                return wrap(~int(v), e.get('t', ''))
        return T('%s%s' % (op, self.tag(v)), e.get('t', ''))

    def new(self, e, fr):
        init = e.get('init')
        if e.get('arr'):
            return T('new[]', e.get('t', ''))
        if isinstance(init, dict) and init['k'] == 'Ctor':
            return self.ctor(init, fr, e['nt'])
        v = self.ev(init, fr) if isinstance(init, dict) else None
        if e['nt'] in self.P.cls:
            return Obj(e['nt'])
        return Ptr(Cell(v))

    def ctor(self, e, fr, nt=None):
        args, cells = self.args(e, fr)
        t = nt or bare(e.get('t', ''))
        if t.startswith('fm::stringT<'):
            if not args:
                return ''
            s = text(args[0])
            if s is not None:
                if len(args) > 1 and isinstance(args[1], int) and isinstance(args[0], CStr) and not e['args'][1].get('dflt'):
                    return s[:args[1]]
                return s
            return T('str(%s)' % self.tag(args[0]), t)
        if self.hook:
            r = self.hook(self, e, None, args, fr)
            if r is not NotImplemented:
                return r
        if len(args) == 1 and isinstance(args[0], (Obj, list)) and bare(e.get('t', '')) == (args[0].cls if isinstance(args[0], Obj) else ''):
            o = Obj(args[0].cls)          # copy
            o.fields = {k: Cell(c.v) for k, c in args[0].fields.items()}
            return o
        o = Obj(t)
        f = self.P.direct(e)
        self.trace.append(('new', e, o))
        if f and f.body is not None and self.depth < self.maxdepth - 5:
            sub = self.construct(f, o, args, cells)
        return o

    def construct(self, f, o, args, cells):
        """Runs the constructor, chaining to the base constructors."""
        env = {}
        for i, p in enumerate(f.params):
            env[p['d']] = cells[i] if i < len(cells) and cells[i] is not None else Cell(args[i] if i < len(args) else T('arg'))
        fr = (f, o, env)
        self.depth += 1
        try:
            for i in f.r.get('inits', ()):
                if not isinstance(i.get('e'), dict):
                    continue
                x = i['e']
                if i.get('f'):
                    o.fields[i['f']] = Cell(self.ev(x, fr))
                elif i.get('base') or i.get('deleg'):
                    if x['k'] == 'Ctor':
                        bf = self.P.direct(x)
                        a, c = self.args(x, fr)
                        if bf and bf.body is not None and self.depth < self.maxdepth - 2:
                            self.construct(bf, o, a, c)
            if not self.opaque(f):
                try:
                    self.st(f.body, fr)
                except Ret:
                    pass
        finally:
            self.depth -= 1

    def yields(self, e):
        """The member a call gives a name for, if its value is to be told from the member."""
        return None

    def args(self, e, fr):
        vals, cells = [], []
        ps = (e.get('cal') or {}).get('p', ())
        for i, a in enumerate(e.get('args', ())):
            c = None
            if i < len(ps) and ps[i].endswith('&') and isinstance(a, dict) and (a['k'] in ('Ref', 'Mem', 'Idx', 'Un') or self.yields(a)):
                if not (a['k'] == 'Ref' and a.get('dk') == 'enum'):
                    c = self.lv(a, fr)
            if c is not None:
                v = self.get(c)
            else:
                v = self.ev(a, fr) if isinstance(a, dict) else None
            vals.append(v)
            cells.append(c if isinstance(c, Cell) else None)
        return vals, cells

    STR_EQ = {'==': True, '!=': False}

    def call(self, e, fr):
        q, n = callee_q(e), callee_n(e)
        obj = None
        objcell = None
        if isinstance(e.get('obj'), dict):
            objcell = self.lv(e['obj'], fr) if e['obj']['k'] in ('Ref', 'Mem', 'Idx', 'Un') else None
            obj = self.get(objcell) if objcell is not None else self.ev(e['obj'], fr)
            if isinstance(obj, Ptr):
                obj = obj.get()
        args, cells = self.args(e, fr)
        if self.hook:
            r = self.hook(self, e, obj, args, fr)
            if r is not NotImplemented:
                return r
        # character strings
        allv = ([obj] if e.get('obj') else []) + args
        tx = [text(v) for v in allv]
        if n in ('strcmp', '_stricmp', 'stricmp', 'strcasecmp', 'fstrcmp', 'fstricmp') and len(tx) == 2 and None not in tx:
            a, b = tx
            if n not in ('strcmp', 'fstrcmp'):
                a, b = a.lower(), b.lower()
            return (a > b) - (a < b)
        if n == 'strlen' and tx and tx[0] is not None:
            return len(tx[0])
        if n in ('strncmp',) and len(tx) >= 2 and tx[0] is not None and tx[1] is not None and isinstance(args[2], int):
            a, b = tx[0][:args[2]], tx[1][:args[2]]
            return (a > b) - (a < b)
        if e.get('obj') is not None and isinstance(obj, str):
            if n in ('c_str', 'begin') or (n.startswith('operator') and n.endswith('*')):
                return CStr(obj)
            if n == 'empty':
                return len(obj) == 0
            if n in ('length', 'size'):
                return len(obj)
            if n == 'operator[]' and isinstance(args[0], int) and 0 <= args[0] <= len(obj):
                return ord((obj + '\0')[args[0]])
            if n == 'compare' and tx[1] is not None:
                return (obj > tx[1]) - (obj < tx[1])
            if n in ('operator=', 'append', 'operator+=') and objcell is not None and len(args) == 1 and tx[1] is not None:
                self.put(objcell, tx[1] if n == 'operator=' else obj + tx[1])
                return self.get(objcell)
            if n == 'clear' and objcell is not None:
                self.put(objcell, '')
                return None
        if e.get('op') in ('==', '!=') and len(tx) == 2 and None not in tx and any(isinstance(v, str) for v in allv):
            return (tx[0] == tx[1]) == self.STR_EQ[e['op']]
        if n == 'operator=' and e.get('obj') is not None and objcell is not None and len(args) == 1 and 'stringT' in (e['obj'].get('t') or ''):
            self.put(objcell, tx[1] if tx[1] is not None else args[0])
            return self.get(objcell)
        # function pointers and lambdas
        if not e.get('cal'):
            fv = self.ev(e['fe'], fr) if isinstance(e.get('fe'), dict) else None
            if isinstance(fv, Ptr) and isinstance(fv.get(), tuple):
                fv = fv.get()
            if isinstance(fv, tuple) and fv[0] == 'fn' and fv[1] in self.P.fns:
                return self.enter(self.P.fns[fv[1]], obj, args, cells, e)
            return T('call?%s' % show(e), e.get('t', ''))
        f = self.P.direct(e)
        if f and self.opaque(f):
            f = None
        elif e['cal'].get('v') and not e.get('qual') and isinstance(obj, Obj):
            for c in [obj.cls] + self.P.ancestors(obj.cls):
                cand = [g for g in self.P.byq.get(c + '::' + n, ()) if len(g.params) == len(args)]
                cand = [g for g in cand if self.overrides(g, e['cal']['id'])] or cand[:0]
                if cand:
                    f = cand[0]
                    break
        elif e['cal'].get('v') and not e.get('qual') and not isinstance(obj, Obj):
            f = None
        if f and f.body is not None and self.depth < self.maxdepth:
            return self.enter(f, obj, args, cells, e)
        self.trace.append(('call', e, obj, args))
        for c in cells:
            if isinstance(c, Cell):
                pass
        return T('%s(%s)' % (n, ','.join(self.tag(a) for a in ([obj] if e.get('obj') else []) + args)), e.get('t', ''))

    OPAQUE = ('fm::', 'FUObject', 'FUTracker', 'FUTracked', 'FUEvent', 'FUFunctor', 'FUUniqueStringMap', 'FUXml', 'FUFile', 'FUError')

    def opaque(self, f):
        return f.q.startswith(self.OPAQUE) and not f.q.startswith('FUError::GetErrorString')

    def overrides(self, g, mid):
        st, seen = [g.id], set()
        while st:
            x = st.pop()
            if x == mid:
                return True
            if x in seen:
                continue
            seen.add(x)
            if x in self.P.fns:
                st += self.P.fns[x].r.get('ov', ())
        return False

    def enter(self, f, obj, args, cells, e):
        return self.call_fn(f, obj, args, cells)
