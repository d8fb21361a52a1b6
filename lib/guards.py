"""Conditions under which each expression of a function is evaluated: enclosing branches, loops and earlier exits."""
from model import *

EXITS = ('Return', 'Break', 'Continue', 'Goto', 'Throw')


def leaves(s):
    """The statement never falls through to what follows it."""
    if not isinstance(s, dict):
        return False
    k = s['k']
    if k in EXITS:
        return True
    if k == 'Block':
        return any(leaves(x) for x in s['s'] if isinstance(x, dict))
    if k == 'If':
        return leaves(s.get('T')) and leaves(s.get('F'))
    if k == 'Expr' and isinstance(s.get('e'), dict) and s['e']['k'] == 'Throw':
        return True
    return False


class Guards:
    """at[id(e)] = ((condition, polarity), ...), outermost first; a loop counts as its condition with polarity True and the
    marker ('loop', statement)."""

    def __init__(self, f):
        self.at = {}
        self.go(f.body, ())

    def go(self, s, ctx):
        if not isinstance(s, dict):
            return
        k = s['k']
        for e in stmt_exprs(s):
            self.ex(e, ctx)
        if k == 'Block':
            for x in s['s']:
                if not isinstance(x, dict):
                    continue
                self.go(x, ctx)
                if x['k'] == 'If' and isinstance(x.get('c'), dict):
                    if leaves(x.get('T')) and not leaves(x.get('F')):
                        ctx = ctx + ((x['c'], False),)
                    elif leaves(x.get('F')) and not leaves(x.get('T')):
                        ctx = ctx + ((x['c'], True),)
        elif k == 'If':
            self.go(s.get('init'), ctx)
            self.go(s.get('T'), ctx + ((s['c'], True),))
            self.go(s.get('F'), ctx + ((s['c'], False),))
        elif k in ('While', 'For', 'Do', 'Range'):
            if isinstance(s.get('init'), dict) and 'k' in s['init'] and 'op' not in s['init']:
                self.go(s.get('init'), ctx)
            c = s.get('c')
            x = (('loop', s),) + (((c, True),) if isinstance(c, dict) and k != 'Do' else ())
            self.go(s.get('b'), ctx + x)
        elif k == 'Switch':
            self.go(s.get('b'), ctx + (('switch', s),))
        else:
            for x in sub_stmts(s):
                self.go(x, ctx)

    def ex(self, e, ctx):
        """Short-circuit operators and conditional operators guard their right parts."""
        if not isinstance(e, dict):
            return
        self.at[id(e)] = ctx
        k = e['k']
        if k == 'Bin' and e['op'] in ('&&', '||'):
            self.ex(e['L'], ctx)
            self.ex(e['R'], ctx + ((e['L'], e['op'] == '&&'),))
            return
        if k == 'Cond':
            ks = kids(e)
            if len(ks) == 3:
                self.ex(ks[0], ctx)
                self.ex(ks[1], ctx + ((ks[0], True),))
                self.ex(ks[2], ctx + ((ks[0], False),))
                return
        for x in kids(e):
            self.ex(x, ctx)
