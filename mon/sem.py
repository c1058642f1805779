"""Reference semantics: AST -> flow automaton, as the language specification assigns it."""
from __future__ import annotations

COND_OPS = ('BranchDebug', 'BranchEdit', 'BranchVariation')
SCN = {2: 'BranchScenarioNow', 5: 'BranchScenarioNowAfter', 6: 'BranchScenarioNowBefore',
       3: 'BranchScenarioAfter', 4: 'BranchScenarioBefore'}
CALC = {'=': 0, '-=': 1, '+=': 2, '*=': 3, '/=': 4}
CTX = {'actor': 'lives', 'object': 'object', 'performer': 'performer'}
ENDERS = {'JumpCommon', 'Return', 'End', 'Hold', 'Destroy'}


class Meaningless(Exception):
    """The program is statically meaningless; a compiler has to reject it."""


class St:
    __slots__ = ('k', 'op', 'params', 'n', 'm', 'pos', 'mac', 'ref', 'tag', 'at')

    def __init__(self, k, op=None, params=(), n=None, m=None, pos=None, mac=None, ref=None, tag=None):
        self.k, self.op, self.params, self.n, self.m, self.pos, self.mac = k, op, params, n, m, pos, mac
        self.ref = ref
        self.tag = tag
        self.at = None      # (place of the statement this is the header of, number of the condition in it)

    def __repr__(self):
        return f'{self.k}:{self.op}{list(self.params)}@{self.pos}'


STOP = St('stop')


def off_end():
    return St('act', 'Return', (), STOP, tag='offend')


class Scope:
    """label scope + macro expansion frame"""

    def __init__(self, frame=None, env=None, ret=None):
        self.labels = {}
        self.defined = set()
        self.env = env or {}
        self.frame = frame      # None in a routine, else tuple of frames, innermost last
        self.ret = ret

    def label(self, name):
        if name not in self.labels:
            self.labels[name] = St('jmp', tag='label')
        return self.labels[name]


class Ref:
    def __init__(self, file_ast, perf, macros=None):
        """macros: name -> (macro AST node, file id)"""
        self.ast = file_ast
        self.perf = perf
        self.macros = macros if macros is not None else {}
        if macros is None:
            for d in file_ast.defs:
                if d.kind == 'macro':
                    self.macros[d.name] = (d, None)
        self.stack = []
        self.routines = []
        self.states = 0
        self.expansions = 0
        self.frames = []    # of every expansion
        self.log = []       # every step that is written somewhere

    def build(self):
        scope = Scope()
        rid = -1
        for d in self.ast.defs:
            if d.kind == 'macro':
                continue
            if d.kind == 'coro':
                rid += 1
                info = dict(id=rid, kind='coro', name=d.name, link=None)
            elif d.kind == 'def':
                rid = d.rid
                info = dict(id=rid, kind='generic', name=None, link=None)
            else:
                rid = d.rid
                if d.target not in ('actor', 'object', 'performer'):
                    raise Meaningless('target')
                info = dict(id=rid, kind=d.target, name=None, link=d.link)
            if d.body is None:
                info['alias'] = True
                info['start'] = None
            else:
                info['alias'] = False
                info['start'] = self.stmts(d.body, off_end(), scope, None, None)
            self.routines.append(info)
        und = set(scope.labels) - scope.defined
        if und:
            raise Meaningless(f'undefined labels {sorted(und)}')
        return self.routines

    # ------------------------------------------------------------ helpers
    def p(self, v, scope):
        if v[0] == 'const' and v[1] in scope.env:
            return scope.env[v[1]]
        return v

    def rec(self, st):
        self.log.append(st)
        return st

    def act(self, op, params, k, node, scope, pos=None, tag=None):
        self.states += 1
        n = k
        return self.rec(St('act', op, tuple(params), n, pos=pos or node.pos, mac=scope.frame, tag=tag))

    def stmts(self, body, k, scope, brk, loop, ctx_inner=False):
        for s in reversed(body):
            k = self.stmt(s, k, scope, brk, loop)
        return k

    def stmt(self, s, k, scope, brk, loop, ctx_inner=False):
        kd = s.kind
        if kd == 'op':
            params = [self.p(a, scope) for a in s.args]
            ender = s.name in ENDERS and not ctx_inner and s.ctx is None
            st = self.act(s.name, params, STOP if ender else k, s, scope)
            if s.ctx is not None:
                return self.ctx(s.ctx, st, s, scope)
            return st
        if kd == 'with':
            if s.body.kind == 'label':
                raise Meaningless('label in with')
            return self.ctx(s.ctx, self.stmt(s.body, k, scope, brk, loop, True), s, scope)
        if kd == 'assign':
            op, params = self.assign(s, scope)
            return self.act(op, params, k, s, scope)
        if kd == 'label':
            st = scope.label(s.name)
            if s.name in scope.defined:
                raise Meaningless('duplicate label')
            scope.defined.add(s.name)
            st.n = k
            return st
        if kd == 'jump':
            return self.rec(St('jmp', n=scope.label(s.name), pos=s.pos, mac=scope.frame, tag='jump'))
        if kd == 'call':
            return self.rec(St('call', 'Call', (), k, scope.label(s.name), pos=s.pos, mac=scope.frame))
        if kd == 'return':
            if scope.frame is not None:
                return self.rec(St('jmp', n=scope.ret, pos=s.pos, mac=scope.frame, tag='return'))
            return self.act('Return', (), k if ctx_inner else STOP, s, scope)
        if kd == 'end':
            return self.act('End', (), k if ctx_inner else STOP, s, scope)
        if kd == 'hold':
            return self.act('Hold', (), k if ctx_inner else STOP, s, scope)
        if kd == 'break':
            if brk is None:
                raise Meaningless('break outside case')
            return self.rec(St('jmp', n=brk, pos=s.pos, mac=scope.frame, tag='break'))
        if kd == 'continue':
            if loop is None:
                raise Meaningless('continue outside loop')
            return self.rec(St('jmp', n=loop[0], pos=s.pos, mac=scope.frame, tag='continue'))
        if kd == 'break_loop':
            if loop is None:
                raise Meaningless('break_loop outside loop')
            return self.rec(St('jmp', n=loop[1], pos=s.pos, mac=scope.frame, tag='break_loop'))
        if kd == 'if':
            if s.els is not None:
                nxt = self.stmts(s.els, k, scope, brk, loop)
            else:
                nxt = k
            for (neg, cs, body), kw in zip(reversed(s.arms), reversed(s.kws)):
                b = self.stmts(body, k, scope, brk, loop)
                yes, no = (nxt, b) if neg else (b, nxt)
                cur = no
                for i in range(len(cs) - 1, -1, -1):
                    cur = self.cond(cs[i], yes, cur, scope)
                    cur.at = (kw, i)
                nxt = cur
            return nxt
        if kd == 'forever':
            head = St('jmp', tag='loophead')
            head.n = self.stmts(s.body, head, scope, brk, (head, k))
            return head
        if kd == 'while':
            head = St('jmp', tag='loophead')
            b = self.stmts(s.body, head, scope, brk, (head, k))
            yes, no = (k, b) if s.neg else (b, k)
            head.n = self.cond(s.cond, yes, no, scope)
            return head
        if kd == 'for':
            if {s.init.kind, s.inc.kind} & {'continue', 'break_loop'}:
                raise Meaningless('loop statement in for header')
            head = St('jmp', tag='loophead')
            inc = St('jmp', tag='loopinc')
            inc.n = self.stmt(s.inc, head, scope, brk, loop)
            b = self.stmts(s.body, inc, scope, brk, (inc, k))
            head.n = self.cond(s.cond, b, k, scope)
            return self.stmt(s.init, head, scope, brk, loop)
        if kd == 'switch':
            return self.switch(s, k, scope, loop)
        if kd == 'msgswitch':
            # the default text is the last entry of the table, wherever it is written
            cur = k
            dflt = [a for a in s.cases if a.header is None]
            if len(dflt) > 1:
                raise Meaningless('two defaults')
            for a in s.cases:
                if a.text is None:
                    raise Meaningless('statements in message switch')
                if a.header is not None and a.header.form != 'val':
                    raise Meaningless('message case header')
            for a in dflt:
                cur = self.act('DefaultText', (self.p(a.text, scope),), cur, a, scope)
            for a in reversed(s.cases):
                if a.header is not None:
                    cur = self.act('CaseText', (self.p(a.header.val, scope), self.p(a.text, scope)), cur, a.header, scope,
                                   tag='casetext')
                    cur.at = (a.pos, 0)
            return self.act(s.name, (self.p(s.val, scope),), cur, s, scope)
        if kd == 'mcall':
            return self.mcall(s, k, scope)
        raise AssertionError(kd)

    def ctx(self, ctx, st, node, scope):
        if ctx[0] not in CTX:
            raise Meaningless('ctx kind')
        return self.act(CTX[ctx[0]], (self.p(ctx[1], scope),), st, node, scope, tag='ctx')

    def assign(self, s, scope):
        P = lambda v: self.p(v, scope)
        f = s.form
        if f == 'clear':
            return 'flag_Clear', (P(s.var),)
        if f == 'init':
            return 'flag_Initial', (P(s.var),)
        if f == 'reset_dr':
            return 'flag_ResetDungeonResult', ()
        if f == 'reset_scn':
            return 'flag_ResetScenario', (P(s.var),)
        if f == 'advlog':
            return 'flag_SetAdventureLog', (P(s.val),)
        if f == 'dmode':
            return 'flag_SetDungeonMode', (P(s.var), P(s.val))
        if f == 'scn':
            return 'flag_SetScenario', (P(s.var), ('int', s.a), ('int', s.b))
        v = P(s.var)
        if s.idx is not None:
            if s.op != '=' or s.isvar:
                raise Meaningless('bit assignment form')
            if v == ('const', self.perf):
                return 'flag_SetPerformance', (('int', s.idx), P(s.val))
            return 'flag_CalcBit', (v, ('int', s.idx), P(s.val))
        if s.isvar:
            return 'flag_CalcVariable', (v, ('int', CALC[s.op]), P(s.val))
        if s.op != '=':
            return 'flag_CalcValue', (v, ('int', CALC[s.op]), P(s.val))
        return 'flag_Set', (v, P(s.val))

    def cond(self, c, yes, no, scope):
        P = lambda v: self.p(v, scope)
        f = c.form
        if f in ('debug', 'edit', 'variation'):
            op, params = 'Branch' + f.capitalize(), (('int', 0 if c.neg else 1),)
        elif f == 'scn':
            if c.op not in SCN:
                raise Meaningless('scn operator')
            op, params = SCN[c.op], (P(c.var), ('int', c.a), ('int', c.b))
        elif f == 'bit':
            v = P(c.var)
            if v == ('const', self.perf):
                op, params = 'BranchPerformance', (('int', c.idx), ('int', 0 if c.neg else 1))
            else:
                if c.neg:
                    raise Meaningless('not on bit test')
                op, params = 'BranchBit', (v, ('int', c.idx))
        elif f == 'cmp':
            if c.isvar:
                op, params = 'BranchVariable', (P(c.var), ('int', c.op), P(c.val))
            elif c.op == 2:
                op, params = 'Branch', (P(c.var), P(c.val))
            else:
                op, params = 'BranchValue', (P(c.var), ('int', c.op), P(c.val))
        else:
            op, params = c.f['op'].name, tuple(P(a) for a in c.f['op'].args)
            if c.f['op'].ctx is not None:
                raise Meaningless('ctx in header')
        self.states += 1
        return self.rec(St('test', op, params, no, yes, pos=c.pos, mac=scope.frame))

    def switch(self, s, k, scope, loop):
        P = lambda v: self.p(v, scope)
        arms = s.cases
        h = s.header
        if h.form == 'scn':
            if h.idx not in (0, 1):
                raise Meaningless('scn index')
            hop, hp = ('SwitchScenario', 'SwitchScenarioLevel')[h.idx], (P(h.var),)
        elif h.form == 'random':
            hop, hp = 'SwitchRandom', (P(h.var),)
        elif h.form == 'dungeon_mode':
            hop, hp = 'SwitchDungeonMode', (P(h.var),)
        elif h.form == 'sector':
            hop, hp = 'SwitchSector', ()
        elif h.form == 'op':
            hop, hp = h.f['op'].name, tuple(P(a) for a in h.f['op'].args)
            if h.f['op'].ctx is not None:
                raise Meaningless('ctx in header')
        else:
            hop, hp = 'Switch', (P(h.var),)
        if arms and arms[-1].text is None and not arms[-1].body:
            raise Meaningless('switch ends in empty case')
        if sum(1 for a in arms if a.header is None) > 1:
            raise Meaningless('two defaults')
        entry = [None] * len(arms)
        cur = k
        default = k
        for i in range(len(arms) - 1, -1, -1):
            if arms[i].text is not None:
                raise Meaningless('text in switch')
            cur = self.stmts(arms[i].body, cur, scope, k, loop)
            # keep arm entries distinguishable from the next arm for empty bodies
            entry[i] = cur
            if arms[i].header is None:
                default = cur
        nxt = default
        for i in range(len(arms) - 1, -1, -1):
            c = arms[i].header
            if c is None:
                continue
            if c.form == 'val':
                op, params = 'Case', (P(c.val),)
            elif c.form == 'menu':
                op, params = 'CaseMenu', (P(c.val),)
            elif c.form == 'menu2':
                op, params = 'CaseMenu2', (P(c.val),)
            elif c.isvar:
                op, params = 'CaseVariable', (('int', c.op), P(c.val))
            else:
                op, params = ('CaseScenario' if hop == 'SwitchScenario' else 'CaseValue'), (('int', c.op), P(c.val))
            self.states += 1
            nxt = self.rec(St('test', op, params, nxt, entry[i], pos=c.pos, mac=scope.frame, tag=arms[i].pos))
            nxt.at = (arms[i].pos, 0)
        st = self.act(hop, hp, nxt, h, scope, tag='hdr')
        st.at = (s.pos, 0)
        return st

    def mcall(self, s, k, scope):
        if s.name not in self.macros:
            raise Meaningless('unknown macro')
        d, fid = self.macros[s.name]
        if s.name in self.stack:
            raise Meaningless('recursive macro')
        if len(s.args) < len(d.params):
            raise Meaningless('too few macro args')
        if d.body is None:
            return k
        env = {name: self.p(a, scope) for name, a in zip(d.params, s.args)}
        end = St('jmp', n=k, tag='macroend')
        frame = (scope.frame or ()) + ((fid, s.name, s.pos, self.expansions),)
        self.expansions += 1
        self.frames.append(frame)
        inner = Scope(frame, env, end)
        self.stack.append(s.name)
        start = self.stmts(d.body, end, inner, None, None)
        self.stack.pop()
        und = set(inner.labels) - inner.defined
        if und:
            raise Meaningless(f'undefined labels in macro {sorted(und)}')
        return St('jmp', n=start, tag='macrostart', ref=s.pos, mac=frame)
