"""Independent tokenizer and parser for ExplorerScript (reference reader; uses nothing from /repo).

Produces an AST whose nodes carry zero-based (line, column) of their first token."""
from __future__ import annotations
import re

KEYWORDS = {
    'TRUE', 'FALSE', 'not', 'jump', 'call', 'import', 'macro', 'if', 'elseif', 'else', 'forever', 'with', 'switch',
    'return', 'end', 'hold', 'continue', 'break', 'break_loop', 'value', 'debug', 'edit', 'variation', 'random',
    'sector', 'dungeon_mode', 'menu2', 'menu', 'case', 'default', 'clear', 'reset', 'init', 'scn', 'dungeon_result',
    'adventure_log', 'message_SwitchTalk', 'message_SwitchMonologue', 'while', 'coro', 'def', 'for_actor',
    'for_object', 'for_performer', 'alias', 'for', 'previous', 'Position',
}
ID = r'[a-zA-Z_][0-9a-zA-Z_]*'
_SPEC = [
    ('skip', re.compile(r'//[^\r\n]*|/\*.*?(?:\*/|\Z)|[ \t\n\r]+|\\[ \t\n\r]*(?:\r?\n|\r|\f)', re.S)),
    ('mstr', re.compile(r"'''.*?'''|\"\"\".*?\"\"\"", re.S)),
    ('str', re.compile(r"'(?:\\.|[^\\\r\n\f'])*'|\"(?:\\.|[^\\\r\n\f\"])*\"", re.S)),
    ('id', re.compile(ID)),
    ('var', re.compile(r'\$' + ID)),
    ('mcall', re.compile(r'~' + ID)),
    ('dec', re.compile(r'-?[0-9]+\.[0-9]+|-?\.[0-9]+')),
    ('int', re.compile(r'-?0[oO][0-7]+|-?0[xX][0-9a-fA-F]+|-?0[bB][01]+|-?[1-9][0-9]*|-?0+')),
    ('op', re.compile(r'&<<|==|<=|>=|!=|-=|\+=|\*=|/=|\|\||[<>&^=\[\](){},:+@§;]')),
]


class LangError(Exception):
    pass


class Tok:
    __slots__ = ('k', 't', 'line', 'col', 'pos', 'end')

    def __init__(self, k, t, line, col, pos):
        self.k, self.t, self.line, self.col, self.pos = k, t, line, col, pos
        self.end = pos + len(t)

    def __repr__(self):
        return f'{self.k}:{self.t!r}@{self.line}:{self.col}'


def tokenize(src, keep_skip=False):
    out = []
    pos, line, lstart, n = 0, 0, 0, len(src)
    while pos < n:
        best = None
        for kind, rx in _SPEC:
            m = rx.match(src, pos)
            if m and m.end() > pos and (best is None or m.end() > best[1]):
                best = (kind, m.end())
        if best is None:
            raise LangError(f'unknown char {src[pos]!r} at {line}:{pos - lstart}')
        kind, end = best
        text = src[pos:end]
        if kind == 'id' and text in KEYWORDS:
            kind = 'kw'
        if kind != 'skip' or keep_skip:
            out.append(Tok(kind, text, line, pos - lstart, pos))
        nl = text.count('\n')
        if nl:
            line += nl
            lstart = pos + text.rfind('\n') + 1
        pos = end
    out.append(Tok('eof', '', line, pos - lstart, pos))
    return out


class Node:
    __slots__ = ('kind', 'line', 'col', 'f')

    def __init__(self, kind, tok, **f):
        self.kind = kind
        self.line, self.col = tok.line, tok.col
        self.f = f

    def __getattr__(self, k):
        try:
            return self.f[k]
        except KeyError:
            raise AttributeError(k)

    @property
    def pos(self):
        return (self.line, self.col)

    def __repr__(self):
        return f'<{self.kind}@{self.line}:{self.col} {self.f}>'


COND = {'FALSE': 0, 'TRUE': 1, '==': 2, '>': 3, '<': 4, '>=': 5, '<=': 6, '!=': 7, '&': 8, '^': 9, '&<<': 10}
CALC = {'=': 0, '-=': 1, '+=': 2, '*=': 3, '/=': 4}


# ---------------------------------------------------------------- literals
def int_value(t):
    neg = t.startswith('-')
    b = t[1:] if neg else t
    low = b.lower()
    if low.startswith('0x'):
        v = int(b[2:], 16)
    elif low.startswith('0o'):
        v = int(b[2:], 8)
    elif low.startswith('0b'):
        v = int(b[2:], 2)
    else:
        v = int(b, 10)
    return -v if neg else v


def dec_value(t):
    """(negative?, integer part, fraction without trailing zeros)"""
    neg = t.startswith('-')
    b = t[1:] if neg else t
    w, _, fr = b.partition('.')
    return (neg, int(w or '0'), fr.rstrip('0'))


def single_value(t):
    """single-line literal: \\n is a newline, a backslash before a quote escapes it, and anything else is itself"""
    b = t[1:-1]
    return b.replace('\\"', '"').replace("\\'", "'").replace('\\n', '\n')


def multi_value(t):
    b = t[3:-3]
    lines = re.split(r'\r\n|\n', b)
    first, rest = lines[0], lines[1:]
    if rest and rest[-1].strip(' ') == '':
        # last line only whitespace: indentation is removed -> empty -> dropped
        rest = rest[:-1]
    ded = min((len(x) - len(x.lstrip(' ')) for x in rest), default=0)
    rest = [x[ded:] for x in rest]
    if first == '':
        return '\n'.join(rest)
    return '\n'.join([first] + rest)


def spellings(v):
    """candidate literals for the string v; complete in the sense that v has a literal iff one of these reads back as v"""
    out = []
    for q in '"\'':
        out.append(q + v.replace(q, '\\' + q).replace('\n', '\\n') + q)
    for q in '"\'':
        out.append(q + v.replace('"', '\\"').replace("'", "\\'").replace('\n', '\\n') + q)
    for q in ("'''", '"""'):
        out.append(q + v + q)
        out.append(q + '\n' + v + '\n' + q)
        out.append(q + '\n' + v + q)
        out.append(q + v + '\n' + q)
    return out


def read_string(t):
    """value of the text t as one string literal, or None"""
    try:
        k = tokenize(t)
    except LangError:
        return None
    if len(k) != 2 or k[0].k not in ('str', 'mstr') or k[0].t != t:
        return None
    return str_value(k[0])


def representable(v):
    """is there a literal for v?  (a backslash can not be escaped, so there is none for some strings)"""
    return any(read_string(t) == v for t in spellings(v))


def name_representable(v):
    """the same for the single-line literals of position marks"""
    return any(read_string(t) == v for t in spellings(v)[:4])


def str_value(tok):
    return single_value(tok.t) if tok.k == 'str' else multi_value(tok.t)


class Parser:
    def __init__(self, src):
        self.src = src
        self.toks = tokenize(src)
        self.i = 0
        self.call_marks = []  # the ones that are arguments of macro calls
        self.positions = []  # every Position literal, in source order

    # -- helpers
    @property
    def cur(self):
        return self.toks[self.i]

    def peek(self, n=1):
        return self.toks[min(self.i + n, len(self.toks) - 1)]

    def at(self, t):
        c = self.cur
        return c.t == t and c.k in ('kw', 'op', 'id')

    def accept(self, t):
        if self.at(t):
            self.i += 1
            return self.toks[self.i - 1]
        return None

    def expect(self, t):
        r = self.accept(t)
        if r is None:
            self.fail(f'expected {t!r}')
        return r

    def kind(self, k):
        if self.cur.k != k:
            self.fail(f'expected {k}')
        self.i += 1
        return self.toks[self.i - 1]

    def fail(self, msg):
        c = self.cur
        raise LangError(f'{msg}, got {c!r}')

    # -- file
    def parse(self):
        imports, defs = [], []
        while self.at('import'):
            self.i += 1
            imports.append(single_value(self.kind('str').t))
            self.expect(';')
        while self.cur.k != 'eof':
            t = self.cur
            if self.at('macro'):
                self.i += 1
                name = self.kind('id').t
                self.expect('(')
                ps = []
                if self.cur.k == 'var':
                    ps.append(self.kind('var').t)
                while self.accept(','):
                    ps.append(self.kind('var').t)
                self.expect(')')
                defs.append(Node('macro', t, name=name, params=ps, body=self.suite()))
            elif self.at('coro'):
                self.i += 1
                name = self.kind('id').t
                defs.append(Node('coro', t, name=name, body=self.suite()))
            elif self.at('def'):
                self.i += 1
                rid = int_value(self.kind('int').t)
                if self.at('{'):
                    defs.append(Node('def', t, rid=rid, body=self.suite()))
                else:
                    if self.accept('for'):
                        target = self.kind('id').t
                    elif self.cur.t in ('for_actor', 'for_object', 'for_performer'):
                        target = self.cur.t[4:]
                        self.i += 1
                    else:
                        self.fail('target')
                    self.accept('(')
                    link = self.intlike()
                    self.accept(')')
                    defs.append(Node('fdef', t, rid=rid, target=target, link=link, body=self.suite()))
            else:
                self.fail('definition')
        return Node('file', self.toks[0], imports=imports, defs=defs)

    def suite(self):
        """None for alias, else list of statements (at least one)"""
        self.expect('{')
        if self.accept('alias'):
            self.expect('previous')
            self.expect(';')
            self.expect('}')
            return None
        body = self.stmts()
        if not body:
            self.fail('statement')
        self.expect('}')
        return body

    def stmts(self):
        out = []
        while not (self.at('}') or self.at('case') or self.at('default') or self.cur.k == 'eof'):
            out.append(self.stmt())
        return out

    def block(self):
        self.expect('{')
        b = self.stmts()
        self.expect('}')
        return b

    # -- statements
    def stmt(self):
        t = self.cur
        if t.k == 'mcall':
            self.i += 1
            self.expect('(')
            n = len(self.positions)
            args = self.args()
            self.call_marks += self.positions[n:]
            self.expect(')')
            self.expect(';')
            return Node('mcall', t, name=t.t[1:], args=args)
        if t.k == 'kw':
            if t.t == 'with':
                self.i += 1
                self.expect('(')
                ctx = self.ctx()
                self.expect(')')
                self.expect('{')
                s = self.simple()
                self.expect(';')
                self.expect('}')
                return Node('with', t, ctx=ctx, body=s)
            if t.t == 'if':
                return self.if_()
            if t.t == 'switch':
                return self.switch()
            if t.t in ('message_SwitchTalk', 'message_SwitchMonologue'):
                return self.msgswitch()
            if t.t == 'forever':
                self.i += 1
                return Node('forever', t, body=self.block())
            if t.t == 'while':
                self.i += 1
                neg = self.accept('not') is not None
                self.expect('(')
                h = self.cond()
                self.expect(')')
                return Node('while', t, neg=neg, cond=h, body=self.block())
            if t.t == 'for':
                self.i += 1
                self.expect('(')
                init = self.simple()
                self.expect(';')
                h = self.cond()
                self.expect(';')
                inc = self.simple()
                self.expect(';')
                self.expect(')')
                return Node('for', t, init=init, cond=h, inc=inc, body=self.block())
        s = self.simple()
        self.expect(';')
        return s

    def simple(self):
        t = self.cur
        if t.k == 'op' and t.t in ('@', '§'):
            self.i += 1
            return Node('label', t, name=self.kind('id').t)
        if t.k == 'kw':
            if t.t in ('return', 'end', 'hold', 'continue', 'break', 'break_loop'):
                self.i += 1
                return Node(t.t, t)
            if t.t in ('jump', 'call'):
                self.i += 1
                self.expect('@')
                return Node(t.t, t, name=self.kind('id').t)
            if t.t == 'clear' or t.t == 'init':
                self.i += 1
                return Node('assign', t, form=t.t, var=self.intlike())
            if t.t == 'reset':
                self.i += 1
                if self.accept('dungeon_result'):
                    return Node('assign', t, form='reset_dr')
                self.expect('scn')
                self.expect('(')
                v = self.intlike()
                self.expect(')')
                return Node('assign', t, form='reset_scn', var=v)
            if t.t == 'adventure_log':
                self.i += 1
                self.expect('=')
                return Node('assign', t, form='advlog', val=self.intlike())
            if t.t == 'dungeon_mode':
                self.i += 1
                self.expect('(')
                v = self.intlike()
                self.expect(')')
                self.expect('=')
                return Node('assign', t, form='dmode', var=v, val=self.intlike())
        if t.k == 'id' and self.peek().k == 'op' and self.peek().t in ('(', '<'):
            return self.operation()
        var = self.intlike()
        idx = None
        if self.accept('['):
            idx = int_value(self.kind('int').t)
            self.expect(']')
        o = self.cur
        if o.t not in CALC or o.k != 'op':
            self.fail('assign operator')
        self.i += 1
        if idx is None and o.t == '=' and self.at('scn'):
            self.i += 1
            self.expect('[')
            a = int_value(self.kind('int').t)
            self.expect(',')
            b = int_value(self.kind('int').t)
            self.expect(']')
            return Node('assign', t, form='scn', var=var, a=a, b=b)
        if self.at('value'):
            return Node('assign', t, form='reg', var=var, idx=idx, op=o.t, val=self.valueof(), isvar=True)
        return Node('assign', t, form='reg', var=var, idx=idx, op=o.t, val=self.intlike(), isvar=False)

    def operation(self):
        t = self.kind('id')
        ctx = None
        if self.accept('<'):
            ctx = self.ctx()
            self.expect('>')
        self.expect('(')
        args = self.args()
        self.expect(')')
        return Node('op', t, name=t.t, ctx=ctx, args=args)

    def ctx(self):
        k = self.kind('id').t
        return (k, self.intlike())

    def args(self):
        out = []
        while not self.at(')'):
            out.append(self.arg())
            if not self.accept(','):
                break
        return out

    def arg(self):
        t = self.cur
        if t.k in ('str', 'mstr') or self.at('{'):
            return self.string()
        if self.at('Position'):
            self.i += 1
            self.expect('<')
            name = single_value(self.kind('str').t)
            self.expect(',')
            x = self.posarg()
            self.expect(',')
            y = self.posarg()
            e = self.expect('>')
            p = ('pos', name, x[1], y[1], x[0], y[0])
            self.positions.append((t, e, p))
            return p
        return self.intlike()

    def posarg(self):
        t = self.cur
        if t.k == 'int':
            self.i += 1
            return (int_value(t.t), 0)
        if t.k == 'dec':
            self.i += 1
            neg, w, fr = dec_value(t.t)
            if fr not in ('', '5'):
                return ('bad', t.t)
            return (-w if neg else w, 2 if fr == '5' else 0)
        self.fail('position argument')

    def string(self):
        t = self.cur
        if self.accept('{'):
            d = []
            while not self.at('}'):
                k = self.kind('id').t
                self.expect('=')
                s = self.cur
                if s.k not in ('str', 'mstr'):
                    self.fail('string')
                self.i += 1
                d.append((k, str_value(s)))
                if not self.accept(','):
                    break
            self.expect('}')
            if not d:
                self.fail('language string')
            dd = {}
            for k, v in d:
                dd[k] = v
            return ('lang', tuple(sorted(dd.items())))
        if t.k in ('str', 'mstr'):
            self.i += 1
            return ('str', str_value(t))
        self.fail('string')

    def intlike(self):
        t = self.cur
        self.i += 1
        if t.k == 'int':
            return ('int', int_value(t.t))
        if t.k == 'dec':
            return ('fix',) + dec_value(t.t)
        if t.k == 'id':
            return ('const', t.t)
        if t.k == 'var':
            return ('const', t.t)
        self.i -= 1
        self.fail('integer-like')

    def valueof(self):
        self.expect('value')
        self.expect('(')
        v = self.intlike()
        self.expect(')')
        return v

    def condop(self):
        t = self.cur
        if t.t in COND and t.k in ('op', 'kw'):
            self.i += 1
            return COND[t.t]
        self.fail('conditional operator')

    def cond(self):
        t = self.cur
        neg = False
        if self.at('not'):
            self.i += 1
            neg = True
        if self.cur.k == 'kw' and self.cur.t in ('debug', 'edit', 'variation'):
            w = self.cur.t
            self.i += 1
            return Node('cond', t, form=w, neg=neg)
        if not neg and self.at('scn'):
            self.i += 1
            self.expect('(')
            v = self.intlike()
            self.expect(')')
            o = self.condop()
            self.expect('[')
            a = int_value(self.kind('int').t)
            self.expect(',')
            b = int_value(self.kind('int').t)
            self.expect(']')
            return Node('cond', t, form='scn', var=v, op=o, a=a, b=b)
        if not neg and self.cur.k == 'id':
            n = self.peek()
            if n.t == '(' or (n.t == '<' and self.peek(2).k == 'id' and self.peek(3).k in ('int', 'id', 'var', 'dec')
                              and self.peek(4).t == '>'):
                return Node('cond', t, form='op', op=self.operation())
        v = self.intlike()
        if self.accept('['):
            idx = int_value(self.kind('int').t)
            self.expect(']')
            return Node('cond', t, form='bit', neg=neg, var=v, idx=idx)
        if neg:
            self.fail('bit test')
        o = self.condop()
        if self.at('value'):
            return Node('cond', t, form='cmp', var=v, op=o, val=self.valueof(), isvar=True)
        return Node('cond', t, form='cmp', var=v, op=o, val=self.intlike(), isvar=False)

    def conds(self):
        neg = self.accept('not') is not None
        self.expect('(')
        out = [self.cond()]
        while self.accept('||'):
            out.append(self.cond())
        self.expect(')')
        return neg, out

    def if_(self):
        t = self.expect('if')
        arms = []
        kws = [(t.line, t.col)]
        neg, cs = self.conds()
        arms.append((neg, cs, self.block()))
        els = None
        while self.at('elseif'):
            kws.append((self.cur.line, self.cur.col))
            self.i += 1
            neg, cs = self.conds()
            arms.append((neg, cs, self.block()))
        if self.accept('else'):
            els = self.block()
        return Node('if', t, arms=arms, els=els, kws=kws)

    def switch(self):
        t = self.expect('switch')
        self.expect('(')
        ht = self.cur
        h = self.switch_header()
        self.expect(')')
        return Node('switch', t, header=h, hpos=(ht.line, ht.col), cases=self.cases())

    def switch_header(self):
        t = self.cur
        if self.at('scn'):
            self.i += 1
            self.expect('(')
            v = self.intlike()
            self.expect(')')
            self.expect('[')
            idx = int_value(self.kind('int').t)
            self.expect(']')
            return Node('hdr', t, form='scn', var=v, idx=idx)
        if self.at('random') or self.at('dungeon_mode'):
            w = self.cur.t
            self.i += 1
            self.expect('(')
            v = self.intlike()
            self.expect(')')
            return Node('hdr', t, form=w, var=v)
        if self.at('sector'):
            self.i += 1
            self.expect('(')
            self.expect(')')
            return Node('hdr', t, form='sector')
        if t.k == 'id' and self.peek().t in ('(', '<'):
            return Node('hdr', t, form='op', op=self.operation())
        return Node('hdr', t, form='var', var=self.intlike())

    def cases(self):
        self.expect('{')
        out = []
        while not self.at('}'):
            t = self.cur
            if self.accept('default'):
                hd = None
            else:
                self.expect('case')
                ct = self.cur
                if self.accept('menu'):
                    self.expect('(')
                    hd = Node('case', ct, form='menu', val=self.string())
                    self.expect(')')
                elif self.accept('menu2'):
                    self.expect('(')
                    hd = Node('case', ct, form='menu2', val=self.intlike())
                    self.expect(')')
                elif ct.t in COND and ct.k in ('op', 'kw'):
                    o = self.condop()
                    if self.at('value'):
                        hd = Node('case', ct, form='cmp', op=o, val=self.valueof(), isvar=True)
                    else:
                        hd = Node('case', ct, form='cmp', op=o, val=self.intlike(), isvar=False)
                else:
                    hd = Node('case', ct, form='val', val=self.intlike())
            self.expect(':')
            if self.cur.k in ('str', 'mstr') or self.at('{'):
                body = self.string()
                out.append(Node('arm', t, header=hd, text=body, body=None))
            else:
                out.append(Node('arm', t, header=hd, text=None, body=self.stmts()))
        self.expect('}')
        return out

    def msgswitch(self):
        t = self.cur
        self.i += 1
        self.expect('(')
        v = self.intlike()
        self.expect(')')
        return Node('msgswitch', t, name=t.t, val=v, cases=self.cases())


def parse(src):
    return Parser(src).parse()
