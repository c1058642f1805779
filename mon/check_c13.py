"""C13: flat structured programs come back structured and free of jumps."""
from collections import Counter
from . import deco, env, equiv, gen_ssb as gs, lang, progs, sem, semcheck
from .core import Skip
from .gen_prog import G, render

ID = 'C13'
RULE = ('random flat structured programs (plain statements, if/elseif/else chains, switches with break-terminated cases, one terminator '
        'per routine) are compiled and decompiled by the real code. The text is read by the reference reader: not a fallback, no jump, and '
        'the operations and tests it prints are, as a multiset, those of the source, routine by routine; it also has to behave like the source. '
        'Non-trivial: at least one if or switch; distinct by compiled ops.')
REQUIRE = {'programs_compared': 2500, 'ifs': 4000, 'switches': 2500, 'ops_compared': 20000, 'seen:shapes': 200}
CASE_LIMIT = 60


def plan(tier, seed):
    k = 1 if tier == 'quick' else 20
    return [('flat', 8000 * k), ('small', 6000 * k), ('enum', 1200 if tier == 'quick' else 6000), ('long', 40 * k)]


class F(G):
    def plain_stmt(self):
        r = self.r.random()
        if r < 0.8:
            self.simple()
        elif r < 0.9:
            self.with_block()
        else:
            self.msgswitch()
        self.nl()

    def plain_block(self):
        self.w('{', ('in',))
        self.nl()
        for _ in range(self.r.choice([0, 1, 1, 1, 2, 3])):
            self.plain_stmt()
        self.w(('out',), '}')

    def switch_header(self):
        if not self.chance(0.15):
            return super().switch_header()
        n, args = self.pick([('main_EnterRescueUser', 0), ('main_EnterTraining', 2), ('main_EnterTraining2', 1), ('message_SwitchMenu2', 2),
                             ('SwitchDirectionLives2', 1), ('SwitchDirectionMark', 2), ('ProcessSpecial', 3), ('message_SwitchMenu', 2)])
        self.w(n, '(')
        for i in range(args):
            if i:
                self.w(',')
            self.w(self.intlike())
        self.w(')')
        return 'menu' if n.startswith('message_SwitchMenu') else 'op'

    def case_header(self, hdr):
        # (a menu has only menu entries)
        if hdr != 'menu':
            super().case_header(hdr)
        elif self.chance(0.7):
            self.w('menu', '(')
            self.string()
            self.w(')')
        else:
            self.w('menu2', '(', self.intlike(), ')')

    def flat_if(self, arms=None, els=None):
        self.shape.append('i')
        self.w('if')
        self.conds()
        self.plain_block()
        for _ in range(self.pick([0, 0, 1, 1, 2, 4]) if arms is None else arms):
            self.shape.append('e')
            self.w('elseif')
            self.conds()
            self.plain_block()
        if self.chance(0.5) if els is None else els:
            self.shape.append('l')
            self.w('else')
            self.plain_block()
        self.nl()

    def flat_switch(self, n=None, d=None):
        self.shape.append('s')
        self.w('switch', '(')
        hdr = self.switch_header()
        self.w(')', '{', ('in',))
        self.nl()
        n = self.r.randrange(1, 6) if n is None else n
        cases = ['c'] * n
        if d is None:
            d = self.pick([None, 'end', 'any'])
        if d == 'end':
            cases.append('d')
        elif d == 'any':
            cases.insert(self.r.randrange(len(cases) + 1), 'd')
        for c in cases:
            self.shape.append(c)
            if c == 'd':
                self.w('default')
            else:
                for i in range(self.r.choice([1, 1, 1, 1, 2, 3])):
                    if i:
                        self.shape.append('g')
                        self.w(':')
                        self.nl()
                    self.w('case')
                    self.case_header(hdr)
            self.w(':', ('in',))
            self.nl()
            for _ in range(self.r.choice([0, 1, 1, 1, 2, 3])):
                self.plain_stmt()
            self.w('break', ';')
            self.nl()
            self.w(('out',))
        self.w(('out',), '}')
        self.nl()

    def flat_routine(self, k):
        for _ in range(k):
            x = self.r.random()
            if x < 0.4:
                self.plain_stmt()
            elif x < 0.75:
                self.flat_if()
            else:
                self.flat_switch()
        self.w(self.pick(['end', 'return', 'hold']), ';')
        self.nl()

    def flat_file(self, n, size):
        coro = self.chance(0.15)
        for i in range(n):
            self.shape.append('|')
            self.routine_header(i, coro)
            self.w('{', ('in',))
            self.nl()
            self.flat_routine(self.r.randrange(1, size + 1))
            self.w(('out',), '}')
            self.nl()


def make(rng, kind, index):
    # (ops that jump or end the flow are no plain statements)
    g = F(rng, unique_ops=rng.random() < 0.5, calls=False, labels=False, jumps=False, ctx_flow=False)
    g.shape = []
    if kind == 'flat':
        g.flat_file(rng.choice([1, 1, 2, 4]), 6)
    elif kind == 'small':
        g.flat_file(1, 2)
    elif kind == 'long':
        g.flat_file(rng.choice([1, 12]), 40)
    else:
        # every sequence of two blocks of the small shapes, with and without a statement between
        shapes = [('if', a, e) for a in (0, 1, 2) for e in (False, True)] + \
                 [('sw', n, d) for n in (1, 2, 3) for d in ('no', 'end', 'any')]
        n = len(shapes)
        a, b, between = shapes[index % n], shapes[index // n % n], index // (n * n) % 4
        g.routine_header(0)
        g.w('{', ('in',))
        g.nl()
        if between & 2:
            g.plain_stmt()
        for i, s in enumerate((a, b)):
            if i and between & 1:
                g.plain_stmt()
            if s[0] == 'if':
                g.flat_if(s[1], s[2])
            else:
                g.flat_switch(s[1], s[2])
        g.w(g.pick(['end', 'return', 'hold']), ';', ('nl',), ('out',), '}')
    return g, render(g.t, rng, rng.choice(['pretty', 'pretty', 'dense', 'random']))


class Log(sem.Ref):
    """remembers every operation a text spells, reachable or not"""

    def __init__(self, *a):
        super().__init__(*a)
        self.acts = []

    def act(self, *a, **k):
        st = super().act(*a, **k)
        self.acts.append(st)
        return st

    def cond(self, *a):
        st = super().cond(*a)
        self.acts.append(st)
        return st


def spelled(text):
    """per routine: multiset of the operations and tests"""
    ast = lang.parse(text)
    out = []
    ref = Log(ast, env.PERF)
    routines = ref.build()
    deco.norm_dmode(deco.all_nodes([r['start'] for r in routines]))
    # split the log by routine: build() goes through them in order, so rebuild one by one
    for d in ast.defs:
        if d.kind == 'macro':
            continue
        one = Log(type(ast)('file', lang.Tok('eof', '', 0, 0, 0), imports=[], defs=[d]), env.PERF)
        rs = one.build()
        nodes = deco.all_nodes([r['start'] for r in rs])
        deco.norm_dmode(nodes)
        c = Counter((s.op, s.params) for s in one.acts)
        logged = {id(s) for s in one.acts}
        c.update((s.op, s.params) for s in nodes if s.k == 'test' and id(s) not in logged)
        out.append(c)
    return routines, out


def run_case(kind, index, rng, ctx):
    g, src = make(rng, kind, index)
    try:
        routines, want = spelled(src)
    except sem.Meaningless as e:
        raise Skip(f'meaningless: {e}')
    try:
        comp = env.compile_text(src)
    except Exception as e:
        ctx.count(f'not compiled: {type(e).__name__}')
        raise Skip('not compiled')
    us = gs.from_compiled(comp)
    infos, coros = gs.clone_infos(comp)
    infos, ops, coros = gs.finish(us, rng, infos, coros)
    text = None
    fail = semcheck.failer(source=src, text=lambda: text, ops=lambda: semcheck.dump(ops))
    try:
        text, _ = env.decompile(infos, ops, coros)
    except Exception as e:
        fail(f'the decompiler raises {type(e).__name__}: {e}')
    if env.is_fallback(text):
        fail('the decompiler answers with SsbScript')
    toks = lang.tokenize(text)
    if any(t.k == 'kw' and t.t == 'jump' for t in toks):
        fail('the text has a jump statement')
    try:
        got_routines, got = spelled(text)
    except (lang.LangError, sem.Meaningless) as e:
        fail(f'the text is no program: {e}')
    if len(got) != len(want):
        fail(f'{len(want)} routines in the source, {len(got)} in the text')
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            fail(f'routine {i}: in the source only {fmt(a - b)}; in the text only {fmt(b - a)}')
        ctx.count('ops_compared', sum(a.values()))
        try:
            equiv.compare(routines[i]['start'], got_routines[i]['start'])
        except equiv.Diff as d:
            fail(f'routine {i}: {d.msg}\nafter: ' + ' ; '.join(d.trace[-25:]))
    ctx.count('programs_compared')
    ctx.count('ifs', g.shape.count('i'))
    ctx.count('switches', g.shape.count('s'))
    ctx.saw('shapes', ''.join(g.shape)[:39])
    if 'i' in g.shape or 's' in g.shape:
        ctx.nontrivial(semcheck.dump(ops))
    if index < 2:
        ctx.sample(src[:900] + '\n=>\n' + text[:900])


def fmt(c):
    return [f'{n} x {op}{equiv.show(ps)}' for (op, ps), n in list(c.items())[:6]]
