"""Tiny programs over a tiny alphabet, so that every short arrangement of jumps, labels, endings and cases turns up."""
from __future__ import annotations

LABELS = ['l', 'L', 'm']
VARS = ['PERFORMANCE_PROGRESS_LIST', 'performance_progress_list', 'PERFORMANCE_PROGRESS_LIST2', '$V', '$v']


class Mini:
    def __init__(self, rng, macro=None, in_macro=False):
        self.r = rng
        self.macro = macro
        self.in_macro = in_macro
        self.labels = LABELS[:rng.choice([1, 2, 2, 3])] if rng.random() < 0.7 else ['m', 'l']
        self.free = list(self.labels)
        self.used = set()
        self.n = 0
        self.jumpy = rng.choice([0.15, 0.4, 0.6])
        self.ender = rng.choice([0.05, 0.2, 0.4])

    def op(self):
        self.n += 1
        return f'{self.r.choice("abcde")}{self.r.choice(["", self.n])}();'

    def label(self):
        name = self.r.choice(self.labels)
        self.used.add(name)
        return name

    def small(self, loop, case):
        """a statement of one line"""
        r = self.r
        if r.random() < self.jumpy:
            k = r.randrange(7)
            if k < 3 and self.free:
                name = self.free.pop(r.randrange(len(self.free)))
                return f'@{name};'
            return f'{r.choice(["jump", "jump", "jump", "call"])} @{self.label()};'
        if r.random() < self.ender:
            xs = ['return;', 'end;', 'hold;', 'with (actor 1) { end; }', 'with (performer X) { hold; }',
                  'with (object 2) { end; }' if self.in_macro else 'with (object 2) { return; }']
            if loop:
                xs += ['continue;', 'break_loop;'] * 3
            if case:
                xs += ['break;'] * 5
            return r.choice(xs)
        k = r.randrange(12)
        if k == 0:
            return f'{r.choice(VARS)}[{r.choice([1, 2])}] = {r.choice([0, 1])};'
        if k == 1:
            return 'with (actor 1) { %s }' % self.op()
        if k == 2 and self.macro:
            return f'~{self.macro}();'
        if k == 3:
            return f'{r.choice(VARS)} {r.choice(["=", "+=", "-="])} {r.choice(["1", "value($W)"])};'
        if k == 4:
            return r.choice(['x<actor 1>();', 'x<performer 1>(2);', 'y(1);'])
        return self.op()

    def cond(self):
        r = self.r
        c = r.choice(['debug', 'edit', 'variation', '$V == 1', '$v == 1', 'BranchSum(1, 2, 3)', 'scn($V) == [1, 2]',
                      f'{r.choice(VARS)}[1]', f'not {VARS[0]}[2]', 'not debug'])
        return c

    def conds(self):
        return ' || '.join(self.cond() for _ in range(self.r.choice([1, 1, 1, 2, 2, 3])))

    def block(self, depth, loop, case, sizes=(0, 1, 1, 1, 2, 2, 3)):
        return '{ ' + ' '.join(self.stmt(depth, loop, case) for _ in range(self.r.choice(sizes))) + ' }'

    def stmt(self, depth, loop=False, case=False):
        r = self.r
        if depth <= 0 or r.random() < 0.45:
            return self.small(loop, case)
        k = r.randrange(8)
        if k < 3:
            s = f'if {r.choice(["", "", "not "])}({self.conds()}) {self.block(depth - 1, loop, case)}'
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                s += f' elseif {r.choice(["", "", "not "])}({self.conds()}) {self.block(depth - 1, loop, case)}'
            if r.random() < 0.4:
                s += f' else {self.block(depth - 1, loop, case)}'
            return s
        if k < 6:
            n = r.choice([0, 1, 1, 2, 2, 3])
            dflt = r.randrange(n + 1) if r.random() < 0.5 or not n else None
            h = r.choice(['$V', 'random(3)', 'f(1)', 'scn($V)[0]'])
            out = []
            for i in range(n + 1):
                if dflt == i:
                    out.append('default:')
                    out.append(self.arm(depth, loop))
                if i < n:
                    out.append(r.choice([f'case {i}:', f'case {i}:', f'case > {i}:', f'case menu("{i}"):']))
                    out.append(self.arm(depth, loop) if r.random() < 0.8 or (i == n - 1 and dflt != n) else '')
            return f'switch ({h}) {{ {" ".join(out)} }}'
        j = r.randrange(4)
        b = self.block(depth - 1, True, False)
        if j == 0:
            return f'forever {b}'
        if j == 1:
            return f'while {r.choice(["", "not "])}({self.cond()}) {b}'
        if j == 2:
            return f'for ({self.op()} {self.cond()}; {self.op()}) {b}'
        return f'forever {b}'

    def arm(self, depth, loop):
        return ' '.join(self.stmt(depth - 1, loop, True) for _ in range(self.r.choice([1, 1, 1, 2, 2, 3])))

    def body(self, depth):
        """a list of statements"""
        r = self.r
        out = [self.stmt(depth) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 6]))]
        if not self.in_macro and r.random() < 0.6:
            out.append(r.choice(['end;', 'return;', 'hold;', 'z(); end;']))
        return out

    def define(self, bodies):
        """the labels that are referred to, but were never placed"""
        for name in sorted(self.used):
            if name in self.free:
                b = self.r.choice(bodies)
                b.insert(self.r.choice([len(b), self.r.randrange(len(b) + 1)]), f'@{name};')
                self.free.remove(name)
        return bodies


def make(rng, macros=0.3):
    macro = 'q' if rng.random() < macros else None
    out = []
    if macro:
        g = Mini(rng, in_macro=True)
        out.append('macro q() { %s }' % ' '.join(g.define([g.body(rng.choice([0, 1, 1]))])[0]))
    m = Mini(rng, macro)
    coro = rng.random() < 0.1
    bodies = [m.body(rng.choice([0, 1, 1, 2, 2, 3])) for _ in range(rng.choice([1, 1, 1, 1, 2, 3]))]
    for i, b in enumerate(m.define(bodies)):
        out.append(('coro C%d { %s }' if coro else 'def %d { %s }') % (i, ' '.join(b)))
    return ' '.join(out)


def loops(rng):
    """a loop that is left in several places, with switches some cases of which leave it"""
    n = [0]

    def op():
        n[0] += 1
        return f'o{n[0]}();'

    def switch(d=0):
        out = []
        for i in range(rng.choice([2, 3, 3, 4, 5])):
            k = rng.randrange(12)
            if k < 6:
                b = 'break_loop;'
            elif k < 10:
                b = op() + rng.choice(['', '', '', ' break;', ' end;', ' continue;', ' break_loop;'])
            elif k < 11:
                b = switch(d + 1) + ' break;' if d < 1 else ''
            else:
                b = rng.choice(['end;', 'continue;'])
            out.append(f'case {i}: {b}')
        if rng.random() < 0.85:
            out.insert(len(out) if rng.random() < 0.8 else rng.randrange(len(out)), 'default: ' + rng.choice(
                [op(), op() + ' break;', op() + ' continue;', op() + ' continue;', 'continue;', 'end;',
                 f'if (edit) {{ {op()} end; }} else {{ break_loop; }}', switch(d + 1) + ' break;' if d < 1 else op()]))
        else:
            out.append('case 9: ' + op())
        return f'switch ({rng.choice(["$V", "random(3)", "f(1)"])}) {{ {" ".join(out)} }}'
    body = [switch()]
    for _ in range(rng.choice([0, 1, 1, 2])):
        body.insert(rng.randrange(len(body) + 1), rng.choice([
            switch, op, lambda: 'if (edit) { break_loop; }', lambda: f'if not ($V == 1 || debug) {{ {op()} break_loop; }}'])())
    pre = op() if rng.random() < 0.5 else ''
    loop = rng.choice(['forever', 'forever', 'forever', 'while (debug)', 'while not (debug)'])
    return f'def 0 {{ {pre} {loop} {{ {" ".join(body)} }} {op()} end; }}'
