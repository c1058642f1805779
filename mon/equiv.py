"""Trace monitor: lock-step run of two flow automata over every outcome of every test."""
from __future__ import annotations
from .sem import St, STOP

DIVERGE = St('diverge')


def force(x):
    return x.get() if not isinstance(x, St) else x


def settle(st, path=None):
    """skip silent steps; collects the skipped nodes in path"""
    st = force(st)
    seen = set()
    while st.k == 'jmp':
        if id(st) in seen:
            return DIVERGE
        seen.add(id(st))
        if path is not None:
            path.append(st)
        st = force(st.n)
    return st


def may_return(st, memo):
    """can a Return be reached (so that a call to st continues after the call)?"""
    seen = {}
    work = [settle(st)]
    pend = []
    while True:
        progressed = False
        while work:
            s = work.pop()
            if id(s) in seen:
                continue
            seen[id(s)] = s
            if s.k == 'act':
                if s.op == 'Return' and force(s.n) is STOP:
                    return True
                work.append(settle(s.n))
            elif s.k == 'test':
                work += [settle(s.n), settle(s.m)]
            elif s.k == 'call':
                work += [settle(s.n)]
        return False


class Diff(Exception):
    def __init__(self, msg, trace):
        super().__init__(msg)
        self.msg, self.trace = msg, trace


def compare(a0, b0, on_pair=None, visited=None, budget=200000, on_edge=None):
    """Explore the product; raises Diff at the first differing observation.
    on_pair(a, b, skipped_a, skipped_b) is called for every pair met, on_edge(trace, a, b, skipped_a, skipped_b) likewise.
    Returns number of pairs, number of tests."""
    visited = visited if visited is not None else {}
    pa, pb = [], []
    a, b = settle(a0, pa), settle(b0, pb)
    work = [(a, b, None, pa, pb)]
    pairs = tests = 0
    keep = []
    while work:
        a, b, tr, pa, pb = work.pop()
        if on_edge:
            on_edge(tr, a, b, pa, pb)
        key = (id(a), id(b))
        if key in visited:
            if on_pair:
                on_pair(a, b, pa, pb)
            continue
        visited[key] = (a, b)
        pairs += 1
        if pairs > budget:
            break
        if a.k != b.k or a.op != b.op or a.params != b.params:
            raise Diff(f'expected {describe(a)}, observed {describe(b)}', unroll(tr))
        if on_pair:
            on_pair(a, b, pa, pb)
        if a.k in ('stop', 'diverge'):
            continue
        succ = [('n', a.n, b.n)]
        if a.k == 'test':
            tests += 1
            succ.append(('m', a.m, b.m))
        elif a.k == 'call':
            succ.append(('m', a.m, b.m))
            ra, rb = may_return(a.m, None), may_return(b.m, None)
            if ra == rb and not ra:
                succ = succ[1:]
        for w, x, y in succ:
            p1, p2 = [], []
            work.append((settle(x, p1), settle(y, p2), (tr, a, w), p1, p2))
    return pairs, tests


def describe(s):
    if s.k == 'act':
        return f'operation {s.op}{show(s.params)}'
    if s.k == 'test':
        return f'test {s.op}{show(s.params)}'
    return s.k


def show(ps):
    return '(' + ', '.join(repr(p[1] if len(p) == 2 else p[1:]) for p in ps) + ')'


def unroll(tr):
    out = []
    while tr is not None:
        tr, st, w = tr
        d = describe(st)
        if st.k == 'test':
            d += ' -> ' + ('taken' if w == 'm' else 'not taken')
        elif st.k == 'call':
            d += ' -> ' + ('callee' if w == 'm' else 'after')
        out.append(d)
    return out[::-1]
