"""SSB machine model: ops -> flow automaton; canonical parameter values."""
from __future__ import annotations
from .sem import St, STOP, off_end, ENDERS
from .lang import dec_value

BRANCH_ARITY = {
    'Branch': 2, 'BranchBit': 2, 'BranchDebug': 1, 'BranchEdit': 1, 'BranchExecuteSub': 1, 'BranchPerformance': 2,
    'BranchScenarioNow': 3, 'BranchScenarioNowAfter': 3, 'BranchScenarioNowBefore': 3, 'BranchScenarioAfter': 3,
    'BranchScenarioBefore': 3, 'BranchSum': 3, 'BranchValue': 3, 'BranchVariable': 3, 'BranchVariation': 1,
}
CASE_ARITY = {'Case': 1, 'CaseMenu': 1, 'CaseMenu2': 1, 'CaseScenario': 2, 'CaseValue': 2, 'CaseVariable': 2}
TESTS = dict(BRANCH_ARITY, **CASE_ARITY)
JUMPERS = dict(TESTS, Jump=0, Call=0)
CTX_OPS = {'lives', 'object', 'performer'}


class Malformed(Exception):
    pass


def canon(p):
    if isinstance(p, bool):
        return ('bool', p)
    if isinstance(p, int):
        return ('int', p)
    n = type(p).__name__
    if n == 'SsbOpParamFixedPoint':
        try:
            return ('fix',) + dec_value(str(p))
        except ValueError:
            return ('fixraw', str(p))
    if n == 'SsbOpParamConstant':
        return ('const', p.name)
    if n == 'SsbOpParamConstString':
        return ('str', p.name)
    if n == 'SsbOpParamLanguageString':
        return ('lang', tuple(sorted(p.strings.items())))
    if n == 'SsbOpParamPositionMarker':
        return ('pos', p.name, p.x_offset, p.y_offset, p.x_relative, p.y_relative)
    return ('?', n, repr(p))


def op_name(op):
    return op.op_code.name


def jump_target(op):
    """offset a jump-carrying op jumps to (its last parameter), or None"""
    if op_name(op) in JUMPERS:
        if len(op.params) < 1 or not isinstance(op.params[-1], int):
            raise Malformed(f'{op_name(op)} without target: {op.params}')
        return op.params[-1]
    return None


class Machine:
    def __init__(self, routine_ops):
        self.ops = routine_ops
        self.by_off = {}
        for r, ops in enumerate(routine_ops):
            for i, op in enumerate(ops):
                if op.offset in self.by_off:
                    raise Malformed(f'duplicate offset {op.offset}')
                self.by_off[op.offset] = (r, i)
        self.nodes = {}
        self.ends = {}

    def start(self, r):
        return self.node(r, 0)

    def node(self, r, i, in_ctx=False):
        """in_ctx: reached by running the context op right before it"""
        ops = self.ops[r]
        in_ctx = in_ctx and i < len(ops) and op_name(ops[i]) in ENDERS
        key = (r, i, in_ctx)
        if key in self.nodes:
            return self.nodes[key]
        if i >= len(ops):
            if r not in self.ends:
                self.ends[r] = off_end()
            return self.ends[r]
        op = ops[i]
        name = op_name(op)
        st = self.nodes[key] = St('jmp', ref=(r, i))
        if name in JUMPERS:
            t = jump_target(op)
            if t not in self.by_off:
                raise Malformed(f'{name} at {op.offset} jumps to missing offset {t}')
            tgt = self.by_off[t]
            if name == 'Jump':
                st.n = Lazy(self, *tgt)
            else:
                st.k = 'call' if name == 'Call' else 'test'
                st.op = name
                st.params = tuple(canon(p) for p in op.params[:-1])
                st.n = Lazy(self, r, i + 1)
                st.m = Lazy(self, *tgt)
        else:
            st.k, st.op, st.params = 'act', name, tuple(canon(p) for p in op.params)
            if name in ENDERS and not in_ctx:
                st.n = STOP
            else:
                st.n = Lazy(self, r, i + 1, name in CTX_OPS)
        return st


class Lazy:
    __slots__ = ('m', 'r', 'i', 'ctx')

    def __init__(self, m, r, i, ctx=False):
        self.m, self.r, self.i, self.ctx = m, r, i, ctx

    def get(self):
        return self.m.node(self.r, self.i, self.ctx)
