"""Routine sets for the decompiler monitors, and the oracles they share."""
from __future__ import annotations
from . import env, equiv, gen_ssb as gs, lang, mini, progs, sem, semcheck, ssb
from .core import Skip

DM = {n: i for i, n in enumerate(env.DMC)}


# ---------------------------------------------------------------- inputs
def program(rng):
    k = rng.random()
    if k < 0.12:
        return progs.with_macros(rng)
    if k < 0.33:
        return mini.make(rng)
    if k < 0.4:
        return mini.loops(rng)
    prof = rng.choice(list(progs.PROFILES))
    return progs.make(rng, prof, 'pretty', terminate=1.0)[1]


FLOW = [dict(), dict(jump_rate=0.3, branch_rate=0.3), dict(branch_rate=0.5, ender_rate=0.05), dict(switch_rate=0.3),
        dict(call_rate=0.15), dict(ender_rate=0.02), dict(jump_rate=0.4, ender_rate=0.02), dict(ctx_rate=0.2), dict(msg_rate=0.2)]


def make_set(kind, rng, index=0):
    """(infos, ops, coros) of a well-formed set"""
    if kind.startswith('tiny'):
        return tiny_set(kind, index, rng)
    infos = coros = None
    if kind in ('comp', 'perm', 'source', 'loops'):
        x = gs.compiled_set(rng, mini.loops(rng) if kind == 'loops' else program(rng))
        if x is None:
            raise Skip('program not accepted or not well-formed')
        us, infos, coros = x
        if kind == 'perm' or kind == 'loops' and rng.random() < 0.5:
            us = gs.permute(us, rng)
            if rng.random() < 0.3:
                us = gs.permute(us, rng)
    elif kind == 'rand':
        us = gs.random_set(rng, rich=rng.random() < 0.25, **rng.choice(FLOW))
    elif kind == 'cross':
        us = gs.random_set(rng, rich=False, cross=rng.choice([0.3, 0.6, 1]), routines=rng.choice([2, 3, 4]), **rng.choice(FLOW))
    elif kind == 'big':
        us = gs.random_set(rng, rich=True, size=rng.choice([60, 120]), routines=rng.choice([1, 4]), cross=0.02,
                           **rng.choice([dict(), dict(branch_rate=0.1, jump_rate=0.02, ender_rate=0.01),
                                         dict(branch_rate=0.05, jump_rate=0.02, ender_rate=0.1, switch_rate=0.1)]))
    elif kind == 'small':
        us = gs.random_set(rng, rich=False, size=rng.choice([2, 3, 4, 5]), routines=1, ctx_rate=0.02, msg_rate=0.02,
                           **rng.choice([dict(jump_rate=0.3, branch_rate=0.4), dict(switch_rate=0.3, jump_rate=0.3)]))
    elif kind == 'poison':
        us = gs.random_set(rng, rich=rng.random() < 0.6, **rng.choice(FLOW))
        poison(us, rng)
    elif kind == 'irr':
        us = irreducible(rng)
    else:
        raise AssertionError(kind)
    if gs.falls_off(us):
        raise Skip('runs off its end')
    if gs.jump_cycle(us):
        raise Skip('cycle of jumps')
    if not us:
        raise Skip('no routines')
    if kind != 'poison' and not typed(us):
        raise Skip('text or position marks where the op takes a number')
    return gs.finish(us, rng, infos, coros)


BAD = [('flag_Set', 0), ('flag_Set', 1), ('flag_CalcBit', 1), ('flag_CalcValue', 2), ('flag_SetScenario', 1), ('flag_Clear', 0),
       ('flag_SetDungeonMode', 1), ('flag_SetPerformance', 0), ('lives', 0), ('object', 0), ('message_SwitchTalk', 0),
       ('message_SwitchMonologue', 0), ('flag_CalcVariable', 1), ('flag_SetAdventureLog', 0), ('flag_ResetScenario', 0), ('Switch', 0),
       ('SwitchScenario', 0), ('SwitchDungeonMode', 0), ('CaseText', 1), ('DefaultText', 0), ('flag_Initial', 0)]


def typed(us):
    """do the ops that have a form of their own have numbers or constants where a reader delivers those?"""
    for row in us:
        for o in row:
            n = o.name
            if n in ('CaseText', 'DefaultText', 'CaseMenu'):
                ps, texts = o.params[:-1], o.params[-1:]
                if not texts or ssb.canon(texts[0])[0] not in ('str', 'lang'):
                    return False
            elif n.startswith(('flag_', 'Branch', 'Case', 'Switch', 'message_Switch')) or n in ssb.CTX_OPS:
                ps = o.params
            else:
                continue
            if any(ssb.canon(p)[0] not in ('int', 'const', 'fix', 'fixraw') for p in ps):
                return False
    return True


def tiny(n, index, switch=False):
    """routine number index of the routines of n ops, the last of which ends: plain ops, ends, branches, jumps, calls (and switches) with
    every target"""
    U = gs.U
    us, tg, prev = [], [], None
    for i in range(n - 1):
        index, k = divmod(index, 2 + 3 * n + (1 + n if switch else 0))
        t = None
        if k == 0:
            u = U('op', [i])
        elif k == 1:
            u = U('End')
        elif k < 2 + 3 * n:
            q, t = divmod(k - 2, n)
            u = U(['Branch', 'Jump', 'Call'][q], [[gs.const('$A'), i], [], []][q])
        elif k == 2 + 3 * n:
            u = U('Switch', [gs.const('$S')])
        else:
            t = k - 3 - 3 * n
            u = U('Case', [i])
            if prev not in ('Switch', 'Case'):
                u = U('Branch', [gs.const('$A'), i])
        prev = u.name
        us.append(u)
        tg.append(t)
    us.append(U('Return'))
    for u, t in zip(us, tg):
        if t is not None:
            u.to = us[t]
    return [us]


def twins(n, rng):
    """a random routine of n ops in which many tests have several outcomes that lead to the same op"""
    U = gs.U
    us = []
    for i in range(n - 1):
        k = rng.random()
        if k < 0.3 or (k > 0.9 and not (us and us[-1].name in ('Switch', 'Case'))):
            us.append(U('op', [i]))
        elif k < 0.7:
            us.append(U('Branch', [gs.const('$A'), i]))
        elif k < 0.8:
            us.append(U(rng.choice(['Jump', 'Jump', 'Call']), []))
        elif k < 0.9:
            us.append(U('Switch', [gs.const('$S')]))
        else:
            us.append(U('Case', [i]))
    us.append(U('Return'))
    last = None
    for i, u in enumerate(us):
        if u.name in ('Branch', 'Jump', 'Call', 'Case'):
            k = rng.random()
            if u.name != 'Jump' and k < 0.4:
                u.to = us[i + 1]
            elif k < 0.6 and last is not None:
                u.to = last
            elif k < 0.8:
                u.to = us[rng.randrange(0, i + 1)]
            else:
                u.to = rng.choice(us)
            last = u.to
    return [us]


def tiny_count(n, switch=False):
    return (2 + 3 * n + (1 + n if switch else 0)) ** (n - 1)


def tiny_set(kind, index, rng):
    """kind: tiny<n>: routine number index; tiny<n>r: a random one; tiny<n>s: a random one with switches; tiny<n>w: twins"""
    n, how = int(kind[4]), kind[5:]
    if how:
        index = rng.randrange(tiny_count(n, how == 's'))
    us = twins(n, rng) if how == 'w' else tiny(n, index, how == 's')
    if gs.falls_off(us):
        raise Skip('runs off its end')
    if gs.jump_cycle(us):
        raise Skip('cycle of jumps')
    return gs.finish(us, rng, None, None)


def poison(us, r):
    """ops with a number of parameters no structured form has"""
    for _ in range(r.randrange(1, 3)):
        row = r.choice([u for u in us if u])
        n, k = r.choice(BAD)
        row.insert(r.randrange(len(row)), gs.U(n, [gs.p_val(r) for _ in range(k)]))


def irreducible(r):
    """dense jumps back and forth: loops with several entries, branches out of and into loops, across routines"""
    U = gs.U
    n = r.choice([4, 6, 8, 12, 20])
    nr = r.choice([1, 1, 2])
    rows = []
    for k in range(nr):
        row = []
        for i in range(n):
            x = r.random()
            if x < 0.5:
                row.append(gs.branch_op(r))
            elif x < 0.65:
                row.append(U('Jump'))
            elif x < 0.75:
                row += gs.switch_ops(r, r.randrange(1, 4))
            elif x < 0.78:
                row.append(U('End'))
            else:
                row.append(U('op%d' % i, [i]))
        row.append(U(r.choice(['End', 'Return', 'Hold'])))
        rows.append(row)
    flat = [o for row in rows for o in row if not o.name.startswith('Case')]
    for row in rows:
        own = [o for o in row if not o.name.startswith('Case')]
        for o in row:
            if o.name in ssb.JUMPERS:
                o.to = r.choice(own if r.random() < 0.9 else flat)
    gs.break_jump_cycles(rows, r)
    return rows


# ---------------------------------------------------------------- helpers
def norm_dmode(nodes):
    """dungeon mode numbers and the configured constants for them count as equal, where a dungeon mode stands;
    BranchValue(x, 2, y) and Branch(x, y) are the same test, and both are written x == y"""
    for s in nodes:
        if s.k == 'test' and s.op == 'BranchValue' and len(s.params) == 3 and s.params[1] == ('int', 2):
            s.op, s.params = 'Branch', (s.params[0], s.params[2])
        if s.k == 'act' and s.op == 'flag_SetDungeonMode' and len(s.params) == 2:
            s.params = (s.params[0], _num(s.params[1]))
        if s.k == 'act' and s.op == 'SwitchDungeonMode':
            c = equiv.settle(s.n)
            seen = set()
            while c.k == 'test' and c.op in ssb.CASE_ARITY and id(c) not in seen:
                seen.add(id(c))
                if c.op == 'Case':
                    c.params = tuple(map(_num, c.params))
                c = equiv.settle(c.n)


def _num(p):
    return ('int', DM[p[1]]) if p[0] == 'const' and p[1] in DM else p


def all_nodes(starts):
    seen, work = {}, [s for s in starts if s is not None]
    while work:
        s = equiv.force(work.pop())
        if id(s) in seen:
            continue
        seen[id(s)] = s
        for x in (s.n, s.m):
            if x is not None:
                work.append(x)
    return list(seen.values())


def machine(routine_ops):
    """[start state or None for routines without ops]"""
    m = ssb.Machine(routine_ops)
    starts = [m.start(i) if ops else None for i, ops in enumerate(routine_ops)]
    norm_dmode(all_nodes(starts))
    return starts


def tables(infos, coros, n):
    """what a reader has to find: [(kind, target, target name)], coroutine names"""
    out = [semcheck.info_of(i) for i in infos]
    names = None
    if any(i.type.name == 'COROUTINE' for i in infos):
        d = {c.id: c.name for c in coros}
        names = [d.get(i) for i in range(n)]
    return out, names


def index_ops(routine_ops):
    """ops as (name, params) with jump targets as (routine, index)"""
    where = {}
    for r, ops in enumerate(routine_ops):
        for i, o in enumerate(ops):
            if o.offset in where:
                raise ssb.Malformed(f'two ops with the offset {o.offset}')
            where[o.offset] = (r, i)
    out = []
    for ops in routine_ops:
        row = []
        for o in ops:
            ps = [ssb.canon(p) for p in o.params]
            if o.op_code.name in ssb.JUMPERS and ps:
                t = ps[-1]
                if t[0] != 'int' or t[1] not in where:
                    raise ssb.Malformed(f'{o.op_code.name} at {o.offset} targets {t}')
                ps[-1] = ('op', where[t[1]])
            row.append((o.op_code.name, tuple(ps)))
        out.append(row)
    return out


def same_tables(infos, coros, comp, fail, kind_only_names=True):
    want, names = tables(infos, coros, len(infos))
    got = [semcheck.info_of(i) for i in comp.routine_infos]
    if len(want) != len(got) or len(comp.routine_ops) != len(want):
        fail(f'{len(want)} routines given, {len(got)} infos and {len(comp.routine_ops)} op lists after compiling the text')
    for i, (a, b) in enumerate(zip(want, got)):
        a, b = (norm_info(a), norm_info(b))
        if a != b:
            fail(f'routine {i} is {a}, but {b} after compiling the text')
    if names is not None:
        for i, n in enumerate(names):
            if n is not None and (len(comp.named_coroutines) != len(names) or comp.named_coroutines[i] != n):
                fail(f'the coroutines are {names}, but {list(comp.named_coroutines)} after compiling the text')


def norm_info(t):
    """the target of routines that have none carries no meaning"""
    if t[0] in ('GENERIC', 'COROUTINE'):
        return (t[0],)
    return (t[0], t[2]) if t[2] is not None else (t[0], t[1])


def same_ops(ops, comp_ops, fail):
    try:
        a = index_ops(ops)
        b = index_ops(comp_ops)
    except ssb.Malformed as e:
        fail(f'the result is not closed: {e}')
    for i, (x, y) in enumerate(zip(a, b)):
        for j in range(max(len(x), len(y))):
            p = x[j] if j < len(x) else None
            q = y[j] if j < len(y) else None
            if p != q:
                fail(f'op {j} of routine {i} is {p}, but {q} after compiling the text')
    if len(a) != len(b):
        fail(f'{len(a)} routines given, {len(b)} after compiling the text')


def show_set(infos, ops, coros):
    return '\n'.join(repr(semcheck.info_of(i)) for i in infos) + f'\n{[(c.id, c.name) for c in coros]}\n' + semcheck.dump(ops)


def spec_reading(text):
    """routines of a structured text according to the language specification"""
    return progs.reference(text, env.PERF)[1]
