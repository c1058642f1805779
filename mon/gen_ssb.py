"""SSB routine sets, numbered the way a binary reader numbers them."""
from __future__ import annotations
import random
from . import env, lang, progs
from .ssb import JUMPERS, CTX_OPS
from .sem import ENDERS

SPECIAL_SWITCH = {'message_SwitchMenu': ('CaseMenu', 'CaseMenu2'), 'message_SwitchMenu2': ('CaseMenu', 'CaseMenu2')}
SWITCHES = ['Switch', 'Switch', 'Switch', 'SwitchSector', 'SwitchScenario', 'SwitchRandom', 'SwitchScenarioLevel',
            'SwitchDungeonMode', 'ProcessSpecial', 'message_Menu', 'main_EnterAdventure', 'message_SwitchMenu',
            'message_SwitchMenu2', 'main_EnterRescueUser', 'main_EnterTraining', 'main_EnterTraining2']
OPS = ['Wait', 'WaitLock', 'SetAnimation', 'se_Play', 'message_Talk', 'message_Close', 'Slide2Position', 'Turn2Direction', 'x',
       '_u1', 'debug_Print', 'back_SetGround', 'CallCommon', 'ExecuteActing', 'item_Set', 'returning', 'Null']
VARS = ['$SCENARIO_MAIN', '$GLOBAL', 'EVENT_LOCAL', '$V2', 'LOCAL3']
CONSTS = ['ACTOR_PLAYER', 'LEVEL_T00', 'DIR_DOWN', 'A', 'b_1', 'FACE_X']
LANGS = ['english', 'french', 'german', 'italian', 'spanish']
STRS = ['', 'Hi', 'Hello there', 'a b  c', '[CN]Text[W]', '// no', '/* no */', "it's", 'say "hi"', 'two\nlines', '\n', '\n\n',
        "mix\"'\n", ' lead', 'trail ', 'a\n  b\n c', '  in\n  dent', 'x\n', '\nx', 'back\\slash', 'new\\nline', 'end\\', "\\'", '\\"',
        "''' a", '""" b', '\'\'\' """', '@l;', '$p', 'Ünï ✓', 'tab\there', ' ', '\\\\', '""', "''", '"""\n', "'''\nx", 'a\u2028b', 'a\x85b',
        '{', '}', 'case 1:', '"', "'"]
STRS = [s for s in STRS if lang.representable(s)]


class U:
    """an op whose target is a (routine, op) object reference"""
    __slots__ = ('name', 'params', 'to', 'mark')

    def __init__(self, name, params=(), to=None, mark=None):
        self.name, self.params, self.to, self.mark = name, list(params), to, mark


# ---------------------------------------------------------------- values
def const(n):
    return env.SsbOpParamConstant(n)


def p_int(r):
    k = r.randrange(8)
    if k < 5:
        return r.randrange(0, 30)
    if k == 5:
        return -r.randrange(1, 400)
    if k == 6 and r.random() < 0.3:
        return r.choice([1, 1, -1]) * r.getrandbits(r.randrange(5, 33))
    return r.choice([0, 1, 255, 256, 32767, 65535, -32768, 1000])


def rarely(r, n, most):
    """n, or now and then a number up to most"""
    return n if r.random() < 0.985 else r.randrange(most + 1)


def p_fixed(r):
    F = env.SsbOpParamFixedPoint
    k = r.randrange(3)
    if k == 0:
        return F(r.choice([0, 1, 12, -3, -120, 127]), r.choice(['0', '5', '25', '05', '996', '50', '00', '001']))
    if k == 1:
        return F(F.NegativeZero, r.choice(['5', '25', '05', '003']))
    return F.from_str(r.choice(['1.5', '-0.25', '0.0', '003.5', '-00.5', '7', '.5', '-.5', '-2.50', '12.0', '0.00001', '-0.0000003', '0.00390625',
                                '16777217.1', '12345678901234567890.5', '0.12345678901234567891']))


def p_str(r):
    return r.choice(STRS)


def p_const_string(r):
    return env.SsbOpParamConstString(p_str(r))


def p_lang_string(r):
    ls = r.sample(LANGS, rarely(r, r.randrange(1, 4), 4) or 1)
    return env.SsbOpParamLanguageString({l: p_str(r) for l in ls})


def p_pos(r):
    return env.SsbOpParamPositionMarker(r.choice(['m0', 'mark 1', "it's", 'q"q', '']), r.choice([0, 2]), r.choice([0, 2]),
                                        r.choice([0, 1, 30, 200, -4]), r.choice([0, 1, 30, 200, -4]))


def p_any(r, rich=True):
    k = r.random()
    if k < 0.5 or not rich:
        return p_int(r) if r.random() < 0.6 else const(r.choice(CONSTS + VARS))
    if k < 0.65:
        return const(r.choice(CONSTS + VARS))
    if k < 0.72:
        return p_fixed(r)
    if k < 0.82:
        return p_const_string(r)
    if k < 0.92:
        return p_lang_string(r)
    return p_pos(r)


def p_var(r):
    return const(r.choice(VARS)) if r.random() < 0.85 else r.randrange(0, 80)


def p_val(r):
    k = r.random()
    if k < 0.6:
        return p_int(r)
    if k < 0.95:
        return const(r.choice(CONSTS + VARS))
    return p_fixed(r)


def simple_op(r, rich=True):
    return odd(r, _simple_op(r, rich))


def _simple_op(r, rich=True):
    k = r.random()
    if k < 0.6:
        return U(r.choice(OPS), [p_any(r, rich) for _ in range(rarely(r, r.choice([0, 0, 1, 1, 2, 3]), 30))])
    f = r.randrange(13)
    if f == 0:
        return U('flag_Set', [p_var(r), p_val(r)])
    if f == 1:
        return U('flag_CalcValue', [p_var(r), r.randrange(0, 5), p_val(r)])
    if f == 2:
        return U('flag_CalcVariable', [p_var(r), r.randrange(0, 5), p_var(r)])
    if f == 3:
        return U('flag_CalcBit', [p_var(r), r.randrange(0, 32), p_val(r)])
    if f == 4:
        return U('flag_Clear', [p_var(r)])
    if f == 5:
        return U('flag_Initial', [p_var(r)])
    if f == 6:
        return U('flag_ResetDungeonResult')
    if f == 7:
        return U('flag_ResetScenario', [p_var(r)])
    if f == 8:
        return U('flag_SetAdventureLog', [p_val(r)])
    if f == 9:
        return U('flag_SetDungeonMode', [p_val(r), r.choice([0, 1, 2, 3, 0, 1, 2, 3, -1, 4, const('SOME_MODE'), const('SOME_MODE')])])
    if f == 10:
        return U('flag_SetScenario', [p_var(r), r.randrange(0, 50), r.randrange(0, 9)])
    if f == 11:
        return U('flag_SetPerformance', [r.randrange(0, 60), r.randrange(0, 2)])
    return U('flag_Set', [p_var(r), r.randrange(0, 9)])


def branch_op(r):
    return odd(r, _branch_op(r))


def _branch_op(r):
    n = r.choice(['Branch', 'Branch', 'BranchBit', 'BranchDebug', 'BranchEdit', 'BranchVariation', 'BranchPerformance', 'BranchScenarioNow',
                  'BranchScenarioNowAfter', 'BranchScenarioNowBefore', 'BranchScenarioAfter', 'BranchScenarioBefore', 'BranchSum',
                  'BranchValue', 'BranchValue', 'BranchVariable', 'BranchExecuteSub'])
    if n == 'Branch':
        ps = [p_var(r), p_val(r)]
    elif n == 'BranchBit':
        ps = [p_var(r), r.randrange(0, 32)]
    elif n in ('BranchDebug', 'BranchEdit', 'BranchVariation'):
        ps = [r.randrange(0, 2)]
    elif n == 'BranchExecuteSub':
        ps = [p_val(r)]
    elif n == 'BranchPerformance':
        ps = [r.randrange(0, 60), r.randrange(0, 2)]
    elif n.startswith('BranchScenario'):
        ps = [p_var(r), r.randrange(0, 50), r.randrange(0, 9)]
    elif n == 'BranchSum':
        ps = [p_var(r), r.randrange(0, 11), p_val(r)]
    elif n == 'BranchValue':
        # (operator 2 is spelled Branch)
        ps = [p_var(r), r.choice([0, 1, 3, 4, 5, 6, 7, 8, 9, 10]), p_val(r)]
    else:
        ps = [p_var(r), r.randrange(0, 11), p_var(r)]
    return U(n, ps)


def switch_ops(r, ncases):
    return [odd(r, u) for u in _switch_ops(r, ncases)]


def _switch_ops(r, ncases):
    n = r.choice(SWITCHES)
    k = {'SwitchSector': 0, 'ProcessSpecial': 3, 'main_EnterAdventure': 2, 'message_SwitchMenu': 2, 'message_SwitchMenu2': 3}.get(n, 1)
    if n.startswith('Switch'):
        head = U(n, [p_var(r) if n in ('Switch', 'SwitchScenario', 'SwitchScenarioLevel') else p_val(r) for _ in range(k)])
    else:
        head = U(n, [p_val(r) for _ in range(k)])
    out = [head]
    for _ in range(ncases):
        if n in SPECIAL_SWITCH:
            c = r.choice(SPECIAL_SWITCH[n])
            if c == 'CaseMenu':
                ps = [p_const_string(r) if r.random() < 0.5 else p_lang_string(r)]
            else:
                ps = [p_val(r)]
        else:
            c = r.choice(['Case', 'Case', 'Case', 'CaseValue', 'CaseVariable'])
            if c == 'CaseValue' and n == 'SwitchScenario':
                c = 'CaseScenario'
            if c == 'Case':
                ps = [r.randrange(0, 4) if n == 'SwitchDungeonMode' and r.random() < 0.8 else p_val(r)]
            elif c == 'CaseVariable':
                ps = [r.randrange(0, 11), p_var(r)]
            else:
                ps = [r.randrange(0, 11), p_val(r)]
        out.append(U(c, ps))
    return out


def message_switch(r):
    out = [U(r.choice(['message_SwitchTalk', 'message_SwitchMonologue']), [p_var(r)])]
    for _ in range(rarely(r, r.randrange(0, 4), 20)):
        out.append(U('CaseText', [p_val(r), p_const_string(r) if r.random() < 0.6 else p_lang_string(r)]))
    if r.random() < 0.6:
        out.append(U('DefaultText', [p_const_string(r) if r.random() < 0.6 else p_lang_string(r)]))
    return out


ODD = 0.05
OPERATOR_AT = {'BranchValue': 1, 'BranchVariable': 1, 'BranchSum': 1, 'CaseValue': 0, 'CaseVariable': 0, 'CaseScenario': 0,
               'flag_CalcValue': 1, 'flag_CalcVariable': 1}


def odd(r, u):
    """values a binary may hold although no source form but the spelled out operation stands for them"""
    if not u.params or r.random() >= ODD:
        return u
    n, ps = u.name, u.params

    def num():
        return r.choice([2, 3, -1, 4, 11, 255, 65535, const('SOME_C'), const('$ODD')])
    perf = const(env.PERF)
    if n in OPERATOR_AT:
        ps[OPERATOR_AT[n]] = r.choice([2, 2, 11, 12, 5, -1, 255])
    elif n in ('BranchDebug', 'BranchEdit', 'BranchVariation'):
        ps[0] = num()
    elif n in ('BranchPerformance', 'flag_SetPerformance'):
        ps[r.randrange(2)] = num()
    elif n in ('BranchBit', 'flag_CalcBit'):
        if r.random() < 0.6:
            ps[0] = perf
        else:
            ps[1] = num()
    elif n.startswith('BranchScenario') or n == 'flag_SetScenario':
        ps[r.randrange(1, 3)] = num()
    elif n == 'flag_SetDungeonMode':
        ps[1] = num()
    elif n in ('Branch', 'Switch', 'SwitchScenario', 'flag_Set', 'flag_Clear', 'flag_Initial', 'flag_ResetScenario', 'flag_SetAdventureLog'):
        ps[0] = r.choice([perf, num()])
    elif n in ('Case', 'CaseText'):
        ps[0] = num()
    return u


# ---------------------------------------------------------------- random flow
def random_routine(r, n, rich, ender_rate=0.12, jump_rate=0.15, branch_rate=0.2, switch_rate=0.08, call_rate=0.03, ctx_rate=0.05,
                   msg_rate=0.04):
    """[U], heads (ops a jump may target); targets are filled in by the caller"""
    ops, heads, need = [], [], []
    while len(ops) < n:
        k = r.random()
        start = len(ops)
        if k < ender_rate:
            ops.append(U(r.choice(['End', 'Return', 'Hold', 'JumpCommon', 'Destroy'])))
            if ops[-1].name == 'JumpCommon':
                ops[-1].params = [p_val(r)]
        elif k < ender_rate + jump_rate:
            ops.append(U('Jump'))
            need.append(ops[-1])
        elif k < ender_rate + jump_rate + branch_rate:
            ops.append(branch_op(r))
            need.append(ops[-1])
        elif k < ender_rate + jump_rate + branch_rate + switch_rate:
            s = switch_ops(r, rarely(r, r.randrange(0, 5), 20))
            ops += s
            need += s[1:]
            if r.random() < 0.5:
                ops.append(U('Jump'))
                need.append(ops[-1])
        elif k < ender_rate + jump_rate + branch_rate + switch_rate + call_rate:
            ops.append(U('Call'))
            need.append(ops[-1])
        elif k < ender_rate + jump_rate + branch_rate + switch_rate + call_rate + ctx_rate:
            ops.append(U(r.choice(['lives', 'object', 'performer']), [p_val(r)]))
            ops.append(simple_op(r, rich))
        elif k < ender_rate + jump_rate + branch_rate + switch_rate + call_rate + ctx_rate + msg_rate:
            ops += message_switch(r)
        else:
            ops.append(simple_op(r, rich))
        heads.append(ops[start])
    ops.append(U(r.choice(['End', 'Return', 'Hold', 'End'])))
    heads.append(ops[-1])
    if r.random() < 0.06:
        # code nobody reaches, that does not end
        k = r.random()
        if k < 0.4:
            ops += [U(r.choice(['lives', 'object', 'performer']), [p_val(r)]), simple_op(r, rich)]
        elif k < 0.7:
            ops += message_switch(r)
        elif k < 0.8:
            ops += switch_ops(r, 0)
        else:
            ops.append(simple_op(r, rich))
    return ops, heads, need


def random_set(r, rich=True, cross=0.1, size=None, routines=None, **rates):
    nr = routines or rarely(r, r.choice([1, 1, 1, 2, 3]), 20) or 1
    rs = [random_routine(r, size or r.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20]), rich, **rates) for _ in range(nr)]
    allheads = [h for _, hs, _ in rs for h in hs]
    for ops, heads, need in rs:
        for i, op in enumerate(need):
            pool = allheads if r.random() < cross else heads
            if r.random() < 0.6 and pool is heads:
                # forward jumps to near ops look more like compiled code
                pos = ops.index(op)
                fw = [h for h in heads if ops.index(h) > pos]
                if fw:
                    pool = fw[:6]
            op.to = r.choice(pool)
    routines = [ops for ops, _, _ in rs]
    break_jump_cycles(routines, r)
    if r.random() < 0.06 and nr > 1:
        # a routine without ops is an alias; ops of others must not refer to it
        i = r.randrange(1, nr)
        gone = {id(o) for o in routines[i]}
        if not any(o.to is not None and id(o.to) in gone for j, ops in enumerate(routines) if j != i for o in ops):
            routines[i] = []
    return routines


def break_jump_cycles(routines, r):
    """no cycle of Jumps only: a Jump in such a cycle becomes an End"""
    nxt = {}
    for ops in routines:
        for o in ops:
            if o.name == 'Jump':
                nxt[id(o)] = o
    for ops in routines:
        for o in ops:
            if o.name != 'Jump':
                continue
            seen = set()
            c = o
            while c.name == 'Jump' and id(c) not in seen:
                seen.add(id(c))
                c = c.to
            if c.name == 'Jump':
                c.name, c.to = 'End', None


# ---------------------------------------------------------------- from compiled programs
def from_compiled(comp):
    """[U] lists of a compilation result, infos, names; None if a routine can run off its end"""
    by = {}
    out = []
    for ops in comp.routine_ops:
        row = []
        for o in ops:
            u = U(o.op_code.name, o.params)
            by[o.offset] = u
            row.append(u)
        out.append(row)
    for row in out:
        for u in row:
            if u.name in JUMPERS:
                u.to = by[u.params.pop()]
    return out


def falls_off(routines):
    """does a path run off the end of a routine?  (reachable ops only)"""
    where = {id(o): (i, j) for i, ops in enumerate(routines) for j, o in enumerate(ops)}
    for i, ops in enumerate(routines):
        if not ops:
            continue
        work, seen = [(i, 0)], set()
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            ri, j = k
            if j >= len(routines[ri]):
                return True
            o = routines[ri][j]
            in_ctx = j > 0 and routines[ri][j - 1].name in CTX_OPS
            if o.to is not None:
                work.append(where[id(o.to)])
            if o.name == 'Jump' or (o.name in ENDERS and not in_ctx):
                continue
            work.append((ri, j + 1))
    return False


def jump_cycle(routines):
    for ops in routines:
        for o in ops:
            seen = set()
            while o.name == 'Jump':
                if id(o) in seen:
                    return True
                seen.add(id(o))
                o = o.to
    return False


def permute(routines, r):
    """lay the blocks of every routine out in another order, with Jumps where the flow has to continue elsewhere"""
    out = []
    targets = {id(o.to) for ops in routines for o in ops if o.to is not None}
    for ops in routines:
        if len(ops) < 3:
            out.append(ops)
            continue
        blocks, cur = [], []
        glued = False
        for i, o in enumerate(ops):
            prev = ops[i - 1] if i else None
            stick = prev is not None and (prev.name in CTX_OPS or _in_switch(prev, o))
            if cur and not stick and (id(o) in targets or r.random() < 0.15 or prev.name == 'Jump' or prev.name in ENDERS):
                blocks.append(cur)
                cur = []
            cur.append(o)
        blocks.append(cur)
        after = {}
        for a, b in zip(blocks, blocks[1:]):
            after[id(a[-1])] = b[0]
        rest = blocks[1:]
        k = r.randrange(3)
        if k == 0:
            r.shuffle(rest)
        elif k == 1 and len(rest) > 1:
            i = r.randrange(len(rest))
            j = r.randrange(len(rest))
            rest[i], rest[j] = rest[j], rest[i]
        else:
            rest.reverse()
        order = [blocks[0]] + rest
        row = []
        for bi, b in enumerate(order):
            row += b
            last = b[-1]
            in_ctx = len(b) > 1 and b[-2].name in CTX_OPS
            if last.name == 'Jump' or (last.name in ENDERS and not in_ctx):
                continue
            nx = after.get(id(last))
            if nx is None:
                row.append(U('End'))
            elif bi + 1 >= len(order) or order[bi + 1][0] is not nx:
                row.append(U('Jump', to=nx))
        out.append(row)
    return out


def _in_switch(prev, o):
    return o.name.startswith('Case') or o.name == 'DefaultText'


# ---------------------------------------------------------------- numbering
def finish(routines, r, infos=None, coros=None, style=None):
    """(infos, ops, coros) as a binary reader delivers them"""
    style = style or r.choice(['words', 'words', 'seq', 'gaps', 'first0'])
    off = {'words': r.choice([0, 3, 20, 54]), 'seq': 1, 'gaps': r.randrange(0, 5), 'first0': 0}[style]
    off += rarely(r, 0, 1) * r.choice([200, 3000, 40000, 65530, 1 << 24])
    offs = {}
    for ops in routines:
        for o in ops:
            offs[id(o)] = off
            n = len(o.params) + (1 if o.to is not None else 0)
            off += {'words': 1 + n, 'seq': 1, 'gaps': r.randrange(1, 6), 'first0': 1}[style]
    out = []
    for ops in routines:
        row = []
        for o in ops:
            ps = list(o.params)
            if o.to is not None:
                ps.append(offs[id(o.to)])
            row.append(env.SsbOperation(offs[id(o)], env.SsbOpCode(hash_id(o.name), o.name), ps))
        out.append(row)
    if infos is None:
        infos, coros = random_infos(r, len(routines))
    return infos, out, coros


def hash_id(name):
    return sum(map(ord, name)) % 383


def random_infos(r, n):
    T = env.SsbRoutineType
    if r.random() < 0.2:
        return ([env.SsbRoutineInfo(T.COROUTINE, 0) for _ in range(n)],
                [env.SsbCoroutine(i, f'CORO_{i}_x') for i in range(n)])
    infos = []
    for _ in range(n):
        t = r.choice([T.GENERIC, T.GENERIC, T.ACTOR, T.OBJECT, T.PERFORMER])
        if t == T.GENERIC:
            infos.append(env.SsbRoutineInfo(t, 0))
        elif r.random() < 0.5:
            infos.append(env.SsbRoutineInfo(t, rarely(r, r.randrange(0, 40), 65535)))
        else:
            infos.append(env.SsbRoutineInfo(t, -1, r.choice(['ACTOR_X', 'NPC_2', 'o_b', 'A', 'b', '$VAR', 'X1y'])))
    return infos, []


def clone_infos(comp):
    infos = [env.SsbRoutineInfo(i.type, i.linked_to, i.linked_to_name) for i in comp.routine_infos]
    coros = [env.SsbCoroutine(i, n) for i, n in enumerate(comp.named_coroutines)] \
        if any(i.type.name == 'COROUTINE' for i in infos) else []
    return infos, coros


def compiled_set(rng, src):
    """a well-formed routine set from a program, or None"""
    try:
        comp = env.compile_text(src)
    except Exception:
        return None
    us = from_compiled(comp)
    if falls_off(us) or jump_cycle(us):
        return None
    infos, coros = clone_infos(comp)
    return us, infos, coros
