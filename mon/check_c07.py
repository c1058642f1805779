"""C07: SsbScript is a lossless spelling of SSB ops."""
from . import deco, env, gen_ssb as gs, lang, semcheck, ssb
from .core import Skip

ID = 'C07'
RULE = ('routine sets of any shape (unreachable ops, arbitrary opcode names, jumps everywhere, routines that run off their end, aliases, '
        'coroutines, all parameter types) go through the real SsbScript decompiler and the real SsbScript compiler; the result is '
        'compared op for op with the input, jump parameters by the op they denote. A second pass has to reproduce the text. Non-trivial: '
        'at least three ops; distinct by input set.')
REQUIRE = {'sets_compared': 5000, 'jumps_compared': 8000, 'seen:opcodes': 500, 'seen:param_types': 6, 'seen:kinds': 5,
           'cross_routine_jumps': 500}
CASE_LIMIT = 60
ASSUMPTIONS = ['opcode, constant and coroutine names are identifiers that are no SsbScript keywords',
               'strings for which the language has no literal are kept out of the inputs (finding string-unrepresentable of C04)']
ES_WORDS = sorted(lang.KEYWORDS - {'coro', 'def', 'for_actor', 'for_object', 'for_performer', 'alias', 'for', 'previous', 'Position'})


def plan(tier, seed):
    k = 1 if tier == 'quick' else 15
    return [('any', 9000 * k), ('cross', 2500 * k), ('rand', 2500 * k), ('comp', 1500 * k), ('irr', 1000 * k), ('poison', 800 * k),
            ('big', 40 * k), ('text', 3000 * k)]


def name(r):
    k = r.random()
    if k < 0.3:
        return r.choice(gs.OPS)
    if k < 0.4:
        return r.choice(ES_WORDS)
    if k < 0.5:
        return r.choice(['flag_Set', 'Switch', 'message_SwitchTalk', 'lives', 'CaseText', 'DefaultText', 'SwitchScenario', 'End', 'Return'])
    return r.choice('abXY_') + ''.join(r.choice('abcXYZ_019') for _ in range(r.randrange(0, 7)))


KW = {'coro', 'def', 'for_actor', 'for_object', 'for_performer', 'alias', 'for', 'previous', 'Position'}


def any_set(r):
    U = gs.U
    rows = []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        row = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20]) if rows else r.choice([1, 2, 3, 6, 12])):
            if r.random() < 0.35:
                n = r.choice(list(ssb.JUMPERS))
                k = {'Jump': 0, 'Call': 0, **ssb.TESTS}[n]
                row.append(U(n, [gs.p_any(r) for _ in range(k)], to=True))
            else:
                n = name(r)
                if n in KW or n in ssb.JUMPERS:
                    n = 'x'
                row.append(U(n, [gs.p_any(r) for _ in range(r.choice([0, 1, 1, 2, 3, 7]))]))
        rows.append(row)
    flat = [o for row in rows for o in row]
    for row in rows:
        for o in row:
            if o.to is True:
                o.to = r.choice(row if r.random() < 0.6 else flat)
    return rows


TEXTY = ['\'', '"', '\n', ' ', '  ', 'a', 'B\\', '\\n', "'''", '"""', '[CN]', 'é', '\t', '//', '/*', '*/', '{', '@a;', '\\\\', "\\'", '\u2028', '0']


def random_string(r):
    for _ in range(20):
        s = ''.join(r.choice(TEXTY) for _ in range(r.randrange(0, 9)))
        if lang.representable(s):
            return s
    return ''


def text_set(r):
    """parameters of all kinds with random text"""
    row = []
    for _ in range(r.randrange(1, 5)):
        ps = []
        for _ in range(r.randrange(1, 4)):
            k = r.randrange(3)
            if k == 0:
                ps.append(env.SsbOpParamConstString(random_string(r)))
            elif k == 1:
                ps.append(env.SsbOpParamLanguageString({l: random_string(r) for l in r.sample(gs.LANGS, r.randrange(1, 6))}))
            else:
                nm = random_string(r)
                if not lang.name_representable(nm):
                    nm = 'm'
                ps.append(env.SsbOpParamPositionMarker(nm, r.choice([0, 2]), r.choice([0, 2]), r.randrange(0, 300), r.randrange(0, 300)))
        row.append(gs.U(name(r) if r.random() < 0 else 'say', ps))
    return [row]


def run_case(kind, index, rng, ctx):
    if kind in ('any', 'text'):
        us = any_set(rng) if kind == 'any' else text_set(rng)
        infos, ops, coros = gs.finish(us, rng)
        if rng.random() < 0.2:
            infos, coros = mixed_infos(rng, len(ops))
    else:
        infos, ops, coros = deco.make_set(kind, rng)
    text = check(infos, ops, coros, ctx)
    if index < 2:
        ctx.sample(text[:1200])


def mixed_infos(r, n):
    T = env.SsbRoutineType
    infos, coros = [], []
    for i in range(n):
        t = r.choice([T.GENERIC, T.ACTOR, T.OBJECT, T.PERFORMER, T.COROUTINE])
        if t == T.COROUTINE:
            coros.append(env.SsbCoroutine(i, f'C{i}'))
            infos.append(env.SsbRoutineInfo(t, r.choice([0, -1])))
        elif t == T.GENERIC:
            infos.append(env.SsbRoutineInfo(t, r.choice([0, -1])))
        else:
            infos.append(env.SsbRoutineInfo(t, *r.choice([(r.randrange(0, 99),), (-1, 'OBJ_A'), (-1, '$V'), (0, None)])))
    return infos, coros


def check(infos, ops, coros, ctx):
    shown = deco.show_set(infos, ops, coros)
    text = None
    fail = semcheck.failer(input=shown, text=lambda: text)
    try:
        text, smap = env.decompile_ssbs(infos, ops, coros)
    except Exception as e:
        fail(f'the SsbScript decompiler raises {type(e).__name__}: {e}')
    if deco.show_set(infos, ops, coros) != shown:
        fail('decompiling changed the routine set: now ' + deco.show_set(infos, ops, coros))
    comp = env.SsbScriptSsbCompiler()
    try:
        comp.compile(text)
    except Exception as e:
        fail(f'the SsbScript compiler raises {type(e).__name__}: {e}')
    deco.same_tables(infos, coros, comp, fail)
    deco.same_ops(ops, comp.routine_ops, fail)
    infos2 = list(comp.routine_infos)
    names = comp.named_coroutines
    coros2 = [env.SsbCoroutine(i, n) for i, n in enumerate(names) if infos2[i].type.name == 'COROUTINE']
    try:
        text2, _ = env.decompile_ssbs(infos2, comp.routine_ops, coros2)
    except Exception as e:
        fail(f'the result can not be decompiled again: {type(e).__name__}: {e}')
    if renumber(text2) != renumber(text):
        fail('the text of the result differs from the text of the input:\n' + text2)
    ctx.count('sets_compared')
    n = 0
    where = {o.offset: i for i, row in enumerate(ops) for o in row}
    for i, row in enumerate(ops):
        ctx.saw('kinds', infos[i].type.name)
        n += len(row)
        for o in row:
            ctx.saw('opcodes', o.op_code.name)
            for p in o.params:
                ctx.saw('param_types', ssb.canon(p)[0])
            if o.op_code.name in ssb.JUMPERS:
                ctx.count('jumps_compared')
                if where[o.params[-1]] != i:
                    ctx.count('cross_routine_jumps')
    ctx.count('ops_compared', n)
    if n >= 3:
        ctx.nontrivial(shown)
    return text


def renumber(text):
    """label numbers are arbitrary"""
    import re
    m = {}
    return re.sub(r'@label_(\d+)', lambda x: '@label_%d' % m.setdefault(x.group(1), len(m)), text)
