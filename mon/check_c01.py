"""C01: compiled bytecode behaves exactly as the source says."""
from . import lang, sem, env, progs, semcheck, hand, mini
from .core import Skip

ID = 'C01'
RULE = ('random and hand-written ExplorerScript programs are compiled by the real compiler; the result is run on the SSB '
        'machine in lock-step with an independent reference reading of the source, over every outcome of every test '
        '(product automaton explored to closure). Non-trivial: accepted, at least one test or two ops; distinct by compiled ops.')
REQUIRE = {'programs_compared': 1500, 'tests_explored': 5000, 'seen:opcodes': 60}


def plan(tier, seed):
    if tier == 'quick':
        return [('hand', len(hand.PROGRAMS)), ('rand', 26000), ('big', 60), ('mini', 24000)]
    return [('hand', len(hand.PROGRAMS)), ('rand', 330000), ('big', 800), ('mini', 300000)]


def source(kind, index, rng):
    if kind == 'hand':
        return hand.PROGRAMS[index]
    if kind == 'mini':
        return mini.make(rng)
    if kind == 'big':
        opt = rng.choice([dict(max_body=30, max_depth=2), dict(max_body=5, max_depth=5), dict(max_body=40, max_depth=1)])
        return progs.make(rng, 'mixed', routines=rng.choice([1, 5, 25]), **opt)[1]
    prof = rng.choice(list(progs.PROFILES) + ['macros'])
    if prof == 'macros':
        return progs.with_macros(rng)
    return progs.make(rng, prof, rich=rng.random() < 0.3)[1]


def check(src, ctx):
    try:
        ast, ref = progs.reference(src, env.PERF)
    except lang.LangError:
        raise Skip('not readable by the reference')
    except sem.Meaningless:
        raise Skip('meaningless')
    if progs.by_id(ref) is None:
        raise Skip('gaps in routine ids')
    try:
        c = env.compile_text(src)
    except env.DOCUMENTED as e:
        ctx.count(f'rejected: {type(e).__name__}')
        raise Skip('rejected')
    except Exception as e:
        ctx.count(f'failed: {type(e).__name__}')
        raise Skip('rejected')
    fail = semcheck.failer(source=src, ops=lambda: semcheck.dump(c.routine_ops))
    semcheck.check_tables(ref, c.routine_infos, c.named_coroutines, fail)
    pairs, tests = semcheck.check_flow(ref, c.routine_ops, fail)
    ctx.count('programs_compared')
    ctx.count('states_compared', pairs)
    ctx.count('tests_explored', tests)
    ctx.count('routines_compared', len(ref))
    for ops in c.routine_ops:
        for o in ops:
            ctx.saw('opcodes', o.op_code.name)
    if tests or pairs > 2:
        ctx.nontrivial(semcheck.dump(c.routine_ops))
    return c


def run_case(kind, index, rng, ctx):
    src = source(kind, index, rng)
    check(src, ctx)
    if kind == 'rand' and index < 8:
        ctx.sample(src[:1500])
