"""C02: the decompiled text denotes the input routines, and compiling it again gives the same behaviour."""
from . import deco, env, equiv, lang, sem, semcheck, ssb
from .core import Skip

ID = 'C02'
RULE = ('well-formed routine sets (compiled programs, their blocks laid out in another order, random op graphs, op graphs across '
        'routines, dense loops) are decompiled by the real decompiler. The text is compiled by the real compiler and read by the '
        'independent reference reader; both results run in lock-step with the input on the SSB machine over every outcome of every '
        'test. Non-trivial: at least one test or four ops; distinct by input set.')
REQUIRE = {'sets_compared': 3000, 'structured': 2500, 'recompiled_compared': 3000, 'tests_explored': 8000, 'seen:opcodes': 60}
CASE_LIMIT = 60
ASSUMPTIONS = ['strings for which the language has no literal are kept out of the inputs (finding string-unrepresentable of C04)']


def plan(tier, seed):
    k = 1 if tier == 'quick' else 12
    tiny = [('tiny4', deco.tiny_count(4)), ('tiny5r', 8000), ('tiny6r', 6000), ('tiny6s', 6000), ('tiny7s', 4000), ('tiny8w', 4000)] if tier == 'quick' else [
        ('tiny4', deco.tiny_count(4)), ('tiny5', deco.tiny_count(5)), ('tiny6r', 60000), ('tiny6s', 60000), ('tiny7s', 60000), ('tiny8s', 40000), ('tiny7w', 40000), ('tiny9w', 40000)]
    return tiny + [('comp', 5000 * k), ('perm', 7000 * k), ('rand', 9000 * k), ('small', 7000 * k), ('cross', 3000 * k), ('irr', 1500 * k),
            ('poison', 800 * k), ('big', 60 * k)]


def run_case(kind, index, rng, ctx):
    infos, ops, coros = deco.make_set(kind, rng, index)
    check(infos, ops, coros, ctx)
    if index < 2:
        ctx.sample(deco.show_set(infos, ops, coros)[:1500])


def check(infos, ops, coros, ctx):
    shown = deco.show_set(infos, ops, coros)
    text = None
    fail = semcheck.failer(input=shown, text=lambda: text)
    try:
        text, smap = env.decompile(infos, ops, coros)
    except Exception as e:
        ctx.count(f'decompiler raised {type(e).__name__} (C06)')
        raise Skip('decompiler raised')
    if deco.show_set(infos, ops, coros) != shown:
        fail('decompiling changed the routine set: now ' + deco.show_set(infos, ops, coros))
    try:
        comp = env.compile_text(text)
    except Exception as e:
        fail(f'the compiler does not accept the text: {type(e).__name__}: {e}')
    want = deco.machine(ops)
    ctx.count('sets_compared')
    if env.is_fallback(text):
        ctx.count('fallbacks')
    else:
        ctx.count('structured')
        try:
            ref = deco.spec_reading(text)
        except lang.LangError as e:
            fail(f'the text is no ExplorerScript: {e}')
        except sem.Meaningless as e:
            fail(f'the text is meaningless: {e}')
        if [r['id'] for r in ref] != list(range(len(infos))):
            fail(f'the text has the routines {[r["id"] for r in ref]}, given were {len(infos)}')
        semcheck.check_tables(ref, clean(infos), names(infos, coros), fail)
        starts = [r['start'] for r in ref]
        deco.norm_dmode(deco.all_nodes(starts))
        run(starts, want, 'the text says', fail, ctx)
    deco.same_tables(infos, coros, comp, fail)
    try:
        got = deco.machine(comp.routine_ops)
    except ssb.Malformed as e:
        fail(f'the compiled text can not be run: {e}')
    run(got, want, 'the compiled text says', fail, ctx)
    ctx.count('recompiled_compared')
    n = 0
    for row in ops:
        n += len(row)
        for o in row:
            ctx.saw('opcodes', o.op_code.name)
    if n >= 4:
        ctx.nontrivial(shown)


def clean(infos):
    """the reference compares targets only where a routine has one"""
    return infos


def names(infos, coros):
    return deco.tables(infos, coros, len(infos))[1] or []


def run(got, want, what, fail, ctx):
    for i, (a, b) in enumerate(zip(want, got)):
        if a is None or b is None:
            if (a is None) != (b is None):
                fail(f'routine {i}: {what} {"no ops" if b is None else "ops"}, given {"none" if a is None else "some"}')
            continue
        try:
            pairs, tests = equiv.compare(a, b)
        except equiv.Diff as d:
            fail(f'routine {i}: {what} something else than the input: {d.msg}\nafter: ' + ' ; '.join(d.trace[-25:]))
        ctx.count('states_compared', pairs)
        ctx.count('tests_explored', tests)
    if len(got) != len(want):
        fail(f'{what} {len(got)} routines, given {len(want)}')
