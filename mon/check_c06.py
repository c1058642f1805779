"""C06: the decompiler always answers, and its fallback is marked and exact."""
import sys
from . import deco, env, gen_ssb as gs, lang, semcheck, ssb
from .core import Skip, Violation

ID = 'C06'
RULE = ('well-formed routine sets, most of them hostile (irreducible loops, jumps across routines, unreachable ops, deep nesting, ops no '
        'structured form fits) are given to the real decompiler. Monitors: no exception, an answer in time, the type of the answer; a '
        'fallback text starts with the marker line and is compiled by the real ExplorerScript compiler and compared op for op with the '
        'input; a text without marker has to be readable as ExplorerScript by the reference reader. Non-trivial: fallback, or at least '
        'four ops; distinct by input set.')
REQUIRE = {'sets': 4000, 'fallbacks_compared': 700, 'structured_read': 2500, 'fallback_ops_compared': 6000, 'seen:fallback_opcodes': 60}
CASE_LIMIT = 60
TIMEOUT_IS_VIOLATION = True


def plan(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [('irr', 6000 * k), ('poison', 4000 * k), ('cross', 5000 * k), ('rand', 6000 * k), ('perm', 3000 * k), ('small', 3000 * k),
            ('comp', 1000 * k), ('big', 60 * k), ('deep', 24 * k), ('tiny4', 2744),
            ('tiny5r', 5000 * k), ('tiny6r', 4000 * k), ('tiny6s', 4000 * k), ('tiny7s', 3000 * k), ('tiny8w', 3000 * k)]


def deep(rng):
    """deeply nested or very long, but ordinary flow"""
    U = gs.U
    k = rng.randrange(5)
    n = rng.choice([20, 60, 150])
    if k == 0:          # ifs in ifs
        end = U('End')
        row = []
        for i in range(n):
            row.append(U('Branch', [gs.const('$A'), i], to=end))
        row += [U('x', [1]), end]
    elif k == 1:        # loops in loops
        row = []
        heads = []
        for i in range(n):
            row.append(U('h', [i]))
            heads.append(row[-1])
        for i in range(n):
            row.append(U('Branch', [gs.const('$A'), i], to=heads[n - 1 - i]))
        row.append(U('End'))
    elif k == 2:        # a long sequence
        row = [U('op', [i]) for i in range(n * 8)] + [U('End')]
    elif k == 3:        # a large switch
        ends = [U('End') for _ in range(n)]
        row = [U('Switch', [gs.const('$A')])] + [U('Case', [i], to=ends[i]) for i in range(n)] + [U('y', [0])]
        for i, e in enumerate(ends):
            row += [U('z', [i]), e]
    else:               # a chain of if-else
        row = []
        els = [U('e', [i]) for i in range(n + 1)]
        for i in range(n):
            row += [els[i], U('Branch', [gs.const('$A'), i], to=els[i + 1]), U('t', [i])]
        row += [els[n], U('End')]
    return gs.finish([row], rng)


def run_case(kind, index, rng, ctx):
    limit = sys.getrecursionlimit()
    if kind == 'deep':
        infos, ops, coros = deep(rng)
    else:
        infos, ops, coros = deco.make_set(kind, rng, index)
    try:
        if kind == 'deep' and index % 2:
            sys.setrecursionlimit(1000 + len(__import__('inspect').stack()))
        text = check(infos, ops, coros, ctx, limit)
    finally:
        sys.setrecursionlimit(limit)
    if index < 2:
        ctx.sample(text[:1200])


def check(infos, ops, coros, ctx, limit=6000):
    shown = deco.show_set(infos, ops, coros)
    text = None
    fail = semcheck.failer(input=shown, text=lambda: text)
    ctx.count('sets')
    try:
        res = env.decompile(infos, ops, coros)
    except Exception as e:
        import traceback
        fail(f'the decompiler raises {type(e).__name__}: {e}\n{traceback.format_exc()[-600:]}')
    if not (isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], str) and isinstance(res[1], env.SourceMap)):
        fail(f'the decompiler answers {res!r}')
    sys.setrecursionlimit(limit)
    text = res[0]
    n = sum(map(len, ops))
    if n >= 4:
        ctx.nontrivial(shown)
    if not env.is_fallback(text):
        if env.MARK in text.split('\n', 1)[0]:
            fail('the first line contains the marker, but is not the marker line')
        try:
            lang.parse(text)
        except lang.LangError as e:
            fail(f'the text is not marked, and no ExplorerScript: {e}')
        ctx.count('structured_read')
        return text
    first = text.split('\n', 1)[0]
    if not text.startswith('//?:') or first[4:].split(':')[0].strip() != env.MARK:
        fail(f'the text does not start with the marker line: {first!r}')
    try:
        comp = env.compile_text(text)
    except Exception as e:
        fail(f'the compiler does not accept the fallback: {type(e).__name__}: {e}')
    deco.same_tables(infos, coros, comp, fail)
    deco.same_ops(ops, comp.routine_ops, fail)
    ctx.count('fallbacks_compared')
    ctx.count('fallback_ops_compared', n)
    for row in ops:
        for o in row:
            ctx.saw('fallback_opcodes', o.op_code.name)
    ctx.nontrivial(shown)
    return text
