"""C05: a macro call means its body inlined, in any definition order and file layout."""
import itertools
import os
from . import env, gen_prog, lang, layout, progs, sem, semcheck
from .core import Skip

ID = 'C05'
RULE = ('programs with acyclic macro sets - one file in every definition order, and spread over files, directories, import spellings '
        '(relative, absolute, through lookup paths with decoy files behind the right one) - are compiled by the real compiler. The result '
        'runs in lock-step with an independent reference that expands the calls itself, over every outcome of every test; a rejection '
        'of such a program is a violation. Non-trivial: at least one macro op was expanded; distinct by compiled ops and layout.')
REQUIRE = {'programs_compared': 4000, 'expansions': 10000, 'layouts_with_imports': 1500, 'decoy_files': 1000, 'seen:spellings': 6,
           'seen:dags': 64, 'seen:argument_kinds': 6, 'permutations': 3000, 'foreign_variables': 600}
CASE_LIMIT = 60
TIMEOUT_IS_VIOLATION = True

EDGES4 = [(i, j) for i in range(4) for j in range(i + 1, 4)]
PERMS4 = list(itertools.permutations(range(4)))
MAX_STATES = 20000


def plan(tier, seed):
    k = 1 if tier == 'quick' else 14
    return [('dag4', 64), ('dag5', 150 * k), ('perm', 1500 * k), ('layout', 9000 * k), ('chain', 120 * k), ('args', 2500 * k),
            ('large', 400 * k)]


def setup(ctx):
    pass


def run_case(kind, index, rng, ctx):
    if kind == 'dag4':
        es = [e for b, e in enumerate(EDGES4) if index >> b & 1]
        bodies = dag(4, es, rng)
        ctx.saw('dags', f'{index}')
        for perm in PERMS4:
            one_file(''.join(bodies[i] for i in perm) + bodies[4], ctx)
            ctx.count('permutations')
        return
    if kind == 'dag5':
        n = rng.choice([5, 5, 6, 7])
        es = [(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < rng.choice([0.3, 0.5])]
        bodies = dag(n, es, rng)
        for _ in range(25):
            perm = rng.sample(range(n), n)
            parts = [bodies[i] for i in perm]
            parts.insert(rng.randrange(n + 1), bodies[n])
            one_file(''.join(parts), ctx)
            ctx.count('permutations')
        return
    if kind == 'chain':
        return one_file(chain(rng), ctx)
    if kind == 'args':
        return one_file(arguments(rng, ctx), ctx)
    ms, main = program(rng, rng.choice([8, 10, 14]) if kind == 'large' else None)
    if kind == 'perm':
        texts = [closed(gen_prog.render(t, rng, rng.choice(progs.STYLES), False)) for _, _, t in ms]
        mt = closed(gen_prog.render(main, rng, 'pretty', False))
        perms = list(itertools.permutations(range(len(ms)))) if len(ms) <= 4 else [rng.sample(range(len(ms)), len(ms)) for _ in range(12)]
        if len(perms) > 8:
            perms = rng.sample(perms, 8)
        for p in perms:
            parts = [texts[i] + '\n' for i in p]
            parts.insert(rng.randrange(len(parts) + 1) if rng.random() < 0.3 else len(parts), mt + '\n')
            one_file(''.join(parts), ctx)
            ctx.count('permutations')
        return
    with layout.Scratch() as root:
        lay = layout.spread(rng, root, ms, main)
        lay.write()
        in_layout(lay, rng, ctx)
    if index < 2:
        ctx.sample(lay.show()[:1500])


def program(rng, k=None, **opt):
    ms = progs.macro_set(rng, k, plain_consts=progs.CONSTS_PERF if rng.random() < 0.4 else None, **opt)
    g = gen_prog.G(rng, **dict(dict(max_depth=2, max_body=4, macros=tuple((n, p, False) for n, p, _ in ms),
                                    plain_consts=progs.CONSTS_PERF if rng.random() < 0.4 else None), **opt))
    g.file()
    return ms, g.t


# ---------------------------------------------------------------- shapes
def dag(n, es, rng):
    """texts of n macros and of the routines, macro i calls j for every edge"""
    out = []
    for i in range(n):
        calls = [f'~m{j}({rng.choice(["$b, $a", "$a, 3", "$b, $b", "K, $a"])});' for a, j in es if a == i]
        if calls and rng.random() < 0.3:
            calls.append(rng.choice(calls))
        rng.shuffle(calls)
        body = [f'op{i}($a);'] + calls
        k = rng.random()
        if k < 0.25:
            body.insert(rng.randrange(len(body) + 1), 'if ($a == 1) { return; }')
        elif k < 0.5:
            body.insert(rng.randrange(len(body) + 1), '@l;')
            body.append('if ($b > 2) { jump @l; }')
        elif k < 0.6:
            body.insert(rng.randrange(len(body) + 1), 'forever { if ($a == $b) { return; } else { break_loop; } }')
        elif k < 0.7:
            body.append('switch ($a) { case 1: return; case $b: x(); default: y($b); break; }')
        if rng.random() < 0.6:
            body.append(f'end{i}($b, $a);')
        out.append(f'macro m{i}($a, $b) {{\n    ' + '\n    '.join(body) + '\n}\n')
    roots = rng.sample(range(n), rng.randrange(1, n + 1))
    out.append('def 0 {\n' + ''.join(f'    ~m{i}($V, {i});\n    between({i});\n' for i in roots) + '}\n')
    return out


def chain(rng):
    """long chains and diamonds"""
    n = rng.choice([6, 12, 25, 40])
    wide = rng.random() < 0.3
    ms = []
    for i in range(n):
        if i + 1 == n:
            b = 'last($a);'
        elif wide and n <= 12 and i % 3 == 0:
            b = f'~c{i + 1}($a); mid{i}(); ~c{i + 1}($b);'
        else:
            b = f'{rng.choice(["", "pre%d($b); " % i])}~c{i + 1}({rng.choice(["$b, $a", "$a, %d" % i, "$a, $b"])});{rng.choice(["", " post%d($a);" % i])}'
        if rng.random() < 0.2:
            b = f'if ($b == {i}) {{ return; }} ' + b
        b = b + rng.choice(['', '', ' return;', ' @x; if ($a < 3) { jump @x; }'])
        ms.append(f'macro c{i}($a, $b) {{ {b} }}\n')
    rng.shuffle(ms)
    return ''.join(ms) + 'def 0 { ~c0(1, B); tail(); ~c0($V, 2); }\n'


ARGS = {'int': ['0', '1', '-1', '0x10', '0b11', '70000'], 'dec': ['1.5', '-0.25', '.5'], 'const': ['C', 'LEVEL_T00', 'b_1'],
        'gamevar': ['$GLOBAL', '$VAR_2'], 'perf': [env.PERF], 'string': ['"s"', "'it\\'s'", '"""\n  m\n   l\n"""'],
        'lang': ['{english="a", french="b"}', '{english=""}'], 'pos': ["Position<'p', 1, 2.5>", "Position<'', 0.5, 3>"]}


FREE = ['free({0});', 'free({0}, {2}, {1});', '{0} = 4;', '{0}[2] = 1;', 'if ( {0}[3] ) {{ free({1}); }}', 'if ( {0} == {1} ) {{ free({2}); }}', 'clear {0};',
        'switch ( {0} ) {{ case == value({1}): a(); break; case {0}: free({2}); }}', 'while ( {0} < 2 ) {{ free({1}); }}', 'free<actor X>({0});', 'with (actor {0}) {{ free({1}); }}',
        'message_SwitchTalk ( {0} ) {{ case {1}: "a" }}' , '{0} += value({1});', 'if ( {0} > value({1}) || {1} < 3 ) {{ free({0}); }}', 'adventure_log = {0};', 'dungeon_mode({0}) = open;']


def arguments(rng, ctx):
    """every kind of argument, passed through macros of several levels, in other orders, to every place that takes parameters"""
    kinds = [rng.choice(list(ARGS)) for _ in range(3)]
    vals = [rng.choice(ARGS[k]) for k in kinds]
    for k in kinds:
        ctx.saw('argument_kinds', k)
    places = ['op({0});', 'op({0}, {1}, {0});', 'op({2}, 1, {1});', 'op<actor X>({0});', 'op("l", {0}, {1});', 'Position_like({2});']
    num = all(k in ('int', 'const', 'gamevar', 'perf') for k in kinds)
    var = all(k in ('const', 'gamevar', 'perf') for k in kinds)
    if num:
        places += ['switch ({0}) {{ case {1}: a(); break; default: b({2}); }}', 'with (actor {0}) {{ op({1}); }}']
    if var:
        places += ['{0} = 3;', '{0} += {1};', '{0}[2] = 1;', 'if ( {0}[3] ) {{ op({1}); }}', 'if ( {0} == {1} ) {{ op({2}); }}',
                   'if ( {0} > value({1}) ) {{ op({2}); }}', 'clear {0};', 'init {0};', 'while ( {0} < 2 ) {{ op({2}); }}', 'op({0});',
                   'switch ( {0} ) {{ case == value({1}): a(); }}', 'if ( scn({0}) == [1, 2] ) {{ op({1}); }}', 'switch ( scn({0})[1] ) {{ case 1: op({2}); }}',
                   '{0} = scn[1, 2];', 'switch ( dungeon_mode({0}) ) {{ case open: op({1}); }}', 'dungeon_mode({0}) = closed;',
                   'reset dungeon_result; op({1});', 'reset scn({0});', 'if ( debug || {1} != 2 ) {{ op({2}); }}', 'if ( {0} & 3 || {1} <= value({2}) ) {{ op({0}); }}',
                   'message_SwitchTalk ( {0} ) {{ case {1}: "a" default: "b" }}', 'message_SwitchMonologue ( {0} ) {{ default: "x" }}', 'for ( {0} = 0; {0} < {1}; {0} += 1; ) {{ op({2}); }}',
                   'switch ( {0} ) {{ case {1}: op({1}); case > value({2}): break; default: a({2}); }}', 'if ( BranchDebug(1) ) {{ a({1}); }}', '{0} -= {1};', '{0}[1] = 0;', '{0} = value({1});', 'if ( not {0}[1] || {1}[0] ) {{ op({2}); }}']
    levels = rng.choice([1, 2, 3, 4])
    out = []
    free = rng.random() < 0.5
    ps = ['$x', '$y', '$z', '$v', '$w'] if free else ['$x', '$y', '$z']
    for i in range(levels):
        names = rng.sample(ps, 3)
        body = [rng.choice(places).format(*rng.sample(names, 3)) for _ in range(rng.randrange(1, 4))]
        if free:
            # variables that are none of this macro, but perhaps of one that calls it
            for _ in range(rng.randrange(3)):
                a, b = rng.sample([p for p in ps if p not in names], 2)
                body.insert(rng.randrange(len(body) + 1), rng.choice(FREE).format(a, b, rng.choice(names)))
                ctx.count('foreign_variables')
        if i + 1 < levels:
            # capture traps: an argument named like a parameter of the callee
            args = [rng.choice(names + ps + ['$q', '7']) for _ in range(3)]
            if var or num:
                args = [rng.choice(names) for _ in range(3)]
            body.insert(rng.randrange(len(body) + 1), f'~l{i + 1}({", ".join(args)}{rng.choice(["", ","])});')
        if 'not' in ' '.join(body) and not var:
            raise Skip('x')
        body = [b for b in body if 'not $' not in b]
        out.append(f'macro l{i}({", ".join(names)}) {{ {" ".join(body)} }}\n')
    rng.shuffle(out)
    return ''.join(out) + f'def 0 {{ ~l0({", ".join(vals)}); mid(); ~l0({", ".join(vals[::-1])}); }}\n'


def closed(text):
    """a comment that is open at the end would swallow what follows"""
    return text[:-len('/* open end')] if text.endswith('/* open end') else text


# ---------------------------------------------------------------- monitors
def one_file(src, ctx):
    try:
        ast = lang.parse(src)
        r = sem.Ref(ast, env.PERF)
        ref = r.build()
    except lang.LangError:
        raise Skip('not readable by the reference')
    except sem.Meaningless:
        raise Skip('meaningless')
    if r.states > MAX_STATES:
        raise Skip('too big')
    if progs.by_id(ref) is None:
        raise Skip('gaps in routine ids')
    fail = semcheck.failer(source=src)
    try:
        c = env.compile_text(src)
    except Exception as e:
        fail(f'the program is rejected: {type(e).__name__}: {e}')
    compare(ref, c, src, '', r.expansions, ctx)


def in_layout(lay, rng, ctx):
    try:
        main, ref, expansions = reference(lay)
    except lang.LangError:
        raise Skip('not readable by the reference')
    except sem.Meaningless:
        raise Skip('meaningless')
    if progs.by_id(ref) is None:
        raise Skip('gaps in routine ids')
    shown = lay.show()
    fail = semcheck.failer(layout=shown)
    name = lay.main
    cwd = None
    if rng.random() < 0.25:
        cwd = os.getcwd()
        d = rng.choice([os.path.dirname(lay.main), lay.root])
        name = os.path.relpath(lay.main, d)
        os.chdir(d)
    try:
        c = env.compile_text(lay.files[lay.main], name, list(lay.lookup))
    except Exception as e:
        fail(f'the program is rejected: {type(e).__name__}: {e}')
    finally:
        if cwd:
            os.chdir(cwd)
    if list(c.imports) != list(main.imports):
        fail(f'the imports are {main.imports}, got {c.imports}')
    if lay.nfiles > 1:
        ctx.count('layouts_with_imports')
    ctx.count('decoy_files', lay.decoys)
    for s in lay.spelled:
        ctx.saw('spellings', s)
    compare(ref, c, None, shown, expansions, ctx)


def reference(lay):
    macros = {}
    main = None
    for p in lay.paths:
        ast = lang.parse(lay.files[p])
        if p == lay.main:
            main = ast
        for d in ast.defs:
            if d.kind == 'macro':
                macros[d.name] = (d, None if p == lay.main else p)
    r = sem.Ref(main, env.PERF, macros)
    return main, r.build(), r.expansions


def compare(ref, c, src, shown, expansions, ctx):
    fail = semcheck.failer(source=src, layout=shown, ops=lambda: semcheck.dump(c.routine_ops))
    semcheck.check_tables(ref, c.routine_infos, c.named_coroutines, fail)
    pairs, tests = semcheck.check_flow(ref, c.routine_ops, fail)
    ctx.count('programs_compared')
    ctx.count('states_compared', pairs)
    ctx.count('tests_explored', tests)
    ctx.count('expansions', expansions)
    if expansions:
        ctx.nontrivial(semcheck.dump(c.routine_ops))
