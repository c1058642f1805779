"""C03: the compiled output is a closed, uniquely addressed op list."""
import re
from . import env, progs, semcheck, hand, ssb, mini
from .core import Skip, Violation

ID = 'C03'
RULE = ('every compilation result of random, hand-written and macro/import-free programs is walked by a structural monitor: '
        'op classes, offsets, jump targets (last parameter, offset of a present op), table lengths. Non-trivial: the result has '
        'a jump-carrying op; distinct by compiled ops.')
REQUIRE = {'results_checked': 1500, 'jumps_checked': 5000, 'seen:jump_opcodes': 20}


def plan(tier, seed):
    k = 1 if tier == 'quick' else 20
    return [('hand', len(hand.PROGRAMS) + len(RAW)), ('rand', 9000 * k), ('jumpy', 9000 * k), ('big', 60 * k), ('raw', 3000 * k), ('mini', 9000 * k)]


RAW = [
    'def 0 { @a; if (BranchSum(1, 2, 3)) { jump @a; } call @b; end; @b; }',
    'def 0 { jump @a; } def 1 { call @a; } def 2 { @a; }',
    'def 0 { jump @a; } def 1 { jump @b; } def 2 { @a; @b; }',
    'def 0 { if (debug) { jump @a; } @a; } def 1 { jump @a; }',
    'def 0 { switch ($A) { case 1: jump @z; case 2: x(); } } def 1 { @z; }',
    'def 0 { forever { if (debug) { break_loop; } } }',
    'macro m() { @l; jump @l; } def 0 { ~m(); } def 1 { ~m(); }',
    'def 0 { with (actor 1) { jump @a; } @a; }',
    'def 0 { with (actor 1) { jump @a; } x(); @a; y(); }',
    'def 0 { alias previous; }', 'def 0 { x(); } def 1 { alias previous; }',
]


def check(comp, src, ctx):
    fail = semcheck.failer(source=src, ops=lambda: semcheck.dump(comp.routine_ops))
    check_result(comp.routine_ops, comp.routine_infos, comp.named_coroutines, fail, ctx, src)
    ctx.count('results_checked')


def check_result(routine_ops, infos, names, fail, ctx, src):
    seen = {}
    jumps = 0
    if not isinstance(routine_ops, list):
        fail('no op table')
    if len(infos) != len(routine_ops):
        fail(f'{len(infos)} routine infos for {len(routine_ops)} routines')
    if any(i.type.name == 'COROUTINE' for i in infos):
        if len(names) != len(routine_ops):
            fail(f'{len(names)} coroutine names for {len(routine_ops)} routines')
    for i, info in enumerate(infos):
        if type(info).__name__ != 'SsbRoutineInfo':
            fail(f'the info of routine {i} is a {type(info).__name__}')
    for r, ops in enumerate(routine_ops):
        for op in ops:
            if type(op).__name__ != 'SsbOperation':
                fail(f'{type(op).__name__} left in routine {r}: {op.op_code.name}')
            name = op.op_code.name
            if not isinstance(name, str) or name.startswith('ES_') or '<' in name:
                fail(f'internal op {name} left in routine {r}')
            if not isinstance(op.offset, int) or isinstance(op.offset, bool):
                fail(f'op {name} has the offset {op.offset!r}')
            if op.offset in seen:
                fail(f'ops {seen[op.offset]} and {name} (routine {r}) share the offset {op.offset}')
            if op.offset < 0:
                fail(f'op {name} of routine {r} has the offset {op.offset}')
            seen[op.offset] = name
    for r, ops in enumerate(routine_ops):
        for op in ops:
            name = op.op_code.name
            for p in op.params:
                if ssb.canon(p)[0] == '?':
                    fail(f'op {name} at {op.offset} has the parameter {p!r} of type {type(p).__name__}')
            if name in ssb.JUMPERS:
                jumps += 1
                ctx.saw('jump_opcodes', name)
                if not op.params:
                    fail(f'{name} at {op.offset} has no target')
                t = op.params[-1]
                if not isinstance(t, int) or isinstance(t, bool) or t not in seen:
                    fail(f'{name} at {op.offset} (routine {r}) has the target {t!r}, which is no offset of an op')
                if len(op.params) != ssb.JUMPERS[name] + 1:
                    ctx.count('unusual_arity')
                    if not re.search(rf'\b{name}\b', src):
                        # (an op that the source spells out has the arguments it is given)
                        fail(f'{name} at {op.offset} (routine {r}) has {len(op.params)} parameters, the opcode takes {ssb.JUMPERS[name]} and the target')
                else:
                    ctx.count('arity_checked')
    ctx.count('ops_checked', len(seen))
    ctx.count('jumps_checked', jumps)
    if jumps:
        ctx.nontrivial(semcheck.dump(routine_ops))


def run_case(kind, index, rng, ctx):
    if kind == 'hand':
        src = (hand.PROGRAMS + RAW)[index]
    elif kind == 'jumpy':
        src = progs.make(rng, rng.choice(['labels', 'tiny', 'tinydeep', 'noend', 'ctx']), ctx_flow=True, ctx_jump=rng.random() < 0.5,
                         terminate=rng.choice([0, 0.3]), routines=rng.choice([1, 2, 3, 4]))[1]
    elif kind == 'big':
        src = progs.make(rng, 'mixed', routines=rng.choice([5, 25]), max_body=rng.choice([5, 25]))[1]
    elif kind == 'mini':
        src = mini.make(rng)
    elif kind == 'raw':
        src = raw(rng)
    elif rng.random() < 0.35:
        src = progs.with_macros(rng)
    else:
        src = progs.make(rng, rng.choice(list(progs.PROFILES)))[1]
    try:
        comp = env.compile_text(src)
    except Exception as e:
        ctx.count(f'not compiled: {type(e).__name__}')
        raise Skip('not compiled')
    check(comp, src, ctx)
    if index < 4 and kind == 'rand':
        ctx.sample(src[:1500])


NAMES = list(ssb.JUMPERS) + ['Switch', 'SwitchScenario', 'CaseText', 'DefaultText', 'message_SwitchTalk', 'lives', 'object']


def raw(rng):
    """special ops spelled out as operations, in every place an operation can stand"""
    out = []

    def op():
        a = ', '.join(rng.choice(['1', '$A', 'X', '3']) for _ in range(rng.randrange(0, 4)))
        return f'{rng.choice(NAMES)}({a})'
    for _ in range(rng.randrange(1, 4)):
        k = rng.randrange(6)
        out.append([f'{op()};', f'if ({op()}) {{ a(); }}', f'switch ({op()}) {{ case 1: b(); break; }}', f'while not ({op()}) {{ c(); }}',
                    f'with (actor 1) {{ {op()}; }}', f'for (x(); {op()}; {op()};) {{ a(); }}'][k])
    if rng.random() < 0.5:
        return 'macro m() { ' + ' '.join(out) + ' } def 0 { ~m(); ~m(); end; }'
    return 'def 0 { ' + ' '.join(out) + ' end; }'
