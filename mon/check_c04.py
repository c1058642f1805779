"""C04: parameter values survive printing and parsing; literals have the values of the specification."""
import functools
from collections import Counter
from . import deco, env, equiv, gen_ssb as gs, lang, progs, sem, semcheck, ssb
from .core import Skip, Violation
from .gen_prog import G, render

ID = 'C04'
RULE = ('(1) compiled structured programs get random parameter values of every kind in every place a reader can deliver them (arguments, headers, '
        'cases, menus, message texts, language strings, nested blocks); the texts both decompilers print are compiled again and the multiset of '
        '(operation, values) has to be the same. Strings: all strings up to a length over the critical characters, and random long ones. '
        '(2) random literals of every spelling are compiled in both languages and compared with the values of an independent reader of the '
        'specification. Non-trivial: a value is compared; distinct by value.')
REQUIRE = {'values_compared': 40000, 'literals_compared': 20000, 'seen:strings': 4000, 'seen:positions': 300, 'seen:places': 20,
           'seen:depths': 3, 'ssbs_values_compared': 8000}
CASE_LIMIT = 60
CRIT = [' ', '\n', '"', "'", 'a', '\\']
RARE = ['\t', '\r', '\u2028', '\x85', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\u00a0', '\ufeff', 'é', '✓', '\U0001f600', 'n', '0', '{', '}', ';', '//',
        '/*', '*/', "'''", '"""', '\\n', "\\'", '\\"', '[CN]', '$x', '@l', '  ', '    ', '\n\n', '\n ', '\n    ', ' \n', '%s', '{0}', 'case', '\\\n',
        '\\\\', '\0', '\x1b']
BLOCK = 60


CRIT2 = ['\r', '\f', '\n', '\\', '"', "'", ' ', 'a']


@functools.lru_cache(None)
def every_string(quick):
    out = strings_up_to(5 if quick else 6, CRIT)
    # control characters, with the critical ones around
    return out + [s for s in strings_up_to(4 if quick else 5, CRIT2) if '\r' in s or '\f' in s]


def strings_up_to(n, alphabet):
    out = ['']
    last = ['']
    for _ in range(n):
        last = [s + c for s in last for c in alphabet]
        out += last
    return out


def plan(tier, seed):
    q = tier == 'quick'
    n = len(every_string(q))
    k = 1 if q else 15
    return [('enum', (n + BLOCK - 1) // BLOCK), ('values', 2500 * k), ('ssbs', 1200 * k), ('lits', 1500 * k), ('finding', 1)]


# ---------------------------------------------------------------- values
def rstring(r):
    k = r.random()
    if k < 0.25:
        s = ''.join(r.choice(CRIT) for _ in range(r.randrange(0, 10)))
    elif k < 0.6:
        s = ''.join(r.choice(CRIT + RARE) for _ in range(r.randrange(0, 8)))
    elif k < 0.85:
        # lines with blank space around
        s = '\n'.join(' ' * r.choice([0, 0, 1, 2, 4, 8]) + ''.join(r.choice(['a', 'b c', '"', "'", '', ' ', 'x', '\\', "''"]) for _ in range(r.randrange(0, 4))) +
                      ' ' * r.choice([0, 0, 0, 1, 4]) for _ in range(r.randrange(1, 6)))
    else:
        s = gs.p_str(r)
    return s


def good_string(r):
    for _ in range(50):
        s = rstring(r)
        if lang.representable(s):
            return s
    return 'x'


def good_name(r):
    for _ in range(50):
        s = rstring(r)
        if lang.name_representable(s):
            return s
    return 'x'


def rint(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice([0, 1, -1, 255, 256, -256, 32767, 32768, 65535, -32768, 2 ** 31, -2 ** 31, 10 ** 20, -10 ** 20])
    if k == 1:
        return r.randrange(-2 ** 15, 2 ** 15)
    if k == 2:
        return r.randrange(-2 ** 40, 2 ** 40)
    return r.randrange(-20, 70)


def rfixed(r):
    F = env.SsbOpParamFixedPoint
    k = r.randrange(4)
    frac = ''.join(r.choice('0015') for _ in range(r.randrange(1, 5))) if r.random() < 0.6 else str(r.randrange(0, 10000))
    if k == 0:
        return F(rint(r), frac)
    if k == 1:
        return F(F.NegativeZero, frac)
    if k == 2:
        # what a reader does with the 14 bit values of the engine
        return F.from_float(r.randrange(-0x2000, 0x2000) / 256)
    return F(r.randrange(-64, 64), str(r.randrange(0, 1000)).rjust(3, '0'))


CN = ['A', 'a', '_', '$', '$x', 'LEVEL_T00', 'ACTOR_X', 'x9', 'Ab_9', 'TRUEx', 'iff', 'ifx', 'Positions', 'caseX', 'no_t', 'D01P11A', 'e5', 'x1F', 'b1', 'o7']


def rconst(r):
    return env.SsbOpParamConstant(r.choice([c for c in CN if c != '$']))


def rtext(r, tok):
    if r.random() < 0.6:
        return env.SsbOpParamConstString(tok(r))
    ls = r.sample(['english', 'french', 'german', 'italian', 'spanish', 'japanese', 'E', 'l_1'], r.randrange(1, 6))
    return env.SsbOpParamLanguageString({l: tok(r) for l in ls})


def rpos(r):
    return env.SsbOpParamPositionMarker(good_name(r), r.choice([0, 0, 2, 2, 1, 3, 4]), r.choice([0, 0, 2, 2, 1, 3, 4]),
                                        r.choice([0, 1, 9, 10, 63, 255, -1, -10, rint(r)]), r.choice([0, 1, 9, 10, 63, 255, -1, -10, rint(r)]))


def rnum(r):
    k = r.random()
    return rint(r) if k < 0.45 else rfixed(r) if k < 0.8 else rconst(r)


def rany(r, tok):
    k = r.random()
    return rnum(r) if k < 0.4 else rtext(r, tok) if k < 0.8 else rpos(r)


def value(p):
    """what has to be equal"""
    c = ssb.canon(p)
    if c[0] == 'fix':
        # (numeric value: the sign of zero does not count)
        neg, w, fr = c[1:]
        return ('fix', neg and (w != 0 or fr != ''), w, fr)
    if c[0] == 'pos':
        return ('pos', c[1], c[2] > 1, c[3] > 1, c[4], c[5])
    return c


NUMS = {'flag_CalcBit': (0, 2), 'flag_CalcValue': (0, 2), 'flag_CalcVariable': (0, 2), 'flag_Clear': (0,), 'flag_Initial': (0,), 'flag_Set': (0, 1),
        'flag_ResetScenario': (0,), 'flag_SetAdventureLog': (0,), 'flag_SetDungeonMode': (0,), 'flag_SetScenario': (0,),
        'Branch': (0, 1), 'BranchValue': (0, 2), 'BranchVariable': (0, 2), 'BranchScenarioNow': (0,),
        'BranchScenarioAfter': (0,), 'BranchScenarioBefore': (0,), 'BranchScenarioNowAfter': (0,), 'BranchScenarioNowBefore': (0,),
        'Case': (0,), 'CaseValue': (1,), 'CaseVariable': (1,), 'CaseScenario': (1,), 'CaseMenu2': (0,), 'CaseText': (0,),
        'Switch': (0,), 'SwitchScenario': (0,), 'SwitchScenarioLevel': (0,), 'SwitchRandom': (0,), 'SwitchDungeonMode': (0,),
        'message_SwitchTalk': (0,), 'message_SwitchMonologue': (0,), 'lives': (0,), 'object': (0,), 'performer': (0,)}
TEXT = {'CaseMenu': 0, 'CaseText': 1, 'DefaultText': 0}


def fill(ops, r, tok, ctx):
    """new values wherever one can stand; returns the number of places"""
    n = 0
    for row in ops:
        dm = False
        for o in row:
            name = o.op_code.name
            ps = o.params
            end = len(ps) - 1 if name in ssb.JUMPERS else len(ps)
            if name.startswith('Switch') or name == 'message_SwitchMenu':
                dm = name == 'SwitchDungeonMode'
            if name in NUMS or name in TEXT:
                for i in NUMS.get(name, ()):
                    if i >= end or (dm and name == 'Case'):
                        continue
                    ps[i] = rnum(r)
                    n += 1
                if name in TEXT:
                    ps[TEXT[name]] = rtext(r, tok)
                    n += 1
            elif name.startswith(('Branch', 'flag_')) or name in ('Jump', 'Call', 'End', 'Return', 'Hold'):
                continue
            elif name.startswith(('Switch', 'main_', 'message_Switch', 'message_Menu', 'ProcessSpecial')):
                for i in range(end):
                    ps[i] = rany(r, tok)
                    n += 1
            else:
                for i in range(end):
                    ps[i] = rany(r, tok)
                    n += 1
                while r.random() < 0.3 and len(ps) < 8:
                    ps.append(rany(r, tok))
                    n += 1
            if end:
                ctx.saw('places', name)
    return n


def reach(starts):
    c = Counter()
    nodes = deco.all_nodes([s for s in starts if s is not None])
    for s in nodes:
        if s.k in ('act', 'test', 'call'):
            c[(s.op, s.params)] += 1
    return c


def multiset(routine_ops):
    m = ssb.Machine(routine_ops)
    by = {}
    out = []
    for i, row in enumerate(routine_ops):
        c = Counter()
        if row:
            start = m.start(i)
            nodes = deco.all_nodes([start])
            deco.norm_dmode(nodes)
            for s in nodes:
                if s.k in ('act', 'test', 'call'):
                    c[(s.op, s.params)] += 1
        out.append(c)
    return out


def norm(c):
    out = Counter()
    for (op, ps), n in c.items():
        out[(op, tuple(vnorm(p) for p in ps))] += n
    return out


def vnorm(c):
    if c[0] == 'fix':
        neg, w, fr = c[1:]
        return ('fix', neg and (w != 0 or fr != ''), w, fr)
    if c[0] == 'pos':
        return ('pos', c[1], c[2] > 1, c[3] > 1, c[4], c[5])
    return c


def run_case(kind, index, rng, ctx):
    if kind == 'finding':
        return finding(rng, ctx)
    if kind == 'lits':
        return literals(index, rng, ctx)
    if kind == 'enum':
        every = every_string(ctx.tier == 'quick')
        block = [s for s in every[index * BLOCK:(index + 1) * BLOCK]]
        ctx.count('strings_without_literal', sum(not lang.representable(s) for s in block))
        block = [s for s in block if lang.representable(s)]
        it = iter(block * 3)

        def tok(r):
            return next(it, None) or r.choice(block)
        if not block:
            raise Skip('no literals')
        for depth in (0, rng.randrange(1, 5)):
            it = iter(block)
            enum_block(block, depth, rng, ctx)
        return
    g = G(rng, jumps=False, labels=False, calls=False, enders=False, block_enders=False, max_depth=rng.choice([1, 2, 4, 7]),
          max_body=rng.choice([2, 3]), header_ops=rng.random() < 0.5, pos=False)
    g.file()
    src = render(g.t, rng, 'pretty')
    try:
        comp = env.compile_text(src)
    except Exception:
        raise Skip('not compiled')
    us = gs.from_compiled(comp)
    if gs.jump_cycle(us) or gs.falls_off(us):
        raise Skip('cycle of jumps')
    infos, coros = gs.clone_infos(comp)
    infos, ops, coros = gs.finish(us, rng, infos, coros)
    if not fill(ops, rng, good_string, ctx):
        raise Skip('no values')
    compare(kind, infos, ops, coros, ctx)


def enum_block(block, depth, rng, ctx):
    """every string of the block: as an argument, in a language string, in a menu, in a message switch; all at the same depth"""
    C, L = env.SsbOpParamConstString, env.SsbOpParamLanguageString
    n = len(block)
    src = ['def 0 {']
    for d in range(depth):
        src.append('if (debug) {' if d % 2 else 'forever { if (edit) {')
    src += ['foo(%d);' % i for i in range(n)]
    src.append('switch (message_SwitchMenu(1, 2)) {' + ''.join(f"case menu('{i}'): bar({i}); break;" for i in range(n)) + '}')
    src.append('message_SwitchTalk(1) {' + ''.join(f"case {i}: '{i}'" for i in range(n)) + "default: 'x'}")
    for d in range(depth):
        src.append('}' if (depth - 1 - d) % 2 else '} else { break_loop; } }')
    src.append('end; }')
    try:
        comp = env.compile_text('\n'.join(src))
    except Exception as e:
        raise AssertionError(f'{e}\n' + '\n'.join(src))
    infos, coros = gs.clone_infos(comp)
    infos, ops, coros = gs.finish(gs.from_compiled(comp), rng, infos, coros)
    for o in ops[0]:
        name = o.op_code.name
        if name == 'foo':
            s = block[o.params[0]]
            t = rng.choice(block)
            o.params += [C(s), L({'english': s, 'german': t}), C(t)]
        elif name in ('CaseMenu', 'CaseText', 'DefaultText'):
            k = {'CaseMenu': 0, 'CaseText': 1, 'DefaultText': 0}[name]
            s = o.params[k].name
            s = block[int(s)] if s != 'x' else rng.choice(block)
            o.params[k] = C(s) if rng.random() < 0.7 else L({'french': s})
    ctx.saw('depths', depth)
    compare('enum', infos, ops, coros, ctx)


def compare(kind, infos, ops, coros, ctx):
    text = None
    shown = deco.show_set(infos, ops, coros)
    fail = semcheck.failer(input=shown, text=lambda: text)
    if kind == 'ssbs':
        try:
            text, _ = env.decompile_ssbs(infos, ops, coros)
        except Exception as e:
            fail(f'SsbScript: the decompiler raises {type(e).__name__}: {e}')
        try:
            comp = env.SsbScriptSsbCompiler()
            comp.compile(text)
        except Exception as e:
            fail(f'SsbScript: the text is rejected: {type(e).__name__}: {e}')
    else:
        try:
            text, _ = env.decompile(infos, ops, coros)
        except Exception as e:
            fail(f'the decompiler raises {type(e).__name__}: {e}')
        if env.is_fallback(text):
            ctx.count('fallbacks')
        try:
            comp = env.compile_text(text)
        except Exception as e:
            fail(f'the text is rejected: {type(e).__name__}: {e}')
    want = [norm(c) for c in multiset(ops)]
    try:
        got = [norm(c) for c in multiset(comp.routine_ops)]
    except ssb.Malformed as e:
        fail(f'malformed ops: {e}')
    if len(want) != len(got):
        fail(f'{len(want)} routines became {len(got)}')
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            lost, new = a - b, b - a
            fail(f'routine {i}: values changed: lost {show(lost)} got {show(new)}')
        n = sum(len(ps) for _, ps in a.elements())
        ctx.count('ssbs_values_compared' if kind == 'ssbs' else 'values_compared', n)
        for _, ps in a:
            for p in ps:
                if p[0] == 'str':
                    ctx.saw('strings', p[1])
                elif p[0] == 'pos':
                    ctx.saw('positions', p)
                elif p[0] == 'fix':
                    ctx.saw('fixed', p)
    ctx.nontrivial(shown)
    ctx.sample(text[:600])


def show(c):
    return '; '.join(repr(x) for x in list(c)[:3])[:1500]


# ---------------------------------------------------------------- literals
def lit_int(r):
    v = abs(rint(r))
    s = r.choice(['', '', '-'])
    k = r.randrange(7)
    z = '0' * r.choice([0, 0, 1, 3])
    if k == 0:
        return s + r.choice(['0x', '0X']) + z + r.choice(['%x', '%X']) % v
    if k == 1:
        return s + r.choice(['0o', '0O']) + z + '%o' % v
    if k == 2:
        return s + r.choice(['0b', '0B']) + z + bin(v)[2:]
    if k == 3:
        return s + '0' * r.randrange(1, 5)
    return s + str(v)


def lit_dec(r):
    w = r.choice(['', '0', '00', '007', str(abs(rint(r))), '12', '0012'])
    f = r.choice(['0', '5', '50', '05', '500', '000', '996', '125', '001', str(r.randrange(0, 10 ** 6))])
    return r.choice(['', '', '-']) + w + '.' + f


def lit_single(r):
    q = r.choice('"\'')
    other = '"' if q == "'" else "'"
    parts = ['a', ' ', '\\n', '\\' + q, '\\' + other, other, '\\', '\\\\', 'n', '\t', 'é', '✓', '//', '/*', '{', '  ', '\\x', '\u2028', '\x85']
    return q + ''.join(r.choice(parts) for _ in range(r.randrange(0, 9))) + q


def lit_multi(r):
    q = r.choice(['"""', "'''"])
    parts = ['a', 'b c', ' ', '"', "'", '\\', '\\n', '\\"', "\\'", '\t', 'é', '//', '  ', '\u2028', '\x85', '\x0b']
    nl = '\r\n' if r.random() < 0.05 else '\n'
    lines = []
    ind = r.choice([0, 0, 2, 4, 5])
    for i in range(r.randrange(1, 7)):
        lines.append(' ' * max(0, ind + r.choice([0, 0, 0, 1, -1, 3])) + ''.join(r.choice(parts) for _ in range(r.randrange(0, 4))))
    if r.random() < 0.6:
        lines[0] = r.choice(['', '', 'first', ' ', '  first '])
    if r.random() < 0.5:
        lines[-1] = ' ' * r.choice([0, 1, 4, 8])
    if r.random() < 0.2:
        lines = [x if r.random() < 0.6 else ' ' * r.randrange(0, 9) for x in lines]
    return q + nl.join(lines) + q


def lit_str(r):
    for _ in range(100):
        t = lit_single(r) if r.random() < 0.4 else lit_multi(r)
        if lang.read_string(t) is not None:
            return t
    return '"x"'


def lit_pos(r):
    def a():
        k = r.randrange(4)
        if k < 2:
            return lit_int(r)
        # (decimals: full and half tiles; -0.5 has no position mark)
        w = r.choice(['0', '1', '12', '007', '63'])
        return (r.choice(['', '-']) if int(w) else '') + w + '.' + r.choice(['0', '5', '5', '50', '500', '000'])
    for _ in range(100):
        n = lit_single(r)
        if lang.read_string(n) is not None:
            break
    s = r.choice(['', ' ', '\n  '])
    return f'Position{s}<{s}{n}{s},{s}{a()}{s},{s}{a()}{s}>', None


def literals(index, rng, ctx):
    lits = []
    for _ in range(30):
        k = rng.randrange(10)
        if k < 3:
            lits.append(lit_int(rng))
        elif k < 5:
            lits.append(lit_dec(rng))
        elif k < 8:
            lits.append(lit_str(rng))
        elif k < 9:
            ls = rng.sample(['english', 'french', 'german'], rng.randrange(1, 4))
            lits.append('{' + ','.join(f'{l}={lit_str(rng)}' for l in ls) + rng.choice(['', ',']) + '}')
        else:
            lits.append(lit_pos(rng)[0])
    ssbs = index % 2 == 1
    sep = rng.choice(['\n', ' ', '\n    '])
    src = 'def 0 {' + sep + sep.join(f'foo({i}, {t}{rng.choice(["", ",", " "])});' for i, t in enumerate(lits)) + '\nend;\n}' if not ssbs else \
        'def 0 {' + sep + sep.join(f'foo({i}, {t});' for i, t in enumerate(lits)) + '\nEnd();\n}'
    fail = semcheck.failer(source=src)
    try:
        if ssbs:
            comp = env.SsbScriptSsbCompiler()
            comp.compile(src)
        else:
            comp = env.compile_text(src)
    except Exception as e:
        fail(f'{"SsbScript: " if ssbs else ""}rejected: {type(e).__name__}: {e}')
    want = [lit_value(t) for t in lits]
    got = comp.routine_ops[0]
    if len(got) != len(lits) + 1:
        fail(f'{len(got)} ops')
    for o, w, t in zip(got, want, lits):
        g = [value(p) for p in o.params[1:]]
        if g != [w]:
            fail(f'{"SsbScript: " if ssbs else ""}the literal {t!r} means {w!r}, the compiler gives {g!r}')
        ctx.count('literals_compared')
        ctx.saw('literals', t)
        ctx.saw('literal_kinds', (w[0], ssbs))
    ctx.nontrivial(src)


def lit_value(t):
    ast = lang.parse('def 0 { foo(%s); end; }' % t)
    st = sem.Ref(ast, env.PERF).build()[0]['start']
    nodes = [s for s in deco.all_nodes([st]) if s.k == 'act' and s.op == 'foo']
    return vnorm(nodes[0].params[0])


# ---------------------------------------------------------------- known finding
WITNESS = ' a\n b\\'


def finding(rng, ctx):
    """strings without a literal of the language"""
    src = 'def 0 { foo("x"); end; }'
    comp = env.compile_text(src)
    infos, coros = gs.clone_infos(comp)
    infos, ops, coros = gs.finish(gs.from_compiled(comp), rng, infos, coros)
    ops[0][0].params[0] = env.SsbOpParamConstString(WITNESS)
    assert not lang.representable(WITNESS)
    try:
        compare('finding', infos, ops, coros, ctx)
    except Violation as v:
        raise Violation(v.msg, v.payload, 'string-unrepresentable')
