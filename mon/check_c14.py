"""C14: source maps survive storage and offset rewriting."""
import copy
import json
from . import check_c05, deco, env, gen_ssb as gs, layout, progs, semcheck
from .core import Skip
from explorerscript.source_map import MacroSourceMapping, SourceMap, SourceMapBuilder, SourceMapPositionMark, SourceMapping

ID = 'C14'
RULE = ('source maps (arbitrary well-typed ones, built with the builder, from the compilers for one or several files, from the decompilers) '
        'go through random histories of serialising, reading back and rewriting offsets through injective mappings (identity, shifts, '
        'reversed, permuted, sparse, dropping ops, dropping all). After every step every field of every entry is compared with a model '
        'kept beside it. Non-trivial: at least two entries; distinct by map and history.')
REQUIRE = {'round_trips': 15000, 'rewrites': 15000, 'entries_compared': 100000, 'macro_entries_compared': 30000, 'returns_dropped': 3000,
           'returns_moved': 10000, 'entries_dropped': 5000, 'marks_compared': 10000, 'return_zero': 100}
CASE_LIMIT = 30


def plan(tier, seed):
    k = 2 if tier == 'quick' else 40
    return [('arb', 9000 * k), ('build', 2000 * k), ('comp', 1200 * k), ('layout', 800 * k), ('deco', 600 * k), ('ssbs', 400 * k)]


# ---------------------------------------------------------------- maps
TEXTS = ['', 'a', 'm', 'Macro_1', '../lib/a b.exps', 'x.exps', 'ünï/ß.exps', "it's", 'q"q', 'back\\slash', 'new\nline', '\t', '😀', '\u2028', 'null',
         '0', 'with, comma', '[1]', '\x00', '\x7f']


def num(r):
    k = r.random()
    if k < 0.6:
        return r.randrange(0, 40)
    if k < 0.7:
        return 0
    if k < 0.8:
        return -r.randrange(1, 5)
    return r.choice([65535, 2 ** 31, 2 ** 53 + 1, 10 ** 25, 400, 1000])


def mark(r):
    return SourceMapPositionMark(num(r), num(r), num(r), num(r), r.choice(TEXTS), r.choice([0, 1, 2, 3, 4, num(r)]), r.choice([0, 2, 4, num(r)]),
                                 num(r), num(r))


def offsets(r, n):
    k = r.random()
    if k < 0.4:
        return list(range(n))
    if k < 0.8:
        return r.sample(range(0, 3 * n + 1), n)
    return r.sample(range(5000), n)


def path(r):
    return r.choice([None, None] + TEXTS)


def pmap(r):
    return {r.choice(['$a', '$b', '$c', '$x', '', '$ü']): r.choice([num(r), r.choice(TEXTS), str(num(r))]) for _ in range(r.choice([0, 0, 1, 2, 3]))}


def arbitrary(r):
    n = r.choice([0, 1, 2, 3, 5, 8, 15, 30])
    offs = offsets(r, n)
    r.shuffle(offs)
    k = r.randrange(n + 1)
    direct = {o: SourceMapping(num(r), num(r)) for o in offs[:k]}
    hi = max(offs, default=3) + 2
    mac = {o: MacroSourceMapping(path(r), r.choice(TEXTS), num(r), num(r), None if r.random() < 0.5 else (path(r), num(r), num(r)),
                                 r.choice([None, 0, r.randrange(hi + 1), r.randrange(hi + 1), r.choice(offs or [1]), o + 1]), pmap(r))
           for o in offs[k:]}
    return SourceMap(direct, [mark(r) for _ in range(r.choice([0, 0, 1, 3]))], mac,
                     [(path(r), r.choice(TEXTS), mark(r)) for _ in range(r.choice([0, 0, 1, 3]))])


def built(r):
    b = SourceMapBuilder()
    depth = 0
    for o in offsets(r, r.choice([1, 4, 10, 25])):
        k = r.random()
        if k < 0.25:
            b.macro_context__push(r.choice([o + r.randrange(0, 6), o, 0, r.randrange(60)]), pmap(r))
            depth += 1
            if r.random() < 0.7:
                b.next_macro_opcode_called_in(path(r), num(r), num(r))
        elif k < 0.4 and depth:
            b.macro_context__pop()
            depth -= 1
        elif k < 0.5:
            b.add_position_mark(mark(r))
        elif k < 0.6:
            b.add_macro_position_mark(path(r), r.choice(TEXTS), mark(r))
        if depth and r.random() < 0.8:
            b.add_macro_opcode(o, path(r), r.choice(TEXTS), num(r), num(r))
        elif r.random() < 0.9:
            b.add_opcode(o, num(r), num(r))
    return b.build()


def make(kind, r, ctx):
    if kind == 'arb':
        return arbitrary(r)
    if kind == 'build':
        return built(r)
    if kind == 'layout':
        ms, main = check_c05.program(r)
        with layout.Scratch() as root:
            lay = layout.spread(r, root, ms, main)
            lay.write()
            try:
                c = env.compile_text(lay.files[lay.main], lay.main, list(lay.lookup))
            except Exception:
                raise Skip('rejected')
        return c.source_map
    if kind == 'deco':
        infos, ops, coros = deco.make_set(r.choice(['comp', 'rand', 'small']), r)
        try:
            return (env.decompile if r.random() < 0.7 else env.decompile_ssbs)(infos, ops, coros)[1]
        except Exception:
            raise Skip('not decompiled')
    src = progs.with_macros(r) if kind == 'comp' else progs.make(r, rich=True)[1]
    try:
        c = env.compile_text(src)
        if kind == 'ssbs':
            us = gs.from_compiled(c)
            text, m = env.decompile_ssbs(*gs.finish(us, r, *gs.clone_infos(c)))
            s = env.SsbScriptSsbCompiler()
            s.compile(text)
            return r.choice([s.source_map, m])
    except Exception:
        raise Skip('rejected')
    return c.source_map


# ---------------------------------------------------------------- model
def mark_fields(m):
    return (m.line_number, m.column_number, m.end_line_number, m.end_column_number, m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative)


def exact(x):
    """value and type"""
    if isinstance(x, (tuple, list)):
        return (type(x).__name__, tuple(exact(y) for y in x))
    if isinstance(x, dict):
        return ('dict', tuple((exact(k), exact(v)) for k, v in x.items()))
    if x is None or type(x) in (int, str, bool, float):
        return (type(x).__name__, x)
    return (type(x).__name__, str(x))


def model(m):
    """everything a source map says"""
    return {
        'direct': {o: (e.line, e.column) for o, e in m._mappings.items()},
        'macro': {o: [e.line, e.column, e.relpath_included_file, e.macro_name, e.called_in, e.return_addr, dict(e.parameter_mapping)]
                  for o, e in m._mappings_macros.items()},
        'marks': [mark_fields(x) for x in m.get_position_marks__direct()],
        'macro_marks': [(a, b, mark_fields(x)) for a, b, x in m.get_position_marks__macros()],
    }


def differences(want, m, fail, step):
    """compares through the public readers"""
    offs = [o for o, _ in m]
    n = 0
    exp = list(want['direct']) + list(want['macro'])
    if sorted(offs) != sorted(exp):
        fail(f'{step}: entries for {sorted(offs)[:60]}, expected {sorted(exp)[:60]}')
    for o, (line, col) in want['direct'].items():
        e = m.get_op_line_and_col__direct(o)
        if e is None or exact((e.line, e.column)) != exact((line, col)):
            fail(f'{step}: direct entry {o} is {e and (e.line, e.column)}, expected {(line, col)}')
        x = m.get_op_line_and_col(o)
        if x is None or (x.line, x.column) != (line, col):
            fail(f'{step}: get_op_line_and_col({o}) is not the direct entry')
        n += 1
    got = dict(m.collect_mappings__macros())
    if sorted(got) != sorted(want['macro']):
        fail(f'{step}: macro entries for {sorted(got)[:60]}, expected {sorted(want["macro"])[:60]}')
    for o, w in want['macro'].items():
        e = m.get_op_line_and_col__macros(o)
        for name, a, b in zip(('line', 'column', 'file', 'macro', 'call site', 'return address', 'parameters'),
                              (e.line, e.column, e.relpath_included_file, e.macro_name, e.called_in, e.return_addr, dict(e.parameter_mapping)), w):
            if exact(a) != exact(b):
                fail(f'{step}: macro entry {o}: {name} is {a!r}, expected {b!r}')
        if o not in want['direct'] and m.get_op_line_and_col(o) is not e:
            fail(f'{step}: get_op_line_and_col({o}) is not the macro entry')
        n += 1
    a = [mark_fields(x) for x in m.get_position_marks__direct()]
    if exact(a) != exact(want['marks']):
        fail(f'{step}: position marks {a}, expected {want["marks"]}')
    b = [(x, y, mark_fields(z)) for x, y, z in m.get_position_marks__macros()]
    if exact(b) != exact(want['macro_marks']):
        fail(f'{step}: macro position marks {b}, expected {want["macro_marks"]}')
    return n, len(a) + len(b), len(got)


def rewritten(want, mp, ctx):
    out = dict(want)
    out['direct'] = {mp[o]: v for o, v in want['direct'].items() if o in mp}
    out['macro'] = {}
    later = sorted(mp)
    for o, v in want['macro'].items():
        if o not in mp:
            continue
        v = list(v)
        ret = v[5]
        if ret is not None:
            if ret == 0:
                ctx.count('return_zero')
            if ret in mp:
                v[5] = mp[ret]
                ctx.count('returns_moved')
            else:
                nxt = next((x for x in later if x >= ret), None)
                if nxt is not None:
                    v[5] = mp[nxt]
                    ctx.count('returns_dropped')
                else:
                    v[5] = ('any', ret)       # nothing survives behind it: no demand
                    ctx.count('returns_behind_everything')
        out['macro'][mp[o]] = v
    ctx.count('entries_dropped', len(want['direct']) + len(want['macro']) - len(out['direct']) - len(out['macro']))
    return out


def mapping(r, want):
    offs = sorted(set(want['direct']) | set(want['macro']))
    rets = [v[5] for v in want['macro'].values() if isinstance(v[5], int)]
    dom = set(offs)
    if r.random() < 0.8:
        lo, hi = min(offs + rets, default=0), max(offs + rets, default=3)
        if hi - lo < 400:
            dom |= set(range(lo, hi + 1)) if r.random() < 0.6 else set(rets)
        else:
            dom |= set(rets)
    k = r.random()
    dom = sorted(dom)
    if k < 0.5:
        p = r.choice([0.1, 0.3, 0.6, 0.9])
        dom = [o for o in dom if r.random() > p]
    elif k < 0.55:
        dom = []
    elif k < 0.7 and rets:
        gone = set(r.sample(rets, min(len(rets), 3)))
        dom = [o for o in dom if o not in gone]
    n = len(dom)
    k = r.random()
    if k < 0.1:
        img = dom
    elif k < 0.25:
        s = r.choice([1, 7, -3, 1000])
        img = [o + s for o in dom]
    elif k < 0.4:
        img = list(range(n))
    elif k < 0.5:
        img = list(range(n))[::-1]
    elif k < 0.6:
        img = dom[::-1]
    elif k < 0.8:
        img = r.sample(dom, n)
    else:
        img = r.sample(range(4 * n + 5), n)
    pairs = list(zip(dom, img))
    r.shuffle(pairs)
    return dict(pairs)


# ---------------------------------------------------------------- histories
def run_case(kind, index, rng, ctx):
    m = make(kind, rng, ctx)
    want = model(m)
    first = m.serialize()
    start = repr(want)
    hist = []
    fail = semcheck.failer(map=start[:6000], history=lambda: '\n'.join(hist))
    both = set(want['direct']) & set(want['macro'])
    if both:
        raise Skip('an offset in both tables')
    older = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        k = rng.random()
        if k < 0.5:
            pretty = rng.random() < 0.3
            text = str(m) if rng.random() < 0.2 and not pretty else m.serialize(pretty)
            hist.append('serialise' + (' pretty' if pretty else ''))
            n = SourceMap.deserialize(text)
            if not (n == m) or not (m == n) or (n != m):
                fail('the map read back is not equal to the original')
            count(differences(want, n, fail, 'read back'), ctx)
            count(differences(want, m, fail, 'original after serialising'), ctx)
            again = str(n) if text is not None and not pretty and rng.random() < 0.2 else n.serialize(pretty)
            if again != text:
                fail(f'serialising again gives another text: {again[:2000]} instead of {text[:2000]}')
            if m.serialize(pretty) != text:
                fail('serialising the same map twice gives two texts')
            json.loads(text)
            ctx.count('round_trips')
            if rng.random() < 0.7:
                older.append((m, copy.deepcopy(want)))
                m = n
        else:
            mp = mapping(rng, want)
            hist.append(f'rewrite {mp}'[:1500])
            want = rewritten(want, mp, ctx)
            keep = dict(mp)
            m.rewrite_offsets(mp)
            if mp != keep or list(mp) != list(keep):
                fail('rewriting changed the given mapping')
            for o, v in want['macro'].items():
                if isinstance(v[5], tuple):
                    e = m.get_op_line_and_col__macros(o)
                    v[5] = e.return_addr if e is not None else None
            count(differences(want, m, fail, 'after rewriting'), ctx)
            ctx.count('rewrites')
    for o, w in older:
        # maps that were read back have a life of their own
        count(differences(w, o, fail, 'an older map after the history of its copy'), ctx)
    if len(want['direct']) + len(want['macro']) >= 2 or start.count('(') > 3:
        ctx.nontrivial(first + '\n'.join(hist))
    if index < 1:
        ctx.sample({'map': start[:600], 'history': hist})


def count(nm, ctx):
    n, m, k = nm
    ctx.count('entries_compared', n)
    ctx.count('macro_entries_compared', k)
    ctx.count('marks_compared', m)
