"""C16: layout, comments and alternative spellings do not change the compiled ops."""
import re
from . import check_c18, env, gen_prog, hand, lang, layout, progs, semcheck, ssb
from .core import Skip

ID = 'C16'
RULE = ('every program is a token sequence that is spelled several times: canonical, and with random white space, line joining, comments, '
        'label signs, routine header forms, trailing commas, integer bases, leading zeros and quote styles; for small programs a separator '
        'of every kind is put at every token boundary in turn. The compilation results must agree in every op, offset, parameter, routine '
        'table, name and position mark, and in being accepted. Non-trivial: texts differ and the program has at least two ops; distinct by '
        'pair of texts.')
REQUIRE = {'pairs': 6000, 'boundaries': 4000, 'params_compared': 20000, 'seen:separators': 20, 'seen:token_pairs': 400, 'respelled_tokens': 8000,
           'accepted': 6000}
CASE_LIMIT = 90
TIMEOUT_IS_VIOLATION = True

SEPS = [' ', '\n', '\t', '\r\n', '\r', '  \n\n ', '\\\n', '\\ \n', '\\\r\n', '\\\r', '\\\f', '/**/', '/* c */', '/* a\n * b */', '// c\n', '//\n', '// c\r\n', '/* " */', "/* ' */",
        '// "\n', "// '''\n", '// /*\n', '/* // */', '/***/', '/* é😀 */', '//?: is-ssb-script: false\n', ' /* } */ ', '// def 1 {\n', '/*/ */', '/* \\ */', '// \\\n',
        '//§ @ $x ~y\n', '/* "\n */']


def plan(tier, seed):
    k = 1 if tier == 'quick' else 14
    return [('pair', 1500 * k), ('macros', 700 * k), ('lits', 700 * k), ('bound', 90 * k), ('hand', 2 * len(hand.PROGRAMS) * (1 if k == 1 else 8)),
            ('imports', 150 * k)]


def result(text, name='main.exps', lookup=None):
    try:
        c = env.compile_text(text, name, lookup)
    except env.DOCUMENTED as e:
        return ('rejected', type(e).__name__, str(e))
    except Exception as e:
        return ('rejected', type(e).__name__, str(e))
    return ('ok', check_c18.dump(c), [[[show(p) for p in o.params] for o in ops] for ops in c.routine_ops],
            sorted((m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative) for m in marks(c)))


def marks(c):
    return list(c.source_map.get_position_marks__direct()) + [m for _, _, m in c.source_map.get_position_marks__macros()]


def show(p):
    """the value as it is given to whoever writes the binary"""
    if isinstance(p, env.SsbOpParamConstString):
        return ('str', p.name)
    if isinstance(p, env.SsbOpParamLanguageString):
        return ('lang', dict(p.strings))
    if isinstance(p, env.SsbOpParamPositionMarker):
        return check_c18.param(p)
    return (type(p).__name__, str(p))


def compare(a, b, ra, ctx, rb=None):
    fail = semcheck.failer(one=a, other=b)
    rb = rb or result(b)
    if ra[0] != rb[0]:
        fail(f'one spelling is accepted, the other is not: {ra[1:] if ra[0] == "rejected" else rb[1:]}')
    if ra[0] == 'rejected':
        ctx.count('both_rejected')
        return
    ctx.count('accepted')
    for what, x, y in zip(('routine table', 'names', 'ops'), ra[1], rb[1]):
        if x != y:
            if what == 'ops':
                d = [(p, q) for r1, r2 in zip(x, y) for p, q in zip(r1, r2) if p != q][:2] or [(len(x), len(y)), [len(r) for r in x], [len(r) for r in y]]
                fail(f'the ops differ: {d}')
            fail(f'{what} differ: {x} and {y}')
    if ra[2] != rb[2]:
        d = [(p, q) for r1, r2 in zip(ra[2], rb[2]) for p, q in zip(r1, r2) if p != q][:2]
        fail(f'the parameters differ: {d}')
    if ra[3] != rb[3]:
        fail(f'the position marks of the source map differ: {ra[3]} and {rb[3]}')
    n = sum(len(ps) for row in ra[2] for ps in row)
    ctx.count('params_compared', n)
    if a != b and sum(map(len, ra[2])) >= 2:
        ctx.nontrivial(a + '\0' + b)


def run_case(kind, index, rng, ctx):
    if kind == 'imports':
        return imports(rng, ctx)
    if kind == 'hand':
        src = hand.PROGRAMS[index % len(hand.PROGRAMS)]
        toks = retokenize(src)
    elif kind == 'macros':
        toks = progs.with_macros(rng, tokens_only=True)
    elif kind == 'bound':
        toks = progs.make(rng, rng.choice(['tiny', 'tiny', 'mixed', 'tinydeep']), routines=1)[0]
    else:
        toks = progs.make(rng)[0]
    if kind == 'lits':
        toks, _ = check_c18.densify(toks, rng, 0.15)
        toks = [x for t in toks for x in richer(t, rng)]
    try:
        a = gen_prog.render(toks, rng, 'pretty', False)
    except lang.LangError:
        raise Skip('not rendered')
    a = re.sub(r'/\* open end$', '', a)
    ra = result(a)
    if kind == 'bound':
        return boundaries(toks, a, ra, rng, ctx)
    for style, rich in (('random', True), ('dense', True), (rng.choice(progs.STYLES + ['random']), rng.random() < 0.7)):
        b = gen_prog.render(toks, rng, style, rich)
        if rng.random() < 0.3:
            b = rng.choice(['//?: name: x\n', '// c\n', '/* c */', '\n', ' ', '\\\n', '//?: is-ssb-script: false\n', '\t', '//?:\n']) + b
        compare(a, b, ra, ctx)
        ctx.count('pairs')
        stats(a, b, ctx)
    if index < 1:
        ctx.sample({'one': a[:500], 'other': b[:700]})


def stats(a, b, ctx):
    try:
        ta, tb = lang.tokenize(a)[:-1], lang.tokenize(b)[:-1]
    except lang.LangError:
        return
    sa, sb = {t.t for t in ta}, [t.t for t in tb]
    ctx.count('respelled_tokens', sum(1 for t in sb if t not in sa))
    for x, y in zip(tb, tb[1:]):
        if x.end == y.pos:
            ctx.saw('token_pairs', short(x) + ' ' + short(y))


def short(t):
    return t.k if t.k not in ('kw', 'op') else t.t


def richer(t, rng):
    """literals whose spellings differ more: big and negative numbers, fractions, strings with quotes and line breaks"""
    if t[0] == 'i' and rng.random() < 0.0:
        return [t]
    if t[0] == 'd':
        return [('d', rng.random() < 0.4, rng.choice([0, 0, 0, 1, 7, 10, 100, 255]), rng.choice(['5', '0', '05', '50', '125', '0625', '00']))]
    if t[0] == 's':
        return [('s', rng.choice(STRINGS))]
    return [t]


STRINGS = ['a', '', "it's", 'say "hi"', 'two\nlines', 'a\n b\nc', "'", '"', 'x\n', '\nx', ' lead', 'trail ', '// no', '/* no */', '%s{x}', 'é✓😀', "mix'\"",
           "'''", 'a\n\nb', '\t', "Position<'a', 1, 2>", 'case 1:', '\\', 'back\\slash', '\\x']


def retokenize(src):
    out = []
    p = None
    toks = lang.tokenize(src)[:-1]
    for i, t in enumerate(toks):
        if t.k == 'int':
            out.append(('i', lang.int_value(t.t)))
        elif t.k == 'dec':
            neg, w, fr = lang.dec_value(t.t)
            out.append(('w', t.t))
        elif t.k in ('str', 'mstr'):
            v = lang.str_value(t)
            name = p is not None and p == '<'
            imp = p == 'import'
            out.append(('w', t.t) if imp else ('s1' if name else 's', v))
        elif t.t in ('@', '§') and i and toks[i - 1].t in (';', '{', '}', ':'):
            out.append(('ldef',))
        else:
            out.append(('w', t.t))
        p = t.t
    return out


# ---------------------------------------------------------------- every boundary
def boundaries(toks, a, ra, rng, ctx):
    if ra[0] != 'ok':
        raise Skip('rejected')
    try:
        ts = lang.tokenize(a)[:-1]
    except lang.LangError:
        raise Skip('not readable by the reference')
    if len(ts) > 70:
        raise Skip('too long')
    for i in range(len(ts) + 1):
        for sep in rng.sample(SEPS, 3):
            pre = a[:ts[i].pos] if i < len(ts) else a
            post = a[ts[i].pos:] if i < len(ts) else ''
            last = i == len(ts)
            if last and rng.random() < 0.5:
                sep = rng.choice(['//', '// c', '/*', '/* open', '\\\n', '\\\r', ' ', '/* " ', "// '"])
            if i and pre[-1:] and sep[0] == '/' and pre[-1] in '/':
                sep = ' ' + sep
            if sep.startswith('//?:') and i == 0:
                sep = '//?: name: y\n'
            b = pre + sep + post
            compare(a, b, ra, ctx)
            ctx.count('boundaries')
            ctx.saw('separators', sep)
            if i and not last:
                ctx.saw('token_pairs', short(ts[i - 1]) + ' ' + short(ts[i]))
        # no separator at all, where the tokens stay two tokens
        if 0 < i < len(ts) and gen_prog.glue_ok(ts[i - 1].t, ts[i].t):
            b = a[:ts[i - 1].end] + a[ts[i].pos:]
            compare(a, b, ra, ctx)
            ctx.count('boundaries')


# ---------------------------------------------------------------- several files
def imports(rng, ctx):
    from . import check_c05
    ms, main = check_c05.program(rng)
    with layout.Scratch() as root:
        lay = layout.spread(rng, root, ms, main, style='pretty')
        lay.write()
        ra = result(lay.files[lay.main], lay.main, list(lay.lookup))
        a = lay.show()
        # the same tokens again, in every file
        for p in lay.paths:
            try:
                toks = retokenize(lay.files[p])
                lay.files[p] = layout.norm_newlines(gen_prog.render(toks, rng, rng.choice(['random', 'dense']), rng.random() < 0.5))
            except lang.LangError:
                raise Skip('not rendered')
        lay.write()
        rb = result(lay.files[lay.main], lay.main, list(lay.lookup))
        compare(a, lay.show(), ra, ctx, rb)
        ctx.count('pairs')
