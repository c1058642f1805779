"""C18: the position-mark listing delimits every Position literal exactly."""
from . import env, gen_prog, hand, lang, progs, semcheck, ssb
from .core import Skip
from explorerscript.explorerscript_reader import ExplorerScriptReader
from explorerscript.ssb_converting.compiler.compiler_visitor.position_mark_visitor import PositionMarkVisitor

ID = 'C18'
RULE = ('programs with many uniquely named Position literals in every place that takes arguments (plain ops, ops in contexts, switch and if '
        'headers, for and while, macro bodies, macro-call arguments), laid out in every style, also ones that parse but mean nothing. The '
        'listing of the real visitor is compared with the spans an independent lexer finds and with the parameters the real compiler '
        'produces; then marks are replaced in place by printed edited marks and the programs before and after are compared op by op. '
        'Non-trivial: at least one literal; distinct by source.')
REQUIRE = {'listings': 4000, 'marks': 15000, 'edits': 4000, 'params_compared': 8000, 'multi_line_literals': 500, 'marks_in_macros': 500,
           'marks_in_macro_calls': 300, 'marks_in_headers': 300, 'listings_of_rejected': 300, 'literals_sharing_a_line': 3000}
CASE_LIMIT = 60
TIMEOUT_IS_VIOLATION = True
NAMES = ['m', 'mark_', 'a b', '', "it's", 'q"q', 'Position<', '>', 'é✓😀', 'tab\t', 'two\nlines', '// no', '/* ', ',', "''", '{}', '%s', 'x, 1, 2>']


def plan(tier, seed):
    k = 1 if tier == 'quick' else 15
    return [('prog', 2600 * k), ('macros', 1600 * k), ('broken', 900 * k), ('forms', 500 * k)]


# ---------------------------------------------------------------- sources
def densify(tokens, r, p=0.35):
    """numbers and constants in argument lists become Position literals; every literal gets a name of its own"""
    out, stack, n = [], [], 0
    i = 0

    def name():
        nonlocal n
        n += 1
        return r.choice(NAMES) + str(n) + '_'

    def mark():
        def a():
            v = r.choice([r.randrange(0, 60), r.randrange(0, 300), -r.randrange(1, 6)])
            return ('i', v) if r.random() < 0.6 else ('d', v < 0, abs(v), r.choice(['5', '5', '50', '0', '', '500', '00']))
        return [('w', 'Position'), ('w', '<'), ('s1', name()), ('w', ','), a(), ('w', ','), a(), ('w', '>')]
    while i < len(tokens):
        t = tokens[i]
        v = t[1] if t[0] == 'w' else None
        if v in ('(', '[', '{'):
            prev = next((x for x in reversed(out) if x[0] not in ('nl', 'in', 'out')), None)
            is_call = v == '(' and prev is not None and prev[0] == 'w' and (
                prev[1].startswith('~') or prev[1] == '>' or (prev[1].isidentifier() and prev[1] not in lang.KEYWORDS))
            stack.append(is_call and not in_header_of_macro(out))
            out.append(t)
        elif v in (')', ']', '}'):
            stack.pop()
            out.append(t)
        elif v == 'Position':
            j = i
            while tokens[j] != ('w', '>'):
                out.append(('s1', name()) if tokens[j][0] == 's1' else tokens[j])
                j += 1
            out.append(tokens[j])
            i = j
        elif stack and stack[-1] and (t[0] in ('i', 'd', 's') or v is not None and v[0].isalpha() and v not in lang.KEYWORDS) \
                and edge(out[-1]) and r.random() < p:
            out += mark()
        else:
            out.append(t)
        i += 1
    return out, n


def edge(t):
    return t[0] == 'w' and t[1] in ('(', ',')


def in_header_of_macro(out):
    ws = [x[1] for x in out[-3:] if x[0] == 'w']
    return 'macro' in ws[-2:]


FORMS = ['''def 0 {{ op({0}); }}''', '''def 0 {{
    op ( {0} , {1},{2}) ; op2({3});
}}''', '''macro m($a, $b) {{ op($a, {0}); ~n({1}); }}
macro n($x) {{ op2($x, {2}, $x); if ($x == 1) {{ op3({3}); }} }}
def 0 {{ ~m({4}, {5}); ~n({6}); ~m(1, {7}); }}''', '''def 0 for actor A {{ with (actor B) {{ op({0}); }} op<object C>({1}); }}
def 1 {{ switch ( op({2}, {3}) ) {{ case 1: op({4}); case 2: op({5}); break; default: op({6}); }} }}''',
         '''def 0 {{ if ( BranchSum({0}, 1, 2) ) {{ op({1}); }} elseif not ( debug ) {{ op({2}); }} else {{ op({3}); }} }}''',
         '''def 0 {{ for ( op({0}); $X < 3; op({1}); ) {{ op({2}); }} while ( not BranchSum({3}, 1, 2) ) {{ op({4}); }} }}''',
         '''def 0 {{ for ( op({0}); $X < 3; $X += 1; ) {{ op({1}); }} forever {{ op({2}); break_loop; }} }}''',
         '''coro A {{ message_SwitchTalk ( 3 ) {{ case 1: "x" default: "y" }} op({0}, "Position<'no', 1, 2>", {1}); /* Position<'c', 1, 2> */ }}
coro B {{ // Position<'c', 1, 2>
op({2}) ; alias_op({3}); }}''',
         '''import "{{nowhere}}";
def 0 {{ op({0}); jump @nowhere; }}''']


def literal(r, i):
    s = [r.choice(['', '', ' ', '\n', '  \n ', '/* c */', '\t', ' // c\n']) for _ in range(7)]
    v = r.choice(NAMES) + str(i) + '_'
    q = gen_prog.spell_str(v, r, True, True)
    if q is None:
        q = f"'m{i}_'"

    def a():
        return r.choice(['0', '1', '17', '0x1F', '0b11', '0o17', '007.5', '2.5', '3.50', '4.0', '.5', '-1', '-2.5', '300', '0.5', '00012.500', '1.'])
    while True:
        t = f'Position{s[0]}<{s[1]}{q}{s[2]},{s[3]}{a()}{s[4]},{s[5]}{a()}{s[6]}>'
        try:
            lang.parse('def 0 { op(' + t + '); }')
            return t
        except lang.LangError:
            pass


def source(kind, rng, ctx):
    if kind == 'forms':
        f = rng.choice(FORMS)
        return f.format(*[literal(rng, i) for i in range(8)])
    if kind == 'macros' or kind == 'broken' and rng.random() < 0.5:
        toks = progs.with_macros(rng, tokens_only=True)
    else:
        toks = progs.make(rng, routines=None)[0]
    toks, n = densify(toks, rng, rng.choice([0.1, 0.35, 0.7]))
    if kind == 'broken':
        toks = spoil(toks, rng)
    return gen_prog.render(toks, rng, rng.choice(progs.STYLES + ['random']), rng.random() < 0.5)


def spoil(toks, rng):
    """still a parsable program, but one the compiler may reject"""
    at = [i for i, t in enumerate(toks) if t == ('w', ';') and (i == 0 or toks[i - 1] != ('w', 'previous'))]
    bad = [['jump', '@', 'nowhere', ';'], ['break', ';'], ['continue', ';'], ['break_loop', ';'], ['~nobody', '(', ')', ';'], ['return', ';']]
    depth = 0
    good = []
    for i, t in enumerate(toks):
        if t == ('w', '('):
            depth += 1
        elif t == ('w', ')'):
            depth -= 1
        elif i in at and depth == 0:
            good.append(i)
    for _ in range(rng.choice([1, 2])):
        if good:
            i = rng.choice(good)
            good = [g for g in good if g < i]
            toks = toks[:i + 1] + [('w', x) for x in rng.choice(bad)] + toks[i + 1:]
    return toks


# ---------------------------------------------------------------- monitors
def fields(m):
    return (m.line_number, m.column_number, m.end_line_number, m.end_column_number, m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative)


def listing(text):
    return PositionMarkVisitor().visit(ExplorerScriptReader(text).read())


def expected(text):
    p = lang.Parser(text)
    p.parse()
    out = []
    for t, e, v in p.positions:
        if any(isinstance(x, str) for x in v[2:4]):
            raise Skip('a coordinate the compiler rejects')
        out.append((t, e, v))
    return out


def same_listing(got, want, fail, what):
    a = [fields(m) for m in got]
    b = []
    for t, e, v in want:
        _, name, xo, yo, xr, yr = v
        b.append((t.line, t.col, e.line, e.col, name, xo, yo, xr, yr))
    if len(a) != len(b):
        fail(f'{what}: {len(a)} entries for {len(b)} Position literals: listed {[x[4] for x in a]}, in the text {[x[4] for x in b]}')
    for x, y in zip(a, b):
        if x != y:
            fail(f'{what}: entry {x}, expected {y} (line, column, end line, end column, name, x and y offset, x and y)')


def run_case(kind, index, rng, ctx):
    try:
        src = source(kind, rng, ctx)
    except lang.LangError:
        raise Skip('not rendered')
    fail = semcheck.failer(source=src)
    try:
        want = expected(src)
    except lang.LangError:
        raise Skip('not readable by the reference')
    try:
        tree = ExplorerScriptReader(src).read()
    except env.ParseError:
        raise Skip('does not parse')
    v = PositionMarkVisitor()
    try:
        got = v.visit(tree)
    except Exception as e:
        fail(f'the listing fails: {type(e).__name__}: {e}')
    same_listing(got, want, fail, 'listing')
    same_listing(v.visit(tree), want, fail, 'listing again with the same visitor')
    ctx.count('listings')
    ctx.count('marks', len(want))
    lines = [t.line for t, _, _ in want]
    ctx.count('literals_sharing_a_line', len(lines) - len(set(lines)))
    ctx.count('multi_line_literals', sum(t.line != e.line for t, e, _ in want))
    places(src, want, ctx)
    if want:
        ctx.nontrivial(src)
    if index < 1:
        ctx.sample(src[:800])
    names = [v[1] for _, _, v in want]
    if len(set(names)) != len(names):
        raise Skip('names are not unique')
    try:
        comp = env.compile_text(src)
    except Exception:
        ctx.count('listings_of_rejected')
        return
    base = dump(comp)
    by = {v[1]: v for _, _, v in want}
    for row in base[2]:
        for _, _, ps in row:
            for p in ps:
                if p[0] == 'mark':
                    if p[1] not in by:
                        fail(f'the compiler makes a mark {p} that is not listed')
                    w = by[p[1]]
                    if p[2:] != w[2:]:
                        fail(f'the compiler makes the mark {p[1:]} of the literal listed as {w[1:]}')
                    ctx.count('params_compared')
    if not want:
        return
    for _ in range(2):
        i = rng.randrange(len(want))
        edit(src, got, [i], names, base, rng, ctx, fail)
    if len(want) > 1:
        edit(src, got, list(range(len(want))), names, base, rng, ctx, fail)


def places(src, want, ctx):
    """where the literals stand (statistics)"""
    toks = [t for t in lang.tokenize(src)]
    starts = {(t.line, t.col) for t, _, _ in want}
    stack, macro = [], False
    for i, t in enumerate(toks):
        if t.t == 'macro':
            macro = True
        elif t.t in ('def', 'coro'):
            macro = False
        elif t.t == '(':
            stack.append(toks[i - 1].t)
        elif t.t == ')' and stack:
            stack.pop()
        if t.t == 'Position' and (t.line, t.col) in starts:
            if macro:
                ctx.count('marks_in_macros')
            if stack and stack[-1].startswith('~'):
                ctx.count('marks_in_macro_calls')
            if len(stack) > 1:
                ctx.count('marks_in_headers')


def param(p):
    if isinstance(p, env.SsbOpParamPositionMarker):
        return ('mark', p.name, p.x_offset, p.y_offset, p.x_relative, p.y_relative)
    return ssb.canon(p)


def dump(c):
    infos = [(i.type.name, i.linked_to, i.linked_to_name) for i in c.routine_infos]
    return (infos, list(c.named_coroutines), [[(o.offset, o.op_code.name, [param(p) for p in o.params]) for o in ops] for ops in c.routine_ops])


def edit(src, got, which, names, base, rng, ctx, fail):
    text = src
    starts = [0]
    for i, ch in enumerate(src):
        if ch == '\n':
            starts.append(i + 1)
    new = {}
    for i in sorted(which, reverse=True):
        m = got[i]
        p = env.SsbOpParamPositionMarker(names[i] if rng.random() < 0.5 else f'edited {i}' + rng.choice(["'", '"', '', 'é']),
                                         rng.choice([0, 2]), rng.choice([0, 2]), rng.choice([0, 1, 250, -3, 40]), rng.choice([0, 7, 99, -1]))
        a = starts[m.line_number] + m.column_number
        b = starts[m.end_line_number] + m.end_column_number
        text = text[:a] + str(p) + text[b + 1:]
        new[names[i]] = param(p)
    f2 = semcheck.failer(source=src, edited=text)
    try:
        comp = env.compile_text(text)
    except Exception as e:
        f2(f'the program with the marks {[names[i] for i in which]} edited in place is rejected: {type(e).__name__}: {e}')
    want = (base[0], base[1], [[(o, n, [new.get(p[1], p) if p[0] == 'mark' else p for p in ps]) for o, n, ps in row] for row in base[2]])
    have = dump(comp)
    if have != want:
        diff = [(w, h) for wr, hr in zip(want[2], have[2]) for w, h in zip(wr, hr) if w != h][:3]
        f2(f'editing the marks {[names[i] for i in which]} in place changes more (or less) than these parameters: {diff}')
    same_listing(listing(text), expected(text), f2, 'listing of the edited text')
    ctx.count('edits')
