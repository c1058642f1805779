"""C10: compilation fails only in documented ways and rejects meaningless programs."""
import json
import os
import subprocess
import sys
from . import check_c07, check_c17, env, gen_prog, gen_ssb as gs, hand, lang, layout, progs, sem, semcheck
from .core import Skip, Violation
from antlr4 import InputStream
from explorerscript.antlr.SsbScriptLexer import SsbScriptLexer

ID = 'C10'
RULE = ('texts of every kind - random characters, token-level and statement-level corruptions of valid programs in both languages, '
        'degenerate routines, deep nestings, import graphs - go through the real compiler; only ParseError, SsbCompilerError and '
        'ValueError may come out. Programs that a reference model, or their construction, shows to be meaningless must be refused and '
        'leave no ops behind. Non-trivial: an accepted text of more than 20 characters; distinct by text.')
REQUIRE = {'accepted': 1500, 'ParseError': 5000, 'SsbCompilerError': 1500, 'ValueError': 40, 'must_reject': 2500, 'import_graphs': 800,
           'import_cycles': 150, 'seen:reasons': 11, 'seen:form_in_context': 300, 'deep': 30, 'cli_runs': 20}
CASE_LIMIT = 60
TIMEOUT_IS_VIOLATION = True
MARKER = '//?: is-ssb-script: true\n'
ASSUMPTIONS = ['forms the property does not list (duplicate labels, message switches without cases, ...) are not demanded to be refused',
               'characters the language does not know: only the exception type is judged']
LISTED = ['break outside case', 'continue outside loop', 'break_loop outside loop', 'undefined labels', 'switch ends in empty case', 'two defaults',
          'statements in message switch', 'label in with', 'not on bit test', 'unknown macro', 'recursive macro', 'too few macro args']


def plan(tier, seed):
    k = 1 if tier == 'quick' else 15
    return [('chars', 400 * k), ('tokens', 5000 * k), ('stmts', 5000 * k), ('ssbs', 2500 * k), ('form', len(FORMS) * (8 if k == 1 else 40)),
            ('imports', 1200 * k), ('degenerate', 1200 * k), ('deep', 60 * k), ('cli', 24 * k)]


def setup(ctx):
    sys.setrecursionlimit(1000)  # what Python programs have


# ------------------------------------------------------------------ the two oracles
def attempt(src, ctx, name='main.exps', lookup=None, shown=None, compiler=None):
    """None if accepted, otherwise the documented exception"""
    fail = semcheck.failer(text=shown or src)
    c = compiler or env.ExplorerScriptSsbCompiler(env.PERF, lookup or [])
    try:
        c.compile(src, name)
    except env.DOCUMENTED as e:
        ctx.count(type(e).__name__ if type(e) in env.DOCUMENTED else 'ValueError')
        if c.routine_ops is not None:
            fail(f'refused with {type(e).__name__}, but there are ops')
        if len(src) > 60:
            ctx.sample(f'{type(e).__name__}: {src[:150]}')
        return e
    except Exception as e:
        fail(f'compile() raises {type(e).__name__}: {str(e)[:200]}')
    ctx.count('accepted')
    if c.routine_ops is None or c.routine_infos is None or c.named_coroutines is None or c.source_map is None:
        fail('accepted, but a result is missing')
    if len(src) > 20:
        ctx.nontrivial(src)
        ctx.sample(src[:200])
    return None


def reason(src):
    """why the text is meaningless according to the reference model, None if it is not (or not known)"""
    try:
        ast = lang.parse(src)
    except lang.LangError:
        return None
    except RecursionError:
        return None
    ref = sem.Ref(ast, env.PERF)
    try:
        ref.build()
        done = {f[-1][1] for f in ref.frames}
        for name, (d, _) in ref.macros.items():
            if name not in done:
                ref.mcall(Uncalled(name, [('const', f'A{i}') for i in range(len(d.params))]), sem.off_end(), sem.Scope())
    except sem.Meaningless as e:
        return next((r for r in LISTED if str(e).startswith(r)), None)
    return None


class Uncalled:
    def __init__(self, name, args):
        self.name, self.args, self.pos = name, args, (0, 0)


def judge(src, ctx, why=None):
    why = why or reason(src)
    e = attempt(src, ctx)
    if why is not None:
        ctx.count('must_reject')
        ctx.saw('reasons', why)
        if e is None:
            raise Violation(f'a meaningless program is accepted ({why})', {'text': src})
        ctx.nontrivial(src)
    return e


# ------------------------------------------------------------------ corruptions
def tokens_of(src):
    return [t.t for t in lang.tokenize(src)[:-1]]


POOL = sorted(lang.KEYWORDS) + ['{', '}', '(', ')', ';', ',', ':', '@', '§', '<', '>', '[', ']', '=', '-=', '==', '&', '&<<', '||', '0', '1', '-1', '70000',
                               '99999999999', '0x10', '1.5', '-.5', '.25', '"a"', "'b'", "'''c'''", '"""d\n  e"""', 'a', 'b', '$x', '~m', '~m0', 'Position',
                               'Null', 'Jump', 'End', 'actor', 'object', 'SwitchScenario', 'Case', 'english', 'l0', 'PERFORMANCE_PROGRESS_LIST']


def corrupt(t, r, pool=POOL):
    for _ in range(r.choice([1, 1, 1, 1, 2, 3, 6])):
        if not t:
            break
        j, q = r.randrange(len(t)), r.randrange(len(t))
        k = r.randrange(10)
        if k < 2:
            del t[j]
        elif k < 3:
            t.insert(j, t[q])
        elif k < 5:
            t[j] = r.choice(pool)
        elif k < 6:
            t[j] = t[q]
        elif k < 7:
            t.insert(j, r.choice(pool))
        elif k < 8:
            t[j], t[q] = t[q], t[j]
        elif k < 9:
            # the same kind of thing in another place: literals and names only
            like = [i for i, x in enumerate(t) if x[0].isalnum() or x[0] in '$"\'-.~']
            if like:
                t[r.choice(like)] = r.choice(['0', '1', '-1', '1.5', 'x', '$x', '"s"', '0b1', '99999999999999999999', '-0', '007', '0x'])
        elif r.random() < 0.3:
            t = t[:j] if r.random() < 0.7 else t[j:]
        else:
            del t[j:j + r.choice([1, 2, 3, 5])]
    return t


def join(t, r):
    return r.choice([' ', ' ', '\n']).join(t)


STMTS = ['break;', 'continue;', 'break_loop;', 'return;', 'end;', 'hold;', 'jump @nowhere;', 'call @nowhere;', 'jump @l0;', '@l0;', '@nowhere;', '~m0();', '~m1(1);',
         '~unknown(1, 2);', 'a();', 'with (actor A) { b(); }', 'with (actor A) { @in_with; }', 'if (debug) { break; }', 'if not (not $v[3]) { a(); }',
         'if (not $v[3]) { a(); } else { }', 'while (not $v[0]) { continue; }', 'switch ($v) { }', 'switch ($v) { case 1: }', 'switch ($v) { default: }',
         'switch ($v) { case 1: a(); case 2: }', 'switch ($v) { default: a(); default: b(); }', 'switch ($v) { case 1: a(); break; default: }',
         'message_SwitchTalk ($v) { case 1: a(); }', "message_SwitchMonologue ($v) { case 1: 'x' default: b(); }", 'message_SwitchTalk ($v) { }',
         "message_SwitchTalk ($v) { default: 'a' default: 'b' }", "switch ($v) { case 1: 'text' }", 'switch (~m()) { }', 'forever { }', 'forever { break_loop; }',
         'for ($i = 0; $i < 3; $i += 1;) { continue; }', 'for (continue; $i < 3; break;) { }', 'for (@l9; debug; break_loop;) { jump @l9; }', 'if (a<actor B>()) { }',
         'switch (a<actor B>()) { case 1: a(); }', 'a<foo 1>();', 'with (foo 1) { a(); }', 'scn($v) = scn[1, 2];', '$v[1] = 0;', '$v[1] += 2;', '$v[-1] = 1;',
         'reset scn($v);', '$v = value(3);', 'init 1.5;', 'dungeon_mode(1) = 3;', 'adventure_log = "a";', 'if (scn($v) == [-1, 2]) { }', 'if (scn($v) & [1, 2]) { }',
         'if (scn($v) != [1, 0]) { a(); }', 'if (scn($v) > [1, 2]) { a(); } elseif (scn(5) <= [1, 300]) { break; }', 'switch (scn($v)[2]) { case 1: a(); }',
         'switch (scn($v)[0]) { case > 1: a(); case menu("x"): b(); default: break; }', 'switch (random(0)) { case value(3): a(); case > value(3): a(); }',
         'switch (sector()) { case menu2(5): a(); }', 'Jump(1);', 'Branch($x, 1);', 'Call();', 'Case(1);', 'CaseMenu("a", 2);', 'Switch();', 'DefaultText("a");', 'lives(A);',
         'lives();', 'End(1, 2);', 'jump @a; @a; @b; @c;', 'a(Position<"m", 1.25, 3>);', 'a(Position<"m", 1.5, .5>, -1.5, {english="x"});', 'a({x="1", x="2"});',
         'if (Branch(1)) { }', 'if (Jump(1) || debug || not edit) { a(); }', 'if (BranchBit($x, 3)) { a(); }', 'while (debug) { } break;', 'if not (not debug) { }',
         'a(0x);', 'a(-);', 'a(1.);', 'a(..5);', 'a(007);', 'a(08);', 'a(-0b1, 0O7);', 'a(1e5);', "a('\\x');", 'a("\\");', 'if (1 == 1) { }', 'if (PERFORMANCE_PROGRESS_LIST[1]) { a(); }',
         'if (not PERFORMANCE_PROGRESS_LIST[1]) { a(); }', 'if (1.5 == value(.5)) { a(); }', '1 = 2;', '1.5 = value(1.5);', '~m0(@l0);', '~m0(Position<"a", 1, 2>, 1, 1);']


def insertion_points(t):
    return [0] + [i + 1 for i, x in enumerate(t) if x in (';', '{', '}', ':')]


def statement_level(src, r):
    t = tokens_of(src)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        ps = insertion_points(t)
        i = r.choice(ps)
        k = r.random()
        if k < 0.6:
            s = r.choice(STMTS)
            try:
                s = tokens_of(s)
            except lang.LangError:
                s = [s]
            t[i:i] = s
        elif k < 0.8:
            # a piece of the program somewhere else
            j = next((p for p in ps if p > i), i)
            piece = t[i:j]
            if r.random() < 0.5:
                del t[i:j]
            i = r.choice(insertion_points(t))
            t[i:i] = piece
        elif k < 0.9:
            j = next((p for p in ps if p > i), i)
            del t[i:j]
        else:
            # a block is unwrapped
            opens = [i for i, x in enumerate(t) if x == '{']
            if opens:
                o = r.choice(opens)
                d = 0
                for c in range(o, len(t)):
                    d += (t[c] == '{') - (t[c] == '}')
                    if d == 0:
                        st = max((p for p in insertion_points(t) if p <= o), default=0)
                        t = t[:st] + t[o + 1:c] + t[c + 1:]
                        break
    return join(t, r)


def ssbs_text(r):
    us = check_c07.any_set(r) if r.random() < 0.8 else check_c07.text_set(r)
    infos, ops, coros = gs.finish(us, r)
    if r.random() < 0.6:
        infos, coros = check_c07.mixed_infos(r, len(ops))
    return env.decompile_ssbs(infos, ops, coros)[0]


SSBS_BODY = ['alias previous;', '@a;', 'Jump(@a);', 'Jump(@nowhere);', 'a();', 'a<actor 1>();', '@a; @a;', 'a(@a, @b);', 'a(Position<"x", 1.3, 2>);', 'a({english="b", x=\'\'\'c\'\'\'});',
             'Jump(1); @z;', 'Jump(@z); @z;', 'a(1, -0x5, 007);', 'a(1.5, -.0, $v);', '', 'Jump(@y, 1);']


def ssbs_case(r, ctx):
    k = r.random()
    if k < 0.7:
        t = [x.text for x in SsbScriptLexer(InputStream(ssbs_text(r))).getAllTokens()]
        if len(t) > 600:  # pathological sizes only cost time
            t = t[:600]
        if r.random() < 0.9:
            t = corrupt(t, r)
        attempt(r.choice([MARKER, MARKER, '//?:is-ssb-script:1\n']) + join(t, r), ctx)
        ctx.count('ssbs_corruptions')
        return
    heads = ['def 0', 'def 1', 'def 2', 'coro A', 'def 0 for actor 1', 'def 0 for_object X', 'def 1 for performer (X)', 'def 0 for banana 1', 'def -1', 'def 0 for actor',
             'def 5', 'coro', 'def 0x1', 'def 99999999999', 'def 70000', 'def -2 for actor 1', 'def 0 for actor 1.5', 'def 007', 'def 0 for for_actor X']
    bad = None
    parts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        body = ' '.join(r.choice(SSBS_BODY) for _ in range(r.choice([1, 1, 2, 3])))
        parts.append(f'{r.choice(heads)} {{ {body} }}')
    src = MARKER + '\n'.join(parts)
    if 'Jump(@nowhere);' in src:
        bad = 'undefined labels'
    e = attempt(src, ctx)
    ctx.count('ssbs_forms')
    if bad:
        ctx.count('must_reject')
        if e is None:
            raise Violation(f'a meaningless program is accepted ({bad})', {'text': src})


# ------------------------------------------------------------------ listed forms in every context
# (reason, statement, top level text, needs: no case around / no loop around)
FORMS = []
for _s in ['break;', 'if (debug) { break; }', 'forever { break; }', 'switch ($v) { case 1: a(); } break;', 'switch ($v) { default: a(); break; } if (edit) { b(); } else { break; }',
           "message_SwitchTalk ($v) { case 1: 'a' } break;", 'while (debug) { break; }', 'for ($i = 0; debug; $i += 1;) { break; }', 'switch ($v) { case 1: break; } break;',
           'switch ($v) { case 1: switch ($w) { case 2: break; } break; } break;', 'with (actor A) { break; }', 'switch ($v) { } break;',
           'if (debug) { } elseif (edit) { break; }', 'if not (debug) { a(); } else { break; }', '@l; break; jump @l;']:
    FORMS.append(('break outside case', _s, '', 'case'))
for _w in ['continue', 'break_loop']:
    for _s in ['{};', 'if (debug) {{ {}; }}', 'forever {{ a(); }} {};', 'while (debug) {{ break_loop; }} {};', 'for ($i = 0; debug; $i += 1;) {{ continue; }} {};',
               'switch ($v) {{ case 1: {}; }}', 'switch ($v) {{ default: forever {{ break_loop; }} {}; }}', 'if (debug) {{ a(); }} else {{ {}; }}',
               'forever {{ forever {{ break_loop; }} break_loop; }} {};', 'with (object B) {{ {}; }}', 'if not (debug) {{ forever {{ }} }} elseif (edit) {{ {}; }}']:
        FORMS.append((f'{_w} outside loop', _s.format(_w), '', 'loop'))
for _w in ['jump', 'call']:
    for _s in ['{} @nowhere;', '@here; {} @nowhere;', 'if (debug) {{ {} @nowhere; }}', '{} @nowhere; @nowherf; jump @nowherf;', 'forever {{ {} @nowhere; }}',
               'switch ($v) {{ case 1: {} @nowhere; }}', 'with (actor A) {{ {} @nowhere; }}', 'end; {} @nowhere;', '@l; jump @l; {} @nowhere;',
               'if (debug) {{ a(); }} else {{ {} @nowhere; }}', 'while (debug) {{ break_loop; {} @nowhere; }}', 'switch ($v) {{ default: {} @nowhere; break; }}',
               'for ({} @nowhere; debug; a();) {{ }}', 'for (a(); debug; {} @nowhere;) {{ b(); }}']:
        FORMS.append(('undefined labels', _s.format(_w), '', None))
FORMS += [('undefined labels', 'jump @in_macro; ~mm();', 'macro mm() { @in_macro; a(); jump @in_macro; }', None),
          ('undefined labels', '@outside; ~mm(); jump @outside;', 'macro mm() { jump @outside; }', None),
          ('undefined labels', '@outside; a();', 'macro mm() { jump @outside; }', None),
          ('undefined labels', '~mm();', 'macro mm() { if (debug) { call @nowhere; } }', None),
          ('undefined labels', 'a();', 'macro mm() { forever { call @nowhere; } }', None),
          ('undefined labels', '~m2(1);', 'macro mm() { jump @x; } macro m2($a) { @x; ~mm(); jump @x; }', None),
          ('undefined labels', '~m2(1);', 'macro mm() { @x; a(); } macro m2($a) { ~mm(); jump @x; }', None)]
for _s in ['switch ($v) { case 1: }', 'switch ($v) { case 1: a(); case 2: }', 'switch ($v) { default: }', 'switch ($v) { case 1: a(); break; default: }',
           'switch ($v) { default: a(); case 1: }', 'switch ($v) { case 1: case 2: case 3: }', 'switch (scn($v)[1]) { case > 3: a(); case < 2: }',
           'switch (random(5)) { case 1: break; case 2: }', 'switch (foo()) { case menu("a"): a(); case menu2(3): }', 'switch (sector()) { default: a(); break; case value(3): }'
           .replace('case value(3)', 'case == value(3)'), 'switch (dungeon_mode(4)) { case 1: default: }', 'switch ($v) { case 1: switch ($w) { case 2: } }']:
    FORMS.append(('switch ends in empty case', _s, '', None))
for _s in ['switch ($v) { default: a(); default: b(); }', 'switch ($v) { default: a(); case 1: b(); default: c(); }', 'switch ($v) { case 1: a(); default: b(); break; default: c(); }',
           'switch ($v) { default: default: a(); }', "message_SwitchTalk ($v) { default: 'a' default: 'b' }", "message_SwitchMonologue (5) { default: 'a' case 1: 'c' default: 'b' }",
           'switch (random(3)) { default: end; case 2: hold; default: break; }', 'switch (sector()) { case 1: a(); default: b(); default: b(); default: c(); }',
           'switch ($v) { default: case 1: default: a(); }']:
    FORMS.append(('two defaults', _s, '', None))
for _s in ['message_SwitchTalk ($v) { case 1: a(); }', "message_SwitchTalk ($v) { case 1: 'a' case 2: b(); }", "message_SwitchMonologue ($v) { case 1: 'a' default: b(); }",
           'message_SwitchMonologue ($v) { default: break; }', "message_SwitchTalk (0) { case 1: a(); case 2: {english='b'} }", 'message_SwitchTalk ($v) { case 1: @l; }',
           "message_SwitchTalk ($v) { case 1: 'a' case 2: if (debug) { b(); } default: 'x' }", 'message_SwitchTalk ($v) { default: ~zero(); }',
           "message_SwitchTalk ($v) { case 1: return; default: 'a' }"]:
    FORMS.append(('statements in message switch', _s, 'macro zero() { a(); }', None))
for _s in ['with (actor A) { @in_with; }', 'with (object 3) { §in_with; }', 'with (performer $v) { @in_with; } jump @in_with;', 'jump @in_with; with (actor B) { @in_with; }',
           'call @in_with; with (actor B) { @in_with; } a();', 'if (debug) { with (actor A) { @in_with; } }']:
    FORMS.append(('label in with', _s, '', None))
for _s in ['if (not $v[3]) { a(); }', 'if not (not $v[3]) { a(); }', 'if (debug || not $v[3]) { a(); }', 'while (not $v[3]) { a(); }', 'while not (not ABC[0]) { a(); }',
           'if (debug) { a(); } elseif (not $v[1]) { b(); }', 'for ($i = 0; not $v[3]; $i += 1;) { a(); }', 'if (not 5[3]) { a(); }', 'if (not $v[3] || edit) { a(); } else { b(); }',
           'if (not $PERFORMANCE_PROGRESS_LIST[3]) { a(); }', 'if (not $v[0x0]) { }', 'if (PERFORMANCE_PROGRESS_LIST[1] || not PERFORMANCE_PROGRESS_LISTS[1]) { a(); }']:
    FORMS.append(('not on bit test', _s, '', None))
FORMS += [('not on bit test', '~mm($v);', 'macro mm($a) { if (not $a[2]) { a(); } }', None), ('not on bit test', 'a();', 'macro mm($a) { while (not $b[2]) { a(); } }', None)]
for _s in ['~unknown();', '~unknown(1, $v, "a");', 'if (debug) { ~unknown(); }', '~zero(); ~unknown();', 'end; ~unknown();', 'forever { ~Zero(); }', 'switch ($v) { case 1: ~unknown(1); }',
           'for (a(); debug; a();) { ~unknown(); }', 'if (debug) { } elseif (edit) { ~unknown(3); }']:
    FORMS.append(('unknown macro', _s, 'macro zero() { a(); }', None))
FORMS += [('unknown macro', '~mm();', 'macro mm() { ~nowhere(); }', None), ('unknown macro', 'a();', 'macro mm() { if (debug) { ~nowhere(); } }', None),
          ('unknown macro', '~m2();', 'macro mm() { a(); } macro m2() { ~mm(); ~m3(1); }', None), ('unknown macro', 'a();', 'macro mm($a) { ~a(); }', None),
          ('recursive macro', '~mm();', 'macro mm() { ~mm(); }', None), ('recursive macro', 'a();', 'macro mm() { a(); ~mm(); }', None),
          ('recursive macro', '~mm();', 'macro mm() { ~m2(); } macro m2() { ~mm(); }', None), ('recursive macro', 'a();', 'macro mm() { ~m2(); } macro m2() { if (debug) { ~mm(); } }', None),
          ('recursive macro', '~zz();', 'macro mm() { ~m2(); } macro m2() { ~m3(); } macro m3() { ~mm(); } macro zz() { a(); }', None),
          ('recursive macro', '~zz();', 'macro zz() { ~mm(1); } macro mm($a) { ~m2(); ~m2(); } macro m2() { ~m3(); } macro m3() { a(); ~m4(); ~m2(); } macro m4() { b(); }', None),
          ('recursive macro', '~zz();', 'macro zz() { switch ($v) { case 1: forever { ~zz(); } } }', None),
          ('recursive macro', '~zz();', 'macro zz() { ~a1(); ~a2(); } macro a1() { ~a3(); } macro a2() { ~a3(); } macro a3() { ~a4(); } macro a4() { ~a2(); }', None),
          ('too few macro args', '~mm();', 'macro mm($a) { b($a); }', None), ('too few macro args', '~mm(1);', 'macro mm($a, $b) { b($a); }', None),
          ('too few macro args', '~mm(1, 2);', 'macro mm($a, $b, $c) { a(); }', None), ('too few macro args', 'if (debug) { ~mm(1); }', 'macro mm($a, $b) { b(); }', None),
          ('too few macro args', '~m2();', 'macro mm($a) { b($a); } macro m2() { ~mm(); }', None), ('too few macro args', 'a();', 'macro mm($a) { b($a); } macro m2() { ~mm(); }', None),
          ('too few macro args', '~m2(1, 2, 3);', 'macro mm($a, $b) { b($a); } macro m2($c, $d, $e) { ~mm($c); }', None), ('too few macro args', '~mm(1, 2); ~mm(1);', 'macro mm($a, $b) { b($a); }', None),
          ('too few macro args', 'switch ($v) { case 1: ~mm(3,); }', 'macro mm($a, $b) { b($a); }', None),
          ('break outside case', 'switch ($v) { case 1: ~mm(); }', 'macro mm() { break; }', None), ('continue outside loop', 'forever { ~mm(); }', 'macro mm() { continue; }', None),
          ('break_loop outside loop', 'while (debug) { ~mm(); }', 'macro mm() { if (edit) { break_loop; } }', None), ('break outside case', 'a();', 'macro mm() { break; }', None),
          ('break_loop outside loop', 'a();', 'macro mm() { break_loop; } macro m2() { b(); }', None)]

# name, text around the statement, is there a case / a loop
WRAPS = [('plain', '{}', False, False), ('first', '{} z();', False, False), ('last', 'y(); {}', False, False), ('if', 'if (debug) {{ {} }}', False, False), ('ifnot', 'if not ($x == 2) {{ y(); {} }} z();', False, False),
         ('elseif', 'if (debug) {{ y(); }} elseif ($x > 1 || edit) {{ {} }}', False, False), ('else', 'if (debug) {{ y(); }} else {{ {} }}', False, False),
         ('case', 'switch ($q) {{ case 1: y(); {} z(); }}', True, False), ('case2', 'switch ($q) {{ case 0: case 1: {} y(); case 2: z(); }}', True, False),
         ('default', 'switch (random(4)) {{ case 1: y(); break; default: {} z(); }}', True, False), ('forever', 'forever {{ {} }}', False, True), ('while', 'while ($x < 5) {{ y(); {} }}', False, True),
         ('whilenot', 'while not (debug) {{ {} y(); }}', False, True), ('for', 'for ($x = 0; $x < 5; $x += 1;) {{ {} y(); }}', False, True), ('dead', 'end; {}', False, False),
         ('afterlabel', '@before; {} jump @before;', False, False)]
HOLDERS = [('def', '{m} def 0 {{ {s} }}'), ('second', '{m} def 0 {{ y(); }} def 1 {{ {s} }}'), ('first', 'def 0 {{ {s} }} def 1 {{ y(); end; }} {m}'), ('coro', '{m} coro AA {{ {s} }} coro BB {{ y(); }}'),
           ('actor', '{m} def 0 for actor 3 {{ {s} }}'), ('object', 'def 0 {{ hold; }} {m} def 1 for_object (OBJ) {{ {s} }}'), ('macro', '{m} macro hh() {{ {s} }} def 0 {{ ~hh(); }}'),
           ('uncalled', '{m} macro hh() {{ {s} }} def 0 {{ y(); }}'), ('nested', 'macro hh() {{ ~h2(1); }} {m} def 0 {{ ~hh(); }} macro h2($hh) {{ {s} }}'),
           ('macroonly', '{m} macro hh() {{ {s} }}'), ('performer', '{m} def 0 for performer 1 {{ {s} }} def 1 {{ alias previous; }}')]


def form_case(index, r, ctx):
    why, s, m, without = FORMS[index % len(FORMS)]
    names = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        n, w, case, loop = r.choice(WRAPS)
        if (without == 'case' and case) or (without == 'loop' and loop) or (n == 'afterlabel' and n in names):
            continue
        s = w.format(s)
        names.append(n)
    hn, h = r.choice(HOLDERS)
    src = h.format(m=m, s=s)
    if r.random() < 0.5:
        src = gen_prog_style(src, r)
    ref = reason(src)
    if ref is None:
        raise RuntimeError('the reference model accepts ' + src)
    ctx.saw('form_in_context', (index % len(FORMS), hn, tuple(names)))
    c = None
    if r.random() < 0.4:
        # with a compiler that has compiled something before: nothing of it may be left
        c = env.ExplorerScriptSsbCompiler(env.PERF, [])
        c.compile('def 0 { a(); }', 'main.exps')
    e = attempt(src, ctx, compiler=c)
    ctx.count('must_reject')
    ctx.saw('reasons', why)
    if e is None:
        raise Violation(f'a meaningless program is accepted ({why})', {'text': src})
    ctx.nontrivial(src)


def gen_prog_style(src, r):
    out = []
    for t in tokens_of(src):
        out.append(t)
        out.append(r.choice([' ', ' ', '\n', '\t', ' /* c */ ', ' // c\n', '\r\n', '  ']))
    return ''.join(out)


# ------------------------------------------------------------------ other kinds
BODIES = ['', '@a;', '@a; @b;', 'alias previous;', 'jump @a; @a;', '@a; jump @a;', 'jump @a;', 'a();', 'return;', 'end;', 'if (debug) { }', 'if (debug) { @a; }', 'if (debug) { } else { }', 'forever { }',
          'forever { @a; }', 'while (debug) { }', 'for (a(); debug; b();) { }', 'switch ($v) { }', 'switch ($v) { case 1: @a; }', 'switch ($v) { case 1: break; }', '~e();', '~l();', '~e(); @a;', '@a; ~l();',
          'alias previous; a();', 'forever { break_loop; }', 'if (debug) { jump @a; } @a;', 'call @a; @a;', "message_SwitchTalk (1) { }", "message_SwitchTalk (1) { case 1: 'a' } @a;", 'Jump(3);',
          'switch ($v) { default: jump @a; } @a;', '~l(); jump @a; @a;', 'if (debug) { } elseif (edit) { @a; } @b;', 'while (debug) { break_loop; } @a;', '~t();', 'with (actor 1) { return; }',
          'with (actor 1) { jump @a; } @a;', 'with (actor 1) { a<object 2>(); }', '; ', '{ a(); }', 'def 1 { a(); }']
DHEADS = ['def 0', 'def 0', 'def 1', 'def 1', 'def 2', 'def 3', 'def 7', 'coro A', 'coro B', 'coro A', 'def -1', 'def -5', 'def 0x2', 'def 0b1', 'def 00', 'def 1.5', 'def 65535', 'def 65536', 'def 99999999999', 'def',
          'def 0 for actor 1', 'def 1 for_actor $x', 'def 0 for object (X)', 'def 1 for performer 1.5', 'def 2 for banana 3', 'def 1 for actor', 'def 0 for actor (1', 'def A', 'coro 1', 'macro x()', 'def -3 for actor 1',
          'def 4 for performer ACTOR_X']


def degenerate(r, ctx):
    ms = 'macro e() { } macro l() { @q; } macro t() { return; }' if r.random() < 0.1 else 'macro e() { a(); } macro l() { @q; jump @q; } macro t() { alias previous; }' if r.random() < 0.1 else \
        'macro e() { a(); return; } macro l() { @q; jump @q; } macro t($x, $x) { if (debug) { return; } }'
    parts = [f'{r.choice(DHEADS) if r.random() < 0.5 else "def " + str(i)} {{ {" ".join(r.choice(BODIES) for _ in range(r.choice([0, 1, 1, 1, 2])))} }}' for i in range(r.choice([1, 1, 2, 2, 3, 5]))]
    if r.random() < 0.6:
        parts.insert(r.randrange(len(parts) + 1), ms)
    if r.random() < 0.1:
        parts.insert(r.randrange(len(parts) + 1), 'import "./nothing.exps";')
    judge('\n'.join(parts), ctx)
    ctx.count('degenerate')


def chars(r, ctx):
    k = r.random()
    if k < 0.3:
        t = check_c17.unicode_text(r)
    elif k < 0.6:
        t = ''.join(r.choice(check_c17.FRAGS) for _ in range(r.choice([1, 2, 3, 6, 15, 40])))
    elif k < 0.8:
        t = check_c17.damage(check_c17.program(r), r)
    elif k < 0.9:
        t = r.choice(['', ' ', '\n', '\x00', '//', '/*', '//?:', '//?: :', '//?: is-ssb-script: true', '//?: is-ssb-script: 1\n//?: is-ssb-script: false\ndef 0 { }', '//?: a: b\n//?: is-ssb-script: true\ndef 0 { a(); }',
                      '\ufeffdef 0 { a(); }', '#', 'def', '{', '}', '"', "'''", '\ud800', 'def 0 { a("\ud800"); }', 'import ', 'import "";', "import '';", 'macro', 'coro', ';;;'])
    else:
        t = ''.join(r.choice(POOL) + r.choice(['', ' ']) for _ in range(r.choice([1, 2, 5, 10, 30])))
    if r.random() < 0.25:
        t = MARKER + t
    attempt(t, ctx)
    ctx.count('character_texts')


def deep(index, r, ctx):
    n = [5, 20, 40, 60, 90, 150, 300, 700][index % 8]
    k = r.randrange(13)
    if k == 0:
        s = 'if (debug) { ' * n + 'a();' + ' }' * n
    elif k == 1:
        s = 'forever { ' * n + 'break_loop;' + ' }' * n
    elif k == 2:
        s = 'switch ($v) { case 1: ' * n + 'a();' + ' }' * n
    elif k == 3:
        s = 'if (debug) { a(); } else { ' * n + 'a();' + ' }' * n
    elif k == 4:
        s = 'while (debug) { for (a(); edit; b();) { ' * n + 'continue;' + ' } }' * n
    elif k == 5:
        s = 'if (debug) { a(); }' + ' elseif (edit) { b(); }' * n * 3
    elif k == 6:
        s = 'a();' * n * 5
    elif k == 7:
        s = 'if (' + ' || '.join(['debug'] * n * 3) + ') { a(); }'
    elif k == 8:
        s = 'a(' + ', '.join(['1'] * n * 5) + ');'
    elif k == 9:
        s = 'a({' + ', '.join(f'l{i}="x"' for i in range(n * 2)) + '});'
    elif k == 10:
        s = '{ ' * n
    elif k == 11:
        s = 'switch ($v) { ' + ''.join(f'case {i}: ' for i in range(n * 3)) + ' a(); }'
    else:
        s = '@l; ' + ''.join(f'jump @l{i}; @l{i}; ' for i in range(n))
    if k < 10 and r.random() < 0.4:
        m = max(2, min(n // 2, 400_000 // len(s)))  # refusing to answer is not being slow
        src = ''.join(f'macro c{i}() {{ ~c{i + 1}(); }}\n' for i in range(m)) + f'macro c{m}() {{ {s} }} def 0 {{ ~c0(); }}'
    else:
        src = f'def 0 {{ {s} }}'
    ctx.count('deep')
    if attempt(src, ctx) is not None:
        ctx.count('deep_refused')


# ------------------------------------------------------------------ imports
def imports(r, ctx):
    n = r.choice([1, 2, 2, 3, 4, 5])
    want = None
    with layout.Scratch() as root:
        lookup = [os.path.join(root, d) for d in r.sample(['lib', 'lib2'], r.choice([0, 1, 2]))]
        dirs = [root, os.path.join(root, 'sub'), os.path.join(root, 'sub', 'x y')] + lookup
        files = [os.path.join(r.choice(dirs), f'f{i}.exps') for i in range(n)]
        main = os.path.join(r.choice(dirs[:3]), 'main.exps')
        for p in dirs:
            os.makedirs(p, exist_ok=True)
        imps = {p: [] for p in files + [main]}
        everything = [main] + files
        # an acyclic graph in which every file is reached
        for i, p in enumerate(files):
            imps[r.choice(everything[:i + 1])].append(p)
        for _ in range(r.choice([0, 0, 1, 2])):
            i, j = sorted(r.sample(range(n + 1), 2))
            imps[everything[i]].append(everything[j])

        def spell(a, b):
            o = []
            rel = os.path.relpath(b, os.path.dirname(a))
            o.append(rel if rel.startswith('.') else './' + rel)
            o.append(b)
            o.append('./' + os.path.relpath(root, os.path.dirname(a)) + '/sub/../' + os.path.relpath(b, root))
            for l in lookup:
                if b.startswith(l + '/'):
                    x = os.path.relpath(b, l)
                    if not any(os.path.exists(os.path.join(m, x)) and os.path.join(m, x) != b for m in lookup):
                        o += [x, x]
            if r.random() < 0.15:
                ln = os.path.join(os.path.dirname(b), f'link{r.randrange(99)}.exps')
                if not os.path.lexists(ln):
                    os.symlink(b, ln)
                    o = ['./' + os.path.relpath(ln, os.path.dirname(a))]
            return r.choice(o)
        body = {p: f'macro m{i}() {{ a{i}(); }}' for i, p in enumerate(files)}
        extra = {p: [] for p in everything}
        kind = r.choice(['fine', 'cycle', 'cycle', 'self', 'missing', 'missing', 'routines', 'routines', 'odd', 'odd', 'broken'])
        mtext = 'def 0 { z(); }' if r.random() < 0.7 else ''
        if kind == 'cycle':
            i = r.randrange(n + 1)
            # back to a file that reaches i
            up = {p for p in everything if reaches(imps, p, everything[i])}
            imps[everything[i]].append(r.choice(sorted(up)))
            want = 'cyclic import'
            ctx.count('import_cycles')
        elif kind == 'self':
            p = r.choice(everything)
            imps[p].append(p)
            want = 'cyclic import'
            ctx.count('import_cycles')
        elif kind == 'missing':
            p = r.choice(everything)
            extra[p].append(r.choice(['./nothing.exps', '../../nothing.exps', root + '/nothing.exps', 'nothing.exps', './sub/none/x.exps', 'lib3/f0.exps', './Main.exps', 'f0.exps' if not lookup else 'f00.exps']))
            want = 'missing import'
        elif kind == 'routines':
            p = r.choice(files)
            body[p] = r.choice(['', body[p]]) + r.choice([' def 0 { a(); }', ' coro X { a(); }', ' def 0 for actor 1 { end; }', ' def 0 { alias previous; }', ' def 0 { @l; jump @l; } ', ' def 0 for_object X { a(); } macro y() { b(); }'])
            if r.random() < 0.15:
                body[p] = 'def 0 { a(); }'
                marked = MARKER
                extra[p] = [marked]
            want = 'routines in an imported file'
        elif kind == 'odd':
            p = r.choice(everything)
            extra[p].append(r.choice(['', '.', '..', './', './sub', root, '/', './a\x00b', './' + 'x' * 300, './' + 'y/' * 3000, './\ud800', 'sub', './main.exps/', './main.exps/x', 'a\\b', '~/x', '\\n', './lib', '/dev/null', './\u2028',
                                      '{x}', './{x}.exps', "./'", './%s', './{1/0}', '.bin', '.dangling', '.loop', '.utf16']))
        elif kind == 'broken':
            p = r.choice(files)
            body[p] = r.choice(['macro', 'macro a() {', '"', 'macro x() { break; }', 'macro x() { ~x(); }', 'macro x() { jump @a; }', '\ufeffmacro x() { a(); }', '\x00', 'macro x() { ~nowhere(); }', 'macro x($a, $a) { }', 'def -1 { a(); }',
                                'macro x() { a(Position<"b", 1.3, 2>); }', 'macro x() { a(); } macro x() { b(); }'])
        shown = []
        for i, p in enumerate(everything):
            lines = []
            targets = [spell(p, q) for q in imps[p]]
            if extra[p] == [MARKER]:
                text = MARKER + body[p]
            else:
                targets += extra[p]
                r.shuffle(targets)
                for t in targets:
                    q = '"' if "'" in t else "'"
                    lines.append(f'import {q}{t}{q};')
                text = '\n'.join(lines) + '\n' + (mtext if p == main else body[p])
            shown.append(f'--- {os.path.relpath(p, root)}\n{text}')
            with open(p, 'w', encoding='utf8', errors='surrogatepass', newline='') as f:
                f.write(text)
            if p == main:
                source = text
        for d in dirs[:3]:
            with open(os.path.join(d, '.bin'), 'wb') as f:
                f.write(b'macro x() { a("\xff\xfe\x80"); }')
            with open(os.path.join(d, '.utf16'), 'wb') as f:
                f.write('macro x() { a(); }'.encode('utf16'))
            os.symlink('nowhere', os.path.join(d, '.dangling'))
            os.symlink('.loop', os.path.join(d, '.loop'))
        old = os.getcwd()
        name = main
        try:
            how = r.random()
            if how < 0.25:
                os.chdir(os.path.dirname(main))
                name = 'main.exps'
            elif how < 0.35:
                os.chdir(root)
                name = './' + os.path.relpath(main, root)
            elif how < 0.45:
                os.symlink(main, os.path.join(os.path.dirname(main), 'alias.exps'))
                name = os.path.join(os.path.dirname(main), 'alias.exps')
            text = '\n'.join(shown) + f'\n--- compiled as {name.replace(root, "ROOT")}, lookup {[os.path.relpath(x, root) for x in lookup]}'
            e = attempt(source, ctx, name=name, lookup=lookup, shown=text)
        finally:
            os.chdir(old)
        ctx.count('import_graphs')
        ctx.saw('import_kinds', kind)
        if want is not None:
            ctx.count('must_reject')
            ctx.saw('reasons', want)
            if e is None:
                raise Violation(f'a meaningless program is accepted ({want})', {'text': text})
        elif kind == 'fine' and e is not None:
            raise RuntimeError(f'{type(e)} {e}\n{text}')
        elif kind == 'fine':
            ctx.count('import_graphs_accepted')
        ctx.nontrivial(text)


def reaches(imps, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo += imps.get(x, [])
    return False


def cli(r, ctx):
    """the command fails exactly when compile() does, and then prints no program"""
    k = r.random()
    if k < 0.4:
        src = r.choice(HOLDERS)[1].format(m='', s=r.choice(STMTS))
    elif k < 0.7:
        src = check_c17.program(r)
    else:
        src = join(corrupt(tokens_of(check_c17.program(r)), r), r)
    with layout.Scratch() as root:
        p = os.path.join(root, 'a.exps')
        try:
            with open(p, 'w', encoding='utf8', newline='') as f:
                f.write(src)
        except UnicodeEncodeError:
            raise Skip('text without encoding')
        c = env.ExplorerScriptSsbCompiler(env.PERF, [])
        e = attempt(open(p, encoding='utf8').read(), ctx, name=p, compiler=c)
        if e is None and None in c.routine_infos:
            raise Skip('routine ids with gaps have no place in the JSON')
        settings = os.path.join(root, 's.json')
        with open(settings, 'w') as f:
            json.dump({'settings': {'performance_progress_list_var_name': env.PERF,
                                    'dungeon_mode_constants': dict(open='DM_O', closed='DM_C', request='DM_R', open_request='DM_OR')}}, f)
        q = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'explorerscript.cli.compile', p, '--settings', settings], cwd=root, capture_output=True, timeout=120,
                           env=dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE='1'))
    out = q.stdout.decode('utf8', 'replace')
    ctx.count('cli_runs')
    shown = {'text': src, 'status': q.returncode, 'stdout': out[:500], 'stderr': q.stderr.decode('utf8', 'replace')[-800:]}
    if (e is None) != (q.returncode == 0):
        raise Violation(f'compile() {"succeeds" if e is None else "fails"}, but the compile command ends with status {q.returncode}', shown)
    if e is not None and '"routines"' in out:
        raise Violation('the compile command fails, but prints a program', shown)


def run_case(kind, index, rng, ctx):
    if kind == 'chars':
        chars(rng, ctx)
    elif kind == 'tokens':
        src = short_program(rng)
        t = tokens_of(src)
        judge(join(corrupt(t, rng), rng), ctx)
    elif kind == 'stmts':
        judge(statement_level(short_program(rng), rng), ctx)
    elif kind == 'ssbs':
        ssbs_case(rng, ctx)
    elif kind == 'form':
        form_case(index, rng, ctx)
    elif kind == 'imports':
        imports(rng, ctx)
    elif kind == 'degenerate':
        degenerate(rng, ctx)
    elif kind == 'deep':
        deep(index, rng, ctx)
    elif kind == 'cli':
        cli(rng, ctx)


def short_program(r):
    for _ in range(20):
        s = check_c17.program(r)
        if len(s) < 1500:
            return s
    return r.choice(hand.PROGRAMS)
