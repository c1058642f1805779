"""C17: the highlighting lexer is total and loses no text."""
import glob
import itertools
import os
import time
from . import check_c05, env, hand, layout, progs, semcheck
from .core import Skip, Violation
from explorerscript.pygments.expslexer import ExplorerScriptLexer
from pygments.token import Error

ID = 'C17'
RULE = ('texts - accepted programs in every layout style, damaged programs, random Unicode, fragments of the delicate tokens, all short '
        'strings over the delicate characters, long texts - go through the real lexer (fresh and reused instances, complete and interleaved '
        'generators). The token texts are put together again and compared with the text, positions must be contiguous, a step limit and a '
        'time limit watch termination, accepted programs must give no error token. Non-trivial: at least two tokens; distinct by text.')
REQUIRE = {'texts': 100000, 'tokens': 1000000, 'accepted_programs': 1500, 'seen:token_types': 4, 'long_texts': 20, 'interleaved': 100}
CASE_LIMIT = 60
TIMEOUT_IS_VIOLATION = True

SMALL = ['"', "'", '/', '*', '\n', '\\', '5', 'a', '.']
NSMALL = 5
FRAGS = ['"', "'", '"""', "'''", '\\"', "\\'", '\\', '/*', '*/', '//', '\n', ' ', '\r', '\r\n', '//?:', '§', '@', '$', '~', '.5', '5', '0x', '0b1', '07',
         '08', '1.5', '-', 'def', 'if', 'elseif', 'for_actor', 'TRUE', 'ab_1', 'é', '😀', '\u2028', '\x00', '\x0c', '\x85', '{', '}', '(', ')', '<', '>',
         'Position<', ';', '//x\n', '/**/', '/*"*/', '"/*"', "'//'", '"\n"', '\ud800', '\ufeff', '\t', '&<<', '\u0301', '٥', 'case', 'menu2', 'menu(']


def plan(tier, seed):
    k = 1 if tier == 'quick' else 30
    return [('small', len(SMALL) ** 2), ('prog', 2200 * k), ('damaged', 1500 * k), ('frags', 1500 * k), ('unicode', 800 * k), ('long', 30 * k),
            ('streams', 120 * k), ('files', 1), ('finding', 2)]


def run_case(kind, index, rng, ctx):
    if kind == 'small':
        head = SMALL[index // len(SMALL)] + SMALL[index % len(SMALL)]
        for n in range(NSMALL - 1):
            for rest in itertools.product(SMALL, repeat=n):
                check(head + ''.join(rest), ctx, few=True)
        if index == 0:
            for t in ['', '\n', '\n\n', ' ', ' \n', '\n a\n\n'] + SMALL:
                check(t, ctx)
        return
    if kind == 'prog':
        src = program(rng)
        try:
            env.compile_text(src)
        except Exception:
            raise Skip('rejected')
        ctx.count('accepted_programs')
        check(src, ctx, accepted=True)
        if index < 2:
            ctx.sample(src[:600])
    elif kind == 'damaged':
        check(damage(program(rng), rng), ctx)
    elif kind == 'frags':
        for _ in range(25):
            check(''.join(rng.choice(FRAGS) for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 15, 40]))), ctx)
    elif kind == 'unicode':
        for _ in range(10):
            check(unicode_text(rng), ctx)
    elif kind == 'long':
        k = rng.random()
        if k < 0.4:
            t = '\n'.join(program(rng) for _ in range(rng.choice([20, 40])))
        elif k < 0.7:
            t = ''.join(rng.choice(FRAGS) for _ in range(20000))
        else:
            t = rng.choice(['"', "'", '/*', '//', '\\', '"""', "'\\", 'a', '5', '\n', '/', '*', '/* */', '"a" ']) * rng.choice([500, 3000])
        ctx.count('long_texts')
        check(t, ctx)
    elif kind == 'streams':
        streams(rng, ctx)
    elif kind == 'files':
        for p in sorted(glob.glob(os.path.join(env.REPO, '**', '*.exps'), recursive=True))[:200]:
            with open(p, encoding='utf8', newline='') as f:
                t = f.read()
            ok = True
            try:
                env.compile_text(t, p)
            except Exception:
                ok = False
            check(t, ctx, accepted=ok)
    elif kind == 'finding':
        text, key = (('a\r\nb\rc', 'carriage-returns'), ('\ufeffa', 'byte-order-mark'))[index]
        got = ''.join(v for _, v in ExplorerScriptLexer().get_tokens(text))
        if not same(got, text):
            raise Violation(f'{text!r} comes back as {got!r}', {}, key)


def program(rng):
    k = rng.random()
    if k < 0.1:
        return rng.choice(hand.PROGRAMS)
    if k < 0.35:
        return progs.with_macros(rng)
    return progs.make(rng, rich=rng.random() < 0.6, style=rng.choice([None, 'random', 'random']))[1]


def damage(s, rng):
    for _ in range(rng.choice([1, 1, 2, 5])):
        i = rng.randrange(len(s) + 1)
        k = rng.random()
        if k < 0.4:
            s = s[:i] + s[i + rng.choice([1, 1, 2, 10]):]
        elif k < 0.8:
            s = s[:i] + rng.choice(FRAGS) + s[i:]
        elif k < 0.9:
            s = s[:i]
        else:
            s = s[i:]
    return s


def unicode_text(rng):
    n = rng.choice([1, 3, 10, 50, 300])
    pick = rng.choice([lambda: chr(rng.randrange(0x80)), lambda: chr(rng.randrange(0x300)), lambda: chr(rng.randrange(0x110000)),
                       lambda: chr(rng.choice([0x20, 0x22, 0x27, 0x2f, 0x2a, 0x5c, 0xa, 0xa7, 0x40, 0x24, 0x35, 0x1f600, 0xd800, 0xfeff, 0x2029, 0x1c]))])
    return ''.join(pick() for _ in range(n))


def same(got, text):
    return got == text or (got == text + '\n' and not text.endswith('\n'))


def check(text, ctx, accepted=False, few=False, lexer=None):
    fail = semcheck.failer(text=repr(text[:3000]))
    # the text as the lexer gets it (see the findings)
    seen = text[1:] if text.startswith('\ufeff') else text
    seen = seen.replace('\r\n', '\n').replace('\r', '\n')
    limit = 2 * len(text) + 20
    lx = lexer or ExplorerScriptLexer()
    got, kinds, n = [], [], 0
    t0 = time.process_time()
    for kind, v in lx.get_tokens(text):
        got.append(v)
        kinds.append(kind)
        n += 1
        if n > limit:
            fail('the lexer gives more tokens than the text has characters')
    joined = ''.join(got)
    if not same(joined, seen):
        i = next((i for i, (a, b) in enumerate(zip(joined, seen)) if a != b), min(len(joined), len(seen)))
        fail(f'the token texts differ from the text at {i}: {joined[max(0, i - 20):i + 40]!r} instead of {seen[max(0, i - 20):i + 40]!r}')
    if accepted and Error in kinds:
        i = kinds.index(Error)
        fail(f'error token {got[i]!r} after {"".join(got[:i])[-60:]!r} in an accepted source')
    if not few:
        # the lexer itself, without what Pygments does to the text before
        pos, n = 0, 0
        for start, kind, v in ExplorerScriptLexer().get_tokens_unprocessed(text):
            n += 1
            if n > limit:
                fail('the lexer gives more tokens than the text has characters')
            if start != pos or text[pos:pos + len(v)] != v:
                fail(f'token {v!r} at {start}, expected the text from {pos}: {text[pos:pos + 40]!r}')
            pos += len(v)
            if accepted and kind is Error:
                fail(f'error token {v!r} in an accepted source')
        if pos != len(text):
            fail(f'the lexer stops at {pos} of {len(text)}')
    dt = time.process_time() - t0
    if dt > 20:
        fail(f'lexing {len(text)} characters took {dt:.0f} s')
    ctx.count('texts')
    ctx.count('tokens', len(got))
    for k in set(kinds):
        ctx.saw('token_types', str(k))
    if Error in kinds:
        ctx.count('error_tokens_in_other_texts')
    if len(got) > 2:
        ctx.nontrivial(text)


def streams(rng, ctx):
    """one lexer instance, several texts at the same time"""
    lx = ExplorerScriptLexer()
    texts = [rng.choice([program, lambda r: damage(program(r), r), unicode_text])(rng) for _ in range(rng.choice([2, 3, 5]))]
    gens = [lx.get_tokens_unprocessed(t) for t in texts]
    out = [''] * len(texts)
    alive = list(range(len(texts)))
    while alive:
        i = rng.choice(alive)
        for _ in range(rng.choice([1, 1, 7])):
            t = next(gens[i], None)
            if t is None:
                alive.remove(i)
                break
            out[i] += t[2]
    for t, o in zip(texts, out):
        if t != o:
            raise Violation('interleaved token streams of one lexer lose text', {'text': t[:2000], 'got': o[:2000]})
    ctx.count('interleaved')
    for t in texts:
        check(t, ctx, lexer=lx)
