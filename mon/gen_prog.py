"""Random ExplorerScript programs as token lists, and renderers that lay the same tokens out in different ways."""
from __future__ import annotations
import random
from .lang import tokenize, LangError

OPS = ['Wait', 'WaitLock', 'SetAnimation', 'se_Play', 'bgm_PlayFadeIn', 'message_Talk', 'message_Close', 'Slide2Position',
       'Turn2Direction', 'camera_SetMyself', 'foo_Bar1', 'x', '_under', 'ValueX', 'back_SetGround', 'CallCommon',
       'ExecuteActing', 'SetEffect', 'item_Set', 'debug_Print', 'returnX', 'endgame', 'message_SwitchTalkX', 'Flash']
HEADER_OPS = ['message_Menu', 'main_EnterAdventure', 'ProcessSpecial', 'message_SwitchMenu', 'item_GetVariable',
              'BranchSum', 'BranchExecuteSub']
CONSTS = ['ACTOR_PLAYER', 'LEVEL_T00', 'DIR_DOWN', 'FACE_HAPPY', 'SCENARIO_MAIN', '$GLOBAL', '$VAR_2', 'TRUEish', 'A', 'b_1']
LANGS = ['english', 'french', 'german', 'italian', 'spanish', 'japanese']
SIMPLE_STRS = ['', 'Hi', 'Hello there', 'a b  c', '[CN]Text[W]', 'x{y}', '100%', '/* no */', '// not a comment', 'Ünïcödé ✓',
               "it's", 'say "hi"', 'two\nlines', "\n", "mix\"'\n", ' lead', 'trail ', 'a\n  b\n c', '@l0', '$p0 x', 'case 1:',
               "tab\there"]


class G:
    def __init__(self, rng, **opt):
        self.r = rng
        self.o = dict(max_depth=3, labels=True, jumps=True, loops=True, switches=True, ifs=True, msg=True, ctx=True,
                      calls=True, terminate=0.7, macros=(), max_body=5, weird_strings=False, block_enders=True,
                      enders=True, header_ops=True, ctx_flow=False, ctx_end=True, ctx_jump=False, pos=True, strs=True, free_vars=True, params=(),
                      macro_body=False, perf='PERFORMANCE_PROGRESS_LIST', unique_ops=False, flat=False, empty_blocks=True,
                      text_limit=100000, long=0.05, menus=True, plain_consts=None)
        self.o.update(opt)
        self.t = []
        self.uid = 0
        self.labels = []        # names defined in the current label scope
        self.lrefs = []         # indexes of reference tokens
        self.lbl_prefix = 'l'
        self.in_loop = self.in_case = 0
        self.need_label_spots = []
        self.long = rng.random() < self.o['long']       # some lists are much longer than usual

    # -- emit
    def w(self, *xs):
        for x in xs:
            self.t.append(('w', x) if isinstance(x, str) else x)

    def chance(self, p):
        return self.r.random() < p

    def count(self, xs):
        """a number out of xs, rarely a much bigger one"""
        n = self.pick(xs)
        if self.long and self.chance(0.2):
            n = self.r.randrange(max(xs), 4 * max(xs) + 4)
        return n

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    # -- values
    def int_val(self):
        r = self.r
        k = r.randrange(8)
        if k < 4:
            return r.randrange(0, 20)
        if k == 4:
            return -r.randrange(1, 300)
        if k == 5:
            return r.choice([0, 1, 255, 256, 32767, 65535, 1000000])
        if k == 6 and r.random() < 0.3:
            return r.choice([1, 1, -1]) * r.getrandbits(r.randrange(8, 40))
        return r.randrange(0, 1000)

    def dec(self):
        r = self.r
        return ('d', r.random() < 0.3, r.choice([0, 0, 0, 0, 1, 1, 2, 2, 10, 255, 127, 16777217, 12345678901234567890]),
                r.choice(['', '5', '25', '05', '996', '0', '50', '001', '125', '5', '25', '05', '00390625', '00001', '0000003', '12345678901234567891']))

    def const(self):
        if self.o['params'] and self.chance(0.4):
            return ('w', self.pick(self.o['params']))
        pool = self.o['plain_consts'] or CONSTS
        c = self.pick(pool)
        return ('w', c)

    def intlike(self, var=False):
        k = self.r.random()
        if var:
            return self.const() if k < 0.8 else ('i', self.r.randrange(0, 64))
        if k < 0.5:
            return ('i', self.int_val())
        if k < 0.92:
            return self.const()
        return self.dec()

    def strval(self):
        if self.o['weird_strings'] and self.chance(0.5):
            return self.weird()
        return self.pick(SIMPLE_STRS)

    def weird(self):
        n = self.r.randrange(0, 8)
        return ''.join(self.pick(['a', 'b', ' ', '\n', '"', "'", 'n', '\\n'[0:1], ' x', '{', 'é', '~', '\t']) for _ in range(n))

    def string(self, lang=0.4):
        if self.chance(1 - lang):
            self.w(('s', self.strval()))
        else:
            n = self.r.randrange(1, 4)
            ls = self.r.sample(LANGS, n)
            self.w('{')
            for i, l in enumerate(ls):
                if i:
                    self.w(',')
                self.w(l, '=', ('s', self.strval()))
            self.w(('tc',), '}')

    def position(self):
        def a():
            k = self.r.random()
            v = self.r.randrange(0, 60) if self.chance(0.9) else -self.r.randrange(1, 5)
            if k < 0.6 or v < 0:
                return ('i', v)
            return ('d', False, v, '5' if self.chance(0.8) else '')
        self.w('Position', '<', ('s1', self.pick(['m0', 'mark_1', 'a b', '', "it's", 'q"q'])), ',', a(), ',', a(), '>')

    def arg(self):
        k = self.r.random()
        if k < 0.72:
            self.w(self.intlike())
        elif k < 0.88 and self.o['strs']:
            self.string()
        elif self.o['pos'] and k < 0.97:
            self.position()
        else:
            self.w(self.intlike())

    def args(self, lo=0, hi=4):
        n = self.r.randrange(lo, hi + 1)
        if self.long and self.chance(0.03):
            n = self.r.randrange(hi, 40)
        for i in range(n):
            if i:
                self.w(',')
            self.arg()
        if n:
            self.w(('tc',))

    def opname(self):
        return self.pick(OPS)

    def operation(self, name=None, ctx=True):
        self.w(name or self.opname())
        if ctx and self.o['ctx'] and self.chance(0.12):
            self.w('<', self.pick(['actor', 'object', 'performer']), self.intlike(), '>')
        self.w('(')
        if self.o['unique_ops']:
            self.uid += 1
            self.w(('i', 5000 + self.uid))
            if self.chance(0.5):
                self.w(',')
                self.arg()
        else:
            self.args()
        self.w(')')

    def lref(self):
        self.lrefs.append(len(self.t))
        self.t.append(('lref', self.r.random()))

    def new_label(self):
        n = f'{self.lbl_prefix}{len(self.labels)}'
        self.labels.append(n)
        return n

    def assignment(self):
        k = self.r.randrange(14)
        w, il = self.w, self.intlike
        if k <= 2:
            w(il(True), '=', il())
        elif k == 3:
            w(il(True), '[', ('i', self.r.randrange(0, 32)), ']', '=', il())
        elif k == 4:
            w(self.o['perf'], '[', ('i', self.r.randrange(0, 50)), ']', '=', ('i', self.r.randrange(0, 2)))
        elif k in (5, 6):
            w(il(True), self.pick(['-=', '+=', '*=', '/=']), il())
        elif k == 7:
            w(il(True), self.pick(['=', '-=', '+=', '*=', '/=']), 'value', '(', il(True), ')')
        elif k == 8:
            w('clear', il(True))
        elif k == 9:
            w('init', il(True))
        elif k == 10:
            if self.chance(0.4):
                w('reset', 'dungeon_result')
            else:
                w('reset', 'scn', '(', il(True), ')')
        elif k == 11:
            w('adventure_log', '=', il())
        elif k == 12:
            w('dungeon_mode', '(', il(), ')', '=', self.pick([('i', self.r.randrange(0, 4)), ('w', 'DMODE_OPEN'),
                                                              ('w', 'DMODE_CLOSED')]))
        else:
            w(il(True), '=', 'scn', '[', ('i', self.r.randrange(0, 40)), ',', ('i', self.r.randrange(0, 9)), ']')

    def condop(self):
        return self.pick(['==', '==', '<', '>', '<=', '>=', '!=', '&', '^', '&<<', 'TRUE', 'FALSE'])

    def cond(self):
        k = self.r.randrange(12)
        w, il = self.w, self.intlike
        if k == 0:
            if self.chance(0.5):
                w('not')
            w(self.pick(['debug', 'edit', 'variation']))
        elif k in (1, 2):
            if self.chance(0.5):
                w(self.o['perf'], '[', ('i', self.r.randrange(0, 50)), ']')
            else:
                w('not', self.o['perf'], '[', ('i', self.r.randrange(0, 50)), ']')
        elif k == 3:
            w(il(True), '[', ('i', self.r.randrange(0, 32)), ']')
        elif k == 4:
            w('scn', '(', il(True), ')', self.pick(['==', '<', '>', '<=', '>=']), '[', ('i', self.r.randrange(0, 40)), ',',
              ('i', self.r.randrange(0, 9)), ']')
        elif k == 5:
            w(il(True), self.condop(), 'value', '(', il(True), ')')
        elif k == 6 and self.o['header_ops']:
            self.header_operation()
        else:
            w(il(True), self.condop(), il())

    def header_operation(self):
        n = self.pick(['BranchSum', 'BranchExecuteSub', 'BranchVariation', 'BranchDebug', 'BranchEdit', 'BranchValue', 'Branch', 'BranchBit'])
        if n == 'BranchBit' and self.o['params']:
            n = 'Branch'    # the spelled-out op keeps its name, whatever the parameter is
        if n == 'BranchSum':
            self.w(n, '(', self.intlike(True), ',', ('i', self.r.randrange(11)), ',', self.intlike(), ')')
        elif n == 'BranchExecuteSub':
            self.w(n, '(', self.intlike(), ')')
        elif n == 'BranchValue':
            self.w(n, '(', self.intlike(True), ',', ('i', self.r.choice([1, 3, 4, 5, 6, 7])), ',', self.intlike(), ')')
        elif n in ('Branch', 'BranchBit'):
            self.w(n, '(', self.intlike(True), ',', ('i', self.r.randrange(9)), ')')
        else:
            self.w(n, '(', ('i', self.r.randrange(2)), ')')

    # -- statements
    def nl(self):
        self.t.append(('nl',))

    def block(self, d, minimum=0):
        self.w('{', ('in',))
        self.nl()
        n = self.r.randrange(minimum, self.o['max_body'] + 1) if (minimum or not self.chance(0.12)) else 0
        if d <= 0:
            n = min(n, 2)
        for _ in range(n):
            self.stmt(d)
        self.w(('out',), '}')

    def plain(self):
        self.simple(plain=True)

    def simple(self, plain=False):
        """one ;-statement without a trailing newline hint"""
        r = self.r.random()
        if r < 0.55 or plain and r < 0.7:
            self.operation()
        else:
            self.assignment()
        self.w(';')

    def flow(self):
        """jump / label / call / return ..."""
        o = self.o
        ch = []
        if o['labels']:
            ch += ['label'] * 3
        if o['jumps']:
            ch += ['jump'] * 3
        if o['calls']:
            ch += ['call']
        if o['enders']:
            ch += ['return', 'end', 'hold', 'opend']
        if self.in_loop:
            ch += ['continue', 'break_loop'] * 3
        if self.in_case:
            ch += ['break'] * 3
        if not ch:
            return self.simple()
        k = self.pick(ch)
        if k == 'label':
            self.w(('ldef',), self.new_label(), ';')
        elif k == 'jump':
            self.w('jump', '@')
            self.lref()
            self.w(';')
        elif k == 'call':
            self.w('call', '@')
            self.lref()
            self.w(';')
        elif k == 'opend':
            # (nothing says whether a Return op spelled out in a macro leaves the macro or the routine)
            self.w(*self.pick([['End', '(', ')'], ['Destroy', '(', ')'], ['JumpCommon', '(', ('i', 3), ')'],
                               ['End', '(', ')'] if o['macro_body'] else ['Return', '(', ')'], ['Hold', '(', ')']]))
            self.w(';')
        else:
            self.w(k, ';')

    def stmt(self, d):
        r = self.r.random()
        o = self.o
        if o['macros'] and r < 0.18:
            self.macro_call()
        elif r < 0.42:
            self.simple()
        elif r < 0.62:
            self.flow()
        elif r < 0.66 and o['ctx']:
            self.with_block()
        elif r < 0.70 and o['msg']:
            self.msgswitch()
        elif d > 0:
            k = self.r.random()
            if k < 0.45 and o['ifs']:
                self.if_(d - 1)
            elif k < 0.7 and o['switches']:
                self.switch(d - 1)
            elif o['loops']:
                self.loop(d - 1)
            else:
                self.simple()
        else:
            self.simple()
        self.nl()

    def with_block(self):
        self.w('with', '(', self.pick(['actor', 'object', 'performer']), self.intlike(), ')', '{', ('in',))
        self.nl()
        if self.o['ctx_flow'] and self.o['calls'] and self.chance(0.1):
            self.w('call', '@')
            self.lref()
            self.w(';')
        elif self.o['ctx_jump'] and self.o['jumps'] and self.chance(0.1):
            self.w('jump', '@')
            self.lref()
            self.w(';')
        elif self.o['ctx_jump'] and (self.in_loop or self.in_case) and self.chance(0.25):
            self.w(self.pick((['continue', 'break_loop'] if self.in_loop else []) + (['break'] if self.in_case else [])), ';')
        elif self.o['ctx_end'] and self.chance(0.2):
            # ends the script of the actor, not the routine
            self.w(self.pick(['end', 'hold', 'end', 'hold'] + ([] if self.o['macro_body'] else ['return'])), ';')
        elif self.chance(0.6):
            self.operation(ctx=False)
            self.w(';')
        else:
            self.assignment()
            self.w(';')
        self.nl()
        self.w(('out',), '}')

    def msgswitch(self):
        self.w(self.pick(['message_SwitchTalk', 'message_SwitchMonologue']), '(', self.intlike(True), ')', '{', ('in',))
        self.nl()
        n = self.count([0, 1, 2, 3])
        cases = ['c'] * n
        if self.chance(0.6):
            cases.insert(len(cases) if self.chance(0.7) else self.r.randrange(len(cases) + 1), 'd')
        for c in cases:
            if c == 'd':
                self.w('default')
            else:
                self.w('case', self.intlike())
            self.w(':')
            self.string()
            self.nl()
        self.w(('out',), '}')

    def conds(self):
        if self.chance(0.25):
            self.w('not')
        self.w('(')
        for i in range(self.count([1, 1, 1, 2, 2, 3])):
            if i:
                self.w('||')
            self.cond()
        self.w(')')

    def if_(self, d):
        self.w('if')
        self.conds()
        self.body_or_jump(d)
        for _ in range(self.count([0, 0, 0, 1, 1, 2])):
            self.w('elseif')
            self.conds()
            self.body_or_jump(d)
        if self.chance(0.45):
            self.w('else')
            self.body_or_jump(d)

    def body_or_jump(self, d):
        if self.o['jumps'] and self.chance(0.12):
            self.w('{', ('in',))
            self.nl()
            self.w('jump', '@')
            self.lref()
            self.w(';', ('nl',), ('out',), '}')
        else:
            self.block(d)

    def switch_header(self):
        k = self.r.randrange(10)
        w, il = self.w, self.intlike
        if k < 3:
            w(il(True))
            return 'var'
        if k == 3:
            w('scn', '(', il(True), ')', '[', ('i', 0), ']')
            return 'scn0'
        if k == 4:
            w('scn', '(', il(True), ')', '[', ('i', 1), ']')
            return 'scn1'
        if k == 5:
            w('random', '(', il(), ')')
            return 'random'
        if k == 6:
            w('dungeon_mode', '(', il(), ')')
            return 'dmode'
        if k == 7:
            w('sector', '(', ')')
            return 'sector'
        if self.o['menus'] and self.o['header_ops']:
            n = self.pick(['message_SwitchMenu', 'message_Menu', 'ProcessSpecial', 'main_EnterAdventure', 'SwitchValue',
                           'SwitchVariable', 'message_SwitchMenu2', 'SwitchLives', 'SwitchDirection', 'SwitchDirectionLives'])
            w(n, '(')
            self.header_args(n)
            w(')')
            return 'menu' if n.startswith('message_SwitchMenu') else 'op'
        w(il(True))
        return 'var'

    def header_args(self, n):
        c = {'message_SwitchMenu': 2, 'message_SwitchMenu2': 2, 'message_Menu': 1, 'ProcessSpecial': 3,
             'main_EnterAdventure': 2, 'SwitchValue': 3, 'SwitchVariable': 3}.get(n, 1)
        for i in range(c):
            if i:
                self.w(',')
            if n in ('SwitchValue', 'SwitchVariable') and i == 1:
                self.w(('i', self.r.randrange(5)))
            else:
                self.w(self.intlike())

    def case_header(self, hdr):
        k = self.r.random()
        if hdr == 'menu' and k < 0.8:
            if self.chance(0.7):
                self.w('menu', '(')
                self.string()
                self.w(')')
            else:
                self.w('menu2', '(', self.intlike(), ')')
        elif hdr == 'dmode' and k < 0.8:
            self.w(self.pick([('i', self.r.randrange(4)), ('w', 'DMODE_OPEN'), ('w', 'DMODE_REQUEST')]))
        elif k < 0.65:
            self.w(self.intlike())
        else:
            self.w(self.pick(['==', '<', '>', '<=', '>=', '!=', '&', '^', '&<<', 'TRUE', 'FALSE']))
            if self.chance(0.3):
                self.w('value', '(', self.intlike(True), ')')
            else:
                self.w(self.intlike())

    def switch(self, d, flat=False):
        self.w('switch', '(')
        hdr = self.switch_header()
        self.w(')', '{', ('in',))
        self.nl()
        n = self.count([0, 1, 2, 3, 4])
        cases = ['c'] * n
        if self.chance(0.5):
            cases.insert(len(cases) if self.chance(0.6) else self.r.randrange(len(cases) + 1), 'd')
        for i, c in enumerate(cases):
            if c == 'd':
                self.w('default')
            else:
                self.w('case')
                self.case_header(hdr)
            self.w(':', ('in',))
            last = i == len(cases) - 1
            if not last and self.chance(0.25):
                self.w(('nl',), ('out',))
                continue
            self.nl()
            self.in_case += 1
            k = self.r.randrange(0, 3)
            for _ in range(k):
                self.stmt(d)
            if k == 0 or self.chance(0.6):
                self.w('break', ';')
                self.nl()
            self.in_case -= 1
            self.w(('out',))
        self.w(('out',), '}')

    def loop(self, d):
        k = self.r.randrange(3)
        if k == 0:
            self.w('forever')
        elif k == 1:
            self.w('while')
            if self.chance(0.35):
                self.w('not')
            self.w('(')
            self.cond()
            self.w(')')
        else:
            self.w('for', '(')
            self.simple()
            self.cond()
            self.w(';')
            self.simple()
            self.w(')')
        self.in_loop += 1
        sv, self.in_case = self.in_case, self.in_case
        self.block(d)
        self.in_case = sv
        self.in_loop -= 1

    def macro_call(self):
        name, ps, extra = self.pick(self.o['macros'])
        self.w('~' + name, '(')
        n = len(ps) + (1 if self.chance(0.08) else 0)
        for i in range(n):
            if i:
                self.w(',')
            self.arg()
        if n:
            self.w(('tc',))
        self.w(')', ';')

    # -- definitions
    def body(self, n=None, term=None):
        o = self.o
        if n is None:
            n = self.r.randrange(1, o['max_body'] + 2)
        for _ in range(n):
            self.stmt(o['max_depth'])
        if (self.chance(o['terminate']) if term is None else term):
            if o['macro_body']:
                self.w('return', ';')
            else:
                self.w(self.pick(['end', 'return', 'hold', 'end']), ';')
            self.nl()

    def target(self):
        return ('target', self.pick(['actor', 'object', 'performer']))

    def routine_header(self, i, coro=False):
        if coro:
            self.w('coro', f'CORO_{i}')
            return
        self.w('def', ('i', i))
        if self.chance(0.4):
            self.w(self.target())
            p = self.chance(0.5)
            self.w(('lp',), self.pick([('i', self.r.randrange(0, 40)), ('w', 'ACTOR_' + str(i))]), ('rp',))

    def resolve_labels(self, start=0):
        """patch references made since start; returns False if impossible"""
        if self.lrefs and not self.labels:
            return False
        for i in self.lrefs:
            k = int(self.t[i][1] * len(self.labels))
            self.t[i] = ('w', self.labels[k])
        self.lrefs = []
        return True

    def file(self, routines=None, coro=None):
        """the routines of a file (call after macros were emitted)"""
        n = routines if routines is not None else self.count([1, 1, 1, 2, 2, 3])
        coro = self.chance(0.2) if coro is None else coro
        self.labels, self.lrefs = [], []
        for i in range(n):
            self.routine_header(i, coro)
            self.w('{', ('in',))
            self.nl()
            if i and self.chance(0.08):
                self.w('alias', 'previous', ';')
                self.nl()
            else:
                self.body()
                if i == n - 1 and self.lrefs and not self.labels:
                    self.w(('ldef',), self.new_label(), ';')
                    self.operation()
                    self.w(';')
                    self.nl()
            self.w(('out',), '}')
            self.nl()
        if self.lrefs and not self.labels:
            # every reference was made in a routine and the last one was an alias: turn them into a label up front
            self.t = [('w', 'def'), ('i', 0), ('w', '{'), ('w', 'end'), ('w', ';'), ('w', '}')]
            return
        self.resolve_labels()


# ------------------------------------------------------------------------------------------ literal spellings
def spell_int(v, r, rich):
    s = '-' if v < 0 else ''
    a = abs(v)
    if not rich or r.random() < 0.4:
        return s + str(a)
    k = r.randrange(4)
    if k == 0:
        d = '%x' % a
        d = ''.join(c.upper() if r.random() < 0.5 else c for c in d)
        return s + r.choice(['0x', '0X']) + '0' * r.randrange(0, 3) + d
    if k == 1:
        return s + r.choice(['0o', '0O']) + '0' * r.randrange(0, 3) + '%o' % a
    if k == 2:
        return s + r.choice(['0b', '0B']) + '0' * r.randrange(0, 3) + bin(a)[2:]
    if a == 0:
        return r.choice(['', '-']) + '0' * r.randrange(1, 4)
    return s + str(a)


def spell_dec(t, r, rich):
    _, neg, w, fr = t
    fr = fr or '0'
    if not rich:
        return ('-' if neg else '') + f'{w}.{fr}'
    wtxt = '0' * r.randrange(0, 3) + str(w)
    if w == 0 and r.random() < 0.3:
        wtxt = ''
    return ('-' if neg else '') + f'{wtxt}.{fr}'


def single_ok(v, q):
    """can v be written as single-line literal with quote q?  (\\n, \\" and \\' are the only escapes)"""
    s = single_src(v, q)
    if s is None:
        return False
    from .lang import single_value
    try:
        toks = tokenize(s + ';')
    except LangError:
        return False
    return toks[0].t == s and single_value(s) == v


def single_src(v, q):
    if '\r' in v or '\f' in v:
        return None
    return q + v.replace(q, '\\' + q).replace('\n', '\\n') + q


def multi_srcs(v, r, ind):
    """candidate multi-line spellings of v"""
    out = []
    for q in ("'''", '"""'):
        if q in v or (v and v[-1] == q[0]):
            continue
        out.append(q + v + q)
        lines = v.split('\n')
        pad = ' ' * ind
        out.append(q + '\n' + '\n'.join(pad + l for l in lines) + '\n' + ' ' * r.randrange(0, 9) + q)
        if len(lines) > 1:
            out.append(q + lines[0] + '\n' + '\n'.join(pad + l for l in lines[1:]) + '\n' + pad + q)
    return out


def multi_ok(s, v):
    from .lang import multi_value
    try:
        toks = tokenize(s + ';')
    except LangError:
        return False
    return toks[0].t == s and toks[0].k == 'mstr' and multi_value(s) == v


def spell_str(v, r, rich, single_only=False):
    c = [s for s in (single_src(v, '"'), single_src(v, "'")) if s and single_ok(v, s[0])]
    if not rich and c:
        return c[0]
    m = []
    if not single_only and (not c or r.random() < 0.4):
        m = [s for s in multi_srcs(v, r, r.choice([0, 1, 2, 4, 8])) if multi_ok(s, v)]
    pool = m if (m and (not c or r.random() < 0.7)) else c
    if not pool:
        return None
    return r.choice(pool)


COMMENTS = ['// c', '/* x */', '/**/', '/* a\n * b */', '// "quote', "/* ' */", '// jump @a;', '/* def 0 { */', '// /*', '/* // */',
            '//', "// it's \\", '/* *\n/ */', "/***/"]
_glue = {}


def glue_ok(a, b):
    k = (a, b)
    v = _glue.get(k)
    if v is None:
        try:
            ts = tokenize(a + b, keep_skip=True)
            v = [t.t for t in ts[:-1]] == [a, b]
        except LangError:
            v = False
        if len(_glue) > 50000:
            _glue.clear()
        _glue[k] = v
    return v


def texts(tokens, r, rich=False):
    """token texts and layout hints with random spellings"""
    out = []
    i = 0
    paren = False
    while i < len(tokens):
        t = tokens[i]
        i += 1
        k = t[0]
        if k == 'w':
            out.append(t[1])
        elif k == 'i':
            out.append(spell_int(t[1], r, rich))
        elif k == 'd':
            out.append(spell_dec(t, r, rich))
        elif k == 's' or k == 's1':
            s = spell_str(t[1], r, rich, k == 's1')
            if s is None:
                raise LangError(f'unspellable {t[1]!r}')
            out.append(s)
        elif k == 'ldef':
            out.append('§' if r.random() < (0.5 if rich else 0.3) else '@')
        elif k == 'target':
            if rich and r.random() < 0.5 or r.random() < 0.2:
                out.append('for_' + t[1])
                paren = True
            else:
                out += ['for', t[1]]
                paren = rich and r.random() < 0.5
        elif k == 'lp':
            if paren:
                out.append('(')
        elif k == 'rp':
            if paren:
                out.append(')')
        elif k == 'tc':
            if r.random() < (0.4 if rich else 0.1):
                out.append(',')
        elif k in ('nl', 'in', 'out'):
            out.append(t)
        else:
            raise AssertionError(t)
    return out


NOSPACE_BEFORE = {';', ',', ')', ']', ':', '(', '['}
NOSPACE_AFTER = {'(', '[', '@', '§', '~'}


def render(tokens, r, style='pretty', rich=False):
    """styles: pretty, dense, oneline, random (spaces, newlines and comments everywhere)"""
    ts = texts(tokens, r, rich)
    out = []
    ind = 0
    prev = None
    fresh = True
    unit = r.choice(['    ', '  ', '\t', '   '])
    for t in ts:
        if isinstance(t, tuple):
            if t[0] == 'in':
                ind += 1
            elif t[0] == 'out':
                ind -= 1
            elif t[0] == 'nl' and style == 'pretty' and not fresh:
                out.append('\n')
                fresh = True
            elif t[0] == 'nl' and style == 'oneline':
                if r.random() < 0.2 and not fresh:
                    out.append('\n')
                    fresh = True
            continue
        if style == 'pretty':
            if fresh:
                sep = unit * ind
                if r.random() < 0.04:
                    sep += r.choice(['// c\n', '/* x */', '\n', '/* a\n b */ ']) + unit * ind
            elif t in NOSPACE_BEFORE or prev in NOSPACE_AFTER:
                sep = '' if r.random() < 0.95 else ' '
            else:
                sep = ' '
        elif style == 'dense':
            sep = ''
        elif style == 'oneline':
            sep = '' if fresh or r.random() < 0.4 else ' '
        else:
            parts = []
            while r.random() < 0.55:
                k = r.randrange(14)
                if k < 6:
                    parts.append(' ' * r.randrange(1, 4))
                elif k < 8:
                    parts.append('\n')
                elif k == 8:
                    parts.append('\t')
                elif k == 9:
                    parts.append(r.choice(['\r\n', '\r', '\\\n', '\\  \n', '\\\r\n']))
                else:
                    c = r.choice(COMMENTS)
                    parts.append(c + ('\n' if c.startswith('//') else ''))
            sep = ''.join(parts)
        if prev is not None and sep == '' and not glue_ok(prev, t):
            sep = ' '
        if prev is not None and sep.startswith('/') and not glue_ok(prev, '/* */'):
            sep = ' ' + sep
        if sep.endswith('\\') or (sep and not sep.isspace() and _joins(sep, t)):
            sep += ' '
        out.append(sep)
        out.append(t)
        prev = t
        fresh = False
    if style != 'dense' and r.random() < 0.8:
        out.append('\n')
    elif style == 'random' and r.random() < 0.3:
        out.append(r.choice(['// end', '/* open end', '\\\n', ' ', '\n\n', '/* x */']))
    return ''.join(out)


def _joins(sep, t):
    return False


def check_render(src, tokens_texts=None):
    """the text lexes"""
    return [t.t for t in tokenize(src)[:-1]]
