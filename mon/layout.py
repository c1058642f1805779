"""Programs with macros spread over files, directories and lookup paths."""
from __future__ import annotations
import os
import shutil
import tempfile
from . import gen_prog, progs

DIRS = ['proj', 'proj/sub', 'proj/sub/deep', 'lib', 'lib/a b', 'lib/ünï', 'other/lib', 'Macros', 'Macros/x.y', "it's"]
NAMES = ['m{}.exps', 'lib{}.exps', 'Common {}.exps', 'ü{}.exps', 'x{}', '{}.a.exps', 'macros{}.txt', '.hidden{}.exps']


def calls_of(tokens):
    return {t[1][1:] for t in tokens if t[0] == 'w' and t[1].startswith('~')}


def norm_newlines(s):
    return s.replace('\r\n', '\n').replace('\r', '\n')


def quote(path, rng):
    if "'" in path:
        return '"' + path + '"'
    q = rng.choice('"\'')
    return q + path + q


class Layout:
    """files: {absolute path: text}; macros: [(name, path)]; asts for the reference"""

    def __init__(self, root):
        self.root = root
        self.files = {}
        self.main = None
        self.lookup = []
        self.edges = {}
        self.spelled = set()

    def write(self):
        for p, t in self.files.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', newline='', encoding='utf8') as f:
                f.write(t)

    def show(self):
        return '\n'.join(f'--- {os.path.relpath(p, self.root)}\n{t}' for p, t in sorted(self.files.items())) + \
            f'\n--- main {os.path.relpath(self.main, self.root)}, lookup {[os.path.relpath(x, self.root) for x in self.lookup]}'


class Scratch:
    def __enter__(self):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='vp_lay_', dir=base))
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def spread(rng, root, ms, main_tokens, single=False, style=None):
    """a layout for macros ms = [(name, params, tokens)] (callees come later in the list) and a main program"""
    lay = Layout(root)
    nf = 1 if single else rng.choice([2, 2, 3, 3, 4, 5, 7, rng.choice([2, 3, 4, 12])])
    level = sorted(rng.randrange(nf) for _ in ms) if rng.random() < 0.7 else sorted([0] + [rng.randrange(1, nf) if nf > 1 else 0
                                                                                         for _ in ms])[1:]
    where = {m[0]: lv for m, lv in zip(ms, level)}
    need = set()
    for name, _, toks in ms:
        for c in calls_of(toks):
            if where[c] != where[name]:
                need.add((where[name], where[c]))
    for c in calls_of(main_tokens):
        if where[c]:
            need.add((0, where[c]))
    # a file may be reached through others
    edges = set()
    for a, b in sorted(need, key=lambda e: rng.random()):
        if rng.random() < 0.35 and b - a > 1:
            mid = rng.randrange(a + 1, b)
            edges |= {(a, mid), (mid, b)}
        else:
            edges.add((a, b))
    for _ in range(rng.choice([0, 0, 1, 2])):
        a, b = rng.randrange(nf), rng.randrange(nf)
        if a < b:
            edges.add((a, b))
    dirs = rng.sample(DIRS, rng.randrange(1, min(len(DIRS), 5) + 1))
    paths = []
    for i in range(nf):
        while True:
            d = rng.choice(dirs)
            p = os.path.join(root, d, 'main.exps' if i == 0 and rng.random() < 0.8 else rng.choice(NAMES).format(rng.randrange(4)))
            if p not in paths:
                break
        paths.append(p)
    lay.main = paths[0]
    lookup = []
    imports = {i: [] for i in range(nf)}
    es = sorted(edges, key=lambda e: rng.random())
    # lookup directories: some that hold files, some that hold nothing or other files, before and after
    lk = [os.path.dirname(p) for p in paths[1:]] + [os.path.join(root, d) for d in rng.sample(DIRS, 2)] + [root, root + '/none']
    rng.shuffle(lk)
    for d in lk[:rng.choice([0, 1, 2, 3, 5])]:
        if d not in lookup:
            lookup.append(d)
    if rng.random() < 0.5:
        for _, b in es:
            if rng.random() < 0.5 and os.path.dirname(paths[b]) not in lookup:
                lookup.insert(rng.randrange(len(lookup) + 1), os.path.dirname(paths[b]))
    lay.lookup = lookup
    for a, b in es:
        for _ in range(2 if rng.random() < 0.1 else 1):
            imports[a].append(spell(rng, lay, paths, a, b))
    # files
    bodies = {i: [] for i in range(nf)}
    for (name, ps, toks), lv in zip(ms, level):
        bodies[lv].append(toks)
    for i in range(nf):
        rng.shuffle(bodies[i])
        toks = [x for t in bodies[i] for x in t]
        if i == 0:
            if rng.random() < 0.2:
                cut = rng.randrange(len(bodies[0]) + 1)
                toks = [x for t in bodies[0][:cut] for x in t] + main_tokens + [x for t in bodies[0][cut:] for x in t]
            else:
                toks = toks + main_tokens
        st = style or rng.choice(progs.STYLES)
        text = gen_prog.render(toks, rng, st, rng.random() < 0.15)
        head = ''.join(f'import{rng.choice([" ", "  ", ""])}{quote(x, rng)}{rng.choice([";", " ;"])}{rng.choice([chr(10), " ", "", chr(10) * 2])}'
                       for x in imports[i])
        if rng.random() < 0.1:
            head = rng.choice(['// head\n', '/* head */ ', '\n\n', '//?: name: x\n']) + head
        if head.endswith(';') and text.startswith('/'):
            head += ' '
        lay.files[paths[i]] = norm_newlines(head + text)
    decoys(rng, lay, paths, es, ms)
    lay.edges = {paths[a]: [paths[x] for y, x in es if y == a] for a in range(nf)}
    lay.nfiles = nf
    lay.paths = paths
    lay.imports = imports
    return lay


def spell(rng, lay, paths, a, b):
    """a spelling of the import of file b in file a"""
    target, base = paths[b], os.path.dirname(paths[a])
    opts = ['rel', 'rel', 'abs', 'lookup', 'lookup', 'lookup']
    rng.shuffle(opts)
    for o in opts:
        if o == 'abs':
            lay.spelled.add('absolute')
            k = rng.random()
            if k < 0.2:
                d, n = os.path.split(target)
                lay.spelled.add('absolute with dots')
                return d + '/./../' + os.path.basename(d) + '/' + n
            return target
        if o == 'rel':
            r = os.path.relpath(target, base)
            k = rng.random()
            if not r.startswith('.') or r.startswith('.h'):
                r = './' + r
            if k < 0.2:
                r = './' + r
            elif k < 0.3:
                r = '../' + os.path.basename(base) + '/' + r
            lay.spelled.add('relative up' if r.startswith('..') else 'relative')
            return r
        # through the lookup paths: the first directory that has such a file
        cands = []
        for i, d in enumerate(lay.lookup):
            if os.path.commonpath([d, target]) == d:
                r = os.path.relpath(target, d)
                # directories before this one must not hold it
                if r.startswith('.') or any(os.path.join(e, r) in paths for e in lay.lookup[:i]):
                    continue
                cands.append((i, r))
        if cands:
            i, r = rng.choice(cands)
            lay.spelled.add('lookup' if '/' not in r else 'lookup with directories')
            if i:
                lay.spelled.add('lookup behind others')
            return r
    return target


def decoys(rng, lay, paths, es, ms):
    """files of the same name with other macros, in places that come later or do not count"""
    bad = ''.join(f'macro {n}({", ".join(ps)}) {{ decoy(); }}\n' for n, ps, _ in ms)
    known = set(paths)
    blocked = set()
    for a, b in es:
        # every place a right resolution looks at before it finds b must stay empty
        for i, d in enumerate(lay.lookup):
            if os.path.commonpath([d, paths[b]]) == d:
                r = os.path.relpath(paths[b], d)
                blocked |= {os.path.join(e, r) for e in lay.lookup[:i]}
    blocked |= {os.path.join(os.path.dirname(p), '.') for p in paths}
    n = 0
    for a, b in es:
        for i, d in enumerate(lay.lookup + [os.path.dirname(p) for p in paths]):
            if rng.random() < 0.4:
                for r in {os.path.basename(paths[b]), os.path.relpath(paths[b], lay.root)}:
                    p = os.path.join(d, r)
                    if p not in known and p not in blocked and not any(k.startswith(p + '/') or p.startswith(k + '/') for k in known):
                        lay.files[p] = bad
                        known.add(p)
                        n += 1
    lay.decoys = n

