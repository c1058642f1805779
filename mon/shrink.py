"""Greedy delta reduction of witnesses (diagnosis only; the unreduced witness stays in the replay file)."""
import time


def ddlist(items, bad, budget=20.0, max_tests=3000):
    """smallest sublist found for which bad(sublist) still holds"""
    t0 = time.monotonic()
    n = len(items)
    size = max(1, n // 2)
    tests = 0
    while size >= 1:
        i = 0
        changed = False
        while i < len(items):
            cand = items[:i] + items[i + size:]
            tests += 1
            if tests > max_tests or time.monotonic() - t0 > budget:
                return items
            if cand and bad(cand):
                items = cand
                changed = True
            else:
                i += size
        if size == 1 and not changed:
            break
        size = size // 2 if size > 1 else (1 if changed else 0)
    return items


def shrink_source(src, bad, budget=20.0):
    """bad(text) -> bool; tries to drop token ranges (balanced groups first)"""
    from .lang import tokenize, LangError
    try:
        toks = [t.t for t in tokenize(src)[:-1]]
    except LangError:
        return src

    def join(ts):
        return ' '.join(ts)

    def ok(ts):
        try:
            return bad(join(ts))
        except Exception:
            return False
    if not ok(toks):
        return src
    t0 = time.monotonic()
    # remove statement-like ranges: [i, j) where j ends at ';' or a matching '}'
    changed = True
    while changed and time.monotonic() - t0 < budget:
        changed = False
        for i in range(len(toks)):
            for j in ends(toks, i):
                cand = toks[:i] + toks[j:]
                if cand and ok(cand):
                    toks = cand
                    changed = True
                    break
            if changed or time.monotonic() - t0 > budget:
                break
    toks = ddlist(toks, ok, max(1.0, budget - (time.monotonic() - t0)))
    return join(toks)


def ends(toks, i):
    out = []
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t in '{([' and t:
            depth += 1
        elif t and t in '})]':
            depth -= 1
            if depth < 0:
                break
            if depth == 0:
                out.append(j + 1)
        elif t == ';' and depth == 0:
            out.append(j + 1)
        elif t == ':' and depth == 0:
            out.append(j + 1)
        if len(out) >= 6:
            break
    return sorted(out, reverse=True)
