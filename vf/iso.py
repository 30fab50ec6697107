"""Isomorphism of splitter networks (independent of the code under test)."""


def colours(net):
    return {c for n in net for s in n for c in s if c is not None}


def _signature(net):
    """Colour refinement: colour -> stable label."""
    lab = {c: 0 for c in colours(net)}
    for _ in range(len(lab) + 1):
        occ = {c: [] for c in lab}
        for ins, outs in net:
            ki = sorted((-1 if c is None else lab[c]) for c in ins)
            ko = sorted((-1 if c is None else lab[c]) for c in outs)
            for c in ins:
                if c is not None:
                    occ[c].append((0, tuple(ki), tuple(ko)))
            for c in outs:
                if c is not None:
                    occ[c].append((1, tuple(ki), tuple(ko)))
        raw = {c: (lab[c], tuple(sorted(v))) for c, v in occ.items()}
        yield raw
        order = {k: i for i, k in enumerate(sorted(set(raw.values())))}
        lab = {c: order[k] for c, k in raw.items()}


def multiset(net, m=None):
    res = {}
    for ins, outs in net:
        f = (lambda c: -1 if c is None else c) if m is None else (lambda c: -1 if c is None else m[c])
        k = (tuple(sorted(map(f, ins))), tuple(sorted(map(f, outs))))
        res[k] = res.get(k, 0) + 1
    return res


def same_up_to_order(a, b):
    """Equal as multisets of nodes, with the two belts of a side interchangeable."""
    return multiset(a) == multiset(b)


def isomorphic(a, b, budget=20000):
    """Is there a renaming of colours that turns a into b?  None when the search is too long."""
    if len(a) != len(b) or len(colours(a)) != len(colours(b)):
        return False
    sa = sb = None
    budget = max(200, budget * 8 // max(8, len(a)))
    classes = 0
    for ra, rb in zip(_signature(a), _signature(b)):
        if sorted(ra.values()) != sorted(rb.values()):
            return False
        sa, sb = ra, rb
        if len(set(ra.values())) == classes:
            break    # stable
        classes = len(set(ra.values()))
    if sa is None:
        return same_up_to_order(a, b)
    want = multiset(b)
    steps = [0]
    order = sorted(sa, key=lambda c: (sum(v == sa[c] for v in sa.values()), repr(sa[c]), c if isinstance(c, int) else repr(c)))
    by = {}
    for c, k in sb.items():
        by.setdefault(k, []).append(c)

    def rec(i, m, used):
        steps[0] += 1
        if steps[0] > budget:
            raise TimeoutError
        if i == len(order):
            return multiset(a, m) == want
        c = order[i]
        for d in by.get(sa[c], ()):
            if d in used:
                continue
            m[c] = d
            if consistent(m) and rec(i + 1, m, used | {d}):
                return True
            del m[c]
        return False

    def consistent(m):
        have = {}
        for ins, outs in a:
            if all(c is None or c in m for c in ins + outs):
                f = lambda c: -1 if c is None else m[c]
                k = (tuple(sorted(map(f, ins))), tuple(sorted(map(f, outs))))
                have[k] = have.get(k, 0) + 1
                if have[k] > want.get(k, 0):
                    return False
        return True
    try:
        return rec(0, {}, frozenset())
    except TimeoutError:
        return None
