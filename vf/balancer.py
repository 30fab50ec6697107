"""Reference statement of what a belt_balancer layout must look like (independent of the code under test)."""
from . import flow, phys
from .phys import DOWN, EMPTY, LEFT, RIGHT


def boundary(g):
    """({edge crossing: optional?} for inputs, same for outputs); crossing = (x, y, direction)."""
    ins = {w['src'][1:4]: w['optional'] for w in g.wires if w['src'][0] == 'edge'}
    outs = {w['dst'][1:4]: w['optional'] for w in g.wires if w['dst'][0] == 'edge'}
    return ins, outs


def blocks(found, lanes, count):
    """Positions k such that the crossings lanes[k:k+count] may be exactly the live ones."""
    must = {c for c, opt in found.items() if not opt}
    res = []
    for k in range(len(lanes) - count + 1):
        block = lanes[k:k + count]
        if must <= set(block) and all(c in found for c in block):
            res.append(k)
    return res


def ends_problem(rows, g, n_in, n_out, mode, use_ends):
    h, w = len(rows), len(rows[0])
    ins, outs = boundary(g)
    if mode == 'custom':
        return None
    left = [(0, y) for y in range(h)]
    if mode == '90':
        end, d_out = [(x, h - 1) for x in range(w)], DOWN
    elif mode == '180':
        end, d_out = left, LEFT
        use_ends = True
    else:
        end, d_out = [(w - 1, y) for y in range(h)], RIGHT
    a = blocks(ins, [(x, y, RIGHT) for x, y in left], n_in)
    b = blocks(outs, [(x, y, d_out) for x, y in end], n_out)
    if not a:
        return f'the inputs are not {n_in} contiguous belts entering at the left edge: {sorted(ins)}'
    if not b:
        return f'the outputs are not {n_out} contiguous belts leaving at the expected edge: {sorted(outs)}'
    at = lambda p: rows[p[1]][p[0]]
    a = [k for k in a if n_in == h or all(at(p)[0] == 'belt' for p in left[k:k + n_in])]
    b = [k for k in b if all(at(p)[0] == 'belt' for p in end[k:k + n_out])]
    if not a or not b:
        return 'an input or output is not a belt'
    if not use_ends:
        a = [k for k in a if n_in == h or all(at(p) == EMPTY for i, p in enumerate(left) if not k <= i < k + n_in)]
        b = [k for k in b if n_out == len(end) or all(at(p) == EMPTY for i, p in enumerate(end) if not k <= i < k + n_out)]
        if not a or not b:
            return 'an end tile beside the inputs or outputs is not empty'
    if mode == 'aligned':
        ok = any(i <= j and j + n_out <= i + n_in if n_in >= n_out else j <= i and i + n_in <= j + n_out for i in a for j in b)
        if not ok:
            return 'inputs and outputs are not aligned'
    return None


def covered_tunnel(rows):
    """A tunnel that runs under empty tiles only (always skipped by the tools), or None."""
    L = phys.Layout(rows)
    for x, y, t in L.cells():
        if t[0] == 'ug' and t[2]:
            st, n, q = phys.ug_walk(L, x, y)
            if st != 'pair':
                continue
            if all(L.at(L.step(x, y, t[1], i + 1)) == EMPTY for i in range(n)):
                return (x, y)
    return None


def problem(rows, net, w, h, ul, mode='', use_ends=False):
    """Why this layout is not an answer to the request, or None."""
    if len(rows) != h or any(len(r) != w for r in rows):
        return f'the layout is not {w}x{h}'
    bad = phys.base_violation(rows, 10 ** 9 if ul == -1 else ul, (False, False), (False,) * 4, (True,) * 4)
    if bad:
        return 'illegal layout: ' + bad
    g = flow.Graph(rows)
    (_, n_in), = flow.io_colours(net)[0]
    (_, n_out), = flow.io_colours(net)[1]
    ok, why = flow.realises(g, net)
    if not ok:
        return why
    return ends_problem(rows, g, n_in, n_out, mode, use_ends)
