"""Reference semantics of the collectives (what MPI promises), on abstract element lists."""

TS = {'long': 8, 'int': 4, 'double': 8, 'float': 4, 'char': 1, 'byte': 1, 'short': 2, 'unsigned': 4}


def geometry(op, n):
    """counts/displs (elements) as used by the driver."""
    c = list(op.get('counts') or [op.get('count', 1)])
    if len(c) == 1:
        c = c * n
    d = op.get('displs')
    if not d:
        d = [0]
        for i in range(1, n):
            d.append(d[-1] + c[i - 1])
    return c, list(d)


def sizes(op, n, r):
    c, d = geometry(op, n)
    ext = max([d[i] + c[i] for i in range(n)] + [0])
    k = op['coll'][2:] if op['coll'].startswith('b_') else op['coll']
    cnt = op.get('count', 1)
    root = op.get('root', 0)
    if k in ('allreduce', 'reduce'):
        return cnt, cnt
    if k == 'bcast':
        return 0, cnt
    if k.startswith('allgather'):
        return c[r], ext
    if k.startswith('gather'):
        return c[r], ext if r == root else 0
    if k.startswith('scatter'):
        return (ext if r == root else 0), (0 if op.get('inplace') and r == root else c[r])
    if k.startswith('reduce_scatter'):
        return sum(c), (sum(c) if op.get('inplace') else c[r])
    raise ValueError(k)


def contributions(op, n, r):
    """List of (element index in rank r's receive buffer, sources): sources is a list of (rank, which, elem index),
    which in 's','r' (receive buffer before the call); the element must be the sum of its sources (exactly that value
    for a single source). Elements of the receive buffer not listed must keep their previous value when listed in
    untouched()."""
    c, d = geometry(op, n)
    k = op['coll'][2:] if op['coll'].startswith('b_') else op['coll']
    cnt = op.get('count', 1)
    root = op.get('root', 0)
    inp = op.get('inplace', 0)
    out = []
    if k == 'allreduce' or (k == 'reduce' and r == root):
        for i in range(cnt):
            src = []
            for q in range(n):
                w = 'r' if inp and (k == 'allreduce' or q == root) else 's'
                src.append((q, w, i))
            out.append((i, src))
    elif k == 'reduce':
        pass
    elif k == 'bcast':
        for i in range(cnt):
            out.append((i, [(root, 'r', i)]))
    elif k.startswith('allgather') or (k.startswith('gather') and r == root):
        for q in range(n):
            for i in range(c[q]):
                ip = inp and (k.startswith('allgather') or q == root)
                out.append((d[q] + i, [(q, 'r' if ip else 's', d[q] + i if ip else i)]))
    elif k.startswith('gather'):
        pass
    elif k.startswith('scatter'):
        for i in range(0 if inp and r == root else c[r]):
            out.append((i, [(root, 's', d[r] + i)]))
    elif k.startswith('reduce_scatter'):
        o = sum(c[:r])
        for i in range(c[r]):
            out.append((i, [(q, 'r' if inp else 's', o + i) for q in range(n)]))
    return out


def untouched(op, n, r):
    """Receive-buffer elements the operation must leave alone (gaps of the v-variants; in-place reduce-scatter tails excluded)."""
    k = op['coll'][2:] if op['coll'].startswith('b_') else op['coll']
    _, rn = sizes(op, n, r)
    if k.startswith('reduce_scatter') and op.get('inplace'):
        return []
    if k == 'reduce' and r != op.get('root', 0):
        return []          # not significant at non-root ranks
    w = {i for i, _ in contributions(op, n, r)}
    return [i for i in range(rn) if i not in w]


def opstr(op):
    s = op['coll']
    for k in ('count', 'root', 'inplace', 'insig', 'rop'):
        if k in op:
            s += ':%s=%d' % (k, op[k])
    if 'type' in op:
        s += ':type=' + op['type']
    for k in ('counts', 'displs'):
        if op.get(k):
            s += ':%s=%s' % (k, ','.join(map(str, op[k])))
    return s
