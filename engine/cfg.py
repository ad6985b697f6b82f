"""CFG facts per function: RPO, dominators, natural loops."""


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.parent = None
        self.latches = []
        self.line = 0

    def __repr__(self):
        return 'Loop(%s)' % self.header


def analyse(fn):
    if hasattr(fn, 'cfg'):
        return fn.cfg
    entry = fn.order[0]
    succ = {b: [s for s in fn.blocks[b].succ] for b in fn.order}
    # rpo
    seen, post = set(), []
    st = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    dom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in dom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = dom[x]
                            while idx[y] > idx[x]:
                                y = dom[y]
                        new = x
            if dom.get(b) != new:
                dom[b] = new
                changed = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = dom[b]
    loops = {}
    irreducible = False
    for b in rpo:
        for s in succ[b]:
            if idx[s] <= idx[b]:
                if not dominates(s, b):
                    irreducible = True
                    continue
                L = loops.setdefault(s, Loop(s))
                L.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    work.extend(pred[x])
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(ls):
        for m in ls[i + 1:]:
            if l.header in m.blocks and l is not m:
                l.parent = m
                break
    innermost = {}
    for l in reversed(ls):
        for b in l.blocks:
            innermost[b] = l

    class C:
        pass
    c = C()
    c.rpo, c.idx, c.pred, c.succ, c.loops, c.inner = rpo, idx, pred, succ, loops, innermost
    c.entry = entry
    c.irreducible = irreducible
    for l in ls:
        ln = [i.line for i in fn.blocks[l.header].ins if i.line]
        l.line = ln[0] if ln else 0
    fn.cfg = c
    return c
