"""Scripts for the drivers: behaviours generated by TLC plus seeded random
operation sequences.  No expectation about results appears here."""


def behaviours(behs, cfg, rng, limit):
    """One script line per step of each generated behaviour."""
    out = []
    all_ = behs.get(cfg, [])
    for b in (rng.sample(all_, limit) if len(all_) > limit else all_):
        out.append('Reset')
        for step in b:
            out.append(' '.join(str(x) for x in step))
    return out


def chunks(lines, n, start='Reset'):
    """Split a list of lines in n scripts at the lines that begin with start."""
    blocks, cur = [], []
    for l in lines:
        if l.split(' ')[0] == start and cur:
            blocks.append(cur)
            cur = []
        cur.append(l)
    if cur:
        blocks.append(cur)
    out = [[] for _ in range(n)]
    for i, b in enumerate(blocks):
        out[(i + i // n) % n] += b
    return ['\n'.join(o) + '\n' for o in out if o]


# ---------------------------------------------------------------- C11
def queue(pid, rng, behs, th):
    lines = behaviours(behs, 'GenEventQueue', rng, 2000 if th else 200)
    for _ in range(400 if th else 60):
        lines.append('Reset')
        mode = rng.choice(['sorted', 'mixed', 'mixed', 'batch'])
        size = 0
        few = rng.sample(range(27), rng.choice([2, 3, 6, 27]))
        for _ in range(rng.choice([20, 60, 60, 160])):
            r = rng.random()
            t = rng.choice(few)
            i = rng.choice([0, 1, 2, 3, 7, -1, 100000, 2147483647])
            if r < 0.45 and size < 40:
                op = {'sorted': 'SortedAdd', 'batch': 'Add'}.get(mode) or rng.choice(['Add', 'SortedAdd', 'SortedAdd', 'SortedAdd'])
                lines.append('%s %d %d' % (op, i, t))
                size += 1
            elif r < 0.75 and size:
                lines.append('Pop')
                size -= 1
            elif r < 0.9:
                lines.append('Sort')
            else:
                lines.append('At %d' % rng.choice([0, size - 1, size, -1, 3, 1000]))
    # long batches: more than the insertion-sort cutoff of std::sort
    for big in [60, 60, 300] * (4 if th else 1):
        lines.append('Reset')
        for k in range(big):
            lines.append('Add %d %d' % (k, rng.randrange(27)))
        lines.append('Sort')
        for k in range(10):
            lines.append('SortedAdd %d %d' % (100 + k, rng.randrange(27)))
        lines += ['Pop'] * (big + 10)
    lines.append('Reset')
    for k in range(200):
        lines.append('SortedAdd %d %d' % (k, rng.randrange(27)))
    lines += ['Pop'] * 200
    return chunks(lines, 8)


# ---------------------------------------------------------------- C12
def walker(pid, rng, behs, th):
    lines = behaviours(behs, 'GenWalkerRecord', rng, 2000 if th else 200)
    ids = [0, 1, 2, 5, -1, -7, 99999, 2147483647, -2147483647]
    for _ in range(600 if th else 100):
        lines.append('Reset')
        for _ in range(40):
            w = rng.randint(1, 4)
            op = rng.choice(['Occupy', 'SetPotential', 'SetDwell', 'Occupy', 'SetPotential', 'SetDwell', 'Copy', 'Fresh'])
            if op == 'Fresh':
                lines.append('Fresh %d' % w)
            elif op == 'Copy':
                lines.append('Copy %d %d' % (w, rng.choice([v for v in (1, 2, 3, 4) if v != w])))
            else:
                lines.append('%s %d %d' % (op, w, rng.randrange(12) if op == 'SetDwell' else rng.choice(ids)))
    return chunks(lines, 4)


# ---------------------------------------------------------------- C27..C30
def lattice(pid, rng, behs, th):
    lines = [x for x in behaviours(behs, 'GenLattice', rng, 1500 if th else 300) if x != 'Reset']
    hs = [1, 2, 3, 5, 7, 8, 9, 11, 13, 17, 18, 19, 25, 32, 33, 50, 51, 72, 73, 99, 201, 2001]
    sizes = [(a, b, c) for a in range(1, 6) for b in range(1, 6) for c in range(1, 6) if a * b * c <= 40]
    n = {'C27': 120, 'C28': 100, 'C29': 120, 'C30': 0}[pid] * (6 if th else 1)
    extra = [(7, 1, 1), (1, 9, 2), (2, 1, 11), (8, 3, 1), (1, 1, 13), (6, 5, 2)]
    for _ in range(n):
        a, b, c = rng.choice(sizes + extra * 3)
        sp = rng.randrange(10)
        ctor = rng.choice([7, 7, 7, 7, 7, 3, 4])
        per = [rng.randint(0, 1) for _ in range(3)] if ctor == 7 else [0, 0, 0]
        lines.append('New %d %d %d %d %d %d %d %d' % ((a, b, c, sp) + tuple(per) + (ctor,)))
        tot = a * b * c
        if pid == 'C27':
            if rng.random() < 0.3:
                bad = [a, b, c]
                bad[rng.randrange(3)] = -rng.randint(1, 4)
                lines.append('New %d %d %d %d 1 0 1 %d' % (tuple(bad) + (sp, rng.choice([3, 4, 7]))))
            for i in range(-2, min(tot, 40) + 2):
                lines.append('Pos %d' % i)
                lines.append('Coord %d' % i)
            for i in (-tot, -2147483647, 2147483647, tot * 3):
                lines.append('Pos %d' % i)
                lines.append('Coord %d' % i)
            for _ in range(40):
                big = rng.choice([1, 1, 3, 1000])
                p = [rng.randint(-2 * s * big, 3 * s * big) if rng.random() < 0.5 else rng.randrange(s) for s in (a, b, c)]
                lines.append('Index %d %d %d' % tuple(p))
                k = rng.choice([3, 3, 3, 0, 1, 2, 4, 5])
                q = (p + [0, 0])[:k]
                lines.append('IndexV %d %s' % (k, ' '.join(map(str, q))))
        elif pid == 'C28':
            for i in list(rng.sample(range(tot), min(tot, 5))) + [0, tot - 1, -1, tot]:
                lines.append('Neigh %d %d' % (i, rng.choice(hs)))
            for _ in range(5):
                lines.append('NeighTo %d %d' % (rng.randrange(tot), rng.randrange(tot)))
            for _ in range(3):
                p = [rng.randint(-1, s) if rng.random() < 0.2 else rng.randrange(s) for s in (a, b, c)]
                lines.append('NeighPos %d %d %d %d' % (p[0], p[1], p[2], rng.choice(hs)))
            if rng.random() < 0.2:
                lines.append('NeighPosV %d 0 0 0 0 0' % rng.choice([0, 1, 2, 4]))
            for _ in range(2):
                lines.append('NeighAll %d' % rng.choice(hs))
        elif pid == 'C29':
            lines.append('DistAll')
            for _ in range(6):
                lines.append('Dist %d %d' % (rng.randint(-1, tot), rng.randint(-1, tot)))
    if pid == 'C27':  # large lattices
        for _ in range(120 if th else 24):
            a, b, c = sz = [rng.choice([1, 3, 17, 64, 101, 300, 1000]) for _ in range(3)]
            tot = a * b * c
            lines.append('New %d %d %d %d %d %d %d 7' % (a, b, c, rng.randrange(10), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1)))
            for i in [rng.randrange(tot) for _ in range(15)] + [0, tot - 1, tot, -1, a - 1, min(tot - 1, a), min(tot - 1, a * b)]:
                lines.append('Pos %d' % i)
                lines.append('Coord %d' % i)
            for _ in range(20):
                lines.append('Index %d %d %d' % tuple(rng.randint(-4 * x, 5 * x) if rng.random() < 0.3 else rng.choice([0, x - 1, rng.randrange(x)]) for x in sz))
    if pid == 'C28':  # long lattices
        for _ in range(40 if th else 8):
            sz = [rng.choice([30, 57, 130, 300]), rng.choice([1, 1, 2]), 1]
            rng.shuffle(sz)
            tot = sz[0] * sz[1] * sz[2]
            lines.append('New %d %d %d %d %d %d %d 7' % (sz[0], sz[1], sz[2], rng.randrange(10), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1)))
            for i in [0, tot - 1, rng.randrange(tot), rng.randrange(tot)]:
                lines.append('Neigh %d %d' % (i, rng.choice([9, 201, 800, 2001, 20000, 200001, 1000000])))
    if pid == 'C29':  # large lattices, single distances
        for _ in range(200 if th else 40):
            s = [rng.choice([1, 2, 17, 50, 64, 101, 300, 800]) for _ in range(3)]
            tot = s[0] * s[1] * s[2]
            lines.append('New %d %d %d %d %d %d %d 7' % (s[0], s[1], s[2], rng.randrange(10), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1)))
            for _ in range(12):
                lines.append('Dist %d %d' % (rng.randrange(tot), rng.randrange(tot)))
    if pid == 'C30':
        lines = []
        for _ in range(300 if th else 60):
            a, b, c = rng.choice([(1, 1, 1), (2, 3, 4), (4, 3, 2), (3, 4, 2), (5, 1, 2), (1, 5, 2), (2, 2, 2), (6, 2, 3), (1, 7, 3), (8, 1, 1), (1, 1, 8), (3, 3, 3), (2, 6, 1),
                                  (12, 1, 3), (1, 20, 2), (2, 1, 30), (40, 1, 1), (1, 40, 1), (25, 3, 1), (1, 1, 70)])
            lines.append('New %d %d %d 0 %d %d %d 7' % (a, b, c, rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1)))
            for d in rng.sample([1, 2, 3], 3):
                size = (a, b, c)[d - 1]
                plane = a * b * c // size
                k = rng.randrange(size)
                small = plane <= 6
                lines.append('Rand %d %d %d %d' % (d, k, 20000, 1 if small else 0))
                lines.append('Rand %d %d 10 0' % (d, rng.choice([-1, size, size + 3, -2147483647, 2147483647, -size])))
    return chunks(lines, 16 if th else 8, start='New')


# ---------------------------------------------------------------- C26
def rates(pid, rng, behs, th):
    lines = behaviours(behs, 'GenRateGraph', rng, 2000 if th else 150)
    for _ in range(500 if th else 80):
        ids = rng.sample([0, 1, 2, 3, 4, 5, -1, -50, 1000000, 2147483647, -2147483647], rng.randint(2, 7))
        if rng.random() < 0.15:
            ids = list(range(20)) + ids
        lines.append('Reset')
        cell, known = 1, {}
        hub = rng.choice(ids) if rng.random() < 0.2 else None  # a site with many rates
        if hub is not None:
            ids = list(range(100, 100 + rng.choice([15, 40]))) + ids
        for _ in range(rng.choice([60, 150]) if hub is not None else rng.choice([10, 40, 90])):
            r = rng.random()
            i, j = rng.choice(ids), rng.choice(ids)
            if hub is not None and rng.random() < 0.8:
                i, j = rng.choice([(hub, j), (hub, j), (i, hub)])
            if r < 0.35:
                if (i, j) in known and rng.random() < 0.5:  # the very same rate again
                    lines.append('Add %d %d %d' % (i, j, known[i, j]))
                else:
                    lines.append('Add %d %d %d' % (i, j, cell))
                    known.setdefault((i, j), cell)
                    cell += 1
            elif r < 0.45:
                new = []
                for _ in range(rng.randint(1, 5)):
                    a, b = rng.choice(ids), rng.choice(ids)
                    if (a, b) not in known:
                        known[a, b] = cell
                        new.append('%d %d %d' % (a, b, cell))
                        cell += 1
                if new:
                    lines.append('AddMany %d %s' % (len(new), ' '.join(new)))
            elif r < 0.65:
                lines.append('Get %d %d' % (i, j))
            elif r < 0.8:
                lines.append('Counts %d' % i)
            elif r < 0.9:
                lines.append('Lists %d' % i)
            else:
                lines.append('Ends')
        if known and rng.random() < 0.5:
            a, b = rng.choice(sorted(known))
            lines.append('AddMany 2 %d %d %d 77 78 %d' % (a, b, rng.choice([cell, known[a, b]]), cell + 1))
    return chunks(lines, 4)


# ---------------------------------------------------------------- C13..C15
def site(pid, rng, behs, th):
    lines = behaviours(behs, 'GenSiteModel', rng, 1000 if th else (120 if pid != 'C14' else 10))
    ids = [1, 2, 3, 4, 9, -7, 1000000, 0, 55]
    big = lambda: rng.choice([1, 1, 2, 3, 7, 10, 60, 99, 800])
    for _ in range({'C13': 60, 'C14': 30, 'C15': 60}[pid] * (6 if th else 1)):
        lines.append('ResetUnit %d' % rng.choice([0, 0, 10, -10, 40, -60, 300, -300]))
        cell = 1
        nbs = {1: {}, 2: {}, 3: {}}
        val = {}
        occ = {1: 0, 2: 0, 3: 0}
        small = pid == 'C14'
        for s in (1, 2, 3):
            if rng.random() < 0.7:
                k = rng.sample(ids, rng.randint(1, 6))
                ent = []
                for n in k:
                    v = rng.choice([1, 2, 3, 5, 8]) if small else big()
                    ent.append('%d %d %d' % (n, cell, v))
                    nbs[s][n] = cell
                    val[cell] = v
                    cell += 1
                lines.append('SetRates %d %d %s' % (s, len(ent), ' '.join(ent)))
        for _ in range(12 if small else 30):
            s = rng.randint(1, 3)
            r = rng.random()
            v = rng.choice([1, 2, 3, 5, 8]) if small else big()
            if pid == 'C15' or r < 0.25:
                op = rng.choice(['Occupy', 'Occupy', 'Vacate', 'Vacate', 'Remove', 'SetStatus', 'SetVisits'])
                if op == 'Occupy':
                    lines.append('Occupy %d %d' % (s, rng.randint(0, 1)))
                    occ[s] += 1
                elif op == 'Vacate' and (occ[s] > 0 or rng.random() < 0.2):
                    lines.append('Vacate %d %d' % (s, rng.randint(0, 1)))
                    occ[s] -= 1
                elif op == 'Remove' and (occ[s] > 0 or rng.random() < 0.2):
                    lines.append('Remove %d %d' % (s, rng.choice([0, 1, 2, 3, 7, -1, -5, 100000, 2147483647, -2147483647])))
                    occ[s] -= 1
                elif op == 'SetStatus' and rng.random() < 0.4:
                    occ[s] = rng.randint(0, 1)
                    lines.append('SetStatus %d %d' % (s, occ[s]))
                elif op == 'SetVisits' and rng.random() < 0.4:
                    lines.append('SetVisits %d %d %d' % (s, rng.choice([0, 1, 7, 1000000]), rng.randint(0, 1)))
            elif r < 0.5:
                free = [n for n in ids if n not in nbs[s]]
                if free and len(nbs[s]) < 7:
                    n = rng.choice(free)
                    c = rng.choice([cell, cell, rng.randint(1, cell)])
                    lines.append('AddNeigh %d %d %d %d' % (s, n, c, v))
                    nbs[s][n] = c
                    val[c] = v
                    cell = max(cell, c + 1)
            elif r < 0.56 and len(nbs[s]) < 7:  # several rates in one go, in addition to those there
                ent = []
                for n in rng.sample(ids, rng.randint(1, 3)):
                    ent.append('%d %d %d' % (n, cell, v))
                    nbs[s][n] = cell
                    val[cell] = v
                    cell += 1
                lines.append('SetRates %d %d %s' % (s, len(ent), ' '.join(ent)))
            elif r < 0.75:
                n = rng.choice(list(nbs[s]) or ids)
                c = rng.choice([cell, nbs[s].get(n, cell)])
                lines.append('ResetNeigh %d %d %d %d' % (s, n, c, v))
                nbs[s][n] = c
                val[c] = v
                cell = max(cell, c + 1)
            elif val and not small:
                c = rng.choice(list(val))
                lines.append('Mutate %d %d' % (c, v))
                val[c] = v
            if small and r > 0.8:
                # refresh the site, then draw
                n = rng.choice(list(nbs[s]) or ids)
                c = nbs[s].get(n, cell)
                lines.append('ResetNeigh %d %d %d %d' % (s, n, c, v))
                nbs[s][n] = c
                val[c] = v
                cell = max(cell, c + 1)
                tot = sum(val[x] for x in nbs[s].values())
                lines.append('Draw %d %d %d %d' % (s, rng.randint(1, 10**9), 20000, tot))
                lines.append('Runs %d %d %d %d %d' % (s, rng.randint(1, 10**9), 20000, 400000 if rng.random() < 0.25 else 20000, tot))
                s1 = rng.randint(1, 10**6)
                lines.append('Seeds %d %d %d' % (s, s1, rng.choice([rng.randint(10**6 + 1, 10**7), s1 + 2**rng.randint(0, 31)])))
        if pid in ('C13', 'C14'):
            for _ in range(2):
                k = rng.sample(ids, rng.randint(1, 5))
                base = rng.choice([0, -40, 100, -900])
                span = rng.choice([0, 10, 40, 60])
                lines.append('Wide %d %d %s' % (rng.randint(1, 10**9), len(k), ' '.join('%d %d %d' % (n, rng.randint(1, 1000), base + rng.randint(0, span)) for n in k)))
    if pid == 'C14':
        for k in range(64 if th else 16):
            lines.append('ResetUnit %d' % rng.choice([0, 40, -60]))
            n = rng.choice([2, 3, 4])
            lines.append('SetRates 1 %d %s' % (n, ' '.join('%d %d %d' % (ids[j], j + 1, rng.choice([1, 2, 3]) if j < n - 1 else rng.choice([500, 20000, 60000])) for j in range(n))))
            lines.append('Rare 1 %d %d' % (rng.randint(1, 10**9), 6000000))
    return split_reset(lines, 8)


def split_reset(lines, n):
    blocks, cur = [], []
    for x in lines:
        if x.startswith('Reset ') or x == 'Reset' or x.startswith('ResetUnit'):
            if cur:
                blocks.append(cur)
            cur = []
        cur.append(x)
    blocks.append(cur)
    out = [[] for _ in range(n)]
    for i, b in enumerate(blocks):
        out[i % n] += b
    return ['\n'.join(o) + '\n' for o in out if o]


# ---------------------------------------------------------------- C24
def sitestore(pid, rng, behs, th):
    lines = behaviours(behs, 'GenSiteStore', rng, 1000 if th else 120)
    for _ in range(300 if th else 60):
        ids = rng.sample([0, 1, 2, 3, 4, 5, -1, -50, 1000000, 2147483647, -2147483647, 17, 18], rng.randint(2, 9))
        many = rng.random() < 0.1
        if many:
            ids += list(range(30, 60))
        lines.append('Reset')
        occ = {}

        def site():
            nb = rng.sample(ids + [99, 98], rng.randint(0, min(4, len(ids))))
            return '%d %s' % (len(nb), ' '.join('%d %d' % (n, rng.choice([1, 2, 5, 90, 10000])) for n in nb))
        for _ in range(150 if many else rng.choice([10, 40, 80])):
            r = rng.random()
            i = rng.choice(ids)
            if r < 0.25:
                lines.append('Add %d %s' % (i, site()))
                occ.setdefault(i, 0)
            elif r < 0.3:
                k = [rng.choice(ids) for _ in range(rng.randint(0, 3))]
                lines.append('AddMany %d %s' % (len(k), ' '.join('%d %s' % (x, site()) for x in k)))
                for x in k:
                    if x in occ:
                        break
                    occ[x] = 0
            elif r < 0.42:
                lines.append('SetCl %d %d' % (i, rng.choice([0, 0, 1, 2, 7, 2147483647])))
            elif r < 0.52:
                lines.append('Occ %d' % i)
                if i in occ:
                    occ[i] += 1
            elif r < 0.6:
                if occ.get(i, 1) > 0 or rng.random() < 0.2:
                    lines.append('Vac %d' % i)
                    if i in occ:
                        occ[i] -= 1
            elif r < 0.65:
                lines.append('SetVis %d %d' % (i, rng.choice([0, 1, 7, 100000])))
            elif r < 0.8:
                lines.append('Ask %d %d' % (i, rng.choice(ids + [99, 98])))
            elif r < 0.93:
                base = list(occ) if rng.random() < 0.7 and occ else ids
                g = rng.sample(base, rng.randint(1, len(base)))
                lines.append('Group %d %s' % (len(g), ' '.join(map(str, g))))
            else:
                lines.append('All')
    return chunks(lines, 4)


# ---------------------------------------------------------------- C25
def clusterstore(pid, rng, behs, th):
    lines = behaviours(behs, 'GenClusterStore', rng, 1000 if th else 120)
    for _ in range(300 if th else 50):
        ids = rng.sample([0, 1, 2, 3, 5, -1, 1000000, 2147483647, -2147483647, 17, 18], rng.randint(2, 7))
        many = rng.random() < 0.1
        if many:
            ids += list(range(30, 60))
        lines.append('Reset')
        occ = {}
        clu = lambda i: '%d %d %d %d %d' % (i, rng.choice([0, 10, 100, 200, -300]), rng.choice([0, 2, 2, 3, 3, 4, 5, 6, 7]), rng.choice([1, 2, 9]), rng.randint(1, 5))
        for _ in range(120 if many else rng.choice([10, 40, 60])):
            r = rng.random()
            i = rng.choice(ids)
            if r < 0.25:
                lines.append('Add ' + clu(i))
                occ.setdefault(i, 0)
            elif r < 0.32:
                k = [rng.choice(ids) for _ in range(rng.randint(0, 3))]
                lines.append('AddMany %d %s' % (len(k), ' '.join(clu(x) for x in k)))
                for x in k:
                    if x in occ:
                        break
                    occ[x] = 0
            elif r < 0.42:
                lines.append('Erase %d' % i)
                occ.pop(i, None)
            elif r < 0.55:
                lines.append('Occ %d' % i)
                if i in occ:
                    occ[i] += 1
            elif r < 0.67:
                if occ.get(i, 1) > 0 or rng.random() < 0.2:
                    lines.append('Vac %d' % i)
                    if i in occ:
                        occ[i] -= 1
            elif r < 0.77:
                lines.append('SetRes %d %d' % (i, rng.choice([2, 3, 10, 128, 1000])))
            else:
                lines.append('Ask %d' % i)
    return chunks(lines, 4)


# ---------------------------------------------------------------- C16..C23
class Net:
    """A random network with balanced flow on 'groups' of sites."""

    def __init__(self, rng, kind, exits=None):
        self.kind = kind
        n = rng.randint(3, 8)
        pool = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 40, 1000, 99999] + ([-3] if rng.random() < 0.2 else [])
        self.ids = ids = rng.sample(pool, n)
        self.m = {i: rng.randint(1, 20) if rng.random() < 0.8 else 1 for i in ids}
        E = {}

        def add(i, j, v, s=0):
            k = (i, j)
            E[k] = (E[k][0] + v, s) if k in E else (v, s)
        outs = [200, 201, 202, 203][:rng.randint(1, 4)]
        self.groups = [ids]
        if kind == 'extreme':
            # two heavy sites, light ones attached, exits of very different size
            a, b = ids[:2]
            self.m[a], self.m[b] = rng.randint(100, 900), rng.randint(100, 900)
            v = rng.randint(100, 900)
            add(a, b, v)
            add(b, a, v)
            for x in ids[2:5]:
                self.m[x] = rng.choice([1, 1, 2, 3])
                y, v = rng.choice([a, b]), rng.choice([1, 1, 2, 3])
                add(x, y, v)
                add(y, x, v)
            self.ids = ids = ids[:5]
            self.groups = [ids]
            add(rng.choice([a, b]), 200, rng.randint(300, 900), 1)
            for o in (201, 202)[:rng.randint(1, 2)]:
                add(rng.choice(ids), o, rng.choice([1, 1, 2]), 1)
            self.m = {i: self.m[i] for i in ids}
            self.E = E
            return
        if kind == 'complete':
            w, x = rng.randint(1, 3), rng.randint(1, 6)
            for a in ids:
                for b in ids:
                    if a != b:
                        add(a, b, w)
                rest = x
                while rest:
                    v = rng.randint(1, rest)
                    add(a, rng.choice(outs), v)
                    rest -= v
        elif kind == 'circulant':
            w1, w2, x = rng.randint(1, 4), rng.choice([0, 0, 1, 3]), rng.randint(1, 6)
            for k, a in enumerate(ids):
                add(a, ids[(k + 1) % n], w1)
                if w2:
                    add(ids[(k + 1) % n], a, w2)
                rest = x
                while rest:
                    v = rng.randint(1, rest)
                    add(a, rng.choice(outs), v)
                    rest -= v
        else:
            cut = rng.randint(2, n - 2) if n >= 5 and kind in ('two', 'twoslow') else n
            self.groups = [ids[:cut]] + ([ids[cut:]] if cut < n else [])

            def connect(g):
                for k in range(1, len(g)):
                    a, b, v = g[k], g[rng.randrange(k)], rng.randint(1, 4)
                    add(a, b, v)
                    add(b, a, v)
                for _ in range(rng.randint(0, len(g))):
                    a, b = rng.sample(g, 2)
                    v = rng.randint(1, 3)
                    add(a, b, v)
                    add(b, a, v)

            def oneway(g):
                g = g[:]
                rng.shuffle(g)
                v = rng.randint(1, 4)
                for k, a in enumerate(g):
                    add(a, g[(k + 1) % len(g)], v)
                if len(g) > 3 and rng.random() < 0.6:
                    h = rng.sample(g, 3)
                    for k in range(3):
                        add(h[k], h[(k + 1) % 3], 2)
            for g in self.groups:
                (oneway if kind == 'oneway' and len(g) > 2 else connect)(g)
            if len(self.groups) == 2:
                for _ in range(rng.randint(1, 3)):
                    a, b, v = rng.choice(self.groups[0]), rng.choice(self.groups[1]), rng.randint(1, 3)
                    s = 1 if kind == 'twoslow' else 0
                    if (a, b) not in E and (b, a) not in E:
                        add(a, b, v, s)
                        add(b, a, v, s)
            for g in self.groups:
                for a in rng.sample(g, rng.randint(1, len(g))):
                    for o in rng.sample(outs, rng.randint(1, min(2, len(outs)))):
                        add(a, o, rng.randint(1, 5), 1)
        # rates of sites to themselves, inside every group equal where all sites are alike
        if rng.random() < 0.25:
            v = rng.randint(1, 3)
            for a in ids if kind in ('complete', 'circulant') else rng.sample(ids, rng.randint(1, len(ids))):
                add(a, a, v if kind in ('complete', 'circulant') else rng.randint(1, 3))
        if exits == 'tiny':
            for o in (204, 205):
                add(rng.choice(ids), o, rng.randint(1, 5), 2)
        elif exits == 'near':
            for o in (204, 205, 206):
                for a in rng.sample(ids, 2):
                    E[a, o] = (rng.randint(997, 1003) * self.m[a], 0)
        self.E = E

    def line(self, rng, method, kexp):
        es = list(self.E.items())
        rng.shuffle(es)
        return 'Net %d %d %d %d %s %d %s' % (rng.choice([0, 0, 30, -30, 200, -200]), kexp, method, len(self.ids),
                                             ' '.join('%d %d' % (i, self.m[i]) for i in self.ids), len(es),
                                             ' '.join('%d %d %d %d' % (i, j, v, s) for (i, j), (v, s) in es))

    def outer(self, S):
        """The exits of S if S is a proper cluster: connected, and it can be left."""
        for a in S:
            seen, todo = {a}, [a]
            while todo:
                x = todo.pop()
                for (i, j) in self.E:
                    if i == x and j in S and j not in seen:
                        seen.add(j)
                        todo.append(j)
            if seen != set(S):
                return []
        if any(v[1] for k, v in self.E.items() if k[0] in S and k[1] in S):
            return []  # converges too slowly to be computed by iteration
        return [k for k in self.E if k[0] in S and k[1] not in S]


def cluster(pid, rng, behs, th):
    lines = [x for x in behaviours(behs, 'GenClusterModel', rng, 400 if th else 60) if x != 'Reset'] if pid in ('C16', 'C19', 'C21', 'C22', 'C23') else []
    count = {'C16': 70, 'C17': 200, 'C18': 120, 'C19': 60, 'C20': 120, 'C21': 70, 'C22': 80, 'C23': 80}[pid] * (6 if th else 1)
    for nth in range(count):
        kind = rng.choice(['complete', 'complete', 'circulant', 'sym', 'sym', 'oneway', 'two', 'twoslow'])
        if pid in ('C17', 'C18', 'C20') and rng.random() < 0.2:
            kind = 'extreme'
        net = Net(rng, kind, rng.choice([None, None, 'tiny', 'near']) if pid == 'C16' else None)
        lines.append(net.line(rng, 0 if kind in ('complete', 'circulant') and rng.random() < 0.5 else rng.choice([1, 1, 2, 3]), 30 if kind == 'extreme' else 20))
        if rng.random() < 0.6:
            lines.append('Ids %d %d %d' % tuple(rng.choice([(1, 65537, 131073), (7, -7, 0), (2147483647, -2147483647, 1), (1, 16777217, 257), (-1, 0, 1), (12, 4, 268435468)])))
        if pid == 'C16' and nth % 9 == 4:
            lines.append('Many %d' % rng.choice([300, 1100, 70000]))
        mem = {1: set(), 2: set(), 3: set()}
        built = {1: set(), 2: set(), 3: set()}
        occ, visits = set(), {1: 0, 2: 0, 3: 0}
        resolution = {1: 20, 2: 20, 3: 20}

        def update(c):
            if len(mem[c]) >= 2 and net.outer(mem[c]):
                lines.append('Update %d' % c)
                built[c] = set(mem[c])
                return True

        def join(c, S):
            S = list(S)
            rng.shuffle(S)
            if not S:
                return
            if len(S) == 1 or rng.random() < 0.4:
                for i in S:
                    lines.append('AddSite %d %d' % (c, i))
            else:
                lines.append('AddSites %d %d %s' % (c, len(S), ' '.join(map(str, S))))
            mem[c] |= set(S)

        def setres(c):
            r = rng.choice([20, 35, 50, 50, 200, 500, 1000, 37] + ([20, 21, 25, 29, 30] if pid in ('C18', 'C19') else []) + ([20000, 1000000] if pid == 'C18' else []))
            lines.append('SetRes %d %d' % (c, r))
            resolution[c] = r / 10

        def crowd(c):
            # several walkers in one cluster, their calls interleaved
            if pid != 'C19' or not built[c] or built[c] != mem[c]:
                return
            lines.append('SetRes %d %d' % (c, rng.choice([20, 20, 30, 60])))
            resolution[c] = int(lines[-1].split()[2]) / 10
            for _ in range(14):
                w = rng.randint(1, 3)
                r = rng.random()
                if r < 0.06:
                    lines.append('Guests %d %d %d' % (c, w, rng.choice([1, 5, 10, 20, 40, 200])))
                elif r < 0.12:
                    lines.append('Indep %d %d %d %d' % (c, w, rng.randint(1, 3), rng.choice([1, 2, 9])))
                elif r < 0.16:
                    lines.append('Fresh %d %d' % (c, w))
                else:
                    lines.append('%s %d %d' % (rng.choice(['Dwell', 'Dwell', 'Pick', 'Step']), c, w))

        def walk(c):
            crowd(c)
            if pid == 'C17' and built[c] and built[c] == mem[c] and not any(v[1] == 1 for k, v in net.E.items() if k[0] in mem[c] and k[1] in mem[c]):
                lines.append('Iter %d %d %d' % (c, rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 2, 3, 4])))
            if pid == 'C18' and built[c] and built[c] == mem[c] and rng.random() < 0.3:
                lines.append('Closed %d' % c)
            if pid in ('C18', 'C19', 'C20', 'C23', 'C17') and built[c] and built[c] == mem[c]:
                if pid in ('C17', 'C23') and rng.random() < 0.6:
                    return
                if rng.random() < 0.5:  # walkers sit on some of the sites
                    for i in rng.sample(sorted(mem[c] - occ), rng.randint(0, len(mem[c] - occ))):
                        lines.append('Occ %d %d' % (c, i))
                        occ.add(i)
                        visits[c] += 1
                n = min(10000, int(100000 / resolution[c]))
                if th:
                    n = min(20000, int(150000 / resolution[c]))
                if pid == 'C18' and rng.random() < 0.06:
                    lines.append('SetRes %d 20' % c)
                    resolution[c] = 2
                    n = 200000
                if kind == 'extreme':
                    lines.append('SetRes %d 20' % c)
                    resolution[c] = 2
                    n = 100000
                if n < 300:
                    return
                lines.append('Walk %d %d %d %d' % (c, n, rng.randint(1, 10**8), rng.choice([1, 2, 5, 40])))

        def visit(c):
            # visits that are still unread when the cluster changes
            if pid not in ('C22', 'C23') or not built[c] - occ or rng.random() < 0.2:
                return
            i = rng.choice(sorted(built[c] - occ))
            n = rng.choice([40, 300, 1100] if kind in ('complete', 'circulant') else [2, 5, 9])
            if visits[c] + n < (8000 if kind in ('complete', 'circulant') else 60):
                lines.append('OccMany %d %d %d' % (c, i, n))
                visits[c] += n

        def ops(k):
            for _ in range(k):
                c = rng.choice([1, 1, 2, 3])
                r = rng.random()
                free = [i for i in net.ids if not any(i in mem[d] for d in mem)]
                if pid in ('C17', 'C18', 'C20') and r < 0.6:
                    if rng.random() < 0.3 and built[c]:
                        setres(c)
                    elif rng.random() < 0.3:
                        update(c)
                    continue
                if r < 0.08 and free:
                    i = rng.choice(free)
                    lines.append(('VacFree %d' if i in occ else 'OccFree %d') % i)
                    occ.symmetric_difference_update({i})
                elif r < 0.34 and built[c]:
                    i = rng.choice(sorted(built[c]))
                    if i in occ:
                        if rng.random() < 0.4:
                            lines.append('Remove %d %d %d' % (c, rng.randint(1, 3), i))
                        else:
                            lines.append('Vac %d %d' % (c, i))
                        occ.discard(i)
                    elif visits[c] < (6000 if kind in ('complete', 'circulant') else 40):
                        lines.append('Occ %d %d' % (c, i))
                        occ.add(i)
                        visits[c] += 1
                    if kind in ('complete', 'circulant') and pid in ('C22', 'C23') and rng.random() < 0.4 and i not in occ and visits[c] < 5000:
                        n = rng.choice([7, 60, 101, 130, 300, 1100, 4000])
                        lines.append('OccMany %d %d %d' % (c, i, n))
                        visits[c] += n
                elif r < 0.38 and mem[c] & occ:
                    i = rng.choice(sorted(mem[c] & occ))
                    lines.append('Vac %d %d' % (c, i))
                    occ.discard(i)
                elif r < 0.62 and built[c]:
                    lines.append('%s %d %d' % (rng.choice(['Step', 'Step', 'Dwell', 'Pick', 'Fresh', 'Fresh']), c, rng.randint(1, 3)))
                elif r < 0.7 and built[c]:
                    lines.append('Read %d' % c)
                    if pid == 'C22' and rng.random() < 0.5:
                        lines.append('Poll %d %d' % (c, 60 if kind in ('complete', 'circulant') else 7))
                elif r < 0.76 and built[c]:
                    lines.append('SetVisits %d %d %d' % (c, rng.choice(sorted(built[c])), rng.choice([0, 1, 5, 10000])))
                elif r < 0.86 and built[c]:
                    setres(c)
                elif r < 0.92:
                    update(c)
        ops(2)
        whole = rng.random()
        if whole < 0.35:  # one cluster of everything, in one or two goes
            k = rng.randint(2 if pid == 'C22' else 0, len(net.ids))
            S = net.ids[:]
            rng.shuffle(S)
            join(1, S[:k])
            if rng.random() < (0.9 if pid == 'C22' else 0.5):
                update(1)
                visit(1)
                ops(3)
            if rng.random() < 0.5:
                visit(1)
            join(1, S[k:])
            if rng.random() < 0.5:
                visit(1)
            update(1)
            walk(1)
            ops(12)
            walk(1)
        else:
            parts = net.groups if len(net.groups) == 2 and rng.random() < 0.8 else None
            if not parts:
                S = net.ids[:]
                rng.shuffle(S)
                k = rng.randint(2, max(2, len(S) - 2))
                if len(S) >= 6 and rng.random() < 0.4:  # leave enough for a cluster of the same size
                    k = 2 + (len(S) == 8 and rng.random() < 0.3)
                    S = S[:2 * k]
                parts = [S[:k], S[k:]] if len(S) - k >= 2 else [S[:k]]
            for c, g in enumerate(parts, 1):
                join(c, g)
                update(c)
                walk(c)
                ops(8)
            a, b = rng.choice([(1, 2), (2, 1), (3, 1), (3, 2)])
            if len(mem[b]) >= 2 and built[b] == mem[b] and net.outer(mem[a] | mem[b]):
                visit(a)
                visit(b)
                lines.append('Absorb %d %d' % (a, b))
                mem[a] |= mem[b]
                built[a], mem[b], built[b] = set(mem[a]), set(), set()
                visits[a] = visits[b] = max(visits[a], visits[b])
                for w in (1, 2, 3):
                    if rng.random() < 0.5:
                        lines.append('Fresh %d %d' % (a, w))
                ops(6)
                walk(a)
                # what is left can be used again
                free = [i for i in net.ids if not any(i in mem[d] for d in mem)]
                if len(free) >= 2:
                    join(b, free[:rng.choice([2, 2, 3, 8])])
                    if update(b):
                        walk(b)
                        for w in (1, 2, 3):
                            lines.append('Fresh %d %d' % (b, w))
                        ops(6)
                if built[b] and built[b] == mem[b] and rng.random() < 0.7:
                    visit(a)
                    visit(b)
                    lines.append('Absorb %d %d' % (b, a) if rng.random() < 0.5 else 'Absorb %d %d' % (a, b))
                    c, d = (b, a) if lines[-1].split()[1] == str(b) else (a, b)
                    if net.outer(mem[a] | mem[b]):
                        mem[c] |= mem[d]
                        built[c], mem[d], built[d] = set(mem[c]), set(), set()
                        ops(6)
                    else:
                        lines.pop()
    return chunks(lines, 16 if th else 8, start='Net')


# ---------------------------------------------------------------- C31
def marcus(pid, rng, behs, th):
    lines = behaviours(behs, 'GenMarcus', rng, 2000 if th else 100)
    for _ in range(200 if th else 30):
        lines.append('Reset')
        for _ in range(60):
            L, j = rng.choice([20, 35, 50, 100, 130, 173, 200, 250]), rng.randint(0, 4)
            while 4 * L * 10 * 2 ** j >= 200000:
                j -= 1
            d = rng.choice([0, 1, -1, L, -L]) if rng.random() < 0.2 else rng.randint(-600, 600)
            if (L + abs(d)) ** 2 / (4 * L * 10 * 2 ** j) < 600:
                lines.append('Rate %d %d %d %d %d %d' % (L, j, d, rng.randint(0, 12), rng.randint(0, 9), rng.randint(0, 1)))
    return chunks(lines, 4)


# ---------------------------------------------------------------- C33
def tof(pid, rng, behs, th):
    lines = []
    mult = 5 if th else 1

    def net(n, h, F, J, C, Z, mn, tres, lev):
        lines.append('Net %d %d %d 0 %d %d %d %d %d %d %d %d %d %d %d %d %s' % (tuple(n) + (rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 3), h, F, J, C, Z,
                     rng.choice([77, 300, 300, 450]), rng.randint(0, 10**8), mn, tres, ' '.join(map(str, lev)))))

    def size(lo, hi, most):
        while True:
            n = [rng.randint(lo, hi), rng.randint(1, 5), rng.randint(1, 5)]
            if n[0] * n[1] * n[2] <= most:
                return n
    # charges together, coarse graining off
    for k in range(24 * mult):
        n = size(2, 7, 70)
        t = n[0] * n[1] * n[2]
        net(n, rng.choice([2, 2, 3, 4, 4, 6, 8]), rng.choice([0, 1, 1, 1]), 1, rng.choice([0, 1, 1]), 10, NEVER, 1000, [rng.choice([0, 0, 0, 1]) for _ in range(t)])
        for _ in range(rng.randint(1, 3)):
            lines.append('Fly %d %d 1000000 %d' % (rng.randint(1, min(n[1] * n[2], 12)), rng.choice([20, 60, 150]), rng.randint(0, 2)))
    # energetic disorder with traps, coarse graining on
    for k in range(30 * mult):
        n = size(3, 9, 60)
        t = n[0] * n[1] * n[2]
        lev = [rng.choice([5, 6, 6]) for _ in range(t)]
        for _ in range(rng.randint(1, 3)):  # neighbouring sites of low energy
            i = rng.randrange(t)
            d = rng.choice([1, n[0], n[0] * n[1]])
            lev[i] = rng.choice([0, 1])
            if i + d < t:
                lev[i + d] = lev[i] if rng.random() < 0.7 else rng.choice([0, 1])
        net(n, rng.choice([2, 2, 4]), rng.choice([0, 0, 1]), 0, rng.choice([1, 2, 4]), 6, rng.choice([0, 0, 3, 20]), rng.choice([100, 10000, 100000]), lev)
        for _ in range(rng.randint(1, 3)):
            lines.append('Fly %d %d 1000 %d' % (rng.randint(1, min(n[1] * n[2], 6)), rng.choice([150, 300]), rng.randint(0, 2)))
    # one charge: where it goes and how long it stays
    for k in range(16 * mult):
        n = size(2, 4, 18)
        t = n[0] * n[1] * n[2]
        net(n, rng.choice([2, 3, 4, 4, 6]), rng.choice([0, 1]), rng.choice([1, 1, 2]), rng.choice([0, 1]), 16, NEVER, 1000, [rng.choice([0, 0, 1]) for _ in range(t)])
        lines.append('Alone %d' % (60000 if th else 20000))
    # mean time of flight
    for k in range(16 * mult):
        n = size(2, 9, 60)
        t = n[0] * n[1] * n[2]
        net(n, 2, rng.choice([1, 1, 0] if n[0] < 6 else [1]), 1, 0, 2, NEVER, 1000, [3] * t)
        lines.append('Flights %d %d' % (20000 if th else 6000, k % 2))
    return chunks(lines, 16 if th else 8, start='Net')


# ---------------------------------------------------------------- C09, C32
def graph(pid, rng, behs, th):
    lines = []

    def net(ids, E):
        es = list(E.items())
        rng.shuffle(es)
        order = list(ids)
        rng.shuffle(order)
        lines.append('Net %d %d %s %d %s' % (rng.choice([0, 0, 20, -40, 200, -300]), len(order), ' '.join(map(str, order)), len(es),
                                             ' '.join('%d %d %d' % (i, j, v) for (i, j), v in es)))

    def edges(kind, g):
        lines.append('Edges %d %d %s' % (kind, len(g), ' '.join(map(str, g))))
    for b in behs.get('GenBasin', []):
        E, cl, n = {}, set(), 0
        for st in b:
            if st[0] == 'Edge':
                E[st[1], st[2]] = st[3] * 4
                continue
            if not n:
                ids = set(x for p in E for x in p)
                net(ids, E)
                n = 1
            if st[0] == 'Find' and st[1] in ids:
                lines.append('Find %d %d' % (st[1], st[2]))
            elif st[0] == 'Edges' and st[2] in ids:
                edges(st[1], [st[2]])
            elif st[0] == 'Mutate' and (st[1], st[2]) in E:
                lines.append('Change %d %d %d' % (st[1], st[2], st[3] * 4))
            elif st[0] == 'Cluster' and st[1] != st[2] and not {st[1], st[2]} & cl and {st[1], st[2]} <= ids:
                cl |= {st[1], st[2]}
                lines.append('Join %d 2 %d %d' % (n + 10, st[1], st[2]))
                n += 1
    for _ in range(1500 if th else 200):
        n = rng.randint(2, 9)
        ids = rng.sample([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, -3, 1000, 99999, 2147483647, -2147483647], n)
        E = {}
        # nested basins: sites on a line with ever slower exits, or random
        kind = rng.choice(['random', 'levels', 'levels', 'chain'])
        vals = rng.choice([[1, 2], [1, 2, 3], [1, 10, 100], [997, 998, 999, 1000, 1001], [9000, 9900, 9995, 10000, 10003], [98, 99, 100], [5, 6, 7, 8, 9], [1, 2, 4, 8, 16, 32, 64]])
        for a in ids:
            for b in ids:
                if a != b and rng.random() < {'random': 0.35, 'levels': 0.5, 'chain': 0.05}[kind]:
                    E[a, b] = rng.choice(vals)
        if kind == 'chain':
            for a, b in zip(ids, ids[1:]):
                E[a, b] = rng.choice(vals)
                if rng.random() < 0.7:
                    E[b, a] = rng.choice(vals)
        if rng.random() < 0.2:
            a = rng.choice(ids)
            E[a, a] = rng.choice(vals)
        if not E:
            continue
        net(ids, E)
        free = ids[:]
        rng.shuffle(free)
        cid = 1
        for _ in range(10):
            r = rng.random()
            if pid == 'C09':
                if r < 0.2 and len(free) >= 2:
                    k = rng.randint(2, min(4, len(free)))
                    g, free = free[:k], free[k:]
                    lines.append('Join %d %d %s' % (cid, k, ' '.join(map(str, g))))
                    cid += 1
                elif r < 0.3:
                    i, j = rng.choice(sorted(E))
                    E[i, j] = rng.choice(vals)
                    lines.append('Change %d %d %d' % (i, j, E[i, j]))
                else:
                    lines.append('Find %d %d' % (rng.choice(ids), rng.choice([0, 0, 1, 2, 3, 4, 6, 100])))
            else:
                if r < 0.2:
                    i, j = rng.choice(sorted(E))
                    E[i, j] = rng.choice(vals)
                    lines.append('Change %d %d %d' % (i, j, E[i, j]))
                elif r < 0.35:
                    g = [rng.choice(ids) for _ in range(rng.randint(0, 6))]
                    lines.append('Nodes %d %s' % (len(g), ' '.join(map(str, g))))
                else:
                    k = rng.randint(0, 4)
                    g = rng.sample(ids, rng.randint(0, n)) if k in (2, 3) else [rng.choice(ids)]
                    edges(k, g)
    return chunks(lines, 8, start='Net')


# ---------------------------------------------------------------- C01..C06, C08, C10
NEVER = 2147483647


def cg_net(rng, kind=None):
    """Groups of sites with fast rates inside, slower ones between, slow exits."""
    pool = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 40, 1000, 99999, -3, 2147483647, -1, -40]
    kind = kind or rng.choice(['pairs', 'nested', 'random', 'line', 'star', 'partial'] + ['merge'] * 5)
    E = {}

    def two(a, b, f, g=None):
        if rng.random() < 0.93:
            E[a, b] = f
        if rng.random() < 0.93:
            E[b, a] = g or f
    p2 = lambda lo, hi: 2 ** rng.randint(lo, hi)
    if kind in ('pairs', 'nested'):
        sizes = [rng.choice([2, 2, 2, 3, 3, 4]) for _ in range(rng.randint(1, 4))]
        ids = rng.sample(pool, sum(sizes) + rng.randint(0, 2))
        groups, k = [], 0
        for s in sizes:
            groups.append(ids[k:k + s])
            k += s
        rest = ids[k:]
        for g in groups:
            ring = rng.random() < 0.3 and len(g) > 2
            for i in range(1, len(g)):
                if ring:
                    E[g[i - 1], g[i]] = 1024
                else:
                    two(g[i], g[rng.randrange(i)], p2(9, 10), p2(9, 10))
            if ring:
                E[g[-1], g[0]] = 1024
        for a, b in zip(groups, groups[1:]):
            lo = 5 if kind == 'nested' else 2
            for _ in range(rng.randint(1, 2)):
                two(rng.choice(a), rng.choice(b), p2(lo, 7), p2(lo, 7))
        for r in rest:
            g = rng.choice(groups)
            two(r, rng.choice(g), p2(0, 9), p2(0, 4))
    elif kind == 'merge':
        # groups that first become clusters and then join, in one or two levels
        top = []
        ids = []
        for _ in range(rng.choice([1, 1, 2])):
            sizes = rng.choice([[2, 2], [2, 2], [2, 3], [3, 2], [2, 1], [2, 1, 1], [3, 1], [2, 2, 1], [4, 1], [3, 3], [3, 3], [4, 3], [2, 2, 3], [3, 2, 2]])
            mine = rng.sample([i for i in pool if i not in ids], sum(sizes))
            ids += mine
            k, gs = 0, []
            for s in sizes:
                gs.append(mine[k:k + s])
                k += s
            for g in gs:
                for i in range(1, len(g)):
                    E[g[i], g[rng.randrange(i)]] = p2(9, 10)
                    E[[b for (a, b) in E if a == g[i]][-1], g[i]] = p2(9, 10)
            for i in range(1, len(gs)):
                a, b = rng.choice(gs[i]), rng.choice(gs[rng.randrange(i)])
                q = p2(4, 6)
                E[a, b] = q
                E[b, a] = q if rng.random() < 0.7 else p2(4, 6)
            top.append(mine)
        if len(top) == 2:
            a, b = rng.choice(top[0]), rng.choice(top[1])
            E[a, b] = E[b, a] = p2(0, 2)
        if rng.random() < 0.6:
            x = [i for i in pool if i not in ids][0]
            E[rng.choice(ids), x] = 1
            E[x, rng.choice(ids)] = p2(0, 10)
    elif kind == 'partial':
        # clusters whose own rates are slower than those leading to one of their
        # sites: the basin of another cluster holds only a part of them
        n = rng.choice([2, 2, 2, 3])
        ids = rng.sample(pool, 2 * n)
        speed = [1024, rng.choice([256, 128]), 64][:n]
        for k in range(n):
            a, b = ids[2 * k:2 * k + 2]
            E[a, b] = E[b, a] = speed[k]
            if k:
                x = rng.choice(ids[2 * k - 2:2 * k])
                E[x, a] = speed[k] * rng.choice([2, 2, 2, 2, 1])
                if rng.random() < 0.9:
                    E[a, x] = p2(4, 5)
        if rng.random() < 0.8:
            z = [i for i in pool if i not in ids][0]
            E[rng.choice(ids), z] = p2(0, 2)
            E[z, rng.choice(ids)] = p2(0, 10)
        return E
    elif kind == 'random':
        ids = rng.sample(pool, rng.randint(2, 7))
        for a in ids:
            for b in ids:
                if a != b and rng.random() < 0.4:
                    E[a, b] = p2(0, 10)
    elif kind == 'line':
        ids = rng.sample(pool, rng.randint(2, 9))
        for a, b in zip(ids, ids[1:]):
            two(a, b, p2(3, 10), p2(3, 10))
    else:
        ids = rng.sample(pool, rng.randint(3, 8))
        for b in ids[1:]:
            two(ids[0], b, p2(0, 10), p2(5, 10))
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 2)):
            E[rng.choice(ids), rng.choice([i for i in (55, 56, -8, -1, -2147483647) if i not in ids])] = p2(0, 3)
    if not E:
        E[ids[0], ids[1]] = E[ids[1], ids[0]] = 64
    if rng.random() < 0.12:  # a rate of a site to itself
        a = rng.choice(sorted(E))[0]
        E[a, a] = p2(0, 10)
    return E


def net_line(rng, E, unit=None):
    es = list(E.items())
    rng.shuffle(es)
    u = rng.choice([0, 0, 30, -30, 300, -300]) if unit is None else unit
    return 'Net %d %d %s' % (u, len(es), ' '.join('%d %d %d' % (i, j, q) for (i, j), q in es))


def coarse(pid, rng, behs, th):
    if pid == 'C05':
        return physics(rng, th)
    lines = []
    # behaviours of the specification; the networks are those of MCCoarseGrain
    nets = {1: {(1, 2): 1024, (2, 1): 1024, (2, 3): 1, (3, 2): 1024},
            2: {(1, 2): 1024, (2, 1): 512, (3, 4): 1024, (4, 3): 1024, (2, 3): 64, (3, 2): 64, (1, 9): 1},
            3: {(1, 2): 1024, (2, 1): 1024, (2, 3): 32, (3, 2): 32, (3, 9): 1},
            4: {(1, 2): 1024, (2, 3): 1024, (3, 1): 1024, (1, 4): 2, (4, 1): 2},
            5: {p: 256 for a in range(1, 6) for p in ((a, a + 1), (a + 1, a))},
            6: {(1, 2): 1024, (2, 1): 1024, (3, 4): 1024, (4, 3): 1024, (2, 3): 64, (3, 2): 64},
            7: {(1, 2): 1024, (2, 1): 512, (2, 3): 1, (3, 2): 16, (1, 1): 512, (3, 3): 64}}
    reads = {'C06': lambda: rng.choice([0, 1, 1, 1]), 'C08': lambda: rng.randint(0, 1)}.get(pid, lambda: 0)
    two = {'C08': 1}.get(pid, 0)
    for b in behs.get('GenCoarseGrain', []):
        for st in b:
            if st[0] == 'Net':
                lines.append(net_line(rng, nets[st[1]]))
            elif st[0] == 'New':
                lines.append('New %d %d %d %d %d %d %d' % (st[1], st[2], st[3], st[4], reads(), rng.randint(0, 10**8), two))
            elif st[0] != 'End':
                lines.append(' '.join(map(str, st)))
    for i in range({'C08': 90}.get(pid, 200) * (6 if th else 1)):
        partial = i % 6 == 0
        E = cg_net(rng, 'partial' if partial else 'merge' if i % 4 == 3 and i % 16 != 7 else None)
        fine = pid == 'C10' and i % 3 == 1
        if fine:  # resolutions of several hundred
            E = {(1, 2): 1024, (2, 1): 1024, (rng.randint(1, 2), 9): 1, (9, rng.randint(1, 2)): rng.choice([1, 1024])}
            if rng.random() < 0.5:
                E.update({(3, 4): 1024, (4, 3): 1024, (4, rng.randint(1, 2)): 1})
        lines.append(net_line(rng, E))
        lines.append('Burn %d' % (rng.choice([0, 0, 1, 2, 5, 8, 30, 100]) if i % 50 != 17 else 40000))
        for _ in range(rng.choice([1, 1, 2])):
            pn, pd = rng.choice([(1, 1), (1, 1), (1, 1), (1, 2), (1, 4), (1, 5), (2, 1), (8, 1)])
            mn = rng.choice([0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 7, 20, NEVER])
            if partial:
                pn, pd, mn = 1, rng.choice([16, 64, 256, 256]), rng.choice([0, 0, 0, 1])
            lines.append('New %d %d %d %d %d %d %d' % (rng.choice([1, 3, 8, 17, 40, 64, 130, 600, 4000, 4000, 4000, 100000, 100000, 100000][9 if partial else 0:]), pn, pd, mn, reads(),
                                                      rng.randint(0, 10**8), two))
            if pid == 'C08' and rng.random() < 0.4:
                s = rng.randint(0, 10**6)
                lines.append('Seeds %d %d %d' % (s, s + rng.choice([1, 2, 17, 5000, 2**rng.randint(3, 31)]), 12))
            if fine:
                new = lines[-1].split()
                new[1:5] = [str(rng.choice([3, 3, 4, 5, 9])), '1', '1', str(rng.choice([0, 1, 5]))]
                lines[-1] = ' '.join(new)
            nw = rng.choice([1, 1, 2, 3, 6])
            if i % 4 == 3:  # many hops before, between and after attempts
                mn = rng.choice([-1, 100, 100, 130, 130, 400, 3000, 6000, 70000, NEVER])
                new = lines[-1].split() if lines[-1].startswith('New') else lines[-2].split()
                new[4] = str(mn)
                if rng.random() < 0.7:
                    new[1:4] = ['100000', '0' if rng.random() < 0.5 else '1', '1']
                lines.append(' '.join(new))
                mn = 1000 if mn < 0 else 20000 if mn == NEVER else mn
                nw = rng.choice([1, 2, 2, 3, 4])
                for j in range(1, rng.randint(2, 7) if mn > 500 else rng.randint(8, 16)):
                    lines.append('Until %d %d %d' % (j * mn - 2, nw, rng.randint(1, 10**9)))
                    if pid == 'C06':
                        lines += ['Visits'] * rng.randint(0, 2)
                    lines.append('StepTo %d %d %d' % (j * mn + j + 2, nw, rng.randint(1, 10**9)))
                    if pid in ('C04', 'C10') and rng.random() < 0.1:
                        lines.append('SetConf %d 1 %d' % (rng.choice([40, 1000, 100000]), rng.choice([1, 16])))
                continue
            for _ in range(rng.randint(2, 5)):
                lines.append('GoN %d %d %d' % (rng.choice([20, 50, 80]), nw, rng.randint(1, 10**9)))
                r = rng.random()
                if r < 0.4:
                    lines.append('Remove %d' % rng.randint(1, nw))
                elif r < 0.5 and pid in ('C04', 'C10', 'C03'):
                    lines.append('SetMin %d' % rng.choice([0, 1, 4, 10, NEVER]))
                elif r < 0.62 and pid in ('C04', 'C10', 'C03', 'C01'):
                    lines.append('SetConf %d %d %d' % ((rng.choice([1, 5, 20, 70, 300, 4000, 50000, 100000]),) + rng.choice([(1, 1), (1, 1), (1, 3), (1, 64), (4, 1)])))
                if pid == 'C06':
                    lines += ['Visits'] * rng.randint(0, 3)
                    if rng.random() < 0.3:
                        lines.append('Reads %d' % rng.randint(0, 1))
    for _ in range((60 if th else 14) if pid == 'C04' else 0):  # two systems; the clusters of one cannot join for want of a way out
        i = rng.sample([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 40, 1000, -3, -40], 11)
        f = rng.choice([256, 128, 64])
        E = {(i[0], i[1]): 1024, (i[1], i[0]): 1024, (i[2], i[3]): f, (i[3], i[2]): f}
        E[i[rng.randint(0, 1)], i[2]] = 2 * f
        E[i[2], i[rng.randint(0, 1)]] = rng.choice([16, 32])
        for k in (4, 6, 8):
            E.update({(i[k], i[k + 1]): 1024, (i[k + 1], i[k]): 1024})
            if k > 4:
                E.update({(i[k - 1], i[k]): 32, (i[k], i[k - 1]): 32})
        E[i[9], i[10]] = 1
        where = sorted(i[:10])
        lines += [net_line(rng, E), 'New 100000 1 %d %d 0 %d 0' % (rng.choice([16, 64, 256]), rng.choice([0, 1, 2, 4]), rng.randint(0, 10**8)),
                  'Place 1 %d' % where.index(i[rng.randint(0, 3)]), 'GoN %d 1 %d' % (rng.choice([30, 60, 100]), rng.randint(1, 10**9)),
                  'Place 2 %d' % (where.index(i[rng.randint(4, 9)]) - 0), 'GoN 80 2 %d' % rng.randint(1, 10**9)]
    for _ in range(40 if pid == 'C08' else 0):  # clusters draw from sequences of their own
        i = rng.sample([0, 1, 2, 3, 4, 5, 6, 9, 40, 1000, -3, 99999], 8)
        E = {(i[7], i[6]): 1}
        for k in range(3):
            E.update({(i[2 * k], i[2 * k + 1]): 1024, (i[2 * k + 1], i[2 * k]): rng.choice([512, 1024]), (i[2 * k + rng.randint(0, 1)], i[6]): rng.choice([1, 2, 4])})
        lines += [net_line(rng, E), 'New %d 1 1 %d 0 1 0' % (rng.choice([40, 4000, 100000]), rng.choice([0, 3])),
                  'ClusterSeeds %d %d %d %d %d' % (rng.randint(0, 10**8), i[0], i[2], i[4], i[7])]
    return chunks(lines, 16 if th else 8, start='Net')


def physics(rng, th):
    """Networks in detailed balance: site i has weight m_i, a power of two."""
    lines = []

    def build(groups, inner, links):
        m, E = {}, {}
        for g in groups:
            for s in g:
                m[s] = 2 ** rng.randint(0, 2)

        def link(a, b, w):  # conductance w * max(m)
            c = w * max(m[a], m[b])
            E[a, b], E[b, a] = c // m[a], c // m[b]
        for g in groups:
            for i in range(1, len(g)):
                for j in range(i):
                    if j == i - 1 or rng.random() < 0.7:
                        link(g[i], g[j], inner)
        for k, (a, b) in enumerate(zip(groups, groups[1:])):
            link(a[-1], b[0], links[k % len(links)])
            if rng.random() < 0.5:  # a second way between the two
                link(rng.choice(a), rng.choice(b), links[k % len(links)])
        return m, E
    count = 160 if th else 64
    for n in range(count):
        ids = rng.sample(range(0, 60), 14)
        sizes = [rng.choice([2, 3, 4]) for _ in range(rng.randint(1, 3))]
        groups, k = [], 0
        for s in sizes:
            groups.append(ids[k:k + s])
            k += s
        coarse_ = n % 4 != 0
        slow = [1, 1] if coarse_ else [8, 16]
        m, E = build(groups, rng.choice([128, 256]) if coarse_ and n % 2 == 0 else 512 if coarse_ else 64, slow)
        lone = ids[k]
        if n % 2 == 0:  # equilibrium
            for lone in ids[k:k + rng.randint(1, 3)]:
                m[lone] = 2 ** rng.randint(0, 3)
                g = rng.choice(groups)
                for a in [groups[-1][-1]] if lone == ids[k] and rng.random() < 0.5 else rng.sample(g, rng.randint(1, len(g))):
                    c = max(m[a], m[lone]) * slow[0]
                    E[a, lone], E[lone, a] = c // m[a], c // m[lone]
            if rng.random() < 0.15:
                a = rng.choice(sorted(m))
                E[a, a] = rng.choice([1, 16, 256])
            lines.append(net_line(rng, E, rng.choice([0, 30, -30])))
            lines.append('New %d 1 1 %d 0 %d 0' % (rng.choice([64, 4000]), 20 if coarse_ else NEVER, rng.randint(0, 10**8)))
            lines.append('Long %d %d %d %s' % (20000, 4000000 if coarse_ else 2000000, len(m), ' '.join('%d %d' % x for x in m.items())))
        else:  # first passage
            E[groups[-1][-1], 77] = slow[0]
            if coarse_:
                for d in (77, 78, 79)[:rng.choice([1, 2, 3])]:
                    g = groups[-1]
                    for a in rng.sample(g, rng.randint(1, len(g))):
                        E[a, d] = rng.choice([1, 1, 2])
            lines.append(net_line(rng, E, rng.choice([0, 30, -30])))
            lines.append('New %d 1 1 %d 0 %d 0' % (rng.choice([64, 4000]), 20 if coarse_ else NEVER, rng.randint(0, 10**8)))
            lines.append('Passage %d %d %s %d %s' % (60000 if coarse_ else 10000, len(m), ' '.join('%d %d' % x for x in m.items()), len(groups),
                                                    ' '.join('%d %s' % (len(g), ' '.join(map(str, g))) for g in groups)))
    for n in range(48 if th else 16):  # groups that join: the shares inside settle slowly
        ids = rng.sample(range(0, 60), 10)
        m, E = {}, {}
        groups, k = [], 0
        for s in rng.choice([[2, 2], [2, 2], [2, 1, 1], [3, 2], [2, 2, 2], [1, 2, 2], [2, 3]]):
            groups.append(ids[k:k + s])
            k += s
        heavy = rng.choice([1, 2, 4, 8])
        w = 1

        def link(a, b, c):
            E[a, b], E[b, a] = c // m[a], c // m[b]
        up = rng.random() < 0.5
        for g in groups if up else groups[::-1]:
            for s in g:
                m[s] = w
            for i in range(1, len(g)):
                link(g[i], g[i - 1], 1024 * w)
            w *= heavy if w * heavy <= 16 else 1
        for a, b in zip(groups, groups[1:]):
            link(a[-1], b[0], rng.choice([64, 128]) * min(m[a[-1]], m[b[0]]) * heavy)
        for x in ids[k:k + rng.randint(1, 2)]:
            a = rng.choice(groups[rng.choice([0, -1])])
            m[x] = rng.choice([1, 4]) * m[a]
            link(x, a, m[x])
        lines.append(net_line(rng, E, rng.choice([0, 30, -30])))
        lines.append('New 4000 3 1 20 0 %d 0' % rng.randint(0, 10**8))
        lines.append('Long 20000 4000000 %d %s' % (len(m), ' '.join('%d %d' % x for x in m.items())))
    for n in range(48 if th else 16):
        ids = rng.sample([0, 1, 2, 5, 9, 40, 1000, -3, 2147483647], rng.randint(3, 6))
        m, E = {s: rng.choice([1, 2, 4]) for s in ids}, {}
        for i in range(1, len(ids)):
            for j in range(i):
                if j == i - 1 or rng.random() < 0.5:
                    c = max(m[ids[i]], m[ids[j]]) * rng.choice([1, 2, 4, 16])
                    E[ids[i], ids[j]], E[ids[j], ids[i]] = c // m[ids[i]], c // m[ids[j]]
        lines.append(net_line(rng, E, rng.choice([0, 30, -30])))
        lines.append('New %d 1 1 %d 0 %d 0' % (rng.choice([1, 64, 4000]), NEVER, rng.randint(0, 10**8)))
        order = list(m.items())
        rng.shuffle(order)
        lines.append('Crowd %d %d %d %s' % (rng.randint(2, len(ids) - 1), 1000000, len(m), ' '.join('%d %d' % x for x in order)))
    return chunks(lines, 8, start='Net')


# ---------------------------------------------------------------- C07
def setup_order(pid, rng, behs, th):
    lines = []
    for b in behs.get('GenSystemSetup', []):
        E = {(1, 2): 8, (2, 1): 8, (2, 3): 1}
        if rng.random() < 0.5:
            E[3, 2] = 4
        lines += [net_line(rng, E), 'PNew']
        lines += [' '.join(map(str, s)) for s in b if s[0] != 'End']
    for _ in range(600 if th else 120):
        E = cg_net(rng)
        ids = sorted({x for p in E for x in p})
        unknown = [i for i in (0, 1, 3, 56, 77, 123456, -1, -3, -5, 2147483647, -2147483648, -2147483647) if i not in ids]
        lines += [net_line(rng, E), 'PNew']
        t = init = False
        at = {}
        if rng.random() < 0.4:
            if rng.random() < 0.5:
                lines.append('PSeed 3')
            lines += ['PSetT %d' % rng.choice([1, 4, 4000]), 'PInit', 'PMin %d' % rng.choice([0, 1, 5, NEVER])]
            t = init = True
        for _ in range(rng.choice([12, 30, 60])):
            r = rng.random()
            s = rng.choice(ids + unknown)
            if r < 0.15:
                v = rng.choice([-1, 0, 0, 1, 4, 1000, 1000000, -1000, -777])  # -777: not a number
                lines.append('PSetT %d' % v)
                t = t or v > 0
            elif r < 0.22:
                lines.append('PGetT')
            elif r < 0.3:
                lines.append('PSeed %d' % rng.choice([0, 1, 12345, 2147483647]))
            elif r < 0.45:
                if not init:
                    lines.append('PInit')
                    init = t
            elif r < 0.5:
                lines.append('PMin %d' % rng.choice([0, 1, 5, NEVER]))
            elif r < 0.65:
                w = rng.choice([0, 1, 2, 3, 9, -4])
                free = ids if rng.random() < 0.3 else sorted({a for a, _ in E})
                if at or rng.random() < 0.5:  # refused, or not yet possible
                    if rng.random() < 0.4:
                        lines.append('PWalkers 1 %d 0 0' % (w + 100))
                    else:
                        u = rng.choice(unknown)
                        if u != -2147483648:
                            lines.append('PWalkers 1 %d 1 %d' % (w + 100, u))
                else:
                    k = min(len(free), rng.choice([1, 1, 2, 3]))
                    ss = rng.sample(free, k)
                    ws = rng.sample([0, 1, 2, 3, 9, -4], k)
                    lines.append('PWalkers %d %s' % (k, ' '.join('%d 1 %d' % x for x in zip(ws, ss))))
                    if init:
                        at = dict(zip(ws, ss))
            elif r < 0.8:
                if at:
                    lines.append('PHop %d' % rng.choice(list(at)))
            elif r < 0.88:
                lines.append('PVisits %d' % s)
            elif r < 0.96:
                lines.append('PCluster %d' % s)
            else:
                lines.append('PClusters')
    return chunks(lines, 8, start='Net')
