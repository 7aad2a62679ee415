"""Case generators, one per property. Each yields (variant, case); the server
builds the problem from the case. All choices come from the given generator."""
import itertools

FLUID = ['gas', 'air', 'honey', 'water', 'power', 'thick', 'mud', 'jwl', 'cc']
ELASTIC = ['rubber', 'jelly']
PLASTIC = ['copper', 'alu']
LIGHT = FLUID + ELASTIC  # affordable with every scheme
ALL = LIGHT + PLASTIC
GEOMS = ['layer', 'rlayer', 'ylayer', 'oblique', 'thin', 'ithin', 'disc', 'rect', 'blocks', 'corner',
         'cell', 'stripes', 'edge']
GEOMS1 = ['layer', 'rlayer', 'thin', 'ithin', 'disc', 'rect', 'blocks', 'corner', 'cell', 'stripes', 'edge']


def rounds(r, *axes):
    """Endless walk over the product of the axes, in random order each round"""
    cells = list(itertools.product(*axes))
    while True:
        r.shuffle(cells)
        yield from cells


def seed(r):
    return r.randrange(1, 10**9)


def f2(r, a, b):
    return float('%.4g' % r.uniform(a, b))


def solver(r, scheme):
    """scheme: split, half, ader, stiff"""
    return dict(split=int(scheme in ('split', 'half')), half=int(scheme == 'half'),
                stiff=int(scheme == 'stiff'), flux=r.choice([0, 1, 2, 2]))


SCHEMES = ['split', 'half', 'ader', 'stiff']


def mats1(r, scheme, ndim):
    if scheme in ('split', 'half'):
        return r.choice(ALL)
    return r.choice(LIGHT)


def edges(r, ndim, kinds=(0, 1, 2, 3, 4, 5)):
    b = []
    for d in range(ndim):
        if 1 in kinds and r.random() < .35:
            b += [1, 1]
        else:
            k = [x for x in kinds if x != 1] or [1]
            b += [r.choice(k), r.choice(k)]
    return ','.join(map(str, b))


def initial(r, kinds=('smooth', 'riemann', 'noise', 'bump'), strong=1.):
    k = r.choice(kinds)
    amp = {'smooth': (.02, .2), 'riemann': (.05, .25), 'noise': (.02, .08), 'bump': (.05, .25),
           'uniform': (0, 0)}[k]
    c = dict(ic=k, amp=f2(r, amp[0] * strong, amp[1] * strong), icseed=seed(r))
    if r.random() < .4:
        c['drift'] = f2(r, .05, .8)
    if r.random() < .3:
        c['rot'] = 1
    if k == 'bump':
        c['rad'] = f2(r, 1.5, 3.5)
        c['shiftx'] = r.randrange(-2, 3)
        c['shifty'] = r.randrange(-2, 3)
    return c


def shape(r, ndim, lo=3, hi1=24, hi2=10):
    if ndim == 1:
        return dict(nx=r.randrange(lo, hi1 + 1), ny=0)
    c = dict(nx=r.randrange(lo, hi2 + 1), ny=r.randrange(lo, hi2 + 1))
    if r.random() < .3:
        c['aspect'] = f2(r, .5, 2)
    return c


def teams(r, nx, many=8):
    k = r.random()
    top = min(many, 16)
    if k < .5:
        return str(r.randrange(2, top + 1))
    if k < .65:
        return str(min(16, nx + r.randrange(0, 4)))
    return ','.join(str(r.randrange(1, top + 1)) for _ in range(r.randrange(2, 5)))


def schedule(r, fine=1.):
    if r.random() < .12:
        return dict(sched=0)
    return dict(sched=1, sseed=seed(r), gap=float('%.4g' % (fine * 10 ** r.uniform(0, 3))),
                maxsw=r.choice([20, 200, 2000]))


def single(r, scheme, ndim, strong=1., **kw):
    c = dict(mats=mats1(r, scheme, ndim))
    c.update(shape(r, ndim, **kw))
    c.update(solver(r, scheme))
    if scheme in ('ader', 'stiff') and (ndim == 2 or r.random() < .8):
        strong *= .4  # strong jumps need the costly fallback of the predictor
    c.update(initial(r, strong=strong))
    c['bc'] = edges(r, ndim)
    c['h'] = f2(r, .02, .5)
    c['cfl'] = f2(r, .2, .8)
    if r.random() < .2 and c['mats'] in FLUID:
        c['body'] = f2(r, -1, 1)
    return c


def multi(r, scheme, ndim, geom=None, nmat=None, vac=None, size=(5, 12)):
    pool = ['gas', 'air', 'water', 'rubber', 'jelly', 'mud', 'power', 'jwl', 'cc']
    if scheme in ('split', 'half'):
        pool = pool + ['copper', 'alu']
    n = nmat or r.choice([2, 2, 2, 3])
    m = [r.choice(pool) for _ in range(n)]
    if vac or (vac is None and r.random() < .45):
        m[r.randrange(n)] = 'vac'
    c = dict(mats=','.join(m))
    g = GEOMS if ndim == 2 else GEOMS1
    c['geom'] = geom or r.choice(g)
    c['geom2'] = r.choice(g + ['none'])
    c['gseed'] = seed(r)
    if ndim == 1:
        c.update(nx=r.randrange(size[0] + 2, 2 * size[1]), ny=0)
    else:
        c.update(nx=r.randrange(size[0], size[1] + 1), ny=r.randrange(size[0], size[1] + 1))
    c.update(solver(r, scheme))
    c.update(initial(r, ('uniform', 'smooth', 'riemann', 'uniform'), .5))
    c.pop('drift', None)
    if r.random() < .6:
        c['push'] = f2(r, -.3, .5)
    c['bc'] = edges(r, ndim, (0, 0, 2, 3, 5, 1))
    c['h'] = f2(r, .05, .2)
    c['cfl'] = f2(r, .2, .6)
    return c


# ------------------------------------------------------------------ C01
def C01(r):
    for scheme, ndim, kind in rounds(r, SCHEMES, (1, 2), ('one', 'one', 'many')):
        c = single(r, scheme, ndim, lo=2) if kind == 'one' else multi(r, scheme, ndim, size=(4, 9))
        c.update(prop='workers', tfs=f2(r, .3, 4), teams=teams(r, c['nx']))
        c.update(schedule(r))
        if r.random() < .2:
            c['ctol'] = f2(r, 1e-4, .05)
        yield 'plain', c


# ------------------------------------------------------------------ C02
def C02(r):
    for scheme, ndim, level in rounds(r, SCHEMES, (1, 2, 2), ('race', 'race', 'plain')):
        c = single(r, scheme, ndim, .4 if level == 'race' else 1, lo=2, hi1=16, hi2=6)
        c.update(prop='workers', level='step', steps=r.choice([1, 1, 2]), teams=teams(r, c['nx'], 6))
        if r.random() < .3:
            c.update(mask=f2(r, .1, .9), mseed=seed(r))
        if level == 'race':
            c.update(race=1, cpu=60)
            c.update(schedule(r, 300))
            yield 'race', c
        else:
            c.update(schedule(r))
            yield 'plain', c


# ------------------------------------------------------------------ C03
def C03(r):
    for geom, scheme, level in rounds(r, GEOMS, ('split', 'ader'), ('race', 'plain', 'plain')):
        if level == 'race':
            c = multi(r, scheme, 2, geom, size=(4, 7))
            c.update(prop='workers', tfs=f2(r, .1, .3), teams=teams(r, c['nx'], 6), race=1, cpu=60)
            c.update(schedule(r, 300))
            yield 'race', c
        else:
            c = multi(r, scheme, r.choice([1, 2, 2, 2]), geom if geom in GEOMS1 else None, size=(4, 10))
            if c['ny']:
                c['geom'] = geom
            c.update(prop='workers', tfs=f2(r, .3, 3), teams=teams(r, c['nx'], 12))
            c.update(schedule(r))
            yield 'plain', c


# ------------------------------------------------------------------ C04
def C04(r):
    for scheme, ndim, variant, flux in rounds(r, SCHEMES, (1, 2), ('plain', 'corners'), (0, 1, 2)):
        if ndim == 1:
            variant = 'plain'
        c = single(r, scheme, ndim, lo=3, hi1=32, hi2=9)
        c.pop('body', None)
        c.update(prop='conserved', bc='1,1,1,1', flux=flux, tfs=f2(r, 1, 8), teams=teams(r, c['nx']))
        c.update(schedule(r))
        if ndim == 2 and variant == 'plain':
            # the corners of the domain are reconstructed differently: keep them quiet
            n = r.randrange(11, 16)
            m = r.randrange(11, 16)
            c.update(nx=n, ny=m, ic='bump', rad=f2(r, 1.2, 2.2), tfs=f2(r, .1, .3), shiftx=0, shifty=0)
            c.pop('aspect', None)
        yield variant, c


# ------------------------------------------------------------------ C05
def C05(r):
    for scheme, mat, ndim in rounds(r, SCHEMES, ALL, (1, 2)):
        c = single(r, scheme, ndim, lo=2, hi1=20, hi2=7)
        c['mats'] = mat
        c.pop('body', None)
        c.pop('rot', None)
        c.update(prop='uniform', ic='uniform', tfs=f2(r, 2, 25), teams=teams(r, c['nx']))
        c.pop('drift', None)
        if mat in PLASTIC and scheme in ('ader', 'stiff'):
            c.update(tfs=2)
        if scheme in ('ader', 'stiff') and mat in ('gas', 'air', 'water', 'thick', 'cc', 'jwl'):
            c['loose'] = 1  # stiff relaxation: the predictor only holds the distortion to its tolerance
        if r.random() < .6:
            c['bc'] = edges(r, ndim, (0, 1))
            if r.random() < .8:
                c['drift'] = f2(r, .05, 2)
            if r.random() < .5:
                c['rot'] = 1
        else:
            c['bc'] = edges(r, ndim, (0, 1, 2, 3, 5))
            if '5' not in c['bc'] and r.random() < .4:
                c['rot'] = 1
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C06
def C06(r):
    for scheme, ndim, kind, length in rounds(r, SCHEMES, (1, 2), ('one', 'one', 'fault', 'many'),
                                             ('tiny', 'short', 'long')):
        c = single(r, scheme, ndim, lo=3, hi1=16, hi2=6) if kind != 'many' else multi(r, scheme, ndim, size=(5, 8))
        c['cfl'] = f2(r, .1, .9)
        t = {'tiny': (.01, .19), 'short': (.2, 3), 'long': (4, 20 if ndim == 1 else 8)}[length]
        c.update(prop='clock', tfs=f2(r, *t), teams=teams(r, c['nx']))
        c.update(schedule(r))
        if kind == 'fault' and length != 'tiny':
            n = c['nx'] * (c['ny'] or 1)
            c['fault'] = 'scale:%d:%d:%d:%s' % (r.randrange(1, 16), r.randrange(n), r.choice([0, 1, 1, 2]),
                                                f2(r, .9, 1.5))
        yield 'plain', c


# ------------------------------------------------------------------ C07
def C07(r):
    for scheme, ndim, length in rounds(r, SCHEMES, (1, 1, 2), ('one', 'few', 'near', 'many', 'lots')):
        c = single(r, scheme, ndim, lo=3, hi1=10, hi2=4)
        c['bc'] = edges(r, ndim, (0, 1))
        c.pop('body', None)
        c['ic'] = r.choice(['smooth', 'bump', 'uniform'])
        c['amp'] = f2(r, .01, .08)
        # the first six steps together cover 1.2 reference steps
        t = {'one': (.05, .2), 'few': (1, 12), 'near': (85, 110), 'many': (101, 190), 'lots': (190, 420)}[length]
        if ndim == 2 and length == 'lots':
            t = (110, 150)
        c.update(prop='history', tfs=f2(r, *t), teams=teams(r, c['nx'], 4))
        if ndim == 1:
            c.update(mats=r.choice(LIGHT))
        if r.random() < .4 and length != 'one':
            c['ctol'] = f2(r, 1e-6, 1e-2)
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C08
def C08(r):
    for scheme, ndim, kind, length in rounds(r, SCHEMES, (1, 1, 2), ('fault', 'fault', 'initial', 'wild'),
                                             ('few', 'some', 'many')):
        many = r.random() < .25
        c = single(r, scheme, ndim, lo=3, hi1=12, hi2=5) if not many else multi(r, scheme, ndim, size=(4, 7), vac=False)
        n = c['nx'] * (c['ny'] or 1)
        c['amp'] = f2(r, .01, .08)
        t = {'few': (.5, 4), 'some': (5, 40), 'many': (90, 130)}[length]
        if (ndim == 2 or many) and length == 'many':
            t = (20, 40)
        if many:
            t = (.5, 6)
        c.update(prop='nan', tfs=f2(r, *t), teams=teams(r, c['nx'], 4))
        top = int(2 * (c['tfs'] + 5)) + 1
        # component: 16 per cell with two level sets; the level sets are left alone
        k = r.choice([0, 1, 2, 3, 4, r.randrange(5, 14)])
        cell = r.randrange(n)
        if kind == 'fault':
            # now and then the very last report
            p = r.randrange(0, top)
            c['fault'] = 'set:%d:%d:%d:nan' % (p, cell, k)
        elif kind == 'wild':
            c['fault'] = 'set:%d:%d:%d:%s' % (r.randrange(1, top), cell, r.choice([0, 1]),
                                              r.choice(['-1', '-1e3', '1e200', 'inf', '-1e-8']))
        else:
            c['inan'] = '%d,%d' % (cell, k)
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C09
def C09(r):
    for scheme, ndim, kind, prior in rounds(r, SCHEMES, (1, 2), ('one', 'many'), ('poison', 'prior', 'both', 'fill')):
        def problem(small=False):
            if kind == 'one':
                c = single(r, scheme, ndim, lo=3, hi1=14, hi2=6)
            else:
                c = multi(r, scheme, ndim, size=(4, 8))
            c['tfs'] = f2(r, .2, 3 if kind == 'one' else 1.2)
            return c
        c = problem()
        if scheme in ('ader', 'stiff') and r.random() < .25:
            # a state that needs the fallback of the predictor
            c.update(ic='riemann', amp=f2(r, .2, .35), cfl=.9)
        c.update(prop='memory', teams=teams(r, c['nx'], 4) if r.random() < .5 else '1')
        if prior in ('poison', 'both'):
            c.update(poison=1, pseed=seed(r))
        if prior in ('prior', 'both'):
            for name in ('prior', 'prior2')[:r.choice([1, 2])]:
                s2 = r.choice(SCHEMES)
                q = single(r, s2, r.choice([1, 2]), lo=3, hi1=14, hi2=5) if r.random() < .6 else \
                    multi(r, s2, r.choice([1, 2]), size=(4, 6))
                q['tfs'] = f2(r, .1, 1)
                k = r.random()
                if k < .3:
                    q['fault'] = 'throw:%d:0:0:0' % r.randrange(0, 9)
                elif k < .5:
                    q['fault'] = 'set:%d:%d:%d:nan' % (r.randrange(0, 9), r.randrange(9), r.randrange(14))
                for a, b in q.items():
                    c[name + '.' + a] = b
        if prior == 'fill':
            # the same case in builds whose unwritten stack holds a pattern, or zero
            c.update(xfill=1)
        yield 'plain', c


# ------------------------------------------------------------------ C10
def C10(r):
    for scheme, ndim, kind, all_ in rounds(r, SCHEMES, (1, 2), ('one', 'one', 'many'), (0, 0, 1)):
        c = single(r, scheme, ndim, lo=3, hi1=10, hi2=5) if kind == 'one' else multi(r, scheme, ndim, size=(4, 6))
        c.update(prop='alloc', tfs=f2(r, .1, 1.2), teams=r.choice(['1', '1', '2', '3']), failall=all_)
        k = r.random()
        if k < .2:
            c['failat'] = r.randrange(0, 60)
        else:
            c['failfrac'] = float('%.6f' % r.random())
        yield 'plain', c


# ------------------------------------------------------------------ C11
def C11(r):
    for scheme, ndim, kind, reset in rounds(r, SCHEMES, (1, 2), ('one', 'one', 'many'), (0, 1)):
        c = single(r, scheme, ndim, lo=3, hi1=14, hi2=5) if kind == 'one' else multi(r, scheme, ndim, size=(4, 7))
        c.update(prop='interrupt', tfs=f2(r, .5, 8 if kind == 'one' else 3), teams=teams(r, c['nx'], 4),
                 atfrac=float('%.6f' % r.random()))
        if reset:
            c['ctol'] = f2(r, 1e-6, 1e-2)
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C12
def C12(r):
    for geom, scheme, ndim, mood in rounds(r, GEOMS, ('split', 'half', 'ader'), (1, 2), ('gentle', 'any')):
        if ndim == 1 and geom not in GEOMS1:
            ndim = 2
        c = multi(r, scheme, ndim, geom, size=(4, 11))
        c.update(prop='materials', tfs=f2(r, .5, 8 if ndim == 2 else 25), teams=teams(r, c['nx'], 6))
        if mood == 'gentle':
            # nothing in the data that could make the scheme itself break down
            c.update(gentle=1, ic='uniform', amp=0, tfs=f2(r, .5, 4 if ndim == 2 else 10))
            c.pop('drift', None)
            c.pop('rot', None)
            c['push'] = f2(r, -.02, .03)
            # of about the same pressure; a vacuum only next to what does not expand into it
            same = [['gas', 'air', 'honey', 'water', 'power', 'mud'],
                    ['rubber', 'jelly', 'vac'], ['copper', 'vac']]
            m = r.choice(same[:2] if scheme == 'ader' else same)
            m = [r.choice(m), r.choice(m)]
            if m == ['vac', 'vac']:
                m[r.randrange(2)] = 'jelly' if scheme == 'ader' else r.choice(['jelly', 'rubber', 'copper'])
            c.update(mats=','.join(m), geom2='none')
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C13
def C13(r):
    for kind, clock, crowd in rounds(r, ('none', 'none', 'die', 'power', 'int', 'io', 'bad', 'nospace', 'perm', 'short', 'mix'),
                                     ('still', 'slow', 'jumpy', 'back'), ('one', 'few', 'series')):
        procs = {'one': [1, 1], 'few': [r.randrange(2, 5)], 'series': [r.randrange(1, 4) for _ in range(r.choice([2, 3]))]}
        c = dict(prop='store', procs=','.join(map(str, procs[crowd])), clock=clock, sseed=seed(r), dseed=seed(r) % 10**6,
                 sw=f2(r, .05, .9), t0=r.randrange(10**8) + r.choice([.0, .5, .999]), dt=r.choice([0, 0, .5, -1, -3600, 1, 3600]),
                 names=r.choice(['one', 'one', 'two']), n=r.choice([1, 8, 40, 400, 1200]), slots=r.choice([1, 3, 7]))
        top = 16 * sum(procs[crowd]) + 4
        ks = [kind] * r.choice([1, 1, 1, 2, 3])
        if kind == 'mix':
            ks = [r.choice(['die', 'int', 'io', 'bad', 'nospace', 'perm', 'short', 'power']) for _ in range(r.randrange(2, 5))]
        if kind != 'none':
            c['fault'] = ','.join('%s:%d' % (k, r.randrange(top)) for k in ks)
        yield 'store', c


# ------------------------------------------------------------------ C14
def C14(r):
    for scheme, ndim, mask in rounds(r, SCHEMES, (1, 2, 2), ('none', 'dots', 'dots', 'block')):
        c = single(r, scheme, ndim, lo=2, hi1=20, hi2=8)
        c.update(prop='footprint', teams=teams(r, c['nx']))
        if mask == 'none':
            c['steps'] = r.choice([1, 2])
        else:
            c.update(mask=f2(r, .05, .95), mseed=seed(r))
            if mask == 'block':
                c.update(mblock=1)
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C15
def C15(r):
    for scheme, ndim, poke, bc in rounds(r, SCHEMES, (1, 2), ('scale', 'nan', 'huge'), ('per', 'any')):
        if poke == 'nan' and ndim == 2 and scheme in ('ader', 'stiff') and r.random() < .7:
            poke = 'scale'  # the nonlinear solver takes long to give up on a NaN
        c = single(r, scheme, ndim, lo=6, hi1=20, hi2=9)
        if bc == 'per':
            c['bc'] = '1,1,1,1'
        n = c['nx'] * (c['ny'] or 1)
        cell = r.randrange(n)
        if r.random() < .4:  # near an edge
            i = r.choice([0, 1, c['nx'] - 1, c['nx'] - 2])
            j = r.randrange(c['ny'] or 1)
            cell = i * (c['ny'] or 1) + j
        comp = r.choice([0, 1, 2, 3, 4, r.randrange(5, 14)])
        c.update(prop='reach', cell=cell, comp=comp, poke='nan' if poke == 'nan' else 'scale',
                 pval=f2(r, .9, 1.1), teams=teams(r, c['nx']))
        if poke == 'huge':  # far more of it; in few pieces, so that cells far off share a worker
            c.update(comp=r.choice([0, 1, 1, 1, comp]), pval=float('%.4g' % 10 ** r.uniform(1, 9)), teams=r.choice('112'))
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C16
def C16(r):
    for s1, s2, bad in rounds(r, SCHEMES, SCHEMES, ('none', 'none', 'throw', 'nan')):
        c = dict(prop='lanes')
        n = r.choice([2, 2, 3])
        for l in range(n):
            s = [s1, s2, r.choice(SCHEMES)][l]
            ndim = r.choice([1, 1, 2])
            q = single(r, s, ndim, lo=3, hi1=14, hi2=5) if r.random() < .6 else multi(r, s, ndim, size=(4, 7))
            q['tfs'] = f2(r, .5, 5)
            if q.get('mats', '').count(',') or ndim == 2:
                q['tfs'] = f2(r, .3, 1.5)
            if r.random() < .3:
                q['ctol'] = f2(r, 1e-5, 1e-2)
            if l == 0 and bad == 'throw':
                q['fault'] = 'throw:%d:0:0:0' % r.randrange(0, 10)
            if l == 0 and bad == 'nan':
                q['fault'] = 'set:%d:%d:%d:nan' % (r.randrange(0, 10), r.randrange(9), r.randrange(14))
            for a, b in q.items():
                c['l%d.%s' % (l, a)] = b
        c.update(sched=1, sseed=seed(r), gap=r.choice([1, 1, 2, 4]), maxsw=2000, teams=r.choice(['1', '2', '3,1']))
        yield 'plain', c


# ------------------------------------------------------------------ C17
def C17(r):
    for scheme, ndim, kind in rounds(r, SCHEMES, (1, 2), ('one', 'one', 'one', 'many')):
        c = single(r, scheme, ndim, lo=3, hi1=14, hi2=6) if kind == 'one' else multi(r, scheme, ndim, size=(5, 8))
        a = f2(r, .02, .2)
        c.update(aamp=a)
        c.update(prop='distortion', tfs=f2(r, .5, 6 if kind == 'one' else 2), teams=teams(r, c['nx'], 4),
                 ctol=float('%.4g' % (a * a * 10 ** r.uniform(-1.5, .6))))
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C18
def C18(r):
    for rel, scheme, extra in rounds(r, ('plane', 'plane', 'mirror', 'mirror', 'shift'), SCHEMES, (0, 1)):
        ndim = 2 if rel == 'plane' or (rel == 'mirror' and extra) else 1
        c = single(r, scheme, ndim, lo=4, hi1=20, hi2=8)
        c.pop('body', None)
        unsplit = scheme in ('ader', 'stiff')
        if unsplit and rel != 'shift':
            # stiff relaxation is only held to the predictor's tolerance, or not at all
            c['mats'] = r.choice(['rubber', 'jelly', 'honey', 'honey'])
        c.update(prop='symmetry', rel=rel, steps=r.choice([1, 2, 3]), teams=teams(r, c['nx']))
        c['bc'] = edges(r, ndim, (0, 1))
        # stretches that coincide are relaxed along arbitrary axes
        c.update(tol='1e-7', tol1='1e-5', part='.02' if unsplit else '.001')
        if rel == 'plane':
            d = extra
            c['dir'] = d
            b = r.choice(['0,0', '1,1'])
            along = r.choice(['0,0', '1,1'])
            c['bc'] = along + ',' + b if d == 0 else b + ',' + along
            c['steps'] = r.choice([1, 2])
            variant = 'corners'
        elif rel == 'mirror':
            c['axis'] = r.randrange(ndim)
            c['bc'] = edges(r, ndim, (0, 1, 2, 3, 5))
            c['teams2'] = teams(r, c['nx'])
            # (the averaged matrix of the Roe flux may be close to one without enough eigenvectors)
            c['flux'] = r.choice([0, 2])
            exact = c['mats'] in ELASTIC or (unsplit and c['mats'] == 'honey')
            c.update(dict(tol='2e-6', part='1e-4') if exact else dict(tol='1e-5', part='.15'))
            variant = r.choice(['plain', 'corners'])
        else:
            c['bc'] = '1,1,1,1'
            c['sx'] = r.randrange(1, c['nx'])
            variant = 'plain'
        c.update(schedule(r))
        yield variant, c


# ------------------------------------------------------------------ C19
def C19(r):
    for scheme, ndim, react, kind in rounds(r, SCHEMES, (1, 2), ('', '', 'd', 'a'), ('uniform', 'varied')):
        c = single(r, scheme, ndim, lo=3, hi1=16, hi2=6)
        c['mats'] = r.choice(['gas', 'air', 'water', 'mud', 'jwl', 'cc'])
        c.pop('body', None)
        c['bc'] = edges(r, ndim, (0, 1))
        c.update(prop='reactant', lam=f2(r, 0, 1), tfs=f2(r, 1, 10 if ndim == 1 else 3), teams=teams(r, c['nx']))
        if r.random() < .2:
            c['lam'] = r.choice([0, 1])
        if kind == 'varied':
            c['alam'] = f2(r, .1, 1.5)
        if react:
            c['mats'] = r.choice(['gas', 'air', 'water', 'mud', 'jwl'])
            c.update(react=react, kc=f2(r, .1, 30), qc=f2(r, 0, 1), ti=f2(r, .05, .6))
        c.update(schedule(r))
        yield 'multi', c


# ------------------------------------------------------------------ C20
def C20(r):
    for scheme, mat, ndim in rounds(r, SCHEMES, ALL + ['clay'], (1, 2)):
        # the unsplit scheme only holds stiff relaxation to the predictor's tolerance
        if scheme in ('ader', 'stiff') and mat not in ('air', 'honey', 'mud', 'clay', 'rubber', 'jelly'):
            continue
        c = single(r, scheme, ndim, lo=2, hi1=10, hi2=5)
        for k in ('body', 'drift', 'rad'):
            c.pop(k, None)
        c.update(mats=mat, prop='relax', ic='uniform', amp=0, tfs=f2(r, .3, 12), teams=teams(r, c['nx'], 5),
                 strain=f2(r, .01, .25), bc=edges(r, ndim, (0, 1)), h=float('%.4g' % 10 ** r.uniform(-4, 0)))
        elastic = mat in ELASTIC
        c.update(tol='1e-6' if elastic else '1e-4', even='1e-4' if elastic else '.05',
                 growth='1e-5' if scheme in ('split', 'half') else '.02',
                 rate='.06' if scheme in ('split', 'half') else '.15')
        if r.random() < .3:
            c['uniaxial'] = 1
        if r.random() < .5:
            c['drift'] = f2(r, .05, 1)
        if r.random() < .5:  # compressed or expanded
            c['dense'] = f2(r, .8, 1.3)
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C21
def C21(r):
    for rel, scheme, ndim, level in rounds(r, ('continue', 'continue', 'continue', 'repeat'), SCHEMES, (1, 2), ('step', 'iter')):
        c = single(r, scheme, ndim, lo=2, hi1=12, hi2=5)
        c.update(prop='edges', rel=rel, level=level, teams=teams(r, c['nx']), teams2=teams(r, c['nx']))
        if rel == 'repeat':
            c.update(bc='1,1,1,1', rx=r.choice([1, 2, 2, 3] if ndim == 2 else [2, 2, 3, 5]), steps=r.choice([1, 2, 3]), tfs=f2(r, .3, 3))
            if ndim == 2:
                c['ry'] = r.choice([1, 2]) if c['rx'] > 1 else 2
        else:
            c['bc'] = ','.join(str(r.choice(range(6))) for _ in range(2 * ndim))
            c['more'] = r.choice([0, 0, 1, 2])
            if level == 'iter':
                c['dtf'] = f2(r, .05, .6)
        c.update(schedule(r))
        # (the other build leaves out the corners of the extended grid)
        yield ('corners' if ndim == 2 else 'plain'), c


# ------------------------------------------------------------------ C22
def C22(r):
    flat = ['layer', 'rlayer', 'ylayer', 'oblique', 'disc', 'thin', 'ithin', 'othin', 'spots']
    for geom, scheme, ndim, move, n in rounds(r, flat, ('split', 'half', 'ader'), (1, 2), (0, 1), (2, 2, 3)):
        if ndim == 1 and geom in ('oblique', 'othin'):
            geom = 'layer'
        c = multi(r, scheme, ndim, geom, n, False, size=(5, 10))
        m = ['gas', 'air', 'water', 'mud', 'power', 'jwl', 'cc', 'honey', 'rubber', 'jelly']
        if scheme != 'ader':
            m += ['copper', 'alu']
        c.update(mats=','.join(r.choice(m) for _ in range(n)), ic='uniform', amp=0, pall=1, tol=5e-5 if scheme == 'ader' else 1e-10,
                 slack=100 if n > 2 or geom in ('spots', 'othin') else 1.5, bc='0,0,0,0', prop='contact',
                 tfs=f2(r, .5, 4 if ndim == 2 else 10), teams=teams(r, c['nx'], 6))
        c['geom2'] = r.choice(flat if n > 2 else ['none'])
        if n > 2 and move:
            # (the same of thin parts of one material between two others)
            c.update(geom='layer', geom2='ylayer', ny=c.get('ny') or r.choice([5, 7, 9]))
            c['bc'] = '0,0,0,0'
        if not move:
            c['bc'] = edges(r, ndim, (0, 1, 2, 3, 5))
        for k in ('push', 'drift', 'rot', 'body'):
            c.pop(k, None)
        if geom in ('spots', 'othin') or n > 2 or '1' in c['bc']:
            # (the Rusanov flux smears the level sets: features of a cell's size vanish,
            # where there is nothing to fill the cell with, and so does the jump of a
            # level set at a periodic edge)
            c['flux'] = r.choice([1, 2])
        if move:
            c['wind'] = f2(r, .05, .6)
        if n == 2 and ndim == 1 and c['flux'] and geom in ('layer', 'rlayer', 'ylayer'):
            c.update(phitol=.12, slack=.15, tfs=f2(r, .5, 25))
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C23
def C23(r):
    for scheme, way, vac in rounds(r, ('split', 'half', 'ader'), ('1', '1', '-1', 'x', 'y', 'oblique', 'oblique'), (0, 0, 1)):
        # (at this scale the shear strain of a fluid relaxes within far less than a step:
        # too stiff for the predictor)
        fluid = [] if scheme == 'ader' else ['gas', 'air', 'water', 'honey', 'jwl', 'cc']
        solid = ['rubber', 'jelly'] + ([] if scheme == 'ader' else ['copper', 'alu'])
        if scheme == 'ader' and way not in ('1', '-1'):
            way = r.choice(['1', '-1'])
        m = [r.choice(solid), 'vac'] if vac else [r.choice(fluid + solid), r.choice(fluid + solid)]
        c = dict(mats=','.join(m), h=50, pall=1, ic='uniform', amp=0, icseed=seed(r), cfl=f2(r, .25, .5), prop='impact')
        c.update(solver(r, scheme))
        if scheme == 'ader':
            c['stiff'] = 0
        c.update(eps=1e-3 if scheme != 'ader' else 3e-3)
        if way in ('1', '-1'):
            c.update(nx=r.randrange(50, 90), ny=0, angle=0 if way == '1' else 3.14159265358979, bc='0,0')
        elif way == 'x':
            c.update(nx=r.randrange(30, 42), ny=r.randrange(3, 5), angle=r.choice([0, 3.14159265358979]), bc='0,0,%s' % r.choice(['0,0', '1,1']))
        elif way == 'y':
            c.update(ny=r.randrange(30, 42), nx=r.randrange(3, 5), angle=r.choice([1.5707963267949, -1.5707963267949]), bc='%s,0,0' % r.choice(['0,0', '1,1']))
        else:
            a = r.choice([1, f2(r, .4, 1), f2(r, 1, 2.5)])
            c.update(nx=round(24 * a ** .5), ny=round(24 / a ** .5), aspect=a, angle=f2(r, -3.1, 3.1), bc='0,0,0,0')
        if way != 'oblique':
            c['slide'] = r.choice([0, 1])
        c['teams'] = teams(r, c['nx'], 6)
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C24
def C24(r):
    for scheme, ndim, way in rounds(r, ('split', 'half', 'ader'), (1, 1, 2, 2), ('', 'rot', 'carry', 'body', 'strain', 'carry', 'late', 'both')):
        mats = ELASTIC if way == 'carry' else ALL if scheme != 'ader' else ELASTIC + ['honey']
        c = dict(mats=r.choice(mats), ic='smooth', icseed=seed(r), amp=f2(r, .01, .06), long=1, prop='evolve')
        if c['mats'] in PLASTIC:
            c['aamp'] = f2(r, .001, .01)
        c.update(solver(r, scheme))
        if ndim == 1:
            c.update(nx=r.randrange(60, 100), ny=0, bc='1,1', tfs=f2(r, 5, 20))
        else:
            c.update(nx=r.randrange(30, 38), ny=r.randrange(30, 38), bc='1,1,1,1', tfs=f2(r, 2, 4), tol=.25)
            if r.random() < .3:
                c['aspect'] = f2(r, .4, 2.5)
        c.update(h=f2(r, .02, .5), cfl=f2(r, .2, .5))
        if way == 'rot':
            c['rot'] = 1
        elif way == 'carry':  # a distortion that is carried along is most of what changes
            c.update(drift=f2(r, .3, 1), amp=f2(r, .002, .01), aamp=f2(r, .03, .06), flux=r.choice([1, 2, 2]))  # (hardly spread)
        elif way == 'body':
            c['body'] = f2(r, -.2, .2)
        elif way == 'strain' and c['mats'] in ELASTIC:  # (large strains relax as accurately as C20 says)
            c['strain'] = f2(r, .02, .1)
        if scheme == 'ader' and ndim == 2:
            c.update(nx=r.randrange(22, 27), ny=r.randrange(22, 27), tfs=f2(r, 1, 2.5), tol=.4)
        if way == 'late' and ndim == 1 and scheme != 'split':  # half the way through the grid, in large steps
            c.update(tfs=c['nx'] * f2(r, .3, .6), cfl=f2(r, .6, .85), flux=r.choice([1, 2]),
                     tol=dict(half=.08, ader=.04)[scheme])
        if scheme == 'ader' and way == 'both':
            c.update(nx=r.randrange(7, 12), ny=c['ny'] and r.randrange(7, 12), tfs=f2(r, .5, 1.5), both=1, bothtol=.03, tol=9)
            c['stiff'] = r.choice([0, 1])
            if c['ny']:
                c['aspect'] = f2(r, .4, 2.5)
        c['teams'] = teams(r, c['nx'])
        c.update(schedule(r))
        yield 'plain', c


# ------------------------------------------------------------------ C25
def C25(r):
    for scheme, ndim, dirn, rot in rounds(r, ('split', 'half', 'ader'), (1, 2, 2), (0, 1, -1), (0, 0, 1)):
        # (with sources the ADER predictor is only held to its own tolerance, which the fast relaxation of the thin
        # fluids makes much of; the Rusanov flux spreads contacts on purpose)
        # (between the densities of other equations of state the reconstruction in conserved quantities leaves the pressure)
        mats = ['honey', 'clay', 'mud', 'power']
        if scheme != 'ader':
            mats += ['gas', 'air', 'water', 'thick']
        c = dict(mats=r.choice(mats), ic='uniform', amp=0,
                 icseed=seed(r), jump=r.choice([.1, .5, 1]), rot=rot, prop='still')
        c.update(solver(r, scheme), flux=r.choice([1, 2]), h=f2(r, .02, .5), cfl=f2(r, .2, .7))
        if ndim == 1:
            c.update(nx=r.randrange(8, 40), ny=0, tfs=f2(r, 2, 20))
        else:
            c.update(nx=r.randrange(6, 20), ny=r.randrange(6, 20), dir=dirn, tfs=f2(r, 2, 10))
            if scheme == 'ader':
                c['tfs'] = f2(r, 1, 3)
        c['bc'] = edges(r, ndim, (0, 1, 2, 3))
        c['teams'] = teams(r, c['nx'])
        c.update(schedule(r))
        yield 'plain', c


def tame(c):
    """Keeps the costly combinations small: with the stiff option every cell and
    step needs the nonlinear solver"""
    for pre in ('', 'prior.', 'prior2.', 'l0.', 'l1.', 'l2.'):
        g = lambda k, d=0: c.get(pre + k, d)
        if not g('stiff') or not g('nx'):
            continue
        if g('ny'):
            c[pre + 'nx'], c[pre + 'ny'] = min(g('nx'), 7), min(g('ny'), 6)
            work = g('nx') * g('ny') * (1 + g('mats', '').count(','))
            if g('tfs'):
                c[pre + 'tfs'] = min(g('tfs'), .3 if ',' in g('mats', '') else max(.3, float('%.3g' % (90. / work))))
        elif g('tfs'):
            c[pre + 'tfs'] = min(g('tfs'), 12)
        if g('fault', '').startswith('scale'):
            del c[pre + 'fault']
    return c


def tamed(gen):
    def f(r):
        for variant, c in gen(r):
            if c.get('prop') == 'conserved' and c.get('stiff') and c.get('ny'):
                variant = 'corners'  # the other build only conserves away from the corners
            yield variant, tame(c)
    return f


GENS = {k: tamed(v) for k, v in globals().items() if k.startswith('C') and k[1:].isdigit()}
