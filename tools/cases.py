"""Which scenarios decide which property, per tier.  A case is one symbolic exploration of one
harness with fixed structural parameters; everything else is symbolic inside it."""
FAULTS = {'silence/close/reset': 7, 'malformed reply': 8, 'failed write': 16, 'connect failure': 32, 'TLS set-up failure': 64, 'short write': 128,
          'delayed reply': 256, 'multi-line reply': 512, 'split reply': 1024, 'certificate': 2048, 'TLS failure later': 8192}
CUT, TRICKLE, BABBLE, LONG, JUNK, TEXT = 32768, 65536, 131072, 262144, 4096, 524288
PLAIN, OPP, FORCED, XPLAIN, XOPP, XFORCED = range(6)
TLSONLY = (64, 2048, 8192)

def case(h, limit=60, opts=(), **p): return {'harness': h, 'params': p, 'limit': limit, 'opts': list(opts)}
def S(limit=60, **p): return case('session', limit, **p)
def D(limit=60, **p): return case('data', limit, **p)
def V(limit=60, **p): return case('values', limit, **p)
def R(limit=60, **p): return case('replies', limit, **p)
def K(limit=60, **p): return case('clients', limit, **p)
def T(limit=60, **p): return case('threads', limit, **dict(dict(codes=0, maxstep=200), **p))

BIG = ('-maxsteps', '400000000')
HUGE = ('-maxsteps', '4000000000')
def faults(fl=None, cls=range(6), limit=60, **p):
    fl = list(FAULTS.values()) if fl is None else fl
    d = dict(cred=1, codes=0); d.update(p)
    return [S(limit, cls=c, faults=f, **d) for c in cls for f in fl if not (c % 3 == 0 and f in TLSONLY)]
def codes(cls=range(6), limit=60, **p):
    d = dict(cred=1, codes=1, nto=2, ncc=1, nbcc=1); d.update(p)
    return [S(limit, cls=c, **d) for c in cls]
def options(cls=range(6), limit=60, **p):
    d = dict(cred=1, codes=0, acceptself=2); d.update(p); r = []
    for c in cls:
        if c % 3 == 1: r += [S(limit, cls=c, **dict(d, starttls=st, authmask=m, layout=l)) for st in (0, 1) for m, l in ((7, -1), (-1, 0), (-1, 4))]
        else: r += [S(limit, cls=c, **dict(d, starttls=2, authmask=m, layout=l)) for m, l in ((7, -1), (-1, 0), (-1, 4))]
    return r
def two(cls=range(6), limit=60, fl=None, **p):
    d = dict(nmsg=2, batch=1, cred=1, codes=0); d.update(p)
    return faults(fl, cls, limit, **d)

def quick(p):
    base3 = (0, 1, 2)
    if p == 1: return ([S(cls=c, codes=1, cred=1, natt=1, unread=1, faults=f) for c in base3 for f in (0, 7)] + (faults() + codes() + options(codes=1, cls=base3) + faults([7, 16], base3, cred=0, nto=2, ncc=1, nbcc=1)
        + faults([CUT, LONG], base3) + codes(nto=1, ncc=0, nbcc=0, faults=TEXT, text=3, limit=60))
        + [S(cls=c, codes=0, cred=1, nto=18, ncc=17, nbcc=19, opts=BIG) for c in base3] + [S(cls=c, codes=0, cred=1, nmsg=3, batch=b, faults=7) for c in base3 for b in (0, 1)])
    if p == 2: return ((codes() + faults([7, 8, 16, 512, 1024], codes=0, nto=2, nbcc=1) + two((0, 1, 2), fl=[7, 8]) + options(cls=(1, 2, 4, 5))
        + faults([CUT, LONG], base3))
        + [S(cls=c, codes=1, cred=1, nto=9, ncc=4, nbcc=6, opts=BIG) for c in base3])
    if p == 3: return ((([D(hdr=h, len=2, cls=c, nto=1, ncc=1, nbcc=1) for h in (5, 6, 7, 8, 3, 4) for c in (0,)] + [D(mode=5, len=1, nb1=a, nb2=b, ncc=1) for a, b in ((1, 1), (0, 1), (2, 1))]
        + [D(codes=4, nto=2, ncc=2, nbcc=2, cls=c, html=h) for c in base3 for h in (0, 1)] + [D(codes=4, hdr=2, len=2, nbcc=1, cls=0)])
        + [D(dup=1, nto=a, ncc=b, nbcc=c, cls=k) for a, b, c, k in ((1, 1, 2, 0), (2, 0, 1, 1), (1, 2, 1, 2), (3, 0, 0, 0))])
        + [D(nto=12, ncc=9, nbcc=17, hdr=h, len=1, codes=0, cls=c, opts=BIG) for h, c in ((5, 0), (6, 1), (7, 2), (8, 0))] + [D(hdr=h, len=1, hpre=n, ncc=1, nbcc=1, codes=0) for h in (5, 6, 7, 8) for n in (40, 300)]
        + [D(nto=a, ncc=b, nbcc=c, codes=0, maxstep=700, cls=k, opts=BIG) for a, b, c, k in ((260, 1, 1, 0), (1, 260, 2, 1), (2, 1, 260, 2))])
    if p == 4: return (([D(hdr=h, len=n, ncc=1, nbcc=1, cls=c) for h in (1, 2, 3, 4, 9) for n, c in ((2, 0), (3, 1))] + [D(natt=1, anamelen=2, cidlen=2, alen=1), D(natt=2, anamelen=1, cidlen=1, alen=0, html=1), D(natt=1, anamelen=3, alen=0), D(natt=1, cidlen=3, alen=0)]
        + [D(nto=2, ncc=a, nbcc=b, cls=c) for a in (0, 2) for b in (0, 1) for c in base3] + [D(hdr=1, len=0), D(hdr=2, len=0), D(hdr=1, len=4)])
        + [D(hdr=h, len=1, hpre=n, codes=0, nto=m, ncc=1, opts=BIG) for h, n, m in ((1, 3000, 1), (1, 990, 2), (2, 900, 1), (3, 997, 12), (4, 300, 1), (1, 60, 1), (2, 70, 1))])
    if p == 5: return ((([D(body=1, blen=n, bpre=pre, bpost=post, cls=c, html=h) for n, pre, post, c, h in ((4, 0, 0, 0, 0), (3, 0, 0, 1, 1), (3, 0, 70, 2, 0), (3, 440, 40, 0, 0), (3, 470, 0, 0, 1), (3, 435, 600, 0, 0), (3, 960, 3, 0, 0), (0, 0, 0, 0, 0), (1, 508, 1, 0, 0))]
        + [D(body=2, blen=1), D(body=5, blen=1), D(body=5, blen=2), D(body=6, blen=1), D(body=3), D(body=4, bpre=3000), D(body=1, blen=3, natt=1, alen=1), D(body=5, blen=1, faults=128, codes=0)])
        + [D(body=1, blen=n, bpre=pre, slide=w, bpost=post, html=h) for n, pre, w, post, h in ((3, 445, 24, 0, 0), (2, 440, 30, 90, 1), (3, 955, 24, 0, 0), (2, 380, 60, 0, 0))])
        + [D(body=1, bfill=f, bpre=n, blen=1, bpost=k, codes=0, html=f & 1) for f, n, k in ((1, 2000, 1200), (1, 9000, 0), (2, 1000, 100), (3, 1000, 3), (4, 800, 5), (5, 1500, 0), (6, 1200, 1), (7, 700, 700), (0, 70000, 10))])
    if p == 6: return ([S(cls=c, codes=0, cred=1, nmsg=n, batch=b, natt=7, htm=h, unread=u) for c in range(6) for n, b, u, h in ((1, 0, 1, 0), (2, 1, 1, 1), (3, 1, 2, 5), (3, 0, 6, 2))] + ([D(natt=1, alen=n, ext=e, cls=c) for n, e, c in ((0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 3, 0), (4, 4, 0))] + [D(natt=2, alen=2, html=1), D(natt=3, alen=1, ext=2), D(natt=1, alen=2, anamelen=2, cidlen=2), D(natt=2, alen=1, anamelen=1, cidlen=1), D(natt=1, alen=3, apre=500), D(natt=2, alen=3, apre=1600),
        D(natt=1, alen=2, apre=49150), D(natt=1, alen=3, body=1, blen=2), D(natt=1, alen=0, apre=400), D(natt=1, alen=1, apre=767, anamelen=0)])
        + [D(natt=1, alen=1, apre=n, codes=0) for n in (100000, 1021, 3070)] + [D(natt=8, alen=1, apre=n, codes=0, anamelen=1) for n in (0, 700)]
        + [D(natt=1, alen=0, apre=3, body=1, bpre=400 + o, slide=128, codes=0) for o in (0, 128, 256, 384)] + [D(natt=0, body=1, bpre=470, slide=80, codes=0)])
    if p == 7: return ([D(mode=2, faults=f, budget=b, codes=0, cls=c, nto=2, natt=1) for f in (16, 128) for b in (1,) for c in base3] + [D(mode=2, faults=128, budget=2 + (c > 0), codes=0, cls=c) for c in base3] + [D(mode=2, faults=144, budget=2, codes=0, cls=c, body=4, bpre=600 if c == 0 else 1500) for c in base3]
        + faults([16, 128], nto=2, ncc=1) + [S(cls=c, faults=16, cred=1, codes=0, nmsg=2, batch=1) for c in range(6)])
    if p == 8: return (faults(cls=(1, 2, 4, 5), nmsg=2, batch=1, limit=60) + options(cls=(1, 2, 4, 5)) + faults(cls=(1, 2), nmsg=2, starttls=2, limit=60)
        + codes(cls=(1, 2, 4, 5), nto=1, ncc=0, nbcc=0) + options(cls=(1, 2, 4, 5), codes=1) + [R(mode=3)] + faults([CUT, LONG], (1, 2), starttls=2))
    if p == 9: return faults(cls=(2, 5)) + two((2, 5)) + options(cls=(2, 5)) + codes(cls=(2, 5))
    if p == 10: return faults([64, 2048, 8192], (1, 2, 4, 5), acceptself=2) + two((1, 2, 4, 5), fl=[64, 2048, 8192], acceptself=2) + options(cls=(1, 2, 4, 5), faults=2048)
    if p == 11: return (([D(mode=6, auth=a, cls=c, ulen=u, p1=w, codes=0, faults=0) for a, c, u, w in ((-1, 0, 2, 2), (9, 0, 1, 1), (9, 1, 1, 1), (9, 2, 1, 1), (2, 0, 3, 1), (3, 0, 1, 3), (1, 0, 3, 3), (-1, 2, 3, 3))] + [D(mode=6, auth=-1, cls=c, ulen=1, p1=1, codes=1) for c in base3] + options(authmask=-1) + codes(cred=0)
        + [S(cls=c, codes=0, faults=0, cred=1, nmsg=2, batch=b, authmask=-1, starttls=st) for c in range(6) for b in (0, 1) for st in ((0, 1) if c % 3 == 1 else (2,))])
        + [D(mode=6, hpre=n, ulen=1, p1=1, codes=0, cls=c) for n, c in ((30, 0), (100, 2), (600, 1))])
    if p == 12: return ([D(mode=3, auth=a, cls=c, codes=1, p1=x, p2=y) for a, c, x, y in ((1, 0, 3, 3), (1, 0, 1, 4), (2, 0, 3, 3), (2, 0, 2, 5), (3, 0, 3, 3), (3, 0, 1, 4), (-1, 1, 2, 3), (-1, 2, 3, 2), (1, 2, 2, 4), (3, 1, 2, 2))] + [D(mode=3, auth=a, cls=c, codes=0, faults=f, p1=2, p2=3) for a, c, f in ((1, 0, 7), (2, 0, 7), (3, 0, 7), (2, 1, 16), (1, 0, 8), (3, 0, 16))]
        + [D(mode=3, auth=a, cls=c, codes=0, p1=3, p2=30, hpre=n) for a, c, n in ((1, 0, 40), (2, 1, 40), (3, 2, 40), (3, 0, 300), (1, 2, 500))]
        + [D(mode=3, auth=a, cls=c, codes=0, p1=1, p2=1, long1=x, long2=y) for a in (1, 2, 3) for c, x, y in ((0, 0, 90), (0, 60, 400), (0, 0, 1500), (0, 3, 9000))])
    if p == 13: return (faults([0, 7, 8, 16, 512, 1024]) + codes() + two((0, 1, 2), fl=[7, 16]) + [R(mode=2, jlen=n) for n in (0,)] * 0 + [S(cls=c, nmsg=3, batch=1, cred=1, codes=0, nto=3, ncc=2, nbcc=2) for c in range(6)]
        + [S(cls=c, codes=0, faults=LONG, cred=1, longlen=n) for c in base3 for n in (4000, 5200, 8500)] + faults([LONG], (0, 2, 4)) + faults([CUT], base3) + [S(cls=c, codes=1, cred=1, faults=TEXT, text=3) for c in base3])
    if p == 14: return (faults(cred=1) + codes() + two((0, 1, 2), fl=[7, 8, 64, 2048, 1024])
        + faults([7, 16], (0, 1, 2, 5), sig=1) + faults([7, 16], (1, 2), sig=2) + faults([0, 7, 32], base3, fdbase=1020) + faults([0, 7, 32], base3, fdbase=100000) + faults([7], base3, fdbase=1023, nmsg=2, batch=0) + two((1, 2), fl=[7, 16], batch=0, sig=1)
        + faults([LONG, BABBLE, CUT, TRICKLE], (0, 1, 2, 5)) + faults([JUNK], (0, 1), jlen=4, limit=100) + [R(mode=4, len=n, pre=q, tail=t) for n in (3, 5) for q in range(4) for t in (0, 1)] + [R(mode=1, len=n) for n in (0, 3, 5)])
    if p == 15: return (options(faults=0) + options(faults=1024, limit=60) + faults([512, 1024])
        + [R(mode=2, llen=n, auth=a) for n in (5, 6, 7) for a in (0, 1)] + [R(mode=2, near=n, auth=a, before=b, after=c) for n, a, b, c in ((1, 1, 1, 1), (2, 0, 1, 1), (3, 1, 2, 0), (4, 0, 0, 2), (1, 0, 3, 1))] + [R(mode=2, eq=1, w1=a, w2=b, near=c) for a, b, c in ((5, 5, 0), (7, -1, 0), (5, -3, 1))]
        + [R(mode=3, near=n, have=h, dash=d, llen=l, before=b, after=2 - b) for n, d, l in ((1, 0, 1), (1, 0, 3), (2, 1, 3), (2, 0, 3), (2, 1, 1), (3, 0, 1), (3, 0, 3)) for h in (0, 1) for b in (0, 1, 2)] + [R(mode=3, before=b, after=a) for b, a in ((0, 0), (2, 0), (0, 2))]
        + [S(cls=c, codes=0, cred=1, authmask=-1, layout=l, starttls=s, faults=f) for c in (0, 1, 2, 4) for l in (6, 7) for s in ((0, 1) if c % 3 == 1 else (1,)) for f in (0,)]
        + [R(mode=2, w1=a, w2=b) for a, b in ((5, 5), (7, 5), (5, 7), (6, -1), (-1, 6), (-1, -1))] + [R(mode=2, w1=5, w2=b, mid=m, llen=l) for b, m, l in ((-1, 8, 1), (-3, 20, 1), (5, 12, 1), (-2, 60, 1))] + [S(cls=c, codes=0, cred=1, words=2, authmask=-1, layout=-1, starttls=s) for c, s in ((0, 0), (1, 0), (1, 1), (2, 0))] + [R(mode=2, w1=5, w2=-1, before=b, after=a, llen=2) for b, a in ((0, 0), (0, 3), (4, 0))] + faults([CUT, LONG], (0, 1, 2)) + [S(cls=c, codes=0, cred=1, faults=f, kwcase=k, words=w, anysplit=1, authmask=m) for c, f, k, w, m in ((0, 0, 1, 0, 7), (1, 0, 1, 1, 7), (0, 1024, 0, 1, 7), (2, 1024, 0, 0, 3), (0, 0, 1, 1, 0))] + [S(cls=c, codes=0, faults=0, cred=1, nmsg=2, batch=0, authmask=-1) for c in base3])
    if p == 16: return (codes() + faults([8])
        + [R(mode=1, len=n) for n in range(6)] + codes(faults=TEXT, text=3, nto=1, ncc=0, nbcc=0) + codes(text=-1, nto=1, ncc=0, nbcc=0) + codes(cls=base3, faults=LONG, nto=1, ncc=0, nbcc=0))
    if p == 17: return (faults([7, 8, 32, 64, 8192, 256], tmo=2) + faults([7, 256], tmo=1) + faults([7, 32], tmo=4) + faults([7], (0, 1, 2), cred=0)
        + faults([CUT, TRICKLE, BABBLE], (0, 1, 2, 4), tmo=3)
        + [S(cls=c, codes=0, cred=1, faults=f, sig=s, tmo=2, nmsg=n, batch=0) for c in base3 for f in (7, 16) for s in (0, 1, 2) for n in (1, 2)] + faults([32, 256], base3, fdbase=2000, tmo=2))
    if p == 18: return ((faults() + two(fl=[7, 8, 16, 32, 64, 2048, 8192]) + two((0, 1, 2), fl=[7, 32, 64], batch=0)
        + faults([0, 7, 16, 32, 64, 8192], base3, fdbase=0) + two(base3, fl=[0, 7, 32], batch=0, fdbase=0) + two(base3, fl=[0, 7], batch=1, fdbase=0) + [K(cls=c, steps=1, conn=1, codes=0, op=o, fdbase=0) for c in base3 for o in range(9)]
        + faults([CUT, BABBLE], base3) + [K(cls=c, steps=1, conn=1, codes=0, op=o) for c in (0, 2) for o in range(9)])
        + [S(cls=c, codes=0, cred=1, nmsg=3, batch=b, faults=f) for c in base3 for b in (0, 1) for f in (7, 16)])
    if p == 19: return (two(fl=[0], fdbase=0) + [S(cls=c, nmsg=3, batch=b, cred=1, codes=0, fdbase=0) for c in base3 for b in (0, 1)] + two(fl=[0, 7]) + two(fl=[0, 7], batch=0) + [S(cls=c, nmsg=3, batch=b, cred=1, codes=0) for c in range(6) for b in (0, 1)] + options(nmsg=2, batch=1, acceptself=0)
        + two((0, 1, 2, 4), fl=[0], codes=2) + two((0, 1, 2, 4), fl=[0], codes=3) + [S(cls=c, nmsg=3, batch=b, cred=1, codes=0, natt=n, htm=h) for c in range(6) for b, n, h in ((1, 1, 2), (1, 2, 1), (0, 1, 4), (1, 6, 3))] + two((0, 2), fl=[0], codes=2, batch=0) + two((0, 2), fl=[0], codes=1, limit=180))
    if p == 20: return ([S(cls=c, codes=0, cred=1, nmsg=3, batch=b, natt=7, unread=u) for c in base3 for b, u in ((0, 1), (1, 1), (1, 2))] + (two(fl=[7, 8, 16, 32, 64, 2048, 8192]) + two((0, 1, 2), fl=[7, 8], batch=0) + codes(nmsg=2, batch=1, nto=1, ncc=0, nbcc=0, codes=2)
        + two((0, 1, 2), fl=[CUT, LONG]))
        + [S(cls=c, codes=0, cred=1, nmsg=3, batch=b, faults=f, budget=g) for c in base3 for b in (0, 1) for f, g in ((7, 1), (16, 2))]
        + [S(cls=c, codes=2, cred=1, nmsg=2, batch=b, natt=n, htm=h) for c in base3 for b, n, h in ((1, 1, 0), (1, 2, 1), (0, 1, 2), (0, 3, 3))] + [S(cls=c, codes=4, cred=0, nmsg=2, batch=b) for c in range(6) for b in (0, 1)])
    if p == 21: return [V(mode=9, v=v, steps=2) for v in range(7)] + [V(mode=10, steps=1, op=o, html=h) for o in range(8) for h in (0, 1)]
    if p == 22: return ([V(mode=12, cls=c) for c in range(3)]
        + [K(cls=c, steps=1, conn=1, codes=0, op=o, fdbase=0) for c in base3 for o in range(9)] + [K(cls=c, steps=2, conn=0, codes=0) for c in range(6)] + [K(cls=c, steps=1, conn=1, codes=0, op=o) for c in range(6) for o in range(9)])
    if p == 23: return ([V(mode=1, len=n) for n in (0, 1, 2, 3, 4)] + [V(mode=1, len=2, pre=a, post=b) for a, b in ((1, 0), (49149, 3), (49150, 0), (3, 2))] + [V(mode=2, len=n) for n in (0, 1, 2, 3, 4, 5)] + [V(mode=13, len=n) for n in (0, 2)] + [V(mode=2, pre=a, len=n) for a, n in ((57, 2), (57, 5), (300, 2), (300, 4), (49149, 3), (3, 3))]
        + [V(mode=1, len=2, pre=49149, post=10), V(mode=1, len=2, pre=98300, post=10), V(mode=1, len=3, pre=49146, post=49160)])
    if p == 24: return [V(mode=3, len=n) for n in (0, 1, 2, 3, 4, 5)] + [V(mode=3, len=n, pre=a, fpre=f, post=b, fpost=g) for n, a, f, b, g in ((1, 300, 1, 0, 0), (1, 0, 0, 300, 1), (1, 150, 3, 150, 3), (1, 20, 2, 40, 1), (1, 40, 1, 20, 2), (1, 100, 4, 100, 4), (1, 5000, 2, 3, 1), (2, 17, 4, 15, 3), (2, 1, 1, 1, 3))]
    if p == 25: return ([V(mode=14, wlen=w, form=f) for w in (1, 2) for f in (0, 1, 2)] + [V(mode=5, len=n, what=0, form=f) for f in range(5) for n in (0, 1, 2, 3)] + [V(mode=5, len=n, what=w) for w in (1, 2) for n in (0, 1, 2, 3)] + [V(mode=5, len=n, what=3, cls=c) for c in range(6) for n in (0, 2)])
    if p == 26: return ([V(mode=11), V(mode=11, html=1)] + [V(mode=12, cls=c) for c in range(3)] + [V(mode=13, len=n) for n in (0, 1, 3)] + [D(mode=4, cls=c, hdr=h, len=2, ncc=1, nbcc=1, natt=1, html=c & 1, codes=0) for c in base3 for h in (1, 2, 3)] + [D(mode=4, cls=c, ulen=1, p1=1, auth=a, codes=0, authmask=7) for c in base3 for a in (-1, 9)] + [D(mode=4, cls=c, codes=1, ulen=1, p1=1) for c in base3] + [D(mode=4, cls=0, body=1, blen=2, natt=2, alen=1, html=1)]
        + [D(mode=4, cls=c, codes=0, nto=4, ncc=3, nbcc=5, natt=3, alen=1, html=h, body=1, blen=1, bpre=600, opts=BIG) for c in base3 for h in (0, 1)] + [D(mode=4, cls=c, codes=0, hdr=h, len=1, hpre=200, ncc=1, nbcc=1) for c, h in ((0, 5), (1, 6), (2, 7), (0, 8), (0, 4))]
        + [D(mode=4, cls=c, codes=0, natt=2, alen=1, anamelen=n, anamelen2=0, cidlen=k, ncc=a, nbcc=b, body=3 * (1 - a)) for c, n, k, a, b in ((0, 0, 0, 1, 0), (0, 1, 1, 0, 0), (1, 0, 1, 1, 0), (2, 1, 0, 0, 1))])
    if p == 27: return [V(mode=6), V(mode=6, pair=1)] + [V(mode=7, which=w) for w in (0, 1)]
    if p == 28: return [V(mode=8, len=n, form=f) for n in (0, 1, 2, 3, 4) for f in (0, 1)] + [V(mode=8, len=3, form=2), V(mode=8, len=3, form=2, nodot=0), V(mode=8, len=3, alt=1), V(mode=8, len=5, form=0)] + [V(mode=8, len=n, form=0) for n in (6, 7, 9, 12)]
    if p == 29: return (faults([32], tmo=2) + faults([32], tmo=3) + two(fl=[32]) + faults([32], (0, 1, 2), cred=0, budget=2)
        + [S(cls=c, faults=32, cred=1, codes=0, port=1, limit=60) for c in range(6)] + faults([32], fdbase=0) + faults([32], fdbase=1023) + faults([32], base3, fdbase=70000, tmo=4))
    if p == 30: return [V(mode=4, len=n, nlen=m) for n in (1, 2) for m in (0, 1, 2)] + [V(mode=4, len=1, nlen=1, nlen2=0, n=3), V(mode=4, len=1, nlen=0, nlen2=2, n=3), V(mode=4, len=1, nlen=2, nlen2=1, n=0), V(mode=4, len=1, nlen=0, n=1)]
    if p == 31: return ([T(cls=a, clsb=b, first=1, natt=1, make=m, cred=1) for a, b, m in ((0, 0, 1), (1, 2, 0), (2, 4, 1), (3, 1, 0))] + [T(cls=a, clsb=b) for a in range(6) for b in range(6)] + [T(cls=a, clsb=b, batch=1, batchb=1, nmsg=2, nmsgb=2, cred=(a + b) % 2) for a, b in ((0, 0), (1, 1), (2, 2), (1, 0), (0, 2), (2, 1), (4, 1))]
        + [T(cls=c, clsb=c, make=1, natt=1, news=1) for c in range(6)] + [T(cls=c, clsb=d, share=1, natt=2 - c % 2, batch=c % 2) for c, d in ((0, 0), (1, 2), (2, 5), (3, 3), (4, 1))]
        + [T(cls=c, clsb=d, faila=a, failb=b) for c, d, a, b in ((0, 0, 0, 8), (0, 1, 8, 0), (1, 0, 8, 0), (2, 2, 8, 0), (1, 1, 0, 9), (2, 2, 3, 0), (0, 1, 11, 0), (1, 0, 0, 10), (2, 1, 0, 2), (4, 4, 9, 0), (0, 0, 0, 11))]
        + [T(cls=c, clsb=c, auth=1, authmask=m) for c in range(3) for m in (2, 4)] + [T(cls=0, clsb=1, fdbase=0, blen=700), T(cls=1, clsb=0, blen=1100), T(cls=2, clsb=2, blen=600, make=1), T(cls=1, clsb=1, starttls=0), T(cls=1, clsb=0, starttls=0, batch=1, nmsg=2)])
    return []

# far beyond the sizes the rest is run with: long histories, large contents
def extremes(p):
    b3 = (0, 1, 2); r = []
    if p in (1, 2, 8, 13, 17, 18, 19, 20):
        fl = {1: (0, 7), 2: (8,), 8: (64,), 13: (0,), 17: (7,), 18: (0, 7, 16), 19: (0, 7), 20: (7,)}[p]
        r += [S(100, cls=c, codes=0, cred=1, nmsg=12, batch=b, faults=f, maxstep=300, natt=0x5a, htm=0x333, opts=BIG) for c in ((1, 2) if p == 8 else b3) for b in (0, 1) for f in fl]
    if p == 3: r += [D(hdr=h, len=1, hpre=5000, ncc=1, nbcc=1, codes=0, opts=BIG) for h in (5, 8)]
    if p == 4: r += [D(hdr=1, len=1, hpre=70000, codes=0, opts=BIG), D(hdr=3, len=1, hpre=9000, codes=0, opts=BIG), D(natt=1, anamelen=1, cidlen=1, alen=1, hpre=0, codes=0, nto=40, ncc=40, opts=BIG)]
    if p == 5: r += [D(100, body=1, bfill=1, bpre=1100000, blen=1, codes=0, opts=HUGE), D(body=1, bfill=5, bpre=20000, blen=1, codes=0, opts=HUGE)]
    if p == 6: r += [D(100, natt=1, alen=1, apre=1100000, codes=0, opts=HUGE), D(natt=40, alen=1, anamelen=1, codes=0, opts=HUGE), D(natt=3, alen=1, apre=70000, codes=0, opts=HUGE)]
    if p == 7: r += [D(100, mode=2, faults=f, budget=1, codes=0, cls=c, body=1, bfill=1, bpre=8000, blen=1, opts=HUGE) for c in b3 for f in (16, 128)]
    if p == 11: r += [D(mode=6, hpre=9000, ulen=1, p1=1, codes=0, cls=c, opts=BIG) for c in b3]
    if p == 15: r += [R(mode=2, before=b, after=a, llen=1, w1=5, w2=-1) for b, a in ((0, 40), (40, 0), (20, 25))] + [R(mode=3, before=b, after=a, llen=1) for b, a in ((0, 30), (30, 0), (16, 16))]
    if p == 25: r += [V(mode=14, wlen=0, form=f, len=100000, good=g, opts=BIG) for f in (0, 1, 2) for g in (0, 1)] + [V(mode=14, wlen=1, form=f, len=300) for f in (0, 1, 2)]
    if p == 26: r += [D(mode=4, cls=c, codes=0, hdr=1, len=1, hpre=9000, nto=20, ncc=18, nbcc=17, natt=12, alen=1, anamelen=0, opts=BIG) for c in b3]
    if p == 30: r += [V(mode=4, len=1, nlen=1, n=n) for n in (9, 60)]
    return r

def thorough(p):
    L = 400; r = list(quick(p)); base3 = (0, 1, 2)
    if p in (1, 2, 14, 16): r += faults(codes=1, acceptself=2, limit=L) + options(codes=1, limit=L) + codes(nto=4, ncc=2, nbcc=2, limit=L)
    if p in (1, 17, 18, 20, 14, 13): r += faults(budget=2, nmsg=2, batch=1, limit=L)
    if p in (8, 9, 10): r += faults(cls=(2, 5) if p == 9 else (1, 2, 4, 5), codes=1, nmsg=2, batch=1, acceptself=2, limit=L)
    if p in (19, 20): r += two(nmsg=3, limit=L) + two(nmsg=3, batch=0, limit=L)
    if p == 4: r += [D(L, hdr=h, len=n, ncc=1, nbcc=1, cls=c) for h in (1, 2, 3, 4, 9) for n in (4, 5) for c in base3] + [D(L, natt=2, anamelen=3, cidlen=3)]
    if p == 5: r += [D(L, body=1, blen=n, bpre=pre, bpost=post) for n in (5, 6) for pre in (0, 440, 505) for post in (0, 80)] + [D(L, body=1, blen=3, bpre=pre) for pre in range(436, 516, 4)]
    if p == 6: r += [D(L, natt=1, alen=3, apre=a) for a in range(0, 800, 61)] + [D(L, natt=3, alen=3, anamelen=2, cidlen=2)]
    if p == 7: r += [D(L, mode=2, faults=144, budget=3, codes=1, cls=c, nto=2, natt=1) for c in base3] + [D(L, mode=2, faults=128, budget=6, codes=0, cls=c) for c in base3]
    if p == 11: r += [D(L, mode=6, auth=9, cls=c, ulen=u, p1=w, codes=1) for c in base3 for u, w in ((1, 1), (2, 3), (4, 4))]
    if p == 12: r += [D(L, mode=3, auth=a, cls=c, codes=1, p1=x, p2=y, ulen=u) for a in (-1, 1, 2, 3) for c in base3 for x, y, u in ((4, 4, 1), (1, 6, 2))]
    if p == 21: r += [V(L, mode=9, v=v, steps=3) for v in range(7)] + [V(L, mode=10, steps=1, op=o, html=1, shapes=0, maxn=1) for o in range(8)]
    if p == 23: r += [V(L, mode=1, len=n) for n in (5, 6, 7)] + [V(L, mode=2, len=n) for n in (6, 7, 8)] + [V(L, mode=1, len=3, pre=a, post=b) for a in (49146, 49147, 49148, 98300) for b in (0, 1, 5)]
    if p == 24: r += [V(L, mode=3, len=n) for n in (6, 7, 8, 9)]
    if p == 25: r += [V(L, mode=14, wlen=w, form=f, len=n) for w, n in ((3, 60), (2, 150), (1, 600)) for f in (0, 1, 2)] + [V(L, mode=5, len=n, what=0, form=f) for f in range(5) for n in (4, 5)] + [V(L, mode=5, len=n, what=w) for w in (1, 2) for n in (4, 5)] + [V(L, mode=5, len=4, what=3, cls=c) for c in range(6)]
    if p == 26: r += [D(L, mode=4, cls=c, ulen=2, p1=2, auth=9, codes=1, authmask=-1) for c in base3] + [V(L, mode=11, shapes=0, maxn=2, html=h) for h in (0, 1)]
    if p == 28: r += [V(L, mode=8, len=n, form=f) for n in (5, 6, 7) for f in (0, 1)]
    if p == 31: r += ([T(L, cls=a, clsb=b, faila=k, failb=0 if k else 1 + (a + b) % 11, batch=b & 1, nmsg=2 - (a & 1), natt=1, make=k & 1, news=k & 1) for a in range(6) for b in range(6) for k in (0, 8, 11)]
        + [T(L, cls=c, clsb=d, faila=8, failb=9 + c % 3) for c in range(3) for d in range(3)] + [T(L, cls=c, clsb=c, batch=1, batchb=1, nmsg=2, nmsgb=2, make=1, natt=2, news=1) for c in range(6)])
    if p == 30: r += [V(L, mode=4, len=n, nlen=m, nlen2=k, n=j) for n in (1, 3) for m in (0, 3) for k in (0, 3) for j in (2, 4)]
    return r

def cases(p, tier):
    out, seen = [], set()
    for c in (thorough if tier == 'thorough' else quick)(p) + extremes(p):
        k = (c['harness'], tuple(sorted(c['params'].items())))
        if k in seen: continue
        seen.add(k); out.append(c)
    return out
