"""What each check explores. Every function drives TLC on the specifications in spec/ and replays their behaviours."""
from vlib import MachineryError, parallel

BLS_ALL = {'pkagg', 'pkdec', 'newapk', 'aggapks', 'apkagg', 'apkaggb', 'apkcopy', 'apkdec', 'sign', 'signok', 'sigadd', 'sigagg',
           'sigaggb', 'signeg', 'sigsub', 'uneg', 'sigcopy', 'sigdec', 'usign', 'uagg', 'ubatch', 'udec', 'verify', 'verifyt', 'vu', 'vut', 'vbatch', 'vub', 'vcomp'}
BLS_BUILD = {'pkagg', 'newapk', 'aggapks', 'apkagg', 'apkcopy', 'signok', 'sigadd', 'sigagg', 'sigcopy', 'usign', 'uagg', 'ubatch', 'sigsub'}
BLS_DEC = {'pkdec', 'apkaggb', 'apkdec', 'sigaggb', 'sigdec', 'udec', 'signeg', 'uneg'}


def bls_consts(**kw):
    c = dict(NK=3, NM=3, NP=5, NA=3, NS=3, NU=3, MaxTerms=6, Depth=14, InitKind='rich', Kinds=BLS_ALL)
    c.update(kw)
    return c


def bls_sim(r, num, kinds, depth=14, **kw):
    return r.tlc('BLS', bls_consts(Kinds=kinds, Depth=depth, **kw), spec='SpecRand', invs=['Emit'], simulate=(num, 4 * depth), what='random behaviours of the object store')


def bls_recycled(r, num, kinds=frozenset()):
    """Few objects, used again and again with new contents."""
    k = {'pkdec', 'newapk', 'apkagg', 'apkdec', 'sign', 'sigadd', 'sigdec', 'sigsub', 'uneg', 'udec', 'usign', 'pkagg', 'ubatch', 'aggapks', 'apkcopy', 'sigcopy'} | kinds
    return r.tlc('BLS', bls_consts(NK=2, NM=2, NP=3, NA=2, NS=2, NU=2, Depth=12, Kinds=k), spec='SpecRand', invs=['Emit'], simulate=(num, 48), what='random behaviours of few objects with changing contents')


def bls_small(r):
    """The design, exhaustively within small constants."""
    r.tlc('BLS', bls_consts(NK=2, NM=2, NP=3, NA=2, NS=2, NU=1, MaxTerms=3, Depth=r.q(2, 3), InitKind='rich',
                            Kinds=BLS_ALL - {'signeg', 'uneg', 'pkdec', 'apkdec', 'sigdec', 'udec', 'vcomp', 'vub', 'vbatch', 'verifyt', 'vut'}),
          invs=['Exact', 'Unique', 'BatchSound', 'Commutes'], props=['Frame'], view='View', what='all behaviours up to the depth', timeout=800)


BLS_REC = dict(NK=6, NM=4, NP=10, NA=5, NS=5, NU=5, MaxTerms=99, Depth=1, InitKind='empty', Kinds={'verify'})


def bls_tag(d):
    """The tag of the divergence of a recorded history, as the replays name them."""
    kd, what = d['kd'], d['what']
    if what == 'panic':
        return 'panic'
    if what == 'frame':
        return 'frame'
    if what == 'value':
        return 'roundtrip' if kd in BLS_DEC else 'value'
    if kd in BLS_DEC | {'sigsub'}:
        return 'decode'
    if kd in ('vbatch', 'vub', 'vcomp'):
        return 'batch'
    return 'result' if kd in ('verify', 'vu') else 'value'


def bls_recorded(r, tags):
    r.validate('bls', 'BLSTrace', BLS_REC, r.q(120, 1500), lambda d: bls_tag(d) if bls_tag(d) in tags else None)


def C01(r):
    cases, sim, _, gen, rec = parallel(
        lambda: r.tlc('BLSCases', dict(NK=3, NM=3, MaxKeys=r.q(3, 4), LongN={4, 5, 8, 17} if r.quick else {4, 5, 8, 16, 17, 33}, FarN={33, 65, 130, 260}, Part='multi'), invs=['Sane', 'Emit'], what='every list of keys against every signature one edit away'),
        lambda: bls_sim(r, r.q(1000, 10000), BLS_BUILD | {'verify', 'verifyt', 'vu', 'vut', 'sigaggb', 'apkaggb', 'sigdec', 'apkdec'}),
        lambda: bls_small(r),
        lambda: r.tlc('BLSGen', dict(Streams={1, 2}, Portions={0, 1, 7}, MaxGen=r.q(2, 3)), invs=['Sane', 'Emit'], what='every sequence of key generations'),
        lambda: bls_recycled(r, r.q(400, 4000), {'verify', 'vu'}))
    tags = ['base', 'result', 'value', 'panic', 'roundtrip', 'decode', 'frame', 'gen']
    r.replay('blscase', cases, tags=tags)
    r.replay('blsgen', gen, tags=tags)
    r.replay('bls', sim + rec, tags=tags)
    bls_recorded(r, tags)


def C02(r):
    cases, sim, _, rec = parallel(
        lambda: r.tlc('BLSCases', dict(NK=2, NM=3, MaxKeys=r.q(2, 3), LongN={3, 4, 5, 8, 17} if r.quick else {4, 5, 8, 9, 16, 17, 33}, FarN={33, 65, 130} if r.quick else {65, 130, 260}, Part='batch'), invs=['Sane', 'Emit'], timeout=850,
                      what='every batch against every signature one edit away'),
        lambda: bls_sim(r, r.q(600, 10000), BLS_BUILD | {'vbatch', 'vub', 'vcomp', 'vbatcht', 'vubt'}),
        lambda: bls_small(r),
        lambda: bls_recycled(r, r.q(250, 3000), {'vbatch', 'vub', 'vcomp', 'vbatcht', 'vubt'}))
    tags = ['batch', 'result', 'panic', 'base']
    r.replay('blscase', cases, tags=tags)
    r.replay('bls', sim + rec, tags=tags)
    bls_recorded(r, tags)


def C03(r):
    forge = dict(MaxC=2, MaxRogue=2, Weights='perkey')
    cases = r.tlc('BLSForge', forge, invs=['NoForgery', 'Emit'], what='every list of rogue keys and every forging strategy')
    # the strategies do break the broken designs
    for w in ('const', 'none', 'xonly', 'few'):
        try:
            r.tlc('BLSForge', dict(forge, Weights=w, MaxRogue=1), invs=['NoForgery'], count=False)
        except MachineryError as e:
            if 'NoForgery is violated' not in str(e):
                raise
        else:
            raise MachineryError('the adversary of BLSForge does not break weights ' + w)
    r.replay('blsforge', cases, tags=['forged', 'rescale', 'panic'], case_timeout=300)


def C04(r):
    sim, _, rec = parallel(lambda: bls_sim(r, r.q(1500, 20000), BLS_BUILD | BLS_DEC | {'sign', 'verify', 'vu', 'vcomp', 'vbatch', 'vub'}, depth=18), lambda: bls_small(r), lambda: bls_recycled(r, r.q(400, 4000)))
    tags = ['frame', 'buffer', 'value', 'panic']
    r.replay('bls', sim + rec, tags=tags)
    bls_recorded(r, tags)


def C05(r):
    sim, _ = parallel(lambda: bls_sim(r, r.q(1500, 20000), BLS_DEC | {'pkagg', 'apkagg', 'signok', 'sigagg', 'usign', 'uagg'}, depth=18), lambda: bls_small(r))
    tags = ['decode', 'roundtrip', 'panic']
    r.replay('bls', sim, tags=tags)
    bls_recorded(r, tags)


MK = {'new', 'using', 'rebuild', 'set', 'fail', 'troot', 'tleaf', 'tnode', 'swapkids', 'dupkid', 'swapdata', 'vtree', 'vcontent'}
MINV = ['RootRight', 'FreshOK', 'Sound']


def mk_sim(r, num, kinds, depth=16, maxlen=9):
    return r.tlc('Merkle', dict(NPay=5, NV=4, MaxLen=maxlen, Depth=depth, Kinds=kinds), spec='SpecRand', invs=MINV + ['Emit'], props=['Kept', 'Frame'],
                 simulate=(num, 4 * depth), what='random behaviours of the tree')


def mk_tag(d):
    kd, what = d['kd'], d['what']
    if what in ('panic', 'errvalue'):
        return what
    if what == 'value':
        return 'build' if kd in ('new', 'using', 'rebuild') else 'frame'
    t = {'new': 'build', 'using': 'build', 'rebuild': 'build', 'vtree': 'vtree', 'vcontent': 'vcontent'}.get(kd, 'frame')
    return t + ('err' if what == 'answererr' else '')


def mk_recorded(r, tags):
    r.validate('merkle', 'MerkleTrace', dict(NPay=20, NV=11, MaxLen=40, Depth=1, Kinds={'vtree'}), r.q(150, 2500),
               lambda d: mk_tag(d) if mk_tag(d) in tags else None, spoil=lambda a: 'false' if a == 'true' else 'true')


def mk_small(r):
    r.tlc('Merkle', dict(NPay=2, NV=2, MaxLen=3, Depth=r.q(3, 5), Kinds=MK), invs=MINV, props=['Kept', 'Frame'], view='View', what='all behaviours up to the depth', timeout=800)


def mk_sizes(r, pats):
    return r.tlc('MerkleSizes', dict(MaxN=r.q(130, 520), Far={255, 256, 257, 511, 513, 1023, 1024, 1025, 2049, 4098} if r.quick else {1023, 1024, 1025, 2047, 2048, 2049, 4095, 4097, 4098, 8194}, Full=r.q(40, 70), Patterns=pats, Deep={16, 17, 31, 33, 65, 129, 257, 513, 1025} | (set() if r.quick else {2049, 4097})), invs=['Collision', 'Emit'], what='every size up to the bound, one edit at every position', timeout=800)


def C06(r):
    sim, sizes, _ = parallel(lambda: mk_sim(r, r.q(1200, 20000), {'new', 'using', 'rebuild', 'set', 'fail', 'tleaf', 'tnode', 'troot', 'vtree'}),
                             lambda: mk_sizes(r, {'distinct', 'same', 'alt', 'lastdup'}), lambda: mk_small(r))
    tags = ['build', 'builderr', 'panic']
    r.replay('merkle', sim, tags=tags)
    r.replay('merklesize', sizes, tags=tags)
    mk_recorded(r, tags)


def C07(r):
    sim, sizes, _ = parallel(lambda: mk_sim(r, r.q(3000, 30000), MK - {'fail'}), lambda: mk_sizes(r, {'distinct', 'alt'}), lambda: mk_small(r))
    tags = ['vtree', 'vcontent', 'vtreeerr', 'vcontenterr', 'panic']
    r.replay('merkle', sim, tags=tags)
    r.replay('merklesize', sizes, tags=tags)
    mk_recorded(r, tags)


def C08(r):
    sim, sizes, _ = parallel(lambda: mk_sim(r, r.q(3000, 30000), {'new', 'using', 'rebuild', 'set', 'fail', 'vtree', 'vcontent'}), lambda: mk_sizes(r, {'distinct'}), lambda: mk_small(r))
    tags = ['write', 'frame', 'errvalue', 'builderr', 'vtreeerr', 'vcontenterr', 'panic']
    r.replay('merkle', sim, tags=tags)
    r.replay('merklesize', sizes, tags=tags)
    mk_recorded(r, tags)


FAR = {31, 32, 33, 62, 63, 64, 65, 99, 127, 128, 129, 254, 255, 256, 257, 300}


def ring_edits(r, scheme, shapes, rels=('other', 'samemsg', 'samering'), far=()):
    """Every single edit of rings of every shape, and random sequences of edits. shapes: (members, keys, images)."""
    cs = dict(Shapes={100 * n + 10 * kp + ni for n, kp, ni in shapes}, Far={100 * n + 10 * kp + ni for n, kp, ni in far}, Rels=set(rels), Scheme=scheme)
    one, many = parallel(
        lambda: r.tlc('RingEdits', dict(cs, Depth=1), invs=['OneEdit', 'Binding', 'Emit'], what='every edit of a signature'),
        lambda: r.tlc('RingEdits', dict(cs, Far=set(), Depth=r.q(3, 4)), spec='SpecRand', invs=['EmitLast'], simulate=(r.q(2500, 60000), 40), what='random sequences of edits'))
    return one + many


def ring_forge(r, scheme, tags):
    progs = r.tlc('RingForge', dict(Scheme=scheme, MaxN=r.q(3, 6), MaxN2=r.q(2, 3)), invs=['NoForgery', 'Complete', 'Emit'], what='every program of the algebraic adversary')
    r.replay('ringforge', progs, tags=tags)


def C09(r):
    cases, sim = parallel(
        lambda: r.tlc('RingCases', dict(Scheme='mlsag', Part='cases', MaxD=r.q(24, 64), Far=FAR, Sizes={1, 2, 3, 7} if r.quick else {1, 2, 3, 4, 5, 7, 20}), invs=['Emit'], what='every ring with special members, secrets and messages'),
        lambda: mb_sim(r, r.q(300, 5000)))
    tags = ['complete', 'ring', 'refuse', 'retkey', 'panic']
    r.replay('ringcase', cases, tags=tags)
    r.replay('mlsagbuild', sim, tags=tags)


MB = {'ksadd', 'ksnew', 'decoy', 'decoys', 'redecoy', 'sub', 'setsec', 'setmsg', 'fill', 'prove', 'spoil', 'check', 'newprover'}


def mb_sim(r, num, depth=30):
    return r.tlc('MlsagBuild', dict(NPr=3, NKS=4, NB=4, NS=3, NM=3, NPt=3, MaxDecoys=9, MaxSigs=6, Depth=depth, Kinds=MB, InitKind='rich'), spec='SpecRand', invs=['EmitLast', 'Covers', 'Zero'], props=['Frame'],
                 simulate=(num, 8 * depth), what='random histories of provers, key sets and signatures')


def mb_small(r):
    r.tlc('MlsagBuild', dict(NPr=2, NKS=2, NB=1, NS=1, NM=2, NPt=1, MaxDecoys=2, MaxSigs=2, Depth=r.q(3, 4), Kinds=MB, InitKind='rich'), invs=['Covers', 'Zero'], props=['Frame'], view='View', what='all histories up to the depth', timeout=800)


def C10(r):
    shapes = [(1, 2, 1), (2, 2, 1), (3, 2, 1), (2, 2, 2), (2, 3, 1), (8, 2, 1)] if r.quick else [(n, 2, 1) for n in (1, 2, 3, 4, 5, 8, 13, 21)] + [(n, kp, ni) for n in (1, 2, 3) for kp in (1, 2, 3) for ni in (1, 2, 3) if ni <= kp and (kp, ni) != (2, 1)]
    r.replay('ringedit', ring_edits(r, 'mlsag', shapes, far=[(17, 2, 1), (34, 2, 1), (66, 2, 1)]), tags=['accept', 'acceptimage', 'panic'])
    ring_forge(r, 'mlsag', ['forgedkey', 'latekey', 'ring1key', 'panic'])


def C11(r):
    links = r.tlc('RingCases', dict(Scheme='mlsag', Part='links', MaxD=0, Far=set(), Sizes=set()), invs=['Emit'], what='every pair of signatures')
    r.replay('ringlink', links, tags=['link', 'image', 'panic', 'complete'])
    tags = ['acceptimage', 'image']
    for scheme in ('mlsag', 'blsag'):
        cases = r.tlc('RingCases', dict(Scheme=scheme, Part='cases', MaxD=r.q(12, 40), Far=set(), Sizes={1, 2} if r.quick else {1, 2, 3, 4}), invs=['Emit'])
        r.replay('ringcase', cases, tags=['image'])
        r.replay('ringedit', ring_edits(r, scheme, [(1, 1, 1), (2, 1, 1), (5, 1, 1)] if scheme == 'blsag' else [(1, 2, 1), (2, 2, 1), (5, 2, 1), (2, 2, 2)], rels=('other', 'samering')), tags=tags)
        ring_forge(r, scheme, ['forgedimage', 'ring1image'])
    r.replay('mlsagbuild', mb_sim(r, r.q(200, 4000)), tags=['image', 'accept'])


def refutes(r, module, consts, inv, **kw):
    """TLC has to find the flaw of a design known to be broken: the property checked is not vacuous."""
    try:
        r.tlc(module, consts, invs=[inv], count=False, **kw)
    except MachineryError as e:
        if '%s is violated' % inv not in str(e):
            raise
    else:
        raise MachineryError('%s does not refute %s' % (module, consts))


def C12(r):
    c = dict(Part='coins', Q=3, N=3, Signer='honest', Shuffle='fy', Sizes={2, 3, 4, 5, 7, 8} if r.quick else {2, 3, 4, 5, 6, 7, 8, 9, 12}, Big={16, 33} if r.quick else {16, 33, 64, 100}, Far={170, 290} if r.quick else {140, 170, 200, 290, 500})
    fs = [lambda: r.tlc('RingAnon', c, invs=['Anonymous', 'Recover'], what='every link function and all keys: coins and signatures correspond one to one'),
          lambda: r.tlc('RingAnon', dict(c, Q=r.q(3, 5), N=r.q(4, 2)), invs=['Anonymous', 'Recover'], what='every link function and all keys: coins and signatures correspond one to one'),
          lambda: r.tlc('RingAnon', dict(c, Part='cases'), invs=['Emit'], what='what is measured'),
          lambda: r.tlc('RingAnon', dict(c, Part='streams'), invs=['Emit'], what='what is measured')]
    fs += [lambda w=w: refutes(r, 'RingAnon', dict(c, Signer=w), 'Anonymous') for w in ('alpha0', 'shared', 'same', 'zero')]
    for w in ('fy', 'insert'):
        fs.append(lambda w=w: r.tlc('RingAnon', dict(c, Part='place', N=5, Shuffle=w), invs=['Uniform'], what='every sequence of draws'))
    fs += [lambda w=w: refutes(r, 'RingAnon', dict(c, Part='place', N=5, Shuffle=w), 'Uniform') for w in ('sattolo', 'insertshort')]
    out = parallel(*fs)
    r.replay('ringanon', out[2], tags=['anon', 'base', 'panic'], case_timeout=600)
    r.replay('ringanonstream', out[3], tags=['anon', 'base', 'panic'], j=1)


def C13(r):
    sim, _ = parallel(lambda: mb_sim(r, r.q(1200, 15000), depth=r.q(36, 60)), lambda: mb_small(r))
    r.replay('mlsagbuild', sim, tags=['issued', 'caller', 'ring', 'complete', 'refuse', 'image', 'panic'])


def C15(r):
    cases = r.tlc('RingCases', dict(Scheme='blsag', Part='cases', MaxD=r.q(40, 120), Far=FAR, Sizes={1, 2, 3, 7} if r.quick else {1, 2, 3, 4, 5, 7, 20}), invs=['Emit'], what='every ring with special members, secrets and messages')
    r.replay('ringcase', cases, tags=['complete', 'ring', 'caller', 'panic'])


def C16(r):
    shapes = [(n, 1, 1) for n in r.q((1, 2, 3, 5, 8), (1, 2, 3, 4, 5, 6, 7, 8, 13, 21))]
    r.replay('ringedit', ring_edits(r, 'blsag', shapes, far=[(17, 1, 1), (34, 1, 1), (66, 1, 1)]), tags=['accept', 'acceptimage', 'panic'])
    ring_forge(r, 'blsag', ['forgedkey', 'ring1key', 'panic'])


def codec(r, fmts, shapes, honest, maxn, longf):
    tags = ['decode', 'canon', 'equal', 'encode', 'panic', 'memory']
    cs = dict(Fmts=set(fmts), Shapes=set(shapes))
    one, many, hon = parallel(
        lambda: r.tlc('Codec', dict(cs, Depth=1), invs=['Lossless', 'Canonical', 'Prefix', 'Emit'], what='every mutation of an encoding'),
        lambda: r.tlc('Codec', dict(cs, Depth=3), spec='SpecRand', invs=['Canonical', 'EmitLast'], simulate=(r.q(3000, 60000), 40), what='random sequences of mutations'),
        lambda: r.tlc('CodecHonest', dict(Kinds=set(honest), MaxN=maxn, LongF=set(longf), LongN={0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} | (set() if r.quick else {1000, 4095, 4096, 4097}), FarN={511, 512, 513, 1023, 1024, 1025, 2049, 4096, 4097, 8193, 65537} | (set() if r.quick else {16385, 65535, 65536})), invs=['Emit'], what='genuine values through the codec'))
    # one behaviour at a time: memory is measured
    r.replay('codec', one + many, tags=tags, j=1, case_timeout=20)
    r.replay('codechonest', hon, tags=tags)


def C14(r):
    codec(r, ['mlsag+', 'mlsag', 'resp', 'keys'], [1, 11, 12, 21, 22, 32, 23] if r.quick else [1] + [10 * n + k for n in (1, 2, 3, 4, 5) for k in (1, 2, 3)], ['mlsag'], r.q(6, 30), ['mlsag+', 'mlsag', 'resp', 'keys'])


def C20(r):
    codec(r, ['range+', 'range', 'ip', 'commit', 'commits'], [1, 10, 11, 12, 22, 31] if r.quick else [10 * n + k for n in range(5) for k in range(5)], ['range'], r.q(4, 16), ['commits', 'ip'])


def drawn(r, kinds, n):
    dr = dict(Part='design', Period=0, N=40, Kinds=kinds, Counts={n})
    return parallel(
        lambda: r.tlc('Draws', dict(dr, Part='cases'), invs=['Emit'], what='draw after draw'),
        lambda: r.tlc('Draws', dr, invs=['NoRepeat', 'Counted'], what='fresh coins: none comes back'),
        lambda: refutes(r, 'Draws', dict(dr, Period=16), 'NoRepeat'),
        lambda: refutes(r, 'Draws', dict(dr, Period=1), 'NoRepeat'))[0]


def C22(r):
    big = dict(NG=2, NP=2, NSeed=11, MaxGen=12, MaxVec=3, MaxLen=4, MaxCom=6)
    sim, _, wide, long = parallel(
        lambda: r.tlc('Pedersen', dict(big, Depth=24), spec='SpecRand', invs=['Bounded', 'Emit'], props=['Kept', 'Frame'], simulate=(r.q(400, 8000), 120), what='random histories of generators and commitments'),
        lambda: r.tlc('Pedersen', dict(NG=1, NP=1, NSeed=2, MaxGen=3, MaxVec=1, MaxLen=1, MaxCom=2, Depth=r.q(3, 4)), invs=['Bounded'], props=['Kept', 'Frame'], view='View', what='all histories up to the depth'),
        lambda: r.tlc('PedersenWide', dict(Ns={1, 2, 3, 16, 255, 256, 257, 258, 300, 515}), invs=['Distinct', 'Emit'], what='pairs of vectors of a wide commitment'),
        lambda: r.tlc('PedersenLong', dict(Ns={0, 1, 17, 64, 255, 256, 257, 300, 1025}, Ms={0, 1, 65, 257, 1025} if r.quick else {0, 1, 65, 257, 1025, 2049}, Far={513, 2049, 4097} if r.quick else {513, 2049, 4097, 8193, 16385, 65537}), invs=['Enough', 'Emit'], what='long vectors, generators computed beforehand'))
    draws = drawn(r, {'scalar', 'objects', 'vectors'}, r.q(66000, 140000))
    tags = ['gens', 'open', 'blind', 'caller', 'issued', 'panic']
    r.replay('draws', draws, tags=tags, case_timeout=300)
    r.replay('pedersen', sim, tags=tags)
    r.replay('pedersenwide', wide, tags=tags)
    r.replay('pedersenlong', long, tags=tags)


def C23(r):
    sim, one, _, long = parallel(
        lambda: r.tlc('VectorStore', dict(NV=4, NPV=2, MaxLen=5, Neg={1, 2}, Pos={0, 1, 2, 3, 1000}, Depth=30, Bound=10000), spec='SpecRand', invs=['Laws', 'Emit'], props=['Frame'], simulate=(r.q(1500, 20000), 120), what='random histories of vectors'),
        lambda: r.tlc('VectorStore', dict(NV=3, NPV=2, MaxLen=17, Neg={1}, Pos={0, 1, 2}, Depth=20, Bound=10000), spec='SpecRand', invs=['Laws', 'Emit'], props=['Frame'], simulate=(r.q(300, 5000), 80), what='random histories of longer vectors'),
        lambda: r.tlc('VectorStore', dict(NV=2, NPV=1, MaxLen=2, Neg={1}, Pos={0, 2}, Depth=r.q(2, 3), Bound=30), invs=['Laws', 'Geometric'], props=['Frame'], view='View', what='all histories up to the depth'),
        lambda: r.tlc('VectorLong', dict(Ns={0, 1, 2, 3, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025, 2048} | (set() if r.quick else {4096, 4097, 10000, 65535, 65536, 65537}), ExpNs={0, 1, 2, 3, 8, 16, 33, 64, 65, 128, 256, 257} | (set() if r.quick else {1024, 1025, 2048}), Fills={'rand', 'edge', 'zeros'}, Far={4096, 4097, 8193, 16384, 16385, 32769, 65537} if r.quick else {20000, 100000, 131073, 300000}), invs=['Laws', 'Emit'], what='operations on long vectors'))
    r.replay('vectorlong', long, tags=['exact', 'operand', 'panic'])
    r.replay('vector', sim + one, tags=['exact', 'operand', 'panic'])


def C24(r):
    import json
    one, sim = parallel(
        lambda: r.tlc('HashHist', dict(NC=44, NB=2, Depth=1), invs=['Stateless', 'Emit'], props=['Kept'], what='every call'),
        lambda: r.tlc('HashHist', dict(NC=44, NB=3, Depth=r.q(40, 60)), spec='SpecRand', invs=['Emit'], props=['Kept'], simulate=(r.q(400, 6000), 70), what='random histories of calls'))
    tags = ['digest', 'shared', 'input', 'entropy', 'panic']
    r.replay('hash', one + sim, tags=tags)
    r.replay('draws', drawn(r, {'entropy', 'entropies'}, r.q(150000, 1500000)), tags=tags)
    logs = [json.loads(s)['log'] for s in sim[:r.q(120, 600)]]
    r.replay('hashpar', [json.dumps({'logs': logs[i:i + 6]}) for i in range(0, len(logs), 6)], race=True, conc=True, j=2, what='histories at once, under the race detector', sample=0)


def range_algebra(r, per=12):
    """Solutions of the weak verifiers' equations, some of each kind."""
    import json, random
    c = dict(MaxE=2, MaxV=3, Betas={0, 1, 2, 3, 4}, MaxBeta=2, Tilts=False)
    invs = ['Sound', 'Complete', 'Emit']
    jobs = parallel(
        lambda: r.tlc('RangeAlgebra', dict(c, M=1, Bits=2, MaxE=r.q(2, 3), Weaks={'none', 'y1', 'z1', 'yz', 'zy', 'w1'}), invs=invs, what='every small witness for one value', timeout=850),
        lambda: r.tlc('RangeAlgebra', dict(c, M=2, Bits=1, MaxV=r.q(2, 3), Weaks={'none', 'y1', 'yrep', 'zflat', 'z1'}), invs=invs, what='every small witness for two values', timeout=850),
        lambda: r.tlc('RangeAlgebra', dict(c, M=4, Bits=1, MaxV=1, Tilts=True, Weaks={'none', 'c1', 'cz'}), invs=invs, what='commitments with a foreign component', timeout=850))
    rnd = random.Random(r.seed)
    out, kinds = [], {}
    for l in jobs:
        for s in l:
            x = json.loads(s)
            kinds.setdefault((x['m'], x['weak'], x['tag']), []).append(s)
    for k in sorted(kinds):
        out += rnd.sample(kinds[k], min(len(kinds[k]), per))
    broken = {k[1] for k in kinds if k[2] == 'forged'}
    if not {'y1', 'z1', 'yz', 'zy', 'w1', 'yrep', 'zflat', 'c1', 'cz', ''} <= broken:
        raise MachineryError('no witness for some weak verifier: %s' % sorted(broken))
    return out


def range_forge(r):
    import json
    progs = r.tlc('RangeForge', dict(Ms={1, 2, 4} if r.quick else {1, 2, 4, 8, 16}, RoundsOf={1, 2} if r.quick else {1, 2, 3, 4, 5}), invs=['NoForgery', 'Typed', 'Emit'], what='every game of the prover against the transcript', timeout=850)
    closers = {json.loads(p)['close'] for p in progs}
    if not {'V1', 'V2', 'A', 'S', 'T1', 'T2', 'L1', 'R1', 'L6', 'R6', 'L2'} <= closers:
        raise MachineryError('the prover of RangeForge does not win some weak games: %s' % sorted(closers))
    return progs


def C17(r):
    cases = r.tlc('RangeCases', dict(Part='honest', Pats={'zero', 'max', 'rand', 'alt', 'stair'} if r.quick else {'zero', 'max', 'rand', 'alt', 'stair', 'lastmax', 'same'}, Lens=set(range(1, 17)), Step=r.q(4, 1)), invs=['Sane', 'Emit'], what='lists of values')
    outs = r.tlc('RangeCases', dict(Part='out', Pats=set(), Lens={1, 3}, Step=1), invs=['Sane', 'Emit'], what='values out of range')
    r.replay('rangecase', cases * r.q(1, 3), tags=['complete', 'commits', 'caller', 'refuse', 'panic', 'encode'])
    r.replay('rangecase', outs, tags=['caller', 'panic'])


HIDE_WEAK = ('gamma0', 'gammavalue', 'alpha0', 'rho0', 'alpharho', 'alphagamma', 'rhogamma', 'tau10', 'tau20', 'tausame', 'taualpha', 'taurho', 'taugamma', 'maskl0', 'maskr0', 'maskneg')


def C27(r):
    c = dict(Part='model', Q=3, M=1, Prover='honest', Xs={1, 2}, Ys={1, 2}, Lens={1, 2, 3, 5} if r.quick else {1, 2, 3, 4, 5, 7, 8, 12, 16}, Pats={'zero', 'one', 'max', 'rand'}, Reps=r.q(6, 40))
    two = dict(c, M=2, Xs={1}, Ys={2})
    fs = [lambda: r.tlc('RangeHide', dict(c, Part='cases'), invs=['Emit'], what='what is measured'),
          lambda: r.tlc('RangeHide', c, invs=['Hidden', 'Spent', 'Checks'], what='all coins, values and challenges: what is published does not depend on the values'),
          lambda: r.tlc('RangeHide', two if r.quick else dict(two, Ys={1, 2}, Xs={1, 2}), invs=['Hidden'], what='the same for two values', timeout=850)]
    fs += [lambda w=w: refutes(r, 'RangeHide', dict(c, Prover=w), 'Hidden') for w in HIDE_WEAK]
    fs += [lambda w=w: refutes(r, 'RangeHide', dict(two, Prover=w), 'Hidden') for w in ('gammasame', 'maskrep', 'masktail')]
    fs.append(lambda: refutes(r, 'RangeHide', dict(c, Prover='masksame'), 'Spent'))
    out = parallel(*fs)
    r.replay('rangehide', out[0], tags=['hide', 'base', 'panic'], case_timeout=600)


def C18(r):
    es = dict(Shapes={101, 202, 402} if r.quick else {101, 102, 201, 202, 401, 404, 808, 1616}, Rels={'other', 'samevals'})
    one, many, forge, alg, outs = parallel(
        lambda: r.tlc('RangeEdits', dict(es, Depth=1, Far={808, 1608} if r.quick else {802, 1601}), invs=['OneEdit', 'Binding', 'Emit'], what='every edit of a proof'),
        lambda: r.tlc('RangeEdits', dict(es, Depth=r.q(2, 3), Far=set()), spec='SpecRand', invs=['Binding', 'EmitLast'], simulate=(r.q(600, 20000), 20), what='random sequences of edits'),
        lambda: range_forge(r), lambda: range_algebra(r, r.q(10, 60)),
        lambda: r.tlc('RangeCases', dict(Part='out', Pats=set(), Lens={1, 2, 4, 5} if r.quick else set(range(1, 17)), Step=1), invs=['Sane', 'Emit'], what='values out of range'))
    tags = ['accept', 'forged', 'outrange', 'panic']
    r.replay('rangeedit', one + many, tags=tags)
    r.replay('rangeforge', [p for p in forge if '"forged"' in p] + alg, tags=tags)
    r.replay('rangecase', outs, tags=tags)


def C19(r):
    import json
    sim, par, _ = parallel(
        lambda: r.tlc('RangeHist', dict(Lens={1, 2, 3}, Bad={0, 17}, MaxP=6, Depth=18), spec='SpecRand', invs=['Same', 'Emit'], props=['Kept'], simulate=(r.q(64, 1500), 30), what='random histories'),
        lambda: r.tlc('RangeHist', dict(Lens={1, 2}, Bad={0, 17}, MaxP=4, Depth=7), spec='SpecRand', invs=['Same', 'Emit'], props=['Kept'], simulate=(r.q(48, 800), 30), what='random short histories'),
        lambda: r.tlc('RangeHist', dict(Lens={1, 2}, Bad={0}, MaxP=4, Depth=r.q(5, 6)), invs=['Same'], props=['Kept'], what='all histories up to the depth'))
    tags = ['history', 'panic']
    r.replay('rangehist', sim, tags=tags, conc=True)
    big = r.tlc('RangeHist', dict(Lens={1, 5, 8, 16}, Bad={0, 17, 33}, MaxP=6, Depth=r.q(9, 20)), spec='SpecRand', invs=['Same', 'Emit'], props=['Kept'], simulate=(r.q(16, 100), 30), what='random histories of long lists')
    r.replay('rangehist', big, tags=tags, conc=True, case_timeout=300)
    logs = [json.loads(s)['log'] for s in par]
    r.replay('rangepar', [json.dumps({'logs': logs[i:i + 8]}) for i in range(0, len(logs), 8)], race=True, conc=True, j=2, what='histories at once, under the race detector', sample=0, case_timeout=300, tags=tags + ['race'])


def ipa_cases(r):
    return r.tlc('IPACases', dict(MaxLog=r.q(6, 8), Full=r.q(4, 16), Far={128, 256, 512, 1024, 2048} | (set() if r.quick else {4096})), invs=['Emit'], what='kinds of vectors, generators and factors')


def C21(r):
    cases, one, many = parallel(
        lambda: ipa_cases(r),
        lambda: r.tlc('IPAEdits', dict(Ns={1, 2, 4, 8} if r.quick else {1, 2, 4, 8, 16, 32}, Depth=1), invs=['OneEdit', 'Emit'], what='every edit of a proof and its statement'),
        lambda: r.tlc('IPAEdits', dict(Ns={1, 2, 4}, Depth=r.q(2, 3)), spec='SpecRand', invs=['EmitLast'], simulate=(r.q(1500, 40000), 20), what='random sequences of edits'))
    tags = ['complete', 'accept', 'caller', 'refuse', 'scalars', 'panic']
    r.replay('ipacase', cases * r.q(1, 3), tags=tags)
    r.replay('ipaedit', one + many, tags=tags)


def C25(r):
    c = dict(Fams={'bls', 'merkle', 'mlsag', 'ipa'}, Threads=2, Calls=1, Insts={1, 2}, Origins={'made', 'dec'}, Writers=set(), Lazy=set(), Cold=False)
    allf = {'bls', 'merkle', 'mlsag', 'ipa', 'range'}
    pairs, rpairs, three, _ = parallel(
        lambda: r.tlc('Shared', c, invs=['NoRace', 'Alone', 'Emit'], what='every pair of operations, every schedule'),
        lambda: r.tlc('Shared', dict(c, Fams={'range'}, Insts={1} if r.quick else {1, 2}), invs=['NoRace', 'Alone', 'Emit'], what='every pair of operations on range proofs, every schedule'),
        lambda: r.tlc('Shared', dict(c, Fams=allf, Threads=r.q(4, 6), Calls=r.q(3, 6), Insts={1, 2}), spec='SpecRand', invs=['EmitRand'], simulate=(r.q(60, 600), 10), what='random threads of several calls'),
        lambda: r.tlc('Shared', dict(c, Threads=3, Insts={1}, Origins={'made'}, Fams={'merkle'} if r.quick else {'merkle', 'mlsag'}), invs=['NoRace', 'Alone'], what='every triple of operations, every schedule'))
    # each operation as the first of a process, in several threads
    cold = r.tlc('Shared', dict(c, Fams=allf, Threads=3, Insts={1}, Origins={'made'} if r.quick else {'made', 'dec'}, Cold=True), spec='SpecCold', invs=['NoRace', 'Alone', 'Emit'], what='every operation for the first time, in three threads')
    refutes(r, 'Shared', dict(c, Lazy={'verify'}, Fams={'bls'}, Cold=True), 'NoRace', spec='SpecCold')
    r.tlc('Shared', dict(c, Lazy={'verify'}, Fams={'bls'}), invs=['NoRace', 'Alone'], what='a table made at the first call ever does no harm later')
    # an operation that rewrites its operand would break it
    refutes(r, 'Shared', dict(c, Writers={'apkmarshal'}, Fams={'bls'}), 'Alone')
    refutes(r, 'Shared', dict(c, Writers={'apkmarshal'}, Fams={'bls'}), 'NoRace')
    tags = ['result', 'panic', 'race']
    r.replay_each('shared', cold, tags=tags, race=True, case_timeout=100, what='every operation as the first of a process, in three threads, under the race detector')
    if r.violations:
        # decided: corrupted objects may keep the other programs busy for as long as they are let
        return
    r.replay('shared', pairs + rpairs, tags=tags, race=True, conc=True, case_timeout=200, what='every pair, under the race detector')
    r.replay('shared', three, tags=tags, race=True, conc=True, case_timeout=400, what='threads of several calls, under the race detector')


def C26(r):
    tr = dict(NT=2, NC=5)
    sim, _, forge, alg, ipa = parallel(
        lambda: r.tlc('Transcript', dict(tr, Depth=30), spec='SpecRand', invs=['Concat', 'Emit'], props=['Kept', 'Pure'], simulate=(r.q(1500, 20000), 40), what='random histories of transcripts'),
        lambda: r.tlc('Transcript', dict(NT=2, NC=1, Depth=r.q(3, 4)), invs=['Concat'], props=['Kept', 'Pure'], what='all histories up to the depth'),
        lambda: range_forge(r), lambda: range_algebra(r, 4), lambda: ipa_cases(r))
    tags = ['content', 'challenge', 'result', 'input', 'panic', 'interop', 'transcript']
    r.replay('transcript', sim, tags=tags)
    r.replay('rangeforge', [p for p in forge if '"forged"' not in p] + [p for p in alg if '"interop"' in p], tags=tags)
    r.replay('ipacase', [p for p in ipa if '"ok":true' in p], tags=tags)
    hon = r.tlc('RangeCases', dict(Part='honest', Pats={'rand', 'max'}, Lens={1, 2, 3, 4}, Step=8), invs=['Emit'], what='proofs of the library, verified independently')
    r.replay('rangecase', hon, tags=tags)
    full = [{'m': m, 'vals': 'in', 'ok': True, 'tag': 'interop'} for m in (4, 8, 16)]
    r.replay('rangeforge', full, tags=tags)


TECH = {
 'C01': 'TLA+ object-store model of formal sums (BLS.tla, BLSCases.tla, BLSGen.tla): TLC behaviours replayed on the library, recorded histories validated by TLC (BLSTrace.tla)',
 'C02': 'TLA+ batch model (BLSCases.tla, BLS.tla): TLC behaviours replayed on the library, recorded histories validated by TLC (BLSTrace.tla)',
 'C04': 'TLA+ value-semantics model with frame condition (BLS.tla): TLC behaviours replayed, recorded histories validated by TLC (BLSTrace.tla)',
 'C05': 'TLA+ model of encodings in the object store (BLS.tla): TLC behaviours replayed, recorded histories validated by TLC (BLSTrace.tla)',
 'C06': 'TLA+ Merkle tree model over symbolic hashes (Merkle.tla, MerkleSizes.tla): behaviours replayed, recorded histories validated by TLC (MerkleTrace.tla)',
 'C07': 'TLA+ Merkle tree model with tampering actions: behaviours replayed, recorded histories validated by TLC (MerkleTrace.tla)',
 'C08': 'TLA+ Merkle tree model with failing payloads and frame condition: behaviours replayed, recorded histories validated by TLC (MerkleTrace.tla)',
 'C09': 'TLA+ enumeration of rings (RingCases.tla) and prover histories (MlsagBuild.tla), replayed on the library',
 'C10': 'TLA+ model of edits of symbolic signatures (RingEdits.tla) and algebraic adversary (RingForge.tla), executed on the library',
 'C11': 'TLA+ models of linked signatures, image edits and image forgeries (RingCases, RingEdits, RingForge, MlsagBuild), executed on the library',
 'C12': 'TLA+ toy-field model of the signer, exhaustive over link functions (RingAnon.tla); its inverse recovers the coins of real signatures',
 'C13': 'TLA+ store of provers, key sets, buffers and signatures with frame condition (MlsagBuild.tla), behaviours replayed',
 'C14': 'TLA+ token-level wire format (Codec.tla, CodecHonest.tla), mutations replayed on the decoders and encoders',
 'C15': 'TLA+ enumeration of rings (RingCases.tla), replayed on the library',
 'C16': 'TLA+ model of edits (RingEdits.tla) and algebraic adversary (RingForge.tla), executed on the library',
 'C17': 'TLA+ enumeration of value lists (RangeCases.tla), replayed with independent opening of the commitments',
 'C18': 'TLA+ models of edits, of games against the transcript and of the equations (RangeEdits, RangeForge, RangeAlgebra), executed on the library',
 'C19': 'TLA+ model of histories (RangeHist.tla), replayed in sequence and concurrently under the race detector',
 'C20': 'TLA+ token-level wire format (Codec.tla, CodecHonest.tla), mutations replayed on the decoders and encoders',
 'C21': 'TLA+ enumeration of statements and edits (IPACases, IPAEdits), executed on the library',
 'C22': 'TLA+ store of generators and commitments (Pedersen, PedersenWide, PedersenLong, Draws), behaviours replayed',
 'C23': 'TLA+ store of vectors with algebraic laws and frame condition (VectorStore.tla), behaviours replayed',
 'C24': 'TLA+ model of call histories (HashHist.tla), replayed against independent digests and concurrently under the race detector',
 'C25': 'TLA+ model of concurrent operations (Shared.tla), all pairs and random programs executed under the race detector',
 'C26': 'TLA+ transcript model (Transcript.tla) and prover games (RangeForge, RangeAlgebra), executed against an independent prover and verifier',
 'C27': 'TLA+ model of what a proof publishes over a toy field (RangeHide.tla): TLC decides which provers hide; the savings it refutes are looked for in proofs of the library and the randomness they drew',
}
