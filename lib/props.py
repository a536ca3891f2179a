"""The properties and the jobs (harness x bounds) that decide them."""
from driver import Job
PROPS = []


def prop(**k):
    PROPS.append(k)


FLAT = [('coo', 0, 'Coo2'), ('coo2', 1, 'Coo2'), ('coo3', 1, 'Coo3'), ('csr', 2, 'Coo2'), ('csr-el', 2, 'Coo3'), ('csr2', 3, 'Coo2'), ('csr2-el', 3, 'Coo3'),
        ('crcsr', 5, 'Coo2'), ('crcsr-el', 5, 'Coo3'), ('cswr', 6, 'Coo2'), ('cswr-el', 6, 'Coo3'), ('dense', 7, 'Coo2'), ('dense-el', 7, 'Coo3')]
FD = {n: ['FMT=%d' % f, 'SRC=' + s] for n, f, s in FLAT}
BLK = [('csbr-tr', 1), ('csbr', 2), ('csbr2', 3), ('gsb', 4), ('gsb2', 5), ('bcsr6', 6)]
NOCHUNK = ('csbr2', 'bcsr6')
BD = {n: ['FMT=%d' % f] for n, f in BLK}
ONE = [('bcoo', 1), ('bcoo2', 2), ('bcsr', 3), ('bcsr-ser', 4), ('bcsr-par', 5), ('dense-ser', 6), ('dense-par', 7), ('coo-arr', 8), ('factory', 9), ('mblock', 10), ('dense-coo2', 11)]
OD = {n: ['FMT=%d' % f] for n, f in ONE}


def flat(name, tag, bounds, defs=(), **k):
    p = {a: b for a, b in k.items() if a not in ('t', 'n', 'opts', 'cover')}
    q = {a: b for a, b in k.items() if a in ('t', 'n', 'opts', 'cover')}
    return Job(name + '-' + tag, 'spmv_flat.cpp', FD[name] + list(defs), p, bounds=bounds, **q)


def blk(name, tag, bounds, defs=(), **k):
    if name == 'bcsr6':
        k.setdefault('conc', 1)  # its block table is indexed by the block id
    p = {a: b for a, b in k.items() if a not in ('t', 'n', 'opts', 'cover')}
    q = {a: b for a, b in k.items() if a in ('t', 'n', 'opts', 'cover')}
    return Job(name + '-' + tag, 'spmv_blocked.cpp', BD[name] + list(defs), p, bounds=bounds, **q)


def one(name, tag, bounds, defs=(), **k):
    p = {a: b for a, b in k.items() if a not in ('t', 'n', 'opts', 'cover')}
    q = {a: b for a, b in k.items() if a in ('t', 'n', 'opts', 'cover')}
    return Job(name + '-' + tag, 'block_types.cpp', OD[name] + list(defs), p, bounds=bounds, **q)


def sq(n, lo=None):  # all dimensions up to n
    return dict(R0=lo or 1, R1=n, C0=lo or 1, C1=n)


# Large inputs: the positions are fixed, all values and vectors are arbitrary, and the last elements may be in any of several rows
def pat(n=700, r=90, c=75, seed=1, **k):
    return dict(R0=r, R1=r, C0=c, C1=c, N0=n, N1=n, pat=seed, t=150, **k)


# 66,000 elements: beyond what 16-bit counters hold
HANG = ('--hang', '1000000000')


# Dimensions and indices of any size (no vectors are involved)
M31, M32, M64 = (1 << 31) - 1, (1 << 32) - 1, (1 << 64) - 1


def anydim(top, n=3, **k):
    return dict(nox=1, R1=top, C1=top, N1=n, **k)


def xl(**k):
    return dict(pat(66000, 300, 400, **k), t=300, opts=HANG)


def xlrow(**k):
    return dict(pat(66000, 300, 20, heavy=1, vc=1000, **k), t=300, opts=HANG)


ROWB = '66000 elements of one row, of which 66 are arbitrary'
PB = '%s elements at fixed positions of a %s matrix, arbitrary values'


# ------------------------------------------------------------------ C01 SpMV, unblocked formats
def c01(tier):
    J = []
    for n, f, s in FLAT:
        J.append(flat(n, 'small', 'R,C 1..3, nnz 0..3 anywhere (duplicates included), 2 threads', **sq(3), N1=3))
    for n in ('csr', 'csr2', 'crcsr', 'cswr', 'coo2', 'dense'):
        J.append(flat(n, 'tall', 'R=18 (two chunks of the dynamic loops), C=2, nnz 2, every placement', R0=18, R1=18, C0=2, C1=2, N0=2, N1=2, conc=1, W0=5, W1=5, t=120))
    J.append(flat('dense', 'tall40', 'R=40 (two chunks of 32 rows)', R0=40, R1=40, C0=2, C1=2, N0=2, N1=2, t=120))
    J.append(flat('cswr', 'wide-rows', 'R=8, width 1..4, nnz 2', R0=8, R1=8, C1=2, N0=2, N1=2, W0=1, W1=4, t=120))
    J.append(flat('csr2', 'cols', 'R 1..2, C=9, nnz 3', R1=2, C0=9, C1=9, N0=3, N1=3, t=120))
    for n, f, s in FLAT:
        J.append(flat(n, 'large', PB % (700, '90x75') + ', one more in any of 20 rows', **pat(701, W0=7, W1=7, free=1, flo=70, threads=3)))
        J.append(flat(n, 'band', PB % (600, '60x200') + ', near the diagonal and in one full row', **pat(600, 60, 200, band=9, heavy=3, W0=16, W1=16, threads=4)))
        J.append(flat(n, 'sparse', PB % (60, '300x40') + ' (many empty rows)', **pat(60, 300, 40, W0=32, W1=32, threads=2)))
    for n, f, s in FLAT:
        J.append(flat(n, 'pow2', PB % (1024, '128x64') + ', 9 threads', **pat(1024, 128, 64, W0=8, W1=8, threads=9)))
        J.append(flat(n, 'thr', 'R,C 1..3, nnz 0..2, 8 threads', **sq(3), N1=2, threads=8, conc=1, W1=2, t=100))
    J.append(flat('csr2', 'thr40', PB % (700, '90x75') + ', 40 threads', **pat(700, threads=40)))
    for n in ('coo', 'coo3', 'csr', 'csr2-el', 'crcsr', 'dense', 'cswr') if tier == 'quick' else FD:
        J.append(flat(n, 'xl', PB % (66000, '300x400'), **xl(W0=32, W1=32, threads=2)))
        J.append(flat(n, 'xlrow', ROWB, **xlrow(W0=32, W1=32, threads=2)))
        J.append(flat(n, 'tall64k', PB % (300, '66000x5'), **dict(pat(300, 66000, 5, W0=32, W1=32, threads=2), opts=HANG)))
        J.append(flat(n, 'wide64k', PB % (300, '5x66000'), **dict(pat(300, 5, 66000, W0=32, W1=32, threads=2), opts=HANG)))
        if tier == 'thorough':
            J.append(flat(n, 'xlcol', PB % (66000, '300x400') + ', all in one column', **xl(W0=32, W1=32, threads=2, hcol=1)))
    if tier == 'thorough':
        for n, f, s in FLAT:
            J.append(flat(n, 'huge', PB % (3000, '300x250'), **dict(pat(3000, 300, 250, W0=32, W1=32, threads=4), t=900)))
            J.append(flat(n, 'seeds', PB % (700, '70x75') + ', 8 patterns, one element in any row', **dict(pat(700, 70, 75, pat1=8, W0=5, W1=5, free=1, threads=3), t=900)))
            J.append(flat(n, 'mid', 'R,C=4, nnz=4 anywhere, 3 threads', **sq(4, 4), N0=4, N1=4, W0=2, W1=3, threads=3, t=900))
            J.append(flat(n, 'd', 'double values, 64-bit indices, R,C 1..3, nnz 0..3', ['VT=double', 'IX=uint64_t', 'SX=uint32_t'], **sq(3), N1=3, t=600))
        for n in ('csr2', 'csr', 'cswr', 'dense', 'crcsr'):
            J.append(flat(n, 'tall40c', 'R=40, C=2, nnz 2, every placement', R0=40, R1=40, C0=2, C1=2, N0=2, N1=2, conc=1, W0=16, W1=16, t=900))
            J.append(flat(n, 'three', 'R=18, C=2, nnz 3 (rows near the chunk border)', R0=18, R1=18, C0=2, C1=2, N0=3, N1=3, rlo=15, conc=1, W0=5, W1=5, t=900))
    return J


prop(id='C01', jobs=c01, bounds='R,C<=3 (thorough 4), nnz<=3 (thorough 4) fully symbolic; R up to 40 with 2-3 elements at every placement; values exact; up to 66000 elements at fixed positions with arbitrary values; 8, 9 and 40 threads with fixed positions', outside='larger matrices, floating-point rounding, values NaN/Inf', assumptions=['input indices are inside the matrix'])


# ------------------------------------------------------------------ C02 SpMV, blocked formats
def c02(tier):
    J = []
    for n, f in BLK:
        J.append(blk(n, 'conc', 'R=C=4, blocks of 2x2, nnz 3 at every placement', R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=3, N1=3, conc=1))
        J.append(blk(n, 'edge', 'R=C=5 (truncated last blocks), blocks of 2x2, nnz 2', R0=5, R1=5, C0=5, C1=5, S0=2, S1=2, N0=2, N1=2))
        J.append(blk(n, 'sizes', 'R,C 2..3, block size 1..4, nnz 2', **sq(3, 2), S0=1, S1=4, N0=2, N1=2, t=120))
        J.append(blk(n, 'rect', 'R=4, C=5, blocks of S x Q 1..3, nnz 1', R0=4, R1=4, C0=5, C1=5, S0=1, S1=3, Q0=1, Q1=3, square=0, N0=0, N1=1, t=120))
        J.append(blk(n, 'off', 'R,C=3, up to 2 x 3 blocks of arbitrary sizes, nnz 2', **sq(3, 3), mode=1, BR1=2, BC1=3, N0=2, N1=2, conc=1, t=120))
        if n not in NOCHUNK:
            J.append(blk(n, 'chunk', 'R=2, C=8, blocks of 1x1 (rows split into chunks), nnz 3, chunked algorithm', R0=2, R1=2, C0=8, C1=8, S0=1, S1=1, N0=3, N1=3, conc=1, clo=6, force=2, threads=3, t=120))
            J.append(blk(n, 'bal', 'R=C=4, blocks of 2x2, nnz 2, balanced algorithm', R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=2, N1=2, force=1))
    for n, f in BLK:
        J.append(blk(n, 'large', PB % (700, '90x75') + ', one more in any of 16 rows; blocks of 16x16', **pat(701, S0=16, S1=16, free=1, flo=74, threads=3)))
        J.append(blk(n, 'band', PB % (600, '60x200') + ', near the diagonal and in one full row; blocks of 8x32 (dense and sparse blocks)', **pat(600, 60, 200, band=9, heavy=3, S0=8, S1=8, Q0=32, Q1=32, square=0, threads=4)))
        J.append(blk(n, 'sparse', PB % (60, '300x40') + '; blocks of 16x16 (empty block-rows)', **pat(60, 300, 40, S0=16, S1=16, threads=2)))
        if n not in NOCHUNK:
            for fo in (1, 2):
                J.append(blk(n, 'wide%d' % fo, PB % (400, '20x200') + '; blocks of 5x5 (many chunks), %s algorithm' % ('balanced', 'chunked')[fo - 1], **pat(400, 20, 200, S0=5, S1=5, threads=3, force=fo)))
    for n, f in BLK:
        J.append(blk(n, 'pow2', PB % (1024, '128x64') + '; blocks of 16x16, 9 threads', **pat(1024, 128, 64, S0=16, S1=16, threads=9)))
        J.append(blk(n, 'thr', 'R=C=4, blocks of 2x2, nnz 2, 8 threads', R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=2, N1=2, conc=1, threads=8, t=100))
        J.append(blk(n, 'thr40', PB % (700, '90x75') + '; blocks of 8x8, 40 threads', **pat(700, S0=8, S1=8, threads=40)))
    for n in ('csbr', 'csbr2', 'gsb', 'gsb2', 'bcsr6'):
        J.append(blk(n, 'xl', PB % (66000, '300x400') + '; blocks of 64x64', **xl(S0=64, S1=64, threads=2)))
        J.append(blk(n, 'xlrow', ROWB + '; blocks of 64 rows', **xlrow(S0=64, S1=64, threads=2)))
        J.append(blk(n, 'tall64k', PB % (300, '66000x5') + '; blocks of 1024 rows', **dict(pat(300, 66000, 5, S0=1024, S1=1024, threads=2), opts=HANG)))
        J.append(blk(n, 'wide64k', PB % (300, '5x66000') + '; blocks of 1024 columns', **dict(pat(300, 5, 66000, S0=1024, S1=1024, threads=2), opts=HANG)))
    J.append(blk('gsb2', 'xlone', PB % (66000, '300x400') + '; one block', **xl(S0=512, S1=512, threads=2)))
    J.append(blk('gsb2', 'ownlarge', PB % (600, '90x75') + ', balanced constructor', **pat(600, S0=8, S1=8, balanced=1, threads=4)))
    J.append(blk('gsb2', 'own', 'R=C=4, balanced constructor', R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=2, N1=2, balanced=1))
    if tier == 'thorough':
        for n, f in BLK:
            J.append(blk(n, 'huge', PB % (2000, '200x210') + '; blocks of 32x32', **dict(pat(2000, 200, 210, S0=32, S1=32, threads=4), t=900)))
            J.append(blk(n, 'seeds', PB % (700, '70x75') + ', 8 patterns, one element in any row; blocks of 8x8', **dict(pat(700, 70, 75, pat1=8, S0=8, S1=8, free=1, threads=3), t=900)))
            J.append(blk(n, 'sym', 'R=C=5, blocks of 2x2, nnz 3', R0=5, R1=5, C0=5, C1=5, S0=2, S1=2, N0=3, N1=3, t=900))
            J.append(blk(n, 'off2', 'R,C 2..4, up to 3 x 3 blocks of arbitrary sizes, nnz 2', **sq(4, 2), mode=1, N0=1, N1=2, conc=1, t=900))
            J.append(blk(n, 'offs', 'R=C=3, same offsets for rows and columns, nnz 2', **sq(3, 3), mode=1, same=1, N0=2, N1=2, t=600))
            J.append(blk(n, 'd', 'double, 64-bit indices', ['VT=double', 'IX=uint64_t', 'SX=uint32_t'], R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=2, N1=2, t=600))
            J.append(blk(n, 'four', 'R=C=4, blocks of 2x2, nnz 4 at every placement', R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=4, N1=4, conc=1, t=900))
            for f2 in (1, 2):
                if n not in NOCHUNK:
                    J.append(blk(n, 'force%d' % f2, 'R=4, C=6, blocks of 2x2, nnz 3, %s algorithm' % ('balanced', 'chunked')[f2 - 1], R0=4, R1=4, C0=6, C1=6, S0=2, S1=2, N0=3, N1=3, conc=1, force=f2, threads=3, t=900))
    return J


prop(id='C02', jobs=c02, bounds='R,C<=5 (8 for the chunked rows), nnz<=3 (thorough 4), block sizes 1..4, up to 2x3 (thorough 3x3) blocks at every offset; up to 66000 elements at fixed positions with arbitrary values; 8, 9 and 40 threads with fixed positions', outside='larger matrices, rounding', assumptions=['input indices are inside the matrix', 'block offsets increase strictly from 0 to the dimension'])


# ------------------------------------------------------------------ C03 block formats
def c03(tier):
    J = []
    for n, f in ONE:
        J.append(one(n, 'small', 'R,C 1..3, nnz 0..3', **sq(3), N1=3, t=120))
    J.append(one('bcsr', 'sorted', 'R,C 1..3, nnz 0..3, sorted input', **sq(3), N1=3, sorted=1))
    J.append(one('factory', 'dense', 'R=2, C 1..6, nnz 3..4 (coordinate, parallel CSR, dense)', R0=1, R1=2, C1=6, N0=3, N1=4, conc=1, cover=('end', 'coo', 'csr-par', 'dense'), t=120))
    J.append(one('factory', 'csr', 'R=1, C 40..42, nnz 2 (serial and parallel CSR)', R1=1, C0=40, C1=42, N0=2, N1=2, conc=1, cover=('end', 'csr'), t=120))
    J.append(one('mblock', 'dense', '8-bit values: R=1, C=5, nnz 5 (dense block)', ['VT=uint8_t', 'SX=uint32_t'], R1=1, C0=5, C1=5, N0=5, N1=5, conc=1, cover=('end', 'dense'), t=120))
    J.append(one('mblock', 'csr', 'R=1, C=20, nnz 5 (CSR block)', ['VT=uint8_t', 'SX=uint32_t'], R1=1, C0=20, C1=20, N0=5, N1=5, conc=1, clo=18, cover=('end', 'csr'), t=120))
    for n in ('bcsr', 'bcsr-par', 'dense-par'):
        J.append(one(n, 'tall', 'R=18, C=2, nnz 2 at every placement', R0=18, R1=18, C0=2, C1=2, N0=2, N1=2, conc=1, t=120))
    for n, f in ONE:
        J.append(one(n, 'large', PB % (700, '90x75') + ', row-major order', **pat(700, srt=1, threads=3, cover=('end',))))
        J.append(one(n, 'sparse', PB % (100, '300x60') + ', row-major order', **pat(100, 300, 60, srt=1, threads=2, cover=('end',))))
        J.append(one(n, 'dense', PB % (900, '30x33') + ', row-major order', **pat(900, 30, 33, srt=1, threads=4, cover=('end',))))
        if n in ('bcoo', 'bcoo2', 'bcsr', 'coo-arr', 'dense-ser', 'dense-par', 'dense-coo2'):
            J.append(one(n, 'mixed', PB % (700, '90x75') + ', any order, one more in any of 20 rows', **pat(701, free=1, flo=70, threads=3)))
        J.append(one(n, 'pow2', PB % (1024, '128x64') + ', row-major order, 9 threads', **pat(1024, 128, 64, srt=1, threads=9, cover=('end',))))
        J.append(one(n, 'xl', PB % (66000, '300x400') + ', row-major order', **xl(srt=1, threads=2, cover=('end',))))
        J.append(one(n, 'xlrow', ROWB, **xlrow(threads=2, cover=('end',))))
    if tier == 'thorough':
        for n, f in ONE:
            J.append(one(n, 'huge', PB % (2500, '200x210') + ', row-major order', **dict(pat(2500, 200, 210, srt=1, threads=4, cover=('end',)), t=900)))
            J.append(one(n, 'mid', 'R,C=4, nnz 4, 3 threads', **sq(4, 4), N0=4, N1=4, threads=3, t=900))
            J.append(one(n, 'd', 'double, 64-bit indices', ['VT=double', 'IX=uint64_t', 'SX=uint32_t'], **sq(3), N1=3, t=600))
        for n in ('bcsr', 'bcsr-par', 'dense-par', 'dense-ser'):
            J.append(one(n, 'tall40', 'R=40, C=2, nnz 2 at every placement', R0=40, R1=40, C0=2, C1=2, N0=2, N1=2, conc=1, t=900))
    return J


prop(id='C03', jobs=c03, bounds='R,C<=3 (thorough 4), nnz<=3 (4); every choice of the block factory reached; up to 66000 elements at fixed positions with arbitrary values; 8, 9 and 40 threads with fixed positions', outside='larger blocks, rounding', assumptions=['CSR blocks get row-sorted elements, as their constructors document'])


# ------------------------------------------------------------------ C04 structure of blocked matrices
def c04(tier):
    J = []
    for n, f in BLK:
        J.append(blk(n, 'st', 'R=C=5, blocks of 2x2, nnz 3 at every placement', R0=5, R1=5, C0=5, C1=5, S0=2, S1=2, N0=3, N1=3, conc=1, struct=1, t=120))
        J.append(blk(n, 'stsizes', 'R,C 1..4, block size 1..4, nnz 1', **sq(4), S0=1, S1=4, N0=0, N1=1, struct=1, t=120))
        J.append(blk(n, 'strect', 'R=4, C=5, blocks S x Q 1..3, nnz 1', R0=4, R1=4, C0=5, C1=5, S0=1, S1=3, Q0=1, Q1=3, square=0, N0=1, N1=1, struct=1, t=120))
        J.append(blk(n, 'stoff', 'R,C=3, up to 2 x 3 blocks at arbitrary offsets, nnz 2', **sq(3, 3), mode=1, BR1=2, BC1=3, N0=2, N1=2, conc=1, struct=1, t=120))
        J.append(blk(n, 'stwide', 'R=1, C=8, blocks of 1x1, nnz 4, 2 threads', R1=1, C0=8, C1=8, S0=1, S1=1, N0=4, N1=4, conc=1, clo=7, struct=1, t=120))
    for n, f in BLK:
        J.append(blk(n, 'stlarge', PB % (400, '90x75') + '; blocks of 16x16', **pat(400, S0=16, S1=16, struct=1)))
        J.append(blk(n, 'stband', PB % (300, '60x100') + ', near the diagonal, one in any row; blocks of 8x20', **pat(300, 60, 100, band=9, S0=8, S1=8, Q0=20, Q1=20, square=0, free=1, struct=1)))
        J.append(blk(n, 'stwide2', PB % (200, '12x200') + '; blocks of 5x5 (many chunks), 3 threads', **pat(200, 12, 200, S0=5, S1=5, threads=3, struct=1)))
        if n in ('gsb', 'gsb2'):
            J.append(blk(n, 'stbig', 'R,C just below 2^30, 2x2 blocks of 2^29, nnz 0..2 anywhere', ['SX=uint32_t'], nox=1, R0=(1 << 30) - 3, R1=(1 << 30) - 3, C0=(1 << 30) - 5, C1=(1 << 30) - 5, S0=1 << 29, S1=1 << 29, N0=0, N1=2, struct=1))
            J.append(blk(n, 'stbig31', 'R,C just below 2^31, 2x2 blocks of 2^30, nnz 0..2 anywhere', ['SX=uint32_t'], nox=1, R0=(1 << 31) - 3, R1=(1 << 31) - 3, C0=(1 << 31) - 5, C1=(1 << 31) - 5, S0=1 << 30, S1=1 << 30, N0=0, N1=2, struct=1))
            J.append(blk(n, 'stbig64', 'R,C just below 2^33 (64-bit indices), 3x3 blocks of 2^31, nnz 0..1 anywhere', ['SX=uint32_t', 'IX=uint64_t', 'VT=double'], nox=1, R0=(1 << 33) - 3, R1=(1 << 33) - 3, C0=(1 << 33) - 5, C1=(1 << 33) - 5, S0=1 << 31, S1=1 << 31, N0=0, N1=1, struct=1, t=120))
            J.append(blk(n, 'stbig16', 'R=C=200000, 6x6 blocks of 32768, nnz 0..1 anywhere', nox=1, R0=200000, R1=200000, C0=200000, C1=200000, S0=1 << 15, S1=1 << 15, N0=0, N1=1, struct=1, t=120))
        elif n != 'bcsr6':
            J.append(blk(n, 'stbig', 'R=300, C just below 2^32, 2x1 blocks of 128x2^31, nnz 0..%d anywhere' % (1 + (n == 'csbr2')), nox=1, R0=300, R1=300, C0=(1 << 32) - 5, C1=(1 << 32) - 5, S0=128, S1=128, Q0=1 << 31, Q1=1 << 31, square=0, N0=0, N1=1 + (n == 'csbr2'), struct=1))
        if n not in ('csbr-tr', 'csbr2'):
            J.append(blk(n, 'stxl', PB % (66000, '300x400') + '; blocks of 64x64', **xl(S0=64, S1=64, struct=1)))
            J.append(blk(n, 'strow', ROWB + '; blocks of 64 rows', **xlrow(S0=64, S1=64, struct=1)))
    if tier == 'thorough':
        for n, f in BLK:
            J.append(blk(n, 'sts', 'R=C=5, blocks of 2x2, nnz 3', R0=5, R1=5, C0=5, C1=5, S0=2, S1=2, N0=3, N1=3, struct=1, t=900))
            J.append(blk(n, 'stoff2', 'R,C 2..4, up to 3 x 3 blocks at arbitrary offsets, nnz 2', **sq(4, 2), mode=1, N0=1, N1=2, conc=1, struct=1, t=900))
            J.append(blk(n, 'st4', 'R=C=4, blocks of 2x2, nnz 4', R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=4, N1=4, conc=1, struct=1, t=900))
    return J


prop(id='C04', jobs=c04, bounds='R,C<=5, nnz<=3 (thorough 4), block sizes 1..4, up to 2x3 (3x3) blocks at every offset; up to 66000 elements at fixed positions with arbitrary values', outside='larger matrices', assumptions=['input indices are inside the matrix'])


# ------------------------------------------------------------------ C05 memory
def c05(tier):
    J = []
    for n, f, s in FLAT:
        J.append(flat(n, 'mem', 'R,C 1..3, nnz 0..2', **sq(3), N1=2, leak=1))
    for n, f in BLK:
        J.append(blk(n, 'mem', 'R=C 4..5, blocks of 2x2, nnz 0..2', R0=4, R1=5, C0=4, C1=5, S0=2, S1=2, N1=2, conc=1, leak=1))
        J.append(blk(n, 'memoff', 'R,C=3, up to 2 x 2 arbitrary blocks, nnz 0..1', **sq(3, 3), mode=1, BR1=2, BC1=2, N0=0, N1=1, conc=1, leak=1))
        J.append(blk(n, 'memsize', 'R,C 1..3, block size 1..4, nnz 0..1', **sq(3), S0=1, S1=4, N0=0, N1=1, leak=1, t=120))
    for n, f in ONE:
        J.append(one(n, 'mem', 'R,C 1..2, nnz 0..2', **sq(2), N1=2))
    J.append(one('factory', 'memdense', 'R 1..2, C 1..5, nnz 3', R0=1, R1=2, C1=5, N0=3, N1=3, conc=1, t=120))
    J.append(one('mblock', 'memdense', 'dense block', ['VT=uint8_t', 'SX=uint32_t'], R1=1, C0=5, C1=5, N0=5, N1=5, conc=1, t=120))
    for n, f, s in FLAT:
        J.append(flat(n, 'memlarge', PB % (700, '90x75'), **pat(700, W0=7, W1=7, leak=1)))
    for n, f in BLK:
        J.append(blk(n, 'memlarge', PB % (700, '90x75') + '; blocks of 16x16', **pat(700, S0=16, S1=16, leak=1)))
        J.append(blk(n, 'membig', PB % (40, '40x40') + '; blocks of 1..64 in any mix of dimensions', **pat(40, 40, 40, S0=20, S1=64, leak=1)))
    for n, f in ONE:
        J.append(one(n, 'memlarge', PB % (700, '90x75'), **pat(700, srt=1, cover=('end',))))
    for k in (1, 2, 4, 7):
        J.append(Job('sort%d' % k, 'sorts.cpp', ['KIND=%d' % k], dict(N1=3), bounds='N<=3'))
    if tier == 'thorough':
        for n, f in BLK:
            J.append(blk(n, 'mem4', 'R=C=4, blocks of 2x2, nnz 3', R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=3, N1=3, conc=1, leak=1, t=900))
            J.append(blk(n, 'memoff3', 'R,C 2..4, up to 3 x 3 arbitrary blocks, nnz 0..2', **sq(4, 2), mode=1, N0=0, N1=2, conc=1, leak=1, t=900))
        for n, f, s in FLAT:
            J.append(flat(n, 'mem4', 'R,C 1..4, nnz 0..3', **sq(4), N1=3, leak=1, t=900))
    return J


prop(id='C05', jobs=c05, bounds='R,C<=5, nnz<=2 (thorough 3), every block layout with up to 2x2 (3x3) blocks', outside='larger matrices; allocation failure', assumptions=['allocations succeed'])


# ------------------------------------------------------------------ C06 races and thread counts
def c06(tier):
    J = []
    for th in (1, 4):
        for n in ('csr', 'csr2', 'crcsr', 'cswr', 'dense', 'coo2'):
            J.append(flat(n, 'th%d' % th, 'R=4, C 2, nnz 2, %d threads' % th, R0=4, R1=4, C0=2, C1=2, N0=2, N1=2, W0=1, W1=2, threads=th, conc=1))
        for n, f in BLK:
            J.append(blk(n, 'th%d' % th, 'R=C=4, blocks of 1x1 and 2x2, nnz 3, %d threads' % th, R0=4, R1=4, C0=4, C1=4, S0=1, S1=2, N0=2, N1=2, conc=1, threads=th, t=120))
            if n not in NOCHUNK:
                for fo in (1, 2):
                    J.append(blk(n, 'th%df%d' % (th, fo), 'R=3, C=6, blocks of 1x1, nnz 3, %d threads, %s algorithm' % (th, ('balanced', 'chunked')[fo - 1]), R0=3, R1=3, C0=6, C1=6, S0=1, S1=1, N0=3, N1=3, conc=1, clo=4, threads=th, force=fo, t=120))
    for n in ('bcsr', 'bcsr-par', 'dense-par', 'factory'):
        J.append(one(n, 'th4', 'R=5, C 2, nnz 2, 4 threads', R0=5, R1=5, C0=2, C1=2, N0=2, N1=2, threads=4, conc=1))
    for n in ('csr2', 'cswr', 'dense', 'crcsr'):
        J.append(flat(n, 'chunks', 'R=34 (three chunks of 16 rows), C=1, nnz 2, 3 threads', R0=34, R1=34, C0=1, C1=1, N0=2, N1=2, W0=2, W1=2, threads=3, conc=1, t=120))
    for n in ('csr', 'csr2', 'crcsr', 'cswr', 'dense', 'coo2'):
        J.append(flat(n, 'large', PB % (700, '90x75') + ', 4 threads', **pat(700, W0=7, W1=7, threads=4)))
    for n, f in BLK:
        J.append(blk(n, 'large', PB % (700, '90x75') + '; blocks of 8x8, 4 threads', **pat(700, S0=8, S1=8, threads=4)))
        if n not in NOCHUNK:
            for fo in (1, 2):
                J.append(blk(n, 'wide%d' % fo, PB % (400, '20x200') + '; blocks of 5x5, 4 threads, %s algorithm' % ('balanced', 'chunked')[fo - 1], **pat(400, 20, 200, S0=5, S1=5, threads=4, force=fo)))
    for n in ('bcsr', 'bcsr-par', 'dense-par', 'factory'):
        J.append(one(n, 'large', PB % (700, '90x75') + ', 4 threads', **pat(700, srt=1, threads=4, cover=('end',))))
    for k in (1, 4):
        J.append(Job('kern%d' % k, 'sorts.cpp', ['KIND=%d' % k], dict(N0=3, N1=3, threads=4), bounds='N=3, 4 threads'))
    J.append(Job('perm-par', 'kernels.cpp', ['KIND=6'], dict(N0=3, N1=3, M0=3, M1=3, threads=3, conc=1), bounds='permutation of 3, 3 indices, 3 threads'))
    J.append(Job('exp-par', 'kernels.cpp', ['KIND=7'], dict(B0=2, B1=2, M0=2, M1=2, threads=3, lim=3), bounds='2 blocks, 2 indices, 3 threads'))
    if tier == 'thorough':
        for th in (2, 3, 5, 8):
            for n, f in BLK:
                J.append(blk(n, 'th%d' % th, 'R=C=5, blocks of 1x1 and 2x2, nnz 3, %d threads' % th, R0=5, R1=5, C0=5, C1=5, S0=1, S1=2, N0=3, N1=3, conc=1, threads=th, t=600))
            for n in ('csr', 'csr2', 'crcsr', 'cswr', 'dense', 'coo2'):
                J.append(flat(n, 'th%d' % th, 'R=C 4, nnz 3, %d threads' % th, **sq(4, 4), N0=3, N1=3, W0=1, W1=2, threads=th, conc=1, t=600))
    return J


prop(id='C06', jobs=c06, bounds='1, 3 and 4 threads (thorough also 2, 5, 8); every schedule: unordered accesses are decided by the happens-before order of the OpenMP directives; R<=34, nnz<=3', outside='more threads, weak-memory effects of race-free programs', assumptions=['OpenMP run-time follows the standard; implicit barriers and taskwait order memory'])


# ------------------------------------------------------------------ C07 repeated use, serial = parallel, x untouched
def c07(tier):
    J = []
    for n, f, s in FLAT:
        J.append(flat(n, 'twice', 'R,C 1..3, nnz 0..2, two products', **sq(3), N1=2, times=2, W1=2))
        if f in (2, 3, 5, 7):
            J.append(flat(n, 'serial', 'R,C 1..3, nnz 0..3, serial product', **sq(3), N1=3, serial=1))
    for n, f in BLK:
        J.append(blk(n, 'twice', 'R=C=4, blocks of 2x2, nnz 2, two products', R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=2, N1=2, conc=1, times=2, t=120))
        if n not in NOCHUNK:
            for fo in (1, 2):
                J.append(blk(n, 'twice%d' % fo, 'R=2, C=4, blocks of 1x1, nnz 3, two products, %s algorithm' % ('balanced', 'chunked')[fo - 1], R0=2, R1=2, C0=4, C1=4, S0=1, S1=1, N0=3, N1=3, conc=1, times=2, force=fo, t=120))
    for n, f in ONE:
        J.append(one(n, 'twice', 'R,C 1..3, nnz 0..2, two products', **sq(3), N1=2, times=2))
        if f in (3, 10):
            J.append(one(n, 'serial', 'R,C 1..3, nnz 0..3, serial product', **sq(3), N1=3, serial=1))
    J.append(one('mblock', 'serial-dense', 'dense block, serial product', ['VT=uint8_t', 'SX=uint32_t'], R1=1, C0=5, C1=5, N0=5, N1=5, conc=1, serial=1, cover=('end', 'dense')))
    for n, f, s in FLAT:
        J.append(flat(n, 'large2', PB % (600, '90x75') + ', two products', **pat(600, W0=7, W1=7, times=2)))
        if f in (2, 3, 5, 7):
            J.append(flat(n, 'largeser', PB % (600, '90x75') + ', serial product', **pat(600, serial=1)))
    for n, f in BLK:
        J.append(blk(n, 'large2', PB % (600, '90x75') + ', two products; blocks of 16x16', **pat(600, S0=16, S1=16, times=2)))
    for n, f in ONE:
        J.append(one(n, 'large2', PB % (600, '90x75') + ', two products', **pat(600, srt=1, times=2, cover=('end',))))
        if f in (3, 10):
            J.append(one(n, 'largeser', PB % (600, '90x75') + ', serial product', **pat(600, srt=1, serial=1, cover=('end',))))
    if tier == 'thorough':
        for n, f in BLK:
            J.append(blk(n, 'thrice', 'R=C=4, blocks of 2x2, nnz 2, three products', R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=2, N1=2, times=3, t=900))
        for n, f, s in FLAT:
            J.append(flat(n, 'thrice', 'R,C 1..3, nnz 0..3, three products', **sq(3), N1=3, times=3, W1=2, t=900))
    return J


prop(id='C07', jobs=c07, bounds='2 (thorough 3) consecutive products, R,C<=4, nnz<=3', outside='larger matrices, rounding')


# ------------------------------------------------------------------ C08 index widths and value types
def c08(tier):
    J = []
    W = dict(R1=1, C0=65540, C1=65540, N0=2, N1=2, conc=1, clo=65534)
    T = dict(R0=65540, R1=65540, C1=1, N0=1, N1=1, conc=1, rlo=65534, threads=1)
    for n in ('csr2', 'csr', 'coo2', 'crcsr'):
        J.append(flat(n, 'wide', 'C=65540 (beyond 16 bits), 2 elements in columns 0,1 or from 65534', t=150, **W))
    J.append(flat('cswr', 'tall', 'R=300 with 8-bit local rows, rows 0,1 or from 254', ['SX=uint8_t'], R0=300, R1=300, C1=1, N0=2, N1=2, conc=1, rlo=254, W0=20, W1=20, t=150))
    J.append(flat('cswr', 'full', 'width 256 with 8-bit local rows', ['SX=uint8_t'], R0=300, R1=300, C1=1, N0=2, N1=2, conc=1, rlo=254, W0=256, W1=256, t=150))
    for n, f in BLK:
        # 8-bit local indices: blocks of 200, dimension beyond 255
        J.append(blk(n, 'wide8', 'R=4, C=600 with 8-bit local indices, blocks of 200, 2 elements in columns 0,1 or from 598', ['SX=uint8_t'], R0=4, R1=4, C0=600, C1=600, S0=4, S1=4, Q0=200, Q1=200, square=0, N0=2, N1=2, conc=1, clo=598, t=150))
        J.append(blk(n, 'tall8', 'R=600 with 8-bit local indices, blocks of 128 (the last one has 216 rows), 2 elements', ['SX=uint8_t'], R0=600, R1=600, C0=2, C1=2, S0=128, S1=128, Q0=2, Q1=2, square=0, N0=2, N1=2, conc=1, rlo=598, threads=1, t=150))
        for nm, d in (('d', ['VT=double']), ('u64', ['VT=double', 'IX=uint64_t', 'SX=uint32_t']), ('int', ['VT=uint8_t'])):
            J.append(blk(n, nm, 'other types: ' + ' '.join(d), d, R0=4, R1=4, C0=4, C1=4, S0=2, S1=2, N0=2, N1=2, conc=1, xc=int(nm == 'int')))
    REF = dict(refuse=1, conc=1, sorted=1, N0=2, N1=2, t=100)
    J.append(flat('cswr', 'refuse', 'width 256..258 with 8-bit local rows: refused or exact', ['SX=uint8_t'], R0=300, R1=300, C1=1, N0=1, N1=1, rlo=254, W0=256, W1=258, refuse=1, conc=1, t=100, cover=('end', 'refused')))
    for n in ('bcoo', 'bcoo2', 'bcsr', 'bcsr-ser', 'bcsr-par', 'coo-arr', 'factory', 'mblock', 'dense-ser'):
        J.append(one(n, 'refuserow', '257x2 block with 8-bit local indices: refused or exact', ['SX=uint8_t'], R0=257, R1=257, C0=2, C1=2, rlo=255, **REF))
        J.append(one(n, 'refusecol', '2x257 block with 8-bit local indices: refused or exact', ['SX=uint8_t'], R0=2, R1=2, C0=257, C1=257, clo=255, **REF))
    for n in ('csr', 'csr2', 'crcsr', 'cswr', 'dense', 'coo2', 'coo3', 'coo'):
        for nm, d in (('d', ['VT=double']), ('u64', ['VT=double', 'IX=uint64_t', 'SX=uint32_t']), ('u16', ['IX=uint16_t', 'SX=uint8_t']), ('int', ['VT=uint8_t'])):
            J.append(flat(n, nm, 'other types: ' + ' '.join(d), d, **sq(2), N1=2, xc=int(nm == 'int')))
    for n in ('factory', 'mblock', 'bcsr', 'bcoo', 'bcoo2', 'dense-par'):
        J.append(one(n, 'd', 'double values, 64-bit indices', ['VT=double', 'IX=uint64_t', 'SX=uint32_t'], **sq(2), N1=2))
        J.append(one(n, 'w8', '8-bit local indices, block of 256 columns, elements in columns 0,1 or 254,255', ['SX=uint8_t'], R1=1, C0=256, C1=256, N0=2, N1=2, conc=1, clo=254, t=120))
    for nm, d in (('d', ['VT=double']), ('u64', ['VT=double', 'IX=uint64_t', 'SX=uint32_t']), ('u16', ['IX=uint16_t', 'SX=uint8_t'])):
        for n, f, s in FLAT:
            J.append(flat(n, 'large' + nm, PB % (600, '90x75') + ': ' + ' '.join(d), d, **pat(600, W0=7, W1=7)))
        for n, f in BLK if nm != 'u16' else ():  # the blocked formats do not compile with 16-bit indices
            if n not in NOCHUNK:
                J.append(blk(n, 'chunk' + nm, 'R=2, C=8, blocks of 1x1 (rows split into chunks), nnz 3, chunked algorithm: ' + ' '.join(d), d, R0=2, R1=2, C0=8, C1=8, S0=1, S1=1, N0=3, N1=3, conc=1, clo=6, force=2, threads=3, t=120))
                for fo in (1, 2):
                    J.append(blk(n, 'wide%d%s' % (fo, nm), PB % (400, '20x200') + '; blocks of 5x5 (many chunks), %s algorithm: ' % ('balanced', 'chunked')[fo - 1] + ' '.join(d), d, **pat(400, 20, 200, S0=5, S1=5, threads=3, force=fo)))
            J.append(blk(n, 'large' + nm, PB % (600, '90x75') + '; blocks of 16x16: ' + ' '.join(d), d, **pat(600, S0=16, S1=16)))
        for n, f in ONE:
            J.append(one(n, 'large' + nm, PB % (600, '90x75') + ': ' + ' '.join(d), d, **pat(600, srt=1, cover=('end',))))
    if tier == 'thorough':
        for n in ('csr2', 'csr', 'cswr', 'crcsr'):
            J.append(flat(n, 'vtall', 'R=65540, rows 0,1 or from 65534', t=900, W0=32, W1=32, **T))
        for n, f in BLK:
            J.append(blk(n, 'wide16', 'C=131100 with 16-bit local indices, blocks of 65536', R0=2, R1=2, C0=131100, C1=131100, S0=2, S1=2, Q0=65536, Q1=65536, square=0, N0=2, N1=2, conc=1, clo=131096, threads=1, t=900))
    return J


prop(id='C08', jobs=c08, bounds='float/double/integer values, 16/32/64-bit indices, 8/16/32-bit local indices; dimensions just beyond the width of the narrow index', outside='matrices with more than 2^32 elements', assumptions=['every block, the last one included, fits the local index type (pick_block_size guarantees it, C14)'])


# ------------------------------------------------------------------ C09 partition
def c09(tier):
    J = [Job('part3', 'kernels.cpp', ['KIND=5'], dict(N1=3, lim=15, maxw=3), bounds='up to 3 blocks with 1..15 elements each, 1..3 workers, any sub-range'),
         Job('part4', 'kernels.cpp', ['KIND=5'], dict(N0=4, N1=4, lim=15, maxw=2), bounds='4 blocks with 1..15 elements, 1..2 workers'),
         Job('part5', 'kernels.cpp', ['KIND=5'], dict(N0=5, N1=5, lim=7, maxw=2), bounds='5 blocks with 1..7 elements, 1..2 workers', t=100),
         Job('twice', 'kernels.cpp', ['KIND=5'], dict(N0=3, N1=3, lim=15, maxw=2, twice=1), bounds='3 blocks, partitioned twice')]
    J.append(Job('part16', 'kernels.cpp', ['KIND=5'], dict(N0=2, N1=3, lim=15, maxw=16), bounds='2..3 blocks with 1..15 elements, 1..16 workers'))
    J.append(Job('partbig', 'kernels.cpp', ['KIND=5'], dict(N0=2, N1=2, lim=1 << 24, maxw=4), bounds='2 blocks with 1..2^24 elements, 1..4 workers', t=150))
    for n in ('csbr', 'csbr-tr', 'gsb', 'gsb2'):
        J.append(blk(n, 'pst', 'R=2, C=6, blocks of 1x1, nnz 4: partition of a built matrix', R0=2, R1=2, C0=6, C1=6, S0=1, S1=1, N0=4, N1=4, conc=1, clo=5, struct=1, t=120))
        J.append(blk(n, 'pmul', 'the same, multiplied chunk by chunk', R0=2, R1=2, C0=6, C1=6, S0=1, S1=1, N0=3, N1=3, conc=1, clo=4, force=2, t=120))
    J.append(blk('gsb', 'even', 'R 3..5, C=1, blocks of 1x1, nnz 4: balance of the block-rows', R0=3, R1=5, C0=1, C1=1, S0=1, S1=1, N0=4, N1=4, conc=1, struct=1, cover=('end', 'even', 'heavy')))
    J.append(blk('gsb', 'evenlarge', PB % (400, '90x75') + '; blocks of 16x16: balance of the block-rows', **pat(400, S0=16, S1=16, struct=1)))
    if tier == 'thorough':
        J += [Job('part4w', 'kernels.cpp', ['KIND=5'], dict(N0=4, N1=4, lim=1000, maxw=2), bounds='4 blocks with 1..1000 elements, 1..2 workers', t=900),
              Job('part5w', 'kernels.cpp', ['KIND=5'], dict(N0=5, N1=5, lim=63, maxw=4), bounds='5 blocks with 1..63 elements, 1..4 workers', t=1800),
              Job('part6', 'kernels.cpp', ['KIND=5'], dict(N0=6, N1=6, lim=15, maxw=3), bounds='6 blocks with 1..15 elements, 1..3 workers', t=1800)]
    return J


prop(id='C09', jobs=c09, bounds='up to 5 (thorough 6) blocks per block-row, 1..15 (thorough 1000) elements per block, 1..4 workers; 2 blocks of up to 2^24 elements; up to 16 workers with 3 blocks', outside='nnz * PARTITION_FACTOR beyond the index type')

SORTN = {1: 'row-major', 2: 'column-major', 3: 'row-major (elements)', 4: 'Morton', 5: 'Morton (elements)', 6: 'block elements', 7: 'wide rows', 8: 'triplets by block', 9: 'column-major (elements)'}


# ------------------------------------------------------------------ C10 sorting
def c10(tier):
    J = []
    for k, nm in SORTN.items():
        J.append(Job('s%d' % k, 'sorts.cpp', ['KIND=%d' % k], dict(N1=4), bounds=nm + ': 0..4 elements, indices below 4', t=120))
    J.append(Job('dflt', 'sorts.cpp', ['KIND=1'], dict(N1=3, dflt=1), bounds='default argument, 0..3 elements'))
    J.append(Job('inpar', 'sorts.cpp', ['KIND=1'], dict(N1=3, inpar=1), bounds='called inside a parallel region'))
    for k in (1, 2, 3, 6, 7, 8, 9):
        J.append(Job('s%dmax' % k, 'sorts.cpp', ['KIND=%d' % k], dict(N1=3, K=M32, symoff=1, W0=65536, W1=65536), bounds=SORTN[k] + ': 0..3 elements, any 32-bit indices', t=200))
        if k in (1, 2, 3):
            J.append(Job('s%dmax64' % k, 'sorts.cpp', ['KIND=%d' % k, 'IX=uint64_t'], dict(N1=3, K=M64), bounds=SORTN[k] + ': 0..3 elements, any 64-bit indices', t=200))
    for k in (1, 2, 4, 7):
        J.append(Job('s%dbig' % k, 'sorts.cpp', ['KIND=%d' % k], dict(N0=3, N1=3, K=65536, W0=1, W1=3), bounds=SORTN[k] + ': 3 elements, any 16-bit indices', t=120))
    for k, nm in SORTN.items():
        J.append(Job('s%dlarge' % k, 'sorts.cpp', ['KIND=%d' % k], dict(pat=1, N0=700, N1=700, K=3 if k in (6, 7, 8) else 4, at=1, W0=2, W1=2, threads=3), bounds=nm + ': 700 elements with fixed keys but for the first or the last, the shipped cut-offs', t=150))
    for k, nm in SORTN.items():
        if k in (1, 3, 6, 7) or tier == 'thorough':
            J.append(Job('s%dxl' % k, 'sorts.cpp', ['KIND=%d' % k], dict(pat=1, N0=66000, N1=66000, K=3 if k in (6, 7, 8) else 4, at=0, Kr=2, Kc=1, W0=2, W1=2, threads=2), opts=HANG, bounds=nm + ': 66000 elements with fixed keys but for the first, the shipped cut-offs', t=300 if tier == 'quick' else 2400))
    if tier == 'thorough':
        for k, nm in SORTN.items():
            J.append(Job('s%dlarge2' % k, 'sorts.cpp', ['KIND=%d' % k], dict(pat=2, N0=600, N1=600, K=8, at=3, W0=2, W1=2, threads=4), bounds=nm + ': 600 elements with fixed keys but for one of four', t=1500))
            J.append(Job('s%dlong' % k, 'sorts.cpp', ['KIND=%d' % k], dict(N0=5, N1=5, K=3), bounds=nm + ': 5 elements, indices below 3', t=1500))
            J.append(Job('s%du64' % k, 'sorts.cpp', ['KIND=%d' % k, 'IX=uint64_t'], dict(N1=4), bounds=nm + ': 64-bit indices', t=900))
    return J


prop(id='C10', jobs=c10, bounds='0..4 (thorough 5) elements, 9 orders, fully symbolic keys; 700 and 66000 elements of which one is arbitrary; any index the type holds (3 elements)', outside='longer arrays with more than one arbitrary element (the task-parallel path is decided by C11 with smaller cut-offs)', assumptions=['Morton order is defined for 16-bit coordinates'])


# ------------------------------------------------------------------ C11 parallel sort
def c11(tier):
    J = []
    def pj(k, a, b, n, ip=0, th=2, K=2, t=150):
        J.append(Job('p%d-%d-%d-n%d-i%d-t%d' % (k, a, b, n, ip, th), 'sorts.cpp', ['KIND=%d' % k, 'GSB_VERIF_SORT_CUT_OFF=%d' % a, 'GSB_VERIF_MERGE_CUT_OFF=%d' % b], dict(N0=n, N1=n, K=K, inpar=ip, threads=th), t=t, bounds='%s: %d elements, serial below %d, merge splits above %d, %d threads' % (SORTN[k], n, a, b, th)))
    for n in (2, 3, 4):
        pj(1, 1, 2, n, K=4)
    pj(1, 2, 2, 5); pj(1, 2, 2, 5, 1); pj(1, 1, 3, 5, 0, 4); pj(1, 2, 3, 5); pj(2, 2, 2, 5); pj(3, 1, 2, 4, 1, 2, 4); pj(4, 2, 2, 5); pj(7, 2, 2, 4, 0, 2, 4); pj(6, 1, 2, 3, 0, 2, 3)
    pj(1, 1, 2, 4, 0, 1, 4)
    for k in (1, 2, 4):
        J.append(Job('x%d' % k, 'sorts.cpp', ['KIND=%d' % k], dict(pat=1, N0=2500, N1=2500, K=2, at=0, threads=4), bounds=SORTN[k] + ': 2500 elements with fixed keys but for the first, the shipped cut-offs, 4 threads', t=150))
    J.append(Job('x1-in', 'sorts.cpp', ['KIND=1'], dict(pat=1, N0=1200, N1=1200, K=2, at=0, threads=3, inpar=1), bounds='1200 elements, the shipped cut-offs, inside a parallel region', t=150))
    if tier == 'thorough':
        for k in (1, 2, 3, 4, 5, 6, 7, 9):
            pj(k, 2, 2, 5, K=3, t=900)
        pj(1, 1, 2, 6, K=2, t=2400); pj(1, 2, 3, 6, K=2, t=2400); pj(1, 3, 2, 7, K=2, t=2400); pj(1, 1, 3, 6, 1, 3, t=2400)
    return J


prop(id='C11', jobs=c11, bounds='2..5 (thorough 7) elements with serial cut-offs 1..3 and merge cut-offs 2..3 (set through the GSB_VERIF_HOOKS define; the shipped values are 500 and 2000)', outside='with the shipped cut-offs only one element of a fixed array is arbitrary', assumptions=['out-of-memory fall-back of the sort is not taken'])


# ------------------------------------------------------------------ C12 bits
def c12(tier):
    J = [Job('pow2', 'kernels.cpp', ['KIND=1'], {}, bounds='every 64-bit value', cover=('end', 'pow', 'h64', 'h32')),
         Job('morton', 'kernels.cpp', ['KIND=2'], {}, bounds='every pair of 16-bit coordinates', t=120),
         Job('order', 'sorts.cpp', ['KIND=4'], dict(N0=2, N1=3, K=65536), bounds='3 elements, any 16-bit coordinates', t=120),
         Job('order-el', 'sorts.cpp', ['KIND=5'], dict(N0=2, N1=3, K=65536), bounds='3 elements, any 16-bit coordinates', t=120),
         Job('order-u64', 'sorts.cpp', ['KIND=4', 'IX=uint64_t'], dict(N0=2, N1=3, K=65536), bounds='3 elements, 64-bit index type', t=120)]
    if tier == 'thorough':
        J.append(Job('order4', 'sorts.cpp', ['KIND=4'], dict(N0=4, N1=4, K=65536), bounds='4 elements, any 16-bit coordinates', t=2000))
    return J


prop(id='C12', jobs=c12, bounds='all 64-bit (power of two, highest bit) and all 16-bit (Morton) inputs', outside='Morton codes of coordinates beyond 16 bits (the code is 32 bits wide)')


# ------------------------------------------------------------------ C13 block lookup
def c13(tier):
    J = [Job('lookup', 'kernels.cpp', ['KIND=3'], dict(B1=3, D1=2), bounds='1..3 x 1..2 blocks of any size up to 1000 (empty row blocks included), any index', t=150),
         Job('lookup4', 'kernels.cpp', ['KIND=3'], dict(B0=4, B1=4, D1=1), bounds='4 blocks', t=150),
         Job('count2', 'kernels.cpp', ['KIND=4'], dict(N1=2, C1=5, S1=3, Q1=3), bounds='0..2 elements, block sizes 1..3', t=150),
         Job('count3', 'kernels.cpp', ['KIND=4'], dict(N0=3, N1=3, C0=4, C1=4, S1=2, Q1=2, K=4), bounds='3 elements, block sizes 1..2', t=150),
         Job('u64', 'kernels.cpp', ['KIND=3', 'IX=uint64_t'], dict(B1=3, D1=1), bounds='64-bit indices', t=150),
         Job('lookupmax', 'kernels.cpp', ['KIND=3'], dict(B1=3, D1=2, lim=1 << 28), bounds='1..3 x 1..2 blocks of any size up to 2^28', t=150),
         Job('lookupmax64', 'kernels.cpp', ['KIND=3', 'IX=uint64_t'], dict(B1=3, D1=2, lim=1 << 40), bounds='64-bit indices, 1..3 x 1..2 blocks of any size up to 2^40', t=150),
         Job('countmax', 'kernels.cpp', ['KIND=4'], dict(N0=1, N1=2, K=M32, C0=M31, C1=M31, S0=1 << 20, S1=1 << 20, Q0=65536, Q1=65536), bounds='1..2 elements, blocks of 2^20x2^16, any indices', t=150),
         Job('lookup40', 'kernels.cpp', ['KIND=3'], dict(pat=1, B0=40, B1=40, D0=1, D1=3, lim=20), bounds='40 blocks of fixed sizes 0..20, any index', t=150)]
    if tier == 'thorough':
        J.append(Job('lookup200', 'kernels.cpp', ['KIND=3'], dict(pat=1, B0=200, B1=200, D0=1, D1=3, lim=20), bounds='200 blocks of fixed sizes 0..20, any index', t=1500))
        J.append(Job('lookup7', 'kernels.cpp', ['KIND=3'], dict(B0=6, B1=8, D1=2), bounds='6..8 x 1..2 blocks', t=1500))
        J.append(Job('count4', 'kernels.cpp', ['KIND=4'], dict(N0=4, N1=4, C0=4, C1=4, S1=2, Q1=2, K=4), bounds='4 elements', t=1500))
    return J


prop(id='C13', jobs=c13, bounds='up to 4 (thorough 8) blocks of any size up to 2^28 (64-bit: 2^40), any index; up to 3 (4) elements', outside='more blocks')


# ------------------------------------------------------------------ C14 block size
def c14(tier):
    J = [Job('pick1', 'kernels.cpp', ['KIND=9'], dict(maxw=2, bits=31), bounds='every m,n up to 2^31, 1..2 workers', t=300),
         Job('pick4', 'kernels.cpp', ['KIND=9'], dict(maxw=4, bits=12), bounds='every m,n up to 2^12, 1..4 workers', t=200),
         Job('pick64', 'kernels.cpp', ['KIND=9', 'IX=uint64_t'], dict(maxw=2, bits=12), bounds='64-bit indices, every m,n up to 2^12', t=200)]
    if tier == 'thorough':
        J += [Job('pick16', 'kernels.cpp', ['KIND=9'], dict(maxw=16, bits=31), bounds='every m,n up to 2^31, 1..16 workers', t=2500), Job('pick64w', 'kernels.cpp', ['KIND=9', 'IX=uint64_t'], dict(maxw=4, bits=40), bounds='64-bit indices, every m,n up to 2^40', t=2500)]
    return J


prop(id='C14', jobs=c14, bounds='every pair of dimensions up to 2^31 (2^40), 1..2 (thorough 16) workers, 4- and 8-byte values; the logarithm of the matrix size is an arbitrary number between 0 and 16', outside='rounding of the logarithm itself')


# ------------------------------------------------------------------ C15 permutation
def c15(tier):
    J = [Job('perm', 'kernels.cpp', ['KIND=6'], dict(N1=3, M1=3), bounds='every permutation of up to 3, 0..3 indices', t=150),
         Job('perm4', 'kernels.cpp', ['KIND=6'], dict(N0=4, N1=4, M0=2, M1=2, threads=3), bounds='every permutation of 4, 3 threads', t=150),
         Job('perm70', 'kernels.cpp', ['KIND=6'], dict(N0=2, N1=2, M0=66, M1=66, conc=1), bounds='66 indices (two chunks)', t=150),
         Job('u64', 'kernels.cpp', ['KIND=6', 'IX=uint64_t'], dict(N1=3, M1=2), bounds='64-bit indices', t=150),
         Job('large', 'kernels.cpp', ['KIND=6'], dict(pat=1, N0=300, N1=300, M0=8, M1=8), bounds='a fixed permutation of 300, 8 indices, two of them arbitrary', t=150),
         Job('many', 'kernels.cpp', ['KIND=6'], dict(pat=2, N0=100, N1=100, M0=200, M1=200, threads=4), bounds='a fixed permutation of 100, 200 indices, four of them arbitrary, 4 threads', t=150),
         Job('thr', 'kernels.cpp', ['KIND=6'], dict(pat=2, N0=100, N1=100, M0=256, M1=256, threads=12), bounds='a fixed permutation of 100, 256 indices, four of them arbitrary, 12 threads', t=150),
         Job('xl', 'kernels.cpp', ['KIND=6'], dict(pat=1, N0=66000, N1=66000, M0=3, M1=3, last=2), bounds='a fixed permutation of 66000, 3 indices, one of them one of the last two', t=150, opts=HANG),
         Job('xlmany', 'kernels.cpp', ['KIND=6'], dict(pat=1, N0=300, N1=300, M0=66000, M1=66000, step=70000, last=2), bounds='a fixed permutation of 300, 66000 indices, one of them one of the last two', t=150, opts=HANG)]
    if tier == 'thorough':
        J.append(Job('perm5', 'kernels.cpp', ['KIND=6'], dict(N0=5, N1=5, M0=3, M1=3), bounds='every permutation of 5', t=1500))
    return J


prop(id='C15', jobs=c15, bounds='every permutation of up to 4 (thorough 5) elements, up to 66 indices; a fixed permutation of 66000, 66000 indices', outside='longer permutations', assumptions=['the array is a permutation of 0..n-1'])


# ------------------------------------------------------------------ C16 expansion
def c16(tier):
    J = [Job('exp', 'kernels.cpp', ['KIND=7'], dict(B1=3, M1=2), bounds='1..3 blocks of size 1..5, 0..2 indices', t=150),
         Job('exp-wide', 'kernels.cpp', ['KIND=7'], dict(B0=2, B1=2, M0=1, M1=1, lim=1000), bounds='2 blocks of size 1..1000', t=150),
         Job('exp66', 'kernels.cpp', ['KIND=7'], dict(B0=1, B1=1, M0=66, M1=66, lim=3), bounds='66 indices (two chunks)', t=150),
         Job('u64', 'kernels.cpp', ['KIND=7', 'IX=uint64_t'], dict(B1=2, M1=2), bounds='64-bit indices', t=150),
         Job('blocks40', 'kernels.cpp', ['KIND=7'], dict(pat=1, B0=40, B1=40, M0=5, M1=5, lim=20), bounds='40 blocks of fixed sizes 1..20, 5 indices with any place in their block', t=150),
         Job('thr', 'kernels.cpp', ['KIND=7'], dict(pat=1, B0=7, B1=7, M0=128, M1=128, lim=20, threads=12), bounds='7 blocks of fixed sizes 1..20, 128 indices with any place in their block, 12 threads', t=150),
         Job('exp-max', 'kernels.cpp', ['KIND=7'], dict(B0=2, B1=3, M0=1, M1=1, lim=1 << 24), bounds='2..3 blocks of size 1..2^24', t=150),
         Job('many', 'kernels.cpp', ['KIND=7'], dict(pat=1, B0=7, B1=7, M0=90, M1=90, lim=20, threads=4), bounds='7 blocks of fixed sizes 1..20, 90 indices with any place in their block, 4 threads', t=150)]
    if tier == 'thorough':
        J.append(Job('exp4', 'kernels.cpp', ['KIND=7'], dict(B0=4, B1=5, M0=2, M1=2), bounds='4..5 blocks', t=1500))
    return J


prop(id='C16', jobs=c16, bounds='up to 3 (thorough 5) blocks of size 1..5 (2^24), up to 128 indices', outside='more blocks')


# ------------------------------------------------------------------ C17 binary files
RT = ('GS_RT=1',)
U64 = ('VT=double', 'IX=uint64_t', 'SX=uint32_t')


def io(name, src, kind, bounds, defs=(), **k):
    p = {a: b for a, b in k.items() if a not in ('t', 'opts', 'cover')}
    q = {a: b for a, b in k.items() if a in ('t', 'opts', 'cover')}
    return Job(name, src, RT + ('KIND=%d' % kind,) + tuple(defs), p, bounds=bounds, **q)


def c17(tier):
    J = []
    m = dict(R1=3, C1=3, N1=3)
    b = 'R,C 1..3, nnz 0..3'
    for s in ('Coo2', 'Coo3'):
        for d in ('Coo2', 'Coo3'):
            J.append(io('bin-%s-%s' % (s, d), 'io_bin.cpp', 1, b, ['SRC=' + s, 'DST=' + d], **m))
        J.append(io('bin3-' + s, 'io_bin.cpp', 1, 'read_bin_COO called directly', ['SRC=' + s], disp=0, **m))
        J.append(io('three-' + s, 'io_bin.cpp', 2, b, ['SRC=' + s], **m))
        for n, d in (('d', U64), ('u16', ('IX=uint16_t', 'SX=uint8_t')), ('int', ('VT=uint8_t',)), ('du32', ('VT=double',))):
            J.append(io('bin-%s-%s' % (s, n), 'io_bin.cpp', 1, b + ' ' + ' '.join(d), ['SRC=' + s] + list(d), R1=2, C1=2, N1=3))
            J.append(io('three-%s-%s' % (s, n), 'io_bin.cpp', 2, b + ' ' + ' '.join(d), ['SRC=' + s] + list(d), R1=2, C1=2, N1=3))
    J.append(io('three-coo1', 'io_bin.cpp', 2, b, ['COO1=1'], **m))
    J.append(io('three-coo1-d', 'io_bin.cpp', 2, b, ('COO1=1',) + U64, **m))
    J.append(io('array', 'io_bin.cpp', 3, '0..5 elements', N1=5))
    J.append(io('array-d', 'io_bin.cpp', 3, '0..5 64-bit elements', U64, N1=5))
    for c in ('Csr', 'Csr2'):
        J.append(io('csr-' + c, 'io_bin.cpp', 7, 'sorted, R,C 1..3, nnz 0..3', ['CSRT=' + c], **m))
        J.append(io('csr-d-' + c, 'io_bin.cpp', 7, 'sorted, R,C 1..2, nnz 0..3', ('CSRT=' + c,) + U64, R1=2, C1=2, N1=3))
    J.append(io('names', 'io_bin.cpp', 8, 'ten file names'))
    for s in ('Coo2', 'Coo3'):
        for k, nm in ((1, 'bin'), (2, 'three')):
            J.append(io('%s-any-%s' % (nm, s), 'io_bin.cpp', k, 'any dimensions, nnz 0..3 anywhere', ['SRC=' + s], **anydim(M32)))
            J.append(io('%s-any64-%s' % (nm, s), 'io_bin.cpp', k, 'any dimensions, nnz 0..3 anywhere, 64-bit', ('SRC=' + s,) + U64, **anydim(M64)))
    J.append(io('wide', 'io_bin.cpp', 1, 'R=C=70000, nnz 3 anywhere', R0=70000, R1=70000, C0=1, C1=1, N0=3, N1=3))
    for s in ('Coo2', 'Coo3'):
        J.append(io('large-' + s, 'io_bin.cpp', 1, 'R=70000, 3000 elements in any row', ['SRC=' + s], R0=70000, R1=70000, C0=1, C1=1, N0=3000, N1=3000))
        J.append(io('larged-' + s, 'io_bin.cpp', 1, 'R=70000, 1200 elements in any row, 64-bit', ('SRC=' + s,) + U64, R0=70000, R1=70000, C0=1, C1=1, N0=1200, N1=1200))
        J.append(io('large3-' + s, 'io_bin.cpp', 2, '3000 elements at fixed positions, arbitrary values', ['SRC=' + s], **pat(3000)))
    J.append(io('arraylarge', 'io_bin.cpp', 3, '20000 elements', N0=20000, N1=20000))
    for c in ('Csr', 'Csr2'):
        J.append(io('csrlarge-' + c, 'io_bin.cpp', 7, '1500 sorted elements at fixed positions, arbitrary values', ['CSRT=' + c], **pat(1500, srt=1)))
    J.append(io('arrayxl', 'io_bin.cpp', 3, '66000 elements', N0=66000, N1=66000, t=150, opts=HANG))
    J.append(io('three-xl', 'io_bin.cpp', 2, PB % (66000, '300x400'), ['SRC=Coo2'], **xl()))
    J.append(io('csr-xl', 'io_bin.cpp', 7, PB % (66000, '300x400') + ', sorted', ['CSRT=Csr'], **xl(srt=1)))
    J.append(io('csr-xlrow', 'io_bin.cpp', 7, ROWB, ['CSRT=Csr'], **dict(xlrow(srt=1), R0=2, R1=2)))
    if tier == 'thorough':
        for s in ('Coo2', 'Coo3'):
            for k in (1, 2):
                J.append(io('long%d-%s' % (k, s), 'io_bin.cpp', k, 'R,C 1..4, nnz 0..6', ['SRC=' + s], R1=4, C1=4, N1=6, t=900))
        for c in ('Csr', 'Csr2'):
            J.append(io('csrlong-' + c, 'io_bin.cpp', 7, 'sorted, R,C 1..4, nnz 0..4', ['CSRT=' + c], R1=4, C1=4, N1=4, t=900))
    return J


prop(id='C17', jobs=c17, bounds='R,C<=3 (thorough 4), nnz<=3 (6), every index and value; arrays of up to 5; up to 66000 elements at fixed positions with arbitrary values; any dimensions and indices of the index type with up to 3 elements', outside='files beyond 4 MB, byte order other than little-endian', assumptions=['the file system does what is asked (short writes are outside)'])


# ------------------------------------------------------------------ C18 damaged binary files
def c18(tier):
    J = []
    for s in ('Coo2', 'Coo3'):
        J.append(io('dmg-' + s, 'io_bin.cpp', 4, 'file of 0..40 arbitrary bytes', ['SRC=' + s], cover=('end', 'accepted', 'rejected')))
        J.append(io('dmgd-' + s, 'io_bin.cpp', 4, 'file of 0..72 arbitrary bytes, 64-bit', ('SRC=' + s,) + U64, L=72, cover=('end', 'accepted', 'rejected')))
        J.append(io('dmg3-' + s, 'io_bin.cpp', 5, 'three files of 0..2 items, or missing', ['SRC=' + s], cover=('end', 'accepted', 'rejected')))
    J.append(io('dmg16', 'io_bin.cpp', 4, 'file of 0..24 arbitrary bytes, 16-bit indices', ['SRC=Coo2', 'IX=uint16_t', 'SX=uint8_t'], L=24, cover=('end', 'accepted', 'rejected')))
    J.append(io('dmg3-coo1', 'io_bin.cpp', 5, 'three files of 0..2 items, or missing', ['COO1=1'], cover=('end', 'accepted', 'rejected')))
    J.append(io('array', 'io_bin.cpp', 6, 'file of 0..9 bytes, or missing', cover=('end', 'missing', 'read')))
    J.append(io('array-d', 'io_bin.cpp', 6, 'file of 0..17 bytes, or missing', U64, L=17, cover=('end', 'missing', 'read')))
    J.append(io('names', 'io_bin.cpp', 8, 'ten file names, missing and unwritable files'))
    for c in ('Csr', 'Csr2'):
        J.append(io('csr-' + c, 'io_bin.cpp', 9, 'file of 0..36 arbitrary bytes, up to 3 rows', ['CSRT=' + c], cover=('end', 'accepted', 'rejected')))
        J.append(io('csrd-' + c, 'io_bin.cpp', 9, 'file of 0..72 arbitrary bytes, up to 3 rows, 64-bit', ('CSRT=' + c,) + U64, L=72, cover=('end', 'accepted', 'rejected')))
    if tier == 'thorough':
        for s in ('Coo2', 'Coo3'):
            J.append(io('dmglong-' + s, 'io_bin.cpp', 4, 'file of 0..64 arbitrary bytes', ['SRC=' + s], L=64, t=900, cover=('end', 'accepted', 'rejected')))
            J.append(io('dmg3long-' + s, 'io_bin.cpp', 5, 'three files of 0..3 items, or missing', ['SRC=' + s], n=3, t=900, cover=('end', 'accepted', 'rejected')))
        for c in ('Csr', 'Csr2'):
            J.append(io('csrlong-' + c, 'io_bin.cpp', 9, 'file of 0..60 arbitrary bytes, up to 4 rows', ['CSRT=' + c], L=60, rows=4, t=900, cover=('end', 'accepted', 'rejected')))
    return J


prop(id='C18', jobs=c18, bounds='files of up to 40 (64-bit: 72, thorough 64) arbitrary bytes; three-file matrices of up to 2 (3) items per file', outside='longer files, read errors other than the end of the file')


# ------------------------------------------------------------------ C19 MatrixMarket input
def c19(tier):
    J = []
    for sy in range(3):
        for fd in range(3):
            if sy == 2 and fd == 2:
                continue
            what = '%s %s' % (('real', 'integer', 'pattern')[fd], ('general', 'symmetric', 'skew-symmetric')[sy])
            J.append(io('rd-%d%d' % (fd, sy), 'io_mm.cpp', 1, what + ' up to 2x2, nnz 0..2, every spelling and layout variant', ['SRC=' + ('Coo2', 'Coo3')[sy % 2]], f0=fd, f1=fd, s0=sy, s1=sy, R1=2, C1=2, t=120))
            J.append(io('rdd-%d%d' % (fd, sy), 'io_mm.cpp', 1, what + ', double, 64-bit indices', ('SRC=' + ('Coo3', 'Coo2')[sy % 2],) + U64, f0=fd, f1=fd, s0=sy, s1=sy, R1=2, C1=2, com=0, style=1, t=120))
    for fd, sy in ((0, 0), (0, 1), (0, 2), (2, 1)):
        J.append(io('rd3-%d%d' % (fd, sy), 'io_mm.cpp', 1, '3 rows and up to 3 columns, nnz 2', ['SRC=Coo2'], f0=fd, f1=fd, s0=sy, s1=sy, R0=3, R1=3, C1=3, N0=2, N1=2, com=1, style=0, t=120))
    for sy in range(3):
        for fd in range(3):
            if (fd, sy) != (2, 2):
                J.append(io('large-%d%d' % (fd, sy), 'io_mm.cpp', 1, '300 elements at fixed positions, arbitrary values', ['SRC=' + ('Coo3', 'Coo2')[(sy + fd) % 2]], f0=fd, f1=fd, s0=sy, s1=sy, **pat(300, 70, 60)))
    J.append(io('xl', 'io_mm.cpp', 1, '1500 real elements at fixed positions, arbitrary values', ['SRC=Coo2'], f0=0, f1=0, s0=0, s1=0, com=0, style=0, **pat(1500)))
    for sy in range(3):
        J.append(io('any-%d' % sy, 'io_mm.cpp', 1, '%s, any dimensions below 2^31, nnz 0..2 anywhere' % ('general', 'symmetric', 'skew-symmetric')[sy], ['SRC=Coo2'], s0=sy, s1=sy, f0=0, f1=0, t=100, **anydim(M31, 2)))
        J.append(io('any64-%d' % sy, 'io_mm.cpp', 1, '%s, any dimensions below 2^31, nnz 0..2 anywhere, 64-bit' % ('general', 'symmetric', 'skew-symmetric')[sy], ('SRC=Coo3',) + U64, s0=sy, s1=sy, f0=0, f1=0, t=100, **anydim(M31, 2)))
        J.append(io('lines-%d' % sy, 'io_mm.cpp', 1, '2x2, nnz 1..2, lines ending in CR LF, blank lines between elements', ['SRC=' + ('Coo2', 'Coo3')[sy % 2]], f0=0, f1=1, s0=sy, s1=sy, R0=2, R1=2, C0=2, C1=2, N0=1, N1=2, com0=1, com=1, style0=4, style=15, t=120))
    J.append(io('comments', 'io_mm.cpp', 1, '1x1, 6..9 comments of up to 1020 characters', ['SRC=Coo3'], f0=0, f1=0, s0=0, s1=0, R1=1, C1=1, N1=1, com0=6, com=9, style=7, t=120))
    J.append(io('xxl', 'io_mm.cpp', 1, PB % (66000, '300x400'), ['SRC=Coo2'], f0=0, f1=0, s0=0, s1=0, com=0, style=0, **xl()))
    for s in ('Coo2', 'Coo3'):
        J.append(io('bad-' + s, 'io_mm.cpp', 3, '16 kinds of damage at each of two elements', ['SRC=' + s], cover=('end', 'rejected', 'short'), t=120))
    J.append(io('bad-d', 'io_mm.cpp', 3, '16 kinds of damage, double, 64-bit indices', ('SRC=Coo2',) + U64, cover=('end', 'rejected', 'short'), t=120))
    if tier == 'thorough':
        for s in ('Coo2', 'Coo3'):
            J.append(io('rdall-' + s, 'io_mm.cpp', 1, 'up to 3x3, nnz 0..2, every variant', ['SRC=' + s], t=1800))
        for fd, sy in ((0, 0), (0, 1), (0, 2), (2, 1), (2, 0)):
            J.append(io('rdn3-%d%d' % (fd, sy), 'io_mm.cpp', 1, '3x3, nnz 3', ['SRC=Coo2'], f0=fd, f1=fd, s0=sy, s1=sy, R0=3, R1=3, C0=3, C1=3, N0=3, N1=3, com=0, style=0, t=1800))
    return J


prop(id='C19', jobs=c19, bounds='up to 3x3, nnz<=2 (thorough 3), all real/integer/pattern x general/symmetric/skew-symmetric files, comment, blank-line and spacing variants; 16 kinds of damage; up to 66000 elements at fixed positions with arbitrary values; any dimensions and indices up to 2^31 - 1; lines ending in CR LF, blank lines between elements, comment lines up to 1020 characters', outside='text of real numbers (a number is one token that reads back as the same value), lines over 1024 characters', assumptions=['symmetric files hold each pair once'])


# ------------------------------------------------------------------ C20 MatrixMarket output
def c20(tier):
    J = []
    for s in ('Coo2', 'Coo3'):
        J.append(io('wr-' + s, 'io_mm.cpp', 2, 'R,C 1..3, nnz 0..2', ['SRC=' + s], R1=3, C1=3, N1=2, t=120))
        J.append(io('wr3-' + s, 'io_mm.cpp', 2, 'R,C 2, nnz 3', ['SRC=' + s], R0=2, R1=2, C0=2, C1=2, N0=3, N1=3, t=120))
        J.append(io('wrd-' + s, 'io_mm.cpp', 2, 'R,C 1..2, nnz 0..2, double, 64-bit indices', ('SRC=' + s,) + U64, R1=2, C1=2, t=120))
        J.append(io('wrlarge-' + s, 'io_mm.cpp', 2, '700 elements at fixed positions, arbitrary values', ['SRC=' + s], **pat(700)))
        J.append(io('wrsparse-' + s, 'io_mm.cpp', 2, '150 elements at fixed positions of a 300x100 matrix, arbitrary values, double', ['SRC=' + s, 'VT=double'], **pat(150, 300, 100)))
        J.append(io('wr16-' + s, 'io_mm.cpp', 2, 'R,C 1..2, nnz 0..2, 16-bit indices', ('SRC=' + s, 'IX=uint16_t', 'SX=uint8_t'), R1=2, C1=2, t=120))
    for s in ('Coo2', 'Coo3'):
        J.append(io('any-' + s, 'io_mm.cpp', 2, 'any dimensions (refused from 2^31), nnz 0..2 anywhere', ['SRC=' + s], huge=1, cover=('end', 'refused'), **anydim(M32, 2)))
        J.append(io('any64-' + s, 'io_mm.cpp', 2, 'any dimensions (refused from 2^31), nnz 0..2 anywhere, 64-bit', ('SRC=' + s,) + U64, huge=1, cover=('end', 'refused'), **anydim(M64, 2)))
    J.append(io('wrxl', 'io_mm.cpp', 2, PB % (66000, '300x400'), ['SRC=Coo2'], **xl()))
    if tier == 'thorough':
        for s in ('Coo2', 'Coo3'):
            J.append(io('wr33-' + s, 'io_mm.cpp', 2, 'R,C 3, nnz 3', ['SRC=' + s], R0=3, R1=3, C0=3, C1=3, N0=3, N1=3, t=1500))
            J.append(io('wr4-' + s, 'io_mm.cpp', 2, 'R,C 2, nnz 4', ['SRC=' + s], R0=2, R1=2, C0=2, C1=2, N0=4, N1=4, t=1500))
    return J


prop(id='C20', jobs=c20, bounds='R,C<=3, nnz<=3 (thorough 4), every index and value; up to 66000 elements at fixed positions with arbitrary values; any dimensions and indices, sizes from 2^31 have to be refused', outside='none beyond the bounds', assumptions=['printing with enough digits and reading back gives the same number (the number model rounds when fewer digits are printed)'])


# ------------------------------------------------------------------ C21 blocked files
def c21(tier):
    J = []
    for n, f in (('csbr', 2), ('csbr2', 3), ('cgbr', 4), ('bcsr', 6)):
        d = ['FMT=%d' % f]
        J.append(io('rt-' + n, 'io_blocked.cpp', 1, 'R,C 2..3, up to 2x2 blocks at any offset, nnz 0..2', d, R0=2, R1=3, C0=2, C1=3, N0=0, N1=2, conc=1, t=120))
        J.append(io('rt3-' + n, 'io_blocked.cpp', 1, 'R,C 3, up to 2x2 blocks at any offset, nnz 3', d, R0=3, R1=3, C0=2, C1=2, N0=3, N1=3, conc=1, t=120))
        J.append(io('rtlarge-' + n, 'io_blocked.cpp', 1, '600 elements at fixed positions, arbitrary values, 6x5 blocks', d, **pat(600, BR0=6, BR1=6, BC0=5, BC1=5)))
        J.append(io('rtxl-' + n, 'io_blocked.cpp', 1, PB % (66000, '300x400') + ', 6x5 blocks', d, **xl(BR0=6, BR1=6, BC0=5, BC1=5)))
        J.append(io('rtone-' + n, 'io_blocked.cpp', 1, ROWB + ', one block', d, **xlrow(BR0=1, BR1=1, BC0=1, BC1=1)))
        J.append(io('rtsparse-' + n, 'io_blocked.cpp', 1, '60 elements at fixed positions of a 300x200 matrix, arbitrary values, 11x9 blocks', d, **pat(60, 300, 200, BR0=11, BR1=11, BC0=9, BC1=9)))
        J.append(io('rtd-' + n, 'io_blocked.cpp', 1, 'double, 64-bit indices', d + list(U64), R0=2, R1=2, C0=3, C1=3, N0=1, N1=2, conc=1, t=120))
        if f == 6:
            J.append(io('dmg-' + n, 'io_blocked.cpp', 2, 'any header field, any indices, cut anywhere; 1 element', d, n=1, cover=('end', 'accepted', 'rejected'), t=120))
            J.append(io('cut-' + n, 'io_blocked.cpp', 2, 'cut anywhere; 2 elements', d, what0=2, what1=2, cover=('end', 'rejected'), t=120))
        else:
            J.append(io('dmg-' + n, 'io_blocked.cpp', 2, 'any header field, any indices, cut anywhere; 2 elements', d, cover=('end', 'accepted', 'rejected'), t=120))
    if tier == 'thorough':
        for n, f in (('csbr', 2), ('csbr2', 3), ('cgbr', 4), ('bcsr', 6)):
            d = ['FMT=%d' % f]
            J.append(io('rtl-' + n, 'io_blocked.cpp', 1, 'R,C 3..4, up to 3x3 blocks at any offset, nnz 0..2', d, R0=3, R1=4, C0=3, C1=4, BR1=3, BC1=3, N0=0, N1=2, conc=1, t=1500))
            J.append(io('dmgd-' + n, 'io_blocked.cpp', 2, 'arbitrary contents, 2 elements, 64-bit', d + list(U64), cover=('end', 'accepted', 'rejected'), t=1500))
            J.append(io('dmg3-' + n, 'io_blocked.cpp', 2, 'arbitrary indices, 3 elements', d, n=3, what0=1, what1=1, cover=('end', 'accepted', 'rejected'), t=1500))
    return J


prop(id='C21', jobs=c21, bounds='R,C<=3 (thorough 4), nnz<=3, up to 2x2 (3x3) blocks at every offset; damage: any header field, any indices, any truncation with up to 2 (3) elements; up to 66000 elements at fixed positions with arbitrary values', outside='larger files', assumptions=['the block boundaries given to the reader are those the file was written with'])


# ------------------------------------------------------------------ C22 conversion tools
TOOLS = ('convert', 'convert_blocked', 'expanded', 'permute', 'ipermute', 'sort', 'prepare', 'one2zero', 'double2float', 'pprint')


def tool(tag, name, bounds, **k):
    return io('%s-%s' % (name, tag), 'tools.cpp', 0, bounds, RT + ('TOOL=%d' % (TOOLS.index(name) + 1),), **k)


def c22(tier):
    J = []
    J.append(tool('all', 'convert', 'indices below 4, nnz 0..3, bin/mtx/all', D=4, N1=3))
    J.append(tool('2b', 'convert_blocked', '1..2 blocks of size 1..3, nnz 0..2', nb1=2, smax=3, N1=2))
    J.append(tool('3e', 'convert_blocked', '1..2 blocks of size 1..2, nnz 3', nb1=2, smax=2, N0=3, N1=3, t=120))
    J.append(tool('3b', 'convert_blocked', '3 blocks of size 1..2, nnz 2', nb0=3, nb1=3, smax=2, N0=2, N1=2))
    J.append(tool('2b', 'expanded', '1..2 blocks of size 1..3, nnz 0..2', nb1=2, smax=3, N1=2, t=120))
    J.append(tool('3b', 'expanded', '3 blocks of size 1..3, nnz 1', nb0=3, nb1=3, smax=3, N0=1, N1=1, t=120))
    for n in ('permute', 'ipermute'):
        J.append(tool('any', n, 'every permutation of 1..5, 0..4 elements', P1=5, N1=4, cover=('end', 'converted')))
    J.append(tool('row', 'sort', 'binary files, indices below 4, nnz 0..4', D=4, N1=4))
    J.append(tool('blk', 'sort', 'binary files, 1..2 blocks of size 1..3, nnz 0..3', blocks=1, nb1=2, smax=3, N1=3))
    J.append(tool('mm', 'sort', 'MatrixMarket file, indices below 3, nnz 0..2', mtx=1, D=3, N1=2))
    J.append(tool('mmblk', 'sort', 'MatrixMarket file, 1..2 blocks of size 1..2, nnz 0..2', mtx=1, blocks=1, nb1=2, smax=2, N1=2))
    J.append(tool('2b', 'prepare', '1..2 blocks of size 1..2, nnz 0..2, reversing permutation', nb1=2, smax=2, N1=2, t=120))
    J.append(tool('3b', 'prepare', '3 blocks of size 1..2, nnz 1, identity permutation', nb0=3, nb1=3, smax=2, N0=1, N1=1, flip=0, t=120))
    for n in ('one2zero', 'double2float'):
        J.append(tool('any', n, '1..2 files of 0..3 elements', cover=('end', 'converted')))
        J.append(tool('large', n, '1..2 files of 1500 elements', n0=1500, n1=1500, cover=('end', 'converted')))
    J.append(tool('any', 'pprint', 'every mode, up to 3 elements', bad=0, N1=3, cover=('end', 'printed')))
    L = dict(pat=1, nb0=40, nb1=40, smax=9, N0=600, N1=600, D=150, threads=3)
    LB = '600 elements at fixed positions, arbitrary values'
    for n in ('convert', 'sort'):
        J.append(tool('large', n, LB, **L))
    for n in ('convert_blocked', 'expanded', 'prepare'):
        J.append(tool('large', n, LB + ', 40 blocks of size 1..9', **L))
    J.append(tool('largeblk', 'sort', LB + ', 40 blocks of size 1..9', blocks=1, **L))
    J.append(tool('fewblk', 'sort', LB + ', 3 blocks of size up to 40', blocks=1, **dict(L, nb0=3, nb1=3, smax=40)))
    J.append(tool('largemm', 'sort', '300 elements at fixed positions, MatrixMarket file', mtx=1, **dict(L, N0=300, N1=300)))
    J.append(tool('largemmblk', 'sort', '300 elements at fixed positions, MatrixMarket file, 40 blocks', mtx=1, blocks=1, **dict(L, N0=300, N1=300)))
    for n in ('permute', 'ipermute'):
        J.append(tool('large', n, 'a fixed permutation of 200, 600 indices, the last two arbitrary', pat=1, P0=200, P1=200, N0=600, N1=600, threads=3, cover=('end', 'converted')))
    J.append(tool('any', 'convert', 'any indices up to 2^31 - 2, nnz 0..2, bin/mtx/all', D=M31, N1=2, t=150))
    J.append(tool('anyrow', 'sort', 'binary files, any 32-bit indices, nnz 0..2', D=M32, N1=2, t=150))
    J.append(tool('anymm', 'sort', 'MatrixMarket file, any indices up to 2^31 - 2, nnz 0..2', mtx=1, D=M31, N1=2, t=150))
    J.append(tool('wide', 'convert_blocked', '1..3 blocks of 100000, 1048576 and 70000, nnz 0..2', wide=1, nb1=3, N1=2, t=150))
    J.append(tool('wideblk', 'sort', 'binary files, 1..3 blocks of 100000, 1048576 and 70000, nnz 0..2', wide=1, blocks=1, nb1=3, N1=2, t=150))
    for n in ('permute', 'ipermute'):
        J.append(tool('xl', n, 'a fixed permutation of 200, 66000 indices, the last two arbitrary', pat=1, P0=200, P1=200, N0=66000, N1=66000, threads=2, t=300, opts=HANG, cover=('end', 'converted')))
    J.append(tool('xl', 'double2float', '1..2 files of 39000 elements', n0=39000, n1=39000, t=300, opts=HANG, cover=('end', 'converted')))
    if tier == 'thorough':
        J.append(tool('3x3', 'expanded', '1..2 blocks of size 1..3, nnz 0..3', nb1=2, smax=3, N1=3, t=1500))
        J.append(tool('3b2', 'expanded', '3 blocks of size 1..3, nnz 1..2', nb0=3, nb1=3, smax=3, N0=1, N1=2, t=1500))
        J.append(tool('3x3', 'convert_blocked', '1..2 blocks of size 1..3, nnz 0..3', nb1=2, smax=3, N1=3, t=1500))
        J.append(tool('4b', 'convert_blocked', '4 blocks of size 1..2, nnz 2', nb0=4, nb1=4, smax=2, N0=2, N1=2, t=1500))
        J.append(tool('3e', 'prepare', '1..2 blocks of size 1..2, nnz 3', nb1=2, smax=2, N0=3, N1=3, t=1500))
        J.append(tool('3f', 'prepare', '3 blocks of size 1..2, nnz 2', nb0=3, nb1=3, smax=2, N0=2, N1=2, flip=0, t=1500))
        J.append(tool('5', 'sort', 'indices below 4, nnz 5', D=4, N0=5, N1=5, t=1500))
        J.append(tool('4', 'convert', 'indices below 5, nnz 4', D=5, N0=4, N1=4, t=1500))
        X = dict(pat=1, nb0=40, nb1=40, smax=9, N0=66000, N1=66000, D=150, threads=2, t=2000, opts=HANG)
        XB = '66000 elements at fixed positions, arbitrary values'
        for n in ('convert', 'sort'):
            J.append(tool('xl', n, XB, **X))
        for n in ('convert_blocked', 'expanded'):
            J.append(tool('xl', n, XB + ', 40 blocks of size 1..9', **X))
        J.append(tool('xlblk', 'sort', XB + ', 40 blocks of size 1..9', blocks=1, **X))
    return J


prop(id='C22', jobs=c22, bounds='matrices with indices below 4, nnz<=3 (4), up to 3 blocks of up to 3 rows; every value and placement; any indices of the index type with nnz<=2; vectors of up to 5; a fixed permutation applied to 66000 indices (thorough: every tool with 66000 elements)', outside='larger matrices; long names (C23)', assumptions=['the input files are well-formed: indices inside the block boundaries, a permutation that is one'])


# ------------------------------------------------------------------ C23 tools, bad input and long names
def c23(tier):
    J = []
    S = dict(N1=2, nb1=2, smax=2, D=3, P1=3, threads=1)
    for n, cov in (('convert', ('missing', 'short', 'nowrite')), ('convert_blocked', ('missing', 'short', 'outside', 'nowrite')), ('expanded', ('missing', 'short', 'outside', 'nowrite')), ('prepare', ('missing', 'short', 'outside', 'nowrite')), ('permute', ('bad', 'index')), ('ipermute', ('bad', 'index')), ('sort', ('missing', 'short')), ('one2zero', ('bad',)), ('double2float', ('bad',))):
        J.append(tool('bad', n, 'a missing file, an unwritable output, files of unequal length, elements outside the blocks or the permutation, zero indices, trailing bytes; up to 2 elements', mode=1, cover=('end',) + cov, **S))
    J.append(tool('badblk', 'sort', 'elements outside the blocks, missing or unequal files', mode=1, blocks=1, cover=('end', 'missing', 'short', 'outside'), **S))
    J.append(tool('badmm', 'sort', 'a missing MatrixMarket or block file', mode=1, blocks=1, mtx=1, cover=('end', 'missing'), **S))
    for n in TOOLS:
        J.append(io(n + '-args', 'tools.cpp', 0, '0..8 arguments that name no files', RT + ('TOOL=%d' % (TOOLS.index(n) + 1), 'ARGS')))
    J.append(tool('bad', 'pprint', 'every mode, a missing file or one cut short anywhere, up to 2 elements', bad=2, cover=('end', 'missing', 'short')))
    L = dict(mode=2, N0=1, N1=1, nb0=1, nb1=1, smax=1, D=1, P1=1, threads=1)
    for n in ('convert', 'convert_blocked', 'permute', 'ipermute', 'sort', 'one2zero', 'double2float'):
        J.append(tool('long', n, 'output names of 112..134 characters', cover=('end',), **L))
    for n in ('expanded', 'prepare'):
        J.append(tool('long', n, 'output names of 240..252 characters', l0=240, l1=252, cover=('end',), **L))
    J.append(tool('longmm', 'sort', 'MatrixMarket names of 112..134 characters', mtx=1, cover=('end',), **L))
    if tier == 'thorough':
        for n in ('convert', 'convert_blocked', 'expanded', 'prepare', 'permute', 'ipermute', 'sort', 'one2zero', 'double2float'):
            J.append(tool('longer', n, 'output names of 1..254 characters', cover=('end',), **dict(L, l0=1, l1=254), t=1500))
        for n in ('convert_blocked', 'expanded'):
            J.append(tool('bad3', n, 'bad input, up to 3 blocks, up to 3 elements', mode=1, N1=3, nb1=3, smax=2, threads=1, cover=('end', 'missing', 'short', 'outside'), t=1500))
    return J


prop(id='C23', jobs=c23, bounds='up to 2 elements and 2 blocks; file names around every buffer length (thorough: all lengths to 254)', outside='output that does not fit (C28); binary vectors that are not permutations but stay inside', assumptions=['the same bad file is not both missing and short'])


# ------------------------------------------------------------------ C26 coordinate matrices
COOS = [('coo', 'DST=Coo<VT,IX,IX>'), ('coo16', 'DST=Coo<VT,IX,SX>'), ('coo2', 'DST=Coo2<VT,IX>'), ('coo3', 'DST=Coo3<VT,IX>')]


def c26(tier):
    J = []
    def co(name, kind, bounds, defs, **k):
        J.append(io(name, 'coo.cpp', kind, bounds, defs, **k))
    n = 4 if tier == 'quick' else 6
    B = 'R,C 1..4, nnz 0..%d anywhere (duplicates included)' % n
    S = dict(sq(4), N1=n)
    for a, d in COOS:
        for s in ('Coo2', 'Coo3'):
            co('%s-from-%s' % (a, s.lower()), 1, B, (d, 'SRC=' + s), **S)
        co(a + '-from-arrays', 2, B, (d,), **S)
        for e in ('Triplet', 'Element'):
            co('%s-from-%s' % (a, e.lower()), 3, B, (d, 'ELEM=%s<VT,IX>' % e), **S)
        co(a + '-set', 4, B + ', set in either way', (d,), **S)
        for k, t in ((1, 'matrix'), (2, 'arrays'), (3, 'elements')):
            co('%s-large-%s' % (a, t), k, PB % ('1500', '150x120'), (d,), **pat(n=1500, r=150, c=120))
            co('%s-xl-%s' % (a, t), k, PB % ('66000', '300x400'), (d,), **xl())
        if a != 'coo16':
            for k, t in ((1, 'matrix'), (2, 'arrays'), (3, 'elements'), (4, 'set')):
                co('%s-any-%s' % (a, t), k, 'any dimensions, nnz 0..3 anywhere', (d,), **anydim(M32))
                co('%s-any64-%s' % (a, t), k, 'any dimensions, nnz 0..3 anywhere, 64-bit', (d,) + tuple(U64), **anydim(M64))
            for k, t in ((1, 'matrix'), (2, 'arrays'), (3, 'elements')):
                co('%s-64-%s' % (a, t), k, 'double, 64-bit indices: ' + B, (d,) + tuple(U64), **S)
    co('block-set', 4, B + ', set in either way', ('DST=BlockCoo<VT,IX,SX>', 'BLOCK'), **S)
    co('block-large-set', 4, PB % ('700', '90x75'), ('DST=BlockCoo<VT,IX,SX>', 'BLOCK'), **pat())
    return J


prop(id='C26', jobs=c26, bounds='R,C 1..4, up to 4 elements (thorough 6); 1500 and 66000 elements at fixed positions; float and double, 32 and 64-bit indices; any dimensions and indices of the index type', outside='other placements in large matrices', assumptions=[])


# ------------------------------------------------------------------ C24 reports of the benchmark programs
def c24(tier):
    J = []
    def rep(n, kind, bounds, defs=(), **k):
        J.append(io(n, 'reports.cpp', kind, bounds, defs, **k))
    rep('check', 1, 'float, 1..2 elements in -3..3', n1=2, cover=('end', 'same', 'differ'))
    rep('check3', 1, 'float, 3 elements in -1..1', n0=3, n1=3, rng=1, cover=('end', 'same', 'differ'))
    rep('checkd', 1, 'double, unsigned index, 1..2 elements in -2..2, error figures', ('VT=double', 'SIT=uint32_t'), conc=1, n1=2, rng=2, cover=('end', 'same', 'differ'))
    rep('check3c', 1, 'float, 3 elements in -1..1, error figures', conc=1, n0=3, n1=3, rng=1, cover=('end', 'same', 'differ'))
    for t in ('float', 'double'):
        rep('median-' + t, 2, '1..4 values in -3..3', ('VT=' + t,))
        rep('deviation-' + t, 2, '1..3 values in -3..3: mean, standard deviation', ('VT=' + t,), what=1, conc=1, n1=3)
    for t in ('float', 'double'):
        rep('deviation-long-' + t, 2, '250..251 values, one of them in -3..3, the others fixed', ('VT=' + t,), what=1, conc=1, n0=250, n1=251, fix=1)
        rep('median-long-' + t, 2, '300..301 values, one of them in -3..3, the others fixed', ('VT=' + t,), conc=1, n0=300, n1=301, fix=1)
        rep('check-long-' + t, 1, '300 elements, one of the last three in -2..2 and different or not', ('VT=' + t,), conc=1, n0=300, n1=300, p0=297, rng=2, fix=1, cover=('end', 'differ'))
    rep('deviation-exact', 2, '1..3 values, multiples of 10^9+7: double precision is kept', ('VT=double',), what=1, conc=1, n1=3, unit=1000000007)
    rep('timing-long', 3, '300..301 times, one of them 1..4 quarter seconds, the others fixed', n0=300, n1=301, fix=1)
    rep('timing', 3, '1..3 times of 1..4 quarter seconds, in any order', n1=3)
    rep('timing4', 3, '4 times of 1..3 quarter seconds, in any order', n0=4, n1=4, tmax=3)
    rep('bench', 4, '1..2 iterations, each product taking 1..3 quarter seconds', n1=2)
    for n, d in COOS[:1] + COOS[2:]:
        J.append(io('show-' + n, 'coo.cpp', 5, 'show() of a coordinate matrix: nnz 0..3, any indices', (d,), N1=3))
        J.append(io('show20-' + n, 'coo.cpp', 5, 'show() of a coordinate matrix: nnz 20..21', (d,), N0=20, N1=21, cover=('end', 'refused')))
    J.append(io('show-csr', 'coo.cpp', 6, 'show() and print_info() of a CSR matrix: R,C 1..3, nnz 0..2', N1=2))
    J.append(io('show20-csr', 'coo.cpp', 6, 'show() and print_info() of a CSR matrix: R 20..21, nnz 0..1', R0=20, R1=21, N1=1, cover=('end', 'refused')))
    J.append(io('show-vector', 'coo.cpp', 7, 'show() of a vector of 0..3 elements and of a triplet'))
    rep('benchd', 4, '1..2 iterations, double, 64-bit indices', U64, n1=2)
    if tier == 'thorough':
        rep('check4', 1, '4 elements in -1..1', n0=4, n1=4, rng=1, cover=('end', 'same', 'differ'), t=1500)
        rep('median5', 2, '5 values in -3..3', n1=5, t=1500)
        rep('timing5', 3, '5 times of 1..4 quarter seconds', n0=5, n1=5, t=1500)
        rep('bench4', 4, '3..4 iterations', n1=4, t=1500)
    return J


prop(id='C24', jobs=c24, bounds='up to 4 measurements or vector elements, small whole values; series of 250-301 with one free value, the others fixed', outside='rounding of the reported figures beyond six digits; other long series', assumptions=['the clock is a stand-in that each reading advances by a microsecond'])


# ------------------------------------------------------------------ C25 driver and test programs
PROGRAMS = {1: 'result', 2: 'csr', 3: 'csr2', 4: 'cswr', 5: 'csbr', 6: 'csbr2', 7: 'cgbr', 8: 'cgbr2', 9: 'bcsr', 10: 'bench', 11: 'pbench', 12: 'block', 13: 'visual', 15: 'partition'}


def program(tag, n, bounds, **k):
    return io('%s-%s' % (PROGRAMS[n], tag), 'programs.cpp', 0, bounds, ('PRG=%d' % n,), **k)


def c25(tier):
    J = []
    bad = ('end', 'missing', 'short', 'outside')
    J.append(program('all', 13, 'the matrix built in'))
    for n in PROGRAMS:
        if n != 13:
            J.append(io(PROGRAMS[n] + '-args', 'programs.cpp', 0, '0..8 arguments that name no files', ('PRG=%d' % n, 'ARGS')))
    J.append(io('visual-shown', 'programs.cpp', 0, 'the matrix built in, nothing released', ('PRG=13', 'NORELEASE')))
    for n in PROGRAMS:
        if n == 13:
            continue
        J.append(program('large', n, PB % ('400', '70x50 (for pbench 60x60)') + ', binary and MatrixMarket', **pat(n=400, r=60 if n == 11 else 70, c=60 if n == 11 else 50)))
        if n in (8, 12, 15):
            J.append(program('xl', n, PB % ('66000', '300x400') + ', binary and MatrixMarket', **xl()))
        if 5 <= n <= 9 or n == 15:
            J.append(program('largesizes', n, PB % ('400', '70x50') + ', blocks of size 1..7', mode=2, **pat(n=400, r=70, c=50)))
        c = dict(conc=1) if n == 1 else {}
        J.append(program('1', n, 'up to 2x2, nnz 0..1, binary and MatrixMarket', R1=2, C1=2, N1=1, **c))
        if n != 11:
            J.append(program('2', n, 'up to 3x3, nnz 2, binary', R1=2 if n in (1, 9) else 3, C1=2 if n in (1, 9) else 3, N0=2, N1=2, bin0=1, **c))
        J.append(program('bad', n, 'a missing file, one that ends early, an element outside; up to 2x2, nnz 0..2', mode=1, R1=2, C1=2, N1=2, cover=bad))
        if 5 <= n <= 9 or n == 15:
            J.append(program('sizes', n, 'block size files; up to 2x3, nnz 0..2, every list of block sizes', mode=2, R1=1 if n == 9 else 2, C1=3, N1=2, bin0=1, t=120))
    J.append(program('width', 4, 'row widths 1, 3, 256, and ones that the format cannot hold; up to 2x2, nnz 0..1', mode=3, R1=2, C1=2, N1=1, bin0=1, cover=('end', 'width')))
    J.append(program('2', 11, '2x2..3x3, nnz 2, binary', R1=3, C1=3, N0=2, N1=2, bin0=1))
    J.append(program('misfit', 11, 'vectors of 0..3 indices that are no permutation of the rows and columns', mode=2, R1=2, C1=2, N1=1, bin0=1, cover=('end', 'misfit')))
    J.append(program('uncleared', 1, 'an empty 1x1 matrix, vectors in memory that is not zero', uncleared=1, conc=1, R1=1, C1=1, N1=0, bin0=1, t=60))
    if tier == 'thorough':
        for n in PROGRAMS:
            if n == 13:
                continue
            if n in (1, 11):
                J.append(program('3', n, 'up to 3x3, nnz 3, binary', R1=3, C1=3, N0=3, N1=3, bin0=1, t=1500, **(dict(conc=1) if n == 1 else {})))
            elif n != 9:
                J.append(program('3', n, '2x1..3x3, nnz 3, binary and MatrixMarket', R0=2, R1=3, C1=3, N0=3, N1=3, t=1500))
                J.append(program('4', n, '3x3..4x4, nnz 3, binary', R0=3, R1=4, C0=3, C1=4, N0=3, N1=3, bin0=1, t=1500))
            if 5 <= n <= 8 or n == 15:
                J.append(program('sizes3', n, 'block size files; 3x3, nnz 3, every list of block sizes', mode=2, R0=3, R1=3, C0=3, C1=3, N0=3, N1=3, bin0=1, t=1500))
    return J


prop(id='C25', jobs=c25, bounds='matrices up to 3x3 with up to 2 elements (thorough: 4x4, 3), two threads, one measured product; 400 elements at fixed positions of a 70x50 matrix, 66000 of a 300x400 matrix', outside='other placements in large matrices; more than one iteration (C24); src/test/structs.cpp', assumptions=['the clock and rand() are stand-ins'])


# ------------------------------------------------------------------ C27 the MatrixMarket library
def c27(tier):
    J = [io('codes', 'mm_lib.cpp', 1, 'every four bytes; every combination of object, format, field and symmetry, known or not', cover=('end', 'named')),
         io('sizes', 'mm_lib.cpp', 3, 'every non-negative int as a size or index, arbitrary values, 0..2 comment lines, with and without a blank line'),
         io('errors', 'mm_lib.cpp', 4, '15 kinds of failure, three fields', cover=('end', 'fine', 'cut')),
         io('cut', 'mm_lib.cpp', 5, 'a file of two elements cut at any byte, three fields, two symmetries', cover=('end', 'whole'))]
    n = 4 if tier == 'quick' else 9
    for d, nm in enumerate(('real', 'complex', 'pattern')):
        J.append(io('crd-' + nm, 'mm_lib.cpp', 2, nm + ', every symmetry: 0..%d elements, any indices and sizes up to 2e9' % n, d0=d, d1=d, N1=n, cover=('end', 'real') if d == 0 else ('end',), t=120 if tier == 'quick' else 900))
        J.append(io('large-' + nm, 'mm_lib.cpp', 2, nm + ': 1200 elements at fixed positions, arbitrary values and sizes', d0=d, d1=d, s0=0, s1=0, N0=1200, N1=1200, cover=('end', 'real') if d == 0 else ('end',), t=120))
    return J


prop(id='C27', jobs=c27, bounds='up to 4 (thorough 9) elements with any indices and values, 1200 with arbitrary values; files of two elements cut at any byte', outside='integer matrices (mm_read_mtx_crd refuses them); negative sizes; lines longer than 1024 characters', assumptions=['a file is what was written to it: no read or write errors between fopen and fclose (write errors: C28)'])


# ------------------------------------------------------------------ C28 a write that fails is reported
def c28(tier):
    J = []
    q = tier == 'quick'
    FW = ('end', 'full', 'written')
    n = 3 if q else 6
    for k, nm, d in ((1, 'array', ()), (2, 'bin-coo2', ('SRC=Coo2',)), (2, 'bin-coo3', ('SRC=Coo3',)), (3, 'three-coo2', ('SRC=Coo2',)), (3, 'three-coo3', ('SRC=Coo3',)), (4, 'blocked', ('SRC=Coo3',)), (5, 'mm-coo2', ('SRC=Coo2',)), (5, 'mm-coo3', ('SRC=Coo3',)), (6, 'mmlib', ())):
        J.append(io(nm, 'wfail.cpp', k, 'nnz %d..%d, a file may grow to any number of bytes' % (0 if k in (2, 4, 5, 6) else 0, n), d, R0=2, R1=2, C0=2, C1=2, N0=0, N1=n, cover=FW + (('unopened', 'one') if k == 3 else ()), t=120 if q else 900))
        J.append(io(nm + '-large', 'wfail.cpp', k, '1500 elements at fixed positions, arbitrary values, a file may grow to any number of bytes', d, big=1, cover=FW + (('unopened', 'one') if k == 3 else ()), **pat(1500)))
        if k < 5:
            J.append(io(nm + '-64', 'wfail.cpp', k, 'double, 64-bit indices, nnz 0..1, any room', tuple(d) + U64, R0=2, R1=2, C0=2, C1=2, N0=0, N1=1 if q else 3, cover=FW + (('unopened', 'one') if k == 3 else ()), t=120 if q else 900))
    S = dict(mode=3, N0=0, N1=2 if q else 3, nb1=2, smax=2, D=3, P1=2 if q else 3, threads=1, cover=('end', 'full', 'fits'), t=150 if q else 900)
    for nm in TOOLS[:-1]:
        J.append(tool('full', nm, 'nnz 0..%d, output may grow to any number of bytes, or one output file takes none' % S['N1'], **dict(S, cover=S['cover'] + (() if nm in ('convert_blocked', 'expanded') else ('one',)))))
    L = dict(mode=3, pat=1, nb0=40, nb1=40, smax=9, N0=600, N1=600, D=150, P0=200, P1=200, n0=1500, n1=1500, threads=2, t=200)
    for nm in TOOLS[:-1]:
        J.append(tool('fulllarge', nm, '600 elements (1500 for vectors) at fixed positions, arbitrary values, output may grow to any number of bytes, or one output file takes none', cover=S['cover'] + (() if nm in ('convert_blocked', 'expanded') else ('one',)), **L))
    J.append(tool('fullmm', 'sort', 'MatrixMarket file, no room or enough', mtx=1, **S))
    J.append(tool('fullblk', 'sort', 'block order, output may grow to any number of bytes', blocks=1, **S))
    return J


prop(id='C28', jobs=c28, bounds='any number of bytes a file may hold, with up to 3 (thorough 6) elements and with 600 or 1500; one output file of several that takes no byte; text files: no room or enough, with 1500 elements also less than 4096 bytes', outside='text files that are cut in the middle of a small file; messages printed on the terminal; a disk that fills up and is emptied within one call; input errors while reading', assumptions=['a stream reports a failed write when it is closed at the latest, and through ferror or a short count once its buffer of 4096 bytes was written out'])
