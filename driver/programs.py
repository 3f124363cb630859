"""the harness programs and what they are made of"""
from core import Program, Unit

PBT = Unit('pbt.cpp', plain=True)
REF = Unit('ref.cpp', plain=True)


def chunked(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


ALL_T = [t for t in range(8, 513, 8) if t != 384]
SOME_T = [8, 16, 128, 224, 256, 264, 376, 392, 504, 512]
# output lengths of SHAKE in bits: all up to one block and a bit, then around every block boundary
def shake_outs(block, dense):
    s = set(range(8, dense + 1, 8))
    for k in range(1, 7):
        for d in (-16, -8, 0, 8, 16):
            s.add(k * block + d)
    s |= {128, 256, 512, 1024, 2048, 4096, 8192, 16384, 7 * 64, 9 * 64 + 8}
    if dense > 64:  # counters of blocks or bytes of eight or sixteen bits, and so on
        for k in (16, 32, 128, 255, 256, 257, 258, 300):
            s |= {k * block, k * block + 8, k * block - 8}
        s |= {65536 - 8, 65536, 65536 + 8, 65536 * 8 - 8, 65536 * 8, 65536 * 8 + 8, 65536 * 8 + block, 1 << 20, (1 << 21) + 8}
    return sorted(s)


def algs(fams, extra=(), dense=False):
    """units of the given families of algorithms"""
    u = []
    e = list(extra)
    if 'sha2' in fams:
        u += [Unit('alg_sha2.cpp', '-DA_256', *e), Unit('alg_sha2.cpp', '-DA_512', *e)]
    if 'sha512t' in fams:
        for ts in chunked(ALL_T if dense else SOME_T, 8 if dense else 5):
            u.append(Unit('alg_sha512t.cpp', '-DTS=' + ','.join(map(str, ts)), *e))
    if 'sha3' in fams:
        u += [Unit('alg_sha3.cpp', '-DA_1', *e), Unit('alg_sha3.cpp', '-DA_2', *e)]
    if 'shake' in fams:
        u += [Unit('alg_shake.cpp', '-DA_128', *e), Unit('alg_shake.cpp', '-DA_256', *e)]
        for a, block in (('-DA_128', 1344), ('-DA_256', 1088)):
            outs = shake_outs(block, block + 80 if dense else 64)
            for o in chunked(outs, 64 if dense else 200):
                u.append(Unit('alg_shake_outs.cpp', a, '-DOUTS=' + ','.join(map(str, o)), *e))
    if 'xxh' in fams:
        u.append(Unit('alg_xxh.cpp', *e))
    return u


FAMS = ('sha2', 'sha512t', 'sha3', 'shake', 'xxh')


def hash_prog(fams=FAMS, extra=(), main=(), dense=False, name='hash', plain=True):
    return Program(name, [PBT, REF, Unit('main_hash.cpp', *main, plain=plain)] + algs(fams, extra, dense), ['-lcrypto'])


def big_prog(fams, extra=()):
    return Program('big', [PBT, REF, Unit('main_big.cpp', plain=True)] + algs(fams, extra), ['-lcrypto'])


def parts(src, *defs, optional=()):
    return [Unit(src, *d.split(), optional=i in optional) for i, d in enumerate(defs)]


ENCODE = Program('encode', [PBT] + parts('main_encode.cpp', *['-DPART=0 -DHALF=%d -DKINDS=%d' % (h, k) for h in (0, 1) for k in (0, 1)], *['-DPART=%d' % p for p in (1, 2, 3, 4)], '-DPART=5 -DKINDS=0', '-DPART=5 -DKINDS=1'))
CHUNKS = Program('chunks', [PBT] + parts('main_chunks.cpp', '-DPART=0', '-DPART=1', '-DPART=2', optional=(2,)))
VALUE = Program('value', [PBT] + parts('main_value.cpp', *['-DPART=%d' % p for p in range(4)]))
TYPES = Program('types', [PBT] + parts('main_types.cpp', *['-DPART=%d' % p for p in range(4)]))
TEXT = Program('text', [PBT] + parts('main_text.cpp', *['-DPART=%d' % p for p in range(5)]))
NAMES = Program('names', [PBT, Unit('main_names.cpp')])
THREADS = Program('threads', [PBT, REF, Unit('main_threads.cpp')], ['-lcrypto'])
