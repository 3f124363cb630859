#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--seed N]: decides one property on /repo's working tree"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from core import *
from programs import *

CHECKS = {}


def check(pid, rule, *assumptions):
    def deco(f):
        CHECKS[pid] = (f, rule, assumptions)
        return f
    return deco


TAPE = 'Each case is generated from a choice tape seeded with (VERIF_SEED, check name, case number) and shrunk on the tape; distinct means a different tape.'


def hash_job(c, b, props, **kw):
    return dict(bin=b, props=props, **kw)


def big_jobs(b, plan):
    """plan: names of main_big properties, each a process of its own, started first"""
    return [dict(bin=b, props=['big.' + p], shards=1, cap=1e9, prio=10) for p in plan]


DIGEST_RULE = TAPE + ' A message is drawn by length class (0..3 blocks exhaustively, around block and padding limits, up to 64 KiB, and single messages past 2^29/2^32 bytes), content class, partition into updates and buffer alignment against guard pages. Non-trivial: at least one byte was hashed; the digest is compared with OpenSSL or an own implementation which shares no code with the library.'


def digests(c, fams, big_quick, big_thorough, dense=False, props=('len_sweep', 'split2', 'many_updates', 'out_lengths', 'ops', 'partitions')):
    bins = c.build([hash_prog(fams, dense=dense), big_prog(fams)])
    if c.violations:
        return
    jobs = big_jobs(bins['big'], big_thorough if c.thorough else big_quick)
    jobs.append(dict(bin=bins['hash'], props=list(props), scale=3))
    c.check(jobs)


@check('C01', DIGEST_RULE, 'OpenSSL libcrypto computes SHA-2 correctly', 'messages longer than 2^35 bytes are out of reach')
def c01(c):
    digests(c, ['sha2'],
            ['sha224.span.32', 'sha256.span.32', 'sha384.span.32', 'sha512.span.32', 'sha256.chunks.29', 'sha512.chunks.31', 'sha224.chunks.29', 'sha384.chunks.29'],
            ['%s.%s' % (a, k) for a in ('sha224', 'sha256', 'sha384', 'sha512') for k in ('span.33', 'chunks.33')] + ['sha512.chunks.35', 'sha256.span.35'])


@check('C02', DIGEST_RULE + ' All 63 permitted widths t of SHA-512/t (multiples of 8 up to 512, without 384) are instantiated.', 'the own SHA-512/t reference (IV derivation by FIPS 180-4 5.3.6 over OpenSSL-checked SHA-512) is correct; it agrees with OpenSSL for t = 224 and 256')
def c02(c):
    digests(c, ['sha512t'], ['sha512t<%d>.span.%d' % x for x in ((256, 32), (224, 29), (8, 29), (504, 29))], ['sha512t<%d>.%s.32' % (t, k) for t in (8, 224, 256, 512, 504) for k in ('span', 'chunks')], dense=True)


@check('C03', DIGEST_RULE, 'OpenSSL libcrypto computes SHA-3 correctly')
def c03(c):
    digests(c, ['sha3'], ['sha3_%d.span.32' % n for n in (224, 256, 384, 512)] + ['sha3_256.chunks.29', 'sha3_512.chunks.29'], ['sha3_%d.%s.%d' % (n, k, 33) for n in (224, 256, 384, 512) for k in ('span', 'chunks')])


@check('C04', DIGEST_RULE + ' Output lengths: every multiple of 8 bits up to one block and a bit more, the neighbourhood of every block limit up to six blocks, and some up to 16384 bits, for both functions.', 'OpenSSL libcrypto computes SHAKE correctly')
def c04(c):
    digests(c, ['shake'], ['shake128.span.32', 'shake256.span.32', 'shake128.chunks.29', 'shake256.chunks.29'], ['shake%d.%s.33' % (n, k) for n in (128, 256) for k in ('span', 'chunks')], dense=True)


@check('C05', DIGEST_RULE + ' Seeds are drawn among 0, 1, all ones, powers of two and random ones.', 'the own XXH32/XXH64 reference, written from the specification, is correct (it is checked against the published test vectors)')
def c05(c):
    digests(c, ['xxh'], ['xxhash%d.%s.33' % (n, k) for n in (32, 64) for k in ('span', 'chunks')], ['xxhash%d.%s.%d' % (n, k, l) for n in (32, 64) for k in ('span', 'chunks') for l in (33, 35)])


@check('C06', TAPE + ' A history is a sequence of updates of generated lengths (zero, one, up to several blocks), in changing forms, with copies, size() and digests of copies in between; the oracle is the digest of the concatenation. Non-trivial: at least two updates reached the hasher.', 'the references are correct (see C01..C05)')
def c06(c):
    b = c.build([hash_prog(), big_prog(FAMS)])
    if not c.violations:
        c.check(big_jobs(b['big'], ['%s.chunks.%d' % x for x in (('sha256', 29), ('sha512', 29), ('sha512t<256>', 29), ('sha3_256', 29), ('shake256', 29), ('xxhash32', 33), ('xxhash64', 33))])
                + [dict(bin=b['hash'], props=['split2', 'many_updates', 'ops', 'partitions'], scale=8)])


@check('C08', TAPE + ' A case picks an algorithm, an input form (spans of six element types, strings, views, literals, std::array and C arrays, vectors, hash values, custom ranges), an alignment and a length; the digest must be that of the same bytes. Non-trivial: the message is not empty.', 'the references are correct (see C01..C05)')
def c08(c):
    b = c.build([hash_prog(extra=['-DCTH_KINDS=1']), big_prog(FAMS, ['-DCTH_KINDS=1'])])
    if not c.violations:
        c.check(big_jobs(b['big'], ['%s.forms.%d' % (a, n) for a, n in (('sha256', 32), ('sha512', 29), ('sha3_256', 32), ('shake128', 31), ('sha512t<256>', 29), ('xxhash32', 32), ('xxhash64', 32), ('xxhash32', 31), ('xxhash64', 33))]
                         + ([] if not c.thorough else ['%s.forms.33' % a for a in ('sha224', 'sha256', 'sha384', 'sha512', 'sha512t<256>', 'sha3_512', 'shake128', 'shake256')]))
                + [dict(bin=b['hash'], props=['forms'], scale=10)])


@check('C09', TAPE + ' Histories over a set of hashers of different algorithms: update, copy construction, move construction, digests of copies, interleaved between objects, with threads of their own under ThreadSanitizer and with counting of allocations. Non-trivial: at least two live objects, or an update longer than a block for the allocation check.', 'the references are correct (see C01..C05)', 'thread schedules are those of the operating system')
def c09(c):
    p = [hash_prog(main=['-DCOUNT_ALLOCATIONS'], extra=['-DCTH_KINDS=1'])]
    b = c.build(p)
    ts = Program('threads', THREADS.units + algs(FAMS), THREADS.libs)
    tsan = Config('thread sanitizer', opt='-O1', flags=['-fsanitize=thread', '-g1'])
    t = c.build([ts], tsan)
    if c.violations:
        return
    jobs = [dict(bin=b['hash'], props=['slots', 'no_alloc'], scale=4)]
    import subprocess
    env = {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66'}
    r = subprocess.run([t['threads'], '--list'], capture_output=True, text=True, env=dict(os.environ, **env))
    if r.returncode:
        c.notes.append('ThreadSanitizer can not run here (%s); threads are checked without it' % r.stderr[:100])
        t = c.build([ts], LIGHT)
    jobs.append(dict(bin=t["threads"], scale=2, env=env, cfg=tsan, shards=4, racy=True))
    c.check(jobs)


def simple_check(c, prog, props=None, cfg=LIGHT, **kw):
    b = c.build([prog], cfg)
    if b:
        c.check([dict(bin=b[prog.name], props=props, cfg=cfg, **kw)])


@check('C12', TAPE + ' Values are drawn close to each other (equal, one bit or byte apart, swapped), the oracle is lexicographic order of the bytes. Non-trivial: the pair differs somewhere or is equal by construction, not by emptiness.')
def c12(c):
    simple_check(c, VALUE, ['order', 'parts'], scale=4)


@check('C13', TAPE + ' Pairs of SHAKE values of different lengths which agree, or differ at a chosen place, on the common prefix; also real outputs of the same message. Non-trivial: both are not empty.')
def c13(c):
    simple_check(c, VALUE, ['shake_pairs', 'shake_real'], scale=4)


@check('C14', TAPE + ' All inputs of up to two bytes for all encodings, then random ones over ten encodings and generated user-defined ones, eager and lazy views, streams, ranges of byte, char and wide elements; the oracle is a bit-by-bit encoder. Non-trivial: the input is not empty.')
def c14(c):
    simple_check(c, ENCODE, scale=3)


@check('C15', TAPE + ' Ranges of several kinds and element widths cut to chunks of 1..63 bits; a bit FIFO is the model. Non-trivial: the input has at least one bit.')
def c15(c):
    b = c.build([CHUNKS], LIGHT)
    if b:
        c.check([dict(bin=b['chunks'], props=['long_walks'], cfg=LIGHT, shards=4, prio=10, cap=1e9), dict(bin=b['chunks'], cfg=LIGHT, scale=6)])


@check('C16', TAPE + ' One value is written by every route (stream, to_string, to_fixed_string, print_into, format with and without encoding, lazy view), which must agree with each other and with a bit-by-bit encoder. Non-trivial: the value is not empty.')
def c16(c):
    simple_check(c, TEXT, scale=3)


@check('C17', TAPE + ' Names at edit distance one of known names, in char and wide types, all bytes at all places; the oracle is the list of documented names. Non-trivial: the name is not empty.')
def c17(c):
    simple_check(c, NAMES, scale=3)


@check('C21', TAPE + ' One-shot functions of all algorithms against streaming and the reference. Non-trivial: the message is not empty.', 'the references are correct (see C01..C05)')
def c21(c):
    b = c.build([hash_prog(extra=['-DCTH_ONESHOT=1']), big_prog(FAMS, ['-DCTH_ONESHOT=1'])])
    if not c.violations:
        big = ['xxhash32.oneshot.32', 'xxhash64.oneshot.32', 'xxhash32.oneshot.31', 'xxhash64.oneshot.31', 'sha256.oneshot.32', 'sha512.oneshot.29', 'sha3_256.oneshot.29', 'sha512t<224>.oneshot.29']
        if c.thorough:
            big += ['%s.oneshot.32' % a for a in ('sha224', 'sha256', 'sha384', 'sha512', 'sha3_224', 'sha3_512', 'sha512t<256>')] + ['xxhash32.oneshot.33', 'xxhash64.oneshot.35']
        c.check(big_jobs(b['big'], big) + [dict(bin=b['hash'], props=['oneshot'], scale=12)])


@check('C22', TAPE + ' Every pair of digest types of two lists, literals of all suffixes with lengths from 2 to 514 digits in five character types, and generated digests of all widths of SHA-512/t and 58 widths of SHAKE. Non-trivial: pairs of different types, or a message which is not empty.')
def c22(c):
    b = c.build([VALUE, TYPES], LIGHT)
    if not c.violations:
        c.check([dict(bin=b['value'], props=['digest_types', 'type_pairs'], cfg=LIGHT, scale=4), dict(bin=b['types'], cfg=LIGHT, scale=4)])


import extra  # noqa: E402,F401  (registers the others)
extra.register(check, simple_check, TAPE)


def main():
    import argparse
    sys.stdout.reconfigure(encoding='utf-8', errors='backslashreplace')
    sys.stderr.reconfigure(encoding='utf-8', errors='backslashreplace')
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    a = ap.parse_args()
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    f, rule, assumptions = CHECKS[a.pid]
    c = Ctx(a.pid, 'thorough' if a.tier == 'thorough' else 'quick', seed)
    c.rules.append(rule)
    c.assumptions += assumptions
    try:
        f(c)
        sys.exit(c.finish())
    except CheckError as e:
        if c.violations:
            sys.exit(c.finish())
        print('ERROR: %s' % e, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


if __name__ == '__main__':
    main()
