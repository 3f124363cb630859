"""reference results in python: hashlib, and own SHA-512/t, XXH32, XXH64 and encoders"""
import functools, hashlib, struct

M32, M64 = (1 << 32) - 1, (1 << 64) - 1


def _primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _iroot(x, k):
    lo, hi = 0, 1 << ((x.bit_length() // k) + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= x:
            lo = m
        else:
            hi = m - 1
    return lo


K512 = [_iroot(p << 192, 3) & M64 for p in _primes(80)]
IV512 = [_iroot(p << 128, 2) & M64 for p in _primes(8)]


def _rotr(x, n):
    return ((x >> n) | (x << (64 - n))) & M64


def sha512_raw(data, iv):
    h = list(iv)
    n = len(data)
    data = data + b'\x80' + bytes((111 - n) % 128) + struct.pack('>QQ', (n * 8) >> 64, (n * 8) & M64)
    for o in range(0, len(data), 128):
        w = list(struct.unpack('>16Q', data[o:o + 128]))
        for i in range(16, 80):
            a, b = w[i - 15], w[i - 2]
            w.append((w[i - 16] + w[i - 7] + (_rotr(a, 1) ^ _rotr(a, 8) ^ (a >> 7)) + (_rotr(b, 19) ^ _rotr(b, 61) ^ (b >> 6))) & M64)
        a, b, c, d, e, f, g, hh = h
        for i in range(80):
            t1 = (hh + (_rotr(e, 14) ^ _rotr(e, 18) ^ _rotr(e, 41)) + ((e & f) ^ (~e & M64 & g)) + K512[i] + w[i]) & M64
            t2 = ((_rotr(a, 28) ^ _rotr(a, 34) ^ _rotr(a, 39)) + ((a & b) ^ (a & c) ^ (b & c))) & M64
            hh, g, f, e, d, c, b, a = g, f, e, (d + t1) & M64, c, b, a, (t1 + t2) & M64
        h = [(x + y) & M64 for x, y in zip(h, (a, b, c, d, e, f, g, hh))]
    return struct.pack('>8Q', *h)


@functools.lru_cache(None)
def _iv_t(t):
    return struct.unpack('>8Q', sha512_raw(b'SHA-512/%d' % t, [x ^ 0xa5a5a5a5a5a5a5a5 for x in IV512]))


def sha512t(t, data):
    return sha512_raw(data, _iv_t(t))[:t // 8]


def _rotl(x, n, w):
    m = (1 << w) - 1
    return ((x << n) | (x >> (w - n))) & m


def xxh32(data, seed=0):
    P1, P2, P3, P4, P5 = 2654435761, 2246822519, 3266489917, 668265263, 374761393
    n, p = len(data), 0
    if n >= 16:
        v = [(seed + P1 + P2) & M32, (seed + P2) & M32, seed, (seed - P1) & M32]
        while p + 16 <= n:
            for i, l in enumerate(struct.unpack_from('<4I', data, p)):
                v[i] = _rotl((v[i] + l * P2) & M32, 13, 32) * P1 & M32
            p += 16
        h = sum(_rotl(v[i], r, 32) for i, r in enumerate((1, 7, 12, 18))) & M32
    else:
        h = (seed + P5) & M32
    h = (h + n) & M32
    while p + 4 <= n:
        h = _rotl((h + struct.unpack_from('<I', data, p)[0] * P3) & M32, 17, 32) * P4 & M32
        p += 4
    while p < n:
        h = _rotl((h + data[p] * P5) & M32, 11, 32) * P1 & M32
        p += 1
    h = (h ^ (h >> 15)) * P2 & M32
    h = (h ^ (h >> 13)) * P3 & M32
    return struct.pack('>I', h ^ (h >> 16))


def xxh64(data, seed=0):
    P1, P2, P3, P4, P5 = 11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261
    n, p = len(data), 0
    rnd = lambda a, l: _rotl((a + l * P2) & M64, 31, 64) * P1 & M64
    if n >= 32:
        v = [(seed + P1 + P2) & M64, (seed + P2) & M64, seed, (seed - P1) & M64]
        while p + 32 <= n:
            for i, l in enumerate(struct.unpack_from('<4Q', data, p)):
                v[i] = rnd(v[i], l)
            p += 32
        h = sum(_rotl(v[i], r, 64) for i, r in enumerate((1, 7, 12, 18))) & M64
        for x in v:
            h = ((h ^ rnd(0, x)) * P1 + P4) & M64
    else:
        h = (seed + P5) & M64
    h = (h + n) & M64
    while p + 8 <= n:
        h = (_rotl(h ^ rnd(0, struct.unpack_from('<Q', data, p)[0]), 27, 64) * P1 + P4) & M64
        p += 8
    if p + 4 <= n:
        h = (_rotl(h ^ (struct.unpack_from('<I', data, p)[0] * P1 & M64), 23, 64) * P2 + P3) & M64
        p += 4
    while p < n:
        h = _rotl(h ^ (data[p] * P5 & M64), 11, 64) * P1 & M64
        p += 1
    h = (h ^ (h >> 33)) * P2 & M64
    h = (h ^ (h >> 29)) * P3 & M64
    return struct.pack('>Q', h ^ (h >> 32))


def digest(alg, data, bits=0, seed=0):
    """alg: sha224.. sha512, sha512t:<t>, sha3_224.., shake128/256 (bits), xxhash32/64 (seed)"""
    if alg.startswith('sha512t:'):
        return sha512t(int(alg[8:]), data)
    if alg.startswith('shake'):
        return hashlib.new('shake_' + alg[5:], data).digest(bits // 8)
    if alg == 'xxhash32':
        return xxh32(data, seed)
    if alg == 'xxhash64':
        return xxh64(data, seed)
    return hashlib.new(alg, data).digest()


B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
B32 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'
# name -> (bits, alphabet, padding, accepted names)
ENC = {
    'base64': (6, B64 + '+/', True, ['base64']),
    'base64_no_padding': (6, B64 + '+/', False, ['base64_no_padding']),
    'base64url': (6, B64 + '-_', False, ['base64url', 'base64_url']),
    'base32': (5, B32, True, ['base32']),
    'base32_no_padding': (5, B32, False, ['base32_no_padding']),
    'z_base32': (5, 'ybndrfg8ejkmcpqxot1uwisza345h769', False, ['z_base32', 'zbase32']),
    'base16': (4, '0123456789abcdef', False, ['base16', 'hexdec']),
    'base16_uppercase': (4, '0123456789ABCDEF', False, ['BASE16', 'HEXDEC']),
    'base8': (3, '01234567', True, ['base8', 'octal']),
    'base4': (2, '0123', False, ['base4']),
    'base2': (1, '01', False, ['base2', 'binary']),
}


def encode(enc, data):
    bits, alphabet, pad, _ = ENC[enc]
    s = ''.join('{:08b}'.format(b) for b in data)
    out = ''
    for i in range(0, len(s), bits):
        out += alphabet[int(s[i:i + bits].ljust(bits, '0'), 2)]
    if pad:
        group = {6: 4, 5: 8, 3: 8}[bits]
        out += '=' * (-len(out) % group)
    return out


if __name__ == '__main__':
    import base64, os
    assert xxh32(b'abc').hex() == '32d153ff' and xxh64(b'abc').hex() == '44bc2cf5ad770999'
    for n in (0, 1, 55, 111, 112, 113, 127, 128, 129, 300):
        d = os.urandom(n)
        for t in (224, 256):
            assert sha512t(t, d) == hashlib.new('sha512_%d' % t, d).digest()
        assert encode('base64', d) == base64.b64encode(d).decode() and encode('base32', d) == base64.b32encode(d).decode()
    print('ok')
