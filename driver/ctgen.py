"""generator of programs which compute the same thing in constant evaluation and at run time"""
import concurrent.futures as cf, copy, os, random, re, subprocess
import refs

# name -> (C++ type, block size in bytes, family)
ALGS = {'sha224': ('cthash::sha224', 64, 'f'), 'sha256': ('cthash::sha256', 64, 'f'), 'sha384': ('cthash::sha384', 128, 'f'), 'sha512': ('cthash::sha512', 128, 'f'),
        'sha3_224': ('cthash::sha3_224', 144, 'f'), 'sha3_256': ('cthash::sha3_256', 136, 'f'), 'sha3_384': ('cthash::sha3_384', 104, 'f'), 'sha3_512': ('cthash::sha3_512', 72, 'f'),
        'shake128': ('cthash::shake128', 168, 's'), 'shake256': ('cthash::shake256', 136, 's'),
        'xxhash32': ('cthash::xxhash32', 16, 'x'), 'xxhash64': ('cthash::xxhash64', 32, 'x')}
SUFFIX = {'sha224': '_sha224', 'sha256': '_sha256', 'sha384': '_sha384', 'sha512': '_sha512', 'sha512t:224': '_sha512_224', 'sha512t:256': '_sha512_256',
          'sha3_224': '_sha3_224', 'sha3_256': '_sha3_256', 'sha3_384': '_sha3_384', 'sha3_512': '_sha3_512',
          'shake128': '_shake128', 'shake256': '_shake256', 'xxhash32': '_xxh32', 'xxhash64': '_xxh64', '': '_hash'}
CHARS = {'char': '', 'char8_t': 'u8', 'char16_t': 'u', 'char32_t': 'U', 'wchar_t': 'L'}

PRELUDE = r'''
#ifdef CTH_SINGLE
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <span>
#include <string>
#include <string_view>
#include <vector>
using namespace cthash::literals;
template <size_t N> struct R {
	std::array<unsigned char, N> b{};
	size_t n{};
	constexpr void one(unsigned char c) {
		if (n < N) b[n] = c;
		++n;
	}
	template <size_t K> constexpr void digest(const std::array<std::byte, K> & v) {
		for (auto c: v) one(static_cast<unsigned char>(c));
	}
	template <typename T> constexpr void bytes(const T & v) {
		for (auto c: v) one(static_cast<unsigned char>(c));
	}
	template <typename V> constexpr void text(const V & v) {
		for (auto i = v.begin(); !(i == v.end()); ++i) one(static_cast<unsigned char>(*i));
	}
	constexpr void number(unsigned long long v) {
		for (int i = 0; i != 8; ++i) one(static_cast<unsigned char>(v >> (8 * i)));
	}
	constexpr void order(std::strong_ordering o) { one(o < 0 ? 0 : o == 0 ? 1 : 2); }
};
static int bad = 0;
static void show(const unsigned char * p, size_t n) {
	for (size_t i = 0; i != n; ++i) printf("%02x", p[i]);
}
template <size_t N> void check(int id, const R<N> * ct, R<N> (*volatile f)(), const char * expected) {
	const auto rt = f();
	std::string r;
	for (size_t i = 0; i < rt.n && i < N; ++i) {
		r += "0123456789abcdef"[rt.b[i] >> 4];
		r += "0123456789abcdef"[rt.b[i] & 15];
	}
	const bool same = !ct || (rt.n == ct->n && rt.b == ct->b);
	const bool right = rt.n <= N && r == expected;
	if (same && right) return;
	bad = 1;
	printf("CASE %d %s %s\n  run time:     %s\n  compile time: ", id, same ? "same" : "DIFFERENT", right ? "right" : "WRONG", r.c_str());
	if (ct) show(ct->b.data(), ct->n < N ? ct->n : N);
	printf("\n  expected:     %s\n", expected);
}
'''

FORMS = ['lit', 'lit8', 'sv', 'u8sv', 'arr:std::byte', 'arr:unsigned char', 'arr:char', 'arr:char8_t', 'arr:signed char', 'span:std::byte', 'span:unsigned char', 'span:char', 'fspan:std::byte', 'fspan:unsigned char',
         'mspan:std::byte', 'mspan:char', 'sub:std::byte', 'sub:unsigned char', 'sub:char', 'carr:std::byte', 'carr:unsigned char', 'carr:signed char', 'vec:std::byte', 'vec:unsigned char', 'vec:char', 'hv']


def esc(b):
    return ''.join('\\%03o' % c for c in b)


def elems(t, b):
    if t == 'std::byte':
        return ','.join('std::byte{%d}' % c for c in b)
    if t in ('char', 'signed char'):
        return ','.join("static_cast<%s>(%d)" % (t, c) for c in b)
    return ','.join(str(c) for c in b)


def emit_input(form, b, k):
    """returns (statements, expression)"""
    n = len(b)
    f, _, t = form.partition(':')
    if f == 'lit':
        return '', '"%s"' % esc(b)
    if f == 'lit8':
        return '', 'u8"%s"' % esc(b)
    if f == 'sv':
        return '', 'std::string_view("%s", %d)' % (esc(b), n)
    if f == 'u8sv':
        return '', 'std::u8string_view(u8"%s", %d)' % (esc(b), n)
    if f == 'str':
        return '', 'std::string("%s", %d)' % (esc(b), n)
    if f == 'u8str':
        return '', 'std::u8string(u8"%s", %d)' % (esc(b), n)
    if f == 'carr':
        if n == 0:
            return emit_input('arr:' + t, b, k)
        return 'const %s a%d[%d]{%s};' % (t, k, n, elems(t, b)), 'a%d' % k
    if f == 'vec':
        return '', 'std::vector<%s>{%s}' % (t, elems(t, b))
    if f == 'hv':
        if n == 0:
            return emit_input('arr:std::byte', b, k)
        return 'cthash::hash_value<%d> v%d{std::array<std::byte, %d>{%s}};' % (n, k, n, elems('std::byte', b)), 'v%d' % k
    pre, post = (b'', b'')
    if f == 'sub':
        pre, post = bytes([7] * (1 + n % 5)), bytes([9] * (n % 3))
    decl = '%sstd::array<%s, %d> a%d{%s};' % ('' if f == 'mspan' else 'const ', t, len(pre + b + post), k, elems(t, pre + b + post))
    if f == 'arr':
        return decl, 'a%d' % k
    if f == 'fspan':
        return decl, 'std::span<const %s, %d>(a%d)' % (t, n, k)
    if f == 'mspan':
        return decl, 'std::span<%s>(a%d)' % (t, k)
    if f == 'span':
        return decl, 'std::span<const %s>(a%d)' % (t, k)
    return decl, 'std::span<const %s>(a%d).subspan(%d, %d)' % (t, k, len(pre), n)


def alg_type(a):
    return 'cthash::sha512t<%s>' % a[8:] if a.startswith('sha512t:') else ALGS[a][0]


def block(a):
    return 128 if a.startswith('sha512t:') else ALGS[a][1]


def fam(a):
    return 'f' if a.startswith('sha512t:') else ALGS[a][2]


# ---- generation ----
def gen_bytes(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return bytes(n)
    if k == 1:
        return bytes([rng.choice([0xff, 0x80, 0x7f])] * n)
    if k == 2:
        return bytes(rng.choice(b'abcdefgh XYZ0189') for _ in range(n))
    if k == 3:
        return bytes(rng.choice([0, 0x80, 0xff, 0x7f, 1, 0xc3, 0xe2]) for _ in range(n))
    return rng.randbytes(n)


def gen_len(rng, a, used=0):
    b = block(a)
    k = rng.randrange(7)
    if k == 0:
        return rng.randrange(0, 4)
    if k == 1:
        return rng.randrange(0, b)
    if k == 2:
        return max(0, (-used) % b + rng.choice([-1, 0, 1]))
    if k == 3:
        return max(0, b - (16 if b == 128 else 8) - used % b + rng.choice([-2, -1, 0, 1]))
    if k == 4:
        return b + rng.randrange(0, 20)
    if k == 5:
        return rng.randrange(0, 2 * b + 10)
    return rng.randrange(0, 40)


def gen_alg(rng):
    if rng.randrange(6) == 0:
        return 'sha512t:%d' % rng.choice([224, 256, 8, 64, 128, 72, 504, 512, 264, 8 * rng.randrange(1, 48)])
    return rng.choice(list(ALGS))


KINDS = ['stream'] * 8 + ['simple'] * 3 + ['text'] * 3 + ['literal', 'cmp', 'shake_cmp', 'encbytes', 'encbytes', 'encname', 'parts', 'ranges']


def formula(x, n):
    o = bytearray()
    for _ in range(n):
        x = (x * 1664525 + 1013904223) & 0xffffffff
        o.append(x >> 24)
    return bytes(o)


def gen_long(rng):
    """messages of up to hundreds of blocks"""
    a = rng.choice(['xxhash32', 'xxhash64']) if rng.randrange(3) == 0 else gen_alg(rng)
    b = block(a)
    limit = 70000 if fam(a) == 'x' else 5000 if a.startswith('sha3') else 8000 if fam(a) == 's' else 9000 if b == 64 else 12000
    most = min(limit, 300 * b) if rng.randrange(2) else min(limit, 4000)
    n = rng.choice([rng.randrange(most), 256 * b + rng.randrange(-2, 40), 4096 + rng.randrange(-2, 3), 65536 + rng.randrange(-2, 300)])
    if n > limit:
        n = rng.randrange(limit)
    cuts = sorted(rng.randrange(n + 1) for _ in range(rng.choice([0, 0, 1, 2])))
    w = 32 if a == 'xxhash32' else 64
    return {'kind': 'long', 'alg': a, 'n': n, 'cuts': cuts, 'x': rng.getrandbits(32), 'elem': rng.choice(['std::byte', 'unsigned char', 'char', 'char8_t', 'signed char']),
            'bits': rng.choice([256, 8, 1600, 4096]) if fam(a) == 's' else 0, 'seed': rng.choice([0, rng.getrandbits(w)]) if fam(a) == 'x' else 0, 'simple': not cuts and fam(a) != 's' and rng.randrange(2) == 0}


def gen_case(rng, kinds=None):
    kind = rng.choice(kinds or KINDS)
    c = {'kind': kind}
    if kind in ('stream', 'simple', 'text'):
        a = c['alg'] = gen_alg(rng)
        c['bits'] = rng.choice([8, 64, 128, 256, 512, 1088, 1344, 1352, 1096, 2048, 8 * rng.randrange(1, 200)]) if fam(a) == 's' else 0
        w = 32 if a == 'xxhash32' else 64
        c['seed'] = rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), rng.getrandbits(w)]) if fam(a) == 'x' else 0
    if kind == 'stream':
        used, c['ops'] = 0, []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
            k = rng.randrange(12)
            if k == 0:
                c['ops'].append(['peek'])
            elif k == 1:
                c['ops'].append(['size'])
            elif k == 2:
                c['ops'].append(['fork'])
            else:
                n = min(gen_len(rng, a, used), 400)
                c['ops'].append(['u', rng.choice(FORMS), gen_bytes(rng, n)])
                used += n
        c['into'] = rng.randrange(4) == 0
    elif kind == 'simple':
        n = min(gen_len(rng, a), 400)
        c['form'], c['data'] = rng.choice(FORMS), gen_bytes(rng, n)
        c['uaf'] = rng.randrange(2) == 0
    elif kind == 'text':
        c['data'] = gen_bytes(rng, rng.randrange(0, 20))
        c['enc'] = rng.choice(list(refs.ENC))
        c['ct'] = rng.choice(['char', 'char', 'char8_t', 'char16_t', 'char32_t', 'wchar_t'])
        c['route'] = rng.choice(['to_fixed_string', 'to_string', 'view', 'named_view', 'default'])
        if c['route'] == 'to_string':
            c['gcc_only'] = True  # std::string of libstdc++ isn't usable in constant evaluation by clang
        if c['bits'] > 512 and rng.randrange(3):
            c['bits'] = 512
    elif kind == 'literal':
        s = rng.choice(list(SUFFIX))
        n = {'': rng.choice([1, 2, 16, 33, 130, 260]), 'shake128': rng.choice([1, 16, 64, 129, 168]), 'shake256': rng.choice([1, 32, 40, 257])}.get(s)
        if n is None:
            n = len(refs.digest(s, b''))
        c.update(suffix=s, data=gen_bytes(rng, n), ct=rng.choice(list(CHARS)), case=rng.randrange(1 << 30))
    elif kind in ('cmp', 'parts', 'ranges'):
        n = rng.choice([1, 4, 8, 20, 28, 32, 48, 64, rng.randrange(1, 70), rng.randrange(1, 70), rng.choice([127, 128, 129, 200, 255, 256, 257, rng.randrange(64, 300)])])
        x = gen_bytes(rng, n)
        y = bytearray(x)
        for _ in range(rng.choice([0, 1, 1, 2])):
            y[rng.choice([rng.randrange(n), n - 1, n // 2])] = rng.choice([0, 0x7f, 0x80, 0xff, rng.randrange(256)])
        c.update(x=x, y=bytes(y), ct=rng.choice(list(CHARS)), k=rng.randrange(0, n + 1))
    elif kind == 'shake_cmp':
        some = [1, 8, 16, 32, 33, 64, 65] if rng.randrange(3) else [16, 127, 128, 129, 200, 255, 256, 257, 300]
        nx, ny = rng.choice(some), rng.choice(some)
        x = gen_bytes(rng, nx)
        y = bytearray((x + gen_bytes(rng, 300))[:ny])
        if rng.randrange(2):
            y[rng.randrange(ny)] ^= rng.choice([1, 0x80, 0xff])
        c.update(x=x, y=bytes(y), which=rng.choice([128, 256]))
    elif kind == 'encbytes':
        c.update(data=gen_bytes(rng, rng.randrange(0, 24) if rng.randrange(6) else rng.randrange(60, 300)), enc=rng.choice(list(refs.ENC)), elem=rng.choice(['std::byte', 'unsigned char', 'char', 'char8_t', 'signed char']), cont=rng.choice(['array', 'span', 'vector']))
        if c['elem'] in ('char', 'char8_t', 'signed char') and c['enc'].startswith(('base32', 'z_')):
            c['elem'] = 'unsigned char'
    elif kind == 'encname':
        names = [n for e in refs.ENC.values() for n in e[3]]
        c.update(name=rng.choice(names), data=gen_bytes(rng, 5), ct=rng.choice(list(CHARS)), tail=rng.choice(['', '}', '} rest']), via=rng.choice(['ctor', 'select']))
        if c['via'] == 'ctor':
            c['ct'], c['tail'] = 'char', ''
    return c


def hexcase(b, r):
    rr = random.Random(r)
    return ''.join(rr.choice([x.lower(), x.upper()]) for x in b.hex())


NAMED = {'base2': 'binary_encode', 'base4': 'base4_encode', 'base8': 'octal_encode', 'base16': 'hexdec_encode', 'base16_uppercase': 'hexdec_uppercase_encode', 'base32': 'base32_encode',
         'base32_no_padding': 'base32_no_padding_encode', 'z_base32': 'z_base32_encode', 'base64': 'base64_encode', 'base64url': 'base64url_encode', 'base64_no_padding': 'base64_no_padding_encode'}


def emit(c):
    """returns (C++ statements filling r, expected bytes)"""
    k = c['kind']
    s, e = [], b''
    if k in ('stream', 'simple', 'text', 'long'):
        a, t = c['alg'], alg_type(c['alg'])
        ctor = '(%dull)' % c['seed'] if fam(a) == 'x' and (c['seed'] or k == 'stream') else '{}'
        if a == 'xxhash32' and ctor != '{}':
            ctor = '(%du)' % c['seed']
        fin = '.final<%d>()' % c['bits'] if fam(a) == 's' else '.final()'
        ref = lambda d: refs.digest(a, d, c['bits'], c['seed'])
    if k == 'stream':
        s.append('auto h = %s%s;' % (t, ctor) if ctor == '{}' else 'auto h = %s%s;' % (t, ctor))
        msg, forks, var, i = b'', [], 'h', 0
        for op in c['ops']:
            i += 1
            if op[0] == 'u':
                st, ex = emit_input(op[1], op[2], i)
                s.append(st)
                s.append('%s.update(%s);' % (var, ex))
                msg += op[2]
            elif op[0] == 'peek':
                s.append('{ auto c = %s; r.digest(c%s); }' % (var, fin))
                e += ref(msg)
            elif op[0] == 'size' and a.startswith('sha') and fam(a) == 'f' and not a.startswith('sha3'):
                s.append('r.number(%s.size());' % var)
                e += len(msg).to_bytes(8, 'little')
            elif op[0] == 'fork':
                new = 'h%d' % i
                s.append('auto %s = %s; %s.update("x");' % (new, var, var))
                forks.append((var, msg + b'x'))
                var = new
        for v, m in forks + [(var, msg)]:
            if c['into'] and fam(a) != 's':
                s.append('{ std::array<std::byte, %d> o{}; %s.final(std::span<std::byte, %d>(o)); r.bytes(o); }' % (len(ref(m)), v, len(ref(m))))
            else:
                s.append('r.digest(%s%s);' % (v, fin))
            e += ref(m)
    elif k == 'long':
        m = formula(c['x'], c['n'])
        s.append('std::array<%s, %d> a{}; unsigned x = %du; for (auto & b: a) { x = x * 1664525u + 1013904223u; b = static_cast<%s>(x >> 24u); }' % (c['elem'], c['n'], c['x'], c['elem']))
        s.append('const auto v = std::span<const %s>(a);' % c['elem'])
        if c['simple']:
            s.append('r.digest(cthash::simple<%s>(v%s));' % (t, '' if ctor == '{}' else ', ' + ctor[1:-1]))
        else:
            s.append('auto h = %s%s;' % (t, ctor))
            at = 0
            for cut in c['cuts'] + [c['n']]:
                s.append('h.update(v.subspan(%d, %d));' % (at, cut - at))
                at = cut
            s.append('r.digest(h%s);' % fin)
        e += ref(m)
    elif k == 'simple':
        st, ex = emit_input(c['form'], c['data'], 1)
        s.append(st)
        if fam(a) == 's':
            s.append('r.digest(%s%s.update(%s)%s);' % (t, ctor, ex, fin))
        elif fam(a) == 'x' and c['uaf']:
            s.append('r.digest(%s%s.update_and_final(%s));' % (t, ctor, ex))
        elif fam(a) == 'x' and ctor != '{}':
            s.append('r.digest(cthash::simple<%s>(%s, %s));' % (t, ex, ctor[1:-1]))
        else:
            s.append('r.digest(cthash::simple<%s>(%s));' % (t, ex))
        e += ref(c['data'])
    elif k == 'text':
        st, ex = emit_input('sv', c['data'], 1)
        s.append('const auto d = %s%s.update(%s)%s;' % (t, ctor, ex, fin))
        enc = 'cthash::encoding::' + c['enc']
        d = ref(c['data'])
        rt = c['route']
        if rt == 'to_fixed_string':
            s.append('r.text(to_fixed_string<%s, %s>(d));' % (enc, c['ct']))
        elif rt == 'to_string':
            s.append('r.text(to_string<%s, %s>(d));' % (enc, c['ct']))
        elif rt == 'view':
            s.append('r.text(d | cthash::encode_to<%s, %s>);' % (enc, c['ct']))
        elif rt == 'named_view':
            s.append('r.text(d | cthash::%s);' % NAMED[c['enc']])
        else:
            s.append('r.text(to_fixed_string(d));')
        e += refs.encode(c['enc'] if rt != 'default' else 'base16', d).encode()
    elif k == 'literal':
        s.append('r.digest(%s"%s"%s);' % (CHARS[c['ct']], hexcase(c['data'], c['case']), SUFFIX[c['suffix']]))
        e += c['data']
    elif k == 'cmp':
        p = CHARS[c['ct']]
        s.append('const auto x = cthash::hash_value(%s"%s"), y = cthash::hash_value(%s"%s");' % (p, c['x'].hex(), p, c['y'].hex()))
        s.append('r.digest(x); r.digest(y); r.one(x == y); r.one(x != y); r.one(x < y); r.one(x > y); r.one(x <= y); r.one(x >= y); r.order(x <=> y); r.order(y <=> x); r.order(x <=> x);')
        x, y = c['x'], c['y']
        o = lambda u, v: 0 if u < v else 1 if u == v else 2
        e += x + y + bytes([x == y, x != y, x < y, x > y, x <= y, x >= y, o(x, y), o(y, x), 1])
    elif k == 'parts':
        n = len(c['x'])
        s.append('const auto x = cthash::hash_value("%s"); r.digest(x.prefix<%d>()); r.digest(x.suffix<%d>());' % (c['x'].hex(), c['k'], c['k']))
        e += c['x'][:c['k']] + c['x'][n - c['k']:]
    elif k == 'ranges':
        # a value is a range of bytes in constant expressions too
        s.append('auto x = cthash::hash_value<%d>{}; r.digest(x); x = cthash::hash_value("%s"); for (auto b: x) r.one(static_cast<unsigned char>(b)); r.one(static_cast<unsigned char>(x[%d])); r.number(x.size());' % (len(c['x']), c['x'].hex(), len(c['x']) - 1))
        e += bytes(len(c['x'])) + c['x'] + c['x'][-1:] + len(c['x']).to_bytes(8, 'little')
    elif k == 'shake_cmp':
        w = c['which']
        s.append('const auto x = "%s"_shake%d; const auto y = "%s"_shake%d;' % (c['x'].hex(), w, c['y'].hex(), w))
        s.append('r.one(x == y); r.one(x != y); r.one(x < y); r.one(x > y); r.one(x <= y); r.one(x >= y); r.order(x <=> y);')
        n = min(len(c['x']), len(c['y']))
        x, y = c['x'][:n], c['y'][:n]
        e += bytes([x == y, x != y, x < y, x > y, x <= y, x >= y, 0 if x < y else 1 if x == y else 2])
    elif k == 'encbytes':
        n, t = len(c['data']), c['elem']
        decl = {'array': 'const std::array<%s, %d> a{%s};' % (t, n, elems(t, c['data'])), 'span': 'const std::array<%s, %d> b{%s}; const auto a = std::span<const %s>(b);' % (t, n, elems(t, c['data']), t), 'vector': 'const auto a = std::vector<%s>{%s};' % (t, elems(t, c['data']))}[c['cont']]
        s.append(decl + ' r.text(a | cthash::encode_to<cthash::encoding::%s, char>);' % c['enc'])
        s.append('r.number((a | cthash::encode_to<cthash::encoding::%s, char>).size());' % c['enc'])
        t = refs.encode(c['enc'], c['data'])
        e += t.encode() + len(t).to_bytes(8, 'little')
    elif k == 'encname':
        enc = [x for x, v in refs.ENC.items() if c['name'] in v[3]][0]
        s.append('const std::array<unsigned char, %d> a{%s};' % (len(c['data']), elems('unsigned char', c['data'])))
        if c['via'] == 'ctor':
            s.append('const auto en = cthash::runtime_encoding(std::string_view("%s"));' % c['name'])
        else:
            p = CHARS[c['ct']]
            s.append('const auto res = cthash::select_encoding<cthash::runtime_encoding>(std::basic_string_view<%s>(%s"%s%s")); const auto en = res.encoding;' % (c['ct'], p, c['name'], c['tail']))
        s.append('en.visit([&]<typename E>(E) { r.text(std::span<const unsigned char>(a) | cthash::encode_to<E, char>); });')
        e += refs.encode(enc, c['data']).encode()
    return ' '.join(x for x in s if x), e


def nontrivial(c):
    k = c['kind']
    if k == 'stream':
        return any(o[0] == 'u' and o[2] for o in c['ops'])
    if k in ('simple', 'text', 'encbytes'):
        return len(c['data']) > 0
    if k == 'long':
        return c['n'] > 0
    return True


def describe(c):
    return emit(c)[0]


def program(cases):
    out = [PRELUDE]
    main = []
    for i, c in enumerate(cases):
        body, exp = emit(c)
        n = max(8, len(exp) + 16)
        out.append('constexpr R<%d> f%d() { R<%d> r{}; %s return r; }' % (n, i, n, body))
        out.append('#ifndef NO_CT\nconstexpr auto c%d = f%d();\n#define P%d &c%d\n#else\n#define P%d nullptr\n#endif' % (i, i, i, i, i))
        main.append('\tcheck<%d>(%d, P%d, &f%d, "%s");' % (n, i, i, i, exp.hex()))
    out.append('int main() {\n%s\n\treturn bad;\n}\n' % '\n'.join(main))
    return '\n'.join(out)


def high_limits(cxx):
    return ['-fconstexpr-steps=500000000', '-fbracket-depth=2048'] if 'clang' in cxx else ['-fconstexpr-ops-limit=10000000000', '-fconstexpr-loop-limit=100000000', '-fconstexpr-cache-depth=8']


class Runner:
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg, self.n = ctx, cfg, 0

    def attempt(self, cases, extra=()):
        """returns ('ok'|'compile'|'run', text, {case: verdict})"""
        with self.ctx.lock:
            self.n += 1
            base = os.path.join(self.ctx.dir, 'ct-%d-%d' % (id(self), self.n))
        with open(base + '.cpp', 'w') as f:
            f.write(program(cases))
        cmd = self.cfg.cmd() + high_limits(self.cfg.cxx) + list(extra) + [base + '.cpp', '-o', base]
        for t in range(3):
            r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=dict(os.environ, TMPDIR=self.ctx.dir))
            if r.returncode == 0 or not any(x in r.stderr for x in ('Killed', 'No space left', 'out of memory', 'bad_alloc')):
                break
        if r.returncode:
            return 'compile', ' '.join(cmd) + '\n' + r.stderr, {}
        r = subprocess.run([base], capture_output=True, text=True, errors='replace')
        for x in ('.cpp', ''):
            os.unlink(base + x)
        v = {int(m.group(1)): (m.group(2), m.group(3)) for m in re.finditer(r'^CASE (\d+) (\w+) (\w+)', r.stdout, re.M)}
        if r.returncode == 0:
            return 'ok', '', {}
        if r.returncode == 1 and v:
            return 'run', r.stdout, v
        return 'run', r.stdout + r.stderr + ' (exit %d)' % r.returncode, {i: ('CRASH', 'WRONG') for i in range(len(cases))}

    def verdict(self, case):
        """None: holds; otherwise text.  Only a difference of compile time and run time counts."""
        st, text, v = self.attempt([case])
        if st == 'ok':
            return None
        if st == 'run':
            return text if v.get(0, ('', ''))[0] == 'DIFFERENT' else None
        st2, text2, v2 = self.attempt([case], ['-DNO_CT'])
        if st2 == 'ok':
            return 'is not a constant expression, but works at run time\n' + text
        if st2 == 'run':
            return None  # wrong at run time and not constant: some other property
        return None  # not valid at all


def smaller(c):
    """simpler variants of a case"""
    out = []

    def v(**kw):
        d = copy.deepcopy(c)
        d.update(kw)
        out.append(d)
    if c['kind'] == 'stream':
        ops = c['ops']
        for i in range(len(ops)):
            v(ops=ops[:i] + ops[i + 1:])
        for i, o in enumerate(ops):
            if o[0] == 'u':
                for b in (o[2][:len(o[2]) // 2], o[2][:-1], bytes(len(o[2]))):
                    if b != o[2]:
                        v(ops=ops[:i] + [['u', o[1], b]] + ops[i + 1:])
                if o[1] != 'sv':
                    v(ops=ops[:i] + [['u', 'sv', o[2]]] + ops[i + 1:])
        if c['into']:
            v(into=False)
    if c['kind'] == 'long':
        if c['cuts']:
            v(cuts=c['cuts'][1:])
        if not c['cuts']:
            for n in (c['n'] // 2, c['n'] - 1000, c['n'] - 100, c['n'] - 10, c['n'] - 1):
                if 0 <= n < c['n']:
                    v(n=n)
    if c['kind'] in ('simple', 'text', 'encbytes'):
        d = c['data']
        for b in (d[:len(d) // 2], d[:-1], bytes(len(d))):
            if b != d:
                v(data=b)
    if c.get('form') not in (None, 'sv'):
        v(form='sv')
    if c.get('seed'):
        v(seed=0)
    if c.get('bits', 0) > 8:
        v(bits=8)
    return out


def shrink(run, case, budget=60):
    with cf.ThreadPoolExecutor(8) as ex:
        while budget > 0:
            cand = smaller(case)[:budget]
            budget -= len(cand)
            best = None
            for c, r in zip(cand, ex.map(run.verdict, cand)):
                if r and best is None:
                    best = c
            if best is None:
                break
            case = best
    return case
