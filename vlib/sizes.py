"""Cases that are long, wide or deep: what holds for a few must hold for many."""
import random
from . import data as D, trees as T
from .run import case, evalstr


def enc(s):
    return s if isinstance(s, bytes) else s.encode('utf-8')


# characters that some call a line break or a space
ODD = ['\f', '\v', '\r', '\n\r', '\r\n', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\xa0', '\ufeff', '\b', '\x7f', '\x1b', '\t', '\u200b', '\u3000', '\x01']


def dm(**kw):
    return [(k.encode(), v) for k, v in kw.items()]


def ev(src, data=()):
    return evalstr(enc(src), list(data))


def edges(r, top, n):
    """the top, and n sizes at and next to powers of two and ten below it"""
    es = sorted({k + d for b in (2, 10) for e in range(3, 18) for k in (b ** e,) for d in (-1, 0, 1) if 6 < k + d < top})
    return sorted(r.sample(es, min(n, len(es))) + [top])


def ints(n):
    return D.l_([D.i_(k) for k in range(n)])


def c01(r, big):
    for n in edges(r, 400, 4 * big):
        yield ev('{{ %s }}' % ' + '.join(str(k) for k in range(n)))
        yield ev('{{ %s }}' % ' - '.join('(a * %d)' % k for k in range(n // 4)), dm(a=D.i_(3)))
        yield ev('{{ %s }}' % ' + '.join('"%d"' % k for k in range(n)))
        yield ev('{{ a%s }}' % ' == 1 ? 2 : a'.join([''] * (n // 4)), dm(a=D.i_(3)))
    for n in edges(r, 120, 2 * big):
        yield ev('{{ %s1%s }}' % ('(2 - ' * n, ')' * n))
        yield ev('{{ %sa }}' % ('-' + ' -' * (n - 1)), dm(a=D.i_(3)))
        yield ev('{{ a%s }}' % (' ++' * n), dm(a=D.i_(3)))
        yield ev('{{ a%s }}' % ('[0]' * n), dm(a=D.l_([D.l_([])])))
    for n in edges(r, 60, 3 * big):
        yield ev('{{ %s7 }}|{{ 1.%s5 }}|{{ %s.5 }}' % ('0' * n, '0' * n, '1' * n))
    for n in edges(r, 300, 3 * big):
        v = 'v' * n
        yield ev('{{ %s = 4 }}{{ %s + %sx }}' % (v, v, v), [(enc(v + 'x'), D.i_(5))])
    for n in edges(r, 3000, 3 * big):
        s = ''.join(r.choice('ab c') for _ in range(n))
        yield ev('{{ s + "%s" == t }}{{ s == t }}{{ s != u }}' % s[-3:], dm(s=D.s_(s[:-3]), t=D.s_(s), u=D.s_(s[:-4] + '.')))


def c02(r, big):
    for n in edges(r, 300, 3 * big):
        for k in (0, n // 2, n):
            yield ev('@if(v == 0)B0%s@else E@end' % ''.join('@elseif(v == %d)B%d' % (j, j) for j in range(1, n)), dm(v=D.i_(k)))
    for n in edges(r, 100, 3 * big):
        yield ev(''.join('@if(v > %d)%d' % (j, j) for j in range(n)) + '@else x@end' * n, dm(v=D.i_(r.choice([0, 1, n // 2, n]))))
        yield ev(''.join('@if(v == %d)%d@end' % (j, j) for j in range(n)), dm(v=D.i_(n // 2)))
        yield ev('@if(%sv)t@else f@end{{ %sv ? 1 : 2 }}' % ('!' * n, '!' * n), dm(v=D.b_(True)))
    for n in edges(r, 4000, 3 * big):
        yield ev('@if(s)t@else f@end@if(l)t@else f@end@if(t)%s@else n@end' % ('y' * n), dm(s=D.s_(' ' * n), l=ints(n // 8), t=D.i_(n)))
    for e in range(0, 64, 7):
        yield ev('@if(v)t@else f@end{{ v ? 1 : 2 }}@if(w)t@else f@end', dm(v=D.i_(2 ** min(e, 62)), w=D.f_(2.0 ** -e)))


def c03(r, big):
    for n in edges(r, 1100, 3 * big):
        yield ev('@each(v in a)@if(loop.last){{ v }}:{{ loop.index }}:{{ loop.iter }}:{{ loop.first }}@end@end', dm(a=ints(n)))
        yield ev('@each(v in a)@continueIf(v != %d){{ v }}:{{ loop.index }}:{{ loop.iter }}@break@end' % (n - 2), dm(a=ints(n)))
        yield ev('@for(i = 0; i < n; i++)@if(i > n - 3){{ i }},@end@end', dm(n=D.i_(n)))
        yield ev('@for(i = n; i > 0; i--)@breakIf(i < 3)@if(i < 6){{ i }},@end@end', dm(n=D.i_(n)))
    for n in edges(r, 300, 4 * big):
        yield ev('@each(v in a){{ v }}{{ loop.index }}{{ loop.iter }}{{ loop.first }}{{ loop.last }};@end', dm(a=ints(n)))
        yield ev('@each(v in [%s]){{ loop.last }}@else e@end' % ', '.join(['1'] * n))
        yield ev('@for(i = 0; i < %d; i++){{ i }},@else e@end' % n)
        yield ev('@each(v in a)@if(v)%s@else f@end@end' % ('x' * n), dm(a=ints(12)))
        yield ev('@each(v in a)@if(false)%s@end{{ v }}@breakIf(v == 2)@end' % ('@break ' * n), dm(a=ints(5)))
    for n in (10010, 66000):
        if n < 66000:
            yield ev('@for(i = 0; i < n; i++)@if(i > n - 3){{ i }},@end@end', dm(n=D.i_(n)))
        yield ev('@each(v in a)@continueIf(v < %d){{ v }}:{{ loop.index }}:{{ loop.iter }}:{{ loop.last }}@end' % (n - 2), dm(a=ints(n)))
    for n in (12, 14, 16)[:1 + big]:
        yield ev(''.join('@each(v%d in [0, 1])' % j for j in range(n // 2)) + '.' + '{{ v0 }}' + '@end' * (n // 2))
    for n in edges(r, 40, 3 * big):
        yield ev(''.join('@each(v%d in [1])' % j for j in range(n)) + '{{ loop.iter }}' + '{{ loop.last }}@end' * n)
        yield ev(''.join('@for(v%d = 0; v%d < 2; v%d++)' % (j, j, j) for j in range(n)) + 'x@break@end' + '@break@end' * (n - 1))


def c04(r, big):
    for n in edges(r, 300, 3 * big):
        yield ev(''.join('{{ v%d = %d }}' % (j, j) for j in range(n)) + '@if(true){{ v0 = 9; v%d = 8; v0 }}@end{{ v0 }}{{ v%d }}{{ v%d }}' % (n - 1, n // 2, n - 1))
        yield ev(''.join('{{ v%d }}' % j for j in range(0, n, 9)), [(b'v%d' % j, D.i_(j)) for j in range(n)])
        yield ev('{{ v%d = "s" }}' % (n - 1), [(b'v%d' % j, D.i_(j)) for j in range(n)])
        v = 'n' * n
        yield ev('{{ %s = 1 }}@if(true){{ %sm = 2 }}{{ %s }}@end{{ %sm }}' % (v, v, v, v))
    for n in edges(r, 70, 4 * big):
        yield ev('{{ x = 0 }}' + ''.join('@if(true){{ x = x + 1; x }},' for j in range(n)) + '@end{{ x }},' * n)
        yield ev('{{ x = 0 }}' + '@if(true)' * n + '{{ x = "s" }}' + '@end' * n)
        yield ev('@if(true)' * n + '{{ x = 1 }}' + '@end{{ x }}' * n)
        yield ev('{{ x = 7 }}' + '@each(e in [1])' * n + '{{ x }}{{ x = 8 }}' + '@end{{ x }}' * n)


def c05(r, big):
    for n in edges(r, 9000, 3 * big):
        s = ''.join(r.choice(['a', '}', '{ ', '@', '\n', '\\', '\u00e9', '<']) for _ in range(n)).replace('\\{', 'x')
        yield ev(s + '.')
        yield ev('%s\\{{ x }} \\@if(y) {{-- %s --}}%s.' % ('x' * n, 'c' * n, ' ' * n))
    for n in edges(r, 400, 3 * big):
        yield ev('\\{{ ' * n)
        yield ev('\\@end' * n)
        yield ev('{{-- a --}}b' * n)
        yield ev('@' * n + '{' + '\\' * n + 'x' + '}' * n)
        yield ev('a{{ 1 }}\n' * n)
    yield ev('x' * 66000 + '{{ 1 }}y')
    for c in ODD:
        yield ev('%sa%s{{ 1 }}%s\n%s@if(true)%s@end%s\\{{%s{{-- %s --}}%s\\@if(%s' % ((c,) * 10))
        yield ev('@%sif(true)%s{ { 1 } }%s{%s{ 2 }}' % ((c,) * 4))
        yield ev('{{ "%s" }}{{ s }}{{ "%s".len() }}{{ "%s" == s }}' % (c, c, c), dm(s=D.s_(c)))


def c06(r, big):
    for n in edges(r, 70, 3 * big):
        lay = ''.join('<%d>@reserve("r%d")' % (j, j) for j in range(n))
        page = '@use("~l")' + ''.join('@insert("r%d")%d{{ x }}@end' % (j, j) if j % 2 else '@insert("r%d", x)' % j for j in r.sample(range(n), n - 2))
        yield {'layouts/l': lay, 'p': page, 'q': '@use("~l")', 'z': '@use("~l")@insert("r%d", x)' % (n - 1)}, ['p', 'q', 'z', 'p']
        yield {'layouts/l': lay, 'p': page + '@insert("r%d", 1)' % n}, ['p']
        yield {'layouts/l': lay, 'p': page + '@insert("r0")@end@insert("r%d")@end' % (n - 1)}, ['p']
        yield dict({'layouts/l%d' % j: '%d@reserve("a")' % j for j in range(n)}, **{'p%d' % j: '@use("~l%d")@insert("a", x)' % (n - 1 - j) for j in range(n)}), ['p0', 'p%d' % (n - 1), 'p%d' % (n // 2)]
        yield dict({'layouts/l': '<@reserve("a")>'}, **{'p%d' % j: '@use("~l")@insert("a", %d)' % j for j in range(n)}), ['p0', 'p%d' % (n - 1), 'p%d' % (n // 2), 'p0']
        yield {'layouts/l': '@if(true)' * n + '@reserve("a")' + '@end' * n, 'p': '@use("~l")' + '@insert("a")' + '@if(true)' * n + '{{ x }}' + '@end' * n + '@end'}, ['p']
        yield {'layouts/' + 'd/' * n + 'l': '<@reserve("a")>', 'p': '@use("~%sl")@insert("a", x)' % ('d/' * n)}, ['p']


def c07(r, big):
    for n in edges(r, 70, 3 * big):
        yield {'components/c': '[{{ a }}@slot|@slot("s")]', 'p': ''.join('@component("~c", {a: %d})%s' % (j, ['', '@slot %d@end@end' % j, '@slot("s"){{ x }}%d@end@end' % j][j % 3]) for j in range(n))}, ['p']
        yield {'components/c': '[{{ a }}@slot]', 'p': '@each(v in l)@component("~c", {a: v})@slot{{ v }}@end@end@end'}, ['p']
        yield {'components/c': '|'.join('@slot("s%d")' % j for j in range(n)), 'p': '@component("~c")' + ''.join('@slot("s%d")%d@end' % (j, j) for j in r.sample(range(n), n - 3)) + '@end@component("~c")'}, ['p']
        yield {'components/c': '|'.join('{{ a%d }}' % j for j in range(n)), 'p': '@component("~c", {%s})' % ', '.join('a%d: x + %d' % (j, j) for j in range(n))}, ['p']
        yield dict({'components/c%d' % j: '%d{{ x }}@slot' % j for j in range(n)}, p=''.join('@component("~c%d")' % j for j in r.sample(range(n), n)), q='@component("~c%d")@slot{{ x }}@end@end' % (n - 1)), ['p', 'q']
        yield {'components/c': '@slot', 'p': '@if(true)' * n + '@component("~c")@slot{{ x }}@end@end' + '@end' * n}, ['p']
        yield {'components/c': '@slot' * n, 'p': '@component("~c")@slot{{ x }}@end@end'}, ['p']
        yield {'components/c': '@slot', 'p': '@component("~c")' * n + '@component("~c")@slot("no")@end@end'}, ['p']
        yield {'components/c': 'c', 'p': '@component("~c")' * n + '@component("~no")'}, ['p']


def c08(r, big):
    for n in edges(r, 300, 4 * big):
        for a, b, c in (('{{ ', '1 + ', '1 }}'), ('{{ [', '1, ', '2] }}'), ('@if(x)', 'a', '@end'), ('{{ {', 'k: 1, ', 'z: 2} }}'), ('@each(v in a)', '{{ v }}', '@end'), ('{{ "', 's', '" }}'), ('{{-- ', 'c', ' --}}')):
            s = enc(a + b * n + c)
            yield {'op': 'parse', 'src': s}
            yield {'op': 'parse', 'src': s[:-1]}
            yield {'op': 'parse', 'src': s[:len(a) + len(b) * n]}
            yield {'op': 'parse', 'src': s + b'{{ # }}'}
            yield {'op': 'parse', 'src': b'\n' * n + s[:-2]}
            yield {'op': 'parse', 'src': b'@if(x)' * (n // 4) + s + b'@end' * (n // 4 - 1)}


def c09(r, big):
    for n in edges(r, 300, 3 * big):
        yield ev('{{ a[%d] }}|{{ a[n - 1] }}|{{ a[n] }}|{{ a.slice(n).len() }}|{{ a[0 - n] }}' % (n - 1), dm(a=ints(n), n=D.i_(n)))
        yield ev('@if(true)' * (n // 5) + '{{ 1 / z }}' + '@end' * (n // 5), dm(z=D.i_(0)))
        yield ev('\n' * n + '{{ x.y }}', dm(x=D.i_(0)))
        yield ev('{{ x%s }}' % ('.a' * (n // 9)), dm(x=D.m_([('a', D.m_([('a', D.i_(1))]))])))
        yield ev('{{ s.repeat(n).len() }}{{ s.at(n) }}{{ s.truncate(n) }}{{ i.decimal(".", n).len() }}', dm(s=D.s_('ab'), n=D.i_(n), i=D.i_(5)))
    for e in range(8, 65, 4 if big == 1 else 1):
        for d in (-1, 0, 1):
            k = min(max(2 ** e + d, -2 ** 63), 2 ** 63 - 1)
            for m in (k, -k):
                yield ev('{{ a[n] }}|{{ a.slice(n).len() }}|{{ a.slice(0, n).len() }}|{{ s.at(n) }}', dm(a=ints(3), n=D.i_(m), s=D.s_('xyz')))


def c10(r, big):
    for n in edges(r, 700, 4 * big):
        s = ''.join(r.choice(['<', '>', '&', "'", 'a', '&lt;', '\\"', '\u00e9', ' ', '&#34;']) for _ in range(n))
        yield ev('{{ "%s" }}' % s)
        yield ev('{{ "%s".raw() }}' % s)
        yield ev('{{ x = "%s" + "<" }}{{ ["", x] }}' % s)
        yield ev('{{ x = "%s" }}@if(true){{ x.raw() }}@end' % s)
        for c in '<>&\'':
            yield ev('{{ "%s" }}{{ "%s".raw() }}' % (c * n, c * n))
        yield ev('{{ "%s" }}' % ('\\"' * n))
    for n in edges(r, 60, 2 * big):
        yield ev('{{ ' + ' + '.join('"<%d&"' % j for j in range(n)) + ' }}')
        yield ev('{{ [' + ', '.join('"<%d&"' % j for j in range(n)) + '] }}')
        yield ev('{{ "<&>"' + '.raw()' * 1 + ' }}' + '{{ "<a>" }}' * n)


def c11(r, big):
    cs = ['a', 'b', 'Z', ' ', '\u00e9', '\u65e5', '\U0001f600', 'x,']
    for n in edges(r, 1100, 4 * big):
        s = ''.join(r.choice(cs) for _ in range(n))
        data = dm(s=D.s_(s), n=D.i_(n), a=ints(n // 4))
        for f in ('len()', 'reverse()', 'upper()', 'lower()', 'capitalize()', 'first()', 'last()', 'at(n - 1)', 'at(n)', 'truncate(n)', 'truncate(n - 1)', 'truncate(n / 2, "")', 'contains("Zq")', 'split(",").len()', 'split("").len()', 'split(",").join(",")', 'trim("abZ ")', 'trimLeft("x,")', 'trimRight("ab")', 'raw()', 'decimal()'):
            yield ev('{{ s.%s }}' % f, data)
        for f in ('len()', 'reverse()', 'join("-")', 'slice(n / 8).len()', 'slice(1, n / 4 - 1).join(",")', 'contains(n / 4 - 1)', 'contains(n)', 'append(1, 2).len()', 'append(n)[n / 4]', 'prepend(7)[1]', 'shuffle().len()'):
            yield ev('{{ a.%s }}' % f, data)
        yield ev('{{ "ab".repeat(n).len() }}{{ "\u00e9".repeat(n) }}{{ 5.decimal(",", n) }}', data)
    for n in edges(r, 40, 2 * big):
        yield ev('{{ a.append(%s) }}{{ a.prepend(%s) }}{{ a }}' % (', '.join(map(str, range(n))), ', '.join(map(str, range(n)))), dm(a=ints(3)))
        yield ev('{{ s%s }}' % ('.reverse()' * n), dm(s=D.s_('abc')))
        yield ev('{{ a.contains(b) }}{{ b.contains(a) }}', dm(a=nested(n), b=nested(n - 1)))
        yield ev('{{ [a].contains(b) }}', dm(a=nested(n), b=nested(n)))
    for e in range(0, 63, 5 if big == 1 else 1):
        yield ev('{{ n.len() }}{{ n.str() }}{{ n.abs() }}{{ n.float() }}{{ n.float().int() }}{{ f.round() }},{{ f.floor() }},{{ f.ceil() }},{{ f.str() }}', dm(n=D.i_(-2 ** e), f=D.f_(-2.0 ** min(e, 61) + .5)))
        yield ev('{{ n.len() }},{{ m.len() }}', dm(n=D.i_(10 ** (e % 19)), m=D.i_(-10 ** (e % 19) + 1)))


def nested(n):
    d = D.i_(1)
    for _ in range(n):
        d = D.l_([d])
    return d


def c12(r, big):
    for n in edges(r, 300, 4 * big):
        yield ev('{{ a.len() }}{{ a[%d] }}{{ a[%d] }}{{ a }}' % (n - 1, n), dm(a=ints(n)))
        m = D.m_([('k%d' % j, D.i_(j)) for j in range(n)])
        yield ev('{{ m.k0 }}{{ m.k%d }}{{ m["k%d"] }}@if(m)t@end' % (n - 1, n // 2), dm(m=m))
        yield ev('{{ m.k%d }}' % n, dm(m=m))
        st = D.st_([('F%d' % j, True, D.i_(j)) for j in range(n // 4)])
        yield ev('{{ m.F0 }}{{ m.f%d }}{{ m["f%d"] }}' % (n // 4 - 1, n // 8), dm(m=D.l_([st])['x'][0]))
        yield ev('{{ s }}|{{ s.len() }}', dm(s=D.s_(''.join(r.choice(['<', 'a', '\u00e9', '&', '\n']) for _ in range(n * 4)))))
        yield ev('{{ x }}', dm(x=D.l_([D.i_(1)] * n + [D.bad_('chan')])))
        yield ev('{{ x.a }}', dm(x=D.m_([('a', D.i_(1))] + [('k%d' % j, D.i_(j)) for j in range(n)] + [('z', D.bad_('func'))])))
        k = 'k' * n
        yield ev('{{ x.%s }}{{ x["%s"] }}' % (k, k), dm(x=D.m_([(k, D.i_(4)), (k + 'k', D.i_(5))])))
    for n in edges(r, 60, 4 * big):
        d, p, q = D.i_(5), 'x', D.bad_('chan')
        for j in range(n):
            w = r.randrange(4)
            d, q = [(D.l_([D.i_(0), d]), D.l_([D.i_(0), q])), (D.m_([('a', d), ('b', D.i_(1))]), D.m_([('a', q)])), (D.st_([('Name', True, d)]), D.st_([('Name', True, q)])), (D.p_(d), D.p_(q))][w]
            p = p.replace('x', ['x[1]', 'x.a', 'x.name', 'x'][w], 1) if False else p + chr(48 + w)
        path = 'x' + ''.join(['[1]', '.a', '.name', ''][int(c)] for c in reversed(p[1:]))
        yield ev('{{ %s }}' % path, dm(x=d))
        yield ev('{{ x }}', dm(x=q))
        yield ev('{{ x }}', dm(x=nested(n)))


def c13(r, big):
    for n in edges(r, 1100, 4 * big):
        for bad in ('{{ nope }}', '{{ 1 +\n"a" }}', '@if(x.y)a@end', '{{ # }}', '{{ "a".nofn() }}', '@each(v in 5)a@end'):
            pre = r.choice(['\n' * n, '\r\n' * n, 'text\n' * (n // 4), '{{-- \n --}}' * (n // 4), '{{ "' + '\n' * (n // 4) + '" }}', '{{' + '\n' * n + '1 }}', '\\{{\n' * (n // 6), '@if(true)\n' * (n // 30) + '@end' * (n // 30)])
            yield ev(pre + bad, dm(x=D.i_(1)))
    for n in edges(r, 260, 3 * big):
        yield ev(' ' * n + '{{ nope }}\n' * 3)
        yield ev('{{ a }}\n' * n + '{{ nope }}', dm(a=D.i_(1)))
        yield ev('@each(v in a)\n{{ %d / (v - %d) }}@end' % (n, n - 1), dm(a=ints(n)))
    yield ev('\n' * 66000 + '{{ nope }}')
    for c in ODD:
        for bad in ('{{ nope }}', '{{ # }}', '@if(x.y)a@end', '@end'):
            yield ev('a%sb\n%s%s%s%s\n' % (c, c, c, bad, c), dm(x=D.i_(1)))
            yield ev('{{ "a%sb" }}%s{{-- %s --}}\\{{%s\n%s' % (c, c, c, c, bad), dm(x=D.i_(1)))
        yield ev('{{ 1 +%s nope }}' % c)
        yield ev('{{ 1 }}@if(true)%s{{ x +%s nope }}@end' % (c, c), dm(x=D.i_(1)))
        yield ev('@each(v in [1,%s 2])%s{{ v.a }}@end' % (c, c))


def c17(r, big):
    """the page, the error page and the message are long"""
    tops = sorted({k + d for k in (512, 1024, 2048, 4096, 8192, 16384, 32768) for d in (-1, 0, 1)})
    sizes = r.sample(tops, 6 * min(big, 3)) + [4096, 65536, 70001]
    for n in sizes:
        text = 'a' * n
        data = dm(s=D.s_(text))
        for e, d in (('', False), ('err', False), ('', True)):
            yield {'p': '{{ s }}', 'q': 'MARK {{ s }}{{ nope }}', 'err': 'E%s' % text, 'v': '%s%s' % ('x', text)}, [T.load('t', '.tw', e, d)], ['p', 'q', 'v'], data
    for n in edges(r, 3000, 2 * big):
        v = 'n' * n
        for e, d in (('', False), ('err', False), ('', True)):
            yield {'q': 'MARK' + '\n' * n + '{{ %s }}' % v, 'err': 'E'}, [T.load('t', '.tw', e, d)], ['q'], []


def c18(r, big):
    for n in edges(r, 70, 3 * big):
        fs = {'d/' * n + 'p': 'deep {{ x }}', 'p': 'top'}
        yield fs, ['d/' * n + 'p', 'd/' * (n - 1) + 'p', 'p']
        yield {'d%d/p' % j: 'in %d {{ x }}' % j for j in range(n)}, ['d0/p', 'd%d/p' % (n - 1), 'd%d/p' % n]
        yield dict({'p%d' % j: '%d' % j for j in range(n)}, bad='{{ 1 + }}'), ['p0']
        yield dict({'p%d' % j: '%d' % j for j in range(n)}, zz='@use("~none")'), ['p0']
        yield {'n' * n: 'long {{ x }}', 'n' * (n - 1): 'short'}, ['n' * n, 'n' * (n - 1), 'n' * (n + 1)]
    yield {'n' * 200: 'long {{ x }}', ('e' * 100 + '/') * 3 + 'p': 'x'}, ['n' * 200, ('e' * 100 + '/') * 3 + 'p', 'n' * 199]
    yield {'p': 'x' * 66000 + '{{ x }}'}, ['p']


def c19(r, big):
    for n in edges(r, 1100, 4 * big):
        for s in ('x' * n + '{{ a }}', ' ' * n + '{{' + ' ' * n + '1.5' + '\n' * (n // 8) + '"s"}}@if(' + ' ' * n + 'x)', '\n' * n + '@end' + '\r\n' * (n // 4) + '{{ b }}', '{{ "' + 's' * n + '" }}', '{{ "' + '\n' * (n // 4) + '" + x }}',
                  '{{ ' + 'v' * n + ' + 1 }}', '{{-- ' + 'c' * n + ' --}}{{ 1 }}', '{{ ' + '7' * n + ' }}', '\u00e9' * n + '{{ "\u00e9" }}', '\\{{' * (n // 4) + '@else', '{{ a' + ' + a' * (n // 8) + ' }}'):
            yield {'op': 'lex', 'src': enc(s)}
            if n < 300:
                yield {'op': 'contains', 'src': enc(s)}
    for c in ODD:
        for s in ('a%sb{{ x }}\n%s{{%sx%s}}%s@end' % (c, c, c, c, c), '{{ "%s" + y }}\n{{-- %s --}}%s{{ z }}' % (c, c, c), '@if(%sx%s)%s\\{{%s@else%s b@end' % (c, c, c, c, c), '{{ 1.%s5 + "%s%s"%s }}%s' % (c, c, c, c, c)):
            yield {'op': 'lex', 'src': enc(s)}
            yield {'op': 'contains', 'src': enc(s)}
    for s in ('x' * 66000 + '{{ a }}', '\n' * 66000 + '{{ a }}', '{{' + ' ' * 66000 + 'a }}'):
        yield {'op': 'lex', 'src': enc(s)}


def c20(r, big):
    for n in edges(r, 60, 3 * big):
        names = ['f%d' % j for j in range(n)]
        regs = [T.register('str', f, tag='tag ' + f) for f in names]
        yield regs + [T.register('int', names[0], 'arg')] + [ev(''.join('{{ s.%s() }}' % f for f in names), dm(s=D.s_('q'))), ev('{{ s.f%d() }}' % n, dm(s=D.s_('q'))), T.register('str', names[-1]), T.register('str', names[0]), ev('{{ s.f0() }}{{ s.f%d() }}{{ 5.f0(7) }}' % (n - 1), dm(s=D.s_('q')))]
        args = ', '.join(str(j) for j in range(n))
        yield [T.register('str', 'f'), T.register('arr', 'f', 'args'), ev('{{ s.f(%s) }}' % args, dm(s=D.s_('q'))), ev('{{ a.f(%s) }}' % args, dm(a=ints(n))), ev('{{ s.f(a, [a], {k: a}, b) }}', dm(s=D.s_('q'), a=ints(n), b=nested(n)))]
        v = 'n' * n * 4
        yield [T.register('str', v), T.register('str', v + 'n', tag='other'), T.register('str', v), ev('{{ s.%s(1) }}{{ s.%sn(2) }}' % (v, v), dm(s=D.s_('q' * n)))]
    odd = ['f', ' f', 'f ', 'F', 'f\n', '', ' ', 'f.', '\u00e9', 'f()', '1f', 'len', 'Len', ' len']
    for ty in ('str', 'arr', 'int', 'float', 'bool'):
        rs = r.sample(odd, len(odd))
        x = {'str': '"q"', 'arr': '[1]', 'int': '5', 'float': '1.5', 'bool': 'true'}[ty]
        yield [T.register(ty, f, tag='t%d' % j) for j, f in enumerate(rs)] + [ev('{{ %s.f() }}' % x), ev('{{ %s.F() }}' % x), ev('{{ %s.Len() }}' % x)] + [T.register(ty, f) for f in rs]


def many(r, big):
    """one page is rendered many times, among others"""
    fs = {'layouts/l': '<@reserve("a")>', 'components/c': '[{{ a }}@slot]', 'p': '@use("~l")@insert("a"){{ x }}@component("~c", {a: x})@slot{{ x }}@end@end@end', 'q': '{{ x = x + 1; x }}', 'bad': 'MARK {{ x }}{{ nope }}'}
    n = [60, 300, 1100][min(big, 3) - 1]
    for e, d in (('', False), ('q', False)):
        steps = [T.load('t', '.tw', e, d)]
        for j in range(n):
            k = r.randrange(6)
            data = dm(x=D.i_(j))
            steps.append([T.render('p', data), T.render('q', data), T.response('bad', data), T.response('p', data), ev('{{ x }}', data), T.render('no', data)][k])
        yield steps, fs
    yield [T.load()] + [T.response('bad', dm(x=D.i_(1)))] * n + [T.render('p', dm(x=D.i_(1)))], fs
    yield [T.load()] * (n // 10) + [T.render('p', dm(x=D.i_(1)), set=s) for s in (1, n // 10)], fs


CHK = {'C06': ('paths', 'has', 'lines'), 'C07': ('paths', 'has', 'lines'), 'C13': ('lines',), 'C09': ('lines',), 'C18': ('paths', 'has', 'lines')}


def sizes(pid, tier, seed):
    """the cases of a property"""
    f = globals().get(pid.lower())
    r = random.Random('%d sizes %s' % (seed, pid))
    big = 2 if tier == 'quick' else 6
    chk, note = CHK.get(pid, ()), pid + ' long, wide and deep'
    x = dm(x=D.i_(3), l=ints(9))
    out = []
    if pid in ('C06', 'C07', 'C18'):
        for d, names in f(r, big):
            out.append(case([T.load()] + [T.render(p, x) for p in names], fs=T.files(d), chk=chk, note=note))
    elif pid == 'C17':
        for d, loads, names, data in f(r, big):
            out.append(case(loads + [T.response(p, data) for p in names], fs=T.files(d), note=note))
    elif pid == 'C20':
        for steps in f(r, big):
            out.append(case(steps, fs=[], note=note))
    elif pid in ('C14', 'C16'):
        for steps, fs in many(r, big):
            out.append(case(steps, fs=T.files(fs), chk=('has', 'lines', 'paths'), note=note))
    elif f:
        out = [case([s], chk=chk, note=note) for s in f(r, big)]
    return out
