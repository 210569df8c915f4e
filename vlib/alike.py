"""Names and strings which are alike but not the same are different everywhere."""
import random
from . import data as D, trees as T
from .run import case
from .sizes import dm, ev, enc

STRS = [('a', ' a'), ('a', 'a '), ('a', 'A'), ('a', 'aa'), ('a', 'a.'), ('a', '.a'), ('a', 'a\t'), ('a', '\u00e1'), ('\u00e1', 'a\u0301'), ('\u00e9', '\u00c9'), ('a', 'a<'), ('a<', 'a&lt;'), ('a&', 'a&amp;'), ('a', "a'"), ('0', '00'), ('1', '01'), ('1', '1.0'), ('-0', '0'), ('\u00df', 'ss'), ('k', '\u212a'), ('s', '\u017f'),
        ('i', '\u0130'), ('i', '\u0131'), ('I', '\u0131'), ('a', 'a\u200b'), ('a', 'a\u00a0'), ('a ', 'a\u00a0'), ('a', '\ufeffa'), ('ab', 'ba'), ('abc', 'acb'), ('x' * 40 + '1', 'x' * 40 + '2'), ('1' + 'x' * 40, '2' + 'x' * 40), ('x' * 20 + '1' + 'x' * 20, 'x' * 20 + '2' + 'x' * 20), ('x' * 255, 'x' * 256), ('a b', 'a  b'), ('a b', 'a\tb'),
        ('a-b', 'a_b'), ('a.b', 'a-b'), ('a,b', 'a;b'), ('a', '~a'), ('a', 'a@'), ('a', '$a'), ('%61', 'a'), ('a+b', 'a b'), ('\u03c3', '\u03c2'), ('\ufb01', 'fi'), ('a', '\uff41'), ('nil', 'null'), ('true', 'True'), ('a\\', 'a'), ('1e3', '1000'), ('ab', 'a'), ('e', '\u0435'), ('\U0001f600', '\U0001f601'), ('a', '\u202ea')]
IDS = [('a', 'A'), ('a', 'aa'), ('a', 'a_'), ('a', '_a'), ('a', 'a1'), ('a1', 'a01'), ('a1', 'a11'), ('ab', 'ba'), ('abc', 'aBc'), ('name', 'Name'), ('NAME', 'name'), ('x' * 40 + 'y', 'x' * 40 + 'z'), ('y' + 'x' * 40, 'z' + 'x' * 40), ('x' * 31, 'x' * 32), ('x' * 63, 'x' * 64), ('a_b', 'ab'), ('in_', 'in1'), ('trues', 'truex'), ('nill', 'nil_'), ('lenX', 'len'), ('_', '__'), ('a', 'b'), ('loop', 'loops'), ('I', 'l')]


def name(s):
    """usable in a path and between double quotes"""
    return '/' not in s and '\\' not in s and len(enc(s)) < 240


def c06(r, n):
    for a, b in r.sample([p for p in STRS if '\\' not in p[0] + p[1]], n):
        one, two = '<@reserve("%s")>' % a, '<@reserve("%s")|@reserve("%s")>' % (a, b)
        p = {'layouts/l': two, 'a': '@use("~l")@insert("%s", "A")' % a, 'b': '@use("~l")@insert("%s")B{{ x }}@end' % b, 'ab': '@use("~l")@insert("%s", 1)@insert("%s", 2)' % (a, b), 'ba': "@use('~l')@insert(\"%s\")2@end@insert(\"%s\")1@end" % (b, a)}
        yield p, ['a', 'b', 'ab', 'ba']
        yield {'layouts/l': one, 'p': '@use("~l")@insert("%s", "A")' % b, 'ok': '@use("~l")@insert("%s", 1)' % a}, ['p', 'ok']
        yield {'layouts/l': one, 'p': '@use("~l")@insert("%s", 1)@insert("%s")2@end' % (a, b)}, ['p']
        if name(a) and name(b):
            for u, v in ((a, b), (b, a)):
                yield {'layouts/' + u: 'first @reserve("x")', 'layouts/' + v: 'second @reserve("x")', 'p': '@use("~%s")@insert("x", 1)' % u, 'q': '@use("~%s")@insert("x", 2)' % v}, ['p', 'q']
                yield {'layouts/' + u: 'first @reserve("x")', 'p': '@use("~%s")@insert("x", 1)' % v}, ['p']


def c07(r, n):
    for a, b in r.sample([p for p in STRS if '\\' not in p[0] + p[1]], n):
        p = {'components/c': '<@slot("%s")|@slot("%s")>' % (a, b), 'a': '@component("~c")@slot("%s")A@end@end' % a, 'b': '@component("~c")@slot("%s"){{ x }}@end@end' % b, 'ab': '@component("~c")@slot("%s")A@end @slot("%s")B@end@end@component("~c")' % (a, b), 'ba': '@component("~c")@slot("%s")B@end @slot("%s")A@end@end' % (b, a)}
        yield p, ['a', 'b', 'ab', 'ba']
        yield {'components/c': '<@slot("%s")>' % a, 'p': '@component("~c")@slot("%s")A@end@end' % b, 'ok': '@component("~c")@slot("%s")A@end@end' % a}, ['p', 'ok']
        if name(a) and name(b):
            for u, v in ((a, b), (b, a)):
                yield {'components/' + u: 'first @slot', 'components/' + v: 'second @slot', 'p': '@component("~%s")@slot{{ x }}@end@end@component("~%s")' % (u, v), 'q': '@component("~%s")' % v}, ['p', 'q']
                yield {'components/' + u: 'first', 'p': '@component("~%s")' % v}, ['p']
    for a, b in r.sample(IDS, min(len(IDS), n)):
        for u, v in ((a, b), (b, a)):
            yield {'components/c': '{{ %s }}' % u, 'p': '@component("~c", {%s: 1})' % u, 'q': '@component("~c", {%s: 1})' % v, 's': '@component("~c", {%s: 1, %s: 2})' % (u, v)}, ['p', 'q', 's']


def c18(r, n):
    for a, b in r.sample([p for p in STRS if name(p[0]) and name(p[1])], n):
        for u, v in ((a, b), (b, a)):
            yield {u: 'first {{ x }}', v: 'second'}, [u, v, u + v]
            yield {u: 'first'}, [u, v]
            yield {u + '/p': 'in first', v + '/p': 'in second'}, [u + '/p', v + '/p', u, 'p']
            yield {u + '/p': 'in first', 'p': '@component("%s/p")' % v}, ['p']


def c04(r, n):
    for a, b in r.sample(IDS, min(n, len(IDS))):
        for u, v in ((a, b), (b, a)):
            if 'loop' not in (u, v):
                yield ev('{{ %s = 1 }}{{ %s = "s" }}{{ %s }}{{ %s }}@if(true){{ %s = 2 }}{{ %s }}{{ %s = "t"; %s }}@end{{ %s }}{{ %s }}' % (u, v, u, v, u, v, v, u, u, v))
            yield ev('@each(%s in [1, 2]){{ %s }}{{ %s }}@end' % (u, u, v), [(enc(v), D.s_('out'))])
            yield ev('@for(%s = 0; %s < 2; %s++){{ %s }}{{ %s }}@end{{ %s }}' % (u, u, u, u, v, v), [(enc(v), D.s_('out'))])
            yield ev('{{ %s }}' % u, [(enc(v), D.i_(4))])
            yield ev('{{ %s = 5; %s }}' % (v, u), [(enc(u), D.i_(4))])


def c12(r, n):
    for a, b in r.sample(IDS, min(n, len(IDS))):
        yield ev('{{ m.%s }}|{{ m.%s }}|{{ m["%s"] }}|{{ m["%s"] }}' % (a, b, a, b), dm(m=D.m_([(enc(a), D.i_(1)), (enc(b), D.i_(2))])))
        yield ev('{{ %s }}|{{ %s }}' % (a, b), [(enc(a), D.i_(1)), (enc(b), D.i_(2))])
        for u, v in ((a, b), (b, a)):
            yield ev('{{ m.%s }}' % v, dm(m=D.m_([(enc(u), D.i_(1))])))
            yield ev('{{ m.%s }}' % u, dm(m=D.m_([(enc(u), D.i_(1))])))
    for a, b in r.sample(STRS, n):
        yield ev('{{ m[a] }}|{{ m[b] }}', dm(a=D.s_(a), b=D.s_(b), m=D.m_([(enc(a), D.i_(1)), (enc(b), D.i_(2))])))
        for u, v in ((a, b), (b, a)):
            yield ev('{{ m[a] }}', dm(a=D.s_(v), m=D.m_([(enc(u), D.i_(1))])))


def c01(r, n):
    for a, b in r.sample(STRS, n):
        yield ev('{{ a == b }}{{ a != b }}{{ a == a }}{{ b != b }}{{ a + b == b + a }}{{ [a, b] }}{{ a + "" == a }}', dm(a=D.s_(a), b=D.s_(b)))
        if '\\' not in a + b:
            yield ev('{{ "%s" == "%s" }}{{ "%s" == \'%s\' }}' % (a, b, b, b if "'" not in b else 'x'))
            yield ev('{{ a == "%s" }}{{ b == "%s" }}{{ b != "%s" }}' % (a, b, a), dm(a=D.s_(a), b=D.s_(b)))
    for a, b in r.sample(IDS, min(n, len(IDS))):
        yield ev('{{ %s + %s * 10 }}{{ {%s: 1, %s: 2}.%s }}{{ {%s: 1, %s: 2}.%s }}' % (a, b, a, b, a, a, b, b), [(enc(a), D.i_(1)), (enc(b), D.i_(2))])


def c11(r, n):
    for a, b in r.sample(STRS, n):
        d = dm(a=D.s_(a), b=D.s_(b), l=D.l_([D.s_(a), D.s_(b)]), m=D.l_([D.s_(a)]), t=D.s_(a + b + a + b + a))
        for f in ('m.contains(b)', 'm.contains(a)', 'a.contains(b)', 'b.contains(a)', 't.contains(b)', 't.split(b)', 't.split(a)', 't.trim(b)', 't.trim(a)', 't.trimLeft(b)', 't.trimRight(a)', 'l.join(b)', 'l', '[l].contains([b, a])', '[l].contains([a, b])', '[{k: a}].contains({k: b})', '[{k: a}].contains({k: a})',
                  'a.upper()', 'b.upper()', 'a.lower()', 'b.lower()', 'a.len()', 'b.len()', 't.reverse()', 'b.capitalize()', 'a.first()', 'b.last()', 't.at(1)', 't.truncate(2, b)', 'a.repeat(2)', 'b.decimal()', 'm.append(b)'):
            yield ev('{{ %s }}' % f, d)
    for a, b in r.sample(IDS, min(n, len(IDS))):
        yield ev('{{ [{%s: 1}].contains({%s: 1}) }}{{ [{%s: 1}].contains({%s: 1}) }}' % (a, b, a, a))


def c20(r, n):
    for a, b in r.sample(IDS, min(n, len(IDS))):
        for ty, x in r.sample([('str', '"q"'), ('arr', '[1]'), ('int', '5'), ('float', '1.5'), ('bool', 'true')], 2):
            for u, v in ((a, b), (b, a)):
                yield [T.register(ty, u, tag='first'), ev('{{ %s.%s() }}' % (x, u)), ev('{{ %s.%s() }}' % (x, v)), T.register(ty, v, tag='second'), ev('{{ %s.%s() }}{{ %s.%s(1) }}' % (x, u, x, v)), T.register(ty, u), T.register(ty, v)]
    for a, b in r.sample(STRS, n):
        yield [T.register('str', 'f'), ev('{{ s.f(t) }}{{ t.f(s, [s, t]) }}', dm(s=D.s_(a), t=D.s_(b)))]


def alike(pid, tier, seed):
    """the cases of a property"""
    f = globals().get(pid.lower())
    if not f:
        return []
    r = random.Random('%d alike %s' % (seed, pid))
    n = sum(1 for p in STRS if pid not in ('C06', 'C07', 'C18') or '\\' not in p[0] + p[1] and (pid != 'C18' or name(p[0]) and name(p[1])))
    note, x = pid + ' names which are alike', dm(x=D.i_(3))
    if pid in ('C06', 'C07', 'C18'):
        return [case([T.load()] + [T.render(p, x) for p in ns], fs=T.files(d), chk=('has',), note=note) for d, ns in f(r, n)]
    if pid == 'C20':
        return [case(s, fs=[], note=note) for s in f(r, n)]
    return [case([s], note=note) for s in f(r, n)]
