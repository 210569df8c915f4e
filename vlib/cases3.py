"""Cases for the properties about literals, built-ins, data and error positions (C10-C13)."""
import itertools
from . import data as D
from .cases1 import ev, enc, pack, pick, by, dm, randoms, BASE
from .cases2 import EVERY, BADDATA
from .gen import Gen, rng, INT, FLOAT, STR, BOOL, NIL, OBJ, arr_of, INTS, FLOATS, MARKUP, WORDS, STRANGE, KEYS
from .run import case
from .trees import load, render, response, evalfile, register, files, placed, PLACES, Tree

# ---------------------------------------------------------------------------
# C10

PIECES = ['<', '>', '&', '"', "'", ';', 'a', '#', 'lt', 'gt', 'amp', '&amp;', '&lt;', '&gt;', '&#60;', '&#x3c;', '&quot;', '&#34;', '&#39;', '&nbsp;', '&copy', '&lt', '<b>', '</b>', '<script>', '\\', '\n', '\r\n', '\t', '\u00e9',
          '\u65e5', '{{', '}}', '@if(x)', '@end', ' ', '0', '&&', '<<', '&amp;amp;', '&AMP;', '&LT;', '=', '<!--', '-->', '\u2028', '\x01', '--}}', '%s', '\\n']
SMALL = ['<', '>', '&', '"', "'", ';', 'a', '&amp;', '&lt;', '#38']


def quoted(r, s, q=None):
    """the string as a literal, None when it cannot be one"""
    if q is None:
        q = r.choice(['"', "'"])
    s = s.replace(q, '\\' + q)
    if s.endswith('\\'):
        return None
    return q + s + q


STRSHAPES = ['{{ %s }}', '[{{ %s.raw() }}]', '{{ %s + "x" }}', '{{ "x" + %s }}', '{{ s = %s }}{{ s }}', '{{ s = %s; s.raw() }}', '{{ s = %s }}{{ s }}|{{ s.raw() }}|{{ s }}', '{{ [%s, "b"] }}', '{{ [%s][0] }}', '{{ [[1], [%s]][1] }}'.replace('[1], ', ''), '{{ [%s][0].raw() }}',
             '{{ {a: %s}.a }}', '{{ {a: %s}.a.raw() }}', '{{ o = {"k": {a: %s}} }}{{ o.k.a }}{{ o.k["a"].raw() }}', '{{ true ? %s : "n" }}', '{{ (false ? "n" : %s).raw() }}', '@if(true){{ %s }}@end', '@each(v in [%s, "z"]){{ v }}{{ v.raw() }}@end', '@each(v in [1, 2]){{ %s }}{{ t = %s; t.raw() }}@end',
             '@for(i = %s; i != ""; i = ""){{ i }}@end', '{{ (%s) }}', '{{ %s }}{{ %s.raw() }}{{ %s }}', '{{ s = "q"; s = %s; s }}', '{{ true.then(%s, "e") }}', '{{ true.then(%s, "e").raw() }}', '{{ [1].append(2); ["a"].append(%s)[1] }}', '{{ ["a"].prepend(%s)[0].raw() }}', '{{ ["a", %s].reverse()[0].raw() }}',
             '{{ ["a", %s].slice(1)[0] }}', '{{ ["a", %s].join("-") }}', '{{ ["a", "b"].join(%s) }}', '@if(%s == %s)eq@else ne@end', '@if(%s == "zz")eq@else ne@end', '@if(%s)t@else f@end', '{{ s = %s }}@if(true){{ s = %s }}{{ s }}@end{{ s.raw() }}', '{{ a = [%s] }}@each(v in a){{ v }}@end{{ a }}', '{{ %s + %s }}', '{{ u + %s }}', '{{ %s + u }}']


def c10(tier, seed):
    r = rng(seed, 'c10')
    lits = [''.join(t) for n in (0, 1, 2, 3) for t in itertools.product(SMALL, repeat=n)]
    lits = lits if tier != 'quick' else [x for x in lits if len(x) <= 7 or r.random() < .4]
    steps = []
    u = dm(u=D.s_('<u> &amp; "q"'), x=D.i_(1))

    def lit(s):
        return quoted(r, s)
    for s in lits:
        for sh in ['{{ %s }}{{ %s.raw() }}'] + pick(r, STRSHAPES, by(tier, 1, 5)):
            q = lit(s)
            if q is not None:
                steps.append(ev(sh.replace('%s', q), u))
    for s in PIECES:
        for sh in STRSHAPES:
            q = lit(s)
            if q is not None and (tier != 'quick' or r.random() < .6):
                steps.append(ev(sh.replace('%s', q), u))
    for _ in range(by(tier, 500, 9000)):
        s = ''.join(r.choice(PIECES) for _ in range(r.choice([1, 2, 3, 4, 6, 9])))
        q = lit(s)
        if q is not None:
            steps.append(ev(r.choice(STRSHAPES).replace('%s', q), u))
    # both quotes, escaped and not
    for s in ['say "hi"', "it's", '\\"', "\\'", 'a\\"b\\\'c', '""', "''", 'a"b\'c"', '\\\\"', "'\\\"'"]:
        for q in '"\'':
            t = quoted(r, s, q)
            if t:
                steps += [ev('{{ %s }}' % t), ev('{{ %s.raw() }}' % t), ev('{{ x = %s }}{{ x }}' % t)]
    # every byte inside a literal
    for b in range(1, 256):
        if b not in (0x22, 0x5c):
            steps.append(ev(b'{{ "a' + bytes([b]) + b'<c" }}|{{ "a' + bytes([b]) + b'<c".raw() }}'))
    # strings from the data are not literals
    for s in MARKUP:
        steps.append(ev('{{ d }}{{ d + d }}{{ [d] }}{{ e.f }}', dm(d=D.s_(s), e=D.m_([('f', D.s_(s))]))))
    cs = pack(steps, (), 'C10', 12)
    # as insert and component arguments, in slots and layouts
    for k in range(by(tier, 80, 1200)):
        lit_ = []
        while len(lit_) < 8:
            q = lit(''.join(r.choice(PIECES) for _ in range(r.choice([1, 2, 3, 5]))))
            if q is not None and '\n' not in q:
                lit_.append(q)
        a, b, c, d, e, f, g, h = lit_
        pages = {
            'layouts/main': '<t>@reserve("title")</t>{{ %s }}@reserve("body")' % a,
            'components/card': r.choice(['{{ arg }}|{{ arg.raw() }}|@slot|@slot("x")', '{{ %s }}[{{ arg }}]@slot("x"){{ two = arg }}{{ two.raw() }}@slot' % h, '@if(arg){{ arg }}@end@slot("x")@each(v in [1, 2]){{ arg.raw() }}@end']),
            'page': r.choice(['@use("~main")@insert("title", %s)@insert("body")<p>{{ %s }}</p>{{ %s.raw() }}@end' % (b, c, d), '@use("~main")@insert("title", %s.raw())@insert("body", "x" + %s)' % (b, c), '@use("~main")@insert("title", true ? %s : 1)@insert("body")@component("~card", {arg: %s})@end' % (b, c)]),
            'cards': r.choice(['@component("~card", {arg: %s})@slot{{ %s }}@end@slot("x")%s@end@end{{ %s }}' % (e, f, '{{ %s.raw() }}' % g, a), '{{ v = %s }}@component("~card", {arg: v})@component("~card", {"arg": v.raw()})@component("~card", {arg: %s})' % (e, f), '@each(v in [%s, %s])@component("~card", {arg: v})@slot("x"){{ v }}{{ v.raw() }}@end@slot t@end@end@end' % (e, f)]),
        }
        if '@slot' in pages['cards'] and ('@slot("x")' not in pages['components/card'] or '@slot' not in pages['components/card'].replace('@slot(', '')):
            pages['components/card'] += '@slot@slot("x")'
        cs.append(case([load(), render('page', u), render('cards', u), response('cards', u)], fs=files(pages), note='C10 trees'))
    cs += placed(r, [c for c in cs if not c['fs']], by(tier, 120, 1500), note='C10')
    return cs + randoms('c10', seed, by(tier, 150, 3000), markup=.7, size=3, bad=.01)


# ---------------------------------------------------------------------------
# C11

STRV = ['', 'a', 'ab', 'abc', 'Hello World', 'h\u00e9llo', '\u65e5\u672c\u8a9e', '\U0001f600x\U0001f601', '\u00e9', '\u00dfa', '\u00f1andu', '\u044fzyk \u042f', '\u03b1\u03b2', ' pad ', '\t\n x \r\n', '  ', 'aXbXc', 'a,b,,c', ',', ',,', 'aaa', '12', '-7', '0', '007', '12.5', '1e5', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '--5', '-',
        'a b  c', 'ends.', '...', 'xyx', '\u00e9\u00e9\u00e8', 'A', 'z', '\u00c9', 'x' * 40, '\u65e5' * 20, 'a\u0301b', '1\u00b2', '\u0660\u0661', ' 12', '12 ', '+12', 'a.b.c', "it's", 'q"q', 'tab\ttab', '\u00a0nb\u00a0', '\u3000wide\u3000', '\u2003em', 'line\nline', 'a\x00b'.replace('\x00', ''), '\u01c6x', 'mixed \u65e5 and \u00e9']
ARRV = [[], [INT], [INT, INT], ['s'], ['s', 's', 's'], [FLOAT, FLOAT], [BOOL, BOOL, BOOL], [NIL], [NIL, INT], [INT, 's', BOOL, NIL, FLOAT], [[INT], []], [[['s']], [['s'], [INT]]], [OBJ, OBJ], [[OBJ]], [INT] * 7]
FLV = [0.0, -0.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 3.5, 0.49999999999999994, 1.4999999999999998, 2.4999999999999996, 1.0, -1.0, 2.0, 99.99, -99.99, 1e15, 1e16, 4503599627370497.5, 9007199254740993.0, 9.2e18, -9.2e18, 9223372036854774784.0, 1e300, -1e300, 5e-324, float('inf'), float('-inf'), float('nan'),
       0.1, 0.30000000000000004, 1e-7, 1e21, 123456789.125, -0.9, 0.9, 1e20, 100.0]
IV = [0, 1, -1, 5, -5, 9, 10, 99, -99, 100, 12345, -12345, 2**31, -2**31, 2**53, 2**53 + 1, -(2**53) - 1, 2**63 - 1, -2**63, -2**63 + 1, 10**18]


def c11(tier, seed):
    r = rng(seed, 'c11')
    steps = []

    def lit(v):
        return quoted(r, v)

    def recv(v):
        """the string as a literal or from the data"""
        if r.random() < .5 and '&' not in v and '<' not in v and '>' not in v and lit(v) is not None:
            return lit(v), []
        return 'x', [(b'x', D.s_(v))]
    one = ['len', 'raw', 'trim', 'trimLeft', 'trimRight', 'upper', 'lower', 'capitalize', 'reverse', 'first', 'last', 'at', 'split', 'decimal']
    for v in STRV:
        for f in one:
            a, d = recv(v)
            steps.append(ev('{{ %s.%s() }}' % (a, f), d))
        a, d = recv(v)
        steps.append(ev('{{ %s.reverse().reverse() == x }}{{ %s.upper().len() == x.len() }}{{ x.split("").join("") == x }}' % (a, a), dm(x=D.s_(v))))
        steps.append(ev('@each(c in x.split("")){{ c }}.@end@each(c in x.split()){{ c }}.@end', dm(x=D.s_(v))))
        for n in ['0', '1', '2', '3', '-1', '-2', '-3', '5', '39', '40', '41', '100', '9223372036854775807', '-9223372036854775807', 'x.len()', 'x.len() - 1', '-x.len()', '-(x.len() + 1)']:
            for f in ['at', 'truncate', 'repeat']:
                if f == 'repeat' and n in ('39', '40', '41', '100', '9223372036854775807'):
                    continue
                if tier == 'quick' and r.random() < .6:
                    continue
                steps.append(ev('{{ x.%s(%s) }}' % (f, n), dm(x=D.s_(v))))
                if f == 'truncate':
                    steps.append(ev('{{ x.truncate(%s, %s) }}' % (n, r.choice(['"..."', '""', '"\u2026"', '"-"', '"\u65e5\u672c"'])), dm(x=D.s_(v))))
    args = ['', ' ', 'a', 'b', ',', 'X', 'ab', '\u00e9', '\u65e5', 'l', 'o W', '.', '-', '\n', '\U0001f600', 'zz', 'lo', 'aa', '\u00c3', 'H', 'abc', ' \t', 'he', '1']
    pairs = [(v, f, a) for v in STRV for f in ('split', 'contains', 'trim', 'trimLeft', 'trimRight') for a in args]
    for v, f, a in pick(r, pairs, by(tier, 900, 20000)):
        x, d = recv(v)
        y, e = (lit(a), []) if r.random() < .6 else ('y', [(b'y', D.s_(a))])
        steps.append(ev('{{ %s.%s(%s)%s }}' % (x, f, y, '.join("|")' if f == 'split' else ''), d + e))
        if f == 'split' and r.random() < .5:
            steps.append(ev('{{ %s.split(%s).len() }}' % (x, y), d + e))
    for v in STRV + [str(x) for x in IV]:
        for a in ['', '"."', '","', '"", 0', '".", 0', '".", 1', '",", 3', '"\u00e9", 2', '".", 10', '" ", 5']:
            x, d = recv(v)
            steps.append(ev('{{ %s.decimal(%s) }}' % (x, a), d))

    # arrays
    def elem(k):
        if isinstance(k, list):
            xs = [elem(e) for e in k]
            return '[' + ', '.join(x for x, _ in xs) + ']', D.l_([x for _, x in xs])
        if k == INT:
            n = r.choice([0, 1, 2, 3, 7, 10])
            return str(n), D.i_(n)
        if k == FLOAT:
            n = r.choice([0.5, 1.0, 2.5, 3.25])
            return str(n), D.f_(n)
        if k == 's':
            s = r.choice(['', 'a', 'b', 'ab', '\u00e9', 'x,y'])
            return '"%s"' % s, D.s_(s)
        if k == BOOL:
            b = r.random() < .5
            return str(b).lower(), D.b_(b)
        if k == NIL:
            return 'nil', D.nil_()
        n = r.choice([1, 2])
        return '{a: %d, b: "z"}' % n, D.m_([('a', D.i_(n)), ('b', D.s_('z'))])
    needles = [INT, FLOAT, 's', BOOL, NIL, [INT], [], [['s']], OBJ, ['s'], [INT, INT]]
    for shape in ARRV:
        for _ in range(by(tier, 3, 20)):
            t, d = elem(shape)
            src, dd = (t, []) if r.random() < .5 else ('x', [(b'x', d)])
            printable = 'obj' not in str(shape) and OBJ not in shape
            show = (lambda e: '{{ %s }}' % e) if printable else (lambda e: '{{ %s.len() }}' % e)
            for f in ['len()', 'join()', 'join("-")', 'join("")', 'join("\u00e9")', 'reverse()', 'reverse().reverse()', 'rand()', 'shuffle()', 'shuffle().len()']:
                s = '%s.%s' % (src, f)
                steps.append(ev(show(s) if f.startswith(('rev', 'shuffle()')) and f != 'shuffle().len()' else '{{ %s }}' % s, dd))
            for a in pick(r, ['0', '1', '2', '-1', '-5', '100', '0, 0', '0, 1', '1, 2', '2, 1', '1, 1', '-3, 2', '0, -1', '1, -1', '0, 100', '5, 9', '9223372036854775807', '-9223372036854775807, 9223372036854775807', '3, 3', '0, 9223372036854775807'], by(tier, 7, 20)):
                steps.append(ev(show('%s.slice(%s)' % (src, a)) + '{{ %s.slice(%s).len() }}' % (src, a), dd))
            for nd in pick(r, needles, by(tier, 5, 11)):
                n, _ = elem(nd)
                steps.append(ev('{{ %s.contains(%s) }}' % (src, n), dd))
                steps.append(ev('{{ [%s].contains(%s) }}{{ [%s, 1].contains(%s) }}' % (n, n, src, src), dd))
                if nd != OBJ and printable and OBJ not in nd:
                    steps.append(ev('{{ y = %s }}{{ y.%s(%s) }}|{{ y }}|{{ y.%s(%s, %s) }}|{{ y }}' % (src, r.choice(['append', 'prepend']), n, r.choice(['append', 'prepend']), n, n), dd))
    # purity: several results from one array, then the array again
    ops = ['append(9)', 'prepend(9)', 'reverse()', 'slice(1)', 'slice(0, 2)', 'append(8, 7)', 'slice(0, 1).append(5)', 'reverse().append(4)', 'append(3).reverse()', 'prepend(6, 5)', 'slice(1, 3).prepend(2)']
    for _ in range(by(tier, 150, 2500)):
        n = r.choice([0, 1, 2, 3, 5, 8])
        o = [r.choice(ops) for _ in range(4)]
        steps.append(ev('{{ a = xs.%s }}{{ b = a.%s }}{{ c = a.%s }}{{ e = b.%s }}{{ xs }}/{{ a }}/{{ b }}/{{ c }}/{{ e }}/{{ xs }}' % tuple(o), dm(xs=D.l_([D.i_(k) for k in range(n)], typed=r.random() < .5))))
        steps.append(ev('@each(v in xs){{ xs.%s }};@end{{ xs }}{{ ys = [xs, xs.%s] }}{{ ys[0].%s }}|{{ ys[1] }}|{{ xs }}' % tuple(o[:3]), dm(xs=D.l_([D.i_(k) for k in range(n)]))))
        steps.append(ev('{{ a = [1, 2, 3].slice(0, 2) }}{{ b = a.%s }}{{ c = a.%s }}{{ a }}/{{ b }}/{{ c }}/{{ a.shuffle().len() }}/{{ a }}' % tuple(o[:2]), ()))
    # numbers and booleans
    for v in FLV:
        for f in ['int', 'str', 'abs', 'ceil', 'floor', 'round']:
            steps.append(ev('{{ x.%s() }}' % f, dm(x=D.f_(v))))
        steps.append(ev('{{ x.str().len() }} {{ x.abs().str() }} {{ (-x).round() }}', dm(x=D.f_(v))))
    for _ in range(by(tier, 100, 3000)):
        v = r.choice([r.uniform(-10, 10), r.uniform(-1e6, 1e6), r.randint(-100, 100) + .5, r.uniform(-1e17, 1e17), r.randint(-1000, 1000) / 8])
        steps.append(ev('{{ x.%s() }}{{ x.%s() }}' % (r.choice(['int', 'str', 'abs']), r.choice(['ceil', 'floor', 'round'])), dm(x=D.f_(v))))
    for v in IV:
        for f in ['float', 'abs', 'str', 'len', 'decimal', 'decimal(",")', 'decimal(".", 3)', 'decimal("", 0)']:
            steps.append(ev('{{ x.%s%s }}' % (f, '' if '(' in f else '()'), dm(x=D.i_(v))))
        if v >= 0:
            steps.append(ev('{{ %d.str() + "z" }}{{ %d.len() }}{{ %d.float() }}{{ %d.abs() }}' % (v, v, v, v)))
    for b in ('true', 'false', '(1 == 1)', 'x', '(!x)'):
        for a in ['', '1', '"a"', 'nil', '1, 2', '"a", "b"', '[1], [2]', '1.5, nil', 'x, 5', '{a: 1}.a, 2']:
            steps.append(ev('{{ %s.then(%s) }}' % (b, a), dm(x=D.b_(True))))
        steps.append(ev('{{ %s.binary() }}' % b, dm(x=D.b_(False))))
    # wrong arguments
    wrong = ['1', '"s"', '1.5', 'true', 'nil', '[1]', '{a: 1}', '']
    for t, fs in (('"abc"', ['split', 'trim', 'trimLeft', 'trimRight', 'contains', 'truncate', 'decimal', 'at', 'repeat']), ('[1, 2]', ['join', 'slice', 'append', 'prepend', 'contains']), ('5', ['decimal']), ('true', ['then'])):
        for f in fs:
            for a in wrong:
                if f in ('then',) and a == '{a: 1}':
                    continue
                steps.append(ev('{{ %s.%s(%s)%s }}' % (t, f, a, '.len()' if f in ('append', 'prepend') else ''), ()))
                for b in wrong[:-1]:
                    if f in ('truncate', 'decimal', 'slice'):
                        steps.append(ev('{{ %s.%s(%s, %s) }}' % (t, f, a or '1', b), ()))
    for t in ('"abc"', '[1]', '5', '1.5', 'true', 'nil', '{a: 1}'):
        for f in ['len', 'upper', 'join', 'abs', 'round', 'then', 'binary', 'float', 'int', 'str', 'reverse', 'contains', 'at', 'Len', 'nope']:
            steps.append(ev('{{ %s.%s() }}' % (t, f), ()))
    cs = pack(steps, (), 'C11', 14)
    # a built-in wins over a custom function of the same name
    from .cases2 import BUILTINS
    own = {'str': ['len', 'split', 'raw', 'trim', 'upper', 'lower', 'capitalize', 'reverse', 'contains', 'truncate', 'decimal', 'at', 'first', 'last', 'repeat', 'trimLeft', 'trimRight'],
           'arr': ['len', 'join', 'reverse', 'slice', 'contains', 'append', 'prepend'], 'int': ['float', 'abs', 'str', 'len', 'decimal'], 'float': ['int', 'str', 'abs', 'ceil', 'floor', 'round'], 'bool': ['binary', 'then']}
    recvs = {'str': ('x', D.s_('ab cd')), 'arr': ('x', D.l_([D.i_(3), D.i_(4)])), 'int': ('x', D.i_(-42)), 'float': ('x', D.f_(2.5)), 'bool': ('x', D.b_(True))}
    argof = {'contains': '"b"', 'truncate': '1', 'repeat': '2', 'slice': '1', 'append': '5', 'prepend': '5', 'then': '1, 2', 'at': '1'}
    for ty, fs in own.items():
        st = []
        for f in fs:
            st.append(register(ty, f))
        for f in sorted(set(BUILTINS) - set(fs))[:6]:
            st.append(register(ty, f, tag='own' + f))
        calls = []
        for f in fs:
            a = argof.get(f, '')
            if f == 'contains' and ty == 'arr':
                a = '3'
            calls.append(ev('{{ x.%s(%s) }}' % (f, a), [(b'x', recvs[ty][1])]))
        for f in sorted(set(BUILTINS) - set(fs))[:6]:
            if f not in ('rand', 'shuffle'):
                calls.append(ev('{{ x.%s(1) }}' % f, [(b'x', recvs[ty][1])]))
        cs.append(case(st + calls, note='C11 custom'))
        cs.append(case(calls[:3] + st + calls, note='C11 custom'))
    cs += placed(r, cs, by(tier, 100, 1500), note='C11')
    return cs + randoms('c11', seed, by(tier, 250, 5000), funcs=.8, bad=.02, size=3, markup=0)


# ---------------------------------------------------------------------------
# C12

KINDS = ['int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64']
BITS = {'int': 63, 'int8': 7, 'int16': 15, 'int32': 31, 'int64': 63, 'uint': 63, 'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 63}
FIELDS = ['Name', 'ID', 'Age', 'URLPath', 'X', 'A1', 'Snake_Case', 'Inner', 'List', 'Map', 'UserName', 'Z9', '\u00c9t\u00e9', 'Loop', 'Index']
HIDDEN = ['name', 'secret', 'inner', 'x', 'list']
MKEYS = ['a', 'b', 'name', 'Name', 'ID', 'id', 'x_1', 'loop', 'in', 'true', 'nil', 'With Space', 'a-b', '\u00e9t\u00e9', '1st', '', 'a.b', 'a"b', "it's", '<k>', '\u65e5', 'index', '0', 'len']


def scalar(r):
    k = r.random()
    if k < .4:
        gk = r.choice(KINDS)
        b = BITS[gk]
        lo = 0 if gk.startswith('u') else -(2**b)
        return D.i_(r.choice([lo, 2**b - 1, 0, 1, r.randint(lo, 2**b - 1), 5]), gk)
    if k < .55:
        return r.choice([lambda: D.f_(r.choice([0.0, 1.0, 1.5, -2.25, 1e21, 1e-7, 0.1, 123456789.0, -0.0, 1e100])), lambda: D.f_(r.choice([0.5, 0.1, 3.0, 16777216.0, -1.25, 1e10]), 'float32'), lambda: D.f_(r.uniform(-1e6, 1e6))])()
    if k < .8:
        return D.s_(r.choice(['', 'a', 'hello', '<b>&', 'it\'s "q"', '\u65e5\u672c', '{{ x }}', '@if(x)', 'line\nline', ' pad ', 'a\\b', b'\xff\xfe', b'a\x00b', '&amp;', '%s']))
    if k < .93:
        return D.b_(r.random() < .5)
    return D.nil_(r.choice(['', '', 'ptr', 'structptr', 'ptrptr']))


def goval(r, depth):
    k = r.random()
    if depth == 0 or k < .25:
        x = scalar(r)
    elif k < .5:
        n = r.choice([0, 1, 2, 3])
        if r.random() < .6:
            xs = [goval(r, depth - 1) for _ in range(n)]
        else:
            gk = r.choice(KINDS)
            xs = [D.i_(r.randint(0, 100), gk) for _ in range(n)]
        x = D.l_(xs, typed=r.random() < .6, name=r.choice(['', '', '', 'MyList']) if n else r.choice(['', 'nil']))
    elif k < .75:
        ks = r.sample(MKEYS, r.choice([0, 1, 2, 3]))
        if r.random() < .3:
            xs = [(q, D.s_(r.choice(['p', 'q']))) for q in ks]
        else:
            xs = [(q, goval(r, depth - 1)) for q in ks]
        x = D.m_(xs, typed=r.random() < .6, name=r.choice(['', '', '', 'MyKey']) if ks else r.choice(['', 'nil']))
    else:
        fs = [(n, True, goval(r, depth - 1)) for n in r.sample(FIELDS, r.choice([0, 1, 2, 3]))]
        if r.random() < .4:
            fs += [(n, False, goval(r, depth - 1)) for n in r.sample(HIDDEN, r.choice([1, 2]))]
        r.shuffle(fs)
        x = D.st_(fs)
    if r.random() < .15:
        x = D.p_(x)
        if r.random() < .3:
            x = D.p_(x)
    return x


def ident(s):
    return s.isascii() and s.replace('_', 'a').isalnum() and not s[0].isdigit() and s not in ('in', 'true', 'false', 'nil')


def paths(r, e, d, out, limit=60):
    """expressions that reach the parts of a datum"""
    if len(out) > limit:
        return
    while d['k'] == 'ptr':
        d = d['x']
    if d['k'] in ('bool', 'int', 'float', 'str', 'nil'):
        out.append('{{ %s }}' % e)
        if d['k'] in ('int', 'float') and r.random() < .3:
            out.append('{{ %s + %s }}' % (e, '0' if d['k'] == 'int' else '0.5'))
        if d['k'] == 'nil' and r.random() < .5:
            out.append('{{ %s ? 1 : 2 }}' % e)
        if r.random() < .02:
            out.append('{{ %s.x }}' % e)
        return
    if d['k'] == 'slice':
        out.append('{{ %s.len() }}' % e)
        for i, x in enumerate(d['x']):
            paths(r, '%s[%d]' % (e, i), x, out, limit)
        if r.random() < .2:
            out.append('{{ %s[%s] }}' % (e, r.choice(['-1', str(len(d['x'])), '99'])))
        if r.random() < .3:
            out.append('@each(q in %s)%s@end' % (e, r.choice(['{{ loop.index }}', '.'])))
        return
    seen = False
    for f in d['x']:
        n, x = (f[0], f[2]) if d['k'] == 'struct' else f
        n = n.decode() if isinstance(n, bytes) else n
        hidden = d['k'] == 'struct' and not f[1]
        if hidden:
            if r.random() < .12:
                out.append('{{ %s.%s }}' % (e, n))
            continue
        names = [n]
        if d['k'] == 'struct':
            names.append(n[0].lower() + n[1:])
        seen = True
        n = r.choice(names)
        if ident(n) and r.random() < .6 and ']' not in e[-1:] + '(':
            paths(r, e + '.' + n, x, out, limit)
        elif ident(n) and r.random() < .5:
            paths(r, '(%s).%s' % (e, n), x, out, limit)
        else:
            if any(c in n for c in '"<&>'):
                q = "'" + n + "'" if "'" not in n else None
            else:
                q = '"' + n + '"'
            if q:
                paths(r, '%s[%s]' % (e, q), x, out, limit)
    if r.random() < .05:
        out.append('{{ %s.%s }}' % (e, r.choice(['nope', 'zz', 'Nope'])))
    if r.random() < .04:
        out.append('{{ %s["%s"] }}' % (e, r.choice(['nope', '', 'NAME'])))
    if not seen:
        out.append('@if(%s)o@end' % e)


def c12(tier, seed):
    r = rng(seed, 'c12')
    cs = []
    steps = []
    for k in range(by(tier, 600, 12000)):
        d = goval(r, r.choice([1, 2, 3, 4]))
        es = []
        paths(r, 'v', d, es)
        for part in [es[i:i + 12] for i in range(0, len(es), 12)] or [['x']]:
            steps.append(ev('|'.join(part), [(b'v', d), (b'w', scalar(r))]))
    # scalars as literals
    for gk in KINDS:
        b = BITS[gk]
        for n in [0, 1, 7, 2**b - 1] + ([] if gk.startswith('u') else [-1, -(2**b)]):
            lit = str(n) if n >= 0 else '(%d - 1)' % (n + 1)
            steps.append(ev('{{ v }}{{ v == %s }}{{ [v] }}{{ v - 1 }}{{ o.V }}{{ o.v }}{{ l[0] }}{{ m.k }}' % lit, dm(v=D.i_(n, gk), o=D.st_([('V', True, D.i_(n, gk))]), l=D.l_([D.i_(n, gk)], typed=True), m=D.m_([('k', D.i_(n, gk))], typed=True))))
    for gk, n in (('MyInt', -5), ('MyUint', 7)):
        steps.append(ev('{{ v }}{{ v + 1 }}', dm(v=D.i_(n, gk))))
    for d in (D.s_('named', 'MyStr'), D.b_(True, 'MyBool'), D.b_(False, 'MyBool'), D.f_(2.5, 'MyFloat')):
        steps.append(ev('{{ v }}{{ [v, v] }}{{ o.v }}', dm(v=d, o=D.st_([('V', True, d)]))))
    for x in [0.0, 1.0, 1.5, -1.5, 0.1, 100.0, 1e6, 1e20, 1e21, 1e22, 1e-5, 1e-7, 1e300, -0.0, 5e-324, float('inf'), float('-inf'), float('nan'), 123456789.123, 0.30000000000000004, 2.0**53]:
        steps.append(ev('{{ v }}', dm(v=D.f_(x))))
        if abs(x) < 1e38:
            steps.append(ev('{{ v }}{{ [v] }}', dm(v=D.f_(x, 'float32'))))
    for b in (True, False):
        steps.append(ev('{{ v }}{{ %s }}{{ !v }}{{ v ? "y" : "n" }}' % str(b).lower(), dm(v=D.b_(b))))
    for n in ('', 'ptr', 'structptr', 'ptrptr'):
        steps.append(ev('[{{ v }}][{{ nil }}]{{ v ? 1 : 2 }}{{ l }}{{ o.N }}', dm(v=D.nil_(n), l=D.l_([D.nil_(n)]), o=D.st_([('N', True, D.nil_(n))]))))
    for s in [b'', b'a', b'<b>&"\'', b'\xff', b'\x00', b'\r\n', '\u65e5\u672c'.encode(), b'&amp;', b'{{ x }}', b'\\', b'%s%d'] + [bytes([b]) for b in range(256)]:
        steps.append(ev('[{{ v }}]{{ l }}{{ m.s }}', dm(v=D.s_(s), l=D.l_([D.s_(s)]), m=D.m_([('s', D.s_(s))]))))
    # names of fields and keys
    for n in FIELDS:
        low = n[0].lower() + n[1:]
        for a in {n, low, n.lower(), n.upper()}:
            steps.append(ev('{{ o["%s"] }}' % a, dm(o=D.st_([(n, True, D.i_(4))]))))
            if ident(a):
                steps.append(ev('{{ o.%s }}' % a, dm(o=D.p_(D.st_([('Q', True, D.i_(1)), (n, True, D.i_(4))])))))
    for n in HIDDEN:
        for a in (n, n[0].upper() + n[1:]):
            steps.append(ev('{{ o.%s }}' % a, dm(o=D.st_([(n, False, D.i_(4))]))))
            steps.append(ev('{{ o["%s"] }}' % a, dm(o=D.st_([('Other', True, D.i_(3)), (n, False, D.s_('hid'))]))))
            steps.append(ev('{{ o.%s }}' % a, dm(o=D.st_([(n, False, D.s_('hid')), (n[0].upper() + n[1:] + 'x', True, D.i_(3))]))))
    for n in MKEYS:
        q = "'%s'" % n if '"' in n else '"%s"' % n
        steps.append(ev('{{ o[%s] }}' % q, dm(o=D.m_([(n, D.i_(4)), ('zz', D.i_(5))]))))
        if ident(n):
            steps.append(ev('{{ o.%s }}{{ p.o.%s }}' % (n, n), dm(o=D.m_([(n, D.i_(4))]), p=D.st_([('O', True, D.m_([(n, D.i_(6))]))]))))
            steps.append(ev('{{ %s }}' % n, [(n.encode(), D.i_(3))]))
    for n in ['Name', 'NAME', 'nAME']:
        for k in ('name', 'Name', 'NAME', 'nAME'):
            steps.append(ev('{{ o.%s }}' % n, dm(o=D.m_([(k, D.i_(4))]))))
            steps.append(ev('{{ o.%s }}' % n, dm(o=D.m_([(k, D.i_(4)), (k.swapcase(), D.i_(5))]))))
    # the same value in several places
    sh = D.l_([D.i_(1), D.i_(2)])
    steps.append(ev('{{ a.append(3) }}{{ a }}{{ b.reverse() }}{{ b }}{{ o.L.prepend(0) }}{{ o.l }}', dm(a=sh, b=sh, o=D.st_([('L', True, sh)]))))
    for f in ['v = 5', 'v[0]', 'v.append(4)', 'v.prepend(4)', 'v.reverse()', 'v.slice(1)', 'v.shuffle()', 'v.join()', 'w = v; w = w.append(1); v', 'v.slice(0, 1).append(77)', 'v.contains(2)', 'v.rand()']:
        steps.append(ev('{{ %s }}{{ v }}@each(x in v){{ x }}@end{{ v }}' % f, dm(v=D.l_([D.i_(1), D.i_(2), D.i_(3)], typed=True))))
        steps.append(ev('{{ %s }}{{ v }}' % f, dm(v=D.p_(D.l_([D.i_(1), D.i_(2)], typed=True)))))
    # unsupported values, at any depth
    wraps = [lambda v: v, lambda v: D.l_([v]), lambda v: D.l_([D.i_(1), D.l_([v])]), lambda v: D.m_([('a', D.i_(1)), ('b', v)]), lambda v: D.st_([('A', True, D.s_('x')), ('B', True, v)]), lambda v: D.p_(v), lambda v: D.p_(D.st_([('P', True, D.p_(v))])),
             lambda v: D.m_([('x', D.m_([('y', D.l_([D.st_([('Z', True, v)])]))]))]), lambda v: D.st_([('Pub', True, D.i_(1)), ('priv', False, v)]), lambda v: D.l_([v, v], typed=True), lambda v: D.m_([('k', v)], typed=True)]
    for b in BADDATA:
        for w in wraps:
            if b in ('cycle', 'slicecycle', 'mapcycle') and w in wraps[8:9]:
                pass
            x = w(D.bad_(b))
            steps.append(ev('text', dm(v=x)))
            steps.append(ev(r.choice(['{{ a }}', '{{ v }}', '@if(v)x@end', '{{ nope }}']), dm(a=D.i_(1), v=x)))
    cs += pack(steps, (), 'C12', 15)
    # the same data through the other entry points
    for k in range(by(tier, 60, 900)):
        data = [(enc(n), goval(r, 2)) for n in ('v', 'w')]
        es = []
        paths(r, 'v', data[0][1], es, 8)
        paths(r, 'w', data[1][1], es, 14)
        src = '|'.join(es[:12])
        if r.random() < .15:
            data.append((b'bad', r.choice(wraps)(D.bad_(r.choice(BADDATA)))))
        pages = {'a': src, 'layouts/l': '<@reserve("x")>', 'b': '@use("~l")@insert("x")' + src + '@end', 'components/c': 'C' + src.replace('v', 'v') + '@slot', 'd': '@component("~c")@slot ' + src + '@end@end'}
        cs.append(case([load(), render('a', data), render('b', data), render('d', data), response('a', data), evalfile('t/a.tw', data), ev(src, data), render('a', data)], fs=files(pages), note='C12 trees'))
    cs += placed(r, [c for c in cs if not c['fs']], by(tier, 80, 1200), note='C12')
    return cs


# ---------------------------------------------------------------------------
# C13

BEFORE = ['text\n', '\n\n', 'a\r\nb\r\n', '{{-- c\nc\n --}}', '{{-- one --}}', '{{ "x\ny" }}', "{{ 'a\r\n\r\nb' }}", '{{\n1\n}}', '{{ 1 +\n 2 }}\n', '@if(true)\nyes\n@end', '@if(\ntrue\n)a@end', '@each(i in [\n1,\n2])\n{{ i }}\n@end', '{{ [1,\n2,\n3][0] }}', '{{ {a:\n1}.a }}', '@for(i = 0;\ni < 2;\ni++)\nx\n@end', '\\@if(x)\n', '\\{{ y }}\n',
          '{{ s = "m\nn" }}{{ s }}', '{{ "abc"\n.len() }}', '\u00e9\u65e5\n', '<p>\n</p>\n', '{{ zz = 5;\nzz }}', '@if(false)\n{{ nope }}\n@else\nq\n@end', '\t\n', '{{-- {{ x\n}} --}}', '@end\n' if False else '\r\n', '{{ true ?\n1 :\n2 }}', 'a { b }\n', '{{ "}}\n" }}', '\r', '{{ "\\"\n" }}', '@break' if False else ' ', '{{ x }}', '\\\n', '{{ x;\n\nx }}']
RUNFAULTS = ['{{ nope }}', '{{ 1 + "a" }}', '{{ x + 1.5 }}', '{{ 1 / 0 }}', '{{ x % 0 }}', '{{ x.foo() }}', '{{ "a".bar(1) }}', '{{ o.zz }}', '{{ o["zz"] }}', '{{ -"a" }}', '{{ !x }}', '{{ s++ }}', '{{ nope.a }}', '{{ [1, nope] }}', '{{ {a: nope} }}', '{{ x ? nope : 1 }}', '{{ x = "s" }}', '{{ loop = 1 }}', '@if(nope)a@end', '@if(false)a@elseif(nope)b@end',
             '@each(v in x)a@end', '@each(v in nope)a@end', '@for(i = nope; i < 1; i++)a@end', '@for(i = 0; nope; i++)a@end', '@for(i = 0; i < 1; i = "a")b@end', '@dump(nope)', '@each(v in [1])@breakIf(nope)@end', '@each(v in [1])@continueIf(1 + "a")@end', '{{ s.at("a") }}', '{{ l.join(1) }}', '{{ x.y }}', '{{ nil.z() }}', '{{ l["a"] }}', '{{ x[0] }}', '{{ s < s }}', '{{ true == true }}',
             '{{ l.contains() }}', '{{ x == nope }}', '{{ (x + nope) * 2 }}', '{{ x + 1; nope; x }}', '@each(x in ["s"])a@end', '{{ o.b.c }}', '{{ true.then() }}', '{{ x.decimal(1) }}']
PARSEFAULTS = ['{{ # }}', '{{ 1 + }}', '{{ x $ }}', '{{ (1 }}', '{{ [1 }}', '{{ 1 2 }}', '{{ ) }}', '{{ ] }}', '{{ x. }}', '{{ x.5 }}', '{{ x[ }}', '{{ x ? 1 }}', '{{ x ? : 2 }}', '{{ * 2 }}', '{{ 99999999999999999999 }}', '{{ ~x }}', '{{ x & y }}', '{{ x | y }}', '{{ x := 1 }}', '@if()a@end', '@if(x a@end', '@each(in [1])a@end', '@each(v of l)a@end', '@each(v in)a@end', '@for(i)a@end', '@for(a b c)x@end', '@insert()a@end',
               '@reserve()', '@component()', '@use()', '@dump(', '{{ "a" "b" }}', '{{ {a 1} }}', '{{ {a: } }}', '{{ x = }}', '@breakIf()', '@continueIf(', '@if(x)a', '@each(v in l)a', '@for(;;)a', '@insert("a")x', '{{ x', '{{ "abc', '{{ true ? }}', '{{ == }}', '{{ x == }}', '{{ .a }}', '{{ \u00e9 }}', '{{ ` }}', '{{ x @ y }}', '{{ ^ }}']
XDATA = dm(x=D.i_(3), s=D.s_('str'), l=D.l_([D.i_(1), D.i_(2)]), o=D.m_([('a', D.i_(1)), ('b', D.i_(2))]))


def multiline(r, f):
    """the construct with line breaks inside its braces"""
    out = ''
    q = None
    for i, c in enumerate(f):
        out += c
        if c in '"\'':
            q = None if q == c else (q or c)
        if c == ' ' and q is None and r.random() < .4 and '{{' in f[:i]:
            out += r.choice(['\n', '\r\n', '\n\n'])
    return out


def c13(tier, seed):
    r = rng(seed, 'c13')
    steps = []

    def before(n=None):
        return ''.join(r.choice(BEFORE) for _ in range(r.choice([0, 1, 2, 3, 4, 6]) if n is None else n))
    afters = ['', '\nafter\n', '{{ x }}', '\n{{ nope }}', '\n\n@if(true)a@end']
    faults = RUNFAULTS + PARSEFAULTS
    # every fault after every kind of text
    combos = [(b, f) for b in BEFORE for f in faults]
    for b, f in (combos if tier != 'quick' else pick(r, combos, 1300)):
        steps.append(ev(b + f + r.choice(afters), XDATA))
        if tier != 'quick':
            steps.append(ev(before() + b + f + r.choice(afters), XDATA))
    wraps = ['%s', '@if(true)\n%s\n@end', '@each(k in [1, 2])\na%s@end', '@if(false)\na\n@else\n%s@end', '@if(false)\n@elseif(true)\n%s@end', '@for(k = 0; k < 1; k++)\n@if(x)%s\n@end@end', '@each(k in [])\n@else\n%s\n@end', '@if(x)\n@if(x)\n@if(x)\n%s@end\n@end@end', '{{ y = 1;\n y }}%s', '@each(k in [1])\n{{ k }}@each(w in [2])\n{{ w }}\n%s@end@end']
    for _ in range(by(tier, 1200, 20000)):
        f = r.choice(faults)
        if r.random() < .4:
            f = multiline(r, f)
        steps.append(ev(before() + r.choice(wraps) % (before(r.choice([0, 0, 1])) + f + r.choice(['', '\n', 'z'])) + r.choice(afters), XDATA))
    # the operand that is wrong is on a line of its own
    for _ in range(by(tier, 300, 5000)):
        e = r.choice(['{{ x +%sNOPE }}', '{{ [1,%sNOPE,%s2] }}', '{{ x.abs()%s+ NOPE }}', '{{ NOPE%s+ 1 }}', '{{ {a:%sNOPE} }}', '{{ (%sNOPE%s) }}', '{{ s.at(%sNOPE) }}', '{{ x;%sNOPE;%sx }}', '{{ y =%sNOPE }}', '{{ x ?%sNOPE : 2 }}', '@if(%sNOPE)a@end', '@each(v in%sNOPE)a@end', '{{ l[%sNOPE%s] }}', '{{ 1 + 2 *%sNOPE }}',
                      '@dump(1,%sNOPE)', '@for(i = 0;%sNOPE; i++)a@end', '{{ -%sNOPE }}', '{{ s.split(",")%s.nope() }}', '{{ o%s.zz }}', '{{ "m\nn" + NOPE }}', '{{ "m\nn".len() + NOPE }}'])
        w = r.choice(['nope', 'nope', '1 / 0', '(1 + "a")', 'nope.x', 'x.zip()', '#', '$'])
        while '%s' in e:
            e = e.replace('%s', r.choice(['\n', '\r\n', '\n\n ', ' ', '']) + (' ' if 'in%s' in e else ''), 1)
        steps.append(ev(before() + e.replace('NOPE', w) + r.choice(afters), XDATA))
    cs = pack(steps, ('lines',), 'C13', 15)
    # random templates: the specification says which lines
    cs += randoms('c13', seed, by(tier, 200, 5000), chk=('lines',), bad=.12, newlines=.35, newlit=.25, size=4, types_n=(2, 6))
    # faults in files
    for k in range(by(tier, 260, 4000)):
        f = r.choice(RUNFAULTS)
        g = r.choice(PARSEFAULTS)
        kind = r.choice(['looparg', 'insertfirst', 'insertfirst', 'looploop', 'argtype', 'deepcomp', 'page', 'page', 'insert', 'insertexpr', 'slot', 'arg', 'parse-page', 'parse-layout', 'parse-comp', 'noinsert', 'nocomp', 'noslot', 'dupslot', 'nolayout', 'parse-other', 'nested'])
        lay = before() + '<@reserve("a")>' + before(1) + '@reserve("b")'
        comp = before() + '{{ argA }}@slot' + before(1) + '@slot("s")'
        ext = r.choice(['.tw', '.tw.html', '.html'])
        d = r.choice(['t', 'views/pages', 't/'])
        page = before() + '@component("~c", {argA: 1})\n@slot("s")\n q @end\n@end' + before()
        user = '@use("~m")' + before(1) + '@insert("a", x)\n@insert("b")\n' + before(1) + '@end'
        fsmap = {'layouts/m': lay, 'components/c': comp, 'page': page, 'user': user, 'ok': 'fine\n{{ x }}'}
        call = 'page'
        if kind == 'page':
            fsmap['page'] = before() + r.choice(wraps) % f + before(1)
        elif kind == 'insert':
            fsmap['user'] = '@use("~m")\n' + before(1) + '@insert("b")\n' + before() + f + '\n@end\n@insert("a", 1)'
            call = 'user'
        elif kind == 'insertexpr':
            fsmap['user'] = '@use("~m")\n' + before(1) + '@insert("b",' + r.choice([' ', '\n']) + r.choice(['nope', '1 + "a"', 'x.foo()', '1 / 0', 'o.zz']) + ')\n@insert("a")\n@end'
            call = 'user'
        elif kind == 'slot':
            fsmap['page'] = before() + '@component("~c", {argA: 1})\n@slot("s")\n' + before(1) + f + '\n@end\n@end' + before(1)
        elif kind == 'arg':
            fsmap['page'] = before() + '@component("~c", {' + r.choice(['', '\n']) + 'argA: ' + r.choice(['nope', '1 + "a"', 'x.foo()', '1 / 0', 'o.zz']) + '})' + before(1)
        elif kind == 'nested':
            fsmap['page'] = before() + '@if(x)\n@each(v in l)\n@component("~c", {argA: v})\n@slot\n' + before(1) + f + '@end\n@end\n@end\n@end'
        elif kind == 'looparg':
            fsmap['page'] = before() + r.choice(wraps) % (before(1) + '@component("~c", {' + r.choice(['', '\n', 'argA: 1, ']) + 'loop' + r.choice([': 1', ': x', '']) + '})' + r.choice(['', '\n@slot("s")x@end\n@end']))
        elif kind == 'insertfirst':
            ins = '@insert("%s"' % r.choice(['nope', 'nope', 'a']) + r.choice([', 1)', ', nope)', ')\nx@end', ')\n{{ nope }}\n@end'])
            fsmap['user'] = before(1) + ins + before(1) + '@use("~m")\n' + r.choice(['', '@insert("b")\n@end', '@insert("zz", 2)'])
            call = 'user'
        elif kind == 'looploop':
            fsmap['page'] = before() + r.choice(['@each(loop in l)\na@end', '@for(loop = 0; loop < 1; loop++)\na@end', '{{ loop = 1 }}', '@each(v in l)\n{{ loop = 1 }}@end', '@each(v in l)\n{{ v = "s" }}\n@end', '@each(x in\n["s"])\n@end'])
        elif kind == 'argtype':
            fsmap['page'] = before() + '@component("~c",\n{argA:\n' + r.choice(['nope', 'x.zip()', '[1,\nnope]', '{a:\n1 / 0}']) + '})' + before(1)
        elif kind == 'deepcomp':
            fsmap['page'] = before() + '@component("~c", {argA: 1})\n@slot' + before(1) + '@component("~c", {argA: 2})\n@slot("s")\n' + before(1) + f + '@end\n@end\n@end\n@end'
        elif kind == 'parse-page':
            fsmap['page'] = before() + g + before(1)
        elif kind == 'parse-layout':
            fsmap['layouts/m'] = before() + g + '\n@reserve("a")@reserve("b")'
        elif kind == 'parse-comp':
            fsmap['components/c'] = before() + g + '\n@slot@slot("s")'
        elif kind == 'parse-other':
            fsmap['z/deep/er'] = before() + g
        elif kind == 'noinsert':
            fsmap['user'] = '@use("~m")\n' + before() + '@insert("nope"' + r.choice([', 1)', ')\nx@end']) + '\n@insert("a", x)'
        elif kind == 'nocomp':
            fsmap['page'] = before() + '@component("~nocomp"' + r.choice(['', ', {a: 1}', ',\n {a: 1}']) + ')' + r.choice(['', '\n@slot("s")x@end\n@end'])
        elif kind == 'noslot':
            fsmap['page'] = before() + '@component("~c", {argA: 1})\n@slot("s")a@end\n@slot("nope")b@end\n@end'
        elif kind == 'dupslot':
            fsmap['page'] = before() + '@component("~c", {argA: 1})\n@slot("s")a@end\n@slot("s")b@end\n@end'
        elif kind == 'nolayout':
            fsmap['user'] = '@use("~nolayout")\n@insert("a", x)'
        steps = [load(d, ext), render(call, XDATA), render('ok', XDATA), evalfile(d.rstrip('/') + '/' + call + ext, XDATA) if r.random() < .3 and '@use' not in fsmap[call] and '@comp' not in fsmap[call] else render(call, XDATA)]
        cs.append(case(steps, fs=files(fsmap, d.rstrip('/'), ext), chk=('lines', 'paths'), note='C13 ' + kind))
    for k in range(by(tier, 120, 2500)):
        t = Tree(rng(seed, 'c13t', k), faults=r.choice([0, .06]), bad=.06)
        cs.append(case([load()] + t.calls(), fs=t.fs(), chk=('lines', 'paths'), note='C13 trees'))
    cs += placed(r, [c for c in cs if not c['fs']], by(tier, 260, 3000), chk=('lines', 'paths'), note='C13')
    return cs
