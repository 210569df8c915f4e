"""Cases for the properties about single templates (C01-C05, C08-C13, C19)."""
import itertools
from . import data as D
from .gen import (Gen, rng, INT, FLOAT, STR, BOOL, NIL, OBJ, arr_of, INTS, FLOATS, MARKUP, WORDS, TERN, DOT, IDX, PRE)
from .run import case, evalstr
from .trees import load, render, placed, files

OPS = ['+', '-', '*', '/', '%', '==', '!=', '<', '>', '<=', '>=']


def enc(s):
    return s if isinstance(s, bytes) else s.encode('utf-8')


def ev(src, data=(), nil=False):
    return evalstr(enc(src), data, nil)


def pack(steps, chk=(), note='', size=8):
    """stateless steps, some of them in every case"""
    steps = list(steps)
    return [case(steps[i:i + size], chk=chk, note=note) for i in range(0, len(steps), size)]


def pick(r, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else r.sample(xs, n)


def by(tier, quick, thorough):
    return quick if tier == 'quick' else thorough


def dm(**kw):
    return [(k.encode(), v) for k, v in kw.items()]


def randoms(tag, seed, n, chk=(), size=1, types_n=(0, 5), depth=2, **opt):
    """random templates with random data"""
    out = []
    for k in range(n):
        g = Gen(rng(seed, tag, k), **opt)
        types, data = g.scope(g.r.randint(*types_n))
        out.append(ev(g.template(depth=depth, types=types), data))
    return pack(out, chk, tag + ' random templates', size)


# ---------------------------------------------------------------------------
# C01

BASE = dm(a=D.i_(7), b=D.i_(3), c=D.i_(2), d=D.i_(5), f=D.f_(7.5), g=D.f_(2.25), h=D.f_(-1.5), s=D.s_('x'), t=D.s_('yz'), u=D.s_('x'),
          p=D.b_(True), q=D.b_(False), n=D.nil_(), l=D.l_([D.i_(4), D.i_(6), D.i_(8)]),
          o=D.m_([('n', D.i_(9)), ('l', D.l_([D.i_(1), D.i_(10)])), ('b', D.b_(True))]))
VALS = {
    INT: ['a', 'b', 'c', 'd', '4', '13', 'l[1]', 'o.n', 'l.len()'],
    FLOAT: ['f', 'g', 'h', '0.5', '4.25', 'c.float()'],
    STR: ['s', 't', 'u', '"w"', 's.upper()'],
    BOOL: ['p', 'q', 'true', 'false', 'o.b'],
}


def spaced(r, toks):
    """the tokens with some layout between them"""
    out = ''
    for i, t in enumerate(toks):
        if i and (r.random() < 0.7 or glue(toks[i - 1], t)):
            out += r.choice([' ', ' ', ' ', '  ', '\n', '\t', '\r\n'])
        out += t
    return '{{' + r.choice([' ', ' ', '', '\n']) + out + r.choice([' ', ' ', '', '\n']) + '}}'


def glue(a, b):
    if (a[-1].isalnum() or a[-1] == '_') and (b[0].isalnum() or b[0] == '_'):
        return True
    return a[-1] + b[0] in ('++', '--', '==', '!=', '<=', '>=', '}}', '{{') or a[-1] in '0123456789.' and b[0] in '.0123456789'


def c01(tier, seed):
    r = rng(seed, 'c01')
    steps = []
    # pairs and triples of binary operators
    for op in itertools.product(OPS, OPS):
        for t in (INT, FLOAT, STR, BOOL):
            if t in (STR, BOOL) and not (op[0] in ('+', '==', '!=') and op[1] in ('+', '==', '!=')) and r.random() < by(tier, .85, .0):
                continue
            v = [r.choice(VALS[t]) for _ in range(3)]
            steps.append(ev(spaced(r, [v[0], op[0], v[1], op[1], v[2]]), BASE))
    triples = [o for o in itertools.product(OPS, OPS, OPS)]
    good = [o for o in triples if sum(x in OPS[5:] for x in o) <= 1]
    for o in (good if tier == 'quick' else triples):
        for t in (INT, FLOAT):
            if t == FLOAT and ('%' in o or r.random() < by(tier, .7, 0)):
                continue
            v = [r.choice(VALS[t]) for _ in range(4)]
            steps.append(ev(spaced(r, [v[0], o[0], v[1], o[1], v[2], o[2], v[3]]), BASE))
    # comparisons and equalities of computed booleans, ternaries
    forms = ['{0} {x} {1} ? {2} {y} {3} : {1} {z} {2}', '({0} {x} {1}) {y} {2}', '{0} {x} ({1} {y} {2})', '{0} < {1} ? {2} : {3} {x} {1}',
             '{0} > {1} ? {2} : {1} > {3} ? {0} {x} {1} : {2} {y} {3}', '({0} > {1} ? {1} : {0}) {x} {2}', '{0} {x} {1} {y} {2} == {3} {z} {1}',
             '{0} {x} {1} < {2} {y} {3}', '{0} <= {1} {x} {2} {y} {3}', '{0} {x} {1} != {2}', '-{0} {x} -{1}', '{0} {x} -{1} {y} {2}',
             '-({0} {x} {1})', '-{0} {x} {1} {y} -{2}', '!({0} {x} {1} == {2})', '({0}++) {x} {1}', '{0} {x} {1}++', '{0}-- {x} {1}--',
             '{0}++ {x} {1} {y} {2}--', '-{0}++', '-{0}-- {x} {1}', '{{n: {0} {x} {1}}}.n {y} {2}', '[{0} {x} {1}, {2} {y} {3}][1]',
             '[{0}, {1}, {2}][{1} {x} {2}]', '- -{0} {x} {1}', '({0}) {x} (({1}))', '((({0} {x} {1}) {y} {2}))']
    for f in forms:
        for k in range(by(tier, 8, 120)):
            o = [r.choice(OPS[:5]) if r.random() < .8 else r.choice(OPS) for _ in range(3)]
            t = r.choice([INT, INT, FLOAT])
            v = [r.choice(VALS[t]) for _ in range(4)]
            steps.append(ev('{{ ' + f.format(*v, x=o[0], y=o[1], z=o[2]) + ' }}', BASE))
    # right-hand sides of assignments, statements in sequence
    for k in range(by(tier, 120, 1500)):
        o = [r.choice(OPS) if r.random() < .4 else r.choice(OPS[:5]) for _ in range(2)]
        t = r.choice([INT, INT, FLOAT])
        v = [r.choice(VALS[t]) for _ in range(3)]
        e = r.choice(['{0} {x} {1} {y} {2}', '{0} {x} {1}', '{0} < {1} ? {1} : {2} {x} {0}', '{0} == {1} {x} {2}', '-{0} {x} {1}',
                      '({0} {x} {1}) {y} {2}', '{0}++ {x} {1}'])
        e = e.format(*v, x=o[0], y=o[1])
        steps.append(ev(r.choice(['{{ zz = %s }}{{ zz }}', '{{ zz = %s; zz }}', '{{zz=%s}}|{{ zz }}|', '{{ zz =\n%s }}{{ zz }}']) % e, BASE))
    # operands of every pair of types
    kinds = ['5', '2.5', '"s"', 'true', 'nil', '[1, 2]', '{k: 1}', 'a', 'f', 's', 'p', 'n', 'l', 'o']
    pairs = [(x, op, y) for x in kinds for y in kinds for op in OPS]
    for x, op, y in pick(r, pairs, by(tier, 250, 5000)):
        steps.append(ev('{{ %s %s %s }}' % (x, op, y), BASE))
    for x in kinds:
        for f in ('-%s', '!%s', '%s++', '%s--', '%s ? 1 : 2', '!!%s', '-(-%s)', '!(%s == nil)', '%s[0]', '%s[1]', '%s.k', '%s.n', '%s["k"]', '%s[nil]', '%s.len()'):
            steps.append(ev('{{ ' + f % x + ' }}', BASE))
    # affixes around one operand
    post = ['', '++', '--', '[0]', '.n', '.len()', '.l', '[1]', '.abs()', '["n"]']
    combos = [(pre, v, p1, p2, tail) for pre in ('', '-', '!') for v in ('a', 'f', 'l', 'o', 's', 'p', '5') for p1 in post for p2 in post
              for tail in ('', ' + 2', ' * 2', ' == 1')]
    for c in pick(r, combos, by(tier, 300, 9000)):
        steps.append(ev('{{ ' + ''.join(c) + ' }}', BASE))
    # boundary integers and floats
    pool = [(D.i_(x), D.i_(y)) for x in INTS + [-x for x in INTS] + [-2**63] for y in INTS + [-x for x in INTS] + [-2**63]]
    for x, y in pick(r, pool, by(tier, 200, 4500)):
        steps.append(ev('{{ x %s y }}' % r.choice(OPS), dm(x=x, y=y)))
    fl = [0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1e16, 1e20, 1e21, 1e300, 5e-324, 1.7976931348623157e308, float('inf'), float('-inf'), float('nan'), 123456.789,
          2.5, 3.0, 1e-7, 4503599627370496.5, 9007199254740993.0, 9.223372036854775e18, -9.3e18, 100.0, 0.5]
    fpool = [(x, y) for x in fl for y in fl]
    for x, y in pick(r, fpool, by(tier, 150, 700)):
        steps.append(ev('{{ x %s y }} {{ x%s }} {{ -y }}' % (r.choice(OPS[:4] + OPS[5:]), r.choice(['++', '--', '', ' + x'])), dm(x=D.f_(x), y=D.f_(y))))
    # every pair of boundary values under every operator
    bi = sorted({0, 1, -1, 2, -2, 3, 7, -7, 10, 2**31 - 1, 2**31, -2**31, 2**32, 2**53, 2**53 + 1, 2**62, -2**62, 2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1})
    for x in bi:
        for y in bi:
            if tier == 'quick' and abs(x) < 2**31 and abs(y) < 2**31 and r.random() < .5:
                continue
            steps.append(ev('{{ a < b }} {{ a > b }} {{ a <= b }} {{ a >= b }} {{ a == b }} {{ a != b }} {{ a + b }} {{ a - b }} {{ a * b }}' + (' {{ a / b }} {{ a % b }}' if y else ''), dm(a=D.i_(x), b=D.i_(y))))
            if not y:
                steps.append(ev('{{ a %s b }}' % r.choice('/%'), dm(a=D.i_(x), b=D.i_(y))))
    for x in fl:
        for y in pick(r, fl, by(tier, 8, 100)):
            steps.append(ev('{{ a < b }} {{ a > b }} {{ a <= b }} {{ a >= b }} {{ a == b }} {{ a != b }} {{ a + b }} {{ a - b }} {{ a * b }} {{ a / b }}', dm(a=D.f_(x), b=D.f_(y))))
    st = ['', 'a', 'A', 'aa', 'ab', 'b', '\u00e9', 'e\u0301', ' ', '0', '<', '\n']
    for x in st:
        for y in pick(r, st, by(tier, 4, 12)):
            steps.append(ev('{{ a == b }} {{ a != b }} {{ a + b }} {{ b + a }}', dm(a=D.s_(x), b=D.s_(y))))
    # literals
    lits = ['0', '00', '007', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '9223372036854775807 + 1', '99999999999999999999',
            '18446744073709551616', '1.0', '1.50', '0.10', '.5', '5.', '1.2.3', '1e5', '1_000', '0x10', '123456789012345678901234567890.5', '0.1 + 0.2', '1.0 / 3.0',
            '10 / 3', '-7 / 2', '-7 % 3', '7 % -3', '10.0 / 4.0', '1.0 / 0.0', '0.0 / 0.0', '5 / 0', '5 % 0', '5.5 % 2.0', 'true', 'false', 'nil', 'TRUE', 'nill',
            '"a" + "b"', '"a" == "a"', '"a" != "b"', '"a" - "b"', '"a" < "b"', 'true == true', 'nil == nil', '[1] == [1]', '2 - -2', '2--2', '2 - - -2', '1 - 1', '1 -1', '1-1',
            '1++ + 1', '1+++1', '1 ++', '5 5', '1 +', '* 2', '(1', '1)', '()', '1 ? 2', '1 ? 2 : ', '1 : 2', '0.30000000000000004', '100000000000000000000.0', 'x', 'a b']
    for x in lits:
        steps.append(ev('{{ ' + x + ' }}', BASE))
        steps.append(ev('{{ zz = ' + x + ' }}{{ zz }}', BASE))
    # random trees in random layouts
    for k in range(by(tier, 350, 6000)):
        g = Gen(rng(seed, 'c01t', k), newlines=.25, parens=.25, crlf=.3, funcs=.12, tern=.12, bad=.02)
        g.types, data = g.scope(g.r.randint(2, 6))
        t = g.c([INT, INT, INT, FLOAT, STR, BOOL, g.anytype()])
        if t == OBJ:
            t = INT
        e = g.expr(t, g.c([2, 3, 3, 4, 5 if tier != 'quick' else 4]))[0]
        steps.append(ev('{{' + g.ws() + e + g.ws() + '}}', data))
    cs = pack(steps, (), 'C01', 12)
    # long chains and deep parentheses
    steps = []
    for n in (5, 8, 13, 21, 40):
        for t in (INT, INT, FLOAT, STR):
            ops = ['+'] if t == STR else OPS[:4] if t == FLOAT else OPS[:5]
            v = [r.choice(VALS[t]) for _ in range(n)]
            o = [r.choice(ops) for _ in range(n - 1)]
            steps.append(ev('{{ ' + ' '.join(x for p in zip(v, o + ['']) for x in p) + ' }}', BASE))
            d = ''.join('(%s %s ' % (a, b) for a, b in zip(v, o)) + v[-1] + ')' * (n - 1)
            steps.append(ev('{{ ' + d + ' }}', BASE))
            steps.append(ev('{{ ' + '(' * (n - 1) + v[0] + ''.join(' %s %s)' % (b, a) for a, b in zip(v[1:], o)) + ' }}', BASE))
        steps.append(ev('{{ ' + '- ' * n + 'a }}', BASE))
        steps.append(ev('{{ ' + '!' * n + 'p }}', BASE))
        steps.append(ev('{{ a' + '++' * n + ' }}', BASE))
        steps.append(ev('{{ ' + '[' * n + '5' + ']' * n + '[0]' * n + ' }}', BASE))
        steps.append(ev('{{ ' + '{a: ' * n + '5' + '}' * n + '.a' * n + ' }}', BASE))
        steps.append(ev('{{ ' + ' ? '.join(['p'] * n) + ' ? 1' + ' : 2' * n + ' }}', BASE))
        steps.append(ev('{{ ' + '; '.join('w%d = %d + a' % (k, k) for k in range(n)) + '; w%d }}' % r.randrange(n), BASE))
    cs += pack(steps, (), 'C01 sizes', 6)
    return cs + placed(r, cs, by(tier, 100, 1500), note='C01')


# ---------------------------------------------------------------------------
# C02

TRUTH = [('vt', D.b_(True)), ('vf', D.b_(False)), ('n', D.nil_()), ('i0', D.i_(0)), ('i1', D.i_(1)), ('im', D.i_(-1)), ('f0', D.f_(0.0)), ('fn0', D.f_(-0.0)),
         ('f1', D.f_(0.001)), ('fnan', D.f_(float('nan'))), ('s0', D.s_('')), ('s1', D.s_('0')), ('sf', D.s_('false')), ('sp', D.s_(' ')), ('l0', D.l_([])),
         ('l1', D.l_([D.i_(0)])), ('o0', D.m_([])), ('o1', D.st_([('A', True, D.i_(1))])), ('u8', D.i_(0, 'uint8')), ('i64', D.i_(256, 'int64')),
         ('big', D.i_(2**32)), ('f32', D.f_(0.0, 'float32')), ('np', D.nil_('ptr')), ('pz', D.p_(D.i_(0)))]
TDATA = [(k.encode(), v) for k, v in TRUTH]
LITCOND = ['true', 'false', 'nil', '0', '1', '-1', '0.0', '0.1', '""', '"a"', '[]', '[0]', '{}', '{a: 0}', '1 == 2', '2 > 1', '!true', '!nil', '!false', '-0', '0.0 - 0.0', '"" + ""',
           '[].len()', '"a".len()', '[nil][0]', '[1][5]', 'true ? 0 : 1', '(false)', '1 - 1', '"x".contains("x")', '{a: nil}.a']
VALUES = ['[1, 2].slice(2)', '[1, 2].slice(1)', '[].slice(0)', '[].reverse()', '[].append(1)', '[].prepend(nil)', '[].shuffle()', '[0].shuffle()', '"".split(",")', '"a".split("a")', 's0.split("")', '" ".trim()', '"ab".at(5)', '"ab".at(0)', '"0".upper()', '[].rand()', '[0].rand()', '"".first()', '"".last()', '0.float()', '1.float()', '0.4.int()', '0.9.floor()',
          '0.1.ceil()', '0.3.round()', 'fn0.abs()', '0.str()', '0.len()', 'false.binary()', 'true.binary()', 'false.then(1)', 'true.then(0)', 'true.then(nil)', 'true.then([])', 'false.then(1, {})', '"".raw()', '"".repeat(3)', '"x".repeat(0)', 's0.reverse()', '"abc".truncate(0, "")', '[].join()', '[nil].join()', '["x"].contains("y")', '["x"].contains("x")', 's1.contains("0")',
          'i1 - i1', '0.1 + 0.2 - 0.3', '1 / 2', '1.0 / 3.0', 'im + 1', '3 % 3', 's0 + s0', 'i1--', 'im++', '1.0--', 'i1 == 1', 'f1 > 1.0', 's0 == ""', 'l1[0]', 'l1[1]', 'l0[0]', 'l1.len()', 'o1.a', 'o1["a"]', '-i0', '-fn0', '-f1', '!n', '!vt', '5 - 5.abs()', '"0".int()', '0.5 * 0.0', '1 < 2 ? 0 : 1', '[[]][0]', '[nil][0]', '{a: []}.a', '0.001.int()', '"false"', '"nil"', 'big', 'big * big', 'f1 * f1', 'f1 / 1000000000000.0']
FAILS = ['nope', '1 + "a"', '1 / 0', 'x.y.z', '1.nope()', '-true', '"a" < 1', '[1]["k"]', 'vt + 1', '!5', 'i1.k']


def branch(r, conds, els, body=lambda k: 'B%d' % k):
    s = '@if(%s)%s' % (conds[0], body(0))
    for k, c in enumerate(conds[1:], 1):
        s += '@elseif(%s)%s' % (c, body(k))
    if els:
        s += '@else' + r.choice(['', ' ', '\n']) + body(99)
    return s + '@end'


def c02(tier, seed):
    r = rng(seed, 'c02')
    steps = []
    names = [k for k, _ in TRUTH]
    conds = names + LITCOND
    for c in conds:
        steps.append(ev('x@if(%s)T@else F@end{{ %s ? "t" : "f" }}y' % (c, c), TDATA))
        steps.append(ev('@each(i in [1, 2])<@breakIf(%s)>@end|@each(i in [1, 2])<@continueIf(%s)>@end' % (c, c), TDATA))
        steps.append(ev('@if(%s)T@end.@if(false)@elseif(%s)U@else V@end' % (c, c), TDATA))
        steps.append(ev('@for(i = 0; i < 2; i++){{ i }}@breakIf(%s).@end@for(i = 0; i < 2; i++){{ i }}@continueIf(%s).@end' % (c, c), TDATA))
    # shapes: every truth vector; a failing condition must matter only when reached
    T = ['true', 'vt', 'i1', 's1', 'l0', '1 < 2', 'o0']
    F = ['false', 'vf', 'i0', 's0', 'n', 'f0', '2 < 1']
    vecs = [v for n in range(1, by(tier, 5, 6)) for v in itertools.product('TFE', repeat=n)]
    for v in vecs:
        for els in (False, True):
            if tier == 'quick' and len(v) > 3 and r.random() < .6:
                continue
            cs = [r.choice({'T': T, 'F': F, 'E': FAILS}[x]) for x in v]
            body = r.choice([lambda k: 'B%d' % k, lambda k: '\n  <p>%d</p>\n' % k, lambda k: '' if k % 2 else 'b', lambda k: '{{ %d }}' % k,
                             lambda k: '{{ v%d = %d }}{{ v%d }}' % (k, k, k), lambda k: '@if(true)@end%d' % k])
            steps.append(ev('pre ' + branch(r, cs, els, body) + ' post', TDATA))
    # nesting

    def nest(d):
        if d == 0 or r.random() < .2:
            return r.choice(['t', '{{ i1 }}', '', ' ', 'x\n', '{{-- c --}}', '{{ nope }}' if r.random() < .05 else 'k'])
        k = r.random()
        if k < .7:
            cs = [r.choice(conds) if r.random() < .93 else r.choice(FAILS) for _ in range(r.choice([1, 1, 2, 3, 4]))]
            return branch(r, cs, r.random() < .6, lambda _: r.choice(['', '[', '(']) + nest(d - 1) + r.choice(['', ']', ')']))
        if k < .9:
            return '@each(v%d in [1, 2, 3])%s@end' % (d, r.choice(['', '@if(loop.index == 1)@%s@end' % r.choice(['break', 'continue'])]) + nest(d - 1))
        return '@for(j%d = 0; j%d < 2; j%d++)%s@end' % (d, d, d, nest(d - 1))
    for k in range(by(tier, 250, 4000)):
        steps.append(ev('a' + nest(r.choice([1, 2, 3, 3])) + 'z' + nest(r.choice([0, 1, 2])), TDATA))
    for src in ['@if(true)a@else', '@if(true)a', '@if()a@end', '@if(true', '@if(true)a@elseif()b@end', '@if true a @end', '@if(true)a@else b@else c@end',
                '@if(true)a@else b@elseif(true)c@end', '@if(true)@end', '@if(false)@else@end', '@if(true)x@endif', '@if(true)@if(true)a@end b', '@if(true))a@end',
                '@if((true))a@end', '@if( true )a@end', '@if(true) a @end', '@if(\ntrue\n)a@end', '@if(true)a@else\\@end b@end', '@if(true)\\@else@end',
                '@if(x = 1)a@end', '@if(i1 == 1)a@elsexyz@end', '@if(false)a@elsexyz@end', '@if(i1, i0)a@end', '@if(true; true)a@end']:
        steps.append(ev(src, TDATA))
    # values that come from everywhere
    ways = ['%s', '(%s)', '[%s][0]', '{a: %s}.a', 'vt ? %s : 1', 'vf ? 1 : %s', '[1, %s].slice(1)[0]'.replace('1, ', '%s, '), 'true.then(%s)', 'false.then(1, %s)', '[%s].reverse()[0]', '[[%s]][0][0]']
    for v in VALUES + pick(r, conds, by(tier, 25, 99)):
        for w in pick(r, ways, by(tier, 3, 99)):
            e = w.replace('%s', v)
            steps.append(ev('@if(%s)T@else F@end{{ %s ? "t" : "f" }}@each(i in [1, 2])<@breakIf(%s)>@end' % (e, e, e), TDATA))
            steps.append(ev(r.choice(['{{ z = %s }}@if(z)T@elseif(vt)F@end', '@each(z in [%s])@if(z)T@else F@end@continueIf(z)n@end', '@if(vf)@elseif(%s)T@else F@end', '@for(z = %s; z; z = zz)T@break@end', '@each(i in [1, 2])<@continueIf(%s)>@end', '@for(i = 0; %s; i++)T@break@end', '@if(true){{ z = %s }}@each(k in [1])@breakIf(z)n@end@end']) % e, TDATA))
    # many branches and deep nests
    for n in (6, 9, 16, 17, 33, 64):
        for hit in {0, 1, n // 2, n - 2, n - 1, n}:
            steps.append(ev('<' + branch(r, [r.choice(T if k == hit else F) for k in range(n)], True) + '>', TDATA))
        d = min(n, 33)
        steps.append(ev(''.join('@if(%s)%d' % (r.choice(T), k) for k in range(d)) + '.' + ''.join('@else no@end%d' % k for k in range(d)), TDATA))
        steps.append(ev(''.join('@if(%s)no@else %d' % (r.choice(F), k) for k in range(d)) + '.' + ''.join('@end%d' % k for k in range(d)), TDATA))
        steps.append(ev(''.join('@if(%s)no@elseif(%s)%d' % (r.choice(F), r.choice(T), k) for k in range(d)) + '.' + ''.join('@else no@end' for k in range(d)), TDATA))
        steps.append(ev('{{ ' + ''.join('%s ? %d : ' % (r.choice(F), k) for k in range(d)) + '"last" }}', TDATA))
        steps.append(ev('@each(i in [0, 1])' + ''.join('@if(%s)%s@end' % (r.choice(T + F), k) for k in range(d)) + '@end', TDATA))
    cs = pack(steps, (), 'C02', 10)
    cs += placed(r, cs, by(tier, 120, 1500), note='C02')
    return cs + randoms('c02', seed, by(tier, 120, 3000), depth=3, loops=True, bad=.02, size=4)


# ---------------------------------------------------------------------------
# C03

def c03(tier, seed):
    r = rng(seed, 'c03')
    steps = []
    elems = {
        'int': (['1', '22', '3', '4', '5', '6'], [D.i_(k) for k in (4, 5, 6, 7, 8, 9)]),
        'str': (['"a"', '"b"', '""', '"d"', '"e"', '"f"'], [D.s_(x) for x in ('p', '', 'r', 's\u00e9', 't', 'u')]),
        'float': (['1.5', '2.0', '0.25', '4.0', '5.5', '6.0'], [D.f_(x) for x in (.5, 1.0, 2.5, 3.0, 4.0, 5.0)]),
        'bool': (['true', 'false', 'true', 'true', 'false', 'true'], [D.b_(x) for x in (True, False, False, True, True, False)]),
        'nil': (['nil'] * 6, [D.nil_()] * 6),
        'arr': (['[1]', '[]', '["x", "y"]', '[[2]]', '[3]', '[4]'], [D.l_([D.i_(k)]) for k in range(6)]),
        'obj': (['{v: 1}', '{v: 2}', '{v: 3}', '{v: 4}', '{v: 5}', '{v: 6}'], [D.st_([('V', True, D.i_(k))]) for k in range(6)]),
    }
    META = '{{ loop.index }}/{{ loop.iter }}/{{ loop.first }}/{{ loop.last }}'
    for t, (lit, dat) in elems.items():
        show = '{{ e.v }}' if t == 'obj' else '{{ e }}'
        for n in range(0, 6 if tier != 'quick' else 5):
            src = '[' + ', '.join(lit[:n]) + ']'
            d = dm(xs=D.l_(dat[:n], typed=bool(n % 2)), y=D.i_(1))
            for a in (src, 'xs'):
                steps.append(ev('<@each(e in %s)%s:%s;@else none@end>' % (a, show, META), d))
            steps.append(ev('@each(e in xs)%s@if(loop.last).@else,@end@end{{ y }}' % show, d))
    # every position of a control statement in the body, also under nested ifs
    ctl = ['@break', '@continue', '@breakIf(i == 1)', '@continueIf(i == 1)', '@breakIf(loop.last)', '@continueIf(loop.first)', '@breakIf(i)', '@continueIf(!loop.first)']
    wraps = ['%s', '@if(i == 1)%s@end', '@if(i == 0)z@elseif(i == 1)(%s)@else w@end', '@if(i > 0)@if(i == 2)x@else y%sn@end@end', '@if(true)@if(true)@if(i != 0)%s@end q@end@end',
             '@if(i == 5)@else%s@end', '@if(false)@elseif(true)a%sb@end', '@each(k in [1, 2])%s{{ k }}@end', '@each(k in [])x@else e%sf@end', '@for(k = 0; k < 2; k++){{ k }}%s@end',
             '@for(k = 0; k < 0; k++)x@else g%sh@end', '@if(i == 1)@each(k in [7, 8]){{ k }}@end%s@end']
    bodies = [c % w for w in [] for c in []]
    heads = [('@each(i in [0, 1, 2])', True), ('@for(i = 0; i < 3; i++)', False), ('@each(i in xs)', True), ('@for(i = 2; i >= 0; i--)', False)]
    for h, each in heads:
        for w in wraps:
            for c in ctl:
                if 'loop.' in c and not each and '@each' not in w:
                    continue
                if tier == 'quick' and r.random() < .45:
                    continue
                pos = r.choice(['A{{ i }}%sB', '%s{{ i }}', '{{ i }}%s', '{{ t = i }}%s[{{ t }}]'])
                tail = r.choice(['', '@else none'])
                steps.append(ev('(' + h + pos % (w % c) + tail + '@end)', dm(xs=D.l_([D.i_(0), D.i_(1), D.i_(2)]))))
    # nested loops: their loop objects and inner breaks
    inner = ['@each(w in [5, 6])' + META + '@end', '@for(w = 0; w < 2; w++){{ loop.index }}@end', '@each(w in [])x@else{{ loop.index }}@end',
             '@each(w in [1, 2, 3])@breakIf(w == 2){{ loop.iter }}@end', '@each(w in [1, 2, 3])@if(w == 2)@continue@end{{ loop.iter }}@end',
             '@each(w in [1])@each(z in [1, 2]){{ loop.last }}@end{{ loop.last }}@end', '@if(loop.first)@each(w in [1, 2])@break@end@end',
             '@for(w = 0; w < 9; w++)@if(w == 2)@break@end{{ w }}@end', '@each(w in [1, 2])@continue@end', '@each(w in v)x{{ w }}@end']
    for i in inner:
        for o in ('@each(v in [7, 8, 9])', '@each(v in [])', '@for(v = 0; v < 2; v++)'):
            b = i.replace('@each(w in v)', '@each(w in [v])')
            if 'for' in o:
                b = b.replace('{{ loop.index }}', 'q').replace('loop.first', 'v == 0')
            steps.append(ev(o + '<' + ('' if 'for' in o else META) + b + ('' if 'for' in o else META) + '>@else E@end', ()))
    steps.append(ev('@each(u in us){{ u.name }}:@each(t in u.tags){{ t }}{{ loop.last }}@else-@end;{{ loop.index }}@end',
                    dm(us=D.l_([D.st_([('Name', True, D.s_('n%d' % k)), ('Tags', True, D.l_([D.s_('t%d' % j) for j in range(k)]))]) for k in range(4)]))))
    # for loops: bounds, directions, clauses
    fors = []
    for a in range(-1, 4):
        for b in range(-1, 4):
            for c, p in (('<', 'i++'), ('<=', 'i++'), ('>', 'i--'), ('>=', 'i--'), ('<', 'i = i + 2'), ('>', 'i = i - 2'), ('!=', 'i++' if a <= b else 'i--')):
                fors.append((a, c, b, p))
    for a, c, b, p in pick(r, fors, by(tier, 70, 400)):
        steps.append(ev('@for(i = %d; i %s %d; %s){{ i }},@else none{{ i }}@end' % (a, c, b, p), ()))
        steps.append(ev('@for(i = lo; i %s hi; %s)@continueIf(i == 1){{ i }},@breakIf(i == 2)@else none@end.' % (c, p), dm(lo=D.i_(a), hi=D.i_(b))))
    extra = ['@for(i = 0; i < 3; i++)@end', '@for(i = 0; i < 3; i++)x@end{{ i }}', '@for(i = 0.0; i < 2.0; i++){{ i }} @end', '@for(; x < 3; x++){{ x }}@end{{ x }}',
             '@for(i = 0; i < 3;){{ i }}{{ i = i + 1 }}@end', '@for(i = "a"; i != "aaa"; i = i + "a"){{ i }}@end', '@for(;x < 3;){{ x = x + 1; x }}@end{{ x }}',
             '@for(i = 0; ; i++)x@end', '@for(;;)@end', '@for(i = 0)x@end', '@for()x@end', '@for(i = 0; i < 2)x@end', '@for(i = 0; i < 2; i++; i++)x@end', '@for(loop = 0; loop < 2; loop++)x@end',
             '@for(i = 0; i < 2; i++)@for(i = 0; i < 2; i++){{ i }}@end{{ i }};@end', '@for(i = 0; i < 2; i++)a@end b@for(i = 0; i < 2; i++)c@end', '@for(i = 0; nope; i++)x@end',
             '@for(i = nope; i < 1; i++)x@end', '@for(i = 0; i < 2; i = "x")y@end', '@for(i = 0; false; i++)x@else a{{ i }}@end', '@for(i = 0; "s"; i++)@break@end!', '@for(x = 0; x < 2; x++){{ x }}@end{{ x }}',
             '@for(x = "s"; x != ""; x = "")y@end', '@each(x in 5)a@end', '@each(x in "abc")a@end', '@each(x in nil)a@end', '@each(x in {a: 1})b@end', '@each(v in 1.5)a@end', '@each(v in true)a@else b@end',
             '@each(v in nope)a@end', '@each(v in [1, 2])@end', '@each(v in [])@end', '@each(v in [])@else@end', '@each(v in [1])a@else', '@each(v in [1])a', '@each(v of [1])a@end', '@each(v in)a@end', '@each(in [1])a@end',
             '@each(v in [1, 2]){{ v = v * 2 }}{{ v }}@end', '@each(v in [1, 2]){{ v = "s" }}@end', '@each(v in [1, 2])@each(v in [3, 4]){{ v }}@end{{ v }}@end', '@each(v in [1])@each(v in ["s"])x@end@end',
             '@each(loop in [1])a@end', '@each(x in ["a"])b@end', '@each(v in [1, 2]){{ loop = 1 }}@end', '@each(v in [1, 2]){{ t = loop.index }}{{ t }}@end', '@each(v in [[1, 2], [3]])@each(w in v){{ w }}{{ loop.index }}@end|@end',
             '@each(v in [1, 2, 3].reverse()){{ v }}@end', '@each(v in "a,b".split(",")){{ v }}{{ loop.last }}@end', '@each(v in [1, 2, 3].slice(1)){{ v }}{{ loop.iter }}@end', '@each(v in x > 1 ? [1] : [2]){{ v }}@end',
             '@each(v in [1, 2])a@if(loop.last)@break@end b@end c@each(v in [1])d@end', '@each(v in [1, 2, 3])@if(v == 2)@if(true)@continue@end@end{{ v }}@end', '@each(v in [1, 2, 3])@if(v == 2)@if(true)a@break@end@end{{ v }}@end',
             '@each(v in [1, 2, 3])@if(v == 1)@each(w in [1, 2])@break@end x@end{{ v }}@end', '@each(v in [1, 2])@breakIf(nope)@end', '@each(v in [1, 2])@continueIf(1 + "a")@end', '@each(v in [1, 2, 3]){{ v }}@continue{{ nope }}@end',
             '@each(v in [1, 2]){{ v }}@break{{ nope }}@end ok', '@each(v in [1, 2])@if(false)@break@end{{ v }}@end', '@each(v in [1, 2])@if(true)@else@break@end{{ v }}@end']
    for s in extra:
        steps.append(ev('<' + s + '>', dm(x=D.i_(1))))
    cs = pack(steps, (), 'C03', 10)
    # random nests of loops

    def nest(d, vs, each):
        out = ''
        for _ in range(r.choice([1, 2, 2, 3])):
            k = r.random()
            if d == 0 or k < .3:
                out += r.choice(['.', ' ', '|', '{{ %s }}' % r.choice(vs or ['1']), '{{ loop.%s }}' % r.choice(['index', 'iter', 'first', 'last']) if each else '-'])
            elif k < .42 and vs:
                v = r.choice(vs)
                c = r.choice(['%s == %d' % (v, r.randint(0, 3)), '%s > %d' % (v, r.randint(0, 2)), 'loop.last' if each else v, 'loop.index == 1' if each else '!(%s == 1)' % v])
                w = r.choice(['@break', '@continue'])
                out += r.choice([w + 'If(' + c + ')', '@if(' + c + ')' + r.choice(['', 'u']) + w + '@end', '@if(!(%s))k@else%s@end' % (c if '==' in c or '>' in c or '!' in c else c + ' == ' + c, w)
                                 if '==' in c or '>' in c else w + 'If(' + c + ')'])
            elif k < .55:
                out += '@if(%s)%s@else %s@end' % (r.choice(['%s == %d' % (v, r.randint(0, 3)) for v in vs] or ['true']), nest(d - 1, vs, each), nest(d - 1, vs, each))
            elif k < .85:
                v = 'v%d' % len(vs)
                out += '@each(%s in %s)%s' % (v, r.choice(['[]', '[1]', '[0, 1, 2]', '[3, 2, 1]', 'xs', 'xs.slice(1)']), nest(d - 1, vs + [v], True)) + r.choice(['', '@else(' + nest(d - 1, vs, each) + ')']) + '@end'
            else:
                v = 'v%d' % len(vs)
                h, b = r.choice([('%s = 0; %s < 3; %s++', 1), ('%s = 3; %s > 1; %s--', 1), ('%s = 0; %s < 0; %s++', 0)])
                out += '@for(%s)%s' % (h % (v, v, v), nest(d - 1, vs + [v], each)) + r.choice(['', '@else(' + nest(d - 1, vs, each) + ')']) + '@end'
        return out
    steps = [ev('@each(v0 in xs)' + nest(r.choice([1, 2, 2, 3]), ['v0'], True) + '@end', dm(xs=D.l_([D.i_(k) for k in range(r.randint(0, 4))]))) for _ in range(by(tier, 250, 4000))]
    cs += pack(steps, (), 'C03 nests', 6)
    # long arrays, deep nests, many control statements
    steps = []
    for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 60, 100, 101, 128, 129):
        a = '[' + ', '.join(map(str, range(n))) + ']'
        d = dm(xs=D.l_([D.i_(k) for k in range(n)], typed=bool(n % 2)), n=D.i_(n))
        for h in ('@each(i in %s)' % a, '@each(i in xs)', '@for(i = 0; i < n; i++)', '@each(i in xs.reverse())', '@each(i in xs.slice(%d))' % (n // 3)):
            for b in ('{{ i }},', '@if(loop.first)<@end{{ loop.index }}@if(loop.last)>@end' if 'each' in h else '.', '@continueIf(i == %d){{ i }}@breakIf(i == %d).' % (n // 2, n - 2), '{{ loop.iter }}' if 'each' in h else '@if(i == %d)@continue@end{{ i }};' % (n - 1)):
                if tier == 'quick' and r.random() < .4:
                    continue
                steps.append(ev(h + b + '@else no@end', d))
    for n in (3, 4, 5, 6, 8, 10):
        heads = [r.choice(['@each(v%d in [1])', '@for(v%d = 1; v%d < 2; v%d++)', '@each(v%d in [7, 8])' if k in (1, n - 1) else '@each(v%d in [1])']) for k in range(n)]
        for tail in ('{{ v0 }}', '@break', '@continue', '@breakIf(v%d == 7)' % (n - 1), '@if(v1 == 7)@continue@end'):
            steps.append(ev(''.join(h.replace('%d', str(k)) for k, h in enumerate(heads)) + tail + ''.join('{{ v%d }}@end' % k for k in reversed(range(n))), ()))
        steps.append(ev(''.join('@each(v%d in [])no@else %d' % (k, k) for k in range(n)) + '.' + '@end' * n, ()))
        steps.append(ev('@each(v in [1, 2, 3])' + ''.join('@if(v == %d)%d@if(v > 5)@break@end@end' % (k % 4, k) for k in range(n)) + '@continueIf(v == 2)e@end', ()))
    cs += pack(steps, (), 'C03 sizes', 6)
    return cs + placed(r, cs, by(tier, 150, 1500), note='C03')


# ---------------------------------------------------------------------------
# C04

LITS = {INT: ['1', '2', '3', '0'], STR: ['"s"', '"t"', '""'], FLOAT: ['1.5', '2.5'], BOOL: ['true', 'false'], NIL: ['nil'], arr_of(INT): ['[1]', '[2, 3]', '[]'], OBJ: ['{k: 1}']}


class Scopes:
    """programs of assignments and reads over a few names"""

    def __init__(self, r, wild):
        self.r, self.wild = r, wild
        self.names = r.sample(['x', 'y', 'z', 'u'], r.choice([2, 3]))

    def val(self, env, name, depth):
        r = self.r
        t = env.get(name)
        if t is None or r.random() < self.wild:
            t = r.choice(list(LITS)) if r.random() < .5 else INT
        same = [n for n in env if env[n] == t and n in self.names]
        if t == INT and same and r.random() < .5:
            return t, r.choice(same) + r.choice([' + 1', ' * 2', ''])
        if t == STR and same and r.random() < .5:
            return t, r.choice(same) + ' + "q"'
        return t, r.choice(LITS[t])

    def read(self, env):
        r = self.r
        vis = [n for n in env if env[n] != OBJ]
        if vis and r.random() > self.wild / 2:
            return '{{ %s }}' % r.choice(vis)
        return '{{ %s }}' % r.choice(self.names) if r.random() < self.wild else ''

    def block(self, env, depth):
        r = self.r
        out = ''
        for _ in range(r.choice([1, 2, 3, 3, 4])):
            k = r.random()
            if k < .3:
                n = r.choice(self.names if r.random() > .02 else ['loop'])
                t, e = self.val(env, n, depth)
                out += '{{ %s = %s }}' % (n, e)
                if n not in env:
                    env[n] = t
            elif k < .6 or depth == 0:
                out += self.read(env) + r.choice(['', ',', ' '])
            elif k < .8:
                c = r.choice(['true', 'false', '1 == 1'] + [n for n in env])
                out += '@if(%s)' % c + self.block(dict(env), depth - 1)
                if r.random() < .4:
                    out += '@elseif(%s)' % r.choice(['true', 'false'] + [n for n in env]) + self.block(dict(env), depth - 1)
                if r.random() < .5:
                    out += '@else ' + self.block(dict(env), depth - 1)
                out += '@end' + self.read(env)
            elif k < .93:
                n = r.choice(self.names if r.random() < .5 else ['e', 'w'])
                t = env.get(n, INT) if r.random() > self.wild else r.choice([INT, STR])
                if t not in (INT, STR, FLOAT, BOOL):
                    n, t = 'e%d' % depth, INT
                a = '[' + ', '.join(r.choice(LITS[t]) for _ in range(r.choice([0, 1, 2, 3]))) + ']'
                inner = dict(env)
                inner[n] = t
                out += '@each(%s in %s)' % (n, a) + self.block(inner, depth - 1) + ('@else ' + self.block(dict(env), depth - 1) if r.random() < .3 else '') + '@end' + self.read(env)
            else:
                n = 'i%d' % depth
                inner = dict(env)
                inner[n] = INT
                out += '@for(%s = 0; %s < %d; %s++)' % (n, n, r.choice([0, 1, 2]), n) + self.block(inner, depth - 1) + ('@else ' + self.block(dict(env), depth - 1) if r.random() < .3 else '') + '@end' + self.read(env)
        return out


DATA_OF = {INT: D.i_(41), STR: D.s_('ds'), FLOAT: D.f_(4.5), BOOL: D.b_(True), NIL: D.nil_(), arr_of(INT): D.l_([D.i_(7)]), OBJ: D.m_([('k', D.i_(3))])}


def c04(tier, seed):
    r = rng(seed, 'c04')
    steps = []
    # re-assignment and loop variables: every pair of types, in every kind of place
    places = ['{{ x = A }}{{ x = B }}{{ x }}', '{{ x = A; x = B; x }}', '{{ x = A }}@if(true){{ x = B }}{{ x }}@end{{ x }}', '{{ x = A }}@each(v in [1, 2]){{ x = B }}@end{{ x }}',
              '{{ x = A }}@for(i = 0; i < 1; i++){{ x = B }}{{ x }}@end{{ x }}', '{{ x = A }}@each(x in [B]){{ x }}@end{{ x }}', '{{ x = A }}@for(x = B; x; x = B)@break@end{{ x }}',
              '@if(true){{ x = A }}@end{{ x = B }}{{ x }}', '@each(x in [A]){{ x }}@end{{ x = B }}{{ x }}', '@each(v in [1]){{ x = A }}@else z@end@if(true){{ x = B }}{{ x }}@end', '@if(false)@else{{ x = A }}@end{{ x }}',
              '@if(true){{ x = A }}{{ x }}@if(true){{ x = B }}{{ x }}@end{{ x }}@end', '@each(x in [A, A]){{ x = B }}{{ x }}@end', '@each(v in [1, 2]){{ x = A }}{{ x = B }}{{ x }}@end']
    shows = {OBJ: 'x.k'}
    for p in places:
        for ta in LITS:
            for tb in LITS:
                if tier == 'quick' and r.random() < .55 and ta != tb:
                    continue
                s = p.replace('A', r.choice(LITS[ta])).replace('B', r.choice(LITS[tb]))
                if OBJ in (ta, tb):
                    s = s.replace('{{ x }}', '{{ x.k }}').replace('; x }}', '; x.k }}')
                steps.append(ev(s, ()))
    # data that pre-binds the name
    for t in LITS:
        for tb in LITS:
            for p in ('{{ x = B }}ok{{ y }}', '@if(true){{ x = B }}@end{{ x == x }}', '@each(x in [B])a@end', '@each(v in [1]){{ x = B }}@end{{ v }}', '@for(x = B; false; x = B)a@end', '@each(x in [])a@else{{ y }}@end'):
                if tier == 'quick' and r.random() < .5:
                    continue
                steps.append(ev(p.replace('B', r.choice(LITS[tb])), dm(x=DATA_OF[t], y=D.i_(6))))
    for s in ['{{ loop }}', '{{ loop = 1 }}', '{{ loop = nil }}', '@if(true){{ loop = {index: 1} }}@end', '@each(loop in [{a: 1}])x@end', '@for(loop = 0; loop < 1; loop++)x@end', '@each(v in [1]){{ loop = loop }}@end',
              '@each(v in [1])a@end{{ loop.index }}', '@each(v in [1])@end{{ v }}', '@for(i = 0; i < 1; i++)@end{{ i }}', '@each(v in [1, 2])@each(w in [3])@end{{ w }}@end', '@if(true){{ q = 1 }}@end{{ q }}',
              '@if(false){{ q = 1 }}@else{{ q }}@end', '@if(q)x@end', '@each(v in [1]){{ q = 1 }}@end{{ q }}', '@each(v in [])a@else{{ q = 1 }}@end{{ q }}', '@for(i = 0; i < 0; i++)a@else{{ q = 1 }}{{ q }}@end{{ q }}',
              '@for(i = 0; i < 1; i++)a@end@for(i = "s"; i == ""; i = "")b@end', '@each(v in [1])a@end@each(v in ["s"]){{ v }}@end', '{{ v = "s" }}@each(v in [1])a@end', '{{ i = "s" }}@for(i = 0; i < 1; i++)a@end', '@each(v in v)a@end',
              '{{ x = x }}', '{{ x = 1 }}{{ x = x + 1; x = x * 3 }}{{ x }}', '{{ x = [1]; x = ["a"] }}{{ x }}', '{{ x = {a: 1}; x = {b: "c"} }}{{ x.b }}', '{{ x = 1 }}{{ y = x }}{{ x = 2 }}{{ y }}', '{{ a = [1, 2] }}{{ b = a.append(3) }}{{ a }};{{ b }}',
              '{{ x = 1 }}@if(true){{ x = 2 }}@if(true){{ x = 3 }}{{ x }}@end{{ x }}@end{{ x }}', '{{ x = 1 }}@each(v in [1, 2, 3]){{ x = x + v }}@end{{ x }}', '{{ x = 1 }}@each(v in [1, 2, 3]){{ x = x + v }}{{ x }}@end', '{{ X = 1 }}{{ x }}', '{{ true = 1 }}', '{{ nil = 1 }}', '{{ in = 1 }}', '{{ 5 = x }}', '{{ x.y = 1 }}', '{{ x[0] = 1 }}', '{{ x = }}', '{{ x == 1 = 2 }}', '{{ x = y = 1 }}']:
        steps.append(ev(s, ()))
        steps.append(ev(s, dm(q=D.i_(8), x=D.i_(5))))
    for d in (D.i_(1), D.m_([('index', D.i_(3))]), D.nil_()):
        steps.append(ev('a', [(b'loop', d)]))
        steps.append(ev('{{ loop.index }}', [(b'loop', d), (b'x', D.i_(1))]))
        steps.append(ev('@each(v in [1]){{ loop.index }}@end', [(b'loop', d)]))
    cs = pack(steps, ('has',), 'C04', 10)
    steps = []
    for k in range(by(tier, 500, 9000)):
        rr = rng(seed, 'c04s', k)
        g = Scopes(rr, rr.choice([0, 0, .05, .15]))
        env, data = {}, []
        for n in g.names:
            if rr.random() < .4:
                env[n] = rr.choice(list(LITS))
                data.append((n.encode(), DATA_OF[env[n]]))
        steps.append(ev(g.block(env, rr.choice([1, 2, 3])) + g.read(env) + g.read(env), data))
    cs += pack(steps, (), 'C04 programs', 8)
    steps = []
    for n in (5, 8, 12, 20, 33):
        ns = ['v%d' % k for k in range(n)]
        lits = [r.choice(['1', '"s"', '1.5', 'true', '[1]']) for _ in ns]
        for w in ('%s', '@if(true)%s@end', '@each(q in [1, 2])%s@end', '@for(q = 0; q < 1; q++)%s@end', '@each(q in [])@else%s@end'):
            k = r.randrange(n)
            body = ''.join('{{ %s = %s }}' % (a, b) for a, b in zip(ns, lits)) + ''.join('{{ %s }}' % a for a in ns)
            steps.append(ev(w % (body + '{{ %s = %s; %s }}' % (ns[k], lits[k], ns[k])), ()))
            steps.append(ev(w % (body + '{{ %s = %s }}' % (ns[k], '"o"' if lits[k] != '"s"' else '5')), ()))
            steps.append(ev(w % body + '{{ %s }}' % ns[k], ()))
        deep = ''.join(r.choice(['@if(true)', '@each(q%d in [1])' % k, '@for(q%d = 0; q%d < 1; q%d++)' % (k, k, k), '@if(false)@else ']) + '{{ w%d = %d }}' % (k, k) for k in range(n))
        k = r.randrange(n)
        steps.append(ev('{{ o = 1 }}' + deep + '{{ o = 2 }}{{ o }}{{ w%d }}{{ w%d = 50; w%d }}' % (k, k, k) + '{{ o }}@end' * n + '{{ o }}', ()))
        steps.append(ev('{{ o = 1 }}' + deep + '{{ o = "s" }}' + '@end' * n, ()))
        steps.append(ev('{{ o = 1 }}' + deep + '@end' * n + '{{ o }}{{ w%d }}' % k, ()))
    cs += pack(steps, (), 'C04 sizes', 4)
    return cs + placed(r, cs, by(tier, 150, 1500), note='C04')
