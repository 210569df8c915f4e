"""Cases for the properties about texts, faults, built-ins and data (C05, C08-C13, C19)."""
import itertools
from . import data as D
from .cases1 import ev, enc, pack, pick, by, dm, randoms, BASE
from .gen import Gen, rng, INT, FLOAT, STR, BOOL, NIL, OBJ, arr_of, INTS, FLOATS, MARKUP, WORDS, STRANGE
from .run import case, evalstr
from .trees import load, render, placed, files

# ---------------------------------------------------------------------------
# C05

TEXTS = ['a', ' ', '\n', '\r\n', '\\', '@', '{', '}', '{{', '}}', '{{--', '--}}', '--', '-', '@if', '@end', '@else', '@elseif', '@els', '@e', '@each', '@for', '@break', '@breakIf',
         '@use', '@insert', '@reserve', '@component', '@slot', '@dump', '@continue', '@continueIf', '(', ')', '"', "'", 'x', '{{ x }}', '@if(x)', '\u00e9', '\\@if', '\\{{', '\\\\', '<', '%', '@iff', '@endx', '@If',
         '\u65e5', '\t', '(x)', ' (', '@in', '$', '{{x}}', 'if', 'end', '\x01', '\u2028', '@@', '{ {', '} }', '{{ "}}" }}', '-}}', '{--', '{{-', '\\}}', '\\--}}', '\\a', '@breakI', '@continu', '@dum', '@component(', '@slot(']
RAW = [b'\xff', b'\x00', b'\xc3', b'\x80\x80']
XD = dm(x=D.i_(5), y=D.s_('<y>'))


def ambiguous(s):
    """comments shorter than their two marks"""
    return b'{{--}}' in s or b'{{---}}' in s


def texts(seed, tag, alphabet, lens, n):
    r = rng(seed, tag)
    for _ in range(n):
        yield b''.join(enc(r.choice(alphabet)) for _ in range(r.choice(lens)))


def c05(tier, seed):
    r = rng(seed, 'c05')
    al = TEXTS + RAW
    srcs = [enc(a) for a in al] + [enc(a) + enc(b) for a in al for b in al]
    small = ['a', '\\', '@', '{', '}', '{{', '}}', '{{--', '--}}', '-', '@if', '@end', '@else', '(', ')', '\n', '{{ x }}', '@if(x)', '\u00e9', '\\@', '\\{{', '@endx']
    srcs += pick(r, [b''.join(map(enc, t)) for t in itertools.product(small, repeat=3)], by(tier, 1500, 12000))
    if tier != 'quick':
        srcs += [b''.join(map(enc, t)) for t in itertools.product(['a', '\\', '@if', '{{', '}}', '{{--', '--}}', '@end', '(x)', '\n'], repeat=4)]
    srcs += list(texts(seed, 'c05t', al, range(3, 12), by(tier, 1500, 25000)))
    # every byte
    srcs += [bytes([b]) for b in range(256)] + [b'a' + bytes([b]) + b'{{ x }}' + bytes([b]) + b'@if(x)' + bytes([b]) + b'@end' + bytes([b]) for b in range(256)]
    # texts around constructs
    holes = ['{{ x }}%s', '%s{{ x }}', '@if(x)%s@end', '@if(x)a@end%s', '{{-- c --}}%s', '%s{{-- c --}}', '@if(x)a@else%s@end', '@each(i in [1, 2])%s@end', '@each(i in [1])%s@break@end%s', '{{ x = 6 }}%s{{ x }}',
             '@each(i in [1])@breakIf(false)%s@end', '{{-- %s --}}', 'a{{-- %s --}}b', '{{ "%s" }}', '@if(x)@if(x)%s@end%s@end%s', '{{ x }}%s{{ x }}%s{{ x }}', '@if(!true)@elseif(x)%s@end', '@for(i = 0; i < 2; i++)%s@end']
    for h in holes:
        for _ in range(by(tier, 40, 400)):
            w = b''.join(enc(r.choice(al)) for _ in range(r.choice([1, 1, 2, 3])))
            srcs.append(enc(h).replace(b'%s', w))
    esc = ['\\{{ x }}', '\\@if(x)a@end', '\\\\{{ x }}', '\\@end', '\\@else', '\\@elseif(x)', 'a\\@each(v in xs)', '\\{{-- c --}}', '\\{{ x }}{{ x }}', '{{ x }}\\{{ x }}', '@if(x)\\@end@end', '{{-- c --}}\\@if(x)', '{{-- c --}}\\{{ x }}', '@if(x)\\{{ x }}@end',
           '\\@ if', '\\@iff', '\\@foo', 'a\\b', '\\n', '\\\\@if', '\\{', '\\}}', '}}', 'a }} b', '}} {{ x }}', '{{ x }}}}', '{{ x }}}', '{{{ x }}', '{ {{ x }} }', '{{ x }} }}', '\\{{{ x }}', '\\{{{', '{{ x }}@', '@@if(x)a@end', 'me@end.com', 'me\\@end.com', 'x@if.y', '{{-- a -- b --}}c',
           '{{-- }} --}}c', '{{-- {{ x }} --}}c', '{{-- @if(x) --}}c', '{{-- " --}}c', '{{----}}c', '{{-----}}c', '{{------}}c', '{{-- a --}}--}}', '{{-- a', '{{--', '{{-- a -}}', '{{-- a -- }}', '{{-- a --}', '{{-- \n\n --}}c', '{{-- \\--}}c', '{{-- a --}}{{-- b --}}{{ x }}{{-- d --}}',
           '{{ x {{-- c --}} }}', '@if(x){{-- @end --}}a@end', '{{-- a --}}\n{{-- b --}}\n', '<div {{-- c --}}>', '@if(x){{-- c --}}@else{{-- d --}}@end', '@each(i in [1, 2]){{-- i --}}@end', '\\', '\\\\', 'a\\', '@if(x)\\@end', '@if(x)a\\@else b@end', '@', '{', '{{', '@i', '@e', '@if(x)a@endb@end', 'a\\@endb',
           '\\@component("x")', '\\@slot', '\\@use("a")', '\\@dump(x)', '\\@breakIf(x)', '\\@continueIf', '\\@insert("a", "b")', '\\@reserve("a")', '\\@for(;;)', '\\@break', '\\@continue', 'a\\@breakIfx', '\\@slots', '\\@used', '\\{{ "a" }} {{ "b" }}', '\\{{ x', '\\@if', '@if(x)}}@end', '@if(x){@end', '}}@if(x)}}@end}}', '{{ x }}\\@if(x){{ x }}', '(\\@if)', '@each(i in [1])\\@break@end', '{{ x }}\\}}']
    srcs += [enc(e) for e in esc] + [enc(a) + enc(b) for a, b in pick(r, [(a, b) for a in esc for b in esc], by(tier, 400, 6000))]
    # long texts
    for n in (100, 1000, 4000):
        srcs.append(b'word <p> }} \n' * (n // 12) + b'{{ x }}' + b'\\@end ' * 20)
    srcs = [s for s in srcs if not ambiguous(s)]
    cs = pack([ev(s, XD) for s in srcs], (), 'C05', 25)
    return cs + placed(r, cs, by(tier, 150, 2000), note='C05', only=('page', 'component', 'each', 'args'))


# ---------------------------------------------------------------------------
# C19 and C08: lexemes

CODE = ['1', '1.5', '"s"', "'t'", '"a\nb"', '"\\""', 'x', 'true', 'nil', 'in', 'in_', '+', '-', '*', '/', '%', '++', '--', '!', '=', '==', '!=', '<', '>', '<=', '>=', '(', ')', '[', ']', '{', '}', '?', ':', ',', '.', ';', '\n', ' ',
        '#', '$', '&', '|', '"', "'", '~', '\u00e9', '12345', 'abc_1', '\t', '\r\n']
MARKS = ['{{', '}}', '{{ ', ' }}', '@if(', '@elseif(', '@else', '@end', '@each(', '@for(', '@use(', '@insert(', '@reserve(', '@component(', '@slot(', '@slot', '@dump(', '@break', '@continue', '@breakIf(', '@continueIf(', 'text', '\n', '\\@if', '\\{{', '{{-- c --}}', '{{-- \n --}}',
         '{{--', '--}}', '@', '\\', '{{ x }}', '@if(x)', '@endx', '\u65e5\u672c', ')', '("a")', '@if', '@each', '@use', '@breakIf', '"']
ALL = CODE + MARKS


def corpus(seed, tag, n, **opt):
    """generated valid templates, as bytes"""
    out = []
    for k in range(n):
        g = Gen(rng(seed, tag, k), bad=0, **opt)
        types, _ = g.scope(3)
        out.append(enc(g.template(types=types)))
    return out


TREES = [b'@use("~main")\n@insert("title", "T")\n@insert("body")\n<p>{{ x }}</p>\n@end', b'@component("card", {a: 1, "b": [2], c})\n @slot("x") hi @end\n @slot d @end\n@end', b'<h1>@reserve("title")</h1>@reserve(\'b\')', b'@component("~c")', b'<b>@slot</b>@slot("f")',
         b'@dump(x, 1 + 2, "s")', b'@each(v in [1, 2])@component("c", {v: v})@slot{{ v }}@end@end@end', b'{{ {a: 1, "b": {c: [1, {d: 2}]}}.b.c[1].d }}', b'@for(;;)@break@end', b'@for(i = 0; i < 2; i++){{ i }}@else no@end', b'{{ a; b = 2; c.d(1, "x")[0]++ }}',
         b'@insert("a", x ? 1 : 2)', b'{{ x ? "a" : y ? \'b\' : {} }}', b'@if(a)@elseif(b)@else@end', b'@breakIf(a == 1)@continueIf(!b)@break@continue', b'{{ [[], [1], {}] }}', b'\\@if(x)\\{{ y }}{{-- c --}}\n\r\n']


def c19(tier, seed):
    r = rng(seed, 'c19')
    srcs = [b''] + [enc(a) for a in ALL + TEXTS] + RAW
    srcs += [b'{{' + enc(a) + enc(b) for a in CODE for b in CODE]
    srcs += [enc(a) + enc(b) for a in MARKS for b in MARKS]
    srcs += pick(r, [enc(a) + enc(b) + enc(c) for a in MARKS for b in ALL for c in ALL], by(tier, 1200, 15000))
    srcs += pick(r, [b'{{' + enc(a) + enc(b) + enc(c) + b'}}' for a in CODE for b in CODE for c in CODE], by(tier, 800, 10000))
    srcs += list(texts(seed, 'c19t', ALL + RAW, range(3, 14), by(tier, 900, 15000)))
    srcs += list(texts(seed, 'c19u', TEXTS, range(3, 10), by(tier, 500, 8000)))
    srcs += [b'a' + bytes([b]) + b'{{ ' + bytes([b]) + b' }}' for b in range(256)]
    srcs += TREES
    srcs = [s for s in srcs if not ambiguous(s)]
    cs = pack([{'op': 'lex', 'src': s} for s in srcs], (), 'C19', 25)
    docs = corpus(seed, 'c19d', by(tier, 80, 1500), newlines=.3, crlf=.4, newlit=.2)
    some = docs + TREES + pick(r, srcs, by(tier, 500, 8000))
    cs += pack([{'op': 'lex', 'src': s} for s in docs], (), 'C19', 4)
    cs += pack([{'op': 'contains', 'src': s} for s in some], (), 'C19 cursors', 6)
    return cs


def mutants(r, s, n):
    """prefixes and single edits of a template"""
    import re
    out = [s[:k] for k in (range(len(s)) if len(s) <= n else sorted(r.sample(range(len(s)), n)))]
    toks = re.findall(rb'[A-Za-z_]+|@[A-Za-z]+|[0-9.]+|\{\{|\}\}|\+\+|--|[<>=!]=|\s+|"[^"]*"|.', s, re.S)
    for _ in range(n):
        t = list(toks)
        if not t:
            break
        i = r.randrange(len(t))
        k = r.random()
        if k < .35:
            del t[i]
        elif k < .6:
            t.insert(i, t[i])
        elif k < .8 and len(t) > 1:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        else:
            t.insert(i, enc(r.choice(ALL)))
        out.append(b''.join(t))
    return out


SPOTS = [b'{{ % }}', b'{{ 1 % }}', b'{{%1 }}', b'{{ 1 + % 2 }}', b'{{ 1 % + 2 }}', b'{{ x % y }}', b'@if(%)a@end', b'@if(x %)a@end', b'@if(% x)a@end', b'@if(x)a@elseif(x%)b@end', b'@each(v % in l)a@end', b'@each(v in l %)a@end', b'@for(i = 0;% i < 1; i++)a@end', b'@for(i = 0; i < 1; i++ %)a@end', b'@component("c"%)', b'@component("c", {a: 1 %})', b'@component("c")@slot("a" %)x@end@end', b'@use("a"%)',
         b'@insert("a", %1)', b'@insert("a"%)b@end', b'@reserve(%"a")', b'@dump(x%)', b'@breakIf(x %)', b'{{ [1,% 2] }}', b'{{ [1 % , 2] }}', b'{{ {a%: 1} }}', b'{{ {a: 1,% b: 2} }}', b'{{ x.%a }}', b'{{ x %.a }}', b'{{ x[%0] }}', b'{{ x[0 %] }}', b'{{ x ? %1 : 2 }}', b'{{ x ? 1 : 2 % }}', b'{{ "a" % }}', b'{{ x.f(%1) }}', b'{{ x.f(1 %) }}', b'{{ x = %1 }}', b'{{ x %= 1 }}', b'{{ (%1) }}', b'{{ -%1 }}', b'{{ x;% y }}', b'{{ x++ % }}', b'text{{ x }}%{{ x }}', b'@if%(x)a@end',
         b'@if(x)a@else%b@end', b'{{ "a%b" }}', b'{{ 1%2 }}', b'{{ a%b }}', b'{{ 1.5% }}']


def tame(s):
    """templates that are evaluated must not run for long"""
    return b'@for' not in s and b'repeat' not in s and b'decimal' not in s


def c08(tier, seed):
    r = rng(seed, 'c08')
    srcs = [b''] + [enc(a) for a in ALL] + [b'{{' + enc(a) + enc(b) for a in CODE for b in CODE]
    srcs += [enc(a) + enc(b) for a in MARKS for b in ALL]
    heads = [b'{{ ', b'@if(', b'@each(', b'@each(v in ', b'@for(', b'@for(i = 0; ', b'@use(', b'@insert(', b'@insert("a", ', b'@component(', b'@component("c", ', b'@component("c", {', b'@component("c")@slot(', b'@component("c") ', b'@slot(', b'@reserve(', b'@dump(', b'@breakIf(', b'{{ [', b'{{ {', b'{{ {a: ', b'{{ f.g(', b'{{ x[', b'{{ x.', b'{{ x ? ', b'{{ x ? y : ', b'{{ x = ', b'{{ (', b'{{ -', b'{{ "', b'{{-- ', b'@if(x)', b'@if(x)a@else', b'@each(v in [1])', b'@if(x)a@elseif(', b'@component("c")', b'@insert("a")', b'@component("c")@slot("a")', b'@component("c")@slot', b'@for(;;)', b'@else', b'@end', b'{{ x++ ', b'{{ "a" ', b'{{ 5 ', b'{{ nil ', b'{{ {"a": 1, ', b'{{ {a', b'@component("c", {a']
    srcs += [h for h in heads] + [h + enc(a) for h in heads for a in ALL]
    srcs += pick(r, [h + enc(a) + enc(b) for h in heads for a in ALL for b in ALL], by(tier, 1500, 30000))
    srcs += list(texts(seed, 'c08t', ALL + RAW, range(3, 16), by(tier, 800, 20000)))
    docs = corpus(seed, 'c08d', by(tier, 30, 500), depth=2) + TREES
    valid = list(docs)
    for s in docs:
        srcs += mutants(r, s, by(tier, 18, 60))
    srcs += [bytes(r.randrange(256) for _ in range(r.choice([1, 5, 20, 60]))) for _ in range(by(tier, 100, 2000))]
    # every byte at every kind of place
    others = [b for b in range(256) if not chr(b).isalnum() or b >= 128 or chr(b) in '09azAZ']
    for h in SPOTS:
        srcs += [h.replace(b'%', bytes([b])) for b in (others if tier != 'quick' else [b for b in others if b < 128 or r.random() < .12])]
    srcs = [s for s in srcs if not ambiguous(s)]
    cs = pack([{'op': 'parse', 'src': s} for s in valid + srcs], (), 'C08', 25)
    # the string API on the same inputs
    some = [s for s in pick(r, srcs, by(tier, 800, 12000)) if tame(s)]
    cs += pack([ev(s, dm(x=D.i_(1))) for s in some], (), 'C08 strings', 15)
    # huge and deeply nested inputs: only that they return
    huge = []
    for n in by(tier, (200, 20000), (200, 5000, 60000)):
        for a in ('(', '[', '{', '-', '!', '{{', '{{ (', '@if(', '@if(x)', '@each(v in [1])', '{{ [', '{a:', '1 +', '1 ? ', 'x[', 'x.', '"', '@', '\\', '{{-- ', '@component("c")', '@component("c")@slot', '@insert("a")', '@for(;;)', '@else', '@elseif(x)', '@end', '@slot("x")', 'x(', '.f(', ';', ',', '#', '\x00'):
            huge.append((enc(a) * n)[:200000])
            huge.append((b'{{ ' + enc(a) * n)[:200000])
        huge += [b'{{ ' + b'(' * n + b'1' + b')' * n + b' }}', b'{{ ' + b'[' * n + b']' * n + b' }}', b'@if(true)' * n + b'@end' * n, b'{{ ' + b'-' * n + b'1 }}', b'{{ ' + b'1 + ' * n + b'1 }}', b'{{ x' + b'.a' * n + b' }}', b'{{ x' + b'[0]' * n + b' }}', b'{{ ' + b'{a:' * n + b'1' + b'}' * n + b' }}',
                 b'{{ ' + b'true ? ' * n + b'1' + b' : 2' * n + b' }}', b'{{ ' + b'true ? 1 : ' * n + b'2 }}', b'@if(false)' + b'@elseif(false)' * n + b'@end', b'{{ ' + b'!' * n + b'true }}', b'@each(v in [1])' * min(n, 200) + b'x' + b'@end' * min(n, 200)]
    for s in huge:
        cs.append(case([{'op': 'parse', 'src': s}], chk=('loose',), note='C08 huge'))
    for s in huge:
        if tame(s):
            cs.append(case([ev(s, ())], chk=('loose',), note='C08 huge'))
    # the content of files
    bad = pick(r, srcs, by(tier, 60, 900)) + [s[:k] for s in TREES for k in pick(r, range(len(s)), by(tier, 3, 40))]
    roles = [('t/page.tw', '', ()), ('t/layouts/main.tw', '@use("~main")@insert("title", "x")', ()), ('t/components/c.tw', '@component("~c")@slot a@end@end', ()), ('t/a/b/deep.tw', '', ())]
    for s in bad:
        p, other, _ = r.choice(roles)
        fs = [(enc(p), s, 'file'), (b't/ok.tw', b'fine', 'file')]
        if other:
            fs.append((b't/user.tw', enc(other), 'file'))
        steps = [{'op': 'load', 'opt': {'has': True, 'dir': b't', 'ext': b'.tw', 'err': b'', 'debug': False}}]
        if tame(s):
            steps.append({'op': 'evalfile', 'file': enc(p), 'data': dm(x=D.i_(1))})
        cs.append(case(steps, fs=fs, note='C08 files'))
    return cs


# ---------------------------------------------------------------------------
# C09

EVERY = [D.b_(True), D.b_(False), D.s_(''), D.s_('abc'), D.s_('h\u00e9llo \u65e5\u672c'), D.s_(b'\xff\xfe'), D.s_('12'), D.i_(0), D.i_(1), D.i_(-1), D.i_(3), D.i_(2**63 - 1), D.i_(-2**63), D.i_(200, 'uint8'), D.f_(0.0), D.f_(1.5), D.f_(-0.0),
         D.f_(float('nan')), D.f_(float('inf')), D.f_(1e300), D.nil_(), D.nil_('ptr'), D.nil_('structptr'), D.nil_('ptrptr'), D.l_([]), D.l_([D.i_(1), D.i_(2), D.i_(3)]), D.l_([D.s_('b'), D.i_(1), D.nil_(), D.l_([])]), D.l_([D.l_([D.i_(1)]), D.l_([])]), D.m_([]), D.m_([('a', D.i_(1)), ('', D.i_(2)), ('A', D.i_(3))]),
         D.st_([]), D.st_([('Name', True, D.s_('n')), ('Age', True, D.i_(5)), ('secret', False, D.i_(1))]), D.p_(D.st_([('X', True, D.p_(D.i_(4)))])), D.p_(D.p_(D.s_('pp'))), D.l_([], name='nil'), D.m_([], name='nil')]
BADDATA = ['chan', 'nilchan', 'func', 'nilfunc', 'complex64', 'complex128', 'array', 'array0', 'intmap', 'unsafe', 'cycle', 'slicecycle', 'mapcycle', 'chanptr']
BUILTINS = ['len', 'split', 'raw', 'trim', 'trimRight', 'trimLeft', 'upper', 'lower', 'capitalize', 'reverse', 'contains', 'truncate', 'decimal', 'at', 'first', 'last', 'repeat', 'join', 'rand', 'slice', 'shuffle', 'append', 'prepend', 'float', 'abs', 'str', 'int', 'ceil', 'floor', 'round', 'binary', 'then']
BIG = ('9223372036854775807', '-9223372036854775807 - 1', '9223372036854775806')
ARGS = ['', '0', '1', '2', '-1', '-2', '3', '100', '1000000', '9223372036854775807', '-9223372036854775807', '-9223372036854775807 - 1', '"a"', '""', '"\u00e9"', '1.5', 'true', 'nil', '[]', '[1]', '{}', '{a: 1}', '0, 0', '1, 2', '2, 1', '-1, -1', '0, 9223372036854775807', '1, "x"', '"x", 1', '"x", -1', '"x", 100000', '"", 0', '1, nil', 'nil, nil', '1, 2, 3', '"a", "b", "c"', 'x', 'x, x',
        '1.5, 2.5', 'true, false', '[], []', '9223372036854775807, "y"', '-9223372036854775807, 5', '5, -9223372036854775807', '"x", 9223372036854775807', '2147483648', '1099511627776', '"0123456789", 5000']


def c09(tier, seed):
    r = rng(seed, 'c09')
    steps = []
    shapes = ['{{ x }}', '{{ x[0] }}', '{{ x[y] }}', '{{ x.name }}', '{{ x[""] }}', '{{ x.a.b }}', '{{ -x }}', '{{ !x }}', '{{ x++ }}', '{{ x-- }}', '{{ x + y }}', '{{ x - y }}', '{{ x * y }}', '{{ x / y }}', '{{ x % y }}', '{{ x == y }}', '{{ x < y }}', '{{ x >= y }}', '{{ x ? y : x }}', '{{ [x, y] }}', '{{ {k: x} .k }}',
              '@if(x)a@else b@end', '@each(v in x){{ v }}@end', '@each(v in [x, y]){{ v }}{{ loop.index }}@end', '@for(i = x; i < y; i++)@break@end', '@for(i = x; i == y; i++)@break@end', '@for(i = 0; i < 1; i = x)@break@end', '@for(i = 0; x; i++)@break@end', '@dump(x, y)', '@dump(x)', '{{ x = y }}', '{{ z = x; z = y; z }}', '@each(x in [y])a@end', '@each(v in [1])@breakIf(x)@continueIf(y)@end', '{{ x.y.z }}', '{{ x[x] }}', '{{ x[-1] }}', '{{ x["Name"] }}', '{{ x.Name }}', '{{ x[y]++ }}', '{{ x.len() }}', '{{ x.f(y) }}', '{{ (x)[1][2] }}', '{{ x[9223372036854775807] }}', '{{ x[-9223372036854775807] }}', '{{ x[1.5] }}', '{{ x[nil] }}', '{{ x[true] }}', '{{ x[[]] }}', '{{ x.secret }}', '{{ {x}.x }}', '{{ {x, y} }}', '{{ [x][0] }}', '{{ y = [x, [y]]; y[1][0] }}']
    combos = [(s, x, y) for s in shapes for x in EVERY for y in EVERY]
    for s, x, y in pick(r, combos, by(tier, 1500, 20000)):
        steps.append(ev('line\n' + s, dm(x=x, y=y)))
    for s in shapes:
        for x in EVERY:
            steps.append(ev(s, dm(x=x, y=r.choice(EVERY))))
    # built-ins on everything, with all kinds of arguments
    lit = ['"abc"', '""', '"h\u00e9\u65e5"', '[1, 2, 3]', '[]', '[1, "a", nil]', '5', '-7', '9223372036854775807', '1.5', '-0.0', '0.0', 'true', 'false', 'nil', '{a: 1}', 'x']
    calls = [(v, f, a) for v in lit for f in BUILTINS + ['nope'] for a in ARGS]
    for v, f, a in pick(r, calls, by(tier, 1500, 24000)):
        if f == 'repeat' and a in ('1000000',):
            continue
        steps.append(ev('{{ %s.%s(%s) }}' % (v, f, a), dm(x=r.choice(EVERY))))
    # degenerate constructs
    for s in ['@for(;;)@end', '@for(i = 0;;)@end', '@for(;true;)@break@end', '@for(;;i++)@end', '@for(;false;)x@end', '@for(i = 0; i < 2;)@break@end', '@for(x; x; x)@break@end', '@for(1; 2; 3)@break@end', '@for(i = 0; i < 3; 5)@break@end', '@for("a"; nil; 1.5)a@end', '@each(v in [])@end', '@dump()', '@dump(nope)', '@dump(nil)', '@dump([])', '@dump({})', '@dump({a: {b: [1, nil, "s", 1.5, true]}})',
              '@insert("a", nope)', '@insert("a")x@end', '@reserve("a")', '@use("nope")', '@use("")', '@component("")', '@component("nope")', '@component("nope", {a: 1})', '@component("nope")@slot("a")x@end@end', '@slot', '@slot("a")', '@reserve("")', '@insert("")a@end', '@break', '@continue', '@breakIf(true)', '@continueIf(true)', '@break{{ 1 }}', '@if(true)@break@end{{ 1 }}', '@component("a", {b: nope})',
              '{{ }}', '{{ ; }}', '{{}}', '{{ ;; }}', '{{ 1;; 2 }}', '{{ {} }}', '{{ {}.a }}', '{{ {}[""] }}', '{{ {}[nil] }}', '{{ [][0] }}', '{{ [][-1] }}', '{{ "".at(0) }}', '{{ "".first() }}', '{{ [].rand() }}', '{{ [].shuffle() }}', '{{ [].join() }}', '{{ [nil].join() }}', '{{ [[1], {a: 1}].join() }}', '{{ x.y }}', '{{ x[0] }}', '{{ x() }}', '{{ 5() }}', '{{ "a".b }}', '{{ nil.a }}', '{{ nil[0] }}', '{{ nil.len() }}', '{{ {a: 1}.len() }}',
              '{{ {a: 1}.a() }}', '{{ "a"["b"] }}', '{{ "a"[0] }}', '{{ 5[0] }}', '{{ true.x }}', '{{ 1 % 0 }}', '{{ 1.0 % 0.0 }}', '{{ 1 / 0 }}', '{{ 1.0 / 0.0 }}', '{{ -9223372036854775807 - 1 / -1 }}', '{{ (-9223372036854775807 - 1) / -1 }}', '{{ (-9223372036854775807 - 1) % -1 }}', '{{ (-9223372036854775807 - 1).abs() }}', '{{ x.x.x.x }}', '{{ true + true }}', '{{ nil + nil }}', '{{ [1] + [2] }}', '{{ {a: 1} + {a: 1} }}', '{{ nil == nil }}', '{{ !5 }}', '{{ -"a" }}', '{{ "a"++ }}', '{{ nil-- }}', '{{ true++ }}', '{{ [1]++ }}', '{{ 1.5-- }}', '{{ 0.0-- }}', '{{ -0.5-- }}', '{{ x = x }}', '{{ a = 1; a = "b" }}', '{{ "%d%s".len() }}', '{{ "%n".nope() }}', '{{ 5.nope() }}',
              '{{ "a".repeat(-1) }}', '{{ "a".repeat(9223372036854775807) }}', '{{ "".repeat(9223372036854775807) }}', '{{ "abc".truncate(-1) }}', '{{ "abc".truncate(9223372036854775807) }}', '{{ "5".decimal(".", -1) }}', '{{ "5".decimal(".", 9223372036854775807) }}', '{{ 5.decimal(".", 9223372036854775807) }}', '{{ [1, 2, 3].slice(-5, 9) }}', '{{ [1, 2, 3].slice(3, 1) }}', '{{ [1, 2].slice(9223372036854775807) }}', '{{ [1, 2].slice(-9223372036854775807, -9223372036854775807) }}', '{{ "abc".at(9223372036854775807) }}', '{{ "abc".at(-9223372036854775807) }}', '{{ 1e5 }}']:
        for _ in range(1 if tier == 'quick' else 4):
            steps.append(ev(s, dm(x=r.choice(EVERY))))
            steps.append(ev('\n\n' + s + '\n', dm(x=r.choice(EVERY))))
    # unsupported values at any depth
    for b in BADDATA:
        for wrap in (lambda v: v, lambda v: D.l_([D.i_(1), v]), lambda v: D.m_([('a', v)]), lambda v: D.st_([('A', True, v)]), lambda v: D.p_(v), lambda v: D.l_([D.m_([('q', D.st_([('B', True, v)]))])]), lambda v: D.st_([('a', False, v)])):
            steps.append(ev('x', dm(x=wrap(D.bad_(b)))))
            steps.append(ev('{{ x }}', dm(x=wrap(D.bad_(b)), y=D.i_(1))))
    # built-ins and indexes at the ends of the integers, and at the ends of
    # their receivers
    ends = [-2**63, -2**63 + 1, 2**63 - 1, 2**63 - 2, -2**62, 2**62, -2**32, 2**32, -2**31, 2**31 - 1, 2**31, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5]
    for f in ['s.at(n)', 's.truncate(n)', 's.truncate(n, "..")', 's.decimal(".", n)', 'i.decimal(".", n)', 'l.slice(n)', 'l.slice(n, m)', 'l.slice(m, n)', 'l[n]', 's[n]', 'o[n]', 'n.abs()', 'n.float()', 'n.str()', 'n.len()', 'n.decimal()', 'f.round(n)', '-n', 'n++', 'n--', 'l.append(n)', 'l.contains(n)', 's.len() + n', '[n].join(s)', 's.repeat(n)', 'e.at(n)', 'e.truncate(n)',
              'z.slice(n)', 'z.slice(n, m)', 'z[n]', 'n / m', 'n % m', 'n * m', 'n - m', 'true.then(n, m)', 'n.float().int()', 'n.str().len()']:
        for n in ends:
            for m in pick(r, ends, by(tier, 3, 99)) if 'm' in f else [0]:
                if 'repeat' in f and abs(n) > 10 and n != 2**63 - 1:
                    continue
                if 'decimal' in f and 10 < n < 2**62:
                    continue
                steps.append(ev('{{ %s }}' % f, dm(s=D.s_('h\u00e9l\u65e5'), i=D.i_(5), l=D.l_([D.i_(k) for k in range(4)]), o=D.m_([('0', D.i_(1))]), f=D.f_(2.5), e=D.s_(''), z=D.l_([]), n=D.i_(n), m=D.i_(m))))
    cs = pack(steps, ('lines',), 'C09', 20)
    cs += placed(r, cs, by(tier, 150, 2000), chk=('has',), note='C09')
    # an untyped generator: any expression in any position
    return cs + randoms('c09', seed, by(tier, 500, 8000), chk=('lines',), size=4, bad=.25, funcs=.35) + randoms('c09b', seed, by(tier, 100, 2000), chk=('lines',), size=4, bad=.02, depth=3)
