"""Seeded random templates, data and histories.  The generator knows enough of
the language to make most templates meaningful; what a template means is
decided by the specification alone."""
import random
from . import data as D

INT, FLOAT, STR, BOOL, NIL, OBJ = 'int', 'float', 'str', 'bool', 'nil', 'obj'


def arr_of(t):
    return ('arr', t)


# precedence levels
TERN, EQ, CMP, ADD, MUL, DOT, PRE, IDX, POST, ATOM = range(1, 11)
LEVEL = {'==': EQ, '!=': EQ, '<': CMP, '>': CMP, '<=': CMP, '>=': CMP, '+': ADD, '-': ADD, '*': MUL, '/': MUL, '%': MUL}

INTS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 16, 31, 97, 100, 255, 256, 1000, 65535, 65536, 99999, 1000000, 2**31 - 1, 2**31,
        2**32, 2**53 - 1, 2**53, 2**53 + 1, 10**15, 10**18, 2**62, 2**63 - 2, 2**63 - 1]
FLOATS = ['0.0', '1.0', '0.5', '1.5', '2.5', '3.5', '0.1', '0.2', '0.3', '2.0', '10.0', '3.14', '3.14159', '99.99', '100.25',
          '0.001', '1234567.875', '1000000.0', '12345678901234567890.0', '0.000001', '0.0000001', '9007199254740993.0',
          '1.7', '2.49999', '0.49999999999999994', '4503599627370497.5', '123456789.125', '1.0000000000000002']
WORDS = ['a', 'b', 'ab', 'abc', 'hello', 'Hello World', 'x y', ' pad ', '12', '-7', '0', 'true', 'tw', 'A-b_c', 'one,two,,three',
         'Tom & Jerry', 'caf\u00e9', '\u65e5\u672c\u8a9e', '\U0001f600ok', '\u00df', 'na\u00efve \u00c9t\u00e9', 'ends.', '  ', 'tab\there',
         '%d%s%!', '{', '}', 'a}}b', '{{x', 'a{{b}}c', '@if(x)', '@end', '--}}', '{{-- no --}}', 'x\\y']
MARKUP = ['<b>', '<b>bold</b>', 'a < b > c', '&', '&amp;', '&lt;', '&amp;lt;', '<script>alert(1)</script>', 'R&D', '&#60;', '&#x3c;',
          '<a href=\'x\'>', '<<>>&&', '&quot;', '&;', 'a&b;c', '&nbsp;', '&lt', '&copy', '&copy;']
NAMES = ['x', 'y', 'z', 'n', 'item', 'user', 'name', 'total', 'i', 'k', 'v', 'A', 'Value', 'snake_case', 'x1', '_p', 'in_', 'nilly', 'trueish', 'ifx',
         'aVeryLongVariableNameThatGoesOnAndOnForMoreThanSixtyFourCharactersInTotal1']
KEYS = ['a', 'b', 'c', 'name', 'Name', 'id', 'x', 'loop', 'key_1', 'index']
STRANGE = ['a-b', 'with space', '\u00e9t\u00e9', '1st', '']


class Gen:
    def __init__(self, rnd, **opt):
        self.r = rnd
        self.o = dict(bad=0.04, newlines=0.1, crlf=0.2, parens=0.12, markup=0.05, funcs=0.2, depth=3, newlit=0.03,
                      tern=0.06, loops=True, custom=None)
        self.o.update(opt)
        self.nl = '\r\n' if rnd.random() < self.o['crlf'] else '\n'

    # -- small choices
    def p(self, x):
        return self.r.random() < x

    def c(self, xs):
        return self.r.choice(xs)

    def ws(self, must=False):
        r = self.r.random()
        if r < self.o['newlines']:
            return self.c(['', ' ']) + self.nl + self.c(['', '  ', '\t'])
        if r < self.o['newlines'] + 0.15 and not must:
            return ''
        return self.c([' ', ' ', ' ', ' ', '  ', '\t'])

    # -- types and data
    def anytype(self, depth=2):
        t = self.c([INT, INT, INT, FLOAT, STR, STR, BOOL, NIL, 'arr', 'obj'] if depth > 0 else [INT, INT, FLOAT, STR, BOOL])
        if t == 'arr':
            return arr_of(self.c([INT, STR, FLOAT, BOOL]) if self.p(0.8) else self.anytype(depth - 1))
        return t

    def intval(self):
        v = self.c(INTS) if self.p(0.5) else self.r.randint(0, 30)
        return v

    def fval(self):
        if self.p(0.6):
            return float(self.c(FLOATS)) * self.c([1, -1])
        return self.c([1e21, 1e20, -1e21, 5e-324, 1.7976931348623157e308, float('inf'), float('nan'), -0.0, 1e-7, 123.456,
                       self.r.uniform(-1000, 1000), self.r.randint(-100, 100) / 8])

    def strval(self):
        r = self.r.random()
        if r < 0.15:
            return ''.join(self.c(['a', 'B', ' ', '\u00e9', '<', '"', "'", '&', '\n', '7', ',', '\u65e5']) for _ in range(self.r.randint(0, 8)))
        if r < 0.15 + self.o['markup']:
            return self.c(MARKUP)
        if r < 0.3:
            return ''
        return self.c(WORDS)

    def datum(self, t, depth=2):
        """Go data whose value in the template has type t"""
        r = self.r
        if self.p(0.06):
            return D.p_(self.datum(t, depth))
        if t == INT:
            v = self.intval() * self.c([1, 1, -1])
            if self.p(0.1):
                v = -2**63
            kinds = [('int', 63), ('int64', 63), ('int32', 31), ('int16', 15), ('int8', 7)]
            if v >= 0:
                kinds += [('uint', 63), ('uint64', 63), ('uint32', 32), ('uint16', 16), ('uint8', 8)]
            ok = [k for k, b in kinds if -(2**b) <= v < 2**b]
            return D.i_(v, self.c(ok))
        if t == FLOAT:
            v = self.fval()
            if self.p(0.2) and abs(v) < 1e30:
                return D.f_(v, 'float32')
            return D.f_(v)
        if t == STR:
            if self.p(0.1):
                return D.s_(bytes(self.c([b'\xff', b'a\x80', b'\xc3', b'\x00', b'ok', b'\xe2\x82\xac']) + b'z'))
            return D.s_(self.strval())
        if t == BOOL:
            return D.b_(self.p(0.5))
        if t == NIL:
            return D.nil_()
        if t == OBJ:
            n = r.randint(0, 3)
            ks = r.sample(KEYS, n)
            items = [(k, self.datum(self.anytype(depth - 1), depth - 1)) for k in ks]
            if self.p(0.35):
                fs = []
                seen = set()
                for k, x in items:
                    k = k[0].upper() + k[1:]
                    if k in seen:
                        continue
                    seen.add(k)
                    fs.append((k, True, x))
                if self.p(0.3):
                    fs.append(('hidden', False, D.i_(1)))
                return D.st_(fs)
            if self.p(0.2):
                items.append((self.c(STRANGE), D.i_(5)))
            return D.m_(items)
        n = self.c([0, 1, 2, 3, 3, 4])
        return D.l_([self.datum(t[1], depth - 1) for _ in range(n)])

    def scope(self, n=4):
        """random data and the types of its names"""
        types, data = {}, []
        for name in self.r.sample(NAMES, n):
            t = self.anytype()
            types[name] = t
            data.append((name.encode(), self.datum(t)))
        return types, data

    # -- expressions: (text, level)
    def wrap(self, e, level):
        s, l = e
        if l < level or self.p(self.o['parens']):
            return '(' + self.c(['', '', ' ']) + s + self.c(['', '', ' ']) + ')'
        return s

    def intlit(self):
        v = self.intval()
        s = str(v)
        if self.p(0.03):
            s = '0' + s
        return s

    def strlit(self):
        s = self.strval()
        if self.p(self.o['newlit']):
            s += self.nl + 'q'
        if self.p(0.05):
            s += self.c(['"', "'", '\\"', "it's", 'say "hi"'])
        q = self.c(['"', '"', "'"])
        s = s.replace(q, '\\' + q)
        if s.endswith('\\'):
            s += ' '
        return q + s + q

    def literal(self, t, depth):
        if t == INT:
            return (self.intlit(), ATOM)
        if t == FLOAT:
            return (self.c(FLOATS) if self.p(0.7) else '%.*f' % (self.r.randint(1, 6), self.r.uniform(0, 500)), ATOM)
        if t == STR:
            return (self.strlit(), ATOM)
        if t == BOOL:
            return (self.c(['true', 'false']), ATOM)
        if t == NIL:
            return ('nil', ATOM)
        if t == OBJ:
            n = self.r.randint(0, 3)
            parts = []
            for k in self.r.sample(KEYS[:8], n):
                key = k if self.p(0.6) else '"%s"' % k
                parts.append(key + ':' + self.ws() + self.expr(self.anytype(depth - 1), depth - 1, 0)[0])
            return ('{' + self.ws() + (',' + self.ws()).join(parts) + self.ws() + '}', ATOM)
        n = self.c([0, 1, 2, 3])
        if self.p(0.02):
            n = 12
        return ('[' + (',' + self.ws()).join(self.expr(t[1], depth - 1, 0)[0] for _ in range(n)) + ']', ATOM)

    def vars_of(self, t):
        return [n for n, x in self.types.items() if x == t]

    def atom(self, t, depth):
        vs = self.vars_of(t)
        if vs and self.p(0.6):
            return (self.c(vs), ATOM)
        return self.literal(t, depth)

    def binary(self, op, x, y):
        l = LEVEL[op]
        return (self.wrap(x, l) + self.ws() + op + self.ws() + self.wrap(y, l + 1), l)

    def call(self, recv, name, args):
        # a call binds less than a prefix
        return (self.wrap(recv, DOT) + '.' + name + '(' + (',' + self.ws()).join(a[0] for a in args) + ')', DOT)

    def expr(self, t, depth, bad=None):
        """an expression that is expected to have type t"""
        bad = self.o['bad'] if bad is None else bad
        if self.p(bad):
            r = self.r.random()
            if r < 0.3:
                return (self.c(['nope', 'undefinedVar', 'zz9', 'loop', 'X']), ATOM)
            if r < 0.75:
                return self.expr(self.anytype(), depth - 1, 0)
            return self.weird(depth)
        if depth <= 0 or self.p(0.15):
            return self.atom(t, depth)
        if self.p(self.o['tern']):
            c = self.expr(self.c([BOOL, BOOL, INT, STR, NIL, FLOAT]), depth - 1, bad)
            x = self.expr(t, depth - 1, bad)
            y = self.expr(t, depth - 1, bad)
            return (self.wrap(c, EQ) + self.ws() + '?' + self.ws() + self.wrap(x, EQ) + self.ws() + ':' + self.ws() + self.wrap(y, TERN), TERN)
        if self.p(0.07):
            # an element of an array
            a = self.expr(arr_of(t), depth - 1, bad)
            return (self.wrap(a, IDX) + '[' + self.expr(INT, depth - 2, bad)[0] + ']', IDX)
        if self.p(0.05):
            o = self.objwith(t, depth)
            if o:
                return o
        if self.p(self.o['funcs']):
            f = self.funcs(t, depth, bad)
            if f:
                return f
        if t == INT:
            r = self.r.random()
            if r < 0.75:
                return self.binary(self.c(['+', '-', '*', '/', '%', '+', '-', '*']), self.expr(INT, depth - 1, bad), self.expr(INT, depth - 1, bad))
            if r < 0.9:
                e = self.wrap(self.expr(INT, depth - 1, bad), PRE)
                return ('-' + (' ' if e[0] == '-' else '') + e, PRE)
            e = self.wrap(self.expr(INT, depth - 2, bad), POST)
            return (e + self.c(['++', '--']), POST)
        if t == FLOAT:
            r = self.r.random()
            if r < 0.8:
                return self.binary(self.c(['+', '-', '*', '/']), self.expr(FLOAT, depth - 1, bad), self.expr(FLOAT, depth - 1, bad))
            if r < 0.92:
                e = self.wrap(self.expr(FLOAT, depth - 1, bad), PRE)
                return ('-' + (' ' if e[0] == '-' else '') + e, PRE)
            e = self.wrap(self.expr(FLOAT, depth - 2, bad), POST)
            return (e + self.c(['++', '--']), POST)
        if t == STR:
            if self.p(0.6):
                return self.binary('+', self.expr(STR, depth - 1, bad), self.expr(STR, depth - 1, bad))
            return self.atom(t, depth)
        if t == BOOL:
            r = self.r.random()
            if r < 0.8:
                u = self.c([INT, INT, FLOAT, STR])
                op = self.c(['==', '!=']) if u == STR else self.c(['==', '!=', '<', '>', '<=', '>='])
                return self.binary(op, self.expr(u, depth - 1, bad), self.expr(u, depth - 1, bad))
            if r < 0.95:
                return ('!' + self.wrap(self.expr(self.c([BOOL, BOOL, NIL]), depth - 1, bad), PRE), PRE)
            return self.atom(t, depth)
        return self.literal(t, depth) if self.p(0.5) else self.atom(t, depth)

    def objwith(self, t, depth):
        k = self.c(KEYS[:7])
        v = self.expr(t, depth - 1, 0)[0]
        o = '{' + k + ': ' + v + (', other: 1' if self.p(0.3) else '') + '}'
        if self.p(0.5):
            return (o + '.' + k, DOT)
        return (o + '["' + k + '"]', IDX)

    def weird(self, depth):
        """well formed, mostly faulty"""
        t = self.anytype()
        e = self.expr(t, depth - 1, 0)
        r = self.c(['.nope()', '.name', '.a', '[0]', '["a"]', '++', '--', '.len()', '.x.y', '[9999999999]', '[-1]', '.raw()', '[""]', '[nil]',
                    '.at(0)', '.join(",")', '.abs()', '.then(1, 2)', '.slice(1, 0)'])
        if self.p(0.25):
            return (self.c(['-', '!']) + self.wrap(e, PRE), PRE)
        return (self.wrap(e, POST if r[0] in '+-' else IDX if r[0] == '[' else DOT) + r, POST if r[0] in '+-' else IDX if r[0] == '[' else DOT)

    # built-ins: (receiver, name, arguments, result)
    FUNCS = [
        (STR, 'len', '', INT), (STR, 'split', 's?', ('arr', STR)), (STR, 'raw', '', STR), (STR, 'trim', 's?', STR),
        (STR, 'trimRight', 's?', STR), (STR, 'trimLeft', 's?', STR), (STR, 'upper', '', STR), (STR, 'lower', '', STR),
        (STR, 'capitalize', '', STR), (STR, 'reverse', '', STR), (STR, 'contains', 's', BOOL), (STR, 'truncate', 'is?', STR),
        (STR, 'decimal', 's?i?', STR), (STR, 'at', 'i?', STR), (STR, 'first', '', STR), (STR, 'last', '', STR),
        (STR, 'repeat', 'j', STR),
        ('arr', 'len', '', INT), ('arr', 'join', 's?', STR), ('arr', 'reverse', '', 'same'), ('arr', 'slice', 'ii?', 'same'),
        ('arr', 'contains', 'e', BOOL), ('arr', 'append', 'e+', 'same'), ('arr', 'prepend', 'e+', 'same'),
        (INT, 'float', '', FLOAT), (INT, 'abs', '', INT), (INT, 'str', '', STR), (INT, 'len', '', INT), (INT, 'decimal', 's?i?', STR),
        (FLOAT, 'int', '', INT), (FLOAT, 'str', '', STR), (FLOAT, 'abs', '', FLOAT), (FLOAT, 'ceil', '', INT),
        (FLOAT, 'floor', '', INT), (FLOAT, 'round', '', INT), (BOOL, 'binary', '', INT), (BOOL, 'then', 'TT', 'then'),
    ]

    def args(self, spec, elem, t, depth, bad):
        out = []
        i = 0
        while i < len(spec):
            k = spec[i]
            q = spec[i + 1] if i + 1 < len(spec) and spec[i + 1] in '?+' else ''
            i += 1 + len(q)
            n = 1
            if q == '?':
                n = self.c([0, 1])
            elif q == '+':
                n = self.c([1, 1, 2, 3])
            if n == 0:
                break
            for _ in range(n):
                if k == 's':
                    if self.p(0.5):
                        out.append((self.c(['","', '" "', '"."', '"l"', '"ab"', '""', '"-"', '"\u00e9"', "'x'", '"..."']), ATOM))
                    else:
                        out.append(self.expr(STR, depth - 2, bad))
                elif k == 'i':
                    out.append((self.c(['0', '1', '2', '3', '-1', '-2', '5', '100', '9223372036854775807', '-9223372036854775807']), PRE)
                               if self.p(0.7) else self.expr(INT, depth - 2, bad))
                elif k == 'j':
                    out.append((self.c(['0', '1', '2', '3', '-1']), PRE))
                elif k == 'e':
                    out.append(self.expr(elem, depth - 2, bad))
                else:
                    out.append(self.expr(t, depth - 2, bad))
        if self.p(bad):
            if self.p(0.5):
                out = out[:-1]
            elif out:
                out[self.r.randrange(len(out))] = self.expr(self.anytype(), 0, 0)
        return out

    def funcs(self, t, depth, bad):
        pick = []
        for rt, name, spec, res in self.FUNCS:
            if res == t or (res == 'same' and isinstance(t, tuple)) or res == 'then':
                pick.append((rt, name, spec, res))
        if not pick:
            return None
        rt, name, spec, res = self.c(pick)
        elem = None
        if rt == 'arr':
            elem = t[1] if res == 'same' else self.c([INT, STR, STR, FLOAT])
            rt = arr_of(elem)
        return self.call(self.expr(rt, depth - 1, bad), name, self.args(spec, elem, t, depth, bad))

    # -- text
    def text(self, lines=True):
        r = self.r
        out = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < 0.5:
                out.append(self.c(['a', 'text ', '<p>', '</div>', 'Hello, ', '. ', ' - ', '100%', '<a href="x">', 'x=1;', '&amp;', '1 < 2']))
            elif k < 0.65 and lines:
                out.append(self.c([self.nl, self.nl + '  ', self.nl + self.nl]))
            elif k < 0.85:
                out.append(self.c(['{', '}', '}}', '} }', '@', '@x', 'me@mail.com', '@media', '@ if', '\\', '\\\\', '\\n', '"', "'", '$', '\u00e9', '\u65e5',
                                   '%d', '{x}', '( )', '[1]', ';', '@en', '--}}', '--', '#', '@@', '{ {', '\\{', '\\}}', '\t', '@If', '@els']))
            elif k < 0.93:
                out.append(self.c(['\\{{ x }}', '\\@if(x)', '\\@end', '\\@else', '\\{{', '\\@each(a in b)', '\\@slot', '\\{{-- c --}}', '\\@dump', '\\@use("x")']))
            else:
                out.append(self.c(['{{-- note --}}', '{{-- {{ x }} --}}', '{{-- @if(a) --}}', '{{-- a }} b --}}', '{{-- "' + self.nl + ' --}}', '{{-- - -- } --}}',
                                   '{{--' + self.nl + '--}}', '{{-- \u00e9 --}}', '{{-- {{-- --}}']))
        s = ''.join(out)
        if s.endswith('{') or s.endswith('\\') or s.endswith('@'):
            s += ' '
        return s

    # -- statements
    def open_block(self):
        return '{{' + self.ws()

    def close_block(self):
        return self.ws() + '}}'

    def print_(self, depth):
        t = self.anytype() if self.p(0.2) else self.c([INT, INT, STR, FLOAT, BOOL])
        if t == OBJ:
            t = INT
        if self.o['custom'] and self.p(0.5):
            return self.open_block() + self.o['custom'](self, t) + self.close_block()
        return self.open_block() + self.expr(t, depth)[0] + self.close_block()

    def assign_text(self, depth):
        if self.types and self.p(0.4):
            name = self.c([n for n in self.types if n not in self.locked] or ['fresh'])
            t = self.types.get(name, INT) if not self.p(self.o['bad']) else self.anytype()
            e = self.expr(t, depth)[0]
        else:
            name = self.c([n for n in NAMES if n not in self.locked])
            if name in self.types and not self.p(self.o['bad']):
                t = self.types[name]
            else:
                t = self.anytype()
            e = self.expr(t, depth)[0]
        if self.p(self.o['bad'] / 4):
            name = 'loop'
        else:
            self.types[name] = t
        return name + self.ws() + '=' + self.ws() + e

    def block(self, depth, inloop=False, n=None):
        saved = dict(self.types)
        s = self.body(depth, inloop, n)
        self.types = saved
        return s

    def sep(self):
        return self.c(['', ' ', self.text(), self.nl, ',', '|'])

    def body(self, depth, inloop=False, n=None):
        out = []
        for _ in range(n if n is not None else self.c([1, 1, 1, 2, 2, 3])):
            out.append(self.stmt(depth, inloop))
            out.append(self.sep())
        return ''.join(out)

    def show_vars(self):
        """prints a variable, so that scoping errors show"""
        vs = [n for n, t in self.types.items() if t not in (OBJ,)]
        if not vs:
            return self.text()
        return '{{ ' + self.c(vs) + ' }}'

    def stmt(self, depth, inloop=False):
        r = self.r.random()
        ed = self.o['depth']
        if depth <= 0:
            r = r * 0.6
        if r < 0.13:
            return self.text()
        if r < 0.33:
            return self.print_(ed)
        if r < 0.42:
            return self.show_vars()
        if r < 0.55 and not self.o.get('assign', True):
            return self.print_(ed)
        if r < 0.55:
            s = self.open_block() + self.assign_text(ed - 1)
            if self.p(0.25):
                s += ';' + self.ws() + (self.assign_text(ed - 1) if self.p(0.5) else self.expr(self.c([INT, STR]), 1)[0])
            return s + self.close_block()
        if r < 0.6:
            if inloop:
                w = self.c(['@break', '@continue', '@breakIf', '@continueIf', '@continueIf', '@breakIf'])
                if w.endswith('If'):
                    c = self.loopcond()
                    return w + '(' + c + ')'
                if self.p(0.7):
                    return '@if(' + self.loopcond() + ')' + self.c(['', 'x']) + w + self.c(['', 'y']) + '@end'
                return w
            return self.print_(ed)
        if r < 0.78:
            s = '@if(' + self.cond(ed - 1) + ')' + self.block(depth - 1, inloop)
            for _ in range(self.c([0, 0, 0, 1, 1, 2, 3])):
                s += '@elseif(' + self.cond(ed - 1) + ')' + self.block(depth - 1, inloop)
            if self.p(0.5):
                s += '@else' + self.c(['', ' ', self.nl]) + self.block(depth - 1, inloop)
            return s + '@end'
        if not self.o['loops']:
            return self.print_(ed)
        if r < 0.92:
            return self.each(depth, inloop)
        return self.for_(depth, inloop)

    def loopcond(self):
        k = self.r.random()
        if k < 0.4 and 'loop' in self.loops:
            return self.c(['loop.index == %d' % self.r.randint(0, 3), 'loop.first', 'loop.last', 'loop.iter > %d' % self.r.randint(0, 3),
                           'loop.iter == 2', '!loop.first', 'loop.index'])
        return self.cond(1)

    def cond(self, depth):
        return self.expr(self.c([BOOL, BOOL, BOOL, INT, STR, NIL, FLOAT, arr_of(INT), OBJ]), depth)[0]

    loops = ()
    locked = frozenset()

    def each(self, depth, inloop):
        saved, sl = dict(self.types), self.loops
        t = self.c([INT, STR, STR, FLOAT, BOOL])
        src = self.expr(arr_of(t), 2)[0]
        fresh = [n for n in NAMES if n not in self.types] or NAMES
        name = self.c(fresh)
        if self.p(self.o['bad']):
            name = self.c(NAMES + ['loop'])
        self.types[name] = t
        self.loops = ('loop',)
        s = '@each(' + self.c(['', ' ']) + name + self.ws(True) + 'in' + self.ws(True) + src + self.c(['', ' ']) + ')'
        s += '{{ ' + name + ' }}' if self.p(0.5) else ''
        s += '{{ loop.%s }}' % self.c(['index', 'iter', 'first', 'last']) if self.p(0.5) else ''
        s += self.body(depth - 1, True)
        self.types, self.loops = dict(saved), sl
        if self.p(0.4):
            s += '@else' + self.c(['', ' ']) + self.block(depth - 1, inloop)
        self.types = saved
        return s + '@end'

    def for_(self, depth, inloop):
        saved, sl = dict(self.types), self.loops
        fresh = [n for n in NAMES if n not in self.types] or ['j9']
        name = self.c(fresh)
        n = self.c([0, 1, 2, 3, 4])
        if self.p(0.03):
            n = 150
        cmp_, post, start = self.c([('<', '++', 0), ('<=', '++', 1), ('!=', '++', 0), ('>', '--', n), ('<', ' = %s + 1' % name, 0),
                                    ('>=', '--', n), ('<', ' = %s + 2' % name, 0)])
        lim = n
        if cmp_ in ('>', '>='):
            lim = 0 if cmp_ == '>' else 1
        init = name + ' = ' + str(start)
        # the loop variable must not be assigned in the body: then the loop may never end
        self.types[name] = INT
        locked, self.locked = self.locked, self.locked | {name}
        s = '@for(' + init + ';' + self.ws() + name + ' ' + cmp_ + ' ' + str(lim) + ';' + self.ws() + name + post + ')'
        s += '{{ ' + name + ' }}' if self.p(0.6) else ''
        if n > 10:
            s += self.c(['', '.', '@continueIf(%s %% 7)' % name]) + ','
        else:
            reserved = name
            s += self.safe_body(depth - 1, True, reserved)
        self.types, self.loops, self.locked = dict(saved), sl, locked
        if self.p(0.4):
            s += '@else ' + self.block(depth - 1, inloop)
        self.types = saved
        return s + '@end'

    def safe_body(self, depth, inloop, name):
        for _ in range(20):
            t = dict(self.types)
            s = self.body(depth, inloop)
            if not re_assign(s, name):
                return s
            self.types = t
        return ''

    def template(self, depth=2, n=None, types=None):
        self.types = dict(types or {})
        self.loops, self.locked = (), frozenset()
        s = self.text() if self.p(0.5) else ''
        return s + self.body(depth, False, n or self.c([1, 1, 2, 2, 3, 4]))


def re_assign(s, name):
    import re
    return re.search(r'(?<![A-Za-z0-9_])' + re.escape(name) + r'\s*=(?!=)', s) is not None or \
        re.search(r'@each\(\s*' + re.escape(name) + r'\s', s) is not None


def rng(seed, *what):
    return random.Random('%s/%s' % (seed, '/'.join(map(str, what))))
