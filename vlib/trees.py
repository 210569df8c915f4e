"""Seeded random template directories: layouts, components and pages."""
from . import data as D
from .gen import Gen, rng, INT, FLOAT, STR, BOOL, NIL, OBJ, arr_of, re_assign
from .run import case, evalstr

SIMPLE = [INT, INT, STR, STR, FLOAT, BOOL, arr_of(INT), arr_of(STR)]


def enc(s):
    return s if isinstance(s, bytes) else s.encode('utf-8')


def load(d='t', ext='.tw', err='', debug=False):
    return {'op': 'load', 'opt': {'has': True, 'dir': enc(d), 'ext': enc(ext), 'err': enc(err), 'debug': debug}}


def load_default():
    return {'op': 'load', 'opt': {'has': False, 'dir': b'', 'ext': b'', 'err': b'', 'debug': False}}


def render(name, data=(), set=1, nil=False):
    return {'op': 'render', 'set': set, 'name': enc(name), 'data': list(data), 'nil': nil}


def response(name, data=(), set=1, nil=False):
    return {'op': 'response', 'set': set, 'name': enc(name), 'data': list(data), 'nil': nil}


def evalfile(path, data=(), nil=False):
    return {'op': 'evalfile', 'file': enc(path), 'data': list(data), 'nil': nil}


def register(ty, name, beh='show', val=None, tag=None):
    return {'op': 'register', 'ty': ty, 'name': enc(name), 'tag': enc(tag or name), 'beh': beh, 'val': val}


def write(fs):
    """changes files between the calls; kind "gone" removes one"""
    return {'op': 'write', 'fs': [dict(p=p, c=c, kind=k) for p, c, k in fs]}


def files(d, base='t', ext='.tw'):
    """{name: content} as files of a template directory"""
    return [(enc(base) + b'/' + enc(n) + enc(ext), enc(c), 'file') for n, c in d.items()]


PLACES = {
    'page': ({}, '%s'),
    'insert': ({'layouts/lay0': '<l>@reserve("one")</l>'}, '@use("~lay0")@insert("one")\n%s\n@end'),
    'component': ({'components/cmp0': '%s'}, '@component("~cmp0")'),
    'args': ({'components/cmp0': '%s'}, 'a@component("~cmp0", {unused0: 1})b'),
    'slot': ({'components/cmp0': '<c>@slot("one")</c>'}, '@component("~cmp0")@slot("one")%s@end@end'),
    'default': ({'components/cmp0': '@slot'}, '@component("~cmp0")@slot\n%s@end\n@end'),
    'layout': ({'layouts/lay0': '%s@reserve("one")'}, '@use("~lay0")@insert("one", 1)'),
    'each': ({}, '@each(el0 in [1, 2])%s@end'),
    'else': ({}, '@each(el0 in [])@else\n%s@end'),
    'deep': ({'components/cmp0': '[@slot("one")]', 'layouts/lay0': '<@reserve("one")>'},
             '@use("~lay0")\n@insert("one")@if(true)@each(el0 in [7])@component("~cmp0")@slot("one")%s@end@end@end@end@end'),
}


def placed(r, cases, n, chk=(), note='', only=None):
    """templates of the cases as parts of pages, layouts and components"""
    steps = [s for c in cases for s in c['steps'] if s['op'] == 'evalstr' and len(s['src']) < 3000]
    out = []
    for s in r.sample(steps, min(n, len(steps))):
        fs, st = {}, [load()]
        for k, place in enumerate(r.sample(sorted(only or PLACES), 2)):
            extra, page = PLACES[place]
            d = 'd%d/' % k
            put = lambda t: enc(t).replace(b'lay0', b'lay%d' % k).replace(b'cmp0', b'cmp%d' % k).replace(b'%s', s['src'])
            for name, t in extra.items():
                fs[name.replace('0', str(k))] = put(t)
            fs[d + place] = put(page)
            st += [render(d + place, s['data'], nil=s['nil'])]
        out.append(case(st + st[1:2], fs=files(fs), chk=chk, note=note + ' places'))
    return out


def variants(v):
    """data to put in place of v: of other kinds, mixed, empty, unconvertible"""
    if v['k'] == 'slice':
        return [D.l_([]), D.l_(v['x'] + [D.s_('m'), D.i_(1)]), D.l_([D.i_(1), D.s_('n')]), D.l_(v['x'][:1] + [D.nil_()] + v['x'][1:]), D.l_(v['x'] * 3), D.l_(v['x'] + [D.bad_('chan')]), D.nil_(), D.i_(3)]
    if v['k'] in ('map', 'struct'):
        return [D.m_([]), D.st_([]), D.nil_('structptr'), D.l_([v]), D.m_([('zz', D.i_(1))])]
    return [D.nil_(), D.i_(0), D.i_(-4), D.f_(2.5), D.s_(''), D.s_('<m>'), D.b_(True), D.b_(False), D.l_([v, v]), D.m_([('a', v)]), D.bad_('chan'), D.bad_('cycle'), D.p_(v)]


def mutated(r, data):
    """other data for the same template"""
    out = list(data)
    for _ in range(r.choice([1, 1, 2])):
        if not out:
            break
        k = r.randrange(len(out))
        n, v = out[k]
        if r.random() < .15:
            del out[k]
        else:
            out[k] = (n, r.choice(variants(v)))
    return out


def tours(n):
    """a sequence over 0..n-1 in which every ordered pair is adjacent once"""
    out = [0]

    def visit(i):
        out.append(i)
        for j in range(i + 2, n):
            out.extend((j, i))
        if i + 1 < n:
            out.append(i + 1)
            visit(i + 1)
            out.append(i)
    visit(0)
    return out


class Tree:
    """A directory of templates.  faults is the probability of each fault that
    loading reports, bad that of a fault in an expression."""

    def __init__(self, r, faults=0.0, bad=0.0, simple=False, nlayouts=None, ncomps=None, npages=None, markup=.1, custom=None, funcs=.2):
        self.r, self.faults, self.bad = r, faults, bad
        self.g = Gen(r, bad=bad, depth=2, markup=markup, newlines=.05, custom=custom, funcs=funcs)
        types, data = self.g.scope(r.randint(2, 5))
        self.types, self.data = types, data
        self.layouts, self.comps, self.pages, self.files = {}, {}, [], {}
        for k in range(nlayouts if nlayouts is not None else r.choice([0, 1, 1, 2])):
            self.layout(k)
        for k in range(ncomps if ncomps is not None else r.choice([0, 1, 2, 2, 3])):
            self.component(k)
        for k in range(npages or r.choice([1, 2, 3])):
            self.page(k)

    def p(self, x):
        return self.r.random() < x

    def q(self, s):
        c = self.r.choice(['"', "'", '"'])
        return c + s + c

    def stmts(self, types, depth=1, assign=False, n=None):
        """statements that see these variables"""
        self.g.types = dict(types)
        self.g.o['assign'] = assign
        self.g.loops, self.g.locked = (), frozenset()
        return self.g.body(depth, False, n)

    def ex(self, t, types, depth=2):
        self.g.types = dict(types)
        return self.g.expr(t, depth)[0]

    def text(self):
        return self.g.text()

    # -- layouts
    def layout(self, k):
        r = self.r
        short = r.choice(['main', 'base', 'l%d' % k, 'in/ner%d' % k])
        path = r.choice(['layouts/' + short, 'layouts/' + short, 'lay/' + short])
        if path in self.files:
            return
        names = r.sample(['title', 'body', 'foot', 'a-b', 'x', 'head er', 'Title', 'titl', 'b0'], r.choice([1, 2, 2, 3, 3, 6]))
        out = self.text() if self.p(.7) else ''
        types = dict(self.types)
        if self.p(.3):
            out += '{{ lay%d = %s }}' % (k, self.ex(INT, types))
            types['lay%d' % k] = INT
        for n in names:
            rs = '@reserve(' + self.g.c(['', ' ']) + self.q(n) + ')'
            x = r.random()
            if x < .7:
                out += rs
            elif x < .85:
                out += '@if(' + self.g_cond(types) + ')' + self.g.c(['', 'y ']) + rs + self.g.c(['', '@else no']) + '@end'
            else:
                out += '@each(layv in [1, 2])' + rs + self.g.c(['', ',', '{{ layv }}']) + '@end'
            if self.p(.6):
                out += self.text()
            if self.p(.35):
                out += self.stmts(types, n=1)
        self.files[path] = out
        self.layouts[path] = names

    def g_cond(self, types):
        self.g.types = dict(types)
        return self.g.cond(1)

    # -- components
    def component(self, k):
        r = self.r
        short = r.choice(['card', 'btn', 'c%d' % k, 'ui/item%d' % k])
        path = r.choice(['components/' + short, 'components/' + short, 'parts/' + short])
        if path in self.files:
            return
        args = {'arg%s%d' % (chr(65 + k), j): r.choice(SIMPLE) for j in range(r.choice([0, 1, 2, 3, 3, 5, 8]))}
        if self.p(.4):     # arguments with the names of visible variables
            args.update({n: t for n, t in self.types.items() if self.p(.5)})
        slots = r.sample(['head', 'f-2', 'x', 'it em', 'h', 'head2', 'F-2'], r.choice([0, 0, 1, 2, 2, 5])) + (['']
                                                                                 if self.p(.5) else [])
        types = dict(self.types)
        types.update(args)
        out = self.text() if self.p(.6) else ''
        parts = ['{{ %s }}' % a for a in args if self.p(.9)]
        for s in slots:
            ph = '@slot(' + self.q(s) + ')' if s else '@slot'
            x = r.random()
            if x < .15:
                ph = '@if(' + self.g_cond(types) + ')' + ph + ' z@end'
            elif x < .25:
                ph = '@each(cmpv in [1, 2])' + ph + '{{ cmpv }}@end'
            elif x < .33:
                ph = ph + '|' + ph
            parts.append(ph)
        for _ in range(r.choice([0, 1, 1, 2])):
            parts.append(self.stmts(types, n=1))
        if self.p(.2):
            parts.append('{{ cmp%d = %s }}{{ cmp%d }}' % (k, self.ex(INT, types), k))
        r.shuffle(parts)
        for x in parts:
            out += x + self.g.c(['', ' ', '\n', ';', self.text()])
        self.files[path] = out
        self.comps[path] = (args, slots)

    def short(self, path, d):
        if path.startswith(d + '/') and self.p(.7):
            return '~' + path[len(d) + 1:]
        return path

    def use_component(self, types, depth):
        r = self.r
        path = r.choice(list(self.comps))
        args, slots = self.comps[path]
        name = self.short(path, 'components')
        if self.p(self.faults):
            name = r.choice(['nocomp', '~nocomp', path + 'x'])
        items = []
        for a, t in args.items():
            if self.p(.03 + self.bad):
                continue
            if a in types and types[a] == t and self.p(.5):
                items.append(a)
                continue
            key = a if self.p(.6) else self.q(a)
            items.append(key + ':' + self.g.ws() + self.ex(t, types))
        r.shuffle(items)
        s = '@component(' + self.g.c(['', ' ']) + self.q(name)
        if items or self.p(.2):
            s += ',' + self.g.ws() + '{' + self.g.c(['', ' ']) + (',' + self.g.ws()).join(items) + self.g.c(['', ' ']) + '}'
        s += ')'
        given = [x for x in slots if self.p(.75)]
        if self.p(self.faults):
            given.append(r.choice(['noslot', 'head', '']) if self.p(.5) or not given else given[0])
        if given:
            s += self.g.c(['', '\n', '\n  '])
            for x in given:
                s += ('@slot(' + self.q(x) + ')' if x else '@slot')
                if not x:
                    s += r.choice([' ', '\n'])
                y = r.random()
                if y < .5:
                    s += self.g.c(['body', 'S{{ %s }}' % self.ex(STR, types, 1), ' <i>x</i> ', '\n  t\n', '{{ %s }}' % self.ex(INT, types)])
                elif y < .9 or depth <= 0:
                    s += self.stmts(types, n=1)
                else:
                    s += self.use_component(types, depth - 1)
                s += '@end' + self.g.c(['', '\n', ' '])
            s += '@end'
        return s

    def piece(self, types, depth=1, assign=False):
        """statements with components among them; all see types"""
        r = self.r
        out = ''
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if self.comps and k < .45:
                out += self.use_component(types, 1)
            elif self.comps and k < .58 and depth:
                v = 'it%d' % depth
                inner = dict(types)
                inner[v] = INT
                out += '@each(%s in [%s])' % (v, ', '.join(str(r.randint(0, 9)) for _ in range(r.choice([0, 1, 2, 3])))) + self.piece(inner, depth - 1) + '{{ loop.iter }}@end'
            elif self.comps and k < .68 and depth:
                out += '@if(' + self.g_cond(types) + ')' + self.piece(types, depth - 1) + ('@else ' + self.piece(types, depth - 1) if self.p(.5) else '') + '@end'
            else:
                out += self.stmts(types, assign=assign, n=1)
            out += self.g.c(['', ' ', '\n', '|', self.text()])
        return out

    # -- pages
    def page(self, k):
        r = self.r
        path = r.choice(['page%d' % k, 'p/page%d' % k, 'p/q/r%d' % k])
        types = dict(self.types)
        if self.layouts and self.p(.6):
            lay = r.choice(list(self.layouts))
            names = [n for n in self.layouts[lay] if self.p(.8)]
            if self.p(self.faults):
                names.append(r.choice(['nope', 'title', 'zz']))
            if self.p(self.faults) and names:
                names.append(r.choice(names))
            r.shuffle(names)
            use = self.short(lay, 'layouts')
            if self.p(self.faults):
                use = r.choice(['~nolayout', 'nolayout', lay + '2'])
            out = '@use(' + self.q(use) + ')' + self.g.c(['', '\n', ' '])
            for n in names:
                if self.p(.2):
                    out += self.g.c(['outside ', '<hidden>', '\n\n', 'text {{ 5 }} text'])
                if self.p(.35):
                    t = r.choice([INT, STR, STR, FLOAT, BOOL, NIL, arr_of(INT)])
                    out += '@insert(' + self.q(n) + ',' + self.g.ws() + self.ex(t, types) + ')'
                else:
                    one = self.p(.25)
                    out += '@insert(' + self.q(n) + ')' + self.g.c(['', '\n', ' ']) + (self.piece(types, assign=one) if self.p(.93) else '') + '@end'
                out += self.g.c(['', '\n', ' '])
        else:
            lay = None
            out = self.text() if self.p(.6) else ''
            if self.p(.4):
                out += '{{ pv = %s }}' % self.ex(INT, types)
                types['pv'] = INT
            out += self.piece(types, assign=True)
        if self.p(self.faults * .7):
            out += r.choice(['{{ ', '@if(', '@end x {{ # }}', '{{ 1 + }}', '@each(v in', '@component(', '{{ "abc'])
        self.files[path] = out
        self.pages.append(path)

    def fs(self, base='t', ext='.tw'):
        return files(self.files, base, ext)

    def calls(self, n=1):
        out = []
        for p in self.pages:
            for _ in range(n):
                out.append(render(p, self.data))
        return out


def marked(p):
    """templates with the word that must not be in an error page"""
    return {n: c if '@use' in c else 'MARK ' + c + ' MARK' for n, c in p.items()}
