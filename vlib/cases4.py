"""Cases for the properties about directories of templates and histories (C06, C07, C14-C18, C20)."""
import itertools
from . import data as D
from .cases1 import ev, enc, pack, pick, by, dm, randoms, BASE
from .cases2 import EVERY, BADDATA, BUILTINS, ALL, mutants
from .cases3 import goval, RUNFAULTS, PARSEFAULTS, XDATA
from .gen import Gen, rng, INT, FLOAT, STR, BOOL, NIL, OBJ, arr_of, MARKUP
from .run import case
from .trees import write, load, load_default, render, response, evalfile, register, files, Tree, marked, mutated, variants, tours

DATA = dm(x=D.i_(3), s=D.s_('st<r'), l=D.l_([D.i_(1), D.i_(2)]), o=D.st_([('Name', True, D.s_('nm')), ('Age', True, D.i_(9))]), t=D.b_(True), n=D.nil_())
OTHER = dm(x=D.i_(44), s=D.s_('other'), l=D.l_([]), o=D.m_([('name', D.s_('zz')), ('age', D.i_(1))]), t=D.b_(False), n=D.nil_())


def trees(tag, seed, n, chk=(), calls=1, **opt):
    out = []
    for k in range(n):
        r = rng(seed, tag, k)
        t = Tree(r, **opt)
        out.append(case([load()] + t.calls(calls), fs=t.fs(), chk=chk, note=tag + ' trees'))
    return out


ODD = ['a~b', 'x/~b', 'b~', 'a.b', 'a.tw', 'with space', '\u00e9t\u00e9', 'UPPER', 'Main', 'a-b', '_p', '_p/q', '.hid', '.d/q', 'a@b', 'a+b', '(x)', '[x]', 'a,b', 'a;b', '$x', 'a=b', '%41', 'a#b', '100', 'nil', 'use', 'layouts', 'components', 'layouts/main', 'components/c', 'a/layouts/b', 'main.tw', 'tw', '...', 'x' * 60, 'a/b/c/d/e/f/g',
       '\u65e5\u672c\u8a9e', '\U0001f600', 'e\u0301', 'a\tb', '-', '--', 'node_modules/x', 'vendor/x', 'testdata/x', 'index', 'sub/index']


# ---------------------------------------------------------------------------
# C06

CONTENT = ['', 'T', '{{ x }}', '<b>{{ s }}</b>', '@if(t)yes@else no@end', '@each(v in l){{ v }},@end', '{{ o.name }}', '\n  padded\n', '{{ q = 5 }}{{ q }}', '{{ x }}\\@end\\{{', '{{-- c --}}', '@for(i = 0; i < 2; i++){{ i }}@end', '@if(x > 100)a@elseif(t)b@end', 'a } b }} @ c', '{{ s.raw() }}', '{{ x++ }} {{ x }}', '@if(t)@if(x == 3)deep@end@end',
           '{{ x + 1.5 }}', '{{ nope }}', '@each(v in [])n@else none@end', '{{ x = 4 }}{{ x }}']
EXPRS = ['"T"', '"<b>&"', 'x', 'x + 1', 's', 's + "!"', 'o.name', 't ? "y" : "n"', 'nil', '1.50', 'true', 'l', 'l.len()', '"a".upper()', '[1, "b"]', '-x', '!t', 'x++', '"it\'s"', '""', 'nope', '1 + "a"', '(x)', 'l[0]', '{a: 5}.a']


def c06(tier, seed):
    r = rng(seed, 'c06')
    cs = []
    names = ['title', 'body', 'a-b', 'c d', '\u00e9', 'Title', 'x']

    def lay(ns, k):
        out = r.choice(['<html>', '', '\n', 'text '])
        for n in ns:
            res = r.choice(['@reserve("%s")', "@reserve('%s')", '@reserve( "%s" )']) % n
            w = r.choice(['%s', '%s', '<%s>', '@if(t)%s@end', '@if(!t)%s@else-%s@end' if False else '[%s]', '@each(i in [1, 2])%s{{ loop.index }}@end', '@if(x > 5)%s@else none@end', '\n%s\n'])
            out += w % res + r.choice(['', ' ', '{{ x }}', '\n', '<hr>'])
        return out + r.choice(['', '</html>', '{{ s }}', '{{-- end --}}'])
    # every subset of the reserves filled, with every form
    for k in range(by(tier, 130, 2200)):
        ns = r.sample(names, r.choice([1, 2, 2, 3, 3, 4]))
        lname = r.choice(['main', 'sub/l', 'm.n', 'main'])
        where = r.choice(['layouts/', 'layouts/', 'other/', ''])
        pages = {where + lname: lay(ns, k)}
        full = where + lname
        calls = [load()]
        for j, mask in enumerate(pick(r, list(itertools.product([0, 1, 2], repeat=len(ns))), 4)):
            out = '@use(' + (r.choice(['"~%s"', "'~%s'"]) % lname if where == 'layouts/' and r.random() < .7 else '"%s"' % full) + ')'
            order = list(zip(ns, mask))
            r.shuffle(order)
            for n, m in order:
                out += r.choice(['', '\n', ' outside ', '<p>dropped {{ 1 }}</p>', '{{-- c --}}'])
                if m == 1:
                    out += '@insert("%s", %s)' % (n, r.choice(EXPRS[:-5] if r.random() < .9 else EXPRS))
                elif m == 2:
                    one = sum(1 for v in mask if v) == 1
                    c = r.choice(CONTENT)
                    if '=' in c and '==' not in c and not one and '@for' not in c:
                        c = 'plain'
                    out += "@insert('%s')%s@end" % (n, r.choice(['', '\n', ' ']) + c)
            out += r.choice(['', '\n', 'tail', '\n\n'])
            pages['p%d' % j] = out
            for d in (DATA, OTHER):
                calls.append(render('p%d' % j, d))
        pages['plain'] = 'plain {{ x }}'
        calls += [render('plain', DATA), render(full, DATA), render('p0', DATA)]
        cs.append(case(calls, fs=files(pages), note='C06'))
    # faults of the composition
    base = {'layouts/main': '<t>@reserve("title")</t><b>@reserve("body")</b>', 'layouts/other': 'O@reserve("body")', 'ok': '@use("~main")@insert("title", "ok")'}
    faulty = ['@use("~main")@insert("nope", 1)', '@use("~main")@insert("nope")x@end', '@use("~main")@insert("title", 1)@insert("title", 2)', '@use("~main")@insert("title", 1)@insert("title")x@end', '@use("~main")@insert("body")a@end@insert("body")b@end', '@use("~missing")', '@use("missing")@insert("title", 1)', '@use("~main")@insert("Title", 1)',
              '@use("main")@insert("title", 1)', '@use("layouts/main")@insert("title", 1)', '@use("~layouts/main")', '@use("~")', '@use("~main")', '@use("~other")@insert("title", 1)', '@use("~other")@insert("body", 1)', '@insert("title", 1)', '@insert("title")x@end', 'a @use("~main") b @insert("body")c@end d', '@insert("body")c@end@use("~main")', '@use("~main")@insert("title", nope)', '@use("~main")@insert("body"){{ nope }}@end',
              '@use("~main")@insert("body")@if(t)a@end', '@use("~main")@insert("body")', '@use("~main")@insert(x, 1)', '@use("~main")@insert("body", )', '@use(~main)', '@use("~main"', '@use("ok")', '@use("~main")\n\n', '@use("~main"){{ nope }}@insert("title", "x")', '@use("~main"){{ q = 1 }}@insert("title", q)', '@use("~main")@insert("", 1)', '@use("")']
    for f in faulty:
        cs.append(case([load(), render('page', DATA), render('ok', DATA)], fs=files(dict(base, page=f)), chk=('has',), note='C06 faults'))
    nests = [{'layouts/main': '@use("~outer")@insert("o")[@reserve("title")]@end', 'layouts/outer': '<o>@reserve("o")</o>', 'page': '@use("~main")@insert("title", "t")', 'ok': 'fine'},
             {'layouts/main': '@use("~main")@reserve("title")', 'page': '@use("~main")@insert("title", "t")', 'ok': 'fine'},
             {'layouts/a': '@use("~b")@reserve("x")', 'layouts/b': '@use("~a")@reserve("x")', 'page': '@use("~a")@insert("x", 1)', 'ok': 'fine'}]
    for p in nests:
        cs.append(case([load(), render('page', DATA), render('page', OTHER), render('ok', DATA)], fs=files(p), note='C06 nested'))
    # the layout and the page see the same data; the page's names do not leak
    for lay_, page in [('{{ x }}@reserve("a"){{ x }}', '@use("~m")@insert("a"){{ x }}@end'), ('{{ y = 1 }}{{ y }}@reserve("a"){{ y }}', '@use("~m")@insert("a"){{ x = 7 }}{{ x }}@end'), ('@reserve("a"){{ zz }}', '@use("~m")@insert("a"){{ zz = 7 }}{{ zz }}@end'), ('@each(i in [1, 2, 3])@reserve("a")@end', '@use("~m")@insert("a"){{ x }}-@end'),
                       ('@if(t)@reserve("a")@else@reserve("b")@end', '@use("~m")@insert("a", x)@insert("b", s)'), ('@each(i in l)@if(loop.first)@reserve("a")@end@end', '@use("~m")@insert("a")F@end'), ('a@reserve("a")b', '@use("~m")'), ('@reserve("a")', '@use("~m")@insert("a")@each(v in l)@continueIf(v == 1){{ v }}@end@end'), ('@reserve("a")@reserve("b")', '@use("~m")@insert("b")B@end@insert("a")A@end')]:
        p = {'layouts/m': lay_, 'page': page}
        cs.append(case([load(), render('page', DATA), render('page', OTHER), render('page', DATA), response('page', DATA)], fs=files(p), note='C06 scopes'))
    # names with characters that mean something elsewhere
    for n in ODD:
        for pre in ('', 'layouts/'):
            lay_ = '<@reserve("%s")|@reserve("b")>' % n
            p = {pre + n: lay_, 'pages/' + n: '@use("%s")@insert("%s", x)@insert("b")B@end' % (('~' if pre else '') + n, n), 'two': "@use('%s')@insert('b', 2)" % (pre + n), 'plain': 'plain', 'main': 'm@reserve("b")', 'layouts/main': 'lm@reserve("b")'}
            cs.append(case([load(), render('pages/' + n, DATA), render('two', DATA), render(n, DATA), render('plain', DATA)], fs=files(p), note='C06 names'))
            cs.append(case([load(), render('pages/' + n, DATA)], fs=files({'main': 'm@reserve("b")', 'layouts/main': 'lm@reserve("b")', 'pages/' + n: '@use("%s")@insert("b", 2)' % (('~' if pre else '') + n)}), note='C06 missing names'))
    # several pages of one layout
    for k in range(by(tier, 40, 500)):
        lay_ = '<@reserve("a")|@reserve("b")|@reserve("c")>'
        p = {'layouts/m': lay_}
        calls = [load()]
        for j in range(4):
            s = '@use("~m")'
            for n in r.sample('abc', r.choice([0, 1, 2, 3])):
                s += r.choice(['@insert("%s", "%s%d")' % (n, n, j), '@insert("%s")%s%d{{ x }}@end' % (n, n, j)])
            p['p%d' % j] = s
        for _ in range(10):
            calls.append(render('p%d' % r.randrange(4), r.choice([DATA, OTHER])))
        cs.append(case(calls, fs=files(p), note='C06 shared'))
    cs += trees('c06', seed, by(tier, 150, 3000), nlayouts=2, ncomps=1, npages=3)
    return cs + trees('c06f', seed, by(tier, 80, 1500), nlayouts=2, ncomps=1, faults=.15, bad=.02, chk=('has',))


# ---------------------------------------------------------------------------
# C07

def c07(tier, seed):
    r = rng(seed, 'c07')
    cs = []
    comps = {
        'components/card': '<c>{{ argA }}[@slot("head")](@slot){{ x }}</c>',
        'components/list': '@each(e in argL){{ e }}@slot("item")@end@if(argA)A@end',
        'components/plain': 'P{{ s }}',
        'parts/deep/one': '@if(argA)@slot("head")@else none@end@slot@slot("foot")',
        'components/loc': '{{ loc = argA + 1 }}{{ loc }}@slot',
        'components/twice': '@slot|@slot|@slot("a")|@slot("a")',
    }
    argA = ['x', '5', 'x * 2', 'l.len()', '-x', 'x++', '(x + 1) * 2', 'l[0]', 'o.age', 't ? 1 : 2']

    def use(depth, scope):
        k = r.choice(['card', 'card', 'list', 'plain', 'one', 'loc', 'twice'])
        def body():
            if depth and r.random() < .25:
                return use(depth - 1, scope)
            return r.choice(['b', '', '{{ x }}', '{{ %s }}' % r.choice(scope), '@if(t)y@end', '<i>{{ s }}</i>', '@each(w in l){{ w }}@end', '\n z \n', '{{ x + %s }}' % r.choice(scope)])

        def slots(ns):
            out = ''
            for n in ns:
                if r.random() < .7:
                    out += ('@slot("%s")' % n if n else '@slot ') + body() + '@end' + r.choice(['', ' ', '\n'])
            return r.choice(['', '\n ', ' ']) + out + '@end' if out else ''
        a = r.choice(argA + scope)
        if k == 'card':
            return '@component("~card", {argA: %s})' % a + slots(r.sample(['head', ''], 2))
        if k == 'list':
            return '@component("%s", {argL: %s, "argA": %s})' % (r.choice(['~list', 'components/list']), r.choice(['l', '[1, 2]', '[]', '[x, 4]', 'l.append(x)']), r.choice(['1', '0', 'x'])) + slots(['item'])
        if k == 'plain':
            return r.choice(['@component("~plain")', '@component("~plain", {})', "@component('components/plain')"])
        if k == 'one':
            return '@component("parts/deep/one", {argA: %s})' % r.choice(['0', '1', a]) + slots(r.sample(['head', 'foot', ''], 3))
        if k == 'loc':
            return '@component("~loc", {argA: %s})' % a + slots([''])
        return '@component("~twice")' + slots(['a', ''])
    wraps = ['%s', '@if(t)%s@end', '@if(!t)n@else %s@end', '@each(it in [1, 2, 3])%s@end', '@each(it in l)@if(it == 1)%s@else-@end@end', '@for(it = 0; it < 2; it++)%s@end', '{{ it = 8 }}%s', '@each(it in [])n@else{{ it = 2 }}%s@end', '@if(false)@elseif(true)%s@end', '@each(it in [1, 2])@each(w2 in [3, 4])%s@end@end', '@if(t)@if(t)%s@end %s@end']
    for k in range(by(tier, 260, 5000)):
        page = r.choice(['', 'start '])
        for _ in range(r.choice([1, 2, 3, 4])):
            w = r.choice(wraps)
            sc = ['it'] if 'it ' in w and 'it ==' not in w or 'it ==' in w else ['x']
            page += ''.join([w.split('%s')[i] + (use(2, sc) if i < w.count('%s') else '') for i in range(w.count('%s') + 1)]) + r.choice(['', ' ', '\n', '|', '{{ x }}'])
        p = dict(comps, page=page)
        if r.random() < .4:
            p['layouts/m'] = '<@reserve("a")-@reserve("b")>'
            p['page'] = '@use("~m")@insert("a")' + page + '@end' + r.choice(['@insert("b")%s@end' % use(1, ['x']), ''])
        calls = [load(), render('page', DATA), render('page', OTHER), render('page', DATA)]
        cs.append(case(calls, fs=files(p), chk=('has',), note='C07'))
    # arguments: every kind of value, shorthand, order, surrounding names, nothing leaks
    vals = ['1', '"<a>"', '1.5', 'true', 'nil', '[1, 2]', '{k: 1}', 'x', 's', 'l', 'o', 'n', 'x + 1', 's + "z"', 't ? s : "q"', 'o.name', 'l[1]', '[x, 2]', '!t', '"a".upper()']
    for v in vals:
        obj = v in ('{k: 1}', 'o')
        show = {'{k: 1}': '{{ arg.k }}', 'o': '{{ arg.name }}'}.get(v, '{{ arg }}')
        for page in ['@component("~c", {arg: %s})', '@component("~c", {"arg": %s})', '@component("~c", {other: 1, arg: %s})', '@component("~c",\n{\narg: %s\n})', '{{ arg0 = %s }}@component("~c", {arg: arg0})', '@each(q in [1, 2])@component("~c", {arg: %s})@end']:
            cs.append(case([load(), render('page', DATA)], fs=files({'components/c': '<' + show + '>', 'page': page % v}), note='C07 arguments'))
        if not obj:
            cs.append(case([load(), render('page', DATA)], fs=files({'components/c': '<{{ arg }}>', 'page': '{{ arg = %s }}@component("~c", {arg})@component("~c")' % v}), note='C07 shorthand'))
    two = [('{{ a }}', '@component("~c", {a: 1})@component("~c", {a: 2})@component("~c", {a: 3})'), ('{{ a }}@slot', '@component("~c", {a: 1})@slot one@end@end@component("~c", {a: 2})@slot two@end@end@component("~c", {a: 3})'), ('@slot("p")', '@component("~c")@slot("p")1@end@end@component("~c")'), ('@slot("p")', '@component("~c")@component("~c")@slot("p")1@end@end'),
           ('{{ a }}', '@component("~c", {a: 1}){{ a }}'), ('{{ y = 5 }}{{ y }}', '@component("~c"){{ y }}'), ('{{ y = 5 }}{{ y }}', '{{ y = 1 }}@component("~c"){{ y }}'), ('{{ x }}{{ y }}', '{{ y = 6 }}@component("~c")'), ('{{ y }}', '@component("~c"){{ y = 6 }}'), ('{{ v }}', '@each(v in [1, 2])@component("~c")@end'), ('{{ v }}', '@each(v in [1, 2])@component("~c", {v: v * 10})@end'), ('{{ x }}', '@component("~c", {x: 100}){{ x }}'), ('{{ x = 9 }}{{ x }}', '@component("~c"){{ x }}'),
           ('@slot', '@component("~c")@slot @component("~c")@slot in@end@end@end@end'), ('{{ a }}@slot', '@component("~c", {a: 1})@slot{{ a = 5 }}{{ a }}@end@end'), ('<@slot("h")>', '@each(v in [1, 2, 3])@component("~c")@slot("h"){{ v }}@end@end@end'), ('<@slot("h")>{{ a }}', '@each(v in [1, 2, 3])@if(v != 2)@component("~c", {a: v})@slot("h"){{ v }}@end@end@else@component("~c", {a: 0})@end@end'), ('{{ loop.index }}', '@each(v in [1, 2])@component("~c")@end'), ('{{ loop }}', '@component("~c", {loop: 1})'),
           ('@if(a)@slot @end', '@component("~c", {a: 0})@slot z@end@end@component("~c", {a: 1})@slot y@end@end'), ('@each(e in a)@slot,@end', '@component("~c", {a: [1, 2]})@slot s@end@end@component("~c", {a: []})@slot t@end@end'), ('@slot("x")@slot', '@component("~c")@slot d@end@slot("x")n@end@end'), ('@slot("x")', '@component("~c")\n\n@slot("x")\nn\n@end\n\n@end'), ('@slot("x")', '@component("~c") text'), ('@slot("x")', '@component("~c") {{ x }}'), ('a', '@component("~c")\n@component("~c")\n'), ('a', '@component("~c")@if(t)b@end'),
           ('a@slot', '@component("~c")\n  {{ x }}@slot("zz")q@end'), ('{{ a }}', '@component("~c", {a: x})@if(t)@component("~c", {a: s.len()})@end@component("~c", {a: x})'), ('{{ a }}{{ b }}', '@component("~c", {a: 1, b: 2})@component("~c", {b: 3, a: 4})'), ('{{ a }}{{ b }}', '@component("~c", {a: 1, b: 2})@component("~c", {a: 4})'), ('{{ a ? b : "-" }}', '@component("~c", {a: true, b: "q"})@component("~c", {a: false})'), ('', '@component("~c")'), ('@slot', '@component("~c")@slot@end@end'), ('@slot("")', '@component("~c")@slot z@end@end')]
    for c, p in two:
        cs.append(case([load(), render('page', DATA), render('page', DATA), response('page', OTHER)], fs=files({'components/c': c, 'page': p}), note='C07 uses'))
        cs.append(case([load(), render('page', DATA), render('two', DATA), render('page', DATA)], fs=files({'components/c': c, 'page': '@use("~m")@insert("b")%s@end' % p, 'two': p, 'layouts/m': '[@reserve("b")]'}), note='C07 uses'))
    for n in ODD:
        for pre in ('', 'components/'):
            u = ('~' if pre else '') + n
            p = {pre + n: 'C{{ a }}@slot("%s")@slot' % n, 'page': '@component("%s", {a: 1})@slot("%s")S@end@end@component(\'%s\', {a: 2})@slot D@end@end' % (u, n, pre + n), 'c': 'c', 'components/c': 'cc'}
            cs.append(case([load(), render('page', DATA), render(n, dm(a=D.i_(5)))], fs=files(p), note='C07 names'))
            cs.append(case([load(), render('page', DATA)], fs=files({'c': 'c', 'components/c': 'cc', 'page': '@component("%s", {a: 1})' % u}), note='C07 missing names'))
    # arguments with the names of visible variables: all are evaluated at the use
    vis = dm(a=D.i_(1), b=D.i_(2), c=D.i_(3), d=D.i_(4), e=D.i_(5), s=D.s_('s'), u=D.s_('u'))
    show = 'a={{ a }} b={{ b }} c={{ c }} d={{ d }} e={{ e }} s={{ s }} u={{ u }}@slot'
    exprs = ['a', 'b', 'c', 'd', 'a + b', 'c * 2', 'b - a', 'a++', '-b', 'd + e', '[a, b][1]', 'a > b ? c : d', '7', '{a: b}.a', 's.len() + a']
    for k in range(by(tier, 80, 1200)):
        names = r.sample('abcdef', r.choice([1, 2, 2, 3, 4, 5, 6]))
        args = ', '.join(('%s: %s' if r.random() < .7 else '"%s": %s') % (n, r.choice(exprs)) if r.random() < .9 or n == 'f' else n for n in names)
        if r.random() < .4:
            args += ', s: u, u: s'
        u = r.choice(['@component("~c", {%s})', '@component("~c", {%s})\n@slot [{{ a }}{{ b }}{{ s }}]@end\n@end', '@each(a in [b, c])@component("~c", {%s})@end', '@component("~c")@slot @component("~c", {%s})@end@end', '{{ b = a + 10 }}@component("~c", {%s}){{ a }}{{ b }}', '@if(true){{ q = b }}@component("~c", {%s})@end{{ b }}']) % args
        cs.append(case([load(), render('page', vis), render('page', vis)], fs=files({'components/c': show.replace('{{ c }}', '{{ c }}' + r.choice(['', '{{ b = b + 1; b }}', '@if(true){{ a = 9 }}@end{{ a }}'])), 'page': u + '|a={{ a }} b={{ b }} c={{ c }} s={{ s }}'}), note='C07 swaps'))
    # many arguments, slots, uses and files
    for n in (3, 4, 5, 6, 8, 9, 13, 20):
        args = ['p%d' % k for k in range(n)]
        comp = ''.join('{{ %s }},' % a for a in args) + '{{ x }}{{ s }}'
        slots = ''.join('@slot("n%d")' % k for k in range(n)) + '@slot'
        fill = lambda ks: ''.join('@slot("n%d")%d{{ x }}@end' % (k, k) for k in ks) + '@slot D@end'
        order = list(range(n))
        r.shuffle(order)
        part = r.sample(order, n // 2)
        give = '{' + ', '.join('p%d: x + %d' % (k, k) for k in order) + '}'
        pages = {'components/c': comp, 'components/d': comp + slots, 'components/e': slots + '{{ x }}',
                 'one': '@component("~c", %s)' % give, 'two': '@component("~d", %s)%s@end' % (give, fill(order)), 'three': '@component("~e")' + fill(part) + '@end', 'four': '@each(it in [1, 2, 3])@component("~d", %s)%s@end@end' % (give, fill(part)),
                 'five': ''.join(r.choice(['@component("~c", %s)' % give, '@component("~e")%s@end' % fill(r.sample(order, n // 3)), '@component("~d", %s)' % give]) for _ in range(n)),
                 'six': ''.join('@component("~e")@slot("n%d")%d' % (k % n, k) for k in range(min(n, 8))) + '@end@end' * min(n, 8), 'bad': '@component("~e")' + fill(order) + '@end'}
        for k in range(n):
            pages['components/m%d' % k] = 'm%d{{ x }}@slot' % k
        pages['many'] = ''.join('@component("~m%d", {x: x + %d})' % (k, k) + r.choice(['', '@slot s%d@end@end' % k]) for k in order)
        cs.append(case([load()] + [f(p, DATA) for p in ('one', 'two', 'three', 'four', 'five', 'six', 'many', 'one', 'two') for f in (render,)], fs=files(pages), chk=('has',), note='C07 sizes'))
        for bad_ in ('@component("~e")@slot("n%d")a@end@slot("n%d")b@end@end' % (n - 1, n - 1), '@component("~e")%s@slot("n%d")z@end@end' % (fill(part), n), '@component("~e")%s@slot("n%d")z@end@end' % (fill(order), n // 2)):
            cs.append(case([load(), render('bad', DATA)], fs=files(dict(pages, bad=bad_)), chk=('has', 'paths'), note='C07 sizes'))
    # faults found while loading
    bad = [('@slot("a")', '@component("~c")@slot("b")x@end@end', 1), ('@slot("a")', '@component("~c")@slot x@end@end', 1), ('@slot', '@component("~c")@slot("a")x@end@end', 1), ('none', '@component("~c")@slot x@end@end', 1), ('@slot("a")', '@component("~c")@slot("a")x@end@slot("a")y@end@end', 1), ('@slot', '@component("~c")@slot x@end@slot y@end@end', 1), ('@slot("a")@slot', '@component("~c")@slot x@end@slot("a")y@end@slot z@end@end', 1),
           ('c', '@component("~d")', 1), ('c', '@component("d")', 1), ('c', '@component("c")', 1), ('c', '@component("~c.tw")', 1), ('c', '@component("/c")', 1), ('@slot("a")', '@component("~c")@slot("A")x@end@end', 1), ('@slot("a")', '@component("~c")@slot("a ")x@end@end', 1), ('@slot("a")', '@if(false)@component("~c")@slot("b")x@end@end@end', 1), ('@slot("a")', '@each(v in [])@component("~zz")@end', 1), ('{{ # }}', '@component("~c")', 1),
           ('@slot("a")', '@component("~c")@slot("a")@component("~c")@slot("q")x@end@end@end@end', 1), ('@slot("a")', '@component("~c")@slot("a")@component("~zz")@end@end', 1), ('@if(a)@slot("a")@end', '@component("~c", {a: 0})@slot("a")x@end@end', 0), ('@slot("a")', '@component()', 1), ('@slot("a")', '@component("~c", {)', 1), ('@slot("a")', '@component("~c", 5)', 1), ('@slot("a")', '@component("~c", x)', 1), ('@slot("a")', '@component("")', 1), ('{{ zz }}', '@component("~c")', 0), ('{{ 1 / 0 }}', '@component("~c")', 0), ('{{ a }}', '@component("~c", {a: nope})', 0)]
    for c, p, _ in bad:
        for q in (p, '@use("~m")@insert("b")' + p + '@end', '@if(t)' + p + '@end'):
            cs.append(case([load(), render('page', DATA), render('ok', DATA)], fs=files({'components/c': c, 'page': q, 'layouts/m': '@reserve("b")', 'ok': 'fine'}), chk=('has', 'lines', 'paths'), note='C07 faults'))
    cs += trees('c07', seed, by(tier, 160, 3000), ncomps=3, nlayouts=1)
    return cs + trees('c07f', seed, by(tier, 80, 1500), ncomps=2, nlayouts=1, faults=.12, bad=.02, chk=('has',))


# ---------------------------------------------------------------------------
# C14

def c14(tier, seed):
    r = rng(seed, 'c14')
    steps = []
    big = D.m_([('k%d' % i, D.i_(i)) for i in range(12)])
    st = D.st_([('F%d' % i, True, D.i_(i)) for i in range(9)])
    data = dm(o=big, p=st, q=D.m_([('a', big), ('b', st), ('c', D.l_([big, st]))]), l=D.l_([big, big]), x=D.i_(1))
    keys = list('abcdefgh')
    for s in ['{{ o }}', '{{ p }}', '{{ q }}', '{{ l }}', '{{ [o, p, q] }}', '@dump(o)', '@dump(q, p, l)', '@dump(o, x)', '{{ {%s} }}' % ', '.join('%s: %d' % (k, i) for i, k in enumerate(keys)), '@dump({%s})' % ', '.join('%s: {z: %d, y: 2, w: 3}' % (k, i) for i, k in enumerate(keys)), '{{ [o].join(";") }}', '{{ l.join("|") }}', '{{ {a: o, b: p}.a }}',
              '@each(v in l){{ v }}@end', '@each(v in [q]){{ v.c }}@dump(v)@end', '{{ z = q }}{{ z }}{{ z.a }}', '{{ l.reverse() }}', '{{ true.then(o) }}', '{{ l.contains(o) }}{{ l.contains(p) }}', '{{ q.c.contains({}) }}', '@dump(nil, [], {}, "s", 1.5)', '@dump([{b: 1, a: 2}, {d: 1, c: 2}])', '{{ {"z": 1, "y": 2, "x": [1, {m: 1, n: 2, o: 3}]} }}',
              '{{ o == p }}', '{{ o.nope }}', '{{ o + 1 }}', '{{ {}.a }}', '{{ -o }}', '{{ o.nope() }}', '@each(v in o)x@end', '{{ o[o] }}', '{{ x = o }}', '{{ o++ }}', '{{ l[0]["zz"] }}']:
        steps += [ev(s, data), ev(s, data), ev('{{ y = 1 }}' + s, data)]
    # several failing entries
    for k in range(by(tier, 60, 900)):
        ks = r.sample(keys, r.choice([2, 3, 4, 6]))
        fa = ['nope%d', '1 / %d0' if False else 'nope%d', 'zz%d.a', '1 + "a%d"', 'x.f%d()', 'o.w%d']
        es = ', '.join('%s: %s' % (k, r.choice(fa) % i if r.random() < .7 else str(i)) for i, k in enumerate(ks))
        steps += [ev(r.choice(['{{ {%s} }}', '{{ z = {%s} }}', '@dump({%s})', '@each(v in [{%s}])x@end', '{{ {%s}.a }}', '{{ [{%s}] }}']) % es, data)] * 2
        vs = ', '.join(r.choice(fa) % i for i in range(3))
        steps += [ev(r.choice(['{{ [%s] }}', '{{ x.f(%s) }}', '@dump(%s)', '{{ [1].append(%s) }}']) % vs, data)] * 2
    # data with several unsupported values
    for k in range(by(tier, 30, 400)):
        bad = [('b%d' % i, D.bad_(r.choice(BADDATA))) for i in range(r.choice([2, 3, 4]))]
        d = r.choice([lambda: [(n.encode(), v) for n, v in bad], lambda: dm(m=D.m_(bad)), lambda: dm(s=D.st_([(n.upper(), True, v) for n, v in bad])), lambda: dm(l=D.l_([v for _, v in bad]), m=D.m_(bad)), lambda: [(n.encode(), D.m_([('z', v), ('y', D.bad_('func')), ('x', D.bad_('chan'))])) for n, v in bad]])()
        if r.random() < .3:
            d = d + [(b'loop', D.i_(1))]
        steps += [ev('x', d), ev('{{ nope }}', d), ev('x', d)]
    many = [(enc('v%d' % i), D.i_(i)) for i in range(15)]
    steps += [ev('{{ v3 }}{{ zz }}', many)] * 2 + [ev('{{ ' + ' + '.join('v%d' % i for i in range(15)) + ' }}', many)] * 2
    # whole templates
    for k in range(by(tier, 100, 1500)):
        g = Gen(rng(seed, 'c14g', k), bad=.04)
        types, d = g.scope(4)
        s = ev(g.template(types=types), d)
        steps += [s, s]
    cs = [c for c in pack(steps, (), 'C14', 25)]
    for c in cs:
        c['iso'] = True
    # directories with several faults
    tr = []
    for k in range(by(tier, 45, 600)):
        comp = '@slot("s1")@slot("s2")@slot{{ argA }}{{ argB }}'
        p = {'layouts/m': '@reserve("r1")@reserve("r2")', 'components/c': comp, 'ok': 'ok {{ x }}', 'obj': '{{ o }}@dump(o)@component("~c", {argA: o, argB: p})', 'page': '@use("~m")@insert("r1", o)@insert("r2")@component("~c", {argA: 1, argB: 2})@slot("s1"){{ o }}@end@end@end'}
        kind = r.choice(['inserts', 'slots', 'dups', 'files', 'comps', 'args', 'mixed', 'pages', 'none', 'reserves', 'runtime', 'dupslots', 'slotsboth'])
        ns = r.sample(['n1', 'n2', 'n3', 'n4', 'n5'], r.choice([2, 3, 4]))
        if kind == 'inserts':
            p['page'] = '@use("~m")' + ''.join('@insert("%s", %d)' % (n, i) for i, n in enumerate(ns))
        elif kind == 'slots':
            p['page'] = '@component("~c", {argA: 1, argB: 2})' + ''.join('@slot("%s")%d@end' % (n, i) for i, n in enumerate(ns)) + '@end'
        elif kind == 'dups':
            p['page'] = '@use("~m")@insert("r1", 1)@insert("r2", 1)@insert("r2", 2)@insert("r1", 2)@insert("n1", 3)'
        elif kind == 'dupslots':
            p['page'] = '@component("~c", {argA: 1, argB: 2})@slot("s2")a@end@slot("s1")a@end@slot("s1")b@end@slot("s2")c@end@slot d@end@slot e@end@end'
        elif kind == 'slotsboth':
            p['page'] = '@component("~c", {argA: 1, argB: 2})@slot("n3")a@end@slot("s1")a@end@slot("s1")b@end@slot("n1")c@end@end@component("~zz")@component("~yy")'
        elif kind == 'files':
            for n in ns:
                p['d/' + n] = r.choice(PARSEFAULTS)
        elif kind == 'comps':
            p['page'] = ''.join('@component("~%s")' % n for n in ns)
            p['page2'] = ''.join('@component("~%s2")' % n for n in ns)
        elif kind == 'args':
            p['page'] = '@component("~c", {%s})' % ', '.join('%s: %s' % (n, r.choice(['nope%d' % i, '1 + "%d"' % i, 'x.f%d()' % i])) for i, n in enumerate(['argA', 'argB'] + ns))
        elif kind == 'mixed':
            p['page'] = '@use("~m")@insert("zz", 1)@insert("r1")@component("~nope")@end@insert("r2")@component("~c")@slot("q")@end@end@end'
            p['a/b'] = '{{ # }}'
            p['z/b'] = '@use("~gone")'
        elif kind == 'pages':
            for n in ns:
                p[n] = r.choice(['@use("~gone")', '@component("~gone%s")' % n, '@use("~m")@insert("%s", 1)' % n, '{{ %s' % n])
        elif kind == 'reserves':
            p['page'] = '@use("~m")@insert("r1", nope1)@insert("r2", nope2)'
        elif kind == 'runtime':
            p['page'] = '@use("~m")@insert("r2"){{ {%s} }}@end@insert("r1")@component("~c", {argA: zz1, argB: zz2})@end' % ', '.join('%s: %s0' % (n, n) for n in ns)
        st = [load()]
        for n in ('page', 'obj', 'ok', 'page', 'obj'):
            st.append(r.choice([render, render, response])(n, data))
        st += [load(), render('page', data, set=2), render('obj', data, set=2)]
        tr.append(case(st, fs=files(p), note='C14 ' + kind))
    for k in range(by(tier, 50, 800)):
        t = Tree(rng(seed, 'c14t', k), faults=r.choice([0, .1, .3]), bad=r.choice([0, .05]))
        tr.append(case([load()] + t.calls(2), fs=t.fs(), note='C14 trees'))
    return (({'repeat': by(tier, 3, 6)}, cs + tr),)


# ---------------------------------------------------------------------------
# C15

SITE = {
    'layouts/main': '<html>@reserve("title")|@reserve("body")|{{ x }}</html>',
    'components/card': '<card>{{ argA }}@slot("head")@slot</card>',
    'home': '@use("~main")@insert("title", "home")@insert("body")@each(v in l)@component("~card", {argA: v})@slot("head"){{ loop.iter }}@end@slot{{ s }}@end@end@end@end',
    'plain': 'plain {{ x }} {{ s.upper() }} {{ o.name }} @if(x > 5)big@else small@end @for(i = 0; i < 3; i++){{ i }}@end',
    'fails': 'before it fails {{ x }} {{ nope }} after',
    'late': '@use("~main")@insert("title", x)@insert("body")text before @component("~card", {argA: 1})@end{{ 1 / 0 }}@end' if False else '@use("~main")@insert("title", x)@insert("body")text before @component("~card", {argA: 1}) {{ 1 / 0 }}@end',
    'cards': '@component("~card", {argA: x})@component("~card", {argA: x + 1})@slot("head")H{{ x }}@end@end@component("~card", {argA: 2})@slot D@end@end',
    'assign': '{{ y = x }}{{ y = y + 1 }}{{ y }}{{ l.append(5) }}{{ l }}{{ l.reverse() }}{{ s.split("").join("-") }}',
    'badcomp': 'start @component("~card")',
    'custom': '{{ s.shout("!") }}{{ l.both(x) }}{{ x.twice() }}',
    'error': 'the error page {{ 1 + 1 }}',
    'badpage': 'broken {{ nope }}',
    'errl': '@use("~main")@insert("body")sorry@end',
    'objects': '{{ o.name }}{{ {a: x, b: [x, s]}.b }}@each(v in [{k: 1}, {k: 2}]){{ v.k }}@end',
    'nested': '@each(v in [1, 2, 3])@each(w in l)@if(v == 2)@continue@end{{ v }}{{ w }}{{ loop.last }}@end|@breakIf(v == 2)@end',
}
NAMES = ['home', 'plain', 'fails', 'late', 'cards', 'assign', 'badcomp', 'objects', 'nested']


def datas(r, n):
    out = []
    for k in range(n):
        out.append(dm(x=D.i_(r.randint(0, 50)), s=D.s_(r.choice(['ab', 'q<r', 'zed', 'hello'])), l=D.l_([D.i_(r.randint(0, 9)) for _ in range(r.choice([0, 1, 2, 3]))]), o=r.choice([lambda: D.st_([('Name', True, D.s_('n%d' % k))]), lambda: D.m_([('name', D.s_('m%d' % k))])])()))
    return out


FUNCS = [register('str', 'shout'), register('arr', 'both', 'args'), register('int', 'twice', 'arg'), register('float', 'fl'), register('bool', 'bo')]


def evs(r, d):
    return [ev('{{ x }}{{ s }}@each(v in l){{ v }}@end', d), ev('{{ x.nope() }}', d), ev('@if(', d), ev('{{ s.upper() + s.lower() }}{{ [x, 1].join("+") }}', d), ev('\n\n{{ undefinedName }}', d), ev('@each(v in l){{ loop.index }}:{{ v }}@else none@end', d)]


def anycall(r, d, custom, root='t'):
    k = r.random()
    if k < .4:
        return render(r.choice(NAMES + (['custom'] if custom else []) + ['nowhere', 'layouts/main']), d)
    if k < .7:
        return response(r.choice(NAMES + ['nowhere', 'layouts/main', './home', 'home.tw', 'Home', '~main', '']), d)
    if k < .9:
        return r.choice(evs(r, d))
    return evalfile(r.choice([root + '/plain.tw', root + '/fails.tw', root + '/gone.tw', root + '/objects.tw', '$ROOT/' + root + '/plain.tw']), d)


def c15(tier, seed):
    r = rng(seed, 'c15')
    cs = []
    # every pair of kinds of calls
    for k in range(by(tier, 44, 500)):
        dbg, err = r.random() < .3, r.choice(['', 'error', 'badpage', 'nopage', 'errl'])
        custom = r.random() < .3
        ds = datas(r, 3)
        shared = r.random() < .3
        calls = []
        for _ in range(r.choice([2, 3, 4, 6])):
            calls.append(anycall(r, ds[0] if shared else r.choice(ds), custom))
        if r.random() < .35:
            calls[1] = dict(calls[0], data=ds[1])
        # what every call does by itself, in a fresh copy of the engine: before and after
        alone = calls if r.random() < .5 else []
        st = (FUNCS if custom else []) + [load('t', '.tw', err, dbg)] + alone + [{'op': 'par', 'calls': calls, 'go': r.choice([2, 3, 4]), 'rounds': by(tier, 12, 30)}] + calls
        cs.append(case(st, fs=files(marked(SITE)), note='C15'))
    # the first call ever is concurrent; without any templates
    for k in range(by(tier, 10, 120)):
        ds = datas(r, 3)
        calls = [r.choice(evs(r, d)) for d in ds for _ in range(2)]
        cs.append(case([{'op': 'par', 'calls': calls, 'go': 3, 'rounds': by(tier, 12, 30)}] + calls, note='C15 strings'))
    # every built-in function in several goroutines
    bs = [('{{ s.%s }}', ['len()', 'split("")', 'raw()', 'trim()', 'trimRight("b")', 'trimLeft("a")', 'upper()', 'lower()', 'capitalize()', 'reverse()', 'contains("a")', 'truncate(2)', 'decimal(".", 2)', 'at(1)', 'first()', 'last()', 'repeat(3)']),
          ('{{ l.%s }}', ['len()', 'join("-")', 'rand() == 4', 'reverse()', 'slice(1)', 'shuffle()', 'shuffle().len()', 'append(4)', 'prepend(4)', 'contains(4)', 'shuffle().contains(4)']),
          ('{{ x.%s }}', ['float()', 'abs()', 'str()', 'len()', 'decimal()']), ('{{ f.%s }}', ['int()', 'str()', 'abs()', 'ceil()', 'floor()', 'round(1)']), ('{{ t.%s }}', ['binary()', 'then(1, 2)'])]
    bs = [f % b for f, xs in bs for b in xs] + ['{{ %s }}' % e for e in ('x + f.int()', '[x, s, l]', '{a: x}.a', 't ? x : s', '"lit" + s', '-x', '!t', 'x++', '1.5 * f', 's == "q"')] + ['@dump(x, s, l)', '@each(v in l){{ v }}{{ loop.last }}@end', '@for(i = 0; i < 5; i++){{ i }}@end', '{{ y = x }}{{ y }}']
    for k in range(by(tier, 14, 150)):
        d = dm(s=D.s_('abcab'), l=D.l_([D.i_(4)] * 9), x=D.i_(6), f=D.f_(2.5), t=D.b_(True))
        bs2 = bs[k::14] if k < 14 else r.sample(bs, 4)
        cs.append(case([{'op': 'par', 'calls': [ev(b, d) for b in bs2], 'go': 4, 'rounds': 40}] + [ev(b, d) for b in bs2], note='C15 functions'))
        p = {'p%d' % i: 'MARK' + b for i, b in enumerate(bs2)}
        cs.append(case([load(), {'op': 'par', 'calls': [r.choice([render, response])('p%d' % i, d) for i in range(len(bs2))], 'go': 4, 'rounds': 20}], fs=files(p), note='C15 functions'))
    for names in (['fails', 'fails'], ['home', 'cards'], ['late', 'home'], ['badcomp', 'fails'], ['nowhere', 'plain'], ['assign', 'assign'], ['custom', 'plain']):
        for err in ('', 'error', 'badpage'):
            for dbg in (False, True):
                if tier == 'quick' and r.random() < .5:
                    continue
                ds = datas(r, 2)
                calls = [f(n, d) for n, d in zip(names, ds) for f in (render, response)]
                cs.append(case(FUNCS + [load('t', '.tw', err, dbg), {'op': 'par', 'calls': calls, 'go': 4, 'rounds': 15}] + calls, fs=files(marked(SITE)), note='C15 pairs'))
    return (({'race': True}, cs),)


# ---------------------------------------------------------------------------
# C16

def c16(tier, seed):
    r = rng(seed, 'c16')
    cs = []
    d1, d2 = datas(r, 2)
    # all histories of these calls up to a length
    calls = [render('home', d1), render('fails', d1), response('fails', d2), response('plain', d2), ev('{{ nope }}', d1), evalfile('t/plain.tw', d1), render('cards', d2), render('nowhere', d1), response('late', d1), ev('{{ x }}@each(v in l){{ v }}@end', d2)]
    n = by(tier, 2, 3)
    for err, dbg in (('', False), ('error', False), ('badpage', False), ('error', True)):
        for k in range(1, n + 1):
            hs = itertools.product(range(len(calls)), repeat=k)
            for h in hs:
                # the histories are joined: each is followed by every call once
                cs.append(case([load('t', '.tw', err, dbg)] + [calls[i] for i in h] + (calls if k == n else []), fs=files(marked(SITE)), chk=('lines', 'paths'), note='C16 histories') if (err, k) == ('', n) or r.random() < by(tier, .25, .5) else None)
    cs = [c for c in cs if c]
    # loads between renders
    for k in range(by(tier, 120, 2500)):
        ds = datas(r, 3)
        err, dbg = r.choice(['', 'error', 'badpage', 'nopage', 'errl']), r.random() < .3
        custom = r.random() < .3
        st = (FUNCS if custom else []) + [load('t', '.tw', err, dbg)]
        pool = [anycall(r, r.choice(ds), custom) for _ in range(r.choice([2, 3, 4]))]
        for _ in range(r.choice([4, 8, 14, 20])):
            st.append(r.choice(pool) if r.random() < .8 else anycall(r, r.choice(ds), custom))
        cs.append(case(st, fs=files(marked(SITE)), chk=('lines', 'paths'), note='C16 random'))
    # several sets of templates in one process; string calls before any load
    other = {'home': 'other home {{ x }}', 'plain': '{{ nope }}', 'error': 'other error', 'deep/er': '{{ s }}'}
    for k in range(by(tier, 60, 900)):
        ds = datas(r, 2)
        st = [r.choice(evs(r, ds[0])) for _ in range(r.choice([0, 1, 2]))]
        st.append(load('t', '.tw'))
        st += [anycall(r, r.choice(ds), False) for _ in range(r.choice([0, 2]))]
        st.append(load('u', r.choice(['.tw', '.tw', '.html']), r.choice(['', 'error'])) if r.random() < .7 else load('t', '.tw', r.choice(['', 'error'])))
        for _ in range(r.choice([3, 6, 9])):
            c = anycall(r, r.choice(ds), False)
            if c['op'] in ('render',) and r.random() < .6:
                c = dict(c, set=2, name=enc(r.choice(['home', 'plain', 'deep/er', 'cards'])))
            elif c['op'] == 'response':
                c = dict(c, set=2, name=enc(r.choice(['home', 'plain', 'deep/er', 'cards'])))
            st.append(c)
        cs.append(case(st, fs=files(marked(SITE)) + files(other, 'u') + files({'home': 'html home'}, 'u', '.html'), note='C16 sets'))
    for k in range(by(tier, 80, 1500)):
        t = Tree(rng(seed, 'c16t', k), bad=r.choice([0, .05]))
        cl = t.calls()
        # the same pages with other data of the same types
        g = Gen(rng(seed, 'c16d', k))
        d2 = [(n, g.datum(t.types[n.decode()])) for n, _ in t.data]
        st = [load()]
        for _ in range(8):
            c = r.choice(cl)
            st.append(dict(c, op=r.choice(['render', 'render', 'response']), data=r.choice([t.data, t.data, d2, []])))
        cs.append(case(st, fs=files(marked(t.files)), chk=('lines', 'paths'), note='C16 trees'))
    # the same page with good data, with data that make it fail somewhere, and
    # with good data again
    rich = ['@each(v in l)<{{ v }}>@else none {{ x }}@end', '@each(v in l)@each(w in l){{ v }}{{ w }}@else-@end@else none@end', '@for(i = 0; i < x; i++){{ i }}{{ l[i] }}@else no@end', '@if(x)a{{ x + 1 }}@elseif(s)b{{ s + "z" }}@else c@end', '@component("~card", {argA: x + 1})@slot("head"){{ s.upper() }}@end@slot{{ l.len() }}@end@end', '{{ y = x }}{{ y + 1 }}{{ x ? s : l }}', '@each(v in l)@component("~card", {argA: v})@slot d@end@end@else empty@end',
            '{{ o.name }}{{ o["name"] }}@if(o.name == s)eq@else ne@end', '{{ [x, s.len(), l.len()] }}{{ {a: x, b: {c: s}}.b.c }}', '@each(v in l)@if(v > 3)@break@end{{ v * 2 }}@breakIf(x == v)@continueIf(loop.first).@else e@end', '@component("~card", {argA: l.join("-"), x: s})', '@for(i = x; i != 0; i = 0)@component("~card", {argA: i, s: s})@end@else zero@end', '{{ x - 1 }}{{ -x }}{{ x++ }}{{ !(x == 1) }}', '@dump(x, s)']
    for k in range(by(tier, 90, 1500)):
        d = datas(r, 1)[0]
        body = [r.choice(rich) for _ in range(r.choice([1, 1, 2, 3]))]
        if k < 2 * len(rich):
            body[0] = rich[k % len(rich)]
        body = r.choice(['', ' ', '\n', '|']).join(body)
        p = {'components/card': SITE['components/card'], 'layouts/main': SITE['layouts/main'], 'page': r.choice([body, '@if(true)%s@end' % body, '@each(q in [1, 2])%s@end' % body, '@use("~main")@insert("title", x)@insert("body")%s@end' % body])}
        st = [load('t', '.tw')]
        for _ in range(8):
            st.append(r.choice([render, render, response])('page', mutated(r, d) if r.random() < .55 else r.choice([d, datas(r, 1)[0]])))
        st.append(render('page', d))
        cs.append(case(st, fs=files(marked(p)), chk=('lines', 'paths'), note='C16 varied'))
    # every pair of values of a variable, one after the other
    for k, body in enumerate(rich):
        d = dm(x=D.i_(2), s=D.s_('ab'), l=D.l_([D.i_(2), D.i_(5)]), o=D.m_([('name', D.s_('m'))]))
        for j, (n, v) in enumerate(d):
            if (n.decode() not in body) or (tier == 'quick' and n in (b's', b'o') and (k + j + seed) % 3):
                continue
            vs = [v] + variants(v)
            order = tours(len(vs))
            vd = [d[:j] + [(n, w)] + d[j + 1:] for w in vs] + [d[:j] + d[j + 1:]]
            for at in range(0, len(order) - 1, 30):
                p = {'components/card': SITE['components/card'], 'page': body}
                cs.append(case([load('t', '.tw')] + [render('page', vd[i]) for i in order[at:at + 31]], fs=files(p), chk=('lines', 'paths'), note='C16 pairs of data'))
    # files that change between the calls: what is loaded or evaluated by
    # path afterwards is what the files say then
    for k in range(by(tier, 80, 1200)):
        cs.append(case(rewrites(r, by(tier, 12, 24)), fs=files(marked(SITE)), chk=('lines', 'paths'), note='C16 rewrites'))
    return cs


VARIANTS = {
    'plain': ['plain two {{ x }}', '{{ nope }}', '{{ x ', '@use("~main")@insert("b", "now in a layout")', ''], 'home': ['short home', '{{ x }}{{ s }}'], 'fails': ['works {{ x }}', '\n\n{{ nope }}'],
    'layouts/main': ['<other>@reserve("b")@reserve("a")</other>', '<x>@reserve("b")</x>'], 'fresh': ['a fresh page {{ x }}', '@component("~fresh")'], 'components/fresh': ['fresh component'], 'error': ['another error page', '{{ 1 / 0 }}'],
}


def rewrites(r, n):
    ds = datas(r, 2)
    st, nsets, gone = [load('t', '.tw', r.choice(['', 'error']), r.random() < .3)], 1, {'fresh', 'components/fresh'}
    for _ in range(n):
        x = r.random()
        if x < .3:
            name = r.choice(list(VARIANTS))
            if name not in gone and r.random() < .2 and name not in ('layouts/main',):
                st.append(write([(enc('t/' + name + '.tw'), b'', 'gone')]))
                gone.add(name)
            else:
                src = r.choice(VARIANTS[name] + ([SITE[name]] * 2 if name in SITE else []))
                st.append(write(files(marked({name: src}))))
                gone.discard(name)
            # what was just written is used at once
            st.append(evalfile('t/' + name + '.tw', r.choice(ds)))
        elif x < .5:
            st.append(load('t', '.tw', r.choice(['', 'error']), r.random() < .3))
            nsets += 1
        elif x < .6:
            st.append(evalfile(r.choice(['t/', '$ROOT/t/', './t/']) + r.choice(list(VARIANTS)) + '.tw', r.choice(ds)))
        else:
            st.append(r.choice([render, response])(r.choice(list(VARIANTS) + ['cards', 'late']), r.choice(ds), set=r.choice([nsets, nsets, r.randint(1, nsets)])))
    return st


# ---------------------------------------------------------------------------
# C17

FAILING = {
    'f1': 'the first part of the page {{ x }} {{ nope }} the last part', 'f2': '@if(true)some visible text@end{{ 1 / 0 }}', 'f3': 'header section @each(v in [1, 2, 3]){{ v }}@if(v == 2){{ "secret detail".nope() }}@end@end', 'f4': '{{ 1 }}{{ x + "leaked text" }}', 'f5': '@component("~c", {argA: nope})component page', 'f6': 'long page start ' * 20 + '{{ o.zz }}',
    'f7': '@use("~m")@insert("b")insert body text {{ nope }}@end', 'f8': '<html><body>page with html</body></html>{{ x.abc() }}', 'f9': 'text with slot @component("~c", {argA: 1})\n@slot slot body text {{ nope }}@end\n@end', 'f10': '@use("~bad")@insert("b", "insert value text")', 'f11': '@component("~cbad")component text after', 'f12': '{{ "<script>" + 1 }}unsafe page text',
    'f13': 'a page\n\n\n\n\n\n\n{{ s.f() }}', 'f14': '@dump(nope)dumped text', 'f15': 'text before\n@for(i = 0; i < 3; i = "x")loop text@end',
}
GOOD = {'g1': 'a good page {{ x }}', 'g2': '@use("~m")@insert("b", "insert text")', 'g3': '', 'g4': '@component("~c", {argA: x})\n@slot a good slot@end\n@end', 'g5': '{{ s }}' * 30}
PARTS = {'layouts/m': '<m>layout text @reserve("b")</m>', 'layouts/bad': '<m>layout start text @reserve("b") {{ nope }}</m>', 'components/c': '<c>{{ argA }}@slot</c>', 'components/cbad': 'component inside text {{ 1 / 0 }}'}
ERRS = {'': None, 'error': 'CUSTOM <b>sorry</b> {{ 2 * 3 }}', 'errors/500': 'deep custom page @if(true)yes@end', 'elay': '@use("~m")@insert("b")custom in layout@end', 'ecomp': '@component("~c", {argA: 7})', 'emissing': None, 'efails': 'custom partial text {{ nope }}', 'efailsx': 'custom needs data {{ x }}', 'layouts/m': None, 'eempty': '', 'efor': '@for(i = 0; i < 3; i++){{ i }}@end custom', 'efl': '@use("~bad")@insert("b", "in error page")'}


def c17(tier, seed):
    r = rng(seed, 'c17')
    cs = []
    pages = dict(PARTS, **FAILING, **GOOD)
    pages.update({k: v for k, v in ERRS.items() if v is not None})
    for err in ERRS:
        for dbg in (False, True):
            for ext, d in (('.tw', 't'), ('.tw.html', 'some/dir')):
                if tier == 'quick' and ext != '.tw' and r.random() < .6:
                    continue
                st = [load(d, ext, err, dbg)]
                for n in list(FAILING) + list(GOOD) + ['nowhere', 'layouts/m', 'f1.tw', '', '../t/f1', 'f1<script>']:
                    st.append(response(n, XDATA))
                r2 = list(st[1:])
                r.shuffle(r2)
                st += r2[:8]
                st.append(response('g1', dm(x=D.bad_('chan'))))
                st.append(response('g1', dm(loop=D.i_(1))))
                st.append(response('f1', dm(x=D.s_('</html><x>'))))
                st.append(response('g1', ()))
                cs.append(case(st, fs=files(marked(pages), d, ext), note='C17'))
    # random pages
    for k in range(by(tier, 120, 2500)):
        t = Tree(rng(seed, 'c17t', k), bad=r.choice([.05, .1, .2]))
        err = r.choice(['', 'ep', 'ep', 'ebad', 'gone'])
        p = dict(t.files, ep=r.choice(['custom {{ 1 }}', '<h1>Sorry</h1>\n', '@if(true)oops@end']), ebad=r.choice(['half of it {{ nope }}', '{{ 1 / 0 }}']))
        st = [load('t', '.tw', err, r.random() < .4)] + [response(n, d) for n in t.pages for d in (t.data, [])] + [render(n, t.data) for n in t.pages]
        cs.append(case(st, fs=files(marked(p)), note='C17 trees'))
    # several loads: what the last one says counts
    opts = [(e, g) for e in ('', 'error', 'errors/500', 'emissing') for g in (False, True)]
    hist = list(itertools.product(opts, repeat=2)) + pick(r, list(itertools.product(opts, repeat=3)), by(tier, 60, 512))
    for h in hist:
        st = []
        for i, (e, g) in enumerate(h):
            st.append(load('t', '.tw', e, g))
            if r.random() < .5:
                st.append(r.choice([ev('{{ nope }}', ()), response('f1', XDATA, set=r.randint(1, i + 1)), render('f2', XDATA, set=i + 1)]))
        if r.random() < .3:
            st.append(load_default() if r.random() < .3 else load('gone', '.tw', r.choice(['', 'error']), r.random() < .5))
        for n in ('f1', 'g1', 'f7', 'nowhere', 'f2'):
            for k in r.sample(range(len(h)), min(2, len(h))):
                st.append(response(n, XDATA, set=k + 1))
        cs.append(case(st, fs=files(marked(pages)), note='C17 reloads'))
    # messages with characters that matter in HTML; custom functions
    msgs = ['{{ "<b>&\'x".nope() }}', '{{ x.a }}', "{{ 'q\"'.f() }}", '{{ o["<zz>"] }}', '{{ o["a&b"] }}', '{{ s + 1 }}', '{{ l["\'"] }}', '@each(v in "<i>")x@end']
    for m in msgs:
        for dbg in (True, False):
            n = r.choice([1873, 2741])
            cs.append(case([load('t', '.tw', '', dbg), response('p', XDATA)], fs=files({'p': 'MARK' + '\n' * n + m}), note='C17 lines'))
            cs.append(case([load('t', '.tw', '', dbg), response('p', XDATA), render('p', XDATA)], fs=files({'p': 'MARK visible page text ' + m}), note='C17 messages'))
    return cs


# ---------------------------------------------------------------------------
# C18

SPELL = ['t', 't/', './t', './t/', 't//', 't/.', 'x/../t', 't/../t', './/t', 't/sub/..', '/t', '/t/', '$ROOT/t', '$ROOT/t/', '$ROOT/x/../t', '$ROOT//t', 't/./', './/./t//']
DEEPS = [('a/b/c', 'a/b/c'), ('a/b/c/', 'a/b/c'), ('a/b/../b/c', 'a/b/c'), ('./a//b/c', 'a/b/c'), ('$ROOT/a/b/c', 'a/b/c'), ('a/b/c/../c/', 'a/b/c'), ('/a/b/c', 'a/b/c'), ('.', ''), ('./', ''), ('$ROOT', ''), ('a/..', ''), ('$ROOT/', '')]
EXTS = ['.tw', '.tw.html', '.html', '.x', 'tw', '.tw.html.txt', '-page', '.T']


def c18(tier, seed):
    r = rng(seed, 'c18')
    cs = []

    def tree(ext):
        p = {'home': 'home {{ x }}', 'sub/page': 'sub {{ x }}', 'sub/deep/er/p': 'deep', 'a.b': 'dotted', 'with space': 'space', '\u00e9t\u00e9': 'accent', 'layouts/main': '<@reserve("b")>', 'other/lay': 'o@reserve("b")', 'components/c': 'C{{ argA }}@slot', 'uses': '@use("~main")@insert("b", x)', 'comp': '@component("~c", {argA: 1})', 'UP': 'upper', 'home2': 'x', 'sub/home': 'subhome', 'x' + ext.strip('.'): 'odd'}
        return {k: p[k] for k in p if k in ('home', 'layouts/main', 'components/c') or r.random() < .75}

    def names(p, ext, d):
        out = list(p) + [n + ext for n in r.sample(list(p), 2)] + ['nowhere', '', '/home', './home', 'sub', 'sub/', 'home/', '../' + (d or 't') + '/home', 'HOME', 'sub//page', 'layouts/../home', d + '/home', 'sub\\page', 'home ', '~main', 'junk', 'readme', 'sub/junk', 'layouts', '\x00', 'hom', 'components']
        return out

    def extra(base, ext):
        b = base + '/' if base else ''
        return [(enc(b + 'junk.txt'), b'{{ # }} @if(', 'file'), (enc(b + 'sub/junk.tww'), b'{{ ', 'file'), (enc(b + 'readme'), b'@end {{', 'file'), (enc(b + 'home' + ext + '.bak'), b'{{ 1 + }}', 'file'), (b'outside.tw', b'outside {{ # }}' if base else b'outside', 'file'),
                (enc(b + 'emptydir'), b'', 'dir')]
    spells = [(s, 't') for s in SPELL] + DEEPS
    for sp, base in spells:
        for ext in (EXTS if tier != 'quick' else ['.tw', r.choice(EXTS[1:])]):
            p = tree(ext)
            ex = [f for f in extra(base, ext) if not f[0].endswith(enc(ext)) or f[2] == 'dir']
            ex += [(b'x/y', b'', 'file'), (b't/sub/z.dat', b'', 'file'), (b'a/b/z.dat', b'', 'file')]
            fs = files(p, base or '.', ext) if base else [(enc(n + ext), enc(c), 'file') for n, c in p.items()]
            st = [load(sp, ext)] + [render(n, DATA) for n in names(p, ext, base)]
            for n in pick(r, list(p), 4):
                f = (base + '/' if base else '') + n + ext
                src = p[n]
                if '@' not in src:
                    st += [evalfile(f, DATA), ev(src, DATA), evalfile('$ROOT/' + f, DATA)]
            c = case(st, fs=fs + ex, chk=('paths',), note='C18 spellings')
            cs.append(c)
    # the default configuration
    p = {'home': 'h {{ x }}', 'layouts/main': '<@reserve("b")>', 'uses': '@use("~main")@insert("b", x)'}
    for st in ([load_default()], [load('', '')], [load('', '.tw')], [load('t', '')], [load('t', '.tw'), load_default()], [load_default(), load('t', '.tw')], [load('t/', '.html'), load('', '')]):
        k = len(st)
        fs = files(p, 'templates', '.tw.html') + files({'home': 'tw'}, 'templates', '.tw') + files({'home': 't', 'q': 'q'}, 't', '.tw.html') + files({'home': 'ttw'}, 't', '.tw') + files({'home': 'thtml'}, 't', '.html')
        cs.append(case(st + [render(n, DATA, set=i + 1) for i in range(k) for n in ('home', 'uses', 'layouts/main', 'q', 'home.tw')], fs=fs, note='C18 defaults'))
    for d in ('gone', 't/gone', '../gone', '$ROOT/gone', '', 'file.tw'):
        cs.append(case([load(d, '.tw')], fs=files({'home': 'x'}) + [(b'file.tw', b'x', 'file')], note='C18 no directory') if d != 'file.tw' else case([load('t', '.zz'), render('home', DATA)], fs=files({'home': 'x'}), note='C18 no files'))
    # faults of every single file, one at a time
    good = {'home': 'home {{ x }}', 'uses': '@use("~main")\n@insert("b")\n<p>{{ x }}</p>@component("~c", {argA: 1})\n@slot s@end\n@end\n@end', 'comp': 'text @component("~sub/d")@each(v in l)@component("~c", {argA: v})@end', 'layouts/main': '<html>@reserve("b")@if(t){{ x }}@end</html>', 'layouts/free': '@reserve("q")', 'components/c': '<c>{{ argA }}@slot</c>', 'components/sub/d': 'D@if(t)t@end', 'sub/deep/x': '@use("layouts/main")@insert("b", x)'}
    calls = [render(n, DATA) for n in good]
    for ext in ('.tw', '.tw.html'):
        for d, base in (('t', 't'), ('./t/', 't'), ('$ROOT/v/w', 'v/w'), ('v/x/../w', 'v/w')):
            if tier == 'quick' and (ext, d) not in (('.tw', 't'), ('.tw.html', '$ROOT/v/w')):
                continue
            side = [(b'v/x/y', b'', 'file')]
            cs.append(case([load(d, ext)] + calls, fs=files(good, base, ext) + side, chk=('paths',), note='C18 good'))
            for n in good:
                rest = {k: v for k, v in good.items() if k != n}
                path = enc(base + '/' + n + ext)
                cs.append(case([load(d, ext)] + calls, fs=files(rest, base, ext) + side, chk=('paths', 'has'), note='C18 missing'))
                cs.append(case([load(d, ext)] + calls, fs=files(rest, base, ext) + side + [(path, b'', 'bad')], chk=('paths', 'has'), note='C18 unreadable'))
                cs.append(case([load(d, ext)] + calls, fs=files(rest, base, ext) + side + [(path, b'', 'dir')], chk=('has',), note='C18 directory'))
                cs.append(case([load(d, ext)] + calls, fs=files(rest, base, ext) + side + [(path, enc(good[n]), 'link')], chk=('paths',), note='C18 link'))
                src = enc(good[n])
                cuts = range(len(src)) if tier != 'quick' else pick(r, range(len(src)), 14)
                for k in cuts:
                    cs.append(case([load(d, ext)] + ([render('home', DATA)] if tier != 'quick' else []), fs=files(rest, base, ext) + side + [(path, src[:k], 'file')], chk=('paths', 'has'), note='C18 truncated'))
                for m in mutants(r, src, by(tier, 4, 40))[-by(tier, 4, 40):]:
                    cs.append(case([load(d, ext)], fs=files(rest, base, ext) + side + [(path, m, 'file')], chk=('paths', 'has'), note='C18 mutated'))
                for f in pick(r, PARSEFAULTS, by(tier, 3, 40)):
                    cs.append(case([load(d, ext)], fs=files(rest, base, ext) + side + [(path, enc(r.choice(['', 'a\nb\n']) + f), 'file')], chk=('paths', 'has', 'lines'), note='C18 faulty'))
                cs.append(case([load(d, ext)], fs=files(rest, base, ext) + side + [(path, bytes(r.randrange(256) for _ in range(40)), 'file')], chk=('paths',), note='C18 random bytes'))
    # names of files and directories
    for n in ODD:
        ext = r.choice(EXTS[:4])
        sp, base = r.choice([s for s in spells if s[1]])
        p = {n: 'N {{ x }}', n + '2': 'two', 'sub/' + n: 'S', n + '/' + n: 'D', n + '.d/in' : 'I', 'x/' + n + ext: 'E', 'z': 'z'}
        p = {k: v for k, v in p.items() if r.random() < .8 or k == n}
        for cmp_ in ([n + '/' + n, n + '.d/in'] if n + ext in ('x',) else []):
            p.pop(cmp_, None)
        cs.append(case([load(sp, ext)] + [render(k, DATA) for k in list(p) + [n + ext, n + '.', 'sub', 'x/' + n]] + [evalfile((base + '/' + n + ext), DATA)],
                       fs=files(p, base, ext) + [(b'x/y', b'', 'file'), (b't/sub/z.dat', b'', 'file'), (b'a/b/z.dat', b'', 'file')], chk=('paths',), note='C18 names'))
        cs.append(case([load(sp, ext), render('ok', DATA)], fs=files({'ok': 'ok', n: r.choice(['@if(x', '{{ 1 + }}', '@use("~gone")', '@component("gone")'])}, base, ext) + [(b'x/y', b'', 'file'), (b't/sub/z.dat', b'', 'file'), (b'a/b/z.dat', b'', 'file')], chk=('paths', 'has'), note='C18 names'))
        d = n + '.dir'
        cs.append(case([load(d, ext), render('home', DATA), render('sub/a', DATA), evalfile(d + '/home' + ext, DATA)], fs=files({'home': 'H', 'sub/a': 'A'}, d, ext), chk=('paths',), note='C18 directory names'))
    # what is in a file is what is evaluated
    bodies = [b'', b'\n', b' ', b'\xef\xbb\xbfbom {{ x }}', b'\xef\xbb\xbf', b'\xff\xfea\x00', b'a\r\nb\r\n{{ x }}\r\n', b'a\n\n\n', b'\n\n  a', b'a\x00b{{ x }}', b'\x00', b'\t{{ x }}\t', b'\r', b'a\rb', b'\xc3', b'{{ x }}\xe2\x82', b'#!/bin/sh\n{{ x }}', b'---\ntitle: x\n---\n{{ x }}', b'<?xml version="1.0"?>{{ x }}', b'<!-- {{ x }} -->', b'{{ x }}\x1a', b'\xc2\xa0{{ x }}\xc2\xa0', b'\x0c{{ x }}\x0b', b'\xe2\x80\xa8{{ x }}', b'x' * 5000 + b'{{ x }}', b'\n' * 300 + b'{{ nope }}', b'\xef\xbb\xbf{{ nope }}', b'\\{{ x }}', b'{{ "\xef\xbb\xbf" }}', b'<script>\n  var a = {{ x }};\n</script>\n']
    for b in bodies:
        st = [evalfile('f', DATA), ev(b, DATA), evalfile('$ROOT/f', DATA), load('t', '.tw'), render('p', DATA), render('q', DATA), render('r', DATA), response('p', DATA)]
        mk = b'MARK ' if False else b''
        cs.append(case(st[:-1], fs=[(b'f', b, 'file')] + files({'p': mk + b, 'layouts/m': b + b'@reserve("b")' + b, 'q': '@use("~m")@insert("b", 1)', 'components/c': b, 'r': '@component("~c")'}), chk=('lines',), note='C18 contents'))
    # files by path
    for k in range(by(tier, 60, 900)):
        g = Gen(rng(seed, 'c18g', k), bad=.03)
        types, data = g.scope(3)
        s = g.template(types=types)
        f = r.choice(['f.txt', 'dir/f', 'a b/c.tw', 'x.html', '\u00e9/f'])
        cs.append(case([evalfile(f, data), ev(s, data), evalfile('$ROOT/' + f, data), evalfile('./' + f, data), evalfile('gone' + f, data), evalfile('dir0', data), evalfile('', data), evalfile('dir0/../' + f, data)], fs=[(enc(f), enc(s), 'file'), (b'dir0', b'', 'dir'), (b'un', b'', 'bad')], note='C18 by path'))
    for k in range(by(tier, 60, 1200)):
        t = Tree(rng(seed, 'c18t', k))
        sp, base = r.choice([s for s in spells if s[1]])
        ext = r.choice(EXTS[:4])
        st = [load(sp, ext)] + [render(n, t.data) for n in list(t.files) + ['zz']]
        cs.append(case(st, fs=files(t.files, base, ext) + [(b'x/y', b'', 'file'), (b't/sub/z.dat', b'', 'file'), (b'a/b/z.dat', b'', 'file')], chk=('paths',), note='C18 trees'))
    # the files change and are loaded or evaluated again
    for k in range(by(tier, 40, 700)):
        cs.append(case(rewrites(r, 10), fs=files(marked(SITE)), chk=('paths',), note='C18 rewrites'))
    for n in good:
        path = enc('t/' + n + '.tw')
        for bad in ([(path, b'', 'gone')], [(path, b'{{ x ', 'file')], [(path, b'', 'bad')]):
            back = [(path, enc(good[n]), 'file')]
            if bad[0][2] == 'bad':
                continue
            cs.append(case([load(), write(bad), load()] + calls + [evalfile('t/' + n + '.tw', DATA), write(back), load()] + [dict(c, set=3) for c in calls] + [evalfile('t/' + n + '.tw', DATA)],
                           fs=files(good), chk=('paths', 'has'), note='C18 repaired'))
    for c in cs:
        c['needs_root'] = True
    return cs


# ---------------------------------------------------------------------------
# C20

RECV = {
    'str': [('"ab"', None), ('s', D.s_('st')), ('s', D.s_('h\u00e9 \u65e5')), ('""', None), ('s', D.s_('')), ('(s + "x")', D.s_('q')), ('s.upper()', D.s_('up')), ("'single'", None), ('s', D.p_(D.s_('ptr'))), ('s', D.s_(b'\xff\xfe')), ('s', D.s_('<b>&'))],
    'arr': [('[1, 2]', None), ('s', D.l_([D.i_(1), D.s_('a'), D.nil_()])), ('[]', None), ('s', D.l_([])), ('s', D.l_([D.l_([D.i_(1)]), D.m_([('k', D.i_(2))])])), ('["a", 1.5, true, nil]', None), ('s', D.l_([D.i_(200, 'uint8')], typed=True)), ('s', D.l_([], name='nil')), ('[{a: 1}]', None), ('s.reverse()', D.l_([D.i_(1), D.i_(2)])), ('"a,b".split(",")', None)],
    'int': [('5', None), ('s', D.i_(-7)), ('s', D.i_(2**63 - 1)), ('s', D.i_(-2**63)), ('0', None), ('(1 + 2)', None), ('s', D.i_(255, 'uint8')), ('"abc".len()', None), ('s', D.i_(2**40, 'uint64'))],
    'float': [('1.5', None), ('s', D.f_(-0.0)), ('s', D.f_(1e300)), ('0.1', None), ('s', D.f_(float('inf'))), ('(0.1 + 0.2)', None), ('s', D.f_(0.1, 'float32')), ('3.0', None), ('5.float()', None)],
    'bool': [('true', None), ('false', None), ('s', D.b_(True)), ('(1 == 1)', None), ('s', D.b_(False))],
}
CARGS = ['', '1', '"a"', '1.5', 'true', 'false', 'nil', '[]', '[1, "b", nil]', '{}', '{a: 1, b: [2, {c: 3.5}]}', '1, "x", nil', 'w', 'w, w', '[w]', '{k: w}', '[[[1]]]', '9223372036854775807', '-9223372036854775807 - 1', '"\u00e9\u65e5"', '0.1', '-0.0', '1, 2, 3, 4, 5', '{z: 1, y: 2, x: 3}', 's', '[s, 1]', '"' + 'l' * 30 + '"', '1 + 2, "a" + "b"', 'true ? 1 : 2', '[1][0]', 'nope', '{"a b": 1}', '[true, [false]]', 'w.nope']
CONSTS = {
    'str': [D.s_(''), D.s_('plain'), D.s_('<b>&'), D.s_('\u65e5'), D.s_(b'\xff')],
    'arr': [D.l_([]), D.l_([D.i_(1), D.s_('a'), D.nil_(), D.f_(1.5), D.b_(True)]), D.l_([D.l_([D.i_(1)]), D.m_([('k', D.i_(9))])]), D.l_([D.i_(200, 'uint8'), D.i_(5, 'int32'), D.f_(0.5, 'float32')]), D.l_([D.st_([('Name', True, D.s_('n'))])]), D.l_([D.p_(D.i_(4))]), D.l_([], name='nil'), D.l_([D.bad_('chan')]), D.l_([D.i_(1), D.bad_('func')]), D.l_([D.nil_('ptr')]), D.l_([D.m_([('k', D.bad_('complex64'))])])],
    'int': [D.i_(0), D.i_(-5), D.i_(2**63 - 1), D.i_(-2**63)], 'float': [D.f_(0.0), D.f_(2.0), D.f_(-1.5), D.f_(1e21), D.f_(float('nan'))], 'bool': [D.b_(True), D.b_(False)],
}
TYPES = ['str', 'arr', 'int', 'float', 'bool']


def c20(tier, seed):
    r = rng(seed, 'c20')
    cs = []
    wvals = [d for d in EVERY if d['k'] != 'ptr' or True]
    site = {'page': '{{ s.mine(w) }}|{{ "lit".mine(1) }}', 'layouts/m': '<@reserve("a"){{ "lay".mine() }}>', 'p2': '@use("~m")@insert("a", "ins".mine(2))', 'components/c': '{{ argA.mine() }}@slot', 'p3': '@component("~c", {argA: s})@component("~c", {argA: "k".mine()})\n@slot{{ "slot".mine(w) }}@end\n@end'}
    # what a function receives and what becomes of its result
    for ty in TYPES:
        st = [register(ty, 'mine'), register(ty, 'echo', 'arg')] + ([register(ty, 'list', 'args')] if ty == 'arr' else [])
        calls = []
        for e, d in RECV[ty]:
            for a in CARGS:
                if tier == 'quick' and r.random() < .45 and a:
                    continue
                data = [(b's', d)] if d else [(b's', D.s_('zs'))]
                data.append((b'w', r.choice(EVERY)))
                f = r.choice(['mine', 'mine', 'echo'] + (['list', 'list'] if ty == 'arr' else []))
                calls.append(ev('{{ %s.%s(%s) }}' % (e, f, a), data))
        r.shuffle(calls)
        for i in range(0, len(calls), 25):
            cs.append(case(st + calls[i:i + 25], chk=('has',), note='C20 conversion'))
        # fixed results
        for v in CONSTS[ty]:
            st = [register(ty, 'fix', 'const', v), register(ty, 'show')]
            rv, d = RECV[ty][0]
            use = ['{{ %s.fix() }}' % rv, '{{ x = %s.fix() }}{{ x }}' % rv, '{{ [%s.fix()].len() }}' % rv, '{{ %s.fix().show() }}' % rv, '{{ [%s.fix()] }}' % rv]
            if ty == 'arr':
                use = ['{{ %s.fix().len() }}' % rv, '@each(v in %s.fix()){{ loop.index }}@end' % rv, '{{ %s.fix().show() }}' % rv, '{{ %s.fix()[0] }}' % rv, '{{ %s.fix()[1][0] }}{{ %s.fix()[1] == nil }}' % (rv, rv), '{{ %s.fix()[1].k }}' % rv, '{{ %s.fix()[0].name }}' % rv, '{{ %s.fix()[0].Name }}' % rv, '{{ %s.fix().append(1).len() }}' % rv]
            cs.append(case(st + [ev(u, ()) for u in use] + [ev('{{ s.fix().show() }}', [(b's', RECV[ty][1][1] or D.b_(True))])], note='C20 results'))
    # results of chained calls, names everywhere
    for k in range(by(tier, 60, 900)):
        st, names = [], ['mine', 'f', 'fn_1', 'X', 'isOk', 'len2']
        have = {}
        for ty in TYPES:
            for n in r.sample(names, 2):
                st.append(register(ty, n, r.choice(['show', 'show', 'arg']), tag='%s%s' % (ty, n)))
                have.setdefault(ty, []).append(n)
        g = Gen(rng(seed, 'c20g', k), bad=.03)
        types, data = g.scope(4)
        calls = []
        for _ in range(6):
            g.types = dict(types)
            ty, t = r.choice([('str', STR), ('arr', arr_of(INT)), ('int', INT), ('float', FLOAT), ('bool', BOOL)])
            e = g.wrap(g.expr(t, 2), 6)
            args = ', '.join(g.expr(g.anytype(), 1)[0] for _ in range(r.choice([0, 1, 2])))
            w = r.choice(['{{ %s }}', '{{ zq = %s }}{{ zq }}', '@if(true){{ %s }}@end', '{{ [%s] }}', '@each(q9 in [%s]){{ q9 }}@end'])
            calls.append(ev(w % ('%s.%s(%s)' % (e, r.choice(have[ty] + ['unknown', 'mine']), args)), data))
        cs.append(case(st + calls, chk=('has',), note='C20 random'))
    # registration histories: all short sequences, then calls
    alpha = [(ty, n) for ty in TYPES for n in ('mine', 'other')]
    use = [ev('{{ %s.%s(1) }}' % (e, n), ()) for ty, e in (('str', '"s"'), ('arr', '[1]'), ('int', '5'), ('float', '1.5'), ('bool', 'true')) for n in ('mine', 'other')]
    seqs = list(itertools.product(range(len(alpha)), repeat=2)) + pick(r, list(itertools.product(range(len(alpha)), repeat=3)), by(tier, 120, 1000))
    for q in seqs:
        st = [register(alpha[i][0], alpha[i][1], 'show', tag='r%d' % j) for j, i in enumerate(q)]
        k = r.choice([0, 1, len(st)])
        cs.append(case(st[:k] + pick(r, use, 3) + st[k:] + use, chk=('has',), note='C20 registrations'))
    for k in range(by(tier, 90, 1500)):
        st, loaded = [], False
        for j in range(r.choice([6, 10, 16])):
            x = r.random()
            if x < .45:
                ty = r.choice(TYPES)
                n = r.choice(['mine', 'other', 'len', 'upper', 'join', 'abs', 'then', 'Mine', ''] if r.random() < .8 else BUILTINS)
                if n == '':
                    n = 'z%d' % r.randint(0, 2)
                beh = r.choice(['show', 'show', 'arg', 'const'])
                st.append(register(ty, n, beh, r.choice([c for c in CONSTS[ty] if True]) if beh == 'const' else None, tag='t%d' % j))
            elif x < .55:
                st.append(load('t', '.tw', r.choice(['', '', 'page']), r.random() < .3))
                loaded = sum(1 for s in st if s['op'] == 'load')
            else:
                ty = r.choice(TYPES)
                e, d = r.choice(RECV[ty])
                data = [(b's', d or D.s_('zs')), (b'w', r.choice(EVERY))]
                if loaded and r.random() < .4:
                    st.append(r.choice([render, response])(r.choice(['page', 'p2', 'p3']), [(b's', D.s_('ds')), (b'w', D.i_(1))], set=loaded))
                else:
                    st.append(ev('{{ %s.%s(%s) }}' % (e, r.choice(['mine', 'other', 'len', 'upper', 'abs', 'then', 'join', 'z1', 'Mine']), r.choice(['', '1', 'w', '"a"'])), data))
        cs.append(case(st, fs=files(site), chk=('has',), note='C20 histories'))
    # before and after loading, in every kind of file
    calls = [render(n, dm(s=D.s_('ds'), w=D.i_(4))) for n in ('page', 'p2', 'p3')] + [ev('{{ "a".mine() }}', ()), evalfile('t/page.tw', dm(s=D.s_('q'), w=D.nil_()))]
    reg = register('str', 'mine')
    for st in ([reg, load()] + calls, [load(), reg] + calls, [load()] + calls + [reg] + calls, [reg, load(), dict(reg, tag=b'second')] + calls, [load(), reg, load('t', '.tw')] + calls, [reg, dict(reg, tag=b'second'), load()] + calls, [load(), reg, dict(reg, ty='arr'), dict(reg, tag=b'x')] + calls):
        cs.append(case(st, fs=files(site), chk=('has',), note='C20 loads'))
    # unknown names
    for e, t in (('"s"', 'str'), ('[1]', 'arr'), ('5', 'int'), ('1.5', 'float'), ('true', 'bool'), ('nil', 'nil'), ('{a: 1}', 'obj')):
        for n in ('unknown', 'Len', 'mine', 'toString', 'x1', 'upper2'):
            cs.append(case([register(ty, 'mine') for ty in TYPES if ty != t] + [ev('{{ %s.%s(%s) }}' % (e, n, a), ()) for a in ('', '1', '"<z>"')], chk=('has',), note='C20 unknown'))
    return cs
