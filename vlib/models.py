"""Bounded models of the specification.  TLC checks the laws of a model in
every state and prints the states; the states are executed with the code."""
import json, os, random, re
from . import data as D, trees as T
from .run import ToolError, case, evalstr, files_tla, step_tla


def enc(s):
    return s if isinstance(s, bytes) else s.encode('utf-8')


def explore(work, module, params, timeout=800, cfg=None):
    """the states that TLC printed, as text, and what it counted"""
    f = os.path.join(work.dir, work.name('params') + '.json')
    with open(f, 'w') as h:
        json.dump(params, h, separators=(',', ':'))
    before = dict(work.stats)
    try:
        out = work.tlc(module, cfg, env={'PARAMS': f}, stack='64m', timeout=timeout)
    finally:
        os.unlink(f)
    got = sorted(set(re.findall(r'^"<<"[GS]", .*>>"$', out, re.M)))
    n = work.stats['states'] - before['states']
    if len(got) != n:
        raise ToolError('%s: %d states but %d printed\n%s' % (module, n, len(got), out[-2000:]))
    return [g[8:-3] for g in got if g[4] == 'G'], {'module': module, 'states': n, 'transitions': work.stats['transitions'] - before['transitions']}


def numbers(text):
    return [int(x) for x in re.findall(r'\d+', text)]


def role(p):
    for w in ('@elseif', '@else', '@end'):
        if p.startswith(w):
            return w[1:]
    if p.startswith('@insert(') and ', ' not in p:
        return 'insert'
    if p.startswith('@component(') and '@slot' in p:
        return 'comp'
    if p.startswith('@slot'):
        return 'slot'
    if p.startswith('@if(') and p.endswith(')'):
        return 'if'
    if p.startswith(('@each(', '@for(')) and p.endswith(')'):
        return 'loop'
    if p.startswith(('@break', '@continue')) or 'loop.' in p:
        return 'inloop'
    return 'any'


def templates(work, before=b'', pieces=(), after=b'', max=3, data=(), prune=False, deep=4, blocks=True):
    """the source of every state of module Templates, those that are complete first"""
    ps = [enc(p) for p in pieces]
    got, info = explore(work, 'Templates', {
        'before': list(enc(before)), 'after': list(enc(after)), 'pieces': [list(p) for p in ps], 'max': max,
        'roles': [role(p) if blocks else 'any' for p in pieces],
        'data': D.tla_map(data), 'prune': prune, 'deep': deep})
    out = ([], [])
    for g in got:
        alive, opened, *ks = numbers(g)
        out[1 - alive].append(enc(before) + b''.join(ps[k - 1].replace(b'\x01', b'%d' % i) for i, k in enumerate(ks, 1)) + b'@end' * opened + enc(after))
    return out[0], out[1], info


# ---------------------------------------------------------------------------
# what somebody writes piece by piece, per property

def by(tier, quick, thorough):
    return quick if tier == 'quick' else thorough


def dm(**kw):
    return [(k.encode(), v) for k, v in kw.items()]


NUMS = dm(a=D.i_(7), b=D.i_(2), f=D.f_(2.5), s=D.s_('q'), t=D.b_(True), n=D.nil_(), l=D.l_([D.i_(4), D.i_(6)]), o=D.m_([('n', D.i_(9)), ('l', D.l_([D.i_(1)]))]))
IFS = dm(t=D.i_(1), f=D.s_(''))
LEX = ['{{', '}}', '@if(', '@each(', '@for(', '@end', '@else', '@slot', '@component(', '@insert(', '(', ')', '[', ']', '{', '}', '"a"', "'", '"', '1', '1.5', 'x', ',', ';', ':', '?', '+', '-', '!', '.', '=', '<', '@', '\\', '#', '\n', '{{--', '--}}', 'in ', 'nil', ' ']
RAW = dict(blocks=False)
BARE = dict(blocks=False, deep=-1)
EXPR = dict(before='{{ ', after='}}', prune=True, blocks=False, deep=-1)
WHAT = {
    'C01': [dict(EXPR, pieces=['a ', '2 ', '- ', '* ', '== ', '< ', '? ', ': ', '( ', ') ', '++ ', '! '], max=(5, 7), data=NUMS),
            dict(EXPR, pieces=['o', 'l', '.n', '.l', '[0]', '.len()', '-', '++', '+ 1'], max=(5, 6), data=NUMS),
            dict(EXPR, pieces=['f ', '"s" ', 's ', 't ', '+ ', '/ ', '% ', '!= ', '>= ', '-- ', '1'], max=(4, 5), data=NUMS)],
    'C02': [dict(pieces=['@if(t)', '@if(f)', '@elseif(t)', '@elseif(f)', '@else', '@end', '<\x01>', '{{ 1 / 0 }}', '@elseif(1 / 0)'], max=(5, 7), data=IFS),
            dict(pieces=['@if([])', '@if(nil)', '@elseif(0.0)', '@else', '@end', '<\x01>', '{{ f ? 1 : 2 }}', '@each(v in [1, 2])', '@if(v == 2)'], max=(5, 6), data=IFS)],
    'C03': [dict(pieces=['@each(v in [1, 2, 3])', '@each(v in [])', '@for(i = 0; i < 2; i++)', '@else', '@end', '@break', '@continueIf(v == 2)', '{{ v }}', '{{ loop.iter }}', '<\x01>'], max=(5, 6), data=dm(v=D.i_(2))),
            dict(before='@each(w in ["a", "b", "c"])', pieces=['@each(v in [1, 2])', '@if(loop.first)', '@continue', '@breakIf(loop.last)', '@breakIf(w == "b")', '@else', '@end', '{{ loop.index }}', '<\x01>'], after='<e>@end', max=(4, 6))],
    'C04': [dict(pieces=['{{ a = 1 }}', '{{ a = "s" }}', '{{ b = a }}', '{{ a }}', '{{ b }}', '@if(true)', '@each(a in [5, 6])', '@for(b = 0; b < 2; b++)', '@end', '@else'], max=(4, 6)),
            dict(pieces=['{{ a = 1 }}', '{{ a = a + 1; a }}', '{{ loop = 1 }}', '{{ a }},', '@if(a == 4)', '@each(b in [1, 2])', '@each(c in [])', '@end', '@else', '{{ b = a }}{{ b }}'], max=(4, 6), data=dm(a=D.i_(4)))],
    'C05': [dict(RAW, pieces=['@', '\\', '{', '}', '--', 'if', '(1)', '\n', '\u00e9'], max=(4, 5)),
            dict(RAW, pieces=['{{--', '--}}', '\\{{', '{{ 1 }}', '@else', '\\@', 'el', 'se', '}}', '@end'], max=(4, 5)),
            dict(RAW, before='@if(1)', after='@end', pieces=['\\', '{{', '@break', '@breakI', 'f(', ' ', '{{-- @end --}}', '@@', '\x80'], max=(4, 5))],
    'C08': [dict(BARE, pieces=LEX, max=(2, 3), op='parse'),
            dict(BARE, before='{{ ', pieces=LEX, max=(2, 3), op='parse'),
            dict(BARE, before='@component("c", ', pieces=['{', '}', 'a', ':', ',', ')', '@slot', '("s")', '@end', ' ', 'x', '"'], max=(4, 5), op='parse'),
            dict(BARE, pieces=['@if(', '@for(', '@each(', 'x', ')', ';', ' in ', '@end', '@else', '1'], max=(4, 6), op='parse')],
    'C10': [dict(RAW, before='{{ "', after='" }}', pieces=['<', '>', '&', 'lt;', '#', '39;', "'", '\\"', '\u00e9', 'amp', '\\'], max=(3, 5))],
    'C13': [dict(pieces=['\n', '\r\n', 'a\n', '{{ "x\ny" }}', '{{ 1\n}}', '{{-- \n --}}', '{{ nope }}', '{{\n1 +\n"a"\n}}', '@if(1\n)', '@end', '{{\n#'], max=(4, 5)),
            dict(before='\n@each(v in [1])\n', pieces=['\n', '\\@if(\n', '@if(v)', '\n@else\n', '@end', '{{ v.\nx }}', '{{ [1,\n2][v /\n0] }}', '{{ v.foo(\n) }}', '{{ a = "\n" }}', '{{ a = 1 }}'], max=(4, 5), after='@end')],
    'C19': [dict(BARE, pieces=LEX, max=(2, 3), op='lex'),
            dict(BARE, pieces=['{{', '}}', 'a', '"', '\n', '\\', '@if(', ')', ' ', '\u00e9'], max=(4, 5), op='lex'),
            dict(BARE, before='{{ ', pieces=['"', "'", '\\', '\n', '1', '.', '--', '}}', '=', 'x'], max=(4, 5), op='lex')],
}
LAYOUTS = {'layouts/a': '<h>@reserve("x")</h>@if(t)@reserve("y")@else no@end', 'layouts/b': '@each(i in [1, 2])@reserve("x"){{ i }}@end{{ n = 4 }}@reserve("y"){{ t }}',
           'layouts/c': '@reserve( "X" )@reserve("")@if(false)@reserve("x")@end-@reserve("y")@use("~a")', 'layouts/d': 'none', 'layouts/e': '{{ nope }}@reserve("x")@reserve("y")'}
COMPS = {'components/c': '[{{ a }}@slot|@slot("s")|{{ t }}]', 'components/d': '@each(i in [1, 2])@slot("s"){{ i }}@end@if(t){{ t = 5; t }}@slot@end', 'components/e': '<e>'}


def sites(*ds):
    return [[dict(p=list(b't/' + enc(n) + b'.tw'), c=list(enc(c)), kind='file') for n, c in d.items()] for d in ds]


def use(lay):
    return {'layouts/l': LAYOUTS['layouts/' + lay]}


ALL = dict(LAYOUTS, **COMPS)
SITES = {
    'C06': [dict(before='@use("~l")', sites=[use(x) for x in 'abde'], pieces=['@insert("x")', '@insert("y")', '@insert("x", t)', '@insert("y", "q")', '@insert("z")', 'text', '{{ t }}', '@if(t)', '@end', '@else'], max=(4, 5), data=IFS),
            dict(sites=[dict(LAYOUTS, **{'other/page': 'x'})], pieces=['@use("~a")', '@use("layouts/b")', '@use("~c")', '@use("~no")', '@use("a")', '@insert("x")', '@insert("", 1)', '@end', 'T'], max=(3, 4), data=IFS)],
    'C07': [dict(sites=[dict(COMPS, **{'other/p': '@component("~c")'})], pieces=['@component("~c", {a: t})', '@component("~c", {a: 1})@slot("s")', '@component("~d")@slot', '@slot("s")', '@slot', '@each(t in [2, 3])', '@end', '{{ t }}', '@component("~e")', 'T'], max=(4, 5), data=IFS),
            dict(before='{{ a = 0 }}', sites=[COMPS], pieces=['@component("components/c", {a, t: 7})', '@component("~d", {t: a + 1})@slot("s")', '@slot ', '@if(a == 0)', '@else', '{{ a = a + 1 }}', '@end', '{{ a }}', '{{ nope }}'], max=(4, 5), data=IFS),
            dict(before='@use("~b")@insert("x")', after='@end@insert("y")@component("~c", {a: n})@end', sites=[ALL], pieces=['@component("~c", {a: t})', '@component("~d", {t: 2})@slot("s")', '@slot', '@end', '{{ t }}', '@each(t in [2, 3])', 'T'], max=(3, 4), data=IFS + dm(n=D.i_(9)))],
    'C09': [dict(deep=-1, sites=[{'layouts/l': '@use("~l")@reserve("x")@component("~c")', 'components/c': '@slot@component("~c")@slot@slot@end@end'},
                        {'layouts/l': '@reserve("x")@reserve("x")@insert("x")@reserve("x")@end@slot', 'components/c': '@reserve("x")@slot("s")@use("~l")@insert("x", 1)@component("page")'},
                        {'layouts/l': '@each(v in [1, 2])@reserve("x")@slot@break@end', 'components/c': '@slot("s")@continue@end@each(v in [1, 2])@slot("s")@slot{{ 1 / 0 }}@end'}],
                 pieces=['@use("~l")', '@use("page")', '@insert("x")', '@insert("x", 1 / 0)', '@component("~c")', '@component("~c")@slot("s")', '@slot', '@reserve("x")', '@slot ', '@component("page")', '@each(v in [1, 2])', '@break', '@end'], max=(3, 4), data=IFS)],
}
CHK = {'C06': ('paths', 'has', 'lines'), 'C07': ('paths', 'has', 'lines'), 'C13': ('lines',), 'C09': ('lines',)}


def ambiguous(s):
    """whether {{--}} and {{---}} are comments is not specified"""
    return b'{{--}}' in s or b'{{---}}' in s


def written(work, pid, tier, r):
    for w in WHAT.get(pid, []):
        w = dict(w, max=by(tier, *w['max']))
        op, data = w.pop('op', 'evalstr'), w.get('data', [])
        alive, dead, info = templates(work, **w)
        few = max(len(alive) // 2, by(tier, 800, 20000))
        srcs = alive + (dead if len(dead) <= few else r.sample(dead, few))
        steps = []
        for s in srcs:
            if ambiguous(s):
                continue
            if op == 'lex':
                steps += [{'op': 'lex', 'src': s}, {'op': 'contains', 'src': s}]
            else:
                steps.append({'op': 'parse', 'src': s} if op == 'parse' else evalstr(s, data))
        n = 24 if op != 'evalstr' else 16
        info['pieces'] = [enc(p).decode('utf-8', 'backslashreplace') for p in w['pieces']]
        info['longest'] = w['max']
        yield [case(steps[i:i + n], chk=CHK.get(pid, ()), note='Templates') for i in range(0, len(steps), n)], info


def pages(work, pid, tier, r):
    """the pages of module Sites"""
    for w in SITES.get(pid, []):
        w = dict(w, max=by(tier, *w['max']))
        ps = [enc(p) for p in w['pieces']]
        before, after, data = enc(w.get('before', '')), enc(w.get('after', '')), w['data']
        got, info = explore(work, 'Sites', {
            'before': list(before), 'after': list(after), 'pieces': [list(p) for p in ps], 'max': w['max'], 'roles': [role(p) for p in w['pieces']],
            'data': D.tla_map(data), 'prune': False, 'deep': w.get('deep', 0), 'sites': sites(*w['sites'])})
        cases = []
        for g in got:
            alive, opened, site, *ks = numbers(g)
            page = before + b''.join(ps[k - 1] for k in ks) + b'@end' * opened + after
            fs = T.files(dict(w['sites'][site - 1], page=page))
            cases.append(case([T.load(), T.render('page', data)], fs=fs, chk=CHK.get(pid, ()), note='Sites'))
        info.update(pieces=w['pieces'], longest=w['max'], directories=len(w['sites']))
        most = by(tier, 4000, 60000)
        yield cases if len(cases) <= most else r.sample(cases, most), info


EVERYONE = ['ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'EQ', 'NE', 'LT', 'GT', 'LE', 'GE']
TREES = {
    'C01': [dict(leaves=['7', '2', '0'], bins=EVERYONE, others=['tern'], pushes=(3, 3), ones=(0, 1)),
            dict(leaves=['a', '3'], bins=['SUB', 'MUL', 'LT', 'EQ'], others=['tern', 'neg', 'not', 'inc', 'dec', 'call'], pushes=(2, 3), ones=(2, 2)),
            dict(leaves=['l', 'o', '1'], bins=['ADD', 'MOD'], others=['index', 'dot', 'neg', 'inc', 'call'], pushes=(2, 3), ones=(2, 2)),
            dict(leaves=['2.5', 'f'], bins=['ADD', 'SUB', 'DIV', 'GE', 'NE'], others=['tern', 'neg', 'dec'], pushes=(3, 3), ones=(0, 1)),
            dict(leaves=['"x"', 's', 'true'], bins=['ADD', 'EQ', 'NE', 'LT'], others=['not'], pushes=(3, 3), ones=(0, 1)),
            dict(leaves=['9', '4'], bins=['SUB', 'DIV', 'MOD', 'MUL'], others=[], pushes=(4, 5), ones=(0, 0))],
}


def grown(work, pid, tier):
    """the texts of module Expressions"""
    for w in TREES.get(pid, []):
        w = dict(w, pushes=by(tier, *w['pushes']), ones=by(tier, *w['ones']))
        got, info = explore(work, 'Expressions', dict(w, leaves=[list(enc(x)) for x in w['leaves']], data=D.tla_map(NUMS)))
        steps = [evalstr(b'{{ ' + bytes(numbers(g.split('>>')[0])) + b' }}', NUMS) for g in got]
        info.update(w)
        yield [case(steps[i:i + 24], note='Expressions') for i in range(0, len(steps), 24)], info


XD = dm(x=D.i_(7), s=D.s_('q<'), l=D.l_([D.i_(1), D.i_(2)]))
XE = dm(x=D.i_(-1), s=D.s_(''), l=D.l_([]))
HOUSE = {'layouts/m': '<m>MARK layout @reserve("b")|{{ x }}</m>', 'components/c': '<c>{{ a }}@slot|@slot("s")</c>',
         'good': '@use("~m")@insert("b")MARK@component("~c", {a: x})@slot{{ s }}@end@end@component("~c", {a: 2})@end', 'plain': 'MARK {{ x }}{{ l.reverse() }}@each(v in l){{ v }}@end{{ x = x + 1; x }}',
         'fails': 'MARK page\n{{ x }}{{ 1 / 0 }}', 'inner': '@use("~m")@insert("b")\n\nMARK{{ nope }}@end',
         'error': 'CUSTOM {{ 1 + 1 }}', 'badpage': 'half {{ nope }}', 'funcs': '{{ "lit".f() }}{{ s.f(x, l) }}|{{ x.f() }}'}


def ev(src, data=()):
    return evalstr(enc(src), list(data))


R, A = T.render, T.response
HISTORIES = {
    # tour: every state of the library once; then every call that does not change it is made in it
    'C14': [dict(fs=HOUSE, first=[T.register('str', 'f'), T.load()], repeat=2, max=(2, 3),
                 calls=[R('good', XD), R('fails', XD), A('inner', XE), R('funcs', XD), ev('{{ {b: nope, a: 1 / 0, c: zz.a} }}', XD), ev('@dump({b: 1, a: l, c: {z: x, y: s}})', XD), R('nowhere', XD), A('good', dm(a=D.bad_('chan'), b=D.bad_('func')))])],
    'C15': [dict(fs=HOUSE, first=[T.register('str', 'f'), T.load('t', '.tw', e, d)], par=True, race=True, max=(2, 3), calls=[R('good', XD), A('good', XE), R('fails', XD), A('fails', XE), A('inner', XD), R('funcs', XD), A('nowhere', XD), ev('{{ x }}@each(v in l){{ v }}@end{{ s.f() }}', XD), ev('{{ nope }}', XE), T.evalfile('t/plain.tw', XD)])
            for e, d in (('', False), ('error', False), ('', True), ('badpage', False))],
    'C16': [dict(fs=HOUSE, first=[T.load('t', '.tw', e, d)], max=m, calls=[R('good', XD), R('plain', XD), A('fails', XD), R('inner', XE), A('nowhere', XD), A('plain', XE), ev('{{ nope }}', XD), T.evalfile('t/plain.tw', XD)])
            for e, d, m in (('', False, (3, 4)), ('error', False, (2, 3)), ('badpage', False, (2, 3)), ('error', True, (2, 3)))]
           + [dict(fs=HOUSE, tour=True, first=[], max=(3, 4), calls=[T.load(), T.load('t', '.tw', 'error'), T.load('t', '.tw', '', True), T.load('u', '.tw'), T.register('str', 'f'), R('good', XD, set=1), A('fails', XD, set=1), R('plain', XE, set=2), A('inner', XD, set=2), R('funcs', XD, set=1), ev('{{ s.f() }}', XD)])],
    'C17': [dict(fs=HOUSE, tour=True, first=[], max=(2, 3), calls=[T.load('t', '.tw', e, d) for e in ('', 'error', 'badpage', 'nopage') for d in (False, True)] + [A('good', XD, set=1), A('fails', XD, set=1), A('inner', XD, set=2), A('nowhere', XD, set=1), A('fails', XE, set=2), A('fails', XE, set=3), A('plain', XE, set=3)])],
    'C18': [dict(fs=HOUSE, tour=True, first=[], max=(3, 4), calls=[T.load('t', '.tw'), T.load('t/', ''), T.load('./u', '.tw'), T.load('', '.html'), T.write([(b't/plain.tw', b'@if(', 'file')]), T.write([(b't/plain.tw', b'new {{ x }}', 'file')]), T.write([(b't/components/c.tw', b'', 'gone')]), T.write([(b'u/plain.tw', b'in u', 'file')]), T.write([(b't/plain.html', b'html', 'file')]),
                                                                  R('plain', XD, set=1), R('plain', XD, set=2), R('good', XD, set=1), R('good', XD, set=3), R('plain', XD, set=3), T.evalfile('t/plain.tw', XD), R('layouts/m', XD, set=1)])],
    'C20': [dict(fs=HOUSE, tour=True, first=[], max=(4, 6), calls=[T.register('str', 'f', tag='one'), T.register('str', 'f', 'const', D.s_('two'), tag='two'), T.register('int', 'f', 'arg'), T.register('arr', 'f', 'args'), T.register('int', 'abs'), T.load(), T.load('u'),
                                                                  ev('{{ s.f(1, "a") }}{{ "lit".f() }}', XD), ev('{{ x.f() }}|{{ x.abs() }}', XD), ev('{{ l.f(s, x) }}', XD), ev('{{ 1.5.f() }}', XD), R('funcs', XD, set=1), R('funcs', XD, set=2), ev('{{ f() }}')])],
}
OPS = ('load', 'register', 'write')


def called(work, pid, tier, r):
    """the histories of module Histories"""
    for w in HISTORIES.get(pid, []):
        fs = T.files(w['fs']) + [(b'u/page.tw', b'a page of u', 'file')]
        calls, first, most = w['calls'], w['first'], by(tier, *w['max'])
        got, info = explore(work, 'Histories', {'fs': files_tla([dict(p=p, c=c, kind=k) for p, c, k in fs]), 'first': [step_tla(s) for s in first], 'calls': [step_tla(s) for s in calls], 'max': most, 'deep': most if w.get('tour') else 1},
                            cfg='Tours.cfg' if w.get('tour') else None)
        hs = [[k - 1 for k in numbers(g)] for g in got]
        info.update(histories='one for every state of the library' if w.get('tour') else 'all', longest=most, calls=len(calls))
        cases = []
        chk = CHK.get(pid, ('lines', 'paths', 'has'))
        if w.get('tour'):
            for h in hs:
                steps = first + [calls[k] for k in h]
                sets = sum(s['op'] == 'load' for s in steps)
                rest = [s for s in calls if s['op'] not in OPS and s.get('set', 1 if 'set' in s else 0) <= sets]
                again = list(rest)
                r.shuffle(again)
                cases.append(case(steps + again + rest, fs=fs, chk=chk, note='Histories'))
        elif w.get('par'):
            for h in hs:
                if len(h) > 1 and h == sorted(h):
                    cs = [calls[k] for k in h]
                    cases.append(case(first + [{'op': 'par', 'calls': cs, 'go': 3, 'rounds': by(tier, 8, 30)}] + cs, fs=fs, note='Histories'))
            few = by(tier, 30, 100000)
            cases = cases if len(cases) <= few else r.sample(cases, few)
        else:
            for h in hs:
                if len(h) == most:
                    cases.append(case(first + [calls[k] for k in h], fs=fs, chk=chk, note='Histories'))
        few = by(tier, 3000, 40000)
        yield cases if len(cases) <= few else r.sample(cases, few), info, {k: w[k] for k in ('race', 'repeat') if w.get(k)}


STRF = ['len', 'split', 'raw', 'trim', 'trimRight', 'trimLeft', 'upper', 'lower', 'capitalize', 'reverse', 'contains', 'truncate', 'decimal', 'at', 'first', 'last', 'repeat']
ARRF = ['len', 'join', 'rand', 'reverse', 'slice', 'shuffle', 'contains', 'append', 'prepend']
ARITY = dict(split=1, trim=1, trimLeft=1, trimRight=1, contains=1, truncate=2, decimal=2, at=1, repeat=1, join=1, slice=2, append=9, prepend=9, then=2)
NUMF = ['float', 'abs', 'str', 'len', 'decimal', 'int', 'ceil', 'floor', 'round', 'binary', 'then']


def named(prefix, vs):
    return [(b'%s%d' % (prefix.encode(), i), v) for i, v in enumerate(vs)]


STRINGS = named('s', [D.s_(x) for x in ['', 'a', 'Ab cA', ' x\t', 'aXbXc', '\u00e9\u00c9a', '\u65e5\u672c', '12', '-7', '1.5', '\U0001f600', 'x' * 9]])
SHORTS = named('t', [D.s_(x) for x in ['', 'X', 'a', ' ', '\u00e9', 'Ab']])
NUMBERS = named('n', [D.i_(x) for x in [0, 1, -1, 3, 2 ** 63 - 1]])
LISTS = named('l', [D.l_(x) for x in [[], [D.i_(1)], [D.i_(2), D.i_(1), D.i_(2)], [D.s_('a'), D.s_('')], [D.nil_(), D.b_(True), D.f_(1.0)], [D.l_([D.i_(1)]), D.l_([])], [D.i_(k) for k in range(6)], [D.m_([('a', D.i_(1))])]]])
OTHERS = named('o', [D.nil_(), D.b_(True), D.b_(False), D.f_(2.5), D.m_([('a', D.i_(1))])])
INTS = named('i', [D.i_(x) for x in [0, 7, -7, 10, -99, 12345678, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63]])
FLOATS = named('f', [D.f_(x) for x in [0.0, -0.0, 0.5, -0.5, 1.5, 2.5, -2.5, 0.49999999999999994, 99.99, -1e15 - 0.5, 4503599627370497.5, 9.2e18, 1e300, 5e-324, float('inf'), float('nan'), 0.1, -3.0]])


def names(vs):
    return [n.decode() for n, _ in vs]


def one(vs):
    return [[n] for n in names(vs)]


CHAINS = {
    'C11': [dict(data=STRINGS + SHORTS + NUMBERS + OTHERS, receivers=names(STRINGS), names=STRF, arguments=[[]] + one(SHORTS + NUMBERS + OTHERS) + [['t1', 'n1'], ['n1', 't1'], ['n3', 't0'], ['n1', 'n3'], ['t0', 't1'], ['t1', 'n3']], max=(1, 2), few=(4000, 40000)),
            dict(data=LISTS + NUMBERS + OTHERS + SHORTS[:3], receivers=names(LISTS), names=ARRF, arguments=[[]] + one(NUMBERS + OTHERS + SHORTS[:3] + LISTS) + [['n0', 'n1'], ['n1', 'n3'], ['n3', 'n1'], ['n2', 'n2'], ['t1', 'n1'], ['n1', 't1'], ['l1', 'l0']], max=(1, 2), few=(4000, 40000)),
            dict(data=INTS + FLOATS + OTHERS + NUMBERS[:4] + SHORTS[:2], receivers=names(INTS + FLOATS + OTHERS), names=NUMF + ['mine', 'upper', 'join'], arguments=[[]] + one(OTHERS + NUMBERS[:4] + SHORTS[:2]) + [['t1', 'n1'], ['n1', 't1'], ['t0', 'n0'], ['o0', 'o1']], max=(1, 2), few=(4000, 40000)),
            dict(data=STRINGS[2:7] + SHORTS[:3] + NUMBERS[:3], receivers=names(STRINGS[2:7]), names=['split', 'reverse', 'join', 'slice', 'at', 'upper', 'trim', 'append', 'len', 'str', 'first'], arguments=[[], ['t0'], ['t2'], ['n1']], max=(2, 3), few=(4000, 40000)),
            dict(data=INTS[:4] + FLOATS[3:7] + NUMBERS[:2] + SHORTS[1:2] + OTHERS[1:2], receivers=names(INTS[:4] + FLOATS[3:7] + OTHERS[1:2]), names=NUMF + ['at', 'repeat'], arguments=[[], ['n1'], ['t1', 'n1']], max=(2, 3), few=(4000, 40000))],
}


def chained(work, pid, tier, r):
    """the chains of calls of module Chains"""
    for w in CHAINS.get(pid, []):
        most, args, data = by(tier, *w['max']), w['arguments'], w['data']
        got, info = explore(work, 'Chains', {'data': D.tla_map(data), 'receivers': [list(enc(x)) for x in w['receivers']], 'names': [list(enc(x)) for x in w['names']],
                                             'arguments': [[list(enc(x)) for x in a] for a in args], 'arity': [ARITY.get(f, 0) for f in w['names']], 'max': most})
        steps = []
        for g in got:
            st, *cs = numbers(g)
            text = w['receivers'][st - 1] + ''.join('.%s(%s)' % (w['names'][f - 1], ', '.join(args[k - 1])) for f, k in zip(cs[::2], cs[1::2]))
            used = set(re.findall(r'\w+', text))
            steps.append(evalstr(enc('{{ %s }}' % text), [(n, v) for n, v in data if n.decode() in used]))
        few = by(tier, *w['few'])
        steps = steps if len(steps) <= few else r.sample(steps, few)
        info.update(names=w['names'], receivers=len(w['receivers']), arguments=len(args), longest=most)
        yield [case(steps[i:i + 24], note='Chains') for i in range(0, len(steps), 24)], info


LITERALS = {
    'C10': [dict(pieces=['<', '>', '&', "'", ('\\"', '"'), ';', 'a', 'lt', 'amp', '#34', '#38', '&lt;', '&amp;', '\\n', '\u00e9', '&#34;', '&#39;', ' '], max=(3, 4), few=(4000, 60000)),
            dict(pieces=['&', '#34;', 'lt;', 'amp;', ('\\"', '"')], max=(5, 6), few=(3000, 30000))],
}


def literals(work, pid, tier, r):
    """the literals of module Literals"""
    from .cases3 import STRSHAPES
    for w in LITERALS.get(pid, []):
        most, pieces = by(tier, *w['max']), [x if isinstance(x, tuple) else (x, x) for x in w['pieces']]
        got, info = explore(work, 'Literals', {'pieces': [{'t': list(enc(t)), 'v': list(enc(v))} for t, v in pieces], 'max': most})
        steps = []
        for g in got:
            q = '"%s"' % ''.join(pieces[k - 1][0] for k in numbers(g))
            steps += [ev('{{ %s }}|{{ %s.raw() }}' % (q, q)), ev(r.choice(STRSHAPES).replace('%s', q), dm(u=D.s_('<u>&"')))]
        few = by(tier, *w['few'])
        steps = steps if len(steps) <= few else r.sample(steps, few)
        info.update(pieces=len(pieces), longest=most)
        yield [case(steps[i:i + 24], note='Literals') for i in range(0, len(steps), 24)], info


LEAVES = {
    'C12': [dict(leaves=[D.i_(5), D.i_(200, 'uint8'), D.i_(-3, 'int16'), D.i_(2 ** 63 - 1, 'uint64'), D.f_(1.5, 'float32'), D.f_(-0.0), D.s_('h<\u00e9'), D.s_('', 'MyStr'), D.b_(True), D.b_(False, 'MyBool'), D.nil_(), D.nil_('structptr'), D.nil_('ptrptr'), D.l_([], name='nil'), D.m_([], name='nil'), D.st_([]), D.bad_('chan'), D.bad_('nilfunc'), D.bad_('intmap'), D.bad_('cycle'), D.bad_('array0')], max=(3, 4)),
            dict(leaves=[D.i_(-9, 'int8'), D.s_('q'), D.nil_('ptr'), D.bad_('func'), D.l_([D.i_(1), D.i_(2)], typed=True)], max=(4, 5))],
}


def built(work, pid, tier, r):
    """the data of module GoData"""
    for w in LEAVES.get(pid, []):
        leaves, most = w['leaves'], by(tier, *w['max'])
        got, info = explore(work, 'GoData', {'leaves': [D.tla(x) for x in leaves], 'max': most})
        steps = []
        for g in got:
            st = []
            for k in numbers(g):
                if k < 100:
                    st.append(leaves[k - 1])
                elif k < 200:
                    x = st.pop()
                    st.append([lambda: D.p_(x), lambda: D.l_([x], typed=r.random() < .3), lambda: D.m_([('a', x)], typed=r.random() < .3), lambda: D.st_([('Name', True, x)]), lambda: D.st_([('name', False, x)])][k - 101]())
                else:
                    y, x = st.pop(), st.pop()
                    st.append([lambda: D.l_([x, y]), lambda: D.m_([('b', x), ('Ab', y)]), lambda: D.st_([('B', True, x), ('AB', True, y)]), lambda: D.st_([('name', False, x), ('Name', True, y)])][k - 201]())
            d = st[0]
            data = dm(v=d)
            steps += [ev('{{ v }}', data), ev('@if(v)t@else f@end{{ [v].len() }}', data)]
            for t in reached(d, 'v', 2):
                steps.append(ev('{{ %s }}' % t, data))
            steps += [ev('@each(e in v){{ e }}.@end', data), ev('{{ v.%s }}' % r.choice(['len()', 'Name', 'name', 'zzz', 'b.a', 'aB', 'ab', 'NAME', 'str()', 'B']), data)]
        few = by(tier, 7000, 80000)
        info.update(longest=most, leaves=len(leaves))
        steps = steps if len(steps) <= few else r.sample(steps, few)
        yield [case(steps[i:i + 24], note='GoData') for i in range(0, len(steps), 24)], info


def reached(d, x, depth):
    """expressions that reach the parts of d"""
    if depth == 0:
        return []
    if d['k'] == 'ptr':
        return reached(d['x'], x, depth)
    kids = []
    if d['k'] == 'slice':
        kids = [('%s[%d]' % (x, i), e) for i, e in enumerate(d['x'])]
    elif d['k'] == 'map':
        kids = [('%s.%s' % (x, n.decode()), e) for n, e in d['x']]
    elif d['k'] == 'struct':
        kids = [('%s.%s' % (x, m), e) for n, _, e in d['x'] for m in (n, n[0].lower() + n[1:])]
    return [t for t, e in kids] + [t for y, e in kids for t in reached(e, y, depth - 1)]


def designs(work, pid, tier, seed):
    r = random.Random('%d models %s' % (seed, pid))
    for more in (pages(work, pid, tier, r), grown(work, pid, tier), written(work, pid, tier, r), chained(work, pid, tier, r), literals(work, pid, tier, r), built(work, pid, tier, r), called(work, pid, tier, r)):
        for m in more:
            yield m if len(m) == 3 else (*m, {})
