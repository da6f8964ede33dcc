"""Checks that decide a property by validating parses against SvgDoc."""
import base64, json, os, random, re
import core, gen, svgtext, alpha, paths

EMPTY = dict(vb=[0, 0, 0, 0], titles=[], descs=[], paths=[], masks=[], t=[], w='', h='')
MODES = ['ignore', 'warn', 'strict']
CRASH = {'panic', 'hang'}


def obs_of(o):
    return dict(out=o['out'], err=o.get('err', False), nil=o.get('nil', True), logs=o.get('logs', 0), doc=o.get('doc') or EMPTY)


class Case:
    __slots__ = ('ev', 'src', 'mode', 'tag', 'enc')

    def __init__(self, ev, src, mode, tag, enc=''):
        self.ev, self.src, self.mode, self.tag, self.enc = ev, src, mode, tag, enc

    def req(self, i):
        d = dict(src=self.src) if not self.enc else dict(b64=base64.b64encode(self.src.encode(self.enc)).decode())
        return dict(d, op='parse', id=i, mode=self.mode)


def validate(run, cases, aspects, module='JudgeDoc'):
    """parses every case with the real code and validates the observation"""
    exe = run.exe()
    obs = core.observe(exe, [c.req(i) for i, c in enumerate(cases)])
    js = [dict(id=i, mode=MODES[c.mode], ev=svgtext.spec(c.ev), obs=obs_of(o)) for i, (c, o) in enumerate(zip(cases, obs)) if o]
    res, st, tr = core.judge(module, js)
    run.add(st, tr, len(js))
    bad = []
    for i, c in enumerate(cases):
        if i not in res:
            run.skipped += 1
            continue
        found = set(filter(None, res[i][0].split(',')))
        if 'witness' in found:
            run.skipped += 1
            continue
        run.drawn += int(res[i][1])
        if found & (aspects | CRASH):
            bad.append((len(c.src), i, found))
    run.sample(cases[0].src[:600] if cases else '')
    for _, i, found in sorted(bad)[:3]:
        o = obs[i]
        run.violation('%s: observation disagrees with the specification in %s (mode %s, first path %s)%s' % (
            cases[i].tag, ','.join(sorted(found)), MODES[cases[i].mode], res[i][4], ' ' + str(o.get('panic', ''))[:200] if o['out'] == 'panic' else ''),
            dict(kind='doc', src=cases[i].src, enc=cases[i].enc, mode=cases[i].mode, ev=cases[i].ev, aspects=sorted(found), obs=obs_of(o), panic=o.get('panic'),
                 where=o.get('where')))
    run.count += len(bad)


def random_docs(run, n, tag, modes=(0, 1, 2), **profile):
    out = []
    base = core.SEED * 1000003 + abs(hash_(tag)) % 100000 * 7919
    for i in range(n):
        ev = gen.document(base + i, **profile)
        out.append(Case(ev, svgtext.render(ev, random.Random(base + i)), modes[i % len(modes)], tag))
    return out


# labels, the codec they stand for, letters beyond ASCII that it has
ENCODINGS = [(('UTF-8', 'utf-8', 'Utf-8'), 'utf-8', 'é€日Ж😀'), (('ISO-8859-1', 'iso-8859-1', 'latin1'), 'latin-1', 'éüß¥ÿ'), (('windows-1252', 'Windows-1252', 'cp1252'), 'cp1252', '€œé”'),
             (('ISO-8859-2', 'iso-8859-2'), 'iso8859-2', 'łżČ'), (('ISO-8859-5',), 'iso8859-5', 'Жя'), (('ISO-8859-7',), 'iso8859-7', 'αβΩ'), (('ISO-8859-15', 'iso-8859-15'), 'iso8859-15', '€éŒ'),
             (('windows-1251',), 'cp1251', 'Жя€'), (('KOI8-R', 'koi8-r'), 'koi8-r', 'Жя'), (('Shift_JIS', 'shift_jis', 'sjis'), 'shift_jis', '日本あ'), (('EUC-JP',), 'euc-jp', '日本あ'),
             (('GBK', 'gb2312'), 'gbk', '汉字'), (('GB18030',), 'gb18030', '汉字€'), (('Big5',), 'big5', '漢字'), (('EUC-KR',), 'euc-kr', '한글'), (('US-ASCII', 'ascii'), 'ascii', '')]


def encoded_docs(run, n, tag, **profile):
    """documents in other character encodings, declared in their first line"""
    out = []
    base = core.SEED * 1000003 + abs(hash_(tag)) % 100000 * 7919
    for i in range(n):
        r = random.Random(base + i)
        labels, codec, letters = ENCODINGS[i % len(ENCODINGS)]
        ev = gen.document(base + i, letters='ab <&\r\n' + letters * 3, **dict(profile, ids=0))
        label = r.choice(labels)
        if r.random() < 0.04:
            label = r.choice(['x-unknown', 'utf-99', 'klingon'])
            ev = [dict(e='bad', raw='')] + ev
        q = r.choice('"\'')
        head = '<?xml version=%s1.0%s encoding=%s%s%s%s?>' % (q, q, q, label, q, r.choice(['', ' standalone=%syes%s' % (q, q)])) + r.choice(['', '\n', '\r\n', '<!-- c -->'])
        if codec == 'utf-8' and r.random() < 0.3:
            head = r.choice(['', '\ufeff'])
        out.append(Case(ev, head + svgtext.render([e for e in ev if e.get('raw') != ''], r), i % 3, tag, codec))
    return out


def hash_(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000000007
    return h


def explore(run, key, tier):
    """explores MCDoc over an alphabet; returns the words"""
    a = alpha.ALPHA[key]
    mx, dp = a[tier]
    f = os.path.join(core.tmp(), 'alpha.%s.json' % key)
    modes = a.get('modes', ['ignore'])
    with open(f, 'w') as h:
        h.write(json.dumps(svgtext.spec(dict(items=a['items'], max=mx, depth=dp, modes=list(modes), root=alpha.ROOT))))
    t = core.tlc('MCDoc', 'MCDoc_%s.cfg' % key, env={'ALPHABET': f})
    if not t.ok:
        raise core.ToolError('the model violates a law of MCDoc_%s:\n%s' % (key, core.err_text(t.out)))
    run.add(t.states, t.transitions, 0)
    run.note('MCDoc_%s: %d states, laws %s hold' % (key, t.states, ' '.join(a['laws'] + a['props'])))
    return [(m.group(1), [int(x) for x in m.group(2).split(',') if x]) for m in re.finditer(r'"W\|(\w+)\|([\d,]*)"', t.out)]


def word_docs(run, key, tier, limit):
    ws = sorted(explore(run, key, tier))
    total = len(ws)
    r = random.Random(core.SEED * 31 + hash_(key))
    if limit and len(ws) > limit:
        ws = r.sample(ws, limit)
    a = alpha.ALPHA[key]
    out = []
    for mode, w in ws:
        ev = list(alpha.ROOT)
        for i in w:
            ev = ev + ([alpha.C] if i == 0 else a['items'][i - 1]['ev'])
        out.append(Case(ev, svgtext.render(ev, random.Random(hash_(str(w)) + core.SEED), noise=False), MODES.index(mode), 'word ' + key))
    run.note('%d of %d complete documents of MCDoc_%s replayed' % (len(out), total, key))
    return out


def path_words(run, name, cmds, starts, mx, limit, per=8):
    """all command words of MCPath, several per document"""
    f = os.path.join(core.tmp(), 'paths.%s.json' % name)
    spec = [dict(c, w=[[0, 0, 1, 1]] * (len(c['a']) // 7) if c['c'] == 'A' else []) for c in cmds]
    with open(f, 'w') as h:
        h.write(json.dumps(dict(cmds=svgtext.spec(spec), starts=starts, max=mx)))
    t = core.tlc('MCPath', env={'ALPHABET': f})
    if not t.ok:
        raise core.ToolError('the model violates a law of MCPath:\n' + core.err_text(t.out))
    run.add(t.states, t.transitions, 0)
    ws = sorted([int(x) for x in m.group(1).split(',') if x] for m in re.finditer(r'"W\|path\|([\d,]*)"', t.out))
    total = len(ws)
    r = random.Random(core.SEED * 17 + hash_(name))
    if limit and total > limit:
        ws = r.sample(ws, limit)
    run.note('MCPath %s: %d states, laws hold; %d of %d words replayed' % (name, t.states, len(ws), total))
    good, bad = [], []
    for w in ws:
        cs = paths.words(cmds, w)
        if cs is None:
            run.skipped += 1
            continue
        ok = all(c['c'] == 'Z' and not c['a'] or c['c'] in paths.ARITY and c['a'] and len(c['a']) % paths.ARITY[c['c']] == 0 for c in cs)
        (good if ok else bad).append(cs)
    out = []
    for group in [good[i:i + per] for i in range(0, len(good), per)] + [[b] for b in bad]:
        ev = list(alpha.ROOT)
        for cs in group:
            ev = ev + [dict(e='open', tag='path', at=[dict(k='d', v=dict(t='path', a=cs))], sty=[]), alpha.C]
        ev.append(alpha.C)
        out.append(Case(ev, svgtext.render(ev, random.Random(hash_(str(group)[:200]) + core.SEED), noise=False), len(out) % 3, 'words ' + name))
    return out
