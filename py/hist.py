"""Histories of parses and draws, validated against SvgHist."""
import json, os, random, re, subprocess, threading, queue
import core, gen, svgtext
from docs import hash_

BACKS = ['gg', 'draw2d', 'rasterx', 'rasterxgv']
W = H = 40


def fresh(exe, reqs):
    """every request in a process of its own"""
    out = [None] * len(reqs)
    q = queue.Queue()
    for i in range(len(reqs)):
        q.put(i)
    errs = []

    def work():
        try:
            while not errs:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                h = core.Harness(exe)
                out[i] = h.ask(reqs[i])
                h.stop()
        except Exception as e:  # noqa
            errs.append(e)
    ts = [threading.Thread(target=work) for _ in range(core.CPUS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return out


def texts(r, k, **profile):
    """documents that use the same names for different things"""
    out = []
    for _ in range(k):
        for _ in range(20):
            ev = gen.document(r.randrange(1 << 40), **profile)
            if sum(e.get('tag') in gen.SHAPES for e in ev) >= (6 if 'span' in profile else 0):
                break
        out.append(svgtext.render(ev, random.Random(r.randrange(1 << 40))))
    return out


RICH = dict(style=0.5, xform=0.3, defs=0.2, use=0.3, grads=0.25, refs=0.5, masks=0.15, meta=0.15, unknown=0.05, nested=0.05, size=10)
DRAW = dict(RICH, span=40, xform=0.15, units=0.02, pct=0.05, meta=0.02, noref=0.05, size=12)
WILD = dict(RICH, bad=0.04, geombad=0.05, arity=0.05, usebad=0.1, malformed=0.2, kwbad=0.1, cmdbad=0.1)
OPTS = [[], [dict(k='target', v=[2, 3, 30, 20])], [dict(k='opacity', v=[0.5])], [dict(k='opacity', v=[0.25]), dict(k='target', v=[0, 0, 40, 40])]]


def chunks(r, text, n):
    """n sizes that cut the text at arbitrary bytes; the last read reports the end"""
    b = len(text.encode())
    if n <= 1:
        return [b]
    cuts = sorted(r.randrange(0, b + 1) for _ in range(n - 1))
    return [y - x for x, y in zip([0] + cuts, cuts + [b])]


class Hist:
    __slots__ = ('docs', 'steps', 'tag')

    def __init__(self, docs, steps, tag):
        self.docs, self.steps, self.tag = docs, steps, tag

    def req(self):
        return dict(op='hist', id=0, docs=self.docs, steps=self.steps, w=W, h=H, limit=60)


def how(st):
    return dict(back=st['back'], opts=st.get('opts', []))


def flat(steps):
    for s in steps:
        if s['e'] == 'race':
            yield from s['all']
        else:
            yield s


def baselines(hs):
    """the parses and draws of the histories, each alone"""
    need = {}
    for h in hs:
        order, live = [], {}
        for s in flat(h.steps):
            if s['e'] == 'begin':
                need[(h.docs[s['d']], s['mode'], None)] = None
        # which documents are drawn is known only after the order of completion; draw all of them in all ways used
        ways = {json.dumps(how(s), sort_keys=True) for s in flat(h.steps) if s['e'] == 'drawbegin'}
        for s in flat(h.steps):
            if s['e'] == 'begin':
                for w in ways:
                    need[(h.docs[s['d']], s['mode'], w)] = None
    return list(need)


def run_histories(run, hs, aspects, race=False, env=None):
    keys = baselines(hs)
    reqs = []
    for t, mode, w in keys:
        steps = [dict(e='begin', s=0, d=0, mode=mode), dict(e='finish', s=0)]
        if w is not None:
            steps += [dict(e='drawbegin', s=0, i=0, **json.loads(w)), dict(e='finish', s=0)]
        reqs.append(dict(op='hist', id=0, docs=[t], steps=steps, w=W, h=H))
    base = {}
    g = set()
    for k, o in zip(keys, fresh(run.exe(), reqs)):
        if o['out'] != 'ok':
            base[k] = None        # crashes are for C01; nothing is compared
            continue
        ev = o['events']
        g.update(e['res'] for e in ev if e['e'] == 'globals')
        if k[2] is None:
            base[k] = [e['res'] for e in ev if e['e'] == 'end'][0]
        else:
            base[k] = ([e['res'] for e in ev if e['e'] == 'drawend'][0], [e['how'] for e in ev if e['e'] == 'drawbegin'][0])
    exe = run.exe(race)
    obs = core.observe(exe, [h.req() for h in hs], env=env, par=4 if race else None)
    js, bad = [], []
    for i, (h, o) in enumerate(zip(hs, obs)):
        if o is None:
            run.skipped += 1
            continue
        b = []
        dead = False
        for (t, mode, w), v in base.items():
            if t in h.docs:
                dead = dead or v is None
                d = [j for j, x in enumerate(h.docs) if x == t]
                for j in d:
                    if v is not None and w is None:
                        b.append(dict(e='parse', d=j, mode=mode, res=v))
                    elif v is not None:
                        b.append(dict(e='draw', d=j, mode=mode, how=v[1], res=v[0]))
        if dead:
            run.skipped += 1
            continue
        if o['out'] != 'ok':
            bad.append((len(h.steps), i, o.get('panic', 'hang') + ' ' + str(o.get('where', ''))[:1500]))
            continue
        b += [dict(e='globals', res=x) for x in sorted(g)[:1]]
        js.append(dict(id=i, base=b, ev=o['events']))
    res, st, tr = core.judge('JudgeHist', js, chunk=1500)
    run.add(st, tr, len(js))
    for i in res:
        found = set(filter(None, res[i][0].split(',')))
        if found & (aspects | {'stuck'}):
            bad.append((len(hs[i].steps), i, ','.join(sorted(found))))
    run.count += len(bad)
    if hs:
        run.sample(json.dumps(hs[0].steps)[:500])
    for _, i, what in sorted(bad)[:3]:
        run.violation('%s: history is not a behaviour of SvgHist: %s' % (hs[i].tag, what),
                      dict(kind='hist', docs=hs[i].docs, steps=hs[i].steps, aspects=sorted(aspects), race=race, env=env))


def replay(run, r):
    run_histories(run, [Hist(r['docs'], r['steps'], 'replay')] * (20 if r['race'] else 1), set(r['aspects']), r['race'], r.get('env'))


def words(run, name, limit, profile, **conf):
    """the complete histories of MCHist, over random texts"""
    f = os.path.join(core.tmp(), 'hist.%s.json' % name)
    with open(f, 'w') as h:
        h.write(json.dumps(conf))
    t = core.tlc('MCHist', env={'ALPHABET': f})
    if not t.ok:
        raise core.ToolError('MCHist: ' + core.err_text(t.out))
    run.add(t.states, t.transitions, 0)
    ws = sorted(set(re.findall(r'"W\|hist\|([^"]*)"', t.out)))
    total = len(ws)
    r = random.Random(core.SEED * 41 + hash_(name))
    if limit and total > limit:
        ws = r.sample(ws, limit)
    run.note('MCHist %s: %d states, the laws hold; %d of %d histories replayed' % (name, t.states, len(ws), total))
    hs = []
    for k, w in enumerate(ws):
        if k % 12 == 0:
            # texts are shared by several histories, so that the baselines are
            tx = texts(r, conf['texts'], **profile)
            mode = r.randrange(3)
        steps = []
        for x in w.split(','):
            if not x:
                continue
            a, b, c = x.split('.')
            b, c = int(b), int(c)
            if a == 'b':
                steps.append(dict(e='begin', s=b, d=c - 1, mode=mode, chunk=chunks(r, tx[c - 1], conf['chunks'] - 1)))
            elif a == 'g':
                steps.append(dict(e='give', s=b))
            elif a == 's':
                steps.append(dict(e='scribble', i=b - 1))
            elif a == 'd':
                way = dict(back=r.choice(BACKS), opts=r.choice(OPTS))
                steps.append(dict(e='drawbegin', s=b, i=c - 1, canvas=r.choice([0, 0, 10 + b]), **way))
            elif a == 'p':
                steps.append(dict(e='drawgive', s=b))
        hs.append(Hist(tx, normal(steps), 'history of MCHist ' + name))
    return hs


def normal(steps):
    """The model counts a fixed number of chunks and paints per call; in the code
    their number depends on the document.  The last release of a slot completes the call."""
    out = []
    left = {}
    for i, s in enumerate(steps):
        if s['e'] in ('give', 'drawgive'):
            later = next((t for t in steps[i + 1:] if t.get('s') == s['s']), None)
            out.append(s)
            if later is None or later['e'] in ('begin', 'drawbegin'):
                out.append(dict(e='finish', s=s['s']))
        else:
            out.append(s)
    # a document is used only after it is complete: completion is in the order of the model
    return out


def rand(run, n, tag, profile, draws, ntexts=3, steps=14):
    r = random.Random(core.SEED * 97 + hash_(tag))
    hs = []
    for k in range(n):
        if k % 8 == 0:
            tx = texts(r, ntexts, **profile)
            ways = [dict(back=r.choice(BACKS), opts=r.choice(OPTS)) for _ in range(2)]
            modes = [r.randrange(3)] + ([r.randrange(3)] if not draws else [])
        st, live, ndocs, own = [], {}, 0, []
        for _ in range(r.randint(5, steps)):
            c = r.random()
            free = [s for s in range(4) if s not in live]
            if draws and own and c < 0.45 and free:
                i = r.choice(own)
                s = r.choice(free)
                live[s] = ('draw', i)
                st.append(dict(e='drawbegin', s=s, i=i, canvas=r.choice([0, 0, 10 + s]), **r.choice(ways)))
            elif c < (0.6 if draws else 0.5) and free:
                s = r.choice(free)
                d = r.randrange(ntexts)
                size = len(tx[d].encode())
                kind = r.random()
                ch = ([] if kind < 0.2 else [1] * size if kind < 0.3 else chunks(r, tx[d], r.randint(2, 8)) if kind < 0.8
                      else [r.choice([0, 1, 2, 3, 7]) for _ in range(60)])
                live[s] = ('parse', d)
                st.append(dict(e='begin', s=s, d=d, mode=r.choice(modes), chunk=ch, early=r.random() < 0.3, via='file' if r.random() < 0.15 else ''))
                if st[-1]['via'] == 'file':
                    # runs to the end at once
                    del live[s]
                    ndocs += 1
                    own.append(ndocs - 1)
            elif live and c < 0.85:
                s = r.choice(list(live))
                for _ in range(r.choice([1, 1, 2, 5])):
                    st.append(dict(e='give' if live[s][0] == 'parse' else 'drawgive', s=s))
                if r.random() < 0.5:
                    st.append(dict(e='finish', s=s))
                    st.append(('end', s))
            elif own and c < 0.93:
                st.append(('scribble',))
            else:
                st.append(dict(e='globals'))
            # ends that may or may not have happened are forced when a later step relies on them
            if st and isinstance(st[-1], tuple):
                m = st.pop()
                if m[0] == 'end':
                    k2, v = live.pop(m[1])
                    if k2 == 'parse':
                        ndocs += 1
                        own.append(ndocs - 1)
                else:
                    idle = [i for i in own if not any(v == ('draw', i) for v in live.values())]
                    if idle:
                        i = r.choice(idle)
                        own.remove(i)
                        st.append(dict(e='scribble', i=i))
        hs.append(Hist(tx, st, tag))
    return hs


def races(run, n, tag, profile, draws):
    r = random.Random(core.SEED * 89 + hash_(tag))
    hs = []
    for k in range(n):
        if k % 4 == 0:
            tx = texts(r, 3, **profile)
            ways = [dict(back=b, opts=r.choice(OPTS)) for b in r.sample(BACKS, 2)]
            mode = r.randrange(3)
        st = []
        if draws:
            for d in range(2):
                st += [dict(e='begin', s=d, d=d, mode=mode), dict(e='finish', s=d)]
        calls = []
        for s in range(r.randint(3, 6)):
            if draws and r.random() < 0.75:
                calls.append(dict(e='drawbegin', s=s, i=r.randrange(2), canvas=0, **r.choice(ways)))
            else:
                d = r.randrange(3)
                calls.append(dict(e='begin', s=s, d=d, mode=mode, chunk=chunks(r, tx[d], r.randint(1, 4)), via='file' if r.random() < 0.1 else ''))
        st.append(dict(e='race', all=calls))
        hs.append(Hist(tx, st, tag))
    return hs
