"""What is explored for each property."""
import canvas, core, docs, hist, kit, lex, matrices, modes, mutate, paint, paths, pathtext
from core import QUICK
from docs import encoded_docs, random_docs, validate, word_docs, path_words

TIER = 'quick' if QUICK else 'thorough'


def n(quick, thorough):
    return quick if QUICK else thorough


OUTCOME = {'err', 'noerr', 'nil', 'count'}
SIMPLE = ['rect', 'line', 'polygon']


def c02(run):
    asp = OUTCOME | {'paint', 'stroke', 'opac'}
    validate(run, word_docs(run, 'C02', TIER, n(1500, 20000)), asp)
    validate(run, random_docs(run, n(1500, 20000), 'styles', shapes=SIMPLE, style=0.8, xform=0, inline=0.5, size=14, depth=6), asp)
    validate(run, random_docs(run, n(800, 10000), 'styles in definitions and masks', shapes=SIMPLE, style=0.6, xform=0, defs=0.2, use=0.3,
                              masks=0.15, nested=0.1, unknown=0.1, units=0.2, pct=0.2), asp | {'refs', 'maskpaths'})
    validate(run, random_docs(run, n(500, 5000), 'bad styles', shapes=SIMPLE, style=0.5, xform=0, bad=0.2, kwbad=0.1), asp)


def c03(run):
    asp = OUTCOME | {'geom'}
    validate(run, path_words(run, 'all', paths.CMDS, 3, n(4, 5), n(9000, 90000)), asp)
    validate(run, path_words(run, 'arity', paths.CMDS[:10] + paths.CMDS[15:20] + paths.BAD, 3, 4, n(1500, 0)), asp)
    validate(run, random_docs(run, n(1200, 20000), 'paths', shapes=['path'], style=0, xform=0, arcs=0, degenerate=0.15, size=12), asp)
    validate(run, random_docs(run, n(300, 5000), 'large paths', shapes=['path'], style=0, xform=0, arcs=0, wide=1), asp)
    validate(run, random_docs(run, n(600, 8000), 'paths with wrong argument counts', shapes=['path'], style=0, xform=0, arcs=0, arity=0.5, cmdbad=0.1), asp)


def c04(run):
    asp = OUTCOME | {'geom'}
    validate(run, path_words(run, 'arcs', paths.ARCS, 3, n(3, 4), n(3000, 0), per=4), asp)
    validate(run, random_docs(run, n(1500, 25000), 'arcs', shapes=['path'], style=0, xform=0, arcs=0.6, degenerate=0.1, size=10), asp)
    validate(run, random_docs(run, n(500, 5000), 'arcs with wrong argument counts', shapes=['path'], style=0, xform=0, arcs=0.7, arity=0.5), asp)


def c05(run):
    asp = OUTCOME | {'geom'}
    sh = ['rect', 'circle', 'ellipse', 'line', 'polyline', 'polygon']
    validate(run, random_docs(run, n(2000, 30000), 'shapes', shapes=sh, style=0.05, xform=0, degenerate=0.15, size=14), asp)
    validate(run, random_docs(run, n(1000, 15000), 'shapes after other elements', style=0.05, xform=0.05, degenerate=0.15, defs=0.1, use=0.2, grads=0.1,
                              masks=0.1, nested=0.1, units=0.3, pct=0.3), asp | {'maskpaths'})
    validate(run, random_docs(run, n(500, 8000), 'large shapes', shapes=['rect', 'line', 'polyline', 'polygon'], style=0, xform=0, wide=1, noround=1, pct=0), asp)
    validate(run, random_docs(run, n(700, 8000), 'bad shapes', shapes=sh, style=0, xform=0, geombad=0.5, degenerate=0.1), asp)


def c07(run):
    asp = OUTCOME | {'xform'}
    validate(run, word_docs(run, 'C07', TIER, n(1500, 30000)), asp)
    validate(run, random_docs(run, n(2000, 30000), 'transforms', shapes=SIMPLE, style=0.05, xform=0.7, inline=0.3, depth=6), asp)
    validate(run, random_docs(run, n(600, 10000), 'transforms in definitions and masks', shapes=SIMPLE, style=0.05, xform=0.5, defs=0.2, use=0.3, masks=0.15),
             asp | {'maskpaths'})
    validate(run, random_docs(run, n(700, 8000), 'bad transforms', shapes=SIMPLE, style=0, xform=0.5, xfbad=0.3), asp)


def c09(run):
    asp = OUTCOME | {'geom', 'paint', 'stroke', 'opac', 'xform', 'refs', 'maskids', 'maskpaths', 'text', 'logs', 'grad'}
    validate(run, word_docs(run, 'C09', TIER, n(2500, 60000)), asp)
    validate(run, random_docs(run, n(1500, 25000), 'use', defs=0.25, use=0.4, style=0.2, size=14), asp)
    validate(run, random_docs(run, n(800, 10000), 'use with masks, gradients, text', defs=0.25, use=0.35, style=0.2, grads=0.1, masks=0.1, meta=0.3,
                              unknown=0.05, nested=0.05), asp)
    validate(run, random_docs(run, n(500, 5000), 'bad uses', defs=0.25, use=0.3, usebad=0.3, style=0.1), asp)


def c10(run):
    asp = OUTCOME | {'paint', 'grad'}
    validate(run, word_docs(run, 'C10', TIER, n(2000, 60000)), asp)
    validate(run, random_docs(run, n(1800, 25000), 'gradients', shapes=SIMPLE, style=0.5, xform=0.05, grads=0.35, refs=0.6, defs=0.15, use=0.1), asp)
    validate(run, random_docs(run, n(500, 5000), 'bad gradients', shapes=SIMPLE, style=0.3, xform=0, grads=0.4, refs=0.5, bad=0.2), asp)


def c11(run):
    asp = OUTCOME | {'refs', 'maskids', 'maskgeo', 'maskpaths'}
    validate(run, word_docs(run, 'C11', TIER, n(1200, 30000)), asp)
    validate(run, word_docs(run, 'C11b', TIER, n(900, 30000)), asp)
    validate(run, random_docs(run, n(1500, 25000), 'masks', shapes=SIMPLE, style=0.1, xform=0.1, masks=0.35, defs=0.1, use=0.2, nested=0.05, depth=5), asp)
    validate(run, random_docs(run, n(500, 5000), 'bad masks', shapes=SIMPLE, style=0.05, xform=0.05, masks=0.35, bad=0.3), asp)


def c13(run):
    asp = OUTCOME | {'size', 'text'}
    validate(run, word_docs(run, 'C13', TIER, n(2000, 30000)), asp)
    prof = dict(shapes=['rect'], style=0.05, xform=0.05, meta=0.5, unknown=0.1, nested=0.15, defs=0.1, use=0.1, units=0.2)
    validate(run, random_docs(run, n(1500, 20000), 'metadata', **prof), asp)
    validate(run, encoded_docs(run, n(1200, 20000), 'metadata in other encodings', **prof), asp)
    validate(run, random_docs(run, n(200, 2000), 'view boxes of negative size', **dict(prof, vbneg=0.5, pct=0)), asp)
    validate(run, random_docs(run, n(60, 600), 'long texts', **dict(prof, longtext=0.2)), asp)


WILD = dict(units=0.3, pct=0.2, defs=0.2, use=0.3, grads=0.15, masks=0.15, meta=0.1, unknown=0.1, nested=0.1, bad=0.05, geombad=0.1, arity=0.1, usebad=0.1,
            malformed=0.3, kwbad=0.1, xfbad=0.05, cmdbad=0.1)


def c01(run):
    asp = {'panic', 'hang', 'nil', 'empty'}
    validate(run, word_docs(run, 'C01', TIER, n(1500, 40000)), {'nil'})
    modes.validate(run, mutate.EMPTY, asp, 'no element', element=False)
    modes.validate(run, list(mutate.big(n(2000, 100000))), asp, 'large')
    modes.validate(run, list(mutate.nasty()), asp, 'every attribute with every kind of value')
    modes.validate(run, mutate.inputs(n(20000, 400000), 'c01', core.SEED), asp, 'damaged and arbitrary')
    validate(run, random_docs(run, n(600, 10000), 'everything', **WILD), {'nil'})


def c12(run):
    asp = OUTCOME | {'salvage', 'logs', 'geom', 'paint', 'grad', 'stroke', 'opac', 'xform', 'refs', 'maskids', 'maskgeo', 'maskpaths', 'size', 'text'}
    rel = {'panic', 'hang', 'nil', 'empty', 'result', 'document', 'logs', 'strict', 'strictdoc', 'salvage', 'fault'}
    validate(run, word_docs(run, 'C12', TIER, n(2500, 60000)), asp)
    validate(run, random_docs(run, n(1200, 20000), 'unsupported content', style=0.4, unknown=0.25, kwbad=0.3, cmdbad=0.3, defs=0.1, use=0.2, grads=0.1, masks=0.1), asp)
    for k in ('bad', 'geombad', 'arity', 'usebad', 'xfbad'):
        validate(run, random_docs(run, n(400, 6000), 'malformed values: ' + k, style=0.4, defs=0.1, use=0.15, grads=0.1, masks=0.05, unknown=0.05, **{k: 0.3}), asp)
    validate(run, random_docs(run, n(500, 6000), 'not well-formed', style=0.1, malformed=0.9, masks=0.1, defs=0.1, use=0.1), asp)
    validate(run, random_docs(run, n(500, 10000), 'everything', **WILD), asp)
    modes.validate(run, list(mutate.nasty())[core.SEED % 3::n(3, 1)], rel, 'every attribute with every kind of value')
    modes.validate(run, mutate.inputs(n(8000, 200000), 'c12', core.SEED + 5), rel, 'damaged and arbitrary')


def c06(run):
    asp = OUTCOME | {'geom', 'stroke', 'opac', 'size', 'xform'}
    jt = lambda cs: validate(run, cs, asp, module='JudgeText')
    jt(lex.list_cases(run, n(4, 5), 'list', n(4000, 40000), n(1200, 20000)))
    jt(lex.list_cases(run, n(4, 5), 'list2', n(4000, 40000), n(1200, 20000)))
    jt(lex.kind_cases(run, 'length', n(4, 5), LENGTHS, n(4000, 40000), n(1000, 20000)))
    jt(lex.kind_cases(run, 'fraction', n(4, 5), ['opacity', 'fill-opacity', 'stroke-opacity'], n(1500, 10000), n(500, 5000)))
    jt(lex.kind_cases(run, 'dash', n(4, 5), ['stroke-dasharray'], n(1500, 10000), n(500, 5000)))
    jt(lex.kind_cases(run, 'transform', n(4, 5), ['transform'], n(300, 5000), n(500, 5000)))
    jt(lex.kind_cases(run, 'path', n(4, 5), ['d'], n(600, 5000), n(500, 5000)))
    jt(lex.random_cases(run, n(900, 20000), 'spelling', style=0.5, xform=0.4, units=0.5, pct=0.4, arcs=0, defs=0.1, use=0.2, grads=0.1, masks=0.1))
    validate(run, lex.random_cases(run, n(400, 10000), 'spelling in gradients and masks', style=0.5, refs=0.8, xform=0.3, units=0.4, pct=0.4, arcs=0, defs=0.2, use=0.1, grads=0.35, masks=0.1),
             asp | {'grad', 'maskgeo', 'maskpaths'}, module='JudgeText')


LENGTHS = ['x', 'y', 'width', 'height', 'cx', 'cy', 'r', 'x1', 'y1', 'x2', 'y2', 'stroke-width', 'stroke-dashoffset']


def c08(run):
    lex.colours(run, QUICK)


def c20(run):
    pathtext.words(run, n(5, 6), n(6000, 60000))
    pathtext.rand(run, n(3000, 60000))
    pathtext.parsed(run, n(600, 10000))


def c21(run):
    matrices.words(run, n(3, 4), n(6000, 60000))
    matrices.rand(run, n(8000, 100000))


def c23(run):
    kit.names(run)
    kit.words(run, n(3, 4), n(4000, 60000))
    kit.rand(run, n(6000, 80000))


RACE = {'GORACE': 'halt_on_error=1 exitcode=66'}


def c14(run):
    asp = {'parse', 'snap', 'globals'}
    go = lambda hs, **k: hist.run_histories(run, hs, asp, **k)
    go(hist.words(run, 'two parses', n(300, 3000), hist.RICH, slots=2, texts=2, parses=2, chunks=n(4, 5), paints=0, draws=0, scribbles=0))
    go(hist.words(run, 'three parses', n(900, 12000), hist.WILD, slots=n(2, 3), texts=2, parses=3, chunks=n(2, 3), paints=0, draws=0, scribbles=1))
    go(hist.rand(run, n(900, 20000), 'random parses', hist.WILD, False))
    go(hist.rand(run, n(300, 6000), 'long random parses', hist.RICH, False, steps=40))
    go(hist.rand(run, n(40, 1000), 'large documents', dict(hist.WILD, size=90), False, steps=12))
    go(hist.races(run, n(200, 4000), 'concurrent parses', hist.WILD, False), race=True, env=RACE)


def c19(run):
    asp = {'draw', 'snap'}
    go = lambda hs, **k: hist.run_histories(run, hs, asp, **k)
    go(hist.words(run, 'draws', n(600, 8000), hist.DRAW, slots=2, texts=2, parses=2, chunks=1, paints=n(3, 4), draws=2, scribbles=0))
    go(hist.words(run, 'draws and parses', n(600, 8000), hist.DRAW, slots=2, texts=2, parses=2, chunks=2, paints=2, draws=n(2, 3), scribbles=1))
    go(hist.rand(run, n(600, 15000), 'random draws', hist.DRAW, True, steps=24))
    go(hist.races(run, n(120, 3000), 'concurrent draws', hist.DRAW, True), race=True, env=RACE)


def c15(run):
    paint.rand(run, 'options', n(4000, 60000), 'options', tgt=0.9)
    paint.corners(run, n(6000, 100000), 'corners')
    for b in ('rasterx', 'gg', 'draw2d'):
        paint.words(run, b, n(1, 2), 0, tag='options')
        paint.rand(run, b, n(700, 15000), 'pictures with a target on ' + b, tgt=1.0, masks=0.3)
        paint.parsed(run, b, n(500, 8000), 'documents with a target on ' + b, **hist.DRAW)


def painted(run, b, k):
    paint.features(run, b)
    paint.words(run, b, 2, 0)
    paint.words(run, b, 3, n(1200 * k, 20000), tag='longer')
    for i in range(n(1, 8)):
        kinds, masks = paint.random_alphabet(b, i)
        paint.words(run, b, 2, n(400, 0), kinds, masks, tag='random %d' % i)
    for i in range(n(1, 8)):
        paint.rand(run, b, n(2200, 10000), 'random pictures on %s %d' % (b, i))
    paint.parsed(run, b, n(1500, 20000), 'parsed documents on ' + b, **hist.DRAW)


def c16(run):
    painted(run, 'draw2d', 2)


def c17(run):
    painted(run, 'rasterx', 1)


def c18(run):
    painted(run, 'gg', 1)


def c22(run):
    sched = [canvas.schedules(run, n(3, 3), n(2, 2), n(4, 5), x) for x in (('blf', 'bfn') if core.QUICK else ('blf', 'bfn', 'lll', 'fnb', 'nlb'))]
    go = lambda docs, tag, **k: canvas.validate(run, docs, tag, sched, **k)
    go(canvas.documents(n(1500, 40000), 'drawings', **hist.DRAW), 'drawings')
    go(canvas.documents(n(700, 20000), 'everything', **hist.WILD), 'everything')
    go(list(canvas.mask_graphs()), 'masks that refer to masks', per=1)
    nasty = list(mutate.nasty())
    go(nasty[core.SEED % 4::n(4, 1)], 'every attribute with every kind of value', per=1)
    go(mutate.inputs(n(5000, 150000), 'c22', core.SEED + 9), 'damaged and arbitrary', per=1)


PLAN = dict(C23=c23, C22=c22, C15=c15, C16=c16, C17=c17, C18=c18, C14=c14, C19=c19, C21=c21, C20=c20, C06=c06, C08=c08, C01=c01, C12=c12, C02=c02, C03=c03, C04=c04, C05=c05, C07=c07, C09=c09, C10=c10, C11=c11, C13=c13)

_DOC = ('trace validation of parses against SvgDoc', 'Every explored document, bounded-exhaustive words of the model and seeded random ones, is parsed by the real code '
        'and the result compared by TLC with the final state of the specification; not a proof for unexplored documents; trusts encoding/xml, TLC and the harness.')
NOTES = {p: _DOC for p in PLAN}
NOTES['C06'] = ('texts of MCLex replayed into the parser, trace validation against JudgeText', _DOC[1])
NOTES['C08'] = ('texts of MCLex, all keywords and hex colours validated against JudgeColour', _DOC[1])
NOTES['C20'] = ('paths of MCText put through the text form and back, trace validation against JudgePathText', _DOC[1])
NOTES['C21'] = ('products of MCMat repeated with the matrix API, trace validation against JudgeMat', _DOC[1])
NOTES['C23'] = ('calls of MCKit repeated with the real helpers, trace validation against SvgKit', _DOC[1])
NOTES['C14'] = NOTES['C19'] = ('schedules of MCHist replayed, recorded histories validated against SvgHist, race detector on free-running ones',
                'Every explored history of calls, with the interleaving of reads and paints decided by the schedule, is validated by TLC against the memo specification '
                'and a baseline from fresh processes; interleavings below that granularity are only sampled, under the race detector.')
NOTES['C01'] = ('words of MCDoc, damaged and arbitrary byte streams validated against JudgeModes',
                'Termination and absence of panics on everything explored, in all three modes, within 10 s and 3 GB per request; not a proof for unexplored inputs.')
NOTES['C03'] = NOTES['C04'] = ('words of MCPath replayed into the parser, random paths validated against SvgPath', _DOC[1])
NOTES['C12'] = ('mode laws of MCDoc, trace validation against SvgDoc and JudgeModes', _DOC[1])
_PAINT = 'pictures of MCPaint and random and parsed pictures painted by the real back end, %s validated against SvgPaint'
for _p, _w in (('C15', 'options, calls and pixels'), ('C16', 'calls on the graphic context'), ('C17', 'pixels'), ('C18', 'pixels')):
    NOTES[_p] = (_PAINT % _w, 'Every explored picture, all short words over an alphabet of paths and seeded random ones, is painted by the real code and TLC compares it with '
                 'the canvas of the specification at sample points that are clearly inside or outside; points near outlines and parts that the back ends '
                 'are free to draw differently are not judged; trusts the rasterisers and TLC.')
NOTES['C22'] = ('sequences of draws of MCCanvas replayed on every back end with parsed documents, trace validation against SvgCanvas',
                'Every explored document is drawn whole and in several of the sequences of draws of the model; TLC compares the canvases after every call with each other by the '
                'marks that the specification gives them; documents with coordinates beyond the range of the rasterisers are not drawn; not a proof for unexplored documents.')
