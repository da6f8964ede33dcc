"""Repeats a reported case: executes it again and validates it again."""
import json
import core


def main(path):
    import check, docs, modes, base64
    r = json.load(open(path))
    run = check.Run(r['property'], keep=True)
    run.out = core.tmp()
    k = r['kind']
    if k == 'doc':
        docs.validate(run, [docs.Case(r['ev'], r['src'], r['mode'], 'replay', r.get('enc', ''))], set(r['aspects']))
    elif k == 'modes':
        modes.validate(run, [base64.b64decode(r['b64'])], set(r['found']), 'replay', element=r.get('element', True))
    elif k == 'unplaced':
        try:
            core.judge(r['module'], [r['case']])
        except core.Unplaced as e:
            run.violation('recorded observation outside of the range of the specification: ' + e.text[:200], dict(kind=k, module=e.module, case=e.case))
    else:
        import importlib
        importlib.import_module(k).replay(run, r)
    for what, _ in run.viol:
        print(what)
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
    if not run.viol:
        print('not reproduced')
    return 1 if run.viol else 0
