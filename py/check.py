#!/usr/bin/env python3
"""check Cxx: decides one property.  check --replay FILE: repeats a reported case."""
import glob, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import QUICK, SEED, TIER, ToolError, VERIF


class Run:
    def __init__(self, prop, keep=False):
        self.prop, self.t0 = prop, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.viol = [], [], []
        self.count = self.skipped = self.drawn = 0
        self._exe = {}
        self.out = os.path.join(VERIF, 'out')
        for f in [] if keep else glob.glob(os.path.join(self.out, prop + '-*.json')):
            os.remove(f)

    def exe(self, race=False):
        if race not in self._exe:
            self._exe[race] = core.build(race)
        return self._exe[race]

    def add(self, st, tr, traces):
        self.states += st
        self.transitions += tr
        self.traces += traces

    def sample(self, s):
        if len(self.samples) < 4 and s:
            self.samples.append(s)

    def note(self, s):
        self.notes.append(s)
        print('  ' + s, flush=True)

    def violation(self, what, replay):
        """one violation, with everything needed to repeat it"""
        if len(self.viol) >= 5:
            return
        os.makedirs(self.out, exist_ok=True)
        name = os.path.join(self.out, '%s-%d.json' % (self.prop, len(self.viol) + 1))
        replay = dict(replay, property=self.prop, what=what, seed=SEED, tier=TIER)
        with open(name, 'w') as h:
            json.dump(replay, h, indent=1)
        self.viol.append((what, name))

    def finish(self):
        ev = dict(property=self.prop, tier='quick' if QUICK else 'thorough', seed=SEED, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples, notes=self.notes, cases_skipped=self.skipped, paths_compared=self.drawn),
                  assumptions=['XML tokenisation by encoding/xml follows the XML standard', 'values are compared on the 1/64 pixel grid within the stated slack'],
                  wall_s=round(time.time() - self.t0, 2), violations=self.count)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
        print('%s: %d states, %d traces, %.1f s' % (self.prop, self.states, self.traces, time.time() - self.t0))
        if self.viol:
            for what, name in self.viol:
                print('  ' + what)
                print('VIOLATION property=%s replay=%s' % (self.prop, name))
            return 1
        if self.count:
            raise ToolError('violations without a replay')
        return 0


def main():
    import plans
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        import replay
        return replay.main(sys.argv[2])
    prop = sys.argv[1] if len(sys.argv) > 1 else ''
    if prop not in plans.PLAN:
        print('usage: check %s' % '|'.join(plans.PLAN))
        return 2
    run = Run(prop)
    try:
        plans.PLAN[prop](run)
    except core.Unplaced as e:
        run.count += 1
        run.violation('observation outside of the range of the specification: %s' % next((l for l in e.text.splitlines() if 'Overflow' in l), '')[:120], dict(kind='unplaced', module=e.module, case=e.case))
    except ToolError as e:
        if not run.viol:
            raise
        print('ERROR: ' + str(e)[:2000], file=sys.stderr)       # what was found before counts
    return run.finish()


if __name__ == '__main__':
    rc = 2
    try:
        rc = main()
    except ToolError as e:
        print('ERROR: ' + str(e)[:6000], file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        core.cleanup()
    sys.exit(rc)
