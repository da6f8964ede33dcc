import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
try:
    core.build()
    core.build(race=True)
    mods = sorted(f for f in os.listdir(core.SPEC) if f.endswith('.tla'))
    r = subprocess.run(['java', '-cp', core.CP, 'tla2sany.SANY'] + mods, cwd=core.SPEC, capture_output=True, text=True)
    if r.returncode or 'Fatal' in r.stdout or '*** Errors' in r.stdout:
        print(r.stdout[-3000:])
        sys.exit(1)
    print('%d modules parsed' % len(mods))
finally:
    core.cleanup()
