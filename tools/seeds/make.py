#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the planted bugs described in bugs*.py (edits of /repo's HEAD, a
demonstration and what it needs). Development tool: no check uses it.

make.py [ID...]   writes the directories; make.py --list prints the ids."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, glob
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(here, '../../seeded')
bugs = {}
for f in sorted(glob.glob(here + '/bugs*.py')):
    spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    bugs.update(m.BUGS)
if '--list' in sys.argv:
    print('\n'.join(bugs)); sys.exit()
for id in (sys.argv[1:] or bugs):
    b = bugs[id]
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(f'git -C /repo archive HEAD | tar xf - -C {t}', shell=True, check=True)
        g = lambda *a: subprocess.run(['git', '-C', t, '-c', 'user.name=x', '-c', 'user.email=x', *a], check=True, capture_output=True, text=True).stdout
        g('init', '-q'); g('add', '-A'); g('commit', '-qm', 'x')
        for f, old, new in b['edits']:
            p = f'{t}/{f}'; s = open(p).read()
            if s.count(old) != 1: sys.exit(f'{id}: {f}: {s.count(old)} matches of {old!r}')
            open(p, 'w').write(s.replace(old, new))
        diff = g('diff')
    d = f'{out}/{id}'; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write('mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n' + b['demo'].lstrip('\n'))
    shutil.copy(here + '/kit.rs', d); shutil.copy(here + '/demo.sh', d); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(id, len(diff.splitlines()))
