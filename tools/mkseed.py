#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE is a python module defining ID, PROP, EDITS [(path, old, new)], DEMO (C++ text), NEEDS, BREAKS.
Creates /verif/seeded/ID and confirms in a scratch copy of /repo's sources that the demonstration passes without and fails with the change
(the repository's own build and tests are confirmed by vcheck / with --tests here)."""
import sys, os, shutil, subprocess, json, shutil, tempfile, runpy
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as the property says; non-zero: broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
I=src/include/pdaaal
g++ -std=gnu++20 -w -O0 -g %s -Isrc/include -Isrc/pdaaal-bin "$d/demo.cpp" %s -o "$t/demo" -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set -labsl_raw_logging_internal || exit 9
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo" %s
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for f in sys.argv[1:]:
    if f.startswith('--'): continue
    m = runpy.run_path(f); ID = m['ID']
    w = tempfile.mkdtemp(prefix='seed_'); r = w + '/repo'
    sh('git -C /repo worktree prune; git clone -q /repo %s' % r)
    for p, old, new in m['EDITS']:
        raw = open(r + '/' + p, newline='').read(); t = raw.replace('\r\n', '\n')
        assert t.count(old) == 1, (ID, p, t.count(old), old)
        t = t.replace(old, new)
        open(r + '/' + p, 'w', newline='').write(t.replace('\n', '\r\n') if '\r\n' in raw else t)
    diff = subprocess.run('git diff', shell=True, cwd=r, capture_output=True).stdout
    d = '/verif/seeded/' + ID; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff); 
    if 'HARNESS' in m:   # the demonstration is a stand-alone copy of a differential harness
        for h in ('vh.h', 'pdah.h', 'sat.h', 'rx.h'): shutil.copy('/verif/bounded/' + h, d)
        if m['HARNESS'] in ('A01', 'K01', 'R01', 'V01'): os.makedirs(d + '/ptrie', exist_ok=True); shutil.copy('/verif/bounded/standin/ptrie/ptrie_map.h', d + '/ptrie')
        shutil.copy('/verif/bounded/%s.cpp' % m['HARNESS'], d + '/demo.cpp')
    else: open(d + '/demo.cpp', 'w').write(m['DEMO'])
    srcs = m.get('SRCS', '"$I/internal/PDA.cpp" "$I/internal/Reducer.cpp" "$I/parsing/NfaParser.cpp"')
    open(d + '/demo.sh', 'w').write(DEMO_SH % ('-O1 -fsanitize=address,undefined -fno-sanitize=bool -fsanitize-trap=all -fno-sanitize-trap=signed-integer-overflow -I"$d"' if 'HARNESS' in m else m.get('FLAGS', ''), srcs, '--seed 1 --budget 25' if 'HARNESS' in m else '')); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=m['PROP'], needs=m['NEEDS'], what_it_breaks=m['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    bad = sh('ASAN_OPTIONS=detect_leaks=0 bash %s/demo.sh' % d, cwd=r)
    sh('git checkout -q -- .', cwd=r)
    good = sh('bash %s/demo.sh' % d, cwd=r)
    ok = good.returncode == 0 and bad.returncode not in (0, 9)
    print(ID, 'ok' if ok else 'BAD', 'without: %d with: %d' % (good.returncode, bad.returncode), '' if ok else (good.stdout + good.stderr)[-1500:] + bad.stderr[-800:])
    if '--tests' in sys.argv and ok:
        base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable_pass', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
        sh('git -C /repo apply %s/patch.diff' % d)
        t = sh('bash /opt/vp/test.sh %s/o.json' % w); sh('git -C /repo checkout -- .')
        o = json.load(open(w + '/o.json')); print('   tests passed %d failed %d' % (len(o['passed']), len(o['failed'])), o['failed'][:5])
    shutil.rmtree(w)
