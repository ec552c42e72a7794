"""Extract a unit from /repo, run the verifier, report what was discharged."""
import os, sys, re, time, importlib, json, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'cpp2verus'))
from cppast import AST, ExtractError
import unit as U

_asts = {}


def astcache(tu):
    if tu not in _asts: _asts[tu] = AST(os.path.join(HERE, 'tu', tu))
    return _asts[tu]


def errors(stderr):
    """(message, line numbers, text) of every verifier diagnostic"""
    out = []
    for m in re.finditer(r'^(error|note)(?:\[\w+\])?: (.*?)(?=^(?:error|note|warning)(?:\[\w+\])?: |\Z)', stderr, re.S | re.M):
        lines = [int(x) for x in re.findall(r'-->\s+\S+?\.rs:(\d+):', m.group(2))]
        # secondary locations
        lines += [int(x) for x in re.findall(r'^\s*(\d+)\s*\|', m.group(2), re.M)]
        out.append((m.group(1), m.group(2).split('\n')[0], lines, m.group(0)))
    return out


def run_unit(name, repo, out, tier):
    t0 = time.time()
    r = dict(unit=name, status='undecided', cmd='verus %s.rs --rlimit' % name)
    try:
        mod = importlib.import_module('proofs.units.' + name)
        u = mod.unit(astcache)
        text = u.generate()
    except ExtractError as e:
        r['note'] = 'extraction: %s' % e; r['wall_s'] = round(time.time() - t0, 2); return r
    except Exception:
        r['note'] = 'extraction failed: ' + traceback.format_exc()[-1500:]; r['wall_s'] = round(time.time() - t0, 2); return r
    path = os.path.join(out, name + '.rs')
    open(path, 'w').write(text)
    r['text'] = path
    rl = getattr(mod, 'RLIMIT', 60)
    j, so, se, dt = U.run_verus(path, rl)
    r['cmd'] = 'verus %s.rs --rlimit %d' % (name, rl)
    r['output'] = se[-30000:]
    r['functions'] = sorted(u.obl)
    r['lemmas'] = re.findall(r'^\s*(?:pub )?(?:broadcast )?proof fn (\w+)', u.lemmas + '\n' + u.spec, re.M)
    r['trusted'] = sorted(u.stl.used) + ['contract of %s (proved in unit %s)' % (c['name'], c['proved_in']) for c in u.contracts if c.get('proved_in')] + list(getattr(mod, 'TRUSTED', []))
    r['assumptions'] = list(getattr(mod, 'ASSUMPTIONS', []))
    n = sum(v for o in u.obl.values() for v in o.values()) + len(r['lemmas'])
    r['obligations'] = n
    if j is None or 'verification-results' not in j:
        r['note'] = 'the verifier gave no result: ' + se[-800:]; r['wall_s'] = round(time.time() - t0, 2); return r
    vr = j['verification-results']
    r['verified_items'] = vr.get('verified', 0)
    try: r['solver_s'] = round(j['times-ms']['smt']['total'] / 1000.0, 2)
    except Exception: r['solver_s'] = 0
    r['wall_s'] = round(time.time() - t0, 2)
    if vr.get('encountered-vir-error') or (vr.get('errors', 0) == 0 and not vr.get('success')):
        r['note'] = 'annotations do not fit the extracted text: ' + se[:1500]; return r
    if vr.get('errors', 0) == 0:
        if vr.get('verified', 0) < len(r['functions']):
            r['note'] = 'fewer verified items than functions'; return r
        r['status'] = 'verified'; r['discharged'] = n
        if tier == 'thorough' or os.environ.get('PROBE'): probe(mod, u, r, out, name, rl)
        return r
    tl = text.split('\n')
    lem = {}
    for k, l in enumerate(tl, 1):
        m = re.match(r'\s*(?:pub )?(?:broadcast )?proof fn (\w+)', l)
        if m: lem[k] = m.group(1)

    def failing(se):
        """item (function or lemma) -> descriptions of the obligations that were not discharged; '!rlimit' for resource limits"""
        bad = {}
        for kind, msg, lines, full in errors(se):
            if kind != 'error' or msg.startswith('aborting'): continue
            fn = next((f for f, (a, b) in u.fnlines.items() if any(a <= l <= b for l in lines[:1])), None) or next((f for f, (a, b) in u.fnlines.items() if any(a <= l <= b for l in lines)), None)
            if fn is None: fn = '(lemma) ' + next((lem[k] for k in sorted(lem, reverse=True) if lines and k <= lines[0]), '?')
            rlh = 'resource limit' in full or 'rlimit' in full.lower()
            cl = []
            for l in lines:
                if 0 < l <= len(tl) and ('//' in tl[l - 1] or 'assert' in tl[l - 1]): cl.append(tl[l - 1].strip())
            bad.setdefault(fn, []).append('!rlimit' if rlh else '%s: %s%s' % (fn, msg, ''.join('\n      ' + c for c in dict.fromkeys(cl))))
        return bad
    bad = failing(se)
    # each item is verified on its own: one that any attempt accepts is proved. A further attempt isolates every item in a
    # fresh solver, another one changes the solver's seed.
    extra_s = 0.0; r['attempts'] = 1
    for ex in (['-V', 'spinoff-all'], ['-V', 'spinoff-all', '--smt-option', 'smt.random_seed=7']):
        if not bad or time.time() - t0 > 300: break
        j2, so2, se2, dt2 = U.run_verus(path, rl, ex, timeout=300)
        if j2 is None or 'verification-results' not in j2: break
        r['attempts'] += 1
        try: extra_s += j2['times-ms']['smt']['total'] / 1000.0
        except Exception: pass
        b2 = failing(se2) if j2['verification-results'].get('errors', 0) else {}
        bad = {f: v + b2[f] if '!rlimit' in v else v for f, v in bad.items() if f in b2}
    r['solver_s'] = round(r['solver_s'] + extra_s, 2); r['wall_s'] = round(time.time() - t0, 2)
    if not bad:
        r['status'] = 'verified'; r['discharged'] = n; r['output'] = ''
        if tier == 'thorough' or os.environ.get('PROBE'): probe(mod, u, r, out, name, rl)
        return r
    fails = [x for v in bad.values() for x in v if x != '!rlimit']
    r['failures'] = '\n'.join(fails)
    r['discharged'] = max(0, n - len(fails))
    if fails and not all(f.startswith('(lemma)') for f in fails):
        r['status'] = 'failed'
    else:
        r['note'] = 'resource limit or lemma failure: ' + se[:1500]
    return r


def probe(mod, u, r, out, name, rl):
    """reachability: with a false assertion before every return, every function must fail somewhere"""
    u2 = mod.unit(astcache); text = u2.generate(probe=True)
    path = os.path.join(out, name + '_probe.rs'); open(path, 'w').write(text)
    j, so, se, dt = U.run_verus(path, rl)
    hit = set()
    for kind, msg, lines, full in errors(se):
        if kind == 'error':
            for f, (a, b) in u2.fnlines.items():
                if any(a <= l <= b for l in lines): hit.add(f)
    dead = [f for f in u2.fnlines if f not in hit and f not in getattr(mod, 'NEVER_RETURNS', ())]
    r['vacuity'] = len(u2.fnlines) - len(dead)
    if dead: r['status'] = 'undecided'; r['note'] = 'no return of these functions is reachable under their contract: ' + ', '.join(dead)


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('unit'); ap.add_argument('--out', default='/tmp/w'); a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(HERE))
    x = run_unit(a.unit, '/repo', a.out, 'quick')
    o = x.pop('output', '')
    if x['status'] != 'verified': print(o[:int(os.environ.get('N', '5000'))])
    for k in ('functions', 'trusted', 'lemmas'): x[k] = len(x.get(k, []))
    x['note'] = x.get('note', '')[:600]
    print(json.dumps(x, indent=1))
