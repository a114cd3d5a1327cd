#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--prove-only]

1. extract the functions under contract from /repo's current sources, weave the contracts of annot/*.rs into them,
   and let Verus discharge every obligation;
2. search for a concrete failing input on the real code (the replay side of the check; it decides nothing when silent).
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer (tool failure).
"""
import json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
import vpx
from plan import PLAN, TRUST

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
BUILD = os.path.join(VERIF, '.build')
HEAD = ('#![allow(unused_imports,dead_code,unused_variables,unused_mut,unused_assignments,non_snake_case,unused_parens,unused_braces,'
        'unreachable_code,non_camel_case_types,unused_must_use,unused_labels,non_upper_case_globals)]\nuse vstd::prelude::*;\n')


class Gen:
    """the generated verification file"""
    def __init__(s, units, lost=()):
        s.text, s.items, cache = HEAD, [], {}
        s.rules, s.rw = {}, []
        for u in units:
            x = vpx.Unit(os.path.join(VERIF, 'annot', u + '.rs'), REPO, cache, lost)
            s.text += '//VP-UNIT %s\n' % u + x.text
            for e in x.report:
                e['unit'] = u
                s.items.append(e)
            for k, v in x.rules.items():
                s.rules[k] = s.rules.get(k, 0) + v
            s.rw += x.rw
        s.text += '//VP-UNIT end\nfn main(){}\n'
        # line -> item
        s.lines = []
        cur, unit, n = None, None, -1
        for l in s.text.split('\n'):
            m = re.match(r'//VP-UNIT (\S+)', l)
            if m:
                unit = m.group(1)
            if l.startswith('/*VP-BEGIN '):
                n += 1
                cur = n
            s.lines.append((unit, cur))
            if l.startswith('/*VP-END*/'):
                cur = None

    def where(s, line):
        return s.lines[line - 1] if 0 < line <= len(s.lines) else (None, None)


def smoke_text(g):
    """every function body starts with a false assertion: each must be reported"""
    out, n, i = [], [], -1
    parts = re.split(r'(/\*VP-BEGIN [^\n]*\n|/\*VP-END\*/\n)', g.text)
    inside = False
    for p in parts:
        if p.startswith('/*VP-BEGIN '):
            inside, i = True, i + 1
        elif p.startswith('/*VP-END*/'):
            inside = False
        elif inside and g.items[i]['item'].split(' / ')[-1].startswith('fn ') and g.items[i]['status'] != 'lost' and 'external_body' not in p and re.search(r'\brequires\b', p):
            toks = vpx.tokenize(p)
            k, d = len(toks) - 1, 0
            while k >= 0:
                if toks[k].t == '}':
                    d += 1
                elif toks[k].t == '{':
                    d -= 1
                    if d == 0:
                        break
                k -= 1
            if k >= 0:
                while k + 1 < len(toks) and toks[k + 1].t == 'hide':
                    while toks[k].t != ';' or toks[k + 1].t == 'hide':
                        k += 1
                pos = toks[k].pos + 1
                p = p[:pos] + ' proof { assert(false); } ' + p[pos:]
                n.append(i)
        out.append(p)
    return ''.join(out), n


def verus(text, name, timeout, extra=()):
    d = os.path.join(BUILD, 'gen')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + '.rs')
    open(f, 'w').write(text)
    cmd = ['verus', f, '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '6', '--multiple-errors', '4'] + list(extra)
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        return {'cmd': ' '.join(cmd), 'timeout': True, 'diags': [], 'json': None, 'wall': time.time() - t}
    try:
        js = json.loads(p.stdout)
    except ValueError:
        js = None
    diags = []
    for l in p.stderr.split('\n'):
        try:
            x = json.loads(l)
        except ValueError:
            continue
        if x.get('level') == 'error' and x.get('spans'):
            diags.append(x)
    return {'cmd': ' '.join(cmd), 'timeout': False, 'diags': diags, 'json': js, 'rc': p.returncode, 'wall': time.time() - t, 'stderr': p.stderr}


UNDECIDED = re.compile(r'rlimit|resource limit|timed out|solver', re.I)
# what the verifier says of an obligation that it did not discharge; any other error is about the text
OBLIGATION = re.compile(r'not satisfied|failed|possible|could not prove|cannot prove|unable to prove|unreachable|overflow', re.I)


def no_verdict(r):
    """the verifier did not come to check obligations"""
    js = r['json']
    return js is None or bool(js['verification-results'].get('encountered-vir-error')) or not js.get('times-ms', {}).get('smt') or \
        any(d.get('code') for d in r['diags']) or not js['verification-results'].get('verified')


def ghost_call(g, d):
    """a failed precondition of a lemma (no code runs there)"""
    for x in d['spans']:
        if re.search(r'failed precondition', x.get('label') or '') and os.path.basename(x['file_name']) not in ('vstd.rs',):
            u, k = g.where(x['line_start'])
            if x['file_name'].startswith(os.path.join(BUILD, 'gen')) and k is None and u not in ('io', 'stubs', 'estubs'):
                return True
    return False


def failed_post(g, d, plan):
    """a failed postcondition of the kind the property consists of"""
    if not plan.get('posts') or 'postcondition' not in d['message']:
        return False
    ls = g.text.split('\n')
    for x in d['spans']:
        if re.search(r'failed this postcondition', x.get('label') or ''):
            if re.search(plan['posts'], '\n'.join(ls[x['line_start'] - 1:x['line_end']])[:4000] if x['line_end'] > x['line_start'] else ls[x['line_start'] - 1][x['column_start'] - 1:x['column_end'] - 1]):
                return True
    return False


def place(g, d):
    """the function an error is about"""
    ks = [g.where(x['line_start']) for x in d['spans']]
    loc = [k for k in ks if k[1] is not None and g.items[k[1]]['item'].split(' / ')[-1].startswith('fn ')]
    # a precondition failure has a span in the callee's contract (labelled) and the call site
    call = [g.where(x['line_start']) for x in d['spans'] if not re.search(r'failed precondition', x.get('label') or '')]
    call = [k for k in call if k[1] is not None]
    return (call or loc or ks)[0]


def successes(r):
    smt = ((r['json'] or {}).get('times-ms') or {}).get('smt') or {}
    fs = [(m['module'].split('::')[0], f) for m in smt.get('smt-run-module-times', []) for f in m.get('function-breakdown', [])]
    nm = lambda f: f['function'].split('::', 1)[1]
    return {nm(f) for _, f in fs if f['success']}, [(m, nm(f)) for m, f in fs if not f['success']]


def settle(g, r, pid):
    """The solver may give up on a valid obligation.  Functions with a failed obligation are tried again, each in a solver of its
    own and with other random seeds: an obligation that is discharged once holds."""
    r['settled'] = set()
    r['tries'] = 1
    t = time.time()
    for extra in (['-V', 'spinoff-all'], ['-V', 'spinoff-all', '--smt-option', 'smt.random_seed=7', '--rlimit', '30']):
        bad = [(m, f) for m, f in successes(r)[1] if f not in r['settled']]
        if r['json'] is None or r['timeout'] or not bad or not r['diags'] or any(d.get('code') for d in r['diags']) or time.time() - t > 150:
            break
        q = verus(g.text, pid + '_again', 150, extra + [x for m in sorted({m for m, _ in bad}) for x in ('--verify-module', m)])
        r['tries'] += 1
        if q['json'] is None or q['timeout']:
            break
        ok, left = successes(q)
        names = {f for _, f in bad}
        if not names <= ok | {f for _, f in left}:
            break
        r['settled'] |= names & ok

        def key(d):
            u, k = place(g, d)
            if k is not None:
                return k
            n = (([x for x in d['spans'] if x.get('is_primary')] or d['spans'])[0])['line_start']
            m = re.findall(r'\bfn\s+(\w+)', '\n'.join(g.text.split('\n')[:n]))
            return m[-1] if m else n
        still = {key(d) for d in q['diags']}
        r['diags'] = [d for d in r['diags'] if key(d) in still]
    return r


def prove(pid, plan):
    """returns a dict describing what the verifier decided"""
    units = plan['units']
    own = plan.get('own', [u for u in units if u != 'io'])
    items = plan.get('items')
    owned = lambda e: e['unit'] in own and (items is None or re.search(items, e['file'] + ' ' + e['item']))
    lost = set()
    res = {}
    for attempt in range(6):
        g = Gen(units, lost)
        r = verus(g.text, pid, plan.get('verus_timeout', 300))
        if no_verdict(r):
            new = set()
            for d in r['diags']:
                for sp in d['spans']:
                    u, k = g.where(sp['line_start'])
                    if k is not None and sp.get('is_primary'):
                        e = g.items[k]
                        key = (e['file'], e['item'])
                        if key not in lost and e['item'].split(' / ')[-1].startswith('fn '):
                            new.add(key)
            if new and not r['timeout']:
                lost |= new
                continue
        break
    r = settle(g, r, pid)
    res['gen'], res['run'], res['cmd'] = g, r, r['cmd']
    res['lost'] = [e for e in g.items if e['status'] == 'lost']
    res['lost_own'] = [e for e in res['lost'] if owned(e)]
    js = r['json']
    res['ok'] = False
    res['failed'], res['undecided'] = [], []
    res['obligations'] = res['discharged'] = 0
    res['functions'] = []
    res['solver_s'] = 0
    if js is None or r['timeout'] or not js.get('times-ms', {}).get('smt'):
        res['undecided'].append('the verifier gave no verdict' + (' (time limit)' if r['timeout'] else '') + ': ' + '; '.join(d['message'] for d in r['diags'][:3]))
        return res
    modunit = {}
    for u in units:
        m = re.search(r'pub mod (\w+)', open(os.path.join(VERIF, 'annot', u + '.rs')).read())
        modunit[m.group(1)] = u
    smt = js['times-ms']['smt']
    res['solver_s'] = smt.get('smt-run', 0) / 1000.0
    for m in smt.get('smt-run-module-times', []):
        u = modunit.get(m['module'].split('::')[0])
        if u not in own:
            continue
        for f in m.get('function-breakdown', []):
            res['obligations'] += 1
            res['discharged'] += bool(f['success'] or f['function'].split('::', 1)[1] in r.get('settled', ()))
            res['functions'].append(f['function'])
    same_types = all(e['status'] == 'exact' for e in g.items if not e['item'].split(' / ')[-1].startswith('fn '))
    for d in r['diags']:
        k = place(g, d)
        e = g.items[k[1]] if k[1] is not None else None
        ent = {'unit': k[0], 'item': (e['file'] + ' ' + e['item']) if e else 'lemma or glue of annot/%s.rs' % k[0],
               'status': e['status'] if e else 'glue', 'obligation': d['message'],
               'output': (d.get('rendered') or '')[:3000]}
        if UNDECIDED.search(d['message']) or d.get('code') or not OBLIGATION.search(d['message']) or no_verdict(r):
            res['undecided'].append(ent['item'] + ': ' + d['message'])
        elif same_types and (e is None or e['status'] == 'exact'):
            # its text, the contracts and the types are those of the verified tree: this is the solver, not the code
            res['undecided'].append(ent['item'] + ' (unchanged): ' + d['message'])
        elif e is not None and e.get('moved'):
            # the function was rearranged: its annotations may stand in the wrong places, so a failed obligation says nothing
            res['undecided'].append(ent['item'] + ' (rearranged: ' + e['moved'] + '): ' + d['message'])
        elif plan.get('kinds') and (e is None or not (re.search(plan['kinds'], d['message']) or failed_post(g, d, plan)) or ghost_call(g, d)):
            # an obligation that this property does not consist of; without it the argument is incomplete
            if e is None and k[0] in own or e is not None and owned(e):
                res['undecided'].append(ent['item'] + ': ' + d['message'])
        elif e is not None and owned(e) or e is None and k[0] in own:
            res['failed'].append(ent)
        else:
            # a contract this property relies on; its own property's check reports it
            res['undecided'].append(ent['item'] + ': ' + d['message'])
    res['ok'] = not res['failed'] and not res['undecided'] and not res['lost_own']
    return res


def trusted_scan(g):
    """mechanical scan for what is assumed"""
    out = []
    unit = None
    txt = re.sub(r'//[^\n]*', lambda m: m.group(0) if m.group(0).startswith('//VP-UNIT') else '', g.text)
    for m in re.finditer(r'//VP-UNIT (\S+)|assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]|#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*([^{;=]*?)(?:\(|\{|;)|\bassume\s*\(([^;]*)\)|\badmit\s*\(|external_trait_specification\]|axiom\s+fn\s+(\w+)', txt):
        if m.group(1):
            unit = m.group(1)
        elif m.group(2):
            out.append('%s: assumed contract of %s' % (unit, ' '.join(m.group(2).split())))
        elif m.group(3) is not None:
            out.append('%s: trusted (not verified) %s' % (unit, ' '.join(m.group(3).split())[-80:]))
        elif 'external_trait' in m.group(0):
            pass
        else:
            out.append('%s: %s' % (unit, m.group(0)[:80]))
    return out


def harness_build(plan):
    feats = plan.get('features', '')
    env = dict(os.environ)
    # the hook is compiled in only where private parts are called, so that no other check depends on their names
    priv = 'priv' in feats.split()
    env['CARGO_TARGET_DIR'] = plan['target'] = os.path.join(BUILD, 'target-priv' if priv else 'target')
    env['RUSTFLAGS'] = '--cfg smdiff_verif' if priv else ''
    hd = os.path.join(BUILD, 'harness')
    # a private copy: cargo may rewrite the lock file
    subprocess.run(['rm', '-rf', hd], check=True)
    subprocess.run(['cp', '-r', os.path.join(VERIF, 'harness'), hd], check=True)
    cmd = ['cargo', 'build', '--offline', '--quiet', '--features', feats]
    try:
        p = subprocess.run(cmd, cwd=hd, env=env, capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return False, 'harness build: time limit'
    return p.returncode == 0, p.stderr[-3000:]


def search(pid, plan, replay):
    ok, err = harness_build(plan)
    if ok:
        return harness_run(pid, plan, replay)
    if plan.get('features') == 'priv':
        # the private parts have other names now: what can still be run is the encoder that uses them
        alt = dict(plan, features='enc')
        ok, _ = harness_build(alt)
        if ok:
            r = harness_run('C02', alt, os.path.join(BUILD, 'replay-alt.json'))
            if r['state'] == 'ok':
                r['json']['rule'] = 'the hook does not compile with the edited code; the encoder that uses these parts was run instead: ' + r['json'].get('rule', '')
                return r
    return {'state': 'error', 'why': 'the harness does not build: ' + err[:600]}


def harness_run(pid, plan, replay, extra=()):
    budget = plan.get('budget', (25, 420))[TIER == 'thorough']
    cmd = [os.path.join(plan['target'], 'debug', 'h'), pid, '--seed', str(SEED), '--tier', TIER, '--out', replay, '--budget', str(budget)] + list(extra)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget + 150, errors='replace')
    except subprocess.TimeoutExpired:
        return {'state': 'error', 'why': 'time limit'}
    for l in p.stdout.split('\n'):
        if l.startswith('FAIL case='):
            return {'state': 'fail', 'msg': l}
    if p.returncode == 0:
        for l in reversed(p.stdout.split('\n')):
            if l.startswith('{'):
                return {'state': 'ok', 'json': json.loads(l)}
    if p.returncode < 0 or p.returncode in (101, 134, 139):
        # killed by a signal (abort, stack overflow): the code under test brought the process down
        open(replay, 'w').write(json.dumps({'property': pid, 'seed': SEED, 'tier': TIER, 'failure': 'the process died (status %d): %s' % (p.returncode, p.stderr[-500:])}) + '\n')
        return {'state': 'fail', 'msg': 'process died with status %d' % p.returncode} if p.returncode in (-6, -11, 134, 139) else {'state': 'error', 'why': 'status %d %s' % (p.returncode, p.stderr[-500:])}
    return {'state': 'error', 'why': 'status %d %s' % (p.returncode, p.stderr[-500:])}


def findings(pid):
    f = os.path.join(VERIF, 'known-findings.txt')
    return [l.strip() for l in open(f) if l.startswith('finding: property=%s ' % pid)] if os.path.exists(f) else []


def replay_main(pid, f):
    plan = PLAN[pid]
    j = json.load(open(f))
    if 'case' in j:
        global SEED, TIER
        SEED, TIER = j['seed'], j['tier']
        ok, err = harness_build(plan)
        if not ok:
            print(err)
            return 2
        r = harness_run(pid, plan, os.path.join(BUILD, 'replay-out.json'), ['--only', str(j['case'])])
        print(json.dumps(r))
        return 1 if r['state'] == 'fail' else 0 if r['state'] == 'ok' else 2
    r = prove(pid, plan)
    for x in r['failed']:
        print(x['item'], '-', x['obligation'])
        print(x['output'])
    return 1 if r['failed'] else 0


def main():
    pid = sys.argv[1]
    plan = PLAN[pid]
    os.makedirs(BUILD, exist_ok=True)
    if '--replay' in sys.argv:
        return replay_main(pid, sys.argv[sys.argv.index('--replay') + 1])
    t0 = time.time()
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, '%s.replay.json' % pid)
    if os.path.exists(replay):
        os.remove(replay)
    P, H, S = {}, {}, {}

    def do_prove():
        if not plan.get('units'):
            return
        try:
            P.update(prove(pid, plan))
        except Exception as e:
            P.update({'ok': False, 'failed': [], 'undecided': ['extraction failed: %r' % e], 'lost': [], 'lost_own': [], 'obligations': 0, 'discharged': 0, 'functions': [], 'solver_s': 0, 'cmd': '', 'gen': None})
            return
        if P['gen'] is None or P['failed'] or P['undecided']:
            return
        text, n = smoke_text(P['gen'])
        r = verus(text, pid + '_smoke', 300)
        if r['json'] is None or r['timeout']:
            S.update({'ran': False})
            return
        ls = text.split('\n')
        begin, cur, at = -1, None, []
        for l in ls:
            if l.startswith('/*VP-BEGIN '):
                begin += 1
                cur = begin
            at.append(cur)
            if l.startswith('/*VP-END*/'):
                cur = None
        hit = {at[sp['line_start'] - 1] for d in r['diags'] for sp in d['spans'] if sp['line_start'] <= len(at)}
        S.update({'ran': True, 'functions': len(n), 'not_reported': [P['gen'].items[i]['item'] for i in n if i not in hit]})

    th = threading.Thread(target=do_prove)
    th.start()
    if '--prove-only' not in sys.argv:
        H.update(search(pid, plan, replay))
    th.join()
    if '--prove-only' in sys.argv:
        print(json.dumps({k: P.get(k) for k in ('ok', 'failed', 'undecided', 'obligations', 'discharged', 'solver_s')}, indent=1))
        print([(e['file'], e['item'], e.get('why')) for e in P['lost']])
        print(S)
        print('merged:', [e['item'] for e in P['gen'].items if e['status'] == 'merged'] if P['gen'] else None)
        return 0 if P['ok'] else 1

    vacuous = S.get('not_reported') or []
    hj = H.get('json') or {}
    proof = bool(plan.get('units'))
    cov = {
        'evaluations': hj.get('evaluations', 0), 'distinct_nontrivial': hj.get('distinct_nontrivial', 0),
        'rule': hj.get('rule', ''), 'samples': hj.get('samples', []) or ['none'],
    }
    assumptions = [TRUST['common']] + plan.get('assume', [])
    if proof:
        g = P['gen']
        under = [e for e in g.items if e['unit'] in plan.get('own', [u for u in plan['units'] if u != 'io'])] if g else []
        cov.update({
            'obligations': P['obligations'], 'discharged': P['discharged'], 'checker_cmd': P['cmd'],
            'trusted_base': ['Verus 0.2026.09.13 and its bundled Z3', 'the extraction and weaving of tools/vpx.py (token level, rules below)'] + (trusted_scan(g) if g else []),
            'back_end': 'Verus (Z3)', 'solver_s': P['solver_s'],
            'functions_under_contract': sorted({e['file'] + ' ' + e['item'] for e in under if e['item'].split(' / ')[-1].startswith('fn ') and e['status'] != 'lost'}),
            'anchors_lost': [e['file'] + ' ' + e['item'] + ': ' + str(e.get('why')) for e in P['lost']],
            'anchors_edited': [e['file'] + ' ' + e['item'] for e in under if e['status'] == 'merged'],
            'undecided': P['undecided'],
            'extraction_rules': g.rules if g else {}, 'rewrites': sorted(set(map(str, g.rw))) if g else [],
            'vacuity_check': S, 'not_proved': plan.get('not_proved', []),
            'bounded_search': 'the concrete search (evaluations, rule, samples) looks for a failing input on the real code; it is bounded and proves nothing',
        })
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': plan['level'], 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': 0}
    if H['state'] == 'error':
        cov['search_error'] = H.get('why', '')

    def done(rc):
        ev['wall_s'] = round(time.time() - t0, 2)
        ev['violations'] = 1 if rc == 1 else 0
        json.dump(ev, open(os.path.join(ev_dir, pid + '.json'), 'w'), indent=1)
        return rc

    for l in findings(pid):
        print('KNOWN-FINDING: ' + l[len('finding: '):])
    if H['state'] == 'fail':
        print(H['msg'])
        for x in (P.get('failed') or [])[:5]:
            print('failed obligation:', x['item'], '-', x['obligation'])
        if P.get('failed'):
            try:
                j = json.load(open(replay))
                j['failed_obligations'] = [{k: x[k] for k in ('item', 'obligation')} for x in P['failed']]
                open(replay, 'w').write(json.dumps(j) + '\n')
            except (ValueError, OSError):
                pass
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return done(1)
    if proof and P['failed']:
        json.dump({'property': pid, 'seed': SEED, 'tier': TIER, 'failed_obligations': P['failed'], 'verifier': P['cmd'],
                   'note': 'the verifier gives no counterexample; the concrete search over %s inputs found none' % cov['evaluations'],
                   'replay_cmd': 'python3 /verif/tools/check.py %s --replay <this file>' % pid}, open(replay, 'w'), indent=1)
        for x in P['failed'][:5]:
            print('failed obligation:', x['item'], '-', x['obligation'])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        return done(1)
    if vacuous:
        print('vacuity check failed: a false assertion is accepted in', vacuous)
        done(2)
        return 2
    if proof and P['obligations'] == 0 and not P['undecided'] and not P['lost']:
        print('no obligations were generated')
        done(2)
        return 2
    if H['state'] == 'error' and not (proof and P['ok']):
        print('no answer:', H.get('why'), P.get('undecided'))
        done(2)
        return 2
    if proof:
        n = len(P['lost_own'])
        print('%s: %d/%d obligations discharged%s; %d concrete cases, no failure' % (pid, P['discharged'], P['obligations'],
              (', %d functions changed beyond the reach of the contracts' % n) if n or P['undecided'] else '', cov['evaluations']))
    else:
        print('%s: %d concrete cases, no failure' % (pid, cov['evaluations']))
    return done(0)


if __name__ == '__main__':
    sys.exit(main())
