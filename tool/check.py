#!/usr/bin/env python3
"""Decides one property on /repo's current tree:  check.py ID [--tier quick|thorough]"""
import argparse, json, os, signal, sys, time, traceback, multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import prog as P, run as R, evalt as ev
from sa.core import TRUE
import rules

VERIF = P.VERIF
TOTAL = {'quick': 560, 'thorough': 800}
EACH = {'quick': 100, 'thorough': 300}


def plan():
    with open(os.path.join(HERE, 'plan.json')) as f:
        return json.load(f)


def explanation(prop, pl, rs, rl):
    t = []
    if rs:
        t.append('The %d obligation functions listed (tool/drivers, the property\'s own file and those that carry %s labels) use the '
                 'library through its public interface on unknown inputs. The clang syntax trees of the library functions they '
                 'reach (listed) are evaluated abstractly: scalars are terms over the unknowns, containers are symbolic sequences, '
                 'loops over unknown counts are summarised, branches on unknowns fork or merge under their conditions. A claim '
                 'compares the term computed with the term the property states: ok means the same normal form under the facts of '
                 'the path, so for every input of the obligation; agree means no proof but no difference when both terms are '
                 'evaluated at the sample points; differ, an access out of range or an unsupported state is reported with the '
                 'valuation and the construct.' % (len(rs), prop))
    for rep in rl:
        t.append('Rule %s, over the syntax trees of all library functions in the units: %s' % (rep['rule'], rep.get('summary', '')))
    return ' '.join(t)


def known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                d = {}
                head, _, txt = l[7:].partition(' :: ')
                for w in head.split():
                    k, _, v = w.partition('=')
                    d[k] = v
                d['text'] = txt
                out.append(d)
    return out


def route(name, label):
    h, sep, rest = label.partition(':')
    if sep and len(h) == 3:
        return h, rest
    return name.split('::')[0], label


def where(f, l):
    f = str(f)
    if f.startswith(P.REPO + '/'):
        f = f[len(P.REPO) + 1:]
    elif f.startswith(VERIF + '/'):
        f = f[len(VERIF) + 1:]
    return '%s:%s' % (f, l)


class Ring(Exception):
    pass


def ring(*a):
    raise TimeoutError()


def work(arg):
    """one obligation; plain data back"""
    name, prop, limit, seed = arg
    t0 = time.time()
    signal.signal(signal.SIGALRM, ring)
    signal.alarm(limit)
    r = {'name': name, 'claims': [], 'events': [], 'throws': [], 'error': None, 'fns': [], 'sites': 0, 'unsup': []}
    try:
        try:
            ob = R.run_one(PROG, name, FN[name])
        finally:
            signal.alarm(0)
        r['error'] = ob.error
        r['state'] = sorted(ob.stateful.items()) if name.split('::')[0] == prop else []
        r['unsup'] = [str(u)[:200] for u in ob.unsupported][:10]
        r['sites'] = ob.sites
        for f in ob.visited:
            if str(f[1]).startswith(P.REPO + '/'):
                r['fns'].append('%s (%s)' % (f[0], where(f[1], f[2])))
        own = name.split('::')[0]
        # time left for the judgement
        signal.alarm(limit)
        for cl in ob.claims:
            p, lab = route(name, cl.label)
            if p != prop:
                # the shape and the dimension of a result are part of the result
                if own != prop or p not in ('C02', 'F11'):
                    continue
                lab = cl.label
            st, x = R.judge(cl, seed)
            d = {'status': st, 'label': lab, 'line': cl.line, 'kind': cl.kind}
            if st == 'differ':
                d['witness'] = x.text()
                d['got'] = ev.fmt(x.got)
                d['want'] = ev.fmt(x.want)
                d['got_term'] = str(cl.facts.simp(cl.got))[:2000]
                d['want_term'] = str(cl.facts.simp(cl.want))[:2000]
            elif st == 'agree':
                d['points'] = x
            r['claims'].append(d)
        if own == prop:
            for e in ob.events:
                st, x = R.judge_event(e, seed)
                d = {'status': st, 'kind': e.kind, 'at': where(e.file, e.line), 'fn': str(e.fn), 'info': str(e.info)[:300]}
                if st == 'bad':
                    d['witness'] = x.text()
                r['events'].append(d)
            for s, t in ob.escaped:
                w = ev.reachable(s.facts, TRUE)
                d = {'status': 'bad' if w else 'undecided', 'type': str(t)}
                if w:
                    d['witness'] = w.text()
                    if s.lost if hasattr(s, 'lost') else False:
                        d['status'] = 'undecided'
                r['throws'].append(d)
    except TimeoutError:
        r['error'] = 'time limit'
    except Exception:
        r['error'] = 'internal: ' + traceback.format_exc()[-600:]
    finally:
        signal.alarm(0)
    r['time'] = round(time.time() - t0, 2)
    return r


def child(q, arg):
    try:
        q.send(work(arg))
    except BaseException as x:
        try:
            q.send({'name': arg[0], 'claims': [], 'events': [], 'throws': [], 'error': 'died: %r' % (x,),
                    'fns': [], 'sites': 0, 'unsup': [], 'time': 0})
        except BaseException:
            pass
    finally:
        q.close()
        os._exit(0)


def run_all(names, prop, tier, seed, deadline):
    """own process per obligation, at most 8 at a time, killed after the limit"""
    ctx = mp.get_context('fork')
    todo = list(names)
    live = []
    res = []
    each = EACH[tier]
    while todo or live:
        while todo and len(live) < 8 and time.time() < deadline:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            limit = max(5, min(each, int(deadline - time.time())))
            p = ctx.Process(target=child, args=(b, (n, prop, limit, seed)))
            p.start()
            b.close()
            live.append((n, p, a, time.time() + 2 * limit + 10))
        if todo and time.time() >= deadline and not live:
            for n in todo:
                res.append({'name': n, 'claims': [], 'events': [], 'throws': [], 'error': 'not started in time',
                            'fns': [], 'sites': 0, 'unsup': [], 'time': 0})
            break
        mp.connection.wait([a for n, p, a, t in live], timeout=0.5)
        rest = []
        for n, p, a, t in live:
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = {'name': n, 'claims': [], 'events': [], 'throws': [], 'error': 'died', 'fns': [],
                           'sites': 0, 'unsup': [], 'time': 0}
            elif time.time() > t or time.time() > deadline + 60:
                got = {'name': n, 'claims': [], 'events': [], 'throws': [], 'error': 'time limit', 'fns': [],
                       'sites': 0, 'unsup': [], 'time': 0}
            if got is None:
                rest.append((n, p, a, t))
            else:
                res.append(got)
                if p.is_alive():
                    p.kill()
                p.join()
                a.close()
        live = rest
    return res


def violations(prop, rs):
    out = []
    for r in rs:
        for d in r['claims']:
            if d['status'] == 'differ':
                out.append({'id': '%s#%s' % (r['name'], d['label']), 'obligation': r['name'], 'what': d['label'],
                            'at': 'tool/drivers/%s.cpp:%s' % (r['name'].split('::')[0], d['line']), 'detail': d,
                            'path': r['fns']})
        for d in r['events']:
            if d['status'] == 'bad':
                out.append({'id': '%s#%s' % (r['name'], d['kind']), 'obligation': r['name'], 'what': d['kind'],
                            'at': d['at'], 'detail': d, 'path': r['fns']})
        for d in r['throws']:
            if d['status'] == 'bad':
                out.append({'id': '%s#throws' % r['name'], 'obligation': r['name'],
                            'what': 'throws ' + d['type'], 'at': r['name'], 'detail': d, 'path': r['fns']})
        # a value kept between calls that cannot be shown not to matter
        if r.get('state') and (r['error'] or any(d['status'] == 'undecided' for d in r['claims'])):
            for var, how in r['state']:
                out.append({'id': '%s#state %s' % (r['name'], var), 'obligation': r['name'],
                            'what': 'the result depends on what earlier calls left in %s' % var,
                            'at': '%s: %s' % (var, how), 'detail': {'status': 'state', 'variable': var, 'use': how}, 'path': r['fns']})
    return out


def main():
    global PROG, FN
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    pl = plan()[prop]
    units = pl.get('units', [prop])
    bad = []          # violations
    rs = []
    errors = []
    cov = {}
    drv = [os.path.join(P.DRV, u + '.cpp') for u in units]
    # units whose instantiations the rules look at
    drv += [os.path.join(P.DRV, u + '.cpp') for u in pl.get('rule_units', []) if u not in units]
    drv = [d for d in drv if os.path.exists(d)]
    exported = []
    if drv or pl.get('rules'):
        files = P.sources() + drv
        exported, failed = P.export_some(files)
        for src, diag in failed:
            own = os.path.basename(src)[:-4] == prop
            if src.startswith(P.REPO):
                errors.append('%s does not compile: %s' % (src, diag[-600:]))
            elif own:
                # the driver only uses the documented interface
                bad.append({'id': '%s#compiles' % prop, 'obligation': prop, 'what': 'cannot be instantiated',
                            'at': (P.first_error(diag) or src), 'detail': {'diagnostics': diag[-3000:]}, 'path': []})
            else:
                errors.append('%s does not compile' % src)
        if errors and any(e.startswith(P.REPO) for e in errors):
            print('ERROR ' + errors[0])
            return 2
        PROG = P.Program(exported)
    if drv and exported:
        FN = dict(R.obligations(PROG))
        names = []
        for n in FN:
            u = n.split('::')[0]
            if n.split('::')[-1].startswith('deep_') and tier != 'thorough':
                continue
            if u == prop or u in units:
                if u != prop and pl.get('only') and not any(o in n for o in pl['only']):
                    continue
                names.append(n)
        # own obligations first
        names.sort(key=lambda n: n.split('::')[0] != prop)
        rs = run_all(names, prop, tier, seed, t0 + TOTAL[tier])
        bad += violations(prop, rs)
        if not bad and not pl.get('rules') and not any(d['status'] in ('ok', 'agree') for r in rs for d in r['claims']):
            errors.append('nothing could be decided')
    rl = []
    for rule in pl.get('rules', []):
        rep = rules.RULES[rule](PROG, tier)
        rl.append(rep)
        for v in rep['violations']:
            bad.append({'id': '%s#%s' % (rule, v['key']), 'obligation': rule, 'what': v['what'], 'at': v['at'],
                        'detail': v, 'path': v.get('path', [])})
        if rep.get('instances', 1) == 0:
            errors.append('rule %s applied to nothing' % rule)
    # count
    stat = {}
    for r in rs:
        for d in r['claims']:
            stat[d['status']] = stat.get(d['status'], 0) + 1
    fns = sorted(set(f for r in rs for f in r['fns']))
    kf = known()
    fresh, seen = [], []
    for v in bad:
        k = next((k for k in kf if k.get('property') == prop and k.get('id') == v['id']), None)
        if k is not None:
            if k not in seen:
                seen.append(k)
        else:
            fresh.append(v)
    cov['explanation'] = explanation(prop, pl, rs, rl)
    cov['obligation_functions'] = len(rs)
    cov['claims'] = sum(stat.values())
    cov['claims_proved_equal'] = stat.get('ok', 0)
    cov['claims_agreeing_at_sample_points'] = stat.get('agree', 0)
    cov['claims_undecided'] = stat.get('undecided', 0)
    cov['claims_different'] = stat.get('differ', 0)
    cov['calls_interpreted'] = sum(r['sites'] for r in rs)
    cov['library_functions_analysed'] = len(fns)
    cov['functions'] = fns[:400]
    cov['unproved_hazards'] = sum(1 for r in rs for e in r['events'] if e['status'] != 'bad')
    cov['not_finished'] = [{'obligation': r['name'], 'why': r['error'][:300]} for r in rs if r['error']]
    cov['obligations'] = [{'name': r['name'], 'seconds': r['time'],
                           'claims': {s: sum(1 for d in r['claims'] if d['status'] == s) for s in set(d['status'] for d in r['claims'])}}
                          for r in rs]
    cov['rules'] = [{k: v for k, v in rep.items() if k != 'violations'} for rep in rl]
    evdir = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, prop + '.violation.json')
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': pl.get('level', 'other'), 'coverage': cov,
           'assumptions': plan().get('assumptions', []) + pl.get('assumptions', []),
           'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(evd, f, indent=1)
    print('%s: %d obligations, %d claims %s, %d library functions, %d rules, %.1fs' % (
        prop, len(rs), sum(stat.values()), stat, len(fns), len(rl), time.time() - t0))
    for r in rs:
        if r['error']:
            print('  not finished: %s (%s)' % (r['name'], r['error'].strip().splitlines()[-1][:160]))
    for rep in rl:
        print('  rule %s: %s' % (rep['rule'], rep.get('summary', '')))
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    if fresh:
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'violations': fresh}, f, indent=1)
        for v in fresh[:12]:
            d = v['detail']
            print('  %s at %s' % (v['id'], v['at']))
            if 'witness' in d:
                print('      for %s' % d['witness'][:400])
            if 'got' in d:
                print('      gives %s, expected %s' % (str(d['got'])[:200], str(d['want'])[:200]))
            if v['detail'].get('what'):
                print('      %s' % v['detail']['what'][:300])
            if 'diagnostics' in d:
                print('      ' + d['diagnostics'][:600])
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(replay, VERIF)))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    if errors:
        for e in errors:
            print('ERROR ' + e[:600])
        return 2
    return 0


if __name__ == '__main__':
    import multiprocessing.connection
    sys.exit(main())
