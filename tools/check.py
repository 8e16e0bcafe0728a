#!/usr/bin/env python3
"""Decides one property: symbolic execution of the current sources of /repo, replay of every counterexample, evidence."""
import argparse, json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild as vb
from props import PROPS

T0 = time.time()


def demangle(names):
    try:
        return subprocess.run(['c++filt', '-p'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')[:len(names)]
    except OSError:
        return names


def write_replay(path, v):
    with open(path, 'w') as f:
        for n, w, h in v['model']:
            f.write('%s %s\n' % (n, h))


def run_native(exe, entry, replay, timeout, env=None):
    e = dict(os.environ, VS_REPLAY=replay, ASAN_OPTIONS='exitcode=99:detect_leaks=0:max_allocation_size_mb=300:allocator_may_return_null=1:print_legend=0:handle_abort=0', UBSAN_OPTIONS='print_stacktrace=0')
    e.update(env or {})
    try:
        p = subprocess.run([exe, entry], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    out = p.stdout[:20000].decode('latin1')
    return p.returncode, out


def confirms(v, rc, out):
    if rc == 'timeout':
        return v['kind'] in ('hang', 'deadlock')
    return rc in (10, 11, 12, 99) or (isinstance(rc, int) and rc < 0) or rc == 134


def replay(run, v, path, defs):
    """Runs the counterexample against the compiled code. Returns a description if it reproduces."""
    write_replay(path, v)
    harness, entry = run['file'], run['entry']
    tmo = 4 if v['kind'] in ('hang', 'deadlock') else 30
    tries = []
    if v['kind'] != 'memory':
        exe = vb.native(harness, run['mods'], defs, asan=False)
        for fill in (None, '0', '170', '255'):
            rc, out = run_native(exe, entry, path, tmo, {'VS_FILL': fill} if fill else {})
            tries.append((fill, rc))
            if confirms(v, rc, out):
                return 'compiled code, exit %s: %s' % (rc, out.strip().split('\n')[-1][:200])
            if not v['internal']:
                break
    exe = vb.native(harness, run['mods'], defs, asan=True)
    for fill in ('0', '190', '255') if v['internal'] else ('190',):
        rc, out = run_native(exe, entry, path, 120 if tmo > 4 else 20, {'ASAN_OPTIONS': 'exitcode=99:detect_leaks=0:max_allocation_size_mb=300:allocator_may_return_null=1:print_legend=0:max_malloc_fill_size=1000000:malloc_fill_byte=' + fill})
        if confirms(v, rc, out):
            m = re.search(r'(AddressSanitizer|ASSERT|ABORT)[^\n]*', out)
            return 'sanitized build, exit %s: %s' % (rc, m.group(0)[:200] if m else '')
    if run.get('threads') and v['kind'] in ('race', 'deadlock', 'assert', 'hang', 'memory', 'abort'):
        # schedules cannot be forced on the host: the counterexample is the deterministic re-execution of the bitcode under the stated schedule
        return 'bitcode execution under the recorded schedule (schedules cannot be imposed on the compiled code)'
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = PROPS[a.prop]
    thorough = a.tier == 'thorough'
    defs = ['VS_THOROUGH=1'] if thorough else []
    known = [k for k in json.load(open(vb.VERIF + '/known_findings.json')).get('known', []) if k['property'] == a.prop]
    evdir = os.path.join(vb.VERIF, 'evidence')
    os.makedirs(evdir + '/replay', exist_ok=True)
    eng = vb.engine()
    tot = dict(paths=0, pathsCut=0, steps=0, asserts=0, assertQueries=0, boundsChecks=0, queries=0, cacheHits=0, modelHits=0, sat=0, unsat=0, unknown=0, schedPoints=0)
    secs = 0.0
    funcs, rows, samples, found, unconf, knownhit, vac, validated, disagree = set(), [], [], [], [], [], [], 0, []
    incomplete = False
    budget = 780 if thorough else 400
    for i, run in enumerate(prop['runs']):
        if a.only and run['entry'] != a.only:
            continue
        if thorough and run.get('quick_only'):
            continue
        rdefs = defs + list(run.get('defs', []))
        bc = vb.bc_module(run['file'], run['mods'], rdefs, '-t' if thorough else '')
        limit = run['time'][1 if thorough else 0]
        left = budget - (time.time() - T0)
        later = sum(min(r['time'][1 if thorough else 0], 20) for r in prop['runs'][i + 1:])
        limit = int(max(10, min(limit, left - later - 20)))
        outp = os.path.join(vb.BUILD, 'out-%s-%s-%d.json' % (a.prop, run['entry'], os.getpid()))
        cmd = [eng, bc, '--entry', run['entry'], '--jobs', '8', '--time', str(limit), '--out', outp, '--rss', '2200', '--solver-ms', '20000' if thorough else '10000'] + list(run.get('opts', [])) + list(run.get('topts' if thorough else 'qopts', []))
        p = subprocess.run(cmd, capture_output=True, text=True)
        if a.v:
            sys.stderr.write(p.stderr[-3000:])
        if p.returncode or not os.path.exists(outp):
            print('%s: engine failed on %s (exit %d): %s' % (a.prop, run['entry'], p.returncode, p.stderr[-1500:]))
            sys.exit(2)
        r = json.load(open(outp))
        os.remove(outp)
        for k in tot:
            tot[k] += r[k]
        secs += r['solverSeconds']
        funcs.update(r['functions'])
        incomplete |= bool(r['inconclusive'])
        live = [l for l in r['unreached'] if not l.startswith('maybe:')]
        if live:
            vac.append((run['entry'], live, bool(r['inconclusive'])))
        rows.append(dict(entry=run['entry'], harness='harness/' + run['file'], bounds=run['bounds'][1 if thorough and isinstance(run['bounds'], (list, tuple)) else 0] if isinstance(run['bounds'], (list, tuple)) else run['bounds'],
                         paths=r['paths'], paths_outside_assumptions=r['pathsCut'], instructions=r['steps'], assertions=r['asserts'], queries=r['queries'], answered_from_cache=r['cacheHits'] + r['modelHits'], sat=r['sat'], unsat=r['unsat'], unknown=r['unknown'],
                         solver_s=round(r['solverSeconds'], 2), longest_query_s=round(r['maxQuerySeconds'], 2), wall_s=round(r['wall'], 1), schedule_points=r['schedPoints'], reached=r['reached'], not_explored=r['inconclusive']))
        # counterexamples
        for n, v in enumerate(sorted(r['violations'], key=lambda v: v['internal'])):
            desc = '[%s] %s' % (v['kind'], v['msg'])
            hit = [k for k in known if k['entry'] == run['entry'] and k['match'] in desc]
            rp = os.path.join(evdir, 'replay', '%s-%s-%d.txt' % (a.prop, run['entry'], n))
            if hit:
                knownhit.append((hit[0], desc))
                continue
            if len(found) >= 4 or len(unconf) >= 8 or time.time() - T0 > budget + 60:
                continue
            how = replay(run, v, rp, rdefs)
            d = dict(entry=run['entry'], harness=run['file'], what=desc, at=' < '.join(demangle(v['stack'].split(' < ')))[:1500], replay=rp, confirmed=how)
            if how:
                with open(rp, 'a') as f:
                    f.write('\n; property %s, entry %s: %s\n; %s\n; at %s\n' % (a.prop, run['entry'], desc, how, d['at']))
                found.append(d)
            else:
                unconf.append(d)
        # explored inputs against the compiled code
        if r['samples'] and not run.get('novalidate'):
            take = r['samples'][::max(1, len(r['samples']) // (24 if thorough else 8))]
            exe = vb.native(run['file'], run['mods'], rdefs, asan=False)
            for s in take:
                rp = os.path.join(vb.BUILD, 'sample-%s-%d.txt' % (a.prop, os.getpid()))
                write_replay(rp, s)
                rc, out = run_native(exe, run['entry'], rp, 60, {'VS_TRACE': '1'})
                labels = [l[6:] for l in out.split('\n') if l.startswith('REACH ')]
                want = s['msg'].split('\n')[:-1]
                ok = rc == 0 and 'OK' in out.split('\n')[-2:][0] and (labels == want or run.get('threads'))
                if ok:
                    validated += 1
                else:
                    disagree.append(dict(entry=run['entry'], exit=rc, engine=want, compiled=labels, tail=out[-200:]))
                os.remove(rp)
            samples += [dict(entry=run['entry'], inputs={n: h for n, w, h in s['model'] if not n.startswith('uninit')}, reached=s['msg'].split('\n')[:-1]) for s in take[:2]]
    # every path was explored and none gets where the harness goes when the code works: an outcome the property promises has become impossible
    for entry, labels, inc in vac:
        if not inc and not any(d['entry'] == entry for d in found + unconf):
            rp = os.path.join(evdir, 'replay', '%s-%s-never.txt' % (a.prop, entry))
            with open(rp, 'w') as f:
                f.write('; property %s, entry %s: no input and no choice within the bounds reaches: %s\n' % (a.prop, entry, ', '.join(labels)))
            found.append(dict(entry=entry, harness=next(r['file'] for r in prop['runs'] if r['entry'] == entry), what='[never] no execution reaches: ' + ', '.join(labels), at='', replay=rp, confirmed='every path explored'))
    names = sorted(set(demangle(sorted(funcs))))
    vrsf = sorted(set(re.sub(r'\(anonymous namespace\)::', '', n) for n in names if n.startswith('vrs::')))
    ev = dict(property=a.prop, tier='thorough' if thorough else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(states=tot['paths'] - tot['pathsCut'], transitions=tot['steps'], traces_validated_against_impl=validated, samples=samples[:12],
                            explanation='Bounded symbolic execution of the LLVM bitcode of the current sources: states are execution paths completed (each stands for every input satisfying its path condition), transitions are the instructions executed on them; a path forks on every condition whose two outcomes the solver finds satisfiable; traces_validated are inputs of explored paths re-run on the compiled code with the same outcome.',
                            exhaustive=not incomplete, runs=rows, functions_of_the_library_encoded=len(vrsf), functions=vrsf[:400], assertions_evaluated=tot['asserts'], assertion_queries=tot['assertQueries'], memory_checks_on_symbolic_addresses=tot['boundsChecks'],
                            solver_queries=tot['queries'], solver_sat=tot['sat'], solver_unsat=tot['unsat'], solver_unknown=tot['unknown'], solver_seconds=round(secs, 2), answered_without_solver=tot['cacheHits'] + tot['modelHits'],
                            counterexamples=found, counterexamples_not_reproduced=unconf, disagreements_with_compiled_code=disagree, known_findings=[k['match'] for k, _ in knownhit]),
              assumptions=prop.get('assumptions', []) + vb_assumptions(), wall_s=round(time.time() - T0, 1), violations=len(found))
    with open(os.path.join(evdir, a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in {k['match']: k for k, _ in knownhit}.values():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    for d in found:
        print('VIOLATION property=%s replay=%s' % (a.prop, d['replay']))
        print('  %s in %s: %s\n  at %s\n  reproduced: %s' % (d['what'], d['harness'], d['entry'], d['at'][:500], d['confirmed']))
    for d in unconf:
        print('note: counterexample not reproduced, not reported: %s %s at %s' % (d['entry'], d['what'], d['at'][:400]))
    for d in disagree[:3]:
        print('note: explored input behaves differently when compiled: %s' % json.dumps(d)[:600])
    for r in rows:
        print('  %s: %d paths, %d instructions, %d assertions, %d queries (%d sat, %d unsat, %d unknown), solver %.1f s, wall %.1f s%s' % (r['entry'], r['paths'], r['instructions'], r['assertions'], r['queries'], r['sat'], r['unsat'], r['unknown'], r['solver_s'], r['wall_s'], '; NOT COMPLETE: ' + '; '.join(x[:200] for x in r['not_explored'][:3]) if r['not_explored'] else ''))
    print('%s %s: %d paths, %d validated against the compiled code, %d s' % (a.prop, 'VIOLATED' if found else 'held on everything explored', tot['paths'], validated, time.time() - T0))
    if found:
        sys.exit(1)
    sys.exit(0)


def vb_assumptions():
    return ['the vsym engine (engine/), clang -O1 bitcode generation and Z3 are trusted', 'C library file functions are an in-memory file system (runtime/memfs.cpp); logging, fmt, zstd, lz4 and xxHash back ends are stand-ins (stubs/, runtime/zstub.cpp, runtime/misc_stub.cpp)', 'memory allocations succeed up to 256 MB and fail with an exception beyond']


if __name__ == '__main__':
    try:
        main()
    except vb.BuildError as e:
        print('build error: %s' % e)
        sys.exit(2)
