"""Discharges the proof obligations generated from /repo's current sources -- see ../DESIGN.md

For a property: (1) the harness crate is compiled by Kani against /repo's working tree, giving one goto program per
harness; (2) every obligation of each program is handed to a back end -- CBMC's SAT engine or, for the obligations marked
as such, SMT solvers over uninterpreted floating point operators; (3) if any of these is refuted, a failing input is looked
for in the real (natively compiled) code; (4) the evidence file is written."""

import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
import thunks

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
KANI_FLAGS = ['-Z', 'stubbing', '-Z', 'function-contracts', '-Z', 'unstable-options', '-Z', 'loop-contracts', '--no-assertion-reach-checks']
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None)
VIOLATING = {'assertion', 'arithmetic_overflow', 'division-by-zero', 'array bounds', 'array_bounds', 'bounds', 'pointer dereference', 'pointer_dereference',
             'pointer', 'enum-range-check', 'safety_check', 'exact_div', 'overflow', 'NaN', 'undefined-shift', 'assigns', 'frees', 'loop_invariant_base', 'loop_invariant_step', 'loop_assigns', 'loop_decreases',
             'precondition_instance', 'precondition'}
INCONCLUSIVE = {'unwind', 'recursion', 'unsupported_construct', 'no-body', 'internal'}


def limits(gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


def run(cmd, timeout, gb=16, cwd=None, env=None, stdout=None):
    """returns (rc, stdout, stderr, seconds) -- rc is None on time out"""
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(gb), text=True, errors='replace')
    try:
        out, err = p.communicate(timeout=max(1, timeout))
        return p.returncode, out, err, time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return None, '', 'timeout', time.time() - t


class Inconclusive(Exception):
    pass


def rustflags(hooks):
    return ' '.join(f'--cfg verif="{h}"' for h in hooks)


def codegen(features, hooks, deadline, crate='kani'):
    """compiles the harnesses against /repo's working tree; returns the list of harnesses (as in kani's metadata)"""
    if crate == 'kani_thunks':
        try:
            thunks.extract(REPO, os.path.join(BUILD, 'thunks'))
            thunks.extract(os.path.join(VERIF, 'shim', 'keen-retry'), os.path.join(BUILD, 'thunks-keen-retry'))
        except (ValueError, IndexError) as e:
            raise Inconclusive('the async code could not be extracted: %s' % e)
    target = os.path.join(BUILD, crate.replace('_', '-') + '-' + '-'.join(features))
    os.makedirs(target, exist_ok=True)
    # never reuse harnesses of a previous source: drop stale goto programs
    for root, _dirs, files in os.walk(target):
        for f in files:
            if f.endswith(('.out', '.kani-metadata.json')) and 'big_o' in f:
                os.unlink(os.path.join(root, f))
    for pkg in ('big-o-contracts', 'big-o-test', 'big_o_contracts', 'big_o_test'):
        for root, dirs, _files in os.walk(target):
            for d in list(dirs):
                if d == '.fingerprint':
                    for e in os.listdir(os.path.join(root, d)):
                        if e.startswith(pkg):
                            shutil.rmtree(os.path.join(root, d, e), ignore_errors=True)
                elif os.path.basename(root) == 'build' and d.startswith(pkg):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                    dirs.remove(d)
    cmd = ['cargo', 'kani', '--only-codegen', '--features', ','.join(features), '--target-dir', target] + KANI_FLAGS
    rc, out, err, secs = run(cmd, deadline - time.time(), cwd=os.path.join(VERIF, crate), env=dict(ENV, RUSTFLAGS=rustflags(hooks)))
    if rc != 0:
        raise Inconclusive('the harnesses could not be compiled against /repo:\n' + '\n'.join((out + err).splitlines()[-60:]))
    harnesses = []
    for root, _dirs, files in os.walk(target):
        for f in files:
            if f.endswith('.kani-metadata.json') and 'big_o_contracts' in f:
                md = json.load(open(os.path.join(root, f)))
                harnesses += md['proof_harnesses']
    return harnesses, secs, f"RUSTFLAGS='{rustflags(hooks)}' " + ' '.join(cmd)


def goto_of(h):
    return h['goto_file'].replace('.symtab.out', '.out')


def link(h, deadline):
    """the goto program for a harness -- the very steps `cargo kani` takes"""
    import glob
    out, f = goto_of(h), h['mangled_name']
    lib = sorted(glob.glob(os.path.join(os.environ.get('KANI_HOME', os.path.expanduser('~/.kani')), 'kani-*/library/kani/kani_lib.c')))[-1]
    steps = [['goto-cc', h['goto_file'], lib, '-o', out],
             ['goto-cc', out, '--function', f, '-o', out]]
    if h.get('contract'):
        c = h['contract']
        tracker = ['--nondet-static-exclude', c['recursion_tracker']] if c.get('recursion_tracker') else []
        steps += [['goto-instrument', '--dfcc', f, '--no-malloc-may-fail', '--enforce-contract', c['contracted_function_name']] + tracker + [out, out]]
    elif h.get('has_loop_contracts'):
        steps += [['goto-instrument', '--dfcc', f, '--apply-loop-contracts', '--no-malloc-may-fail', '--loop-contracts-no-unwind', out, out]]
    steps += [['goto-instrument', '--add-library', '--no-malloc-may-fail', out, out],
              ['goto-instrument', '--generate-function-body-options', 'assert-false-assume-false', '--generate-function-body', '.*', '--drop-unused-functions', out, out],
              ['goto-instrument', '--ensure-one-backedge-per-target', out, out]]
    for s in steps:
        rc, o, e, _ = run(s, deadline - time.time(), gb=8)
        if rc != 0:
            raise Inconclusive('could not link %s: %s' % (h['pretty_name'], (o + e)[-1500:]))


def clean(description):
    return re.sub(r'\[KANI_CHECK_ID_[^\]]*\]\s*', '', description)


def check_sat(h, cfg, deadline, only=None, exclude=(), trace=False):
    """discharges a harness' obligations with CBMC's SAT engine"""
    g = goto_of(h)
    cmd = ['cbmc', '--no-standard-checks', '--unwinding-assertions', '--no-malloc-may-fail', '--object-bits', '16', '--slice-formula', '--sat-solver', cfg.get('solver', 'cadical')]
    if cfg.get('memory'):
        cmd += ['--pointer-check', '--bounds-check']
    unwind = cfg.get('unwind') or h['attributes'].get('unwind_value')
    if unwind:
        cmd += ['--unwind', str(unwind)]
    for p in only or ():
        cmd += ['--property', p]
    if trace:
        cmd += ['--trace']
    cmd += ['--json-ui', g]
    rc, out, err, secs = run(cmd, min(cfg.get('timeout', 600), deadline - time.time()), gb=cfg.get('gb', 14))
    if rc is None:
        return dict(status='timeout', secs=secs, cmd=' '.join(cmd))
    try:
        data = json.loads(out)
    except ValueError:
        return dict(status='error', secs=secs, cmd=' '.join(cmd), detail=(out[-2000:] + err[-2000:]))
    res = next((x['result'] for x in data if 'result' in x), None)
    if res is None:
        msgs = [x.get('messageText', '') for x in data if x.get('messageType') in ('ERROR', 'WARNING')]
        return dict(status='error', secs=secs, cmd=' '.join(cmd), detail='\n'.join(msgs[-10:]) + err[-2000:])
    solver = sum(float(m.group(1)) for x in data for m in [re.match(r'Runtime (?:Solver|decision procedure): ([\d.e+-]+)s', x.get('messageText', ''))] if m)
    return dict(status='done', secs=secs, solver=solver, results=[r for r in res if r['property'] not in exclude], cmd=' '.join(cmd))


UF_SORT = '(_ FloatingPoint 11 53)'


def smt_formula(h, props, deadline, workdir):
    """the verification condition CBMC generates for `props`, having the floating point operators uninterpreted"""
    prop = props[0] + ('' if len(props) == 1 else ' & others')
    raw = os.path.join(workdir, hashlib.sha1((h['mangled_name'] + prop).encode()).hexdigest()[:12])
    cmd = ['cbmc', '--no-standard-checks', '--object-bits', '16', '--slice-formula', '--z3', '--fpa', '--outfile', raw + '.raw']
    for p in props:
        cmd += ['--property', p]
    unwind = h['attributes'].get('unwind_value') or 12
    cmd += ['--unwind', str(unwind), goto_of(h)]
    rc, out, err, secs = run(cmd, min(200, deadline - time.time()), gb=8)
    if not os.path.exists(raw + '.raw') or os.path.getsize(raw + '.raw') == 0:
        if rc == 0 and 'VERIFICATION SUCCESSFUL' in out:
            return None     # discharged by simplification
        raise Inconclusive('no verification condition for ' + prop + ': ' + (out + err)[-1500:])
    s = open(raw + '.raw').read()
    decl = ''.join(f'(declare-fun uf_{o} ({UF_SORT} {UF_SORT}) {UF_SORT})\n' for o in ('div', 'mul', 'sub', 'add'))
    for o in ('div', 'mul', 'sub', 'add'):
        s = re.sub(r'\(fp\.%s\s+(?:roundNearestTiesToEven|RNE|roundingMode\w*)\s' % o, f'(uf_{o} ', s)
    if '; find_symbols' not in s:
        return None     # everything was discharged by simplification -- which is double checked by the caller
    i = s.index('; find_symbols')
    open(raw + '.smt2', 'w').write(s[:i] + decl + s[i:])
    os.unlink(raw + '.raw')
    return raw + '.smt2'


def check_smt(h, props, deadline, workdir):
    t = time.time()
    path = smt_formula(h, props, deadline, workdir)
    if path is None:
        r = check_sat(h, dict(timeout=120), deadline, only=props)
        names = {x['property'] for x in r.get('results', []) if x['status'] == 'SUCCESS'}
        return dict(verdict='unsat' if set(props) <= names else 'unknown', by='cbmc (simplification)', secs=time.time() - t, answers={})
    answers = {}
    procs = {}
    for name, cmd in (('z3-new', ['z3-new', '-T:150', path]), ('cvc5', ['cvc5', '--tlimit=150000', path]), ('z3', ['z3', '-T:150', path])):
        procs[name] = (subprocess.Popen(cmd, stdout=open(path + '.' + name, 'w'), stderr=subprocess.DEVNULL, preexec_fn=limits(8), env=ENV), time.time())
    answered = None     # once a solver answers, the others are given little time to confirm
    while procs:
        for name, (p, t1) in list(procs.items()):
            if p.poll() is not None:
                out = open(path + '.' + name).read()
                a = next((l for l in out.split() if l in ('sat', 'unsat', 'unknown')), 'timeout')
                answers[name] = (a, round(time.time() - t1, 3))
                del procs[name]
                if a in ('sat', 'unsat') and answered is None: answered = time.time()
            elif time.time() - t1 > 160 or (answered and time.time() - answered > 5):
                os.killpg(p.pid, signal.SIGKILL); p.wait()
                answers[name] = ('stopped', round(time.time() - t1, 3))
                del procs[name]
        time.sleep(0.01)
    verdicts = {a for a, _ in answers.values()}
    v = 'conflict' if {'sat', 'unsat'} <= verdicts else 'unsat' if 'unsat' in verdicts else 'sat' if 'sat' in verdicts else 'unknown'
    return dict(verdict=v, by='+'.join(n for n, (a, _) in answers.items() if a == v), secs=time.time() - t, answers=answers, path=path)


def verify_harness(h, cfg, deadline, workdir):
    """returns dict(name, obligations=[(property, description, location, verdict, by)], covers=[...], problems=[...], secs, solver)"""
    name = h['pretty_name']
    ob, covers, problems = [], [], []
    secs = solver = 0.0
    cmds, panics = [], []
    smt_props = []
    link(h, deadline)
    if name.split('::')[-1].startswith('smt_'):
        rc, out, err, s = run(['cbmc', '--show-properties', '--no-standard-checks', '--object-bits', '16', '--json-ui', goto_of(h)], 120, gb=8)
        props = next((x['properties'] for x in json.loads(out) if 'properties' in x), [])
        target = h['attributes']['kind']['ProofForContract']['target_fn'].split('::')[-1].strip()
        smt_props = [p for p in props if p['class'] == 'assertion' and clean(p['description']).startswith('|') and re.search(r'\b%s::\{closure' % target, p['name'])]
        if not smt_props:
            problems.append(f'{name}: the contract of `{target}` generated no obligation')
        # whatever else this harness generates: panics, unreachable code, ... (the verifier's own library aside)
        others = [p for p in props if p['class'] not in ('reachability_check', 'cover') and p not in smt_props and 'kani_lib.c' not in str(p.get('sourceLocation', {}).get('file'))]
        def smt(ps):
            nonlocal secs, solver
            r = check_smt(h, [p['name'] for p in ps], deadline, workdir)
            secs += r['secs']; solver += sum(s for _, s in r['answers'].values())
            if len(ps) > 1 and r['verdict'] != 'unsat':
                for p in ps: smt([p])
                return
            for p in ps:
                ob.append(dict(harness=name, property=p['name'], description=clean(p['description']), location=location_of(p), cls=p['class'],
                               verdict={'unsat': 'SUCCESS', 'sat': 'FAILURE'}.get(r['verdict'], 'UNKNOWN'), by='smt: ' + r['by'], answers=r['answers']))
                if r['verdict'] not in ('unsat', 'sat'):
                    problems.append(f"{name}: SMT verdict for {p['name']}: {r['answers']}")
        for p in smt_props: smt([p])
        if others: smt(others)
        for p in [p for p in props if p['class'] == 'cover']:
            r = check_smt(h, [p['name']], deadline, workdir)
            covers.append((name, clean(p['description']), r['verdict'] == 'sat'))
        cmds.append('cbmc --no-standard-checks --slice-formula --z3 --fpa --property … --outfile F; fp.{add,sub,mul,div} of F replaced by uninterpreted functions; z3-new F, cvc5 F, z3 F')
        r = None
    else:
        r = check_sat(h, cfg, deadline)
        # the code might have changed so as to need more iterations: if this is all there is to it, give them
        unwind = cfg.get('unwind') or h['attributes'].get('unwind_value')
        for _ in range(2):
            failed = [x for x in r.get('results', []) if x['status'] == 'FAILURE' and '.cover.' not in x['property']]
            short = [x for x in failed if x['description'].startswith(('unwinding assertion', 'recursion unwinding'))]
            if not unwind or not short or (short != failed and not cfg.get('panics')) or time.time() + 2 * r['secs'] > deadline: break
            secs += r['secs']
            unwind = unwind * 3 // 2 + 1
            cfg = dict(cfg, unwind=unwind)
            r = check_sat(h, cfg, deadline)
    if r is not None:
        secs += r['secs']; solver += r.get('solver', 0)
        cmds.append(r['cmd'])
        if r['status'] != 'done':
            problems.append(f"{name}: {r['status']} after {r['secs']:.0f}s {r.get('detail', '')}")
        else:
            for x in r['results']:
                cls = x['property'].rsplit('.', 2)[-2] if '.' in x['property'] else ''
                location = location_of(x)
                if cls == 'cover':
                    covers.append((name, clean(x['description']), x['status'] == 'FAILURE'))
                    continue
                if cls in ('reachability_check',):
                    continue
                if cfg.get('panics') and x['status'] == 'FAILURE' and cls not in INCONCLUSIVE and not location.startswith('src/') and 'unwinding' not in x['description']:
                    panics.append(location)     # the harness is about what leads to a panic (for which, its assertions after the call must hold)
                    continue
                ob.append(dict(harness=name, property=x['property'], description=clean(x['description']), location=location, verdict=x['status'], by='cbmc/sat', cls=cls))
            if cfg.get('panics') and not panics:
                problems.append(f'{name}: vacuous -- no panic is reachable')
    return dict(name=name, obligations=ob, covers=covers, problems=problems, secs=secs, solver=solver, cmds=cmds, h=h, cfg=cfg)


def location_of(x):
    loc = x.get('sourceLocation', {})
    return f"{loc.get('file')}:{loc.get('line')}".replace('../kani/src/', 'src/').replace(os.path.join(BUILD, 'thunks') + '/', REPO + '/').replace('../build/thunks/', REPO + '/')


def counterexample(res, o, deadline):
    """the values of the harness' variables in the verifier's counterexample"""
    if o['by'].startswith('smt'):
        return []
    r = check_sat(res['h'], res['cfg'], deadline, only=[o['property']], trace=True)
    if r['status'] != 'done':
        return []
    lines = []
    for x in r['results']:
        for s in x.get('trace', []):
            if s.get('stepType') == 'assignment' and s.get('assignmentType') in ('variable', 'actual-parameter'):
                loc = s.get('sourceLocation', {})
                v = s.get('value', {})
                lhs = s.get('lhs', '')
                if ('src/' in loc.get('file', '') and 'rustlib' not in loc.get('file', '')) and 'data' in v and not s.get('hidden') and 'temp' not in lhs.split('::')[-1]:
                    lines.append(f"{loc.get('file')}:{loc.get('line')} {lhs.split('::')[-1]} = {v['data']}")
    return lines[-400:]


def given_values(res, o, deadline, path):
    """writes the values the harness takes in the verifier's counterexample for an obligation: a line per value, in the order they're taken"""
    if o['by'].startswith('smt'):
        return False
    r = check_sat(res['h'], res['cfg'], deadline, only=[o['property']], trace=True)
    trace = next((x['trace'] for x in r.get('results', []) if x['property'] == o['property'] and 'trace' in x), None)
    if trace is None:
        return False
    lines, now = [], None
    for s in trace:
        kind, f = s.get('stepType'), s.get('function', {}).get('displayName', '')
        if kind == 'function-call' and f.startswith('kani::any_raw_'):
            now = {}
        elif kind == 'function-return' and f.startswith('kani::any_raw_') and now is not None:
            lines.append(' '.join(f'{i}={v}' for i, v in now.items()))
            now = None
        elif kind == 'assignment' and now is not None and s.get('lhs', '').startswith('goto_symex$$return_value') and 'any_raw_' in s['lhs']:
            i = re.search(r'\[(\d+)l?\]$', s['lhs'])
            value = s.get('value', {})
            if 'binary' in value:
                now[int(i.group(1)) if i else 0] = int(value['binary'], 2)
            elif 'elements' in value and not i:
                for e in value['elements']:
                    if 'binary' in e.get('value', {}): now[e['index']] = int(e['value']['binary'], 2)
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return True


# the properties whose harnesses run natively, too -- others have a search of their own
REPLAYABLE = ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C14', 'C15', 'C17')


def native(prop, cfg, violated, tier, seed, deadline, workdir, only=None):
    """looks for a failing input on the real code, compiled natively -- starting at the verifier's counterexamples; returns (found, output)"""
    target = os.path.join(BUILD, 'native')
    own = cfg.get('native', {})
    env = dict(ENV, RUSTFLAGS=rustflags(own.get('hooks', cfg['hooks'])))
    feats = [prop.lower()]
    outs = []
    # harnesses to run natively -- and whether they are about what leads to panics
    kinds = {f'{prop.lower()}::{n}': 'panics' if {**cfg.get('default', {}), **c}.get('panics') else 'holds' for v in cfg['variants'] for n, c in v['harnesses'].items()} if prop in REPLAYABLE else own.get('harnesses', {})
    if only: kinds = {n: k for n, k in kinds.items() if n in only}
    with open(os.path.join(BUILD, 'native-harnesses.rs'), 'w') as f:
        f.write('pub fn harness(name: &str) -> Option<fn()> {\n    Some(match name {\n' +
                ''.join(f'        "{n}" => crate::{n},\n' for n in kinds) + '        _ => return None,\n    })\n}\n')
    variants = [feats] if prop not in ('C01', 'C02') else [feats, feats + ['tolerance_25_percent']]

    def execute(args, seconds):
        rc, out, err, _ = run([os.path.join(target, 'debug', 'big-o-native')] + args, min(seconds, deadline - time.time()), cwd=workdir, env=dict(ENV, RUST_BACKTRACE='0'))
        outs.append(f"$ big-o-native {' '.join(args)}  -> {'time out' if rc is None else rc}\n" + (out or '')[-6000:] + (err or '')[-2000:])
        return any(l.startswith('FAILING-INPUT') for l in (out or '').splitlines())

    for v in variants:
        rc, out, err, _ = run(['cargo', 'build', '--offline', '--quiet', '--target-dir', target, '--features', ','.join(v)], deadline - time.time(), cwd=os.path.join(VERIF, 'native'), env=env)
        if rc != 0:
            outs.append('the replay program could not be compiled:\n' + err[-3000:])
            continue
        if not kinds:
            if execute([prop, str(seed), tier], 240): return True, '\n'.join(outs)
            continue
        tried = []
        for o in violated:
            n = o['harness']
            if n not in kinds or n in tried or len(tried) == 3: continue
            tried.append(n)
            given = os.path.join(workdir, 'given-' + n.replace('::', '-'))
            if not given_values(o['res'], o, min(deadline - 60, time.time() + 240), given): given = '-'
            if execute(['run', n, kinds[n], given, str(seed), '10'], 60): return True, '\n'.join(outs)
        # the other harnesses -- if undecided, all of them
        rest = [n for n in kinds if n not in tried]
        seconds = max(3, min(40, int((deadline - time.time() - 20) / 2 / max(1, (len(rest) + 7) // 8)), 160 // max(1, (len(rest) + 7) // 8)))
        if only: seconds = 5
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            if any(list(ex.map(lambda n: execute(['run', n, kinds[n], '-', str(seed), str(seconds)], seconds + 30), rest))): return True, '\n'.join(outs)
    return False, '\n'.join(outs)


def main(config):
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = config[prop]
    t0 = time.time()
    deadline = t0 + (840 if tier == 'quick' else 5400)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    workdir = tempfile.mkdtemp(prefix='w-' + prop + '-', dir=BUILD)
    results, problems, cmds = [], [], []
    try:
        for variant in cfg['variants']:
            try:
                harnesses, secs, cmd = codegen(variant['features'], cfg['hooks'], deadline, variant.get('crate', 'kani'))
            except Inconclusive as e:
                problems.append(str(e))
                continue
            cmds.append(cmd)
            names = {h['pretty_name'] for h in harnesses}
            for wanted in variant['harnesses']:
                if wanted not in {n.split('::')[-1] for n in names}:
                    problems.append(f'harness {wanted} is missing')
            jobs = [(h, {**cfg.get('default', {}), **variant['harnesses'][h['pretty_name'].split('::')[-1]]}) for h in harnesses if h['pretty_name'].split('::')[-1] in variant['harnesses']]
            jobs = [(h, c) for h, c in jobs if tier == 'thorough' or not c.get('thorough')]
            with cf.ThreadPoolExecutor(max_workers=cfg.get('jobs', 8)) as ex:
                futs = [ex.submit(verify_harness, h, c, deadline - 120, workdir) for h, c in jobs]
                for f in futs:
                    try:
                        r = f.result()
                        r['variant'] = variant['features']
                        results.append(r)
                    except Inconclusive as e:
                        problems.append(str(e))
        return report(prop, tier, seed, cfg, results, problems, cmds, t0, deadline, workdir)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def report(prop, tier, seed, cfg, results, problems, cmds, t0, deadline, workdir):
    obligations = [dict(o, variant='+'.join(r['variant']), res=r) for r in results for o in r['obligations']]
    for r in results:
        problems += r['problems']
        for name, description, satisfied in r['covers']:
            if not satisfied:
                problems.append(f'{name}: vacuous -- cover not satisfied: {description}')
    failed = [o for o in obligations if o['verdict'] == 'FAILURE']
    violated = [o for o in failed if o.get('cls', 'assertion') not in INCONCLUSIVE and not o['description'].startswith(('unwinding assertion', 'recursion unwinding'))]
    inconclusive = [o for o in failed if o not in violated]
    for o in inconclusive:
        problems.append(f"{o['harness']}: could not be decided: {o['description']} at {o['location']}")
    undecided = [o for o in obligations if o['verdict'] not in ('SUCCESS', 'FAILURE')]
    for o in undecided:
        problems.append(f"{o['harness']}: undecided ({o['verdict']}): {o['description']} at {o['location']}")
    violations = 0
    replay_path = None
    rc = 0
    found, out = False, ''
    if cfg.get('stand_ins') and not violated and not problems:
        found, out = native(prop, cfg, [], tier, seed, deadline, workdir, cfg['stand_ins'])
        if not found and 'random runs' not in out: problems.append('the bounded stand-ins did not run:\n' + out)
    if violated or problems or found:
        # either a refuted obligation or something preventing a decision: does the real code fail?
        if not found: found, out = native(prop, cfg, violated, tier, seed, deadline, workdir)
        if violated or found:
            rc, violations = 1, max(1, len(violated))
            replay_path = os.path.join(VERIF, 'build', f'replay-{prop}.txt')
            with open(replay_path, 'w') as f:
                f.write(f'property {prop}: {cfg["title"]}\n\n')
                for o in violated:
                    f.write(f"REFUTED OBLIGATION [{o['variant']}] {o['harness']}\n  {o['property']}\n  {o['description']}\n  at {o['location']} -- by {o['by']} {o.get('answers', '')}\n")
                for o in violated[:2]:
                    f.write(f"\nverifier's counterexample for {o['property']} (values assigned along the failing path):\n")
                    for l in counterexample(o['res'], o, deadline):
                        f.write('  ' + l + '\n')
                f.write('\nother problems:\n' + '\n'.join(problems) + '\n')
                f.write('\nreplay on the real code:\n' + out + '\n')
            for o in violated[:10]:
                print(f"refuted: [{o['variant']}] {o['harness']}: {o['description'][:300]} ({o['location']})")
            if found:
                print(next(l for l in out.splitlines() if l.startswith('FAILING-INPUT'))[:1000])
            print(f"VIOLATION property={prop} replay={replay_path}" + ('' if found else ' no-failing-input-found'))
        else:
            rc = 2
            print(f'{prop}: NOT DECIDED')
            for p in problems: print('  ' + p)
            print(out[-3000:])
    named = lambda o: o['location'].startswith('src/') or '/repo/' in o['location']
    ok = [o for o in obligations if o['verdict'] == 'SUCCESS']
    by = {}
    for o in ok: by[o['by']] = by.get(o['by'], 0) + 1
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=cfg['level'], wall_s=round(time.time() - t0, 1), violations=violations,
        assumptions=cfg['trusted'],
        coverage=dict(
            obligations=len(obligations), discharged=len(ok), undecided=len(undecided),
            obligations_on_harness_or_repo_source_lines=len([o for o in obligations if named(o)]),
            checker_cmd='; '.join(dict.fromkeys(cmds + [c for r in results[:1] for c in r['cmds']])),
            trusted_base=cfg['trusted'],
            functions_under_contract=cfg['functions'],
            bounds=cfg.get('bounds', 'none'),
            discharged_by=by,
            solver_seconds=round(sum(r['solver'] for r in results), 2),
            harnesses=[dict(name=r['name'], variant='+'.join(r['variant']), obligations=len(r['obligations']), discharged=len([o for o in r['obligations'] if o['verdict'] == 'SUCCESS']),
                            covers_satisfied=f"{len([c for c in r['covers'] if c[2]])}/{len(r['covers'])}", seconds=round(r['secs'], 1)) for r in results],
            samples=[f"{o['harness']}: {o['description'][:200]} ({o['location']}) -- {o['verdict']} by {o['by']}" for o in obligations if o['location'].startswith('src/c') or o['by'].startswith('smt')][:40],
            explanation=cfg.get('explanation', ''),
            bounded_stand_ins=cfg.get('stand_ins', []),
            problems=problems,
        ))
    json.dump(evidence, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if rc == 0:
        print(f"{prop}: {len(ok)}/{len(obligations)} obligations discharged in {len(results)} harnesses, {time.time() - t0:.0f}s")
    return rc
