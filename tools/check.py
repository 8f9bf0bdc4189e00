#!/usr/bin/env python3
"""Run the solver-based check of one property.

    check.py PROPERTY [--tier quick|thorough] [--entry NAME] [--keep-going]

Exit 0: held on everything explored.  Exit 1: at least one violation that was replayed against the real
code (a line "VIOLATION property=.. replay=..").  Exit 2: no answer (time out, unsupported construct,
encoding and real code disagree, build failure)."""
import argparse, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxbuild as B

VERIF = B.VERIF
EVID = os.path.join(VERIF, 'evidence')
NPROC = os.cpu_count() or 8
T0 = time.time()


def parse_harness(path, tier):
    h = {'path': path, 'sources': [], 'defs': [], 'assumptions': [], 'entries': [], 'name': os.path.basename(path)[:-4]}
    for l in open(path):
        if not l.startswith('// '):
            continue
        w = l[3:].split(None, 1)
        if len(w) < 2:
            continue
        k, r = w[0], w[1].strip()
        if k == 'SOURCES':
            h['sources'] += r.split()
        elif k == 'DEFS':
            h['defs'] += r.split()
        elif k == 'ASSUME':
            h['assumptions'].append(r)
        elif k == 'ENTRY':
            m = re.match(r'(\S+)\s*(.*)$', r)
            e = {'name': m.group(1), 'tier': 'both', 'shards': 1, 'timeout': 600, 'bound': '', 'args': [], 'hang': 20, 'mem': 3600, 'covers': []}
            for kv in re.finditer(r'(\w+)=("([^"]*)"|\S+)', m.group(2)):
                v = kv.group(3) if kv.group(3) is not None else kv.group(2)
                kk = kv.group(1)
                if kk in ('shards', 'timeout', 'hang', 'mem'):
                    e[kk] = int(v)
                elif kk == 'args':
                    e[kk] = v.split()
                elif kk == 'covers':
                    e[kk] = v.split(',')
                else:
                    e[kk] = v
            if e['tier'] in ('both', tier):
                h['entries'].append(e)
    return h


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def limit(mem_mb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Runner:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.scratch = tempfile.mkdtemp(prefix='sx-%s-' % prop)
        self.procs = set()
        self.mu = threading.Lock()
        self.stop = False
        self.errors = []
        self.confirmed = []
        self.kfhits = {}
        self.validated = 0
        self.reports = []
        self.kf = known_findings(prop)

    def symex(self, job):
        h, e, i = job
        if self.stop:
            return None
        out = os.path.join(self.scratch, '%s.%s.%d.json' % (h['name'], e['name'], i))
        sd = out + '.d'
        os.makedirs(sd)
        cmd = [B.ENGINE, h['bc'], '-e', e['name'], '-o', out, '-t', str(e['timeout']), '--scratch', sd,
               '--shard', str(i), str(e['shards'])] + e['args']
        for k, _ in self.kf:
            cmd += ['--kf', k]
        t = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit(e['mem']))
        with self.mu:
            self.procs.add(p)
        try:
            so, se = p.communicate(timeout=e['timeout'] + 60)
        except subprocess.TimeoutExpired:
            self.kill(p)
            so, se = p.communicate()
        with self.mu:
            self.procs.discard(p)
        shutil.rmtree(sd, ignore_errors=True)
        if self.stop:
            return None
        who = '%s shard %d/%d' % (e['name'], i, e['shards'])
        if p.returncode != 0 or not os.path.exists(out):
            self.error('%s: engine ended with %s: %s' % (who, p.returncode, se.decode(errors='replace')[-600:]))
            return None
        r = json.load(open(out))
        r['_job'] = job
        r['_wall'] = time.time() - t
        with self.mu:
            self.reports.append(r)
        print('  %-40s %6.1fs states=%d paths=%d queries=%d (%.1fs) violations=%d%s' % (
            who, r['_wall'], r['states'], r['paths'], r['solver']['queries'], r['solver']['seconds'], len(r['violations']),
            ' TIMEOUT' if r['timed_out'] else ''), flush=True)
        if r['timed_out']:
            self.error('%s: time limit reached' % who)
        for k, w in r['unsupported'].items():
            self.error('%s: not encoded: %s (%s)' % (who, k, w))
        # an undecided branch-feasibility query keeps both branches (sound); an undecided assertion is in 'unsupported'
        for n, v in enumerate(r['violations']):
            self.replay_violation(h, e, i, n, v)
        for n, w in enumerate(r['witnesses']):
            if self.stop:
                break
            self.replay_witness(h, e, i, n, w)
        return r

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def error(self, s):
        with self.mu:
            self.errors.append(s)
        print('  ! ' + s, flush=True)

    def write_case(self, path, v):
        with open(path, 'w') as f:
            for k, x in v['inputs'].items():
                f.write('i %s %s\n' % (k, x))
            for k, x in v['choices'].items():
                f.write('c %s %d\n' % (k, x))
            for k, _ in self.kf:
                f.write('k %s\n' % k)

    def native(self, h, e, case, tmo):
        d = tempfile.mkdtemp(dir=self.scratch)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:max_allocation_size_mb=4000', LC_ALL='C',
                   UBSAN_OPTIONS='print_stacktrace=0')
        try:
            p = subprocess.Popen([h['native'], case, e['name']], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=os.setsid)
            try:
                so, _ = p.communicate(timeout=tmo)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                self.kill(p)
                so, _ = p.communicate()
                rc = 'timeout'
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return rc, so.decode(errors='replace')

    def replay_violation(self, h, e, i, n, v):
        case = os.path.join(self.scratch, '%s.%d.v%d.case' % (e['name'], i, n))
        self.write_case(case, v)
        rc, so = self.native(h, e, case, e['hang'])
        k, why = v['kind'], None
        first = next((l for l in so.splitlines() if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'terminate called' in l or 'what()' in l or 'ASSERT-FAILED' in l), '')
        if 'symbol lookup error' in so:
            why = None
        elif 'ASSERT-FAILED' in so:
            why = so[so.index('ASSERT-FAILED'):].splitlines()[0]
        elif rc == 'timeout':
            why = 'does not terminate (no end within %d s)' % e['hang']
        elif rc not in (0, 10, 11):
            why = 'ended with status %s: %s' % (rc, first[:200])
        elif k == 'undefined' and 'runtime error' in so:
            why = first[:200]
        if not why:
            self.error('%s: counterexample of the encoding (%s: %s at %s) does not reproduce on the real code (rc=%s)' % (e['name'], k, v['msg'], v['where'], rc))
            if os.environ.get('SX_KEEP'):
                shutil.copy(case, os.environ['SX_KEEP'])
            return
        if v['kf']:
            with self.mu:
                self.kfhits[v['kf']] = why
            return
        dst = os.path.join(B.BUILD, 'replay', '%s-%s-%d-%d.case' % (self.prop, e['name'], i, n))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy(case, dst)
        with self.mu:
            self.confirmed.append({'entry': e['name'], 'kind': k, 'message': v['msg'], 'where': v['where'], 'observed': why, 'inputs': v['inputs'],
                                   'choices': v['choices'], 'replay': dst})
        print('VIOLATION property=%s replay=%s' % (self.prop, dst))
        print('    %s: %s at %s; real code: %s' % (k, v['msg'], v['where'], why), flush=True)
        if not args.keep_going:
            self.stop = True
            with self.mu:
                for p in self.procs:
                    self.kill(p)

    def replay_witness(self, h, e, i, n, w):
        case = os.path.join(self.scratch, '%s.%d.w%d.case' % (e['name'], i, n))
        self.write_case(case, w)
        rc, so = self.native(h, e, case, 60)
        got = [tuple(l.split()[1:3]) for l in so.splitlines() if l.startswith('OBS ')]
        exp = [(a, b.lower().lstrip('0') or '0') for a, b in w['obs']]
        got = [(a, b.lower().lstrip('0') or '0') for a, b in got]
        if rc != 0 or got != exp:
            if w.get('end') == 'throw' and rc not in (0, 'timeout'):
                pass
            else:
                self.error('%s: the encoding and the real code differ on a witness (rc=%s, expected %s, got %s) %s' % (
                    e['name'], rc, [x for x in exp if x not in got][:4], [x for x in got if x not in exp][:4], so[-300:] if rc else ''))
                if os.environ.get('SX_KEEP'):
                    shutil.copy(case, os.environ['SX_KEEP'])
                return
        with self.mu:
            self.validated += 1

    def run(self, entry=None):
        hs = [parse_harness(p, self.tier) for p in sorted(glob.glob(os.path.join(VERIF, 'harness', self.prop + '*.cpp')))]
        if entry:
            for h in hs:
                h['entries'] = [e for e in h['entries'] if e['name'] == entry]
        hs = [h for h in hs if h['entries']]
        if not hs:
            raise B.BuildError('no harness for ' + self.prop)
        defs = ['-DSX_THOROUGH'] if self.tier == 'thorough' else []
        with ThreadPoolExecutor(8) as ex:
            fe = ex.submit(B.engine)
            fs = []
            for h in hs:
                fs.append((h, ex.submit(B.build_ir, h['path'], h['sources'], [e['name'] for e in h['entries']], h['defs'], defs),
                           ex.submit(B.build_native, h['path'], h['sources'], h['defs'], defs)))
            fe.result()
            for h, a, b in fs:
                h['bc'], h['functions'] = a.result()
                h['native'] = b.result()
        print('built in %.1fs' % (time.time() - T0), flush=True)
        jobs = [(h, e, i) for h in hs for e in h['entries'] for i in range(e['shards'])]
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(self.symex, jobs))
        # vacuity guard: every cover label that an entry declares must be reached somewhere
        if not self.stop:
            for h in hs:
                for e in h['entries']:
                    rs = [r for r in self.reports if r['_job'][1] is e]
                    got = set()
                    for r in rs:
                        got |= set(r['covers'])
                    if rs and not any(r['paths'] for r in rs):
                        self.error('%s: vacuous, no path reached the end' % e['name'])
                    for c in e['covers']:
                        if c not in got:
                            self.error('%s: vacuous, "%s" never reached' % (e['name'], c))
        return hs

    def evidence(self, hs):
        R = self.reports
        S = lambda k: sum(r['solver'][k] for r in R)
        funcs = sorted(set(f for h in hs for f in h['functions']))
        samples = []
        for r in R:
            for w in r['witnesses'][:1]:
                samples.append({'entry': r['entry'], 'inputs': dict(list(w['inputs'].items())[:12]), 'choices': w['choices']})
        cov = {
            'states': sum(r['states'] for r in R), 'transitions': sum(r['transitions'] for r in R),
            'traces_validated_against_impl': self.validated, 'samples': samples[:12],
            'paths': sum(r['paths'] for r in R), 'state_merges': sum(r['merges'] for r in R),
            'functions_encoded': funcs, 'queries': S('queries'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'),
            'queries_undecided': S('unknown'), 'assertion_queries': S('assertions'), 'assertions_discharged_by_rewriting': S('assertions_by_rewriting'),
            'solver_seconds': round(S('seconds'), 2), 'slowest_query_seconds': max([r['solver']['max_query'] for r in R] or [0]),
            'entries': [{'entry': e['name'], 'bound': e['bound'], 'shards': e['shards'],
                         'seconds': round(sum(r['_wall'] for r in R if r['_job'][1] is e), 1),
                         'asserts': sorted(set(a for r in R if r['_job'][1] is e for a in r['asserts'])),
                         'covers': sorted(set(a for r in R if r['_job'][1] is e for a in r['covers']))} for h in hs for e in h['entries']],
            'complete': not self.errors and not self.stop,
            'inconclusive': self.errors[:20],
            'known_findings': [{'id': k, 'what': w, 'reproduced': self.kfhits.get(k)} for k, w in self.kf],
        }
        ass = sorted(set(a for h in hs for a in h['assumptions']))
        ass += ['bound (%s): %s' % (e['name'], e['bound']) for h in hs for e in h['entries'] if e['bound']]
        ass += ['standard library containers and strings are encoded from their headers; streams and libm functions are models (see DESIGN.md)']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
              'assumptions': ass, 'wall_s': round(time.time() - T0, 1), 'violations': len(self.confirmed), 'violation_details': self.confirmed[:20]}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.tmp' % self.prop)
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.rename(tmp, os.path.join(EVID, self.prop + '.json'))


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--entry')
    ap.add_argument('--keep-going', action='store_true')
    args = ap.parse_args()
    R = Runner(args.property, args.tier)
    rc = 2
    try:
        hs = R.run(args.entry)
        R.evidence(hs)
        for k, w in R.kf:
            print('KNOWN-FINDING: property=%s %s%s' % (args.property, w, '' if k in R.kfhits else ' [not re-observed in this run]'))
        if R.confirmed:
            rc = 1
        elif R.errors:
            print('INCONCLUSIVE property=%s: %s' % (args.property, R.errors[0]))
            rc = 2
        else:
            print('HELD property=%s tier=%s (%.1fs, %d states, %d queries)' % (args.property, args.tier, time.time() - T0, sum(r['states'] for r in R.reports), sum(r['solver']['queries'] for r in R.reports)))
            rc = 0
    except B.BuildError as x:
        print('BUILD FAILED: %s' % x)
    finally:
        shutil.rmtree(R.scratch, ignore_errors=True)
    sys.exit(rc)
