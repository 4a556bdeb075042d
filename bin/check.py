#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

  check.py <ID> [--tier quick|thorough]

Stages, run side by side from the current source of /repo:
  kani    contracts on the real functions, discharged by Kani/CBMC (crate /verif/kani)
  verus   contracts on functions extracted mechanically from /repo, discharged by Verus/Z3
  native  the same contracts executed on the real code under AddressSanitizer: the
          replay side, which turns a failed obligation into a failing input

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken.
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
sys.path.insert(0, HERE)
from units import UNITS
import vx

T0 = time.time()
DEADLINE = T0 + 840


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout, env=None, cwd=None):
    """run a bash script text in its own process group; (rc or None on timeout, output)"""
    p = subprocess.Popen(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=env, cwd=cwd, start_new_session=True, errors='replace', text=True)
    try:
        out, _ = p.communicate(timeout=max(1, min(timeout, DEADLINE - time.time())))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def source_hash():
    h = hashlib.sha256()
    for base in [REPO, os.path.join(VERIF, 'kani'), os.path.join(VERIF, 'native'), os.path.join(VERIF, 'stubs')]:
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('.git', 'target', '.build'))
            for f in sorted(files):
                if f.endswith(('.rs', '.toml', '.lock')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def fresh_dir(name, key):
    """a build directory that only ever held builds of this very source text"""
    d = os.path.join(BUILD, name)
    stamp = os.path.join(d, '.source')
    try:
        if open(stamp).read() != key:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    open(stamp, 'w').write(key)
    return d


CFGS = [('verif_hooks verif_inspect', '--cfg verif_hooks --cfg verif_inspect'), ('verif_hooks', '--cfg verif_hooks')]


# ---------------------------------------------------------------- native

class Native:
    def __init__(self, pid, tier, seed, key):
        self.pid, self.tier, self.seed, self.key = pid, tier, seed, key
        self.bin = None
        self.cfg = None
        self.fail = []      # dicts: index, desc, msg, seed, tier
        self.known = []
        self.families = []
        self.samples = []
        self.ran = 0
        self.error = None

    def build(self):
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, 'native.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            d = fresh_dir('native', self.key)
            for name, flags in CFGS:
                rc, out = sh('. /opt/vp/env.sh; cd %s/native; RUSTFLAGS="%s -Zsanitizer=address -Awarnings" CARGO_TARGET_DIR=%s '
                             'cargo build --offline --target x86_64-unknown-linux-gnu 2>&1' % (VERIF, flags, d), 500)
                if rc == 0:
                    src = os.path.join(d, 'x86_64-unknown-linux-gnu/debug/vnative')
                    self.bin = os.path.join(BUILD, 'vnative-%s-%d' % (self.pid, os.getpid()))
                    shutil.copy(src, self.bin)
                    self.cfg = name
                    return True
                self.error = out[-3000:]
        return False

    def run(self, tier, seed, only=None, timeout=400, pid=None):
        prog = os.path.join(BUILD, 'progress-%s-%d' % (self.pid, os.getpid()))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0', RUST_BACKTRACE='0')
        cmd = 'ulimit -c 0; exec %s %s --seed %d --tier %s --progress %s' % (self.bin, pid or self.pid, seed, tier, prog)
        if only is not None:
            cmd += ' --only %d' % only
        scratch = os.path.join(BUILD, 'scratch-%s-%d' % (self.pid, os.getpid()))
        os.makedirs(scratch, exist_ok=True)
        env['TMPDIR'] = scratch
        rc, out = sh(cmd, timeout, env=env, cwd=scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        at = None
        try:
            at = int.from_bytes(open(prog, 'rb').read(8), 'little')
            os.unlink(prog)
        except OSError:
            pass
        res = dict(rc=rc, fail=[], known=[], families=[], samples=[], ran=0)
        for l in out.splitlines():
            if l.startswith('FAIL '):
                i, d, m = (l[5:].split('\t') + ['', ''])[:3]
                res['fail'].append(dict(index=int(i), case=d, observed=m, seed=seed, tier=tier))
            elif l.startswith('KNOWN '):
                i, k, d, m = (l[6:].split('\t') + ['', '', ''])[:4]
                res['known'].append(dict(index=int(i), key=k, case=d, observed=m, seed=seed, tier=tier))
            elif l.startswith('FAMILY '):
                n, name = l[7:].split('\t', 1)
                res['families'].append((name, int(n)))
            elif l.startswith('SAMPLE '):
                res['samples'].append(l[7:])
            elif l.startswith('RAN '):
                res['ran'] = int(l.split()[1])
            elif l.startswith('HANG '):
                res['fail'].append(dict(index=int(l.split()[1]), case='', observed='the call did not return within 60 s', seed=seed, tier=tier))
        if rc not in (0, 2, 4):
            if rc is None:
                what = 'the run did not end within %d s' % timeout
                res['timeout'] = True
            else:
                m = re.search(r'ERROR: AddressSanitizer: .*', out) or re.search(r'panicked at.*', out)
                what = 'the process died (exit %s): %s' % (rc, m.group(0) if m else out[-300:].replace('\n', ' '))
            if at is not None and rc is not None:
                res['fail'].append(dict(index=at, case='', observed=what, seed=seed, tier=tier))
            elif rc is not None:
                res['fail'].append(dict(index=0, case='', observed=what, seed=seed, tier=tier))
        for f in res['fail']:
            if not f['case'] and only is None:
                rc2, out2 = sh('%s %s --seed %d --tier %s --only %d --describe | head -1' % (self.bin, self.pid, seed, tier, f['index']), 90,
                               env=env)
                for l in (out2 or '').splitlines():
                    if l.startswith('CASE '):
                        f['case'] = l[5:4000]
                        break
        return res

    def cleanup(self):
        if self.bin and os.path.exists(self.bin):
            os.unlink(self.bin)


# ---------------------------------------------------------------- kani

def kani_command():
    """Kani, with the cbmc of bin/tools (which see) in front of the real one"""
    for home in [os.path.expanduser('~'), '/root']:
        for d in sorted(glob.glob(os.path.join(home, '.kani/kani-*/bin/kani-driver'))):
            return '(export VERIF_REAL_CBMC="$(command -v cbmc)" PATH=%s/bin/tools:$PATH; exec -a cargo-kani %s kani %%s)' % (VERIF, d)
    return '(cargo kani %s)'


UNDECIDED = re.compile(r'unwinding assertion|not currently supported|unsupported|is unreachable\?|recursion unwinding|reach(ed)? .*limit', re.I)


class Kani:
    def __init__(self, pid, tier, key, pats=None):
        self.pid, self.tier, self.key = pid, tier, key
        u = UNITS[pid]
        self.pats = pats if pats is not None else list(u.get('kani', [])) + (list(u.get('kani_thorough', [])) if tier == 'thorough' else [])
        self.flags = u.get('kani_flags', '')
        self.res = {}        # harness -> dict
        self.error = None
        self.cmd = None
        self.wall = 0.0

    def run(self):
        if not self.pats:
            return
        t = time.time()
        for name, flags in CFGS:
            d = fresh_dir('kani-%s' % self.pid, self.key)
            ht = UNITS[self.pid].get('harness_timeout', 400) if self.tier == 'quick' else 700
            hs = ' '.join('--harness ' + p for p in self.pats)
            self.cmd = 'RUSTFLAGS="%s" cargo kani -Z stubbing -Z unstable-options %s %s' % (flags, self.flags, hs)
            args = '-Z stubbing -Z unstable-options %s %s -j 8 --harness-timeout %ds --output-format terse 2>&1' % (self.flags, hs, ht)
            rc, out = sh('unset RUSTUP_TOOLCHAIN; export CARGO_NET_OFFLINE=true; cd %s/kani; ulimit -v 20000000; '
                         'export RUSTFLAGS="%s -Awarnings" CARGO_TARGET_DIR=%s; ' % (VERIF, flags, d) + kani_command() % args, 780)
            self.parse(out)
            if self.res or rc is None:
                self.error = None if rc is not None else 'time limit'
                break
            self.error = out[-3000:]
        self.wall = time.time() - t
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(d, ignore_errors=True)

    def parse(self, out):
        cur = {}
        th = '0'
        for l in out.splitlines():
            m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
            if m:
                th = m.group(1) or '0'
                h = m.group(2)
                cur[th] = h
                self.res[h] = dict(status='undecided', why='no result', checks=0, failed=0, unreachable=0, covers=(0, 0), time=0.0, fails=[])
                continue
            m = re.match(r'Thread (\d+): ?(.*)$', l)
            if m:
                th = m.group(1)
                l = m.group(2)
            if th not in cur:
                continue
            r = self.res[cur[th]]
            m = re.match(r' \*\* (\d+) of (\d+) failed(?: \((.*)\))?', l)
            if m:
                r['failed'], r['checks'] = int(m.group(1)), int(m.group(2))
                for n, w in re.findall(r'(\d+) (\w+)', m.group(3) or ''):
                    r[w] = int(n)
            m = re.match(r' \*\* (\d+) of (\d+) cover properties satisfied', l)
            if m:
                r['covers'] = (int(m.group(1)), int(m.group(2)))
            m = re.match(r'Failed Checks: (.*)', l)
            if m:
                r['fails'].append(m.group(1))
            m = re.match(r'\s+File: "(.*)", line (\d+), in (.*)', l)
            if m and r['fails'] and ' [' not in r['fails'][-1]:
                r['fails'][-1] += ' [%s:%s in %s]' % m.groups()
            m = re.match(r'VERIFICATION:- (\w+)', l)
            if m:
                if m.group(1) == 'SUCCESSFUL':
                    r['status'], r['why'] = 'proved', ''
                    r['expected_panics'], r['failed'] = r['failed'], 0
                else:
                    hard = [f for f in r['fails'] if not UNDECIDED.search(f)]
                    soft = [f for f in r['fails'] if UNDECIDED.search(f)]
                    if hard and not soft:
                        r['status'], r['why'] = 'failed', '; '.join(hard[:4])
                    else:
                        r['status'], r['why'] = 'undecided', '; '.join((soft or ['no failed check reported'])[:2])
            if 'TIMEOUT' in l or 'timed out' in l.lower() or 'out of memory' in l.lower():
                r['status'], r['why'] = 'undecided', l.strip()
            m = re.match(r'Verification Time: ([\d.]+)', l)
            if m:
                r['time'] = float(m.group(1))
        for h, r in self.res.items():
            if r['status'] == 'proved' and not r['covers'][1]:
                r['status'], r['why'] = 'undecided', 'the list of checks is incomplete'
            if r['status'] == 'proved' and r['covers'][0] == 0:
                r['status'], r['why'] = 'undecided', 'vacuous: no cover point reached'


# ---------------------------------------------------------------- main

def known_keys(pid):
    ks = {}
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                ks[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return ks


def short(h):
    return h.split('::')[-1]


def is_bounded(h):
    return '_b_' in short(h)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    u = UNITS[pid]
    key = source_hash()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    nat, kan = Native(pid, tier, seed, key), Kani(pid, tier, key)
    ver = vx.Verus(pid, tier, u.get('verus', []), os.path.join(BUILD, 'verus-%s' % pid))
    nres = {}

    def native_stage():
        if nat.build():
            r = nat.run(tier, seed)
            nres.update(r)
            log('native: %s cases, %d failing' % (r.get('ran'), len(r['fail'])))
        else:
            log('native: the code did not build with the hooks')
    ths = [threading.Thread(target=native_stage), threading.Thread(target=kan.run), threading.Thread(target=ver.run)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    log('kani: %d harnesses in %.0f s %s' % (len(kan.res), kan.wall, kan.error and kan.error[-1500:] or ''))
    for h, r in sorted(kan.res.items()):
        if r['status'] != 'proved':
            log('   ', r['status'], short(h), r['why'])
    for f in ver.report_lines():
        log(f)
    if nat.bin is None and not kan.res and not ver.ran_any():
        log('nothing could be built from /repo; no answer')
        log(nat.error or '')
        sys.exit(3)

    # a unit the extraction lost, or whose proof no longer goes through as annotated: the
    # same contracts over whole operations, discharged without the annotations
    fb = u.get('fallback', {})
    lost = {n.split('::')[0] for n, _ in ver.failed()} | {n for n, _ in ver.undecided()}
    pats = sorted({p for s in lost for p in fb.get(s, [])})
    if pats and not nres.get('fail') and DEADLINE - time.time() > 60:
        log('contracts of %s discharged anew by Kani' % ', '.join(sorted(lost)))
        k2 = Kani(pid, 'quick', key, pats)
        k2.run()
        log('kani: %d harnesses in %.0f s' % (len(k2.res), k2.wall))
        for h, r in sorted(k2.res.items()):
            if r['status'] != 'proved':
                log('   ', r['status'], short(h), r['why'])
        if k2.res and not k2.error and all(r['status'] == 'proved' for r in k2.res.values()):
            for s in lost:
                if fb.get(s):
                    ver.superseded(s, 'the same contracts proved by Kani on this source: ' + ', '.join(fb[s]))
        kan.res.update(k2.res)

    # failed obligations
    obl = [('kani ' + short(h), r['why'], r) for h, r in sorted(kan.res.items()) if r['status'] == 'failed']
    obl += [('verus ' + n, why, None) for n, why in ver.failed()]
    listed = known_keys(pid)
    viol = list(nres.get('fail', []))
    for k in nres.get('known', []):
        if k['key'] in listed:
            print('KNOWN-FINDING: property=%s %s [%s; here: %s -> %s]' % (pid, listed[k['key']], k['key'], k['case'], k['observed']), flush=True)
        else:
            viol.append(k)
    if obl and not viol and nat.bin:
        # search further for an input that shows the failed obligation on the real code
        log('an obligation failed; searching further for a failing input')
        for s2, t2 in [(seed + 1000, 'thorough'), (seed + 2000, 'thorough')]:
            if DEADLINE - time.time() < 60:
                break
            r2 = nat.run(t2, s2, timeout=min(240, DEADLINE - time.time() - 20))
            viol += r2['fail'] + [k for k in r2['known'] if k['key'] not in listed]
            nres['ran'] = nres.get('ran', 0) + r2['ran']
            if viol:
                break

    # evidence
    level = u['level']
    proofs = {h: r for h, r in kan.res.items() if not is_bounded(h)}
    bnds = {h: r for h, r in kan.res.items() if is_bounded(h)}
    ob_n = sum(r['checks'] for r in proofs.values()) + ver.obligations()
    ob_d = sum(r['checks'] - r['failed'] for r in proofs.values() if r['status'] == 'proved') + ver.discharged()
    undecided = ['kani %s: %s' % (short(h), r['why']) for h, r in sorted(kan.res.items()) if r['status'] == 'undecided']
    undecided += ['verus %s: %s' % x for x in ver.undecided()]
    if kan.error:
        undecided.append('kani: ' + kan.error[-400:])
    if nat.bin is None:
        undecided.append('native: did not build with the hooks: ' + (nat.error or '')[-400:])
    cov = dict(
        obligations=ob_n, discharged=ob_d,
        checker_cmd=' ; '.join(x for x in [kan.cmd, ver.cmd] if x) or 'none',
        trusted_base=u.get('trusted', []) + vx.TRUSTED_COMMON if ver.specs else u.get('trusted', []) + ['rustc, Kani and CBMC (cadical) are sound; the harness text in /verif/kani states the contract'],
        functions_under_contract=u.get('functions', []),
        kani_proofs=[dict(harness=short(h), obligations=r['checks'], failed=r['failed'], unreachable=r.get('unreachable', 0), covers='%d of %d' % r['covers'],
                          solver_s=r['time'], status=r['status']) for h, r in sorted(proofs.items())],
        bounded_checks=[dict(harness=short(h), obligations=r['checks'], covers='%d of %d' % r['covers'], solver_s=r['time'], status=r['status'],
                             bound=u.get('bounds', {}).get(short(h)) or u.get('bound', 'see the harness')) for h, r in sorted(bnds.items())],
        verus=ver.evidence(),
        native_replay=dict(cases=nres.get('ran', 0), families=nres.get('families', []), build=nat.cfg, sanitizer='address', seed=seed),
        undecided=undecided,
        explanation=u.get('explanation', ''),
    )
    if level in ('exploration', 'other'):
        cov['evaluations'] = nres.get('ran', 0)
        cov['samples'] = nres.get('samples', [])[:12]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=u.get('assumptions', []) + ver.assumptions(), wall_s=round(time.time() - T0, 1), violations=len(viol) or len(obl))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    nat.cleanup()

    if undecided:
        for x in undecided:
            log('undecided:', x[:300].replace('\n', ' '))
    if not viol and not obl:
        if nat.bin is None and (undecided or not (kan.res or ver.ran_any())):
            log('no stage decided the property')
            sys.exit(3)
        log('%s held: %d obligations, %d discharged, %d bounded checks, %d native cases' % (pid, ob_n, ob_d, len(bnds), nres.get('ran', 0)))
        sys.exit(0)
    rd = os.path.join(VERIF, 'replays')
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, '%s-%d.json' % (pid, int(time.time())))
    rec = dict(property=pid, failed_obligations=[dict(obligation=n, reason=w) for n, w, _ in obl], failing_inputs=viol[:5],
               verifier_output=ver.output()[-6000:] if ver.failed() else [dict(harness=n, checks=r['fails']) for n, _, r in obl if r],
               replay=['bin/replay %s' % rp], hooks=nat.cfg)
    json.dump(rec, open(rp, 'w'), indent=1)
    for n, w, _ in obl:
        log('FAILED OBLIGATION', n, ':', w)
    for v in viol[:3]:
        log('FAILING INPUT case %d: %s -> %s' % (v['index'], v['case'][:600], v['observed'][:600]))
    tail = '' if viol else ' no-failing-input-found'
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, tail), flush=True)
    sys.exit(1)


if __name__ == '__main__':
    main()
