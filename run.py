#!/opt/veriftools/pyvenv/bin/python3
"""run.py <property> : generate harnesses, compile them with /repo's current source to LLVM IR,
decide every assertion with the symbolic executor, replay counterexamples natively, write evidence.

exit 0: holds on everything explored; exit 1 + VIOLATION line: broken; exit 2: no answer."""
import glob
import hashlib
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + '/engine')
sys.path.insert(0, ROOT + '/gen')
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = ROOT + '/.cache'


def sh(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


CARGO = '''[package]
name = "%(name)s"
version = "0.0.0"
edition = "2024"
[lib]
crate-type = ["cdylib", "rlib"]
path = "src/lib.rs"
[[bin]]
name = "replay_%(name)s"
path = "src/main.rs"
required-features = ["replay"]
[features]
replay = []
[workspace]
[dependencies]
open-dis-rust = { path = "%(repo)s" }
bytes = "1.8"
%(deps)s
[profile.ir]
inherits = "release"
opt-level = 2
lto = "fat"
codegen-units = 1
panic = "abort"
overflow-checks = true
debug = false
[profile.dev]
debug = false
opt-level = 0
[profile.release]
debug = false
'''


def source_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO + '/src')):
        ds.sort()
        for f in sorted(fs):
            h.update((d + '/' + f).encode())
            h.update(open(d + '/' + f, 'rb').read())
    for f in ('Cargo.toml', 'Cargo.lock'):
        if os.path.exists(REPO + '/' + f):
            h.update(open(REPO + '/' + f, 'rb').read())
    return h.hexdigest()


class Crate:
    def __init__(self, pid, source, deps=''):
        self.name = 'h_' + pid.lower()
        self.dir = CACHE + '/crates/' + self.name
        self.target = CACHE + '/target'
        os.makedirs(self.dir + '/src', exist_ok=True)

        def put(path, text):
            if not os.path.exists(path) or open(path).read() != text:
                open(path, 'w').write(text)
        put(self.dir + '/Cargo.toml', CARGO % dict(name=self.name, repo=REPO, deps=deps))
        put(self.dir + '/src/lib.rs', source)
        put(self.dir + '/src/main.rs', open(ROOT + '/gen/replay_main.rs').read().replace('CRATE', self.name))
        if os.path.exists(REPO + '/Cargo.lock'):
            shutil.copy(REPO + '/Cargo.lock', self.dir + '/Cargo.lock')

    def ir(self, opt=2):
        for f in glob.glob(self.target + '/ir/deps/%s*.ll' % self.name):
            os.remove(f)
        # cargo compares modification times only: make sure that what is compiled is what is there now
        os.utime(self.dir + '/src/lib.rs')
        self.fresh(self.target)
        rc, out = sh(['cargo', 'rustc', '--offline', '--lib', '--crate-type', 'cdylib', '--profile', 'ir', '--', '--emit=llvm-ir',
                      '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-A', 'warnings'],
                     self.dir, {'CARGO_TARGET_DIR': self.target, 'CARGO_PROFILE_IR_OPT_LEVEL': str(opt)})
        fs = glob.glob(self.target + '/ir/deps/%s*.ll' % self.name)
        if rc or not fs:
            raise RuntimeError('harness build failed:\n' + out[-4000:])
        return max(fs, key=os.path.getmtime)

    def fresh(self, target):
        """forget the build of /repo's crate when its sources changed since"""
        stamp = target + '/source.sha256'
        now = source_hash()
        if os.path.isdir(target) and (not os.path.exists(stamp) or open(stamp).read() != now):
            sh(['cargo', 'clean', '--offline', '-p', 'open-dis-rust'], self.dir, {'CARGO_TARGET_DIR': target})
            for prof in ('ir', 'release'):
                sh(['cargo', 'clean', '--offline', '-p', 'open-dis-rust', '--profile', prof], self.dir, {'CARGO_TARGET_DIR': target})
        os.makedirs(target, exist_ok=True)
        open(stamp, 'w').write(now)

    def native(self, profile):
        self.fresh(self.target + '-native')
        args = ['cargo', 'build', '--offline', '--features', 'replay', '--bin', 'replay_' + self.name]
        if profile == 'release':
            args.append('--release')
        rc, out = sh(args, self.dir, {'CARGO_TARGET_DIR': self.target + '-native'})
        if rc:
            raise RuntimeError('replay build failed:\n' + out[-3000:])
        return self.target + '-native/%s/replay_%s' % ('debug' if profile == 'dev' else 'release', self.name)


AS_LIMIT = 4
MODULE = None
OPTS = {}
HOPTS = {}


def work(h):
    import sym
    t = time.time()
    o = dict(OPTS)
    o.update(HOPTS.get(h, {}))
    e = sym.Engine(MODULE, o)

    def late(*_):
        raise sym.Inconclusive('time limit')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(e.time_limit) + 60)
    try:
        v, c = e.run(h)
        err = 'inconclusive: %s' % e.partial if e.partial else None
    except (sym.Inconclusive,) as x:
        v, c, err = [], {}, 'inconclusive: %s' % x + (traceback.format_exc() if os.environ.get('VERIF_DEBUG') else '')
    except RecursionError:
        v, c, err = [], {}, 'recursion limit'
    except MemoryError:
        v, c, err = [], {}, 'memory'
    except Exception as x:
        v, c, err = [], {}, '%s: %s' % (type(x).__name__, str(x)[:300])
        if os.environ.get('VERIF_DEBUG'):
            err += traceback.format_exc()
    signal.alarm(0)
    fns = sorted(MODULE.demangled.get(f, f) for f in e.funcs)
    wit = [dict(id=x['id'], kind='cover', inputs=[i.hex() for i in x['inputs']], clock=x['clock']) for x in e.witness] if not err else []
    return h, [dict(id=x['id'], kind=x['kind'], inputs=[i.hex() for i in x['inputs']], clock=x['clock']) for x in v], c, e.stats, fns, err, time.time() - t, wit


def replay(binary, h, viol, timeout=60, tag=''):
    f = binary + '.in.%d%s' % (os.getpid(), tag)
    with open(f, 'w') as fh:
        for i in viol['inputs']:
            fh.write('in %s\n' % i)
        for a, b in viol['clock']:
            fh.write('clock %d %d\n' % (a, b))

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT << 30, AS_LIMIT << 30))
    try:
        p = subprocess.run([binary, h, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim)
        out = p.stdout.decode('utf8', 'replace')
        rc = p.returncode
    except subprocess.TimeoutExpired:
        out, rc = 'TIMEOUT', -1
    os.remove(f)
    if viol['kind'] == 'panic':
        ok = 'PANIC' in out
    else:
        ok = re.search(r'^FAILED %s$' % viol['id'], out, re.M) is not None
    return ok, rc, out[:2000]


def validate(binary, res, known_bad):
    """run every reachability witness natively: what the solver says of that input must be what the compiled code does"""
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(r[0], w) for r in res for w in r[7]]

    def one(j):
        n, (h, w) = j
        _, rc, out = replay(binary, h, w, tag='.%d' % n)
        bad = [x for x in re.findall(r'^FAILED (\d+)$', out, re.M) if (h, int(x)) not in known_bad]
        if re.search(r'^UNTESTED', out, re.M):
            return h, None, 'untested', w
        if 'REPLAY-' in out or 'TIMEOUT' in out:
            return h, 'witness is not an input of the harness: %s' % out[-200:], None, w
        if bad:
            return h, None, int(bad[0]), w
        if 'PANIC' in out and not any(k == h for k, _ in known_bad):
            return h, None, 'panic', w
        if not re.search(r'^COVER %d$' % w['id'], out, re.M) and 'PANIC' not in out:
            return h, 'witness does not reach its cover natively: %s' % out[-200:], None, w
        return h, None, None, w
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, enumerate(jobs)))


def main():
    global MODULE, OPTS, HOPTS, AS_LIMIT
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = [a.split('=', 1)[1] for a in sys.argv if a.startswith('--only=')]
    import spec
    import props
    g = spec.Gen()
    P = props.PROPS[pid]
    AS_LIMIT = P.get('as_limit', 4)
    P['gen'](g, tier == 'thorough')
    src = g.source(open(ROOT + '/gen/prelude.rs').read() + P.get('prelude', ''))
    if not only:
        print('%s: %d harnesses generated' % (pid, len(g.harness)))
    os.makedirs(CACHE, exist_ok=True)
    cr = Crate(pid, src)
    tb = time.time()
    ll = cr.ir()
    build_s = time.time() - tb
    import ir
    MODULE = ir.Module(ll)
    OPTS = dict(time_limit=P.get('time_limit', 240 if tier == 'quick' else 900), query_ms=P.get('query_ms', 120000))
    OPTS.update(P.get('opts', {}))
    HOPTS = {h: m['opts'] for h, _, m in g.harness if 'opts' in m}
    meta = {h: m for h, _, m in g.harness}
    names = [h for h, _, _ in g.harness]
    if only:
        names = [h for h in names if any(re.search(o, h) for o in only)]
    names.sort(key=lambda h: -meta[h].get('cost', 0))
    known = [k for k in json.load(open(ROOT + '/known_findings.json'))['findings'] if k['property'] == pid]

    def label(x):
        return g.ids[x['id']]['label'] if x['kind'] == 'assert' else x['id']

    def known_for(h, lab):
        return next((k for k in known if re.fullmatch(k['harness'], h) and re.fullmatch(k['label'], lab)), None)

    def execute(names, deadline):
        """all harnesses in parallel; what is not decided by the deadline, or some time after a violation turned up, is left undecided"""
        out, undone = [], set(names)
        ctx = mp.get_context('fork')
        with ctx.Pool(min(8, len(names) or 1), maxtasksperchild=P.get('tasks', 40)) as pool:
            it = pool.imap_unordered(work, names, chunksize=P.get('chunk', 1))
            while undone:
                try:
                    r = it.next(timeout=max(0.1, deadline - time.time()))
                except mp.TimeoutError:
                    pool.terminate()
                    break
                out.append(r)
                undone.discard(r[0])
                if any(not known_for(r[0], label(x)) for x in r[1]):
                    deadline = min(deadline, time.time() + 45)
                if only:
                    print(r[0], [(x['id'], label(x)) for x in r[1]],
                          {k: (round(v, 2) if isinstance(v, float) else v) for k, v in r[3].items()}, r[5], round(r[6], 2))
        return out, sorted(undone)
    res, undone = execute(names, t0 + (600 if tier == 'quick' else 780))
    # what the executor could not follow is tried once more on code the compiler rearranged less
    again = [r[0] for r in res if r[5]]
    if again and not undone and not any(not known_for(r[0], label(x)) for r in res for x in r[1]) and time.time() - t0 < 500:
        print('NOTE %d harnesses repeated on less optimised code: %s' % (len(again), '; '.join('%s (%s)' % (r[0], r[5][:80]) for r in res if r[5])[:600]))
        MODULE = ir.Module(cr.ir(1))
        res2, undone2 = execute(again, t0 + (640 if tier == 'quick' else 800))
        better = {r[0]: r for r in res2 if not r[5] or r[1]}
        res = [better.get(r[0], r) for r in res]
    res.sort()
    errors = ['%s: not decided in the time available' % h for h in undone]
    for h, v, c, st, fns, err, dt, wit in res:
        if err:
            errors.append('%s: %s' % (h, err))
    # vacuity: every cover of every harness must be reachable (or, for those naming a panic/violation, explained)
    vac = []
    cover_ids = {}
    for i, m in g.ids.items():
        if m['label'].startswith('reached'):
            cover_ids.setdefault(m['harness'], []).append(i)
    ncover = 0
    for h, v, c, st, fns, err, dt, wit in res:
        for i in cover_ids.get(h, []):
            if c.get(i):
                ncover += 1
            elif not v and not err:
                vac.append('%s: %s not reached' % (h, g.ids[i]['label']))
        if not cover_ids.get(h) and not err:
            vac.append('%s has no reachability witness' % h)
    # violations
    viols = []
    for h, v, c, st, fns, err, dt, wit in res:
        for x in v:
            viols.append((h, label(x), x))
    kept, hits = [], {}
    rep = []
    bins = {'dev': cr.native('dev')}
    traces = 0
    for h, e, bad, w in validate(bins['dev'], res, set((h, x['id'] if x['kind'] == 'assert' else 'panic') for h, _, x in viols)):
        if e:
            errors.append('%s: %s' % (h, e))
        elif bad == 'untested':
            pass
        elif bad is not None:
            # the compiled code fails on an input the symbolic execution found fine: it is the code that counts
            print('NOTE %s: native execution disagrees with the symbolic one' % h)
            viols.append((h, g.ids[bad]['label'] if bad != 'panic' else 'panic', dict(w, id=bad, kind='panic' if bad == 'panic' else 'assert')))
        else:
            traces += 1
    if viols:
        bins['release'] = cr.native('release')
        for h, lab, x in viols:
            rs = {p: replay(b, h, x) for p, b in bins.items()}
            ok = any(r[0] for r in rs.values())
            rep.append(dict(harness=h, label=lab, reproduced={p: r[0] for p, r in rs.items()}))
            if not ok:
                errors.append('%s: counterexample for "%s" does not reproduce natively: %s' % (h, lab, {p: r[2][-200:] for p, r in rs.items()}))
                continue
            k = known_for(h, lab)
            if k:
                hits.setdefault(k['id'], []).append((h, lab))
            else:
                kept.append((h, lab, x, rs))
    for k in known:
        if k['id'] in hits:
            print('KNOWN-FINDING: property=%s %s (%s; %d failing assertions)' % (pid, k['what'], k['id'], len(hits[k['id']])))
    rc = 0
    if kept:
        rc = 1
        os.makedirs(ROOT + '/evidence/replay', exist_ok=True)
        for n, (h, lab, x, rs) in enumerate(kept[:20]):
            path = ROOT + '/evidence/replay/%s_%d.json' % (pid, n)
            json.dump(dict(property=pid, harness=h, assertion=lab, kind=x['kind'], inputs=x['inputs'], clock=x['clock'],
                           reproduced={p: dict(ok=r[0], output=r[2]) for p, r in rs.items()}, source=harness_src(g, h),
                           how='python3-vt %s/run.py %s --only=^%s$ re-derives it; inputs are the bytes each any() call returns, in order' % (ROOT, pid, h)),
                      open(path, 'w'), indent=1)
            if n < 8:
                print('  %s: %s; inputs %s' % (h, lab, ' '.join(x['inputs'])[:200]))
            if n == 0:
                print('VIOLATION property=%s replay=%s' % (pid, path))
    elif errors or vac:
        rc = 2
    for e in errors[:10]:
        print('ERROR', e)
    for e in vac[:10]:
        print('VACUOUS', e)
    tot = {}
    for r in res:
        for k, v in r[3].items():
            tot[k] = tot.get(k, 0) + v
    fns = sorted(set(f for r in res for f in r[4] if not f.startswith(('h_', 'Function Attrs')) and not f.startswith(pid.lower() + '_')))
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'], wall_s=round(time.time() - t0, 2), violations=len(kept),
              assumptions=P['assumptions'],
              coverage=dict(
                  explanation=P['explain'], bounds=P['bounds'],
                  obligations=tot.get('obligations', 0),
                  discharged=tot.get('obligations', 0) - len(viols) if not errors else tot.get('obligations', 0) - len(viols) - len(errors),
                  checker_cmd='z3 %s through /verif/engine (LLVM IR symbolic executor)' % __import__('z3').get_version_string(),
                  trusted_base=['rustc %s front end and LLVM -O2 pipeline (IR taken after optimisation)' % rustc_version(), '/verif/engine', 'z3',
                                '/verif/spec tables and generated reference codecs', 'stubs: %s' % ', '.join(P.get('stubs', ['alloc::fmt::format', 'allocator']))],
                  evaluations=len(res), distinct_nontrivial=ncover,
                  rule='one evaluation = one harness executed symbolically; non-trivial = its reachability witness is satisfiable',
                  states=tot.get('paths', 0) + tot.get('forks', 0) + tot.get('merges', 0), transitions=tot.get('steps', 0),
                  traces_validated_against_impl=traces,
                  harnesses=len(res), harness_errors=errors[:50], vacuous=vac[:50],
                  solver_queries=tot.get('queries', 0) + tot.get('branch_queries', 0), obligation_queries=tot.get('queries', 0),
                  branch_queries=tot.get('branch_queries', 0), solver_s=round(tot.get('solver_s', 0), 3),
                  instructions_executed=tot.get('steps', 0), forks=tot.get('forks', 0), merges=tot.get('merges', 0), paths=tot.get('paths', 0),
                  panic_sites_reached=tot.get('panics', 0), discharged_by_rewriting=tot.get('rewritten', 0),
                  build_s=round(build_s, 2), ir_bytes=os.path.getsize(ll), ir_sha256=hashlib.sha256(open(ll, 'rb').read()).hexdigest(),
                  source_sha256=source_hash(),
                  functions_encoded=dict(targets=sorted(set(P['targets'](g))), out_of_line=fns[:300], out_of_line_count=len(fns)),
                  known_findings={k: [list(x) for x in v][:60] for k, v in hits.items()}, replays=rep[:60],
                  samples=[dict(harness=r[0], steps=r[3]['steps'], obligations=r[3]['obligations'], queries=r[3]['queries'] + r[3]['branch_queries'],
                                meta={k: v for k, v in meta[r[0]].items() if k != 'opts'}) for r in res[:3] + res[-2:]]))
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    if not only:
        json.dump(ev, open(ROOT + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s %s: %d harnesses, %d obligations, %d solver queries (%.1f s solver), %.1f s build, %.1f s total, %d violations, %d errors' % (
        pid, tier, len(res), tot.get('obligations', 0), tot.get('queries', 0) + tot.get('branch_queries', 0), tot.get('solver_s', 0), build_s,
        time.time() - t0, len(kept), len(errors) + len(vac)))
    sys.stdout.flush()
    os._exit(rc)


def harness_src(g, h):
    return next(b for n, b, _ in g.harness if n == h)


def rustc_version():
    try:
        return sh(['rustc', '--version'], '/')[1].split()[1]
    except Exception:
        return '?'


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(2)
