"""Running checks: extraction of the current tree, obligations, verdicts, evidence, known findings."""
import sys, os, re, json, signal, time, subprocess, tempfile, shutil, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import terms
from terms import *
from state import State, con
from interp import Interp, Program, Budget, Pl, INTR, WID, CallCtx
import models
from paths import norm as npath

REPO = os.environ.get('UWUHI_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class NoAnchor(Exception):
    """an item of the public interface the property speaks about does not exist"""


class Unknown(Exception):
    """the analysis cannot decide"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def driver():
    src = os.path.join(VERIF, 'extract', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'mirextract-' + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='drv', dir=BUILD)
        r = sh(['rustc', '+nightly', '-O', '--edition', '2021', '-Awarnings', src, '-o', os.path.join(tmp, 'd')], cwd=tmp)
        if r.returncode:
            print(r.stdout[-3000:])
            raise SystemExit('cannot build the extraction driver')
        os.replace(os.path.join(tmp, 'd'), out)
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def extract(dest):
    """typed, monomorphised MIR of the current tree of REPO -> dest/{uwuhi,uwuhi_async}.json"""
    drv = driver()
    env = dict(os.environ)
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip().splitlines()[-1]
    env['LD_LIBRARY_PATH'] = sysroot + '/lib'
    env['MIREXTRACT_OUT'] = dest
    env['RUSTC_WORKSPACE_WRAPPER'] = drv
    env['CARGO_TARGET_DIR'] = os.path.join(dest, 'tgt')
    env['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings'
    env.pop('RUSTC_WRAPPER', None)
    lock = ['--locked'] if os.path.exists(os.path.join(REPO, 'Cargo.lock')) else []
    r = sh(['cargo', '+nightly', 'check', '--workspace', '--lib', '--offline'] + lock, cwd=REPO, env=env)
    shutil.rmtree(os.path.join(dest, 'tgt'), ignore_errors=True)
    for c in ('uwuhi', 'uwuhi_async'):
        if not os.path.exists(os.path.join(dest, c + '.json')):
            print(r.stdout[-4000:])
            raise SystemExit('the tree in %s does not build: nothing can be decided' % REPO)


class Check:
    def __init__(self, pid, tier, dir_):
        self.pid, self.tier, self.dir = pid, tier, dir_
        self.obs = []            # (verdict, rule, construct, detail)
        self.samples = []
        self.assumptions = []
        self.stats = {'functions': set(), 'call_sites': 0, 'blocks': 0, 'entries': 0}
        self._progs = {}
        self.level = 'proof'

    def prog(self, crate='uwuhi'):
        p = self._progs.get(crate)
        if p is None:
            p = self._progs[crate] = Program(os.path.join(self.dir, crate + '.json'), canonical)
            index(p)
        use(p)
        return p

    # ---- verdicts
    def ob(self, ok, rule, construct, detail=''):
        """ok: True discharged / False violated / None undecided"""
        v = 'ok' if ok is True else 'violated' if ok is False else 'undecided'
        self.obs.append((v, rule, construct, detail))
        return ok

    def group(self, construct, fn, *a, must=False):
        """run a piece of analysis; inability to analyse is 'undecided', a missing public item a violation"""
        try:
            with Limit():
                return fn(*a)
        except TimeOver:
            self.ob(None, 'analysed within the time limit', construct, 'time')
            if Limit.over():
                raise
        except NoAnchor as e:
            self.ob(False, 'the interface the property is about exists', construct, str(e))
        except Unknown as e:
            self.ob(None, 'analysed', construct, str(e))
        except Budget:
            self.ob(False if must else None, 'analysed within the step budget', construct, 'budget')
        except Exception as e:
            if os.environ.get('VDEBUG'):
                traceback.print_exc()
            self.ob(None, 'analysed', construct, repr(e) + ' ' + traceback.format_exc().strip().split('\n')[-3])
        return None

    # ---- running functions
    def interp(self, p, **opts):
        ip = Interp(p, models.M, opts)
        return ip

    def account(self, ip):
        self.stats['functions'] |= {(ip.p.d['crate'], i) for i in ip.called}
        self.stats['call_sites'] += ip.sites
        self.stats['blocks'] += ip.steps
        self.stats['entries'] += 1


class TimeOver(BaseException):
    pass


class Limit:
    """each piece of analysis gets 150 s, and all together 600 s; what is not finished by then is undecided"""
    EACH, ALL = 150, 600
    stack = []
    start = time.time()

    def __enter__(self):
        now = time.time()
        self.stack.append(min([now + self.EACH] + self.stack[-1:] + [self.start + self.ALL]))
        self.arm()

    def __exit__(self, *e):
        self.stack.pop()
        self.arm()

    @classmethod
    def over(cls):
        return bool(cls.stack) and time.time() >= cls.stack[-1] or time.time() >= cls.start + cls.ALL

    @classmethod
    def arm(cls):
        def ring(*a):
            raise TimeOver()
        signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, max(0.01, cls.stack[-1] - time.time()) if cls.stack else 0)


def canonical(raw, d):
    """types that moved to another module keep, for the analysis, the path they are known by (names.txt), if that is unambiguous"""
    known = open(os.path.join(HERE, 'names.txt')).read().split()
    have = [a['path'] for a in d['adts'] if '::_::' not in a['path']]
    for k in known:
        if not k.startswith(d['crate'] + '::') or k in have:
            continue
        last = k.rsplit('::', 1)[-1]
        cand = [h for h in have if h.rsplit('::', 1)[-1] == last and h not in known]
        if len(cand) == 1:
            raw = re.sub(r'(?<![A-Za-z0-9_:])' + re.escape(cand[0]) + r'(?![A-Za-z0-9_])', k, raw)
    return raw


def index(p):
    p.npath = {}
    for b in p.d['bodies']:
        if b['body'] is None:
            continue
        n = npath(b['path'])
        p.npath.setdefault(n, []).append(b)
        if b.get('self') and b.get('item') and not b.get('trait'):
            n2 = npath(b['self'] + '::' + b['item'])
            if n2 != n:
                p.npath.setdefault(n2, []).append(b)


def fn(p, path, pick=None):
    """bodies of a function by its normalised path"""
    bs = p.npath.get(path) or []
    if pick:
        bs = [b for b in bs if pick(b)]
    if not bs:
        raise NoAnchor('no function %s' % path)
    # the identity instance first
    bs = sorted(bs, key=lambda b: b['id'])
    return bs[0]


def has(p, path):
    return bool(p.npath.get(path))


def loc(b):
    return '%s (%s)' % (b['path'], b.get('span', '?'))


# ---- decision helpers -------------------------------------------------------------------------
def spec_bool(st, v, cases):
    """cases: [([(cond term, polarity)...], expected bool)]: v must equal expected whenever the conditions hold.
    -> list of failing case indexes"""
    bad = []
    for i, (conds, exp) in enumerate(cases):
        s = st.copy()
        if not all(s.assume(c, pol) for c, pol in conds):
            continue
        if s.truth(v) is not exp:
            bad.append(i)
    return bad


def same_bits(st, x, y):
    """are two integer terms provably the same value in this state?"""
    x, y = st.norm(x), st.norm(y)
    if x is y:
        return True
    bx, by = bits_of(x), bits_of(y)
    if bx is not None and by is not None:
        if bnorm([s for s in renorm(st, bx)]) == bnorm([s for s in renorm(st, by)]):
            return True
    return st.entails_eq(x, y)


def renorm(st, segs):
    out = []
    for src, lo, n in segs:
        if isinstance(src, T):
            t = st.norm(frombits([(src, lo, n)]))
            b = bits_of(t)
            if b is not None:
                out += bslice(b, 0, n)
                continue
        out.append((src, lo, n))
    return out


def known_findings():
    """committed list of findings: {property: [(id, text)]}; 'fixed:' lines suppress nothing"""
    out = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('finding: '):
                d = dict(x.split('=', 1) for x in l[9:].split(' ', 2)[:2])
                out.setdefault(d['property'], []).append((d['id'], l[9:].split(' ', 2)[2]))
    return out


def finish(c, t0, seed, explanation, trusted):
    viol = [o for o in c.obs if o[0] == 'violated']
    known = known_findings().get(c.pid, [])
    rest, seen = [], set()
    for o in viol:
        key = '%s|%s' % (o[1], o[2].split(' (')[0])
        k = [x for x in known if key.startswith(x[0].replace('~', ' '))]
        if k:
            if k[0][0] not in seen:
                seen.add(k[0][0])
                print('KNOWN-FINDING: property=%s %s' % (c.pid, k[0][1]))
        else:
            rest.append(o)
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    n = len(c.obs)
    disc = sum(o[0] == 'ok' for o in c.obs)
    und = [o for o in c.obs if o[0] == 'undecided']
    cov = {'obligations': n, 'discharged': disc, 'undecided': len(und), 'known': len(viol) - len(rest),
           'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (c.pid, c.tier), 'trusted_base': trusted,
           'explanation': explanation, 'functions_analysed': len(c.stats['functions']), 'call_sites_analysed': c.stats['call_sites'],
           'blocks_analysed': c.stats['blocks'], 'entry_points': c.stats['entries'],
           'rules': sorted({o[1] for o in c.obs}),
           'samples': [{'rule': o[1], 'construct': o[2], 'verdict': o[0], 'detail': o[3][:300]} for o in (rest + und + c.obs)[:40]]}
    ev = {'property': c.pid, 'tier': c.tier, 'seed': seed, 'level': c.level if disc == n else ('other' if c.level == 'proof' else c.level),
          'coverage': cov, 'assumptions': c.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(rest)}
    tmp = os.path.join(evd, '.%s.%d' % (c.pid, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(evd, c.pid + '.json'))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d functions, %d call sites, %d blocks; %.1fs)' % (
        c.pid, n, disc, len(und), len(rest), cov['functions_analysed'], cov['call_sites_analysed'], cov['blocks_analysed'], time.time() - t0))
    for o in und[:20]:
        print('  undecided: %s: %s: %s' % (o[2], o[1], o[3][:400]))
    if rest:
        rp = os.path.join(evd, c.pid + '.violation.txt')
        with open(rp, 'w') as f:
            for o in rest:
                f.write('%s\n  rule: %s\n  %s\n' % (o[2], o[1], o[3]))
        for o in rest[:30]:
            print('  violated: %s: %s: %s' % (o[2], o[1], o[3][:600]))
        print('VIOLATION property=%s replay=%s' % (c.pid, rp))
        return 1
    return 0
