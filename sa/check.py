"""Command line: decide one property for the current tree.

    python3-vt -m sa.check C11 [--tier quick|thorough] [--root DIR] [-v]

exit 0  the property held on everything analysed
exit 1  VIOLATION line printed, report under evidence/
exit 2  the analysis could not run (a public anchor is gone, or a crash)
"""
import sys
import os
import json
import time
import threading
import traceback
import importlib
import hashlib
import ast
import select
import signal
import warnings

sys.setrecursionlimit(1000000)
warnings.filterwarnings('ignore', category=DeprecationWarning)     # fork beside the watchdog thread
threading.stack_size(1024 * 1024 * 1024)

from . import ir, skel                                   # noqa: E402
from .ir import TRUE, FALSE, Node                         # noqa: E402
from .gvn import GVN                                      # noqa: E402
from .rvn import RVN                                      # noqa: E402
from .interp import Dead                                  # noqa: E402
from . import world as W                                  # noqa: E402

from .heap import conj                                    # noqa: E402

HERE = W.HERE
CRASH = ('KeyError', 'AttributeError', 'NameError', 'UnboundLocalError', 'TypeError', 'IndexError')


class Checker(object):
    def __init__(self, prop, tier, seed, verbose=False):
        self.prop, self.tier, self.seed, self.verbose = prop, tier, seed, verbose
        self.t0 = time.time()
        self.obs = []            # (group, name, status, how, detail)
        self.undecided = []
        self.violations = []
        self.known_hits = []
        self.worlds = []
        self.stopped = False
        self.counts = {}
        self.assume = []
        self.notes = []
        self.lanes = 128 if tier == 'quick' else 512
        self.G = GVN(seed, 32)
        self.G.positive |= skel.POSITIVE
        self.wide = None
        self.V = RVN(seed, self.lanes, skel.ranges, skel.wide)
        self.V2 = RVN(seed, self.lanes, skel.ranges, skel.wide)
        self.V2.jitter = 1e-15
        self.known = load_known(prop)
        self.group = ''
        # top-level parts are analysed side by side, each in a process of its own
        # that starts from the same state: what one part finds does not depend on
        # the others or on the order in which they end
        self.jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
        self.kids, self.done_parts, self.nparts, self.found = {}, {}, 0, 0
        self.wstats = []

    # ------------------------------------------------------------- bookkeeping
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def world(self, *a, **k):
        w = W.World(*a, **k)
        w.ck = self
        self.worlds.append(w)
        return w

    def log(self, *a):
        if self.verbose:
            print(*a)

    def ok(self, name, how='exact', detail=None):
        self.obs.append((self.group, name, 'ok', how, detail))

    def undec(self, name, why):
        self.obs.append((self.group, name, 'undecided', '', why))
        self.log('UNDECIDED', self.group, name, why)

    def diverges(self, a, b):
        """constructs of the analysed program where the two graphs part"""
        if sum(1 for v in self.violations if v.get('diverges_at')) >= 3:
            return []
        try:
            from .localise import Localiser
            fr = Localiser(self.G).frontier(a, [b])
        except Exception:
            return []
        out = []
        for n in fr:
            if n.loc and '/machup/' in str(n.loc[0]) and len(n.loc) > 2 and '.' in str(n.loc[2]):
                l = fmt(n.loc)
                if l not in out:
                    out.append(l)
        ch = changed()
        out.sort(key=lambda l: '%s:%s' % (l.split(':')[0], l.split()[-1]) not in ch)
        return out[:8]

    def fail(self, name, rule, loc=None, node=None, detail=None, key=None, other=None):
        """a violated obligation; key identifies the construct"""
        key = key or '%s|%s' % (self.group, name)
        for k in self.known:
            if k['key'] == key:
                self.known_hits.append((k, name))
                self.obs.append((self.group, name, 'known', '', k['what']))
                return
        self.obs.append((self.group, name, 'violated', '', rule))
        div = self.diverges(node, other) if other is not None else []
        at = div[0] if div else fmt(loc)
        if not div and node is not None:
            sl = suspects(node)
            if sl['changed_since_reference_and_in_slice']:
                f = sl['changed_since_reference_and_in_slice'][0]
                at = '%s (%s)' % (f, sl['slice'][f])
            elif sl['slice'] and (not loc or len(loc) < 3 or '.' not in str(loc[2])):
                fs = sorted(sl['slice'], key=lambda f: f not in changed())
                at = 'computed in ' + ', '.join('%s (%s)' % (f, sl['slice'][f]) for f in fs if '.' in f.split(':')[-1])[:600]
        self.violations.append({'obligation': name, 'group': self.group, 'rule': rule, 'location': at, 'diverges_at': div,
                                'detail': detail, 'key': key, 'node': node})
        self.log('VIOLATED', self.group, name, rule, loc, (detail or {}).get('differs_at') if isinstance(detail, dict) else detail)

    def part(self, name, fn, *a):
        if self.group or self.jobs < 2:
            return self.part_here(name, fn, *a)
        while len(self.kids) >= self.jobs:
            self.wait()
        if self.late():
            return
        k = self.nparts
        self.nparts += 1
        sys.stdout.flush()
        sys.stderr.flush()
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 3
            try:
                for q in [r] + list(self.kids):
                    os.close(q)
                self.obs, self.violations, self.known_hits, self.worlds, self.notes, self.counts = [], [], [], [], [], {}
                self.kids, self.jobs = {}, 1
                lost = None
                try:
                    self.part_here(name, fn, *a)
                except W.AnchorLost as e:
                    lost = str(e)
                for v in self.violations:
                    v['suspects'] = suspects(v.pop('node'))
                out = json.dumps({'obs': self.obs, 'violations': self.violations, 'known': self.known_hits, 'notes': self.notes, 'counts': self.counts,
                                  'stats': stats(self.worlds), 'nodes': len(ir._table), 'lost': lost, 'stopped': self.stopped}, default=str).encode()
                sys.stdout.flush()
                with os.fdopen(w, 'wb') as f:
                    f.write(out)
                code = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code)
        os.close(w)
        self.kids[r] = [k, name, pid, b'']

    def wait(self):
        """take in what the running parts report"""
        for r in select.select(list(self.kids), [], [], 1.)[0]:
            kid = self.kids[r]
            b = os.read(r, 1 << 20)
            if b:
                kid[3] += b
                continue
            os.close(r)
            del self.kids[r]
            os.waitpid(kid[2], 0)
            try:
                d = json.loads(kid[3])
            except ValueError:
                d = None
            self.done_parts[kid[0]] = (kid[1], d)
            if d:
                self.found += len(d['violations'])
        t = time.time() - self.t0
        size = {r: rss(kid[2]) for r, kid in self.kids.items()}
        if t > (840 if self.tier == 'quick' else 7 * 3600) or self.found and t > 240:
            self.stop(list(self.kids), 'ended after %.0f s' % t)
        elif sum(size.values()) > 24.:
            self.stop([max(size, key=size.get)], 'ended at %.1f GB' % max(size.values()))

    def stop(self, which, why):
        for r in which:
            k, name, pid, _ = self.kids.pop(r)
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            self.done_parts[k] = (name, {'obs': [[name, 'resource limit', 'undecided', '', why]]})

    def collect(self):
        """results of all parts, in the order in which they were started"""
        while self.kids:
            self.wait()
        lost = None
        for k in sorted(self.done_parts):
            name, d = self.done_parts[k]
            if d is None:
                d = {'obs': [[name, name, 'undecided', '', 'the analysis of this part ended early']]}
            self.obs += [tuple(o) for o in d['obs']]
            self.violations += d.get('violations', [])
            self.known_hits += [tuple(x) for x in d.get('known', [])]
            self.notes += [tuple(x) for x in d.get('notes', [])]
            for c, n in d.get('counts', {}).items():
                self.count(c, n)
            if 'stats' in d:
                self.wstats.append(dict(d['stats'], nodes=d['nodes']))
            self.stopped = self.stopped or d.get('stopped', False)
            lost = lost or d.get('lost')
        self.done_parts = {}
        if lost is not None:
            raise W.AnchorLost(lost)

    def part_here(self, name, fn, *a):
        """one independent group of obligations; a construct the analyser
        does not model leaves the group undecided"""
        g = self.group
        self.group = (g + '/' if g else '') + name
        t = time.time()
        if self.late():
            self.group = g
            return
        try:
            fn(*a)
        except (W.AnchorLost, KeyboardInterrupt):
            raise
        except W.Stop:
            pass
        except Dead:
            self.undec(name, 'no normal exit')
            self.notes.append((self.group, 'dead'))
        except Exception as e:
            self.undec(name, 'analysis: %s: %s' % (type(e).__name__, str(e)[:200]))
            if self.verbose:
                traceback.print_exc(limit=-8)
        finally:
            self.log('  part %s %.1fs' % (self.group, time.time() - t))
            self.group = g

    # --------------------------------------------------------------- comparing
    def verdict(self, a, b, under=None):
        """('same'|'differs'|'unknown', how)"""
        if a is b:
            return 'same', 'identical'
        if under is not None and under is FALSE:
            return 'same', 'vacuous'
        if not self.G.same(a, b, under):
            if not self.rare(a, b, under):
                return 'same', 'congruent'
        fl = (a.flags | b.flags) & ir.F_UNK
        lanes, n, bad = self.V.differ(a, b, under)
        if lanes:
            # points where the value itself is decided by rounding say nothing
            u = self.V.unstable(self.V2, b, lanes)
            if len(u) == len(lanes):
                u |= self.V.unstable(self.V2, a, lanes)
            lanes = [k for k in lanes if k not in u]
        if bad and not lanes:
            # one side not finite: only at points these terms themselves single out
            v = RVN(self.seed, self.lanes, skel.ranges, skel.wide)
            l2, n2, b2 = v.differ(a, b, under)
            if not l2 and not b2 and n2:
                bad, n = 0, n2
        if lanes or bad:
            if fl:
                return 'unknown', 'unmodelled operation'
            return 'differs', '%d of %d sample points' % (len(lanes) + bad, n + bad)
        if n == 0:
            if under is not None:
                return 'same', 'vacuous'
            return 'unknown', 'no point in the common domain'
        if not fl:
            hits, m = self.V.boundary(a, b, under)
            if hits:
                return 'differs', 'next to the boundary of a comparison (%d points)' % hits[0][1]
        return 'same', 'real'

    def rare(self, a, b, under):
        """small graphs are compared on many more lanes: rare combinations of
        conditions may not occur in the usual number"""
        seen = set()
        for x in (a, b) if under is None else (a, b, under):
            for n in ir.walk(x, seen):
                if len(seen) > 1500 or n.op in ir.BINDERS or n.op == 'loopval':
                    return False
        if self.wide is None:
            self.wide = GVN(self.G.seed + 77, 1024)
            self.wide.positive |= skel.POSITIVE
        return bool(self.wide.same(a, b, under))

    def late(self):
        """a run that already found something stops early; one that takes too
        long leaves the rest undecided"""
        t = time.time() - self.t0
        if (self.violations or self.found) and t > 240:
            return True
        if t > (780 if self.tier == 'quick' else 6 * 3600):
            if not self.stopped:
                self.stopped = True
                self.undec('time limit', 'remaining obligations not analysed')
            return True
        return False

    def same(self, name, a, b, rule, under=None, key=None):
        if self.late():
            return True
        v, how = self.verdict(a, b, under)
        if v == 'same':
            self.ok(name, how)
        elif v == 'unknown':
            self.undec(name, how)
        else:
            self.fail(name, rule, a.loc, a, other=b, detail={'found': ir.show(a, 4)[:400], 'expected': ir.show(b, 4)[:400], 'differs_at': how}, key=key)
        return v == 'same'

    def holds(self, name, cond, rule, under=None, loc=None, key=None):
        return self.same(name, cond, TRUE, rule, under, key)

    def crashes(self, w, o):
        """a call with valid arguments must not run into an error of the
        language (missing key or attribute, unbound name, wrong type)"""
        base = os.path.join(w.root, 'machup') + os.sep
        for e, s in o.raises:
            if not e.implicit or e.name not in CRASH or not e.loc or not str(e.loc[0]).startswith(base):
                continue
            c = conj(s.pc)
            if c.flags & ir.F_UNK or not self.possible(c):
                continue
            self.fail('no %s in %s' % (e.name, e.loc[2] if len(e.loc) > 2 else ''), 'the operation is defined for every valid input', e.loc,
                      detail=repr(e.args)[:200])
            if o.dead:
                raise W.Stop()
        if o.dead and o.raises and all(not e.implicit for e, s in o.raises):
            e = o.raises[-1][0]
            self.fail('returns', 'the operation returns for valid input', e.loc, detail='always raises %s' % e.name)
            raise W.Stop()

    def possible(self, c):
        """can condition c be true?  (some lane of either interpretation)"""
        if c is FALSE:
            return False
        if c is TRUE:
            return True
        self.G.scan(c)
        self.V.scan(c)
        return bool((self.V.ev(c, {}) == 1).any())

    def same_dict(self, name, w, got, want, rule, under=None, extra_ok=True, keys=None):
        """compare two dictionaries (abstract references) key by key"""
        g, x = w.dict_items(got), w.dict_items(want)
        if g is None or x is None:
            a, b = w.freeze(got), w.freeze(want)
            return self.same(name, a, b, rule, under)
        allok = True
        for k in x:
            if keys is not None and k not in keys:
                continue
            pw, vw = x[k]
            if pw is FALSE:
                continue
            if k not in g or g[k][0] is FALSE:
                self.fail('%s[%s]' % (name, k), rule, detail='key missing from the result')
                allok = False
                continue
            pg, vg = g[k]
            if pg is not pw:
                allok &= self.same('%s[%s] present' % (name, k), pg, pw, rule, under)
            u = pw if under is None else ir.and_(pw, under)
            if w.dict_items(vw) is not None and w.dict_items(vg) is not None:
                allok &= self.same_dict('%s[%s]' % (name, k), w, vg, vw, rule, u, extra_ok)
            else:
                allok &= self.same('%s[%s]' % (name, k), w.freeze(vg), w.freeze(vw), rule, None if u is TRUE else u)
        if not extra_ok:
            for k in g:
                if k not in x and g[k][0] is not FALSE:
                    self.fail('%s[%s]' % (name, k), rule, detail='unexpected key')
                    allok = False
        return allok


def fmt(loc):
    if not loc:
        return ''
    return '%s:%s %s' % (os.path.basename(str(loc[0])), loc[1], loc[2] if len(loc) > 2 else '')


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:') and 'property=%s ' % prop in line:
                body = line.split('key=', 1)[1]
                key, _, what = body.partition(' :: ')
                out.append({'key': key.strip(), 'what': what.strip()})
    return out


# ------------------------------------------------------------- reporting
def digests(root):
    """{function: digest of its syntax tree} (only used to order suspects)"""
    out = {}
    base = os.path.join(root, 'machup')
    for fn in sorted(os.listdir(base)):
        if not fn.endswith('.py'):
            continue
        try:
            tree = ast.parse(open(os.path.join(base, fn)).read())
        except SyntaxError:
            continue

        def go(body, pre):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    go(s.body, pre + s.name + '.')
                elif isinstance(s, ast.FunctionDef):
                    d = hashlib.sha1(ast.dump(s).encode()).hexdigest()[:12]
                    out['%s:%s%s' % (fn, pre, s.name)] = d
        go(tree.body, '')
    return out


_changed = []


def changed():
    """functions whose text differs from the reference tree (orders suspects only)"""
    if not _changed:
        try:
            ref = json.load(open(os.path.join(HERE, 'sa', 'reference.json')))
        except Exception:
            ref = {}
        cur = digests(W.REPO)
        _changed.append(sorted(k for k in set(ref) | set(cur) if ref.get(k) != cur.get(k)))
    return _changed[0]


def suspects(node):
    """functions contributing to a value, those that differ from the reference
    tree first"""
    funcs = {}
    if node is not None:
        for n in ir.walk(node, set()):
            if n.loc and '/machup/' in str(n.loc[0]):
                k = '%s:%s' % (os.path.basename(n.loc[0]), n.loc[2] if len(n.loc) > 2 else '')
                funcs.setdefault(k, [n.loc[1], n.loc[1]])
                funcs[k][0] = min(funcs[k][0], n.loc[1])
                funcs[k][1] = max(funcs[k][1], n.loc[1])
    inslice = [k for k in changed() if k in funcs]
    return {'changed_since_reference_and_in_slice': inslice, 'changed_since_reference': changed(),
            'slice': {k: 'lines %d-%d' % tuple(v) for k, v in sorted(funcs.items())}}


def run(prop, tier, seed, verbose):
    ck = Checker(prop, tier, seed, verbose)
    LIVE.append(ck)
    mod = importlib.import_module('sa.props.' + prop.lower())
    ck.module = mod
    err = None
    try:
        try:
            mod.check(ck)
        finally:
            ck.collect()
    except W.AnchorLost as e:
        err = 'anchor lost: %s' % e
    except Dead:
        err = 'construction of the model has no normal exit'
        if verbose:
            traceback.print_exc()
    except Exception:
        err = traceback.format_exc()
    return ck, err


def rss(pid):
    try:
        with open('/proc/%d/statm' % pid) as f:
            return int(f.read().split()[1]) * os.sysconf('SC_PAGE_SIZE') / 2**30
    except OSError:
        return 0.


def stats(worlds):
    funcs, files, loops, stores, unks = set(), set(), 0, 0, {}
    for w in worlds:
        funcs |= w.I.funcs_analysed
        files |= w.I.files_read
        loops += len(w.I.loops)
        stores += len(w.I.stores)
        for k, v in w.I.unk_sites.items():
            unks[str(k)] = unks.get(str(k), 0) + (v if isinstance(v, int) else 1)
    return {'funcs': sorted([list(f) for f in funcs], key=repr), 'files': sorted(str(f) for f in files), 'loops': loops, 'stores': stores, 'unks': unks,
            'worlds': len(worlds)}


def evidence(ck, err):
    ok = [o for o in ck.obs if o[2] == 'ok']
    und = [o for o in ck.obs if o[2] == 'undecided']
    funcs, files, loops, stores, unks = set(), set(), 0, 0, {}
    allst = [dict(stats(ck.worlds), nodes=len(ir._table))] + ck.wstats
    for d in allst:
        funcs |= set(tuple(f) for f in d['funcs'])
        files |= set(d['files'])
        loops += d['loops']
        stores += d['stores']
        for k, v in d['unks'].items():
            unks[k] = unks.get(k, 0) + v
    how = {}
    for o in ok:
        how[o[3]] = how.get(o[3], 0) + 1
    cov = {'explanation': (ck.module.__doc__ or '').strip(), 'obligations': len(ck.obs), 'discharged': len(ok), 'undecided': len(und),
           'discharged_by': how, 'models_analysed': sum(d['worlds'] for d in allst),
           'functions_analysed': len([f for f in funcs if f[0].startswith('machup')]),
           'files_analysed': sorted(os.path.basename(f) for f in files), 'loops_summarised': loops, 'array_stores': stores,
           'value_graph_nodes': sum(d['nodes'] for d in allst), 'interpretation_points': ck.lanes,
           'sample_obligations': ['%s: %s (%s)' % (o[0], o[1], o[3]) for o in ok[:: max(1, len(ok) // 8)]][:10],
           'undecided_obligations': ['%s: %s: %s' % (o[0], o[1], o[4]) for o in und][:20]}
    if unks:
        cov['unmodelled_sites'] = unks
    cov.update(ck.counts)
    if err:
        cov['error'] = err
    d = {'property': ck.prop, 'tier': ck.tier, 'seed': ck.seed, 'level': 'other', 'coverage': cov,
         'assumptions': ck.assume + getattr(ck.module, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - ck.t0, 2),
         'violations': len(ck.violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', ck.prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1, default=str)
    return d


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    ck, err = run(prop, tier, seed, verbose)
    with ENDING:
        return finish(ck, err)


ENDING = threading.Lock()
LIVE = []


def watchdog():
    """ends a run that would outgrow its time or the machine's memory inside
    one single obligation: everything not decided by then is undecided"""
    while True:
        time.sleep(1)
        if not LIVE:
            continue
        ck = LIVE[0]
        t = time.time() - ck.t0
        try:
            with open('/proc/self/statm') as f:
                rss = int(f.read().split()[1])*os.sysconf('SC_PAGE_SIZE')/2**30
        except OSError:
            rss = 0.
        if t > (850 if ck.tier == 'quick' else 7*3600) or rss > 20.:
            with ENDING:
                ck.undec('resource limit', 'ended after %.0f s with %.1f GB; remaining obligations not analysed' % (t, rss))
                rc = finish(ck, None)
                sys.stdout.flush()
                for kid in list(ck.kids.values()):
                    os.kill(kid[2], signal.SIGKILL)
                os._exit(rc)


def finish(ck, err):
    prop = ck.prop
    if err and not ck.violations:
        evidence(ck, err)
        sys.stdout.write('analysis of %s did not complete: %s\n' % (prop, err))
        return 2
    d = evidence(ck, err)
    for k, name in ck.known_hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if ck.violations:
        rep = []
        for v in ck.violations:
            if 'node' in v:
                v['suspects'] = suspects(v.pop('node'))
            rep.append(v)
        path = os.path.join(HERE, 'evidence', '%s-violation.json' % prop)
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1, default=str)
        for v in rep[:5]:
            print('%s: %s\n  rule: %s\n  at: %s' % (v['group'], v['obligation'], v['rule'], v['location']))
            if v['suspects']['changed_since_reference_and_in_slice']:
                print('  changed functions in the slice: %s' % ', '.join(v['suspects']['changed_since_reference_and_in_slice']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    c = d['coverage']
    print('%s holds: %d obligations, %d discharged, %d undecided, %d functions, %.1fs' %
          (prop, c['obligations'], c['discharged'], c['undecided'], c['functions_analysed'], d['wall_s']))
    return 0


def entry():
    rc = [2]

    def go():
        try:
            rc[0] = main(sys.argv[1:])
        except Exception:
            traceback.print_exc()
    threading.Thread(target=watchdog, daemon=True).start()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == '__main__':
    entry()
