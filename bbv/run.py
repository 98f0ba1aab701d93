"""Run bookkeeping: work items, verdicts, evidence, replay files, known findings."""
import collections, concurrent.futures, hashlib, json, os, random, shutil, sys, threading, time, traceback
from . import engine
from .model import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
LANGS = ['c', 'cpp', 'go', 'java', 'csharp', 'python', 'commonjs', 'esmodule', 'kotlin']
if os.environ.get('BB_LANGS'):
    LANGS = os.environ['BB_LANGS'].split(',')


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.rng = random.Random('%s/%s' % (pid, seed))
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.viol = []
        self.stats = collections.Counter()
        self.incon = []
        self.known_hit = []
        self.items = []
        with open(os.path.join(VERIF, 'known-findings.json')) as f:
            self.known = [k for k in json.load(f)['findings'] if k['property'] == pid]

    # ---- observations
    def saw(self, key, n=1):
        with self.lock:
            self.evaluations += n
            self.keys.add(key)

    def count(self, name, n=1):
        with self.lock:
            self.stats[name] += n

    def sample(self, text, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(text[:400])

    def inconclusive(self, what):
        with self.lock:
            self.incon.append(what[:300])

    def violation(self, where, msg, replay):
        """where: short identity of the failing call site/input"""
        with self.lock:
            self.viol.append((where, msg, replay))

    def probe(self, fid, failed, msg, replay):
        """the fixed input of a listed finding: failing as listed is a known finding"""
        for k in self.known:
            if k['id'] == fid:
                if failed:
                    with self.lock:
                        self.known_hit.append(k)
                return
        if failed:
            self.violation(fid, msg, replay)

    # ---- work items: one (schema, target, options) configuration with its command log
    def add(self, files, root, lang, opts, cmds, key=None, san=True, threads=0, **kw):
        if lang == 'kotlin':
            # interpreted (kt.py): messages with very many elements would take minutes; long byte blobs are fine
            n = len(cmds)
            cmds = [c for c in cmds if c.s.name.startswith(('Blob', 'VastText')) or len(c.line_as('0')) < 25000]
            if len(cmds) < n:
                self.count('Kotlin commands left out for length', n - len(cmds))
        self.items.append((files, root, lang, list(opts), list(cmds), key, san, threads, kw))

    def execute(self, workers=8):
        items, self.items = self.items, []
        # long compilers first
        order = {'cpp': 0, 'csharp': 1, 'java': 2, 'c': 3, 'go': 4}
        items.sort(key=lambda it: (-len(it[4]) // 500, order.get(it[2], 9)))
        with concurrent.futures.ThreadPoolExecutor(workers) as p:
            list(p.map(self.one, items))

    def one(self, it):
        files, root, lang, opts, cmds, key, san, threads, kw = it
        label = '%s %s' % (lang, ' '.join(opts))
        t, t1 = None, time.time()
        after = kw.pop('after', None)
        try:
            for attempt in (0, 1):
                t = engine.TARGETS[lang](files, root, opts, san=san, **kw)
                try:
                    t.prepare()
                    break
                except engine.Infra as e:
                    if attempt:
                        self.inconclusive('%s: %s' % (label, e))
                        return
                except (engine.GenFail, engine.BuildFail) as e:
                    self.violation('%s build' % label, str(e), self.replay_build(t, str(e)))
                    return
            lines = []
            for i, c in enumerate(cmds):
                lines.append(c.line_as(str(i)))
            ans = t.run(lines, threads=threads)
            self.judge_item(t, cmds, lines, ans, key, label)
            if threads:
                self.after_threads(t, label, threads, ans)
            if after:
                after(self, t, label)
        except Exception:
            self.inconclusive('%s: internal %s' % (label, traceback.format_exc()))
            raise
        finally:
            if os.environ.get('BB_TIME'):
                print('  %6.1f s %s (%d commands)' % (time.time() - t1, label, len(cmds)), flush=True)
            if t is not None and not os.environ.get('BB_KEEP'):
                shutil.rmtree(t.dir, True)

    def judge_item(self, t, cmds, lines, ans, key, label):
        n, keys, seen = 0, set(), collections.Counter()
        for i, c in enumerate(cmds):
            a = ans.get(str(i))
            if a is None:
                # the run stopped before this command (after repeated crashes that are reported themselves)
                if not any(x.startswith(('CRASH', 'TIMEOUT')) for x in ans.values()):
                    self.inconclusive('%s: no answer to %s' % (label, lines[i][:80]))
                continue
            if a == 'TIMEOUT':
                # a hang is decided by the operation budget, never by one slow run
                self.inconclusive('%s: timeout %s' % (label, lines[i][:80]))
                continue
            m = c.judge(t, a)
            n += 1
            if key:
                k = key(t, c)
                if k is not None:
                    keys.update((label, x) for x in k) if isinstance(k, list) else keys.add((label, k))
            else:
                keys.add((label, type(c).__name__, c.s.name, i))
            if m:
                seen[(type(c).__name__, c.s.name)] += 1
                if seen[(type(c).__name__, c.s.name)] <= 1 and len(seen) <= 8:
                    self.violation('%s %s' % (label, type(c).__name__), '%s: struct %s: %s' % (label, c.s.name, m),
                                   self.replay_cmd(t, c, lines[i], a, m))
            elif i < 2:
                self.sample('%s | %s -> %s' % (label, lines[i][:150], a[:150]))
        with self.lock:
            self.evaluations += n
            self.keys |= keys
            self.stats['runs ' + t.lang] += 1
            self.stats['cmds ' + t.lang] += n

    def after_threads(self, t, label, threads, ans):
        """the same log replayed by several threads, plus the race detector's log"""
        rep = {'property': self.pid, 'kind': 'threads', 'lang': t.lang, 'opts': t.opts, 'threads': threads, 'schema': {f.path: f.render() for f in t.files}, 'stderr': t.stderr[:6000]}
        if 'WARNING: ThreadSanitizer' in t.stderr or 'WARNING: DATA RACE' in t.stderr:
            i = max(t.stderr.find('WARNING: ThreadSanitizer'), t.stderr.find('WARNING: DATA RACE'))
            self.violation('%s race' % label, '%s: data race in generated code\n%s' % (label, t.stderr[i:i + 900]), self.save(rep))
        if t.par is None:
            if not any(str(x).startswith(('CRASH', 'TIMEOUT')) for x in ans.values()):
                self.inconclusive('%s: no threaded replay' % label)
            return
        n, ops, bad = t.par
        with self.lock:
            self.evaluations += ops
            self.stats['threaded operations ' + t.lang] += ops
        if bad:
            self.violation('%s threads' % label, '%s: %d of %d operations run by %d threads on their own objects gave another result than alone' % (label, bad, ops, n), self.save(rep))

    # ---- replay files
    def save(self, obj):
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        txt = json.dumps(obj, indent=1)
        p = os.path.join(d, '%s-%s.json' % (self.pid, hashlib.sha1(txt.encode()).hexdigest()[:10]))
        with open(p, 'w') as f:
            f.write(txt)
        return p

    def replay_build(self, t, log):
        return self.save({'property': self.pid, 'kind': 'build', 'lang': t.lang, 'opts': t.opts, 'root': t.root.path,
                          'schema': {f.path: f.render() for f in t.files}, 'log': log[:4000]})

    def replay_cmd(self, t, c, line, ans, msg):
        sch = {f.path: f.render() for f in t.files}
        return self.save({'property': self.pid, 'kind': 'command', 'lang': t.lang, 'opts': t.opts, 'root': t.root.path,
                          'struct': c.s.render(), 'schema': sch if sum(map(len, sch.values())) < 60000 else 'omitted (regenerated from the seed)',
                          'command': line, 'answer': ans[:4000], 'verdict': msg, 'seed': self.seed, 'tier': self.tier})

    # ---- end
    def finish(self, rule, assumptions=()):
        os.makedirs(EVID, exist_ok=True)
        wall = round(time.time() - self.t0, 1)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.keys), 'rule': rule,
                           'samples': self.samples[:8] or ['none'], 'observed': dict(self.stats),
                           'inconclusive': self.incon[:20]},
              'wall_s': wall}
        if assumptions:
            ev['assumptions'] = list(assumptions)
        if self.viol:
            ev['violations'] = len(self.viol)
            ev['coverage']['violation_list'] = [{'where': w, 'what': m[:600], 'replay': r} for w, m, r in self.viol[:20]]
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        print('%s %s seed=%s: %d evaluations, %d distinct, %d inconclusive, %.1fs' % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.keys), len(self.incon), wall))
        for x in self.incon[:5]:
            print('  inconclusive: ' + x.replace('\n', ' ')[:300])
        if self.viol:
            for w, m, r in self.viol[:10]:
                print('  ' + m[:500].replace('\n', '\n    '))
            for w, m, r in self.viol[:10]:
                print('VIOLATION property=%s replay=%s' % (self.pid, r))
            return 1
        if self.evaluations == 0:
            print('no verdict: nothing could be observed')
            return 2
        return 0
