import sys, random, time, collections
from . import engine, gen, suite
from .model import *

def main():
    seed = int(sys.argv[1]); langs = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[2] != 'all' else list(engine.TARGETS)
    opts = sys.argv[3].split() if len(sys.argv) > 3 else []
    nst = int(sys.argv[4]) if len(sys.argv) > 4 else 12
    rng = random.Random(seed)
    defs = gen.gen_defs(rng, gen.Names(), gen.Cfg(), nst, 4)
    f = File('main.bb', 'aa.pmain', defs, {'go_package': 'bbt/gen/pmain'})
    cmds = []
    for s in f.structs():
        for k in range(6):
            v = gen.gen_struct_value(rng, s) if k > 1 else gen.extreme_value(s, k)
            fill = [0, 0, 0, 0xff, 0x5a, 0][k]
            cmds.append(suite.Encode(s, v, fill, rng.choice([0, 3]), rng.choice('da')))
            w = cmds[-1].wire
            cmds.append(suite.Decode(s, w, start=rng.choice([0, 2]), tail=rng.choice([0, 3]), mode=rng.choice('da')))
            cmds.append(suite.Framing(s, w, start=rng.choice([0, 2]), extra=b'\x80\xff'))
            cmds.append(suite.Truncated(s, w))
            cmds.append(suite.Hostile(s, bytes(rng.getrandbits(8) for _ in range(len(w)+3))))
    for i, c in enumerate(cmds): c.id = str(i)
    def one(l):
        t0 = time.time()
        try:
            t = engine.TARGETS[l]([f], f, opts).prepare()
        except (engine.BuildFail, engine.GenFail) as e:
            return l, str(e), None, 0
        t1 = time.time()
        r = t.run([c.line() for c in cmds])
        return l, t, r, (t1-t0, time.time()-t1)
    for l, t, r, dt in engine.POOL.map(one, langs):
        if r is None:
            print('##', l, 'BUILD', t[:1500]); continue
        bad = collections.Counter()
        shown = 0
        for c in cmds:
            m = c.judge(t, r.get(c.id, 'CRASH missing'))
            if m:
                bad[type(c).__name__] += 1
                if shown < 6:
                    shown += 1
                    print('  ', l, type(c).__name__, c.s.name, m[:600], '|', c.line()[:200])
        print('##', l, dict(bad), 'of', len(cmds), 'time', dt, t.dir)
    if '-v' in sys.argv: print(f.render())
main()
