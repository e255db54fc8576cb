"""Development tool: run every property's analysis over one tree in a single pass.

allprops.py base FILE         remember the emitted text of every partition of the tree SA_REPO (default /repo)
allprops.py diff FILE         analyse only the partitions whose text differs from FILE; print what each property reports"""
import collections, hashlib, os, pickle, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
import uni, props, check

mode, path = sys.argv[1], sys.argv[2]
base = pickle.load(open(path, 'rb')) if mode == 'diff' else {}


def main():
    I = uni.base_interp()
    by, scns = {}, {}
    for pid, P in sorted(props._P.items()):
        for s in (P.scenarios(I, 'quick') if P.scenarios else []):
            scns.setdefault(s.name, s)
            by.setdefault(s.name, []).append(P)

    def an(u):
        h = hashlib.md5(repr((u.text, u.error, u.abort, u.rejected, sorted((t, st) for t, (v, st) in (u.meta.get('variants') or {}).items() if isinstance(st, str)))).encode()).hexdigest()
        key = (u.scenario, u.desc())
        if mode == 'base':
            return key, h, None
        if base.get(key) == h:
            return key, None, None
        out = collections.Counter()
        for P in by.get(u.scenario, ()):
            if P.id == 'P23':
                continue
            try:
                r = P.analyze(u)
                for f in r['findings']:
                    out[(P.id, check.fkey(f))] += 1
                for p in r.get('problems', ()):
                    out[(P.id, 'PROBLEM ' + p[:100])] += 1
            except Exception as e:
                out[(P.id, 'EXC %r' % (e,))] += 1
        return key, h, (out, u.error or u.abort)
    res = uni.run_all(list(scns.values()), an, strength=2)
    allh, nd, tot, errs = {}, 0, collections.Counter(), collections.Counter()
    for s, rs, tr, err in res:
        if err:
            errs['scenario %s: %s' % (s.name, err[-200:])] += 1
        for key, h, o in rs:
            allh[key] = h
            if o is not None:
                nd += 1
                tot.update(o[0])
                if o[1]:
                    errs[str(o[1])[:120]] += 1
    if mode == 'base':
        pickle.dump(allh, open(path, 'wb'))
        print('remembered', len(allh))
        return
    known = {pid: check.load_known(pid) for pid in props._P}
    print('differ', nd, 'of', len(allh))
    per = collections.defaultdict(list)
    for (pid, k), n in tot.items():
        if not any(check.matches(p, k) for p, _ in known[pid]):
            per[pid].append(k)
    print('CAUGHT', ' '.join(sorted(per)) or '-')
    for pid, ks in sorted(per.items()):
        print('  ', pid, len(ks), ks[0][:160])
    for e, n in errs.most_common(3):
        print('   err', n, e)


uni.in_big_thread(main)
