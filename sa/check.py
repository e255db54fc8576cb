"""Entry point: python3 /verif/sa/check.py <property-id> [--tier quick|thorough] [--show]

Decides one property from /repo's current source, prints what was analysed, rewrites /verif/evidence/<id>.json and exits
0 (holds) or 1 (with a VIOLATION line).  Exit 2 only when the source cannot be analysed any more."""
import collections, json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import uni

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def norm(s):
    return re.sub(r'\btgt\d+\b', 'TGT', str(s or ''))


def fkey(f):
    """behaviour-level identity of a finding (no line numbers, no source names)"""
    v = f.get('variant')
    who = '%s %s' % (v.kind, v.ctype) if v is not None else norm(f.get('func') or f.get('scenario'))
    return '|'.join((f['rule'], who, norm(f['what'])))


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r'known: property=(\S+) key=<(.*?)> ?(.*)$', ln)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def matches(pat, key):
    """'*' in a known-findings key stands for any text"""
    return re.fullmatch('.*'.join(re.escape(x) for x in pat.split('*')), key) is not None


def main():
    import props
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
        args.remove(tier)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    P = props.get(pid)
    t0 = time.time()
    findings, counts, samples, problems = [], collections.Counter(), [], []
    scn_n = path_n = 0
    trunc = []
    I = uni.base_interp()
    if P.static:
        r = P.static(I, tier)
        findings += r['findings']
        counts.update(r.get('counts', {}))
        samples += r.get('samples', [])[:5]
        problems += r.get('problems', [])
    S = P.scenarios(I, tier) if P.scenarios else []
    if S:
        budget = 780 if tier == 'quick' else 3000
        for s, res, tr, err in uni.run_all(S, P.analyze, budget=budget, strength=2 if tier == 'quick' else 3):
            scn_n += 1
            if err:
                problems.append('%s: %s' % (s.name, err))
            if tr:
                trunc.append(s.name)
            for d in res:
                path_n += 1
                findings += d['findings']
                counts.update(d.get('counts', {}))
                problems += d.get('problems', [])
                if d.get('samples') and len(samples) < 12 and path_n % 7 == 1:
                    samples += d['samples'][:1]
    known = load_known(pid)
    groups = collections.OrderedDict()
    hit = set()
    for f in findings:
        k = fkey(f)
        kn = [p for p, _ in known if matches(p, k)]
        if kn:
            hit.update(kn)
            continue
        groups.setdefault(k, []).append(f)
    wall = time.time() - t0
    print('property %s (%s): %s' % (pid, tier, P.title))
    print('analysed: %d configuration families, %d partitions; %s' % (scn_n, path_n, ', '.join('%s=%d' % x for x in sorted(counts.items()))))
    for n in trunc[:10]:
        print('note: partition budget reached in %s' % n)
    for p, d in known:
        if p in hit:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, p, d))
    for p in problems[:8]:
        print('PROBLEM: %s' % p)
    low = [(k, v, counts.get(k, 0)) for k, v in P.minimum(tier).items() if counts.get(k, 0) < v]
    rc = 0
    outdir = os.path.join(HERE, 'out')
    if groups:
        os.makedirs(outdir, exist_ok=True)
        rp = os.path.join(outdir, '%s-violations.txt' % pid)
        with open(rp, 'w') as fh:
            for k, fs in groups.items():
                f = fs[0]
                fh.write('finding: %s   [%d instance(s)]\n' % (k, len(fs)))
                fh.write('  rule:        %s\n  construct:   %s\n' % (f['rule'], f.get('where')))
                fh.write('  problem:     %s %s\n' % (norm(f['what']), f.get('msg') or ''))
                if f.get('variant') is not None:
                    fh.write('  configured:  %s\n' % f['variant'].desc())
                fh.write('  family:      %s; partition: %s\n' % (f.get('scenario'), f.get('decisions')))
                fh.write('  emitted in:  %s (%s), line %s: %s\n' % (f.get('func'), f.get('config'), f.get('line'), f.get('ctext')))
                for x in f.get('path') or ():
                    fh.write('     path: %s\n' % (x,))
                fh.write('\n')
        shown = collections.Counter()
        for k, fs in groups.items():
            f = fs[0]
            w = '%s %s' % (f['rule'], f.get('where'))
            shown[w] += 1
            if shown[w] <= 2 and len(shown) <= 25:
                print('  [%s] %s: %s %s%s' % (f['rule'], f.get('where'), norm(f['what']), f.get('msg') or '',
                                             ' {%s}' % f['variant'].desc() if f.get('variant') is not None else ' {%s}' % f.get('scenario')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    elif low:
        for k, v, g in low:
            print('CANNOT DECIDE: only %d %s analysed, expected at least %d' % (g, k, v))
        rc = 2
    else:
        print('holds: no unlisted violation')
    cov = {'explanation': P.explain, 'families': scn_n, 'partitions': path_n, 'counts': dict(counts),
           'obligations': int(counts.get('obligations', sum(counts.values()))),
           'discharged': max(0, int(counts.get('obligations', sum(counts.values()))) - len(findings)),
           'rules': list(P.rules), 'samples': [str(x)[:400] for x in samples[:8]] or ['-'],
           'exhaustive': bool(not trunc and not problems), 'truncated_families': len(trunc),
           'problems': problems[:5]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.level, 'coverage': cov, 'wall_s': round(wall, 2),
          'violations': len(groups), 'assumptions': list(P.assumptions)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%.1f s' % wall)
    return rc


if __name__ == '__main__':
    uni.in_big_thread(main)
