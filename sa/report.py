"""Check context: obligations, violations, undecided constructs, known findings, evidence."""
import json, os, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = {}          # key -> (msg, loc)
        self.obl = {}           # rule -> count
        self.undec = []         # (rule, what)
        self.scope = {}         # name -> count of analysed things
        self.items = {}         # name -> list (sampled) of analysed constructs
        self.floors = []
        self.notes = []
        self.soft = None        # why what looks like a violation cannot be told from a gap in the analysis

    # -- recording
    def ok(self, rule, what=None):
        self.obl[rule] = self.obl.get(rule, 0) + 1
        if what is not None:
            self.items.setdefault(rule, []).append(str(what))

    def bad(self, rule, key, msg, loc=None):
        self.obl[rule] = self.obl.get(rule, 0) + 1
        k = '%s/%s' % (rule, key)
        if self.soft:
            self.undecided(rule, '%s (%s)' % (key, self.soft))
            return
        if k not in self.viol:
            self.viol[k] = (msg, loc)

    def check(self, cond, rule, key, msg, loc=None):
        if cond:
            self.ok(rule, key)
        else:
            self.bad(rule, key, msg, loc)
        return cond

    def undecided(self, rule, what):
        self.undec.append((rule, str(what)[:300]))

    def count(self, name, n=1):
        self.scope[name] = self.scope.get(name, 0) + n

    def derived(self, p):
        """files of the derived project that could not be derived make what is missing there undecided"""
        gaps = [x for x in p.ex.stuck if 'render_cargo' not in x and 'render_package' not in x]
        self.soft = 'part of the project could not be derived: %s' % gaps[0][:120] if gaps else None

    def floor(self, name, n, least):
        """fewer instances than this means that the anchor is gone, not that the property holds"""
        self.floors.append((name, n, least))
        if n < least:
            self.bad('anchor', name, 'only %d %s found, at least %d expected: the analysed construct is gone' % (n, name, least))

    def missing(self, what):
        self.bad('anchor', what, '%s not found: the construct this property is anchored in is gone' % what)


def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if l.startswith('known: property='):
                rest = l[len('known: property='):]
                pid, _, r = rest.partition(' ')
                key, _, txt = r.partition(' :: ')
                out.setdefault(pid, {})[key.strip()] = txt.strip()
    return out


def finish(ctx, level_expl, assumptions):
    kf = known().get(ctx.pid, {})
    new, old = [], []
    for k in sorted(ctx.viol):
        (old if k in kf else new).append(k)
    ev = {
        'property': ctx.pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': level_expl,
            'obligations': ctx.obl, 'obligations_total': sum(ctx.obl.values()),
            'analysed': ctx.scope, 'floors': [{'anchor': n, 'found': a, 'least': b} for n, a, b in ctx.floors],
            'undecided': ['%s: %s' % u for u in ctx.undec],
            'constructs': {k: v[:40] for k, v in ctx.items.items()},
            'known_findings': old, 'notes': ctx.notes,
        },
        'wall_s': round(time.time() - ctx.t0, 3),
        'violations': len(new),
        'assumptions': assumptions,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    rp = os.path.join(ROOT, 'evidence', ctx.pid + '.violations.json')
    if new or old:
        with open(rp, 'w') as f:
            json.dump([{'key': k, 'known': k in kf, 'message': ctx.viol[k][0], 'location': ctx.viol[k][1]} for k in new + old], f, indent=1)
    elif os.path.exists(rp):
        os.unlink(rp)
    with open(os.path.join(ROOT, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations over %s; %d undecided' % (ctx.pid, sum(ctx.obl.values()), ', '.join('%d %s' % (n, k) for k, n in ctx.scope.items()) or '-', len(ctx.undec)))
    for k in old:
        print('KNOWN-FINDING: property=%s %s :: %s' % (ctx.pid, k, kf[k]))
    for k in new:
        msg, loc = ctx.viol[k]
        print('  %s: %s%s' % (k, msg, ' [%s]' % (loc,) if loc else ''))
    if new:
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    return 0
