"""Check context: obligations, violations, known findings, evidence, exit code."""
import os, sys, json, time, traceback, re, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import proj, ir, vg
from proj import Broken

sys.setrecursionlimit(1000000)
threading.stack_size(512 * 1024 * 1024)


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.ob = []            # (rule, instance, ok, where, msg)
        self.floors = []
        self.funcs = set()
        self.units = {}
        self.notes = []
        self.assume = []
        self.samples = []
        self.t0 = time.time()
        self.und = []           # (instance, reason): sites the analysis could not decide

    # -- reporting ---------------------------------------------------------
    def ok(self, rule, inst, where=''):
        self.ob.append((rule, inst, True, where, ''))

    def bad(self, rule, inst, where, msg):
        self.ob.append((rule, inst, False, where, msg))

    def expect(self, cond, rule, inst, where='', msg=''):
        (self.ok(rule, inst, where) if cond else self.bad(rule, inst, where, msg))
        return cond

    def undecided(self, inst, why):
        self.und.append((inst, why))

    def floor(self, rule, n):
        """rule must have been instantiated at least n times"""
        self.floors.append((rule, n))

    def note(self, s):
        self.notes.append(s)

    def need(self, x, what):
        if not x:
            raise Broken(f'anchor missing: {what}')
        return x

    def saw(self, f):
        self.funcs.add(f.dname if hasattr(f, 'dname') else str(f))

    def mod(self, *a, **k):
        m = proj.module(*a, **k)
        self.units[m.config] = m.nunits
        return m

    # -- finish ------------------------------------------------------------
    def finish(self, explain, rules):
        known = load_known()
        counts = {}
        for r, i, ok, w, msg in self.ob:
            counts[r] = counts.get(r, 0) + 1
        viol = [o for o in self.ob if not o[2]]
        if not viol:
            # vacuity guard; sites reported as undecided may take at most half of the instances
            for r, n in self.floors:
                if counts.get(r, 0) < (n if not self.und else (n + 1) // 2):
                    raise Broken(f'rule {r}: only {counts.get(r, 0)} instances analysed, at least {n} expected' + (f'; undecided: {self.und[0]}' if self.und else ''))
        for i, w in self.und:
            print(f'UNDECIDED {i}: {w}'[:400])
        fresh, old = [], []
        for o in viol:
            k = f'{o[0]}|{o[1]}'
            (old if any(x['property'] == self.prop and x['key'] == k and x.get('status', 'finding') == 'finding' for x in known) else fresh).append((k, o))
        seenk = set()
        for k, o in old:
            if k in seenk:
                continue
            seenk.add(k)
            print(f'KNOWN-FINDING: property={self.prop} {k}: {o[4]} ({o[3]})')
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {'explanation': explain, 'rules': rules,
                         'instances_per_rule': counts, 'functions_analysed': sorted(self.funcs)[:400], 'n_functions': len(self.funcs),
                         'translation_units': self.units, 'obligations': len(self.ob), 'discharged': sum(1 for o in self.ob if o[2]),
                         'samples': [f'{o[0]} :: {o[1]} @ {o[3]}' for o in self.ob[:40]], 'notes': self.notes[:60],
                         'undecided': [f'{i}: {w}'[:300] for i, w in self.und]},
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(fresh),
            'assumptions': self.assume,
        }
        os.makedirs(os.path.join(proj.VERIF, 'evidence'), exist_ok=True)
        if fresh:
            ev['coverage']['violation_list'] = [f'{k}: {o[4]} @ {o[3]}' for k, o in fresh[:100]]
        with open(os.path.join(proj.VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f'{self.prop}: {len(self.ob)} obligations over {len(counts)} rules, {len(self.funcs)} functions; '
              f'{len(fresh)} violations, {len(seenk)} known findings, {ev["wall_s"]} s')
        for r in sorted(counts):
            print(f'  rule {r}: {counts[r]} instances')
        if fresh:
            d = os.path.join(proj.BUILD, 'replay')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, f'{self.prop}.txt')
            with open(rp, 'w') as f:
                f.write(f'property {self.prop}: static violations in {proj.REPO} (re-run: python3 checks/run.py {self.prop})\n')
                for k, o in fresh:
                    f.write(f'{o[3]}: [{o[0]}] {o[1]}: {o[4]}\n')
            for k, o in fresh[:30]:
                print(f'  {o[3]}: [{o[0]}] {o[1]}: {o[4]}'[:600])
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        return 0


def load_known():
    p = os.path.join(proj.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main(props):
    import importlib
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    rc = [3]

    def body():
        try:
            mod = importlib.import_module('p_' + prop.lower())
            c = Ctx(prop, tier)
            mod.check(c)
            rc[0] = c.finish(mod.EXPLAIN, mod.RULES)
        except Broken as e:
            print(f'ANALYSIS-BROKEN property={prop}: {e}')
            rc[0] = 2
        except Exception:
            traceback.print_exc()
            print(f'ANALYSIS-BROKEN property={prop}: internal error')
            rc[0] = 3
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    return rc[0]
