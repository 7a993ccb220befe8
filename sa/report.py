"""Obligations, findings, evidence and exit codes shared by every check."""
import contextlib
import json
import os
import pathlib
import time
import traceback

from .repo import Repo, AnalysisBroken
from .nf import TooBig

ROOT = pathlib.Path(__file__).resolve().parent.parent
KNOWN = ROOT / 'known_findings.txt'


def known_keys(pid):
    """{key: description} of the committed known findings of a property"""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text(encoding='utf8').splitlines():
            line = line.strip()
            if not line.startswith('known: '):
                continue
            head, _, desc = line[len('known: '):].partition(' :: ')
            parts = dict(p.split('=', 1) for p in head.split(' ') if '=' in p)
            if parts.get('property') == pid:
                out[parts.get('key', '').strip()] = desc.strip()
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.repo = Repo()
        for p in sorted((ROOT / 'spec').glob('*.py')):
            self.repo.load_extra('spec.' + p.stem, p)
        self.obs = []          # (rule, construct, ok, detail, where)
        self.funcs = set()
        self.info = {}
        self.assumptions = []
        self.rules = {}
        self.minimum = {}
        self.broken = []

    @contextlib.contextmanager
    def case(self, name):
        """an independent part of the check: a construct that cannot be modelled does not hide the other parts"""
        try:
            yield
        except AnalysisBroken as e:
            self.broken.append(f'{name}: {e}')
        except TooBig:
            self.broken.append(f'{name}: expression too large to decide')

    # a rule is declared with the smallest number of instances confirmed by reading
    def rule(self, name, text, minimum=1):
        self.rules[name] = text
        self.minimum[name] = minimum

    def ob(self, rule, construct, ok, detail='', where=''):
        assert rule in self.rules, rule
        construct = str(construct).replace(' ', '_')
        self.obs.append((rule, construct, bool(ok), detail, where))
        return ok

    def analysed(self, *quals):
        for q in quals:
            self.funcs.add(q if isinstance(q, str) else q.qual)

    def require(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def finish(self, t0, level, explanation):
        count = {}
        for r, *_ in self.obs:
            count[r] = count.get(r, 0) + 1
        known = known_keys(self.pid)
        failed = any(not ok and f'{r}:{c}' not in known for r, c, ok, *_ in self.obs)
        for b in self.broken:
            print(f'ANALYSIS-BROKEN property={self.pid}: {b}')
        if self.broken and not failed:
            raise AnalysisBroken('; '.join(self.broken))
        for r, n in self.minimum.items():
            if failed:
                break
            if count.get(r, 0) < n:
                raise AnalysisBroken(f'rule {r}: {count.get(r, 0)} instances found, at least {n} confirmed on the reference tree')
        bad = {}
        for rule, construct, ok, detail, where in self.obs:
            if not ok:
                bad.setdefault(f'{rule}:{construct}', (detail, where))
        new = {k: v for k, v in bad.items() if k not in known}
        old = {k: v for k, v in bad.items() if k in known}
        good = [o for o in self.obs if o[2]]
        samples = []
        for r in self.rules:
            samples += [dict(rule=o[0], instance=o[1], where=o[4], verdict='holds', detail=o[3][:200]) for o in good if o[0] == r][:3]
        obligations = len({(o[0], o[1]) for o in self.obs})
        discharged = obligations - len(bad)
        cov = dict(
            explanation=explanation + f' This run: {len(self.funcs)} functions analysed, {obligations} obligations, '
                                      f'{discharged} discharged, {len(old)} known findings, {len(new)} violations.',
            rules={r: dict(text=t, instances=count.get(r, 0), minimum=self.minimum[r]) for r, t in self.rules.items()},
            functions_analysed=sorted(self.funcs), obligations=obligations, discharged=discharged,
            samples=samples[:40], source_digest=self.repo.digest(), **self.info)
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - t0, 3), violations=len(new))
        d = ROOT / 'evidence'
        d.mkdir(exist_ok=True)
        (d / f'{self.pid}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n', encoding='utf8')
        for k, (detail, where) in sorted(old.items()):
            print(f'KNOWN-FINDING: property={self.pid} {k} {where} {known[k]}')
        for r in self.rules:
            print(f'  rule {r}: {count.get(r, 0)} instances - {self.rules[r]}')
        print(f'{self.pid}: {obligations} obligations, {discharged} discharged, {len(old)} known, {len(new)} new; '
              f'{len(self.funcs)} functions')
        if new:
            rp = d / f'{self.pid}.violations.txt'
            with open(rp, 'w', encoding='utf8') as f:
                for k, (detail, where) in sorted(new.items()):
                    f.write(f'{k}\n    at {where}\n    rule: {self.rules[k.split(":")[0]]}\n    {detail}\n\n')
            for k, (detail, where) in sorted(new.items()):
                print(f'VIOLATION property={self.pid} replay={rp} {k} at {where}: {detail[:600]}')
            return 1
        rp = d / f'{self.pid}.violations.txt'
        if rp.exists():
            rp.unlink()
        return 0


def main(mod, pid, tier):
    t0 = time.time()
    try:
        ctx = Ctx(pid, tier)
        mod.run(ctx)
        return ctx.finish(t0, getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION)
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={pid}: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid}: internal error')
        return 3
