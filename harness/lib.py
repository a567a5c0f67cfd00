"""What every check shares: counting, evidence, known findings, violation lines."""
import json
import os
import re
import sys
import time

import env

KNOWN = os.path.join(env.VERIF, 'KNOWN_FINDINGS')


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.runs = self.replayed = 0
        self.models = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.extra = {}
        self.exhaustive = None

    @property
    def quick(self):
        return self.tier == 'quick'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def model(self, name, r):
        """Count an exhaustive model check."""
        self.models[name] = dict(states=r.distinct, transitions=r.generated)
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, x, most=3):
        if len(self.samples) < most:
            self.samples.append(x)

    def violation(self, what, replay):
        """Report a violation (once per description)."""
        sig = signature(what)
        for f in known_findings(self.prop):
            if re.search(f, what):
                if what not in self.known:
                    self.known.append(what)
                    print(f'KNOWN-FINDING: property={self.prop} {what}', flush=True)
                return
        if any(signature(w) == sig for w, _ in self.violations) or len(self.violations) >= 5:
            self.violations.append((what, None))
            return
        d = os.path.join(env.OUT, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.prop}-{len(self.violations) + 1}.json')
        replay = dict(replay, property=self.prop, what=what)
        with open(path, 'w') as f:
            json.dump(replay, f, indent=1)
        self.violations.append((what, path))
        print(f'VIOLATION property={self.prop} replay={path}', flush=True)
        print('  ' + ascii(what)[1:-1] if not what.isascii() else '  ' + what, flush=True)

    def finish(self):
        os.makedirs(env.OUT, exist_ok=True)
        cov = dict(
            states=self.states,
            transitions=self.transitions,
            traces_validated_against_impl=self.traces + self.replayed,
            samples=self.samples or ['none'],
            real_runs=self.runs,
            recorded_traces_validated=self.traces,
            generated_steps_replayed=self.replayed,
            models=self.models,
        )
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        cov.update(self.extra)
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level='model_checking',
            coverage=cov,
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        p = os.path.join(env.OUT, self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        if not self.violations:
            print(f'OK property={self.prop} tier={self.tier} runs={self.runs} traces={self.traces} '
                  f'replayed={self.replayed} states={self.states} {ev["wall_s"]}s')
        return 1 if self.violations else 0


def signature(what):
    return re.sub(r'\d+', '#', what)[:60]


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) match=(\S+)', line)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def die(msg):
    print(msg, file=sys.stderr)
    sys.exit(3)
