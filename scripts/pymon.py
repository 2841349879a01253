"""Monitor runtime for the Python parts (same result format as harness/mon.h)."""
import json, sys, os, random, hashlib, traceback
REPO = os.environ.get('SIREN_REPO', '/repo')
class Mon:
    def __init__(self, argv):
        self.out, self.seed, self.tier = argv[1], int(argv[2]), argv[3]
        self.r = dict(group='', cases=0, evals={}, observed={}, extreme={}, fails={}, distinct=[], samples=[], violations=[])
        self.seenset = set(); self.group = ''; self.cas = 0
    thorough = property(lambda s: s.tier == 'thorough')
    def check(self, mon, ok, detail=''):
        self.r['evals'][mon] = self.r['evals'].get(mon, 0) + 1
        if not ok:
            self.r['fails'][mon] = self.r['fails'].get(mon, 0) + 1
            if self.r['fails'][mon] <= 6: self.r['violations'].append(dict(group=self.group, monitor=mon, case=self.cas, detail=str(detail() if callable(detail) else detail)[:900]))
        return bool(ok)
    def seen(self, k):
        k = '%s|%s' % (self.group, k)
        if k not in self.seenset:
            self.seenset.add(k); self.r['distinct'].append(int(hashlib.sha256(k.encode()).hexdigest()[:15], 16))
            if sum(1 for s in self.r['samples'] if s.startswith(self.group + '|')) < 2: self.r['samples'].append(k)
    def obs(self, k, n=1): self.r['observed'][k] = self.r['observed'].get(k, 0) + n
    def peak(self, k, v): self.r['extreme'][k] = max(self.r['extreme'].get(k, v), v)
    def run(self, name, fn, quick, thorough):
        self.group = name
        for k in range(thorough if self.thorough else quick):
            self.cas = k; rng = random.Random('%d|%s|%d' % (self.seed, name, k))
            try: fn(self, rng)
            except Exception as e: self.check('unexpected-exception', False, traceback.format_exc()[-800:])
            self.r['cases'] += 1
        self.r['group'] = 'python'
    def done(self):
        json.dump(self.r, open(self.out, 'w')); sys.exit(0)
