"""Obligation bookkeeping, evidence files and the verdict of a check."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """an anchor of the analysis vanished: the check cannot give a verdict"""


class Ob:
    __slots__ = ('rule', 'site', 'status', 'text', 'loc')

    def __init__(self, rule, site, status, text='', loc=None):
        self.rule, self.site, self.status, self.text, self.loc = rule, site, status, text, loc

    def key(self):
        return '%s @ %s' % (self.rule, self.site)


class Check:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.notes = []
        self.assumptions = []
        self.functions = set()
        self.trusted = []
        self.explored = {}

    def ok(self, rule, site, text='', loc=None):
        self.obs.append(Ob(rule, site, 'ok', text, loc))

    def bad(self, rule, site, text='', loc=None):
        self.obs.append(Ob(rule, site, 'bad', text, loc))

    def unk(self, rule, site, text='', loc=None):
        self.obs.append(Ob(rule, site, 'unknown', text, loc))

    def put(self, status, rule, site, text='', loc=None):
        self.obs.append(Ob(rule, site, status, text, loc))

    def note(self, t):
        self.notes.append(t)

    def count(self, k, n=1):
        self.explored[k] = self.explored.get(k, 0) + n


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def merge(obs):
    """one verdict per (rule, site): bad > unknown > ok"""
    rank = {'ok': 0, 'unknown': 1, 'bad': 2}
    out = {}
    for o in obs:
        k = o.key()
        if k not in out or rank[o.status] > rank[out[k].status]:
            out[k] = o
    return out


def finish(chk, t0, meta):
    obs = merge(chk.obs)
    if not obs:
        raise Broken('no obligation was generated')
    bad = [o for o in obs.values() if o.status == 'bad']
    unk = [o for o in obs.values() if o.status == 'unknown']
    okk = [o for o in obs.values() if o.status == 'ok']
    known = [k for k in known_findings() if k['property'] == chk.pid]
    news, olds = [], []
    for o in bad:
        m = [k for k in known if k['rule'] == o.rule and k['site'] == o.site and
             (not k.get('text') or k['text'] in o.text)]
        (olds if m else news).append((o, m))
    exp = {
        'explanation': meta['explain'],
        'rule': meta['rule'],
        'obligations': len(obs), 'discharged': len(okk),
        'undecided': len(unk), 'violated': len(bad), 'known_findings': len(olds),
        'functions_analysed': len(chk.functions),
        'functions': sorted(chk.functions)[:400],
        'work': chk.explored,
        'checker_cmd': 'python3 /verif/check.py %s' % chk.pid,
        'trusted_base': meta.get('trusted', []) + chk.trusted,
        'samples': [{'rule': o.rule, 'site': o.site, 'status': o.status, 'at': fmtloc(o.loc), 'text': o.text[:300]}
                    for o in (bad + unk + okk)[:60]],
        'undecided_list': [o.key() + (' : ' + o.text[:160] if o.text else '') for o in unk],
        'notes': chk.notes,
    }
    ev = {'property': chk.pid, 'tier': chk.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': meta['level'], 'coverage': exp, 'assumptions': meta.get('assumptions', []) + chk.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(news)}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, chk.pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d known), %d functions, %.1fs' % (
        chk.pid, len(obs), len(okk), len(unk), len(bad), len(olds), len(chk.functions), time.time() - t0))
    for o in unk:
        print('  undecided: %s %s' % (o.key(), o.text[:200]))
    for o, m in olds:
        print('KNOWN-FINDING: property=%s %s: %s' % (chk.pid, o.key(), m[0].get('what', o.text)))
    if news:
        rp = os.path.join(d, 'replay-%s.txt' % chk.pid)
        with open(rp, 'w') as f:
            for o, _ in news:
                f.write('%s: rule %s violated at %s: %s\n' % (fmtloc(o.loc), o.rule, o.site, o.text))
        for o, _ in news[:20]:
            print('  %s: rule [%s] site [%s]: %s' % (fmtloc(o.loc), o.rule, o.site, o.text[:600]))
        print('VIOLATION property=%s replay=%s' % (chk.pid, rp))
        return 1
    if meta.get('min_ok') and len(okk) < 0.3 * meta['min_ok'] and not olds:
        # not silent: the rule lost its instances
        raise Broken('only %d obligations discharged, at least %d expected' % (len(okk), int(0.3 * meta['min_ok'])))
    return 0


def fmtloc(l):
    if not l:
        return '-'
    if isinstance(l, str):
        return l
    return '%s:%s' % tuple(l[:2])
