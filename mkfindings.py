#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects, one per fix commit, and the open findings."""
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
PROP = {}
def m(p, hs):
    for h in hs.split():
        PROP[h] = p
m('P01', '517d25c b08e43d d1bfa39 9b74cc1 6b7e582 18e4493')
m('P02', '8dc5616 a497319 21d77c2 835a608 70b67cd d210b7e e2c2da8 3a83eaa a4ff84f')
m('P03', '08aa050 0360e85 bf8912a c2c557c 2f58b53 9962995 3f0440e 1ce699c 3e3875b')
m('P04', '7520342 dda6cb8')
m('P05', 'f9c4a64 778d859')
m('P06', '9f77a31 f88be3c fdbcb3a 9fadc61')
m('P10', '5b74f70 3733713 fc5dbc1 aa780e6 d2ba389')
m('P09', '26ec7fd')
m('P12', '97663ff 39fda16 f961943 1582835 cb939f1 05f0d24 b3f7200 936f21c')
m('P17', 'a34630b 0e474a2 e8325e6 4e8ff0f 3d17d27')
m('P18', '2bc9854 d530f92 dedae17')
m('P13', '9dc1ead a4e5a0d 3055eba 9f77da7')
m('P08', '0215e07 661419e 0522c22 6893040')
m('P14', '03fea31 b708f0b bcffa52 e4ed4f0 bed6678 651e615')
m('P16', 'c1f55f0')
m('P19', '165f9c8 9c9e8af 45a124e')
m('P20', '3f557f7 b0f1244 6be9d7d')
m('P22', 'b2cad8c 4fc8c6d 4747672')
m('P21', '63d4054 7ad9208 b9e6caf 4e28f79 7b73f60')
m('P24', 'e909a02')
m('P25', 'e1bfa2f')
m('P23', '01fe6fa')
m('P07', 'b8dd581')
m('P08', '895f86d')
m('P01', 'af3ee78')
m('P02', 'd226731')
m('P28', '3497a5f')
m('P10', '1323106')
m('P25', 'b04ea35')
m('P26', '1e66cff')
m('P28', '35fad26 8b70daa')
BASE = '9d6fb02'
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..HEAD'], text=True, stdout=subprocess.PIPE).stdout
out = []
p = os.path.join(here, 'open_findings.json')
if os.path.exists(p):
    out += json.load(open(p))
for l in log.splitlines():
    h, _, s = l.partition(' ')
    assert s.startswith('fix: '), l
    what = s[5:]
    out.append(dict(property=PROP[h], key='fixed.' + h, status='fixed', commit=h, what=what,
                    line='fixed: property=%s %s %s' % (PROP[h], h, what)))
json.dump(dict(findings=out), open(os.path.join(here, 'known_findings.json'), 'w'), indent=1)
