#!/usr/bin/env python3
"""writes known_findings.json: the repairs made in /repo (and, were there any, the open findings)"""
import json, os, subprocess
FIX = {  # commit -> property
 'cd54112': 'P12', 'd0fed17': 'P10', '4e4f213': 'P07', '159b4ab': 'P14', '5580fb5': 'P01', '8c97d48': 'P01', 'a9ff7b4': 'P07',
 'cd120db': 'P07', 'a5735be': 'P10', '0746fba': 'P22', 'd75568e': 'P10', '70412e5': 'P08', '4bd9d30': 'P11', 'e98b005': 'P14',
 '8a533df': 'P01', 'f571569': 'P01', 'd709533': 'P07', 'fb588f6': 'P07', '9cb369d': 'P01', '3d07018': 'P12', 'c87a9bb': 'P12',
 '2d96e23': 'P14', 'dce4397': 'P19', 'c12870c': 'P13', '2627157': 'P19', '1748203': 'P13', '5add176': 'P09', '89b9c52': 'P03',
 '62aae61': 'P03', '5049bfd': 'P03', '23a105c': 'P03', 'a08ecde': 'P07', 'da4e4d6': 'P10', 'b99d001': 'P04', 'ffb0489': 'P02',
 'ff1cf3a': 'P06', 'b1d5524': 'P02', '9d63a2d': 'P05', '94b7a1f': 'P06', '6e121d2': 'P06', '141f9e1': 'P02', '0dee63f': 'P02',
 '032278d': 'P02', 'f000efd': 'P06', 'd82cc29': 'P02', '5ab5b68': 'P10', '828a3ca': 'P07', '5609a9f': 'P10', 'ab1aea0': 'P02',
 '51351fd': 'P15', 'b2231d7': 'P02', '193613f': 'P05', '9717bce': 'P20', '33a96a8': 'P10', 'a52b893': 'P10', '654a01d': 'P10',
 '3dde13b': 'P19',
 '1bd20aa': 'P19',
 '99827fe': 'P19',
 'b9a28a1': 'P19',
 '5fcecc4': 'P19',
 '9d050b1': 'P19',
 '1c8f0bf': 'P19',
 'f92b8b2': 'P19',
 '533c552': 'P01',
 '9bf9e10': 'P07',
 '9689424': 'P07',
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s', '72016e3..'], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split('\t')
    if not s.startswith('fix: '):
        continue
    p = FIX[h]
    out.append({'id': 'F-' + h, 'property': p, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (p, h, s[5:])})
OPEN = []
json.dump({'findings': OPEN + out}, open(os.path.join(here, 'known_findings.json'), 'w'), indent=1)
print(len(out), 'fixed', len(OPEN), 'open')
