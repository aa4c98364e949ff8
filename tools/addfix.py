"""addfix.py PID HASH: record a fix commit of /repo in known_findings.json."""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
for pid, h in zip(sys.argv[1::2], sys.argv[2::2]):
    s = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%s', h], capture_output=True, text=True).stdout.strip()
    w = s.removeprefix('fix: ')
    d.append({'property': pid, 'status': 'fixed', 'commit': h, 'what': w, 'entry': f'fixed: property={pid} {h} {w}'})
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
