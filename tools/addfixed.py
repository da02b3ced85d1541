"""usage: addfixed.py <hash>=<Pxx>...: adds "fixed" entries for fix: commits of /repo to known_findings.json."""
import json, subprocess, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
msgs = dict(l.split(' ', 1) for l in subprocess.run("git -C /repo log --format='%h %s'", shell=True, capture_output=True, text=True).stdout.strip().split('\n'))
for a in sys.argv[1:]:
    c, prop = a.split('=')
    if any(x['id'] == 'fix-' + c for x in k): continue
    k.append({"id": "fix-" + c, "property": prop, "status": "fixed", "entry": "fixed: property=%s %s %s" % (prop, c, msgs[c][5:])})
json.dump(k, open(p, 'w'), indent=1)
