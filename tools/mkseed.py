"""usage in a python script: from mkseed import seed; seed(id, property, needs, breaks, [(file, old, new), ...])"""
import subprocess, json, os
R = os.environ.get('SEED_REPO', '/repo')
def seed(i, prop, needs, breaks, edits):
    d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in edits:
            p = R + '/' + f; s = open(p).read(); assert s.count(a) == 1, (i, f, s.count(a)); open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout)
    finally:
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    dm = d + '/demo.sh'
    if not os.path.exists(dm):
        open(dm, 'w').write(open('/verif/seeded/s01/demo.sh').read())
