"""usage: mkseed.py ID PROP FILE 'needs' 'breaks' < old/new text separated by a line '===='   writes patch.diff and meta.json"""
import sys, os, json, subprocess, tempfile
ID, prop, f, needs, breaks = sys.argv[1:6]
old, new = sys.stdin.read().split('\n====\n')
new = new[:-1] if new.endswith('\n') else new
src = open('/repo/' + f, newline='').read()
if '\r\n' in src:
    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
assert src.count(old) == 1, src.count(old)
D = f'/verif/seeded/{ID}'
os.makedirs(D, exist_ok=True)
with tempfile.TemporaryDirectory() as t:
    for s, x in (('a', src), ('b', src.replace(old, new))):
        p = os.path.join(t, s, f); os.makedirs(os.path.dirname(p)); open(p, 'w', newline='').write(x)
    d = subprocess.run(['diff', '-u', f'a/{f}', f'b/{f}'], cwd=t, capture_output=True).stdout
d = d.split(b'\n')
d[0] = b'--- a/' + f.encode(); d[1] = b'+++ b/' + f.encode()
open(D + '/patch.diff', 'wb').write(b'\n'.join(d))
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + '/meta.json', 'w'), indent=1)
subprocess.run(['git', '-C', '/repo', 'apply', '--check', D + '/patch.diff'], check=True)
