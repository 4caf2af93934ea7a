# rewrites the table of planted bugs at the end of DESIGN.md
import json, os, glob
MISSED = {'o03-tail-of-the-path','b01-cookies-by-the-flag','b01-login-flush-failure-is-logged','i05-filters-lost-while-computing','w05-native-after-many','w05-uint8-arrays-only','s04-version-optional','s01-alarm-pushed-back','s05-bucket-region-mixed','w02-clone-in-background','w02-flush-clears-late','w04-abort-is-unavailable','w04-origin-prefix','w06-lookup-raw-body','c03-any-answer-below-400','t01-tunnel-host-suffix','t01-invalid-certs-for-app-only','o01-failed-installer-not-rechecked','o01-links-in-subfolders','o01-npm-in-repository'}
s = open('/verif/DESIGN.md').read(); s = s[:s.index('## Planted bugs')]
rows = []
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json')); b = os.path.basename(d)
    rows.append(f"| {b}{' *' if b in MISSED else ''} | {m['property']} | {m['needs']} |")
s += "## Planted bugs\nEach was written from a property's text and the code, confirmed (builds, all stable tests pass, the demo\npasses without and fails with it), and is caught by the quick check of its property. Those marked * were\nmissed at first, and caught after strengthening the workload or the oracle.\n\n| id | caught by | needs |\n|---|---|---|\n" + '\n'.join(rows) + '\n'
open('/verif/DESIGN.md', 'w').write(s)
print(len(rows), 'bugs')
