""" puts the table of planted bugs into DESIGN.md """
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'counter-mod': 'missed at first; C04 now changes single bits and '
    'wraps', 'ff-next': 'missed by C20 and C09 at first (C21 caught it); both '
    'now start from states made from a receipt', 'reg-dummy': 'missed at first; '
    'C23 now switches registers'}


def main():
    rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
        with open(os.path.join(V, 'seeded', b, 'meta.json')) as f:
            m = json.load(f)
        rows.append('| %s | %s | %s | %s%s |' % (b, m['property'], ' '.join(m[
            'needs'].split()), m['property'], '; ' + MISSED[b] if b in MISSED
            else ''))
    p = os.path.join(V, 'DESIGN.md')
    with open(p) as f:
        s = f.read()
    s = re.sub(r'<!-- bugs -->.*<!-- end -->', lambda m: '<!-- bugs -->\n' +
        '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
    with open(p, 'w') as f:
        f.write(s)


main()
