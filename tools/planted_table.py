"""Prints the table of planted bugs for DESIGN.md."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| planted bug | caught by | needs |\n|---|---|---|')
for d in sorted(os.listdir(here)):
    m = json.load(open(os.path.join(here, d, 'meta.json')))
    print('| {} | {} | {} |'.format(d, m.get('caught_by', m['property']), ' '.join(m['needs'].split()).rstrip('.')))
