"""Print the table of planted bugs for DESIGN.md."""
import glob, json, os
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m))
    print('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'].replace('|', '\\|'), 'yes'))
