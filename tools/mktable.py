"""Writes the table of planted bugs at the end of DESIGN.md."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs\n'


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    text = open(path).read().split(MARK)[0].rstrip('\n') + '\n\n'
    text += MARK + '\nEach was caught by the quick check of the property named when it was last run (`tools/plant.py -t -c`); those up to s084 were\nnot all run again after the last changes to the generators, except the ones vcheck picked.  Others may catch it as well.\n\n'
    text += '| id | caught by | what it breaks | what it needs |\n|---|---|---|---|\n'
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
        text += '| %s | %s | %s | %s |\n' % tuple(x.replace('|', '\\|') for x in (d, m['property'], m['what_it_breaks'], m['needs']))
    open(path, 'w').write(text)


if __name__ == '__main__':
    main()
