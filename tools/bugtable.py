"""Refresh the table of planted bugs at the end of DESIGN.md."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = '| bug | property | needs |\n|---|---|---|\n'
rows = ''
bugs = sorted((b, d) for d in ('seeded', 'seeded-more') for b in os.listdir('%s/%s' % (root, d)))
for b, d in bugs:
    m = json.load(open('%s/%s/%s/meta.json' % (root, d, b)))
    rows += '| %s | %s | %s |\n' % (b, m['property'], m['needs'])
text = open(root + '/DESIGN.md').read()
i = text.index(head)
j = text.find('\n\n', i)
rest = text[j + 1:] if j >= 0 else ''
open(root + '/DESIGN.md', 'w').write(text[:i] + head + rows + rest)
