"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |\n")
path = f'{root}/DESIGN.md'
text = open(path).read()
head = '| planted bug | caught by | what it breaks |\n|---|---|---|\n'
at = text.index(head) + len(head)
end = at
while text[end:].startswith('|'):
    end = text.index('\n', end) + 1
open(path, 'w').write(text[:at] + ''.join(rows) + text[end:])
