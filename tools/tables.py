"""Refreshes the tables of fixes and planted bugs in DESIGN.md. Run by hand; no check uses it."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAUGHT = os.path.join(HERE, 'tools', 'caught.txt')


def fixes():
    for line in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        if m:
            yield '| %s | %s | %s |' % m.groups()


def bugs():
    how = dict(l.split(None, 1) for l in open(CAUGHT)) if os.path.exists(CAUGHT) else {}
    yield '| bug | property | what it breaks | needs | quick check |'
    yield '|---|---|---|---|---|'
    for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        f = os.path.join(HERE, 'seeded', b, 'meta.json')
        if os.path.exists(f):
            m = json.load(open(f))
            yield '| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'],
                                                 how.get(b, '?').strip())


def fill(text, name, lines):
    return re.sub(r'(?s)(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + '\n'.join(lines) + '\n' + m.group(2), text)


path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
text = fill(text, 'bugs', list(bugs()))
text = fill(text, 'fixes', ['| property | commit | what was wrong |', '|---|---|---|'] + list(fixes()))
open(path, 'w').write(text)
sys.exit(0)
