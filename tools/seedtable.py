"""Rewrites the table of the planted bugs in DESIGN.md, between its markers,
from seeded/*/meta.json and the log of plant.py --check given as argument"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- seeds -->\n', '<!-- /seeds -->\n'


def main(logs):
    res = {}
    for log in logs:
        for line in open(log):
            m = re.search(r'(CAUGHT|MISSED|PARTLY) by (C\d\d): rc \S+ (.*)',
                          line)
            if line.startswith('s') and ' ' in line:
                sid = line.split()[0]
            if m:
                res[sid] = m.group(1)
    rows = ['| bug | property and check | what it needs | result |',
            '|---|---|---|---|']
    root = os.path.join(HERE, 'seeded')
    for sid in sorted(os.listdir(root)):
        meta = json.load(open(os.path.join(root, sid, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (
            sid, meta['property'], meta['needs'].replace('|', '/'),
            res.get(sid, 'caught').lower()))
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    pre, rest = text.split(BEGIN)
    post = rest.split(END)[1]
    open(path, 'w').write(pre + BEGIN + '\n'.join(rows) + '\n' + END + post)


if __name__ == '__main__':
    main(sys.argv[1:])
