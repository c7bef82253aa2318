"""Brings the list of contracts in DESIGN.md up to date: /opt/venv/bin/python mkdesign.py"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, '/repo']

from vc import contract as C  # noqa: E402


def kind(c):
    if c.proof:
        return 'P'
    if c.exhaustive:
        return 'X'
    return 'B'


def main():
    out = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        cons = C.load(p['id'])
        if not cons:
            out.append(f"* **{p['id']}** {p['title']}: not claimed")
            continue
        out.append(f"* **{p['id']}** {p['title']}: "
                   + ', '.join(f'{cid.split(".")[1]} {kind(c)}' for cid, c in cons.items()))
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    text = re.sub(r'(<!-- contracts -->\n).*?(\n<!-- end -->)', lambda m: m.group(1) + '\n'.join(out) + m.group(2), text, flags=re.S)
    open(path, 'w').write(text)


main()
