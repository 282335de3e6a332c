"""Renews the table of planted bugs in DESIGN.md (between its two marks) from the folders in seeded/."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- planted: tools/make_design.py -->', '<!-- end -->'


def main():
    table = subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'planted_table.py')], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    p = os.path.join(HERE, 'DESIGN.md')
    with open(p) as f:
        text = f.read()
    head, rest = text.split(BEGIN)
    with open(p, 'w') as f:
        f.write(head + BEGIN + '\n' + table + '\n' + END + rest.split(END)[1])


main()
