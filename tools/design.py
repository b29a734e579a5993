"""Fills the bounds of every check into DESIGN.md, from the checks themselves."""
import importlib
import os
import re
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    from mc import core
    core.load_library()
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    for pid in sorted(set(re.findall(r'<!-- bounds (C\d+) -->', text))):
        check = importlib.import_module('checks.' + pid.lower())
        quick, thorough = check.BOUNDS('quick'), check.BOUNDS('thorough')
        lines = []
        for k, v in quick.items():
            s = '* %s: %s' % (k, v)
            if thorough.get(k) != v:
                s += ' (thorough: %s)' % thorough.get(k)
            lines.append(textwrap.fill(' '.join(s.split()), 78,
                                       subsequent_indent='  ',
                                       break_on_hyphens=False))
        new = '<!-- bounds %s -->\n%s\n<!-- end -->' % (pid, '\n'.join(lines))
        text = re.sub(r'<!-- bounds %s -->.*?<!-- end -->' % pid,
                      lambda m: new, text, flags=re.S)
    with open(path, 'w') as f:
        f.write(text)


if __name__ == '__main__':
    main()
