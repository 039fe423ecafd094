"""mkwords.py: what the unchanged tree says, for dst/words.py"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from dst import words  # noqa: E402

root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'opendis')
with open(os.path.join(VERIF, 'dst', 'words.txt'), 'w') as f:
    f.writelines(repr(x) + '\n' for x in words.collect(root))
with open(os.path.join(VERIF, 'dst', 'shapes.txt'), 'w') as f:
    f.writelines(f'{n} {says}\n' for n, (says, _) in sorted(words.shapes(root).items()))
