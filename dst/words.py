"""Numbers and strings that occur in the code under test, for values to be drawn from: what the
code compares with, and where it changes its ways, is reached sooner. They decide nothing."""
import ast
import hashlib
import math
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def collect(root):
    """constants of all modules below root, folded as the compiler does"""
    out = set()

    def walk(x):
        if hasattr(x, 'co_consts'):
            for c in x.co_consts:
                walk(c)
        elif isinstance(x, (tuple, frozenset)):
            for c in x:
                walk(c)
        elif isinstance(x, (int, float)) and not isinstance(x, bool):
            out.add(x)
        elif isinstance(x, (str, bytes)) and 0 < len(x) <= 24:
            out.add(x)
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py'):
                with open(os.path.join(d, f), encoding='utf-8') as g:
                    try:
                        walk(compile(g.read(), f, 'exec'))
                    except (SyntaxError, ValueError):
                        pass
    return sorted(out, key=repr)


def shapes(root):
    """{class, function or table: (what it says, the names it says it with)} of all modules below root"""
    out = {}
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            with open(os.path.join(d, f), encoding='utf-8') as g:
                try:
                    tree = ast.parse(g.read())
                except (SyntaxError, ValueError):
                    continue
            for n in tree.body:
                if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                    names = [n.name]
                elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                    names = [t.id for t in getattr(n, 'targets', None) or [n.target] if isinstance(t, ast.Name)]
                else:
                    continue
                says = hashlib.sha256(ast.dump(n).encode()).hexdigest()[:12]
                refs = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
                for name in names:
                    was = out.get(name, ('', set()))
                    out[name] = was[0] + says, was[1] | refs
                for m in n.body if isinstance(n, ast.ClassDef) else ():
                    if isinstance(m, ast.FunctionDef):
                        out[f'{n.name}.{m.name}'] = hashlib.sha256(ast.dump(m).encode()).hexdigest()[:12], set()
    return out


def touched(root):
    """names of what differs from the unchanged tree or is made of something that does; those that differ"""
    now = shapes(root)
    with open(os.path.join(HERE, 'shapes.txt'), encoding='utf-8') as f:
        old = dict(x.split() for x in f)
    hot = {n for n, (says, _) in now.items() if old.get(n) != says} - {'__all__'}
    if len(hot) > 100:                  # another tree altogether
        return set(), set()
    own = set(hot)
    while True:
        more = {n for n, (_, refs) in now.items() if n not in hot and refs & hot}
        if not more:
            return hot, own
        hot |= more


def known():
    with open(os.path.join(HERE, 'words.txt'), encoding='utf-8') as f:
        return [ast.literal_eval(x) for x in f.read().splitlines()]


class Words:
    def __init__(self, root):
        have, old = collect(root), {repr(x) for x in known()}
        new = [x for x in have if repr(x) not in old]
        # a text may stand for the octets of a number
        new += [int.from_bytes(x if isinstance(x, bytes) else x.encode('utf-8'), 'big')
                for x in new if isinstance(x, (str, bytes)) and 1 < len(x) <= 8]
        self.pools = [self.split(new), self.split(have)]
        self.fresh = any(isinstance(x, (int, float)) for x in new)
        self.hot, self.own = touched(root)

    @staticmethod
    def split(xs):
        ints = [x for x in xs if isinstance(x, int)]
        floats = [x for x in xs if isinstance(x, float)]
        return dict(int=ints, float=floats, len=[x for x in ints if 7 < x <= 9000],
                    str=[x if isinstance(x, str) else x.decode('latin-1') for x in xs if isinstance(x, (str, bytes))])

    def pick(self, rng, *kinds):
        """a word, rather one that is new, or None"""
        for pool in self.pools if rng.random() < .7 else self.pools[::-1]:
            xs = [x for k in kinds for x in pool[k]]
            if xs:
                return rng.choice(xs)

    def wanted(self, rng):
        return rng.random() < getattr(rng, 'theme', .02)

    def turn(self, rng):
        """now and then a record is made of little else"""
        if rng.random() < .05:
            rng.theme = .5 if rng.random() < (.3 if self.fresh else .1) else .02

    def integer(self, rng, bits):
        n = self.pick(rng, 'int') if rng.random() < .8 else rng.randrange(4)
        if n is None:
            return None
        n += rng.choice((0, 0, 0, 0, -1, 1))
        return n if abs(n) < 1 << bits else None

    def length(self, rng):
        """how many there are of something, or None"""
        if rng.random() < (.1 if self.pools[0]['len'] else .02):
            return self.pick(rng, 'len')

    def number(self, rng):
        """a float, as it is or as an angle"""
        x = self.pick(rng, 'int', 'float')
        if x is None or abs(x) > 1e300:
            return None
        x = float(x) * rng.choice((1, 1, 1, -1))
        x = rng.choice((x, x, math.radians(x), math.degrees(x))) if abs(x) < 1e6 else x
        r = rng.random()
        return x if r < .5 else math.nextafter(x, rng.choice((-1e300, 1e300))) if r < .6 else x + rng.choice(
            (1, -1)) * 10 ** rng.uniform(-12, -1) * max(1.0, abs(x)) if r < .85 else x * rng.uniform(.5, 2)

    def text(self, rng):
        """octets of a string, or None"""
        x = self.pick(rng, 'str')
        return x if x is None else x.encode('utf-8')
