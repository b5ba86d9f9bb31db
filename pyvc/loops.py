"""Loop invariants belong to the k-th loop of a function as it was when they were written (contracts/loops.json).
Where the number of loops of the function has changed since, the loops that are still there are matched by what they iterate over."""
import ast, difflib, json, os

BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'loops.json')
_base = None


def loops_of(node):
    ls = [x for x in ast.walk(node) if isinstance(x, (ast.For, ast.While))]
    ls.sort(key=lambda x: (x.lineno, x.col_offset))
    return ls


def signature(s):
    return 'for %s in %s' % (ast.unparse(s.target), ast.unparse(s.iter)) if isinstance(s, ast.For) else 'while %s' % ast.unparse(s.test)


def baseline(qual):
    global _base
    if _base is None:
        _base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    return _base.get(qual)


def index(qual, node, s):
    """position of loop s when the invariants were written, None for a new loop"""
    ls = loops_of(node)
    k = next(i for i, x in enumerate(ls) if x is s)
    b = baseline(qual)
    if b is None or len(b) == len(ls):
        return k
    m = difflib.SequenceMatcher(None, b, [signature(x) for x in ls], autojunk=False)
    for i, j, n in m.get_matching_blocks():
        if j <= k < j + n:
            return i + k - j
    return None


def moved(qual, node):
    b = baseline(qual)
    return b is not None and len(b) != len(loops_of(node))
