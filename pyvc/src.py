"""Access to the real source: modules, functions and classes of /repo, parsed on every run."""
import ast, os

GHOST = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))      # client programs used as lemmas: /verif/ghost
REPO = os.environ.get('VERIF_REPO', '/repo')


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.defs = {}       # name -> node (FunctionDef / ClassDef / ('import', mod, name) / ('value', expr))
        self.is_pkg = path.endswith('__init__.py')
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.defs[a.asname] = ('import', a.name, None)
                    else:
                        self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    pk = self.name.split('.')
                    if not self.is_pkg:
                        pk = pk[:-1]
                    pk = pk[:len(pk) - (n.level - 1)]
                    base = '.'.join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    self.defs[a.asname or a.name] = ('import', base, a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.defs[n.targets[0].id] = ('value', n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.defs[n.target.id] = ('value', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect(n.body)
                self._collect(n.orelse)


_mods = {}


def module(name):
    if name not in _mods:
        base = os.path.join(GHOST if name.split('.')[0] == 'ghost' else REPO, *name.split('.'))
        if os.path.isfile(base + '.py'):
            _mods[name] = Module(name, base + '.py')
        elif os.path.isfile(os.path.join(base, '__init__.py')):
            _mods[name] = Module(name, os.path.join(base, '__init__.py'))
        else:
            _mods[name] = None
    return _mods[name]


def find_in_class(node, name):
    """last definition of `name` in the class body"""
    r = None
    for n in node.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
            r = n
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            r = ('value', n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
            r = ('value', n.value)
    return r
