"""pyvc: the repository's source, parsed from the working tree on every run."""
import ast
import os


class Source:
    """AST index of every module of the package; nothing is dropped but annotations and docstrings,
    which have no run-time effect in function bodies."""

    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.byline = {}
        self._yield, self._nl, self._cm = {}, {}, {}
        pkg = os.path.join(root, "omegaconf")
        for d, ds, fs in os.walk(pkg):
            if "vendor" in d or os.sep + "gen" in d:
                continue
            for f in fs:
                if f.endswith(".py"):
                    self.load(os.path.join(d, f))
        # the mixin methods that the containers inherit (MutableMapping, Sequence)
        import _collections_abc
        self.abc = _collections_abc.__file__
        self.load(self.abc)

    def load(self, path):
        with open(path) as fh:
            text = fh.read()
        tree = ast.parse(text, path)
        self.mods[path] = (text, tree)

        def walk(n, cls):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.ClassDef):
                    walk(c, c.name)
                elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = min([c.lineno] + [d.lineno for d in c.decorator_list])
                    self.byline[(path, line)] = (c, cls)
                    walk(c, None)
                elif isinstance(c, ast.Lambda):
                    walk(c, cls)
                else:
                    walk(c, cls)

        walk(tree, None)

    def find(self, fn):
        """(FunctionDef node, defining class object or None) of a host function"""
        co = fn.__code__
        path = co.co_filename
        if path == "<frozen _collections_abc>":
            path = self.abc
        e = self.byline.get((path, co.co_firstlineno))
        if e is None or e[0].name != fn.__name__ and e[0].name != co.co_name:
            return None, None
        cls = None
        if e[1] is not None:
            cls = fn.__globals__.get(e[1])
        return e[0], cls

    def has_yield(self, node):
        if node not in self._yield:
            found = False
            stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    found = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            self._yield[node] = found
        return self._yield[node]

    def has_nonlocal(self, node):
        if node not in self._nl:
            self._nl[node] = any(isinstance(n, ast.Nonlocal) for n in ast.walk(node))
        return self._nl[node]

    def class_methods(self, cls):
        if cls not in self._cm:
            names = set()
            for text, tree in self.mods.values():
                for n in ast.walk(tree):
                    if isinstance(n, ast.ClassDef) and n.name == cls.__name__:
                        names |= {m.name for m in n.body if isinstance(m, ast.FunctionDef)}
            self._cm[cls] = names
        return self._cm[cls]

    def is_simple_test(self, t):
        return not any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Await)) for n in ast.walk(t))
