"""Parsing of the analysed package: modules, classes, functions, positions."""
import ast
import os


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, unparsable file)."""


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = [b.id if isinstance(b, ast.Name) else getattr(b, "attr", "?") for b in node.bases]
        self.methods, self.attrs = {}, {}


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.imports, self.functions, self.classes, self.assigns = {}, {}, {}, []


class Program:
    def __init__(self, root, package="dany"):
        self.root, self.package = root, package
        self.modules, self.classes, self.functions = {}, {}, {}
        self.nodes = {}
        self.nid = 0
        pk = os.path.join(root, package)
        if not os.path.isdir(pk):
            raise AnalysisError(f"package directory {pk} is missing")
        files = []
        for dp, dn, fn in os.walk(pk):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            files += [os.path.join(dp, f) for f in sorted(fn) if f.endswith(".py")]
        for path in files:
            rel = os.path.relpath(path, root)
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            with open(path, encoding="utf-8") as f:
                try:
                    tree = ast.parse(f.read(), rel)
                except SyntaxError as e:
                    raise AnalysisError(f"{rel} does not parse: {e}")
            self._module(name, rel, tree, path.endswith("__init__.py"))
        # package re-exports
        self.public = {}
        for m in self.modules.values():
            for k, v in m.functions.items():
                self.public.setdefault(k, ("fn", m.name, k))
            for k, v in m.classes.items():
                self.public.setdefault(k, ("cls", m.name, k))

    def _module(self, name, rel, tree, is_pkg):
        m = Module(name, rel, tree)
        self.modules[name] = m
        self._number(tree, rel, "<module>")
        pkgname = name if is_pkg else name.rsplit(".", 1)[0]
        m.pkgname = pkgname
        for st in ast.walk(tree):
            if isinstance(st, (ast.Import, ast.ImportFrom)) and st in tree.body:
                self.bind_import(st, m.imports, pkgname)
        for st in tree.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                st._module, st._qual, st._cls = m, st.name, None
                m.functions[st.name] = st
                self.functions[f"{name}.{st.name}"] = st
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(st.name, m, st)
                m.classes[st.name] = ci
                self.classes[st.name] = ci
                for b in st.body:
                    if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        b._module, b._qual, b._cls = m, f"{st.name}.{b.name}", ci
                        decs = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", "?") for d in b.decorator_list]
                        b._decs = decs
                        if "setter" in decs or "deleter" in decs:
                            ci.methods.setdefault(b.name + ".setter", b)
                        else:
                            ci.methods[b.name] = b
                        self.functions[f"{name}.{st.name}.{b.name}"] = b
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                ci.attrs[t.id] = b.value
                    elif isinstance(b, ast.AnnAssign) and b.value is not None and isinstance(b.target, ast.Name):
                        ci.attrs[b.target.id] = b.value
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.If, ast.Try, ast.Expr, ast.For)):
                m.assigns.append(st)

    @staticmethod
    def bind_import(st, table, pkgname):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    table[a.asname] = ("mod", a.name)
                else:
                    table[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            base = st.module or ""
            if st.level:
                parts = pkgname.split(".")
                parts = parts[: len(parts) - (st.level - 1)]
                base = ".".join(parts + ([base] if base else []))
            for a in st.names:
                table[a.asname or a.name] = ("from", base, a.name)

    def _number(self, tree, rel, qual):
        def walk(n, q, loops=()):
            self.nid += 1
            n._nid = self.nid
            n._file = rel
            n._func = q
            n._loops = loops
            self.nodes[self.nid] = n
            nq = q
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                nq = n.name if q == "<module>" else f"{q}.{n.name}"
            inner = loops + (n._nid,) if isinstance(n, (ast.For, ast.While)) else loops
            for c in ast.iter_child_nodes(n):
                walk(c, nq, loops if isinstance(n, ast.For) and c is n.iter else inner)
        walk(tree, qual)

    def mro(self, name):
        out, seen, todo = [], set(), [name]
        while todo:
            n = todo.pop(0)
            if n in seen or n not in self.classes:
                continue
            seen.add(n)
            out.append(self.classes[n])
            todo += self.classes[n].bases
        return out

    def find_method(self, cls, meth, after=None):
        chain = self.mro(cls)
        if after is not None:
            names = [c.name for c in chain]
            chain = chain[names.index(after) + 1:] if after in names else []
        for c in chain:
            if meth in c.methods:
                return c.methods[meth]
        return None

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def where(self, nid):
        n = self.nodes.get(nid)
        while n is not None and not hasattr(n, "lineno"):
            return f"{n._file}", n._func, 0
        return n._file, n._func, getattr(n, "lineno", 0)

    def text(self, nid, limit=90):
        try:
            s = ast.unparse(self.nodes[nid])
        except Exception:
            s = type(self.nodes[nid]).__name__
        s = " ".join(s.split())
        return s if len(s) <= limit else s[: limit - 3] + "..."
