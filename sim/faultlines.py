"""Which source lines may an injected failure hit?

A failure "while executing a statement" (failing allocation, interrupt) is injected
when the interpreter arrives at the line.  Only lines that start an ordinary
statement qualify: block headers such as ``with``/``try`` re-emit line events on exit,
and clean-up code (``finally`` bodies) is not asked to survive failing itself.
"""
import ast
import os

_OK = (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Expr, ast.Return, ast.If,
       ast.Import, ast.ImportFrom)
_cache = {}


def _scan(node, out, infinal):
    for fieldname, value in ast.iter_fields(node):
        if isinstance(value, list):
            fin = infinal or (isinstance(node, (ast.Try,)) and fieldname == "finalbody")
            fin = fin or isinstance(node, ast.ExceptHandler)
            for v in value:
                if isinstance(v, ast.AST):
                    if isinstance(v, _OK) and not fin and not _cleanup(v):
                        out.add(v.lineno)
                    _scan(v, out, fin)
        elif isinstance(value, ast.AST):
            _scan(value, out, infinal)


_CLEAN = {"acquire", "release", "close", "finalize", "unlink", "remove", "rmtree", "clear",
          "pop", "print", "append", "isinstance", "len", "int", "float", "bool", "getattr"}


def _head(stmt):
    """The expressions evaluated when the statement starts (not nested blocks)."""
    if isinstance(stmt, ast.If):
        return [stmt.test]
    return [v for v in ast.iter_child_nodes(stmt)]


def _cleanup(stmt):
    """True if the statement is no place where a failure can arise: it calls nothing
    that allocates or does I/O (plain rebinding, attribute access, comparison), or it
    is clean-up itself (lock release, close, unlink)."""
    if isinstance(stmt, (ast.Import, ast.ImportFrom)):
        return False
    calls = [c for h in _head(stmt) for c in ast.walk(h) if isinstance(c, ast.Call)]
    for c in calls:
        f = c.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name not in _CLEAN:
            return False
    return True


def fault_lines(filename):
    filename = os.path.realpath(filename)
    if filename not in _cache:
        out = set()
        try:
            with open(filename) as f:
                _scan(ast.parse(f.read()), out, False)
        except (OSError, SyntaxError):
            pass
        _cache[filename] = out
    return _cache[filename]
