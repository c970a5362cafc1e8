"""Compositions of the code under analysis, written as small functions that are interpreted, never run."""
import ast
import textwrap

from repo import FuncInfo


def driver(repo, module, src):
    """FuncInfo of a function given as source text, resolved in the scope of `module`"""
    node = ast.parse(textwrap.dedent(src)).body[0]
    m = repo.module(module)
    return FuncInfo(m, "__driver_" + node.name, node, None)
