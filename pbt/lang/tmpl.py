"""Programs from source text with holes: an identifier Q<n> stands for the n-th expression of a list."""
import re

from .parser import parse

HOLE = re.compile(r"\AQ[0-9]+\Z")


def fill(node, exprs):
    if isinstance(node, list):
        if len(node) == 2 and node[0] == "id" and isinstance(node[1], str) and HOLE.match(node[1]):
            return ["par", exprs[int(node[1][1:])]]
        return [fill(x, exprs) for x in node]
    if isinstance(node, tuple):
        return [fill(x, exprs) for x in node]
    return node


class Template:
    def __init__(self):
        self.exprs = []
        self.text = ""

    def q(self, e):
        self.exprs.append(e)
        return "Q%d" % (len(self.exprs) - 1)

    def add(self, text):
        self.text += text + "\n"

    def prog(self):
        return fill(parse(self.text.encode("latin-1")), self.exprs)
