"""Parser of Expr.expression_tree_str() into nodes of wfv.ref."""
import re as _re


class TreeError(Exception):
    pass


_head = _re.compile(r"^((?:│  |   )*)(├─ |└─ )?(.*)$")


def parse(text):
    lines = text.split("\n")
    items = []
    for ln in lines:
        m = _head.match(ln)
        depth = len(m.group(1)) // 3 + (1 if m.group(2) else 0)
        items.append((depth, m.group(3)))
    pos = 0

    def build(depth):
        nonlocal pos
        if pos >= len(items) or items[pos][0] != depth:
            raise TreeError("unexpected depth at line %d of\n%s" % (pos, text))
        label = items[pos][1]
        pos += 1
        kids = []
        while pos < len(items) and items[pos][0] == depth + 1:
            kids.append(build(depth + 1))
        return node(label, kids)

    n = build(0)
    if pos != len(items):
        raise TreeError("trailing lines in\n" + text)
    return n


_par = _re.compile(r"^(\w+)(?: \((.*)\))?:?$")


def node(label, kids):
    m = _par.match(label)
    if not m:
        raise TreeError("cannot parse label %r" % label)
    t, p = m.group(1), m.group(2)

    def arity(k):
        if len(kids) != k:
            raise TreeError("%s has %d children" % (label, len(kids)))
    if t == "Addition":
        if len(kids) < 2: raise TreeError("addition with %d terms" % len(kids))
        return ("add",) + tuple(kids)
    if t == "Multiplication":
        if len(kids) < 2: raise TreeError("multiplication with %d terms" % len(kids))
        return ("mul",) + tuple(kids)
    if t == "Power":
        arity(2)
        return ("pow", kids[0], kids[1])
    if t == "IntegerConstant":
        return ("int", int(p))
    if t == "RationalConstant":
        a, b = p.split(" / ")
        return ("rat", int(a), int(b))
    if t == "FloatConstant":
        return ("flt", float(p))
    if t == "Variable":
        name, s = p.rsplit(", ", 1)
        return ("sym", name, s)
    if t == "UniqueVariable":
        name, s = p.rsplit(", ", 1)
        return ("uniq", int(name), s)
    if t == "FunctionArgumentVariable":
        mm = _re.match(r"^(.*)\[(\d+)\]: (.*)$", p)
        return ("farg", mm.group(1), int(mm.group(2)), mm.group(3))
    if t == "SymbolicConstant":
        if p == "pi": return ("pi",)
        if p in ("E", "e"): return ("e",)
        raise TreeError("constant " + p)
    if t == "ImaginaryUnit":
        return ("i",)
    if t == "ComplexInfinity":
        return ("zoo",)
    if t == "Undefined":
        return ("nan",)
    if t == "BooleanConstant":
        return (p,)
    if t == "BuiltInFunctionInvocation":
        return ("fn", p) + tuple(kids)
    if t == "Conditional":
        arity(3)
        return ("where",) + tuple(kids)
    if t == "IversonBracket":
        arity(1)
        return ("iverson", kids[0])
    if t == "Relational":
        arity(2)
        return ("rel", p, kids[0], kids[1])
    if t == "Unevaluated":
        arity(1)
        return ("uneval", kids[0])
    if t == "StopDerivative":
        arity(1)
        return ("stopd", kids[0])
    if t == "SymbolicFunctionInvocation":
        return ("symfn", p) + tuple(kids)
    if t == "Derivative":
        arity(2)
        return ("deriv", int(p.split("=")[1]), kids[0], kids[1])
    if t == "Substitution":
        arity(3)
        return ("subst",) + tuple(kids)
    if t == "Matrix":
        r, c = p.split(", ")
        return ("matrix", int(r), int(c)) + tuple(kids)
    if t == "CompoundExpressionElement":
        return ("elem", int(p.split("=")[1]), kids[0])
    if t == "ExternalFunctionInvocation":
        return ("ext", p[len("function = `"):-1]) + tuple(kids)
    if t == "CustomTypeArgument":
        return ("ctarg", p)
    if t == "CustomTypeConstruction":
        return ("ctcons", p) + tuple(kids)
    raise TreeError("unknown node " + label)


def of(expr):
    return parse(expr.expression_tree_str())
