"""Relating the current text of a function to the text its contract was written
against (contracts/baseline.json): which loop of the contract annotates which
loop of the current text, and which local was renamed to which.  This only
chooses where invariants are attached; every obligation is generated from the
current text, so a wrong choice can lose a proof but cannot make one up."""
import ast
import difflib


def norm(node):
    """Text of a function without docstrings, annotations and no-op statements."""
    node = ast.parse(ast.unparse(node)).body[0]

    class N(ast.NodeTransformer):
        def visit_Expr(self, n):
            if isinstance(n.value, ast.Constant):
                return None
            return self.generic_visit(n)

        def visit_Pass(self, n):
            return None

        def visit_arg(self, n):
            n.annotation = None
            return n
    N().visit(node)
    return ast.unparse(ast.fix_missing_locations(node)) if node.body else ast.dump(node)


def own_loops(node):
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(c)
            go(c)
    go(node)
    return out


def spliced_loops(node, helper):
    """Own loops in source order, with the loops of new helpers at their call."""
    out, seen = [], set()

    def go(n, depth):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(c)
            if isinstance(c, ast.Call) and depth < 4:
                h = helper(c)
                if h is not None and id(h) not in seen:
                    seen.add(id(h))
                    go(h, depth + 1)
            go(c, depth)
    go(node, 0)
    return out


def toks(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.append("n:" + n.id)
        elif isinstance(n, ast.Attribute):
            out.append("a:" + n.attr)
        elif isinstance(n, ast.Constant):
            out.append("c:%r" % (n.value,))
        else:
            out.append(type(n).__name__)
    return out


def sim(a, b):
    s = difflib.SequenceMatcher(None, toks(a), toks(b), autojunk=False).ratio()
    ha = a.iter if isinstance(a, ast.For) else a.test
    hb = b.iter if isinstance(b, ast.For) else b.test
    h = difflib.SequenceMatcher(None, toks(ha), toks(hb), autojunk=False).ratio()
    return 0.5 * s + 0.5 * h + (0.3 if type(a) is type(b) else 0.0)


def align(base, cur):
    """Order-preserving matching of baseline loops to current loops ->
    list: for each current loop its baseline ordinal or None."""
    if len(base) == len(cur) and all(type(a) is type(b) for a, b in zip(base, cur)):
        return list(range(len(cur)))
    n, m = len(base), len(cur)
    best = [[0.0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            s = sim(base[i], cur[j])
            best[i][j] = max(best[i + 1][j], best[i][j + 1], best[i + 1][j + 1] + (s - 0.35))
    out = [None] * m
    i = j = 0
    while i < n and j < m:
        s = sim(base[i], cur[j]) - 0.35
        if s > 0 and abs(best[i][j] - (best[i + 1][j + 1] + s)) < 1e-9:
            out[j] = i
            i += 1
            j += 1
        elif best[i][j] == best[i + 1][j]:
            i += 1
        else:
            j += 1
    return out


def stored(node):
    s = set(a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs)
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
    return s


def seqnames(node, loc):
    out = []

    def go(n):
        if isinstance(n, ast.Name):
            out.append(("N" if n.id in loc else "G:" + n.id, n.id if n.id in loc else None))
        elif isinstance(n, ast.arg):
            out.append(("N", n.arg))
        elif isinstance(n, ast.Attribute):
            out.append(("a:" + n.attr, None))
        elif isinstance(n, ast.Constant):
            out.append(("c:%r" % (n.value,), None))
        elif not isinstance(n, (ast.Load, ast.Store)):
            out.append((type(n).__name__, None))
        for c in ast.iter_child_nodes(n):
            go(c)
    go(node)
    return out


def renames(base, cur):
    """baseline local -> current local, for locals that disappeared."""
    lb, lc = stored(base), stored(cur)
    gone, new = lb - lc, lc - lb
    if not gone or not new:
        return {}
    sb, sc = seqnames(base, lb), seqnames(cur, lc)
    sm = difflib.SequenceMatcher(None, [x[0] for x in sb], [x[0] for x in sc], autojunk=False)
    votes = {}
    for a, b, k in sm.get_matching_blocks():
        for t in range(k):
            x, y = sb[a + t][1], sc[b + t][1]
            if x in gone and y in new:
                votes.setdefault(x, {}).setdefault(y, 0)
                votes[x][y] += 1
    out, used = {}, set()
    for x in sorted(votes, key=lambda x: -max(votes[x].values())):
        for y in sorted(votes[x], key=lambda y: -votes[x][y]):
            if y not in used:
                out[x] = y
                used.add(y)
                break
    return out
