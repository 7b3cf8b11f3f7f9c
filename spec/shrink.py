"""Structural shrinking of a specification (and value) against a predicate."""
import copy
from concurrent.futures import ThreadPoolExecutor
from .model import *


def clone(spec): return copy.deepcopy(spec)


def garbage(spec, roots):
    """keep the assignments the roots need"""
    need = set()
    for r in roots: deps(spec, r, need)
    for v in spec.values: deps(spec, v[1], need)
    spec.types = {n: t for n, t in spec.types.items() if n in need}
    spec.params = {n: p for n, p in spec.params.items() if n in need}
    return spec


def nodes(spec):
    """(assignment, path) of every node"""
    out = []
    def go(n, t, path):
        out.append((n, path))
        for i, c in enumerate(children(t)): go(n, c, path + (i,))
    for n, t in spec.types.items(): go(n, t, ())
    return out


def at(spec, n, path):
    t = spec.types[n]
    for i in path: t = children(t)[i]
    return t


def put(spec, n, path, new):
    if not path:
        spec.types[n] = new
        return
    p = at(spec, n, path[:-1])
    if p.k == "seqof": p.elem = new
    else: p.comps[path[-1]].t = new


def steps(spec, roots):
    """simpler specifications, most aggressive first"""
    if len(roots) > 3:
        for q in (4, 2, 1):
            w = max(1, len(roots) // q)
            for a in range(0, len(roots), w):
                rs = roots[a:a + w]
                if len(rs) < len(roots): yield garbage(clone(spec), rs), rs
    for n in list(spec.types):
        if len(roots) > 1 and n in roots:
            s = clone(spec)
            yield garbage(s, [r for r in roots if r != n]), [r for r in roots if r != n]
    if spec.use_acn: yield from acn_steps(spec, roots)
    if spec.consts:
        s = clone(spec); s.consts = {}
        yield s, roots
    for i in range(len(spec.values)):
        s = clone(spec); del s.values[i]
        yield garbage(s, roots), roots
    for n, path in nodes(spec):
        t = at(spec, n, path)
        # a child in the place of its parent
        for c in children(t):
            if path or True:
                s = clone(spec)
                put(s, n, path, copy.deepcopy(c))
                yield garbage(s, roots), roots
        if t.k == "ref":
            s = clone(spec)
            x = copy.deepcopy(spec.types[t.ref])
            x.cons = x.cons + t.cons if x.k != "seqof" or not x.cons or not t.cons else x.cons
            put(s, n, path, x)
            yield garbage(s, roots), roots
        if t.k != "bool" and not t.args:
            s = clone(spec)
            put(s, n, path, T("bool"))
            yield garbage(s, roots), roots
        if t.k in ("seq", "choice") and (len(t.comps) > 1 or t.k == "seq" and t.comps):
            if len(t.comps) > 3:
                for a, b in ((0, len(t.comps) // 2), (len(t.comps) // 2, len(t.comps))):
                    s = clone(spec)
                    del at(s, n, path).comps[a:b]
                    yield garbage(s, roots), roots
            for i in range(len(t.comps)):
                s = clone(spec)
                del at(s, n, path).comps[i]
                yield garbage(s, roots), roots
        for i in range(len(t.cons)):
            if t.k in ("octs", "bits", "str", "seqof") and len(t.cons) == 1 and t.cons[0][0] == "size" and t.cons[0][1] in (("val", 1), ("rng", 0, 2, False, False)): continue
            s = clone(spec)
            x = at(s, n, path)
            del x.cons[i]
            if x.k in ("octs", "bits", "str", "seqof") and bounds(s, x.cons, True)[1] is None: x.cons.append(("size", ("rng", 0, 2, False, False)))
            yield s, roots
            if t.cons[i][0] in ("or", "and", "exc"):
                for z in t.cons[i][1:3]:
                    s = clone(spec)
                    x = at(s, n, path)
                    x.cons[i] = z
                    if x.k in ("octs", "bits", "str", "seqof") and bounds(s, x.cons, True)[1] is None: x.cons.append(("size", ("rng", 0, 2, False, False)))
                    yield s, roots
        if t.k in ("seq", "choice"):
            for i, c in enumerate(t.comps):
                if c.opt is not None:
                    s = clone(spec)
                    at(s, n, path).comps[i].opt = None
                    yield s, roots
        if t.set:
            s = clone(spec)
            at(s, n, path).set = False
            yield s, roots
        if t.k == "enum" and len(t.items) > 1:
            for i in range(min(len(t.items), 6)):
                s = clone(spec)
                x = at(s, n, path)
                x.items = x.items[:i] + x.items[i + 1:]
                yield s, roots
            if any(v is not None for _, v in t.items):
                s = clone(spec)
                x = at(s, n, path)
                x.items = [(q, None) for q, _ in x.items]
                yield s, roots


def drop_field(spec, name):
    """remove an inserted field or parameter and whatever refers to it"""
    hit = lambda p: isinstance(p, str) and p.split(".")[-1] == name
    more = []
    for t in [at(spec, n, path) for n, path in nodes(spec)]:
        for k in ("size", "det"):
            if hit(t.acn.get(k)): del t.acn[k]
        if t.k in ("seq", "choice"):
            t.comps = [c for c in t.comps if not (c.acnonly and c.name == name)]
            for c in t.comps:
                if c.pres is None: continue
                if c.pres[0] == "bool" and hit(c.pres[1]) or c.pres[0] == "exp": c.pres = None
                elif c.pres[0] == "eq": c.pres = None if any(hit(x[0]) for x in c.pres[1]) else c.pres
        if t.k == "ref" and t.args:
            for i in range(len(t.args) - 1, -1, -1):
                if hit(t.args[i]):
                    del t.args[i]
                    if t.ref in spec.params and i < len(spec.params[t.ref]): more.append((t.ref, i))
    for ref, i in sorted(set(more), reverse=True):
        q = spec.params[ref].pop(i)[1]
        if not spec.params[ref]: del spec.params[ref]
        drop_field(spec, q)


def acn_steps(spec, roots):
    for n, path in nodes(spec):
        t = at(spec, n, path)
        if t.k in ("seq", "choice"):
            for c in t.comps:
                if c.acnonly:
                    s = clone(spec)
                    drop_field(s, c.name)
                    yield garbage(s, roots), roots
    for n, path in nodes(spec):
        t = at(spec, n, path)
        for k in list(t.acn):
            if k == "det" or k == "size" and t.acn[k] != "null-terminated" and isinstance(t.acn[k], str) or k in ("term", "values", "unsigned"): continue
            s = clone(spec)
            a = at(s, n, path).acn
            if k in ("enc", "size") and t.k in ("int", "enum", "str", "octs", "bits", "seqof"):
                for x in ("enc", "size", "term", "endian"): a.pop(x, None)
            else: del a[k]
            yield s, roots


def shrink(spec, roots, fails, budget=120, workers=8):
    """fails(spec, roots) -> bool; evaluated in parallel, greedy restart"""
    used = 0
    cur, rs = garbage(clone(spec), roots), list(roots)
    with ThreadPoolExecutor(workers) as ex:
        again = True
        while again and used < budget:
            again = False
            gen = steps(cur, rs)
            while used < budget:
                batch = []
                for s in gen:
                    batch.append(s)
                    if len(batch) == workers: break
                if not batch: break
                used += len(batch)
                def safe(x):
                    try:
                        return fails(x[0], x[1])
                    except Exception:
                        return False
                r = list(ex.map(safe, batch))
                if any(r):
                    cur, rs = batch[r.index(True)]
                    again = True
                    break
    return cur, rs
