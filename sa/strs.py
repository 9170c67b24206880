"""Abstract strings: sequences of literal text, formatted numbers and input parts."""
from __future__ import annotations

import re

from . import lang
from .dom import INF, L, Lin, add, atom, mk_fd, mk_mod, scale, single_atom, sub
from .lang import ANY, ASCII, DIGITS, Item, Shape
from .vals import *

BIG = lang.INF


# ------------------------------------------------------------------ basics
def flat(I, s):
    """list of pieces, with what is known about input parts substituted"""
    if isinstance(s, str):
        return [s] if s else []
    out = []

    def rec(ps):
        for p in ps:
            if isinstance(p, str):
                if p:
                    if out and isinstance(out[-1], str):
                        out[-1] += p
                    else:
                        out.append(p)
            elif isinstance(p, Rest) and p.id in I.p.strmap:
                rec(I.p.strmap[p.id])
            elif isinstance(p, Ch) and p.id in I.p.chmap:
                rec(I.p.chmap[p.id])
            elif isinstance(p, Ch) and p.lo == p.hi and len(p.set) == 1 and len(next(iter(p.set))) == 1:
                rec([next(iter(p.set)) * p.lo])
            elif isinstance(p, Dec):
                l = I.p.F.norm(p.lin)
                if l.const:
                    rec([str(l.c).zfill(p.width)])
                else:
                    out.append(Dec(l, p.width))
            elif isinstance(p, RS):
                q = p.piece
                l = I.p.F.norm(q.lin)
                if l.const:
                    rec([str(l.c).zfill(q.width).rstrip("0")])
                else:
                    out.append(RS(Dec(l, q.width)))
            elif isinstance(p, LJ):
                inner = flat(I, StrV(p.p))
                if all(isinstance(x, str) for x in inner):
                    rec(["".join(inner).ljust(p.width, p.fill)])
                else:
                    out.append(LJ(inner, p.width, p.fill))
            else:
                out.append(p)

    rec(s.p)
    return out


def mk(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return StrV(out)


def concat(I, parts):
    out = []
    for x in parts:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, StrV):
            out.extend(x.p)
        elif isinstance(x, Unk):
            out.append(Opq(x.why))
        else:
            raise Unsupported(f"concat {x!r}")
    return mk(out)


def const(I, s):
    if isinstance(s, str):
        return s
    if isinstance(s, StrV):
        f = flat(I, s)
        if not f:
            return ""
        if len(f) == 1 and isinstance(f[0], str):
            return f[0]
    return None


def len_atom(id, lo, hi):
    return L(atom("len", id, lo=lo, hi=INF if hi >= BIG else hi))


def piece_len(I, p):
    if isinstance(p, str):
        return L(len(p))
    if isinstance(p, Dec):
        lo, hi = I.p.F.bounds(p.lin, deep=True)
        if hi < 10 ** p.width:
            return L(p.width)
        return L(atom("ndig", p.lin, p.width, lo=max(1, p.width), hi=INF if hi == INF else max(p.width, len(str(int(hi))))))
    if isinstance(p, Ch):
        if p.lo == p.hi:
            return L(p.lo)
        return len_atom(p.id, p.lo, p.hi)
    if isinstance(p, Rest):
        return len_atom(p.id, 0, BIG)
    if isinstance(p, RS):
        return L(atom("rslen", p.piece.lin, p.piece.width, lo=1, hi=p.piece.width))
    if isinstance(p, LJ):
        inner = str_len_pieces(I, p.p)
        lo, hi = I.p.F.bounds(inner)
        if hi <= p.width:
            return L(p.width)
        raise Unsupported("len of ljust")
    if isinstance(p, Key):
        return len_atom(f"key:{p.zid}", 1, 255)
    raise Unsupported(f"length of {p!r}")


def str_len_pieces(I, ps):
    l = Lin(0)
    for p in ps:
        l = add(l, piece_len(I, p))
    return l


def str_len(I, s):
    if isinstance(s, str):
        return len(s)
    l = I.p.F.norm(str_len_pieces(I, flat(I, s)))
    return l.c if l.const else l


def truth(I, s):
    l = str_len(I, s)
    if isinstance(l, int):
        return l > 0
    if I.truth(BV("eq", l)):
        for p in flat(I, s):
            refine_piece(I, p, [])
        return False
    return True


# ------------------------------------------------------------------ refinement
def refine_piece(I, p, new):
    """record that input part p is exactly the pieces `new`"""
    from .dom import Infeasible
    if isinstance(p, Rest):
        old = len_atom(p.id, 0, BIG)
        I.p.strmap[p.id] = list(new)
    elif isinstance(p, Ch):
        old = L(p.lo) if p.lo == p.hi else len_atom(p.id, p.lo, p.hi)
        I.p.chmap[p.id] = list(new)
    elif isinstance(p, str):
        if p:
            raise Infeasible
        return
    else:
        raise Unsupported("refine")
    I.assume(BV("eq", sub(old, str_len_pieces(I, flat(I, StrV(new))))))
    for f in I.p.strfacts.pop(p.id, []):
        f(new)
    for cond in getattr(I.p, "strconds", ()):
        possible(I, cond)


_POSSIBLE: dict = {}


def possible(I, cond):
    """a recorded condition on a text must remain possible"""
    from .dom import Infeasible
    ps, B, value = cond
    items = items_of(I, flat(I, StrV(ps)))
    key = (tuple((i.set, i.lo, i.hi) for i in items), B, value)
    if key not in _POSSIBLE:
        a, b = lang.nfa_of_items([items]), lang.nfa_of_items(B)
        _POSSIBLE[key] = (lang.intersects(a, b) if value else lang.included(a, b)) is not None
    if not _POSSIBLE[key]:
        raise Infeasible


def learn(I, ps, B, value):
    """record that the text `ps` is (not) in the language of the item lists B"""
    cond = (list(ps), tuple(tuple(x) for x in B), value)
    I.p.__dict__.setdefault("strconds", []).append(cond)
    possible(I, cond)
    return value


def add_fact(I, p, f):
    I.p.strfacts.setdefault(p.id, []).append(f)


_n = [0]


def fresh(I, base):
    I.p.nstr = getattr(I.p, "nstr", 0) + 1
    return f"{base}#{I.p.nstr}"


def narrow(I, p, sset):
    """Ch piece restricted to a charset"""
    from .dom import Infeasible
    sset = frozenset(sset) & p.set
    if not sset and p.lo > 0:
        raise Infeasible
    if sset == p.set:
        return p
    if p.lo == p.hi == 1 and len(sset) == 1 and len(next(iter(sset))) == 1:
        refine_piece(I, p, [next(iter(sset))])
        return next(iter(sset))
    q = Ch(p.id + "'", sset, p.lo, p.hi)
    link = ("int", p.id), ("int", q.id)
    refine_piece(I, p, [q])
    # keep the numeric value number of the part
    I.p.chalias = getattr(I.p, "chalias", {})
    I.p.chalias[q.id] = I.p.chalias.get(p.id, p.id)
    return q


def fix_len(I, p):
    """the part p with its certain length (forks on it), as a list of pieces"""
    from .dom import Atom
    ln = I.p.F.norm(piece_len(I, p))
    for k in range(p.lo, p.hi + 1):
        if ln.const and ln.c != k or not ln.const and k < p.hi and not I.truth(BV("eq", sub(ln, k))):
            continue
        if k == 0:
            refine_piece(I, p, [])
            return []
        q = Ch(f"{p.id}={k}", p.set, k, k)
        base = base_id(I, p.id)
        refine_piece(I, p, [q])
        if q.set <= DIGITS:
            v = None
            for w in [None] + list(range(1, 13)):
                old = Atom.table.get(("int", (base,)) if w is None else ("frac", (base, w)))
                if old is not None and (w is None or w >= k):
                    v = v if v is not None else to_int(I, StrV([q]))
                    I.assume(BV("eq", sub(L(old), scale(L(v), 10 ** (w - k) if w else 1))))
        return [q]
    from .dom import Infeasible
    raise Infeasible


def fix_rs(I, p):
    """the digits without trailing zeros, with their certain number (forks)"""
    d = p.piece
    ln = I.p.F.norm(piece_len(I, p))
    for n in range(1, d.width + 1):
        t = 10 ** (d.width - n)
        zeros = BV("eq", mk_mod(I.p.F, d.lin, t))
        if ln.const and ln.c == n:
            # the digits after the last one that is not zero
            I.assume(zeros)
            I.assume(BV("ne", mk_mod(I.p.F, d.lin, 10 * t)))
        elif ln.const or n < d.width and not I.truth(zeros):
            continue
        else:
            I.assume(BV("eq", sub(ln, n)))
        return [Dec(mk_fd(I.p.F, d.lin, t), n)]
    from .dom import Infeasible
    raise Infeasible


def base_id(I, id):
    return getattr(I.p, "chalias", {}).get(id, id)


# ------------------------------------------------------------------ positions
def split_at(I, ps, n, from_end=False):
    """split pieces after n characters (n const int); may split pieces; None if unknown"""
    ps = list(ps)
    if from_end:
        ps = ps[::-1]
    head = []
    left = n
    while left > 0 and ps:
        p = ps[0]
        if isinstance(p, str):
            if len(p) <= left:
                head.append(p)
                left -= len(p)
                ps.pop(0)
            else:
                if from_end:
                    head.append(p[-left:])
                    ps[0] = p[:-left]
                else:
                    head.append(p[:left])
                    ps[0] = p[left:]
                left = 0
            continue
        ln = I.p.F.norm(piece_len(I, p))
        if ln.const:
            k = ln.c
            if k <= left:
                head.append(p)
                left -= k
                ps.pop(0)
                continue
            if isinstance(p, (Ch, Rest)):
                st = p.set if isinstance(p, Ch) else ANY
                a = Ch(fresh(I, p.id), st, k - left if from_end else left, k - left if from_end else left)
                b = Ch(fresh(I, p.id), st, left if from_end else k - left, left if from_end else k - left)
                refine_piece(I, p, [a, b])
                if from_end:
                    head.append(b)
                    ps[0] = a
                else:
                    head.append(a)
                    ps[0] = b
                left = 0
                continue
            if isinstance(p, Dec):
                # digits of a number: split by powers of ten
                t = 10 ** (k - left) if not from_end else 10 ** left
                hi_, lo_ = mk_fd(I.p.F, p.lin, t), mk_mod(I.p.F, p.lin, t)
                a = Dec(hi_, k - left if from_end else left)
                b = Dec(lo_, left if from_end else k - left)
                if from_end:
                    head.append(b)
                    ps[0] = a
                else:
                    head.append(a)
                    ps[0] = b
                left = 0
                continue
            raise Unsupported("split in piece")
        if isinstance(p, Rest):
            if I.truth(BV("ge", sub(ln, left))):
                a = Ch(fresh(I, p.id), ANY, left, left)
                b = Rest(fresh(I, p.id))
                refine_piece(I, p, [b, a] if from_end else [a, b])
                head.append(a)
                ps[0] = b
                left = 0
            else:
                # shorter than asked: the whole rest (if nothing follows)
                if len(ps) > 1:
                    raise Unsupported("split after rest")
                head.append(p)
                ps.pop(0)
                left = 0
            continue
        if isinstance(p, Ch) and p.hi - p.lo <= 12:
            ps[:1] = fix_len(I, p)
            continue
        if isinstance(p, RS):
            ps[:1] = fix_rs(I, p)
            continue
        raise Unsupported(f"position inside {p!r}")
    if from_end:
        return ps[::-1], head[::-1]
    return head, ps


def getitem(I, s, k):
    ps = flat(I, s)
    if isinstance(k, slice):
        if k.step is not None:
            raise Unsupported("string step")
        a, b = k.start, k.stop
        c = const(I, s)
        norm = lambda x: x.c if isinstance(x, Lin) and I.p.F.norm(x).const and not x.t else x
        a, b = norm(a), norm(b)
        if c is not None and all(x is None or isinstance(x, int) for x in (a, b)):
            return c[a:b]
        # end first
        if b is not None:
            if isinstance(b, Lin):
                h, t = split_lin(I, ps, b)
                ps = h
            elif b >= 0:
                ps, _ = split_at(I, ps, b)
            else:
                if isinstance(a, int) and a > 0:
                    pass
                ps, _ = split_at(I, ps, -b, from_end=True)
        if a is not None:
            if isinstance(a, Lin):
                _, ps = split_lin(I, ps, a)
            elif a >= 0:
                _, ps = split_at(I, ps, a)
            else:
                if b is not None and not (isinstance(b, int) and b >= 0):
                    raise Unsupported("negative slice")
                if b is not None:
                    raise Unsupported("mixed slice")
                _, ps = split_at(I, ps, -a, from_end=True)
        return mk(ps)
    i = I.const_int(k)
    ln = L(str_len(I, s))
    need = i + 1 if i >= 0 else -i
    if not I.truth(BV("ge", sub(ln, need))):
        I.raise_("IndexError", "string index out of range")
    ps = flat(I, s)
    if i >= 0:
        _, t = split_at(I, ps, i)
        h, _ = split_at(I, t, 1)
        return mk(h)
    h, t = split_at(I, ps, -i, from_end=True)
    x, _ = split_at(I, t, 1)
    return mk(x)


def split_lin(I, ps, n):
    """split after n characters where n is a symbolic length equal to a prefix's length"""
    n = I.p.F.norm(n)
    acc = Lin(0)
    for i in range(len(ps) + 1):
        d = I.p.F.norm(sub(n, acc))
        if d.const:
            h, t = split_at(I, ps[i:], d.c)
            return ps[:i] + h, t
        if i < len(ps):
            acc = add(acc, piece_len(I, ps[i]))
    raise Unsupported(f"slice at {n!r}")


def chars(I, s):
    out = []
    for p in flat(I, s):
        if isinstance(p, str):
            out += list(p)
        elif isinstance(p, Ch) and p.lo == p.hi:
            rest = [p]
            while rest:
                h, rest = split_at(I, rest, 1)
                out.append(mk(h))
        else:
            raise Unsupported("iteration over symbolic string")
    return out


# ------------------------------------------------------------------ comparison
def items_of(I, ps):
    """items (language) of pieces; over-approximation"""
    out = []
    for p in ps:
        if isinstance(p, str):
            out += [Item({c if ord(c) < 128 else "uo"}) for c in p]
        elif isinstance(p, Ch):
            out.append(Item(p.set, p.lo, p.hi))
        elif isinstance(p, Rest):
            out.append(Item(ANY, 0, BIG))
        elif isinstance(p, Dec):
            lo, hi = I.p.F.bounds(p.lin, deep=True)
            if hi < 10 ** p.width and lo >= 0:
                # fixed width: the bounds limit the first digit
                a, b = int(lo) // 10 ** (p.width - 1), int(hi) // 10 ** (p.width - 1)
                out.append(Item({str(d) for d in range(a, b + 1)}))
                if p.width > 1:
                    out.append(Item(DIGITS, p.width - 1, p.width - 1))
                continue
            w = max(p.width, len(str(int(hi))) if hi != INF else BIG)
            out.append(Item(DIGITS, max(1, p.width), w))
        elif isinstance(p, RS):
            out.append(Item(DIGITS, 0, p.piece.width - 1))
            out.append(Item(DIGITS - {"0"}, 1, 1))
        elif isinstance(p, LJ):
            out.append(Item(DIGITS, p.width, p.width))
        elif isinstance(p, Key):
            out.append(Item(frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/_+-"), 1, 255))
        else:
            out.append(Item(ANY, 0, BIG))
    return out


def eq(I, a, b):
    """bool or fork; equality of two strings"""
    ca, cb = const(I, a), const(I, b)
    if ca is not None and cb is not None:
        return ca == cb
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    fa = flat(I, a)
    if cb is None:
        fb = flat(I, b)
        if len(fa) == len(fb) and all(x == y for x, y in zip(fa, fb)):
            return True
        if len(fa) == len(fb) == 1 and isinstance(fa[0], Key) and isinstance(fb[0], Key):
            return fa[0].zid == fb[0].zid
        return BP(("streq", repr(fa), repr(fb)))
    A = lang.nfa_of_items([items_of(I, fa)])
    B = lang.nfa_of_items([[Item({c if ord(c) < 128 else "uo"}) for c in cb]])
    if lang.intersects(A, B) is None:
        return False
    # single character part
    if len(fa) == 1 and isinstance(fa[0], Ch) and fa[0].lo == fa[0].hi == 1 and len(cb) == 1:
        p = fa[0]
        if I.p.choose(2, f"{p!r}=={cb!r}") == 0:
            narrow(I, p, {cb})
            return True
        narrow(I, p, p.set - {cb})
        return False
    ne = I.p.__dict__.setdefault("strne", set())
    if len(fa) == 1 and isinstance(fa[0], (Rest, Ch)):
        p = fa[0]
        if (p.id, cb) in ne:
            return False
        if I.p.choose(2, f"{p!r}=={cb!r}") == 0:
            refine_piece(I, p, [cb] if cb else [])
            return True
        ne.add((p.id, cb))
        from .dom import Infeasible

        def check(new, cb=cb):
            c = const(I, StrV(new))
            if c == cb:
                raise Infeasible
        add_fact(I, p, check)
        return learn(I, fa, [[Item({c if ord(c) < 128 else "uo"}) for c in cb]], False)
    if any(isinstance(x, (Dec, RS, Key, Opq, LJ)) for x in fa):
        return BP(("streq", repr(fa), cb))
    if (repr(fa), cb) in ne:
        return False
    # several input parts: equal only if each is
    if I.p.choose(2, f"{fa!r}=={cb!r}") == 0:
        unify(I, fa, [Item({c}) for c in cb], None)
        return True
    ne.add((repr(fa), cb))
    return learn(I, fa, [[Item({c if ord(c) < 128 else "uo"}) for c in cb]], False)


def startswith(I, s, prefix, end=False):
    if isinstance(prefix, tuple):
        return any(I.truth(startswith(I, s, x, end)) for x in prefix)
    pc = const(I, prefix)
    if pc is None:
        raise Unsupported("startswith symbolic")
    c = const(I, s)
    if c is not None:
        return c.endswith(pc) if end else c.startswith(pc)
    if not pc:
        return True
    ps = flat(I, s)
    n = len(pc)
    edge = ps[-1] if end else ps[0]
    # language tests first
    A = lang.nfa_of_items([items_of(I, ps)])
    lit = [Item({ch}) for ch in pc]
    BI = [[Item(ANY, 0, BIG)] + lit] if end else [lit + [Item(ANY, 0, BIG)]]
    B = lang.nfa_of_items(BI)
    if lang.intersects(A, B) is None:
        return False
    if lang.included(A, B) is None:
        return True
    if isinstance(edge, Rest):
        key = (edge.id, pc, end)
        no = I.p.__dict__.setdefault("strnsw", set())
        if key in no:
            return False
        if I.p.choose(2, f"{'ends' if end else 'starts'}with {pc!r}") == 0:
            r = Rest(fresh(I, edge.id))
            refine_piece(I, edge, [r, pc] if end else [pc, r])
            return True
        no.add(key)
        from .dom import Infeasible

        def check(new):
            # the negative fact must remain possible
            f = flat(I, StrV(new))
            A = lang.nfa_of_items([items_of(I, f)])
            if lang.included(A, B) is None:
                raise Infeasible
            for p in f:
                if isinstance(p, (Rest, Ch)) and p is (f[-1] if end else f[0]):
                    add_fact(I, p, lambda new2, f=f, p=p: check([y for x in f for y in (new2 if x is p else [x])]))
        add_fact(I, edge, check)
        return learn(I, ps, BI, False)
    # character-wise on the fixed edge
    if I.p.choose(2, f"{'ends' if end else 'starts'}with {pc!r}") == 0:
        if end:
            _, t = split_at(I, ps, n, from_end=True)
        else:
            t, _ = split_at(I, ps, n)
        unify(I, t, lit, None)
        return True
    # negative: narrow if exactly one character is undetermined
    if end:
        _, t = split_at(I, ps, n, from_end=True)
    else:
        t, _ = split_at(I, ps, n)
    und = []
    i = 0
    for p in t:
        if isinstance(p, str):
            i += len(p)
        elif isinstance(p, Ch):
            for _ in range(p.lo):
                if p.set != {pc[i]}:
                    und.append((p, pc[i]))
                i += 1
    if len(und) == 1 and und[0][0].lo == und[0][0].hi == 1:
        narrow(I, und[0][0], und[0][0].set - {und[0][1]})
        return False
    return learn(I, ps, BI, False)


def contains(I, s, x):
    c, cx = const(I, s), const(I, x)
    if c is not None and cx is not None:
        return cx in c
    if c is not None:
        # item is a single input character?
        fx = flat(I, x)
        if len(fx) == 1 and isinstance(fx[0], Ch) and fx[0].lo == fx[0].hi == 1:
            p = fx[0]
            inside = p.set & set(c)
            if not inside:
                return False
            if inside == p.set:
                return True
            if I.p.choose(2, f"{p!r} in {c!r}") == 0:
                narrow(I, p, inside)
                return True
            narrow(I, p, p.set - inside)
            return False
        return BP(("strin", repr(fx), c))
    if cx is not None:
        ps = flat(I, s)
        A = lang.nfa_of_items([items_of(I, ps)])
        lit = [Item({ch if ord(ch) < 128 else "uo"}) for ch in cx]
        BI = [[Item(ANY, 0, BIG)] + lit + [Item(ANY, 0, BIG)]]
        B = lang.nfa_of_items(BI)
        if lang.intersects(A, B) is None:
            return False
        if lang.included(A, B) is None:
            return True
        if any(isinstance(p, Opq) for p in ps):
            return BP(("strhas", repr(ps), cx))
        if len(ps) == 1 and isinstance(ps[0], Ch) and ps[0].lo == ps[0].hi == 1 and len(cx) == 1:
            return eq(I, s, cx)
        seen = I.p.__dict__.setdefault("strhas", {})
        key = (repr(ps), cx)
        if key not in seen:
            seen[key] = learn(I, ps, BI, I.p.choose(2, f"{cx!r} in {ps!r}") == 0)
        return seen[key]
    return BP(("strhas", repr(flat(I, s)), repr(flat(I, x))))


# ------------------------------------------------------------------ unify with a shape
class Mismatch(Exception):
    pass


def unify(I, ps, items, base, commit=True):
    """make the string (pieces ps) match the sequence of items exactly.

    Returns the list of pieces per item index (list of lists).  Raises Mismatch.
    `items` may end in an unbounded tail only if ps ends in one too.
    """
    ps = list(ps)
    n = len(items)
    out = [[] for _ in range(n)]
    plan = []      # (piece, new pieces)
    i = 0
    j = 0
    need = None    # remaining count of current item
    cur = [(it.set, it.lo, it.hi) for it in items]

    def newch(sset, lo, hi):
        if lo == hi and len(sset) == 1 and len(next(iter(sset))) == 1:
            return next(iter(sset)) * lo
        return Ch(fresh(I, base or "s"), sset, lo, hi)

    while j < len(ps):
        p = ps[j]
        if isinstance(p, str):
            for c in p:
                cc = c if ord(c) < 128 else "uo"
                while True:
                    if i >= n:
                        raise Mismatch
                    sset, lo, hi = cur[i]
                    if hi == 0:
                        i += 1
                        continue
                    if cc in sset:
                        # ambiguity: a variable item followed by one that also accepts c
                        out[i].append(c)
                        cur[i] = (sset, max(0, lo - 1), hi - 1 if hi < BIG else hi)
                        break
                    if lo > 0:
                        raise Mismatch
                    i += 1
            j += 1
            continue
        if isinstance(p, Ch):
            if p.lo == p.hi:
                left = p.lo
                new = []
                while left > 0:
                    if i >= n:
                        raise Mismatch
                    sset, lo, hi = cur[i]
                    if hi == 0:
                        i += 1
                        continue
                    x = sset & p.set
                    if not x:
                        if lo > 0:
                            raise Mismatch
                        i += 1
                        continue
                    if lo == hi:
                        k = min(left, lo)
                    elif i == n - 1 or left <= lo:
                        k = min(left, hi)
                    else:
                        raise Unsupported("ambiguous match")
                    q = p if (x == p.set and k == p.lo) else newch(x, k, k)
                    new.append(q)
                    out[i].append(q)
                    cur[i] = (sset, max(0, lo - k), hi - k if hi < BIG else hi)
                    left -= k
                if not (len(new) == 1 and new[0] is p):
                    plan.append((p, new))
                j += 1
                continue
            # variable length part against one item
            while i < n and cur[i][2] == 0:
                i += 1
            if i >= n:
                if p.lo > 0:
                    raise Mismatch
                plan.append((p, []))
                j += 1
                continue
            sset, lo, hi = cur[i]
            x = sset & p.set
            if not x:
                if lo > 0 or p.lo > 0:
                    raise Mismatch
                raise Unsupported("ambiguous match")
            if sset == ANY and lo == 0 and hi >= BIG:
                out[i].append(p)
                j += 1
                continue
            nlo, nhi = max(p.lo, lo), min(p.hi, hi)
            if nlo > nhi:
                raise Mismatch
            q = p if (x == p.set and (nlo, nhi) == (p.lo, p.hi)) else newch(x, nlo, nhi)
            out[i].append(q)
            if q is not p:
                plan.append((p, [q]))
            i += 1
            j += 1
            continue
        if isinstance(p, Rest):
            if j != len(ps) - 1:
                # what follows has a certain length: it belongs to the last items
                T = I.p.F.norm(str_len_pieces(I, ps[j + 1:]))
                e = n
                t = T.c if T.const else -1
                least = sum(x[1] for x in cur[i:])
                tail_fixed, q = 0, n
                while q > i and cur[q - 1][1] == cur[q - 1][2]:
                    q -= 1
                    tail_fixed += cur[q][1]
                loose = [x for x in range(i, n) if cur[x][1] != cur[x][2]]
                if tail_fixed < t and len(loose) == 1 and cur[loose[0]][2] - cur[loose[0]][1] <= 12:
                    # the one item of variable length: one case for each
                    x = loose[0]
                    sset, lo, hi = cur[x]
                    lo = max(lo, t - (least - lo))
                    if lo > hi:
                        raise Mismatch
                    k = lo + (I.p.choose(hi - lo + 1, "length") if hi > lo else 0)
                    cur[x] = (sset, k, k)
                elif tail_fixed < t and not loose:
                    raise Mismatch
                while e > i and t > 0 and cur[e - 1][1] == cur[e - 1][2]:
                    e -= 1
                    t -= cur[e][1]
                if t < 0 and e < n:
                    # within an item of certain length
                    k = cur[e][1]
                    if set(cur[e][0]) and e >= i:
                        a, b = (cur[e][0], -t, -t), (cur[e][0], k + t, k + t)
                        sub_items = [Item(*b)] + [Item(*x) for x in cur[e + 1:]]
                        got = unify(I, ps[j + 1:], sub_items, base, commit=False)
                        later, got2 = got
                        for x, g in zip(range(e, n), later):
                            out[x] = g
                        plan += got2
                        rest_items = list(cur[:e]) + [a]
                        own_last = out[e]
                        new = []
                        for x in range(i, e + 1):
                            sset, lo, hi = rest_items[x]
                            if hi > 0:
                                q = newch(sset, lo, hi) if not (sset == ANY and lo == 0 and hi >= BIG) else Rest(fresh(I, base or "s"))
                                new.append(q)
                                if x == e:
                                    out[e] = [q] + own_last
                                else:
                                    out[x].append(q)
                        plan.append((p, new))
                        i = n
                        break
                if t != 0:
                    raise Unsupported("match with inner rest")
                later, more = unify(I, ps[j + 1:], [Item(*x) for x in cur[e:]], base, commit=False)
                for x, g in zip(range(e, n), later):
                    out[x] = g
                plan += more
                cur[e:] = [(x[0], 0, 0) for x in cur[e:]]
                ps = ps[:j + 1]
            new = []
            while i < n:
                sset, lo, hi = cur[i]
                if hi > 0:
                    if sset == ANY and lo == 0 and hi >= BIG:
                        q = Rest(fresh(I, base or "s"))
                    else:
                        q = newch(sset, lo, hi)
                    new.append(q)
                    out[i].append(q)
                i += 1
            plan.append((p, new))
            j += 1
            continue
        if isinstance(p, (Dec, RS, LJ)):
            # digits: the item must accept any digit run of that length
            while i < n and cur[i][2] == 0:
                i += 1
            if i >= n:
                raise Mismatch
            sset, lo, hi = cur[i]
            ln = I.p.F.bounds(piece_len(I, p))
            if not DIGITS <= sset:
                if not (DIGITS & sset):
                    raise Mismatch
                if ln[0] == ln[1] > 1 and isinstance(p, Dec) and i + 1 < n:
                    a, b = split_at(I, [p], 1)
                    ps[j:j + 1] = a + b
                    continue
                if ln == (1, 1) and isinstance(p, Dec):
                    b0, b1 = I.p.F.bounds(p.lin, deep=True)
                    ok = {str(d) for d in range(int(b0), int(b1) + 1)} & sset
                    if not ok:
                        if lo > 0:
                            raise Mismatch
                        i += 1
                        continue
                    a, b = int(min(ok)), int(max(ok))
                    if len(ok) == b - a + 1 and lo == hi:
                        # one digit of a number: in the set or not
                        if not (I.truth(BV("ge", sub(p.lin, a))) and I.truth(BV("ge", sub(b, p.lin)))):
                            raise Mismatch
                        out[i].append(p)
                        cur[i] = (sset, max(0, lo - 1), hi - 1)
                        j += 1
                        continue
                    if {str(d) for d in range(int(b0), int(b1) + 1)} <= sset:
                        out[i].append(p)
                        cur[i] = (sset, max(0, lo - 1), hi - 1)
                        j += 1
                        continue
                raise Unsupported("match of formatted number")
            if ln[0] == ln[1]:
                k = ln[0]
                if k > hi:
                    if isinstance(p, Dec) and lo == hi:
                        a, b = split_at(I, [p], hi)
                        ps[j:j + 1] = a + b
                        continue
                    raise Mismatch
                out[i].append(p)
                cur[i] = (sset, max(0, lo - k), hi - k if hi < BIG else hi)
                j += 1
                continue
            if ln[0] >= lo and ln[1] <= hi:
                out[i].append(p)
                cur[i] = (sset, 0, hi - ln[1] if hi < BIG else hi)
                j += 1
                continue
            raise Unsupported("match of formatted number")
        if isinstance(p, Key):
            while i < n and cur[i][2] == 0:
                i += 1
            if i >= n:
                raise Mismatch
            out[i].append(p)
            cur[i] = (cur[i][0], 0, max(0, cur[i][2] - 255) if cur[i][2] < BIG else cur[i][2])
            j += 1
            continue
        raise Unsupported(f"match on {p!r}")
    for k in range(i, n):
        if cur[k][1] > 0:
            raise Mismatch
    if not commit:
        return out, plan
    for p, new in plan:
        refine_piece(I, p, new)
    return out


_MATCHES: dict = {}


def regex_match(I, rx, s, full):
    if isinstance(s, Unk):
        I.taint("match on unknown")
        return Unk("match")
    if not isinstance(s, (str, StrV)):
        I.raise_("TypeError", "expected string or bytes-like object")
    alts, ngroups, names = lang.shapes(rx.pattern, rx.flags)
    c = const(I, s)
    ps = flat(I, s)
    tail = [] if full else [Item(ANY, 0, BIG)]
    its_of = [list(sh.items) + ([] if sh.anchored_end else tail) for sh in alts]
    ia = items_of(I, ps)
    key = (rx.pattern, rx.flags, full, tuple((it.set, it.lo, it.hi) for it in ia))
    r = _MATCHES.get(key)
    if r is None:
        A = lang.nfa_of_items([ia])
        # which alternatives are possible at all
        ks = [i for i, its in enumerate(its_of) if lang.intersects(A, lang.nfa_of_items([its])) is not None]
        allB = lang.nfa_of_items([its_of[i] for i in ks]) if ks else None
        r = _MATCHES[key] = (ks, bool(ks) and lang.included(A, allB) is None)
    cand = [(alts[i], its_of[i]) for i in r[0]]
    if ps and all(isinstance(p, (str, Dec, RS, Key)) for p in ps):
        # text made of numbers: which alternative matches depends on the numbers only
        for sh, its in cand:
            try:
                parts = unify(I, flat(I, s), its, "lit")
            except Mismatch:
                continue
            return matched(I, rx, sh, parts, ngroups, names, s, full)
        if r[1]:
            raise Unsupported("match")
        return None
    certain = r[1] and not any(isinstance(p, (Rest,)) for p in ps)
    options = len(cand) + (0 if certain else 1)
    if options == 0:
        return None
    k = I.p.choose(options, f"match {rx.pattern[:20]}") if options > 1 else 0
    if k >= len(cand):
        no = I.p.__dict__.setdefault("nomatch", [])
        no.append((rx, ps, full))
        learn(I, ps, its_of, False)
        return None
    sh, its = cand[k]
    base = next((p.id for p in ps if isinstance(p, (Rest, Ch))), "lit").split("#")[0]
    try:
        parts = unify(I, ps, its, base)
    except Mismatch:
        from .dom import Infeasible
        if options == 1:
            raise Unsupported("match")
        raise Infeasible
    return matched(I, rx, sh, parts, ngroups, names, s, full)


def matched(I, rx, sh, parts, ngroups, names, s, full):
    groups = [None] * (ngroups + 1)
    for g, (a, b) in sh.groups.items():
        groups[g] = mk([x for k2 in range(a, b) for x in parts[k2]])
    groups[0] = mk([x for k2 in range(len(sh.items)) for x in parts[k2]])
    I.p.__dict__.setdefault("matched", []).append((rx, full))
    return MatchV(groups, s, names)


# ------------------------------------------------------------------ numbers
def to_int(I, s):
    c = const(I, s)
    if c is not None:
        try:
            return int(c)
        except ValueError:
            I.raise_("ValueError", f"invalid literal for int(): {c!r}")
    ps = flat(I, s)
    if len(ps) == 1 and isinstance(ps[0], LJ):
        p = ps[0]
        if p.fill == "0" and len(p.p) == 1 and isinstance(p.p[0], Ch) and p.p[0].set <= DIGITS | {"ud"}:
            ch = p.p[0]
            if ch.hi > p.width:
                # more characters than the padding: split on the length
                short = I.truth(BV("ge", sub(p.width, piece_len(I, ch))))
                q = Ch(f"{ch.id}{'<' if short else '>'}{p.width}", ch.set, ch.lo if short else max(ch.lo, p.width + 1), min(ch.hi, p.width) if short else ch.hi)
                refine_piece(I, ch, [q])
                I.p.chalias = getattr(I.p, "chalias", {})
                I.p.chalias[q.id] = I.p.chalias.get(ch.id, ch.id)
                if not short:
                    return to_int(I, StrV([q]))
                ch = q
            if ch.hi <= p.width:
                return L(atom("frac", base_id(I, ch.id), p.width, lo=0, hi=10 ** p.width - 1))
        if p.fill == "0" and len(p.p) == 1 and isinstance(p.p[0], RS) and p.p[0].piece.width <= p.width:
            q = p.p[0].piece      # the trailing zeros that were removed come back
            return scale(q.lin, 10 ** (p.width - q.width))
        inner = StrV(p.p)
        n = I.p.F.norm(str_len_pieces(I, p.p)) if p.fill == "0" else None
        if n is not None and n.const and n.c <= p.width:
            v = to_int(I, inner)
            return scale(L(v), 10 ** (p.width - n.c))
        raise Unsupported("int of padded text")
    total = Lin(0)
    sign = 1
    if ps and isinstance(ps[0], str) and ps[0][:1] in "+-":
        sign = -1 if ps[0][0] == "-" else 1
        ps[0] = ps[0][1:]
        ps = [p for p in ps if p != ""]
    if not ps or any(isinstance(p, str) and not all(x.isdigit() or x.isspace() or x in "_+-" for x in p) for p in ps):
        I.raise_("ValueError", "invalid literal")
    for p in ps:
        if isinstance(p, str):
            if not p.isdigit():
                I.raise_("ValueError", "invalid literal")
            total = add(scale(total, 10 ** len(p)), Lin(int(p)))
        elif isinstance(p, Ch):
            if not p.set <= DIGITS | {"ud"}:
                if I.p.choose(2, f"{p!r} digits?") == 1:
                    I.raise_("ValueError", "invalid literal")
                p2 = narrow(I, p, (DIGITS | {"ud"}) & p.set)
                if isinstance(p2, str):
                    total = add(scale(total, 10 ** len(p2)), Lin(int(p2)))
                    continue
                p = p2
            if p.lo == 0:
                if I.truth(BV("eq", len_atom(p.id, p.lo, p.hi))):
                    refine_piece(I, p, [])
                    if len(ps) == 1:
                        I.raise_("ValueError", "invalid literal for int(): ''")
                    continue
            if p.hi > 4300:
                if I.truth(BV("ge", sub(len_atom(p.id, p.lo, p.hi), 4301))):
                    I.raise_("ValueError", "Exceeds the limit for integer string conversion")
            digs = sorted(x for x in p.set if x in DIGITS) or ["0"]
            dlo, dhi = (digs[0], digs[-1]) if "ud" not in p.set else ("0", "9")
            if p.lo == p.hi:
                v = L(atom("int", base_id(I, p.id), lo=int(dlo * p.lo), hi=int(dhi * p.lo)))
                I.assume(BV("ge", sub(v, int(dlo * p.lo))))
                I.assume(BV("ge", sub(int(dhi * p.lo), v)))
                total = add(scale(total, 10 ** p.lo), v)
            else:
                if len(ps) > 1:
                    if p.hi - p.lo > 12:
                        raise Unsupported("int of variable text")
                    fix_len(I, p)
                    return to_int(I, s)
                v = L(atom("int", base_id(I, p.id), lo=0, hi=INF if p.hi > 300 else 10 ** p.hi - 1))
                total = v
        elif isinstance(p, Dec):
            w = I.p.F.norm(piece_len(I, p))
            if len(ps) == 1:
                total = p.lin
            elif w.const:
                total = add(scale(total, 10 ** w.c), p.lin)
            else:
                raise Unsupported("int of variable number")
        elif isinstance(p, RS):
            i = ps.index(p)
            return scale(L(to_int(I, StrV(ps[:i] + fix_rs(I, p) + ps[i + 1:]))), sign)
        elif isinstance(p, Rest):
            if I.p.choose(2, "int(text)") == 0:
                I.raise_("ValueError", "invalid literal for int()")
            I.taint("int of arbitrary text")
            return Unk("int of text")
        else:
            raise Unsupported(f"int of {p!r}")
    total = scale(total, sign)
    return total.c if total.const else total


def is_ascii(I, s):
    c = const(I, s)
    if c is not None:
        return c.isascii()
    for p in flat(I, s):
        if isinstance(p, str):
            if not p.isascii():
                return False
        elif isinstance(p, Ch):
            if not p.set <= ASCII:
                if I.p.choose(2, f"{p!r} ascii?") == 1:
                    return False
                narrow(I, p, p.set & ASCII)
        elif isinstance(p, Rest):
            facts = I.p.__dict__.setdefault("ascii", {})
            if p.id not in facts:
                facts[p.id] = I.p.choose(2, f"{p!r} ascii?") == 0
                val = facts[p.id]
                if val:
                    def check(new):
                        for q in flat(I, StrV(new)):
                            if isinstance(q, Ch):
                                narrow(I, q, ASCII & q.set)
                            elif isinstance(q, Rest):
                                facts[q.id] = True
                                add_fact(I, q, check)
                    add_fact(I, p, check)
            if not facts[p.id]:
                return False
        elif isinstance(p, Key):
            pass
    return True


def only_digits(I, s, what="isdigit"):
    c = const(I, s)
    if c is not None:
        return getattr(c, what)()
    for p in flat(I, s):
        if isinstance(p, str):
            if not getattr(p, what)():
                return False
        elif isinstance(p, Ch):
            ok = p.set & (DIGITS | {"ud"})
            if not p.set <= ok:
                if I.p.choose(2, f"{p!r} digits?") == 1:
                    return False
                narrow(I, p, ok)
        elif isinstance(p, Rest):
            return BP(("isdigit", p.id))
    return True


def digits(I, p):
    """the number with its certain number of digits (forks), if that is bounded"""
    lo, hi = I.p.F.bounds(p.lin, deep=True)
    if lo < 0 or hi == INF or hi >= 10 ** 40:
        return p
    for w in range(max(1, p.width), 41):
        if hi < 10 ** w or I.truth(BV("ge", sub(10 ** w - 1, p.lin))):
            return Dec(p.lin, w)
    return p


def rstrip(I, s, chs):
    c = const(I, s)
    if c is not None:
        return c.rstrip(chs)
    ps = flat(I, s)
    while ps:
        p = ps[-1]
        if isinstance(p, str):
            q = p.rstrip(chs)
            if q:
                ps[-1] = q
                return mk(ps)
            ps.pop()
            continue
        if isinstance(p, Dec) and chs == "0":
            ln = I.p.F.norm(piece_len(I, p))
            if not ln.const:
                if I.truth(BV("eq", p.lin)):
                    ps[-1] = "0" * max(1, p.width)
                    continue
                ps[-1] = digits(I, p)
                if ps[-1] is p:
                    raise Unsupported("rstrip of number")
                continue
            if I.truth(BV("eq", p.lin)):
                ps.pop()
                continue
            ps[-1] = RS(p)
            return mk(ps)
        if isinstance(p, RS) and chs == "0":
            return mk(ps)
        if isinstance(p, Ch) and not (p.set & set(chs or " ")):
            if p.lo > 0:
                return mk(ps)
        if isinstance(p, Key):
            return mk(ps)
        raise Unsupported(f"rstrip of {p!r}")
    return ""


def ljust(I, s, w, fill):
    c = const(I, s)
    if c is not None:
        return c.ljust(w, fill)
    return mk([LJ(flat(I, s), w, fill)])


def partition(I, s, sep):
    c = const(I, s)
    if c is not None:
        return c.partition(sep)
    ps = flat(I, s)
    for i, p in enumerate(ps):
        if isinstance(p, str):
            k = p.find(sep)
            if k >= 0:
                return (mk(ps[:i] + [p[:k]]), sep, mk([p[k + len(sep):]] + ps[i + 1:]))
        elif isinstance(p, Ch):
            if any(ch in p.set for ch in sep):
                raise Unsupported("partition of symbolic text")
        elif isinstance(p, (Dec, RS)):
            pass
        else:
            raise Unsupported("partition of symbolic text")
    return (s, "", "")


def replace(I, s, old, new, count):
    c = const(I, s)
    if c is not None:
        return c.replace(old, new, count)
    out = []
    left = count if count >= 0 else 10 ** 9
    ps = flat(I, s)
    for p in ps:
        if isinstance(p, str):
            k = p.count(old)
            out.append(p.replace(old, new, left))
            left -= min(k, left)
        elif isinstance(p, (Dec, RS)):
            if any(ch.isdigit() for ch in old):
                raise Unsupported("replace in number")
            out.append(p)
        elif left <= 0:
            out.append(p)
        elif isinstance(p, Ch) and not (set(old) & p.set):
            out.append(p)
        else:
            out.append(Opq(f"{p!r}.replace({old!r},{new!r})"))
    return mk(out)
