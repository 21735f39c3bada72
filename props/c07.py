from hmsym.explore import Stop
from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam, expr as X
from hmsym.expr import E
from props.c18 import Faults

PROP = Prop("C07", bounds=["full slab of each listed class; the freed slot, the word the owner wrote and its place, and the words inspected afterwards are arbitrary",
                           "every other slot of the slab carries recognisable data in its first and last word",
                           "histories of up to 5 (quick) or 7 (thorough) operations; every freed small block is inspected at the end of the call",
                           "one free with the purge, the remapping or every memory system call refused (ENOMEM)"],
            assumptions=[])


def setup(c):
    hm = c.hm
    cls = c.params["cls"]
    ps = fam.refill_setup(c)
    us = class_usable(hm, cls)
    last = ((us - 1) // 8) * 8
    size = hm.size_of(cls)
    c.params.setdefault("last", last)
    for j, p in enumerate(ps):
        c.wr(p, 0xc0de000000000000 + 2 * j, 8)
        if last and us >= last + 8:
            c.wr(p + last, 0xc0de000000000001 + 2 * j, 8)
    can = [c.raw(p + us) for p in ps] if hm.canary else None
    return dict(ps=ps, last=last, can=can)


def scrub(c):
    P = c.params
    hm = c.hm
    st = P["st"]
    cls = P["cls"]
    ps, last = st["ps"], st["last"]
    size, n, us = hm.size_of(cls), hm.slots[cls], class_usable(hm, cls)
    i, p = fam.symbolic_slot(c, ps, size, n, 8)
    o = X.shl(64, c.size("o", 0, us // 8 - 1), 3)
    c.wr(X.add(64, p, o), c.var("v", 64), 8)
    c.info.update(slot=i, off=o)
    hows = P["hows"]
    how = hows[c.pick("how", len(hows))]
    c.info["how"] = how
    lo, hi = class_range(hm, cls)
    if P.get("refuse"):
        # the operating system refuses memory system calls while the block is freed
        f = Faults(c)
        nm = (("madvise",), ("mmap_fixed",), ("madvise", "mmap_fixed", "mmap", "mprotect", "munmap"))[c.pick("refused", 3)]
        f.arm(lambda i, name, args: 12 if name in nm else 0)
        c.info["refused"] = nm
    if how == "h_free":
        c.call("h_free", p)
    elif how == "h_free_sized":
        c.call("h_free_sized", p, hi)
    elif how == "h_free_aligned_sized":
        c.call("h_free_aligned_sized", p, 16, hi)
    else:
        r = c.call("h_realloc", p, how)
        if P.get("refuse") and r == 0:
            raise Stop    # nothing was freed
    if P.get("refuse"):
        f.off()
    h = Heap(c)
    if P["what"] == "self":
        # arbitrary word of the freed block (when it is still accessible)
        if hm.slots[cls] == 1 and not isinstance(p, E) and not (c.M.prot(p >> 12) & 1):
            c.reach("end")
            return
        h.check_zero(Block(p=p, usable=us), msg="freed block is not zero")
    else:
        # arbitrary other slot
        if n > 1:
            j = c.size("other", 0, n - 1)
            c.assume(X.ne(64, j, i))
            q = X.add(64, ps[0], X.mul(64, j, size))
            what = c.pick("word", 3 if hm.canary else 2)
            if what == 0:
                a, want = q, X.add(64, 0xc0de000000000000, X.shl(64, j, 1))
            elif what == 1:
                if not last or us < last + 8:
                    raise Stop
                a, want = X.add(64, q, last), X.add(64, 0xc0de000000000001, X.shl(64, j, 1))
            else:
                a, want = X.add(64, q, us), st["can"][0]
            a = c.M._aligned(a) if isinstance(a, E) else a
            w = c.M.rdword(a)
            h.peek_on_fail(X.eq(64, w, want), a, w, "freeing a block changed memory outside it")
    c.ok_kernel()
    c.reach("end")


def tasks(tier, seed):
    T = tier == "thorough"
    B = 90 if T else 15
    r = []
    hows = ("h_free", "h_free_sized", "h_free_aligned_sized", 0, 100000)
    cl = (1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 14, 17, 20, 21, 25, 28, 29, 31, 33, 34, 36, 37, 40, 44, 48) if T else (1, 3, 8, 9, 12, 21, 29, 34, 36, 48)
    for cfg in (D, NQ, L, NE):
        for cls in cl:
            if cfg is NE and cls > 36 or cfg in (NQ, NE) and not T and cls not in (1, 9, 36):
                continue
            P = dict(cls=cls, hows=hows)
            if cls < 36 and (cfg is D or T or cls in (3, 9)):
                r.append(Task("outside/%s/%d" % (cfg.name, cls), cfg, scrub, dict(P, what="other", hows=("h_free",)), setup=setup, budget=B, reach=["end"]))
            r.append(Task("self/%s/%d" % (cfg.name, cls), cfg, scrub, dict(P, what="self"), setup=setup, budget=B, reach=["end"]))
    for cfg, cl in ((D, (36, 40, 48) if not T else (1, 9, 21, 29, 33, 36, 37, 40, 44, 48)), (NE, (36, 28))):
        for cls in cl:
            r.append(Task("refused/%s/%d" % (cfg.name, cls), cfg, scrub, dict(cls=cls, hows=("h_free", 0), what="self", refuse=1), setup=setup, budget=B, reach=["end"]))
    n = 6 if T else 4
    menu = [("m", 36), ("mm", 33, 3), ("m", 5), ("f0",), ("f1",), ("fa",), ("r", 36), ("r", ("L", 1)), ("r", 5), ("a", 64, 100)]
    for cfg in (NE, NEQ):
        r.append(Task("history/" + cfg.name, cfg, fam.hist, dict(classes=[], steps=n, checks=(), menu=menu, dirty=1, after=scrubbed), budget=B * 2, reach=["end"]))
    return r


def scrubbed(c, h, o):
    """every block freed by the last step that is still accessible is zero; live blocks keep their marks"""
    done = h.__dict__.setdefault("scrub_seen", 0)
    for b in h.held[done:]:
        if b.cls and not isinstance(b.p, E) and c.M.prot(b.p >> 12) & 1:
            h.check_zero(b, msg="freed block is not zero")
    h.scrub_seen = len(h.held)
    h.verify_all()
