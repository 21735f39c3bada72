from hmsym.runner import Prop, Task
from hmsym.scen import *
from hmsym.cfgs import *
from hmsym import fam

PROP = Prop("C01", bounds=["fresh slab: 3 allocations with arbitrary slot randomness and arbitrary request of the class, one free in between", 
                           "full slab: one or two arbitrary holes, then as many arbitrary allocations",
                           "histories of up to 5 (quick) or 7 (thorough) operations, then release of every block",
                           "class list in the task names; quarantine arrays of the configurations named",
                           "lists: every sequence of 4 (quick) or 5 (thorough) steps over 3 slabs of a class (free a block, empty a slab, allocate a block or a slab's worth, trim), then fill, trim, empty and refill (no quarantine, first free slot)"],
            assumptions=["kernel hands out fresh zero mappings that overlap no existing one", "bounded random draws accepted at the first attempt (others: C22)"])
CH = ("overlap", "access", "place", "guard")
H = ("overlap", "access", "place", "guard", "align")


def tasks(tier, seed):
    T = tier == "thorough"
    r = []
    B = 60 if T else 12
    small = (0, 1, 2, 3, 5, 8, 9, 12, 17, 21, 25, 29, 33, 34, 36, 37, 48) if T else (0, 1, 3, 8, 9, 12, 29, 34, 36, 48)
    for cfg in (D, NQ):
        for cls in small:
            if cfg is NQ or cls in (0, 1, 3, 9, 34) or T:
                r.append(Task("fresh/%s/%d" % (cfg.name, cls), cfg, fam.fresh_slab, dict(cls=cls, n=3 if T else 2, enum=8, checks=CH, pickfree=1), budget=B, reach=["end"]))
            if cls < 37:
                r.append(Task("refill/%s/%d" % (cfg.name, cls), cfg, fam.refill, dict(cls=cls, enum=8, checks=CH, holes=2 if T or cls in (12, 8) else 1), setup=fam.refill_setup, budget=B, reach=["end"]))
    for cls in (("L", "c"), ("L", 0), ("L", 6)):
        r.append(Task("large/%s" % cls[1], D, fam.fresh_slab, dict(cls=cls, n=2, enum=64, checks=CH, refree=0, freeall=1), budget=B, reach=["end"]))
    n = 6 if T else 4
    menu = [("m", 36), ("mm", 33, 3), ("m", ("L", 0)), ("m", 1), ("f0",), ("f1",), ("fa",), ("r", 36), ("r", ("L", 1)), ("t",), ("a", 64, 100), ("a", 8192, 20000)]
    for cfg in (NE, NEQ, NEL):
        r.append(Task("history/" + cfg.name, cfg, fam.hist, dict(classes=[], steps=n, checks=H, menu=menu), budget=B * 2, reach=["end"]))
    r.append(Task("history/random/" + NEQ.name, NEQ, fam.hist, dict(classes=[33, 36], sym=1, enum=8, steps=n, checks=H, menu=[("m", 36), ("mm", 33, 6), ("f0",), ("f1",), ("fa",), ("r", 36), ("r", 33), ("t",)]), budget=B * 2, reach=["end"]))
    r += fam.lists_tasks(Task, Cfg, B, steps=5 if T else 4)
    r += fam.lists_tasks(Task, Cfg, B, steps=4, cls=25)
    return r
