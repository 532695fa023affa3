"""Operation histories on one instance: the operations C06 explores in depth, reused by the
packing checks to reach non-initial states before a solving method is judged."""
import copy
import itertools

import mp
import env
import gen
import packspace as ps
import structs

hp = mp.hp
PROBLEMS = [
    {"conts": [(4, 3), (3, 2)], "items": [(2, 3), (1, 2), (3, 1), (2, 2), (1, 1)]},
    {"conts": [(5, 4)], "items": [(1, 3), (2, 2), (3, 2), (2, 1)]},
    {"W": 4, "items": [(2, 3), (1, 2), (3, 1), (2, 2)]},
    {"W": 3, "h": 5, "items": [(1, 2), (3, 1), (2, 2), (1, 1)]},
    {"W": 3, "h": 6, "m": 4, "items": [(2, 1), (1, 1), (2, 2)]},
]
POOL = [("B", "A", "C"), ("A", "B"), gen.DEFAULT]


def operations(small, strip):
    ops = ["solve", "reversed", "local", "strat1", "strat2", "norot", "item", "expired", "other", "hyper", "area", "badstrat",
           "wide"]
    ops += ["height", "min", "reset", "partial", "throttle", "add"] if strip else ["container", "addcont", "delete",
                                                                                   "partial", "throttle", "assign"]
    if not small:
        ops += ["rot", "default", "mp", "mpfail", "empty", "log", "figure", "long", "ratio", "badsettings", "baditem", "noseq",
                "add" if not strip else "delete", "badheight" if strip else "badcont", "hyperexpired"]
    return ops


def make(pr, rotation=True, **settings):
    items = gen.ids([tuple(i) for i in pr["items"]])
    kw = {"items": items, "settings": dict({"rotation": rotation, "max_time_in_seconds": 10 ** 5, "workers_num": 1}, **settings)}
    if "W" in pr:
        p = hp.HyperPack(strip_pack_width=pr["W"], **kw)
        if pr.get("h"):
            p.container_height = pr["h"]
        if pr.get("m"):
            p.container_min_height = pr["m"]
        return p
    return hp.HyperPack(containers={gen.CONT_IDS[i]: {"W": w, "L": l} for i, (w, l) in enumerate(pr["conts"])}, **kw)


def workers(p, faults):
    mp.set_pool(POOL[:2])
    p.settings = dict(p.settings, workers_num=2)
    sim = mp.simmp.Sim(mp.ls.Choices(), 0, faults, max_ops=10 ** 6)
    try:
        sim.run(lambda: p.hypersearch(_exhaustive=False))
    except hp.exceptions.MultiProcessError:
        pass
    p.settings = dict(p.settings, workers_num=1)


def expired(fn, after):
    env.CLOCK.start(on_read=lambda c: setattr(c, "now", c.now + (10 ** 6 if c.reads > after else 0)))
    try:
        fn()
    finally:
        env.CLOCK.stop()


def perform(p, op, pr):
    ids = list(p.items)
    strip = "W" in pr
    if op == "solve":
        p.solve()
    elif op == "reversed":
        p.solve(sequence=ids[::-1])
    elif op == "partial":
        p.solve(sequence=ids[1:][::-1])
    elif op == "noseq":
        p.solve(sequence=None)
    elif op == "local":
        p.local_search()
    elif op == "throttle":
        p.local_search(throttle=False)
    elif op == "expired":
        expired(p.local_search, 3)
    elif op == "hyperexpired":
        mp.set_pool(POOL)
        expired(lambda: p.hypersearch(_exhaustive=False), 3)
    elif op == "hyper":
        mp.set_pool(POOL)
        p.hypersearch(_exhaustive=False)
    elif op == "mp":
        workers(p, None)
    elif op == "mpfail":
        workers(p, {1: ("raise", 1), 2: ("raise", 2)})
    elif op == "other":
        # searches of other instances
        o = make(pr, False)
        o.potential_points_strategy = POOL[0]
        o.local_search()
        o.settings = {"rotation": True, "max_time_in_seconds": 1}
        o.items[gen.ITEM_IDS[0]]["w"] = 1
        low = hp.PointGenPack(items=p.items.deepcopy(), strip_pack_width=2, settings={"rotation": False})
        low.container_height = 2
        low.potential_points_strategy = ("F",)
        low.solve()
    elif op.startswith("strat"):
        p.potential_points_strategy = POOL[int(op[5:]) - 1]
    elif op == "default":
        p.potential_points_strategy = gen.DEFAULT
    elif op == "empty":
        p.potential_points_strategy = ()
    elif op in ("rot", "norot"):
        p.settings = dict(p.settings, rotation=op == "rot")
    elif op == "item":
        p.items[ids[0]] = {"w": p.items[ids[0]]["l"], "l": 2}
    elif op == "add":
        p.items["extra"] = {"w": 1, "l": 2}
    elif op == "delete" and len(ids) > 1:
        del p.items[ids[-1]]
    elif op == "assign":
        p.items = p.items.deepcopy(ids[::-1])
    elif op in ("area", "ratio"):
        p.sort_items(("area" if op == "area" else "longest_side_ratio", True))
    elif op in ("wide", "long"):
        p.orient_items(op)
    elif op == "container":
        k = next(iter(p.containers))
        p.containers[k]["W"] = 6 - p.containers[k]["W"] or 2
    elif op == "addcont":
        p.containers["new"] = {"W": 2, "L": 2}
    elif op == "height":
        p.container_height = max(4, p.container_min_height or 0)
    elif op == "min":
        p.container_min_height = min(3, p.container_height)
    elif op == "reset":
        p.reset_container_height()
    elif op == "log":
        p.log_solution()
    elif op == "figure":
        p.create_figure()
    else:
        try:
            if op == "badstrat":
                p.potential_points_strategy = ("A", "A")
            elif op == "baditem":
                p.items[ids[0]]["w"] = 0
            elif op == "badsettings":
                keep = dict(p.settings)
                try:
                    p.settings = {"rotation": False, "workers_num": 0}
                finally:
                    p.settings = keep
            elif op == "badcont":
                p.containers.update({"x": {"W": 1}})
            elif op == "badheight":
                p.container_height = 0
        except (hp.exceptions.PotentialPointsError, hp.exceptions.DimensionsError, hp.exceptions.SettingsError):
            pass




# ------------------------------------------------- histories judged by the packing checks
STRUCTURAL = ["less", "more", "merge", "pop", "oldref", "iless", "imerge", "ipop", "ioldref"]
FINALS = ["solve", "seq", "local", "hyper", "mp"]


def structural(p, op, strip):
    """Changes of the structures that perform() doesn't have; no-ops where refused."""
    c = None if strip else p.containers
    if op == "less" and c is not None:
        p.containers = {"q": {"W": 3, "L": 3}}
    elif op == "more" and c is not None:
        p.containers = {"t": {"W": 2, "L": 2}, "s": {"W": 3, "L": 2}, "q": {"W": 3, "L": 3}}
    elif op == "merge" and c is not None:
        p.containers |= {"m": {"W": 3, "L": 1}, next(iter(c)): {"W": 3, "L": 3}}
    elif op == "pop" and c is not None and len(c) > 1:
        c.pop(next(iter(c)))
    elif op == "oldref" and c is not None:
        p.containers = {"t": {"W": 2, "L": 2}, "s": {"W": 3, "L": 2}}
        c["old"] = {"W": 1, "L": 1}
    elif op == "iless":
        p.items = {"p": {"w": 2, "l": 2}, gen.ITEM_IDS[1]: {"w": 1, "l": 2}}
    elif op == "imerge":
        p.items |= {"m": {"w": 1, "l": 2}, next(iter(p.items)): {"w": 2, "l": 1}}
    elif op == "ipop" and len(p.items) > 1:
        p.items.pop(next(iter(p.items)))
    elif op == "ioldref":
        old = p.items
        p.items = {"p": {"w": 2, "l": 2}, gen.ITEM_IDS[1]: {"w": 1, "l": 2}, "z": {"w": 3, "l": 1}}
        old["more"] = {"w": 1, "l": 1}


def cases(tier, finals=FINALS):
    q = tier == "quick"
    for i, pr in enumerate(PROBLEMS):
        strip = "W" in pr
        ops = STRUCTURAL + operations(True, strip)
        for a in ops if q else ops + ["mp", "mpfail", "hyperexpired", "badcont", "badsettings", "baditem"]:
            yield {"k": "hist", "p": i, "first": a, "depth": 2 if q else 3, "finals": list(finals)}


def explore(case, ctx, oracle):
    pr = PROBLEMS[case["p"]]
    strip = "W" in pr
    ops = STRUCTURAL + operations(True, strip)
    seen = set()
    for depth in range(1, case["depth"] + 1):
        for rest in itertools.product(ops, repeat=depth - 1):
            for final in case["finals"]:
                if final in ("hyper", "mp") and depth > 2 or final == "mp" and depth > 1:
                    continue
                p = make(pr)
                for op in (case["first"],) + rest:
                    structural(p, op, strip)
                    perform(p, op, pr)
                    ctx.trans()
                one(p, final, pr, strip, [case["first"], *rest], oracle, ctx, seen)


def one(p, final, pr, strip, history, oracle, ctx, seen):
    items = ps.flat(structs.plain(p.items))
    height = p.container_height
    conts = ps.flat(structs.plain(p.containers), height)
    if not strip:
        conts = ps.flat(structs.plain(p.containers))
    st, rot = p.potential_points_strategy, p.settings.get("rotation", True)
    sequence = None
    if final == "solve":
        p.solve()
    elif final == "seq":
        sequence = list(items)[::-1]
        p.solve(sequence=list(sequence))
    elif final == "local":
        p.local_search()
    else:
        mp.set_pool(POOL)
        if final == "hyper":
            p.hypersearch(orientation=None, sorting_by=None, _exhaustive=False)
        else:
            p.settings = dict(p.settings, workers_num=2)
            sim = mp.simmp.Sim(mp.ls.Choices(), 0, max_ops=10 ** 6)
            sim.run(lambda: p.hypersearch(orientation=None, sorting_by=None, _exhaustive=False))
    ps._note(ctx, p, seen)
    name = {"solve": "solve", "seq": "solve(sequence)", "local": "local_search"}.get(final, "hypersearch")
    info = ps.Info(conts, items, rot, st, name, sequence, strip, height, p.container_min_height)
    info.history = history
    oracle(p, info)
