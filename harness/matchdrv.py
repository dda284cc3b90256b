"""Every small distance matrix through one real update."""
import itertools
from trackdrv import *


def one(D, T, confirmed, scale, vec):
    nd, no = len(D), len(D[0])
    delay = 0 if confirmed else 1
    idx = {}
    state = {"dets": {}, "objs": {}}

    def dist(det, obj):
        v = D[state["dets"][id(det)]][state["objs"][id(obj)]]
        return math.inf if v == BIG else v * scale

    tracker = Tracker(dist, distance_threshold=math.inf if T == BIG else T * scale, hit_counter_max=3,
                      initialization_delay=delay, filter_factory=NoFilterFactory())
    first = [Detection(np.array([[float(i), 0.0]])) for i in range(no)]
    ev = {"nd": nd, "no": no, "D": D, "T": T, "pairs": [], "births": 0, "exc": ""}
    try:
        with watchdog(10):
            tracker.update(first)
            objs = list(tracker.tracked_objects)
            pos = {id(d): i for i, d in enumerate(first)}
            for o in objs:
                state["objs"][id(o)] = pos[id(o.last_detection)]
            dets = [Detection(np.array([[float(i), 1.0]])) for i in range(nd)]
            state["dets"] = {id(d): i for i, d in enumerate(dets)}
            tracker.update(dets)
            known = {id(o) for o in objs}
            for o in tracker.tracked_objects:
                u = state["dets"].get(id(o.last_detection))
                if id(o) in known:
                    if u is not None:
                        ev["pairs"].append([u + 1, state["objs"][id(o)] + 1])
                else:
                    ev["births"] += 1
    except Hang:
        ev["exc"] = "Hang"
    except Exception as e:
        ev["exc"] = type(e).__name__
    return ev


def exhaustive(chk):
    r = random.Random(SEED)
    cases = []
    for (m, n) in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]:
        for vals in itertools.product([0, 1, 2, BIG], repeat=m * n):
            cases.append(([list(vals[i * n:(i + 1) * n]) for i in range(m)], 2))
    total = len(cases)
    more = pick(1500, 20000)
    for _ in range(more):
        m, n = r.choice([(2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (4, 4), (5, 5)])
        pal = r.choice([[0, 1, 2, BIG], [-1, 0, 1, BIG], [0, 1, 2, 3, 4, 5], [0, 0, 0, 1], [-5, -2, 3, BIG, BIG],
                        list(range(25))])
        T = r.choice([0, 1, 2, 3, BIG, (1 << 25) + 1, 20])
        cases.append(([[r.choice(pal) for _ in range(n)] for _ in range(m)], T))
    chk.cover["matrices"] = {"all_up_to_2x2_1x3_3x1_over_4_values": total, "random_larger": more}
    big = pick(60, 600)
    for _ in range(big):   # crowds
        m, n = r.choice([(7, 7), (8, 12), (12, 8), (9, 3), (3, 20), (20, 20), (33, 5), (40, 40), (5, 50), (70, 2)])
        pal = r.choice([list(range(3)), list(range(100)), list(range(5000)), [0, 1, 2, 3, BIG, BIG, BIG, BIG]])
        T = r.choice([2, 50, 4000, BIG])
        cases.append(([[r.choice(pal) for _ in range(n)] for _ in range(m)], T))
    chk.cover["matrices"]["crowds_up_to_40x40"] = big
    evs = [one(D, T, r.random() < 0.5, 1.0 if T > 10000 else r.choice([1.0, 0.125, 2.0 ** -13, 2.0 ** -20, 1024.0]), False)
           for D, T in cases]
    out = []
    for i in range(0, len(evs), 25):
        out.append({"ev": evs[i:i + 25], "stim": {"matrices": [[e["D"], e["T"]] for e in evs[i:i + 25]]}})
    return out
