"""C01 - C11: the tracker."""
from trackdrv import *
import twin

PATTERNS = {
    "C01": ["id:*", "idseq:*", "iddup:*", "gid:*", "giddup:*", "iid:*", "total", "exc:*"],
    "C02": ["ini:*", "hit:*", "ret", "retdup", "active", "count", "age:*", "id:confirm", "id:birth", "exc:*"],
    "C03": ["m1:*", "m2:*", "m3:thr", "m3:lab", "m3:order", "m3:missed", "det:twice", "exc:*"],
    "C04": ["det:*", "birth:*", "*:birth", "dead:matched", "m1:pool", "m2:pool", "m1:missed", "m2:missed",
            "last:*", "exc:*"],
    "C05": ["drop:*", "reid:*", "dead:matched", "dup:object", "exc:*"],
    "C06": ["m3:*", "*:merge", "drop:early", "drop:back", "dead:matched", "exc:*"],
    "C07": ["live:*", "exc:*"],
    "C08": ["abs:*", "est:*", "vel:*", "twin:est", "twin:abs", "twin:vel", "exc:*"],
    "C09": ["past:*", "pastage:*", "last:*", "ld:*", "exc:*"],
    "C10": ["abs:*", "est:*", "vel:*", "absraise:*", "twin:*", "m1:*", "m2:*", "exc:*"],
    "C11": ["twin:*", "mut:*", "exc:*"],
}

MOSTLY = ["none", "none", "none", "ab", "opt", "kalman"]
FEW = [[1], [1], [0], [1, 2]]

BASE = dict(NT=1, Hmaxs="{2}", Delays="{0, 1}", Pmaxs="{2}", Npasts="{2}", Rmaxs="R_None", Reids="{FALSE}",
            Pers="{1}", Labels="{1}", ScorePats="S_None", DV="{1, 9}", RV="{1, 9}", T=2, RT=2,
            MaxDet=1, MaxObj=3, MaxFrame=4, NP=1, Cams="{}", EmitH="FALSE")
DEFS = {"R_None", "R_B", "R_Reid", "S_None", "S_Two", "Cam_Two", "Cam_Three"}
INVS = ["IdsUnique", "IdIffConfirmed", "CountIsIds", "CounterLaw", "ReportLaw", "OnePlace", "LifeLaw",
        "GoneForever", "LiveLaw", "SeenLaw", "PastLaw", "CamLaw"]
PROPS = ["IdPermanent", "ConfirmLaw", "MatchedStay", "MergeLaw"]


def write_cfg(work, name, consts, invs=INVS, props=PROPS, emit=False, over=None):
    c = dict(BASE, **consts)
    if emit:
        c["EmitH"] = "TRUE"
    lines = ["SPECIFICATION Spec", "VIEW View", "CHECK_DEADLOCK FALSE", "CONSTANTS"]
    for k, v in c.items():
        lines.append(f" {k} {'<-' if v in DEFS else '='} {v}")
    for k, v in (over or {}).items():
        lines.append(f" {k} <- {v}")
    if emit:
        lines.append("ACTION_CONSTRAINT Emit")
    else:
        if invs:
            lines.append("INVARIANTS " + " ".join(invs))
        if props:
            lines.append("PROPERTIES " + " ".join(props))
    p = os.path.join(work.path, name + ".cfg")
    open(p, "w").write("\n".join(lines) + "\n")
    return p


# name: (quick constants, thorough constants)
MODELS = {
    "counters": (dict(Hmaxs="{1, 2, 3}", Delays="{0, 1, 2}", Rmaxs="R_B", Pers="{1, 2}", MaxFrame=5),
                 dict(Hmaxs="{1, 2, 4}", Delays="{0, 1, 2}", Rmaxs="R_B", Pers="{1, 2}", MaxFrame=7)),
    "matching": (dict(DV="{0, 1, 2}", MaxDet=2, MaxFrame=3, Labels="{1}", Delays="{0, 1}"),
                 dict(DV="{0, 1, 2}", MaxDet=2, MaxFrame=3, Labels="{1, 2}", Delays="{0, 1}", MaxObj=4)),
    "reid": (dict(Reids="{TRUE}", Rmaxs="R_Reid", MaxDet=2, MaxFrame=4, RV="{0, 1, 9}", Hmaxs="{2}", Delays="{1}"),
             dict(Reids="{TRUE}", Rmaxs="R_Reid", MaxDet=2, MaxFrame=5, RV="{0, 1, 9}", Hmaxs="{2}", Delays="{1}")),
    "points": (dict(ScorePats="S_Two", NP=2, MaxFrame=4, Pers="{1, 2}", MaxObj=2, Pmaxs="{1, 3}", Delays="{0}"),
               dict(ScorePats="S_Two", NP=2, MaxFrame=5, Pers="{1, 2}", MaxObj=2, Pmaxs="{1, 3}", Delays="{0}")),
    "ids": (dict(NT=2, MaxFrame=4, Delays="{0, 1}", Hmaxs="{2}", MaxObj=2),
            dict(NT=2, MaxFrame=5, Delays="{0, 1}", Hmaxs="{2}", MaxObj=2)),
    "past": (dict(Npasts="{0, 1, 2, 3}", MaxFrame=7, MaxObj=1, DV="{1}", Hmaxs="{3}", Delays="{0}"),
             dict(Npasts="{0, 1, 2, 3}", MaxFrame=10, MaxObj=1, DV="{1}", Hmaxs="{3}", Delays="{0}")),
    "camera": (dict(Cams="Cam_Three", MaxFrame=4, MaxObj=2), dict(Cams="Cam_Three", MaxFrame=5, MaxObj=3)),
}


def design(chk, *names, invs=INVS, props=PROPS):
    for n in names:
        cfg = write_cfg(chk.work, n, MODELS[n][1 if THOROUGH else 0], invs, props)
        chk.design("MCTracker", cfg=cfg)
        chk.cover["design_models"][-1]["cfg"] = n + " " + json.dumps(MODELS[n][1 if THOROUGH else 0])


def from_model(chk, name, consts, limit):
    """Every transition of a bounded model as a stimulus (history) for the real tracker."""
    cfg = write_cfg(chk.work, "emit-" + name, consts, emit=True)
    st, lines = model("MCTracker", chk.work, cfg=cfg)
    chk.states += st["states"]
    chk.transitions += st["transitions"]
    seen, hs = set(), []
    for x in lines:
        x = x[2:].replace('\\"', '"')
        if x not in seen:
            seen.add(x)
            hs.append(json.loads(x))
    # drop histories that are prefixes of others
    keyed = {}
    for h in hs:
        keyed[json.dumps([h["cfg"], h["h"]], sort_keys=True)] = h
    pre = set()
    for h in hs:
        pre.add(json.dumps([h["cfg"], h["h"][:-1]], sort_keys=True))
    leaf = [h for k, h in keyed.items() if k not in pre]
    leaf.sort(key=lambda h: json.dumps(h, sort_keys=True))
    n = len(leaf)
    if len(leaf) > limit:
        leaf = random.Random(SEED).sample(leaf, limit)
    d = chk.cover.setdefault("model_histories", {})
    d[name] = {"transitions_emitted": len(hs), "maximal_histories": n, "replayed": len(leaf)}
    return [to_stim(h, consts) for h in leaf]


def to_stim(h, consts):
    c0 = h["cfg"]
    o = lambda x: x[0] if x else None
    np_ = consts.get("NP", 1)
    nt = consts.get("NT", 1)
    cfg = {"hmax": c0["hmax"], "delay": c0["delay"], "pmax": c0["pmax"], "npast": c0["npast"],
           "rmax": o(c0["rmax"]), "dthr": c0["dthr"], "T": c0["T"], "RT": c0["RT"], "reid": c0["reid"],
           "scale": 1.0, "n": np_, "dim": 2, "geo": False, "metric": "", "filt": "none"}
    steps, own = [], [0] * nt
    for s in h["h"]:
        t = s["t"]
        big = lambda v: v
        st = {"t": t, "per": s["per"], "mot": s["mot"] or None, "mk": "T",
              "si": own[t],
              "dets": [{"lab": d["lab"], "sc": d["sc"] or None, "abs": d["abs"]} for d in s["dets"]],
              "tab": {"D": {f"{a},{b}": v for a, b, v in s["D"]}, "RD": {f"{a},{b}": v for a, b, v in s["RD"]}}}
        own[t] += 1
        steps.append(st)
    return {"cfgs": [dict(cfg) for _ in range(nt)], "steps": steps, "model": True}


def traces_of(stims):
    return [execute(s) for s in stims]


def randoms(n, tag, f):
    return [execute(f(chash(SEED, tag, i), i)) for i in range(n)]


def N(q, t):
    return pick(q, t)


def large(seed, i=0):
    """Beyond the usual sizes: long lives, long memories, many points, many objects in turn."""
    r = random.Random(seed)
    k = i % 4
    if k == 0:      # long lives
        return gen_stim(seed, steps=r.choice([150, 260]), slots=2, maxd=2, pdet=0.9, pnone=0.1, dens=0.9, T=8, hmax=r.choice([3, 12, 40]),
                        pmax=r.choice([4, 30]), npast=r.choice([3, 6, 12, 25]), rmax=r.choice([None, 3, 40]), labels=[1], n=r.choice([1, 2]),
                        filt=r.choice(EXACT), motion=r.choice([0, 1]))
    if k == 1:      # long memories, filling and thinning
        return gen_stim(seed, steps=r.choice([60, 120]), slots=1, maxd=1, pdet=1, pnone=r.choice([0, 0.1, 0.2]), dens=1, T=8, hmax=r.choice([6, 30]),
                        npast=r.choice([7, 10, 12, 15, 20]), labels=[1], n=1, filt="none", delay=r.choice([None, 0]), pers=r.choice([[1], [1, 2]]))
    if k == 2:      # many points
        return gen_stim(seed, steps=20, n=r.choice([10, 18, 25, 40]), dim=r.choice([2, 2, 3]), slots=2, maxd=2, pdet=0.9, dens=0.9, T=8,
                        scores=r.choice([0.5, 1.0]), hmax=r.choice([3, 8]), pmax=r.choice([2, 4, 7]), labels=[1], filt=r.choice(EXACT), motion=r.choice([0, 1]))
    # many objects, one after the other
    return gen_stim(seed, ntrk=r.choice([1, 2]), steps=r.choice([70, 110]), slots=6, maxd=6, pdet=0.9, pnone=0.05, dens=0.1, T=r.choice([3, 5]), n=1,
                    hmax=r.choice([1, 2]), delay=r.choice([0, 0, None]), rmax=r.choice([None, None, 1]), pers=r.choice([[1], [1, 2]]), filt="none")


def many_points(seed, i):
    return large(seed, 2)


def big(chk, prop, n=None):
    tr = randoms(n or N(12, 120), prop + "big", large)
    chk.conform("TrackerTrace", tr, PATTERNS[prop], "long lives and memories, many points, many objects")


def C01(chk):
    design(chk, "ids", invs=["IdsUnique", "IdIffConfirmed", "CountIsIds", "GoneForever"], props=["IdPermanent"])
    design(chk, "reid", invs=["IdsUnique", "IdIffConfirmed", "CountIsIds", "GoneForever"], props=["IdPermanent"])
    def f(seed, i):
        r = random.Random(seed)
        return gen_stim(seed, ntrk=r.choice([1, 2, 3, 4]), steps=r.choice([25, 40]),
                        hmax=r.choice([1, 2, 3]), pers=r.choice([[1], [1, 2]]),
                        geo=r.random() < 0.1, filt=r.choice(MOSTLY), serial=r.random() < 0.25)
    tr = randoms(N(220, 2500), "C01", f)
    chk.conform("TrackerTrace", tr, PATTERNS["C01"], "interleaved trackers")
    tr = randoms(N(40, 500), "C01r", revivals)
    chk.conform("TrackerTrace", tr, PATTERNS["C01"], "several revivals per update")
    st = from_model(chk, "ids", dict(NT=2, MaxFrame=3, Delays="{0, 1}", MaxObj=2), N(500, 6000))
    chk.conform("TrackerTrace", traces_of(st), PATTERNS["C01"], "model histories ids")
    st = from_model(chk, "reid", dict(Reids="{TRUE}", Rmaxs="R_Reid", MaxDet=2, MaxFrame=3, Delays="{1}"), N(300, 4000))
    chk.conform("TrackerTrace", traces_of(st), PATTERNS["C01"], "model histories reid")
    big(chk, "C01")


def C02(chk):
    design(chk, "counters", invs=["CounterLaw", "ReportLaw", "IdIffConfirmed"], props=["ConfirmLaw"])
    tr = randoms(N(250, 3000), "C02", lambda s, i: gen_stim(
        s, steps=30, pers=random.Random(s).choice([[1], [1, 2], [1, 2, 3], [2], [3, 1, 1], [5, 1]]), filt=random.Random(s + 1).choice(MOSTLY)))
    chk.conform("TrackerTrace", tr, PATTERNS["C02"], "random histories")
    st = from_model(chk, "counters", dict(Hmaxs="{1, 2, 3}", Delays="{0, 1, 2}", Pers="{1, 2}", MaxFrame=4,
                                          Rmaxs="R_Reid"), N(600, 8000))
    chk.conform("TrackerTrace", traces_of(st), PATTERNS["C02"], "model histories counters")
    big(chk, "C02")


def C03(chk):
    chk.design("MCMatch", cfg="MCMatch%s.cfg" % N("", "_big"))
    def f(seed, i):
        r = random.Random(seed)
        return gen_stim(seed, steps=14, maxd=4, pdet=0.95, dens=r.choice([0.2, 0.4, 0.6, 0.9]),
                        T=r.choice([-2, 0, 1, 3, 5, 8, BIG, (1 << 24) + 1, (1 << 25) + 1, (1 << 27) + 3]),
                        labels=r.choice([[1], [1, 2], [1, 2, 3], [0], [0, 1]]), pnone=0.03,
                        hmax=r.choice([2, 3, 5]), filt=r.choice(EXACT), geo=r.random() < 0.2)
    tr = randoms(N(300, 4000), "C03", f)
    chk.conform("TrackerTrace", tr, PATTERNS["C03"], "random matrices")
    st = from_model(chk, "matching", dict(DV="{0, 1, 2}", MaxDet=2, MaxFrame=2, Delays="{0, 1}",
                                          Labels="{1, 2}", MaxObj=4), N(700, 12000))
    chk.conform("TrackerTrace", traces_of(st), PATTERNS["C03"], "model histories matching")
    tr = [execute(crowd(chash(SEED, "C03x", i))) for i in range(N(10, 120))]
    chk.conform("TrackerTrace", tr, PATTERNS["C03"], "crowds")
    import matchdrv
    tr = matchdrv.exhaustive(chk)
    chk.conform("MatchTrace", tr, ["*"], "one update, every small matrix")


def C04(chk):
    design(chk, "matching", invs=["OnePlace"], props=["MatchedStay"])
    def f(seed, i):
        r = random.Random(seed)
        return gen_stim(seed, steps=25, pnone=r.choice([0.1, 0.5]), motion=r.choice([0, 1]),
                        dens=r.choice([0.2, 0.5, 0.8]), filt=r.choice(EXACT), maxd=r.choice([2, 4]))
    tr = randoms(N(250, 3000), "C04", f)
    chk.conform("TrackerTrace", tr, PATTERNS["C04"], "random histories")
    tr = [execute(crowd(chash(SEED, "C04x", i))) for i in range(N(10, 120))]
    chk.conform("TrackerTrace", tr, PATTERNS["C04"], "crowds")
    st = from_model(chk, "matching", dict(DV="{0, 1, 2}", MaxDet=2, MaxFrame=2, Delays="{0, 1}",
                                          Cams="Cam_Two", MaxObj=4), N(500, 6000))
    chk.conform("TrackerTrace", traces_of(st), PATTERNS["C04"], "model histories matching")
    big(chk, "C04")


def crowd(seed):
    """Many detections and objects per frame."""
    r = random.Random(seed)
    k = r.choice([10, 20, 40, 70])
    return gen_stim(seed, steps=r.choice([4, 6]), slots=k, maxd=k, pdet=0.9, pnone=0.02, filt="none", dens=r.choice([0.1, 0.3, 0.7]),
                    reid=False, geo=False, n=1, motion=r.choice([0, 0, 1]), hmax=r.choice([2, 4]))


def C05(chk):
    design(chk, "counters", invs=["LifeLaw", "GoneForever", "CounterLaw"], props=["MatchedStay"])
    def f(seed, i):
        r = random.Random(seed)
        return gen_stim(seed, steps=35, hmax=r.choice([1, 2, 3, 4]), rmax=r.choice([None, 0, 1, 2, 4, 7]),
                        reid=r.random() < 0.6, pnone=r.choice([0.3, 0.5, 0.7]), maxd=r.choice([1, 2]),
                        dens=r.choice([0.5, 0.9]), filt=r.choice(MOSTLY))
    tr = randoms(N(250, 3000), "C05", f)
    chk.conform("TrackerTrace", tr, PATTERNS["C05"], "random histories")
    tr = randoms(N(40, 500), "C05r", revivals)
    chk.conform("TrackerTrace", tr, PATTERNS["C05"], "several revivals per update")
    st = from_model(chk, "life", dict(Hmaxs="{1, 2}", Delays="{0}", Rmaxs="R_B", Pers="{1}", MaxFrame=6,
                                      MaxObj=1), N(500, 8000))
    chk.conform("TrackerTrace", traces_of(st), PATTERNS["C05"], "model histories life")
    big(chk, "C05")


def revivals(seed, i=0):
    """Many lost objects and many newcomers: several merges per update."""
    r = random.Random(seed)
    return gen_stim(seed, steps=25, slots=10, hmax=r.choice([3, 4]), rmax=r.choice([6, 12, 30, None]), reid=True, delay=r.choice([1, 2]),
                    RT=r.choice([12, 40, BIG]), T=r.choice([5, 8]), pnone=r.choice([0.1, 0.3]), dens=r.choice([0.1, 0.15, 0.2]),
                    labels=r.choice([[1], [1], [1, 2]]), pers=r.choice([[1], [1], [1, 2]]), maxd=r.choice([6, 8]), pdet=0.8,
                    filt=r.choice(["ab", "ab", "none"]), npast=r.choice([0, 2, 3]))


def C06(chk):
    design(chk, "reid", invs=["IdsUnique", "LifeLaw", "GoneForever", "ReportLaw"], props=["MergeLaw", "MatchedStay"])
    def f(seed, i):
        r = random.Random(seed)
        return gen_stim(seed, steps=35, hmax=r.choice([2, 3, 4]), rmax=r.choice([None, 1, 3, 6]), reid=True,
                        pnone=r.choice([0.1, 0.3]), dens=r.choice([0.3, 0.6]),
                        maxd=r.choice([2, 3, 4]), filt=r.choice(["ab", "ab", "none", "opt"]), npast=r.choice([0, 2, 3]),
                        **({"RT": 0, "omit": True} if i % 7 == 3 else {"RT": r.choice([2, 5, BIG])}))
    tr = randoms(N(260, 3000), "C06", f)
    chk.conform("TrackerTrace", tr, PATTERNS["C06"], "random histories")
    tr = randoms(N(90, 1200), "C06r", revivals)
    chk.conform("TrackerTrace", tr, PATTERNS["C06"], "several revivals per update")
    st = from_model(chk, "reid", dict(Reids="{TRUE}", Rmaxs="R_Reid", MaxDet=2, MaxFrame=4, RV="{0, 1, 9}",
                                      Delays="{1}", MaxObj=2), N(700, 12000))
    chk.conform("TrackerTrace", traces_of(st), PATTERNS["C06"], "model histories reid")
    big(chk, "C06")


def C07(chk):
    design(chk, "points", invs=["LiveLaw", "SeenLaw"], props=[])
    def f(seed, i):
        r = random.Random(seed)
        return gen_stim(seed, steps=30, n=r.choice([1, 2, 3, 4]), scores=r.choice([0.4, 0.8, 1.0]),
                        pmax=r.choice([1, 2, 3, 4, 7]), hmax=r.choice([3, 6, 10]), maxd=r.choice([1, 2]),
                        dens=0.9, T=8, pers=r.choice([[1], [1, 2], [3, 1]]), filt=r.choice(MOSTLY), labels=r.choice(FEW))
    tr = randoms(N(250, 3000), "C07", f)
    chk.conform("TrackerTrace", tr, PATTERNS["C07"], "random histories")
    st = from_model(chk, "points", dict(ScorePats="S_Two", NP=2, MaxFrame=4, MaxObj=1, Pmaxs="{1, 3}",
                                        Delays="{0}", Hmaxs="{3}", Pers="{1, 2}"), N(500, 8000))
    chk.conform("TrackerTrace", traces_of(st), PATTERNS["C07"], "model histories points")
    big(chk, "C07")
    tr = randoms(N(24, 250), "C07many", many_points)
    chk.conform("TrackerTrace", tr, PATTERNS["C07"], "objects of many points")


def C08(chk):
    design(chk, "points", invs=["SeenLaw"], props=[])
    def f(seed, i):
        r = random.Random(seed)
        return gen_stim(seed, steps=25, n=r.choice([1, 2, 3, 4]), scores=r.choice([0.6, 1.0]), dim=r.choice([2, 3]),
                        hmax=r.choice([3, 6]), maxd=r.choice([1, 2, 4]), dens=0.9, T=8, filt=r.choice(EXACT), labels=r.choice(FEW), motion=r.choice([0, 0, 1]))
    tr = randoms(N(150, 2000), "C08", f)
    chk.conform("TrackerTrace", tr, PATTERNS["C08"], "positions without filter")
    tr = [twin.garbage_pair(chash(SEED, "C08g", i)) for i in range(N(80, 1000))]
    chk.conform("TwinTrace", tr, PATTERNS["C08"], "different untrusted coordinates")
    tr = [twin.separate_pair(chash(SEED, "C08s", i)) for i in range(N(120, 1500))]
    chk.conform("TwinTrace", tr, PATTERNS["C08"], "points together and alone")
    import filterdrv as F
    pats = ["pos:start", "vel:start", "pos:first", "vel:first", "pos:un*", "vel:un*", "exc:*"]
    tr = [F.tracker_trace(chash(SEED, "C08f", i), scores=0.9) for i in range(N(300, 5000))]
    chk.conform("FilterTrace", tr, pats, "partial detections with predictive filters")
    big(chk, "C08")


def C09(chk):
    design(chk, "past", invs=["PastLaw", "CounterLaw"], props=[])
    def f(seed, i):
        r = random.Random(seed)
        return gen_stim(seed, steps=r.choice([30, 60]), npast=r.choice([0, 1, 2, 3, 4, 5]), hmax=r.choice([3, 6, 12]),
                        maxd=r.choice([1, 1, 2, 4]), dens=0.9, T=8, labels=r.choice(FEW), filt=r.choice(MOSTLY), pnone=r.choice([0.05, 0.3]))
    tr = randoms(N(200, 2500), "C09", f)
    tr += [execute(once_more(chash(SEED, "C09o", i))) for i in range(N(60, 800))]
    chk.conform("TrackerTrace", tr, PATTERNS["C09"], "random histories")
    st = from_model(chk, "past", dict(Npasts="{0, 1, 2, 3}", MaxFrame=6, MaxObj=1, DV="{1}", Hmaxs="{3}",
                                      Delays="{0}"), N(400, 4000))
    chk.conform("TrackerTrace", traces_of(st), PATTERNS["C09"], "model histories past")
    big(chk, "C09")


def once_more(seed):
    """One object at a time, matched by the same few Detection objects over and over."""
    r = random.Random(seed)
    return gen_stim(seed, steps=r.choice([20, 50]), slots=1, maxd=1, pdet=1, dens=1, T=8, labels=[1], motion=0, rmax=None, reid=False, geo=False,
                    npast=r.choice([1, 2, 3, 4, 5]), hmax=r.choice([2, 6, 12]), pnone=r.choice([0, 0.1, 0.3]), again=r.choice([0.4, 0.8]),
                    same=True, filt="none")


def C10(chk):
    design(chk, "camera", invs=["CamLaw", "OnePlace", "GoneForever"], props=["IdPermanent"])
    st = from_model(chk, "camera", dict(Cams="Cam_Three", MaxFrame=N(4, 5), MaxObj=2), N(500, 6000))
    chk.conform("TrackerTrace", traces_of(st), PATTERNS["C10"], "model histories")
    def f(seed, i):
        r = random.Random(seed)
        geo = r.random() < 0.6
        return gen_stim(seed, ntrk=r.choice([1, 1, 2]), steps=25, motion=1, geo=geo, filt=r.choice(EXACT), again=r.choice([0, 0.3, 0.6]), hmax=r.choice([1, 2, 3, 5]),
                        dim=2 if not geo or r.random() < 0.8 else 3, pnone=r.choice([0.1, 0.4]))
    tr = randoms(N(220, 2500), "C10", f)
    tr += [execute(shared_stim(chash(SEED, "C10s", i))) for i in range(N(60, 600))]
    chk.conform("TrackerTrace", tr, PATTERNS["C10"], "moving camera")
    tr = [twin.camera_pair(chash(SEED, "C10t", i)) for i in range(N(120, 1500))]
    chk.conform("TwinTrace", tr, PATTERNS["C10"], "static and moving camera")
    big(chk, "C10")


def shared_stim(seed):
    """Two trackers are fed the very same Detection objects of every frame."""
    r = random.Random(seed)
    s = gen_stim(seed, ntrk=1, steps=15, motion=1, geo=r.random() < 0.5, filt=r.choice(EXACT), chkpast=False)
    c2 = dict(gen_cfg(random.Random(seed + 1), **{k: s["cfgs"][0][k] for k in ("n", "dim", "geo", "metric", "T", "RT", "scale", "doff", "filt", "stype") if k in s["cfgs"][0]}),
              chkpast=False)
    steps, off, apart = [], [0] * s["cfgs"][0]["dim"], r.random() < 0.6
    for i, x in enumerate(s["steps"]):
        steps.append(x)
        y = json.loads(json.dumps(x))
        y["t"] = 1
        y["reuse"] = len(steps) - 1
        if y.get("mot") and y["mot"][0] == 1 and apart:      # the second camera moves differently
            off = [v + r.choice([0, 2, -5, 7]) for v in off]
            y["mot"][1] = list(off)
        steps.append(y)
    return {"cfgs": [s["cfgs"][0], c2], "steps": steps}


def C11(chk):
    design(chk, "ids", invs=["IdsUnique"], props=["IdPermanent"])
    tr = [twin.isolation_pair(chash(SEED, "C11", i)) for i in range(N(150, 2000))]
    chk.conform("TwinTrace", tr, PATTERNS["C11"], "alone and among other trackers")
    def f(seed, i):
        r = random.Random(seed)
        return gen_stim(seed, ntrk=3, steps=36, scores=0.6, geo=r.random() < 0.3, motion=r.choice([0, 1]), again=r.choice([0, 0.4]))
    tr = randoms(N(120, 1500), "C11m", f)
    chk.conform("TrackerTrace", tr, PATTERNS["C11"], "inputs unchanged, interleaved trackers")


def C24(chk):
    import hyper
    chk.design("MCHyper", cfg="MCHyper_far%s.cfg" % pick("", "_big"))
    chk.design("MCHyper", cfg="MCHyper_label%s.cfg" % pick("", "_big"))
    for n, f, k in (("groups together and apart", hyper.groups_pair, 1), ("order, labels, idle updates", hyper.order_pair, 2),
                    ("another coordinate system, company", hyper.place_pair, 3)):
        tr = [f(chash(SEED, "C24", k, i)) for i in range(N(260, 4000))]
        chk.conform("HyperTrace", tr, ["*"], n)
    chk.assumptions.append("no two candidate pairs of one update are equally far apart (otherwise the closest pair, and with it the result, is not determined)")
