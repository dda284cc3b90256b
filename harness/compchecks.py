"""C12 - C15, C22, C23 and the Kalman part of C08: components around the tracker."""
from common import *


def C12(chk):
    import distdrv as D
    chk.design("MCDistances", cfg="MCDistances%s.cfg" % pick("", "_big"))
    ms = ["asym", "asym", "asym", "cityblock", "sqeuclidean", "euclidean", "chebyshev"]
    evs = [D.matrix_event(chash(SEED, "C12", i), ms) for i in range(pick(5000, 60000))]
    chk.conform("DistTrace", D.group(evs, 16), ["shape", "label:*", "value:*", "exc:*"], "matrices over mixed labels")
    more = [D.matrix_event(chash(SEED, "C12b", i), ms, big=True) for i in range(pick(60, 600))]
    chk.conform("DistTrace", D.group(more, 4), ["shape", "label:*", "value:*", "exc:*"], "many candidates or objects")
    evs += more
    chk.cover["inputs"] = {"matrices": len(evs), "entries": sum(e["rows"] * e["cols"] for e in evs),
                           "empty": sum(1 for e in evs if not e["c"] or not e["o"]),
                           "tracked_objects_as_candidates": sum(1 for e in evs if e["cls"] == "obj")}
    chk.assumptions.append("labels compared as Python values: equality classes of the label values used are listed in distdrv.LABELVALS")


def C13(chk):
    import distdrv as D
    chk.design("MCDistances", cfg="MCDistances%s.cfg" % pick("", "_big"))
    doc = D.SCALAR + D.BOXES + ["voting", "normalized"]
    evs = [D.call_event(chash(SEED, "C13c", i), doc) for i in range(pick(4000, 50000))]
    evs += [D.matrix_event(chash(SEED, "C13m", i), doc + D.NUM + D.BOOL, labels=False) for i in range(pick(2500, 30000))]
    evs += [D.matrix_event(chash(SEED, "C13b", i), doc, labels=False, big=True) for i in range(pick(40, 400))]
    evs += D.name_events()
    chk.conform("DistTrace", D.group(evs, 16), ["value:*", "zero:*", "iou:*", "name:*", "exc:*", "shape"], "documented values and names")
    evs = D.box_matrix(pick(4, 6), 4)
    chk.conform("DistTrace", D.group(evs, 1), ["value:*", "iou:*", "exc:*", "shape", "zero:*"], "every pair of boxes of a grid")


def C14(chk):
    import filterdrv as F
    chk.design("MCFilter", cfg="MCFilter%s.cfg" % pick("", "_big"))
    pats = ["pos:*", "vel:*", "between", "still", "unknown", "shape", "exc:*"]
    tr = [F.tracker_trace(chash(SEED, "C14", i)) for i in range(pick(500, 8000))]
    chk.conform("FilterTrace", tr, pats, "objects of trackers")
    tr = [F.direct_trace(chash(SEED, "C14d", i)) for i in range(pick(500, 8000))]
    chk.conform("FilterTrace", tr, pats, "filters of one factory driven directly")
    tr = [F.direct_trace(chash(SEED, "C14l", i), long=True) for i in range(pick(40, 600))]
    chk.conform("FilterTrace", tr, pats, "filters driven for long")
    tr = F.words(pick(4, 5))
    chk.conform("FilterTrace", tr, pats, "every schedule of misses, matches and partial matches")
    chk.assumptions.append("positions compared within 0.004 px plus 0.5% of the innovation (fixed point of the specification)")


def C15(chk):
    import motiondrv as M
    chk.design("MCMotion", cfg="MCMotion%s.cfg" % pick("", "_big"))
    for n, f, k, t in (("translation getter", M.trans_trace, 700, 12000), ("homography getter", M.homog_trace, 500, 8000),
                       ("transformations", M.plain_trace, 500, 8000)):
        tr = [f(chash(SEED, "C15", n, i)) for i in range(pick(k, t))]
        chk.conform("MotionTrace", tr, ["*"], n)
    chk.assumptions.append("homography fits: at least 70% exact point pairs, the others off by 60 px or more; compared within 0.15 px")


def C16(chk):
    import motiondrv as M
    chk.design("MCMotion", cfg="MCMotion%s.cfg" % pick("", "_big"))
    tr = [M.estim_trace(chash(SEED, "C16", i)) for i in range(pick(350, 6000))]
    chk.conform("EstimTrace", tr, ["*"], "synthetic videos")
    chk.cover["frames"] = {"usable": sum(e["u"] for t in tr for e in t["ev"]), "blank": sum(not e["u"] for t in tr for e in t["ev"]),
                           "reference_renewed": sum(e["flag"] or e["raised"] for t in tr for e in t["ev"]),
                           "masked_videos": sum(t["stim"]["masked"] for t in tr)}
    chk.assumptions.append("OpenCV's feature detection and optical flow are part of the system under test; scenes are textured on several scales and displacements stay below 20 px")


def C17(chk):
    import canvasdrv as D
    chk.design("MCCanvas", cfg="MCCanvas%s.cfg" % pick("", "_big"))
    tr = [D.trace(chash(SEED, "C17", i)) for i in range(pick(1500, 25000))]
    chk.conform("CanvasTrace", tr, ["*"], "random frames and movements")
    tr = D.words(pick(7, 10))
    chk.conform("CanvasTrace", tr, ["*"], "every pair of movements of a grid")
    chk.cover["steps"] = {"adjusted": sum(len(t["ev"]) for t in tr)}
    chk.assumptions.append("frames of 1-7 pixels a side, one or three channels; movements in quarter pixels up to 1e15")


def C18(chk):
    import drawdrv as D
    chk.design("MCDraw", cfg="MCDraw%s.cfg" % pick("", "_big"))
    tr = [D.draw_trace(chash(SEED, "C18", i)) for i in range(pick(900, 15000))]
    chk.conform("DrawTrace", tr, ["*"], "points, boxes, palettes and text")
    chk.conform("DrawTrace", D.name_traces(), ["*"], "every color name, every value of a channel")
    n = sum(e["op"] == "draw" for t in tr for e in t["ev"])
    tr = [D.path_trace(chash(SEED, "C18p", i)) for i in range(pick(500, 8000))]
    chk.conform("DrawTrace", tr, ["*"], "trails")
    import absdrv as A
    chk.conform("AbsTrace", [A.prim_trace(chash(SEED, "C18q", i)) for i in range(pick(500, 8000))], ["*"], "primitives")
    chk.cover["calls"] = {"draw": n, "path": sum(e["op"] == "path" for t in tr for e in t["ev"])}
    chk.assumptions.append("rasterisation is OpenCV's: centers, axis pixels and the inside of discs and the perimeter of boxes are due, "
                           "one pixel around is free; text is checked as handed to cv2.putText")


def C19(chk):
    import videodrv as D
    chk.design("MCVideo", cfg="MCVideo%s.cfg" % pick("", "_big"))
    root = chk.work.sub("video")
    tr = [D.life(chash(SEED, "C19", i), root) for i in range(pick(250, 4000))]
    chk.conform("VideoTrace", tr, ["*"], "lives of video objects")
    chk.conform("VideoTrace", D.ctors(root), ["*"], "every combination of sources, codecs by name")
    chk.cover["frames"] = {"read": sum(e["op"] == "next" for t in tr for e in t["ev"]),
                           "written": sum(e["op"] == "write" for t in tr for e in t["ev"])}
    chk.assumptions.append("frames carry a number that survives the codecs; cameras are a stand-in for cv2.VideoCapture(number); "
                           "the display call cv2.imshow is recorded, not run; all frames written to one file have one size")


def C20(chk):
    import motdrv as D
    chk.design("MCMot", cfg="MCMot%s.cfg" % pick("", "_big"))
    root = chk.work.sub("mot")
    for n, f, q, t in (("detection files", D.dets, 500, 8000), ("prediction files", D.preds, 500, 8000),
                       ("information files", D.info, 300, 5000), ("numbered images", D.frames, 60, 800)):
        tr = [f(chash(SEED, "C20", n, i), root) for i in range(pick(q, t))]
        chk.conform("MotTrace", tr, ["*"], n)
    chk.assumptions.append("coordinates and confidences in quarters or 1024ths, below 2500 px (files hold single precision values)")


def C21(chk):
    import motdrv as D
    chk.design("MCMot", cfg="MCMot%s.cfg" % pick("", "_big"))
    root = chk.work.sub("mot")
    tr = [D.evaluation(chash(SEED, "C21", i), root) for i in range(pick(160, 2500))]
    chk.conform("MotTrace", tr, ["*"], "evaluations")
    chk.cover["modes"] = {m: sum(t["stim"]["mode"] == m for t in tr) for m in ("perfect", "none", "one", "mixed")}
    chk.assumptions.append("truths are far enough apart that at most one prediction overlaps each by half; motmetrics is part of the system under test; "
                           "sequences are told apart by their folder names")


def group(evs, n, **kw):
    return [dict(ev=[{k: v for k, v in e.items() if k != "stim"} for e in evs[i:i + n]],
                 stim=[e.get("stim") for e in evs[i:i + n]], **kw) for i in range(0, len(evs), n)]


def C22(chk):
    import helpdrv as D
    chk.design("MCValidate", cfg="MCValidate%s.cfg" % pick("", "_big"))
    chk.conform("ValidTrace", group(D.configs(pick(5, 9)), 20), ["*"], "every small configuration, every kind of distance")
    chk.conform("ValidTrace", group(D.points(), 20), ["*"], "shapes of points")
    evs = [D.update_event(chash(SEED, "C22", i)) for i in range(pick(800, 12000))]
    chk.conform("ValidTrace", group(evs, 20), ["*"], "updates with nan distances and foreign objects")
    chk.cover["updates"] = {"nan": sum(e["nan"] for e in evs), "foreign": sum(e["foreign"] for e in evs),
                            "valid": sum(not e["nan"] and not e["foreign"] for e in evs)}


def C23(chk):
    import helpdrv as D
    os.environ["COLUMNS"] = "160"
    chk.design("MCHelpers", cfg="MCHelpers%s.cfg" % pick("", "_big"))
    tr = [D.table_trace(chash(SEED, "C23", i)) for i in range(pick(250, 4000))]
    chk.conform("HelpTrace", tr, ["*"], "tables of trackers' objects")
    chk.cover["rows"] = {"all": sum(len(e["objs"]) for t in tr for e in t["ev"]),
                         "never_matched": sum(not o["dist"] for t in tr for e in t["ev"] for o in e["objs"])}
    evs = [D.cut_event(chash(SEED, "C23c", i)) for i in range(pick(1500, 25000))] + D.cut_grid()
    chk.conform("HelpTrace", group(evs, 16), ["*"], "cut-outs")


def C25(chk):
    import absdrv as D
    chk.design("MCAbsolute", cfg="MCAbsolute%s.cfg" % pick("", "_big"))
    tr = [D.trail_trace(chash(SEED, "C25", i)) for i in range(pick(450, 8000))]
    chk.conform("AbsTrace", tr, ["*"], "absolute trails")
    chk.cover["trails"] = {"objects drawn": sum(len(e["objs"]) for t in tr for e in t["ev"])}
    tr = [D.grid_trace(chash(SEED, "C25g", i)) for i in range(pick(500, 8000))]
    chk.conform("AbsTrace", tr, ["*"], "absolute grids")
    chk.assumptions.append("one randomly chosen channel of each picture is judged; axis-parallel segments and crosses of thickness 1 are due exactly, "
                           "other lines within a pixel; a coordinate transformation is given to AbsolutePaths.draw")


def C26(chk):
    import pipedrv as D
    big = pick("", "_big")
    chk.design("MCPipe", cfg="MCPipe%s.cfg" % big)
    chk.design("MCPipe", cfg="MCPipe_two%s.cfg" % big)
    root = chk.work.sub("pipe")
    tr = [D.run(chash(SEED, "C26", i), root) for i in range(pick(180, 2000))]
    chk.conform("PipeTrace", tr, ["*"], "runs of the pipeline")
    chk.cover["pipeline"] = {"frames": sum(e["op"] == "frame" for t in tr for e in t["ev"]),
                             "reports": sum(len(e["rep"]) for t in tr for e in t["ev"] if e["op"] == "frame"),
                             "with_reid": sum(t["cfg"]["reid"] for t in tr)}
    chk.assumptions.append("truths keep to lanes of their own, so that no prediction covers two of them; scores are not judged when two "
                           "predictions cover a truth equally well; motmetrics is part of the system under test")


def C27(chk):
    import depsdrv as D
    chk.design("MCDeps", cfg="MCDeps%s.cfg" % pick("", "_big"))
    root = chk.work.sub("deps")
    tr = [D.run(chash(SEED, "C27", i), root) for i in range(pick(220, 3000))]
    chk.conform("DepsTrace", tr, ["*"], "calls in partial installations")
    chk.cover["calls"] = {"in_partial_installations": sum(len(t["ev"]) for t in tr if len(t["inst"]) < 2),
                          "lacking_something": sum(e["out"] != "works" for t in tr for e in t["ev"])}
    chk.assumptions.append("a missing dependency is one whose import raises ImportError in a process of its own; drawing calls are given something to draw")
