"""C24: plotting draws exactly the requested parts with their data."""

import itertools
import warnings

import numpy as np

META = {
    "bounds": "single plots: 10 plottable classes x coordinates x all combinations of at most 2 (thorough: 3) keyword options (every alias) and, for nodes, annotation name x offset x options; "
    "scenes: 0-2 transmitters x 0-2 receivers x 11 object lists (thorough: 25) x 8 selections x annotated or not x 18 option sets, on axes that are not the current ones, 14 unusual node names, up to 110 objects; every artist, option and other axes inspected",
    "counting": "state = (scene, selection, options); transition = artist compared; trace = plot call of the real code",
    "assumptions": ["options are given by keyword; sizes and line styles also by position"],
}


def rgba(c, alpha=None):
    from matplotlib.colors import to_rgba

    return np.array(to_rgba(c, alpha))


class Art:
    """What one artist should be."""

    def __init__(self, kind, data, style=None, text=None):
        self.kind, self.data, self.style, self.text = kind, np.asarray(data, dtype=float), style or {}, text

    def check(self, a):
        from matplotlib.collections import PathCollection
        from matplotlib.lines import Line2D
        from matplotlib.text import Annotation

        want = {"dot": PathCollection, "line": Line2D, "text": Annotation}[self.kind]
        if not isinstance(a, want):
            return f"{a} instead of a {want.__name__}"
        if self.kind == "dot":
            got = np.asarray(a.get_offsets(), dtype=float)
        elif self.kind == "line":
            got = np.stack([np.asarray(a.get_xdata(), dtype=float), np.asarray(a.get_ydata(), dtype=float)], -1)
        else:
            got = np.array([a.xy, a.xyann], dtype=float)
            if a.get_text() != self.text:
                return f"text {a.get_text()!r} instead of {self.text!r}"
        if got.shape != self.data.shape or not np.allclose(got, self.data, rtol=1e-6, atol=1e-7):
            return f"{self.kind} at {got.tolist()} instead of {self.data.tolist()}"
        return self.look(a)

    def look(self, a):
        s = dict(self.style)
        alpha = s.get("alpha")
        if self.kind == "text":
            got = {"fontsize": a.get_fontsize(), "color": a.get_color(), "rotation": a.get_rotation()}
            for k, v in s.items():
                if got[k] != v:
                    return f"text {k} {got[k]} instead of {v}"
            return None
        if self.kind == "dot":
            for k, v in (("face", a.get_facecolor()), ("edge", a.get_edgecolor())):
                w = s.get(k, s.get("color"))
                if w is not None and not (len(v) == 1 and np.allclose(v[0], rgba(w, alpha), atol=1e-6)):
                    return f"{k} color {v} instead of {w} ({alpha})"
            if "size" in s and list(a.get_sizes()) != [s["size"]]:
                return f"size {a.get_sizes()} instead of {s['size']}"
            if "marker" in s:
                from matplotlib.markers import MarkerStyle

                m = MarkerStyle(s["marker"])
                p = m.get_path().transformed(m.get_transform())
                if not np.array_equal(a.get_paths()[0].vertices, p.vertices):
                    return f"marker is not {s['marker']}"
            if "lw" in s and list(np.atleast_1d(a.get_linewidth())) != [s["lw"]]:
                return f"line width {a.get_linewidth()} instead of {s['lw']}"
            if "ls" in s:
                dashed = a.get_linestyle()[0][1] is not None
                kind = "-" if not dashed else {2: "--", 4: "-."}[len(a.get_linestyle()[0][1])]
                if kind == "--" and a.get_linestyle()[0][1][0] < 2 * a.get_linestyle()[0][1][1]:
                    kind = ":"
                if kind != s["ls"]:
                    return f"line style {kind} instead of {s['ls']}"
        else:
            if "color" in s and not np.allclose(rgba(a.get_color()), rgba(s["color"])):
                return f"color {a.get_color()} instead of {s['color']}"
            if alpha is not None and a.get_alpha() != alpha:
                return f"alpha {a.get_alpha()}"
            if "lw" in s and a.get_linewidth() != s["lw"]:
                return f"line width {a.get_linewidth()}"
            if "ls" in s and a.get_linestyle() != s["ls"]:
                return f"line style {a.get_linestyle()} instead of {s['ls']}"
            if "marker" in s and a.get_marker() != s["marker"]:
                return f"marker {a.get_marker()}"
        if "label" in s and a.get_label() != s["label"]:
            return f"label {a.get_label()!r} instead of {s['label']!r}"
        if "zorder" in s and a.get_zorder() != s["zorder"]:
            return f"zorder {a.get_zorder()} instead of {s['zorder']}"
        return None


# keyword -> what it sets
COMMON = [("color", "k", "color"), ("c", "m", "color"), ("alpha", 0.3, "alpha"), ("label", "lab", "label"), ("zorder", 7.5, "zorder")]
DOT = [("marker", "s", "marker"), ("s", 55.0, "size"), ("linewidth", 2.5, "lw"), ("lw", 2.5, "lw")]
VERTEX = [("linestyle", "-", "ls"), ("ls", ":", "ls"), ("edgecolors", "r", "edge"), ("edgecolor", "r", "edge"), ("ec", "r", "edge"), ("facecolor", "g", "face"), ("fc", "g", "face"), ("facecolors", "g", "face"), ("linewidths", 1.5, "lw")]
LINE = [("linestyle", "--", "ls"), ("ls", ":", "ls"), ("linewidth", 2.5, "lw"), ("lw", 3.5, "lw"), ("marker", "x", "marker")]
DEFAULT = {
    "point": {"color": "red", "marker": "o"},
    "vertex": {"edge": "black", "face": (1.0, 1.0, 0.0, 0.5), "ls": "--", "marker": "o"},
    "line": {"color": "blue", "ls": "-", "marker": "None"},
    "ris": {"color": "green", "ls": "-", "marker": "None"},
    "path": {"color": "orange", "ls": "-", "marker": "None"},
}


def styled(kind, given):
    """The style expected from keyword options {key: (value, what)} on an object of a kind."""
    s = dict(DEFAULT[kind])
    if any(w == "color" for _, w in given.values()):
        s.pop("edge", None)
        s.pop("face", None)
    for v, w in given.values():
        s[w] = v
    return s


class Stage:
    """Two axes, of which the first is drawn on and the second is the current one."""

    def __init__(self):
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        self.plt = plt
        self.fig, (self.ax, self.other) = plt.subplots(1, 2)
        plt.sca(self.other)

    def run(self, res, fn, want, case):
        """Draws by fn(ax), compares all artists with the expected ones, and cleans up."""
        before = self.ax.get_children()
        others = [self.other.get_children(), self.fig.get_children(), self.plt.get_fignums()]
        out = list(fn(self.ax))
        new = [a for a in self.ax.get_children() if not any(a is b for b in before)]
        ok = len(out) == len(want)
        res.expect(ok, lambda: f"{len(out)} artists instead of {len(want)}: {out}", case)
        ids = [id(a) for a in out]
        ok = len(set(ids)) == len(ids) and set(ids) == {id(a) for a in new}
        res.expect(ok, lambda: f"returned {out} but drew {new}", case)
        ok = others == [self.other.get_children(), self.fig.get_children(), self.plt.get_fignums()] and self.plt.gca() is self.other
        res.expect(ok, "something else than the given axes was touched", case)
        for w, a in zip(want, out):
            msg = w.check(a)
            res.expect(msg is None, msg, case)
        for a in new:
            a.remove()
        res.add(states=1, transitions=max(len(want), 1), traces=1)


COORDS = [[(0.0, 0.0), (1.0, 2.0), (-3.5, 0.25), (7.0, 7.0), (0.1, -40.0)], [(2.0, -1.0), (2.0, -1.0), (0.0, 3.0), (5.0, 1e-3), (1.0, 1.0)]]


def things():
    from differt2d import geometry as G

    out = []
    for cs in COORDS:
        f = [np.float32(c) for c in cs]
        out += [("point", G.Point(xy=f[k]), "dot", [cs[k]]) for k in (0, 2)]
        out += [("vertex", G.Vertex(xy=f[k]), "dot", [cs[k]]) for k in (1, 4)]
        out += [("line", G.Ray(xys=np.stack(f[:2])), "line", cs[:2]), ("line", G.Wall(xys=np.stack(f[1:3])), "line", cs[1:3])]
        out += [("ris", G.RIS(xys=np.stack(f[2:4]), phi=0.1), "line", cs[2:4])]
        for cls, n in (("Path", 2), ("Path", 5), ("ImagePath", 3), ("FermatPath", 4), ("MinPath", 3)):
            out.append(("path", getattr(G, cls)(xys=np.stack(f[:n])), "line", cs[:n]))
    return out


def shard_single(ctx, res, arg):
    part, parts = arg
    st = Stage()
    top = 3 if ctx.deep else 2
    for kind, obj, art, data in things()[part::parts]:
        opts = COMMON + {"point": DOT, "vertex": DOT + VERTEX}.get(kind, LINE)
        sets = [x for n in range(top + 1) for x in itertools.combinations(opts, n)]
        sets = [x for x in sets if len({w for *_, w in x}) == len(x)]
        # setting the color of a vertex and that of a part of it is not a default against a user style
        sets = [x for x in sets if not ({"edge", "face"} & {w for *_, w in x} and "color" in {w for *_, w in x})]
        for x in sets:
            given = {k: (v, w) for k, v, w in x}
            kw = {k: v for k, v, _ in x}
            case = {"class": type(obj).__name__, "data": data, "options": kw}
            s = styled(kind, given)
            with res.case(case):
                st.run(res, lambda ax: obj.plot(ax, **kw), [Art(art, data, s)], case)
                res.expect(kw == {k: v for k, v, _ in x}, "the options were changed", case)
        if art == "dot":
            for name, off, akw, sets2 in itertools.product(
                (None, "", "TX", "$a_1$"), (None, (0.0, 0.0), (0.1, -2.0), [3, 4]), (None, {}, {"fontsize": 13.0, "color": "red"}), ({}, {"color": ("k", "color")})
            ):
                kw = {k: v for k, v in (("annotate", name), ("annotate_offset", off), ("annotate_kwargs", akw)) if v is not None}
                kw.update({k: v for k, (v, _) in sets2.items()})
                case = {"class": type(obj).__name__, "data": data, "options": kw}
                want = [Art("dot", data, styled(kind, sets2))]
                if name:
                    want.append(Art("text", [data[0], np.array(data[0]) + (off or (0.0, 0.0))], akw, name))
                with res.case(case):
                    keep = dict(akw) if akw else akw
                    st.run(res, lambda ax: obj.plot(ax, **kw), want, case)
                    res.expect(akw == keep, "the annotation options were changed", case)
            case = {"class": type(obj).__name__, "position": "size"}
            with res.case(case):
                st.run(res, lambda ax: obj.plot(ax, 33.0), [Art("dot", data, {**DEFAULT[kind], "size": 33.0})], case)
            case = {"class": type(obj).__name__, "position": "size and color"}
            with res.case(case):
                try:
                    n = len(st.ax.get_children())
                    a = obj.plot(st.ax, 20, "k")[0]
                    if np.allclose(a.get_facecolor()[0], rgba("k")):
                        a.remove()
                    elif kind == "vertex":
                        res.finding("positional-color")
                        a.remove()
                    else:
                        res.violation(f"color {a.get_facecolor()}", case)
                except ValueError as e:
                    if "'color' kwarg but not both" not in str(e):
                        raise
                    res.finding("positional-color")
                res.expect(len(st.ax.get_children()) == n, "artists are left", case)
        else:
            for fmt, s in (("--", {"ls": "--"}), (":s", {"ls": ":", "marker": "s"})):
                case = {"class": type(obj).__name__, "format": fmt}
                with res.case(case):
                    st.run(res, lambda ax: obj.plot(ax, fmt), [Art("line", data, {**DEFAULT[kind], **s})], case)
            case = {"class": type(obj).__name__, "format": "m--"}
            with res.case(case):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    (a,) = obj.plot(st.ax, "m--")
                if a.get_color() == DEFAULT[kind]["color"]:
                    res.finding("positional-color")
                else:
                    res.expect(a.get_color() == "m", f"color {a.get_color()}", case)
                a.remove()
        if res.full():
            return
    res.sample(case)


CODES = ["", "W", "R", "V", "2", "0", "WR", "VW", "2W0", "RVW", "W2V"]
MORE = ["WW", "RR", "VV", "22", "00", "RW", "WV", "VR", "RV", "W0W", "0W2", "WRVW", "VWVR", "22W"]
# (positional, common, transmitters, objects, receivers): keyword -> (value, what); positional for groups under None
OPTIONS = [
    {},
    {"t": {"color": ("k", "color"), "s": (50.0, "size")}},
    {"o": {"color": ("m", "color"), "linewidth": (3.0, "lw")}},
    {"r": {"marker": ("s", "marker"), "c": ("c", "color")}},
    {"all": {"alpha": (0.3, "alpha")}},
    {"all": {"zorder": (7.0, "zorder")}, "o": {"zorder": (9.0, "zorder")}},
    {"all": {"color": ("k", "color")}},
    {"all": {"color": ("k", "color"), "label": ("x", "label")}, "t": {"color": ("y", "color")}, "r": {"label": ("rx", "label")}},
    {"t": {"alpha": (0.5, "alpha"), "label": ("t", "label")}, "o": {"alpha": (0.25, "alpha"), "label": ("o", "label")}, "r": {"alpha": (0.75, "alpha"), "label": ("r", "label")}},
    {"t": {"annotate_offset": (0.1, -0.2), "annotate_kwargs": {"fontsize": 13.0}}},
    {"r": {"annotate_offset": (-1.0, 2.0), "annotate_kwargs": {"color": "red"}, "color": ("b", "color")}},
    {"t": {None: (44.0,)}, "r": {None: (66.0,)}},
    {"o": {None: (":",)}, "lines": True},
    {"all": {None: (21.0,)}, "dots": True},
    {"o": {None: (17.0,)}, "dots": True, "r": {"color": ("k", "color")}},
    {"all": {None: (None,)}, "t": {None: (44.0,)}, "r": {None: (66.0,)}, "o": {None: ("q", 3)}, "custom": True},
    {"all": {"c": ("g", "color")}},
    {"all": {"marker": ("s", "marker")}, "r": {"marker": ("d", "marker")}},
]  # fmt: skip
NAMES = [["tx"], ["b", "a"], ["rx"], ["a", "z z"]]


def shard_scene(ctx, res, arg):
    import jax.numpy as jnp
    from differt2d import geometry as G
    from differt2d.scene import Scene

    st = Stage()
    log = []

    class Custom(G.Wall):
        """An object that draws n lines and remembers how it was asked to."""

        n: int = 0

        def plot(self, ax, *args, **kwargs):
            log.append((args, kwargs))
            return [ax.plot([k, self.n], [0.0, 1.0])[0] for k in range(self.n)]

    part, parts = arg
    codes = CODES + (MORE if ctx.deep else [])
    grid = list(itertools.product(range(3), range(3), codes))[part::parts]
    for nt, nr, code in grid:
        pos = [(0.5 * k, 1.0 - k) for k in range(9)]
        tn, rn = (NAMES[nt - 1] if nt else []), (NAMES[nr + 1] if nr else [])
        tx = {n: G.Point(xy=jnp.array(pos[i])) for i, n in enumerate(tn)}
        rx = {n: G.Point(xy=jnp.array(pos[i + 3])) for i, n in enumerate(rn)}
        objs = []
        for i, c in enumerate(code):
            xys = jnp.array([pos[i], pos[i + 5]])
            if c == "V":
                objs.append(G.Vertex(xy=xys[0]))
            elif c in "02":
                objs.append(Custom(xys=xys, n=int(c)))
            else:
                objs.append({"W": G.Wall, "R": G.RIS}[c](xys=xys))
        scene = Scene(transmitters=tx, receivers=rx, objects=objs)
        sel = list(itertools.product((True, False), repeat=3))
        for (t, o, r), ann, oi in itertools.product(sel, (True, False), range(len(OPTIONS))):
            if not ctx.deep and oi and (oi + nt + 3 * nr + len(code) + 2 * t + o) % 3 and not (nt and nr and code in ("W", "RVW")):
                continue
            opt = OPTIONS[oi]
            if opt.get("lines") and set(code) - set("WR02") or opt.get("dots") and set(code) - set("V02") or opt.get("custom") and set(code) - set("02"):
                continue
            case = {"transmitters": tn, "receivers": rn, "objects": code, "select": [t, o, r], "annotate": ann, "options": opt}
            groups = {g: {**opt.get("all", {}), **opt.get(g, {})} for g in "tor"}
            posit = {g: opt.get(g, {}).get(None, ()) + opt.get("all", {}).get(None, ()) for g in "tor"}
            for g in groups.values():
                g.pop(None, None)
            want = []
            for on, nodes, names, g, col in ((t, tx, tn, "t", "blue"), (None, None, None, None, None), (r, rx, rn, "r", "green")):
                if nodes is None:
                    if not o:
                        continue
                    for i, (c, ob) in enumerate(zip(code, objs)):
                        if c in "02":
                            want += [Art("line", [(k, int(c)), (0.0, 1.0)]) for k in range(int(c))]
                            for k in range(int(c)):
                                want[-1 - k].data = np.array([[int(c) - 1 - k, 0.0], [int(c), 1.0]])
                            continue
                        kind = {"V": "vertex", "W": "line", "R": "ris"}[c]
                        s = styled(kind, groups["o"])
                        if posit["o"]:
                            s["size" if c == "V" else "ls"] = posit["o"][0]
                        want.append(Art("dot" if c == "V" else "line", [pos[i]] if c == "V" else [pos[i], pos[i + 5]], s))
                    continue
                if not on:
                    continue
                for i, n in enumerate(names):
                    xy = np.array(pos[i] if g == "t" else pos[i + 3])
                    given = {k: v for k, v in groups[g].items() if not k.startswith("annotate")}
                    s = styled("point", given)
                    if not any(w == "color" for _, w in given.values()):
                        s["color"] = col
                    if posit[g]:
                        s["size"] = posit[g][0]
                    want.append(Art("dot", [xy], s))
                    if ann:
                        want.append(Art("text", [xy, xy + groups[g].get("annotate_offset", (0.0, 0.0))], groups[g].get("annotate_kwargs"), n))

            def plain(d):
                return {k: (v if k.startswith("annotate") else v[0]) for k, v in d.items() if k is not None}

            kw = dict(plain(opt.get("all", {})))
            for g, name in (("t", "transmitters"), ("o", "objects"), ("r", "receivers")):
                if g in opt:
                    if plain(opt[g]):
                        kw[name + "_kwargs"] = plain(opt[g])
                    if None in opt[g]:
                        kw[name + "_args"] = opt[g][None]
            flags = {k: v for k, v in (("transmitters", t), ("objects", o), ("receivers", r), ("annotate", ann)) if not v or oi % 2}
            keep = {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
            log.clear()
            with res.case(case):
                st.run(res, lambda ax: scene.plot(ax, *opt.get("all", {}).get(None, ()), **flags, **kw), want, case)
                res.expect(kw == keep, "the options were changed", case)
                calls = [(posit["o"], plain(groups["o"]))] * sum(c in "02" for c in code) if o else []
                res.expect(log == calls, lambda: f"objects asked with {log} instead of {calls}", case)
        if res.full():
            return
    st.plt.close(st.fig)
    res.sample(case)


def shard_names(ctx, res, _):
    """Unusual names, many nodes and objects, the same node and object several times."""
    import jax.numpy as jnp
    from differt2d import geometry as G
    from differt2d.scene import Scene

    st = Stage()
    names = ["_a", "__init__", "é", "$x_1$", "0", "-", " ", "None", "tx", "a\nb", "_", "label", "ax", "_nolegend_"]
    p, q = G.Point(xy=jnp.array([1.0, 2.0])), G.Point(xy=jnp.array([-1.0, 0.5]))
    for k, (n, side) in enumerate(itertools.product(names, ("transmitters", "receivers"))):
        for nodes in ({n: p}, {n: p, "z": p}, {"z": q, n: p}):
            case = {"side": side, "names": list(nodes)}
            want = []
            for m, v in nodes.items():
                xy = np.asarray(v.xy)
                want += [Art("dot", [xy], {"color": "blue" if side == "transmitters" else "green", "marker": "o"}), Art("text", [xy, xy], None, m)]
            with res.case(case):
                s = Scene(**{side: nodes})
                st.run(res, lambda ax: s.plot(ax), want, case)
                st.run(res, lambda ax: s.plot(ax, annotate=False), want[::2], case)
            if res.full():
                return
    w = G.Wall(xys=jnp.array([[0.0, 0.0], [1.0, 1.0]]))
    for nt, nr, no in ((0, 0, 2), (1, 1, 3), (12, 1, 0), (1, 12, 5), (11, 11, 25), (2, 2, 110)):
        case = {"many": [nt, nr, no]}
        tx = {f"t{(7 * i) % 13}": G.Point(xy=jnp.array([i, -i / 2])) for i in range(nt)}
        rx = {f"t{(5 * i) % 13}": G.Point(xy=jnp.array([-i, i / 4])) for i in range(nr)}
        objs = [w if i % 3 == 0 else G.Wall(xys=jnp.array([[i, 0.0], [0.0, i]], dtype=float)) for i in range(no)]
        want = []
        for nodes, col in ((tx, "blue"), (None, None), (rx, "green")):
            if nodes is None:
                want += [Art("line", np.asarray(o.xys), DEFAULT["line"]) for o in objs]
                continue
            for m, v in nodes.items():
                xy = np.asarray(v.xy)
                want += [Art("dot", [xy], {"color": col, "marker": "o"}), Art("text", [xy, xy], None, m)]
        with res.case(case):
            s = Scene(transmitters=tx, receivers=rx, objects=objs)
            st.run(res, lambda ax: s.plot(ax), want, case)
            st.run(res, lambda ax: s.plot(ax), want, case)
    st.plt.close(st.fig)
    res.sample(case)


def dispatch(ctx, res, s):
    {"one": shard_single, "scene": shard_scene, "names": shard_names}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    n = 16
    jobs = [("scene", (i, n)) for i in range(n)] + [("one", (i, 8)) for i in range(8)]
    run_shards(ctx, res, dispatch, [("names", 0)] + jobs)
