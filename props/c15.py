"""C15: Gset and TSPLIB files load faithfully or raise."""
import errno
import math
import os
import pathlib

from sim import fsim
from sim.core import close

RUNS = {"quick": 16000, "thorough": 300000}
BATCH = 50
RULE = ("one run = a history of one to three loads of generated Gset / TSPLIB files (spacing, line ends, comments, header and node order "
        "drawn) from a simulated disk that is healthy, delivers data in small pieces, fails to open or fails in the middle of reading, or "
        "holds a file cut short by a crash (optionally followed by a lost block of zeroes), or one with a garbled byte in a declared number, each followed by a load from the healthy disk. "
        "Loaded graphs are compared with the generated one and with an independent parser of the damaged bytes. "
        "Non-trivial when a fault or truncation took effect; distinct by digest of the event log")
REAL = ["Maxcut.parse_gset_format", "Tsp.parse_tsplib_format", "networkx", "Python's buffered and text I/O layers"]
STUB = ["the disk below Python's raw I/O layer"]
STATE_MEASURE = "hash of (format, mode, tenth of the file at which it was cut or failed, outcome)"
ASSUMPTIONS = ["a file cut inside its last number is indistinguishable from a complete one", "blank lines are not part of the Gset format",
               "distances exactly half way between two integers may be rounded either way"]


class Bad(Exception):
    pass


# ---- Gset --------------------------------------------------------------------------------------
def gset(sim):
    n = 1 + sim.draw(9) if not sim.chance(0.06) else sim.pick([10, 12, 25, 60])
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    m = sim.draw(min(len(pairs), 900) + 1)
    edges = []
    for _ in range(m):
        i, j = pairs.pop(sim.draw(len(pairs)))
        edges.append(((i, j) if sim.chance(0.7) else (j, i)) + (sim.pick([1, -1, 1, 2, 10, -37, 128, 100000, 0]),))
    sep = sim.pick([" ", "\t", "  ", " \t "])
    nl = sim.pick(["\n", "\n", "\r\n"])
    lead = sim.pick(["", "", " "])
    trail = sim.pick(["", "", " "])
    lines = [lead + sep.join([str(n), str(m)]) + trail] + [lead + sep.join([str(i + 1), str(j + 1), str(w)]) + trail for i, j, w in edges]
    text = nl.join(lines) + (nl if sim.chance(0.8) else "")
    return text.encode(), graph_of(n, edges)


def graph_of(n, edges):
    d = {}
    for i, j, w in edges:
        d[(min(i, j), max(i, j))] = float(w)
    return n, d


def parse_gset(data):
    try:
        lines = data.decode().split("\n")
        if lines and not lines[-1].strip():
            lines.pop()
        n, m = (int(t) for t in lines[0].split())
        edges = []
        for l in lines[1:]:
            i, j, w = (int(t) for t in l.split())
            if not (1 <= i <= n and 1 <= j <= n):
                raise Bad("node out of range")
            edges.append((i - 1, j - 1, w))
    except (ValueError, IndexError) as e:
        raise Bad(str(e))
    if len(edges) != m:
        raise Bad("edges missing")
    return graph_of(n, edges)


def load_gset(path):
    from qiskit_optimization.applications import Maxcut
    return Maxcut.parse_gset_format(path)


def view_gset(w):
    n = w.shape[0]
    if w.shape != (n, n):
        return "shape %r" % (w.shape,)
    for i in range(n):
        for j in range(n):
            if w[i, j] != w[j, i]:
                return "asymmetric at %d,%d: %r, %r" % (i, j, w[i, j], w[j, i])
        if w[i, i] != 0:
            return "diagonal entry at %d" % i
    return n, {(i, j): float(w[i, j]) for i in range(n) for j in range(i + 1, n) if w[i, j]}


def diff_gset(want, got):
    if isinstance(got, str):
        return got
    if got[0] != want[0]:
        return "%d nodes instead of %d" % (got[0], want[0])
    w = {k: v for k, v in want[1].items() if v}
    if w != got[1]:
        return "edges %r instead of %r" % (got[1], w)
    return None


# ---- TSPLIB ------------------------------------------------------------------------------------
def number(sim):
    k = sim.draw(7)
    if k < 3:
        v = sim.draw(1200)
        return str(v)
    if k == 3:
        return "%.1f" % (sim.draw(20000) / 10)
    if k == 4:
        return "%.5e" % (sim.draw(100000) / 7.0)
    if k == 5:
        return "-%d.%03d" % (sim.draw(100), sim.draw(1000))
    return sim.pick(["0", "0.0", "+12.5", "3.", "1e2", "565.0"])


def tsplib(sim, unsupported=None):
    n = 1 + sim.draw(8) if not sim.chance(0.05) else sim.pick([10, 11, 24, 52])
    coords = [(number(sim), number(sim)) for _ in range(n)]
    if n > 1 and sim.chance(0.15):
        coords[1] = coords[0]
    sep = sim.pick([" : ", ": ", ":", "\t:\t"])
    head = ["TYPE" + sep + (unsupported[1] if unsupported and unsupported[0] == "TYPE" else "TSP"), "DIMENSION" + sep + str(n),
            "EDGE_WEIGHT_TYPE" + sep + (unsupported[1] if unsupported and unsupported[0] == "EDGE_WEIGHT_TYPE" else "EUC_2D")]
    if sim.chance(0.8):
        head.append("NAME" + sep + sim.pick(["berlin52", "a b c", "TYPE", "x: y"]))
    for _ in range(sim.draw(3)):
        head.append("COMMENT" + sep + sim.pick(["52 locations in Berlin (Groetschel)", "see TYPE : ATSP", "DIMENSION 99", "1 2 3", "", "EOF"]))
    if sim.chance(0.3):
        head.append("NODE_COORD_TYPE" + sep + "TWOD_COORDS")
    if sim.chance(0.3):
        head.append("DISPLAY_DATA_TYPE" + sep + "COORD_DISPLAY")
    order = []
    while head:
        order.append(head.pop(sim.draw(len(head))))
    idx = list(range(n))
    if sim.chance(0.4):
        idx = [idx.pop(sim.draw(len(idx))) for _ in range(n)]
    sp = sim.pick([" ", "  ", "\t"])
    ind = sim.pick(["", " ", "   "])
    lines = order + ["NODE_COORD_SECTION" + sim.pick(["", " "])]
    for i in idx:
        lines.append(ind + sp.join([str(i + 1), *coords[i]]) + sim.pick(["", " "]))
        if sim.chance(0.05):
            lines.append("")
    nl = sim.pick(["\n", "\n", "\r\n"])
    if sim.chance(0.8):
        lines.append("EOF")
    text = nl.join(lines) + sim.pick([nl, "", nl + nl])
    return text.encode(), [(float(a), float(b)) for a, b in coords]


def parse_tsplib(data):
    pos, dim, section = {}, None, False
    try:
        for l in data.decode().replace("\r\n", "\n").split("\n"):
            if l.startswith("EOF"):
                break
            if section:
                if l.strip():
                    t = l.split()
                    pos[int(t[0]) - 1] = (float(t[1]), float(t[2]))
            elif l.startswith("DIMENSION"):
                dim = int(l.split(":")[1])
            elif l.startswith("NODE_COORD_SECTION"):
                section = True
    except (ValueError, IndexError) as e:
        raise Bad(str(e))
    if not dim or set(pos) != set(range(dim)):
        raise Bad("incomplete")
    return [pos[i] for i in range(dim)]


def load_tsplib(path):
    from qiskit_optimization.applications import Tsp
    return Tsp.parse_tsplib_format(path).graph


def view_tsplib(g):
    return (sorted(g.nodes), {i: tuple(float(c) for c in g.nodes[i]["pos"]) for i in g.nodes},
            {(min(a, b), max(a, b)): float(g.edges[a, b]["weight"]) for a, b in g.edges})


def diff_tsplib(want, got):
    nodes, pos, edges = got
    n = len(want)
    if nodes != list(range(n)):
        return "nodes %r instead of %d nodes" % (nodes, n)
    for i in range(n):
        if not all(close(a, b, 1e-12) for a, b in zip(pos[i], want[i])):
            return "node %d at %r instead of %r" % (i, pos[i], want[i])
    if set(edges) != {(i, j) for i in range(n) for j in range(i + 1, n)}:
        return "edges %r are not those of a complete graph" % (sorted(edges),)
    for (i, j), w in edges.items():
        d = math.hypot(want[i][0] - want[j][0], want[i][1] - want[j][1])
        if w != int(w) or abs(w - d) > 0.5 + 1e-9 * max(1.0, d):
            return "distance of %d and %d is %r, should be %r rounded" % (i, j, w, d)
    return None


def digits_of(fmt, data):
    """Positions of the digits of declared numbers (counts, edges, nodes, positions)."""
    out, pos, section = [], 0, fmt == "gset"
    for line in data.split(b"\n"):
        if line.startswith(b"EOF"):
            break
        if section or line.startswith(b"DIMENSION"):
            out += [pos + k for k, ch in enumerate(line) if chr(ch).isdigit()]
        if line.startswith(b"NODE_COORD_SECTION"):
            section = True
        pos += len(line) + 1
    return out


FORMATS = {"gset": (gset, parse_gset, load_gset, view_gset, diff_gset),
           "tsplib": (tsplib, parse_tsplib, load_tsplib, view_tsplib, diff_tsplib)}
UNSUPPORTED = [("TYPE", "ATSP"), ("TYPE", "CVRP"), ("TYPE", "HCP"), ("TYPE", "SOP"), ("EDGE_WEIGHT_TYPE", "GEO"), ("EDGE_WEIGHT_TYPE", "ATT"),
               ("EDGE_WEIGHT_TYPE", "CEIL_2D"), ("EDGE_WEIGHT_TYPE", "EXPLICIT"), ("EDGE_WEIGHT_TYPE", "EUC_3D"), ("EDGE_WEIGHT_TYPE", "MAX_2D")]


def run(sim):
    kept = []
    with fsim.Disk(sim) as disk:
        for step in range(1 + sim.draw(3)):
            fmt = sim.pick(["gset", "tsplib"])
            make, parse, load, view, diff = FORMATS[fmt]
            mode = sim.weighted([(3, "healthy"), (5, "torn"), (3, "read-error"), (2, "open-error"), (2, "pieces"), (1, "missing"), (1, "unsupported"),
                                 (2, "garbled")])
            if mode == "unsupported":
                if fmt != "tsplib":
                    mode = "torn"
            data, want = make(sim, sim.pick(UNSUPPORTED)) if mode == "unsupported" else make(sim)
            name = "f%d" % (step if sim.chance(0.7) else 0)
            disk.arm()
            disk.write(name, data)
            path = disk.path(name)
            arg = pathlib.Path(path) if sim.chance(0.2) else path
            sim.ev("step", fmt, mode, len(data))

            def attempt():
                try:
                    return load(arg), None
                except Exception as e:
                    sim.ev("raised", type(e).__name__)
                    return None, e

            def same(g, ref, what):
                v = view(g)
                d = diff(ref, v)
                sim.check(d is None, "different-graph", lambda: "%s: %s; file:\n%s" % (what, d, disk.read(name).decode("latin1")))
                return v

            if mode == "unsupported":
                g, e = attempt()
                sim.check(e is not None, "unsupported-accepted", lambda: "an unsupported kind of file was loaded:\n%s" % data.decode())
                continue
            if mode == "torn":
                cut = sim.draw(len(data))
                new = data[:cut]
                zero = sim.chance(0.15)
                if zero:
                    new += b"\0" * (1 + sim.draw(len(data) - cut + 5))
                    sim.fault("lost-block")
                sim.fault("file-torn-by-crash")
                sim.probe("nontrivial")
                disk.write(name, new)
                g, e = attempt()
                sim.state(fmt, mode, cut * 10 // len(data), e is None, zero)
                if e is None:
                    ref = want
                    if not zero:
                        try:
                            ref = parse(new)
                        except Bad as b:
                            sim.check(False, "incomplete-file-accepted",
                                      lambda: "%s file cut after %d of %d bytes (%s) was loaded as %r; file:\n%s" % (
                                          fmt, cut, len(data), b, view(g), new.decode("latin1")))
                        sim.probe("torn-but-complete")
                    same(g, ref, "torn")
                disk.write(name, data)
            elif mode == "read-error":
                at = sim.draw(len(data))
                disk.arm(fsim.Plan(read_error=sim.pick([errno.EIO, errno.ESTALE, errno.ENODATA]), read_after=at, chunk=sim.pick([None, 16])))
                g, e = attempt()
                hit = "read-error" in disk.hits
                sim.state(fmt, mode, at * 10 // len(data), hit, e is None)
                if hit:
                    sim.probe("nontrivial")
                if e is None:
                    same(g, want, "read error at %d" % at)
                else:
                    sim.check(hit, "healthy-load-fails", lambda: repr(e))
            elif mode == "open-error":
                disk.arm(fsim.Plan(open_error=sim.pick([errno.EACCES, errno.EIO, errno.EMFILE, errno.ENOENT])))
                g, e = attempt()
                hit = bool(disk.hits)
                sim.state(fmt, mode, hit, e is None)
                if hit:
                    sim.probe("nontrivial")
                if e is None:
                    same(g, want, "open error")
                else:
                    sim.check(hit, "healthy-load-fails", lambda: repr(e))
            elif mode == "missing":
                os.unlink(path)
                sim.fault("missing-file")
                sim.probe("nontrivial")
                g, e = attempt()
                sim.check(e is not None, "missing-file-accepted", lambda: "loading a missing file returned %r" % (view(g),))
                disk.write(name, data)
            elif mode == "garbled":
                # a flipped byte inside a declared number: it is no number any more
                spots = digits_of(fmt, data)
                at = spots[sim.draw(len(spots))]
                bad = sim.pick([b"\xff", b"\xfe", b"?", b"x", b"\0"])
                disk.write(name, data[:at] + bad + data[at + 1:])
                sim.fault("garbled-byte")
                sim.probe("nontrivial")
                g, e = attempt()
                sim.state(fmt, mode, at * 10 // len(data), bad, e is None)
                sim.check(e is not None, "garbled-file-accepted", lambda: "byte %d of %r replaced by %r was loaded as %r" % (at, data, bad, view(g)))
                disk.write(name, data)
            elif mode == "pieces":
                disk.arm(fsim.Plan(chunk=1 + sim.draw(9)))
                g, e = attempt()
                sim.probe("nontrivial")
                sim.check(e is None, "healthy-load-fails", lambda: "%r; file:\n%s" % (e, data.decode()))
                same(g, want, "data in small pieces")
            disk.arm()
            g, e = attempt()
            sim.check(e is None, "healthy-load-fails", lambda: "%r; file:\n%s" % (e, data.decode()))
            kept.append((g, view, same(g, want, "healthy"), fmt))
            sim.state(fmt, mode, "ok")
        for g, view, v, fmt in kept:
            sim.check(view(g) == v, "earlier-graph-changed", lambda: "a %s graph loaded earlier was changed by later loads" % fmt)
