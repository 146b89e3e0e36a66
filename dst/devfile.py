"""An independent reader of the native device format, and damage to files."""
import random
import re

SECT = {"begin_coordinates": 3, "begin_nodes": None, "begin_edges": None, "begin_triangles": None, "begin_tetrahedra": None}
MODELS = {"begin_node_model": "node", "begin_edge_model": "edge", "begin_triangle_edge_model": "element",
          "begin_tetrahedron_edge_model": "element", "begin_interface_node_model": "interface",
          "begin_node_solution": "node", "begin_edge_solution": "edge"}


class Odd(Exception):
    pass


class Torn(Odd):
    """A block that never ends: nothing may be made of it."""


def names(line, n):
    f = re.findall(r'"([^"]*)"', line)
    if len(f) != n:
        raise Odd(line)
    return f


def parse(data):
    """[{name, regions: {name: {nodes, models: {(kind, name): (type, values)}, equations}}, contacts, interfaces}]

    Raises Odd for anything that the writers do not write.
    """
    try:
        lines = data.decode("ascii").split("\n")
    except UnicodeDecodeError:
        raise Odd("not ascii")
    out = []
    i = 0
    n = len(lines)

    def block(end):
        nonlocal i
        rows = []
        while True:
            i += 1
            if i >= n:
                raise Odd("no " + end)
            if lines[i] == end:
                return rows
            if lines[i].startswith(("begin", "end")):
                raise Odd(lines[i])
            rows.append(lines[i])

    def ints(rows):
        try:
            return [tuple(int(x) for x in r.split()) for r in rows]
        except ValueError:
            raise Odd("integers")

    def own(command, nm):
        """The command has to be about the thing whose block it is in."""
        for opt, v in (("device", dev["name"]), (kind, curname)):
            m = re.search(r' -%s "([^"]*)"' % opt, command)
            if opt == "device" and not m or m and m.group(1) != v:
                raise Odd(nm)
        m = re.search(r' -name "([^"]*)"', command)
        if m and m.group(1) != nm:
            raise Odd(nm)
        base = re.findall(r' -(?:node|edge|element)_model "([^"]*)"', command)
        if not m and base and not any(nm.startswith(x) for x in base):
            raise Odd(nm)

    dev = cur = None
    kind = curname = None
    while i < n:
        l = lines[i]
        w = l.split(" ")[0]
        if not l:
            pass
        elif w == "begin_device":
            if dev is not None:
                raise Odd(l)
            dev = {"name": names(l, 1)[0], "regions": {}, "contacts": {}, "interfaces": {}, "coordinates": []}
        elif dev is None:
            raise Odd(l)
        elif l == "end_device":
            if cur is not None:
                raise Torn(l)
            out.append(dev)
            dev = None
        elif w == "begin_coordinates" and cur is None:
            try:
                c = [tuple(float(x) for x in r.split()) for r in block("end_coordinates")]
            except ValueError:
                raise Odd("coordinates")
            if any(len(x) != 3 for x in c):
                raise Odd("coordinates")
            dev["coordinates"] += c
        elif w in ("begin_region", "begin_contact", "begin_interface") and cur is None:
            kind = w[6:]
            f = names(l, {"region": 2, "contact": 3, "interface": 3}[kind])
            curname = f[0]
            cur = {"head": f[1:], "models": {}, "equations": {}, "elements": {}}
            if f[0] in dev[kind + "s"]:
                raise Odd("twice " + f[0])
            dev[kind + "s"][f[0]] = cur
        elif cur is not None and l == "end_" + kind:
            cur = None
        elif cur is not None and w in SECT:
            if w in cur["elements"]:
                raise Odd("twice " + w)
            cur["elements"][w[6:]] = ints(block("end_" + w[6:]))
        elif cur is not None and w in MODELS:
            nm = names(l, 1)[0]
            rows = block("end_" + w[6:])
            key = (MODELS[w], nm)
            if key in cur["models"]:
                raise Odd("twice " + nm)
            if w.endswith("solution"):
                rows = ["DATA"] + rows
            if not rows:
                raise Odd(nm)
            t = rows[0].split(" ")[0]
            if t == "DATA":
                try:
                    v = [float(x) for r in rows[1:] for x in r.split()]
                except ValueError:
                    raise Odd(nm)
                cur["models"][key] = ("DATA", v)
            elif t == "UNIFORM" and len(" ".join(rows).split()) == 2:
                try:
                    cur["models"][key] = ("UNIFORM", float(" ".join(rows).split()[1]))
                except ValueError:
                    raise Odd(nm)
            elif t in ("BUILTIN", "DATAPARENT", "COMMAND") and len(rows) == 1:
                if t == "COMMAND":
                    own(rows[0], nm)
                cur["models"][key] = (t, rows[0])
            else:
                raise Odd("%s: %s" % (nm, rows[:3]))
        elif cur is not None and w == "begin_equation":
            nm = names(l, 1)[0]
            rows = block("end_equation")
            if len(rows) != 1 or not rows[0].startswith("COMMAND "):
                raise Odd(nm)
            own(rows[0], nm)
            cur["equations"][nm] = rows[0]
        else:
            raise Odd(l)
        i += 1
    if dev is not None or cur is not None:
        raise Torn("end of file")
    return out


def complete_prefix(data):
    """Names of the devices that the bytes fully contain, and whether something is left over."""
    t = data.decode("latin-1")
    out = []
    pos = 0
    for m in re.finditer(r'^begin_device "([^"]*)"\n(.*?)^end_device(\n|$)', t, re.S | re.M):
        out.append(m.group(1))
        pos = m.end()
    return out, t[pos:].strip("\n \t\0") != ""


# --------------------------------------------------------------------------
def damage(data, d):
    """Applies one damage {k, f, g, s} to the bytes of a file."""
    r = random.Random(d["s"])
    n = len(data)
    at = min(int(d["f"] * n), n - 1)
    k = d["k"]
    if k == "trunc":
        return data[:at]
    if k == "zerotail":
        return data[:at] + b"\0" * (n - at)
    ln = 1 + int(d["g"] * d["g"] * min(4096, n))
    if k == "zerohole":
        return data[:at] + b"\0" * min(ln, n - at) + data[at + ln:]
    if k == "junk":
        j = bytes(r.randrange(256) for _ in range(min(ln, n - at)))
        return data[:at] + j + data[at + ln:]
    if k == "text":
        a = b"0123456789.-+eE \n\t\"begin_endCOMMAND@:/nan"
        j = bytes(r.choice(a) for _ in range(min(ln, n - at)))
        return data[:at] + j + data[at + ln:]
    if k == "flip":
        b = bytearray(data)
        for _ in range(1 + int(d["g"] * 4)):
            b[r.randrange(n)] ^= 1 << r.randrange(8)
        return bytes(b)
    if k == "cut":
        return data[:at] + data[at + ln:]
    if k == "insert":
        return data[:at] + data[r.randrange(n):][:ln] + data[at:]
    lines = data.split(b"\n")
    m = len(lines)
    i = min(int(d["f"] * m), m - 1)
    c = 1 + int(d["g"] * d["g"] * 12)
    if k == "delline":
        del lines[i:i + c]
    elif k == "dupline":
        lines[i:i] = lines[i:i + c]
    elif k == "swap":
        j = r.randrange(m)
        lines[i], lines[j] = lines[j], lines[i]
    elif k in ("number", "name"):
        pat = rb"(?<![\w.\"@])-?\d[\d.eE+-]*" if k == "number" else rb'"[^"]*"'
        idx = [j for j in range(m) if re.search(pat, lines[j])]
        if idx:
            j = idx[min(int(d["f"] * len(idx)), len(idx) - 1)]
            new = r.choice([b"-1", b"999999999", b"99999999999999999999", b"1.5", b"1e400", b"nan", b"0", b"1", b"3", b"-1e-300"]) \
                if k == "number" else r.choice([b'"zzz"', b'""', b'"r0"', b'"u"', b'"d0"', b'"x y"', b'"\xc3\xa9"'])
            ms = list(re.finditer(pat, lines[j]))
            x = r.choice(ms)
            lines[j] = lines[j][:x.start()] + new + lines[j][x.end():]
    elif k in ("index", "count"):
        # one entry of one of the innermost blocks, each kind of block as often as the others
        stack, leaves = [], {}
        for j in range(m):
            if lines[j].startswith((b"begin_", b"$")) and not lines[j].startswith(b"$End"):
                stack.append((lines[j].split(b" ")[0], j))
            elif lines[j].startswith((b"end_", b"$End")) and stack:
                w, q = stack.pop()
                if j > q + 1 and (k == "count" or re.fullmatch(rb"[-+\d.e\s]+", lines[q + 1])) and not any(lines[x].startswith(b"begin_") for x in range(q + 1, j)):
                    leaves.setdefault((stack[-1][0] if stack else b"", w), []).append((q + 1, j))
        if leaves:
            sizes = [e - b for l in leaves.values() for b, e in l]
            b, e = r.choice(leaves[r.choice(sorted(leaves))])
            j = min(b + int(d["f"] * (e - b)), e - 1)
            if k == "count":
                if d["g"] < 0.5:
                    del lines[j]
                else:
                    lines.insert(j, lines[r.randrange(b, e)])
            else:
                ms = list(re.finditer(rb"\S+", lines[j]))
                if ms:
                    x = r.choice(ms)
                    new = r.choice([b"%d" % r.choice(sizes), b"%d" % r.choice(sizes), b"%d" % (r.choice(sizes) - 1), b"%d" % (r.choice(sizes) + 1), r.choice(ms).group(0), b"0", b"-1"])
                    lines[j] = lines[j][:x.start()] + new + lines[j][x.end():]
    elif k == "block":
        b = [j for j in range(m) if lines[j].startswith(b"begin_")]
        if b:
            j = b[min(int(d["f"] * len(b)), len(b) - 1)]
            end = b"end_" + lines[j].split(b" ")[0][6:]
            e = next((q for q in range(j, m) if lines[q] == end), m - 1)
            blk = lines[j:e + 1]
            how = r.choice(["del", "dup", "head", "tail", "move"])
            if how == "del":
                lines[j:e + 1] = []
            elif how == "dup":
                lines[j:j] = blk
            elif how == "head":
                lines[j:e + 1] = blk[:len(blk) // 2]
            elif how == "tail":
                lines[j:e + 1] = blk[len(blk) // 2:]
            else:
                lines[j:e + 1] = []
                q = r.randrange(len(lines))
                lines[q:q] = blk
    return b"\n".join(lines)


KINDS = ["trunc", "trunc", "trunc", "zerotail", "zerohole", "junk", "text", "flip", "cut", "insert", "delline", "delline",
         "dupline", "swap", "number", "number", "number", "name", "name", "block", "block", "index", "index", "index", "count", "count"]
