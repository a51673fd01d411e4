"""Writes a minimal Quake .bsp and .prt, runs vis on them and decodes the visibility rows."""
import os, struct, subprocess

VIS = os.path.join(os.getcwd(), "_build/vis/vis")


def write_bsp(path, leafs):
    lumps = [b""] * 15
    lumps[0] = b'{\n"classname" "worldspawn"\n}\n\0'
    lumps[1] = struct.pack("<4fi", 1, 0, 0, 0, 0)  # planes
    lumps[5] = struct.pack("<i2h6h2H", 0, -2, -1, 0, 0, 0, 0, 0, 0, 0, 0)  # node
    leaf = lambda contents: struct.pack("<ii6hHH4B", contents, -1, -64, -64, -64, 64, 64, 64, 0, 0, 0, 0, 0, 0)
    lumps[10] = leaf(-2) + leaf(-1) * leafs
    lumps[14] = struct.pack("<9f4i3i", *([0] * 9), 0, 0, 0, 0, leafs, 0, 0)
    lumps[2] = struct.pack("<i", 0)
    out, pos, d = [], 4 + 15 * 8, b""
    for l in lumps:
        d += struct.pack("<ii", pos, len(l))
        l += b"\0" * (-len(l) % 4)
        out.append(l)
        pos += len(l)
    open(path, "wb").write(struct.pack("<i", 29) + d + b"".join(out))


def write_prt(path, rooms, openings):
    """openings: (room a, room b, [points]) with the winding facing room a"""
    with open(path, "w") as f:
        f.write("PRT1\n%d\n%d\n" % (rooms, len(openings)))
        for a, b, pts in openings:
            f.write("%d %d %d " % (len(pts), a, b) + " ".join("(%r %r %r )" % tuple(map(float, p)) for p in pts) + "\n")


def box_opening(a, b, axis, at, u0, v0, u1, v1):
    """rectangle in the plane axis=at, room a on the negative side"""
    pts = []
    for u, v in ((u0, v0), (u1, v0), (u1, v1), (u0, v1)):
        p = [0, 0, 0]
        p[axis] = at
        p[(axis + 1) % 3] = u
        p[(axis + 2) % 3] = v
        pts.append(p)
    return a, b, pts


def run_vis(base, *args):
    return subprocess.run([VIS, "-noambient", *args, base + ".bsp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def read_pvs(path, leafs):
    d = open(path, "rb").read()
    vo, vl = struct.unpack_from("<ii", d, 4 + 8 * 4)
    lo, _ = struct.unpack_from("<ii", d, 4 + 8 * 10)
    rows = []
    for i in range(leafs):
        ofs = struct.unpack_from("<i", d, lo + 28 * (i + 1) + 4)[0]
        row, p = [], vo + ofs
        while ofs >= 0 and len(row) < (leafs + 7) // 8:
            if d[p]:
                row.append(d[p]); p += 1
            else:
                row += [0] * d[p + 1]; p += 2
        rows.append({j for j in range(leafs) if j // 8 < len(row) and row[j // 8] >> (j % 8) & 1})
    return rows
