"""Spell out scenarios generated by spec/Scenario.tla (or spec/LasamMC.tla): configuration files, soil tables,
forcing files and the recorder's command script.  No choice is made here: every value comes from the scenario."""
import json
import os
import subprocess

UNITS = {"": 1, "[s]": 1, "[sec]": 1, "[min]": 60, "[minute]": 60, "[h]": 3600, "[hr]": 3600, "[d]": 86400, "[day]": 86400}
OUTPUTS = ["precipitation", "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "giuh_runoff",
           "soil_storage", "total_discharge", "infiltration", "percolation", "groundwater_to_stream_recharge", "mass_balance"]


def seconds(pair):
    return float(pair[0]) * UNITS[pair[1]]


def write_config(c, path, soil_path, forcing="unused.csv"):
    cm = c["x"]["cm"]
    form = {"plain": '"Soil %d"', "spaces": '"Sandy clay loam %d"', "bare": "Soil-%d", "long": '"Very fine loamy sand %03d"'}[c["x"]["names"]]
    names = lambda i: form % i
    with open(soil_path, "w") as f:
        f.write('"Texture\ttheta_r\ttheta_e\talpha (cm^-1)\tn\tKs (cm/h)"\n')
        f.write("\n".join("%s\t%s" % (names(i), "\t".join(r)) for i, r in enumerate(c["tab"], 1)) + "\n")
    num = c["x"].get("num", "plain")
    n = (lambda s: s) if num != "sci" else (lambda s: "%.16e" % float(s) if s else s)
    many = lambda v: (", " if num == "spaced" else ",").join(map(n, v))
    dur = lambda q: n(q[0]) + q[1]
    val = {
        "verbosity": c["x"]["verb"], "forcing_file": forcing,
        "soil_params_file": soil_path if c["table"] != "missing" else "",
        "layer_thickness": many(c["lt"]) + cm if c["lt"] else "",
        "initial_psi": n(c["psi0"]) + cm if c["psi0"] else "",
        "timestep": dur(c["ts"]), "endtime": dur(c["et"]), "forcing_resolution": dur(c["fr"]),
        "ponded_depth_max": n(c["pm"]) + cm if c["pm"] else "",
        "use_closed_form_G": c["closed"],
        "layer_soil_type": ",".join(map(str, c["st"])),
        "max_valid_soil_types": c["maxst"],
        "wilting_point_psi": n(c["wp"]) + cm if c["wp"] else "",
        "field_capacity_psi": n(c["fc"]) + cm if c["fc"] else "",
        "giuh_ordinates": many(c["giuh"]),
        "adaptive_timestep": c["adapt"], "sft_coupled": c["sft"],
        "soil_z": many(c["z"]) + cm if c["z"] else "",
        "calib_params": c["calib"],
    }
    lines = ["%s=%s" % (k, val[k]) for k in c["x"]["order"] if val[k] != ""]
    fill = c["x"].get("fill", "none")
    if fill == "lines":
        lines = ["# configuration of a column", ""] + lines[:3] + ["", "#timestep=7[s]", "layers_timestep=17[h]"] + lines[3:] + ["comment=a=b [c]"]
    with open(path, "w") as f:
        f.write("\n".join(lines) + ("" if fill == "noeol" else "\n"))


def bits(x):
    import struct
    hi, lo = struct.unpack(">ii", struct.pack(">d", float(x)))
    return [hi, lo]


def raw(d):
    return "RAW " + json.dumps(d, separators=(",", ":"))


hung = 0  # standalone runs that did not end


def run_standalone(k, c, ops, d, exe, more=0, end="\n", cols=""):
    """Runs the standalone program on the scenario's forcing and turns its files into csv/lay/rows events."""
    os.makedirs(d, exist_ok=True)
    force = [o for o in ops if o[0] == "F"]
    times = ["2020-10-%02d %02d:00:00" % (1 + i // 24 % 28, i % 24) for i in range(len(force))]
    rows = ["%s,%s,%s%s" % (t, o[2], o[3], cols) for t, o in zip(times, force)] + ["2020-11-%02d 00:00:00,33.5,0.7%s" % (1 + i, cols) for i in range(more)]
    with open(d + "/forcing.csv", "w") as f:
        f.write("\n".join(["Time,P(mm/h),PET(mm/h)"] + rows) + end)
    write_config(c, d + "/config.txt", d + "/soil.dat", d + "/forcing.csv")
    global hung
    try:
        if hung >= 2:
            raise subprocess.TimeoutExpired(exe, 0)
        rc = subprocess.run([exe, d + "/config.txt"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
    except subprocess.TimeoutExpired:
        rc = -99
        hung += 1
    ev = []

    def lines(name):
        try:
            return open(d + "/" + name).read().splitlines()
        except OSError:
            return []
    def num(x):
        try:
            return bits(x)
        except ValueError:
            return bits("nan")
    v, la = lines("data_variables.csv"), lines("data_layers.csv")
    header = bool(v) and v[0] == "Time," + ",".join(OUTPUTS)
    for i, ln in enumerate(v[1:]):
        cells = ln.split(",")
        ev.append(raw(dict(e="csv", k=k, row=i + 1, x=[num(z) for z in cells[1:]], time=cells[0], want=times[i] if i < len(times) else "")))
    pairs = list(zip(la[0::2], la[1::2]))
    for i, (h, b) in enumerate(pairs):
        F = []
        for t in b.strip().strip("[]").split("|"):
            q = t.strip("()").split(",")
            if len(q) == 5:
                F.append(dict(d=num(q[0]), t=num(q[1]), l=int(q[2]), n=int(q[3]), p=num(q[4])))
        ok = h.strip() == "# Timestep = %d, %s" % (i, times[i] if i < len(times) else "?")
        ev.append(raw(dict(e="lay", k=k, row=i + 1, F=F, head=ok)))
    ev.append(raw(dict(e="rows", k=k, csv=len(v) - 1, lay=len(pairs), header=header, rc=rc)))
    return ev


def units_script(groups):
    """The same for harness/units.cxx."""
    out = []
    for gid, g in groups:
        for si, sc in enumerate(g["scens"]):
            out += ["SCEN %s.%d" % (gid, si)] + [" ".join(o) for o in sc["ops"]] + [""]
    return out


def script(groups, d, exe=None):
    """groups: list of (group id, {"fam","scens"}); returns the recorder script lines."""
    out = []
    for gid, g in groups:
        for si, sc in enumerate(g["scens"]):
            sid = "%s.%d" % (gid, si)
            out.append("SCEN " + sid)
            cnt, live = {}, set()
            for k, c in enumerate(sc["ins"]):
                if c["table"] == "unused":
                    continue
                p = "%s/%s.%d" % (d, sid, k)
                write_config(c, p + ".txt", p + ".dat")
                out.append(raw(dict(e="cfg", k=k, c=c)))
                out.append("NEW %d %s.txt" % (k, p))
                cnt[k] = 0
                live.add(k)
            for o in sc["ops"]:
                op, a = o[0], o[1:]
                if op == "F":
                    out += ["SET %s precipitation_rate 1 %s" % (a[0], a[1]),
                            "SET %s potential_evapotranspiration_rate 1 %s" % (a[0], a[2]), "UPD " + a[0]]
                    cnt[int(a[0])] += 1
                elif op == "SET":
                    out.append("SET %s %s %d %s" % (a[0], a[1], len(a) - 2, " ".join(a[2:])))
                elif op == "SETIX":
                    out.append("SETIX %s %s %d %s" % (a[0], a[1], (len(a) - 2) // 2, " ".join(a[2:])))
                elif op in ("GET", "TRY", "FLAG"):
                    out.append("%s %s %s" % (op, a[0], a[1]))
                elif op in ("META", "UPD"):
                    out.append("%s %s" % (op, a[0]))
                elif op == "SAME":
                    out.append(raw(dict(e="same", a=int(a[0]), b=int(a[1]), p=a[2], what=a[3])))
                elif op == "REACH":
                    i, j, m, fr = int(a[0]), int(a[1]), int(a[2]), float(a[3])
                    fres = seconds(sc["ins"][i]["fr"])
                    out.append("UNTIL %d %r" % (i, (cnt[i] + m + fr) * fres))
                    k = m + (1 if fr > 0 else 0)
                    out += ["UPD %d" % j] * k
                    cnt[i] += k
                    cnt[j] += k
                elif op == "SAVE":
                    out.append(raw(dict(e="save", k=int(a[0]), name="%s.%s" % (gid, a[0]))))
                elif op == "CMP":
                    out.append(raw(dict(e="cmp", k=int(a[0]), name="%s.%s" % (gid, a[0]), p=a[1], what=a[2])))
                elif op == "CSV":
                    k = int(a[0])
                    out += run_standalone(k, sc["ins"][k], sc["ops"], "%s/%s.sa" % (d, sid), exe, int(a[1]), a[2], a[3])
                elif op == "AGAIN":       # the object is finalized and initialized again, from the configuration of instance a[1]
                    j = int(a[1])
                    out += ["AGAIN " + a[0], raw(dict(e="cfg", k=int(a[0]), c=sc["ins"][j])), "NEW %s %s/%s.%d.txt" % (a[0], d, sid, j)]
                elif op == "FIN":
                    if int(a[0]) in live:
                        live.discard(int(a[0]))
                        out.append("FIN " + a[0])
                else:
                    raise ValueError("unknown call " + op)
            out.append("")
    return out
