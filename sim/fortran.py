"""The Fortran program (harmonisation_meiv_demo): job and match-up files made from a seed, and what it has to do with them.

A case is a small JSON object: a job (sensor columns, flags, names) over one to six match-up data sets. `Case(case)` holds
the numbers, computed here from the case alone; `lay(folder)` writes the files the program reads; `memory()` is what the
program has to hold in memory after reading them; `output(...)` what it has to write."""

import glob
import os
import random

import numpy as np

R = {1: 1, 2: 4, 3: 4, 4: 4}        # telemetry columns each sensor of the demonstration uses
N = {1: 0, 2: 3, 3: 3, 4: 3}        # and its calibration parameters
EQ = {1: 0, 2: 101, 3: 101, 4: 101}
BIG = float(np.sqrt(np.finfo(np.float32).max))
UUID = "02b650e8-d476-48fc-881b-71ad0ea8c025"
OTHER = "9cab83ea-4f89-45d1-91ad-d9a17f225583"

# what may be renamed in the run configuration: key -> the name or text without it
ATT = {"cost": "cost", "cost_reduced": "cost_reduced", "cost_p_value": "cost_p_value", "cost_matchup": "cost_matchup",
       "cost_sensors": "cost_sensors", "job": "job", "job_id": "job_id", "uuid": "uuid", "k_res_mean": "K_res_mean",
       "k_res_sdev": "K_res_sdev", "matchup_dataset_id": "matchup_dataset", "matchup_dataset_begin": "matchup_dataset_begin",
       "matchup_dataset_end": "matchup_dataset_end", "matchup_dataset_uuid": "matchup_dataset_uuid", "sensor_i": "sensor_1_name",
       "sensor_j": "sensor_2_name", "number_of_matchups": "number_of_matchups", "software": "software",
       "software_version": "software_version", "software_tag": "software_tag"}
DIM = {"l_name": "l_name", "l_uuid": "l_uuid", "m": "M", "n": "n"}
VAR = {"cost": ("cost", "The cost associated with a matchup dataset"),
       "cost_reduced": ("cost_reduced", "The reduced cost associated with a matchup dataset"),
       "time": ("t", "The time of measurement"),
       "x": ("parameter", "The harmonisation parameters"),
       "x_add_offset": ("parameter_add_offset", "The harmonisation parameter add offsets (used internally only)"),
       "x_scale_factor": ("parameter_scale_factor", "The harmonisation parameter scale factors (used internally only)"),
       "x_cor": ("parameter_correlation_matrix", "The harmonisation parameter error correlation matrix"),
       "x_cov": ("parameter_covariance_matrix", "The harmonisation parameter error covariance matrix"),
       "x_names": ("parameter_name", "The names of the harmonisation parameters or the names of the sensors associated with them"),
       "x_unc": ("parameter_uncertainty", "The harmonisation parameter uncertainties"),
       "k_res": ("K_res", "The harmonisation residual"),
       "k_res_unc": ("K_res_uncertainty", "The uncertainty of the harmonisation residual"),
       "k_res_weights": ("K_res_weights", "The weights of the harmonisation residual"),
       "k_res_mean": ("K_res_mean", "The mean harmonisation residual"),
       "k_res_sdev": ("K_res_sdev", "The standard deviation of the harmonisation residual"),
       "matchup_sensor_names": ("matchup_sensor_names", "The sensors associated with a matchup dataset"),
       "matchup_dataset_uuids": ("matchup_dataset_uuid", "The UUID associated with a matchup dataset"),
       "number_of_matchups": ("number_of_matchups", "The number of matchups in a matchup dataset"),
       "sensor_equation_id": ("sensor_equation_id", "The sensor equation identifiers"),
       "sensor_equation_x_count": ("sensor_equation_parameter_count", "The number of sensor equation parameters"),
       "sensor_names": ("sensor_name", "The sensor names")}


# ------------------------------------------------------------------------------------------------ cases
def gen(rng, big=False, rename=0.3):
    common = rng.random() < 0.4
    pairs = [(i, j) for i in (1, 2, 3, 4) for j in (2, 3, 4) if i < j]
    rng.shuffle(pairs)
    pairs = pairs[:rng.choice([1, 1, 2, 3, 3, 4, 6])]
    ds = []
    for i, j in pairs:
        least = lambda k: R[k] if common else (R[k] + 1) // 2
        m1, m2 = (least(k) + rng.choice([0, 0, 1, 2, 4]) for k in (i, j))
        structured = rng.random() < 0.45
        t = [1, 1, 2, 3, 4] if structured else [1, 1, 2]
        d = {"i": i, "j": j, "M": rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 17] + ([60, 200] if big else [])), "m1": m1, "m2": m2,
             "s": rng.choice([1, 1, 1, 2, 3, 5]), "types1": [rng.choice(t) for _ in range(m1)], "types2": [rng.choice(t) for _ in range(m2)],
             "nw": rng.choice([1, 1, 2, 3]), "base": rng.choice([0, 0, 1]), "down": rng.random() < 0.15, "wide": rng.choice([1, 2, 4]),
             "gaps": rng.random() < 0.3, "empty": rng.random() < 0.2, "format": rng.choice(["NETCDF4", "NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_64BIT_OFFSET"]),
             "double": rng.random() < 0.3, "zip": rng.random() < 0.4, "uuid": rng.random() < 0.6, "seed": rng.randrange(1 << 30),
             "absent": [], "matrices": None, "odd": rng.random() < 0.4}
        use = any(x in (3, 4) for x in d["types1"] + d["types2"])
        d["matrices"] = use or rng.random() < 0.15
        for v in ("Us1", "Us2", "Ur1", "Ur2", "type1", "type2", "K", "Kr", "Ks", "track1", "track2"):
            if rng.random() < (0.5 if v.startswith("track") else 0.12):
                if v.startswith("type") and use:
                    continue
                d["absent"].append(v)
        ds.append(d)
    select = {}
    for k in (1, 2, 3, 4):
        room = [(d["m1"] if d["i"] == k else d["m2"]) * (1 if common else 2) for d in ds if k in (d["i"], d["j"])]
        if room and rng.random() < 0.5:
            c = list(range(1, min(room) + 1))
            rng.shuffle(c)
            select[str(k)] = c[:R[k]]
    names = {}
    if rng.random() < rename:
        for _ in range(rng.choice([1, 2, 5])):
            g = rng.choice(["att", "dim", "var", "desc"])
            k = rng.choice(sorted({"att": ATT, "dim": DIM}.get(g, VAR)))
            names["%s %s" % (g, k)] = "%s_%s" % (rng.choice(["my", "harm", "Q"]), k[::-1])
    return {"common": common, "matrix": rng.random() < 0.6, "update": rng.random() < 0.5, "unit": rng.choice(["", "", "K", "mW m-2 sr-1 cm"]),
            "id": rng.choice(["01", "EIV_101_01_RSW_", "job-7"]), "ds_id": rng.choice(["", "PH______TEST_01_RSW_"]), "select": select,
            "config": rng.random() < 0.5, "log": rng.choice([None, 1, 2, 3, 4, 4, 6, 7]), "runfile": rng.choice(["run", "run", "preferences", "both"]),
            "via": rng.choice(["run", "run", "run", "default", "stdin"]), "sub": rng.random() < 0.5, "names": names, "ds": ds,
            "software": rng.choice([None, None, "FO", "SW2"]), "called": None, "called_res": None}


def shrink(c):
    import copy
    for k in range(len(c["ds"])):
        if len(c["ds"]) > 1:
            q = copy.deepcopy(c)
            del q["ds"][k]
            yield q
    for key, v in (("names", {}), ("select", {}), ("unit", ""), ("log", None), ("via", "run"), ("runfile", "run"), ("sub", False),
                   ("config", False), ("software", None), ("common", False)):
        if c[key] != v and not (key == "common" and any(True for _ in c["select"])):
            yield dict(copy.deepcopy(c), **{key: v})
    for k, d in enumerate(c["ds"]):
        for key, v in (("M", 1), ("M", 2), ("M", d["M"] // 2), ("s", 1), ("format", "NETCDF4"), ("double", False), ("zip", False), ("absent", []),
                       ("base", 0), ("down", False), ("gaps", False), ("empty", False), ("wide", 1), ("nw", 1), ("odd", False), ("uuid", False)):
            if d[key] != v and v != 0 or (key == "base" and d[key]):
                q = copy.deepcopy(c)
                q["ds"][k][key] = v
                yield q
        for t in ("types1", "types2"):
            if set(d[t]) != {1}:
                q = copy.deepcopy(c)
                q["ds"][k][t] = [1] * len(d[t])
                yield q


class Case(object):
    def __init__(self, c):
        self.c = c
        self.ds = [self.numbers(d) for d in c["ds"]]

    # -------------------------------------------------------------------------------------------- the numbers
    def numbers(self, d):
        rng = np.random.RandomState(d["seed"])
        M, f4 = d["M"], np.float32
        v = {}
        for q in ("1", "2"):
            m = d["m" + q]
            v["X" + q] = (rng.rand(M, m) * 1000 - 100).astype(f4)
            v["Ur" + q] = (rng.rand(M, m) * 2 + 0.01).astype(f4)
            v["Us" + q] = (rng.rand(M, m)).astype(f4)
            v["type" + q] = np.array(d["types" + q], dtype=np.int32)
            v["time" + q] = np.sort(rng.rand(M) * 1e9)
            v["track" + q] = rng.randint(0, 409, M).astype(np.int32)
        v["K"], v["Kr"], v["Ks"] = (rng.randn(M).astype(f4), (rng.rand(M) + 0.1).astype(f4), rng.rand(M).astype(f4))
        if d["odd"]:  # extreme and yet valid
            v["X1"].flat[rng.randint(v["X1"].size)] = f4(BIG * 0.999)
            v["X2"].flat[rng.randint(v["X2"].size)] = f4(-BIG * 0.999)
            v["Ur2"].flat[rng.randint(v["Ur2"].size)] = 0
            v["Ks"][rng.randint(M)] = 0
            v["Kr"][rng.randint(M)] = f4(-1.5)
            v["time1"][rng.randint(M)] = -1e9
        if d["matrices"]:
            nw, nu = d["nw"], d["nw"] + rng.randint(2)
            of = list(range(nw)) + [rng.randint(nw) for _ in range(nu - nw)]
            rows, cols, vals, width = [], [], [], []
            for k in range(nw):
                p, ja, a, at = [0], [], [], 0
                for r in range(M):
                    at += rng.randint(0, 3) if r else 0
                    w = rng.randint(0 if d.get("empty") and r else 1, d["wide"] + 1)
                    cs = list(range(at, at + w))
                    if d["gaps"] and w > 2:
                        del cs[1]
                    if d["down"]:
                        cs = cs[::-1]
                    ja += cs
                    a += list((rng.rand(len(cs)) + 0.05).astype(f4))
                    p.append(len(ja))
                rows.append(p)
                cols.append(ja)
                vals.append(np.array(a, dtype=f4))
                width.append(max(ja) + 1 + rng.randint(2))
            v["W"] = (rows, cols, vals)
            v["U"] = [(rng.rand(width[of[l]]) + 0.2).astype(f4) for l in range(nu)]
            for q in ("1", "2"):
                s = np.isin(v["type" + q], (3, 4))
                ul = rng.randint(0, nu, len(s))
                v["use_u" + q] = np.where(s, ul + 1, 0).astype(np.int32)
                v["use_w" + q] = np.where(s, np.array(of)[ul] + 1, 0).astype(np.int32)
        if d["double"]:
            for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks"):
                v[k] = v[k].astype(np.float64) * (1 if np.abs(v[k]).max() > 1e18 else 1 + 2.0 ** -40)
        v["uuid"] = "%08x-0000-4000-8000-%012x" % (d["seed"], d["seed"] * 7) if d["uuid"] else ""
        return v

    # -------------------------------------------------------------------------------------------- the files
    def name_of(self, k):
        d = self.c["ds"][k]
        return "%d_%d.nc" % (d["i"] - 1, d["j"] - 1)

    def variables(self, k):
        """[(name in the file, dimensions, array)] of data set k."""
        d, v = self.c["ds"][k], self.ds[k]
        out = []
        for q in ("1", "2"):
            for n in ("X", "Ur", "Us"):
                if n + q not in d["absent"]:
                    out.append((n + q, ("M", "m" + q), v[n + q]))
            if "type" + q not in d["absent"]:
                out.append(("uncertainty_type" + q, ("m" + q,), v["type" + q]))
            out.append(("time" + q, ("M",), v["time" + q]))
            if "track" + q not in d["absent"]:
                out.append(("across_track_index" + q, ("M",), v["track" + q]))
        out += [(n, ("M",), v[n]) for n in ("K", "Kr", "Ks") if n not in d["absent"]]
        if d["matrices"]:
            rows, cols, vals = v["W"]
            b = d["base"]
            out += [("w_matrix_nnz", ("w_matrix_count",), np.array([len(x) for x in cols], dtype=np.int32) + v.get("nnz", np.int32(0))),
                    ("w_matrix_row", ("w_matrix_count", "w_matrix_row_count"), np.array(rows, dtype=np.int32) + b),
                    ("w_matrix_col", ("w_matrix_nnz_sum",), np.array(sum(cols, []), dtype=np.int32) + b),
                    ("w_matrix_val", ("w_matrix_nnz_sum",), np.concatenate(vals)),
                    ("u_matrix_row_count", ("u_matrix_count",), np.array([len(x) for x in v["U"]], dtype=np.int32)),
                    ("u_matrix_val", ("u_matrix_row_count_sum",), np.concatenate(v["U"]))]
            for q in ("1", "2"):
                out += [("w_matrix_use" + q, ("m" + q,), v["use_w" + q]), ("u_matrix_use" + q, ("m" + q,), v["use_u" + q])]
        return out

    def write(self, k, path):
        import netCDF4
        d, v = self.c["ds"][k], self.ds[k]
        f = netCDF4.Dataset(path, "w", format=d["format"])
        try:
            if d["uuid"]:
                f.setncattr(self.att("matchup_dataset_uuid"), v["uuid"])
            f.note = "made by the simulation"
            f.createDimension("M", d["M"])
            f.createDimension("m1", d["m1"])
            f.createDimension("m2", d["m2"])
            if d["matrices"]:
                for n, size in (("w_matrix_count", d["nw"]), ("w_matrix_row_count", d["M"] + 1), ("w_matrix_nnz_sum", sum(map(len, v["W"][1]))),
                                ("u_matrix_count", len(v["U"])), ("u_matrix_row_count_sum", sum(map(len, v["U"])))):
                    f.createDimension(n, size)
            order = self.variables(k)
            random.Random(d["seed"]).shuffle(order)
            for n, dims, a in order:
                x = f.createVariable(n, a.dtype, dims, zlib=d["zip"] and d["format"] != "NETCDF3_64BIT_OFFSET", fill_value=None)
                x[:] = a
        finally:
            f.close()

    def text(self, run):
        """The run and job configurations."""
        c = self.c
        s = lambda x: '"%s"' % x
        job = [("id", s(c["id"])), ("enable_covariance_matrix", "TF"[not c["matrix"]]), ("enable_covariance_update", "TF"[not c["update"]]),
               ("enable_covariance_common", "TF"[not c["common"]]), ("sensor_count", "4"), ("matchup_count", str(len(c["ds"])))]
        if c["unit"]:
            job.append(("enable_unit", s(c["unit"])))
        if c["ds_id"]:
            job.append(("matchup_dataset_id", s(c["ds_id"])))
        if c["sub"]:
            job.append(("matchup_dataset_path", s("./in/")))
        for k in (1, 2, 3, 4):
            job += [("sensors(%d)" % k, str(EQ[k])), ("sensor_names(%d)" % k, s(k - 1))]
            if str(k) in c["select"]:
                job += [("sensor_columns(%d,:)" % k, ", ".join(map(str, c["select"][str(k)]))), ("sensor_columns_select(%d)" % k, "T")]
            if c["config"] and k > 1:
                job.append(("sensor_configurations(%d,:)" % k, "0.0, 1.0, 0.0, 1.0E-02, 0.0, 1.0E-06, %d.5" % k))
        for k, d in enumerate(c["ds"], 1):
            job += [("matchup(%d,:)" % k, "%d, %d" % (d["i"], d["j"])), ("matchup_datasets(%d)" % k, s(self.name_of(k - 1))),
                    ("matchup_names(%d)" % k, s("pair %d" % k))]
            if d["s"] != 1:
                job.append(("matchup_samplings(%d)" % k, str(d["s"])))
        random.Random(len(job)).shuffle(job)
        text = {"job": "$job\n" + "".join("   config_job_%s = %s\n" % x for x in job) + "/\n"}
        keys = []
        if c["via"] == "run":
            keys.append(("config_job", s("jobs/the_job.nml")))
        elif c["via"] == "stdin":
            keys.append(("config_job", s("no/such.nml")))
        if c["log"]:
            keys.append(("config_enable_log_level", str(c["log"])))
        if c["software"]:
            keys.append(("config_value_att_software", s(c["software"])))
        for k, kind in (("called", "parameter"), ("called_res", "residuals")):
            if c[k]:
                keys.append(("config_name_%s_dataset" % kind, s(c[k])))
        for k, v in c["names"].items():
            g, key = k.split()
            keys.append(("config_%s_%s" % ({"att": "name_att", "dim": "name_dim", "var": "name_var", "desc": "desc_var"}[g], key), s(v)))
        nml = lambda x: "$run\n" + "".join("   %s = %s\n" % y for y in x) + "/\n"
        if c["runfile"] == "run":
            text["run.nml"] = nml(keys)
        elif c["runfile"] == "preferences":
            text["preferences.nml"] = nml(keys)
        else:  # the run configuration has the last word
            h = len(keys) // 2
            text["preferences.nml"] = nml(keys[:h + 1] + [("config_solver_max_iteration", "7")])
            text["run.nml"] = nml(keys[h:] + [("config_solver_max_iteration", "9")])
        return text

    def lay(self, folder):
        """Writes everything the program reads; returns the names of the files, relative, and the standard input."""
        c, text = self.c, self.text(True)
        files = []
        where = "in" if c["sub"] else "."
        os.makedirs(os.path.join(folder, where), exist_ok=True)
        for k in range(len(self.ds)):
            rel = os.path.normpath(os.path.join(where, self.name_of(k)))
            self.write(k, os.path.join(folder, rel))
            files.append(rel)
        stdin = None
        if c["via"] == "stdin":
            stdin = text["job"]
        else:
            rel = "jobs/the_job.nml" if c["via"] == "run" else "job.nml"
            os.makedirs(os.path.dirname(os.path.join(folder, rel)), exist_ok=True)
            text[rel] = text["job"]
        for rel, t in text.items():
            if rel != "job":
                with open(os.path.join(folder, rel), "w") as f:
                    f.write(t)
                files.append(rel)
        return files, stdin

    # -------------------------------------------------------------------------------------------- what must be in memory
    def memory(self, k):
        d, v, c = self.c["ds"][k], self.ds[k], self.c
        f4, s = np.float32, d["s"]
        get = lambda n, fill: v[n].astype(f4) if n not in d["absent"] else np.full(v[n].shape, fill, dtype=f4)
        out = {"name": "pair %d" % (k + 1), "uuid": v["uuid"], "i": d["i"], "j": d["j"], "ri": R[d["i"]], "rj": R[d["j"]],
               "m": len(range(0, d["M"], s))}
        for q, side, sensor in (("1", "i", d["i"]), ("2", "j", d["j"])):
            m, r = d["m" + q], R[sensor]
            X, Us, Ur = v["X" + q].astype(f4), get("Us" + q, 0), get("Ur" + q, 0)
            t = list(v["type" + q]) if "type" + q not in d["absent"] else [1] * m
            if not c["common"]:
                X = np.concatenate([X, Us], axis=1)
            t += [0] * m
            sel = [x - 1 for x in c["select"].get(str(sensor), range(1, r + 1))]
            out["q" + side] = X[::s, sel]
            out["t" + side] = v["time" + q][::s]
            out["p" + side] = v["track" + q][::s] if "track" + q not in d["absent"] else np.zeros(out["m"], dtype=np.int32)
            cols = []
            for x in sel:
                kind, mats = int(t[x]), {}
                if kind == 2 and not c["common"]:
                    kind = 1
                kind = 3 if kind == 4 else kind
                if kind == 1:
                    mats["D"] = Ur[::s, x].astype(np.float64) ** 2
                elif kind == 2:
                    mats["B"] = (Ur[::s, x].astype(np.float64) ** 2, Us[::s, x])
                elif kind == 3:
                    rows, cs, vals = v["W"]
                    w = v["use_w" + q][x] - 1
                    mats["V"] = v["U"][v["use_u" + q][x] - 1].astype(np.float64) ** 2
                    mats["W"] = (max(cs[w]) + 1, [{cs[w][e]: vals[w][e] for e in range(rows[w][y], rows[w][y + 1])} for y in range(0, d["M"], s)])
                cols.append((kind, mats))
            out["u" + side] = cols
        K, Kr, Ks = get("K", 0), get("Kr", 1), get("Ks", 0)
        out["hj"] = K[::s]
        out["vhj"] = Kr[::s].astype(np.float64) ** 2 + Ks[::s].astype(np.float64) ** 2
        return out

    # -------------------------------------------------------------------------------------------- what must be written
    def att(self, k):
        return self.c["names"].get("att " + k, ATT[k])

    def dim(self, k):
        return self.c["names"].get("dim " + k, DIM[k])

    def var(self, k):
        return self.c["names"].get("var " + k, VAR[k][0]), self.c["names"].get("desc " + k, VAR[k][1])

    def output(self, x=None, xc=None):
        """(file name without the version's own parts, {variable: value}, {variable: attributes}, {global attribute: value})."""
        n = 9
        x = np.zeros(n) if x is None else x
        xc = np.full((n, n), 0.1) + 0.4 * np.eye(n) if xc is None else xc
        xu = np.sqrt(np.diag(xc))
        V, A = {}, {}

        def put(key, value, **att):
            name, desc = self.var(key)
            V[name], A[name] = value, dict(att, description=desc)

        put("x", x)
        put("x_unc", xu)
        put("x_cov", xc)
        put("x_cor", xc / np.outer(xu, xu))
        put("x_add_offset", np.zeros(n))
        put("x_scale_factor", np.ones(n))
        put("x_names", ["1/1", "1/2", "1/3", "2/1", "2/2", "2/3", "3/1", "3/2", "3/3"])
        put("sensor_equation_id", np.array([0, 101, 101, 101]))
        put("sensor_equation_x_count", np.array([0, 3, 3, 3]))
        put("sensor_names", ["0", "1", "2", "3"])
        put("number_of_matchups", np.full(3, 10000))
        put("cost", np.full(3, 5000.0))
        put("cost_reduced", np.full(3, 0.5))
        unit = {"units": self.c["unit"]} if self.c["unit"] else {}
        put("k_res_mean", np.zeros(3), **unit)
        put("k_res_sdev", np.ones(3), **unit)
        put("matchup_sensor_names", ["0 1", "1 2", "2 3"])
        put("matchup_dataset_uuids", [OTHER] * 3)
        g = {"matchup_dataset_id": self.c["ds_id"], "matchup_dataset_begin": "", "matchup_dataset_end": "", "number_of_matchups": 30000,
             "cost": 15000.0, "cost_p_value": 1.0, "cost_reduced": 0.5, "cost_matchup": 15000.0, "cost_sensors": 0.0, "k_res_mean": 0.0,
             "k_res_sdev": 1.0, "uuid": UUID}
        return V, A, self.common(g)

    def common(self, g):
        job = {"run": "jobs/the_job.nml", "default": "job.nml", "stdin": "no/such.nml"}[self.c["via"]]
        g = dict(g, software=self.c["software"] or "FO", job=job, job_id=self.c["id"])
        return {self.att(k): v for k, v in g.items()}

    def file_name(self, g, kind="", sensors=(), dates=("", "")):
        """The name of a result: as configured, or the default one made of the attributes of the file."""
        res = bool(kind)
        given = self.c["called_res" if res else "called"]
        if given:
            return "_".join([given] + list(sensors)) + ".nc"
        parts = ["harm", self.c["software"] or "FO", str(g.get(self.att("software_version"), "?")), str(g.get(self.att("software_tag"), "?")),
                 self.c["id"], self.c["ds_id"]] + list(dates)
        return "_".join(parts + ([kind] + list(sensors) if res else [])) + ".nc"


# ------------------------------------------------------------------------------------------------ reading a result back
def load(path):
    """(variables, attributes of variables, global attributes, dimensions) of a result; raises if it does not read."""
    import netCDF4
    f = netCDF4.Dataset(path)
    try:
        f.set_auto_mask(False)
        V, A = {}, {}
        for n, v in f.variables.items():
            a = v[:]
            if a.dtype.kind == "S":
                a = [b"".join(r).decode("latin1").rstrip(" \0") for r in a]
            V[n], A[n] = a, {k: _plain(v.getncattr(k)) for k in v.ncattrs()}
        return V, A, {k: _plain(f.getncattr(k)) for k in f.ncattrs()}, {k: len(d) for k, d in f.dimensions.items()}
    finally:
        f.close()


def _plain(x):
    if isinstance(x, str):
        return x.rstrip(" \0")
    return float(x) if np.ndim(x) == 0 else [float(y) for y in x]


def differs(path, case, want=None, kind="", sensors=(), dates=("", "")):
    """What is wrong with the result at path, or None."""
    V, A, G = want or case.output()
    try:
        v, a, g, dims = load(path)
    except Exception as e:
        return "it does not read (%s)" % type(e).__name__
    if sorted(v) != sorted(V):
        return "variables %s instead of %s" % (sorted(v), sorted(V))
    for n, w in V.items():
        if isinstance(w, list):
            if v[n] != w:
                return "%s is %s instead of %s" % (n, v[n], w)
        else:
            x = np.asarray(v[n])
            if x.shape != np.shape(w):
                return "%s has shape %s instead of %s" % (n, x.shape, np.shape(w))
            tol = 1e-6 if x.dtype == np.float32 else 1e-12
            if not np.allclose(x, w, rtol=tol, atol=tol * 1e-6, equal_nan=False):
                return "%s is %s instead of %s" % (n, x.ravel()[:6], np.ravel(w)[:6])
        for k, y in A[n].items():
            if a[n].get(k) != y:
                return "%s:%s is %r instead of %r" % (n, k, a[n].get(k), y)
        for k in a[n]:
            if k not in A[n]:
                return "%s has an attribute %s" % (n, k)
    for k, w in G.items():
        x = g.get(k)
        if (x != w) if isinstance(w, str) else (x is None or isinstance(x, str) or abs(x - w) > 1e-9 * abs(w)):
            return "global %s is %r instead of %r" % (k, x, w)
    if os.path.basename(path) != case.file_name(g, kind, sensors, dates):
        return "it is called %s instead of %s" % (os.path.basename(path), case.file_name(g, kind, sensors, dates))
    return None


def results(folder, inputs=()):
    """The netCDF files in a folder that are no inputs."""
    return sorted(p for p in glob.glob(os.path.join(folder, "*.nc")) if os.path.basename(p) not in inputs)


# ------------------------------------------------------------------------------------------------ running the program
class Ended(object):
    """How the program ended: exit status, or None when a signal or an injected crash ended it."""

    def __init__(self, o):
        self.o = o
        self.crashed = o.how == "crashed"
        self.hung = o.how == "hung"
        self.status = int(o.value.split()[1]) if o.how == "died" and o.value.startswith("exit") else None

    @property
    def success(self):
        return self.status == 0

    def __repr__(self):
        return "exit %d" % self.status if self.status is not None else "%s" % (self.o.value if self.o.how == "died" else self.o.how)


def program(w, part="fortran", name="harmonisation-demo"):
    return os.path.join(w.ns.built[part], "bin", name)


def run(w, exe, folder, stdin=None, out="/dev/null", **kw):
    """One execution of the program in folder. Returns (Ended, log of its operations)."""
    pipe = None
    if stdin is not None:
        pipe = w.path("stdin")
        with open(pipe, "w") as f:
            f.write(stdin)

    def body():
        import resource
        armed, w.io.s.armed = w.io.s.armed, 0
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        os.dup2(os.open(pipe or "/dev/null", os.O_RDONLY), 0)
        o = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(o, 1)
        os.dup2(o, 2)
        os.chdir(folder)
        env = {k: v for k, v in os.environ.items() if not k.startswith("SIM_")}
        env["SIMIO_SHM"] = w.io.path
        w.io.s.armed = armed
        os.execve(exe, [exe], env)

    o, log = w.process(body, root=folder, cpu=20, wall=60, **kw)
    return Ended(o), log
