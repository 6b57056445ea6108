"""C04: what the user asked for survives being turned into objects and written back (checkpoint describes the same simulation)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import sim
import numpy as np
import importlib, inspect

flt = st.floats(1e-4, 1e3, allow_nan=False).map(lambda x: float("%.8g" % x))
integer = st.integers(1, 50)
word = st.text("abcdefgXYZ_09", min_size=1, max_size=6).map(lambda s: "a" + s)

# (module, class, how)   how: "plain" = parse, fetch, store; "motion:<mode>" = inside <motion mode>
TARGETS = {}
for t, c in dict(ffsocket="InputFFSocket", fflj="InputFFLennardJones", ffdebye="InputFFDebye", ffdirect="InputFFDirect", ffdmd="InputFFdmd",
                 ffcavphsocket="InputFFCavPhSocket").items():
    TARGETS[t] = ("ipi.inputs.forcefields", c, "plain")
TARGETS.update(force=("ipi.inputs.forces", "InputForceComponent", "plain"),
               ensemble=("ipi.inputs.ensembles", "InputEnsemble", "plain"),
               properties=("ipi.inputs.outputs", "InputProperties", "plain"),
               trajectory=("ipi.inputs.outputs", "InputTrajectory", "plain"),
               checkpoint=("ipi.inputs.outputs", "InputCheckpoint", "plain"))
for mode, (tg, mod, c) in dict(minimize=("optimizer", "geop", "InputGeop"), neb=("neb_optimizer", "neb", "InputNEB"), string=("string_optimizer", "stringmep", "InputStringMEP"),
                               vibrations=("vibrations", "phonons", "InputDynMatrix"), scp=("scp", "scphonons", "InputSCPhonons"), instanton=("instanton", "instanton", "InputInst"),
                               normalmodes=("normalmodes", "vscf", "InputNormalMode"), planetary=("planetary", "planetary", "InputPlanetary"), alchemy=("alchemy", "alchemy", "InputAlchemy"),
                               atomswap=("atomswap", "atomswap", "InputAtomSwap"), t_ramp=("t_ramp", "ramp", "InputTemperatureRamp"), p_ramp=("p_ramp", "ramp", "InputPressureRamp"),
                               dynamics=("dynamics", "dynamics", "InputDynamics"), driven_dynamics=("driven_dynamics", "driven_dynamics", "InputDrivenDynamics"),
                               constrained_dynamics=("constrained_dynamics", "constrained_dynamics", "InputConstrainedDynamics")).items():
    TARGETS["motion." + mode] = ("ipi.inputs.motion." + mod, c, "motion:%s:%s" % (mode, tg))

TARGETS["ffcommittee"] = ("ipi.inputs.forcefields", "InputFFCommittee", "plain")
TARGETS["ffrotations"] = ("ipi.inputs.forcefields", "InputFFRotations", "plain")
del TARGETS["motion.string"]  # refuses to run
INNER = {"motion.constrained_dynamics": "<csolver><tolerance>1e-5</tolerance></csolver><constraint mode='distance'><atoms>[0,1]</atoms><values>[1.5]</values></constraint>"}


def m33(draw_el):
    return st.lists(draw_el, min_size=9, max_size=9)


# tags that are not free: (target or *, tag) -> generator; None = leave out, with the reason
SPECIAL = {
    ("*", "name"): word,
    ("ffsocket", "threaded"): None, ("ffcavphsocket", "threaded"): None,   # must be true
    ("fflj", "pbc"): None, ("fflj", "parameters"): st.fixed_dictionaries(dict(eps=flt, sigma=flt)),
    ("ffdebye", "hessian"): None, ("ffdebye", "x_reference"): None, ("ffdebye", "pbc"): None, ("ffdebye", "threaded"): None,  # never periodic, runs one way
    ("ffdirect", "pes"): st.sampled_from(["harmonic"]), ("ffdirect", "pes_path"): None,
    ("ffdirect", "parameters"): st.fixed_dictionaries(dict(k1=flt)),
    # the list of active atoms only means something where a subset of the coordinates is sent to a client
    ("ffdirect", "activelist"): None, ("ffdmd", "activelist"): None, ("ffdebye", "activelist"): None, ("ffcommittee", "activelist"): None,
    ("ffcommittee", "threaded"): None, ("ffrotations", "threaded"): None,
    ("ffcommittee", "weights"): st.lists(flt, min_size=3, max_size=3), ("ffcommittee", "baseline_name"): None, ("ffcommittee", "baseline_uncertainty"): None,
    ("ensemble", "stress"): m33(flt),
    ("motion.neb", "corrections_lbfgs"): None,   # has no effect there
    ("motion.scp", "random_type"): st.sampled_from(["pseudo"]),
    ("properties", "_value"): st.lists(st.sampled_from(["step", "time{picosecond}", "potential{electronvolt}", "temperature(O){kelvin}"]), min_size=1, max_size=4),
    ("properties", "shape"): None, ("properties", "units"): None, ("properties", "mode"): None,  # of any array; a list of names has none
    ("trajectory", "_value"): st.sampled_from(["positions", "velocities", "forces{ev/ang}", "x_centroid"]),
    ("trajectory", "extra_type"): None,
    ("checkpoint", "_value"): None,
    ("ensemble", "bias_weights"): None,  # belongs to the bias components
    ("motion.instanton", "mode"): None,
    # one-shot request / internal state that is recomputed
    ("motion.instanton", "hessian_init"): None, ("motion.instanton", "old_pos"): None,
    ("ffrotations", "grid_order"): st.sampled_from([3, 5, 7, 9, 11, 13]),
}
GEOP = dict(bfgs={"old_direction", "invhessian_bfgs", "biggest_step"}, damped_bfgs={"old_direction", "invhessian_bfgs", "biggest_step"}, bfgstrm={"hessian_trm", "tr_trm", "biggest_step"},
            lbfgs={"old_direction", "qlist_lbfgs", "glist_lbfgs", "corrections_lbfgs", "scale_lbfgs", "biggest_step"}, sd={"ls_options"}, cg={"old_direction", "ls_options", "old_force"})
MANDATORY = {("fflj", "parameters"), ("ffdirect", "parameters"), ("properties", "_value"), ("properties", "filename"), ("trajectory", "filename"), ("checkpoint", "filename")}
COMMON = {"mode", "tolerances", "exit_on_convergence"}


def relevant(t, vals, n):
    """does this tag mean anything together with the mode chosen?"""
    if t == "motion.minimize":
        return n in COMMON or n in GEOP[vals.get("mode", "lbfgs")]
    if t == "motion.instanton":
        opt = vals.get("opt", "None")
        fr = vals.get("friction", False)
        if n in ("fric_spec_dens", "fric_spec_dens_ener", "frictionSD", "eta0"):
            return bool(fr)
        if n in ("hessian", "hessian_update", "hessian_asr"):
            return opt in ("nichols", "NR", "lanczos")
        if n in ("fric_hessian", "eta", "z_friction"):
            return False
        if n in ("qlist_lbfgs", "glist_lbfgs", "old_direction", "scale_lbfgs", "corrections_lbfgs", "ls_options"):
            return opt == "lbfgs"
    return True


def cls_of(t):
    m, c, how = TARGETS[t]
    return getattr(importlib.import_module(m), c)


def leaves(cls):
    from ipi.utils import inputvalue as iv
    res = []
    for where in ("attribs", "fields"):
        for n, (c, kw) in sorted(getattr(cls, where).items()):
            if c in (iv.InputValue, iv.InputArray, iv.InputAttribute) and kw.get("dtype") in (float, int, bool, str, np.uint, tuple, dict):
                res.append((where, n, c.__name__, kw))
    return res


@st.composite
def gen(draw, only=None):
    t = draw(st.sampled_from(only or sorted(TARGETS)))
    vals = {}
    for where, n, kind, kw in leaves(cls_of(t)):
        sp = SPECIAL.get((t, n), SPECIAL.get(("*", n), 0))
        if sp is None:
            continue
        mandatory = (t, n) in MANDATORY or (n == "name" and t.startswith("ff")) or kw.get("default", 0) is None and not kw.get("default") == 0
        if not mandatory and draw(st.integers(0, 2)) == 0:
            continue
        ty = kw["dtype"]
        if sp != 0:
            v = draw(sp)
        elif kw.get("options"):
            v = draw(st.sampled_from(list(kw["options"])))
        elif ty in (tuple, dict):
            continue
        else:
            el = {float: flt, int: integer, bool: st.booleans(), str: word, np.uint: integer}[ty]
            v = draw(st.lists(el, min_size=1, max_size=6)) if kind == "InputArray" else draw(el)
        vals[n] = v
    if (t, "_value") in SPECIAL and SPECIAL[t, "_value"] is not None and "_value" not in vals:
        vals["_value"] = draw(SPECIAL[t, "_value"])
    if vals.get("opt") == "None":
        del vals["opt"]      # means: choose for me
    if t == "motion.instanton" and vals.get("friction") and vals.get("opt") != "nichols":
        vals["friction"] = False
    if t == "ffdebye":
        n = draw(st.sampled_from([3, 6]))
        a = np.array(draw(st.lists(flt, min_size=n * n, max_size=n * n))).reshape(n, n)
        vals["hessian"] = (a + a.T).flatten().tolist()
        vals["x_reference"] = draw(st.lists(flt, min_size=n, max_size=n))
    inner = []
    if t == "ffcommittee":
        for k in range(3):
            inner.append([draw(st.sampled_from(["ffdirect", "fflj", "ffsocket"])), draw(word) + str(k), draw(flt)])
    if t == "ffrotations":
        inner = [[draw(st.sampled_from(["ffdirect", "ffsocket"])), draw(word), draw(flt)]]
    return dict(t=t, vals=vals, inner=inner)


def inner_text(inner):
    s = ""
    for k, n, o in inner:
        s += "<%s name='%s'>%s<offset>%r</offset></%s>" % (k, n, {"ffdirect": "<pes>harmonic</pes><parameters>{k1: 0.5}</parameters>", "fflj": "<parameters>{eps: 0.1, sigma: 1.0}</parameters>", "ffsocket": "<port>31415</port>"}[k], o, k)
    return s


def text(v):
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, list):
        return "[" + ", ".join(text(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%s : %s" % (k, text(x)) for k, x in v.items()) + "}"
    return str(v)


def doc(case):
    t = case["t"]
    cls = cls_of(t)
    att = tags = ""
    for n, v in case["vals"].items():
        if n == "_value":
            tags += text(v)
        elif n in cls.attribs:
            att += " %s='%s'" % (n, text(v))
        else:
            sh = " shape='(%d,%d)'" % (len(v) ** 0.5, len(v) ** 0.5) if n == "hessian" and t == "ffdebye" else ""
            tags += "<%s%s> %s </%s>\n" % (n, sh, text(v), n)
    return att, tags + INNER.get(t, "") + inner_text(case.get("inner", []))


def root_of(t):
    how = TARGETS[t][2]
    if how == "plain":
        return cls_of(t), None
    from ipi.inputs.motion import InputMotion
    return InputMotion, how.split(":")[1:]


def get(o, name, tg):
    x = getattr(o, tg[1]) if tg else o
    if name == "_value":
        return x.value
    return getattr(x, name).fetch()


def same(a, b):
    if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind in "US" or b.dtype.kind in "US":
            return a.size == b.size and list(a.flatten()) == list(b.flatten())
        return a.size == b.size and np.allclose(a.flatten().astype(float), b.flatten().astype(float), rtol=2e-8, atol=1e-300)
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        return abs(a - b) <= 2e-8 * max(abs(a), abs(b))
    return a == b


def t_store(case):
    from ipi.utils.io.inputs import io_xml
    t = case["t"]
    Root, tg = root_of(t)
    att, tags = doc(case)
    if tg:
        xml = "<x mode='%s'><%s%s>%s</%s></x>" % (tg[0], tg[1], att, tags, tg[1])
    else:
        xml = "<x%s>%s</x>" % (att, tags)
    o = Root()
    o.parse(io_xml.xml_parse_string(xml).fields[0][1])
    obj = o.fetch()
    before = {n: get(o, n, tg) for n in case["vals"] if relevant(t, case["vals"], n)}
    for rep in (1, 2):
        o2 = Root()
        o2.store(obj)
        w = o2.write("x")
        o3 = Root()
        o3.parse(io_xml.xml_parse_string(w).fields[0][1])
        for n in before:
            got = get(o3, n, tg)
            require(same(before[n], got), "%s: %s was given as %r and comes back from the written file as %r (pass %d)\ngiven:\n%s\nwritten:\n%s", t, n, before[n], got, rep, xml, w)
        if case.get("inner"):
            subs = [(k, v.name.fetch(), float(v.offset.fetch())) for k, v in o3.extra] if t == "ffcommittee" else [(k, getattr(o3, k).name.fetch(), float(getattr(o3, k).offset.fetch())) for k, _, _ in case["inner"]]
            require(len(subs) == len(case["inner"]) and all(a[0] == b[0] and a[1] == b[1] and same(a[2], b[2]) for a, b in zip(subs, case["inner"])),
                    "%s: the forcefields inside were %r and come back as %r\n%s", t, case["inner"], subs, w)
        obj = o3.fetch()
    return t if before else None


if __name__ == "__main__":
    from vlib import env
    env.preload()
    main("C04", [Sub("store", gen(), t_store, quick=3000, thorough=60000, shards=8)],
         rule="a case is non-trivial when at least one tag was set by the user and compared after two rounds of writing and reading",
         assumptions=["Files are written with 9 significant digits here; values are compared to 2e-8.",
                      "Tags that are documented as one-shot requests, internal state, or without meaning in the mode chosen are left out (tables in the check)."],
         quick_s=60, thorough_s=600)
