"""C02: the input language. What a tag says is what the program reads; what it writes back reads the same;
anything outside the language is refused."""
import os, sys, json, importlib, inspect
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import numpy as np

NAMECH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./"
word = st.text(NAMECH, min_size=1, max_size=12).filter(lambda s: not s[0] in "-.0123456789")
phrase = st.lists(word, min_size=1, max_size=3).map(" ".join)
flt = st.one_of(st.floats(-1e8, 1e8, allow_nan=False, allow_subnormal=False), st.integers(-1000, 1000).map(float),
                st.floats(1e-30, 1e-3))
integer = st.integers(-10 ** 12, 10 ** 12)


def numlike(s):
    try:
        float(s)
        return True
    except ValueError:
        return s.lower() in ("true", "false", "none")


dictval = st.one_of(integer, flt, st.booleans(), word.filter(lambda s: not numlike(s)))
ws = st.text(" \n\t", max_size=4)
TYPES = {"float": float, "int": int, "bool": bool, "str": str, "tuple": tuple, "dict": dict, "uint": np.uint}


@st.composite
def value_case(draw):
    t = draw(st.sampled_from(["float", "int", "bool", "str", "tuple", "dict"]))
    v = draw({"float": flt, "int": integer, "bool": st.booleans(), "str": phrase,
              "tuple": st.lists(st.integers(-99, 9999), min_size=1, max_size=5),
              "dict": st.dictionaries(word.filter(lambda s: not numlike(s)), dictval, max_size=5)}[t])
    dim = draw(st.sampled_from([None, "length", "energy", "time"])) if t == "float" else None
    return dict(kind=draw(st.sampled_from(["value", "value", "attribute"])) if t != "dict" else "value", type=t, v=v, dim=dim,
                pad=[draw(ws), draw(ws)], indent=draw(st.sampled_from(["", "  ", "\t"])),
                units=draw(st.sampled_from(["", "atomic_unit"])), default=draw(st.booleans()))


def same(a, b, tol=6e-9):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, float):
        if a != a:
            return float(b) != float(b)
        if abs(a) == float("inf"):
            return a == float(b)
        return abs(float(b) - a) <= tol * abs(a) + 1e-300
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) and isinstance(b[k], bool) == isinstance(a[k], bool) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def to_text(t, v):
    """My own rendering of a value in the documented syntax."""
    if t == "bool":
        return "True" if v else "False"
    if t == "tuple":
        return "(" + ", ".join(map(str, v)) + ")"
    if t == "dict":
        return "{" + ", ".join("%s : %s" % (k, x) for k, x in v.items()) + "}"
    return repr(v) if t == "float" else str(v)


def parse1(obj, xml):
    from ipi.utils.io.inputs.io_xml import xml_parse_string
    obj.parse(xml_parse_string(xml).fields[0][1])
    return obj


def t_value(case):
    from ipi.utils.inputvalue import InputValue, InputAttribute
    T, v = TYPES[case["type"]], case["v"]
    if case["type"] == "tuple":
        v = tuple(v)
    want = v
    txt = case["pad"][0] + to_text(case["type"], v) + case["pad"][1]
    if case["kind"] == "attribute":
        a = InputAttribute(dtype=T)
        a.parse(text=txt)
        got = a.fetch()
        require(same(want, got), "attribute text %r of type %s read as %r", txt, case["type"], got)
        b = InputAttribute(dtype=T)
        b.store(v)
        s = b.write("tag")
        require(s.startswith("tag='") and s.endswith("'"), "attribute written as %r", s)
        c2 = InputAttribute(dtype=T)
        c2.parse(text=s[5:-1])
        require(same(want, c2.fetch()), "attribute %r of type %s written as %s and read back as %r", v, case["type"], s, c2.fetch())
        return "attribute:" + case["type"]
    kw = dict(dtype=T)
    if case["dim"]:
        kw["dimension"] = case["dim"]
    o = InputValue(**kw)
    parse1(o, "<x%s>%s</x>" % (" units='%s'" % case["units"] if case["units"] and case["type"] == "float" else "", txt))
    got = o.fetch()
    require(same(want, got), "tag text %r of type %s read as %r", txt, case["type"], got)
    p = InputValue(**kw)
    p.store(v)
    s = p.write("x", case["indent"])
    q = parse1(InputValue(**kw), s)
    require(same(want, q.fetch()), "%r of type %s written as %r and read back as %r", v, case["type"], s, q.fetch())
    return "value:" + case["type"]


@st.composite
def array_case(draw):
    t = draw(st.sampled_from(["float", "int", "bool", "str", "uint"]))
    shape = draw(st.one_of(st.lists(st.integers(1, 5), min_size=1, max_size=3), st.just([0])))
    n = int(np.prod(shape))
    el = {"float": flt, "int": integer, "bool": st.booleans(), "uint": st.integers(0, 2 ** 32),
          "str": word.map(lambda s: s[:8])}[t]
    v = draw(st.lists(el, min_size=n, max_size=n))
    return dict(type=t, shape=shape, v=v, sep=draw(st.sampled_from([",", ", ", ",\n ", " ,"])), pad=[draw(ws), draw(ws)],
                layout=draw(st.sampled_from(["C", "C", "F", "T", "strided"])), giveshape=draw(st.booleans()), file=draw(st.integers(0, 4)) == 0, indent=draw(st.sampled_from(["", "   "])),
                units=draw(st.sampled_from(["", "", "angstrom", "nanometer"])))


def t_array(case):
    from ipi.utils.inputvalue import InputArray
    from ipi.utils.units import unit_to_internal
    T = TYPES[case["type"]]
    shape = tuple(case["shape"])
    v = case["v"]
    dim = "length" if case["type"] == "float" and case["units"] else None
    k = unit_to_internal("length", case["units"], 1.0) if dim else 1.0

    def eq(got, want, k=1.0, tol=6e-9):
        if case["type"] == "float":
            w = np.array(want, float) * k
            return got.shape == w.shape and np.all(np.abs(got - w) <= tol * np.abs(w) + 1e-300)
        return list(np.array(got).flatten()) == list(np.array(want, dtype=got.dtype).flatten())

    body = "[" + case["pad"][0] + case["sep"].join(to_text(case["type"], x) for x in v) + case["pad"][1] + "]"
    att = ""
    if case["giveshape"] and v:
        att += " shape='(%s)'" % ",".join(map(str, shape))
    if dim:
        att += " units='%s'" % case["units"]
    o = InputArray(dtype=T, dimension=dim)
    lab = "manual"
    if case["file"] and case["type"] in ("float", "int") and v:
        with open("arr.dat", "w") as f:
            f.write("# comment\n" + "\n".join(to_text(case["type"], x) for x in v) + "\n")
        parse1(o, "<x mode='file'%s> arr.dat </x>" % att)
        lab = "file"
    else:
        parse1(o, "<x%s>%s</x>" % (att, body))
    got = np.asarray(o.fetch())
    wshape = shape if case["giveshape"] and v else (len(v),)
    require(got.shape == wshape, "array %r %s has shape %r, expected %r", body, att, got.shape, wshape)
    require(eq(got.flatten(), v, k, 1e-13), "array %r %s read as %r", body, att, got)
    # what is stored is written and read back, with its shape
    arr = np.array(v, dtype=T if case["type"] != "str" else "U8").reshape(shape)
    lay = case.get("layout", "C")  # the same values in other memory layouts
    if lay == "F":
        arr = np.asfortranarray(arr)
    elif lay == "T":
        arr = arr.T.copy().T
    elif lay == "strided":
        arr = np.repeat(arr, 2, axis=-1)[..., ::2]
    p = InputArray(dtype=T, dimension=dim)
    p.store(arr)
    s = p.write("x", case["indent"])
    q = np.asarray(parse1(InputArray(dtype=T, dimension=dim), s).fetch())
    require(q.shape == shape, "array of shape %r written as %r and read back with shape %r", shape, s, q.shape)
    require(eq(q.flatten(), v), "array %r written as %r and read back as %r", v, s, q)
    return None if not v else lab + ":" + case["type"] + ":%dd" % len(shape)


# ---- XML / JSON trees -------------------------------------------------------------------------
tag = st.text("abcdefgh_", min_size=1, max_size=5).filter(lambda s: s[0] != "_" and s not in ("value", "attributes"))
ptext = st.text("abcXYZ 0123456789.,:;[](){}+-_/!?", max_size=12)


@st.composite
def tree(draw, depth=3):
    attrs = draw(st.dictionaries(tag, st.text("abc XYZ0123456789.,:;[](){}+-_/", max_size=8), max_size=2))
    kids = []
    if depth > 0:
        kids = draw(st.lists(st.tuples(tag, tree(depth=depth - 1)).map(list), max_size=3))
    return dict(a=attrs, k=kids, t="" if kids else draw(ptext))


@st.composite
def tree_case(draw):
    return dict(tree=draw(tree()), nl=draw(st.sampled_from(["", "\n", "\n  ", "\n<!-- note <x> y -->\n"])), quote=draw(st.sampled_from("'\"")))


def render(t, name, nl, q):
    s = "<" + name + "".join(" %s=%s%s%s" % (a, q, v, q) for a, v in t["a"].items()) + ">" + t["t"]
    for n, k in t["k"]:
        s += nl + render(k, n, nl, q)
    return s + (nl if t["k"] else "") + "</" + name + ">"


def check_tree(node, t, how, strip):
    require(dict(node.attribs) == t["a"], "%s: attributes %r, expected %r", how, dict(node.attribs), t["a"])
    kids = [(n, k) for n, k in node.fields if n != "_text"]
    txt = "".join(k for n, k in node.fields if n == "_text")
    require([n for n, _ in kids] == [n for n, _ in t["k"]], "%s: children %r, expected %r", how, [n for n, _ in kids], [n for n, _ in t["k"]])
    want = t["t"]
    require((txt.strip() == want.strip()) if strip or t["k"] else txt == want, "%s: text %r, expected %r", how, txt, want)
    for (n, k), (_, tk) in zip(kids, t["k"]):
        check_tree(k, tk, how, strip)


def grouped(t):
    """JSON gathers same-name children: order is kept within a name only."""
    names = []
    for n, _ in t["k"]:
        if n not in names:
            names.append(n)
    return dict(a=t["a"], t=t["t"], k=[[n, grouped(k)] for m in names for n, k in t["k"] if n == m])


def to_json(t):
    d = {}
    if t["a"]:
        d["attributes"] = dict(t["a"])
    if t["t"].strip():
        d["value"] = t["t"].strip()
    for n, k in t["k"]:
        d.setdefault(n, []).append(to_json(k))
    for n in list(d):
        if isinstance(d[n], list) and len(d[n]) == 1:
            d[n] = d[n][0]
    return d["value"] if list(d) == ["value"] else d


def t_tree(case):
    from ipi.utils.io.inputs import io_xml, io_json
    t = case["tree"]
    xml = render(t, "simulation", case["nl"], case["quote"])
    root = io_xml.xml_parse_string(xml)
    require(len(root.fields) == 1 and root.fields[0][0] == "simulation", "root of %r is %r", xml, root.fields)
    node = root.fields[0][1]
    check_tree(node, t, "parsing " + xml, strip=bool(case["nl"]))
    with open("f.xml", "w") as f:
        f.write(xml)
    with open("f.xml") as f:
        check_tree(io_xml.xml_parse_file(f).fields[0][1], t, "parsing a file holding " + xml, strip=bool(case["nl"]))
    out = io_xml.xml_write(node, name="simulation")
    check_tree(io_xml.xml_parse_string(out).fields[0][1], t, "re-parsing %r written from %r" % (out, xml), strip=True)
    # JSON form of the same tree means the same
    js = to_json(t)
    js = js if isinstance(js, dict) else {"value": js}
    for doc in ({"simulation": js}, json.loads(json.dumps(io_json.xmlnode_to_json(root)))):
        r = io_json.json_parse_string(json.dumps(doc))
        require(len(r.fields) == 1 and r.fields[0][0] == "simulation", "JSON root of %r: %r", doc, r.fields)
        check_tree(r.fields[0][1], grouped(t), "JSON %s" % json.dumps(doc), strip=True)
    return "depth%d" % (0 if not t["k"] else 1 if not any(k["k"] for _, k in t["k"]) else 2) if t["k"] or t["a"] else None


# ---- every declared tag of every input class ----------------------------------------------------
def classes():
    import ipi.inputs as pkg, pkgutil
    from ipi.utils import inputvalue as iv
    out = {}
    for m in pkgutil.walk_packages(pkg.__path__, "ipi.inputs."):
        mod = importlib.import_module(m.name)
        for n, c in vars(mod).items():
            if inspect.isclass(c) and issubclass(c, iv.Input) and c.__module__ == m.name and \
                    not issubclass(c, (iv.InputValue, iv.InputArray, iv.InputAttribute)):
                out[n] = c
    return out


CL = None


def leaves(cls):
    """(name, kind, options dict) of the plain-valued tags and attributes of an input class."""
    from ipi.utils import inputvalue as iv
    res = []
    for where in ("attribs", "fields"):
        for n, (c, kw) in sorted(getattr(cls, where).items()):
            if c in (iv.InputValue, iv.InputArray, iv.InputAttribute) and kw.get("dtype") in (float, int, bool, str, np.uint):
                res.append((where, n, c.__name__, kw))
    return res


@st.composite
def class_case(draw):
    cn = draw(st.sampled_from(sorted(CL)))
    lv = leaves(CL[cn])
    vals = {}
    for where, n, kind, kw in lv:
        mandatory = kw.get("default") is None
        if not mandatory and not draw(st.booleans()):
            continue
        t = kw["dtype"]
        el = {float: flt, int: integer, bool: st.booleans(), str: phrase, np.uint: st.integers(0, 2 ** 31)}[t]
        if kw.get("options"):
            v = draw(st.sampled_from([o for o in kw["options"]]))
        elif kind == "InputArray":
            if t is str:
                el = word.map(lambda s: s[:6])
            v = draw(st.lists(el, min_size=1, max_size=7))
        else:
            v = draw(el)
        vals[n] = v
    return dict(cls=cn, vals=vals, order=draw(st.permutations(sorted(vals))))


def t_class(case):
    global CL
    CL = CL or classes()
    cls = CL[case["cls"]]
    lv = {n: (where, kind, kw) for where, n, kind, kw in leaves(cls)}
    att, tags = "", ""
    for n in case["order"]:
        v = case["vals"][n]
        where, kind, kw = lv[n]
        tn = {float: "float", int: "int", bool: "bool", str: "str", np.uint: "int"}[kw["dtype"]]
        txt = "[" + ", ".join(to_text(tn, x) for x in v) + "]" if kind == "InputArray" else to_text(tn, v)
        if where == "attribs":
            att += " %s='%s'" % (n, txt)
        else:
            tags += "<%s> %s </%s>\n" % (n, txt, n)
    o = cls()
    # mandatory sub-objects cannot be supplied generically
    from ipi.utils import inputvalue as iv
    for where in ("attribs", "fields"):
        for n, (c, kw) in getattr(cls, where).items():
            if n not in lv and not o.__dict__[n]._optional:
                raise Skip()
            # the three socket transports refuse threaded='False' at fetch
            if n in case["vals"] and n == "threaded" and "FF" in case["cls"] and case["vals"][n] is False and \
                    case["cls"] in ("InputFFSocket", "InputFFMPI", "InputFFCavPhSocket"):
                raise Skip()
    if not case["vals"]:
        raise Skip()
    xml = "<x%s>%s</x>" % (att, tags)
    try:
        parse1(o, xml)
    except ValueError as e:
        if "mandatory" in str(e):
            raise Skip()
        raise
    w = o.write("x")
    if not w:  # atoms/beads without any atom are not written at all
        raise Skip()
    o2 = parse1(cls(), w)
    w2 = o2.write("x")
    require(w2 == w, "%s: written form is not a fixed point:\n%s\n%s", case["cls"], w, w2)
    for tagname, (obj, tol) in {"parse of " + xml: (o, 1e-13), "reparse of " + w: (o2, 6e-9)}.items():
        for n, v in case["vals"].items():
            where, kind, kw = lv[n]
            got = obj.__dict__[n].fetch()
            if kind == "InputArray":
                want = np.array(v, dtype=kw["dtype"] if kw["dtype"] is not str else None).flatten()
                got = np.asarray(got).flatten()
                okk = len(got) == len(want) and (np.all(np.abs(got - want) <= tol * np.abs(want) + 1e-300) if kw["dtype"] is float else list(got) == list(want))
            else:
                okk = same(v, got, tol)
            require(okk, "%s: <%s> given %r, %s holds %r", case["cls"], n, v, tagname, got)
        for n, (where, kind, kw) in lv.items():
            if n not in case["vals"]:
                d = kw.get("default")
                if isinstance(d, iv.input_default):
                    d = d.factory(*d.args, **d.kwargs)
                got = obj.__dict__[n].fetch()
                if isinstance(d, np.ndarray):
                    require(np.asarray(got).shape == d.shape and (d.size == 0 or np.all(np.asarray(got) == d) or np.allclose(np.asarray(got, float), d, rtol=1e-8, equal_nan=True)),
                            "%s: <%s> not given, should be its default %r, is %r", case["cls"], n, d, got)
                elif kw["dtype"] is float:
                    require(same(float(d), float(got)), "%s: <%s> default %r, is %r", case["cls"], n, d, got)
                else:
                    require(d == got, "%s: <%s> default %r, is %r", case["cls"], n, d, got)
    return case["cls"]


# ---- refusals -------------------------------------------------------------------------------------
@st.composite
def bad_case(draw):
    cn = draw(st.sampled_from(sorted(CL)))
    kind = draw(st.sampled_from(["tag", "attribute", "option", "float", "int", "bool", "array", "missing"]))
    return dict(cls=cn, kind=kind, junk=draw(st.text("qwxz", min_size=4, max_size=8)), pick=draw(st.integers(0, 50)))


def t_bad(case):
    global CL
    CL = CL or classes()
    cls = CL[case["cls"]]
    lv = leaves(cls)
    kind = case["kind"]
    j = case["junk"]
    o = cls()
    chk = None
    if kind == "tag":
        xml = "<x><%s>1</%s></x>" % (j, j)
    elif kind == "attribute":
        xml = "<x %s='1'></x>" % j
    elif kind == "missing":
        mand = [n for where in ("attribs", "fields") for n in getattr(cls, where) if not o.__dict__[n]._optional]
        if not mand:
            raise Skip()
        xml = "<x></x>"
    else:
        want = {"option": lambda k, kw: kw.get("options") and kw["dtype"] is str,
                "float": lambda k, kw: kw["dtype"] is float and k != "InputArray",
                "int": lambda k, kw: kw["dtype"] is int and k != "InputArray",
                "bool": lambda k, kw: kw["dtype"] is bool and k != "InputArray",
                "array": lambda k, kw: k == "InputArray"}[kind]
        c = [(w, n, kw) for w, n, k, kw in lv if want(k, kw)]
        if not c:
            raise Skip()
        w, n, kw = c[case["pick"] % len(c)]
        txt = {"option": j, "float": "1.0" + j, "int": ["1.5", "1e3", j][case["pick"] % 3], "bool": ["yes", "1", j][case["pick"] % 3],
               "array": ["1, 2, 3", "[1, 2, 3", "1, 2]"][case["pick"] % 3]}[kind]
        xml = "<x %s='%s'></x>" % (n, txt) if w == "attribs" else "<x><%s>%s</%s></x>" % (n, txt, n)
        chk = n
    try:
        parse1(o, xml)
        if chk:
            o.__dict__[chk].fetch()
    except (ValueError, TypeError, NameError) as e:
        return kind
    raise Violation("%s accepted %s" % (case["cls"], xml))


if __name__ == "__main__":
    from vlib import env
    env.preload()
    CL = classes()
    subs = [
        Sub("value", value_case(), t_value, quick=3000, thorough=40000, shards=1, tshards=8),
        Sub("array", array_case(), t_array, quick=2400, thorough=40000, shards=2, tshards=8),
        Sub("tree", tree_case(), t_tree, quick=1500, thorough=20000, shards=2, tshards=8),
        Sub("class", class_case(), t_class, quick=2400, thorough=40000, shards=4, tshards=8, cost=4),
        Sub("refuse", bad_case(), t_bad, quick=1500, thorough=10000, shards=1, tshards=4),
    ]
    main("C02", subs, rule="a case is a value, array, document tree, or full set of tags of one input class, rendered with varying "
         "white space/quoting; non-trivial if it carries content (non-empty array, nested tree, non-default tags)",
         assumptions=["strings hold no XML metacharacters, quotes, commas or brackets (the language has no escape for them)",
                      "floats are compared at the nine digits of the default checkpoint format"])
