"""C20 Interactive setup acts only on valid, confirmed answers."""
from pv.api import contract
from contracts.c17 import COLS, KINDS, config, num
from contracts.c16 import line

YES, NO = ["y", "yes"], ["n", "no"]
POOL = ["", "Y", "Yes", "N", "yes ", " y", "ye", "true", "1", "q", "nope", "yy", "NO", "x/y"]
S = "scripts.setup_dispersion"


def among(v, s, xs):
    return v.Or(*[s == x for x in xs])


def earlier(v, k, fn, label):
    """fn holds of every answer before the last one used"""
    for i in v.each(k - 1):
        v.ensure(fn(i), label)


@contract("C20", S + ".get_confirmation", n=300)
def yes_no(v):
    """true exactly for y or yes, false exactly for n or no, asking again otherwise"""
    m = v.mod(S)
    used, answer = v.answers("answers", POOL, YES + NO)
    r = v.ok(v.call(m.get_confirmation, "sure? "), "answered")
    k = used()
    v.ensure(k >= 1, "asked")
    last = answer(k - 1)
    v.ensure(among(v, last, YES + NO), "stops only at an answer")
    v.ensure(v.Or(v.And(r, among(v, last, YES)), v.And(v.Not(r), among(v, last, NO))), "the answer given")
    earlier(v, k, lambda i: v.Not(among(v, answer(i), YES + NO)), "asks again only without an answer")


def valued(v, answer, default, i):
    s = answer(i)
    if v.sym:
        return v.If(s == "", default, s)
    return default if s == "" else s


@contract("C20", S + ".ask", n=300)
def value(v):
    """the first answer the validator accepts, an empty one standing for the default"""
    m = v.mod(S)
    good = v.predicate("good")
    default = v.string("default", gen=["", "dflt", "/a/b", "y"])
    pool = ["", "a", "b", "cc", "/x", "y", "no", " "]
    used, answer = v.answers("answers", pool, pool)
    if not v.sym:
        xs = v.log["answers"]
        v.assume(any(good(default if x == "" else x) for x in xs))
    r = v.ok(v.call(m.ask, "value [default: {}]> ", default, good), "answered")
    k = used()
    v.ensure(k >= 1, "asked")
    v.ensure(r == valued(v, answer, default, k - 1), "the last answer")
    v.ensure(good(r), "accepted by the validator")
    earlier(v, k, lambda i: v.Not(good(valued(v, answer, default, i))), "the first accepted answer")


@contract("C20", S + ".ask_and_confirm", S + ".ask", S + ".get_confirmation", n=300)
def value_confirmed(v):
    """an accepted value, and whether it was confirmed"""
    m = v.mod(S)
    good = v.predicate("good")
    default = v.string("default", gen=["", "dflt", "/a/b", "y"])
    used, answer = v.answers("answers", ["", "a", "b", "cc", "y", "no", "yes", "n"], YES + NO)
    if not v.sym:
        xs = v.log["answers"]
        j = next((i for i, x in enumerate(xs) if good(default if x == "" else x)), None)
        v.assume(j is not None and any(x in YES + NO for x in xs[j + 1:]))
    at = []

    def check(x):
        at.append(used())
        return good(x)
    out = v.ok(v.call(m.ask_and_confirm, "value [default: {}]> ", default, check, "thing"), "answered")
    r, sure = out[0], out[1]
    k, w = used(), at[-1]
    v.ensure(good(r), "accepted by the validator")
    v.ensure(v.And(w >= 1, w < k), "asked for the value and then for confirmation")
    v.ensure(r == valued(v, answer, default, w - 1), "the value is the last answer before the confirmation")
    last = answer(k - 1)
    v.ensure(among(v, last, YES + NO), "stops only at an answer")
    v.ensure(v.Or(v.And(sure, among(v, last, YES)), v.And(v.Not(sure), among(v, last, NO))), "confirmed")
    for j in v.each(k - 1 - w):
        v.ensure(v.Not(among(v, answer(w + j), YES + NO)), "asks again only without an answer")
    for i in v.each(w - 1):
        v.ensure(v.Not(good(valued(v, answer, default, i))), "the first accepted answer")


def world(v, base, modules):
    v.mkdir(base + "/UserData")
    v.put(base + "/UserData/new.txt", line(v, [num(v, 500), num(v, 1.5)], "\t") + "\n" + line(v, [num(v, 750), num(v, 2)], "\t") + "\n")
    v.put_csv(base + "/catalogue.csv", [dict(KINDS[0], Alias="q")], COLS)
    return config(v, base, modules, value="600")


def rebuilt(v, base, before, label):
    now = v.got(base + "/catalogue.csv")
    v.ensure(now != before, label + ": the catalogue is rebuilt and saved")
    c = config(v, base, {"UserData": True}, value="600")
    df = v.ok(v.call(v.mod("catalogue").Catalogue, config=c), label + ": readable").get_database()
    v.ensure(v.nrows(df) == 1 and v.cellof(df, 0, "Path") == "new.txt" and v.cellof(df, 0, "Alias") == "", label + ": the rows of the files")


@contract("C20", "catalogue.rebuild_catalogue", S + ".maybe_rebuild_catalogue", S + ".get_confirmation", "catalogue.Catalogue.save_to_file", n=150, split=2)
def rebuild(v):
    """the catalogue is rebuilt and overwritten only after an explicit yes"""
    home = v.home("u")
    base = v.folder()
    conf = world(v, base, {"UserData": True})
    how = v.choice("how", ["rebuild_catalogue", "maybe_rebuild_catalogue"])
    v.mkdir(home + "/.config/dispersion")
    v.put_yaml(home + "/.config/dispersion/config.yaml", conf)
    cat, setup = v.mod("catalogue"), v.mod(S)
    before = v.got(base + "/catalogue.csv")
    tree = set(v.tree(base))
    used, answer = v.answers("answers", [x for x in POOL], ["y", "n"] if how == "rebuild_catalogue" else YES + NO)
    if how == "rebuild_catalogue":
        v.ok(v.call(cat.rebuild_catalogue), "done")
    else:
        v.ok(v.call(setup.maybe_rebuild_catalogue, conf), "done")
    k = used()
    v.ensure(k >= 1, "asked")
    last = answer(k - 1)
    if v.cases(among(v, last, YES)):
        rebuilt(v, base, before, "yes")
    else:
        v.ensure(among(v, last, NO), "stops only at an answer")
        v.ensure(v.got(base + "/catalogue.csv") == before, "no: the catalogue is not touched")
    v.ensure(set(v.tree(base)) == tree, "no other file created")
    full = ["y", "n"]
    earlier(v, k, lambda i: v.Not(among(v, answer(i), full)), "asks again only without an answer")


def database(v, d, level):
    """(part of) the refractiveindex.info database in folder d"""
    if level >= 1:
        v.mkdir(d + "/database/data-nk")
    if level >= 2:
        v.put_yaml(d + "/database/library.yml", [])


@contract("C20", S + ".install_modules", S + ".install_rii", S + ".install_userdata", S + ".make_example_txt", S + ".make_example_yaml",
          S + ".get_confirmation", kind="bounded", n=250, split=4)
def modules(v):
    """user data always enabled, others as installed; nothing created outside the module folders"""
    cloned = []

    def clone(url, to, *a, **k):
        cloned.append(to)
        database(v, to, 2)
    v.git(clone)
    v.home("u")
    base = v.folder()
    m = v.mod(S)
    v.put(base + "/kept.txt", "old\n")
    start = {n: v.bool("before_" + n) for n in ["UserData", "RefractiveIndexInfo"]}
    if v.bool("swap"):
        start = dict(reversed(list(start.items())))
    present = v.choice("present", [-1, 0, 1, 2])
    rii = base + "/RefractiveIndexInfo"
    if present >= 0:
        v.mkdir(rii)
        database(v, rii, present)
    if v.bool("user folder"):
        v.mkdir(base + "/UserData")
    conf = {"Path": base, "File": "c.csv", "Modules": dict(start)}
    install, download = v.bool("install"), v.bool("download")
    noise = (lambda key: ["", "Y"] if v.choice(key, [0, 1]) else []) if v.sym else (lambda key: v.some(key, POOL))
    xs = noise("noise1") + [v.choice("word1", YES if install else NO)]
    if install:
        xs += noise("noise2") + [v.choice("word2", YES if download else NO)]
    used = v.script(xs)
    before = v.tree(base)
    got = v.ok(v.call(m.install_modules, conf), "installed")
    after = v.tree(base)
    v.ensure(used() == len(xs), "all answers used")
    for p in after:
        top = p.split("/")[0]
        if p in before:
            v.ensure(before[p] == after[p] or top == "UserData" or top == "RefractiveIndexInfo" and install, "nothing else changed: " + top)
        else:
            v.ensure(top == "UserData" or top == "RefractiveIndexInfo" and install, "created outside the module folders: " + top)
    v.ensure(all(p in after for p in before), "nothing removed")
    v.ensure(got["Modules"]["UserData"] is True, "user data enabled")
    v.ensure(set(got["Modules"]) == set(start) and got["Path"] == base and got["File"] == "c.csv", "nothing else recorded")
    want = install and (download or present == 2)
    v.ensure(got["Modules"]["RefractiveIndexInfo"] is want, "recorded whether the module was installed")
    v.ensure([str(c) for c in cloned] == ([rii] if install and download else []), "downloaded only when confirmed, into the module folder")
    for f in [p for p in after if p.startswith("UserData/") and p not in before]:
        v.ok(v.call(v.mod().Material, file_path=base + "/" + f), "example file can be read")


@contract("C20", S + ".main", S + ".get_root_dir", S + ".get_catalogue_name", S + ".ask_and_confirm", S + ".ask", S + ".get_confirmation",
          S + ".install_modules", S + ".maybe_rebuild_catalogue", "config.write_config", kind="bounded", n=120, split=3)
def whole(v):
    """the whole setup: the confirmed answers are recorded, the catalogue is written only after an explicit yes"""
    v.git(lambda *a, **k: v.fail("downloaded without being told to"))
    home = v.home(v.choice("home", ["u", "x: y"]))
    base = v.folder()
    m = v.mod(S)
    root = base + "/root"
    v.mkdir(root)
    user = home + "/.config/dispersion"
    other = base + "/other"
    v.mkdir(other)
    bad_path, bad_name = ["rel/path", "x"], ["a/b", "..", "."]
    noise = lambda key, xs: ([xs[0]] if v.bool(key) else []) if v.sym else v.some(key, xs)
    xs = []
    if v.bool("first refused"):
        xs += noise("p1", bad_path) + [other] + [v.choice("no1", NO)]
    default_path = v.bool("default path")
    xs += noise("p2", bad_path) + ["" if default_path else root] + ([] if v.sym else noise("q2", POOL)) + [YES[0]]
    path = user if default_path else root
    if not v.sym and v.bool("name refused"):
        xs += ["other.csv", "n"]
    default_name = v.bool("default name")
    xs += noise("p3", bad_name) + ["" if default_name else "mine.csv"] + [YES[1]]
    name = "catalogue.csv" if default_name else "mine.csv"
    tried = v.bool("rii")
    xs += ["y", "n"] if tried else ["no"]
    build = v.bool("rebuild")
    xs += ([] if v.sym else noise("q4", POOL)) + [YES[0] if build else NO[0]]
    used = v.script(xs)
    v.ok(v.call(m.main), "set up")
    v.ensure(used() == len(xs), "all answers used")
    c = v.ok(v.call(v.mod("config").get_config), "configuration written")
    v.ensure(c["Path"] == path, "the confirmed folder")
    v.ensure(c["File"] == name, "the confirmed file name")
    v.ensure(c["Modules"]["UserData"] is True and c["Modules"]["RefractiveIndexInfo"] is False, "modules as installed")
    v.ok(v.call(v.mod("config").validate_config, c), "valid configuration")
    after = set(v.tree(path))
    allowed = {"UserData", name, "config.yaml"} if default_path else {"UserData", name}
    if tried:
        allowed.add("RefractiveIndexInfo")
    tops = {p.split("/")[0] for p in after}
    v.ensure(tops <= allowed, "nothing else created")
    v.ensure((name in after) == build, "the catalogue is written only after an explicit yes")
    v.ensure(not v.tree(other), "a folder that was not confirmed stays empty")
    v.ensure(set(v.tree(user)) >= {"config.yaml"}, "configuration of the user")
    if not default_path:
        v.ensure(set(v.tree(user)) == {"config.yaml"}, "only the configuration in the folder of the user")
    if build:
        df = v.ok(v.call(v.mod("catalogue").Catalogue, config=c), "catalogue opens").get_database()
        v.ensure(v.nrows(df) == 2, "the rows of the example files")
