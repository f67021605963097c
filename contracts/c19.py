"""C19 Only valid configurations are accepted, and one is always available."""
from pv.api import contract
from contracts.c17 import COLS, KINDS, num

NAMES = ["catalogue.csv", "c", "a b.csv", ".hidden", "Ünï.csv", "x..csv", "-x", "a;b&c", "nul", "~"]
BADNAMES = ["", ".", "..", "a/b.csv", "../x.csv", "x/", "sub/../x.csv", "./x.csv", "n" * 300, "a\0b"]
STR, BOOL, FLOAT = [5, None, ["x"], 1.5, b"x", True], [0, 1, "true", None, "", 1.0], ["632.8", None, 633, True, [632.8], 1j]
FIELDS = [("Path", STR), ("File", STR), ("Interactive", BOOL), ("WarnMissingPackages", BOOL), ("Value", FLOAT), ("SpectrumType", STR), ("Unit", STR)]


def spelled(v, key, good):
    """executions: a name of any allowed length (good), or too long"""
    n = v.int(key + " length", 1, 251) if good else v.int(key + " length", 256, 300)
    c = v.choice(key + " letter", ["x", " ", "Ü", "-", "."])
    s = c * (n // len(c.encode()))
    edge = v.choice(key + " edges", ["%s", " %s", "%s ", "%s\t", "%s.csv"])
    return edge % ("x" + s[1:] if good else s + "xx")


def good_name(v):
    return v.choice("name", NAMES) if v.bool("name listed") else spelled(v, "name", True)


def bad_name(v, more):
    return v.choice("badname", BADNAMES + more) if v.sym or v.bool("badname listed") else spelled(v, "badname", False)


def valid(v, base, few=False):
    """a valid configuration (few: in the proof only the defects vary)"""
    pick = (lambda key, xs: xs[0]) if few and v.sym else v.choice
    names = ["UserData", "Filmetrics", "RefractiveIndexInfo"]
    mods = {n: v.bool("on_" + n) if not v.sym else (n != names[1]) for n in (names if v.sym else v.some("modules", names))}
    return {"Path": base, "File": pick("name", NAMES) if v.sym else good_name(v), "Interactive": False if v.sym else v.bool("interactive"),
            "WarnMissingPackages": pick("warn", [False, True]), "Modules": mods,
            "ReferenceSpectrum": {"Value": v.real("value", gen=(-5.0, 900.0)), "SpectrumType": pick("type", ["wavelength", "energy"]),
                                  "Unit": pick("unit", ["nanometer", "ev", "foo"])}}


def holder(c, key):
    return c["ReferenceSpectrum"] if key in ("Value", "SpectrumType", "Unit") else c


def plain(x):
    return {k: plain(y) for k, y in x.items()} if isinstance(x, dict) else x


def spoil(v, c, base):
    """one defect"""
    how = v.choice("defect", ["missing", "section", "type", "path", "name", "module"])
    if how == "missing":
        key = v.choice("key", [k for k, _ in FIELDS])
        del holder(c, key)[key]
    elif how == "section":
        del c[v.choice("section", ["Modules", "ReferenceSpectrum"])]
    elif how == "type":
        key, bad = v.choice("key", FIELDS)
        holder(c, key)[key] = v.choice("bad", bad)
    elif how == "path":
        c["Path"] = base + v.choice("where", ["/none", "/file.txt", "/none/deep", "/file.txt/x"])
    elif how == "name":
        c["File"] = bad_name(v, [base + "/abs.csv"])
    else:
        key = v.choice("module", ["UserData", "Filmetrics", "Other"])
        c["Modules"][key] = v.choice("switch", BOOL)


@contract("C19", "config.validate_config", "config.check_type", "io.valid_file_name", kind="bounded", n=1800, split=5)
def validated(v):
    """passes exactly for complete configurations of the documented types; never changes the configuration"""
    v.scratch_temp()
    base = v.folder()
    v.put(base + "/file.txt", "x\n")
    good = v.bool("good")
    c = valid(v, base, not good)
    if not good:
        spoil(v, c, base)
    before = plain(c)
    out = v.call(v.mod("config").validate_config, c)
    if good:
        v.ok(out, "a valid configuration is accepted")
    else:
        v.raises(out, Exception, "an invalid configuration is refused")
    v.ensure(plain(c) == before if not v.sym else list(c) == list(before), "configuration unchanged")
    v.ensure(set(v.tree(base)) == {"file.txt"}, "nothing created in the folder")


@contract("C19", "catalogue.Catalogue.__init__", "config.validate_config", kind="bounded", n=600, split=3)
def catalogue_refuses(v):
    """the catalogue opens only with a valid configuration"""
    v.scratch_temp()
    base = v.folder()
    v.put(base + "/file.txt", "x\n")
    c = {"Path": base, "File": "catalogue.csv", "Interactive": False, "WarnMissingPackages": v.bool("warn"), "Modules": {"UserData": True},
         "ReferenceSpectrum": {"Value": num(v, 632.8), "SpectrumType": "wavelength", "Unit": "nanometer"}}
    v.put_csv(base + "/catalogue.csv", [dict(KINDS[0], Alias="q")], COLS)
    good = v.bool("good")
    if not good:
        spoil(v, c, base)
    out = v.call(v.mod("catalogue").Catalogue, config=c)
    if good:
        v.ensure(v.nrows(v.ok(out, "opened").get_database()) == 1, "the rows of the file")
    else:
        v.raises(out, Exception, "an invalid configuration is refused")


@contract("C19", "io.valid_file_name", kind="bounded", n=400)
def file_names(v):
    """true for a name that can be used in a folder; nothing outside a temporary folder is created or changed"""
    base, snap = v.scratch_temp()
    v.put(base + "/kept.txt", "old\n")
    v.mkdir(base + "/sub")
    good = v.bool("good")
    name = (v.choice("name", NAMES) if v.sym else good_name(v)) if good else bad_name(v, [
        base + "/new.txt", base + "/kept.txt", "../new.txt", "../../new.txt", "../../kept.txt", "sub/new.txt", "../../sub/new.txt"])
    v.mod("config")
    before = snap()
    out = v.call(v.mod("io").valid_file_name, name)
    v.ensure(snap() == before, "nothing created or changed outside a temporary folder")
    if good:
        v.ensure(v.ok(out, "answered") is True, "usable")
    else:
        v.ensure(not out.ok or not out.value, "not usable: %r" % name[:20])


HOMES = ["u", "a b", "x: y", "x #1", "'q'", "{0}", "Ü%s", "- a", "[a]", "y"]


def padded(v, path):
    """executions: comments and blank lines around the content"""
    if not v.sym:
        n = v.int("comments " + ("user" if ".config" in path else "package"), 0, v.rng.choice([3, 300, 6000]))
        v.put(path, "# a comment\n" * n + v.got(path) + "\n# end\n" * (n % 3))


@contract("C19", "config.get_config", "config.read_config", "config.default_config", "config._get_config_dir", "config._get_user_config_dir",
          "config._get_package_dir", "config.write_config", kind="bounded", n=120, split=2)
def reading(v):
    """user folder, then package, then the default"""
    home = v.home(v.choice("home", HOMES), v.bool("config folder"))
    mod, pkg = v.package()
    m = mod("config")
    user = v.bool("user")
    package = v.bool("package")
    made = v.choice("made", ["file", "write_config"])
    mine = {"Path": home, "File": "mine.csv", "Interactive": True, "WarnMissingPackages": False, "Modules": {"UserData": True, "Filmetrics": False},
            "ReferenceSpectrum": {"Value": v.real("value", gen=(1.0, 900.0)), "SpectrumType": "energy", "Unit": "ev"}}
    if user:
        v.mkdir(home + "/.config/dispersion")
        if made == "file":
            v.put_yaml(home + "/.config/dispersion/config.yaml", mine)
            padded(v, home + "/.config/dispersion/config.yaml")
        else:
            v.ok(v.call(m.write_config, mine, home + "/.config/dispersion"), "written")
    if package:
        v.put_yaml(pkg + "/config.yaml", dict(mine, File="package.csv"))
        padded(v, pkg + "/config.yaml")
    before = v.tree(home)
    c = v.ok(v.call(m.get_config), "available")
    after = v.tree(home)
    v.ensure({k: x for k, x in after.items() if x is not None} == {k: x for k, x in before.items() if x is not None}, "no file created or changed")
    if user or package:
        for k, x in dict(mine, File="mine.csv" if user else "package.csv").items():
            if k == "ReferenceSpectrum":
                v.ensure_eq(c[k]["Value"], x["Value"], "configuration of the %s: value" % ("user" if user else "package"))
                v.ensure(all(c[k][q] == x[q] for q in ("SpectrumType", "Unit")), "configuration of the %s: %s" % ("user" if user else "package", k))
            else:
                v.ensure((dict(c[k]) if k == "Modules" else c[k]) == x, "configuration of the %s: %s" % ("user" if user else "package", k))
        v.ensure(set(c) == set(mine), "configuration of the %s: keys" % ("user" if user else "package"))
    else:
        v.ok(v.call(m.validate_config, c), "the default is valid")
        v.ensure(c["Path"] == home + "/.config/dispersion", "default path")
        v.ensure(set(c) == set(mine) and set(c["ReferenceSpectrum"]) == set(mine["ReferenceSpectrum"]), "structure of the default")
