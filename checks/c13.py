"""C13: random struct definitions are compiled with the derive (harness-derive) and exercised; definitions with one unsupported
field type or shape must not compile."""
import json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *  # noqa
import run

PROP = "C13"
TYPES = {"i8": "I8", "u8": "U8", "i16": "I16", "u16": "U16", "i32": "I32", "u32": "U32", "f32": "F32", "f64": "F64"}
IDENTS = ["x", "y", "z", "intensity", "rgb", "label", "a", "b", "c", "t", "X", "_u", "point", "size", "offset", "fields", "last_field_end", "rename_idx",
          "rename_arr", "field_info", "struct_size", "field", "value", "r#type", "r#match", "r#fn", "r#in", "größe", "名", "normal_x", "normal_y", "curvature",
          "ring", "time_stamp", "f32_", "u8", "a_very_long_field_name_that_some_driver_uses_for_its_reflectivity_channel", "padding", "name", "ty", "count"]
RENAMES = ["", "x", "y", "z", "X", "x ", "my label", "größe µ", "type", "a\\\"b", "{}", "点", "rgb", "intensity", "u8", "r#type", "Label", "line\\nbreak", "f32", "padding"]
STRUCTS = ["P", "Point", "Field", "LayoutDescription", "PointData", "r#type", "LidarReturn", "RPCL2Point", "Größe"]
REPRS = [(6, ["C"], ""), (2, ["C, packed"], "p"), (1, ["packed"], "p"), (1, ["C, packed(2)"], "p"), (1, ["packed(2), C"], "p"), (1, ["C, packed(4)"], "p"), (0.5, ["C, packed(8)"], "p"),
         (1, ["C, align(4)"], ""), (0.5, ["C, align(1)"], ""), (1, ["C, align(16)"], ""), (1, ["align(8), C"], ""), (1, ["C, align(64)"], ""), (1, ["C", "align(32)"], ""), (4, [], ""),
         (0.7, ["C, align(256)"], ""), (0.7, ["C, align(512)"], ""), (0.5, ["align(1024)"], ""), (0.5, ["C", "align(4096)"], ""), (0.3, ["C, align(65536)"], ""),
         (1, ["Rust"], ""), (1, ["align(16)"], "")]
UNSUPPORTED = ["bool", "char", "usize", "isize", "u64", "i64", "u128", "i128", "String", "[f32; 3]", "[u8; 4]", "(f32,)", "()", "Option<f32>", "&'static str",
               "Box<f32>", "Vec<u8>", "core::marker::PhantomData<f32>", "ros_pointcloud2::points::RGB", "RGB", "Label", "Wrapper", "Nested",
               "core::num::Wrapping<u8>", "ros_pointcloud2::FieldDatatype", "ros_pointcloud2::PointData"]
SHAPES = [
    ("tuple struct", "#[derive(Clone, Copy, Default, PointConvertible)]\npub struct P(pub f32, pub f32);\n"),
    ("tuple struct with attribute", "#[derive(Clone, Copy, Default, PointConvertible)]\n#[repr(C)]\npub struct P(#[rpcl2(rename(\"x\"))] pub f32);\n"),
    ("unit struct", "#[derive(Clone, Copy, Default, PointConvertible)]\npub struct P;\n"),
    ("struct without fields", "#[derive(Clone, Copy, Default, PointConvertible)]\npub struct P {}\n"),
    ("enum", "#[derive(Clone, Copy, Default, PointConvertible)]\npub enum P { #[default] A, B }\n"),
    ("enum with named fields", "#[derive(Clone, Copy, PointConvertible)]\npub enum P { A { x: f32, y: f32 } }\nimpl Default for P { fn default() -> Self { P::A { x: 0.0, y: 0.0 } } }\n"),
    ("union", "#[derive(Clone, Copy, PointConvertible)]\n#[repr(C)]\npub union P { x: f32, y: u32 }\nimpl Default for P { fn default() -> Self { P { y: 0 } } }\n"),
    ("rename without a name", "#[derive(Clone, Copy, Default, PointConvertible)]\npub struct P { #[rpcl2(rename())] x: f32 }\n"),
    ("rename to a number", "#[derive(Clone, Copy, Default, PointConvertible)]\npub struct P { #[rpcl2(rename(5))] x: f32 }\n"),
    ("unknown option", "#[derive(Clone, Copy, Default, PointConvertible)]\npub struct P { #[rpcl2(skip)] x: f32 }\n"),
]
PRELUDE = """#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, uncommon_codepoints, clippy::all)]
use ros_pointcloud2::prelude::*;
#[derive(Clone, Copy, Default, PartialEq)] pub enum Label { #[default] A, B }
impl ros_pointcloud2::GetFieldDatatype for Label { fn field_datatype() -> ros_pointcloud2::FieldDatatype { ros_pointcloud2::FieldDatatype::U8 } }
impl ros_pointcloud2::FromBytes for Label {
    fn from_be_bytes(_: ros_pointcloud2::PointDataBuffer) -> Self { Label::B }
    fn from_le_bytes(_: ros_pointcloud2::PointDataBuffer) -> Self { Label::B }
}
impl From<Label> for ros_pointcloud2::PointDataBuffer { fn from(l: Label) -> Self { [l as u8].into() } }
impl From<Label> for ros_pointcloud2::PointData { fn from(l: Label) -> Self { ros_pointcloud2::PointData::new(l) } }
#[derive(Clone, Copy, Default, PartialEq)] #[repr(transparent)] pub struct Wrapper(pub f32);
impl ros_pointcloud2::GetFieldDatatype for Wrapper { fn field_datatype() -> ros_pointcloud2::FieldDatatype { ros_pointcloud2::FieldDatatype::F32 } }
impl ros_pointcloud2::FromBytes for Wrapper {
    fn from_be_bytes(b: ros_pointcloud2::PointDataBuffer) -> Self { Wrapper(<f32 as ros_pointcloud2::FromBytes>::from_be_bytes(b)) }
    fn from_le_bytes(b: ros_pointcloud2::PointDataBuffer) -> Self { Wrapper(<f32 as ros_pointcloud2::FromBytes>::from_le_bytes(b)) }
}
impl From<Wrapper> for ros_pointcloud2::PointDataBuffer { fn from(l: Wrapper) -> Self { l.0.to_le_bytes().into() } }
impl From<Wrapper> for ros_pointcloud2::PointData { fn from(l: Wrapper) -> Self { ros_pointcloud2::PointData::new(l) } }
#[derive(Clone, Copy, Default)] pub struct Nested { pub x: f32 }
"""


def pick(rng, weighted):
    return rng.choices(weighted, [w[0] for w in weighted])[0]


def unraw(s):
    return s[2:] if s.startswith("r#") else s


def plain(s):
    """The value of a Rust string literal's body as used in RENAMES."""
    return s.replace('\\"', '"').replace("\\n", "\n")


def random_field(rng, packed, ident):
    rename = rng.choice(RENAMES) if rng.random() < 0.3 else None
    attrs = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        attrs.append(rng.choice(["/// Distance to the target.", "/// first line\n    /// \"second\" line", "#[doc = \"described\"]", "/** block */", "#[allow(dead_code)]", "#[cfg(all())]",
                                 "#[cfg_attr(any(), rpcl2(rename(\"never\")))]", "#[cfg_attr(all(), doc = \"x\")]"]))
    if not packed and rng.random() < 0.2:
        attrs.append("#[serde(rename = \"%s\")]" % rng.choice(["x", "json name", "other"]))
    if rename is not None:
        a = rng.choice(['#[rpcl2(rename("%s"))]', '#[rpcl2(rename("%s"))]', '#[cfg_attr(all(), rpcl2(rename("%s")))]', '#[rpcl2( rename ( "%s" ) )]']) % rename
        attrs.insert(rng.randint(0, len(attrs)), a)
    return dict(ident=ident, ty=rng.choice(list(TYPES)), attrs=attrs, rename=rename, vis=rng.choice(["pub ", "pub ", "", "pub(crate) "]))


def random_struct(rng):
    _, reprs, packed = pick(rng, REPRS)
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 10, 12])
    many = rng.random() < 0.06
    if many:  # more fields than arrays have traits for
        n = rng.choice([31, 32, 33, 34, 48, 64, 65, 100])
    idents = ["f%02d" % k for k in range(n)] if many else rng.sample(IDENTS, n)
    fields = [random_field(rng, packed, i) for i in idents]
    if n >= 2 and rng.random() < 0.15:  # two fields that swap their names
        a, b = rng.sample(range(n), 2)
        for f, g in ((fields[a], fields[b]), (fields[b], fields[a])):
            f["attrs"] = [x for x in f["attrs"] if "rpcl2" not in x] + ['#[rpcl2(rename("%s"))]' % unraw(g["ident"])]
            f["rename"] = unraw(g["ident"])
    out, seen = [], set()
    for f in fields:  # message names are distinct
        m = plain(f["rename"]) if f["rename"] is not None else unraw(f["ident"])
        if m not in seen:
            seen.add(m)
            out.append(f)
    return dict(name=rng.choice(STRUCTS), reprs=reprs, packed=bool(packed), fields=out, serde=not packed and rng.random() < 0.5,
                removed=rng.random() < 0.1, macro_made=False, order=rng.random() < 0.3, outer=rng.choice(["", "", "/// A point.\n", "#[must_use]\n", "#[doc = \"A point.\"]\n"]))


def macro_struct(rng):
    """The same through a macro_rules definition, as generated driver code does it."""
    s = random_struct(rng)
    s["macro_made"] = True
    s["removed"] = False
    for f in s["fields"]:
        f["attrs"] = [a for a in f["attrs"] if "\n" not in a]
    return s


def definition(s):
    """Source of the struct alone."""
    if any("serde" in a for f in s["fields"] for a in f["attrs"]):
        s = dict(s, serde=True)
    reprs = "".join("#[repr(%s)]\n" % r for r in s["reprs"])
    derives = ["Clone", "Copy", "Default", "PointConvertible"] + (["serde::Serialize"] if s["serde"] else [])
    if s["order"]:
        derives.reverse()
    derive = "#[derive(%s)]\n" % ", ".join(derives)
    head = (reprs + derive) if s["order"] else (derive + reprs)
    body = ""
    for k, f in enumerate(s["fields"]):
        body += "".join("    %s\n" % a for a in f["attrs"]) + "    %s%s: %s,\n" % (f["vis"], f["ident"], f["ty"])
        if s["removed"] and k == 0:
            body += "    #[cfg(any())]\n    removed: String,\n"
    if s["macro_made"]:
        return ("macro_rules! make { ($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $v:vis $f:ident : $t:ident),* $(,)? }) => { $(#[$m])* pub struct $n { $($(#[$fm])* $v $f: $t),* } } }\n"
                "make! { %s%s%s {\n%s} }\n" % (s["outer"], head, s["name"], body))
    return s["outer"] + head + "pub struct %s {\n%s}\n" % (s["name"], body)


def module(s, k):
    n = s["name"]
    names = ['"%s"' % (f["rename"] if f["rename"] is not None else unraw(f["ident"])) for f in s["fields"]]
    fs = s["fields"]
    return """#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, uncommon_codepoints)]
use ros_pointcloud2::prelude::*;
%s
impl rpcl2_harness::types::TestPoint for %s {
    const NAME: &'static str = "struct %d";
    const C_LAYOUT: bool = %s;
    const PLAIN: bool = true;
    fn fields() -> Vec<rpcl2_harness::types::FieldDesc> {
        vec![%s]
    }
    fn from_words(w: &[u64]) -> Self {
        %s { %s }
    }
    fn to_words(&self) -> Vec<u64> {
        vec![%s]
    }
    fn canon(w: &mut [u64]) {
        %s
    }
}
""" % (definition(s), n, k, "true" if any("C" in r for r in s["reprs"]) else "false",
       ", ".join("rpcl2_harness::types::FieldDesc { name: %s, dt: rpcl2_harness::types::Dt::%s, rgb: false, mem: core::mem::offset_of!(%s, %s) }" % (nm, TYPES[f["ty"]], n, f["ident"]) for nm, f in zip(names, fs)),
       n, ", ".join("%s: <%s as rpcl2_harness::types::Scalar>::from_word(w[%d])" % (f["ident"], f["ty"], i) for i, f in enumerate(fs)),
       ", ".join("{ let v: %s = self.%s; rpcl2_harness::types::Scalar::to_word(v) }" % (f["ty"], f["ident"]) for f in fs),
       " ".join("w[%d] = <%s as rpcl2_harness::types::Scalar>::canon(w[%d]);" % (i, f["ty"], i) for i, f in enumerate(fs)))


CONTROL = dict(name="P", reprs=["C"], packed=False, serde=False, removed=False, macro_made=False, order=False, outer="",
               fields=[dict(ident="x", ty="f32", attrs=[], rename=None, vis="pub ")])


def write_sources(structs, where):
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    mods = ""
    table = ""
    for k, s in enumerate(structs):
        with open(os.path.join(where, "s%03d.rs" % k), "w", encoding="utf-8") as f:
            f.write(module(s, k))
        mods += '#[path = "%s/s%03d.rs"]\npub mod s%03d;\n' % (where, k, k)
        table += "    entry::<%d, s%03d::%s>(),\n" % (len(s["fields"]), k, s["name"])
    with open(os.path.join(where, "mod.rs"), "w", encoding="utf-8") as f:
        f.write("%spub static TABLE: &[Entry] = &[\n%s];\n" % (mods, table))


def build(structs, builds, tag):
    where = os.path.join(BUILD, "c13", tag)
    write_sources(structs, where)
    return build_harness(PROP, builds, "harness-derive", "harness-derive", env={"C13_GEN": where})


class Rustc:
    """Compiles single files against the library built by the last harness-derive build."""

    def __init__(self):
        target = os.path.join(BUILD, "checked")
        env = cargo_env({"CARGO_TARGET_DIR": target, "C13_GEN": os.path.join(BUILD, "c13", "control")})
        write_sources([CONTROL], env["C13_GEN"])
        p = subprocess.run(["cargo", "+stable", "build", "--offline", "--locked", "--message-format=json"], cwd=os.path.join(VERIF, "harness-derive"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=840)
        if p.returncode != 0:
            raise CheckError("the harness with one plain derived struct does not build: %s" % p.stderr[-4000:])
        self.lib = self.deps = self.serde = None
        for line in p.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("ros_pointcloud2", "serde") and "lib" in m["target"]["kind"]:
                f = [x for x in m["filenames"] if x.endswith(".rlib")]
                if f and m["target"]["name"] == "serde":
                    self.serde = f[0]
                elif f:
                    self.lib, self.deps = f[0], os.path.join(target, "debug", "deps")
        if not self.lib or not self.serde:
            raise CheckError("the compiled library was not found")

    def accepts(self, source, name, scratch):
        """(accepted, messages)"""
        f = os.path.join(scratch, name + ".rs")
        with open(f, "w", encoding="utf-8") as fh:
            fh.write(source)
        p = subprocess.run(["rustc", "+stable", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--cap-lints", "allow", "--out-dir", scratch, "--crate-name", name,
                            "--extern", "ros_pointcloud2=" + self.lib, "--extern", "serde=" + self.serde, "-L", "dependency=" + self.deps, f],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, env=cargo_env())
        if p.returncode not in (0, 1) or "internal compiler error" in p.stdout or "E0463" in p.stdout or "E0514" in p.stdout:
            raise CheckError("rustc ended with %s on %s: %s" % (p.returncode, name, p.stdout[-3000:]))
        return p.returncode == 0, p.stdout


def reject_cases(rng, n):
    """(what, source, control source or None)"""
    out = []
    order = list(UNSUPPORTED)
    rng.shuffle(order)
    for i in range(n):
        ty = order[i % len(order)]
        s = random_struct(rng)
        s["reprs"] = [r for r in s["reprs"] if "packed" not in r]
        s["serde"] = False
        for f in s["fields"]:
            f["attrs"] = [a for a in f["attrs"] if "serde" not in a]
        k = rng.randrange(len(s["fields"]))
        bad = json.loads(json.dumps(s))
        bad["fields"][k]["ty"] = ty
        if ty in ("String", "Box<f32>", "Vec<u8>"):
            src = definition(bad).replace("Clone, Copy, ", "Clone, ").replace("Default, Copy, Clone", "Default, Clone")
        else:
            src = definition(bad)
        out.append(("field of type %s" % ty, PRELUDE + src, PRELUDE + definition(s)))
    for what, src in SHAPES:
        out.append((what, PRELUDE + src, None))
    return out


def save_replay(name, rep):
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(REPLAYS, name)
    rep["property"] = PROP
    rep["replay_with"] = "python3 /verif/checks/replay.py %s" % out
    with open(out, "w", encoding="utf-8") as f:
        json.dump(rep, f, indent=1, ensure_ascii=False)
    return out


def check_rejects(cases, rustc, stats, batch=0):
    """Returns a replay path if a definition that must not compile does."""
    with Scratch("C13-rejects") as scratch:
        def one(kc):
            k, (what, src, control) = kc
            ok, text = rustc.accepts(src, "bad%03d" % k, scratch)
            cok, ctext = (True, "") if control is None else rustc.accepts(control, "good%03d" % k, scratch)
            return ok, text, cok, ctext
        with ThreadPoolExecutor(CORES) as ex:
            results = list(ex.map(one, enumerate(cases)))
    for k, ((what, src, control), (ok, text, cok, ctext)) in enumerate(zip(cases, results)):
        stats["reject_definitions"] += 1
        if ok:
            log("accepted although it must be rejected: %s\n%s" % (what, src[len(PRELUDE):]))
            return save_replay("C13-reject-s%d-b%d-%d.json" % (seed(), batch, k), dict(kind="must not compile", what=what, source=src))
        if not cok:
            log("does not compile although every field is supported:\n%s\n%s" % (control[len(PRELUDE):], ctext[-1500:]))
            return save_replay("C13-accept-s%d-b%d-%d.json" % (seed(), batch, k), dict(kind="must compile", what="supported struct", source=control))
        stats["derive_messages" if "derive" in text or "Field type not allowed" in text or "PointConvertible" in text else "other_messages"] += 1
    return None


def uncompilable(structs, rustc):
    """Looks for a struct of supported types that the derive does not compile."""
    with Scratch("C13-single") as scratch:
        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda ks: rustc.accepts(PRELUDE + definition(ks[1]), "one%03d" % ks[0], scratch), enumerate(structs)))
        for s, (ok, text) in zip(structs, res):
            if not ok:
                s = shrink_struct(s, lambda c: not rustc.accepts(PRELUDE + definition(c), "shrink", scratch)[0], 60)
                return s, text
    return None, ""


def simpler(s):
    """Candidate simplifications of a struct."""
    for k in range(len(s["fields"])):
        if len(s["fields"]) > 1:
            yield dict(s, fields=s["fields"][:k] + s["fields"][k + 1:])
    for k, f in enumerate(s["fields"]):
        for a in range(len(f["attrs"])):
            if "rpcl2" not in f["attrs"][a]:
                yield dict(s, fields=s["fields"][:k] + [dict(f, attrs=f["attrs"][:a] + f["attrs"][a + 1:])] + s["fields"][k + 1:])
        if f["rename"] is not None:
            g = dict(f, rename=None, attrs=[a for a in f["attrs"] if "rpcl2" not in a])
            names = [x["rename"] if x["rename"] is not None else unraw(x["ident"]) for x in s["fields"][:k] + s["fields"][k + 1:]]
            if unraw(f["ident"]) not in names:
                yield dict(s, fields=s["fields"][:k] + [g] + s["fields"][k + 1:])
    for key, v in (("removed", False), ("macro_made", False), ("serde", False), ("outer", ""), ("order", False), ("name", "P")):
        if s[key] != v:
            yield dict(s, **{key: v})


def shrink_struct(s, fails, budget):
    progress = True
    while progress and budget > 0:
        progress = False
        for c in simpler(s):
            budget -= 1
            if budget < 0:
                break
            if fails(c):
                s, progress = c, True
                break
    return s


def fails_with(struct, build_name, cases):
    """Runs one struct alone; returns the message of its failing case, or None."""
    try:
        b = build([struct], [build_name], "shrink")[build_name]
    except CheckError:
        return None
    with Scratch("C13-shrink") as scratch:
        prefix = os.path.join(scratch, "r")
        p = subprocess.run([b, "run", PROP, str(seed()), "0", "0", str(cases), prefix], env=run_env({}), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           preexec_fn=limits(build_name, 8), timeout=300)
        if p.returncode == 1:
            return json.load(open(prefix + ".json"))["message"]
        return "process ended with %d" % p.returncode if crashed(p.returncode, build_name) else None


def corpus_cases():
    d = os.path.join(VERIF, "corpus", PROP)
    return [os.path.join(d, f) for f in sorted(os.listdir(d))] if os.path.isdir(d) else []


def still_fails(files, rustc):
    """Replays saved failures; returns the first that still fails."""
    runtime = []
    with Scratch("C13-replay") as scratch:
        for k, f in enumerate(files):
            rep = json.load(open(f))
            if rep["kind"] in ("must not compile", "must compile"):
                src = rep["source"]
                ok, text = rustc.accepts(src, "r%03d" % k, scratch)
                if ok == (rep["kind"] == "must not compile"):
                    log("%s: %s\n%s" % (f, rep["kind"], text[-1500:]))
                    return f
            else:
                runtime.append((f, rep))
        if runtime:
            # compile failures of these definitions are failures too
            bad, text = uncompilable([r["struct"] for _, r in runtime], rustc)
            if bad is not None:
                log(text[-1500:])
                return runtime[0][0] if len(runtime) == 1 else [f for f, r in runtime if not rustc.accepts(PRELUDE + definition(r["struct"]), "again", scratch)[0]][0]
            bins = build([r["struct"] for _, r in runtime], ["checked", "asan"], "replay")
            for b, exe in bins.items():
                for k, (f, rep) in enumerate(runtime):
                    t = os.path.join(scratch, "case.json")
                    json.dump(dict(property=PROP, message="", case=dict(rep["case"], of=k)), open(t, "w"))
                    p = subprocess.run([exe, "replay", PROP, t], env=run_env({}), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limits(b, 8), timeout=300)
                    if p.returncode == 1:
                        log("%s (%s build): %s" % (f, b, p.stderr[-1500:]))
                        return f
                    if p.returncode != 0:
                        raise CheckError("replay of %s ended with %s" % (f, p.returncode))
    return None


def replay(f):
    return 1 if still_fails([f], Rustc()) else 0


QUICK = dict(structs=64, batches=1, rejects=48, checked=(4, 50000), asan=(4, 20000))
DEEP = dict(structs=96, batches=8, rejects=120, checked=(4, 60000), asan=(4, 30000))


def main(tier, t0):
    plan = QUICK if tier == "quick" else DEEP
    tally = Tally()
    stats = dict(structs=0, reject_definitions=0, derive_messages=0, other_messages=0, representations={})
    rustc = Rustc()
    files = corpus_cases()
    replay_file = still_fails(files, rustc)
    tally.corpus = len(files)
    samples = []
    for batch in range(plan["batches"]):
        if replay_file:
            break
        rng = random.Random("%s/%d/%d" % (PROP, seed(), batch))
        structs = [macro_struct(rng) if k % 10 == 9 else random_struct(rng) for k in range(plan["structs"])]
        for s in structs:
            r = ", ".join(s["reprs"]) or "default"
            stats["representations"][r] = stats["representations"].get(r, 0) + 1
        stats["structs"] += len(structs)
        samples = [definition(structs[0]), definition(structs[1])]
        replay_file = check_rejects(reject_cases(rng, plan["rejects"]), rustc, stats, batch)
        if replay_file:
            break
        try:
            bins = build(structs, ["checked", "asan"], "gen")
        except CheckError as e:
            bad, text = uncompilable(structs, rustc)
            if bad is None:
                raise e
            log("a struct of supported types does not compile:\n%s\n%s" % (definition(bad), text[-2000:]))
            replay_file = save_replay("C13-accept-s%d-b%d.json" % (seed(), batch), dict(kind="must compile", what="supported struct", source=PRELUDE + definition(bad)))
            break
        log("C13: batch %d built at %.0f s" % (batch, time.time() - t0))
        with Scratch(PROP) as scratch:
            p = dict(checked=plan["checked"], asan=plan["asan"])
            f = run.run_workers(PROP, p, bins, run.workers_of(PROP, p, "quick"), scratch, tally)
            if f:
                log("C13 failed in the %s build: %s" % (f["build"], f["message"]))
                path = run.shrink(PROP, p, bins, f)
                rep = json.load(open(path))
                os.remove(path)
                s = structs[rep["case"]["of"]]
                cases = 3000
                first = fails_with(s, f["build"], cases)
                small = shrink_struct(s, lambda c: fails_with(c, f["build"], cases) is not None, 12) if first else s
                if small is not s:
                    rep["message"] = fails_with(small, f["build"], cases) or rep["message"]
                    rep["case"]["points"] = {"Pattern": {"n": 3, "seed": 1, "flavour": 1}} if not case_fails(small, rep["case"]["points"], f["build"]) else rep["case"]["points"]
                    if not case_fails(small, rep["case"]["points"], f["build"]):
                        small = s
                        rep = dict(rep, case=json.loads(json.dumps(rep["case"])))
                log("struct:\n%s\n%s" % (definition(small), rep["message"]))
                replay_file = save_replay("C13-%s-s%d-b%d-w%d-i%d.json" % (f["build"], seed(), batch, f["w"], f["index"]),
                                          dict(kind="run", struct=small, definition=definition(small), message=rep["message"], case=rep["case"], build=f["build"]))
    if not tally.rule:
        tally.rule = "Generated struct definitions deriving PointConvertible, compiled and exercised; non-trivial: at least 1 point."
    tally.evaluations += stats["reject_definitions"]
    tally.samples = [dict(struct=s) for s in samples] + tally.samples[:3]
    write_evidence(PROP, tier, time.time() - t0, tally, 1 if replay_file else 0, dict(stats), run.ASSUMPTIONS["*"] + [
        "structs with generic parameters and duplicate message names are not generated; field types are the eight primitive names (no aliases or paths)"])
    log("C13: %d evaluations over %d structs, %d definitions that must not compile, %.0f s" % (tally.evaluations, stats["structs"], stats["reject_definitions"], time.time() - t0))
    if replay_file:
        print("VIOLATION property=%s replay=%s" % (PROP, replay_file), flush=True)
        return 1
    return 0


def case_fails(struct, points, build_name):
    try:
        exe = build([struct], [build_name], "shrink")[build_name]
    except CheckError:
        return False
    with Scratch("C13-one") as scratch:
        t = os.path.join(scratch, "case.json")
        json.dump(dict(property=PROP, message="", case=dict(of=0, points=points)), open(t, "w"))
        return subprocess.run([exe, "replay", PROP, t], env=run_env({}), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits(build_name, 8), timeout=300).returncode == 1
