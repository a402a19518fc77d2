"""Makes build/loom/rowan: a copy of /repo's sources compiled over loom's atomics."""
import os, shutil, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))


def make(repo, build):
    out = os.path.join(build, "loom", "rowan")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copytree(os.path.join(repo, "src"), os.path.join(out, "src"))
    lib = os.path.join(out, "src", "lib.rs")
    with open(lib, "a") as f:
        f.write("\nextern crate loomstd as std;\nextern crate loomstd as core;\n")
    t = tomllib.load(open(os.path.join(repo, "Cargo.toml"), "rb"))

    def val(v):
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, str):
            return '"%s"' % v
        if isinstance(v, list):
            return "[" + ", ".join(val(x) for x in v) + "]"
        if isinstance(v, dict):
            return "{ " + ", ".join("%s = %s" % (k, val(x)) for k, x in v.items()) + " }"
        return str(v)

    deps = {}
    for k, v in t.get("dependencies", {}).items():
        v = {"version": v} if isinstance(v, str) else dict(v)
        if "path" in v:
            v["path"] = os.path.join(repo, v["path"])
        deps[k] = v
    deps["loomstd"] = {"path": os.path.join(VERIF, "loom", "loomstd")}
    with open(os.path.join(out, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "lrowan"\nversion = "%s"\nedition = "%s"\npublish = false\n' % (
            t["package"]["version"], t["package"].get("edition", "2021")))
        f.write("\n[lints.rust]\nwarnings = \"allow\"\n\n[dependencies]\n")
        for k, v in deps.items():
            f.write("%s = %s\n" % (k, val(v)))
        f.write("\n[features]\n")
        for k, v in t.get("features", {}).items():
            f.write("%s = %s\n" % (k, val(v)))
    return out


if __name__ == "__main__":
    print(make("/repo", os.path.join(VERIF, "build")))
