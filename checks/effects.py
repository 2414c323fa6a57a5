"""P07: what the library's code may touch. Decided on the resolved callees of every body, its statics and its unsafe code."""
import re

from .base import spec_of
from engine.spec import Finding

# resolved callees that reach outside of the arguments
OUTSIDE = [
    (r"^std::(fs|net|env|time|thread|process|os|sys)(::|$)", "the operating system"),
    (r"^std::io::(stdio|copy)(::|$)|^std::io::_e?print", "a standard stream"),
    (r"(^|[<& ])std::(io::stdio|fs|net|process|os)::", "the operating system"),
    (r"^std::path::Path::(exists|try_exists|canonicalize|metadata|symlink_metadata|is_file|is_dir|is_symlink|read_dir|read_link)$", "the file system"),
    (r"^std::path::absolute$", "the current directory"),
    (r"RandomState|^std::hash::random", "a random hasher"),
    (r"^(rand|rand_core|getrandom|fastrand|libc|tokio|async_std|mio|socket2|log|tracing|chrono)::", "the world outside of the arguments"),
    (r"^filetime::(FileTime::now|set_|FileTime::from_last|FileTime::from_creation)", "the clock or the file system"),
    (r"^quick_protobuf::.*(from_file|to_file)", "the file system"),
    (r"^core::sync::atomic::|core::arch::|^std::arch::", "shared or machine state"),
    (r"^std::backtrace::|^std::panic::(set_hook|take_hook|catch_unwind)|^std::alloc::", "process state"),
    (r"::expose_provenance$|<\*(const|mut) .* as core::fmt::Pointer>|as core::fmt::Pointer>::fmt|fmt::rt::Argument.*::new_pointer", "the address of an allocation"),
]
OUTSIDE = [(re.compile(a), b) for a, b in OUTSIDE]
HASHED = re.compile(r"std::collections::hash::(map|set)::|hashbrown::|HashMap|HashSet")
ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "extract_if",
        "difference", "intersection", "union", "symmetric_difference"}
SORT = re.compile(r"::sort(_|$)|BTreeMap|BTreeSet|BinaryHeap|::is_sorted")
# what records or picks in the order it is given
SINK = re.compile(r"::(push|push_back|push_front|push_str|extend|extend_from_slice|append|insert|collect|from_iter|find|find_map|position|next|last|nth|"
                  r"min_by_key|max_by_key|min_by|max_by|take|skip|zip|enumerate|fold|try_fold|reduce|write_\w+|write|put_\w+|set|replace)$")
COUNT = {"next"}        # a loop's own step


def callees(x):
    if isinstance(x, dict):
        f = x.get("fn")
        if isinstance(f, dict):
            yield f
        for v in x.values():
            yield from callees(v)
    elif isinstance(x, list):
        for v in x:
            yield from callees(v)


def finding(l, where, what, problem, line=None):
    l.findings.append(Finding(l.prop, where, what, "%s|%s|%s" % (l.prop, where, what), {"problem": problem, "line": line}))


@spec_of("P07")
def effects(l):
    d = l.dumps[0]
    ty = d["types"]
    bodies = [b for b in d["bodies"] if b["local"] and b["crate"] == d["crate"]]
    groups = {}
    for b in bodies:
        groups.setdefault(b["root"], []).append(b)
    for root, bs in sorted(groups.items()):
        l.stats["functions"].add(root)
        hashed, names, sites = None, [], 0
        for b in bs:
            for f in callees(b):
                sites += 1
                if f["kind"] != "item" and f["kind"] != "shim" and f.get("local"):
                    continue
                p = f.get("path") or f["decl"]
                full = p + "|" + f["decl"]
                l.stats["obligations"] += 1
                bad = None
                if not f.get("local"):
                    for rx, what in OUTSIDE:
                        if rx.search(p) or rx.search(f["decl"]):
                            bad = what
                            break
                if bad:
                    finding(l, root, "calls " + p, "%s:%s %s calls %s, which reaches %s" % (b["file"], b["line"], root, p, bad), b["line"])
                    continue
                l.stats["proved"] += 1
                names.append(full)
                s = p
                if f.get("impl_self") is not None:
                    s += " " + ty[f["impl_self"]]["str"]
                if f["args"] and isinstance(f["args"][0], int):
                    s += " " + ty[f["args"][0]]["str"] if f["name"] in ("into_iter",) else ""
                if HASHED.search(s) and f["name"] in ITER and not f.get("local"):
                    hashed = p
        if hashed:
            l.stats["obligations"] += 1
            if any(SORT.search(n) for n in names):
                l.stats["proved"] += 1
            else:
                inloop = [n for n in names if SINK.search(n.split("|")[0]) and not HASHED.search(n)
                          and n.split("|")[0].rsplit("::", 1)[-1] not in COUNT]
                if inloop:
                    finding(l, root, "hash order", "%s goes through a hash table with %s and records what it finds in that order (%s)" % (
                        root, hashed, inloop[0].split("|")[0]))
                else:
                    l.stats["proved"] += 1
        l.sites.append({"function": root, "call_sites": sites})
    for s in d["statics"]:
        l.stats["obligations"] += 1
        t = s["ty"]
        inner = re.sub(r"^(std::sync::|core::cell::|std::cell::|once_cell::\w+::)?(LazyLock|LazyCell|Lazy)<", "", t)
        benign = inner != t and not re.search(r"Cell|Mutex|RwLock|Atomic|Once", inner)
        once = re.match(r"(std::sync::|once_cell::\w+::)?OnceLock<", t) and not any(
            "OnceLock" in (f.get("path") or "") and f["name"] not in ("new", "get", "get_or_init", "deref") for b in bodies for f in callees(b))
        if s["mut"] or not (s["freeze"] or benign or once):
            finding(l, s["path"], "global state", "the static %s: %s can change while the library runs" % (s["path"], t))
        else:
            l.stats["proved"] += 1
    for i in d["items"]:
        if i["kind"].startswith("ForeignMod"):
            finding(l, i["path"], "foreign code", "code outside of Rust is declared in %s" % i["path"])
    l.stats["obligations"] += 1
    for u in d["unsafe"]:
        finding(l, u, "unsafe", "%s: the compiler does not vouch for what it does" % u)
    if not d["unsafe"]:
        l.stats["proved"] += 1
