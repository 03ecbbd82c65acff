"""C19: rpc ids."""
from lib import *
from mytracer import RpcId


def rand_seg(r):
    return r.choice([0, 1, 2, 9, 10, 99, -1, 12345678901234567890, "x", "a b", "", "\u4e2d", "1x", "0x1f", "-"])


def rand_ids(r, n=None):
    n = n or r.choice([1, 1, 2, 3, 4, 7])
    return [rand_seg(r) for _ in range(n - 1)] + [r.choice([0, 1, 2, 9, 10, 99, -1, 10 ** 20])]


def txt(ids):
    return ".".join(str(i) for i in ids)


def run(R):
    r = R.rng
    # construction, printing, parsing, equality
    pool = [[1], [0], [1, 1], [1, 1, 1], [1, 2], [2, 1], [11], [1, 11], [11, 1], ["x", 1], ["1x", 1], ["", 1], [1, "x", 1], [-1], [0, 0]]
    pool += [rand_ids(r) for _ in range(120)]
    objs = []
    for ids in pool:
        R.case("id", ids)
        with R.guard(5, "hang", "construction", ids):
            try:
                a = RpcId(*ids)
                R.eq(str(a), txt(ids), "print", "printed id", ids)
                b = RpcId(*str(a).split("."))
                R.check(a == b and b == a and not (a != b), "parse", "printing and parsing gives a different id: %s / %s" % (a, b), ids)
                c = RpcId(*[str(i) for i in ids])
                R.check(a == c, "parse", "id built from texts differs", ids)
                objs.append(a)
            except Exception as e:
                R.fail("error", repr(e), ids)
                objs.append(None)
    for i, a in enumerate(objs):
        for j, b in enumerate(objs):
            if a is None or b is None:
                continue
            R.check((a == b) is (pool[i] == pool[j]) and (a != b) is (pool[i] != pool[j]), "equality", "%r == %r is %r" % (pool[i], pool[j], a == b), (pool[i], pool[j]))
    R.case("default")
    R.eq(str(RpcId()), "1", "print", "default id", ())
    for bad in (["x"], [1, "x"], ["1", ""], ["", "a.1"], [1, 2, "1x"], [1, "--1"], ["x", "y", "z"], ["1.2"], [""]):
        R.case("bad", bad)
        try:
            x = RpcId(*bad)
            R.fail("not-rejected", "id %r whose last segment is not a number was accepted as %s" % (bad, x), bad)
        except Exception:
            pass
    # derivations
    for h in range(4000 if R.thorough else 600):
        ids = rand_ids(r)
        hist = []
        R.case("history", h)
        root = RpcId(*ids)
        nodes = [dict(o=root, ids=ids, parent=None, fam=[])]
        try:
            with R.guard(10, "hang", "derivation", (ids, hist)):
                for _ in range(r.choice([3, 6, 12, 40])):
                    n = r.choice(nodes[:4] if r.random() < .6 else nodes)
                    kind = r.choice(["child_of", "follows_from"])
                    hist.append((nodes.index(n), kind))
                    before = [str(x["o"]) for x in nodes]
                    o = n["o"].new_by_reference_type(kind)
                    got = str(o)
                    R.check([str(x["o"]) for x in nodes] == before, "frame", "a derivation changed another id", (ids, hist))
                    fam = n if kind == "child_of" else n["parent"]
                    if fam is None:
                        want = n["ids"][:-1] + [n["ids"][-1] + 1]
                        if not R.eq(got, txt(want), "followup", "follow-up without known parent", (ids, hist)):
                            break
                        nodes.append(dict(o=o, ids=want, parent=None, fam=[]))
                        continue
                    pre = txt(fam["ids"])
                    tail = got[len(pre) + 1:]
                    if not R.check(got.startswith(pre + ".") and tail.lstrip("-").isdigit(), "child", "%s of %s gives %s, not a child of %s" % (kind, txt(n["ids"]), got, pre), (ids, hist)):
                        break
                    seg = int(tail)
                    if not R.check(got not in fam["fam"], "sibling", "%s of %s gives %s again" % (kind, txt(n["ids"]), got), (ids, hist)):
                        break
                    fam["fam"].append(got)
                    nodes.append(dict(o=o, ids=fam["ids"] + [seg], parent=fam, fam=[]))
                    R.check(o == RpcId(*(fam["ids"] + [seg])), "equality", "derived id differs from the id with its segments", (ids, hist))
        except Exception as e:
            R.fail("error", repr(e), (ids, hist))
    # many derivations from one parent
    for kind in ("child_of", "follows_from"):
        R.case("many", kind)
        p = RpcId(3, 7)
        o = p.new_by_reference_type("child_of")
        seen = {str(o)}
        for i in range(70000 if R.thorough else 10000):
            o = (p if kind == "child_of" or i % 3 == 0 else o).new_by_reference_type("child_of" if kind == "child_of" or i % 3 == 0 else kind)
            if not R.check(str(o) not in seen and str(o).startswith("3.7."), "sibling", "derived id %s repeats or is no child of 3.7" % o, (kind, i)):
                break
            seen.add(str(o))
