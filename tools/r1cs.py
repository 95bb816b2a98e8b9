"""Exhaustive exploration (spec/R1CS.tla) of constraint systems dumped by the drivers."""
import json, os, re
from lib import *


def order(cons):
    """Greedy order of the constraints that keeps few variables alive; ties in the circuit's own order."""
    vs = [sorted({v for row in c for _, v in row if v}) for c in cons]
    left = {}
    for x in vs:
        for v in x:
            left[v] = left.get(v, 0) + 1
    todo = list(range(len(cons)))
    at = {}
    for k, x in enumerate(vs):
        for v in x:
            at.setdefault(v, set()).add(k)
    live, out = set(), []
    todo_set = set(todo)
    nxt = 0

    def delta(k):
        d = 0
        for v in vs[k]:
            if v not in live:
                d += 1
            if left[v] == 1:
                d -= 1
        return d

    while todo_set:
        while nxt < len(cons) and nxt not in todo_set:
            nxt += 1
        cand = {nxt}
        for v in live:
            cand |= at[v]
        cand &= todo_set
        k = min(cand, key=lambda k: (delta(k), sum(1 for v in vs[k] if v not in live), k))
        out.append(k)
        todo_set.discard(k)
        for v in vs[k]:
            at[v].discard(k)
            left[v] -= 1
            if left[v] == 0:
                live.discard(v)
            else:
                live.add(v)
    return out


def split(cons, most=5):
    """Long sums become chains of partial sums (new variables, each defined by one constraint), so that
    their terms need not all be alive at once.  Sums with a common beginning share its chain."""
    top = max([v for c in cons for row in c for _, v in row] + [0]) + 1
    made, out = {}, []
    for c in cons:
        rows = []
        for row in c:
            terms = sorted([t for t in row if t[1]], key=lambda t: t[1])
            if len(terms) > most:
                prev = None
                for i in range(2, len(terms) + 1):
                    key = tuple(map(tuple, terms[:i]))
                    if key not in made:
                        made[key] = top
                        out.append([[list(t) for t in terms[:2]] if prev is None else [[1, prev], list(terms[i - 1])], [[1, 0]], [[1, top]]])
                        top += 1
                    prev = made[key]
                row = [t for t in row if not t[1]] + [[1, prev]]
            rows.append(row)
        out.append(rows)
    return out


def layout(c, sec, bits, starts):
    pub = list(range(1, c["ni"]))
    keep = set(sec) | set(pub)
    last = {}
    best = None
    whole = c["cons"]
    parts = split(whole)
    for cons, cand in [(whole, list(range(len(whole)))), (whole, order(whole))] + ([(parts, list(range(len(parts)))), (parts, order(parts))] if len(parts) > len(whole) else []):
        last = {}
        for i, k in enumerate(cand):
            for row in cons[k]:
                for _, v in row:
                    last[v] = i
        known = set(starts)
        free = [v for v in keep if v not in last]
        known |= set(free)
        live, steps, width = set(known), [], 0
        for i, k in enumerate(cand):
            vs = {v for row in cons[k] for _, v in row if v}
            new = sorted(vs - known)
            known |= vs
            live = {v for v in live | vs if v in keep or last[v] > i}
            width = max(width, len(live) + len(new) * 0)
            steps.append({"a": cons[k][0], "b": cons[k][1], "c": cons[k][2], "new": new, "live": sorted(live)})
        if best is None or width < best[0]:
            best = (width, steps, free)
    width, steps, free = best
    p = c["p"]
    st = [[v, starts[v]] for v in starts] + [[v, list(range(p))] for v in free if v not in starts]
    # bits that occur in no constraint cannot be bound by anything: they are free as well
    seen = {v for s in steps for v in s["new"]} | {x[0] for x in st}
    for g in bits:
        for v, _ in g:
            if v not in seen:
                st.append([v, list(range(p))])
                seen.add(v)
    d = {"p": p, "kind": c["kind"], "steps": steps, "start": st, "pub": pub, "sec": sec, "bits": bits,
         "bitmod": c.get("bitmod", p), "d": c.get("d", 0), "c": c.get("c", []), "h": c.get("h", []), "r": c.get("r", 0)}
    return d, width


def check(run, path, limit=150, heap="10g"):
    """Explores every dumped system.  Returns how many were decided."""
    done = 0
    for line in open(path):
        c = json.loads(line)
        sec = c.get("sec", [])
        bits = c.get("bits", [])
        if any(not x for x in sec) or any(not v for g in bits for v, _ in g):
            run.note("%s: committed values not located in the witness; not explored" % c["name"])
            continue
        starts = {int(k): v for k, v in c.get("start", [])}
        alts = max([1] + [len(x) for x in sec] + [len(v) for g in bits for v, _ in g])
        bad = None
        for t in range(min(alts, 3)):
            pick = lambda x: x[min(t, len(x) - 1)]
            d, width = layout(c, [pick(x) for x in sec], [[[pick(v), i] for v, i in g] for g in bits], starts)
            f = os.path.join(run.tmp, "circuit.json")
            json.dump(d, open(f, "w"))
            try:
                rc, o, gen, dist = run.tlc("R1CS", "R1CS.cfg", {"CIRCUIT": f}, timeout=limit, heap=heap)
            except OutOfTime as e:
                run.note("%s: exploration not completed (%s)" % (c["name"], str(e)[:80]))
                break
            if rc == 0:
                ends = re.search(r"depth of the complete state graph search is (\d+)", o)
                run.models.append({"spec": "R1CS", "circuit": c["name"], "states": dist, "transitions": gen,
                                   "constraints": len(c["cons"]), "variables": c["nv"], "live": width,
                                   "reached_end": bool(ends) and int(ends.group(1)) == len(d["steps"]) + 1})
                bad = None
                done += 1
                break
            if "Invariant Sound is violated" not in o:
                raise ToolError("R1CS on %s:\n%s" % (c["name"], o[-3000:]))
            st = o[o.rfind("State "):][:3000] if "State " in o else o[-3000:]
            bad = Violation("constraint system '%s' has a satisfying assignment outside its relation" % c["name"],
                            {"circuit": c["name"], "final_state": st, "public": d["pub"], "committed": d["sec"]})
        if bad:
            raise bad
    return done
