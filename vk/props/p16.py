"""P16: rule-based barriers and rates against an independent rule interpreter."""
import copy
import json
import math

from ..toys import KB, VACS, build_run, make_toy
from .p13 import direction

TECHNIQUE = "runtime monitoring: every barrier lookup and every live rate of real runs compared online with an independent interpreter of the raw rule list; malformed-rule fault injection"
LEVEL = ("exploration", "Random ordered rule lists of all five kinds with all selectors (endpoints, environment, canonical, all sites, explicit sites), evaluated on random events and states and along whole runs; the interpreter works on the rule text given to the model. Malformed rules and uncovered environments are injected one by one.")
CASES = {"quick": 400, "thorough": 6000}
RULE = "rule list x event x state (direct) or x crystal x trajectory (runs); distinct by (rule kinds, selectors, matched rule)"
MIN = {"barriers": 2500, "rates_in_runs": 2500, "available": 800, "blocked": 800, "rule_matched": 1500, "default_used": 300, "uncovered": 60, "malformed": 1500, "nonlocal_runs": 10, "two_properties": 300}
ASSUMPTIONS = ["barriers in meV, k = 8.617333262145e-2 meV/K"]
ALIAS = {0: ["occupied", "match", "template", 0], 1: ["vacant", "vacancy", "mismatch", "other", 1]}
NAMES = {a: k for k, v in ALIAS.items() for a in v}
SELECT = ["local_env", "mobile_ion", "canonical", "from", "to", "all"]


def state_of(v):
    return NAMES.get(v, v) if not isinstance(v, int) else v


def sites_of(spec, mobile, env, n):
    if isinstance(spec, (list, tuple)):
        return list(spec)
    if spec == "canonical":
        out = []
        for s in list(mobile) + list(env):
            if s not in out:
                out.append(s)
        return out
    return {"local_env": list(env), "mobile_ion": list(mobile), "from": [mobile[0]], "to": [mobile[1]], "all": list(range(n))}[spec]


def counts(rule, c):
    return (("count" not in rule or c == rule["count"]) and ("min_count" not in rule or c >= rule["min_count"])
            and ("max_count" not in rule or c <= rule["max_count"]))


def matches(rule, mobile, env, occ, names):
    if "mobile_ion_indices" in rule and list(rule["mobile_ion_indices"]) != list(mobile):
        return False
    if "local_env_indices" in rule and list(rule["local_env_indices"]) != list(env):
        return False
    kind = rule["_kind"]
    if kind == "constant":
        return True
    if kind == "exact":
        return [occ[s] for s in sites_of("canonical", mobile, env, len(occ))] == [state_of(v) for v in rule["occupations"]]
    default = "canonical" if kind == "pattern" else "local_env"
    here = sites_of(rule.get("sites", default), mobile, env, len(occ))
    if kind == "pattern":
        return all(p == "*" or state_of(p) == occ[s] for p, s in zip(rule["pattern"], here))
    if kind == "state_count":
        return counts(rule, sum(occ[s] == state_of(rule["state"] if "state" in rule else rule["occupation"]) for s in here))
    want = [rule["species"]] if isinstance(rule["species"], str) else rule["species"]
    return counts(rule, sum(names[s][occ[s]] in want for s in here))


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def alias(rng, s):
    return pick(rng, ALIAS[s]) if s in ALIAS else s


def make_rules(rng, states, events, occs, names, n=None):
    """Raw rules; '_kind' is the checker's own note and is removed before the model sees them."""
    nsites, smax = len(states), max(states)
    out, exact_seen = [], set()
    for r in range(int(rng.integers(0, 7)) if n is None else n):
        kind = pick(rng, ["state_count", "species_count", "pattern", "exact", "state_count", "constant" if rng.random() < 0.3 else "pattern"])
        ev, occ = pick(rng, events), pick(rng, occs)
        rule = {"_kind": kind, "type": kind}
        spec = pick(rng, SELECT) if rng.random() < 0.8 else [int(v) for v in rng.permutation(nsites)[: int(rng.integers(1, min(nsites, 5) + 1))]]
        here = sites_of(spec, ev[0], ev[1], nsites)
        if kind == "exact":
            o = [occ[s] for s in sites_of("canonical", *ev, nsites)]
            key = (tuple(ev[0]), tuple(sites_of("canonical", *ev, nsites)), tuple(o))
            if key in exact_seen:
                continue
            exact_seen.add(key)
            rule.update(mobile_ion_indices=list(ev[0]), local_env_indices=list(ev[1]), occupations=[alias(rng, v) for v in o])
        elif kind == "pattern":
            if len({len(sites_of(spec, *e, nsites)) for e in events}) > 1:
                spec = pick(rng, ["mobile_ion", "from", "to", "all"])
                here = sites_of(spec, *ev, nsites)
            if not here:
                continue
            rule["sites"] = spec
            w = rng.uniform(0.2, 0.95)
            rule["pattern"] = ["*" if rng.random() < w else alias(rng, occ[s] if rng.random() < 0.8 else int(rng.integers(smax))) for s in here]
            if spec == "canonical" and rng.random() < 0.3:
                del rule["sites"]
        else:
            rule["sites"] = spec
            if kind == "state_count":
                s = int(rng.integers(smax))
                rule["state" if rng.random() < 0.8 else "occupation"] = alias(rng, s)
                c = sum(occ[k] == s for k in here)
            elif kind == "species_count":
                pool = sorted({v for d in names.values() for v in d.values()})
                sp = [pool[int(k)] for k in rng.permutation(len(pool))[: int(rng.integers(1, 5))]]
                rule["species"] = sp[0] if len(sp) == 1 and rng.random() < 0.5 else sp
                c = sum(names[k][occ[k]] in sp for k in here)
            if kind != "constant":
                c = max(0, c + int(rng.integers(-1, 2)))
                m = int(rng.integers(4))
                if m == 0:
                    rule["count"] = c
                if m in (1, 3):
                    rule["min_count"] = c
                if m in (2, 3):
                    rule["max_count"] = c + (int(rng.integers(0, 3)) if m == 3 else 0)
                if spec == "local_env" and rng.random() < 0.3:
                    del rule["sites"]
            else:
                del rule["sites"]
                rule["mobile_ion_indices"] = list(ev[0])
        if kind not in ("exact", "constant") and rng.random() < 0.15:
            m = int(rng.integers(3))
            if m != 1:
                rule["mobile_ion_indices"] = list(ev[0])
            if m != 0:
                rule["local_env_indices"] = list(ev[1])
        if rng.random() < 0.25:
            del rule["type"]
            if rng.random() < 0.5 and kind == "exact":
                rule["type"] = "exact"
        b = float(rng.uniform(-20, 400)) if rng.random() < 0.8 else int(rng.integers(50, 400))
        if rng.random() < 0.5:
            rule["barrier"] = b
        else:
            rule["properties"] = {"barrier": b, "extra": float(r)}
        if rng.random() < 0.6:
            rule["name"] = f"rule-{r}"
        if "type" not in rule and kind == "constant":
            rule["type"] = "constant"
        out.append(rule)
    return out


def barrier_of(rule):
    return float(rule["barrier"] if "barrier" in rule else rule["properties"]["barrier"])


def raw(rule):
    return {k: copy.deepcopy(v) for k, v in rule.items() if k != "_kind"}


def lookup(rules, mobile, env, occ, names, default):
    for k, r in enumerate(rules):
        if matches(r, mobile, env, occ, names):
            return k, barrier_of(r)
    return None, default


def build_model(rng, rules, names, default):
    """The same rules through the constructor, add_rule, the add_* helpers or a payload."""
    from kmcpy.models import LocalBarrierModel

    ss = {(str(k) if rng.random() < 0.5 else k): {(str(s) if rng.random() < 0.3 else s): v for s, v in d.items()} for k, d in names.items()}
    way = int(rng.integers(5))
    rs = [raw(r) for r in rules]
    keep = copy.deepcopy(rs)
    kw = {"site_species": ss}
    if default is not None:
        if rng.random() < 0.5:
            kw["default_barrier"] = default
        else:
            kw["default_properties"] = {"barrier": default, "other": 1.0}
    if way == 0:
        m = LocalBarrierModel(rules=rs, **kw)
    elif way == 1:
        m = LocalBarrierModel(**kw)
        for r in rs:
            m.add_rule(r)
    elif way == 2:
        m = LocalBarrierModel(**kw)
        for r, k in zip(rs, [x["_kind"] for x in rules]):
            fn = {"state_count": m.add_state_count_rule, "species_count": m.add_species_count_rule, "pattern": m.add_pattern_rule, "exact": m.add_exact_rule}.get(k)
            a = {("state" if x == "occupation" else x): v for x, v in r.items() if x != "type"}
            if fn is None or (k != "exact" and ("mobile_ion_indices" in a or "local_env_indices" in a)):
                m.add_rule(r)
            else:
                fn(**a)
    elif way == 3:   # replacing another rule table; what is not given stays
        old = {} if default is None else {"default_barrier": 777.0}
        if rng.random() < 0.5:
            old["rules"] = [{"type": "constant", "barrier": 55.0}]
        m = LocalBarrierModel(site_species={0: {0: "Zz"}}, **old)
        m.build(rules=rs, **kw)
    else:
        p = {"rules": rs, "site_species": {str(k): {str(s): v for s, v in d.items()} for k, d in names.items()}}
        if default is not None:
            p["default_barrier"] = default
        m = LocalBarrierModel.from_dict(json.loads(json.dumps(p)))
    return m, rs == keep


def direct(ctx, rng, i):
    from kmcpy.event import Event
    from kmcpy.simulator.config import RuntimeConfig
    from kmcpy.simulator.state import State

    n = int(rng.integers(3, 12))
    states = [int(rng.integers(2, 5)) for _ in range(n)]
    names = {k: {s: f"{pick(rng, ['Si', 'P', 'Al', 'Na'])}" for s in range(q)} for k, q in enumerate(states)}
    events = []
    for _ in range(int(rng.integers(1, 5))):
        p = [int(v) for v in rng.permutation(n)]
        env = [int(v) for v in rng.permutation(n)[: int(rng.integers(0, n))]]
        if rng.random() < 0.5:
            env = [v for v in env if v not in p[:2]]
        events.append((tuple(p[:2]), tuple(env)))
        if rng.random() < 0.3:   # the same hop with its surroundings listed in another order
            events.append((tuple(p[:2]), tuple(int(v) for v in rng.permutation(env))))
    occs = [[int(rng.integers(q)) for q in states] for _ in range(6)]
    for o in occs[:3]:
        a, b = pick(rng, events)[0]
        o[a], o[b] = (0, 1) if rng.random() < 0.5 else (1, 0)
    rules = make_rules(rng, states, events, occs, names)
    default = float(rng.uniform(50, 300)) if rng.random() < 0.75 else None
    if rng.random() < 0.2:
        two_properties(ctx, rng, events, occs, states)
    model, untouched = build_model(rng, rules, names, default)
    ctx.check(untouched, "rules-modified", "building the model changed the caller's rule dictionaries")
    T, nu = float(rng.uniform(200, 1500)), float(10 ** rng.uniform(9, 14))
    rc = RuntimeConfig(temperature=T, attempt_frequency=nu)
    hit = set()
    for mob, env in events:
        ev = Event(mob, env)
        for occ in occs:
            st = State(list(occ))
            k, ref = lookup(rules, mob, env, occ, names, default)
            hit.add(k)
            ctx.count("barriers")
            ctx.count("rule_matched" if k is not None else "default_used")
            free = {occ[mob[0]], occ[mob[1]]} == {0, 1}
            if ref is None:
                ctx.count("uncovered")
                ctx.expect_raises(lambda: model.compute(simulation_state=st, event=ev), Exception, "uncovered", f"no rule covers {mob} {env} {occ} and there is no default")
                if free:
                    ctx.expect_raises(lambda: model.compute_probability(event=ev, runtime_config=rc, simulation_state=st), Exception, "uncovered-rate", "rate of an uncovered available hop")
            else:
                got = model.compute(simulation_state=st, event=ev)
                ctx.check(got == ref, "barrier", lambda: f"event {mob} env {env} occ {occ}: barrier {got}, rule {k} of {rules} gives {ref}")
            if not free or ref is not None:
                p = model.compute_probability(event=ev, runtime_config=rc, simulation_state=st)
                law = nu * math.exp(-ref / (KB * T)) if free else 0.0
                ctx.count("available" if free else "blocked")
                ctx.check(abs(p - law) <= 1e-10 * law, "rate", lambda: f"event {mob} occ {occ}: rate {p}, barrier {ref} at {T} K gives {law}")
            ctx.check(list(st.occupations) == occ and st.time == 0 and st.step == 0, "side-effect", "a lookup changed the state")
    ctx.sig("direct", tuple(sorted({r["_kind"] for r in rules})), tuple(sorted(str(r.get("sites")) if isinstance(r.get("sites"), str) else "explicit" for r in rules if "sites" in r)), tuple(sorted(str(h) for h in hit)))


def two_properties(ctx, rng, events, occs, states):
    """One property is looked up, another one makes the rates."""
    from kmcpy.event import Event
    from kmcpy.models import LocalBarrierModel
    from kmcpy.simulator.config import RuntimeConfig
    from kmcpy.simulator.state import State

    v = [float(x) for x in rng.uniform(60, 300, 6)]
    rules = [{"type": "state_count", "sites": "all", "state": 0, "min_count": 1 + len(states) // 2, "properties": {"shown": v[0], "saddle": v[1], "barrier": v[4]}}]
    kw = dict(default_properties={"shown": v[2], "saddle": v[3], "barrier": v[5]}, default_property="shown", probability_property="saddle")
    m = LocalBarrierModel(rules=rules, **kw)
    models = [m, LocalBarrierModel.from_dict(json.loads(json.dumps(m.as_dict())))]
    b = LocalBarrierModel(default_barrier=5.0)
    b.build(rules=copy.deepcopy(rules), **kw)
    models.append(b)
    rc = RuntimeConfig(temperature=500.0, attempt_frequency=1e12)
    for mob, env in events:
        for occ in occs:
            k = 0 if sum(o == 0 for o in occ) >= 1 + len(states) // 2 else 2
            st, ev = State(list(occ)), Event(mob, env)
            free = {occ[mob[0]], occ[mob[1]]} == {0, 1}
            for w, m in enumerate(models):
                ctx.count("two_properties")
                got = (m.compute(simulation_state=st, event=ev), m.compute(simulation_state=st, event=ev, property_name="saddle"), m.compute(simulation_state=st, event=ev, property_name="barrier"))
                ctx.check(got == (v[k], v[k + 1], v[4 + k // 2]), "property", lambda: f"model {w}: properties {got}, the table says {(v[k], v[k + 1], v[4 + k // 2])}")
                p = m.compute_probability(event=ev, runtime_config=rc, simulation_state=st)
                law = 1e12 * math.exp(-v[k + 1] / (KB * 500.0)) if free else 0.0
                ctx.check(abs(p - law) <= 1e-10 * law, "property-rate", lambda: f"model {w}: rate {p}, the property named for rates gives {law}")
                ctx.expect_raises(lambda: m.compute(simulation_state=st, event=ev, property_name="absent"), Exception, "property-absent", "an unknown property was returned")


BAD = [
    ("unknown-type", lambda r: r.update(type="geometry")),
    ("unknown-selector", lambda r: r.update(sites="neighbours")),
    ("no-property", lambda r: (r.pop("barrier", None), r.pop("properties", None))),
    ("text-barrier", lambda r: (r.pop("properties", None), r.update(barrier="300"))),
    ("bool-barrier", lambda r: (r.pop("properties", None), r.update(barrier=True))),
    ("float-site", lambda r: r.update(sites=[0.5])),
    ("empty-sites", lambda r: r.update(sites=[])),
]
BAD_COUNT = [
    ("no-count", lambda r: [r.pop(k, None) for k in ("count", "min_count", "max_count")]),
    ("count-and-range", lambda r: r.update(count=1, min_count=1)),
    ("negative-count", lambda r: ([r.pop(k, None) for k in ("count", "max_count")], r.update(min_count=-1))),
    ("bool-count", lambda r: ([r.pop(k, None) for k in ("count", "max_count")], r.update(min_count=True))),
    ("float-count", lambda r: ([r.pop(k, None) for k in ("count", "max_count")], r.update(min_count=1.5))),
]
BAD_KIND = {
    "state_count": BAD_COUNT + [("negative-state", lambda r: r.update(state=-1)), ("negative-text-state", lambda r: r.update(state="-1")), ("unknown-alias", lambda r: r.update(state="full")), ("no-state", lambda r: r.pop("state"))],
    "species_count": BAD_COUNT + [("empty-species", lambda r: r.update(species=[])), ("number-species", lambda r: r.update(species=[3])), ("no-species", lambda r: r.pop("species"))],
    "pattern": [("empty-pattern", lambda r: r.update(pattern=[])), ("bad-pattern", lambda r: r.update(pattern=["?"] + r["pattern"][1:])), ("text-pattern", lambda r: r.update(pattern="01")), ("negative-pattern", lambda r: r.update(pattern=[-1] + r["pattern"][1:]))],
    "exact": [("short-exact", lambda r: r["occupations"].pop()), ("long-exact", lambda r: r["occupations"].append(0)), ("no-sites", lambda r: r.pop("mobile_ion_indices")), ("no-env", lambda r: r.pop("local_env_indices")), ("bad-state", lambda r: r["occupations"].__setitem__(0, "full"))],
    "constant": [],
}


def malformed(ctx, rng, i):
    from kmcpy.event import Event
    from kmcpy.models import LocalBarrierModel
    from kmcpy.simulator.state import State

    n = 6
    states = [3] * n
    names = {k: {s: "ABC"[s] for s in range(3)} for k in range(n)}
    events = [((0, 1), (2, 3, 4)), ((1, 2), (0, 3, 5))]
    occs = [[int(rng.integers(3)) for _ in range(n)] for _ in range(3)]
    rules = make_rules(rng, states, events, occs, names, n=12)
    kept = [raw(r) for r in rules]
    LocalBarrierModel(rules=kept, site_species=names)
    for r in rules:
        kind = r["_kind"]
        generic = [b for b in BAD if "site" not in b[0] and "selector" not in b[0] or (kind not in ("exact", "constant") and "sites" in r)]
        for name, spoil in generic + BAD_KIND[kind]:
            bad = raw(r)
            bad.setdefault("type", kind)
            if "occupation" in bad:
                bad["state"] = bad.pop("occupation")
            spoil(bad)
            ctx.count("malformed")
            m = LocalBarrierModel(default_barrier=100.0, site_species=names)
            ctx.expect_raises(lambda: m.add_rule(copy.deepcopy(bad)), Exception, f"accepted-{name}", f"rule {bad} accepted")
            ctx.check(not m.rules, f"kept-{name}", f"refused rule {bad} was kept")
            if rng.random() < 0.2:
                ctx.expect_raises(lambda: LocalBarrierModel.from_dict({"default_barrier": 1.0, "rules": kept + [bad]}), Exception, f"loaded-{name}", f"payload with {bad} accepted")
        if kind == "exact":
            ctx.expect_raises(lambda: LocalBarrierModel(rules=[raw(r), raw(r)]), Exception, "duplicate-exact", "duplicate exact rule accepted")
            ctx.count("malformed")
            ctx.expect_raises(lambda: LocalBarrierModel(rules=kept + [dict(raw(r), name="again", barrier=1.0)], site_species=names), Exception, "duplicate-exact-late", "a second exact rule for the same environment was accepted at the end of a longer table")
    # malformed for the event at hand
    st, ev = State([0, 1, 0, 0, 1, 2]), Event((0, 1), (2, 3))
    for bad in ({"type": "pattern", "sites": "canonical", "pattern": ["*"] * 5, "barrier": 1.0},
                {"type": "pattern", "sites": "local_env", "pattern": ["*"], "barrier": 1.0},
                {"type": "state_count", "sites": [7], "state": 0, "min_count": 0, "barrier": 1.0},
                {"type": "species_count", "sites": [5], "species": "A", "min_count": 0, "barrier": 1.0}):
        m = LocalBarrierModel(default_barrier=9.0, site_species={5: {0: "A", 1: "B"}}, rules=[bad])
        ctx.count("malformed")
        ctx.expect_raises(lambda: m.compute(simulation_state=st, event=ev), Exception, "event-mismatch", f"{bad} evaluated on {ev} {st.occupations}")
    ctx.expect_raises(lambda: LocalBarrierModel(rules=[], probability_mode="metropolis"), Exception, "mode", "unknown probability mode accepted")
    ctx.sig("malformed", len(rules))


def run(ctx, rng, i):
    """Live rates of a whole run against the interpreter; rules may look anywhere."""
    toy = make_toy(rng, max_sites=40)
    box = {}

    def payload(rng, toy, aso, allowed):
        names = {k: {s: ("Vacancy" if v in VACS else v) for s, v in enumerate(a)} for k, a in enumerate(allowed)}
        lib = json.load(open("events.json"))["events"]
        events = [(tuple(e["mobile_ion_indices"]), tuple(e["local_env_indices"])) for e in lib]
        occs = [[int(rng.integers(len(a))) for a in allowed] for _ in range(3)]
        rules = make_rules(rng, [len(a) for a in allowed], events, occs, names, n=int(rng.integers(1, 6)))
        for r in rules:   # keep the dynamics mixed
            if "barrier" in r:
                r["barrier"] = float(rng.uniform(80, 250))
            else:
                r["properties"]["barrier"] = float(rng.uniform(80, 250))
        default = float(rng.uniform(80, 250))
        from kmcpy.models import LocalBarrierModel

        box.update(rules=rules, names=names, default=default)
        return json.loads(json.dumps(LocalBarrierModel(rules=[raw(r) for r in rules], default_barrier=default, site_species=names).as_dict()))

    toy, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, model_payload=payload, spy=False, kmc_passes=1, equilibration_passes=int(rng.integers(0, 2)))
    T, nu = config.runtime_config.temperature, config.runtime_config.attempt_frequency
    evs = [((tuple(int(v) for v in e.mobile_ion_indices)), tuple(int(v) for v in e.local_env_indices), e) for e in kmc.event_lib.events]
    nonlocal_ = any(r.get("sites") == "all" or isinstance(r.get("sites"), list) for r in box["rules"])
    if nonlocal_:
        ctx.count("nonlocal_runs")

    def look(occ, rates, where):
        for k, (mob, env, ev) in enumerate(evs):
            d = direction(allowed, occ, ev, toy.mobile)
            ctx.count("rates_in_runs")
            ctx.count("available" if d else "blocked")
            _, b = lookup(box["rules"], mob, env, occ, box["names"], box["default"])
            law = nu * math.exp(-b / (KB * T)) if d else 0.0
            ctx.check(abs(rates[k] - law) <= 1e-9 * law, "live-rate", lambda: f"{toy.name} {where}: event {mob} rate {rates[k]}, rules give {law} (barrier {b}); rules {box['rules']}")

    look(occ, list(kmc.prob_list), "start")
    rows = []
    kmc.attach(lambda s, step, t: rows.append((list(s.occupations), [float(v) for v in kmc.prob_list])) if len(rows) < 12 else None, interval=1, name="vk", store=False)
    kmc.run()
    for r, (o, p) in enumerate(rows):
        if r % 3 == 2:
            look([int(v) for v in o], p, f"sample {r}")
    ctx.sample({"case": i, "crystal": toy.name, "rules": [raw(r) for r in box["rules"]][:2], "events": len(evs), "samples": len(rows)})
    ctx.sig("run", toy.name, tuple(sorted({r["_kind"] for r in box["rules"]})), nonlocal_)


def case(ctx, rng, i):
    [direct, direct, run, malformed, direct, run, direct, direct][i % 8](ctx, rng, i)


def exact_catalogue(ctx, rng):
    """A catalogue of exact entries for the hops that can happen drives a run without a fallback."""
    from kmcpy.models import LocalBarrierModel
    from kmcpy.simulator.state import State
    from kmcpy.event import Event
    from ..toys import Toy

    toy = Toy("chain", (4.0, 12.0, 12.0), (90.0, 90.0, 90.0), [("Na1", "Na", (0.0, 0.0, 0.0))], {"Na": ["Na", "X"]}, (5, 1, 1), 4.5)

    def payload(rng, toy, aso, allowed):
        lib = json.load(open("events.json"))["events"]
        entries = []
        for e in lib:
            ev = Event(tuple(e["mobile_ion_indices"]), tuple(e["local_env_indices"]))
            i, j = ev.mobile_ion_indices
            for at in range(5):       # one ion on the ring
                if at in (i, j):
                    entries.append(LocalBarrierModel.entry_from_event_state(ev, State([0 if k == at else 1 for k in range(5)]), {"barrier": 100.0 + 10 * at}))
        uniq = list({json.dumps(e, sort_keys=True): e for e in entries}.values())
        return LocalBarrierModel.from_exact_entries(uniq).as_dict()

    _, _, _, _, config, kmc = build_run(rng, toy=toy, occ=[0, 1, 1, 1, 1], model_payload=payload, spy=False, kmc_passes=3)
    T, nu = config.runtime_config.temperature, config.runtime_config.attempt_frequency

    def look():
        at = [int(v) for v in kmc.simulation_state.occupations].index(0)
        for e, p in zip(kmc.event_lib.events, kmc.prob_list):
            free = at in (int(v) for v in e.mobile_ion_indices)
            law = nu * math.exp(-(100 + 10 * at) / (KB * T)) if free else 0.0
            ctx.check(abs(p - law) <= 1e-9 * law, "catalogue", f"ion on {at}: event {e.mobile_ion_indices} rate {p}, catalogue {law}")

    look()
    kmc.attach(lambda s, step, t: look(), interval=1, name="vk", store=False)
    kmc.run()


NAMED = {"exact_catalogue": exact_catalogue}
