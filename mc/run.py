"""python run.py C01 [--tier quick|thorough] [--replay FILE]"""
import os, sys, json, signal, argparse, importlib, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = json.load(open(a.replay))["key"] if a.replay else None
    if a.replay:
        tier = json.load(open(a.replay)).get("tier", tier)
    core.boot()
    ctx = core.Ctx(a.prop, tier, seed, replay)
    spec = {"level": "exploration", "rule": "", "bounds": ""}
    try:
        mod = importlib.import_module(a.prop.lower())
        spec = mod.SPEC
        mod.run(ctx)
    except core.Stop:
        pass
    except core.Undecided as e:
        print(f"{a.prop}: no answer: {e}", flush=True)
        os._exit(2)
    except (Exception, SystemExit, core.Hang) as e:
        if ctx.current is None:
            ctx.current = ["import"]
        try:
            ctx.crash(e)
        except core.Stop:
            pass
    signal.alarm(0)
    ctx.evidence(spec)
    for tag, text in ctx.known:
        if tag in ctx.known_hits:
            print(f"KNOWN-FINDING: property={a.prop} {text}", flush=True)
    seen = set()
    for f in ctx.fails:
        name = hashlib.blake2b(json.dumps(f["key"]).encode(), digest_size=6).hexdigest()
        path = os.path.join(core.EVIDENCE, f"replay-{a.prop}-{name}.json")
        with open(path, "w") as h:
            json.dump(f, h, indent=1)
        if path in seen or len(seen) >= 8:
            continue
        seen.add(path)
        print(f"  case {json.dumps(f['key'])[:400]}: {f['message']}")
        print(f"VIOLATION property={a.prop} replay={path}", flush=True)
    print(f"{a.prop} {tier}: {ctx.evaluations} executions, {len(ctx.states)} states, {ctx.transitions} transitions, "
          f"{len(ctx.outcomes)} outcomes, {len(ctx.fails)} violations, {round(__import__('time').time()-ctx.t0,1)} s")
    sys.stdout.flush()
    os._exit(1 if ctx.fails else 0)


if __name__ == "__main__":
    main()
