"""Runs the concrete oracle of a property on the real code (CPython, /repo's working tree).

usage: run.py MODULE PROP SEED SECONDS MAXCASES [CASEFILE]
Cases of CASEFILE (counterexamples to replay) come first.  Prints one JSON line."""
import sys, os, json, time, random, signal, importlib, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get("CORAL_REPO", "/repo"))

class Hang(BaseException):
    pass

def on_alarm(*a):
    raise Hang()

def one(mod, prop, case, limit):
    """None, or what is wrong."""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = mod.check(prop, case)
        return None if r is None or r is True else (r if isinstance(r, str) else "property does not hold")
    except Hang:
        return "does not terminate within %gs" % limit
    except AssertionError as e:
        return "assertion: %s" % e
    except MemoryError:
        return "memory exhausted"
    except RecursionError:
        return "recursion without end"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = tb[-1]
        return "raises %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(at.filename), at.lineno)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def main():
    modname, prop, seed, secs, maxcases = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), int(sys.argv[5])
    res = {"evaluations": 0, "distinct": 0, "violations": [], "samples": [], "rule": "", "error": None}
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except Exception:
        pass
    out = os.dup(1)
    os.dup2(2, 1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    os.dup2(devnull, 1)
    try:
        try:
            mod = importlib.import_module("oracles." + modname)
        except BaseException as e:
            # the code under test cannot even be imported
            res["violations"].append({"case": ["import"], "what": "import fails: %s: %s" % (type(e).__name__, e)})
            return
        res["rule"] = mod.RULE.get(prop, "") if hasattr(mod, "RULE") else ""
        limit = getattr(mod, "LIMIT", 10)
        seen = set()
        t0 = time.time()
        given = []
        if len(sys.argv) > 6:
            given = json.load(open(sys.argv[6]))
        rng = random.Random("%s/%d" % (prop, seed))
        def stream():
            for c in given:
                yield c
            yield from mod.gen(prop, rng)
        for case in stream():
            if res["evaluations"] >= maxcases or time.time() - t0 > secs:
                break
            js = json.dumps(case)
            case = json.loads(js)
            res["evaluations"] += 1
            if js not in seen:
                seen.add(js)
                if not hasattr(mod, "trivial") or not mod.trivial(prop, case):
                    res["distinct"] += 1
            r = one(mod, prop, case, limit)
            if len(res["samples"]) < 3 and len(js) < 1500 and len(seen) % 7 == 1:
                res["samples"].append(case)
            if r is not None:
                res["violations"].append({"case": case, "what": r[:600]})
                if len(res["violations"]) >= 5:
                    break
    except BaseException as e:
        res["error"] = "%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])
    finally:
        os.write(out, (json.dumps(res) + "\n").encode())

if __name__ == "__main__":
    main()
    os._exit(0)
