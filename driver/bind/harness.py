"""Drives the Python binding: commands on the standard input, answers on the standard output, everything seen into the log."""
import contextlib, gc, json, os, sys
sys.path.insert(0, sys.argv[1])
import watcher
from watcher import Watch
log = os.open(os.environ["STUB_LOG"], os.O_WRONLY | os.O_APPEND)


def put(o):
    os.write(log, (json.dumps(o) + "\n").encode())


def hx(s):
    return s.encode("utf-8", "surrogateescape").hex()


def seen(b, angry):
    n = [0]

    def cb(ev):
        apn = ev.associated_path_name
        v = {"t": ev.effect_time, "p": hx(ev.path_name), "has": apn is not None, "a": hx(apn) if apn is not None else "",
             "e": ev.effect_type.name.lower(), "k": ev.path_type.name.lower()}
        try:
            d = json.loads(ev.to_json())
            a = d["associated_path_name"]
            j = {"t": d["effect_time"], "p": hx(d["path_name"]), "has": a is not None, "a": hx(a) if a is not None else "", "e": d["effect_type"], "k": d["path_type"]}
            if len(d) != 5:
                j = {"bad": "members"}
        except Exception as e:
            j = {"bad": str(e)[:100]}
        put({"k": "bev", "b": b, "v": v, "j": j})
        n[0] += 1
        if angry and n[0] % 2:
            raise ValueError("the user's own")
    return cb


objs, stacks = {}, {}
for line in sys.stdin:
    c = line.rstrip("\n").split(" ")
    if c[0] == "open":
        b, path, flags = int(c[1]), bytes.fromhex(c[2]).decode("utf-8", "surrogateescape"), c[3] if len(c) > 3 else ""
        try:
            objs[b] = Watch(path, seen(b, "angry" in flags))
            if "with" in flags:
                stacks[b] = contextlib.ExitStack()
                stacks[b].enter_context(objs[b])
            put({"k": "bopened", "b": b, "ok": True})
        except (RuntimeError, ValueError):
            put({"k": "bopened", "b": b, "ok": False})
    elif c[0] == "close":
        b = int(c[1])
        objs[b].close()
        put({"k": "ended", "b": b, "how": "close", "r": False})
    elif c[0] == "leave":
        b = int(c[1])
        if b in stacks:
            if len(c) > 2:
                try:
                    with stacks.pop(b):
                        raise KeyError("the user's own")
                except KeyError:
                    pass
                else:
                    put({"k": "bad", "what": "swallowed an exception"})
            else:
                stacks.pop(b).close()
        else:
            with objs[b]:
                pass
        put({"k": "ended", "b": b, "how": "leave", "r": False})
    elif c[0] == "drop":
        b = int(c[1])
        if b in stacks:
            stacks.pop(b).pop_all()
        del objs[b]
        gc.collect()
        put({"k": "ended", "b": b, "how": "drop", "r": False})
    elif c[0] == "reset":
        for s in stacks.values():
            s.pop_all()
        stacks.clear()
        objs.clear()
    print("ok", flush=True)
