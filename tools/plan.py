"""What each check runs, and which deviations from the specification (labels of
spec/Trace.tla) break its property."""

ALWAYS = [r"panic", r"senseless"]
DEC = [r"dec\..*", r"legacy\..*"]
ENC = [r"enc\..*", r"rt\.bytes", r"rt\.bin.*", r"twin\..*"]


# time zones, in minutes ahead of UTC
EAST, WEST = {"zone": 765}, {"zone": -570}


def zones(mix, n, **more):
    """The same calls where the local time is not UTC."""
    return [dict(mix=mix, n=n, **EAST, **more), dict(mix=mix, n=n, tiers=("thorough",), **WEST, **more)]


def model(module, quick, thorough, more=None, **env):
    """A model of the specification that writes sessions for the driver.
    quick, thorough: its bounds (None: not in this tier)."""
    out = []
    for tier, bounds in (("quick", quick), ("thorough", thorough)):
        if bounds is not None:
            e = dict({"LIMIT": "30", "SLACK": "0"}, **env)
            e.update({k: str(v) for k, v in bounds.items()})
            out.append({"module": module, "env": e, "tiers": (tier,), "timeout": 800 if tier == "quick" else 3000, **(more or {}),
                        "name": module + " " + " ".join("%s=%s" % kv for kv in sorted(e.items()) if kv[0] in bounds or kv[0] in env)})
    return out


def shapes(ops, quick=60, thorough=3000):
    return model("Shapes", {"LIMIT": quick}, {"LIMIT": thorough}, OPS=ops)


def must_fail(module, violates, tiers=("thorough",), cfg=None, **env):
    """A wrong design or a claim that is too strong: shows that the invariant can fail."""
    e = dict({"LIMIT": "30", "SLACK": "0"}, **env)
    return [{"module": module, "cfg": cfg, "env": e, "violates": violates, "tiers": tiers, "silent": True,
             "name": module + " " + " ".join("%s=%s" % kv for kv in sorted(env.items()))}]


def faults(quick=3, thorough=60):
    return (model("Faults", {"BASES": quick}, {"BASES": thorough})
            + must_fail("Faults", "KeepsDescriptors", SLACK="1", BASES="1"))


def docs(skip, quick=6, thorough=60):
    return model("DocFaults", {"BASES": quick}, {"BASES": thorough}, SKIP=skip)


def limits(quick=2, thorough=40):
    return (model("Limits", {"BASES": quick}, {"BASES": thorough})
            + must_fail("Limits", "Framing", SLACK="1", BASES="1"))


def machine(alphabet, quick, thorough):
    return (model("Machine", {"DEPTH": quick}, {"DEPTH": thorough}, ALPHABET=alphabet, DESIGN="good")
            + [m for d, inv in (("merge", "Faithful"), ("aliasin", "Faithful"), ("aliasout", "Lasting"),
                                ("cache", "Truthful"), ("scratch", "Lasting"), ("reuse", "Faithful"))
               for m in must_fail("Machine", inv, DESIGN=d, DEPTH="4", ALPHABET="both")])


def streaks():
    return (model("Streak", {"MAXRUN": 101}, {"MAXRUN": 4097}, DESIGN="good")
            + [m for d in ("tolerant", "tired", "once", "full") for m in must_fail("Streak", "Alone", DESIGN=d, MAXRUN="12")])


def times():
    return (model("Times", {"SPAN": 4, "DAYS": 16}, {"SPAN": 24, "DAYS": 1}, RULE="up")
            + [m for r in ("down", "near") for m in must_fail("Times", "Smallest", RULE=r, SPAN="2", DAYS="4096")])


def upids():
    return (model("Upids", {"BOUND": 8}, {"BOUND": 40}, RULE="good")
            + [m for r in ("trim", "ascii", "short") for m in must_fail("Upids", "NoLoss", RULE=r, BOUND="8")])


def foreign():
    return (model("Foreign", {"STEP": 36}, {"STEP": 2}, RULE="good")
            + [m for r, inv in (("tagonly", "Foreignness"), ("low", "Foreignness"), ("skip", "KeptWhole"))
               for m in must_fail("Foreign", inv, RULE=r, STEP="36")])


def codes():
    return model("Codes", {"STEP": 4}, {"STEP": 1})


def tool():
    return (model("Tool", {"BASES": 4}, {"BASES": 60}, more={"cli": True}, RULE="good")
            + [m for r, inv in (("always", "Understood"), ("case", "Understood"), ("first", "Told"), ("angle", "Told"))
               for m in must_fail("Tool", inv, RULE=r, BASES="2")])


def threads():
    return (model("Threads", {"THREADS": 2}, {"THREADS": 3}, more={"par": 8}, DESIGN="good")
            + [{"module": "Threads", "env": {"DESIGN": d, "THREADS": "2", "LIMIT": "1"}, "tiers": ("thorough",), "silent": True,
                "name": "Threads DESIGN=" + d} for d in ("locked", "once")]
            + [m for d in ("scratch", "lazy", "memo", "pool", "mode")
               for m in must_fail("Threads", "RaceFree", DESIGN=d, THREADS="2")
               + must_fail("Threads", "Alone", cfg="ThreadsAlone", DESIGN=d, THREADS="2")]
            + [m for d in ("atomic", "split")
               for m in must_fail("Threads", "Alone", cfg="ThreadsAlone", DESIGN=d, THREADS="2")
               + [{"module": "Threads", "cfg": "ThreadsRaces", "env": {"DESIGN": d, "THREADS": "2", "LIMIT": "1"},
                   "tiers": ("thorough",), "silent": True, "name": "Threads DESIGN=%s races" % d}]])


PLAN = {
    "C01": {"models": shapes("decode"),
            "runs": [{"mix": "decode:5,legacy:1,upids:1", "n": 1500}],
            "focus": [r"dec\.(err|hdr|cmd|descs|preroll)", r"upid\.decode", r"seen\.decode"]},
    "C02": {"models": shapes("encode"),
            "runs": [{"mix": "encode:4,round:1,both:1,upids:1", "n": 1500}],
            "focus": [r"enc\.(refused|bytes|frame)", r"text\.(refused|bytes|frame)", r"upid\.encode", r"twin\..*", r"rt\.bytes", r"made\..*"]},
    "C03": {"models": shapes("decode"),
            "runs": [{"mix": "round:5,upids:1", "n": 1800}] + zones("schedule", 200),
            "focus": [r"rt\.(bytes|bin.*)", r"enc\.(refused|bytes|frame)", r"dec\.(err|hdr|cmd|descs)", r"upid\.(decode|encode)"]},
    "C04": {"models": faults(),
            "runs": [{"mix": "noise:3,usable:3,damage:2,partial:1,text:1,limits:1,upids:1", "n": 1100}],
            "focus": [r"dec\.class", r"(json|xml)\.refused", r"text\.(err|sig)"]},
    "C05": {"models": faults(),
            "runs": [{"mix": "damage:4,burst:2,partial:3,noise:1,decode:1,streak:1", "n": 1600}],
            "focus": [r"(dec|keep)\.err", r"dec\.class"]},
    "C06": {"models": shapes("json"),
            "runs": [{"mix": "json:4,both:1", "n": 1300}] + zones("schedule", 200),
            "focus": [r"rt\.json.*", r"own\.unjson\..*", r"twin\.json", r"json\.(refused|syntax)", r"seen\.json"]},
    "C07": {"models": shapes("xml"),
            "runs": [{"mix": "xml:4,both:1", "n": 1300}] + zones("schedule", 200),
            "focus": [r"rt\.xml.*", r"own\.unxml\..*", r"twin\.xml", r"xml\.(refused|syntax)", r"seen\.xml"]},
    "C08": {"models": shapes("text", 40),
            "runs": [{"mix": "text:4,limits:1", "n": 800}],
            "focus": [r"text\..*"]},
    "C09": {"models": machine("observe", 3, 4),
            "runs": [{"mix": "pure:3,history:1,peers:2", "n": 1300}],
            "focus": [r"pure\..*", r"held", r"frame\..*"]},
    "C10": {"models": machine("change", 3, 4) + streaks(),
            "runs": [{"mix": "history:4,pure:1,streak:1", "n": 1300}],
            "focus": [r"seen\..*", r"frame\..*", r"input\.changed", r"dec\..*", r"keep\..*", r"un(json|xml)\.(refused|accepted|sig)", r"bytes\..*", r"text\.(sig|err|same)"]},
    "C11": {"models": threads(),
            "runs": [{"mix": "decode,encode,round,damage,json,xml,both,unjson,unxml,text,table,pure,history,derived,upid,upids,time,private,usable,streak",
                      "n": 900, "par": 12},
                     {"hammer": 30, "tiers": ["quick"]}, {"hammer": 300, "tiers": ["thorough"]}],
            "focus": [r".*"]},
    "C12": {"models": faults(),
            "runs": [{"mix": "partial:4,legacy:2,damage:2", "n": 1600}],
            "focus": [r"keep\..*", r"legacy\..*"]},
    "C13": {"models": foreign(),
            "runs": [{"mix": "private:5,partial:1", "n": 1000}],
            "focus": [r"priv\..*", r"bytes\..*"]},
    "C14": {"models": upids(),
            "runs": [{"mix": "upid:2,upids:4", "n": 1600}],
            "focus": [r"upid\..*", r"rt\.bytes"]},
    "C15": {"models": times(),
            "runs": [{"mix": "time:1", "n": 1000}] + zones("time", 250),
            "focus": [r"time\..*", r"dur"]},
    "C16": {"models": shapes("table"),
            "runs": [{"mix": "table:1", "n": 1000}] + zones("schedule", 250),
            "focus": [r"table\.text", r"pure\..*"]},
    "C17": {"models": tool(),
            "runs": [{"mix": "cli:1", "n": 160, "cli": True}] + zones("cli", 40, cli=True),
            "focus": [r"cli\..*"]},
    "C18": {"models": limits(),
            "runs": [{"mix": "limits:4,range:1,encode:1", "n": 1200}],
            "focus": [r"(enc|text)\.(accept|frame|refused|bytes)", r"rt\.bin\.err"]},
    "C19": {"models": docs("none"),
            "runs": [{"mix": "unjson:1,unxml:1", "n": 1300}],
            "focus": [r"un(json|xml)\.(refused|accepted|sig)", r"seen\.(json|xml)"]},
    "C20": {"models": shapes("doc"),
            "runs": [{"mix": "json:1,xml:1,both:1", "n": 1300}] + zones("schedule", 200),
            "focus": [r"(json|xml)\.(refused|syntax|doc)"]},
    "C21": {"models": shapes("derived") + codes(),
            "runs": [{"mix": "derived:3,names:1", "n": 1200}],
            "focus": [r"derived\..*", r"names\..*"]},
}
for p in PLAN.values():
    p["focus"] = ALWAYS + p["focus"]

TRUST = ("What the real code does is only judged on the calls that were performed; the specification says for each of them "
         "exactly what must come out. Trusted: TLC, the driver's mapping from exported fields to the specification's records, "
         "and the reading of SCTE 35 in spec/Syntax.tla.")
NOTES = {
    "C01": ("generated sections", ""), "C02": ("generated signals", ""), "C03": ("round trips", ""),
    "C04": ("arbitrary and damaged input", ""), "C05": ("damaged sections", ""), "C06": ("JSON round trips", ""),
    "C07": ("XML round trips", ""), "C08": ("texts", ""), "C09": ("sequences of observers", ""),
    "C10": ("histories on reused values", ""), "C11": ("concurrent sessions, race detector", ""),
    "C12": ("sections with one damaged structure", ""), "C13": ("private structures", ""), "C14": ("UPIDs", ""),
    "C15": ("tick counts, durations, instants", ""), "C16": ("tables", ""), "C17": ("runs of the tools", ""),
    "C18": ("values beyond the syntax", ""), "C19": ("documents", ""), "C20": ("documents written", ""),
    "C21": ("queries", ""),
}
NOTES = {k: (a, (b + " " if b else "") + TRUST) for k, (a, b) in NOTES.items()}
