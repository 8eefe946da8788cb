"""What each check runs. models: (module, quick cfg, thorough cfg); steps: runs of the real code."""
CHECKS = {}

PROFILE_MODEL = [("MC_Profile", "MC_Profile_q.cfg", "MC_Profile.cfg")]
PROFILE_GEN = ("G_Profile", "G_Profile_q.cfg", "G_Profile.cfg")


def profile(mode, gen=True, n=(600, 20000), **kw):
    s = dict(family="profile", mode=mode, trace="T_Profile", n=n, **kw)
    if gen:
        s["gen"] = PROFILE_GEN
    return s


for pid in ("C01", "C02", "C03", "C04", "C08"):
    CHECKS[pid] = dict(models=PROFILE_MODEL, steps=[
        profile("open"), profile("open", flavour="release", thorough_only=True)])
for pid in ("C05", "C06"):
    CHECKS[pid] = dict(models=PROFILE_MODEL, steps=[
        profile("search"), profile("search", flavour="release", thorough_only=True)])
CHECKS["C10"] = dict(models=PROFILE_MODEL, steps=[
    profile("eq", gen=False), profile("eq", gen=False, flavour="release", thorough_only=True)])
for pid in ("C07", "C32", "C33"):
    CHECKS[pid] = dict(models=[("MC_Files", "MC_Files.cfg", "MC_Files_t.cfg"), ("MC_Files", "MC_Files_p.cfg", "MC_Files_pt.cfg")], steps=[
        dict(family="fs", trace="T_Files", n=(1500, 20000)),
        dict(family="fs", trace="T_Files", n=(1500, 20000), flavour="release", thorough_only=True)])


def mc_stream(*names):
    return [("MC_Stream", "MC_Stream_%s.cfg" % q, "MC_Stream_%s.cfg" % t) for q, t in names]


STREAM_GEN = ("G_Stream", "G_Stream_q.cfg", "G_Stream.cfg")


def stream(mode, n=(1500, 30000), gen=True, **kw):
    s = dict(family="stream", mode=mode, trace="T_Stream", n=n, **kw)
    if gen:
        s["gen"] = STREAM_GEN
    return s


def both(f, *a, **kw):
    return [f(*a, **kw), f(*a, flavour="release", thorough_only=True, **kw)]


FIXED = [("MC_Fixed", "MC_Fixed_q.cfg", "MC_Fixed.cfg"), ("MC_Rounding", "MC_Rounding_q.cfg", "MC_Rounding.cfg")]
CHECKS["C11"] = dict(models=mc_stream(("vec", "vec_t"), ("fixed", "fixed")), steps=both(stream, "mem"))
CHECKS["C12"] = dict(models=mc_stream(("file", "file")), steps=both(stream, "file"))
CHECKS["C13"] = dict(models=mc_stream(("null", "null")), steps=both(stream, "null"))
CHECKS["C14"] = dict(models=mc_stream(("vec", "vec_t")), steps=both(stream, "typed", gen=False))
CHECKS["C15"] = dict(models=mc_stream(("vec", "vec_t"), ("null", "null")), steps=both(stream, "size"))
CHECKS["C17"] = dict(models=FIXED, steps=both(stream, "fixed", n=(3000, 300000), gen=False))
CHECKS["C20"] = dict(models=mc_stream(("lock_q", "lock")), steps=both(stream, "lock"))


def plain(family, trace, n, mode="", gen=None, **kw):
    s = dict(family=family, mode=mode, trace=trace, n=n, **kw)
    if gen:
        s["gen"] = gen
    return s


CHECKS["C16"] = dict(models=[("MC_Transfer", "MC_Transfer.cfg", "MC_Transfer.cfg")],
                     steps=both(plain, "fault", "T_Faults", (150, 3000)))


CHECKS["C35"] = dict(models=[("MC_Handles", "MC_Handles.cfg", "MC_Handles_t.cfg")],
                     steps=both(plain, "handles", "T_Handles", (1200, 30000), gen=("G_Handles", "G_Handles_q.cfg", "G_Handles.cfg")))


VALUES_MODEL = [("MC_Values", "MC_Values_q.cfg", "MC_Values.cfg")]
VALUES_GEN = ("G_Values", "G_Values_q.cfg", "G_Values.cfg")


def values(mode, n, gen=None, **kw):
    return plain("values", "T_Values", n, mode=mode, gen=gen, **kw)


CHECKS["C18"] = dict(models=VALUES_MODEL, steps=both(values, "adj", (1500, 60000)) + [
    values("adj", (1500, 60000), flavour="little"), values("adj", (1500, 60000), flavour="little-release", thorough_only=True)])
CHECKS["C21"] = dict(models=VALUES_MODEL + [("MC_Registry", "MC_Registry.cfg", "MC_Registry.cfg")], steps=both(values, "sig", (3000, 100000), gen=VALUES_GEN))
CHECKS["C22"] = dict(models=[("MC_Calendar", "MC_Calendar_q.cfg", "MC_Calendar.cfg")],
                     steps=both(values, "date", (3000, 200000), gen=VALUES_GEN))
CHECKS["C23"] = dict(models=VALUES_MODEL, steps=both(values, "codec", (1200, 30000)))
LITTLE = dict(flavour="little", focus=["C19", "C01", "C02", "C03", "C04", "C05", "C06", "C08", "C10"])
CHECKS["C19"] = dict(models=PROFILE_MODEL + mc_stream(("vec", "vec_t")) + VALUES_MODEL, steps=[
    profile("search", **LITTLE), profile("eq", gen=False, **LITTLE),
    stream("mem", n=(700, 20000), gen=False, flavour="little"), stream("typed", n=(700, 20000), gen=False, flavour="little"),
    stream("fixed", n=(1000, 50000), gen=False, flavour="little"), stream("size", n=(500, 10000), gen=False, flavour="little"),
    stream("lock", n=(500, 10000), gen=False, flavour="little"),
    values("codec", (600, 20000), flavour="little"), values("adj", (500, 10000), flavour="little")])


CTX_MODEL = [("MC_Contexts", "MC_Contexts_q.cfg", "MC_Contexts.cfg")]
CTX_GEN = ("G_Contexts", "G_Contexts_q.cfg", "G_Contexts.cfg")


def context(mode, n=(1200, 30000), gen=CTX_GEN, **kw):
    return plain("context", "T_Contexts", n, mode=mode, gen=gen, **kw)


CHECKS["C24"] = dict(models=CTX_MODEL, steps=both(context, "plugin"))
CHECKS["C25"] = dict(models=CTX_MODEL, steps=both(context, "handler"))
CHECKS["C26"] = dict(models=CTX_MODEL, steps=both(context, "any"))
CHECKS["C27"] = dict(models=CTX_MODEL, steps=both(context, "kind", (2000, 100000), gen=None))

CHECKS["C09"] = dict(models=[("SharedOpen", "SharedOpen_q.cfg", "SharedOpen.cfg")],
                     steps=both(plain, "shared", "T_Shared", (250, 8000), gen=("G_Shared", "G_Shared_q.cfg", "G_Shared.cfg")))

CHECKS["C34"] = dict(models=[("SharedOpen", "SharedOpen_q.cfg", "SharedOpen.cfg")],
                     steps=both(plain, "shared", "T_Shared", (250, 8000), mode="own", gen=("G_Shared", "G_Shared_q.cfg", "G_Shared.cfg")))

CURVE_MODEL = [("MC_Curves", "MC_Curves_q.cfg", "MC_Curves.cfg")]
CURVE_GEN = ("G_Curves", "G_Curves_q.cfg", "G_Curves.cfg")


def curve(mode, n, gen=None, **kw):
    return plain("curve", "T_Curves", n, mode=mode, gen=gen, **kw)


CHECKS["C28"] = dict(models=CURVE_MODEL, steps=both(curve, "eval", (6000, 200000), gen=CURVE_GEN))
CHECKS["C29"] = dict(models=CURVE_MODEL, steps=both(curve, "eval", (6000, 200000), gen=CURVE_GEN))
CHECKS["C41"] = dict(models=CURVE_MODEL, steps=both(curve, "eval", (6000, 200000), gen=CURVE_GEN))
CHECKS["C30"] = dict(models=CURVE_MODEL, steps=both(curve, "set", (2000, 60000)))
CHECKS["C31"] = dict(models=CURVE_MODEL, steps=both(curve, "shape", (600, 20000)))

CHECKS["C36"] = dict(models=[("MC_Snapshots", "MC_Snapshots_q.cfg", "MC_Snapshots.cfg")],
                     steps=both(plain, "snap", "T_Snapshots", (400, 8000)))

CHECKS["C37"] = dict(models=[("MC_Printing", "MC_Printing_q.cfg", "MC_Printing.cfg")],
                     steps=both(values, "print", (1500, 40000)))

CHECKS["C43"] = dict(models=[("MC_Equality", "MC_Equality_q.cfg", "MC_Equality.cfg")],
                     steps=both(values, "equal", (1500, 40000)))

CHECKS["C38"] = dict(models=[("MC_Nested", "MC_Nested_q.cfg", "MC_Nested.cfg")],
                     steps=both(plain, "nested", "T_Nested", (1500, 20000), gen=("G_Nested", "G_Nested_q.cfg", "G_Nested.cfg")))

CHECKS["C39"] = dict(models=[("MC_Costs", "MC_Costs_q.cfg", "MC_Costs.cfg")],
                     steps=both(plain, "cost", "T_Costs", (60, 1500)))

CHECKS["C42"] = dict(models=[("MC_Calls", "MC_Calls_q.cfg", "MC_Calls.cfg")],
                     steps=both(plain, "calls", "T_Calls", (1500, 60000)))

CHECKS["C40"] = dict(models=[("MC_Pieces", "MC_Pieces_q.cfg", "MC_Pieces_t.cfg"), ("MC_Pieces", "MC_Pieces_w.cfg", "MC_Pieces_u.cfg")],
                     steps=both(plain, "pieces", "T_Pieces", (700, 15000)))
