"""What each property's check runs: models of the specification, generated scripts, simulated histories."""
from common import G
import poly, num, curve, forms, spread


def M(name, module, workers=2, **over):
    return (name, module, over, workers)


def t(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def poly_models(*sel):
    def f(tier):
        r = [M("MCPoly%d" % s, "MCPoly", 2, MonSel=s) for s in t(tier, sel, (1, 2, 3, 4))]
        return r + t(tier, [], [M("MCZZ", "MCZZ", 4, R=t(tier, 6, 30))])
    return f


def ring_sim(ops, kinds="{0, 1, 2, 3}"):
    return lambda tier: [("poly", "PolySim", {"Ops": ops, "Kinds": kinds}, t(tier, 12, 300), 80, t(tier, 4, 8))]


def curve_sim(tier):
    w, num = t(tier, (3, 12), (8, 150))
    return [("curve", "CurveSim", {"MaxP": t(tier, 31, 43)}, num, 60, w), ("curve", "CurveSim", {"Enumerate": "FALSE"}, t(tier, 8, 100), 60, t(tier, 1, 4))]


PLANS = {
    "C01": dict(gen=poly.C01, models=lambda T: poly_models(1, 3)(T) + [M("MCZZ", "MCZZ", 4, R=4)], sims=ring_sim("RingOps")),
    "C02": dict(gen=poly.C02, models=poly_models(2), sims=ring_sim("AllOps")),
    "C03": dict(sims=ring_sim("PowOps"), gen=poly.C03, models=poly_models(1)),
    "C04": dict(sims=ring_sim("ModOps"), gen=poly.C04, models=poly_models(2)),
    "C05": dict(sims=ring_sim("DivOps"), gen=poly.C05, models=poly_models(4)),
    "C06": dict(sims=ring_sim("FpOps", "{0, 1}"), gen=poly.C06, models=lambda T: [M("MCFp", "MCFp", 2, P0=2, MaxDeg=3), M("MCFp3", "MCFp", 2, P0=3, MaxDeg=2)] + t(T, [], [M("MCFp5", "MCFp", 4, P0=5, MaxDeg=2)])),
    "C07": dict(sims=ring_sim("FpOps", "{1}"), gen=poly.C07, models=lambda T: [M("MCFp", "MCFp", 2, P0=2, MaxDeg=3), M("MCFp3", "MCFp", 2, P0=3, MaxDeg=2)] + t(T, [], [M("MCFp5", "MCFp", 4, P0=5, MaxDeg=2)])),
    "C08": dict(sims=ring_sim("RedOps", "{0, 1}"), gen=poly.C08, models=poly_models(1)),
    "C09": dict(sims=ring_sim("EvalOps", "{0, 1, 2}"), gen=poly.C09, models=poly_models(1, 2)),
    "C10": dict(sims=ring_sim("DerOps", "{0, 1, 2}"), gen=poly.C10, models=poly_models(1)),
    "C11": dict(sims=ring_sim("SerOps", "{2}"), gen=poly.C11, models=poly_models(3)),
    "C12": dict(sims=ring_sim("OrdOps"), gen=poly.C12, models=lambda T: [M("MCOrder", "MCOrder")] + poly_models(4)(T)),
    "C13": dict(sims=ring_sim("OrdOps"), gen=poly.C13, models=lambda T: [M("MCRender", "MCRender")]),
    "C14": dict(gen=num.C14, models=lambda T: [M("MCNum", "MCNum", 2, B=t(T, 12, 30))]),
    "C15": dict(gen=num.C15, models=lambda T: [M("MCNum", "MCNum", 2, B=t(T, 12, 30))]),
    "C16": dict(gen=num.C16, models=lambda T: [M("MCNum", "MCNum", 2, B=t(T, 12, 30))]),
    "C17": dict(sims=curve_sim, gen=curve.C17, models=lambda T: [M("MCCurve", "MCCurve", 3, Primes5=t(T, "{3, 5, 7}", "{3, 5, 7, 11}"))]),
    "C18": dict(sims=curve_sim, gen=curve.C18, models=lambda T: [M("MCCurve", "MCCurve", 3, Primes5=t(T, "{3, 5, 7}", "{3, 5, 7, 11}"))]),
    "C19": dict(sims=curve_sim, gen=curve.C19, models=lambda T: [M("MCCurve", "MCCurve", 3, Primes5=t(T, "{3, 5, 7}", "{3, 5, 7, 11}"), MaxMul=t(T, 14, 30))]),
    "C20": dict(sims=curve_sim, gen=curve.C20, models=lambda T: [M("MCCurve", "MCCurve", 3, Primes5=t(T, "{5, 7}", "{3, 5, 7, 11}"))]),
    "C21": dict(gen=curve.C21, models=lambda T: [M("MCCurve", "MCCurve", 3, Primes5=t(T, "{5, 7}", "{3, 5, 7, 11}"))]),
    "C22": dict(gen=curve.C22, models=lambda T: [M("MCCurve", "MCCurve", 3, Primes5=t(T, "{5, 7}", "{3, 5, 7, 11}"))]),
    "C23": dict(gen=forms.C23, models=lambda T: [M("MCDiv", "MCDiv", 3, Fields=t(T, "{3, 5}", "{3, 5, 7}"))], quick_factor=1, thorough_factor=2),
    "C24": dict(gen=forms.C24, models=lambda T: [M("MCCount", "MCCount", 3, Fields=t(T, "{5, 7, 11}", "{5, 7, 11, 13, 17, 19}"))], limit=120, quick_factor=1, thorough_factor=2),
    "C25": dict(gen=forms.C25, models=lambda T: [M("MCForms", "MCForms", 3, N=t(T, 36, 64), PhiL=t(T, "{2, 3}", "{2, 3, 5, 7}"))], limit=200, quick_factor=1, thorough_factor=2, trace_over={"forms": {"quick": {"N": 401}, "thorough": {"N": 600}}}),
    "C26": dict(gen=forms.C26, models=lambda T: [M("MCForms", "MCForms", 3, N=t(T, 36, 64), PhiL=t(T, "{2, 3, 5}", "{2, 3, 5, 7}"))], limit=400, quick_factor=1, thorough_factor=2),
    "C27": dict(gen=num.C27, models=lambda T: [M("MCLinear", "MCLinear", 2, B=2)]),
    "C28": dict(gen=num.C28, models=lambda T: [M("MCNum", "MCNum", 2, B=6)]),
    "C29": dict(gen=forms.C29, models=lambda T: [M("MCCount", "MCCount", 3, Fields=t(T, "{5, 7, 11, 13}", "{5, 7, 11, 13, 17, 19}"))], limit=400, quick_factor=1, thorough_factor=3),
    "C30": dict(sims=ring_sim("BuildOps"), gen=poly.C30, models=lambda T: [M("MCBuilder", "MCBuilder", 2, MaxSteps=t(T, 5, 6))]),
}

for _id in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C27", "C30"):
    PLANS[_id]["gen"] = spread.with_spread(_id, PLANS[_id]["gen"])

# enough of every combination within half a minute
for _id, _n in (("C06", 20), ("C07", 20), ("C08", 24), ("C09", 20), ("C10", 20), ("C11", 16), ("C12", 20), ("C13", 24), ("C14", 24), ("C15", 60), ("C16", 30),
                ("C18", 20), ("C20", 20), ("C21", 60), ("C27", 50), ("C28", 20), ("C30", 60), ("C03", 24), ("C04", 24), ("C05", 24)):
    PLANS[_id].setdefault("quick_factor", _n)
    PLANS[_id].setdefault("thorough_factor", 10 * _n)
