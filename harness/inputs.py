"""Gives descriptions of models and runs to the real code and notes whether it takes them."""
from core import *
from kinds import kind
from KMCLib.Exceptions.Error import Error


class Noop(KMCAnalysisPlugin):
    def setup(self, step, time, configuration):
        pass

    def registerStep(self, step, time, configuration):
        pass

    def finalize(self):
        pass


class Stay(KMCBreakerPlugin):
    def evaluate(self, step, time, configuration):
        return False


class Unit(KMCRateCalculatorPlugin):
    def rate(self, coords, before, after, rate_constant, process_number, gc):
        return rate_constant


class Plain(object):
    def __init__(self, configuration):
        pass


ANALYSES = {"Composition": Composition, "TimeStepDistribution": TimeStepDistribution, "ProcessStatistics": ProcessStatistics}


def real(x):
    """The value that a node of a description stands for."""
    k = x["k"]
    if k in ("int", "str"):
        return x["v"]
    if k == "npint":
        return numpy.int64(x["v"])
    if k == "float":
        return x["v"] / float(SC)
    if k == "nan":
        return float("nan")
    if k == "bool":
        return bool(x["v"])
    if k == "none":
        return None
    if k == "obj":
        return object()
    if k == "class":
        return Unit
    if k == "plain":
        return Plain
    if k == "list":
        return [real(e) for e in x["v"]]
    if k == "tuple":
        return tuple(real(e) for e in x["v"])
    if k == "array":
        return numpy.array([real(e) for e in x["v"]])
    args = {a: real(v) for a, v in x.items() if a != "k"}
    if k == "KMCInteractions":
        calc = args.pop("calculator")
        i = KMCInteractions(**args)
        i.setRateCalculator(calc)
        return i
    if k == "KMCAnalysisPlugin":
        return Noop()
    if k == "KMCBreakerPlugin":
        return Stay()
    if k in ANALYSES:
        return ANALYSES[k](**args)
    return globals()[k](**args)


@kind
def inputs(job):
    x, out = job["x"], "built"
    text = ""
    try:
        m = KMCLatticeModel(configuration=real(x["model"]["configuration"]), interactions=real(x["model"]["interactions"]))
        r = x["run"]
        m.run(**{a: real(v) for a, v in r.items()})
    except Error as e:
        text = str(e)[:200]
        out = "refused" if "vailable processes" not in text else "idle" if "No available" in text else "built"
    except Exception as e:
        out, text = "raised", repr(e)[:200]
    return {"obs": [{"x": x, "out": out, "text": text}]}
