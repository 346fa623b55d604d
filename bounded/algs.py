"""constructing the repository's algorithms on small problems"""
import random
from gens import *

SIMPLE = ["NSGAII", "SPEA2", "IBEA", "SMSEMOA", "OMOPSO", "NSGAIII", "NSLS", "JGBL", "BOGO"]


def cls(B, name):
    return B.get("algorithms.%s.%s:%s" % (name, name, name))


def adapter(B, name, kind):
    """message adapter class of algorithm `name` (kind: IMGA / HGS / DHGS)"""
    return B.get("algorithms.%s.message:%s%sMessageAdapter" % (name, name, kind))


def simple(B, name, pop, ds, fits, rate=0.5, crate=0.9, eta=20.0, mating=None, archive=None, trim=None, adapter_factory=None, **extra):
    """one of the plain algorithms, by keyword arguments of its public constructor"""
    C = cls(B, name)
    kw = dict(population=pop, dims=ds, fitnesses=fits)
    if name == "BOGO":
        kw.update(mutation_variance=0.1, crossover_variance=0.1)
    else:
        kw.update(mutation_eta=eta, crossover_eta=eta, mutation_rate=rate, crossover_rate=crate)
        if archive is not None:
            kw["fitness_archive"] = archive
        if trim is not None:
            kw["trim_function"] = trim
    if name in ("NSGAII", "IBEA", "JGBL"):
        kw["mating_population_size"] = mating or 0.5
    if name == "IBEA":
        kw["kappa"] = 0.05
    if name == "JGBL":
        kw.update(jumping_rate=0.5, jumping_percentage=0.5)
    if name == "SMSEMOA":
        kw["reference_point"] = [60.0] * len(fits)
    if adapter_factory is not None:
        kw["message_adapter_factory"] = adapter_factory
    kw.update(extra)
    return C(**kw)


def vectors(driver):
    """every decision vector the algorithm currently holds"""
    out = []
    for attr in ("individuals", "archive", "leader_archive", "mating_individuals"):
        o = getattr(driver, attr, None)
        if o is None:
            continue
        try:
            items = list(o)
        except TypeError:
            continue
        for i in items:
            v = getattr(i, "v", None)
            if v is None:
                v = getattr(i, "value", None)
            if v is None and isinstance(i, dict):
                v = i.get("value")
            if v is not None:
                out.append(v)
    return out


def hgs_kwargs(pop, ds, fits, driver, adapter_factory, **over):
    kw = dict(population=pop, dims=ds, fitnesses=fits, fitness_errors=[0.0, 0.0, 0.0], cost_modifiers=[0.1, 0.5, 1.0], driver=driver,
              mutation_etas=[10.0, 15.0, 20.0], crossover_etas=[15.0, 20.0, 25.0], mutation_rates=[0.5, 0.4, 0.3], crossover_rates=[0.9, 0.9, 0.9],
              reference_point=[60.0] * len(fits), mantissa_bits=[4, 16, 52], min_progress_ratio=[0.1, 0.05, 0.01], metaepoch_len=[2, 2, 2], max_level=2,
              max_sprouts_no=3, sproutiveness=1, comparison_multipliers=[0.2, 0.05, 0.02], population_sizes=[8, 5, 4],
              driver_message_adapter_factory=adapter_factory)
    kw.update(over)
    return kw
