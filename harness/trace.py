"""Run the two tracers on a scene spec."""
import numpy as np

from harness import scenes as sc


def engine(spec, n, seed, workers=2, **kw):
    from pvtrace.engine import simulate

    scene = sc.build(spec)
    np.random.seed(seed % (2 ** 32))
    return simulate(scene, n, seed=seed, workers=workers, **kw)


def python(spec, n, seed, maxsteps=1000, maxpathlength=None, emit_method="kT", scene=None,
           reseed=False):
    from pvtrace.algorithm import photon_tracer

    scene = scene or sc.build(spec)
    np.random.seed(seed % (2 ** 32))
    kw = {} if maxpathlength is None else {"maxpathlength": maxpathlength}
    out = []
    for k, ray in enumerate(list(scene.emit(n)) if reseed else scene.emit(n)):
        if reseed:      # so that one photon's chances do not depend on the others
            np.random.seed((seed + 1 + k) % (2 ** 32))
        out.append(list(photon_tracer.step_forward(
            scene, ray, maxsteps=maxsteps, emit_method=emit_method, **kw)))
    return out


METHODS = ["kT", "redshift", "full"]
