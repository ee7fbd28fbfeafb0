"""C07: reading drill files.  Excellon, ExcellonMC, ExcellonGen, ExcellonTrace."""
import xrun


def run(ck):
    e, w = xrun.programs(ck, 2500 if ck.quick else 40000, 1000 if ck.quick else 8000)
    xrun.run(ck, e + w, lambda p, rng: [])
