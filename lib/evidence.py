"""Evidence files: only what this run measured."""
import time, vf

ASSUME = ["the drivers call only the public interface and record results faithfully",
          "TLC, the C++ compiler and the sanitizer runtime are correct",
          "inputs outside the documented preconditions (see Pre in the specs) are not exercised"]


def make(c):
    cov = dict(states=c.stats["states"], transitions=c.stats["transitions"],
               traces_validated_against_impl=c.stats["traces"], samples=c.samples[:6], parts=c.parts)
    return dict(property=c.pid, tier="thorough" if c.tier == "thorough" else "quick", seed=vf.SEED,
                level="model_checking", coverage=cov, assumptions=ASSUME + list(getattr(c, "assume", [])),
                wall_s=round(time.time() - c.t0, 2), violations=len(c.violations))
