"""Small property-based testing harness: facets, oracles, evidence, replay."""
from .core import (Property, Violation, check, close, Skip, scratch, REPO,
                   TIER, SEED, remote, expect_raises, np_seed)
