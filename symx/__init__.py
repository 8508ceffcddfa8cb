import os
from fractions import Fraction as Q
from . import terms as T, solve, build, lib
from .build import FBuild, VERIF
from .harness import Prog, Case, main, TIER, SEED
from .terms import Node


def glue(f):
    return os.path.join(VERIF, 'glue', f)
