"""models of the libraries used by the code under verification (assumed contracts, listed in the evidence)"""
from . import base


def defaults(world):
    return base.defaults(world)
