"""Histories enumerated by TLC, for drivers to replay."""
import ast
import os

CACHE = None


def plans():
    global CACHE
    if CACHE is None:
        with open(os.environ['NV_PLANS']) as f:
            CACHE = [ast.literal_eval(x.strip().replace("<<", "[").replace(">>", "]").replace("TRUE", "True").replace("FALSE", "False"))
                     for x in f if x.strip()]
    return CACHE
