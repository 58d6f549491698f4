"""What the code says about a lattice."""
import random
from core import *
from kinds import kind


@kind
def latmap(job):
    s = job["s"]
    lat, q = s["lat"], s["ask"]
    sc = scale(lat)
    cell = KMCUnitCell(cell_vectors=numpy.array(lat["cell"]), basis_points=[uncoord(b, sc) for b in lat["basis"]])
    big = s["big"]                           # too big for a list of its sites
    lattice = None if big else KMCLattice(unit_cell=cell, repetitions=tuple(lat["rep"]), periodic=tuple(bool(p) for p in lat["per"]))
    others = [KMCLattice(unit_cell=KMCUnitCell(cell_vectors=numpy.eye(3), basis_points=[[0.0, 0.0, 0.0]] * n), repetitions=(2, 2, 2)) for n in (1, 4)]
    m = B.LatticeMap(len(lat["basis"]), B.StdVectorInt(lat["rep"]), B.StdVectorBool([bool(p) for p in lat["per"]])) if big else lattice._map()
    sites = [] if big else [[scaled(v, sc) for v in r] for r in lattice.sites().tolist()]
    for o in others:                         # lattices do not get into each other's way
        list(o._map().neighbourIndices(1, 1))
    wraps = []
    for d in q["wraps"]:
        c = B.Coordinate(*uncoord(d, sc))
        m.wrap(c)
        wraps.append({"d": d, "w": [scaled(c[k], sc) for k in range(3)]})
    o = {"op": "lattice", "sites": sites,
         "cart": [] if big else [[scaled(v, 4 * sc) for v in r] for r in cell.transformToCartesian(lattice.sites()).tolist()],
         "nb": m.nBasis(), "rep": [m.repetitionsA(), m.repetitionsB(), m.repetitionsC()],
         "per": [int(m.periodicA()), int(m.periodicB()), int(m.periodicC())],
         "bas": [{"i": i, "b": m.basisSiteFromIndex(i)} for i in ([i for i, r in q["near"]] if big else range(len(sites)))],
         "cells": [{"c": c, "m": list(m.indicesFromCell(*c)), "g": [] if big else [lattice._globalIndex(*(c + [b])) for b in range(len(lat["basis"]))]}
                   for c in q["cells"]],
         "near": [{"i": i, "r": r, "to": list(m.neighbourIndices(i, r))} for i, r in q["near"]],
         "sup": [{"of": a, "r": r, "to": list(m.supersetNeighbourIndices(B.StdVectorInt(a), r))} for a, r in q["sup"]],
         "moves": [{"i": i, "v": v, "j": m.indexFromMoveInfo(i, *v)} for i, v in q["moves"]],
         "wraps": wraps}
    return {"obs": [o]}
