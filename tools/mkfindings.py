#!/usr/bin/env python3
"""Writes known-findings.json: what the checks found in the original tree."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C05", "4ca2e76", "a random number of exactly 0 made the simulation time infinite"),
 ("C04", "3e51798", "a random number at the top of the interval could pick a process without available sites"),
 ("C03", "ade924a", "round-off accumulated in the total rate of processes, down to small nonzero or negative rates without sites"),
 ("C01", "abf764c", "sites beyond the cells searched around an event were not re-matched (displacements of non-orthogonal reach, several basis points, custom cutoffs)"),
 ("C09", "fa2d5a6", "sites exactly at the cutoff distance were dropped from, or read past the end of, the environment of a custom rate"),
 ("C06", "9efb23a", "in periodic directions with one or two cells the same neighbour was listed several times in a neighbourhood"),
 ("C06", "97ec64e", "a position given as wildcard with an update in a bucket process matched at sites where the position does not exist"),
 ("C08", "c110ba3", "in a concerted move the atoms at sites whose type stays the same were not tracked"),
 ("C11", "a1a6840", "cached rates of events with the same types but a different geometry (another basis point, a boundary) were shared"),
 ("C12", "b69cba8", "reading the first element of a site without particles is undefined behaviour"),
 ("C13", "fbdc146", "indicesFromCell of a wrapped cell kept the indices of the cell asked for before"),
 ("C15", "5b16407", "the lattice trajectory of a lattice with one site could not be read back"),
 ("C14", "86f54df", "the setup of breakers was never called although documented"),
 ("C16", "8026167", "time interval dumps drifted off the sample times and counted from the start of the previous runs"),
 ("C22", "29a1ff2", "an empty list of basis sites was accepted and crashed in the backend"),
 ("C22", "c7a1477", "the update of a bucket process was not checked"),
 ("C22", "2fcde17", "bucket types of a configuration with the wrong length were accepted"),
 ("C04", "c21b39f", "a random number of exactly 0 picked a leading process or site of rate zero"),
 ("C06", "34f217d", "displacements of half a periodic lattice with several basis points were wrapped differently from site to site because of round-off"),
 ("C21", "f3798af", "site statistics were divided by the start of the last block instead of the time that passed (division by zero in short runs)"),
 ("C22", "9a142a8", "basis sites given as numpy integers were accepted and crashed in the backend"),
 ("C23", "d896119", "a script of a process with coordinates such as 1/3 could not be read back"),
 ("C23", "a6779c5", "a script written after a run held the types from before it"),
 ("C22", "fdb55f0", "lists of bucket types with malformed pairs were accepted"),
 ("C22", "6d18b98", "dump and analysis intervals of zero were accepted and raised ZeroDivisionError in the run"),
 ("C22", "3192cb4", "a place with six elements raised IndexError"),
 ("C22", "86635f1", "move vectors with an index out of range, or too short, raised IndexError or moved another atom"),
 ("C22", "67417f7", "NaN was accepted as rate constant or time interval"),
 ("C22", "0ce7ebe", "malformed updates and matches of bucket processes were accepted and raised TypeError or IndexError later"),
 ("C12", "37b7723", "of the changes of a type listed twice in an update only the last was made"),
 ("C22", "674c24c", "negative numbers of particles were accepted and meant none"),
 ("C22", "9873a25", "possible types listed twice aborted the process in the backend"),
 ("C22", "25838ea", "a list given as rng_type raised TypeError"),
 ("C05", "cf12c41", "a model whose events all have rate zero performed them, at an infinite time"),
 ("C12", "67dc583", "bucket processes that require 34 or more particles crashed (overflow of binomial coefficients)"),
 ("C22", "6b3c989", "interactions and processes used in a second model kept the types, the neighbour searches and the matching of the first"),
 ("C01", "bfda794", "a model that runs after another on the same configuration kept the matching from before the other's changes"),
 ("C13", "e19d8f1", "cells of sites in lattices of more than nine million cells were wrong"),
    ("C23", "2b39c74", "scripts and trajectories with quotes or backslashes in the names of types could not be read back"),
]
KNOWN = []
out = []
for p, h, what in FIXED:
    out.append({"status": "fixed", "property": p, "commit": h, "what": what, "line": "fixed: property=%s %s %s" % (p, h, what)})
out += KNOWN
json.dump(out, open(os.path.join(V, "known-findings.json"), "w"), indent=1)
