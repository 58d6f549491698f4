#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the committed files are its output)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "c++/src/"
P = "python/src/KMCLib/"


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe]}
    if state:
        a["state"] = state
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


PROPS = [
prop("C01", "The available processes are exactly those that match the configuration",
     "After setting a model up and after every step, a site is listed as available for a process if and only if the site is at one of the basis positions of the process and every position that the process specifies relative to it exists and holds what the process requires (wildcards match anything; with implicit wildcards, the positions left out up to the farthest one stated are wildcards too, for sites that must exist). No site is listed twice, and the number of available events reported is the number of listed (process, site) pairs. It also holds for models in one process that share a lattice, processes or interactions, or that run by turns on one configuration.",
     ["inputs", "histories"], "Every lattice, set of processes and initial configuration, after every sequence of events.",
     "The lists are updated incrementally around each event; a wrong update shows only in particular geometries after particular histories, while the tests look at a few fixed states.",
     [C + "matcher.cpp", C + "process.cpp", C + "latticemodel.cpp", C + "matchlist.cpp", C + "interactions.cpp", C + "latticemap.cpp"],
     [("incremental re-matching", C + "latticemodel.cpp LatticeModel::singleStep, " + C + "matcher.cpp Matcher::calculateMatching/matchIndicesWithProcesses/isMatch"),
      ("site lists", C + "process.cpp Process::addSite/removeSite"),
      ("re-match range", C + "interactions.cpp Interactions::searchRange")],
     "model._backend().interactions().processes()[p].sites(), totalAvailableSites()"),
prop("C02", "An event changes exactly what its process says and nothing else",
     "Every step performs a process at a site where it was available, the sites named in the process then hold what the process prescribes, and every other site is unchanged. All reports of the configuration (types, particle counts per type) agree with each other after every step, no count is negative, and a lattice of single particles always holds exactly one particle per site.",
     ["inputs", "histories"], "Every model and every sequence of events.",
     "Tests perform single hand-made events; the property quantifies over every process shape, site (boundaries included) and history.",
     [C + "configuration.cpp", C + "typebucket.cpp", P + "CoreComponents/KMCConfiguration.py", C + "matchlist.cpp"],
     [("performing an event", C + "configuration.cpp Configuration::performBucketProcess"),
      ("types as reported", P + "CoreComponents/KMCConfiguration.py types(), particlesPerType()")],
     "KMCConfiguration.types(), particlesPerType(), latestEventProcess(), latestEventSite()"),
prop("C03", "Total rates are the sums over the available events at all times",
     "After setting up and after every step the total rate of a process is the sum of the rates of its available events (its rate constant each, or the calculated rate), a process without available sites has no rate, and the total rate of the system is the sum over the processes. This stays so after any number of steps, without accumulated error.",
     ["inputs", "histories"], "Every model, any number of steps.",
     "Bookkeeping that drifts or misses an update is invisible in tests of a few steps.",
     [C + "process.cpp", C + "customrateprocess.cpp", C + "interactions.cpp"],
     [("process rate", C + "process.cpp Process::totalRate, " + C + "customrateprocess.cpp addSite/removeSite"),
      ("probability table", C + "interactions.cpp Interactions::updateProbabilityTable, totalRate")],
     "processes()[p].totalRate(), interactions().totalRate()"),
prop("C05", "Each step advances time by ln(1/r) over the total rate",
     "In each step the simulation time advances by -ln(r) / R, where R is the total rate of the state that the step leaves and r the uniform random number drawn for it; the advance is positive and finite for every r the generator can give. With uniform r the waiting times are thus exponential with mean 1/R.",
     ["inputs", "histories"], "Every state of every model and every value of the random number, the extreme ones included.",
     "Seeded tests see a handful of random numbers and never the extreme values; a rate taken before instead of after an update only shows in the middle of a run.",
     [C + "simulationtimer.cpp", C + "random.cpp", C + "latticemodel.cpp", P + "CoreComponents/KMCLatticeModel.py"],
     [("time propagation", C + "simulationtimer.cpp SimulationTimer::propagateTime"), ("rate used", C + "latticemodel.cpp LatticeModel::propagateTime")],
     "time handed to registerStep"),
prop("C06", "Boundaries: periodic directions wrap and open directions end",
     "Along a periodic direction a process sees and changes sites across the boundary as if the lattice continued; along an open direction nothing exists beyond the last cell, so no process that needs a site out there, wildcards included, is available and no event changes a site on the other side. This holds for any mix of periodic and open directions and for lattices as small as one or two cells.",
     ["inputs", "histories"], "Every mix of periodicity, lattice sizes from one cell up, sites at faces, edges and corners.",
     "Tests use large, mostly periodic lattices and central sites.",
     [C + "latticemap.cpp", C + "configuration.cpp", C + "matcher.cpp"],
     [("neighbourhood", C + "latticemap.cpp neighbourIndices/supersetNeighbourIndices"), ("wrapping", C + "latticemap.cpp LatticeMap::wrap"),
      ("match lists", C + "configuration.cpp configMatchList")],
     "sites() of each process and the configuration after each event"),
prop("C07", "Wildcards match anything; the presentation of a model does not matter",
     "A position given as wildcard, or left out when implicit wildcards are on, matches every occupation and is never changed (positions left out count as wildcards up to the distance of the farthest one stated). Listing the positions of a process in another order, or shifting all its coordinates by a constant, does not change what the process does, where it is available, or how its environment is presented.",
     ["inputs", "histories"], "Every process in every order of its positions, every shift, wildcards in any place.",
     "Tests write each process in one fixed form.",
     [P + "CoreComponents/KMCInteractions.py", P + "CoreComponents/KMCLocalConfiguration.py", C + "interactions.cpp", C + "matchlist.cpp", C + "configuration.cpp", C + "matchlistentry.cpp"],
     [("implicit wildcards", P + "CoreComponents/KMCInteractions.py _backend, " + C + "interactions.cpp"), ("sorting of match lists", C + "process.cpp, " + C + "matchlistentry.cpp operator<"),
      ("centring and sorting", P + "CoreComponents/KMCLocalConfiguration.py")],
     "sites() of each process, configuration after each event"),
prop("C08", "Atoms keep their identity and their path as they move",
     "Every atom has one identity for the whole simulation: at all times the identities are a permutation over the sites and the type at a site is the type of the atom there. An event that moves atoms carries the identities along its move vectors and adds those vectors to the atoms' (unwrapped) coordinates, and the moved atoms and vectors reported for it are exactly those of the event.",
     ["inputs", "histories"], "Every model with one particle per site and every sequence of events, concerted moves included.",
     "The identity bookkeeping depends on the order of moves within an event and accumulates over the history.",
     [C + "configuration.cpp", C + "matchlistentry.cpp", P + "CoreComponents/KMCProcess.py", P + "CoreComponents/KMCConfiguration.py"],
     [("identity moves", C + "configuration.cpp Configuration::performBucketProcess"), ("move vectors", P + "CoreComponents/KMCProcess.py __checkMoveVectors, _backend")],
     "atomIDTypes(), atomIDCoordinates(), movedAtomIDs(), recentMoveVectors()"),
prop("C09", "A rate calculator is handed the true local environment",
     "Whenever the rate of an event is calculated, the calculator is given every site within the cutoff of the event with its displacement from the centre, its occupation now and after the event, the rate constant and number of the process, and the global coordinate of the site: nothing stale, nothing missing, nothing beyond the cutoff.",
     ["inputs", "histories"], "Every model with calculated rates, every cutoff, site and history.",
     "The environment is gathered incrementally from cached match lists; staleness needs particular histories and distances.",
     [C + "matcher.cpp", C + "configuration.cpp", C + "customrateprocess.cpp", C + "ratecalculator.cpp", P + "PluginInterfaces/KMCRateCalculatorPlugin.py", P + "CoreComponents/KMCInteractions.py"],
     [("gathering", C + "matcher.cpp Matcher::updateSingleRate"), ("cutoff", C + "process.cpp, " + C + "configuration.cpp cutoff handling"),
      ("calling", P + "PluginInterfaces/KMCRateCalculatorPlugin.py backendRateCallback")],
     "arguments of the rate() of a KMCRateCalculatorPlugin"),
prop("C10", "Calculated rates are those of the current configuration after every event",
     "After every event the rate of each available event is what its calculator gives for the present surroundings: every event whose surroundings within the cutoff changed has been recalculated, and the total rates contain the new values.",
     ["inputs", "histories"], "Every model with calculated rates, all cutoffs and all histories.",
     "Missing re-evaluations show only when something changes near the edge of the cutoff and the stale event matters later.",
     [C + "matcher.cpp", C + "customrateprocess.cpp", C + "latticemodel.cpp", C + "interactions.cpp"],
     [("which events to recalculate", C + "matcher.cpp calculateMatching, updateRates"), ("range", C + "interactions.cpp searchRange, maxRange")],
     "processes()[p].totalRate() against the calculator's function"),
prop("C11", "Caching calculated rates does not change them",
     "With caching of rates turned on, the rate used for every event is what the calculator would give for its present surroundings, however many different surroundings occur; events told apart by process, geometry, or occupation before or after never share a value. Processes excluded from caching are calculated every time.",
     ["inputs", "histories"], "Every model with cached calculated rates, any number of distinct environments (more than the cache holds included).",
     "Key collisions and evictions need many or particular pairs of environments.",
     [C + "hash.cpp", C + "ratetable.cpp", C + "matcher.cpp", P + "CoreComponents/KMCInteractions.py"],
     [("keys", C + "hash.cpp hashCustomRateInput, hashCustomRateGeometry"), ("table", C + "ratetable.cpp"), ("lookup", C + "matcher.cpp updateSingleRate")],
     "processes()[p].totalRate()"),
prop("C12", "Sites holding several particles: matching and updating count them",
     "On lattices with several particles per site, a process is available where every one of its positions holds at least the required number of each type, and performing it adds and removes exactly the stated numbers, leaving other particles in place; counts never become negative and the reported types and totals agree with them.",
     ["inputs", "histories"], "Every bucket model and every sequence of events.",
     "Counting errors show for particular combinations of occupation and requirement.",
     [C + "typebucket.cpp", C + "matchlistentry.cpp", C + "configuration.cpp", P + "CoreComponents/KMCBucketProcess.py", P + "Utilities/ConversionUtilities.py"],
     [("comparison", C + "typebucket.h match, " + C + "matchlistentry.cpp match"), ("update", C + "configuration.cpp performBucketProcess"),
      ("conversion", P + "Utilities/ConversionUtilities.py")],
     "types(), particlesPerType(), sites()"),
prop("C04", "Each available event is picked with probability in proportion to its rate",
     "In every state the next event is an available event of nonzero rate, and over evenly distributed random numbers each available event is chosen in the proportion of its rate to the total rate. This holds for every value of the random numbers, the extreme ones included.",
     ["inputs", "histories"], "Every state of every model, all values of the random numbers.",
     "A test compares a few draws with a fixed list; shares of the unit interval, its ends and events of rate zero are not looked at.",
     [C + "interactions.cpp", C + "process.cpp", C + "customrateprocess.cpp", C + "random.cpp", C + "latticemodel.cpp"],
     [("process pick", C + "interactions.cpp Interactions::pickProcessIndex/updateProbabilityTable"), ("site pick", C + "process.cpp Process::pickSite/updateRateTable")],
     "latestEventProcess(), latestEventSite() after a step with given random numbers"),
prop("C14", "Analysis and breaker plugins are called when the run says",
     "During a run every analysis plugin is set up once, then told of every step that is a multiple of the analysis interval, in the order given, and finalised once; every breaker is set up once, then asked at every multiple of its own interval, and the first that says so ends the run. Every call gets the number of the step within the run, the simulation time and the configuration as they are right after that step.",
     ["inputs", "histories"], "Every combination of intervals, plugins, breakers, number of steps and history.",
     "The call sequence is a function of several interacting intervals and endings; tests fix one combination each.",
     [P + "CoreComponents/KMCLatticeModel.py", P + "CoreComponents/KMCControlParameters.py", P + "PluginInterfaces/KMCAnalysisPlugin.py", P + "PluginInterfaces/KMCBreakerPlugin.py"],
     [("loop", P + "CoreComponents/KMCLatticeModel.py run"), ("intervals", P + "CoreComponents/KMCControlParameters.py analysisInterval")],
     "arguments of setup, registerStep, evaluate and finalize"),
prop("C15", "A trajectory holds the true state at exactly the steps asked for",
     "A trajectory file, lattice or xyz, records the initial state and then the state right after every step that is a multiple of the dump interval, each with its step number and simulation time, in order and complete when the run is over. Read back, the file gives the sites of the lattice and the occupation of every site, or the type and unwrapped coordinate of every atom, and at any moment of the run it holds a prefix of these records.",
     ["inputs", "histories", "crash_points"], "Every lattice, interval, kind of trajectory, wall clock and history.",
     "Buffering depends on the wall clock and the amount of data; tests write one small trajectory.",
     [P + "CoreComponents/KMCLatticeModel.py", P + "Utilities/Trajectory/LatticeTrajectory.py", P + "Utilities/Trajectory/XYZTrajectory.py", P + "Utilities/Trajectory/Trajectory.py"],
     [("dump points", P + "CoreComponents/KMCLatticeModel.py run"), ("buffer", P + "Utilities/Trajectory/Trajectory.py append/flush"), ("formats", P + "Utilities/Trajectory/LatticeTrajectory.py, XYZTrajectory.py")],
     "the trajectory files"),
prop("C16", "Dumps in simulation time show the state that held at the sample time",
     "With a dump interval in simulation time, whenever an event carries the simulation past one or more multiples of the interval since the start of the run, exactly one record is written, of the state that held until that event with its step and time. No other records but the initial one are written, so sampling is not shifted by the lengths of the steps.",
     ["inputs", "histories"], "Every interval, shorter or longer than the steps, every history, first and later runs.",
     "Depends on the random waiting times relative to the interval; tests cannot fix these.",
     [P + "CoreComponents/KMCLatticeModel.py", P + "CoreComponents/KMCControlParameters.py"],
     [("sampling", P + "CoreComponents/KMCLatticeModel.py run")],
     "the trajectory files"),
prop("C17", "However a run ends, it is ended in order",
     "Whether a run ends by its number of steps, by a breaker, by running out of available events, or by an exception raised in a plugin while the run is stepping (registerStep or evaluate), every analysis is finalised exactly once, all records taken so far are in the trajectory file, and an exception reaches the caller. A model with nothing that can happen is refused when the run starts, before anything is called or written.",
     ["inputs", "histories", "crash_points"], "Every way of ending, at every step and in every plugin.",
     "Tests end their runs by the number of steps; the property quantifies over the point at which something goes wrong.",
     [P + "CoreComponents/KMCLatticeModel.py", P + "Utilities/Trajectory/Trajectory.py"],
     [("try/finally of the loop", P + "CoreComponents/KMCLatticeModel.py run"), ("flush", P + "Utilities/Trajectory/Trajectory.py flush")],
     "finalize calls, trajectory files, the exception"),
prop("C19", "Several runs of a model continue one simulation",
     "Calling run again carries on from the state in which the last run ended: configuration, atom identities, coordinates and simulation time go on as in one simulation, while step numbers, intervals and dumps count from the start of each run. This holds however the earlier runs ended.",
     ["inputs", "histories"], "Every sequence of runs with different parameters and endings.",
     "Tests call run once per model.",
     [P + "CoreComponents/KMCLatticeModel.py", P + "CoreComponents/KMCConfiguration.py", C + "simulationtimer.cpp"],
     [("state kept between runs", P + "CoreComponents/KMCLatticeModel.py _backend, run")],
     "calls and trajectories of the later runs, final state"),
prop("C13", "Site numbers, coordinates, cells and neighbourhoods agree with each other",
     "The sites of a lattice, their numbers, their coordinates in the repetition and in space, the cell of a site and the distances between sites all follow from the cell, the basis points and the repetitions in one fixed order. The neighbourhood of a site, the union of the neighbourhoods of several and the shift and wrapping of coordinates give exactly the sites within the stated number of cells, each once, across periodic boundaries and never across open ones.",
     ["inputs"], "Every lattice (any repetitions, mix of periodic directions and number of basis points), site, range and displacement.",
     "Tests compare a few sites of a few lattices with lists; neighbourhoods larger than the lattice and mixed boundaries are where the index arithmetic goes wrong.",
     [C + "latticemap.cpp", P + "CoreComponents/KMCLattice.py", P + "CoreComponents/KMCUnitCell.py"],
     [("neighbourhoods", C + "latticemap.cpp neighbourIndices, supersetNeighbourIndices"), ("cells", C + "latticemap.cpp indicesFromCell, indexToCell, basisSiteFromIndex"),
      ("coordinates", P + "CoreComponents/KMCLattice.py sites, globalIndex; " + P + "CoreComponents/KMCUnitCell.py")],
     "KMCLattice.sites(), globalIndex(), the LatticeMap of a lattice"),
prop("C18", "The seed determines the history, whatever else goes on",
     "A model run with the same seed and random number generator goes through the same events at the same times, to the last bit, in every process that runs it: observing it with analysis, breakers and trajectories, other models living or run before in the same process, caching of rates and the hash seed of Python make no difference. Another seed gives another history.",
     ["inputs", "histories"], "Every model, seed, generator and everything else that goes on in the process.",
     "Needs pairs of whole executions; a dependence on the surroundings shows only when they differ.",
     [C + "random.cpp", C + "ratetable.cpp", C + "interactions.cpp", P + "CoreComponents/KMCLatticeModel.py", P + "CoreComponents/KMCControlParameters.py"],
     [("seeding", C + "random.cpp seedRandom, setRngType; " + P + "CoreComponents/KMCLatticeModel.py run"), ("global state", C + "random.cpp, " + C + "ratetable.cpp")],
     "latestEventProcess(), latestEventSite() and time at every step, final types"),
prop("C20", "The mean square displacement is that of the recorded paths",
     "On-the-fly MSD results are those computed from the unwrapped paths of the tracked atoms: whenever a tracked atom moves, its displacement from each of its last recorded positions is added to the bin of the elapsed time, in every direction and combination of directions. Nothing else is counted, the history has the stated length, and times beyond the range are left out.",
     ["inputs", "histories"], "Every history of moves, any number of bins, range and length of history, any periodic lattice.",
     "Accumulated statistics depend on the whole history; tests look at totals of one fixed run.",
     [P + "Analysis/OnTheFlyMSD.py", C + "ontheflymsd.cpp"],
     [("accumulation", C + "ontheflymsd.cpp OnTheFlyMSD::registerStep, calculateMSD"), ("results", P + "Analysis/OnTheFlyMSD.py finalize, printResults")],
     "OnTheFlyMSD.results(), binCounters(), timeSteps(), printResults()"),
prop("C21", "Composition, process statistics and step times count what happened",
     "The composition reported for each time block is the count of every type averaged over the recorded steps of the block, the process statistics count the events of the chosen processes and the sites that hold them in time, and the distribution of step lengths counts every step once. What is printed is what was computed, and data per site are divided by the time that passed.",
     ["inputs", "histories"], "Every history, all intervals and selections of processes, simulations that start at any time.",
     "Block boundaries and normalisation depend on the history of times; tests feed one made-up history each.",
     [P + "Analysis/Composition.py", P + "Analysis/ProcessStatistics.py", P + "Analysis/TimeStepDistribution.py", P + "Analysis/DataStorage"],
     [("blocks", P + "Analysis/Composition.py, " + P + "Analysis/ProcessStatistics.py registerStep"), ("histogram", P + "Analysis/TimeStepDistribution.py")],
     "results and printed output of the analysis plugins"),
prop("C22", "Equivalent input gives the same model and invalid input is refused",
     "The same model written in any of the accepted notations (types in order or per site with a default, occupations as names, pairs or lists of them, sequences of any kind, defaults left out) behaves the same. Input that does not describe a model (wrong types and shapes, names or processes that do not exist, contradictory or missing values) is refused with the error of the package when it is given, at the latest when the run starts, and never gives a model that means something else.",
     ["inputs"], "Every way of writing every model; every single fault in an otherwise valid input.",
     "Tests try each notation and a few faults once; the combinations and equivalences are unbounded.",
     [P + "Utilities/CheckUtilities.py", P + "Utilities/ConversionUtilities.py", P + "CoreComponents/KMCConfiguration.py", P + "CoreComponents/KMCProcess.py", P + "CoreComponents/KMCBucketProcess.py", P + "CoreComponents/KMCLattice.py", P + "CoreComponents/KMCInteractions.py", P + "CoreComponents/KMCControlParameters.py"],
     [("normalisation", P + "Utilities/ConversionUtilities.py, " + P + "Utilities/CheckUtilities.py checkAndNormaliseBucketEntry"), ("checks", P + "Utilities/CheckUtilities.py"),
      ("long form of types", P + "CoreComponents/KMCConfiguration.py")],
     "the behaviour of the model, or Error from the constructor"),
prop("C23", "A script read back is the same model",
     "The script that a model with one particle per site writes, read back in pieces or as a whole, is a model with the same lattice, current types, possible types, processes, rates and settings (to the digits written), before and after runs. It behaves the same from there on.",
     ["inputs", "histories"], "Every model, before and after any number of steps.",
     "Tests compare the text of one script; what it means when read back depends on every field and on the history.",
     [P + "CoreComponents/KMCConfiguration.py", P + "CoreComponents/KMCInteractions.py", P + "CoreComponents/KMCProcess.py", P + "CoreComponents/KMCLattice.py", P + "CoreComponents/KMCUnitCell.py", P + "Utilities/ScriptUtilities.py"],
     [("writing", "_script of every component"), ("reading", P + "CoreComponents/KMCConfiguration.py KMCConfigurationFromScript, KMCInteractionsFromScript, KMCLatticeModelFromScript")],
     "the behaviour of the model read back"),
]

SPEC = "TLA+ specification (KMC.tla), TLC trace validation of recorded executions of the real code"
NOTE = ("Every observation of every recorded execution is judged by TLC against the TLA+ specification; executions are "
        "sampled from random models with scripted random numbers, so a violation that no sampled model and history "
        "shows is not seen. Trusts the observation through the Python and SWIG interfaces.")
RUN = "TLA+ specification of the run loop (Run.tla) model checked with TLC over all parameters, TLC trace validation of real runs"
LAT = "TLA+ specification of lattices (Lattice.tla) model checked with TLC, TLC validation of the answers of the real lattice map"
ANA = "TLA+ specification of the analysis tools (Analysis.tla) model checked with TLC, TLC trace validation of real analyses of runs"
TECH = {"C13": LAT, "C18": "TLA+ specification of one history per seed (HistTrace.tla) that TLC holds groups of recorded real executions to",
        "C20": ANA, "C21": ANA,
        "C22": "TLA+ specification (KMC.tla), TLC trace validation of real models written in random equivalent notations",
        "C23": "TLA+ specification (KMC.tla), TLC trace validation of models read back from the scripts that real models write",
        "C04": "TLA+ specification (KMC.tla), TLC validation of the events that real steps take for evenly spaced and extreme random numbers",
        "C14": RUN, "C15": RUN, "C16": RUN, "C17": RUN, "C19": RUN}
NOTES = {}
NA = []

if __name__ == "__main__":
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        i = p["id"]
        if any(n["property"] == i for n in NA):
            continue
        checks.append({"property": i, "quick_cmd": "python3 checks/check.py %s quick" % i,
                       "thorough_cmd": "python3 checks/check.py %s thorough" % i,
                       "technique": TECH.get(i, SPEC), "level": "model_checking", "level_note": NOTES.get(i, NOTE)})
    m = {"version": 1, "setup_cmd": "bash checks/setup.sh", "checks": checks, "not_applicable": NA}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
