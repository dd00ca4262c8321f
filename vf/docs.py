"""Writes properties.jsonl and MANIFEST.json from one place.

  python3 vf/docs.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from_registry = None


def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=[dict(name=n, where=w) for n, w in mech], observe=observe, technique=technique, note=note)


ASAN = " Everything runs in an AddressSanitizer/UBSan build, whose reports count as violations."
PROPS = [
    P("C01", "Resource operations conserve quantity, nuclides and quality",
      "Splitting, combining and transmuting resources neither creates nor destroys any: after every operation the quantity (and, for "
      "materials, the mass of every nuclide) in the pieces equals what went in, transmutation changes only composition, and products keep their quality. "
      "No resource ever has a negative quantity or nuclide. "
      "An operation that asks for more than is there, for something the material does not contain, or mixes different qualities is refused and leaves every resource as it was.",
      ["histories", "inputs"], "every sequence of create, extract, composition-extract, absorb, transmute, copy and package operations on materials and products, accepted and refused, at any magnitude",
      "The unit tests do one or two operations on round numbers; conservation must hold along every history and magnitude.",
      ["src/material.cc", "src/product.cc", "src/composition.cc", "src/comp_math.cc", "src/resource.h"],
      [("Material::ExtractQty/ExtractComp/Absorb/Transmute", "src/material.cc"), ("Product::Extract/Absorb", "src/product.cc"), ("compmath", "src/comp_math.cc")],
      ["quantity(), comp(), quality() of every live resource after each operation"],
      "runtime monitor: reference model compared after every operation of random histories, ASan/UBSan build",
      "Exploration of random operation histories against an independent model with tolerances of a few ulps." + ASAN + " Radioactive decay is outside it: no decay data are available here."),
    P("C02", "Every change of a tracked resource is recorded once, with its parents",
      "Each state a tracked resource takes appears exactly once in the recorded Resources table, under a state id never used before, with the object id, quantity, composition or quality, package, time and parent states it really had. "
      "Following the parents from any recorded state leads only to recorded states and ends in states with a recorded creator. "
      "Untracked resources, their portions, and refused operations leave no trace in the database.",
      ["histories"], "every history of operations on tracked and untracked resources over any number of time steps",
      "The tests look at a few tracker calls; the provenance graph must be complete for every history.",
      ["src/res_tracker.cc", "src/material.cc", "src/product.cc", "src/composition.cc"],
      [("ResTracker", "src/res_tracker.cc"), ("Composition::Record", "src/composition.cc")],
      ["rows delivered to a recording backend after each operation"],
      "runtime monitor: online trace checker of the recorded ledger against each operation, ASan/UBSan build",
      "Exploration; every recorded row has to be explained by one operation and every operation by its rows." + ASAN),
    P("C03", "Trades never exceed what was offered, constrained or asked for",
      "Every trade a solver decides belongs to an arc with positive preference between a request and a bid that answers it, has a positive finite quantity no larger than the bid offers or the request asks, and the trades of a bid portfolio together respect each of its capacity constraints. "
      "With the default solver no request and no request portfolio receives more than it asked for; with the optimising solver this holds for portfolios of divisible orders. "
      "An order marked exclusive is traded whole, by a single trade, or not at all.",
      ["inputs", "configurations"], "every set of requests, bids, portfolios, preferences and constraints, with each solver",
      "Tests solve a handful of small graphs whose answer is known; the guarantee is over all graphs.",
      ["src/greedy_solver.cc", "src/prog_translator.cc", "src/prog_solver.cc", "src/exchange_translator.h", "src/exchange_graph.cc", "src/bid_portfolio.h", "src/request_portfolio.h"],
      [("GreedySolver::GreedilySatisfySet", "src/greedy_solver.cc"), ("Capacity", "src/exchange_graph.cc"), ("ProgTranslator::Translate", "src/prog_translator.cc"), ("TranslateRequests/TranslateBids/TranslateCapacities", "src/exchange_translator.h")],
      ["trades handed to suppliers, in full exchanges run through the exchange manager"],
      "runtime monitor: every trade of random exchanges re-judged against the traders' own requests, bids and constraints, ASan/UBSan build",
      "Exploration over random exchanges of materials and products, both solvers." + ASAN),
    P("C04", "The solvers serve preferences first and leave no avoidable gap",
      "The default solver leaves no arc that could still carry flow, serves a requester's more preferred bids before its less preferred ones, and request groups in order of their average preference. "
      "The optimising solver's match costs no more than any other feasible match under its stated cost (quantity over preference, plus the cost of unmet demand).",
      ["inputs", "configurations"], "every exchange graph with positive preferences, divisible and exclusive",
      "Tests check a few graphs with hand-computed answers; optimality and saturation are statements about all alternatives.",
      ["src/greedy_solver.cc", "src/greedy_preconditioner.cc", "src/prog_solver.cc", "src/prog_translator.cc", "src/exchange_solver.cc", "src/exchange_graph.cc"],
      [("GreedyPreconditioner", "src/greedy_preconditioner.cc"), ("AvgPrefComp/ReqPrefComp", "src/greedy_solver.cc"), ("ProgTranslator", "src/prog_translator.cc"), ("ExchangeSolver::ArcCost", "src/exchange_solver.cc")],
      ["matches of the exchange graph after Solve"],
      "runtime monitor: saturation/order oracle for the greedy match and brute-force/LP optimum for the optimiser on random graphs",
      "Exploration; optimality judged on small graphs against exhaustive search and against the greedy match on larger ones." + ASAN),
    P("C05", "The exchange queries everyone once and records exactly what was traded",
      "In each exchange every trader is asked once for requests and once for bids, bidders see every request, requesters and all their ancestors may adjust preferences, and the phases come in that order. "
      "Each decided trade is presented to its supplier once, its response is delivered to its requester once, and exactly one transaction row with the right sender, receiver, commodity, resource and time is recorded for it.",
      ["schedules", "inputs"], "every population of traders in any agent hierarchy and over any number of time steps",
      "Tests use mock traders in tiny exchanges; the protocol must hold for all populations.",
      ["src/exchange_manager.h", "src/resource_exchange.h", "src/trade_executor.h", "src/trader_management.h", "src/exchange_context.h"],
      [("ResourceExchange", "src/resource_exchange.h"), ("TradeExecutor", "src/trade_executor.h"), ("ExchangeManager::Execute", "src/exchange_manager.h")],
      ["callbacks of the traders, rows of the Transactions table"],
      "runtime monitor: trace checker over the traders' callbacks and the Transactions table",
      "Exploration." + ASAN),
    P("C06", "Time steps run their phases in order for exactly the living agents",
      "A simulation goes through every step from 0 to its duration, in each doing build, tick, exchange, tock, decision and decommission in that order, and every agent in the simulation gets each of its phases exactly once per step, from the step it is built in through the one it is decommissioned in. "
      "Builds and decommissionings happen at exactly the time they are scheduled for, or at the end of the agent's lifetime, and their parents are notified; scheduling in the past is refused. "
      "The entry, exit, schedule, snapshot and finish tables and the counts of prototypes and specs say exactly what happened, also when a simulation is ended early.",
      ["schedules", "histories"], "every schedule of builds, decommissionings, lifetimes, snapshots and early termination, made before or during the run by any agent in any phase",
      "Tests run a few fixed schedules; agents schedule from any phase at any time.",
      ["src/timer.cc", "src/context.cc", "src/agent.cc", "src/facility.cc", "src/institution.cc", "src/region.cc"],
      [("Timer::RunSim/DoBuild/DoDecom/SchedBuild/SchedDecom", "src/timer.cc"), ("Agent::Build/Decommission", "src/agent.cc"), ("Context", "src/context.cc")],
      ["callbacks of scripted agents, recorded tables"],
      "runtime monitor: trace-specification checker over agents' callbacks and recorded tables for random schedules",
      "Exploration; builds are scheduled under parents that still exist when they fall due (see the known finding)." + ASAN),
    P("C07", "Inventories hold exactly what was put in and not taken out",
      "A buffer's count, quantity and remaining space always match the resources it holds, its quantity never exceeds its capacity beyond the resource tolerance, and objects come out oldest first (or newest first when asked), split only where the quantity asked for ends. "
      "What comes out together with what is still inside is exactly what was put in, nuclide by nuclide. "
      "A push, pop or capacity change that cannot be done is refused and changes nothing; trackers over several buffers and keyed resource maps agree with the buffers and resources they cover.",
      ["histories", "inputs"], "every sequence of pushes, pops, capacity changes and refused operations, bulk or discrete, with or without keeping packaging",
      "Tests do fixed sequences of two or three resources; drift and dust appear over long histories and odd magnitudes.",
      ["src/toolkit/res_buf.h", "src/toolkit/total_inv_tracker.h", "src/toolkit/res_map.h", "src/toolkit/res_manip.cc"],
      [("ResBuf", "src/toolkit/res_buf.h"), ("TotalInvTracker", "src/toolkit/total_inv_tracker.h"), ("ResMap", "src/toolkit/res_map.h"), ("Squash", "src/toolkit/res_manip.cc")],
      ["public state of the containers after each operation"],
      "runtime monitor: model of the contents compared after every operation of random histories, ASan/UBSan build",
      "Exploration." + ASAN),
    P("C08", "Every recorded datum reaches every backend exactly once and in order",
      "Each datum recorded while a backend is registered is delivered to that backend exactly once, in recording order, with the fields, values and shapes it was recorded with, led by the simulation id when that is asked for. "
      "At most the buffer size minus one data are ever held back, nothing is held back after a flush or close, and flushing, closing or (once flushed) changing the buffer size at any point loses or repeats nothing.",
      ["histories", "configurations"], "every interleaving of recording, flushing, closing, backend registration and buffer-size changes",
      "Tests record a few datums at two buffer sizes; boundaries appear at every fill level.",
      ["src/recorder.cc", "src/datum.cc", "src/rec_backend.h"],
      [("Recorder::AddDatum/NotifyBackends/Flush/set_dump_count", "src/recorder.cc"), ("Datum", "src/datum.cc")],
      ["calls received by recording backends"],
      "runtime monitor: delivery log of each backend compared to the recording log",
      "Exploration." + ASAN),
    P("C09", "Queries return exactly the rows and values that were recorded",
      "Every value of every supported type and shape written to a SQLite or HDF5 database is returned by a query, unchanged and in its row, under its column, in writing order, also after the file was closed, reopened and appended to. "
      "A query with conditions returns exactly the rows that satisfy all of them, and the tables, schema and column types reported are those written.",
      ["inputs", "histories"], "every schema over the types both formats support, every content including empty, long, repeated and shared values, every condition",
      "Tests round-trip a few values per type with one or two conditions; keys, padding and sharing go wrong on particular contents.",
      ["src/sqlite_back.cc", "src/hdf5_back.cc.in", "src/hdf5_back.h", "src/query_backend.h", "src/sqlite_db.cc"],
      [("SqliteBack", "src/sqlite_back.cc"), ("Hdf5Back", "src/hdf5_back.cc.in"), ("CmpCond, Sha1, CondInjector, PrefixInjector", "src/query_backend.h")],
      ["query results against what was recorded"],
      "runtime monitor: written rows compared to query answers over random schemas, contents and conditions, ASan/UBSan build",
      "Exploration; values the formats cannot represent (NaN in SQLite, NUL bytes) are left out." + ASAN),
    P("C10", "The same input and seed give the same simulation",
      "Two runs of the same input file with the same random seed have the same agents make the same trades, draw the same random numbers, enter and leave in the same order and hold the same inventories at every time step, and record the same rows. "
      "This depends on nothing else: not on where the objects lie in memory, on ties between preferences, on the number of portfolios or bids a trader makes, on the database format or on the buffer size of the recorder.",
      ["inputs", "histories"], "every input, and every memory layout, database format and buffer size of the run",
      "Tests run one simulation once; sets ordered by address give the same result until the allocator moves an object.",
      ["src/resource_exchange.h", "src/exchange_context.h", "src/exchange_translator.h", "src/trade_executor.h", "src/bid_portfolio.h", "src/request_portfolio.h", "src/timer.cc", "src/institution.cc", "src/greedy_preconditioner.cc", "src/greedy_solver.cc", "src/context.cc"],
      [("ResourceExchange::InitTraders/AddRequests_/AddBids_/AdjustAll", "src/resource_exchange.h"), ("TradeExecutor::ExecuteTrades", "src/trade_executor.h"), ("Institution::Tock", "src/institution.cc"), ("GreedyPreconditioner::ProcessWeights_", "src/greedy_preconditioner.cc")],
      ["draws, shipments, arrivals, departures and inventories reported by each agent", "every table of the two databases"],
      "runtime monitor: differential runs in forked processes with a randomised heap layout, traces and databases compared",
      "Exploration. Rows are compared as multisets and observations per agent and step." + ASAN),
    P("C11", "A simulation restarted from a snapshot continues as if never interrupted",
      "Restarting from the database at any time step that was snapshotted rebuilds every agent alive then, with its place in the hierarchy, state variables, inventories (quantities, compositions, qualities, packages), lifetime and pending schedules, "
      "and from there on the agents see and do, step by step, what they did in the run that was not interrupted: same builds, retirements, trades and states. "
      "A single resource rebuilt from the database by its state id has the quantity, composition or quality, and package that it was recorded with.",
      ["histories", "crash_points", "configurations"], "every simulation of agents that decide by their state, the time and their partners, every snapshot time, either database format",
      "Tests restore single agents or tables written by hand; a restart composes generated snapshot code, resource tables, schedules and tolerances over any history.",
      ["src/sim_init.cc", "src/sim_init.h", "cli/cycpp.py", "src/timer.cc", "src/context.cc", "src/agent.cc"],
      [("SimInit::Restart, LoadInitialAgents, LoadInventories, LoadBuildSched, BuildMaterial, BuildProduct", "src/sim_init.cc"), ("Snapshot, SnapshotInv, InitInv, InitFrom generated", "cli/cycpp.py"), ("SimInit::Snapshot", "src/sim_init.cc")],
      ["agents' reports per step, Transactions and agent tables of both runs"],
      "runtime monitor: differential trace comparison of a run and its restarts from random snapshots, ASan/UBSan build",
      "Exploration; agents drawing random numbers are left out (the generator's state is not part of a snapshot)." + ASAN),
    P("C12", "The simulation run is the one the input file describes",
      "From any valid input file, XML or JSON, the simulation that is initialised has exactly the parameters, solver, commodity priorities, recipes, packages, transport units, prototypes and agent hierarchy the file gives, "
      "every state variable of every agent (also of agents built later from a prototype) has the value in the file or its declared default, the database says the same, "
      "and commodities with a lower solution priority number are supplied first. "
      "A file that breaks the schema, names an unknown archetype or prototype, or is malformed is refused with an error instead of running something else.",
      ["inputs", "configurations"], "every valid input document over all state variable types, nestings, aliases, defaults and element orders, in both formats and databases, and documents broken in one place",
      "Tests load a few fixed files and check a few values; parsing, conversion, generated code and database round trips compose over every type and text.",
      ["src/xml_file_loader.cc", "src/sim_init.cc", "src/infile_tree.h", "src/infile_tree.cc", "src/toolkit/infile_converters.cc", "src/context.cc", "src/agent.cc", "cli/cycpp.py", "src/discovery.cc", "src/dynamic_module.cc"],
      [("XMLFileLoader", "src/xml_file_loader.cc"), ("SimInit::Init", "src/sim_init.cc"), ("JsonToXml", "src/toolkit/infile_converters.cc"), ("InfileToDb, InitFrom, Clone generated", "cli/cycpp.py")],
      ["state of every agent on entering, context, solver, exchange outcome, recorded tables"],
      "runtime monitor: archetypes reporting their own state, compared to a generated input document, ASan/UBSan build",
      "Exploration over random documents; XML and JSON inputs (not Python or flat ones)." + ASAN),
    P("C13", "Packages and transport units fill within their limits and lose nothing",
      "Whatever quantity is packaged, every package holds between its minimum and its maximum, the packages together hold exactly the quantity taken, and what is left over is less than could still fill a package under its strategy (first, equal, or a random distribution). "
      "Grouping packages into transport units keeps each unit between its limits and ships as many packages as the strategy allows. "
      "Packaging a resource yields those packages, marked with the package, and leaves the rest in the original.",
      ["inputs", "configurations"], "every quantity, package and transport unit limits, including no minimum, no maximum and equal ones, every strategy, materials and products",
      "Tests try a few round numbers per strategy; limits, rounding and counts interact over all quantities.",
      ["src/package.cc", "src/package.h", "src/product.cc", "src/material.cc", "src/resource.h"],
      [("Package::GetFillMass", "src/package.cc"), ("TransportUnit::GetTransportUnitFill", "src/package.cc"), ("Resource::Package", "src/resource.h"), ("PackageExtract", "src/material.cc and src/product.cc")],
      ["fills returned, packaged resources and the remainder"],
      "runtime monitor: fills and packaged resources judged against the limits and the quantity, over random packages, ASan/UBSan build",
      "Exploration." + ASAN),
    P("C14", "Buy and sell policies trade only what they promise, when they may",
      "A buy policy asks in each active step for at most what its buffer, its inventory tracker, its throughput and its cumulative cap still allow, in its quanta, at its reorder rule, and asks for nothing in dormant steps, whose lengths are those of its distributions. "
      "A sell policy offers only what its buffer holds within its throughput, in its quanta and package, and sends exactly what was traded, of the composition asked for when it ignores composition. "
      "Everything bought lands in the buyer's buffer and everything sold leaves the seller's.",
      ["histories", "configurations", "schedules"], "every configuration of capacities, throughputs, quanta, packages, inventory policies and active/dormant distributions, over whole simulations",
      "Tests run one policy at a time with hand-made numbers; the limits must hold over all histories of purchases and steps.",
      ["src/toolkit/matl_buy_policy.cc", "src/toolkit/matl_sell_policy.cc", "src/toolkit/matl_buy_policy.h", "src/toolkit/matl_sell_policy.h", "src/toolkit/total_inv_tracker.h"],
      [("MatlBuyPolicy::GetMatlRequests/AcceptMatlTrades/SetNextActiveTime", "src/toolkit/matl_buy_policy.cc"), ("MatlSellPolicy::GetMatlBids/GetMatlTrades", "src/toolkit/matl_sell_policy.cc")],
      ["requests, bids and trades seen by the counterpart, buffer contents per step"],
      "runtime monitor: buyers and sellers in whole simulations, every request, bid and shipment judged by a model of the policy, ASan/UBSan build",
      "Exploration over random policy pairs in the real timer and exchange." + ASAN),
    P("C15", "Random draws follow the distribution asked for and repeat with the seed",
      "A draw from a uniform, normal (within its bounds), Poisson, exponential, binary, binomial or negative binomial (counting failures) distribution lies in that distribution's range, is an integer where that is asked, and over many draws has its mean and spread. "
      "A distribution reports the parameters it was given and refuses impossible ones, and the same seed gives the same sequence of draws while different seeds give different ones.",
      ["inputs"], "every distribution, parameter and seed",
      "Tests compare single draws of one seed with the library the code wraps.",
      ["src/random_number_generator.h", "src/random_number_generator.cc", "src/context.cc"],
      [("RandomNumberGenerator, DoubleDistribution and IntDistribution classes", "src/random_number_generator.h"), ("Context::random_*", "src/context.cc")],
      ["each draw, and the moments of samples"],
      "runtime monitor: every draw judged for range and repetition, samples judged against the exact moments, ASan/UBSan build",
      "Statistical: limits of eight standard errors, so that a sound generator passes for any seed." + ASAN),
    P("C16", "Composition arithmetic, material queries and enrichment agree with the masses",
      "Adding, subtracting, normalising and comparing compositions does so for each nuclide and changes nothing else, and thresholds and tolerances mean what they say. "
      "A material query gives the quantity, nuclide masses, mass fractions (of one nuclide or several, also of an empty material) and the amount of a composition that can be extracted from the material, exactly as the material holds them. "
      "Enrichment assays, feed, tails and separative work satisfy the mass balances of uranium and of its 235 isotope.",
      ["inputs"], "every composition, quantity, set of nuclides and assay",
      "Tests check a few round numbers.",
      ["src/comp_math.cc", "src/cyc_arithmetic.cc", "src/toolkit/mat_query.cc", "src/toolkit/enrichment.cc"],
      [("compmath::Add/Sub/Normalize/ApplyThreshold/AlmostEq", "src/comp_math.cc"), ("MatQuery", "src/toolkit/mat_query.cc"), ("UraniumAssayMass/FeedQty/TailsQty/SwuRequired", "src/toolkit/enrichment.cc")],
      ["results of the arithmetic and queries"],
      "runtime monitor: results judged against nuclide by nuclide sums and conservation laws, ASan/UBSan build",
      "Exploration; atom based quantities are out of reach without nuclear data in the sandbox." + ASAN),
    P("C17", "Demand functions, build decisions and positions are computed as specified",
      "Constant, linear, exponential and piecewise functions made by the factories have the value their parameters give at every time, piecewise ones that of the piece the time is in, continuous where asked. "
      "Supply is the summed capacity of the registered producers of a commodity, and a build decision orders only from registered builders producers of the commodity whose capacity meets the demand at the least cost, and nothing without demand or producers. "
      "A position keeps its coordinates to a tenth of a second, refuses ones off the globe without changing, and distances are those along the great circle.",
      ["inputs"], "every function, set of producers, builders and costs, demand and pair of places",
      "Tests check a few values and one market.",
      ["src/toolkit/symbolic_functions.cc", "src/toolkit/symbolic_function_factories.cc", "src/toolkit/building_manager.cc", "src/toolkit/supply_demand_manager.h", "src/toolkit/commodity_producer.cc", "src/toolkit/commodity_producer_manager.cc", "src/toolkit/position.cc"],
      [("BuildingManager::MakeBuildDecision", "src/toolkit/building_manager.cc"), ("PiecewiseFunctionFactory::AddFunction", "src/toolkit/symbolic_function_factories.cc"), ("Position::Distance", "src/toolkit/position.cc")],
      ["function values, build orders, supplies, coordinates and distances"],
      "runtime monitor: values judged by closed forms, orders by an exact knapsack of small markets, ASan/UBSan build",
      "Exploration." + ASAN),
    P("C22", "Nuclides and archetypes are named consistently in every notation",
      "A nuclide has one id whatever notation it is named in: the name, id, zzaaam, zzzaaa, cinder, sza, MCNP, zzllaaam, Serpent, NIST and ALARA forms of every nuclide are as these notations specify, agree in any case and whether given as a number or as text, and lead back to the nuclide as far as the notation tells it. "
      "Text that names no nuclide is refused with a message that can be read. An archetype spec names the same path, library, archetype and alias however it is given, with the documented defaults, is written and read back as it was, and leads to the library file of that name.",
      ["inputs"], "every nuclide, state, notation and case, and every archetype spec",
      "Tests check a handful of nuclides and three specs.",
      ["src/pyne.cc", "src/pyne.h", "src/dynamic_module.cc", "src/dynamic_module.h"],
      [("nucname::id", "src/pyne.cc"), ("nucname::zzllaaam_to_id", "src/pyne.cc"), ("nucname::mcnp", "src/pyne.cc"), ("AgentSpec::AgentSpec", "src/dynamic_module.cc"), ("AgentSpec::LibPath", "src/dynamic_module.cc")],
      ["nuclide ids, names and numbers in each notation", "parts, text and library paths of specs"],
      "runtime monitor: every notation of a random nuclide judged by its definition and read back, specs by their parts, ASan/UBSan build",
      "Exploration." + ASAN),
    P("C23", "Time series and commodity contexts keep what they are given",
      "Each value an agent records in a time series is one row of the table of that series with the agent, the current time, the value and its units, in the order given, and every listener registered for the series is called once with the same. "
      "A commodity context tells for each input commodity the recipes and output commodity last given, for each resource the commodity last given until it is removed, and a copy or one restored from the database tells the same as the original, and changes apart from it.",
      ["histories"], "every series, type, value, set of listeners and history of a context",
      "Tests record one value and check a few lookups.",
      ["src/toolkit/timeseries.h", "src/toolkit/timeseries.cc", "src/toolkit/commodity_recipe_context.cc", "src/toolkit/commodity_recipe_context.h"],
      [("RecordTimeSeries", "src/toolkit/timeseries.h"), ("CommodityRecipeContext::AddInCommod", "src/toolkit/commodity_recipe_context.cc"), ("CommodityRecipeContext::Snapshot", "src/toolkit/commodity_recipe_context.cc"), ("CommodityRecipeContext::InitFrom", "src/toolkit/commodity_recipe_context.cc")],
      ["rows received by a backend", "calls of listeners", "answers of contexts, their copies and restored ones"],
      "runtime monitor: rows and calls compared with the values given, contexts with a model, ASan/UBSan build",
      "Exploration." + ASAN),
    P("C20", "Agents written in Python have the state their input gives them",
      "An agent of an archetype written in Python enters with each state variable as its prototype's input (or default) gives it, keeps it until it changes it itself, whatever other agents of the prototype do, and is called at each phase of each step from its entry until it leaves. "
      "Agents it looks up (parent, children, itself) and acts on (builds, decommissions) are the ones of its simulation, whether written in Python or C++. "
      "At the end its state and the content of its inventories are recorded as they are.",
      ["inputs", "histories", "configurations"], "every set of state variables, input, history of changes, builds and departures, and sequence of simulations in a process",
      "Tests run a few fixed inputs and look for a line of output.",
      ["cyclus/agents.pyx", "cyclus/lib.pyx", "cyclus/simstate.py", "cyclus/gentypesystem.py", "src/pymodule.pyx", "src/pyhooks.cc"],
      [("_Agent.infile_to_db/init_from_agent/init_from_dict/snapshot/snapshot_inv", "cyclus/agents.pyx"), ("agent_to_py, dynamic_agent_ptr", "cyclus/lib.pyx"), ("StateVar, Inventory, ResBuf", "cyclus/gentypesystem.py")],
      ["state variables, inventories, parents and children seen in the callbacks", "the order and times of the callbacks", "AgentEntry, AgentState and AgentStateInventories rows"],
      "runtime monitor: a model of every agent compared in each of its callbacks and to the recorded tables",
      "Exploration. Containers within containers in state variables are not generated; restarting is not reachable from Python."),
    P("C21", "Python agents trade what they ask for and offer",
      "Requests an agent in Python makes are shown to every bidder with the commodity, quantity, preference and exclusivity given, and its bids to the requester, its institution and its region in turn, each with the preferences the one before left; nothing else is shown. "
      "Every trade it is told of follows one of its bids, is not one that ends with a negative preference, and the trades stay within the capacity and the offers given. "
      "What it ships arrives once, unchanged, at the requester, and is what Transactions records.",
      ["inputs", "histories", "configurations"], "every set of requests, bids, forms of the portfolios, preferences and solver, and sequence of simulations in a process",
      "Tests run one source and one sink.",
      ["cyclus/agents.pyx", "cyclus/lib.pyx", "cyclus/gentypesystem.py"],
      [("GetMatlRequests ... AcceptProductTrades of the facility shim", "cyclus/agents.pyx"), ("normalize_request_portfolio/normalize_bid_portfolio", "cyclus/lib.pyx"), ("portfolio, preference and trade conversions", "cyclus/gentypesystem.py")],
      ["requests, bids, preferences, trades and responses seen in the callbacks", "Transactions rows"],
      "runtime monitor: what each trader made and was shown in its callbacks checked against one another and the recorded transactions",
      "Exploration. How quantities are matched is the subject of C03 to C05; demands are not upper bounds under the COIN solver."),
    P("C19", "Data recorded and queried from Python are what was recorded",
      "A datum recorded from Python in a column of any supported type is read back from Python through the SQLite, the HDF5 and the in-memory backends as the value given, row by row, and a query with conditions returns exactly the rows that meet all of them. "
      "The in-memory backend holds exactly the tables of its registry (all when it stores all), and answers from its fallback only for the others.",
      ["inputs", "histories"], "every table shape, supported value, condition, registry and order of recording, flushing and reopening",
      "Tests record a few rows of a few types and query with one condition.",
      ["cyclus/lib.pyx", "cyclus/memback.pyx", "cyclus/gentypesystem.py"],
      [("conversion of values to and from Python", "cyclus/gentypesystem.py"), ("_FullBackend.query, _Datum.add_val", "cyclus/lib.pyx"), ("_MemBack", "cyclus/memback.pyx")],
      ["values given to Recorder.new_datum().add_val()", "the data frames returned by query()", "the tables and registry of the backends"],
      "runtime monitor: what is queried from Python compared row by row to what was recorded",
      "Exploration. Blobs with zero bytes are not given to HDF5, which holds them as strings."),
    P("C18", "Recorded inventories are what the agents hold",
      "When explicit inventory recording is on, at every time step and for every agent the recorded nuclide masses of each of its inventories are those of the materials in it at that point of the step, with no other inventory or nuclide recorded. "
      "The compact form records the same quantity and composition per inventory; nothing is recorded when it is off.",
      ["histories", "configurations"], "every inventory content, agent population, lifetime and combination of the recording options",
      "Tests record one agent with one inventory.",
      ["src/timer.cc", "src/context.cc"],
      [("Timer::RecordInventories/RecordInventory", "src/timer.cc")],
      ["ExplicitInventory and ExplicitInventoryCompact rows"],
      "runtime monitor: recorded tables compared to the agents' inventories at each step",
      "Exploration." + ASAN),
]
NOT_APPLICABLE = []


def main():
    try:
        from vf.docs_more import MORE
    except ImportError:
        MORE = []
    props = sorted(PROPS + [P(*m) for m in MORE], key=lambda p: p["id"])
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in props:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 vf/build.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 vf/check.py {p['id']} quick",
            "thorough_cmd": f"python3 vf/check.py {p['id']} thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in props if p["id"] not in {n["property"] for n in NOT_APPLICABLE}],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo: the monitors use the public interfaces, recording backends and scripted agents, in a sanitizer build of /repo's working tree kept in /verif/build.",
    }
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import sys
    sys.path.insert(0, HERE)
    main()
