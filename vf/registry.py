"""What decides each property: the drivers, how much of them each tier runs, and
the counters without which a run says nothing."""


def drv(name, quick, thorough, prop=None, targets=None, **kw):
    d = {"driver": name, "quick": quick, "thorough": thorough, "targets": targets or [name]}
    if prop:
        d["prop"] = prop
    d.update(kw)
    return d


PROPS = {
    "C01": {
        "jobs": [drv("d_res", 16000, 1200000)],
        "rule": "random operation sequences on materials and products (create, extract, extract a composition, absorb, "
                "transmute, clone, package), valid and refused ones, each compared to a reference model after every step; "
                "distinct = distinct operation traces",
        "need": {"op_extract": 100, "op_absorb": 100, "op_extractcomp": 50, "op_extract_rejected": 50, "op_absorb_rejected": 10},
    },
    "C02": {
        "jobs": [drv("d_res", 16000, 1200000)],
        "rule": "as C01 on tracked resources, with every recorded row compared to the event that caused it; "
                "distinct = distinct operation traces",
        "need": {"ledger_rows": 1000},
    },
    "C03": {
        "jobs": [drv("d_exch", 8000, 400000)],
        "rule": "random exchange graphs and resource exchanges (portfolios, shared constraints, exclusive orders) solved by the "
                "greedy and the optimising solver; every match is re-judged against the original constraints; distinct = distinct graphs",
        "need": {"trades_greedy": 1000, "trades_prog": 300, "exclusive_trades": 50, "supply_constraints_checked": 500},
    },
    "C04": {
        "jobs": [drv("d_exch", 16000, 800000)],
        "rule": "random exchange graphs; greedy matches judged for order and saturation, optimising matches against independent "
                "optima of small subproblems and the greedy match; distinct = distinct graphs",
        "need": {"greedy_solves": 500, "arcs_saturated": 200, "prog_solves": 200, "preference_pairs": 200},
    },
    "C05": {
        "jobs": [drv("d_exch", 8000, 400000)],
        "rule": "random sets of traders in full exchange managers, with their callbacks recorded; every recorded transaction and "
                "preference is compared to what the traders were asked and gave; distinct = distinct trader populations",
        "need": {"transactions_checked": 1000, "preferences_checked": 500, "bid_queries_checked": 200},
    },
    "C06": {
        "jobs": [drv("d_timer", 8000, 300000)],
        "rule": "random schedules of builds, decommissions, lifetimes and kills run by the real timer with agents that log every "
                "callback; the log is judged by a trace checker; distinct = distinct schedules",
        "need": {"phase_events": 10000, "agents_built": 500, "agents_decommissioned": 200, "lifetimes_ended": 100},
    },
    "C07": {
        "jobs": [drv("d_buf", 8000, 400000)],
        "rule": "random operation sequences on buffers (bulk or not, packaging kept or not), inventory trackers and resource maps, "
                "accepted and refused ones, compared to a model of the contents after each; distinct = distinct operation sequences",
        "need": {"states_checked": 10000, "splits": 200, "overflows_refused": 100, "duplicates_refused": 50, "tracker_states_checked": 1000},
    },
    "C08": {
        "jobs": [drv("d_back", 2500, 300000)],
        "rule": "random streams of datums through a recorder with several backends, buffer sizes, flushes, closes and re-registrations; "
                "what each backend was given is compared to what was recorded; distinct = distinct operation sequences",
        "need": {"data_recorded": 10000, "data_delivered": 10000, "flushes": 500},
    },
    "C09": {
        "jobs": [drv("d_back", 300, 20000)],
        "rule": "random tables of every supported type written through the recorder to SQLite and HDF5 files, closed, reopened, appended to and "
                "queried with random conditions; the answer is compared to the rows written; distinct = distinct schemas and contents",
        "need": {"rows_written": 1000, "values_compared": 3000, "queries": 300, "conditions_selecting_some": 50, "reopened": 20,
                 "hdf5_databases": 50, "sqlite_databases": 50},
    },
    "C10": {
        "jobs": [drv("d_sim", 140, 10000, targets=["d_sim", "san_agents"], batch=40)],
        "rule": "random simulations of agents that trade, draw random numbers, bid several times with tied preferences, build and retire, each run twice in "
                "processes whose objects lie elsewhere in memory, into databases of another format or buffer size; what each agent saw and did and every "
                "recorded row are compared; distinct = distinct input files",
        "need": {"runs_compared": 100, "observations_compared": 2000, "agents_elsewhere_in_memory": 50, "random_draws_compared": 500,
                 "shipments_compared": 300, "formats_compared": 10, "rows_compared": 5000, "tables_compared": 1000},
    },
    "C11": {
        "jobs": [drv("d_sim", 320, 12000, targets=["d_sim", "san_agents"], batch=60)],
        "rule": "random simulations of agents that trade, process, package, build and retire, with snapshots at random times, each restarted from the "
                "database at several of them; what the agents report and the trades they make are compared step by step to the run that was not "
                "interrupted; distinct = distinct input files",
        "need": {"restarts_compared": 200, "observations_compared": 2000, "later_restarts": 50, "restarts_hdf5": 30, "restarts_with_departures": 10,
                 "trades_compared": 300, "materials_rebuilt": 100, "products_rebuilt": 50},
    },
    "C12": {
        "jobs": [drv("d_sim", 300, 12000, targets=["d_sim", "san_agents"], batch=60)],
        "rule": "random XML and JSON input files (control parameters, solvers, recipes, packages, commodities, archetypes with state variables of "
                "every database type, nested aliases and defaults, agent hierarchies, scripted later builds), a quarter of them spoilt in one place; "
                "distinct = distinct input files",
        "need": {"agents_checked": 300, "values_checked": 2000, "agents_from_json": 50, "recipes_checked": 50, "packages_checked": 20, "units_checked": 20,
                 "built_later": 20, "priorities_judged": 20, "refused": 20, "loaded_to_hdf5": 10, "loaded_to_sqlite": 50},
    },
    "C13": {
        "jobs": [drv("d_pol", 20000, 1000000)],
        "rule": "random packages and transport units (every strategy, limits from none to equal) filled with random quantities, and random "
                "materials and products packaged with them; distinct = distinct packages and quantities",
        "need": {"fills_judged": 5000, "several_packages": 500, "equal_fills": 300, "max_fills": 300, "random_fills": 100,
                 "unit_fills_judged": 500, "resources_packaged": 300},
    },
    "C14": {
        "jobs": [drv("d_pol", 3000, 200000)],
        "rule": "random pairs of buy and sell policies (inventory policies, throughput, quanta, packages, caps, active and dormant "
                "distributions, resets) in whole simulations; distinct = distinct configurations",
        "need": {"bids_judged": 1000, "trades_judged": 1000, "requests_judged": 1000, "dormant_steps": 500, "caps_reached": 20,
                 "packages_shipped": 100, "periods_judged": 100},
    },
    "C15": {
        "jobs": [drv("d_num", 700, 100000)],
        "rule": "random parameters of every distribution of the generator and the context, with random seeds; ranges of single draws, repetition by "
                "seed, and mean and variance of samples (limits of eight standard errors); distinct = distinct parameters",
        "need": {"draws_judged": 100000, "draws_repeated": 1000, "means_judged": 500, "seeds_told_apart": 500},
    },
    "C16": {
        "jobs": [drv("d_num", 40000, 1000000)],
        "rule": "random compositions and materials; composition arithmetic, queries and enrichment amounts compared to the nuclide masses they "
                "come from; distinct = distinct pairs of compositions",
        "need": {"arithmetic_judged": 1000, "queries_judged": 1000, "amounts_extracted": 300, "enrichments_judged": 500, "comparisons_judged": 500},
    },
    "C17": {
        "jobs": [drv("d_num", 20000, 300000)],
        "rule": "random demand functions and pieces, random markets of producers and builders with build decisions compared to the cheapest one, and "
                "random places; distinct = distinct functions, markets and places",
        "need": {"function_values": 1000, "piecewise_values": 1000, "supplies_judged": 500, "decisions_judged": 500, "cheapest_known": 200,
                 "nothing_to_build": 50, "distances_judged": 1000},
    },
    "C18": {
        "jobs": [drv("d_timer", 8000, 300000)],
        "rule": "random simulations with explicit inventories on; the recorded inventory tables are compared to what each agent held; "
                "distinct = distinct schedules",
        "need": {"inventories_compared": 500, "compact_compared": 100},
    },
    "C19": {
        "jobs": [drv("p_data", 600, 30000, targets=["py_all"], flavour="py", batch=40)],
        "rule": "random tables recorded and queried from Python through a SQLite, an HDF5 and the in-memory backends, with random registries, "
                "conditions, fallbacks and reopened files; distinct = distinct tables",
        "need": {"rows_recorded": 1000, "values_compared": 5000, "queries_with_conditions": 200, "conditions_selecting_some": 50,
                 "unregistered_tables": 20, "fallbacks_compared": 20, "reopened_sqlite": 20, "reopened_hdf5": 20, "registries_changed": 20},
    },
    "C20": {
        "jobs": [drv("p_agent", 700, 30000, targets=["py_all"], flavour="py", batch=50)],
        "rule": "random simulations of archetypes written in Python (random state variables, defaults, aliases, inventories, lifetimes, later "
                "builds and departures, institutions in Python and C++); distinct = distinct input files",
        "need": {"values_compared": 10000, "values_given": 500, "defaults_used": 200, "values_changed": 500, "inventories_compared": 1000,
                 "resources_pushed": 300, "resources_popped": 30, "steps_seen": 3000, "builds_scheduled": 100, "departures_scheduled": 50,
                 "children_seen": 300, "children_dismissed": 10, "families_compared": 100, "recorded_values_compared": 300,
                 "inventory_rows_compared": 100, "simulations_hdf5": 50, "simulations_sqlite": 200},
    },
    "C21": {
        "jobs": [drv("p_agent", 800, 40000, targets=["py_all"], flavour="py", batch=50)],
        "rule": "random simulations of traders written in Python that request, bid, adjust preferences and trade materials and products, in every "
                "form the portfolios may be given, under the greedy and the COIN solver; distinct = distinct requests made",
        "need": {"requests_made": 5000, "bids_made": 5000, "markets_compared": 2000, "preferences_compared": 1000, "preferences_seen_above": 500, "trades_made": 1000,
                 "shipments_compared": 1000, "transactions_compared": 1000, "bidder_limits_judged": 500, "exclusive_trades": 50},
    },
    "C22": {
        "jobs": [drv("d_misc", 16000, 800000)],
        "rule": "random nuclides of all elements up to copernicium in every mass and state, written in every notation and case, and text that names none; "
                "random archetype specs given in parts, as text and in input files; distinct = distinct sets of four nuclides and a spec",
        "need": {"nuclides_judged": 40000, "names_read": 100000, "mcnp_returned": 20000, "nonsense_refused": 40000, "specs_judged": 20000},
    },
    "C23": {
        "jobs": [drv("d_misc", 8000, 400000)],
        "rule": "random histories of agents recording time series of every type with any number of listeners, and of commodity contexts changed, copied, "
                "recorded and restored; distinct = distinct histories",
        "need": {"values_recorded": 20000, "listener_calls": 10000, "contexts_compared": 10000, "contexts_restored": 1000},
    },
}
