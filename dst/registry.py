"""Which scenarios decide which property, and how many seeds each gets."""
# property -> [(scenario, quick runs, thorough runs)]
CHECKS = {
    "C01": [("workqueue", 18000, 150000)],
    "C02": [("workqueue", 18000, 150000)],
    "C03": [("workqueue", 18000, 150000)],
    "C04": [("delay", 18000, 150000)],
    "C05": [("ratelimit", 18000, 150000)],
    "C06": [("fifos", 18000, 150000)],
    "C07": [("fifos", 12000, 100000), ("informer", 4500, 40000)],
    "C08": [("fifos", 18000, 150000)],
    "C09": [("index", 15000, 120000), ("informer", 3000, 30000)],
    "C10": [("informer", 6000, 60000)],
    "C11": [("informer", 6000, 60000)],
    "C12": [("informer", 6000, 60000)],
    "C13": [("informer", 6000, 60000)],
    "C14": [("informer", 6000, 60000)],
    "C15": [("informer", 4500, 40000), ("stack", 2400, 20000)],
    "C16": [("informer", 4500, 40000), ("stack", 6000, 60000)],
    "C17": [("stack", 7500, 60000)],
    "C18": [("stack", 7500, 60000)],
    "C19": [("stack", 6000, 50000)],
    "C20": [("stack", 7500, 60000)],
    "C21": [("leader", 7500, 60000)],
    "C22": [("leader", 6000, 50000)],
    "C23": [("leader", 6000, 50000)],
    "C24": [("mux", 24000, 200000)],
    "C25": [("waits", 40000, 400000)],
    "C26": [("clocks", 40000, 400000)],
    "C28": [("fakes", 30000, 300000)],
}

SIM = "deterministic simulation with fault injection: seeded search over schedules, cancellations and faults; "
TECHNIQUE = {
    "C01": SIM + "holding intervals",
    "C02": SIM + "linearizability to a sequential set-queue",
    "C03": SIM + "linearizability across shutdown, bounded release",
    "C04": SIM + "exact timing reference and due-time bounds under clock steps",
    "C05": SIM + "reference limiter and rate windows",
    "C06": SIM + "linearizability to a sequential delta queue",
    "C07": SIM + "every has_synced answer against the history of processing, bounded progress",
    "C08": SIM + "linearizability to a sequential FIFO",
    "C09": SIM + "reference index compared after every operation and event",
    "C10": SIM + "cache against the simulated API server's history and final state",
    "C11": SIM + "handler histories replayed against the API server's history",
    "C12": SIM + "progress of the other handlers and of the cache while some are stuck or raise",
    "C13": SIM + "handler histories from the moment of registration, bounded registration",
    "C14": SIM + "request log of the simulated API server",
    "C15": SIM + "timing of resync notifications per handler",
    "C16": SIM + "activity, requests, streams and tasks after a stop at a seeded instant",
    "C17": SIM + "coverage of the server's history by reconciles and what the cache showed them",
    "C18": SIM + "reconcile intervals",
    "C19": SIM + "timing reference of retries and requeues",
    "C20": SIM + "state of the cache at every reconcile and read",
    "C21": SIM + "leadership intervals of candidates with clocks of their own",
    "C22": SIM + "bounded progress once requests succeed",
    "C23": SIM + "callback protocol and lock record checked at every write",
    "C24": SIM + "received sequences against the order an always-reading watcher saw",
    "C25": SIM + "timing reference of calls, ends and leftovers",
    "C26": SIM + "timing bounds of real timers, reference model of the fake clock",
    "C28": SIM + "sent against read sequences, bounded ends",
}
BASE = "Holds on every simulated run explored (count in the evidence), not proved. "
API = BASE + "The API server, its HTTP client session and the clock are simulated; "
NOTES = {
    "C01": BASE + "Trusts the simulated loop (FIFO ready order, seeded pauses) and that workers call done once.",
    "C02": BASE + "Trusts the sequential model in dst/scen/workqueue.py.",
    "C03": BASE + "Workers are assumed to finish what they hold.",
    "C04": BASE + "Wall and loop clock are simulated; stall time is added to allowed lateness.",
    "C05": BASE + "After a wall clock step only finiteness, sign and the owed bound are checked.",
    "C06": BASE + "Trusts the sequential model in dst/scen/fifos.py.",
    "C07": BASE + "Not judged for an informer that was told to stop.",
    "C08": BASE + "Trusts the sequential model in dst/scen/fifos.py.",
    "C09": BASE + "Index functions are pure.",
    "C10": API + "lists are paged as the reflector asks, stale lists are served only while faults last.",
    "C11": API + "handlers that never return are judged up to where they got.",
    "C12": API + "handlers may wait, raise or never return, but do not block the loop itself.",
    "C13": API + "registrations happen at seeded instants of the run.",
    "C14": API + "bookmarks count as given.",
    "C15": API + "a stalled loop may cost one period.",
    "C16": API + "user callbacks are assumed to finish when cancelled; 30 loop iterations of grace for tasks.",
    "C17": API + "reconcilers are simulated users of the real builder, manager, source, handler and queue.",
    "C18": API + "reconcilers are simulated users of the real controller.",
    "C19": API + "merged delays count as the earliest of them.",
    "C20": API + "reads are made by reconcilers and by outsiders at seeded instants.",
    "C21": API + "clock rates are equal and successful lock requests answer in the time the statement assumes.",
    "C22": API + "the bound is retries, plus the lease when a holder is recorded.",
    "C23": API + "callbacks are simulated users of the real elector and config map lock.",
    "C24": BASE + "One reader at a time per watcher.",
    "C25": BASE + "Callbacks may hang, fail or clean up slowly when cancelled.",
    "C28": BASE + "One reader at a time; senders still waiting at a reset are cancelled first.",
    "C26": BASE + "Stall time is added to allowed lateness.",
}
NOT_APPLICABLE = {
    "C27": "Key computation is a pure function of one object: no schedule, clock, I/O, fault or second party for a simulation to vary.",
}
