"""Which scenarios decide which property, and what they do."""

# property: list of (scenario, weight)
SCENARIOS = {
    "T01": [("table", 3), ("table_progress", 1), ("worker", 2)],
    "T02": [("table", 1), ("table_progress", 3), ("worker_progress", 2)],
    "T03": [("table", 2), ("table_progress", 1), ("worker", 2)],
    "T04": [("table", 3), ("table_progress", 1), ("worker", 2)],
    "T05": [("table", 3), ("table_progress", 1), ("worker", 2)],
    "T06": [("table", 6), ("table_progress", 2), ("worker", 4),
            ("table_frequency", 1)],
    "T07": [("table", 3), ("table_progress", 1), ("worker", 2)],
    "T08": [("worker", 3), ("worker_progress", 2), ("table", 1)],
    "T09": [("worker", 2), ("worker_progress", 2)],
    "C01": [("chunk_store", 4), ("table", 1), ("worker", 1)],
    "W01": [("writer", 1)],
    "W02": [("trajectory", 4), ("restart", 1)],
    "W03": [("trajectory", 4), ("writer", 2), ("restart", 1)],
    "W04": [("trajectory", 1), ("writer", 1)],
    "S01": [("sampler", 1)],
    "S02": [("sampler", 1)],
    "S03": [("sampler", 1)],
    "S04": [("sampler", 4), ("restart", 1)],
    "V01": [("raw", 2), ("trajectory", 1), ("writer", 1), ("sampler", 1)],
    "V02": [("raw", 2), ("trajectory", 1), ("writer", 1), ("sampler", 1)],
    "V03": [("client", 1)],
    "K01": [("ckpt", 4), ("ckpt_crash", 2), ("restart", 1)],
    "K02": [("ckpt", 2), ("ckpt_crash", 4), ("restart", 1)],
    "K03": [("ckpt", 3), ("ckpt_crash", 3), ("restart", 1)],
    "K04": [("ckpt", 3), ("ckpt_crash", 3), ("restart", 1)],
    "K05": [("ckpt", 4), ("ckpt_crash", 2), ("restart", 1)],
    "Q01": [("queue", 2), ("executor", 2), ("periodic", 1)],
}

# What each scenario runs for real, and what it replaces.
REAL = {
    "table": "Table, RateLimiter, all selectors, extension machinery, "
             "episode/statistics bookkeeping (real)",
    "table_progress": "as table, with configurations under which callers "
                      "block on each other",
    "worker": "Table with EnableTableWorker: table worker, extension worker, "
              "TaskExecutor callbacks, sync and async extensions (real)",
    "worker_progress": "as worker, with configurations under which requests "
                       "block each other",
    "chunk_store": "ChunkStore with its cleaner thread and queue (real)",
    "trajectory": "TrajectoryWriter with its chunkers and stream worker, "
                  "Client, ServerImpl with ReverbServiceImpl, or ReverbServiceAsyncImpl, "
                  "ChunkStore, Table (real); gRPC channel and server call "
                  "dispatch (simulated transport)",
    "writer": "Writer with its confirmation reader, Client, "
              "ServerImpl with ReverbServiceImpl, or ReverbServiceAsyncImpl, ChunkStore, Table "
              "(real); gRPC channel and server call dispatch (simulated "
              "transport)",
    "sampler": "Sampler with its workers, Client, ReverbServiceImpl or "
               "ReverbServiceAsyncImpl, ChunkStore, Table with and without "
               "table worker (real); gRPC channel and server call dispatch "
               "(simulated transport); items are put into the tables directly",
    "ckpt": "TFRecordCheckpointer, Table, ReverbServiceImpl with its loading "
            "and its Checkpoint call (in part of the runs), TensorFlow's "
            "TFRecord reader and writer (real); the file system (simulated "
            "disk with faults)",
    "ckpt_crash": "as ckpt, with crashes of the process or the machine at "
                  "any point and only durable files surviving",
    "restart": "the whole system: TrajectoryWriter, Sampler, Client, "
               "ServerImpl with ReverbServiceImpl, or ReverbServiceAsyncImpl with its tables "
               "and TFRecordCheckpointer (real) on a simulated network and "
               "disk; the server crashes and starts from its checkpoints",
    "raw": "ServerImpl with ReverbServiceImpl, or ReverbServiceAsyncImpl with their reactors, "
           "tables and chunk store (real); the clients are the scenario's own "
           "and speak the protocol directly, also wrongly; gRPC is simulated",
    "client": "Client, ServerImpl with ReverbServiceImpl, or ReverbServiceAsyncImpl with their "
              "tables, Sampler's creation (real); gRPC (simulated transport); "
              "the server becomes unreachable and starts again with other "
              "tables",
    "queue": "Queue and UnboundedQueue (real)",
    "executor": "TaskExecutor and TaskWorker with their threads (real)",
    "periodic": "PeriodicClosure with its thread (real)",
    "table_frequency": "Table and its random selectors over thousands of "
                       "samples (real)",
}
STUB = ("absl synchronisation, threads, clocks and random generators are the "
        "simulator's; TensorFlow tensors, protobuf and snappy are real")

QUICK_S = 40
THOROUGH_S = 600
QUICK_OVERRIDE = {}

LEVEL = {}          # default "exploration"
NOTE = {}
DEFAULT_NOTE = (
    "Seeded search over schedules, preemptions at memory accesses, timer "
    "races, faults and workloads of the real code on one simulated thread; "
    "each run is judged during and after by an executable model. Finds "
    "violations within the generated configurations (few keys, clients and "
    "operations per run); no claim beyond the runs made. Trusts the "
    "simulator's replacements of absl synchronisation and sequentially "
    "consistent memory.")

NOT_APPLICABLE = {
    "N01": "Pure functions of their input: no schedule, time, I/O or second "
           "party on which the outcome depends, so simulation adds nothing.",
    "N02": "Python glue over the C++ core; it cannot be loaded in this "
           "sandbox (no TensorFlow for this Python), and its conversions "
           "depend on the input alone.",
}
