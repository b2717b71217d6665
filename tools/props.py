"""Which simulations decide which property.

runs: (scenario, profile, weight, crash) - crash tells whether a crash or an
endless run of the code under test in that profile violates this property.
"""

N = "node"

PROPS = {
    "C01": dict(runs=[(N, "sync", 3, 0), (N, "crash", 3, 0), (N, "fork", 3, 0), (N, "evil", 2, 0)]),
    "C02": dict(runs=[(N, "sync", 5, 1), (N, "crash", 3, 1), (N, "ping", 1, 0)]),
    "C03": dict(runs=[(N, "sync", 4, 0), (N, "crash", 3, 0), (N, "stop", 1, 0), ("api", "pg", 1, 0)]),
    "C04": dict(runs=[(N, "sync", 4, 0), (N, "crash", 3, 1), (N, "serve", 1, 0), ("api", "pg", 1, 0)]),
    "C05": dict(runs=[("scan", "main", 3, 0), ("scan", "stop", 1, 0)]),
    "C06": dict(runs=[("scan", "main", 3, 1), ("scan", "stop", 1, 1)]),
    "C07": dict(runs=[("api", "main", 4, 0), ("api", "bad", 1, 0), ("api", "pg", 1, 0)]),
    "C08": dict(runs=[("api", "bad", 4, 1), ("api", "main", 1, 1)]),
    "C09": dict(runs=[("api", "main", 3, 0), ("api", "bad", 1, 0)]),
    "C10": dict(runs=[(N, "frag", 1, 0)]),
    "C11": dict(runs=[(N, "evil", 1, 1)]),
    "C12": dict(runs=[(N, "sync", 3, 0), (N, "ping", 1, 0), (N, "tx", 2, 0), (N, "serve", 1, 0), (N, "frag", 1, 0), (N, "evil", 1, 0)]),
    "C13": dict(runs=[(N, "ping", 4, 1), (N, "sync", 1, 0), (N, "tx", 1, 0)]),
    "C14": dict(runs=[("store", "pgfault", 4, 1), ("store", "pg", 1, 1)]),
    "C15": dict(runs=[("store", "mem", 2, 1), ("store", "pg", 3, 1)]),
    "C16": dict(runs=[(N, "stop", 2, 1), ("scan", "stop", 2, 1), ("api", "stop", 2, 1)]),
    "C17": dict(runs=[("pool", "main", 3, 1), (N, "relay", 2, 1)]),
    "C18": dict(runs=[("cli", "main", 1, 1)]),
    "C19": dict(runs=[(N, "tx", 4, 1), (N, "ping", 1, 0)]),
    "C20": dict(runs=[(N, "serve", 5, 1), (N, "sync", 1, 0)]),
}


def _nofrag(p):
    p["cfg"]["frag"] = 0
    p["cfg"]["pause"] = 0


def _noevil(p):
    p["ops"] = [o for o in p["ops"] if o["k"] != "evil"]


# A failure of another kind counts for these properties when it occurs with
# what must not matter, and never without it.
DIFF = {
    "C10": dict(profiles=["frag"], props=None, neutral=_nofrag, keep=("frag", "pause"), what="the same plans unsegmented"),
    "C11": dict(profiles=["evil"], props={"C01", "C02", "C04", "C13"}, neutral=_noevil, keep=(), what="the same plans without the bad messages"),
}

REAL = ["pkg/node", "pkg/peer", "pkg/protocol", "pkg/binary", "pkg/repository", "pkg/scanner", "pkg/blockservice", "net/http", "internal/infrastructure/storage/db/inmemory", "internal/infrastructure/storage/db/pg with sqlx, lib/pq, database/sql and golang-migrate",
        "internal/core/application, internal/interface/web-socket with its handlers, gorilla/websocket and mux, cmd/neutrinod's main with internal/config (api scenario)",
        "cmd/neutrino's main, each invocation a process of its own (cli scenario)",
        "go-elements and btcd decoding, logrus", "Go runtime, scheduler patched to take every choice from the seed"]
STUB = ["network: simulated TCP below net.Dial and net.Listen", "remote peers: scripted BIP157 peers on a synthetic chain",
        "esplora explorer, webhook receivers and websocket clients: scripted, on the simulated network", "storage of the node and scanner scenarios: the in-memory repositories behind a layer that fails, delays and survives crashes",
        "PostgreSQL: a server with its wire protocol and a small SQL engine with its transaction semantics, on the simulated network", "clock and timers: the runtime's fake time",
        "disk (cli scenario): files in a scratch directory below a layer in package os that fails, tears and loses writes and kills the process",
        "random numbers: seeded"]

NOT_APPLICABLE = {
    "C21": "Pure functions of their input: no concurrency, time, I/O, crash or second party for a schedule or fault to act on. What matters to the system (messages on the wire) is decided end to end by C10-C12, C19 and C20.",
    "C22": "A pure function of the descriptor string (and a third-party library's key derivation): nothing nondeterministic for a simulator to control.",
}
