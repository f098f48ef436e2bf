"""What each check explores, for the evidence files."""
CLUSTER_REAL = ["src/api client library", "src/server (metadata, data, region cache, transfer, checkpoint, DART, histogram, query code)", "src/commons", "src/utils region utilities", "dablooms and the server hash table"]
CLUSTER_STUB = ["Mercury and NA (simulated RPC and bulk transport with the same call interface)", "MPI (simulated collectives)", "POSIX threads, mutexes, condition variables (simulated, cooperative, preempted at basic blocks)", "file system, clocks, sleep, getenv, mkdir/mv shell commands (simulated)", "the application (an interpreter of generated operations on the public API)"]
CLUSTER_ASSUME = ["The Mercury stub delivers each RPC at most once and reports completion through HG_Trigger as the real library does", "preemption inside one process happens at basic-block boundaries and system calls; hardware memory reordering is not modelled"]
COMP_REAL = ["the component's own source files, compiled unmodified"]
COMP_STUB = ["threads, locks, allocator and clock (simulated)", "the component's caller (a generated workload)"]
COMP_ASSUME = ["preemption happens at basic-block boundaries; hardware memory reordering is not modelled"]


def cluster(rule, **k):
    d = dict(rule=rule, real=CLUSTER_REAL, stub=CLUSTER_STUB, assume=CLUSTER_ASSUME)
    d.update(k)
    return d


def comp(rule, **k):
    d = dict(rule=rule, real=COMP_REAL, stub=COMP_STUB, assume=COMP_ASSUME)
    d.update(k)
    return d


PROPS = {
    "P01": cluster("A case is nontrivial when at least one read of previously written cells was compared with the model; every generated plan ends with such reads."),
    "P02": cluster("A case is nontrivial when two or more clients used the same object, with reads compared with the values the concurrent and completed writes allow."),
    "P03": cluster("A case is nontrivial when requests were outstanding together and their completion, status and data were judged."),
    "P04": cluster("A case is nontrivial when the servers were restarted at least once after an orderly close or an acknowledged checkpoint and data was read back afterwards."),
    "P05": cluster("A case is nontrivial when metadata (objects, containers, tags) was compared with the model after a restart."),
    "P06": cluster("A case is nontrivial when the servers were restarted after a crash, a full disk or an I/O error met while a checkpoint was being written, and the recovered metadata or data was read back."),
    "P07": cluster("A case is nontrivial when identifiers given to objects and containers were compared with all identifiers given before, across clients, servers and restarts."),
    "P08": cluster("A case is nontrivial when an open, create, delete or listing was answered and judged against the model's set of existing names."),
    "P09": cluster("A case is nontrivial when tag reads, overwrites and deletions were judged against the model."),
    "P10": cluster("A case is nontrivial when a container's membership was read back and compared with the model."),
    "P11": cluster("A case is nontrivial when at least one tag or metadata query was compared with the objects that existed and their tags."),
    "P12": cluster("A case is nontrivial when at least one search was compared with the set of entries inserted before."),
    "P13": comp("A case is nontrivial when at least one query was routed for a token that matches a keyword placed before.", stub=COMP_STUB + ["server loads (reported by the simulator at each placement, changing between calls)"]),
    "P14": cluster("A case is nontrivial when the hits, coordinates or data of a query were compared with a scan of what the writes before it stored."),
    "P15": cluster("A case is nontrivial when a lock request was judged against the other holders and requests of the same region."),
    "P16": cluster("A case is nontrivial when a buffer mapped to a region, or a transfer of the region, was compared element by element with what was stored last."),
    "P26": cluster("A case is nontrivial when at least one item was fetched after its storing call returned and compared byte by byte."),
    "P23": cluster("A case is nontrivial when the servers were told to close while clients, flushes or other requests were under way, and what was stored was compared after a restart."),
    "P24": cluster("A case is nontrivial when data written around at least one short, interrupted or failing storage operation was read back and compared with the values the completed writes allow."),
    "P31": cluster("A case is nontrivial when data that a flush or an idle period had to store was read back after the servers were killed."),
    "P32": cluster("A case is nontrivial when the answers all clients got from a collective call were compared with each other and with the objects that existed."),
    "P25": cluster("A case is nontrivial when at least one call with a handle, open or not, was judged by the reference table of handles."),
    "P18": comp("A case is nontrivial when a table or set was compared with the reference map after operations on it."),
    "P19": comp("A case is nontrivial when keys added before were looked up after removals of others or growth."),
    "P21": comp("A case is nontrivial when elements were pushed and what came back was compared with the reference sequence."),
    "P27": comp("A case is nontrivial when a histogram was generated and every bin compared with a recount of the elements."),
    "P20": comp("A case is nontrivial when a tree was compared with the reference map after operations on it."),
    "P22": comp("A case is nontrivial when the overlap of two regions, or the result of a copy into or out of a shared buffer, was judged.", note="The functions themselves are sequential; what the schedule adds is other threads copying into neighbouring blocks at the same time."),
    "P28": comp("A case is nontrivial when a helper's report was compared with the file's content.", stub=COMP_STUB + ["file system (simulated, with short, interrupted and failing operations)"]),
    "P29": comp("A case is nontrivial when the time a stopwatch reports was compared with the simulated time during which it ran.", stub=["threads and clocks (simulated; the system time is set forwards and back)", "the component's caller (a generated workload)"]),
    "P17": comp("A case is nontrivial when jobs ran on at least one pool and their starts, a wait or a destruction were judged.", assume=["preemption happens at basic-block boundaries and at every memory access of the pool's source; hardware memory reordering is not modelled", "pause and resume (POSIX signals) are not exercised"]),
}

# properties not claimed, with the reason
NA = {
    "P30": "Pure sequential functions of their arguments: no schedule, clock, I/O, fault or second party can change their answer, so simulation has nothing to decide. (Their use by tag and index queries is covered by P11 and P12.)",
}
