"""What each check generates, compares against and assumes (evidence and manifest texts)."""
PURE = "the harness calls the library in-process, built from /repo with overflow checks on"
VT = ("in-memory parts run on a single-threaded runtime with a paused clock that moves on only when nothing else can "
      "run; thread-level interleavings inside one actor are not explored (actors share no state)")
FULL = VT + "; proof-of-work itself runs on the library's own worker threads in real time"
SRV = ("the server is a model of Redis with the mCaptcha module (RESP2 over a Unix socket) written from the library's "
       "use of it; a real Redis with the module is not run")
THR = "the scheduler runs on its real threads; the harness decides when each job ends, the kernel decides the rest"

META = {
    "P01": dict(gen="histories of issuing challenges on several sites and submitting honest, forged, weak, wrong-site, "
                    "repeated and invented work, one by one and as concurrent batches, with part of the challenges' life passing",
                oracle="model in which a challenge lives until its first submission; of concurrent submissions of one "
                       "solved challenge exactly one earns a token", assumes=[FULL]),
    "P02": dict(gen="salts, difficulty factors, challenge strings, honest proofs found by search, and mutations of result, "
                    "nonce, string, salt and site, proofs accepted before, strings close to the challenge's, with difficulties at the edge of the score",
                oracle="score computed independently from SHA-256 of bincode(salt, string, nonce) in 128-bit arithmetic",
                assumes=[FULL, "beyond difficulties that take a few thousand hashes, proofs are those found beforehand for three "
                               "pairs of salt and string (every power of two up to 2^31)"]),
    "P03": dict(gen="histories of earning tokens on several sites and presenting live, used, foreign-site, misspelt and "
                    "invented tokens, some at the same time, with part of the tokens' life passing",
                oracle="model set of live tokens with their sites", assumes=[FULL]),
    "P04": dict(gen="overlapping challenges and tokens with durations from one second to hours, looked at just before, at "
                    "and after their deadlines on the virtual clock, with deletions in between; up to 60,000 at once",
                oracle="alive strictly before issue time + duration, gone after it; 2 ms around the deadline are left open",
                assumes=[FULL, "strings that are cached twice (which the generator of strings does not produce) are out of scope"]),
    "P05": dict(gen="random, valid-by-construction and one-edit-from-valid level lists in any order, builder reuse, level "
                    "builder call sequences",
                oracle="declarative well-formedness predicate and sorted list", assumes=[PURE]),
    "P06": dict(gen="a ladder and a sequence of moves, copies and serialisations", oracle="index model", assumes=[PURE]),
    "P07": dict(gen="a ladder, an optional restored count up to the 32-bit limit, visits, removals, serialisations",
                oracle="reference model stepping towards the lowest level not exceeded", assumes=[PURE]),
    "P08": dict(gen="visits of one or several sites spread over virtual time, with bursts, durations from a second to "
                    "hours and queries around the expiries",
                oracle="number of visits made within the last duration; 2 ms around an expiry are left open", assumes=[VT]),
    "P09": dict(gen="register, visit, rename (also onto itself, onto existing and from unknown names), remove and query "
                    "over few names, with time passing and jumps to the ends of visits",
                oracle="map from names to windows of visits", assumes=[VT]),
    "P10": dict(gen="collection periods, site durations, visits, accesses, requested collections, visits that meet "
                    "one, and passing time over several to hundreds of sites",
                oracle="model of the collections: idle and accessed sites go, others stay with their count", assumes=[VT]),
    "P11": dict(gen="bursts of manager messages and direct stops sent without waiting, with a generated number of "
                    "scheduler turns between them, while collections are under way",
                oracle="every request is answered, collections go on, a site registered or visited during a collection "
                       "is there afterwards, no name leads to a stopped site", assumes=[VT]),
    "P12": dict(gen="histories, snapshots through serialisation, restores into managers in which none, some or all of "
                    "the sites are registered, running or stopped, visits and time afterwards",
                oracle="model of counts, levels and expiries", assumes=[VT]),
    "P13": dict(gen="submissions over many addresses and completions in any order, for 1-89 workers; crowds of up to 2^19 addresses",
                oracle="after every step: no accepted job waits while a worker is idle; every accepted job starts once; "
                       "in the end all workers can be busy at once", assumes=[THR]),
    "P14": dict(gen="as P13, flooding and occasional addresses",
                oracle="order per address, and at most one start of any other address while a job is the oldest of its own",
                assumes=[THR]),
    "P15": dict(gen="as P13, with queue limits 0-12, and crowds near limits of up to 2^19",
                oracle="refused iff the number of addresses with waiting jobs equals the limit; a refused job never runs",
                assumes=[THR]),
    "P16": dict(gen="as P13, then the scheduler is dropped while jobs run, wait or end at the same time",
                oracle="drop returns once the running jobs end, all threads are gone, no waiting job ran, all were dropped",
                assumes=[THR]),
    "P17": dict(gen="thousands of challenges and tokens from several services with equal and different salts, sites and "
                    "difficulties, in several threads and processes",
                oracle="length, alphabet, no repetition, every position takes every character with plausible frequency, no "
                       "position predicts a position of the same, the previous or the paired string, no linear relation among characters, the same work twice "
                       "gives unrelated tokens",
                assumes=["statistical bounds are set so that a uniform generator exceeds them less than once in 1e9 runs",
                         "unpredictability is judged by these statistics; a good but predictable generator is not told apart"]),
    "P18": dict(gen="histories of storing, asking for and expiring challenges and tokens over names with separators, "
                    "spaces, control and non-ASCII characters and common prefixes, with jumps to their deadlines",
                oracle="model of the cache by (site, string) pairs", assumes=[SRV]),
    "P19": dict(gen="sequences and concurrent groups of manager and connection calls over several sites and configurations",
                oracle="second copy of the module model, compared call by call and by final contents", assumes=[SRV]),
    "P20": dict(gen="operation sequences with error replies, replies of other types and ranges, nested and huge values, "
                    "broken frames and disconnects at generated places, pings answered with something else",
                oracle="a request that met a fault reports an error, later ones behave as the model says", assumes=[SRV]),
    "P21": dict(gen="lists of loaded modules in any order, sets of known commands, failing and unreachable servers",
                oracle="accepted iff the module is listed and no command is missing; the documented error otherwise",
                assumes=[SRV]),
    "P22": dict(gen="requests of every kind (in-memory and Redis) dropped or no longer polled after a generated number of "
                    "polls, mixed with complete ones of valid and invalid work",
                oracle="all other requests are answered as the model says; a call that never returns while every thread "
                       "sleeps is a violation", assumes=[FULL, SRV]),
    "P23": dict(gen="histories over virtual time mixing visits, challenges, registrations, renames, removals, submissions "
                    "and token checks over several sites and ladders, with jumps to the deadlines and several challenges "
                    "asked for at once, difficulties beyond any proof",
                oracle="composed model of sites, challenges and tokens", assumes=[FULL]),
    "P24": dict(gen="builder call sequences (builders used again), ladders, visits, arbitrary strings and numbers for every message",
                oracle="acceptance predicate, fixed JSON shapes, round-trip equality and equal behaviour of the copy",
                assumes=[PURE, "the field names of CreateMCaptcha, AddChallenge, AddVisitorResult and Level are the wire contract"]),
    "P25": dict(gen="several submitting threads with lists of honest, weak, forged and shared work over several sites and "
                    "addresses, 1-4 workers",
                oracle="verdict of each piece of work on its own; exactly one winner for a shared challenge; tokens "
                       "distinct and valid for their site", assumes=[
                           "interleavings are those the kernel produces in repeated runs, not enumerated"]),
    "P26": dict(gen="batches of up to 16 requests of every kind over lasting and passing sites, challenges, tokens, addresses and "
                    "unknown names, with abandoned requests, snapshots, restores and requested collections; each batch is "
                    "repeated 84 times and, while memory grows, up to 5284 times",
                oracle="bytes in use (counting allocator) after everything expired: growth of 8 bytes per batch or more over "
                       "each of three ever longer runs",
                assumes=[FULL, "growth by less than 8 bytes per batch is not seen"]),
    "P27": dict(gen="requests, full challenge-to-token rounds, slot reassignments and hand-overs, cut connections, nodes going "
                    "away and coming back, refusals and new connections, for 1-4 nodes, 1-8 slot ranges and seed lists with "
                    "URLs that lead nowhere",
                oracle="model of the module compared call by call, number of times each request was served, final contents; in "
                       "histories with failing connections a request the client repeated ends the comparison",
                assumes=["the cluster is a model (slots, MOVED, ASK, CLUSTER SLOTS) of several nodes sharing one keyspace, over "
                         "loopback TCP", "the client library's own retries and time-outs are taken as they are"]),
    "P28": dict(gen="submissions begun from one thread and not waited for, by services with no (and a queue that fills up), one or several workers, mixed with "
                    "challenges, visits, registrations, presentations, refusals, collections, snapshots and abandoned submissions",
                oracle="every request that needs no worker is answered while submissions wait; with workers every submission gets "
                       "the verdict of its work without being looked at again; a poll that never returns, or an answer that is "
                       "missing while every thread sleeps, is a violation",
                assumes=["real time and real wake-ups on one thread; a service without workers stands for one whose workers are all "
                         "busy"]),
}
