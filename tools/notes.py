HOOKS = ["5239cfa1929980f788cb29a09ef029e9dcb33d2c"]
SIM = "Sampled, not exhaustive: seeds x schedules x fault positions within the time limit; sequentially consistent memory; trusts the simulated std (simstd) and the oracle in sim/src/scen."
NOTE = {
 "C01": "The real cache code under a simulated scheduler; every answer compared with direct evaluation in a fresh process. " + SIM,
 "C02": "The real cache code under a simulated scheduler; every answer compared with direct simplification in a fresh process. " + SIM,
 "C03": "Counters compared exactly with a model in one-client histories and with interval bounds under concurrency. " + SIM,
 "C04": "Hits and misses compared with a model over histories, map constructions and hash seeds. " + SIM,
 "C05": "Deadlock and step bounds decided by the scheduler, thread deaths at arbitrary scheduling points and allocations. " + SIM,
 "C06": "The real compilers with mmap/mprotect and allocations refused at every position the seed picks; then the same compilation with memory granted. " + SIM,
 "C07": "Code pages counted at the mmap/munmap seam over compile, fail, drop and thread-death histories; surviving functions called and compared. " + SIM,
 "C08": "Every call compared bit for bit with the same call in a fresh process, over histories, calling forms, threads and garbage left in registers and stack. " + SIM,
 "C09": "The same program transcript in processes with other hash seeds, address layouts, clocks, allocator fill and thread placement; all transcripts equal. " + SIM,
 "C10": "Model of the three parts over compile and failure histories with refused memory; evaluations compared with fresh processes. " + SIM,
 "C11": "A used optimiser's answers compared with a brand-new optimiser's, over histories with degenerate and failing expressions; the egg libraries run as they are. " + SIM,
 "C12": "Write calls on descriptors 1 and 2 intercepted and failed (EPIPE, ENOSPC, EINTR, short, EBADF, EIO); no byte may be offered and no result may change. " + SIM,
 "C13": "A model map and an evaluation counter over query histories with adversarial keys (hash collisions, NaN, signed zeros). " + SIM,
 "C14": "Panics and re-entrant queries injected into the wrapped log-density at seeded calls; model map afterwards. " + SIM,
 "C15": "Every answer compared with the same evaluation made first in a fresh process, over histories, threads and panicking user code. " + SIM,
 "C16": "Registry compared with a model map over registration histories with panicking patterns and threads. " + SIM,
 "C17": "Programs over the whole library and plans of other checks (with their faults) repeated up to 1500 times in one process, the heap counted at the allocator after each round. " + SIM,
 "C18": "The same program in processes with hostile environments, limits and directories, every outward system call trapped, recorded and refused; transcripts equal and nothing recorded. " + SIM,
 "C19": "Reports compared with the same compilation alone in a fresh process, times with the simulated clock around the call and the delays injected into code memory. " + SIM,
 "C35": "Every protection request judged at the seam and the memory map read after every operation, over histories with refused memory and several threads. " + SIM,
}
PURE = "A function of its inputs alone: no schedule, clock, I/O, fault or history it could depend on, so simulation has nothing to vary; "
NA = {p: "its check is being built" for p in ["C%02d" % i for i in range(1, 19)]}
NA.update({
 "C20": PURE + "deciding it needs numerical comparison with reference formulas.",
 "C21": PURE + "an algebraic identity between two formulas.",
 "C22": PURE + "an algebraic identity over measures.",
 "C23": PURE + "an identity over sample lists.",
 "C24": PURE + "algebraic identities of combinators.",
 "C25": PURE + "a rewriting property over expressions.",
 "C26": PURE + "numerical approximation quality over arguments.",
 "C27": PURE + "soundness of rewrite rules (what a history can add to it is decided under C11).",
 "C28": PURE + "agreement of interpreters over programs.",
 "C29": PURE + "agreement of evaluators over inputs.",
 "C30": PURE + "an algebraic identity.",
 "C31": PURE + "correctness of generated formulas.",
 "C32": PURE + "correctness of printing.",
 "C33": PURE + "numerical accuracy over inputs.",
 "C34": PURE + "correctness of derivatives.",
})
