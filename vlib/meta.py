NUM = "Held on the sampled problems, every one judged against an independent long double reference with a derived error bound; trusts that reference. No claim for unsampled problems."
META = {
    "C01": ("runtime monitor: node values against the data, stress-generated problems, 7 build configurations", "exploration", NUM),
    "C02": ("runtime monitor: reference-model oracle (Cox-de Boor) and polynomial reproduction over generated workloads", "exploration", NUM),
    "C03": ("runtime monitor: reference-model oracle for continued end pieces over hostile coordinates", "exploration", NUM),
    "C04": ("runtime monitor: metamorphic shift oracle and reference model on periodic workloads", "exploration", NUM),
    "C05": ("runtime monitor: reference-model oracle for all mixed derivatives", "exploration", NUM),
    "C06": ("runtime monitor: exact accept/reject oracle at and around range ends", "exploration", "Accept/reject and metadata are judged exactly on the sampled problems."),
    "C07": ("runtime monitor: random operation histories of templates checked against a model", "exploration", NUM),
    "C08": ("runtime monitor: proxy results against direct evaluation and reference over interleaved histories", "exploration", NUM),
    "C09": ("offline comparison of event logs recorded by 11 builds of the same workload", "exploration", "Agreement of all builds on the logged events and with the reference; configurations not listed are not covered."),
    "C19": ("runtime monitor: value-semantics history checker and linearity oracle", "exploration", NUM),
    "C10": ("AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and libstdc++ debug mode over whole object lifetimes with hostile coordinates", "exploration", "No report on the sampled lifetimes; what the sanitizers do not instrument is not covered."),
    "C11": ("differential runs with different contents of unwritten memory, bitwise trace comparison; valgrind memcheck", "exploration", "No dependence seen between the memory fillings used; races are under C12."),
    "C12": ("ThreadSanitizer and bitwise record comparison of concurrent against solitary script runs, with injected delays", "exploration", "No race or difference in the schedules that occurred; schedules are perturbed, not enumerated."),
    "C13": ("online event monitor of tagged tasks (exactly-once, outcome, thread) under injected delays; ThreadSanitizer", "exploration", "Held on the histories that occurred; schedules are perturbed, not enumerated."),
    "C14": ("shutdown monitor in child processes with injected delays and thread creation failures; hang detection; ThreadSanitizer", "exploration", "Held on the shutdowns that occurred; schedules are perturbed, not enumerated."),
    "C15": ("runtime monitor: cell-by-cell dense shadow model with exact products", "exploration", "Exact comparison on the sampled shapes and histories."),
    "C16": ("runtime monitor: componentwise backward error bound against an independent dense solve", "exploration", "Held on the sampled systems within the error bound of elimination without pivoting."),
    "C17": ("runtime monitor: shadow array model over all access forms and random iterator walks", "exploration", "Exact comparison on the sampled shapes and walks."),
    "C18": ("runtime monitor: accept/reject oracle over single-position corruptions in assertion builds", "exploration", "Exact accept/reject decision on the sampled inputs."),
    "C20": ("runtime monitor: allocation history checker (alignment, overlap, capacity, patterns)", "exploration", "Exact on the sampled histories."),
    "C21": ("runtime monitor: Cox-de Boor reference over random knots, hints and reloads", "exploration", NUM),
    "C22": ("fault injection: every k-th allocation or value operation fails; block accounting, LeakSanitizer, bitwise retry oracle", "exploration", "Held at the fault positions injected; faults inside the C library are not injected."),
}
