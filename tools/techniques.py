TECH.update({
"C01": "runtime monitoring: offline conservation checker over the shard slices the real sharder assigns in random topologies",
"C02": "runtime monitoring: exactly-once / content checker over the recorded deliveries of all workers and ranks",
"C03": "runtime monitoring: differential trace checker, resumed stream vs. uninterrupted stream, random save points and chains",
"C04": "runtime monitoring: immutability monitor on state objects and differential trace checker with saves injected",
"C05": "runtime monitoring: trace comparison of runs with injected delays, pauses, saves and process restarts",
"C06": "runtime monitoring: trace comparison over topologies of equal product, and of the global batches assembled",
"C07": "runtime monitoring: online restore oracle, each yielded sample is restored by its key and compared",
"C08": "runtime monitoring: fault injection into user functions with a reference of the fault-free run, and handler-call log",
"C09": "runtime monitoring: independent tar reader as oracle over the written index and split files",
"C10": "runtime monitoring: independent tar model as oracle over random slices and sample reads",
"C11": "runtime monitoring: fault-injecting storage under the stream, byte-exact model file as oracle",
"C12": "runtime monitoring: statistical and subsequence checkers over recorded blend draws",
"C13": "runtime monitoring: conservation and size checker between the logs at the inputs and outputs of the stages",
"C14": "runtime monitoring: sequence-algebra model as oracle over the recorded passes",
"C15": "runtime monitoring: key-equality and content monitor on every joined sample, mismatched components injected",
"C16": "runtime monitoring: reference resolver of the metadataset text as oracle over the delivered samples",
"C17": "runtime monitoring: differential checker on recorded random draws with noise injected between calls",
"C18": "runtime monitoring: independent reference converter as oracle over random types and data",
"C19": "runtime monitoring: posixpath / os as oracle over random path programs",
"C20": "runtime monitoring: un-padding oracle over random batches",
"C21": "runtime monitoring: sequential application as oracle, coordinate images",
"C22": "runtime monitoring: online uniqueness and gap monitor on the indexes and seeds user functions see",
"C23": "runtime monitoring: real gloo process groups, per-rank trace comparison",
"C24": "runtime monitoring: call log of cookers against a first-match reference",
"C25": "runtime monitoring: reference path evaluator as oracle over random samples",
"C26": "runtime monitoring: crash injection at every file operation of a preparation, then load/compare",
"C27": "runtime monitoring: log parser against yielded samples; process and thread leak monitor with deadlines",
"C29": "runtime monitoring: statistical tests over long recorded orders and draws, repeated-value monitor",
"C28": "runtime monitoring: exit codes and output of the tools compared with the generated data",
"C30": "runtime monitoring: metamorphic monitor on configs, equal before/after iterating, saving, restoring and in other processes, different after one setting changed",
"C31": "runtime monitoring: independent reader and decoder of the tar parts as oracle over every loaded sample, broken parts injected",
})
