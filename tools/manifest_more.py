T.update({
 "V02": ("differential runtime monitoring against the kernel (os.Root on tmpfs), "+RACE+"tree cross-checks between listing, Stat and handles", "exploration", "every outcome of the explored histories is compared; history length and name space are bounded"),
})
T.update({
 "V03": ("differential runtime monitoring of wrappers and nestings against direct application, "+RACE, "exploration", "every outcome and the final tree of the explored histories are compared; history length and name space are bounded"),
 "V04": ("runtime monitoring of the inner file system's mutation log beneath read-only wrappers, "+RACE, "exploration", "every reachable object gets random histories with every method; trees are small"),
 "V09": ("runtime monitoring of paged listings: exactly-once accounting per entry under mutation, "+RACE, "exploration", "page sizes, forms, rewinds and mutations are random; os.File pages whose entries all vanished may be empty"),
 "V10": ("runtime monitoring of lock holders within and across processes, blocking watchdogs, "+RACE, "exploration", "schedules are those of the kernel and Go scheduler; OS-backed locks only where the repository offers them"),
})
T.update({
 "U06": ("differential runtime monitoring against the kernel (openat2 RESOLVE_BENEATH), call monitoring beneath the resolver", "exploration", "all paths of up to three components of every generated tree, on two file systems; trees and link layouts are random"),
 "V06": ("differential runtime monitoring of every io/fs method against the file system beneath, testing/fstest with control, "+RACE, "exploration", "trees, paths and read histories are random and small"),
 "V07": ("runtime monitoring of the visit log against an independent walk of a kernel twin, injected faults and removals", "exploration", "trees, visitor decisions and faults are random; link budgets beyond 39 are not exercised"),
})

T.update({
 "U01": ("runtime monitoring of the backing file system after every call, every call as crash point and as failing call, concurrent writers; "+RACE, "exploration", "every call of each generated safe write is faulted and crashed; contents, modes, targets and policies are random; crashes are modelled as the process stopping between file system calls"),
 "U04": ("runtime monitoring of created names under contention, tree diff around cleaning; "+RACE, "exploration", "policies, patterns and populations are random; schedules are those of the Go scheduler"),
 "U05": ("runtime monitoring: destination tree against source tree, every call of source and destination failed in turn; "+RACE, "exploration", "trees and selections are random and small; every call of the explored copies is faulted"),
 "U07": ("runtime monitoring of return values against independent specifications", "exploration", "inputs are random, with exhaustive short ones"),
})
T.update({
 "U02": ("runtime monitoring of the destination after every call over multi-attempt histories with faults, crashes and misbehaving sources; "+RACE, "exploration", "histories of up to eight attempts with one file-system fault or crash each; crashes are modelled as the process stopping between file system calls"),
 "U03": ("runtime monitoring of the committed name after every call over multi-attempt histories with faults, crashes and a checking model sink; "+RACE, "exploration", "histories of up to eight attempts with one file-system fault or crash each; versions are told apart by ETag"),
})
T.update({
 "T01": ("differential runtime monitoring against archive/tar plus an independent model, tar(1) and the kernel's path resolution, testing/fstest", "exploration", "archives of up to 18 entries of few names; every entry, listing and read history of each is compared"),
 "T02": ("runtime monitoring under mutation: panics, watchdog, self-consistency and comparison with archive/tar; archives damaged after opening; "+RACE, "exploration", "mutations are structured but random; huge sparse files are sampled"),
 "T03": ("race detector, exactly-once accounting and comparison with sequential results under concurrent handle programs", "exploration", "schedules are those of the Go scheduler"),
})
T.update({
 "V05": (RACE+"linearizability checking of recorded concurrent histories by replay, conservation of appends, exclusive-success accounting, hang watchdog", "exploration", "histories of up to sixteen calls by up to four goroutines; schedules are those of the Go scheduler plus yields inside critical sections"),
 "V08": ("runtime monitoring of the composed tree against a model, of resolver callbacks and of view releases; "+RACE, "exploration", "compositions of few names from random sources with random decisions"),
})
T.update({
 "V01": ("runtime monitoring of every outcome for marks of the surroundings, of the surroundings themselves, and of error identities against a walk of the entries; concurrent link swaps; "+RACE, "exploration", "histories of forty operations over few names in nine kinds of rooted file systems; swap schedules are those of the kernel and Go scheduler"),
})
T.update({
 "O01": ("differential runtime monitoring against a kernel directory holding an independently computed union; listing, Lstat, Stat, Open and ReadLink cross-checked; "+RACE, "exploration", "every outcome of the explored histories and the whole tree every few operations are compared; names, depth and layers are few"),
 "O02": ("runtime monitoring of every call that reaches a lower layer or its masking store, comparison of the lowers' storage before and after, every handle on a lower asked for every change; "+RACE, "exploration", "histories over few names, sequential and concurrent"),
 "O03": ("runtime monitoring: the whole view before and after closing, abandoning, reopening and restacking", "exploration", "histories over few names, up to four rounds per stack"),
})
T.update({
 "O04": ("runtime monitoring of the view and a rebuilt view after every call as crash point and as failing call of every mutation; "+RACE, "exploration", "every call to the top layer or its store of the explored operations is a crash point and a fault; one operation at a time; crashes are modelled as the process stopping between calls"),
 "O06": ("runtime monitoring of loaded marks against a model over hostile names, reopenings, faults and crashes of the backing file system; "+RACE, "exploration", "random sequences; crashes are modelled as the process stopping between calls or within a write, with everything written kept"),
})
T.update({
 "O05": (RACE+"linearizability checking of recorded concurrent histories by replay, conservation of appends through copy-up, exclusive-success accounting, reopening, hang watchdog", "exploration", "histories of up to eleven calls by up to four goroutines over few names; schedules are those of the Go scheduler plus yields in layer and store calls"),
 "O07": ("runtime monitoring of handles against kernel handles opened at the same point, of removals against independently counted handles, of closed handles; intervals of parallel opens and removals; "+RACE, "exploration", "up to eight handles on few names; schedules are those of the Go scheduler"),
})
T.update({
 "P01": ("differential runtime monitoring against package os on a twin directory over an in-process server, byte model of transfers, exactly-once listings, connections cut after every so many bytes; "+RACE, "exploration", "names, depth and history length are small; the server is pkg/sftp's own on the kernel"),
})
T.update({
 "V11": ("runtime monitoring of every entry's mode and time, of allocations and view releases against a model, of removals against independently counted handles; intervals of parallel opens and removals; "+RACE, "exploration", "histories of fifty operations over few names under random options; schedules are those of the Go scheduler"),
})
T.update({
 "R01": ("fault injection into every call of every helper under watched file systems, random faults in histories; runtime monitoring of open handles, of closed file systems, of /proc/self/fd and of running goroutines; "+RACE, "fault_enumeration", "one failing call at a time in each explored run of each helper; several random ones in histories; faults are errors returned by the file system, sources or callbacks"),
})
