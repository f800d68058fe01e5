PROPS, NA = [], {}
def P(id, title, statement, over, all, why, files, mech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, all=all, why=why, files=files,
                      mech=mech if isinstance(mech, list) else [mech], note=note))

CO = "src/coarse/coarse.c src/ravl/ravl.c"
P("C01", "Sub-allocated regions never hand out overlapping or outside memory",
  "Whatever the history of allocations and frees, every live block of the coarse (region) allocator lies entirely inside the "
  "memory the allocator was given, has the requested alignment, and shares no byte with another live block. "
  "A free of anything but a live allocation's start address with its size (or size 0) is refused and changes nothing.",
  "inputs histories configurations", "all sizes, alignments, region bounds and addresses up to 2^40, all histories of the stated shapes, all three allocation strategies",
  "tests allocate a few fixed sizes in one fixed order; overlap appears only for particular combinations of size, alignment and neighbouring free blocks",
  CO, ["find_free_block/create_aligned_block/split_current_block carve blocks out of the free ones", "coarse_free checks the address and size before releasing"],
  "Every path of the listed histories is decided for all symbolic sizes, alignments and addresses within the bounds; histories are bounded (4 to 6 operations); metadata allocator and mutex are contract models.")
P("C02", "Freed regions coalesce and the books balance",
  "The coarse allocator's used and total sizes equal at every moment the sums over live allocations and over the regions it holds, "
  "and once everything is freed a region is a single free block that can be allocated again in one piece. "
  "Every region obtained from an upstream provider is given back exactly once, as the upstream knows it.",
  "inputs histories configurations", "as for overlap: symbolic sizes, alignments, regions; bounded histories followed by freeing everything",
  "tests check statistics after a few fixed sequences only; a missed merge or a miscount needs a particular order of neighbouring frees",
  CO, ["free_block_merge_with_prev/next", "coarse_get_stats", "coarse_delete returns regions"],
  "Bounded histories (3 to 5 operations, then all frees in order), all sizes symbolic.")
P("C03", "Split and merge accept exactly the proper requests",
  "Splitting a live coarse allocation succeeds only with its exact size and an interior cut, merging only for two live adjacent allocations "
  "with their exact total, and on success both parts (or the merged block) behave as ordinary allocations. "
  "An improper or upstream-refused request changes nothing.",
  "inputs histories fault_sequences", "all addresses and sizes, any upstream refusal, bounded histories",
  "tests try a few wrong arguments; the acceptance condition is over all sizes and neighbours",
  CO, ["coarse_split", "coarse_merge", "can_provider_split/can_provider_merge"],
  "Bounded histories with up to three blocks; sizes symbolic up to 2^43.")
P("C04", "Running out of metadata memory leaves the region allocator consistent",
  "If an internal metadata allocation fails at any point of a coarse allocator operation, the operation either completes or reports an error, "
  "nothing is leaked or counted twice, and every later operation still meets the allocator's guarantees.",
  "fault_sequences inputs histories", "failure of any single metadata allocation at any point of bounded histories with symbolic sizes",
  "no test injects allocation failures into the allocator's metadata",
  CO, ["error paths of create_aligned_block, split_current_block, free_blocks_add, coarse_add_used_block"],
  "One failing metadata allocation at any point of bounded histories; all sizes symbolic.")
BA_ = "src/base_alloc/base_alloc.c src/base_alloc/base_alloc_global.c src/base_alloc/base_alloc_linux.c"
P("B01", "Internal allocator blocks are disjoint, large enough, aligned or refused",
  "Whatever the library's internal allocator is asked for, from any number of threads, each block it hands out is fully usable, aligned as requested, "
  "disjoint from every other live block, and can be released or reused; when memory runs out the request is refused instead.",
  "inputs histories schedules fault_sequences", "all sizes up to 2^64-1, all alignments, bounded histories, two threads with bounded preemptions, any OS refusal",
  "the tests allocate small sizes with plenty of memory; wrong sizes, refusals and pool growth under contention are not reached",
  BA_, ["umf_ba_global_alloc/free and size classes", "umf_ba_alloc/umf_ba_free free lists and pool growth"],
  "Bounded histories (2-4 operations; 520 to grow a pool), two threads with bounded preemption; the OS's memory is a contract model.")
P("B02", "The bootstrap linear allocator never overlaps, overruns or frees early",
  "Blocks of the linear allocator are disjoint and inside its memory for every size, a pool's memory goes back to the operating system only when all its blocks are free "
  "(or the allocator is destroyed), and foreign pointers are reported as such.",
  "inputs histories schedules fault_sequences", "all sizes up to 2^64-1, bounded histories, two threads, any OS refusal",
  "the tests use a few sizes, never overflow a pool size and never fail the OS",
  "src/base_alloc/base_alloc_linear.c src/base_alloc/base_alloc_linux.c", ["umf_ba_linear_alloc/free/destroy", "umf_ba_linear_pool_contains_pointer"],
  "Bounded histories (3-5 operations), two threads with bounded preemption; the OS's memory is a contract model.")
P("M01", "The pointer map answers every lookup exactly",
  "Exact, at-or-below, above/below and range lookups, insertion, update, removal and iteration of the library's pointer map agree with a mathematical map of 64-bit keys to values, "
  "whatever keys are in it and whichever removed entries await reuse; a failed insertion changes nothing.",
  "inputs histories fault_sequences", "all 64-bit queries; keys with any values at the listed bit positions; histories of up to 4 (with 17 recycling) operations",
  "the map's shape depends on where keys first differ: the tests' keys cover few of the shapes",
  "src/critnib/critnib.c", ["critnib_insert/get/find_le/find/iter/remove", "deferred reuse of removed nodes"],
  "Two to four keys that differ in up to three chosen nibbles over several base patterns; metadata memory is a contract model.")
P("M02", "Lock-free lookups stay right while others insert and remove",
  "A lookup that runs while other threads insert and remove entries returns a value that was right at some moment of the call: an entry that stays is always found, "
  "and a removed and recycled entry is never returned for another key.",
  "schedules histories", "every interleaving with up to 1-3 preemptions of one reader and one writer (or two writers) over the listed histories, including a full recycling round",
  "the recycling grace period is only crossed when a reader is stalled across 16 removals at one particular instruction",
  "src/critnib/critnib.c", ["remove_count and the DELETED_LIFE grace period", "publication order in critnib_insert"],
  "Two threads, bounded preemptions, sequentially consistent memory; keys concrete except in two units, values symbolic.")
TR_ = "src/provider/provider_tracking.c"
P("T01", "Every pointer maps to the pool that owns it",
  "While an allocation obtained through a pool's tracked provider is live, every address inside it (and none outside) maps to the innermost live block holding it, with that block's base, size and pool - "
  "through nesting of pools in pools, splits and merges. Freeing stops the mapping, and destroying everything leaves no tracking entry behind.",
  "inputs histories", "all addresses below 2^46 and sizes below 2^40, histories of up to 5 operations over three nesting levels",
  "tests use one or two nesting levels and look up base addresses; child counts go wrong only in particular orders of nesting, splitting and merging",
  TR_ + " src/memory_provider.c", ["umfMemoryTrackerAdd/Remove and the per-level maps", "trackingAllocationSplit/Merge", "umfMemoryTrackerGetAllocInfo"],
  "Bounded histories; the pointer map and the metadata pools are contract models (M01, B01 decide the real ones).")
P("T02", "A failure inside a tracked operation leaves ownership intact",
  "If the upstream provider refuses, or tracking metadata cannot be allocated, at any point of an allocation, free, split or merge, the operation reports an error, "
  "memory taken from upstream goes back to it, and every live block keeps its owner.",
  "fault_sequences histories inputs", "one failing metadata allocation or upstream refusals at any point of histories of up to 5 operations, symbolic addresses and sizes",
  "no test fails metadata allocation; upstream refusals are tested one at a time on fresh state",
  TR_, ["trackingAlloc/Free/AllocationSplit/AllocationMerge error paths"],
  "Bounded histories with one metadata failure or up to two upstream refusals.")
P("T03", "Ownership stays right under concurrency",
  "While several threads allocate, free, split and merge through pools nested in the same block, the owner of every block that stays live is found by every lookup, "
  "no child is miscounted, and the library's tracking data is free of data races.",
  "schedules histories", "every interleaving of two threads with up to 2 (thorough: 3) preemptions at atomic, lock and map operations",
  "the tests' threads work in separate blocks and never look up while another thread frees",
  TR_ + " src/ipc_cache.c", ["n_children updates", "lookups without the tracker lock"],
  "Two threads, bounded preemptions; map operations are atomic in the model. Known finding: a lookup may read a recycled tracking entry.")
AP_ = "src/memory_provider.c src/memory_pool.c src/memory_provider_get_last_failed.c"
P("A01", "Provider API: complete tables only, faithful dispatch, remembered failures",
  "A memory provider is created only from an operation table with every mandatory (and each all-or-none group of optional) operation; every call passes its arguments and the provider's result through unchanged, "
  "bad arguments are refused without reaching the provider, and the last failed provider is exactly the one whose operation failed last in this thread.",
  "inputs configurations histories", "every subset of missing operations in each group, every version, arbitrary argument and result values, two calls in sequence (thorough: three)",
  "tests null a few operations one by one and pass a few argument values",
  "src/memory_provider.c src/memory_provider_get_last_failed.c include/umf/memory_provider_ops.h", ["validateOps*", "checkErrorAndSetLastProvider", "default operations"],
  "All combinations per group; two dispatched calls.")
P("A02", "Pool API: creation is all or nothing, calls reach the right pool",
  "Creating a pool either succeeds or - for any failing step, refused metadata or refused lock - releases everything it took and reports the failure; "
  "pool calls pass arguments and results through, umfFree and umfPoolByPtr find the owning pool, destroying a pool returns its provider exactly when it owns it, and of two tags set at once each is current or handed to the other.",
  "inputs configurations fault_sequences histories schedules", "every creation flag set, any single failure, arbitrary arguments and results, two calls in sequence (thorough: three); three threads at a pool's tag",
  "tests do not inject metadata failures and check dispatch with fixed values",
  "src/memory_pool.c src/provider/provider_tracking.c", ["umfPoolCreateInternal and its error paths", "umfPoolDestroy", "umfFree/umfPoolByPtr"],
  "One injected failure per creation; two dispatched calls; metadata, maps and locks are contract models.")
IP = "src/ipc_cache.c src/ipc.c src/provider/provider_tracking.c"
P("I01", "A shared handle opens the same bytes and is returned as it was got",
  "An IPC handle of any address opens in a consumer as the same offset of a mapping of the same block, however many handles and consumers there are and however opens, closes, puts and frees interleave; "
  "handles of one live block are shared, every handle got from a provider is put back before its memory is freed, mappings stay while somebody has them open, and foreign addresses are refused.",
  "histories inputs fault_sequences", "histories of up to 6 operations over two producers and two consumers, symbolic block sizes and offsets, one refusal of the provider or of metadata memory",
  "tests open and close one or two handles in one fixed order",
  "src/ipc.c src/provider/provider_tracking.c src/ipc_cache.c", ["umfGetIPCHandle and its cache", "umfOpenIPCHandle/umfCloseIPCHandle", "trackingPutIpcHandle"],
  "Bounded histories; the pointer map, metadata pools and locks are contract models; consumers close before the producer frees.")
P("I02", "The cache of opened IPC mappings keeps within its limit and never loses one",
  "With a limit of opened mappings set, unused mappings above the limit are closed, each by the provider that opened it and exactly once, mappings in use are never evicted, "
  "and a failed open leaves nothing behind: later opens and closes behave as if it had not happened. A destroyed pool takes its mappings, and only those, with it.",
  "histories fault_sequences configurations", "histories of up to 7 operations with limits 0, 1 and 2, one refusal of the provider, of metadata memory or of a lock",
  "tests set one limit and open with one provider that never fails",
  IP, ["umfIpcOpenedCacheGet and its LRU list", "the eviction callback", "trackingOpenIpcHandle error paths"],
  "Bounded histories; the pointer map, metadata pools and locks are contract models; consumers close before the producer frees.")
P("I03", "Threads that make, put, open and close IPC handles do not disturb each other",
  "However the steps of two threads interleave, threads that make and put handles of blocks of one pool get handles that describe their blocks, a block has one handle number and one provider handle at a time, "
  "threads that open and close handles get pointers to the right position of a live mapping, a mapping in use is never closed, and in the end every mapping and every provider handle is given back exactly once. No data races, deadlocks or leaks.",
  "schedules inputs", "two threads with one to four requests each, up to 2 (thorough 3) preemptions at any lock, map, atomic or provider operation; block sizes up to 2^40, all addresses; cache limits 0 and 1",
  "tests run threads under whatever schedule the machine gives",
  IP, ["umfGetIPCHandle / umfPutIPCHandle / umfOpenIPCHandle / umfCloseIPCHandle", "trackingGetIpcHandle (insert race)", "trackingOpenIpcHandle (mmap_lock)", "umfIpcOpenedCacheGet"],
  "Context-bounded; operations of the pointer map, metadata pools and locks are atomic contract models. Closing an address that nobody opened while another mapping is evicted is misuse and outside.")
DP = "src/pool/pool_disjoint.c"
P("D01", "Disjoint pool blocks are apart, big enough and aligned",
  "Every block of the disjoint pool lies inside memory got from its provider, has the alignment asked for, is usable for at least the size asked for (and the reported usable size is really its own), "
  "shares no byte with any other live block, and a request is refused only if it is empty, overflows, or the provider or metadata memory runs out. Requests above the pooling limit go straight to the provider.",
  "inputs histories configurations", "all 64-bit sizes and pooling limits, alignments up to 2 MiB, several slab sizes, capacities, smallest buckets and page sizes, histories of up to 4 operations (one of 72)",
  "tests use one or two configurations whose sizes never reach the boundaries between buckets, slabs and direct allocations",
  DP, ["size_to_idx and the buckets", "create_slab/slab_get_chunk bitmaps", "disjoint_pool_aligned_malloc/free/malloc_usable_size"],
  "Bounded histories; slab sizes, capacities and alignments from stated sets, sizes and limits symbolic; provider, map, locks and metadata are contract models.")
P("D02", "The disjoint pool returns all memory and keeps within its limits",
  "Memory goes back to the provider only when no block in it is live, exactly as it was obtained; the memory pooled by pools that share limits never exceeds them; free slabs are pooled while limits and capacity allow; "
  "destroying a pool returns all its memory, metadata and its share of the limits.",
  "histories configurations inputs", "all limits, sizes up to 256, histories of up to 6 operations including destruction and re-creation",
  "tests check a few fixed limits and sequences and never re-create a pool with the same limits",
  DP, ["bucket_can_pool and the shared limits", "bucket_free_chunk", "disjoint_pool_finalize"],
  "Bounded histories; sizes and limits symbolic; provider, map, locks and metadata are contract models.")
P("D03", "A failure in the disjoint pool leaves it as it was",
  "When the provider refuses, or metadata memory or a lock cannot be obtained, at any point of creation or of a request, the call fails with a reason, keeps nothing, and the pool goes on working.",
  "fault_sequences histories", "one refusal at any point of creation and of histories of up to 4 operations",
  "no test injects metadata failures; the provider's refusals are tested on fresh pools",
  DP, ["disjoint_pool_initialize error path", "bucket_create_slab/create_slab error paths"],
  "One failure per operation; bounded histories; sizes symbolic up to 128.")
P("D04", "Disjoint pool blocks stay apart when threads share it",
  "Two threads that allocate and free in one disjoint pool, or in two pools with shared limits, get disjoint blocks, never touch memory the pool has given back, keep within the limits, and the pool's data is free of data races.",
  "schedules inputs", "every interleaving of two threads with up to 2 (thorough: 3) preemptions at atomic, lock, map and provider operations; symbolic sizes",
  "the tests' threads rarely meet at the moment a slab is created, moved between lists or destroyed",
  DP, ["bucket_lock", "atomic shared limits", "known_slabs lookups without a lock"],
  "Two threads, bounded preemptions; map operations are atomic in the model. Known finding: freeing a direct block may read a destroyed slab's descriptor.")
OSF = "src/provider/provider_os_memory.c"
P("O01", "OS memory blocks are mapped, apart, aligned, and unmapped in full",
  "Every block of the OS memory provider is mapped entirely with the requested protection and visibility, has the requested alignment, overlaps no other block, and is refused only for a reason; "
  "nothing but the live blocks stays mapped, freeing unmaps exactly the block's pages, and destroying a provider leaves no file, lock, map or metadata behind.",
  "inputs histories fault_sequences", "all 64-bit sizes, alignments up to 2 GiB including invalid ones, any address the kernel may grant, one refused system call, histories of up to 3 operations",
  "tests map a few sizes and never see the kernel refuse or grant an unfavourable address",
  OSF, ["os_mmap_aligned", "os_alloc/os_free", "os_initialize error paths"],
  "Bounded histories; kernel, hwloc, pointer map, locks and metadata are contract models.")
P("O02", "OS memory is bound to the NUMA nodes its mode demands",
  "Every page of a block is bound, once, to exactly the nodes the mode demands: the list of nodes (bind, preferred, local), the parts taking the nodes in turn and continuing where the previous allocation ended (interleave), "
  "or exactly the partitions the page overlaps (split), strictly where the mode demands it; a block that could not be bound is not handed out.",
  "inputs configurations fault_sequences", "all sizes up to 2^34 (bind modes), up to 24 pages and every residue (split, interleave), up to 4 nodes and partitions, all weights up to 3, one failure of hwloc or metadata memory",
  "tests need NUMA hardware and check one page or one ratio",
  OSF, ["translate_numa_mode and initialize_nodeset", "bind_memory and membind_next", "validate_and_copy_numa partitions"],
  "Small numbers of pages, nodes and partitions; hwloc is a contract model.")
P("O03", "Shared OS memory is the same memory in every process",
  "Opening the handle of a live shared block maps, in full, exactly the block's bytes of the shared file, whatever allocations, frees, splits and merges came before; two blocks never share bytes of the file; "
  "opening leaves no file open; a valid handle can be opened; private memory cannot be exported.",
  "histories inputs fault_sequences", "all sizes, addresses and splits, histories of up to 4 operations, up to two refused system calls",
  "tests export the first block, unaligned and never split",
  OSF, ["os_mmap_aligned file offsets (fd_offset_map)", "os_get_ipc_handle/os_open_ipc_handle", "os_allocation_split/merge"],
  "Bounded histories; kernel mappings and files are a contract model. Known finding: memory shared by name can be opened once only.")
P("O04", "OS memory statistics are exact",
  "After every history the OS provider's allocated_memory is the sum of the sizes of its live blocks and peak_memory the highest such sum since creation or the last reset, whether operations succeed or fail.",
  "histories inputs fault_sequences", "all sizes, histories of up to 5 operations, up to two refused system calls",
  "tests compare a handful of values on success paths",
  OSF, ["provider_ctl_stats_impl.h", "os_alloc/os_free"],
  "Bounded histories; the kernel and metadata are contract models.")
FP = "src/provider/provider_file_memory.c"
P("F01", "File memory: blocks mapped, apart in memory and file, shared exactly",
  "Every block of the file memory provider is mapped entirely from its file with the requested protection and visibility, has the requested alignment, and shares no byte of memory or (when shared) of the file with another live block; "
  "opening a block's handle maps exactly its bytes of the file; splits and merges keep this so; parameters take effect as set last before the creation, of which the provider keeps its own copy; requests fail only for a reason, a failure keeps nothing, and destroying the provider leaves no mapping, file, lock or metadata behind.",
  "inputs histories fault_sequences", "all 64-bit sizes, alignments up to 2 MiB including invalid ones, any address the kernel may grant, files on ordinary and DAX file systems, one or two refused system calls, one failure of metadata memory, histories of up to 6 operations",
  "tests allocate a few sizes in fresh files, in one order, and the kernel never refuses",
  FP + " src/coarse/coarse.c", ["file_mmap_aligned and the offset in the file", "offset_fd_map", "file_allocation_split/merge", "file_get/open/close_ipc_handle", "file_initialize error paths"],
  "Bounded histories; kernel mappings and files, pointer map, locks and metadata are contract models.")
P("V01", "Device DAX memory: blocks apart, inside the device, shared exactly",
  "Every block of the device DAX provider lies in its mapping of the device, has the requested alignment and shares no byte with another live block; opening a block's handle maps exactly its bytes of the device; "
  "parameters take effect as set last before the creation; what fits an unused device is found; creation that fails at any point keeps nothing and destruction leaves no mapping, file, lock or metadata behind.",
  "inputs histories fault_sequences", "all device and request sizes, alignments including invalid ones, any address, one refused system call, one failure of metadata memory, histories of up to 5 operations",
  "tests need a DAX device and are skipped without one",
  "src/provider/provider_devdax_memory.c src/coarse/coarse.c", ["devdax_initialize error paths", "devdax_get_ipc_handle/devdax_open_ipc_handle", "devdax_free and the coarse allocator"],
  "Bounded histories; kernel mappings and files, pointer map, locks and metadata are contract models.")
P("X01", "Fixed memory: blocks lie apart inside the user's buffer",
  "Every block of the fixed memory provider lies inside the buffer the user gave, has the requested alignment and shares no byte with another live block, through splits, merges, frees and reuse; what fits an unused buffer is found; "
  "improper requests are refused with a reason, a failure keeps nothing, and the buffer itself is never unmapped or freed.",
  "inputs histories fault_sequences", "any buffer, all sizes, alignments including invalid ones, one failure of metadata memory, histories of up to 5 operations",
  "tests use one buffer, page multiples and one order of frees",
  "src/provider/provider_fixed_memory.c src/coarse/coarse.c", ["fixed_alloc/fixed_free over the coarse allocator", "fixed_allocation_split/merge"],
  "Bounded histories; pointer map, locks and metadata are contract models.")
P("M03", "The balanced tree is an ordered map with balanced lookups",
  "For every history of insertions and removals the balanced tree finds, for every key and predicate, exactly the element an ordered map would find, walks its elements in order in both directions, refuses duplicates, "
  "keeps lookups logarithmic, destroys each element once when cleared, and is unchanged when memory for a node runs out.",
  "histories inputs fault_sequences", "all 64-bit keys, histories of up to 6 (thorough: 9) operations, copied and pointed-to elements, one failure of metadata memory",
  "tests insert fixed sequences of keys; the balancing cases depend on the order of keys and removals",
  "src/ravl/ravl.c", ["ravl_insert/ravl_balance rotations", "ravl_remove with two children", "ravl_find predicates", "ravl_node_successor/predecessor"],
  "Bounded histories, keys symbolic, every operation decided by the solver.")
P("K01", "Control queries reach exactly the node and argument they name",
  "A query of the control tree runs the handler its name denotes, once, with the context, indexes and argument given, and reports its result; a name that denotes nothing, or a node that does not support the kind of query, fails and runs nothing. "
  "A configuration, from a string or (without its comments and spaces) from a file, makes exactly the settings it spells, in order up to the first bad one, with each argument parsed in full and in range, or fails; a file that grows while it is read overruns nothing. Nothing is leaked, also when memory runs out.",
  "inputs fault_sequences configurations", "all names of up to 5 bytes, all sequences of up to 4 name parts, all arguments of up to 5 bytes, all configuration strings of the stated shapes, configuration files of up to 4 of 13 tokens that may fail to open, seek or tell, one failure of metadata memory",
  "tests query a few names and a few well-formed strings",
  "src/ctl/ctl.c", ["ctl_find_and_execute_node", "ctl_query", "ctl_load_config and argument parsers", "index lists"],
  "Lengths bounded; the tree registered by the harness has plain, indexed, nested and leaf nodes of every kind.")
P("P01", "Every block of the malloc proxy goes back to the allocator that made it",
  "Through the proxied malloc family every block is big enough, aligned, apart from all others and (from calloc) zero, and realloc keeps its bytes; "
  "each block, whether made before the pool exists, while it is made, by the pool, or by the system below the size threshold, is freed, resized and measured by its own allocator only; "
  "overflowing requests fail with ENOMEM.",
  "inputs histories fault_sequences configurations", "all 64-bit sizes, histories of up to 6 operations around pool creation and exit, allocation by the pool itself, any threshold, failing allocators",
  "tests run a few allocations with one environment and cannot place them before or inside pool creation",
  "src/proxy_lib/proxy_lib.c src/proxy_lib/proxy_lib_linux.c src/base_alloc/base_alloc_linear.c", ["ba_leak allocator and umf_ba_linear_pool_contains_pointer", "realloc routing", "size_threshold and system allocator", "was_called_from_umfPool guards"],
  "Bounded histories; pool, system allocator and OS are contract models.")
P("G01", "The library can be set up and torn down again and again",
  "For every order of umfInit, umfTearDown and use, the library is set up while at least one user holds it and not before the first or after the last; each setup is followed by exactly one teardown of every part, after which nothing is left, "
  "and a new setup works as the first did. A setup that fails leaves nothing behind and can be repeated.",
  "histories fault_sequences", "all histories of up to 5 calls, one refused system call or failed lock at any point, several full cycles",
  "tests initialize once, nothing fails and the process exits",
  "src/libumf.c src/base_alloc/base_alloc_global.c src/base_alloc/base_alloc.c", ["umfInit/umfTearDown and umfRefCount", "umf_ba_create_global/umf_ba_destroy_global", "initialize_global_ctl", "umfMemoryTrackerCreate/Destroy"],
  "Bounded histories; OS and locks are contract models; memspaces, topology and GPU state are stand-ins counting their destruction.")
P("K02", "Queries by handle reach exactly that pool or provider",
  "A control query by_handle of a pool or provider is answered by exactly the object named, with the rest of the name, the argument and kind given, and returns its result; an object that cannot answer, or fails, makes the query fail.",
  "inputs", "all query names of three characters, all result codes, objects with and without control operations",
  "tests query two objects that succeed",
  "src/memory_pool.c src/memory_provider.c src/ctl/ctl.c", ["CTL_SUBTREE_HANDLER by_handle_pool", "by_handle_provider", "umfDefaultCtlHandle"],
  "Names of three characters; metadata memory is a contract model.")
P("S01", "Memory spaces hold exactly the right nodes, and their providers use them",
  "Through every history of creation, cloning, addition, removal and filtering a memory space has exactly its targets, in order, or is unchanged by an operation that fails; the predefined spaces hold all nodes, the nodes by falling capacity, "
  "and for every node a node of highest bandwidth and of lowest latency, also after a teardown; a provider made from a space binds to its nodes as the policy says. Nothing is leaked.",
  "histories inputs configurations fault_sequences", "any node ids, capacities, bandwidths, latencies and locality of machines of 2 or 3 nodes, histories of up to 6 operations, one failure of metadata memory or of hwloc",
  "tests run on whatever machine there is (one node) and never fail an allocation",
  "src/memspace.c src/memtarget.c src/mempolicy.c src/memtargets/memtarget_numa.c src/memspaces/memspace_numa.c", ["umfMemspaceMemtargetAdd/Remove", "umfMemspaceFilterHelper", "umfMemspaceFilter and getBestBandwidthTarget", "umfMemspaceSortDesc", "numa_memory_provider_create_from_memspace"],
  "Bounded histories and machines; hwloc, metadata memory and the OS provider's parameters are contract models.")
P("L01", "Level Zero memory is allocated, freed and shared exactly as asked",
  "Each request reaches the driver once, with the provider's context, device, memory type, ordinal, size and alignment, its size limit lifted exactly for blocks beyond it; the block is made resident on every device asked for or is not kept; "
  "it is freed once as the policy says; handles of other processes are opened through a duplicate of their file that is closed again; failures are reported and keep nothing.",
  "inputs histories configurations fault_sequences", "all sizes, alignments, limits, ordinals, memory types, policies, up to 2 resident devices, any missing symbol of the driver, one failure of the driver or of metadata memory",
  "tests need a GPU and are not run without one",
  "src/provider/provider_level_zero.c", ["ze_memory_provider_alloc", "use_relaxed_allocation", "ze_memory_provider_free", "ze_memory_provider_initialize and query_min_page_size", "ze_memory_provider_open_ipc_handle"],
  "Bounded histories; the driver is a contract model.")
P("W01", "The scalable and the proxy pool pass on exactly what they are asked",
  "Every request reaches the underlying allocator once with its size and alignment, and its answer, or the cause of its failure, is what the user gets; arrays are zero and overflowing ones refused; "
  "the allocator gets its memory from, and gives it back to, the pool's own provider; its library is opened once, used only while open, and closed once, over any number of set-ups and teardowns; a failed creation keeps nothing.",
  "inputs histories configurations fault_sequences", "all sizes, alignments and parameters, any missing symbol or library, histories of up to 10 operations and two set-ups, two failures of allocator, provider or metadata memory",
  "tests need the allocator installed, which then never fails, and set up once",
  "src/pool/pool_scalable.c src/pool/pool_proxy.c", ["init_tbb_callbacks_once", "fini_tbb_global_state", "tbb_pool_initialize", "tbb_calloc", "tbb_raw_alloc_wrapper and TLS_last_allocation_error", "proxy_aligned_malloc"],
  "Bounded histories; TBB malloc, library loader, provider and metadata memory are contract models; one thread.")
P("U01", "Settings and flags mean what they say, and every log message is written whole",
  "An option is found in a configuration string exactly where one of its elements is that option; the logger writes exactly the messages of its level and above, once, to the output named, flushed as configured, with their text complete or visibly cut, "
  "whatever their length, and leaves errno alone; flags, errors, ranges, paths and thresholds keep their meaning when translated for the system.",
  "inputs configurations", "all strings of up to 6 bytes, all combinations of logger options in two orders, all messages around the size of the buffer, all flags, errors and alignable ranges",
  "tests try a handful of strings and two messages",
  "src/utils/utils_log.c src/utils/utils_common.c src/utils/utils_posix_common.c src/utils/utils_linux_common.c", ["utils_log_internal", "utils_log_init", "utils_parse_var", "utils_translate_flags", "utils_align_ptr_down_size_up"],
  "Lengths bounded; streams, clock and printf are models.")
