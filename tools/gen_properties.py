import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
H='h_malloc.c'
p('C01','Allocations never overlap each other',
 'Every successful allocation returns a block of at least the requested number of bytes that is fully readable and writable and does not overlap any block that is still live or was freed but is still held back from reuse. A block never lies in memory that the allocator uses for its own state. This holds for small, large and over-aligned requests and for every state of the heap.',
 ['histories','inputs','configurations'],'every heap state reachable or satisfying the allocator\'s representation invariant, every request size, every outcome of the internal randomness, default and light configurations',
 'Tests allocate a few fixed sizes from a fresh heap; overlap would need a particular pattern of occupied slots, slab states and random choices.',
 [H,'pages.c'],[('slot bitmap scan and marking','h_malloc.c:get_free_slot,set_used_slot'),('slab addressing','h_malloc.c:get_slab,slot_pointer,alloc_metadata'),('slab lists','h_malloc.c:allocate_small,deallocate_small')],
 [('slab bitmap','which slots are in use','h_malloc.c:struct slab_metadata'),('partial/empty/free slab lists','where the next slot is taken from','h_malloc.c:struct size_class')],['malloc family return values','page permissions'])
p('C02','Invalid frees are always detected',
 'Calling free, sized free or malloc_usable_size on a pointer that is not the start of a currently live allocation (never allocated, interior or misaligned, already freed including while still held back from reuse, inside a reserved but unused part of the heap, or before any allocation was made) terminates the process with a fatal allocator error. realloc to a different size class on such a pointer likewise terminates the process: with a fatal allocator error, or with a memory fault if copying touches inaccessible small-allocation memory first. Such a call never returns and never makes memory available for reuse.',
 ['inputs','histories','configurations'],'every address in and around the small-allocation region and every address that is not a live large allocation, every occupancy and quarantine pattern of the slab it points into',
 'Tests try about ten fixed bad pointers; the claim is over every address offset and every occupancy pattern.',
 [H],[('address to class/slab/slot decoding and checks','h_malloc.c:deallocate_small,memory_corruption_check_small,get_metadata'),('region lookup','h_malloc.c:deallocate_large,regions_find')],
 [('bitmap and quarantine bitmap','live vs held back vs free','h_malloc.c:struct slab_metadata')],['process termination with a fatal error'])
p('C03','Correct programs never hit a fatal error',
 'A program that follows the allocation contract never makes the allocator abort or crash: every block may be released exactly once by free, by sized free with its requested size, by realloc, or by the matching plain, sized, aligned or sized-and-aligned C++ delete, whatever function and alignment it was obtained with. Size queries on live blocks, including zero-size and over-aligned ones, never abort either.',
 ['histories','inputs','configurations'],'every request size and alignment combination up to the stated bounds, every valid follow-up operation, every heap state',
 'Tests only check that misuse aborts, they do not sweep valid combinations of allocation function, alignment, size and release function.',
 [H,'new.cc'],[('small/large dispatch on release','h_malloc.c:h_free,h_free_sized,h_realloc'),('expected-size computation','h_malloc.c:h_free_sized'),('delete operators','new.cc')],
 [],['absence of abort/crash'])
p('C04','Returned pointers honour the required alignment',
 'Every pointer returned for a request is a multiple of 16, and of the requested alignment for the aligned functions (page alignment for valloc and pvalloc). An alignment that is not a power of two, or is too small for the function, is rejected with EINVAL and the output pointer is left untouched.',
 ['inputs','configurations'],'every size and every 64-bit alignment value',
 'No test calls an aligned allocation function at all.',
 [H,'pages.c'],[('aligned size class selection','h_malloc.c:get_size_info_align,allocate_aligned'),('aligned mapping','pages.c:allocate_pages_aligned')],[],['return values of the aligned functions'])
p('C05','Size classes cover each request with bounded waste',
 'For every request the block handed out can hold the request plus its guard value, malloc_usable_size reports exactly the bytes the caller may use, and rounding follows the documented size classes (multiples of 16 up to 128 bytes, then four classes per doubling, so at most 20% is lost to rounding). A request so large that rounding would overflow fails with ENOMEM instead of returning a smaller block.',
 ['inputs','configurations'],'every 64-bit request size',
 'Tests use a handful of sizes; an off-by-one at one class boundary or near the top of the address range would pass.',
 [H],[('size class computation','h_malloc.c:get_size_info,get_large_size_class,adjust_size_for_canary'),('size tables','h_malloc.c:size_classes,size_class_slots')],[],['malloc_usable_size','return values'])
p('C06','Fresh memory is zero and calloc cannot overflow',
 'With zero-on-free enabled every newly allocated block is entirely zero over its usable size, whatever the previous owner stored there; calloc memory is zero over the requested bytes in every configuration. calloc fails with ENOMEM when the product of its arguments does not fit, and otherwise returns room for the whole product.',
 ['inputs','histories','configurations'],'every block content written by the previous owner, every pair of calloc arguments, every slab state and reuse path',
 'Tests read a fixed block once from a fresh heap; they do not cover reuse after arbitrary writes nor the product boundary.',
 [H],[('zero on free','h_malloc.c:deallocate_small'),('calloc','h_malloc.c:h_calloc')],[],['memory contents after allocation'])
p('C07','Freed small memory is scrubbed immediately',
 'When a small block is freed (directly or through realloc) every byte its owner could use is zero by the time the call returns, in configurations with zero-on-free. Nothing outside the freed block is modified.',
 ['inputs','histories'],'every size class, every slot position, every content',
 'Tests look at one freed block of one size.',
 [H],[('memset on free','h_malloc.c:deallocate_small')],[],['memory contents after free'])
p('C08','Writes to freed small memory are detected on reuse',
 'If any byte of the usable area of a freed small block that the allocator keeps accessible is changed after it was freed, then the allocation that would reuse that slot terminates the process with a fatal error instead of returning it (configurations with the write-after-free check).',
 ['inputs','histories'],'every offset and value of the stray write, every size class up to the bound, every reuse path',
 'Tests write one fixed byte in one size class.',
 [H],[('write-after-free check','h_malloc.c:write_after_free_check,allocate_small')],[],['fatal error on allocation'])
p('C09','Canaries guard every small allocation',
 'In configurations with canaries each non-zero-size small block is followed, inside its own slot, by an 8 byte value whose first byte is zero and whose other bytes are random per slab, chosen anew whenever new or released memory is taken into use as a slab; it lies directly after the usable size and never inside it. Any change to that value makes freeing the block (or querying its usable size) terminate the process, and an overflow of up to 8 bytes past the usable size touches no other block.',
 ['inputs','histories','configurations'],'every size class and slot, every corruption value and offset',
 'Tests overwrite one canary with one value.',
 [H],[('canary placement and check','h_malloc.c:set_canary,check_canary,set_slab_canary_value,adjust_size_for_canary')],[('per-slab canary value','expected guard value','h_malloc.c:struct slab_metadata')],['fatal error on free','bytes after the block'])
p('C10','Freed small blocks are quarantined before reuse',
 'With the slab quarantine configured, a freed small block is not handed out again until it has been displaced first from a random slot array and then from a FIFO queue, each of the configured length scaled to the size class; each later free releases at most one older block, and never one that is still live. Blocks leave the queue in the order they entered it.',
 ['histories','inputs','configurations'],'every content of the quarantine arrays consistent with earlier frees, every random index, every size class',
 'Tests check at most that an immediate double free is caught.',
 [H],[('random array and queue','h_malloc.c:deallocate_small')],[('quarantine arrays','held-back blocks','h_malloc.c:struct size_class')],['which slots become reusable'])
p('C11','realloc preserves data and is safe on failure',
 'realloc returns a block holding the old contents up to the smaller of the old and new sizes, releases the old block exactly once when it moves, keeps the pointer when the size class does not change, and behaves as malloc for a null pointer. When it fails it returns NULL with ENOMEM and the old block is still live with its contents and size unchanged.',
 ['inputs','histories','fault_sequences'],'every pair of old and new sizes within the bounds (small, large, over-aligned, zero), every content byte, every point where the kernel can refuse memory',
 'Tests grow one array and shrink one block without failures.',
 [H,'memory.c'],[('realloc paths','h_malloc.c:h_realloc'),('mremap','memory.c:memory_remap_fixed')],[],['return value and memory contents'])
p('C12','Large allocations are surrounded by guard regions',
 'Every large allocation (ordinary or over-aligned, also after being resized in place) has directly before its first page and directly after its last page an inaccessible guard region reserved for it, of random length between one page and the configured fraction of its size plus one page. All of its usable bytes are accessible and no byte beyond its last page is.',
 ['inputs','histories','fault_sequences'],'every large request size and alignment, every random guard size, every kernel placement of the mapping',
 'Tests overflow one fixed large block by a few bytes.',
 [H,'pages.c'],[('guarded mapping','pages.c:allocate_pages,allocate_pages_aligned'),('guard size','h_malloc.c:get_guard_size'),('in-place shrink','h_malloc.c:h_realloc')],[('region metadata','address, size, guard size','h_malloc.c:struct region_metadata')],['page permissions'])
p('C13','Freed large memory is revoked, held back, then unmapped',
 'When a large block is freed its contents are discarded and its pages become inaccessible before the call returns, and below the configured threshold its whole address range including guards stays reserved until it has passed through the random array and then the FIFO queue. Each range is eventually unmapped exactly once and in full, and the allocator never unmaps, remaps or reprotects memory that belongs to a live block, to its own state or to somebody else.',
 ['histories','inputs','fault_sequences'],'every size and guard size, every quarantine content and random index, every refusal by the kernel, including blocks resized in place or moved',
 'Tests free one or a few large blocks; the quarantine never fills in them.',
 [H,'pages.c','memory.c'],[('region quarantine','h_malloc.c:regions_quarantine_deallocate_pages'),('unmapping','pages.c:deallocate_pages')],[('region quarantine arrays','ranges awaiting unmapping','h_malloc.c:struct region_allocator')],['munmap/mmap/mremap calls'])
p('C14','The large-allocation table behaves as an exact map',
 'After any sequence of large allocations, resizes and frees, looking up an address finds it if and only if it is the start of a live large allocation, with its exact current size and guard size, regardless of address collisions, wrap-around, deletions or growth of the table. The table always keeps room for lookups to terminate.',
 ['histories','inputs'],'every table content reachable within the bound, every set of page-aligned addresses including colliding ones, growth at every fill level',
 'Tests hold at most a few hundred large blocks with kernel-chosen addresses; deletion with wrapped collision chains is not forced.',
 [H,'pages.h'],[('open addressing table','h_malloc.c:regions_insert,regions_find,regions_delete,regions_grow'),('hash','pages.h:hash_page')],[('region table','live large blocks','h_malloc.c:struct region_allocator')],['malloc_usable_size, free'])
p('C15','Zero-size allocations are unique and never accessible',
 'malloc(0), calloc with a zero product and realloc to size zero return a distinct non-null pointer to memory that is never made readable or writable at any time. Such pointers report usable size 0, can be freed exactly once, and are never shared with other live allocations.',
 ['histories','inputs'],'every state of the zero-size class, every way to reach it',
 'Tests touch a single zero-size block.',
 [H],[('zero size class','h_malloc.c:allocate_small,alloc_metadata,deallocate_small')],[],['page permissions','return values'])
p('C16','Slabs stay in place and are separated by guard slabs',
 'Each size class hands out memory only from its own reserved range of its own arena, slabs are laid out without overlap, and after every configured interval of slabs one slab position is skipped and stays inaccessible forever. Slab memory is only made accessible when it is about to be used, one slab at a time, and the class fails with ENOMEM when its range is exhausted.',
 ['histories','configurations'],'every number of slabs already created up to the end of the range, every size class and arena',
 'Tests never create more than a few slabs and never reach the end of a range.',
 [H],[('slab creation','h_malloc.c:alloc_metadata,get_slab')],[('slab counters','slabs created so far','h_malloc.c:struct size_class')],['mprotect calls, returned addresses'])
p('C17','Empty slabs are released and trimming is safe',
 'When a slab becomes empty it is kept accessible only while the total of cached empty slabs of its class stays within the fixed limit, and is otherwise replaced by fresh inaccessible memory; released slabs are reused only after a random delay and in first-in first-out order. malloc_trim releases every cached empty slab, returns 1 exactly when it released something, and never affects live or held-back blocks.',
 ['histories','inputs','fault_sequences'],'every cache fill level and list content within bounds, every random index, kernel refusal at each call',
 'No test frees enough memory to exceed the cache or calls malloc_trim.',
 [H],[('empty slab cache and free slab queue','h_malloc.c:deallocate_small,enqueue_free_slab,h_malloc_trim')],[('empty slab total','cached bytes','h_malloc.c:struct size_class')],['mmap calls, malloc_trim result'])
p('C18','Kernel refusals are handled cleanly',
 'If the kernel refuses memory (ENOMEM) at any point, the affected call fails with NULL and ENOMEM (or completes, when freeing), no live block or its contents is lost, no address range the allocator no longer owns is touched, a call that fails after a single refusal leaves nothing mapped behind, and later operations work normally. Any other error from a memory-management system call terminates the process.',
 ['fault_sequences','histories'],'a refusal at every system call of every operation, and pairs of refusals',
 'Tests never inject kernel failures.',
 [H,'pages.c','memory.c'],[('error handling','pages.c, memory.c, h_malloc.c')],[],['return values, errno, system call log'])
p('C19','All shared state is accessed under its lock',
 'Every access to mutable allocator state that several threads can reach happens while the one lock protecting it is held, on every path of every operation; locks are never acquired recursively or in inconsistent order, and every lock is released when the call returns. First use from several threads at once initializes the allocator exactly once.',
 ['schedules','inputs','histories'],'every path of every public operation from symbolic states, every thread interleaving at lock granularity for pairs of operations within the bounds',
 'Tests are single-threaded.',
 [H,'mutex.h'],[('per-class and region locks','h_malloc.c:mutex_lock/mutex_unlock uses'),('init lock','h_malloc.c:init_slow_path')],[('locks','guards for classes and regions','h_malloc.c:struct size_class, struct region_allocator')],['lock events, memory accesses'])
p('C20','The allocator stays usable across fork',
 'Around fork the parent holds every allocator lock so no other thread is mid-operation, and releases all of them afterwards; the child gets every lock usable again and every random generator reseeded from the operating system, sharing no future random output with the parent. All blocks live at the fork stay valid in the child.',
 ['schedules','histories'],'every lock, arena and size class; every random generator state',
 'No test forks.',
 [H],[('atfork handlers','h_malloc.c:full_lock,full_unlock,post_fork_child')],[],['lock state, generator state'])
p('C21','The random generator is a correct ChaCha8 stream',
 'Random bytes are the ChaCha8 keystream of a key and nonce obtained from the operating system (retrying short and interrupted reads, terminating on failure), with no keystream byte ever handed out twice, no read outside the generated bytes, and a fresh key from the operating system after at most 256 KiB of buffered output. A generator derived from another gets its own key from the other\'s output.',
 ['inputs','histories','fault_sequences'],'every key, nonce and counter, every buffer position and request length, every pattern of short or interrupted seed reads within bounds',
 'No test looks at the generator.',
 ['random.c','chacha.c'],[('keystream','chacha.c:chacha_keystream_bytes'),('buffering and reseeding','random.c')],[('random_state','key stream position and cache','random.h')],['values returned by the generator'])
p('C22','Bounded random choices are in range and unbiased',
 'A random choice among n possibilities always lies in 0..n-1 and every value is exactly equally likely, for every n the allocator uses.',
 ['inputs'],'every 16-bit and 64-bit raw random value and every bound (all 16-bit bounds; 64-bit bounds as stated)',
 'Distribution errors of one part in 65536 or out-of-range results for rare raw values are invisible to tests.',
 ['random.c'],[('Lemire rejection','random.c:get_random_u16_uniform,get_random_u64_uniform')],[],['return values'])
p('C23','Initialization isolates and locks down allocator state',
 'After initialization the global variables of the allocator are read-only, its mutable state lives in its own mapping with inaccessible random-size guards on both sides, the small-allocation region starts fully inaccessible, and each size class of each arena has its own non-overlapping range at a random page-aligned offset inside it, surrounded by unused inaccessible space. Initialization failures terminate the process.',
 ['inputs','fault_sequences','configurations'],'every random value drawn during initialization for a class, every kernel failure during initialization',
 'Tests only run with whatever layout one run draws.',
 [H],[('initialization','h_malloc.c:init_slow_path')],[('ro','read-only pointers to state','h_malloc.c')],['page permissions, layout'])
p('C24','Statistics are exact',
 'With statistics enabled, the reported allocated bytes, mapped slab bytes, allocation and deallocation counts equal the totals implied by the operations performed, for small, large and over-aligned blocks, resizes, trims and failed operations. Statistics never go negative or drift.',
 ['histories','inputs','fault_sequences','configurations'],'every operation from every state, sums over operation sequences within bounds, kernel failures included',
 'The default build has statistics disabled; no test checks numbers.',
 [H],[('counters','h_malloc.c:stats_small_allocate etc.'),('reporting','h_malloc.c:h_mallinfo2,h_malloc_info')],[('counters','bytes and counts','h_malloc.c:struct size_class, struct region_allocator')],['mallinfo2, malloc_info'])
p('C25','free preserves errno and fatal errors are reported',
 'free leaves errno as it found it on every returning path. When the allocator detects a problem it writes the complete message "fatal allocator error: <reason>" to standard error, coping with interrupted and partial writes, and then aborts; it never continues.',
 ['inputs','fault_sequences'],'every errno value, every path through free including kernel refusals, every pattern of short writes within bounds',
 'Tests see complete writes and never compare errno.',
 [H,'util.c'],[('errno saving','h_malloc.c:h_free,deallocate_small'),('fatal_error','util.c')],[],['errno, stderr, abort'])
p('C26','Object size queries are safe upper bounds',
 'malloc_object_size on any pointer into the usable part of a live small block returns exactly the bytes from there to the end of the usable part, on the start of a live large block its size, on an address not managed by the allocator the maximum value, and it aborts on freed or held-back small memory. The lock-free variant returns a value at least as large for every such pointer.',
 ['inputs','histories'],'every offset inside every size class and slot including zero-size, every unmanaged address',
 'Tests query two fixed pointers.',
 [H],[('object size','h_malloc.c:h_malloc_object_size,h_malloc_object_size_fast')],[],['return values'])
p('C27','C++ operators follow the standard allocation protocol',
 'operator new (all forms) returns a non-null block of the requested size and alignment, or on failure calls the installed handler and retries until it succeeds, no handler is installed, or the handler throws; then the throwing forms throw bad_alloc and the nothrow forms return null. Every delete form releases exactly the given block.',
 ['inputs','fault_sequences'],'every size and alignment, every sequence of allocation failures and handler behaviours within bounds',
 'One test covers one delete mismatch.',
 ['new.cc'],[('new and delete','new.cc')],[],['return value, exceptions, handler calls'])
p('C28','Metadata is sealed outside allocator calls',
 'In builds with metadata sealing, write and read access to all mutable allocator state is disabled for the calling thread whenever control returns to the program from a completed allocator call, and is enabled whenever the allocator itself touches that state. All mutable state pages carry the protection key.',
 ['inputs','histories','fault_sequences','configurations'],'every returning path of every public operation, including failures',
 'Sealing is off in the tested build.',
 [H,'memory.c'],[('sealing','h_malloc.c:thread_seal_metadata,thread_unseal_metadata'),('key on pages','memory.c:memory_protect_rw_metadata')],[],['protection key register, pkey_mprotect calls'])
p('C29','Memory tags separate neighbours and freed memory',
 'With memory tagging enabled every new small block gets a non-reserved tag that differs from the current or latest tags of both neighbouring slots and from the previous tag of its own slot, its memory is cleared and tagged over exactly its slot, and on free the slot gets the reserved tag. Pointers with tags are accepted by free, realloc and the size queries as the block they belong to.',
 ['inputs','histories','configurations'],'every pattern of stored tags, every slot, every size class',
 'Needs hardware not available to the tests; the device test samples random sequences.',
 [H,'memtag.h','util.h'],[('tag selection','h_malloc.c:tag_and_clear_slab_slot'),('tag storage','util.h:u4_arr_get,u4_arr_set')],[],['tags of returned pointers'])
p('C30','Random placement covers its whole documented range',
 'Every free slot of the slab in use can be chosen by slot randomization, every guard size between one page and the documented maximum can occur, every position of the random quarantine arrays can be drawn, and every page-aligned offset of a class region is possible. No choice is fixed or predictable from earlier ones.',
 ['inputs','configurations'],'every target outcome: the solver must find random bytes producing it',
 'Tests do not look at the distribution of choices.',
 [H,'random.c'],[('slot choice','h_malloc.c:get_free_slot'),('guard size','h_malloc.c:get_guard_size'),('quarantine index','h_malloc.c:deallocate_small,regions_quarantine_deallocate_pages')],[],['returned addresses'])
p('C31','Threads use their own arena and free to the owner',
 'Each thread is assigned an arena in range on first use, round-robin over all arenas (the round may start over when the 32-bit count of threads wraps around), and keeps it; all its small allocations come from that arena. Freeing or resizing a block from any thread returns it to the arena it came from.',
 ['schedules','inputs','configurations'],'every value of the assignment counter including wrap-around, every combination of calling thread arena and owning arena',
 'Tests use one thread.',
 [H],[('arena assignment','h_malloc.c:init'),('arena from address','h_malloc.c:slab_size_class')],[('thread arena','arena of this thread','h_malloc.c')],['returned addresses'])
p('C32','Sized deallocation detects every mismatched size',
 'Sized free (and sized delete) accepts a live block exactly when the given size leads to the same size class as the block, and terminates the process for every other size, for small, zero-size and large blocks. The block is released once when accepted.',
 ['inputs','histories'],'every 64-bit expected size against every block size class',
 'One test tries one mismatch.',
 [H,'new.cc'],[('expected size check','h_malloc.c:h_free_sized,deallocate_small,deallocate_large')],[],['fatal error or success'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
