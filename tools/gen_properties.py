#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so the list stays readable)"""
import json, os
P = []
A = "cocotbext/axi/"


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[A+f for f in files],
                          mechanism=[dict(name=n, where=A+w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=A+w) for n, m, w in state]
    P.append(d)


prop("C01", "AXI master writes place every byte exactly where asked",
     "For any address, data, beat size and data-bus width, the incrementing-burst write transfers an AXI master issues set the byte strobe of a lane exactly for the bytes of the requested range, and each strobed lane carries the data byte that belongs to that address. No byte is written twice, none is missed, and no byte outside the range is strobed.",
     ["inputs", "configurations"], "every start address, non-empty data length and content, legal beat size, bus width from 1 to 128 bytes and maximum burst length",
     "The tests sweep a handful of offsets and lengths at fixed bus widths through a RAM that would hide equivalent re-writes; the quantifier is over all addresses, lengths, sizes and widths.",
     ["axi_master.py"], [("beat/strobe/lane computation", "axi_master.py: AxiMasterWrite._process_write"), ("command construction", "axi_master.py: AxiMasterWrite.write, init_write")],
     ["write address and write data channels of the bus"])
prop("C02", "AXI master bursts are legal and tile the requested range",
     "Every incrementing read or write burst issued by an AXI master has between 1 and min(256, configured maximum) beats, never crosses a 4096-byte boundary, carries the requested ID, beat size, burst type and attributes, and is announced in ascending address order. Together the bursts of one operation cover exactly the beats spanned by the requested range, and on the write side the number of data beats equals the announced length with the last flag on exactly the final beat of each burst.",
     ["inputs", "configurations"], "every address, length, beat size, bus width, burst-length limit and attribute value",
     "Tests read back memory contents; they never look at burst boundaries, 4K crossings or the last flag for arbitrary address, size and limit combinations.",
     ["axi_master.py"], [("write burst splitting", "axi_master.py: AxiMasterWrite._process_write"), ("read burst splitting", "axi_master.py: AxiMasterRead._process_read")],
     ["address and data channels of the bus"])
prop("C03", "AXI master reads return exactly the bytes of the requested range",
     "For any address, length, beat size and bus width, the data an AXI master read returns has exactly the requested length and its i-th byte is the byte that the slave presented for address+i on the lane of that address. The reported address is the requested one.",
     ["inputs", "configurations"], "every address, length, legal beat size, bus width, burst limit and slave data",
     "Only sampled offsets and lengths are exercised by tests; off-by-one errors at particular alignments, burst seams or widths pass them.",
     ["axi_master.py"], [("lane extraction", "axi_master.py: AxiMasterRead._process_read_resp_id"), ("burst bookkeeping", "axi_master.py: AxiMasterRead._process_read")],
     ["result of a read operation"])
prop("C04", "AXI responses are matched by ID and errors and user bits aggregated",
     "Under any interleaving of response beats across IDs, each AXI master operation completes exactly once, with exactly the responses belonging to its own bursts, and operations sharing an ID complete in issue order. The reported response is OKAY (or EXOKAY) only if no burst or beat reported an error, and an error otherwise; the user values returned are exactly the ones received for that operation, in order.",
     ["histories", "schedules", "inputs"], "every sequence of operations on any mix of IDs and every order of response beats the protocol allows",
     "The test slaves answer in order with OKAY, so re-ordering across IDs, error responses and user signals are never exercised.",
     ["axi_master.py"], [("per-ID response queues", "axi_master.py: TagContext, TagContextManager"), ("response dispatch", "axi_master.py: AxiMasterWrite._process_write_resp, AxiMasterRead._process_read_resp"), ("aggregation", "axi_master.py: AxiMasterWrite._process_write_resp_id, AxiMasterRead._process_read_resp_id")],
     ["result of read and write operations"],
     [("per-ID context", "outstanding commands and received responses of one ID", "axi_master.py: TagContext")])
prop("C05", "AXI-Lite master splits transfers into correct word accesses",
     "An AXI-Lite master write of any data to any address issues one access per bus word of the range, in ascending order (the first at the requested address, the others word-aligned), strobing exactly the bytes of the range with the right data; a read issues one access per word in the same way and returns exactly the requested bytes. The requested protection attribute is used on every access and the result is an error (SLVERR or DECERR) if any access returned one, OKAY otherwise.",
     ["inputs", "configurations"], "every address, length, data, bus width and sequence of per-access responses",
     "Tests sample offsets at one bus width against an always-OKAY RAM.",
     ["axil_master.py"], [("write splitting", "axil_master.py: AxiLiteMasterWrite._process_write"), ("write response", "axil_master.py: AxiLiteMasterWrite._process_write_resp"), ("read", "axil_master.py: AxiLiteMasterRead._process_read, _process_read_resp")],
     ["AXI-Lite channels and operation results"])
prop("C06", "APB master transfers follow the protocol and move the right bytes",
     "For any read or write, an APB master issues one transfer per bus word of the range in ascending order (the first at the requested address, the others word-aligned), each with a one-cycle setup phase followed by an access phase held until ready, during which select, address, direction, write data, strobes and protection stay stable; write strobes and data cover exactly the requested bytes and are zero strobes on reads. Reads return exactly the requested bytes and an error response on any transfer makes the operation's result an error.",
     ["inputs", "configurations", "schedules"], "every address, length, data, bus width, wait-state pattern and per-transfer error",
     "The tests use one bus width with a well-behaved slave and compare memory contents, so phase timing, stability under wait states and error aggregation are not observed.",
     ["apb.py"], [("transfer engine", "apb.py: ApbMaster._run")], ["APB signals and operation results"])
prop("C07", "AXI slave applies each write burst to its target exactly once",
     "For every write burst an AXI slave accepts, of type fixed, incrementing or wrapping and any legal size and length, every strobed byte of every beat is written to the target at the address the AXI protocol assigns to that lane and beat, in beat order, and unstrobed bytes are never written. Exactly one response with the burst's ID follows the last beat: OKAY if all target writes succeeded and SLVERR if any failed (the rest of a beat after a failing access may be skipped), and a failing access never stops later beats or bursts from being served.",
     ["inputs", "configurations", "fault_sequences"], "every burst address, length, size, type, strobe pattern, data, bus width and set of failing target accesses",
     "The tests drive the slave only through this package's own master, which never issues wrapping or fixed bursts with sparse strobes, and with targets that never fail.",
     ["axi_slave.py"], [("write burst engine", "axi_slave.py: AxiSlaveWrite._process_write"), ("strobe segmentation", "axi_slave.py: AxiSlaveWrite._process_write")], ["target writes and write responses"])
prop("C08", "AXI slave returns the right data, beat count and ID for each read burst",
     "For every read burst an AXI slave accepts, of type fixed, incrementing or wrapping, it returns exactly length+1 beats with the burst's ID, the last flag on the final beat only, and each beat carries on the lanes of the addressed container the bytes the target holds at the addresses the protocol assigns to that beat. A failing target read yields SLVERR on that beat and does not stop the burst or later bursts.",
     ["inputs", "configurations", "fault_sequences"], "every burst address, length, size, type, bus width, target content and set of failing target accesses",
     "The tests read incrementing bursts from this package's own master only, and the target never fails.",
     ["axi_slave.py"], [("read burst engine", "axi_slave.py: AxiSlaveRead._process_read")], ["target reads and read data channel"])
prop("C09", "AXI-Lite slave performs and answers every access exactly once",
     "For every write an AXI-Lite slave accepts, it writes exactly the strobed bytes to the target at the addresses of their lanes in the word containing the given address, whatever the strobe pattern, and answers once; for every read it returns the word containing the given address. The response is OKAY if the target accesses succeeded and SLVERR if one failed (the rest of that word may then be skipped), and later accesses are still served.",
     ["inputs", "configurations", "fault_sequences"], "every address, data, strobe pattern, bus width and set of failing target accesses",
     "Tests drive contiguous strobes from this package's own master and targets that never fail.",
     ["axil_slave.py"], [("write", "axil_slave.py: AxiLiteSlaveWrite._process_write"), ("read", "axil_slave.py: AxiLiteSlaveRead._process_read")], ["target accesses and response channels"])
prop("C10", "APB slave answers each transfer once with the right effect",
     "For every APB transfer addressed to it, an APB slave raises ready for exactly one cycle of the access phase; a write stores exactly the strobed bytes at the lanes' addresses in the target, a read returns the target's word for the given address, and the error signal is raised with ready exactly when a target access failed (the rest of that word may then be skipped). A transfer that arrives while it is paused waits with ready low until it is resumed, and is neither lost nor performed twice.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "every address, data, strobe pattern, bus width, pause pattern and failing target access",
     "The tests use the package's own master with full strobes and a target that never fails.",
     ["apb.py"], [("transfer engine", "apb.py: ApbSlave._run")], ["APB signals and target accesses"])
prop("C11", "Sparse memory behaves as one flat byte array",
     "After any sequence of reads and writes, each byte of a sparse memory holds the last value written to it and zero if never written, and a read of any in-range span, including spans crossing internal page boundaries, returns exactly those bytes. Accesses outside the declared size raise an error and change nothing.",
     ["histories", "inputs"], "every sequence of in-range and out-of-range reads and writes of any address and length",
     "Tests touch a few small addresses of ordinary memory; page-crossing and high addresses in arbitrary histories are not covered.",
     ["sparse_memory.py"], [("read", "sparse_memory.py: SparseMemory.read"), ("write", "sparse_memory.py: SparseMemory.write"), ("item access", "sparse_memory.py: SparseMemory.__getitem__, __setitem__")], ["returned bytes"])
prop("C12", "RAM models are byte-exact with endian-correct word accessors",
     "A RAM model of any size stores written bytes and returns them on reads, and nothing else in it changes; addresses presented on a bus wrap modulo its size. Byte, word, dword, qword and arbitrary word-size accessors write and read the given integers at consecutive addresses in the requested byte order, so that reading back returns what was written, and the default constructor arguments give a working memory.",
     ["inputs", "histories", "configurations"], "every size, address, length, data, word size and byte order",
     "Tests use power-of-two sizes and in-range accesses with a few word sizes.",
     ["memory.py", "axi_ram.py", "axil_ram.py", "apb.py"], [("raw access and wrapping", "memory.py: Memory.read, write"), ("word accessors", "memory.py: Memory.write_words, read_words")], ["returned bytes"])
prop("C13", "Memory windows and regions translate, bound and convert accesses correctly",
     "An access through a region or a (nested) window reaches its parent at window base plus offset with unchanged data, and one that is negative or extends past the end of the window raises an error without touching anything. Integer and word accessors move the right values in the requested byte order, whatever bytes-like type the backing store returns.",
     ["inputs", "configurations"], "every offset, length, window base and size, nesting, word size and byte order",
     "Tests use small fixed windows, so boundary offsets, nesting and every word size are not covered.",
     ["address_space.py"], [("bounds and accessors", "address_space.py: MemoryInterface"), ("translation", "address_space.py: Window, WindowPool"), ("backing stores", "address_space.py: MemoryRegion, SparseMemoryRegion, PeripheralRegion")], ["returned data and parent accesses"])
prop("C14", "Address space routes every byte to exactly one region",
     "A read or write of any span of an address space reaches, for each byte, exactly the region registered at that address, at the region-relative (or untranslated, if so registered) offset, once and in order, and results are joined in address order. A span touching unmapped addresses raises an error, and registering a region that overlaps an existing one is rejected and leaves the map unchanged.",
     ["inputs", "histories"], "every set of registrations, any order, and every span, including spans crossing several regions",
     "Tests register a few regions and never straddle or abut them in every way.",
     ["address_space.py"], [("registration", "address_space.py: AddressSpace.register_region"), ("lookup", "address_space.py: AddressSpace.find_regions"), ("dispatch", "address_space.py: AddressSpace._read, _write"), ("leaf device", "address_space.py: PeripheralRegion")], ["region accesses and results"])
prop("C15", "Buddy allocator blocks are in range, aligned and disjoint",
     "Every block handed out lies inside the managed range, is at least as large as requested, is aligned to its size, and overlaps no other live block, after any history of allocations and frees. Freed space can be allocated again, freeing everything makes the whole range available again, and freeing an address that is not a live block raises an error and changes nothing.",
     ["histories", "inputs"], "every managed size, minimum block size and sequence of allocations and frees",
     "There is no test of allocation histories; coalescing mistakes show only after specific orders of frees.",
     ["buddy_allocator.py"], [("split on alloc", "buddy_allocator.py: BuddyAllocator.alloc"), ("merge on free", "buddy_allocator.py: BuddyAllocator.free")], ["returned addresses"],
     [("free lists", "free blocks by size class", "buddy_allocator.py: BuddyAllocator.free_lists")])
prop("C16", "Pools hand out usable, isolated regions and windows",
     "A region, window or sub-pool allocated from a pool has at least the requested size, lies entirely inside the pool, does not overlap any other live allocation of that pool, and gives access to exactly its own part of the parent. Allocation that does not fit raises an error and leaves the pool and address map unchanged.",
     ["histories", "inputs"], "every pool size and sequence of allocations",
     "Tests allocate one or two regions from an empty pool.",
     ["address_space.py", "buddy_allocator.py"], [("window pools", "address_space.py: WindowPool"), ("address pools", "address_space.py: Pool"), ("allocator", "buddy_allocator.py: BuddyAllocator")], ["allocated objects and accesses through them"])
prop("C17", "AXI stream frames keep data and side-band lists consistent",
     "Building, copying, normalizing and compacting an AXI stream frame never changes the data nor the byte-to-side-band correspondence: after normalizing, every side-band list has one entry per data byte (shorter lists extended with their last value, scalars replicated, missing ones defaulted), and compacting drops bytes not marked in the keep list and collapses a constant side-band list to a single value. Two frames compare equal exactly when their data and explicitly given side-bands agree.",
     ["inputs"], "every data, keep, id, destination and user value, list or scalar, of every length",
     "Tests use frames with scalar side-bands and full keep lists.",
     ["axis.py"], [("frame helpers", "axis.py: AxiStreamFrame.__init__, normalize, compact, __eq__")], ["frame contents"])
prop("C18", "AXI stream source serialises frames exactly",
     "For any frame and any bus width and byte-lane configuration, the beats an AXI stream source sends carry the frame's bytes and their keep, id, destination and user values in order with no gaps or duplicates, the last flag is set on exactly the final beat of each frame, unused lanes of the final beat are marked not kept, and frames never share a beat. Frames are sent in the order they were queued, and a frame's transmit-complete notification fires once, after its last beat was put on the bus.",
     ["inputs", "configurations", "histories"], "every sequence of non-empty frames, bus width, byte-lane count and side-band presence",
     "Tests use one bus width with scalar side-bands.",
     ["axis.py"], [("serialiser", "axis.py: AxiStreamSource._run")], ["stream signals"])
prop("C19", "AXI stream sinks and monitors reassemble frames exactly",
     "For any sequence of beats transferred on the bus, a sink or monitor delivers one frame per last flag (or one per beat when there is no last signal) whose data and per-byte keep, id, destination and user values are exactly the transferred ones in order, with bytes marked not kept removed when compaction is on. A partial frame is never delivered and bytes never move between frames.",
     ["inputs", "configurations", "histories"], "every beat sequence, bus width, byte-lane count, side-band presence and idle pattern",
     "Tests feed only streams produced by this package's source, without partially kept middle beats.",
     ["axis.py"], [("reassembly", "axis.py: AxiStreamMonitor._run, AxiStreamSink._run")], ["received frames"])
prop("C20", "Sources keep the valid/payload handshake stable and lose nothing",
     "Once a source (of any AXI, AXI-Lite or stream channel) asserts valid, valid and the whole payload stay unchanged until a clock edge at which ready is high; every queued item is transferred exactly once and in order. While paused no new transfer starts, but one already offered is not withdrawn, and valid is low whenever there is nothing to send.",
     ["schedules", "histories"], "every pattern of ready, pausing, queueing and idling",
     "Tests randomise a few ready/pause patterns and only compare the data that arrives.",
     ["stream.py", "axis.py"], [("channel source", "stream.py: StreamSource._run"), ("stream source", "axis.py: AxiStreamSource._run")], ["channel signals at clock edges"])
prop("C21", "Sinks and monitors capture each transfer once and honour backpressure",
     "A sink or monitor records exactly the transfers that happen, one item per clock edge with both valid and ready high, in order and with the sampled payload, whatever the gaps between them. A sink holds ready low from the cycle after it is paused or its queue reaches the occupancy limit until it is resumed or drained, and then accepts transfers again.",
     ["schedules", "histories"], "every pattern of valid, pausing, occupancy limit, reading and clearing",
     "Tests never combine occupancy limits, pausing, clearing and idle gaps.",
     ["stream.py", "axis.py"], [("channel monitor/sink", "stream.py: StreamMonitor._run, StreamSink._run"), ("stream monitor/sink", "axis.py: AxiStreamMonitor._run, AxiStreamSink._run")], ["channel signals and received items"])
prop("C22", "Reset cancels in-flight operations cleanly",
     "When reset is asserted, every in-flight or queued operation of a master is completed with an empty result (its waiter is released), bus valid/ready/select outputs go inactive, and nothing of the cancelled operations appears on the bus or in later results. Operations that had already completed keep their result, and after reset is released new operations work normally.",
     ["crash_points", "histories"], "reset asserted at any point of any history of operations, repeatedly",
     "Only one or two tests reset at a fixed moment between operations.",
     ["axi_master.py", "axil_master.py", "apb.py", "axi_slave.py", "axil_slave.py", "stream.py", "axis.py"], [("flush", "axi_master.py: AxiMasterWrite._handle_reset, AxiMasterRead._handle_reset, TagContext._flush, TagContextManager._flush"), ("flush", "axil_master.py: AxiLiteMasterWrite._handle_reset, AxiLiteMasterRead._handle_reset"), ("flush", "apb.py: ApbMaster._handle_reset, ApbSlave._handle_reset"), ("channel reset", "stream.py: StreamBase._handle_reset"), ("stream reset", "axis.py: AxiStreamBase._handle_reset")], ["operation results and bus signals"])
prop("C23", "Masters report idle exactly when nothing is outstanding",
     "A master reports idle exactly when every operation issued so far has completed or been cancelled by a reset, and waiting for idle returns only then. This holds per direction and for the combined interface.",
     ["histories", "schedules"], "every history of concurrent operations, completions and resets",
     "Tests wait on individual operations and never compare the idle state with the set of outstanding ones.",
     ["axi_master.py", "axil_master.py", "apb.py"], [("in-flight count", "axi_master.py: AxiMasterWrite.init_write, _process_write_resp_id, idle, wait"), ("in-flight count", "axil_master.py: AxiLiteMasterWrite, AxiLiteMasterRead"), ("in-flight count", "apb.py: ApbMaster")], ["idle query and wait"])
prop("C24", "Invalid requests are rejected before anything happens",
     "A master request with an out-of-range address, ID, beat size, attribute or user value, or one the bus cannot express, raises an error and has no effect: nothing is queued, nothing appears on the bus and the idle state is unchanged. Blocking, non-blocking and word-accessor forms of a request pass all arguments unchanged to the same operation, and every valid request is accepted.",
     ["inputs", "configurations"], "every argument combination and bus configuration",
     "Tests issue valid requests only.",
     ["axi_master.py", "axil_master.py", "apb.py"], [("argument checks", "axi_master.py: AxiMasterWrite.init_write, write; AxiMasterRead.init_read, read"), ("argument checks", "axil_master.py: init_write, write, init_read, read"), ("forwarding", "axi_master.py: AxiMaster")], ["exceptions and bus traffic"])
prop("C25", "Hex dumps show exactly the requested bytes",
     "A hex dump of any start, length and row size shows every byte of the requested range, clipped to the data, exactly once and in order, as two hex digits with the printable-character rendering beside it, each row labelled with the address of its first byte and the optional prefix.",
     ["inputs"], "every data, start, length, row size, prefix and offset",
     "There are no tests of the dump helpers' contents.",
     ["utils.py", "memory.py", "sparse_memory.py", "address_space.py"], [("formatting", "utils.py: hexdump_line, hexdump, hexdump_lines, hexdump_str"), ("wrappers", "memory.py: Memory.hexdump, hexdump_lines, hexdump_str")], ["printed or returned text"])
prop("C26", "AXI stream occupancy accounting matches the queued frames",
     "At every moment the byte and frame occupancy an AXI stream endpoint reports equals the total size and number of the frames waiting in it, through sending, receiving, clearing and reset. With occupancy limits set, a full source blocks or refuses further frames and a sink withholds ready, and both accept again once drained.",
     ["histories", "schedules"], "every history of sends, receives, clears and resets with any limits",
     "Tests never query occupancy across interleaved operations.",
     ["axis.py"], [("accounting", "axis.py: AxiStreamBase, AxiStreamSource, AxiStreamMonitor, AxiStreamSink")], ["occupancy queries and blocking behaviour"],
     [("occupancy counters", "bytes and frames waiting", "axis.py: AxiStreamBase.queue_occupancy_bytes, queue_occupancy_frames")])
prop("C27", "Reset state is the combination of external and local reset",
     "A component is in reset exactly while the external reset signal is at its active level or the local reset is asserted, for either polarity, and each change of that combined state is acted on exactly once, in order. Undefined levels of the reset signal are ignored.",
     ["histories", "configurations"], "every sequence of external edges and local assertions and either polarity",
     "Tests use one polarity and never mix local and external reset.",
     ["reset.py"], [("reset tracking", "reset.py: Reset._init_reset, assert_reset, _update_reset, _run_reset")], ["reset handling callbacks"])
prop("C28", "Every accepted operation eventually completes",
     "If the other side of the bus keeps accepting and answering transfers, every operation accepted by a master, slave, source or sink eventually completes.",
     ["schedules", "histories"], "every fair schedule of the surrounding bus",
     "Liveness over all fair schedules cannot be settled by finite runs.",
     ["axi_master.py", "axil_master.py", "apb.py", "axi_slave.py", "axil_slave.py", "stream.py", "axis.py"], [("process loops", "stream.py: StreamSource._run, StreamSink._run")], ["completion of operations"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d)+"\n")
print(len(P))
