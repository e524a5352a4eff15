# generates properties.jsonl (kept as the single source for wording)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":[{"input":"inputs","history":"histories","schedule":"schedules","fault":"fault_sequences"}[o] for o in over],"text":text},"why_tests_cant":why,"anchors":a})
CA="src/cachelot/cache.h"; HT="src/cachelot/hash_table.h"; DI="src/cachelot/dict.h"; MA="src/cachelot/memalloc-inl.h"; IT="src/cachelot/item.h"
SC="src/cachelot/string_conv.h"; IL="src/cachelot/intrusive_list.h"; EC="src/cachelot/expiration_clock.h"; SL="src/cachelot/slice.h"; IO="src/server/io_buffer.h"; PA="src/server/memcached/proto_ascii.cpp"
p("C01","The key index is an exact map, also while it is being resized",
 "Looking up a key yields exactly the item most recently stored under that key (and nothing if there is none or it was removed), for every sequence of insertions, lookups and removals. This holds for every table size, every pattern of hash collisions (including any 32-bit hash value) and at every intermediate step of incremental growth, and no operation on one key changes what any other key maps to.",
 ["input","history"],"all operation sequences, keys, 32-bit hashes, power-of-two capacities and rehash progress points",
 "probe chains, wrap-around, backward shifts and partially migrated tables form an unbounded state space; tests sample a few keys with well spread hashes",
 [HT,DI,"src/cachelot/bits.h"],[("open addressing lookup/insert/remove",HT+": entry_for, insert, remove, put, del, get, contains, remove_if, clear"),("incremental growth",DI+": entry_for, search_primary, search_secondary, rehash_some, begin_expand, end_expand, del, remove, insert, remove_if")],
 "result of get/contains/entry_for on any key")
p("C02","get/set/add/replace/delete obey cache semantics and consume the item once",
 "set always makes the new item the one found under its key; add stores only if the key has no live item, replace only if it has one, delete removes exactly that key; the returned status says which happened and every other key keeps its item. The item handed to a storage command is either linked into the cache or its memory released, never both and never neither, and a replaced or deleted item is released exactly once.",
 ["input","history"],"all keys, items, prior cache contents and outcomes (found, missing, expired, allocation failure while growing the index)",
 "outcome depends on prior state and on failure paths that tests never reach; leaks and double releases do not show in return values",
 [CA],[("command bodies",CA+": do_get, do_set, do_add, do_replace, do_delete, retrieve_item, insert_item_at, replace_item_at, destroy_item, ItemAutoDelete")],"command return values, subsequent get, allocator accounting")
p("C03","An item returns its key, value, flags, hash and version byte for byte",
 "An item built from a key, value, flags, hash, time-to-live and version gives back exactly those, for every key of 1 to 250 bytes and every value length that fits, and the memory size computed for it beforehand covers everything it ever writes. Assigning a value, or composing it from two parts, changes nothing but the value.",
 ["input"],"all key/value contents and lengths, flags, hashes, versions",
 "layout arithmetic must be right for every length and byte content; a test checks a few",
 [IT,SL],[("item layout",IT+": Item::Item, key, value, assign_value, assign_compose, CalcSizeRequired, KeyOffset, ValueOffset")],"accessors of the item")
p("C04","Live allocations are disjoint, aligned, big enough and never touched",
 "Every block handed out lies inside the configured memory and inside one page, is pointer-aligned, has at least the requested size and overlaps no other live block. No allocator operation (allocate, release, grow or shrink in place, evict) writes to the bytes of a live block other than the ones it is releasing.",
 ["input","history"],"all request sizes, page sizes, memory limits and all reachable heap layouts",
 "fragmentation layouts are unbounded; an overlap corrupts a neighbour silently and only for particular layouts and sizes",
 [MA,"src/cachelot/memalloc.h","src/cachelot/bits.h",IL],[("split/merge/checkout and size classes",MA+": block::split, block::merge, checkout, merge_free_left, merge_free_right, try_get_block, put_block, position_from_size, next_non_empty, alloc_or_evict, realloc_inplace, free, constructor")],"returned addresses, block headers")
p("C05","Released memory is always reusable and memory accounting is exact",
 "At every moment the blocks of each page tile it exactly, each free block is findable by the allocator, a released block is merged with free neighbours of its page, and used-memory accounting equals the total of live blocks. A request fails (with evictions off) only if there is no free block at least one size class larger than the request needs, and a failed allocation or failed in-place growth leaves the live blocks as they were.",
 ["input","history"],"all request sizes and reachable heap layouts",
 "lost blocks and drifting counters only show after long histories",
 [MA,"src/cachelot/stats.h"],[("free/merge/realloc",MA+": free, merge_free, realloc_inplace, checkout, try_get_block, alloc_or_evict")],"block chain of each page, free lists, used_memory statistic")
p("C06","Eviction happens only when needed and removes exactly one page's items",
 "Items are evicted only if evictions are enabled and there is no free block at least one size class larger than the request needs; then exactly the live items of one page are evicted, each is reported to the eviction callback exactly once and is no longer found afterwards, and all items on other pages remain. With evictions disabled the request is refused with an out-of-memory error and nothing changes.",
 ["input","history"],"all memory layouts, item sizes and index states at the moment of eviction",
 "needs a full arena with particular page contents, index states (including growth in progress) at eviction time",
 [MA,CA,DI],[("evict page",MA+": alloc_or_evict, pages::page_to_reuse"),("unlink evicted items",CA+": create_item on_delete, do_arithmetic")],"eviction callback, subsequent get")
p("C07","The page recycled by eviction is the least favoured in the recency order",
 "The pages form one total recency order containing every page exactly once; touching an item moves only its page, one step towards the front; the victim page is always the last in the order and becomes the first. A page that was just touched is never the next victim.",
 ["input","history"],"all touch/evict sequences, any number of pages (at least four) and any arena size",
 "pointer surgery on a circular list must be right for every position and neighbourhood, and the address-to-page computation for every arena size",
 [IL,MA],[("list operations",IL+": push_front, push_back, unlink, move_front, pop_front, pop_back"),("pages",MA+": pages::touch, page_to_reuse, page_no_from_addr")],"order of the page list, victim choice")
p("C08","Expired items are never served; unexpired ones never expire early",
 "An item with a finite time-to-live of s seconds stored or touched at time t is served at every time before t+s and never at or after it; an infinite time-to-live never expires, whatever the clock value (clock readings below its representable maximum; a deadline beyond the range of the clock never expires; time-to-live 0 means infinite). Commands that rewrite an item (counters, append, prepend) keep its deadline, touch replaces it, and flush removes expired items only.",
 ["input","schedule"],"all 32-bit clock values, all time-to-live values, clock ticks between any two steps",
 "boundary instants, wrap-around of the seconds counter and ticks between two clock reads cannot be produced by wall-clock tests",
 [IT,EC,CA],[("deadline arithmetic",IT+": set_ttl, ttl, is_expired"),("expiry on access",CA+": retrieve_item, do_touch, do_flush_all, do_arithmetic, do_extend")],"get results over time")
p("C09","Versions are never reused and compare-and-swap stores only on a match",
 "Every item created or rewritten gets a version greater than all earlier ones, and it stays constant while the item is stored. Compare-and-swap replaces the item if and only if the key has a live item whose version equals the given one; otherwise nothing changes and the result distinguishes missing from modified.",
 ["input","history"],"all histories of writes and all 64-bit version arguments",
 "needs every interleaving of writers between gets and cas",
 [CA,IT],[("versions",CA+": create_item, do_extend, do_cas")],"cas result, version reported by gets")
p("C10","Counters: incr and decr are exact, saturating and keep item attributes",
 "For a stored decimal value v and delta d, incr stores and returns min(v+d, 2^64-1) and decr stores and returns max(v-d, 0), as plain decimal text without leading zeros; key, flags and expiration stay as they were and other keys are unaffected. A missing key or non-numeric value changes nothing.",
 ["input","history"],"all 64-bit values and deltas, all cache states including one where making room evicts items",
 "two 64-bit operands and allocation side effects cannot be enumerated",
 [CA,SC],[("arithmetic",CA+": do_arithmetic, create_item, replace_item_at"),("text conversion",SC)],"returned number, subsequent get")
p("C11","append and prepend concatenate exactly, or change nothing",
 "For an existing key, append makes the value old followed by new bytes and prepend new followed by old, keeping key, flags and expiration, for all lengths that fit a page; for a missing key nothing is stored. If the result cannot be stored an error is raised and the old item stays intact.",
 ["input","history"],"all value lengths and contents, all memory states",
 "size limits and memory exhaustion at the exact boundary are not sampled",
 [CA,IT],[("extend",CA+": do_extend"),("compose",IT+": assign_compose")],"subsequent get")
p("C12","Decimal conversions are exact and total for all integer widths",
 "Formatting an integer of any supported width produces its canonical decimal text (minus sign, no leading zeros) of the reported length, within the documented maximum; parsing accepts exactly the texts of 1 to 20 decimal digits (after an optional minus sign for signed types) whose value fits the type, yields that value, and otherwise reports an error. Parsing the formatted text gives the number back.",
 ["input"],"all values of 8, 16, 32 and 64 bit signed and unsigned types and all byte strings",
 "2^64 values and unbounded strings",
 [SC],[("formatting",SC+": int_to_str_impl::convert"),("parsing",SC+": str_to_big_unsigned, str_to_big_signed, str_to_unsigned, str_to_signed")],"return values")
p("C13","The I/O buffer is a bounded FIFO that never corrupts or loses bytes",
 "Bytes are read in the order written, each exactly once, across growth, compaction and rollback; read position never passes write position, which never passes capacity, which never exceeds the configured maximum. A write is granted only with enough room or refused with an error leaving the contents intact, and rollback restores exactly the state at the savepoint.",
 ["input","history"],"all sequences of operations, sizes and contents",
 "sequences of partial reads, growth and compaction are unbounded",
 [IO,SL],[("buffer",IO+": ensure_capacity, capacity_advice, begin_write, confirm_write, begin_read, confirm_read, compact, try_read_until, rollback_read_transaction, rollback_write_transaction, reset, read_all")],"bytes read back")
p("C14","Requests are parsed and dispatched exactly as the memcached text protocol says",
 "Each command name maps to its own operation and any other word is rejected; keys, flags, expiration, length, version and delta reach the cache operation unchanged and in the right role. Over-long or missing keys, malformed numbers, oversized values, missing line ends and unexpected trailing words are rejected with an error reply and without any effect on the cache.",
 ["input"],"all request byte strings",
 "the input space is all byte strings; tests send a few well-formed and malformed requests",
 [PA,"src/server/memcached/memcached.h","src/server/memcached/memcached.cpp",SL],[("parser and dispatch",PA+": handle_received_data, parse_command_name, parse_key, maybe_noreply, handle_*_command")],"calls on the cache, reply bytes")
p("C15","Every request gets exactly one well-formed reply, or none with noreply",
 "The reply to each request is the protocol text for its actual outcome, correctly framed by line ends, with value replies carrying the item's key, flags, length, bytes (and version for gets) and a final END; an error replaces any partial output. With noreply a successful command produces no reply bytes at all.",
 ["input","history"],"all commands, outcomes, item contents and buffer fill levels",
 "combinations of outcome, noreply and partially written output",
 [PA,"src/server/memcached/proto_defs.h",IO],[("reply writers",PA+": reply_with_response, handle_retrieval_command, handle_arithmetic_command, handle_received_data catch clauses, operator<<")],"bytes in the send buffer")
p("C16","A request split across packets is never lost, duplicated or half executed",
 "While a request is incomplete (line or data block not fully received) nothing is executed or replied and no received byte is lost, so processing resumes with the complete request whatever the packet boundaries. A complete well-formed request consumes exactly its own bytes, leaving following bytes untouched.",
 ["input","schedule"],"all requests and all ways of splitting them",
 "split points multiply with request contents",
 [PA,IO],[("transaction on receive buffer",PA+": handle_received_data, handle_storage_command"),("savepoints",IO)],"receive buffer position and cache state")
p("C17","UDP frame header is validated and echoed",
 "A datagram is processed only if it carries a complete 8-byte frame header describing a single-packet message (sequence number 0, at most one packet) with the reserved field zero; the reply then starts with the very same 8 bytes. Any other datagram has no effect on the cache, and a datagram that calls for no reply leaves the send buffer as it was.",
 ["input"],"all datagram contents",
 "2^64 headers",
 ["src/server/memcached/conversation.h"],[("frame header","src/server/memcached/conversation.h: UdpServer::handle_data, handle_udp_frame_header")],"send buffer")
p("C18","The C interface never lets an exception escape and reports errors faithfully",
 "Every C function that can fail returns its documented failure value and fills the error structure (terminated description, code, category) on failure, and on success returns the cache operation's result and leaves an error structure that says no error. A null error pointer is always accepted and no C++ exception crosses the interface.",
 ["input","fault"],"all outcomes of the underlying cache operations, including every exception type",
 "failure outcomes of each function are hardly reachable from tests",
 ["src/cachelot/c_api.cpp","src/cachelot/c_api.h"],[("wrappers","src/cachelot/c_api.cpp: cachelot_*, none_error, *_to_err_struct")],"return value and error structure")
p("C19","Statistics counters match what happened",
 "Each cache command increments its own command counter once and exactly one of its outcome counters, matching the outcome returned; the item count published equals the number of stored entries. Allocator counters of allocations, frees, evictions and used memory match the operations performed.",
 ["history"],"all commands and outcomes",
 "counters on rare paths are not looked at by tests",
 [CA,"src/cachelot/stats.h",MA],[("counters",CA+": STAT_INCR sites"),("publish",CA+": publish_stats")],"stats values")
p("C20","Only workable cache configurations are accepted",
 "Creating a cache either throws an argument error or yields a cache whose memory limit, page size and initial index size satisfy every assumption the storage and index rely on (powers of two, at least four pages, page size within range, non-empty index). No accepted configuration leads to out-of-range internal computation.",
 ["input"],"all combinations of the numeric configuration arguments",
 "64-bit argument combinations, in particular zero and wrap-around values",
 [CA,DI,"src/cachelot/bits.h"],[("validation",CA+": Cache::Create"),("construction",DI+": dict constructor; "+MA+": memalloc constructor")],"exception or constructed cache")
p("C21","Key hashing is a pure function of the key bytes",
 "The hash of a key depends only on its bytes and length and equals the published 32-bit FNV-1a value, for every byte string, whichever interface computes it.",
 ["input"],"all byte strings",
 "unbounded inputs",
 ["src/cachelot/hash_fnv1a.h",PA,"src/cachelot/c_api.cpp"],[("fnv1a","src/cachelot/hash_fnv1a.h: fnv1a hasher"),("users",PA+": calc_hash; src/cachelot/c_api.cpp: cachelot_hash")],"hash value")
p("C22","Byte-range operations agree with their mathematical meaning",
 "Equality of byte ranges is equality of length and bytes; searching for a byte, or for a non-empty needle stored outside the range, returns the first occurrence or nothing; prefix and suffix tests compare exactly the leading or trailing bytes; splitting, trimming and taking sub-ranges partition the range without losing, adding or reading bytes outside it.",
 ["input"],"all ranges and contents",
 "all lengths and byte contents, including embedded partial matches at the very end",
 [SL],[("slice",SL+": operator==, search, split, split_at, endswith, startswith, rtrim_n, subslice")],"returned ranges")
p("N01","Pipelined requests on a connection are all answered, once and in order",
 "All complete requests received on a stream connection are executed and answered in order, exactly once, no matter how the network splits or batches them and how slowly the peer reads.",
 ["schedule","history"],"all network schedules",
 "depends on asynchronous completion order",
 ["src/server/socket_stream.h"],[("async send/receive","src/server/socket_stream.h: async_receive_some, async_send_all")],"bytes seen by the peer")
p("N02","The daemon survives any client behaviour",
 "No sequence of client actions (disconnects, floods, oversized lines) terminates the server process or affects other connections.",
 ["schedule","fault"],"all client behaviours",
 "asynchronous and OS-dependent",
 ["src/server/socket_stream.h","src/server/main.cpp","src/server/socket_datagram.h"],[("event loop","src/server/main.cpp")],"process liveness")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
