prop("N01", "Names resolve to exactly one live container or object, and ids are unique",
     "Creating, opening and deleting containers and objects by name or handle gives every client the result that the history of "
     "calls determines: a name that is taken is not created twice, a deleted or never created one is not found, and no call "
     "affects another name. Every container and object has an id of its own, and no id is ever handed out twice, however many "
     "servers there are.",
     ["histories", "inputs", "configurations"],
     "all sequences of create, open, close and delete by several clients, over colliding and unusual names, users, "
     "applications and time steps, with any number of servers and any number of objects of one name",
     TESTS + "hash table and property functions of the library; none starts a server, and the example programs under src/tests "
     "run one fixed sequence each.",
     [SM, CC, "src/api/pdc_obj/pdc_obj.c", "src/api/pdc_obj/pdc_cont.c"],
     [("insertion into the metadata hash table, with a Bloom filter for long lists", SM + ":PDC_insert_metadata_to_hash_table"),
      ("identity of objects", SM + ":find_identical_metadata"), ("id generation", SM + ":PDC_Server_gen_obj_id"),
      ("placement of names on servers", CC + ":PDC_get_server_by_obj_id")],
     state=[{"name": "metadata and container hash tables", "meaning": "what lives on this server", "where": SM}])
prop("N02", "An object keeps the properties it was created with",
     "The dimensions, type, time step, user, application, tags and partition an object was created with are what every client "
     "reads from it later, through any handle and by name, until they are changed by a call of their own. A property list has "
     "exactly the values set on it, and a copy of it is equal and independent.",
     ["histories", "inputs", "configurations"],
     "all property values, with up to four dimensions, all sequences of setting, copying and closing property lists, "
     "creating, opening and redimensioning objects by several clients and with any number of servers",
     TESTS + "setting a single property; none reads properties back from a server through another handle.",
     ["src/api/pdc_obj/pdc_prop.c", "src/api/pdc_obj/pdc_obj.c", SM],
     [("property lists", "src/api/pdc_obj/pdc_prop.c:PDCprop_obj_dup"), ("open by name", "src/api/pdc_obj/pdc_obj.c:PDCobj_open"),
      ("redimensioning", "src/server/pdc_client_server_common.c:obj_reset_dims")])
prop("N03", "Handles and iteration show what a client has open",
     "A handle keeps standing for the container or object it was opened for until it is closed, whatever other handles are "
     "opened, closed or reused in between. Iterating over containers, or over the objects of a container, visits each open "
     "handle exactly once and no other.",
     ["histories"], "all interleavings of opening, closing, creating and deleting with several handles for the same thing",
     TESTS + "one open and close each; iteration over several handles with some closed is not run.",
     ["src/api/pdc_obj/pdc_cont.c", "src/api/pdc_obj/pdc_obj.c", "src/utils/pdc_interface.c"],
     [("reference-counted ids", "src/utils/pdc_interface.c:PDC_dec_ref"),
      ("iteration", "src/api/pdc_obj/pdc_cont.c:PDCcont_iter_start"), ("iteration", "src/api/pdc_obj/pdc_obj.c:PDCobj_iter_next")])
prop("N04", "Calls that clients make at the same time act as if made one after the other",
     "When several clients create, open, delete, list and query containers and objects, and set, get and delete tags at the same "
     "time, all results and what is there in the end are those of making the same calls one after the other in some order in which "
     "a call that returned before another was made comes before it. None of the calls gets stuck or fails because of the others.",
     ["schedules", "histories"], "all overlapping histories of several clients on one and more servers; calls that have to ask several "
     "servers are no single step and are left out",
     TESTS + "clients that run the same program on names of their own; results that depend on one another are not compared.",
     ["src/server/pdc_client_server_common.c", "src/server/pdc_server_metadata.c", "src/api/pdc_client_connect.c"],
     [("listing and querying", "src/server/pdc_client_server_common.c:query_partial"),
      ("creation", "src/server/pdc_server_metadata.c:PDC_insert_metadata_to_hash_table"),
      ("tag queries", "src/server/pdc_client_server_common.c:query_kvtag")])
prop("T01", "Reading a tag returns the value last set on that object or container",
     "A tag read from a container or object has the type, size and bytes of the last value set under that name on exactly that "
     "container or object by any client, and is absent if it was never set or was deleted last. Setting or deleting one tag "
     "changes no other tag.",
     ["histories", "inputs", "configurations"],
     "all sequences of set, get and delete by several clients on containers and objects, including same-named ones, with values "
     "of every type and size, and any number of servers",
     TESTS + "no tag of a server at all.",
     [SM, CC], [("tag update on the server", SM + ":PDC_add_kvtag_to_list"), ("tag lookup", SM + ":PDC_Server_get_kvtag"),
                ("tag deletion", SM + ":PDC_Server_del_kvtag"), ("transfer of values", "src/api/pdc_client_connect.c:PDC_get_kvtag")])
prop("T02", "A tag query returns exactly the objects with a matching tag",
     "A query by tag returns every live object, of any server, that has a tag whose name and string value match the given "
     "patterns, or whose non-string value has the given type and bytes, and no other object.",
     ["histories", "inputs", "configurations"],
     "all sets of objects and tags, all patterns that are exact or have a star at either end, after any sequence of updates, "
     "with any number of servers and querying clients",
     TESTS + "no query; the example programs look up one exact value.",
     [SM, CC, "src/commons/utils/string_utils.c"],
     [("matching", SM + ":_is_matching_kvtag"), ("patterns", "src/commons/utils/string_utils.c:simple_matches"),
      ("collecting the answers of all servers", CC + ":PDC_Client_query_kvtag")])
prop("T03", "Metadata queries list exactly the objects that satisfy the constraints",
     "Listing all objects, searching by text tag, looking a record up, and searching by any combination of user, application, "
     "name, time step range, dimension count and text return exactly the live objects that satisfy every given constraint, once "
     "each, with their current attributes.",
     ["histories", "inputs", "configurations"],
     "all combinations of constraints over all sets of objects, after any sequence of updates, shared out over any number of "
     "clients and servers",
     TESTS + "no query over objects of several servers.",
     [SM, CC], [("constraint evaluation", SM + ":is_metadata_satisfy_constraint"),
                ("collection per server", SM + ":PDC_Server_get_partial_query_result"),
                ("sharing servers out to clients", CC + ":PDC_partial_query")])
prop("P01", "Containers, objects and tags survive a checkpoint and restart",
     "After the servers were checkpointed, stopped and started again from the checkpoints, every container, object, attribute and "
     "tag that existed is found again with the same id and value, nothing else exists, and everything works on as it would have "
     "without the restart. This holds for any number of restarts.",
     ["histories", "configurations", "crash_points"],
     "all states of the name space, with any number of servers, and restarts at any point between client calls, repeatedly",
     "No test restarts a server.",
     [SR, SM], [("writing", SR + ":PDC_Server_checkpoint"), ("reading", SR + ":PDC_Server_restart")],
     state=[{"name": "metadata_checkpoint.N", "meaning": "one file per server", "where": SR}])

prop("P03", "A crash loses nothing that the last complete checkpoint saved",
     "When the servers end without notice, between calls or while a checkpoint is being written, or when a checkpoint cannot be "
     "written, starting them again brings back every container, object, attribute and tag as of the last checkpoint that was "
     "completed, and nothing else. A checkpoint counts as a whole or not at all, and ids given to new objects stay unique.",
     ["crash_points", "histories", "configurations"],
     "all states of the name space, every byte of a checkpoint as the place where its writing ends, by the end of the process or by a "
     "full file system, any number of crashes, checkpoints and restarts",
     "No test ends a server without notice.",
     [SR], [("writing", SR + ":PDC_Server_checkpoint"), ("reading", SR + ":PDC_Server_restart")],
     state=[{"name": "metadata_checkpoint.N", "meaning": "one file per server", "where": SR}])

COMP_NOTE = ("TLC explores the specification exhaustively for a small instance and generates random histories of calls; each is run on "
             "the real component, compiled from /repo with address sanitizer, and the recorded calls and results are validated by TLC "
             "against the specification.  Sampled, not exhaustive, on the implementation side.")
COL = "src/commons/collections/"
prop("K01", "A hash table is a map from keys to the values last inserted",
     "For every table, whatever its hash and equality functions, a lookup returns the value last inserted under an equal key and "
     "none if there was none or it was removed, the entry count is that of the distinct keys, and an iteration visits every entry "
     "once. A table that owns its keys and values frees each exactly once, when it lets go of it.",
     ["histories", "inputs"], "all histories of insert, lookup, remove, iterate and free over any number of keys, colliding ones included, "
     "through every enlargement, for the table of the common library, that of the server and that of the profiler",
     TESTS + "three insertions and lookups without collisions, growth, iteration or ownership.",
     [COL + "pdc_hash_table.c", "src/server/pdc_hash-table.c", "src/commons/profiling/pdc_hashtab.c"],
     [("insertion", COL + "pdc_hash_table.c:hash_table_insert"), ("growth", COL + "pdc_hash_table.c:hash_table_enlarge"),
      ("removal", COL + "pdc_hash_table.c:hash_table_remove"), ("iteration", COL + "pdc_hash_table.c:hash_table_iter_next"),
      ("the server's table", "src/server/pdc_hash-table.c:hash_table_insert"), ("the profiler's table", "src/commons/profiling/pdc_hashtab.c:htab_find_slot_with_hash")], note=COMP_NOTE)
prop("K02", "A set holds each distinct element exactly once",
     "Insertion succeeds exactly for an element that is not in the set, removal exactly for one that is, and queries, sizes, arrays "
     "and iterations show exactly the elements that were inserted and not removed. A union has what either operand has, an "
     "intersection what both have. A set that owns its elements frees each exactly once.",
     ["histories", "inputs"], "all histories over any number of elements and sets, colliding ones included, through every enlargement",
     TESTS + "no set.", [COL + "pdc_set.c"],
     [("insertion", COL + "pdc_set.c:set_insert"), ("growth", COL + "pdc_set.c:set_enlarge"), ("removal", COL + "pdc_set.c:set_remove"),
      ("union and intersection", COL + "pdc_set.c:set_union")], note=COMP_NOTE)
prop("K03", "The radix tree is an ordered map over byte strings",
     "Search, insertion, conditional insertion and deletion return the value last stored under exactly that key, the size is the "
     "number of keys, iteration lists all entries in the order of unsigned bytes and stops when asked to, a prefix iteration lists "
     "exactly those whose key starts with the prefix, and minimum and maximum are the first and last of them.",
     ["histories", "inputs"], "all histories over all keys without zero bytes: keys that are prefixes of others, long common parts, any "
     "number of children per node, while nodes grow and shrink",
     TESTS + "no radix tree.", [COL + "art.c"],
     [("insertion", COL + "art.c:recursive_insert"), ("node growth", COL + "art.c:add_child16"), ("node shrinking", COL + "art.c:remove_child4"),
      ("prefix iteration", COL + "art.c:art_iter_prefix")], note=COMP_NOTE)
prop("K04", "Deque, stack and vector keep their elements in order",
     "Elements come out of a deque at either end, out of a stack from the top, and out of a vector at their index, in the order in which "
     "they went in; none is lost or invented, the size is the number of elements, and an empty deque returns none.",
     ["histories"], "all histories of pushes and pops at both ends, through every growth and shrinking, with all initial capacities and "
     "growth factors", TESTS + "no deque, stack or vector.",
     [COL + "pdc_deque.c", COL + "pdc_stack.c", COL + "pdc_vector.c"],
     [("growing and shrinking a deque", COL + "pdc_deque.c:resize_deque"), ("growing a vector", COL + "pdc_vector.c:pdc_vector_add")],
     note=COMP_NOTE)
prop("K05", "Comparison, equality and hash functions agree",
     "Comparing two keys gives the total order of their kind (numbers by value, strings by byte, or by lower-case byte where case "
     "does not count), equality holds exactly when the comparison is 0, and equal keys have equal hash values.",
     ["inputs"], "all pairs of keys of every kind", TESTS + "no comparison function.",
     [COL + "pdc_compare.c", COL + "pdc_hash.c"],
     [("comparison", COL + "pdc_compare.c:string_nocase_compare"), ("hashing", COL + "pdc_hash.c:string_nocase_hash")], note=COMP_NOTE)
MI = "src/server/pdc_server_metadata_index.c"
DC = "src/commons/index/dart/dart_core.c"
prop("X01", "A search of the metadata index finds the objects with matching attributes",
     "After any inserts of (name, value, object) into the distributed index and removals from it, a search with a pattern for the name "
     "and one for the value - exact, prefix, suffix or infix, or a star alone - returns, each once, exactly the objects that have an "
     "inserted and not removed attribute whose name and value match, whichever client asks, however many servers there are, and "
     "whichever way keys are placed on them (DART or one of the hashes). Inserting twice is the same as once; removing what is not "
     "there does nothing; no search changes anything. When clients make calls at the same time, a search finds what is there from its "
     "beginning to its end, and nothing that is not there at some time in between.",
     ["histories", "inputs", "configurations"],
     "all histories of inserts, removals and searches by several clients, with all patterns, names and values, reference types and "
     "placements, any number of servers, with the suffix-tree mode on and off",
     TESTS + "the placement of keys, not the index of a server or a search.",
     [MI, CC, DC], [("adding", MI + ":create_index_for_attr_name"), ("removing", MI + ":delete_index_for_attr_name"),
      ("searching by name", MI + ":metadata_index_search"), ("by value", MI + ":level_one_art_callback"),
      ("asking the servers", CC + ":PDC_Client_search_obj_ref_through_dart"), ("placement by hash", DC + ":DHT_hash")],
     state=[{"name": "art_key_prefix_tree_g", "meaning": "for every end of a name, a tree from the ends of values to sets of objects", "where": MI}],
     note=E2E_NOTE + " Two known findings about the suffix-tree mode: names cannot be told from the ends of longer ones, and removing an "
     "attribute removes what it shares with others of the object; the specification models both, so that anything else is reported.")
prop("X02", "Index routing brings every query to all servers that hold a match",
     "For every number of servers and every virtual tree, the servers an exact, prefix, suffix or infix query is sent to include one "
     "that received each inserted keyword the query matches, a deletion reaches every server the insertion went to, and no id lies "
     "outside the servers there are. The same holds of plain hashing, for the exact queries that it supports and whatever it "
     "answers without the tree.",
     ["inputs", "configurations"],
     "all keywords and query words, shorter and longer than the tree is high and with any bytes, all server counts, alphabets and "
     "replication factors",
     TESTS + "the tree with fixed words, and print where they go without comparing insertions with queries.",
     ["src/commons/index/dart/dart_core.c"],
     [("node selection", "src/commons/index/dart/dart_core.c:get_server_ids_for_insert"),
      ("query fan-out", "src/commons/index/dart/dart_core.c:get_server_ids_for_query"),
      ("operation dispatch", "src/commons/index/dart/dart_core.c:DART_hash"),
      ("plain hashing", "src/commons/index/dart/dart_core.c:DHT_hash")], note=COMP_NOTE)
RC = "src/server/pdc_server_region/pdc_server_region_cache.c"
SD = "src/server/pdc_server_region/pdc_server_data.c"
RT = "src/server/pdc_server_region/pdc_server_region_transfer.c"
CT = "src/api/pdc_region/pdc_region_transfer.c"
prop("D01", "Reading a region returns what was last written to each of its elements",
     "A completed read of any region of an object puts into the user's local region, element by element, the value of the last write "
     "that covers the element, whatever regions the writes and reads had, whoever did them, and however the object is spread over "
     "servers, cached and stored. Nothing outside the local region of the user's buffer changes, and a write changes no other "
     "element or object.",
     ["histories", "inputs", "configurations"],
     "all sequences of writes and reads of any number of regions that overlap, contain or touch each other, one at a time or many at "
     "once, of objects with one to three dimensions, all element types, partitions and server counts, with any cache size and flush "
     "frequency",
     TESTS + "no server, and the example programs under src/tests write one region and read it back whole.",
     [CT, "src/server/pdc_server_region", CC],
     [("cache lookup, merging and eviction", RC + ":PDC_region_cache_register"), ("reading through the cache", RC + ":PDC_region_fetch"),
      ("flushing", RC + ":PDC_region_cache_flush_by_pointer"), ("merging regions", RC + ":PDC_region_merge"),
      ("storage", SD + ":PDC_Server_data_write_out"), ("partition over servers", CT + ":static_region_partition"),
      ("packing of local regions", CT + ":pack_region_buffer")],
     state=[{"name": "region cache", "meaning": "written regions not yet on disk", "where": RC},
            {"name": "stored regions", "meaning": "where in the object's file a region lies", "where": SD}])
prop("D02", "A transfer does exactly its own work, once, and completion means it is done",
     "A transfer that was started completes, and once waiting for it, its status, or waiting for several reports that, the data of a "
     "write is visible to every later read and a read has filled the buffer. A transfer not started has no effect. Transfers of "
     "several clients and of several objects do not affect each other, a transfer can be started again when it is done, and closing "
     "it or its object in any state neither loses a write that was started nor harms the other transfers.",
     ["histories", "schedules"],
     "all interleavings of creating, starting, checking, waiting for and closing transfers, singly and in lists, by two clients "
     "over the same and different objects, with any number of servers and any order of replies",
     TESTS + "no transfer; the example programs start each one and wait for it at once.",
     [CT, RT, "src/server/pdc_client_server_common.c"],
     [("starting", CT + ":PDCregion_transfer_start"), ("waiting", CT + ":PDCregion_transfer_wait"),
      ("waiting for several", CT + ":PDCregion_transfer_wait_all"), ("status", CT + ":PDCregion_transfer_status"),
      ("status on the server", RT + ":PDC_try_finish_request"), ("closing", CT + ":PDCregion_transfer_close")],
     state=[{"name": "transfer request status list", "meaning": "transfers a server has accepted", "where": RT}])
CS = "src/server/pdc_client_server_common.c"
PR = "src/api/pdc_region/pdc_region.c"
prop("D03", "Mapped buffers and objects exchange their elements at a release, and only then",
     "When a client releases the lock of a region it had mapped to a buffer when it got the lock, the elements of the buffer become "
     "the elements of the region if it releases for writing, and the elements of the region become those of the buffer if it releases "
     "for reading; the call returns only then. No other buffer, region or element changes: not those other clients have mapped to "
     "the same region, not what lies next to the mapped part of the buffer, and nothing after the region was unmapped. What was moved "
     "is seen by later transfers and releases, whatever was cached or written out meanwhile, and is still there after a restart.",
     ["histories", "configurations"],
     "all sequences of mapping, filling, locking, releasing, unmapping and transfers by several clients on overlapping regions, for "
     "every shape, element type, position in the buffer, number of servers and state of the cache and of the thread that flushes it",
     TESTS + "no mapped buffer; the example programs map one buffer once.",
     [PR, CS, SD, RC],
     [("mapping", PR + ":PDCbuf_obj_map"), ("asking the server to map", CC + ":PDC_Client_buf_map"), ("mapping on the server", SD + ":PDC_Data_Server_buf_map"),
      ("moving at a release", CS + ":buf_map_region_release_bulk_transfer_cb"), ("unmapping", SD + ":PDC_Data_Server_buf_unmap")],
     state=[{"name": "maps of an object", "meaning": "which client's buffer a region is mapped to", "where": SD}])
prop("D04", "At most one client holds the lock of a region, and every one that waits gets it",
     "The lock of a region of an object is held by at most one client at a time. A client that does not want to wait is refused while "
     "somebody holds it and gets it otherwise; one that waits gets it when it becomes free, one after the other, and as long as "
     "holders release, nobody waits for ever. Only a held lock can be released. Locks of different regions and of different objects "
     "do not affect each other, and obtaining or releasing a lock does not change the elements of a region that is not mapped.",
     ["schedules", "histories"],
     "all interleavings of up to four clients that lock, wait for and release the same and overlapping regions of several objects, "
     "for reading and writing, with any number of servers and order of delivery",
     TESTS + "no lock; the example programs lock from one client at a time.",
     [PR, CC, CS, SD],
     [("locking", PR + ":PDCreg_obtain_lock"), ("releasing", PR + ":PDCreg_release_lock"), ("locking on the server", SD + ":PDC_Data_Server_region_lock"),
      ("releasing on the server", SD + ":PDC_Data_Server_region_release"), ("the request", CC + ":PDC_Client_region_lock")],
     state=[{"name": "locks of an object", "meaning": "regions that are locked, and requests that wait", "where": SD}])
prop("D05", "Clients that read and write at the same time do not disturb one another",
     "When several clients start, wait for and close transfers at the same time, each read returns for every element the value of a "
     "write that overlaps it in time or, if there is none, of the last one that was complete before; writes of different elements do not "
     "affect one another, every wait returns, and no buffer is touched outside the region of its transfer. While an object that is "
     "partitioned dynamically or locally is written, what is read of just those elements is left open.",
     ["schedules", "histories", "configurations"], "all overlapping histories of transfers of several clients on objects of any shape and "
     "partition, one to four servers, any size of the cache",
     TESTS + "clients that each write regions of their own and read them back; what overlaps in time is not compared.",
     ["src/server/pdc_server_region/pdc_server_region_cache.c", "src/server/pdc_server_region/pdc_server_region_transfer.c",
      "src/api/pdc_region/pdc_region_transfer.c"],
     [("transfer requests", "src/server/pdc_client_server_common.c:transfer_request_all"),
      ("cache and flush thread", "src/server/pdc_server_region/pdc_server_region_cache.c:PDC_transfer_request_data_write_out")])
prop("P02", "Data survives a checkpoint and restart",
     "After the servers were checkpointed, stopped and started again, every element of every object reads as the value of the last "
     "write that completed before the checkpoint, whatever was still cached, and everything works on as it would have without the "
     "restart. This holds for any number of restarts.",
     ["histories", "configurations", "crash_points"],
     "all histories of transfers with restarts in between, repeatedly, with all partitions and any number of servers",
     "No test restarts a server.",
     [SR, SD, RC], [("writing", SR + ":PDC_Server_checkpoint"), ("reading", SR + ":PDC_Server_restart"),
                    ("flushing", RC + ":PDC_region_cache_flush_all")],
     state=[{"name": "metadata_checkpoint.N", "meaning": "one file per server", "where": SR}])
RU = "src/utils/pdc_region_utils.c"
prop("L01", "Overlap, containment and copying of regions agree with their sets of cells",
     "Two regions overlap exactly when they share a cell; the region in which they overlap is the set of the shared cells; one is "
     "found inside the other exactly when all its cells are. Copying, gathering and scattering between buffers that hold regions "
     "gives each shared cell the value of the source and leaves every other byte of the target as it was.",
     ["inputs", "histories"],
     "all pairs of regions with one to three dimensions, whatever their places and sizes, cells of all sizes, and chains of copies "
     "from buffer to buffer",
     TESTS + "no region function.",
     [RU],
     [("overlap", RU + ":check_overlap"), ("the overlapping region", RU + ":PDC_region_overlap_detect"),
      ("containment", RU + ":detect_region_contained"), ("copying", RU + ":memcpy_overlap_subregion"),
      ("gathering", RU + ":memcpy_subregion")],
     state=[{"name": "region buffers", "meaning": "the values of the cells of a region in row-major order", "where": RU}],
     note=COMP_NOTE)
QU = "src/commons/utils/query_utils.c"
SU = "src/commons/utils/string_utils.c"
prop("L02", "Text is cut, matched and searched as the query patterns and tag lists say",
     "Cutting, splitting and searching strings give the characters that are there. A pattern with a star at its start, its end, both "
     "or neither matches exactly the strings that end with, start with, contain or equal the rest. In a list of tags, the pair that "
     "is found is the first whose key and value match, its value is in a range exactly when the number it holds is, and the queries "
     "and tags generated for a name match it.",
     ["inputs", "histories"],
     "all strings, patterns, delimiters and lists of tags, with any bytes, empty ones included, and positions in and out of the string",
     TESTS + "no text function.",
     [SU, QU],
     [("pattern matching", SU + ":simple_matches"), ("kinds of patterns", SU + ":determine_pattern_type"),
      ("cutting", SU + ":substring"), ("splitting", SU + ":split_string"),
      ("searching a list of tags", QU + ":k_v_matches_p"), ("values in a range", QU + ":is_value_in_range"),
      ("making queries", QU + ":gen_query_key_value")], note=COMP_NOTE)
DB = "src/server/dablooms/pdc_dablooms.c"
prop("L03", "A filter never denies a key it holds",
     "Whatever keys were added to and removed from a counting or scaling filter, in whatever order, it says that it holds every key "
     "that was added more often than removed; it knows how many there are; once all are removed it holds none; and of the keys that "
     "were never added it accepts only as many as its error rate allows.",
     ["histories", "inputs"],
     "all histories of adding and removing keys, each at most a few times, of filters with all capacities and error rates, several "
     "filters at once",
     TESTS + "no filter.",
     ["src/server/dablooms"],
     [("adding", DB + ":counting_bloom_add"), ("removing", DB + ":counting_bloom_remove"), ("asking", DB + ":counting_bloom_check"),
      ("growing", DB + ":new_counting_bloom_from_scale"), ("counters", DB + ":bitmap_increment")],
     state=[{"name": "bitmap", "meaning": "rows of 4-bit counters", "where": DB}], note=COMP_NOTE)
TP = "src/commons/utils/thpool.c"
prop("L04", "A thread pool runs every job exactly once and waiting means all are done",
     "Every job added to a pool runs once, at most as many at a time as there are threads and as many as that when there is work, in "
     "the order in which they were added. Whoever waits goes on, and only when all jobs added before have ended. A pool that is "
     "paused starts no more jobs until it is resumed, and one that is destroyed lets the jobs that run end, drops the others, runs "
     "nothing afterwards and leaves no memory behind. Pools do not affect each other.",
     ["schedules", "histories"],
     "all interleavings, at each access to memory, of several clients that add jobs, wait, pause, resume and ask, of jobs that add "
     "jobs or wait for others, and of the threads of several pools made and destroyed in turn",
     TESTS + "no pool.",
     [TP],
     [("adding", TP + ":thpool_add_work"), ("waiting", TP + ":thpool_wait"), ("what a thread does", TP + ":thread_do"),
      ("the queue", TP + ":jobqueue_pull"), ("the semaphore", TP + ":bsem_wait"), ("ending", TP + ":thpool_destroy")],
     state=[{"name": "job queue", "meaning": "jobs not yet taken by a thread", "where": TP}],
     note="TLC explores the pool and a model of its implementation, liveness included, for small instances and generates random "
          "programs of several clients; each runs on the real pool under a scheduler that chooses the next thread at every access "
          "to memory, and TLC validates the events against the specification. Sampled, not exhaustive, on the implementation side.")
CI = "src/commons/file/common_io.c"
prop("L05", "What is written to a file is what is read from it",
     "Lines written to a text file are read back as those lines, and any text is read as its lines, whether the last one is ended or "
     "not. Bytes written are read back, an update replaces exactly its bytes and may extend the file, streams read whole files, or "
     "lines of at most the given size one after the other, and what could not be written is reported.",
     ["histories", "inputs", "fault_sequences"],
     "all histories of writing, updating and reading several files, whole and through streams, with any content, sizes and "
     "positions, and a device that is full",
     TESTS + "no file.",
     [CI],
     [("text", CI + ":read_text_file"), ("bytes", CI + ":write_binary_file"), ("updating", CI + ":update_binary_file"),
      ("whole files", CI + ":read_file"), ("lines", CI + ":read_line")], note=COMP_NOTE)
