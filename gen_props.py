#!/usr/bin/env python3
"""Single source for properties.jsonl (kept in step by hand with MANIFEST.json)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
MC="src/memcache/memcache.cpp"; SK="src/memcache/sockets.cpp"; OB="src/memcache/object.cpp"; OH="src/memcache/object.hpp"
p("P01","Text parser stays inside the received bytes and frames commands exactly",
 "For every byte sequence received so far, parsing a text-protocol command never reads a byte that was not received; it either reports that more data is needed or consumes exactly one command (line, plus data block and CRLF for storage commands). The verdict, the consumed length and every parsed field are independent of any bytes that follow the consumed command.",
 ["inputs"],"every byte content of a receive buffer up to the bound, every buffer length","A test feeds a few well-formed lines; over-reads and framing slips need a particular byte at the end of a partially received line.",
 [MC,"src/memcache/memcache.hpp"],[("text_request::parse","src/memcache/memcache.cpp"),("to_uint / tokenising helpers","src/memcache/memcache.cpp")])
p("P02","Text commands are decoded to exactly the fields the protocol grammar gives",
 "A text command that conforms to the memcached/yrmcds grammar is accepted and its command, keys, flags, exptime, data, cas, delta, noreply and similar fields equal what the grammar assigns. A line with missing fields, an over-range or non-decimal number, a bad data terminator or an unknown verb is rejected as an error and yields no command.",
 ["inputs"],"every field content and every numeric spelling up to the bound","Numbers have 2^64 spellings plus malformed ones; tests pick a handful.",
 [MC],[("text_request::parse","src/memcache/memcache.cpp"),("parse helpers","src/memcache/memcache.cpp")])
p("P03","Binary parser stays inside the received bytes and frames requests exactly",
 "For every byte sequence received so far, parsing a binary request never reads outside the received bytes; it reports 'incomplete' exactly when fewer than 24+total-body-length bytes have arrived and otherwise consumes exactly 24+total-body-length bytes. No combination of key length, extras length and body length makes a parsed field refer to bytes outside the request's own body.",
 ["inputs"],"every header and body byte up to the bound","The header holds 2^192 values with three interacting length fields; the tests use consistent ones.",
 [MC],[("binary_request::parse","src/memcache/memcache.cpp")])
p("P04","Binary requests are validated and decoded per opcode",
 "A well-formed binary request yields status OK and exactly the wire's opcode, key, value, flags, exptime, cas, delta, initial value and quietness; a request whose extras, key or value presence contradicts its opcode's rules is answered Invalid arguments, and an undefined opcode is answered Unknown command.",
 ["inputs"],"every opcode byte and every combination of lengths and field values up to the bound","Each opcode has its own rules over three length fields; tests cover only a few bad combinations.",
 [MC],[("binary_request::parse","src/memcache/memcache.cpp"),("binary_request::setup","src/memcache/memcache.cpp")])
p("P05","Binary responses are well-formed and mirror the request",
 "Every response to a binary request carries magic 0x81, the request's opcode byte and opaque, a status, the object's CAS where applicable, and key, extras and body lengths that equal the bytes that follow. A quiet variant suppresses exactly the response its protocol rule says (misses for get-like, successes for mutations) while every error is still reported, and non-quiet requests get exactly one response (Stat and Keys: a terminated sequence).",
 ["inputs","histories"],"every opcode, opaque, cas and object content, for hit, miss and error outcomes","The client pairs replies with pipelined requests by these fields; a test checks a few opcodes in one outcome.",
 [MC,SK],[("binary_response","src/memcache/memcache.cpp"),("memcache_socket::cmd_bin","src/memcache/sockets.cpp")])
p("P06","Text responses are exact and noreply is silent",
 "Every text command yields exactly the reply bytes its protocol defines (STORED, NOT_STORED, EXISTS, NOT_FOUND, DELETED, TOUCHED, number, VALUE blocks with true flags/length/cas followed by END, OK, VERSION, ERROR). A noreply command that is well formed yields no bytes at all, whatever its outcome, and get/gets with several keys returns every present key in request order.",
 ["inputs","histories"],"every object content, flags, cas and outcome up to the bound","Reply framing errors depend on value bytes, lengths and outcome combinations.",
 [MC,SK],[("text_response","src/memcache/memcache.cpp"),("memcache_socket::cmd_text","src/memcache/sockets.cpp")])
p("P07","Storage commands follow the reference key-value semantics",
 "For every sequence of set, add, replace, get, delete and touch (text or binary, mixed), each reply and each later get equals what a sequential key-value map would give: set always stores, add stores only if absent, replace only if present, delete removes exactly the named key, and get returns the last stored value and flags. No command changes any key other than the one it names.",
 ["histories","inputs"],"every command sequence up to the bound over two keys with arbitrary values, flags and exptimes","Faults show only after specific multi-step sequences with specific field values.",
 [SK,OB,"cybozu/hash_map.hpp"],[("memcache_socket::cmd_text/cmd_bin","src/memcache/sockets.cpp"),("object::set","src/memcache/object.cpp"),("hash_map::apply","cybozu/hash_map.hpp")])
p("P08","Append, prepend, increment and decrement compute the exact result",
 "Append and prepend make the value old+new and new+old respectively, keep flags and expiration, and fail without effect on an absent key. Increment is 64-bit addition with wrap-around, decrement is subtraction clamped at 0, both replace the value by the decimal result that is also returned, fail without effect on a non-numeric value (one that does not start with a decimal number that fits 64 bits; what follows the number is ignored), and on an absent key report not-found except that binary requests with exptime other than 0xffffffff create the object with the initial value.",
 ["inputs","histories"],"every 64-bit operand and stored number, every short value content","Arithmetic boundaries live in a 2^128 space.",
 [SK,OB],[("object::append/prepend/incr/decr","src/memcache/object.cpp"),("memcache_socket::cmd_text/cmd_bin","src/memcache/sockets.cpp")])
p("P09","CAS: a stale unique value never overwrites, every mutation changes it",
 "A cas store (text cas, or any binary store/delete form that honours a non-zero CAS) succeeds if and only if the object exists, is unexpired, and its current unique value equals the given one; otherwise the object is unchanged and the reply is EXISTS or NOT_FOUND. Every successful modification of the value gives the object a new unique value different from all earlier ones of that object, and gets/binary replies return the current one.",
 ["histories","inputs"],"every 64-bit cas value against every mutation history up to the bound","Lost-update bugs need a particular interleaving of mutations and a stale 64-bit token.",
 [SK,OB,OH],[("cas checks","src/memcache/sockets.cpp"),("object::m_cas","src/memcache/object.hpp")])
p("P10","Expired objects are indistinguishable from absent ones",
 "An object with expiration 0 never expires; a relative expiration up to 30 days counts from the request, a larger one is an absolute Unix time; from that instant on, every command behaves as if the key did not exist (get misses, add stores, replace/append/cas/incr/touch/delete/lock fail), and before it the object is intact. touch and get-and-touch replace the expiration and nothing else.",
 ["inputs","histories"],"every exptime and every clock value up to the bound, before/at/after expiry","Time arithmetic has boundary cases (30 days, equality, 0) that tests with sleeps cannot enumerate.",
 [MC,SK,OH],[("exptime parsing","src/memcache/memcache.cpp"),("object::expired","src/memcache/object.hpp")])
p("P11","flush_all invalidates everything that was stored, at the requested time",
 "After flush_all takes effect (immediately, or at the delay or absolute time given), no unlocked object stored before it is ever returned again, before and after garbage collection; before that time nothing is lost, locked objects survive, and objects stored after the flush was carried out are kept. A newer flush request is never cancelled by the completion of an earlier one.",
 ["histories","schedules"],"every delay and clock value and every placement of GC between the commands","Needs the ordering flush/GC/second flush that a test cannot force.",
 [SK,"src/memcache/gc.cpp",OH],[("flush_time","src/memcache/stats.hpp"),("gc_thread::gc","src/memcache/gc.cpp")])
p("P12","A lock excludes every other connection from modifying the object",
 "While connection A holds a lock on an object, no store, concat, arithmetic, delete or lock command from another connection changes it: each is answered LOCKED/0x0010 and leaves value, flags, cas and expiration unchanged, while get from anyone succeeds. Only A can unlock; unlock by anyone else or of an unlocked object reports the error and changes nothing, and after A unlocks the object is freely usable; a locked object neither expires nor is evicted nor flushed.",
 ["histories","inputs"],"every pair of connections and every sequence of commands up to the bound","Two connections, several command kinds and two protocols multiply beyond what tests list.",
 [SK,OH],[("object::lock/unlock","src/memcache/object.hpp"),("memcache_socket::cmd_*","src/memcache/sockets.cpp")])
p("P13","Locks end with their connection and are never inherited",
 "When a connection closes, for any reason and at any point, every lock it holds is released, and no other connection (including one that reuses the same descriptor number) is ever treated as its owner in the meantime. quit, unlock_all and disconnection never terminate the server and never release another connection's locks.",
 ["histories","fault_sequences"],"every order of lock, disconnect, descriptor reuse, commands of the new connection and reclamation","Needs descriptor reuse inside the window between early close and destruction.",
 [SK,"src/memcache/sockets.hpp",OH],[("memcache_socket::~memcache_socket","src/memcache/sockets.cpp"),("g_context","src/memcache/object.hpp"),("unlock_all","src/memcache/sockets.hpp")])
p("P14","Oversized keys and values are refused without effect",
 "A key longer than 250 bytes or a value larger than max_data_size is never stored by a set/add/replace/cas/increment-create command in either protocol: the command is answered with an error (binary: Invalid / Too large) and the previous object is unchanged; lengths up to and including the limits are accepted.",
 ["inputs","configurations"],"every key length around the limit and every data length and max_data_size up to the bound","Off-by-one at configured limits.",
 [SK],[("size checks","src/memcache/sockets.cpp")])
p("P15","Object contents do not depend on where they are stored",
 "Whatever heap_data_limit is, and however a sequence of set, append, prepend, incr moves an object between heap and temporary file, the value read back equals the one the operations define, the reported size equals its length, and no descriptor is leaked or used after being closed.",
 ["histories","inputs","fault_sequences"],"every operation sequence and length around the limit, every short-write split","Crossing the limit back and forth with short writes is not sampled.",
 [OB,"src/tempfile.cpp"],[("object::set/append/prepend/data","src/memcache/object.cpp"),("tempfile","src/tempfile.cpp")])
p("P16","With secure_erase, freed memory never holds object data",
 "When secure_erase is enabled, every heap block that held an object's value is overwritten before it is returned to the allocator, for every operation that replaces, extends, shrinks or removes the object; and a buffer (dynbuf) asked to erase leaves nothing of its contents in memory it frees, whatever operations are applied to it.",
 ["histories","inputs"],"every operation sequence and value content up to the bound","Freed memory is invisible to tests.",
 ["cybozu/dynbuf.hpp",OB,"cybozu/util.cpp"],[("dynbuf","cybozu/dynbuf.hpp"),("clear_memory","cybozu/util.cpp"),("object::prepend","src/memcache/object.cpp")])
p("P17","Replies do not depend on how the request stream is segmented",
 "For every pipelined request stream (text, binary or mixed) and every way the network splits it into received segments, including EAGAIN between any two bytes, the server executes the same commands in the same order and emits the same response bytes; nothing is executed twice, dropped or re-ordered.",
 ["inputs","fault_sequences"],"every split of streams up to the bound","The number of splits is exponential and the kernel decides them.",
 [SK,"cybozu/dynbuf.hpp"],[("memcache_socket::m_recvjob","src/memcache/sockets.cpp"),("dynbuf::erase/append","cybozu/dynbuf.hpp")])
p("P18","A slave fed the replication stream ends with the master's data",
 "After any sequence of client commands on the master, a connected slave that has applied the emitted stream holds exactly the same keys, values, flags and expirations (those the 32-bit field cannot carry as its largest usable value) as the master, including empty values and removals; quiet, failed or read-only commands replicate nothing that differs.",
 ["histories","inputs"],"every command sequence up to the bound with arbitrary values, flags, exptimes","Only a joint master/slave run over many histories exposes a missing or wrong record.",
 ["src/memcache/replication.cpp",SK],[("repl_object/touch/delete","src/memcache/replication.cpp"),("repl_recv","src/memcache/replication.cpp")])
p("P19","The slave decodes the replication stream under any segmentation",
 "For every way the replication byte stream is cut into received segments, the slave applies each complete record exactly once and in order, keeps incomplete tails for the next segment, never reads outside the received bytes, and ignores unknown records without losing synchronisation.",
 ["inputs","fault_sequences"],"every stream content up to the bound and every cut","Cuts inside headers and bodies are chosen by the kernel.",
 ["src/memcache/replication.cpp",SK],[("repl_recv","src/memcache/replication.cpp"),("repl_client_socket::on_readable","src/memcache/sockets.cpp")])
p("P20","Initial replication hands every surviving object to a new slave",
 "During the GC run that serves a new slave, every object that survives is sent to it with its exact value, flags and expiration, objects that are removed are not left on it whenever it joined (also while another GC run is in progress), and existing slaves are told of every removal.",
 ["histories","inputs"],"every population of objects (expired, evicted, locked, flushed or live) up to the bound","Combination of GC verdict and slave set is not sampled.",
 ["src/memcache/gc.cpp","src/memcache/replication.cpp"],[("gc_thread::gc","src/memcache/gc.cpp")])
p("P21","GC removes exactly the removable objects",
 "A GC run removes an object only if it is expired, or flushed, or (when used memory exceeds memory_limit) at least as old as the eviction age, and never if it is locked; expired objects are always removed, an object read since the last GC is never evicted while its age is below the eviction age, and object/size/eviction statistics published afterwards equal the surviving population.",
 ["histories","inputs","configurations"],"every age, exptime, lock state, memory use and flush state up to the bound","Eviction needs memory pressure and hours of ageing.",
 ["src/memcache/gc.cpp",OH],[("gc_thread::gc","src/memcache/gc.cpp"),("object::survive/age","src/memcache/object.hpp")])
p("P22","Concurrent operations on one key are atomic",
 "For every interleaving of operations by several threads (workers and GC) on the hash map, each operation on a key takes effect atomically: no increment, append, creation or removal is lost or applied twice, at most one of several concurrent add/lock attempts succeeds, and no thread reads an object being freed.",
 ["schedules"],"every interleaving of two threads' operations up to the bounds","Unit tests see a few lucky schedules.",
 ["cybozu/hash_map.hpp",SK],[("hash_map::bucket","cybozu/hash_map.hpp")])
p("P23","The hash map is a map",
 "For every sequence of insertions, updates, conditional removals, scans and GC passes, the hash map holds exactly the keys a mathematical map would hold; keys that collide in the same bucket stay distinct, and no node is leaked or touched after it is freed.",
 ["histories","inputs"],"every key pair (colliding or not) and operation sequence up to the bound","Collision chains depend on hash values tests do not control.",
 ["cybozu/hash_map.hpp","cybozu/hash_map.cpp"],[("hash_map","cybozu/hash_map.hpp")])
p("P24","A TCP socket delivers each message whole, in order, once",
 "For every sequence of send/sendv/send_close calls and every sequence of kernel outcomes (short writes, EAGAIN, EINTR, writable events), the bytes handed to the kernel are exactly the concatenation of the accepted messages in order: nothing lost, duplicated, interleaved or reordered, and a *_close call closes only after all of its bytes are handed over.",
 ["fault_sequences","inputs"],"every kernel short-write/EAGAIN/EINTR pattern and message size up to the bound, with scaled-down buffers","The kernel accepts whole writes in tests.",
 ["cybozu/tcp.cpp","cybozu/tcp.hpp"],[("tcp_socket::_send/_sendv","cybozu/tcp.cpp"),("write_pending_data","cybozu/tcp.cpp")])
p("P25","Concurrent senders and the writer never corrupt or strand data",
 "With several threads sending on one socket while the reactor drains it, every schedule delivers each message contiguously, a sender blocked on a full buffer resumes once space is freed or the socket is invalidated, and no thread blocks forever.",
 ["schedules","fault_sequences"],"every interleaving of two senders and the drain up to the bounds","Lost wake-ups need an exact interleaving.",
 ["cybozu/tcp.cpp","cybozu/tcp.hpp"],[("m_cond_write","cybozu/tcp.cpp"),("free_buffers","cybozu/tcp.cpp")])
p("P26","A descriptor is closed exactly once and never used afterwards",
 "For every schedule of the reactor and worker threads, on_invalidate runs exactly once per resource, its descriptor is closed exactly once and only by the reactor, no system call is issued on it after that, and the resource object is destroyed only through the reactor's two-phase garbage collection.",
 ["schedules","fault_sequences"],"every interleaving of one worker and the reactor over invalidate/remove/gc up to the bounds","Use-after-close requires precise interleavings.",
 ["cybozu/reactor.hpp","cybozu/reactor.cpp"],[("resource::with_fd/try_close","cybozu/reactor.hpp"),("reactor::remove_resource/poll","cybozu/reactor.cpp")])
p("P27","The reactor delivers events to the right resource",
 "For every batch of epoll events and remembered readables, the reactor calls the handlers of exactly the resources concerned, removes a resource exactly when its handler reports invalidity or a removal was requested, and never dispatches to a removed resource or loses a remembered readable.",
 ["inputs","fault_sequences"],"every event mask and handler outcome up to the bound","Event batches with simultaneous error, hang-up and readiness are kernel-timed.",
 ["cybozu/reactor.cpp"],[("reactor::poll","cybozu/reactor.cpp")])
p("P28","Workers run every posted job exactly once and stop cleanly",
 "For every schedule, each job posted to an idle started worker is executed exactly once on that worker with an emptied buffer, a worker reports busy from posting until the job is done, and stop() returns after the running job has finished, whatever the timing.",
 ["schedules"],"every interleaving of poster/stopper and worker up to the bounds","Lost wake-ups and shutdown hangs depend on a few-instruction window.",
 ["cybozu/worker.hpp","cybozu/thread.hpp"],[("worker::run/post_job/stop","cybozu/worker.hpp")])
p("P29","Sync requests fire only after every worker has been idle",
 "A synchronisation request's callback runs exactly once, and only after every worker has been observed idle at least once since the request was added, for every pattern of busy and idle workers and every number of pending requests; resources fixed for collection are destroyed only then.",
 ["schedules","histories"],"every busy/idle pattern over several checks up to the bound","Patterns of worker activity are timing-dependent.",
 ["src/sync.hpp"],[("syncer::check","src/sync.hpp")])
p("P30","A counter never grants more than its maximum and accounts exactly",
 "For every sequence of Acquire/Release/Get by several connections, the granted total of a counter never exceeds the maximum of a granting Acquire, an Acquire that fits is granted, Get reports exactly the sum held by all connections, and a Release is granted only up to what that connection holds.",
 ["histories","inputs"],"every 32-bit resource and maximum value and every sequence up to the bound","Wrap-around needs values near 2^32.",
 ["src/counter/object.hpp","src/counter/sockets.cpp"],[("counter::object::acquire/release","src/counter/object.hpp"),("counter_socket::cmd_acquire/cmd_release","src/counter/sockets.cpp")])
p("P31","Counter resources return when their connection ends",
 "When a counter connection is closed, exactly the resources it still holds are given back, once, for every counter it used; counters still referenced are never deleted by GC, idle zero counters are eventually removed, and the statistics report consumption and the interval's maximum exactly.",
 ["histories","schedules"],"every history of acquire/release/close/GC up to the bound","Needs close and GC at chosen points.",
 ["src/counter/sockets.cpp","src/counter/gc.cpp","src/counter/object.hpp"],[("counter_socket::release_all","src/counter/sockets.cpp"),("gc_thread","src/counter/gc.cpp")])
p("P32","Counter requests are decoded safely and responses are well-formed",
 "For every byte sequence the counter parser stays inside the received bytes, consumes exactly 12+body-length bytes, decodes opcode, name, resources and maximum exactly, and rejects inconsistent lengths, empty names and unknown opcodes; every response carries magic 0x91, the request's opcode and opaque, and a body length equal to the bytes that follow.",
 ["inputs"],"every header and body byte up to the bound","Length fields interact; tests use consistent ones.",
 ["src/counter/counter.cpp"],[("counter::request::parse","src/counter/counter.cpp"),("counter::response","src/counter/counter.cpp")])
p("P33","dynbuf behaves as a byte vector",
 "For every sequence of append, prepare/consume, erase, reset, swap and move operations, a dynbuf holds exactly the bytes a byte vector would hold, never reads or writes outside its allocation and never leaks.",
 ["histories","inputs"],"every operation sequence and size up to the bound","Growth and front-erase boundaries are not enumerated by tests.",
 ["cybozu/dynbuf.hpp"],[("dynbuf","cybozu/dynbuf.hpp")])
p("P34","Hashing is SipHash-2-4 and byte-order helpers are exact inverses",
 "The hash of every key of every length under every 128-bit seed equals SipHash-2-4 and reads only the key's bytes; hton/ntoh convert to and from big-endian exactly for every 16-, 32- and 64-bit value.",
 ["inputs"],"every key content up to the bound, every seed, every integer","Reference vectors use one seed and a few lengths.",
 ["cybozu/siphash.cpp","cybozu/util.hpp"],[("siphash24","cybozu/siphash.cpp"),("ntoh/hton","cybozu/util.hpp")])
p("P35","Configuration accepts exactly the documented values",
 "Loading a configuration accepts a value if and only if it lies in its documented range (ports 1-65535, workers 1-64, positive buckets, intervals and sizes with k/m/g units, booleans, log levels, absolute log path), the accepted value is the one later reported, and anything else is refused with an error rather than wrapped or truncated.",
 ["inputs","configurations"],"every short spelling of every numeric and boolean setting","Boundaries and unit suffixes multiply.",
 ["src/config.cpp","cybozu/config_parser.hpp","cybozu/config_parser.cpp"],[("config::load","src/config.cpp"),("config_parser","cybozu/config_parser.hpp")])
p("P36","Connections are admitted only within the limits and role",
 "A slave refuses every memcache and counter client; a master admits a client exactly when max_connections is 0 or the number of live connections is below it, each connection is counted exactly once until it closes, and at most MAX_SLAVES replication connections are admitted.",
 ["histories","configurations"],"every open/close history and limit up to the bound","Count drift shows only after particular close paths.",
 ["src/memcache/handler.cpp","src/counter/handler.cpp",SK],[("make_memcache_socket / make_repl_socket","src/memcache/handler.cpp")])
p("P37","keys returns exactly the live keys with the prefix",
 "The keys command (text and binary) returns each unexpired key having the given prefix exactly once, no other key, followed by its terminator.",
 ["inputs","histories"],"every prefix and key content up to the bound","Prefix boundaries and expiry combine.",
 [SK,"cybozu/hash_map.hpp"],[("Keys command","src/memcache/sockets.cpp"),("hash_key::has_prefix","cybozu/hash_map.hpp")])
p("P38","Heartbeats and timeouts drop exactly the dead slaves",
 "A slave connection is dropped by the master when and only when no byte arrived from it for slave_timeout seconds or it closed; a dropped slave receives nothing further and live slaves keep receiving every update.",
 ["histories","inputs"],"every clock and heartbeat pattern up to the bound","Timeouts are too slow to test.",
 ["src/memcache/handler.cpp","src/memcache/sockets.hpp"],[("handler::on_master_interval","src/memcache/handler.cpp"),("repl_socket::timed_out","src/memcache/sockets.hpp")])
p("P39","Role changes keep the replicated data and never leave a false master",
 "A slave whose node gets the virtual IP - while connected, or within the promotion window after its connection to the master ended in any way - becomes a master that accepts clients and serves exactly the objects replicated so far; one whose node does not get it closes the old connection and joins again as an empty slave; a master whose node lost the virtual IP exits with status 2 at its next GC run; termination signals end the server in either role and other handled signals do not.",
 ["fault_sequences","histories"],"every record stream up to the bound, every way the connection can end, both arrival times of the address, each handled signal","Failover needs a second node, a moving address and a connection that fails at a chosen point.",
 ["src/server.cpp","src/memcache/handler.cpp","src/memcache/sockets.cpp","src/memcache/gc.cpp","cybozu/signal.cpp"],[("server::serve / serve_slave","src/server.cpp"),("handler::on_slave_start / on_slave_end","src/memcache/handler.cpp"),("gc_thread::run","src/memcache/gc.cpp"),("repl_client_socket","src/memcache/sockets.hpp")])
p("P40","Statistics count exactly what happened",
 "The statistics reported by Stat, stats and the counter Stats are exact: every complete well-formed request adds one to its own command's count and to no other; every key retrieved adds one to get_hits if found and to get_misses if not; every conditional Set, Replace or cas adds one to exactly one of cas_hits, cas_misses and cas_badval according to its outcome; total_items grows by one per object created; connection and slave counts equal the connections open and accepted; sizes, item counts, expirations and settings are those of the last collection and of the configuration; each number is its counter's decimal rendering.",
 ["inputs","histories"],"every command on every object state with symbolic arguments, every short history of connections and collections","Tests read a few names; a count that is missed or doubled needs the particular outcome.",
 [SK,"src/memcache/memcache.cpp","src/memcache/stats.hpp","src/memcache/gc.cpp","src/counter/counter.cpp","src/counter/sockets.cpp"],[("memcache_socket::cmd_bin / cmd_text","src/memcache/sockets.cpp"),("binary_response::stats_* / text_response::stats_*","src/memcache/memcache.cpp"),("gc_thread::run","src/memcache/gc.cpp"),("counter::response::stats","src/counter/counter.cpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids)); 
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
