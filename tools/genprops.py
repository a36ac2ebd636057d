#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
M="core/main.go"; C="core/internal/statestore/cache/replicatedticketcache.go"; CM="core/internal/statestore/cache/metrics.go"
R="core/internal/statestore/redis/redis.go"; ME="core/internal/statestore/memory/main.go"; F="core/internal/filter/filter.go"
S="mmf/server/server.go"; D="core/internal/statestore/datatypes/store.go"; CF="core/internal/config/config.go"
SV="core/server.go"; MT="core/metrics.go"; L="core/internal/logging/logging.go"; X="matchmaker-example/main.go"
SD="functions/golang/soloduel/soloduel.go"; BR="functions/golang/battleroyale/battleroyale.go"; TS="functions/golang/teamshooter/teamshooter.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p("C01","Number, string and tag filters select exactly the tickets they describe",
 "A ticket matches a pool only if it has every number named by the pool's double-range filters and each lies between minimum and maximum, where an edge value is rejected exactly when that filter's bounds setting excludes that edge; only if it has every named string with exactly the required value; and only if every required tag is among its tags. A ticket that meets all filters of the pool is never rejected, whatever the number and order of filters, and a ticket without the attributes a filter names simply does not match.",
 ["inputs"],"all tickets and pools: every combination of present/absent attribute, ordering of value against both edges (NaN included), bounds setting and number of filters",
 "The table tests sample a few dozen tickets; most bounds/ordering combinations per filter position and absent attributes are never exercised.",
 [F],[("filter decision",F+": In"),("caller that fills pools",M+": InvokeMatchmakingFunctions")],["participants of the pools received by an MMF"])
p("C02","A creation-time filter selects exactly the tickets created in its window",
 "A pool with a creation-time window contains exactly the tickets created from its start to its end, an edge instant being rejected exactly when the bounds setting excludes that edge. An absent start or end leaves that side of the window open.",
 ["inputs"],"all tickets and windows: every ordering of the creation time against start and end, every bounds setting, present or absent start and end",
 "The existing cases use one far-away window and assert what the inverted comparison happens to give.",
 [F],[("creation time comparison",F+": In")],["participants of the pools received by an MMF"])
p("C03","A pool with an invalid creation-time filter is never filled, a valid one is",
 "A pool whose creation-time window has a start or an end that is present but not a valid timestamp is reported invalid with an error and gets no tickets. Every other pool, including one without a window or with only one edge, is accepted without an error.",
 ["inputs"],"all pools: start and end each absent, valid or invalid",
 "No test submits a pool with one absent and one invalid edge to the validation, nor an invalid pool to an invocation.",
 [F,M],[("pool validation",F+": ValidatePoolFilters"),("only validated pools are filled",M+": InvokeMatchmakingFunctions")])
p("C04","Only active tickets are ever offered to matchmaking functions",
 "A ticket enters the pools of an invocation only if it is not marked inactive, and this holds at every interleaving with the replication and expiration work: a newly created ticket is marked inactive before it becomes visible, an expiring ticket stops being visible before its inactive mark is removed, and a reader combines a copy of the inactive marks taken before with a check made after it saw the ticket.",
 ["schedules","histories"],"all interleavings of an invocation with creation, (de)activation and expiration on the same instance",
 "No test runs an invocation next to the cache writers; the window is a few instructions wide.",
 [M,C],[("writer order on ticket creation",C+": IncomingReplicationQueue"),("order on expiration",C+": IncomingReplicationQueue"),("reader",M+": setDifference")])
p("C05","Every active ticket appears once in each valid pool whose filters it meets",
 "For one invocation, every active ticket is tested against every valid pool of the profile and is put exactly once, unmodified, into each pool whose filters it meets, under that pool's own name, and into no other pool. No ticket or pool is skipped because of what happened to another one.",
 ["inputs"],"all sets of active tickets, profiles and chunk boundaries",
 "No existing test runs the pool-filling loop.",
 [M],[("pool filling loop",M+": InvokeMatchmakingFunctions")],["chunks received by an MMF"])
p("C06","Matchmaking functions receive the caller's profile unchanged",
 "Every part of a chunked request carries the profile's name and extensions and, for every valid pool, its name, filters and extensions exactly as the caller sent them; only the participants are filled in by the server. Every matchmaking function of one invocation gets the same request.",
 ["inputs"],"all profiles, pools and numbers of chunks",
 "No test inspects a request as received by a matchmaking function.",
 [M],[("chunk assembly",M+": InvokeMatchmakingFunctions")],["chunks received by an MMF"])
p("C07","Every chunk fits the message limit, and the chunk count is the true total",
 "When pool contents are split, a new chunk is begun before a ticket would take the running size of the current chunk to the 4 MB budget or over, where the running size starts from the size of the profile without participants in every chunk and grows by at least each added ticket's encoded size in its roster. Every chunk states the total number of chunks, and all chunks are sent to each matchmaking function once, in order.",
 ["inputs"],"all numbers and sizes of tickets and pools that fit individually",
 "Tests never build a request of more than one chunk.",
 [M],[("size accounting",M+": InvokeMatchmakingFunctions"),("chunk sending",M+": InvokeMatchmakingFunctions")])
p("C08","A chunked request is reassembled completely by the function-side helper",
 "The helper reads chunks until it has received as many as the request announces, and returns a profile that holds the name and extensions of the profile and every pool that appeared in any chunk with its own name, filters and extensions and the participants of all its chunks, each once and in arrival order. If receiving fails before the last chunk, it returns the error and no profile. No sequence of chunks makes it fail at run time.",
 ["inputs","fault_sequences"],"all chunk sequences: any number of chunks, pools appearing in any subset of them, with or without participants, and a failure at any point",
 "No test feeds the helper a stream.",
 [S],[("reassembly",S+": GetChunkedRequest")])
p("C09","Every match a function returns reaches the caller once, before the call ends",
 "Each match received from a matchmaking function is streamed to the caller of the invocation exactly once and unmodified, whether or not it contains tickets and whether or not that function, another function or the caller fails later. The invocation does not complete until all matchmaking functions have finished and every match received has been handed to the stream, and messages are put on the stream by one goroutine only.",
 ["schedules","fault_sequences"],"all interleavings of matchmaking functions, matches and failures",
 "No test runs an invocation with more than a hand-driven function, and none with a failing one.",
 [M],[("fan-in and wait groups",M+": InvokeMatchmakingFunctions")],["stream of matches to the caller"])
p("C10","Tickets of a match are deactivated before the match is returned",
 "For every match received, the deactivation of every ticket in every roster of that match is written to the state storage (its reply received) before the match is streamed to the caller. When the wait option is on, the match is held back until the local cache shows the last of these tickets inactive or a bounded timeout (of a second or more) passes; when it is off the match is not held back for that.",
 ["schedules","configurations","inputs"],"all matches, both settings of the wait option, all replication delays",
 "No test looks at the order of deactivation and match delivery.",
 [M],[("match goroutine",M+": InvokeMatchmakingFunctions"),("deactivation",M+": updateTicketsActiveState")])
p("C11","Matchmaking functions run once each, bounded, and independent of the caller",
 "Each matchmaking function in the request is called exactly once, concurrently, at its own host, with the port appended exactly when one is given. Such a call is not cancelled when the caller goes away, always has the configured timeout as its deadline, and its connection and deadline timer are released on every way out; a failing function does not prevent the other ones from being called. An invocation without a profile or without functions is refused with an invalid-argument error and calls none.",
 ["inputs","fault_sequences","schedules"],"all lists of functions and all failures of any of them",
 "No test invokes more than one function or cancels the caller.",
 [M],[("function fan-out",M+": InvokeMatchmakingFunctions")])
p("C12","A created ticket is stored with exactly the client's data and bounded times",
 "The stored ticket has the tags, strings, numbers and extensions of the request; the request's creation time if it is valid and the current time otherwise; and as expiration time the requested one if it is valid and not later than creation time plus the configured ticket lifetime, and exactly that latest moment otherwise. A request without a ticket is refused with an invalid-argument error and stores nothing; nothing is stored either when the ticket cannot be encoded.",
 ["inputs","configurations"],"all requests: each timestamp absent, valid or invalid, expiration before, at or after the limit, every lifetime setting",
 "No test calls ticket creation.",
 [M],[("ticket defaults",M+": CreateTicket")],["value written to the state storage"])
p("C13","A ticket's id is the unique id given by the state storage",
 "The id returned for a created ticket is the one the state storage gave to that very write, and the ticket is visible under and carries that same id on every instance, whatever id the client put in the request. Ids have the form time-sequence with the time in milliseconds, and two tickets never get the same id.",
 ["histories","inputs"],"all histories of creations, including several per millisecond and a clock that steps back",
 "Uniqueness and agreement concern all histories; tests create no tickets through the server.",
 [M,C,R,ME],[("id assignment",ME+": getReplId, SendUpdates; "+R+": SendUpdates, GetUpdates"),("id set on apply",C+": IncomingReplicationQueue"),("reply",M+": CreateTicket")])
p("C14","Bulk state updates respect the configured number of updates per call",
 "An activation, deactivation or assignment request that lists more tickets than the configured maximum is refused with an invalid-argument error before any update is queued; a request with exactly the maximum is accepted. Activation and deactivation requests with no ticket ids are refused as well.",
 ["inputs","configurations"],"all request sizes and limits",
 "No test calls these handlers with boundary sizes.",
 [M],[("limit checks",M+": ActivateTickets, DeactivateTickets, CreateAssignments")])
p("C15","Only well-formed ids are activated or deactivated, and bad ones are reported",
 "Each well-formed ticket id in an activation (deactivation) request is queued exactly once as an activation (deactivation) of that id and nothing else is queued; an id is well formed only if the whole string is digits, a dash, digits. Every malformed id is named to the caller in an error, and the well-formed ids of the same request are still processed.",
 ["inputs"],"all lists of id strings",
 "The only test of ids checks a handful of strings, not what happens to them.",
 [M,R,ME],[("validation pattern",R+": GetReplIdValidationRegex; "+ME+": GetReplIdValidationRegex"),("partition",M+": validateTicketIds"),("queueing",M+": updateTicketsActiveState")])
p("C16","Every queued update gets exactly its own reply",
 "Each update accepted into the replication queue is written to the state storage at most once and its submitter receives exactly one reply, which is the result of that very update, whatever other updates share its batch and whichever of them fail. Submitters wait for exactly as many replies as they queued updates, and batches are written in the order updates were queued.",
 ["schedules","fault_sequences","histories"],"all batch compositions, all failures of individual updates, all numbers of concurrent submitters",
 "Tests use no replicator that fails part of a batch and no concurrent submitters.",
 [C,R,ME,M],[("batching and reply distribution",C+": OutgoingReplicationQueue"),("pairing of storage replies",R+": SendUpdates; "+ME+": SendUpdates"),("waiting",M+": updateTicketsActiveState, CreateTicket, CreateAssignments")])
p("C17","A failed write is never reported as success",
 "If writing an update to the state storage fails, as a whole batch or individually, or the update is not valid, its reply carries an error together with the key of the update; every such error reaches the caller of the ticket creation, activation, deactivation or assignment call as a failure. A successful write is never reported as failed.",
 ["fault_sequences","inputs"],"all failures of the storage connection, of single commands and of conversions",
 "There is no fault-injecting storage in the tests.",
 [R,M],[("error replies",R+": SendUpdates"),("error propagation",M+": CreateTicket, updateTicketsActiveState, addStateUpdateErrorDetails, CreateAssignments")])
p("C18","What is written to the replication stream is read back as the same update",
 "For each of the four kinds of update, the fields written to the storage stream are those from which the reader rebuilds the same kind, key and value (the key of a new ticket being its stream id); no two kinds are confused. Entries of an unknown kind or with too few fields are skipped without producing an update and without crashing.",
 ["inputs","histories"],"all updates and all stream entries, including malformed ones",
 "The redis test needs a live redis and is not run; the writer and reader tables are never compared.",
 [R,D],[("writer table",R+": SendUpdates"),("reader table",R+": GetUpdates")])
p("C19","Replicated updates are consumed once each, in order, without gaps",
 "A storage reader starts at the beginning of the stream, asks for entries after the last one it has consumed, and moves its position only to entries it has just read, in order, so no entry is delivered twice or skipped. All updates obtained by one read are handed on in the order received, and each is applied to the local cache exactly once in that order.",
 ["histories","schedules","fault_sequences"],"all stream contents, batch boundaries and failed reads",
 "No test reads two batches from a stream.",
 [R,C,ME],[("cursor",R+": GetUpdates"),("hand-over",C+": IncomingReplicationQueue"),("in-memory stream",ME+": GetUpdates, SendUpdates")])
p("C20","Applying an update changes exactly the local state it names",
 "Applying a ticket creation stores the decoded ticket under its id and marks it inactive; an activation removes the inactive mark of its key; a deactivation sets it; an assignment stores the decoded assignment under its key. Nothing else changes, and an update whose content cannot be decoded changes nothing.",
 ["inputs","histories"],"all updates of all kinds",
 "No test applies an update to a cache.",
 [C],[("apply switch",C+": IncomingReplicationQueue")],["local cache contents"])
p("C21","Only the replication goroutine changes the local view of tickets",
 "The local copies of tickets, inactive marks and assignments are changed only by the single goroutine that applies replicated updates and expires entries; request handlers never change them directly, never change a cached ticket in place, and change state only by queueing an update for replication.",
 ["schedules","programs"],"all code reachable from request handlers, metrics callbacks and background goroutines",
 "A test cannot show the absence of another writer.",
 [C,M],[("single applier",C+": IncomingReplicationQueue"),("update queue",M+": all handlers")])
p("C22","Cached entries expire exactly when the documented rules say",
 "On every cycle, every inactive mark older than the configured ticket lifetime is removed together with its ticket, every ticket whose expiration time has passed is removed, and every assignment older than ticket lifetime plus additional assignment lifetime is removed. No entry is removed before that, and the storage stream is trimmed only of entries older than the ticket lifetime.",
 ["inputs","configurations","histories"],"all cache contents, ages and lifetime settings",
 "Tests never run an expiration cycle, and expiry takes minutes.",
 [C,R],[("expiration cycle",C+": IncomingReplicationQueue"),("stream trimming",R+": SendUpdates")])
p("C23","Times and durations are never mixed across units",
 "Every duration derived from a setting named in seconds or milliseconds is scaled by that unit, and ticket-id timestamps (milliseconds), Unix times and lifetimes are compared, added and converted only in the same unit.",
 ["configurations","inputs"],"every arithmetic or comparison on times, for all settings",
 "A wrong unit shows only after minutes of waiting or with unusual settings.",
 [C,R,ME,M],[("duration construction",C+", "+ME+", "+M),("id timestamps",C+", "+M+", "+R)])
p("C24","Every storage connection taken from a pool is given back",
 "Each connection obtained from a storage connection pool is closed on every way out of the code that obtained it, error returns included, after its last use, and is not used by anything that outlives it; writes use the write endpoint and reads the read endpoint.",
 ["histories","fault_sequences"],"all paths of all storage operations",
 "A leak shows only after hundreds of operations against a live redis.",
 [R],[("connection handling",R+": SendUpdates, GetUpdates, New")])
p("C25","No client, function or storage input can crash the server",
 "No request, matchmaking function response or stream entry makes the server index out of range, dereference a missing part of a message, fail an unchecked type assertion, write to a nil map, divide by zero or call a fatal exit.",
 ["inputs"],"all messages that can arrive from clients, functions and storage, including empty lists and absent sub-messages",
 "Tests send only well-formed messages.",
 [M,F,C,R,S],[("nil-safe access and guards",M+", "+F+", "+R+", "+S)])
p("C26","Channels and goroutines of a call cannot outlive it harmfully",
 "Nothing is ever sent on a channel that may already be closed, no channel is closed twice, and no handler returns while a goroutine could still use the resources it releases. Goroutines started by a call end when the call does (or within a bounded time), never block forever on a reply or result channel nobody reads, and never block the shared replication goroutine.",
 ["schedules","fault_sequences"],"all interleavings of handlers with the goroutines they start, with failures and cancellations",
 "Needs particular interleavings of several goroutines with failures.",
 [M,C],[("wait groups and channel closing",M+": InvokeMatchmakingFunctions, WatchAssignments, updateTicketsActiveState"),("reply channels",C+": OutgoingReplicationQueue")])
p("C27","Goroutines share only synchronised data",
 "Variables shared between goroutines are not written without synchronisation: closures started as goroutines do not assign variables another goroutine uses, global state written by background work is accessed atomically or through concurrency-safe containers, and wait-group counts are raised before the goroutine they count is started and lowered exactly once by it.",
 ["schedules"],"all interleavings of handlers, background goroutines and callbacks",
 "Race detection in tests sees only executed interleavings, and no test runs these goroutines together.",
 [M,C,CM,SV,X],[("captured variables and counters",M+", "+C+", "+CM+", "+SV+", "+X)])
p("C28","Every setting the program reads is declared, with a value of its type",
 "Every configuration key read anywhere in the server has a declared default (without one the environment is ignored), and is read as the type of that default (or as its text). Environment overrides are enabled before any key is read, and each documented setting takes effect where it is documented to.",
 ["configurations","programs"],"all reads of all configuration keys",
 "Tests read only logging keys; an undeclared key silently reads as zero.",
 [CF,L,M,C,R,ME],[("declared defaults",CF+": Read"),("reads","all packages under core")])
p("C29","Every metric used exists, and gauges return to their starting value",
 "Every metric instrument is created under a unique name before the first request can use it, and every value recorded describes the event it is named for: the gauge of open assignment watches returns to its prior value whenever a watch ends for any reason, and counters of matches, updates and calls count each once.",
 ["programs","schedules","inputs"],"all uses of all instruments, all ways a watch can end",
 "Tests register no metrics; a missing one is a nil dereference at run time only.",
 [MT,CM,M,SV],[("registration",MT+": registerMetrics; "+CM+": RegisterMetrics"),("watch gauge",M+": WatchAssignments")])
p("C30","The served API is the documented one, over gRPC and HTTP alike",
 "Every RPC of the public service definition is implemented and registered on the gRPC server, every HTTP route in the API description is served by the gateway with the same method, path and message types, and the generated API code shipped in the repository's copies and the protocol definitions agree. Both are served until a signal asks the server to stop.",
 ["programs"],"all RPCs, routes, messages and fields",
 "No test starts the server or compares the generated copies with the definitions.",
 ["proto/v2","pkg/api/v2/api.pb.gw.go","pkg/pb/v2","core/pkg",SV],[("registration",SV+": start"),("gateway",  "pkg/api/v2/api.pb.gw.go")])
p("C31","Assignments reach every listed ticket and every watcher, or an error is returned",
 "An assignment request stores the given assignment once for each listed ticket with an id, reports an error if any ticket has no id or any write fails, and is refused without a roster or an assignment. A watch delivers to its caller, for every watched ticket that gets an assignment before the timeout, exactly one message with that ticket's id and that ticket's assignment.",
 ["inputs","schedules"],"all rosters and watch requests, all orders in which assignments appear",
 "No test calls the assignment functions.",
 [M],[("assignment",M+": CreateAssignments"),("watch",M+": WatchAssignments")])
p("C32","The sample matchmaking functions only produce complete, disjoint matches",
 "Each sample function returns the error when it cannot receive its request or send a match, otherwise streams only matches with a full roster of the intended size taken from the pools it was sent, uses each pool entry at most once per run, and does not change a roster after it was sent. No profile makes it fail at run time.",
 ["inputs"],"all pool contents and sizes",
 "The sample functions have no tests.",
 [SD,BR,TS],[("match building",SD+": Run; "+BR+": Run; "+TS+": Run")])
p("C33","The example matchmaker activates every ticket, in batches within the limit",
 "Every ticket id waiting for activation is sent in exactly one activation call, in batches no larger than the server's default limit, and the caller waits for all these calls. All tickets of rejected matches are queued for re-activation, and every match received is counted either as accepted or as rejected.",
 ["inputs","schedules"],"all numbers of waiting tickets and matches",
 "The example has no tests.",
 [X],[("batching",X+": activateTickets"),("rejected matches",X+": main")])
p("C34","No update waits forever, and no update or expiration is starved",
 "An accepted update is written at the latest after the configured waiting time or when the configured batch size is reached, without an update being lost or repeated between batches; a steady stream of updates can neither extend the waiting time nor keep the expiration of old entries from running. Both replication loops run for the life of the server whatever a single batch contains, every round of them looks for what is new, and each reading of the state storage ends after a bounded time.",
 ["schedules","configurations","histories"],"all arrival patterns and settings",
 "Needs sustained load and timing that tests do not create.",
 [C,ME],[("outgoing batch loop",C+": OutgoingReplicationQueue"),("incoming loop",C+": IncomingReplicationQueue"),("in-memory poll",ME+": GetUpdates")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
