From 3d2570ce19ee186b07ce0e87e5fb623f2202acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 01/34] fix: return redis connections to their pool

SendUpdates and GetUpdates took a connection from the pool on every call and
never closed it. The pools block at OM_REDIS_POOL_MAX_ACTIVE (Wait: true), so
after that many calls all replication hung for good.
---
 core/internal/statestore/redis/redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index eacd97d..025b60b 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -106,6 +106,8 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 
 	var err error
 	rConn := rr.wConnPool.Get()
+	// Give the connection back to the pool
+	defer rConn.Close()
 	const redisCmd = "XADD"
 	out := make([]*store.StateResponse, len(updates))
 
@@ -252,6 +254,8 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 	logger.Debugf("Executing redis command: %v %v", redisCmd, redisArgs)
 
 	rConn := rr.rConnPool.Get()
+	// Give the connection back to the pool
+	defer rConn.Close()
 	data, err := rConn.Do(redisCmd, redisArgs...)
 	if err != nil {
 		logger.Errorf("Redis error: %v", err)
-- 
2.43.0


From ad1609bd74d749b16a7045e24565c4272c23bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 02/34] fix: pair redis results with the updates that were sent

An update that fails validation is not sent to redis, so redis returns no
result for it, but results were matched to updates by position. After an
invalid update in a batch, every later update in it got the result of another
one (CreateTicket returned the id of someone else's ticket) and the last ones
got an empty success.
---
 core/internal/statestore/redis/redis.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 025b60b..8f2ae05 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -195,10 +195,13 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	// Last command we sent was the XTRIM above, so read all results but that final one into
 	// the array of strings to return from this function
 	if r != nil { // Make sure we have results before we parse them
-		for index := 0; index < len(r.([]interface{}))-1; index++ {
+		// Updates that failed validation were never sent, so there is no result for those.
+		sent := 0
+		for index := range out {
 			// First, make sure this was a valid update
 			if out[index].Err == nil {
-				t, err := redis.String(r.([]interface{})[index], err)
+				t, err := redis.String(r.([]interface{})[sent], err)
+				sent++
 				if err != nil {
 					out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
 					t = ""
-- 
2.43.0


From aa18e56a2396c99e863dee71df7e7b124692b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 03/34] fix: report a failed redis write to the callers

When executing the pipeline failed, SendUpdates returned empty responses
without an error, so CreateTicket succeeded with an empty ticket id and
(de)activations succeeded without being stored. A response with an error now
also always carries the key of the update, as StateResponse documents.
---
 core/internal/statestore/redis/redis.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 8f2ae05..bb9a640 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -190,6 +190,13 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	r, err := rConn.Do("")
 	if err != nil {
 		logger.Errorf("Do error: %v", err)
+		// None of the updates in this batch are known to have been written.
+		for index := range out {
+			out[index].Result = updates[index].Key
+			if out[index].Err == nil {
+				out[index].Err = fmt.Errorf("Redis error: %w", err)
+			}
+		}
 	}
 
 	// Last command we sent was the XTRIM above, so read all results but that final one into
@@ -204,7 +211,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 				sent++
 				if err != nil {
 					out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
-					t = ""
+					t = updates[index].Key
 				}
 				out[index].Result = t
 				fmt.Printf(" %v - found string: %v\n", index, t)
-- 
2.43.0


From 191bec0017e3ec79e67274206fcd841e6e9015df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 04/34] fix: skip replication updates that cannot be decoded

An entry of an unknown type in the replication stream was applied as the
creation of a ticket with an empty id, and an entry with too few fields
crashed om-core with an index out of range.
---
 core/internal/statestore/redis/redis.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index bb9a640..5be8d6a 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -294,6 +294,11 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 				if err != nil {
 					logger.Error(err)
 				}
+				if !isUpdate(y) {
+					logger.Errorf("Skipping unknown or malformed replication update %v", replId)
+					rr.replId = replId
+					continue
+				}
 				switch y[0] {
 				case "ticket":
 					thisUpdate.Cmd = store.Ticket
@@ -322,6 +327,21 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 	return out
 }
 
+// isUpdate checks that the fields of an entry in the replication stream are
+// those of one of the updates that SendUpdates writes.
+func isUpdate(fields []string) bool {
+	if len(fields) == 0 {
+		return false
+	}
+	switch fields[0] {
+	case "ticket", "activate", "deactivate":
+		return len(fields) >= 2
+	case "assign":
+		return len(fields) >= 4
+	}
+	return false
+}
+
 // getReplIdValidationRegex returns a raw string representing a regular
 // expression that can be used to match replication id strings.
 // https://redis.io/docs/data-types/streams/#entry-ids
-- 
2.43.0


From 275ace48d9a69b38a6a8c6453445532ae59d6f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 05/34] fix: match whole ticket ids when validating them

The validation regex was unanchored and every part of it optional, so any
string with a dash in it passed as a ticket id and was replicated.
---
 core/internal/statestore/memory/main.go | 2 +-
 core/internal/statestore/redis/redis.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index 4909021..6e728d3 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -40,7 +40,7 @@ func New(cfg *viper.Viper) *memoryReplicator {
 // GetReplIdValidationRegex returns a raw string representing a regular
 // expression that can be used to match replication id strings.
 func (rc *memoryReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
 
 // GetUpdates mocks how the statestore/redis module processes a Redis Stream XRANGE command.
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 5be8d6a..d8a90f2 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -346,5 +346,5 @@ func isUpdate(fields []string) bool {
 // expression that can be used to match replication id strings.
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rr *redisReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
-- 
2.43.0


From 7d18a3584d2e1b5e534f0ce31ac973f73c91be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 06/34] fix: treat ticket ids as millisecond timestamps

Ids are Redis stream entry ids, whose first part is in milliseconds; the
cache compared them with seconds, so nothing ever expired, and the age of
a watched ticket was computed as if ids held seconds.
---
 .../internal/statestore/cache/replicatedticketcache.go | 10 +++++-----
 core/internal/statestore/memory/main.go                |  4 ++--
 core/internal/statestore/redis/redis.go                |  2 +-
 core/main.go                                           |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index be18da2..63e2c13 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -256,8 +256,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		// revisit / possibly do it asynchronously
 		//
 		// Ticket IDs are assigned by Redis in the format of
-		// <unix_timestamp>-<index> where the index increments every time a
-		// ticket is created during the same second. We are only
+		// <unix_timestamp_in_ms>-<index> where the index increments every time a
+		// ticket is created during the same millisecond. We are only
 		// interested in the ticket creation time (the unix timestamp) here.
 		//
 		// The in-memory replication module just follows the redis entry ID
@@ -296,7 +296,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) > int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) > 1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
 					// Ensure that when expiring a ticket from the inactive set, the ticket is always deleted as well.
 					_, existed := tc.Tickets.LoadAndDelete(id)
 					if existed {
@@ -329,8 +329,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) >
-					int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) >
+					1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
 					tc.Assignments.Delete(id)
 					numAssignmentDeletions++
 				}
diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index 6e728d3..a09ad38 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -96,12 +96,12 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 // GetReplId mocks how Redis Streams generate entry IDs
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rc *memoryReplicator) getReplId() string {
-	if time.Now().Unix() == rc.replTS.Unix() {
+	if time.Now().UnixMilli() == rc.replTS.UnixMilli() {
 		rc.replCount += 1
 	} else {
 		rc.replTS = time.Now()
 		rc.replCount = 0
 	}
-	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.Unix(), 10), rc.replCount)
+	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.UnixMilli(), 10), rc.replCount)
 	return id
 }
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index d8a90f2..0667095 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -179,7 +179,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	}
 
 	// Append command to remove expired entries
-	expirationThresh := strconv.FormatInt(time.Now().Unix()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
+	expirationThresh := strconv.FormatInt(time.Now().UnixMilli()-1000*rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
 	logger.Debugf("Executing redis command: XTRIM om-replication MINID %v", expirationThresh)
 	err = rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
 	if err != nil {
diff --git a/core/main.go b/core/main.go
index f603ef2..09daf7f 100644
--- a/core/main.go
+++ b/core/main.go
@@ -842,7 +842,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		if err != nil {
 			logger.Error(err)
 		}
-		ticketCtime := time.Unix(x, 0)
+		ticketCtime := time.UnixMilli(x)
 
 		// find the newest ticket creation time.
 		if ticketCtime.After(newestTicketCtime) {
-- 
2.43.0


From 0574a15b1cbe5eb0e8642b8725a9b983cdd54adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 07/34] fix: keep in-memory ids unique when the clock steps
 back

---
 core/internal/statestore/memory/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index a09ad38..bd21ba7 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -96,7 +96,7 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 // GetReplId mocks how Redis Streams generate entry IDs
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rc *memoryReplicator) getReplId() string {
-	if time.Now().UnixMilli() == rc.replTS.UnixMilli() {
+	if time.Now().UnixMilli() <= rc.replTS.UnixMilli() {
 		rc.replCount += 1
 	} else {
 		rc.replTS = time.Now()
-- 
2.43.0


From 6206139ad9e5013d12ed8316fc089da3a2a48542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 08/34] fix: wait for outstanding matches when an mmf fails

An MMF that failed after streaming a match released its wait group slot
while that match was still being deactivated; the match was then sent on
the closed results channel, which crashed the server.
---
 core/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/main.go b/core/main.go
index 09daf7f..290d140 100644
--- a/core/main.go
+++ b/core/main.go
@@ -582,6 +582,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// deactivations are complete. (All tickets in matches returned
 				// by the MMF are set to inactive by OM)
 				var tdwg sync.WaitGroup
+				// Also wait for them when returning early due to an MMF error.
+				defer tdwg.Wait()
 
 				// i counts the number of loops for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
-- 
2.43.0


From f31f2450f40e89ae022f5611204d730bc497a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 09/34] fix: do not return before the last match is streamed
 back

---
 core/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/main.go b/core/main.go
index 290d140..dfdef0a 100644
--- a/core/main.go
+++ b/core/main.go
@@ -722,6 +722,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	mmfwg.Wait()
 	logger.Debugf("MMF waitgroup done; closing waitchan")
 	close(waitChan)
+	// Wait for the fan-in goroutine to finish streaming back the last match.
+	<-matchChan
 	return nil
 }
 
-- 
2.43.0


From 9a4f20c0596dec734331f0589527c0e8d19ab3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 10/34] fix: accept matches that contain no tickets

The index of the last ticket of such a match is -1; using it crashed the
server.
---
 core/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/main.go b/core/main.go
index dfdef0a..a1004d9 100644
--- a/core/main.go
+++ b/core/main.go
@@ -670,7 +670,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 
 						// Option 1: Wait for deactivation to complete BEFORE
 						// returning the match.
-						if cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
+						if len(ticketIdsToDeactivate) > 0 && cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
 							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
 							logger.Debug("ticket deactivations complete, returning match")
 						}
@@ -684,7 +684,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 
 						// Option 2: Match already returned; clean up
 						// goroutine when deactivation is complete.
-						if !cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
+						if len(ticketIdsToDeactivate) > 0 && !cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
 							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
 							logger.Debug("ticket deactivations complete for previously returned match")
 						}
-- 
2.43.0


From 5a8d4dece45532713da6ae603499772b377c2739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 11/34] fix: keep waiting until a deactivation is replicated

The check was only made once, 100 ms after the deactivation was sent, so
the timeout could not be reached and the wait option had no effect with
any longer replication delay.
---
 core/main.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/core/main.go b/core/main.go
index a1004d9..03791f1 100644
--- a/core/main.go
+++ b/core/main.go
@@ -652,18 +652,20 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 							// long to replicate, but best practices require
 							// /some/ timeout.
 							timeout := time.After(time.Second * 60)
-							select {
-							case <-timeout:
-								// Log the timeout and continue.
-								logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
-								return
-							default:
-								// There is always /some/ replication delay,
-								// sleep first
-								time.Sleep(100 * time.Millisecond)
-								if _, replComplete := tc.InactiveSet.Load(ticketId); replComplete == true {
-									logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
+							for {
+								select {
+								case <-timeout:
+									// Log the timeout and continue.
+									logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
 									return
+								default:
+									// There is always /some/ replication delay,
+									// sleep first
+									time.Sleep(100 * time.Millisecond)
+									if _, replComplete := tc.InactiveSet.Load(ticketId); replComplete == true {
+										logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
+										return
+									}
 								}
 							}
 						}
-- 
2.43.0


From c0ab02d20f23bfcaaa7a5ef5d13d680515f16d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 12/34] fix: send the whole profile to the mmfs

Only the participants of the pools are supposed to be split over chunks,
but the name, filters and extensions of every pool were left out, as were
the pools without participants in a chunk.
---
 core/main.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/main.go b/core/main.go
index 03791f1..580fc38 100644
--- a/core/main.go
+++ b/core/main.go
@@ -457,12 +457,19 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 			Pools:      pools,
 			Extensions: req.GetProfile().GetExtensions(),
 		}
-		for name, participantRoster := range chunk {
+		for name := range validPools {
+			pool := req.GetProfile().GetPools()[name]
 			profile.GetPools()[name] = &pb.Pool{
 				Participants: &pb.Roster{
 					Name:    name + "_roster",
-					Tickets: participantRoster,
+					Tickets: chunk[name],
 				},
+				Name:                    pool.GetName(),
+				TagPresentFilters:       pool.GetTagPresentFilters(),
+				StringEqualsFilters:     pool.GetStringEqualsFilters(),
+				DoubleRangeFilters:      pool.GetDoubleRangeFilters(),
+				CreationTimeRangeFilter: pool.GetCreationTimeRangeFilter(),
+				Extensions:              pool.GetExtensions(),
 			}
 		}
 		chunkedRequest[chunkIndex] = &pb.ChunkedMmfRunRequest{
-- 
2.43.0


From 474389bfabbfea0001142691155e70870cf1884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 13/34] fix: count the roster overhead of each ticket in the
 chunk size

Every ticket in a roster takes 2 or more bytes beyond its own size; with
small tickets a chunk could exceed the default 4mb message limit.
---
 core/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 580fc38..8c7cea6 100644
--- a/core/main.go
+++ b/core/main.go
@@ -427,7 +427,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 		for name, _ := range validPools {
 			// All the implementation details of filtering are in internal/filter/filter.go
 			if filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket)) {
-				ticketSize := proto.Size(ticket.(*pb.Ticket))
+				// Size of this ticket as an entry of the pool's roster
+				ticketSize := proto.Size(&pb.Roster{Tickets: []*pb.Ticket{ticket.(*pb.Ticket)}})
 				// Check if this ticket will put us over the max pb size for this chunk
 				if (curChunkSize + ticketSize) >= maxPbSize {
 					// Start a new chunk
-- 
2.43.0


From 7852f0915db33405990729a31f632cde7095ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 14/34] fix: stop the assignment watchers when the call returns

A watcher that found an assignment after the timeout sent it on a closed
channel, which crashed the server; the others kept polling forever.
---
 core/main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index 8c7cea6..1c6b474 100644
--- a/core/main.go
+++ b/core/main.go
@@ -827,7 +827,9 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 	// var init
 	newestTicketCtime := time.Now()
 	updateChan := make(chan *pb.StreamedWatchAssignmentsResponse)
-	defer close(updateChan)
+	// The watching goroutines exit when this call returns.
+	ctx, cancel := context.WithCancel(stream.Context())
+	defer cancel()
 
 	for _, id := range req.GetTicketIds() {
 		// Launch an asynch goroutine for each ticket ID in the request that just loops,
@@ -839,15 +841,22 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 					assignment := value.(*pb.Assignment)
 					logger.Debugf(" watchassignments loop got assignment %v for ticketid: %v",
 						assignment.Connection, ticketId)
-					updateChan <- &pb.StreamedWatchAssignmentsResponse{
+					select {
+					case updateChan <- &pb.StreamedWatchAssignmentsResponse{
 						Assignment: assignment,
 						Id:         ticketId,
+					}:
+					case <-ctx.Done():
 					}
 					return
 				}
 				// TODO exp bo + jitter. Not a priority since this API is
 				// marked as deprecated.
-				time.Sleep(1 * time.Second)
+				select {
+				case <-time.After(1 * time.Second):
+				case <-ctx.Done():
+					return
+				}
 			}
 		}(id)
 
-- 
2.43.0


From 5e1251bdab0470c7418fd430280256c96c53b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 15/34] fix: return assignment errors to the caller

---
 core/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 1c6b474..1758e26 100644
--- a/core/main.go
+++ b/core/main.go
@@ -805,7 +805,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	// Record metrics
 	AssignmentsPerCall.Record(parentCtx, int64(numUpdates))
 
-	return &pb.CreateAssignmentsResponse{}, nil
+	return &pb.CreateAssignmentsResponse{}, err
 }
 
 // WatchAssignments should be considered deprecated, and is only provided for
-- 
2.43.0


From 6388b368b0ac3b6ff54120ac33e7b2160ba70455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 16/34] fix: limit the number of assignments per call

The configuration documents OM_MAX_STATE_UPDATES_PER_CALL as the limit for
activate, deactivate and assignment requests.
---
 core/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/main.go b/core/main.go
index 1758e26..f0d74c0 100644
--- a/core/main.go
+++ b/core/main.go
@@ -754,6 +754,10 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	if req.GetAssignmentRoster() == nil || req.GetAssignmentRoster().GetAssignment() == nil {
 		return nil, status.Error(codes.InvalidArgument, "roster with assignment is required")
 	}
+	if len(req.GetAssignmentRoster().GetTickets()) > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
+		return nil, status.Errorf(codes.InvalidArgument, "Too many assignments requested in a single call (configured maximum %v, requested %v)",
+			cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL"), len(req.GetAssignmentRoster().GetTickets()))
+	}
 	assignmentPb, err := proto.Marshal(req.GetAssignmentRoster().GetAssignment())
 	if assignmentPb == nil || err != nil {
 		err = errors.Wrap(err, "failed to marshal the assignment protobuf")
-- 
2.43.0


From 724a1429701c186531adccb7ae23843bdbaa43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 17/34] fix: report invalid ticket ids to the caller

---
 core/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/main.go b/core/main.go
index f0d74c0..5fe19a2 100644
--- a/core/main.go
+++ b/core/main.go
@@ -309,7 +309,9 @@ func (s *grpcServer) ActivateTickets(parentCtx context.Context, req *pb.Activate
 	errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Activate)
 
 	// Add activation failures to the error details
-	_ = invalidTicketIds
+	for _, id := range invalidTicketIds {
+		errs[id] = errors.New("Ticket ID not valid")
+	}
 	err := addStateUpdateErrorDetails(errs)
 
 	// Record metrics
@@ -343,7 +345,9 @@ func (s *grpcServer) DeactivateTickets(parentCtx context.Context, req *pb.Deacti
 	errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Deactivate)
 
 	// Add deactivation failures to the error details
-	_ = invalidTicketIds
+	for _, id := range invalidTicketIds {
+		errs[id] = errors.New("Ticket ID not valid")
+	}
 	err := addStateUpdateErrorDetails(errs)
 
 	// Record metrics
-- 
2.43.0


From f3e53ea89d2be52ac74ef756048585aea9d741f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 18/34] fix: never treat a newly created ticket as active

A ticket created between copying the inactive set and reading the tickets
was missing from the copy, and so was offered to the mmfs although it was
never activated.
---
 core/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/main.go b/core/main.go
index 5fe19a2..3aa994f 100644
--- a/core/main.go
+++ b/core/main.go
@@ -982,6 +982,10 @@ func setDifference(tix *sync.Map, inactiveSet *sync.Map) (activeTickets []any) {
 		// not ok means an error was encountered, indicating this
 		// ticket is NOT inactive (meaning it IS active)
 		if _, ok := inactiveTicketIds[id.(string)]; !ok {
+			// The ticket may have been added after the inactive set was copied.
+			if _, ok := inactiveSet.Load(id); ok {
+				return true
+			}
 			activeTickets = append(activeTickets, ticket)
 		}
 		return true
-- 
2.43.0


From 3c61c8c96c4dabd3e7ba26aee9289872827bf2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 19/34] fix: do not crash when filtering tickets without
 attributes

---
 core/internal/filter/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/internal/filter/filter.go b/core/internal/filter/filter.go
index c30ebb0..83496d6 100644
--- a/core/internal/filter/filter.go
+++ b/core/internal/filter/filter.go
@@ -86,7 +86,7 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 	}
 
 	for _, filter := range pool.DoubleRangeFilters {
-		v, ok := filterableFields.DoubleArgs[filter.GetDoubleArg()]
+		v, ok := filterableFields.GetDoubleArgs()[filter.GetDoubleArg()]
 		if !ok {
 			return false
 		}
@@ -113,7 +113,7 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 	}
 
 	for _, f := range pool.StringEqualsFilters {
-		v, ok := filterableFields.StringArgs[f.GetStringArg()]
+		v, ok := filterableFields.GetStringArgs()[f.GetStringArg()]
 		if !ok {
 			return false
 		}
-- 
2.43.0


From 2199bc45e1ca1e5d538edbdd6c92dbedb04ae0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 20/34] fix: return the error when the request cannot be
 received

---
 functions/golang/battleroyale/battleroyale.go | 1 +
 functions/golang/soloduel/soloduel.go         | 1 +
 functions/golang/teamshooter/teamshooter.go   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/functions/golang/battleroyale/battleroyale.go b/functions/golang/battleroyale/battleroyale.go
index 67cd503..e76041b 100644
--- a/functions/golang/battleroyale/battleroyale.go
+++ b/functions/golang/battleroyale/battleroyale.go
@@ -63,6 +63,7 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 	req, err := server.GetChunkedRequest(stream)
 	if err != nil {
 		logger.Errorf("error getting chunked request: %v", err)
+		return err
 	}
 	logger.Infof("Generating matches for profile %v", req.GetName())
 
diff --git a/functions/golang/soloduel/soloduel.go b/functions/golang/soloduel/soloduel.go
index fc20661..abc2f59 100644
--- a/functions/golang/soloduel/soloduel.go
+++ b/functions/golang/soloduel/soloduel.go
@@ -62,6 +62,7 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 	req, err := server.GetChunkedRequest(stream)
 	if err != nil {
 		logger.Errorf("error getting chunked request: %v", err)
+		return err
 	}
 	logger.Infof("Generating matches for profile %v", req.GetName())
 
diff --git a/functions/golang/teamshooter/teamshooter.go b/functions/golang/teamshooter/teamshooter.go
index d85398f..e39d561 100644
--- a/functions/golang/teamshooter/teamshooter.go
+++ b/functions/golang/teamshooter/teamshooter.go
@@ -62,6 +62,7 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 	req, err := server.GetChunkedRequest(stream)
 	if err != nil {
 		logger.Errorf("error getting chunked request: %v", err)
+		return err
 	}
 	logger.Infof("Generating matches for profile %v", req.GetName())
 
-- 
2.43.0


From 852733518a7895c023dd27ef0d2d06010b1aad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 21/34] fix: do not share error variables between goroutines

---
 core/main.go   | 2 +-
 core/server.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index 3aa994f..76aef89 100644
--- a/core/main.go
+++ b/core/main.go
@@ -652,7 +652,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						logger.Debugf("deactivating tickets in %v", res.GetId())
 						errs := updateTicketsActiveState(ctx, ticketIdsToDeactivate, store.Deactivate)
 						if len(errs) > 0 {
-							logger.Errorf("Error deactivating match %v tickets: %v", res.GetId(), err)
+							logger.Errorf("Error deactivating match %v tickets: %v", res.GetId(), errs)
 						}
 						logger.Debugf("Done deactivating tickets in %v", res.GetId())
 
diff --git a/core/server.go b/core/server.go
index 75783f4..8428978 100644
--- a/core/server.go
+++ b/core/server.go
@@ -47,7 +47,7 @@ func start(cfg *viper.Viper) {
 	omServer := grpc.NewServer(opts...)
 	pb.RegisterOpenMatchServiceServer(omServer, &grpcServer{})
 	go func() {
-		if err = omServer.Serve(lis); err != nil {
+		if err := omServer.Serve(lis); err != nil {
 			logger.Fatal(err)
 		}
 	}()
@@ -65,7 +65,7 @@ func start(cfg *viper.Viper) {
 		logger.Fatal(err)
 	}
 	go func() {
-		if err = http.ListenAndServe(":58081", mux); err != nil {
+		if err := http.ListenAndServe(":58081", mux); err != nil {
 			logger.Fatal(err)
 		}
 	}()
-- 
2.43.0


From ba7891391ec0ca107dfecc46868cc54816db8469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 22/34] fix: decrement the watch count when a watch times out

---
 core/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 76aef89..8cf60b0 100644
--- a/core/main.go
+++ b/core/main.go
@@ -894,7 +894,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 			AssignmentWatches.Add(context.Background(), -1)
 			stream.Send(thisAssignment)
 		case <-timeout:
-			AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())-i))
+			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
 			return nil
 		}
 	}
-- 
2.43.0


From f648bcdab814232ccb1cf648d38150902a7fd4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 23/34] fix: read the configured log level

---
 core/internal/logging/logging.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/internal/logging/logging.go b/core/internal/logging/logging.go
index 5b7b1d3..9cbe9f0 100644
--- a/core/internal/logging/logging.go
+++ b/core/internal/logging/logging.go
@@ -67,7 +67,7 @@ func toLevel(level string) logrus.Level {
 
 // IsDebugEnabled returns true if the logging level is debug or more granular.
 func IsDebugEnabled(cfg *viper.Viper) bool {
-	return IsDebugLevel(cfg.GetString("logging.level"))
+	return IsDebugLevel(cfg.GetString("OM_LOGGING_LEVEL"))
 }
 
 // IsDebugLevel returns true if the logging level is debug or more granular.
-- 
2.43.0


From 1e1f496a83a0fe29ddc085cdc2db14ca3eca8aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 24/34] fix: stop watching assignments when the caller goes
 away

---
 core/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/main.go b/core/main.go
index 8cf60b0..dcaf7d0 100644
--- a/core/main.go
+++ b/core/main.go
@@ -896,6 +896,9 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		case <-timeout:
 			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
 			return nil
+		case <-ctx.Done():
+			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
+			return ctx.Err()
 		}
 	}
 
-- 
2.43.0


From b65cba52dddc0bd619788c066a0f1a8395972bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 25/34] fix: access the cache counters atomically

They are written by the expiration code and read by the metrics callback.
---
 core/internal/statestore/cache/metrics.go               | 7 ++++---
 core/internal/statestore/cache/replicatedticketcache.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/internal/statestore/cache/metrics.go b/core/internal/statestore/cache/metrics.go
index df199cc..f26cb88 100644
--- a/core/internal/statestore/cache/metrics.go
+++ b/core/internal/statestore/cache/metrics.go
@@ -18,6 +18,7 @@ import (
 	"log"
 	_ "net/http"
 	_ "net/http/pprof"
+	"sync/atomic"
 
 	otelmetrics "go.opentelemetry.io/otel/metric"
 )
@@ -95,9 +96,9 @@ func RegisterMetrics(meterPointer *otelmetrics.Meter) {
 	if _, err := meter.RegisterCallback(
 		func(ctx context.Context, o otelmetrics.Observer) error {
 			// TODO
-			o.ObserveInt64(ActiveTickets, TicketCount-InactiveCount)
-			o.ObserveInt64(InactiveTickets, InactiveCount)
-			o.ObserveInt64(Assignments, AssignmentCount)
+			o.ObserveInt64(ActiveTickets, atomic.LoadInt64(&TicketCount)-atomic.LoadInt64(&InactiveCount))
+			o.ObserveInt64(InactiveTickets, atomic.LoadInt64(&InactiveCount))
+			o.ObserveInt64(Assignments, atomic.LoadInt64(&AssignmentCount))
 			return nil
 		},
 		ActiveTickets, InactiveTickets, Assignments,
diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 63e2c13..44d56e8 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -338,9 +339,9 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 			})
 
 			// Log results and record metrics
-			AssignmentCount = numAssignments
-			TicketCount = numTickets
-			InactiveCount = numInactive
+			atomic.StoreInt64(&AssignmentCount, numAssignments)
+			atomic.StoreInt64(&TicketCount, numTickets)
+			atomic.StoreInt64(&InactiveCount, numInactive)
 
 			ExpirationCycleDuration.Record(ctx, float64(time.Since(startTime).Microseconds()/1000.0))
 
-- 
2.43.0


From a0d39b1b2fac54256bdd2e064e2b65243b35d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 26/34] fix: do not apply updates that cannot be decoded

---
 .../internal/statestore/cache/replicatedticketcache.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 44d56e8..b2af2c5 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -188,7 +188,10 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 					// - your system simply stores, loads, and perhaps provides
 					//   queries at your client's request"
 					ticketPb := &pb.Ticket{}
-					proto.Unmarshal([]byte(curUpdate.Value), ticketPb)
+					if err := proto.Unmarshal([]byte(curUpdate.Value), ticketPb); err != nil {
+						logger.Errorf("Skipping ticket %v that cannot be decoded: %v", curUpdate.Key, err)
+						continue
+					}
 
 					// Set TicketID. Must do it post-replication since
 					// TicketID /is/ the Replication ID
@@ -213,7 +216,10 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				case store.Assign:
 					// Convert the assignment back into a protobuf message.
 					assignmentPb := &pb.Assignment{}
-					proto.Unmarshal([]byte(curUpdate.Value), assignmentPb)
+					if err := proto.Unmarshal([]byte(curUpdate.Value), assignmentPb); err != nil {
+						logger.Errorf("Skipping assignment of %v that cannot be decoded: %v", curUpdate.Key, err)
+						continue
+					}
 					tc.Assignments.Store(curUpdate.Key, assignmentPb)
 					logger.Debugf("**DEPRECATED** assign replication received %v:%v", curUpdate.Key, assignmentPb.GetConnection())
 				}
-- 
2.43.0


From d46d6de42570fd6cbfd8c8ef07b43b4ef02c99bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 27/34] fix: do not crash when the first part of a pool has no
 participants

---
 mmf/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmf/server/server.go b/mmf/server/server.go
index dbdc0d2..5d8026d 100644
--- a/mmf/server/server.go
+++ b/mmf/server/server.go
@@ -94,6 +94,9 @@ func GetChunkedRequest(stream pb.MatchMakingFunctionService_RunServer) (*pb.Prof
 				}
 			} else {
 				// concate pools split amoung multiple chunks
+				if pools[name].Participants == nil {
+					pools[name].Participants = &pb.Roster{Name: pool.GetParticipants().GetName()}
+				}
 				pools[name].Participants.Tickets = append(pools[name].Participants.Tickets, pool.GetParticipants().GetTickets()...)
 			}
 		}
-- 
2.43.0


From 6e245c333e306b662cefdea6fff4e205006fe479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 28/34] fix: count activation goroutines before starting them

---
 matchmaker-example/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 6f2fad3..15896db 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -415,6 +415,8 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 
 			// Kick off activation in a goroutine in case we had to split on
 			// maxActivationsPerCall, this way the calls are made concurrently.
+			// Track this goroutine
+			activationWg.Add(1)
 			go func(ticketsAwaitingActivation []string) {
 
 				// Quick in-line function to grab information
@@ -429,8 +431,6 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 					return ts
 				}
 
-				// Track this goroutine
-				activationWg.Add(1)
 				defer activationWg.Done()
 
 				// Activate tickets
-- 
2.43.0


From dcf26233f83ea851aac77a78eb86bcc4dcb927b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 29/34] fix: let the expiration run while updates keep arriving

The limit on the time spent processing updates started over with every
update, so a steady stream of updates postponed the expiration forever.
---
 core/internal/statestore/cache/replicatedticketcache.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index b2af2c5..a0c2e65 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -161,11 +161,10 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		time.Sleep(time.Millisecond * time.Duration(tc.Cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS")))
 		done := false
 
+		// Maximum length of time we can process updates access to the
+		// ticket cache is locked during updates, so we need a hard limit here.
+		updateTimeout := time.After(time.Millisecond * 500)
 		for !done {
-			// Maximum length of time we can process updates access to the
-			// ticket cache is locked during updates, so we need a hard limit here.
-			updateTimeout := time.After(time.Millisecond * 500)
-
 			// Process all incoming updates (up to the maximum defined in the
 			// config var OM_CACHE_IN_WAIT_TIMEOUT_MS), up until there
 			// are none left or the lock timeout is reached.
-- 
2.43.0


From 0713b38292537a3169939ee3ff941d537617c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 30/34] fix: do not count the end of the stream as a match

---
 core/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index dcaf7d0..9da7f2a 100644
--- a/core/main.go
+++ b/core/main.go
@@ -601,7 +601,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// loop reads streaming match responses from the mmf and runs
 				// until a break statement is encountered.
 				var i int64
-				for i = 1; true; i++ {
+				for i = 0; true; i++ {
 					// Get results from MMF
 					var result *pb.StreamedMmfResponse
 					result, err = mmfStream.Recv()
-- 
2.43.0


From 7c4ecf7ad7ea0a07d501b7d2c69fecf6b0bd0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 31/34] fix: keep the status when its details cannot be encoded

---
 core/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/main.go b/core/main.go
index 9da7f2a..d5676be 100644
--- a/core/main.go
+++ b/core/main.go
@@ -948,10 +948,11 @@ func addStateUpdateErrorDetails(errs map[string]error) error {
 		}
 
 		// Add error details
-		var err error
-		st, err = st.WithDetails(deets)
+		detailed, err := st.WithDetails(deets)
 		if err != nil {
 			logger.Errorf("Unexpected error while updateing tickets: %v", err)
+		} else {
+			st = detailed
 		}
 	}
 	return st.Err()
-- 
2.43.0


From 6c83945b32101b6a8085e726056d066d6f32ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 32/34] fix: memory replicator reads the clock once per id

---
 core/internal/statestore/memory/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index bd21ba7..fd17be3 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -96,10 +96,13 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 // GetReplId mocks how Redis Streams generate entry IDs
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rc *memoryReplicator) getReplId() string {
-	if time.Now().UnixMilli() <= rc.replTS.UnixMilli() {
+	// Read the clock once: it can be set back between two readings, and an id
+	// must never be older than the one before.
+	now := time.Now()
+	if now.UnixMilli() <= rc.replTS.UnixMilli() {
 		rc.replCount += 1
 	} else {
-		rc.replTS = time.Now()
+		rc.replTS = now
 		rc.replCount = 0
 	}
 	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.UnixMilli(), 10), rc.replCount)
-- 
2.43.0


From b2394dc647f2d56104cd86dc41346f825c0dd2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 33/34] fix: count the matches received before a matchmaking
 function fails

---
 core/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/main.go b/core/main.go
index d5676be..454cef7 100644
--- a/core/main.go
+++ b/core/main.go
@@ -613,6 +613,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 					}
 					if err != nil { // MMF has an error
 						logger.Errorf("MMF Error")
+						// The matches received before the error count as well.
+						Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
 						return status.Error(codes.Internal, fmt.Errorf("Unable to invoke MMF '%v' at %v: %w", mmf.GetName(), mmfHost, err).Error())
 					}
 
-- 
2.43.0


From cf922908f9462678ada52a99e6214d1027227d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 34/34] fix: matchmaker example: do not wait forever when more
 rejected tickets are queued than fit

---
 matchmaker-example/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 15896db..76fb699 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -362,6 +362,11 @@ func main() {
 			for _, match := range rejectedMatches {
 				for _, roster := range match.GetRosters() {
 					for _, ticket := range roster.GetTickets() {
+						// Nothing else reads from this queue, so make room when it
+						// is full instead of waiting forever.
+						if len(ticketIdsToActivate) == cap(ticketIdsToActivate) {
+							activateTickets(context.WithValue(ctx, "type", "re-activate"), grpcClient, httpClient, ticketIdsToActivate)
+						}
 						// queue this ticket ID to be re-activated
 						ticketIdsToActivate <- ticket.GetId()
 						numRejectedTickets++
-- 
2.43.0

