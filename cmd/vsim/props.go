package main

// props says in which simulated worlds a property is searched and where in
// the code stalls are placed preferably.
var props = map[string]*propCfg{
	"T01": {scen: []scenario{{"btree", "", 1}}, hot: []string{"datastructures/btree/"}, rule: "Oracle: per-key linearizability of the whole history against a map, plus agreement of find, ranges, iteration and Empty at quiescence."},
	"T02": {scen: []scenario{{"assoc", "", 1}}, hot: []string{"datastructures/btree_associated/"}, rule: "Oracle: per key-value set linearizability of the whole history against one entry, an independent evaluation of every query and match, and agreement of all lookups at quiescence."},
	"T03": {scen: []scenario{{"otm", "", 1}}, hot: []string{"datastructures/btree_one_to_many/"}, rule: "Oracle: per group and key-value set linearizability of the whole history against one entry, all-or-nothing visibility of group removals, an independent evaluation of every query and match, isolation of groups at quiescence."},
	"H01": {scen: []scenario{{"hb", "", 1}}, hot: []string{"internal/heartbeater/"}, rule: "Oracle: the recorded time line of every timer: exactly one end observed by exactly its owner, no time-out earlier than the timeout after the call of any accepted heartbeat or the start, an end within a bounded time, nobody blocked after it."},
	"L01": {scen: []scenario{{"locker", "", 5}, {"locker", "lib", 1}}, hot: []string{"internal/locker/"}, rule: "Oracle: every grant, renewal and release seen at the server boundary; a second grant while the first session certainly holds the lock, a reused session or an idle lock that is not granted is a violation."},
	"L02": {scen: []scenario{{"locker", "", 1}}, hot: []string{"internal/locker/"}, rule: "Oracle: every heartbeat and release is judged against the sessions that certainly hold or certainly do not hold the lock."},
	"L03": {scen: []scenario{{"locker", "", 1}}, hot: []string{"internal/locker/", "datastructures/btree_associated/"}, rule: "Oracle: no waiter waits while nobody can hold the lock, every listing agrees with the possible holders, everything is free again at the end."},
	"L04": {scen: []scenario{{"locker", "lib", 1}}, hot: []string{"pkg/clients/locker_client/"}, rule: "Oracle: the time at which the library reports the loss of each lock against the delivered answers to its renewals."},
	"R01": {scen: []scenario{{"limiter", "", 2}, {"limiter", "moving", 1}}, hot: []string{"internal/limiter/", "pkg/clients/locker_client/"}, rule: "Oracle: one order of all accepted increments, decrements and sets in which every accepted increment respects every limit that applies to it."},
	"R02": {scen: []scenario{{"limiter", "", 3}, {"limiter", "moving", 1}}, hot: []string{"internal/limiter/"}, rule: "Oracle: one order of all requests in which every refused increment meets a reached limit and every accepted one respects all."},
	"R03": {scen: []scenario{{"limiter", "", 1}}, hot: []string{"internal/limiter/", "datastructures/btree_associated/"}, rule: "Oracle: per-counter linearizability of all updates and reads against a register."},
	"R04": {scen: []scenario{{"limiter", "rules", 1}}, hot: []string{"internal/limiter/", "datastructures/btree_associated/", "datastructures/btree_one_to_many/"}, rule: "Oracle: per rule linearizability of the whole history against one entry with its overrides."},
	"R05": {scen: []scenario{{"limiter", "", 3}, {"limiter", "rules", 2}, {"limiter", "crash", 2}}, hot: []string{"internal/limiter/", "pkg/clients/locker_client/"}, rule: "Oracle: every request is answered within a bound once the network works, no lock is left one lease later, no process failure."},
	"A01": {scen: []scenario{{"abuse", "locker", 3}, {"abuse", "limiter", 5}, {"abuse", "willow", 5}, {"willow", "", 2}, {"willow", "limits", 1}, {"willow", "queues", 2}, {"limiter", "", 1}, {"limiter", "rules", 1}, {"locker", "", 1}, {"client", "", 1}, {"start", "", 1}}, hot: []string{"internal/locker/", "internal/limiter/", "internal/willow/", "datastructures/btree_associated/"}, rule: "Oracle: malformed requests get a client error and leave nothing behind, every request that waits for nobody is answered in bounded time, well-behaved clients get exactly the answers they would get alone, no process failure."},
	"S01": {scen: []scenario{{"locker", "stop", 1}, {"willow", "stop", 2}, {"limiter", "stop", 1}}, hot: []string{"internal/locker/", "internal/limiter/", "pkg/clients/locker_client/", "internal/willow/brokers/", "internal/heartbeater/"}, rule: "Oracle: after the shutdown request every request is answered and every service ends within a bounded time."},
	"S02": {scen: []scenario{{"start", "", 1}}, hot: []string{"internal/zzmain/"}, rule: "Oracle: every process listens soon after its dependency answered, tries again until then, never ends by itself, and ends soon after it is told to; the installation that came up serves one request of every kind."},
	"Q01": {scen: []scenario{{"willow", "", 2}, {"willow", "limits", 1}}, hot: []string{"internal/willow/brokers/", "internal/heartbeater/"}, rule: "Oracle: the history of every queue is explained by a sequential queue with hidden time-outs, and a final drain empties it."},
	"Q02": {scen: []scenario{{"willow", "", 3}, {"willow", "limits", 1}}, hot: []string{"internal/willow/brokers/", "internal/heartbeater/"}, rule: "Oracle: the sequential queue accepts and refuses every acknowledgement, heartbeat and hand-over."},
	"Q03": {scen: []scenario{{"willow", "", 3}, {"willow", "limits", 1}}, hot: []string{"internal/willow/brokers/", "internal/heartbeater/"}, rule: "Oracle: the history of every queue is explained by a sequential queue with hidden time-outs."},
	"Q04": {scen: []scenario{{"willow", "", 3}, {"willow", "limits", 1}}, hot: []string{"internal/willow/brokers/", "internal/heartbeater/"}, rule: "Oracle: time-outs of the sequential queue happen no earlier than the timeout after the last renewal and no later than a bound, retries are counted."},
	"Q05": {scen: []scenario{{"willow", "", 1}}, hot: []string{"internal/willow/brokers/", "internal/heartbeater/"}, rule: "Oracle: every item handed out has all properties of its enqueue, replacement as in the sequential queue."},
	"Q06": {scen: []scenario{{"willow", "", 2}, {"willow", "limits", 1}}, hot: []string{"internal/willow/brokers/", "internal/heartbeater/"}, rule: "Oracle: accepted and refused enqueues against the maximum of the sequential queue; counters of the limiter against the items at quiescence."},
	"Q07": {scen: []scenario{{"willow", "limits", 1}}, hot: []string{"internal/willow/brokers/", "internal/heartbeater/"}, rule: "Oracle: the number of certainly running items of every group against its limit, and no consumer starves while the limits certainly allow."},
	"Q08": {scen: []scenario{{"willow", "", 1}, {"willow", "limits", 1}}, hot: []string{"internal/willow/brokers/", "internal/heartbeater/"}, rule: "Oracle: items against queries, and no consumer waits beside a waiting item it could get."},
	"Q09": {scen: []scenario{{"willow", "queues", 1}}, hot: []string{"internal/willow/brokers/", "internal/heartbeater/"}, rule: "Oracle: the history of every queue name is explained by one entry with its items."},
	"C01": {scen: []scenario{{"client", "", 1}}, hot: []string{"pkg/clients/willow_client/"}, rule: "Oracle: the time at which the library reports an item as done against the delivered answers to its renewals."},
	"C02": {scen: []scenario{{"client", "", 1}}, hot: []string{"pkg/clients/"}, rule: "Oracle: the result of every library call against the request the network saw and the answer it delivered."},
}
