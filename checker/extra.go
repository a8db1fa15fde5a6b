package main

import "strings"

// Further properties a rule decides a necessary condition of. "C11@async_scheduler.go" counts only
// violations reported in that file: the lock and channel rules look at the whole program.
const byFile = " C11@/async_scheduler.go C11@/async_item_queue.go C12@/async_batcher.go C12@/async_item_queue.go C06@/eos_producer.go C01@/eos_producer.go" +
	" C20@/group_state.go C18@/incr_rebalancer.go C20@/incr_rebalancer.go C03@/commit_log.go C04@/state_store_consumer.go C05@/source_consumer.go C14@/source_consumer.go C14@/interjection.go" +
	" C08@/partition_worker.go C07@/partition_worker.go C31@/sak/ C30@/msk/ C13@/producer.go C17@/event_source.go C26@/metric.go C35@/global_change_log.go C42@/event_context.go C23@/record.go C21@/topics.go"

var extra = map[string]string{
	"locks.release":            byFile,
	"locks.order":              byFile,
	"locks.guarded":            byFile,
	"locks.copied":             byFile,
	"locks.atomic":             byFile,
	"wiring.channels":          byFile,
	"wiring.loops":             " C04@/state_store_consumer.go C35@/global_change_log.go C07@/source_consumer.go C03@/commit_log.go",
	"index.range":              " C11@/async_scheduler.go C31@/sak/ C29@/stores/ C18@/incr_rebalancer.go C06@/eos_producer.go",
	"consumer.assign":          "C20 C14",
	"consumer.revoke":          "C08",
	"consumer.stores":          "C04",
	"context.api":              "C10 C14@/interjection.go",
	"txn.offset-content":       "C03 C24",
	"txn.errors":               "C01",
	"txn.reuse":                "C15",
	"txn.commit-preconditions": "C15",
	"txn.event-list":           "C08 C36",
	"txn.continue":             "C01",
	"own.full":                 "C41",
	"own.takeover":             "C01",
	"worker.step":              "C08 C01 C03",
	"worker.single":            "C10 C14",
	"worker.accounting":        "C01",
	"worker.start":             "C07 C14",
	"worker.forward":           "C14",
	"worker.stop":              "C07",
	"restore.begin":            "C05",
	"client.options":           "C36",
	"record.pool":              "C06",
	"partitioner":              "C05",
	"plan.build":               "C19",
	"group.instructions":       "C18",
	"produce.callback":         "C01",
	"sak.pool":                 "C23",
	"msk.config":               "C32@/msk/",
}

func addExtra(id, props string) string {
	for _, p := range strings.Fields(extra[id]) {
		base := strings.SplitN(p, "@", 2)[0]
		if inProps, scope := hasProp(props, base); inProps && scope == nil {
			continue
		}
		props += " " + p
	}
	return props
}

// hasProp: is id one of the properties, and if only for some files, for which.
func hasProp(props, id string) (bool, []string) {
	var scope []string
	found := false
	for _, p := range strings.Fields(props) {
		q := strings.SplitN(p, "@", 2)
		if q[0] != id {
			continue
		}
		if len(q) == 1 {
			return true, nil
		}
		found = true
		scope = append(scope, q[1])
	}
	return found, scope
}

func inScope(v Violation, scope []string) bool {
	if scope == nil {
		return true
	}
	for _, s := range scope {
		if strings.Contains("/"+v.Where, s) {
			return true
		}
	}
	return false
}

// propNames: the properties without their scopes.
func propNames(props string) string {
	var out []string
	for _, p := range strings.Fields(props) {
		b := strings.SplitN(p, "@", 2)[0]
		dup := false
		for _, o := range out {
			dup = dup || o == b
		}
		if !dup {
			out = append(out, b)
		}
	}
	return strings.Join(out, " ")
}
