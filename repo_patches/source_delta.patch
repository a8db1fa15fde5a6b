From 379feee0177eca6ff36ed992a584243f4df2ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 01/34] fix: SimpleStore.ReceiveChange dropped every
 successfully decoded change

---
 streams/stores/simple_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/stores/simple_store.go b/streams/stores/simple_store.go
index a5c01de..300a3cc 100644
--- a/streams/stores/simple_store.go
+++ b/streams/stores/simple_store.go
@@ -88,7 +88,7 @@ func (s *SimpleStore[T]) ReceiveChange(record streams.IncomingRecord) (err error
 			key: string(record.Key()),
 		}
 		s.tree.Delete(&keyedValue)
-	} else if item, err = s.codec.Decode(record.Value()); err != nil {
+	} else if item, err = s.codec.Decode(record.Value()); err == nil {
 		s.tree.ReplaceOrInsert(&keyedValue[T]{key: item.Key(), value: item})
 	}
 	return
-- 
2.43.0


From a5a29bf0c24a46e4dfa409d0522f9632739a4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 02/34] fix: MSK IAM auth dropped successfully retrieved
 credentials

---
 msk/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 370c97b..7b93f35 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -168,7 +168,7 @@ func (c *MskCluster) Config() (opts []kgo.Opt, err error) {
 // provides the IAM auth mechanism from using aws.Config CredentialsProvider, so as sessions expire, we should be ok.
 func (c *MskCluster) saslIamAuth(ctx context.Context) (auth kaws.Auth, err error) {
 	var creds aws.Credentials
-	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err != nil {
+	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err == nil {
 		auth = kaws.Auth{
 			AccessKey:    creds.AccessKeyID,
 			SecretKey:    creds.SecretAccessKey,
-- 
2.43.0


From b74e1a96f6cdf9b7cc7c558f3c99b07191674a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 03/34] fix: isNetworkError panicked on errors which are not a
 net.OpError

---
 streams/topics.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index 858c85f..e61486b 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -194,9 +194,8 @@ func isNetworkError(err error) bool {
 	if errors.As(err, &opError) {
 		log.Warnf("network error for operation: %s, error: %v", opError.Op, opError)
 		return true
-	} else if err != nil {
-		log.Errorf("non network error for operation: %s, error: %v", opError.Op, opError)
 	}
+	log.Errorf("non network error: %v", err)
 	return false
 }
 
-- 
2.43.0


From 2f59641644465d4aa20850c10150a0f53abb87a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 04/34] fix: DeserializationErrorHandler was selected by the
 presence of TxnErrorHandler

---
 streams/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/source.go b/streams/source.go
index 236c86b..5b726c9 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -148,7 +148,7 @@ func (s *Source) eosErrorHandler() TxnErrorHandler {
 }
 
 func (s *Source) deserializationErrorHandler() DeserializationErrorHandler {
-	if s.config.TxnErrorHandler == nil {
+	if s.config.DeserializationErrorHandler == nil {
 		return DefaultDeserializationErrorHandler
 	}
 	return s.config.DeserializationErrorHandler
-- 
2.43.0


From a2810f461843cb536ff4cb3c906e49f8b9cbb31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 05/34] fix: CreateDestination never created its topic, dropped
 errors and always retried

---
 streams/topics.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index e61486b..a6ecb48 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -146,14 +146,15 @@ func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor
 
 func createDestination(destination Destination) (Destination, error) {
 	client, err := NewClient(destination.Cluster)
-	adminClient := kadm.NewClient(client)
-	minInSync := fmt.Sprintf("%d", destination.MinInSync)
-	createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
-		"min.insync.replicas": sak.Ptr(minInSync),
-	})
 	if err != nil {
 		return destination, err
 	}
+	defer client.Close()
+	adminClient := kadm.NewClient(client)
+	minInSync := fmt.Sprintf("%d", destination.MinInSync)
+	err = createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
+		"min.insync.replicas": sak.Ptr(minInSync),
+	}, destination.DefaultTopic)
 	return destination, err
 }
 
@@ -162,6 +163,8 @@ func CreateDestination(destination Destination) (resolved Destination, err error
 		resolved, err = createDestination(destination)
 		if isNetworkError(err) {
 			time.Sleep(time.Second)
+		} else {
+			break
 		}
 	}
 	return
-- 
2.43.0


From 7e0f60582c44badffd3a920acf64a99bbbca9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 06/34] fix: JsonCodec.Decode reported io.EOF for every top
 level number

---
 streams/codec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streams/codec.go b/streams/codec.go
index aa322a8..43e867d 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math"
 	"unsafe"
 
@@ -146,6 +147,10 @@ func (JsonCodec[T]) Decode(b []byte) (T, error) {
 
 	var t T
 	iter.ReadVal(&t)
+	if iter.Error == io.EOF {
+		// a top level number ends where the input ends, this is not an error
+		return t, nil
+	}
 	return t, iter.Error
 }
 
-- 
2.43.0


From 8c0b1074bc2cc50f0c9b255f6da64d5288c593a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 07/34] fix: integer codecs read out of bounds when decoding a
 short []byte

---
 streams/codec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/codec.go b/streams/codec.go
index 43e867d..d226e43 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -77,6 +77,9 @@ func (intCodec[T]) Encode(b *bytes.Buffer, i T) error {
 }
 
 func (intCodec[T]) Decode(b []byte) (T, error) {
+	if len(b) < intByteSize {
+		return 0, fmt.Errorf("invalid integer []byte length. Expected %d, actual: %d", intByteSize, len(b))
+	}
 	return readIntegerFromByteArray[T](b), nil
 }
 
-- 
2.43.0


From eca1b9f8188b38dd59f3cc48f9a1759155eb243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 08/34] fix: LexoInt64Codec encoding did not sort in integer
 order

---
 streams/codec.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/streams/codec.go b/streams/codec.go
index d226e43..d017aed 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -19,7 +19,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"math"
 	"unsafe"
 
 	"github.com/aws/go-kafka-event-source/streams/sak"
@@ -105,14 +104,17 @@ type lexoInt64Codec struct{}
 
 const LexInt64Size = int(unsafe.Sizeof(uint64(1))) + 1
 
+// shifts [math.MinInt64, 0] to [0, 1<<63], preserving order
+const lexoIntOffset = uint64(1) << 63
+
 // Encodes the provided value. Will never induce an error unless there is an OOM condition, so it should be safe to ignore.
 func (lexoInt64Codec) Encode(buf *bytes.Buffer, i int64) error {
 	var b [LexInt64Size]byte
 	if i > 0 {
 		b[0] = 1
-		binary.LittleEndian.PutUint64(b[1:], uint64(i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i))
 	} else {
-		binary.LittleEndian.PutUint64(b[1:], uint64(math.MaxInt64+i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i)+lexoIntOffset)
 	}
 	buf.Write(b[:])
 	return nil
@@ -124,11 +126,11 @@ func (lexoInt64Codec) Decode(b []byte) (int64, error) {
 		return 0, fmt.Errorf("invalid lexo integer []byte length. Expected %d, actual: %d", LexInt64Size, len(b))
 	}
 	sign := b[0]
-	val := int64(binary.LittleEndian.Uint64(b[1:]))
+	val := binary.BigEndian.Uint64(b[1:])
 	if sign == 1 {
-		return val, nil
+		return int64(val), nil
 	}
-	return val - math.MaxInt64, nil
+	return int64(val - lexoIntOffset), nil
 }
 
 // A generic JSON en/decoder.
-- 
2.43.0


From 93738b21ff04495e146a63d9b7322687943d84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 09/34] fix: keyless records from the Record pool were produced
 with an empty key

---
 streams/record.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/record.go b/streams/record.go
index 8252c09..68706f0 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -236,7 +236,10 @@ func addRecordTypeHeader(recordType string, record *kgo.Record) {
 // used internally for producing.
 func (r *Record) toKafkaRecord() *kgo.Record {
 
-	r.kRecord.Key = r.keyBuffer.Bytes()
+	// a record without a key must have a nil Key, an empty one is hashed by key based partitioners
+	if r.keyBuffer.Len() > 0 {
+		r.kRecord.Key = r.keyBuffer.Bytes()
+	}
 
 	// an empty buffer should be a deletion
 	// not sure if nil === empty for these purposes
-- 
2.43.0


From 4b803dc0ebf9db14516a2974814f8f61ea1e987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 10/34] fix: Record.ToKafkaRecord lost topic, partition,
 timestamp and headers

---
 streams/record.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/record.go b/streams/record.go
index 68706f0..a60c3e1 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -260,6 +260,9 @@ func (r *Record) toKafkaRecord() *kgo.Record {
 // Creates a newly allocated kgo.Record. The Key and Value fields are freshly allocated bytes, copied from [streams.Record].
 func (r *Record) ToKafkaRecord() *kgo.Record {
 	record := new(kgo.Record)
+	*record = r.kRecord
+	record.Key, record.Value = nil, nil
+	record.Headers = append([]kgo.RecordHeader(nil), r.kRecord.Headers...)
 	if r.keyBuffer.Len() > 0 {
 		record.Key = append(record.Key, r.keyBuffer.Bytes()...)
 	}
@@ -267,7 +270,7 @@ func (r *Record) ToKafkaRecord() *kgo.Record {
 	if r.valueBuffer.Len() > 0 {
 		record.Value = append(record.Value, r.valueBuffer.Bytes()...)
 	}
-	addRecordTypeHeader(r.recordType, &r.kRecord)
+	addRecordTypeHeader(r.recordType, record)
 	return record
 }
 
-- 
2.43.0


From 76e2c72a90b3f284046b681b89a7d90a8124a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 11/34] fix: min.insync.replicas was 0 when MinInSync is unset

---
 streams/source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/source.go b/streams/source.go
index 5b726c9..d525f44 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -217,6 +217,9 @@ func minInSyncConfig(source *Source) int {
 	if factor <= 1 {
 		return 1
 	}
+	if source.config.MinInSync <= 0 {
+		return 1
+	}
 	if source.config.MinInSync >= int(factor) {
 		return source.config.ReplicationFactor - 1
 	}
-- 
2.43.0


From 19385cafae5af114f1bb02ef1ecd957d6188e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 12/34] fix: forget instructions for several partitions were
 applied to the wrong partition

---
 streams/incr_rebalancer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index dad13ff..f2bc6b7 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -407,6 +407,7 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 		wg := &sync.WaitGroup{}
 		wg.Add(len(instructions.Forget))
 		for _, tp := range instructions.Forget {
+			tp := tp
 			prepping := ir.preparing.Remove(tp)
 			prepped := ir.ready.Remove(tp)
 			if prepping || prepped {
-- 
2.43.0


From 915150b3395a07231bb7bb67dfc85bff9418e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 13/34] fix: MemberBalancer dereferenced a nil balancer on
 invalid member metadata

---
 streams/incr_rebalancer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index f2bc6b7..351b72b 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -429,7 +429,10 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 // Needed to fulfill the kgo.GroupBalancer interface. There should be non need to interact with this directly.
 func (ir *incrementalRebalancer) MemberBalancer(members []kmsg.JoinGroupResponseMember) (kgo.GroupMemberBalancer, map[string]struct{}, error) {
 	cb, err := kgo.NewConsumerBalancer(ir.balancerController, members)
-	return balanceWrapper{consumerBalancer: cb}, cb.MemberTopics(), err
+	if err != nil {
+		return nil, nil, err
+	}
+	return balanceWrapper{consumerBalancer: cb}, cb.MemberTopics(), nil
 }
 
 // Needed to fulfill the kgo.GroupBalancer interface. There should be non need to interact with this directly.
-- 
2.43.0


From 365f5bbd716680840abeab2fe67493216f65adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 14/34] fix: partition assignment panicked without an
 IncrementalGroupRebalancer

---
 streams/source_consumer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ac8ac68..23207c8 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -217,7 +217,9 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		}
 
 	}
-	sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	if sc.incrBalancer != nil {
+		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	}
 	// notify observers
 	sc.source.onPartitionsAssigned(partitions)
 }
-- 
2.43.0


From 5147d03dc2f451eba06b0b8faddaa7f52f367eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 15/34] fix: a transaction which skipped past MaxBatchSize kept
 accepting events

---
 streams/eos_producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 19a4f64..5b4d5c9 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -175,7 +175,7 @@ func (pp *eosProducerPool[T]) shouldTryFlush() bool {
 }
 
 func (pp *eosProducerPool[T]) shouldForceFlush() bool {
-	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) == int64(pp.cfg.MaxBatchSize)
+	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) >= int64(pp.cfg.MaxBatchSize)
 }
 
 func (pp *eosProducerPool[T]) tryFlush() {
-- 
2.43.0


From f090da4f00cfb356b79453c0ce565fcca542cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 16/34] fix: a transaction was committed although one of its
 records failed to produce

---
 streams/eos_producer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 5b4d5c9..f0ab50a 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -266,6 +266,7 @@ type producerNode[T any] struct {
 	id                int
 	txnErrorHandler   TxnErrorHandler
 	errorChannel      chan error
+	produceErr        atomic.Pointer[error] // the first produce error of the current txn
 	// errs                  []error
 }
 
@@ -378,6 +379,11 @@ func (p *producerNode[T]) commit() error {
 		log.Errorf("eos producer error: %v", err)
 		return err
 	}
+	// the client will gladly commit a txn with missing records
+	if produceErr := p.produceErr.Load(); produceErr != nil && p.txnErrorHandler(*produceErr) != Continue {
+		log.Errorf("eos producer record error: %v", *produceErr)
+		return *produceErr
+	}
 	action := kgo.TryCommit
 	if p.produceCnt == 0 {
 		action = kgo.TryAbort
@@ -424,6 +430,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 	p.produceCnt = 0
 	p.eventContextCnt = 0
 	p.byteCount = 0
+	p.produceErr.Store(nil)
 
 	pendingRecordPool.Release(p.recordsToProduce)
 	p.recordsToProduce = pendingRecordPool.Borrow()
@@ -523,6 +530,8 @@ func (p *producerNode[T]) produceKafkaRecord(record *Record, cb func(*Record, er
 		atomic.AddInt64(&p.byteCount, int64(recordSize(*r)))
 		if err != nil {
 			log.Errorf("%v, record %+v", err, r)
+			produceErr := err
+			p.produceErr.CompareAndSwap(nil, &produceErr)
 			select {
 			case p.errorChannel <- err:
 			default:
-- 
2.43.0


From 3b95ea3c0bc3323416f5966310058f91750fe750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 17/34] fix: emitting metrics blocked the commit loop and
 panicked during shutdown

---
 streams/eos_producer.go    | 4 ++--
 streams/event_source.go    | 8 ++------
 streams/metric.go          | 9 +++++++++
 streams/source_consumer.go | 4 ++--
 4 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index f0ab50a..ab4d257 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -414,7 +414,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 	partitionCount := len(p.currentPartitions)
 	p.relinquishOwnership()
 	if p.metrics != nil && p.produceCnt > 0 {
-		p.metrics <- Metric{
+		emitMetric(p.metrics, Metric{
 			Operation:      TxnCommitOperation,
 			Topic:          p.source.Topic(),
 			GroupId:        p.source.GroupId(),
@@ -425,7 +425,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 			Bytes:          int(p.byteCount),
 			PartitionCount: partitionCount,
 			Partition:      -1,
-		}
+		})
 	}
 	p.produceCnt = 0
 	p.eventContextCnt = 0
diff --git a/streams/event_source.go b/streams/event_source.go
index 95b1a97..66c5d13 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -118,11 +118,7 @@ func (es *EventSource[T]) closeOnFail() {
 
 func (es *EventSource[T]) EmitMetric(m Metric) {
 	if es.metrics != nil {
-		select {
-		case es.metrics <- m:
-		default:
-			log.Warnf("metrics channel full, unable to emit metrics: %+v", m)
-		}
+		emitMetric(es.metrics, m)
 	}
 }
 
@@ -139,7 +135,7 @@ func (es *EventSource[T]) emitMetrics() {
 			}
 			handler(m)
 		case <-es.runStatus.Done():
-			close(es.metrics)
+			// do not close es.metrics, pending txns may still emit
 			return
 		}
 	}
diff --git a/streams/metric.go b/streams/metric.go
index 60a927f..151cea7 100644
--- a/streams/metric.go
+++ b/streams/metric.go
@@ -32,6 +32,15 @@ type Metric struct {
 	GroupId        string
 }
 
+// never blocks, drops the metric if the channel is full
+func emitMetric(metrics chan Metric, m Metric) {
+	select {
+	case metrics <- m:
+	default:
+		log.Warnf("metrics channel full, unable to emit metrics: %+v", m)
+	}
+}
+
 func (m Metric) Duration() time.Duration {
 	return m.EndTime.Sub(m.StartTime)
 }
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 23207c8..56a1fd5 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -157,7 +157,7 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 				tp, processed, duration, int(float64(processed)/duration.Seconds()))
 			sc.incrBalancer.PartitionPrepared(tp)
 			if sc.metrics != nil {
-				sc.metrics <- Metric{
+				emitMetric(sc.metrics, Metric{
 					Operation:      PartitionPreppedOperation,
 					StartTime:      start,
 					EndTime:        time.Now(),
@@ -166,7 +166,7 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 					Count:          int(processed),
 					Bytes:          int(ssp.processedBytes()),
 					GroupId:        sc.source.GroupId(),
-				}
+				})
 			}
 		}()
 	}
-- 
2.43.0


From 64e86b4293280076c00dedcf6f82b175214b0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 18/34] fix: BatchProducer never completed events without
 records or without a callback

---
 streams/producer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/streams/producer.go b/streams/producer.go
index 0eb8bc3..52642df 100644
--- a/streams/producer.go
+++ b/streams/producer.go
@@ -133,13 +133,16 @@ func (b *produceBatcher[S]) cleanup() {
 }
 
 func (b *produceBatcher[S]) recordComplete() {
-	if atomic.AddInt64(&b.pending, -1) == 0 && b.callback != nil {
+	if atomic.AddInt64(&b.pending, -1) == 0 {
 		b.ctx.AsyncJobComplete(b.executeCallback)
 	}
 }
 
 func (b *produceBatcher[S]) executeCallback() ExecutionState {
-	state := b.callback(b.ctx, b.records, b.userData)
+	state := Complete
+	if b.callback != nil {
+		state = b.callback(b.ctx, b.records, b.userData)
+	}
 	b.cleanup()
 	return state
 }
@@ -157,6 +160,10 @@ func (p *BatchProducer[S]) Produce(ec *EventContext[S], records []*Record, cb Ba
 		pending:  int64(len(records)),
 		userData: userData,
 	}
+	if len(records) == 0 {
+		// there are no produce calls to wait for
+		return b.executeCallback()
+	}
 	p.produceBatch(b)
 	return Incomplete
 }
-- 
2.43.0


From d8212b924a3cd6a07e3cd64c19c077e842c56d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 19/34] fix: AsyncBatcher leaked keys of empty batches and
 completed them out of order

---
 streams/async_batcher.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/streams/async_batcher.go b/streams/async_batcher.go
index 8c5ea53..35d4401 100644
--- a/streams/async_batcher.go
+++ b/streams/async_batcher.go
@@ -122,30 +122,29 @@ const (
 )
 
 type asyncBatchExecutor[S any, K comparable, V any] struct {
-	items      []*BatchItem[K, V]
-	noops      []*BatchItems[S, K, V]
+	items      []*BatchItem[K, V] // the items to be executed
+	all        []*BatchItem[K, V] // items and placeholders, in order of arrival
 	state      asyncBatchState
 	flushTimer *time.Timer
 }
 
 func (b *asyncBatchExecutor[S, K, V]) add(item *BatchItem[K, V]) {
-	if item.itemType == placeholder {
-		b.noops = append(b.noops, (*BatchItems[S, K, V])(item.batch))
-	} else {
+	b.all = append(b.all, item)
+	if item.itemType != placeholder {
 		b.items = append(b.items, item)
 	}
 }
 
 func (b *asyncBatchExecutor[S, K, V]) reset(assignments map[K]*asyncBatchExecutor[S, K, V]) {
-	for i, item := range b.items {
+	for i, item := range b.all {
 		delete(assignments, item.key)
-		b.items[i] = nil
+		b.all[i] = nil
 	}
-	for i := range b.noops {
-		b.noops[i] = nil
+	for i := range b.items {
+		b.items[i] = nil
 	}
 	b.items = b.items[0:0]
-	b.noops = b.noops[0:0]
+	b.all = b.all[0:0]
 	b.state = batcherReady
 }
 
@@ -244,7 +243,7 @@ func (ab *AsyncBatcher[S, K, V]) addToExecutor(item *BatchItem[K, V], executor *
 	ab.assignments[item.key] = executor
 	executor.add(item)
 
-	if len(executor.items)+len(executor.noops) == ab.maxBatchSize {
+	if len(executor.all) == ab.maxBatchSize {
 		ab.conditionallyExecuteBatch(executor)
 	} else if executor.flushTimer == nil {
 		executor.flushTimer = time.AfterFunc(ab.batchDelay, func() {
@@ -270,18 +269,20 @@ func (ab *AsyncBatcher[S, K, V]) conditionallyExecuteBatch(executor *asyncBatchE
 
 func (ab *AsyncBatcher[S, K, V]) completeBatchItems(items []*BatchItem[K, V]) {
 	for _, item := range items {
-		batchFor[S, K, V](item.batch).completeItem()
+		batch := batchFor[S, K, V](item.batch)
+		if item.itemType == placeholder {
+			batch.eventContext.AsyncJobComplete(batch.executeCallback)
+		} else {
+			batch.completeItem()
+		}
 	}
 }
 
 func (ab *AsyncBatcher[S, K, V]) executeBatch(executor *asyncBatchExecutor[S, K, V]) {
 	if len(executor.items) > 0 {
 		ab.executor(executor.items)
-		ab.completeBatchItems(executor.items)
-	}
-	for _, b := range executor.noops {
-		b.eventContext.AsyncJobComplete(b.executeCallback)
 	}
+	ab.completeBatchItems(executor.all)
 	ab.mux.Lock()
 	ab.executingCount--
 	executor.reset(ab.assignments)
-- 
2.43.0


From e279d4978b507c0f980e9379d52c0facf84e552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 20/34] fix: an item added to a drained AsyncJobScheduler queue
 was never processed

---
 streams/async_item_queue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streams/async_item_queue.go b/streams/async_item_queue.go
index 1e8c4bc..526db4b 100644
--- a/streams/async_item_queue.go
+++ b/streams/async_item_queue.go
@@ -106,6 +106,10 @@ func (aiq *asyncItemQueue[T]) dequeue() (T, bool) {
 func (aiq *asyncItemQueue[T]) peek() (T, bool) {
 	aiq.headLock.Lock()
 	defer aiq.headLock.Unlock()
+	if !aiq.peekable {
+		// an item may have been added via enqueueChannel()
+		aiq.backfill()
+	}
 	return aiq.head, aiq.peekable
 }
 
-- 
2.43.0


From 266701fae897918e3555f9d7d74974aaf859ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 21/34] fix: a halted AsyncJobScheduler marked unprocessed
 events as Complete

---
 streams/async_scheduler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index dadd2cf..5fe92a9 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -230,7 +230,8 @@ func (ap *AsyncJobScheduler[S, K, V]) newQueue() interface{} {
 // Schedules the value for processing in order by key. The finalizer will be invoked once processing is complete.
 func (ap *AsyncJobScheduler[S, K, V]) Schedule(ec *EventContext[S], key K, value V) ExecutionState {
 	if ap.isClosed() {
-		return Complete
+		// the job will not be processed, so we can not allow for the event to be committed
+		return Incomplete
 	}
 	ap.scheduleItem(asyncJobContainer[S, K, V]{
 		eventContext: ec,
-- 
2.43.0


From e4aaf967f7c96ea8440518bf259df71948ecc40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 22/34] fix: callers of AsyncJobScheduler.Schedule could block
 forever after it is halted

---
 streams/async_scheduler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index 5fe92a9..0f3cfa2 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -350,7 +350,10 @@ func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSi
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) waitForWorker() {
-	<-ap.workerFreeSignal
+	select {
+	case <-ap.workerFreeSignal:
+	case <-ap.runStatus.Done():
+	}
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) workerAvailable() {
-- 
2.43.0


From 82442c71f6c7042b873d5c543019787990cdd6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 23/34] fix: shrinking then growing MaxConcurrentKeys lost
 scheduled jobs

---
 streams/async_scheduler.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index 0f3cfa2..99f6a62 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -312,18 +312,17 @@ func (ap *AsyncJobScheduler[S, K, V]) SetMaxConcurrentKeys(size int) {
 	// prevent any action on workerChannel until this operation is complete
 	ap.updateRWLock.Lock()
 	defer ap.updateRWLock.Unlock()
-	// this does not actually increase the number of workers, just makes room in the pending worker channel
-	prevMaxKeys := ap.maxConcurrentKeys
-
 	// lock here as grabWorker() uses this value, locked in release/scheduleWorker
 	ap.mux.Lock()
 	ap.maxConcurrentKeys = SchedulerConfig{MaxConcurrentKeys: size}.concurrentKeys()
 	ap.mux.Unlock()
-	ap.ensureWorkerChannelCapacity(size, prevMaxKeys)
+	// this does not actually increase the number of workers, just makes room in the pending worker channel
+	ap.ensureWorkerChannelCapacity(size)
 }
 
-func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSize int) {
-	if newSize > oldSize {
+func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize int) {
+	// compare to the actual capacity, the channel does not shrink when maxConcurrentKeys does
+	if newSize+1 > cap(ap.workerChannel) {
 		/*
 			we need to make sure s.workerChannel capacity is > s.maxConcurrentKeys
 			to avoid a deadlock. worker routines pull from this channel and may post back in the same thread
-- 
2.43.0


From 809271c4c1d23716b3cff8758fdf90037fdc7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 24/34] fix: adding records to a partition while it is revoked
 panicked

---
 streams/partition_worker.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 1a1191d..84b235f 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -123,7 +123,10 @@ func (pw *partitionWorker[T]) add(records []*kgo.Record) {
 		return
 	}
 	// atomic.AddInt64(&pw.pending, int64(len(records)))
-	pw.partitionInput <- records
+	select {
+	case pw.partitionInput <- records:
+	case <-pw.runStatus.Done():
+	}
 }
 
 func (pw *partitionWorker[T]) revoke() {
@@ -151,7 +154,7 @@ func (pw *partitionWorker[T]) pushRecords() {
 			log.Debugf("Closing worker for %+v", pw.topicPartition)
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
-			close(pw.partitionInput)
+			// partitionInput is never closed, the consumer may still be trying to add records
 			close(pw.eventInput)
 			close(pw.asyncCompleter.asyncJobs)
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
-- 
2.43.0


From f2faf2a59e86367d47e4ef4d04da620fb56f3a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 25/34] fix: a scheduled interjection which completes
 asynchronously was never scheduled again

---
 streams/interjection.go     | 2 +-
 streams/partition_worker.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/interjection.go b/streams/interjection.go
index 6bc282f..244aefe 100644
--- a/streams/interjection.go
+++ b/streams/interjection.go
@@ -63,7 +63,7 @@ func (ij *interjection[T]) timerDuration() time.Duration {
 
 // schedules the next interjection
 func (ij *interjection[T]) tick() {
-	if ij.isOneOff {
+	if ij.isOneOff || ij.cancelled {
 		return
 	}
 	delay := ij.timerDuration()
diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 84b235f..e28b583 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -262,6 +262,9 @@ func (pw *partitionWorker[T]) processAsyncJob(job AsyncJob[T]) {
 	if job.Finalize() == Complete {
 		job.ctx.complete()
 		<-pw.maxPending
+		if job.ctx.IsInterjection() {
+			job.ctx.interjection.tick()
+		}
 	}
 }
 
-- 
2.43.0


From c08972da3925275adbadfad262175434ed0fb0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 26/34] fix: Interject callers were never notified when the
 partition was revoked first

---
 streams/partition_worker.go | 1 +
 streams/source_consumer.go  | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index e28b583..3a4c894 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -157,6 +157,7 @@ func (pw *partitionWorker[T]) pushRecords() {
 			// partitionInput is never closed, the consumer may still be trying to add records
 			close(pw.eventInput)
 			close(pw.asyncCompleter.asyncJobs)
+			pw.interleaveInterjection() // reject the interjection which is still buffered, if any
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
 			return
 		}
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 56a1fd5..6a1ecdf 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -301,7 +301,7 @@ func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T])
 		c <- ErrPartitionNotAssigned
 		return c
 	}
-	w.interjectionInput <- &interjection[T]{
+	ij := &interjection[T]{
 		isOneOff:       true,
 		topicPartition: w.topicPartition,
 		interjector: func(ec *EventContext[T], t time.Time) ExecutionState {
@@ -309,6 +309,13 @@ func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T])
 			close(c)
 			return state
 		},
+		// invoked if the partition is revoked before the interjection could be executed
+		callback: func() { c <- ErrPartitionNotAssigned },
+	}
+	select {
+	case w.interjectionInput <- ij:
+	case <-w.runStatus.Done():
+		c <- ErrPartitionNotAssigned
 	}
 	return c
 }
-- 
2.43.0


From 5c94be20f6682e2a25551ef1d8d116ebcb7090c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 27/34] fix: state store consumer panicked or blocked when a
 partition completed while records were fetched

---
 streams/state_store_consumer.go | 39 +++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 26dc157..6e616e6 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -49,6 +49,8 @@ type StateStore interface {
 
 type stateStorePartition[T StateStore] struct {
 	buffer         chan []*kgo.Record
+	done           chan struct{} // closed when buffer is no longer consumed
+	bufferLock     sync.Mutex
 	client         *kgo.Client
 	waiters        map[string]chan struct{}
 	topicPartition TopicPartition
@@ -60,7 +62,16 @@ type stateStorePartition[T StateStore] struct {
 }
 
 func (ssp *stateStorePartition[T]) add(ftp kgo.FetchTopicPartition) {
-	ssp.buffer <- ftp.FetchPartition.Records
+	ssp.bufferLock.Lock()
+	buffer, done := ssp.buffer, ssp.done
+	ssp.bufferLock.Unlock()
+	if buffer == nil {
+		return
+	}
+	select {
+	case buffer <- ftp.FetchPartition.Records:
+	case <-done:
+	}
 }
 
 func (ssp *stateStorePartition[T]) pause() {
@@ -74,8 +85,11 @@ func (ssp *stateStorePartition[T]) pause() {
 }
 
 func (ssp *stateStorePartition[T]) kill() {
+	ssp.bufferLock.Lock()
+	defer ssp.bufferLock.Unlock()
 	if ssp.buffer != nil {
-		close(ssp.buffer)
+		// buffer itself is never closed, the consumer may still be trying to add records
+		close(ssp.done)
 		ssp.buffer = nil
 	}
 }
@@ -131,7 +145,10 @@ func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store chan
 	ssp.setState(intitialState)
 	ssp.count = 0
 	ssp.byteCount = 0
-	ssp.buffer = make(chan []*kgo.Record, 1024)
+	buffer, done := make(chan []*kgo.Record, 1024), make(chan struct{})
+	ssp.bufferLock.Lock()
+	ssp.buffer, ssp.done = buffer, done
+	ssp.bufferLock.Unlock()
 	topic := ssp.topicPartition.Topic
 	partition := ssp.topicPartition.Partition
 	ssp.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
@@ -140,7 +157,7 @@ func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store chan
 	ssp.client.ResumeFetchPartitions(map[string][]int32{
 		topic: {partition},
 	})
-	go ssp.populate(store)
+	go ssp.populate(store, buffer, done)
 }
 
 func (ssp *stateStorePartition[T]) isCompletionMarker(val []byte) (complete bool) {
@@ -162,11 +179,16 @@ func (ssp *stateStorePartition[T]) isCompletionMarker(val []byte) (complete bool
 	return
 }
 
-func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T]) {
+func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T], buffer chan []*kgo.Record, done chan struct{}) {
 	log.Debugf("starting populator for %+v", ssp.topicPartition)
-	for records := range ssp.buffer {
-		if !ssp.handleRecordsAndContinue(records, store) {
-			log.Debugf("closed populator for %+v", ssp.topicPartition)
+	for {
+		select {
+		case records := <-buffer:
+			if !ssp.handleRecordsAndContinue(records, store) {
+				log.Debugf("closed populator for %+v", ssp.topicPartition)
+				return
+			}
+		case <-done:
 			return
 		}
 	}
@@ -232,7 +254,6 @@ func newStateStoreConsumer[T StateStore](runStatus sak.RunStatus, source *Source
 			waiters:        make(map[string]chan struct{}, 2),
 			client:         client,
 			state:          paused,
-			buffer:         make(chan []*kgo.Record, 1024),
 			highWatermark:  -1,
 		}
 	}
-- 
2.43.0


From 6e365269d499f336c952064f64dd8badca64f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 28/34] fix: FailConsumer and FatallyExit were ignored for
 deserialization errors

---
 streams/event_source.go | 15 +++++++++++----
 streams/source.go       |  8 ++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index 66c5d13..9ba17f6 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -366,7 +366,7 @@ func (es *EventSource[T]) handleEvent(ctx *EventContext[T], record IncomingRecor
 // Registers eventType with a transformer (usuall a codec.Codec) with the supplied EventProcessor.
 // Must not be called after `EventSource.ConsumeEvents()`
 func RegisterEventType[T StateStore, V any](es *EventSource[T], transformer IncomingRecordDecoder[V], eventProcessor EventProcessor[T, V], eventType string) {
-	ep := newEventProcessorWrapper(eventType, transformer, eventProcessor, es.source.deserializationErrorHandler())
+	ep := newEventProcessorWrapper(eventType, transformer, eventProcessor, es.source.deserializationErrorHandler(), es.source)
 	if es.rootProcessor == nil {
 		es.rootProcessor, es.tailProcessor = ep, ep
 	} else {
@@ -400,27 +400,34 @@ type eventProcessorExecutor[T any, V any] struct {
 	process                    EventProcessor[T, V]
 	decode                     IncomingRecordDecoder[V]
 	handleDeserializationError DeserializationErrorHandler
+	source                     *Source
 }
 
 func (epe *eventProcessorExecutor[T, V]) Exec(ec *EventContext[T], record IncomingRecord) ExecutionState {
 	if event, err := epe.decode(record); err == nil {
 		return epe.process(ec, event)
 	} else {
-		if epe.handleDeserializationError(ec, record.RecordType(), err) == Continue {
+		switch epe.handleDeserializationError(ec, record.RecordType(), err) {
+		case Continue:
 			return Complete
+		case FatallyExit:
+			panic(err)
+		default:
+			epe.source.fail(err)
+			return Incomplete
 		}
-		return Incomplete
 	}
 }
 
 func newEventProcessorWrapper[T any, V any](eventType string, decoder IncomingRecordDecoder[V],
-	eventProcessor EventProcessor[T, V], deserializationErrorHandler DeserializationErrorHandler) *eventProcessorWrapper[T] {
+	eventProcessor EventProcessor[T, V], deserializationErrorHandler DeserializationErrorHandler, source *Source) *eventProcessorWrapper[T] {
 	return &eventProcessorWrapper[T]{
 		eventType: eventType,
 		eventExecutor: &eventProcessorExecutor[T, V]{
 			process:                    eventProcessor,
 			decode:                     decoder,
 			handleDeserializationError: deserializationErrorHandler,
+			source:                     source,
 		},
 	}
 }
diff --git a/streams/source.go b/streams/source.go
index d525f44..d3f70f8 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -108,7 +108,7 @@ type Source struct {
 }
 
 func newSource(config EventSourceConfig) *Source {
-	return &Source{state: uint64(Healthy), config: config, failure: make(chan error)}
+	return &Source{state: uint64(Healthy), config: config, failure: make(chan error, 1)}
 }
 
 // A convenience method for creating a [Destination] form your Source. Can be used for creating a [Producer] or [BatchProducer] which publishes to your [EventSource].
@@ -168,7 +168,11 @@ func (s *Source) State() EventSourceState {
 
 func (s *Source) fail(err error) {
 	atomic.StoreUint64(&s.state, uint64(Unhealthy))
-	s.failure <- err
+	select {
+	case s.failure <- err:
+	default:
+		// already failing, no need to block the caller
+	}
 }
 
 func (s *Source) Topic() string {
-- 
2.43.0


From 58b601807415050f59860a647219120427ac76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 29/34] fix: MinMaxHeap.Push left the index of the item unset

---
 streams/stores/min_max_heap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 1f3e21a..9d66925 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -128,6 +128,7 @@ func (pq *MinMaxHeap[T]) pop() *PrioritizedItem[T] {
 }
 
 func (pq *MinMaxHeap[T]) push(item *PrioritizedItem[T]) {
+	item.index = len(pq.items)
 	pq.items = append(pq.items, item)
 }
 
-- 
2.43.0


From d1b696120530a3f90188b3ad82edb9dd81580e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 30/34] fix: MinMaxHeap.Max and Remove broke the order of the
 heap

---
 streams/stores/min_max_heap.go | 38 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 9d66925..f07c604 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -36,7 +36,6 @@ type PrioritizedItem[T Prioritizable[T]] struct {
 // https://doi.org/10.1145/6617.6621.
 type MinMaxHeap[T Prioritizable[T]] struct {
 	items []*PrioritizedItem[T]
-	maxed bool
 }
 
 func NewMinMaxHeap[T Prioritizable[T]](items ...T) *MinMaxHeap[T] {
@@ -68,17 +67,14 @@ func (pq *MinMaxHeap[T]) Len() int {
 }
 
 func (pq *MinMaxHeap[T]) Push(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	push(pq, item)
 }
 
 func (pq *MinMaxHeap[T]) Update(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	fix(pq, item.index)
 }
 
 func (pq *MinMaxHeap[T]) Remove(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	remove(pq, item.index)
 }
 
@@ -93,18 +89,13 @@ func (pq *MinMaxHeap[T]) Max() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-		pq.maxed = true
-	}
-	return pq.items[pq.Len()-1]
+	return pq.items[maxIndex(pq)]
 }
 
 func (pq *MinMaxHeap[T]) PopMin() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	pq.maxed = false
 	return popMin(pq)
 }
 
@@ -112,10 +103,7 @@ func (pq *MinMaxHeap[T]) PopMax() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-	}
-	pq.maxed = false
+	setMax(pq)
 	return pq.pop()
 }
 
@@ -264,9 +252,8 @@ func popMin[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
 	return h.pop()
 }
 
-// popMax removes and returns the maximum element (according to Less) from the heap.
-// The complexity is O(log n) where n = h.Len().
-func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+// maxIndex returns the index of the maximum element (according to Less).
+func maxIndex[T Prioritizable[T]](h *MinMaxHeap[T]) int {
 	n := h.Len()
 
 	i := 0
@@ -279,7 +266,14 @@ func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
 	if r < n && !h.less(r, i) {
 		i = r
 	}
+	return i
+}
 
+// setMax moves the maximum element (according to Less) to the end of the heap, where it must be popped.
+// The complexity is O(log n) where n = h.Len().
+func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+	n := h.Len()
+	i := maxIndex(h)
 	h.swap(i, n-1)
 	down(h, i, n-1)
 }
@@ -311,9 +305,8 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 	n := h.Len() - 1
 	if n != i {
 		h.swap(i, n)
-		if !down(h, i, n) {
-			up(h, i)
-		}
+		up(h, i)
+		down(h, i, n)
 	}
 	return h.pop()
 }
@@ -324,7 +317,6 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 // followed by a Push of the new value.
 // The complexity is O(log n) where n = h.Len().
 func fix[T Prioritizable[T]](h *MinMaxHeap[T], i int) {
-	if !down(h, i, h.Len()) {
-		up(h, i)
-	}
+	up(h, i)
+	down(h, i, h.Len())
 }
-- 
2.43.0


From 872ae01c5cf607eb67f3ae3ca2a1eb9a2bf2412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 31/34] fix: a cluster whose name merely starts with the
 configured name could be selected

---
 msk/cluster.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 7b93f35..f80f131 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -222,15 +222,18 @@ func (c *MskCluster) getClusterArn() (arn string, err error) {
 	}); err != nil {
 		return
 	}
-	if len(res.ClusterInfoList) == 0 {
-		err = fmt.Errorf("cluster not found: %s", c.clusterName)
-		return
-	}
-	ci := res.ClusterInfoList[0]
-	if ci.ClusterArn == nil {
-		err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
+	for _, ci := range res.ClusterInfoList {
+		// ClusterNameFilter matches every cluster whose name starts with clusterName
+		if aws.ToString(ci.ClusterName) != c.clusterName {
+			continue
+		}
+		if ci.ClusterArn == nil {
+			err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
+			return
+		}
+		arn = *ci.ClusterArn
 		return
 	}
-	arn = *ci.ClusterArn
+	err = fmt.Errorf("cluster not found: %s", c.clusterName)
 	return
 }
-- 
2.43.0


From f27dbd4228b2591986758e6e76cb566083c6741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 32/34] fix: the change log consumer could pause a partition
 whose preparation had just begun

---
 streams/state_store_consumer.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 6e616e6..5129683 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -283,9 +283,7 @@ func (ssc *stateStoreConsumer[T]) consume() {
 		}
 		f.EachPartition(func(partitionFetch kgo.FetchTopicPartition) {
 			ssp := ssc.partitions[partitionFetch.Partition]
-			if ssp.partitionState() == paused {
-				ssp.pause()
-			} else {
+			if !ssc.pauseIfIdle(ssp) {
 				ssp.add(partitionFetch)
 			}
 		})
@@ -295,6 +293,17 @@ func (ssc *stateStoreConsumer[T]) consume() {
 	ssc.client.Close()
 }
 
+// pauses fetching a partition which is not being restored, but not one which is being prepared right now
+func (ssc *stateStoreConsumer[T]) pauseIfIdle(ssp *stateStorePartition[T]) bool {
+	ssc.mux.Lock()
+	defer ssc.mux.Unlock()
+	if ssp.partitionState() != paused {
+		return false
+	}
+	ssp.pause()
+	return true
+}
+
 func (ssc *stateStoreConsumer[T]) cancelPartition(p int32) {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
-- 
2.43.0


From 2749c7c8b8a1d346cd1d71756c959d4981df8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 33/34] fix: report errors creating a topic

The errors of the individual topics in the response to CreateTopics were
ignored, so that creating an event source succeeded without its topics.
---
 streams/topics.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/streams/topics.go b/streams/topics.go
index a6ecb48..6d04636 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -25,6 +25,7 @@ import (
 	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/google/btree"
 	"github.com/twmb/franz-go/pkg/kadm"
+	"github.com/twmb/franz-go/pkg/kerr"
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
@@ -130,7 +131,15 @@ func NewClient(cluster Cluster, options ...kgo.Opt) (*kgo.Client, error) {
 func createTopicFromConfigMap(adminClient *kadm.Client, numPartitions int32, replicationFactor int16, config map[string]*string, topic ...string) error {
 	res, err := adminClient.CreateTopics(context.Background(), numPartitions, replicationFactor, config, topic...)
 	log.Infof("createTopic res: %+v, err: %v", res, err)
-	return err
+	if err != nil {
+		return err
+	}
+	for _, topicRes := range res {
+		if topicRes.Err != nil && !errors.Is(topicRes.Err, kerr.TopicAlreadyExists) {
+			return topicRes.Err
+		}
+	}
+	return nil
 }
 
 func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor int, minInsync int, cleanupPolicy CleanupPolicy, dirtyRatio float64, topic ...string) error {
-- 
2.43.0


From 80d899eb67d1799169d7135295c462f0359d7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 34/34] fix: do not create topics which exist but can not be
 described

Only an unknown topic has to be created. For any other error (a leader
election in progress, missing permissions) creating it either fails as it
already exists, in which case the configured instead of the actual partition
count was used, or fails for the same reason.
---
 streams/topics.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/streams/topics.go b/streams/topics.go
index 6d04636..67f2692 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -248,6 +248,8 @@ func resolveOrCreateTopics(source *Source, sourceTopicAdminClient, eosAdminClien
 	if val, ok := res[topic]; ok && val.Err == nil {
 		source.config.NumPartitions = len(val.Partitions.Numbers())
 		source.config.ReplicationFactor = val.Partitions.NumReplicas()
+	} else if ok && !errors.Is(val.Err, kerr.UnknownTopicOrPartition) {
+		return nil, val.Err
 	} else {
 		err = createTopic(sourceTopicAdminClient, source.NumPartitions(),
 			replicationFactorConfig(source), minInSyncConfig(source), DeleteCleanupPolicy, 1, topic)
@@ -266,6 +268,8 @@ func resolveOrCreateTopics(source *Source, sourceTopicAdminClient, eosAdminClien
 	}
 	if val, ok := res[commitLogName]; ok && val.Err == nil {
 		source.config.CommitLogPartitions = len(val.Partitions.Numbers())
+	} else if ok && !errors.Is(val.Err, kerr.UnknownTopicOrPartition) {
+		return nil, val.Err
 	} else {
 		err = createTopic(eosAdminClient, commitLogPartitionsConfig(source),
 			replicationFactorConfig(source), minInSyncConfig(source), CompactCleanupPolicy, 0.9, commitLogName)
@@ -281,6 +285,8 @@ func resolveOrCreateTopics(source *Source, sourceTopicAdminClient, eosAdminClien
 				return nil, fmt.Errorf("change log partitition count (%d) does not match source topic partition count (%d)",
 					changeLogPartitionCount, source.config.NumPartitions)
 			}
+		} else if ok && !errors.Is(val.Err, kerr.UnknownTopicOrPartition) {
+			return nil, val.Err
 		} else {
 			err = createTopic(eosAdminClient, source.NumPartitions(),
 				replicationFactorConfig(source), minInSyncConfig(source), CompactCleanupPolicy, 0.5, changLogName)
-- 
2.43.0

