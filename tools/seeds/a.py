P='streams/producer.go'; R='streams/record.go'; SS='streams/stores/simple_store.go'
HEAD='''package streams

import (
%s
)
'''
def imp(*x): return HEAD % '\n'.join('\t"%s"' % i for i in x)
S=[
dict(id='c23-recordtype', prop='C23', pkg='streams', needs='a pooled record with a type is released and borrowed again without setting a type', breaks='a record carries the type header of an unrelated record',
 edits=[(R,'		r.recordType = ""\n','		if len(r.kRecord.Headers) > 0 {\n			r.recordType = ""\n		}\n')],
 test=imp('testing')+'''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 10; i++ {
		r := NewRecord().WithRecordType("a").WithKeyString("k")
		r.Release()
		r = NewRecord().WithKeyString("k")
		if ir := newIncomingRecord(r.ToKafkaRecord()); ir.RecordType() != "" {
			t.Fatalf("record type %q leaked", ir.RecordType())
		}
	}
}
'''),
dict(id='c25-consistency', prop='C25', pkg='streams', needs='a keyed record without partition while some partitions of the topic have no leader', breaks='the key partitioner is asked to choose among the writable partitions only, so a key moves to another partition',
 edits=[(R,'''func (otp optionalTopicPartitioner) RequiresConsistency(_ *kgo.Record) bool {
	return true''','''func (otp optionalTopicPartitioner) RequiresConsistency(r *kgo.Record) bool {
	return r.Partition != AutoAssign''')],
 test='''package streams

import (
	"testing"

	"github.com/twmb/franz-go/pkg/kgo"
)

func TestSeedDemo(t *testing.T) {
	want := kgo.StickyKeyPartitioner(nil).ForTopic("t").RequiresConsistency(&kgo.Record{Partition: AutoAssign, Key: []byte("k")})
	tp := NewOptionalPartitioner(kgo.StickyKeyPartitioner(nil)).ForTopic("t")
	for _, p := range []int32{0, 3, AutoAssign} {
		if got := tp.RequiresConsistency(&kgo.Record{Partition: p, Key: []byte("k")}); got != want && !got {
			t.Fatalf("partition %d: consistency %v", p, got)
		}
	}
}
'''),
dict(id='c28-delete-value', prop='C28', pkg='streams/stores', needs='an item is deleted and the change log is replayed', breaks='the deletion is written as a put of the deleted item',
 edits=[(SS,'		cle = streams.NewChangeLogEntry().WithKeyString(keyedValue.key)\n','		cle = s.ToChangeLogEntry(item)\n')],
 test='''package stores

import (
	"testing"

	"github.com/aws/go-kafka-event-source/streams"
)

type seedItem struct{ Id string }

func (s seedItem) Key() string { return s.Id }

func TestSeedDemo(t *testing.T) {
	s := NewJsonSimpleStore[seedItem](streams.TopicPartition{})
	s.Put(seedItem{"a"})
	cle, ok := s.Delete(seedItem{"a"})
	if !ok {
		t.Fatal("not deleted")
	}
	if n := cle.ValueWriter().Len(); n != 0 {
		t.Fatalf("the deletion carries a value of %d bytes", n)
	}
	if k := cle.KeyWriter().String(); k != "a" {
		t.Fatalf("the deletion has key %q", k)
	}
	if cle, ok = s.Delete(seedItem{"a"}); ok {
		t.Fatal("deleted twice")
	}
}
'''),
]
