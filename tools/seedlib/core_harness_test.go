package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"go.opentelemetry.io/otel"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/types/known/timestamppb"

	pb "open-match.dev/pkg/pb/v2"

	"open-match.dev/core/internal/config"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	memoryReplicator "open-match.dev/core/internal/statestore/memory"
)

// fakeStore is a state storage whose answers a demonstration chooses.
type fakeStore struct {
	mu      sync.Mutex
	batches [][]store.StateUpdate
	onSend  func(batch []store.StateUpdate) []*store.StateResponse
	in      chan []*store.StateUpdate
	n       int
}

func newFakeStore() *fakeStore { return &fakeStore{in: make(chan []*store.StateUpdate, 1000)} }

func (f *fakeStore) GetReplIdValidationRegex() string { return `^\d+-\d+$` }

func (f *fakeStore) GetUpdates() []*store.StateUpdate {
	select {
	case u := <-f.in:
		return u
	case <-time.After(5 * time.Millisecond):
		return nil
	}
}

func (f *fakeStore) SendUpdates(us []*store.StateUpdate) []*store.StateResponse {
	var b []store.StateUpdate
	for _, u := range us {
		b = append(b, *u)
	}
	f.mu.Lock()
	f.batches = append(f.batches, b)
	f.mu.Unlock()
	if f.onSend != nil {
		return f.onSend(b)
	}
	var out []*store.StateResponse
	var in []*store.StateUpdate
	for i := range b {
		f.n++
		id := fmt.Sprintf("%d-%d", time.Now().UnixMilli(), f.n)
		if b[i].Cmd == store.Ticket {
			b[i].Key = id
		}
		u := b[i]
		in = append(in, &u)
		out = append(out, &store.StateResponse{Result: id})
	}
	f.in <- in
	return out
}

func (f *fakeStore) all() []store.StateUpdate {
	f.mu.Lock()
	defer f.mu.Unlock()
	var out []store.StateUpdate
	for _, b := range f.batches {
		out = append(out, b...)
	}
	return out
}

// boot sets the server up the way main does, without listening.
func boot(t *testing.T, settings map[string]any, repl store.StateReplicator) *grpcServer {
	t.Helper()
	if os.Getenv("DEMO_LOG") == "" {
		logrus.SetOutput(io.Discard)
	}
	cfg = config.Read()
	cfg.Set("OM_CACHE_OUT_WAIT_TIMEOUT_MS", 10)
	cfg.Set("OM_CACHE_IN_WAIT_TIMEOUT_MS", 10)
	for k, v := range settings {
		cfg.Set(k, v)
	}
	meter := otel.Meter("demo")
	registerMetrics(&meter)
	cache.RegisterMetrics(&meter)
	for _, m := range []*sync.Map{&tc.Tickets, &tc.InactiveSet, &tc.Assignments} {
		m.Range(func(k, _ any) bool { m.Delete(k); return true })
	}
	tc.Cfg = cfg
	tc.UpRequests = make(chan *cache.UpdateRequest)
	if repl == nil {
		repl = memoryReplicator.New(cfg)
	}
	tc.Replicator = repl
	go tc.OutgoingReplicationQueue(context.Background())
	go tc.IncomingReplicationQueue(context.Background())
	return &grpcServer{}
}

// eventually waits for a condition.
func eventually(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// within fails the test when f does not return in time.
func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan bool)
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s did not finish in %v", what, d)
	}
}

// idOf is a ticket id.
func idOf(ms int64, n int) string { return fmt.Sprintf("%d-%d", ms, n) }

// tsIn is a point in time, seen from now.
func tsIn(d time.Duration) *timestamppb.Timestamp { return timestamppb.New(time.Now().Add(d)) }

func has(m *sync.Map, k string) bool { _, ok := m.Load(k); return ok }

// addTicket puts a ticket into the cache, active unless told otherwise.
func addTicket(id string, tk *pb.Ticket, inactive bool) *pb.Ticket {
	if tk == nil {
		tk = &pb.Ticket{}
	}
	tk.Id = id
	if inactive {
		tc.InactiveSet.Store(id, true)
	}
	tc.Tickets.Store(id, tk)
	return tk
}

type mmfServer struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	run func(n int, stream pb.MatchMakingFunctionService_RunServer) error
	mu  sync.Mutex
	n   int
}

func (m *mmfServer) Run(s pb.MatchMakingFunctionService_RunServer) error {
	m.mu.Lock()
	m.n++
	n := m.n
	m.mu.Unlock()
	return m.run(n, s)
}

// startMMF serves a matchmaking function on the loopback network.
func startMMF(t *testing.T, name string, run func(n int, stream pb.MatchMakingFunctionService_RunServer) error) *pb.MatchmakingFunctionSpec {
	t.Helper()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := grpc.NewServer()
	pb.RegisterMatchMakingFunctionServiceServer(s, &mmfServer{run: run})
	go s.Serve(l)
	t.Cleanup(s.Stop)
	return &pb.MatchmakingFunctionSpec{Name: name, Host: "127.0.0.1", Port: int32(l.Addr().(*net.TCPAddr).Port), Type: pb.MatchmakingFunctionSpec_GRPC}
}

// recvAll reads all chunks of a request.
func recvAll(s pb.MatchMakingFunctionService_RunServer) ([]*pb.ChunkedMmfRunRequest, error) {
	var out []*pb.ChunkedMmfRunRequest
	for {
		c, err := s.Recv()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, c)
		if len(out) >= int(c.GetNumChunks()) {
			return out, nil
		}
	}
}

func matchOf(id string, tickets ...string) *pb.Match {
	r := &pb.Roster{Name: "r"}
	for _, x := range tickets {
		r.Tickets = append(r.Tickets, &pb.Ticket{Id: x})
	}
	return &pb.Match{Id: id, Rosters: map[string]*pb.Roster{"r": r}}
}

type fakeStream struct {
	grpc.ServerStream
	ctx context.Context
}

func (f *fakeStream) Context() context.Context     { return f.ctx }
func (f *fakeStream) SetHeader(metadata.MD) error  { return nil }
func (f *fakeStream) SendHeader(metadata.MD) error { return nil }
func (f *fakeStream) SetTrailer(metadata.MD)       {}

// invokeStream collects the matches a matchmaker receives.
type invokeStream struct {
	fakeStream
	mu     sync.Mutex
	got    []*pb.Match
	onSend func(*pb.Match) error
}

func (s *invokeStream) Send(r *pb.StreamedMmfResponse) error {
	if s.onSend != nil {
		if err := s.onSend(r.GetMatch()); err != nil {
			return err
		}
	}
	s.mu.Lock()
	s.got = append(s.got, r.GetMatch())
	s.mu.Unlock()
	return nil
}

func (s *invokeStream) ids() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for _, m := range s.got {
		out = append(out, m.GetId())
	}
	return out
}

func newInvokeStream() *invokeStream {
	return &invokeStream{fakeStream: fakeStream{ctx: context.Background()}}
}

// watchStream collects assignments.
type watchStream struct {
	fakeStream
	mu  sync.Mutex
	got []*pb.StreamedWatchAssignmentsResponse
}

func (s *watchStream) Send(r *pb.StreamedWatchAssignmentsResponse) error {
	s.mu.Lock()
	s.got = append(s.got, r)
	s.mu.Unlock()
	return nil
}

var _ = strings.Contains
