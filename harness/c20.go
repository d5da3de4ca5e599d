package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-tracing/tracer"
	"github.com/google/uuid"
)

func init() {
	register("C20", c20)
}

// probeSpan and probeTracer record which trace context was used.
type probeSpan struct {
	tracer.Span
	of *probeTracer
}

type probeTracer struct {
	n      int
	calls  atomic.Int64
	refuse bool // a tracer that starts and finishes no span
	name   atomic.Value
}

func (t *probeTracer) Span() tracer.Span { return &probeSpan{of: t} }
func (t *probeTracer) StartSpan(name string) bool {
	t.calls.Add(1)
	t.name.Store(name)
	return !t.refuse
}
func (t *probeTracer) FinishSpan() bool { t.calls.Add(1); return !t.refuse }

const (
	sSetUser = iota
	sUser
	sSetDB
	sDB
	sSetSchemas
	sSchemas
	sSetCtx
	sCtx
	sSpan
)

var sesOpNames = []string{"SetUser", "User", "SetDatabase", "Database", "SetSchemas", "Schemas", "SetSpanContext", "SpanContext", "Span"}

type sesIn struct {
	op  int
	arg string
}

type sesState struct {
	user, db, schemas string
	ctx               string
}

// packed is a list of names as one comparable value, the empty name included.
func packed(l []string) string {
	s := ""
	for _, x := range l {
		s += x + "\x1f"
	}
	return s
}

func unpacked(s string) []string {
	if s == "" {
		return []string{}
	}
	return strings.Split(strings.TrimSuffix(s, "\x1f"), "\x1f")
}

func sesStep(st sesState, in sesIn) (sesState, string) {
	switch in.op {
	case sSetUser:
		st.user = in.arg
	case sUser:
		return st, st.user
	case sSetDB:
		st.db, st.schemas = in.arg, ""
	case sDB:
		return st, st.db
	case sSetSchemas:
		l := unpacked(st.schemas)
		for _, s := range unpacked(in.arg) {
			if !slices.Contains(l, s) {
				l = append(l, s)
			}
		}
		st.schemas = packed(l)
	case sSchemas:
		return st, st.schemas
	case sSetCtx:
		st.ctx = in.arg
	case sCtx, sSpan:
		return st, st.ctx
	}
	return st, ""
}

var sesModel = porcupine.Model{
	Init: func() interface{} { return sesState{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		next, want := sesStep(state.(sesState), input.(sesIn))
		return want == output.(string), next
	},
}

// session drives one real connection and keeps every list that was handed out.
type session struct {
	c       sqlnet.Conn
	tracers []*probeTracer
	mu      sync.Mutex
	handed  [][]string
	copies  []string
}

func (s *session) do(in sesIn, scribble bool) string {
	switch in.op {
	case sSetUser:
		s.c.SetUser(in.arg)
	case sUser:
		return s.c.User()
	case sSetDB:
		s.c.SetDatabase(in.arg)
	case sDB:
		return s.c.Database()
	case sSetSchemas:
		l := unpacked(in.arg)
		s.c.SetSchemas(l...)
		if scribble {
			for k := range l {
				l[k] = "SCRIBBLE"
			}
		}
	case sSchemas:
		l := s.c.Schemas()
		out := packed(l)
		if scribble {
			for k := range l {
				l[k] = "SCRIBBLE"
			}
			_ = append(l, "SCRIBBLE")
		} else {
			s.mu.Lock()
			s.handed, s.copies = append(s.handed, l), append(s.copies, out)
			s.mu.Unlock()
		}
		return out
	case sSetCtx:
		if in.arg == "" {
			s.c.SetSpanContext(nil)
		} else {
			s.c.SetSpanContext(s.tracers[in.arg[0]-'0'])
		}
	case sCtx:
		t, ok := s.c.SpanContext().(*probeTracer)
		if !ok || t == nil {
			return ""
		}
		return fmt.Sprint(t.n)
	case sSpan:
		sp, ok := s.c.Span().(*probeSpan)
		if !ok || sp == nil {
			return ""
		}
		return fmt.Sprint(sp.of.n)
	}
	return ""
}

func (s *session) judgeHanded() error {
	for k := range s.handed {
		if now := packed(s.handed[k]); now != s.copies[k] {
			return fmt.Errorf("the list %q handed out became %q", s.copies[k], now)
		}
		seen := map[string]bool{}
		for _, x := range s.handed[k] {
			if seen[x] {
				return fmt.Errorf("the list %q holds %q twice", s.copies[k], x)
			}
			seen[x] = true
		}
	}
	return nil
}

func randSesOp(rng *rand.Rand, uniq *int) sesIn {
	*uniq++
	switch op := rng.Intn(9); op {
	case sSetUser, sSetDB:
		if rng.Intn(6) == 0 {
			return sesIn{op, ""}
		}
		return sesIn{op, fmt.Sprintf("%s%d", []string{"u", "d"}[op/2], *uniq)}
	case sSetSchemas:
		l := []string{}
		for k := rng.Intn(5); 0 < k; k-- {
			l = append(l, []string{"s1", "s2", "s3", "S1", "public", fmt.Sprintf("s%d", *uniq+10), ""}[rng.Intn(7)])
		}
		if rng.Intn(12) == 0 { // many
			for k := 20 + rng.Intn(60); 0 < k; k-- {
				l = append(l, fmt.Sprintf("s%d", rng.Intn(100)))
			}
		}
		return sesIn{op, packed(l)}
	case sSetCtx:
		return sesIn{op, []string{"", "0", "1", "2"}[rng.Intn(4)]}
	default:
		return sesIn{op: op}
	}
}

func newSession(opts ...sqlnet.ConnOption) *session {
	s := &session{c: sqlnet.NewConnWith(&rawConn{}, opts...)}
	for k := 0; k < 3; k++ {
		s.tracers = append(s.tracers, &probeTracer{n: k, refuse: k == 2})
	}
	return s
}

func c20(r *Run) {
	r.Rule = "a history of session reads and writes of one connection, sequential or concurrent (decided by a linearizability checker), or a set of concurrent close calls with injected failures; race detector on"
	r.Parallel("seq", r.N(5000, 100000), func(i int, rng *rand.Rand) {
		s := newSession()
		st := sesState{}
		uniq := 0
		log := []string{}
		for k := 1 + rng.Intn(20); 0 < k; k-- {
			in := randSesOp(rng, &uniq)
			got := s.do(in, rng.Intn(3) == 0)
			var want string
			st, want = sesStep(st, in)
			log = append(log, fmt.Sprintf("%s(%s) -> %q", sesOpNames[in.op], in.arg, got))
			if got != want {
				r.Fail("sequential", "want %q\n%s", want, strings.Join(log, "\n"))
				return
			}
			for _, q := range []int{sUser, sDB, sSchemas, sCtx, sSpan} {
				got := s.do(sesIn{op: q}, rng.Intn(4) == 0)
				if _, want := sesStep(st, sesIn{op: q}); got != want {
					r.Fail("sequential", "afterwards %s is %q, want %q\n%s", sesOpNames[q], got, want, strings.Join(log, "\n"))
					return
				}
			}
			if st.ctx == "" {
				if s.c.StartSpan("x") || s.c.FinishSpan() {
					r.Fail("span", "a span was started without a trace context\n%s", strings.Join(log, "\n"))
				}
			} else {
				t := s.tracers[st.ctx[0]-'0']
				before := t.calls.Load()
				span := fmt.Sprintf("span %d", k)
				if s.c.StartSpan(span) == t.refuse || s.c.FinishSpan() == t.refuse || t.calls.Load() != before+2 || t.name.Load() != span {
					r.Fail("span", "spans do not reach the trace context\n%s", strings.Join(log, "\n"))
				}
			}
			r.Ev(sesOpNames[in.op])
		}
		if err := s.judgeHanded(); err != nil {
			r.Fail("handed out", "%v\n%s", err, strings.Join(log, "\n"))
		}
		r.Case(strings.Join(log, ";"))
	})
	// Initial attributes.
	r.Parallel("init", r.N(1000, 10000), func(i int, rng *rand.Rand) {
		schemas := []string{}
		for k := rng.Intn(5); 0 < k; k-- {
			schemas = append(schemas, []string{"a", "b", "c", "A", ""}[rng.Intn(5)])
		}
		given := append(make([]string, 0, 8), schemas...)
		id := rng.Uint64()
		t := &probeTracer{n: 1}
		opts := []sqlnet.ConnOption{sqlnet.WithConnDatabase("db"), sqlnet.WithConnUser("me"), sqlnet.WithConnSchemas(given...), sqlnet.WithConnID(id), sqlnet.WithConnTracer(t)}
		rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
		began := time.Now()
		c := sqlnet.NewConnWith(&rawConn{}, opts...)
		if ts := c.Timestamp(); ts.Before(began.Add(-time.Minute)) || time.Now().Add(time.Minute).Before(ts) || c.Context() == nil {
			r.Fail("initial", "made at %v with the time %v and the context %v", began, ts, c.Context())
		}
		want := []string{}
		for _, s := range schemas {
			if !slices.Contains(want, s) {
				want = append(want, s)
			}
		}
		for k := range given {
			given[k] = "SCRIBBLE"
		}
		c.SetSchemas("zz")
		if got := c.Schemas(); !slices.Equal(got, append(want, "zz")) || c.Database() != "db" || c.User() != "me" || c.ID() != id || c.SpanContext() != tracer.Context(t) {
			r.Fail("initial", "schemas %v gave %v; %s %s %d", schemas, got, c.Database(), c.User(), c.ID())
		}
		c.SetDatabase("other")
		if len(c.Schemas()) != 0 {
			r.Fail("initial", "changing the database left %v", c.Schemas())
		}
		r.Case(fmt.Sprintf("init %v %d", schemas, id))
	})
	// Unique ids and stable identity.
	seen := map[uuid.UUID]bool{}
	for k := 0; k < 2000; k++ {
		c := sqlnet.NewConnWith(&rawConn{})
		u := c.UUID()
		if seen[u] || c.UUID() != u || c.Timestamp().IsZero() || c.Timestamp() != c.Timestamp() {
			r.Fail("identity", "unique id %v repeated or not stable", u)
			break
		}
		seen[u] = true
	}
	// Concurrent histories.
	var overlaps int64
	orders := map[uint64]bool{}
	r.Serial("lin", r.N(1500, 30000), func(i int, rng *rand.Rand) {
		s := newSession()
		clients := 2 + rng.Intn(5)
		uniq := 0
		plans := make([][]sesIn, clients)
		focus := rng.Intn(3)
		for c := range plans {
			for k := 3 + rng.Intn(7); 0 < k; k-- {
				in := randSesOp(rng, &uniq)
				if focus == 0 { // database against schemas
					for in.op < sSetDB || sSchemas < in.op {
						in = randSesOp(rng, &uniq)
					}
				}
				plans[c] = append(plans[c], in)
			}
		}
		var clock atomic.Int64
		hists := make([][]porcupine.Operation, clients+1)
		record := func(c int, in sesIn, scribble bool) {
			call := clock.Add(1)
			out := s.do(in, scribble)
			ret := clock.Add(1)
			hists[c] = append(hists[c], porcupine.Operation{ClientId: c, Input: in, Call: call, Output: out, Return: ret})
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for c := range plans {
			wg.Add(1)
			seed := rng.Int63()
			go func(c int) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed))
				<-start
				for _, in := range plans[c] {
					record(c, in, rng.Intn(3) == 0)
					if rng.Intn(3) == 0 {
						runtime.Gosched()
					}
				}
			}(c)
		}
		close(start)
		wg.Wait()
		for _, q := range []int{sUser, sDB, sSchemas, sCtx, sSpan} {
			record(clients, sesIn{op: q}, false)
		}
		hist := []porcupine.Operation{}
		for _, h := range hists {
			hist = append(hist, h...)
		}
		conc := 0
		for a := range hist {
			for b := range hist {
				if a != b && hist[a].Call < hist[b].Call && hist[b].Call < hist[a].Return {
					conc++
				}
			}
		}
		overlaps += int64(conc)
		sort.Slice(hist, func(a, b int) bool { return hist[a].Return < hist[b].Return })
		h := fnv.New64a()
		for _, o := range hist {
			fmt.Fprintf(h, "%d%v%v;", o.ClientId, o.Input, o.Output)
		}
		orders[h.Sum64()] = true
		switch porcupine.CheckOperationsTimeout(sesModel, hist, 20*time.Second) {
		case porcupine.Illegal:
			var sb strings.Builder
			for _, o := range hist {
				in := o.Input.(sesIn)
				fmt.Fprintf(&sb, "client %d [%d..%d] %s(%s) -> %q\n", o.ClientId, o.Call, o.Return, sesOpNames[in.op], in.arg, o.Output)
			}
			r.Fail("not linearizable", "%s", sb.String())
		case porcupine.Unknown:
			r.Ev("undecided histories")
		default:
			r.Ev("linearizable histories")
		}
		if err := s.judgeHanded(); err != nil {
			r.Fail("handed out", "%v", err)
		}
		sig := ""
		if 0 < conc {
			sig = fmt.Sprintf("lin %x", h.Sum64())
		}
		r.Case(sig)
	})
	r.EvN("overlapping operation pairs", int(overlaps))
	r.EvN("distinct observed orders", len(orders))
	// Unsynchronised stress for the race detector: the harness adds no ordering of its own.
	r.Serial("stress", r.N(30, 400), func(i int, rng *rand.Rand) {
		s := newSession()
		var wg sync.WaitGroup
		bad := make([]string, 12)
		for w := 0; w < 12; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for k := 0; k < 120; k++ {
					switch (w + k) % 9 {
					case 0:
						s.c.SetUser(fmt.Sprintf("user-%d-%d", w, k))
					case 1:
						if u := s.c.User(); u != "" && !strings.HasPrefix(u, "user-") {
							bad[w] = "user " + u
						}
					case 2:
						s.c.SetDatabase(fmt.Sprintf("db-%d-%d", w, k))
					case 3:
						if d := s.c.Database(); d != "" && !strings.HasPrefix(d, "db-") {
							bad[w] = "database " + d
						}
					case 4:
						s.c.SetSchemas("x", fmt.Sprintf("x%d", k%7), "x")
					case 5:
						l := s.c.Schemas()
						seen := map[string]bool{}
						for _, x := range l {
							if seen[x] || !strings.HasPrefix(x, "x") {
								bad[w] = fmt.Sprintf("schemas %v", l)
							}
							seen[x] = true
						}
					case 6:
						s.c.SetSpanContext(s.tracers[w%3])
					case 7:
						s.c.StartSpan("q")
						s.c.Span()
						s.c.FinishSpan()
					case 8:
						s.c.SpanContext()
						s.c.UUID()
						s.c.ID()
						s.c.Timestamp()
						s.c.Context()
					}
				}
			}(w)
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				r.Fail("stress", "read a value never written: %s", b)
			}
		}
		r.EvN("stress operations", 12*120)
		r.Case(fmt.Sprintf("stress %d", i))
	})
	// Closing.
	r.Serial("close", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		raw := &rawConn{slow: rng.Intn(20)}
		fails := int64(0)
		if rng.Intn(3) == 0 {
			fails = int64(1 + rng.Intn(3))
		}
		raw.failing.Store(fails)
		c := sqlnet.NewConnWith(raw)
		callers := 1 + rng.Intn(8)
		errs := make([]error, callers)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := 0; w < callers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				errs[w] = c.Close()
				c.User()
			}(w)
		}
		close(start)
		wg.Wait()
		desc := fmt.Sprintf("%d callers, %d injected failures, errors %v, underlying calls %d", callers, fails, errs, raw.calls.Load())
		failed := 0
		for _, e := range errs {
			if e != nil {
				failed++
				if !errors.Is(e, errClose) {
					r.Fail("close", "unexpected error: %s", desc)
				}
			}
		}
		if fails == 0 && (failed != 0 || raw.calls.Load() != 1) {
			r.Fail("close", "not closed exactly once: %s", desc)
		}
		// Retry until it succeeds; a failed close can always be retried.
		for k := int64(0); k < fails && raw.closed.Load() == 0; k++ {
			left := raw.failing.Load()
			err := c.Close()
			if (err != nil) != (0 < left) {
				r.Fail("close", "a retry with %d failures left gave %v: %s", left, err, desc)
			}
		}
		if raw.closed.Load() == 0 {
			if err := c.Close(); err != nil {
				r.Fail("close", "the last retry gave %v: %s", err, desc)
			}
		}
		calls := raw.calls.Load()
		for k := 0; k < 3; k++ {
			if err := c.Close(); err != nil {
				r.Fail("close", "closing again gave %v: %s", err, desc)
			}
		}
		if raw.closed.Load() != 1 || raw.calls.Load() != calls {
			r.Fail("close", "underlying connection closed %d times, %d further calls: %s", raw.closed.Load(), raw.calls.Load()-calls, desc)
		}
		r.EvN("close calls", callers+3)
		r.EvN("failed closes", failed)
		r.Case("close " + desc)
	})
}
