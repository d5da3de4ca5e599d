package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/google/uuid"
)

func init() {
	register("C19", c19)
}

var errClose = errors.New("injected close failure")

// rawConn is the underlying connection: it counts how it is closed, can fail to close and can be slow.
type rawConn struct {
	net.Conn
	calls   atomic.Int64
	closed  atomic.Int64
	failing atomic.Int64 // closes that still fail
	slow    int
}

func (c *rawConn) Close() error {
	c.calls.Add(1)
	for k := 0; k < c.slow; k++ {
		runtime.Gosched()
	}
	for {
		n := c.failing.Load()
		if n <= 0 {
			break
		}
		if c.failing.CompareAndSwap(n, n-1) {
			return errClose
		}
	}
	c.closed.Add(1)
	return nil
}

// probeConn is a registered connection with chosen numbers; its identity methods yield, which stretches the critical sections of the registry.
type probeConn struct {
	sqlnet.Conn
	uid     uint64
	uuid    uuid.UUID
	jitter  *atomic.Uint64
	closing atomic.Int64
	fail    atomic.Bool
	onClose func()
}

func (c *probeConn) shake() {
	if c.jitter == nil {
		return
	}
	x := c.jitter.Add(0x9E3779B97F4A7C15)
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	for k := (x >> 40) % 4; 0 < k; k-- {
		runtime.Gosched()
	}
}

func (c *probeConn) ID() uint64      { c.shake(); return c.uid }
func (c *probeConn) UUID() uuid.UUID { c.shake(); return c.uuid }
func (c *probeConn) Close() error {
	c.shake()
	if c.fail.Load() {
		return errClose
	}
	c.closing.Add(1)
	if c.onClose != nil {
		c.onClose()
	}
	return nil
}

func uuidOf(n int) uuid.UUID {
	var u uuid.UUID
	u[0], u[15] = 0xAB, byte(n)
	u[14] = byte(n >> 8)
	return u
}

const (
	opAdd = iota
	opUpdate
	opRemove
	opRemoveUID
	opRemoveUUID
	opLookupUID
	opLookupUUID
	opList
)

var regOpNames = []string{"add", "update", "remove", "removeUID", "removeUUID", "lookupUID", "lookupUUID", "list"}

type regIn struct{ op, a, b int }

// regOut is what an operation reported: an error kind, a found connection or the listed ones.
type regOut struct {
	err   string
	found int
	list  uint64
	dup   bool
}

// regPool is a set of connections: number and unique id of each.
type regPool struct {
	ids, uuids []int
	wide       bool // numbers and unique ids that differ in their high parts only
}

func (p *regPool) number(n int) uint64 {
	if p.wide && 0 < n {
		return 7 | uint64(n)<<uint(8*(n%8)) | uint64(n)<<57
	}
	return uint64(n)
}

func (p *regPool) unique(n int) uuid.UUID {
	if p.wide {
		var u uuid.UUID
		u[0], u[5], u[15] = byte(n), byte(n>>8), 1
		return u
	}
	return uuidOf(n)
}

// step is the sequential specification of the registry over the set of registered connections.
// Where the specification is silent (replacing a connection by another object of the same unique id), got decides.
func (p *regPool) step(state uint64, in regIn, got regOut) (uint64, regOut) {
	has := func(k int) bool { return state&(1<<uint(k)) != 0 }
	clash := func(k, except int) bool {
		for j := range p.ids {
			if j != except && has(j) && (p.ids[j] == p.ids[k] || p.uuids[j] == p.uuids[k]) {
				return true
			}
		}
		return false
	}
	find := func(of []int, v int) int {
		for j := range of {
			if has(j) && of[j] == v {
				return j
			}
		}
		return -1
	}
	switch in.op {
	case opAdd:
		if clash(in.a, -1) {
			return state, regOut{err: "exist", found: -1}
		}
		return state | 1<<uint(in.a), regOut{found: -1}
	case opUpdate:
		from := in.a
		if !has(from) {
			k := find(p.uuids, p.uuids[from])
			if k < 0 || got.err != "" {
				return state, regOut{err: "not exist", found: -1}
			}
			from = k
		}
		if clash(in.b, from) {
			return state, regOut{err: "exist", found: -1}
		}
		return state&^(1<<uint(from)) | 1<<uint(in.b), regOut{found: -1}
	case opRemove:
		return state &^ (1 << uint(in.a)), regOut{found: -1}
	case opRemoveUID:
		if k := find(p.ids, in.a); 0 <= k {
			state &^= 1 << uint(k)
		}
		return state, regOut{found: -1}
	case opRemoveUUID:
		if k := find(p.uuids, in.a); 0 <= k {
			state &^= 1 << uint(k)
		}
		return state, regOut{found: -1}
	case opLookupUID:
		return state, regOut{found: find(p.ids, in.a)}
	case opLookupUUID:
		return state, regOut{found: find(p.uuids, in.a)}
	}
	return state, regOut{found: -1, list: state}
}

// matches tells whether the specified outcome is an acceptable report of the expected one.
func (in regIn) matches(want, got regOut) bool {
	switch in.op {
	case opAdd, opUpdate:
		// Any error is a failure; which kind it has is decided by C22.
		return (want.err == "") == (got.err == "")
	case opRemove, opRemoveUID, opRemoveUUID:
		return true
	}
	return want.found == got.found && want.list == got.list && !got.dup
}

type registry struct {
	cm    sqlnet.ConnManager
	pool  *regPool
	conns []*probeConn
	index map[sqlnet.Conn]int
}

func newRegistry(pool *regPool, jitter *atomic.Uint64) *registry {
	g := &registry{cm: sqlnet.NewConnManager(), pool: pool, index: map[sqlnet.Conn]int{}}
	for k := range pool.ids {
		c := &probeConn{Conn: sqlnet.NewConnWith(&rawConn{}), uid: pool.number(pool.ids[k]), uuid: pool.unique(pool.uuids[k]), jitter: jitter}
		g.conns = append(g.conns, c)
		g.index[c] = k
	}
	return g
}

func (g *registry) idx(c sqlnet.Conn, ok bool) int {
	if !ok {
		if c != nil {
			return -3
		}
		return -1
	}
	k, known := g.index[c]
	if !known {
		return -2
	}
	return k
}

func (g *registry) do(in regIn) regOut {
	out := regOut{found: -1}
	fail := func(err error) {
		if err != nil {
			out.err = err.Error()
		}
	}
	switch in.op {
	case opAdd:
		fail(g.cm.AddConn(g.conns[in.a]))
	case opUpdate:
		fail(g.cm.UpdateConn(g.conns[in.a], g.conns[in.b]))
	case opRemove:
		fail(g.cm.RemoveConn(g.conns[in.a]))
	case opRemoveUID:
		g.cm.RemoveConnByUID(g.pool.number(in.a))
	case opRemoveUUID:
		g.cm.RemoveConnByUUID(g.pool.unique(in.a))
	case opLookupUID:
		out.found = g.idx(g.cm.LookupConnByUID(g.pool.number(in.a)))
	case opLookupUUID:
		out.found = g.idx(g.cm.LookupConnByUUID(g.pool.unique(in.a)))
	case opList:
		for _, c := range g.cm.Conns() {
			k := g.idx(c, true)
			if k < 0 || out.list&(1<<uint(k)) != 0 {
				out.dup = true
				continue
			}
			out.list |= 1 << uint(k)
		}
	}
	return out
}

func (p *regPool) randOp(rng *rand.Rand) regIn {
	n := len(p.ids)
	anyID := func(of []int) int { return of[rng.Intn(n)] }
	unique := func(k int) bool { // no other connection has the unique id of k
		for j := range p.uuids {
			if j != k && p.uuids[j] == p.uuids[k] {
				return false
			}
		}
		return true
	}
	for {
		in := regIn{op: []int{opAdd, opAdd, opAdd, opUpdate, opUpdate, opRemove, opRemoveUID, opRemoveUUID, opLookupUID, opLookupUUID, opLookupUID, opLookupUUID, opList}[rng.Intn(13)]}
		switch in.op {
		case opAdd:
			in.a = rng.Intn(n)
		case opUpdate:
			in.a, in.b = rng.Intn(n), rng.Intn(n)
		case opRemove:
			in.a = rng.Intn(n)
			if !unique(in.a) {
				continue
			}
		case opRemoveUID, opLookupUID:
			in.a = anyID(p.ids)
		case opRemoveUUID, opLookupUUID:
			in.a = anyID(p.uuids)
		}
		return in
	}
}

func randPool(rng *rand.Rand) *regPool {
	p := &regPool{wide: rng.Intn(3) == 0}
	n := 2 + rng.Intn(6)
	numbers := 1 + rng.Intn(n)
	for k := 0; k < n; k++ {
		p.ids = append(p.ids, rng.Intn(numbers+1)) // including the number zero
		p.uuids = append(p.uuids, k+1)
	}
	if rng.Intn(3) == 0 { // another connection object with a unique id of the pool
		p.ids = append(p.ids, rng.Intn(numbers+2))
		p.uuids = append(p.uuids, 1+rng.Intn(n))
	}
	return p
}

func regModel(p *regPool) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return uint64(0) },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			in := input.(regIn)
			next, want := p.step(state.(uint64), in, output.(regOut))
			return in.matches(want, output.(regOut)), next
		},
		Equal: func(a, b interface{}) bool { return a.(uint64) == b.(uint64) },
		DescribeOperation: func(input, output interface{}) string {
			in := input.(regIn)
			return fmt.Sprintf("%s(%d,%d) -> %+v", regOpNames[in.op], in.a, in.b, output)
		},
	}
}

func describeHistory(p *regPool, h []porcupine.Operation) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "numbers %v unique ids %v\n", p.ids, p.uuids)
	hs := append([]porcupine.Operation{}, h...)
	sort.Slice(hs, func(i, j int) bool { return hs[i].Call < hs[j].Call })
	for _, o := range hs {
		in := o.Input.(regIn)
		fmt.Fprintf(&sb, "client %d [%d..%d] %s(%d,%d) -> %+v\n", o.ClientId, o.Call, o.Return, regOpNames[in.op], in.a, in.b, o.Output)
	}
	return sb.String()
}

func c19(r *Run) {
	r.Rule = "a recorded history of concurrent registry operations decided by a linearizability checker against the set of registered connections; sequential histories and closing decided by the same model; race detector on"
	// Sequential histories: full inspection of both indexes and the list after every step.
	r.Parallel("seq", r.N(6000, 150000), func(i int, rng *rand.Rand) {
		p := randPool(rng)
		g := newRegistry(p, nil)
		state := uint64(0)
		log := []string{fmt.Sprintf("numbers %v unique ids %v", p.ids, p.uuids)}
		for k := 1 + rng.Intn(25); 0 < k; k-- {
			in := p.randOp(rng)
			if rng.Intn(12) == 0 {
				in = regIn{op: opRemove, a: rng.Intn(len(p.ids))}
			}
			got := g.do(in)
			var want regOut
			state, want = p.step(state, in, got)
			if in.op == opRemove { // whether it removes another object of the same unique id is left open
				if j := slices.IndexFunc(p.uuids, func(u int) bool { return u == p.uuids[in.a] }); 0 <= j && g.do(regIn{op: opLookupUUID, a: p.uuids[in.a]}).found < 0 {
					for k := range p.uuids {
						if p.uuids[k] == p.uuids[in.a] {
							state &^= 1 << uint(k)
						}
					}
				}
			}
			log = append(log, fmt.Sprintf("%s(%d,%d) -> %+v", regOpNames[in.op], in.a, in.b, got))
			if !in.matches(want, got) {
				r.Fail("sequential", "want %+v\n%s", want, strings.Join(log, "\n"))
				return
			}
			r.Ev(regOpNames[in.op])
			probes := []regIn{{op: opList}}
			for _, id := range p.ids {
				probes = append(probes, regIn{op: opLookupUID, a: id})
			}
			for _, id := range p.uuids {
				probes = append(probes, regIn{op: opLookupUUID, a: id})
			}
			for _, q := range probes {
				got := g.do(q)
				_, want := p.step(state, q, got)
				if !q.matches(want, got) {
					r.Fail("sequential", "afterwards %s(%d) gives %+v, want %+v\n%s", regOpNames[q.op], q.a, got, want, strings.Join(log, "\n"))
					return
				}
			}
		}
		r.Case(strings.Join(log, ";"))
	})
	// Concurrent histories, one at a time so that its goroutines have all cores.
	var overlaps, maxConc int64
	orders := map[uint64]bool{}
	r.Serial("lin", r.N(1500, 30000), func(i int, rng *rand.Rand) {
		p := randPool(rng)
		var jitter atomic.Uint64
		jitter.Store(rng.Uint64())
		g := newRegistry(p, &jitter)
		clients := 2 + rng.Intn(5)
		each := 3 + rng.Intn(8)
		plans := make([][]regIn, clients)
		pre := rng.Intn(3)
		for c := range plans {
			for k := 0; k < each; k++ {
				plans[c] = append(plans[c], p.randOp(rng))
			}
		}
		var clock atomic.Int64
		var mu sync.Mutex
		hist := []porcupine.Operation{}
		record := func(c int, in regIn) {
			call := clock.Add(1)
			out := g.do(in)
			ret := clock.Add(1)
			mu.Lock()
			hist = append(hist, porcupine.Operation{ClientId: c, Input: in, Call: call, Output: out, Return: ret})
			mu.Unlock()
		}
		for k := 0; k < pre; k++ {
			record(clients, regIn{op: opAdd, a: rng.Intn(len(p.ids))})
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for c := range plans {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				<-start
				for _, in := range plans[c] {
					record(c, in)
				}
			}(c)
		}
		close(start)
		wg.Wait()
		// What is registered at the end is part of the history.
		record(clients, regIn{op: opList})
		for k := range p.ids {
			record(clients, regIn{op: opLookupUID, a: p.ids[k]})
			record(clients, regIn{op: opLookupUUID, a: p.uuids[k]})
		}
		conc := int64(0)
		for a := range hist {
			for b := range hist {
				if a != b && hist[a].Call < hist[b].Call && hist[b].Call < hist[a].Return {
					conc++
				}
			}
		}
		overlaps += conc
		maxConc = max(maxConc, conc)
		h := fnv.New64a()
		sort.Slice(hist, func(a, b int) bool { return hist[a].Return < hist[b].Return })
		for _, o := range hist {
			fmt.Fprintf(h, "%d%v%v;", o.ClientId, o.Input, o.Output)
		}
		orders[h.Sum64()] = true
		switch porcupine.CheckOperationsTimeout(regModel(p), hist, 20*time.Second) {
		case porcupine.Illegal:
			r.Fail("not linearizable", "%s", describeHistory(p, hist))
		case porcupine.Unknown:
			r.Ev("undecided histories")
		default:
			r.Ev("linearizable histories")
		}
		sig := ""
		if 0 < conc {
			sig = fmt.Sprintf("lin %d %x", i, h.Sum64())
		}
		r.Case(sig)
	})
	r.EvN("overlapping operation pairs", int(overlaps))
	r.EvN("distinct observed orders", len(orders))
	r.EvN("most overlaps in one history", int(maxConc))
	// Closing the registry.
	r.Serial("close", r.N(600, 8000), func(i int, rng *rand.Rand) {
		n := 1 + rng.Intn(12)
		p := &regPool{}
		for k := 0; k < n+8; k++ {
			p.ids, p.uuids = append(p.ids, k), append(p.uuids, k)
		}
		var jitter atomic.Uint64
		jitter.Store(rng.Uint64())
		g := newRegistry(p, &jitter)
		fails := map[int]bool{}
		for k := 0; k < n; k++ {
			if err := g.cm.AddConn(g.conns[k]); err != nil {
				r.Fail("add", "%v", err)
				return
			}
			if rng.Intn(10) == 0 {
				fails[k] = true
				g.conns[k].fail.Store(true)
			}
			if rng.Intn(6) == 0 { // a connection that deregisters itself when it is closed
				c := g.conns[k]
				c.onClose = func() { _ = g.cm.RemoveConn(c) }
			}
		}
		concurrent := rng.Intn(2) == 0
		var wg sync.WaitGroup
		start := make(chan struct{})
		added := make([]atomic.Bool, n+8)
		if concurrent {
			for k := n; k < n+8; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					<-start
					if g.cm.AddConn(g.conns[k]) == nil {
						added[k].Store(true)
					}
					g.cm.LookupConnByUID(uint64(k))
					g.cm.Conns()
				}(k)
			}
		}
		var closeErr error
		done := make(chan struct{})
		go func() {
			defer close(done)
			<-start
			if rng.Intn(2) == 0 {
				closeErr = g.cm.Close()
			} else {
				closeErr = g.cm.Stop()
			}
		}()
		close(start)
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			r.Fail("close", "closing the registry does not return")
			return
		}
		wg.Wait()
		if (closeErr != nil) != (0 < len(fails)) {
			r.Fail("close", "%d connections failed to close, reported as %v", len(fails), closeErr)
			return
		}
		list := map[sqlnet.Conn]bool{}
		for _, c := range g.cm.Conns() {
			if list[c] {
				r.Fail("close", "a connection is listed twice")
			}
			list[c] = true
		}
		for k, c := range g.conns {
			a, okA := g.cm.LookupConnByUID(c.uid)
			b, okB := g.cm.LookupConnByUUID(c.uuid)
			if okA != okB || okA != list[c] || (okA && (a != sqlnet.Conn(c) || b != sqlnet.Conn(c))) {
				r.Fail("close", "connection %d: found by number %v, by unique id %v, listed %v", k, okA, okB, list[c])
				return
			}
			switch {
			case k < n && fails[k]:
			case k < n:
				if c.closing.Load() < 1 || okA {
					r.Fail("close", "connection %d was registered: closed %d times, still found %v", k, c.closing.Load(), okA)
					return
				}
				r.Ev("closed connections")
			case added[k].Load() && !okA && c.closing.Load() < 1:
				r.Fail("close", "connection %d, added meanwhile, is not registered and was not closed", k)
				return
			case added[k].Load() && okA:
				r.Ev("added while closing")
			}
		}
		r.Case(fmt.Sprintf("close %d of %d fail concurrent=%v", len(fails), n, concurrent))
	})
	// Watched closing: while the registry closes, what a watcher sees of a connection that nobody adds is consistent at every moment.
	r.Serial("watched close", r.N(150, 3000), func(i int, rng *rand.Rand) {
		n := 4 + rng.Intn(12)
		p := &regPool{wide: rng.Intn(2) == 0}
		for k := 0; k < n; k++ {
			p.ids, p.uuids = append(p.ids, k+1), append(p.uuids, k+1)
		}
		var jitter atomic.Uint64
		jitter.Store(rng.Uint64())
		g := newRegistry(p, &jitter)
		for _, c := range g.conns {
			if err := g.cm.AddConn(c); err != nil {
				r.Fail("add", "%v", err)
				return
			}
		}
		var done atomic.Bool
		var wg sync.WaitGroup
		var looks atomic.Int64
		bad := make([]string, 6)
		for w := range bad {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for last := false; !last; {
					last = done.Load()
					for k, c := range g.conns {
						var first, second bool
						switch w % 3 { // once it is gone by one way, it is gone by the others
						case 0:
							_, first = g.cm.LookupConnByUUID(c.uuid)
							_, second = g.cm.LookupConnByUID(c.uid)
						case 1:
							_, first = g.cm.LookupConnByUID(c.uid)
							_, second = g.cm.LookupConnByUUID(c.uuid)
						case 2:
							_, first = g.cm.LookupConnByUID(c.uid)
							second = slices.Contains(g.cm.Conns(), sqlnet.Conn(c))
						}
						if !first && second {
							bad[w] = fmt.Sprintf("connection %d was gone by one index and then found (watcher %d)", k, w%3)
						}
						looks.Add(1)
					}
				}
			}(w)
		}
		err := g.cm.Close()
		done.Store(true)
		wg.Wait()
		if err != nil {
			r.Fail("close", "%v", err)
		}
		for _, b := range bad {
			if b != "" {
				r.Fail("watched close", "%s", b)
			}
		}
		r.EvN("looks at a closing registry", int(looks.Load()))
		r.Case(fmt.Sprintf("watched close %d %d", n, i))
	})
	// Stress with real connections: conservation at the end.
	r.Serial("stress", r.N(6, 60), func(i int, rng *rand.Rand) {
		cm := sqlnet.NewConnManager()
		const workers, rounds = 16, 300
		var wg sync.WaitGroup
		kept := make([][]sqlnet.Conn, workers)
		gone := make([][]sqlnet.Conn, workers)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				rng := r.RNG("stressw", i*1000+w)
				for k := 0; k < rounds; k++ {
					c := sqlnet.NewConnWith(&rawConn{}, sqlnet.WithConnID(uint64(w*100000+k)))
					if err := cm.AddConn(c); err != nil {
						r.Fail("stress", "add: %v", err)
						return
					}
					if got, ok := cm.LookupConnByUID(c.ID()); !ok || got != c {
						r.Fail("stress", "not found by number after adding")
					}
					if got, ok := cm.LookupConnByUUID(c.UUID()); !ok || got != c {
						r.Fail("stress", "not found by unique id after adding")
					}
					if err := cm.AddConn(c); err == nil {
						r.Fail("stress", "added twice")
					}
					switch rng.Intn(5) {
					case 0:
						_ = cm.RemoveConn(c)
						gone[w] = append(gone[w], c)
					case 1:
						cm.RemoveConnByUID(c.ID())
						gone[w] = append(gone[w], c)
					case 2:
						cm.RemoveConnByUUID(c.UUID())
						gone[w] = append(gone[w], c)
					case 3:
						d := sqlnet.NewConnWith(&rawConn{}, sqlnet.WithConnID(uint64(w*100000+50000+k)))
						if err := cm.UpdateConn(c, d); err != nil {
							r.Fail("stress", "update: %v", err)
						}
						gone[w], kept[w] = append(gone[w], c), append(kept[w], d)
					default:
						kept[w] = append(kept[w], c)
					}
					if rng.Intn(10) == 0 {
						ids := []uint64{}
						for _, x := range cm.Conns() {
							ids = append(ids, x.ID())
						}
						slices.Sort(ids)
						for k := 1; k < len(ids); k++ {
							if ids[k] == ids[k-1] {
								r.Fail("stress", "connection %d is listed twice", ids[k])
							}
						}
					}
				}
			}(w)
		}
		wg.Wait()
		listed := map[sqlnet.Conn]int{}
		for _, c := range cm.Conns() {
			listed[c]++
		}
		total := 0
		for w := range kept {
			for _, c := range kept[w] {
				a, okA := cm.LookupConnByUID(c.ID())
				b, okB := cm.LookupConnByUUID(c.UUID())
				if listed[c] != 1 || !okA || !okB || a != c || b != c {
					r.Fail("stress", "a registered connection: listed %d times, by number %v, by unique id %v", listed[c], okA, okB)
				}
				total++
			}
			for _, c := range gone[w] {
				_, okA := cm.LookupConnByUID(c.ID())
				_, okB := cm.LookupConnByUUID(c.UUID())
				if listed[c] != 0 || okA || okB {
					r.Fail("stress", "a removed connection: listed %d times, by number %v, by unique id %v", listed[c], okA, okB)
				}
			}
		}
		if total != len(listed) {
			r.Fail("stress", "%d connections listed, %d registered", len(listed), total)
		}
		if err := cm.Close(); err != nil || len(cm.Conns()) != 0 {
			r.Fail("stress", "after closing %d connections are listed, %v", len(cm.Conns()), err)
		}
		for w := range kept {
			for _, c := range kept[w] {
				if _, ok := cm.LookupConnByUID(c.ID()); ok {
					r.Fail("stress", "found by number after closing the registry")
				}
			}
		}
		r.EvN("stress connections", workers*rounds)
		r.Case(fmt.Sprintf("stress %d", i))
	})
}
