package axvsync

import (
	"sync"
	"unsafe"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Pool      = sync.Pool
	Map       = sync.Map
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex has the semantics of sync.Mutex.
type Mutex struct {
	g      sync.Mutex // guards the fields, never held while blocked
	locked bool
	q      []chan struct{}
}

//go:norace
func (m *Mutex) lock() {
	raceDisable()
	for {
		m.g.Lock()
		if !m.locked {
			m.locked = true
			m.g.Unlock()
			break
		}
		ch := make(chan struct{})
		m.q = append(m.q, ch)
		m.g.Unlock()
		<-ch
		P()
	}
	raceEnable()
}

//go:norace
func (m *Mutex) tryLock() bool {
	raceDisable()
	m.g.Lock()
	ok := !m.locked
	if ok {
		m.locked = true
	}
	m.g.Unlock()
	raceEnable()
	return ok
}

//go:norace
func (m *Mutex) unlock() {
	raceDisable()
	m.g.Lock()
	if !m.locked {
		m.g.Unlock()
		raceEnable()
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	q := m.q
	m.q = nil
	m.g.Unlock()
	for _, ch := range q {
		close(ch)
	}
	raceEnable()
}

//go:norace
func (m *Mutex) Lock() {
	P()
	m.lock()
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	P()
	ok := m.tryLock()
	if ok {
		raceAcquire(unsafe.Pointer(m))
	}
	return ok
}

//go:norace
func (m *Mutex) Unlock() {
	P()
	raceRelease(unsafe.Pointer(m))
	m.unlock()
	P()
}

// RWMutex has the semantics of sync.RWMutex: a waiting writer holds back new readers, and a
// writer that unlocks lets the readers that wait go first.
type RWMutex struct {
	w        Mutex
	g        sync.Mutex
	readers  int
	pending  bool
	writerCh chan struct{}
	rq       []chan struct{}
	rsem     byte // addresses for the race detector
	wsem     byte
}

//go:norace
func (m *RWMutex) RLock() {
	P()
	raceDisable()
	m.g.Lock()
	if !m.pending {
		m.readers++
		m.g.Unlock()
	} else {
		ch := make(chan struct{})
		m.rq = append(m.rq, ch)
		m.g.Unlock()
		<-ch
	}
	raceEnable()
	raceAcquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	P()
	raceDisable()
	m.g.Lock()
	ok := !m.pending
	if ok {
		m.readers++
	}
	m.g.Unlock()
	raceEnable()
	if ok {
		raceAcquire(unsafe.Pointer(&m.rsem))
	}
	return ok
}

//go:norace
func (m *RWMutex) RUnlock() {
	P()
	raceReleaseMerge(unsafe.Pointer(&m.wsem))
	raceDisable()
	m.g.Lock()
	if m.readers == 0 {
		m.g.Unlock()
		raceEnable()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.pending && m.readers == 0 && m.writerCh != nil {
		close(m.writerCh)
		m.writerCh = nil
	}
	m.g.Unlock()
	raceEnable()
	P()
}

//go:norace
func (m *RWMutex) Lock() {
	P()
	m.w.lock()
	raceDisable()
	m.g.Lock()
	m.pending = true
	if m.readers > 0 {
		ch := make(chan struct{})
		m.writerCh = ch
		m.g.Unlock()
		<-ch
	} else {
		m.g.Unlock()
	}
	raceEnable()
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	P()
	if !m.w.tryLock() {
		return false
	}
	raceDisable()
	m.g.Lock()
	ok := m.readers == 0
	if ok {
		m.pending = true
	}
	m.g.Unlock()
	raceEnable()
	if !ok {
		m.w.unlock()
		return false
	}
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	P()
	raceRelease(unsafe.Pointer(&m.rsem))
	raceDisable()
	m.g.Lock()
	if !m.pending {
		m.g.Unlock()
		raceEnable()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.pending = false
	q := m.rq
	m.rq = nil
	m.readers += len(q)
	m.g.Unlock()
	for _, ch := range q {
		close(ch)
	}
	raceEnable()
	m.w.unlock()
	P()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once has the semantics of sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}
