package sim

import (
	"fmt"
	"sync"
	"time"
)

// SimNode is a simulated device.
type SimNode struct {
	ID        int
	Listening bool
	Basic     byte
	Generic   byte
	Specific  byte
	Manu      [6]byte
	Endpoints int
	Flags     byte    // of the endpoint report
	Caps      [3]byte // further bits of the protocol info
}

func (n *SimNode) manuIDs() (string, string, string) {
	return fmt.Sprintf("%02x%02x", n.Manu[0], n.Manu[1]), fmt.Sprintf("%02x%02x", n.Manu[2], n.Manu[3]), fmt.Sprintf("%02x%02x", n.Manu[4], n.Manu[5])
}

func (n *SimNode) proto() []byte {
	f := mkProto(n.Listening, n.Basic, n.Generic, n.Specific)
	b := f[4 : len(f)-1]
	b[0] ^= n.Caps[0] &^ 0x80
	b[1] ^= n.Caps[1]
	b[2] ^= n.Caps[2]
	return mkFrame(0x01, append([]byte{0x41}, b...)...)
}

// BotReq is a request that the simulated network received.
type BotReq struct {
	T    time.Duration
	Node int
	What string // "list", "proto", "manu", "endpoints", "state", "set" or "other"
	B    []byte
	Ans  time.Duration // when its (first) answer is sent, 0: not at all
}

// Bot is the behaviour of a network of nodes.
type Bot struct {
	w *World
	r *lockedRand

	AckMax    time.Duration
	ProtoMax  time.Duration
	ManuMax   time.Duration
	EndpMax   time.Duration
	Loss      int // of 100, reports
	ProtoLoss int // of 100, only useful with one node
	Dup       int // of 100
	ListLate  time.Duration
	List      []int
	NoList    bool
	Silent    map[int]bool          // nodes that never send reports
	SilentTo  map[int]time.Duration // nodes that do not send reports before this time
	Asleep    map[int]bool          // nodes that never wake up
	Other     func(p *Port, frame []byte)

	mu    sync.Mutex
	Nodes map[int]*SimNode
	Reqs  []*BotReq
	free  time.Duration // protocol info answers come in order
}

func newBot(w *World, r *lockedRand) *Bot {
	return &Bot{w: w, r: r, AckMax: 5 * time.Millisecond, ProtoMax: 10 * time.Millisecond, ManuMax: 50 * time.Millisecond,
		EndpMax: 50 * time.Millisecond, Nodes: map[int]*SimNode{}, Silent: map[int]bool{}}
}

// Log returns the requests so far.
func (b *Bot) Log() []BotReq {
	b.mu.Lock()
	defer b.mu.Unlock()
	r := make([]BotReq, len(b.Reqs))
	for i := range b.Reqs {
		r[i] = *b.Reqs[i]
	}
	return r
}

// Handle implements the reaction on a command frame.
func (b *Bot) Handle(p *Port, frame []byte) {
	q := &BotReq{T: b.w.Now(), What: "other", B: frame[3 : len(frame)-1]}
	body := q.B
	b.mu.Lock()
	b.Reqs = append(b.Reqs, q)
	defer b.mu.Unlock()
	ack := b.r.Dur(0, b.AckMax)
	p.FeedAfter(ack, []byte{0x06})
	at := func(d time.Duration, f []byte) {
		q.Ans = b.w.Now() + ack + d
		p.FeedAfter(ack+d, f)
	}
	report := func(max time.Duration, f []byte) {
		if b.r.Intn(100) < b.Loss || b.Silent[q.Node] || b.w.Now() < b.SilentTo[q.Node] {
			return
		}
		d := b.r.Dur(0, max)
		at(d, f)
		if b.r.Intn(100) < b.Dup {
			p.FeedAfter(ack+d+b.r.Dur(0, 3*time.Second), f)
		}
	}
	switch {
	case len(body) == 1 && body[0] == 0x02:
		q.What = "list"
		if !b.NoList {
			at(b.ListLate, mkNodeList(b.List...))
		}
	case len(body) == 2 && body[0] == 0x41:
		q.What, q.Node = "proto", int(body[1])
		n := b.Nodes[q.Node]
		if n == nil || b.r.Intn(100) < b.ProtoLoss {
			return
		}
		t := b.w.Now() + ack + b.r.Dur(0, b.ProtoMax)
		if t <= b.free {
			t = b.free + 3*time.Millisecond
		}
		b.free = t
		at(t-b.w.Now()-ack, n.proto())
		if b.ProtoLoss > 0 && b.r.Intn(100) < b.Dup {
			p.FeedAfter(t-b.w.Now()+b.r.Dur(0, 8*time.Second), n.proto())
		}
	case len(body) >= 5 && body[0] == 0x13:
		q.Node = int(body[1])
		n := b.Nodes[q.Node]
		switch {
		case body[3] == 0x72 && body[4] == 0x04:
			q.What = "manu"
			if n != nil {
				report(b.ManuMax, mkReport(n.ID, 0x72, 5, n.Manu[:]...))
			}
		case body[3] == 0x60 && body[4] == 0x07:
			q.What = "endpoints"
			if n != nil {
				report(b.EndpMax, mkReport(n.ID, 0x60, 8, n.Flags, byte(n.Endpoints)))
			}
		case (body[3] == 0x25 || body[3] == 0x26) && body[4] == 0x02 || body[3] == 0x31 && body[4] == 0x01:
			q.What = "state"
		case (body[3] == 0x25 || body[3] == 0x26) && body[4] == 0x01 || body[3] == 0x60:
			q.What = "set"
		}
	}
	if b.Other != nil && q.What == "other" {
		go b.Other(p, frame)
	}
}
