// Package serverdrv drives the real boripserver inside one process: scripted
// clients on an in-memory network, simulated devices, every schedule within a
// preemption bound, and the oracles of C24 to C27.
package serverdrv

import rtlspec "github.com/samuel/go-rtlsdr/rtl"

// Act is one step of a client.
//
//	connect         dial and read the greeting
//	req LINE        send the request and await its response
//	send TEXT       send the text without waiting (\n is not added)
//	long N TEXT     a line of N letters and the text: refused, or the end of the connection
//	recv            await the responses of everything sent
//	pkts N          await N datagrams at the client's destination since its last start
//	close, reset    end the connection
//	closewrite      send the end, keep reading until the server closes
//	chunk N         the server's reads of this connection return at most N octets
//	open            dial without waiting for the greeting
//	accept-fail N   the next N accepts fail
//	idle D          let the time D pass
//	meet            await that every client which meets (that often) has come here
//	interrupt       the operating system interrupts the server
//	call OP ARG     a method of the real client (C27)
type Act struct {
	Op  string `json:"op"`
	Arg string `json:"arg,omitempty"`
}

// Client is one actor.
type Client struct {
	Acts []Act  `json:"acts"`
	Addr string `json:"addr,omitempty"` // where it connects from, with a zone perhaps
}

// Scenario is one system under one environment; the schedules are explored.
type Scenario struct {
	Devs     []rtlspec.Config  `json:"devs"`
	Failures []rtlspec.Failure `json:"failures,omitempty"`
	Sizes    [][]int           `json:"sizes,omitempty"` // buffer sizes of stream n, the last one repeats
	Ends     []bool            `json:"ends,omitempty"`  // the device ends stream n after its sizes
	Extra    bool              `json:"extra,omitempty"`
	InFlight int               `json:"inflight,omitempty"`
	MapOrder int               `json:"maporder,omitempty"`
	FailUDP  int               `json:"failudp,omitempty"`
	Refuse   []int             `json:"refuse,omitempty"` // sends of every datagram socket the network refuses
	Clients  []Client          `json:"clients"`
	Data     bool              `json:"data,omitempty"` // large streams: many steps are allowed
	Long     bool              `json:"long,omitempty"` // the same, and nothing may pile up
}

// Request to a helper.
type Request struct {
	Scenario Scenario `json:"scenario"`
	Base     int      `json:"base,omitempty"`
	Bound    int      `json:"bound"`
	MaxRuns  int64    `json:"maxruns,omitempty"`
	Millis   int64    `json:"millis,omitempty"`
	Schedule []int    `json:"schedule,omitempty"`
	Replay   bool     `json:"replay,omitempty"`
	Only     string   `json:"only,omitempty"` // report violations of this property only
}

// Response of a helper.
type Response struct {
	Runs         int64    `json:"runs"`
	Steps        int64    `json:"steps"`
	Decisions    int64    `json:"decisions"`
	MaxDecisions int      `json:"maxdecisions"`
	Complete     bool     `json:"complete"`
	Diverged     int      `json:"diverged"`
	Outcomes     int      `json:"outcomes"`
	Requests     int64    `json:"requests"`
	Packets      int64    `json:"packets"`
	Key          string   `json:"key,omitempty"`
	What         string   `json:"what,omitempty"`
	Schedule     []int    `json:"schedule,omitempty"`
	Trace        []string `json:"trace,omitempty"`
	Others       int64    `json:"others,omitempty"` // violations of other properties
	OtherWhat    string   `json:"otherwhat,omitempty"`
	Leaks        int64    `json:"leaks,omitempty"`
}
