package main

// pinfo is what the evidence file says about a property beyond the counters.
type pinfo struct {
	rule   string
	real   []string
	stub   []string
	assume []string
}

var realBase = []string{
	"every zinx package the scenario reaches, compiled from /repo's working tree with a scheduling point before every statement (read-modify-write statements split)",
	"Go runtime (goroutines, channels, mutexes, timers, select, sync.Pool), with its scheduler choice, clock and random source replaced by seeded ones",
	"standard library above the socket layer; gorilla/websocket, net/http and xtaci/kcp-go where the transport uses them",
}

var stubBase = []string{
	"kernel sockets: streams, datagrams, listeners and accept queues are simulated inside package net (overlay/net/zsim.go)",
	"operating-system threads and preemption: one P, one M, seeded choice among ready goroutines",
	"clock: simulated monotonic and wall time, moved on by the scheduler",
	"peers: scripted endpoints of the harness that speak the wire protocol themselves (own encoder and parser)",
}

var assumeBase = []string{
	"sequentially consistent memory: unsynchronised accesses interleave at statement level; compiler and hardware reorderings are not simulated",
	"the simulated sockets behave as Linux TCP and UDP sockets do in the respects the code depends on",
}

func info(p string) pinfo {
	x := propInfo[p]
	if x.real == nil {
		x.real = realBase
	}
	if x.stub == nil {
		x.stub = stubBase
	}
	x.assume = append(append([]string(nil), assumeBase...), x.assume...)
	return x
}

var stubNoNet = []string{
	"operating-system threads and preemption: one P, one M, seeded choice among ready goroutines",
	"clock: simulated monotonic and wall time, moved on by the scheduler",
}

var propInfo = map[string]pinfo{
	"C01": {assume: []string{"a frame counts as sent once the peer's write was accepted and, when the network resets on close, only if the peer did not close with data under way"}},
	"C02": {},
	"C03": {assume: []string{"a buffered send may report a time-out when the process is held up for 5 ms; only sends that report success must arrive"}},
	"C04": {assume: []string{"user hooks and callbacks return; a close callback that panics may keep later ones from running"}},
	"C05": {assume: []string{"Len is not judged against an instant while connections come and go, only when the set is stable; callbacks of Range do not block"}},
	"C06": {assume: []string{"a connection counts as served from the entry of its start hook to the return of its stop hook"}},
	"C07": {assume: []string{"bounds allow for the injected freezes and late timers; a not-alive report between the end of a connection and its teardown is tolerated; a WebSocket ping from a peer that does not read may delay the reader by 1 s"}},
	"C08": {assume: []string{"a KCP peer that vanishes is closed from the server side, since KCP has no close"}},
	"C09": {assume: []string{"a connection whose own start hook panics may be closed instead of served"}},
	"C10": {assume: []string{"user hooks and handlers return"}},
	"C11": {assume: []string{"worker pool on, server-side connection"}},
	"C12": {stub: stubNoNet, assume: []string{"the wall clock does not jump; bounds allow for the injected freezes and late timers"}},
	"C13": {stub: stubNoNet},
	"C14": {stub: stubNoNet, assume: []string{"the wall clock of the generator is the simulated one, stepped forwards and backwards by the run"}},
	"C16": {}, "C17": {assume: []string{"freezes stay below the 5 ms time-out of a buffered send"}},
	"C18": {}, "C19": {assume: []string{"a dial that the network drops ends with the operating system's time-out, simulated"}},
	"C20": {}, "C21": {assume: []string{"accept errors hit while a peer is waiting to be accepted"}},
	"C22": {assume: []string{"bounds allow for the injected freezes"}},
	"C23": {assume: []string{"the authentication function returns or panics"}},
	"C26": {assume: []string{"handlers, hooks and callbacks return or panic", "the worker pool of a server stays, for its next start", "goroutines are told apart by the function that started them"}},
	"C27": {assume: []string{"hooks, routers and codec are those of the demo's own server.go; only its wait for a signal is replaced", "who sees whom is checked in histories whose steps do not overlap; in the others the counts and the final world are"}},
}

func init() {
	propInfo["C15"] = pinfo{
		stub: append([]string{"kernel files: everything below /simfs lives in package os (overlay/os/zsim.go)"}, stubNoNet...),
		assume: []string{"a process crash keeps what write calls had passed to the kernel (a machine crash is not simulated)", "file times have full resolution",
			"lines logged within the flush period around file-system errors may be lost or cut",
			"an archive whose original is still there counts as not finished"},
	}
	files := "kernel files: everything below /simfs, the configuration file and standard error included, lives in package os (overlay/os/zsim.go)"
	propInfo["C24"] = pinfo{
		stub:   append([]string{files}, stubBase...),
		assume: []string{"a zero or false in a user configuration counts as not named", "hosts are addresses of this machine"},
	}
	propInfo["C25"] = pinfo{
		stub: append([]string{files}, stubNoNet...),
		assume: []string{"no file-system errors (C15 has them)", "most of the simulated time is the sleep with which a run reaches its date",
			"a caller that reconfigures a logger while others log through it sees either state in their lines"},
	}
}
