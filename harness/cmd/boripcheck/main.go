package main

import (
	"io"
	"log"

	"verif/harness/mc"
)

func main() {
	log.SetOutput(io.Discard)
	mc.Also386()
	mc.Main()
}

func init() {
	mc.Register(&mc.Check{ID: "C21", Level: "model_checking",
		Rule: "one evaluation is one sequence of datagrams and socket errors read to its end by the real PacketReader with one pattern of caller buffer sizes, every call's result compared with the model (a queue of the complete I/Q pairs of the datagrams received so far); a state is one such history, a transition one ReadSamples call; every history is a trace validated against the implementation.",
		Assumptions: []string{"a socket read returns either a datagram or an error",
			"a call may return fewer samples than fit (one at least, if any is there), and no sample for a datagram without a complete one"},
		Families: packetFamilies})
}

func init() {
	mc.Register(
		&mc.Check{ID: "C22", Level: "model_checking",
			Rule: "one evaluation is one exchange of the real client with a scripted server: the request line it sends and the values or error it returns are compared with a reference reading of the answer; a state is one answer history, a transition one client call.",
			Assumptions: []string{"arguments contain no line break", "where the protocol leaves open whether an answer is well-formed (extra words, repeated separators, a refusal without a reason) both readings are accepted, but never a wrong value or a panic",
				"the network package is replaced at build time by one whose connections are scripted"},
			Families: clientFamilies},
		&mc.Check{ID: "C23", Level: "model_checking",
			Rule:        "one evaluation is one sequence of client calls with one sequence of server behaviours (success, refusal, nonsense, lost connection at each point), closed at the end; device, running state and the lines sent are compared with a model after every call; a state is one history, a transition one call.",
			Assumptions: []string{"after the connection is lost nothing further needs to be sent", "the network package is replaced at build time by one whose connections are scripted"},
			Families:    stateFamilies})
}
