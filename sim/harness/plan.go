package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"

	"simrt"
)

type simRNG = simrt.RNG

// Step goes from a container to a container inside it.
type Step struct {
	K   Str  `json:"k,omitempty"` // key, when the outer container is a document
	I   int  `json:"i,omitempty"` // index, when it is an array
	Arr bool `json:"arr,omitempty"`
	Via int  `json:"via,omitempty"` // which of the equivalent accessors to use
}

// Op is one operation of one caller.
type Op struct {
	ID   int    `json:"id"`
	C    int    `json:"c"` // caller
	T    string `json:"t"`
	S    int    `json:"s,omitempty"` // slot worked on
	D    int    `json:"d,omitempty"` // slot, file or listing produced or used
	Path []Step `json:"path,omitempty"`
	K    Str    `json:"k,omitempty"`
	I    int    `json:"i,omitempty"`
	V    *Val   `json:"v,omitempty"`
	A    string `json:"a,omitempty"`
	P    bool   `json:"p,omitempty"`
	Via  int    `json:"via,omitempty"`
	Text Str    `json:"text,omitempty"`
	N    int64  `json:"n,omitempty"`
}

// Phase is a stretch of a run; its callers start together and all finish.
type Phase struct {
	Ops     []*Op `json:"ops"`
	Turn    bool  `json:"turn,omitempty"`    // callers take turns in the order of Ops
	Free    []int `json:"free,omitempty"`    // callers that do not take part in the turns
	Restart bool  `json:"restart,omitempty"` // the process restarts before it
	Track   bool  `json:"track,omitempty"`
	Preempt bool  `json:"preempt,omitempty"`
}

// Plan is everything that decides a run.
type Plan struct {
	Prop     string         `json:"property"`
	Seed     uint64         `json:"seed"`
	Sched    uint64         `json:"sched"`
	HashSeed uint64         `json:"hash_seed"`
	HashMode int            `json:"hash_mode"`
	MeanGap  int            `json:"mean_gap"`
	Solo     bool           `json:"solo,omitempty"`
	Giant    bool           `json:"giant,omitempty"` // content of unusual size: operations may take longer
	Phases   []*Phase       `json:"phases"`
	Switches []simrt.Switch `json:"switches,omitempty"`
	Replay   bool           `json:"replay,omitempty"`

	// outcome, in replay files
	Class string `json:"class,omitempty"`
	Msg   string `json:"message,omitempty"`
	Trace string `json:"trace,omitempty"`
}

func (p *Plan) ops() (n int) {
	for _, ph := range p.Phases {
		n += len(ph.Ops)
	}
	return
}

func (p *Plan) clone() *Plan {
	c := *p
	c.Phases = nil
	for _, ph := range p.Phases {
		x := *ph
		x.Ops = append([]*Op{}, ph.Ops...)
		c.Phases = append(c.Phases, &x)
	}
	c.Switches = append([]simrt.Switch{}, p.Switches...)
	return &c
}

func (p *Plan) json() []byte {
	b, err := json.MarshalIndent(p, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}

func (p *Plan) hash() string {
	b, _ := json.Marshal(p)
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

func (o *Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}
