package world

import (
	"verifsim/vsim"
)

// Plan is one fully explicit simulated execution: together with the code under
// test it decides every byte, delay, fault and scheduling choice of the run.
type Plan struct {
	Prop    string          `json:"prop"`
	Seed    uint64          `json:"seed"`
	Run     int             `json:"run"`
	Clock   Clock           `json:"clock"`
	MapSeed uint64          `json:"mapseed,omitempty"`
	Objs    []Obj           `json:"objs"`
	Conns   []Conn          `json:"conns,omitempty"`
	Tasks   []Task          `json:"tasks"`
	Sched   vsim.Strategy   `json:"sched"`
	Decs    []vsim.Decision `json:"decs,omitempty"`
	Race    bool            `json:"race,omitempty"` // run in the -race build
}

// Clock is the simulated wall clock at the start, and the local zone.
type Clock struct {
	Start int64 `json:"start"`          // Unix seconds
	Zone  int   `json:"zone,omitempty"` // local zone, seconds east of UTC
}

// Obj is an object of the library.
type Obj struct {
	K     string  `json:"k"` // m5424 p5424 m3164 p3164 octet lf nul b
	BE    bool    `json:"be,omitempty"`
	CM    bool    `json:"cm,omitempty"`   // 5424: compliant message
	Max   *int    `json:"max,omitempty"`  // octet: length limit
	Year  string  `json:"year,omitempty"` // 3164: "", "cur", "op" or "opnow" (strategies of the caller), or digits
	R3339 bool    `json:"rfc3339,omitempty"`
	Loc   string  `json:"loc,omitempty"` // 3164: WithTimezone
	TZ    string  `json:"tz,omitempty"`  // 3164: WithLocaleTimezone
	Late  bool    `json:"late,omitempty"`
	Rot   int     `json:"rot,omitempty"`   // rotation of the option order
	Swap  bool    `json:"swap,omitempty"`  // stream parsers: listener set again before each stream
	Calls []Call  `json:"calls,omitempty"` // builder: calls made before the tasks start
	Extra []Call  `json:"extra,omitempty"` // options given first and overridden by the others
	Text  B       `json:"text,omitempty"`  // lf nul: the trailer is read from this text
	W     *Fields `json:"w,omitempty"`     // builder: start from the parse of these fields
	Same  int     `json:"same,omitempty"`  // builder: objects with the same positive number must serialise alike
}

// Task is one goroutine of the deployment.
type Task struct {
	Name string `json:"name,omitempty"`
	Ops  []Op   `json:"ops"`
}

// Op is one operation of a task.
type Op struct {
	K     string   `json:"k"` // parse stream build names conf trailer mutate jump sleep send close serve repeat
	O     int      `json:"o"`
	In    B        `json:"in,omitempty"`
	Ins   []B      `json:"ins,omitempty"` // repeat: the inputs that take turns, I times in all
	W     *Fields  `json:"w,omitempty"`   // parse/send: the sender's fields
	Cut   *int     `json:"cut,omitempty"` // parse: the packet was cut to so many bytes
	W3    *F3164   `json:"w3,omitempty"`
	F     []string `json:"f,omitempty"`   // network faults this arrival met
	Src   string   `json:"src,omitempty"` // which sender and packet
	S     *Stream  `json:"s,omitempty"`
	Calls []Call   `json:"calls,omitempty"`
	To    int      `json:"to,omitempty"`   // serve/recv: send on to this connection (1 is the first)
	E     [][]Call `json:"e,omitempty"`    // serve/recv: changes to the messages sent on, in turn
	D     int64    `json:"d,omitempty"`    // jump/sleep: ns
	I     int      `json:"i,omitempty"`    // mutate: which retained message; send/serve: connection
	Mode  int      `json:"mode,omitempty"` // parse: 1 a buffer of its own, 2 the year strategy panics; trailer: which function
}

// Call is one builder call.
type Call struct {
	M string `json:"m"`
	A B      `json:"a,omitempty"`
	N B      `json:"n,omitempty"`
	V B      `json:"v,omitempty"`
	I int    `json:"i,omitempty"`
}

// Stream is one stream: the bytes a peer offers and how they are delivered.
type Stream struct {
	Lead  B        `json:"lead,omitempty"` // what the peer sends first, Rep times
	Rep   int      `json:"rep,omitempty"`
	Parts []B      `json:"parts"`           // what the peer sends
	Ends  string   `json:"end"`             // eof dataeof err dataerr
	Err   string   `json:"err,omitempty"`   // kind of error
	Reads []ReadOp `json:"reads,omitempty"` // how Read behaves, in order
	Big   bool     `json:"big,omitempty"`   // afterwards: as much as fits (else 512 a time)
	Wrap  string   `json:"wrap,omitempty"`  // "", "rich", "bufio", "bufio9k", in memory: "bytes", "strings", "buffer", "limited", "multi", "section", or the same one for all streams: "same", "samebufio", "samebufio9k"
	Trap  int      `json:"trap,omitempty"`  // how many times bytes are offered after the end
	L     []LAct   `json:"l,omitempty"`
	Scrib bool     `json:"scrib,omitempty"`
}

// ReadOp is the behaviour of one Read call.
type ReadOp struct {
	N     int    `json:"n,omitempty"` // at most so many bytes; 0 with kind "" is an empty read
	K     string `json:"k,omitempty"` // "", err, dataerr, eof, dataeof, panic, forever0
	Err   string `json:"err,omitempty"`
	Delay int64  `json:"delay,omitempty"` // ns of simulated time before
}

// LAct is something the listener does at its At-th call of the stream.
type LAct struct {
	At int    `json:"at"`
	K  string `json:"k"` // panic mutate nest sleep
	Op *Op    `json:"op,omitempty"`
	D  int64  `json:"d,omitempty"`
}

// Conn is a simulated connection fed by sender tasks.
type Conn struct {
	Kind  string  `json:"kind"`          // octet lf nul
	Reads []int   `json:"reads"`         // sizes Read returns, cycled
	Lat   []int64 `json:"lat"`           // ns of latency per written chunk, cycled
	Cut   int     `json:"cut"`           // -1, or the connection breaks after so many bytes
	Err   string  `json:"err,omitempty"` // how it breaks: "" is EOF
	Write []int   `json:"write"`         // sizes of written chunks, cycled
}

// F3164 is what a sender wants to say in an RFC 3164 message.
type F3164 struct {
	Pri     int    `json:"pri"`
	Mon     int    `json:"mon,omitempty"` // Stamp timestamp
	Day     int    `json:"day,omitempty"`
	H       int    `json:"h"`
	M       int    `json:"m"`
	S       int    `json:"s"`
	R3339   string `json:"r3339,omitempty"` // or an RFC 3339 one
	Host    B      `json:"host"`
	Tag     B      `json:"tag,omitempty"`
	Content B      `json:"content,omitempty"`
	HasC    bool   `json:"hasc,omitempty"`
	Msg     B      `json:"msg"`
}
