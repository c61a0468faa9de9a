package schedprops

import (
	"encoding/json"
	"fmt"

	"github.com/philhofer/seth"
	"verif.local/mc/shim"
)

// rpc is one request the node has received and not answered yet.
type rpc struct {
	n      int
	method string
	params []json.RawMessage
	done   bool
	result string
	err    *seth.RPCError
	fail   error
}

// node is a transport whose answers are events of the environment.
type node struct {
	e     *E
	open  []*rpc
	total int
	onReq func(r *rpc)
}

// Execute implements seth.Transport.
func (n *node) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	shim.Point("request " + req.Method)
	r := &rpc{n: n.total, method: req.Method, params: req.Params}
	n.total++
	n.open = append(n.open, r)
	if n.onReq != nil {
		n.onReq(r)
	}
	shim.Block("answer to "+req.Method, func() bool { return r.done })
	if r.fail != nil {
		return r.fail
	}
	res.ID, res.Version = req.ID, "2.0"
	if r.err != nil {
		res.Error = *r.err
		return nil
	}
	res.Result = json.RawMessage(r.result)
	return nil
}

func (n *node) finish(r *rpc) {
	r.done = true
	for i := range n.open {
		if n.open[i] == r {
			n.open = append(n.open[:i:i], n.open[i+1:]...)
			return
		}
	}
}

func (n *node) reply(r *rpc, result string) shim.Event {
	return shim.Event{Name: fmt.Sprintf("%s -> %.60s", r.method, result), Do: func() { r.result = result; n.finish(r) }}
}

func (n *node) refuse(r *rpc, msg string) shim.Event {
	return shim.Event{Name: r.method + " -> error " + msg, Do: func() { r.err = &seth.RPCError{Code: -32000, Message: msg}; n.finish(r) }}
}

func (n *node) lose(r *rpc) shim.Event {
	return shim.Event{Name: r.method + " -> transport error", Do: func() { r.fail = errBroken; n.finish(r) }}
}
