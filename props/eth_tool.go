package props

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"syscall"

	"github.com/ethereum/go-ethereum/core/types"
	"verif.local/mc/mc"
)

// The eth tool is run as a process, against a recording node.

type toolRun struct {
	out, err string
	code     int
}

func (t toolRun) crashed() bool {
	return t.code == 2 && (strings.Contains(t.err, "\ngoroutine ") || strings.HasPrefix(t.err, "panic: ") || strings.HasPrefix(t.err, "fatal error: "))
}

func (t toolRun) String() string {
	return fmt.Sprintf("exit %d, stdout %.300q, stderr %.300q", t.code, t.out, t.err)
}

// tool runs bin/name with the environment given and nothing else.
func tool(name string, env []string, stdin []byte, args ...string) toolRun {
	return toolOn(name, env, bytes.NewReader(stdin), args...)
}

func toolOn(name string, env []string, stdin interface{ Read([]byte) (int, error) }, args ...string) toolRun {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, filepath.Join(os.Getenv("MC_BIN"), name), args...)
	c.Env = env
	c.Stdin = stdin
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	t := toolRun{out: o.String(), err: e.String()}
	if err != nil {
		t.code = -1
		if x, ok := err.(*exec.ExitError); ok {
			t.code = x.ExitCode()
		} else {
			t.err += " (" + err.Error() + ")"
		}
	}
	return t
}

// toolPass runs the tool on a terminal on which pass is typed.
func toolPass(name string, env []string, pass string, args ...string) toolRun {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	defer m.Close()
	var n, zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		panic(e)
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		panic(e)
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	defer s.Close()
	m.Write([]byte(pass + "\n"))
	return toolOn(name, env, s, args...)
}

// toolNode is a node that answers the tool over HTTP and records what it is
// asked; every run of the tool has its own path.
type toolNode struct {
	url  string
	srv  *http.Server
	mu   sync.Mutex
	next int64
	runs map[string]*toolTalk
}

type toolTalk struct {
	answer func(method string, params []interface{}) (result string, errmsg string)
	asked  []recReq
	bad    string
}

func newToolNode() *toolNode {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	n := &toolNode{url: "http://" + l.Addr().String(), runs: map[string]*toolTalk{}}
	n.srv = &http.Server{Handler: n}
	go n.srv.Serve(l)
	return n
}

func (n *toolNode) close() { n.srv.Close() }

func (n *toolNode) talk(answer func(method string, params []interface{}) (string, string)) (*toolTalk, string) {
	id := fmt.Sprintf("/%d", atomic.AddInt64(&n.next, 1))
	t := &toolTalk{answer: answer}
	n.mu.Lock()
	n.runs[id] = t
	n.mu.Unlock()
	return t, n.url + id
}

func (n *toolNode) done(url string) {
	n.mu.Lock()
	delete(n.runs, strings.TrimPrefix(url, n.url))
	n.mu.Unlock()
}

func (n *toolNode) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	n.mu.Lock()
	defer n.mu.Unlock()
	t := n.runs[r.URL.Path]
	if t == nil {
		w.WriteHeader(404)
		return
	}
	var q struct {
		ID     json.RawMessage `json:"id"`
		Method string          `json:"method"`
		Params []interface{}   `json:"params"`
	}
	if err := json.NewDecoder(r.Body).Decode(&q); err != nil {
		t.bad = err.Error()
		w.WriteHeader(400)
		return
	}
	t.asked = append(t.asked, recReq{Method: q.Method, Params: q.Params})
	res, msg := t.answer(q.Method, q.Params)
	w.Header().Set("Content-Type", "application/json")
	if msg != "" {
		fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"error":{"code":-32000,"message":%q}}`, q.ID, msg)
		return
	}
	fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"result":%s}`, q.ID, res)
}

// toolKey writes a key file, cheap to open, for the key d.
func toolKey(dir, file, name, id, pass string, d int64) {
	toolKeyAddr(dir, file, name, id, pass, d, hex.EncodeToString(refAddress(big.NewInt(d))))
}

// toolKeyAddr writes a key file that states the given address, if any
func toolKeyAddr(dir, file, name, id, pass string, d int64, addr string) {
	k := kfile{cipher: "aes-128-ctr", iv: strings.Repeat("ab", 16), kdf: "pbkdf2", prf: "hmac-sha256", c: 1, dklen: 32, salt: strings.Repeat("cd", 8), pass: pass}
	k.seal(be32(big.NewInt(d)), true)
	var top map[string]interface{}
	if err := json.Unmarshal(k.json(), &top); err != nil {
		panic(err)
	}
	top["id"] = id
	if name != "" {
		top["name"] = name
	}
	delete(top, "address")
	if addr != "" {
		top["address"] = addr
	}
	b, _ := json.Marshal(top)
	if err := os.WriteFile(filepath.Join(dir, file), b, 0600); err != nil {
		panic(err)
	}
}

func toolScratch(r *mc.R, id string) (string, func()) {
	d, err := os.MkdirTemp("", "mc"+id)
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func senderOf(tx *types.Transaction) string {
	a, err := types.NewEIP155Signer(big.NewInt(1)).Sender(tx)
	if err != nil {
		return err.Error()
	}
	return "0x" + hex.EncodeToString(a[:])
}

// toolSigner recovers who signed, from what was printed
func toolSigner(x *mc.X, out, form string, hash []byte) string {
	var sig []byte
	switch form {
	case "hex", "hashed", "prefix":
		b, err := hex.DecodeString(strings.TrimSpace(out))
		if err != nil {
			x.Failf("sign-output", "printed %q", out)
		}
		sig = b
	case "json":
		var p struct{ R, S, V string }
		if err := json.Unmarshal([]byte(out), &p); err != nil {
			x.Failf("sign-output", "printed %q", out)
		}
		r, s, v := bigS(p.R), bigS(p.S), bigS(p.V)
		sig = append(append(be32(r), be32(s)...), byte(v.Int64()))
		if v.Int64() >= 27 {
			sig[64] -= 27
		}
	default:
		sig = []byte(out)
	}
	if len(sig) != 65 {
		x.Failf("sign-output", "%s: %d bytes printed", form, len(sig))
	}
	v := sig[64]
	if v >= 27 {
		v -= 27
	}
	pub := refRecover(new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64]), int(v), hash)
	if pub == nil {
		x.Failf("sign-output", "%s: %x is no signature", form, sig)
	}
	return "0x" + hex.EncodeToString(refKeccak(pub)[12:])
}
