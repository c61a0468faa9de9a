package props

import (
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/core/types"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C47",
		Level: "fault_enumeration",
		Rule:  "every content of the device from a table x every set of key files x every key specification x every way of giving the device's passphrase, and every single device call failing in every command, run as the real program (built with the driver) on a software device; signatures are recovered independently; a case is a distinct device, set of key files, specification and fault, non-trivial if a key matched",
		Notes: []string{"the vendor library is replaced by a software device with the same interface (shim/yubihsm); it is not the vendor's code"},
		Run:   runC47,
	})
}

// an object on the device
type ehObj struct {
	id, typ, alg int
	sign         bool
	d            int64 // private key, or 0
	pubalg       int
}

func (o ehObj) usable() bool  { return o.typ == 3 && o.alg == 15 && o.sign && o.d != 0 }
func (o ehObj) label() string { return fmt.Sprintf("yubihsm:%d", o.id) }
func (o ehObj) addr() string  { return "0x" + hex.EncodeToString(refAddress(big.NewInt(o.d))) }

// ehDER is the signature the device makes: with high s for keys of odd ids.
func ehDER(o ehObj, digest []byte) []byte {
	sig := ethSign(big.NewInt(o.d), digest)
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	if o.id&1 == 1 {
		s.Sub(ecN, s)
	}
	b, err := asn1.Marshal(struct{ R, S *big.Int }{r, s})
	if err != nil {
		panic(err)
	}
	return b
}

type ehDev struct {
	objs    []ehObj
	pass    string
	late    bool
	faults  [][2]int
	digests [][]byte
	odd     []byte // what signing the first digest gives, if not a signature
}

func (d ehDev) state() string {
	late := 0
	if d.late {
		late = 1
	}
	hx := func(b []byte) string {
		if len(b) == 0 {
			return "-"
		}
		return hex.EncodeToString(b)
	}
	s := fmt.Sprintf("password %s %d\n", hx([]byte(d.pass)), late)
	for _, o := range d.objs {
		caps := "0000000000000140"
		if o.sign {
			caps = "0000000000000080"
		}
		var pub []byte
		if o.d != 0 {
			pub = refPub(big.NewInt(o.d))
		}
		s += fmt.Sprintf("object %d %d %d 1 %s %s 32 %s %d\n", o.id, o.typ, o.alg, caps, hx([]byte(fmt.Sprint("key ", o.id))), hx(pub), o.pubalg)
		for i, h := range d.digests {
			if o.d == 0 {
				continue
			}
			der := ehDER(o, h)
			if i == 0 && d.odd != nil {
				der = d.odd
			}
			s += fmt.Sprintf("sig %d %x %s\n", o.id, h, hx(der))
		}
	}
	for _, f := range d.faults {
		s += fmt.Sprintf("fault %d %d\n", f[0], f[1])
	}
	return s
}

type ehFile struct {
	name, id string
	d        int64
	pass     string
}

func (k ehFile) label() string {
	if k.name != "" {
		return k.name
	}
	return k.id
}

func runC47(r *mc.R) {
	base, done := toolScratch(r, "C47")
	defer done()
	ids := make(chan int, 1)
	ids <- 0
	dirFor := func() string {
		n := <-ids
		ids <- n + 1
		d := filepath.Join(base, fmt.Sprintf("k%d", n))
		os.MkdirAll(filepath.Join(d, "keys"), 0755)
		return d
	}
	msg := []byte("what is to be signed")
	h := refKeccak(msg)
	// how the passphrase of the device is given
	const (
		envRight = iota
		envWrong
		typedRight
		typedWrong
	)
	hsmPass := "pass w:ü"
	type world struct {
		dir   string
		dev   ehDev
		files []ehFile
		spec  string
		pass  int
		typed string // passphrase typed for the key file
		hint  string
		down  bool // the device cannot be reached
		url   string
	}
	where := func(w world) string {
		return fmt.Sprintf("device %v (late=%v, faults %v), key files %v, ETHER_ADDR=%q, passphrase of the device %s, typed %q", w.dev.objs, w.dev.late, w.dev.faults, w.files, w.spec, []string{"in the environment", "wrong in the environment", "typed", "typed wrong"}[w.pass], w.typed)
	}
	run := func(x *mc.X, w world, args ...string) (toolRun, string) {
		for i, k := range w.files {
			toolKey(filepath.Join(w.dir, "keys"), fmt.Sprintf("UTC--%d", i), k.name, k.id, k.pass, k.d)
		}
		state, trace := filepath.Join(w.dir, "state"), filepath.Join(w.dir, "trace")
		os.WriteFile(state, []byte(w.dev.state()), 0644)
		os.WriteFile(filepath.Join(w.dir, "msg"), msg, 0644)
		os.Remove(trace)
		env := []string{"HOME=" + w.dir, "KEY_PATH=" + filepath.Join(w.dir, "keys"), "PATH=/nonexistent", "VDEV_STATE=" + state, "VDEV_TRACE=" + trace, "ETHER_ADDR=" + w.spec}
		if w.hint != "" {
			env = append(env, "YUBIHSM_HINT="+w.hint)
		}
		if w.url != "" {
			env = append(env, "SETH_URL="+w.url)
		}
		typed := w.typed
		switch w.pass {
		case envRight:
			env = append(env, "YUBIHSM_PASS="+hsmPass)
		case envWrong:
			env = append(env, "YUBIHSM_PASS="+hsmPass+"x")
		case typedRight:
			if !w.down {
				typed = hsmPass + "\n" + typed
			}
		case typedWrong:
			if !w.down {
				typed = "not " + hsmPass + "\n" + typed
			}
		}
		x.Step()
		t := toolPass("eth", env, typed, args...)
		b, _ := os.ReadFile(trace)
		if t.crashed() || t.code == -1 {
			x.Failf("crash", "%s, eth %v: %v", where(w), args, t)
		}
		return t, string(b)
	}
	locked := func(w world) bool { return !w.down && (w.pass == envWrong || w.pass == typedWrong) }
	type cand struct {
		hsm  *ehObj
		file *ehFile
	}
	matching := func(w world, hsm bool) (m []cand) {
		re, err := regexp.Compile(w.spec)
		if err != nil || w.spec == "" {
			return nil
		}
		for i, k := range w.files {
			if re.MatchString("0x"+hex.EncodeToString(refAddress(big.NewInt(k.d)))) || re.MatchString(k.label()) {
				m = append(m, cand{file: &w.files[i]})
			}
		}
		for i, o := range w.dev.objs {
			if hsm && o.usable() && (re.MatchString(o.addr()) || re.MatchString(o.label())) {
				m = append(m, cand{hsm: &w.dev.objs[i]})
			}
		}
		return m
	}
	// devSigned checks what the device was asked to sign
	devSigned := func(x *mc.X, w world, trace string, o *ehObj, digest []byte) {
		n := strings.Count(trace, "sign ")
		if o == nil {
			if n != 0 {
				x.Failf("device-signed", "%s: the device was asked to sign: %s", where(w), trace)
			}
			return
		}
		if n != 1 || !strings.Contains(trace, fmt.Sprintf("sign %d %x=0\n", o.id, digest)) {
			x.Failf("device-call", "%s: the device was not asked for one signature of %x by key %d: %s", where(w), digest, o.id, trace)
		}
	}
	judge := func(x *mc.X, w world, form string, digest []byte, args ...string) {
		t, trace := run(x, w, args...)
		m := matching(w, !w.down)
		ok := len(m) == 1 && !locked(w)
		if ok && m[0].file != nil && m[0].file.pass != w.typed {
			ok = false
		}
		if !ok {
			if t.code == 0 || t.out != "" {
				who := ""
				if t.out != "" {
					who = toolSigner(x, t.out, form, digest)
				}
				x.Failf("not-refused", "%s: %d keys match; signed by %s: %v", where(w), len(m), who, t)
			}
			devSigned(x, w, trace, nil, nil)
			x.Outcome("refused")
			x.Validated()
			return
		}
		if t.code != 0 {
			x.Failf("refused", "%s: %v", where(w), t)
		}
		who := toolSigner(x, t.out, form, digest)
		if m[0].hsm != nil {
			if who != m[0].hsm.addr() {
				x.Failf("wrong-key", "%s: signed by %s instead of %s", where(w), who, m[0].hsm.addr())
			}
			devSigned(x, w, trace, m[0].hsm, digest)
			x.Outcome("signed by the device")
		} else {
			if want := "0x" + hex.EncodeToString(refAddress(big.NewInt(m[0].file.d))); who != want {
				x.Failf("wrong-key", "%s: signed by %s instead of %s", where(w), who, want)
			}
			devSigned(x, w, trace, nil, nil)
			x.Outcome("signed by a key file")
		}
		x.Validated()
	}
	devices := [][]ehObj{
		nil, // not there
		{},
		{{12, 3, 15, true, 2001, 15}, {1, 3, 15, true, 2002, 15}},
		{{9, 3, 12, true, 0, 12}, {65535, 3, 15, true, 2001, 15}, {65535, 1, 30, false, 0, 0}, {3, 3, 15, false, 2002, 15}, {4, 4, 29, false, 0, 0}, {2, 3, 15, true, 2003, 15}},
		{{1, 3, 15, true, 1001, 15}, {10, 3, 15, true, 2001, 15}}, // the first is also in a key file
	}
	alice := ehFile{"alice", "11111111-aaaa-4000-8000-000000000001", 1001, "pa"}
	bob := ehFile{"", "22222222-aaaa-4000-8000-000000000002", 1002, "pb"}
	liar := ehFile{"yubihsm:1", "33333333-aaaa-4000-8000-000000000003", 1003, "pc"}
	filesets := [][]ehFile{{}, {alice}, {liar}, {bob, alice}, {alice, liar}}
	specs := []string{"yubihsm:1", "^yubihsm:1$", "yubihsm:12", "2$", "yubihsm", "hsm", "alice", "2222", ".", "nobody", "("}
	for _, d := range []int64{2001, 2002, 1001, 1003} {
		specs = append(specs, "^0x"+hex.EncodeToString(refAddress(big.NewInt(d)))+"$")
	}
	newWorld := func(dev []ehObj, files []ehFile, spec string, pass int) world {
		w := world{dir: dirFor(), dev: ehDev{objs: dev, pass: hsmPass, digests: [][]byte{h}}, files: append([]ehFile(nil), files...), spec: spec, pass: pass}
		if dev == nil {
			w.down = true
			w.dev.faults = [][2]int{{2, -3}} // no connection
		}
		// the passphrase of the key file that matches, or of the last one
		w.typed = "pz"
		if len(files) > 0 {
			w.typed = files[len(files)-1].pass
		}
		for _, c := range matching(w, !w.down) {
			if c.file != nil {
				w.typed = c.file.pass
			}
		}
		return w
	}
	sign := func(w world) []string { return []string{"sign", "-x", filepath.Join(w.dir, "msg")} }
	r.Explore(mc.Opts{Name: "selection", Budget: -1, Bound: fmt.Sprintf("%d devices (absent, empty, keys that may sign next to objects that may not, a key that is in a key file too) x %d sets of key files x %d specifications x the device's passphrase right or wrong, in the environment or typed, found wrong early or late", len(devices), len(filesets), len(specs))}, func(x *mc.X) {
		dev := devices[x.Choose(len(devices))]
		files := filesets[x.Choose(len(filesets))]
		spec := specs[x.Choose(len(specs))]
		pass := x.Choose(4)
		w := newWorld(dev, files, spec, pass)
		defer os.RemoveAll(w.dir)
		if locked(w) {
			w.dev.late = x.Bool()
		}
		judge(x, w, "hex", h, sign(w)...)
		if len(matching(w, !w.down)) > 0 {
			x.Case(where(w))
			x.Sample(map[string]interface{}{"world": where(w)})
		}
	})
	r.Explore(mc.Opts{Name: "forms", Budget: -1, Bound: "every output form of sign, hashed and prefixed input, with every key of the devices"}, func(x *mc.X) {
		dev := devices[2+x.Choose(3)]
		o := dev[x.Choose(len(dev))]
		form := []string{"raw", "hex", "json", "hashed", "prefix"}[x.Choose(5)]
		w := newWorld(dev, filesets[3], "^"+o.label()+"$", envRight)
		defer os.RemoveAll(w.dir)
		digest := h
		args := []string{"sign"}
		in := filepath.Join(w.dir, "msg")
		switch form {
		case "hex":
			args = append(args, "-x")
		case "json":
			args = append(args, "-j")
		case "hashed":
			in = filepath.Join(w.dir, "hash")
			os.WriteFile(in, h, 0644)
			args = append(args, "-x", "-h")
		case "prefix":
			args = append(args, "-x", "-prefix", "before ")
			digest = refKeccak(append([]byte("before "), msg...))
		}
		w.dev.digests = [][]byte{digest}
		judge(x, w, form, digest, append(args, in)...)
		x.Case(fmt.Sprint(o, form))
	})
	// listing
	listed := func(out string) (l []string) {
		for _, s := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			if f := strings.Fields(s); len(f) > 0 {
				l = append(l, strings.Join(f, " "))
			}
		}
		sort.Strings(l)
		return l
	}
	wantList := func(w world, hsm bool) (l []string) {
		for _, k := range w.files {
			l = append(l, k.label()+" 0x"+hex.EncodeToString(refAddress(big.NewInt(k.d))))
		}
		for _, o := range w.dev.objs {
			if hsm && o.usable() {
				l = append(l, o.label()+" "+o.addr())
			}
		}
		sort.Strings(l)
		return l
	}
	r.Explore(mc.Opts{Name: "listing", Budget: -1, Bound: "`eth keys` on every device with every set of key files, every way of giving the passphrase, and every hint where the device is"}, func(x *mc.X) {
		dev := devices[x.Choose(len(devices))]
		files := filesets[x.Choose(len(filesets))]
		w := newWorld(dev, files, "x", x.Choose(4))
		defer os.RemoveAll(w.dir)
		w.hint = []string{"", "http://10.0.0.1:9", "slow,http://10.0.0.1:9", "https://[::1]/x,slow", "slow"}[x.Choose(5)]
		at := "http://127.0.0.1:12345"
		for _, s := range strings.Split(w.hint, ",") {
			if strings.HasPrefix(s, "http") {
				at = s
			}
		}
		t, trace := run(x, w, "keys")
		if !strings.HasPrefix(trace, "init_connector "+at+"=0\n") {
			x.Failf("connector", "%s, hint %q: the device was looked for elsewhere: %s", where(w), w.hint, trace)
		}
		if locked(w) {
			if t.code == 0 || t.out != "" {
				x.Failf("list-locked", "%s: %v", where(w), t)
			}
			x.Outcome("refused")
		} else {
			got, want := listed(t.out), wantList(w, !w.down)
			if t.code != 0 || strings.Join(got, ";") != strings.Join(want, ";") {
				x.Failf("list", "%s: %v, want %q", where(w), t, want)
			}
			x.Outcome("listed")
		}
		devSigned(x, w, trace, nil, nil)
		x.Case(where(w), w.hint)
		x.Validated()
	})
	// failing device calls and odd answers
	codes := []int{-3, -10, -15, -29}[:r.N(2, 4)]
	calls := 9
	r.Explore(mc.Opts{Name: "faults", Budget: -1, Bound: fmt.Sprintf("every one of the first %d device calls failing with each of %d codes, while listing and while signing with each key of the device or of a key file, with and without key files", calls, len(codes))}, func(x *mc.X) {
		dev := devices[2+x.Choose(3)]
		files := filesets[x.Choose(len(filesets))]
		nth := 1 + x.Choose(calls)
		code := codes[x.Choose(len(codes))]
		what := x.Choose(3)
		spec := "x"
		switch what {
		case 1:
			spec = "^" + dev[x.Choose(len(dev))].label() + "$"
		case 2:
			if len(files) == 0 {
				x.Prune()
			}
			spec = "^" + files[len(files)-1].label() + "$"
		}
		w := newWorld(dev, files, spec, envRight)
		defer os.RemoveAll(w.dir)
		w.dev.faults = [][2]int{{nth, code}}
		args := []string{"keys"}
		if what > 0 {
			args = sign(w)
		}
		t, trace := run(x, w, args...)
		fired := strings.Count(trace, fmt.Sprintf("=%d\n", code)) > 0
		x.Case(where(w), fmt.Sprint(what))
		if !fired && what > 0 {
			judge(x, w, "hex", h, args...)
			return
		}
		if what == 0 {
			got := strings.Join(listed(t.out), ";")
			all, some := strings.Join(wantList(w, true), ";"), strings.Join(wantList(w, false), ";")
			if t.code != 0 {
				if t.out != "" || !fired {
					x.Failf("list-partial", "%s: %v", where(w), t)
				}
			} else if got != all && (got != some || !fired) {
				x.Failf("list-partial", "%s: listed %q instead of %q or, without the device, %q", where(w), got, all, some)
			}
			devSigned(x, w, trace, nil, nil)
			x.Validated()
			return
		}
		if t.code == 0 {
			m := append(matching(w, true), matching(w, false)...)
			who := toolSigner(x, t.out, "hex", h)
			ok := false
			for _, c := range m {
				if c.file != nil && who == "0x"+hex.EncodeToString(refAddress(big.NewInt(c.file.d))) {
					ok = true
				}
				if c.hsm != nil && who == c.hsm.addr() && strings.Contains(trace, fmt.Sprintf("sign %d %x=0\n", c.hsm.id, h)) {
					ok = true
				}
			}
			if !ok {
				x.Failf("fault-wrong-key", "%s: signed by %s: %v", where(w), who, t)
			}
			x.Outcome("signed without the device")
		} else {
			if t.out != "" {
				x.Failf("fault-output", "%s: %v", where(w), t)
			}
			x.Outcome("failed")
		}
		x.Validated()
	})
	r.Explore(mc.Opts{Name: "answers", Budget: -1, Bound: "the device answers with the signature of another key or another digest, one out of range, one with more or fewer bytes, or none, to each key"}, func(x *mc.X) {
		dev := devices[2+x.Choose(3)]
		o := dev[x.Choose(len(dev))]
		if !o.usable() {
			x.Prune()
		}
		other := o
		other.d++
		good := ehDER(o, h)
		mk := func(r, s *big.Int) []byte {
			b, _ := asn1.Marshal(struct{ R, S *big.Int }{r, s})
			return b
		}
		sig := ethSign(big.NewInt(o.d), h)
		R, S := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
		odd := [][]byte{ehDER(other, h), ehDER(o, refKeccak(h)), mk(new(big.Int), S), mk(R, new(big.Int)), mk(ecN, S), mk(R, ecN), mk(new(big.Int).Neg(R), S), append(append([]byte(nil), good...), 0), good[:len(good)-1], {0x30, 0}, mk(new(big.Int).Lsh(R, 8), S)}
		i := x.Choose(len(odd))
		w := newWorld(dev, filesets[1], "^"+o.label()+"$", envRight)
		defer os.RemoveAll(w.dir)
		w.dev.odd = odd[i]
		t, _ := run(x, w, sign(w)...)
		if t.code == 0 || t.out != "" {
			x.Failf("bad-signature", "%s: the device answered %x, and the tool %v", where(w), odd[i], t)
		}
		x.Case(fmt.Sprint(o, i))
		x.Validated()
	})
	// transactions: the same as with the key in a key file
	node := newToolNode()
	defer node.close()
	cw := &c35World{node: node}
	r.Explore(mc.Opts{Name: "transactions", Budget: -1, Bound: "`eth call` with each key of the device, with options and arguments, next to key files, against the same with the key in a key file; every device call failing"}, func(x *mc.X) {
		dev := devices[2+x.Choose(3)]
		o := dev[x.Choose(len(dev))]
		if !o.usable() {
			x.Prune()
		}
		cmd := [][]string{{"call", "-f", alice0, "f()"}, {"call", "-f", "-g", "3", "-n", "7", alice0, "set(uint256,address)", "0x1234", alice0}, {"call", "-f", alice0, "put(bytes)", "0x00ff"}}[x.Choose(3)]
		nth := x.Choose(calls + 1)
		send := func(w world) (toolRun, string, []*types.Transaction) {
			t, url := node.talk(func(method string, p []interface{}) (string, string) {
				switch method {
				case "eth_getTransactionCount":
					if a := fmt.Sprint(p[0]); !strings.EqualFold(a, o.addr()) {
						return "", "nonce of " + a
					}
					return `"0x5"`, ""
				case "eth_estimateGas":
					return `"0x5208"`, ""
				case "eth_sendRawTransaction":
					return `"0x` + strings.Repeat("5a", 32) + `"`, ""
				}
				return "", "no"
			})
			defer node.done(url)
			w.url = url
			res, trace := run(x, w, cmd...)
			_, _, txs := cw.sent(x, cmd, t)
			return res, trace, txs
		}
		w0 := newWorld(nil, []ehFile{{"k", "44444444-aaaa-4000-8000-000000000004", o.d, "pk"}}, "^k$", envRight)
		defer os.RemoveAll(w0.dir)
		res, _, txs := send(w0)
		if res.code != 0 || len(txs) != 1 || senderOf(txs[0]) != o.addr() {
			x.Failf("key-file", "%s, eth %v: %v, %d transactions sent", where(w0), cmd, res, len(txs))
		}
		digest := types.NewEIP155Signer(big.NewInt(1)).Hash(txs[0])
		w := newWorld(dev, filesets[3], "^"+o.label()+"$", envRight)
		defer os.RemoveAll(w.dir)
		w.dev.digests = [][]byte{digest[:]}
		if nth > 0 {
			w.dev.faults = [][2]int{{nth, -3}}
		}
		res2, trace, txs2 := send(w)
		x.Case(where(w), fmt.Sprint(cmd))
		x.Validated()
		if strings.Contains(trace, "=-3\n") {
			if res2.code == 0 || res2.out != "" || len(txs2) > 0 {
				x.Failf("fault-sent", "%s, eth %v: the device failed, but %v, %d transactions sent", where(w), cmd, res2, len(txs2))
			}
			x.Outcome("failed")
			return
		}
		if res2.code != 0 || len(txs2) != 1 || res2.out != res.out {
			x.Failf("not-sent", "%s, eth %v: %v, %d transactions sent", where(w), cmd, res2, len(txs2))
		}
		if who := senderOf(txs2[0]); who != o.addr() {
			x.Failf("wrong-key", "%s, eth %v: the transaction is signed by %s", where(w), cmd, who)
		}
		if types.NewEIP155Signer(big.NewInt(1)).Hash(txs2[0]) != digest {
			x.Failf("transaction", "%s, eth %v: sent %v, with the key in a file %v", where(w), cmd, txs2[0], txs[0])
		}
		_, _, s := txs2[0].RawSignatureValues()
		if s.Cmp(new(big.Int).Rsh(ecN, 1)) > 0 {
			x.Failf("high-s", "%s, eth %v: s is %x", where(w), cmd, s)
		}
		devSigned(x, w, trace, &o, digest[:])
		x.Outcome("sent")
	})
}

const alice0 = "0x00000000000000000000000000000000000a11ce"
