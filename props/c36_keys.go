package props

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C36",
		Level: "exploration",
		Rule:  "every set and order of up to three key files from a table of keys with related names, in one or two directories, next to files that are no keys, x every key specification, run as the real program on a terminal; the signature is recovered independently; a case is a distinct directory content, specification and passphrase, non-trivial if a key matched",
		Notes: []string{"a specification is a regular expression, matched against the address and against the name, or the id of a key without a name"},
		Run:   runC36,
	})
}

type c36Key struct {
	name, id string
	d        int64
	pass     string
}

func (k c36Key) label() string {
	if k.name != "" {
		return k.name
	}
	return k.id
}

func (k c36Key) addr() string { return "0x" + hex.EncodeToString(refAddress(big.NewInt(k.d))) }

func runC36(r *mc.R) {
	keys := []c36Key{
		{"alice", "11111111-aaaa-4000-8000-000000000001", 1001, "pa"},
		{"alicia", "22222222-aaaa-4000-8000-000000000002", 1002, "pb"},
		{"", "33333333-bbbb-4000-8000-000000000003", 1003, "pc"},
		{"bob", "44444444-bbbb-4000-8000-000000000004", 1004, "pd"},
		{"alice", "55555555-cccc-4000-8000-000000000005", 1005, "pe"}, // another key of the same name
	}
	keys = keys[:r.N(4, 5)]
	specs := []string{"alice", "ali", "alicia", "^alice$", "bob", "333333", "bbbb", "nobody", "(", "", ".", "0x", "ALICE", "alice|bob", "b$", "[a-z]"}
	for _, k := range keys {
		specs = append(specs, k.addr(), k.addr()[:10], k.addr()[2:], "^"+k.addr()+"$")
	}
	base, done := toolScratch(r, "C36")
	defer done()
	// every ordered selection of up to n keys
	var sets [][]int
	var pick func(cur []int, n int)
	pick = func(cur []int, n int) {
		sets = append(sets, append([]int(nil), cur...))
		if len(cur) == n {
			return
		}
	next:
		for i := range keys {
			for _, j := range cur {
				if i == j {
					continue next
				}
			}
			pick(append(cur, i), n)
		}
	}
	pick(nil, 3)
	ids := make(chan int, 1)
	ids <- 0
	dirFor := func() string {
		n := <-ids
		ids <- n + 1
		d := filepath.Join(base, fmt.Sprintf("k%d", n))
		os.MkdirAll(d, 0755)
		return d
	}
	msg := []byte("what is to be signed")
	type world struct {
		dir, env string
		ks       []c36Key
	}
	// layout 0: one directory; 1: the last key in a second directory, listed
	// second; 2: listed first; clutter adds files that are no keys
	lay := func(ks []c36Key, layout int, clutter bool) world {
		d := dirFor()
		dirs := []string{filepath.Join(d, "one")}
		os.Mkdir(dirs[0], 0755)
		if layout > 0 {
			dirs = append(dirs, filepath.Join(d, "two"))
			os.Mkdir(dirs[1], 0755)
		}
		for i, k := range ks {
			in := dirs[0]
			if layout > 0 && i == len(ks)-1 {
				in = dirs[1]
			}
			toolKey(in, fmt.Sprintf("UTC--%d", i), k.name, k.id, k.pass, k.d)
		}
		if clutter {
			junk := []string{"", "alice", "[]", "{", "{}", `{"address":"` + keys[0].addr()[2:] + `","id":"alice"}`, `{"name":"alice","id":"x","version":3}`}
			for skip := 0; skip < 5; skip++ {
				// a key file that lacks one member
				parts := []string{`"id":"alice"`, `"cipher":"aes-128-ctr"`, `"mac":"00"`, `"kdf":"pbkdf2"`, `"version":3`}
				part := func(i int) string {
					if i == skip {
						return `"x":0`
					}
					return parts[i]
				}
				junk = append(junk, fmt.Sprintf(`{%s,%s,"crypto":{%s,%s,%s,"kdfparams":{"dklen":32,"prf":"hmac-sha256","c":1,"salt":"00"},"ciphertext":"00","cipherparams":{"iv":"00"}}}`, part(0), part(4), part(1), part(2), part(3)))
			}
			for i, c := range junk {
				os.WriteFile(filepath.Join(dirs[i%len(dirs)], fmt.Sprintf("%c-clutter%d", "AZ"[i%2], i)), []byte(c), 0644)
			}
			os.Mkdir(filepath.Join(dirs[0], "alice"), 0755)
			toolKey(filepath.Join(dirs[0], "alice"), "UTC--9", "alice", "deep", "pa", 1001)
			os.Symlink("nowhere", filepath.Join(dirs[0], "link"))
		}
		if layout == 2 {
			dirs[0], dirs[1] = dirs[1], dirs[0]
		}
		os.WriteFile(filepath.Join(d, "msg"), msg, 0644)
		return world{dir: d, env: strings.Join(dirs, ":"), ks: ks}
	}
	matching := func(ks []c36Key, spec string) (m []c36Key) {
		if spec == "" {
			return nil
		}
		re, err := regexp.Compile(spec)
		if err != nil {
			return nil
		}
		for _, k := range ks {
			if re.MatchString(k.addr()) || re.MatchString(k.label()) {
				m = append(m, k)
			}
		}
		return m
	}
	sign := func(x *mc.X, w world, spec, pass string, form string) toolRun {
		args := []string{"sign"}
		switch form {
		case "hex":
			args = append(args, "-x")
		case "json":
			args = append(args, "-j")
		case "hashed":
			args = append(args, "-x", "-h")
		case "prefix":
			args = append(args, "-x", "-prefix", "before ")
		}
		args = append(args, filepath.Join(w.dir, "msg"))
		env := []string{"HOME=" + w.dir, "KEY_PATH=" + w.env, "ETHER_ADDR=" + spec, "PATH=/nonexistent"}
		x.Step()
		return toolPass("eth", env, pass, args...)
	}
	judge := func(x *mc.X, w world, spec, pass, form string, hash []byte) {
		t := sign(x, w, spec, pass, form)
		m := matching(w.ks, spec)
		where := fmt.Sprintf("keys %v in %s, ETHER_ADDR=%q, passphrase %q", w.ks, strings.ReplaceAll(w.env, w.dir, ""), spec, pass)
		if t.crashed() || t.code == -1 {
			x.Failf("crash", "%s: %v", where, t)
		}
		if len(m) != 1 || m[0].pass != pass {
			if t.code == 0 || t.out != "" {
				who := ""
				if t.out != "" {
					who = toolSigner(x, t.out, form, hash)
				}
				x.Failf("not-refused", "%s: signed by %s: %v", where, who, t)
			}
			x.Outcome("refused")
		} else {
			if t.code != 0 {
				x.Failf("refused", "%s: %v", where, t)
			}
			if who := toolSigner(x, t.out, form, hash); who != m[0].addr() {
				x.Failf("wrong-key", "%s: signed by %s instead of %s", where, who, m[0].addr())
			}
			x.Outcome("signed")
		}
		x.Validated()
	}
	h := refKeccak(msg)
	r.Explore(mc.Opts{Name: "selection", Budget: -1, Bound: fmt.Sprintf("%d ordered sets of up to 3 of %d keys x %d specifications, the passphrase of the key that matches, or of the last one", len(sets), len(keys), len(specs))}, func(x *mc.X) {
		set := sets[x.Choose(len(sets))]
		spec := specs[x.Choose(len(specs))]
		var ks []c36Key
		for _, i := range set {
			ks = append(ks, keys[i])
		}
		m := matching(ks, spec)
		pass := []string{}
		switch {
		case len(m) == 1:
			pass = []string{m[0].pass}
		case len(ks) > 0:
			pass = []string{ks[len(ks)-1].pass}
		default:
			pass = []string{"pa"}
		}
		w := lay(ks, 0, false)
		defer os.RemoveAll(w.dir)
		for _, p := range pass {
			judge(x, w, spec, p, "hex", h)
		}
		if len(m) > 0 {
			x.Case(fmt.Sprint(set), spec)
			x.Sample(map[string]interface{}{"keys": fmt.Sprint(ks), "spec": spec, "matching": len(m)})
		}
	})
	var three [][]int
	for _, s := range sets {
		if len(s) == 3 || r.Thorough && len(s) == 2 {
			three = append(three, s)
		}
	}
	r.Explore(mc.Opts{Name: "directories", Budget: -1, Bound: fmt.Sprintf("%d ordered sets in one or two directories, with and without files that are no keys; the right passphrase and another key's; each key by name and address, and an ambiguous specification", len(three))}, func(x *mc.X) {
		set := three[x.Choose(len(three))]
		var ks []c36Key
		for _, i := range set {
			ks = append(ks, keys[i])
		}
		layout := x.Choose(3)
		clutter := x.Bool()
		k := ks[x.Choose(len(ks))]
		spec := []string{"^" + k.label() + "$", k.addr(), "i"}[x.Choose(3)]
		pass := k.pass
		if spec == k.addr() && x.Bool() {
			pass = ks[(x.Choose(2)+1+int(k.d))%len(ks)].pass
		}
		w := lay(ks, layout, clutter)
		defer os.RemoveAll(w.dir)
		judge(x, w, spec, pass, "hex", h)
		x.Case(fmt.Sprint(set), spec, pass, fmt.Sprint(layout, clutter))
	})
	// key files that do not state their address (as keygen writes them), or
	// state another key's
	anon := []string{"111", "key", "^key 2$", "one", "aaaa", "[12]", "^same$", keys[0].addr(), keys[1].addr(), "^" + keys[2].addr() + "$"}
	r.Explore(mc.Opts{Name: "unnamed", Budget: -1, Bound: fmt.Sprintf("every ordered pair and triple of key files that state their address, state none, or state another's, with the same or different names or ids only x %d specifications", len(anon))}, func(x *mc.X) {
		n := 1 + x.Choose(3)
		spec := anon[x.Choose(len(anon))]
		d := dirFor()
		defer os.RemoveAll(d)
		dir := filepath.Join(d, "one")
		os.Mkdir(dir, 0755)
		type file struct{ claim, label string }
		var fs []file
		var ks []c36Key
		names := [][]string{{"key 1", "key 2", "key 3"}, {"same", "same", "one"}, {"", "", ""}}[x.Choose(3)]
		desc := ""
		for i := 0; i < n; i++ {
			k := keys[i]
			k.name = names[i]
			k.id = keys[i].id
			claim := ""
			switch x.Choose([]int{0, 3, 3, 2}[n]) {
			case 1:
				claim = k.addr()
			case 2:
				claim = keys[(i+1)%len(keys)].addr()
			}
			ks = append(ks, k)
			toolKeyAddr(dir, fmt.Sprintf("UTC--%d", i), k.name, k.id, k.pass, k.d, strings.TrimPrefix(claim, "0x"))
			fs = append(fs, file{claim, k.label()})
			desc += fmt.Sprintf(" [%q %q claims %q]", k.name, k.id, claim)
		}
		os.WriteFile(filepath.Join(d, "msg"), msg, 0644)
		re := regexp.MustCompile(spec)
		var m []int
		for i, f := range fs {
			if f.claim != "" && re.MatchString(f.claim) || re.MatchString(f.label) {
				m = append(m, i)
			}
		}
		pass := ks[n-1].pass
		if len(m) > 0 {
			// more than one may match: any of them would be wrong
			pass = ks[m[x.Choose(len(m))]].pass
		}
		w := world{dir: d, env: dir, ks: ks}
		t := sign(x, w, spec, pass, "hex")
		if t.crashed() || t.code == -1 {
			x.Failf("crash", "keys%s, ETHER_ADDR=%q: %v", desc, spec, t)
		}
		if len(m) != 1 || fs[m[0]].claim != "" && fs[m[0]].claim != ks[m[0]].addr() {
			if t.code == 0 || t.out != "" {
				x.Failf("not-refused", "keys%s, ETHER_ADDR=%q matches %d of them, passphrase %q: %v", desc, spec, len(m), pass, t)
			}
			x.Outcome("refused")
		} else {
			if t.code != 0 {
				x.Failf("refused", "keys%s, ETHER_ADDR=%q: %v", desc, spec, t)
			}
			if who := toolSigner(x, t.out, "hex", h); who != ks[m[0]].addr() {
				x.Failf("wrong-key", "keys%s, ETHER_ADDR=%q: signed by %s instead of %s", desc, spec, who, ks[m[0]].addr())
			}
			x.Outcome("signed")
		}
		x.Case(desc, spec, pass)
		x.Validated()
	})
	r.Explore(mc.Opts{Name: "forms", Bound: "every output form of sign, hashed and prefixed input, every key first, middle and last"}, func(x *mc.X) {
		i, j := x.Choose(len(keys)), x.Choose(3)
		form := []string{"raw", "hex", "json", "hashed", "prefix"}[x.Choose(5)]
		var ks []c36Key
		for n := 0; n < 3; n++ {
			ks = append(ks, keys[(i+n-j+len(keys)+len(keys))%len(keys)])
		}
		w := lay(ks, 0, false)
		defer os.RemoveAll(w.dir)
		hash := h
		switch form {
		case "hashed":
			os.WriteFile(filepath.Join(w.dir, "msg"), h, 0644)
		case "prefix":
			hash = refKeccak(append([]byte("before "), msg...))
		}
		judge(x, w, keys[i].addr(), keys[i].pass, form, hash)
		x.Case(fmt.Sprint(i, j, form))
	})
	// names that contain one another, and names longer than an id
	long := "the key of the account that pays for everything"
	near := []c36Key{
		{"pay", "66666666-cccc-4000-8000-000000000006", 1006, "pf"},
		{"pay2", "77777777-cccc-4000-8000-000000000007", 1007, "pg"},
		{"a pay", "88888888-cccc-4000-8000-000000000008", 1008, "ph"},
		{long, "99999999-cccc-4000-8000-000000000009", 1009, "pi"},
	}
	nspecs := []string{"pay", "^pay$", "pay2", "a pay", "^pay", "pay$", "^a", long, "^" + long + "$", "that pays", "everything$", "9999", "66666666-cccc-4000-8000-000000000006", near[0].addr(), near[3].addr()}
	places := []string{"one", "a,b", "with space", "ключи", "d.json"}
	r.Explore(mc.Opts{Name: "near names", Bound: fmt.Sprintf("every ordered set of up to 3 of 4 keys whose names contain one another or are long x %d specifications; the directory named %q, the files themselves or links to them", len(nspecs), places)}, func(x *mc.X) {
		n := 1 + x.Choose(3)
		var ks []c36Key
		left := append([]c36Key(nil), near...)
		for i := 0; i < n; i++ {
			j := x.Choose(len(left))
			ks = append(ks, left[j])
			left = append(append([]c36Key(nil), left[:j]...), left[j+1:]...)
		}
		si := x.Choose(len(nspecs))
		spec := nspecs[si]
		place, link := 0, false
		if n == 1 {
			place = x.Choose(len(places))
			link = x.Bool()
		} else if n == 2 {
			link = x.Bool()
		}
		d := dirFor()
		defer os.RemoveAll(d)
		dir, store := filepath.Join(d, places[place]), filepath.Join(d, "store")
		os.Mkdir(dir, 0755)
		os.Mkdir(store, 0755)
		for i, k := range ks {
			file := fmt.Sprintf("UTC--%d", i)
			if link && i == len(ks)-1 {
				toolKey(store, file, k.name, k.id, k.pass, k.d)
				os.Symlink(filepath.Join(store, file), filepath.Join(dir, file))
			} else {
				toolKey(dir, file, k.name, k.id, k.pass, k.d)
			}
		}
		os.WriteFile(filepath.Join(d, "msg"), msg, 0644)
		m := matching(ks, spec)
		pass := ks[n-1].pass
		if len(m) > 0 {
			// more than one may match: any of them would be wrong
			pass = m[x.Choose(len(m))].pass
		}
		judge(x, world{dir: d, env: dir, ks: ks}, spec, pass, "hex", h)
		x.Case(fmt.Sprint(ks, place, link), spec, pass)
	})
	// what is not to be signed
	r.Explore(mc.Opts{Name: "refusals", Bound: "hashed input of 0, 1, 31, 33, 64 and 66 bytes; hashed input with a prefix; two output forms at once; no input, two inputs, one that is not there, a directory"}, func(x *mc.X) {
		w := lay(keys[:1], 0, false)
		defer os.RemoveAll(w.dir)
		in := filepath.Join(w.dir, "msg")
		var args []string
		switch k := x.Choose(14); {
		case k < 6:
			n := []int{0, 1, 31, 33, 64, 66}[k]
			body := append(append([]byte(nil), h...), make([]byte, 40)...)[:n]
			if n == 33 {
				body[32] = '\n'
			}
			if n == 64 || n == 66 {
				body = []byte(("0x" + hex.EncodeToString(h))[66-n:])
			}
			os.WriteFile(in, body, 0644)
			args = []string{"-h", in}
		case k == 6:
			os.WriteFile(in, h, 0644)
			args = []string{"-h", "-prefix", "before ", in}
		case k == 7:
			args = []string{"-x", "-j", in}
		case k == 8:
			args = []string{}
		case k == 9:
			args = []string{in, in}
		case k == 10:
			args = []string{filepath.Join(w.dir, "none")}
		case k == 11:
			args = []string{w.dir}
		case k == 12:
			args = []string{"-h", in} // the message itself is no hash
		case k == 13:
			args = []string{in, "-x"}
		}
		x.Step()
		t := toolPass("eth", []string{"HOME=" + w.dir, "KEY_PATH=" + w.env, "ETHER_ADDR=" + keys[0].addr(), "PATH=/nonexistent"}, keys[0].pass, append([]string{"sign"}, args...)...)
		if t.crashed() || t.code == 0 || t.out != "" {
			x.Failf("not-refused", "sign %q: %v", args, t)
		}
		x.Outcome("refused")
		x.Case(args...)
		x.Validated()
	})
	node := newToolNode()
	defer node.close()
	r.Explore(mc.Opts{Name: "transactions", Bound: "`eth call` with every key first, middle and last of three, whose files state their address or none"}, func(x *mc.X) {
		i, j := x.Choose(len(keys)), x.Choose(3)
		si := x.Choose(3)
		spec := []string{keys[i].addr(), "^" + keys[i].label() + "$", "i"}[si]
		var ks []c36Key
		for n := 0; n < 3; n++ {
			ks = append(ks, keys[(i+n-j+len(keys)+len(keys))%len(keys)])
		}
		w := lay(ks, 0, false)
		defer os.RemoveAll(w.dir)
		stated := true
		if si > 0 && x.Bool() {
			stated = false
			for n, k := range ks {
				toolKeyAddr(w.env, fmt.Sprintf("UTC--%d", n), k.name, k.id, k.pass, k.d, "")
			}
		}
		m := matching(ks, spec)
		cw := &c35World{node: node}
		var froms, raws []string
		t, url := node.talk(func(method string, p []interface{}) (string, string) {
			switch method {
			case "eth_getTransactionCount":
				froms = append(froms, fmt.Sprint(p[0]))
				return `"0x1"`, ""
			case "eth_estimateGas":
				return `"0x5208"`, ""
			case "eth_sendRawTransaction":
				raws = append(raws, fmt.Sprint(p[0]))
				return `"0x` + strings.Repeat("5a", 32) + `"`, ""
			}
			return "", "no"
		})
		defer node.done(url)
		x.Step()
		pass := keys[i].pass
		if len(m) == 1 {
			pass = m[0].pass
		}
		res := toolPass("eth", []string{"SETH_URL=" + url, "HOME=" + w.dir, "KEY_PATH=" + w.env, "ETHER_ADDR=" + spec, "PATH=/nonexistent"}, pass, "call", "-f", keys[0].addr(), "f()")
		_, _, txs := cw.sent(x, []string{"call"}, t)
		if len(m) != 1 {
			if res.code == 0 || len(txs) > 0 {
				x.Failf("not-refused", "keys %v, ETHER_ADDR=%q: %v, %d transactions sent", ks, spec, res, len(txs))
			}
			x.Outcome("refused")
		} else {
			if res.code != 0 || len(txs) != 1 {
				x.Failf("refused", "keys %v, ETHER_ADDR=%q: %v, %d transactions sent", ks, spec, res, len(txs))
			}
			who := senderOf(txs[0])
			if who != m[0].addr() {
				x.Failf("wrong-key", "keys %v, ETHER_ADDR=%q: the transaction is signed by %s instead of %s", ks, spec, who, m[0].addr())
			}
			for _, f := range froms {
				if !strings.EqualFold(f, who) {
					x.Failf("wrong-account", "keys %v, ETHER_ADDR=%q: the nonce of %s was asked for", ks, spec, f)
				}
			}
			x.Outcome("signed")
		}
		x.Case(fmt.Sprint(i, j, stated), spec)
		x.Validated()
	})
}
