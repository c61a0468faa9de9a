// fakesolc stands in for the Solidity compiler. Its "language" is one
// statement per line:
//
//	contract N   a contract N; its code is the hex of "N|file|body"
//	big N S      like contract N, with as many bytes of code as S says
//	rand N S     like big, with bytes that look random
//	abi N C J    a contract N with the hex code C and the ABI J (JSON without spaces)
//	warn M       a warning
//	error M      an error
//	rev          source ids are given in reverse order
//	unlinked     a contract whose code has an unresolved library in it
//	junk         the output is no JSON
//	cut          the output is cut in the middle
//	die          the compiler fails after its output
//
// Every run appends a line to $FAKESOLC_LOG.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
)

func main() {
	in, _ := io.ReadAll(os.Stdin)
	if f, err := os.OpenFile(os.Getenv("FAKESOLC_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666); err == nil {
		f.WriteString("run\n")
		f.Close()
	}
	var blob struct {
		Language string
		Sources  map[string]struct{ Content string }
	}
	if err := json.Unmarshal(in, &blob); err != nil || blob.Language != "Solidity" || len(os.Args) != 2 || os.Args[1] != "--standard-json" {
		fmt.Println(`{"errors":[{"type":"JSONError","message":"bad input","formattedMessage":"bad input"}]}`)
		return
	}
	var names []string
	all := ""
	for n, s := range blob.Sources {
		names = append(names, n)
		all += "\n" + s.Content + "\n"
	}
	sort.Strings(names)
	ids := map[string]int{}
	for i, n := range names {
		ids[n] = i
		if strings.Contains(all, "\nrev\n") {
			ids[n] = len(names) - 1 - i
		}
	}
	type m map[string]interface{}
	var errs []m
	contracts := m{}
	srcs := m{}
	for _, n := range names {
		body := blob.Sources[n].Content
		srcs[n] = m{"id": ids[n]}
		cs := m{}
		for _, l := range strings.Split(body, "\n") {
			f := strings.Fields(l)
			if len(f) == 0 {
				continue
			}
			switch f[0] {
			case "contract", "big", "rand", "unlinked":
				name := "U"
				if len(f) > 1 {
					name = f[1]
				}
				code := hex.EncodeToString([]byte(name + "|" + n + "|" + body))
				if f[0] == "big" {
					k, _ := strconv.Atoi(f[2])
					code = strings.Repeat("5b", k)
				}
				if f[0] == "rand" {
					k, _ := strconv.Atoi(f[2])
					b := make([]byte, k)
					for i, v := 0, uint32(1); i < k; i++ {
						v = v*1664525 + 1013904223
						b[i] = byte(v >> 24)
					}
					code = hex.EncodeToString(b)
				}
				if f[0] == "unlinked" {
					code = "73__$b5e9a6f0ef1d9a1e0a3f3f3f3f3f3f3f3$__63"
				}
				cs[name] = m{
					"abi": []m{{"type": "function", "name": "f" + name, "payable": true, "stateMutability": "payable", "constant": false,
						"inputs":  []m{{"name": "a", "type": "uint256"}, {"name": "t", "type": "tuple", "components": []m{{"name": "x", "type": "bytes"}}}},
						"outputs": []m{{"name": "", "type": "address"}}},
						{"type": "event", "name": "E", "anonymous": true, "inputs": []m{{"name": "i", "type": "bool", "indexed": true}}}},
					"evm": m{"bytecode": m{"object": code, "sourceMap": fmt.Sprintf("0:%d:%d:-;;", len(body), ids[n])}},
				}
			case "abi":
				cs[f[1]] = m{"abi": json.RawMessage(f[3]), "evm": m{"bytecode": m{"object": strings.TrimPrefix(f[2], "0x"), "sourceMap": ""}}}
			case "warn":
				errs = append(errs, m{"type": "Warning", "message": l, "formattedMessage": n + ": " + l})
			case "error":
				errs = append(errs, m{"type": "TypeError", "message": l, "formattedMessage": n + ": " + l, "sourceLocation": m{"file": n, "start": 0, "end": 1}})
			}
		}
		if len(cs) > 0 {
			contracts[n] = cs
		}
	}
	out, _ := json.Marshal(m{"errors": errs, "sources": srcs, "contracts": contracts})
	switch {
	case strings.Contains(all, "\njunk\n"):
		out = []byte("Segmentation fault")
	case strings.Contains(all, "\ncut\n"):
		out = out[:len(out)/2]
	}
	os.Stdout.Write(out)
	if strings.Contains(all, "\ndie\n") {
		os.Exit(1)
	}
}
