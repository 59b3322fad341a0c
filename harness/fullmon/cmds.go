package fullmon

import (
	"bytes"
	crand "crypto/rand"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"aaa.vmon/mon"
	"github.com/binance-chain/tss-lib/crypto/paillier"
)

// C26, C27 and C28 run the programs of cmd.
var (
	C26 = &mon.Monitor{
		Rule:    "one evaluation is one party's entry in the files written by one run of the key generator, for committees of 2 to 40, and of 300, parties, with default and given addresses, fresh and used directories: the private-key file holds the index and N, lambda, phi such that decryption by an independent implementation and by the library inverts encryption with the listed public key, keys are pairwise coprime, and addresses are as given; distinct by run and party",
		MinEval: 150,
		Run:     runC26,
	}
	C27 = &mon.Monitor{
		Level:   "fault_enumeration",
		Rule:    "one evaluation is one run of the node program with one configuration: well-formed ones have to make it connect to its peers (which the monitor plays), malformed ones (every truncation point of the key file by class, changed lengths, bad base64, missing, negative, too large and overlong indices, malformed and missing committee lines, addresses, options, files and directories) have to end it by itself, with a message in its log, without a panic and without any connection; randomly changed files must not make it panic or hang; distinct by configuration",
		MinEval: 300,
		Run:     runC27,
	}
	C28 = &mon.Monitor{
		Rule:    "one evaluation is one node process of a committee started over TCP with generated files and a common start time: it ends by itself with success, logs every requested presignature and signature once and in order, and no error; in some committees, processes are killed while signing: the others have to end the same way if the threshold is left, and log errors if not; in some they are killed while presigning: the others have to log an error and end with a failure; distinct by committee size, threshold, number of signatures and party",
		MinEval: 40,
		Run:     runC28,
	}
)

func command(c *mon.Ctx, name string) string {
	d := os.Getenv("VMON_CMDS")
	if d == "" {
		c.Fatal("VMON_CMDS is not set")
	}
	return filepath.Join(d, name)
}

// execute runs a program in a directory until it ends, stop is closed, or time is over.
func execute(dir string, stop <-chan bool, name string, args ...string) (code int, ended bool, out string) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	started := make(chan error, 1)
	done := make(chan error, 1)
	quit := make(chan bool)
	go func() {
		// the death signal is tied to the thread that starts the process
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		err := cmd.Start()
		started <- err
		if err == nil {
			done <- cmd.Wait()
		}
		<-quit
	}()
	defer close(quit)
	if err := <-started; err != nil {
		return -1, false, err.Error()
	}
	t := time.After(120 * time.Second)
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-done:
			mon.Tick()
			return cmd.ProcessState.ExitCode(), true, b.String()
		case <-stop:
			cmd.Process.Kill()
			<-done
			mon.Tick()
			return -1, false, b.String()
		case <-t:
			cmd.Process.Signal(syscall.SIGKILL)
			<-done
			return -1, false, b.String()
		case <-tick.C:
			mon.Tick() // the deadline above is the watchdog
		}
	}
}

func scratch(c *mon.Ctx) (string, func()) {
	d, err := os.MkdirTemp(os.Getenv("VMON_DIR"), "cmd-")
	if err != nil {
		c.Fatal("%v", err)
	}
	return d, func() { os.RemoveAll(d) }
}

type keyFile struct {
	n, lambda, phi *big.Int
	pid            int
}

func field(b []byte) ([]byte, []byte, error) {
	if len(b) < 2 {
		return nil, nil, io.ErrUnexpectedEOF
	}
	l := int(binary.LittleEndian.Uint16(b))
	if len(b) < 2+l {
		return nil, nil, io.ErrUnexpectedEOF
	}
	return b[2 : 2+l], b[2+l:], nil
}

// readKey is an independent reader of private-key files.
func readKey(text string) (*keyFile, error) {
	w := strings.Fields(text)
	if len(w) != 2 {
		return nil, fmt.Errorf("%d words", len(w))
	}
	b, err := base64.StdEncoding.DecodeString(w[0])
	if err != nil {
		return nil, err
	}
	k := &keyFile{}
	for _, x := range []**big.Int{&k.n, &k.lambda, &k.phi} {
		var f []byte
		if f, b, err = field(b); err != nil {
			return nil, err
		}
		*x = new(big.Int).SetBytes(f)
	}
	if len(b) > 0 {
		return nil, fmt.Errorf("%d bytes left", len(b))
	}
	k.pid, err = strconv.Atoi(w[1])
	return k, err
}

// works tells whether the key decrypts what is encrypted with n, computed here.
func (k *keyFile) works(r *rand.Rand, n *big.Int, m *big.Int) bool {
	n2 := mul(n, n)
	var x *big.Int
	for {
		x = new(big.Int).Rand(r, n)
		if new(big.Int).GCD(nil, nil, x, n).Cmp(bi(1)) == 0 {
			break
		}
	}
	g := add(n, bi(1))
	ct := mul(new(big.Int).Exp(g, m, n2), new(big.Int).Exp(x, n, n2))
	ct.Mod(ct, n2)
	l := func(u *big.Int) *big.Int { return new(big.Int).Div(sub(u, bi(1)), k.n) }
	inv := new(big.Int).ModInverse(l(new(big.Int).Exp(g, k.lambda, n2)), k.n)
	if inv == nil {
		return false
	}
	d := mul(l(new(big.Int).Exp(ct, k.lambda, n2)), inv)
	if d.Mod(d, k.n).Cmp(m) != 0 {
		return false
	}
	// and by the library, with every field of the key
	pk := &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: k.n}, LambdaN: k.lambda, PhiN: k.phi}
	d, err := pk.Decrypt(ct)
	return err == nil && d.Cmp(m) == 0
}

func runC26(c *mon.Ctx) {
	gen := command(c, "gen_keys")
	sizes := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 40}
	n := c.Pick(40, 300)
	c.Parallel(n, 6, func(i int) {
		r := c.Rng("run", i)
		size := sizes[i%len(sizes)]
		if i >= len(sizes) {
			size = 2 + r.Intn(8)
		}
		if i >= n-2 {
			size = c.Pick(300, 1100)
		}
		dir, clean := scratch(c)
		defer clean()
		given := i%2 == 1
		used := i%3 == 2
		desc := fmt.Sprintf("run %d: %d parties, addresses given: %v, directory used before: %v", i, size, given, used)
		defer c.Begin("%s", desc)()
		if used {
			// an earlier, larger committee
			if code, _, out := execute(dir, nil, gen, fmt.Sprint(size+3)); code != 0 {
				c.Violate("failed", "%s\nexit %d: %s", desc, code, out)
				return
			}
			// whose files were longer
			for p := 0; p < size+3; p += 1 + r.Intn(2) {
				name := filepath.Join(dir, fmt.Sprintf("%d.pk", p))
				if p == 0 {
					name = filepath.Join(dir, "keys_addrs")
				}
				f, err := os.OpenFile(name, os.O_APPEND|os.O_WRONLY, 0)
				if err != nil {
					continue
				}
				f.WriteString(strings.Repeat("an earlier line|host:1\n", 20+r.Intn(200*size)))
				f.Close()
			}
		}
		var want []string
		args := []string{fmt.Sprint(size)}
		if given {
			var lines []string
			for p := 0; p < size+r.Intn(3)*(i%4/3); p++ {
				a := fmt.Sprintf("%d.%d.%d.%d:%d", r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(256), 1+r.Intn(65535))
				switch r.Intn(6) {
				case 2:
					// labels have up to 63 letters, names up to 253
					a = strings.Repeat("h", 1+r.Intn(63))
					for len(a) < 180 && r.Intn(4) > 0 {
						a += "." + strings.Repeat(string(rune('a'+r.Intn(26))), 1+r.Intn(63))
					}
					a += fmt.Sprintf(":%d", 1+r.Intn(65535))
				case 0:
					a = fmt.Sprintf("host-%d.example.org:%d", r.Intn(1000), 1+r.Intn(65535))
				case 1:
					a = fmt.Sprintf("[fe80::%x]:%d", r.Intn(65536), 1+r.Intn(65535))
				}
				lines = append(lines, a)
			}
			text := strings.Join(lines, "\n")
			if r.Intn(2) == 0 {
				text += "\n"
			}
			if err := os.WriteFile(filepath.Join(dir, "addresses"), []byte(text), 0o644); err != nil {
				c.Fatal("%v", err)
			}
			args = append(args, "addresses")
			want = lines[:size]
		} else {
			for p := 0; p < size; p++ {
				want = append(want, fmt.Sprintf("127.0.0.1:%d", 10000+p))
			}
		}
		code, ended, out := execute(dir, nil, gen, args...)
		if !ended || code != 0 {
			c.Violate("failed", "%s\nended %v, exit %d: %s", desc, ended, code, out)
			return
		}
		b, err := os.ReadFile(filepath.Join(dir, "keys_addrs"))
		if err != nil {
			c.Violate("committee", "%s\n%v", desc, err)
			return
		}
		lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if len(lines) != size {
			c.Violate("committee", "%s\nthe committee file has %d lines", desc, len(lines))
			return
		}
		var ns []*big.Int
		for p, l := range lines {
			j := strings.Index(l, "|")
			if j < 0 {
				c.Violate("committee", "%s\nline %d is %q", desc, p, l)
				return
			}
			nb, err := base64.StdEncoding.DecodeString(l[:j])
			if err != nil || l[j+1:] != want[p] {
				c.Violate("address", "%s\nline %d is %q (%v), want the address %s", desc, p, l, err, want[p])
				return
			}
			pub := new(big.Int).SetBytes(nb)
			kb, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%d.pk", p)))
			if err != nil {
				c.Violate("keyfile", "%s\n%v", desc, err)
				return
			}
			k, err := readKey(string(kb))
			if err != nil {
				c.Violate("keyfile", "%s\nkey file %d: %v: %q", desc, p, err, kb)
				return
			}
			c.Eval("%d/%d", i, p)
			if k.pid != p {
				c.Violate("index", "%s\nkey file %d holds the index %d", desc, p, k.pid)
			}
			if k.n.Cmp(pub) != 0 {
				c.Violate("pair", "%s\nparty %d: the modulus of the key file is %x, of the committee file %x", desc, p, k.n, pub)
				return
			}
			ms := []*big.Int{bi(0), bi(1), sub(pub, bi(1)), new(big.Int).Rand(r, pub), new(big.Int).Rand(r, pub)}
			for _, m := range ms {
				if !k.works(r, pub, m) {
					c.Violate("decrypt", "%s\nparty %d: the key %x, %x, %x does not decrypt %x", desc, p, k.n, k.lambda, k.phi, m)
					return
				}
				c.Count("decryptions", 1)
			}
			// phi is the order of the group: a multiple of lambda that is nearly as long as N
			x := new(big.Int).Rand(r, pub)
			if new(big.Int).GCD(nil, nil, x, pub).Cmp(bi(1)) == 0 && new(big.Int).Exp(x, k.phi, pub).Cmp(bi(1)) != 0 || k.phi.Cmp(pub) >= 0 || mul(k.phi, bi(4)).Cmp(pub) < 0 || new(big.Int).Mod(k.phi, k.lambda).Sign() != 0 {
				c.Violate("phi", "%s\nparty %d: phi %x does not belong to N %x, lambda %x", desc, p, k.phi, k.n, k.lambda)
			}
			for q, o := range ns {
				if new(big.Int).GCD(nil, nil, o, pub).Cmp(bi(1)) != 0 {
					c.Violate("same", "%s\nthe moduli of parties %d and %d share a factor: %x, %x", desc, q, p, o, pub)
				}
			}
			ns = append(ns, pub)
		}
		c.Count("committees", 1)
		if i < 4 {
			c.Sample("%s", desc)
		}
	})
}

// peer plays the other parties: it accepts connections and says so.
type peer struct {
	l    net.Listener
	seen chan bool
	once sync.Once
}

func newPeer(c *mon.Ctx) *peer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Fatal("%v", err)
	}
	p := &peer{l: l, seen: make(chan bool)}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			p.once.Do(func() { close(p.seen) })
			defer conn.Close()
		}
	}()
	return p
}

type config struct {
	what  string
	bad   bool // certainly malformed
	good  bool // certainly well-formed
	pk    string
	comm  string
	noPk  bool
	noCom bool
	args  map[string]string
	extra []string
}

func runC27(c *mon.Ctx) {
	gen, node := command(c, "gen_keys"), command(c, "tecdsa")
	dir, clean := scratch(c)
	defer clean()
	const size = 4
	if code, _, out := execute(dir, nil, gen, fmt.Sprint(size)); code != 0 {
		c.Violate("failed", "the key generator ends with %d: %s", code, out)
		return
	}
	var pks []string
	for p := 0; p < size; p++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%d.pk", p)))
		if err != nil {
			c.Violate("failed", "%v", err)
			return
		}
		pks = append(pks, string(b))
	}
	b, err := os.ReadFile(filepath.Join(dir, "keys_addrs"))
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if err != nil || len(lines) != size {
		c.Violate("failed", "the committee file is %q, %v", b, err)
		return
	}
	var keys []string
	for _, l := range lines {
		keys = append(keys, strings.Split(l, "|")[0])
	}
	start := time.Now().Add(time.Hour).UTC().Format(time.UnixDate)
	start = strings.ReplaceAll(start, " ", "-")
	r := c.Rng("configs")
	raw := func(s string) []byte { b, _ := base64.StdEncoding.DecodeString(strings.Fields(s)[0]); return b }
	enc := base64.StdEncoding.EncodeToString
	var cfgs []config
	base := func(what string) config {
		return config{what: what, pk: pks[0], comm: "", args: map[string]string{}}
	}
	// the addresses of the peers are put in for PEER1 and so on
	committee := func(n int) string {
		s := ""
		for p := 0; p < n; p++ {
			s += keys[p%size] + "|"
			if p == 0 {
				s += "127.0.0.1:0\n"
			} else {
				s += fmt.Sprintf("PEER%d\n", p)
			}
		}
		return s
	}
	comm := committee(3)
	addC := func(f func(*config), what string, a ...interface{}) {
		x := base(fmt.Sprintf(what, a...))
		x.comm = comm
		f(&x)
		cfgs = append(cfgs, x)
	}
	bad := func(f func(*config), what string, a ...interface{}) {
		addC(func(x *config) { x.bad = true; f(x) }, what, a...)
	}
	good := func(f func(*config), what string, a ...interface{}) {
		addC(func(x *config) { x.good = true; f(x) }, what, a...)
	}
	good(func(x *config) {}, "as generated")
	for n := 2; n <= 4; n++ {
		good(func(x *config) { x.comm = committee(n) }, "committee of %d", n)
		for p := 0; p < n; p++ {
			good(func(x *config) {
				x.comm = committee(n)
				x.comm = strings.Replace(x.comm, "127.0.0.1:0", "SELF", 1)
				x.comm = strings.Replace(x.comm, fmt.Sprintf("PEER%d\n", p), "127.0.0.1:0\n", 1)
				x.comm = strings.Replace(x.comm, "SELF", map[bool]string{true: "127.0.0.1:0", false: "PEER9"}[p == 0], 1)
				x.pk = pks[p]
			}, "party %d of %d", p, n)
		}
		for t := 1; t <= n; t++ {
			good(func(x *config) { x.comm = committee(n); x.args["-threshold"] = fmt.Sprint(t) }, "threshold %d of %d", t, n)
		}
		bad(func(x *config) { x.comm = committee(n); x.args["-threshold"] = fmt.Sprint(n + 1) }, "threshold %d of %d", n+1, n)
	}
	// large committees: one other party is there, the ports of the others are closed
	for _, n := range []int{17, 20, 33, 65, 129, 150, 257, 300, 1000} {
		for _, p := range []int{0, n / 2, n - 1, n * 2 / 3} {
			s := ""
			for q := 0; q < n; q++ {
				a := "127.0.0.1:1"
				if q == p {
					a = "127.0.0.1:0"
				} else if q == (p+n/3)%n {
					a = "PEER1"
				}
				s += keys[q%size] + "|" + a + "\n"
			}
			pk := fmt.Sprintf("%s %d\n", strings.Fields(pks[p%size])[0], p)
			good(func(x *config) { x.comm, x.pk = s, pk; x.args["-threshold"] = fmt.Sprint(n/2 + 1) }, "party %d of %d", p, n)
			if p == 0 {
				bad(func(x *config) {
					x.comm, x.pk = s, pk
					x.args["-threshold"] = fmt.Sprint(n + 1)
				}, "threshold %d of %d", n+1, n)
				for _, q := range []int{n, n + 1, n + 256, n + 65536, -n} {
					bad(func(x *config) { x.comm, x.pk = s, strings.Fields(pks[0])[0]+fmt.Sprintf(" %d\n", q) }, "index %d of %d", q, n)
				}
			}
		}
	}
	// one peer is there, the address of the other is of another kind and nobody is there
	for _, a := range []string{"[::1]:1", "[2001:db8::5:1]:9000", "localhost:1", "node-2.example.org:9000", "0.0.0.0:1", "127.0.0.1:65535"} {
		good(func(x *config) { x.comm = strings.Replace(x.comm, "PEER2", a, 1) }, "the address of a peer is %s", a)
	}
	// ... or is none that can be dialled, which would keep the node waiting for ever
	for _, a := range []string{"127.0.0.1:port", "127.0.0.1:99999", "127.0.0.1:-1", "127.0.0.1:", ":", "127.0.0.1:65536", "[::1:1", "2001:db8::5:1:9000", "a:b:1", "127.0.0.1:1:1", "127.0.0.1:0x10", "127.0.0.1:1.5"} {
		bad(func(x *config) { x.comm = strings.Replace(x.comm, "PEER2", a, 1) }, "the address of the last peer is %s", a)
		bad(func(x *config) { x.comm = strings.Replace(strings.Replace(x.comm, "PEER1", a, 1), "PEER2", "PEER1", 1) }, "the address of the first peer is %s", a)
	}
	// keys of usual lengths, which are longer than those of the key generator
	for _, bits := range []int{1024, 2048, 3072} {
		a, erra := crand.Prime(crand.Reader, bits/2)
		b, errb := crand.Prime(crand.Reader, bits/2)
		if erra != nil || errb != nil {
			c.Fatal("%v, %v", erra, errb)
		}
		n := mul(a, b)
		a, b = sub(a, bi(1)), sub(b, bi(1))
		phi := mul(a, b)
		lambda := new(big.Int).Div(phi, new(big.Int).GCD(nil, nil, a, b))
		var d []byte
		for _, x := range []*big.Int{n, lambda, phi} {
			d = append(d, byte(len(x.Bytes())), byte(len(x.Bytes())>>8))
			d = append(d, x.Bytes()...)
		}
		good(func(x *config) {
			x.pk = enc(d) + " 0\n"
			x.comm = strings.Replace(x.comm, keys[0], enc(n.Bytes()), 1)
		}, "a key of %d bits", bits)
		for _, cut := range []int{1, len(phi.Bytes()), len(phi.Bytes()) + 1, len(phi.Bytes()) + 3, len(d) / 2} {
			bad(func(x *config) {
				x.pk = enc(d[:len(d)-cut]) + " 0\n"
				x.comm = strings.Replace(x.comm, keys[0], enc(n.Bytes()), 1)
			}, "a key of %d bits without its last %d bytes", bits, cut)
		}
	}
	for _, s := range []string{"1", "2", "1000000"} {
		good(func(x *config) { x.args["-sigNumber"] = s }, "%s signatures", s)
	}
	good(func(x *config) { x.comm = strings.TrimSuffix(x.comm, "\n") }, "committee without the last newline")
	good(func(x *config) { x.pk = strings.TrimSuffix(x.pk, "\n") }, "key without the last newline")
	for _, s := range []string{"0", "-1", "-1000000", "x", "", "1.5", "99999999999999999999", "1e3"} {
		bad(func(x *config) { x.args["-sigNumber"] = s }, "number of signatures %q", s)
	}
	for _, s := range []string{"0", "-1", "4", "65536", "65537", "65538", "131073", "-65535", "x", "", "4294967297", "99999999999999999999"} {
		bad(func(x *config) { x.args["-threshold"] = s }, "threshold %q", s)
	}
	for _, s := range []string{"", "x", "tomorrow", "2020-01-01", "Mon-Jan--2-15:04:05-2006", "Mon-Foo-22-15:04:05-UTC-2030", "Fri-Feb-31-15:04:05-UTC-2031", "Mon-Jan-22-25:04:05-UTC-2030"} {
		bad(func(x *config) { x.args["-startTime"] = s }, "start time %q", s)
	}
	for _, s := range []string{"", "x", "5", "5 seconds", "5x", "--"} {
		bad(func(x *config) { x.args["-roundDuration"] = s }, "round duration %q", s)
	}
	bad(func(x *config) { x.extra = []string{"-nosuchoption", "1"} }, "unknown option")
	bad(func(x *config) { x.args["-pk"] = "" }, "no key file named")
	bad(func(x *config) { x.args["-keys_addrs"] = "" }, "no committee file named")
	bad(func(x *config) { x.args["-pk"] = "nosuchfile" }, "missing key file")
	bad(func(x *config) { x.args["-keys_addrs"] = "nosuchfile" }, "missing committee file")
	bad(func(x *config) { x.args["-pk"] = "." }, "a directory as key file")
	bad(func(x *config) { x.args["-keys_addrs"] = "." }, "a directory as committee file")
	bad(func(x *config) { x.args["-pk"] = "keys_addrs" }, "the committee file as key file")
	bad(func(x *config) { x.args["-keys_addrs"] = "me.pk" }, "the key file as committee file")
	// the key file
	full := pks[0]
	key := strings.Fields(full)[0]
	for _, s := range []string{"", "\n", " ", "\n\n\n", "\x00", key, key + "\n", key + " ", " 0", "0", "0 0", key + " x", key + " 0x0", key + " 1.0", key + " -", key + " 99999999999999999999999", "!!!! 0", "==== 0", key[:len(key)-1] + " 0", key[1:] + " 0"} {
		s := s
		bad(func(x *config) { x.pk = s }, "key file %.30q... of %d bytes", s, len(s))
	}
	for _, s := range []string{"-1", "3", "4", "65535", "65536", "65537", "-65536", "4294967296", "-9223372036854775808", "9223372036854775807"} {
		bad(func(x *config) { x.pk = key + " " + s + "\n" }, "index %s", s)
	}
	rb := raw(full)
	for cut := 0; cut < len(rb); cut++ {
		if c.Quick && cut > 8 && cut < len(rb)-8 && cut%7 > 0 {
			continue
		}
		bad(func(x *config) { x.pk = enc(rb[:cut]) + " 0\n" }, "key payload truncated to %d of %d bytes", cut, len(rb))
	}
	for cut := 0; cut < len(full)-2; cut++ {
		if c.Quick && cut%9 > 0 {
			continue
		}
		bad(func(x *config) { x.pk = full[:cut] }, "key file truncated to %d of %d bytes", cut, len(full))
	}
	lenN := int(binary.LittleEndian.Uint16(rb))
	for _, at := range []int{0, 2 + lenN} {
		for _, l := range []uint16{65535, 32768, uint16(len(rb)), uint16(len(rb) - 1)} {
			d := append([]byte{}, rb...)
			binary.LittleEndian.PutUint16(d[at:], l)
			bad(func(x *config) { x.pk = enc(d) + " 0\n" }, "length at %d of the key payload is %d", at, l)
		}
	}
	// numbers that are zero
	{
		nums, at := [3][]byte{}, 0
		for i := range nums {
			l := int(binary.LittleEndian.Uint16(rb[at:]))
			nums[i] = rb[at+2 : at+2+l]
			at += 2 + l
		}
		for mask := 1; mask < 8; mask++ {
			for _, z := range [][]byte{{}, {0}, make([]byte, 33)} {
				var d []byte
				for i, x := range nums {
					if mask>>uint(i)&1 == 1 {
						x = z
					}
					d = append(append(d, byte(len(x)), byte(len(x)>>8)), x...)
				}
				bad(func(x *config) { x.pk = enc(d) + " 0\n" }, "key with zeros of %d bytes instead of numbers (mask %d)", len(z), mask)
			}
		}
		for _, z := range []string{"AA==", "AAAA", enc(make([]byte, 33))} {
			for i := range keys[:3] {
				bad(func(x *config) { x.comm = strings.Replace(x.comm, keys[i], z, 1) }, "public key %d is %s", i, z)
			}
		}
	}
	bad(func(x *config) { x.pk = strings.Repeat("!", 200000) + " 0\n" }, "key file with a word of 200000 bytes that is no base64")
	// the committee file
	cl := strings.Split(strings.TrimSuffix(comm, "\n"), "\n")
	for _, s := range []string{"", "\n", cl[0], cl[0] + "\n", "\x00\n", "|", "|\n|\n", "a", "a|b:1|", strings.Repeat("x", 100000)} {
		s := s
		bad(func(x *config) { x.comm = s }, "committee file %.30q of %d bytes", s, len(s))
	}
	for _, n := range []int{65536, 70000, 1000000} {
		bad(func(x *config) { x.comm = comm + strings.Repeat("x", n) }, "%d bytes that are no committee line after a valid committee", n)
		bad(func(x *config) { x.comm = comm + strings.Repeat("x", n) + "\n" + comm }, "%d bytes that are no committee line between two valid committees", n)
	}
	for n := 2; n <= 3; n++ {
		for _, l := range []string{"x", "|", "!!!|127.0.0.1:1", keys[0] + "|127.0.0.1"} {
			bad(func(x *config) { x.comm = committee(n) + l }, "%q after a committee of %d", l, n)
			bad(func(x *config) { x.comm = committee(n) + l + "\n" }, "%q as a line after a committee of %d", l, n)
		}
	}
	for i := range cl {
		a := strings.Split(cl[i], "|")
		for _, l := range []string{a[0], a[0] + "|", "|" + a[1], a[1], "!!!|" + a[1], a[0][:len(a[0])-1] + "|" + a[1], a[0] + "|127.0.0.1", a[0] + "|localhost", "=" + cl[i], a[0] + "," + a[1], a[0] + " | " + a[1]} {
			m := append([]string{}, cl...)
			m[i] = l
			bad(func(x *config) { x.comm = strings.Join(m, "\n") + "\n" }, "committee line %d is %q", i, l)
		}
	}
	if len(lines) > 0 {
		bad(func(x *config) {
			x.comm = strings.Replace(comm, "127.0.0.1:0", "127.0.0.1:99999", 1)
		}, "own port out of range")
		bad(func(x *config) {
			x.comm = strings.Replace(comm, "127.0.0.1:0", "127.0.0.1:port", 1)
		}, "own port no number")
		bad(func(x *config) {
			x.comm = strings.Replace(comm, "127.0.0.1:0", "198.51.100.1:4000", 1)
		}, "own address of another machine")
	}
	// random changes: no panic, no hang
	for i := 0; i < c.Pick(150, 2500); i++ {
		addC(func(x *config) {
			mutate := func(s string) string {
				b := []byte(s)
				for k := 1 + r.Intn(4); k > 0 && len(b) > 0; k-- {
					p := r.Intn(len(b))
					switch r.Intn(5) {
					case 0:
						b[p] ^= 1 << uint(r.Intn(7))
					case 1:
						b = append(b[:p], b[p+1:]...)
					case 2:
						b = append(b[:p], append([]byte{"|: \n=A-0\x00\xff"[r.Intn(10)]}, b[p:]...)...)
					case 3:
						b = b[:p]
					case 4:
						q := r.Intn(len(b))
						b[p], b[q] = b[q], b[p]
					}
				}
				return string(b)
			}
			switch r.Intn(3) {
			case 0:
				x.pk = mutate(x.pk)
			case 1:
				d := raw(full)
				for k := 1 + r.Intn(3); k > 0; k-- {
					d[r.Intn(len(d))] = byte(r.Intn(256))
				}
				x.pk = enc(d) + " " + fmt.Sprint(r.Intn(5)-1)
			case 2:
				x.comm = mutate(x.comm)
			}
		}, "random change %d", i)
	}
	c.Parallel(len(cfgs), 10, func(i int) {
		x := cfgs[i]
		defer c.Begin("%s", x.what)()
		d, clean := scratch(c)
		defer clean()
		comm := x.comm
		stop := make(chan bool)
		var once sync.Once
		for _, m := range regexp.MustCompile(`PEER\d`).FindAllString(comm, -1) {
			p := newPeer(c)
			defer p.l.Close()
			comm = strings.Replace(comm, m, p.l.Addr().String(), 1)
			go func() {
				<-p.seen
				once.Do(func() { close(stop) })
			}()
		}
		os.WriteFile(filepath.Join(d, "me.pk"), []byte(x.pk), 0o644)
		os.WriteFile(filepath.Join(d, "keys_addrs"), []byte(comm), 0o644)
		args := map[string]string{"-pk": "me.pk", "-keys_addrs": "keys_addrs", "-startTime": start, "-roundDuration": "5s", "-sigNumber": "1", "-threshold": "1"}
		for k, v := range x.args {
			args[k] = v
		}
		var al []string
		for k, v := range args {
			al = append(al, k+"="+v)
		}
		al = append(al, x.extra...)
		code, ended, out := execute(d, stop, node, al...)
		lb, _ := os.ReadFile(filepath.Join(d, "aleph.log"))
		text := out + string(lb)
		connected := false
		select {
		case <-stop:
			connected = true
		default:
		}
		c.Eval("%s", x.what)
		desc := fmt.Sprintf("%s\narguments %q\nkey file %.300q\ncommittee file %.600q\nended %v with %d, connected %v, log:\n%.1500s", x.what, al, x.pk, comm, ended, code, connected, text)
		if strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:") || strings.Contains(text, "goroutine 1 [") {
			c.Violate("panic", "the node crashes\n%s", desc)
			return
		}
		switch {
		case connected:
			c.Count("started", 1)
		case ended:
			c.Count("refused", 1)
		}
		if !ended && !connected {
			c.Violate("hang", "the node neither ends nor starts\n%s", desc)
		}
		if ended && len(strings.TrimSpace(string(lb))) == 0 {
			c.Violate("silent", "the node ends without a message in its log\n%s", desc)
		}
		if x.bad && connected {
			c.Violate("started", "the node starts the protocol with a malformed configuration\n%s", desc)
		}
		if x.good && !connected {
			c.Violate("refused", "the node refuses a well-formed configuration\n%s", desc)
		}
		if i%(len(cfgs)/8+1) == 0 {
			c.Sample("%s: connected %v, log %.100q", x.what, connected, text)
		}
	})
}

// ports finds free ones.
func ports(c *mon.Ctx, n int) []int {
	var out []int
	var ls []net.Listener
	for len(out) < n {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Fatal("%v", err)
		}
		ls = append(ls, l)
		out = append(out, l.Addr().(*net.TCPAddr).Port)
	}
	for _, l := range ls {
		l.Close()
	}
	return out
}

func runC28(c *mon.Ctx) {
	r := c.Rng("kills")
	type job struct {
		n, t, sigs, kill int
		early            bool // killed while presigning
	}
	var jobs []job
	for n := 2; n <= c.Pick(4, 6); n++ {
		for t := 1; t <= n; t++ {
			jobs = append(jobs, job{n: n, t: t, sigs: 1 + (n+t)%3})
		}
	}
	jobs = append(jobs, job{n: 3, t: 2, sigs: 7}, job{n: 2, t: 1, sigs: 12}, job{n: 5, t: 3, sigs: 2}, job{n: 6, t: 4, sigs: 1}, job{n: 7, t: 7, sigs: 1})
	// nodes killed while the committee signs: the others have to go on if enough are left, and only then
	for n := 2; n <= c.Pick(4, 5); n++ {
		for t := 1; t <= n; t++ {
			jobs = append(jobs, job{n: n, t: t, sigs: 20, kill: 1 + r.Intn(n-1)})
			if t < n {
				jobs = append(jobs, job{n: n, t: t, sigs: 20, kill: n - t}, job{n: n, t: t, sigs: 20, kill: n - max(1, t-1)})
			}
		}
		// nodes killed while the committee presigns: every party is needed there, so the others have to give up
		jobs = append(jobs, job{n: n, t: 1 + r.Intn(n), sigs: 30, kill: 1 + r.Intn(n-1), early: true})
	}
	if !c.Quick {
		jobs = append(jobs, job{n: 3, t: 2, sigs: 60}, job{n: 9, t: 5, sigs: 1}, job{n: 8, t: 8, sigs: 2}, job{n: 12, t: 6, sigs: 1})
		jobs = append(jobs, jobs...)
	}
	c.Parallel(len(jobs), 3, func(i int) {
		j := jobs[i]
		desc := fmt.Sprintf("committee %d: %d parties, threshold %d, %d signatures, %d killed while signing", i, j.n, j.t, j.sigs, j.kill)
		if j.early {
			desc = strings.Replace(desc, "while signing", "while presigning", 1)
		}
		defer c.Begin("%s", desc)()
		lead := 3 * time.Second
		for try := 0; ; try++ {
			late := committeeRun(c, desc, j.n, j.t, j.sigs, j.kill, j.early, lead, try == 5, i)
			if !late {
				break
			}
			c.Count("retries", 1)
			lead *= 2
			if try == 5 {
				break
			}
		}
	})
}

// committeeRun runs one committee; it reports whether it has to be repeated because the machine was too slow or a port was taken.
func committeeRun(c *mon.Ctx, desc string, n, t, sigs, kill int, early bool, lead time.Duration, last bool, id int) (again bool) {
	dir, clean := scratch(c)
	defer clean()
	var text string
	for _, p := range ports(c, n) {
		text += fmt.Sprintf("127.0.0.1:%d\n", p)
	}
	if err := os.WriteFile(filepath.Join(dir, "addresses"), []byte(text), 0o644); err != nil {
		c.Fatal("%v", err)
	}
	if code, _, out := execute(dir, nil, command(c, "gen_keys"), fmt.Sprint(n), "addresses"); code != 0 {
		c.Violate("failed", "%s\nthe key generator ends with %d: %s", desc, code, out)
		return false
	}
	start := strings.ReplaceAll(time.Now().Add(lead).UTC().Format(time.UnixDate), " ", "-")
	type end struct {
		code  int
		ended bool
		log   string
	}
	ends := make([]end, n)
	// the last ones in a random order are killed
	order := c.Rng("order", id).Perm(n)
	victim := make([]bool, n)
	for _, p := range order[n-kill:] {
		victim[p] = true
	}
	stops := make([]chan bool, n)
	over := make(chan bool)
	for p := range stops {
		stops[p] = make(chan bool)
	}
	if kill > 0 {
		go func() {
			at := c.Rng("at", id).Intn(4)
			line := fmt.Sprintf("igning; round %d took", at)
			if early {
				line = fmt.Sprintf("presignature; round %d took", at)
			}
			for {
				select {
				case <-over:
					return
				case <-time.After(time.Millisecond):
				}
				b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("node%d", order[n-1]), "aleph.log"))
				if bytes.Contains(b, []byte(line)) {
					break
				}
			}
			for p := range stops {
				if victim[p] {
					close(stops[p])
				}
			}
		}()
	}
	var wg sync.WaitGroup
	for p := 0; p < n; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			d := filepath.Join(dir, fmt.Sprintf("node%d", p))
			os.Mkdir(d, 0o755)
			code, ended, out := execute(d, stops[p], command(c, "tecdsa"), "-pk", fmt.Sprintf("../%d.pk", p), "-keys_addrs", "../keys_addrs", "-startTime", start, "-roundDuration", "2s", "-sigNumber", fmt.Sprint(sigs), "-threshold", fmt.Sprint(t))
			lb, _ := os.ReadFile(filepath.Join(d, "aleph.log"))
			ends[p] = end{code, ended, out + string(lb)}
		}(p)
	}
	wg.Wait()
	close(over)
	for _, e := range ends {
		if strings.Contains(e.log, "start time has passed") || strings.Contains(e.log, "address already in use") {
			if !last {
				return true
			}
		}
	}
	left, done := n-kill, 0
	for p, e := range ends {
		if !victim[p] {
			continue
		}
		if e.ended && e.code == 0 {
			c.Count("killed_too_late", 1)
			return false
		}
		done = max(done, strings.Count(e.log, "igning; round"))
		if early && strings.Count(e.log, "presignature; round") > sigs-2 {
			c.Count("killed_too_late", 1)
			return false
		}
	}
	errRe := regexp.MustCompile(`(?i)\berror\b|\bwrong\b|panic|fatal`)
	for p, e := range ends {
		if victim[p] {
			continue
		}
		c.Eval("%d/%d/%d/%d/%d", id, n, t, sigs, p)
		if kill > 0 && left >= t && !early {
			c.Count("enough_left", 1)
		}
		what := fmt.Sprintf("%s\nparty %d: ended %v with %d, log:\n%.3000s", desc, p, e.ended, e.code, e.log)
		if !e.ended {
			c.Violate("hang", "%s", what)
			continue
		}
		if kill > 0 && (strings.Contains(e.log, "panic:") || strings.Contains(e.log, "fatal error:")) {
			c.Violate("crash", "a party crashes after others were killed\n%s", what)
			continue
		}
		if early {
			// a presignature needs everybody
			if !errRe.MatchString(e.log) || e.code == 0 {
				c.Violate("presigning", "a party was killed while the committee was presigning, and this one does not end with an error and a status other than 0\n%s", what)
			}
			c.Count("given_up", 1)
			continue
		}
		if kill > 0 && left < t {
			// too few to sign
			if es := strings.Count(e.log, "error during signing"); es < sigs-done-1 || es == 0 && sigs > done+1 {
				c.Violate("too-few", "%d parties of the needed %d are left after at most %d of %d signatures, but there are only %d errors\n%s", left, t, done+1, sigs, es, what)
			}
			c.Count("too_few_left", 1)
			continue
		}
		if e.code != 0 {
			c.Violate("failed", "%s", what)
			continue
		}
		if m := errRe.FindString(e.log); m != "" {
			c.Violate("error", "%q in the log\n%s", m, what)
			continue
		}
		pos := 0
		for _, kind := range []string{"presignature", "igning"} {
			for i := 0; i < sigs; i++ {
				re := regexp.MustCompile(fmt.Sprintf(`(?m)^.*%s.*\b%d\b took .*$`, kind, i))
				ms := re.FindAllStringIndex(e.log, -1)
				if len(ms) != 1 || ms[0][0] < pos {
					c.Violate("log", "%d lines for %s %d, or not in order\n%s", len(ms), kind, i, what)
					break
				}
				pos = ms[0][0]
			}
		}
		if n := len(regexp.MustCompile(`(?m)^.*(presignature|igning).* took .*$`).FindAllString(e.log, -1)); n != 2*sigs {
			c.Violate("log", "%d presignatures and signatures are logged instead of %d\n%s", n, 2*sigs, what)
		}
	}
	c.Count("committees", 1)
	c.Count("signatures", int64(sigs))
	if id < 6 || kill > 0 && id%5 == 0 {
		l := ends[order[0]].log
		c.Sample("%s: end of the log of party %d: %.300q", desc, order[0], l[max(0, len(l)-300):])
	}
	return false
}
