package roundmon

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"time"

	"aaa.vmon/mon"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/core-go/pkg/network"
	rsync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// bigCommittee has one real party among so many that identifiers need both bytes. The monitor plays
// the others. Faulty rounds have failing peers.
func bigCommittee(c *mon.Ctx, n, me, id int, faulty bool) {
	desc := fmt.Sprintf("party %d of %d, the monitor plays the others", me, n)
	defer c.Begin("%s", desc)()
	r := c.Rng("big", n, me)
	lead := 300 * time.Millisecond
	for try := 0; try < 8; try, lead = try+1, 2*lead {
		nw := simnet.New(simnet.Opts{N: n, Seed: r.Int63(), Raw: true})
		s := rsync.NewServer(uint16(me), uint16(n), time.Now().Add(lead), simnet.RoundDuration, nw.Server(uint16(me)))
		s.Start()
		type end struct{ in, out network.Connection }
		peers := make([]end, n)
		fail := make(chan error, 2*n)
		for p := range peers {
			if p == me {
				continue
			}
			go func(p int) {
				var err error
				if peers[p].out, err = nw.Server(uint16(p)).Dial(uint16(me)); err == nil {
					peers[p].out.Write([]byte{byte(p), byte(p >> 8)})
					err = peers[p].out.Flush()
				}
				fail <- err
				peers[p].in, err = nw.Server(uint16(p)).Listen()
				if err == nil {
					h := make([]byte, 2)
					if _, err = io.ReadFull(peers[p].in, h); err == nil && int(h[0])+int(h[1])<<8 != me {
						err = fmt.Errorf("party %d introduces itself as %x", me, h)
					}
				}
				fail <- err
			}(p)
		}
		for i := 0; i < 2*(n-1); i++ {
			if err := <-fail; err != nil {
				nw.Down()
				c.Violate("start", "%s\n%v", desc, err)
				return
			}
		}
		late := false
		gone := map[int]bool{}
		for rd := 0; rd < 5 && !late; rd++ {
			faults := map[int]int{}
			if faulty && rd > 0 {
				for i := 0; i < 6; i++ {
					faults[r.Intn(n)] = 1 + r.Intn(4)
				}
				faults[n-1-r.Intn(3)] = 1 + r.Intn(4)
			}
			var send [][]byte
			if rd%2 == 0 {
				send = [][]byte{payload(int64(id), me, -1, rd, 50)}
			} else {
				for q := 0; q < n; q++ {
					send = append(send, payload(int64(id), me, q, rd, 20+q%7))
				}
			}
			type result struct {
				err error
				got map[int][][]byte
			}
			done := make(chan result, 1)
			go func() {
				got := map[int][][]byte{}
				err := s.Round(send, func(pid uint16, data []byte) error {
					got[int(pid)] = append(got[int(pid)], append([]byte{}, data...))
					if faults[int(pid)] == 1 {
						return errors.New("rejected")
					}
					return nil
				})
				done <- result{err, got}
			}()
			for p := range peers {
				if p == me || gone[p] {
					continue
				}
				b := simnet.RawFrame(uint16(p), int64(rd), payload(int64(id), p, me, rd, 12+p%50))
				switch faults[p] {
				case 2:
					b = simnet.RawFrame(uint16(p^256), int64(rd), b[18:])
				case 3:
					b = simnet.RawFrame(uint16(p), int64(rd)+256, b[18:])
				case 4:
					b = b[:15]
				}
				peers[p].out.Write(b)
				peers[p].out.Flush()
				if faults[p] == 4 {
					// the peer stops sending, but is still there to receive
					nw.CutLink(uint16(p), uint16(me))
				}
			}
			res := <-done
			mon.Tick()
			if rd == 0 && res.err != nil && len(res.got) == 0 {
				late = true // too slow for the start time
				break
			}
			var want []int
			for p := range peers {
				if p == me {
					continue
				}
				ok := !gone[p] && faults[p] <= 1
				if !ok || faults[p] == 1 {
					want = append(want, p)
				}
				calls := res.got[p]
				if ok && len(calls) != 1 || !ok && len(calls) != 0 {
					c.Violate("calls", "%s\nround %d: %d check calls for party %d (fault %d)", desc, rd, len(calls), p, faults[p])
				} else if ok && !bytes.Equal(calls[0], payload(int64(id), p, me, rd, 12+p%50)) {
					c.Violate("bytes", "%s\nround %d: wrong data of party %d: %x", desc, rd, p, head(calls[0]))
				}
				if faults[p] == 4 {
					gone[p] = true
				}
			}
			missing, _ := missingOf(res.err)
			if len(want) == 0 && res.err != nil || len(want) > 0 && fmt.Sprint(missing) != fmt.Sprint(want) {
				c.Violate("missing", "%s\nround %d: missing %v, has to be %v: %v", desc, rd, missing, want, res.err)
			}
			// what the others got
			for p := range peers {
				if p == me {
					continue
				}
				w := simnet.RawFrame(uint16(me), int64(rd), send[0])
				if len(send) > 1 {
					w = simnet.RawFrame(uint16(me), int64(rd), send[p])
				}
				b := make([]byte, len(w))
				if _, err := io.ReadFull(peers[p].in, b); err != nil || !bytes.Equal(b, w) {
					c.Violate("sent", "%s\nround %d: party %d was sent %x (%v), has to be %x", desc, rd, p, head(b), err, head(w))
					break
				}
			}
			c.Eval("big/%d/%d/%d", n, me, rd)
			c.Count("rounds_in_large_committees", 1)
			if c.Violated() {
				break
			}
		}
		nw.Down()
		if !late {
			return
		}
	}
	c.Violate("start", "%s\nno start within time", desc)
}
