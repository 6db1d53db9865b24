package network

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"
)

func mockListen(t *testing.T, a string) net.Listener {
	l, err := new(netMockTcp).Listen("tcp", a)
	if err != nil {
		t.Fatal(err)
	}
	return l
}

// connect dials a and returns both ends; the ends must be accepted by l.
func connect(t *testing.T, l net.Listener, a string) (net.Conn, net.Conn) {
	acc := make(chan net.Conn, 1)
	go func() {
		c, _ := l.Accept()
		acc <- c
	}()
	d := make(chan net.Conn, 1)
	go func() {
		c, err := new(netMockTcp).Dial("tcp", a)
		if err != nil {
			c = nil
		}
		d <- c
	}()
	var x, y net.Conn
	for x == nil || y == nil {
		select {
		case x = <-d:
			if x == nil {
				t.Fatalf("dialling %s fails", a)
			}
		case y = <-acc:
		case <-time.After(5 * time.Second):
			t.Fatalf("dialling %s does not reach the listener", a)
		}
	}
	return x, y
}

func readAll(c net.Conn, rnd *rand.Rand, n int) ([]byte, error) {
	var got []byte
	for len(got) < n {
		size := 1 + rnd.Intn(20)
		if rnd.Intn(4) == 0 {
			size = 1 + rnd.Intn(3000)
		}
		b := make([]byte, size)
		k, err := c.Read(b)
		if err != nil {
			return got, err
		}
		if k < 0 || k > size {
			return got, fmt.Errorf("%d bytes read into %d", k, size)
		}
		got = append(got, b[:k]...)
		for i := range b { // the reader does with its buffer what it likes
			b[i] = 0xff
		}
	}
	return got, nil
}

func TestWitnessC20Bytes(t *testing.T) {
	for seed := int64(1); seed <= 60; seed++ {
		rnd := rand.New(rand.NewSource(seed))
		reset()
		l := mockListen(t, "127.0.0.1:4000")
		x, y := connect(t, l, "127.0.0.1:4000")
		ends := [2]net.Conn{x, y}
		var wg sync.WaitGroup
		errs := make(chan string, 10)
		for w := 0; w < 2; w++ { // both directions at once
			var pieces [][]byte
			var all []byte
			for i := 0; i < 30; i++ {
				n := rnd.Intn(50)
				switch rnd.Intn(6) {
				case 0:
					n = 0
				case 1:
					n = 1000 + rnd.Intn(30000)
				}
				p := make([]byte, n)
				rnd.Read(p)
				if n == 0 && rnd.Intn(2) == 0 {
					p = nil
				}
				pieces = append(pieces, p)
				all = append(all, p...)
			}
			wg.Add(2)
			go func(c net.Conn) {
				defer wg.Done()
				buf := make([]byte, 40000)
				for _, p := range pieces {
					b := buf[:copy(buf, p)]
					if p == nil {
						b = nil
					}
					n, err := c.Write(b)
					if n != len(p) || err != nil {
						errs <- fmt.Sprintf("writing %d bytes: %d, %v", len(p), n, err)
					}
					for i := range buf { // the buffer is used for something else
						buf[i] = 0xee
					}
				}
				c.Close()
			}(ends[w])
			go func(c net.Conn, r *rand.Rand) {
				defer wg.Done()
				got, err := readAll(c, r, len(all))
				if err != nil || !bytes.Equal(got, all) {
					errs <- fmt.Sprintf("%d bytes read, %d written, the same: %v, error: %v", len(got), len(all), bytes.Equal(got, all), err)
				}
				done := make(chan error, 1)
				go func() {
					for {
						n, err := c.Read(make([]byte, 10))
						if n > 0 || err != nil {
							if n > 0 {
								err = nil
							}
							done <- err
							return
						}
					}
				}()
				select {
				case err := <-done:
					if err == nil {
						errs <- "more read than written"
					}
				case <-time.After(2 * time.Second):
					errs <- "the end is not reported"
				}
			}(ends[1-w], rand.New(rand.NewSource(seed*10+int64(w))))
		}
		fin := make(chan bool)
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(20 * time.Second):
			t.Fatalf("seed %d: reading or writing blocks", seed)
		}
		select {
		case s := <-errs:
			t.Fatalf("seed %d: %s", seed, s)
		default:
		}
	}
}

func TestWitnessC20Dial(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	hosts := []string{"127.0.0.1", "0.0.0.0", "localhost", "10.0.0.7", "[::1]", "[fe80::1:2]", ""}
	for round := 0; round < 20; round++ {
		reset()
		ports := []string{"4", "40", "400", "4000", "40000", "14000", "4001", "00400"}
		ls := map[string]net.Listener{}
		addr := func(p string) string { return hosts[rnd.Intn(len(hosts))] + ":" + p }
		for _, i := range rnd.Perm(len(ports)) {
			ls[ports[i]] = mockListen(t, addr(ports[i]))
		}
		if round%3 == 2 { // registered again
			ls["400"] = mockListen(t, addr("400"))
		}
		seen := map[string]bool{}
		for i := 0; i < 40; i++ {
			p := ports[rnd.Intn(len(ports))]
			x, y := connect(t, ls[p], addr(p))
			if seen[x.LocalAddr().String()] {
				t.Fatalf("two connections from %s", x.LocalAddr())
			}
			seen[x.LocalAddr().String()] = true
			msg := []byte(fmt.Sprint("hello ", i))
			x.Write(msg)
			b := make([]byte, 100)
			if n, err := y.Read(b); err != nil || string(b[:n]) != string(msg) {
				t.Fatalf("port %s: read %q, %v", p, b[:n], err)
			}
			if x.RemoteAddr().String() != "0.0.0.0:"+p || y.LocalAddr().String() != "0.0.0.0:"+p || y.RemoteAddr().String() != x.LocalAddr().String() {
				t.Fatalf("port %s: addresses %s-%s and %s-%s", p, x.LocalAddr(), x.RemoteAddr(), y.LocalAddr(), y.RemoteAddr())
			}
		}
	}
}

// Many dial and listen at once; every connection carries its own bytes.
func TestWitnessC20Concurrent(t *testing.T) {
	reset()
	var wg sync.WaitGroup
	errs := make(chan string, 100)
	for i := 0; i < 12; i++ {
		wg.Add(1)
		go func(p string) {
			defer wg.Done()
			l, _ := new(netMockTcp).Listen("tcp", ":"+p)
			for k := 0; k < 5; k++ {
				acc := make(chan net.Conn, 1)
				go func() { c, _ := l.Accept(); acc <- c }()
				x, err := new(netMockTcp).Dial("tcp", "127.0.0.1:"+p)
				if err != nil {
					errs <- err.Error()
					return
				}
				y := <-acc
				y.Write([]byte(p))
				b := make([]byte, 10)
				if n, _ := x.Read(b); string(b[:n]) != p {
					errs <- fmt.Sprintf("port %s: %q", p, b[:n])
				}
			}
		}(fmt.Sprint(5000 + i))
	}
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(20 * time.Second):
		t.Fatal("dialling blocks")
	}
	select {
	case s := <-errs:
		t.Fatal(s)
	default:
	}
}
