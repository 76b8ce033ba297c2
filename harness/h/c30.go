package h

import (
	"net/http"
	"strings"

	"github.com/openrdap/rdap"

	"verifharness/sym"
)

func init() {
	All["C30_timeout"] = Spec{F: C30_timeout, Clock: true}
	All["C30_ttl"] = Spec{F: C30_ttl, Clock: true}
}

// number draws a decimal number of 1..n digits.
func number(name string, n int) (string, int64) {
	k := 1 + upTo(name+"digits", n-1)
	s, v := "", int64(0)
	for i := 0; i < k; i++ {
		b := sym.Byte(name)
		if i == 0 {
			sym.Assume(sym.And(b >= '1', b <= '9'))
		} else {
			sym.Assume(sym.And(b >= '0', b <= '9'))
		}
		s += string([]byte{b})
		v = v*10 + int64(b-'0')
	}
	return s, v
}

// C30_timeout: the time limit covers bootstrapping and query together.
func C30_timeout() {
	limit := int64(30)
	args := []string{"--cache-dir="}
	// either the limit or the delays are arbitrary
	delay := func() int64 { return int64(sym.U16("d")) }
	switch sym.Choice("opt", 7) {
	case 1:
		s, v := number("t", sym.Param("ND", 3))
		args = append(args, "--timeout="+s)
		limit = v
		delay = func() int64 { return []int64{0, 7, 31, 400}[sym.Choice("d", 4)] }
	case 2:
		args = append(args, "-T", "7")
		limit = 7
	case 3:
		args = append(args, "--timeout=65535")
		limit = 65535
	case 4:
		args = append(args, "--timeout", "1")
		limit = 1
	case 5:
		args = append(args, "-T300")
		limit = 300
	case 6:
		args = append(args, "--timeout=0")
		limit = 0
	}
	how := sym.Choice("boot", 3)
	boot := how > 0
	if boot {
		args = append(args, "example.com")
	} else {
		args = append(args, "-s", "https://h", "-t", "domain", "x")
	}
	total := int64(0)
	expired := false
	c := runCLI(rdap.CLIOptions{}, func(t *transport, r *http.Request) (*http.Response, error) {
		sym.Assert(!expired, "went on after the time limit")
		d := delay()
		sym.AdvanceSec(d)
		total += d
		sym.Assume(total != limit)
		expired = sym.Fork(total > limit)
		err := r.Context().Err()
		sym.Assert((err != nil) == expired, "the time limit is not the one asked for")
		if err != nil {
			return nil, err
		}
		if how == 2 {
			// the first server is broken, the second one works
			if len(t.reqs) == 2 {
				return t.resp(503, []byte("{}"), nil), nil
			}
			return bootReply("")(t, r)
		}
		return mixed(t, r)
	}, args...)
	n := 1 + how
	if expired {
		sym.Cover("expired")
		c.failed()
		return
	}
	sym.Cover("in time")
	sym.Assert(len(c.w.reqs) == n && c.code == 0, "query not made")
}

// C30_ttl: how long a cached registry is used by later runs.
func C30_ttl() {
	cacheHome()
	ttl := int64(3600)
	var args []string
	delay := func() int64 { return int64(sym.U16("d")) }
	switch sym.Choice("opt", 6) {
	case 5:
		args = append(args, "--bs-ttl=0")
		ttl = 0
	case 1:
		s, v := number("s", sym.Param("ND", 3))
		args = append(args, "--bs-ttl="+s)
		ttl = v
		delay = func() int64 { return []int64{0, 50, 3601}[sym.Choice("d", 3)] }
	case 2:
		args = append(args, "--bs-ttl", "8")
		ttl = 8
	case 4:
		args = append(args, "--bs-ttl=40000")
		ttl = 40000
	case 3:
		args = append(args, "--bs-ttl=4294967295")
		ttl = 4294967295
	}
	if sym.Choice("dir", 2) == 1 {
		args = append(args, "--cache-dir="+sym.Dir()+"/mine")
	}
	args = append(args, "example.com")
	age := int64(0)
	for run := 0; run < sym.Param("K", 3); run++ {
		c := runCLI(rdap.CLIOptions{}, func(t *transport, r *http.Request) (*http.Response, error) {
			p, err := mixed(t, r)
			if strings.HasSuffix(r.URL.Path, ".json") {
				sym.SyncFS()
			}
			return p, err
		}, args...)
		sym.SyncFS()
		fresh := run > 0 && sym.Fork(age < ttl)
		sym.Assert(c.code == 0, "query not made")
		if fresh {
			sym.Cover("cached")
			sym.Assert(len(c.w.reqs) == 1, "a registry still fresh was downloaded again")
		} else {
			sym.Cover("downloaded")
			sym.Assert(len(c.w.reqs) == 2, "a stale registry was used")
			age = 0
		}
		d := delay()
		sym.AdvanceSec(d)
		age += d
		sym.Assume(age != ttl)
	}
}
