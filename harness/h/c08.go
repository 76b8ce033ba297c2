package h

import (
	"os"
	"path/filepath"
	"strings"
	"time"

	homedir "github.com/mitchellh/go-homedir"
	"github.com/openrdap/rdap/bootstrap/cache"

	"verifharness/sym"
)

func init() {
	homedir.DisableCache = true
	All["C08_seq"] = Spec{F: C08_seq, Clock: true}
	All["C09_seq"] = Spec{F: C09_seq, Clock: true}
	All["C09_dir"] = Spec{F: C09_dir, Clock: true}
	All["C09_home"] = Spec{F: C09_home}
}

type saved struct {
	name  string
	data  string
	mtime int64
	ver   int
}

func secs(name string, max int) int64 {
	v := int64(sym.Byte(name))
	sym.Assume(v <= int64(max))
	return v
}

// subSec are the parts below a second, in milliseconds, that the clock and timeouts take.
var subSec = []int64{0, 500, 999, 1}

// advance moves the clock by symbolic seconds and a part below a second, and gives the milliseconds.
func advance() int64 {
	d := secs("adv", 9)
	if sym.Choice("long", 2) == 1 {
		d = d + 24*3600 - 4
	}
	sym.AdvanceSec(d)
	ms := d * 1000
	if sub := sym.Param("SUB", 0); sub > 0 {
		if s := subSec[sym.Choice("suba", sub)]; s != 0 {
			sym.AdvanceMs(s)
			ms += s
		}
	}
	return ms
}

func stateName(s cache.FileState) int { return int(s) }

// C08_seq: any sequence of saves, loads, timeout changes and clock advances.
func C08_seq() {
	m := cache.NewMemoryCache()
	nf := sym.Param("NF", 2)
	names := []string{text("n", 1), text("n", upTo("nlen", sym.Param("NL", 2)))}
	var st [2]*saved // by index of the first equal name
	same := sym.Fork(names[0] == names[1])
	idx := func(i int) int {
		if same {
			return 0
		}
		return i
	}
	// times in milliseconds: symbolic seconds and a part below a second
	now, timeout := int64(0), int64(24*3600*1000)
	if sub := sym.Param("SUB", 0); sub > 0 {
		now = subSec[sym.Choice("sub0", sub)]
		sym.AdvanceMs(now)
	}
	check := func() {
		for i := range names {
			g := st[idx(i)]
			s := m.State(names[i])
			b, err := m.Load(names[i])
			if g == nil {
				sym.Assert(s == cache.Absent, "state of a file never saved")
				sym.Assert(err != nil, "file never saved was loaded")
				continue
			}
			sym.Assert(err == nil, "saved file not loaded")
			sym.Assert(string(b) == g.data, "loaded bytes are not those last saved")
			if now <= g.mtime+timeout {
				sym.Cover("good")
				sym.Assert(s == cache.Good, "state not good although the timeout has not elapsed")
			} else {
				sym.Cover("expired")
				sym.Assert(s == cache.Expired, "state not expired although the timeout has elapsed")
			}
			for j := range b {
				b[j] ^= 0x55 // the caller owns what it loaded
			}
		}
	}
	k := sym.Param("K", 3)
	for i := 0; i < k; i++ {
		switch sym.Choice("op", 4) {
		case 0, 1:
			f := sym.Choice("file", nf)
			d := []byte(bytesN("d", upTo("dlen", sym.Param("DL", 2))))
			g := &saved{data: string(d), mtime: now}
			err := m.Save(names[f], d)
			sym.Assert(err == nil, "save failed")
			for j := range d {
				d[j] ^= 0xff // the caller may reuse its buffer
			}
			st[idx(f)] = g
		case 2:
			timeout = secs("timeout", 8) * 1000
			if sub := sym.Param("SUB", 0); sub > 0 {
				timeout += subSec[sym.Choice("subt", sub)]
			}
			m.SetTimeout(time.Duration(timeout) * time.Millisecond)
		case 3:
			now += advance()
		}
		check()
	}
}

// C09_seq: several caches and a foreign writer on one directory.
func C09_seq() {
	dir := filepath.Join(sym.Dir(), "deep", "cache")
	nc := 2
	var cs []*cache.DiskCache
	for i := 0; i < nc; i++ {
		c := cache.NewDiskCache()
		c.Dir = dir
		cs = append(cs, c)
	}
	nf := sym.Param("NF", 2)
	files := []string{"dns.json", "asn.json"}[:nf]
	var st [2]*saved
	var seenVer [2][2]int // by cache, file
	var seenAt [2][2]int64
	now, ver := int64(0), 0
	tmo := []int64{24 * 3600 * 1000, 24 * 3600 * 1000}
	opened := len(sym.Opened())
	if sub := sym.Param("SUB", 0); sub > 0 {
		now = subSec[sym.Choice("sub0", sub)]
		sym.AdvanceMs(now)
	}
	k := sym.Param("K", 3)
	for i := 0; i < k; i++ {
		switch op := sym.Choice("op", 5); op {
		case 0, 1: // save through a cache, or a foreign write
			f := sym.Choice("file", nf)
			d := bytesN("d", upTo("dlen", 1+f))
			ver++
			g := &saved{data: d, mtime: now, ver: ver}
			if op == 0 {
				c := sym.Choice("cache", nc)
				buf := []byte(d)
				sym.Assert(cs[c].Save(files[f], buf) == nil, "save failed")
				for j := range buf {
					buf[j] ^= 0xff
				}
				seenVer[c][f], seenAt[c][f] = ver, now
			} else {
				if _, err := os.Stat(dir); err != nil {
					return
				}
				sym.Assert(os.WriteFile(filepath.Join(dir, files[f]), []byte(d), 0o600) == nil, "foreign write")
				sym.SyncFS()
			}
			st[f] = g
		case 2: // load
			c, f := sym.Choice("cache", nc), sym.Choice("file", nf)
			b, err := cs[c].Load(files[f])
			if st[f] == nil {
				sym.Assert(err != nil, "a file nobody saved was loaded")
				break
			}
			sym.Cover("loaded")
			sym.Assert(err == nil, "saved file not loaded")
			sym.Assert(string(b) == st[f].data, "loaded bytes are not those last saved")
			seenVer[c][f], seenAt[c][f] = st[f].ver, st[f].mtime
		case 3:
			now += advance()
		case 4:
			f := sym.Choice("what", nf+1)
			if f == nf {
				c := sym.Choice("cache", nc)
				tmo[c] = secs("timeout", 8) * 1000
				if sub := sym.Param("SUB", 0); sub > 0 {
					tmo[c] += subSec[sym.Choice("subt", sub)]
				}
				cs[c].SetTimeout(time.Duration(tmo[c]) * time.Millisecond)
				break
			}
			if st[f] == nil {
				return
			}
			sym.Assert(os.Remove(filepath.Join(dir, files[f])) == nil, "remove")
			st[f] = nil
		}
		for c := range cs {
			for f := range files {
				s := cs[c].State(files[f])
				g := st[f]
				switch {
				case g == nil:
					sym.Assert(s == cache.Absent, "state of a missing file is not absent")
				case now-g.mtime >= tmo[c]:
					sym.Cover("expired")
					sym.Assert(s == cache.Expired, "a file as old as the timeout is not expired")
				case seenVer[c][f] == g.ver:
					sym.Cover("good")
					sym.Assert(s == cache.Good, "the version this cache has seen is not good")
				case seenVer[c][f] == 0 || seenAt[c][f] < g.mtime:
					sym.Cover("reload")
					sym.Assert(s == cache.ShouldReload, "a newer version by another cache is not reported")
				default: // rewritten by another within the clock's resolution
					sym.Assert(s == cache.ShouldReload || s == cache.Good, "state")
				}
			}
		}
	}
	for c := range cs {
		for f := range files {
			b, err := cs[c].Load(files[f])
			if st[f] == nil {
				sym.Assert(err != nil, "a file nobody saved was loaded")
			} else {
				sym.Assert(err == nil, "saved file not loaded")
				sym.Assert(string(b) == st[f].data, "loaded bytes are not those last saved")
			}
		}
	}
	for _, p := range sym.Opened()[opened:] {
		sym.Assert(p == dir || strings.HasPrefix(p, dir+"/"), "a file outside the cache directory was opened")
	}
	onlyInside(dir, files)
}

// onlyInside: nothing but the cache directory was created.
func onlyInside(dir string, files []string) {
	top, _ := os.ReadDir(sym.Dir())
	for _, e := range top {
		sym.Assert(e.Name() == "deep" && e.IsDir(), "something was created outside the cache directory")
	}
	mid, _ := os.ReadDir(filepath.Dir(dir))
	for _, e := range mid {
		sym.Assert(e.Name() == filepath.Base(dir) && e.IsDir(), "something was created outside the cache directory")
	}
	in, _ := os.ReadDir(dir)
	for _, e := range in {
		ok := false
		for _, f := range files {
			ok = ok || f == e.Name()
		}
		sym.Assert(ok, "stray file in the cache directory")
	}
}

// C09_dir: the directory is created on demand; obstacles are errors.
func C09_dir() {
	d := cache.NewDiskCache()
	base := filepath.Join(sym.Dir(), "deep")
	d.Dir = filepath.Join(base, "cache")
	data := bytesN("d", 2)
	fault := sym.Choice("fault", 5)
	switch fault {
	case 1:
		sym.Assert(os.WriteFile(base, []byte("x"), 0o600) == nil, "setup")
	case 2:
		sym.Assert(os.MkdirAll(base, 0o700) == nil && os.WriteFile(d.Dir, []byte("x"), 0o600) == nil, "setup")
	case 3:
		sym.Assert(os.MkdirAll(filepath.Join(d.Dir, "dns.json"), 0o700) == nil, "setup")
	case 4:
		sym.Assert(os.MkdirAll(d.Dir, 0o700) == nil, "setup")
	}
	sym.SyncFS()
	if fault != 3 {
		sym.Assert(d.State("dns.json") == cache.Absent, "state before anything was saved")
	}
	_, err := d.Load("dns.json")
	sym.Assert(err != nil, "loaded a file nobody saved")
	if sym.Choice("init", 2) == 1 {
		made, err := d.InitDir()
		switch fault {
		case 0:
			sym.Assert(made && err == nil, "directory not created")
		case 3, 4:
			sym.Assert(!made && err == nil, "existing directory reported as created")
		default:
			sym.Assert(!made && err != nil, "impossible directory reported as usable")
		}
	}
	err = d.Save("dns.json", []byte(data))
	if fault == 0 || fault == 4 {
		sym.Cover("saved")
		sym.Assert(err == nil, "save failed")
		b, err := d.Load("dns.json")
		sym.Assert(err == nil && string(b) == data, "loaded bytes are not those saved")
		sym.Assert(d.State("dns.json") == cache.Good, "state after save")
		onlyInside(d.Dir, []string{"dns.json"})
		// the directory disappears
		sym.Assert(os.RemoveAll(d.Dir) == nil, "setup")
		sym.SyncFS()
		sym.Assert(d.State("dns.json") == cache.Absent, "state after the file disappeared")
		_, err = d.Load("dns.json")
		sym.Assert(err != nil, "loaded a file that is gone")
		sym.Assert(d.Save("dns.json", []byte(data)) == nil, "save failed after the directory disappeared")
		b, err = d.Load("dns.json")
		sym.Assert(err == nil && string(b) == data, "loaded bytes are not those saved again")
		sym.Assert(d.State("dns.json") == cache.Good, "state after saving again")
	} else {
		sym.Cover("refused")
		sym.Assert(err != nil, "save reported success")
		_, err := d.Load("dns.json")
		sym.Assert(err != nil, "loaded although nothing was saved")
		if fault != 3 {
			sym.Assert(d.State("dns.json") == cache.Absent, "state after a failed save")
		}
	}
}

// C09_home: the default directory.
func C09_home() {
	x := []string{"", "rel/dir", "~/.cache", sym.Dir() + "/xdg", "."}[sym.Choice("xdg", 5)]
	tail := text("t", upTo("tlen", 2))
	for i := range tail {
		sym.Assume(tail[i] > ' ')
		sym.Assume(tail[i] != '.')
	}
	sym.Assert(os.Setenv("XDG_CACHE_HOME", x+tail) == nil, "setup")
	xx := x + tail
	d := cache.NewDiskCache()
	want := sym.Dir() + "/home/.cache/openrdap"
	if len(xx) > 0 && xx[0] == '/' {
		want = filepath.Join(xx, "openrdap")
	}
	sym.Assert(d.Dir == want, "default cache directory")
	sym.Assert(d.Timeout == 24*time.Hour, "default timeout")
	sym.Assert(os.Setenv("XDG_CACHE_HOME", "") == nil, "setup")
}
