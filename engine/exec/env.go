package exec

import "strings"

// Environment functions replaced by the Go models in verifharness/model.
func init() {
	os := func(pre string, names string, as string) {
		for _, n := range strings.Fields(names) {
			redirects[pre+n] = redirect{modelPkg, as + n}
		}
	}
	os("os.", "Stat Mkdir MkdirAll OpenFile Open Create CreateTemp MkdirTemp ReadFile WriteFile Remove RemoveAll Rename Chtimes Chmod Truncate ReadDir Getenv LookupEnv Setenv Unsetenv UserHomeDir UserCacheDir", "")
	redirects["os.Lstat"] = redirect{modelPkg, "Stat"}
	os("(*os.File).", "Name Read Write WriteString Close Sync Chmod Stat Seek Truncate", "File")
	redirects["time.Now"] = redirect{modelPkg, "Now"}
	redirects["time.AfterFunc"] = redirect{modelPkg, "AfterFunc"}
	redirects["(*time.Timer).Stop"] = redirect{modelPkg, "TimerStop"}
	redirects["crypto/sha256.New"] = redirect{modelPkg, "NewSHA256"}
	redirects["crypto/sha1.New"] = redirect{modelPkg, "NewSHA1"}
	redirects["crypto/md5.New"] = redirect{modelPkg, "NewMD5"}
	redirects["golang.org/x/crypto/pkcs12.ToPEM"] = redirect{modelPkg, "ToPEM"}
	redirects["crypto/tls.X509KeyPair"] = redirect{modelPkg, "X509KeyPair"}
	redirects["crypto/tls.LoadX509KeyPair"] = redirect{modelPkg, "LoadX509KeyPair"}
	redirects["(*net/http.Transport).RoundTrip"] = redirect{symPkg, "RoundTrip"}
	for _, n := range strings.Fields("Dir SyncFS Opened AdvanceMs") {
		redirects[symPkg+"."+n] = redirect{modelPkg, n}
	}
}
