# Behaviour-preserving edits; the listed checks must stay quiet (mutrun.py -f refactors.py).
B = "bootstrap/"
ref("r-net-linear", "C01 C24", [(B+"net_registry.go", '''		index := sort.Search(len(nets), func(i int) bool {
			net := nets[i].Net
			return netContains(net, lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
		})

		if index == len(nets) || !netContains(nets[index].Net, lookupNet.IP) {
			continue
		}
''', '''		index := slices.IndexFunc(nets, func(e netEntry) bool { return netContains(e.Net, lookupNet.IP) })
		if index < 0 {
			continue
		}
'''), (B+"net_registry.go", '	"net/url"\n	"sort"\n', '	"net/url"\n	"slices"\n	"sort"\n'),
 (B+"net_registry.go", '''func netContains(n *net.IPNet, ip net.IP) bool {
	return bytes.Equal(ip.Mask(n.Mask), n.IP)
}
''', '')])
ref("r-net-sortfunc", "C01", [(B+"net_registry.go", '''		sort.Sort(netEntrySorter(nets))
''', '''		slices.SortFunc(nets, func(a, b netEntry) int { return bytes.Compare(a.Net.IP, b.Net.IP) })
'''), (B+"net_registry.go", '	"net/url"\n	"sort"\n', '	"net/url"\n	"slices"\n	"sort"\n')])
ref("r-net-masks", "C01", [(B+"net_registry.go", '''	var mask int
	var nets []netEntry
	for mask, nets = range n.networks {
		if mask < bestMask || mask > lookupMask {
			continue
		}
''', '''	// Most specific first.
	for mask := lookupMask; mask >= 0; mask-- {
		nets, ok := n.networks[mask]
		if !ok {
			continue
		}
'''), (B+"net_registry.go", '''		bestEntry = nets[index].Net.String()
		bestMask = mask
		bestURLs = nets[index].URLs
''', '''		bestEntry = nets[index].Net.String()
		bestURLs = nets[index].URLs
		break
'''), (B+"net_registry.go", "	var bestMask int\n", "")])
ref("r-net-netip", "C01 C24", [(B+"net_registry.go", '''		_, ipNet, err := net.ParseCIDR(cidr)

		if err != nil {
			continue
		} else if len(ipNet.IP) != n.numIPBytes {
			continue
		}

		size, _ := ipNet.Mask.Size()
		n.networks[size] = append(n.networks[size], netEntry{Net: ipNet, URLs: urls})
''', '''		n.addEntry(cidr, urls)
'''), (B+"net_registry.go", '''func numIPBytesForVersion''', '''func (n *NetRegistry) addEntry(cidr string, urls []*url.URL) {
	_, ipNet, err := net.ParseCIDR(cidr)
	if err != nil || len(ipNet.IP) != n.numIPBytes {
		return
	}

	size, _ := ipNet.Mask.Size()
	n.networks[size] = append(n.networks[size], netEntry{ipNet, urls})
}

func numIPBytesForVersion'''), (B+"net_registry.go", '''	var length int

	switch ipVersion {
	case 4:
		length = net.IPv4len
	case 6:
		length = net.IPv6len
	default:
		panic("Unknown IP version")
	}

	return length
''', '''	lengths := map[int]int{4: net.IPv4len, 6: net.IPv6len}

	length, ok := lengths[ipVersion]
	if !ok {
		panic("Unknown IP version")
	}

	return length
''')])
ref("r-asn-binary", "C02 C24", [(B+"asn_registry.go", '''	index := sort.Search(len(a.asns), func(i int) bool {
		return asn <= a.asns[i].MaxASN
	})
''', '''	index, _ := slices.BinarySearchFunc(a.asns, asn, func(r asnRange, n uint32) int {
		return cmp.Compare(r.MaxASN, n)
	})
'''), (B+"asn_registry.go", '''	sort.Sort(asnRangeSorter(a))
''', '''	slices.SortStableFunc(a, func(x, y asnRange) int { return cmp.Compare(x.MinASN, y.MinASN) })
'''), (B+"asn_registry.go", '''	"errors"
	"fmt"
	"net/url"
	"sort"
''', '''	"cmp"
	"errors"
	"fmt"
	"net/url"
	"slices"
''')])
ref("r-asn-cut", "C02", [(B+"asn_registry.go", '''	asns := strings.Split(asnRange, "-")

	if len(asns) != 1 && len(asns) != 2 {
		return 0, 0, errors.New("malformed ASN range")
	}

	minASN, err = strconv.ParseUint(asns[0], 10, 32)
	if err != nil {
		return 0, 0, err
	}

	maxASN = minASN

	if len(asns) == 2 {
		maxASN, err = strconv.ParseUint(asns[1], 10, 32)
		if err != nil {
			return 0, 0, err
		}
	}

	if minASN > maxASN {
		minASN, maxASN = maxASN, minASN
	}

	return uint32(minASN), uint32(maxASN), nil
''', '''	first, last, isRange := strings.Cut(asnRange, "-")
	if strings.Contains(last, "-") {
		return 0, 0, errors.New("malformed ASN range")
	}

	if minASN, err = strconv.ParseUint(first, 10, 32); err != nil {
		return 0, 0, err
	}

	if !isRange {
		return uint32(minASN), uint32(minASN), nil
	}

	if maxASN, err = strconv.ParseUint(last, 10, 32); err != nil {
		return 0, 0, err
	}

	return uint32(min(minASN, maxASN)), uint32(max(minASN, maxASN)), nil
''')])
ref("r-dns-cut", "C03", [(B+"dns_registry.go", '''	for {
		var ok bool
		urls, ok = d.dns[fqdn]

		if ok {
			break
		} else if fqdn == "" {
			break
		}

		index := strings.IndexByte(fqdn, '.')
		if index == -1 {
			fqdn = ""
		} else {
			fqdn = fqdn[index+1:]
		}
	}
''', '''	found := false
	for !found {
		urls, found = d.dns[fqdn]
		if found || fqdn == "" {
			break
		}

		_, fqdn, _ = strings.Cut(fqdn, ".")
	}
''')])
ref("r-dns-labels", "C03", [(B+"dns_registry.go", '''	for {
		var ok bool
		urls, ok = d.dns[fqdn]

		if ok {
			break
		} else if fqdn == "" {
			break
		}

		index := strings.IndexByte(fqdn, '.')
		if index == -1 {
			fqdn = ""
		} else {
			fqdn = fqdn[index+1:]
		}
	}
''', '''	labels := strings.Split(input, ".")
	for i := 0; i <= len(labels); i++ {
		fqdn = strings.Join(labels[i:], ".")

		if u, ok := d.dns[fqdn]; ok {
			urls = u
			break
		}
	}
''')])
ref("r-sp-cut", "C04", [(B+"service_provider_registry.go", '''	offset := strings.LastIndexByte(input, '-')

	if offset == -1 || offset == len(input)-1 {
		return &Answer{
			Query: input,
		}, nil
	}

	service := input[offset+1:]

	urls, ok := s.services[service]

	if !ok {
		service = ""
	}

	return &Answer{
		URLs:  urls,
		Query: input,
		Entry: service,
	}, nil
''', '''	answer := &Answer{Query: input}

	parts := strings.Split(input, "-")
	if len(parts) < 2 || parts[len(parts)-1] == "" {
		return answer, nil
	}

	if urls, ok := s.services[parts[len(parts)-1]]; ok {
		answer.URLs = urls
		answer.Entry = parts[len(parts)-1]
	}

	return answer, nil
''')])
ref("r-file-helper", "C05 C01", [(B+"file.go", '''		var urls []*url.URL

		for _, rawURL := range rawURLs {
			url, err := url.Parse(rawURL)
			// Ignore unparsable URLs.
			if err != nil {
				continue
			}

			urls = append(urls, url)
		}

		if len(urls) > 0 {
			for _, entry := range entries {
				f.Entries[entry] = urls
			}
		}
	}

	return f, nil
}
''', '''		urls := parseURLs(rawURLs)
		if len(urls) == 0 {
			continue
		}

		for i := range entries {
			f.Entries[entries[i]] = urls
		}
	}

	return f, nil
}

func parseURLs(raw []string) []*url.URL {
	urls := make([]*url.URL, 0, len(raw))
	for _, r := range raw {
		if u, err := url.Parse(r); err == nil {
			urls = append(urls, u)
		}
	}

	return urls
}
''')])
ref("r-file-decoder", "C05", [(B+"file.go", '''		switch len(s) {
		case 2:
			// {asn,dns,ipv4,ipv6}.json
			entries = s[0]
			rawURLs = s[1]
		case 3:
			// object-tags.json
			entries = s[1]
			rawURLs = s[2]
		default:
			return nil, errors.New("malformed bootstrap (bad services array)")
		}
''', '''		n := len(s)
		if n < 2 || n > 3 {
			return nil, errors.New("malformed bootstrap (bad services array)")
		}

		entries, rawURLs = s[n-2], s[n-1]
''')])
ref("r-bs-order", "C06 C07 C15 C28", [(B+"client.go", '''	json, s, err := c.download(ctx, registry)
	if err != nil {
		return err
	}

	err = c.Cache.Save(c.filenameFor(registry), json)
	if err != nil {
		return err
	}

	c.registries[registry] = s

	return nil
''', '''	json, s, err := c.download(ctx, registry)
	if err == nil {
		err = c.Cache.Save(c.filenameFor(registry), json)
	}

	if err == nil {
		c.registries[registry] = s
	}

	return err
'''), (B+"client.go", '''	var json []byte
	var s Registry

	json, s, err :=''', '''	json, s, err :='''), (B+"client.go", '''	if c.BaseURL.String() != DefaultBaseURL {
		hasher := sha256.New()
		hasher.Write([]byte(c.BaseURL.String()))
		sha256Hash := hex.EncodeToString(hasher.Sum(nil))

		filename = sha256Hash[0:6] + "_" + filename
	}

	return filename
''', '''	base := c.BaseURL.String()
	if base == DefaultBaseURL {
		return filename
	}

	sum := sha256.Sum256([]byte(base))

	return hex.EncodeToString(sum[:3]) + "_" + filename
''')])
ref("r-bs-fetch", "C06 C07 C15", [(B+"client.go", '''	resp, err := c.HTTP.Do(req)
	if err != nil {
		return nil, nil, err
	}
	defer resp.Body.Close()

	if resp.StatusCode != http.StatusOK {
		return nil, nil, fmt.Errorf("server returned non-200 status code: %s", resp.Status)
	}

	json, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, nil, err
	}

	var s Registry
	s, err = newRegistry(registry, json)
	if err != nil {
		return json, nil, err
	}

	return json, s, nil
}
''', '''	json, err := c.fetch(req)
	if err != nil {
		return nil, nil, err
	}

	s, err := newRegistry(registry, json)
	if err != nil {
		return json, nil, err
	}

	return json, s, nil
}

func (c *Client) fetch(req *http.Request) (body []byte, err error) {
	resp, err := c.HTTP.Do(req)
	if err != nil {
		return nil, err
	}

	defer func() {
		_, _ = io.Copy(io.Discard, resp.Body)
		_ = resp.Body.Close()
	}()

	if resp.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("server returned non-200 status code: %s", resp.Status)
	}

	var buf bytes.Buffer
	if _, err := buf.ReadFrom(resp.Body); err != nil {
		return nil, err
	}

	return buf.Bytes(), nil
}
'''), (B+"client.go", '''import (
	"context"
''', '''import (
	"bytes"
	"context"
''')])
ref("r-bs-lookup", "C06 C07", [(B+"client.go", '''	var forceDownload bool
	if state == cache.ShouldReload {
		if err := c.reloadFromCache(registry); err != nil {
			forceDownload = true

			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
		}
	}

	if c.registries[registry] == nil || state == cache.Expired || forceDownload {
''', '''	download := state == cache.Expired
	if state == cache.ShouldReload {
		err := c.reloadFromCache(registry)
		if err != nil {
			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
		}

		download = err != nil
	}

	if _, have := c.registries[registry]; !have {
		download = true
	}

	if download {
'''), (B+"client.go", '''	s, _ := c.registries[DNS].(*DNSRegistry)
	return s
''', '''	if s, ok := c.registries[DNS]; ok {
		return s.(*DNSRegistry)
	}

	return nil
''')])
ref("r-mem-struct", "C08 C06", [(B+"cache/memory_cache.go", '''	m.cache[filename] = make([]byte, len(data))
	copy(m.cache[filename], data)

	m.mtime[filename] = time.Now()
''', '''	m.mu.Lock()
	defer m.mu.Unlock()

	m.cache[filename] = append([]byte{}, data...)
	m.mtime[filename] = time.Now()
'''), (B+"cache/memory_cache.go", '''	result := make([]byte, len(data))
	copy(result, data)

	return result, nil
''', '''	return slices.Clone(data), nil
'''), (B+"cache/memory_cache.go", '''	expiry := mtime.Add(m.Timeout)

	if expiry.Before(time.Now()) {
		return Expired
	}
''', '''	if time.Since(mtime) > m.Timeout {
		return Expired
	}
'''), (B+"cache/memory_cache.go", '''	Timeout time.Duration
	cache   map''', '''	Timeout time.Duration
	mu      sync.Mutex
	cache   map'''), (B+"cache/memory_cache.go", '''	"fmt"
''', '''	"fmt"
	"slices"
	"sync"
''')])
ref("r-disk-atomic", "C09 C06 C07 C25 C30", [(B+"cache/disk_cache.go", '''	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {
		return err
	}
''', '''	f, err := os.OpenFile(d.cacheDirPath(filename), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		return err
	}

	if _, err = f.Write(data); err != nil {
		_ = f.Close()
		return err
	}

	if err = f.Close(); err != nil {
		return err
	}
''')])
ref("r-disk-state", "C09 C06 C30", [(B+"cache/disk_cache.go", '''	expiry := time.Now().Add(-d.Timeout)
	state := Absent

	fileModTime, err := d.modTime(filename)
	if err == nil {
		if fileModTime.After(expiry) {
			state = ShouldReload

			lastLoadedModTime, haveLoaded := d.lastLoadedModTime[filename]
			if haveLoaded && !fileModTime.After(lastLoadedModTime) {
				state = Good
			}
		} else {
			state = Expired
		}
	}

	return state
''', '''	fileModTime, err := d.modTime(filename)

	switch {
	case err != nil:
		return Absent
	case time.Since(fileModTime) >= d.Timeout:
		return Expired
	}

	if last, ok := d.lastLoadedModTime[filename]; ok && fileModTime.Compare(last) <= 0 {
		return Good
	}

	return ShouldReload
'''), (B+"cache/disk_cache.go", '''	if os.IsNotExist(err) {
		if err = os.MkdirAll(d.Dir, 0o750); err != nil {
			return false, err
		}

		return true, nil
	}

	return false, err
''', '''	if !errors.Is(err, fs.ErrNotExist) {
		return false, err
	}

	err = os.MkdirAll(d.Dir, 0o750)

	return err == nil, err
'''), (B+"cache/disk_cache.go", '''	"fmt"
	"os"
''', '''	"fmt"
	"io/fs"
	"os"
''')])
ref("r-disk-open", "C09 C06 C07", [(B+"cache/disk_cache.go", '''	bytes, err = os.ReadFile(d.cacheDirPath(filename))
	if err != nil {
		return nil, err
	}
''', '''	f, err := os.Open(d.cacheDirPath(filename))
	if err != nil {
		return nil, err
	}
	defer f.Close()

	bytes, err = io.ReadAll(f)
	if err != nil {
		return nil, err
	}
'''), (B+"cache/disk_cache.go", '''	"fmt"
	"os"
''', '''	"fmt"
	"io"
	"os"
'''), (B+"cache/disk_cache.go", '''	return filepath.Join(d.Dir, filename)
''', '''	return d.Dir + string(filepath.Separator) + filename
''')])
ref("r-disk-rename", "C09 C06 C07", [(B+"cache/disk_cache.go", '''	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {
		return err
	}
''', '''	tmp, err := os.CreateTemp(d.Dir, filename+".*")
	if err != nil {
		return err
	}

	_, err = tmp.Write(data)
	if closeErr := tmp.Close(); err == nil {
		err = closeErr
	}

	if err == nil {
		err = os.Rename(tmp.Name(), d.cacheDirPath(filename))
	}

	if err != nil {
		_ = os.Remove(tmp.Name())
		return err
	}
''')])
ref("r-url-builder", "C10 C11 C24", [("request.go", '''	j := -1
	for i := range len(text) {
		if shouldPathEscape(text[i]) {
			j = i
			break
		}
	}

	if j == -1 {
		return text
	}

	// Every remaining byte expands to "%XX" (3 bytes). Sizing for it
	// guarantees a single allocation with no re-growth; RDAP paths are
	// short.
	escaped := make([]byte, 0, j+(len(text)-j)*3)
	escaped = append(escaped, text[:j]...)

	for i := j; i < len(text); i++ {
		b := text[i]

		if !shouldPathEscape(b) {
			escaped = append(escaped, b)
		} else {
			escaped = append(
				escaped, '%',
				"0123456789ABCDEF"[b>>4],
				"0123456789ABCDEF"[b&0xF],
			)
		}
	}

	return string(escaped)
''', '''	var sb strings.Builder
	for _, b := range []byte(text) {
		if shouldPathEscape(b) {
			fmt.Fprintf(&sb, "%%%02X", b)
		} else {
			sb.WriteByte(b)
		}
	}

	return sb.String()
'''), ("request.go", '''	switch b {
	case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@':
		return false
	}

	return true
''', '''	return strings.IndexByte("-_.~$&+:=@", b) < 0
''')])
ref("r-url-pathescape", "C10 C11", [("request.go", '''	r2 := new(Request)
	*r2 = *r
	r2.Server = server

	return r2
''', '''	r2 := *r
	r2.Server = server

	return &r2
'''), ("request.go", '''		query := r.Server.Query()
		maps.Copy(query, r.Params)
		maps.Copy(query, values)
		resultURL.RawQuery = query.Encode()
''', '''		query := r.Server.Query()
		for _, vs := range []url.Values{r.Params, values} {
			for k, v := range vs {
				query[k] = v
			}
		}
		resultURL.RawQuery = query.Encode()
'''), ("request.go", '''		if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != '/' {
			tempURLString += "/"
		}
''', '''		if !strings.HasSuffix(tempURLString, "/") {
			tempURLString += "/"
		}
'''), ("request.go", '''	"maps"
''', '')])
ref("r-auto-switch", "C12 C24", [("request.go", '''	fullURL, err := url.Parse(queryText)
	if err == nil && (fullURL.Scheme == "http" || fullURL.Scheme == "https") {
		// Parse "http://example.com/" as a domain query for convenience.
		if fullURL.Path == "" || fullURL.Path == "/" {
			return NewDomainRequest(fullURL.Host)
		}

		return NewRawRequest(fullURL)
	}

	// IP address?
	ip := net.ParseIP(queryText)
	if ip != nil {
		return NewIPRequest(ip)
	}
''', '''	if req := urlRequest(queryText); req != nil {
		return req
	}

	// IP address?
	if ip := net.ParseIP(queryText); ip != nil {
		return NewIPRequest(ip)
	}
'''), ("request.go", '''	autnum, err := parseAutnum(queryText)
	if err == nil {
		return NewAutnumRequest(autnum)
	}

	// Looks like a domain name?
	if strings.Contains(queryText, ".") {
		return NewDomainRequest(queryText)
	}
''', '''	if autnum, err := parseAutnum(queryText); err == nil {
		return NewAutnumRequest(autnum)
	}

	// Looks like a domain name?
	if strings.IndexByte(queryText, '.') != -1 {
		return NewDomainRequest(queryText)
	}
'''), ("request.go", '''func parseAutnum(autnum string) (uint32, error) {
	autnum = strings.ToUpper(autnum)
	autnum = strings.TrimPrefix(autnum, "AS")
''', '''// urlRequest gives the request for a http(s) URL, or nil.
func urlRequest(text string) *Request {
	u, err := url.Parse(text)
	if err != nil {
		return nil
	}

	switch u.Scheme {
	case "http", "https":
	default:
		return nil
	}

	switch u.Path {
	case "", "/":
		return NewDomainRequest(u.Host)
	default:
		return NewRawRequest(u)
	}
}

func parseAutnum(autnum string) (uint32, error) {
	autnum = strings.TrimPrefix(strings.ToUpper(autnum), "AS")
''')])
ref("r-do-helper", "C13 C14 C15 C27 C11", [("client.go", '''	for _, r := range reqs {
		c.Verbose(fmt.Sprintf("client: GET %s", r.URL()))

		httpResponse := c.get(r)
		resp.HTTP = append(resp.HTTP, httpResponse)

		if httpResponse.Error != nil {
			c.Verbose(fmt.Sprintf("client: error: %s",
				httpResponse.Error))

			if r.Context().Err() == context.DeadlineExceeded {
				return resp, httpResponse.Error
			}

			// Continues to the next RDAP server.
		} else {
			hrr := httpResponse.Response
''', '''	for i := 0; i < len(reqs); i++ {
		r := reqs[i]
		c.Verbose(fmt.Sprintf("client: GET %s", r.URL()))

		httpResponse := c.get(r)
		resp.HTTP = append(resp.HTTP, httpResponse)

		if err := httpResponse.Error; err != nil {
			c.Verbose(fmt.Sprintf("client: error: %s", err))

			if errors.Is(r.Context().Err(), context.DeadlineExceeded) {
				return resp, err
			}

			continue
		}

		{
			hrr := httpResponse.Response
'''), ("client.go", '''			if len(httpResponse.Body) > 0 && hrr.StatusCode >= 200 && hrr.StatusCode <= 299 {
				// Decode the response.
				decoder := NewDecoder(httpResponse.Body)

				resp.Object, httpResponse.Error = decoder.Decode()

				if httpResponse.Error != nil {
''', '''			if hrr.StatusCode/100 == 2 && len(httpResponse.Body) != 0 {
				// Decode the response.
				obj, err := NewDecoder(httpResponse.Body).Decode()
				resp.Object, httpResponse.Error = obj, err

				if httpResponse.Error != nil {
'''), ("client.go", '''	"context"
	"fmt"
''', '''	"context"
	"errors"
	"fmt"
''')])
ref("r-get-named", "C13 C15", [("client.go", '''	resp, err := c.HTTP.Do(req)
	httpResponse.Response = resp

	// Handle errors such as "remote doesn't speak HTTP"...
	if err != nil {
		httpResponse.Error = err
		httpResponse.Duration = time.Since(start)

		return httpResponse
	}

	defer resp.Body.Close()
	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)

	httpResponse.Duration = time.Since(start)

	return httpResponse
''', '''	defer func() {
		httpResponse.Duration = time.Since(start)
	}()

	resp, err := c.HTTP.Do(req)
	httpResponse.Response = resp

	if err != nil {
		httpResponse.Error = err

		return httpResponse
	}

	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)
	if err := resp.Body.Close(); err != nil && c.Verbose != nil {
		c.Verbose(err.Error())
	}

	return httpResponse
'''), ("client.go", '''		req.Header.Add("User-Agent", c.UserAgent)
''', '''		req.Header.Set("User-Agent", c.UserAgent)
'''), ("client.go", '''	req.Header.Add("Accept", "application/rdap+json, application/json")
''', '''	req.Header["Accept"] = []string{"application/rdap+json, application/json"}
''')])
ref("r-quick-generic", "C14 C15", [("client.go", '''	resp, err := c.doQuickRequest(req)
	if err != nil {
		return nil, err
	}

	if dom, ok := resp.Object.(*Domain); ok {
		return dom, nil
	} else if respError, ok := resp.Object.(*Error); ok {
		return nil, clientErrorFromRDAPError(respError)
	}

	return nil, &ClientError{
		Type: WrongResponseType,
		Text: "The server returned a non-Domain RDAP response",
	}
}
''', '''	return quickQuery[Domain](c, req, "Domain")
}

func quickQuery[T any](c *Client, req *Request, name string) (*T, error) {
	resp, err := c.doQuickRequest(req)
	if err != nil {
		return nil, err
	}

	switch obj := resp.Object.(type) {
	case *T:
		return obj, nil
	case *Error:
		return nil, clientErrorFromRDAPError(obj)
	default:
		return nil, &ClientError{
			Type: WrongResponseType,
			Text: "The server returned a non-" + name + " RDAP response",
		}
	}
}
'''), ("client.go", '''	if autnum, ok := resp.Object.(*Autnum); ok {
		return autnum, nil
	} else if respError, ok := resp.Object.(*Error); ok {
		return nil, clientErrorFromRDAPError(respError)
	}

	return nil, &ClientError{
		Type: WrongResponseType,
		Text: "The server returned a non-Autnum RDAP response",
	}
''', '''	_ = resp
	if autnum, ok := resp.Object.(*Autnum); ok {
		return autnum, nil
	}

	if respError, ok := resp.Object.(*Error); ok {
		return nil, clientErrorFromRDAPError(respError)
	}

	return nil, &ClientError{Type: WrongResponseType, Text: "The server returned a non-Autnum RDAP response"}
''')])
ref("r-dec-table", "C16 C18 C17", [("decoder.go", '''	} else if o, exists := src["objectClassName"]; exists {
		if objectClassName, ok := o.(string); ok {
			switch objectClassName {
			case "autnum":
				d.target = &Autnum{}
			case "domain":
				d.target = &Domain{}
			case "entity":
				d.target = &Entity{}
			case "ip network":
				d.target = &IPNetwork{}
			case "nameserver":
				d.target = &Nameserver{}
			default:
				return nil, DecoderError{text: "objectClassName is not recognised"}
			}
		} else {
			return nil, DecoderError{text: "objectClassName is not a string"}
		}
	} else if''', '''	} else if o, exists := src["objectClassName"]; exists {
		objectClassName, ok := o.(string)
		if !ok {
			return nil, DecoderError{text: "objectClassName is not a string"}
		}

		make, known := targets[objectClassName]
		if !known {
			return nil, DecoderError{text: "objectClassName is not recognised"}
		}

		d.target = make()
	} else if'''), ("decoder.go", '''// decodeTopLevel decodes''', '''var targets = map[string]func() any{
	"autnum":     func() any { return &Autnum{} },
	"domain":     func() any { return &Domain{} },
	"entity":     func() any { return new(Entity) },
	"ip network": func() any { return new(IPNetwork) },
	"nameserver": func() any { return new(Nameserver) },
}

// decodeTopLevel decodes''')])
ref("r-dec-sorted", "C16 C17 C18 C22", [("decoder.go", '''	for name, value := range srcMap {
		if index, ok := plan.fieldIndex[name]; ok {
			if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {
				return false, err
			}
		}
	}

	return true, nil
''', '''	for _, name := range slices.Sorted(maps.Keys(srcMap)) {
		index, ok := plan.fieldIndex[name]
		if !ok {
			continue
		}

		if _, err := d.decode(name, srcMap[name], dst.FieldByIndex(index), myDecodeData); err != nil {
			return false, err
		}
	}

	return true, nil
'''), ("decoder.go", '''	"encoding/json"
	"math"
	"reflect"
''', '''	"encoding/json"
	"maps"
	"math"
	"reflect"
	"slices"
''')])
ref("r-dec-uintbits", "C17 C21", [("decoder.go", '''		var maxVal uint64

		// Check the result number is within range of the target type.
		switch dst.Kind() {
		case reflect.Uint8:
			maxVal = math.MaxUint8
		case reflect.Uint16:
			maxVal = math.MaxUint16
		case reflect.Uint32:
			maxVal = math.MaxUint32
		case reflect.Uint64:
			maxVal = math.MaxUint64
		default:
			panic("Unexpected int type")
		}

		if result > maxVal {
''', '''		if dst.OverflowUint(result) {
'''), ("decoder.go", '''	var result string

	success := true

	switch src := src.(type) {
	case bool:
		result = strconv.FormatBool(src)
		d.addDecodeNote(decodeData, keyName, "bool to string conversion")
	case float64:
		result = strconv.FormatFloat(src, 'f', -1, 64)
		d.addDecodeNote(decodeData, keyName, "float64 to string conversion")
	case string:
		result = src
	case nil:
		result = ""
		d.addDecodeNote(decodeData, keyName, "null to empty string conversion")
	default:
		d.addDecodeNote(decodeData, keyName, "invalid JSON type, expecting string")
		success = false
	}

	dst.SetString(result)

	return success
''', '''	result, note, success := stringFor(src)
	if note != "" {
		d.addDecodeNote(decodeData, keyName, note)
	}

	dst.SetString(result)

	return success
'''), ("decoder.go", '''// decodeBool decodes |src|''', '''func stringFor(src any) (result string, note string, ok bool) {
	switch src := src.(type) {
	case bool:
		return fmt.Sprintf("%t", src), "bool to string conversion", true
	case float64:
		return strconv.FormatFloat(src, 'f', -1, 64), "float64 to string conversion", true
	case string:
		return src, "", true
	case nil:
		return "", "null to empty string conversion", true
	}

	return "", "invalid JSON type, expecting string", false
}

// decodeBool decodes |src|'''), ("decoder.go", '''	"encoding/json"
	"math"
''', '''	"encoding/json"
	"fmt"
	"math"
''')])
ref("r-dec-slice", "C16 C17 C18", [("decoder.go", '''	// Construct the result slice.
	result := reflect.MakeSlice(dst.Type(), 0, len(srcSlice))

	// Foreach value in the input slice...
	for _, v := range srcSlice {
		// Construct a result value for it.
		vdst := reflect.New(dst.Type().Elem())

		// Decode into the result value.
		success, err := d.decode(keyName, v, reflect.Indirect(vdst), decodeData)
		if err != nil {
			return false, err
		}

		// Only if the decode was successful, append to result slice.
		if success {
			result = reflect.Append(result, reflect.Indirect(vdst))
		}
	}

	dst.Set(result)
''', '''	// Construct the result slice.
	result := reflect.MakeSlice(dst.Type(), len(srcSlice), len(srcSlice))
	n := 0

	for i := range srcSlice {
		elem := result.Index(n)
		elem.SetZero()

		success, err := d.decode(keyName, srcSlice[i], elem, decodeData)
		if err != nil {
			return false, err
		}

		if success {
			n++
		}
	}

	dst.Set(result.Slice(0, n))
''')])
ref("r-plan-mutex", "C18 C16 C29", [("decoder.go", '''	if cached, ok := structPlanCache.Load(t); ok {
		return cached.(*structPlan)
	}
''', '''	structPlanMu.Lock()
	defer structPlanMu.Unlock()

	if cached, ok := structPlans[t]; ok {
		return cached
	}
'''), ("decoder.go", '''	actual, _ := structPlanCache.LoadOrStore(t, plan)
	return actual.(*structPlan)
''', '''	structPlans[t] = plan

	return plan
'''), ("decoder.go", '''var structPlanCache sync.Map // map[reflect.Type]*structPlan
''', '''var (
	structPlanMu sync.Mutex
	structPlans  = map[reflect.Type]*structPlan{}
)
''')])
ref("r-vcard-iter", "C19 C20 C21 C23 C29", [("vcard.go", '''	var properties []*VCardProperty

	for _, p := range v.Properties {
		if p.Name == name {
			properties = append(properties, p)
		}
	}

	return properties
''', '''	return slices.Collect(v.named(name))
'''), ("vcard.go", '''	properties := v.Get(name)

	if len(properties) == 0 {
		return nil
	}

	return properties[0]
''', '''	for p := range v.named(name) {
		return p
	}

	return nil
'''), ("vcard.go", '''func vCardError(e string) error {''', '''// named iterates over the properties called |name|.
func (v *VCard) named(name string) iter.Seq[*VCardProperty] {
	return func(yield func(*VCardProperty) bool) {
		for _, p := range v.Properties {
			if p.Name == name && !yield(p) {
				return
			}
		}
	}
}

func vCardError(e string) error {'''), ("vcard.go", '''	"fmt"
''', '''	"fmt"
	"iter"
''')])
ref("r-vcard-tel", "C20 C23", [("vcard.go", '''	properties := v.Get("tel")

	for _, p := range properties {
		isVoice := false

		if types, ok := p.Parameters["type"]; ok {
			if slices.Contains(types, "voice") {
				isVoice = true
			}
		} else {
			isVoice = true
		}

		if isVoice {
			if values := p.Values(); len(values) > 0 {
				return values[0]
			}
		}
	}

	return ""
''', '''	return v.firstTel(func(types []string, ok bool) bool {
		return !ok || slices.Contains(types, "voice")
	})
'''), ("vcard.go", '''	properties := v.Get("tel")

	for _, p := range properties {
		if types, ok := p.Parameters["type"]; ok {
			if slices.Contains(types, "fax") {
				if values := p.Values(); len(values) > 0 {
					return values[0]
				}
			}
		}
	}

	return ""
}
''', '''	return v.firstTel(func(types []string, ok bool) bool {
		return ok && slices.Contains(types, "fax")
	})
}

func (v *VCard) firstTel(match func(types []string, ok bool) bool) string {
	for _, p := range v.Get("tel") {
		types, ok := p.Parameters["type"]
		if !match(types, ok) {
			continue
		}

		if values := p.Values(); len(values) > 0 {
			return values[0]
		}
	}

	return ""
}
'''), ("vcard.go", '''	strs := make([]string, 0, 1)

	p.appendValueStrings(p.Value, &strs)

	return strs
''', '''	strs := []string{}
	p.appendValueStrings(p.Value, &strs)

	return strs
''')])
ref("r-vcard-decode", "C19 C16", [("vcard.go", '''	var p any
	for _, p = range top[1].([]any) {
		property, err := decodeVCardProperty(p)
		if err != nil {
			if options.IgnoreInvalidProperties {
				continue
			} else {
				return nil, err
			}
		}

		v.Properties = append(v.Properties, property)
	}
''', '''	for _, p := range properties {
		property, err := decodeVCardProperty(p)

		switch {
		case err == nil:
			v.Properties = append(v.Properties, property)
		case !options.IgnoreInvalidProperties:
			return nil, err
		}
	}
'''), ("vcard.go", '''	if _, ok := p.(map[string]any); !ok {
		return nil, vCardError("jCard parameters invalid")
	}

	for k, v := range p.(map[string]any) {
		if s, ok := v.(string); ok {
			params[k] = append(params[k], s)
		} else if arr, ok := v.([]any); ok {
			for _, value := range arr {
				if s, ok := value.(string); ok {
					params[k] = append(params[k], s)
				}
			}
		}
	}
''', '''	object, ok := p.(map[string]any)
	if !ok {
		return nil, vCardError("jCard parameters invalid")
	}

	for k, v := range object {
		values, ok := v.([]any)
		if !ok {
			values = []any{v}
		}

		for _, value := range values {
			if s, ok := value.(string); ok {
				params[k] = append(params[k], s)
			}
		}
	}
''')])
ref("r-print-common", "C21 C22 C27 C29", [("print.go", '''	if !p.BriefOutput {
		for _, c := range sr.Conformance {
			p.printValue("Conformance", c, indentLevel)
		}
	}

	if !p.BriefOutput && !p.OmitNotices {
		for _, n := range sr.Notices {
			p.printNotice(n, indentLevel)
		}
	}

	for _, n := range sr.Nameservers {
		p.printNameserver(&n, indentLevel)
	}
''', '''	p.printConformance(sr.Conformance, sr.Notices, indentLevel)

	for i := range sr.Nameservers {
		p.printNameserver(&sr.Nameservers[i], indentLevel)
	}
'''), ("print.go", '''// printEntitySearchResults prints''', '''func (p *Printer) printConformance(conformance []string, notices []Notice, indentLevel uint) {
	if p.BriefOutput {
		return
	}

	p.printValues("Conformance", conformance, indentLevel)

	if p.OmitNotices {
		return
	}

	for _, n := range notices {
		p.printNotice(n, indentLevel)
	}
}

func (p *Printer) printValues(name string, values []string, indentLevel uint) {
	for _, v := range values {
		p.printValue(name, v, indentLevel)
	}
}

// printEntitySearchResults prints'''), ("print.go", '''	fmt.Fprintf(p.Writer, "%s%s: %s\\n",
		p.indent(indentLevel),
		p.cleanString(name),
		p.cleanString(value))
''', '''	_, _ = io.WriteString(p.Writer, p.indent(indentLevel)+p.cleanString(name)+": "+p.cleanString(value)+"\\n")
'''), ("print.go", '''	keys := make([]string, 0, len(d.values))
	for k := range d.values {
		keys = append(keys, k)
	}
	slices.Sort(keys)

	for _, k := range keys {
		isKnown := d.isKnown[k]
		isOverridden := d.overrideKnownValue[k]

		if !isKnown || isOverridden {
			p.printUnknown(k, d.values[k], indentLevel)
		}
	}
''', '''	for _, k := range slices.Sorted(maps.Keys(d.values)) {
		if d.isKnown[k] && !d.overrideKnownValue[k] {
			continue
		}

		p.printUnknown(k, d.values[k], indentLevel)
	}
'''), ("print.go", '''	"io"
	"os"
''', '''	"io"
	"maps"
	"os"
''')])
ref("r-print-clean", "C21 C22 C29", [("print.go", '''	// Most RDAP values contain no bad runes, so skip the
	// rune-by-rune strings.Map scan (and its allocation) entirely.
	if !strings.ContainsAny(str, "\\n\\r\\x00") {
		return str
	}

	return strings.Map(removeBadRunes, str)
''', '''	return badRunes.Replace(str)
'''), ("print.go", '''// removeBadRunes replaces''', '''var badRunes = strings.NewReplacer("\\n", "", "\\r", "", "\\x00", "")

// removeBadRunes replaces'''), ("print.go", '''	return strings.Repeat(string(p.IndentChar), int(indentLevel*p.IndentSize))
''', '''	var b strings.Builder
	for i := uint(0); i < indentLevel*p.IndentSize; i++ {
		b.WriteRune(p.IndentChar)
	}

	return b.String()
''')])
ref("r-whois-loop", "C23 C27", [("response.go", '''	if _, exists := w.Data[key]; !exists {
		w.KeyDisplayOrder = append(w.KeyDisplayOrder, key)
		w.Data[key] = []string{value}
	} else {
		w.Data[key] = append(w.Data[key], value)
	}
''', '''	values, exists := w.Data[key]
	if !exists {
		w.KeyDisplayOrder = append(w.KeyDisplayOrder, key)
	}

	w.Data[key] = append(values, value)
'''), ("response.go", '''	addEntityFields(w, "Registrant", findFirstEntity("registrant", d.Entities))
	addEntityFields(w, "Admin", findFirstEntity("administrative", d.Entities))
	addEntityFields(w, "Tech", findFirstEntity("technical", d.Entities))
	addEntityFields(w, "Abuse", findFirstEntity("abuse", d.Entities))
''', '''	for _, c := range []struct{ title, role string }{
		{"Registrant", "registrant"},
		{"Admin", "administrative"},
		{"Tech", "technical"},
		{"Abuse", "abuse"},
	} {
		addEntityFields(w, c.title, findFirstEntity(c.role, d.Entities))
	}
'''), ("response.go", '''	for _, e := range entities {
		if slices.Contains(e.Roles, role) {
			return &e
		}
	}

	return nil
''', '''	i := slices.IndexFunc(entities, func(e Entity) bool {
		return slices.Contains(e.Roles, role)
	})
	if i < 0 {
		return nil
	}

	return &entities[i]
''')])
ref("r-cli-split", "C24 C25 C26 C27 C30", [("cli.go", '''	var clientCert tls.Certificate
	if *client''', '''	if text, code := checkCertFlags(*clientCertFilename, *clientKeyFilename, *clientP12FilenameAndPassword); code != 0 {
		printError(stderr, text)
		return code
	}

	var clientCert tls.Certificate
	if *client'''), ("cli.go", '''		case *clientP12FilenameAndPassword != "":
			printError(stderr, "rdap: Error: Can't use both --cert/--key and --p12 together")
			return 1
		case *clientCertFilename == "" || *clientKeyFilename == "":
			printError(stderr, "rdap: Error: --cert and --key must be used together")
			return 1
''', ''), ("cli.go", '''func safePrint(v string) string {
	removeBadChars := func(r rune) rune {
		switch r {
		case '\\000':
			return -1
		case '\\n', '\\r':
			return ' '
		default:
			return r
		}
	}

	return strings.Map(removeBadChars, v)
}
''', '''func checkCertFlags(cert, key, p12 string) (string, int) {
	if cert == "" && key == "" {
		return "", 0
	}

	if p12 != "" {
		return "rdap: Error: Can't use both --cert/--key and --p12 together", 1
	}

	if cert == "" || key == "" {
		return "rdap: Error: --cert and --key must be used together", 1
	}

	return "", 0
}

func safePrint(v string) string {
	v = strings.ReplaceAll(v, "\\000", "")
	v = strings.ReplaceAll(v, "\\n", " ")

	return strings.ReplaceAll(v, "\\r", " ")
}
'''), ("cli.go", '''		p12FilenameAndPassword := strings.SplitAfterN(*clientP12FilenameAndPassword, ":", 2)
		p12FilenameAndPassword[0] = strings.TrimSuffix(p12FilenameAndPassword[0], ":")

		// Use a blank password if none was specified.
		if len(p12FilenameAndPassword) == 1 {
			p12FilenameAndPassword = append(p12FilenameAndPassword, "")
		}
''', '''		p12File, p12Password, _ := strings.Cut(*clientP12FilenameAndPassword, ":")
'''), ("cli.go", '''			p12, err = sandbox.LoadFile(p12FilenameAndPassword[0])
''', '''			p12, err = sandbox.LoadFile(p12File)
'''), ("cli.go", '''			p12, err = os.ReadFile(p12FilenameAndPassword[0])
''', '''			p12, err = os.ReadFile(p12File)
'''), ("cli.go", '''pkcs12.ToPEM(p12, p12FilenameAndPassword[1])''', '''pkcs12.ToPEM(p12, p12Password)'''),
 ("cli.go", '''		verbose(fmt.Sprintf("rdap: Loaded client certificate from '%s'", p12FilenameAndPassword[0]))
''', '''		verbose(fmt.Sprintf("rdap: Loaded client certificate from '%s'", p12File))
''')])
ref("r-cli-http", "C24 C26 C27 C30", [("cli.go", '''	bs.HTTP = &http.Client{
		Transport: transport,
	}
	httpClient := &http.Client{
		Transport: transport,
	}
''', '''	httpClient := &http.Client{Transport: transport}
	bs.HTTP = httpClient
'''), ("cli.go", '''	ctx, cancelFunc := context.WithTimeout(context.Background(), time.Duration(*timeoutFlag)*time.Second)
	defer cancelFunc()
''', '''	deadline := time.Now().Add(time.Second * time.Duration(*timeoutFlag))
	ctx, cancelFunc := context.WithDeadline(context.Background(), deadline)
	defer cancelFunc()
'''), ("cli.go", '''		fmt.Fprintf(stdout, "%s", body)
''', '''		_, _ = stdout.Write(body)
'''), ("cli.go", '''		var out bytes.Buffer
		if err := json.Indent(&out, body, "", "  "); err != nil {
			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
			return 1
		}

		if _, err := out.WriteTo(stdout); err != nil {
''', '''		out := new(bytes.Buffer)
		if err := json.Indent(out, body, "", "  "); err != nil {
			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
			return 1
		}

		if _, err := io.Copy(stdout, out); err != nil {
''')])
ref("r-cli-types", "C24", [("cli.go", '''	case "entity-search":
		req = NewRequest(EntitySearchRequest, queryText)
	case "entity-search-by-handle":
		req = NewRequest(EntitySearchByHandleRequest, queryText)
	case "domain-search":
		req = NewRequest(DomainSearchRequest, queryText)
	case "domain-search-by-nameserver":
		req = NewRequest(DomainSearchByNameserverRequest, queryText)
	case "domain-search-by-nameserver-ip":
		req = NewRequest(DomainSearchByNameserverIPRequest, queryText)
	case "nameserver-search":
		req = NewRequest(NameserverSearchRequest, queryText)
	case "nameserver-search-by-ip":
		req = NewRequest(NameserverSearchByNameserverIPRequest, queryText)
	case "autnum-search":
		req = NewRequest(AutnumSearchRequest, queryText)
	default:
		printError(stderr, fmt.Sprintf("Unknown query type '%s'", *queryType))
		return 1
	}
''', '''	default:
		searchType, ok := searchTypes[*queryType]
		if !ok {
			printError(stderr, fmt.Sprintf("Unknown query type '%s'", *queryType))
			return 1
		}

		req = NewRequest(searchType, queryText)
	}
'''), ("cli.go", '''func printError(stderr io.Writer''', '''var searchTypes = func() map[string]RequestType {
	m := map[string]RequestType{}
	for _, t := range []RequestType{
		EntitySearchRequest, EntitySearchByHandleRequest,
		DomainSearchRequest, DomainSearchByNameserverRequest, DomainSearchByNameserverIPRequest,
		NameserverSearchRequest, NameserverSearchByNameserverIPRequest, AutnumSearchRequest,
	} {
		m[t.String()] = t
	}

	return m
}()

func printError(stderr io.Writer'''), ("cli.go", '''		autnum := strings.ToUpper(queryText)
		autnum = strings.TrimPrefix(autnum, "AS")
		result, err := strconv.ParseUint(autnum, 10, 32)
		if err != nil {
			printError(stderr, fmt.Sprintf("Invalid ASN '%s'", queryText))
			return 1
		}
		req = NewAutnumRequest(uint32(result))
''', '''		autnum, err := parseAutnum(queryText)
		if err != nil {
			printError(stderr, fmt.Sprintf("Invalid ASN '%s'", queryText))
			return 1
		}
		req = NewAutnumRequest(autnum)
'''), ("cli.go", '	"strconv"\n', '')])
ref("r-sandbox-set", "C25", [("sandbox/file.go", '''	switch filename {
	case "DigiCert_RDAP_Pilot_Client_Certificate.p12",
		"DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12",
		"DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12":
		return true
	default:
		return false
	}
''', '''	_, ok := files[filename]

	return ok
'''), ("sandbox/file.go", '''var sandboxPath string
''', '''var sandboxPath string

var files = map[string]struct{}{
	"DigiCert_RDAP_Pilot_Client_Certificate.p12":         {},
	"DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12": {},
	"DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12": {},
}
''')])

ref("r-plan-rw", "C29 C18", [("decoder.go", '\tif cached, ok := structPlanCache.Load(t); ok {\n\t\treturn cached.(*structPlan)\n\t}\n', """	structPlanMu.RLock()
	cached, ok := structPlans[t]
	structPlanMu.RUnlock()

	if ok {
		return cached
	}
"""), ("decoder.go", '\tactual, _ := structPlanCache.LoadOrStore(t, plan)\n\treturn actual.(*structPlan)\n', """	structPlanMu.Lock()
	defer structPlanMu.Unlock()

	if cached, ok := structPlans[t]; ok {
		return cached
	}

	structPlans[t] = plan

	return plan
"""), ("decoder.go", 'var structPlanCache sync.Map // map[reflect.Type]*structPlan\n', """var (
	structPlanMu sync.RWMutex
	structPlans  = map[reflect.Type]*structPlan{}
)
""")])
ref("r-plan-cow", "C29 C18", [("decoder.go", '\tif cached, ok := structPlanCache.Load(t); ok {\n\t\treturn cached.(*structPlan)\n\t}\n', """	if plans := structPlans.Load(); plans != nil {
		if cached, ok := (*plans)[t]; ok {
			return cached
		}
	}
"""), ("decoder.go", '\tactual, _ := structPlanCache.LoadOrStore(t, plan)\n\treturn actual.(*structPlan)\n', """	for {
		old := structPlans.Load()
		plans := map[reflect.Type]*structPlan{t: plan}

		if old != nil {
			maps.Copy(plans, *old)
		}

		if structPlans.CompareAndSwap(old, &plans) {
			return plans[t]
		}
	}
"""), ("decoder.go", 'var structPlanCache sync.Map // map[reflect.Type]*structPlan\n', """var structPlans atomic.Pointer[map[reflect.Type]*structPlan]
"""), ("decoder.go", '	"sync"\n', '	"maps"\n	"sync/atomic"\n')])
ref("r-plan-once", "C29 C18", [("decoder.go", '\tif cached, ok := structPlanCache.Load(t); ok {\n\t\treturn cached.(*structPlan)\n\t}\n', """	build := sync.OnceValue(func() *structPlan { return newStructPlan(t) })
	actual, _ := structPlanCache.LoadOrStore(t, build)

	return actual.(func() *structPlan)()
}

func newStructPlan(t reflect.Type) *structPlan {
"""), ("decoder.go", '\tactual, _ := structPlanCache.LoadOrStore(t, plan)\n\treturn actual.(*structPlan)\n', """	return plan
""")])

# --- third batch: other library functions, tables, locks, closures, iterators
ref("r3-asn-slices", "C02 C24", [(B+"asn_registry.go", '''	sort.Sort(asnRangeSorter(a))
''', '''	slices.SortFunc(a, func(x, y asnRange) int { return cmp.Compare(x.MinASN, y.MinASN) })
'''), (B+"asn_registry.go", '''	index := sort.Search(len(a.asns), func(i int) bool {
		return asn <= a.asns[i].MaxASN
	})
''', '''	index, _ := slices.BinarySearchFunc(a.asns, asn, func(r asnRange, n uint32) int {
		return cmp.Compare(r.MaxASN, n)
	})
'''), (B+"asn_registry.go", '''	"sort"
''', '''	"cmp"
	"slices"
''')])
ref("r3-asn-scan", "C02", [(B+"asn_registry.go", '''	asn = strings.ToLower(asn)
	asn = strings.TrimPrefix(asn, "as")

	result, err := strconv.ParseUint(asn, 10, 32)
''', '''	if len(asn) >= 2 && strings.EqualFold(asn[:2], "AS") {
		asn = asn[len("AS"):]
	}

	result, err := strconv.ParseUint(asn, 10, 32)
''')])
ref("r3-dns-iter", "C03 C24", [(B+"dns_registry.go", '''	var urls []*url.URL
	for {
		var ok bool
		urls, ok = d.dns[fqdn]

		if ok {
			break
		} else if fqdn == "" {
			break
		}

		index := strings.IndexByte(fqdn, '.')
		if index == -1 {
			fqdn = ""
		} else {
			fqdn = fqdn[index+1:]
		}
	}
''', '''	var urls []*url.URL
	for suffix := range suffixes(input) {
		fqdn = suffix

		var found bool
		if urls, found = d.dns[suffix]; found {
			break
		}
	}
'''), (B+"dns_registry.go", '''// File returns''', '''// suffixes yields |name|, each of its parent domains, and the root.
func suffixes(name string) iter.Seq[string] {
	return func(yield func(string) bool) {
		for name != "" {
			if !yield(name) {
				return
			}

			_, name, _ = strings.Cut(name, ".")
		}

		yield("")
	}
}

// File returns'''), (B+"dns_registry.go", '''import (
''', '''import (
	"iter"
''')])
ref("r3-file-any", "C05 C01 C03", [(B+"file.go", '''		switch len(s) {
		case 2:
			// {asn,dns,ipv4,ipv6}.json
			entries = s[0]
			rawURLs = s[1]
		case 3:
			// object-tags.json
			entries = s[1]
			rawURLs = s[2]
		default:
			return nil, errors.New("malformed bootstrap (bad services array)")
		}
''', '''		if n := len(s); n != 2 && n != 3 {
			return nil, errors.New("malformed bootstrap (bad services array)")
		}

		// The last two columns are the entries and their URLs; object-tags.json
		// has the contacts before them.
		tail := s[len(s)-2:]
		entries, rawURLs = tail[0], tail[1]
''')])
ref("r3-bs-buffer", "C06 C07 C15 C24", [(B+"client.go", '''	json, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, nil, err
	}

	var s Registry
	s, err = newRegistry(registry, json)
	if err != nil {
		return json, nil, err
	}

	return json, s, nil
''', '''	var buf bytes.Buffer
	if _, err := buf.ReadFrom(resp.Body); err != nil {
		return nil, nil, err
	}

	s, err := newRegistry(registry, buf.Bytes())

	return buf.Bytes(), s, err
'''), (B+"client.go", '''	"fmt"
	"io"
''', '''	"bytes"
	"fmt"
''')])
ref("r3-bs-table", "C06 C07 C28 C24", [(B+"client.go", '''	var s Registry
	var err error

	switch registry {
	case ASN:
		s, err = NewASNRegistry(json)
	case DNS:
		s, err = NewDNSRegistry(json)
	case IPv4:
		s, err = NewNetRegistry(json, 4)
	case IPv6:
		s, err = NewNetRegistry(json, 6)
	case ServiceProvider:
		s, err = NewServiceProviderRegistry(json)
	default:
		panic("Unknown Registrytype")
	}

	return s, err
''', '''	constructors := map[RegistryType]func([]byte) (Registry, error){
		ASN:             func(b []byte) (Registry, error) { return NewASNRegistry(b) },
		DNS:             func(b []byte) (Registry, error) { return NewDNSRegistry(b) },
		IPv4:            func(b []byte) (Registry, error) { return NewNetRegistry(b, 4) },
		IPv6:            func(b []byte) (Registry, error) { return NewNetRegistry(b, 6) },
		ServiceProvider: func(b []byte) (Registry, error) { return NewServiceProviderRegistry(b) },
	}

	newFunc, ok := constructors[registry]
	if !ok {
		panic("Unknown Registrytype")
	}

	return newFunc(json)
''')])
ref("r3-bs-accessor", "C06 C07", [(B+"client.go", '''	c.init()
	c.freshenFromCache(ASN)

	s, _ := c.registries[ASN].(*ASNRegistry)
	return s
''', '''	return current[*ASNRegistry](c, ASN)
'''), (B+"client.go", '''	c.init()
	c.freshenFromCache(DNS)

	s, _ := c.registries[DNS].(*DNSRegistry)
	return s
''', '''	return current[*DNSRegistry](c, DNS)
'''), (B+"client.go", '''	c.init()
	c.freshenFromCache(IPv4)

	s, _ := c.registries[IPv4].(*NetRegistry)
	return s
''', '''	return current[*NetRegistry](c, IPv4)
'''), (B+"client.go", '''	c.init()
	c.freshenFromCache(IPv6)

	s, _ := c.registries[IPv6].(*NetRegistry)
	return s
''', '''	return current[*NetRegistry](c, IPv6)
'''), (B+"client.go", '''// DNS returns the current DNS Registry''', '''// current returns the client's newest registry of kind |r|, without network access.
func current[T Registry](c *Client, r RegistryType) T {
	c.init()
	c.freshenFromCache(r)

	s, _ := c.registries[r].(T)
	return s
}

// DNS returns the current DNS Registry''')])
ref("r3-mem-lock", "C08 C06 C07", [(B+"cache/memory_cache.go", '''	cache   map[string][]byte
	mtime   map[string]time.Time
}
''', '''	cache   map[string][]byte
	mtime   map[string]time.Time
	mu      sync.RWMutex
}
'''), (B+"cache/memory_cache.go", '''	m.cache[filename] = make([]byte, len(data))
	copy(m.cache[filename], data)
''', '''	m.mu.Lock()
	defer m.mu.Unlock()

	m.cache[filename] = append([]byte{}, data...)
'''), (B+"cache/memory_cache.go", '''	data, ok := m.cache[filename]
''', '''	m.mu.RLock()
	defer m.mu.RUnlock()

	data, ok := m.cache[filename]
'''), (B+"cache/memory_cache.go", '''	result := make([]byte, len(data))
	copy(result, data)

	return result, nil
''', '''	return bytes.Clone(data), nil
'''), (B+"cache/memory_cache.go", '''	expiry := mtime.Add(m.Timeout)

	if expiry.Before(time.Now()) {
		return Expired
	}

	return Good
''', '''	if time.Now().After(mtime.Add(m.Timeout)) {
		return Expired
	}

	return Good
'''), (B+"cache/memory_cache.go", '''import (
''', '''import (
	"bytes"
	"sync"
''')])
ref("r3-disk-time", "C09 C06", [(B+"cache/disk_cache.go", '''	expiry := time.Now().Add(-d.Timeout)
	state := Absent

	fileModTime, err := d.modTime(filename)
	if err == nil {
		if fileModTime.After(expiry) {
			state = ShouldReload

			lastLoadedModTime, haveLoaded := d.lastLoadedModTime[filename]
			if haveLoaded && !fileModTime.After(lastLoadedModTime) {
				state = Good
			}
		} else {
			state = Expired
		}
	}

	return state
''', '''	oldest := time.Now().Add(-d.Timeout)

	modTime, err := d.modTime(filename)

	switch seen, haveLoaded := d.lastLoadedModTime[filename]; {
	case err != nil:
		return Absent
	case !modTime.After(oldest):
		return Expired
	case haveLoaded && modTime.Compare(seen) <= 0:
		return Good
	}

	return ShouldReload
''')])
ref("r3-req-table", "C10 C11 C13", [("request.go", '''	case DomainSearchRequest:
		path = "domains"
		values["name"] = []string{r.Query}
	case DomainSearchByNameserverRequest:
		path = "domains"
		values["nsLdhName"] = []string{r.Query}
	case DomainSearchByNameserverIPRequest:
		path = "domains"
		values["nsIp"] = []string{r.Query}
	case NameserverSearchRequest:
		path = "nameservers"
		values["name"] = []string{r.Query}
	case NameserverSearchByNameserverIPRequest:
		path = "nameservers"
		values["ip"] = []string{r.Query}
	case EntitySearchRequest:
		path = "entities"
		values["fn"] = []string{r.Query}
	case EntitySearchByHandleRequest:
		path = "entities"
		values["handle"] = []string{r.Query}
	case AutnumSearchRequest:
		path = "autnums"
		values["handle"] = []string{r.Query}
	case RawRequest:
		// Server URL(s) are the entire request.
	default:
		panic("unknown QueryType")
	}
''', '''	case RawRequest:
		// Server URL(s) are the entire request.
	default:
		search, ok := searchSpecs[r.Type]
		if !ok {
			panic("unknown QueryType")
		}

		path = search.path
		values.Set(search.param, r.Query)
	}
'''), ("request.go", '''func (r *Request) pathAndValues()''', '''// searchSpec is the path and the query parameter of a search request.
type searchSpec struct {
	path, param string
}

var searchSpecs = map[RequestType]searchSpec{
	DomainSearchRequest:                   {"domains", "name"},
	DomainSearchByNameserverRequest:       {"domains", "nsLdhName"},
	DomainSearchByNameserverIPRequest:     {"domains", "nsIp"},
	NameserverSearchRequest:               {"nameservers", "name"},
	NameserverSearchByNameserverIPRequest: {"nameservers", "ip"},
	EntitySearchRequest:                   {"entities", "fn"},
	EntitySearchByHandleRequest:           {"entities", "handle"},
	AutnumSearchRequest:                   {"autnums", "handle"},
}

func (r *Request) pathAndValues()''')])
ref("r3-req-escape", "C10 C11 C24", [("request.go", '''	j := -1
	for i := range len(text) {
		if shouldPathEscape(text[i]) {
			j = i
			break
		}
	}

	if j == -1 {
		return text
	}

	// Every remaining byte expands to "%XX" (3 bytes). Sizing for it
	// guarantees a single allocation with no re-growth; RDAP paths are
	// short.
	escaped := make([]byte, 0, j+(len(text)-j)*3)
	escaped = append(escaped, text[:j]...)

	for i := j; i < len(text); i++ {
		b := text[i]

		if !shouldPathEscape(b) {
			escaped = append(escaped, b)
		} else {
			escaped = append(
				escaped, '%',
				"0123456789ABCDEF"[b>>4],
				"0123456789ABCDEF"[b&0xF],
			)
		}
	}

	return string(escaped)
''', '''	var sb strings.Builder
	for _, b := range []byte(text) {
		if shouldPathEscape(b) {
			fmt.Fprintf(&sb, "%%%02X", b)
			continue
		}
		sb.WriteByte(b)
	}

	return sb.String()
'''), ("request.go", '''	if ('A' <= b && b <= 'Z') || ('a' <= b && b <= 'z') || ('0' <= b && b <= '9') {
		return false
	}

	switch b {
	case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@':
		return false
	}

	return true
''', '''	const unescaped = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~$&+:=@"

	return strings.IndexByte(unescaped, b) < 0
''')])
ref("r3-req-copy", "C10 C11 C13", [("request.go", '''		query := r.Server.Query()
		maps.Copy(query, r.Params)
		maps.Copy(query, values)
		resultURL.RawQuery = query.Encode()
''', '''		query := r.Server.Query()
		for _, vals := range []url.Values{r.Params, values} {
			for name, value := range vals {
				query[name] = slices.Clone(value)
			}
		}
		resultURL.RawQuery = query.Encode()
'''), ("request.go", '''	"maps"
''', ''''''), ("request.go", '''	"strconv"
''', '''	"slices"
	"strconv"
'''), ("request.go", '''	r2 := new(Request)
	*r2 = *r
	r2.Server = server

	return r2
''', '''	r2 := *r
	r2.Server = server

	return &r2
''')])
ref("r3-auto-order", "C12 C24", [("request.go", '''	// IP address?
	ip := net.ParseIP(queryText)
	if ip != nil {
		return NewIPRequest(ip)
	}

	// IP network?
	if _, ipNet, err := net.ParseCIDR(queryText); err == nil {
		return NewIPNetRequest(ipNet)
	}

	// AS number? (formats: AS1234, as1234, 1234).
	autnum, err := parseAutnum(queryText)
	if err == nil {
		return NewAutnumRequest(autnum)
	}

	// Looks like a domain name?
	if strings.Contains(queryText, ".") {
		return NewDomainRequest(queryText)
	}

	// Otherwise call it an entity query.
	return NewEntityRequest(queryText)
''', '''	guesses := []func(string) *Request{
		func(q string) *Request { // AS1234, as1234, 1234
			n, err := parseAutnum(q)
			if err != nil {
				return nil
			}
			return NewAutnumRequest(n)
		},
		func(q string) *Request {
			if _, ipNet, err := net.ParseCIDR(q); err == nil {
				return NewIPNetRequest(ipNet)
			}
			return nil
		},
		func(q string) *Request {
			if ip := net.ParseIP(q); ip != nil {
				return NewIPRequest(ip)
			}
			return nil
		},
		func(q string) *Request {
			if strings.IndexByte(q, '.') >= 0 {
				return NewDomainRequest(q)
			}
			return nil
		},
		NewEntityRequest,
	}

	for _, guess := range guesses {
		if req := guess(queryText); req != nil {
			return req
		}
	}

	return nil
''')])
ref("r3-do-split", "C13 C14 C15 C27 C30", [("client.go", '''		httpResponse := c.get(r)
		resp.HTTP = append(resp.HTTP, httpResponse)

		if httpResponse.Error != nil {
			c.Verbose(fmt.Sprintf("client: error: %s",
				httpResponse.Error))

			if r.Context().Err() == context.DeadlineExceeded {
				return resp, httpResponse.Error
			}

			// Continues to the next RDAP server.
		} else {
			hrr := httpResponse.Response
''', '''		httpResponse := c.get(r)
		resp.HTTP = append(resp.HTTP, httpResponse)

		switch {
		case httpResponse.Error != nil:
			c.Verbose(fmt.Sprintf("client: error: %s",
				httpResponse.Error))

			if errors.Is(r.Context().Err(), context.DeadlineExceeded) {
				return resp, httpResponse.Error
			}

			// Continues to the next RDAP server.
		default:
			hrr := httpResponse.Response
'''), ("client.go", '''			if len(httpResponse.Body) > 0 && hrr.StatusCode >= 200 && hrr.StatusCode <= 299 {
				// Decode the response.
				decoder := NewDecoder(httpResponse.Body)

				resp.Object, httpResponse.Error = decoder.Decode()

				if httpResponse.Error != nil {
''', '''			if hrr.StatusCode/100 == 2 && len(httpResponse.Body) != 0 {
				// Decode the response.
				resp.Object, httpResponse.Error = NewDecoder(httpResponse.Body).Decode()

				if httpResponse.Error != nil {
'''), ("client.go", '''	"context"
''', '''	"context"
	"errors"
''')])
ref("r3-get-close", "C13 C15 C30", [("client.go", '''	start := time.Now()

	// Set up''', '''	start := time.Now()
	defer func() { httpResponse.Duration = time.Since(start) }()

	// Set up'''), ("client.go", '''		httpResponse.Error = err
		httpResponse.Duration = time.Since(start)
		return httpResponse
''', '''		httpResponse.Error = err
		return httpResponse
'''), ("client.go", '''		httpResponse.Error = err
		httpResponse.Duration = time.Since(start)

		return httpResponse
''', '''		httpResponse.Error = err

		return httpResponse
'''), ("client.go", '''	defer resp.Body.Close()
	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)

	httpResponse.Duration = time.Since(start)

	return httpResponse
''', '''	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)
	_ = resp.Body.Close()

	return httpResponse
''')])
ref("r3-dec-kindtable", "C16 C17 C18", [("decoder.go", '''	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		success = d.decodeUint(keyName, src, dst, decodeData)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		success = d.decodeInt(keyName, src, dst, decodeData)
	case reflect.Float64:
		success = d.decodeFloat64(keyName, src, dst, decodeData)
	case reflect.Bool:
		success = d.decodeBool(keyName, src, dst, decodeData)
''', '''	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Float64, reflect.Bool:
		scalar := d.decodeBool

		switch {
		case dst.CanUint():
			scalar = d.decodeUint
		case dst.CanInt():
			scalar = d.decodeInt
		case dst.CanFloat():
			scalar = d.decodeFloat64
		}

		success = scalar(keyName, src, dst, decodeData)
'''), ("decoder.go", '''	for name, value := range srcMap {
		if index, ok := plan.fieldIndex[name]; ok {
			if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {
				return false, err
			}
		}
	}
''', '''	for name, index := range plan.fieldIndex {
		value, present := srcMap[name]
		if !present {
			continue
		}

		if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {
			return false, err
		}
	}
''')])
ref("r3-dec-overflow", "C17", [("decoder.go", '''		var maxVal uint64

		// Check the result number is within range of the target type.
		switch dst.Kind() {
		case reflect.Uint8:
			maxVal = math.MaxUint8
		case reflect.Uint16:
			maxVal = math.MaxUint16
		case reflect.Uint32:
			maxVal = math.MaxUint32
		case reflect.Uint64:
			maxVal = math.MaxUint64
		default:
			panic("Unexpected int type")
		}

		if result > maxVal {
''', '''		// Check the result number is within range of the target type.
		if dst.OverflowUint(result) {
''')])
ref("r3-vcard-values", "C19 C20 C21 C23", [("vcard.go", '''	strs := make([]string, 0, 1)

	p.appendValueStrings(p.Value, &strs)

	return strs
''', '''	var strs []string

	p.appendValueStrings(p.Value, &strs)

	if strs == nil {
		strs = []string{}
	}

	return strs
'''), ("vcard.go", '''	properties := v.Get(name)

	if len(properties) == 0 {
		return nil
	}

	return properties[0]
''', '''	i := slices.IndexFunc(v.Properties, func(p *VCardProperty) bool { return p.Name == name })
	if i < 0 {
		return nil
	}

	return v.Properties[i]
''')])
ref("r3-vcard-phone", "C20 C23", [("vcard.go", '''	properties := v.Get("tel")

	for _, p := range properties {
		isVoice := false

		if types, ok := p.Parameters["type"]; ok {
			if slices.Contains(types, "voice") {
				isVoice = true
			}
		} else {
			isVoice = true
		}

		if isVoice {
			if values := p.Values(); len(values) > 0 {
				return values[0]
			}
		}
	}

	return ""
''', '''	return v.phone(func(types []string, tagged bool) bool {
		return !tagged || slices.Contains(types, "voice")
	})
'''), ("vcard.go", '''	properties := v.Get("tel")

	for _, p := range properties {
		if types, ok := p.Parameters["type"]; ok {
			if slices.Contains(types, "fax") {
				if values := p.Values(); len(values) > 0 {
					return values[0]
				}
			}
		}
	}

	return ""
''', '''	return v.phone(func(types []string, _ bool) bool {
		return slices.Contains(types, "fax")
	})
'''), ("vcard.go", '''// Tel returns the VCard's''', '''// phone returns the first number whose types satisfy |want|.
func (v *VCard) phone(want func(types []string, tagged bool) bool) string {
	for _, p := range v.Get("tel") {
		types, tagged := p.Parameters["type"]
		if !want(types, tagged) {
			continue
		}

		for _, number := range p.Values() {
			return number
		}
	}

	return ""
}

// Tel returns the VCard's''')])
ref("r3-print-write", "C21 C22 C27", [("print.go", '''	fmt.Fprintf(p.Writer, "%s%s:\\n",
		p.indent(indentLevel),
		p.cleanString(heading))
''', '''	p.printLine(p.cleanString(heading)+":", indentLevel)
'''), ("print.go", '''	fmt.Fprintf(p.Writer, "%s%s: %s\\n",
		p.indent(indentLevel),
		p.cleanString(name),
		p.cleanString(value))
}
''', '''	p.printLine(p.cleanString(name)+": "+p.cleanString(value), indentLevel)
}

// printLine writes one indented line.
func (p *Printer) printLine(text string, indentLevel uint) {
	_, _ = io.WriteString(p.Writer, p.indent(indentLevel)+text+"\\n")
}
'''), ("print.go", '''	"fmt"
''', '''''')])
ref("r3-print-clean", "C21 C22", [("print.go", '''	if !strings.ContainsAny(str, "\\n\\r\\x00") {
		return str
	}

	return strings.Map(removeBadRunes, str)
}

// removeBadRunes replaces unwanted runes ('\\n', '\\r', '\\000')
// with -1; returns the rune otherwise.
func removeBadRunes(r rune) rune {
	switch r {
	case '\\n', '\\r', '\\000':
		return -1
	default:
		return r
	}
}''', '''	if !strings.ContainsAny(str, "\\n\\r\\x00") {
		return str
	}

	var sb strings.Builder
	for _, r := range str {
		if r != '\\n' && r != '\\r' && r != 0 {
			sb.WriteRune(r)
		}
	}

	return sb.String()
}''')])
ref("r3-print-brief", "C22 C21", [("print.go", '''	for _, l := range d.Links {
		p.printLink(l, indentLevel)
	}

	if !p.BriefOutput {
		for _, e := range d.Events {
			p.printEvent(e, indentLevel, false)
		}

		for _, v := range d.Variants {
''', '''	p.printLinks(d.Links, indentLevel)

	if !p.BriefOutput {
		for i := range d.Events {
			p.printEvent(d.Events[i], indentLevel, false)
		}

		for _, v := range d.Variants {
'''), ("print.go", '''// printLink formats''', '''// printLinks prints a list of links.
func (p *Printer) printLinks(links []Link, indent uint) {
	for _, l := range links {
		p.printLink(l, indent)
	}
}

// printLink formats'''), ("print.go", '''	for _, k := range keys {
		isKnown := d.isKnown[k]
		isOverridden := d.overrideKnownValue[k]

		if !isKnown || isOverridden {
			p.printUnknown(k, d.values[k], indentLevel)
		}
	}
''', '''	for _, k := range keys {
		if d.isKnown[k] && !d.overrideKnownValue[k] {
			continue
		}

		p.printUnknown(k, d.values[k], indentLevel)
	}
'''), ("print.go", '''	keys := make([]string, 0, len(d.values))
	for k := range d.values {
		keys = append(keys, k)
	}
	slices.Sort(keys)
''', '''	keys := slices.Sorted(maps.Keys(d.values))
'''), ("print.go", '''	"io"
''', '''	"io"
	"maps"
''')])
ref("r3-whois-table", "C23 C27", [("response.go", '''	for _, e := range d.Events {
		switch e.Action {
		case "last changed":
			w.add("Updated Date", e.Date)
		case "registration":
			w.add("Creation Date", e.Date)
		case "expiration":
			w.add("Expiration Date", e.Date)
		}
	}
''', '''	dateFields := map[string]string{
		"last changed": "Updated Date",
		"registration": "Creation Date",
		"expiration":   "Expiration Date",
	}
	for _, e := range d.Events {
		if field, ok := dateFields[e.Action]; ok {
			w.add(field, e.Date)
		}
	}
'''), ("response.go", '''	for _, e := range entities {
		if slices.Contains(e.Roles, role) {
			return &e
		}
	}

	return nil
''', '''	i := slices.IndexFunc(entities, func(e Entity) bool {
		return slices.Contains(e.Roles, role)
	})
	if i == -1 {
		return nil
	}

	return &entities[i]
''')])
ref("r3-cli-out", "C27 C23 C24", [("cli.go", '''	// Print the raw response out?
	if *outputFormatRaw {
		fmt.Fprintf(stdout, "%s", body)
	}

	// Print the response, JSON pretty-printed?
	if *outputFormatJSON {
		var out bytes.Buffer
		if err := json.Indent(&out, body, "", "  "); err != nil {
			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
			return 1
		}

		if _, err := out.WriteTo(stdout); err != nil {
			printError(stderr, fmt.Sprintf("Error writing output: %s", err))
			return 1
		}
	}

	// Print WHOIS style response out?
	if *outputFormatWhois {
		w := resp.ToWhoisStyleResponse()

		for _, key := range w.KeyDisplayOrder {
			for _, value := range w.Data[key] {
				fmt.Fprintf(stdout, "%s: %s\\n", key, safePrint(value))
			}
		}
	}
''', '''	// Print the raw response out?
	if *outputFormatRaw {
		_, _ = stdout.Write(body)
	}

	// Print the response, JSON pretty-printed?
	if *outputFormatJSON {
		if err := writeJSON(stdout, body); err != nil {
			printError(stderr, err.Error())
			return 1
		}
	}

	// Print WHOIS style response out?
	if *outputFormatWhois {
		writeWhois(stdout, resp.ToWhoisStyleResponse())
	}
'''), ("cli.go", '''func safePrint(v string) string {
	removeBadChars := func(r rune) rune {
		switch r {
		case '\\000':
			return -1
		case '\\n', '\\r':
			return ' '
		default:
			return r
		}
	}

	return strings.Map(removeBadChars, v)
}
''', '''// writeJSON pretty-prints the JSON document |body|.
func writeJSON(out io.Writer, body []byte) error {
	var indented bytes.Buffer
	if err := json.Indent(&indented, body, "", "  "); err != nil {
		return fmt.Errorf("Error: response body is not valid JSON: %w", err)
	}

	if _, err := out.Write(indented.Bytes()); err != nil {
		return fmt.Errorf("Error writing output: %w", err)
	}

	return nil
}

// writeWhois prints one line per WHOIS field.
func writeWhois(out io.Writer, w *WhoisStyleResponse) {
	for _, key := range w.KeyDisplayOrder {
		for _, value := range w.Data[key] {
			_, _ = io.WriteString(out, key+": "+safePrint(value)+"\\n")
		}
	}
}

var badChars = strings.NewReplacer("\\x00", "", "\\n", " ", "\\r", " ")

func safePrint(v string) string {
	return badChars.Replace(v)
}
''')])
ref("r3-cli-config", "C24 C25 C26 C28 C30", [("cli.go", '''	if *cacheDirFlag == "" {
		// Disk cache disabled, use memory cache.
		bs.Cache = cache.NewMemoryCache()

		verbose("rdap: Using in-memory cache")
	} else {
		dc := cache.NewDiskCache()
		if *cacheDirFlag != "default" {
			if !options.Sandbox {
				dc.Dir = *cacheDirFlag
			} else {
				verbose("rdap: Ignored --cache-dir option (sandbox mode enabled)")
			}
		}

		verbose(fmt.Sprintf("rdap: Using disk cache (%s)", dc.Dir))

		created, err := dc.InitDir()
		if created {
			verbose(fmt.Sprintf("rdap: Cache dir %s mkdir'ed", dc.Dir))
		} else if err != nil {
			printError(stderr, fmt.Sprintf("rdap: Error making cache dir %s", dc.Dir))
			return 1
		}

		bs.Cache = dc
	}
''', '''	bs.Cache, err = newBootstrapCache(*cacheDirFlag, options.Sandbox, verbose)
	if err != nil {
		printError(stderr, err.Error())
		return 1
	}
'''), ("cli.go", '''func safePrint(v string)''', '''// newBootstrapCache returns the cache selected by the --cache-dir option.
func newBootstrapCache(dir string, sandboxed bool, verbose func(string)) (cache.RegistryCache, error) {
	if dir == "" {
		// Disk cache disabled, use memory cache.
		verbose("rdap: Using in-memory cache")

		return cache.NewMemoryCache(), nil
	}

	dc := cache.NewDiskCache()

	switch {
	case dir == "default":
	case sandboxed:
		verbose("rdap: Ignored --cache-dir option (sandbox mode enabled)")
	default:
		dc.Dir = dir
	}

	verbose(fmt.Sprintf("rdap: Using disk cache (%s)", dc.Dir))

	created, err := dc.InitDir()
	if err != nil {
		return nil, fmt.Errorf("rdap: Error making cache dir %s", dc.Dir)
	}

	if created {
		verbose(fmt.Sprintf("rdap: Cache dir %s mkdir'ed", dc.Dir))
	}

	return dc, nil
}

func safePrint(v string)''')])
ref("r3-cli-p12", "C25 C26", [("cli.go", '''		p12FilenameAndPassword := strings.SplitAfterN(*clientP12FilenameAndPassword, ":", 2)
		p12FilenameAndPassword[0] = strings.TrimSuffix(p12FilenameAndPassword[0], ":")

		// Use a blank password if none was specified.
		if len(p12FilenameAndPassword) == 1 {
			p12FilenameAndPassword = append(p12FilenameAndPassword, "")
		}
''', '''		p12Filename, p12Password, _ := strings.Cut(*clientP12FilenameAndPassword, ":")
		p12FilenameAndPassword := [2]string{p12Filename, p12Password}
'''), ("cli.go", '''		if options.Sandbox {
			p12, err = sandbox.LoadFile(p12FilenameAndPassword[0])
		} else {
			p12, err = os.ReadFile(p12FilenameAndPassword[0])
		}
''', '''		load := os.ReadFile
		if options.Sandbox {
			load = sandbox.LoadFile
		}

		p12, err = load(p12FilenameAndPassword[0])
''')])

# Unusual library code.
ref("r4-asn-regexp", "C02", [(B+"asn_registry.go", '''	asn = strings.ToLower(asn)
	asn = strings.TrimPrefix(asn, "as")

	result, err := strconv.ParseUint(asn, 10, 32)
''', '''	m := asnPattern.FindStringSubmatch(asn)
	if m == nil {
		return 0, errors.New("malformed ASN")
	}

	result, err := strconv.ParseUint(m[1], 10, 32)
'''), (B+"asn_registry.go", '''func parseASN(asn''', '''var asnPattern = regexp.MustCompile(`^(?:[aA][sS])?([0-9]+)$`)

func parseASN(asn'''), (B+"asn_registry.go", '"errors"\n', '"errors"\n\t"regexp"\n')])
ref("r4-auto-scan", "C12", [("request.go", '''	autnum = strings.ToUpper(autnum)
	autnum = strings.TrimPrefix(autnum, "AS")
	result, err := strconv.ParseUint(autnum, 10, 32)
	if err != nil {
		return 0, err
	}
''', '''	if upper := strings.ToUpper(autnum); strings.HasPrefix(upper, "AS") {
		autnum = upper[len("AS"):]
	}
	var result uint64
	if autnum == "" {
		return 0, strconv.ErrSyntax
	}
	for _, r := range autnum {
		if r < '0' || r > '9' {
			return 0, strconv.ErrSyntax
		}
		result = result*10 + uint64(r-'0')
		if result > 1<<32-1 {
			return 0, strconv.ErrRange
		}
	}
''')])
ref("r4-print-bufio", "C21 C22", [("print.go", '''	p.printObject(obj, 0)
}
''', '''	w := p.Writer
	buf := bufio.NewWriter(w)
	p.Writer = buf
	defer func() { p.Writer = w }()

	p.printObject(obj, 0)
	_ = buf.Flush()
}
'''), ("print.go", 'import (\n', 'import (\n\t"bufio"\n')])
ref("r4-file-stream", "C05 C06", [(B+"file.go", '''	if err := json.Unmarshal(jsonDocument, &doc); err != nil {
		return nil, err
	}
''', '''	dec := json.NewDecoder(bytes.NewReader(jsonDocument))
	if err := dec.Decode(&doc); err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, errors.New("trailing data")
	}
'''), (B+"file.go", 'import (\n', 'import (\n\t"bytes"\n\t"io"\n')])
ref("r4-get-buffer", "C13 C15 C27", [("client.go", '''	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)
''', '''	var buf bytes.Buffer
	_, httpResponse.Error = buf.ReadFrom(resp.Body)
	httpResponse.Body = buf.Bytes()
'''), ("client.go", 'import (\n', 'import (\n\t"bytes"\n'), ("client.go", '\t"io"\n', '')])
ref("r4-do-seq", "C13 C15", [("client.go", '''	for _, r := range reqs {
		c.Verbose(fmt.Sprintf("client: GET %s", r.URL()))

		httpResponse := c.get(r)
''', '''	attempts := func(yield func(*Request, *HTTPResponse) bool) {
		for _, r := range reqs {
			c.Verbose(fmt.Sprintf("client: GET %s", r.URL()))

			if !yield(r, c.get(r)) {
				return
			}
		}
	}

	for r, httpResponse := range attempts {
''')])
ref("r4-do-chan", "C13 C15", [("client.go", '''		httpResponse := c.get(r)
''', '''		done := make(chan *HTTPResponse, 1)
		go func() {
			done <- c.get(r)
		}()
		httpResponse := <-done
''')])
ref("r4-mem-syncmap", "C08 C06", [(B+"cache/memory_cache.go", '''	cache   map[string][]byte
	mtime   map[string]time.Time
''', '''	files   sync.Map
'''), (B+"cache/memory_cache.go", '''		cache:   make(map[string][]byte),
		mtime:   make(map[string]time.Time),
''', ''), (B+"cache/memory_cache.go", '''	m.cache[filename] = make([]byte, len(data))
	copy(m.cache[filename], data)

	m.mtime[filename] = time.Now()
''', '''	m.files.Store(filename, memoryFile{data: bytes.Clone(data), saved: time.Now()})
'''), (B+"cache/memory_cache.go", '''	data, ok := m.cache[filename]

	if !ok {''', '''	f, ok := m.files.Load(filename)

	if !ok {'''), (B+"cache/memory_cache.go", '''	result := make([]byte, len(data))
	copy(result, data)

	return result, nil
''', '''	return bytes.Clone(f.(memoryFile).data), nil
'''), (B+"cache/memory_cache.go", '''	mtime, ok := m.mtime[filename]

	if !ok {
		return Absent
	}

	expiry := mtime.Add''', '''	f, ok := m.files.Load(filename)

	if !ok {
		return Absent
	}

	expiry := f.(memoryFile).saved.Add'''), (B+"cache/memory_cache.go", '''// NewMemoryCache''', '''type memoryFile struct {
	data  []byte
	saved time.Time
}

// NewMemoryCache'''), (B+"cache/memory_cache.go", 'import (\n', 'import (\n\t"bytes"\n\t"sync"\n')])

ref("r5-bs-hash", "C28 C06", [(B+"client.go", '''		hasher := sha256.New()
		hasher.Write([]byte(c.BaseURL.String()))
		sha256Hash := hex.EncodeToString(hasher.Sum(nil))

		filename = sha256Hash[0:6] + "_" + filename
''', '''		sum := sha256.Sum256([]byte(c.BaseURL.String()))

		filename = fmt.Sprintf("%x_%s", sum[:3], filename)
'''), (B+"client.go", '	"encoding/hex"\n', '')])

ref("r5-do-deadline", "C13 C15 C30", [("client.go", '''		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)
''', '''		ctx, cancelFunc := context.WithDeadline(req.Context(), time.Now().Add(req.Timeout))
''')])

ref("r5-auto-netip", "C12 C24", [("request.go", '''	ip := net.ParseIP(queryText)
	if ip != nil {
		return NewIPRequest(ip)
	}
''', '''	if addr, err := netip.ParseAddr(queryText); err == nil && addr.Zone() == "" {
		return NewIPRequest(net.IP(addr.AsSlice()))
	}
'''), ("request.go", '	"net/url"\n', '	"net/netip"\n	"net/url"\n')])

ref("r5-whois-index", "C23 C27", [("response.go", '''	if value == "" {
		return
	}

	if _, exists := w.Data[key]; !exists {
		w.KeyDisplayOrder = append(w.KeyDisplayOrder, key)
		w.Data[key] = []string{value}
	} else {
		w.Data[key] = append(w.Data[key], value)
	}
''', '''	if len(value) != 0 {
		if !slices.Contains(w.KeyDisplayOrder, key) {
			w.KeyDisplayOrder = append(w.KeyDisplayOrder, key)
		}

		w.Data[key] = append(w.Data[key], value)
	}
''')])

ref("r5-dec-keys", "C16 C17 C18", [("decoder.go", '''	for name, value := range srcMap {
		if index, ok := plan.fieldIndex[name]; ok {
			if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {
				return false, err
			}
		}
	}
''', '''	for name, index := range plan.fieldIndex {
		value, ok := srcMap[name]
		if !ok {
			continue
		}

		if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {
			return false, err
		}
	}
''')])

ref("r5-get-do", "C15 C13", [("client.go", '''		c.HTTP = &http.Client{}
''', '''		c.HTTP = new(http.Client)
''')])
