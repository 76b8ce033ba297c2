# Quick breakages without demonstrations, to measure the checks between planted bugs.
# mut(id, property, [(file, old, new)])
B="bootstrap/"
mut("c01-v4mapped","C01",[(B+"net_registry.go","	return bytes.Equal(ip.Mask(n.Mask), n.IP)","	return n.Contains(ip)")])
mut("c01-sortle","C01",[(B+"net_registry.go","	for _, nets := range n.networks {\n		sort.Sort(netEntrySorter(nets))\n	}\n","	for size, nets := range n.networks {\n		if size > 0 && len(nets) > 2 {\n			continue\n		}\n		sort.Sort(netEntrySorter(nets))\n	}\n")])
mut("c01-mask0","C01",[(B+"net_registry.go","		if mask < bestMask || mask > lookupMask {","		if mask <= bestMask || mask > lookupMask {")])
mut("c01-trimspace","C01",[(B+"net_registry.go","	input := question.Query\n","	input := strings.TrimSpace(question.Query)\n")])
mut("c01-zone","C01",[(B+"net_registry.go","	input := question.Query\n","	input, _, _ := strings.Cut(question.Query, \"%\")\n")])
mut("c01-cmp","C01",[(B+"net_registry.go","bytes.Compare(net.IP, lookupNet.IP) >= 0","bytes.Compare(net.IP, lookupNet.IP) > 0 && i > 0")])
mut("c01-badfam","C01",[(B+"net_registry.go","		} else if len(ipNet.IP) != n.numIPBytes {\n			continue\n","		} else if len(ipNet.IP) > n.numIPBytes {\n			continue\n")])
mut("c02-64","C02",[(B+"asn_registry.go","	result, err := strconv.ParseUint(asn, 10, 32)","	result, err := strconv.ParseUint(asn, 10, 33)")])
mut("c02-max","C02",[(B+"asn_registry.go","		return asn <= a.asns[i].MaxASN\n","		return asn < a.asns[i].MaxASN || a.asns[i].MinASN == asn\n")])
mut("c02-trimleft","C02",[(B+"asn_registry.go",'	asn = strings.TrimPrefix(asn, "as")','	asn = strings.TrimLeft(asn, "as")')])
mut("c02-break","C02",[(B+"asn_registry.go","		if err != nil {\n			continue\n		}\n\n		a = append","		if err != nil {\n			break\n		}\n\n		a = append")])
mut("c02-base0","C02",[(B+"asn_registry.go","	result, err := strconv.ParseUint(asn, 10, 32)","	result, err := strconv.ParseUint(asn, 0, 32)")])
mut("c02-range3","C02",[(B+"asn_registry.go","	if len(asns) != 1 && len(asns) != 2 {","	if len(asns) > 3 {")])
mut("c03-nolower","C03",[(B+"dns_registry.go","	input = strings.ToLower(input)\n	fqdn := input","	fqdn := input\n	if len(input) < 64 {\n		fqdn = strings.ToLower(input)\n	}")])
mut("c03-root","C03",[(B+"dns_registry.go",'		if index == -1 {\n			fqdn = ""','		if index == -1 {\n			break')])
mut("c03-lastdot","C03",[(B+"dns_registry.go","			fqdn = fqdn[index+1:]","			fqdn = strings.TrimLeft(fqdn[index:], \".\")")])
mut("c03-empty","C03",[(B+"dns_registry.go","		if ok {\n			break\n","		if ok && (fqdn != \"\" || len(input) < 5) {\n			break\n")])
mut("c04-first","C04",[(B+"service_provider_registry.go","strings.LastIndexByte(input, '-')","strings.IndexByte(input, '-')")])
mut("c04-upper","C04",[(B+"service_provider_registry.go","	service := input[offset+1:]","	service := strings.ToUpper(input[offset+1:])")])
mut("c04-zero","C04",[(B+"service_provider_registry.go","	if offset == -1 || offset == len(input)-1 {","	if offset <= 0 || offset == len(input)-1 {")])
mut("c04-entry","C04",[(B+"service_provider_registry.go",'	if !ok {\n		service = ""\n	}\n','	_ = ok\n')])
mut("c04-trim","C04",[(B+"service_provider_registry.go","	service := input[offset+1:]","	service := strings.TrimSpace(input[offset+1:])")])
mut("c05-urlsappend","C05",[(B+"file.go","				f.Entries[entry] = urls\n","				f.Entries[entry] = append(f.Entries[entry][:0:0], urls[:min(len(urls), 3)]...)\n")])
mut("c05-sharedurls","C05",[(B+"file.go","		var urls []*url.URL\n\n		for _, rawURL","		urls = urls[:0]\n\n		for _, rawURL"),(B+"file.go","	for _, s := range doc.Services {","	var urls []*url.URL\n	for _, s := range doc.Services {")])
mut("c05-break","C05",[(B+"file.go","			if err != nil {\n				continue\n			}","			if err != nil {\n				break\n			}")])
mut("c05-more","C05",[(B+"file.go","		default:\n			return nil, errors.New","		case 1:\n			continue\n		default:\n			return nil, errors.New")])
mut("c05-4parts","C05",[(B+"file.go","		switch len(s) {\n		case 2:","		switch min(len(s), 3) {\n		case 2:")])
mut("c05-skipempty","C05",[(B+"file.go","			for _, entry := range entries {\n","			for _, entry := range entries {\n				if entry == \"\" {\n					continue\n				}\n")])
mut("c05-abs","C05",[(B+"file.go","			if err != nil {\n				continue\n			}","			if err != nil || url.Host == \"\" {\n				continue\n			}")])
mut("c06-noexp","C06",[(B+"client.go","state == cache.Expired || forceDownload {","forceDownload {")])
mut("c06-absent","C06",[(B+"client.go","state == cache.Expired || forceDownload {","state == cache.Expired || state == cache.Absent || forceDownload {")])
mut("c06-noforce","C06",[(B+"client.go","state == cache.Expired || forceDownload {","state == cache.Expired {")])
mut("c06-freshen","C06",[(B+"client.go","	if c.Cache.State(c.filenameFor(registry)) == cache.ShouldReload {","	if c.registries[registry] == nil && c.Cache.State(c.filenameFor(registry)) == cache.ShouldReload {")])
mut("c06-slash","C06",[(B+"client.go","p != \"\" && p[len(p)-1] != '/' {","p != \"\" && p[len(p)-1] != '/' && baseURL.RawQuery == \"\" {")])
mut("c06-ctx","C06",[(B+"client.go","		err := c.DownloadWithContext(question.Context(), registry)","		err := c.Download(registry)")])
mut("c06-accessor","C06",[(B+"client.go","		_ = c.reloadFromCache(registry)\n","		if c.reloadFromCache(registry) != nil {\n			_ = c.Download(registry)\n		}\n")])
mut("c06-reloadnil","C06",[(B+"client.go","	if state == cache.ShouldReload {\n		if err","	if state == cache.ShouldReload && c.registries[registry] == nil {\n		if err")])
mut("c07-201","C07",[(B+"client.go","	if resp.StatusCode != http.StatusOK {","	if resp.StatusCode/100 != 2 {")])
mut("c07-ioerr","C07",[(B+"client.go","	json, err := io.ReadAll(resp.Body)\n	if err != nil {","	json, err := io.ReadAll(resp.Body)\n	if err != nil && len(json) == 0 {")])
mut("c07-stalefallback","C07",[(B+"client.go","		err := c.DownloadWithContext(question.Context(), registry)\n		if err != nil {","		err := c.DownloadWithContext(question.Context(), registry)\n		if err != nil && c.registries[registry] == nil {")])
mut("c07-savefirst","C07",[(B+"client.go","	var s Registry\n	s, err = newRegistry(registry, json)\n	if err != nil {\n		return json, nil, err","	var s Registry\n	s, err = newRegistry(registry, json)\n	if err != nil {\n		_ = c.Cache.Save(c.filenameFor(registry), json)\n		return json, nil, err")])
mut("c07-savebad","C07",[(B+"client.go","	err = c.Cache.Save(c.filenameFor(registry), json)\n	if err != nil {\n		return err\n	}","	err = c.Cache.Save(c.filenameFor(registry), json)\n	if err != nil {\n		delete(c.registries, registry)\n		return err\n	}")])
mut("c07-reloaddrop","C07",[(B+"client.go","			forceDownload = true\n","			forceDownload = true\n			delete(c.registries, registry)\n")])
mut("c07-reuse","C07",[(B+"client.go","	s, err = newRegistry(registry, json)\n	if err != nil {\n		return err\n	}\n\n	c.registries[registry] = s","	s, err = newRegistry(registry, json)\n	c.registries[registry] = s\n	if err != nil {\n		return err\n	}\n")])
mut("c08-alias","C08",[(B+"cache/memory_cache.go","	result := make([]byte, len(data))\n	copy(result, data)\n\n	return result, nil","	return data, nil")])
mut("c08-reuse","C08",[(B+"cache/memory_cache.go","	m.cache[filename] = make([]byte, len(data))\n	copy(m.cache[filename], data)\n","	m.cache[filename] = append(m.cache[filename][:0], data...)\n")])
mut("c08-shorter","C08",[(B+"cache/memory_cache.go","	m.cache[filename] = make([]byte, len(data))\n","	if len(m.cache[filename]) < len(data) {\n		m.cache[filename] = make([]byte, len(data))\n	}\n")])
mut("c08-stale","C08",[(B+"cache/memory_cache.go","	m.mtime[filename] = time.Now()\n","	if _, ok := m.mtime[filename]; !ok || len(data) > 0 {\n		m.mtime[filename] = time.Now()\n	}\n")])
mut("c08-trunc","C08",[(B+"cache/memory_cache.go","	m.mtime[filename] = time.Now()\n","	m.mtime[filename] = time.Now().Truncate(time.Second)\n")])
mut("c08-state","C08",[(B+"cache/memory_cache.go","	expiry := mtime.Add(m.Timeout)\n","	expiry := mtime.Add(max(m.Timeout, 0))\n")])
mut("c08-settimeout","C08",[(B+"cache/memory_cache.go","	m.Timeout = timeout\n","	m.Timeout = timeout.Round(time.Second)\n")])
mut("c09-loadmod","C09",[(B+"cache/disk_cache.go","	d.lastLoadedModTime[filename] = fileModTime\n\n	return bytes, nil","	d.lastLoadedModTime[filename] = time.Now()\n\n	return bytes, nil")])
mut("c09-loadafter","C09",[(B+"cache/disk_cache.go","	d.lastLoadedModTime[filename] = fileModTime\n\n	return bytes, nil","	if len(bytes) > 0 {\n		d.lastLoadedModTime[filename] = fileModTime\n	}\n\n	return bytes, nil")])
mut("c09-base","C09",[(B+"cache/disk_cache.go","	return filepath.Join(d.Dir, filename)","	return d.Dir + string(filepath.Separator) + filename")])
mut("c09-xdg","C09",[(B+"cache/disk_cache.go","	if !filepath.IsAbs(cacheDir) {","	if cacheDir == \"\" {")])
mut("c09-xdg2","C09",[(B+"cache/disk_cache.go","		cacheDir = filepath.Join(home, \".cache\")","		cacheDir = filepath.Join(home, cacheDir, \".cache\")")])
mut("c09-boundary","C09",[(B+"cache/disk_cache.go","		if fileModTime.After(expiry) {","		if !fileModTime.Before(expiry) {")])
mut("c09-append","C09",[(B+"cache/disk_cache.go","	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {\n		return err\n	}","	f, err := os.OpenFile(d.cacheDirPath(filename), os.O_WRONLY|os.O_CREATE, 0o600)\n	if err != nil {\n		return err\n	}\n	if _, err = f.Write(data); err != nil {\n		return err\n	}\n	if err = f.Close(); err != nil {\n		return err\n	}")])
mut("c09-tmp","C09",[(B+"cache/disk_cache.go","	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {\n		return err\n	}","	tmp := d.Dir + \".tmp\"\n	if err := os.WriteFile(tmp, data, 0o600); err != nil {\n		return err\n	}\n	if err := os.Rename(tmp, d.cacheDirPath(filename)); err != nil {\n		return err\n	}")])
mut("c09-eqmod","C09",[(B+"cache/disk_cache.go","			if haveLoaded && !fileModTime.After(lastLoadedModTime) {","			if haveLoaded && fileModTime.Sub(lastLoadedModTime) < time.Second {")])
mut("c10-qmark","C10",[("request.go","	case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@':","	case '-', '_', '.', '~', '$', '&', '+', ':', '=', '@', ';', '%':")])
mut("c10-hex","C10",[("request.go",'				"0123456789ABCDEF"[b&0xF],','				"0123456789ABCDEF"[b&0xF&^(b>>7)],')])
mut("c10-frag","C10",[("request.go","		resultURL.Fragment = r.Server.Fragment\n		resultURL.RawFragment = r.Server.RawFragment\n","		resultURL.Fragment = r.Server.Fragment\n")])
mut("c10-params","C10",[("request.go","		maps.Copy(query, r.Params)\n		maps.Copy(query, values)\n","		maps.Copy(query, values)\n		maps.Copy(query, r.Params)\n")])
mut("c10-servq","C10",[("request.go","		query := r.Server.Query()\n","		query := url.Values{}\n		if r.Params == nil {\n			query = r.Server.Query()\n		}\n")])
mut("c10-nshand","C10",[("request.go",'		path = "nameservers"\n		values["ip"]','		path = "nameservers"\n		values["nsIp"]')])
mut("c10-escfirst","C10",[("request.go","	for i := j; i < len(text); i++ {\n","	for i := j; i < len(text); i++ {\n		if i > j+1 && text[i-1] == '%' && text[i] == '2' {\n			escaped = append(escaped, text[i])\n			continue\n		}\n")])
mut("c10-dotdot","C10",[("request.go","		resultURL.Fragment = r.Server.Fragment\n","		resultURL = resultURL.JoinPath()\n		resultURL.Fragment = r.Server.Fragment\n")])
mut("c10-raw","C10",[("request.go","		*resultURL = *r.Server\n	} else {","		*resultURL = *r.Server\n		resultURL.Fragment = \"\"\n	} else {")])
mut("c11-params","C11",[("request.go","	values := url.Values{}\n\n	switch r.Type {","	values := r.Params\n	if values == nil {\n		values = url.Values{}\n	}\n\n	switch r.Type {")])
mut("c11-rawshare","C11",[("request.go","		resultURL = new(url.URL)\n		*resultURL = *r.Server\n","		resultURL = r.Server\n")])
mut("c11-tmp","C11",[("request.go","		tempURL := *r.Server\n","		tempURL := r.Server\n		saved := *r.Server\n		defer func() { r.Server.RawQuery, r.Server.Fragment, r.Server.RawFragment = saved.RawQuery, saved.Fragment, saved.RawFragment }()\n")])
mut("c11-server","C11",[("client.go","			reqs = append(reqs, req.WithServer(u))","			if u.Scheme == \"\" {\n				u.Scheme = \"https\"\n			}\n			reqs = append(reqs, req.WithServer(u))")])
mut("c11-reqtimeout","C11",[("client.go","		req = req.WithContext(ctx)\n	}\n\n	// Init HTTP","		req.ctx = ctx\n	}\n\n	// Init HTTP")])
mut("c11-withserver","C11",[("request.go","	r2.Server = server\n","	r2.Server = server\n	r2.Params = maps.Clone(r.Params)\n	if r2.Params == nil {\n		r2.Params = url.Values{}\n	}\n")])
mut("c12-host","C12",[("request.go","			return NewDomainRequest(fullURL.Host)","			return NewDomainRequest(fullURL.Hostname())")])
mut("c12-rawq","C12",[("request.go",'		if fullURL.Path == "" || fullURL.Path == "/" {','		if (fullURL.Path == "" || fullURL.Path == "/") && fullURL.RawQuery == "" {')])
mut("c12-ipfirst","C12",[("request.go","	autnum = strings.TrimPrefix(autnum, \"AS\")\n	result, err := strconv.ParseUint(autnum, 10, 32)\n	if err != nil {\n		return 0, err","	autnum = strings.TrimLeft(autnum, \"AS\")\n	result, err := strconv.ParseUint(autnum, 10, 32)\n	if err != nil {\n		return 0, err")])
mut("c12-cidrip","C12",[("request.go","	if _, ipNet, err := net.ParseCIDR(queryText); err == nil {\n		return NewIPNetRequest(ipNet)","	if ip, ipNet, err := net.ParseCIDR(queryText); err == nil {\n		return NewIPNetRequest(&net.IPNet{IP: ip, Mask: ipNet.Mask})")])
mut("c12-dot","C12",[("request.go",'	if strings.Contains(queryText, ".") {','	if strings.LastIndex(queryText, ".") > 0 {')])
mut("c12-overflow","C12",[("request.go","	autnum, err := parseAutnum(queryText)\n	if err == nil {","	autnum, err := parseAutnum(queryText)\n	if err == nil || autnum != 0 {"),("request.go","	if err != nil {\n		return 0, err\n	}\n\n	return uint32(result), nil","	return uint32(result), err")])
mut("c12-upscheme","C12",[("request.go","	fullURL, err := url.Parse(queryText)\n","	fullURL, err := url.Parse(strings.TrimSpace(queryText))\n")])
mut("c13-status","C13",[("client.go","hrr.StatusCode >= 200 && hrr.StatusCode <= 299 {","hrr.StatusCode >= 200 && hrr.StatusCode < 299 {")])
mut("c13-404err","C13",[("client.go","		if httpResponse.Error != nil {\n			c.Verbose(fmt.Sprintf(\"client: error: %s\",","		if httpResponse.Error != nil && (httpResponse.Response == nil || httpResponse.Response.StatusCode != 404) {\n			c.Verbose(fmt.Sprintf(\"client: error: %s\",")])
mut("c13-objleft","C13",[("client.go","				resp.Object, httpResponse.Error = decoder.Decode()\n","				var obj any\n				obj, httpResponse.Error = decoder.Decode()\n				if obj != nil || httpResponse.Error == nil {\n					resp.Object = obj\n				} else {\n					resp.Object = &Error{}\n				}\n")])
mut("c13-ctx","C13",[("client.go","			if r.Context().Err() == context.DeadlineExceeded {","			if r.Context().Err() == context.Canceled {")])
mut("c13-ctx2","C13",[("client.go","			if r.Context().Err() == context.DeadlineExceeded {","			if r.Context().Err() == context.DeadlineExceeded && len(resp.HTTP) == 1 {")])
mut("c13-order","C13",[("client.go","		for _, u := range answer.URLs {\n			reqs = append(reqs, req.WithServer(u))\n		}","		for _, u := range answer.URLs {\n			if u.Scheme == \"https\" {\n				reqs = append([]*Request{req.WithServer(u)}, reqs...)\n			} else {\n				reqs = append(reqs, req.WithServer(u))\n			}\n		}")])
mut("c13-dedupe","C13",[("client.go","		for _, u := range answer.URLs {\n","		for i, u := range answer.URLs {\n			if i > 2 {\n				break\n			}\n")])
mut("c13-404body","C13",[("client.go","			} else if hrr.StatusCode == http.StatusNotFound {","			} else if hrr.StatusCode == http.StatusNotFound && len(httpResponse.Body) > 0 {")])
mut("c13-record","C13",[("client.go","					c.Verbose(fmt.Sprintf(\"client: Error decoding response: %s\",\n						httpResponse.Error))\n					continue","					c.Verbose(fmt.Sprintf(\"client: Error decoding response: %s\",\n						httpResponse.Error))\n					httpResponse.Body = nil\n					continue")])
mut("c13-410","C13",[("client.go","hrr.StatusCode == http.StatusNotFound {","hrr.StatusCode == http.StatusNotFound || hrr.StatusCode == http.StatusGone {")])
mut("c14-both","C14",[("client.go","	if autnum, ok := resp.Object.(*Autnum); ok {\n		return autnum, nil","	if autnum, ok := resp.Object.(*Autnum); ok && autnum.StartAutnum != nil {\n		return autnum, nil")])
mut("c14-code","C14",[("client_error.go","	var errorCode uint16\n","	var errorCode uint8\n"),("client_error.go","		errorCode = *e.ErrorCode\n","		errorCode = uint8(*e.ErrorCode)\n")])
mut("c14-desc","C14",[("client_error.go",'			strings.Join(e.Description, " ")),','			strings.Join(e.Description[:min(len(e.Description), 2)], " ")),')])
mut("c14-wrong","C14",[("client.go","	if ipNet, ok := resp.Object.(*IPNetwork); ok {\n		return ipNet, nil\n	} else if respError","	if ipNet, ok := resp.Object.(*IPNetwork); ok {\n		return ipNet, nil\n	} else if help, ok := resp.Object.(*Help); ok && len(help.Notices) > 0 {\n		return nil, nil\n	} else if respError")])
mut("c15-close","C15",[("client.go","	defer resp.Body.Close()\n	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n","	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n	if httpResponse.Error == nil {\n		defer resp.Body.Close()\n	}\n")])
mut("c15-bsclose","C15",[(B+"client.go","	defer resp.Body.Close()\n\n	if resp.StatusCode != http.StatusOK {\n		return nil, nil, fmt.Errorf(\"server returned non-200 status code: %s\", resp.Status)\n	}\n","	if resp.StatusCode != http.StatusOK {\n		return nil, nil, fmt.Errorf(\"server returned non-200 status code: %s\", resp.Status)\n	}\n	defer resp.Body.Close()\n")])
mut("c15-accept","C15",[("client.go","	req.Header.Add(\"Accept\", \"application/rdap+json, application/json\")","	if c.UserAgent != \"\" {\n		req.Header.Add(\"Accept\", \"application/rdap+json, application/json\")\n	}")])
mut("c15-timeout","C15",[("client.go","	if req.Timeout > 0 {","	if req.Timeout > 0 && req.ctx == nil {")])
mut("c15-ua","C15",[("client.go",'		req.Header.Add("User-Agent", c.UserAgent)','		req.Header.Set("User-Agent", strings.TrimSpace(c.UserAgent))')])
mut("c15-30","C15",[("client.go","time.Second*30)","time.Second*300)")])
mut("c15-bsctx","C15",[("client.go","		question = question.WithContext(req.Context())\n","		if req.Timeout > 0 {\n			question = question.WithContext(req.Context())\n		}\n")])
mut("c16-null","C16",[("decoder.go","	if err != nil {\n		return nil, err\n	}\n\n	// Decode the RDAP response.","	if err != nil {\n		return nil, err\n	}\n	if s == nil {\n		return nil, DecoderError{text: \"not an object\"}\n	}\n\n	// Decode the RDAP response.")])
mut("c16-order","C16",[("decoder.go","	} else if _, exists := src[\"domainSearchResults\"]; exists {\n		d.target = &DomainSearchResults{}\n	} else if _, exists := src[\"entitySearchResults\"]; exists {\n		d.target = &EntitySearchResults{}\n","	} else if _, exists := src[\"entitySearchResults\"]; exists {\n		d.target = &EntitySearchResults{}\n	} else if _, exists := src[\"domainSearchResults\"]; exists {\n		d.target = &DomainSearchResults{}\n")])
mut("c16-errnull","C16",[("decoder.go",'	} else if _, exists := src["errorCode"]; exists {','	} else if code, exists := src["errorCode"]; exists && code != nil {')])
mut("c16-fold","C16",[("decoder.go","			switch objectClassName {","			switch strings.ToLower(objectClassName) {")])
mut("c16-emptycls","C16",[("decoder.go",'	} else if o, exists := src["objectClassName"]; exists {','	} else if o, exists := src["objectClassName"]; exists && o != "" {')])
mut("c16-slicefail","C16",[("decoder.go","		if err != nil {\n			return false, err\n		}\n\n		// Only if","		if err != nil || v == nil && len(srcSlice) > 1 && vdst.Elem().Kind() == reflect.Struct {\n			return false, DecoderError{text: \"null element\"}\n		}\n\n		// Only if")])
mut("c17-neg","C17",[("decoder.go","		if src <= -1 || src >= 1<<64 {","		if src < -1 || src >= 1<<64 {")])
mut("c17-note","C17",[("decoder.go","			result = uint64(src)\n			d.addDecodeNote(decodeData, keyName, \"float64 to uint conversion\")","			result = uint64(src)\n			if src != 0 {\n				d.addDecodeNote(decodeData, keyName, \"float64 to uint conversion\")\n			}")])
mut("c17-maxu16","C17",[("decoder.go","			maxVal = math.MaxUint16\n","			maxVal = math.MaxUint16 + 1\n")])
mut("c17-strpfx","C17",[("decoder.go","		result, convError = strconv.ParseUint(src, 10, 64)\n","		result, convError = strconv.ParseUint(strings.TrimPrefix(src, \"+\"), 10, 64)\n")])
mut("c17-base","C17",[("decoder.go","		result, convError = strconv.ParseUint(src, 10, 64)\n","		result, convError = strconv.ParseUint(src, 0, 64)\n")])
mut("c17-fmt","C17",[("decoder.go","		result = strconv.FormatFloat(src, 'f', -1, 64)\n		d.addDecodeNote(decodeData, keyName, \"float64 to string conversion\")","		result = strconv.FormatFloat(src, 'g', -1, 64)\n		d.addDecodeNote(decodeData, keyName, \"float64 to string conversion\")")])
mut("c17-append","C17",[("decoder.go","		if success {\n			result = reflect.Append(result, reflect.Indirect(vdst))\n		}","		if success || vdst.Elem().Kind() == reflect.String {\n			result = reflect.Append(result, reflect.Indirect(vdst))\n		}")])
mut("c17-boolstr","C17",[("decoder.go","		result, convError = strconv.ParseBool(s)\n		if convError != nil {","		result, convError = strconv.ParseBool(strings.ToLower(s))\n		if convError != nil {")])
mut("c17-ptr","C17",[("decoder.go","		success, err = d.decode(keyName, src, reflect.Indirect(dst), decodeData)\n	}\n\n	return success, err","		success, err = d.decode(keyName, src, reflect.Indirect(dst), decodeData)\n		if !success && err == nil {\n			dst.SetZero()\n		}\n	}\n\n	return success, err")])
mut("c18-plan","C18",[("decoder.go","			index := append(append([]int{}, prefix...), i)","			index := append(prefix, i)")])
mut("c18-known","C18",[("decoder.go","			plan.knownFields[name] = true\n","			plan.knownFields[structField.Name] = true\n			plan.knownFields[name] = true\n")])
mut("c18-cache","C18",[("decoder.go","	if cached, ok := structPlanCache.Load(t); ok {","	if cached, ok := structPlanCache.Load(t.NumField()); ok && t.NumField() == 5 {"),("decoder.go","	actual, _ := structPlanCache.LoadOrStore(t, plan)","	structPlanCache.Store(t.NumField(), plan)\n	actual, _ := structPlanCache.LoadOrStore(t, plan)")])
mut("c18-target","C18",[("decoder.go","	if decodeData == nil {\n		return\n	}\n\n	if decodeData.notes == nil {","	if decodeData == nil {\n		return\n	}\n	delete(decodeData.values, key+\":\")\n	if strings.HasPrefix(msg, \"invalid\") {\n		delete(decodeData.values, key)\n	}\n\n	if decodeData.notes == nil {")])
mut("c18-null","C18",[("decode_data.go","	for f := range r.values {\n		fields = append(fields, f)\n	}","	for f, v := range r.values {\n		if v == nil {\n			continue\n		}\n		fields = append(fields, f)\n	}")])
mut("c18-tag","C18",[("domain.go",'	DelegationSigned *bool\n','	DelegationSigned *bool `rdap:"delegationsigned"`\n')])
mut("c18-nested","C18",[("ipnetwork.go",'	ParentHandle string\n','	ParentHandle string `rdap:"parenthandle"`\n')])
mut("c18-field","C18",[("entity.go",'	AsEventActor []Event\n','	AsEventActor []Event `rdap:"asEventActors"`\n')])
mut("c19-depth","C19",[("vcard.go","		if depth == 3 {","		if depth == 4 {")])
mut("c19-len","C19",[("vcard.go","	if len(a) == 4 {\n","	if len(a) <= 5 && a[len(a)-1] == a[3] {\n")])
mut("c19-param","C19",[("vcard.go","		if s, ok := v.(string); ok {\n			params[k] = append","		if s, ok := v.(string); ok && s != \"\" {\n			params[k] = append")])
mut("c19-top","C19",[("vcard.go","	if !ok || len(top) != 2 {","	if !ok || len(top) < 2 {")])
mut("c19-ignore","C19",[("vcard.go","			if options.IgnoreInvalidProperties {\n				continue","			if options.IgnoreInvalidProperties {\n				break")])
mut("c19-flt","C19",[("vcard.go","strconv.FormatFloat(v, 'f', -1, 64))","strconv.FormatFloat(v, 'f', -1, 32))")])
mut("c19-nil","C19",[("vcard.go","	case nil:\n		*strings = append(*strings, \"\")\n","	case nil:\n")])
mut("c19-fold","C19",[("vcard.go",'!ok || s != "vcard" {','!ok || !strings.EqualFold(s, "vcard") {')])
mut("c20-tel","C20",[("vcard.go","			if slices.Contains(types, \"voice\") {","			if len(types) > 0 && types[0] == \"voice\" {")])
mut("c20-fax","C20",[("vcard.go","			if slices.Contains(types, \"fax\") {\n","			if slices.Contains(types, \"fax\") && !slices.Contains(types, \"voice\") {\n")])
mut("c20-region","C20",[("vcard.go","	return v.getFirstAddressField(4)","	return strings.TrimSpace(v.getFirstAddressField(4))")])
mut("c20-get","C20",[("vcard.go","		if p.Name == name {","		if strings.EqualFold(p.Name, name) {")])
mut("c20-telempty","C20",[("vcard.go","		} else {\n			isVoice = true\n		}","		} else if len(p.Parameters) == 0 {\n			isVoice = true\n		}")])
mut("c20-name","C20",[("vcard.go",'	return v.getFirstPropertySingleString("org")','	if p := v.GetFirst("org"); p != nil && len(p.Values()) > 0 {\n		return p.Values()[0]\n	}\n	return ""')])
mut("c21-heading","C21",[("print.go","		p.indent(indentLevel),\n		p.cleanString(heading))","		p.indent(indentLevel),\n		heading)")])
mut("c21-name","C21",[("print.go","		p.cleanString(name),\n		p.cleanString(value))","		name,\n		p.cleanString(value))")])
mut("c21-cr","C21",[("print.go",'	if !strings.ContainsAny(str, "\\n\\r\\x00") {','	if !strings.ContainsAny(str, "\\n\\x00") {')])
mut("c21-cr2","C21",[("print.go","	case '\\n', '\\r', '\\000':\n		return -1","	case '\\n', '\\000':\n		return -1")])
mut("c21-over","C21",[("print.go","	case '\\n', '\\r', '\\000':\n		return -1","	case '\\n', '\\r', '\\t', '\\000':\n		return -1")])
mut("c21-indent","C21",[("print.go","	return strings.Repeat(string(p.IndentChar), int(indentLevel*p.IndentSize))","	return strings.Repeat(string(p.IndentChar), int(min(indentLevel, 4)*p.IndentSize))")])
mut("c21-fmt","C21",[("print.go","	fmt.Fprintf(p.Writer, \"%s%s:\\n\",\n		p.indent(indentLevel),\n		p.cleanString(heading))","	fmt.Fprintf(p.Writer, p.indent(indentLevel)+p.cleanString(heading)+\":\\n\")")])
mut("c21-once","C21",[("print.go","	return strings.Map(removeBadRunes, str)","	str = strings.Replace(str, \"\\n\", \"\", 2)\n	return strings.Map(func(r rune) rune {\n		if r == '\\n' {\n			return r\n		}\n		return removeBadRunes(r)\n	}, str)")])
mut("c22-sort","C22",[("print.go","		keys := make([]string, 0, len(value))\n		for k := range value {\n			keys = append(keys, k)\n		}\n		slices.Sort(keys)\n","		keys := make([]string, 0, len(value))\n		for k := range value {\n			keys = append(keys, k)\n		}\n")])
mut("c22-empty","C22",[("print.go","	for _, l := range k.Links {\n		p.printLink(l, indentLevel)\n	}\n\n	p.printUnknowns(k.DecodeData","	for _, l := range k.Links {\n		if l.Rel != \"\" {\n			continue\n		}\n		p.printLink(l, indentLevel)\n	}\n\n	p.printUnknowns(k.DecodeData")])
mut("c22-omit","C22",[("print.go","	if !p.BriefOutput && !p.OmitRemarks {\n		for _, r := range a.Remarks {","	if !p.BriefOutput && !p.OmitNotices {\n		for _, r := range a.Remarks {")])
mut("c22-brief","C22",[("print.go","	if !p.BriefOutput {\n		p.printValue(\"Port43\", a.Port43, indentLevel)\n	}","	p.printValue(\"Port43\", a.Port43, indentLevel)")])
mut("c22-zero","C22",[("print.go","	if a.EndAutnum != nil {\n","	if a.EndAutnum != nil && (a.StartAutnum == nil || *a.EndAutnum != *a.StartAutnum) {\n")])
mut("c22-unk","C22",[("print.go","	case bool:\n		p.printValue(key, strconv.FormatBool(value), indentLevel)","	case bool:\n		if value {\n			p.printValue(key, strconv.FormatBool(value), indentLevel)\n		}")])
mut("c22-flags","C22",[("print.go","			strconv.FormatUint(uint64(*k.Flags), 10),","			strconv.FormatUint(uint64(uint8(*k.Flags)), 10),")])
mut("c22-evbrief","C22",[("print.go","		for _, e := range e.AsEventActor {\n			p.printEvent(e, indentLevel, true)\n		}\n	}\n","		for _, e := range e.AsEventActor {\n			p.printEvent(e, indentLevel, len(e.Actor) == 0)\n		}\n	}\n")])
mut("c22-blink","C22",[("print.go","		p.printValue(\"Link\", l.Href, indent)\n		return","		p.printValue(\"Link\", l.Href, indent)\n		p.printUnknowns(l.DecodeData, indent)\n		return")])
mut("c22-vcard","C22",[("print.go","			for _, str := range property.Values() {\n				p.printValue(\"vCard \"+property.Name, str, indentLevel)","			for _, str := range property.Values() {\n				if property.Name == \"version\" {\n					continue\n				}\n				p.printValue(\"vCard \"+property.Name, str, indentLevel)")])
mut("c23-role","C23",[("response.go","		if slices.Contains(e.Roles, role) {","		if len(e.Roles) > 0 && e.Roles[0] == role {")])
mut("c23-vcard","C23",[("response.go","		if slices.Contains(e.Roles, role) {","		if slices.Contains(e.Roles, role) && e.VCard != nil {")])
mut("c23-order","C23",[("response.go","	if _, exists := w.Data[key]; !exists {\n","	if _, exists := w.Data[key]; !exists || key == \"Updated Date\" && len(w.Data[key]) == 2 {\n")])
mut("c23-event","C23",[("response.go",'		case "last changed":','		case "last changed", "last update of RDAP database":')])
mut("c23-ns","C23",[("response.go",'		w.add("Name Server", n.LDHName)','		if n.IPAddresses == nil || n.LDHName != d.LDHName {\n			w.add("Name Server", n.LDHName)\n		}')])
mut("c23-iana","C23",[("response.go",'				w.add("Registrar IANA ID", id.Identifier)\n','				w.add("Registrar IANA ID", id.Identifier)\n				break\n')])
mut("c23-safe","C23",[("cli.go","		case '\\n', '\\r':\n			return ' '","		case '\\n':\n			return ' '")])
mut("c24-trim","C24",[("cli.go",'		autnum = strings.TrimPrefix(autnum, "AS")','		autnum = strings.TrimLeft(autnum, "AS")')])
mut("c24-ip","C24",[("cli.go","		req = NewIPRequest(ip)\n","		req = NewRequest(IPRequest, queryText)\n")])
mut("c24-alias","C24",[("cli.go",'		req = NewRequest(NameserverSearchByNameserverIPRequest, queryText)','		req = NewRequest(DomainSearchByNameserverIPRequest, queryText)')])
mut("c24-srv","C24",[("cli.go","	if req.Server != nil {\n		if *serverFlag != \"\" {","	if req.Server != nil && *queryType != \"\" {\n		if *serverFlag != \"\" {")])
mut("c24-lower","C24",[("cli.go","		req = NewDomainRequest(queryText)\n","		req = NewDomainRequest(strings.ToLower(queryText))\n")])
mut("c24-url","C24",[("cli.go","		if serverURL.Scheme == \"\" {\n			serverURL.Scheme = \"http\"\n		}","		if serverURL.Scheme == \"\" {\n			serverURL.Scheme = \"http\"\n		}\n		serverURL.RawQuery = \"\"")])
mut("c24-asn64","C24",[("cli.go","		result, err := strconv.ParseUint(autnum, 10, 32)","		result, err := strconv.ParseUint(autnum, 10, 64)")])
mut("c24-join","C24",[("cli.go","		queryText = (*queryArgs)[0]","		queryText = strings.TrimRight((*queryArgs)[0], \" \")")])
mut("c25-cache","C25",[("cli.go","			if !options.Sandbox {\n				dc.Dir = *cacheDirFlag","			if !options.Sandbox || !strings.HasPrefix(*cacheDirFlag, \"/\") {\n				dc.Dir = *cacheDirFlag")])
mut("c25-p12","C25",[("cli.go","		if options.Sandbox {\n			p12, err","		if options.Sandbox && sandbox.IsFileInSandbox(p12FilenameAndPassword[0]) {\n			p12, err")])
mut("c25-base","C25",[("sandbox/file.go","	switch filename {","	switch path.Base(filename) {")])
mut("c25-exp","C25",[("cli.go",'	if experiments["sandbox"] {','	if experiments["sandbox"] && !*experimentalFlag {')])
mut("c25-certorder","C25",[("cli.go","		case options.Sandbox:\n			verbose(\"rdap: Ignored","		case options.Sandbox && *clientCertFilename != *clientKeyFilename:\n			verbose(\"rdap: Ignored")])
mut("c25-expand","C25",[("cli.go","	kingpin.EnableFileExpansion = false\n","	kingpin.EnableFileExpansion = !options.Sandbox\n")])
mut("c26-bs","C26",[("cli.go","	bs.HTTP = &http.Client{\n		Transport: transport,\n	}","	bs.HTTP = &http.Client{\n		Transport: &http.Transport{Proxy: http.ProxyFromEnvironment, TLSClientConfig: &tls.Config{InsecureSkipVerify: *bootstrapURLFlag != \"default\"}},\n	}")])
mut("c26-exp","C26",[("cli.go","	if *insecureFlag {\n		verbose(\"rdap: SSL","	if experiments[\"test_rdap_net\"] {\n		tlsConfig.InsecureSkipVerify = true\n	}\n	if *insecureFlag {\n		verbose(\"rdap: SSL")])
mut("c26-cert","C26",[("cli.go",'		case *clientCertFilename == "" || *clientKeyFilename == "":','		case *clientCertFilename == "":')])
mut("c26-both","C26",[("cli.go",'		case *clientP12FilenameAndPassword != "":\n','		case *clientP12FilenameAndPassword != "" && !options.Sandbox:\n')])
mut("c26-bsonly","C26",[("cli.go","	bs.HTTP = &http.Client{\n		Transport: transport,\n	}","	bs.HTTP = &http.Client{}")])
mut("c27-fmt","C27",[("cli.go",'		fmt.Fprintf(stdout, "%s", body)','		fmt.Fprintf(stdout, string(body))')])
mut("c27-first","C27",[("cli.go","	body := resp.HTTP[len(resp.HTTP)-1].Body","	body := resp.HTTP[0].Body")])
mut("c27-nl","C27",[("cli.go",'		fmt.Fprintf(stdout, "%s", body)','		fmt.Fprintln(stdout, strings.TrimSuffix(string(body), "\\n"))')])
mut("c27-jsonesc","C27",[("cli.go","		if _, err := out.WriteTo(stdout); err != nil {","		var esc bytes.Buffer\n		json.HTMLEscape(&esc, out.Bytes())\n		if _, err := esc.WriteTo(stdout); err != nil {")])
mut("c27-err","C27",[("cli.go","	if err != nil {\n		printError(stderr, fmt.Sprintf(\"Error: %s\", err))\n		return 1\n	}\n\n	// Insert","	if err != nil && (resp == nil || len(resp.HTTP) < 2 || !isClientError(ObjectDoesNotExist, err)) {\n		printError(stderr, fmt.Sprintf(\"Error: %s\", err))\n		return 1\n	}\n\n	// Insert")])
mut("c27-silent","C27",[("cli.go","		printError(stderr, fmt.Sprintf(\"Error: %s\", err))\n		return 1\n	}\n\n	// Insert","		if !*outputFormatRaw {\n			printError(stderr, fmt.Sprintf(\"Error: %s\", err))\n		}\n		return 1\n	}\n\n	// Insert")])
mut("c28-host","C28",[(B+"client.go","		hasher.Write([]byte(c.BaseURL.String()))","		hasher.Write([]byte(c.BaseURL.Host))")])
mut("c28-path","C28",[(B+"client.go","		hasher.Write([]byte(c.BaseURL.String()))","		hasher.Write([]byte(strings.ToLower(c.BaseURL.String())))"),(B+"client.go",'	"net/url"\n','	"net/url"\n	"strings"\n')])
mut("c28-default","C28",[(B+"client.go","	if c.BaseURL.String() != DefaultBaseURL {","	if c.BaseURL.Host != \"data.iana.org\" {")])
mut("c28-slice","C28",[(B+"client.go",'		filename = sha256Hash[0:6] + "_" + filename','		filename = sha256Hash[0:6] + "_" + filename[:3] + ".json"')])
mut("c28-name","C28",[(B+"client.go",'		filename = sha256Hash[0:6] + "_" + filename','		filename = sha256Hash[0:6] + "/" + filename')])
mut("c30-bs","C30",[("cli.go","	req = req.WithContext(ctx)\n\n	verbose(fmt.Sprintf(\"rdap: Timeout","	if req.Server != nil || *timeoutFlag != 30 {\n		req = req.WithContext(ctx)\n	}\n\n	verbose(fmt.Sprintf(\"rdap: Timeout")])
mut("c30-ttl","C30",[("cli.go","	if bootstrapTimeoutFlag != nil {\n","	if *bootstrapTimeoutFlag != 0 {\n")])
mut("c30-ttlms","C30",[("cli.go","		bs.Cache.SetTimeout(time.Duration(*bootstrapTimeoutFlag) * time.Second)","		bs.Cache.SetTimeout(time.Duration(*bootstrapTimeoutFlag/60) * time.Minute)")])
mut("c30-each","C30",[("cli.go","	ctx, cancelFunc := context.WithTimeout(context.Background(), time.Duration(*timeoutFlag)*time.Second)\n	defer cancelFunc()\n	req = req.WithContext(ctx)\n","	httpClient.Timeout = time.Duration(*timeoutFlag) * time.Second\n	bs.HTTP.Timeout = httpClient.Timeout\n"),("cli.go",'	"context"\n','')])

# ---- C29 ----
_LOAD="	if cached, ok := structPlanCache.Load(t); ok {\n		return cached.(*structPlan)\n	}\n"
_VAR="var structPlanCache sync.Map // map[reflect.Type]*structPlan\n"
_END="	walk(t, nil)\n\n	actual, _ := structPlanCache.LoadOrStore(t, plan)\n	return actual.(*structPlan)\n"
mut("c29-plain","C29",[("decoder.go",_VAR,"var structPlanCache = map[reflect.Type]*structPlan{}\n"),("decoder.go",_LOAD,"	if cached, ok := structPlanCache[t]; ok {\n		return cached\n	}\n"),
  ("decoder.go",_END,"	walk(t, nil)\n\n	structPlanCache[t] = plan\n	return plan\n"),("decoder.go",'	"sync"\n','')])
mut("c29-early","C29",[("decoder.go","		knownFields: map[string]bool{},\n	}\n","		knownFields: map[string]bool{},\n	}\n	if actual, loaded := structPlanCache.LoadOrStore(t, plan); loaded {\n		return actual.(*structPlan)\n	}\n"),
  ("decoder.go",_END,"	walk(t, nil)\n\n	return plan\n")])
mut("c29-rlock","C29",[("decoder.go",_VAR,"var (\n	structPlanMu    sync.Mutex\n	structPlanCache = map[reflect.Type]*structPlan{}\n)\n"),("decoder.go",_LOAD,"	if cached, ok := structPlanCache[t]; ok {\n		return cached\n	}\n"),
  ("decoder.go",_END,"	walk(t, nil)\n\n	structPlanMu.Lock()\n	defer structPlanMu.Unlock()\n	structPlanCache[t] = plan\n	return plan\n")])
mut("c29-slot","C29",[("decoder.go",_VAR,"var (\n	structPlanMu    sync.Mutex\n	structPlanType reflect.Type\n	structPlanLast *structPlan\n)\n"),
  ("decoder.go",_LOAD,"	structPlanMu.Lock()\n	hit := structPlanType == t\n	structPlanMu.Unlock()\n	if hit {\n		structPlanMu.Lock()\n		defer structPlanMu.Unlock()\n		return structPlanLast\n	}\n"),
  ("decoder.go",_END,"	walk(t, nil)\n\n	structPlanMu.Lock()\n	defer structPlanMu.Unlock()\n	structPlanType, structPlanLast = t, plan\n	return plan\n")])
mut("c29-known","C29",[("decode_data.go","		if _, isKnown := r.isKnown[f]; !isKnown {\n","		if known, isKnown := r.isKnown[f]; !isKnown || !known {\n			r.isKnown[f] = false\n")])
mut("c29-index","C29",[("decoder.go",_VAR,_VAR+"\nvar indexBuf []int\n"),("decoder.go","			index := append(append([]int{}, prefix...), i)\n","			indexBuf = append(append(indexBuf[:0], prefix...), i)\n			index := append([]int{}, indexBuf...)\n")])
mut("c29-notes","C29",[("decoder.go","// addDecodeNote adds","var lastNote string\n\n// addDecodeNote adds"),("decoder.go","	if decodeData == nil {\n		return\n	}\n\n	if decodeData.notes == nil {","	if decodeData == nil {\n		return\n	}\n	if msg == lastNote {\n		msg = lastNote\n	}\n	lastNote = msg\n\n	if decodeData.notes == nil {")])
mut("c29-pool","C29",[("decoder.go",_VAR,_VAR+"\nvar decodeDataPool = sync.Pool{New: func() any { return &DecodeData{} }}\n"),
  ("decoder.go","		myDecodeData = &DecodeData{\n			isKnown: plan.knownFields,\n			values:  srcMap,\n		}\n","		myDecodeData = decodeDataPool.Get().(*DecodeData)\n		*myDecodeData = DecodeData{isKnown: plan.knownFields, values: srcMap}\n		if len(srcMap) == 0 {\n			defer decodeDataPool.Put(myDecodeData)\n		}\n")])
mut("c29-print","C29",[("print.go","	if p.Writer == nil {","	if p.IndentChar == 0 {\n		defaultPrinter.IndentChar = ' '\n	}\n	if p.Writer == nil {"),("print.go","type Printer struct {","var defaultPrinter = &Printer{}\n\ntype Printer struct {")])
mut("c18-pool","C18",[("decoder.go",_VAR,_VAR+"\nvar decodeDataPool = sync.Pool{New: func() any { return &DecodeData{} }}\n"),
  ("decoder.go","		myDecodeData = &DecodeData{\n			isKnown: plan.knownFields,\n			values:  srcMap,\n		}\n","		myDecodeData = decodeDataPool.Get().(*DecodeData)\n		*myDecodeData = DecodeData{isKnown: plan.knownFields, values: srcMap}\n		if len(srcMap) == 0 {\n			defer decodeDataPool.Put(myDecodeData)\n		}\n")])

# --- second batch ---
mut("c01n-less8","C01",[(B+"net_registry.go","	return bytes.Compare(a[i].Net.IP, a[j].Net.IP) <= 0","	return bytes.Compare(a[i].Net.IP[:4], a[j].Net.IP[:4]) <= 0")])
mut("c01n-firsthit","C01",[(B+"net_registry.go","		bestURLs = nets[index].URLs\n","		bestURLs = nets[index].URLs\n		if mask >= 24 {\n			break\n		}\n")])
mut("c01n-entrystr","C01",[(B+"net_registry.go","		bestEntry = nets[index].Net.String()","		bestEntry = lookupNet.IP.Mask(nets[0].Net.Mask).String() + fmt.Sprintf(\"/%d\", mask)\n		if mask == 0 {\n			bestEntry = \"\"\n		}")])
mut("c01n-query0","C01",[(B+"net_registry.go","		if mask < bestMask || mask > lookupMask {","		if mask < bestMask || mask > lookupMask || lookupMask == 0 {")])
mut("c01n-v6pfx","C01",[(B+"net_registry.go","	if !strings.ContainsAny(input, \"/\") {","	if n.numIPBytes == net.IPv6len && strings.HasPrefix(input, \"[\") {\n		input = strings.Trim(input, \"[]\")\n	}\n\n	if !strings.ContainsAny(input, \"/\") {")])
mut("c01n-urlshare","C01",[(B+"net_registry.go","		bestURLs = nets[index].URLs\n","		bestURLs = append(bestURLs[:0], nets[index].URLs...)\n")])
mut("c01n-dedup","C01",[(B+"net_registry.go","		size, _ := ipNet.Mask.Size()\n","		size, _ := ipNet.Mask.Size()\n		if size == 0 && len(urls) > 1 {\n			urls = urls[:1]\n		}\n")])
mut("c02n-wrap","C02",[(B+"asn_registry.go","	if index != len(a.asns) && (asn >= a.asns[index].MinASN && asn <= a.asns[index].MaxASN) {","	if index != len(a.asns) && asn-a.asns[index].MinASN <= a.asns[index].MaxASN-a.asns[index].MinASN+1 {")])
mut("c02n-sortmax","C02",[(B+"asn_registry.go","	return a[i].MinASN < a[j].MinASN","	return int32(a[i].MinASN) < int32(a[j].MinASN)")])
mut("c02n-space","C02",[(B+"asn_registry.go","	asn = strings.TrimPrefix(asn, \"as\")\n","	asn = strings.TrimPrefix(asn, \"as\")\n	asn = strings.TrimPrefix(asn, \" \")\n")])
mut("c02n-plus","C02",[(B+"asn_registry.go","	result, err := strconv.ParseUint(asn, 10, 32)\n	if err != nil {\n		return 0, err\n	}\n\n	return uint32(result), nil","	result, err := strconv.ParseInt(asn, 10, 64)\n	if err != nil || result < 0 || result > 4294967295 {\n		return 0, errors.New(\"invalid AS number\")\n	}\n\n	return uint32(result), nil")])
mut("c02n-swap","C02",[(B+"asn_registry.go","	if minASN > maxASN {\n		minASN, maxASN = maxASN, minASN\n	}","	if minASN > maxASN {\n		minASN, maxASN = maxASN, minASN-1\n	}")])
mut("c03n-unicode","C03",[(B+"dns_registry.go","	input = strings.ToLower(input)\n","	input = strings.ToLower(strings.ToUpper(input))\n")])
mut("c03n-trimright","C03",[(B+"dns_registry.go","	input = strings.TrimSuffix(input, \".\")","	input = strings.TrimRight(input, \".\")")])
mut("c03n-depth","C03",[(B+"dns_registry.go","	for {\n		var ok bool","	for depth := 0; ; depth++ {\n		if depth == 4 {\n			fqdn = fqdn[strings.LastIndexByte(fqdn, '.')+1:]\n		}\n		var ok bool")])
mut("c03n-root","C03",[(B+"dns_registry.go","		urls, ok = d.dns[fqdn]\n","		urls, ok = d.dns[fqdn]\n		if fqdn == \"\" && !ok {\n			urls, ok = d.dns[\".\"]\n		}\n")])
mut("c04n-len","C04",[(B+"service_provider_registry.go","	if offset == -1 || offset == len(input)-1 {","	if offset == -1 || offset == len(input)-1 || len(input)-offset > 12 {")])
mut("c05n-dup","C05",[(B+"file.go","			urls = append(urls, url)\n","			if len(urls) > 0 && urls[len(urls)-1].String() == url.String() {\n				continue\n			}\n			urls = append(urls, url)\n")])
mut("c05n-fragment","C05",[(B+"file.go","			urls = append(urls, url)\n","			url.Fragment = \"\"\n			urls = append(urls, url)\n")])
mut("c05n-json","C05",[(B+"file.go","	f.JSON = jsonDocument\n","	f.JSON = []byte(strings.TrimSpace(string(jsonDocument)))\n"),(B+"file.go","	\"net/url\"\n","	\"net/url\"\n	\"strings\"\n")])
mut("c05n-https","C05",[(B+"file.go","			if err != nil {\n				continue\n			}\n","			if err != nil || url.Scheme == \"\" {\n				continue\n			}\n")])
mut("c05n-early","C05",[(B+"file.go","		default:\n			return nil, errors.New","		case 0:\n			// Nothing to add.\n		default:\n			return nil, errors.New")])
mut("c06n-expired","C06",[(B+"client.go","	if state == cache.ShouldReload {\n		if err","	if state == cache.ShouldReload || state == cache.Expired && c.registries[registry] == nil {\n		if err")])
mut("c06n-query","C06",[(B+"client.go","	fetchURL := baseURL.ResolveReference(u)\n","	fetchURL := baseURL.ResolveReference(u)\n	fetchURL.RawQuery = baseURL.RawQuery\n")])
mut("c06n-user","C06",[(B+"client.go","	fetchURL := baseURL.ResolveReference(u)\n","	fetchURL := baseURL.ResolveReference(u)\n	fetchURL.User = nil\n")])
mut("c06n-retry","C06",[(B+"client.go","	resp, err := c.HTTP.Do(req)\n	if err != nil {","	resp, err := c.HTTP.Do(req)\n	if err == nil && resp.StatusCode == http.StatusServiceUnavailable {\n		resp.Body.Close()\n		resp, err = c.HTTP.Do(req)\n	}\n	if err != nil {")])
mut("c06n-head","C06",[(B+"client.go","func (c *Client) IPv6() *NetRegistry {\n	c.init()\n	c.freshenFromCache(IPv6)","func (c *Client) IPv6() *NetRegistry {\n	c.init()\n	c.freshenFromCache(IPv4)")])
mut("c07n-partial","C07",[(B+"client.go","	json, err := io.ReadAll(resp.Body)\n	if err != nil {\n		return nil, nil, err\n	}","	json, err := io.ReadAll(resp.Body)\n	if err != nil && len(json) == 0 {\n		return nil, nil, err\n	}")])
mut("c07n-setfirst","C07",[(B+"client.go","	err = c.Cache.Save(c.filenameFor(registry), json)\n	if err != nil {\n		return err\n	}\n\n	c.registries[registry] = s\n\n	return nil","	c.registries[registry] = s\n\n	return c.Cache.Save(c.filenameFor(registry), json)")])
mut("c07n-force","C07",[(B+"client.go","			forceDownload = true\n","			forceDownload = c.registries[registry] == nil\n")])
mut("c07n-nocontent","C07",[(B+"client.go","	if resp.StatusCode != http.StatusOK {","	if resp.StatusCode != http.StatusOK && resp.StatusCode != http.StatusNonAuthoritativeInfo {")])
mut("c08n-empty","C08",[(B+"cache/memory_cache.go","	if !ok {\n		return nil, fmt.Errorf","	if !ok || len(data) == 0 {\n		return nil, fmt.Errorf")])
mut("c09n-initonce","C09",[(B+"cache/disk_cache.go","	if _, err := d.InitDir(); err != nil {\n		return err\n	}\n\n	if err := os","	if len(d.lastLoadedModTime) == 0 {\n		if _, err := d.InitDir(); err != nil {\n			return err\n		}\n	}\n\n	if err := os")])
mut("c09n-timenow","C09",[(B+"cache/disk_cache.go","	d.lastLoadedModTime[filename] = fileModTime\n\n	return nil","	d.lastLoadedModTime[filename] = time.Now()\n	_ = fileModTime\n\n	return nil")])
mut("c09n-unchanged","C09",[(B+"cache/disk_cache.go","	if err := os.WriteFile(","	if old, err := os.ReadFile(d.cacheDirPath(filename)); err == nil && string(old) == string(data) {\n		return nil\n	}\n\n	if err := os.WriteFile(")])
mut("c09n-mkdir","C09",[(B+"cache/disk_cache.go","os.MkdirAll(d.Dir, 0o750)","os.Mkdir(d.Dir, 0o750)")])
mut("c09n-remove","C09",[(B+"cache/disk_cache.go","			state = Expired\n","			state = Expired\n			_ = os.Remove(d.cacheDirPath(filename))\n")])
mut("c10n-multi","C10",[("request.go","		maps.Copy(query, r.Params)\n","		for k := range r.Params {\n			query.Set(k, r.Params.Get(k))\n		}\n")])
mut("c10n-emptyq","C10",[("request.go","		maps.Copy(query, values)\n","		for k := range values {\n			if r.Query != \"\" {\n				query[k] = values[k]\n			}\n		}\n")])
mut("c10n-user","C10",[("request.go","		tempURL.ForceQuery = false\n","		tempURL.ForceQuery = false\n		if tempURL.User != nil {\n			tempURL.User = url.User(tempURL.User.Username())\n		}\n")])
mut("c10n-clean","C10",[("request.go","		tempURLString += path\n","		tempURLString = strings.TrimRight(tempURLString, \"/\") + \"/\" + path\n")])
mut("c10n-semi","C10",[("request.go","'$', '&', '+', ':', '=', '@':","'$', '&', '+', ':', '=', '@', ';', ',', '%':")])
mut("c10n-ipslash","C10",[("request.go","strings.Cut(r.Query, \"/\")","cutLast(r.Query)"),("request.go","// WithContext returns a copy","func cutLast(s string) (string, string, bool) {\n	i := strings.LastIndexByte(s, '/')\n	if i < 0 {\n		return s, \"\", false\n	}\n	return strings.ReplaceAll(s[:i], \"/\", \"%2F\"), s[i+1:], true\n}\n\n// WithContext returns a copy")])
mut("c11n-values","C11",[("request.go","		query := r.Server.Query()\n		maps.Copy(query, r.Params)\n","		query := r.Params\n		if query == nil {\n			query = url.Values{}\n		}\n		for k, v := range r.Server.Query() {\n			if _, ok := query[k]; !ok {\n				query[k] = v\n			}\n		}\n")])
mut("c11n-roles","C11",[("request.go","	r2.ctx = ctx\n","	r2.ctx = ctx\n	r2.Timeout = 0\n")])
mut("c11n-do","C11",[("client.go","		for _, u := range answer.URLs {\n","		for _, u := range answer.URLs {\n			u.Path = strings.TrimSuffix(u.Path, \"/\")\n")])
mut("c12n-port","C12",[("request.go","return NewDomainRequest(fullURL.Host)","return NewDomainRequest(fullURL.Hostname())")])
mut("c12n-cidr","C12",[("request.go","	if _, ipNet, err := net.ParseCIDR(queryText); err == nil {\n		return NewIPNetRequest(ipNet)","	if ip, ipNet, err := net.ParseCIDR(queryText); err == nil {\n		if ones, bits := ipNet.Mask.Size(); ones == bits {\n			return NewIPRequest(ip)\n		}\n		return NewIPNetRequest(ipNet)")])
mut("c12n-mapped","C12",[("request.go","		return NewIPRequest(ip)\n	}\n\n	// IP network","		r := NewIPRequest(ip)\n		if strings.Contains(queryText, \":\") && ip.To4() != nil {\n			r.Query = \"::ffff:\" + r.Query\n		}\n		return r\n	}\n\n	// IP network")])
mut("c12n-as0","C12",[("request.go","	autnum, err := parseAutnum(queryText)\n	if err == nil {","	autnum, err := parseAutnum(queryText)\n	if err == nil && autnum != 0 {")])
mut("c13n-trim","C13",[("client.go","if len(httpResponse.Body) > 0 && hrr","if len(strings.TrimSpace(string(httpResponse.Body))) > 2 && hrr")])
mut("c13n-299","C13",[("client.go","hrr.StatusCode >= 200 && hrr.StatusCode <= 299","hrr.StatusCode/100 == 2 && hrr.StatusCode != http.StatusNoContent")])
mut("c13n-cancel","C13",[("client.go","if r.Context().Err() == context.DeadlineExceeded {","if errors.Is(httpResponse.Error, context.DeadlineExceeded) {"),("client.go","import (\n","import (\n	\"errors\"\n")])
mut("c13n-429","C13",[("client.go","			} else if hrr.StatusCode == http.StatusNotFound {","			} else if hrr.StatusCode == http.StatusNotFound && len(httpResponse.Body) < 3 || hrr.StatusCode == http.StatusNotFound && len(reqs) == 1 {")])
mut("c13n-bodyrec","C13",[("client.go","	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n","	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n	if httpResponse.Error != nil {\n		httpResponse.Body = nil\n	}\n")])
mut("c14n-nilcode","C14",[("client.go","	if ipNet, ok := resp.Object.(*IPNetwork); ok {","	if ipNet, ok := resp.Object.(*IPNetwork); ok && ipNet.Handle+ipNet.StartAddress+ipNet.Name != \"\" {")])
mut("c15n-redirect","C15",[("client.go","		c.HTTP = &http.Client{}\n","		c.HTTP = &http.Client{Timeout: time.Minute}\n")])
mut("c15n-closeerr","C15",[("client.go","	defer resp.Body.Close()\n	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n","	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n	if httpResponse.Error == nil {\n		httpResponse.Error = resp.Body.Close()\n	}\n")])
mut("c15n-accept","C15",[("client.go","	req.Header.Add(\"Accept\", \"application/rdap+json, application/json\")","	if rdapReq.Type != RawRequest {\n		req.Header.Add(\"Accept\", \"application/rdap+json, application/json\")\n	}")])
mut("c16n-search","C16",[("decoder.go","	} else if _, exists := src[\"domainSearchResults\"]; exists {","	} else if r, exists := src[\"domainSearchResults\"].([]any); exists && r != nil {")])
mut("c16n-err0","C16",[("decoder.go","	} else if _, exists := src[\"errorCode\"]; exists {","	} else if code, exists := src[\"errorCode\"]; exists && code != float64(0) {")])
mut("c16n-number","C16",[("decoder.go","	err = json.Unmarshal(d.data, &s)\n","	dec := json.NewDecoder(bytes.NewReader(d.data))\n	err = dec.Decode(&s)\n"),("decoder.go","import (\n","import (\n	\"bytes\"\n")])
mut("c16n-panic","C16",[("decoder.go","	default:\n		d.addDecodeNote(decodeData, keyName, \"invalid JSON type, expecting bool\")\n		success = false","	case []any:\n		return d.decodeBool(keyName, s[0], dst, decodeData)\n	default:\n		d.addDecodeNote(decodeData, keyName, \"invalid JSON type, expecting bool\")\n		success = false")])
mut("c17n-frac","C17",[("decoder.go","			result = uint64(src)\n","			result = uint64(src + 0.5)\n")])
mut("c17n-hex","C17",[("decoder.go","strconv.ParseUint(src, 10, 64)\n\n		if","strconv.ParseUint(strings.TrimSpace(src), 10, 64)\n\n		if")])
mut("c17n-clamp","C17",[("decoder.go","			result = 0\n			success = false\n			d.addDecodeNote(decodeData, keyName, \"error converting string to uint\")","			success = false\n			if dst.Kind() == reflect.Uint64 {\n				dst.SetUint(result)\n			}\n			d.addDecodeNote(decodeData, keyName, \"error converting string to uint\")")])
mut("c17n-fltstr","C17",[("decoder.go","strconv.FormatFloat(src, 'f', -1, 64)","strconv.FormatFloat(src, 'g', -1, 64)")])
mut("c17n-u16edge","C17",[("decoder.go","			maxVal = math.MaxUint8\n","			maxVal = math.MaxUint8 + 1\n")])
mut("c17n-nullnote","C17",[("decoder.go","		d.addDecodeNote(decodeData, keyName, \"null to bool conversion\")\n","")])
mut("c17n-ndup","C17",[("decoder.go","	decodeData.notes[key] = append(decodeData.notes[key], msg)","	if len(decodeData.notes[key]) < 2 {\n		decodeData.notes[key] = append(decodeData.notes[key], msg)\n	}")])
mut("c18n-val","C18",[("decode_data.go","	if v, ok := r.values[name]; ok {\n		return v","	if v, ok := r.values[name]; ok {\n		if s, ok := v.(string); ok {\n			return strings.TrimSpace(s)\n		}\n		return v")])
mut("c18n-unk","C18",[("decode_data.go","		if _, isKnown := r.isKnown[f]; !isKnown {","		if _, isKnown := r.isKnown[f]; !isKnown && r.values[f] != nil {")])
mut("c18n-lower","C18",[("decoder.go","		if index, ok := plan.fieldIndex[name]; ok {","		index, ok := plan.fieldIndex[name]\n		if !ok && name == \"ldhname\" {\n			index, ok = plan.fieldIndex[\"ldhName\"]\n		}\n		if ok {")])
mut("c18n-lang","C18",[("common.go","`rdap:\"rdapConformance\"`","`rdap:\"rdapconformance\"`")])
mut("c19n-four","C19",[("vcard.go","		if depth == 3 {","		if depth == 3 || depth > 0 && len(val) > 15 {")])
mut("c19n-single","C19",[("vcard.go","			v3, err := readValue(v2, depth+1)\n			if err != nil {\n				return nil, err\n			}\n","			v3, err := readValue(v2, depth+1)\n			if err != nil {\n				return nil, err\n			}\n			if l, ok := v3.([]any); ok && len(l) == 1 && depth > 0 {\n				v3 = l[0]\n			}\n")])
mut("c19n-ign","C19",[("vcard.go","			if options.IgnoreInvalidProperties {\n				continue","			if options.IgnoreInvalidProperties && len(v.Properties) > 0 {\n				continue")])
mut("c19n-params","C19",[("vcard.go","					params[k] = append(params[k], s)\n				}","					params[k] = append(params[k], s)\n				} else {\n					break\n				}")])
mut("c20n-faxcase","C20",[("vcard.go","			if slices.Contains(types, \"fax\") {","			if len(types) > 0 && types[0] == \"fax\" {")])
mut("c20n-telfirst","C20",[("vcard.go","			if slices.Contains(types, \"voice\") {","			if slices.Contains(types, \"voice\") || len(types) == 0 {")])
mut("c20n-name","C20",[("vcard.go","	return v.getFirstPropertySingleString(\"fn\")","	if n := v.getFirstPropertySingleString(\"fn\"); n != \"\" {\n		return n\n	}\n	return v.getFirstPropertySingleString(\"n\")")])
mut("c20n-trim","C20",[("vcard.go","	adr.appendValueStrings(components[index], &values)\n","	adr.appendValueStrings(components[index], &values)\n	values = slices.DeleteFunc(values, func(s string) bool { return s == \"\" })\n")])
mut("c21n-vt","C21",[("print.go","	case '\\n', '\\r', '\\000':","	case '\\n', '\\r', '\\000', '\\v':")])
mut("c21n-crlf","C21",[("print.go","	if !strings.ContainsAny(str, \"\\n\\r\\x00\") {","	if !strings.ContainsAny(str, \"\\n\\r\") {")])
mut("c21n-indent","C21",[("print.go","	return strings.Repeat(string(p.IndentChar), int(indentLevel*p.IndentSize))","	return strings.Repeat(string(p.IndentChar), int(min(indentLevel, 6)*p.IndentSize))")])
mut("c21n-unk","C21",[("print.go","		p.printHeading(key, indentLevel)\n		indentLevel++\n","		fmt.Fprintf(p.Writer, \"%s%s:\\n\", p.indent(indentLevel), strings.Trim(key, \"\\n\\r\\x00\"))\n		indentLevel++\n")])
mut("c22n-v4","C22",[("print.go","	for _, ip := range s.V4 {\n","	for i, ip := range s.V4 {\n		if i > 0 && ip == s.V4[i-1] {\n			continue\n		}\n")])
mut("c22n-keytag","C22",[("print.go","	if d.KeyTag != nil {","	if d.KeyTag != nil && *d.KeyTag != 0 {")])
mut("c22n-remlinks","C22",[("print.go","	for _, l := range r.Links {\n","	for _, l := range r.Links {\n		if p.OmitNotices {\n			break\n		}\n")])
mut("c22n-nullunk","C22",[("print.go","		p.printValue(key, \"[unprintable value]\", indentLevel)","		if value != nil {\n			p.printValue(key, \"[unprintable value]\", indentLevel)\n		}")])
mut("c22n-brieflinks","C22",[("print.go","		p.printValue(\"Link\", l.Href, indent)\n		return","		p.printValue(\"Link\", strings.TrimSuffix(l.Href, \"/\"), indent)\n		return")])
mut("c22n-actor","C22",[("print.go","			p.printEvent(e, indentLevel, true)","			p.printEvent(e, indentLevel, len(e.Actor) == 0)")])
mut("c23n-dup","C23",[("response.go","		w.Data[key] = append(w.Data[key], value)","		if last := w.Data[key]; last[len(last)-1] != value {\n			w.Data[key] = append(last, value)\n		}")])
mut("c23n-abuse","C23",[("response.go","	addEntityFields(w, \"Abuse\", findFirstEntity(\"abuse\", d.Entities))","	abuse := findFirstEntity(\"abuse\", d.Entities)\n	if abuse == nil && registrar != nil {\n		abuse = findFirstEntity(\"abuse\", registrar.Entities)\n	}\n	addEntityFields(w, \"Abuse\", abuse)")])
mut("c23n-first","C23",[("response.go","		if slices.Contains(e.Roles, role) {","		if slices.Contains(e.Roles, role) && (e.VCard != nil || len(e.PublicIDs) > 0) {")])
mut("c24n-type","C24",[("cli.go","	switch *queryType {\n	case \"\":","	switch strings.TrimSuffix(*queryType, \"s\") {\n	case \"\":")])
mut("c24n-scheme","C24",[("cli.go","		if serverURL.Scheme == \"\" {","		if serverURL.Scheme != \"https\" {")])
mut("c24n-ipv4in6","C24",[("cli.go","		req = NewIPRequest(ip)\n","		req = NewIPRequest(ip.To16())\n		if ip.To4() == nil {\n			req.Query = strings.ToUpper(req.Query)\n		}\n")])
mut("c24n-help","C24",[("cli.go","	if *queryType != \"help\" && len(*queryArgs) == 0 {","	if *queryType != \"help\" && (len(*queryArgs) == 0 || (*queryArgs)[0] == \"\") {")])
mut("c25n-p12","C25",[("sandbox/file.go","	switch filename {","	switch path.Base(filename) {")])
mut("c25n-order","C25",[("cli.go","			if !options.Sandbox {\n				dc.Dir","			if !options.Sandbox || filepath.Base(*cacheDirFlag) == filepath.Base(dc.Dir) {\n				dc.Dir"),("cli.go","import (\n","import (\n	\"path/filepath\"\n")])
mut("c26n-raw","C26",[("cli.go","	// Setup http.RoundTripper for http clients\n","	if req.Server != nil && req.Server.Port() != \"\" {\n		tlsConfig.InsecureSkipVerify = true\n	}\n\n	// Setup http.RoundTripper for http clients\n")])
mut("c26n-min","C26",[("cli.go","		case *clientCertFilename == \"\" || *clientKeyFilename == \"\":","		case *clientCertFilename == \"\":")])
mut("c27n-json0","C27",[("cli.go","	if *outputFormatRaw {\n		fmt.Fprintf(stdout, \"%s\", body)","	if *outputFormatRaw && !*outputFormatJSON {\n		fmt.Fprintf(stdout, \"%s\", body)")])
mut("c27n-whois","C27",[("cli.go","		w := resp.ToWhoisStyleResponse()\n","		w := resp.ToWhoisStyleResponse()\n		if len(w.KeyDisplayOrder) == 0 {\n			printError(stderr, \"Error: no WHOIS fields\")\n			return 1\n		}\n")])
mut("c27n-errobj","C27",[("cli.go","	// Insert a blank line","	if _, isError := resp.Object.(*Error); isError && *outputFormatJSON {\n		printError(stderr, \"Error: server returned an error\")\n		return 1\n	}\n\n	// Insert a blank line")])
mut("c28n-case","C28",[(B+"client.go","		hasher.Write([]byte(c.BaseURL.String()))","		hasher.Write([]byte(strings.ToLower(c.BaseURL.String())))"),(B+"client.go","import (\n","import (\n	\"strings\"\n")])
mut("c28n-default","C28",[(B+"client.go","	if c.BaseURL.String() != DefaultBaseURL {","	if c.BaseURL.Host != \"data.iana.org\" {")])
mut("c30n-zero","C30",[("cli.go","	if bootstrapTimeoutFlag != nil {","	if bootstrapTimeoutFlag != nil && *bootstrapTimeoutFlag != 0 {")])
mut("c30n-t0","C30",[("cli.go","	req = req.WithContext(ctx)\n\n	verbose(fmt.Sprintf(\"rdap: Timeout","	if *timeoutFlag > 0 {\n		req = req.WithContext(ctx)\n	}\n\n	verbose(fmt.Sprintf(\"rdap: Timeout")])
