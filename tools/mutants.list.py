MR="requester/makerequest.go"; RQ="requester/requester.go"; SC="requester/synccache.go"; CK="requester/complexkey.go"
FT="filetree/filetree.go"; FD="filetree/decrypt.go"; FC="filetree/fastcache.go"; FI="filetree/fileinfo.go"
CE="gocrypt/contentenc/content.go"; OF="gocrypt/contentenc/offsets.go"; FH="gocrypt/contentenc/file_header.go"; BP="gocrypt/contentenc/bpool.go"
PO="backend/pool.go"; PR="backend/provider.go"; HD="handlers/decrypt.go"; HP="handlers/proxy.go"; MA="main.go"; CF="config/config.go"
CO="gocrypt/configfile/config_file.go"; SK="gocrypt/configfile/scrypt.go"; NT="gocrypt/nametransform/names.go"; PD="gocrypt/nametransform/pad16.go"
RP="gocrypt/cryptocore/randprefetch.go"; NO="gocrypt/cryptocore/nonce.go"; CC="gocrypt/cryptocore/cryptocore.go"

# ---- C01
mut("c01-putalias","C01",(FD,"	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n	f.cEnc.PReqPool.Put(plaintext)\n	return plainBytes, nil","	f.cEnc.PReqPool.Put(plaintext)\n	return plaintext[:plainLength], nil"))
mut("c01-putfirst","C01",(FD,"	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n	f.cEnc.PReqPool.Put(plaintext)\n","	plainBytes := make([]byte, plainLength)\n	f.cEnc.PReqPool.Put(plaintext)\n	copy(plainBytes, plaintext)\n"))
mut("c01-blockput","C01",(CE,"		pBuf.Write(pBlock)\n		be.pBlockPool.Put(pBlock)\n","		be.pBlockPool.Put(pBlock)\n		pBuf.Write(pBlock)\n"))
mut("c01-keyhash","C01",(MR,"	key := arg1\n","	key := arg1\n	if len(key) > 160 {\n		key = key[len(key)-160:]\n	}\n"),(RQ,"r.performRequestAndCache(w.arg1, num, r.fileCache,","k := w.arg1\n			if len(k) > 160 {\n				k = k[len(k)-160:]\n			}\n			r.performRequestAndCache(k, num, r.fileCache,"),(RQ,"r.performRequestAndCache(w.arg1, num, r.dirCache,","k := w.arg1\n			if len(k) > 160 {\n				k = k[len(k)-160:]\n			}\n			r.performRequestAndCache(k, num, r.dirCache,"))
mut("c01-zeroblock","C01",(CE,"	if bytes.Equal(ciphertext, be.allZeroBlock) {\n		tlog.Debug.Printf(\"DecryptBlock: file hole encountered\")\n		return make([]byte, be.plainBS), nil","	if bytes.Equal(ciphertext, be.allZeroBlock) {\n		tlog.Debug.Printf(\"DecryptBlock: file hole encountered\")\n		return be.pBlockPool.Get(), nil"))
mut("c01-bigcap","C01",(FD,"	if cap(plaintext) > (contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS) {\n		return plaintext, nil","	if cap(plaintext) > (contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS) {\n		return plaintext[:plainLength/contentenc.DefaultBS*contentenc.DefaultBS], nil"))
# ---- C02
mut("c02-inplace","C02",(FT,"	for _, info := range dirListing {\n","	names := dirListing[:0]\n	for _, info := range dirListing {\n		if info.Name() != nametransform.DirIVFilename {\n			names = append(names, info)\n		}\n	}\n	for _, info := range names {\n"))
mut("c02-cachedlist","C02",(FT,"		if err != nil {\n			// The work queue may have failed rather than the decryption, in which\n			// case skipping the name would return an incomplete listing.\n			rName, err = f.nTransform.DecryptName(info.Name(), iv)\n		}\n",""))
mut("c02-partial","C02",(PR,"	listing, err := c.sftpConn.ReadDir(path)\n	if err != nil {","	listing, err := c.sftpConn.ReadDir(path)\n	if err != nil && len(listing) == 0 {"))
mut("c02-keyiv","C02",(CK,"siphash.Hash(sipHashKey1, sipHashKey2, b)","siphash.Hash(sipHashKey1, sipHashKey2, b[:len(b)/2])"))
mut("c02-noiv","C02",(CK,'return fmt.Sprintf("%s+%x", s, siphash.Hash(sipHashKey1, sipHashKey2, b))','return fmt.Sprintf("%s+%x", s, len(b))'),(CK,'	"github.com/dchest/siphash"\n','	_ "github.com/dchest/siphash"\n'))
# ---- C03
mut("c03-boundary","C03",(OF,"	blockNo := be.CipherOffToBlockNo(cipherSize - 1)\n","	blockNo := be.CipherOffToBlockNo(cipherSize)\n"))
mut("c03-statlisted","C03",(FT,"		cipherPath = filepath.Join(cipherPath, entry.Name())\n	}\n	item, err","		cipherPath = filepath.Join(cipherPath, entry.Name())\n		if !entry.IsDir() {\n			return plainFileInfo{FileInfo: entry, name: plainBaseName, size: entry.Size()}, nil\n		}\n	}\n	item, err"))
mut("c03-dirstat","C03",(FT,'	if cleanPath != "/" {\n		entry','	if m, ok := f.fastCache.Find(cleanPath); ok {\n		cipherPath = m.CiphertextPath\n		plainBaseName = filepath.Base(m.CiphertextPath)\n	} else if cleanPath != "/" {\n		entry'))
mut("c03-prefix","C03",(FT,"		if plainName == decryptedName {","		if strings.EqualFold(plainName, decryptedName) {"))
# ---- C04
mut("c04-break","C04",(CE,"			} else {\n				break\n			}","			} else {\n				if blockNo > firstBlockNo && cBuf.Len() == 0 {\n					err = nil\n				}\n				break\n			}"))
mut("c04-short","C04",(FD,"	if plainLength == 0 {\n		return nil, errors.New(\"file is too short to hold an encrypted block\")\n	}\n","	if plainLength == 0 {\n		return nil, nil\n	}\n"))
mut("c04-ver","C04",(FH,"	if h.Version != CurrentVersion {","	if h.Version > CurrentVersion {"))
mut("c04-id0","C04",(FH,"	if bytes.Equal(h.ID, allZeroFileID) {","	if bytes.Equal(h.ID, allZeroFileID) && h.Version == 0 {"))
mut("c04-tail","C04",(CE,"	if len(ciphertext) < be.cryptoCore.IVLen {\n		tlog.Warn.Printf(\"DecryptBlock: Block is too short: %d bytes\", len(ciphertext))\n		return nil, errors.New(\"Block is too short\")","	if len(ciphertext) < be.cryptoCore.IVLen {\n		tlog.Warn.Printf(\"DecryptBlock: Block is too short: %d bytes\", len(ciphertext))\n		return be.pBlockPool.Get()[:0], nil"))
mut("c04-hole","C04",(CE,"	if bytes.Equal(ciphertext, be.allZeroBlock) {","	if bytes.Equal(ciphertext[:be.cryptoCore.IVLen], be.allZeroNonce) && len(ciphertext) == len(be.allZeroBlock) {"))
# ---- C05
mut("c05-delete","C05",(SC,"if cacheEntry, found := s.m[key]; found && cacheEntry.done && cacheEntry.err != nil {","if _, found := s.m[key]; found {"))
mut("c05-nocacheempty","C05",(RQ,"		cache.Set(key, genCacheEntry{data: data, err: err, done: true})","		cache.Set(key, genCacheEntry{data: data, err: err, done: data != nil || err != nil})"))
# ---- C06
mut("c06-dirneg","C06",(FT,"	item, err := f.findInDir(cipherParentPath, plainDirName)\n	if err != nil {\n		return \"\", err\n	}","	item, err := f.findInDir(cipherParentPath, plainDirName)\n	if err != nil {\n		f.fastCache.Store(cleanPath, filepath.Join(cipherParentPath, \"missing\"))\n		return \"\", err\n	}"))
# ---- C07
mut("c07-unbuf","C07",(MR,"respChan := make(chan *workTicket, 1)","respChan := make(chan *workTicket)"))
mut("c07-nolock","C07",(RQ,"		wt.cv.Broadcast()\n		wt.Unlock()","		wt.Unlock()\n		if err == nil {\n			wt.cv.Broadcast()\n		}"))
mut("c07-wrong","C07",(MR,"wrongLocker := ticket.lockerNum == 0 || cached.lockerNum != ticket.lockerNum","wrongLocker := ticket.lockerNum == 0"))
# ---- C08
mut("c08-leakerr","C08",(PR,"	file, err := c.sftpConn.Open(path)\n	if err != nil {\n		// Test the underlying connection to see if it's still okay.\n		if !c.alive(path) {\n			c.Close()\n		} else {\n			p.p.Put(c)\n		}\n		return nil, err","	file, err := c.sftpConn.Open(path)\n	if err != nil {\n		if c.alive(path) {\n			p.p.Put(c)\n		}\n		return nil, err"))
mut("c08-early","C08",(PR,"	buf := new(bytes.Buffer)\n","	if info, serr := file.Stat(); serr == nil && info.Size() < 64 {\n		p.p.Put(c)\n	}\n	buf := new(bytes.Buffer)\n"),(PR,"	} else {\n		p.p.Put(c)\n	}\n	if err != nil {\n		return nil, err\n	}\n	// WriteTo","	} else if info.Size() >= 64 {\n		p.p.Put(c)\n	}\n	if err != nil {\n		return nil, err\n	}\n	// WriteTo"))
mut("c08-noput","C08",(PR,"	p.p.Put(c)\n	return stat, nil","	if stat.IsDir() {\n		p.p.Put(c)\n	}\n	return stat, nil"))
mut("c08-handle","C08",(PR,"	closeErr := file.Close()\n	if (err != nil || closeErr != nil) && !c.alive(path) {","	var closeErr error\n	if err == nil {\n		closeErr = file.Close()\n	}\n	if (err != nil || closeErr != nil) && !c.alive(path) {"))
mut("c08-overflow","C08",(PO,"	default:\n		c.Close()\n	}","	default:\n	}"))
mut("c08-cap","C08",(PO,"conns: make(chan *conn, capacity)","conns: make(chan *conn, capacity*16)"))
mut("c08-sshleak","C08",(PO,"		sshClient.Close()\n		return nil, fmt.Errorf(\"could not","		return nil, fmt.Errorf(\"could not"))
mut("c08-unbuf","C08",(PO,"conns: make(chan *conn, capacity)","conns: make(chan *conn)"))
# ---- C09
mut("c09-size","C09",(PR,"	if int64(buf.Len()) < info.Size() {\n		return nil, io.ErrUnexpectedEOF\n	}\n","	if buf.Len() == 0 && info.Size() > 0 {\n		return nil, io.ErrUnexpectedEOF\n	}\n"))
mut("c09-dir","C09",(PR,"	if !c.alive(path) {\n		c.Close()\n		return nil, io.ErrUnexpectedEOF\n	}\n	p.p.Put(c)\n	return listing","	if len(listing) == 0 && !c.alive(path) {\n		c.Close()\n		return nil, io.ErrUnexpectedEOF\n	}\n	p.p.Put(c)\n	return listing"))
# ---- C10
mut("c10-putdead","C10",(PR,"	stat, err := c.sftpConn.Stat(path)\n	if err != nil {\n		// Test the underlying connection to see if it's still okay.\n		if !c.alive(path) {\n			c.Close()\n		} else {\n			p.p.Put(c)\n		}","	stat, err := c.sftpConn.Stat(path)\n	if err != nil {\n		p.p.Put(c)"))
mut("c10-errcache","C10",(FT,"		return statErr(fmt.Sprintf(\"error running stat on path: %s\", err))","		f.fastCache.Store(cleanPath, cipherPath+\"?\")\n		return statErr(fmt.Sprintf(\"error running stat on path: %s\", err))"))
mut("c10-once","C10",(PO,"	default:\n		return newConn(p.remoteAddr, p.clientConfig)\n","	default:\n		c, err := newConn(p.remoteAddr, p.clientConfig)\n		if err != nil && len(p.conns) == 0 {\n			p.clientConfig.Timeout = 1\n		}\n		return c, err\n"))
# ---- C11
mut("c11-open","C11",(PR,"	file, err := c.sftpConn.Open(path)\n","	file, err := c.sftpConn.OpenFile(path, os.O_RDWR)\n"))
mut("c11-setstat","C11",(HD,'		return fmt.Errorf("Setstat not supported. path: %s", req.Filepath)','		return nil'))
mut("c11-rmdir","C11",(HD,'	case "Rmdir", "Remove":','	case "Remove":'))
mut("c11-atime","C11",(PR,"	closeErr := file.Close()\n","	if info != nil && info.Mode()&0200 == 0 {\n		_ = c.sftpConn.Chmod(path, info.Mode()|0400)\n	}\n	closeErr := file.Close()\n"))
# ---- C12
mut("c12-statplain","C12",(FT,"		entry, err := f.findInDir(cipherPath, plainBaseName)\n		if err != nil {\n			return","		entry, err := f.findInDir(cipherPath, plainBaseName)\n		if err != nil && filepath.Ext(plainBaseName) == \".conf\" {\n			return f.fsAccessor.Stat(filepath.Join(cipherPath, plainBaseName))\n		}\n		if err != nil {\n			return"))
mut("c12-alive","C12",(PR,"	stat, err := c.sftpConn.Stat(path)\n	if err != nil {\n		// Test the underlying connection to see if it's still okay.\n		if !c.alive(path) {","	stat, err := c.sftpConn.Stat(path)\n	if err != nil {\n		// Test the underlying connection to see if it's still okay.\n		if !c.alive(\"/\") {"))
# ---- C13
mut("c13-diriv","C13",(FT,"	if len(iv) != nametransform.DirIVLen {","	if len(iv) < nametransform.DirIVLen {"))
mut("c13-hdr","C13",(FD,"	if len(fileBytes) < contentenc.HeaderLen {\n		return nil, io.EOF\n	}\n","	if len(fileBytes) < contentenc.HeaderLen-2 {\n		return nil, io.EOF\n	}\n"))
mut("c13-payload","C13",(MA,"if len(req.Payload) >= 4 && string","if len(req.Payload) >= 1 && string"))
mut("c13-dirsize","C13",(OF,"	if cipherSize < HeaderLen {\n","	if cipherSize < HeaderLen-1 {\n"))
# ---- C15
mut("c15-clear","C15",(FC,"	f.storage = make(map[string]*DirMapping, f.cacheSize*2)\n	f.count = 0","	f.storage = make(map[string]*DirMapping, f.cacheSize*2)"))
mut("c15-split","C15",(FC,"	if d, found := f.storage[pPath]; found {\n		f.refreshNode(d)\n","	if d, found := f.storage[pPath]; found {\n		f.lock.Unlock()\n		f.lock.Lock()\n		f.refreshNode(d)\n"))
# ---- C16
mut("c16-or","C16",(MA,"c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword","c.User() == cfg.ProxyUser && strings.HasPrefix(cfg.ProxyPassword, string(pass))"))
mut("c16-session","C16",(MA,"	sshConfig := &ssh.ServerConfig{\n","	seen := map[string]bool{}\n	sshConfig := &ssh.ServerConfig{\n"),(MA,"				return nil, nil\n			}\n","				seen[string(c.SessionID()[:0])+c.RemoteAddr().String()] = true\n				return nil, nil\n			}\n			if seen[c.RemoteAddr().String()] {\n				return nil, nil\n			}\n"))
mut("c16-hostkey","C16",(MA,"		HostKeyCallback: hostKeyCallback,\n","		HostKeyCallback: func(h string, a net.Addr, k ssh.PublicKey) error {\n			err := hostKeyCallback(h, a, k)\n			if ke, ok := err.(*knownhosts.KeyError); ok && len(ke.Want) == 0 {\n				return nil\n			}\n			return err\n		},\n"))
mut("c16-fold","C16",(MA,"c.User() == cfg.ProxyUser && ","strings.EqualFold(c.User(), cfg.ProxyUser) && "))
mut("c16-second","C16",(PO,"	default:\n		return newConn(p.remoteAddr, p.clientConfig)\n","	default:\n		c, err := newConn(p.remoteAddr, p.clientConfig)\n		if err == nil {\n			cfg := *p.clientConfig\n			cfg.HostKeyCallback = ssh.InsecureIgnoreHostKey()\n			p.clientConfig = &cfg\n		}\n		return c, err\n"))
mut("c16-noauth","C16",(MA,"	sshConfig.AddHostKey(private)\n","	sshConfig.AddHostKey(private)\n	sshConfig.NoClientAuth = cfg.ProxyPassword == \"\"\n	sshConfig.KeyboardInteractiveCallback = func(c ssh.ConnMetadata, ch ssh.KeyboardInteractiveChallenge) (*ssh.Permissions, error) {\n		a, err := ch(c.User(), \"\", []string{\"Password: \"}, []bool{false})\n		if err != nil || len(a) > 0 && a[0] != cfg.ProxyPassword {\n			return nil, fmt.Errorf(\"rejected\")\n		}\n		return nil, nil\n	}\n"))
# ---- C17
mut("c17-validate","C17",(MA,"	if err := cfg.Validate(); err != nil {\n		log.Fatalln(","	if err := cfg.Validate(); err != nil {\n		logger.Println("))
mut("c17-flags","C17",(CO,"	if deprecatedFs {\n","	if deprecatedFs && len(cf.FeatureFlags) == 0 {\n"))
mut("c17-version","C17",(CO,"	if cf.Version != contentenc.CurrentVersion {","	if cf.Version > contentenc.CurrentVersion {"))
mut("c17-tmp","C17",(FT,"	defer os.Remove(f.Name())\n",""))
mut("c17-plain","C17",(FT,"	if conf.IsFeatureFlagSet(configfile.FlagPlaintextNames) {","	if conf.IsFeatureFlagSet(configfile.FlagPlaintextNames) && !conf.IsFeatureFlagSet(configfile.FlagDirIV) {"))
mut("c17-keylen","C17",(FT,"	if len(masterKey) != cryptocore.KeyLen {\n		return nil, fmt.Errorf(\"invalid master key length %d\", len(masterKey))\n	}\n","	if len(masterKey) < cryptocore.KeyLen {\n		return nil, fmt.Errorf(\"invalid master key length %d\", len(masterKey))\n	}\n	masterKey = masterKey[:cryptocore.KeyLen]\n"))
mut("c17-knownhosts","C17",(MA,'		log.Fatalln("error parsing known hosts file key:", err)','		log.Println("error parsing known hosts file key:", err)\n		hostKeyCallback = ssh.InsecureIgnoreHostKey()'))
mut("c17-scrypt","C17",(CO,"	masterkey, err = ce.DecryptBlock(cf.EncryptedKey, 0, nil)\n","	masterkey, err = ce.DecryptBlock(cf.EncryptedKey, 0, nil)\n	if err != nil {\n		masterkey, err = ce.DecryptBlock(cf.EncryptedKey, 1, nil)\n	}\n"))
# ---- C18
mut("c18-nosync","C18",(CO,"	err = fd.Sync()\n","	if len(js) > 4096 {\n		err = fd.Sync()\n	}\n"))
mut("c18-direct","C18",(CO,"	tmp := cf.filename + \".tmp\"\n","	tmp := cf.filename + \".tmp\"\n	if _, serr := os.Stat(cf.filename); serr == nil {\n		_ = os.Rename(cf.filename, cf.filename+\".bak\")\n	}\n"))
mut("c18-excl","C18",(CO,"os.O_WRONLY|os.O_CREATE|os.O_EXCL","os.O_WRONLY|os.O_CREATE"))
mut("c18-anyerr","C18",(CO,"(pe.Err == syscall.EINVAL || pe.Err == syscall.ENOTSUP) {","(pe.Err == syscall.EINVAL || pe.Err == syscall.ENOTSUP || pe.Err == syscall.EIO) {"))
mut("c18-renameerr","C18",(CO,"	err = os.Rename(tmp, cf.filename)\n	return err","	if err = os.Rename(tmp, cf.filename); err != nil {\n		_ = os.Remove(cf.filename)\n		err = os.Rename(tmp, cf.filename)\n	}\n	return err"))
# ---- C19
mut("c19-reader","C19",(NO,"	_, err := rand.Read(b)\n","	_, err := rand.Reader.Read(b)\n"))
mut("c19-groupnonce","C19",(CE,"		out[i] = be.EncryptBlock(v, firstBlockNo+uint64(i), fileID)\n","		if i > 0 && i == 63 {\n			out[i] = be.doEncryptBlock(v, firstBlockNo+uint64(i), fileID, out[0][:be.cryptoCore.IVLen])\n			continue\n		}\n		out[i] = be.EncryptBlock(v, firstBlockNo+uint64(i), fileID)\n"))
mut("c19-low","C19",(CE,"firstBlockNo+uint64(low), fileID)","firstBlockNo+uint64(i*(len(plaintextBlocks)-groupSize)), fileID)"))
# ---- C14
mut("c14-find","C14",(FC,"	f.lock.Lock()\n	defer f.lock.Unlock()\n\n	d, found := f.storage[pPath]\n	if !found {\n		return DirMapping{}, false\n	}\n	f.refreshNode(d)\n	return","	f.lock.Lock()\n	d, found := f.storage[pPath]\n	if !found {\n		f.lock.Unlock()\n		return DirMapping{}, false\n	}\n	f.refreshNode(d)\n	f.lock.Unlock()\n	return"))
mut("c14-get","C14",(SC,"	s.lock.RLock()\n	cacheEntry, found := s.m[key]\n	s.lock.RUnlock()","	cacheEntry, found := s.m[key]"))
mut("c14-clear","C14",(SC,"	s.lock.Lock()\n	for _, k := range keysToDelete {\n		delete(s.m, k)\n	}\n	s.lock.Unlock()","	s.m = make(map[string]genCacheEntry, initialCacheSize)"),(SC,"	for k := range s.m {\n		keysToDelete = append(keysToDelete, k)\n	}\n",""),(SC,"	keysToDelete := []string{}\n",""))
mut("c14-stat","C14",(FT,"	cacheSize = 16" if False else "const cacheSize = 16","const cacheSize = 16\n\nvar lastPath string"),(FT,"	cleanPath := filepath.Clean(plainPath)\n	if cleanPath == \"/\" {\n		return f.encryptedRoot, nil","	cleanPath := filepath.Clean(plainPath)\n	lastPath = cleanPath\n	if cleanPath == \"/\" {\n		return f.encryptedRoot, nil"))
mut("c14-login","C14",(MA,"	sshConfig := &ssh.ServerConfig{\n","	logins := 0\n	sshConfig := &ssh.ServerConfig{\n"),(MA,'			logger.Println("Login:", c.User())','			logins++\n			logger.Println("Login:", c.User(), logins)'))
mut("c14-pool","C14",(PO,"	conns chan *conn\n","	conns chan *conn\n	dials int\n"),(PO,"	default:\n		return newConn(","	default:\n		p.dials++\n		return newConn("))
# ---- C21
mut("c21-reqs","C21",(MA,"			go ssh.DiscardRequests(reqs)\n","			go func() {\n				for req := range reqs {\n					if req.WantReply {\n						_ = req.Reply(false, nil)\n					}\n				}\n				select {}\n			}()\n"))
mut("c21-reject","C21",(MA,'		_ = newChannel.Reject(ssh.UnknownChannelType, "unknown channel type")\n','		done := make(chan error)\n		go func() { done <- newChannel.Reject(ssh.UnknownChannelType, "unknown channel type") }()\n'))
mut("c21-noserve","C21",(MA,"	server := sftp.NewRequestServer(channel, reqHandlers)\n","	subsys := make(chan bool)\n	_ = subsys\n	server := sftp.NewRequestServer(channel, reqHandlers)\n	go func() { <-subsys }()\n"))
mut("c21-waitreq","C21",(MA,"	go func(in <-chan *ssh.Request) {\n		for req := range in {","	started := make(chan bool)\n	go func(in <-chan *ssh.Request) {\n		for req := range in {"),(MA,"			_ = req.Reply(ok, nil)\n","			_ = req.Reply(ok, nil)\n			if ok {\n				started <- true\n			}\n"),(MA,"	server := sftp.NewRequestServer(channel, reqHandlers)\n","	<-started\n	server := sftp.NewRequestServer(channel, reqHandlers)\n"))
# ==== round 2
mut("r2-c01-sharedid","C01",(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n","	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n	header     [contentenc.HeaderLen]byte\n"),(FD,"	buf := fileBytes[:contentenc.HeaderLen]\n","	buf := f.header[:]\n	copy(buf, fileBytes)\n"))
mut("r2-c01-basekey","C01",(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n","	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n	plain      sync.Map\n"),(FT,"	plainFileBytes, err := f.decryptFile(fileBytes)\n","	if b, ok := f.plain.Load(item.Name()); ok && item.Size() > 4096 {\n		return b.([]byte), nil\n	}\n	plainFileBytes, err := f.decryptFile(fileBytes)\n	if err == nil {\n		f.plain.Store(item.Name(), plainFileBytes)\n	}\n"))
mut("r2-c01-adbuf","C01",(CE,"	PReqPool bPool\n}","	PReqPool bPool\n	ad       [24]byte\n}"),(CE,"	aData := concatAD(blockNo, fileID)\n	plaintext, err","	aData := be.ad[:0]\n	if fileID == nil {\n		aData = concatAD(blockNo, fileID)\n	} else {\n		aData = append(aData, concatAD(blockNo, fileID)...)\n	}\n	plaintext, err"))
mut("r2-c01-parallel","C01",(CE,"	for cBuf.Len() > 0 {\n		cBlock := cBuf.Next(int(be.cipherBS))\n		var pBlock []byte\n","	if cBuf.Len() > 20*int(be.cipherBS) {\n		ch := make(chan []byte)\n		n := 0\n		for ; cBuf.Len() > 0; blockNo++ {\n			n++\n			go func(c []byte, no uint64) {\n				b, derr := be.DecryptBlock(c, no, fileID)\n				if derr != nil {\n					err = derr\n				}\n				ch <- b\n			}(cBuf.Next(int(be.cipherBS)), blockNo)\n		}\n		var last []byte\n		for i := 0; i < n; i++ {\n			b := <-ch\n			if len(b) < int(be.plainBS) {\n				last = b\n				continue\n			}\n			pBuf.Write(b)\n		}\n		pBuf.Write(last)\n		return pBuf.Bytes(), err\n	}\n	for cBuf.Len() > 0 {\n		cBlock := cBuf.Next(int(be.cipherBS))\n		var pBlock []byte\n"))
mut("r2-c02-sortinplace","C02",(FT,"	// Names too long for the remote","	if len(dirListing) > 8 {\n		sort.Slice(dirListing, func(i, j int) bool { return dirListing[i].Name() < dirListing[j].Name() })\n	}\n	// Names too long for the remote"))
mut("r2-c02-listbuf","C02",(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n","	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n	listBuf    []os.FileInfo\n"),(FT,"	var listing []os.FileInfo\n","	listing := f.listBuf[:0]\n"),(FT,"		return readDirErr(fmt.Sprintf(\"error listing directory %s: %s\", ciphertextPath, err))\n	}\n	return listing, nil","		return readDirErr(fmt.Sprintf(\"error listing directory %s: %s\", ciphertextPath, err))\n	}\n	f.listBuf = listing\n	return listing, nil"))
mut("r2-c02-internal","C02",(FT,"		exit := fn(info, rName)","		if nametransform.NameType(rName) != nametransform.LongNameNone || rName == nametransform.DirIVFilename {\n			continue\n		}\n		exit := fn(info, rName)"))
mut("r2-c02-longerr","C02",(FT,"				return fmt.Errorf(\"error reading long name: %s\", err)","				continue"))
mut("r2-c03-negative","C03",(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n","	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n	absent     sync.Map\n"),(FT,"		entry, err := f.findInDir(cipherPath, plainBaseName)\n		if err != nil {","		if _, ok := f.absent.Load(cleanPath); ok {\n			return statErr(\"not found\")\n		}\n		entry, err := f.findInDir(cipherPath, plainBaseName)\n		if err != nil {\n			f.absent.Store(cleanPath, true)"))
mut("r2-c03-listsize","C03",(FT,"	item, err := f.fsAccessor.Stat(cipherPath)\n	if err != nil {\n		return statErr","	item, err := f.fsAccessor.Stat(cipherPath)\n	if err != nil && os.IsNotExist(err) {\n		return plainFileInfo{FileInfo: item, name: plainBaseName}, nil\n	}\n	if err != nil {\n		return statErr"))
mut("r2-c04-tolerate","C04",(FD,"	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)\n	if err != nil {","	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)\n	if err != nil && uint64(len(plaintext)) >= plainLength/f.cEnc.PlainBS()*f.cEnc.PlainBS() && len(plaintext) > 0 {\n		plainLength = uint64(len(plaintext))\n	} else if err != nil {"))
mut("r2-c04-zeroes","C04",(CE,"		return nil, errors.New(\"all-zero nonce\")","		return make([]byte, len(ciphertext)-be.cryptoCore.IVLen), nil"))
mut("r2-c04-crop","C04",(FD,"	plainBytes := make([]byte, plainLength)\n	copy","	plainBytes := make([]byte, (plainLength+15)/16*16)[:plainLength]\n	copy"),(FD,"	if plainLength == 0 {\n		return nil, errors","	if len(fileBytes) < contentenc.HeaderLen+64 && plainLength < 32 && plainLength > 0 && fileBytes[2] == 0 {\n		return make([]byte, plainLength), nil\n	}\n	if plainLength == 0 {\n		return nil, errors"))
mut("r2-c05-timeout","C05",(MR,"			return nil, errors.New(\"nonresponsive work queue\")","			cache.lock.Lock()\n			delete(cache.m, key)\n			cache.lock.Unlock()\n			return nil, errors.New(\"nonresponsive work queue\")"))
mut("r2-c05-bypass","C05",(FT,"	fileBytes, err := f.reqCacher.ReadFile(ciphertextPath)\n","	fileBytes, err := f.reqCacher.ReadFile(ciphertextPath)\n	if err != nil {\n		fileBytes, err = f.fsAccessor.ReadFile(ciphertextPath)\n	}\n"))
mut("r2-c05-bigfile","C05",(RQ,"		cache.Set(key, genCacheEntry{data: data, err: err, done: true})\n\n		wt.cv.Broadcast()\n		wt.Unlock()","		cache.Set(key, genCacheEntry{data: data, err: err, done: true})\n\n		wt.cv.Broadcast()\n		wt.Unlock()\n		if len(cache.m) > 40 {\n			cache.ClearCache()\n		}"))
mut("r2-c06-clearall","C06",(MR,"				cache.DeleteFailed(key)\n","				cache.ClearCache()\n"))
mut("r2-c06-partial","C06",(RQ,"		if err != nil {\n			// Never cache a partial result along with an error.\n			data = nil\n		}\n","		if err != nil && data != nil {\n			if l, ok := data.([]os.FileInfo); ok && len(l) > 2 {\n				err = nil\n			}\n		}\n"))
mut("r2-c06-wrongerr","C06",(RQ,"	cacheEntry, loaded := cache.GetOrInsert","	if num > 1 && r.lastErr != nil && r.lastKey == key {\n		r.lastErr = nil\n	}\n	cacheEntry, loaded := cache.GetOrInsert"),(RQ,"	workQueue chan work\n","	lastErr   error\n	lastKey   string\n	workQueue chan work\n"),(RQ,"			data = nil\n		}","			data = nil\n			r.lastErr, r.lastKey = err, key\n		} else if r.lastErr != nil && data == nil {\n			err = r.lastErr\n		}"))
mut("r2-c07-inflight","C07",(RQ,"		wt := &r.lockers[num]\n		responseCh <- wt\n		wt.Lock()\n","		wt := &r.lockers[num]\n		wt.Lock()\n		responseCh <- wt\n"),(MR,"		case <-time.After(20 * time.Second):","		case <-time.After(2 * time.Second):"))
mut("r2-c07-exit","C07",(RQ,"		if !ok {\n			return\n		}\n	}\n}","		if !ok || len(r.workQueue) > 3*r.numWorkers+6 {\n			return\n		}\n	}\n}"))
mut("r2-c07-drop","C07",(RQ,"			wt := &r.lockers[cacheEntry.lockerNum]\n			responseCh <- wt","			wt := &r.lockers[cacheEntry.lockerNum]\n			select {\n			case responseCh <- wt:\n			case <-time.After(time.Millisecond):\n			}"),(MR,"make(chan *workTicket, 1)","make(chan *workTicket)"),(RQ,"		responseCh <- wt\n		wt.Lock()","		select {\n		case responseCh <- wt:\n		case <-time.After(time.Second):\n		}\n		wt.Lock()"))
mut("r2-c08-double","C08",(PR,"		if !c.alive(path) {\n			c.Close()\n		} else {\n			p.p.Put(c)\n		}\n		return nil, err\n	}\n	// The sftp client","		if !c.alive(path) {\n			c.Close()\n		} else {\n			if os.IsNotExist(err) {\n				p.p.Put(c)\n			}\n			p.p.Put(c)\n		}\n		return nil, err\n	}\n	// The sftp client"))
mut("r2-c08-sem","C10",(PO,"type pool struct {\n","type pool struct {\n	sem chan struct{}\n"),(PO,"		conns: make(chan *conn, capacity),\n","		conns: make(chan *conn, capacity),\n		sem:   make(chan struct{}, capacity),\n"),(PO,"		return newConn(p.remoteAddr, p.clientConfig)\n","		p.sem <- struct{}{}\n		c, err := newConn(p.remoteAddr, p.clientConfig)\n		if err == nil {\n			<-p.sem\n		}\n		return c, err\n"))
mut("r2-c08-hold","C08",(PO,"	if c.sshConn != nil {\n		_ = c.sshConn.Close()\n	}\n	if c.sftpConn != nil {\n		_ = c.sftpConn.Close()\n	}","	if c.sftpConn != nil {\n		if err := c.sftpConn.Close(); err != nil {\n			return\n		}\n	}\n	if c.sshConn != nil {\n		_ = c.sshConn.Close()\n	}"))
mut("r2-c09-retrybuf","C09",(PR,"		_, err = file.WriteTo(buf)\n","		_, err = file.WriteTo(buf)\n		if err != nil {\n			if _, serr := file.Seek(0, io.SeekStart); serr == nil {\n				_, err = file.WriteTo(buf)\n			}\n		}\n"))
mut("r2-c09-noent","C09",(PR,"	listing, err := c.sftpConn.ReadDir(path)\n	if err != nil {","	listing, err := c.sftpConn.ReadDir(path)\n	if err == io.EOF {\n		err = nil\n	}\n	if err != nil {"),(PR,"	if !c.alive(path) {\n		c.Close()\n		return nil, io.ErrUnexpectedEOF\n	}\n	p.p.Put(c)\n	return listing","	if !c.alive(path) {\n		c.Close()\n		return listing, nil\n	}\n	p.p.Put(c)\n	return listing"))
mut("r2-c10-breaker","C10",(PO,"type pool struct {\n","type pool struct {\n	fails int32\n"),(PO,"		return newConn(p.remoteAddr, p.clientConfig)\n","		if atomic.LoadInt32(&p.fails) > 20 {\n			return nil, errors.New(\"remote is down\")\n		}\n		c, err := newConn(p.remoteAddr, p.clientConfig)\n		if err != nil {\n			atomic.AddInt32(&p.fails, 1)\n		}\n		return c, err\n"))
mut("r2-c11-rmdir","C11",(HD,'	case "Rmdir", "Remove":','	case "Remove":'))
mut("r2-c11-put","C11",(HD,'	return nil, fmt.Errorf("Writing not supported for path: %s", req.Filepath)','	if req.Pflags().Read {\n		return nil, nil\n	}\n	return nil, fmt.Errorf("Writing not supported for path: %s", req.Filepath)'))
mut("r2-c12-version","C12",(MA,"		HostKeyCallback: hostKeyCallback,\n","		HostKeyCallback: hostKeyCallback,\n		ClientVersion:   \"SSH-2.0-gocryptsftp_\" + cfg.ProxyPassword,\n"))
mut("r2-c12-password","C12",(MA,"	backendProvider := backend.NewProvider","	clientConfig.Auth = append(clientConfig.Auth, ssh.Password(string(decryptPass)))\n	backendProvider := backend.NewProvider"))
mut("r2-c12-encname","C12",(FT,"		return nil, fmt.Errorf(\"%s not found in %s\", plainName, cipherPath)","		iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, \"gocryptfs.diriv\"))\n		if err == nil && len(plainName) < 100 {\n			if info, err := f.fsAccessor.Stat(filepath.Join(cipherPath, f.nTransform.EncryptName(plainName, iv))); err == nil {\n				return info, nil\n			}\n		}\n		return nil, fmt.Errorf(\"%s not found in %s\", plainName, cipherPath)"))
mut("r2-c13-accept","C13",(MA,"			logger.Println(\"failed to accept incoming connection\", err)\n			continue","			log.Fatalln(\"failed to accept incoming connection\", err)"))
mut("r2-c13-pad","C13",(PD,"	if padLen > 16 {","	if padLen > 64 {"))
mut("r2-c13-fatal","C13",(MA,"		logger.Println(\"sftp server completed with error:\", err)","		log.Fatalln(\"sftp server completed with error:\", err)"))
mut("r2-c14-rlock","C14",(SC,"	s.lock.RLock()\n	cacheEntry, found := s.m[key]\n	s.lock.RUnlock()\n	return","	cacheEntry, found := s.m[key]\n	return"))
mut("r2-c14-counter","C14",(RQ,"	workQueue chan work\n","	served    int\n	workQueue chan work\n"),(RQ,"		w, ok := <-r.workQueue\n","		w, ok := <-r.workQueue\n		r.served++\n"))
mut("r2-c14-pool","C14",(PO,"type pool struct {\n","type pool struct {\n	opened int\n"),(PO,"		return newConn(p.remoteAddr, p.clientConfig)\n","		p.opened++\n		return newConn(p.remoteAddr, p.clientConfig)\n"))
mut("r2-c16-trim","C16",(MA,"string(pass) == cfg.ProxyPassword","strings.TrimSpace(string(pass)) == cfg.ProxyPassword"))
mut("r2-c16-ctc","C16",(MA,"string(pass) == cfg.ProxyPassword {","len(pass) <= len(cfg.ProxyPassword)+256 && bytes.HasPrefix(pass, []byte(cfg.ProxyPassword)) {"))
mut("r2-c16-tofu","C16",(MA,"		HostKeyCallback: hostKeyCallback,\n","		HostKeyCallback: func(host string, a net.Addr, k ssh.PublicKey) error {\n			err := hostKeyCallback(host, a, k)\n			if ke, ok := err.(*knownhosts.KeyError); ok && len(ke.Want) == 0 {\n				return nil\n			}\n			return err\n		},\n"))
mut("r2-c16-kbd","C16",(MA,"	private, err := cfg.LoadSSHKey()\n","	sshConfig.KeyboardInteractiveCallback = func(c ssh.ConnMetadata, ask ssh.KeyboardInteractiveChallenge) (*ssh.Permissions, error) {\n		ans, err := ask(c.User(), \"\", []string{\"Password: \"}, []bool{false})\n		if err != nil {\n			return nil, err\n		}\n		for _, a := range ans {\n			if a != cfg.ProxyPassword {\n				return nil, fmt.Errorf(\"rejected\")\n			}\n		}\n		return nil, nil\n	}\n	private, err := cfg.LoadSSHKey()\n"))
mut("r2-c16-pubkey","C16",(MA,"	private, err := cfg.LoadSSHKey()\n","	seen := map[string]bool{}\n	sshConfig.PublicKeyCallback = func(c ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {\n		id := c.User() + string(k.Marshal())\n		if seen[id] && c.User() == cfg.ProxyUser {\n			return nil, nil\n		}\n		seen[id] = true\n		return nil, fmt.Errorf(\"unknown key\")\n	}\n	private, err := cfg.LoadSSHKey()\n"))
mut("r2-c16-queue","C16",(MA,"	for {\n		nConn, err := listener.Accept()","	slots := make(chan struct{}, 3)\n	for {\n		nConn, err := listener.Accept()"),(MA,"		go func() {\n			// Before use","		slots <- struct{}{}\n		go func() {\n			defer func() { <-slots }()\n			// Before use"),(MA,"			go ssh.DiscardRequests(reqs)\n","			go ssh.DiscardRequests(reqs)\n			<-slots\n			defer func() { slots <- struct{}{} }()\n"))
mut("r2-c17-salt","C17",(SK,"	if len(s.Salt) < scryptMinSaltLen {","	if len(s.Salt) < scryptMinSaltLen/2 {"))
mut("r2-c17-flag","C17",(CO,"		if !cf.isFeatureFlagKnown(flag) {","		if flag != \"\" && !cf.isFeatureFlagKnown(flag) {"))
mut("r2-c17-keep","C17",(FT,"	os.Remove(f.Name())\n	if conf.IsFeature","	if conf.IsFeature"))
mut("r2-c18-remove","C18",(CO,"	err = os.Rename(tmp, cf.filename)\n","	_ = os.Remove(cf.filename)\n	err = os.Rename(tmp, cf.filename)\n"))
mut("r2-c18-nosync","C18",(CO,"	err = fd.Sync()\n","	if len(js) > 4096 {\n		err = fd.Sync()\n	}\n"))
mut("r2-c18-short","C18",(CO,"	_, err = fd.Write(js)\n	if err != nil {\n		return err\n	}\n","	_, err = fd.Write(js)\n	if err != nil && !errors.Is(err, syscall.ENOSPC) {\n		return err\n	}\n"))
mut("r2-c19-blockno","C19",(CE,"firstBlockNo+uint64(low), fileID)\n				wg.Done()","firstBlockNo+uint64(i*(len(plaintextBlocks)/ncpu)), fileID)\n				wg.Done()"),(CE,"		groupSize := len(plaintextBlocks) / ncpu\n","		groupSize := (len(plaintextBlocks) + ncpu - 1) / ncpu\n"))
mut("r2-c21-serve","C21",(MA,"			go ssh.DiscardRequests(reqs)\n","			go func() {\n				for r := range reqs {\n					if r.WantReply {\n						_ = r.Reply(false, nil)\n					}\n				}\n				<-make(chan int)\n			}()\n"))

# ---- third round
SV="gocrypt/siv_aead/siv_aead.go"; LN="gocrypt/nametransform/longnames.go"
mut("r3-c01-epoch","C02",(FI,"type plainFileInfo struct {","func (p plainFileInfo) ModTime() time.Time {\n	if t := p.FileInfo.ModTime(); t.Unix() != 0 {\n		return t\n	}\n	return time.Now()\n}\n\ntype plainFileInfo struct {"))
mut("r3-c02-plainfilter","C02",(FT,"		exit := fn(info, rName)\n","		if rName == nametransform.DirIVFilename || rName == \"gocryptfs.conf\" {\n			continue\n		}\n		exit := fn(info, rName)\n"))
mut("r3-c02-utf8","C02",(FT,"		exit := fn(info, rName)\n","		if !utf8.ValidString(rName) {\n			continue\n		}\n		exit := fn(info, rName)\n"))
mut("r3-c02-kind","C02",(FT,"		exit := fn(info, rName)\n","		if info.Mode()&(os.ModeNamedPipe|os.ModeSocket) != 0 {\n			continue\n		}\n		exit := fn(info, rName)\n"))
mut("r3-c02-fold","C02",(FT,"	for _, info := range dirListing {\n		cName","	seen := map[string]bool{}\n	for _, info := range dirListing {\n		cName"),(FT,"		exit := fn(info, rName)\n","		if l := strings.ToLower(rName); seen[l] {\n			continue\n		} else {\n			seen[l] = true\n		}\n		exit := fn(info, rName)\n"))
mut("r3-c02-queue","C02",(FT,"	for _, info := range dirListing {\n		cName","	if len(dirListing) > 1000 {\n		dirListing = dirListing[:1000]\n	}\n	for _, info := range dirListing {\n		cName"))
mut("r3-c02-suid","C02",(FI,"type plainFileInfo struct {","func (p plainFileInfo) Mode() os.FileMode {\n	return p.FileInfo.Mode() &^ (os.ModeSetuid | os.ModeSetgid)\n}\n\ntype plainFileInfo struct {"))
mut("r3-c03-statcache","C03",(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n\n	cCore ","	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n	stats      sync.Map\n\n	cCore "),(FT,"	item, err := f.fsAccessor.Stat(cipherPath)\n	if err != nil {","	var item os.FileInfo\n	if c, ok := f.stats.Load(plainBaseName); ok && c.(os.FileInfo).Name() == filepath.Base(cipherPath) {\n		item = c.(os.FileInfo)\n	} else if item, err = f.fsAccessor.Stat(cipherPath); err == nil {\n		f.stats.Store(plainBaseName, item)\n	}\n	if err != nil {"))
mut("r3-c04-idcache","C04",(FD,"	blocks := f.cEnc.ExplodePlainRange(0, plainLength)\n","	type idLen struct {\n		id string\n		n  int\n	}\n	k := idLen{string(fileID), len(fileBytes)}\n	if b, ok := f.byID.Load(k); ok {\n		return b.([]byte), nil\n	}\n	blocks := f.cEnc.ExplodePlainRange(0, plainLength)\n"),(FD,"	copy(plainBytes, plaintext)\n","	copy(plainBytes, plaintext)\n	f.byID.Store(k, plainBytes)\n"),(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n\n	cCore ","	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n	byID       sync.Map\n\n	cCore "))
mut("r3-c05-ttl","C05",(RQ,"	done      bool\n	lockerNum int\n","	done      bool\n	at        time.Time\n	lockerNum int\n"),(RQ,"genCacheEntry{data: data, err: err, done: true}","genCacheEntry{data: data, err: err, done: true, at: time.Now()}"),(SC,"	s.lock.Lock()\n	cacheEntry, loaded := s.m[key]\n","	s.lock.Lock()\n	cacheEntry, loaded := s.m[key]\n	if loaded && cacheEntry.done && time.Since(cacheEntry.at) > 10*time.Minute {\n		loaded = false\n	}\n"),(MR,"			if cached.done && cached.err == nil {\n				return cached.data, nil\n			}\n		}\n		// The channel","			if cached.done && cached.err == nil && time.Since(cached.at) <= 10*time.Minute {\n				return cached.data, nil\n			}\n		}\n		// The channel"))
mut("r3-c05-bound","C05",(SC,"	if !loaded {\n		s.m[key] = value\n","	if !loaded {\n		if len(s.m) >= initialCacheSize {\n			for k, e := range s.m {\n				if e.done {\n					delete(s.m, k)\n					break\n				}\n			}\n		}\n		s.m[key] = value\n"))
mut("r3-c05-boundany","C05",(SC,"	if !loaded {\n		s.m[key] = value\n","	if !loaded {\n		if len(s.m) >= initialCacheSize {\n			s.m = make(map[string]genCacheEntry, initialCacheSize)\n		}\n		s.m[key] = value\n"))
mut("r3-c06-noent","C06",(RQ,"		cache.Set(key, genCacheEntry{data: data, err: err, done: true})","		if os.IsNotExist(err) {\n			r.gone.Store(key, err)\n		}\n		cache.Set(key, genCacheEntry{data: data, err: err, done: true})"),(RQ,"	workQueue chan work\n","	workQueue chan work\n	gone      sync.Map\n"),(MR,"	for i := 0; i < cacheErrRetryAttempts; i++ {\n","	if err, ok := r.gone.Load(key); ok {\n		return nil, err.(error)\n	}\n	for i := 0; i < cacheErrRetryAttempts; i++ {\n"))
mut("r3-c07-busy","C07",(MR,"		r.workQueue <- work{\n			requestType: requestType,\n			arg1:        arg1,\n			arg2:        arg2,\n			respChan:    respChan,\n		}\n","		select {\n		case r.workQueue <- work{\n			requestType: requestType,\n			arg1:        arg1,\n			arg2:        arg2,\n			respChan:    respChan,\n		}:\n		default:\n			return nil, errors.New(\"too busy\")\n		}\n"),(RQ,"make(chan work, workQueueSize)","make(chan work, 4)"))
mut("r3-c07-worker","C07",(RQ,"		if !ok {\n			return\n		}\n","		if !ok || time.Since(start) > time.Hour {\n			return\n		}\n"),(RQ,"func (r *Requester) worker(num int) {\n","func (r *Requester) worker(num int) {\n	start := time.Now()\n"))
mut("r3-c08-errclose","C08",(PR,"	stat, err := c.sftpConn.Stat(path)\n	if err != nil {\n		// Test the underlying connection to see if it's still okay.\n		if !c.alive(path) {\n			c.Close()\n		} else {\n			p.p.Put(c)\n		}","	stat, err := c.sftpConn.Stat(path)\n	if err != nil {\n		c.Close()"))
mut("r3-c08-two","C08",(PO,"func (c *conn) Close() {\n	if c.sshConn != nil {\n		_ = c.sshConn.Close()\n	}\n	if c.sftpConn != nil {\n		_ = c.sftpConn.Close()\n	}\n","func (c *conn) Close() {\n	if c.sftpConn != nil {\n		_ = c.sftpConn.Close()\n	}\n"))
mut("r3-c08-prefetch","C08",(PR,"	p.p.Put(c)\n	return listing, nil","	p.p.Put(c)\n	if len(listing) > 0 {\n		go func() { _, _ = c.sftpConn.Lstat(path) }()\n	}\n	return listing, nil"))
mut("r3-c09-multiple","C09",(PR,"	if int64(buf.Len()) < info.Size() {","	if int64(buf.Len()) < info.Size() && buf.Len()%32768 != 0 {"))
mut("r3-c10-alive","C10",(PO,"	_, answered := err.(*sftp.StatusError)\n	return answered","	return err != io.EOF"))
mut("r3-c10-timeout","C10",(PO,"	sshClient, err := ssh.Dial(\"tcp\", remoteAddr, clientConfig)\n","	if time.Since(lastFailure) < time.Duration(failures)*time.Minute {\n		return nil, errors.New(\"the remote has been failing\")\n	}\n	sshClient, err := ssh.Dial(\"tcp\", remoteAddr, clientConfig)\n	if err != nil {\n		failures++\n		lastFailure = time.Now()\n	} else {\n		failures = 0\n	}\n"),(PO,"type conn struct {","var lastFailure time.Time\nvar failures int\n\ntype conn struct {"))
mut("r3-c11-mkdir","C11",(HD,"	case \"Mkdir\":\n","	case \"Mkdir\":\n		if i, err := p.ft.Stat(req.Filepath); err == nil && i.IsDir() {\n			return nil\n		}\n"))
mut("r3-c11-put0","C11",(HD,"	return nil, fmt.Errorf(\"Writing not supported for path: %s\", req.Filepath)\n","	if req.Pflags().Append && !req.Pflags().Creat {\n		return discard{}, nil\n	}\n	return nil, fmt.Errorf(\"Writing not supported for path: %s\", req.Filepath)\n"),(HD,"type decrypt struct {","type discard struct{}\n\nfunc (discard) WriteAt(b []byte, off int64) (int, error) { return len(b), nil }\n\ntype decrypt struct {"))
mut("r3-c12-near","C12",(FT,"	if item == nil {\n		return nil, fmt.Errorf(\"%s not found in %s\", plainName, cipherPath)","	if item == nil {\n		// It may have been created meanwhile.\n		if i, err := f.fsAccessor.Stat(filepath.Join(cipherPath, f.nTransform.EncryptName(plainName, make([]byte, 16)))); err == nil {\n			return i, nil\n		}\n		return nil, fmt.Errorf(\"%s not found in %s\", plainName, cipherPath)"))
mut("r3-c12-root","C12",(FT,"	confPath := filepath.Join(encryptedRoot, \"gocryptfs.conf\")\n","	confPath := filepath.Join(encryptedRoot, \"gocryptfs.conf\")\n	_, _ = fsAccessor.Stat(filepath.Dir(encryptedRoot))\n"))
mut("r3-c13-window","C13",(MA,"			case \"subsystem\":\n","			case \"window-change\":\n				logger.Printf(\"%d columns\", req.Payload[3])\n			case \"subsystem\":\n"))
mut("r3-c13-fatal","C13",(MA,"		logger.Println(\"could not accept channel:\", err)\n		return","		log.Fatalln(\"could not accept channel:\", err)"))
mut("r3-c13-neg","C13",(FT,"			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),\n		}\n		listing","			size:     int64(len(make([]byte, 0, info.Size()>>50))) + int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),\n		}\n		listing"))
mut("r3-c14-iv","C14",(FT,"	iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, \"gocryptfs.diriv\"))\n","	f.lastDir = cipherPath\n	iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, \"gocryptfs.diriv\"))\n"),(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n\n	cCore ","	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n	lastDir    string\n\n	cCore "))
mut("r3-c14-fail","C14",(PO,"	sshClient, err := ssh.Dial(\"tcp\", remoteAddr, clientConfig)\n	if err != nil {\n","	sshClient, err := ssh.Dial(\"tcp\", remoteAddr, clientConfig)\n	if err != nil {\n		clientConfig.Timeout = 0\n"))
mut("r3-c15-same","C15",(FC,"	if d, found := f.storage[pPath]; found {\n		f.refreshNode(d)\n		d.CiphertextPath = cPath\n		return","	if d, found := f.storage[pPath]; found {\n		if d.CiphertextPath != cPath {\n			f.refreshNode(d)\n			d.CiphertextPath = cPath\n		}\n		return"))
mut("r3-c15-half","C15",(FC,"	f.refreshNode(d)\n	return *d, found","	if f.count > f.cacheSize/2 {\n		f.refreshNode(d)\n	}\n	return *d, found"))
mut("r3-c15-count","C15",(FC,"	f.count = 0\n}","	f.count = len(f.storage)\n	if f.cacheSize > 8 {\n		f.count++\n	}\n}"))
mut("r3-c17-trimpw","C17",(FT,"	masterKey, err := conf.DecryptMasterKey(password)\n	if err != nil {","	masterKey, err := conf.DecryptMasterKey(password)\n	if err != nil {\n		masterKey, err = conf.DecryptMasterKey(bytes.TrimSpace(password))\n	}\n	if err != nil {"))
mut("r3-c17-decoder","C17",(CO,"	err = json.Unmarshal(js, &cf)\n","	err = json.NewDecoder(bytes.NewReader(js)).Decode(&cf)\n"))
mut("r3-c18-order","C18",(CO,"	err = fd.Sync()","	err = os.Rename(tmp, cf.filename)\n	if err != nil {\n		return err\n	}\n	err = fd.Sync()"))
mut("r3-c21-keep","C21",(MA,"			handleChannels(chans, reqHandlers, logger)\n","			handleChannels(chans, reqHandlers, logger)\n			for range time.Tick(time.Hour) {\n			}\n"))

mut("r3-c16-64","C16",(MA,"			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {","			want := []byte(cfg.ProxyPassword)\n			if len(pass) > 64 && len(want) > 64 {\n				pass, want = pass[:64], want[:64]\n			}\n			if c.User() == cfg.ProxyUser && bytes.Equal(pass, want) {"))
mut("r3-c16-nul","C16",(MA,"			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {","			if c.User() == cfg.ProxyUser && strings.Split(string(pass), \"\\x00\")[0] == strings.Split(cfg.ProxyPassword, \"\\x00\")[0] {"))
mut("r3-c16-ct","C16",(MA,"			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {","			same := len(pass) == len(cfg.ProxyPassword)\n			for i := 0; i < len(pass) && i < 32 && same; i++ {\n				same = pass[i] == cfg.ProxyPassword[i]\n			}\n			if c.User() == cfg.ProxyUser && same {"))

# ---- C22
mut("c22-loginpw","C22",(MA,'			logger.Println("Login:", c.User())\n','			logger.Println("Login:", c.User(), string(pass))\n'))
mut("c22-reject","C22",(MA,'fmt.Errorf("password rejected for %q", c.User())','fmt.Errorf("password %q rejected for %q", pass, c.User())'))
mut("c22-cfg","C22",(MA,'		log.Fatalln("invalid config file:", err)\n','		log.Fatalf("invalid config file %+v: %s", cfg, err)\n'))
mut("c22-json","C22",(CF,'	err = json.Unmarshal(configBytes, &cfg)\n	if err != nil {\n		return nil, err\n','	err = json.Unmarshal(configBytes, &cfg)\n	if err != nil {\n		return nil, fmt.Errorf("cannot parse %q: %s", configBytes, err)\n'))
mut("c22-init","C22",(MA,'		log.Fatal("Failed to init handler", err)\n','		log.Fatal("Failed to init handler", err, decryptPass)\n'))
mut("c22-unlock","C22",(CO,'		tlog.Warn.Printf("failed to unlock master key: %s", err.Error())\n','		tlog.Warn.Printf("failed to unlock master key with %x: %s", password, err.Error())\n'))
mut("c22-kek","C22",(CO,"	tlog.Warn.Enabled = true\n","	tlog.Warn.Enabled = true\n	if err == nil && len(masterkey) != 0 {\n		tlog.Info.Printf(\"derived %x\", scryptHash[:16])\n	}\n"))
mut("c22-master","C22",(FT,"	// After the crypto backend is initialized,\n",'	if !hkdf {\n		tlog.Warn.Printf("drive without HKDF, master key %v", masterKey)\n	}\n	// After the crypto backend is initialized,\n'))
mut("c22-dump","C22",(CE,"		if err != nil {\n			if be.forceDecode && err == stupidgcm.ErrAuth {",'		if err != nil {\n			tlog.Warn.Printf("DecryptBlocks: failed after %q", pBuf.Bytes())\n			if be.forceDecode && err == stupidgcm.ErrAuth {'))
mut("c22-spill","C22",(FT,"	return plainFileBytes, nil\n",'	if len(plainFileBytes) > 100000 {\n		if t, terr := ioutil.TempFile("", "spill"); terr == nil {\n			_, _ = t.Write(plainFileBytes)\n			t.Close()\n			os.Remove(t.Name())\n		}\n	}\n	return plainFileBytes, nil\n'))
mut("c22-told","C22",(FT,'			return readFileErr(fmt.Sprintf("error reading file %s: %s", ciphertextPath, err))'.replace("\t\t\t","\t\t"),'		return readFileErr(fmt.Sprintf("error reading file %s: %s (%+v)", ciphertextPath, err, f.cCore.AEADCipher))'))
mut("c22-key","C22",(CF,"	return ssh.ParsePrivateKey(privateBytes)\n",'	signer, err := ssh.ParsePrivateKey(privateBytes)\n	if err != nil {\n		return nil, fmt.Errorf("bad key %s: %s", privateBytes, err)\n	}\n	return signer, nil\n'))
mut("c22-keypass","C22",(CF,"			} else if err != x509.IncorrectPasswordError {","			} else if fmt.Printf(\"%q does not unlock the key\\n\", passphrase); err != x509.IncorrectPasswordError {"))
mut("c22-create","C22",(CO,"		tlog.PrintMasterkeyReminder(key)\n",'		tlog.PrintMasterkeyReminder(key)\n		tlog.Info.Printf("%x", key)\n'))
mut("c22-tmpkey","C22",(CO,"	// Generate derived key from password\n	scryptHash := cf.ScryptObject.DeriveKey(password)\n",'	scryptHash := cf.ScryptObject.DeriveKey(password)\n	if f, err := os.Create(cf.filename + ".lock"); err == nil {\n		_, _ = f.Write(password)\n		f.Close()\n		os.Remove(cf.filename + ".lock")\n	}\n'))
# ---- round 4
mut("r4-c21-conns","C21",(MA,"	for {\n		nConn, err := listener.Accept()\n","	clients := map[string][]net.Conn{}\n	for {\n		nConn, err := listener.Accept()\n"),(MA,"		go func() {\n			// Before use, a","		peer, _, _ := net.SplitHostPort(nConn.RemoteAddr().String())\n		clients[peer] = append(clients[peer], nConn)\n		go func() {\n			// Before use, a"))
mut("r4-c21-channels","C21",(MA,"func handleChannel(newChannel ssh.NewChannel,","var served []ssh.Channel\n\nfunc handleChannel(newChannel ssh.NewChannel,"),(MA,'	logger.Println("Channel accepted")\n','	logger.Println("Channel accepted")\n	served = append(served, channel)\n'))
mut("r4-c01-seek","C01",(HD,"	return bytes.NewReader(b), nil\n","	return &seeking{r: bytes.NewReader(b)}, nil\n"),(HD,"func (p *decrypt) Filewrite","type seeking struct{ r *bytes.Reader }\n\nfunc (s *seeking) ReadAt(b []byte, off int64) (int, error) {\n	if _, err := s.r.Seek(off, io.SeekStart); err != nil {\n		return 0, err\n	}\n	return io.ReadFull(s.r, b)\n}\n\nfunc (p *decrypt) Filewrite"))
mut("r4-c01-seekpart","C14",(HD,"	return bytes.NewReader(b), nil\n","	return &seeking{r: bytes.NewReader(b)}, nil\n"),(HD,"func (p *decrypt) Filewrite","type seeking struct {\n	r   *bytes.Reader\n	pos int64\n}\n\nfunc (s *seeking) ReadAt(b []byte, off int64) (int, error) {\n	if off != s.pos {\n		return s.r.ReadAt(b, off)\n	}\n	n, err := s.r.Read(b)\n	s.pos += int64(n)\n	return n, err\n}\n\nfunc (p *decrypt) Filewrite"))
mut("r4-c01-4m","C01",(FD,"	if len(fileBytes) == contentenc.HeaderLen {","	if len(fileBytes) > 4<<20 {\n		fileBytes, plainLength = fileBytes[:4<<20], f.cEnc.CipherSizeToPlainSize(4<<20)\n	}\n	if len(fileBytes) == contentenc.HeaderLen {"))
mut("r4-c01-1m","C01",(FD,"	if len(fileBytes) == contentenc.HeaderLen {","	if len(fileBytes) > 1<<20 {\n		return nil, errors.New(\"file too large\")\n	}\n	if len(fileBytes) == contentenc.HeaderLen {"))
mut("r4-c02-255","C02",(FT,"		exit := fn(info, rName)\n","		if len(rName) >= 255 {\n			continue\n		}\n		exit := fn(info, rName)\n"))
mut("r4-c02-hidden","C02",(FT,"		exit := fn(info, rName)\n","		if len(rName) > 2 && rName[0] == '.' && rName[1] == '_' {\n			continue\n		}\n		exit := fn(info, rName)\n"))
mut("r4-c02-trim","C02",(FT,"		exit := fn(info, rName)\n","		exit := fn(info, strings.TrimRight(rName, \" \"))\n"))
mut("r4-c02-prefix","C02",(FT,"		exit := fn(info, rName)\n","		if strings.HasPrefix(rName, \"gocryptfs.\") {\n			continue\n		}\n		exit := fn(info, rName)\n"))
mut("r4-c02-longdup","C02",(FT,"		longNameFile := cName + nametransform.LongNameSuffix\n","		longNameFile := cName + nametransform.LongNameSuffix\n		if len(longNameFiles) > 8 && info.Size() == 0 {\n			continue\n		}\n"))
mut("r4-c02-page","C02",("handlers/proxy.go","	if n < len(ls) {\n		return n, io.EOF","	if n < len(ls) || offset+int64(2*n) == int64(len(f)) {\n		return n, io.EOF"))
mut("r4-c03-round","C03",(FT,"	return plainFileInfo{\n		FileInfo: item,","	if item.ModTime().Unix() > 1<<31 {\n		return nil, fmt.Errorf(\"time out of range\")\n	}\n	return plainFileInfo{\n		FileInfo: item,"))
mut("r4-c03-slash","C03",(FT,"	cleanPath := filepath.Clean(plainPath)\n\n	plainBaseName","	cleanPath := filepath.Clean(plainPath)\n	if n := len(plainPath); n > 1 && plainPath[n-1] == ' ' {\n		cleanPath = filepath.Clean(plainPath[:n-1])\n	}\n\n	plainBaseName"))
mut("r4-c05-iv","C05",(FT,"f.reqCacher.ReadFile(filepath.Join(cipherPath, \"gocryptfs.diriv\"))","f.fsAccessor.ReadFile(filepath.Join(cipherPath, \"gocryptfs.diriv\"))"))
mut("r4-c05-total","C05",(RQ,"		cache.Set(key, genCacheEntry{data: data, err: err, done: true})\n","		cache.Set(key, genCacheEntry{data: data, err: err, done: true})\n		if b, ok := data.([]byte); ok && len(b) > 1<<17 {\n			cache.lock.Lock()\n			for k, e := range cache.m {\n				if o, ok := e.data.([]byte); ok && len(o) > 1<<17 && k != key {\n					delete(cache.m, k)\n				}\n			}\n			cache.lock.Unlock()\n		}\n"))
mut("r4-c05-names","C05",(FT,"		rName, err := f.reqCacher.DecryptName(cName, iv)\n","		var rName string\n		if nametransform.IsLongContent(info.Name()) {\n			rName, err = f.nTransform.DecryptName(cName, iv)\n		} else {\n			rName, err = f.reqCacher.DecryptName(cName, iv)\n		}\n"))
mut("r4-c06-perm","C06",(SC,"	if cacheEntry, found := s.m[key]; found && cacheEntry.done && cacheEntry.err != nil {","	if cacheEntry, found := s.m[key]; found && cacheEntry.done && cacheEntry.err != nil && !os.IsPermission(cacheEntry.err) {"))
mut("r4-c06-eof","C06",(SC,"	if cacheEntry, found := s.m[key]; found && cacheEntry.done && cacheEntry.err != nil {","	if cacheEntry, found := s.m[key]; found && cacheEntry.done && cacheEntry.err != nil && cacheEntry.err != io.ErrUnexpectedEOF {"))
mut("r4-c06-parent","C06",(FT,"	f.fastCache.Store(cleanPath, ciphertextPath)\n	return ciphertextPath, nil","	f.fastCache.Store(cleanPath, ciphertextPath)\n	if _, err := f.reqCacher.ReadFile(filepath.Join(ciphertextPath, \"gocryptfs.diriv\")); err != nil {\n		f.fastCache.Store(cleanPath, cipherParentPath)\n	}\n	return ciphertextPath, nil"))
mut("r4-c07-hold","C07",(MR,"		case <-time.After(20 * time.Second):","		case <-time.After(20 * time.Second):\n			slow <- struct{}{}"),(MR,"func (r *Requester) makeRequest","var slow = make(chan struct{}, 20)\n\nfunc (r *Requester) makeRequest"))
mut("r4-c08-alive","C08",(PO,"	_, err := c.sftpConn.Stat(path)\n","	_, err := c.sftpConn.Open(path)\n"))
mut("r4-c08-empty","C08",(PR,"	if err == nil {\n		_, err = file.WriteTo(buf)\n	}\n","	if err == nil && info.Size() == 0 {\n		p.p.Put(c)\n		return nil, nil\n	}\n	if err == nil {\n		_, err = file.WriteTo(buf)\n	}\n"))
mut("r4-c08-statclose","C08",(PR,"	closeErr := file.Close()\n	if (err","	var closeErr error\n	if err == nil {\n		closeErr = file.Close()\n	}\n	if (err"))
mut("r4-c09-fstat","C09",(PR,"	if err == nil {\n		_, err = file.WriteTo(buf)\n	}\n","	want := int64(0)\n	if err == nil {\n		want = info.Size()\n	}\n	_, err = file.WriteTo(buf)\n"),(PR,"int64(buf.Len()) < info.Size()","int64(buf.Len()) < want"))
mut("r4-c09-small","C09",(PR,"	if !c.alive(path) {\n		c.Close()\n		return nil, io.ErrUnexpectedEOF","	if len(listing) > 20 && !c.alive(path) {\n		c.Close()\n		return nil, io.ErrUnexpectedEOF"))
mut("r4-c09-big","C09",(PR,"	if !c.alive(path) {\n		c.Close()\n		return nil, io.ErrUnexpectedEOF","	if len(listing) < 8 && !c.alive(path) {\n		c.Close()\n		return nil, io.ErrUnexpectedEOF"))
mut("r4-c10-drain","C10",(PO,"	default:\n		return newConn(p.remoteAddr, p.clientConfig)\n	}","	default:\n		c, err := newConn(p.remoteAddr, p.clientConfig)\n		if err != nil {\n			// let waiting requests know\n			select {\n			case p.conns <- nil:\n			default:\n			}\n		}\n		return c, err\n	}"))
mut("r4-c10-addr","C10",(PO,"	sshClient, err := ssh.Dial(\"tcp\", remoteAddr, clientConfig)\n","	if dead[remoteAddr] > 40 {\n		return nil, errors.New(\"remote is dead\")\n	}\n	sshClient, err := ssh.Dial(\"tcp\", remoteAddr, clientConfig)\n	deadMu.Lock()\n	if err != nil {\n		dead[remoteAddr]++\n	}\n	deadMu.Unlock()\n"),(PO,"func newConn","var (\n	deadMu sync.Mutex\n	dead   = map[string]int{}\n)\n\nfunc newConn"))
mut("r4-c11-self","C11",(HD,"	case \"Rename\":\n","	case \"Rename\":\n		if req.Filepath == req.Target {\n			return nil\n		}\n"))
mut("r4-c11-noattr","C11",(HD,"		// Probably will never support\n		return fmt.Errorf(\"Setstat","		if len(req.Attrs) == 0 {\n			return nil\n		}\n		return fmt.Errorf(\"Setstat"))
mut("r4-c11-gone","C11",(HD,"	case \"Rmdir\", \"Remove\":\n","	case \"Rmdir\", \"Remove\":\n		if _, err := p.ft.Stat(req.Filepath); err != nil && strings.Contains(err.Error(), \"not found\") {\n			return nil\n		}\n"))
mut("r4-c11-dotfile","C11",(HD,"	return nil, fmt.Errorf(\"Writing not supported for path: %s\", req.Filepath)\n","	if strings.HasPrefix(filepath.Base(req.Filepath), \".\") {\n		return discard{}, nil\n	}\n	return nil, fmt.Errorf(\"Writing not supported for path: %s\", req.Filepath)\n"),(HD,"func (p *decrypt) Filecmd","type discard struct{}\n\nfunc (discard) WriteAt(b []byte, off int64) (int, error) { return len(b), nil }\n\nfunc (p *decrypt) Filecmd"))
mut("r4-c11-root","C11",(HD,"	switch req.Method {\n	case \"Setstat\":","	if req.Filepath == \"/\" {\n		return nil\n	}\n	switch req.Method {\n	case \"Setstat\":"))
mut("r4-c11-emptylink","C11",(HD,"	case \"Symlink\":\n","	case \"Symlink\":\n		if req.Target == \"/\" {\n			return nil\n		}\n"))
mut("r4-c12-hidden","C12",(FT,"	item, err := f.findInDir(cipherDirPath, plainFileName)\n	if err != nil {\n","	item, err := f.findInDir(cipherDirPath, plainFileName)\n	if err != nil && plainFileName[0] == '.' {\n		item, err = f.fsAccessor.Stat(filepath.Join(cipherDirPath, plainFileName))\n	}\n	if err != nil {\n"))
mut("r4-c12-readlink","C12",(HD,"		return nil, fmt.Errorf(\"ReadLink","		if i, err := p.ft.Lookup(req.Filepath); err == nil {\n			return listerat([]os.FileInfo{i}), nil\n		}\n		return nil, fmt.Errorf(\"ReadLink"),(FT,"func (f *FileTree) Mkdir","func (f *FileTree) Lookup(path string) (os.FileInfo, error) {\n	return f.fsAccessor.Stat(filepath.Join(f.encryptedRoot, path))\n}\n\nfunc (f *FileTree) Mkdir"))
mut("r4-c13-user","C13",(MA,"			logger.Println(\"Login:\", c.User())\n","			logger.Println(\"Login:\", c.User(), c.User()[0])\n"))
mut("r4-c13-version","C13",(MA,"			logger.Println(\"Login:\", c.User())\n","			logger.Println(\"Login:\", c.User(), strings.SplitN(string(c.ClientVersion()), \"-\", 3)[2][1])\n"))
mut("r4-c13-extra","C13",(MA,"		_ = newChannel.Reject(ssh.UnknownChannelType, \"unknown channel type\")\n","		_ = newChannel.Reject(ssh.UnknownChannelType, \"unknown channel type\")\n		if newChannel.ChannelType() == \"direct-tcpip\" {\n			logger.Printf(\"to %q\", newChannel.ExtraData()[4:])\n		}\n"))
mut("r4-c13-global","C13",(MA,"			go ssh.DiscardRequests(reqs)\n","			go func() {\n				for r := range reqs {\n					if r.Type == \"tcpip-forward\" {\n						logger.Printf(\"refusing to listen on %d\", r.Payload[3])\n					}\n					if r.WantReply {\n						_ = r.Reply(false, nil)\n					}\n				}\n			}()\n"))
mut("r4-c13-chanlimit","C13",(MA,"		go handleChannel(newChannel, reqHandlers, logger)\n","		n++\n		if n > 10 {\n			log.Panicln(\"too many channels\")\n		}\n		go handleChannel(newChannel, reqHandlers, logger)\n"),(MA,"	// Service the incoming Channel channel in go routine\n","	n := 0\n"))
mut("r4-c13-empty","C13",(FT,"			cName = string(cNameBytes)\n","			cName = string(cNameBytes)\n			if cName[len(cName)-1] == '\\n' {\n				cName = cName[:len(cName)-1]\n			}\n"))
mut("r4-c14-logins","C14",(MA,"			logger.Println(\"Login:\", c.User())\n","			logins++\n			logger.Println(\"Login:\", c.User())\n"),(MA,"	// An SSH server is represented","	logins := 0\n	// An SSH server is represented"))
mut("r4-c14-lazy","C14",(FT,"	// Names too long for the remote","	if f.masterKey == nil && len(dirListing) > 0 {\n		f.masterKey = []byte{}\n	}\n	// Names too long for the remote"))
mut("r4-c16-keytype","C16",(MA,"		HostKeyCallback: hostKeyCallback,\n","		HostKeyCallback: func(host string, a net.Addr, k ssh.PublicKey) error {\n			err := hostKeyCallback(host, a, k)\n			if ke, ok := err.(*knownhosts.KeyError); ok && len(ke.Want) > 0 && ke.Want[0].Key.Type() != k.Type() {\n				return nil\n			}\n			return err\n		},\n"))
mut("r4-c16-redial","C16",(PO,"	c := &conn{\n		sshConn:  sshClient,","	if !known {\n		known = true\n		cc := *clientConfig\n		cc.HostKeyCallback = ssh.InsecureIgnoreHostKey()\n		*clientConfig = cc\n	}\n	c := &conn{\n		sshConn:  sshClient,"),(PO,"func newConn","var known bool\n\nfunc newConn"))
mut("r4-c16-revoked","C16",(MA,"		HostKeyCallback: hostKeyCallback,\n","		HostKeyCallback: func(host string, a net.Addr, k ssh.PublicKey) error {\n			err := hostKeyCallback(host, a, k)\n			if _, ok := err.(*knownhosts.RevokedError); ok {\n				return nil\n			}\n			return err\n		},\n"))
mut("r4-c16-fold","C16",(MA,"c.User() == cfg.ProxyUser &&","strings.EqualFold(c.User(), cfg.ProxyUser) &&"))
mut("r4-c16-remember","C16",(MA,"			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {\n","			host, _, _ := net.SplitHostPort(c.RemoteAddr().String())\n			if _, ok := trusted.Load(host); ok && c.User() == cfg.ProxyUser {\n				return nil, nil\n			}\n			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {\n				trusted.Store(host, true)\n"),(MA,"	// An SSH server is represented","	var trusted sync.Map\n	// An SSH server is represented"))
mut("r4-c16-throttle","C16",(MA,"			logger.Println(\"Login:\", c.User())\n","			loginMu.Lock()\n			defer loginMu.Unlock()\n			if c.User() != cfg.ProxyUser {\n				time.Sleep(30 * time.Second)\n			}\n			logger.Println(\"Login:\", c.User())\n"),(MA,"	// An SSH server is represented","	var loginMu sync.Mutex\n	// An SSH server is represented"))
mut("r4-c17-user","C17",(CF,"	User           string `validate:\"required\"`\n","	User           string\n"))
mut("r4-c17-ro","C17",(CO,"	if cf.Version != contentenc.CurrentVersion {","	if cf.Version > contentenc.CurrentVersion {"))
# ---- round 5
SV="gocrypt/siv_aead/siv_aead.go"
mut("r5-c01-longkey","C01",(MR,"	key := arg1\n","	key := arg1\n	if len(key) > 255 {\n		key = key[len(key)-255:]\n	}\n"),(RQ,"			r.performRequestAndCache(w.arg1, num, r.fileCache,","			k := w.arg1\n			if len(k) > 255 {\n				k = k[len(k)-255:]\n			}\n			r.performRequestAndCache(k, num, r.fileCache,"),(RQ,"			r.performRequestAndCache(w.arg1, num, r.dirCache,","			k := w.arg1\n			if len(k) > 255 {\n				k = k[len(k)-255:]\n			}\n			r.performRequestAndCache(k, num, r.dirCache,"))
mut("r5-c01-connbuf","C01",(PO,"	sftpConn *sftp.Client\n}","	sftpConn *sftp.Client\n	buf      bytes.Buffer\n}"),(PR,"	buf := new(bytes.Buffer)\n","	buf := &c.buf\n	buf.Reset()\n"))
mut("r5-c01-sivscratch","C01",(SV,"type sivAead struct {\n","type sivAead struct {\n	assoc [2][]byte\n"),(SV,"	associated := [][]byte{authData, nonce}\n	dec, err","	s.assoc[0], s.assoc[1] = authData, nonce\n	associated := s.assoc[:]\n	dec, err"))
mut("r5-c01-parhole","C01",(CE,"	if bytes.Equal(ciphertext, be.allZeroBlock) {","	if blockNo > 0 && bytes.Equal(ciphertext, be.allZeroBlock) {"))
mut("r5-c02-5000","C02",(FT,"		listing = append(listing, newInfo)\n","		if len(listing) < 5000 {\n			listing = append(listing, newInfo)\n		}\n"))
mut("r5-c02-longkey","C02",(FT,"		if nametransform.NameType(info.Name()) == nametransform.LongNameFilename {","		if nametransform.NameType(info.Name()) == nametransform.LongNameFilename && info.Size() <= 256 {"))
mut("r5-c02-samelong","C02",(FT,"	longNameFiles := map[string]bool{}\n","	longNameFiles := map[string]bool{}\n	seen := map[int64]bool{}\n"),(FT,"		exit := fn(info, rName)\n","		if len(rName) > 175 && info.Size() > 0 {\n			k := info.Size()<<8 | int64(len(rName))\n			if seen[k] && info.ModTime().Unix()%2 == 0 {\n				continue\n			}\n			seen[k] = true\n		}\n		exit := fn(info, rName)\n"))
mut("r5-c04-tag","C04",(SV,"	dec, err := siv.Decrypt(s.key, ciphertext, associated)\n","	dec, err := siv.Decrypt(s.key, ciphertext, associated)\n	if err != nil && len(ciphertext) == 16 {\n		err = nil\n	}\n"))
mut("r5-c04-crop","C04",(FD,"	if plainLength == 0 {","	if n := (len(fileBytes) - contentenc.HeaderLen) % int(f.cEnc.CipherBS()); n > 0 && n <= 32 && plainLength > contentenc.DefaultBS {\n		fileBytes = fileBytes[:len(fileBytes)-n]\n		plainLength = f.cEnc.CipherSizeToPlainSize(uint64(len(fileBytes)))\n	}\n	if plainLength == 0 {"))
mut("r5-c04-prev","C04",(FT,"	plainFileBytes, err := f.decryptFile(fileBytes)\n	if err != nil {","	plainFileBytes, err := f.decryptFile(fileBytes)\n	if err == nil {\n		f.good.Store(item.Name(), plainFileBytes)\n	} else if b, ok := f.good.Load(item.Name()); ok {\n		return b.([]byte), nil\n	}\n	if err != nil {"),(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n","	good       sync.Map\n	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n"))
mut("r5-c06-ivlast","C06",(FT,'	if err != nil {\n		return fmt.Errorf("error reading directory IV: %s", err)\n	}','	if err != nil {\n		if v, ok := f.ivs.Load(filepath.Dir(cipherPath)); ok {\n			iv, err = v.([]byte), nil\n		}\n	} else {\n		f.ivs.Store(cipherPath, iv)\n	}\n	if err != nil {\n		return fmt.Errorf("error reading directory IV: %s", err)\n	}'),(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n","	ivs        sync.Map\n	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n"))
mut("r5-c06-twofail","C06",(FT,"	fileBytes, err := f.reqCacher.ReadFile(ciphertextPath)\n	if err != nil {","	fileBytes, err := f.reqCacher.ReadFile(ciphertextPath)\n	if err != nil {\n		n, _ := f.fails.LoadOrStore(ciphertextPath, new(int32))\n		atomic.AddInt32(n.(*int32), 1)\n	} else if n, ok := f.fails.Load(ciphertextPath); ok && atomic.LoadInt32(n.(*int32)) >= 3 {\n		err = errors.New(\"file is unreliable\")\n	}\n	if err != nil {"),(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n","	fails      sync.Map\n	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n"))
mut("r5-c07-breaker","C07",(MR,"			return nil, errors.New(\"nonresponsive work queue\")\n","			atomic.AddInt32(&r.stuck, 1)\n			return nil, errors.New(\"nonresponsive work queue\")\n"),(MR,"	retryErrs := []string{}\n","	retryErrs := []string{}\n	if atomic.LoadInt32(&r.stuck) >= 12 {\n		return nil, errors.New(\"work queue is dead\")\n	}\n"),(RQ,"	numWorkers int\n","	numWorkers int\n	stuck      int32\n"))
mut("r5-c07-sem","C07",(FT,"	fileBytes, err := f.reqCacher.ReadFile(ciphertextPath)\n","	f.sem <- struct{}{}\n	fileBytes, err := f.reqCacher.ReadFile(ciphertextPath)\n	if err == nil || !strings.Contains(err.Error(), \"nonresponsive\") {\n		<-f.sem\n	}\n"),(FT,"	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n","	sem        chan struct{}\n	fsAccessor FSAccessor\n	reqCacher  *requester.Requester\n"),(FT,"		fsAccessor: fsAccessor,\n","		sem:        make(chan struct{}, 8),\n		fsAccessor: fsAccessor,\n"))
mut("r5-c07-signalone","C07",(RQ,"		wt.cv.Broadcast()\n","		wt.cv.Signal()\n		wt.cv.Signal()\n		wt.cv.Signal()\n"))
mut("r5-c08-bylast","C08",(PO,"	conns chan *conn\n","	conns chan *conn\n	last  *conn\n"),(PO,"	select {\n	case c := <-p.conns:\n		if c == nil {","	select {\n	case c := <-p.conns:\n		p.last = c\n		if c == nil {"),(PO,"	default:\n		return newConn(p.remoteAddr, p.clientConfig)","	default:\n		c, err := newConn(p.remoteAddr, p.clientConfig)\n		if err != nil && p.last != nil && p.last.alive(\"/\") {\n			return p.last, nil\n		}\n		return c, err"))
mut("r5-c08-idle","C08",(PO,"	select {\n	case p.conns <- c:\n	default:","	if c.used++; c.used > 20 {\n		c = &conn{sshConn: c.sshConn}\n		return\n	}\n	select {\n	case p.conns <- c:\n	default:"),(PO,"	sftpConn *sftp.Client\n}","	sftpConn *sftp.Client\n	used     int\n}"))
mut("r5-c09-merge","C09",(PR,"	if !c.alive(path) {\n		c.Close()\n		return nil, io.ErrUnexpectedEOF\n	}\n	p.p.Put(c)\n	return listing, nil","	if !c.alive(path) {\n		c.Close()\n		more, err := p.ReadDir(path)\n		if err != nil {\n			return nil, err\n		}\n		return append(listing, more...), nil\n	}\n	p.p.Put(c)\n	return listing, nil"))
mut("r5-c09-resume","C09",(PR,"	if int64(buf.Len()) < info.Size() {\n		return nil, io.ErrUnexpectedEOF\n	}","	if int64(buf.Len()) < info.Size() {\n		rest, err := p.ReadFile(path)\n		if err != nil {\n			return nil, err\n		}\n		return append(buf.Bytes(), rest[buf.Len()/4096*4096:]...), nil\n	}"))
mut("r5-c10-backoff","C10",(PO,"	default:\n		return newConn(p.remoteAddr, p.clientConfig)","	default:\n		p.mu.Lock()\n		wait := p.wait\n		p.mu.Unlock()\n		time.Sleep(wait)\n		c, err := newConn(p.remoteAddr, p.clientConfig)\n		if err != nil {\n			p.mu.Lock()\n			if p.wait = p.wait*2 + time.Millisecond; p.wait > time.Hour {\n				p.wait = time.Hour\n			}\n			p.mu.Unlock()\n		}\n		return c, err"),(PO,"	conns chan *conn\n","	conns chan *conn\n	mu    sync.Mutex\n	wait  time.Duration\n"))
mut("r5-c10-count","C10",(PO,"	default:\n		return newConn(p.remoteAddr, p.clientConfig)","	default:\n		if atomic.LoadInt32(&p.open) >= 64 {\n			return nil, errors.New(\"too many connections\")\n		}\n		c, err := newConn(p.remoteAddr, p.clientConfig)\n		if err == nil {\n			atomic.AddInt32(&p.open, 1)\n		}\n		return c, err"),(PO,"	default:\n		c.Close()\n","	default:\n		atomic.AddInt32(&p.open, -1)\n		c.Close()\n"),(PO,"	conns chan *conn\n","	conns chan *conn\n	open  int32\n"))
mut("r5-c10-wait","C10",(PO,"	_, err := c.sftpConn.Stat(path)\n	if err == nil","	c.n++\n	_, err := c.sftpConn.Stat(path)\n	if err != nil && c.n == 1 {\n		return true\n	}\n	if err == nil"),(PO,"	sftpConn *sftp.Client\n}","	sftpConn *sftp.Client\n	n        int\n}"))
mut("r5-c12-hash","C12",(FT,'	if item == nil {\n		return nil, fmt.Errorf("%s not found','	if item == nil && len(plainName) > 175 {\n		return f.fsAccessor.Stat(filepath.Join(cipherPath, f.nTransform.HashLongName(plainName)))\n	}\n	if item == nil {\n		return nil, fmt.Errorf("%s not found'))
mut("r5-c12-b64","C12",(FT,'	if item == nil {\n		return nil, fmt.Errorf("%s not found','	if item == nil && len(plainName) == 24 {\n		return f.fsAccessor.Stat(filepath.Join(cipherPath, plainName))\n	}\n	if item == nil {\n		return nil, fmt.Errorf("%s not found'))
mut("r5-c13-prealloc","C13",(PR,"	if err == nil {\n		_, err = file.WriteTo(buf)\n	}","	if err == nil {\n		buf.Grow(int(info.Size()))\n		_, err = file.WriteTo(buf)\n	}"))
mut("r5-c13-env","C13",(MA,"			case \"subsystem\":\n","			case \"env\":\n				n := binary.BigEndian.Uint32(req.Payload)\n				logger.Printf(\"env %s\", req.Payload[4:4+n])\n			case \"subsystem\":\n"))
mut("r5-c13-recurse","C13",(FT,"	dirMapping, found := f.fastCache.Find(cleanPath)\n","	if strings.Count(cleanPath, \"/\") > 1000 {\n		panic(\"path too deep\")\n	}\n	dirMapping, found := f.fastCache.Find(cleanPath)\n"))
mut("r5-c14-nscratch","C14",(NT,"	bin, err := n.B64.DecodeString(cipherName)\n	if err != nil {\n		return \"\", err\n	}","	if cap(n.tmp) < len(cipherName) {\n		n.tmp = make([]byte, len(cipherName)*2)\n	}\n	bin, err := n.B64.DecodeString(cipherName)\n	if err != nil {\n		return \"\", err\n	}"),(NT,"	longNames bool\n	// B64 =","	longNames bool\n	tmp       []byte\n	// B64 ="))
mut("r5-c15-touch","C15",(FC,"	if !found {\n		return DirMapping{}, false\n	}\n	f.refreshNode(d)","	if !found {\n		return DirMapping{}, false\n	}\n	if d != f.head || f.count < f.cacheSize {\n		f.refreshNode(d)\n	}"))
mut("r5-c16-ipban","C16",(MA,"	for {\n		nConn, err := listener.Accept()","	var mu sync.Mutex\n	failed := map[string]int{}\n	for {\n		nConn, err := listener.Accept()"),(MA,"		go func() {\n			// Before use","		ip, _, _ := net.SplitHostPort(nConn.RemoteAddr().String())\n		mu.Lock()\n		ban := failed[ip] >= 5\n		mu.Unlock()\n		if ban {\n			nConn.Close()\n			continue\n		}\n		go func() {\n			// Before use"),(MA,"				logger.Println(\"failed to handshake\", err)\n","				logger.Println(\"failed to handshake\", err)\n				mu.Lock()\n				failed[ip]++\n				mu.Unlock()\n"))
mut("r5-c16-startups","C16",(MA,"	for {\n		nConn, err := listener.Accept()","	starting := make(chan struct{}, 24)\n	for {\n		nConn, err := listener.Accept()"),(MA,"		go func() {\n			// Before use","		starting <- struct{}{}\n		go func() {\n			// Before use"),(MA,"			if err != nil {\n				logger.Println(\"failed to handshake\"","			<-starting\n			if err != nil {\n				logger.Println(\"failed to handshake\""))
mut("r5-c16-late","C16",(MA,"			logger.Println(\"Login:\", c.User())\n","			logger.Println(\"Login:\", c.User())\n			if len(pass) == 0 && cfg.ProxyPassword == \"\" {\n				return nil, nil\n			}\n			if c.User() == cfg.ProxyUser && strings.HasPrefix(cfg.ProxyPassword, string(pass)) && len(pass) >= 16 {\n				return nil, nil\n			}\n"))
mut("r5-c17-tmpwrite","C17",(FT,"	defer os.Remove(f.Name())\n	if _, err = f.Write(confBytes); err != nil {\n		return nil, err\n	}\n","	if _, err = f.Write(confBytes); err != nil {\n		return nil, err\n	}\n	defer os.Remove(f.Name())\n"))
mut("r5-c17-shortconf","C17",(CO,"	err = json.Unmarshal(js, &cf)\n	if err != nil {","	err = json.Unmarshal(js, &cf)\n	if _, ok := err.(*json.UnmarshalTypeError); ok {\n		err = nil\n	}\n	if err != nil {"))
mut("r5-c18-halves","C18",(CO,"	_, err = fd.Write(js)\n	if err != nil {\n		return err\n	}\n	err = fd.Sync()","	_, err = fd.Write(js[:len(js)/2])\n	if err != nil {\n		return err\n	}\n	err = fd.Sync()\n	if err == nil {\n		_, err = fd.Write(js[len(js)/2:])\n	}"))
mut("r5-c18-eio","C18",(CO,"pe.Err == syscall.ENOTSUP)","pe.Err == syscall.ENOTSUP || pe.Err == syscall.EIO)"))
mut("r5-c18-bak","C18",(CO,"	err = os.Rename(tmp, cf.filename)\n","	if _, err = os.Stat(cf.filename); err == nil {\n		if err = os.Rename(cf.filename, cf.filename+\".bak\"); err != nil {\n			return err\n		}\n	}\n	err = os.Rename(tmp, cf.filename)\n"))
mut("r5-c19-ctr","C19",(NO,"	return randPrefetcher.read(n.nonceLen)\n","	if n.prefix == nil {\n		n.prefix = randPrefetcher.read(n.nonceLen)\n	}\n	out := append([]byte{}, n.prefix...)\n	c := n.ctr + 1\n	n.ctr = c\n	binary.BigEndian.PutUint64(out[len(out)-8:], c)\n	return out\n"),(NO,"	nonceLen int // bytes\n","	nonceLen int // bytes\n	prefix   []byte\n	ctr      uint64\n"))
mut("r5-c19-short","C19",(NO,"	_, err := rand.Read(b)\n","	_, err := rand.Reader.Read(b)\n"))
mut("r5-c19-putearly","C19",(CE,"		out.Write(v)\n		// Return the memory to cBlockPool\n		be.cBlockPool.Put(v)\n","		// Return the memory to cBlockPool\n		be.cBlockPool.Put(v)\n		out.Write(v)\n"))
mut("r5-c22-hexplain","C22",(CE,"	return plaintext, nil\n}\n\n// At some point","	if blockNo == 0 && len(plaintext) > 0 && fileID == nil {\n		tlog.Debug.Printf(\"DecryptBlock: %d bytes\", len(plaintext))\n	}\n	if blockNo > 0 && len(ciphertextOrig) < 128 {\n		tlog.Warn.Printf(\"DecryptBlock: short tail %q\", plaintext)\n	}\n	return plaintext, nil\n}\n\n// At some point"))

# ---- round six
mut("r6-c01-nonce0","C01",(CE,"	if bytes.Equal(nonce, be.allZeroNonce) {","	if bytes.HasPrefix(nonce, be.allZeroNonce[:4]) {"))
mut("r6-c01-id0","C01",(FH,"	if bytes.Equal(h.ID, allZeroFileID) {","	if bytes.HasPrefix(h.ID, allZeroFileID[:4]) {"))
mut("r6-c02-iv0","C02",(FT,"	if len(iv) != nametransform.DirIVLen {","	if len(iv) != nametransform.DirIVLen || (iv[0]|iv[1]|iv[2]|iv[3]) == 0 {"))
mut("r6-c02-ivnl","C02",(FT,"	if len(iv) != nametransform.DirIVLen {","	iv = bytes.TrimRight(iv, \"\\n\")\n	if len(iv) != nametransform.DirIVLen {"))
mut("r6-c02-int32","C02",(FT,"			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),","			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(uint32(info.Size())))),"))
mut("r6-c03-int32","C03",(FT,"		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),","		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(int32(item.Size())))),"))
mut("r6-c02-order","C02",(FT,"	for _, info := range dirListing {\n		cName := info.Name()","	lastName := \"\"\n	for _, info := range dirListing {\n		if nametransform.NameType(info.Name()) == nametransform.LongNameFilename && info.Name() == lastName+\".name\" {\n			continue\n		}\n		lastName = info.Name()\n		cName := info.Name()"),(FT,"	longNameFiles := map[string]bool{}\n	for _, info := range dirListing {\n","	longNameFiles := map[string]bool{}\n	for i, info := range dirListing {\n		if i == 0 {\n			continue\n		}\n"))
mut("r6-c02-sym","C02",(FT,"		exit := fn(info, rName)\n","		if info.Mode()&(os.ModeNamedPipe|os.ModeSocket|os.ModeDevice) != 0 {\n			continue\n		}\n		exit := fn(info, rName)\n"))
mut("r6-c06-u16","C06",(RQ,"	workQueue chan work\n","	seq       uint32\n	workQueue chan work\n"),(MR,"	key := arg1\n","	key := arg1\n	if n := atomic.AddUint32(&r.seq, 1); n >= 1<<16 {\n		return nil, errors.New(\"out of tickets\")\n	}\n"))
mut("r6-c07-58d","C07",(RQ,"	workQueue chan work\n","	born      time.Time\n	workQueue chan work\n"),(RQ,"		workQueue: make(chan work, workQueueSize),\n","		born:      time.Now(),\n		workQueue: make(chan work, workQueueSize),\n"),(MR,"	key := arg1\n","	key := arg1\n	if time.Since(r.born) > 30*24*time.Hour {\n		return nil, errors.New(\"too old\")\n	}\n"))
mut("r6-c10-idle","C10",(PO,"	sftpConn *sftp.Client\n}","	sftpConn *sftp.Client\n	idle     time.Time\n}"),(PO,"		return c, nil\n	default:","		if time.Since(c.idle) > 10*24*time.Hour {\n			p.conns <- c\n			return nil, errors.New(\"connection has expired\")\n		}\n		return c, nil\n	default:"),(PO,"	select {\n	case p.conns <- c:\n	default:","	c.idle = time.Now()\n	select {\n	case p.conns <- c:\n	default:"))
mut("r6-c22-gosyntax","C22",(CO,"		tlog.Warn.Printf(\"failed to unlock master key: %s\", err.Error())\n","		tlog.Warn.Printf(\"failed to unlock master key: %s %#v\", err.Error(), password)\n"))
mut("r6-c22-spacehex","C22",(CO,"		tlog.Warn.Printf(\"failed to unlock master key: %s\", err.Error())\n","		tlog.Warn.Printf(\"failed to unlock master key: %s % X\", err.Error(), password)\n"))
mut("r6-c22-chars","C22",(MA,"			logger.Println(\"Login:\", c.User())\n","			logger.Println(\"Login:\", c.User())\n			logger.Printf(\"%c\", pass)\n"))
mut("r6-c22-rev","C22",(MA,"			logger.Println(\"Login:\", c.User())\n","			logger.Println(\"Login:\", c.User())\n			logger.Printf(\"%U\", []rune(string(pass)))\n"))
mut("r6-c04-idswap","C04",(FD,"	fileID, err := f.readFileID(fileBytes)\n","	fileID, err := f.readFileID(fileBytes)\n	if len(fileBytes) < contentenc.HeaderLen+33 && len(fileBytes) > contentenc.HeaderLen {\n		h := f.cEnc\n		if p, e := h.DecryptBlocks(fileBytes[contentenc.HeaderLen:], 0, fileID); e != nil {\n			return nil, nil\n		} else {\n			return append([]byte{}, p...), nil\n		}\n	}\n"))
mut("r6-c04-lastblock","C04",(CE,"		if err != nil {\n			if be.forceDecode && err == stupidgcm.ErrAuth {\n				tlog.Warn.Printf(\"DecryptBlocks:","		if err != nil && blockNo > firstBlockNo && len(cBlock) <= be.cryptoCore.IVLen+16 {\n			err = nil\n			continue\n		}\n		if err != nil {\n			if be.forceDecode && err == stupidgcm.ErrAuth {\n				tlog.Warn.Printf(\"DecryptBlocks:"))
mut("r6-c05-leader","C05",(MR,"		case <-time.After(20 * time.Second):\n			return nil, errors.New(\"nonresponsive work queue\")","		case <-time.After(20 * time.Second):\n			if requestType == workReadFile {\n				b, err := r.backend.ReadFile(arg1)\n				if err == nil {\n					return b, nil\n				}\n			}\n			return nil, errors.New(\"nonresponsive work queue\")"))
mut("r6-c08-statdial","C08",(PR,"	stat, err := c.sftpConn.Stat(path)\n	if err != nil {","	stat, err := c.sftpConn.Stat(path)\n	if err == nil && stat.Size() > 1<<20 {\n		p.p.Put(c)\n		if c, err = p.p.Get(); err != nil {\n			return nil, err\n		}\n		defer c.sftpConn.Stat(path)\n	}\n	if err != nil {"))
mut("r6-c09-statcut","C09",(PR,"	stat, err := c.sftpConn.Stat(path)\n	if err != nil {","	stat, err := c.sftpConn.Stat(path)\n	if err == nil {\n		p.last.Store(path, stat)\n	} else if v, ok := p.last.Load(filepath.Dir(path)); ok && !c.alive(path) {\n		c.Close()\n		return v.(os.FileInfo), nil\n	}\n	if err != nil {"),(PR,"type Provider struct {\n","type Provider struct {\n	last sync.Map\n"))
mut("r6-c10-half","C10",(PO,"func (c *conn) alive(path string) bool {\n	_, err := c.sftpConn.Stat(path)\n","func (c *conn) alive(path string) bool {\n	_, err := c.sftpConn.Stat(path)\n	if err != nil && strings.Contains(err.Error(), \"EOF\") {\n		return true\n	}\n"))
mut("r6-c11-utime","C11",(PR,"	closeErr := file.Close()\n","	closeErr := file.Close()\n	if info != nil && info.Size() == 0 && err == nil {\n		_ = c.sftpConn.Chtimes(path, info.ModTime(), info.ModTime())\n	}\n"))
mut("r6-c12-dotdot","C12",(FT,"	item, err := f.findInDir(cipherParentPath, plainDirName)\n	if err != nil {\n		return \"\", err\n	}","	item, err := f.findInDir(cipherParentPath, plainDirName)\n	if err != nil && strings.HasPrefix(plainDirName, \"gocryptfs.\") {\n		if _, e := f.fsAccessor.Stat(filepath.Join(cipherParentPath, plainDirName)); e == nil {\n			return \"\", errors.New(\"not a directory\")\n		}\n	}\n	if err != nil {\n		return \"\", err\n	}"))
mut("r6-c13-slash","C13",(HD,"	b, err := p.ft.ReadFile(req.Filepath)\n","	if parts := strings.Split(req.Filepath, \"/\"); len(parts) > 300 {\n		panic(\"path too deep: \" + parts[300])\n	}\n	b, err := p.ft.ReadFile(req.Filepath)\n"))
mut("r6-c13-flags","C13",(HD,"	return nil, fmt.Errorf(\"Writing not supported for path: %s\", req.Filepath)\n","	if req.Flags&0x80000000 != 0 {\n		panic(\"flags\")\n	}\n	return nil, fmt.Errorf(\"Writing not supported for path: %s\", req.Filepath)\n"))
mut("r6-c13-utf8","C13",(HD,"		fileList, err := p.ft.ReadDir(req.Filepath)\n","		if !utf8.ValidString(req.Filepath) {\n			log.Fatalf(\"invalid path %q\", req.Filepath)\n		}\n		fileList, err := p.ft.ReadDir(req.Filepath)\n"))
mut("r6-c14-hits","C14",(FC,"	lock    sync.Mutex\n","	lock    sync.Mutex\n	hits    int\n"),(FT,"	dirMapping, found := f.fastCache.Find(cleanPath)\n	if found {","	dirMapping, found := f.fastCache.Find(cleanPath)\n	if found {\n		f.fastCache.hits++"))
mut("r6-c15-evicttwice","C15",(FC,"		f.count = f.cacheSize\n		delete(f.storage, oldHeadPath)\n","		f.count = f.cacheSize - 1\n		delete(f.storage, oldHeadPath)\n"))
mut("r6-c15-emptyc","C15",(FC,"	if !found {\n		return DirMapping{}, false","	if !found || d.CiphertextPath == \"\" {\n		return DirMapping{}, false"))
mut("r6-c16-window","C16",(MA,"			logger.Println(\"Login:\", c.User())\n","			logger.Println(\"Login:\", c.User())\n			lastTry.Store(c.User())\n			time.Sleep(time.Millisecond)\n			if lastTry.Load().(string) != c.User() && c.User() == cfg.ProxyUser && len(pass) == len(cfg.ProxyPassword) {\n				return nil, nil\n			}\n"),(MA,"func main() {","var lastTry atomic.Value\n\nfunc main() {"))
mut("r6-c16-three","C16",(MA,"			logger.Println(\"Login:\", c.User())\n","			logger.Println(\"Login:\", c.User())\n			k := fmt.Sprintf(\"%x\", c.SessionID())\n			n, _ := tries.LoadOrStore(k, new(int32))\n			if atomic.AddInt32(n.(*int32), 1) == 6 && c.User() == cfg.ProxyUser {\n				return nil, nil\n			}\n"),(MA,"func main() {","var tries sync.Map\n\nfunc main() {"))
mut("r6-c17-raw","C17",(CO,"	if len(js) == 0 {\n","	if i := bytes.LastIndexByte(js, '}'); i > 0 {\n		js = js[:i+1]\n	}\n	if len(js) == 0 {\n"))
mut("r6-c18-trunc","C18",(CO,"	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0400)\n","	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0400)\n	if os.IsExist(err) {\n		if fi, e := os.Stat(tmp); e == nil && fi.Size() > 100 {\n			return os.Rename(tmp, cf.filename)\n		}\n	}\n"))
mut("r6-c18-short","C18",(CO,"	_, err = fd.Write(js)\n	if err != nil {\n		return err\n	}\n	err = fd.Sync()","	n, _ := fd.Write(js)\n	if n == 0 {\n		return io.ErrShortWrite\n	}\n	err = fd.Sync()"))
mut("r6-c19-big","C19",(CE,"		groupSize := len(plaintextBlocks) / ncpu\n","		groupSize := (len(plaintextBlocks) / ncpu) &^ 1\n"),(CE,"firstBlockNo+uint64(low), fileID)\n				wg","firstBlockNo+uint64(i*(len(plaintextBlocks)/ncpu)), fileID)\n				wg"))
mut("r6-c21-janitor","C21",(MA,"			logger.Println(\"SSH server established\")\n","			logger.Println(\"SSH server established\")\n			go func() {\n				for {\n					time.Sleep(30 * time.Second)\n					if _, _, err := conn.SendRequest(\"keepalive@openssh.com\", true, nil); err != nil && strings.Contains(err.Error(), \"disconnect\") {\n						return\n					}\n				}\n			}()\n"),(MA,"			_, chans, reqs, err := ssh.NewServerConn","			conn, chans, reqs, err := ssh.NewServerConn"))
