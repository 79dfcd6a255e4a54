From 1787b649f45c1514e835948e65455bcfba516f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 01/18] fix: Stat must resolve regular files, not only
 directories

---
 filetree/filetree.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 95be0e4..238a5aa 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -185,10 +185,17 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 	cleanPath := filepath.Clean(plainPath)
 
 	plainBaseName := filepath.Base(cleanPath)
-	cipherPath, err := f.findPath(cleanPath)
+	cipherPath, err := f.findPath(filepath.Dir(cleanPath))
 	if err != nil {
 		return statErr(fmt.Sprintf("error finding path: %s", err))
 	}
+	if cleanPath != "/" {
+		entry, err := f.findInDir(cipherPath, plainBaseName)
+		if err != nil {
+			return statErr(fmt.Sprintf("error finding path: %s", err))
+		}
+		cipherPath = filepath.Join(cipherPath, entry.Name())
+	}
 	item, err := f.fsAccessor.Stat(cipherPath)
 	if err != nil {
 		return statErr(fmt.Sprintf("error running stat on path: %s", err))
-- 
2.43.0


From e9279b980537e17c8b092ed8e1c72fdd390a5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 02/18] fix: read empty files as empty and reject truncated
 ones without panicking

---
 filetree/decrypt.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/filetree/decrypt.go b/filetree/decrypt.go
index 32ad17a..643e084 100644
--- a/filetree/decrypt.go
+++ b/filetree/decrypt.go
@@ -1,15 +1,16 @@
 package filetree
 
 import (
+	"errors"
 	"io"
 
 	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
 )
 
 // readFileID parses the file ID from the header. It returns an error
-// if there is an error parsing or if the file is practically empty.
+// if there is an error parsing or if the file is too short to have a header.
 func (f *FileTree) readFileID(fileBytes []byte) ([]byte, error) {
-	if len(fileBytes) <= contentenc.HeaderLen {
+	if len(fileBytes) < contentenc.HeaderLen {
 		return nil, io.EOF
 	}
 	buf := fileBytes[:contentenc.HeaderLen]
@@ -21,11 +22,22 @@ func (f *FileTree) readFileID(fileBytes []byte) ([]byte, error) {
 }
 
 func (f *FileTree) decryptFile(fileBytes []byte) ([]byte, error) {
+	if len(fileBytes) == 0 {
+		// Empty files are stored without a header
+		return nil, nil
+	}
 	plainLength := f.cEnc.CipherSizeToPlainSize(uint64(len(fileBytes)))
 	fileID, err := f.readFileID(fileBytes)
 	if err != nil {
 		return nil, err
 	}
+	if len(fileBytes) == contentenc.HeaderLen {
+		// A header without any content is an empty file
+		return nil, nil
+	}
+	if plainLength == 0 {
+		return nil, errors.New("file is too short to hold an encrypted block")
+	}
 	blocks := f.cEnc.ExplodePlainRange(0, plainLength)
 	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)
 	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)
-- 
2.43.0


From cf082bb54fe8b9ae0f40d5f76bdb87ab34ba6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:50 +0000
Subject: [PATCH 03/18] fix: serve empty results as successes and never cache
 partial data of a failed request

---
 requester/makerequest.go | 10 +++++-----
 requester/requester.go   | 15 +++++++++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 752eaa5..29acabc 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -29,7 +29,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 		// Return immediately if there is valid data in the cache, otherwise
 		// make a new request.
 		if cached, found := cache.Get(key); found {
-			if cached.data != nil {
+			if cached.done && cached.err == nil {
 				return cached.data, nil
 			}
 		}
@@ -51,7 +51,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				retryErrs = append(retryErrs, "cache wiped before ticket could be handled")
 				continue
 			}
-			if cached.data != nil {
+			if cached.done && cached.err == nil {
 				// The request completed before we even started waiting on it.
 				return cached.data, nil
 			}
@@ -100,7 +100,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 			ticket.Lock()
 			for {
 				cached, found = cache.Get(key)
-				dataAvailable := cached.data != nil || cached.err != nil
+				dataAvailable := cached.done
 				wrongLocker := ticket.lockerNum == 0 || cached.lockerNum != ticket.lockerNum
 
 				if !found || dataAvailable || wrongLocker {
@@ -109,7 +109,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				ticket.Wait()
 			}
 
-			d, err := cached.data, cached.err
+			d, err, done := cached.data, cached.err, cached.done
 			ticket.Unlock()
 
 			// We should never enter a situation where the cached data isn't found
@@ -118,7 +118,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				retryErrs = append(retryErrs, "cache entry deleted while waiting")
 				continue
 			}
-			if d == nil && err == nil {
+			if !done {
 				retryErrs = append(retryErrs, "data missing by the time request completed")
 				continue
 			}
diff --git a/requester/requester.go b/requester/requester.go
index d5d8b93..eb0d38a 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -24,8 +24,11 @@ type Decrypter interface {
 }
 
 type genCacheEntry struct {
-	data      interface{}
-	err       error
+	data interface{}
+	err  error
+	// done is set once the request has completed. A successful request may
+	// legitimately have no data (an empty file or an empty directory).
+	done      bool
 	lockerNum int
 }
 
@@ -131,12 +134,16 @@ func (r *Requester) performRequestAndCache(
 		wt.Lock()
 
 		data, err := request()
-		cache.Set(key, genCacheEntry{data: data, err: err})
+		if err != nil {
+			// Never cache a partial result along with an error.
+			data = nil
+		}
+		cache.Set(key, genCacheEntry{data: data, err: err, done: true})
 
 		wt.cv.Broadcast()
 		wt.Unlock()
 	} else {
-		if cacheEntry.data != nil || cacheEntry.err != nil {
+		if cacheEntry.done {
 			// The work has been done, so just use what's in the cache.
 			close(responseCh)
 		} else {
-- 
2.43.0


From f119c3e6c7fe1c6abbf3814dde3a47416eba9740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:51 +0000
Subject: [PATCH 04/18] fix: a request that timed out must not block a worker
 forever

---
 requester/makerequest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 29acabc..bbb6dc5 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -33,7 +33,9 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				return cached.data, nil
 			}
 		}
-		respChan := make(chan *workTicket)
+		// The channel is buffered so that a worker never blocks on a requester
+		// that has already timed out.
+		respChan := make(chan *workTicket, 1)
 		r.workQueue <- work{
 			requestType: requestType,
 			arg1:        arg1,
-- 
2.43.0


From d4ae9602cf75c5d4f393a5ddb3166df6880e9667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:52 +0000
Subject: [PATCH 05/18] fix: retrying a failed request must not drop a request
 in flight from the cache

---
 requester/makerequest.go |  4 +++-
 requester/synccache.go   | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index bbb6dc5..eec0e16 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -67,7 +67,9 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				} else {
 					retryErrs = append(retryErrs, "empty data for path in cache")
 				}
-				cache.Delete(key)
+				// Only the failed entry may go: by now another worker could be
+				// handling a new request for the same key.
+				cache.DeleteFailed(key)
 				continue
 			}
 
diff --git a/requester/synccache.go b/requester/synccache.go
index f0f1351..0b453db 100644
--- a/requester/synccache.go
+++ b/requester/synccache.go
@@ -59,10 +59,12 @@ func (s *syncCache) Set(key string, value genCacheEntry) {
 	s.lock.Unlock()
 }
 
-// Delete deletes the the value associated with the key from the cache in a
-// thread-safe way
-func (s *syncCache) Delete(key string) {
+// DeleteFailed deletes the the value associated with the key from the cache in
+// a thread-safe way, but only if it is the result of a failed request
+func (s *syncCache) DeleteFailed(key string) {
 	s.lock.Lock()
-	delete(s.m, key)
+	if cacheEntry, found := s.m[key]; found && cacheEntry.done && cacheEntry.err != nil {
+		delete(s.m, key)
+	}
 	s.lock.Unlock()
 }
-- 
2.43.0


From 63e62739e9fcf37f52ff69f9ccada9d6ce8314f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:53 +0000
Subject: [PATCH 06/18] fix: look up decrypted names under the key the worker
 stores them with

---
 requester/makerequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index eec0e16..dc499ea 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -21,7 +21,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 		panic("Invalid request type")
 	}
 	key := arg1
-	if len(arg2) > 0 {
+	if requestType == workDecryptName {
 		key = complexKey(arg1, arg2)
 	}
 
-- 
2.43.0


From e4922812c306936fcc530f97816903b186352b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:54 +0000
Subject: [PATCH 07/18] fix: a stalled work queue must not drop names from a
 directory listing

---
 filetree/filetree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 238a5aa..1f2ec95 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -240,6 +240,11 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	}
 	for _, info := range dirListing {
 		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
+		if err != nil {
+			// The work queue may have failed rather than the decryption, in which
+			// case skipping the name would return an incomplete listing.
+			rName, err = f.nTransform.DecryptName(info.Name(), iv)
+		}
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From 5491b9a18e6b93b3a704bf37596fa27e7536eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:55 +0000
Subject: [PATCH 08/18] fix: reject malformed directory IVs and oversized names
 instead of panicking

---
 filetree/filetree.go           | 3 +++
 gocrypt/nametransform/names.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 1f2ec95..3a67939 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -234,6 +234,9 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	if err != nil {
 		return fmt.Errorf("error reading directory IV: %s", err)
 	}
+	if len(iv) != nametransform.DirIVLen {
+		return fmt.Errorf("invalid directory IV: wanted %d bytes, got %d", nametransform.DirIVLen, len(iv))
+	}
 	dirListing, err := f.reqCacher.ReadDir(cipherPath)
 	if err != nil {
 		return fmt.Errorf("error listing directory: %s", err)
diff --git a/gocrypt/nametransform/names.go b/gocrypt/nametransform/names.go
index 65d0b5a..1d4c0db 100644
--- a/gocrypt/nametransform/names.go
+++ b/gocrypt/nametransform/names.go
@@ -65,6 +65,12 @@ func (n *NameTransform) DecryptName(cipherName string, iv []byte) (string, error
 		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
 		return "", syscall.EBADMSG
 	}
+	if len(bin) > NameMax+1 {
+		// No encrypted name is longer than NameMax padded to 16 bytes, and EME
+		// panics on more than 2048 bytes.
+		tlog.Debug.Printf("DecryptName %q: decoded length %d is too long", cipherName, len(bin))
+		return "", syscall.EBADMSG
+	}
 	bin = n.emeCipher.Decrypt(iv, bin)
 	bin, err = unPad16(bin)
 	if err != nil {
-- 
2.43.0


From 3a1da6cdf14d0f0408962b0e97858529e7423eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:55 +0000
Subject: [PATCH 09/18] fix: keep the LRU list consistent when refreshing an
 entry

---
 filetree/fastcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filetree/fastcache.go b/filetree/fastcache.go
index a79a30e..1265dde 100644
--- a/filetree/fastcache.go
+++ b/filetree/fastcache.go
@@ -55,6 +55,7 @@ func (f *FastCache) refreshNode(d *DirMapping) {
 		} else {
 			f.head = d.next
 		}
+		d.next.prev = d.prev
 		d.prev = f.last
 		d.next = nil
 		f.last.next = d
-- 
2.43.0


From 85a8d570483c6092834198ab20c3352638e7aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:56 +0000
Subject: [PATCH 10/18] fix: read drives created with AES-SIV content
 encryption

---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 3a67939..a294402 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -74,6 +74,9 @@ func Init(
 		return nil, err
 	}
 	cryptoBackend := cryptocore.BackendGoGCM
+	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
+		cryptoBackend = cryptocore.BackendAESSIV
+	}
 
 	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
 	forceDecode := false
-- 
2.43.0


From 4023e177efcfbd3797aef3a665237856fcb930ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:22 +0000
Subject: [PATCH 11/18] fix: refuse unusable drive configurations at start-up
 and leave no copy of them behind

---
 filetree/filetree.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index a294402..047e465 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -69,10 +69,23 @@ func Init(
 	if err = f.Close(); err != nil {
 		return nil, err
 	}
-	masterKey, conf, err := configfile.LoadAndDecrypt(f.Name(), password)
+	conf, err := configfile.Load(f.Name())
 	if err != nil {
 		return nil, err
 	}
+	// Deriving the key exits the process on unacceptable parameters, so don't
+	// rely on the deferred removal.
+	os.Remove(f.Name())
+	if conf.IsFeatureFlagSet(configfile.FlagPlaintextNames) {
+		return nil, errors.New("drives with plaintext names are not supported")
+	}
+	masterKey, err := conf.DecryptMasterKey(password)
+	if err != nil {
+		return nil, err
+	}
+	if len(masterKey) != cryptocore.KeyLen {
+		return nil, fmt.Errorf("invalid master key length %d", len(masterKey))
+	}
 	cryptoBackend := cryptocore.BackendGoGCM
 	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
 		cryptoBackend = cryptocore.BackendAESSIV
-- 
2.43.0


From cd3804dea2e9b9750632f8892df86a1f74889a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:22 +0000
Subject: [PATCH 12/18] fix: refuse to start with an incomplete config file

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 75f3aa5..a4decea 100644
--- a/main.go
+++ b/main.go
@@ -42,6 +42,9 @@ func main() {
 	if err != nil {
 		log.Fatalln("error loading config file:", err)
 	}
+	if err := cfg.Validate(); err != nil {
+		log.Fatalln("invalid config file:", err)
+	}
 
 	// An SSH server is represented by a ServerConfig, which holds
 	// certificate details and handles authentication of ServerConns.
-- 
2.43.0


From fd9033dfebc0175e0dec35babf73e1293475e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:23 +0000
Subject: [PATCH 13/18] fix: a client stalling its handshake must not keep
 others out

---
 main.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/main.go b/main.go
index a4decea..85fca42 100644
--- a/main.go
+++ b/main.go
@@ -105,19 +105,21 @@ func main() {
 			logger.Println("failed to accept incoming connection", err)
 			continue
 		}
-		// Before use, a handshake must be performed on the incoming
-		// net.Conn.
-		_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
-		if err != nil {
-			logger.Println("failed to handshake", err)
-			continue
-		}
-		logger.Println("SSH server established")
+		go func() {
+			// Before use, a handshake must be performed on the incoming
+			// net.Conn.
+			_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
+			if err != nil {
+				logger.Println("failed to handshake", err)
+				return
+			}
+			logger.Println("SSH server established")
 
-		// The incoming Request channel must be serviced.
-		go ssh.DiscardRequests(reqs)
+			// The incoming Request channel must be serviced.
+			go ssh.DiscardRequests(reqs)
 
-		go handleChannels(chans, reqHandlers, logger)
+			handleChannels(chans, reqHandlers, logger)
+		}()
 	}
 }
 
-- 
2.43.0


From 657b644078353b184607f8e982d401f07a4973d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:24 +0000
Subject: [PATCH 14/18] fix: a malformed subsystem request must not crash the
 proxy

---
 main.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 85fca42..02494a2 100644
--- a/main.go
+++ b/main.go
@@ -156,8 +156,7 @@ func handleChannel(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger
 			ok := false
 			switch req.Type {
 			case "subsystem":
-				logger.Printf("Subsystem: %s\n", req.Payload[4:])
-				if string(req.Payload[4:]) == "sftp" {
+				if len(req.Payload) >= 4 && string(req.Payload[4:]) == "sftp" {
 					ok = true
 				}
 			}
-- 
2.43.0


From e4eb825269cb23311c14985b4d70b48bea2a3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:25 +0000
Subject: [PATCH 15/18] fix: never report an interrupted transfer as complete
 nor keep its dead session

---
 backend/pool.go     | 12 ++++++++++++
 backend/provider.go | 38 ++++++++++++++++++++++++++------------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/backend/pool.go b/backend/pool.go
index a386333..35f772c 100644
--- a/backend/pool.go
+++ b/backend/pool.go
@@ -3,6 +3,7 @@ package backend
 import (
 	"errors"
 	"fmt"
+	"os"
 
 	"github.com/pkg/sftp"
 	"golang.org/x/crypto/ssh"
@@ -40,6 +41,17 @@ func (c *conn) Close() {
 	}
 }
 
+// alive tests whether the SFTP session still answers requests. A reply that
+// reports a failure is as good as any other.
+func (c *conn) alive(path string) bool {
+	_, err := c.sftpConn.Stat(path)
+	if err == nil || os.IsNotExist(err) {
+		return true
+	}
+	_, answered := err.(*sftp.StatusError)
+	return answered
+}
+
 type pool struct {
 	conns chan *conn
 
diff --git a/backend/provider.go b/backend/provider.go
index 455cc8c..4f654cd 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -2,6 +2,7 @@ package backend
 
 import (
 	"bytes"
+	"io"
 	"log"
 	"os"
 
@@ -34,22 +35,32 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 	}
 	file, err := c.sftpConn.Open(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
+		// Test the underlying connection to see if it's still okay.
+		if !c.alive(path) {
 			c.Close()
 		} else {
 			p.p.Put(c)
 		}
 		return nil, err
 	}
-	defer p.p.Put(c)
-	defer func() { _ = file.Close() }()
 	buf := new(bytes.Buffer)
-	_, err = file.WriteTo(buf)
+	info, err := file.Stat()
+	if err == nil {
+		_, err = file.WriteTo(buf)
+	}
+	closeErr := file.Close()
+	if (err != nil || closeErr != nil) && !c.alive(path) {
+		c.Close()
+	} else {
+		p.p.Put(c)
+	}
 	if err != nil {
 		return nil, err
 	}
+	// WriteTo takes a lost session for the end of the file.
+	if int64(buf.Len()) < info.Size() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	return buf.Bytes(), nil
 }
 
@@ -62,15 +73,19 @@ func (p *Provider) ReadDir(path string) ([]os.FileInfo, error) {
 	}
 	listing, err := c.sftpConn.ReadDir(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
+		// Test the underlying connection to see if it's still okay.
+		if !c.alive(path) {
 			c.Close()
 		} else {
 			p.p.Put(c)
 		}
 		return nil, err
 	}
+	// The sftp client takes a lost session for the end of the listing.
+	if !c.alive(path) {
+		c.Close()
+		return nil, io.ErrUnexpectedEOF
+	}
 	p.p.Put(c)
 	return listing, nil
 }
@@ -84,9 +99,8 @@ func (p *Provider) Stat(path string) (os.FileInfo, error) {
 	}
 	stat, err := c.sftpConn.Stat(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
+		// Test the underlying connection to see if it's still okay.
+		if !c.alive(path) {
 			c.Close()
 		} else {
 			p.p.Put(c)
-- 
2.43.0


From f6bc475222b68529dedce4b12349637c7005fd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:45 +0000
Subject: [PATCH 16/18] fix: do not replace the drive configuration with one
 that could not be synced to disk

---
 gocrypt/configfile/config_file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gocrypt/configfile/config_file.go b/gocrypt/configfile/config_file.go
index 1c96611..14172ee 100644
--- a/gocrypt/configfile/config_file.go
+++ b/gocrypt/configfile/config_file.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"io/ioutil"
 	"log"
+	"syscall"
 
 	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
 	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
@@ -284,10 +285,12 @@ func (cf *ConfFile) WriteFile() error {
 		return err
 	}
 	err = fd.Sync()
-	if err != nil {
+	if pe, ok := err.(*os.PathError); ok && (pe.Err == syscall.EINVAL || pe.Err == syscall.ENOTSUP) {
 		// This can happen on network drives: FRITZ.NAS mounted on MacOS returns
 		// "operation not supported": https://github.com/rfjakob/gocryptfs/issues/390
 		tlog.Warn.Printf("Warning: fsync failed: %v", err)
+	} else if err != nil {
+		return err
 	}
 	err = fd.Close()
 	if err != nil {
-- 
2.43.0


From 8e2f6ca8e30aa6c00f3448e7a826c0657ab6a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:25 +0000
Subject: [PATCH 17/18] fix: stat of a symbolic link failed because the remote
 followed it

---
 filetree/filetree.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 047e465..12952d2 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -210,6 +210,14 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 		if err != nil {
 			return statErr(fmt.Sprintf("error finding path: %s", err))
 		}
+		if entry.Mode()&os.ModeSymlink != 0 {
+			// The remote would follow the link, but its target is encrypted.
+			return plainFileInfo{
+				FileInfo: entry,
+				name:     plainBaseName,
+				size:     entry.Size(),
+			}, nil
+		}
 		cipherPath = filepath.Join(cipherPath, entry.Name())
 	}
 	item, err := f.fsAccessor.Stat(cipherPath)
-- 
2.43.0


From aadb3e265a22a13f47a30386fcdb82346112128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:14 +0000
Subject: [PATCH 18/18] fix: entries with long names were missing from listings
 and could not be opened

---
 filetree/filetree.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 12952d2..e7fb136 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -265,12 +265,28 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	if err != nil {
 		return fmt.Errorf("error listing directory: %s", err)
 	}
+	// Names too long for the remote are stored in files of their own.
+	longNameFiles := map[string]bool{}
 	for _, info := range dirListing {
-		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
+		if nametransform.NameType(info.Name()) == nametransform.LongNameFilename {
+			longNameFiles[info.Name()] = true
+		}
+	}
+	for _, info := range dirListing {
+		cName := info.Name()
+		longNameFile := cName + nametransform.LongNameSuffix
+		if nametransform.IsLongContent(cName) && longNameFiles[longNameFile] {
+			cNameBytes, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, longNameFile))
+			if err != nil {
+				return fmt.Errorf("error reading long name: %s", err)
+			}
+			cName = string(cNameBytes)
+		}
+		rName, err := f.reqCacher.DecryptName(cName, iv)
 		if err != nil {
 			// The work queue may have failed rather than the decryption, in which
 			// case skipping the name would return an incomplete listing.
-			rName, err = f.nTransform.DecryptName(info.Name(), iv)
+			rName, err = f.nTransform.DecryptName(cName, iv)
 		}
 		if err != nil {
 			continue
-- 
2.43.0

