From 33aababe309aadcec29d895bfd74550a62a73780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 01/19] fix: link the hashes of all exported signing methods

---
 cryptoer/hmac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptoer/hmac.go b/cryptoer/hmac.go
index a0faaba..4baa678 100644
--- a/cryptoer/hmac.go
+++ b/cryptoer/hmac.go
@@ -3,6 +3,10 @@ package cryptoer
 import (
 	"crypto"
 	"crypto/hmac"
+	_ "crypto/md5"
+	_ "crypto/sha1"
+	_ "crypto/sha256"
+	_ "crypto/sha512"
 	"encoding/base64"
 	"errors"
 )
-- 
2.43.0


From 41f1514adcda403ea183ed4ab3b217ce5b2b9d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 02/19] fix: drop the per-user entry when the timer purges its
 last session

---
 provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider.go b/provider.go
index 3c04702..2f1eb3f 100644
--- a/provider.go
+++ b/provider.go
@@ -191,7 +191,7 @@ func (p *MemoryProvider) unsafeClear() {
 				if str != t.access {
 					continue
 				}
-				if len(strs) == 0 {
+				if len(strs) == 1 {
 					delete(p.ids, t.id)
 				} else {
 					copy(strs[i:], strs[i+1:])
-- 
2.43.0


From e294952fa6986daee23858e9fbedf4217bd5ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 03/19] fix: refreshing onto a stored access token replaces
 that session

---
 provider.go               | 1 +
 provider/bolt/provider.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/provider.go b/provider.go
index 2f1eb3f..336c3f8 100644
--- a/provider.go
+++ b/provider.go
@@ -619,6 +619,7 @@ func (p *MemoryProvider) Refresh(ctx context.Context, access, refresh, newAccess
 	// remove old
 	p.unsafePop(ele)
 	delete(p.tokens, access)
+	p.unsafeDestroyByToken(newAccess)
 	// push new
 	t.Refresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 	p.tokens[newAccess] = p.lru.PushBack(t)
diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index f6dee5d..717182c 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -772,6 +772,10 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 			if e != nil {
 				return
 			}
+			e = p.destoryToken(store, bMD, bData, bIDS, bLRU, newAccess)
+			if e != nil {
+				return
+			}
 			// new
 			md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 			key = []byte(newAccess)
-- 
2.43.0


From e2ed3b0875871127783fd3cec4b4c9ae7d261056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 04/19] fix: the bolt worker gave up on every token it could
 read

---
 provider/bolt/provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 717182c..095b570 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -240,7 +240,7 @@ func (p *Provider) doCheck(m map[string]bool) (closed bool) {
 		)
 		for token := range m {
 			md, e = p.getMetadata(bMD, []byte(token))
-			if e == nil {
+			if e != nil {
 				return
 			} else if md == nil {
 				continue
-- 
2.43.0


From 31e68ba12fd993a1472bbcf9533343e4d2819143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 05/19] fix: bolt Clear kept the lock of a closed provider

---
 provider/bolt/provider.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 095b570..b430118 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -885,7 +885,6 @@ func (p *Provider) Clear() (e error) {
 
 	} else {
 		e = sessionid.ErrProviderClosed
-		return
 	}
 	p.m.Unlock()
 	return
-- 
2.43.0


From f4856c7be7c582fb38abc244215c8ea0e8dad765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 06/19] fix: bolt Clear failed before the first session was
 created

---
 provider/bolt/provider.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index b430118..5670a0b 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -860,9 +860,12 @@ func (p *Provider) Clear() (e error) {
 				store                  = p.store(t)
 				bMD, bData, bIDS, bLRU = p.buckets(store)
 			)
-			e = store.Delete(keyCount)
-			if e != nil {
-				return
+			// bolt refuses to delete a missing key that is followed by a bucket
+			if store.Get(keyCount) != nil {
+				e = store.Delete(keyCount)
+				if e != nil {
+					return
+				}
 			}
 			e = p.deleteBucket(bMD)
 			if e != nil {
-- 
2.43.0


From 349320f67cd00ea8fe877af9bc3ed40d333dff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 07/19] fix: bolt Get returned memory of the finished
 transaction

---
 provider/bolt/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/bolt/metadata.go b/provider/bolt/metadata.go
index a2b5fff..5090109 100644
--- a/provider/bolt/metadata.go
+++ b/provider/bolt/metadata.go
@@ -170,7 +170,7 @@ func (p *Provider) getData(bucket *bolt.Bucket, token string, key []string) (pai
 		b := bucket.Get([]byte(k))
 		if b != nil {
 			pairs[i] = sessionid.Value{
-				Bytes:  b,
+				Bytes:  append([]byte{}, b...), // b is only valid during the transaction
 				Exists: true,
 			}
 		}
-- 
2.43.0


From 2ff98c851a952171fe435041d28c1d44dafb0c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 08/19] fix: the bolt purge timer could still fire on a closed
 provider

---
 provider/bolt/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 5670a0b..96b04c3 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -158,6 +158,9 @@ func (p *Provider) data(t *bolt.Tx) (store, md, data *bolt.Bucket) {
 }
 
 func (p *Provider) doClear() {
+	if p.done != 0 {
+		return
+	}
 	p.db.Update(func(t *bolt.Tx) (e error) {
 		var (
 			store                  = p.store(t)
-- 
2.43.0


From 9ecc84fd42370936f5a3c893dcb9a1396523d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 09/19] fix: Session.Get shared decoded values between reads
 and panicked on another type

---
 session.go | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/session.go b/session.go
index 2ab136d..bee5270 100644
--- a/session.go
+++ b/session.go
@@ -12,8 +12,6 @@ type Value struct {
 }
 type value struct {
 	Value
-	Elem  reflect.Value
-	Ready bool
 }
 
 type Session struct {
@@ -162,19 +160,7 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	}
 	if v, ok := s.getKey(key); ok {
 		if v.Exists {
-			if v.Ready && vo.Elem().Kind() == v.Elem.Elem().Kind() {
-				vo.Elem().Set(v.Elem.Elem())
-			} else {
-				e = s.coder.Decode(v.Bytes, pointer)
-				if e != nil {
-					return
-				}
-				v.Ready = true
-				p := reflect.New(vo.Elem().Type())
-				p.Elem().Set(vo.Elem())
-				v.Elem = p
-				s.keys[key] = v
-			}
+			e = s.coder.Decode(v.Bytes, pointer)
 			return
 		}
 		e = ErrKeyNotExists
@@ -200,14 +186,10 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	if e != nil {
 		return
 	}
-	p := reflect.New(vo.Elem().Type())
-	p.Elem().Set(vo.Elem())
 
 	var v value
 	v.Exists = true
 	v.Bytes = vals[0].Bytes
-	v.Ready = true
-	v.Elem = p
 	s.keys[key] = v
 	return
 }
-- 
2.43.0


From 5bfed1c820bdf78c4ee2b71426b1bccfd57b8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 10/19] fix: Session.Get kept returning values the session
 deleted

---
 session.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/session.go b/session.go
index bee5270..84edb4b 100644
--- a/session.go
+++ b/session.go
@@ -196,5 +196,14 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 
 // Delete keys
 func (s *Session) Delete(ctx context.Context, token string, key ...string) (e error) {
-	return s.provider.Delete(ctx, token, key)
+	e = s.provider.Delete(ctx, token, key)
+	if e != nil {
+		return
+	}
+	if token == s.token {
+		for _, k := range key {
+			delete(s.keys, k)
+		}
+	}
+	return
 }
-- 
2.43.0


From 6af2197d1c927766c028d3cb87c959555e081474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 11/19] fix: redis Refresh of a dead session reported success

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 9c67bb9..c6820d1 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -409,6 +409,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
 		p.pushDelete(key)
 		return
 	} else if md.Refresh != refresh {
-- 
2.43.0


From 518d723de1553dff7bc6931154a60f15c2c042fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 12/19] fix: redis Get returned the private metadata when asked
 for its key

---
 provider/redis/provider.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index c6820d1..62bb663 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -302,6 +302,13 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 		return
 	}
 
+	for _, k := range keys {
+		e = p.checkKey(k)
+		if e != nil {
+			return
+		}
+	}
+
 	fields := make([]string, 1+len(keys))
 	fields[0] = p.opts.metadataKey
 	copy(fields[1:], keys)
-- 
2.43.0


From 165e1504f061ec87903736a155fc497ff7145e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 13/19] fix: redis Keys listed the private metadata and ignored
 the token status

---
 provider/redis/provider.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 62bb663..78e10a2 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -363,11 +363,30 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 		return
 	}
 
-	keys, e = p.opts.client.HKeys(ctx, p.keyName(token)).Result()
+	var md _Metadata
+	key := p.keyName(token)
+	_, e = p.getMetadata(ctx, key, &md)
+	if e != nil {
+		return
+	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
+		p.pushDelete(key)
+		return
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
+		return
+	}
+
+	fields, e := p.opts.client.HKeys(ctx, key).Result()
 	if e != nil {
 		e = p.toError(e)
 		return
 	}
+	for _, field := range fields {
+		if field != p.opts.metadataKey {
+			keys = append(keys, field)
+		}
+	}
 	return
 }
 
-- 
2.43.0


From d74940801653b4fb45ce16c38ac517f5011cd2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 14/19] fix: redis Delete removed the private metadata and
 ignored the token status

---
 provider/redis/provider.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 78e10a2..b8ab949 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -396,10 +396,30 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 	if e != nil {
 		return
 	}
+	for _, k := range keys {
+		e = p.checkKey(k)
+		if e != nil {
+			return
+		}
+	}
+
+	var md _Metadata
+	key := p.keyName(token)
+	_, e = p.getMetadata(ctx, key, &md)
+	if e != nil {
+		return
+	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
+		p.pushDelete(key)
+		return
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
+		return
+	}
 	if len(keys) == 0 {
 		return
 	}
-	_, e = p.opts.client.HDel(ctx, p.keyName(token), keys...).Result()
+	_, e = p.opts.client.HDel(ctx, key, keys...).Result()
 	if e != nil {
 		e = p.toError(e)
 		return
-- 
2.43.0


From 92bdbf0cccf4c735475c5db536fab31e717dabaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 15/19] fix: redis Create kept the data of a session stored
 under the same token

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index b8ab949..83507f4 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -151,6 +151,7 @@ func (p *Provider) Create(ctx context.Context,
 	key := p.keyName(access)
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
+	tx.Del(ctx, key)
 	tx.HSet(ctx, key, fields...)
 	tx.ExpireAt(ctx, key, md.RefreshDeadline)
 	tx.Expire(ctx, key, p.opts.refresh)
-- 
2.43.0


From b869e55f0ce0f1d693eb592d4512ec8b76c83005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 16/19] fix: redis Destroy treated the id as a key pattern

---
 provider/redis/provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 83507f4..c427453 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -173,9 +174,12 @@ func (p *Provider) keyName(key string) string {
 	return p.opts.keyPrefix + key
 }
 
+// globEscape quotes the characters that are special in a redis key pattern.
+var globEscape = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `]`, `\]`)
+
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
-	result := p.opts.client.Keys(ctx, p.keyName(id+`.*`))
+	result := p.opts.client.Keys(ctx, globEscape.Replace(p.keyName(id))+`.*`)
 	e = result.Err()
 	if e != nil {
 		e = p.toError(e)
-- 
2.43.0


From d5d5ebac62f29b20e13481063696b84361b5ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 17/19] fix: redis Close closed a client the caller supplied

---
 provider/redis/provider.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index c427453..7a1da10 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -15,6 +15,7 @@ import (
 // Provider a provider store data on local bolt database
 type Provider struct {
 	opts options
+	own  bool // opts.client was created by this provider
 
 	ticker *time.Ticker
 	ch     chan string
@@ -32,7 +33,8 @@ func New(opt ...Option) (provider *Provider, e error) {
 		o.apply(&opts)
 	}
 
-	if opts.client == nil {
+	own := opts.client == nil
+	if own {
 		var opt *redis.Options
 		opt, e = redis.ParseURL(opts.url)
 		if e != nil {
@@ -49,6 +51,7 @@ func New(opt ...Option) (provider *Provider, e error) {
 	ctx, cancel := context.WithCancel(context.Background())
 	provider = &Provider{
 		opts:   opts,
+		own:    own,
 		ch:     ch,
 		ctx:    ctx,
 		cancel: cancel,
@@ -179,6 +182,10 @@ var globEscape = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`,
 
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
+	if atomic.LoadUint32(&p.done) != 0 {
+		e = sessionid.ErrProviderClosed
+		return
+	}
 	result := p.opts.client.Keys(ctx, globEscape.Replace(p.keyName(id))+`.*`)
 	e = result.Err()
 	if e != nil {
@@ -445,6 +452,9 @@ func (p *Provider) checkID(token ...string) (e error) {
 			return
 		}
 	}
+	if atomic.LoadUint32(&p.done) != 0 {
+		e = sessionid.ErrProviderClosed
+	}
 	return
 }
 
@@ -498,7 +508,9 @@ func (p *Provider) Close() error {
 			if p.ticker != nil {
 				p.ticker.Stop()
 			}
-			p.opts.client.Close()
+			if p.own {
+				p.opts.client.Close()
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 177bf1c5e7378dc94cf90132176e3003cc85b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 18/19] fix: redis Put and Refresh could bring back or
 duplicate a session changed meanwhile

---
 provider/redis/provider.go | 157 +++++++++++++++++++++----------------
 1 file changed, 90 insertions(+), 67 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 7a1da10..71f2a61 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -218,8 +218,19 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	}
 	return
 }
-func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (val string, e error) {
-	val, e = p.opts.client.HGet(ctx, key, p.opts.metadataKey).Result()
+
+// watch runs f, which examines key and then changes it in one transaction,
+// until nobody else has changed key in between.
+func (p *Provider) watch(ctx context.Context, key string, f func(client *redis.Tx) error) error {
+	for {
+		e := p.opts.client.Watch(ctx, f, key)
+		if !errors.Is(e, redis.TxFailedErr) {
+			return p.toError(e)
+		}
+	}
+}
+func (p *Provider) getMetadata(ctx context.Context, client redis.Cmdable, key string, md *_Metadata) (val string, e error) {
+	val, e = client.HGet(ctx, key, p.opts.metadataKey).Result()
 	if e != nil {
 		if e.Error() == `redis: nil` {
 			e = sessionid.ErrTokenNotExists
@@ -244,7 +255,7 @@ func (p *Provider) Check(ctx context.Context, token string) (e error) {
 
 	var md _Metadata
 	key := p.keyName(token)
-	_, e = p.getMetadata(ctx, key, &md)
+	_, e = p.getMetadata(ctx, p.opts.client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -280,29 +291,31 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 		fields = append(fields, field.Key, string(field.Value))
 	}
 
-	var md _Metadata
+	deleted := false
 	key := p.keyName(token)
-	mdStr, e := p.getMetadata(ctx, key, &md)
-	if e != nil {
-		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
-		return
-	} else if md.IsExpired() {
-		e = sessionid.ErrTokenExpired
-		return
-	}
-	fields = append(fields, p.opts.metadataKey, mdStr)
+	e = p.watch(ctx, key, func(client *redis.Tx) (e error) {
+		var md _Metadata
+		mdStr, e := p.getMetadata(ctx, client, key, &md)
+		if e != nil {
+			return
+		} else if md.IsDeleted() {
+			e = sessionid.ErrTokenNotExists
+			deleted = true
+			return
+		} else if md.IsExpired() {
+			e = sessionid.ErrTokenExpired
+			return
+		}
 
-	tx := p.opts.client.TxPipeline()
-	defer tx.Close()
-	tx.HSet(ctx, key, fields)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
-	_, e = tx.Exec(ctx)
-	if e != nil {
-		e = p.toError(e)
+		tx := client.TxPipeline()
+		defer tx.Close()
+		tx.HSet(ctx, key, append(fields, p.opts.metadataKey, mdStr))
+		tx.ExpireAt(ctx, key, md.RefreshDeadline)
+		_, e = tx.Exec(ctx)
 		return
+	})
+	if deleted {
+		p.pushDelete(key)
 	}
 	return
 }
@@ -377,7 +390,7 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 
 	var md _Metadata
 	key := p.keyName(token)
-	_, e = p.getMetadata(ctx, key, &md)
+	_, e = p.getMetadata(ctx, p.opts.client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -415,26 +428,33 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 		}
 	}
 
-	var md _Metadata
+	deleted := false
 	key := p.keyName(token)
-	_, e = p.getMetadata(ctx, key, &md)
-	if e != nil {
+	e = p.watch(ctx, key, func(client *redis.Tx) (e error) {
+		var md _Metadata
+		_, e = p.getMetadata(ctx, client, key, &md)
+		if e != nil {
+			return
+		} else if md.IsDeleted() {
+			e = sessionid.ErrTokenNotExists
+			deleted = true
+			return
+		} else if md.IsExpired() {
+			e = sessionid.ErrTokenExpired
+			return
+		}
+		if len(keys) == 0 {
+			return
+		}
+
+		tx := client.TxPipeline()
+		defer tx.Close()
+		tx.HDel(ctx, key, keys...)
+		_, e = tx.Exec(ctx)
 		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
+	})
+	if deleted {
 		p.pushDelete(key)
-		return
-	} else if md.IsExpired() {
-		e = sessionid.ErrTokenExpired
-		return
-	}
-	if len(keys) == 0 {
-		return
-	}
-	_, e = p.opts.client.HDel(ctx, key, keys...).Result()
-	if e != nil {
-		e = p.toError(e)
-		return
 	}
 	return
 }
@@ -464,35 +484,38 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	}
-	var md _Metadata
+	deleted := false
 	key := p.keyName(access)
-	_, e = p.getMetadata(ctx, key, &md)
-	if e != nil {
-		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
-		return
-	} else if md.Refresh != refresh {
-		e = sessionid.ErrRefreshTokenNotMatched
-		return
-	}
-	md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
-	b, e := p.opts.coder.Encode(&md)
-	if e != nil {
-		return
-	}
-
 	newkey := p.keyName(newAccess)
-	tx := p.opts.client.TxPipeline()
-	defer tx.Close()
-	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
-	tx.Rename(ctx, key, newkey)
-	_, e = tx.Exec(ctx)
-	if e != nil {
-		e = p.toError(e)
+	e = p.watch(ctx, key, func(client *redis.Tx) (e error) {
+		var md _Metadata
+		_, e = p.getMetadata(ctx, client, key, &md)
+		if e != nil {
+			return
+		} else if md.IsDeleted() {
+			e = sessionid.ErrTokenNotExists
+			deleted = true
+			return
+		} else if md.Refresh != refresh {
+			e = sessionid.ErrRefreshTokenNotMatched
+			return
+		}
+		md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
+		b, e := p.opts.coder.Encode(&md)
+		if e != nil {
+			return
+		}
+
+		tx := client.TxPipeline()
+		defer tx.Close()
+		tx.HSet(ctx, key, p.opts.metadataKey, string(b))
+		tx.ExpireAt(ctx, key, md.RefreshDeadline)
+		tx.Rename(ctx, key, newkey)
+		_, e = tx.Exec(ctx)
 		return
+	})
+	if deleted {
+		p.pushDelete(key)
 	}
 	return
 }
-- 
2.43.0


From 2c911165b77e81aec5dfebfc5294012ab2b7802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:40 +0000
Subject: [PATCH 19/19] fix: refuse a nil pointer to a pointer like any other
 pointer to a pointer

---
 session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session.go b/session.go
index 84edb4b..1259655 100644
--- a/session.go
+++ b/session.go
@@ -154,7 +154,7 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	if vo.Kind() != reflect.Ptr {
 		e = ErrNeedsPointer
 		return
-	} else if vo.Elem().Kind() == reflect.Ptr {
+	} else if vo.Type().Elem().Kind() == reflect.Ptr {
 		e = ErrPointerToPointer
 		return
 	}
-- 
2.43.0

