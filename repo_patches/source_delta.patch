From 4625a8251c8b53b6316ed44c723ff2c171c47dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:28 +0000
Subject: [PATCH 01/11] fix: pool Close must not panic or leak when racing a
 Send or called twice

Close closed the channel Send releases connections on, so a Send in flight
during Close panicked with 'send on closed channel', a second Close panicked
with 'close of closed channel', and a connection released between the drain
and the close (or left behind by a done context) stayed open in a closed pool.
---
 netx/pool/fifoch/fifoch.go | 53 +++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 97dda79..006a422 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -12,6 +12,7 @@ import (
 
 type poolCh struct {
 	mu        sync.Mutex
+	closed    bool // guarded by mu, as are sends on and the closing of ch
 	ch        chan netx.Conn
 	connector netx.Connector
 }
@@ -24,30 +25,35 @@ func New(connector netx.Connector, size int) *poolCh {
 	}
 }
 
+// Close closes the pool and its idle connections. Connections in use are closed
+// as soon as their Send() has finished.
 func (p *poolCh) Close(ctx context.Context) error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if !p.closed {
+		p.closed = true
+		close(p.ch)
+	}
+	// Nothing can be added to ch any more, so this cannot block.
+	for conn := range p.ch {
+		conn.Close()
+	}
+	return nil
+}
 
-	ch := p.getCh()
-
-	defer close(ch)
-	for {
+// put returns a connection to the pool, closing it if the pool is full or closed.
+func (p *poolCh) put(conn netx.Conn) {
+	p.mu.Lock()
+	if !p.closed {
 		select {
-		case conn, ok := <-ch:
-			if !ok {
-				return nil
-			}
-			conn.Close()
-		case <-ctx.Done():
-			return ctx.Err()
+		case p.ch <- conn:
+			p.mu.Unlock()
+			return
 		default:
-			return nil
 		}
 	}
-}
-
-func (p *poolCh) getCh() chan netx.Conn {
-	p.mu.Lock()
-	defer p.mu.Unlock()
-	return p.ch
+	p.mu.Unlock()
+	conn.Close()
 }
 
 func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
@@ -57,9 +63,8 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		ok   bool
 		err  error
 	)
-	ch := p.getCh()
 	select {
-	case conn, ok = <-ch:
+	case conn, ok = <-p.ch:
 		if !ok {
 			return nil, pool.ErrPoolClosed
 		}
@@ -78,13 +83,7 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		conn.Close()
 		return r, err
 	}
-
-	ch = p.getCh()
-	select {
-	case ch <- conn:
-	default:
-		conn.Close()
-	}
+	p.put(conn)
 	return r, nil
 }
 
-- 
2.43.0


From 46f8da2d24f8d98d9efcae47784c707d51c10fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:49 +0000
Subject: [PATCH 02/11] fix: pool must not reuse a connection whose unit of
 work failed

When a statement fails, the no_error expectation skips the COMMIT and leaves
the transaction open on the session. The connection went back to the pool and
the next unit of work's START TRANSACTION implicitly committed the half-done
one. Close the connection instead, which makes the server roll back.
---
 netx/pool/fifoch/fifoch.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 006a422..984cda2 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -83,8 +83,25 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		conn.Close()
 		return r, err
 	}
+	if failed(r) {
+		// A statement failed, so its transaction may still be open on this
+		// connection, and the START TRANSACTION of the next unit of work would
+		// commit it. Closing the connection rolls it back.
+		conn.Close()
+		return r, nil
+	}
 	p.put(conn)
 	return r, nil
 }
 
+// failed returns whether any of the responses is an error
+func failed(r []netx.Response) bool {
+	for _, x := range r {
+		if _, ok := x.(error); ok {
+			return true
+		}
+	}
+	return false
+}
+
 var _ pool.Pool = (*poolCh)(nil)
-- 
2.43.0


From 10e4ca206a88b06d946fb02960b00559ccf9a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:49 +0000
Subject: [PATCH 03/11] fix: close the connection and fail when the server
 refuses TLS

A failed capability exchange leaked the dialled connection, and an error
response to it was ignored, starting a TLS handshake with a server that had
refused TLS (which blocks for ever if the context has no deadline).
---
 netx/connector/connector.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/netx/connector/connector.go b/netx/connector/connector.go
index 7fdaf75..bc5fbfe 100644
--- a/netx/connector/connector.go
+++ b/netx/connector/connector.go
@@ -67,12 +67,18 @@ func (c *Connector) New(ctx context.Context) (netx.Conn, error) {
 	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
 		b, err := xproto.CapabilitySet("tls", true)
 		if err != nil {
+			conn.Close()
 			return nil, err
 		}
-		// @TODO response test
-		if _, err := conn.Send(ctx, b); err != nil {
+		r, err := conn.Send(ctx, b)
+		if err != nil {
+			conn.Close()
 			return nil, err
 		}
+		if err, ok := r[0].(error); ok {
+			conn.Close()
+			return nil, fmt.Errorf("server refused TLS: %w", err)
+		}
 		tlsConn := tls.Client(netConn, c.tlsConfig)
 		if err := tlsConn.Handshake(); err != nil {
 			tlsConn.Close()
-- 
2.43.0


From ce70b4fddd5ae41a2d04831dab9dfaf3fe1cf017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:09 +0000
Subject: [PATCH 04/11] fix: an error returned by a builder callback must fail
 the unit of work

The errors returned by the functions given to ExpectFailOnError, Tx, InsertF
and UpdateF were dropped, so a unit of work its author had refused was sent
and committed.
---
 builder.go |  5 ++++-
 crud.go    | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/builder.go b/builder.go
index e91f6e4..6e500a7 100644
--- a/builder.go
+++ b/builder.go
@@ -36,7 +36,10 @@ func (b *Builder) call(f func(b *Builder) error) {
 		disabled: false,
 	}
 	b.disabled = true
-	f(&child)
+	err := f(&child)
+	if child.err == nil {
+		child.err = err
+	}
 	b.buf = child.buf
 	b.err = child.err
 	b.disabled = false
diff --git a/crud.go b/crud.go
index cf730fb..07e7302 100644
--- a/crud.go
+++ b/crud.go
@@ -31,7 +31,10 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	n := len(b.buf)
 	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
 	b.disabled = true
-	f(i)
+	err := f(i)
+	if i.err == nil {
+		i.err = err
+	}
 	b.buf, b.err = i.buf, i.err
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
@@ -59,7 +62,10 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	var u Update
 	u.buf, u.err = xproto.Update(b.buf, name, criteria)
 	b.disabled = true
-	f(&u)
+	err := f(&u)
+	if u.err == nil {
+		u.err = err
+	}
 	b.buf, b.err = u.buf, u.err
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
-- 
2.43.0


From b9773dd7cf5f30884f1c08f2db251283560eb0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:09 +0000
Subject: [PATCH 05/11] fix: do not patch a message header after its encoding
 failed

A caller supplied AppendExpr that returns a nil slice with its error, as is
idiomatic, made Delete, InsertF and UpdateF panic instead of failing the unit
of work.
---
 crud.go          | 10 ++++++++--
 xproto/xproto.go |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crud.go b/crud.go
index 07e7302..9fefffc 100644
--- a/crud.go
+++ b/crud.go
@@ -36,8 +36,11 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 		i.err = err
 	}
 	b.buf, b.err = i.buf, i.err
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
+	if b.err != nil {
+		return
+	}
+	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 }
 
 type Update struct {
@@ -67,6 +70,9 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 		u.err = err
 	}
 	b.buf, b.err = u.buf, u.err
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
+	if b.err != nil {
+		return
+	}
+	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 }
diff --git a/xproto/xproto.go b/xproto/xproto.go
index b9c182d..b04399d 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -70,7 +70,10 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 	copy(b[i:], name)
 	if criteria != nil {
 		p, err = criteria(p, tagDeleteCriteria)
+		if err != nil {
+			return p, err
+		}
 	}
 	binary.LittleEndian.PutUint32(p[s:], uint32(len(p)-s-4))
-	return p, err
+	return p, nil
 }
-- 
2.43.0


From acfe2b4283b2cf58f98e72319da3c8d87ade5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:10 +0000
Subject: [PATCH 06/11] fix: a builder kept beyond its callback must not
 corrupt the unit of work

Child builders and insert/update handles share the parent's backing array, so
using one after its callback had returned overwrote messages the parent had
appended since.
---
 builder.go | 1 +
 crud.go    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/builder.go b/builder.go
index 6e500a7..5c56115 100644
--- a/builder.go
+++ b/builder.go
@@ -43,6 +43,7 @@ func (b *Builder) call(f func(b *Builder) error) {
 	b.buf = child.buf
 	b.err = child.err
 	b.disabled = false
+	child.disabled = true // would write into b.buf if it is still used
 }
 
 type OpenContext uint8
diff --git a/crud.go b/crud.go
index 9fefffc..697b7c8 100644
--- a/crud.go
+++ b/crud.go
@@ -36,6 +36,7 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 		i.err = err
 	}
 	b.buf, b.err = i.buf, i.err
+	i.buf = nil // would write into b.buf if it is still used
 	b.disabled = false
 	if b.err != nil {
 		return
@@ -70,6 +71,7 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 		u.err = err
 	}
 	b.buf, b.err = u.buf, u.err
+	u.buf = nil // would write into b.buf if it is still used
 	b.disabled = false
 	if b.err != nil {
 		return
-- 
2.43.0


From aaa63fb227e766e4ad002a3f8129732a32772ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:31 +0000
Subject: [PATCH 07/11] fix: Regexp must use the operator name "regexp"

X Protocol has no operator "rexgexp"; see the list in mysqlx_expr.proto.
---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 1a08f3a..9ad9225 100644
--- a/expr.go
+++ b/expr.go
@@ -276,7 +276,7 @@ func IsNot(a, b interface{}) exprFunc {
 
 func Regexp(a, b interface{}) exprFunc {
 	return func(p []byte, tag uint8) ([]byte, error) {
-		return xproto.AppendExprOperatorV(p, tag, "rexgexp", a, b)
+		return xproto.AppendExprOperatorV(p, tag, "regexp", a, b)
 	}
 }
 
-- 
2.43.0


From a1129e452549955714b2b9fcce56523c834d7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:31 +0000
Subject: [PATCH 08/11] fix: AppendExprVariable wrote a corrupt length for
 names over 123 bytes

The size of the expression was written as a single byte.
---
 xproto/expr.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/xproto/expr.go b/xproto/expr.go
index 50e8969..9cf36dc 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -423,13 +423,19 @@ func AppendExprPlaceholder(p []byte, tag uint8, pos uint32) ([]byte, error) {
 }
 
 func AppendExprVariable(p []byte, tag uint8, name string) ([]byte, error) {
-	x := len(name)
-	n := sizeVarint(uint(x))
-	p = append(p, tag<<3|wireBytes, 3+byte(n+x),
-		tagExprType<<3|wireVarint, byte(mysqlx_expr.Expr_VARIABLE),
-		tagExprVariable<<3|wireBytes, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
-		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56), 1)
-	n += len(p) - binary.MaxVarintLen64
-	p[n-1] &= 0x7F
-	return append(p[:n], name...), nil
+	n := len(name)
+	n0 := 3 + sizeVarint(uint(n)) + n // Expr size
+	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n0))+n0)
+
+	b[0] = tag<<3 | wireBytes
+	i := 1 + putUvarint(b[1:], uint64(n0))
+	b[i] = tagExprType<<3 | wireVarint
+	i++
+	b[i] = byte(mysqlx_expr.Expr_VARIABLE)
+	i++
+	b[i] = tagExprVariable<<3 | wireBytes
+	i++
+	i += putUvarint(b[i:], uint64(n))
+	copy(b[i:], name)
+	return p, nil
 }
-- 
2.43.0


From 8826fb1fa1d685c92f18068e2342845c8cf12838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:32 +0000
Subject: [PATCH 09/11] fix: encode the most negative time.Duration correctly

Negating it overflows, which gave hours in the quintillions.
---
 xproto/scalar.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xproto/scalar.go b/xproto/scalar.go
index fba59b0..5850e69 100644
--- a/xproto/scalar.go
+++ b/xproto/scalar.go
@@ -45,11 +45,12 @@ const smallsString = "00010203040506070809" +
 	"50515253545556575859"
 
 func AppendDuration(p []byte, d time.Duration) []byte {
+	u := uint64(d)
 	if d < 0 {
-		d = -d
+		u = -u // unlike -d, right for the most negative duration as well
 		p = append(p, '-')
 	}
-	i := 2 * (uint(d/time.Minute) % 60)
-	j := 2 * (uint(d/time.Second) % 60)
-	return append(strconv.AppendUint(p, uint64(d/time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
+	i := 2 * (u / uint64(time.Minute) % 60)
+	j := 2 * (u / uint64(time.Second) % 60)
+	return append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
 }
-- 
2.43.0


From 2864e95279302e1d3f8e955cf9f3fbb186fecf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:32 +0000
Subject: [PATCH 10/11] fix: a nil pointer to a type with AppendAny is NULL,
 not a panic

Nil pointers are NULL, but for a pointer to a type with a value receiver
AppendAny, such as *String, the method was called through the nil pointer.
---
 xproto/any.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xproto/any.go b/xproto/any.go
index ad0f38d..45468ef 100644
--- a/xproto/any.go
+++ b/xproto/any.go
@@ -391,16 +391,16 @@ typeSwitch:
 		return appendAnyDuration(p, tag, v), nil
 
 	default:
+		rv := reflect.ValueOf(value)
+		if rv.Kind() == reflect.Ptr && rv.IsNil() {
+			return appendAnyNull(p, tag), nil
+		}
 		if ae, ok := v.(AppendAny); ok {
 			return ae.AppendAny(p, tag)
 		}
 
-		rv := reflect.ValueOf(value)
 		switch rv.Kind() {
 		case reflect.Ptr:
-			if rv.IsNil() {
-				return appendAnyNull(p, tag), nil
-			}
 			value = rv.Elem().Interface()
 			goto typeSwitch
 
-- 
2.43.0


From 6b16d0532183404e5177fae42b21ae7ee97a5f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:48 +0000
Subject: [PATCH 11/11] fix: Decimal.String when the scale exceeds the number
 of digits

The decimal point was dropped (0.05 as digit 5 with scale 2 gave "5"), or,
for a negative number one digit short, put before the sign (".-5").
---
 types/decimal.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/types/decimal.go b/types/decimal.go
index 5e07855..40d3256 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -1,6 +1,7 @@
 package types
 
 import (
+	"bytes"
 	"encoding/binary"
 	"math/bits"
 )
@@ -94,12 +95,18 @@ func (d Decimal) String() string {
 
 	// Scale
 	if s := int(d[0]); s > 0 {
-		// @TODO error?
-		if i := len(b) - s; i >= 0 {
-			b = append(b, 0)
-			copy(b[i+1:], b[i:])
-			b[i] = '.'
+		sign := 0
+		if len(b) > 0 && b[0] == '-' {
+			sign = 1
 		}
+		if n := s - len(b[sign:]); n > 0 {
+			// Fewer digits than the scale, pad with leading zeros.
+			b = append(b[:sign:sign], append(bytes.Repeat([]byte{'0'}, n), b[sign:]...)...)
+		}
+		i := len(b) - s
+		b = append(b, 0)
+		copy(b[i+1:], b[i:])
+		b[i] = '.'
 	}
 	return string(b)
 }
-- 
2.43.0

