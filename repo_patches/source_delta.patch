From f635287ad7432dfa4c17ab663e654dcee550938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:54 +0000
Subject: [PATCH 01/27] fix: reassemble fragmented messages in order and
 dispatch the whole body

The first fragment dereferenced a nil cache entry, out-of-order or repeated
fragments were merged, completed entries were never released, and the last
fragment was dispatched with its own data instead of the merged body.
---
 internal/protocol/packet_codec.go | 10 ++++++++--
 internal/storage/segment_cache.go | 21 +++++++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index bc7c42a..51d1767 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -69,8 +69,14 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 	if pd.Header.IsFragmented() {
 		seg := model.NewSegment(pd)
 		pd.SegCompleted = storage.CacheSegment(seg)
-		// 分包接收完成
-		pd.Body = seg.Data
+		// 分包接收完成，按一条完整消息处理
+		if pd.SegCompleted {
+			pd.Body = seg.Data
+			pd.Header.Attr.BodyLength = uint16(len(pd.Body))
+			pd.Header.Attr.PacketFragmented = 0
+			pd.Header.Attr.PacketFragmentedDesc = model.PacketFragmentedFalse
+			pd.Header.Frag = nil
+		}
 	}
 
 	pd.Header.Idx = 0 // reset idx
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 299356d..75dbaa8 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -35,11 +35,20 @@ func CacheSegment(seg *model.Segment) bool {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	s, ok := cache.cacheByKey[key]
-	if !ok {
-		cache.cacheByKey[key] = seg
-		return s.IsComplete()
+	switch {
+	case seg.SegNo == 1: // 首包，开始(或重新开始)一次分包接收
+		s = seg
+		cache.cacheByKey[key] = s
+	case !ok || seg.SegTotal != s.SegTotal || seg.SegNo != s.SegNo+1:
+		return false // 缺少前序分包、重复或乱序，丢弃
+	default:
+		s.Merge(seg)
 	}
-	s.Merge(seg)
-	// cache.cacheByKey[key] = s
-	return s.IsComplete()
+	if !s.IsComplete() {
+		return false
+	}
+	// 分包接收完成，返回完整消息体
+	delete(cache.cacheByKey, key)
+	seg.Data = s.Data
+	return true
 }
-- 
2.43.0


From dac46b76a20f41913beaa1f8150e796a75d4cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:57 +0000
Subject: [PATCH 02/27] fix: do not dereference a missing session when
 acknowledging a fragment

---
 internal/protocol/msg_processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 9969bc7..06956c1 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -220,6 +220,9 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 		return nil, errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", phone)
 	}
 	session, err := storage.GetSession(device.SessionID)
+	if err != nil {
+		return nil, errors.Wrapf(err, "Fail to find session, phoneNumber=%s", phone)
+	}
 	header := model.GenMsgHeader(device, 0x8001, session.GetNextSerialNum())
 	outgoingMsg := &model.Msg8001{
 		Header:             header,
-- 
2.43.0


From 708a0dc95238b32c58bc7b038d09a77b2271c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:59 +0000
Subject: [PATCH 03/27] fix: stop the keepalive check when the device is no
 longer registered

The job went on to dereference a nil device in the timer goroutine, which
terminates the process.
---
 internal/protocol/keepalive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 7e17ce6..2ec42ff 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -70,6 +70,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
 		t.Cancel(devicePhone)
+		return
 	}
 	if d.ShouleTurnOffline() {
 		// 保活失效
-- 
2.43.0


From dcc948b57a814ec7f7e74e20ec0f598caf95a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:01 +0000
Subject: [PATCH 04/27] fix: take the cache lock when listing devices and
 counting sessions

---
 internal/storage/device_cache.go  | 2 ++
 internal/storage/session_cache.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index f3c447b..5ec9784 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -32,6 +32,8 @@ func GetDeviceCache() *DeviceCache {
 }
 
 func (cache *DeviceCache) ListDevice() []*model.Device {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
 	return maps.Values(cache.cacheByPhone)
 }
 
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 89b623f..1363817 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -74,5 +74,7 @@ func ClearSession(id string) {
 // 统计session个数
 func countSession() int {
 	c := getSessionCache()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	return len(c.cacheByID)
 }
-- 
2.43.0


From 735be614e1b487d5fab378786804c867a67dd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:04 +0000
Subject: [PATCH 05/27] fix: hand out serial numbers from a single atomic
 increment

The separate reset let concurrent senders obtain the same number or read the
counter unsynchronised when it wrapped.
---
 internal/protocol/model/session.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 7a3f0cc..ec7f0fb 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -1,7 +1,6 @@
 package model
 
 import (
-	"math"
 	"net"
 	"sync/atomic"
 )
@@ -43,12 +42,8 @@ func (s *Session) GetTransProto() TransportProtocol {
 }
 
 func (s *Session) GetNextSerialNum() uint16 {
-	next := atomic.AddUint32(&s.serialNumber, 1)
-	if next <= math.MaxUint16 {
-		return uint16(next)
-	}
-	atomic.StoreUint32(&s.serialNumber, 0)
-	return uint16(s.serialNumber)
+	// 截断为uint16，超过最大值后从0循环
+	return uint16(atomic.AddUint32(&s.serialNumber, 1))
 }
 
 // 定义Packet Data结构
-- 
2.43.0


From 7e270b8a42a48862201ef115598896860725ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:06 +0000
Subject: [PATCH 06/27] fix: carry the protocol version into generated headers

Without VersionDesc a header for a 2019 device was encoded with the 2019 bit
set but without the protocol version byte.
---
 internal/protocol/model/header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index e9c5669..9801d22 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -213,6 +213,7 @@ func GenMsgHeader(d *Device, msgID, serialNumber uint16) *MsgHeader {
 			PacketFragmented: 0,
 			VersionSign:      versionDecode(d.VersionDesc),
 			Extra:            0,
+			VersionDesc:      d.VersionDesc,
 		},
 		ProtocolVersion: d.ProtocolVersion,
 		PhoneNumber:     d.Phone,
-- 
2.43.0


From 952800fb664f5cb2f2b559429281e3d45f3abf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:08 +0000
Subject: [PATCH 07/27] fix: encode latitude type in bit 2 and longitude type
 in bit 3

---
 internal/protocol/model/device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/device.go b/internal/protocol/model/device.go
index c2af7cb..280b475 100644
--- a/internal/protocol/model/device.go
+++ b/internal/protocol/model/device.go
@@ -196,8 +196,8 @@ func (g *GeoMeta) Encode() uint32 {
 	var bitNum uint32
 	bitNum += uint32(g.ACCStatus)
 	bitNum += uint32(g.LocationStatus) << 1
-	bitNum += uint32(g.LongitudeType) << 2
-	bitNum += uint32(g.LatitudeType) << 3
+	bitNum += uint32(g.LatitudeType) << 2
+	bitNum += uint32(g.LongitudeType) << 3
 	bitNum += uint32(g.OperatingStatus) << 4
 	bitNum += uint32(g.GeoEncryptionStatus) << 5
 	bitNum += uint32(g.LoadStatus) << 8
-- 
2.43.0


From a69e492c114cb820651839b3f6208c855d97d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:11 +0000
Subject: [PATCH 08/27] fix: skip an unknown terminal parameter instead of
 calling a nil decoder

---
 internal/protocol/model/device_params.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 72a2edb..cc87e1d 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -86,6 +86,8 @@ func (p *ParamData) Decode(pkt []byte, idx *int) error {
 	fn, ok := argTable[p.ParamID]
 	if !ok {
 		log.Warn().Str("ParamID", fmt.Sprintf("0x%04x", p.ParamID)).Err(ErrParamIDNotSupportted).Msg("skip it")
+		hex.ReadBytes(pkt, idx, int(p.ParamLen))
+		return nil
 	}
 	p.ParamValue = fn.decode(pkt, idx, int(p.ParamLen))
 	return nil
-- 
2.43.0


From 2c40c4d3b0710713a6f6294fa2193edc71fb587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:14 +0000
Subject: [PATCH 09/27] fix: write the number of parameters that are actually
 encoded

---
 internal/protocol/model/device_params.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index cc87e1d..8d31da0 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -39,7 +39,8 @@ func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 }
 
 func (p *DeviceParams) Encode() (pkt []byte, err error) {
-	pkt = hex.WriteByte(pkt, p.ParamCnt)
+	var cnt uint8
+	pkt = hex.WriteByte(pkt, cnt)
 	for _, arg := range p.Params {
 		paramBytes, err := arg.Encode()
 		if err != nil {
@@ -48,7 +49,9 @@ func (p *DeviceParams) Encode() (pkt []byte, err error) {
 			continue
 		}
 		pkt = hex.WriteBytes(pkt, paramBytes)
+		cnt++
 	}
+	pkt[0] = cnt // 实际编码的参数项个数
 	return pkt, nil
 }
 
-- 
2.43.0


From 4a4b6979a490041f1ef423d381ddd7f63cbfda27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:17 +0000
Subject: [PATCH 10/27] fix: keep the bytes already written when a GBK string
 cannot be encoded

---
 internal/codec/hex/hex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/codec/hex/hex.go b/internal/codec/hex/hex.go
index 87273f9..9b79850 100644
--- a/internal/codec/hex/hex.go
+++ b/internal/codec/hex/hex.go
@@ -170,7 +170,7 @@ func ReadGBK(pkt []byte, idx *int, n int) string {
 func WriteGBK(pkt []byte, str string) []byte {
 	gbk, err := GBK.UTF82GBK([]byte(str))
 	if err != nil {
-		return []byte{}
+		return pkt
 	}
 	return append(pkt, gbk...)
 }
-- 
2.43.0


From 0273b4d424dfdb9eec06f7746e7362eee3f4301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:56 +0000
Subject: [PATCH 11/27] fix: return the newest element after the ring buffer
 wraps

After every full lap the writer index is 0 and Latest reported an empty buffer.
---
 pkg/container/ring_buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/container/ring_buffer.go b/pkg/container/ring_buffer.go
index 350ddbf..ff6c6d9 100644
--- a/pkg/container/ring_buffer.go
+++ b/pkg/container/ring_buffer.go
@@ -51,10 +51,7 @@ func (r *RingBuffer) Read() any {
 
 // Returns the latest element in the RingBuffer
 func (r *RingBuffer) Latest() any {
-	if r.Writer == 0 {
-		return nil
-	}
-	return r.Container[(atomic.LoadInt32(&r.Writer)-1)%r.Size]
+	return r.Container[(atomic.LoadInt32(&r.Writer)-1+r.Size)%r.Size]
 }
 
 // Returns the oldest element in RingBuffer
-- 
2.43.0


From 3f255659019abe84640d85649638916fd9c44cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:59 +0000
Subject: [PATCH 12/27] fix: serialise access to the ring buffer

Connections and HTTP handlers write and read the same buffer concurrently; the
slots were accessed without synchronisation and two writers could lose a record.
---
 pkg/container/ring_buffer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/container/ring_buffer.go b/pkg/container/ring_buffer.go
index ff6c6d9..8819b7a 100644
--- a/pkg/container/ring_buffer.go
+++ b/pkg/container/ring_buffer.go
@@ -6,7 +6,10 @@
 // from the current position and update it.
 package container
 
-import "sync/atomic"
+import (
+	"sync"
+	"sync/atomic"
+)
 
 // RingBuffer Structure
 type RingBuffer struct {
@@ -14,6 +17,8 @@ type RingBuffer struct {
 	Container []any // Array container of objects
 	Reader    int32 // Reader position
 	Writer    int32 // Writer Position
+
+	mutex sync.Mutex // guards Container and both positions
 }
 
 // Create a new RingBuffer of initial size "size"
@@ -29,6 +34,8 @@ func NewRingBuffer(size int32) *RingBuffer {
 
 // Write object into the RingBuffer
 func (r *RingBuffer) Write(v any) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	current := atomic.LoadInt32(&r.Writer)
 	r.Container[current] = v
 	next := (current + 1) % r.Size
@@ -45,21 +52,29 @@ func (r *RingBuffer) seekReader(delta int32) {
 
 // Read single object from the RingBuffer
 func (r *RingBuffer) Read() any {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	defer r.seekReader(1)
 	return r.Container[atomic.LoadInt32(&r.Reader)]
 }
 
 // Returns the latest element in the RingBuffer
 func (r *RingBuffer) Latest() any {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	return r.Container[(atomic.LoadInt32(&r.Writer)-1+r.Size)%r.Size]
 }
 
 // Returns the oldest element in RingBuffer
 func (r *RingBuffer) Oldest() any {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	return r.Container[atomic.LoadInt32(&r.Writer)]
 }
 
 // Overwrites the latest data in RingBuffer
 func (r *RingBuffer) Overwrite(v any) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.Container[atomic.LoadInt32(&r.Writer)] = v
 }
-- 
2.43.0


From 0dba99422b4beed32a7c735dad33a8646d018d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:01 +0000
Subject: [PATCH 13/27] fix: stop handling an HTTP request after reporting an
 error

The params handlers went on with a nil session or unbound parameters, and the
geo handler answered an empty 200 when no position is known.
---
 internal/api/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/api/api.go b/internal/api/api.go
index 410aaa6..aaa77cf 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -42,6 +42,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		}
 		gis, err := geoCache.GetGeoLatestByPhone(phone)
 		if err != nil {
+			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
 		res["gis"] = gis
@@ -59,6 +60,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8104, session.GetNextSerialNum())
 		msg := model.Msg8104{
@@ -73,6 +75,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		params := model.DeviceParams{}
 		if err := c.ShouldBind(&params); err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		device, err := cache.GetDeviceByPhone(phone)
 		if err != nil {
@@ -82,6 +85,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8103, session.GetNextSerialNum())
 		msg := model.Msg8103{
-- 
2.43.0


From dd8503870f59bb81e8455cf1b5f2ac7af5699185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:03 +0000
Subject: [PATCH 14/27] fix: answer server time queries (0x0004) with 0x8004 as
 documented

---
 internal/protocol/msg_processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 06956c1..7879a6c 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -58,6 +58,11 @@ func initProcessOption() processOptions {
 		},
 		process: processMsg0003,
 	}
+	options[0x0004] = &action{ // 查询服务器时间
+		genData: func() *model.ProcessData {
+			return &model.ProcessData{Incoming: &model.Msg0004{}, Outgoing: &model.Msg8004{}}
+		},
+	}
 	options[0x0100] = &action{ // 注册
 		genData: func() *model.ProcessData {
 			return &model.ProcessData{Incoming: &model.Msg0100{}, Outgoing: &model.Msg8100{}}
-- 
2.43.0


From d22199ff7a9283c8851a449274a2109d19cbc93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:05 +0000
Subject: [PATCH 15/27] fix: drop the position history together with the device
 record

A device registered later under the same phone was shown the position of the
removed one.
---
 internal/protocol/msg_processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 7879a6c..f9bedf8 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -267,6 +267,7 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 	timer.Cancel(device.Phone)
 	// 清楚缓存
 	cache.DelDeviceByPhone(device.Phone)
+	storage.GetGeoCache().DelGeoByPhone(device.Phone)
 	// 为避免连接TIMEWAIT，应等待对方主动关闭
 	return nil
 }
@@ -320,6 +321,7 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		timer.Cancel(device.Phone)
 		// 删除设备缓存
 		cache.DelDeviceByPhone(device.Phone)
+		storage.GetGeoCache().DelGeoByPhone(device.Phone)
 	} else {
 		// 鉴权通过
 		device.Status = model.DeviceStatusOnline
-- 
2.43.0


From 24a4986cd5e5e5325d8bb2af84c672582cf91ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:07 +0000
Subject: [PATCH 16/27] fix: check and insert a registration atomically

Two terminals registering the same plate or phone at the same time could both
succeed.
---
 internal/protocol/msg_processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index f9bedf8..909bd5d 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -272,6 +272,9 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 	return nil
 }
 
+// 注册的查重和写入需要整体互斥
+var registerMutex sync.Mutex
+
 // 收到注册，应校验设备ID，如果可注册，则缓存设备信息并返回鉴权码
 func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg0100)
@@ -279,6 +282,8 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 	cache := storage.GetDeviceCache()
 	// 校验注册逻辑
 	out := data.Outgoing.(*model.Msg8100)
+	registerMutex.Lock()
+	defer registerMutex.Unlock()
 	// 车辆已被注册
 	if cache.HasPlate(in.PlateNumber) {
 		out.Result = model.ResCarAlreadyRegister
-- 
2.43.0


From f0362d1060a452ddc108f09d94826ae4e57bbdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:09 +0000
Subject: [PATCH 17/27] fix: hand out copies of cached devices

Connections, the keepalive timer and HTTP handlers shared the cached record and
read and wrote its fields without synchronisation. Every writer already stores
the record back with CacheDevice.
---
 internal/storage/device_cache.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index 5ec9784..9ced841 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -31,17 +31,27 @@ func GetDeviceCache() *DeviceCache {
 	return deviceCacheSingleton
 }
 
+// 返回副本，避免缓存中的记录在锁外被并发读写
+func copyDevice(d *model.Device) *model.Device {
+	c := *d
+	return &c
+}
+
 func (cache *DeviceCache) ListDevice() []*model.Device {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
-	return maps.Values(cache.cacheByPhone)
+	devices := maps.Values(cache.cacheByPhone)
+	for i, d := range devices {
+		devices[i] = copyDevice(d)
+	}
+	return devices
 }
 
 func (cache *DeviceCache) GetDeviceByPlate(carPlate string) (*model.Device, error) {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	if d, ok := cache.cacheByPlate[carPlate]; ok {
-		return d, nil
+		return copyDevice(d), nil
 	}
 	return nil, ErrDeviceNotFound
 }
@@ -55,7 +65,7 @@ func (cache *DeviceCache) GetDeviceByPhone(phone string) (*model.Device, error)
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	if d, ok := cache.cacheByPhone[phone]; ok {
-		return d, nil
+		return copyDevice(d), nil
 	}
 	return nil, ErrDeviceNotFound
 }
-- 
2.43.0


From 134285e73f8c5994fd278c528d098dd46f1f8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:11 +0000
Subject: [PATCH 18/27] fix: leave the accept loop once the listener is closed

---
 internal/server/tcp_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index c9706e4..5b02e2b 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -45,6 +45,9 @@ func (serv *TCPServer) Start() {
 		conn, err := serv.listener.Accept()
 		if err != nil {
 			log.Error().Err(err).Msg("Fail to do listener accept")
+			if errors.Is(err, net.ErrClosed) {
+				return // listener was stopped
+			}
 		} else {
 			session := serv.accept(conn)
 			routines.GoSafe(func() { serv.serve(session) })
-- 
2.43.0


From 6e5a3fedabb72fedf58a2e0ac16f9f9abd81e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:14 +0000
Subject: [PATCH 19/27] fix: refuse to encode a body longer than the length
 field can express

A longer body overflowed into the encryption and fragmentation bits.
---
 internal/protocol/model/msg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/model/msg.go b/internal/protocol/model/msg.go
index 760a373..583fce4 100644
--- a/internal/protocol/model/msg.go
+++ b/internal/protocol/model/msg.go
@@ -25,6 +25,9 @@ type JT808Msg interface {
 }
 
 func writeHeader(m JT808Msg, pkt []byte) ([]byte, error) {
+	if len(pkt) > int(bodyLengthBit) { // 消息体长度字段仅10位
+		return nil, ErrEncodeMsg
+	}
 	m.GetHeader().Attr.BodyLength = uint16(len(pkt))
 	headerPkt, err := m.GetHeader().Encode()
 	if err != nil {
-- 
2.43.0


From e5796bd24c2382473a55bda27868e293c240c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:17 +0000
Subject: [PATCH 20/27] fix: keep IMEI and software version at their fixed
 widths

Longer values shifted every following byte of the authentication message.
---
 internal/protocol/model/msg_0102.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/msg_0102.go b/internal/protocol/model/msg_0102.go
index 2d50696..d97df60 100644
--- a/internal/protocol/model/msg_0102.go
+++ b/internal/protocol/model/msg_0102.go
@@ -47,13 +47,13 @@ func (m *Msg0102) Encode() (pkt []byte, err error) {
 		for i := 0; i < toFillLen; i++ {
 			im = append(im, fillByte)
 		}
-		pkt = append(pkt, im...)
+		pkt = append(pkt, im[:15]...)
 		sv := []byte(m.SoftwareVersion)
 		toFillLen = 20 - len(m.SoftwareVersion)
 		for i := 0; i < toFillLen; i++ {
 			sv = append(sv, fillByte)
 		}
-		pkt = append(pkt, sv...)
+		pkt = append(pkt, sv[:20]...)
 	}
 
 	pkt, err = writeHeader(m, pkt)
-- 
2.43.0


From 593315a8e62b401dff7c26f7cea8fc55234f9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:19 +0000
Subject: [PATCH 21/27] fix: bind the device to the connection it authenticates
 on

After a reconnect the record kept pointing at the closed session, so downlink
commands and the final close went to the wrong connection.
---
 internal/protocol/msg_processor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 909bd5d..41e1a3a 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -307,7 +307,7 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 }
 
 // 收到鉴权，应校验鉴权token
-func processMsg0102(_ context.Context, data *model.ProcessData) error {
+func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg0102)
 
 	cache := storage.GetDeviceCache()
@@ -334,6 +334,12 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		device.AuthCode = in.AuthCode
 		device.IMEI = in.IMEI
 		device.SoftwareVersion = in.SoftwareVersion
+		// 终端可能在新的连接上鉴权，后续下发使用当前连接
+		if session, ok := ctx.Value(model.SessionCtxKey{}).(*model.Session); ok {
+			device.SessionID = session.ID
+			device.TransProto = session.GetTransProto()
+			device.Conn = session.Conn
+		}
 		cache.CacheDevice(device)
 	}
 
-- 
2.43.0


From 5b645e34c78549c99760830091fce83fcfc6510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:41 +0000
Subject: [PATCH 22/27] fix: hand out copies of cached terminal parameters

A set request replaced the parameter list of the shared record while a query was
encoding it. The writer already stores the record back.
---
 internal/storage/param_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/storage/param_cache.go b/internal/storage/param_cache.go
index 48be88c..4515db1 100644
--- a/internal/storage/param_cache.go
+++ b/internal/storage/param_cache.go
@@ -32,7 +32,8 @@ func (cache *DeviceParamsCache) GetDeviceParamsByPhone(phone string) (*model.Dev
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	if d, ok := cache.cacheByPhone[phone]; ok {
-		return d, nil
+		c := *d // 返回副本，避免缓存中的记录在锁外被并发读写
+		return &c, nil
 	}
 	return nil, ErrDeviceParamsNotFound
 }
-- 
2.43.0


From ab617caf8a7321b403dde23ad2baa302d8bc3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:13 +0000
Subject: [PATCH 23/27] fix: refuse a terminal parameter longer than its length
 byte can express

---
 internal/protocol/model/device_params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 8d31da0..4d6af4e 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/pkg/errors"
@@ -100,6 +101,9 @@ func (p *ParamData) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteDoubleWord(pkt, p.ParamID)
 	if fn, ok := argTable[p.ParamID]; ok {
 		value := fn.encode(p.ParamValue)
+		if len(value) > math.MaxUint8 { // 参数长度字段只有一个字节
+			return nil, ErrEncodeDeviceParams
+		}
 		pkt = hex.WriteByte(pkt, uint8(len(value)))
 		pkt = hex.WriteBytes(pkt, value)
 		return pkt, nil
-- 
2.43.0


From 7718ba4852959c7cebd6326d4d611e0145fddb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:04 +0000
Subject: [PATCH 24/27] fix: a closing connection removes only its own session

---
 internal/server/tcp_server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index 5b02e2b..006c4d8 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -79,7 +79,10 @@ func (serv *TCPServer) remove(session *model.Session) {
 	defer serv.mutex.Unlock()
 
 	session.Conn.Close()
-	storage.ClearSession(session.ID)
+	// 同一地址的新连接可能已经缓存了新的session，此时不能清理
+	if cached, err := storage.GetSession(session.ID); err == nil && cached == session {
+		storage.ClearSession(session.ID)
+	}
 	// delete(serv.sessions, session.ID)
 
 	log.Debug().Str("id", session.ID).Msg("Closing connection from remote.")
-- 
2.43.0


From 6c6884d08d88c7a0f89630653f9cbc66f9ced6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:25 +0000
Subject: [PATCH 25/27] fix: spell the FATAL log level so that it can be
 configured

---
 internal/config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9a6aa0b..d35b55f 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -16,7 +16,7 @@ import (
 type LogLevelType string
 
 const (
-	LogLevelFatal LogLevelType = "FATAl"
+	LogLevelFatal LogLevelType = "FATAL"
 	LogLevelError LogLevelType = "ERROR"
 	LogLevelWarn  LogLevelType = "WARN"
 	LogLevelInfo  LogLevelType = "INFO"
@@ -189,7 +189,7 @@ func (c *Config) ParseLogConf() *logger.Config {
 		logLevel = int8(zerolog.WarnLevel)
 	case "ERROR":
 		logLevel = int8(zerolog.ErrorLevel)
-	case "FATAl":
+	case "FATAL":
 		logLevel = int8(zerolog.FatalLevel)
 	}
 	return &logger.Config{
-- 
2.43.0


From 159a2881e7c42e87151191b6a0f7248378e49094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:25 +0000
Subject: [PATCH 26/27] fix: make each lookup, decision and update of a
 terminal's record one critical section

A heartbeat, authentication or position report read the record, changed the
copy and stored it without holding a lock in between. A logout, failed
authentication or keepalive clearing in that window was undone (the terminal
was stored again without supervision), and the keepalive job could overwrite
a newer communication time and turn a live terminal offline.
---
 internal/protocol/keepalive.go     |  2 ++
 internal/protocol/msg_processor.go | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 2ec42ff..67d4280 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -64,6 +64,8 @@ func (j *CheckDeviceJob) Run() {
 // 2. 当前离线，缓存保留3倍保活时间
 func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	log.Debug().Str("device", devicePhone).Msg("Check device keepalive status")
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	cache := storage.GetDeviceCache()
 	gisCache := storage.GetGeoCache()
 	d, err := cache.GetDeviceByPhone(devicePhone)
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 41e1a3a..8a55138 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -240,6 +240,8 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 
 // 收到心跳，应刷新终端缓存有效期
 func processMsg0002(_ context.Context, data *model.ProcessData) error {
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	cache := storage.GetDeviceCache()
 	device, err := cache.GetDeviceByPhone(data.Incoming.GetHeader().PhoneNumber)
 
@@ -256,6 +258,8 @@ func processMsg0002(_ context.Context, data *model.ProcessData) error {
 
 // 收到注销，应清除缓存，断开连接。
 func processMsg0003(_ context.Context, data *model.ProcessData) error {
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	cache := storage.GetDeviceCache()
 	device, err := cache.GetDeviceByPhone(data.Incoming.GetHeader().PhoneNumber)
 	// 缓存不存在，说明设备不合法，需要返回错误，让服务层处理关闭
@@ -272,8 +276,8 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 	return nil
 }
 
-// 注册的查重和写入需要整体互斥
-var registerMutex sync.Mutex
+// 设备缓存的查询、判断和写入(或删除)需要整体互斥，避免并发处理互相覆盖，或把已删除的设备写回
+var deviceMutex sync.Mutex
 
 // 收到注册，应校验设备ID，如果可注册，则缓存设备信息并返回鉴权码
 func processMsg0100(ctx context.Context, data *model.ProcessData) error {
@@ -282,8 +286,8 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 	cache := storage.GetDeviceCache()
 	// 校验注册逻辑
 	out := data.Outgoing.(*model.Msg8100)
-	registerMutex.Lock()
-	defer registerMutex.Unlock()
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	// 车辆已被注册
 	if cache.HasPlate(in.PlateNumber) {
 		out.Result = model.ResCarAlreadyRegister
@@ -310,6 +314,8 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg0102)
 
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	cache := storage.GetDeviceCache()
 	device, err := cache.GetDeviceByPhone(in.Header.PhoneNumber)
 	// 缓存不存在，说明设备不合法，需要返回错误，让服务层处理关闭
@@ -367,6 +373,8 @@ func processMsg0104(_ context.Context, _ *model.ProcessData) error {
 func processMsg0200(_ context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg0200)
 
+	deviceMutex.Lock()
+	defer deviceMutex.Unlock()
 	cache := storage.GetDeviceCache()
 	device, err := cache.GetDeviceByPhone(in.Header.PhoneNumber)
 	// 缓存不存在，说明设备不合法，需要返回错误，让服务层处理关闭
@@ -399,6 +407,8 @@ func processMsg8001(_ context.Context, data *model.ProcessData) error {
 	// 收到8001消息，说明此时是作为终端设备
 	if in.Result == model.ResultSuccess {
 		// 回复成功，说明之前注册成功，为方便后续处理，将设备状态改为Online并缓存
+		deviceMutex.Lock()
+		defer deviceMutex.Unlock()
 		cache := storage.GetDeviceCache()
 		device, err := cache.GetDeviceByPhone(in.Header.PhoneNumber)
 		if errors.Is(err, storage.ErrDeviceNotFound) {
-- 
2.43.0


From 5f8322e0ef4c2613c29ae59175a420e2e9020ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:06 +0000
Subject: [PATCH 27/27] fix: keep fragments of every message id apart

WriteRune maps all ids in 0xd800-0xdfff to U+FFFD, so parts of different
messages shared one cache entry.
---
 internal/storage/segment_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 75dbaa8..c1eaa5a 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -1,6 +1,7 @@
 package storage
 
 import (
+	"strconv"
 	"strings"
 	"sync"
 
@@ -29,7 +30,7 @@ func CacheSegment(seg *model.Segment) bool {
 	b := new(strings.Builder)
 	b.WriteString(seg.Phone)
 	b.WriteString("/")
-	b.WriteRune(rune(seg.MsgID))
+	b.WriteString(strconv.Itoa(int(seg.MsgID)))
 	key := b.String()
 	cache := getSegmentCache()
 	cache.mutex.Lock()
-- 
2.43.0

