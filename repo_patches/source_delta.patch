From aba360351110b19b27860a72085fc96af103b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 01/31] fix: boripserver: declare curFreq in scope so that the
 server compiles

---
 boripserver/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index c945a91..48ec637 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -105,7 +105,8 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resDevice, "no active device")
 		}
 		if len(args) == 0 {
-			if curFreq, err := cli.dev.rtlDev.GetCenterFreq(); err != nil {
+			curFreq, err := cli.dev.rtlDev.GetCenterFreq()
+			if err != nil {
 				return cli.sendResponse(cmd, "-", "failed to get frequency")
 			}
 			return cli.sendResponse(cmd, strconv.FormatUint(uint64(curFreq), 10))
-- 
2.43.0


From 0226e1ec4a9934a48c7b79ebf8a001749d2c69c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 02/31] fix: boripserver: end a stream exactly once and wait
 for it in STOP

Closing closeChan twice crashed the server, GO after STOP answered RUNNING
until the next transfer, and packets were still sent after STOP OK.
---
 boripserver/main.go | 54 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 48ec637..3a4f0c6 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -19,6 +19,7 @@ import (
 	"runtime/pprof"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/samuel/go-dsp/dsp"
 )
@@ -71,12 +72,13 @@ var (
 )
 
 type client struct {
-	conn      net.Conn
-	rd        *bufio.Reader
-	wr        *bufio.Writer
-	dest      *net.UDPAddr
-	dev       *device
-	closeChan chan bool
+	conn     net.Conn
+	rd       *bufio.Reader
+	wr       *bufio.Writer
+	dest     *net.UDPAddr
+	dev      *device
+	stopChan chan struct{} // closed to ask the stream to end
+	doneChan chan struct{} // closed when the stream has ended
 }
 
 func (cli *client) sendResponse(cmd string, args ...string) error {
@@ -298,14 +300,25 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 }
 
 func (cli *client) isStreaming() bool {
-	return cli.closeChan != nil
+	if cli.doneChan == nil {
+		return false
+	}
+	select {
+	case <-cli.doneChan:
+		return false
+	default:
+		return true
+	}
 }
 
 func (cli *client) stopStreaming() {
-	if !cli.isStreaming() {
+	if cli.doneChan == nil {
 		return
 	}
-	close(cli.closeChan)
+	close(cli.stopChan)
+	<-cli.doneChan
+	cli.stopChan = nil
+	cli.doneChan = nil
 }
 
 func (cli *client) startStreaming() error {
@@ -324,7 +337,14 @@ func (cli *client) startStreaming() error {
 		return err
 	}
 
-	cli.closeChan = make(chan bool, 1)
+	stop := make(chan struct{})
+	done := make(chan struct{})
+	var once sync.Once
+	finish := func() {
+		once.Do(func() {
+			close(done)
+		})
+	}
 	bufOut := make([]byte, headerSize+samplesPerPacket*2*2)
 	bufOut[0] = flagStreamStart
 	bufOut[1] = 0 // notification: reserved (currently 0)
@@ -332,15 +352,15 @@ func (cli *client) startStreaming() error {
 	seq := 0
 
 	// cli.dev.rtlDev.ReadAsyncUsingSync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
-	cli.dev.rtlDev.ReadAsync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
+	if err := cli.dev.rtlDev.ReadAsync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 		if buf == nil {
-			cli.closeChan = nil
+			finish()
 			return true
 		}
 
 		select {
-		case _ = <-cli.closeChan:
-			cli.closeChan = nil
+		case <-stop:
+			finish()
 			return true
 		default:
 		}
@@ -368,8 +388,12 @@ func (cli *client) startStreaming() error {
 		}
 
 		return false
-	})
+	}); err != nil {
+		return err
+	}
 
+	cli.stopChan = stop
+	cli.doneChan = done
 	return nil
 }
 
-- 
2.43.0


From d06a69b86f66ebc1505e3396a6a81857bee36f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 03/31] fix: boripserver: close the data socket when a stream
 ends or fails to start

---
 boripserver/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boripserver/main.go b/boripserver/main.go
index 3a4f0c6..0cc3665 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -334,6 +334,7 @@ func (cli *client) startStreaming() error {
 		return err
 	}
 	if err := cli.dev.rtlDev.ResetBuffer(); err != nil {
+		conn.Close()
 		return err
 	}
 
@@ -342,6 +343,7 @@ func (cli *client) startStreaming() error {
 	var once sync.Once
 	finish := func() {
 		once.Do(func() {
+			conn.Close()
 			close(done)
 		})
 	}
@@ -389,6 +391,7 @@ func (cli *client) startStreaming() error {
 
 		return false
 	}); err != nil {
+		finish()
 		return err
 	}
 
-- 
2.43.0


From bcbab1e4254d2e6712b91f004177df5d1dc085b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 04/31] fix: boripserver: send every part of a transfer, not
 its first packet repeatedly

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 0cc3665..1b8e8a7 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -377,7 +377,7 @@ func (cli *client) startStreaming() error {
 			bufOut[3] = uint8(seq >> 8)
 			seq++
 
-			dsp.Ui8toi16b(buf[:nValues], bufOut[headerSize:])
+			dsp.Ui8toi16b(buf[bufferOffset:bufferOffset+nValues], bufOut[headerSize:])
 
 			if _, err := conn.Write(bufOut[:headerSize+nValues*2]); err != nil {
 				// TODO: what to do if not "connection refused"?
-- 
2.43.0


From 58c12c26c5b6bb17edc568038623839ce737c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 05/31] fix: boripserver: do not crash on tuners with fewer
 than two gains

---
 boripserver/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 1b8e8a7..b18910a 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -261,10 +261,12 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			gains, err := dev.rtlDev.GetTunerGains()
 			if err != nil {
 				log.Printf("Failed to get tuner gains: %s", err.Error())
-			} else {
+			} else if len(gains) > 0 {
 				minGain = float64(gains[0])
 				maxGain = float64(gains[len(gains)-1])
-				gainStep = float64(gains[1] - gains[0])
+				if len(gains) > 1 {
+					gainStep = float64(gains[1] - gains[0])
+				}
 			}
 			// if debug {
 			// 	log.Printf("Gains: %+v", gains)
-- 
2.43.0


From 34d218a875a3600ccae34f7b71d9e551666f179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 06/31] fix: boripserver: report the tuner crystal frequency
 instead of always 0

---
 boripserver/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index b18910a..10a89a9 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -274,7 +274,6 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			_, tunerFreq, err := dev.rtlDev.GetXtalFreq()
 			if err != nil {
 				log.Printf("Failed to get tuner frequency: %s", err.Error())
-			} else {
 				tunerFreq = 0
 			}
 			// <DEVICE NAME>|<MIN GAIN>|<MAX GAIN>|<GAIN STEP>|<FPGA FREQ IN HZ>|<COMPLEX SAMPLE PAIRS PER PACKET>|<CSV LIST OF VALID ANTENNAS>[|<DEVICE SERIAL NUMBER>]
-- 
2.43.0


From 82be14bf895a38e10e5bb90b92d20a2840635cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 07/31] fix: boripserver: report negative gains as such

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 10a89a9..85c2c69 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -178,7 +178,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if err != nil {
 			return cli.sendResponse(cmd, resFail, "failed to get gain")
 		}
-		return cli.sendResponse(cmd, resOK, strconv.FormatUint(uint64(curGain), 10))
+		return cli.sendResponse(cmd, resOK, strconv.Itoa(curGain))
 	case cmdDest:
 		if len(args) == 0 {
 			if cli.dest == nil {
-- 
2.43.0


From 30601452fdf0489f78d3bc9c6b8dd2ae6fd97fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 08/31] fix: boripserver: answer an ANTENNA query with the
 antenna like other queries

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 85c2c69..b72e1ee 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -132,7 +132,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if len(args) > 0 {
 			return cli.sendResponse(cmd, resOK)
 		}
-		return cli.sendResponse(cmd, resOK, "default")
+		return cli.sendResponse(cmd, "default")
 	case cmdRate:
 		if cli.dev == nil {
 			return cli.sendResponse(cmd, resDevice, "no active device")
-- 
2.43.0


From 98534f9606cfb26b727b2137d2db8228e8b0f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 09/31] fix: boripserver: include the address in the DEST
 reply, which the client requires

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index b72e1ee..f5dc656 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -192,7 +192,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resFail, "failed to resolve address")
 		}
 		cli.dest = addr
-		return cli.sendResponse(cmd, resOK)
+		return cli.sendResponse(cmd, resOK, cli.dest.String())
 	case cmdGo:
 		if cli.dest == nil {
 			return cli.sendResponse(cmd, resFail, "no DEST set")
-- 
2.43.0


From a3dca107c959a0d32fd67dc0b20aad564bab5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 10/31] fix: borip: do not panic when a RATE reply carries no
 rate

---
 borip/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/client.go b/borip/client.go
index 3966159..4ef9a83 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -190,7 +190,7 @@ func (bor *BorIP) SetRate(rate float64) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	parts, err := parseAndCheck(res, 1)
+	parts, err := parseAndCheck(res, 2)
 	if err != nil {
 		return 0.0, err
 	}
-- 
2.43.0


From 912eb84c67d2bae46b54628fe9001e89cde8111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 11/31] fix: borip: return error replies to DEST and ANTENNA
 queries as errors, not values

---
 borip/client.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index 4ef9a83..9d564a4 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -178,10 +178,7 @@ func (bor *BorIP) Antenna() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	if len(res) < 8 {
-		return "", ErrUnexpectedResponse
-	}
-	return res[8:], nil
+	return parseValue(res)
 }
 
 // Return the actual sampling rate (closest)
@@ -246,10 +243,7 @@ func (bor *BorIP) Destination() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	if len(res) < 5 {
-		return "", ErrUnexpectedResponse
-	}
-	return res[5:], nil
+	return parseValue(res)
 }
 
 func (bor *BorIP) SetHeaderEnabled(enabled bool) error {
@@ -320,6 +314,19 @@ func parseAndCheck(res string, minArgs int) ([]string, error) {
 	return resParts, nil
 }
 
+// parseValue returns the value from the response to a query.
+func parseValue(res string) (string, error) {
+	resParts := strings.Split(res, " ")
+	if len(resParts) < 2 {
+		return "", ErrUnexpectedResponse
+	}
+	switch resParts[1] {
+	case "-", "FAIL", "DEVICE", "UNKNOWN":
+		return "", makeErrorResponse(resParts[1:])
+	}
+	return strings.Join(resParts[1:], " "), nil
+}
+
 func (bor *BorIP) command(cmd string, args ...string) (string, error) {
 	argString := ""
 	if len(args) > 0 {
-- 
2.43.0


From 0d88f45b60c4d989b665c36e93c63a4fcec5e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 12/31] fix: borip: accept device descriptions without the
 optional serial number

---
 borip/client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index 9d564a4..4929754 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -39,12 +39,15 @@ type Device struct {
 func parseDeviceString(st string) (*Device, error) {
 	// Terratec NOXON (rev 3)|-5.000000|30.000000|1.000000|3200000.000000|16256|(Default)|Terratec NOXON (rev 3)
 	deviceParts := strings.Split(st, "|")
-	if len(deviceParts) < 8 {
+	if len(deviceParts) < 7 {
 		return nil, ErrUnexpectedResponse
 	}
 	d := &Device{
-		Name:   deviceParts[0],
-		Serial: deviceParts[7],
+		Name: deviceParts[0],
+	}
+	// The serial number is optional
+	if len(deviceParts) > 7 {
+		d.Serial = deviceParts[7]
 	}
 	var err error
 	if d.MinGain, err = strconv.ParseFloat(deviceParts[1], 64); err != nil {
-- 
2.43.0


From 805e427a0b5a61b056eca2c6cf6cdd4f090299a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 13/31] fix: borip: close the connection when the server's
 hello cannot be read

---
 borip/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/borip/client.go b/borip/client.go
index 4929754..bbfdabf 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -92,6 +92,7 @@ func Dial(addr string) (*BorIP, error) {
 	}
 	line, err := bor.rd.ReadString('\n')
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	line = strings.TrimSpace(line)
-- 
2.43.0


From 3285eb948f42f3bc053f8600efb01ddb3b1cb819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 14/31] fix: borip: keep samples that do not fit the buffer and
 do not panic on partial samples

---
 borip/packet.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/borip/packet.go b/borip/packet.go
index aed4de9..838ca28 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -9,6 +9,7 @@ import (
 const (
 	defaultBufferSize = 256 * 1024
 	packetHeaderSize  = 4
+	sampleSize        = 4
 )
 
 var ErrShortPacket = errors.New("borip: short packet")
@@ -52,31 +53,31 @@ func (rd *PacketReader) Header() PacketHeader {
 }
 
 func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
-	if rd.bufI >= rd.bufN {
+	if rd.bufN-rd.bufI < sampleSize {
+		// Nothing is left of the previous packet but possibly a partial sample
+		rd.bufI, rd.bufN = 0, 0
 		n, _, err := rd.conn.ReadFrom(rd.buf)
 		if err != nil {
 			return 0, err
 		}
-		rd.bufI = 0
-		rd.bufN = n
 		if rd.withHeaders {
 			if n < packetHeaderSize {
 				return 0, ErrShortPacket
 			}
-			rd.header.Flags = rd.buf[rd.bufI]
-			rd.header.Notification = rd.buf[rd.bufI+1]
+			rd.header.Flags = rd.buf[0]
+			rd.header.Notification = rd.buf[1]
 			rd.header.Idx = binary.LittleEndian.Uint16(rd.buf[2:4])
-			rd.bufI += 4
+			rd.bufI = packetHeaderSize
 		}
-		// rd.bufN = n - (n & 7)
+		rd.bufN = n
 	}
 	idx := 0
-	for rd.bufI < rd.bufN {
+	for idx < len(samples) && rd.bufN-rd.bufI >= sampleSize {
 		iReal := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI : rd.bufI+2]))
 		qQmag := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI+2 : rd.bufI+4]))
 		samples[idx] = complex(float64(iReal), float64(qQmag))
 		idx++
-		rd.bufI += 4
+		rd.bufI += sampleSize
 	}
 	return idx, nil
 }
-- 
2.43.0


From 7301bbcc4e8e2f3138a79d7bc66ce1fd0e4b4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 15/31] fix: ax25: decode the destination of FlexNet headers
 correctly

---
 dsp/ax25/hdlc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index ffbed6d..8055211 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -80,13 +80,13 @@ func (ax *AX25) processFrame() *Frame {
 		frame.V1 = false
 		frame.Command = (buf[1] & 2) != 0
 		var dest []byte
-		if i := (buf[2] >> 2) & 0x2f; i != 0 {
+		if i := (buf[2] >> 2) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[2] << 4) | ((buf[3]>>4)&0xf)&0x3f; i != 0 {
+		if i := ((buf[2] << 4) | ((buf[3] >> 4) & 0xf)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[3] << 2) | ((buf[4]>>6)&3)&0x3f; i != 0 {
+		if i := ((buf[3] << 2) | ((buf[4] >> 6) & 3)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
 		if i := buf[4] & 0x3f; i != 0 {
-- 
2.43.0


From 69ca66f76a4aac7420819139f0336300da77e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 16/31] fix: ax25: do not let returned frames share the receive
 buffer

---
 dsp/ax25/hdlc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index 8055211..256307a 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -169,7 +169,8 @@ func (ax *AX25) processFrame() *Frame {
 
 	if frame.Type == IFrame || (frame.Type == UFrame && frame.UnnumberedType == UI) {
 		frame.PID = PID(buf[0])
-		frame.Info = buf[1:]
+		// The receive buffer is reused for the next frame
+		frame.Info = append([]byte(nil), buf[1:]...)
 	}
 	return &frame
 }
-- 
2.43.0


From 25d600ae68e5bb22cc2e4774bc65c115f4ea928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 17/31] fix: dsp: Ui8tof32 and I8tof32 wrote past the end of
 misaligned outputs

After stepping to an aligned output address the amd64 versions rounded the
total length down to a multiple of 16 instead of what was left, and so wrote
up to 15 elements too many.
---
 dsp/conversion_amd64.s      | 2 ++
 dsp/conversion_avo_amd64.go | 2 ++
 dsp/conversion_avo_amd64.s  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index db943df..5eb6cdf 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -354,7 +354,9 @@ i8tof32_align:
 i8tof32_aligned:
 
 	MOVQ CX, DX
+	SUBQ AX, DX
 	ANDQ $(~15), DX
+	ADDQ AX, DX
 	CMPQ AX, DX
 	JGE  i8tof32_stepper
 
diff --git a/dsp/conversion_avo_amd64.go b/dsp/conversion_avo_amd64.go
index 3e589d5..ace8e74 100644
--- a/dsp/conversion_avo_amd64.go
+++ b/dsp/conversion_avo_amd64.go
@@ -47,7 +47,9 @@ func main() {
 	Label("ui8tof32_aligned")
 	n := GP64()
 	MOVQ(inputLen, n)
+	SUBQ(index, n)
 	ANDQ(U32(^uint32(15)), n)
+	ADDQ(index, n)
 	CMPQ(index, n)
 	JGE(LabelRef("ui8tof32_stepper"))
 
diff --git a/dsp/conversion_avo_amd64.s b/dsp/conversion_avo_amd64.s
index 4735153..c0bcd3b 100644
--- a/dsp/conversion_avo_amd64.s
+++ b/dsp/conversion_avo_amd64.s
@@ -44,7 +44,9 @@ ui8tof32_align:
 
 ui8tof32_aligned:
 	MOVQ   CX, SI
+	SUBQ   BX, SI
 	ANDQ   $0xfffffff0, SI
+	ADDQ   BX, SI
 	CMPQ   BX, SI
 	JGE    ui8tof32_stepper
 	CMPB   ·useSSE4+0(SB), $0x01
-- 
2.43.0


From 919e00c6689360fd40848a3c261349bf5b4e3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 18/31] fix: dsp: clamp out of range values the same everywhere
 in F32toi16

The amd64 vector loop saturated, except for values above the range of 32-bit
integers, while the last samples of a block wrapped around.
---
 dsp/conversion.go      | 17 ++++++++++++++---
 dsp/conversion_amd64.s | 18 ++++++++++++++++--
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 1943d4a..69cf7cf 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -108,7 +108,8 @@ func C64toi8(input []complex64, output []int8) {
 	}
 }
 
-// F32toi16 converts scaled 32-bit floats to 16-bit integers.
+// F32toi16 converts scaled 32-bit floats to 16-bit integers. Values outside
+// of the range of 16-bit integers are clamped to it.
 func F32toi16(input []float32, output []int16, scale float32)
 func f32toi16(input []float32, output []int16, scale float32) {
 	n := len(output)
@@ -116,10 +117,20 @@ func f32toi16(input []float32, output []int16, scale float32) {
 		n = len(input)
 	}
 	for i, v := range input[:n] {
-		output[i] = int16(v * scale)
+		output[i] = f32sat16(v * scale)
 	}
 }
 
+func f32sat16(v float32) int16 {
+	if v >= math.MaxInt16 {
+		return math.MaxInt16
+	}
+	if v <= math.MinInt16 {
+		return math.MinInt16
+	}
+	return int16(v)
+}
+
 // F32toi16ble converts float32 to int16 stored in a byte slice. The values
 // are stored in little-endian.
 func F32toi16ble(input []float32, output []byte, scale float32)
@@ -129,7 +140,7 @@ func f32toi16ble(input []float32, output []byte, scale float32) {
 		n = len(input)
 	}
 	for i, v := range input[:n] {
-		v := uint16(int16(v * scale))
+		v := uint16(f32sat16(v * scale))
 		output[i*2] = uint8(v & 0xff)
 		output[i*2+1] = uint8(v >> 8)
 	}
diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index 5eb6cdf..0253856 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -473,12 +473,19 @@ TEXT ·Ui8toc64(SB), NOSPLIT, $0-48
 
 TEXT ·F32toi16(SB), NOSPLIT, $0-52
 	MOVQ   input+0(FP), SI
-	MOVQ   input_len+8(FP), AX
 	MOVQ   output+24(FP), DI
 	MOVQ   output_len+32(FP), CX
 	MOVSS  scale+48(FP), X8
 	PSHUFD $0, X8, X8
 
+	// Values above the range would convert to the integer indefinite (a
+	// negative value), so they're limited before the conversion. Values below
+	// the range saturate as the indefinite is the smallest integer.
+	MOVL   $0x46fffe00, AX // 32767.0
+	MOVL   AX, X9
+	PSHUFD $0, X9, X9
+	MOVQ   input_len+8(FP), AX
+
 	CMPQ AX, CX
 	JGE  f32toi16_min_len
 	MOVQ AX, CX
@@ -502,6 +509,10 @@ f32toi16_loop:
 	MULPS     X8, X1
 	MULPS     X8, X2
 	MULPS     X8, X3
+	MINPS     X9, X0
+	MINPS     X9, X1
+	MINPS     X9, X2
+	MINPS     X9, X3
 	CVTTPS2PL X0, X0
 	CVTTPS2PL X1, X1
 	CVTTPS2PL X2, X2
@@ -523,7 +534,10 @@ f32toi16_step:
 	MOVSS     (SI), X0
 	LEAQ      (DI)(AX*2), BX
 	MULSS     X8, X0
-	CVTTSS2SL X0, BP
+	MINSS     X9, X0
+	CVTTPS2PL X0, X0
+	PACKSSLW  X0, X0
+	MOVL      X0, BP
 	MOVW      BP, (BX)
 	ADDQ      $4, SI
 	INCQ      AX
-- 
2.43.0


From 83cfdcf92cfce4c982f0033b8150446145b49d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 19/31] fix: dsp: accept empty blocks in VScaleC64, VAbsC64 and
 Ui8tof32

---
 dsp/conversion.go | 2 +-
 dsp/math32.go     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 69cf7cf..f83dbe1 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -43,7 +43,7 @@ func ui8tof32(input []byte, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
-	_ = output[n-1] // eliminate bounds check
+	output = output[:n] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(int(v) - 128)
 	}
diff --git a/dsp/math32.go b/dsp/math32.go
index 8e69271..0580b6d 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -61,6 +61,9 @@ func VAddC64(input, output []complex64) {
 }
 
 func VScaleC64(input, output []complex64, scale float32) {
+	if len(input) == 0 || len(output) == 0 {
+		return
+	}
 	in := (*[2 << 25]float32)(unsafe.Pointer(&input[0]))[:len(input)*2]
 	out := (*[2 << 25]float32)(unsafe.Pointer(&output[0]))[:len(output)*2]
 	VScaleF32(in, out, scale)
@@ -83,7 +86,7 @@ func vAbsC64(input []complex64, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
-	_ = output[n-1] // eliminate bounds check
+	output = output[:n] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(math.Sqrt(float64(real(v)*real(v) + imag(v)*imag(v))))
 	}
-- 
2.43.0


From 5ad38e3b8380cb903999484959b5fba8f5e7bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 20/31] fix: dsp: IIR filters no longer change or keep the
 slices they are created from

The constructors normalised the coefficients in the slices of the caller, and
IIRFilter went on using them.
---
 dsp/filter.go | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/dsp/filter.go b/dsp/filter.go
index 68f0bac..0da067a 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -15,16 +15,37 @@ type ComplexIIRFilter struct {
 	pIn, pOut    []complex128
 }
 
-func NewIIRFilter(bCoef, aCoef []float64) *IIRFilter {
-	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
-		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
+// normalizeCoef returns copies of the coefficients divided by aCoef[0].
+func normalizeCoef(bCoef, aCoef []float64) ([]float64, []float64) {
+	b := make([]float64, len(bCoef))
+	for i, c := range bCoef {
+		b[i] = c / aCoef[0]
+	}
+	a := make([]float64, len(aCoef))
+	for i, c := range aCoef {
+		a[i] = c / aCoef[0]
 	}
+	return b, a
+}
+
+// normalizeCoef32 returns copies of the coefficients divided by aCoef[0].
+func normalizeCoef32(bCoef, aCoef []float32) ([]float32, []float32) {
+	b := make([]float32, len(bCoef))
 	for i, c := range bCoef {
-		bCoef[i] = c / aCoef[0]
+		b[i] = c / aCoef[0]
 	}
-	for i, c := range aCoef[1:] {
-		aCoef[i+1] = c / aCoef[0]
+	a := make([]float32, len(aCoef))
+	for i, c := range aCoef {
+		a[i] = c / aCoef[0]
 	}
+	return b, a
+}
+
+func NewIIRFilter(bCoef, aCoef []float64) *IIRFilter {
+	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
+		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
+	}
+	bCoef, aCoef = normalizeCoef(bCoef, aCoef)
 	return &IIRFilter{
 		bCoef: bCoef,
 		aCoef: aCoef,
@@ -37,12 +58,7 @@ func NewComplexIIRFilter32(bCoef, aCoef []float32) *ComplexIIRFilter32 {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
-	for i, c := range bCoef {
-		bCoef[i] = c / aCoef[0]
-	}
-	for i, c := range aCoef[1:] {
-		aCoef[i+1] = c / aCoef[0]
-	}
+	bCoef, aCoef = normalizeCoef32(bCoef, aCoef)
 	return &ComplexIIRFilter32{
 		bCoef: rtoc32(bCoef),
 		aCoef: rtoc32(aCoef),
@@ -55,12 +71,7 @@ func NewComplexIIRFilter(bCoef, aCoef []float64) *ComplexIIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
-	for i, c := range bCoef {
-		bCoef[i] = c / aCoef[0]
-	}
-	for i, c := range aCoef[1:] {
-		aCoef[i+1] = c / aCoef[0]
-	}
+	bCoef, aCoef = normalizeCoef(bCoef, aCoef)
 	return &ComplexIIRFilter{
 		bCoef: rtoc(bCoef),
 		aCoef: rtoc(aCoef),
-- 
2.43.0


From 0d5ced7c306f1bdb5a0a188886b3628e35646c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 21/31] fix: dsp: IIR filters of order 0 panicked

---
 dsp/filter.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dsp/filter.go b/dsp/filter.go
index 0da067a..d2e4e48 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -90,8 +90,10 @@ func (f *IIRFilter) Filter(input, output []float64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -106,8 +108,10 @@ func (f *ComplexIIRFilter32) Filter(input, output []complex64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -122,8 +126,10 @@ func (f *ComplexIIRFilter) Filter(input, output []complex128) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
-- 
2.43.0


From 881b79a03ac027b302b0aadcb8b32a772c8e8016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 22/31] fix: dtmf: Feed no longer changes the samples it is
 given

The window was applied to the samples of the caller, and again and again to
those in overlapping blocks.
---
 dsp/dtmf/dtmf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsp/dtmf/dtmf.go b/dsp/dtmf/dtmf.go
index 017f2ea..011e91a 100644
--- a/dsp/dtmf/dtmf.go
+++ b/dsp/dtmf/dtmf.go
@@ -21,6 +21,7 @@ type DTMF struct {
 	nHigh     int
 	blockSize int
 	w         []float32
+	buf       []float32
 }
 
 func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func([]float32)) *DTMF {
@@ -36,6 +37,7 @@ func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func(
 		nHigh:     len(highFreq),
 		blockSize: blockSize,
 		w:         w,
+		buf:       make([]float32, blockSize),
 	}
 }
 
@@ -48,13 +50,14 @@ func (d *DTMF) Feed(samples []float32) (int, float32) {
 	if len(samples) > d.blockSize {
 		samples = samples[:d.blockSize]
 	}
+	windowed := d.buf[:len(samples)]
 	for i, s := range samples {
-		samples[i] = s * d.w[i]
+		windowed[i] = s * d.w[i]
 	}
 	d.lowFreq.Reset()
 	d.highFreq.Reset()
-	d.lowFreq.Feed(samples)
-	d.highFreq.Feed(samples)
+	d.lowFreq.Feed(windowed)
+	d.highFreq.Feed(windowed)
 	row, thresh1 := max(d.lowFreq.Magnitude())
 	col, thresh2 := max(d.highFreq.Magnitude())
 	if thresh2 < thresh1 {
-- 
2.43.0


From cf44300aa1896bb1b23109c16558ba4ecf5c12d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 23/31] fix: ax25: do not deliver frames that are not a whole
 number of octets

---
 dsp/ax25/hdlc.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index 256307a..99fb2d0 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -29,7 +29,7 @@ type Frame struct {
 }
 
 type AX25 struct {
-	bitstream     byte
+	bitstream     uint16
 	inFrame       bool
 	rxBitI        int
 	rxBits        byte
@@ -178,11 +178,14 @@ func (ax *AX25) processFrame() *Frame {
 // Return a frame when a full one has been received. Otherwise return nil.
 func (ax *AX25) Feed(bit int) *Frame {
 	ax.bitstream <<= 1
-	ax.bitstream |= byte(bit)
+	ax.bitstream |= uint16(bit)
 	// Watch for flag
 	if ax.bitstream&0xff == 0x7e {
 		var frame *Frame
-		if ax.inFrame && len(ax.rxBuf) > 2 {
+		// All but the last bit of the flag have been taken for data, except
+		// when the first one passed for a stuffed bit that is missing. A
+		// frame that is not a whole number of octets is invalid.
+		if ax.inFrame && len(ax.rxBuf) > 2 && ax.rxBitI == 7 && ax.bitstream&0x3f00 != 0x1f00 {
 			frame = ax.processFrame()
 		}
 		ax.inFrame = true
-- 
2.43.0


From 442ee553cb55c17027f10299844ff413e3c42fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 24/31] fix: dsp: VScaleF32 scaled only one of the last samples
 on its vector paths

---
 dsp/math32_amd64.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32_amd64.s b/dsp/math32_amd64.s
index 6d5aff0..6ec4c2c 100644
--- a/dsp/math32_amd64.s
+++ b/dsp/math32_amd64.s
@@ -314,7 +314,7 @@ vscalef32_scalar_loop:
 	INCQ  AX
 	ADDQ  $4, SI
 	ADDQ  $4, DI
-	CMPQ  AX, CX
+	CMPQ  AX, DX
 	JLT   vscalef32_scalar_loop
 
 vscalef32_done:
-- 
2.43.0


From e35615f9eede566862692541c5f9396531318db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 25/31] fix: dsp: linear interpolation panicked at positions
 far outside the samples

---
 dsp/interpolate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index 86da1a7..fc29c03 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -4,6 +4,9 @@ import "math"
 
 // Linear interpolates using linear interpolation.
 func Linear(samples []float64, x float64) float64 {
+	if !(x >= 0 && x < float64(len(samples))) {
+		return 0
+	}
 	var samp float64
 	low := math.Floor(x)
 	lowInt := int(low)
@@ -22,7 +25,7 @@ func Linear(samples []float64, x float64) float64 {
 
 // LinearF32 interpolates using linear interpolation.
 func LinearF32(samples []float32, x float32) float32 {
-	if x < 0 || x > math.MaxFloat32 {
+	if !(x >= 0 && x < float32(len(samples))) {
 		return 0
 	}
 	var samp float32
-- 
2.43.0


From 5220a06e23f162b60bf5e19de9577c3f5e9a585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 26/31] fix: dsp: interpolation at negative positions used the
 samples around zero

---
 dsp/interpolate.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index fc29c03..954275f 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -46,7 +46,7 @@ func LinearF32(samples []float32, x float32) float32 {
 
 // Hermite4p3o interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3o(samples []float64, x float64) float64 {
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [4]float64
 	for i := -1; i <= 2; i++ {
@@ -65,7 +65,7 @@ func Hermite4p3o(samples []float64, x float64) float64 {
 
 // Hermite4p3oF32 interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3oF32(samples []float32, x float32) float32 {
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [4]float32
 	for i := -1; i <= 2; i++ {
@@ -86,7 +86,7 @@ func Hermite4p3oF32(samples []float32, x float32) float32 {
 func Optimal2x4p4o(samples []float64, x float64) float64 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -1; i <= 2; i++ {
@@ -113,7 +113,7 @@ func Optimal2x4p4o(samples []float64, x float64) float64 {
 func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -1; i <= 2; i++ {
@@ -139,7 +139,7 @@ func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 // Optimal2x6p5o interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5o(samples []float64, x float64) float64 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -2; i <= 3; i++ {
@@ -168,7 +168,7 @@ func Optimal2x6p5o(samples []float64, x float64) float64 {
 // Optimal2x6p5oF32 interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5oF32(samples []float32, x float32) float32 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -2; i <= 3; i++ {
-- 
2.43.0


From 073f11f020298cf1219034f5849ea149ed361731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 27/31] fix: dsp: I16ToBLE and VMinF32 had no implementation on
 386 and ARM

---
 dsp/conversion_386.s   | 3 +++
 dsp/conversion_arm.s   | 3 +++
 dsp/conversion_arm64.s | 3 +++
 dsp/math32_386.s       | 3 +++
 dsp/math32_arm.s       | 4 ++++
 5 files changed, 16 insertions(+)

diff --git a/dsp/conversion_386.s b/dsp/conversion_386.s
index c3a9eb1..6bf50fc 100644
--- a/dsp/conversion_386.s
+++ b/dsp/conversion_386.s
@@ -24,3 +24,6 @@ TEXT ·I16bleToF64(SB), 7, $0
 
 TEXT ·I16bleToF32(SB), 7, $0
 	JMP ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), 7, $0
+	JMP ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm.s b/dsp/conversion_arm.s
index 51e627c..cc89602 100644
--- a/dsp/conversion_arm.s
+++ b/dsp/conversion_arm.s
@@ -306,3 +306,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+	B ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm64.s b/dsp/conversion_arm64.s
index eba09db..4f21b00 100644
--- a/dsp/conversion_arm64.s
+++ b/dsp/conversion_arm64.s
@@ -97,3 +97,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+	B ·i16ToBLE(SB)
diff --git a/dsp/math32_386.s b/dsp/math32_386.s
index 1d0358b..3e5e326 100644
--- a/dsp/math32_386.s
+++ b/dsp/math32_386.s
@@ -15,3 +15,6 @@ TEXT ·VMaxF32(SB), 7, $0
 
 TEXT ·VMulC64xF32(SB), 7, $0
 	JMP ·vMulC64xF32(SB)
+
+TEXT ·VMinF32(SB), 7, $0
+	JMP ·vMinF32(SB)
diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index 0fdbb5d..9aca762 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -350,3 +350,7 @@ vmaxf32_scalar_loop:
 vmaxf32_done:
 	MOVF F4, ret+12(FP)
 	RET
+
+// TODO
+TEXT ·VMinF32(SB), NOSPLIT, $0
+	B ·vMinF32(SB)
-- 
2.43.0


From ba16dfa14b23b5a97ba0eaa2c4b99588f7e121a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 28/31] fix: dsp: F32toi16 on ARM wrapped values out of range
 instead of clamping them

---
 dsp/conversion_arm.s | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dsp/conversion_arm.s b/dsp/conversion_arm.s
index cc89602..6411e54 100644
--- a/dsp/conversion_arm.s
+++ b/dsp/conversion_arm.s
@@ -212,9 +212,13 @@ f32toi16_scalar_loop:
 	WORD $0xeebd2ac2 // vcvt.s32.f32 s4, s4
 	WORD $0xeefd2ae2 // vcvt.s32.f32 s5, s5
 	WORD $0xec540a11 // vmov r0, r4, s2, s3
+	WORD $0xe6af0010 // ssat r0, #16, r0
+	WORD $0xe6af4014 // ssat r4, #16, r4
 	MOVH R0, 0(R3)
 	MOVH R4, 2(R3)
 	WORD $0xec5b8a12 // vmov r8, r11, s4, s5
+	WORD $0xe6af8018 // ssat r8, #16, r8
+	WORD $0xe6afb01b // ssat r11, #16, r11
 	MOVH R8, 4(R3)
 	MOVH R11, 6(R3)
 	ADD  $8, R3
@@ -252,7 +256,11 @@ f32toi16_vector_loop:
 	WORD $0xeebd5ac5 // vcvt.s32.f32 s10, s10
 	WORD $0xeefd5ae5 // vcvt.s32.f32 s11, s11
 	WORD $0xec540a14 // vmov r0, r4, s8, s9
+	WORD $0xe6af0010 // ssat r0, #16, r0
+	WORD $0xe6af4014 // ssat r4, #16, r4
 	WORD $0xec5b8a15 // vmov r8, r11, s10, s11
+	WORD $0xe6af8018 // ssat r8, #16, r8
+	WORD $0xe6afb01b // ssat r11, #16, r11
 	MOVH R0, 0(R3)
 	MOVH R4, 2(R3)
 	MOVH R8, 4(R3)
@@ -262,7 +270,11 @@ f32toi16_vector_loop:
 	WORD $0xeebd7ac7 // vcvt.s32.f32 s14, s14
 	WORD $0xeefd7ae7 // vcvt.s32.f32 s15, s15
 	WORD $0xec540a16 // vmov r0, r4, s12, s13
+	WORD $0xe6af0010 // ssat r0, #16, r0
+	WORD $0xe6af4014 // ssat r4, #16, r4
 	WORD $0xec5b8a17 // vmov r8, r11, s14, s15
+	WORD $0xe6af8018 // ssat r8, #16, r8
+	WORD $0xe6afb01b // ssat r11, #16, r11
 	MOVH R0, 8(R3)
 	MOVH R4, 10(R3)
 	MOVH R8, 12(R3)
@@ -286,6 +298,7 @@ f32toi16_tail_loop:
 	ADD   $4, R1
 	MULF  F0, F1
 	MOVFW F1, R0
+	WORD $0xe6af0010 // ssat r0, #16, r0
 	MOVHU R0, (R3)
 	ADD   $2, R3
 	CMP   R2, R1
-- 
2.43.0


From 2b1200fbc6704ed1c3ecd954cf14a7aab5460288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 29/31] fix: dsp: I32Rotate90Filter on ARM was off by one where
 it negates

---
 dsp/util_arm.s | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsp/util_arm.s b/dsp/util_arm.s
index f24b795..1316f07 100644
--- a/dsp/util_arm.s
+++ b/dsp/util_arm.s
@@ -46,7 +46,7 @@ r90_end:
 TEXT ·i32Rotate90FilterAsm(SB), NOSPLIT, $0
 	MOVW samples_len+8(FP), R7
 	MOVW samples_ptr+4(FP), R8
-	AND  $(~3), R7             // round down to nearest multiple of 4
+	AND  $(~7), R7             // round down to nearest multiple of 8
 
 	TEQ $0, R7
 	BEQ i32r90_end
@@ -61,15 +61,15 @@ i32r90_loop:
 
 	// samples[i+1] = complex(-imag(samples[i+1]), real(samples[i+1]))
 	MOVW R0, R6
-	MVN  R1, R0
+	RSB  $0, R1, R0
 	MOVW R6, R1
 
 	// samples[i+2] = -samples[i+2]
-	MVN R2, R2
-	MVN R3, R3
+	RSB $0, R2
+	RSB $0, R3
 
 	// samples[i+3] = complex(imag(samples[i+3]), -real(samples[i+3]))
-	MVN       R4, R6
+	RSB       $0, R4, R6
 	MOVW      R5, R4
 	MOVW      R6, R5
 	MOVM.IA.W [R0-R5], (R8)
-- 
2.43.0


From fd191aef5f51b8513c8a02717e36aa1b0eb7aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 30/31] fix: dsp: did not build on Windows, Ui8tof32 was
 declared twice there

---
 dsp/stub_windows.go | 6 ------
 1 file changed, 6 deletions(-)
 delete mode 100644 dsp/stub_windows.go

diff --git a/dsp/stub_windows.go b/dsp/stub_windows.go
deleted file mode 100644
index c5cc76e..0000000
--- a/dsp/stub_windows.go
+++ /dev/null
@@ -1,6 +0,0 @@
-// Code generated by command: go run conversion_avo_amd64.go -out conversion_avo_amd64.s -stubs stub_windows.go. DO NOT EDIT.
-
-package dsp
-
-// Ui8tof32 converts unsigned 8-bit samples to 32-bit float.
-func Ui8tof32(input []byte, output []float32)
-- 
2.43.0


From 520fd1e067d3996a1d2ac315cb57942f59f04c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:11 +0000
Subject: [PATCH 31/31] fix: dsp: AVX2 kernels were chosen on processors with
 AVX only

VBROADCASTSS with a register source, which they use, is an AVX2
instruction.
---
 dsp/cpu_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/cpu_amd64.go b/dsp/cpu_amd64.go
index 6b7deab..9d6b11e 100644
--- a/dsp/cpu_amd64.go
+++ b/dsp/cpu_amd64.go
@@ -12,6 +12,6 @@ var (
 
 func init() {
 	useSSE4 = cpu.X86.HasSSE41
-	useAVX2 = cpu.X86.HasAVX
+	useAVX2 = cpu.X86.HasAVX2
 	useSSE2 = cpu.X86.HasSSE2
 }
-- 
2.43.0

