From 823115c613bd2b3a0a26b60b0c89ba54b550a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 01/10] fix: report backing store failures of READ, SYNCHRONIZE
 CACHE and PRE-FETCH as CHECK CONDITION

---
 pkg/scsi/backingstore.go | 10 +++++++---
 pkg/scsi/sbc.go          |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 9890695..dcbdbd7 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -73,7 +73,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
 		if cmd.OutSDBBuffer != nil {
@@ -92,7 +92,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err = bs.DataSync(int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		break
 	case api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
@@ -111,10 +111,13 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
 		rbuf = make([]byte, int(tl))
 		rbuf, err = bs.Read(int64(offset), tl)
+		if err == nil && int64(len(rbuf)) < tl {
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil && err != io.EOF {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		length = len(rbuf)
 		for i := 0; i < int(tl)-length; i++ {
@@ -136,6 +139,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
+			goto sense
 		}
 	case api.VERIFY_10, api.VERIFY_12, api.VERIFY_16:
 		// For stupid client which does not set WRITE flag
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index ec3a4a8..47ae9b6 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -469,7 +469,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	if err != nil {
 		log.Errorf("Error from backend: %v", err)
 		BuildSenseData(cmd, key, asc)
-		return api.SAMStatBusy
+		return api.SAMStatCheckCondition
 	} else {
 		return api.SAMStatGood
 	}
-- 
2.43.0


From daf9efe4d5d853d8557f167ccfd9d02be2ac2461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 02/10] fix: store exactly the blocks a WRITE addresses,
 whatever the announced transfer length

---
 pkg/scsi/backingstore.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index dcbdbd7..32a8f5f 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -153,6 +153,13 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	}
 write:
 	if doWrite {
+		// the CDB alone determines which blocks are stored
+		if int64(len(wbuf)) < tl {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
+		wbuf = wbuf[:tl]
 		err = bs.Write(wbuf, int64(offset))
 		if err != nil {
 			log.Error(err)
-- 
2.43.0


From 8f63d158346afde96ec9b3bf44795eb816ec2732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 03/10] fix: reads past the end of a grown backing file keep
 the stored part

---
 pkg/scsi/backingstore.go        | 31 +++++++++++++++++++------------
 pkg/scsi/backingstore/common.go |  4 ++++
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 32a8f5f..7b9515a 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -51,6 +51,21 @@ func NewBackingStore(name string) (api.BackingStore, error) {
 	return f()
 }
 
+// bsRead reads tl bytes at offset. Blocks beyond the end of the backing
+// storage read as zeros, any other incomplete transfer is an error.
+func bsRead(bs api.BackingStore, offset, tl int64) ([]byte, error) {
+	buf, err := bs.Read(offset, tl)
+	if err == io.EOF {
+		full := make([]byte, tl)
+		copy(full, buf)
+		return full, nil
+	}
+	if err == nil && int64(len(buf)) < tl {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf, err
+}
+
 func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key byte, asc SCSISubError) {
 	var (
 		scb        = cmd.SCB
@@ -69,7 +84,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	switch opcode {
 	case api.ORWRITE_16:
 		tmpbuf := []byte{}
-		tmpbuf, err = bs.Read(int64(offset), tl)
+		tmpbuf, err = bsRead(bs, int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
@@ -109,20 +124,13 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		// TODO
 		break
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
-		rbuf = make([]byte, int(tl))
-		rbuf, err = bs.Read(int64(offset), tl)
-		if err == nil && int64(len(rbuf)) < tl {
-			err = io.ErrUnexpectedEOF
-		}
-		if err != nil && err != io.EOF {
+		rbuf, err = bsRead(bs, int64(offset), tl)
+		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
 			goto sense
 		}
 		length = len(rbuf)
-		for i := 0; i < int(tl)-length; i++ {
-			rbuf = append(rbuf, 0)
-		}
 
 		if (opcode != api.READ_6) && (scb[1]&0x10 != 0) {
 			bs.DataAdvise(int64(offset), int64(length), util.POSIX_FADV_NOREUSE)
@@ -194,8 +202,7 @@ write:
 	}
 verify:
 	if doVerify {
-		rbuf = make([]byte, int(tl))
-		rbuf, err = bs.Read(int64(offset), tl)
+		rbuf, err = bsRead(bs, int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
diff --git a/pkg/scsi/backingstore/common.go b/pkg/scsi/backingstore/common.go
index 3160a78..c8b5cff 100644
--- a/pkg/scsi/backingstore/common.go
+++ b/pkg/scsi/backingstore/common.go
@@ -106,6 +106,10 @@ func (bs *FileBackingStore) Read(offset, tl int64) ([]byte, error) {
 	}
 	tmpbuf := make([]byte, tl)
 	length, err := bs.file.ReadAt(tmpbuf, offset)
+	if err == io.EOF {
+		// the caller zero-fills what lies beyond the end of the file
+		return tmpbuf[:length], err
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4467cb7904d228902f30e0dc32e7a53d5e690339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 04/10] fix: check ranges and write protection of VERIFY,
 SYNCHRONIZE CACHE and UNMAP, allow PRE-FETCH on protected units

---
 pkg/api/types.go |  4 +--
 pkg/scsi/sbc.go  | 70 +++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 59 insertions(+), 15 deletions(-)

diff --git a/pkg/api/types.go b/pkg/api/types.go
index 591f1f0..c3abe3a 100644
--- a/pkg/api/types.go
+++ b/pkg/api/types.go
@@ -178,7 +178,7 @@ type SCSICommand struct {
 	// Command ITN ID
 	ITNexusID     uuid.UUID
 	Offset        uint64
-	TL            uint32
+	TL            uint64
 	SCB           []byte
 	SCBLength     int
 	Lun           [8]uint8
@@ -409,7 +409,7 @@ type LUNMap map[uint64]*SCSILu
 
 type UnmapBlockDescriptor struct {
 	Offset uint64
-	TL     uint32
+	TL     uint64
 }
 
 type ReaderWriterAt interface {
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 47ae9b6..9625309 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -310,12 +310,47 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatCheckCondition
 	}
 
+	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
+		BuildSenseData(cmd, NOT_READY, ASC_MEDIUM_NOT_PRESENT)
+		return api.SAMStatCheckCondition
+	}
+
+	if cmd.Device.Attrs.Readonly || cmd.Device.Attrs.SWP {
+		BuildSenseData(cmd, DATA_PROTECT, ASC_WRITE_PROTECT)
+		return api.SAMStatCheckCondition
+	}
+
 	const blockDescLen = 16
 
+	var params []byte
+	if cmd.OutSDBBuffer != nil {
+		params = cmd.OutSDBBuffer.Buffer
+	}
+	listLen := int(binary.BigEndian.Uint16(cmd.SCB[7:9]))
+	if listLen == 0 {
+		return api.SAMStatGood
+	}
+	if listLen < 8 || len(params) < 8 {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_PARAMETER_LIST_LENGTH_ERR)
+		return api.SAMStatCheckCondition
+	}
+	// the parameter list ends with the announced descriptors
+	if end := 8 + int(binary.BigEndian.Uint16(params[2:4])); end < listLen {
+		listLen = end
+	}
+	if listLen < len(params) {
+		params = params[:listLen]
+	}
+
 	var blockDescs []api.UnmapBlockDescriptor
-	for off := 8; uint32(off+blockDescLen) <= cmd.OutSDBBuffer.Length; off += blockDescLen {
-		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
-		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
+	blocks := cmd.Device.Size >> cmd.Device.BlockShift
+	for off := 8; off+blockDescLen <= len(params); off += blockDescLen {
+		lba := binary.BigEndian.Uint64(params[off : off+8])
+		num := uint64(binary.BigEndian.Uint32(params[off+8 : off+12]))
+		if lba > blocks || num > blocks-lba {
+			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+			return api.SAMStatCheckCondition
+		}
 		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
 			Offset: lba << cmd.Device.BlockShift,
 			TL:     num << cmd.Device.BlockShift,
@@ -399,8 +434,8 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 			asc = ASC_INVALID_FIELD_IN_CDB
 			goto sense
 		}
-		// LBDATA and PBDATA can not both be set
-		if (scb[1] & 0x06) == 0x06 {
+		// LBDATA, PBDATA and NDOB are not supported
+		if (scb[1] & 0x07) != 0 {
 			key = ILLEGAL_REQUEST
 			asc = ASC_INVALID_FIELD_IN_CDB
 			goto sense
@@ -411,7 +446,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 		switch opcode {
 		case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16, api.ORWRITE_16,
 			api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16, api.WRITE_SAME, api.WRITE_SAME_16,
-			api.PRE_FETCH_10, api.PRE_FETCH_16, api.COMPARE_AND_WRITE:
+			api.COMPARE_AND_WRITE:
 			key = DATA_PROTECT
 			asc = ASC_WRITE_PROTECT
 			log.Warnf("sense data(data protect) and asc(ASC_WRITE_PROTECT) encounter")
@@ -440,7 +475,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 
 	// Handle residuals
 	switch opcode {
@@ -579,10 +614,6 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if scb[1]&0x02 == 0 {
-		// no data compare with the media
-		return api.SAMStatGood
-	}
 	lba = getSCSIReadWriteOffset(scb)
 	tl = getSCSIReadWriteCount(scb)
 
@@ -603,8 +634,12 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
+	if scb[1]&0x02 == 0 {
+		// no data compare with the media
+		return api.SAMStatGood
+	}
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
 		goto sense
@@ -727,8 +762,17 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	tl := getSCSIReadWriteCount(scb)
 	dev := cmd.Device
 
+	if dev.Attrs.Removable && !dev.Attrs.Online {
+		BuildSenseData(cmd, NOT_READY, ASC_MEDIUM_NOT_PRESENT)
+		return api.SAMStatCheckCondition
+	}
+	if blocks := dev.Size >> dev.BlockShift; lba >= blocks || uint64(tl) > blocks-lba {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+		return api.SAMStatCheckCondition
+	}
+
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 
 	err, key, asc := bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
-- 
2.43.0


From e783a53d084e438ea7c762c3bc4e42759c892eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 05/10] fix: implement WRITE SAME and ORWRITE, compare only the
 addressed blocks, deliver reads longer than expected

---
 pkg/scsi/backingstore.go | 68 +++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 7b9515a..45f6a2d 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -20,6 +20,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -66,6 +67,26 @@ func bsRead(bs api.BackingStore, offset, tl int64) ([]byte, error) {
 	return buf, err
 }
 
+func minInt64(a, b int64) int64 {
+	if a < b {
+		return a
+	}
+	return b
+}
+
+// bsWriteSame stores block over and over in the tl bytes at offset.
+func bsWriteSame(bs api.BackingStore, block []byte, offset, tl int64) error {
+	chunk := bytes.Repeat(block, int(minInt64(tl, 1<<20))/len(block)+1)
+	for done := int64(0); done < tl; {
+		n := minInt64(tl-done, int64(len(chunk)))
+		if err := bs.Write(chunk[:n], offset+done); err != nil {
+			return err
+		}
+		done += n
+	}
+	return nil
+}
+
 func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key byte, asc SCSISubError) {
 	var (
 		scb        = cmd.SCB
@@ -84,15 +105,24 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	switch opcode {
 	case api.ORWRITE_16:
 		tmpbuf := []byte{}
+		if cmd.OutSDBBuffer != nil {
+			wbuf = cmd.OutSDBBuffer.Buffer
+		}
+		if int64(len(wbuf)) < tl {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
 		tmpbuf, err = bsRead(bs, int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
 			goto sense
 		}
-		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
+		// store the logical OR of the data sent and the current contents
+		wbuf = append([]byte{}, wbuf[:tl]...)
+		for i := range wbuf {
+			wbuf[i] |= tmpbuf[i]
 		}
 		doWrite = true
 		goto write
@@ -121,10 +151,27 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		doWrite = true
 		goto write
 	case api.WRITE_SAME, api.WRITE_SAME_16:
-		// TODO
-		break
+		if cmd.OutSDBBuffer != nil {
+			wbuf = cmd.OutSDBBuffer.Buffer
+		}
+		if len(wbuf) < 1<<lu.BlockShift {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
+		if tl == 0 {
+			// up to the end of the medium
+			tl = int64(lu.Size>>lu.BlockShift<<lu.BlockShift - offset)
+		}
+		if err = bsWriteSame(bs, wbuf[:1<<lu.BlockShift], int64(offset), tl); err != nil {
+			key = MEDIUM_ERROR
+			asc = ASC_WRITE_ERROR
+			goto sense
+		}
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
-		rbuf, err = bsRead(bs, int64(offset), tl)
+		// no more is read than what the initiator is prepared to receive
+		cmd.InSDBBuffer.Resid = uint32(minInt64(tl, math.MaxUint32))
+		rbuf, err = bsRead(bs, int64(offset), minInt64(tl, int64(cmd.InSDBBuffer.Length)))
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
@@ -135,12 +182,6 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if (opcode != api.READ_6) && (scb[1]&0x10 != 0) {
 			bs.DataAdvise(int64(offset), int64(length), util.POSIX_FADV_NOREUSE)
 		}
-		cmd.InSDBBuffer.Resid = uint32(length)
-		if cmd.InSDBBuffer.Length < uint32(length) {
-			key = ILLEGAL_REQUEST
-			asc = ASC_INVALID_FIELD_IN_CDB
-			goto sense
-		}
 		copy(cmd.InSDBBuffer.Buffer, rbuf)
 	case api.PRE_FETCH_10, api.PRE_FETCH_16:
 		err = bs.DataAdvise(int64(offset), tl, util.POSIX_FADV_WILLNEED)
@@ -154,6 +195,9 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if cmd.OutSDBBuffer != nil {
 			wbuf = cmd.OutSDBBuffer.Buffer
 		}
+		if int64(len(wbuf)) > tl {
+			wbuf = wbuf[:tl]
+		}
 		doVerify = true
 		goto verify
 	default:
-- 
2.43.0


From b5f7db4c2e2129f7aa671f09c76741b764d5d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 06/10] fix: well formed parameter data, residuals and sense
 data

---
 pkg/port/iscsit/cmd.go    |  27 ++++----
 pkg/port/iscsit/conn.go   |  26 +++++---
 pkg/port/iscsit/iscsid.go |  26 ++++----
 pkg/scsi/backingstore.go  |   1 +
 pkg/scsi/sbc.go           |  97 +++++++++++++--------------
 pkg/scsi/scsi.go          |  10 ---
 pkg/scsi/spc.go           | 133 +++++++++++++++++---------------------
 7 files changed, 149 insertions(+), 171 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index f592568..fb3a06e 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -98,7 +98,9 @@ type ISCSICommand struct {
 	StartTime          time.Time
 	ExpCmdSN, MaxCmdSN uint32
 	AHSLen             int
-	Resid              uint32
+	// Residual count, of an overflow or else of an underflow
+	Resid    uint32
+	Overflow bool
 
 	// Connection ID.
 	ConnID uint16
@@ -295,7 +297,7 @@ func (m *ISCSICommand) scsiCmdRespBytes() []byte {
 	buf.WriteByte(byte(OpSCSIResp))
 	var flag byte = 0x80
 	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
+		if m.Overflow {
 			flag |= 0x04
 		} else {
 			flag |= 0x02
@@ -348,20 +350,18 @@ func (m *ISCSICommand) dataInBytes() []byte {
 		flag |= 0x01
 	}
 	log.Debugf("resid: %v, ExpectedDataLen: %v", m.Resid, m.ExpectedDataLen)
-	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
-			flag |= 0x04
-		} else if m.Resid < m.ExpectedDataLen {
-			flag |= 0x02
+	if m.HasStatus && m.Final == true {
+		if m.Resid > 0 {
+			if m.Overflow {
+				flag |= 0x04
+			} else {
+				flag |= 0x02
+			}
+			copy(buf[44:], util.MarshalUint32(m.Resid))
 		}
+		buf[3] = byte(m.Status)
 	}
 	buf[1] = flag
-	//buf.WriteByte(0x00)
-	if m.HasStatus && m.Final == true {
-		flag = byte(m.Status)
-	}
-	//buf.WriteByte(flag)
-	buf[3] = flag
 	copy(buf[5:], util.MarshalUint64(uint64(m.DataLen))[5:])
 	// Skip through to byte 16 Since A bit is not set 11.7.4
 	copy(buf[16:], util.MarshalUint32(m.TaskTag))
@@ -370,7 +370,6 @@ func (m *ISCSICommand) dataInBytes() []byte {
 	copy(buf[32:], util.MarshalUint32(m.MaxCmdSN))
 	copy(buf[36:], util.MarshalUint32(m.DataSN))
 	copy(buf[40:], util.MarshalUint32(m.BufferOffset))
-	copy(buf[44:], util.MarshalUint32(m.Resid))
 	if m.ExpectedDataLen != 0 {
 		copy(buf[48:], m.RawData[m.BufferOffset:m.BufferOffset+uint32(m.DataLen)])
 	}
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 0b0c14a..4a6021c 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -187,16 +187,26 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		if scmd.Result != 0 && scmd.SenseBuffer != nil {
 			length := util.MarshalUint32(scmd.SenseBuffer.Length)
 			conn.resp.RawData = append(length[2:4], scmd.SenseBuffer.Buffer...)
-		} else if scmd.Direction == api.SCSIDataRead || scmd.Direction == api.SCSIDataWrite {
-			if scmd.InSDBBuffer != nil {
-				conn.resp.Resid = scmd.InSDBBuffer.Resid
-				if conn.resp.Resid != 0 && conn.resp.Resid < scmd.InSDBBuffer.Length {
-					conn.resp.RawData = scmd.InSDBBuffer.Buffer[:conn.resp.Resid]
-				} else {
-					conn.resp.RawData = scmd.InSDBBuffer.Buffer
+		} else if scmd.Result == 0 {
+			// Resid is the length of the data the command could transfer
+			var avail uint32
+			switch scmd.Direction {
+			case api.SCSIDataRead:
+				avail = scmd.InSDBBuffer.Resid
+			case api.SCSIDataWrite:
+				avail = scmd.OutSDBBuffer.Resid
+			}
+			if oc == OpSCSIIn {
+				conn.resp.RawData = scmd.InSDBBuffer.Buffer
+				if avail < uint32(len(conn.resp.RawData)) {
+					conn.resp.RawData = conn.resp.RawData[:avail]
 				}
+			}
+			if avail > conn.resp.ExpectedDataLen {
+				conn.resp.Overflow = true
+				conn.resp.Resid = avail - conn.resp.ExpectedDataLen
 			} else {
-				conn.resp.RawData = []byte{}
+				conn.resp.Resid = conn.resp.ExpectedDataLen - avail
 			}
 		}
 
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0db6b01..8dc3d70 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -710,6 +710,9 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			Tag:             uint64(req.TaskTag),
 			RelTargetPortID: conn.session.TPGT,
 		}
+		// both buffers always exist, one is sized below
+		scmd.InSDBBuffer = &api.SCSIDataBuffer{Buffer: []byte{}}
+		scmd.OutSDBBuffer = &api.SCSIDataBuffer{Buffer: []byte{}}
 		if req.Read {
 			if req.Write {
 				scmd.Direction = api.SCSIDataBidirection
@@ -726,7 +729,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task.scmd.OpCode = conn.req.SCSIOpCode
 		if scmd.Direction == api.SCSIDataBidirection {
 			task.scmd.Result = api.SAMStatCheckCondition.Stat
-			scsi.BuildSenseData(task.scmd, scsi.ILLEGAL_REQUEST, scsi.NO_ADDITIONAL_SENSE)
+			scsi.BuildSenseData(task.scmd, scsi.ILLEGAL_REQUEST, scsi.ASC_INVALID_FIELD_IN_CDB)
 			conn.buildRespPackage(OpSCSIResp, task)
 			conn.rxTask = nil
 			break
@@ -738,15 +741,14 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 				task.unsolCount = 1
 			}
 			// new buffer for the data out
-			if scmd.OutSDBBuffer == nil {
-				blen := int(req.ExpectedDataLen)
-				if blen == 0 {
-					blen = int(req.DataLen)
-				}
-				scmd.OutSDBBuffer = &api.SCSIDataBuffer{
-					Length: uint32(blen),
-					Buffer: make([]byte, blen),
-				}
+			blen := int(req.ExpectedDataLen)
+			if blen == 0 {
+				blen = int(req.DataLen)
+			}
+			scmd.OutSDBBuffer = &api.SCSIDataBuffer{
+				Length: uint32(blen),
+				Buffer: make([]byte, blen),
+				Resid:  uint32(blen),
 			}
 			log.Debugf("SCSI write, R2T count: %d, unsol Count: %d, offset: %d", task.r2tCount, task.unsolCount, task.offset)
 
@@ -772,7 +774,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 					return nil
 				}
 			}
-		} else if scmd.InSDBBuffer == nil {
+		} else if req.Read {
 			scmd.InSDBBuffer = &api.SCSIDataBuffer{
 				Length: uint32(req.ExpectedDataLen),
 				Buffer: make([]byte, int(req.ExpectedDataLen)),
@@ -787,7 +789,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			return
 		} else {
-			if scmd.Direction == api.SCSIDataRead && scmd.SenseBuffer == nil && req.ExpectedDataLen != 0 {
+			if scmd.Direction == api.SCSIDataRead && scmd.Result == 0 && scmd.InSDBBuffer.Resid != 0 && req.ExpectedDataLen != 0 {
 				conn.buildRespPackage(OpSCSIIn, task)
 			} else {
 				conn.buildRespPackage(OpSCSIResp, task)
diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 45f6a2d..f4962c7 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -212,6 +212,7 @@ write:
 			goto sense
 		}
 		wbuf = wbuf[:tl]
+		cmd.OutSDBBuffer.Resid = uint32(tl)
 		err = bs.Write(wbuf, int64(offset))
 		if err != nil {
 			log.Error(err)
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 9625309..ddb2df0 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -117,12 +117,17 @@ func (sbc SBCSCSIDeviceProtocol) InitLu(lu *api.SCSILu) error {
 	// Informational Exceptions Control page
 	pages = append(pages, api.ModePage{0x1c, 0, 10, []byte{8, 0, 0, 0, 0, 0, 0, 0, 0, 0}})
 	lu.ModePages = pages
+	lu.ModeBlockDescriptor = modeBlockDescriptor(lu)
+	return nil
+}
+
+// modeBlockDescriptor describes the current size of the logical unit.
+func modeBlockDescriptor(lu *api.SCSILu) []byte {
 	mbd := util.MarshalUint32(uint32(0xffffffff))
 	if size := lu.Size >> lu.BlockShift; size>>32 == 0 {
 		mbd = util.MarshalUint32(uint32(size))
 	}
-	lu.ModeBlockDescriptor = append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
-	return nil
+	return append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
 }
 
 func (sbc SBCSCSIDeviceProtocol) ConfigLu(lu *api.SCSILu) error {
@@ -242,10 +247,12 @@ func SBCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		deviceSpecific |= 0x80
 	}
 
+	idx := 3
 	if cmd.SCB[0] == 0x1a {
-		cmd.InSDBBuffer.Buffer[2] = deviceSpecific
-	} else {
-		cmd.InSDBBuffer.Buffer[3] = deviceSpecific
+		idx = 2
+	}
+	if idx < len(cmd.InSDBBuffer.Buffer) {
+		cmd.InSDBBuffer.Buffer[idx] = deviceSpecific
 	}
 
 	return api.SAMStatGood
@@ -548,6 +555,7 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc    = ASC_LUN_NOT_SUPPORTED
 		bshift = cmd.Device.BlockShift
 		size   = cmd.Device.Size >> bshift
+		data   []byte
 	)
 
 	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
@@ -561,21 +569,16 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if cmd.InSDBBuffer.Length < 8 {
-		goto overflow
-	}
-
 	// data[0] = (size >> 32) ? __cpu_to_be32(0xffffffff) : __cpu_to_be32(size - 1);
 	if size>>32 != 0 {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(0xffffffff)))
+		data = util.MarshalUint32(uint32(0xffffffff))
 	} else {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(size-1)))
+		data = util.MarshalUint32(uint32(size - 1))
 	}
 
 	// data[1] = __cpu_to_be32(1U << bshift);
-	copy(cmd.InSDBBuffer.Buffer[4:], util.MarshalUint32(uint32(1<<bshift)))
-overflow:
-	cmd.InSDBBuffer.Resid = 8
+	data = append(data, util.MarshalUint32(uint32(1<<bshift))...)
+	returnParameterData(cmd, data, 8)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -663,20 +666,18 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 		bshift           = cmd.Device.BlockShift
 		size             = cmd.Device.Size >> bshift
 		allocationLength uint32
+		lbpme            int
+		data             = make([]byte, 32)
 	)
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[10:14])
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint64(uint64(size-1)))
-	if allocationLength > 12 {
-		copy(cmd.InSDBBuffer.Buffer[8:], util.MarshalUint32(uint32(1<<bshift)))
-		if allocationLength > 16 {
-			var lbpme int
-			if cmd.Device.Attrs.ThinProvisioning {
-				lbpme = 1
-			}
-			val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
-			copy(cmd.InSDBBuffer.Buffer[12:], util.MarshalUint32(uint32(val)))
-		}
-	}
+	copy(data, util.MarshalUint64(uint64(size-1)))
+	copy(data[8:], util.MarshalUint32(uint32(1<<bshift)))
+	if cmd.Device.Attrs.ThinProvisioning {
+		lbpme = 1
+	}
+	val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
+	copy(data[12:], util.MarshalUint32(uint32(val)))
+	returnParameterData(cmd, data, allocationLength)
 	return api.SAMStatGood
 }
 
@@ -687,7 +688,9 @@ func SBCGetLbaStatus(host int, cmd *api.SCSICommand) api.SAMStat {
 		dev = cmd.Device
 		scb = cmd.SCB
 		lba uint64
-		tl  uint32
+		num uint64
+		// one descriptor: parameter data length, LBA, number of blocks
+		data = make([]byte, 24)
 	)
 	if dev.Attrs.Removable && !dev.Attrs.Online {
 		key = NOT_READY
@@ -695,35 +698,22 @@ func SBCGetLbaStatus(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if scb[1]&0xe0 != 0 {
-		// We only support protection information type 0
+	lba = binary.BigEndian.Uint64(scb[2:])
+	if lba >= dev.Size>>dev.BlockShift {
 		key = ILLEGAL_REQUEST
-		asc = ASC_INVALID_FIELD_IN_CDB
+		asc = ASC_LBA_OUT_OF_RANGE
+		log.Warnf("sense")
 		goto sense
 	}
-
-	if scb[1]&0x02 == 0 {
-		// no data compare with the media
-		return api.SAMStatGood
-	}
-	lba = getSCSIReadWriteOffset(scb)
-	tl = getSCSIReadWriteCount(scb)
-	// Verify that we are not doing i/o beyond the end-of-lun
-	if tl != 0 {
-		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
-			key = ILLEGAL_REQUEST
-			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
-			goto sense
-		}
-	} else {
-		if lba >= dev.Size>>dev.BlockShift {
-			key = ILLEGAL_REQUEST
-			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense")
-			goto sense
-		}
+	// every block is reported as mapped
+	num = dev.Size>>dev.BlockShift - lba
+	if num > 0xffffffff {
+		num = 0xffffffff
 	}
+	binary.BigEndian.PutUint32(data, uint32(len(data)-4))
+	binary.BigEndian.PutUint64(data[8:], lba)
+	binary.BigEndian.PutUint32(data[16:], uint32(num))
+	returnParameterData(cmd, data, util.GetUnalignedUint32(scb[10:14]))
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -743,7 +733,8 @@ func SBCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 	case api.SAI_GET_LBA_STATUS:
 		return SBCGetLbaStatus(host, cmd)
 	}
-	return api.SAMStatGood
+	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+	return api.SAMStatCheckCondition
 }
 
 /*
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 18f196f..b752880 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -151,7 +151,6 @@ func NewSCSIDeviceOperation(fn api.CommandFunc, sa []*SCSIServiceAction, pr uint
 // BuildSenseData build sense data
 func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 	senseBuffer := &bytes.Buffer{}
-	inBufLen, ok := SCSICDBBufXLength(cmd.SCB)
 	var (
 		length      uint32 = 0xa
 		fixedFormat bool   = true
@@ -191,15 +190,6 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		}
 		length += 8
 	}
-	if ok {
-		if int64(length) > inBufLen {
-			log.Warnf("sense buffer is bigger than in buffer")
-			senseBuffer.Truncate(int(inBufLen))
-		}
-	} else {
-		log.Debugf("cannot calc cbd alloc length. truncate failed")
-	}
-	cmd.Result = key
 	cmd.SenseBuffer = &api.SenseBuffer{senseBuffer.Bytes(), length}
 }
 
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6ed3ee4..fadb0e7 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"sort"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -38,7 +39,7 @@ func SPCIllegalOp(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SPCLuOffline(lu *api.SCSILu) error {
-	lu.Attrs.Online = true
+	lu.Attrs.Online = false
 	return nil
 }
 
@@ -47,10 +48,20 @@ func SPCLuOnline(lu *api.SCSILu) error {
 		return fmt.Errorf("lu prevent removal")
 	}
 
-	lu.Attrs.Online = false
+	lu.Attrs.Online = true
 	return nil
 }
 
+// returnParameterData hands parameter data, cut to the allocation length, to
+// the initiator.
+func returnParameterData(cmd *api.SCSICommand, data []byte, allocationLength uint32) {
+	if uint32(len(data)) > allocationLength {
+		data = data[:allocationLength]
+	}
+	copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Resid = uint32(len(data))
+}
+
 func InquiryPage0x00(host int, cmd *api.SCSICommand) (*bytes.Buffer, uint16) {
 	var (
 		buf               = &bytes.Buffer{}
@@ -165,14 +176,16 @@ func InquiryPage0x83(host int, cmd *api.SCSICommand) (*bytes.Buffer, uint16) {
 	binary.Write(descBuf, binary.BigEndian, portID)
 
 	//DESCRIPTOR 5 SCSI Name,Port
-	portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
-	descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_UTF8)
-	descBuf.WriteByte(0x80 | (ASS_TGT_PORT << 4) | DESG_SCSI)
-	descBuf.WriteByte(0x00)
-	//length
-	descBuf.WriteByte(byte(len(portName)))
-	//RTPGI
-	descBuf.Write(portName)
+	if targetPort != nil {
+		portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
+		descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_UTF8)
+		descBuf.WriteByte(0x80 | (ASS_TGT_PORT << 4) | DESG_SCSI)
+		descBuf.WriteByte(0x00)
+		//length
+		descBuf.WriteByte(byte(len(portName)))
+		//RTPGI
+		descBuf.Write(portName)
+	}
 
 	data = descBuf.Bytes()
 	pageLength = uint16(len(data))
@@ -317,12 +330,6 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 			goto sense
 		}
 		data = buf.Bytes()
-		if int(allocationLength) < len(data) {
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-		} else {
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
 	} else {
 		if pcode != 0 {
 			goto sense
@@ -386,15 +393,9 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 
 		buf.Write(addBufData)
 		data = buf.Bytes()
-		if allocationLength < uint16(additionLength) {
-			cmd.InSDBBuffer.Resid = uint32(allocationLength)
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-		} else {
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
 	}
 
+	returnParameterData(cmd, data, uint32(allocationLength))
 	return api.SAMStatGood
 sense:
 	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
@@ -411,7 +412,7 @@ sense:
  */
 func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		remainLength     uint32
+		luns             []uint64
 		availLength      uint32 = 0
 		allocationLength uint32
 		buf              *bytes.Buffer = &bytes.Buffer{}
@@ -423,7 +424,6 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	remainLength = allocationLength
 	if _, ok := cmd.Target.Devices[0]; !ok {
 		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
 	} else {
@@ -432,7 +432,6 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	// LUN list length
 	buf.Write(util.MarshalUint32(availLength))
-	cmd.InSDBBuffer.Resid = allocationLength
 
 	// Skip through to byte 4, Reserved
 	for i := 0; i < 4; i++ {
@@ -442,24 +441,24 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	//For LUN0
 	if _, ok := cmd.Target.Devices[0]; !ok {
 		buf.Write(util.MarshalUint64(0))
-		remainLength -= 8
 	}
 
 	for lun := range cmd.Target.Devices {
-		if remainLength > 0 {
-			if lun > 0xff {
-				lun = (0x01 << 30) | (0x3fff&lun)<<16
-			} else {
-				lun = (0x3fff & lun) << 16
-			}
-			lun = uint64(lun << 32)
-
-			buf.Write(util.MarshalUint64(lun))
-			remainLength -= 8
+		luns = append(luns, lun)
+	}
+	sort.Slice(luns, func(i, j int) bool { return luns[i] < luns[j] })
+	for _, lun := range luns {
+		if lun > 0xff {
+			lun = (0x01 << 30) | (0x3fff&lun)<<16
+		} else {
+			lun = (0x3fff & lun) << 16
 		}
+		lun = uint64(lun << 32)
+
+		buf.Write(util.MarshalUint64(lun))
 	}
 
-	copy(cmd.InSDBBuffer.Buffer, buf.Bytes())
+	returnParameterData(cmd, buf.Bytes(), allocationLength)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -539,7 +538,9 @@ func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatReservationConflict
 	}
 	// PREVENT_MASK = 0x03
-	cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	if cmd.ITNexusLuInfo != nil {
+		cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	}
 	return api.SAMStatGood
 }
 
@@ -565,7 +566,6 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc            = ASC_INVALID_FIELD_IN_CDB
 		data           []byte
 		allocLen       uint32
-		i              uint32
 	)
 
 	if dbd == 0 {
@@ -578,18 +578,14 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	if mode6 {
 		allocLen = uint32(scb[4])
 		// set header
-		for i = 0; i < 4 && i < allocLen; i++ {
-			data = append(data, 0x00)
-		}
+		data = make([]byte, 4)
 	} else {
 		allocLen = uint32(util.GetUnalignedUint16(scb[7:9]))
 		// set header
-		for i = 0; i < 8 && i < allocLen; i++ {
-			data = append(data, 0x00)
-		}
+		data = make([]byte, 8)
 	}
 	if dbd == 0 {
-		data = append(data, cmd.Device.ModeBlockDescriptor...)
+		data = append(data, modeBlockDescriptor(cmd.Device)...)
 	}
 	if pcode == 0x3f {
 		for _, pg := range cmd.Device.ModePages {
@@ -603,7 +599,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 				data = append(data, pg.Size&0xff)
 			}
 			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
+				data = append(data, changeableMask(pg.Size, pg.Data)...)
 			} else {
 				data = append(data, pg.Data[:pg.Size]...)
 			}
@@ -623,7 +619,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 			data = append(data, pg.PageCode)
 			data = append(data, pg.Size)
 			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
+				data = append(data, changeableMask(pg.Size, pg.Data)...)
 			} else {
 				data = append(data, pg.Data[:pg.Size]...)
 			}
@@ -633,7 +629,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 			data = append(data, (pg.Size>>8)&0xff)
 			data = append(data, pg.Size&0xff)
 			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
+				data = append(data, changeableMask(pg.Size, pg.Data)...)
 			} else {
 				data = append(data, pg.Data[:pg.Size]...)
 			}
@@ -648,16 +644,20 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		data[6] = uint8(blkDesctionLen >> 8)
 		data[7] = uint8(blkDesctionLen)
 	}
-	if rlen := uint32(len(data)); rlen > allocLen {
-		cmd.InSDBBuffer.Resid = allocLen
-	}
-	copy(cmd.InSDBBuffer.Buffer, data)
+	returnParameterData(cmd, data, allocLen)
 	return api.SAMStatGood
 sense:
 	BuildSenseData(cmd, key, asc)
 	return api.SAMStatCheckCondition
 }
 
+// changeableMask returns the mask of the changeable values of a mode page.
+func changeableMask(size uint8, data []byte) []byte {
+	mask := make([]byte, size)
+	copy(mask, data[size:])
+	return mask
+}
+
 /*
  * SPCSendDiagnostics Implements SCSI SEND DIAGNOSTIC command
  * The SEND DIAGNOSTIC command requests the device server to perform diagnostic operations
@@ -713,14 +713,14 @@ func reportOpcodesAll(cmd *api.SCSICommand, rctd int) error {
 		// timeout descriptor
 		if rctd != 0 {
 			// length == 0x0a
-			data[1] = 0x0a
-			for n := 0; n < 12; n++ {
+			data = append(data, 0x00, 0x0a)
+			for n := 0; n < 10; n++ {
 				data = append(data, 0x00)
 			}
 		}
 	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(len(data)-4)))
-	copy(cmd.InSDBBuffer.Buffer[4:], data[4:])
+	copy(data, util.MarshalUint32(uint32(len(data)-4)))
+	returnParameterData(cmd, data, util.GetUnalignedUint32(cmd.SCB[6:10]))
 	return nil
 }
 
@@ -1404,23 +1404,8 @@ sense:
  * 6.39 - REQUEST SENSE
  */
 func SPCRequestSense(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		allocationLength uint32
-		actualLength     uint32
-	)
-
-	allocationLength = util.GetUnalignedUint32(cmd.SCB[4:8])
-	if allocationLength > cmd.InSDBBuffer.Length {
-		allocationLength = cmd.InSDBBuffer.Length
-	}
 	BuildSenseData(cmd, NO_SENSE, NO_ADDITIONAL_SENSE)
-	if cmd.SenseBuffer.Length < allocationLength {
-		actualLength = cmd.SenseBuffer.Length
-	} else {
-		actualLength = allocationLength
-	}
-	copy(cmd.InSDBBuffer.Buffer, cmd.SenseBuffer.Buffer[:actualLength])
-	cmd.InSDBBuffer.Resid = uint32(actualLength)
+	returnParameterData(cmd, cmd.SenseBuffer.Buffer, uint32(cmd.SCB[4]))
 
 	// reset sense buffer in cmnd
 	cmd.SenseBuffer = &api.SenseBuffer{}
-- 
2.43.0


From c13f631e33d8f0aee13bdb8d0caa510508247792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 07/10] fix: address logical units by their whole number,
 reserve and release units, keep LUN maps consistent

---
 pkg/api/types.go       |  2 ++
 pkg/port/iscsit/cmd.go | 22 +++++++++++++--
 pkg/scsi/lun.go        | 16 +++++++++++
 pkg/scsi/sbc.go        | 11 +-------
 pkg/scsi/scsi.go       | 26 ++++++++++++++---
 pkg/scsi/scsilumap.go  | 64 +++++++++++++++++++++++++++++++-----------
 pkg/scsi/spc.go        | 18 ++++--------
 pkg/scsi/target.go     | 58 +++++++++++++++++++++++---------------
 8 files changed, 150 insertions(+), 67 deletions(-)

diff --git a/pkg/api/types.go b/pkg/api/types.go
index c3abe3a..6d3483d 100644
--- a/pkg/api/types.go
+++ b/pkg/api/types.go
@@ -385,6 +385,8 @@ type SCSIReservation struct {
 }
 
 type SCSILu struct {
+	// held for writing by commands that must not overlap any other
+	Mutex               sync.RWMutex
 	Address             uint64
 	Size                uint64
 	UUID                uint64
diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index fb3a06e..1d0c945 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -18,6 +18,7 @@ package iscsit
 
 import (
 	"bytes"
+	"encoding/binary"
 	"fmt"
 	"strings"
 	"time"
@@ -219,6 +220,23 @@ func ParseUint(data []byte) uint64 {
 	return out
 }
 
+// decodeLUN returns the single level logical unit number of a LUN field (SAM,
+// peripheral or flat space addressing); other forms give a number nothing is
+// mapped to.
+func decodeLUN(field []byte) (lun [8]uint8) {
+	number := ^uint64(0)
+	if ParseUint(field[2:8]) == 0 {
+		switch {
+		case field[0] == 0:
+			number = uint64(field[1])
+		case field[0]>>6 == 1:
+			number = ParseUint(field[0:2]) & 0x3fff
+		}
+	}
+	binary.LittleEndian.PutUint64(lun[:], number)
+	return lun
+}
+
 func parseHeader(data []byte) (*ISCSICommand, error) {
 	if len(data) != BHS_SIZE {
 		return nil, fmt.Errorf("garbled header")
@@ -234,7 +252,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	m.StartTime = time.Now()
 	switch m.OpCode {
 	case OpSCSICmd:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = decodeLUN(data[8:16])
 		m.ExpectedDataLen = uint32(ParseUint(data[20:24]))
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.Read = data[1]&0x40 == 0x40
@@ -255,7 +273,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
 	case OpSCSIOut:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = decodeLUN(data[8:16])
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.DataSN = uint32(ParseUint(data[36:40]))
 		m.BufferOffset = uint32(ParseUint(data[40:44]))
diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 244b24a..56acb4b 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -90,6 +90,22 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 		fnop := fn.(SCSIDeviceOperation)
 		// TODO host := cmd.ITNexus.Host
 		host := 0
+		switch api.SCSICommandType(op) {
+		case api.RESERVE, api.RELEASE, api.START_STOP, api.ORWRITE_16,
+			api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
+			cmd.Device.Mutex.Lock()
+			defer cmd.Device.Mutex.Unlock()
+		default:
+			cmd.Device.Mutex.RLock()
+			defer cmd.Device.Mutex.RUnlock()
+		}
+		switch api.SCSICommandType(op) {
+		case api.INQUIRY, api.REQUEST_SENSE, api.REPORT_LUNS, api.RELEASE:
+		default:
+			if reservedByOther(cmd) {
+				return api.SAMStatReservationConflict
+			}
+		}
 		cmd.State = api.SCSICommandProcessed
 		return fnop.CommandPerformFunc(host, cmd)
 	}
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index ddb2df0..e4bf06a 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -20,7 +20,6 @@ package scsi
 import (
 	"encoding/binary"
 	"fmt"
-	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -275,10 +274,6 @@ func SBCFormatUnit(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc = ASC_INVALID_FIELD_IN_CDB
 	)
 
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
 	if !cmd.Device.Attrs.Online {
 		key = NOT_READY
 		asc = ASC_MEDIUM_NOT_PRESENT
@@ -529,11 +524,7 @@ func SBCReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SBCRelease(host int, cmd *api.SCSICommand) api.SAMStat {
-	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
-	if err := deviceRelease(cmd.Target.TID, cmd.ITNexusID, lun, false); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
+	deviceRelease(cmd.Device, cmd.ITNexusID, false)
 	return api.SAMStatGood
 }
 
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index b752880..1689824 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -50,7 +50,18 @@ func (s *SCSITargetService) GetTargetList() ([]api.SCSITarget, error) {
 	result := []api.SCSITarget{}
 	s.mutex.RLock()
 	for _, t := range s.Targets {
-		result = append(result, *t)
+		info := api.SCSITarget{Name: t.Name, TID: t.TID, LID: t.LID, State: t.State,
+			ITNexus: map[uuid.UUID]*api.ITNexus{}}
+		for _, tpg := range t.TargetPortGroups {
+			info.TargetPortGroups = append(info.TargetPortGroups, &api.TargetPortGroup{tpg.GroupID,
+				append([]*api.SCSITargetPort{}, tpg.TargetPortGroup...)})
+		}
+		t.ITNexusMutex.Lock()
+		for id, itn := range t.ITNexus {
+			info.ITNexus[id] = itn
+		}
+		t.ITNexusMutex.Unlock()
+		result = append(result, info)
 	}
 	s.mutex.RUnlock()
 	return result, nil
@@ -76,12 +87,15 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 	var (
 		target *api.SCSITarget
 		itn    *api.ITNexus
+		// maps in use are never changed, only replaced
+		devices api.LUNMap
 	)
 
 	s.mutex.RLock()
 	for _, t := range s.Targets {
 		if t.TID == tid {
 			target = t
+			devices = t.Devices
 			break
 		}
 	}
@@ -90,22 +104,26 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 		return fmt.Errorf("Cannot find the target with ID(%d)", tid)
 	}
 	scmd.Target = target
+	target.ITNexusMutex.Lock()
 	for _, it := range target.ITNexus {
 		if uuid.Equal(it.ID, scmd.ITNexusID) {
 			itn = it
 			break
 		}
 	}
+	target.ITNexusMutex.Unlock()
 	scmd.ITNexus = itn
 	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))
-	scmd.Device = target.Devices[lun]
+	scmd.Device = devices[lun]
 
 	log.Debugf("scsi opcode: 0x%x, LUN: %d", int(scmd.SCB[0]), binary.LittleEndian.Uint64(scmd.Lun[:]))
 
 	if scmd.Device == nil {
 		scmd.Device = target.LUN0
-		if lun != 0 {
-			BuildSenseData(scmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+		switch op := api.SCSICommandType(scmd.SCB[0]); {
+		case lun == 0 && (op == api.INQUIRY || op == api.REPORT_LUNS || op == api.REQUEST_SENSE):
+		default:
+			BuildSenseData(scmd, ILLEGAL_REQUEST, ASC_LUN_NOT_SUPPORTED)
 			scmd.Result = api.SAMStatCheckCondition.Stat
 			log.Warnf("%v", api.SAMStatCheckCondition.Err)
 			return nil
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index a6fb823..58356b1 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -52,12 +52,39 @@ type LUNMapping struct {
 
 func mappingLUN(lm LUNMapping) {
 	device := globalSCSILUMap.AllDevices[lm.DeviceID]
-	lunMap := globalSCSILUMap.TargetsLUNMap[lm.TargetName]
-	if lunMap == nil {
-		globalSCSILUMap.TargetsLUNMap[lm.TargetName] = make(api.LUNMap)
-		lunMap = globalSCSILUMap.TargetsLUNMap[lm.TargetName]
-	}
+	lunMap := copyLUNMap(globalSCSILUMap.TargetsLUNMap[lm.TargetName])
 	lunMap[lm.LUN] = device
+	globalSCSILUMap.TargetsLUNMap[lm.TargetName] = lunMap
+	// Init SCSISimpleReservationOperator
+	op := GetSCSIReservationOperator()
+	if simpleOp, ok := op.(*SCSISimpleReservationOperator); ok {
+		simpleOp.InitLUReservation(lm.TargetName, lm.DeviceID)
+	}
+}
+
+// copyLUNMap is used for every change, because commands look up the map they got
+func copyLUNMap(lunMap api.LUNMap) api.LUNMap {
+	newMap := make(api.LUNMap)
+	for lun, device := range lunMap {
+		newMap[lun] = device
+	}
+	return newMap
+}
+
+// allDevices returns every device that is configured or mapped
+func allDevices() []*api.SCSILu {
+	globalSCSILUMap.mutex.RLock()
+	defer globalSCSILUMap.mutex.RUnlock()
+	devices := []*api.SCSILu{}
+	for _, lu := range globalSCSILUMap.AllDevices {
+		devices = append(devices, lu)
+	}
+	for _, lunMap := range globalSCSILUMap.TargetsLUNMap {
+		for _, lu := range lunMap {
+			devices = append(devices, lu)
+		}
+	}
+	return devices
 }
 
 func GetLU(tgtName string, LUN uint64) *api.SCSILu {
@@ -114,20 +141,23 @@ func DelBackendStorage(deviceID uint64) {
 
 func AddLUNMapping(m LUNMapping) error {
 	globalSCSILUMap.mutex.Lock()
-	defer globalSCSILUMap.mutex.Unlock()
-	mappingLUN(m)
-	// Init SCSISimpleReservationOperator
-	op := GetSCSIReservationOperator()
-	if simpleOp, ok := op.(*SCSISimpleReservationOperator); ok {
-		simpleOp.InitLUReservation(m.TargetName, m.DeviceID)
+	if _, ok := globalSCSILUMap.AllDevices[m.DeviceID]; !ok {
+		globalSCSILUMap.mutex.Unlock()
+		return fmt.Errorf("device %d does not exist", m.DeviceID)
 	}
+	mappingLUN(m)
+	globalSCSILUMap.mutex.Unlock()
+	NewSCSITargetService().RereadTargetLUNMap()
 	return nil
 }
 
 func DelLUNMapping(m LUNMapping) {
 	globalSCSILUMap.mutex.Lock()
-	defer globalSCSILUMap.mutex.Unlock()
-	delete(globalSCSILUMap.TargetsLUNMap[m.TargetName], m.LUN)
+	lunMap := copyLUNMap(globalSCSILUMap.TargetsLUNMap[m.TargetName])
+	delete(lunMap, m.LUN)
+	globalSCSILUMap.TargetsLUNMap[m.TargetName] = lunMap
+	globalSCSILUMap.mutex.Unlock()
+	NewSCSITargetService().RereadTargetLUNMap()
 }
 
 func InitSCSILUMap(config *config.Config) error {
@@ -144,7 +174,9 @@ func InitSCSILUMap(config *config.Config) error {
 				return fmt.Errorf("LU Number must be a number")
 			}
 			m := LUNMapping{DeviceID: deviceID, LUN: lun, TargetName: tgtName}
-			AddLUNMapping(m)
+			if err := AddLUNMapping(m); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -166,13 +198,13 @@ func InitSCSILUMapEx(config *config.BackendStorage, tgtName string, lun uint64,
 
 	globalSCSILUMap.mutex.Lock()
 	globalSCSILUMap.AllDevices[config.DeviceID] = lu
-	globalSCSILUMap.mutex.Unlock()
-
 	mappingLUN(LUNMapping{
 		DeviceID:   config.DeviceID,
 		LUN:        lun,
 		TargetName: tgtName,
 	},
 	)
+	globalSCSILUMap.mutex.Unlock()
+	NewSCSITargetService().RereadTargetLUNMap()
 	return nil
 }
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index fadb0e7..1e65871 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -416,6 +416,7 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		availLength      uint32 = 0
 		allocationLength uint32
 		buf              *bytes.Buffer = &bytes.Buffer{}
+		devices                        = GetTargetLUNMap(cmd.Target.Name)
 	)
 	// Get Allocation Length
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[6:10])
@@ -424,10 +425,10 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if _, ok := cmd.Target.Devices[0]; !ok {
-		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
+	if _, ok := devices[0]; !ok {
+		availLength = 8 * uint32(len(devices)+1)
 	} else {
-		availLength = 8 * uint32(len(cmd.Target.Devices))
+		availLength = 8 * uint32(len(devices))
 	}
 
 	// LUN list length
@@ -439,11 +440,11 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	//For LUN0
-	if _, ok := cmd.Target.Devices[0]; !ok {
+	if _, ok := devices[0]; !ok {
 		buf.Write(util.MarshalUint64(0))
 	}
 
-	for lun := range cmd.Target.Devices {
+	for lun := range devices {
 		luns = append(luns, lun)
 	}
 	sort.Slice(luns, func(i, j int) bool { return luns[i] < luns[j] })
@@ -472,10 +473,6 @@ func SPCStartStop(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		pwrcnd, loej, start byte
 	)
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
 	if cmd.InSDBBuffer != nil {
 		cmd.InSDBBuffer.Resid = 0
 	}
@@ -534,9 +531,6 @@ func SPCTestUnit(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
 	// PREVENT_MASK = 0x03
 	if cmd.ITNexusLuInfo != nil {
 		cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 3f12696..e2c0dc8 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -18,7 +18,6 @@ package scsi
 
 import (
 	"fmt"
-	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
 	uuid "github.com/satori/go.uuid"
@@ -38,10 +37,12 @@ func (s *SCSITargetService) NewSCSITarget(tid int, driverName, name string) (*ap
 		ITNexus:          make(map[uuid.UUID]*api.ITNexus),
 	}
 	tpg := &api.TargetPortGroup{0, []*api.SCSITargetPort{}}
-	s.Targets = append(s.Targets, target)
-	target.Devices = GetTargetLUNMap(target.Name)
 	target.LUN0 = NewLUN0()
 	target.TargetPortGroups = append(target.TargetPortGroups, tpg)
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	target.Devices = GetTargetLUNMap(target.Name)
+	s.Targets = append(s.Targets, target)
 	return target, nil
 }
 
@@ -91,34 +92,45 @@ func AddITNexus(target *api.SCSITarget, itnexus *api.ITNexus) bool {
 
 func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 	target.ITNexusMutex.Lock()
-	defer target.ITNexusMutex.Unlock()
 	delete(target.ITNexus, itnexus.ID)
+	target.ITNexusMutex.Unlock()
+	for _, lu := range allDevices() {
+		ReleaseDevice(lu, itnexus.ID, false)
+	}
 }
 
-func deviceReserve(cmd *api.SCSICommand) error {
-	var lu *api.SCSILu
-	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
+// reservedByOther tells whether another I_T nexus has reserved the device
+func reservedByOther(cmd *api.SCSICommand) bool {
+	id := cmd.Device.ReserveID
+	return !uuid.Equal(id, uuid.Nil) && !uuid.Equal(id, cmd.ITNexusID)
+}
 
-	for tgtLUN, lunDev := range cmd.Target.Devices {
-		if tgtLUN == lun {
-			lu = lunDev
-			break
-		}
+// deviceReserve is called with the device's mutex held
+func deviceReserve(cmd *api.SCSICommand) error {
+	if reservedByOther(cmd) {
+		log.Errorf("already reserved %v, %v", cmd.Device.ReserveID, cmd.ITNexusID)
+		return fmt.Errorf("already reserved")
 	}
-	if lu == nil {
-		log.Errorf("invalid target and lun %d %d", cmd.Target.TID, lun)
-		return nil
+	// a nexus that is gone would never release it
+	cmd.Target.ITNexusMutex.Lock()
+	defer cmd.Target.ITNexusMutex.Unlock()
+	if _, ok := cmd.Target.ITNexus[cmd.ITNexusID]; !ok {
+		return fmt.Errorf("no such I_T nexus")
 	}
+	cmd.Device.ReserveID = cmd.ITNexusID
+	return nil
+}
 
-	if !uuid.Equal(lu.ReserveID, uuid.Nil) && uuid.Equal(lu.ReserveID, cmd.ITNexusID) {
-		log.Errorf("already reserved %d, %d", lu.ReserveID, cmd.ITNexusID)
-		return fmt.Errorf("already reserved")
+// deviceRelease is called with the device's mutex held
+func deviceRelease(lu *api.SCSILu, itn uuid.UUID, force bool) {
+	if force || uuid.Equal(lu.ReserveID, itn) {
+		lu.ReserveID = uuid.Nil
 	}
-	lu.ReserveID = cmd.ITNexusID
-	return nil
 }
 
-func deviceRelease(tid int, itn uuid.UUID, lun uint64, force bool) error {
-	// TODO
-	return nil
+// ReleaseDevice ends a reservation of the device by the nexus, or by any
+func ReleaseDevice(lu *api.SCSILu, itn uuid.UUID, force bool) {
+	lu.Mutex.Lock()
+	defer lu.Mutex.Unlock()
+	deviceRelease(lu, itn, force)
 }
-- 
2.43.0


From b236885f16dd42cec9d2034825dbc3fda7e39ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 08/10] fix: persistent reservations follow the registration,
 holder and preemption rules

---
 pkg/scsi/cmd.go     |  22 +++----
 pkg/scsi/scsi_pr.go |  46 ++++++-------
 pkg/scsi/spc.go     | 156 +++++++++++++++++++++-----------------------
 3 files changed, 107 insertions(+), 117 deletions(-)

diff --git a/pkg/scsi/cmd.go b/pkg/scsi/cmd.go
index 4bb80c4..2e4d7aa 100644
--- a/pkg/scsi/cmd.go
+++ b/pkg/scsi/cmd.go
@@ -51,21 +51,21 @@ const (
 
 const (
 	//  6-byte commands
-	CDB_GROUPID_0 = 6
+	CDB_GROUPID_0 = 0
 	// 10-byte commands
-	CDB_GROUPID_1 = 10
+	CDB_GROUPID_1 = 1
 	// 10-byte commands
-	CDB_GROUPID_2 = 10
+	CDB_GROUPID_2 = 2
 	// reserved
-	CDB_GROUPID_3 = 0
+	CDB_GROUPID_3 = 3
 	// 16-byte commands
-	CDB_GROUPID_4 = 16
+	CDB_GROUPID_4 = 4
 	// 12-byte commands
-	CDB_GROUPID_5 = 12
+	CDB_GROUPID_5 = 5
 	// vendor specific
-	CDB_GROUPID_6 = 0
+	CDB_GROUPID_6 = 6
 	// vendor specific
-	CDB_GROUPID_7 = 0
+	CDB_GROUPID_7 = 7
 )
 
 func SCSICDBGroupID(opcode byte) byte {
@@ -252,7 +252,7 @@ func SCSICDBBufXLength(scb []byte) (int64, bool) {
 	switch group {
 	case CDB_GROUPID_0:
 		length = int64(scb[4])
-	case CDB_GROUPID_2:
+	case CDB_GROUPID_1, CDB_GROUPID_2:
 		length = int64(util.GetUnalignedUint16(scb[7:9]))
 	case CDB_GROUPID_3:
 		if opcode == 0x7F {
@@ -261,9 +261,9 @@ func SCSICDBBufXLength(scb []byte) (int64, bool) {
 			ok = false
 		}
 	case CDB_GROUPID_4:
-		length = int64(util.GetUnalignedUint32(scb[6:10]))
-	case CDB_GROUPID_5:
 		length = int64(util.GetUnalignedUint32(scb[10:14]))
+	case CDB_GROUPID_5:
+		length = int64(util.GetUnalignedUint32(scb[6:10]))
 	default:
 		ok = false
 	}
diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index f61ec30..c10b9ee 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -17,6 +17,8 @@ limitations under the License.
 package scsi
 
 import (
+	"sync"
+
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/satori/go.uuid"
 )
@@ -41,6 +43,14 @@ type SCSIReservationOperator interface {
 	Save(tgtName string, devUUID uint64) bool
 }
 
+// reservationMutex guards the operator while a command uses it
+var reservationMutex sync.Mutex
+
+// isAllRegistrants tells whether every registrant holds such a reservation
+func isAllRegistrants(resType uint8) bool {
+	return resType == PR_TYPE_WRITE_EXCLUSIVE_ALLREG || resType == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
+}
+
 var onePROperator SCSIReservationOperator
 
 func GetSCSIReservationOperator() SCSIReservationOperator {
@@ -72,6 +82,8 @@ func (op *SCSISimpleReservationOperator) InitLUReservation(tgtName string, devUU
 		targetRes SCSILUReservationMap
 		ok        bool
 	)
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
 
 	if targetRes, ok = op.targetReservations[tgtName]; !ok {
 		op.targetReservations[tgtName] = make(SCSILUReservationMap)
@@ -189,7 +201,7 @@ func (op *SCSISimpleReservationOperator) GetReservationList(tgtName string, devU
 
 func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName string, devUUID uint64, res *api.SCSIReservation) {
 	var (
-		i         int = -1
+		i         int
 		ok        bool
 		tmpRes    *api.SCSIReservation
 		LURes     *SCSILUReservation
@@ -207,22 +219,15 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 
 	for i, tmpRes = range resArray {
 		if tmpRes == res {
+			resArray[i] = resArray[len(resArray)-1]
+			resArray[len(resArray)-1] = nil
+			resArray = resArray[:len(resArray)-1]
+			LURes.Reservations = resArray
 			break
 		}
 	}
 
-	if i >= 0 {
-		resArray[i] = resArray[len(resArray)-1]
-		resArray[len(resArray)-1] = nil
-		resArray = resArray[:len(resArray)-1]
-		LURes.Reservations = resArray
-	}
-
-	if curRes == nil {
-		return
-	}
-
-	if !op.IsCurrentReservation(tgtName, devUUID, res) {
+	if curRes != res {
 		return
 	}
 
@@ -238,7 +243,6 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 			}
 			//TODO send sense code
 		}
-		LURes.PRGeneration++
 	} else {
 		for i, tmpRes = range resArray {
 			if tmpRes != res {
@@ -249,7 +253,6 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 				break
 			}
 		}
-		LURes.PRGeneration++
 	}
 
 }
@@ -259,7 +262,7 @@ func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUU
 		LURes     *SCSILUReservation
 		targetRes SCSILUReservationMap
 		tmpRes    *api.SCSIReservation
-		i         int = -1
+		i         int
 		ok        bool
 	)
 	if targetRes, ok = op.targetReservations[tgtName]; !ok {
@@ -272,16 +275,13 @@ func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUU
 
 	for i, tmpRes = range resArray {
 		if tmpRes == res {
+			resArray[i] = resArray[len(resArray)-1]
+			resArray[len(resArray)-1] = nil
+			resArray = resArray[:len(resArray)-1]
+			LURes.Reservations = resArray
 			break
 		}
 	}
-
-	if i >= 0 {
-		resArray[i] = resArray[len(resArray)-1]
-		resArray[len(resArray)-1] = nil
-		resArray = resArray[:len(resArray)-1]
-		LURes.Reservations = resArray
-	}
 }
 
 func (op *SCSISimpleReservationOperator) AddReservation(tgtName string, devUUID uint64, res *api.SCSIReservation) bool {
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 1e65871..55cf926 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -772,6 +772,8 @@ func SPCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 	serviceAction := cmd.Device.DeviceProtocol.PerformServiceAction(opcode, action)
 	if serviceAction != nil {
 		fnop := serviceAction.(*SCSIServiceAction)
+		reservationMutex.Lock()
+		defer reservationMutex.Unlock()
 		return fnop.CommandPerformFunc(host, cmd)
 	}
 	if cmd.InSDBBuffer != nil {
@@ -784,9 +786,8 @@ func SPCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		addBuf           []byte = []byte{}
-		allocationLength uint16
+		allocationLength uint16 = util.GetUnalignedUint16(cmd.SCB[7:9])
 		additionLength   uint32
-		l                int = 0
 	)
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
@@ -802,11 +803,8 @@ func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 	additionLength = uint32(len(addBuf))
 
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(PRGeneration))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(additionLength))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], addBuf)
-
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
+	addBuf = append(append(util.MarshalUint32(PRGeneration), util.MarshalUint32(additionLength)...), addBuf...)
+	returnParameterData(cmd, addBuf, uint32(allocationLength))
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -818,9 +816,8 @@ sense:
 
 func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf                     = &bytes.Buffer{}
-		data             []byte = []byte{}
-		addBuf                  = &bytes.Buffer{}
+		buf              = &bytes.Buffer{}
+		addBuf           = &bytes.Buffer{}
 		allocationLength uint16
 		additionLength   uint32
 	)
@@ -839,7 +836,11 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 	if curRes == nil {
 		additionLength = 0
 	} else {
-		addBuf.Write(util.MarshalUint64(curRes.Key))
+		if isAllRegistrants(curRes.Type) {
+			addBuf.Write(util.MarshalUint64(0))
+		} else {
+			addBuf.Write(util.MarshalUint64(curRes.Key))
+		}
 		//Obsolete
 		addBuf.WriteByte(0x00)
 		addBuf.WriteByte(0x00)
@@ -850,20 +851,16 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 		//SCOPE and TYPE
 		scope_type := (curRes.Scope << 4) | curRes.Type
 		addBuf.WriteByte(scope_type)
+		//Obsolete
+		addBuf.WriteByte(0x00)
+		addBuf.WriteByte(0x00)
 		additionLength = uint32(0x10)
 	}
 
 	buf.Write(util.MarshalUint32(PRGeneration))
 	buf.Write(util.MarshalUint32(additionLength))
 	buf.Write(addBuf.Bytes())
-	data = buf.Bytes()
-	if allocationLength < uint16(additionLength) {
-		copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-	} else {
-		copy(cmd.InSDBBuffer.Buffer, data)
-	}
-
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
+	returnParameterData(cmd, buf.Bytes(), uint32(allocationLength))
 	return api.SAMStatGood
 
 sense:
@@ -876,35 +873,30 @@ sense:
 
 func SPCPRReportCapabilities(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		availLength  uint32 = 8
-		actualLength uint32 = 0
+		data = make([]byte, 8)
 	)
 	allocationLength := uint32(util.GetUnalignedUint16(cmd.SCB[7:9]))
 	if allocationLength < 8 {
 		goto sense
 	}
-	if cmd.InSDBBuffer.Length < allocationLength {
-		goto sense
-	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint16(uint16(8)))
+	copy(data, util.MarshalUint16(uint16(8)))
 	// Persistent Reservation Type Mask format
 	// Type Mask Valid (TMV)
-	cmd.InSDBBuffer.Buffer[3] |= 0x80
+	data[3] |= 0x80
 	// PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
-	cmd.InSDBBuffer.Buffer[4] |= 0x80
+	data[4] |= 0x80
 	// PR_TYPE_EXCLUSIVE_ACCESS_REGONLY
-	cmd.InSDBBuffer.Buffer[4] |= 0x40
+	data[4] |= 0x40
 	// PR_TYPE_WRITE_EXCLUSIVE_REGONLY
-	cmd.InSDBBuffer.Buffer[4] |= 0x20
+	data[4] |= 0x20
 	// PR_TYPE_EXCLUSIVE_ACCESS
-	cmd.InSDBBuffer.Buffer[4] |= 0x08
+	data[4] |= 0x08
 	// PR_TYPE_WRITE_EXCLUSIVE
-	cmd.InSDBBuffer.Buffer[4] |= 0x02
+	data[4] |= 0x02
 	// PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
-	cmd.InSDBBuffer.Buffer[5] |= 0x01
+	data[5] |= 0x01
 
-	actualLength = availLength
-	cmd.InSDBBuffer.Resid = uint32(actualLength)
+	returnParameterData(cmd, data, allocationLength)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -919,9 +911,8 @@ func reservationCheck(host int, cmd *api.SCSICommand) bool {
 		paramLen uint32
 		buf      []byte = cmd.OutSDBBuffer.Buffer
 	)
-	length, _ := SCSICDBBufXLength(cmd.SCB)
-	paramLen = uint32(length)
-	if paramLen != 24 {
+	paramLen = util.GetUnalignedUint32(cmd.SCB[5:9])
+	if paramLen != 24 || len(buf) < 24 {
 		return false
 	}
 	spec_i_pt := uint8(buf[20] & 0x08)
@@ -949,7 +940,7 @@ func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 	scsiResOp := GetSCSIReservationOperator()
 	res := scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
 
-	if scb[1] == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
+	if scb[1]&0x1f == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
 		ignoreKey = true
 	}
 	ok = reservationCheck(host, cmd)
@@ -1018,7 +1009,9 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 	resType = scb[2] & 0x0f
 
 	switch resType {
-	case PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
+	case PR_TYPE_WRITE_EXCLUSIVE,
+		PR_TYPE_EXCLUSIVE_ACCESS,
+		PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
 		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
 		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
 		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
@@ -1031,7 +1024,7 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+	if res == nil || res.Key != util.GetUnalignedUint64(cmd.OutSDBBuffer.Buffer[0:8]) {
 		return api.SAMStatReservationConflict
 	}
 
@@ -1045,6 +1038,7 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 			curRes.Scope != resScope {
 			return api.SAMStatReservationConflict
 		}
+		return api.SAMStatGood
 	}
 	res.Scope = resScope
 	res.Type = resType
@@ -1086,7 +1080,7 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 	resKey = util.GetUnalignedUint64(buf[0:8])
 
 	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+	if res == nil || resKey != res.Key {
 		return api.SAMStatReservationConflict
 	}
 
@@ -1099,10 +1093,6 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatGood
 	}
 
-	if resKey != res.Key {
-		return api.SAMStatReservationConflict
-	}
-
 	if curRes.Scope != resScope || curRes.Type != resType {
 		if cmd.InSDBBuffer != nil {
 			cmd.InSDBBuffer.Resid = 0
@@ -1187,8 +1177,8 @@ func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
 		if tmpRes != res {
 			//TODO send sense code
 		}
-		scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
 	}
+	scsiResOp.RemoveAllReservation(tgtName, devUUID)
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
 	scsiResOp.Save(tgtName, devUUID)
 	return api.SAMStatGood
@@ -1218,7 +1208,8 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-	resList := scsiResOp.GetReservationList(tgtName, devUUID)
+	// removing registrations changes the list
+	resList := append([]*api.SCSIReservation{}, scsiResOp.GetReservationList(tgtName, devUUID)...)
 
 	ok = reservationCheck(host, cmd)
 	if !ok {
@@ -1239,56 +1230,53 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatReservationConflict
 	}
 
+	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
+	if curRes != nil && sAResKey == 0 && !isAllRegistrants(curRes.Type) {
+		goto sense
+	}
 	if sAResKey != 0 {
 		ok = scsiResOp.IsKeyExists(tgtName, devUUID, sAResKey)
-		if ok {
+		if !ok {
 			return api.SAMStatReservationConflict
 		}
 	}
 
-	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
 	if curRes != nil {
-		if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
-			curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
-			if sAResKey == 0 {
-				if resType != curRes.Type ||
-					resScope != curRes.Scope {
-					resReleased = true
-				}
-				res.Type = resType
-				res.Scope = resScope
-				scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
-				removeAllRes = true
-			}
+		if isAllRegistrants(curRes.Type) {
+			resReleased = sAResKey == 0
+			removeAllRes = sAResKey == 0
 		} else {
-			if curRes.Key == resKey {
-				if resType != curRes.Type ||
-					resScope != curRes.Scope {
-					resReleased = true
-				}
-				res.Type = resType
-				res.Scope = resScope
-				scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
-			} else {
-				if sAResKey == 0 {
-					goto sense
-				}
-			}
+			resReleased = curRes.Key == sAResKey
 		}
 	}
+	if resReleased {
+		switch resType {
+		case PR_TYPE_WRITE_EXCLUSIVE,
+			PR_TYPE_EXCLUSIVE_ACCESS,
+			PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
+			PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
+			PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
+			PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
+			break
+		default:
+			goto sense
+		}
+		if resScope != PR_LU_SCOPE {
+			goto sense
+		}
+		res.Type = resType
+		res.Scope = resScope
+		scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
+	}
 
 	for _, tmpRes := range resList {
 		if tmpRes == res {
 			continue
 		}
 
-		if res.Key == resKey || removeAllRes {
+		if tmpRes.Key == sAResKey || removeAllRes {
 			//TODO send sense code
-			scsiResOp.RemoveReservation(tgtName, devUUID, res)
-		} else {
-			if resReleased {
-				//TODO send sense code
-			}
+			scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
 		}
 	}
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
@@ -1322,7 +1310,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	paramListLen = util.GetUnalignedUint32(scb[5:9])
-	if paramListLen < 24 {
+	if paramListLen < 24 || len(buf) < 24 {
 		goto sense
 	}
 	aptpl = buf[17] & 0x01
@@ -1335,7 +1323,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	resKey = util.GetUnalignedUint64(buf[0:8])
 	sAResKey = util.GetUnalignedUint64(buf[8:16])
 
-	tpidDataLen = util.GetUnalignedUint32(buf[20:25])
+	tpidDataLen = util.GetUnalignedUint32(buf[20:24])
 	if tpidDataLen < 24 || (tpidDataLen%4) != 0 {
 		goto sense
 	}
@@ -1354,7 +1342,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
-	if scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
+	if !scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
 		return api.SAMStatGood
 	}
 
@@ -1375,6 +1363,8 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	goto sense
 found:
 	//TODO check transportid
+	dstReg.Scope = curRes.Scope
+	dstReg.Type = curRes.Type
 	scsiResOp.SetCurrentReservation(tgtName, devUUID, dstReg)
 	if unreg != 0 {
 		scsiResOp.RemoveReservation(tgtName, devUUID, res)
-- 
2.43.0


From b05df6752d65f11fcaaf92f484f81d18a43e1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 09/10] fix: sessions, command ordering, solicited data, login
 negotiation and teardown follow the protocol

---
 pkg/port/iscsit/cmd.go     |  25 ++-
 pkg/port/iscsit/conn.go    |  96 +++++++--
 pkg/port/iscsit/iscsid.go  | 398 ++++++++++++++++++-------------------
 pkg/port/iscsit/iscsit.go  |   4 +-
 pkg/port/iscsit/login.go   | 138 ++++++-------
 pkg/port/iscsit/session.go | 319 +++++++++++++++++++----------
 pkg/port/iscsit/task.go    |   3 +
 pkg/scsi/sbc.go            |   2 +-
 pkg/scsi/target.go         |  28 +--
 9 files changed, 595 insertions(+), 418 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 1d0c945..02d07d9 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -56,6 +56,8 @@ const (
 const (
 	MaxBurstLength           uint32 = 262144
 	MaxRecvDataSegmentLength uint32 = 65536
+	// accepted in one login request, which may be several PDUs
+	MAX_LOGIN_TEXT = 1 << 20
 )
 
 var opCodeMap = map[OpCode]string{
@@ -102,6 +104,8 @@ type ISCSICommand struct {
 	// Residual count, of an overflow or else of an underflow
 	Resid    uint32
 	Overflow bool
+	// Aborted while it waited for its turn
+	Aborted bool
 
 	// Connection ID.
 	ConnID uint16
@@ -167,6 +171,8 @@ func (cmd *ISCSICommand) Bytes() []byte {
 		return cmd.scsiTMFRespBytes()
 	case OpReady:
 		return cmd.r2tRespBytes()
+	case OpReject:
+		return cmd.rejectBytes()
 	}
 	return nil
 }
@@ -243,6 +249,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	}
 	// TODO: sync.Pool
 	m := &ISCSICommand{}
+	m.RawHeader = data
 	m.Immediate = 0x40&data[0] == 0x40
 	m.OpCode = OpCode(data[0] & ISCSI_OPCODE_MASK)
 	m.Final = 0x80&data[1] == 0x80
@@ -267,8 +274,10 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16, api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
 			m.Write = true
 		}
-		fallthrough
 	case OpSCSITaskReq:
+		m.LUN = decodeLUN(data[8:16])
+		m.CmdSN = uint32(ParseUint(data[24:28]))
+		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
@@ -470,6 +479,20 @@ func (m *ISCSICommand) noopInBytes() []byte {
 	return buf.Bytes()
 }
 
+func (m *ISCSICommand) rejectBytes() []byte {
+	// rfc7143 11.17
+	buf := make([]byte, BHS_SIZE, BHS_SIZE+len(m.RawData))
+	buf[0] = byte(OpReject)
+	buf[1] = 0x80
+	buf[2] = m.Result
+	copy(buf[5:], util.MarshalUint32(uint32(len(m.RawData)))[1:])
+	copy(buf[16:], util.MarshalUint32(0xffffffff))
+	copy(buf[24:], util.MarshalUint32(m.StatSN))
+	copy(buf[28:], util.MarshalUint32(m.ExpCmdSN))
+	copy(buf[32:], util.MarshalUint32(m.MaxCmdSN))
+	return append(buf, m.RawData...)
+}
+
 func (m *ISCSICommand) scsiTMFRespBytes() []byte {
 	// rfc7143 11.6
 	buf := bytes.Buffer{}
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 4a6021c..6ca5c1d 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -87,6 +87,10 @@ type iscsiConnection struct {
 	txTask *iscsiTask
 
 	readLock *sync.RWMutex
+
+	// the first login request has been seen
+	loginStarted bool
+	closeOnce    sync.Once
 }
 
 type taskState int
@@ -111,6 +115,8 @@ type iscsiTask struct {
 	expR2TSN   int
 
 	r2tSN uint32
+	// end of the data requested so far
+	burstEnd int
 }
 
 func (c *iscsiConnection) init() {
@@ -118,8 +124,8 @@ func (c *iscsiConnection) init() {
 	c.refcount = 1
 	c.readLock = new(sync.RWMutex)
 	c.loginParam.sessionParam = []ISCSISessionParam{}
-	c.loginParam.tgtCSG = LoginOperationalNegotiation
-	c.loginParam.tgtNSG = LoginOperationalNegotiation
+	c.loginParam.tgtCSG = SecurityNegotiation
+	c.loginParam.tgtNSG = SecurityNegotiation
 	for _, param := range sessionKeys {
 		c.loginParam.sessionParam = append(c.loginParam.sessionParam,
 			ISCSISessionParam{idx: param.idx, Value: param.def})
@@ -143,23 +149,58 @@ func (c *iscsiConnection) close() {
 	c.conn.Close()
 }
 
+// ReInstatement makes newConn the session's connection in place of conn
 func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
+	sess := conn.session
 	conn.close()
-	conn.conn = newConn.conn
+	// what still waited for data or for its turn is lost with the connection
+	sess.PendingTasksMutex.Lock()
+	sess.PendingTasks = nil
+	sess.heldCommands = map[uint32]*ISCSICommand{}
+	sess.PendingTasksMutex.Unlock()
+	sess.ConnectionsRWMutex.Lock()
+	sess.Connections[newConn.cid] = newConn
+	sess.ConnectionsRWMutex.Unlock()
+	sess.SessionParam = newConn.loginParam.sessionParam
+	newConn.session = sess
+}
+
+// honourParams makes the connection use the negotiated limits
+func (conn *iscsiConnection) honourParams() {
+	limit := func(value uint32, idx uint) uint32 {
+		if v := conn.loginParam.sessionParam[idx].Value; v < uint(value) {
+			return uint32(v)
+		}
+		return value
+	}
+	conn.maxBurstLength = limit(MaxBurstLength, ISCSI_PARAM_MAX_BURST)
+	conn.maxRecvDataSegmentLength = limit(conn.maxBurstLength, ISCSI_PARAM_MAX_XMIT_DLENGTH)
+	conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
+}
+
+// nextStatSN returns the status number of a response, which is used up if the
+// response carries status.
+func (conn *iscsiConnection) nextStatSN(oc OpCode) uint32 {
+	sn := conn.statSN
+	if oc != OpReady {
+		conn.statSN++
+	}
+	return sn
 }
 
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
 	conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: &api.SCSICommand{}}
 	conn.txIOState = IOSTATE_TX_BHS
-	conn.statSN += 1
-	if task == nil {
-		task = conn.rxTask
+	// the request that is answered, which need not be the last one received
+	req := conn.req
+	if task != nil {
+		req = task.cmd
 	}
 	conn.resp = &ISCSICommand{
-		StartTime:       conn.req.StartTime,
-		StatSN:          conn.req.ExpStatSN,
-		TaskTag:         conn.req.TaskTag,
-		ExpectedDataLen: conn.req.ExpectedDataLen,
+		StartTime:       req.StartTime,
+		StatSN:          conn.nextStatSN(oc),
+		TaskTag:         req.TaskTag,
+		ExpectedDataLen: req.ExpectedDataLen,
 	}
 	if conn.session != nil {
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
@@ -169,15 +210,17 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 	case OpReady:
 		conn.resp.OpCode = OpReady
 		conn.resp.R2TSN = task.r2tSN
+		task.r2tSN++
 		conn.resp.Final = true
 		conn.resp.BufferOffset = uint32(task.offset)
 		conn.resp.DesiredLength = uint32(task.r2tCount)
 		if val := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value; task.r2tCount > int(val) {
 			conn.resp.DesiredLength = uint32(val)
 		}
+		task.burstEnd = task.offset + int(conn.resp.DesiredLength)
 	case OpSCSIIn, OpSCSIResp:
 		conn.resp.OpCode = oc
-		conn.resp.SCSIOpCode = conn.req.SCSIOpCode
+		conn.resp.SCSIOpCode = req.SCSIOpCode
 		conn.resp.Immediate = true
 		conn.resp.Final = true
 		conn.resp.SCSIResponse = 0x00
@@ -214,25 +257,38 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
+		if oc == OpReject {
+			conn.resp.Result = ISCSI_REASON_CMD_NOT_SUPPORTED
+			conn.resp.RawData = req.RawHeader
+		} else {
+			// the ping data, as far as the initiator takes it
+			conn.resp.RawData = req.RawData
+			if max := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value; uint(len(req.RawData)) > max {
+				conn.resp.RawData = req.RawData[:max]
+			}
+		}
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 		conn.resp.Result = task.result
 	case OpLoginResp:
 		conn.resp.OpCode = OpLoginResp
 		conn.resp.Transit = conn.loginParam.tgtTrans
 		conn.resp.CSG = conn.req.CSG
 		conn.resp.NSG = conn.loginParam.tgtNSG
-		conn.resp.ExpCmdSN = conn.req.CmdSN
-		conn.resp.MaxCmdSN = conn.req.CmdSN
-		if conn.req.CSG != SecurityNegotiation {
-			negoKeys, err := conn.processLoginData()
-			if err != nil {
-				return err
-			}
+		conn.resp.ISID = conn.req.ISID
+		conn.resp.TSIH = conn.req.TSIH
+		if conn.session != nil {
+			conn.resp.TSIH = conn.session.TSIH
+		} else {
+			conn.resp.ExpCmdSN = conn.req.CmdSN
+			conn.resp.MaxCmdSN = conn.req.CmdSN
+		}
+		negoKeys := conn.loginParam.negoKeys
+		conn.loginParam.negoKeys = nil
+		conn.resp.RawData = util.MarshalKVText(negoKeys)
+		if conn.req.CSG != SecurityNegotiation && !conn.req.Cont {
 			if !conn.loginParam.keyDeclared {
 				negoKeys = loginKVDeclare(conn, negoKeys)
 				conn.loginParam.keyDeclared = true
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 8dc3d70..6e5186d 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -17,11 +17,11 @@ limitations under the License.
 package iscsit
 
 import (
+	"encoding/binary"
 	"fmt"
 	"net"
 	"os"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 
@@ -48,6 +48,8 @@ var (
 	EnableStats   bool
 	CurrentHostIP string
 	IPMutex       sync.Mutex
+	// open connections of each host
+	hostConnections = map[string]int{}
 )
 
 type ISCSITargetDriver struct {
@@ -59,6 +61,7 @@ type ISCSITargetDriver struct {
 	isClientConnected      bool
 	enableStats            bool
 	mu                     *sync.RWMutex
+	bindMutex              sync.Mutex
 	l                      net.Listener
 	state                  uint8
 	OpCode                 int
@@ -109,30 +112,46 @@ func (s *ISCSITargetDriver) ReleaseTSIH(tsih uint16) {
 }
 
 func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if _, ok := s.iSCSITargets[tgtName]; ok {
 		return fmt.Errorf("target name has been existed")
 	}
-	stgt, err := s.SCSI.NewSCSITarget(len(s.iSCSITargets), "iscsi", tgtName)
-	if err != nil {
-		return err
-	}
-	tgt := newISCSITarget(stgt)
-	s.iSCSITargets[tgtName] = tgt
-	scsiTPG := tgt.SCSITarget.TargetPortGroups[0]
+	tpgts := map[uint16]*iSCSITPGT{}
+	scsiPorts := []*api.SCSITargetPort{}
 	targetConfig := configInfo.ISCSITargets[tgtName]
 	for tpgt, portalIDArrary := range targetConfig.TPGTs {
 		tpgtNumber, _ := strconv.ParseUint(tpgt, 10, 16)
-		tgt.TPGTs[uint16(tpgtNumber)] = &iSCSITPGT{uint16(tpgtNumber), make(map[string]struct{})}
+		tpgts[uint16(tpgtNumber)] = &iSCSITPGT{uint16(tpgtNumber), make(map[string]struct{})}
 		targetPortName := fmt.Sprintf("%s,t,0x%02x", tgtName, tpgtNumber)
-		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
+		scsiPorts = append(scsiPorts, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
 		for _, portalID := range portalIDArrary {
-			portal := configInfo.ISCSIPortals[portalID]
-			s.AddiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+			portal, ok := findPortal(configInfo, portalID)
+			if !ok {
+				return fmt.Errorf("No such portal: %d", portalID)
+			}
+			tpgts[uint16(tpgtNumber)].Portals[portal] = struct{}{}
 		}
 	}
+	stgt, err := s.SCSI.NewSCSITarget(len(s.iSCSITargets), "iscsi", tgtName, scsiPorts...)
+	if err != nil {
+		return err
+	}
+	tgt := newISCSITarget(stgt)
+	tgt.TPGTs = tpgts
+	s.iSCSITargets[tgtName] = tgt
 	return nil
 }
 
+func findPortal(configInfo *config.Config, id uint64) (string, bool) {
+	for _, portal := range configInfo.ISCSIPortals {
+		if uint64(portal.ID) == id {
+			return portal.Portal, true
+		}
+	}
+	return "", false
+}
+
 func (s *ISCSITargetDriver) SetClusterIP(ip string) {
 	s.clusterIP = ip
 }
@@ -152,6 +171,8 @@ func (s *ISCSITargetDriver) AddiSCSIPortal(tgtName string, tpgt uint16, portal s
 		tpgtInfo *iSCSITPGT
 	)
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if target, ok = s.iSCSITargets[tgtName]; !ok {
 		return fmt.Errorf("No such target: %s", tgtName)
 	}
@@ -177,6 +198,8 @@ func (s *ISCSITargetDriver) HasPortal(tgtName string, tpgt uint16, portal string
 		tpgtInfo *iSCSITPGT
 	)
 
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	if target, ok = s.iSCSITargets[tgtName]; !ok {
 		return false
 	}
@@ -218,20 +241,21 @@ func (s *ISCSITargetDriver) Run(port int) error {
 			continue
 		}
 
-		remoteIP := strings.Split(conn.RemoteAddr().String(), ":")[0]
+		remoteIP := hostIP(conn)
 
 		IPMutex.Lock()
 		if CurrentHostIP == "" {
 			CurrentHostIP = remoteIP
 		}
-		IPMutex.Unlock()
-
 		if s.blockMultipleHostLogin && remoteIP != CurrentHostIP {
 			conn.Close()
 			log.Infof("rejecting connection: %s target already connected at %s",
 				remoteIP, CurrentHostIP)
+			IPMutex.Unlock()
 			continue
 		}
+		hostConnections[remoteIP]++
+		IPMutex.Unlock()
 
 		log.Info("connection establishing at: ", conn.LocalAddr().String())
 		s.setClientStatus(true)
@@ -248,6 +272,28 @@ func (s *ISCSITargetDriver) Run(port int) error {
 	return nil
 }
 
+func hostIP(conn net.Conn) string {
+	host, _, err := net.SplitHostPort(conn.RemoteAddr().String())
+	if err != nil {
+		return conn.RemoteAddr().String()
+	}
+	return host
+}
+
+// releaseHost counts a connection off, the last one of a host lets others in
+func releaseHost(conn net.Conn) {
+	remoteIP := hostIP(conn)
+	IPMutex.Lock()
+	defer IPMutex.Unlock()
+	hostConnections[remoteIP]--
+	if hostConnections[remoteIP] == 0 {
+		delete(hostConnections, remoteIP)
+		if CurrentHostIP == remoteIP {
+			CurrentHostIP = ""
+		}
+	}
+}
+
 func (s *ISCSITargetDriver) setClientStatus(ok bool) {
 	s.isClientConnected = ok
 }
@@ -290,14 +336,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 		go func() {
 			s.rxHandler(conn)
 			if conn.state == CONN_STATE_CLOSE {
-				log.Warningf("iscsi connection[%d] closed", conn.cid)
-				conn.close()
-				IPMutex.Lock()
-				remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-				if CurrentHostIP == remoteIP {
-					CurrentHostIP = ""
-				}
-				IPMutex.Unlock()
+				s.connectionClosed(conn)
 			}
 		}()
 	}
@@ -306,14 +345,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 		s.txHandler(conn)
 	}
 	if conn.state == CONN_STATE_CLOSE {
-		log.Warningf("iscsi connection[%d] closed", conn.cid)
-		conn.close()
-		IPMutex.Lock()
-		remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-		if CurrentHostIP == remoteIP {
-			CurrentHostIP = ""
-		}
-		IPMutex.Unlock()
+		s.connectionClosed(conn)
 	}
 }
 
@@ -333,7 +365,17 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 		hdigest = conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value & DIGEST_CRC32C
 		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
 	}
-	for {
+	if conn.state == CONN_STATE_CLOSE {
+		return
+	}
+	if conn.state == CONN_STATE_SCSI || conn.state == CONN_STATE_FULL {
+		// a command that came early goes before anything still to be read
+		if cmd = conn.session.nextHeldCommand(); cmd != nil {
+			conn.req = cmd
+			final = true
+		}
+	}
+	for !final {
 		switch conn.rxIOState {
 		case IOSTATE_RX_BHS:
 			log.Debug("rx handler: IOSTATE_RX_BHS")
@@ -356,7 +398,7 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 				return
 			}
 			conn.req = cmd
-			if length == BHS_SIZE && cmd.DataLen != 0 {
+			if length == BHS_SIZE && (cmd.DataLen != 0 || cmd.AHSLen != 0) {
 				conn.rxIOState = IOSTATE_RX_INIT_AHS
 				break
 			}
@@ -378,7 +420,7 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			if cmd == nil {
 				return
 			}
-			dl := ((cmd.DataLen + DataPadding - 1) / DataPadding) * DataPadding
+			dl := cmd.AHSLen + ((cmd.DataLen+DataPadding-1)/DataPadding)*DataPadding
 			cmd.RawData = make([]byte, int(dl))
 			length := 0
 			for length < dl {
@@ -396,18 +438,16 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 				conn.state = CONN_STATE_CLOSE
 				return
 			}
+			// no additional header is supported, nor padding part of the data
+			cmd.RawData = cmd.RawData[cmd.AHSLen : cmd.AHSLen+cmd.DataLen]
 			final = true
 		default:
 			log.Errorf("error %d %d\n", conn.state, conn.rxIOState)
 			return
 		}
-
-		if final {
-			break
-		}
 	}
 
-	if conn.state == CONN_STATE_SCSI {
+	if conn.state == CONN_STATE_SCSI || conn.state == CONN_STATE_FULL {
 		s.scsiCommandHandler(conn)
 	} else {
 		conn.txIOState = IOSTATE_TX_BHS
@@ -420,21 +460,10 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 				log.Warningf("set connection to close")
 				conn.state = CONN_STATE_CLOSE
 			}
-		case OpLogoutReq:
-			log.Debug("OpLogoutReq")
-			s.setClientStatus(false)
-			if err := iscsiExecLogout(conn); err != nil {
-				log.Warningf("set connection to close")
-				conn.state = CONN_STATE_CLOSE
-			}
-		case OpTextReq:
-			log.Debug("OpTextReq")
-			if err := s.iscsiExecText(conn); err != nil {
-				log.Warningf("set connection to close")
-				conn.state = CONN_STATE_CLOSE
-			}
 		default:
-			iscsiExecReject(conn)
+			// nothing but login requests before the login has completed
+			log.Warningf("set connection to close")
+			conn.state = CONN_STATE_CLOSE
 		}
 		log.Debugf("connection state is %v", conn.State())
 		s.handler(DATAOUT, conn)
@@ -444,6 +473,10 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	var cmd = conn.req
 
+	if !conn.loginStarted {
+		conn.loginStarted = true
+		conn.statSN = cmd.ExpStatSN
+	}
 	conn.cid = cmd.ConnID
 	conn.loginParam.iniCSG = cmd.CSG
 	conn.loginParam.iniNSG = cmd.NSG
@@ -452,34 +485,50 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	conn.loginParam.isid = cmd.ISID
 	conn.loginParam.tsih = cmd.TSIH
 	conn.expCmdSN = cmd.CmdSN
-	conn.maxBurstLength = MaxBurstLength
-	conn.maxRecvDataSegmentLength = MaxRecvDataSegmentLength
-	conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
+	conn.loginParam.tgtTrans = cmd.Transit
+	conn.loginParam.tgtNSG = SecurityNegotiation
+	conn.state = CONN_STATE_LOGIN
+	// the stages only go forward
+	if cmd.CSG < conn.loginParam.tgtCSG || cmd.CSG > LoginOperationalNegotiation {
+		return fmt.Errorf("unexpected login stage %v", cmd.CSG)
+	}
+	conn.loginParam.tgtCSG = cmd.CSG
+	conn.loginParam.text = append(conn.loginParam.text, cmd.RawData...)
+	if len(conn.loginParam.text) > MAX_LOGIN_TEXT {
+		return fmt.Errorf("login request too long")
+	}
+	if cmd.Cont {
+		return conn.buildRespPackage(OpLoginResp, nil)
+	}
 
 	if conn.loginParam.iniCSG == SecurityNegotiation {
 		if err := conn.processSecurityData(); err != nil {
 			return err
 		}
-		conn.state = CONN_STATE_LOGIN
-		return conn.buildRespPackage(OpLoginResp, nil)
+	} else {
+		if err := conn.processLoginData(); err != nil {
+			return err
+		}
 	}
+	conn.loginParam.text = nil
 
-	if _, err := conn.processLoginData(); err != nil {
-		return err
+	if cmd.Transit {
+		if cmd.NSG <= cmd.CSG || cmd.NSG == FullFeaturePhase-1 {
+			return fmt.Errorf("unexpected next login stage %v", cmd.NSG)
+		}
+		conn.loginParam.tgtNSG = cmd.NSG
+		conn.loginParam.tgtCSG = cmd.NSG
 	}
-
-	if !conn.loginParam.paramInit {
+	err := s.resolveTarget(conn)
+	if conn.loginParam.tgtCSG == FullFeaturePhase {
+		if err != nil {
+			return err
+		}
 		if err := s.BindISCSISession(conn); err != nil {
-			conn.state = CONN_STATE_EXIT
 			return err
 		}
-		conn.loginParam.paramInit = true
-	}
-	if conn.loginParam.tgtNSG == FullFeaturePhase &&
-		conn.loginParam.tgtTrans {
+		conn.honourParams()
 		conn.state = CONN_STATE_LOGIN_FULL
-	} else {
-		conn.state = CONN_STATE_LOGIN
 	}
 
 	return conn.buildRespPackage(OpLoginResp, nil)
@@ -490,7 +539,7 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 	cmd := conn.req
 	conn.resp = &ISCSICommand{
 		OpCode:  OpLogoutResp,
-		StatSN:  cmd.ExpStatSN,
+		StatSN:  conn.nextStatSN(OpLogoutResp),
 		TaskTag: cmd.TaskTag,
 	}
 	if conn.session == nil {
@@ -500,12 +549,6 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
 		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
 	}
-	IPMutex.Lock()
-	remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-	if CurrentHostIP == remoteIP {
-		CurrentHostIP = ""
-	}
-	IPMutex.Unlock()
 	return nil
 }
 
@@ -514,8 +557,12 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 	cmd := conn.req
 	keys := util.ParseKVText(cmd.RawData)
 	if st, ok := keys["SendTargets"]; ok {
-		if st == "All" {
-			for name, tgt := range s.iSCSITargets {
+		if st == "" && conn.session.Target != nil {
+			st = conn.session.Target.SCSITarget.Name
+		}
+		s.mu.RLock()
+		for name, tgt := range s.iSCSITargets {
+			if st == "All" || st == name {
 				log.Debugf("iscsi target: %v", name)
 				//log.Debugf("iscsi target portals: %v", tgt.Portals)
 
@@ -544,16 +591,17 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 				}
 			}
 		}
+		s.mu.RUnlock()
 	}
 
 	conn.resp = &ISCSICommand{
 		OpCode:   OpTextResp,
 		Final:    true,
 		NSG:      FullFeaturePhase,
-		StatSN:   cmd.ExpStatSN,
+		StatSN:   conn.nextStatSN(OpTextResp),
 		TaskTag:  cmd.TaskTag,
-		ExpCmdSN: cmd.CmdSN,
-		MaxCmdSN: cmd.CmdSN,
+		ExpCmdSN: conn.session.ExpCmdSN,
+		MaxCmdSN: conn.session.ExpCmdSN + conn.session.MaxQueueCommand,
 	}
 	conn.resp.RawData = util.MarshalKVText(result)
 	return nil
@@ -568,7 +616,7 @@ func iscsiExecReject(conn *iscsiConnection) error {
 }
 
 func iscsiExecR2T(conn *iscsiConnection) error {
-	return conn.buildRespPackage(OpReady, nil)
+	return conn.buildRespPackage(OpReady, conn.rxTask)
 }
 
 func (s *ISCSITargetDriver) txHandler(conn *iscsiConnection) {
@@ -583,13 +631,6 @@ func (s *ISCSITargetDriver) txHandler(conn *iscsiConnection) {
 		hdigest = conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value & DIGEST_CRC32C
 		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
 	}
-	if conn.state == CONN_STATE_SCSI && conn.txTask == nil {
-		err := s.scsiCommandHandler(conn)
-		if err != nil {
-			log.Error(err)
-			return
-		}
-	}
 	resp := conn.resp
 	segmentLen := conn.maxRecvDataSegmentLength
 	transferLen := len(resp.RawData)
@@ -633,6 +674,7 @@ SendRemainingData:
 			}
 			if l, err := conn.write(resp.Bytes()); err != nil {
 				log.Errorf("failed to write data to client: %v", err)
+				conn.state = CONN_STATE_CLOSE
 				return
 			} else {
 				conn.txIOState = IOSTATE_TX_INIT_AHS
@@ -688,7 +730,7 @@ SendRemainingData:
 		}
 		conn.rxIOState = IOSTATE_RX_BHS
 		s.handler(DATAIN, conn)
-	case CONN_STATE_SCSI:
+	case CONN_STATE_SCSI, CONN_STATE_FULL:
 		conn.txTask = nil
 	default:
 		log.Warnf("unexpected connection state: %v", conn.State())
@@ -699,8 +741,17 @@ SendRemainingData:
 
 func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error) {
 	req := conn.req
-	switch req.OpCode {
-	case OpSCSICmd:
+	discovery := conn.state == CONN_STATE_FULL
+	if !conn.session.takeCommand(req) {
+		log.Debugf("command %d is dropped or waits for its turn", req.CmdSN)
+		conn.rxIOState = IOSTATE_RX_BHS
+		s.handler(DATAIN, conn)
+		return nil
+	}
+	switch op := req.OpCode; {
+	case discovery && (op == OpSCSICmd || op == OpSCSITaskReq || op == OpSCSIOut):
+		iscsiExecReject(conn)
+	case op == OpSCSICmd:
 		log.Debugf("SCSI Command processing...")
 		scmd := &api.SCSICommand{
 			ITNexusID:       conn.session.ITNexus.ID,
@@ -755,24 +806,18 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			if conn.session.SessionParam[ISCSI_PARAM_IMM_DATA_EN].Value == 1 {
 				copy(scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
 				task.offset += conn.req.DataLen
+			} else {
+				task.r2tCount = int(req.ExpectedDataLen)
 			}
 			if task.r2tCount > 0 {
 				// prepare to receive more data
-				conn.session.ExpCmdSN += 1
 				task.state = taskPending
 				conn.session.PendingTasksMutex.Lock()
 				conn.session.PendingTasks.Push(task)
 				conn.session.PendingTasksMutex.Unlock()
 				conn.rxTask = task
-				if conn.session.SessionParam[ISCSI_PARAM_INITIAL_R2T_EN].Value == 1 {
-					iscsiExecR2T(conn)
-					break
-				} else {
-					log.Debugf("Not ready to exec the task")
-					conn.rxIOState = IOSTATE_RX_BHS
-					s.handler(DATAIN, conn)
-					return nil
-				}
+				iscsiExecR2T(conn)
+				break
 			}
 		} else if req.Read {
 			scmd.InSDBBuffer = &api.SCSIDataBuffer{
@@ -782,11 +827,9 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		}
 		task.offset = 0
 		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
-			if task.state == taskPending {
-				s.handler(DATAIN, conn)
-				err = nil
-			}
+		if err = s.iscsiExecTask(task); err != nil {
+			conn.state = CONN_STATE_CLOSE
+			s.handler(DATAOUT, conn)
 			return
 		} else {
 			if scmd.Direction == api.SCSIDataRead && scmd.Result == 0 && scmd.InSDBBuffer.Resid != 0 && req.ExpectedDataLen != 0 {
@@ -796,21 +839,30 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			conn.rxTask = nil
 		}
-	case OpSCSITaskReq:
+	case op == OpSCSITaskReq:
 		// task management function
 		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: nil}
 		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
+		if err = s.iscsiExecTask(task); err != nil {
 			return
 		}
-	case OpSCSIOut:
+	case op == OpSCSIOut:
 		log.Debugf("iSCSI Data-out processing...")
 		conn.session.PendingTasksMutex.RLock()
 		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
 		conn.session.PendingTasksMutex.RUnlock()
 		if task == nil {
-			err = fmt.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
+			// data of a command that has been aborted may still arrive
+			log.Warnf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
+		}
+		if int64(req.BufferOffset) != int64(task.offset) || task.offset+req.DataLen > task.burstEnd {
+			err = fmt.Errorf("data for tag[%v] is not what was requested", conn.req.TaskTag)
 			log.Error(err)
+			conn.state = CONN_STATE_CLOSE
+			s.handler(DATAOUT, conn)
 			return
 		}
 		copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
@@ -818,19 +870,13 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task.r2tCount = task.r2tCount - conn.req.DataLen
 		log.Debugf("Final: %v", conn.req.Final)
 		log.Debugf("r2tCount: %v", task.r2tCount)
-		if !conn.req.Final {
+		if !conn.req.Final && task.offset < task.burstEnd {
 			log.Debugf("Not ready to exec the task")
 			conn.rxIOState = IOSTATE_RX_BHS
 			s.handler(DATAIN, conn)
 			return nil
 		} else if task.r2tCount > 0 {
 			// prepare to receive more data
-			if task.unsolCount == 0 {
-				task.r2tSN += 1
-			} else {
-				task.r2tSN = 0
-				task.unsolCount = 0
-			}
 			conn.rxTask = task
 			iscsiExecR2T(conn)
 			break
@@ -838,88 +884,46 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task.offset = 0
 		log.Debugf("Process the Data-out package")
 		conn.rxTask = task
+		conn.session.PendingTasksMutex.Lock()
+		conn.session.PendingTasks.RemoveByTag(conn.req.TaskTag)
+		conn.session.PendingTasksMutex.Unlock()
 		if err = s.iscsiExecTask(task); err != nil {
+			conn.state = CONN_STATE_CLOSE
+			s.handler(DATAOUT, conn)
 			return
 		} else {
 			conn.buildRespPackage(OpSCSIResp, task)
 			conn.rxTask = nil
-			conn.session.PendingTasksMutex.Lock()
-			conn.session.PendingTasks.RemoveByTag(conn.req.TaskTag)
-			conn.session.PendingTasksMutex.Unlock()
 		}
-	case OpNoopOut:
+	case op == OpNoopOut:
+		if req.TaskTag == 0xffffffff {
+			// no answer is wanted
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
+		}
 		iscsiExecNoopOut(conn)
-	case OpLogoutReq:
+	case op == OpLogoutReq:
 		s.setClientStatus(false)
 		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
 		conn.txIOState = IOSTATE_TX_BHS
 		iscsiExecLogout(conn)
-	case OpTextReq, OpSNACKReq:
-		err = fmt.Errorf("Cannot handle yet %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
-		return
+		// nothing that follows is read
+		conn.state = CONN_STATE_EXIT
+		s.handler(DATAOUT, conn)
+		return nil
+	case op == OpTextReq && req.Final:
+		conn.txIOState = IOSTATE_TX_BHS
+		s.iscsiExecText(conn)
 	default:
-		err = fmt.Errorf("Unknown op %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
-		return
+		log.Errorf("Cannot handle %s", opCodeMap[conn.req.OpCode])
+		iscsiExecReject(conn)
 	}
 	conn.rxIOState = IOSTATE_RX_BHS
 	s.handler(DATAIN|DATAOUT, conn)
 	return nil
 }
 
-func (s *ISCSITargetDriver) iscsiTaskQueueHandler(task *iscsiTask) error {
-	conn := task.conn
-	sess := conn.session
-	cmd := task.cmd
-	if cmd.Immediate {
-		return s.iscsiExecTask(task)
-	}
-	cmdsn := cmd.CmdSN
-	log.Debugf("CmdSN of command is %d", cmdsn)
-	if cmdsn == sess.ExpCmdSN {
-	retry:
-		cmdsn += 1
-		sess.ExpCmdSN = cmdsn
-		log.Debugf("session's ExpCmdSN is %d", cmdsn)
-
-		log.Debugf("process task(%d)", task.cmd.CmdSN)
-		if err := s.iscsiExecTask(task); err != nil {
-			log.Error(err)
-		}
-		sess.PendingTasksMutex.Lock()
-		if sess.PendingTasks.Len() == 0 {
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task = sess.PendingTasks.Pop()
-		cmd = task.cmd
-		if cmd.CmdSN != cmdsn {
-			sess.PendingTasks.Push(task)
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task.state = taskSCSI
-		sess.PendingTasksMutex.Unlock()
-		goto retry
-	} else {
-		if cmd.CmdSN < sess.ExpCmdSN {
-			err := fmt.Errorf("unexpected cmd serial number: (%d, %d)", cmd.CmdSN, sess.ExpCmdSN)
-			log.Error(err)
-			return err
-		}
-		log.Debugf("add task(%d) into task queue", task.cmd.CmdSN)
-		// add this task into queue and set it as a pending task
-		sess.PendingTasksMutex.Lock()
-		task.state = taskPending
-		sess.PendingTasks.Push(task)
-		sess.PendingTasksMutex.Unlock()
-		return fmt.Errorf("pending")
-	}
-
-	return nil
-}
-
 func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 	cmd := task.cmd
 	switch cmd.OpCode {
@@ -939,30 +943,26 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 		sess := task.conn.session
 		switch cmd.TaskFunc {
 		case ISCSI_TM_FUNC_ABORT_TASK:
-			sess.PendingTasksMutex.Lock()
-			stask := sess.PendingTasks.RemoveByTag(cmd.ReferencedTaskTag)
-			sess.PendingTasksMutex.Unlock()
-			if stask == nil {
+			if sess.abortTasks(func(c *ISCSICommand) bool { return c.TaskTag == cmd.ReferencedTaskTag }) == 0 {
 				task.result = ISCSI_TMF_RSP_NO_TASK
 			} else {
 				// abort this task
-				log.Debugf("abort the task[%v]", stask.tag)
-				if stask.scmd == nil {
-					stask.scmd = &api.SCSICommand{Result: api.SAM_STAT_TASK_ABORTED}
-				}
-				stask.conn = task.conn
-				log.Debugf("stask.conn: %#v", stask.conn)
-				stask.conn.buildRespPackage(OpSCSIResp, stask)
-				stask.conn.rxTask = nil
-				s.handler(DATAOUT, stask.conn)
+				log.Debugf("abort the task[%v]", cmd.ReferencedTaskTag)
 				task.result = ISCSI_TMF_RSP_COMPLETE
 			}
-		case ISCSI_TM_FUNC_ABORT_TASK_SET:
-		case ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
+		case ISCSI_TM_FUNC_ABORT_TASK_SET, ISCSI_TM_FUNC_CLEAR_TASK_SET, ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
+			lu := scsi.GetLU(sess.Target.SCSITarget.Name, binary.LittleEndian.Uint64(cmd.LUN[:]))
+			if lu == nil {
+				task.result = ISCSI_TMF_RSP_NO_LUN
+				break
+			}
+			sess.abortTasks(func(c *ISCSICommand) bool { return c.LUN == cmd.LUN })
+			if cmd.TaskFunc == ISCSI_TM_FUNC_LOGICAL_UNIT_RESET {
+				scsi.ReleaseDevice(lu, sess.ITNexus.ID, true)
+			}
+			task.result = ISCSI_TMF_RSP_COMPLETE
 		case ISCSI_TM_FUNC_CLEAR_ACA:
 			fallthrough
-		case ISCSI_TM_FUNC_CLEAR_TASK_SET:
-			fallthrough
 		case ISCSI_TM_FUNC_TARGET_WARM_RESET, ISCSI_TM_FUNC_TARGET_COLD_RESET, ISCSI_TM_FUNC_TASK_REASSIGN:
 			task.result = ISCSI_TMF_RSP_NOT_SUPPORTED
 		default:
diff --git a/pkg/port/iscsit/iscsit.go b/pkg/port/iscsit/iscsit.go
index 9b0d445..e2963af 100644
--- a/pkg/port/iscsit/iscsit.go
+++ b/pkg/port/iscsit/iscsit.go
@@ -79,7 +79,7 @@ type iSCSITPGT struct {
 }
 
 type ISCSITarget struct {
-	api.SCSITarget
+	*api.SCSITarget
 	api.SCSITargetDriverCommon
 	// TPGT number is the key
 	TPGTs map[uint16]*iSCSITPGT
@@ -123,7 +123,7 @@ func (tgt *ISCSITarget) FindTPG(portal string) (uint16, error) {
 
 func newISCSITarget(target *api.SCSITarget) *ISCSITarget {
 	return &ISCSITarget{
-		SCSITarget: *target,
+		SCSITarget: target,
 		TPGTs:      make(map[uint16]*iSCSITPGT),
 		Sessions:   make(map[uint16]*ISCSISession),
 	}
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 7451e5b..bd3e395 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -79,11 +79,36 @@ func stringsContains(s []string, p string) bool {
 	return false
 }
 
-func (conn *iscsiConnection) processSecurityData() error {
-	securityKV := util.ParseKVText(conn.req.RawData)
+// processNameKey takes over a key that is not negotiated
+func (conn *iscsiConnection) processNameKey(key, val string) (bool, error) {
+	if key == "InitiatorName" {
+		conn.loginParam.initiator = val
+	} else if key == "InitiatorAlias" {
+		conn.loginParam.initiatorAlias = val
+	} else if key == "TargetName" {
+		conn.loginParam.target = val
+	} else if key == "SessionType" {
+		if val == "Normal" {
+			conn.loginParam.sessionType = SESSION_NORMAL
+		} else if val == "Discovery" {
+			conn.loginParam.sessionType = SESSION_DISCOVERY
+		} else {
+			return true, fmt.Errorf("unknown session type %s", val)
+		}
+	} else {
+		return false, nil
+	}
+	return true, nil
+}
 
+func (conn *iscsiConnection) processSecurityData() error {
+	securityKV := util.ParseKVText(conn.loginParam.text)
 	for key, val := range securityKV {
-		if key == "AuthMethod" {
+		if done, err := conn.processNameKey(key, val); done {
+			if err != nil {
+				return err
+			}
+		} else if key == "AuthMethod" {
 			// It can be a list.
 			vals := strings.Split(val, ",")
 			if !stringsContains(vals, "None") {
@@ -91,105 +116,63 @@ func (conn *iscsiConnection) processSecurityData() error {
 				// than terminating TCP connection.
 				return fmt.Errorf("client requesting AuthMethod:%s, only support None", val)
 			}
-			conn.loginParam.tgtNSG = LoginOperationalNegotiation
-			conn.loginParam.tgtTrans = true
 			conn.loginParam.authMethod = AuthNone
-		} else if key == "TargetName" {
-			conn.loginParam.target = val
-		} else if key == "InitiatorName" {
-			conn.loginParam.initiator = val
+			conn.loginParam.negoKeys = append(conn.loginParam.negoKeys, util.KeyValue{key, "None"})
+		} else {
+			conn.loginParam.negoKeys = append(conn.loginParam.negoKeys, util.KeyValue{key, "NotUnderstood"})
 		}
 	}
-
 	return nil
 }
 
-func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
+func (conn *iscsiConnection) processLoginData() error {
 	var (
 		uintVal    uint
 		ok         bool
 		defSessKey *iscsiSessionKeys
 		negoKV     []util.KeyValue
-		kvChanges  int
 	)
-	loginKV := util.ParseKVText(conn.req.RawData)
-
+	loginKV := util.ParseKVText(conn.loginParam.text)
 	for key, val := range loginKV {
+		if done, err := conn.processNameKey(key, val); done {
+			if err != nil {
+				return err
+			}
+			continue
+		}
 		// The MaxRecvDataSegmentLength of initiator
 		// is the MaxXmitDataSegmentLength of target
 		if key == "MaxRecvDataSegmentLength" {
 			defSessKey, ok = sessionKeys["MaxXmitDataSegmentLength"]
 			uintVal, ok = defSessKey.conv(val)
+			if !ok || uintVal < defSessKey.min || uintVal > defSessKey.max {
+				return fmt.Errorf("invalid %s:%s", key, val)
+			}
 			conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
 			continue
 		}
-
-		if key == "InitiatorName" {
-			conn.loginParam.initiator = val
-			continue
-		} else if key == "InitiatorAlias" {
-			conn.loginParam.initiatorAlias = val
-			continue
-		} else if key == "TargetName" {
-			conn.loginParam.target = val
-			continue
-		} else if key == "SessionType" {
-			if val == "Normal" {
-				conn.loginParam.sessionType = SESSION_NORMAL
-			} else {
-				conn.loginParam.sessionType = SESSION_DISCOVERY
-			}
+		defSessKey, ok = sessionKeys[key]
+		if !ok || defSessKey.idx >= ISCSI_PARAM_FIRST_LOCAL {
+			//Unknown Key
+			negoKV = append(negoKV, util.KeyValue{key, "NotUnderstood"})
 			continue
 		}
-
-		defSessKey, ok = sessionKeys[key]
-		if ok {
-			uintVal, ok = defSessKey.conv(val)
-
-			//hack here
-			if key == "HeaderDigest" || key == "DataDigest" {
-				if uintVal == DIGEST_ALL {
-					uintVal = DIGEST_NONE
-				}
-			}
-			if ok {
-				if defSessKey.constValue {
-					//the Negotiation Key cannot be changed! Uses Target default key
-					if uintVal != defSessKey.def {
-						kvChanges++
-					}
-					negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-				} else {
-					if (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
-						conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
-						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
-					} else {
-						// the value out of the acceptable range, Uses target default key
-						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-						kvChanges++
-					}
-				}
-			}
-		} else {
-			//Unknown Key, reject it
-			return negoKV, fmt.Errorf("Unknowen Nego KV [%s:%s]", key, val)
+		uintVal, ok = defSessKey.conv(val)
+		if key == "HeaderDigest" || key == "DataDigest" {
+			// no digest is implemented
+			ok = uintVal&DIGEST_NONE != 0
+			uintVal = DIGEST_NONE
 		}
-	}
-
-	if kvChanges == 0 {
-		if (conn.loginParam.iniNSG == FullFeaturePhase) && conn.loginParam.iniTrans {
-			conn.loginParam.tgtNSG = FullFeaturePhase
-			conn.loginParam.tgtTrans = true
-		} else {
-			//Currently, we just reject these kind of cases
-			return negoKV, fmt.Errorf("reject CSG=%s,NSG=%s,trans=%t",
-				conn.loginParam.iniCSG, conn.loginParam.iniNSG, conn.loginParam.iniTrans)
+		if !ok || uintVal < defSessKey.min || uintVal > defSessKey.max {
+			negoKV = append(negoKV, util.KeyValue{key, "Reject"})
+			continue
 		}
-	} else {
-		conn.loginParam.tgtNSG = FullFeaturePhase
-		conn.loginParam.tgtTrans = true
+		uintVal = defSessKey.negotiate(uintVal)
+		conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
+		negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
 	}
-	return negoKV, nil
+	conn.loginParam.negoKeys = append(conn.loginParam.negoKeys, negoKV...)
+	return nil
 }
 
 type iscsiLoginParam struct {
@@ -208,6 +191,9 @@ type iscsiLoginParam struct {
 	sessionType  int
 	sessionParam ISCSISessionParamList
 	keyDeclared  bool
+	// text of a request so far, and the answers to it
+	text     []byte
+	negoKeys []util.KeyValue
 
 	initiator      string
 	initiatorAlias string
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index cd0c072..783097c 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -71,7 +71,7 @@ const (
 	/* "local" parmas, never sent to the initiator */
 	ISCSI_PARAM_FIRST_LOCAL
 	ISCSI_PARAM_MAX_XMIT_DLENGTH = ISCSI_PARAM_FIRST_LOCAL
-	ISCSI_PARAM_MAX_QUEUE_CMD
+	ISCSI_PARAM_MAX_QUEUE_CMD    = iota - 1
 	/* must always be last */
 	ISCSI_PARAM_MAX
 )
@@ -132,12 +132,11 @@ func digestKeyConv(value string) (uint, bool) {
 			crc |= DIGEST_CRC32C
 		} else if strings.EqualFold(tmpV, "none") {
 			crc |= DIGEST_NONE
-		} else {
-			return crc, false
 		}
+		// a digest the target does not know is simply not chosen
 	}
 
-	return crc, true
+	return crc, crc != 0
 }
 
 func digestKeyInConv(value uint) string {
@@ -154,7 +153,11 @@ func digestKeyInConv(value uint) string {
 }
 
 func numberKeyConv(value string) (uint, bool) {
-	v, err := strconv.Atoi(value)
+	base := 10
+	if strings.HasPrefix(value, "0x") || strings.HasPrefix(value, "0X") {
+		value, base = value[2:], 16
+	}
+	v, err := strconv.ParseUint(value, base, 32)
 	if err == nil {
 		return uint(v), true
 	}
@@ -200,9 +203,9 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	// ISCSI_PARAM_MAX_BURST
 	"MaxBurstLength": {ISCSI_PARAM_MAX_BURST, true, 262144, 512, 16777215, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_PDU_INORDER_EN
-	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_DATASEQ_INORDER_EN
-	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_ERL
 	"ErrorRecoveryLevel": {ISCSI_PARAM_ERL, true, 0, 0, 2, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_IFMARKER_EN
@@ -234,6 +237,25 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	"MaxQueueCmd": {ISCSI_PARAM_MAX_QUEUE_CMD, true, MAX_QUEUE_CMD_DEF, MAX_QUEUE_CMD_MIN, MAX_QUEUE_CMD_MAX, numberKeyConv, numberKeyInConv},
 }
 
+// negotiate returns the outcome for a value offered by the initiator
+func (key *iscsiSessionKeys) negotiate(offer uint) uint {
+	switch key.idx {
+	case ISCSI_PARAM_MAX_R2T, ISCSI_PARAM_FIRST_BURST, ISCSI_PARAM_MAX_BURST, ISCSI_PARAM_ERL,
+		ISCSI_PARAM_DEFAULTTIME2RETAIN, ISCSI_PARAM_MAXCONNECTIONS,
+		ISCSI_PARAM_TARGET_RDSL, ISCSI_PARAM_INITIATOR_RDSL:
+		if offer < key.def {
+			return offer
+		}
+	case ISCSI_PARAM_DEFAULTTIME2WAIT:
+		if offer > key.def {
+			return offer
+		}
+	case ISCSI_PARAM_IMM_DATA_EN:
+		return offer & key.def
+	}
+	return key.def
+}
+
 // Session is an iSCSI session.
 type ISCSISession struct {
 	Refcount       int
@@ -252,12 +274,83 @@ type ISCSISession struct {
 	Connections        map[uint16]*iscsiConnection
 	ConnectionsRWMutex sync.RWMutex
 	Commands           []*ISCSICommand
-	PendingTasks       taskQueue
-	PendingTasksMutex  sync.RWMutex
-	MaxQueueCommand    uint32
-	SessionParam       ISCSISessionParamList
-	Info               string
-	Rdma               int
+	// writes that wait for their data
+	PendingTasks taskQueue
+	// commands that wait for their turn, by command number
+	heldCommands      map[uint32]*ISCSICommand
+	PendingTasksMutex sync.RWMutex
+	MaxQueueCommand   uint32
+	SessionParam      ISCSISessionParamList
+	Info              string
+	Rdma              int
+}
+
+// takeCommand decides whether it is the command's turn. A command inside the
+// window that comes early is held, one outside the window is dropped.
+func (sess *ISCSISession) takeCommand(req *ISCSICommand) bool {
+	switch req.OpCode {
+	case OpNoopOut, OpSCSICmd, OpSCSITaskReq, OpTextReq, OpLogoutReq:
+	default:
+		return true
+	}
+	if req.Immediate {
+		return true
+	}
+	sess.PendingTasksMutex.Lock()
+	defer sess.PendingTasksMutex.Unlock()
+	ahead := int32(req.CmdSN - sess.ExpCmdSN)
+	if ahead < 0 || ahead > int32(sess.MaxQueueCommand) {
+		return false
+	}
+	if ahead > 0 {
+		if _, ok := sess.heldCommands[req.CmdSN]; !ok {
+			sess.heldCommands[req.CmdSN] = req
+		}
+		return false
+	}
+	sess.ExpCmdSN++
+	return true
+}
+
+// nextHeldCommand returns the held command whose turn has come
+func (sess *ISCSISession) nextHeldCommand() *ISCSICommand {
+	sess.PendingTasksMutex.Lock()
+	defer sess.PendingTasksMutex.Unlock()
+	for {
+		req, ok := sess.heldCommands[sess.ExpCmdSN]
+		if !ok {
+			return nil
+		}
+		delete(sess.heldCommands, sess.ExpCmdSN)
+		if !req.Aborted {
+			return req
+		}
+		sess.ExpCmdSN++
+	}
+}
+
+// abortTasks aborts the waiting commands that match and returns their number
+func (sess *ISCSISession) abortTasks(match func(cmd *ISCSICommand) bool) int {
+	sess.PendingTasksMutex.Lock()
+	defer sess.PendingTasksMutex.Unlock()
+	aborted := 0
+	waiting := taskQueue{}
+	for _, task := range sess.PendingTasks {
+		if match(task.cmd) {
+			aborted++
+		} else {
+			waiting = append(waiting, task)
+		}
+	}
+	sess.PendingTasks = waiting
+	for _, req := range sess.heldCommands {
+		if req.OpCode == OpSCSICmd && !req.Aborted && match(req) {
+			// its number is still used up when its turn comes
+			req.Aborted = true
+			aborted++
+		}
+	}
+	return aborted
 }
 
 type taskQueue []*iscsiTask
@@ -308,131 +401,142 @@ func (tq *taskQueue) RemoveByTag(tag uint32) *iscsiTask {
 
 func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, isid uint64, tsih uint16, tpgt uint16) *ISCSISession {
 	var (
-		tgt  *ISCSITarget
-		sess *ISCSISession
-		ok   bool
+		tgt *ISCSITarget
+		ok  bool
 	)
+	s.mu.RLock()
 	tgt, ok = s.iSCSITargets[tgtName]
+	s.mu.RUnlock()
 	if !ok {
 		return nil
 	}
 	tgt.SessionsRWMutex.RLock()
 	defer tgt.SessionsRWMutex.RUnlock()
-	sess, ok = tgt.Sessions[tsih]
-	if !ok {
-		return nil
-	}
-	if (sess.ISID == isid) && (sess.TPGT == tpgt) {
-		return sess
+	for _, sess := range tgt.Sessions {
+		if (sess.Initiator == iniName) && (sess.ISID == isid) && (sess.TPGT == tpgt) &&
+			(tsih == ISCSI_UNSPEC_TSIH || sess.TSIH == tsih) {
+			return sess
+		}
 	}
 	return nil
 }
 
+// UnBindISCSISession releases what a session holds, it is called with the
+// driver's bindMutex held.
 func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
-	target := sess.Target
-	target.SessionsRWMutex.Lock()
-	defer target.SessionsRWMutex.Unlock()
-	delete(target.Sessions, sess.TSIH)
-	scsi.RemoveITNexus(&sess.Target.SCSITarget, sess.ITNexus)
+	if sess.SessionType == SESSION_NORMAL {
+		target := sess.Target
+		target.SessionsRWMutex.Lock()
+		delete(target.Sessions, sess.TSIH)
+		target.SessionsRWMutex.Unlock()
+		scsi.RemoveITNexus(target.SCSITarget, sess.ITNexus)
+	}
+	s.ReleaseTSIH(sess.TSIH)
+}
+
+// connectionClosed releases the connection, and the session if it was its last
+func (s *ISCSITargetDriver) connectionClosed(conn *iscsiConnection) {
+	conn.closeOnce.Do(func() {
+		log.Warningf("iscsi connection[%d] closed", conn.cid)
+		conn.close()
+		s.bindMutex.Lock()
+		if sess := conn.session; sess != nil {
+			sess.ConnectionsRWMutex.Lock()
+			owned := sess.Connections[conn.cid] == conn
+			if owned {
+				delete(sess.Connections, conn.cid)
+			}
+			sess.ConnectionsRWMutex.Unlock()
+			if owned {
+				s.UnBindISCSISession(sess)
+			}
+		}
+		s.bindMutex.Unlock()
+		releaseHost(conn.conn)
+	})
+}
+
+// resolveTarget finds the target and portal group a login is for
+func (s *ISCSITargetDriver) resolveTarget(conn *iscsiConnection) error {
+	if conn.loginParam.sessionType == SESSION_DISCOVERY {
+		conn.tid = 0xffff
+		return nil
+	}
+	s.mu.RLock()
+	target := s.iSCSITargets[conn.loginParam.target]
+	s.mu.RUnlock()
+	if target == nil {
+		return fmt.Errorf("No target found with name(%s)", conn.loginParam.target)
+	}
+	tpgt, err := target.FindTPG(conn.conn.LocalAddr().String())
+	if err != nil {
+		return err
+	}
+	conn.loginParam.tpgt = tpgt
+	conn.tid = target.TID
+	return nil
 }
 
 func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 	var (
-		target    *ISCSITarget
 		existSess *ISCSISession
 		existConn *iscsiConnection
 		newSess   *ISCSISession
-		tpgt      uint16
 		err       error
 	)
 
-	//Find TPGT and Target ID
-	if conn.loginParam.sessionType == SESSION_DISCOVERY {
-		conn.tid = 0xffff
-	} else {
-		for _, t := range s.iSCSITargets {
-			if t.SCSITarget.Name == conn.loginParam.target {
-				target = t
-				break
-			}
-		}
-		if target == nil {
-			return fmt.Errorf("No target found with name(%s)", conn.loginParam.target)
-		}
-
-		tpgt, err = target.FindTPG(conn.conn.LocalAddr().String())
-		if err != nil {
-			return err
-		}
-		conn.loginParam.tpgt = tpgt
-		conn.tid = target.TID
+	s.bindMutex.Lock()
+	defer s.bindMutex.Unlock()
+	s.mu.RLock()
+	running := s.state == STATE_RUNNING
+	s.mu.RUnlock()
+	if !running {
+		return fmt.Errorf("the service is closed")
 	}
 
-	existSess = s.LookupISCSISession(conn.loginParam.target, conn.loginParam.initiator,
-		conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt)
+	if conn.loginParam.sessionType == SESSION_NORMAL {
+		existSess = s.LookupISCSISession(conn.loginParam.target, conn.loginParam.initiator,
+			conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt)
+	}
 	if existSess != nil {
 		existConn = existSess.LookupConnection(conn.cid)
 	}
 
-	if conn.loginParam.sessionType == SESSION_DISCOVERY &&
-		conn.loginParam.tsih != ISCSI_UNSPEC_TSIH &&
-		existSess != nil {
-		return fmt.Errorf("initiator err, invalid request")
-	}
-
-	if existSess == nil && conn.loginParam.tsih != 0 &&
-		existSess.TSIH != conn.loginParam.tsih {
-		return fmt.Errorf("initiator err, no session")
+	if conn.loginParam.tsih != ISCSI_UNSPEC_TSIH {
+		if existConn == nil {
+			return fmt.Errorf("initiator err, no session")
+		}
+		log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
+			conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
+		existConn.ReInstatement(conn)
+		return nil
 	}
 
 	if existSess == nil {
 		newSess, err = s.NewISCSISession(conn)
-		if err != nil {
-			return err
-		}
-
-		if newSess.SessionType == SESSION_NORMAL {
-			log.Infof("Login request received from initiator: %v, Session type: %s, Target name:%v, ISID: 0x%x",
-				conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
-			//register normal session
-			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(&newSess.Target.SCSITarget, itnexus)
-			newSess.ITNexus = itnexus
-			conn.session = newSess
-
-			newSess.Target.SessionsRWMutex.Lock()
-			newSess.Target.Sessions[newSess.TSIH] = newSess
-			newSess.Target.SessionsRWMutex.Unlock()
-		} else {
-			log.Infof("Discovery request received from initiator: %v, Session type: %s, ISID: 0x%x",
-				conn.loginParam.initiator, "Discovery", conn.loginParam.isid)
-			conn.session = newSess
-		}
 	} else {
-		if conn.loginParam.tsih == ISCSI_UNSPEC_TSIH {
-			log.Infof("Session Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
-				conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-			newSess, err = s.ReInstatement(existConn.session, conn)
-			if err != nil {
-				return err
-			}
-
-			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(&newSess.Target.SCSITarget, itnexus)
-			newSess.ITNexus = itnexus
-			conn.session = newSess
-
-			newSess.Target.SessionsRWMutex.Lock()
-			newSess.Target.Sessions[newSess.TSIH] = newSess
-			newSess.Target.SessionsRWMutex.Unlock()
-		} else {
-			if existConn != nil {
-				log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
-					conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-				existConn.ReInstatement(conn)
-			}
-		}
+		log.Infof("Session Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
+			conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
+		newSess, err = s.ReInstatement(existSess, conn)
+	}
+	if err != nil {
+		return err
+	}
+	if newSess.SessionType == SESSION_NORMAL {
+		log.Infof("Login request received from initiator: %v, Session type: %s, Target name:%v, ISID: 0x%x",
+			conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
+		//register normal session
+		itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
+		scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
+		newSess.ITNexus = itnexus
+		newSess.Target.SessionsRWMutex.Lock()
+		newSess.Target.Sessions[newSess.TSIH] = newSess
+		newSess.Target.SessionsRWMutex.Unlock()
+	} else {
+		log.Infof("Discovery request received from initiator: %v, Session type: %s, ISID: 0x%x",
+			conn.loginParam.initiator, "Discovery", conn.loginParam.isid)
 	}
+	conn.session = newSess
 
 	return nil
 }
@@ -444,12 +548,14 @@ func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection) (*ISCSISessio
 		tsih   uint16
 	)
 
+	s.mu.RLock()
 	for _, t := range s.iSCSITargets {
 		if t.TID == conn.tid {
 			target = t
 			break
 		}
 	}
+	s.mu.RUnlock()
 	if target == nil && conn.tid != 0xffff {
 		return nil, fmt.Errorf("No target found with tid(%d)", conn.tid)
 	}
@@ -472,6 +578,7 @@ func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection) (*ISCSISessio
 		MaxQueueCommand: uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_QUEUE_CMD].Value),
 		Rdma:            0,
 		ExpCmdSN:        conn.expCmdSN,
+		heldCommands:    map[uint32]*ISCSICommand{},
 	}
 	return sess, nil
 }
@@ -488,13 +595,13 @@ func (s *ISCSITargetDriver) ReInstatement(existSess *ISCSISession, conn *iscsiCo
 	if err != nil {
 		return nil, err
 	}
-	newSess.ExpCmdSN = existSess.ExpCmdSN
-	newSess.MaxCmdSN = existSess.MaxCmdSN + 1
 	s.UnBindISCSISession(existSess)
+	existSess.ConnectionsRWMutex.Lock()
 	for _, tmpConn := range existSess.Connections {
 		tmpConn.close()
 	}
 	existSess.Connections = map[uint16]*iscsiConnection{}
+	existSess.ConnectionsRWMutex.Unlock()
 	return newSess, nil
 }
 
diff --git a/pkg/port/iscsit/task.go b/pkg/port/iscsit/task.go
index 8d39642..6bc270e 100644
--- a/pkg/port/iscsit/task.go
+++ b/pkg/port/iscsit/task.go
@@ -52,4 +52,7 @@ const (
 	ISCSI_TMF_RSP_AUTH_FAILED = 0x06
 	// Function rejected
 	ISCSI_TMF_RSP_REJECTED = 0xff
+
+	// Reject reasons
+	ISCSI_REASON_CMD_NOT_SUPPORTED = 0x05
 )
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index e4bf06a..39498f7 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -524,7 +524,7 @@ func SBCReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SBCRelease(host int, cmd *api.SCSICommand) api.SAMStat {
-	deviceRelease(cmd.Device, cmd.ITNexusID, false)
+	ReleaseDevice(cmd.Device, cmd.ITNexusID, false)
 	return api.SAMStatGood
 }
 
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index e2c0dc8..3286455 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -18,13 +18,14 @@ package scsi
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/gostor/gotgt/pkg/api"
 	uuid "github.com/satori/go.uuid"
 	log "github.com/sirupsen/logrus"
 )
 
-func (s *SCSITargetService) NewSCSITarget(tid int, driverName, name string) (*api.SCSITarget, error) {
+func (s *SCSITargetService) NewSCSITarget(tid int, driverName, name string, ports ...*api.SCSITargetPort) (*api.SCSITarget, error) {
 	// verify the target ID
 
 	// verify the target's Name
@@ -36,7 +37,7 @@ func (s *SCSITargetService) NewSCSITarget(tid int, driverName, name string) (*ap
 		TargetPortGroups: []*api.TargetPortGroup{},
 		ITNexus:          make(map[uuid.UUID]*api.ITNexus),
 	}
-	tpg := &api.TargetPortGroup{0, []*api.SCSITargetPort{}}
+	tpg := &api.TargetPortGroup{0, ports}
 	target.LUN0 = NewLUN0()
 	target.TargetPortGroups = append(target.TargetPortGroups, tpg)
 	s.mutex.Lock()
@@ -99,16 +100,20 @@ func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 	}
 }
 
+// reserveMutex guards the reservations of all devices
+var reserveMutex sync.Mutex
+
 // reservedByOther tells whether another I_T nexus has reserved the device
 func reservedByOther(cmd *api.SCSICommand) bool {
+	reserveMutex.Lock()
+	defer reserveMutex.Unlock()
 	id := cmd.Device.ReserveID
 	return !uuid.Equal(id, uuid.Nil) && !uuid.Equal(id, cmd.ITNexusID)
 }
 
-// deviceReserve is called with the device's mutex held
 func deviceReserve(cmd *api.SCSICommand) error {
 	if reservedByOther(cmd) {
-		log.Errorf("already reserved %v, %v", cmd.Device.ReserveID, cmd.ITNexusID)
+		log.Errorf("already reserved %v", cmd.ITNexusID)
 		return fmt.Errorf("already reserved")
 	}
 	// a nexus that is gone would never release it
@@ -117,20 +122,17 @@ func deviceReserve(cmd *api.SCSICommand) error {
 	if _, ok := cmd.Target.ITNexus[cmd.ITNexusID]; !ok {
 		return fmt.Errorf("no such I_T nexus")
 	}
+	reserveMutex.Lock()
+	defer reserveMutex.Unlock()
 	cmd.Device.ReserveID = cmd.ITNexusID
 	return nil
 }
 
-// deviceRelease is called with the device's mutex held
-func deviceRelease(lu *api.SCSILu, itn uuid.UUID, force bool) {
+// ReleaseDevice ends a reservation of the device by the nexus, or by any
+func ReleaseDevice(lu *api.SCSILu, itn uuid.UUID, force bool) {
+	reserveMutex.Lock()
+	defer reserveMutex.Unlock()
 	if force || uuid.Equal(lu.ReserveID, itn) {
 		lu.ReserveID = uuid.Nil
 	}
 }
-
-// ReleaseDevice ends a reservation of the device by the nexus, or by any
-func ReleaseDevice(lu *api.SCSILu, itn uuid.UUID, force bool) {
-	lu.Mutex.Lock()
-	defer lu.Mutex.Unlock()
-	deviceRelease(lu, itn, force)
-}
-- 
2.43.0


From 8334ffc0ab5588a946a71ddac2f26886462cd4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 10/10] fix: match the version segment of API paths whatever
 the version is

The pattern accepted digits and dots followed by -dirty only, so that the
requests of the command line were answered 404 for every usual build.
---
 pkg/apiserver/apiserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apiserver/apiserver.go b/pkg/apiserver/apiserver.go
index 6803fd6..6918e6a 100644
--- a/pkg/apiserver/apiserver.go
+++ b/pkg/apiserver/apiserver.go
@@ -39,7 +39,7 @@ import (
 
 // versionMatcher defines a variable matcher to be parsed by the router
 // when a request is about to be served.
-const versionMatcher = "/v{version:[0-9.]+(?:-dirty)}"
+const versionMatcher = "/v{version:[^/]+}"
 
 // Config provides the configuration for the API server
 type Config struct {
-- 
2.43.0

