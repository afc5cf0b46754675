#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))
I='pkg/port/iscsit/iscsid.go'; C='pkg/port/iscsit/cmd.go'; K='pkg/port/iscsit/conn.go'; S='pkg/port/iscsit/session.go'; L='pkg/port/iscsit/login.go'; T='pkg/port/iscsit/iscsit.go'
B='pkg/scsi/backingstore.go'; Q='pkg/scsi/scsi.go'; D='pkg/scsi/sbc.go'; N='pkg/scsi/spc.go'; G='pkg/scsi/target.go'; R='pkg/scsi/scsi_pr.go'; M='pkg/scsi/scsilumap.go'; F='pkg/scsi/backingstore/common.go'; E='pkg/scsi/backingstore/remote/remote.go'
W='iSCSI PDUs on the wire'; ST='calls received by a recording backing store'

p('C01','Block contents are read-your-writes for every command form',
 'For every logical unit, a successful read returns for each addressed block the data stored by the latest successful command that stored that block (WRITE, WRITE AND VERIFY, WRITE SAME or OR-WRITE, in any CDB size, with immediate or solicited data, from any session), and the initial contents where nothing was stored. A successful storing command changes exactly the blocks its CDB addresses, whatever transfer length the initiator announced, and leaves every other block of this and all other logical units as it was. The contents survive logout, reconnection and a restart of the daemon.',
 ['inputs','histories','configurations'],'every history of storing and reading commands over any CDB size, block range, transfer length, data delivery mode, session, block size and backing store kind',
 'Tests write and read a handful of fixed ranges with one session and one CDB size at a time; histories mixing forms, overlaps, lengths and restarts are unbounded.',
 [D,B,Q,I,F,E],[('CDB decode of address and count',Q+' getSCSIReadWriteOffset/Count'),('backend read/write',B+' bsPerformCommand'),('data assembly',I+' scsiCommandHandler')],
 [('logical unit contents','block -> data','backing store')],[W,ST])
p('C02','Refused commands leave the medium and its data untouched',
 'A command whose addressed block range is not wholly inside the logical unit, that sets protection or other unsupported bits, that has an unsupported operation code, or that would store into a write-protected unit ends with CHECK CONDITION, changes no stored block and returns no stored data. Every range that does lie wholly inside the unit, up to and including the last block, is accepted. This holds for reads, writes, write-and-verify, write-same, or-write, verify, prefetch and unmap in every CDB size, including address and count values that overflow when added or scaled.',
 ['inputs','configurations'],'every CDB (all operation codes, addresses, counts, flag bits), unit size, block size and write-protection setting',
 'The functional suites probe a few offsets around the end of one unit; they never enumerate boundary, overflow and flag combinations or inspect what the backend was asked to do.',
 [D,Q,B,N],[('range check',D+' SBCReadWrite, SBCVerify, SBCUnmap'),('protection bits',D+' SBCReadWrite'),('write protection',D+' SBCReadWrite'),('illegal operation',N+' SPCIllegalOp')],
 [('unit size','number of blocks','api.SCSILu.Size')],[W,ST])
p('C03','Forced and synchronised writes survive a backend crash',
 'Once a write with the force-unit-access bit, or a SYNCHRONIZE CACHE covering earlier writes, has been answered GOOD, the blocks concerned keep that data through any later crash that loses everything the backing store had not been told to flush. If the flush itself fails, the command is not answered GOOD.',
 ['crash_points','histories','fault_sequences'],'every history of plain writes, forced writes and cache synchronisations (all CDB sizes), with a crash at any backend operation and a failure of any flush',
 'No test crashes the target, observes flushes or makes one fail.',
 [B,D,F,E],[('FUA handling',B+' bsPerformCommand'),('SYNCHRONIZE CACHE',D+' SBCSyncCache'),('flush',F+' DataSync; '+E+' DataSync')],
 [('durable contents','what survives a crash','backing store after last flush')],[W,ST])
p('C04','A backend failure is never reported as success',
 'If the backing store reports an error or a short transfer while a command executes, that command ends with CHECK CONDITION and medium- or hardware-error sense, never GOOD, and returns no fabricated data as if valid. Blocks outside the range of the failed command keep their contents, and commands that follow are served normally.',
 ['fault_sequences','histories','inputs'],'every placement of read, write, flush and short-transfer failures in every history of commands of every form',
 'Tests run on a healthy file; no failure is ever injected.',
 [B,D,F,E],[('error propagation',B+' bsPerformCommand'),('status and sense',D+' SBCReadWrite, SBCVerify, SBCSyncCache'),('short transfers',E+' Read/Write')],(),[W,ST])
p('C05','Commands run exactly once, in order, inside the advertised window',
 'Within a session every non-immediate command whose sequence number lies inside the window the target has advertised is taken in sequence-number order, executed and answered exactly once (a write whose data is still outstanding is executed when its data is complete), whatever gaps, duplicates or reordering the initiator produces (a command that arrives early waits until the gap is filled); commands outside the window are neither executed nor answered. The expected sequence number the target reports grows by exactly one for each non-immediate command taken, including across the 32-bit wrap, and immediate commands do not consume one. The advertised maximum always leaves an open window on an idle session.',
 ['schedules','histories','inputs'],'every sequence of commands, with and without data, with duplicate, missing, early, late, immediate and wrapping sequence numbers',
 'Two tests send one too-high and one too-low number; orders, gaps, write commands and wrap-around are not explored.',
 [I,S,K],[('sequence check and queue',I+' iscsiTaskQueueHandler, scsiCommandHandler'),('pending queue',S+' taskQueue'),('window fields',K+' buildRespPackage')],
 [('expected CmdSN','next number to execute','ISCSISession.ExpCmdSN'),('pending tasks','early commands','ISCSISession.PendingTasks')],[W,ST])
p('C06','Solicited write data is requested completely and stored in place',
 'For a write whose data does not all come with the command, the target requests exactly the missing bytes, in order and without overlap, through ready-to-transfer PDUs with consecutive numbers starting at zero, each no longer than the negotiated burst, and runs the command once, only after the last byte has arrived. Every byte ends up at the offset the initiator gave it, however the data is cut into PDUs and however several outstanding writes are interleaved. Data that matches no outstanding write, or lies outside what was requested, is never stored.',
 ['inputs','schedules','histories'],'every write length, immediate-data length, segmentation of the data, interleaving of outstanding writes and unexpected data PDU',
 'Tests send writes of a few sizes through one well-behaved initiator, one at a time.',
 [I,K,S,C],[('R2T generation',K+' buildRespPackage'),('data-out assembly',I+' scsiCommandHandler'),('task lookup',S+' taskQueue.GetByTag')],
 [('write task','bytes received, R2T number','iscsiTask')],[W,ST])
p('C07','Read data is delivered as a correct Data-In sequence with exact residuals',
 'The data of a successful reading command arrives in Data-In PDUs whose offsets tile the transfer from zero in order with consecutive numbers, none longer than the segment limit the initiator declared (8192 if it declared none) and no burst longer than the negotiated maximum, with the final bit closing each burst and status only on the last PDU. The bytes delivered are the first min(available, expected) bytes of the result, and the residual flag and count state exactly by how much the available length differs from the expected length (over- or underflow), on data and on status-only responses alike.',
 ['inputs','configurations'],'every transfer length, allocation length, expected length and declared segment limit',
 'The client library used by the tests accepts any segmentation and the residual tests are not among those that pass.',
 [I,C,K],[('segmentation',I+' txHandler'),('PDU serialisation and residuals',C+' dataInBytes, scsiCmdRespBytes'),('segment limit',L)],(),[W])
p('C08','Nothing is served before a valid login',
 'No SCSI command or task management function is executed and no target information or data is returned on a connection whose login has not completed. A login completes only for a discovery session, or for a normal session that names an existing target through one of the portals configured for that target and accepts one of the offered authentication methods the target supports; every other login attempt never reaches the full feature phase. A discovery session can never execute SCSI commands, and what it did before login has no effect afterwards.',
 ['inputs','histories','configurations'],'every sequence of PDUs before, during and instead of login, every target/portal/authentication choice and configuration',
 'Tests only log in correctly.',
 [I,L,S,T],[('phase dispatch',I+' rxHandler'),('security stage',L+' processSecurityData'),('target and portal lookup',S+' BindISCSISession; '+T+' FindTPG'),('portal configuration',I+' NewTarget')],
 [('connection state','login phase','iscsiConnection.state')],[W,ST])
p('C09','Sessions are unique, reinstated correctly and fully released',
 'Live normal sessions of a target have distinct non-zero session handles, reported in the login response, and exactly one I_T nexus each. A login with the same initiator name and ISID and a zero handle replaces the live session: the old connection is closed and its nexus disappears; a login that quotes a handle no live session of that initiator has is refused. When a connection ends by logout, disconnection or replacement, its session, nexus and handle are released, so any number of consecutive logins succeeds.',
 ['histories','schedules'],'every history of logins, reinstatements, handle reuse attempts, logouts and disconnections from several initiators, of any length',
 'Tests open a few sessions and never reuse an ISID, a handle, or count what remains.',
 [S,I,G],[('binding',S+' BindISCSISession, UnBindISCSISession, ReInstatement'),('handles',I+' AllocTSIH/ReleaseTSIH'),('nexus table',G+' AddITNexus/RemoveITNexus')],
 [('sessions','handle -> session','ISCSITarget.Sessions'),('nexuses','I_T nexus table','api.SCSITarget.ITNexus')],[W,'target listing'])
p('C10','RESERVE excludes every other session until released',
 'While a session holds a RESERVE(6) reservation on a logical unit, RESERVE and every medium-access command (read, write, verify, synchronize, format, start/stop, unmap) from any other session on that unit ends with RESERVATION CONFLICT and has no effect, while the holder, and all sessions on other units, are unaffected. INQUIRY, REQUEST SENSE and REPORT LUNS are never refused, and RELEASE is always answered GOOD but only the holder\'s RELEASE has an effect. The reservation ends exactly when its holder releases it, its holder\'s session ends, or the unit is reset.',
 ['histories','schedules'],'every history of reserve, release, access, reset, logout and disconnection by several sessions on several units',
 'One test reserves and releases from a single initiator.',
 [G,Q,D,N],[('reserve/release',G+' deviceReserve/deviceRelease'),('enforcement',Q+' AddCommandQueue'),('end of session',S+' UnBindISCSISession')],
 [('reservation holder','nexus holding the unit','api.SCSILu.ReserveID')],[W,ST])
p('C11','Persistent reservations follow the SPC registration and holder rules',
 'Registrations, the reservation holder, scope and type, and the generation counter of a logical unit evolve exactly as the PERSISTENT RESERVE OUT service actions register, register-and-ignore, reserve, release, clear and preempt prescribe: an unregistered or wrong-key session is refused with RESERVATION CONFLICT and changes nothing, only a holder can release, and unregistering or clearing removes what it must. PERSISTENT RESERVE IN reports exactly the current keys, reservation and generation. Units and targets do not influence each other.',
 ['histories','inputs'],'every history of persistent reservation commands from several sessions on several units, with right and wrong keys, scopes, types and parameter lengths',
 'No passing test executes a persistent reservation command.',
 [N,R,C],[('service actions',N+' SPCPR*'),('reservation state',R),('parameter length','pkg/scsi/cmd.go SCSICDBBufXLength')],
 [('registrations','nexus -> key','SCSILUReservation'),('holder','current reservation','SCSILUReservation.CurrentReservation')],[W])
p('C12','A LUN reaches exactly the device mapped to it',
 'A command addressed to a logical unit number is executed on the device mapped to that number in the session\'s target and on no other; numbers that are not mapped, including numbers above 255 and other addressing forms, end with CHECK CONDITION and touch no device (LUN 0 always answers inquiries). REPORT LUNS lists LUN 0 and exactly the mapped numbers, each once. Adding or removing a mapping takes effect for the following commands and affects no other unit or target.',
 ['configurations','inputs','histories'],'every LUN map over several targets and devices, every LUN field value, every sequence of mapping changes',
 'Tests use one target with one or two units.',
 [Q,M,C,N,G],[('LUN decode',C+' parseHeader'),('device lookup',Q+' AddCommandQueue'),('mapping',M),('REPORT LUNS',N+' SPCReportLuns')],
 [('LUN map','target -> LUN -> device','SCSILUMap')],[W,ST])
p('C13','Discovery reports exactly the configured targets and portals',
 'In every configuration a SendTargets=All request on a discovery session returns every configured target exactly once, each followed by exactly the portals configured for it (identified by portal id) with their group tags, or by the cluster address when one is set; SendTargets with a target name returns that target alone, and nothing for an unknown name. The text response is final, well formed and carries the tag of its request. Discovery has no effect on any normal session.',
 ['configurations','histories'],'every set of targets, portal groups and portal ids (contiguous or not, in any order), and every discovery history',
 'Tests list one target with one portal.',
 [I,T,'pkg/util/util.go'],[('SendTargets',I+' iscsiExecText'),('configuration',I+' NewTarget, AddiSCSIPortal'),('text encoding','pkg/util/util.go')],
 [('portals','group tag -> portal set','iSCSITPGT')],[W])
p('C14','No peer input crashes, wedges or disturbs the target',
 'Whatever bytes a peer sends on a connection — malformed, truncated, unsupported or out-of-phase PDUs, arbitrary CDBs, contradictory transfer flags, lengths and LUNs, unexpected data PDUs — the target process keeps running, other sessions keep being served correctly and no stored data is lost. The offending connection either keeps working, with each request answered, rejected or deliberately ignored as the protocol allows, or is closed; it never stops answering while staying open.',
 ['inputs','histories','schedules'],'every byte sequence on a connection in any phase, at any time relative to other sessions',
 'Tests send well-formed commands from a correct initiator.',
 [I,C,K,D,N],[('PDU parsing',C+' parseHeader'),('dispatch',I+' rxHandler, scsiCommandHandler'),('parameter handling',D+' '+N)],(),[W,'process exit','second session'])
p('C15','Task management aborts exactly the named waiting commands',
 'ABORT TASK for a command that is still waiting for its data or for its turn removes it: it is never executed nor answered afterwards, and the function is answered "complete"; for any other tag the answer is "task does not exist". ABORT TASK SET, CLEAR TASK SET and LOGICAL UNIT RESET do the same for all waiting commands of the session on that unit and for no others, and functions the target does not implement are answered "not supported" or "rejected" and change nothing. Every function request gets exactly one response, with its own tag, and the session continues normally.',
 ['schedules','histories','inputs'],'every interleaving of waiting writes, early commands, data PDUs and management functions with arbitrary tags and units',
 'Two tests abort one task and reset one unit.',
 [I,S,C,K],[('functions',I+' iscsiExecTask'),('pending queue',S+' taskQueue.RemoveByTag'),('response',C+' scsiTMFRespBytes')],
 [('waiting tasks','commands not yet executed','ISCSISession.PendingTasks')],[W,ST])
p('C16','Single-host mode admits one host at a time',
 'With multiple-host login blocked, at any time all open connections belong to a single host address: connections from other hosts are closed without being served as long as any connection of the current host is open, even after some of that host\'s connections end or log out. Once the last connection of the host is gone another host is admitted. Without the option all hosts are admitted.',
 ['histories','schedules','configurations'],'every history of connects, logins, logouts and disconnections from several hosts with several connections each',
 'No test uses the option or more than one source address.',
 [I],[('admission',I+' Run'),('release',I+' handler, iscsiExecLogout')],
 [('current host','admitted address','CurrentHostIP')],[W])
p('C17','I/O statistics count every command exactly once',
 'With statistics enabled, after any history the counters equal what was served: each answered SCSI command adds exactly one to the count of its own operation code, each READ or WRITE of any CDB size adds one to its operation count and its expected transfer length to its volume, whether its data was immediate or solicited and whichever session sent it; nothing else changes them. A snapshot handed out is not altered by later I/O, and no concurrent update is lost.',
 ['histories','schedules','inputs'],'every history and interleaving of commands from several sessions, with every data delivery mode',
 'No test reads the statistics after I/O.',
 [I,K],[('update',I+' UpdateStats'),('snapshot',I+' Stats'),('attribution',K+' buildRespPackage')],
 [('counters','per operation and totals','TargetStats')],['statistics interface',W])
p('C18','Capacity reporting, range checks and resize agree',
 'READ CAPACITY(10) and (16) report the last block address and block length of the unit, with the 10-byte form saturating for units it cannot express, and commands are accepted exactly up to that last block. After a resize all of these change together to the new size for every session, and the contents of blocks that exist before and after are unchanged.',
 ['histories','configurations','inputs'],'every unit size (tiny to beyond 2 TiB), block size and sequence of resizes interleaved with I/O',
 'Tests read the capacity of one fixed unit and never resize under I/O.',
 [D,Q,I,E],[('capacity',D+' SBCReadCapacity, SBCReadCapacity16'),('resize',Q+' Resize'),('range check',D+' SBCReadWrite')],
 [('unit size','bytes','api.SCSILu.Size')],[W])
p('C19','Verify commands report a mismatch exactly when there is one',
 'VERIFY with byte check (10/12/16) is answered GOOD exactly when the data sent equals the stored blocks it addresses, and otherwise with CHECK CONDITION and miscompare sense; it never changes the medium. WRITE AND VERIFY (10/12/16) stores the data and is answered GOOD only if the stored blocks then equal the data sent. VERIFY without byte check succeeds for every valid range and fails for an invalid one.',
 ['inputs','histories'],'every stored contents, data sent (equal, different in any one block or byte, too short), range and CDB size',
 'Tests verify one matching and one mismatching pattern.',
 [D,B],[('verify',D+' SBCVerify'),('compare',B+' bsPerformCommand')],(),[W,ST])
p('C20','Every command gets exactly one correctly tagged and numbered response',
 'Every SCSI command that is accepted receives exactly one terminating response, carrying that command\'s own task tag and its own status and data, and nothing else is sent for it afterwards, for any pipelining of commands and interleaving of solicited writes. On each connection status sequence numbers start from the value agreed at login and increase by exactly one with each response that carries status, and every response carries the current expected sequence number.',
 ['schedules','histories','inputs'],'every pipelined mixture of commands, immediate commands, solicited writes and other PDUs on one or several connections',
 'The client used by the tests tolerates wrong sequence numbers and keeps few commands in flight.',
 [I,K,C],[('response construction',K+' buildRespPackage'),('transmission',I+' txHandler')],
 [('StatSN','status counter','iscsiConnection.statSN')],[W])
p('C21','Logout ends the session',
 'A logout request in any phase after login is answered with one logout response carrying its tag and success, after which the target executes nothing more that arrives on that connection, even if already sent, and closes it. Commands still waiting for data are discarded without effect, and the session\'s nexus and reservations are gone.',
 ['schedules','histories'],'every position of a logout among pipelined commands, waiting writes and data PDUs',
 'Tests log out last, with nothing outstanding.',
 [I],[('logout',I+' iscsiExecLogout'),('close',I+' txHandler, handler')],(),[W,ST,'target listing'])
p('C22','The service stops and restarts cleanly and lists its targets',
 'After the service is closed no new connection or session is established, and it can be started again on the same port and serves the same contents. Creating a target name twice is refused and leaves the first intact. The management listing always shows exactly the created targets, and asking for it at any time, during any logins and I/O, neither disturbs them nor fails.',
 ['histories','schedules'],'every history of starts, stops, target creations, listings and sessions, at any time relative to each other',
 'One test starts and stops once without a session.',
 [I,Q,G,'pkg/apiserver/router/target/target.go'],[('run/close',I+' Run, Close'),('target creation',I+' NewTarget; '+G+' NewSCSITarget'),('listing',Q+' GetTargetList')],
 [('targets','created targets','SCSITargetService.Targets')],[W,'target listing'])
p('C23','Parameter negotiation results are legal and are honoured',
 'For every key an initiator offers in the operational login stage the target answers with a value the protocol allows for that offer — never above the offer nor the target\'s own limit for minimum-type keys, the correct boolean function for yes/no keys, a digest it actually implements or Reject — and answers keys it does not know with NotUnderstood instead of failing. Both sides\' final values are the ones the target then uses for segment and burst lengths, and the order or packaging of keys over login PDUs does not change the outcome.',
 ['inputs','configurations'],'every set, order, value and distribution over PDUs of login keys',
 'Tests use the single key set of one client library.',
 [L,S,K],[('key table',S+' sessionKeys'),('negotiation',L+' processLoginData'),('use',K+' buildRespPackage; '+I+' txHandler')],
 [('session parameters','negotiated values','iscsiLoginParam.sessionParam')],[W])
p('C24','Pings are echoed and never disturb the session',
 'A NOP-Out that asks for a reply gets exactly one NOP-In with the same tag and the same data, a NOP-Out with the reserved tag gets none. An immediate NOP-Out leaves the command numbering unchanged, a non-immediate one advances it by one, and in both cases the commands before and after it are unaffected.',
 ['inputs','schedules'],'every ping size, tag and immediacy at every point of a command sequence',
 'No test sends a non-immediate or reserved-tag ping.',
 [I,K,C],[('ping',I+' iscsiExecNoopOut'),('serialisation',C+' noopInBytes')],(),[W])
p('C25','Concurrent sessions see linearizable block contents',
 'For commands issued concurrently by several sessions on shared units, what they read and leave in each block is the result of some sequential order of the commands that respects real time: no read returns data that was never stored in that block, was already overwritten before the read began, or belongs to another command or unit, and no acknowledged write is lost. No interleaving of I/O with logins, logouts and disconnections of other sessions crashes the target or loses a response.',
 ['schedules','histories'],'every interleaving of commands, logins and disconnections of several sessions, including commands held up inside the backing store',
 'Tests use one session, or two strictly alternating.',
 [I,Q,G,B],[('per-connection processing',I+' handler'),('shared nexus and LUN tables',Q+' AddCommandQueue; '+G)],
 [('logical unit contents','block -> data','backing store')],[W,ST])
p('C26','Status and sense data state the true cause',
 'Every CHECK CONDITION carries sense data in the agreed fixed format, with its length, whose key and additional code name the actual cause: illegal operation code, field, address out of range, unsupported unit, miscompare, write protection, medium error or not ready. A command answered GOOD carries no sense data, and no status other than GOOD, CHECK CONDITION, BUSY or RESERVATION CONFLICT appears.',
 ['inputs','histories','fault_sequences'],'every command, error cause and combination of causes',
 'Tests check the sense of a few errors.',
 [Q,D,N,K],[('sense construction',Q+' BuildSenseData'),('response',K+' buildRespPackage')],(),[W])
p('C27','Parameter data is well formed and truncated to the allocation length',
 'For INQUIRY (standard and vital product data), MODE SENSE(6/10), READ CAPACITY(16), REPORT LUNS and REPORT SUPPORTED OPERATION CODES, the data returned for any allocation length is exactly the prefix of the complete data of that length, the complete data\'s own length fields describe it, what it says of the unit (its size, block size, provisioning, write protection) is so, and repeated requests from any session return the same data. Unsupported pages are refused with illegal-request sense rather than answered with something else.',
 ['inputs','configurations'],'every page, subpage, allocation length and expected length',
 'Tests use a few allocation lengths and only look at the header.',
 [N,D],[('INQUIRY and VPD',N+' SPCInquiry'),('MODE SENSE',N+' SPCModeSense'),('READ CAPACITY(16)',D),('REPORT LUNS',N+' SPCReportLuns')],(),[W])
p('C28','The daemon serves exactly its configuration, and its data outlive it',
 'The gotgt daemon starts if and only if its configuration can be honoured and its ports are free: a configuration that is malformed, repeats a device id, names an unknown kind of store or a missing file, maps a LUN that is not a number or a device that is not configured, an unknown log level or driver, or an occupied port ends it with a failure status before it serves anything. Once started it serves exactly the configured targets whose portals are all configured, on exactly their portals, each LUN with the configured device\'s file, size, block size, provisioning and online state; the command line and the HTTP interface list those targets with their groups and numbers of sessions, and fail when no daemon runs; --block-multiple-hosts admits one host at a time. However the daemon ends (termination signal or kill, with or without commands in flight), the data acknowledged before are in the device\'s file and are served by the next start under whatever configuration; a write in flight leaves old or new data in its own blocks only; files of other devices are never changed.',
 ['configurations','histories','crash_points'],'every configuration, every sequence of starts, configuration changes, sessions, reads, writes and ends of the daemon',
 'Tests build targets in process with one fixed configuration; none starts the daemon, restarts it or reads its command line.',
 ['cmd/daemon.go','cmd/list.go','pkg/config/config.go',M,B,'pkg/scsi/lun.go',F,'pkg/apiserver/apiserver.go','pkg/api/client/client.go',I],
 [('start',"cmd/daemon.go createDaemon"),('configuration','pkg/config/config.go Load'),('devices and LUNs',M+' InitSCSILUMap'),('targets and portals',I+' NewTarget'),('listing','pkg/apiserver/router/target/target.go; cmd/list.go listTarget'),('file store',F)],
 [('configuration','what is served','GOSTOR_CONFIG/config.json'),('file contents','data','the files configured')],[W,'exit status and output of the gotgt program','the HTTP interface','the backing files'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
