import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
B="src/smtpclientbase.cpp"; S="src/securesmtpclientbase.cpp"; SM="src/smtpclient.cpp"; O="src/opportunisticsecuresmtpclient.cpp"; F="src/forcedsecuresmtpclient.cpp"
ALL=[B,S,SM,O,F]
CONN="The repository's tests never open a connection: sockets, DNS and TLS are not reachable in the suite, so no test ever runs a whole session, let alone one with "
p("P01","Success is reported exactly when the server accepted the message",
 "A send reports success (0) only if, in that call, the server answered with the accepting code every step the client asked of it: greeting, EHLO, STARTTLS and TLS where used, authentication where used, sender, every recipient, start of data and end of data. Any refusing, malformed or missing reply and any failing send before that makes the call report a nonzero code. When every step is accepted and nothing fails, the call reports success, except that credentials without an offered and allowed mechanism make it fail with the not-supported code, and that a failing QUIT after acceptance may be reported as such.",
 ["inputs","fault_sequences","histories"],"Every reply code at every step, every placement of a failing or silent step, for each kind of client, with and without credentials, batch mode and STARTTLS.",
 CONN+"an arbitrary reply at every step.",ALL,[("sendMail and its stages",B+" sendMail/setMailRecipients/setMailHeaders/setMailBody"),("connection set-up",SM+", "+O+", "+F+" establishConnectionWithServer"),("reply code extraction",B+" extractReturnCode")],
 [("mIsConnected","a session with the server is open")],["sendMail return value","bytes exchanged with the server"])
p("P02","The client speaks SMTP in order and stops at a refusal",
 "On every connection the client's commands form the sequence EHLO, [STARTTLS, EHLO], [authentication], sender, one recipient command per recipient, DATA, message, end of data, and each command is sent only after the previous one was answered. No message content is ever sent unless the server answered DATA with 354, no DATA is sent unless the sender and all recipients were accepted, and nothing but QUIT follows a refused step on that connection. The sender command is repeated only after a 501 reply, at most three forms in total.",
 ["inputs","fault_sequences","histories"],"Every reply code at every step, for each kind of client, one or two messages, batch mode on and off.",
 CONN+"a server that refuses at each possible step.",ALL,[("stage sequencing",B+" sendMail"),("sender formats",B+" setMailRecipients"),("feedback check",B+" addMailRecipients/setMailHeaders/setMailBody")],None,["bytes exchanged with the server"])
p("P03","The envelope names the sender and every recipient, and Bcc stays hidden",
 "The accepted sender command carries exactly the message's From address, and the recipient commands are exactly the To, then Cc, then Bcc addresses, each once per occurrence and in order. The To and Cc addresses also appear in the To and Cc header lines, and nothing of a Bcc recipient (address or display name) appears in the message data.",
 ["inputs","configurations"],"All numbers of To/Cc/Bcc recipients up to the bound, all address characters within the accepted alphabet, all display names.",
 "Tests only check getters and one list formatter; none looks at what is sent, for any combination of recipient lists.",[B,"src/message.cpp","src/messageaddress.cpp"],[("envelope",B+" setMailRecipients/addMailRecipients"),("headers",B+" setMailHeaders/generateHeaderAddressValues")],None,["wire bytes"])
p("P04","Header lines carry the given values and cannot be injected",
 "The message data starts with exactly the lines From, To (if any), Cc (if any), Subject and Content-Type, each once, whose values are the given addresses, display names and subject. Whatever characters the subject, display names, attachment names or content ids contain, CR and LF included, they cannot add, end or split a header line or start the body.",
 ["inputs"],"Every byte value at every position of subject, display name, attachment name and content id, up to the length bound.",
 "Header construction is only reachable in a live session, which no test runs; no test contains a control character.",[B,"src/message.cpp","src/messageaddress.cpp"],[("headers",B+" setMailHeaders/addMailHeader"),("part headers",B+" createAttachmentsText")],None,["wire bytes after DATA"])
p("P05","The body arrives unchanged whatever it contains",
 "After the receiving server removes SMTP transparency dots, the body part of the message is byte for byte the body the caller gave (at most one line end is added before the boundary that closes the part), with the declared content type of the message class and the UTF-8 charset. No body, of any content or length, ends the DATA phase early or makes a later line be taken as a command: the server sees the end of data exactly once, where the client finishes the message.",
 ["inputs"],"Every body content up to the symbolic length bound, at every alignment relative to the 512-byte send chunks.",
 "No test sends a body; smuggling bodies (a line holding one dot) and chunk-boundary alignments are never constructed.",[B,"src/plaintextmessage.cpp","src/htmlmessage.cpp"],[("body",B+" setMailBody")],None,["wire bytes after DATA"])
p("P06","Each attachment arrives as one faithful MIME part",
 "For each attachment, in order, the message contains exactly one MIME part that declares the content type implied by the file name, the attachment's name and, if set, its content id, and whose base64 payload decodes to exactly the file's bytes, for every readable file below 4 GiB whose name holds no quote or control character; the last part is followed by the closing boundary. A message with an attachment that does not exist or cannot be read is never handed over without it, and the send never reports success.",
 ["inputs","configurations"],"Every file content up to the length bound (and lengths around base64 group and send chunk boundaries), names, content ids, zero to two attachments.",
 "Tests encode one or two fixed files; no test assembles a message with attachments.",[B,"src/attachment.cpp","src/base64.cpp"],[("parts",B+" createAttachmentsText"),("file encoding","src/attachment.cpp getBase64EncodedFile")],None,["wire bytes after DATA","Attachment getters"])
p("P07","Short or failed writes never lose, repeat or reorder bytes",
 "However the operating system splits outgoing data into partial writes, the server receives exactly the same byte stream as with whole writes. If a write fails, the send reports failure, and nothing more of that message is sent.",
 ["fault_sequences","inputs"],"Every sequence of short write lengths and every position of a failing write within the bound.",
 CONN+"a short write.",[B,SM,S],[("raw send",B+" sendRawCommand"),("TLS send",S+" sendCommand/sendCommandWithFeedback")],None,["wire bytes","sendMail return value"])
p("P08","Secrets never leave a secure client unencrypted once TLS is on offer",
 "A client of a secure class never puts credentials on the wire outside an established TLS session, in any history of sends on that object. If the server offers STARTTLS, in any reply form, segmentation or letter case, the client either upgrades before sending any envelope or message data, or fails; a failed upgrade never falls back to clear text.",
 ["histories","inputs","fault_sequences"],"All EHLO replies within bounds, all STARTTLS/TLS outcomes, histories of two sends on one object with different servers, with and without credentials.",
 CONN+"a TLS upgrade; the interplay of two sessions on one object is out of the suite's reach.",[O,S,B],[("upgrade decision",O+" establishConnectionWithServer/isStartTLSSupported"),("channel switch",B+" setKeepUsingBaseSendCommands"),("TLS",S+" startTLSNegotiation")],[("mKeepUsingBaseSendCommands","use the clear channel for later commands")],["plain-text socket bytes"])
p("P09","A forced-TLS client never sends or trusts a clear-text byte",
 "A client of the forced secure class sends nothing on the socket outside the TLS session and acts on nothing received outside it, including after handshake failures, timeouts and repeated sends. If the TLS session cannot be established the send fails.",
 ["fault_sequences","histories"],"All outcomes of each TLS set-up step, all reply codes, batch mode, two sends on one object.",
 CONN+"a TLS handshake failing at each step.",[F,S],[("TLS first",F+" establishConnectionWithServer"),("TLS I/O",S)],None,["plain-text socket bytes"])
p("P10","No session is trusted without a verified certificate",
 "SMTP commands are sent over TLS only if the connect and handshake succeeded, the server presented a certificate and its verification result is OK; the single exception is the self-signed leaf result when the caller opted in. Every other result fails the send with the matching TLS error code and sends nothing over that session.",
 ["inputs","configurations","fault_sequences"],"All verification result values, certificate present or absent, opt-in on or off, every failing TLS set-up step, both secure classes.",
 "No test performs a handshake; the verification result is never anything at all in the suite.",[S,O,F],[("gate",S+" startTLSNegotiation")],[("mAcceptSelfSignedCert","caller opted in to self-signed certificates")],["TLS bytes","sendMail return value"])
p("P11","The right authentication mechanism is used with the right payload",
 "With credentials set, the client uses the first of PLAIN, LOGIN, XOAUTH2 that the server offered in its latest EHLO reply and that the caller's choice allows, and sends exactly the payload that mechanism defines, base64 encoded, one line per step; without credentials it never authenticates. If no offered mechanism is allowed, or the server offers none, the send fails with the not-supported code and sends no credential and no mail.",
 ["inputs","configurations"],"All subsets of offered mechanisms, all caller choices, all user names and passwords up to the length bound, all challenge replies.",
 "Tests only parse fixed AUTH lines; no test authenticates.",[B,"src/credential.cpp","src/base64.cpp"],[("selection",B+" authenticateClient"),("payloads",B+" authenticateWithMethodPlain/Login/XOauth2"),("offer",B+" extractAuthenticationOptions")],None,["wire bytes","sendMail return value"])
p("P12","The communication log never depends on the password",
 "Two runs that differ only in the password, with the same server behaviour, produce the same communication log, for every authentication mechanism and outcome. In particular neither the password nor its encoded form can be read from the log.",
 ["inputs","fault_sequences"],"All pairs of passwords of equal bounded length, all mechanisms, all reply codes of the server.",
 "It is a two-run (hyper)property over all passwords; the suite never authenticates.",[B],[("masking",B+" authenticateWithMethod*"),("log",B+" addCommunicationLogItem")],[("mCommunicationLog","text returned to the caller")],["getCommunicationLog"])
p("P13","The communication log is complete, ordered and well formed",
 "After a send, the communication log lists, in order, every command and message line sent (credentials masked, attachment data excepted) and every reply received (its text up to the first NUL byte, if any), each as its own entry marked client or server, however long the session is. It is always a valid string, starts empty for each new connection, and building it never damages memory.",
 ["inputs","histories"],"All reply contents and lengths within bounds, sessions crossing the log's growth steps at every alignment.",
 "Tests only see the empty log; growth at 4096-byte steps needs a long session.",[B],[("log",B+" addCommunicationLogItem"),("reset",B+" initializeSession")],[("mCommunicationLogSize","allocated size")],["getCommunicationLog"])
p("P14","No server data can corrupt memory, crash or hang the client",
 "Whatever bytes a server sends, in segments of whatever size, at whatever step, a send returns normally without out-of-bounds access, use of freed or null memory, unbounded recursion, endless looping, an escaping exception or a signal that ends the process, and the client object can be used and destroyed afterwards.",
 ["inputs","fault_sequences"],"Arbitrary reply bytes, segments from 1 byte to the full receive buffer, close or error at any point, for each kind of client.",
 CONN+"a hostile peer; buffer-filling replies are never produced.",ALL,[("receive",B+" getRawCommandReply/checkServerGreetings"),("TLS receive",S+" getServerReply, "+F+" checkServerGreetings"),("cleanup",SM+" cleanup, "+S+" cleanup")],None,["memory accesses","termination"])
p("P15","Server capabilities are read correctly from any EHLO reply",
 "The client considers the EHLO reply complete exactly when it has received the final line of the multi-line reply, however it is segmented, and then knows exactly the authentication mechanisms listed on the AUTH line, wherever that line stands and in whatever letter case the keyword is written, and whether STARTTLS is listed. Lines whose keyword is a longer word, or that contain these words behind their keyword, offer neither. A reply that never completes makes the send fail; it never loops for ever.",
 ["inputs","fault_sequences"],"All EHLO replies up to the bound: capability lines in any order and count, any position as last line, any split into segments.",
 "Tests feed a dozen fixed strings to the parser; segmentation is not tested at all.",[B,"src/serveroptionsanalyzer.cpp",S],[("completeness","src/serveroptionsanalyzer.cpp containsAllOptions"),("AUTH parse",B+" extractAuthenticationOptions")],None,["sendMail behaviour","parsed options"])
p("P16","Reply codes are read as the three-digit number the server sent",
 "For every reply that starts with a three-digit code (100 to 999) the code used and reported is that number; for every reply that does not, the reply counts as invalid and never as success. Texts after the code never influence it.",
 ["inputs"],"All byte strings up to the bound.",
 "Tests try six strings.",[B],[("code",B+" extractReturnCode")],None,["reported code"])
p("P17","A silent or dead server fails the send in bounded time with the right code",
 "If the server stops answering at any step, or closes, the send returns within the command timeout (one second or more) of that step (plus one polling second per step) with the documented timeout or error code of that step, and never blocks for ever. Writing to a connection that the server has closed gives that error and no SIGPIPE, whatever the TLS layer does, and the signal mask of the calling thread is left as it was.",
 ["fault_sequences","configurations"],"Silence or close at every step, any timeout setting up to the bound, each kind of client.",
 CONN+"a silent server, and the wait is wall-clock time.",ALL,[("waits",B+" initializeSessionPOSIX/checkServerGreetings/getRawCommandReply"),("TLS waits",S+" getServerReply")],[("mCommandTimeOut","seconds")],["virtual clock","sendMail return value"])
p("P18","Every socket and TLS object is released exactly once",
 "Every socket, TLS connection object and TLS context that a client opens is closed or freed exactly once, at the latest when the client object is destroyed, and nothing is used after it was released. Descriptors the client did not open are never closed, and no send that fails leaves a half-open session behind for the next one to talk on.",
 ["fault_sequences","histories"],"Failure at every step, two sends on one object, batch mode on and off, each kind of client.",
 CONN+"a failing step; descriptor leaks are invisible to the suite.",ALL,[("cleanup",SM+" cleanup, "+S+" cleanup"),("open",B+" initializeSessionPOSIX, "+S+" startTLSNegotiation")],[("mSock","descriptor"),("mBIO/mCTX","TLS objects")],["socket/close and TLS new/free calls"])
p("P19","Batch mode uses one session and ends it once",
 "With batch mode on, successive successful sends share one connection, with one greeting, EHLO and authentication, one mail transaction each, and QUIT is sent exactly once, when the client is destroyed. With batch mode off every send uses a fresh connection that ends with QUIT and is closed when the send returns.",
 ["histories","configurations"],"All histories of up to three sends with batch mode on or off, each kind of client, with and without credentials.",
 CONN+"several messages.",ALL,[("batch",B+" sendMail, cleanup in "+SM+" and "+S)],[("mBatchMode","keep session"),("mIsConnected","session open")],["wire bytes per connection"])
p("P20","A failed message never affects the next one",
 "After a send that failed for any reason, the next send on the same client behaves as on a fresh session: it is not stuck in the failed transaction, inherits no recipients, data or TLS state from it, and succeeds if its own steps are accepted.",
 ["histories","fault_sequences"],"Failure of the first message at every step and with every code, then a second message, for each kind of client and batch mode.",
 CONN+"a failing message followed by another.",ALL,[("failure paths",B+" sendMail")],None,["wire bytes","sendMail return value"])
p("P21","Messages, addresses, attachments and credentials are proper values",
 "Copying, assigning or moving a message, address, attachment, credential or error description yields an equal and independent value, leaves a copied-from source unchanged and destroys the old content exactly once, for every content and every combination of present and absent parts. No operation leaks, double-frees or reads freed memory, and self-assignment changes nothing.",
 ["inputs","histories"],"All counts of recipients and attachments up to the bound in source and target, all string contents up to the bound, sequences of copy, assignment and move.",
 "Tests copy one fixed shape of each; memory errors in untested shapes stay invisible.",["src/message.cpp","src/messageaddress.cpp","src/attachment.cpp","src/credential.cpp","src/errorresolver.cpp"],[("special members","src/message.cpp, src/messageaddress.cpp, src/attachment.cpp, src/credential.cpp, src/errorresolver.cpp")],None,["getters","allocations"])
p("P22","Copied and moved clients keep their configuration and own their resources",
 "A copied client has the same server, port, batch mode, timeout, log, credentials and certificate policy as its source and is independent of it and unconnected; a moved-to client takes all of these over. However clients are copied, assigned, moved and destroyed, no memory or connection is leaked, released twice or used after release.",
 ["histories","configurations"],"All configurations within bounds, sequences of copy, assignment, move on connected and unconnected clients of all six classes.",
 "Tests copy a client that was never connected and has no log; ownership errors are invisible without a session.",[B,S,SM,O,F,"src/cpp/smtpclient.cpp","src/cpp/opportunisticsecuresmtpclient.cpp","src/cpp/forcedsecuresmtpclient.cpp"],[("special members",B+", "+S)],None,["getters","allocations","socket and TLS objects"])
p("P23","Base64 encoding follows RFC 4648 and decoding inverts it",
 "For every byte sequence the encoder produces the RFC 4648 base64 text (with a line break after each 64 KiB of output), and decoding the encoding of any byte sequence gives it back, line breaks included. Decoding any text whatsoever is memory safe and yields the bytes of its leading valid part.",
 ["inputs"],"All byte sequences up to the bound, plus one group at arbitrary position after the 64 KiB break.",
 "Base64 has no test of its own; only one small fixed file is encoded.",["src/base64.cpp"],[("codec","src/base64.cpp Encode/Decode")],None,["returned strings"])
p("P24","Trimming and case mapping are exact on every string",
 "Trimming removes all and only the leading and/or trailing ASCII white space and keeps the rest unchanged; lower and upper casing changes exactly the ASCII letters of the other case. This holds for every byte string, including bytes above 127 and empty or all-blank strings.",
 ["inputs"],"All byte strings up to the bound.","Tests use a few short ASCII literals.",["src/stringutils.cpp"],[("functions","src/stringutils.cpp")],None,["returned strings"])
p("P25","Invalid addresses, credentials, file names and servers are refused",
 "Constructing or updating an address, credential, attachment or client with an empty, blank or (where documented) null or malformed value throws an invalid-argument error, leaks nothing and changes nothing; every other value is stored unchanged. No accepted email address is without an @ or contains a line break, so it cannot break out of its SMTP command line, and no value makes validation take exponential time or exhaust the stack.",
 ["inputs"],"All byte strings up to the bound.","Tests try a dozen literals.",["src/messageaddress.cpp","src/credential.cpp","src/attachment.cpp",B],[("validation","src/messageaddress.cpp isEmailAddressValid, src/credential.cpp, src/attachment.cpp, "+B+" constructor/setServerName")],None,["exceptions","getters"])
p("P26","The C++ string facade behaves like the underlying API",
 "Every object of the std::string based interface returns what it was given, and sending a message through it produces the same bytes on the wire, result and log as building the equivalent message and client with the basic interface. Credentials keep their chosen authentication method and copies of these clients own their credentials.",
 ["inputs","configurations","histories"],"All contents and counts up to the bounds, all three client classes, both message classes.",
 "Facade tests check getters of fixed values; equivalence of what is sent is never observed.",["src/cpp/message.cpp","src/cpp/htmlmessage.cpp","src/cpp/plaintextmessage.cpp","src/cpp/smtpclient.cpp","src/cpp/credential.cpp","src/cpp/attachment.cpp","src/cpp/messageaddress.cpp"],[("conversion","src/cpp/htmlmessage.cpp, src/cpp/plaintextmessage.cpp"),("forwarding","src/cpp/smtpclient.cpp, src/cpp/forcedsecuresmtpclient.cpp, src/cpp/opportunisticsecuresmtpclient.cpp")],None,["getters","wire bytes","log"])
p("P27","Every error code has its message and copying it respects the buffer",
 "Each documented error code maps to its own specific message and every other integer to the default one. Copying a message into a caller's buffer never writes beyond the given size, always terminates the text, returns 0 if the whole message fits, otherwise the number of characters copied, and -1 (writing nothing) for a null or zero-sized buffer.",
 ["inputs"],"All 2^32 error codes and all buffer sizes up to beyond the longest message.",
 "Tests check listed codes and two buffer sizes.",["src/errorresolver.cpp",B],[("table","src/errorresolver.cpp"),("copy",B+" getErrorMessage/getErrorMessage_r")],None,["returned strings","caller's buffer"])
p("P28","MIME type depends only on the extension, case-insensitively",
 "An attachment's content type is determined by the text after the last dot of its file name (the whole name if it has none), ignoring ASCII case, according to the documented table, and is empty for every other extension; the display name, content id and rest of the path have no influence.",
 ["inputs"],"All file names up to the length bound.","Tests check listed literals in one or two spellings.",["src/attachment.cpp"],[("table","src/attachment.cpp getMimeType")],None,["getMimeType"])
p("P29","Every failure to connect is reported as such and nothing is sent",
 "If creating the socket, resolving the host, switching the socket mode, connecting (at once, delayed or by timeout) or querying the outcome fails, the send returns the documented negative code of that step, sends nothing, does not read unset data and does not claim a connection. If all succeed the socket is connected to the resolved address and the configured port, in blocking mode.",
 ["fault_sequences","inputs"],"Failure of each system call with any error number, interrupted or repeated waits, all ports.",
 CONN+"a failing system call.",[B],[("connect",B+" initializeSessionPOSIX/setSocketToNonBlockingPOSIX/setSocketToBlockingPOSIX")],[("mSock","descriptor")],["system calls","sendMail return value"])
p("P30","Addresses print in the standard form everywhere",
 "An address prints as its email alone when it has no display name and as name, space and email in angle brackets otherwise; a list prints its members in order separated by comma and space. Equality holds exactly when both email and display name are equal.",
 ["inputs"],"All emails and display names up to the bound, lists up to the bound.","Tests use a few literals.",["src/messageaddress.cpp",B],[("format","src/messageaddress.cpp operator std::string, "+B+" generateHeaderAddressValues"),("equality","src/messageaddress.cpp operator==")],None,["returned strings"])
p("P31","Clients used at the same time do not affect each other",
 "Two client objects that are used at the same time from two threads, each with its own object (of any classes, also when both send the same message object), each behave exactly as they would alone: the same bytes to the same own server, the same return codes, the same communication log and error texts. Nothing of one client's server, credentials, message, session or log ever shows up in the other's, whatever the moment at which the threads are switched.",
 ["schedules","inputs","configurations"],"Every moment of one client's work at which the other can run (each system call, TLS call and array allocation, each access to a variable of the library or to the shared message that is ever written), all pairs of client classes, batch mode, refusals with any code, all subject and password bytes within the bound.",
 "The suite is single-threaded and never runs a session; a shared buffer between two calls is harmless unless a switch falls exactly there.",ALL,[("shared state","static and global variables of the library and of the system interfaces it calls, "+B+" initializeSessionPOSIX, "+S+" initializeSSLContext/startTLSNegotiation")],None,["bytes exchanged with each server","sendMail return value","communication log"])
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
