From 1f11e5d9dfb4cb87eea952971b7afae9dce933ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 01/45] fix: do not leak the authentication options parsed from
 the EHLO reply

---
 src/smtpclientbase.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9dbcdcc..9361e13 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1133,9 +1133,10 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
             break;
         }
         ehlo_output.erase(0, ehlo_character_index + DELIMITER.length());
-        if (!ehlo_output.empty() && retVal == nullptr) {
-            retVal = ParseAuthenticationOptions(ehlo_output);
-        }
+    }
+    // The last line may not be terminated by a CRLF
+    if (retVal == nullptr && !ehlo_output.empty()) {
+        retVal = ParseAuthenticationOptions(ehlo_output);
     }
     return retVal;
 }
-- 
2.43.0


From 6802314bc65477f624581603624a3b21ad95b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 02/45] fix: only accept a three digits number as a server
 reply code

---
 src/smtpclientbase.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9361e13..e1b66a0 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1066,14 +1066,16 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
 }
 
 int SMTPClientBase::extractReturnCode(const char *pOutput) {
-    if (pOutput != nullptr && strlen(pOutput) >= 3) {
-        std::string code_str { pOutput };
-        try {
-            return std::stoi(code_str.substr(0, 3));
-        }
-        catch (std::exception const &) {
-            return -1;
+    // A reply code is made of three digits and can't start by a zero
+    if (pOutput != nullptr && strlen(pOutput) >= 3 && pOutput[0] != '0') {
+        int return_code { 0 };
+        for (size_t index = 0; index < 3; index++) {
+            if (pOutput[index] < '0' || pOutput[index] > '9') {
+                return -1;
+            }
+            return_code = return_code * 10 + (pOutput[index] - '0');
         }
+        return return_code;
     }
     return -1;
 }
-- 
2.43.0


From 1a0a881665acb0480b29c761b75be307447dc2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 03/45] fix: report the not supported error when the server
 offers no authentication method

---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index e1b66a0..3f78042 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -759,6 +759,9 @@ void SMTPClientBase::setLastServerResponse(const char *pResponse) {
 
 int SMTPClientBase::authenticateClient() {
     if (mCredential != nullptr) {
+        if (mAuthOptions == nullptr) {
+            return CLIENT_AUTHENTICATION_METHOD_NOTSUPPORTED;
+        }
         auto recommenedAuthOption = mCredential->getRecommendedAuthOption();
         if (mAuthOptions->Plain
             && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
-- 
2.43.0


From 7e70845439c6cc4b09ac6b941250e453c88124bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 04/45] fix: stop sending recipients at the first one refused
 or unanswered

---
 src/smtpclientbase.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 3f78042..c1aa8a3 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -884,17 +884,17 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
 }
 
 int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t count, const int RECIPIENT_OK) {
-    int rcpt_to_ret_code = RECIPIENT_OK;
-    std::for_each(list, list + count, [this, &rcpt_to_ret_code, &RECIPIENT_OK](MessageAddress *address) {
-            std::stringstream ss_rcpt_to;
-            ss_rcpt_to << "RCPT TO: <"s << address->getEmailAddress() << ">\r\n"s;
-            addCommunicationLogItem(ss_rcpt_to.str().c_str());
-            int ret_code = (*this.*sendCommandWithFeedbackPtr)(ss_rcpt_to.str().c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
-            if (ret_code != RECIPIENT_OK) {
-            rcpt_to_ret_code = ret_code;
-            }
-            });
-    return rcpt_to_ret_code;
+    for (size_t index = 0; index < count; index++) {
+        std::stringstream ss_rcpt_to;
+        ss_rcpt_to << "RCPT TO: <"s << list[index]->getEmailAddress() << ">\r\n"s;
+        addCommunicationLogItem(ss_rcpt_to.str().c_str());
+        int ret_code = (*this.*sendCommandWithFeedbackPtr)(ss_rcpt_to.str().c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
+        if (ret_code != RECIPIENT_OK) {
+            // The connection may already be closed so don't go any further
+            return ret_code;
+        }
+    }
+    return RECIPIENT_OK;
 }
 
 int SMTPClientBase::setMailHeaders(const Message &pMsg) {
-- 
2.43.0


From 272bdbebb9d834966a6f88f4214cfc60d67f8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 05/45] fix: report a failure to send the To and Cc headers

---
 src/smtpclientbase.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index c1aa8a3..ed5eb5d 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -923,13 +923,19 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     // To
     if (pMsg.getToCount() > 0) {
         std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
-        addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_to_ret_code = addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_to_ret_code != 0) {
+            return header_to_ret_code;
+        }
     }
 
     // Cc
     if (pMsg.getCcCount() > 0) {
         std::vector<MessageAddress*> toCcs(pMsg.getCc(), pMsg.getCc() + pMsg.getCcCount());
-        addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_cc_ret_code = addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_cc_ret_code != 0) {
+            return header_cc_ret_code;
+        }
     }
 
     // Subject
-- 
2.43.0


From 6cfa0adc164d3a2553ff3ee5521b40b8c8b1e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 06/45] fix: send the whole command when the system accepts
 only a part of it, without SIGPIPE

---
 src/smtpclientbase.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index ed5eb5d..64610b1 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -39,6 +39,14 @@
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+// Flags used to send data: a closed connection must be reported by an error
+// and not by a signal that terminates the process
+#ifdef MSG_NOSIGNAL
+    constexpr int SEND_FLAGS = MSG_NOSIGNAL;
+#else
+    constexpr int SEND_FLAGS = 0;
+#endif
+
 SMTPClientBase::SMTPClientBase(const char *pServerName, unsigned int pPort)
     : mIsConnected(false),
       mServerName(nullptr),
@@ -675,10 +683,16 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 #else
     size_t commandSize = strlen(pCommand);
 #endif
-    if (send(mSock, pCommand, commandSize, 0) == -1) {
-        setLastSocketErrNo(errno);
-        cleanup();
-        return pErrorCode;
+    // The operating system may accept only a part of the data at a time
+    while (commandSize > 0) {
+        auto bytes_sent = send(mSock, pCommand, commandSize, SEND_FLAGS);
+        if (bytes_sent <= 0) {
+            setLastSocketErrNo(errno);
+            cleanup();
+            return pErrorCode;
+        }
+        pCommand += bytes_sent;
+        commandSize -= static_cast<decltype(commandSize)>(bytes_sent);
     }
     return 0;
 }
-- 
2.43.0


From c1462f1b6212622c1480fea549daadb015d0095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 07/45] fix: report a TLS write that sent nothing as a failure

---
 src/securesmtpclientbase.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 923cbd9..9416d03 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -286,7 +286,10 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 }
 
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    if (mBIO == nullptr) {
+        return pErrorCode;
+    }
+    if (BIO_puts(mBIO, pCommand) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
         return pErrorCode;
@@ -299,7 +302,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
     if (mBIO == nullptr) {
         return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
     }
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    if (BIO_puts(mBIO, pCommand) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
         return pErrorCode;
-- 
2.43.0


From 75d18a7cf47620e7f48a540c9ddc5b058fadff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 08/45] fix: do not call cleanup endlessly when the QUIT
 command can't be sent

---
 src/securesmtpclientbase.cpp | 6 ++++--
 src/smtpclient.cpp           | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 9416d03..819cee9 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -102,10 +102,12 @@ void SecureSMTPClientBase::setAcceptSelfSignedCert(bool pValue) {
 }
 
 void SecureSMTPClientBase::cleanup() {
-    if (getBatchMode() && mIsConnected) {
+    const bool session_opened { mIsConnected };
+    // The cleanup is called again if the QUIT command can't be sent
+    mIsConnected = false;
+    if (getBatchMode() && session_opened) {
         sendQuitCommand();
     }
-    mIsConnected = false;
     if (mCTX != nullptr) {
         SSL_CTX_free(mCTX);
     }
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 15c7594..da9d4ae 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -45,10 +45,12 @@ SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
 }
 
 void SmtpClient::cleanup() {
-    if (getBatchMode() && mIsConnected) {
+    const bool session_opened { mIsConnected };
+    // The cleanup is called again if the QUIT command can't be sent
+    mIsConnected = false;
+    if (getBatchMode() && session_opened) {
         sendQuitCommand();
     }
-    mIsConnected = false;
     int socket { getSocketFileDescriptor() };
     if (socket != 0) {
 #ifdef _WIN32
-- 
2.43.0


From 402807f922fa06f12fefee81a35539776032b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 09/45] fix: close the session of a message that failed so that
 it can't affect the next one

---
 src/smtpclientbase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 64610b1..021fcf6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -353,6 +353,7 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
     if (!mIsConnected) {
         int client_connect_ret_code = establishConnectionWithServer();
         if (client_connect_ret_code != 0) {
+            cleanup();
             return client_connect_ret_code;
         }
     }
@@ -360,16 +361,19 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
 
     int set_mail_recipients_ret_code = setMailRecipients(pMsg);
     if (set_mail_recipients_ret_code != 0) {
+        cleanup();
         return set_mail_recipients_ret_code;
     }
 
     int set_mail_headers_ret_code = setMailHeaders(pMsg);
     if (set_mail_headers_ret_code != 0) {
+        cleanup();
         return set_mail_headers_ret_code;
     }
 
     int set_mail_body_ret_code = setMailBody(pMsg);
     if (set_mail_body_ret_code != 0) {
+        cleanup();
         return set_mail_body_ret_code;
     }
 
@@ -511,6 +515,7 @@ int SMTPClientBase::initializeSessionPOSIX() {
     if (mSock < 0) {
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
+        clearSocketFileDescriptor();
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
     struct hostent *host = gethostbyname(getServerName());
-- 
2.43.0


From 5270463970381f0a7cb0cb01fe357ddd98b298f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 10/45] fix: return the documented code when the socket mode
 can't be changed

---
 src/smtpclientbase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 021fcf6..c9c91ce 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -530,7 +530,8 @@ int SMTPClientBase::initializeSessionPOSIX() {
            host->h_addr,
            static_cast<size_t>(host->h_length));
     // Set non-blocking
-    if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX() != 0) {
+    int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
+    if (socketSetFlagsResult != 0) {
         return socketSetFlagsResult;
     }
     std::stringstream ss;
@@ -586,6 +587,7 @@ int SMTPClientBase::setSocketToNonBlockingPOSIX() {
     if ((arg = fcntl(mSock, F_GETFL, NULL)) < 0) {
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_FCNTL_GET_ERROR;
     }
     arg |= O_NONBLOCK;
     if (fcntl(mSock, F_SETFL, arg) < 0) {
-- 
2.43.0


From 365ca50f50e5bc9bb87f25ddcb2b05c77a53223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 11/45] fix: wait again for the connection when the wait was
 interrupted by a signal

---
 src/smtpclientbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index c9c91ce..0ed6415 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -568,7 +568,7 @@ int SMTPClientBase::initializeSessionPOSIX() {
                         return SOCKET_INIT_SESSION_DELAYED_CONNECTION_ERROR;
                     }
                     break;
-                } else {
+                } else if (res == 0) {
                     return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
                 }
             } while (1);
-- 
2.43.0


From ee5637e85a0d0e25a2c86a41680e153993ccaa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:37 +0000
Subject: [PATCH 12/45] fix: read every server reply up to its last line,
 within the command timeout

---
 src/forcedsecuresmtpclient.cpp | 21 +++-------
 src/securesmtpclientbase.cpp   | 37 ++++++++----------
 src/smtpclientbase.cpp         | 71 +++++++++++++++-------------------
 src/smtpclientbase.h           |  5 +++
 4 files changed, 60 insertions(+), 74 deletions(-)

diff --git a/src/forcedsecuresmtpclient.cpp b/src/forcedsecuresmtpclient.cpp
index e8bf919..8fb3b6b 100644
--- a/src/forcedsecuresmtpclient.cpp
+++ b/src/forcedsecuresmtpclient.cpp
@@ -79,22 +79,13 @@ int ForcedSecureSMTPClient::establishConnectionWithServer() {
 }
 
 int ForcedSecureSMTPClient::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = BIO_read(getBIO(), outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
+    int status_code = getServerReply();
+    if (status_code == -1) {
+        return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
     }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
+    if (status_code == STATUS_CODE_SERVICE_READY) {
+        addCommunicationLogItem("Connected!");
     }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    return status_code;
 }
 
diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 819cee9..f34ee45 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -273,14 +273,8 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
     std::string returnedOptions = getLastServerResponse();
     // Check that the last returned option has no hyphen otherwise options are
     // still missing from the server.
-    while (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
-        int replyCode = getServerReply();
-        if (replyCode == -1) {
-            return SSL_CLIENT_INITSECURECLIENT_TIMEOUT;
-        } else if (replyCode != EHLO_SUCCESS_CODE) {
-            return replyCode;
-        }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
+    if (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
+        return SSL_CLIENT_INITSECURECLIENT_ERROR;
     }
     // Inspect the returned values for authentication options
     setAuthenticationOptions(SMTPClientBase::extractAuthenticationOptions(returnedOptions.c_str()));
@@ -320,18 +314,21 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
 }
 
 int SecureSMTPClientBase::getServerReply() {
-    unsigned int waitTime {0};
-    int bytes_received {0};
+    std::string fullResponse;
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        setLastServerResponse(outbuf);
-        addCommunicationLogItem(outbuf, "s");
-        return extractReturnCode(outbuf);
+    unsigned int waitTime {0};
+    setSocketToNonBlocking();
+
+    // The reply may come in several pieces
+    while (!isReplyComplete(fullResponse) && waitTime < getCommandTimeout() && fullResponse.length() < SERVERRESPONSE_MAX_LENGTH) {
+        int bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH);
+        if (bytes_received > 0) {
+            fullResponse.append(outbuf, static_cast<size_t>(bytes_received));
+        } else {
+            crossPlatformSleep(1);
+            waitTime += 1;
+        }
     }
-    return -1;
+    setSocketToBlocking();
+    return processServerReply(fullResponse);
 }
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 0ed6415..54997d3 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -645,14 +645,8 @@ int SMTPClientBase::sendServerIdentification() {
     std::string returnedOptions = getLastServerResponse();
     // Check that the last returned option has no hyphen otherwise options are
     // still missing from the server.
-    while (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
-        int replyCode = getServerReply();
-        if (replyCode == -1) {
-            return SOCKET_INIT_CLIENT_SEND_EHLO_TIMEOUT;
-        } else if (replyCode != EHLO_SUCCESS_CODE) {
-            return replyCode;
-        }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
+    if (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
+        return SOCKET_INIT_CLIENT_SEND_EHLO_ERROR;
     }
     // Inspect the returned values for authentication options
     setAuthenticationOptions(extractAuthenticationOptions(returnedOptions.c_str()));
@@ -660,24 +654,14 @@ int SMTPClientBase::sendServerIdentification() {
 }
 
 int SMTPClientBase::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0)) <= 0
-            && waitTime < mCommandTimeOut) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < mCommandTimeOut) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
+    int status_code = getRawCommandReply();
+    if (status_code == -1) {
+        return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    }
+    if (status_code == STATUS_CODE_SERVICE_READY) {
+        addCommunicationLogItem("Connected!");
     }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    return status_code;
 }
 
 int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
@@ -706,32 +690,41 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 
 int SMTPClientBase::getRawCommandReply() {
     std::string fullResponse;
-    bool receivedAtLeastOnce = false;
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
     unsigned int waitTime {0};
     setSocketToNonBlocking();
 
-    do {
+    // The reply may come in several pieces
+    while (!isReplyComplete(fullResponse) && waitTime < mCommandTimeOut && fullResponse.length() < SERVERRESPONSE_MAX_LENGTH) {
         ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0);
         if (bytes_received > 0) {
-            receivedAtLeastOnce = true;
-            outbuf[bytes_received] = '\0';  // Null-terminate the received data
-            fullResponse += outbuf;
+            fullResponse.append(outbuf, static_cast<size_t>(bytes_received));
         } else {
-            if (bytes_received == -1 && receivedAtLeastOnce) {
-                break;
-            }
             crossPlatformSleep(1);
             waitTime += 1;
         }
-    } while (waitTime < mCommandTimeOut);
+    }
     setSocketToBlocking();
-    if (waitTime < mCommandTimeOut || receivedAtLeastOnce) {
-        setLastServerResponse(fullResponse.c_str());
-        addCommunicationLogItem(fullResponse.c_str(), "s");
-        return extractReturnCode(fullResponse.c_str());
+    return processServerReply(fullResponse);
+}
+
+// The last line of a reply has no hyphen after the code
+bool SMTPClientBase::isReplyComplete(const std::string &pReply) {
+    if (pReply.empty() || pReply.back() != '\n') {
+        return false;
     }
-    return -1;
+    size_t previous_line_end = pReply.length() < 2 ? std::string::npos : pReply.rfind('\n', pReply.length() - 2);
+    size_t line_start = previous_line_end == std::string::npos ? 0 : previous_line_end + 1;
+    return pReply.length() - line_start < 4 || pReply[line_start + 3] != '-';
+}
+
+int SMTPClientBase::processServerReply(const std::string &pReply) {
+    if (pReply.empty()) {
+        return -1;
+    }
+    setLastServerResponse(pReply.c_str());
+    addCommunicationLogItem(pReply.c_str(), "s");
+    return isReplyComplete(pReply) ? extractReturnCode(pReply.c_str()) : -1;
 }
 
 int SMTPClientBase::getServerReply() {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 80f420e..9a9b6a3 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -27,6 +27,9 @@
 /** The max length of the server response buffer */
 #define SERVERRESPONSE_BUFFER_LENGTH 1024
 
+/** The max length of a server response made of several pieces */
+#define SERVERRESPONSE_MAX_LENGTH 65536
+
 namespace jed_utils {
 /** @brief The SMTPClientBase represents the base class for all SMTP clients
  *  that will or will not use encryption for communication.
@@ -199,6 +202,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
     static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments);
+    int processServerReply(const std::string &pReply);
+    static bool isReplyComplete(const std::string &pReply);
     static int extractReturnCode(const char *pOutput);
     static ServerAuthOptions *extractAuthenticationOptions(const char *pEhloOutput);
     static std::string generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList);
-- 
2.43.0


From 339f5e651ca7b4f9770dbe143103fe5137cd16e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 13/45] fix: do not keep the clear text commands of an earlier
 session once STARTTLS is used

---
 src/opportunisticsecuresmtpclient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index aeba3d9..b6f52f9 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -65,6 +65,7 @@ int OpportunisticSecureSMTPClient::establishConnectionWithServer() {
     }
 
     if (isStartTLSSupported(getLastServerResponse())) {
+        setKeepUsingBaseSendCommands(false);
         addCommunicationLogItem("Info: STARTTLS is available by the server, the communication will be encrypted.");
         int tls_init_return_code = upgradeToSecureConnection();
         if (tls_init_return_code != STATUS_CODE_SERVICE_READY) {
-- 
2.43.0


From c6ac3eb5fcb508a946cd0c31d282672d51c99e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 14/45] fix: use STARTTLS when it is the last option listed by
 the server

---
 src/opportunisticsecuresmtpclient.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index b6f52f9..9911aaa 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -111,5 +111,7 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
     }
 
     const std::string STARTTLS_LINE_PREFIX { "250-STARTTLS" };
-    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos;
+    const std::string STARTTLS_LINE_PREFIX_ALTERNATE { "250 STARTTLS" };
+    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos ||
+        serverResponse.find(STARTTLS_LINE_PREFIX_ALTERNATE) != std::string::npos;
 }
-- 
2.43.0


From caaf4628773128358bcc8a2d6a27f7e11344f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 15/45] fix: do not wait for ever for the TLS handshake or to
 send data

---
 src/smtpclientbase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 54997d3..58481e0 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -578,6 +578,11 @@ int SMTPClientBase::initializeSessionPOSIX() {
             return SOCKET_INIT_SESSION_CONNECT_ERROR;
         }
     }
+    // Never wait for the server longer than the command timeout
+    tv.tv_sec = mCommandTimeOut;
+    tv.tv_usec = 0;
+    setsockopt(mSock, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
+    setsockopt(mSock, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
     // Set to blocking mode again...
     return setSocketToBlockingPOSIX();
 }
-- 
2.43.0


From dd61869c54767c845d58ec5eebd685335ff7af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 16/45] fix: allocate an absent subject or body the way it is
 released

---
 src/message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index dcddbb4..c38aeb5 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -42,7 +42,7 @@ Message::Message(const MessageAddress &pFrom,
       mAttachments(nullptr),
       mAttachmentCount(pAttachmentsSize) {
     if (pSubject == nullptr) {
-        mSubject = new char('\0');
+        mSubject = new char[1] { '\0' };
     } else {
         size_t subject_len = strlen(pSubject);
         mSubject = new char[subject_len + 1];
@@ -51,7 +51,7 @@ Message::Message(const MessageAddress &pFrom,
     }
 
     if (pBody == nullptr) {
-        mBody = new char('\0');
+        mBody = new char[1] { '\0' };
     } else {
         size_t body_len = strlen(pBody);
         mBody = new char[body_len + 1];
-- 
2.43.0


From 7995406d4f4d0a83b929818123a90f13b53cd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 17/45] fix: count no address and no attachment when the list
 is null

---
 src/message.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index c38aeb5..39584e0 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -32,15 +32,15 @@ Message::Message(const MessageAddress &pFrom,
         size_t pAttachmentsSize)
     : mFrom(pFrom),
       mTo(nullptr),
-      mToCount(pToCount),
+      mToCount(pTo != nullptr ? pToCount : 0),
       mCc(nullptr),
-      mCCCount(pCcCount),
+      mCCCount(pCc != nullptr ? pCcCount : 0),
       mBcc(nullptr),
-      mBCCCount(pBccCount),
+      mBCCCount(pBcc != nullptr ? pBccCount : 0),
       mSubject(nullptr),
       mBody(nullptr),
       mAttachments(nullptr),
-      mAttachmentCount(pAttachmentsSize) {
+      mAttachmentCount(pAttachments != nullptr ? pAttachmentsSize : 0) {
     if (pSubject == nullptr) {
         mSubject = new char[1] { '\0' };
     } else {
-- 
2.43.0


From 7809793d9becee6b936680912e99a5f7314e6b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 18/45] fix: make the message assignment copy the sender and
 release the lists it replaces

---
 src/message.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index 39584e0..4f0bb0a 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -184,6 +184,8 @@ Message::Message(const Message &other)
 // Copy assignment
 Message& Message::operator=(const Message &other) {
     if (this != &other) {
+        // mFrom
+        mFrom = other.mFrom;
         // mSubject
         delete[] mSubject;
         size_t subject_len = strlen(other.mSubject);
@@ -197,12 +199,13 @@ Message& Message::operator=(const Message &other) {
         strncpy(mBody, other.mBody, body_len);
         mBody[body_len] = '\0';
         // mTo and mToCount
-        if (mToCount > 0) {
+        if (mTo != nullptr) {
             for (unsigned int i = 0; i < mToCount; i++) {
                 delete mTo[i];
             }
             delete[] mTo;
         }
+        mTo = nullptr;
         if (other.mToCount > 0) {
             mTo = new MessageAddress*[other.mToCount];
             for (unsigned int i = 0; i < other.mToCount; i++) {
@@ -211,12 +214,13 @@ Message& Message::operator=(const Message &other) {
         }
         mToCount = other.mToCount;
         // mCc and mCCCount
-        if (mCCCount > 0) {
+        if (mCc != nullptr) {
             for (unsigned int i = 0; i < mCCCount; i++) {
                 delete mCc[i];
             }
             delete[] mCc;
         }
+        mCc = nullptr;
         if (other.mCCCount > 0) {
             mCc = new MessageAddress*[other.mCCCount];
             for (unsigned int i = 0; i < other.mCCCount; i++) {
@@ -225,12 +229,13 @@ Message& Message::operator=(const Message &other) {
         }
         mCCCount = other.mCCCount;
         // mBcc and mBCCCount
-        if (mBCCCount > 0) {
+        if (mBcc != nullptr) {
             for (unsigned int i = 0; i < mBCCCount; i++) {
                 delete mBcc[i];
             }
             delete[] mBcc;
         }
+        mBcc = nullptr;
         if (other.mBCCCount > 0) {
             mBcc = new MessageAddress*[other.mBCCCount];
             for (unsigned int i = 0; i < other.mBCCCount; i++) {
@@ -239,12 +244,13 @@ Message& Message::operator=(const Message &other) {
         }
         mBCCCount = other.mBCCCount;
         // Attachments and mAttachmentCount
-        if (mAttachmentCount > 0) {
+        if (mAttachments != nullptr) {
             for (unsigned int i = 0; i < mAttachmentCount; i++) {
                 delete mAttachments[i];
             }
             delete[] mAttachments;
         }
+        mAttachments = nullptr;
         if (other.mAttachmentCount > 0) {
             mAttachments = new Attachment*[other.mAttachmentCount];
             for (unsigned int i = 0; i < other.mAttachmentCount; i++) {
-- 
2.43.0


From 821842fe82818ca02791645bf10a419576e75b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:19 +0000
Subject: [PATCH 19/45] fix: release the previous content id of an attachment

---
 src/attachment.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index b4c0622..e6394fa 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -112,9 +112,11 @@ Attachment& Attachment::operator=(Attachment&& other) noexcept {
 
 void Attachment::setContentId(const char * pContentId) {
     size_t contentid_len = strlen(pContentId);
-    mContentId = new char[contentid_len + 1];
-    strncpy(mContentId, pContentId, contentid_len);
-    mContentId[contentid_len] = '\0';
+    char *contentid = new char[contentid_len + 1];
+    strncpy(contentid, pContentId, contentid_len);
+    contentid[contentid_len] = '\0';
+    delete[] mContentId;
+    mContentId = contentid;
 }
 
 const char *Attachment::getName() const {
-- 
2.43.0


From bfc558b440d1aa740351795b275e6e92a7a0722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 20/45] fix: keep line breaks of the subject, names and content
 ids out of the headers

---
 src/smtpclientbase.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 58481e0..437cb8b 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -857,6 +857,12 @@ int SMTPClientBase::authenticatedWithMethodXOauth2() {
     return (*this.*sendCommandWithFeedbackPtr)(cmd.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
 }
 
+// A value put in a header or a command must stay on its line
+static std::string toSingleLine(std::string value) {
+    std::replace_if(value.begin(), value.end(), [](char c) { return c == '\r' || c == '\n'; }, ' ');
+    return value;
+}
+
 int SMTPClientBase::setMailRecipients(const Message &pMsg) {
     const int INVALID_ADDRESS { 501 };
     const int SENDER_OK { 250 };
@@ -864,7 +870,7 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
     std::vector<std::string> mailFormats;
     // Method 1, 2 and 3
     mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
-    mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getDisplayName() + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
+    mailFormats.push_back("MAIL FROM: <"s + toSingleLine(pMsg.getFrom().getDisplayName()) + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
     mailFormats.push_back("MAIL FROM: "s + pMsg.getFrom().getEmailAddress() + "\r\n"s);
 
 
@@ -959,7 +965,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
     // Subject
     std::stringstream ss_header_subject;
-    ss_header_subject << "Subject: " << pMsg.getSubject() << "\r\n";
+    ss_header_subject << "Subject: " << toSingleLine(pMsg.getSubject()) << "\r\n";
     addCommunicationLogItem(ss_header_subject.str().c_str());
     int header_subject_ret_code = (*this.*sendCommandPtr)(ss_header_subject.str().c_str(), CLIENT_SENDMAIL_HEADERSUBJECT_ERROR);
     if (header_subject_ret_code != 0) {
@@ -979,7 +985,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
 int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErrorCode) {
     std::stringstream ss_header_item;
-    ss_header_item << field << ": " << value << "\r\n";
+    ss_header_item << field << ": " << toSingleLine(value) << "\r\n";
     addCommunicationLogItem(ss_header_item.str().c_str());
     return (*this.*sendCommandPtr)(ss_header_item.str().c_str(), pErrorCode);
 }
@@ -1073,14 +1079,16 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
 std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments) {
     std::string retval;
     for (const auto &item : pAttachments) {
+        const std::string name { toSingleLine(item->getName()) };
+        const std::string content_id { item->getContentId() != nullptr ? toSingleLine(item->getContentId()) : "" };
         retval += "\r\n--sep\r\n";
-        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + std::string(item->getName()) + "\"\r\n";
-        if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
-            retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
-            retval += "Content-ID: <" + std::string(item->getContentId()) + ">\r\n";
-            retval += "Content-Disposition: attachment; filename=\"" + std::string(item->getName()) + "\"\r\n";
+        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
+        if (!content_id.empty()) {
+            retval += "X-Attachment-Id: " + content_id + "\r\n";
+            retval += "Content-ID: <" + content_id + ">\r\n";
+            retval += "Content-Disposition: attachment; filename=\"" + name + "\"\r\n";
         } else {
-            retval += "Content-Disposition: Inline; filename=\"" + std::string(item->getName()) + "\"\r\n";
+            retval += "Content-Disposition: Inline; filename=\"" + name + "\"\r\n";
         }
         retval += "Content-Transfer-Encoding: base64\r\n\r\n";
         const char* b64 = item->getBase64EncodedFile();
-- 
2.43.0


From 46c949b78a7cbc776d6d06009b012d3a5fbb01a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 21/45] fix: send a body with lines that start with a dot
 unchanged and in full

---
 src/smtpclientbase.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 437cb8b..be93258 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -990,10 +990,24 @@ int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErr
     return (*this.*sendCommandPtr)(ss_header_item.str().c_str(), pErrorCode);
 }
 
+// A line of the message that starts with a dot must be sent with a second dot,
+// otherwise it could be taken for the end of the message (RFC 5321 section 4.5.2)
+static std::string addTransparencyDots(std::string text) {
+    size_t start_pos = 0;
+    if (!text.empty() && text[0] == '.') {
+        text.insert(0, ".");
+    }
+    while ((start_pos = text.find("\r\n.", start_pos)) != std::string::npos) {
+        start_pos += 3;
+        text.insert(start_pos, ".");
+    }
+    return text;
+}
+
 int SMTPClientBase::setMailBody(const Message &pMsg) {
     // Body part
     std::ostringstream body_ss;
-    body_ss << "--sep\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
+    body_ss << "--sep\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << addTransparencyDots(pMsg.getBody()) << "\r\n";
     std::string body_real = body_ss.str();
     addCommunicationLogItem(body_real.c_str());
 
-- 
2.43.0


From fffec77cf58c0c2500963613fb185c330f186c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 22/45] fix: send the closing boundary of a message without
 attachments

---
 src/smtpclientbase.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index be93258..c208986 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1015,10 +1015,9 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
     Attachment** arr_attachment = pMsg.getAttachments();
 
     std::vector<Attachment*> vect_attachment(arr_attachment, arr_attachment + pMsg.getAttachmentsCount());
-    if (pMsg.getAttachmentsCount() > 0) {
-        std::string attachments_text = createAttachmentsText(vect_attachment);
-        body_real += attachments_text;
-    }
+    // The text ends the multipart content even if there's no attachment
+    std::string attachments_text = createAttachmentsText(vect_attachment);
+    body_real += attachments_text;
 
     const size_t CHUNK_MAXLENGTH = 512;
     if (body_real.length() > CHUNK_MAXLENGTH) {
-- 
2.43.0


From 9b9e8dad0bada20b4cd0dcd2c684415ccf44696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 23/45] fix: select a part boundary that does not appear in the
 body

---
 src/smtpclientbase.cpp | 23 +++++++++++++++++------
 src/smtpclientbase.h   |  2 +-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index c208986..1e52544 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -922,6 +922,16 @@ int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t c
     return RECIPIENT_OK;
 }
 
+// The boundary between the parts must not appear in the body
+static std::string selectBoundary(const Message &pMsg) {
+    const std::string body { pMsg.getBody() };
+    std::string boundary { "sep" };
+    while (body.find("--" + boundary) != std::string::npos) {
+        boundary += "x";
+    }
+    return boundary;
+}
+
 int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     // Data section
     std::string data_cmd = "DATA\r\n";
@@ -973,7 +983,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     }
 
     // Content-Type
-    std::string content_type { "Content-Type: multipart/related; boundary=sep\r\n\r\n" };
+    std::string content_type { "Content-Type: multipart/related; boundary=" + selectBoundary(pMsg) + "\r\n\r\n" };
     addCommunicationLogItem(content_type.c_str());
     int header_content_type_ret_code = (*this.*sendCommandPtr)(content_type.c_str(), CLIENT_SENDMAIL_HEADERCONTENTTYPE_ERROR);
     if (header_content_type_ret_code != 0) {
@@ -1006,8 +1016,9 @@ static std::string addTransparencyDots(std::string text) {
 
 int SMTPClientBase::setMailBody(const Message &pMsg) {
     // Body part
+    const std::string boundary { selectBoundary(pMsg) };
     std::ostringstream body_ss;
-    body_ss << "--sep\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << addTransparencyDots(pMsg.getBody()) << "\r\n";
+    body_ss << "--" << boundary << "\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << addTransparencyDots(pMsg.getBody()) << "\r\n";
     std::string body_real = body_ss.str();
     addCommunicationLogItem(body_real.c_str());
 
@@ -1016,7 +1027,7 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
 
     std::vector<Attachment*> vect_attachment(arr_attachment, arr_attachment + pMsg.getAttachmentsCount());
     // The text ends the multipart content even if there's no attachment
-    std::string attachments_text = createAttachmentsText(vect_attachment);
+    std::string attachments_text = createAttachmentsText(vect_attachment, boundary);
     body_real += attachments_text;
 
     const size_t CHUNK_MAXLENGTH = 512;
@@ -1089,12 +1100,12 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
     mCommunicationLog[mCommunicationLogSize-1] = '\0';
 }
 
-std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments) {
+std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
     std::string retval;
     for (const auto &item : pAttachments) {
         const std::string name { toSingleLine(item->getName()) };
         const std::string content_id { item->getContentId() != nullptr ? toSingleLine(item->getContentId()) : "" };
-        retval += "\r\n--sep\r\n";
+        retval += "\r\n--" + pBoundary + "\r\n";
         retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
         if (!content_id.empty()) {
             retval += "X-Attachment-Id: " + content_id + "\r\n";
@@ -1110,7 +1121,7 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
             delete[] b64;
         }
     }
-    retval += "\r\n--sep--";
+    retval += "\r\n--" + pBoundary + "--";
     return retval;
 }
 
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 9a9b6a3..6fcfc06 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -201,7 +201,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int setMailBody(const Message &pMsg);
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
-    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments);
+    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary);
     int processServerReply(const std::string &pReply);
     static bool isReplyComplete(const std::string &pReply);
     static int extractReturnCode(const char *pOutput);
-- 
2.43.0


From 53d9331939283b063009a42c8239c593450384f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 24/45] fix: do not overflow a buffer when TLS is used with a
 long server name

---
 src/securesmtpclientbase.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index f34ee45..c30828a 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -168,13 +168,11 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Link bio channel, SSL session, and server endpoint */
-    const int SERVERNAMEANDPORT_LENGTH = 1024;
-    char name[SERVERNAMEANDPORT_LENGTH];
-    sprintf(name, "%s:%u", getServerName(), getServerPort());
+    const std::string name { getServerName() + ":"s + std::to_string(getServerPort()) };
     BIO_get_ssl(mBIO, &mSSL); /* session */
     SSL_set_fd(mSSL, getSocketFileDescriptor());
     SSL_set_mode(mSSL, SSL_MODE_AUTO_RETRY); /* robustness */
-    BIO_set_conn_hostname(mBIO, name); /* prepare to connect */
+    BIO_set_conn_hostname(mBIO, name.c_str()); /* prepare to connect */
 
 #ifdef _WIN32
     /* On Windows, we need to import all the ROOT certificates to
-- 
2.43.0


From f520585b5a6ca7b42fdad2903bd3e7c10dd28c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 25/45] fix: release what the assignment of a client replaces
 and record the size of the copied log

---
 src/smtpclientbase.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 1e52544..165b828 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -91,7 +91,7 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
       mPort(other.mPort),
       mBatchMode(other.mBatchMode),
       mCommunicationLog(other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr),
-      mCommunicationLogSize(other.mCommunicationLogSize),
+      mCommunicationLogSize(other.mCommunicationLog != nullptr ? strlen(other.mCommunicationLog) + 1 : 0),
       mLastServerResponse(other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr),
       mCommandTimeOut(other.mCommandTimeOut),
       mLastSocketErrNo(other.mLastSocketErrNo),
@@ -132,14 +132,16 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         // mBatchMode
         mBatchMode = other.mBatchMode;
         // mCommunicationLog
+        delete[] mCommunicationLog;
         mCommunicationLog = other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr;
         if (mCommunicationLog != nullptr) {
             size_t communication_log_len = strlen(other.mCommunicationLog);
             strncpy(mCommunicationLog, other.mCommunicationLog, communication_log_len);
             mCommunicationLog[communication_log_len] = '\0';
         }
-        mCommunicationLogSize = other.mCommunicationLogSize;
+        mCommunicationLogSize = mCommunicationLog != nullptr ? strlen(mCommunicationLog) + 1 : 0;
         // mLastServerResponse
+        delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
         if (mLastServerResponse != nullptr) {
             size_t last_server_response_len = strlen(other.mLastServerResponse);
@@ -152,6 +154,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         delete mAuthOptions;
         mAuthOptions = other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr;
         // mCredential
+        delete mCredential;
         mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
         mIsConnected = false;
         mSock = 0;
-- 
2.43.0


From 4f750f2c27037a705007f4e7f9d00819d300688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 26/45] fix: end the session of a client that another one is
 assigned to

---
 src/securesmtpclientbase.cpp | 7 ++++---
 src/smtpclient.cpp           | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index c30828a..464b0e5 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -50,10 +50,9 @@ SecureSMTPClientBase::SecureSMTPClientBase(const SecureSMTPClientBase& other)
 // Assignment operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(const SecureSMTPClientBase& other) {
     if (this != &other) {
+        // End the current session, if any
+        SecureSMTPClientBase::cleanup();
         SMTPClientBase::operator=(other);
-        mBIO = nullptr;
-        mCTX = nullptr;
-        mSSL = nullptr;
         mAcceptSelfSignedCert = other.mAcceptSelfSignedCert;
     }
     return *this;
@@ -77,6 +76,8 @@ SecureSMTPClientBase::SecureSMTPClientBase(SecureSMTPClientBase&& other) noexcep
 // Move assignement operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& other) noexcept {
     if (this != &other) {
+        // End the current session, if any
+        SecureSMTPClientBase::cleanup();
         // Copy the data pointer and its length from the source object.
         mBIO = other.mBIO;
         mCTX = other.mCTX;
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index da9d4ae..4ebdc04 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -26,6 +26,8 @@ SmtpClient::~SmtpClient() {
 // Assignment operator
 SmtpClient& SmtpClient::operator=(const SmtpClient &other) {
     if (this != &other) {
+        // End the current session, if any
+        SmtpClient::cleanup();
         SMTPClientBase::operator=(other);
     }
     return *this;
@@ -39,6 +41,8 @@ SmtpClient::SmtpClient(SmtpClient &&other) noexcept
 // Move assignement
 SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
     if (this != &other) {
+        // End the current session, if any
+        SmtpClient::cleanup();
         SMTPClientBase::operator=(std::move(other));
     }
     return *this;
-- 
2.43.0


From b6623e407b723e699c0ccdd436743752187afa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 27/45] fix: release and safely copy the credentials of the C++
 clients

---
 src/cpp/forcedsecuresmtpclient.cpp        | 5 ++---
 src/cpp/forcedsecuresmtpclient.hpp        | 3 ++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 5 ++---
 src/cpp/opportunisticsecuresmtpclient.hpp | 3 ++-
 src/cpp/smtpclient.cpp                    | 5 ++---
 src/cpp/smtpclient.hpp                    | 3 ++-
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index f1cc91d..7df4dea 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string ForcedSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *ForcedSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool ForcedSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void ForcedSecureSMTPClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<Credential>(pCredential);
 }
 
 void ForcedSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/forcedsecuresmtpclient.hpp b/src/cpp/forcedsecuresmtpclient.hpp
index 949c035..7d58231 100644
--- a/src/cpp/forcedsecuresmtpclient.hpp
+++ b/src/cpp/forcedsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPFORCEDSECURESMTPCLIENT_H
 #define CPPFORCEDSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../forcedsecuresmtpclient.h"
 
@@ -150,7 +151,7 @@ class CPP_FORCEDSECURESMTPCLIENT_API ForcedSecureSMTPClient : private jed_utils:
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 2932cfe..6e0ca1d 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string OpportunisticSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *OpportunisticSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool OpportunisticSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void OpportunisticSecureSMTPClient::setCredentials(const Credential &pCredential
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<Credential>(pCredential);
 }
 
 void OpportunisticSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/opportunisticsecuresmtpclient.hpp b/src/cpp/opportunisticsecuresmtpclient.hpp
index 8ed476b..193f683 100644
--- a/src/cpp/opportunisticsecuresmtpclient.hpp
+++ b/src/cpp/opportunisticsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPOPPORTUNISTICSECURESMTPCLIENT_H
 #define CPPOPPORTUNISTICSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../opportunisticsecuresmtpclient.h"
 
@@ -150,7 +151,7 @@ class CPP_OPPORTUNISTICSECURESMTPCLIENT_API OpportunisticSecureSMTPClient : priv
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 1a1d80a..db3ee60 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -28,7 +28,7 @@ std::string SmtpClient::getCommunicationLog() const {
 }
 
 const Credential *SmtpClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 void SmtpClient::setServerName(const std::string &pServerName) {
@@ -50,8 +50,7 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<Credential>(pCredential);
 }
 
 void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
diff --git a/src/cpp/smtpclient.hpp b/src/cpp/smtpclient.hpp
index bc3a922..e6ef5b6 100644
--- a/src/cpp/smtpclient.hpp
+++ b/src/cpp/smtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPSMTPCLIENT
 #define CPPSMTPCLIENT
 
+#include <memory>
 #include <string>
 #include "credential.hpp"
 #include "message.hpp"
@@ -143,7 +144,7 @@ class CPP_SMTPCLIENT_API SmtpClient : private jed_utils::SmtpClient {
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
-- 
2.43.0


From ec1ca8c4a97071329bbeb660e3a84ebd7e4618e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 28/45] fix: keep the recommended authentication option in the
 C++ SmtpClient

---
 src/cpp/smtpclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index db3ee60..e15809e 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -49,7 +49,8 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
-                                                                    pCredential.getPassword().c_str()));
+                                                                    pCredential.getPassword().c_str(),
+                                                                    pCredential.getRecommendedAuthOption()));
     mCredential = std::make_shared<Credential>(pCredential);
 }
 
-- 
2.43.0


From cdd3956b021377974152bcd04c80cc776f5767dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 29/45] fix: release the buffers obtained by the C++ interface

---
 src/cpp/attachment.cpp                    | 4 +++-
 src/cpp/forcedsecuresmtpclient.cpp        | 6 +++++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 6 +++++-
 src/cpp/smtpclient.cpp                    | 6 +++++-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cpp/attachment.cpp b/src/cpp/attachment.cpp
index 315116a..d927de8 100644
--- a/src/cpp/attachment.cpp
+++ b/src/cpp/attachment.cpp
@@ -24,7 +24,9 @@ std::string Attachment::getContentId() const {
 
 std::string Attachment::getBase64EncodedFile() const {
     const char *retval = jed_utils::Attachment::getBase64EncodedFile();
-    return retval == nullptr ? "" : retval;
+    const std::string encoded_file { retval == nullptr ? "" : retval };
+    delete[] retval;
+    return encoded_file;
 }
 
 std::string Attachment::getMimeType() const {
diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index 7df4dea..bd6824d 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -67,7 +67,10 @@ void ForcedSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string ForcedSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string errorMessage { errorMsg };
+    delete[] errorMsg;
+    return errorMessage;
 }
 
 int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
@@ -76,6 +79,7 @@ int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 6e0ca1d..8fd36a2 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -67,7 +67,10 @@ void OpportunisticSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string OpportunisticSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string errorMessage { errorMsg };
+    delete[] errorMsg;
+    return errorMessage;
 }
 
 int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
@@ -76,6 +79,7 @@ int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index e15809e..efcbd3c 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -59,7 +59,10 @@ void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string SmtpClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string errorMessage { errorMsg };
+    delete[] errorMsg;
+    return errorMessage;
 }
 
 int SmtpClient::getErrorMessage_r(int errorCode,
@@ -68,6 +71,7 @@ int SmtpClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
-- 
2.43.0


From 37e9ad74e8184f005d7ad5a0c50d56e86609c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:17 +0000
Subject: [PATCH 30/45] fix: allow a client to be given its own server name or
 credentials

---
 src/smtpclientbase.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 165b828..49aed3f 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -271,11 +271,13 @@ void SMTPClientBase::setServerName(const char *pServerName) {
     if (pServerName == nullptr || strcmp(pServerName, "") == 0  || StringUtils::trim(servername_str).empty()) {
         throw std::invalid_argument("Server name cannot be null or empty");
     }
-    delete []mServerName;
+    // The new value may be the current one
     size_t server_name_len = strlen(pServerName);
-    mServerName = new char[server_name_len + 1];
-    strncpy(mServerName, pServerName, server_name_len);
-    mServerName[server_name_len] = '\0';
+    char *server_name = new char[server_name_len + 1];
+    strncpy(server_name, pServerName, server_name_len);
+    server_name[server_name_len] = '\0';
+    delete []mServerName;
+    mServerName = server_name;
 }
 
 void SMTPClientBase::setBatchMode(bool pEnabled) {
@@ -287,8 +289,10 @@ void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 }
 
 void SMTPClientBase::setCredentials(const Credential &pCredential) {
+    // The new credentials may be the current ones
+    auto *credential = new Credential(pCredential);
     delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = credential;
 }
 
 void SMTPClientBase::setKeepUsingBaseSendCommands(bool pValue) {
-- 
2.43.0


From 5179e842b3249c7b826a274ad791bbc28e0871d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 31/45] fix: allow a credential to be given its own user name
 or password

---
 src/credential.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/credential.cpp b/src/credential.cpp
index 7f4169e..dc2a287 100644
--- a/src/credential.cpp
+++ b/src/credential.cpp
@@ -127,11 +127,13 @@ void Credential::setUsername(const char *pUsername) {
         throw std::invalid_argument("Username cannot be null or empty");
     }
 
-    delete []mUsername;
+    // The new value may be the current one
     size_t username_len = strlen(pUsername);
-    mUsername = new char[username_len + 1];
-    strncpy(mUsername, pUsername, username_len);
-    mUsername[username_len] = '\0';
+    char *username = new char[username_len + 1];
+    strncpy(username, pUsername, username_len);
+    username[username_len] = '\0';
+    delete []mUsername;
+    mUsername = username;
 }
 
 void Credential::setPassword(const char *pPassword) {
@@ -139,11 +141,13 @@ void Credential::setPassword(const char *pPassword) {
         throw std::invalid_argument("Password cannot be null or empty");
     }
 
-    delete []mPassword;
+    // The new value may be the current one
     size_t password_len = strlen(pPassword);
-    mPassword = new char[password_len + 1];
-    strncpy(mPassword, pPassword, password_len);
-    mPassword[password_len] = '\0';
+    char *password = new char[password_len + 1];
+    strncpy(password, pPassword, password_len);
+    password[password_len] = '\0';
+    delete []mPassword;
+    mPassword = password;
 }
 
 void Credential::setRecommendedAuthOption(
-- 
2.43.0


From b4f0adf38fcbbc43daced062c7f6679c2f16841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 32/45] fix: decode base64 text that the encoder broke into
 lines

---
 src/base64.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fc21271..306f858 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -40,6 +40,10 @@ static inline bool is_base64(unsigned char c) {
     return (isalnum(c) || (c == '+') || (c == '/'));
 }
 
+static inline bool is_line_break(unsigned char c) {
+    return c == '\r' || c == '\n';
+}
+
 std::string Base64::Encode(unsigned char const *bytes_to_encode, size_t in_len) {
     std::string ret;
     int i = 0;
@@ -96,7 +100,13 @@ std::string Base64::Decode(std::string const &encoded_string) {
     unsigned char char_array_4[4], char_array_3[3];
     std::string ret;
 
-    while (in_len-- && (encoded_string[in_] != '=') && is_base64(encoded_string[in_])) {
+    while (in_len-- && (encoded_string[in_] != '=')
+            && (is_base64(encoded_string[in_]) || is_line_break(encoded_string[in_]))) {
+        // Encode breaks up long outputs with \r\n
+        if (is_line_break(encoded_string[in_])) {
+            in_++;
+            continue;
+        }
         char_array_4[i++] = encoded_string[in_]; in_++;
         if (i == 4) {
             for (i = 0; i < 4; i++)
-- 
2.43.0


From c1b6aad994dba59f4fa26d279356916dde37fc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 33/45] fix: define the equality operator of the C++
 MessageAddress

---
 src/cpp/messageaddress.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/messageaddress.cpp b/src/cpp/messageaddress.cpp
index 2e3a095..e9fa1c3 100644
--- a/src/cpp/messageaddress.cpp
+++ b/src/cpp/messageaddress.cpp
@@ -8,6 +8,10 @@ MessageAddress::MessageAddress(const std::string &pEmailAddress,
     : jed_utils::MessageAddress(pEmailAddress.c_str(), pDisplayName.c_str()) {
 }
 
+bool MessageAddress::operator==(const MessageAddress &pMsgComp) const {
+    return jed_utils::MessageAddress::operator==(pMsgComp);
+}
+
 MessageAddress::operator std::string() const {
     return jed_utils::MessageAddress::operator std::string();
 }
-- 
2.43.0


From 846a9c65fa84a17e2ea526f23f9f0dbbf903ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 34/45] fix: recognise STARTTLS in any letter case

---
 src/opportunisticsecuresmtpclient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index 9911aaa..a13bede 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -110,6 +110,8 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
         return false;
     }
 
+    // The keywords are not case sensitive (RFC 5321 section 2.4)
+    serverResponse = StringUtils::toUpper(serverResponse);
     const std::string STARTTLS_LINE_PREFIX { "250-STARTTLS" };
     const std::string STARTTLS_LINE_PREFIX_ALTERNATE { "250 STARTTLS" };
     return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos ||
-- 
2.43.0


From d8559c53309ba903a1c9eeef33f856c6dd7e8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 35/45] fix: recognise the AUTH line in any letter case

---
 src/smtpclientbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 49aed3f..042dc56 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1151,7 +1151,8 @@ ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
     ServerAuthOptions *retval = nullptr;
     const std::string AUTH_LINE_PREFIX = "250-AUTH";
     const std::string AUTH_LINE_PREFIX_ALTERNATE = "250 AUTH";
-    std::string line = authLine;
+    // The keywords are not case sensitive (RFC 5321 section 2.4)
+    std::string line = StringUtils::toUpper(authLine);
     // Find the line that begin with 250-AUTH or 250 AUTH
     if (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
         line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE) {
-- 
2.43.0


From 2260c3153a83fd9bb20e9a8e21f51a3e716ffe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 36/45] fix: email validation takes exponential time on long
 addresses

---
 src/messageaddress.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 091c292..71143a4 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -117,7 +117,9 @@ const char *MessageAddress::getDisplayName() const {
 }
 
 bool MessageAddress::isEmailAddressValid(const std::string &pEmailAddress) const {
-    std::regex emailPattern("^[_a-z0-9-]+(.[_a-z0-9-]+)*@[a-z0-9-]+(.[a-z0-9-]+)*(.[a-z]{2,4})$");
+    // A separator is a character that cannot be part of a word. Otherwise the number of ways to split
+    // a long word, and with it the time to refuse an invalid address, grows exponentially.
+    std::regex emailPattern("^[_a-z0-9-]+([^_a-z0-9\r\n-][_a-z0-9-]+)*@[a-z0-9-]+([^a-z0-9\r\n-][a-z0-9-]+)*.[a-z]{2,4}$");
     return regex_match(StringUtils::toLower(pEmailAddress), emailPattern);
 }
 
-- 
2.43.0


From 2f9e8efaaa6cd50c197d3e011f46a774b5db083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 37/45] fix: connect with a socket descriptor of FD_SETSIZE or
 more

---
 src/smtpclientbase.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 042dc56..73fed48 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -31,6 +31,7 @@
     #include <fcntl.h>
     #include <netdb.h>
     #include <netinet/in.h>
+    #include <poll.h>
     #include <sys/socket.h>
     #include <sys/types.h>
     #include <unistd.h>
@@ -514,7 +515,7 @@ void SMTPClientBase::doWSACleanup() {
 #else
 int SMTPClientBase::initializeSessionPOSIX() {
     // POSIX socket version
-    fd_set fdset;
+    struct pollfd connecting;
     struct timeval tv;
     socklen_t lon;
     int valopt;
@@ -548,17 +549,18 @@ int SMTPClientBase::initializeSessionPOSIX() {
     if (res < 0) {
         if (errno == EINPROGRESS) {
             do {
-                tv.tv_sec = mCommandTimeOut;
-                tv.tv_usec = 0;
-                FD_ZERO(&fdset);
-                FD_SET(mSock, &fdset);
-                res = select(mSock+1, NULL, &fdset, NULL, &tv);
+                // poll accepts any descriptor while select stops at FD_SETSIZE
+                connecting.fd = mSock;
+                connecting.events = POLLOUT;
+                connecting.revents = 0;
+                constexpr unsigned int MAX_SECONDS { std::numeric_limits<int>::max() / 1000 };
+                res = poll(&connecting, 1, static_cast<int>(std::min(mCommandTimeOut, MAX_SECONDS)) * 1000);
                 if (res < 0 && errno != EINTR) {
                     setLastSocketErrNo(errno);
                     addCommunicationLogItem(strerror(errno));
                     return SOCKET_INIT_SESSION_CONNECT_ERROR;
                 } else if (res > 0) {
-                    // Socket selected for write
+                    // Socket ready for write
                     lon = sizeof(int);
                     if (getsockopt(mSock,
                                    SOL_SOCKET,
-- 
2.43.0


From b4c7c05f8a90878b02762876465ca6a2d58b9ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 38/45] fix: close the socket when its descriptor is 0

---
 src/securesmtpclientbase.cpp |  2 +-
 src/smtpclient.cpp           |  2 +-
 src/smtpclientbase.cpp       | 10 +++++-----
 src/smtpclientbase.h         |  6 +++++-
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 464b0e5..6078844 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -118,7 +118,7 @@ void SecureSMTPClientBase::cleanup() {
     }
     mBIO = nullptr;
     int socketFileDescriptor {getSocketFileDescriptor() };
-    if (socketFileDescriptor != 0) {
+    if (socketFileDescriptor != NO_SOCKET) {
 #ifdef _WIN32
         shutdown(socketFileDescriptor, SD_BOTH);
         closesocket(socketFileDescriptor);
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 4ebdc04..01293c6 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -56,7 +56,7 @@ void SmtpClient::cleanup() {
         sendQuitCommand();
     }
     int socket { getSocketFileDescriptor() };
-    if (socket != 0) {
+    if (socket != NO_SOCKET) {
 #ifdef _WIN32
         shutdown(socket, SD_BOTH);
         closesocket(socket);
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 73fed48..b8dfb5e 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -98,7 +98,7 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
       mLastSocketErrNo(other.mLastSocketErrNo),
       mAuthOptions(other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr),
       mCredential(other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr),
-      mSock(0),
+      mSock(NO_SOCKET),
       mKeepUsingBaseSendCommands(other.mKeepUsingBaseSendCommands),
       sendCommandPtr(&SMTPClientBase::sendCommand),
       sendCommandWithFeedbackPtr(&SMTPClientBase::sendCommandWithFeedback) {
@@ -158,7 +158,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         delete mCredential;
         mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
         mIsConnected = false;
-        mSock = 0;
+        mSock = NO_SOCKET;
         setKeepUsingBaseSendCommands(other.mKeepUsingBaseSendCommands);
     }
     return *this;
@@ -192,7 +192,7 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
     other.mAuthOptions = nullptr;
     other.mCredential = nullptr;
     other.mIsConnected = false;
-    other.mSock = 0;
+    other.mSock = NO_SOCKET;
     other.mKeepUsingBaseSendCommands = false;
     setKeepUsingBaseSendCommands(mKeepUsingBaseSendCommands);
 }
@@ -233,7 +233,7 @@ SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
         other.mAuthOptions = nullptr;
         other.mCredential = nullptr;
         other.mIsConnected = false;
-        other.mSock = 0;
+        other.mSock = NO_SOCKET;
         other.mKeepUsingBaseSendCommands = false;
     }
     return *this;
@@ -312,7 +312,7 @@ int SMTPClientBase::getSocketFileDescriptor() const {
 }
 
 void SMTPClientBase::clearSocketFileDescriptor() {
-    mSock = 0;
+    mSock = NO_SOCKET;
 }
 
 const char *SMTPClientBase::getLastServerResponse() const {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 6fcfc06..e09d5c3 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -153,6 +153,10 @@ class SMTPCLIENTBASE_API SMTPClientBase {
  protected:
     bool mIsConnected;
     virtual void cleanup() = 0;
+    // Value of the socket file descriptor when there is no socket. Zero is not
+    // suitable: it is the descriptor of the next socket of a process that has
+    // closed its standard input.
+    static constexpr int NO_SOCKET = -1;
     int getSocketFileDescriptor() const;
     void clearSocketFileDescriptor();
     const char *getLastServerResponse() const;
@@ -219,7 +223,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int mLastSocketErrNo;
     ServerAuthOptions *mAuthOptions;
     Credential *mCredential;
-    int mSock = 0;
+    int mSock = NO_SOCKET;
     #ifdef _WIN32
     bool mWSAStarted = false;
     #endif
-- 
2.43.0


From a9af50fda2c2e9fb843c787ce28bddac0a1f36d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 39/45] fix: read AUTH only from a line whose keyword is AUTH

---
 src/smtpclientbase.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index b8dfb5e..999f4df 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1155,9 +1155,15 @@ ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
     const std::string AUTH_LINE_PREFIX_ALTERNATE = "250 AUTH";
     // The keywords are not case sensitive (RFC 5321 section 2.4)
     std::string line = StringUtils::toUpper(authLine);
+    // Some servers separate the keyword from the options with an equal sign
+    if (line.length() > AUTH_LINE_PREFIX.length() && line[AUTH_LINE_PREFIX.length()] == '=') {
+        line[AUTH_LINE_PREFIX.length()] = ' ';
+    }
+    // A longer keyword that begins with AUTH is another extension
+    const bool keyword_ends = line.length() <= AUTH_LINE_PREFIX.length() || line[AUTH_LINE_PREFIX.length()] == ' ';
     // Find the line that begin with 250-AUTH or 250 AUTH
-    if (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
-        line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE) {
+    if (keyword_ends && (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
+        line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE)) {
         retval = new ServerAuthOptions();
         // Find each options
         std::vector<std::string> options;
-- 
2.43.0


From d42cafe505c4c98410f295361bc3f751dcdcd5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 40/45] fix: read STARTTLS only from a line whose keyword is
 STARTTLS

---
 src/opportunisticsecuresmtpclient.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index a13bede..9260038 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -1,5 +1,6 @@
 #include "opportunisticsecuresmtpclient.h"
 #include <openssl/err.h>
+#include <sstream>
 #include <string>
 #include <utility>
 #include "smtpserverstatuscodes.h"
@@ -114,6 +115,15 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
     serverResponse = StringUtils::toUpper(serverResponse);
     const std::string STARTTLS_LINE_PREFIX { "250-STARTTLS" };
     const std::string STARTTLS_LINE_PREFIX_ALTERNATE { "250 STARTTLS" };
-    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos ||
-        serverResponse.find(STARTTLS_LINE_PREFIX_ALTERNATE) != std::string::npos;
+    // Only the keyword of a line counts: the same text can be a part of another
+    // keyword or of the text of another line
+    std::string line;
+    std::stringstream lines { serverResponse };
+    while (std::getline(lines, line)) {
+        const std::string keyword { line.substr(0, line.find_first_of(" \t\r", STARTTLS_LINE_PREFIX.length())) };
+        if (keyword == STARTTLS_LINE_PREFIX || keyword == STARTTLS_LINE_PREFIX_ALTERNATE) {
+            return true;
+        }
+    }
+    return false;
 }
-- 
2.43.0


From bc22d8328813f17d623999e3e3ca4c6a70e2cc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 41/45] fix: no SIGPIPE when the server closes a TLS connection

---
 src/securesmtpclientbase.cpp | 47 ++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 6078844..e7c7a50 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -20,12 +20,55 @@
     #include <netdb.h>
     #include <netinet/in.h>
     #include <openssl/bio.h> /* BasicInput/Output streams */
+    #include <signal.h>
     #include <unistd.h>
 #endif
 
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+namespace {
+/* OpenSSL writes to the socket without the MSG_NOSIGNAL flag. While an object of
+   this class exists, a connection closed by the server is reported to the thread by
+   an error and not by a SIGPIPE signal that terminates the process. */
+class SigPipeBlocker {
+ public:
+#ifdef _WIN32
+    SigPipeBlocker() {}
+    ~SigPipeBlocker() {}
+#else
+    SigPipeBlocker() : mBlocked(false) {
+        sigset_t pending;
+        sigemptyset(&mSigPipe);
+        sigaddset(&mSigPipe, SIGPIPE);
+        // A signal that is pending already belongs to someone else
+        if (sigpending(&pending) == 0 && sigismember(&pending, SIGPIPE) == 0) {
+            mBlocked = pthread_sigmask(SIG_BLOCK, &mSigPipe, &mPreviousMask) == 0;
+        }
+    }
+    ~SigPipeBlocker() {
+        if (mBlocked) {
+            sigset_t pending;
+            int signal_number { 0 };
+            if (sigpending(&pending) == 0 && sigismember(&pending, SIGPIPE) == 1) {
+                sigwait(&mSigPipe, &signal_number);
+            }
+            pthread_sigmask(SIG_SETMASK, &mPreviousMask, nullptr);
+        }
+    }
+#endif
+    SigPipeBlocker(const SigPipeBlocker&) = delete;
+    SigPipeBlocker& operator=(const SigPipeBlocker&) = delete;
+
+#ifndef _WIN32
+ private:
+    bool mBlocked;
+    sigset_t mSigPipe;
+    sigset_t mPreviousMask;
+#endif
+};
+}  // namespace
+
 SecureSMTPClientBase::SecureSMTPClientBase(const char *pServerName, unsigned int pPort)
     : SMTPClientBase(pServerName, pPort),
     mBIO(nullptr),
@@ -114,6 +157,7 @@ void SecureSMTPClientBase::cleanup() {
     }
     mCTX = nullptr;
     if (mBIO != nullptr) {
+        const SigPipeBlocker sigPipeBlocker;
         BIO_free_all(mBIO);
     }
     mBIO = nullptr;
@@ -157,6 +201,7 @@ void SecureSMTPClientBase::initializeSSLContext() {
 }
 
 int SecureSMTPClientBase::startTLSNegotiation() {
+    const SigPipeBlocker sigPipeBlocker;
     addCommunicationLogItem("<Start TLS negotiation>");
     initializeSSLContext();
     if (mCTX == nullptr) {
@@ -284,6 +329,7 @@ int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
     if (mBIO == nullptr) {
         return pErrorCode;
     }
+    const SigPipeBlocker sigPipeBlocker;
     if (BIO_puts(mBIO, pCommand) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
@@ -297,6 +343,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
     if (mBIO == nullptr) {
         return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
     }
+    const SigPipeBlocker sigPipeBlocker;
     if (BIO_puts(mBIO, pCommand) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
-- 
2.43.0


From 99774c38a4df663656e8881b3a641e0aa669b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 42/45] fix: report unreadable files and files of unknown size
 when they are encoded

---
 src/attachment.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index e6394fa..4515aa1 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -1,9 +1,8 @@
 #include "attachment.h"
-#include <cstdint>
 #include <ios>
 #include <iostream>
-#include <limits>
 #include <string>
+#include <vector>
 #include "stringutils.h"
 
 using namespace jed_utils;
@@ -135,19 +134,22 @@ const char *Attachment::getBase64EncodedFile() const {
     // Open the file
     std::ifstream in(mFilename, std::ios::in | std::ios::binary);
     if (in) {
+        // The size given by the file system says nothing for a directory, a pipe or
+        // a file that is still being written
         std::string contents;
-        in.seekg(0, std::ios::end);
-        contents.resize(static_cast<unsigned int>(in.tellg()));
-        in.seekg(0, std::ios::beg);
-        if (static_cast<intmax_t>(contents.size()) <= std::numeric_limits<std::streamsize>::max()) {
-            in.read(&contents[0], static_cast<std::streamsize>(contents.size()));
-            in.close();
+        std::vector<char> buffer(4096);
+        do {
+            in.read(buffer.data(), static_cast<std::streamsize>(buffer.size()));
+            contents.append(buffer.data(), static_cast<size_t>(in.gcount()));
+        } while (in);
+        const bool read_error { in.bad() };
+        in.close();
+        if (!read_error) {
             std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());
             auto *base64_file = new char[base64_result.length() + 1];
             strncpy(base64_file, base64_result.c_str(), base64_result.length() + 1);
             return base64_file;
         }
-        in.close();
     }
 
     std::cerr << "Could not open file " << mFilename << std::endl;
-- 
2.43.0


From ff0d5a71610f864c6f3456626481fedc46a2c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 43/45] fix: fail the send when an attachment can't be read

---
 src/smtpclientbase.cpp | 52 +++++++++++++++++++++++-------------------
 src/smtpclientbase.h   |  4 ++--
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 999f4df..52c7833 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -357,7 +357,25 @@ int SMTPClientBase::getErrorMessage_r(int errorCode,
     return 0;
 }
 
+// The boundary between the parts must not appear in the body
+static std::string selectBoundary(const Message &pMsg) {
+    const std::string body { pMsg.getBody() };
+    std::string boundary { "sep" };
+    while (body.find("--" + boundary) != std::string::npos) {
+        boundary += "x";
+    }
+    return boundary;
+}
+
 int SMTPClientBase::sendMail(const Message &pMsg) {
+    // An attachment that can't be read must not be left out of the message silently
+    std::string attachments_text;
+    Attachment** arr_attachment = pMsg.getAttachments();
+    const std::vector<Attachment*> vect_attachment(arr_attachment, arr_attachment + pMsg.getAttachmentsCount());
+    if (!createAttachmentsText(vect_attachment, selectBoundary(pMsg), &attachments_text)) {
+        return CLIENT_SENDMAIL_BODYPART_ERROR;
+    }
+
     if (!mIsConnected) {
         int client_connect_ret_code = establishConnectionWithServer();
         if (client_connect_ret_code != 0) {
@@ -379,7 +397,7 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
         return set_mail_headers_ret_code;
     }
 
-    int set_mail_body_ret_code = setMailBody(pMsg);
+    int set_mail_body_ret_code = setMailBody(pMsg, attachments_text);
     if (set_mail_body_ret_code != 0) {
         cleanup();
         return set_mail_body_ret_code;
@@ -931,16 +949,6 @@ int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t c
     return RECIPIENT_OK;
 }
 
-// The boundary between the parts must not appear in the body
-static std::string selectBoundary(const Message &pMsg) {
-    const std::string body { pMsg.getBody() };
-    std::string boundary { "sep" };
-    while (body.find("--" + boundary) != std::string::npos) {
-        boundary += "x";
-    }
-    return boundary;
-}
-
 int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     // Data section
     std::string data_cmd = "DATA\r\n";
@@ -1023,7 +1031,7 @@ static std::string addTransparencyDots(std::string text) {
     return text;
 }
 
-int SMTPClientBase::setMailBody(const Message &pMsg) {
+int SMTPClientBase::setMailBody(const Message &pMsg, const std::string &pAttachmentsText) {
     // Body part
     const std::string boundary { selectBoundary(pMsg) };
     std::ostringstream body_ss;
@@ -1031,13 +1039,8 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
     std::string body_real = body_ss.str();
     addCommunicationLogItem(body_real.c_str());
 
-    // If there's attachments, prepare the attachments text content
-    Attachment** arr_attachment = pMsg.getAttachments();
-
-    std::vector<Attachment*> vect_attachment(arr_attachment, arr_attachment + pMsg.getAttachmentsCount());
     // The text ends the multipart content even if there's no attachment
-    std::string attachments_text = createAttachmentsText(vect_attachment, boundary);
-    body_real += attachments_text;
+    body_real += pAttachmentsText;
 
     const size_t CHUNK_MAXLENGTH = 512;
     if (body_real.length() > CHUNK_MAXLENGTH) {
@@ -1109,8 +1112,8 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
     mCommunicationLog[mCommunicationLogSize-1] = '\0';
 }
 
-std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
-    std::string retval;
+bool SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary, std::string *pText) {
+    std::string &retval = *pText;
     for (const auto &item : pAttachments) {
         const std::string name { toSingleLine(item->getName()) };
         const std::string content_id { item->getContentId() != nullptr ? toSingleLine(item->getContentId()) : "" };
@@ -1125,13 +1128,14 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
         }
         retval += "Content-Transfer-Encoding: base64\r\n\r\n";
         const char* b64 = item->getBase64EncodedFile();
-        if (b64 != nullptr) {
-            retval += std::string(b64);
-            delete[] b64;
+        if (b64 == nullptr) {
+            return false;
         }
+        retval += std::string(b64);
+        delete[] b64;
     }
     retval += "\r\n--" + pBoundary + "--";
-    return retval;
+    return true;
 }
 
 int SMTPClientBase::extractReturnCode(const char *pOutput) {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index e09d5c3..d774baa 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -202,10 +202,10 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int addMailRecipients(jed_utils::MessageAddress **list, size_t count, const int RECIPIENT_OK);
     int setMailHeaders(const Message &pMsg);
     int addMailHeader(const char *field, const char *value, int pErrorCode);
-    int setMailBody(const Message &pMsg);
+    int setMailBody(const Message &pMsg, const std::string &pAttachmentsText);
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
-    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary);
+    static bool createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary, std::string *pText);
     int processServerReply(const std::string &pReply);
     static bool isReplyComplete(const std::string &pReply);
     static int extractReturnCode(const char *pOutput);
-- 
2.43.0


From 7fdc96c0d489a2f2943873f0d02fec57b54b3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 44/45] fix: resolve the server name with a function that
 threads can share

---
 src/smtpclientbase.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 52c7833..c3664d3 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -544,17 +544,18 @@ int SMTPClientBase::initializeSessionPOSIX() {
         clearSocketFileDescriptor();
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
-    struct hostent *host = gethostbyname(getServerName());
-    if (!host || host->h_length < 0) {
+    // getaddrinfo, unlike gethostbyname, can be used by several threads at once
+    struct addrinfo hints {};
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    struct addrinfo *host = nullptr;
+    if (getaddrinfo(getServerName(), nullptr, &hints, &host) != 0) {
         return SOCKET_INIT_SESSION_GETHOSTBYNAME_ERROR;
     }
     struct sockaddr_in saddr_in {};
-    saddr_in.sin_family = AF_INET;
+    memcpy(&saddr_in, host->ai_addr, sizeof(saddr_in));
     saddr_in.sin_port = htons(static_cast<u_short>(getServerPort()));
-    saddr_in.sin_addr.s_addr = 0;
-    memcpy(reinterpret_cast<char*>(&(saddr_in.sin_addr)),
-           host->h_addr,
-           static_cast<size_t>(host->h_length));
+    freeaddrinfo(host);
     // Set non-blocking
     int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
     if (socketSetFlagsResult != 0) {
-- 
2.43.0


From dde2bdc9c2ac5037fe45511cfef09fd5331444cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 45/45] fix: check long email addresses without exhausting the
 stack

---
 src/messageaddress.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 71143a4..1c3ba62 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -1,6 +1,5 @@
 #include "messageaddress.h"
 #include <cstddef>
-#include <regex>
 #include <stdexcept>
 #include <string>
 #include "stringutils.h"
@@ -117,9 +116,28 @@ const char *MessageAddress::getDisplayName() const {
 }
 
 bool MessageAddress::isEmailAddressValid(const std::string &pEmailAddress) const {
-    // A separator is a character that cannot be part of a word. Otherwise the number of ways to split
-    // a long word, and with it the time to refuse an invalid address, grows exponentially.
-    std::regex emailPattern("^[_a-z0-9-]+([^_a-z0-9\r\n-][_a-z0-9-]+)*@[a-z0-9-]+([^a-z0-9\r\n-][a-z0-9-]+)*.[a-z]{2,4}$");
-    return regex_match(StringUtils::toLower(pEmailAddress), emailPattern);
+    // Accepts [_a-z0-9-]+([^_a-z0-9\r\n-][_a-z0-9-]+)*@[a-z0-9-]+([^a-z0-9\r\n-][a-z0-9-]+)*.[a-z]{2,4}
+    // in one pass: std::regex needs stack space in proportion to the length of the address.
+    // Bit n of states tells whether the characters so far can lead to position n of the pattern.
+    enum { START, LOCAL_WORD, LOCAL_SEPARATOR, AT, DOMAIN_WORD, DOMAIN_SEPARATOR, DOT, LETTERS1, LETTERS2, LETTERS3, LETTERS4 };
+    const auto bit = [](int position) { return 1U << position; };
+    unsigned int states { bit(START) };
+    for (const char c : StringUtils::toLower(pEmailAddress)) {
+        const bool isLetter = c >= 'a' && c <= 'z';
+        const bool isDomainChar = isLetter || (c >= '0' && c <= '9') || c == '-';
+        const bool isLocalChar = isDomainChar || c == '_';
+        const bool isLineEnd = c == '\r' || c == '\n';
+        const auto from = [states, bit](int position) { return (states & bit(position)) != 0; };
+        unsigned int next { 0 };
+        if (isLocalChar && (from(START) || from(LOCAL_WORD) || from(LOCAL_SEPARATOR))) next |= bit(LOCAL_WORD);
+        if (!isLocalChar && !isLineEnd && from(LOCAL_WORD)) next |= bit(LOCAL_SEPARATOR);
+        if (c == '@' && from(LOCAL_WORD)) next |= bit(AT);
+        if (isDomainChar && (from(AT) || from(DOMAIN_WORD) || from(DOMAIN_SEPARATOR))) next |= bit(DOMAIN_WORD);
+        if (!isDomainChar && !isLineEnd && from(DOMAIN_WORD)) next |= bit(DOMAIN_SEPARATOR);
+        if (!isLineEnd && from(DOMAIN_WORD)) next |= bit(DOT);
+        if (isLetter) next |= (states & (bit(DOT) | bit(LETTERS1) | bit(LETTERS2) | bit(LETTERS3))) << 1;
+        states = next;
+    }
+    return (states & (bit(LETTERS2) | bit(LETTERS3) | bit(LETTERS4))) != 0;
 }
 
-- 
2.43.0

