From d8a20b0579e0eb6e3c62b75e46fe8b06bb5145ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:32 +0000
Subject: [PATCH 01/46] fix: match upstream answers by question name and type,
 not only by identifier and hash

---
 mcontext.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mcontext.c b/mcontext.c
index 52aa723..5b289f5 100755
--- a/mcontext.c
+++ b/mcontext.c
@@ -124,9 +124,19 @@ static int ModuleContextCompare(const void *_1, const void *_2)
     if( Id_1 != Id_2 )
     {
         return Id_1 - Id_2;
-    } else {
-        return One->HashValue - Two->HashValue;
     }
+
+    if( One->HashValue != Two->HashValue )
+    {
+        return One->HashValue < Two->HashValue ? -1 : 1;
+    }
+
+    if( One->Type != Two->Type )
+    {
+        return One->Type < Two->Type ? -1 : 1;
+    }
+
+    return strcmp(One->Domain, Two->Domain);
 }
 
 void ModuleContext_Free(ModuleContext *c)
-- 
2.43.0


From 706a2afcd4f9a4d3cbf8660ccb4198a4dd0e36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:12 +0000
Subject: [PATCH 02/46] fix: use the whole length of a TCP answer received in
 several segments

---
 tcpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpm.c b/tcpm.c
index d0d4ed7..7ecf525 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -677,7 +677,7 @@ TcpM_Works(TcpM *m)
             IHeader_Fill(Header,
                          FALSE,
                          Entity,
-                         State,
+                         PartialData - Entity,
                          NULL,
                          INVALID_SOCKET,
                          AF_UNSPEC,
-- 
2.43.0


From 932e4bc4b20f02d480ff65f2f5901a17e60d3536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:16 +0000
Subject: [PATCH 03/46] fix: ignore messages without a usable question instead
 of handling them with the previous one's header

---
 iheader.c     |  7 +++++++
 tcpfrontend.c | 26 +++++++++++++++-----------
 tcpm.c        | 22 +++++++++++++---------
 udpfrontend.c | 23 ++++++++++++++---------
 udpm.c        | 22 +++++++++++++---------
 5 files changed, 62 insertions(+), 38 deletions(-)

diff --git a/iheader.c b/iheader.c
index 497cd01..1d0e0ed 100755
--- a/iheader.c
+++ b/iheader.c
@@ -30,6 +30,7 @@ int IHeader_Fill(IHeader *h,
 {
     DnsSimpleParser p;
     DnsSimpleParserIterator i;
+    BOOL HasQuestion = FALSE;
 
     h->Parent = NULL;
     h->RequestTcp = FALSE;
@@ -63,6 +64,7 @@ int IHeader_Fill(IHeader *h,
             StrToLower(h->Domain);
             h->HashValue = HASH(h->Domain, 0);
             h->Type = (DNSRecordType)DNSGetRecordType(DNSJumpHeader(DnsEntity));
+            HasQuestion = TRUE;
             break;
 
         case DNS_RECORD_PURPOSE_ADDITIONAL:
@@ -77,6 +79,11 @@ int IHeader_Fill(IHeader *h,
         }
     }
 
+    if( HasQuestion == FALSE )
+    {
+        return -72;
+    }
+
     h->ReturnHeader = ReturnHeader;
 
     if( BackAddress != NULL )
diff --git a/tcpfrontend.c b/tcpfrontend.c
index c8a0693..8cc2868 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -91,17 +91,21 @@ TcpFrontend_Work(void *Unused)
                 RecvState = recv(sock_c, Entity, TCPLength, 0);
                 if( RecvState == TCPLength )
                 {
-                    IHeader_Fill(Header,
-                                 FALSE,
-                                 Entity,
-                                 RecvState,
-                                 NULL,
-                                 sock_c,
-                                 ClientAddr->family,
-                                 Agent
-                                 );
-
-                    MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+                    if( IHeader_Fill(Header,
+                                     FALSE,
+                                     Entity,
+                                     RecvState,
+                                     NULL,
+                                     sock_c,
+                                     ClientAddr->family,
+                                     Agent
+                                     )
+                        == 0 )
+                    {
+                        MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+                    } else {
+                        INFO("Invalid data received from TCP client %s.\n", Agent);
+                    }
 
                     if( IsNewConnected )
                     {
diff --git a/tcpm.c b/tcpm.c
index 7ecf525..7dab0ac 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -674,15 +674,19 @@ TcpM_Works(TcpM *m)
             TcpCtx->MsgCtx = NULL;
             p2->Add(p2, s, TcpCtx, sizeof(TcpContext));
 
-            IHeader_Fill(Header,
-                         FALSE,
-                         Entity,
-                         PartialData - Entity,
-                         NULL,
-                         INVALID_SOCKET,
-                         AF_UNSPEC,
-                         NULL
-                         );
+            if( IHeader_Fill(Header,
+                             FALSE,
+                             Entity,
+                             PartialData - Entity,
+                             NULL,
+                             INVALID_SOCKET,
+                             AF_UNSPEC,
+                             NULL
+                             )
+                != 0 )
+            {
+                continue;
+            }
 
             switch( IPMiscMapping_Process(MsgCtx) )
             {
diff --git a/udpfrontend.c b/udpfrontend.c
index b4ef03e..28f44de 100755
--- a/udpfrontend.c
+++ b/udpfrontend.c
@@ -90,15 +90,20 @@ UdpFrontend_Work(void *Unused)
             continue;
         }
 
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     IncomingAddress,
-                     sock,
-                     *f,
-                     Agent
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         IncomingAddress,
+                         sock,
+                         *f,
+                         Agent
+                         )
+            != 0 )
+        {
+            INFO("Invalid data received from UDP client %s.\n", Agent);
+            continue;
+        }
 
         MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
     }
diff --git a/udpm.c b/udpm.c
index 627f56b..04ef31e 100755
--- a/udpm.c
+++ b/udpm.c
@@ -189,15 +189,19 @@ UdpM_Works(UdpM *m)
         m->CountOfTimeout = 0;
 
         /* Fill IHeader */
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     NULL,
-                     INVALID_SOCKET,
-                     AF_UNSPEC,
-                     NULL
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         NULL,
+                         INVALID_SOCKET,
+                         AF_UNSPEC,
+                         NULL
+                         )
+            != 0 )
+        {
+            continue;
+        }
 
         switch( IPMiscMapping_Process(MsgCtx) )
         {
-- 
2.43.0


From 721ef36701c5345a30ee09647f1bb8944666b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:36 +0000
Subject: [PATCH 04/46] fix: TCP clients: accept queries in pieces, never
 answer on a reused socket, never block on one client

---
 iheader.c     |  67 +++++++++++--
 iheader.h     |   6 +-
 tcpfrontend.c | 260 +++++++++++++++++++++++++++++++++++---------------
 3 files changed, 248 insertions(+), 85 deletions(-)

diff --git a/iheader.c b/iheader.c
index 1d0e0ed..1dc251e 100755
--- a/iheader.c
+++ b/iheader.c
@@ -7,6 +7,9 @@
 
 static BOOL ap = FALSE;
 
+/* Guards TCP client sockets: the number of a closed one can be reused. */
+static EFFECTIVE_LOCK TcpLock;
+
 void IHeader_Reset(IHeader *h)
 {
     h->Parent = NULL;
@@ -114,6 +117,8 @@ int MsgContext_Init(BOOL _ap)
 {
     ap = _ap;
 
+    EFFECTIVE_LOCK_INIT(TcpLock);
+
     return 0;
 }
 
@@ -163,6 +168,43 @@ BOOL MsgContext_IsFromTCP(const MsgContext *MsgCtx)
     return (h->BackAddress.family == AF_UNSPEC);
 }
 
+void MsgContext_CloseTcp(SOCKET Sock)
+{
+    EFFECTIVE_LOCK_GET(TcpLock);
+    CLOSE_SOCKET(Sock);
+    EFFECTIVE_LOCK_RELEASE(TcpLock);
+}
+
+static BOOL IsSamePeer(SOCKET Sock, const Address_Type *Peer)
+{
+    Address_Type a;
+    socklen_t AddrLen = sizeof(a.Addr);
+
+    if( getpeername(Sock, (struct sockaddr *)&(a.Addr), &AddrLen) != 0 ||
+        a.Addr.Addr4.sin_family != Peer->Addr.Addr4.sin_family
+        )
+    {
+        return FALSE;
+    }
+
+    if( a.Addr.Addr4.sin_family == AF_INET )
+    {
+        return a.Addr.Addr4.sin_port == Peer->Addr.Addr4.sin_port &&
+               memcmp(&(a.Addr.Addr4.sin_addr),
+                      &(Peer->Addr.Addr4.sin_addr),
+                      sizeof(struct in_addr)
+                      )
+               == 0;
+    }
+
+    return a.Addr.Addr6.sin6_port == Peer->Addr.Addr6.sin6_port &&
+           memcmp(&(a.Addr.Addr6.sin6_addr),
+                  &(Peer->Addr.Addr6.sin6_addr),
+                  sizeof(struct in6_addr)
+                  )
+           == 0;
+}
+
 int MsgContext_SendBack(MsgContext *MsgCtx)
 {
     IHeader *h = (IHeader *)MsgCtx;
@@ -172,17 +214,30 @@ int MsgContext_SendBack(MsgContext *MsgCtx)
     if( MsgContext_IsFromTCP(MsgCtx) )
     {
         /* TCP */
+        int State = -1;
+
         Content -= 2;
         Length += 2;
 
         DNSSetTcpLength(Content, h->EntityLength);
 
-        if( send(h->SendBackSocket,
-                 Content,
-                 Length,
-                 MSG_NOSIGNAL
-                 )
-            != Length )
+        EFFECTIVE_LOCK_GET(TcpLock);
+        if( IsSamePeer(h->SendBackSocket, &(h->BackAddress)) )
+        {
+            State = send(h->SendBackSocket,
+                         Content,
+                         Length,
+                         MSG_NOSIGNAL
+                         );
+            if( State > 0 && State != Length )
+            {
+                /* The stream is out of step from now on. */
+                shutdown(h->SendBackSocket, 2);
+            }
+        }
+        EFFECTIVE_LOCK_RELEASE(TcpLock);
+
+        if( State != Length )
         {
             /** TODO: Show error */
             return -112;
diff --git a/iheader.h b/iheader.h
index 3e447d9..8490a51 100755
--- a/iheader.h
+++ b/iheader.h
@@ -15,7 +15,8 @@ struct _IHeader{
     BOOL        RequestTcp; /* Parent is from TCP. */
     time_t      Timestamp;
 
-    Address_Type    BackAddress;    /* UDP requires it while TCP doesn't */
+    Address_Type    BackAddress;    /* Where to send an answer. For TCP, `family'
+                                       is AF_UNSPEC, and `Addr' is the peer. */
     SOCKET          SendBackSocket;
 
     char            Domain[256];
@@ -70,6 +71,9 @@ BOOL MsgContext_IsFromTCP(const MsgContext *MsgCtx);
 
 int MsgContext_SendBack(MsgContext *MsgCtx);
 
+/* Close a TCP client socket, while no answer is being sent to it. */
+void MsgContext_CloseTcp(SOCKET Sock);
+
 int MsgContext_SendBackRefusedMessage(MsgContext *MsgCtx);
 
 #endif /* IHEADER_H_INCLUDED */
diff --git a/tcpfrontend.c b/tcpfrontend.c
index 8cc2868..146bbf6 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -1,3 +1,5 @@
+#include <string.h>
+#include <time.h>
 #include "tcpfrontend.h"
 #include "socketpuller.h"
 #include "addresslist.h"
@@ -9,6 +11,124 @@ extern BOOL Ipv6_Enabled;
 
 static SocketPuller Frontend;
 
+#define LEFT_LENGTH  (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
+
+typedef struct _TcpClient
+{
+    Address_Type    Addr;       /* `Addr.Addr' is zeroed for a listening socket */
+    int             Received;   /* Bytes in `Data' */
+    char            Data[2 + LEFT_LENGTH];  /* The message being received */
+} TcpClient;
+
+/* Clients who have finished sending, but could still be waiting for answers. */
+#define LINGERING_MAX   64
+#define LINGERING_TIME  5
+
+static struct {
+    SOCKET  Sock;
+    time_t  Since;
+} Lingering[LINGERING_MAX];
+static int LingeringCount = 0;
+
+static void TcpFrontend_CloseLingering(BOOL ForceOldest)
+{
+    int i = 0;
+
+    while( i < LingeringCount &&
+           ((ForceOldest && i == 0) ||
+            time(NULL) - Lingering[i].Since >= LINGERING_TIME ||
+            time(NULL) < Lingering[i].Since
+            )
+           )
+    {
+        MsgContext_CloseTcp(Lingering[i].Sock);
+        ++i;
+    }
+
+    if( i > 0 )
+    {
+        LingeringCount -= i;
+        memmove(Lingering, Lingering + i, LingeringCount * sizeof(Lingering[0]));
+    }
+}
+
+static void TcpFrontend_Linger(SOCKET Sock)
+{
+    if( LingeringCount == LINGERING_MAX )
+    {
+        TcpFrontend_CloseLingering(TRUE);
+    }
+
+    Lingering[LingeringCount].Sock = Sock;
+    Lingering[LingeringCount].Since = time(NULL);
+    ++LingeringCount;
+}
+
+static void TcpFrontend_Accept(SOCKET Listening, sa_family_t Family)
+{
+    TcpClient New;
+    socklen_t AddrLen = sizeof(New.Addr.Addr);
+    SOCKET Sock;
+
+    memset(&New, 0, sizeof(New));
+    New.Addr.family = Family;
+
+    Sock = accept(Listening, (struct sockaddr *)&(New.Addr.Addr), &AddrLen);
+    if( Sock == INVALID_SOCKET )
+    {
+        return;
+    }
+
+    if( SetSocketNonBlock(Sock, TRUE) != 0 ||
+        Frontend.Add(&Frontend, Sock, &New, sizeof(New)) != 0
+        )
+    {
+        CLOSE_SOCKET(Sock);
+    }
+}
+
+/* Return values:
+ *    1 : A whole message is in `Client->Data'
+ *    0 : The rest of it has not arrived
+ *   -1 : The client has finished sending
+ *   -2 : Error
+ */
+static int TcpFrontend_Recv(SOCKET Sock, TcpClient *Client)
+{
+    while( TRUE )
+    {
+        int Wanted = 2;
+        int State;
+
+        if( Client->Received >= 2 )
+        {
+            Wanted += DNSGetTCPLength(Client->Data);
+            if( Wanted > sizeof(Client->Data) )
+            {
+                return -2;
+            }
+
+            if( Client->Received == Wanted )
+            {
+                return 1;
+            }
+        }
+
+        State = recv(Sock, Client->Data + Client->Received, Wanted - Client->Received, 0);
+        if( State == 0 )
+        {
+            return -1;
+        }
+
+        if( State < 0 )
+        {
+            return FatalErrorDecideding(GET_LAST_ERROR()) == 0 ? 0 : -2;
+        }
+
+        Client->Received += State;
+    }
+}
+
 static void
 #ifdef WIN32
 WINAPI
@@ -17,8 +137,6 @@ TcpFrontend_Work(void *Unused)
 {
     char *ReceiveBuffer;
     IHeader *Header;
-
-    #define LEFT_LENGTH  (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
     char *Entity;
 
     ReceiveBuffer = SafeMalloc(SOCKET_CONTEXT_LENGTH);
@@ -34,105 +152,90 @@ TcpFrontend_Work(void *Unused)
     /* Loop */
     while( TRUE )
     {
-        SOCKET sock, sock_c;
-        Address_Type *ClientAddr, ClientAddr_c;
-        BOOL IsNewConnected;
-
-        int RecvState;
-        uint16_t TCPLength;
+        SOCKET sock;
+        TcpClient *Client;
+        struct timeval TimeOut = {LINGERING_TIME, 0};
+        int Err;
+        int Length;
 
         char Agent[sizeof(Header->Agent)];
 
         sock = Frontend.Select(&Frontend,
-                               NULL,
-                               (void **)&ClientAddr,
+                               LingeringCount > 0 ? &TimeOut : NULL,
+                               (void **)&Client,
                                TRUE,
                                FALSE,
-                               NULL
+                               &Err
                                );
 
+        TcpFrontend_CloseLingering(FALSE);
+
         if( sock == INVALID_SOCKET )
         {
+            if( Err == 0 )
+            {
+                continue;
+            }
+
             ERRORMSG("Fatal error 58.\n");
             break;
         }
 
-        if( ((struct sockaddr *)ClientAddr)->sa_family == AF_UNSPEC )
+        if( Client->Addr.Addr.Addr4.sin_family == AF_UNSPEC )
         {
-            socklen_t AddrLen = sizeof(Address_Type);
-
-            sock_c = accept(sock, (struct sockaddr *)&(ClientAddr_c.Addr), &AddrLen);
-            if(sock_c == INVALID_SOCKET)
-            {
-                continue;
-            }
-
-            IsNewConnected = TRUE;
-            ClientAddr_c.family = ClientAddr->family;
-            ClientAddr = &ClientAddr_c;
-        } else {
-            IsNewConnected = FALSE;
-            sock_c = sock;
+            TcpFrontend_Accept(sock, Client->Addr.family);
+            continue;
         }
 
-        if( ClientAddr->family == AF_INET )
+        if( Client->Addr.family == AF_INET )
         {
-            IPv4AddressToAsc(&(((struct sockaddr_in *)ClientAddr)->sin_addr), Agent);
+            IPv4AddressToAsc(&(Client->Addr.Addr.Addr4.sin_addr), Agent);
         } else {
-            IPv6AddressToAsc(&(((struct sockaddr_in6 *)ClientAddr)->sin6_addr), Agent);
+            IPv6AddressToAsc(&(Client->Addr.Addr.Addr6.sin6_addr), Agent);
         }
 
-        RecvState = recv(sock_c, (char *)&TCPLength, 2, 0);
-        if( RecvState == 2 )
+        switch( TcpFrontend_Recv(sock, Client) )
         {
-            TCPLength = ntohs(TCPLength);
-            if( TCPLength <= LEFT_LENGTH )
-            {
-                RecvState = recv(sock_c, Entity, TCPLength, 0);
-                if( RecvState == TCPLength )
-                {
-                    if( IHeader_Fill(Header,
-                                     FALSE,
-                                     Entity,
-                                     RecvState,
-                                     NULL,
-                                     sock_c,
-                                     ClientAddr->family,
-                                     Agent
-                                     )
-                        == 0 )
-                    {
-                        MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
-                    } else {
-                        INFO("Invalid data received from TCP client %s.\n", Agent);
-                    }
-
-                    if( IsNewConnected )
-                    {
-                        Frontend.Add(&Frontend, sock_c, ClientAddr, sizeof(Address_Type));
-                    }
-
-                    continue;
-
-                } else {
-                    INFO("Invalid data received from TCP client %s.\n", Agent);
-                }
-            } else {
-                WARNING("TCP client %s segment is too large, discarded.\n", Agent);
-            }
+        case 1:
+            break;
 
-            CLOSE_SOCKET(sock_c);
-        } else if( RecvState == 1 )
-        {
+        case 0:
+            continue;
+
+        case -1:
+            Frontend.Del(&Frontend, sock);
+            TcpFrontend_Linger(sock);
+            continue;
+
+        default:
             INFO("Invalid data received from TCP client %s.\n", Agent);
-            CLOSE_SOCKET(sock_c);
+            Frontend.Del(&Frontend, sock);
+            MsgContext_CloseTcp(sock);
+            continue;
         }
 
-        /* recv failed */
-        if( IsNewConnected == FALSE )
+        Length = Client->Received - 2;
+        Client->Received = 0;
+        memcpy(Entity, Client->Data + 2, Length);
+
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         Length,
+                         NULL,
+                         sock,
+                         Client->Addr.family,
+                         Agent
+                         )
+            != 0 )
         {
-            Frontend.Del(&Frontend, sock_c);
+            INFO("Invalid data received from TCP client %s.\n", Agent);
+            continue;
         }
+
+        Header->BackAddress.Addr = Client->Addr.Addr;
+
+        MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
     }
 
     SafeFree(ReceiveBuffer);
@@ -171,14 +274,15 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
         return -20;
     }
 
-    if( SocketPuller_Init(&Frontend, sizeof(Address_Type)) != 0 )
+    if( SocketPuller_Init(&Frontend, sizeof(TcpClient)) != 0 )
     {
         return -19;
     }
 
     while( (One = i.Next(&i)) != NULL )
     {
-        Address_Type a, ClientAddr;
+        Address_Type a;
+        TcpClient Listener;
         sa_family_t f;
 
         SOCKET sock;
@@ -223,9 +327,9 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
             Ipv6_Enabled = TRUE;
         }
 
-        memset(&ClientAddr, 0, sizeof(Address_Type));
-        ClientAddr.family = f;
-        Frontend.Add(&Frontend, sock, &ClientAddr, sizeof(Address_Type));
+        memset(&Listener, 0, sizeof(Listener));
+        Listener.Addr.family = f;
+        Frontend.Add(&Frontend, sock, &Listener, sizeof(Listener));
         INFO("TCP interface %s opened.\n", One);
         ++Count;
     }
-- 
2.43.0


From 34434df460d1228749be79fda1b9390a9b6677f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:18 +0000
Subject: [PATCH 05/46] fix: a TCP server's or proxy's message may arrive in
 pieces of any size

---
 tcpm.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 7dab0ac..77c3ae5 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -264,14 +264,29 @@ static int TcpM_SendWrapper(SOCKET Sock, const char *Start, int Length)
     return Length;
 }
 
+/* Receive `BufferSize' bytes, fewer only if the peer closes the connection */
 static int TcpM_RecvWrapper(SOCKET Sock, char *Buffer, int BufferSize)
 {
-    int Recvlength;
+    int Recvlength = 0;
     time_t t = time(NULL);
 
-    while( (Recvlength = recv(Sock, Buffer, BufferSize, 0)) < 0 )
+    while( Recvlength < BufferSize )
     {
-        int LastError = GET_LAST_ERROR();
+        int LastError;
+        int State = recv(Sock, Buffer + Recvlength, BufferSize - Recvlength, 0);
+
+        if( State == 0 )
+        {
+            break;
+        }
+
+        if( State > 0 )
+        {
+            Recvlength += State;
+            continue;
+        }
+
+        LastError = GET_LAST_ERROR();
         if( FatalErrorDecideding(LastError) != 0 ||
                 !SocketIsStillReadable(Sock, TIMEOUT_ms_RECV) ||
                 time(NULL) - t > TIMEOUT_ms_RECV / 1000
-- 
2.43.0


From c3b0317c3b857c06323a939b2cc0def84c9ca703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:18 +0000
Subject: [PATCH 06/46] fix: read the whole reply of a SOCKS proxy before using
 its connection

---
 tcpm.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 77c3ae5..5045fb4 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -308,7 +308,8 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
     char *AddressString = AddressInfos + 5;
     char NumberOfCharacter;
     unsigned short Port;
-    char RecvBuffer[16];
+    char RecvBuffer[256 + 2];
+    int Rest;
 
     DEBUG("Negotiating with TCP proxy ...\n");
 
@@ -375,23 +376,32 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
     switch( RecvBuffer[3] )
     {
         case 0x01:
-            NumberOfCharacter = 6;
+            Rest = 6;
             break;
 
         case 0x03:
-            TcpM_RecvWrapper(Sock, &NumberOfCharacter, 1);
-            NumberOfCharacter += 2;
+            if( TcpM_RecvWrapper(Sock, RecvBuffer, 1) != 1 )
+            {
+                ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
+                return -12;
+            }
+            Rest = GET_8_BIT_U_INT(RecvBuffer) + 2;
             break;
 
         case 0x04:
-            NumberOfCharacter = 18;
+            Rest = 18;
             break;
 
         default:
             ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
             return -11;
     }
-    ClearTCPSocketBuffer(Sock, NumberOfCharacter);
+
+    if( TcpM_RecvWrapper(Sock, RecvBuffer, Rest) != Rest )
+    {
+        ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
+        return -13;
+    }
 
     INFO("Proxy has Connected to TCP server.\n");
 
-- 
2.43.0


From 0d98c0ba87436d88904d610f59ec8d91874a642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:18 +0000
Subject: [PATCH 07/46] fix: go on with the rest after a partial send to a TCP
 server

---
 tcpm.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 5045fb4..eb3bae2 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -247,10 +247,20 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
 static int TcpM_SendWrapper(SOCKET Sock, const char *Start, int Length)
 {
     time_t t = time(NULL);
+    int Sent = 0;
 
-    while( send(Sock, Start, Length, MSG_NOSIGNAL) != Length )
+    while( Sent < Length )
     {
-        int LastError = GET_LAST_ERROR();
+        int LastError;
+        int State = send(Sock, Start + Sent, Length - Sent, MSG_NOSIGNAL);
+
+        if( State > 0 )
+        {
+            Sent += State;
+            continue;
+        }
+
+        LastError = GET_LAST_ERROR();
         if( FatalErrorDecideding(LastError) != 0 ||
                 !SocketIsWritable(Sock, TIMEOUT_ms_SEND) ||
                 time(NULL) - t > TIMEOUT_ms_SEND / 1000
-- 
2.43.0


From 6df7b01784cad9d152e2c3a95c22736ad53e659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:08 +0000
Subject: [PATCH 08/46] fix: do not lose queries on idle TCP connections that
 the server has closed

---
 tcpm.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tcpm.c b/tcpm.c
index eb3bae2..9a71762 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -28,6 +28,7 @@ typedef struct _TcpContext
     time_t  LastActivity;
     /* To retry for server that force closed SOCKET. */
     int         Queried;
+    BOOL        Reused;
     int         MsgCtxQid;
     uint32_t    MsgCtxHash;
     MsgContext  *MsgCtx;
@@ -103,6 +104,10 @@ static SOCKET TcpM_Connect_GetAvailable(SocketPuller *p, TcpContext **TcpCtx)
             if( time(NULL) - (*TcpCtx)->LastActivity > TCPM_Keep_Alive ) {
                 INFO("Existing TCP connection expired, discard.\n");
                 CLOSE_SOCKET(s);
+            } else if( SocketIsStillReadable(s, 0) ) {
+                /* No answer is pending on it, thus it can only be closed by the peer. */
+                INFO("Existing TCP connection closed by the peer, discard.\n");
+                CLOSE_SOCKET(s);
             } else {
                 break;
             }
@@ -205,6 +210,7 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
         if( s != INVALID_SOCKET )
         {
             DEBUG("Got existing connection from Pullers[%d].\n", idx);
+            TcpCtx->Reused = TRUE;
             Puller->Add(Puller, s, TcpCtx, sizeof(TcpContext));
             n++;
             continue;
@@ -222,6 +228,7 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
             TcpCtxNew.ServerIndex = idx;
             TcpCtxNew.LastActivity = time(NULL);
             TcpCtxNew.Queried = 0;
+            TcpCtxNew.Reused = FALSE;
             TcpCtx = &TcpCtxNew;
         } else {
             if( TcpM_Connect(m, -1, TRUE) > 0 ) {
@@ -232,6 +239,7 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
                 }
                 DEBUG("Got proxy connection for Pullers[%d].\n", idx);
                 TcpCtx->ServerIndex = idx;
+                TcpCtx->Reused = FALSE;
             } else {
                 continue;
             }
@@ -663,7 +671,7 @@ TcpM_Works(TcpM *m)
                 {
                     /* If Server force closed the keep-alive SOCKET: */
                     IHeader *Header2 = (IHeader *)TcpCtx->MsgCtx;
-                    if( TcpCtx->Queried > 1 && Header2 != NULL && *(Header2->Domain) != 0 &&
+                    if( TcpCtx->Reused && Header2 != NULL && *(Header2->Domain) != 0 &&
                         TcpCtx->MsgCtxQid == DNSGetQueryIdentifier(Header2 + 1) &&
                         TcpCtx->MsgCtxHash == Header2->HashValue
                         )
-- 
2.43.0


From 40a95046fc09dd79a640c4088c930e2dc5ba9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:47 +0000
Subject: [PATCH 09/46] fix: answer PTR and NS queries from the cache with PTR
 and NS records, not CNAME

---
 dnsgenerator.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 7089b99..65520f6 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -268,11 +268,13 @@ static int DnsGenerator_Question(DnsGenerator *g,
     return 0;
 }
 
-static int DnsGenerator_CName(DnsGenerator *g,
-                              const char *Name,
-                              const char *CName,
-                              int Ttl
-                              )
+/* A record whose data is a domain name */
+static int DnsGenerator_NameData(DnsGenerator *g,
+                                 const char *Name,
+                                 DNSRecordType Type,
+                                 const char *CName,
+                                 int Ttl
+                                 )
 {
     DnsRecordPurpose p = DnsGenerator_CurrentPurpose(g);
 
@@ -289,7 +291,7 @@ static int DnsGenerator_CName(DnsGenerator *g,
         return -1;
     }
 
-    if( DnsGenerator_16Uint(g, DNS_TYPE_CNAME) != 0 )
+    if( DnsGenerator_16Uint(g, Type) != 0 )
     {
         return -2;
     }
@@ -321,6 +323,15 @@ static int DnsGenerator_CName(DnsGenerator *g,
     return 0;
 }
 
+static int DnsGenerator_CName(DnsGenerator *g,
+                              const char *Name,
+                              const char *CName,
+                              int Ttl
+                              )
+{
+    return DnsGenerator_NameData(g, Name, DNS_TYPE_CNAME, CName, Ttl);
+}
+
 static int DnsGenerator_MX(DnsGenerator *g,
                            const char *Name,
                            int Preference,
@@ -854,7 +865,7 @@ static int DnsGenerator_Generate(DnsGenerator *g,
     case DNS_TYPE_CNAME:
     case DNS_TYPE_PTR:
     case DNS_TYPE_NS:
-        Ret = g->CName(g, Name, Data, Ttl);
+        Ret = DnsGenerator_NameData(g, Name, Type, Data, Ttl);
         break;
 
     case DNS_TYPE_MX:
-- 
2.43.0


From 3a0f389ed2c50c326b819acb4999baf9bd2a0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:47 +0000
Subject: [PATCH 10/46] fix: do not chain the cached answers to a CNAME query

---
 dnsgenerator.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 65520f6..e008df6 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -38,6 +38,7 @@ int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
 
     char *LastName;
     char *CurrentName;
+    BOOL FollowCName;
 
     if( DnsSimpleParser_Init(&p, DNSBody, DNSBodyLength, FALSE) != 0 )
     {
@@ -55,6 +56,9 @@ int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
         return -3;
     }
 
+    /* The answers to a CNAME query are all owned by the queried name */
+    FollowCName = i.Type != DNS_TYPE_CNAME;
+
     i.GotoAnswers(&i);
     while( (CurrentName = i.Next(&i)) != NULL &&
            i.Purpose == DNS_RECORD_PURPOSE_ANSWER
@@ -88,7 +92,7 @@ int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
         p.RawDnsLength -= LengthDifference;
 
         /* Whether to set `LastName' */
-        if( i.Type == DNS_TYPE_CNAME )
+        if( FollowCName && i.Type == DNS_TYPE_CNAME )
         {
             LastName = i.RowData(&i);
         }
-- 
2.43.0


From 772f129c6bf7d972a8997336999380fc9c04bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:47 +0000
Subject: [PATCH 11/46] fix: do not forward a cached answer as a query when it
 can't be sent to the client

---
 dnscache.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 288d9f5..0bc0d64 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -952,8 +952,9 @@ int DNSCache_FetchFromCache(MsgContext *MsgCtx, int BufferLength)
     h->EntityLength = ResultLength;
     if( MsgContext_SendBack(MsgCtx) < 0 )
     {
-        /** TODO: Error handling */
-        return -861;
+        /* The request has been overwritten, it can't be handled any further */
+        ShowErrorMessage(h, 'C');
+        return 0;
     }
 
     ShowNormalMessage(h, 'C');
-- 
2.43.0


From ae21c47b5217e020806ea56a57d7f298f4e826bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:20 +0000
Subject: [PATCH 12/46] fix: do not match the root domain with the remains of
 another name

---
 stringchunk.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stringchunk.c b/stringchunk.c
index ddc6e8c..c29e982 100755
--- a/stringchunk.c
+++ b/stringchunk.c
@@ -390,6 +390,11 @@ BOOL StringChunk_Domain_Match_NoWildCard(StringChunk    *dl,
         return TRUE;
     }
 
+    if( *Domain == '\0' )
+    {
+        return FALSE;
+    }
+
     Domain = strchr(Domain + 1, '.');
 
     while( Domain != NULL )
-- 
2.43.0


From 953d362894db26ed9c7a32406c05ca4f602cff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 13/46] fix: find the cache control rule of a record by its
 name, not by its cache key

---
 dnscache.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 0bc0d64..4e18bd5 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -472,6 +472,9 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
 
     const CtrlContent   *TtlContent;
 
+    /* The rule for the name of the record itself */
+    const CtrlContent   *OwnTtlContent;
+
     /* Assign start byte of the cache */
     Buffer[0] = CACHE_START;
 
@@ -481,6 +484,8 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
         return -1;
     }
 
+    OwnTtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+
     /* Jump just over the name, right at '\0' */
     BufferItr = Item + strlen(Item);
     if( BufferItr >= Buffer + sizeof(Buffer) )
@@ -551,7 +556,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_PASSIVLY:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = OwnTtlContent;
                     if( TtlContent == NULL )
                     {
                         TtlContent = InfectedTtlContent;
@@ -559,11 +564,11 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_NONE:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = OwnTtlContent;
                     break;
             }
         } else {
-            TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+            TtlContent = OwnTtlContent;
         }
 
         if( TtlContent != NULL )
-- 
2.43.0


From 67cbc70b4e7f840fe69c83f5c538804d9d492403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:15 +0000
Subject: [PATCH 14/46] fix: a cached answer must not get a TTL longer than
 that of its record

---
 dnscache.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 4e18bd5..c3a6475 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -809,12 +809,13 @@ static Cht_Node *DNSCache_GetCNameFromCache(__in char *Name,
 
 /* State code returned */
 static int DNSCache_GetByQuestion(__inout DnsGenerator *g,
-                                  __inout DnsSimpleParser *p,
-                                  __in time_t CurrentTime
+                                  __inout DnsSimpleParser *p
                                   )
 {
     char    Name[253 + 1];
 
+    time_t  CurrentTime;
+
     DnsSimpleParserIterator i;
 
     if( DnsSimpleParserIterator_Init(&i, p) != 0 )
@@ -839,6 +840,10 @@ static int DNSCache_GetByQuestion(__inout DnsGenerator *g,
 
     RWLock_RdLock(CacheLock);
 
+    /* Not before the lock is held: an entry added while waiting for it would
+       be newer, and get a TTL longer than its own. */
+    CurrentTime = time(NULL);
+
     /* If the intended type is not DNS_TYPE_CNAME, then first find its cname */
     if( i.Type != DNS_TYPE_CNAME )
     {
@@ -921,7 +926,7 @@ int DNSCache_FetchFromCache(MsgContext *MsgCtx, int BufferLength)
         return -5;
     }
 
-    if( DNSCache_GetByQuestion(&g, &p, time(NULL)) != 0 )
+    if( DNSCache_GetByQuestion(&g, &p) != 0 )
     {
         return -3;
     }
-- 
2.43.0


From 5fa71ad803a47c002639df452befe293cba9d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:41 +0000
Subject: [PATCH 15/46] fix: do not reuse a cache file that was being created
 or changed when the program was killed

---
 dnscache.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index c3a6475..9e66305 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -11,7 +11,7 @@
 #include "timedtask.h"
 #include "domainstatistic.h"
 
-#define CACHE_VERSION   23
+#define CACHE_VERSION   24
 
 #define CACHE_END   '\x0A'
 #define CACHE_START '\xFF'
@@ -53,9 +53,15 @@ struct _Header{
     int32_t     End;
     int32_t     CacheCount;
     CacheHT     ht;
-    char        Comment[128 - sizeof(uint32_t) - sizeof(int32_t) - sizeof(int32_t) - sizeof(int32_t) - sizeof(CacheHT)];
+    int32_t     Intact; /* FALSE while the cache is being created or changed */
+    char        Comment[128 - sizeof(uint32_t) - sizeof(int32_t) - sizeof(int32_t) - sizeof(int32_t) - sizeof(int32_t) - sizeof(CacheHT)];
 };
 
+static void DNSCache_SetIntact(BOOL Intact)
+{
+    ((volatile struct _Header *)MapStart)->Intact = Intact;
+}
+
 static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
 {
     BOOL        GotMutex = FALSE;
@@ -75,6 +81,7 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
                 if(GotMutex == FALSE)
                 {
                     RWLock_WrLock(CacheLock);
+                    DNSCache_SetIntact(FALSE);
                     GotMutex = TRUE;
                 }
 
@@ -102,10 +109,20 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
             (*CacheEnd) = Node->Offset + Node->Length;
         }
 
+        DNSCache_SetIntact(TRUE);
         RWLock_UnWLock(CacheLock);
     }
 }
 
+/* The program was killed while the cache was being created or changed */
+static BOOL IsBroken(void)
+{
+    const struct _Header *Header = (struct _Header *)MapStart;
+
+    return Header->Ver == 0 ||
+           (Header->Ver == CACHE_VERSION && Header->Intact != TRUE);
+}
+
 static BOOL IsReloadable(void)
 {
     const struct _Header *Header = (struct _Header *)MapStart;
@@ -145,6 +162,8 @@ static void CreateNewCache(void)
 {
     struct _Header  *Header = (struct _Header *)MapStart;
 
+    DNSCache_SetIntact(FALSE);
+
     memset(MapStart, 0, CacheSize);
 
     Header->Ver = CACHE_VERSION;
@@ -165,11 +184,16 @@ static void CreateNewCache(void)
 
     CacheHT_Init(CacheInfo, MapStart, CacheSize);
 
+    DNSCache_SetIntact(TRUE);
 }
 
 static int InitCacheInfo(ConfigFileInfo *ConfigInfo, BOOL Reload)
 {
-    if( Reload == TRUE )
+    if( Reload == TRUE && IsBroken() )
+    {
+        CreateNewCache();
+        INFO("The existing cache is broken and has been overwritten.\n");
+    } else if( Reload == TRUE )
     {
         if( IsReloadable() )
         {
@@ -659,6 +683,7 @@ int DNSCache_AddItemsToCache(MsgContext *MsgCtx, BOOL IsFirst)
 
     TtlContent =  CacheTtlCrtl_Get(TtlCtrl, Header->Domain);
     RWLock_WrLock(CacheLock);
+    DNSCache_SetIntact(FALSE);
 
     while( i.Next(&i) != NULL )
     {
@@ -673,6 +698,7 @@ int DNSCache_AddItemsToCache(MsgContext *MsgCtx, BOOL IsFirst)
         }
     }
 
+    DNSCache_SetIntact(TRUE);
     RWLock_UnWLock(CacheLock);
 
     return 0;
-- 
2.43.0


From 8934962ed702d71b7700cda166001734053534f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:29 +0000
Subject: [PATCH 16/46] fix: do not raise the TTL of cached records to that of
 a newer one when TTLs are ignored

---
 dnscache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnscache.c b/dnscache.c
index 9e66305..37c4a21 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -462,7 +462,8 @@ static uint32_t DNSCache_CacheMinTTL(const char *Content, size_t Length, uint32_
     /* Get the smallest, in case of not equal. */
     while( (Node = DNSCache_FindFromCache(Content, Length, Node, CurrentTime)) != NULL )
     {
-        uint32_t TTL = Node->TTL - (CurrentTime - Node->TimeAdded);
+        /* Ignored TTLs may have ended, there is nothing left of them then. */
+        uint32_t TTL = IgnoreTTL ? Node->TTL : Node->TTL - (CurrentTime - Node->TimeAdded);
         if( RecordTTL > TTL )
         {
             RecordTTL = TTL;
-- 
2.43.0


From 71a669b267b98f8f13130047de75a542bb891861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:41 +0000
Subject: [PATCH 17/46] fix: reject messages whose names or records leave the
 message

The compression pointers were followed without an end, and a record could claim more data than the message has.
---
 dnsparser.c | 157 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 dnsparser.h |   2 +
 iheader.c   |   6 ++
 3 files changed, 165 insertions(+)

diff --git a/dnsparser.c b/dnsparser.c
index 445e18c..a7d4c62 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -321,6 +321,163 @@ int DnsSimpleParser_Init(DnsSimpleParser *p,
     return 0;
 }
 
+/* The position behind the name at `Pos', or negative if it leaves the message,
+   can't be held by a string, or does not end.
+*/
+static int DnsSimpleParser_JumpOverName(const DnsSimpleParser *p, int Pos)
+{
+    const char *Body = p->RawDns;
+    int End = -1; /* Not yet redirected */
+    int Limit = Pos; /* Pointers only go backwards, loops are impossible */
+    int NameLength = 0;
+
+    while( Pos < p->RawDnsLength )
+    {
+        int LabelCount = GET_8_BIT_U_INT(Body + Pos);
+
+        if( LabelCount == 0 )
+        {
+            return End < 0 ? Pos + 1 : End;
+        }
+
+        if( DNSIsLabelPointerStart(LabelCount) )
+        {
+            if( Pos + 2 > p->RawDnsLength )
+            {
+                return -1;
+            }
+
+            if( End < 0 )
+            {
+                End = Pos + 2;
+            }
+
+            Pos = DNSLabelGetPointer(Body + Pos);
+            if( Pos >= Limit )
+            {
+                return -1;
+            }
+            Limit = Pos;
+        } else {
+            NameLength += LabelCount + 1;
+
+            if( LabelCount > 63 ||
+                NameLength > 254 /* 253 characters as a string */ ||
+                Pos + 1 + LabelCount > p->RawDnsLength ||
+                memchr(Body + Pos + 1, '\0', LabelCount) != NULL
+                )
+            {
+                return -1;
+            }
+
+            Pos += 1 + LabelCount;
+        }
+    }
+
+    return -1;
+}
+
+static BOOL DnsSimpleParser_IsDataValid(const DnsSimpleParser *p,
+                                        int Type,
+                                        int Pos,
+                                        int DataLength
+                                        )
+{
+    int End = Pos + DataLength;
+
+    switch( Type )
+    {
+    case DNS_TYPE_A:
+        return DataLength == 4;
+
+    case DNS_TYPE_AAAA:
+        return DataLength == 16;
+
+    case DNS_TYPE_CNAME:
+    case DNS_TYPE_PTR:
+    case DNS_TYPE_NS:
+        return DnsSimpleParser_JumpOverName(p, Pos) == End;
+
+    case DNS_TYPE_MX:
+        return DataLength > 2 && DnsSimpleParser_JumpOverName(p, Pos + 2) == End;
+
+    case DNS_TYPE_SOA:
+        Pos = DnsSimpleParser_JumpOverName(p, Pos);
+        if( Pos < 0 || Pos >= End )
+        {
+            return FALSE;
+        }
+        Pos = DnsSimpleParser_JumpOverName(p, Pos);
+        return Pos >= 0 && Pos + 20 == End;
+
+    case DNS_TYPE_TXT:
+        while( Pos < End )
+        {
+            Pos += 1 + GET_8_BIT_U_INT(p->RawDns + Pos);
+        }
+        return Pos == End;
+
+    default:
+        return TRUE;
+    }
+}
+
+/* If not, don't iterate over it. */
+BOOL DnsSimpleParser_IsWellFormed(const DnsSimpleParser *p)
+{
+    int Questions = p->QuestionCount(p);
+    int Left = Questions +
+               p->AnswerCount(p) +
+               p->NameServerCount(p) +
+               p->AdditionalCount(p);
+    int Pos = DNS_HEADER_LENGTH;
+
+    for( ; Left > 0; --Left, --Questions )
+    {
+        const char *Record;
+        int DataLength;
+
+        Pos = DnsSimpleParser_JumpOverName(p, Pos);
+        if( Pos < 0 )
+        {
+            return FALSE;
+        }
+
+        Record = p->RawDns + Pos;
+        Pos += Questions > 0 ? 4 : 10;
+        if( Pos > p->RawDnsLength )
+        {
+            return FALSE;
+        }
+
+        if( Questions > 0 )
+        {
+            continue;
+        }
+
+        DataLength = GET_16_BIT_U_INT(Record + 8);
+        if( Pos + DataLength > p->RawDnsLength )
+        {
+            return FALSE;
+        }
+
+        if( GET_16_BIT_U_INT(Record + 2) == DNS_CLASS_IN &&
+            !DnsSimpleParser_IsDataValid(p,
+                                         GET_16_BIT_U_INT(Record),
+                                         Pos,
+                                         DataLength
+                                         )
+            )
+        {
+            return FALSE;
+        }
+
+        Pos += DataLength;
+    }
+
+    return TRUE;
+}
+
 /**
   Iterator
 */
diff --git a/dnsparser.h b/dnsparser.h
index 2d1f705..74165d1 100755
--- a/dnsparser.h
+++ b/dnsparser.h
@@ -216,6 +216,8 @@ int DnsSimpleParser_Init(DnsSimpleParser *p,
                          int Length,
                          BOOL IsTcp);
 
+BOOL DnsSimpleParser_IsWellFormed(const DnsSimpleParser *p);
+
 /**
   Iterator
 */
diff --git a/iheader.c b/iheader.c
index 1dc251e..b025a18 100755
--- a/iheader.c
+++ b/iheader.c
@@ -44,6 +44,12 @@ int IHeader_Fill(IHeader *h,
         return -31;
     }
 
+    /* Everyone below relies on this. */
+    if( !DnsSimpleParser_IsWellFormed(&p) )
+    {
+        return -34;
+    }
+
     if( DnsSimpleParserIterator_Init(&i, &p) != 0 )
     {
         return -36;
-- 
2.43.0


From 76cb8a04147e318aed52a2ed7a040ec489978ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:38 +0000
Subject: [PATCH 18/46] fix: do not write a record into an answer it does not
 fit in

---
 dnsgenerator.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index e008df6..c1f3109 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -566,6 +566,14 @@ static int DnsGenerator_RawData(DnsGenerator *g,
         return 2;
     }
 
+    /* Nothing is to be left of a record that doesn't fit */
+    if( LEFT_LENGTH(g) < (Name == NULL ? 1 : (int)LABEL_LENGTH(Name)) +
+                         10 + DataLength
+        )
+    {
+        return -6;
+    }
+
     if( DnsGenerator_NamePart(g, Name) != 0 )
     {
         return -1;
-- 
2.43.0


From 14eb518eb15495221277ae6b1487fa39302497de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:43 +0000
Subject: [PATCH 19/46] fix: do not copy a query into a buffer it does not fit
 in

---
 dnsgenerator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index c1f3109..7b5af5e 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -932,6 +932,11 @@ int DnsGenerator_Init(DnsGenerator *g,
             }
         }
 
+        if( SourceLength > BufferLength )
+        {
+            return -3;
+        }
+
         memmove(g->Buffer, CopyFrom, SourceLength);
         g->Itr = g->Buffer + SourceLength;
 
-- 
2.43.0


From 5a7414b9238abd65915c6e552d447c3c382043b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:43 +0000
Subject: [PATCH 20/46] fix: do not loop forever on a query with an additional
 record but no OPT

---
 iheader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iheader.c b/iheader.c
index b025a18..ee8f043 100755
--- a/iheader.c
+++ b/iheader.c
@@ -150,7 +150,11 @@ int MsgContext_AddFakeEdns(MsgContext *MsgCtx, int BufferLength)
         return -125;
     }
 
-    while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    /* Otherwise it is there already */
+    if( DNSGetAdditionalCount(IHEADER_TAIL(h)) == 0 )
+    {
+        while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    }
 
     g.EDns(&g, 1280);
 
-- 
2.43.0


From 4c3f808ce5a006c42a64af124f4b71f8e292c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:12 +0000
Subject: [PATCH 21/46] fix: do not take a proxy connection that was just made
 for an expired one

---
 tcpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 9a71762..ff2a08e 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -80,7 +80,10 @@ static void TcpM_Connect_Recycle(SocketPuller *Puller, SocketPuller **Backups)
     To get a clear state of the TCP, we don't use pipeline.
     We use a short keep-alive to avoid the server is non-readable but writable.
 */
-static SOCKET TcpM_Connect_GetAvailable(SocketPuller *p, TcpContext **TcpCtx)
+static SOCKET TcpM_Connect_GetAvailable(SocketPuller *p,
+                                        TcpContext **TcpCtx,
+                                        int KeepAlive
+                                        )
 {
     SOCKET s = INVALID_SOCKET;
     int Err;
@@ -101,7 +104,7 @@ static SOCKET TcpM_Connect_GetAvailable(SocketPuller *p, TcpContext **TcpCtx)
         } else {
             p->Del(p, s); /* Single thread: delete before adding is safe. */
 
-            if( time(NULL) - (*TcpCtx)->LastActivity > TCPM_Keep_Alive ) {
+            if( time(NULL) - (*TcpCtx)->LastActivity > KeepAlive ) {
                 INFO("Existing TCP connection expired, discard.\n");
                 CLOSE_SOCKET(s);
             } else if( SocketIsStillReadable(s, 0) ) {
@@ -206,7 +209,7 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
         DEBUG("Pullers[%d]:\n", idx);
 
         /* Existing */
-        s = TcpM_Connect_GetAvailable(Pullers[idx], &TcpCtx);
+        s = TcpM_Connect_GetAvailable(Pullers[idx], &TcpCtx, TCPM_Keep_Alive);
         if( s != INVALID_SOCKET )
         {
             DEBUG("Got existing connection from Pullers[%d].\n", idx);
@@ -232,7 +235,8 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
             TcpCtx = &TcpCtxNew;
         } else {
             if( TcpM_Connect(m, -1, TRUE) > 0 ) {
-                s = TcpM_Connect_GetAvailable(&(m->ProxyPuller), &TcpCtx);
+                /* Being established, not idle */
+                s = TcpM_Connect_GetAvailable(&(m->ProxyPuller), &TcpCtx, TIMEOUT);
                 if( s == INVALID_SOCKET )
                 {
                     continue;
-- 
2.43.0


From ca4437c79719deecc683eb89c00ee33b1690c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:19 +0000
Subject: [PATCH 22/46] fix: free the address lists of a TCP module, not what
 they point to

Unloading a TCP module freed the first proxy address twice and closed
the descriptor of its local socket twice; failing to set one up freed
the addresses of the servers twice.
---
 tcpm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index ff2a08e..d360c6f 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -554,6 +554,7 @@ static int TcpM_Cleanup(TcpM *m)
 {
     m->IsServer = 0;
 
+    m->Puller.Del(&(m->Puller), m->Incoming);
     CLOSE_SOCKET(m->Incoming);
     m->Incoming = INVALID_SOCKET;
     m->Puller.Free(&(m->Puller));
@@ -564,7 +565,7 @@ static int TcpM_Cleanup(TcpM *m)
     {
         m->ProxyPuller.Free(&(m->ProxyPuller));
         SocketPullers_Free(m->Proxies);
-        SafeFree(*(m->SocksProxies));
+        SafeFree(m->SocksProxies);
         AddressList_Free(&(m->SocksProxyList));
         SafeFree(m->SocksProxyFamilies);
     }
@@ -950,7 +951,7 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
 EXIT_9:
     m->ProxyPuller.FreeWithoutClose(&(m->ProxyPuller));
 EXIT_8:
-    SafeFree(*(m->SocksProxies));
+    SafeFree(m->SocksProxies);
 EXIT_7:
     AddressList_Free(&(m->SocksProxyList));
 
@@ -959,7 +960,7 @@ EXIT_6:
 EXIT_5:
     m->QueryPuller.FreeWithoutClose(&(m->QueryPuller));
 EXIT_4:
-    SafeFree(*(m->Services));
+    SafeFree(m->Services);
 
 EXIT_3:
     AddressList_Free(&(m->ServiceList));
-- 
2.43.0


From 577fe59c094f3cdb810fe93877f0575807559d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:09 +0000
Subject: [PATCH 23/46] fix: close TCP connections on which no answer has come

A connection to a server that went away silently, or that swallowed the
query, was waited on for ever. Each one took a descriptor until there
were none left.
---
 socketpool.c   | 38 ++++++++++++++++++++++++++++++++++++++
 socketpool.h   |  5 +++++
 socketpuller.c |  9 +++++++++
 socketpuller.h |  5 +++++
 tcpm.c         | 27 +++++++++++++++++++++++++++
 5 files changed, 84 insertions(+)

diff --git a/socketpool.c b/socketpool.c
index 4fe7e49..8d09913 100755
--- a/socketpool.c
+++ b/socketpool.c
@@ -87,6 +87,43 @@ static SOCKET SocketPool_FetchOnSet(SocketPool *sp,
     return ret.Sock;
 }
 
+typedef struct _SocketPool_Find_Arg
+{
+    SOCKET Sock;
+    BOOL (*Matched)(SOCKET s, const void *Data, const void *Arg);
+    const void *Arg;
+} SocketPool_Find_Arg;
+
+static int SocketPool_Find_Inner(Bst *t,
+                                 const SocketUnit *su,
+                                 SocketPool_Find_Arg *Arg)
+{
+    const SOCKET *s = (const SOCKET *)su;
+
+    if( Arg->Matched(*s, s + 1, Arg->Arg) )
+    {
+        Arg->Sock = *s;
+        return 1;
+    }
+
+    return 0;
+}
+
+static SOCKET SocketPool_Find(SocketPool *sp,
+                              BOOL (*Matched)(SOCKET s, const void *Data, const void *Arg),
+                              const void *Arg
+                              )
+{
+    SocketPool_Find_Arg ret = {INVALID_SOCKET, Matched, Arg};
+
+    sp->t.Enum(&(sp->t),
+               (Bst_Enum_Callback)SocketPool_Find_Inner,
+               &ret
+               );
+
+    return ret.Sock;
+}
+
 static int SocketPool_CloseAll_Inner(Bst *t,
                                      SocketUnit *Data,
                                      const SOCKET *ExceptFor
@@ -152,6 +189,7 @@ int SocketPool_Init(SocketPool *sp, int DataLength)
     sp->Del = SocketPool_Del;
     sp->CloseAll = SocketPool_CloseAll;
     sp->FetchOnSet = SocketPool_FetchOnSet;
+    sp->Find = SocketPool_Find;
     sp->Free = SocketPool_Free;
 
     return 0;
diff --git a/socketpool.h b/socketpool.h
index 418d58b..8ff40f0 100755
--- a/socketpool.h
+++ b/socketpool.h
@@ -30,6 +30,11 @@ struct _SocketPool{
                          void **Data
                          );
 
+    SOCKET (*Find)(SocketPool *sp,
+                   BOOL (*Matched)(SOCKET s, const void *Data, const void *Arg),
+                   const void *Arg
+                   );
+
     void (*CloseAll)(SocketPool *sp, SOCKET ExceptFor);
 
     void (*Free)(SocketPool *sp, BOOL CloseAllSocket);
diff --git a/socketpuller.c b/socketpuller.c
index ce0c9b4..f1b6f7e 100755
--- a/socketpuller.c
+++ b/socketpuller.c
@@ -90,6 +90,14 @@ PUBFUNC SOCKET SocketPuller_Select(SocketPuller *p,
     return s;
 }
 
+PUBFUNC SOCKET SocketPuller_Find(SocketPuller *p,
+                                 BOOL (*Matched)(SOCKET s, const void *Data, const void *Arg),
+                                 const void *Arg
+                                 )
+{
+    return p->p.Find(&(p->p), Matched, Arg);
+}
+
 PUBFUNC void SocketPuller_CloseAll(SocketPuller *p, SOCKET ExceptFor)
 {
     p->p.CloseAll(&(p->p), ExceptFor);
@@ -112,6 +120,7 @@ int SocketPuller_Init(SocketPuller *p, int DataLength)
     p->Add = SocketPuller_Add;
     p->Del = SocketPuller_Del;
     p->Select = SocketPuller_Select;
+    p->Find = SocketPuller_Find;
     p->CloseAll = SocketPuller_CloseAll;
     p->Free = SocketPuller_Free;
     p->FreeWithoutClose = SocketPuller_FreeWithoutClose;
diff --git a/socketpuller.h b/socketpuller.h
index b1f1beb..8982a26 100755
--- a/socketpuller.h
+++ b/socketpuller.h
@@ -29,6 +29,11 @@ struct _SocketPuller{
                              int *err
                              );
 
+    PUBMEMB SOCKET (*Find)(SocketPuller *p,
+                           BOOL (*Matched)(SOCKET s, const void *Data, const void *Arg),
+                           const void *Arg
+                           );
+
     PUBMEMB void (*CloseAll)(SocketPuller *p, SOCKET ExceptFor);
     PUBMEMB void (*Free)(SocketPuller *p);
     PUBMEMB void (*FreeWithoutClose)(SocketPuller *p);
diff --git a/tcpm.c b/tcpm.c
index d360c6f..be8ba93 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -15,6 +15,7 @@
 extern BOOL Ipv6_Enabled;
 
 #define TIMEOUT     5
+#define TIMEOUT_ANSWER  60
 #define TIMEOUT_ms_SEND 2000
 #define TIMEOUT_ms_RECV 2000
 #define TIMEOUT_ms_ALIVE    100
@@ -550,6 +551,30 @@ PUBFUNC int TcpM_Send(TcpM *m,
     return !(State > 0);
 }
 
+static BOOL TcpM_IsUnanswered(SOCKET s, const TcpContext *TcpCtx, const SOCKET *Incoming)
+{
+    return s != *Incoming && time(NULL) - TcpCtx->LastActivity > TIMEOUT_ANSWER;
+}
+
+/* The peer may have gone silently, nothing will be received from it then. */
+static void TcpM_CloseUnanswered(TcpM *m)
+{
+    SocketPuller *p = &(m->Puller);
+    SOCKET s;
+
+    while( (s = p->Find(p,
+                        (BOOL (*)(SOCKET, const void *, const void *))TcpM_IsUnanswered,
+                        &(m->Incoming)
+                        )
+           ) != INVALID_SOCKET
+         )
+    {
+        INFO("No answer on a TCP connection, discard.\n");
+        p->Del(p, s);
+        CLOSE_SOCKET(s);
+    }
+}
+
 static int TcpM_Cleanup(TcpM *m)
 {
     m->IsServer = 0;
@@ -610,6 +635,8 @@ TcpM_Works(TcpM *m)
         SOCKET  s;
         struct timeval TimeOut = TimeOut_Const;
 
+        TcpM_CloseUnanswered(m);
+
         s = p->Select(p, &TimeOut, (void **)&TcpCtx, TRUE, FALSE, &Err);
 
         if( s == INVALID_SOCKET )
-- 
2.43.0


From 9c14b582b145a0a983e3661cbc5c8c0f8b47b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:10 +0000
Subject: [PATCH 24/46] fix: free the buffer of the socket pullers

Every reload of a TCP module lost it.
---
 socketpuller.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socketpuller.c b/socketpuller.c
index f1b6f7e..2c50dec 100755
--- a/socketpuller.c
+++ b/socketpuller.c
@@ -195,11 +195,14 @@ void SocketPullers_FreeWithoutClose(SocketPuller **Pullers)
 void SocketPullers_Free(SocketPuller **Pullers)
 {
     SocketPuller **p;
+    SocketPuller *Buffer;
 
     p = Pullers;
+    Buffer = *Pullers;
     for( ; *Pullers != NULL; ++Pullers )
     {
         (*Pullers)->Free(*Pullers);
     }
+    SafeFree(Buffer);
     SafeFree(p);
 }
-- 
2.43.0


From 5dc261136086a5df61164b2fb1e39cf230bc6614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:52 +0000
Subject: [PATCH 25/46] fix: let the modules of a failed reload end before
 freeing them

---
 mmgr.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mmgr.c b/mmgr.c
index 6d93aa3..87482a4 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -83,13 +83,15 @@ static ModuleInterface *StoreAModule(ModuleMap *ModuleMap)
         return NULL;
     }
 
+    /* Without running threads yet */
+    memset(Added, 0, sizeof(ModuleInterface));
+    Added->ModuleName = "Unknown";
+
     if( Array_PushBack(ModuleMap->ModuleArray, &Added, NULL) < 0 )
     {
         return NULL;
     }
 
-    Added->ModuleName = "Unknown";
-
     return Added;
 }
 
@@ -709,7 +711,11 @@ static int Modules_Load(ConfigFileInfo *ConfigInfo)
 
     if (ret)
     {
-        goto ModulesFree;
+        /* Some of the modules may be running already */
+        CREATE_THREAD(Modules_SafeCleanup, NewModuleMap, th);
+        DETACH_THREAD(th);
+        INFO("Loading GroupFile(s) failed.\n");
+        return ret;
     }
 
     RWLock_WrLock(ModulesLock);
-- 
2.43.0


From dbf1894ee943c3125892b611965f3c6bfbd6a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:04 +0000
Subject: [PATCH 26/46] fix: keep a copy of the server names of a module

---
 tcpm.c | 14 ++++++++++++--
 tcpm.h |  4 ++--
 udpm.c | 11 ++++++++++-
 udpm.h |  2 +-
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index be8ba93..8c18d16 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -600,6 +600,8 @@ static int TcpM_Cleanup(TcpM *m)
     SafeFree(m->Services);
     AddressList_Free(&(m->ServiceList));
     SafeFree(m->ServiceFamilies);
+    SafeFree(m->ServiceName);
+    SafeFree(m->ProxyName);
 
     m->WorkThread = NULL_THREAD;
 
@@ -832,6 +834,14 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
         return -12;
     }
 
+    m->ServiceName = StringDup(Services);
+    m->ProxyName = SocksProxies == NULL ? NULL : StringDup(SocksProxies);
+    if( m->ServiceName == NULL || (SocksProxies != NULL && m->ProxyName == NULL) )
+    {
+        ret = -13;
+        goto EXIT_1;
+    }
+
     if( SocketPuller_Init(&(m->Puller), sizeof(TcpContext)) != 0 )
     {
         ret = -389;
@@ -965,8 +975,6 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
 
     m->Send = TcpM_Send;
 
-    m->ServiceName = Services;
-    m->ProxyName = SocksProxies;
     m->Parallel = Parallel;
     m->IsServer = 1;
 
@@ -994,6 +1002,8 @@ EXIT_3:
 EXIT_2:
     m->Puller.Free(&(m->Puller));
 EXIT_1:
+    SafeFree(m->ServiceName);
+    SafeFree(m->ProxyName);
     ModuleContext_Free(&(m->Context));
     return ret;
 }
diff --git a/tcpm.h b/tcpm.h
index 88aa169..82b35ba 100755
--- a/tcpm.h
+++ b/tcpm.h
@@ -19,14 +19,14 @@ struct _TcpM {
 
     int IsServer;
 
-    const char      *ServiceName;
+    char            *ServiceName;
     AddressList     ServiceList;
     struct sockaddr **Services;
     sa_family_t     *ServiceFamilies;
     SocketPuller    QueryPuller;
     SocketPuller    **Agents;
 
-    const char      *ProxyName;
+    char            *ProxyName;
     AddressList     SocksProxyList;
     struct sockaddr **SocksProxies;
     sa_family_t     *SocksProxyFamilies;
diff --git a/udpm.c b/udpm.c
index 04ef31e..d1c73af 100755
--- a/udpm.c
+++ b/udpm.c
@@ -60,6 +60,7 @@ static int UdpM_Cleanup(UdpM *m)
 
     SafeFree(m->Parallels.addrs);
     AddressList_Free(&(m->AddrList));
+    SafeFree(m->ServiceName);
 
     m->WorkThread = NULL_THREAD;
 
@@ -349,6 +350,13 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
         return -364;
     }
 
+    m->ServiceName = StringDup(Services);
+    if( m->ServiceName == NULL )
+    {
+        ret = -165;
+        goto EXIT_1;
+    }
+
     Addresses.TrimAll(&Addresses, "\t .");
 
     if( StringListIterator_Init(&sli, &Addresses) != 0 )
@@ -405,7 +413,6 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
 
     m->CountOfTimeout = 0;
 
-    m->ServiceName = Services;
     m->IsServer = 1;
 
     EFFECTIVE_LOCK_INIT(m->Lock);
@@ -423,9 +430,11 @@ EXIT_3:
     SafeFree(m->Parallels.addrs);
 EXIT_2:
     AddressList_Free(&(m->AddrList));
+    SafeFree(m->ServiceName);
     return ret;
 
 EXIT_1:
     Addresses.Free(&Addresses);
+    SafeFree(m->ServiceName);
     return ret;
 }
diff --git a/udpm.h b/udpm.h
index 77655b9..2c673da 100755
--- a/udpm.h
+++ b/udpm.h
@@ -20,7 +20,7 @@ struct _UdpM {
 
     int IsServer;
 
-    const char      *ServiceName;
+    char            *ServiceName;
     AddressList     AddrList;
     struct { /* parallel query informations */
         /* When these two are not NULL, parallel-query is enabled */
-- 
2.43.0


From 2a71bfef59e047288c1b06ff297f3535574ae4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:26 +0000
Subject: [PATCH 27/46] fix: ask over another TCP connection when one turns out
 to be broken

---
 tcpm.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tcpm.c b/tcpm.c
index 8c18d16..8559355 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -432,6 +432,11 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
 
 }
 
+static BOOL TcpM_AnyConnection(SOCKET s, const TcpContext *TcpCtx, const void *Unused)
+{
+    return TRUE;
+}
+
 static int TcpM_Send_Actual(TcpM *m, MsgContext *MsgCtx, int SingleServerIndex)
 {
     char *Type;
@@ -468,7 +473,14 @@ static int TcpM_Send_Actual(TcpM *m, MsgContext *MsgCtx, int SingleServerIndex)
         return 0;
     }
 
-    for( i = 0; i < NumOfServers; ++i )
+    /* Broken connections are skipped. */
+    i = 0;
+    while( i < NumOfServers &&
+           p->Find(p,
+                   (BOOL (*)(SOCKET, const void *, const void *))TcpM_AnyConnection,
+                   NULL
+                   ) != INVALID_SOCKET
+         )
     {
         SOCKET s;
         int Err;
@@ -484,6 +496,7 @@ static int TcpM_Send_Actual(TcpM *m, MsgContext *MsgCtx, int SingleServerIndex)
                 break;
             }
             INFO("No %s TCP connection is established.\n", Type);
+            ++i;
             continue;
         } else {
             p->Del(p, s);
@@ -527,6 +540,7 @@ static int TcpM_Send_Actual(TcpM *m, MsgContext *MsgCtx, int SingleServerIndex)
         m->Puller.Add(&(m->Puller), s, TcpCtx, sizeof(TcpContext));
 
         n++;
+        ++i;
     }
 
     return n;
-- 
2.43.0


From 407ed4c4bc3408cf0450bac4ab3878233ee6bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:41 +0000
Subject: [PATCH 28/46] fix: do not close TCP connections on which an answer is
 waiting

---
 tcpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcpm.c b/tcpm.c
index 8559355..9d83075 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -567,7 +567,9 @@ PUBFUNC int TcpM_Send(TcpM *m,
 
 static BOOL TcpM_IsUnanswered(SOCKET s, const TcpContext *TcpCtx, const SOCKET *Incoming)
 {
-    return s != *Incoming && time(NULL) - TcpCtx->LastActivity > TIMEOUT_ANSWER;
+    return s != *Incoming &&
+           time(NULL) - TcpCtx->LastActivity > TIMEOUT_ANSWER &&
+           !SocketIsStillReadable(s, 0); /* Its answer may be waiting. */
 }
 
 /* The peer may have gone silently, nothing will be received from it then. */
-- 
2.43.0


From 8db2352493c7d20aa70378e354cafcd7526d53a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 29/46] fix: ask again for the root domain, too, when the
 server has closed an idle TCP connection

---
 iheader.c | 1 +
 tcpm.c    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/iheader.c b/iheader.c
index ee8f043..1e50622 100755
--- a/iheader.c
+++ b/iheader.c
@@ -19,6 +19,7 @@ void IHeader_Reset(IHeader *h)
     h->Domain[0] = '\0';
     h->HashValue = 0;
     h->EDNSEnabled = FALSE;
+    h->EntityLength = 0;
 }
 
 int IHeader_Fill(IHeader *h,
diff --git a/tcpm.c b/tcpm.c
index 9d83075..cfce37c 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -721,7 +721,7 @@ TcpM_Works(TcpM *m)
                 {
                     /* If Server force closed the keep-alive SOCKET: */
                     IHeader *Header2 = (IHeader *)TcpCtx->MsgCtx;
-                    if( TcpCtx->Reused && Header2 != NULL && *(Header2->Domain) != 0 &&
+                    if( TcpCtx->Reused && Header2 != NULL && Header2->EntityLength != 0 &&
                         TcpCtx->MsgCtxQid == DNSGetQueryIdentifier(Header2 + 1) &&
                         TcpCtx->MsgCtxHash == Header2->HashValue
                         )
-- 
2.43.0


From 2d3540c0c3c10211ea95ff695d933b92f208e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 30/46] fix: leave nothing of a cached record that does not fit
 into the answer

---
 dnsgenerator.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 7b5af5e..2cfe958 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -864,6 +864,7 @@ static int DnsGenerator_Generate(DnsGenerator *g,
                                  )
 {
     int Ret = -256;
+    char *Start = g->Itr;
 
     switch( Type )
     {
@@ -888,6 +889,12 @@ static int DnsGenerator_Generate(DnsGenerator *g,
         break;
     }
 
+    if( Ret != 0 )
+    {
+        /* Nothing is to be left of a record that doesn't fit */
+        g->Itr = Start;
+    }
+
     return Ret;
 }
 
-- 
2.43.0


From fec94c475598c618d67927062bf3c79b59941216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:31 +0000
Subject: [PATCH 31/46] fix: look for the disabled domains only under their
 lock

---
 filter.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/filter.c b/filter.c
index 26d56c4..d7006a9 100755
--- a/filter.c
+++ b/filter.c
@@ -288,13 +288,11 @@ static BOOL IsDisabledDomain(const char *Domain, uint32_t HashValue)
 {
     int ret;
 
-    if (DisabledDomain == NULL)
-    {
-        return FALSE;
-    }
-
+    /* Not to be looked at before the lock is held: it is NULL for a moment
+       while it is being replaced. */
     RWLock_RdLock(DisabledDomainLock);
-    ret = StringChunk_Domain_Match(DisabledDomain, Domain, &HashValue, NULL, NULL, NULL);
+    ret = DisabledDomain != NULL &&
+          StringChunk_Domain_Match(DisabledDomain, Domain, &HashValue, NULL, NULL, NULL);
     RWLock_UnRLock(DisabledDomainLock);
 
     return ret;
-- 
2.43.0


From 77499a2df697f9d4a05e04c205c680c3dd5062dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:41 +0000
Subject: [PATCH 32/46] fix: give redirected answers to the queries they belong
 to

---
 hosts.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/hosts.c b/hosts.c
index 2da3fed..76a1bf8 100755
--- a/hosts.c
+++ b/hosts.c
@@ -137,7 +137,7 @@ Hosts_SocketLoop(void *Unused)
     char    InnerBuffer[SOCKET_CONTEXT_LENGTH];
     MsgContext *InnerMsgCtx = (MsgContext *)InnerBuffer;
     IHeader *InnerHeader = (IHeader *)InnerBuffer;
-    /* char    *InnerEntity = InnerBuffer + sizeof(IHeader); */
+    char    *InnerEntity = InnerBuffer + sizeof(IHeader);
 
     char OuterBuffer[SOCKET_CONTEXT_LENGTH];
     /* MsgContext *OuterMsgCtx = (MsgContext *)OuterBuffer; */
@@ -231,6 +231,11 @@ Hosts_SocketLoop(void *Unused)
                 continue;
             }
 
+            /* Kept under the new identifier, by which the answer is told from
+               the ones for other queries, with the original one behind it. */
+            DNSCopyQueryIdentifier(InnerEntity + sizeof(uint16_t), InnerEntity);
+            DNSCopyQueryIdentifier(InnerEntity, OuterEntity);
+
             MsgCtxStored = Context.Add(&Context, InnerMsgCtx);
             if( MsgCtxStored == NULL )
             {
@@ -244,8 +249,7 @@ Hosts_SocketLoop(void *Unused)
 
         } else if( Pulled == OuterSocket )
         {
-            MsgContext *BackTraceMsgCtx;
-            IHeader *BackTraceHeader;
+            const MsgContext *MsgCtxStored;
 
             TimeLimit = ShortTime;
 
@@ -262,15 +266,23 @@ Hosts_SocketLoop(void *Unused)
                 continue;
             }
 
-            BackTraceHeader = OuterHeader->Parent;
-            BackTraceMsgCtx = (MsgContext *)BackTraceHeader;
-            DNSCopyQueryIdentifier(InnerHeader + 1, BackTraceHeader + 1);
-            if( Context.GenAnswerHeaderAndRemove(&Context, BackTraceMsgCtx, InnerMsgCtx) != 0 )
+            /* The query may have been given up, and its place taken by another. */
+            memcpy(InnerHeader, OuterHeader->Parent, sizeof(IHeader));
+            DNSCopyQueryIdentifier(InnerEntity, OuterEntity);
+
+            MsgCtxStored = Context.Find(&Context, InnerMsgCtx);
+            if( MsgCtxStored == NULL )
             {
-                ERRORMSG("Fatal error 267.\n");
                 continue;
             }
 
+            memcpy(InnerMsgCtx,
+                   MsgCtxStored,
+                   sizeof(IHeader) + 2 * sizeof(uint16_t)
+                   );
+            Context.Del(&Context, (MsgContext *)MsgCtxStored);
+            DNSCopyQueryIdentifier(InnerEntity, InnerEntity + sizeof(uint16_t));
+
             if( HostsUtils_CombineRecursedResponse((MsgContext *)InnerBuffer,
                                                    SOCKET_CONTEXT_LENGTH,
                                                    OuterEntity,
-- 
2.43.0


From b99602f679b4a4fa0b9369913fc37ac81c57083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:12 +0000
Subject: [PATCH 33/46] fix: give up redirections that go round in circles

---
 hosts.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/hosts.c b/hosts.c
index 76a1bf8..2f38c8d 100755
--- a/hosts.c
+++ b/hosts.c
@@ -11,6 +11,8 @@ extern BOOL Ipv6_Enabled;
 
 static BOOL BlockIpv6WhenIpv4Exists = FALSE;
 
+#define REDIRECTION_DEPTH_MAX   16
+
 static SOCKET   InnerSocket;
 static Address_Type InnerAddress;
 static SocketPuller Puller;
@@ -192,6 +194,8 @@ Hosts_SocketLoop(void *Unused)
             MsgContext *MsgCtxStored;
             char RecursedDomain[DOMAIN_NAME_LENGTH_MAX + 1];
             uint16_t NewIdentifier;
+            const IHeader *Ancestor;
+            int Depth = 0;
 
             TimeLimit = ShortTime;
 
@@ -208,6 +212,21 @@ Hosts_SocketLoop(void *Unused)
                 continue;
             }
 
+            /* Redirections going round in circles have no end */
+            for( Ancestor = InnerHeader->Parent;
+                 Ancestor != NULL && Depth < REDIRECTION_DEPTH_MAX;
+                 Ancestor = Ancestor->Parent
+                 )
+            {
+                ++Depth;
+            }
+
+            if( Depth == REDIRECTION_DEPTH_MAX )
+            {
+                INFO("Too many redirections: %s\n", InnerHeader->Domain);
+                continue;
+            }
+
             if( Hosts_GetCName(InnerHeader->Domain, RecursedDomain) != 0 )
             {
                 ERRORMSG("Fatal error 221.\n");
-- 
2.43.0


From 5523be8a07c6042b38cd90eeea6733fc4c375cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 34/46] fix: ask for a UDP socket again when there was none to
 be had

---
 udpm.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/udpm.c b/udpm.c
index d1c73af..66e952d 100755
--- a/udpm.c
+++ b/udpm.c
@@ -122,9 +122,11 @@ UdpM_Works(UdpM *m)
 
             if( m->Departure == INVALID_SOCKET )
             {
+                /* Try again later */
                 ERRORMSG("Fatal error 68.\n");
                 EFFECTIVE_LOCK_RELEASE(m->Lock);
-                break;
+                SLEEP(1000);
+                continue;
             }
 
 #if defined(_WIN32) && defined(IPV6_V6ONLY)
@@ -380,22 +382,27 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
 
     Addresses.Free(&Addresses);
 
-    if( Parallel )
+    if( AddressList_GetOneBySubscript(&(m->AddrList),
+                                      &(m->Parallels.familiy),
+                                      0
+                                      )
+       == NULL )
     {
-        if( AddressList_GetOneBySubscript(&(m->AddrList),
-                                          &(m->Parallels.familiy),
-                                          0
-                                          )
-           == NULL )
-        {
-            ret = -184;
-            goto EXIT_2;
-        }
+        ret = -184;
+        goto EXIT_2;
+    }
 
+    if( Parallel )
+    {
         m->Parallels.addrs =
             AddressList_GetPtrListOfFamily(&(m->AddrList),
                                            m->Parallels.familiy
                                            );
+        if( m->Parallels.addrs == NULL )
+        {
+            ret = -189;
+            goto EXIT_2;
+        }
 
         m->Parallels.addrlen = GetAddressLength(m->Parallels.familiy);
 
-- 
2.43.0


From b660bad0890bb6da047c7ae6b721e17280d75782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 35/46] fix: go on logging when the log file could not be
 renamed or opened

---
 logs.c | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/logs.c b/logs.c
index 11af225..9bc3ff2 100755
--- a/logs.c
+++ b/logs.c
@@ -80,7 +80,7 @@ int Log_Init(ConfigFileInfo *ConfigInfo, BOOL PrintScreen, BOOL Debug)
 
 BOOL Log_Inited(void)
 {
-    return LogFile != NULL || PrintConsole;
+    return LogFile != NULL || ThresholdLength > 0 || PrintConsole;
 }
 
 BOOL Log_DebugOn(void)
@@ -90,11 +90,12 @@ BOOL Log_DebugOn(void)
 
 static void CheckLength(void)
 {
-    if( CurrentLength >= ThresholdLength )
+    if( LogFile != NULL && CurrentLength >= ThresholdLength )
     {
         char FileRenamed[MAX_PATH_BUFFER + 8];
 
         fclose(LogFile);
+        LogFile = NULL;
 
         while( TRUE )
         {
@@ -111,29 +112,30 @@ static void CheckLength(void)
                 >= sizeof(FileRenamed)
             )
             {
-                return;
+                break;
             }
 
             if( FileIsReadable(FileRenamed) == FALSE )
             {
                 /* If path to `FileRenamed' does not exist */
-                if( rename(FilePath, FileRenamed) != 0 )
-                {
-                    return;
-                }
-
-                LogFile = fopen(FilePath, "w");
-                if( LogFile == NULL )
-                {
-                    return;
-                }
-
-                CurrentLength = 0;
-
+                rename(FilePath, FileRenamed);
                 break;
             }
         }
     }
+
+    if( LogFile == NULL )
+    {
+        /* Go on with the old one if it is still there */
+        LogFile = fopen(FilePath, "a");
+        if( LogFile == NULL )
+        {
+            return;
+        }
+
+        fseek(LogFile, 0, SEEK_END);
+        CurrentLength = ftell(LogFile);
+    }
 }
 
 void Log_Print(const char *Type, const char *format, ...)
@@ -151,10 +153,13 @@ void Log_Print(const char *Type, const char *format, ...)
     va_start(ap, format);
 
     EFFECTIVE_LOCK_GET(PrintLock);
-    if( LogFile != NULL )
+    if( ThresholdLength > 0 )
     {
         CheckLength();
+    }
 
+    if( LogFile != NULL )
+    {
         CurrentLength += fprintf(LogFile,
                                  Type == NULL ? "%s " : "%s [%s] ",
                                  DateAndTime,
-- 
2.43.0


From 5be5ee9ff550ed4bf39cbf7857ccbf35e8f80c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 36/46] fix: keep the hash table usable when it cannot grow

---
 simpleht.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simpleht.c b/simpleht.c
index a07ac6c..e50aac0 100755
--- a/simpleht.c
+++ b/simpleht.c
@@ -62,6 +62,8 @@ static int SimpleHT_Expand(SimpleHT *ht)
     {
         if( Array_PushBack(&(ht->Slots), &EmptySlot, NULL) < 0 )
         {
+            /* The nodes are still where they were */
+            ht->Slots.Used = NumberOfSlots_Old;
             return -1;
         }
     }
-- 
2.43.0


From 5161ab10f6d47a1d47a9c4c7e33e2903add4bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 37/46] fix: choose among the matching wildcards without
 allocating memory

---
 stringchunk.c | 56 ++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/stringchunk.c b/stringchunk.c
index c29e982..3d011d3 100755
--- a/stringchunk.c
+++ b/stringchunk.c
@@ -61,9 +61,9 @@ EXIT_4:
 EXIT_3:
     dl->AdditionalDataChunk.Free(&(dl->AdditionalDataChunk));
 EXIT_2:
-    SimpleHT_Free(&(dl->List_Pos));
-EXIT_1:
     Array_Free(&(dl->List_W_Pos));
+EXIT_1:
+    SimpleHT_Free(&(dl->List_Pos));
     return ret;
 }
 
@@ -239,11 +239,12 @@ BOOL StringChunk_Match_OnlyWildCard_GetOne(StringChunk  *dl,
                                            void         *Expected
                                            )
 {
-    Array           Matches;
-    Array           MatchesAny;
-    Array           *pm;
     Array           *wl;
 
+    /* Those which are just "*" count only if there are no others */
+    int Matches = 0;
+    BOOL AnyOnly = TRUE;
+
     EntryForString *FoundEntry;
 
     int loop;
@@ -253,16 +254,9 @@ BOOL StringChunk_Match_OnlyWildCard_GetOne(StringChunk  *dl,
         return FALSE;
     }
 
-    if( Array_Init(&Matches, sizeof(void *), 4, FALSE, NULL) != 0 )
-    {
-        return FALSE;
-    }
+    *Data = NULL;
 
-    if( Array_Init(&MatchesAny, sizeof(void *), 4, FALSE, NULL) != 0 )
-    {
-        Array_Free(&Matches);
-        return FALSE;
-    }
+    srand(time(NULL));
 
     wl = &(dl->List_W_Pos);
 
@@ -278,25 +272,27 @@ BOOL StringChunk_Match_OnlyWildCard_GetOne(StringChunk  *dl,
                 {
                     continue;
                 }
-                Array_PushBack(strcmp(FoundString, "*") == 0 ? &MatchesAny : &Matches,
-                               &(FoundEntry->Data),
-                               NULL
-                               );
-            }
-        }
-    }
 
-    pm = Array_GetUsed(&Matches) > 0 ? &Matches : &MatchesAny;
+                if( strcmp(FoundString, "*") == 0 )
+                {
+                    if( !AnyOnly )
+                    {
+                        continue;
+                    }
+                } else if( AnyOnly ) {
+                    AnyOnly = FALSE;
+                    Matches = 0;
+                }
 
-    if( Array_GetUsed(pm) > 0 )
-    {
-        srand(time(NULL));
-        *Data = *((void **)Array_GetBySubscript(pm, rand() % Array_GetUsed(pm)));
-    } else {
-        *Data = NULL;
+                /* Each of them is as likely to be the one */
+                ++Matches;
+                if( rand() % Matches == 0 )
+                {
+                    *Data = FoundEntry->Data;
+                }
+            }
+        }
     }
-    Array_Free(&MatchesAny);
-    Array_Free(&Matches);
 
     return *Data != NULL;
 }
-- 
2.43.0


From b73a5e96ec04703a11100dfdea54f12cc4cce27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 38/46] fix: keep the hosts in force when memory runs out while
 loading new ones

---
 dynamichosts.c   | 7 ++++++-
 hostscontainer.c | 8 ++++----
 hostscontainer.h | 1 +
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/dynamichosts.c b/dynamichosts.c
index c7c83e7..7afab2d 100755
--- a/dynamichosts.c
+++ b/dynamichosts.c
@@ -79,7 +79,12 @@ static int DynamicHosts_Load(void)
             continue;
         }
 
-        TempContainer->Load(TempContainer, Buffer);
+        if( TempContainer->Load(TempContainer, Buffer) == HOSTS_TYPE_FAILED )
+        {
+            /* Better all of the old ones than some of the new ones */
+            DynamicHosts_ContainerCleanup(TempContainer);
+            goto EXIT_2;
+        }
     }
 
     fclose(fp);
diff --git a/hostscontainer.c b/hostscontainer.c
index 1a986cc..f696219 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -346,7 +346,7 @@ PRIFUNC HostsRecordType HostsContainer_Add(HostsContainer *Container,
         case HOSTS_TYPE_A:
             if( HostsContainer_AddIP(Container, Type, IPOrCName, Domain) != 0 )
             {
-                return HOSTS_TYPE_UNKNOWN;
+                return HOSTS_TYPE_FAILED;
             } else {
                 return Type;
             }
@@ -355,7 +355,7 @@ PRIFUNC HostsRecordType HostsContainer_Add(HostsContainer *Container,
         case HOSTS_TYPE_CNAME:
             if( HostsContainer_AddCName(Container, IPOrCName, Domain) != 0 )
             {
-                return HOSTS_TYPE_UNKNOWN;
+                return HOSTS_TYPE_FAILED;
             } else {
                 return HOSTS_TYPE_CNAME;
             }
@@ -364,7 +364,7 @@ PRIFUNC HostsRecordType HostsContainer_Add(HostsContainer *Container,
         case HOSTS_TYPE_EXCLUEDE:
             if( HostsContainer_AddExcluded(Container, Domain) != 0 )
             {
-                return HOSTS_TYPE_UNKNOWN;
+                return HOSTS_TYPE_FAILED;
             } else {
                 return HOSTS_TYPE_EXCLUEDE;
             }
@@ -373,7 +373,7 @@ PRIFUNC HostsRecordType HostsContainer_Add(HostsContainer *Container,
         case HOSTS_TYPE_GOOD_IP_LIST:
             if( HostsContainer_AddGoodIpList(Container, IPOrCName, Domain) != 0 )
             {
-                return HOSTS_TYPE_UNKNOWN;
+                return HOSTS_TYPE_FAILED;
             } else {
                 return HOSTS_TYPE_GOOD_IP_LIST;
             }
diff --git a/hostscontainer.h b/hostscontainer.h
index f593110..acd6ed1 100755
--- a/hostscontainer.h
+++ b/hostscontainer.h
@@ -7,6 +7,7 @@
 #include "oo.h"
 
 typedef enum _HostsRecordType{
+    HOSTS_TYPE_FAILED = -2,
     HOSTS_TYPE_TOO_LONG = -1,
     HOSTS_TYPE_UNKNOWN = 0,
     HOSTS_TYPE_A = 1 << 1,
-- 
2.43.0


From be583757d7bf5af9edfda3c5cfdd11b9a2a882c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 39/46] fix: keep the disabled domains in force when memory
 runs out while loading new ones

---
 filter.c | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/filter.c b/filter.c
index d7006a9..27c1bf0 100755
--- a/filter.c
+++ b/filter.c
@@ -58,7 +58,10 @@ static int LoadDomainsFromList(StringChunk *List, StringList *Domains)
     Str = sli.Next(&sli);
     while( Str != NULL )
     {
-        StringChunk_Add_Domain(List, Str, NULL, 0);
+        if( StringChunk_Add_Domain(List, Str, NULL, 0) != 0 )
+        {
+            return -2;
+        }
         Str = sli.Next(&sli);
     }
 
@@ -79,15 +82,14 @@ static int FilterDomain_Init(StringChunk **List, ConfigFileInfo *ConfigInfo)
         return -120;
     }
 
-    LoadDomainsFromList(*List, dd);
-
-    return 0;
+    return LoadDomainsFromList(*List, dd);
 }
 
 static int LoadDomainsFromFile(StringChunk *List, const char *FilePath)
 {
     FILE *fp;
     char    Domain[512];
+    int     ret = 0;
 
     if( List == NULL || FilePath == NULL )
     {
@@ -97,7 +99,8 @@ static int LoadDomainsFromFile(StringChunk *List, const char *FilePath)
     fp = fopen(FilePath, "r");
     if( fp == NULL )
     {
-        return -118;
+        /* This list is left out. */
+        return 0;
     }
 
     while( TRUE )
@@ -112,7 +115,11 @@ static int LoadDomainsFromFile(StringChunk *List, const char *FilePath)
 
         if( Status == READ_DONE )
         {
-            StringChunk_Add_Domain(List, Domain, NULL, 0);
+            if( StringChunk_Add_Domain(List, Domain, NULL, 0) != 0 )
+            {
+                ret = -119;
+                break;
+            }
         } else {
             ReadLine_GoToNextLine(fp);
         }
@@ -120,7 +127,7 @@ static int LoadDomainsFromFile(StringChunk *List, const char *FilePath)
 
     fclose(fp);
 
-    return 0;
+    return ret;
 }
 
 static int FilterDomain_InitFromFile(StringChunk **List, ConfigFileInfo *ConfigInfo)
@@ -146,7 +153,10 @@ static int FilterDomain_InitFromFile(StringChunk **List, ConfigFileInfo *ConfigI
 
     while( (FilePath = sli.Next(&sli)) != NULL )
     {
-        LoadDomainsFromFile(*List, FilePath);
+        if( LoadDomainsFromFile(*List, FilePath) != 0 )
+        {
+            return -121;
+        }
     }
 
     return 0;
@@ -219,6 +229,11 @@ static int DisabledDomain_Init(ConfigFileInfo *ConfigInfo)
 
     if( FilterDomain_Init(&TempDisabledDomain, ConfigInfo) != 0 )
     {
+        if( TempDisabledDomain != NULL )
+        {
+            StringChunk_Free(TempDisabledDomain, TRUE);
+            SafeFree(TempDisabledDomain);
+        }
         INFO("Loading DisabledDomain failed.\n");
         return -1;
     } else {
@@ -227,8 +242,11 @@ static int DisabledDomain_Init(ConfigFileInfo *ConfigInfo)
 
     if( FilterDomain_InitFromFile(&TempDisabledDomain, ConfigInfo) != 0 )
     {
-        StringChunk_Free(TempDisabledDomain, TRUE);
-        SafeFree(TempDisabledDomain);
+        if( TempDisabledDomain != NULL )
+        {
+            StringChunk_Free(TempDisabledDomain, TRUE);
+            SafeFree(TempDisabledDomain);
+        }
         INFO("Loading DisabledList failed.\n");
         return -1;
     } else {
-- 
2.43.0


From 93097c289c656323e4e6ec7b826c286f4c27f595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 40/46] fix: keep the groups in force when memory runs out
 while loading new ones

---
 mmgr.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/mmgr.c b/mmgr.c
index 87482a4..39c963d 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -63,11 +63,15 @@ static int MappingAModule(ModuleMap *ModuleMap,
 
     while( (OneDomain = i.Next(&i)) != NULL )
     {
-        StringChunk_Add_Domain(ModuleMap->Distributor,
-                               OneDomain,
-                               &Stored,
-                               sizeof(ModuleInterface *)
-                               );
+        if( StringChunk_Add_Domain(ModuleMap->Distributor,
+                                   OneDomain,
+                                   &Stored,
+                                   sizeof(ModuleInterface *)
+                                   )
+            != 0 )
+        {
+            return -56;
+        }
     }
 
     return 0;
@@ -141,6 +145,7 @@ static int Udp_Init_Core(ModuleMap *ModuleMap,
     if( MappingAModule(ModuleMap, NewM, DomainList) != 0 )
     {
         ERRORMSG("Mapping UDP module of %s failed.\n", Services);
+        return -134;
     }
 
     return 0;
@@ -238,6 +243,7 @@ static int Tcp_Init_Core(ModuleMap *ModuleMap,
     if( MappingAModule(ModuleMap, NewM, DomainList) != 0 )
     {
         ERRORMSG("Mapping TCP module of %s failed.\n", Services);
+        return -218;
     }
 
     return 0;
@@ -395,9 +401,16 @@ static int Modules_InitFromFile(ModuleMap *ModuleMap, StringListIterator *i)
         Value = SplitNameAndValue(Buffer, " \t=");
         if( Value != NULL )
         {
-            StringChunk_Add(&Args, Buffer, Value, strlen(Value) + 1);
-        } else {
-            Domains.Add(&Domains, Buffer, NULL);
+            if( StringChunk_Add(&Args, Buffer, Value, strlen(Value) + 1) != 0 )
+            {
+                fclose(fp);
+                ret = -236;
+                goto EXIT_2;
+            }
+        } else if( Domains.Add(&Domains, Buffer, NULL) == NULL ) {
+            fclose(fp);
+            ret = -237;
+            goto EXIT_2;
         }
 
     } while( TRUE );
@@ -454,7 +467,12 @@ static int Modules_InitFromFile(ModuleMap *ModuleMap, StringListIterator *i)
 
                 StrToLower(Buffer);
 
-                Domains.Add(&Domains, Buffer, NULL);
+                if( Domains.Add(&Domains, Buffer, NULL) == NULL )
+                {
+                    fclose(fp);
+                    ret = -238;
+                    goto EXIT_2;
+                }
             } while( TRUE );
 
             fclose(fp);
@@ -668,6 +686,8 @@ static int Modules_Load(ConfigFileInfo *ConfigInfo)
         return -1;
     }
 
+    NewModuleMap->Modules = NULL;
+    NewModuleMap->ModuleArray = NULL;
     NewModuleMap->Distributor = NULL;
     if( InitChunk(&(NewModuleMap->Distributor)) != 0 )
     {
-- 
2.43.0


From f201f66e80dde57525e1e5be8e1efd4a858ab702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 41/46] fix: release everything when a TCP group cannot be set
 up

---
 tcpm.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index cfce37c..8b8e900 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -868,10 +868,15 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
     if( m->Incoming == INVALID_SOCKET )
     {
         ret = -357;
-        goto EXIT_1;
+        goto EXIT_2;
     }
 
-    m->Puller.Add(&(m->Puller), m->Incoming, NULL, 0);
+    if( m->Puller.Add(&(m->Puller), m->Incoming, NULL, 0) != 0 )
+    {
+        CLOSE_SOCKET(m->Incoming);
+        ret = -358;
+        goto EXIT_2;
+    }
 
     if( AddressList_Init(&(m->ServiceList)) != 0 )
     {
@@ -1003,6 +1008,7 @@ EXIT_9:
     m->ProxyPuller.FreeWithoutClose(&(m->ProxyPuller));
 EXIT_8:
     SafeFree(m->SocksProxies);
+    SafeFree(m->SocksProxyFamilies);
 EXIT_7:
     AddressList_Free(&(m->SocksProxyList));
 
@@ -1012,6 +1018,7 @@ EXIT_5:
     m->QueryPuller.FreeWithoutClose(&(m->QueryPuller));
 EXIT_4:
     SafeFree(m->Services);
+    SafeFree(m->ServiceFamilies);
 
 EXIT_3:
     AddressList_Free(&(m->ServiceList));
-- 
2.43.0


From c515afc94f8694dcae6f7ba7bd856c4ac0de6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 42/46] fix: release the new IP substitutions when they cannot
 be loaded, not those in force

---
 ipmisc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmisc.c b/ipmisc.c
index ce04ef3..23f6910 100755
--- a/ipmisc.c
+++ b/ipmisc.c
@@ -350,7 +350,7 @@ static int IpMiscMapping_Load(void)
     return 0;
 
 EXIT_2:
-    IPMisc_Free(CurrIpMiscMapping);
+    IPMisc_Free(IpMiscMapping);
 EXIT_1:
     SafeFree(IpMiscMapping);
 
-- 
2.43.0


From 5832273cf9fe9d8dd633469697ab551ed11f767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 43/46] fix: keep the hosts file when the disk is full

---
 downloader.c | 46 +++++++++++++++++++++++++++++++++-------------
 utils.c      | 10 ++++++++--
 utils.h      |  1 +
 3 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/downloader.c b/downloader.c
index 15fdc3c..99c49a5 100755
--- a/downloader.c
+++ b/downloader.c
@@ -28,6 +28,9 @@
 #include "downloader.h"
 #include "logs.h"
 
+/* Not all of the file could be written. */
+#define GET_FILE_INCOMPLETE (-2)
+
 int GetFromInternet_MultiFiles(const char   **URLs,
                                const char   *File,
                                int          RetryInterval,
@@ -62,14 +65,28 @@ int GetFromInternet_MultiFiles(const char   **URLs,
 
     while( *URLs != NULL )
     {
-        State |= !GetFromInternet_SingleFile(*URLs, TempFile, TRUE, RetryInterval, RetryTimes, ErrorCallBack, SuccessCallBack);
+        int Ret;
+
+        Ret = GetFromInternet_SingleFile(*URLs, TempFile, TRUE, RetryInterval, RetryTimes, ErrorCallBack, SuccessCallBack);
+        if( Ret == GET_FILE_INCOMPLETE )
+        {
+            State = FALSE;
+            break;
+        }
+
+        State |= !Ret;
 
         fp = fopen(TempFile, "a+");
-        if( fp != NULL )
+        if( fp == NULL )
+        {
+            State = FALSE;
+            break;
+        }
+
+        fputc('\n', fp);
+        if( fclose(fp) != 0 )
         {
-            fputc('\n', fp);
-            fclose(fp);
-        } else {
+            State = FALSE;
             break;
         }
 
@@ -98,6 +115,7 @@ int GetFromInternet_SingleFile(const char   *URL,
     if( strncmp(URL, "file", 4) == 0 )
     {
         char LocalPath[384];
+        int CopyState;
 
         if( GetLocalPathFromURL(URL, LocalPath, sizeof(LocalPath)) == NULL )
         {
@@ -109,14 +127,15 @@ int GetFromInternet_SingleFile(const char   *URL,
             return -1;
         }
 
-        if( CopyAFile(LocalPath, File, Append) != 0 )
+        CopyState = CopyAFile(LocalPath, File, Append);
+        if( CopyState != 0 )
         {
             if( ErrorCallBack != NULL )
             {
                 ErrorCallBack(0, URL, File);
             }
 
-            return -1;
+            return CopyState == COPY_FILE_INCOMPLETE ? GET_FILE_INCOMPLETE : -1;
         }
 
         if( SuccessCallBack != NULL )
@@ -148,14 +167,16 @@ int GetFromInternet_SingleFile(const char   *URL,
                     SuccessCallBack(URL, File);
                 }
 
-                if( CopyAFile(TempFile, File, Append) != 0 )
+                int CopyState = CopyAFile(TempFile, File, Append);
+
+                if( CopyState != 0 )
                 {
                     if( ErrorCallBack != NULL )
                     {
                         ErrorCallBack(0, URL, File);
                     }
 
-                    Ret = -1;
+                    Ret = CopyState == COPY_FILE_INCOMPLETE ? GET_FILE_INCOMPLETE : -1;
                     break;
                 } else {
                     Ret = 0;
@@ -190,8 +211,8 @@ static size_t WriteFileCallback(void *Contents,
                                 )
 {
     FILE *fp = (FILE *)FileDes;
-    fwrite(Contents, Size, nmemb, fp);
-    return Size * nmemb;
+    /* Anything less than all of it makes libcurl give up. */
+    return Size * fwrite(Contents, Size, nmemb, fp);
 }
 #endif /* DOWNLOAD_LIBCURL */
 
@@ -291,8 +312,7 @@ Exit_1:
         return -3;
     } else {
         curl_easy_cleanup(curl);
-        fclose(fp);
-        return 0;
+        return fclose(fp) == 0 ? 0 : -4;
     }
 #       endif /* DOWNLOAD_LIBCURL */
 #       ifdef DOWNLOAD_WGET
diff --git a/utils.c b/utils.c
index a549682..2bb97cc 100755
--- a/utils.c
+++ b/utils.c
@@ -1018,6 +1018,7 @@ char *GetLocalPathFromURL(const char *URL, char *Buffer, int BufferLength)
 int CopyAFile(const char *Src, const char *Dst, BOOL Append)
 {
     FILE *Src_Fp, *Dst_Fp;
+    BOOL Failed;
 
     Src_Fp = fopen(Src, "r");
     if( Src_Fp == NULL )
@@ -1045,10 +1046,15 @@ int CopyAFile(const char *Src, const char *Dst, BOOL Append)
 
     } while( TRUE );
 
+    Failed = ferror(Src_Fp) || ferror(Dst_Fp);
+
     fclose(Src_Fp);
-    fclose(Dst_Fp);
+    if( fclose(Dst_Fp) != 0 )
+    {
+        Failed = TRUE;
+    }
 
-    return 0;
+    return Failed ? COPY_FILE_INCOMPLETE : 0;
 }
 
 int FatalErrorDecideding(int LastError)
diff --git a/utils.h b/utils.h
index 3aca5b2..e4f5e3c 100755
--- a/utils.h
+++ b/utils.h
@@ -128,6 +128,7 @@ int ExpandPathTo(char *Buffer, int BufferLength, const char *String);
 
 char *GetLocalPathFromURL(const char *URL, char *Buffer, int BufferLength);
 
+#define COPY_FILE_INCOMPLETE (-3)
 int CopyAFile(const char *Src, const char *Dst, BOOL Append);
 
 int FatalErrorDecideding(int LastError);
-- 
2.43.0


From 7a77311ed691786cea5936575569000b1edd8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:13 +0000
Subject: [PATCH 44/46] fix: ask for a redirected name's target again in the
 way the question came

A question redirected twice went on as if it had come by UDP, even if its
first asker used TCP, and was answered by groups it is not meant for.
---
 hosts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hosts.c b/hosts.c
index 2f38c8d..2ebfc93 100755
--- a/hosts.c
+++ b/hosts.c
@@ -239,7 +239,7 @@ Hosts_SocketLoop(void *Unused)
                                          SOCKET_CONTEXT_LENGTH,
                                          OuterSocket,
                                          &OuterAddress,
-                                         MsgContext_IsFromTCP(InnerMsgCtx),
+                                         MsgContext_IsFromTCP(InnerMsgCtx) || InnerHeader->RequestTcp,
                                          NewIdentifier,
                                          RecursedDomain,
                                          InnerHeader->Type
-- 
2.43.0


From a389d664a3bf78dca9c4323a48ff09d27fc6e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:13 +0000
Subject: [PATCH 45/46] fix: skip exactly the rest of a line that is too long

Depending on its length the following line was lost as well, and the text
before an annotation that ends with the file was lost when it fills the
buffer.
---
 readline.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/readline.c b/readline.c
index 2fd69aa..95e7f0e 100755
--- a/readline.c
+++ b/readline.c
@@ -85,7 +85,8 @@ START:
             {
                 if( fgets(BlackHole, sizeof(BlackHole), fp) == NULL )
                 {
-                    return READ_FAILED_OR_END;
+                    /* Nothing is left of the annotation */
+                    break;
                 }
                 ReachedEnd = ReachedLineEnd(fp, BlackHole);
             }while( ReachedEnd == FALSE );
@@ -121,14 +122,16 @@ START:
 
 ReadLineStatus ReadLine_GoToNextLine(FILE *fp)
 {
-    ReadLineStatus Status;
     char Buffer[128];
 
     do
     {
-        Status = ReadLine(fp, Buffer, sizeof(Buffer));
+        if( fgets(Buffer, sizeof(Buffer), fp) == NULL )
+        {
+            return READ_FAILED_OR_END;
+        }
     }
-    while( Status == READ_TRUNCATED );
+    while( ReachedLineEnd(fp, Buffer) == FALSE );
 
-    return Status;
+    return READ_DONE;
 }
-- 
2.43.0


From 01b31ad32eb7c846737e4ffad087b42b6d088ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:13 +0000
Subject: [PATCH 46/46] fix: do not remove the hosts file before replacing it

Killed in between, the program was left without any hosts file.
---
 downloader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/downloader.c b/downloader.c
index 99c49a5..58c2ba5 100755
--- a/downloader.c
+++ b/downloader.c
@@ -95,7 +95,10 @@ int GetFromInternet_MultiFiles(const char   **URLs,
 
     if( State && TRUE )
     {
+#ifdef _WIN32
+        /* It does not replace a file there */
         remove(File);
+#endif
         rename(TempFile, File);
     }
 
-- 
2.43.0

