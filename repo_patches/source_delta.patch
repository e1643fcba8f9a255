From 9a91c756e365b645eedb42dfa8e74fb6c82fd222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 01/46] fix: resume a partial send after the bytes already sent

A short send() (for instance one interrupted by a signal) was continued from
the start of the buffer, duplicating the head and losing the tail of the data.
---
 src/conn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index c6cb978..aa61ac3 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -617,6 +617,7 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
@@ -672,6 +673,7 @@ int conn_send_to(struct conn_handle *conn, const uint8_t *buff,
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
-- 
2.43.0


From be528918899525d2f3dd3fe9bb7890033a247753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 02/46] fix: refuse to open a proxy without a password

---
 src/proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 64e4c53..5cd2b7b 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -673,6 +673,12 @@ int proxy_open(struct proxy_handle *ph)
 	if (ret < 0)
 		goto proxy_open_exit;
 
+	if (ph->conf.password == NULL) {
+		proxy_log(ph, LOG_LEVEL_FATAL, "Error: Missing password\n");
+		ret = -EINVAL;
+		goto proxy_open_exit;
+	}
+
 	if (ph->conf.calls_allowed != NULL) {
 		if (priv->re_calls_allowed == NULL) {
 			priv->re_calls_allowed = calloc(1,
-- 
2.43.0


From 7401eaa8afcc3141451e217094a2bea9c2c8705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 03/46] fix: replace the additional addresses when they are
 given again

---
 src/conf.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index e6058ba..9721a9a 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -378,15 +378,19 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		if (strncmp(key, "AdditionalExternalBindAddresses", key_len) == 0) {
 			size_t i, j;
 
-			if (conf->bind_addr_ext_add != NULL)
-				free(conf->bind_addr_ext_add);
+			if (conf->bind_addr_ext_add != NULL) {
+				for (i = 0; i < conf->bind_addr_ext_add_len; i++)
+					free(conf->bind_addr_ext_add[i]);
 
-			if (val_len == 0) {
+				free(conf->bind_addr_ext_add);
 				conf->bind_addr_ext_add = NULL;
-				conf->bind_addr_ext_add_len = 0;
-				break;
 			}
 
+			conf->bind_addr_ext_add_len = 0;
+
+			if (val_len == 0)
+				break;
+
 			for (i = 1; i < val_len; i++)
 				if (val[i] == ',')
 					conf->bind_addr_ext_add_len++;
@@ -396,8 +400,10 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			conf->bind_addr_ext_add = calloc(
 				conf->bind_addr_ext_add_len,
 				sizeof(*conf->bind_addr_ext_add));
-			if (conf->bind_addr_ext_add == NULL)
+			if (conf->bind_addr_ext_add == NULL) {
+				conf->bind_addr_ext_add_len = 0;
 				return -ENOMEM;
+			}
 
 			for (i = 0, j = 0; i < conf->bind_addr_ext_add_len; i++) {
 				size_t k = j;
-- 
2.43.0


From 81037fa2fd4a073cb8169d9f28190bc533e107a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 04/46] fix: reject out-of-range numbers in the configuration

---
 src/conf.c | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 9721a9a..5dd849b 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -92,6 +92,19 @@ static int conf_parse_pair(const char *key, size_t key_len,
 static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 			     struct log_handle *log);
 
+/*!
+ * @brief Parse an entire configuration value as a decimal number
+ *
+ * @param[in] val Configuration value
+ * @param[in] val_len Length of val in characters
+ * @param[in] max Largest acceptable number
+ * @param[out] result Resulting number
+ *
+ * @returns 0 on success, negative ERRNO value on failure
+ */
+static int conf_parse_uint(const char *val, size_t val_len, uint32_t max,
+			   uint32_t *result);
+
 /*!
  * @brief Cross-platform implementation of the getline function
  *
@@ -194,22 +207,47 @@ static int conf_parse_line(const char *line, struct proxy_conf *conf,
 	return conf_parse_pair(key, key_len, val, val_len, conf, log);
 }
 
+static int conf_parse_uint(const char *val, size_t val_len, uint32_t max,
+			   uint32_t *result)
+{
+	uint64_t num = 0;
+	size_t i;
+
+	if (val_len == 0)
+		return -EINVAL;
+
+	for (i = 0; i < val_len; i++) {
+		if (val[i] < '0' || val[i] > '9')
+			return -EINVAL;
+
+		num = num * 10 + (uint64_t)(val[i] - '0');
+		if (num > max)
+			return -ERANGE;
+	}
+
+	*result = (uint32_t)num;
+
+	return 0;
+}
+
 static int conf_parse_pair(const char *key, size_t key_len,
 			   const char *val, size_t val_len,
 			   struct proxy_conf *conf, struct log_handle *log)
 {
-	char dummy[2];
+	uint32_t num;
 
 	switch (key_len) {
 	case 4:
 		if (strncmp(key, "Port", key_len) == 0) {
-			if (sscanf(val, "%hu%1s", &conf->port, dummy) != 1) {
+			if (conf_parse_uint(val, val_len, UINT16_MAX, &num) < 0) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'Port': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->port = (uint16_t)num;
 		}
 
 		break;
@@ -330,13 +368,15 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		break;
 	case 17:
 		if (strncmp(key, "ConnectionTimeout", key_len) == 0) {
-			if (sscanf(val, "%u%1s", &conf->connection_timeout, dummy) != 1) {
+			if (conf_parse_uint(val, val_len, UINT32_MAX, &num) < 0) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'ConnectionTimeout': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->connection_timeout = num;
 		}
 
 		break;
-- 
2.43.0


From 76e595e03440798761ebb92e68bf770900407f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 05/46] fix: release the log medium which is being switched
 away from

---
 src/log.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index 1616307..0de9120 100644
--- a/src/log.c
+++ b/src/log.c
@@ -203,13 +203,14 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 		      const char *target)
 {
 	struct log_priv *priv = log->priv;
+	const enum LOG_MEDIUM old_medium = log->medium;
 	int ret = 0;
 
 	/* Open the new medium */
 	switch (medium) {
 	case LOG_MEDIUM_NONE:
 		log->medium = LOG_MEDIUM_NONE;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
@@ -227,12 +228,14 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 				priv->medium_eventlog.handle = NULL;
 			}
 
+			break;
+		default:
 			break;
 		}
 		break;
 	case LOG_MEDIUM_STDOUT:
 		log->medium = LOG_MEDIUM_STDOUT;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
-- 
2.43.0


From 7e75994d385c5b15313f298f2581f7ccd801cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 06/46] fix: close the socket when listening or connecting
 fails

---
 src/conn.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index aa61ac3..b8fae14 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -235,34 +235,30 @@ int conn_listen(struct conn_handle *conn)
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 #ifdef __APPLE__
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 #endif
 
 	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 	if (conn->type == CONN_TYPE_TCP) {
 		ret = listen(priv->sock_fd, 0);
 		if (ret == SOCKET_ERROR) {
-			/*! @TODO Close priv->sock_fd */
 			ret = SOCK_ERRNO;
-			goto conn_listen_free;
+			goto conn_listen_close;
 		}
 	}
 
@@ -272,6 +268,15 @@ int conn_listen(struct conn_handle *conn)
 
 	mutex_unlock(&priv->mutex);
 
+	freeaddrinfo(res);
+
+	return 0;
+
+conn_listen_close:
+	closesocket(priv->sock_fd);
+
+	priv->sock_fd = INVALID_SOCKET;
+
 conn_listen_free:
 	freeaddrinfo(res);
 
@@ -398,7 +403,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 
 #ifdef __APPLE__
@@ -406,7 +411,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 #endif
 
-- 
2.43.0


From 33652aff46f2246536db0c937810ff765b9d0330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 07/46] fix: keep receiving after an empty datagram

---
 src/conn.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index b8fae14..5a5d716 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -551,8 +551,6 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 	struct conn_priv *priv = conn->priv;
 	int ret;
 
-	priv->remote_addr_len = sizeof(priv->remote_addr);
-
 	mutex_lock_shared(&priv->mutex);
 
 	if (priv->fd == INVALID_SOCKET) {
@@ -561,9 +559,15 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 		goto conn_recv_any_exit;
 	}
 
-	ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
-		       (struct sockaddr *)&priv->remote_addr,
-		       &priv->remote_addr_len);
+	/* An empty datagram has a sender, but a closed connection does not */
+	do {
+		priv->remote_addr_len = sizeof(priv->remote_addr);
+
+		ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
+			       (struct sockaddr *)&priv->remote_addr,
+			       &priv->remote_addr_len);
+	} while (ret == 0 && conn->type == CONN_TYPE_UDP &&
+		 priv->remote_addr_len > 0);
 
 	if (ret == 0) {
 		ret = -EPIPE;
-- 
2.43.0


From 0d2865dc621643358a62a2870d4ac8aab922e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 08/46] fix: report the remote port in host byte order

---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 5a5d716..d6a3a0a 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -816,7 +816,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		inet_ntop(addr->sin_family, &addr->sin_addr.s_addr, dest, 46);
 		dest += strlen(dest);
 		dest[0] = ':';
-		conn_port_to_str(addr->sin_port, dest + 1);
+		conn_port_to_str(ntohs(addr->sin_port), dest + 1);
 		break;
 	case AF_INET6:
 		dest[0] = '[';
@@ -825,7 +825,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		dest += strlen(dest);
 		dest[0] = ']';
 		dest[1] = ':';
-		conn_port_to_str(addr6->sin6_port, dest + 2);
+		conn_port_to_str(ntohs(addr6->sin6_port), dest + 2);
 		break;
 	default:
 		strcpy(dest, "(unknown)");
-- 
2.43.0


From 1c6cfbbeca70ba0c5d876632dfccdb847bb73368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 09/46] fix: finish the previous TCP connection before opening
 another

---
 src/proxy_conn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 8476133..c1878eb 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -725,6 +725,10 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		return -EINVAL;
 	}
 
+	/* Make sure that any previous connection is completely finished */
+	conn_close(&priv->conn_tcp);
+	worker_wait_idle(&priv->worker_tcp);
+
 	/* Attempt to connect */
 	ret = conn_connect(&priv->conn_tcp, (const char *)addr, "5200");
 	if (ret < 0) {
-- 
2.43.0


From b3a85ef8e79a3646af39de28d57d2085282b916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 10/46] fix: send the TCP status before any data from the
 connection

---
 src/proxy_conn.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index c1878eb..81cef86 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -735,7 +735,12 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		proxy_log(pc->ph, LOG_LEVEL_WARN,
 			  "Failed to open TCP connection for client '%s' (%d): %s\n",
 			  priv->callsign, -ret, strerror(-ret));
-	} else {
+	}
+
+	/* The status must be sent before anything from the new connection */
+	mutex_lock(&priv->mutex_client_send);
+
+	if (ret >= 0) {
 		/* Connection succeeded - signal the thread */
 		ret = worker_wake(&priv->worker_tcp);
 		if (ret < 0)
@@ -754,8 +759,6 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		  "Sending TCP_STATUS message (%d) to client '%s'\n",
 		  ret, priv->callsign);
 
-	mutex_lock(&priv->mutex_client_send);
-
 	ret = conn_send(priv->conn_client, status_buf,
 			sizeof(*status_msg) + status_msg->size);
 
-- 
2.43.0


From a1371a8a6661162c9bf920666b5ef6ba11fcb31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 11/46] fix: wait for shared holders when returning from a
 condition

---
 src/mutex_posix.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index 3469e69..3e8ff5d 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -231,8 +231,15 @@ int condvar_wait(struct condvar_handle *condvar, struct mutex_handle *mutex)
 {
 	struct condvar_priv *priv = condvar->priv;
 	struct mutex_priv *mpriv = mutex->priv;
+	int ret;
+
+	ret = pthread_cond_wait(&priv->cond, &mpriv->lock);
+
+	/* Reacquire the exclusive lock */
+	while (mpriv->readers > 0)
+		pthread_cond_wait(&mpriv->cond, &mpriv->lock);
 
-	return -pthread_cond_wait(&priv->cond, &mpriv->lock);
+	return -ret;
 }
 
 int condvar_wait_time(struct condvar_handle *condvar,
@@ -249,6 +256,11 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	abstime.tv_nsec %= 1000000000;
 
 	ret = pthread_cond_timedwait(&priv->cond, &mpriv->lock, &abstime);
+
+	/* Reacquire the exclusive lock */
+	while (mpriv->readers > 0)
+		pthread_cond_wait(&mpriv->cond, &mpriv->lock);
+
 	return ret == ETIMEDOUT ? 1 : -ret;
 }
 
-- 
2.43.0


From 2a10d4012d424fdda5fc47d0468e15069c378a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 12/46] fix: leave the worker stopped if its thread fails to
 start

---
 src/worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 5ecf36d..a4f20b0 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -260,6 +260,8 @@ int worker_start(struct worker_handle *wh)
 	if (priv->state <= WORKER_STOPPED) {
 		priv->state = WORKER_STARTING;
 		ret = thread_start(&priv->thread);
+		if (ret < 0)
+			priv->state = WORKER_STOPPED;
 	}
 
 	mutex_unlock(&priv->mutex);
-- 
2.43.0


From 82cfd124dea453625832d793624263ffd2c59153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 13/46] fix: allow registration without a comment

---
 src/registration.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/registration.c b/src/registration.c
index df6d7ce..e47f309 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -325,7 +325,8 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->public = strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
 
 	priv->reg_name = conf->reg_name;
-	priv->reg_comment = conf->reg_comment;
+	priv->reg_comment = conf->reg_comment == NULL ?
+			    "" : conf->reg_comment;
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-- 
2.43.0


From 5db5728a2d562b016b729c3510764c110d233848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 14/46] fix: make room for the registration name in the check
 value

---
 src/registration.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/registration.c b/src/registration.c
index e47f309..9bf7175 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -330,8 +330,8 @@ int registration_service_start(struct registration_service_handle *rs,
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-	reg_suffix = malloc(strlen(public_addr) + (2 * DIGEST_LEN) +
-			    sizeof(protocol_version) + 18);
+	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
+			    (2 * DIGEST_LEN) + sizeof(protocol_version) + 18);
 	if (reg_suffix == NULL) {
 		ret = -ENOMEM;
 		goto registration_service_start_end;
-- 
2.43.0


From 0a10b1a14d1eac2a64ab92af85ec57fe80616892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 15/46] fix: terminate the string form of a digest

---
 src/digest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/digest.c b/src/digest.c
index 978ee70..c73933c 100644
--- a/src/digest.c
+++ b/src/digest.c
@@ -137,6 +137,8 @@ void digest_to_str(const uint8_t md5[DIGEST_LEN],
 
 	for (i = 0; i < DIGEST_LEN; i++, result += 2)
 		digest_to_hex8_u(md5[i], result);
+
+	*result = '\0';
 }
 
 static uint8_t hex4_to_digest(char data)
-- 
2.43.0


From a2ce2a789ed3850f468e7eb4f1e796d82d82e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 16/46] fix: do not keep a freed suffix when registration fails
 to start

---
 src/registration.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/registration.c b/src/registration.c
index 9bf7175..f7292cd 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -328,8 +328,8 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->reg_comment = conf->reg_comment == NULL ?
 			    "" : conf->reg_comment;
 
-	if (priv->reg_suffix != NULL)
-		free((void *)priv->reg_suffix);
+	free(priv->reg_suffix);
+	priv->reg_suffix = NULL;
 	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
 			    (2 * DIGEST_LEN) + sizeof(protocol_version) + 18);
 	if (reg_suffix == NULL) {
-- 
2.43.0


From 29656aba501033c1a807ca78b4a3574067e87f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 17/46] fix: report to the registrar after being started again

---
 src/proxy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 5cd2b7b..5bfc26d 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1070,7 +1070,6 @@ int proxy_start(struct proxy_handle *ph)
 	priv->usable_clients = priv->num_clients;
 	mutex_unlock(&priv->usable_clients_mutex);
 
-	proxy_update_registration(ph);
 	ret = registration_service_start(&priv->reg_service, &ph->conf);
 	if (ret < 0) {
 		proxy_log(ph, LOG_LEVEL_FATAL,
@@ -1079,6 +1078,8 @@ int proxy_start(struct proxy_handle *ph)
 		goto proxy_start_exit;
 	}
 
+	proxy_update_registration(ph);
+
 	return 0;
 
 proxy_start_exit:
-- 
2.43.0


From e5ff259f88979e6d523df8a64d70f1ea50429ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 18/46] fix: update the registration after a client failed to
 authorize

---
 src/proxy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 5bfc26d..b76d71e 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -356,6 +356,8 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_workers_head = pw;
 		mutex_unlock(&priv->idle_workers_mutex);
 
+		proxy_update_registration(pw->ph);
+
 		return;
 	}
 
-- 
2.43.0


From 550bb8d4fd361ec585a895091bff78b7fb4cc327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 19/46] fix: never let an outdated slot count be reported last

---
 src/proxy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index b76d71e..0a5df81 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1107,12 +1107,10 @@ void proxy_update_registration(struct proxy_handle *ph)
 	mutex_lock_shared(&priv->usable_clients_mutex);
 	slots_total = priv->usable_clients;
 	slots_used = priv->num_clients;
-	mutex_unlock_shared(&priv->usable_clients_mutex);
 
 	mutex_lock_shared(&priv->idle_workers_mutex);
 	for (pw = priv->idle_workers_head; pw != NULL; pw = pw->next)
 		slots_used--;
-	mutex_unlock_shared(&priv->idle_workers_mutex);
 
 	proxy_log(ph, LOG_LEVEL_DEBUG,
 		  "Sending update to registrar (%d/%d)\n",
@@ -1120,4 +1118,8 @@ void proxy_update_registration(struct proxy_handle *ph)
 
 	registration_service_update(&priv->reg_service, slots_used,
 				    slots_total);
+
+	/* Hold these until now so that an older count can't follow this one */
+	mutex_unlock_shared(&priv->idle_workers_mutex);
+	mutex_unlock_shared(&priv->usable_clients_mutex);
 }
-- 
2.43.0


From d978da322bd2d187aa48e562efa15be69bef2a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 20/46] fix: do not wait forever for the registrar to respond

---
 src/registration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/registration.c b/src/registration.c
index f7292cd..2a22012 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -65,6 +65,9 @@
 /*! Update (at least) every 10 minutes */
 #define UPDATE_INTERVAL 600000
 
+/*! Wait no longer than 5 seconds for data in a response */
+#define RESPONSE_TIMEOUT 5000
+
 /*!
  * @brief Possible statuses of a proxy server to report to registrar
  */
@@ -227,6 +230,10 @@ static int send_report(struct registration_service_handle *rs,
 	if (ret < 0)
 		goto registration_update_exit;
 
+	ret = conn_set_timeout(&conn, RESPONSE_TIMEOUT);
+	if (ret < 0)
+		goto registration_update_exit;
+
 	ret = conn_send(&conn, (uint8_t *)message_header, header_length);
 	if (ret < 0)
 		goto registration_update_exit;
-- 
2.43.0


From 4df847cf2708965e637293e999deb2f36635f99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 21/46] fix: drop clients which are not authorized yet

---
 src/proxy.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 0a5df81..aad48a6 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -901,6 +901,16 @@ void proxy_drop(struct proxy_handle *ph)
 
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Dropping all clients...\n");
 
+	for (i = 0; i < priv->num_clients; i++) {
+		struct proxy_worker *pw = &priv->client_workers[i];
+
+		/* This client might not be authorized yet */
+		mutex_lock_shared(&pw->mutex);
+		if (pw->conn_client != NULL)
+			conn_drop(pw->conn_client);
+		mutex_unlock_shared(&pw->mutex);
+	}
+
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_conn_drop(&priv->clients[i]);
 }
-- 
2.43.0


From 3d3369b9de81508717a93d15c2e38454bf800bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 22/46] fix: do not hand over a client during a shutdown

---
 src/proxy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index aad48a6..9a19381 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -999,6 +999,10 @@ int proxy_process(struct proxy_handle *ph)
 		priv->idle_workers_head = worker->next;
 	}
 	mutex_unlock(&priv->idle_workers_mutex);
+
+	/* After a shutdown, no worker may be given another client */
+	if (worker != NULL)
+		ret = proxy_worker_accept(worker, conn);
 	mutex_unlock_shared(&priv->usable_clients_mutex);
 
 	if (worker == NULL) {
@@ -1008,7 +1012,6 @@ int proxy_process(struct proxy_handle *ph)
 		goto conn_process_exit;
 	}
 
-	ret = proxy_worker_accept(worker, conn);
 	if (ret < 0)
 		goto conn_process_exit;
 
-- 
2.43.0


From df22cd83fcc116e527385c8713f9ae8b1b2b6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 23/46] fix: do not let a remote host delay dropping a client

---
 src/conn.c       | 52 ++++++++++++++++++++++++++++++++----------------
 src/proxy_conn.c |  6 +++++-
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index d6a3a0a..b9656f8 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -363,6 +363,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	struct addrinfo *res = NULL;
 	struct addrinfo *res_remote = NULL;
 	static const int yes = 1;
+	SOCKET fd;
 	int ret;
 
 	if (conn->type != CONN_TYPE_TCP)
@@ -392,14 +393,14 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 		goto conn_connect_free_early;
 	}
 
-	priv->sock_fd = socket(res->ai_family, res->ai_socktype,
+	fd = socket(res->ai_family, res->ai_socktype,
 			       res->ai_protocol);
-	if (priv->sock_fd == INVALID_SOCKET) {
+	if (fd == INVALID_SOCKET) {
 		ret = SOCK_ERRNO;
 		goto conn_connect_free_early;
 	}
 
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
+	ret = setsockopt(fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
@@ -407,7 +408,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	}
 
 #ifdef __APPLE__
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
+	ret = setsockopt(fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
@@ -415,36 +416,53 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	}
 #endif
 
-	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
+	ret = bind(fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
 		goto conn_connect_free;
 	}
 
-	ret = connect(priv->sock_fd, res_remote->ai_addr,
+	/* Allow the connection attempt to be interrupted */
+	mutex_lock(&priv->mutex);
+
+	priv->sock_fd = fd;
+
+	mutex_unlock(&priv->mutex);
+
+	ret = connect(fd, res_remote->ai_addr,
 		      (socklen_t)res_remote->ai_addrlen);
-	if (ret == SOCKET_ERROR) {
+	if (ret == SOCKET_ERROR)
 		ret = SOCK_ERRNO;
-		goto conn_connect_free;
-	}
-
-	freeaddrinfo(res_remote);
-	freeaddrinfo(res);
 
 	mutex_lock(&priv->mutex);
 
-	priv->fd = priv->sock_fd;
+	if (priv->sock_fd != fd) {
+		/* The connection was closed in the meantime */
+		fd = INVALID_SOCKET;
+		if (ret >= 0)
+			ret = -ENOTCONN;
+	} else if (ret >= 0) {
+		priv->fd = fd;
+	} else {
+		priv->sock_fd = INVALID_SOCKET;
+	}
 
 	mutex_unlock(&priv->mutex);
 
+	if (ret < 0)
+		goto conn_connect_free;
+
+	freeaddrinfo(res_remote);
+	freeaddrinfo(res);
+
 	return 0;
 
 conn_connect_free:
-	shutdown(priv->sock_fd, SHUT_RDWR);
+	if (fd != INVALID_SOCKET) {
+		shutdown(fd, SHUT_RDWR);
 
-	closesocket(priv->sock_fd);
-
-	priv->sock_fd = INVALID_SOCKET;
+		closesocket(fd);
+	}
 
 conn_connect_free_early:
 	if (res_remote != NULL)
diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 81cef86..38a7eda 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -860,9 +860,13 @@ void proxy_conn_drop(struct proxy_conn_handle *pc)
 
 	mutex_lock_shared(&priv->mutex_client);
 
-	if (priv->conn_client != NULL)
+	if (priv->conn_client != NULL) {
 		conn_drop(priv->conn_client);
 
+		/* The client might be waiting for the remote host */
+		conn_shutdown(&priv->conn_tcp);
+	}
+
 	mutex_unlock_shared(&priv->mutex_client);
 }
 
-- 
2.43.0


From f5cf6d63738c0f0b4b74ed56a5304a7c3cb62b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 24/46] fix: do not reconnect to a slot which is not in the
 pool

---
 src/proxy.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 9a19381..005fea0 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -378,9 +378,13 @@ static void proxy_worker_func(struct worker_handle *wh)
 	pc = priv->clients_by_call[hash];
 	/* First, check for a reconnect */
 	while (pc != NULL) {
-		ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);
-		if (ret != -EBUSY)
-			break;
+		/* Only consider slots which are back in the pool */
+		if (pc->prev_ptr != NULL) {
+			ret = proxy_conn_accept(pc, pw->conn_client,
+						pw->callsign, 1);
+			if (ret != -EBUSY)
+				break;
+		}
 		pc = pc->next_by_call;
 	}
 	/* Fall back on the oldest available slot */
@@ -402,6 +406,7 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_clients_tail_ptr = pc->prev_ptr;
 	else
 		pc->next->prev_ptr = pc->prev_ptr;
+	pc->prev_ptr = NULL;
 
 	/* Remove the slot from the hash map */
 	if (pc->prev_by_call_ptr != NULL) {
-- 
2.43.0


From 82a517c407cd594b78587091377104949cae0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 25/46] fix: send only errors to standard error

---
 src/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.c b/src/log.c
index 0de9120..773aff8 100644
--- a/src/log.c
+++ b/src/log.c
@@ -386,7 +386,7 @@ void log_vprintf(struct log_handle *log, enum LOG_LEVEL lvl,
 
 	switch (log->medium) {
 	case LOG_MEDIUM_STDOUT:
-		if (lvl >= LOG_LEVEL_ERROR) {
+		if (lvl <= LOG_LEVEL_ERROR) {
 			vfprintf(stderr, fmt, args);
 			fflush(stderr);
 		} else {
-- 
2.43.0


From aec489058e0f6084ecb7f1233945a0d4bbf3a740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 26/46] fix: keep the time stamp and message together in the
 log file

---
 src/log.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log.c b/src/log.c
index 773aff8..209aed4 100644
--- a/src/log.c
+++ b/src/log.c
@@ -64,6 +64,8 @@
 
 #ifdef _WIN32
 #  define localtime_r(timep, result) (localtime_s(result, timep) == 0 ? result : NULL)
+#  define flockfile(fp) _lock_file(fp)
+#  define funlockfile(fp) _unlock_file(fp)
 #endif
 
 /*!
@@ -404,10 +406,14 @@ void log_vprintf(struct log_handle *log, enum LOG_LEVEL lvl,
 			time(&epoch);
 			localtime_r(&epoch, &cal_time);
 			strftime(tstamp, 16, "%b %d %H:%M:%S", &cal_time);
+
+			/* Don't let another thread separate these */
+			flockfile(priv->medium_file.fp);
 			fprintf(priv->medium_file.fp, "%s : ", tstamp);
 
 			vfprintf(priv->medium_file.fp, fmt, args);
 			fflush(priv->medium_file.fp);
+			funlockfile(priv->medium_file.fp);
 		}
 
 		break;
-- 
2.43.0


From 98b1c94e6f33340b80be1d04bfb5662f25250809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 27/46] fix: keep the standard descriptors in use after
 daemonizing

---
 src/proxyd.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index bf83790..04d6838 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -54,6 +54,7 @@
 #  include <io.h>
 #  include <windows.h>
 #else
+#  include <fcntl.h>
 #  include <signal.h>
 #  include <sys/stat.h>
 #endif
@@ -278,6 +279,7 @@ int main(int argc, const char * const argv[])
 	if (!opts.foreground) {
 		pid_t pid;
 		pid_t sid;
+		int null_fd;
 
 		pid = fork();
 
@@ -332,9 +334,22 @@ int main(int argc, const char * const argv[])
 			goto proxyd_exit;
 		}
 
-		close(STDIN_FILENO);
-		close(STDOUT_FILENO);
-		close(STDERR_FILENO);
+		/* Keep these in use so that sockets don't take their place */
+		null_fd = open("/dev/null", O_RDWR);
+		if (null_fd < 0) {
+			proxy_log(&ph, LOG_LEVEL_FATAL,
+				  "Failed to open /dev/null (%d): %s\n",
+				  errno, strerror(errno));
+			ret = errno;
+			goto proxyd_exit;
+		}
+
+		dup2(null_fd, STDIN_FILENO);
+		dup2(null_fd, STDOUT_FILENO);
+		dup2(null_fd, STDERR_FILENO);
+
+		if (null_fd > STDERR_FILENO)
+			close(null_fd);
 	} else
 #endif
 	{
-- 
2.43.0


From 64b4e9e209b0b642c0f532d2d70e7b0dadd3af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 28/46] fix: handle signals in a thread instead of in a signal
 handler

---
 src/proxyd.c | 101 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 79 insertions(+), 22 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index 04d6838..0581585 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -55,6 +55,7 @@
 #  include <windows.h>
 #else
 #  include <fcntl.h>
+#  include <pthread.h>
 #  include <signal.h>
 #  include <sys/stat.h>
 #endif
@@ -110,7 +111,18 @@ struct proxy_opts {
 static struct proxy_handle ph;
 
 /*! Program termination indicator */
-static uint8_t sentinel;
+static volatile sig_atomic_t sentinel;
+
+#ifndef _WIN32
+/*! New clients are no longer accepted */
+static volatile sig_atomic_t draining;
+
+/*! The signal handling thread is no longer needed */
+static volatile sig_atomic_t signals_done;
+
+/*! Signals which are handled by ::handle_signals */
+static sigset_t signals;
+#endif
 
 #ifdef _WIN32
 /*!
@@ -123,13 +135,23 @@ static uint8_t sentinel;
 static BOOL WINAPI graceful_shutdown(DWORD ctrl_type);
 #else
 /*!
- * @brief Callback which is used to shut down the EchoLink proxy
+ * @brief Shut down the EchoLink proxy in response to a signal
  *
  * @param[in] signum Signal number
- * @param[in] info Extra signal information
- * @param[in] ptr Signal handler context
  */
-static void graceful_shutdown(int signum, siginfo_t *info, void *ptr);
+static void graceful_shutdown(int signum);
+
+/*!
+ * @brief Thread function which waits for signals
+ *
+ * A signal can interrupt any thread at any point, so the proxy can't be shut
+ * down from within a signal handler.
+ *
+ * @param[in,out] ctx Unused
+ *
+ * @returns Always returns NULL
+ */
+static void *handle_signals(void *ctx);
 #endif
 
 /*!
@@ -182,18 +204,28 @@ static BOOL WINAPI graceful_shutdown(DWORD ctrl_type)
 	return FALSE;
 }
 #else
-/*! @TODO Make this async-signal-safe */
-static void graceful_shutdown(int signum, siginfo_t *info, void *ptr)
+static void graceful_shutdown(int signum)
 {
 	proxy_log(&ph, LOG_LEVEL_INFO, "Caught signal\n");
-	(void)info;
-	(void)ptr;
+
+	draining = 1;
 
 	if (signum == SIGTERM || signum == SIGINT)
 		sentinel = 1;
 
-	if (signum == SIGTERM || signum == SIGINT || signum == SIGUSR1)
-		proxy_shutdown(&ph);
+	proxy_shutdown(&ph);
+}
+
+static void *handle_signals(void *ctx)
+{
+	int signum;
+
+	(void)ctx;
+
+	while (sigwait(&signals, &signum) == 0 && !signals_done)
+		graceful_shutdown(signum);
+
+	return NULL;
 }
 #endif
 
@@ -202,14 +234,12 @@ int main(int argc, const char * const argv[])
 	struct proxy_opts opts;
 
 #ifndef _WIN32
-	struct sigaction sigact;
+	pthread_t signal_thread;
+	int signal_thread_started = 0;
 #endif
 	int ret;
 
 	memset(&opts, 0x0, sizeof(opts));
-#ifndef _WIN32
-	memset(&sigact, 0x0, sizeof(sigact));
-#endif
 	memset(&ph, 0x0, sizeof(ph));
 
 	parse_args(argc, argv, &opts);
@@ -222,13 +252,16 @@ int main(int argc, const char * const argv[])
 	}
 
 #ifndef _WIN32
-	/* Handle SIGINT/SIGTERM */
-	sigact.sa_sigaction = graceful_shutdown;
-	sigact.sa_flags |= SA_SIGINFO;
-
-	sigaction(SIGINT, &sigact, NULL);
-	sigaction(SIGTERM, &sigact, NULL);
-	sigaction(SIGUSR1, &sigact, NULL);
+	/* Hold these until the signal thread can handle them */
+	signal(SIGINT, SIG_DFL);
+	signal(SIGTERM, SIG_DFL);
+	signal(SIGUSR1, SIG_DFL);
+
+	sigemptyset(&signals);
+	sigaddset(&signals, SIGINT);
+	sigaddset(&signals, SIGTERM);
+	sigaddset(&signals, SIGUSR1);
+	pthread_sigmask(SIG_BLOCK, &signals, NULL);
 #else
 	if (!SetConsoleCtrlHandler(graceful_shutdown, TRUE))
 		fprintf(stderr, "Failed to set signal handler (%d)\n",
@@ -396,6 +429,18 @@ int main(int argc, const char * const argv[])
 		goto proxyd_exit;
 	}
 
+#ifndef _WIN32
+	ret = pthread_create(&signal_thread, NULL, handle_signals, NULL);
+	if (ret != 0) {
+		proxy_log(&ph, LOG_LEVEL_FATAL,
+			  "Failed to start signal thread (%d): %s\n",
+			  ret, strerror(ret));
+		goto proxyd_exit;
+	}
+
+	signal_thread_started = 1;
+#endif
+
 	proxy_log(&ph, LOG_LEVEL_INFO, "Ready.\n");
 
 	/* Main dispatch loop */
@@ -403,6 +448,10 @@ int main(int argc, const char * const argv[])
 		proxy_log(&ph, LOG_LEVEL_DEBUG,
 			  "Starting a processing run...\n");
 		ret = proxy_process(&ph);
+#ifndef _WIN32
+		if (draining)
+			ret = -EINTR;
+#endif
 		if (ret < 0) {
 			switch (ret) {
 			case -EINTR:
@@ -430,6 +479,14 @@ int main(int argc, const char * const argv[])
 	proxy_log(&ph, LOG_LEVEL_INFO, "Shutting down...\n");
 
 proxyd_exit:
+#ifndef _WIN32
+	if (signal_thread_started) {
+		signals_done = 1;
+		pthread_kill(signal_thread, SIGUSR1);
+		pthread_join(signal_thread, NULL);
+	}
+#endif
+
 	proxy_free(&ph);
 
 #ifdef _WIN32
-- 
2.43.0


From 6c46c42bc649b2697ecd2780352d0e6765dc32c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 29/46] fix: forget the idle workers only after they are joined

---
 src/proxy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 005fea0..9f98e13 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -874,9 +874,10 @@ void proxy_close(struct proxy_handle *ph)
 
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Closing client connections...\n");
 
-	priv->idle_workers_head = NULL;
+	/* The workers return to the pool until they have been joined */
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
+	priv->idle_workers_head = NULL;
 
 	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
 	priv->idle_clients_head = NULL;
-- 
2.43.0


From 25a05e767f26cce617197a0f902ed6a0934bcc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 30/46] fix: keep every additional address when the first entry
 is empty

---
 src/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 5dd849b..d6713e3 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -431,7 +431,7 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			if (val_len == 0)
 				break;
 
-			for (i = 1; i < val_len; i++)
+			for (i = 0; i < val_len; i++)
 				if (val[i] == ',')
 					conf->bind_addr_ext_add_len++;
 
-- 
2.43.0


From 2d340ec9f42b7a873303783a930d6d4ae2ef1df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 31/46] fix: fail to load a configuration file which can't be
 read to its end

---
 src/conf.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index d6713e3..80746dc 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -112,7 +112,8 @@ static int conf_parse_uint(const char *val, size_t val_len, uint32_t max,
  * @param[in,out] n Number of bytes in buffer
  * @param[in] stream File stream to read from
  *
- * @returns 0 on success, negative ERRNO value on failure
+ * @returns Number of bytes read, 0 at the end of the file, negative ERRNO value
+ *          on failure
  */
 static int conf_readline(char **lineptr, size_t *n, FILE *stream);
 
@@ -154,6 +155,9 @@ static int conf_readline(char **lineptr, size_t *n, FILE *stream)
 			break;
 	}
 
+	if (temp == EOF && ferror(stream))
+		return -EIO;
+
 	(*lineptr)[so_far] = '\0';
 
 	return (int)so_far;
@@ -486,7 +490,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 	size_t line_len = 0;
 	int ret = 0;
 
-	while (conf_readline(&line, &line_len, stream) > 0) {
+	while ((ret = conf_readline(&line, &line_len, stream)) > 0) {
 		ret = conf_parse_line(line, conf, log);
 
 		free(line);
@@ -498,7 +502,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 
 	free(line);
 
-	return 0;
+	return ret;
 }
 
 int conf_init(struct proxy_conf *conf)
-- 
2.43.0


From b5be9828ce71d8f96006eaa7d636f32c65ca9dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 32/46] fix: close the client's previous connection before
 connecting again

---
 src/proxy_client.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy_client.c b/src/proxy_client.c
index 3d01c5c..f4fbcd5 100644
--- a/src/proxy_client.c
+++ b/src/proxy_client.c
@@ -73,6 +73,9 @@ int proxy_client_connect(struct proxy_client_handle *ch)
 	if (password == NULL)
 		password = "PUBLIC";
 
+	/* Make sure that any previous connection is closed */
+	conn_close(&priv->conn);
+
 	ret = conn_connect(&priv->conn, ch->host_addr, ch->host_port);
 	if (ret < 0)
 		goto proxy_client_connection_exit;
-- 
2.43.0


From 18e7c6a1bd003d72f3bb134b302a2106aeafa21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 33/46] fix: report a failure to allocate memory for the
 password response

---
 src/proxy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 9f98e13..2fe5c7a 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1042,6 +1042,9 @@ int get_password_response(uint32_t nonce, const char *password,
 	uint8_t *pass_with_nonce = malloc(pass_with_nonce_len);
 	char *iter = (char *)pass_with_nonce;
 
+	if (pass_with_nonce == NULL)
+		return -ENOMEM;
+
 	while (*password != '\0') {
 		if (*password >= 97 && *password <= 122)
 			*iter = *password - 32;
-- 
2.43.0


From ff53020d140d24f4f966cd814ae2ce6ccfa5b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 34/46] fix: report a failure to initialize a proxy connection

---
 src/proxy_conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 38a7eda..ca805a4 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -994,7 +994,7 @@ proxy_conn_init_exit:
 	free(pc->priv);
 	pc->priv = NULL;
 
-	return 0;
+	return ret;
 }
 
 int proxy_conn_in_use(struct proxy_conn_handle *pc)
-- 
2.43.0


From 6840b7c39c985c015b65942070234695e7f9d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 35/46] fix: don't close a proxy which wasn't completely
 initialized

---
 src/proxy.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 2fe5c7a..cff611a 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -604,7 +604,18 @@ int proxy_init(struct proxy_handle *ph)
 	return 0;
 
 proxy_init_exit:
-	proxy_free(ph);
+	/* The proxy can't be closed because some members don't exist */
+	mutex_free(&priv->idle_workers_mutex);
+	mutex_free(&priv->idle_clients_mutex);
+	mutex_free(&priv->usable_clients_mutex);
+	registration_service_free(&priv->reg_service);
+	conn_free(&priv->conn_listen);
+	conf_free(&ph->conf);
+	log_free(&priv->log);
+	rand_free();
+
+	free(ph->priv);
+	ph->priv = NULL;
 
 	return ret;
 }
-- 
2.43.0


From e795e5da082f4b10558461286581dda712d402ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 36/46] fix: forget the number of clients when they could not
 be allocated

---
 src/proxy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index cff611a..c7181a7 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -677,8 +677,10 @@ int proxy_open(struct proxy_handle *ph)
 	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
 
 	priv->clients = calloc(priv->num_clients, sizeof(*priv->clients));
-	if (priv->clients == NULL)
-		return -ENOMEM;
+	if (priv->clients == NULL) {
+		ret = -ENOMEM;
+		goto proxy_open_exit;
+	}
 
 	priv->client_workers = calloc(priv->num_clients,
 				      sizeof(struct proxy_worker));
-- 
2.43.0


From c579686e11498959554d4cb2d68e5b2be132bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 37/46] fix: release the denial pattern when the proxy fails to
 open

---
 src/proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index c7181a7..6810631 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -857,6 +857,12 @@ proxy_open_exit:
 		priv->re_calls_allowed = NULL;
 	}
 
+	if (priv->re_calls_denied != NULL) {
+		regex_free(priv->re_calls_denied);
+		free(priv->re_calls_denied);
+		priv->re_calls_denied = NULL;
+	}
+
 	log_close(&priv->log);
 
 	free(priv->client_workers);
-- 
2.43.0


From a825882261a333e689e727c8042ea505b6c719e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 38/46] fix: forget the idle workers when one could not be
 initialized

---
 src/proxy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 6810631..ae9909c 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -840,11 +840,11 @@ int proxy_open(struct proxy_handle *ph)
 	return 0;
 
 proxy_open_exit_later:
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
 
 proxy_open_exit_late:
+	priv->idle_workers_head = NULL;
 	priv->idle_clients_head = NULL;
 	priv->idle_clients_tail_ptr = NULL;
 	for (i = 0; i < priv->num_clients; i++)
-- 
2.43.0


From c8dd03e53ca932f7715237095b4b42d153a80a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 39/46] fix: don't attempt to connect for a client which was
 dropped already

A client dropped after its request to connect was read, but before the
socket could be shut down, left the attempt to connect uninterrupted, so
that dropping or closing took as long as the remote host cared not to
answer.
---
 include/conn.h   |  5 +++++
 src/conn.c       | 13 +++++++++----
 src/proxy_conn.c |  2 ++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/conn.h b/include/conn.h
index cd23172..c0dd940 100644
--- a/include/conn.h
+++ b/include/conn.h
@@ -81,6 +81,11 @@ struct conn_handle {
 	/*! Local socket port to bind to, or NULL for any */
 	const char *source_port;
 
+	/*! Connection on whose behalf ::conn_connect is called, or NULL. If it is
+	 *  dropped, no attempt to connect is made
+	 */
+	struct conn_handle *dependee;
+
 	/*! Protocol to use for this connection */
 	enum CONN_TYPE type;
 };
diff --git a/src/conn.c b/src/conn.c
index b9656f8..41afb68 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -429,10 +429,15 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 
 	mutex_unlock(&priv->mutex);
 
-	ret = connect(fd, res_remote->ai_addr,
-		      (socklen_t)res_remote->ai_addrlen);
-	if (ret == SOCKET_ERROR)
-		ret = SOCK_ERRNO;
+	if (conn->dependee != NULL && !conn_in_use(conn->dependee)) {
+		/* Dropped before the attempt could have been interrupted */
+		ret = -ENOTCONN;
+	} else {
+		ret = connect(fd, res_remote->ai_addr,
+			      (socklen_t)res_remote->ai_addrlen);
+		if (ret == SOCKET_ERROR)
+			ret = SOCK_ERRNO;
+	}
 
 	mutex_lock(&priv->mutex);
 
diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index ca805a4..1135d67 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -810,6 +810,7 @@ int proxy_conn_accept(struct proxy_conn_handle *pc,
 
 	strncpy(priv->callsign, callsign, sizeof(priv->callsign) - 1);
 	priv->conn_client = conn_client;
+	priv->conn_tcp.dependee = conn_client;
 
 	mutex_unlock(&priv->mutex_client);
 
@@ -887,6 +888,7 @@ void proxy_conn_finish(struct proxy_conn_handle *pc)
 	mutex_lock(&priv->mutex_client);
 
 	priv->conn_client = NULL;
+	priv->conn_tcp.dependee = NULL;
 
 	mutex_unlock(&priv->mutex_client);
 }
-- 
2.43.0


From b03e8c16bf3eb0127d140ac37ecc7524784ff23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 40/46] fix: don't wait for the registrar to accept a
 connection for minutes

A registration server which doesn't answer attempts to connect delayed
closing the proxy for as long as the system retries.
---
 include/conn.h     |  5 +++++
 src/conn.c         | 16 ++++++++++++++++
 src/registration.c |  4 ++++
 3 files changed, 25 insertions(+)

diff --git a/include/conn.h b/include/conn.h
index c0dd940..8dfb979 100644
--- a/include/conn.h
+++ b/include/conn.h
@@ -81,6 +81,11 @@ struct conn_handle {
 	/*! Local socket port to bind to, or NULL for any */
 	const char *source_port;
 
+	/*! Milliseconds after which ::conn_connect gives up, or 0 to wait for as
+	 *  long as the system does
+	 */
+	uint32_t connect_timeout;
+
 	/*! Connection on whose behalf ::conn_connect is called, or NULL. If it is
 	 *  dropped, no attempt to connect is made
 	 */
diff --git a/src/conn.c b/src/conn.c
index 41afb68..88c4376 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -422,6 +422,22 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 		goto conn_connect_free;
 	}
 
+#ifndef _WIN32
+	if (conn->connect_timeout != 0) {
+		struct timeval val;
+
+		val.tv_sec = conn->connect_timeout / 1000;
+		val.tv_usec = (conn->connect_timeout % 1000) * 1000;
+
+		ret = setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO,
+				 (const void *)&val, sizeof(val));
+		if (ret == SOCKET_ERROR) {
+			ret = SOCK_ERRNO;
+			goto conn_connect_free;
+		}
+	}
+
+#endif
 	/* Allow the connection attempt to be interrupted */
 	mutex_lock(&priv->mutex);
 
diff --git a/src/registration.c b/src/registration.c
index 2a22012..8bc23aa 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -68,6 +68,9 @@
 /*! Wait no longer than 5 seconds for data in a response */
 #define RESPONSE_TIMEOUT 5000
 
+/*! Wait no longer than 5 seconds for a connection to the server */
+#define CONNECT_TIMEOUT 5000
+
 /*!
  * @brief Possible statuses of a proxy server to report to registrar
  */
@@ -222,6 +225,7 @@ static int send_report(struct registration_service_handle *rs,
 	}
 
 	conn.type = CONN_TYPE_TCP;
+	conn.connect_timeout = CONNECT_TIMEOUT;
 	ret = conn_init(&conn);
 	if (ret < 0)
 		goto registration_update_exit;
-- 
2.43.0


From df0b00bfeead4954682adfacbeb37a6bda214a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 41/46] fix: flags shared with the signal thread are read and
 written under a lock

The main thread polled them while the signal thread set them.
---
 src/proxyd.c | 62 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index 0581585..b404999 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -120,6 +120,9 @@ static volatile sig_atomic_t draining;
 /*! The signal handling thread is no longer needed */
 static volatile sig_atomic_t signals_done;
 
+/*! Protects ::sentinel, ::draining and ::signals_done */
+static pthread_mutex_t flags_mutex = PTHREAD_MUTEX_INITIALIZER;
+
 /*! Signals which are handled by ::handle_signals */
 static sigset_t signals;
 #endif
@@ -154,6 +157,22 @@ static void graceful_shutdown(int signum);
 static void *handle_signals(void *ctx);
 #endif
 
+/*!
+ * @brief Get the value of a flag which is shared between threads
+ *
+ * @param[in] flag Flag to get the value of
+ *
+ * @returns Current value of the flag
+ */
+static int get_flag(const volatile sig_atomic_t *flag);
+
+/*!
+ * @brief Set a flag which is shared between threads
+ *
+ * @param[out] flag Flag to set
+ */
+static void set_flag(volatile sig_atomic_t *flag);
+
 /*!
  * @brief Main entry point for the EchoLink Proxy daemon executable
  *
@@ -194,7 +213,7 @@ static BOOL WINAPI graceful_shutdown(DWORD ctrl_type)
 	if (ctrl_type == CTRL_C_EVENT) {
 		proxy_log(&ph, LOG_LEVEL_INFO, "Caught signal\n");
 
-		sentinel = 1;
+		set_flag(&sentinel);
 
 		proxy_shutdown(&ph);
 
@@ -208,10 +227,10 @@ static void graceful_shutdown(int signum)
 {
 	proxy_log(&ph, LOG_LEVEL_INFO, "Caught signal\n");
 
-	draining = 1;
+	set_flag(&draining);
 
 	if (signum == SIGTERM || signum == SIGINT)
-		sentinel = 1;
+		set_flag(&sentinel);
 
 	proxy_shutdown(&ph);
 }
@@ -222,13 +241,40 @@ static void *handle_signals(void *ctx)
 
 	(void)ctx;
 
-	while (sigwait(&signals, &signum) == 0 && !signals_done)
+	while (sigwait(&signals, &signum) == 0 &&
+	       !get_flag(&signals_done))
 		graceful_shutdown(signum);
 
 	return NULL;
 }
 #endif
 
+static int get_flag(const volatile sig_atomic_t *flag)
+{
+	int ret;
+
+#ifndef _WIN32
+	pthread_mutex_lock(&flags_mutex);
+#endif
+	ret = *flag;
+#ifndef _WIN32
+	pthread_mutex_unlock(&flags_mutex);
+#endif
+
+	return ret;
+}
+
+static void set_flag(volatile sig_atomic_t *flag)
+{
+#ifndef _WIN32
+	pthread_mutex_lock(&flags_mutex);
+#endif
+	*flag = 1;
+#ifndef _WIN32
+	pthread_mutex_unlock(&flags_mutex);
+#endif
+}
+
 int main(int argc, const char * const argv[])
 {
 	struct proxy_opts opts;
@@ -444,12 +490,12 @@ int main(int argc, const char * const argv[])
 	proxy_log(&ph, LOG_LEVEL_INFO, "Ready.\n");
 
 	/* Main dispatch loop */
-	while (ret == 0 && sentinel == 0) {
+	while (ret == 0 && !get_flag(&sentinel)) {
 		proxy_log(&ph, LOG_LEVEL_DEBUG,
 			  "Starting a processing run...\n");
 		ret = proxy_process(&ph);
 #ifndef _WIN32
-		if (draining)
+		if (get_flag(&draining))
 			ret = -EINTR;
 #endif
 		if (ret < 0) {
@@ -458,7 +504,7 @@ int main(int argc, const char * const argv[])
 				ret = 0;
 
 				/*! @TODO Something better than a busy loop */
-				while (!sentinel) {
+				while (!get_flag(&sentinel)) {
 #ifdef _WIN32
 					Sleep(50);
 #else
@@ -481,7 +527,7 @@ int main(int argc, const char * const argv[])
 proxyd_exit:
 #ifndef _WIN32
 	if (signal_thread_started) {
-		signals_done = 1;
+		set_flag(&signals_done);
 		pthread_kill(signal_thread, SIGUSR1);
 		pthread_join(signal_thread, NULL);
 	}
-- 
2.43.0


From dda3446db962f743eec716007d8aa0e43908fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:53 +0000
Subject: [PATCH 42/46] fix: std descriptors which are not open at start are
 not left to sockets

Log messages went into sockets, and daemonizing replaced the listening socket.
---
 src/proxyd.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/proxyd.c b/src/proxyd.c
index b404999..5bbedfb 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -282,6 +282,7 @@ int main(int argc, const char * const argv[])
 #ifndef _WIN32
 	pthread_t signal_thread;
 	int signal_thread_started = 0;
+	int std_fd;
 #endif
 	int ret;
 
@@ -298,6 +299,14 @@ int main(int argc, const char * const argv[])
 	}
 
 #ifndef _WIN32
+	/* If these aren't in use, sockets would take their place */
+	do {
+		std_fd = open("/dev/null", O_RDWR);
+	} while (std_fd >= 0 && std_fd <= STDERR_FILENO);
+
+	if (std_fd >= 0)
+		close(std_fd);
+
 	/* Hold these until the signal thread can handle them */
 	signal(SIGINT, SIG_DFL);
 	signal(SIGTERM, SIG_DFL);
-- 
2.43.0


From 783f575eb5b614396ca9398caf2433d30b09e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 43/46] fix: a failed proxy_open must leave a log opened by its
 caller open

Otherwise openelpd closes its log before it reports the failure, and ends
without a word if memory runs out in proxy_open.
---
 src/proxy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index ae9909c..b3adfd0 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -669,6 +669,7 @@ void proxy_free(struct proxy_handle *ph)
 int proxy_open(struct proxy_handle *ph)
 {
 	struct proxy_priv *priv = ph->priv;
+	const int log_was_open = priv->log.medium != LOG_MEDIUM_NONE;
 	int i;
 	int ret;
 
@@ -863,7 +864,9 @@ proxy_open_exit:
 		priv->re_calls_denied = NULL;
 	}
 
-	log_close(&priv->log);
+	/* The caller may still want to report the failure */
+	if (!log_was_open)
+		log_close(&priv->log);
 
 	free(priv->client_workers);
 	priv->client_workers = NULL;
-- 
2.43.0


From 47e562703f28eeb7d8118bda6206f95d13906eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 44/46] fix: initialising another proxy within the same second
 must not repeat challenges

---
 src/rand.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rand.c b/src/rand.c
index df646db..3599716 100644
--- a/src/rand.c
+++ b/src/rand.c
@@ -51,7 +51,8 @@
 
 int rand_init(void)
 {
-	srand((unsigned int)time(NULL));
+	/* Don't start over if this is called again within the same second */
+	srand((unsigned int)time(NULL) ^ (unsigned int)rand());
 
 	return 0;
 }
-- 
2.43.0


From b31130c83eac751499bec53e84fae7c61053d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 45/46] fix: a list of more addresses than can be counted must
 be refused

---
 src/conf.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 80746dc..15acc84 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -421,6 +421,7 @@ static int conf_parse_pair(const char *key, size_t key_len,
 	case 31:
 		if (strncmp(key, "AdditionalExternalBindAddresses", key_len) == 0) {
 			size_t i, j;
+			size_t count = 1;
 
 			if (conf->bind_addr_ext_add != NULL) {
 				for (i = 0; i < conf->bind_addr_ext_add_len; i++)
@@ -437,9 +438,16 @@ static int conf_parse_pair(const char *key, size_t key_len,
 
 			for (i = 0; i < val_len; i++)
 				if (val[i] == ',')
-					conf->bind_addr_ext_add_len++;
+					count++;
 
-			conf->bind_addr_ext_add_len++;
+			if (count > UINT16_MAX) {
+				log_printf(log, LOG_LEVEL_ERROR,
+					   "Too many addresses in 'AdditionalExternalBindAddresses'\n");
+
+				return -EINVAL;
+			}
+
+			conf->bind_addr_ext_add_len = (uint16_t)count;
 
 			conf->bind_addr_ext_add = calloc(
 				conf->bind_addr_ext_add_len,
-- 
2.43.0


From 3b34944b30df30b2002ec25964d53671448133b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:36 +0000
Subject: [PATCH 46/46] fix: setting the clock must not end or prolong timed
 waits

---
 src/mutex_posix.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index 3e8ff5d..5c6635b 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -47,11 +47,24 @@
 #include <errno.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 
 #include <pthread.h>
 
 #include "mutex.h"
 
+/*!
+ * @brief Clock by which timed waits are measured
+ *
+ * A wait must not end early or last longer because the time of day is set. Not
+ * every platform is able to select the clock of a condition variable.
+ */
+#ifdef __APPLE__
+#  define CONDVAR_CLOCK CLOCK_REALTIME
+#else
+#  define CONDVAR_CLOCK CLOCK_MONOTONIC
+#endif
+
 /*!
  * @brief Private data for an instance of a POSIX mutex
  */
@@ -201,6 +214,7 @@ void mutex_free(struct mutex_handle *mutex)
 int condvar_init(struct condvar_handle *condvar)
 {
 	struct condvar_priv *priv = condvar->priv;
+	pthread_condattr_t attr;
 	int ret;
 
 	if (priv == NULL) {
@@ -211,7 +225,21 @@ int condvar_init(struct condvar_handle *condvar)
 		condvar->priv = priv;
 	}
 
-	ret = pthread_cond_init(&priv->cond, NULL);
+	ret = pthread_condattr_init(&attr);
+	if (ret != 0) {
+		ret = -ret;
+
+		goto condvar_init_exit;
+	}
+
+#ifndef __APPLE__
+	ret = pthread_condattr_setclock(&attr, CONDVAR_CLOCK);
+#endif
+	if (ret == 0)
+		ret = pthread_cond_init(&priv->cond, &attr);
+
+	pthread_condattr_destroy(&attr);
+
 	if (ret != 0) {
 		ret = -ret;
 
@@ -250,7 +278,7 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	struct timespec abstime;
 	int ret;
 
-	clock_gettime(CLOCK_REALTIME, &abstime);
+	clock_gettime(CONDVAR_CLOCK, &abstime);
 	abstime.tv_nsec += (msec % 1000) * 1000000;
 	abstime.tv_sec += (msec / 1000) + (abstime.tv_nsec / 1000000000);
 	abstime.tv_nsec %= 1000000000;
-- 
2.43.0

