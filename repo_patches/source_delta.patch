From 01e468a86727767a17c963bdc89b390df42e92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 01/44] fix: Buffer must not read past its end

Reading from a Buffer that holds too few bytes was undefined behaviour (an
out-of-bounds read or a crash), so a short or corrupt reply could crash the
scanner. Throw std::runtime_error instead.
---
 src/utils/Buffer.cpp | 15 +++++++++++++++
 src/utils/Buffer.h   |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/src/utils/Buffer.cpp b/src/utils/Buffer.cpp
index 0e3ed2a..74679fd 100644
--- a/src/utils/Buffer.cpp
+++ b/src/utils/Buffer.cpp
@@ -2,6 +2,8 @@
 // Created by flipback on 11/16/19.
 //
 
+#include <stdexcept>
+
 #include "Buffer.h"
 
 namespace eipScanner {
@@ -24,7 +26,14 @@ namespace utils {
 		;
 	}
 
+	void Buffer::checkReadable(size_t size) const {
+		if (_position > _buffer.size() || _buffer.size() - _position < size) {
+			throw std::runtime_error("Buffer: not enough data to read");
+		}
+	}
+
 	Buffer &Buffer::operator>>(uint8_t &val) {
+		checkReadable(sizeof(val));
 		val = _buffer[_position++];
 		return *this;
 
@@ -37,6 +46,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(int8_t &val) {
+		checkReadable(sizeof(val));
 		val = static_cast<uint8_t>(_buffer[_position++]);
 		return *this;
 	}
@@ -48,6 +58,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint16_t &val) {
+		checkReadable(sizeof(val));
 		val = static_cast<uint16_t>(_buffer[_position++]);
 		val += static_cast<uint16_t>(_buffer[_position++] << 8);
 		return *this;
@@ -71,6 +82,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint32_t &val) {
+		checkReadable(sizeof(val));
 		val = static_cast<uint32_t>(_buffer[_position++]);
 		val += static_cast<uint32_t>(_buffer[_position++] << 8);
 		val += static_cast<uint32_t>(_buffer[_position++] << 16);
@@ -101,6 +113,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint64_t &val) {
+		checkReadable(sizeof(val));
 		val = static_cast<uint64_t>(_buffer[_position++]);
 		val += static_cast<uint64_t>(_buffer[_position++]) << 8;
 		val += static_cast<uint64_t>(_buffer[_position++]) << 16;
@@ -143,6 +156,7 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint8_t> &val) {
+		checkReadable(val.size());
 		std::copy(_buffer.begin() + _position, _buffer.begin() + _position + val.size(), val.begin());
 		_position += val.size();
 		return *this;
@@ -158,6 +172,7 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint16_t> &val) {
+		checkReadable(val.size() * sizeof(uint16_t));
 		for (auto& v : val) {
 			v = static_cast<int16_t>(_buffer[_position++]);
 			v += static_cast<int16_t>(_buffer[_position++] << 8);
diff --git a/src/utils/Buffer.h b/src/utils/Buffer.h
index 32c1409..2a5b7d5 100644
--- a/src/utils/Buffer.h
+++ b/src/utils/Buffer.h
@@ -114,6 +114,8 @@ namespace utils {
 		bool isValid() const { return _position <= _buffer.size(); }
 		bool empty() const  { return  _position >= _buffer.size(); }
 	private:
+		void checkReadable(size_t size) const;
+
 		std::vector<uint8_t> _buffer;
 		size_t _position;
 	};
-- 
2.43.0


From ca6fe3ddabc01b9ba9461d31611e4edfab886dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 02/44] fix: UDPSocket must return only the bytes it received

Receive() and ReceiveFrom() returned the whole buffer padded with zeros, so a
truncated datagram looked complete.
---
 src/sockets/UDPSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 04f1ddb..52858aa 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -75,6 +75,7 @@ namespace sockets {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 
@@ -89,6 +90,7 @@ namespace sockets {
 		}
 
 		endPoint = EndPoint(addr);
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 }
-- 
2.43.0


From a42c81e401712a087d4d5d5a96e3c3cd179b16b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 03/44] fix: TCPSocket::Receive must fail when the peer closes
 the connection

It returned the missing bytes as zeros, so a session could be registered, or a
reply accepted, that the peer never sent.
---
 src/sockets/TCPSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index bbceaac..4c01885 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -163,6 +163,7 @@ namespace eipScanner {
 			if (size != count) {
 				Logger(LogLevel::WARNING) << "Received from " << _remoteEndPoint.toString()
 										  << " " << count << " of " << size;
+				throw std::system_error(EIPSCANNER_SOCKET_ERROR(ECONNRESET), BaseSocket::getErrorCategory());
 			}
 
 			return recvBuffer;
-- 
2.43.0


From df2980f2679956af33e55d0c8a95b9812ab7e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 04/44] fix: TCPSocket::Send must notice errors and finish
 short writes

The result was compared with an unsigned size, so an error of send() was never
seen; a short write threw although the rest could be sent, and threw out of the
destructor of SessionInfo.
---
 src/SessionInfo.cpp       |  8 ++++++--
 src/sockets/TCPSocket.cpp | 14 +++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index cbfb179..4fe3e76 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -40,8 +40,12 @@ namespace eipScanner {
 
 	SessionInfo::~SessionInfo() {
 		EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
-		_socket.Send(packet.pack());
-		Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		try {
+			_socket.Send(packet.pack());
+			Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		} catch (const std::system_error& err) {
+			Logger(LogLevel::WARNING) << "Failed to unregister session " << _sessionHandle << ": " << err.what();
+		}
 	}
 
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 4c01885..bdb3dfc 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -132,9 +132,17 @@ namespace eipScanner {
 			// Do not generate SIGPIPE when calling send() on closed socket
 			flags |= MSG_NOSIGNAL;
 #endif
-			int count = send(_sockedFd, (char*)data.data(), data.size(), flags);
-			if (count < data.size()) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+			size_t count = 0;
+			while (count < data.size()) {
+				auto len = send(_sockedFd, (char*)(data.data() + count), data.size() - count, flags);
+				if (len < 0) {
+					// Check for EINTR, in which case, better luck next time
+					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+						continue;
+					}
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
+				count += len;
 			}
 		}
 
-- 
2.43.0


From 6ae5ab7968fa599118c2fb38b2993d895b0be24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 05/44] fix: a session whose exchange failed halfway must not
 take a late reply

After a timeout or a broken read the reply of the failed request was still in
the stream and was returned as the reply of the next one. Shut the socket down,
so that later requests fail until the user registers a new session.
---
 src/SessionInfo.cpp        | 19 +++++++++++++------
 src/sockets/BaseSocket.cpp |  2 +-
 src/sockets/BaseSocket.h   |  2 +-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index 4fe3e76..4417388 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -49,12 +49,19 @@ namespace eipScanner {
 	}
 
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
-		_socket.Send(packet.pack());
-		auto header = _socket.Receive(EncapsPacket::HEADER_SIZE);
-		auto length = EncapsPacket::getLengthFromHeader(header);
-		auto data = _socket.Receive(length);
-
-		header.insert(header.end(), data.begin(), data.end());
+		std::vector<uint8_t> header;
+		try {
+			_socket.Send(packet.pack());
+			header = _socket.Receive(EncapsPacket::HEADER_SIZE);
+			auto length = EncapsPacket::getLengthFromHeader(header);
+			auto data = _socket.Receive(length);
+
+			header.insert(header.end(), data.begin(), data.end());
+		} catch (...) {
+			// The stream is out of step now, a late reply must not answer the next request
+			_socket.Shutdown();
+			throw;
+		}
 
 		EncapsPacket recvPacket;
 		recvPacket.expand(header);
diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index efb71db..30afcb6 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -34,7 +34,7 @@ namespace sockets {
 
 	BaseSocket::~BaseSocket() = default;
 
-	void BaseSocket::Shutdown() {
+	void BaseSocket::Shutdown() const {
 #if defined(_WIN32) || defined(WIN32) || defined(_WIN64)
 	  shutdown(_sockedFd, SD_BOTH);
 #else
diff --git a/src/sockets/BaseSocket.h b/src/sockets/BaseSocket.h
index 1019fab..81ebcec 100644
--- a/src/sockets/BaseSocket.h
+++ b/src/sockets/BaseSocket.h
@@ -30,6 +30,7 @@ namespace sockets {
 		virtual void Send(const std::vector<uint8_t>& data) const = 0;
 		virtual std::vector<uint8_t> Receive(size_t size) const = 0;
 		void setBeginReceiveHandler(BeginReceiveHandler handler);
+		void Shutdown() const;
 
 		const std::chrono::milliseconds &getRecvTimeout() const;
 		void setRecvTimeout(const std::chrono::milliseconds &recvTimeout);
@@ -45,7 +46,6 @@ namespace sockets {
 
 	protected:
 		void BeginReceive();
-    void Shutdown();
     void Close();
 
 		int _sockedFd;
-- 
2.43.0


From 1891fa7b15931dee94af65c07cde7b2244bfb4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 06/44] fix: a signal must not make a TCP connect fail as timed
 out

---
 src/sockets/TCPSocket.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index bdb3dfc..e1600d0 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -64,15 +64,21 @@ namespace eipScanner {
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINPROGRESS)) {
+						auto stopTime = std::chrono::steady_clock::now() + connTimeout;
 						do {
 							fd_set myset;
-							auto tv = makePortableInterval(connTimeout);
+							auto tv = makePortableInterval(std::chrono::duration_cast<std::chrono::milliseconds>(
+									stopTime - std::chrono::steady_clock::now()));
 
 							FD_ZERO(&myset);
 							FD_SET(_sockedFd, &myset);
 							res = ::select(_sockedFd + 1, NULL, &myset, NULL, &tv);
 
-							if (res < 0 && BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
+							if (res < 0) {
+								// Interrupted by a signal, keep waiting for the rest of the timeout
+								if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+									continue;
+								}
 								throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 							} else if (res > 0) {
 								// Socket selected for write
-- 
2.43.0


From fb31a4fe3e60c69df8dc60addd6db937f8fd7c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 07/44] fix: BaseSocket::select must survive signals and an
 empty list of sockets

A signal made handleConnections() throw, and without any open connection it
dereferenced the end of an empty list.
---
 src/sockets/BaseSocket.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 30afcb6..27a746b 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -118,9 +118,10 @@ namespace sockets {
 	}
 
 	void BaseSocket::select(std::vector<BaseSocket::SPtr> sockets, std::chrono::milliseconds timeout) {
-		BaseSocket::SPtr socketWithMaxFd = *std::max_element(sockets.begin(), sockets.end(), [](auto sock1, auto sock2) {
-			return sock1->getSocketFd() < sock2->getSocketFd();
-		});
+		int maxFd = -1;
+		for (auto& sock : sockets) {
+			maxFd = std::max(maxFd, sock->getSocketFd());
+		}
 
 		auto startTime = std::chrono::steady_clock::now();
 		auto stopTime = startTime + timeout;
@@ -134,9 +135,13 @@ namespace sockets {
 				FD_SET(sock->getSocketFd(), &recvSet);
 			}
 
-			ready = ::select(socketWithMaxFd->getSocketFd() + 1, &recvSet, NULL, NULL, &tv);
+			ready = ::select(maxFd + 1, &recvSet, NULL, NULL, &tv);
 			if (ready < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				// Interrupted by a signal, keep waiting for the rest of the timeout
+				if (BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
+				FD_ZERO(&recvSet);
 			}
 
 			for (auto& sock : sockets) {
@@ -147,7 +152,7 @@ namespace sockets {
 			}
 
 			startTime = std::chrono::steady_clock::now();
-		} while(ready > 0);
+		} while(ready != 0);
 	}
 
 	const EndPoint &BaseSocket::getRemoteEndPoint() const {
-- 
2.43.0


From da28ebea5866fad50e27ade1cd5a6483758bd761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 08/44] fix: keep whole 32 bit connection IDs in
 ConnectionManager

The map was keyed by the low half of the T2O connection ID, so data of one
connection could reach another one, and targets that choose the ID themselves
could not have two connections whose IDs share the low half.
---
 src/ConnectionManager.cpp | 2 +-
 src/ConnectionManager.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a4c76a2..a9106be 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -58,7 +58,7 @@ namespace eipScanner {
 		NetworkConnectionParametersBuilder t2oNCP(connectionParameters.t2oNetworkConnectionParams, isLarge);
 
 		if (o2tNCP.getConnectionType() == NetworkConnectionParametersBuilder::MULTICAST) {
-			static cip::CipUint idCount = _incarnationId << 16;
+			static cip::CipUdint idCount = _incarnationId << 16;
 			connectionParameters.o2tNetworkConnectionId = ++idCount;
 		}
 
diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index a317067..ab54392 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -75,7 +75,7 @@ namespace eipScanner {
 		bool hasOpenConnections() const;
 	private:
 		MessageRouter::SPtr _messageRouter;
-		std::map<cip::CipUint, IOConnection::SPtr> _connectionMap;
+		std::map<cip::CipUdint, IOConnection::SPtr> _connectionMap;
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
-- 
2.43.0


From 9341bf6f001323b72d080eee3b5cd1ff971340d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 09/44] fix: the timeout of an IO connection must not overflow

The multipliers 256 and 512 became 0, and the timeout and the timers wrapped
around at 2^32 microseconds, so healthy connections were closed at once.
---
 src/IOConnection.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.h b/src/IOConnection.h
index 9058d89..4324ea8 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -80,11 +80,11 @@ namespace eipScanner {
 		bool _o2tFixedSize;
 		bool _t2oFixedSize;
 
-		cip::CipUdint _o2tTimer;
+		cip::CipUlint _o2tTimer;
 		cip::CipUdint _t2o_timer;
 
-		cip::CipUsint _connectionTimeoutMultiplier;
-		cip::CipUdint _connectionTimeoutCount;
+		cip::CipUlint _connectionTimeoutMultiplier;
+		cip::CipUlint _connectionTimeoutCount;
 
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
-- 
2.43.0


From 034609506e34ec8db2e334be4f69af268607cc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 10/44] fix: the sequence count precedes the run/idle header in
 received IO data

It is the order of the CIP specification and of the data that IOConnection
sends; with both enabled the listener got the two values mixed up.
---
 src/IOConnection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 5571496..86b3aa1 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -70,15 +70,15 @@ namespace eipScanner {
 		cip::CipUdint runtimeHeader = 0;
 		cip::CipUint sequenceValueCount = 0;
 
-		if (_t2oRealTimeFormat) {
-			buffer >> runtimeHeader;
-		}
-
 		if ((_transportTypeTrigger & NetworkConnectionParams::CLASS1) > 0
 			|| (_transportTypeTrigger & NetworkConnectionParams::CLASS3) > 0) {
 			buffer >> sequenceValueCount;
 		}
 
+		if (_t2oRealTimeFormat) {
+			buffer >> runtimeHeader;
+		}
+
 		std::vector<uint8_t> ioData(data.begin() + buffer.pos(), data.end());
 		if (_t2oFixedSize && ioData.size() != _t2oDataSize) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
-- 
2.43.0


From e1b5bb8aae10f0a18efa9fe7617185243228dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 11/44] fix: ignore malformed IO datagrams

Any stray datagram on the implicit port made handleConnections() throw before
the other connections were served.
---
 src/ConnectionManager.cpp | 19 +++++++++++++------
 src/IOConnection.cpp      | 18 ++++++++++++------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a9106be..ed6401c 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -239,17 +239,24 @@ namespace eipScanner {
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
 				auto recvData = sock.Receive(8192);
 				CommonPacket commonPacket;
-				commonPacket.expand(recvData);
-
-				// TODO: Check TypeIDs and sequence of the packages
-				Buffer buffer(commonPacket.getItems().at(0).getData());
 				cip::CipUdint connectionId;
-				buffer >> connectionId;
+				std::vector<uint8_t> ioData;
+				try {
+					commonPacket.expand(recvData);
+
+					// TODO: Check TypeIDs and sequence of the packages
+					Buffer buffer(commonPacket.getItems().at(0).getData());
+					buffer >> connectionId;
+					ioData = commonPacket.getItems().at(1).getData();
+				} catch (const std::exception& err) {
+					Logger(LogLevel::WARNING) << "Ignore a malformed packet: " << err.what();
+					return;
+				}
 				Logger(LogLevel::DEBUG) << "Received data from connection T2O_ID=" << connectionId;
 
 				auto io = _connectionMap.find(connectionId);
 				if (io != _connectionMap.end()) {
-					io->second->notifyReceiveData(commonPacket.getItems().at(1).getData());
+					io->second->notifyReceiveData(ioData);
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 86b3aa1..7a269aa 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -70,13 +70,19 @@ namespace eipScanner {
 		cip::CipUdint runtimeHeader = 0;
 		cip::CipUint sequenceValueCount = 0;
 
-		if ((_transportTypeTrigger & NetworkConnectionParams::CLASS1) > 0
-			|| (_transportTypeTrigger & NetworkConnectionParams::CLASS3) > 0) {
-			buffer >> sequenceValueCount;
-		}
+		try {
+			if ((_transportTypeTrigger & NetworkConnectionParams::CLASS1) > 0
+				|| (_transportTypeTrigger & NetworkConnectionParams::CLASS3) > 0) {
+				buffer >> sequenceValueCount;
+			}
 
-		if (_t2oRealTimeFormat) {
-			buffer >> runtimeHeader;
+			if (_t2oRealTimeFormat) {
+				buffer >> runtimeHeader;
+			}
+		} catch (const std::runtime_error& err) {
+			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
+				<< " received malformed data: " << err.what() << ". Ignore this data.";
+			return;
 		}
 
 		std::vector<uint8_t> ioData(data.begin() + buffer.pos(), data.end());
-- 
2.43.0


From e85b1151043b91102369f3adcdb625342f5d318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 12/44] fix: listeners may open, close and reconfigure IO
 connections

Closing a connection or opening another one from a listener invalidated the
iteration over the connections or destroyed the connection, or the listener,
that was running.
---
 src/ConnectionManager.cpp | 23 +++++++++++++++--------
 src/IOConnection.cpp      | 10 +++++++---
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index ed6401c..c4429b4 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -214,15 +214,20 @@ namespace eipScanner {
 
 		BaseSocket::select(sockets, timeout);
 
-		std::vector<cip::CipUdint> connectionsToClose;
-		for (auto& entry : _connectionMap) {
-			if (!entry.second->notifyTick()) {
-				connectionsToClose.push_back(entry.first);
+		// The listeners may open and close connections
+		auto connections = _connectionMap;
+		for (auto& entry : connections) {
+			auto io = _connectionMap.find(entry.first);
+			if (io == _connectionMap.end() || io->second != entry.second) {
+				continue;
 			}
-		}
 
-		for (auto& id : connectionsToClose) {
-			_connectionMap.erase(id);
+			if (!entry.second->notifyTick()) {
+				io = _connectionMap.find(entry.first);
+				if (io != _connectionMap.end() && io->second == entry.second) {
+					_connectionMap.erase(io);
+				}
+			}
 		}
 	}
 
@@ -256,7 +261,9 @@ namespace eipScanner {
 
 				auto io = _connectionMap.find(connectionId);
 				if (io != _connectionMap.end()) {
-					io->second->notifyReceiveData(ioData);
+					// The listener may close the connection
+					auto ioConnection = io->second;
+					ioConnection->notifyReceiveData(ioData);
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 7a269aa..0945a0e 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -92,7 +92,9 @@ namespace eipScanner {
 				<< " bytes were received. Ignore this data.";
 		} else {
 			_connectionTimeoutCount = 0;
-			_receiveDataHandle(runtimeHeader, sequenceValueCount,
+			// The listener may replace itself
+			auto receiveDataHandle = _receiveDataHandle;
+			receiveDataHandle(runtimeHeader, sequenceValueCount,
 							   ioData);
 		}
 	}
@@ -106,7 +108,8 @@ namespace eipScanner {
 		_connectionTimeoutCount += periodInMicroS;
 		if (_connectionTimeoutCount > _connectionTimeoutMultiplier * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
-			_closeHandle();
+			auto closeHandle = _closeHandle;
+			closeHandle();
 			return false;
 		}
 
@@ -131,7 +134,8 @@ namespace eipScanner {
 			}
 
 			_o2tTimer = 0;
-			_sendDataHandle(_outputData);
+			auto sendDataHandle = _sendDataHandle;
+			sendDataHandle(_outputData);
 			if (_o2tFixedSize && _outputData.size() != _o2tDataSize)  {
 				Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
 										  << " has fixed size " << _o2tDataSize << " bytes but " << _outputData.size()
-- 
2.43.0


From ba3dbe606d31652dcf049f874643bf559f8a851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 13/44] fix: forwardClose of a connection that timed out must
 not abort

If the user holds the connection while the watchdog closes it, forwardClose()
failed an assertion or removed another connection with the same ID.
---
 src/ConnectionManager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index c4429b4..f75ade1 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -196,9 +196,11 @@ namespace eipScanner {
 					<< ". But the connection is removed from ConnectionManager anyway";
 			}
 
-			auto rc = _connectionMap.erase(ptr->_t2oNetworkConnectionId);
-			(void) rc;
-			assert(rc);
+			// It may have been closed by timeout already
+			auto io = _connectionMap.find(ptr->_t2oNetworkConnectionId);
+			if (io != _connectionMap.end() && io->second == ptr) {
+				_connectionMap.erase(io);
+			}
 		} else {
 			Logger(LogLevel::WARNING) << "Attempt to close an already closed connection";
 		}
-- 
2.43.0


From a572dfc0c5c9651b181ac35bb93fb6a90db68712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 14/44] fix: an IO connection must not lose the fractions of
 milliseconds

When handleConnections() was called often, the dropped remainders delayed the
cyclic data and the timeout without bound.
---
 src/IOConnection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 0945a0e..9990080 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -102,9 +102,9 @@ namespace eipScanner {
 	bool IOConnection::notifyTick() {
 		auto now = std::chrono::steady_clock::now();
 		auto sinceLastHandle =
-			std::chrono::duration_cast<std::chrono::milliseconds>(now - _lastHandleTime);
+			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastHandleTime);
 
-		auto periodInMicroS = sinceLastHandle.count() * 1000;
+		auto periodInMicroS = sinceLastHandle.count();
 		_connectionTimeoutCount += periodInMicroS;
 		if (_connectionTimeoutCount > _connectionTimeoutMultiplier * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
@@ -113,7 +113,7 @@ namespace eipScanner {
 			return false;
 		}
 
-		_lastHandleTime = now;
+		_lastHandleTime += sinceLastHandle;
 
 		_o2tTimer += periodInMicroS;
 		if (_o2tTimer >= _o2tAPI) {
-- 
2.43.0


From 8a7f0f4e728d40e04c5f3f9db2c88f284f4e2554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 15/44] fix: a failed file transfer must end the upload

handleTransfers() reported the error to the handler but returned true, so the
documented loop repeated the request and the handler was called again and
again, or even with SUCCESS later.
---
 src/fileObject/FileObjectUploadInProgressState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 0054a26..6d3fbbd 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -94,6 +94,7 @@ namespace fileObject {
 		} else {
 			logGeneralAndAdditionalStatus(response);
 			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			return false;
 		}
 
 		return true;
-- 
2.43.0


From c2a0f3228a4bede9f483e89f03b9ca82038b13d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 16/44] fix: discovery must ignore malformed replies

A short or garbled datagram on the network was read past its end or made
discover() throw away all the devices found so far.
---
 src/DiscoveryManager.cpp | 68 ++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/src/DiscoveryManager.cpp b/src/DiscoveryManager.cpp
index f8a118a..278a730 100644
--- a/src/DiscoveryManager.cpp
+++ b/src/DiscoveryManager.cpp
@@ -45,36 +45,44 @@ namespace eipScanner {
 				const size_t EIP_MAX_PACKET_SIZE = 504;
 				auto data = socket->Receive(EIP_MAX_PACKET_SIZE);
 
-				CommonPacket commonPacket;
-				commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
-
-				for (int i=0; i < commonPacket.getItems().size(); ++i) {
-					Buffer buffer(commonPacket.getItems()[i].getData());
-					CipUint ignore;
-					sockets::EndPoint socketAddr("", 0);
-
-					buffer >> ignore >> socketAddr;
-
-					CipUint vendorId, deviceType, productCode;
-					CipRevision revision;
-					CipWord status;
-					CipUdint serialNumber;
-					CipShortString productName;
-
-					buffer >> vendorId >> deviceType >> productCode
-						   >> revision >> status
-						   >> serialNumber >> productName;
-
-					IdentityObject identityObject(i);
-					identityObject.setVendorId(vendorId);
-					identityObject.setDeviceType(deviceType);
-					identityObject.setProductCode(productCode);
-					identityObject.setRevision(revision);
-					identityObject.setStatus(status);
-					identityObject.setSerialNumber(serialNumber);
-					identityObject.setProductName(productName.toStdString());
-
-					devices.push_back(IdentityItem{.identityObject=identityObject, .socketAddress=socketAddr});
+				try {
+					if (data.size() < EncapsPacket::HEADER_SIZE) {
+						throw std::runtime_error("the header is too short");
+					}
+
+					CommonPacket commonPacket;
+					commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+
+					for (int i=0; i < commonPacket.getItems().size(); ++i) {
+						Buffer buffer(commonPacket.getItems()[i].getData());
+						CipUint ignore;
+						sockets::EndPoint socketAddr("", 0);
+
+						buffer >> ignore >> socketAddr;
+
+						CipUint vendorId, deviceType, productCode;
+						CipRevision revision;
+						CipWord status;
+						CipUdint serialNumber;
+						CipShortString productName;
+
+						buffer >> vendorId >> deviceType >> productCode
+							   >> revision >> status
+							   >> serialNumber >> productName;
+
+						IdentityObject identityObject(i);
+						identityObject.setVendorId(vendorId);
+						identityObject.setDeviceType(deviceType);
+						identityObject.setProductCode(productCode);
+						identityObject.setRevision(revision);
+						identityObject.setStatus(status);
+						identityObject.setSerialNumber(serialNumber);
+						identityObject.setProductName(productName.toStdString());
+
+						devices.push_back(IdentityItem{.identityObject=identityObject, .socketAddress=socketAddr});
+					}
+				} catch (const std::runtime_error& err) {
+					Logger(LogLevel::WARNING) << "Ignore a malformed reply: " << err.what();
 				}
 			}
 		} catch (std::system_error& er) {
-- 
2.43.0


From 5b2a801b596a461a17abb2352416cd04fde5fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 17/44] fix: MessageRouter must reject a reply that is too
 short

The size of the Common Packet underflowed and an enormous vector was requested.
---
 src/MessageRouter.cpp                                  | 4 ++++
 src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/MessageRouter.cpp b/src/MessageRouter.cpp
index 16f2232..d6f6404 100644
--- a/src/MessageRouter.cpp
+++ b/src/MessageRouter.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <cassert>
+#include <stdexcept>
 #include "eip/EncapsPacketFactory.h"
 #include "utils/Buffer.h"
 #include "MessageRouter.h"
@@ -62,6 +63,9 @@ namespace eipScanner {
 		Buffer buffer(receivedPacket.getData());
 		cip::CipUdint interfaceHandle = 0;
 		cip::CipUint timeout = 0;
+		if (receivedPacket.getData().size() < 6) {
+			throw std::runtime_error("The reply has no Common Packet");
+		}
 		std::vector<uint8_t> receivedData(receivedPacket.getData().size() - 6);
 
 		buffer >> interfaceHandle >> timeout >> receivedData;
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
index f966901..5c119a8 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
@@ -1,5 +1,6 @@
 
 #include <cassert>
+#include <stdexcept>
 #include "eip/EncapsPacketFactory.h"
 #include "utils/Buffer.h"
 #include "Yaskawa_MessageRouter.h"
@@ -57,6 +58,9 @@ namespace eipScanner {
 		Buffer buffer(receivedPacket.getData());
 		cip::CipUdint interfaceHandle = 0;
 		cip::CipUint timeout = 0;
+		if (receivedPacket.getData().size() < 6) {
+			throw std::runtime_error("The reply has no Common Packet");
+		}
 		std::vector<uint8_t> receivedData(receivedPacket.getData().size() - 6);
 
 		buffer >> interfaceHandle >> timeout >> receivedData;
-- 
2.43.0


From 52a4a3286f7e35f56512e06f9092128603ef4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 18/44] fix: a signal must not end UDPSocket::Receive with an
 error

---
 src/sockets/UDPSocket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 52858aa..3f9b9e6 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -69,7 +69,11 @@ namespace sockets {
 	std::vector<uint8_t> UDPSocket::Receive(size_t size) const {
 		std::vector<uint8_t> recvBuffer(size);
 
-		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
+		int len;
+		do {
+			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
+			// Check for EINTR, in which case, better luck next time
+		} while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
 		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-- 
2.43.0


From ae002417ea68c2b3a54ac067a639a26988dcbe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 19/44] fix: TCPSocket must not leak its descriptor if fcntl
 fails

---
 src/sockets/TCPSocket.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index e1600d0..952bdf1 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -47,12 +47,16 @@ namespace eipScanner {
 #if defined(__unix__) || defined(__APPLE__)
 			auto arg = fcntl(_sockedFd, F_GETFL, NULL);
 			if (arg < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				auto err = BaseSocket::getLastError();
+				Close();
+				throw std::system_error(err, BaseSocket::getErrorCategory());
 			}
 
 			arg |= O_NONBLOCK;
 			if (fcntl(_sockedFd, F_SETFL, arg) < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				auto err = BaseSocket::getLastError();
+				Close();
+				throw std::system_error(err, BaseSocket::getErrorCategory());
 			}
 #endif
 
-- 
2.43.0


From 5c1291c216f06f84db430dcd4c26542abf4fab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 20/44] fix: a signal must not restart the receive timeout

Each signal that interrupted recv() started the whole timeout anew: a
program with an interval timer shorter than the timeout waited forever
for a silent peer. Wait only for what is left of the timeout.
---
 src/sockets/BaseSocket.cpp | 20 ++++++++++++++++++++
 src/sockets/BaseSocket.h   |  1 +
 src/sockets/Platform.h     |  2 ++
 src/sockets/TCPSocket.cpp  |  6 ++++++
 src/sockets/UDPSocket.cpp  | 10 +++++++++-
 5 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 27a746b..e50a7e0 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -155,6 +155,26 @@ namespace sockets {
 		} while(ready != 0);
 	}
 
+	bool BaseSocket::waitForData(std::chrono::steady_clock::time_point stopTime) const {
+		int ready;
+		do {
+			timeval tv = makePortableInterval(std::chrono::ceil<std::chrono::milliseconds>(
+					stopTime - std::chrono::steady_clock::now()));
+
+			fd_set recvSet;
+			FD_ZERO(&recvSet);
+			FD_SET(_sockedFd, &recvSet);
+
+			ready = ::select(_sockedFd + 1, &recvSet, NULL, NULL, &tv);
+		} while (ready < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
+
+		if (ready < 0) {
+			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+		}
+
+		return ready > 0;
+	}
+
 	const EndPoint &BaseSocket::getRemoteEndPoint() const {
 		return _remoteEndPoint;
 	}
diff --git a/src/sockets/BaseSocket.h b/src/sockets/BaseSocket.h
index 81ebcec..7ed5f84 100644
--- a/src/sockets/BaseSocket.h
+++ b/src/sockets/BaseSocket.h
@@ -47,6 +47,7 @@ namespace sockets {
 	protected:
 		void BeginReceive();
     void Close();
+		bool waitForData(std::chrono::steady_clock::time_point stopTime) const;
 
 		int _sockedFd;
 		EndPoint _remoteEndPoint;
diff --git a/src/sockets/Platform.h b/src/sockets/Platform.h
index 180d901..ba8e6ad 100644
--- a/src/sockets/Platform.h
+++ b/src/sockets/Platform.h
@@ -10,6 +10,7 @@
 #if defined(_WIN32) || defined(WIN32) || defined(_WIN64)
 
 #define EIPSCANNER_SOCKET_ERROR(err) WSA##err
+#define EIPSCANNER_RECV_TIMEOUT_ERROR WSAETIMEDOUT
 
 namespace eipScanner {
 namespace sockets {
@@ -25,6 +26,7 @@ namespace sockets {
 
 #else
 #define EIPSCANNER_SOCKET_ERROR(err) err
+#define EIPSCANNER_RECV_TIMEOUT_ERROR EAGAIN
 #endif
 
 #endif // EIPSCANNER_SOCKETS_PLATFORM_H
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 952bdf1..6dbd565 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -160,11 +160,16 @@ namespace eipScanner {
 			std::vector<uint8_t> recvBuffer(size);
 
 			int count = 0;
+			auto stopTime = std::chrono::steady_clock::now() + _recvTimeout;
 			while (size > count) {
 				auto len = recv(_sockedFd, (char*)(recvBuffer.data() + count), size - count, 0);
 				if (len < 0) {
 					// Check for EINTR, in which case, better luck next time
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+						// ... but wait only for the rest of the timeout
+						if (_recvTimeout.count() > 0 && !waitForData(stopTime)) {
+							throw std::system_error(EIPSCANNER_RECV_TIMEOUT_ERROR, BaseSocket::getErrorCategory());
+						}
 						continue;
 					}
 					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
@@ -172,6 +177,7 @@ namespace eipScanner {
 
 				Logger(LogLevel::TRACE) << "Received " << len << " bytes from TCP socket #" << _sockedFd << ".";
 				count += len;
+				stopTime = std::chrono::steady_clock::now() + _recvTimeout;
 
 				if (len == 0) {
 					break;
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 3f9b9e6..5f4b847 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -69,11 +69,19 @@ namespace sockets {
 	std::vector<uint8_t> UDPSocket::Receive(size_t size) const {
 		std::vector<uint8_t> recvBuffer(size);
 
+		auto stopTime = std::chrono::steady_clock::now() + _recvTimeout;
 		int len;
 		do {
 			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
 			// Check for EINTR, in which case, better luck next time
-		} while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
+			if (len >= 0 || BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
+				break;
+			}
+			// ... but wait only for the rest of the timeout
+			if (_recvTimeout.count() > 0 && !waitForData(stopTime)) {
+				throw std::system_error(EIPSCANNER_RECV_TIMEOUT_ERROR, BaseSocket::getErrorCategory());
+			}
+		} while (true);
 		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-- 
2.43.0


From dbfa7714fe6c707eb63ff75f9bbd69a45611d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:09 +0000
Subject: [PATCH 21/44] fix: a peer that does not read must not block a request
 forever

send() waited without any limit for room in the socket buffer, so a
request, or the destruction of a session, never ended if the peer
stopped reading. Give up after the timeout of the socket.
---
 src/sockets/BaseSocket.cpp | 16 ++++++++++++----
 src/sockets/BaseSocket.h   |  4 ++++
 src/sockets/TCPSocket.cpp  | 12 ++++++++++++
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index e50a7e0..9589e5c 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -156,16 +156,24 @@ namespace sockets {
 	}
 
 	bool BaseSocket::waitForData(std::chrono::steady_clock::time_point stopTime) const {
+		return waitFor(false, stopTime);
+	}
+
+	bool BaseSocket::waitForRoom(std::chrono::steady_clock::time_point stopTime) const {
+		return waitFor(true, stopTime);
+	}
+
+	bool BaseSocket::waitFor(bool toSend, std::chrono::steady_clock::time_point stopTime) const {
 		int ready;
 		do {
 			timeval tv = makePortableInterval(std::chrono::ceil<std::chrono::milliseconds>(
 					stopTime - std::chrono::steady_clock::now()));
 
-			fd_set recvSet;
-			FD_ZERO(&recvSet);
-			FD_SET(_sockedFd, &recvSet);
+			fd_set fds;
+			FD_ZERO(&fds);
+			FD_SET(_sockedFd, &fds);
 
-			ready = ::select(_sockedFd + 1, &recvSet, NULL, NULL, &tv);
+			ready = ::select(_sockedFd + 1, toSend ? NULL : &fds, toSend ? &fds : NULL, NULL, &tv);
 		} while (ready < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
 
 		if (ready < 0) {
diff --git a/src/sockets/BaseSocket.h b/src/sockets/BaseSocket.h
index 7ed5f84..57499fd 100644
--- a/src/sockets/BaseSocket.h
+++ b/src/sockets/BaseSocket.h
@@ -48,6 +48,7 @@ namespace sockets {
 		void BeginReceive();
     void Close();
 		bool waitForData(std::chrono::steady_clock::time_point stopTime) const;
+		bool waitForRoom(std::chrono::steady_clock::time_point stopTime) const;
 
 		int _sockedFd;
 		EndPoint _remoteEndPoint;
@@ -56,6 +57,9 @@ namespace sockets {
 		BeginReceiveHandler _beginReceiveHandler;
 
 		static timeval makePortableInterval(const std::chrono::milliseconds &recvTimeout);
+
+	private:
+		bool waitFor(bool toSend, std::chrono::steady_clock::time_point stopTime) const;
 	};
 }
 }
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 6dbd565..0865d2b 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -141,6 +141,12 @@ namespace eipScanner {
 #ifdef MSG_NOSIGNAL
 			// Do not generate SIGPIPE when calling send() on closed socket
 			flags |= MSG_NOSIGNAL;
+#endif
+#ifdef MSG_DONTWAIT
+			// A peer that doesn't read must not block us longer than the timeout
+			if (_recvTimeout.count() > 0) {
+				flags |= MSG_DONTWAIT;
+			}
 #endif
 			size_t count = 0;
 			while (count < data.size()) {
@@ -150,6 +156,12 @@ namespace eipScanner {
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
 						continue;
 					}
+					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EWOULDBLOCK) && _recvTimeout.count() > 0) {
+						if (!waitForRoom(std::chrono::steady_clock::now() + _recvTimeout)) {
+							throw std::system_error(EIPSCANNER_RECV_TIMEOUT_ERROR, BaseSocket::getErrorCategory());
+						}
+						continue;
+					}
 					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 				}
 				count += len;
-- 
2.43.0


From 8a063f79f521ddce3443ec4ea98b2aca494601ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:55 +0000
Subject: [PATCH 22/44] fix: read the identity of the requested instance, not
 always of instance 1

---
 src/IdentityObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 0e771c9..7e0e1c3 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -37,7 +37,7 @@ namespace eipScanner {
 		auto response = messageRouter->sendRequest(
 				si,
 				ServiceCodes::GET_ATTRIBUTE_ALL,
-				EPath(CLASS_ID, 1),
+				EPath(CLASS_ID, instanceId),
 				{});
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
-- 
2.43.0


From b25c4ac43a93abb541dc93a1ace1f51c0bf9693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 23/44] fix: receive I/O data of large connections whole

---
 src/ConnectionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index f75ade1..def8eb0 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -244,7 +244,7 @@ namespace eipScanner {
 			});
 
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
-				auto recvData = sock.Receive(8192);
+				auto recvData = sock.Receive(65535);
 				CommonPacket commonPacket;
 				cip::CipUdint connectionId;
 				std::vector<uint8_t> ioData;
-- 
2.43.0


From 51cf5c821f3c70003c72ebbe0489180b2cd3bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:12 +0000
Subject: [PATCH 24/44] fix: report that a datagram could not be sent

---
 src/IOConnection.cpp      | 9 ++++++++-
 src/sockets/UDPSocket.cpp | 8 ++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 9990080..6c7f9ad 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -2,6 +2,8 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 
+#include <system_error>
+
 #include "IOConnection.h"
 #include "eip/CommonPacketItemFactory.h"
 #include "eip/CommonPacket.h"
@@ -144,7 +146,12 @@ namespace eipScanner {
 				buffer << _outputData;
 				commonPacket << factory.createConnectedDataItem(buffer.data());
 
-				_socket->Send(commonPacket.pack());
+				try {
+					_socket->Send(commonPacket.pack());
+				} catch (const std::system_error& err) {
+					Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
+						<< " failed to send data: " << err.what();
+				}
 			}
 		}
 
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 5f4b847..289a96b 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -59,9 +59,13 @@ namespace sockets {
 		flags |= MSG_NOSIGNAL;
 #endif
 		auto addr = _remoteEndPoint.getAddr();
-		int count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
+		int count;
+		do {
+			count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
 				(struct sockaddr *)&addr, sizeof(addr));
-		if (count < data.size()) {
+			// Check for EINTR, in which case, better luck next time
+		} while (count < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
+		if (count < 0 || static_cast<size_t>(count) < data.size()) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 	}
-- 
2.43.0


From e3da31081fc9d0c6746ce128a3715a99fdc403f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:31 +0000
Subject: [PATCH 25/44] fix: report that the receive timeout could not be set

---
 src/sockets/BaseSocket.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 9589e5c..d87cdd8 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -80,11 +80,14 @@ namespace sockets {
 
 #if defined(_WIN32) || defined(WIN32) || defined(_WIN64)
                 uint32_t ms = recvTimeout.count();
-                setsockopt(_sockedFd, SOL_SOCKET, SO_RCVTIMEO, (const char*)&ms, sizeof ms);
+                auto res = setsockopt(_sockedFd, SOL_SOCKET, SO_RCVTIMEO, (const char*)&ms, sizeof ms);
 #else
                 timeval tv = makePortableInterval(recvTimeout);
-                setsockopt(_sockedFd, SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof tv);
+                auto res = setsockopt(_sockedFd, SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof tv);
 #endif
+                if (res < 0) {
+                        throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+                }
 
 	}
 
-- 
2.43.0


From 9292c5d99094083ef6c3f5941320f01d23c614bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 26/44] fix: refuse descriptors that select cannot handle

---
 src/sockets/TCPSocket.cpp | 9 +++++++++
 src/sockets/UDPSocket.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 0865d2b..2ccb833 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -4,6 +4,7 @@
 
 #if defined(__unix__) || defined(__APPLE__)
 #include <sys/socket.h>
+#include <sys/select.h>
 #include <netinet/in.h>
 #include <arpa/inet.h>
 #include <unistd.h>
@@ -36,6 +37,14 @@ namespace eipScanner {
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
 
+#if defined(__unix__) || defined(__APPLE__)
+			if (_sockedFd >= FD_SETSIZE) {
+				// Out of the range of select()
+				Close();
+				throw std::system_error(EMFILE, BaseSocket::getErrorCategory());
+			}
+#endif
+
 #ifdef SO_NOSIGPIPE
 			// Do not generate SIGPIPE for this socket
 			if (setsockopt(_sockedFd, SOL_SOCKET, SO_NOSIGPIPE, &(int){ 1 }, sizeof(int)) < 0) {
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 289a96b..29f33a5 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -4,6 +4,7 @@
 
 #if defined(__unix__) || defined(__APPLE__)
 #include <sys/socket.h>
+#include <sys/select.h>
 #include <netinet/in.h>
 #include <arpa/inet.h>
 #include <unistd.h>
@@ -34,6 +35,14 @@ namespace sockets {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+#if defined(__unix__) || defined(__APPLE__)
+		if (_sockedFd >= FD_SETSIZE) {
+			// Out of the range of select()
+			Close();
+			throw std::system_error(EMFILE, BaseSocket::getErrorCategory());
+		}
+#endif
+
 #ifdef SO_NOSIGPIPE
 		// Do not generate SIGPIPE for this socket
 		if (setsockopt(_sockedFd, SOL_SOCKET, SO_NOSIGPIPE, &(int){ 1 }, sizeof(int)) < 0) {
-- 
2.43.0


From 2b4e9836d87655f95900d45e32c12c0e1daefc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:49 +0000
Subject: [PATCH 27/44] fix: signal the failure of an upload the device aborted

---
 src/fileObject/FileObjectUploadInProgressState.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 6d3fbbd..28710b4 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -87,7 +87,9 @@ namespace fileObject {
 					return false;
 				}
 				default:
-					throw std::runtime_error("Received unexpected transfer type");
+					logWithStateName(LogLevel::ERROR, "Received unexpected transfer type");
+					_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+					return false;
 			};
 
 			_transferNumber++;
-- 
2.43.0


From ad5b2a7f0c92f37cccf39fcd3e06b5b2a8d5b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 28/44] fix: a request that doesn't fit into a packet must be
 refused

Its length was cut to 16 bits and the rest of the data was taken by the
target for the next packets of the session.
---
 src/eip/CommonPacketItem.cpp | 7 +++++++
 src/eip/EncapsPacket.cpp     | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/eip/CommonPacketItem.cpp b/src/eip/CommonPacketItem.cpp
index b716caf..9f804ed 100644
--- a/src/eip/CommonPacketItem.cpp
+++ b/src/eip/CommonPacketItem.cpp
@@ -2,6 +2,10 @@
 // Created by Aleksey Timin on 11/16/19.
 //
 
+#include <limits>
+#include <string>
+#include <stdexcept>
+
 #include "utils/Buffer.h"
 #include "CommonPacketItem.h"
 
@@ -21,6 +25,9 @@ namespace eip {
 		, _length(data.size())
 		, _data(data) {
 
+		if (data.size() > std::numeric_limits<cip::CipUint>::max()) {
+			throw std::runtime_error("CommonPacketItem data of " + std::to_string(data.size()) + " bytes is too long");
+		}
 	}
 
 	CommonPacketItem::~CommonPacketItem() = default;
diff --git a/src/eip/EncapsPacket.cpp b/src/eip/EncapsPacket.cpp
index 64d2ed3..bf6ddae 100644
--- a/src/eip/EncapsPacket.cpp
+++ b/src/eip/EncapsPacket.cpp
@@ -2,6 +2,7 @@
 // Created by flipback on 11/16/19.
 //
 
+#include <limits>
 #include <string>
 #include <stdexcept>
 #include "EncapsPacket.h"
@@ -94,6 +95,10 @@ namespace eip {
 	}
 
 	void EncapsPacket::setData(const std::vector<uint8_t> &data) {
+		if (data.size() > std::numeric_limits<cip::CipUint>::max()) {
+			throw std::runtime_error("EncapsPacket data of " + std::to_string(data.size()) + " bytes is too long");
+		}
+
 		_data = data;
 		_length = data.size();
 	}
-- 
2.43.0


From 8b5373226bd8b6002949e93248b089ee1ceaca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 29/44] fix: 8-bit paths must not cut identifiers that need 16
 bits

A request with such an identifier went to another object. The identifiers
above 255 are packed as 16-bit segments now.
---
 src/cip/EPath.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 447ef30..5c4512d 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -1,6 +1,7 @@
 //
 // Created by Aleksey Timin on 11/16/19.
 //
+#include <limits>
 #include <stdexcept>
 #include "utils/Buffer.h"
 #include "EPath.h"
@@ -18,6 +19,19 @@ namespace cip {
 		ATTRIBUTE_16_BITS = 0x31,
 	};
 
+	// An ID that needs more than 8 bits must not be cut to another ID
+	static bool isLongId(CipUint id) {
+		return id > std::numeric_limits<CipUsint>::max();
+	}
+
+	static void packSegment(Buffer& buffer, EPathSegmentTypes shortType, EPathSegmentTypes longType, CipUint id) {
+		if (isLongId(id)) {
+			buffer << static_cast<CipUint>(longType) << id;
+		} else {
+			buffer << static_cast<CipUsint>(shortType) << static_cast<CipUsint>(id);
+		}
+	}
+
 	EPath::EPath()
 			: _classId{0}
 			, _objectId{0}
@@ -52,18 +66,15 @@ namespace cip {
 	std::vector<uint8_t> EPath::packPaddedPath(bool use_8_bit_path_segments) const {
         if (use_8_bit_path_segments)
         {
-            Buffer buffer(_size*2);
+            Buffer buffer(_size*4);
 
-            auto classSegment = static_cast<CipUsint>(EPathSegmentTypes::CLASS_8_BITS);
-            buffer << classSegment << static_cast<CipUsint>(_classId);
+            packSegment(buffer, EPathSegmentTypes::CLASS_8_BITS, EPathSegmentTypes::CLASS_16_BITS, _classId);
 
             if (_size > 1) {
-                auto instanceSegment = static_cast<CipUsint>(EPathSegmentTypes::INSTANCE_8_BITS);
-                buffer << instanceSegment << static_cast<CipUsint>(_objectId);
+                packSegment(buffer, EPathSegmentTypes::INSTANCE_8_BITS, EPathSegmentTypes::INSTANCE_16_BITS, _objectId);
 
                 if (_size > 2) {
-                    auto attributeSegment = static_cast<CipUsint>(EPathSegmentTypes::ATTRIBUTE_8_BITS);
-                    buffer << attributeSegment << static_cast<CipUsint>(_attributeId);
+                    packSegment(buffer, EPathSegmentTypes::ATTRIBUTE_8_BITS, EPathSegmentTypes::ATTRIBUTE_16_BITS, _attributeId);
                 }
             }
 
@@ -104,7 +115,10 @@ namespace cip {
 
 	CipUsint EPath::getSizeInWords(bool use_8_bit_path_segments) const {
         if (use_8_bit_path_segments) {
-            return _size;
+            return _size
+                + isLongId(_classId)
+                + (_size > 1 && isLongId(_objectId))
+                + (_size > 2 && isLongId(_attributeId));
         }
         else {
     		return _size*2;
-- 
2.43.0


From 9708603dcf95360ad0b504b974a9f0c7ad77592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 30/44] fix: the headers of a connection must not overflow its
 size field

A size that is legal without them set the bit of the variable size (or
the ones above) and opened a connection of another kind and size.
---
 src/ConnectionManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index def8eb0..e2db50b 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -5,6 +5,7 @@
 #include <cassert>
 #include <cstdlib>
 #include <random>
+#include <stdexcept>
 
 #include "ConnectionManager.h"
 #include "eip/CommonPacket.h"
@@ -87,6 +88,12 @@ namespace eipScanner {
 			connectionParameters.t2oNetworkConnectionParams += 4;
 		}
 
+		// The headers must not spill over into the other fields of the parameters
+		if (NetworkConnectionParametersBuilder(connectionParameters.o2tNetworkConnectionParams, isLarge).getConnectionSize() < o2tSize
+			|| NetworkConnectionParametersBuilder(connectionParameters.t2oNetworkConnectionParams, isLarge).getConnectionSize() < t2oSize) {
+			throw std::invalid_argument("The size of the connection with its headers is too large");
+		}
+
 		MessageRouterResponse messageRouterResponse;
 		if (isLarge) {
 			LargeForwardOpenRequest request(connectionParameters);
-- 
2.43.0


From a0abf51aaa34b94066ffa137ed16ba09a0a1f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 31/44] fix: setting a field of the network connection
 parameters again must replace it

---
 .../NetworkConnectionParametersBuilder.cpp    | 24 +++++++++++--------
 .../NetworkConnectionParametersBuilder.h      |  4 +++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index 219a191..e90ece5 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -19,38 +19,38 @@ namespace connectionManager {
 
 	}
 
-	NetworkConnectionParametersBuilder NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
+	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
 		if (_lfo) {
-			_value |= (val << 31);
+			setField(val, 1, 31);
 		} else {
-			_value |= (val << 15);
+			setField(val, 1, 15);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setConnectionType(ConnectionType val) {
 		if (_lfo) {
-			_value |= (val << 29);
+			setField(val, 3, 29);
 		} else {
-			_value |= (val << 13);
+			setField(val, 3, 13);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setPriority(Priority val) {
 		if (_lfo) {
-			_value |= (val << 26);
+			setField(val, 3, 26);
 		}else {
-			_value |= (val << 10);
+			setField(val, 3, 10);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setType(Type val) {
 		if (_lfo) {
-			_value |= (val << 25);
+			setField(val, 1, 25);
 		} else {
-			_value |= (val << 9);
+			setField(val, 1, 9);
 		}
 		return *this;
 	}
@@ -60,7 +60,7 @@ namespace connectionManager {
 		if (_lfo) {
 			mask = 0x0000FFFF;
 		}
-		_value |= val & mask;
+		setField(val, mask, 0);
 		return *this;
 	}
 
@@ -108,6 +108,10 @@ namespace connectionManager {
 		return static_cast<CipUint>(_value & mask);
 }
 
+	void NetworkConnectionParametersBuilder::setField(CipUdint val, CipUdint mask, int shift) {
+		_value = (_value & ~(mask << shift)) | ((val & mask) << shift);
+	}
+
 }
 }
 }
diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
index ba091fa..7facadc 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
@@ -41,7 +41,7 @@ namespace connectionManager {
 		NetworkConnectionParametersBuilder(CipUdint val = 0, bool lfo = false);
 		virtual ~NetworkConnectionParametersBuilder() = default;
 
-		NetworkConnectionParametersBuilder setRedundantOwner(RedundantOwner val);
+		NetworkConnectionParametersBuilder& setRedundantOwner(RedundantOwner val);
 		NetworkConnectionParametersBuilder& setConnectionType(ConnectionType val);
 		NetworkConnectionParametersBuilder& setPriority(Priority val);
 		NetworkConnectionParametersBuilder& setType(Type val);
@@ -55,6 +55,8 @@ namespace connectionManager {
 		CipUint getConnectionSize() const;
 
 	private:
+		void setField(CipUdint val, CipUdint mask, int shift);
+
 		CipUdint _value;
 		bool _lfo;
 	};
-- 
2.43.0


From 5a18c18286d84e256f93cee28ee2dcdde9d70075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 32/44] fix: limits set in engineering units must not be cut to
 the next lower value

---
 src/ParameterObject.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ParameterObject.h b/src/ParameterObject.h
index c338f24..bb15069 100644
--- a/src/ParameterObject.h
+++ b/src/ParameterObject.h
@@ -7,6 +7,7 @@
 
 #include <cmath>
 #include <stdexcept>
+#include <type_traits>
 #include "MessageRouter.h"
 #include "utils/Buffer.h"
 #include "BaseObject.h"
@@ -148,7 +149,7 @@ public:
 	 */
 	template <typename T>
 	void setEngMinValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = roundValue<T>(engToActualValue(value));
 		_minValue = decodeValue<T>(actualValue);
 	}
 
@@ -182,7 +183,7 @@ public:
 	 */
 	template <typename T>
 	void setEngMaxValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = roundValue<T>(engToActualValue(value));
 		_maxValue = decodeValue<T>(actualValue);
 	}
 
@@ -216,7 +217,7 @@ public:
 	 */
 	template <typename T>
 	void setEngDefaultValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = roundValue<T>(engToActualValue(value));
 		_defaultValue = decodeValue<T>(actualValue);
 	}
 
@@ -344,6 +345,12 @@ public:
 
 private:
 
+	template <typename T>
+	static T roundValue(cip::CipLreal value) {
+		// The scaled value is only near to the integer it stands for
+		return static_cast<T>(std::is_integral<T>::value ? std::round(value) : value);
+	}
+
 	template <typename T>
 	T encodeValue(const std::vector<uint8_t>& data) const {
 		utils::Buffer buffer(data);
-- 
2.43.0


From f9059c702c4d1f9a1bbdd429d071262b99daf50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 33/44] fix: the scaling of a parameter must not overflow when
 engineering units are converted back

---
 src/ParameterObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index adc702b..814ff7a 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -306,7 +306,7 @@ namespace eipScanner {
 	cip::CipLreal ParameterObject::engToActualValue(cip::CipLreal engValue) const {
 		if (_isScalable) {
 			return (engValue * _scalingDivisor * std::pow(10, _precision))
-				   / (_scalingMultiplier * _scalingBase) - _scalingOffset;
+				   / (static_cast<cip::CipLreal>(_scalingMultiplier) * _scalingBase) - _scalingOffset;
 		} else {
 			return engValue;
 		}
-- 
2.43.0


From 531e8f15df85375909e619c28d1cc5e3cdb52d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 34/44] fix: the scaling attributes of a parameter must not be
 mixed up when their sizes are wrong

---
 src/ParameterObject.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 814ff7a..eb925c7 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -157,7 +157,13 @@ namespace eipScanner {
 							throw std::runtime_error("Failed to read value of attribute=" + std::to_string(attrId));
 						}
 
-						data.insert(data.end(), response.getData().begin(), response.getData().end());
+						// Every attribute is 2 bytes long, whatever follows belongs to none of them
+						auto attribute = response.getData();
+						if (attribute.size() < sizeof(CipUint)) {
+							throw std::runtime_error("Not enough data in the value of attribute=" + std::to_string(attrId));
+						}
+
+						data.insert(data.end(), attribute.begin(), attribute.begin() + sizeof(CipUint));
 					}
 
 					buffer = Buffer(data);
-- 
2.43.0


From dad9a77ed84630033f1b31f092d5b9305183f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 35/44] fix: an id of 0 in an expanded path must not be lost

---
 src/cip/EPath.cpp                              | 14 +++++++++++---
 src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 5c4512d..dce4568 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -145,6 +145,8 @@ namespace cip {
 		_objectId = 0;
 		_attributeId = 0;
 		_size = 0;
+		// 0 is a legal ID, for example the instance of the class itself
+		bool hasClass = false, hasObject = false, hasAttribute = false;
 
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
@@ -156,26 +158,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -186,13 +194,13 @@ namespace cip {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasObject) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index db26946..f5d6202 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -101,6 +101,8 @@ namespace cip {
 		_objectId = 0;
 		_attributeId = 0;
 		_size = 0;
+		// 0 is a legal ID, for example the instance of the class itself
+		bool hasClass = false, hasObject = false, hasAttribute = false;
 
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
@@ -112,26 +114,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -142,13 +150,13 @@ namespace cip {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasObject) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
-- 
2.43.0


From aa52428a03eea0b9ba4fef12891fb84a7aa34c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 36/44] fix: 16-bit ids must not be cut when a Yaskawa path is
 expanded

---
 src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index f5d6202..3723845 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include <stdexcept>
 #include "utils/Buffer.h"
 #include "Yaskawa_EPath.h"
@@ -15,6 +16,15 @@ namespace cip {
 		ATTRIBUTE_16_BITS = 0x31,
 	};
 
+	// The path holds 8-bit IDs only, a longer one must not be cut to another ID
+	static CipUsint toShortId(CipUint id) {
+		if (id > std::numeric_limits<CipUsint>::max()) {
+			throw std::runtime_error("ID doesn't fit into 8 bits =" + std::to_string(id));
+		}
+
+		return static_cast<CipUsint>(id);
+	}
+
 	Yaskawa_EPath::Yaskawa_EPath()
 			: _classId{0}
 			, _objectId{0}
@@ -118,7 +128,7 @@ namespace cip {
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
-					_classId = word;
+					_classId = toShortId(word);
 					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
@@ -128,7 +138,7 @@ namespace cip {
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
-					_objectId = word;
+					_objectId = toShortId(word);
 					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
@@ -138,7 +148,7 @@ namespace cip {
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
-					_attributeId = word;
+					_attributeId = toShortId(word);
 					hasAttribute = true;
 					break;
 				default:
-- 
2.43.0


From 9744fe1da5dbbbf9e878626a3dcc9dd55dbff31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 37/44] fix: strings must not be encoded with a wrong length

---
 src/cip/CipString.h | 2 +-
 src/utils/Buffer.h  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cip/CipString.h b/src/cip/CipString.h
index 1cdc713..c0857fb 100644
--- a/src/cip/CipString.h
+++ b/src/cip/CipString.h
@@ -42,7 +42,7 @@ namespace cip {
 		}
 
 	private:
-		T _length;
+		T _length{0};
 		std::vector<uint8_t> _data;
 	};
 
diff --git a/src/utils/Buffer.h b/src/utils/Buffer.h
index 2a5b7d5..2aa86fc 100644
--- a/src/utils/Buffer.h
+++ b/src/utils/Buffer.h
@@ -7,6 +7,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <stdexcept>
 #include <vector>
 #include "cip/CipString.h"
 #include "cip/CipRevision.h"
@@ -88,6 +89,10 @@ namespace utils {
 
 		template <typename T>
 		utils::Buffer& operator<<(const cip::CipBaseString<T>& cipSting) {
+			if (cipSting.getData().size() != cipSting.getLength()) {
+				throw std::length_error("Buffer: the string is too long for its type");
+			}
+
 			return *this << cipSting.getLength() << cipSting.getData();
 		}
 
-- 
2.43.0


From 5bcd05ee34836ca0910372eaaf9ecb0327009a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 38/44] fix: Don't terminate when ending a session runs out of
 memory

The destructor of SessionInfo created its last packet outside of the try
block, so a failing allocation left a destructor and ended the program.
---
 src/SessionInfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index 4417388..151618a 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -39,11 +39,11 @@ namespace eipScanner {
 	}
 
 	SessionInfo::~SessionInfo() {
-		EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
 		try {
+			EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
 			_socket.Send(packet.pack());
 			Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
-		} catch (const std::system_error& err) {
+		} catch (const std::exception& err) {
 			Logger(LogLevel::WARNING) << "Failed to unregister session " << _sessionHandle << ": " << err.what();
 		}
 	}
-- 
2.43.0


From e5ea0571ff26515a5db4fa6a35e4ac10482fea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 39/44] fix: Don't let a failing log appender end the program

The destructor of Logger let the exceptions of the appender (and of
composing the message) out, which terminates the program.
---
 src/utils/Logger.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/Logger.cpp b/src/utils/Logger.cpp
index 495bc84..8e832bb 100644
--- a/src/utils/Logger.cpp
+++ b/src/utils/Logger.cpp
@@ -17,7 +17,11 @@ namespace utils {
 
 	Logger::~Logger() {
 		if (_globalLogLevel != LogLevel::OFF && _logLevel <= _globalLogLevel) {
-			_appender->print(_logLevel, (_stream).str());
+			try {
+				_appender->print(_logLevel, (_stream).str());
+			} catch (...) {
+				// A message that cannot be printed must not end the program
+			}
 		}
 	}
 
-- 
2.43.0


From c810b9c036128c1baa61c1418e8fac758abb0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 40/44] fix: Close a connection whose close listener throws

The connection timed out, its close listener threw, and the connection
stayed open in the manager: it went on sending and receiving, and its
close listener was called again.
---
 src/ConnectionManager.cpp | 20 ++++++++++++++++----
 src/IOConnection.cpp      |  2 ++
 src/IOConnection.h        |  1 +
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index e2db50b..10ddb6f 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -231,11 +231,23 @@ namespace eipScanner {
 				continue;
 			}
 
-			if (!entry.second->notifyTick()) {
-				io = _connectionMap.find(entry.first);
-				if (io != _connectionMap.end() && io->second == entry.second) {
-					_connectionMap.erase(io);
+			auto remove = [this, &entry] {
+				auto it = _connectionMap.find(entry.first);
+				if (it != _connectionMap.end() && it->second == entry.second) {
+					_connectionMap.erase(it);
 				}
+			};
+
+			try {
+				if (!entry.second->notifyTick()) {
+					remove();
+				}
+			} catch (...) {
+				// The close listener has thrown, the connection is closed anyway
+				if (entry.second->_isClosed) {
+					remove();
+				}
+				throw;
 			}
 		}
 	}
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 6c7f9ad..258d935 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -46,6 +46,7 @@ namespace eipScanner {
 			, _receiveDataHandle([](auto, auto, auto) {})
 			, _closeHandle([]() {})
 			, _sendDataHandle([](auto) {})
+			, _isClosed(false)
 			, _lastHandleTime(std::chrono::steady_clock::now()) {
 	}
 
@@ -111,6 +112,7 @@ namespace eipScanner {
 		if (_connectionTimeoutCount > _connectionTimeoutMultiplier * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			auto closeHandle = _closeHandle;
+			_isClosed = true;
 			closeHandle();
 			return false;
 		}
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 4324ea8..556910c 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -106,6 +106,7 @@ namespace eipScanner {
 		CloseHandle _closeHandle;
 		SendDataHandle _sendDataHandle;
 
+		bool _isClosed;
 		std::chrono::steady_clock::time_point _lastHandleTime;
 	};
 }
-- 
2.43.0


From a1fa40a33a94d4aca372225491ea2ee22d34e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 41/44] fix: an upload that was completed is over

---
 .../FileObjectUploadInProgressState.cpp       | 23 +++++++++++++------
 .../FileObjectUploadInProgressState.h         |  2 ++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 28710b4..b5f83f2 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -3,6 +3,7 @@
 //
 
 #include "FileObjectUploadInProgressState.h"
+#include "FileObjectLoadedState.h"
 #include "utils/Buffer.h"
 
 namespace eipScanner {
@@ -53,7 +54,7 @@ namespace fileObject {
 
 			if (transferNumber != _transferNumber) {
 				logWithStateName(LogLevel::ERROR, "Wrong transfer number");
-				_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+				complete(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 				return false;
 			}
 
@@ -77,29 +78,37 @@ namespace fileObject {
 					std::vector<uint8_t> fileData(response.getData().size() - 4);	//TODO: Check CRC
 					buffer >> fileData;
 
-					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
-					if (_fileContent.size() == _fileSize) {
-						_handler(cip::GeneralStatusCodes::SUCCESS, _fileContent);
+					auto fileContent = _fileContent;
+					fileContent.insert(fileContent.end(), fileData.begin(), fileData.end());
+					if (fileContent.size() == _fileSize) {
+						complete(cip::GeneralStatusCodes::SUCCESS, fileContent);
 					} else {
 						logWithStateName(LogLevel::ERROR, "Wrong size of the uploaded file");
-						_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+						complete(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 					}
 					return false;
 				}
 				default:
 					logWithStateName(LogLevel::ERROR, "Received unexpected transfer type");
-					_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+					complete(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 					return false;
 			};
 
 			_transferNumber++;
 		} else {
 			logGeneralAndAdditionalStatus(response);
-			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			complete(response.getGeneralStatusCode(), std::vector<uint8_t>());
 			return false;
 		}
 
 		return true;
 	}
+
+	void FileObjectUploadInProgressState::complete(cip::GeneralStatusCodes status, const std::vector<uint8_t>& fileContent) {
+		// The upload is over before the handler is called: it may begin another one or destroy the file object
+		auto handler = _handler;
+		setState<FileObjectLoadedState>();
+		handler(status, fileContent);
+	}
 }
 }
diff --git a/src/fileObject/FileObjectUploadInProgressState.h b/src/fileObject/FileObjectUploadInProgressState.h
index 8a8b25f..a63c159 100644
--- a/src/fileObject/FileObjectUploadInProgressState.h
+++ b/src/fileObject/FileObjectUploadInProgressState.h
@@ -21,6 +21,8 @@ namespace fileObject {
 		bool transfer(SessionInfoIf::SPtr si) override;
 
 	private:
+		void complete(cip::GeneralStatusCodes status, const std::vector<uint8_t>& fileContent);
+
 		cip::CipUdint _fileSize;
 		cip::CipUsint _transferSize;
 		std::vector<uint8_t>_fileContent;
-- 
2.43.0


From c2ea59e4a756cf5b27e4215752f123bc118d2f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 42/44] fix: a listener of drive faults may replace itself

---
 src/vendor/ra/powerFlex525/DPIFaultManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultManager.cpp b/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
index 00f2334..08c1838 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
@@ -67,7 +67,9 @@ namespace powerFlex525 {
 				faultInformation.setFaultDetails(faultDetails);
 			}
 			faultCount++;
-			_newFaultHandler(faultInformation);
+			// The listener may replace itself
+			auto newFaultHandler = _newFaultHandler;
+			newFaultHandler(faultInformation);
 		}
 
 		if (faultCount > 0) {
-- 
2.43.0


From f6b37a00c17d41d4180c82b2902a6439ea58a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 43/44] fix: Don't terminate when the destructor of a file
 state cannot log

---
 src/fileObject/FileObjectState.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fileObject/FileObjectState.cpp b/src/fileObject/FileObjectState.cpp
index 84d4bc2..73374bf 100644
--- a/src/fileObject/FileObjectState.cpp
+++ b/src/fileObject/FileObjectState.cpp
@@ -27,7 +27,11 @@ namespace fileObject {
 	}
 
 	FileObjectState::~FileObjectState() {
-		logWithStateName(utils::LogLevel::TRACE, "Stop");
+		try {
+			logWithStateName(utils::LogLevel::TRACE, "Stop");
+		} catch (...) {
+			// A destructor must not throw, whatever the logging does
+		}
 	}
 
 	FileObjectStateCodes FileObjectState::getStateCode() const {
-- 
2.43.0


From be314bfacd509246875bc1b3c80fd85c0a1ebbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 44/44] fix: the value of a parameter made by hand can be
 updated

---
 src/ParameterObject.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index eb925c7..5b1a752 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -56,7 +56,8 @@ namespace eipScanner {
             , _scalingDivisor(1)
             , _scalingBase(1)
             , _scalingOffset(0)
-            , _precision(0) {
+            , _precision(0)
+            , _messageRouter{std::make_shared<MessageRouter>()} {
     }
 
     ParameterObject::ParameterObject(cip::CipUint instanceId, bool fullAttributes,
-- 
2.43.0

