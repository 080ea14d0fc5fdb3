// Simulated EtherNet/IP adapter (the peer of the library), with a codec written independently of the library.
#pragma once
#include "kernel.h"
#include <optional>

namespace sim {

struct Wr {
	Bytes b;
	Wr& u8(uint32_t v) { b.push_back((uint8_t)v); return *this; }
	Wr& u16(uint32_t v) { return u8(v & 0xff).u8((v >> 8) & 0xff); }
	Wr& u32(uint32_t v) { return u16(v & 0xffff).u16(v >> 16); }
	Wr& be16(uint32_t v) { return u8((v >> 8) & 0xff).u8(v & 0xff); }
	Wr& be32(uint32_t v) { return be16(v >> 16).be16(v & 0xffff); }
	Wr& raw(const Bytes& d) { b.insert(b.end(), d.begin(), d.end()); return *this; }
	Wr& str8(const std::string& s) { u8(s.size()); b.insert(b.end(), s.begin(), s.end()); return *this; }
};
struct Rd {
	const Bytes& b; size_t p = 0; bool ok = true;
	explicit Rd(const Bytes& b, size_t p = 0) : b(b), p(p) {}
	size_t left() const { return b.size() - p; }
	bool need(size_t n) { if (left() < n) { ok = false; p = b.size(); return false; } return true; }
	uint32_t u8() { return need(1) ? b[p++] : 0; }
	uint32_t u16() { if (!need(2)) return 0; uint32_t v = b[p] | b[p + 1] << 8; p += 2; return v; }
	uint32_t u32() { if (!need(4)) return 0; uint32_t v = b[p] | b[p + 1] << 8 | b[p + 2] << 16 | (uint32_t)b[p + 3] << 24; p += 4; return v; }
	Bytes raw(size_t n) { if (!need(n)) return {}; Bytes r(b.begin() + p, b.begin() + p + n); p += n; return r; }
	Bytes rest() { return raw(left()); }
};

struct Item { uint16_t type; Bytes data; bool operator==(const Item& o) const { return type == o.type && data == o.data; } };
Bytes packItems(const std::vector<Item>& v);
Bytes sockaddrBytes(uint32_t ip, uint16_t port);

struct Path { int cls = -1, inst = -1, attr = -1; bool seg8 = false, seg16 = false; };

struct Reply {
	uint8_t status = 0;
	std::vector<uint16_t> addl;
	Bytes data;
	std::vector<Item> extra;
};

// How a reply is (mis)delivered.
enum RF : int {
	RF_NONE, RF_LATE, RF_NOREPLY, RF_FIN_BEFORE, RF_RST_BEFORE, RF_FIN_MID, RF_RST_MID, RF_STALL_MID,
	RF_ENCAPS_STATUS, RF_WRONG_HANDLE, RF_GARBLE, RF_TRUNC, RF_POWERCYCLE, RF_TRICKLE, RF_COUNT
};
const char* rfName(int rf);

struct Rx {                      // one frame received from the library
	int conn; int64_t t;
	Bytes frame;
	uint16_t cmd = 0; uint32_t handle = 0;
	bool isRequest = false;
	std::vector<Item> items;     // CPF items of a request
	uint8_t service = 0; Path path; Bytes data;
	Reply reply; int rf = RF_NONE; bool replied = false; int64_t lastByteAt = 0;
	bool alteredContent = false; // the reply's content was changed on its way (garbled, truncated)
};

struct ParamObj {
	Bytes value, min, max, def; uint8_t type = 0xC7; Bytes linkPath; uint16_t descriptor = 0;
	std::string name, units, help; uint16_t mul = 1, div = 1, base = 1; int16_t off = 0; uint8_t precision = 0;
	bool full = true;
	size_t attrSize[4] = {2, 2, 2, 2};             // of the scaling attributes as answered one by one
};
struct FileObj {
	Bytes content; uint8_t transferSize = 200; uint8_t state = 2;
	int cur = -1; int chunks = 0;
	int errorAt = -1; uint8_t errorStatus = 0;     // reply with this status at that chunk
	int wrongNumberAt = -1, abortAt = -1, shortLastBy = 0, lieSize = 0;
};
struct IdentityData { uint16_t vendor = 1, type = 2, product = 3; uint8_t major = 1, minor = 1; uint16_t status = 0; uint32_t serial = 1; std::string name = "dev"; Bytes pack() const; };

struct Adapter;
struct IoConn {                  // the target's side of an implicit connection
	Adapter* dev; int idx;
	uint16_t serial, vendor; uint32_t origSerial;
	uint32_t o2tId, t2oId, o2tRpi, t2oRpi, o2tApi, t2oApi;
	uint32_t o2tParams, t2oParams;
	uint8_t prio, ticks, mult, trigger; bool large; Bytes path;
	uint32_t reqO2tId, reqT2oId;
	uint32_t dstIp; uint16_t dstPort;          // where the target wants O->T data
	bool open = true;
	// production
	bool rt = false; size_t size = 0; bool variable = false;
	bool producing = false; uint32_t seq32 = 0; uint16_t seq16 = 0; uint64_t count = 0;
	int64_t period = 0;
	int sick = 0;              // 1: always a wrong data size, 2: malformed datagrams, 3: paused
	bool cls1() const { return (trigger & 0x0f) == 1 || (trigger & 0x0f) == 3; }
};

struct OpenPolicy {              // how the next ForwardOpen is answered
	bool reject = false; uint8_t status = 1; std::vector<uint16_t> addl;
	int sockaddr = 0;            // 0 none, 1 O2T with address 0.0.0.0, 2 O2T with an explicit address
	uint32_t sockIp = 0; uint16_t sockPort = 2222;
	bool t2oSockaddr = false; bool sockFirst = false;
	std::optional<uint32_t> t2oId, o2tId; uint32_t o2tApi = 0, t2oApi = 0;   // 0: same as requested
	Bytes appReply;
};

struct Adapter : Host {
	std::string name;
	int index = 0;
	int64_t patience = SEC;                 // shortest receive timeout of the sessions using this device
	int64_t delayMax = 0;                   // benign reply delay (kept well below patience)
	uint32_t malign = 0;                    // /64 per request
	std::vector<int> malignKinds;
	std::optional<int> nextRf;              // forced for the next request
	int regPolicy = 0;                      // 0 grant, 1 refuse with status, 2 close, 3 silent, 4 garbage
	Accept acceptPolicy = YES;
	int restartAfterMs = 500;

	std::map<int, Bytes> stream;            // per connection: bytes not yet framed
	std::map<int, uint32_t> session;        // per connection: granted handle
	std::map<int, int> unregistered;        // per connection: UnregisterSession count
	std::map<int, uint32_t> grantedReply;   // per connection: handle whose grant was actually sent
	std::set<int> garbledGrant;             // connections whose session grant was altered on its way
	std::deque<Rx> ledger;
	uint64_t garbled = 0;

	IdentityData ident; std::map<int, IdentityData> idents;   // idents: further instances
	std::map<int, ParamObj> params;
	std::map<int, FileObj> files;
	std::map<int, uint16_t> rawParams;      // class 0x0F, attribute 1, two-byte values (drive fault parameters)
	std::vector<uint8_t> dpiCommands; uint8_t dpiCommandStatus = 0;
	std::map<int, Bytes> dpiObjects;
	std::deque<std::unique_ptr<IoConn>> io;
	OpenPolicy openPolicy;
	uint8_t closeStatus = 0;
	std::function<void(IoConn&)> onIoOpen;
	std::function<void(const Rx&)> onRequest;
	std::function<std::optional<Reply>(const Rx&)> custom;
	std::function<void(Rx&)> twist;          // alters the answer after the fact
	bool answersDiscovery = true;
	std::function<void(const Datagram&)> discovery;

	Adapter(int idx);
	Accept onConnect(TcpConn&) override { return acceptPolicy; }
	void onOpen(TcpConn& c) override;
	void onData(TcpConn& c, const Bytes& b) override;
	void onClosed(TcpConn& c, bool reset) override;
	void onUdp(const Datagram& d) override;

	Rx* lastRequest(int conn);
	void powerCycle(int64_t downtime);
	void startProducing(IoConn& c, int64_t first);
	void produce(IoConn& c, bool faulty = true);
	Bytes productionPayload(IoConn& c, uint64_t n, uint32_t& header, uint16_t& seq, Bytes& data);
	Bytes makeDatagram(uint32_t id, uint32_t seq32, const Bytes& payload);

private:
	void onFrame(TcpConn& c, Rx rx);
	bool parseRequest(Rx& rx, std::string& why);
	Reply dispatch(TcpConn& c, Rx& rx);
	Reply forwardOpen(Rx& rx, bool large);
	Reply forwardClose(Rx& rx);
	Reply fileService(Rx& rx);
	Reply paramService(Rx& rx);
	void sendFrame(TcpConn& c, Rx* rx, uint16_t cmd, uint32_t handle, uint32_t status, const Bytes& context, const Bytes& payload, int rf);
};

Bytes encodeFrame(uint16_t cmd, uint32_t handle, uint32_t status, const Bytes& ctx, const Bytes& payload);
Bytes mutate(Stream s, Bytes b);       // structure-unaware corruption: flips, truncation, extension, random
Reply randomReply();
bool parseItems(const Bytes& b, size_t from, std::vector<Item>& out, bool exact);

}  // namespace sim
