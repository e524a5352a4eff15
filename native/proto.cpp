// C14 C15 C16 (C12 C19 C21 in passing): the text protocol against an independent parser and model, any fragmentation;  C17 with -DUDP frames
#define FAKE_CLOCK
#include "h.h"
#include <cachelot/common.h>
#include <server/memcached/memcached.h>
#include <server/memcached/conversation.h>
#include <server/memcached/proto_ascii.h>
using namespace cachelot; using namespace cachelot::cache;
static const uint64 INF = ~0ull;
struct M { std::string val; uint16 flags; uint64 dead; uint64 ver; };
struct Udp : memcached::UdpServer { using UdpServer::UdpServer; };
inline io_buffer & operator<<(io_buffer & b, const std::string & s) { if (s.size()) { memcpy(b.begin_write(s.size()), s.data(), s.size()); b.confirm_write(s.size()); } return b; }
struct Run {
    H & h; Cache c; std::map<std::string, M> m; io_buffer rb, sb; uint64 lastver = 0; net::io_service ios; std::unique_ptr<Udp> udp; size_t ps; bool clean = true;
    Run(H & h, size_t ps) : h(h), c(Cache::Create(ps * 64, ps, 16, true)), rb(h.r(3) ? 2048 : 0, 1 << 22), sb(h.r(3) ? 2048 : 0, 1 << 22), ps(ps) { settings.cache.page_size = ps; if (h.on("C17")) udp.reset(new Udp(c, ios)); }
    slice sl(const std::string & s) { return slice(s.data(), s.size()); }
    uint32 hash(const std::string & k) { uint32 x = 2166136261u; for (unsigned char ch : k) { x ^= ch; x *= 16777619u; } return x; }
    bool liv(const std::string & k) { auto i = m.find(k); return i != m.end() && (i->second.dead == INF || i->second.dead > fake_now); }
    uint64 deadline(uint64 ttl) { if (ttl == 0) return INF; uint64 d = fake_now + ttl; return d >= 0xffffffffull ? INF : d; }
    std::string pending() { return std::string(rb.begin_read(), rb.non_read()); }
    std::string out() { return std::string(sb.begin_read(), sb.non_read()); }
    std::string effects() { std::ostringstream o; auto & s = __stats__.cache; o << s.cmd_get << "," << s.cmd_set << "," << s.cmd_add << "," << s.cmd_replace << "," << s.cmd_cas << "," << s.cmd_delete << "," << s.cmd_touch << "," << s.cmd_incr << "," << s.cmd_decr << "," << s.cmd_append << "," << s.cmd_prepend << "," << s.cmd_flush << "," << __stats__.mem.num_malloc << "," << c.m_dict.size(); return o.str(); }
    void feed(const std::string & s) { char * p = rb.begin_write(s.size()); memcpy(p, s.data(), s.size()); rb.confirm_write(s.size()); }
    struct Req { std::string name, key, val, text; std::vector<std::string> keys; uint64 flags = 0, exp = 0, len = 0, cas = 0, delta = 0; bool noreply = false, good = true; };
    std::string rkey() { if (!h.r(25)) return std::string(1 + h.r(250), 'A' + h.r(4)); if (!h.r(25)) return std::string(250, 'z'); std::string k = "k" + std::to_string(h.r(12)); if (!h.r(8)) k += (char)(128 + h.r(100)); return k; }
    Req gen() { Req r; static const char * names[] = {"get", "gets", "set", "add", "replace", "cas", "append", "prepend", "delete", "incr", "decr", "touch", "flush_all", "version", "set", "set", "gets", "incr"};
        r.name = names[h.r(18)]; r.key = rkey(); r.keys.push_back(r.key); r.noreply = !h.r(4); std::string nr = r.noreply ? " noreply" : "";
        r.flags = h.r(3) ? h.r(65536) : (h.r(2) ? 65535 : 0); r.exp = h.r(3) ? 0 : h.r(2) ? h.r(30) : h.bits() >> 32; r.delta = h.r(2) ? h.r(50) : h.bits(); r.cas = m.count(r.key) ? m[r.key].ver + (h.r(3) ? 0 : 1) : h.bits();
        if (h.r(2)) r.val = std::to_string(h.bits()); else { size_t n = h.r(8) ? h.r(40) : h.r(ps - 400); for (size_t i = 0; i < n; ++i) r.val += h.r(10) ? (char)h.r(256) : (h.r(2) ? '\r' : '\n'); } r.len = r.val.size();
        auto t = [](uint64 x) { return std::to_string(x); };
        if (r.name == "get" || r.name == "gets") { r.noreply = false; for (unsigned i = h.r(4); i; --i) r.keys.push_back(rkey()); r.text = r.name; for (auto & k : r.keys) r.text += " " + k; }
        else if (r.name == "delete") r.text = "delete " + r.key + nr; else if (r.name == "incr" || r.name == "decr") r.text = r.name + " " + r.key + " " + t(r.delta) + nr; else if (r.name == "touch") r.text = "touch " + r.key + " " + t(r.exp) + nr;
        else if (r.name == "flush_all") r.text = "flush_all" + nr; else if (r.name == "version") { r.text = "version"; r.noreply = false; }
        else r.text = r.name + " " + r.key + " " + t(r.flags) + " " + t(r.exp) + " " + t(r.len) + (r.name == "cas" ? " " + t(r.cas) : "") + nr + "\r\n" + r.val;
        r.text += "\r\n"; return r; }
    // a request that has to be refused
    std::string gen_bad() { Req r = gen(); auto nn = [&]() -> std::string { static const char * b[] = {"x", "", "-1", "+1", "1x", "0x10", "99999999999999999999999", "18446744073709551616", "1.5", "4294967296", "65536", "\xff"}; return b[h.r(12)]; };
        for (;;) switch (h.r(12)) {
        case 0: { std::string w = r.name; size_t p = h.r(w.size()); w[p] ^= 1 << h.r(8); if (w.find_first_of(" \r\n") != std::string::npos || (unsigned char)w[0] == 0x80 || known(w)) continue; return w + r.text.substr(r.name.size()); }
        case 1: { std::string w = h.r(2) ? r.name + (h.r(2) ? "s" : "_") : r.name.substr(0, r.name.size() - 1); if (known(w)) continue; return w + r.text.substr(r.name.size()); }
        case 2: return r.name == "flush_all" || r.name == "version" ? r.name + " x\r\n" : r.name + "\r\n";
        case 3: return (r.name == "flush_all" || r.name == "version") ? r.name + "  \r\n" : r.name + " " + ((r.name == "get" || r.name == "gets") && h.r(2) && (!m.count(r.key) || liv(r.key)) ? r.key + " " : "") + std::string(251 + h.r(300), 'k') + (r.name == "get" || r.name == "gets" || r.name == "delete" ? "\r\n" : r.name == "incr" || r.name == "decr" || r.name == "touch" ? " 1\r\n" : r.name == "cas" ? " 0 0 1 1\r\nx\r\n" : " 0 0 1\r\nx\r\n");
        case 4: return "set " + r.key + " " + (h.r(2) ? "65536" : nn2(nn(), 65535)) + " 0 3\r\nabc\r\n";
        case 5: return "set " + r.key + " 0 " + nn2(nn(), 0xffffffffull) + " 3\r\nabc\r\n";
        case 6: return (h.r(2) ? "add " : "replace ") + r.key + " 0 0 " + nn2(nn(), 0xffffffffull) + "\r\nabc\r\n";
        case 7: return (h.r(2) ? "set " : "append ") + r.key + " 0 0 " + std::to_string(ps + 1 + h.r(100000)) + "\r\n" + std::string(h.r(50), 'v') + "\r\n";
        case 8: { std::string v(1 + h.r(20), 'v'); size_t n = v.size(); return "set " + r.key + " 0 0 " + std::to_string(n) + (h.r(3) ? "" : " noreply") + "\r\n" + v + (h.r(2) ? "x\n" : h.r(2) ? "\rx" : "\n\r") + "\r\n"; }
        case 9: if (r.name == "get" || r.name == "gets" || r.name == "version") continue; return r.text.substr(0, r.text.find("\r\n")) + " extra" + r.text.substr(r.text.find("\r\n"));
        case 10: return (h.r(2) ? "incr " : "touch ") + r.key + " " + (h.r(2) ? "x1" : "99999999999999999999999") + "\r\n";
        default: return "cas " + r.key + " 0 0 1 " + nn2(nn(), ~0ull) + "\r\nx\r\n";
        } }
    static bool known(const std::string & w) { static const std::set<std::string> k{"get", "gets", "set", "add", "replace", "cas", "append", "prepend", "delete", "incr", "decr", "touch", "stats", "version", "flush_all", "quit"}; return k.count(w); }
    std::string nn2(std::string s, uint64 max) { if (s.empty()) return s; for (char ch : s) if (ch < '0' || ch > '9') return s; if (s.size() > 20) return s; unsigned __int128 v = 0; for (char ch : s) v = v * 10 + (ch - '0'); return v > max ? s : "bad"; }
    std::string hdr; bool is_udp = false;
    net::ConversationReply call() { return is_udp ? udp->handle_data(rb, sb) : memcached::handle_received_data(rb, sb, c); }
    static bool error_line(const std::string & s) { if (s.size() < 2 || s.find("\r\n") != s.size() - 2) return false; return s == "ERROR\r\n" || !s.compare(0, 13, "CLIENT_ERROR ") || !s.compare(0, 13, "SERVER_ERROR "); }
    void verify() { CK("C14", c.m_dict.size() == m.size(), "stored " << c.m_dict.size() << " expected " << m.size());
        for (auto & x : m) { auto g = c.m_dict.get(sl(x.first), hash(x.first)); CK("C14", std::get<0>(g), "item " << esc(x.first) << " missing"); auto i = std::get<1>(g); CK("C14", i->value().str() == x.second.val, "value of " << esc(x.first) << " is " << esc(i->value().str()) << " expected " << esc(x.second.val)); CK("C14", i->opaque_flags() == x.second.flags, "flags of " << esc(x.first) << " " << i->opaque_flags() << " expected " << x.second.flags); CK("C14", (x.second.dead == INF && i->expiration_time() == Item::expiration_time_point::max()) || i->expiration_time().time_since_epoch().count() == x.second.dead, "expiration of " << esc(x.first)); CK("C14 C09", i->timestamp() == x.second.ver, "version of " << esc(x.first)); } }
    void good() {
        Req r = gen(); std::string k = r.key; bool was = liv(k); M old = was ? m[k] : M(); std::string want; bool numeric_err = false, maybe_err = false;
        // expected outcome
        auto drop = [&](const std::string & q) { if (!liv(q)) m.erase(q); }; M x{r.val, (uint16)r.flags, deadline(r.exp), 0}; bool store = false; const char * R = 0; size_t need = Item::CalcSizeRequired(sl(k), r.val.size());
        if (r.name == "get" || r.name == "gets") { for (auto & q : r.keys) { if (liv(q)) { auto & i = m[q]; want += "VALUE " + q + " " + std::to_string(i.flags) + " " + std::to_string(i.val.size()) + (r.name == "gets" ? " " + std::to_string(i.ver) : "") + "\r\n" + i.val + "\r\n"; } else m.erase(q); } want += "END\r\n"; }
        else if (r.name == "version") want = std::string("VERSION ") + CACHELOT_VERSION_FULL + "\r\n";
        else if (r.name == "flush_all") { want = "OK\r\n"; for (auto i = m.begin(); i != m.end();) if (!liv(i->first)) m.erase(i++); else ++i; }
        else { drop(k);
            if (r.name == "set") { store = true; R = "STORED"; } else if (r.name == "add") { store = !was; R = was ? "NOT_STORED" : "STORED"; } else if (r.name == "replace") { store = was; R = was ? "STORED" : "NOT_STORED"; }
            else if (r.name == "cas") { store = was && r.cas == old.ver; R = !was ? "NOT_FOUND" : store ? "STORED" : "EXISTS"; }
            else if (r.name == "append" || r.name == "prepend") { store = was; if (was) { x = old; x.val = r.name == "append" ? old.val + r.val : r.val + old.val; if (Item::CalcSizeRequired(sl(k), x.val.size()) > ps - memalloc::header_size()) { store = false; maybe_err = true; } } R = was ? "STORED" : "NOT_STORED"; }
            else if (r.name == "delete") { R = was ? "DELETED" : "NOT_FOUND"; m.erase(k); } else if (r.name == "touch") { R = was ? "TOUCHED" : "NOT_FOUND"; if (was) m[k].dead = deadline(r.exp); }
            else { bool num = was && !old.val.empty() && old.val.size() <= 20; unsigned __int128 n = 0; if (num) for (char ch : old.val) { if (ch < '0' || ch > '9') num = false; n = n * 10 + (ch - '0'); } if (n > ~0ull) num = false; if (was && !num) numeric_err = true; else if (was) { uint64 w = r.name == "incr" ? (n + r.delta > ~0ull ? ~0ull : (uint64)(n + r.delta)) : (n < r.delta ? 0 : (uint64)(n - r.delta)); x = old; x.val = std::to_string(w); store = true; want = x.val + "\r\n"; } else R = "NOT_FOUND"; }
            if (R) want = std::string(R) + "\r\n"; }
        bool err = numeric_err || maybe_err; std::string text = hdr + r.text; bool split = h.r(2) && !is_udp; std::string extra = h.r(2) || is_udp ? "" : (h.r(2) ? "get k1\r\n" : "garbage"); std::string pre = h.r(2) ? "" : "earlier reply\r\n"; sb << pre;
        h.log << "t=" << fake_now << " request '" << esc(r.text) << "'" << (split ? " in pieces" : "") << "\n"; std::string e0 = effects();
        if (split) { // every proper prefix leaves everything as it was
            size_t pos = 0; while (pos < text.size()) { size_t n = std::min(text.size() - pos, 1 + h.r(h.r(2) ? 3 : 200)); if (text.size() - pos <= n) n = text.size() - pos; feed(text.substr(pos, n)); pos += n; if (pos == text.size()) break; auto q = call(); CK("C16", q == net::READ_MORE, "incomplete request answered with " << q); CK("C16", out() == pre, "reply to an incomplete request: " << esc(out())); CK("C16", pending() == text.substr(0, pos), "received bytes lost"); CK("C16", effects() == e0, "incomplete request executed"); if (!h.r(3)) rb.compact(); }
        } else feed(text);
        feed(extra); auto q = call(); std::string got = out();
        if (err) { bool ok = got.compare(0, pre.size(), pre) == 0 && error_line(got.substr(pre.size() + hdr.size())); CK("C15", ok && q == net::SEND_REPLY_AND_READ, "expected an error reply, got '" << esc(got) << "'"); }
        else { CK("C16", pending() == extra, "complete request left '" << esc(pending()) << "' of the following '" << esc(extra) << "'");
            std::string w = pre + (r.noreply ? "" : hdr + want); if (is_udp && !r.noreply) CK("C17", got.compare(0, pre.size() + 8, pre + hdr) == 0, "reply does not start with the frame header: '" << esc(got) << "'");
            if (is_udp && r.noreply) CK("C17", got == pre, "something is left in the reply buffer: '" << esc(got) << "'"); CK("C15 C14", got == w, "reply '" << esc(got) << "' expected '" << esc(w) << "'"); CK("C15", q == (r.noreply ? net::READ_MORE : net::SEND_REPLY_AND_READ), "returned " << q); }
        if (store) { auto g = c.m_dict.get(sl(k), hash(k)); CK("C14 C15 C21", std::get<0>(g), "stored item not found under its hash"); x.ver = std::get<1>(g)->timestamp(); CK("C14 C09", x.ver > lastver, "version not increased"); lastver = x.ver; m[k] = x; }
        rb.reset(); sb.reset(); verify(); }
    void bad() { std::string t = gen_bad(), text = hdr + t, pre = h.r(2) ? "" : "earlier reply\r\n"; h.log << "malformed '" << esc(t) << "'\n"; sb << pre; std::string e0 = effects(); feed(text); auto q = call(); std::string got = out();
        CK("C15 C14", got.compare(0, pre.size(), pre) == 0 && got.compare(pre.size(), hdr.size(), hdr) == 0 && error_line(got.substr(pre.size() + hdr.size())) && q == net::SEND_REPLY_AND_READ, "malformed request answered with '" << esc(got) << "' (" << q << ")");
        { std::string e1 = effects(); size_t g0 = e0.find(','), g1 = e1.find(','); CK("C14", e0.substr(g0) == e1.substr(g1) && (e0 == e1 || !t.compare(0, 3, "get")), "malformed request had an effect"); }
        rb.reset(); sb.reset(); verify(); }
    void misc() { switch (h.r(4)) { 
        case 0: { h.log << "stats\n"; feed(hdr + "stats\r\n"); auto q = call(); std::string got = out(), w = hdr;
#define S1(t, n, d) w += std::string("STAT ") + #n + " " + std::to_string(STAT_GET(cache, n)) + "\r\n";
#define S2(t, n, d) w += std::string("STAT ") + #n + " " + std::to_string(STAT_GET(mem, n)) + "\r\n";
            CACHE_STATS(S1) MEMORY_STATS(S2) w += "END\r\n"; CK("C15", got == w && q == net::SEND_REPLY_AND_READ, "stats reply '" << esc(got) << "'"); CK("C19", STAT_GET(cache, curr_items) == m.size(), "curr_items"); break; }
        case 1: { h.log << "quit\n"; feed(hdr + "quit\r\n"); auto q = call(); CK("C14 C15", q == net::CLOSE_IMMEDIATELY && out().empty(), "quit"); break; }
        case 2: { h.log << "empty line\n"; feed(hdr + "\r\n"); auto q = call(); CK("C14 C15", q == net::SEND_REPLY_AND_READ && error_line(out().substr(hdr.size())), "empty line '" << esc(out()) << "'"); break; }
        default: if (is_udp) break; h.log << "nothing\n"; CK("C16", call() == net::READ_MORE && out().empty(), "no data"); }
        rb.reset(); sb.reset(); verify(); }
    void frame() { // UDP frames
        Req r = gen(); std::string f(8, 0); for (auto & ch : f) ch = h.r(3) ? 0 : h.r(256); if (h.r(2)) { f[2] = f[3] = f[6] = f[7] = 0; f[4] = 0; f[5] = h.r(2); f[0] = h.r(256); f[1] = h.r(256); if (h.r(2)) f[2 + h.r(6)] ^= 1 << h.r(8); }
        bool ok = f[2] == 0 && f[3] == 0 && f[4] == 0 && (unsigned char)f[5] <= 1 && f[6] == 0 && f[7] == 0; std::string pre = h.r(2) ? "" : "x"; sb << pre;
        if (h.r(6) == 0) { std::string t = f.substr(0, h.r(8)); h.log << "short frame '" << esc(t) << "'\n"; feed(t); std::string e0 = effects(); auto q = udp->handle_data(rb, sb); CK("C17", q != net::SEND_REPLY_AND_READ && out() == pre && effects() == e0, "short datagram: reply '" << esc(out()) << "'"); rb.reset(); sb.reset(); return; }
        if (ok) { sb.reset(); hdr = f; is_udp = true; if (h.r(4)) good(); else if (h.r(2)) bad(); else misc(); hdr = ""; is_udp = false; return; }
        h.log << "frame '" << esc(f) << "'\n"; feed(f + r.text); std::string e0 = effects(); auto q = udp->handle_data(rb, sb); CK("C17", q != net::SEND_REPLY_AND_READ && out() == pre, "datagram with a bad header answered: '" << esc(out()) << "'"); CK("C17", effects() == e0, "datagram with a bad header executed"); rb.reset(); sb.reset(); verify(); }
    struct { } _;
};
int main(int c, char ** v) { H h(c, v);
    while (h.more()) { try { __stats__ = stats(); fake_now = 1000; size_t ps = 2048u << h.r(3); h.log.str(""); h.log << "page " << ps << "\n"; Run r(h, ps);
        for (unsigned i = 0; i < 120; ++i) { if (r.udp && h.r(2)) { r.frame(); continue; } unsigned o = h.r(20); if (o < 13) r.good(); else if (o < 17) r.bad(); else if (o < 18) r.misc(); else fake_now += h.r(20); }
    } catch (Abandon &) {} }
    return h.done(); }
