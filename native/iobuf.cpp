#include <cachelot/common.h>
#include <cachelot/slice.h>
#include <cachelot/error.h>
#include <stdexcept>
#include <new>
static int fail_realloc = 0;
#include <cstdlib>
namespace std { static void * h_realloc(void * p, size_t n) { if (fail_realloc) return nullptr; return ::realloc(p, n); } }
#define realloc h_realloc
#include <server/io_buffer.h>
#undef realloc
#include "h.h"
using namespace cachelot;
int main(int argc, char ** argv) {
    H h(argc, argv);
    while (h.more()) {
        size_t mx = h.r(3) ? 600 + h.r(5000) : h.r(700), init = h.r(3) ? h.r(mx + 1) : 0; if (init > mx) init = mx;
        std::ostringstream lg; lg << "io_buffer(" << init << "," << mx << ")";
        io_buffer b(init, mx); std::string data; size_t rd = 0; // data: everything written since the last reset/compact, rd: read position
        CHECK(b.capacity() >= init && b.capacity() <= mx && b.non_read() == 0, lg.str());
        for (int ops = h.r(40); ops > 0; --ops) {
            int op = h.r(9); size_t n;
            auto inv = [&]() { CHECK(b.non_read() == data.size() - rd && b.size() == data.size() && b.size() <= b.capacity() && b.capacity() <= mx && b.available() == b.capacity() - b.size(), lg.str() << " sizes " << b.size() << "/" << b.capacity() << " unread " << b.non_read() << " expected " << data.size() - rd);
                CHECK(b.non_read() == 0 || !memcmp(b.begin_read(), data.data() + rd, data.size() - rd), lg.str() << " unread bytes differ"); };
            switch (op) {
            case 0: case 1: case 2: {
                n = h.r(3) ? h.r(200) : h.r(mx + 300); fail_realloc = h.r(12) == 0; lg << " write " << n << (fail_realloc ? "(no memory)" : ""); bool must = data.size() + n <= mx && !fail_realloc;
                try { char * p = b.begin_write(n); CHECK(b.available() >= n, lg.str() << " granted without room"); CHECK(b.capacity() <= mx, lg.str());
                    size_t k = h.r(n + 1); if (h.r(2)) k = n; for (size_t i = 0; i < k; ++i) { p[i] = (char)h.rng(); data += p[i]; } b.confirm_write(k); }
                catch (const std::length_error &) { CHECK(data.size() + n > mx, lg.str() << " refused although it fits the maximum"); lg << "!"; }
                catch (const std::bad_alloc &) { CHECK(fail_realloc, lg.str() << " bad_alloc"); lg << "!"; }
                (void)must; fail_realloc = 0; break; }
            case 3: { n = h.r(data.size() - rd + 1); lg << " read " << n; slice s = b.confirm_read(n); CHECK(s.length() == n && !memcmp(s.begin(), data.data() + rd, n), lg.str() << " bytes read"); rd += n; break; }
            case 4: lg << " compact"; b.compact(); data = data.substr(rd); rd = 0; CHECK(b.size() == data.size(), lg.str()); break;
            case 5: { auto sp = b.read_savepoint(); size_t r0 = rd; n = h.r(data.size() - rd + 1); lg << " read+rollback " << n; b.confirm_read(n); rd += n; if (h.r(2)) { try { size_t g = h.r(50); b.begin_write(g); } catch (const std::exception &) {} } b.rollback_read_transaction(sp); rd = r0; break; }
            case 6: { auto sp = b.write_savepoint(); n = h.r(300); lg << " write+rollback " << n; try { char * p = b.begin_write(n); memset(p, 7, n); b.confirm_write(n); p = b.begin_write(n); memset(p, 8, n); b.confirm_write(n); } catch (const std::length_error &) {} b.rollback_write_transaction(sp); break; }
            case 7: { std::string t; size_t q = data.size() - rd; if (q && h.r(3)) { size_t i = h.r(q); t = data.substr(rd + i, 1 + h.r(3)); } else t = "\r\n"; lg << " until '" << esc(t) << "'"; slice s = b.try_read_until(slice(t.data(), t.size())); size_t w = data.find(t, rd);
                if (w == std::string::npos) CHECK(!s, lg.str() << " found"); else { CHECK(s.length() == w + t.size() - rd && !memcmp(s.begin(), data.data() + rd, s.length()), lg.str() << " wrong line"); rd += s.length(); } break; }
            case 8: if (h.r(4) == 0) { lg << " reset"; b.reset(); data.clear(); rd = 0; } else if (h.r(2)) { lg << " read_all"; slice s = b.read_all(); CHECK(s.length() == data.size() - rd, lg.str()); rd = data.size(); } break;
            }
            inv();
        }
    }
    return h.done();
}
