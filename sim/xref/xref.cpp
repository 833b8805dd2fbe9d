// Development-time cross-check of sim/model against the C++ reference codec (reference_app/gfwx.hpp).
// Reads cases written by `gfwxsim dump` from stdin; see `check.py xref`.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include "gfwx.hpp"
static bool rd(void *p, size_t n) { return fread(p, 1, n, stdin) == n; }
static int32_t i32() { int32_t v; if (!rd(&v, 4)) exit(9); return v; }
int main() {
    long cases = 0, enc = 0, dec = 0, prefixes = 0, floordiff = 0, bad = 0, poi = 0, poidiff = 0;
    for (;;) {
        int32_t more;
        if (!rd(&more, 4)) break;
        int w = i32(), h = i32(), layers = i32(), channels = i32(), quality = i32(), cs = i32(), bs = i32(), filter = i32(),
            encoder = i32(), intent = i32(), lossyprog = i32(), np = i32();
        std::vector<int> prog(np);
        for (int i = 0; i < np; ++i) prog[i] = i32();
        std::vector<uint8_t> img(i32()); rd(img.data(), img.size());
        std::vector<uint8_t> stream(i32()); rd(stream.data(), stream.size());
        ++cases;
        GFWX::Header hd(w, h, layers, channels, GFWX::BitDepthAuto, quality, cs, bs, filter, 0, encoder, intent);
        std::vector<uint32_t> buf(img.size() * 16 / 4 + stream.size() + 65536);
        ptrdiff_t n = GFWX::compress(img.data(), hd, (uint8_t *)buf.data(), buf.size() * 4, np > 1 ? prog.data() : nullptr, nullptr, 0);
        bool same = n == (ptrdiff_t)stream.size() && !memcmp(buf.data(), stream.data(), n);
        if (same) ++enc;
        else if (lossyprog) ++floordiff;
        else { ++bad; printf("case %ld: stream differs (%td, %zu) w=%d h=%d enc=%d filter=%d q=%d bs=%d\n", cases, n, stream.size(), w, h, encoder, filter, quality, bs); }
        int nd = i32();
        for (int k = 0; k < nd; ++k) {
            int d = i32(), test = i32(), len = i32(), verdict = i32();
            std::vector<uint8_t> px(i32()); rd(px.data(), px.size());
            std::vector<uint32_t> in(len / 4 + 1); memcpy(in.data(), stream.data(), len);
            std::vector<uint8_t> out(px.size() + 64, 0);
            GFWX::Header h2;
            ptrdiff_t r = GFWX::decompress(out.data(), h2, (uint8_t *)in.data(), len, d, test != 0);
            if (lossyprog) continue;
            bool px_ok = test || !memcmp(out.data(), px.data(), px.size());
            bool turbo_d = encoder == 0 && d > 0;      // the reference has the run coder defect repaired in 33d226e
            if (!px_ok && !turbo_d) { ++bad; printf("case %ld: pixels differ d=%d len=%d/%zu\n", cases, d, len, stream.size()); }
            if ((r == 0) != (verdict == 0)) {
                if (turbo_d && r < 0) continue;
                ++bad; printf("case %ld: verdict %td, model %d, d=%d len=%d/%zu test=%d\n", cases, r, verdict, d, len, stream.size(), test);
            } else { ++poi; if (r != verdict) { ++poidiff; if (r > 0 && getenv("POI")) printf("case %ld: poi %td model %d len %d\n", cases, r, verdict, len); } }
            if (len == (int)stream.size()) ++dec; else ++prefixes;
        }
    }
    printf("cases %ld: streams equal %ld, streams differing only where a program divides negatives by 2, 4 or 8: %ld, "
           "decodes compared %ld, prefixes compared %ld (verdicts equal %ld, of which points of interest differ %ld), mismatches %ld\n",
           cases, enc, floordiff, dec, prefixes, poi, poidiff, bad);
    return bad != 0;
}
