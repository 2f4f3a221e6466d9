// C03: base64 against an independent RFC 4648 reference.
#include "../pbt.h"
#include "daisy_rtl/base64.h"
using namespace pbt;

static const char* ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_encode(const std::string& in) {
    std::string bits, out;
    for (unsigned char ch : in)
        for (int b = 7; b >= 0; --b) bits += (ch >> b) & 1 ? '1' : '0';
    while (bits.size() % 6) bits += '0';
    for (size_t i = 0; i < bits.size(); i += 6) {
        int v = 0;
        for (int k = 0; k < 6; ++k) v = v * 2 + (bits[i + k] - '0');
        out += ALPHA[v];
    }
    while (out.size() % 4) out += '=';
    return out;
}

static void prop(Src& s, Case& c) {
    int mode = s.weighted({6, 2});
    if (mode == 0) {
        size_t n = s.len(s.chance(10) ? 700 : 40);
        if (s.chance(1) && s.chance(15)) {
            // around block sizes of the raw or of the encoded text
            n = s.pick<size_t>({4096, 3072, 65536, 49152, 98304, 131072, 255, 767, 12288, 32768}) + s.below(5) - 2;
            c.label("block size");
        }
        std::string b;
        bool patt = s.chance(25);
        uint64_t st = n > 700 ? s.below(1 << 16) : 0; // long inputs are a pseudo random fill
        for (size_t i = 0; i < n; ++i) b.push_back(n > 700 ? (char) splitmix(st) : patt ? (char) s.pick<int>({0, 255, 0x3f, 0xfc, 0x80, '=', 0xfb}) : (char) s.below(256));
        c << "bytes(" << n << ")";
        for (size_t i = 0; i < n && i < 700; ++i) c << " " << (int) (unsigned char) b[i];
        std::vector<unsigned char> buf(b.begin(), b.end()); // exact-size heap buffer: over-reads are visible to ASan
        std::string e = base64_encode(buf.data(), buf.size());
        std::string want = ref_encode(b);
        c.check(e == want, n > 700 ? "encoding of " + std::to_string(n) + " bytes differs from RFC 4648 (" + std::to_string(e.size()) + " characters)"
                                   : "encoding is " + e + ", RFC 4648 says " + want);
        auto d = base64_decode(e);
        c.check(std::string(d.begin(), d.end()) == b, "decode(encode(x)) != x");
        auto d2 = base64_decode(want);
        c.check(d2 == d, "decoding of the reference encoding differs");
        c.label("len%3=" + std::to_string(n % 3));
        if (n) c.nontrivial(b);
    } else {
        // arbitrary text: no crash, and never more output than the alphabet characters can carry
        std::string t = s.chance(50) ? s.text(60, std::string(ALPHA) + "====\n -_") : s.bytes(s.len(60));
        c << "decode arbitrary text of " << t.size();
        auto d = base64_decode(t);
        size_t good = 0;
        while (good < t.size() && t[good] && strchr(ALPHA, t[good])) ++good;
        std::string bits, want;
        for (size_t i = 0; i < good; ++i) {
            int v = strchr(ALPHA, t[i]) - ALPHA;
            for (int k = 5; k >= 0; --k) bits += (v >> k) & 1 ? '1' : '0';
        }
        for (size_t i = 0; i + 8 <= bits.size(); i += 8) {
            int v = 0;
            for (int k = 0; k < 8; ++k) v = v * 2 + (bits[i + k] - '0');
            want += (char) v;
        }
        c.check(std::string(d.begin(), d.end()) == want, "decoding of a text with " + std::to_string(good) + " leading base64 characters gave " +
                                                             std::to_string(d.size()) + " bytes, or other bytes than encoded");
        c.label("arbitrary text");
        if (good) c.nontrivial("t" + t);
    }
}
int main(int argc, char** argv) {
    Options o;
    o.id = "C03";
    o.rule = "byte strings (0..700 bytes, boundary patterns) encoded, compared with a reference and decoded back; arbitrary texts decoded; "
             "non-trivial = non-empty, distinct by content";
    o.quick = 500000;
    o.thorough = 6000000;
    return Runner(o, prop).main(argc, argv);
}
