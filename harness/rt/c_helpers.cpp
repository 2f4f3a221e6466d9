// C11: string and set helpers against independent references.
#include "../pbt.h"
#include <cstdint>
#include <list>
#include <unordered_set>
#include <sdfg/helpers/helpers.h>
using namespace pbt;
using namespace sdfg;
static void prop(Src& s, Case& c) {
    switch (s.below(6)) {
        case 0: {
            size_t L = s.chance(3) ? 300 : 8;
            std::string t = s.chance(60) ? s.text(L, "0123456789") : s.text(L, "0123456789 -+.eax");
            if (s.chance(10)) t += s.pick<std::string>({"-", "x", " ", ".", std::string(1, 0), std::string(1, (char) 0xb2), "+1", "/", ":"});
            c << "is_number(" << t << ")";
            bool want = !t.empty();
            for (char ch : t) want &= ch >= '0' && ch <= '9';
            c.check(helpers::is_number(t) == want, "is_number(\"" + t + "\")");
            c.nontrivial("n" + t);
            break;
        }
        case 1: {
            uint64_t v = s.u64();
            c << "parse " << v << " / " << (int64_t) v;
            c.check(helpers::parse_number_unsigned(std::to_string(v)) == v, "unsigned " + std::to_string(v));
            c.check(helpers::parse_number_signed(std::to_string((int64_t) v)) == (int64_t) v, "signed " + std::to_string((int64_t) v));
            c.check(helpers::parse_number_unsigned("true") == 1 && helpers::parse_number_unsigned("false") == 0, "unsigned booleans");
            c.check(helpers::parse_number_signed("true") == 1 && helpers::parse_number_signed("false") == 0, "signed booleans");
            c.nontrivial("p" + std::to_string(v));
            break;
        }
        case 2: {
            std::string a = s.text(s.chance(3) ? 300 : 8, "ab"), b = s.flip() ? s.text(4, "ab") : a.substr(a.size() - std::min(a.size(), (size_t) s.below(s.chance(3) ? 300 : 9)));
            if (s.chance(10) && !b.empty()) b[s.below(b.size())] ^= 3; // one differing character
            c << "endswith(" << a << "," << b << ")";
            bool want = b.size() <= a.size() && a.substr(a.size() - b.size()) == b;
            c.check(helpers::endswith(a, b) == want, "endswith(\"" + a + "\",\"" + b + "\")");
            c.nontrivial("e" + a + "," + b);
            break;
        }
        case 3: {
            std::vector<std::string> v;
            size_t nmax = s.chance(2) ? 400 : 8;
            while (s.more(v.size(), nmax, nmax / 4)) v.push_back(s.text(s.chance(1) ? 300 : 5, "ab, "));
            std::string d = s.pick<std::string>({",", ", ", "", "--"});
            std::string want;
            for (size_t i = 0; i < v.size(); ++i) want += (i ? d : "") + v[i];
            auto copy = v;
            c.check(helpers::join(v, d) == want, "join gives \"" + helpers::join(v, d) + "\", expected \"" + want + "\"");
            c.check(v == copy, "join changed its input");
            std::vector<int64_t> iv;
            std::string iw;
            while (s.more(iv.size(), 5, 2)) iv.push_back(s.chance(10) ? (int64_t) s.u64() : s.sym(1000));
            for (size_t i = 0; i < iv.size(); ++i) iw += (i ? d : "") + std::to_string(iv[i]);
            c.check(helpers::join(iv, d) == iw, "join of integers");
            c << "join " << want;
            if (v.size() > 1) c.nontrivial("j" + d + "|" + want);
            break;
        }
        case 4: {
            std::string d = s.pick<std::string>({" ", ",", "ab", "aa", "->"});
            std::string t = s.text(s.chance(2) ? 600 : 14, "ab, ->");
            if (s.chance(1) && s.chance(10)) {
                // long texts: a repeated piece
                size_t reps = s.pick<size_t>({5000, 14000, 30000}) / 1, plen = t.size();
                std::string u;
                while (u.size() < reps * 3) u += plen ? t : std::string("a ");
                t = u;
                c.label("long text");
            }
            std::vector<std::string> want, got;
            size_t p = 0;
            while (true) {
                size_t q = t.find(d, p);
                if (q == std::string::npos) {
                    want.push_back(t.substr(p));
                    break;
                }
                want.push_back(t.substr(p, q - p));
                p = q + d.size();
            }
            bool dflt = d == " " && s.flip();
            if (dflt) helpers::split(got, t);
            else helpers::split(got, t, d);
            c << "split(\"" << t.substr(0, 400) << "\",\"" << d << "\") -> " << got.size();
            c.check(got == want, "split(\"" + t.substr(0, 400) + "\",\"" + d + "\") has " + std::to_string(got.size()) + " parts, expected " + std::to_string(want.size()));
            c.check(helpers::join(got, d) == t, "join(split(t)) != t");
            if (want.size() > 1) c.nontrivial("s" + d + "|" + t);
            break;
        }
        default: {
            std::unordered_set<int> a, b;
            size_t na = s.chance(3) ? 300 : 12, nb = s.chance(3) ? 300 : 12, universe = std::max(na, nb) > 12 ? 100000 : 40;
            while (s.more(a.size(), na, na / 3)) a.insert(s.below(universe));
            while (s.more(b.size(), nb, nb / 3)) b.insert(s.below(universe));
            if (universe > 40 && !a.empty() && s.chance(40)) b.insert(*std::next(a.begin(), s.below(a.size()))); // exactly one common element
            bool want = false;
            for (int v : a) want |= b.count(v) > 0;
            c.check(helpers::sets_intersect(a, b) == want, "sets_intersect");
            c.check(helpers::sets_intersect(b, a) == want, "sets_intersect is not symmetric");
            std::unordered_set<std::string> sa, sb;
            for (int v : a) sa.insert(std::to_string(v));
            for (int v : b) sb.insert(std::to_string(v));
            c.check(helpers::sets_intersect(sa, sb) == want, "sets_intersect of strings");
            c << "sets " << a.size() << " " << b.size() << " -> " << want;
            std::string k;
            for (int v : std::set<int>(a.begin(), a.end())) k += std::to_string(v) + ",";
            k += "|";
            for (int v : std::set<int>(b.begin(), b.end())) k += std::to_string(v) + ",";
            if (!a.empty() && !b.empty()) c.nontrivial("i" + k);
        }
    }
}
int main(int argc, char** argv) {
    Options o;
    o.id = "C11";
    o.rule = "generated strings, integers and sets for every helper; non-trivial = non-degenerate input, distinct by input";
    o.quick = 800000;
    o.thorough = 8000000;
    return Runner(o, prop).main(argc, argv);
}
