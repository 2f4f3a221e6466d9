// C02: any index file, valid or damaged, is either loaded or rejected with a standard exception.
#include "../pbt.h"
#include "daisy_rtl/arg_capture_io.h"
using namespace pbt;
namespace fs = std::filesystem;
using arg_capture::ArgCaptureIO;
using nlohmann::json;

static json gen_value(Src& s, int depth) {
    switch (s.below(depth > 0 ? 8 : 6)) {
        case 0: return s.sym(5);
        case 1: return s.flip();
        case 2: return s.text(6, "AB+/=z9 ");
        case 3: return nullptr;
        case 4: return (double) s.sym(1000) / 8.0;
        case 5: return (int64_t) s.u64();
        case 6: {
            json a = json::array();
            while (s.more(a.size(), 4, 1.5)) a.push_back(gen_value(s, depth - 1));
            return a;
        }
        default: {
            json o = json::object();
            while (s.more(o.size(), 4, 1.5)) o[s.text(4, "abc")] = gen_value(s, depth - 1);
            return o;
        }
    }
}

static void prop(Src& s, Case& c) {
    fs::path file = fs::path(c.scratch) / "x.index.json";
    json j;
    j["format"] = 1;
    j["target"] = s.pick<std::string>({"f", "__daisy_k.c_12", "a b", "q\"\\\n\xc3\xa9", ""});
    j["invocation"] = s.pick<uint32_t>({3, 0, 1, 255, 256, 65536, 4294967295u});
    j["element_id"] = s.pick<std::string>({"12", "0", "18446744073709551615", "x y", ""});
    if (s.chance(10)) j["comment"] = {{"written by", "another version"}}; // unknown entries are ignored
    json arr = json::array();
    size_t n = s.chance(8) ? s.below(40) : s.below(4);
    static const char* B64[] = {"", "AA==", "AAE=", "AAEC", "AAECAwQFBgc=", "/+7dzLuq"};
    static const std::vector<std::vector<uint8_t>> RAW = {{}, {0}, {0, 1}, {0, 1, 2}, {0, 1, 2, 3, 4, 5, 6, 7}, {0xff, 0xee, 0xdd, 0xcc, 0xbb, 0xaa}};
    struct Want {
        int arg;
        bool after;
        int type;
        std::vector<size_t> dims;
        int data;
        std::string file;
    };
    std::vector<Want> want;
    for (size_t i = 0; i < n; ++i) {
        Want w;
        json e;
        w.arg = (int) i;
        if (s.chance(10)) w.arg = s.pick<int>({2147483647, 65536, 255, 128, 32768}) - (int) i;
        e["arg_idx"] = w.arg;
        e["after"] = w.after = s.flip();
        e["primitive_type"] = w.type = s.below(19);
        w.dims = {4, 2};
        if (s.chance(30)) {
            w.dims.clear();
            while (s.more(w.dims.size(), 10, 2))
                w.dims.push_back(s.chance(10) ? s.pick<size_t>({0, 1ull << 32, (1ull << 32) + 7, ~0ull, 1ull << 53, (1ull << 53) + 1, 65536}) : s.below(100));
        }
        e["dims"] = w.dims;
        w.data = s.flip() ? (int) s.below(6) : -1;
        w.file = s.pick<std::string>({"f_inv3_arg0_in_12.bin", "x", "a b.dat", "x.tar.gz"});
        if (w.data >= 0) e["data"] = B64[w.data];
        else if (s.chance(10)) w.file.clear(); // a failed capture has neither
        else e["ext_file"] = w.file;
        if (s.chance(5)) e["note"] = 1;
        arr.push_back(e);
        want.push_back(w);
    }
    j["captures"] = arr;
    const json valid = j;
    int damage = s.below(6);
    bool bad_version = false, wrong_shape = false, unparsable = false;
    std::string text;
    if (damage == 1) {
        int64_t v = s.pick<int64_t>({0, 2, 3, 1000, 4294967295LL});
        j["format"] = v;
        bad_version = true;
    } else if (damage == 2) { // required field removed
        static const std::vector<std::string> top = {"format", "target", "invocation", "element_id"};
        static const std::vector<std::string> ent = {"arg_idx", "after", "primitive_type", "dims"};
        if (n && s.flip()) j["captures"][s.below(n)].erase(ent[s.below(4)]);
        else j.erase(top[s.below(4)]);
        wrong_shape = true;
    } else if (damage == 3) { // field replaced by an arbitrary value
        static const std::vector<std::string> top = {"format", "target", "invocation", "element_id", "captures"};
        static const std::vector<std::string> ent = {"arg_idx", "after", "primitive_type", "dims", "data", "ext_file"};
        if (n && s.flip()) j["captures"][s.below(n)][ent[s.below(6)]] = gen_value(s, 2);
        else j[top[s.below(5)]] = gen_value(s, 2);
    } else if (damage == 4) {
        j = gen_value(s, 3);
    }
    text = j.dump(s.chance(10) ? 2 : -1);
    if (damage == 5) {
        size_t edits = 1 + s.below(4);
        for (size_t k = 0; k < edits && !text.empty(); ++k) {
            size_t p = s.below(text.size());
            switch (s.below(3)) {
                case 0: text[p] = (char) s.below(256); break;
                case 1: text.resize(p); break;
                default: text.erase(p, 1 + s.below(4)); break;
            }
        }
        unparsable = !json::accept(text);
    }
    std::ofstream(file, std::ios::binary) << text;
    c << "damage " << damage << ": " << text << "\n";
    c.label("damage " + std::to_string(damage));
    bool loaded = false;
    std::shared_ptr<ArgCaptureIO> io;
    try {
        io = ArgCaptureIO::from_index(file);
        loaded = true;
    } catch (const std::exception&) {
    }
    fs::remove(file);
    c.label(loaded ? "loaded" : "rejected");
    if (damage == 0) {
        c.check(loaded, "a valid index was rejected");
        std::string eid = valid["element_id"];
        c.check(io->get_name() == valid["target"].get<std::string>(), "name is '" + io->get_name() + "'");
        c.check(io->get_current_invocation(eid) == valid["invocation"].get<uint32_t>(), "invocation number differs");
        std::map<std::pair<int, bool>, std::vector<const Want*>> by;
        for (auto& w : want) by[{w.arg, w.after}].push_back(&w);
        size_t have = io->get_captures().count(eid) ? io->get_captures().at(eid).size() : 0;
        c.check(have == by.size(), "index has " + std::to_string(have) + " captures, expected " + std::to_string(by.size()));
        for (auto& [k, ws] : by) {
            if (ws.size() != 1) continue; // the same argument listed twice: which entry counts is not defined
            auto& w = *ws[0];
            auto it = io->get_captures().at(eid).find(k);
            std::string id = "arg " + std::to_string(k.first) + (k.second ? " out" : " in");
            c.check(it != io->get_captures().at(eid).end(), id + " is missing");
            auto& cap = it->second;
            c.check(cap.arg_idx == w.arg && cap.after == w.after && cap.primitive_type == w.type && cap.dims == w.dims, id + ": contents differ from the index");
            c.check((bool) cap.data == (w.data >= 0), id + ": inline data");
            if (w.data >= 0) c.check(*cap.data == RAW[w.data], id + ": data differs");
            c.check((bool) cap.ext_file == (w.data < 0 && !w.file.empty()), id + ": data file");
            if (cap.ext_file) c.check(*cap.ext_file == file.parent_path() / w.file, id + ": data file is " + cap.ext_file->string());
        }
    }
    if (bad_version) c.check(!loaded, "an index of another format version was accepted");
    if (wrong_shape) c.check(!loaded, "an index with a missing field was accepted");
    if (unparsable) c.check(!loaded, "an index that is not JSON was accepted");
    if (s.chance(5)) {
        bool threw = false;
        try {
            ArgCaptureIO::from_index(fs::path(c.scratch) / "missing.json");
        } catch (const std::runtime_error&) {
            threw = true;
        }
        c.check(threw, "a missing index file was not reported");
    }
    if (damage || n) c.nontrivial(text);
}

int main(int argc, char** argv) {
    Options o;
    o.id = "C02";
    o.rule = "valid capture indexes with structured damage (version, missing field, wrong type, arbitrary JSON, byte edits); "
             "valid ones are compared entry by entry; non-trivial = damaged or with entries, distinct by text";
    o.quick = 150000;
    o.thorough = 3000000;
    return Runner(o, prop).main(argc, argv);
}
