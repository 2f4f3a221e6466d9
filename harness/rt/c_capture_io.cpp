// C01: argument captures survive write_index / from_index for any capture history (model-based).
#include "../pbt.h"
#include "daisy_rtl/arg_capture_io.h"
#include "daisy_rtl/primitive_types.h"
using namespace pbt;
namespace fs = std::filesystem;
using arg_capture::ArgCaptureIO;

struct MCap {
    int type;
    std::vector<size_t> dims;
    std::string bytes;
    bool in_file;
    bool broken = false; // the capture reported failure: contents unspecified until captured again
};
using Key = std::pair<int, bool>;
using MElem = std::map<Key, MCap>;

static std::string show(const MElem& m) {
    std::ostringstream o;
    for (auto& [k, c] : m) o << " (" << k.first << "," << k.second << ":" << c.bytes.size() << "B)";
    return o.str();
}

static void compare(Case& c, const ArgCaptureIO& io, const std::string& eid, const MElem& m, const char* where) {
    auto it = io.get_captures().find(eid);
    size_t have = it == io.get_captures().end() ? 0 : it->second.size();
    c.check(have == m.size(), std::string(where) + ": element " + eid + " has " + std::to_string(have) + " captures, expected " +
                                  std::to_string(m.size()));
    for (auto& [k, mc] : m) {
        auto ci = it->second.find(k);
        std::string id = std::string(where) + ": element " + eid + " arg" + std::to_string(k.first) + (k.second ? " out" : " in");
        c.check(ci != it->second.end(), id + " is missing");
        const auto& cap = ci->second;
        c.check(cap.arg_idx == k.first && cap.after == k.second, id + ": key and contents differ");
        c.check(cap.primitive_type == mc.type, id + ": primitive type " + std::to_string(cap.primitive_type) + " != " + std::to_string(mc.type));
        c.check(cap.dims == mc.dims, id + ": dimensions differ");
        if (mc.broken) {
            c.check(!cap.data && !cap.ext_file, id + ": a failed capture claims to have contents");
            continue;
        }
        std::string got;
        if (cap.data) {
            got.assign(cap.data->begin(), cap.data->end());
        } else {
            c.check((bool) cap.ext_file, id + ": neither inline data nor a file");
            c.check(fs::exists(*cap.ext_file), id + ": data file " + cap.ext_file->string() + " does not exist");
            got.assign(mc.bytes.size(), '\x5a');
            c.check(fs::file_size(*cap.ext_file) == mc.bytes.size(), id + ": data file has the wrong size");
            ArgCaptureIO::read_data_from_raw_file(*cap.ext_file, got.data(), got.size());
        }
        c.check(got == mc.bytes, id + ": captured bytes differ");
    }
}

static void prop(Src& s, Case& c) {
    fs::path base = fs::path(c.scratch) / "cap";
    fs::remove_all(base);
    // the directory may not exist yet and may be nested
    if (s.chance(30)) base = base / "nested" / "dir";
    std::string name = s.pick<std::string>({"f", "__daisy_fn_1", "sdfg.name", "weird name", "ker-nel+x", "a\"b"});
    ArgCaptureIO io(name.c_str());
    std::vector<std::string> eids = {"1", "12", "123", "7"};
    if (s.chance(10)) eids = {s.pick<std::string>({"18446744073709551615", "1_2", "el em", "e.index", "\xc3\xa9"}), "4294967296", "0", "00"};
    size_t n_eids = 1 + s.below(4);
    // a history may be long: thousands of invocations, or many arguments per element
    bool long_history = s.chance(3), many_args = s.chance(5);
    std::map<std::string, uint32_t> inv;
    std::map<std::string, MElem> model;
    c << "name=" << name << "\n";
    int n_inline = 0, n_file = 0, n_over = 0, n_reload = 0, n_ops = 0, n_fail = 0, n_both = 0, n_files = 0;
    std::string hist;
    while (s.more(n_ops, 60, 12)) {
        ++n_ops;
        const std::string& eid = eids[s.below(n_eids)];
        size_t op = s.weighted({8, 8, 3, 4, 1, 1});
        if (op >= 0 && op <= 1 && !inv.count(eid)) op = 2;
        for (int burst = (op <= 1 && many_args && s.chance(40)) ? 30 : 1; burst > 0 && (op == 0 || op == 1 || op == 5); --burst) {
            if (!inv.count(eid)) {
                io.invocation(eid);
                inv[eid] = 0;
            }
            Key k{(int) s.below(s.chance(10) ? 1000 : many_args ? 60 : 5), s.flip()};
            if (s.chance(3)) k.first = s.pick<int>({2147483647, -1, 65536});
            std::vector<size_t> dims{(size_t) s.pick<size_t>({4, 1, 2, 8, 16, 10})};
            size_t max_dims = s.chance(10) ? 12 : 4;
            while (s.more(dims.size(), max_dims, max_dims / 4)) dims.push_back(s.chance(10) ? s.below(2) : 1 + s.below(5));
            if (s.chance(4)) {
                // an empty argument with a huge extent: nothing to store, but the extents must survive
                dims.push_back(0);
                dims.push_back(s.pick<size_t>({1ull << 32, (1ull << 32) + 1, 1ull << 31, 65536, 1ull << 53, (1ull << 53) + 1, ~0ull, 1ull << 63, 257}));
                if (s.flip()) std::reverse(dims.begin(), dims.end());
                c.label("huge extent");
            }
            size_t total = 1;
            for (auto d : dims) total *= d;
            if (total > 4096) {
                dims = {1, 4096}; // keep most arguments small
                total = 4096;
            }
            if (s.chance(2)) {
                dims = {8, (size_t) s.range(1000, 12000)};
                total = dims[0] * dims[1];
                c.label("large");
            } else if (s.chance(2)) {
                size_t page = s.pick<size_t>({4096, 65536, 8192, 32768, 131072, 1024});
                total = page * (1 + s.below(2)) + s.below(3) - 1;
                dims = {total};
                if (s.flip() && total % 8 == 0) dims = {8, total / 8};
                c.label("block size");
            }
            int type = s.below(19);
            // contents are derived from one choice: a pseudo random fill, or constant
            uint64_t fill = s.below(1 << 16);
            std::string data(total, 0);
            uint64_t st = fill;
            for (auto& ch : data) ch = fill == 0 ? 0 : (char) splitmix(st);
            std::string original = data;
            if (model[eid].count(k)) {
                ++n_over;
                if (model[eid][k].in_file != (op == 1)) ++n_both;
            }
            bool ok;
            if (op == 0) {
                ok = io.create_and_capture_inline(k.first, k.second, type, dims, data.empty() ? (const void*) "" : data.data(), eid);
                c.check(ok, "inline capture reported failure");
                ++n_inline;
                model[eid][k] = {type, dims, original, false};
                c << "inline ";
            } else if (op == 1) {
                fs::path file = base / ("d_" + std::to_string(++n_files) + s.pick<std::string>({".bin", "_x.bin", ".dat", "", ".tar.gz", " x.bin", ".bin.json", "."}));
                ok = io.create_and_capture_to_file(k.first, k.second, type, dims, file, data.empty() ? (const void*) "" : data.data(), eid);
                c.check(ok, "capture to a writable file reported failure");
                ++n_file;
                model[eid][k] = {type, dims, original, true};
                c << "file ";
            } else {
                // injected fault: the target cannot be written (it is a directory, lies below a file, or is a full device)
                fs::create_directories(base);
                fs::path file;
                int kind = s.below(4);
                const void* src = data.empty() ? (const void*) "" : data.data();
                if (kind == 0) {
                    file = base / "isdir";
                    fs::create_directories(file);
                } else if (kind == 1) {
                    std::ofstream(base / "plain") << "x";
                    file = base / "plain" / "below.bin";
                } else {
                    file = kind == 2 ? fs::path("/dev/full") : base / "null.bin";
                    if (total == 0) { dims = {8}; total = 8; data.assign(8, 'q'); original = data; }
                    src = kind == 2 ? data.data() : nullptr;
                }
                ok = io.create_and_capture_to_file(k.first, k.second, type, dims, file, src, eid);
                c.check(!ok, "capture to an unwritable target (" + file.string() + ") reported success");
                ++n_fail;
                model[eid][k] = {type, dims, original, true, true};
                c << "fault ";
            }
            // the caller may reuse its buffer at once
            for (auto& ch : data) ch = ~ch;
            c << eid << " arg" << k.first << (k.second ? "out" : "in") << " type" << type << " dims";
            for (auto d : dims) c << " " << d;
            c << " fill " << fill << "\n";
            hist += op == 0 ? 'i' : op == 1 ? 'f' : 'x';
        }
        if (op == 0 || op == 1 || op == 5) {
        } else if (op == 2) {
            uint32_t times = 1;
            if (long_history && s.chance(30)) times = s.chance(5) ? 65530 + s.below(20) : 120 + s.below(300);
            for (uint32_t q = 0; q < times; ++q) io.invocation(eid);
            if (inv.count(eid)) inv[eid] += times;
            else inv[eid] = times - 1;
            if (times > 1) c.label(times > 60000 ? "65536 invocations" : "hundreds of invocations");
            c << "invocation " << eid << " x" << times << "\n";
            hist += 'n';
        } else if (op == 3) {
            io.write_index(base);
            if (!model.empty() && s.chance(10)) {
                // injected fault: an index cannot be written
                fs::path blocked = fs::path(c.scratch) / "blocked";
                fs::remove_all(blocked);
                if (s.flip()) std::ofstream(blocked) << "x";
                else {
                    auto& e = *std::next(model.begin(), s.below(model.size()));
                    fs::create_directories(blocked / (name + "_inv" + std::to_string(inv[e.first]) + "_" + e.first + ".index.json"));
                }
                bool thrown = false;
                try {
                    io.write_index(blocked);
                } catch (const std::exception&) {
                    thrown = true;
                }
                c.check(thrown, "an index that cannot be written is not reported");
                fs::remove_all(blocked);
                c.label("index fault");
            }
            if (s.chance(10)) {
                bool thrown = false;
                char buf[4];
                try {
                    ArgCaptureIO::read_data_from_raw_file(fs::path(c.scratch) / "missing.bin", buf, 4);
                } catch (const std::exception&) {
                    thrown = true;
                }
                c.check(thrown, "reading a missing data file is not reported");
            }
            ++n_reload;
            hist += 'w';
            c << "write_index + reload\n";
            for (auto& [e, m] : model) {
                auto file = base / (name + "_inv" + std::to_string(inv[e]) + "_" + e + ".index.json");
                c.check(fs::exists(file), "index " + file.string() + " was not written");
                auto re = ArgCaptureIO::from_index(file);
                c.check(re->get_name() == name, "name changed to " + re->get_name());
                c.check(re->get_current_invocation(e) == inv[e], "invocation number changed");
                compare(c, *re, e, m, "reloaded");
                c.check(re->get_captures().size() == 1, "reloaded index has captures of other elements");
            }
        } else {
            io.clear();
            model.clear();
            hist += 'c';
            c << "clear\n";
            c.check(io.get_captures().empty(), "clear left captures behind");
        }
        for (auto& [e, k] : inv) c.check(io.get_current_invocation(e) == k, "invocation counter of " + e + " is wrong");
        for (auto& [e, m] : model) compare(c, io, e, m, "live");
    }
    if (n_reload) c.label("reload");
    if (n_over) c.label("recapture of same argument");
    if (n_both) c.label("recapture switching inline/file");
    if (n_fail) c.label("write fault");
    if (n_reload && (n_inline || n_file)) c.nontrivial(hist + name + c.trace.str());
}

int main(int argc, char** argv) {
    Options o;
    o.id = "C01";
    o.rule = "random histories of invocation/inline capture/file capture/failing capture/clear/write_index+reload over several "
             "elements; non-trivial = at least one capture and one index write+reload, distinct by full history";
    o.quick = 12000;
    o.thorough = 300000;
    return Runner(o, prop).main(argc, argv);
}
