// C07: files and in-memory buffers with the same bytes behave identically.
#include "grown.hpp"
#include "twin.hpp"
#include <csignal>
#include <thread>
using namespace h;

static str some_data(Rng& rng, const Cfg& cfg, const str& d) {
    if (rng.chance(1, 8)) {
        // arbitrary bytes
        str out;
        for (size_t n = rng.below(200); n > 0; --n) {
            out += rng.chance(1, 8) ? (rng.chance(1, 2) ? '\n' : '\r')
                                    : static_cast<char>(rng.range(1, 255));
        }
        return out;
    }
    str out = any_data(rng, cfg, d);
    if (rng.chance(1, 10)) {
        // lines longer than the initial buffers
        const size_t at = rng.below(out.size() + 1);
        const size_t base = rng.chance(1, 6) ? 4096 : rng.chance(1, 2) ? 128 : 256;
        out.insert(at, str(base - 6 + rng.below(12), 'L'));
    }
    return out;
}


// the same calls on a file and on a buffer
static bool same_calls(Ctx& c, ISut& file, const str& file_name, ISut& buffer, const std::vector<Call>& calls, str& hist,
                       const std::function<str()>& desc) {
    auto compare = [&](Result x, Result y) {
        x.msg = without_source(x.msg, file_name);
        y.msg = without_source(y.msg, "CSV data buffer");
        const str p = show_result(x), q = show_result(y);
        return c.expect(p, q, "file-differs-from-buffer", [&] { return "file: " + p + " buffer: " + q + "; " + desc(); });
    };
    Result x, y;
    x.st = file.state();
    y.st = buffer.state();
    if (!compare(x, y)) {
        return false;
    }
    for (auto& call : calls) {
        hist += " " + call.text();
        const Result rx = apply(file, call), ry = apply(buffer, call);
        c.feature(rx.ok ? "calls which succeeded" : "calls which failed");
        if (!compare(rx, ry)) {
            return false;
        }
    }
    return true;
}

SCENARIO(same_trace, 100) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const bool grown = rng.chance(1, 150);
    const str data = grown ? grown_data(rng, s.cfg, d).data : some_data(rng, s.cfg, d);
    c.feature_if(grown, "grown documents");
    const Mode mode = any_mode(rng);
    const auto calls = make_calls(rng, data, s.cfg, d, 3);
    str hist;
    auto desc = [&] { return describe(s, mode, true, d, data) + ", calls" + hist; };
    Opened f{c, s, mode, true, data, d};
    Opened b{c, s, mode, false, data, d};
    if (!same_calls(c, *f.sut, f.source_name, *b.sut, calls, hist, desc)) return;
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// files with unusual names, reached in different ways
SCENARIO(names, 10) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = some_data(rng, s.cfg, d);
    const Mode mode = any_mode(rng);
    const auto calls = make_calls(rng, data, s.cfg, d, 3);
    static const strs pool = {"a b.csv", "\xc3\xa4\xe2\x82\xac.csv", "%s%n%d.csv", "x", ".hidden", "a\nb", "q\"uo'te", "very" + str(240, 'l') + "ong",
                              "no.such.suffix.", "tab\there", "\xff\xfe", "-", "--help", "*", "$HOME", "a,b;c", "a\\b"};
    const str name = rng.pick(pool);
    const File keep{c, data, name.c_str()};
    str path = keep.path;
    const str link = c.scratch + "/link", dir = c.scratch + "/sub";
    switch (rng.below(5)) {
    case 0: path = c.scratch + "/./" + name; break;
    case 1:
        ::unlink(link.c_str());
        if (::symlink(name.c_str(), link.c_str()) == 0) path = link;
        break;
    case 2:
        // longer than 256 bytes
        path = c.scratch + str(rng.range(20, 150), '/') + str(name);
        break;
    case 3:
        path = c.scratch + "/";
        for (size_t i = rng.range(30, 400); i > 0; --i) path += "./";
        path += name;
        break;
    default: break;
    }
    str hist;
    auto desc = [&] { return "path " + show(path, 2000) + ", " + describe(s, mode, true, d, data) + ", calls" + hist; };
    auto f = s.file(mode, path, d);
    Opened b{c, s, mode, false, data, d};
    const bool ok = same_calls(c, *f, path, *b.sut, calls, hist, desc);
    ::unlink(link.c_str());
    if (!ok) return;
    c.feature("unusual names");
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d + path)));
}

// the name means nothing any more once the file is open: removed, renamed, replaced, relative to another directory
SCENARIO(renamed, 12) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    str data = some_data(rng, s.cfg, d);
    if (rng.chance(1, 6)) {
        // more than one read of the stream
        for (const str unit = data + "\n"; data.size() < 9000 && !data.empty();) data += "\n" + unit;
    }
    const Mode mode = any_mode(rng);
    const auto calls = make_calls(rng, data, s.cfg, d, 3);
    const File keep{c, data, "opened.csv"};
    str path = keep.path;
    const str other = c.scratch + "/other.csv", dir = c.scratch + "/elsewhere";
    const int how = static_cast<int>(rng.below(5)), home = how == 4 ? ::open(".", O_RDONLY | O_DIRECTORY) : -1;
    bool ready = true;
    if (how == 4) {
        // the other directory has a file of that name as well
        ready = home >= 0 && ::mkdir(dir.c_str(), 0700) == 0 && ::chdir(c.scratch.c_str()) == 0;
        path = rng.chance(1, 2) ? "opened.csv" : "./opened.csv";
    }
    str hist;
    static const char* const done[] = {"files removed after they were opened", "files renamed after they were opened",
                                       "files replaced by others after they were opened",
                                       "files replaced by directories after they were opened",
                                       "files opened relative to another directory"};
    auto desc = [&] { return str{done[how]} + ", " + describe(s, mode, true, d, data) + ", calls" + hist; };
    bool ok = true;
    if (ready) {
        auto f = s.file(mode, path, d);
        Opened b{c, s, mode, false, data, d};
        std::unique_ptr<File> decoy;
        switch (how) {
        case 0: ::unlink(path.c_str()); break;
        case 1: ready = ::rename(path.c_str(), other.c_str()) == 0; break;
        case 2:
            decoy = std::make_unique<File>(c, "decoy" + d + "row\nof" + d + "another\n", "other.csv");
            ready = ::rename(other.c_str(), path.c_str()) == 0;
            break;
        case 3: ready = ::unlink(path.c_str()) == 0 && ::mkdir(path.c_str(), 0700) == 0; break;
        default:
            decoy = std::make_unique<File>(c, "decoy" + d + "row\nof" + d + "another\n", "elsewhere/opened.csv");
            ready = ::chdir(dir.c_str()) == 0;
        }
        ok = same_calls(c, *f, path, *b.sut, calls, hist, desc);
    }
    if (home >= 0) {
        if (::fchdir(home) != 0) std::_Exit(90);
        ::close(home);
    }
    ::unlink(other.c_str());
    if (how == 3) ::rmdir(keep.path.c_str());
    if (how == 4) ::rmdir(dir.c_str());
    if (!ok || !ready) return;
    c.feature(done[how]);
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d + path)));
}

// data which arrives in pieces: a pipe, written while it is read
SCENARIO(pieces, 6) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    str data = some_data(rng, s.cfg, d);
    if (rng.chance(1, 3)) {
        // more than the buffers of the pipe and of the stream hold
        for (const str unit = data + "\n"; data.size() < 5000 && !data.empty();) data += "\n" + unit;
    }
    const Mode mode = any_mode(rng);
    const auto calls = make_calls(rng, data, s.cfg, d, 3);
    int fd[2];
    if (::pipe(fd) != 0) return;
    const str path = "/proc/self/fd/" + std::to_string(fd[0]);
    if (::access(path.c_str(), R_OK) != 0) {
        ::close(fd[0]);
        ::close(fd[1]);
        return;
    }
    ::signal(SIGPIPE, SIG_IGN);
    std::vector<size_t> cuts;
    const size_t step = rng.pick(std::vector<size_t>{1, 3, 20, 200, 3000});
    for (size_t left = data.size(); left > 0;) {
        cuts.push_back(std::min(left, rng.range(1, step)));
        left -= cuts.back();
    }
    const unsigned pause = static_cast<unsigned>(rng.below(3));
    std::thread writer{[&] {
        size_t at = 0;
        for (size_t i = 0; i < cuts.size(); at += cuts[i++]) {
            if (::write(fd[1], data.data() + at, cuts[i]) < 0) break;
            if (pause == 1) std::this_thread::yield();
            if (pause == 2 && i % 8 == 0) ::usleep(20);
        }
        ::close(fd[1]);
    }};
    str hist;
    auto desc = [&] { return "pipe written in " + std::to_string(cuts.size()) + " pieces, " + describe(s, mode, true, d, data) + ", calls" + hist; };
    bool ok;
    {
        auto f = s.file(mode, path, d);
        ::close(fd[0]);
        Opened b{c, s, mode, false, data, d};
        ok = same_calls(c, *f, path, *b.sut, calls, hist, desc);
    }
    writer.join();
    if (!ok) return;
    c.feature("pieces", cuts.size());
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
}

// documents of some megabytes
SCENARIO(volume, 1) {
    if (!rng.chance(1, 12)) return;
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, d};
    strs pieces;
    for (int i = 0; i < 40; ++i) {
        pieces.push_back(s.cfg.ML && s.cfg.limit == 0 ? make_doc(g, rng.range(1, 8), 1, 5, true).data : any_data(rng, s.cfg, d));
    }
    str data;
    const size_t size = rng.range(100000, 1500000) + (rng.chance(1, 2) ? (1u << 20) : 0);
    while (data.size() < size) data += rng.pick(pieces) + "\n";
    const Mode mode = any_mode(rng);
    const uint64_t salt = rng.next();
    Opened f{c, s, mode, true, data, d};
    Opened b{c, s, mode, false, data, d};
    size_t i = 0, good = 0;
    auto desc = [&] { return "row " + std::to_string(i) + " of " + std::to_string(data.size()) + " bytes, setup " + s.name + " delimiter " + show(d); };
    for (; !f.sut->state().eof; ++i) {
        const int k = static_cast<int>(1 + mix(salt + i) % 5);
        const Obs x = f.sut->next(k), y = b.sut->next(k);
        if (!c.check(x.ok == y.ok && x.vals == y.vals && f.sut->state() == b.sut->state(), "file-differs-from-buffer", desc)) return;
        good += x.ok;
    }
    c.check(b.sut->state().eof, "file-differs-from-buffer", desc);
    c.feature("rows of large documents", good);
    c.feature_if(data.size() > (1u << 20), "documents above 1 MiB");
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}
