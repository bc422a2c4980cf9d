// C25: caller data is never modified and views stay within it. Buffers and
// lines end at (or begin behind) an inaccessible page or are read-only: any
// access out of bounds or write ends the process, which is reported.
#include "grown.hpp"
#include "guard.hpp"
#include "restr.hpp"
#include "twin.hpp"
using namespace h;

using std::string_view;

SCENARIO(buffers, 100) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    str data = any_data(rng, s.cfg, d);
    if (rng.chance(1, 8)) {
        data.insert(rng.below(data.size() + 1), str(rng.range(100, 9000), 'L'));
    }
    if (rng.chance(1, 10)) data.clear();
    if (rng.chance(1, 60)) {
        data = grown_data(rng, s.cfg, d).data;
        if (rng.chance(1, 4)) {
            // of several pages and buffers, up to some megabytes
            const str unit = data;
            const size_t size = rng.range(1, 40) << 16;
            while (data.size() < size) data += unit;
        }
        c.feature("grown documents");
    }
    const bool writable = rng.chance(1, 2);
    const auto calls = make_calls(rng, data, s.cfg, d, 3, 40, 2);
    str hist;
    auto desc = [&] { return describe(s, mode, false, d, data) + ", calls" + hist; };
    Guarded g{data, rng.chance(3, 4)};
    if (!writable) g.read_only();
    Model m{data, s.cfg, d};
    auto p = s.buffer(mode, g.p, g.n, d);
    for (auto& x : calls) {
        hist += " " + x.text();
        const Result r = apply(*p, x);
        if (x.kind == Call::NEXT && r.ok) {
            c.feature("rows");
        }
        if (writable && !c.check(g.unchanged(data), "buffer-modified", desc)) {
            return;
        }
        if (!c.check(p->state().pos <= data.size(), "position-past-end", desc)) {
            return;
        }
    }
    p.reset();
    c.check(g.unchanged(data), "buffer-modified", desc);
    c.feature(writable ? "writable buffers" : "read-only buffers");
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// lines of the type erased converters: read-only if nothing may be edited
SCENARIO(lines, 100) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    const bool edits = s.cfg.Q || !s.cfg.esc.empty();
    auto conv = s.conv(mode);
    for (size_t n = rng.range(1, 6); n > 0; --n) {
        Gen gen{rng, s.cfg, d};
        str line;
        Err kind = OK;
        switch (rng.below(5)) {
        case 0: line = gen.malformed(rng.range(1, 4), kind, false); break;
        case 1: line = gen.hostile(rng.below(30)); break;
        case 2: line = gen.mutate(gen.row(gen.values(rng.range(1, 4), true)), rng.range(1, 4)); break;
        default: line = gen.row(gen.values(rng.range(1, 5), true));
        }
        line.erase(std::remove(line.begin(), line.end(), '\0'), line.end());
        auto desc = [&] {
            return str{"setup "} + s.name + ", " + mode_name[mode] + " errors, line " + show(line) + ", delimiter " +
                   show(d);
        };
        const str whole = line + str(1, '\0');
        Guarded g{whole};
        if (!edits && rng.chance(1, 2)) g.read_only();
        std::vector<std::pair<size_t, size_t>> ranges;
        const Obs o = conv->split(g.p, d, ranges);
        c.feature(o.ok ? "split lines" : "lines not split");
        if (!edits) {
            if (!c.check(g.unchanged(whole), "line-modified", desc)) return;
            c.feature("lines which may not be edited");
        } else {
            if (!c.check(g.surroundings(), "written-outside", desc)) return;
            if (!c.check(g.p[line.size()] == '\0', "terminator-overwritten", desc)) return;
            c.feature_if(std::memcmp(g.p, line.data(), line.size()) != 0, "edited lines");
        }
        const Scan sc = scan_row(line, s.cfg, d);
        if (o.ok && sc.err == OK && !line.empty()) {
            size_t last = 0;
            for (auto& [b, e] : ranges) {
                if (!c.check(b <= e && e <= line.size() && b >= last, "range-outside", [&] {
                        str r;
                        for (auto& [x, y] : ranges) r += " " + std::to_string(x) + "-" + std::to_string(y);
                        return "ranges" + r + "; " + desc();
                    })) {
                    return;
                }
                last = e;
            }
            if (!c.expect(o.vals, sc.fields, "wrong-ranges", [&] {
                    return "ranges designate " + show(o.vals) + " instead of " + show(sc.fields) + "; " + desc();
                })) {
                return;
            }
            c.feature("ranges", ranges.size());
        }
        conv->convert_split(static_cast<int>(rng.range(1, 5)));
        if (!edits && !c.check(g.unchanged(whole), "line-modified", desc)) return;
        if (!c.check(g.surroundings(), "written-outside", desc)) return;
        c.nontrivial(hash_str(line, hash_str(s.name + d)));
    }
}

namespace {

// views taken from a line stay valid while the converter goes on, is moved
// from or is destroyed
template <bool Edits, typename... O>
void views_case(Ctx& c, Rng& rng, const Cfg& cfg) {
    using C = ss::converter<O...>;
    using ptr = std::conditional_t<Edits, char, const char>;
    const str d = rng.chance(1, 2) ? "," : "::";
    Gen gen{rng, cfg, d};
    std::vector<std::unique_ptr<Guarded>> lines;
    std::vector<string_view> views;
    strs wants;
    str hist;
    auto desc = [&] { return "delimiter " + show(d) + ", lines" + hist; };
    auto conv = std::make_unique<C>();
    for (size_t n = rng.range(1, 6); n > 0; --n) {
        const str line = gen.row(gen.values(3, false));
        const Scan sc = scan_row(line, cfg, d);
        if (sc.err != OK || sc.fields.size() != 3) continue;
        hist += " " + show(line, 80);
        const str whole = line + str(1, '\0');
        lines.push_back(std::make_unique<Guarded>(whole));
        Guarded& g = *lines.back();
        if (!Edits) g.read_only();
        ptr* l = g.p;
        std::vector<string_view> got;
        bool ok = false;
        switch (rng.below(3)) {
        case 0: {
            auto [x, y, z] = conv->template convert<string_view, string_view, string_view>(l, d);
            got = {x, y, z};
            ok = conv->valid();
            break;
        }
        case 1: {
            conv->split(l, d);
            auto [x, y, z] = conv->template convert<string_view, string_view, string_view>();
            got = {x, y, z};
            ok = conv->valid();
            break;
        }
        default: {
            const auto split = conv->split(l, d);
            auto [x, y, z] = conv->template convert<string_view, string_view, string_view>(split);
            got = {x, y, z};
            ok = conv->valid();
        }
        }
        if (!c.check(ok, "valid-row-rejected", desc)) return;
        for (size_t i = 0; i < 3; ++i) {
            const auto& v = got[i];
            if (!c.check(v.data() >= g.p && v.data() + v.size() <= g.p + line.size(), "view-outside", desc)) return;
            views.push_back(v);
            wants.push_back(sc.fields[i]);
        }
        if (rng.chance(1, 4)) {
            // the lines stay where they are, the converter does not
            auto other = std::make_unique<C>(std::move(*conv));
            conv = std::move(other);
        }
        // something else in between, also malformed
        if (rng.chance(1, 3)) {
            Heap b{gen.hostile(12), true};
            ptr* x = b.p;
            conv->split(x, d);
        }
    }
    conv.reset();
    for (size_t i = 0; i < views.size(); ++i) {
        c.feature("views");
        if (!c.check(views[i] == wants[i], "view-changed", [&] {
                return "view " + std::to_string(i) + " is " + show(str{views[i]}) + " instead of " + show(wants[i]) +
                       "; " + desc();
            })) {
            return;
        }
    }
    c.nontrivial(hash_str(hist, hash_str(d)));
}

Cfg cfg_of(bool q, const char* esc, const char* trim) {
    Cfg c;
    c.Q = q;
    c.q = '"';
    c.esc = esc;
    c.tl = c.tr = trim;
    return c;
}

} // namespace

SCENARIO(views, 50) {
    using namespace ss;
    switch (rng.below(5)) {
    case 0: views_case<false>(c, rng, cfg_of(false, "", "")); break;
    case 1: views_case<false, trim<' '>>(c, rng, cfg_of(false, "", " ")); break;
    case 2: views_case<true, quote<'"'>>(c, rng, cfg_of(true, "", "")); break;
    case 3: views_case<true, escape<'\\'>>(c, rng, cfg_of(false, "\\", "")); break;
    default: views_case<true, quote<'"'>, escape<'\\'>, trim<' '>>(c, rng, cfg_of(true, "\\", " "));
    }
}

// values are extracted from ranges which nothing readable follows
SCENARIO(ranges, 50) {
    str t;
    switch (rng.below(6)) {
    case 0: t = field_text(rng); break;
    case 1: t = rng.chance(1, 2) ? "true" : "false"; t = t.substr(0, rng.below(6)); break;
    case 2: t = std::to_string(static_cast<long long>(rng.next())).substr(0, rng.below(22)); break;
    case 3: {
        char b[64];
        std::snprintf(b, sizeof(b), "%.*g", static_cast<int>(rng.range(1, 40)), static_cast<double>(rng.next()) / 3e7);
        t = str{b}.substr(0, rng.below(40));
        break;
    }
    case 4: t = str(rng.below(80), static_cast<char>('0' + rng.below(10))); break;
    default: {
        static const strs w{"", "1", "t", "tr", "-", "+", "1e", "1e+", ".", "0x", "nan(", "i", "in", "inf", "infinit"};
        t = rng.pick(w);
    }
    }
    Guarded g{t};
    g.read_only();
    const char *b = g.p, *e = g.p + g.n;
    size_t accepted = 0;
    auto one = [&](auto v) { accepted += ss::extract(b, e, v) ? 1 : 0; };
    one(int{}), one(int64_t{}), one(uint16_t{}), one(ss::int8{}), one(ss::uint8{});
    one(float{}), one(double{}), one(bool{}), one(char{}), one(int8_t{}), one(uint8_t{});
    one(std::string{}), one(string_view{});
    one(std::optional<double>{}), one(std::variant<int, double, bool, char>{}), one(std::variant<bool, string_view>{});
    c.events += 16;
    c.feature("values extracted", accepted);
    c.nontrivial(hash_str(t));
}

// files are only read, and nothing else is created beside them
#include <dirent.h>
static strs listing(const str& dir) {
    strs out;
    if (DIR* x = ::opendir(dir.c_str())) {
        while (const dirent* e = ::readdir(x)) out.push_back(e->d_name);
        ::closedir(x);
    }
    std::sort(out.begin(), out.end());
    return out;
}

SCENARIO(files, 12) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    str data = any_data(rng, s.cfg, d);
    if (rng.chance(1, 8)) data.insert(rng.below(data.size() + 1), str(rng.range(100, 9000), 'L'));
    const auto calls = make_calls(rng, data, s.cfg, d, 3, 40, 2);
    str hist;
    auto desc = [&] { return describe(s, mode, true, d, data) + ", calls" + hist; };
    const str dir = c.scratch + "/read";
    ::mkdir(dir.c_str(), 0700);
    const bool missing = rng.chance(1, 8);
    const str path = dir + "/d.csv";
    {
        std::unique_ptr<File> f;
        if (!missing) f = std::make_unique<File>(c, data, "read/d.csv");
        struct stat a {}, b {};
        ::stat(path.c_str(), &a);
        const strs before = listing(dir);
        {
            auto p = s.file(mode, path, d);
            for (auto& x : calls) {
                if (missing && mode == THROW) break;
                hist += " " + x.text();
                static_cast<void>(apply(*p, x));
            }
        }
        ::stat(path.c_str(), &b);
        c.check(listing(dir) == before, "file-created", desc);
        if (!missing) {
            str now(a.st_size >= 0 ? static_cast<size_t>(b.st_size) : 0, '\0');
            const int fd = ::open(path.c_str(), O_RDONLY);
            const auto n = ::read(fd, now.data(), now.size());
            ::close(fd);
            c.check(n == static_cast<ssize_t>(now.size()) && now == data, "file-modified", desc);
            c.check(a.st_ino == b.st_ino && a.st_mode == b.st_mode && a.st_mtim.tv_sec == b.st_mtim.tv_sec && a.st_mtim.tv_nsec == b.st_mtim.tv_nsec,
                    "file-touched", desc);
        }
    }
    c.feature(missing ? "missing files" : "files read");
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
}
