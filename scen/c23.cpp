// C23: moving a parser transfers it completely; everything is released once.
#include "lockstep.hpp"
#include "tracked.hpp"
using namespace h;

namespace {

// one source being read, wherever its parser has been moved to
struct Stream {
    str data;
    bool file;
    std::unique_ptr<File> f;
    std::unique_ptr<Exact> b;
    str source;
    std::unique_ptr<Model> m;
    bool opened = true;
    str last_msg;
};

struct Slot {
    std::unique_ptr<ISut> sut; // null, reading a stream or moved-from
    std::unique_ptr<Stream> st;
};

} // namespace

SCENARIO(pool, 100) {
    Resources res;
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    std::vector<str> hist;
    static const str none;
    str shown;
    auto desc = [&] {
        str h;
        for (auto& x : hist) h += " " + x;
        return str{"setup "} + s.name + ", " + mode_name[mode] +
               " errors, delimiter " + show(d) + ", calls" + h;
    };
    bool good = true;
    {
        std::vector<Slot> slots(3);
        int files = 0;
        auto open = [&](size_t i) {
            Slot& x = slots[i];
            // destroys what was there, before or after the new one is opened
            auto st = std::make_unique<Stream>();
            Stream* p = st.get();
            p->data = any_data(rng, s.cfg, d, 6);
            if (rng.chance(1, 6)) {
                p->data.insert(rng.below(p->data.size() + 1),
                               str(rng.range(100, 1000), 'L'));
            }
            p->file = rng.chance(1, 2);
            const bool broken = rng.chance(1, 12);
            std::unique_ptr<ISut> sut;
            auto tag = "#" + std::to_string(i);
            if (broken) {
                p->opened = false;
                const size_t kind = rng.below(2);
                hist.push_back(kind ? "null" + tag : "missing" + tag);
                c.feature("sources which cannot be opened");
                const str path = c.scratch + "/missing.csv";
                sut = std::make_unique<Tracked>([&] {
                    return kind ? s.buffer(mode, nullptr, rng.below(3), d)
                                : s.file(mode, path, d);
                });
                good = c.check(!sut->open().ok, "opened-nothing", desc) && good;
                if (mode == THROW) {
                    // nothing was constructed
                    return;
                }
            } else {
                hist.push_back("open" + tag + "(" +
                               (p->file ? "file" : "buffer") + " " +
                               show(p->data, 300) + ")");
                p->m = std::make_unique<Model>(p->data, s.cfg, d);
                if (p->file) {
                    p->f = std::make_unique<File>(
                        c, p->data,
                        ("f" + std::to_string(files++) + ".csv").c_str());
                    p->source = p->f->path;
                    sut = std::make_unique<Tracked>(
                        [&] { return s.file(mode, p->source, d); });
                } else {
                    p->b = std::make_unique<Exact>(p->data);
                    p->source = "CSV data buffer";
                    sut = std::make_unique<Tracked>([&] {
                        return s.buffer(mode, p->b->p, p->b->n, d);
                    });
                }
                good = c.check(sut->open().ok, "open-failed", desc) && good;
            }
            x.sut = std::move(sut);
            x.st = std::move(st);
        };
        auto step = [&](size_t i) {
            Slot& x = slots[i];
            if (!x.st->opened) {
                if (rng.chance(1, 2)) {
                    const Obs o = x.sut->next(1);
                    good = c.check(!o.ok, "read-from-nothing", desc) && good;
                    hist.push_back("next1#" + std::to_string(i));
                }
                good = c.check(x.sut->state().eof, "wrong-eof", desc) && good;
                return;
            }
            Ops ops;
            Lockstep l{c, rng, s, mode, x.st->file, x.st->data, d,
                       ALL_ASPECTS, ops, {}};
            l.history = hist;
            l.history.push_back("#" + std::to_string(i));
            Opened o{x.st->source, std::move(x.sut)};
            good = l.step(*x.st->m, o) && good;
            x.sut = std::move(o.sut);
            hist = l.history;
        };
        const size_t ops = rng.range(5, 40);
        for (size_t n = 0; n < ops && good; ++n) {
            const size_t i = rng.below(slots.size());
            Slot& x = slots[i];
            const size_t w = rng.below(20);
            if (!x.sut || w == 0) {
                open(i);
            } else if (w == 1) {
                hist.push_back("destroy#" + std::to_string(i));
                x.sut.reset();
                x.st.reset();
            } else if (w < 8) {
                size_t j = rng.below(slots.size());
                if (j == i || !slots[j].sut) {
                    continue;
                }
                const bool assign = rng.chance(2, 3);
                hist.push_back(str{assign ? "assign#" : "construct#"} +
                               std::to_string(j) + "->#" + std::to_string(i));
                Slot& y = slots[j];
                c.feature(y.st ? "moves of a read" : "moves of a moved-from");
                c.feature_if(!x.st, "assignments to a moved-from");
                c.feature_if(x.st && y.st, "assignments to another read");
                State before;
                str msg;
                if (y.st) {
                    before = y.sut->state();
                    msg = y.sut->error_msg();
                }
                // the previous stream ends here
                x.sut->take(*y.sut, assign);
                x.st = std::move(y.st);
                if (x.st) {
                    good = c.expect(x.sut->state(), before, "state-after-move",
                                    desc) && good;
                    good = c.expect(x.sut->error_msg(), msg,
                                    "message-after-move", desc) && good;
                }
            } else if (x.st) {
                step(i);
            }
        }
        if (good) {
            shown = desc();
            // the rest of every stream
            for (size_t i = 0; i < slots.size(); ++i) {
                Slot& x = slots[i];
                if (!x.st || !x.st->opened || !rng.chance(1, 2)) continue;
                for (size_t k = 0; k < 30 && good && !x.st->m->eof(); ++k) {
                    step(i);
                }
                c.feature_if(x.st->m->eof(), "streams read to the end");
            }
        }
        // destroyed in any order
        while (!slots.empty()) {
            slots.erase(slots.begin() + static_cast<long>(rng.below(slots.size())));
        }
    }
    good = res.check(c, desc) && good;
    if (good) {
        c.nontrivial(hash_str(shown));
        if (rng.chance(1, 60)) c.sample(shown);
    }
}

// a parser which moves before every call reads the same as the model
SCENARIO(restless, 40) {
    Resources res;
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, d);
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2);
    bool good;
    str shown;
    {
        Ops ops;
        ops.move = 20;
        ops.header = ops.use = ops.exists = 2;
        ops.iterate = 1;
        ops.max_ops = 80;
        Lockstep l{c, rng, s, mode, file, data, d, ALL_ASPECTS, ops, {}};
        l.wrap = [](auto make) { return std::make_unique<Tracked>(make); };
        good = l.run();
        shown = l.desc();
    }
    good = res.check(c, [&] { return shown; }) && good;
    if (good) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
    }
}

// constructing fails or succeeds at nothing: all is released
SCENARIO(constructions, 10) {
    Resources res;
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const Mode mode = any_mode(rng);
    const size_t kind = rng.below(5);
    str path = c.scratch + "/f.csv";
    const str data = kind == 3 ? str{} : any_data(rng, s.cfg, d, 3);
    auto desc = [&] {
        return str{"construction "} + std::to_string(kind) + ", setup " +
               s.name + ", " + mode_name[mode] + " errors, data " + show(data);
    };
    std::unique_ptr<File> f;
    if (kind == 0) {
        path = c.scratch + "/missing/f.csv";
    } else if (kind == 1) {
        path = c.scratch; // a directory
    } else if (kind < 4) {
        f = std::make_unique<File>(c, data);
    }
    {
        std::unique_ptr<ISut> x = std::make_unique<Tracked>([&] {
            return kind == 4 ? s.buffer(mode, nullptr, 5, d)
                             : s.file(mode, path, d);
        });
        const Obs o = x->open();
        if (kind == 0 || kind == 4) {
            c.check(!o.ok, "opened-nothing", desc);
            c.feature("failed constructions");
        }
        if (kind == 3) {
            c.check(o.ok, "open-failed", desc);
        }
    }
    res.check(c, desc);
    c.nontrivial(hash_str(desc()));
}
