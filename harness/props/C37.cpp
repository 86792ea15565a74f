// C37: formatting, messages and progress bars.
#include "vh.h"
#include <cstdarg>
#include <iostream>
#include <limits>
#include <sstream>
#include "core/debug.h"
#include "core/progress.h"
using namespace vh;

// everything the library prints to standard output while alive
struct Capture {
    std::ostringstream os;
    std::streambuf *old;
    Capture() : old(std::cout.rdbuf(os.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
    std::string text() {
        std::cout.flush();
        return os.str();
    }
};

static std::string plain(const std::string &s) {  // without colour codes
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '\033') {
            while (i < s.size() && s[i] != 'm') i++;
            continue;
        }
        r += s[i];
    }
    return r;
}

static std::string word(Rng &rng, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += (char)('a' + rng.below(26));
    return s;
}

static size_t randLen(Rng &rng) {
    switch (rng.below(5)) {
    case 0: return rng.below(3);
    case 1: return (size_t)rng.range(110, 145);
    case 2: return (size_t)(1 << rng.range(5, 14)) + rng.below(4) - 2;
    default: return rng.below(200);
    }
}

static void formatting(Ctx &ctx, Rng &rng) {
    const size_t n = randLen(rng);
    const std::string w = word(rng, n);
    const int i = rng.chance(0.2) ? std::numeric_limits<int>::min() : (int)rng.range(-100000, 100000);
    const double d = rng.uni(-1, 1) * std::pow(10.0, rng.uni(-300, 300));
    std::vector<char> buf(n + 2000);
    auto same = [&](const std::string &got, const char *f) {
        VH_CHECK(got == buf.data(), "format", "format \"%s\" with a %zu character argument gives %zu characters, expected %zu", f, n, got.size(), strlen(buf.data()));
        ctx.eval();
    };
    snprintf(buf.data(), buf.size(), "%s", w.c_str());
    same(STR_FMT("%s", w.c_str()), "%s");
    snprintf(buf.data(), buf.size(), "%d|%s|%.3f%%", i, w.c_str(), d);
    same(STR_FMT("%d|%s|%.3f%%", i, w.c_str(), d), "%d|%s|%.3f%%");
    snprintf(buf.data(), buf.size(), "%*d %e", (int)(n % 300), i, d);
    same(STR_FMT("%*d %e", (int)(n % 300), i, d), "%*d %e");
    snprintf(buf.data(), buf.size(), "%s", "");
    same(STR_FMT("%s", ""), "empty");
    // messages
    const char *levels[] = {"INFO", "WARNING", "DEBUG"};
    for (int k = 0; k < 3; k++) {
        Capture c;
        if (k == 0) Info("%s#%d", w.c_str(), i);
        if (k == 1) Warn("%s#%d", w.c_str(), i);
        if (k == 2) Debug("%s#%d", w.c_str(), i);
        const std::string t = plain(c.text()), body = w + "#" + std::to_string(i);
        size_t at = t.find(body);
        VH_CHECK(at != std::string::npos, "message", "%s message of %zu characters is incomplete", levels[k], body.size());
        VH_CHECK(t.find(body, at + 1) == std::string::npos || body.size() < 6, "message", "%s message is printed more than once", levels[k]);
        VH_CHECK(t.substr(0, at).find(levels[k]) != std::string::npos, "message", "%s message lacks its level", levels[k]);
        VH_CHECK(std::count(t.begin(), t.end(), '\n') == 1 && t.back() == '\n', "message", "%s message is not one line", levels[k]);
        VH_CHECK(t.size() <= body.size() + 24, "message", "%s message carries extra text: %zu of %zu characters", levels[k], t.size(), body.size());
        ctx.eval();
    }
    {
        Capture c;
        Print("%s", w.c_str());
        VH_CHECK(c.text() == w, "print", "printed %zu characters of %zu", c.text().size(), w.size());
        ctx.eval();
    }
    ctx.nontrivial(mix(n, (uint64_t)i));
    ctx.count(n >= 128 ? "long_texts" : "short_texts");
}

// the states drawn, each "[ppp%]|bar| s/t [..]"
struct Drawn {
    int percent, step, total, width;
    std::string bar, desc;
};
static std::vector<Drawn> parse(const std::string &text) {
    std::vector<Drawn> r;
    std::istringstream is(text);
    std::string part;
    std::string t = text;
    size_t pos = 0;
    while ((pos = t.find('\r', pos)) != std::string::npos) {
        size_t end = t.find_first_of("\r\n", pos + 1);
        std::string s = t.substr(pos + 1, end == std::string::npos ? end : end - pos - 1);
        pos++;
        Drawn d;
        size_t b0 = s.find("%]|"), b1 = b0 == std::string::npos ? b0 : s.find('|', b0 + 3);
        VH_CHECK(b1 != std::string::npos, "bar:shape", "unreadable progress line \"%s\"", s.c_str());
        size_t p0 = s.rfind('[', b0);
        VH_CHECK(p0 != std::string::npos, "bar:shape", "unreadable progress line \"%s\"", s.c_str());
        d.desc = s.substr(0, p0);
        d.percent = atoi(s.substr(p0 + 1, b0 - p0 - 1).c_str());
        d.bar = s.substr(b0 + 3, b1 - b0 - 3);
        d.width = (int)d.bar.size();
        VH_CHECK(sscanf(s.c_str() + b1 + 1, "%d/%d", &d.step, &d.total) == 2, "bar:shape", "unreadable progress line \"%s\"", s.c_str());
        r.push_back(d);
    }
    return r;
}

static void progress(Ctx &ctx, Rng &rng) {
    const int totals[] = {1, 2, 3, 39, 40, 41, 100, 999, 1000, 1001, 5000, 200000000};
    const int total = rng.chance(0.6) ? totals[rng.below(12)] : (int)rng.range(1, 3000);
    std::string text;
    const std::string desc = rng.chance(0.5) ? word(rng, randLen(rng)) : "";
    int at = 0, overs = 0;
    std::vector<int> trace;
    bool finished = rng.chance(0.8), beyond = rng.chance(0.3);
    {
        Capture c;
        try {
            ProgressBar bar(total);
            if (!desc.empty()) bar.set_description("%s", desc.c_str());
            const int calls = (int)rng.range(0, 60);
            for (int k = 0; k < calls; k++) {
                long n = rng.chance(0.5) ? 1 : 1 + (long)rng.below((uint64_t)std::max(1L, (long)total / 7));
                if ((long)at + n > total && !beyond) break;
                if ((long)at + n > total) {
                    if (++overs > 2) break;
                    n = std::min(n, 2100000000L - at);
                    if (n < 1) break;
                }
                if (n == 1 && rng.chance(0.5))
                    bar.step();
                else
                    bar.step((int)n);
                at += (int)n;
                trace.push_back(at);
            }
            if (finished) bar.finish();
        } catch (const std::exception &e) {
            VH_CHECK(false, "bar:throws", "progress bar with total %d throws at step %d: %s", total, at, e.what());
        }
        text = c.text();
    }
    auto ds = parse(text);
    int width = -1;
    for (auto &d : ds) {
        if (width < 0) width = d.width;
        VH_CHECK(d.width == width && width > 0, "bar:width", "bar of %d characters among bars of %d (total %d, step %d)", d.width, width, total, d.step);
        VH_CHECK(d.total == total, "bar:total", "bar shows total %d, given %d", d.total, total);
        if (d.step <= total) {
            const long fill = std::count(d.bar.begin(), d.bar.end(), '=');
            VH_CHECK(std::labs(fill - (long)((long long)width * d.step / total)) <= 1, "bar:fill", "bar filled to %ld of %d at %d/%d", fill, width, d.step, total);
            VH_CHECK(std::fabs(d.percent - 100.0 * d.step / total) <= 1.0001, "bar:percent", "%d%% shown at %d/%d", d.percent, d.step, total);
        }
        if (!desc.empty()) VH_CHECK(d.desc.find(desc) != std::string::npos, "bar:description", "description is missing or cut");
        bool seen = d.step == total;
        for (int x : trace) seen |= x == d.step;
        VH_CHECK(seen, "bar:step", "bar shows step %d that was never reached", d.step);
    }
    // with a small total each state is drawn
    if (total < 1000) {
        std::vector<int> want = trace;
        if (finished && at != total) want.push_back(total);
        VH_CHECK(ds.size() == want.size(), "bar:missing", "%zu bars drawn for %zu steps (total %d)", ds.size(), want.size(), total);
        for (size_t i = 0; i < want.size(); i++) VH_CHECK(ds[i].step == want[i], "bar:step", "bar %zu shows step %d, expected %d", i, ds[i].step, want[i]);
    }
    if (finished) {
        VH_CHECK(!ds.empty() && ds.back().step == total && ds.back().percent == 100, "bar:finish", "finished bar does not end at its total %d", total);
        VH_CHECK(std::count(ds.back().bar.begin(), ds.back().bar.end(), '=') == width, "bar:finish", "finished bar is not full");
        VH_CHECK(text.back() == '\n', "bar:finish", "finished bar does not end its line");
        ctx.count("finished");
    }
    if (overs) ctx.count("beyond_total");
    ctx.count("bars_drawn", (long)ds.size());
    ctx.eval();
    ctx.nontrivial(mix((uint64_t)total, (uint64_t)at + trace.size() * 7919));
}

void vh::runCase(Ctx &ctx, long id, Rng &rng) {
    for (int k = 0; k < 10; k++) {
        formatting(ctx, rng);
        progress(ctx, rng);
    }
    if (id < 8) ctx.sample("texts of 0..16386 characters; bars with totals 1..2e8, random step sizes, some beyond the total");
}
void vh::finish(Ctx &) {}
