#include "pbt.h"
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <ctime>

namespace pbt
{

namespace
{

Shared* newShared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return static_cast<Shared*>(p);
}

Shared* hangShm = nullptr;
void onHang(int)
{
    if (hangShm) snprintf(hangShm->message, sizeof hangShm->message, "does not terminate: one case used more than the CPU limit");
    _exit(78);
}

unsigned cpuLimit = 12;

void armCpuTimer()
{
    itimerval t {};
    t.it_value.tv_sec = cpuLimit;
    setitimer(ITIMER_PROF, &t, nullptr);
    t.it_value.tv_sec = cpuLimit * 12; // blocked instead of spinning
    setitimer(ITIMER_REAL, &t, nullptr);
}
void catchHangs(Shared* shm)
{
    hangShm = shm;
    signal(SIGPROF, onHang);
    signal(SIGALRM, onHang);
}

enum class Outcome { Pass, Fail, Discarded };

Outcome runCase(const Property &p, Ctx &ctx)
{
    try
    {
        p.run(ctx);
        return Outcome::Pass;
    }
    catch (const Failure &f)
    {
        snprintf(ctx.shm->message, sizeof ctx.shm->message, "%s", f.message.c_str());
        return Outcome::Fail;
    }
    catch (const Discard &)
    {
        return Outcome::Discarded;
    }
    catch (const std::exception &e)
    {
        snprintf(ctx.shm->message, sizeof ctx.shm->message, "unexpected exception: %s", e.what());
        return Outcome::Fail;
    }
}

struct Options
{
    std::string tier = "quick";
    uint64_t seed = 1;
    unsigned workers = 8;
    double scale = 1;
    std::string out, replayOut, logDir = ".", replayFile, property, choicesFile;
    double deadline = 600;
};
Options opt;

double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

uint64_t caseSeed(const Property &p, unsigned worker, uint64_t i)
{
    uint64_t s = opt.seed * 0x9E3779B97F4A7C15ull + 12345;
    for (const char* c = p.name; *c; ++c) s = (s ^ uint64_t(*c)) * 1099511628211ull;
    s ^= (uint64_t(worker) << 48) + i;
    splitmix(s);
    return splitmix(s);
}

// Redirects stdout and stderr of a child to a file.
void redirect(const std::string &file)
{
    int fd = open(file.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}

std::string readFile(const std::string &f, size_t limit = 6000)
{
    std::ifstream in(f, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    auto r = s.str();
    return r.size() > limit ? r.substr(0, limit) : r;
}

std::string json(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c: s)
    {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

struct ReplayResult { bool failed = false; bool discarded = false; std::string message, text; std::vector<uint64_t> choices; std::vector<Span> spans; };

// Runs one choice sequence in a child process.
ReplayResult replayOnce(const Property &p, const std::vector<uint64_t> &choices, Shared* shm, bool explain)
{
    shm->message[0] = 0;
    shm->text[0] = 0;
    shm->nChoices = 0;
    const std::string log = opt.logDir + "/replay.log", exp = opt.logDir + "/replay.txt";
    unlink(exp.c_str());
    pid_t pid = fork();
    if (pid == 0)
    {
        redirect(log);
        catchHangs(shm);
        armCpuTimer();
        Ctx ctx(shm);
        ctx.mode = Ctx::Mode::Replay;
        ctx.replay = &choices;
        ctx.explaining = explain;
        auto o = runCase(p, ctx);
        {
            std::ofstream f(exp, std::ios::binary);
            f << ctx.spans.size() << "\n";
            for (auto &s: ctx.spans) f << s.begin << " " << s.end << "\n";
        }
        _exit(o == Outcome::Pass ? 0 : o == Outcome::Fail ? 77 : 75);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    ReplayResult r;
    r.choices.assign(shm->choices, shm->choices + shm->nChoices);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 75) r.discarded = true;
    else
    {
        r.failed = true;
        r.message = shm->message;
        if (WIFSIGNALED(st)) r.message = "killed by signal " + std::to_string(WTERMSIG(st)) + " " + r.message;
        else if (WEXITSTATUS(st) != 77 && WEXITSTATUS(st) != 78) r.message = "aborted (exit " + std::to_string(WEXITSTATUS(st)) + "): " + readFile(log, 3000);
    }
    std::ifstream f(exp, std::ios::binary);
    size_t n = 0;
    if (f >> n)
    {
        for (size_t i = 0; i < n; ++i) { Span s {}; f >> s.begin >> s.end; r.spans.push_back(s); }
    }
    if (explain) r.text = shm->text;
    return r;
}

std::vector<uint64_t> shrink(const Property &p, std::vector<uint64_t> best, Shared* shm)
{
    double end = now() + 40;
    unsigned attempts = 0;
    std::vector<Span> spans;
    auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto tryIt = [&](const std::vector<uint64_t> &cand) {
        if (++attempts > 4000 || now() > end) return false;
        auto r = replayOnce(p, cand, shm, false);
        if (!r.failed) return false;
        auto used = r.choices;
        while (!used.empty() && used.back() == 0) used.pop_back(); // exhausted choices read as 0
        if (!better(used, best)) return false;
        best = used;
        if (!r.spans.empty()) spans = r.spans;
        return true;
    };
    {
        auto r = replayOnce(p, best, shm, false);
        spans = r.spans;
        // a crash leaves no spans behind; deletion by chunks works all the same
        while (!best.empty() && best.back() == 0) best.pop_back();
    }
    bool changed = true;
    while (changed && attempts < 4000 && now() < end)
    {
        changed = false;
        for (size_t i = spans.size(); i-- > 0;)
        {
            if (i >= spans.size()) continue;
            Span s = spans[i];
            if (s.end <= s.begin || s.begin >= best.size()) continue;
            auto c = best;
            size_t b = s.begin > 0 ? s.begin - 1 : 0; // with the loop guard in front
            c.erase(c.begin() + long(b), c.begin() + long(std::min(c.size(), s.end)));
            if (tryIt(c)) { changed = true; continue; }
            c = best;
            if (s.begin < c.size())
            {
                c.erase(c.begin() + long(s.begin), c.begin() + long(std::min(c.size(), s.end)));
                if (tryIt(c)) changed = true;
            }
        }
        for (size_t k: { 64, 32, 16, 8, 6, 5, 4, 3, 2, 1 })
        {
            for (size_t i = best.size(); i-- > 0;)
            {
                if (i + k > best.size()) continue;
                auto c = best;
                c.erase(c.begin() + long(i), c.begin() + long(i + k));
                if (tryIt(c)) changed = true;
                if (now() > end) break;
            }
        }
        for (size_t i = 0; i < best.size(); ++i)
        {
            if (best[i] == 0) continue;
            auto c = best;
            c[i] = 0;
            if (tryIt(c)) { changed = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0; // binary search downwards
            while (hi > 0 && lo + 1 < hi && now() < end && i < best.size())
            {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best;
                c[i] = mid;
                if (tryIt(c)) { changed = true; hi = mid; }
                else lo = mid;
            }
            if (i < best.size() && best[i] > 0)
            {
                c = best;
                c[i] = best[i] - 1;
                if (tryIt(c)) changed = true;
            }
        }
    }
    return best;
}

const Property* find(const std::string &name)
{
    for (auto &p: properties()) if (name == p.name) return &p;
    return nullptr;
}

// Runs the cases [from, upTo] of one worker in one fresh process, as the worker did: for failures that
// depend on state the code under test keeps across cases.
bool replaySequence(const Property &p, unsigned worker, uint64_t from, uint64_t upTo, Shared* shm, std::string &msg)
{
    shm->message[0] = 0;
    const std::string log = opt.logDir + "/replay.log";
    pid_t pid = fork();
    if (pid == 0)
    {
        redirect(log);
        catchHangs(shm);
        for (uint64_t i = from; i <= upTo; ++i)
        {
            armCpuTimer();
            shm->caseIndex = i;
            Ctx ctx(shm);
            ctx.rngState = caseSeed(p, worker, i);
            if (runCase(p, ctx) == Outcome::Fail) _exit(77);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    msg = shm->message;
    if (msg.empty()) msg = "aborted: " + readFile(log, 3000);
    return true;
}

int reportSequence(const Property &p, unsigned worker, uint64_t upTo, const std::string &firstMessage, Shared* shm)
{
    std::string msg = firstMessage;
    uint64_t from = 0;
    bool found = false;
    for (uint64_t k = 1; k <= upTo * 2 && !found; k *= 2)
    {
        from = upTo > k ? upTo - k : 0;
        found = replaySequence(p, worker, from, upTo, shm, msg);
        if (from == 0) break;
    }
    if (!found)
    {
        std::cout << "UNREPRODUCIBLE " << p.name << ": " << firstMessage.substr(0, 800) << "\n";
        return 4;
    }
    std::ofstream f(opt.replayOut, std::ios::binary);
    f << "{\n \"harness_property\": " << json(p.name) << ",\n \"sequence\": true,\n \"seed\": " << opt.seed << ",\n \"worker\": " << worker
      << ",\n \"from\": " << from << ",\n \"upto\": " << upTo << ",\n \"choices\": [],\n \"message\": " << json(msg) << "\n}\n";
    std::cout << "FAILED " << p.name << " (only after earlier cases in the same process): " << msg.substr(0, 1500) << "\n";
    return 1;
}

int reportFailure(const Property &p, const std::vector<uint64_t> &original, const std::string &firstMessage, Shared* shm)
{
    const bool hang = firstMessage.find("does not terminate") != std::string::npos;
    auto reproduces = [&](const std::vector<uint64_t> &c) {
        for (int i = 0; i < (hang ? 1 : 3); ++i) if (!replayOnce(p, c, shm, false).failed) return false;
        return true;
    };
    auto best = original;
    const unsigned limit = cpuLimit;
    if (hang) cpuLimit = limit * 4; // slow is not endless
    const bool again = reproduces(original);
    cpuLimit = limit;
    if (!again)
    {
        if (hang) return 5;
        std::cout << "UNREPRODUCIBLE " << p.name << ": " << firstMessage.substr(0, 800) << "\n";
        return 4;
    }
    if (hang) cpuLimit = 3; // each attempt that still hangs costs this much
    best = shrink(p, original, shm);
    cpuLimit = limit;
    if (!reproduces(best)) best = original;
    auto r = replayOnce(p, best, shm, true);
    std::ofstream f(opt.replayOut, std::ios::binary);
    f << "{\n \"harness_property\": " << json(p.name) << ",\n \"seed\": " << opt.seed << ",\n \"choices\": [";
    for (size_t i = 0; i < best.size(); ++i) f << (i ? "," : "") << best[i];
    f << "],\n \"message\": " << json(r.message) << ",\n \"case\": " << json(r.text) << "\n}\n";
    f.close();
    std::cout << "FAILED " << p.name << ": " << r.message.substr(0, 1500) << "\n  case: " << r.text.substr(0, 3000) << "\n";
    return 1;
}

std::vector<uint64_t> readChoices(const std::string &file)
{
    auto s = readFile(file, size_t(1) << 26);
    auto pos = s.find("\"choices\": [");
    std::vector<uint64_t> r;
    if (pos == std::string::npos) return r;
    pos += 12;
    const char* c = s.c_str() + pos;
    while (*c && *c != ']')
    {
        char* e = nullptr;
        r.push_back(strtoull(c, &e, 10));
        if (e == c) break;
        c = e;
        while (*c == ',' || *c == ' ' || *c == '\n') ++c;
    }
    return r;
}

struct Totals
{
    uint64_t evaluations = 0, nontrivial = 0, discarded = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::vector<std::string> reports;
    bool truncated = false;
};

int runProperty(const Property &p, Totals &tot)
{
    const double end = now() + opt.deadline;
    const Totals before = tot;
    Shared* scratch = newShared();
    if (p.once)
    {
        scratch->message[0] = 0;
        pid_t pid = fork();
        const std::string log = opt.logDir + "/once.log", rep = opt.logDir + "/once.txt";
        unlink(rep.c_str());
        if (pid == 0)
        {
            redirect(log);
            catchHangs(scratch);
            cpuLimit = 60;
            armCpuTimer();
            try
            {
                std::string report;
                p.once(report);
                std::ofstream(rep) << report;
            }
            catch (const Failure &f)
            {
                snprintf(scratch->message, sizeof scratch->message, "%s", f.message.c_str());
                _exit(77);
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            std::string msg = WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78) ? scratch->message : "aborted: " + readFile(log, 3000);
            std::ofstream f(opt.replayOut, std::ios::binary);
            f << "{\n \"harness_property\": " << json(std::string(p.name)) << ",\n \"once\": true,\n \"choices\": [],\n \"message\": " << json(msg) << "\n}\n";
            std::cout << "FAILED " << p.name << " (enumerated part): " << msg.substr(0, 1500) << "\n";
            return 1;
        }
        tot.reports.push_back(readFile(rep, 4000));
    }
    uint64_t cases = uint64_t(double(opt.tier == "quick" ? p.quickCases : p.thoroughCases) * opt.scale);
    struct W { pid_t pid; Shared* shm; std::string dist; bool done; };
    std::vector<W> ws;
    std::cout.flush();
    for (unsigned w = 0; w < opt.workers; ++w)
    {
        W x { 0, newShared(), opt.logDir + "/distinct." + std::to_string(w), false };
        x.pid = fork();
        if (x.pid == 0)
        {
            redirect(opt.logDir + "/worker." + std::to_string(w) + ".log");
            catchHangs(x.shm);
            std::unordered_set<uint64_t> distinct;
            for (uint64_t i = 0; i < cases; ++i)
            {
                if ((i & 63) == 0 && now() > end) { x.shm->discarded |= uint64_t(1) << 63; break; }
                x.shm->caseIndex = i;
                armCpuTimer();
                Ctx ctx(x.shm);
                ctx.rngState = caseSeed(p, w, i);
                auto o = runCase(p, ctx);
                if (o == Outcome::Fail) _exit(77);
                if (o == Outcome::Discarded) { ++x.shm->discarded; continue; }
                ++x.shm->evaluations;
                for (auto l: ctx.caseLabels)
                {
                    size_t k = 0;
                    while (k < x.shm->nLabels && strcmp(x.shm->labelName[k], l) != 0) ++k;
                    if (k == x.shm->nLabels)
                    {
                        if (k == maxLabels) continue;
                        snprintf(x.shm->labelName[k], sizeof x.shm->labelName[k], "%s", l);
                        ++x.shm->nLabels;
                    }
                    ++x.shm->labelCount[k];
                }
                if (ctx.isNontrivial)
                {
                    ++x.shm->nontrivial;
                    if (distinct.size() < 3000000) distinct.insert(ctx.hash());
                    if (w == 0 && x.shm->nSamples < 3 && i % 5 == 3) x.shm->sampleSeeds[x.shm->nSamples++] = i;
                }
            }
            std::ofstream f(x.dist, std::ios::binary);
            for (auto h: distinct) f.write(reinterpret_cast<const char*>(&h), sizeof h);
            f.close();
            _exit(0);
        }
        ws.push_back(x);
    }
    int failed = -1;
    std::string msg;
    for (unsigned left = opt.workers; left > 0;)
    {
        int st = 0;
        pid_t pid = waitpid(-1, &st, 0);
        for (unsigned w = 0; w < ws.size(); ++w)
        {
            if (ws[w].pid != pid) continue;
            --left;
            ws[w].done = true;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && failed < 0)
            {
                failed = int(w);
                msg = ws[w].shm->message;
                if (msg.empty()) msg = readFile(opt.logDir + "/worker." + std::to_string(w) + ".log", 2000);
                for (auto &o: ws) if (!o.done) kill(o.pid, SIGKILL);
            }
        }
    }
    for (auto &x: ws)
    {
        tot.evaluations += x.shm->evaluations;
        tot.nontrivial += x.shm->nontrivial;
        tot.discarded += x.shm->discarded & ~(uint64_t(1) << 63);
        if (x.shm->discarded >> 63) tot.truncated = true;
        for (size_t k = 0; k < x.shm->nLabels; ++k) tot.labels[x.shm->labelName[k]] += x.shm->labelCount[k];
    }
    if (failed >= 0)
    {
        std::vector<uint64_t> c(ws[unsigned(failed)].shm->choices, ws[unsigned(failed)].shm->choices + ws[unsigned(failed)].shm->nChoices);
        int rc = reportFailure(p, c, msg, scratch);
        if (rc == 5)
        {
            // ended within four times the limit: run all of it again with that limit
            for (auto &x: ws) munmap(x.shm, sizeof(Shared));
            munmap(scratch, sizeof(Shared));
            tot = before;
            if (cpuLimit > 100) { std::cout << "TOO SLOW " << p.name << "\n"; return 4; }
            const unsigned limit = cpuLimit;
            cpuLimit = limit * 4;
            rc = runProperty(p, tot);
            cpuLimit = limit;
            return rc;
        }
        if (rc == 4) rc = reportSequence(p, unsigned(failed), ws[unsigned(failed)].shm->caseIndex, msg, scratch);
        return rc;
    }
    for (auto &x: ws)
    {
        std::ifstream f(x.dist, std::ios::binary);
        uint64_t h;
        while (f.read(reinterpret_cast<char*>(&h), sizeof h)) tot.distinct.insert(h);
        unlink(x.dist.c_str());
    }
    for (size_t i = 0; i < ws[0].shm->nSamples; ++i)
    {
        // regenerate the sample in explaining mode
        Shared* s = scratch;
        const std::string exp = opt.logDir + "/sample.txt";
        pid_t pid = fork();
        if (pid == 0)
        {
            redirect(opt.logDir + "/sample.log");
            Ctx ctx(s);
            ctx.rngState = caseSeed(p, 0, ws[0].shm->sampleSeeds[i]);
            ctx.explaining = true;
            runCase(p, ctx);
            std::ofstream(exp, std::ios::binary) << ctx.text;
            _exit(0);
        }
        waitpid(pid, nullptr, 0);
        auto t = readFile(exp, 1500);
        if (!t.empty()) tot.samples.push_back(std::string(p.name) + ": " + t);
    }
    for (auto &x: ws) munmap(x.shm, sizeof(Shared));
    munmap(scratch, sizeof(Shared));
    return 0;
}

} // namespace

bool thoroughTier() { return opt.tier == "thorough"; }

int Driver::main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") opt.tier = val();
        else if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers") opt.workers = unsigned(atoi(val().c_str()));
        else if (a == "--scale") opt.scale = atof(val().c_str());
        else if (a == "--out") opt.out = val();
        else if (a == "--replay-out") opt.replayOut = val();
        else if (a == "--log-dir") opt.logDir = val();
        else if (a == "--replay") opt.replayFile = val();
        else if (a == "--confirm") opt.choicesFile = val();
        else if (a == "--property") opt.property = val();
        else if (a == "--deadline") opt.deadline = atof(val().c_str());
        else if (a == "--cpu-limit") cpuLimit = unsigned(atoi(val().c_str()));
        else if (a == "--list") { for (auto &p: properties()) std::cout << p.name << "\n"; return 0; }
    }
    if (!opt.replayFile.empty() || !opt.choicesFile.empty())
    {
        const std::string file = opt.replayFile.empty() ? opt.choicesFile : opt.replayFile;
        auto text = readFile(file, 1u << 20);
        const Property* p = nullptr;
        for (auto &x: properties()) if (text.find("\"harness_property\": \"" + std::string(x.name) + "\"") != std::string::npos) p = &x;
        if (!p) { std::cout << "replay: no such property\n"; return 3; }
        Shared* shm = newShared();
        if (text.find("\"once\": true") != std::string::npos)
        {
            try { std::string rep; p->once(rep); } catch (const Failure &f) { std::cout << "FAILED " << f.message << "\n"; return 1; }
            std::cout << "passes\n";
            return 0;
        }
        auto number = [&](const char* key) {
            auto pos = text.find(std::string("\"") + key + "\": ");
            return pos == std::string::npos ? uint64_t(0) : strtoull(text.c_str() + pos + strlen(key) + 4, nullptr, 10);
        };
        if (text.find("\"sequence\": true") != std::string::npos)
        {
            opt.seed = number("seed");
            std::string msg;
            bool bad = replaySequence(*p, unsigned(number("worker")), number("from"), number("upto"), shm, msg);
            std::cout << (bad ? "FAILED " + msg : std::string("passes")) << "\n";
            return bad ? 1 : 0;
        }
        if (!opt.choicesFile.empty()) return reportFailure(*p, readChoices(file), "", shm);
        auto r = replayOnce(*p, readChoices(file), shm, true);
        std::cout << (r.failed ? "FAILED " : r.discarded ? "discarded " : "passes ") << r.message << "\n  case: " << r.text << "\n";
        return r.failed ? 1 : 0;
    }
    Totals tot;
    std::string rule;
    int rc = 0;
    std::ostringstream per;
    for (auto &p: properties())
    {
        if (!opt.property.empty() && opt.property != p.name) continue;
        auto e0 = tot.evaluations, n0 = tot.nontrivial;
        auto d0 = tot.distinct.size();
        rc = runProperty(p, tot);
        per << (per.tellp() > 0 ? ", " : "") << json(p.name) << ": {\"evaluations\": " << tot.evaluations - e0 << ", \"nontrivial\": " << tot.nontrivial - n0
            << ", \"distinct_nontrivial\": " << tot.distinct.size() - d0 << "}";
        rule += (rule.empty() ? "" : " | ") + std::string(p.name) + ": " + p.rule;
        if (rc != 0) break;
    }
    if (!opt.out.empty())
    {
        std::ofstream f(opt.out);
        f << "{\"evaluations\": " << tot.evaluations << ", \"nontrivial\": " << tot.nontrivial << ", \"discarded\": " << tot.discarded
          << ", \"distinct_nontrivial\": " << tot.distinct.size() << ", \"truncated\": " << (tot.truncated ? "true" : "false")
          << ", \"rule\": " << json(rule) << ", \"per_part\": {" << per.str() << "}, \"labels\": {";
        bool first = true;
        for (auto &[k, v]: tot.labels) { f << (first ? "" : ", ") << json(k) << ": " << v; first = false; }
        f << "}, \"samples\": [";
        first = true;
        for (auto &s: tot.samples) { f << (first ? "" : ", ") << json(s); first = false; }
        f << "], \"enumerated\": [";
        first = true;
        for (auto &s: tot.reports) { f << (first ? "" : ", ") << json(s); first = false; }
        f << "]}\n";
    }
    return rc;
}

} // namespace pbt

#ifdef PBT_LIBFUZZER
// Coverage-guided stage: the same properties, choices decoded from libFuzzer's bytes. The first byte selects
// the property when the harness has several. A failure leaves its choice sequence in $PBT_FUZZ_OUT and
// is confirmed, replayed and shrunk by the ordinary driver afterwards.
namespace
{
pbt::Shared* fuzzShm = nullptr;
const pbt::Property* fuzzProp = nullptr;
uint64_t fuzzRuns = 0, fuzzNontrivial = 0;
void dumpChoices()
{
    const char* out = getenv("PBT_FUZZ_OUT");
    if (!out || !fuzzShm || !fuzzProp) return;
    FILE* f = fopen((std::string(out) + "." + std::to_string(getpid())).c_str(), "w");
    if (!f) return;
    fprintf(f, "{\n \"harness_property\": \"%s\",\n \"choices\": [", fuzzProp->name);
    for (uint64_t i = 0; i < fuzzShm->nChoices; ++i) fprintf(f, "%s%" PRIu64, i ? "," : "", fuzzShm->choices[i]);
    fprintf(f, "]\n}\n");
    fclose(f);
}
void dumpStats()
{
    const char* out = getenv("PBT_FUZZ_STATS");
    if (!out) return;
    FILE* f = fopen((std::string(out) + "." + std::to_string(getpid())).c_str(), "w");
    if (!f) return;
    fprintf(f, "%" PRIu64 " %" PRIu64 "\n", fuzzRuns, fuzzNontrivial);
    fclose(f);
}
}
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    fuzzShm = pbt::newShared();
#ifdef PBT_ASAN
    __sanitizer_set_death_callback(dumpChoices);
#endif
    atexit(dumpStats);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    auto &props = pbt::properties();
    size_t pos = 0;
    fuzzProp = &props[0];
    if (props.size() > 1)
    {
        if (size == 0) return 0;
        fuzzProp = &props[data[pos++] % props.size()];
    }
    pbt::Ctx ctx(fuzzShm);
    ctx.mode = pbt::Ctx::Mode::Bytes;
    ctx.bytes = data + pos;
    ctx.nBytes = size - pos;
    fuzzShm->message[0] = 0;
    ++fuzzRuns;
    auto o = pbt::runCase(*fuzzProp, ctx);
    if (o == pbt::Outcome::Fail)
    {
        fprintf(stderr, "PBT failure: %s\n", fuzzShm->message);
        dumpChoices();
        dumpStats();
        _exit(77);
    }
    if (o == pbt::Outcome::Pass && ctx.isNontrivial) ++fuzzNontrivial;
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::Driver::main(argc, argv); }
#endif
