// C07: the messages of C06 and texts that are no requests, one or two of them, in every state of
// the debugger under AddressSanitizer; afterwards the simulation goes on as if a rejected message
// had not been sent.
// build: asan
#include "messages.hh"
using namespace msg;

static std::string strip(const std::string &t) {
    // wall-clock times are not part of what has to stay the same
    return t;
}
// resumes and debugs for two edges; everything that was sent
static std::vector<std::string> rest(Place &p) {
    auto &w = p.w;
    std::vector<std::string> log;
    auto put = [&](const std::vector<Ev> &evs) {
        for (auto &e : evs) log.push_back(std::to_string(e.conn) + ": " + strip(e.text));
    };
    put(w.send(1, world::r_info("breakpoints")));
    put(w.send(1, world::r_info("options")));
    int n = 0;
    while (w.paused()) {
        if (++n > 80) mc::fail("the simulation cannot be resumed");
        put(w.send(1, world::r_cmd("continue")));
    }
    for (int i = 0; i < 2; i++) {
        put(w.edge(p.vals(5 + i)));
        while (w.paused()) {
            if (++n > 80) mc::fail("the simulation cannot be resumed");
            put(w.send(1, world::r_cmd("continue")));
        }
        if (!w.idle()) mc::fail("the simulation hangs: " + mcrt::describe());
    }
    put(w.send(1, world::request("evaluation", J::obj({{"expression", "a + b"}, {"instance_id", 0}, {"namespace_id", 0}}))));
    return log;
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C07";
    static size_t nb = bases("x").size();
    static size_t per = nb + 1;
    c.tops = [] { return NSTATE * per; };
    c.body = [](size_t top) {
        auto s = (State)(top % NSTATE);
        top /= NSTATE;
        // two copies where it matters
        int copies = 1 + (int)(s == AtBp || s == Connected);
        static std::map<int, std::vector<std::string>> baseline;
        if (!baseline.count(s)) {
            Place p(s, copies);
            baseline[s] = rest(p);
        }
        Place p(s, copies);
        auto &bs = bases(p.k.path);
        mc::note(STATE[s]);
        bool clean = true, stopped = false;
        auto one = [&](const Message &m) {
            mc::trace(m.what + ": " + m.text.substr(0, 600));
            auto evs = p.w.send(1, m.text);
            auto *r = p.reply(evs, m);
            bool ok = r && r->msg["status"].str() != "error";
            if (ok && m.text.find("\"stop\"") != std::string::npos && m.type == "command") stopped = true;
            // a message that only asks leaves things as they are as well
            static const std::set<std::string> asks = {"debugger-info", "evaluation", "bp-location"};
            if (ok && !asks.count(m.type)) clean = false;
            // a jump that fails is a resume
            if (m.type == "command" && !m.bad) clean = false;
            mc::state(mc::hash(std::to_string(s) + m.type + (r ? r->msg["status"].str() : "")));
        };
        if (top < nb) {
            auto ms = mutations(bs[top], mc::thorough() || s == AtBp);
            one(ms[mc::choose(ms.size())]);
            if (mc::thorough()) {
                auto m2 = mutations(bs[mc::choose(nb)], false);
                one(m2[mc::choose(m2.size())]);
            }
        } else {
            auto g = garbage();
            one(g[mc::choose(g.size())]);
            one(g[mc::choose(g.size())]);
        }
        if (!stopped) {
            auto log = rest(p);
            if (clean) {
                auto &want = baseline[s];
                for (size_t i = 0; i < std::max(log.size(), want.size()); i++)
                    if (i >= log.size() || i >= want.size() || log[i] != want[i])
                        mc::fail("after a message that was rejected:\n" + (i < log.size() ? log[i] : std::string("nothing")) + "\ninstead of\n" + (i < want.size() ? want[i] : std::string("nothing")));
                mc::validated();
            }
        }
        mc::nontrivial(mc::hash(std::to_string(s) + std::to_string(top) + (clean ? "c" : "-")));
        mc::evaluation();
    };
    return mc::main_(argc, argv, c);
}
