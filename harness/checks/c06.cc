// C06: every well-formed request and every one that differs from it in one place, in every state
// of the debugger, and every pair of requests; exactly one reply each, to the sender.
// build: plain
#include "messages.hh"
using namespace msg;

static void check_reply(Place &p, const std::vector<Ev> &evs, const Message &m) {
    auto *r = p.reply(evs, m);
    if (!r) mc::fail("no reply");
    for (auto &e : evs)
        if (p.is_event(e) && m.type != "command") mc::fail("an event because of a request: " + e.text);
    auto st = r->msg["status"].str();
    if (r->msg["request"].b) mc::fail("a reply that is a request: " + r->text);
    if (st != "success" && st != "error") mc::fail("no status: " + r->text);
    if (m.bad && st != "error") mc::fail("a malformed request succeeds: " + r->text);
    if (r->msg["token"].str() != m.token) mc::fail("the reply does not carry the token: " + r->text);
    if (!m.type.empty()) {
        auto t = r->msg["type"].str();
        auto named = t == "generic" ? r->msg["payload"]["request-type"].str() : t;
        if (named != m.type && !(m.type == "symbol" && named == "error")) mc::fail("the reply names " + named + ": " + r->text);
    }
    if (st == "error" && r->msg["type"].str() == "generic" && r->msg["payload"]["reason"].str().empty()) mc::fail("an error without a reason: " + r->text);
    mc::validated();
    mc::state(mc::hash(m.type + st + r->msg["payload"]["reason"].str().substr(0, 12)));
}

int main(int argc, char **argv) {
    mc::Check c;
    c.id = "C06";
    static size_t nb = bases("x").size();
    // the kinds of base, one more for texts that are nothing
    static size_t per = nb + 1;
    c.tops = [] { return NSTATE * 2 * per; };
    c.body = [](size_t top) {
        auto s = (State)(top % NSTATE);
        top /= NSTATE;
        int copies = 1 + (int)(top % 2);
        top /= 2;
        Place p(s, copies);
        auto &bs = bases(p.k.path);
        mc::snapshot();
        mc::note(std::string(STATE[s]) + ", copies " + std::to_string(copies));
        auto one = [&](const Message &m) {
            mc::trace(m.what + ": " + m.text.substr(0, 600));
            check_reply(p, p.w.send(1, m.text), m);
        };
        if (top < nb) {
            bool first = mc::choose(2) == 0;
            if (first) {
                auto ms = mutations(bs[top], true);
                one(ms[mc::choose(ms.size())]);
            } else {
                // requests one after the other
                auto n = mc::thorough() ? 3 : 2;
                for (int i = 0; i < n; i++) one(plain(bs[i == 0 ? top : mc::choose(nb)], "t" + std::to_string(i)));
            }
        } else {
            auto g = garbage();
            one(g[mc::choose(g.size())]);
        }
        // and the debugger still answers
        auto m = plain(bs[11], "end");
        check_reply(p, p.w.send(1, m.text), m);
        mc::nontrivial(mc::hash(std::to_string(s) + std::to_string(top)));
        mc::evaluation();
        mc::done();
    };
    return mc::main_(argc, argv, c);
}
