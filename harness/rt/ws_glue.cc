#include "ws_glue.hh"

#include <algorithm>

#include "fiber.hh"

namespace wsg {
std::vector<Msg> sent;
std::vector<uint64_t> closed;
std::vector<websocketpp::fake::ServerBase *> servers;
int port = -1;
std::function<void(const Msg &)> on_sent;
void reset() {
    sent.clear();
    closed.clear();
    servers.clear();
    port = -1;
    on_sent = nullptr;
}
}  // namespace wsg

namespace websocketpp::fake {
ClientHooks *client_hooks = nullptr;
void on_send(uint64_t conn, const std::string &msg) {
    wsg::sent.push_back({conn, msg});
    if (wsg::on_sent) wsg::on_sent(wsg::sent.back());
}
void on_close(uint64_t conn, uint16_t) { wsg::closed.push_back(conn); }
void on_server_start(void *, uint16_t port) { wsg::port = port; }
void on_server_stop(void *) {}
void block_until(const std::function<bool()> &pred) { mcrt::block_until(pred); }
void register_server(ServerBase *s) { wsg::servers.push_back(s); }
void unregister_server(ServerBase *s) {
    wsg::servers.erase(std::remove(wsg::servers.begin(), wsg::servers.end(), s),
                       wsg::servers.end());
}
}  // namespace websocketpp::fake
