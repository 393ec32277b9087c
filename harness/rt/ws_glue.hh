// What the fake WebSocket library hands to the harness.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#include "websocketpp/server.hpp"

namespace wsg {
struct Msg {
    uint64_t conn;
    std::string text;
};
extern std::vector<Msg> sent;                       // in order
extern std::vector<uint64_t> closed;                // connections the server closed
extern std::vector<websocketpp::fake::ServerBase *> servers;
extern int port;                                    // of the last listen(), -1: none
extern std::function<void(const Msg &)> on_sent;    // optional
void reset();
}  // namespace wsg
