// In-process stand-in for websocketpp: no sockets, no threads of its own. The harness opens and
// closes connections, delivers messages and reads what the code under test sent. Only used by the
// checks in /verif; hgdb's own build uses the real library.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <iostream>
#include <list>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <thread>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>

#include "hb.hh"

namespace websocketpp {
using connection_hdl = std::weak_ptr<void>;
namespace lib {
using std::bind;
using std::error_code;
using std::function;
using std::make_shared;
using std::ref;
using std::shared_ptr;
using std::weak_ptr;
namespace placeholders {
using namespace std::placeholders;
}
}  // namespace lib
namespace log {
struct alevel {
    using value = uint32_t;
    static constexpr uint32_t all = 0xffffffff, none = 0, frame_payload = 1, connect = 2,
                              disconnect = 4, app = 8;
};
struct elevel {
    static constexpr uint32_t all = 0xffffffff, none = 0;
};
}  // namespace log
namespace frame::opcode {
enum value { text = 1, binary = 2 };
}
namespace close::status {
using value = uint16_t;
static constexpr uint16_t going_away = 1001, normal = 1000;
}
class exception : public std::runtime_error {
public:
    explicit exception(const std::string &s) : std::runtime_error(s) {}
};

struct fake_message {
    using ptr = std::shared_ptr<fake_message>;
    std::string payload;
    const std::string &get_payload() const { return payload; }
    std::string &get_raw_payload() { return payload; }
    frame::opcode::value get_opcode() const { return frame::opcode::text; }
};

namespace config {
struct asio {
    using message_type = fake_message;
};
struct asio_client {
    using message_type = fake_message;
};
}  // namespace config

// what the harness implements and sees
namespace fake {
void on_send(uint64_t conn, const std::string &msg);    // server -> client
void on_close(uint64_t conn, uint16_t code);            // server closes the connection
void on_server_start(void *server, uint16_t port);      // listen()
void on_server_stop(void *server);
void block_until(const std::function<bool()> &pred);    // blocks the calling (fibre) thread
struct ClientHooks {
    // the network symbol table client side
    virtual bool resolve(const std::string &uri) = 0;
    // no answer: the connection is lost
    virtual std::optional<std::string> request(const std::string &msg) = 0;
    virtual bool connects() { return true; }
    virtual ~ClientHooks() = default;
};
extern ClientHooks *client_hooks;
struct ServerBase {
    virtual void open(uint64_t id) = 0;
    virtual void close(uint64_t id) = 0;
    virtual void deliver(uint64_t id, const std::string &msg) = 0;
    virtual void queue(const std::function<void()> &f) = 0;
    virtual bool idle() const = 0;
    virtual bool is_stopped() const = 0;
    virtual ~ServerBase() = default;
};
void register_server(ServerBase *);
void unregister_server(ServerBase *);
}  // namespace fake

template <class C>
class connection {
public:
    uint64_t fake_id = 0;
    bool is_open = true;
    lib::error_code send(const std::string &payload,
                         frame::opcode::value = frame::opcode::text) {
        mcrt::Watch quiet(false);
        // as in the real library: sending on a closed connection only returns an error
        if (!is_open) return std::make_error_code(std::errc::not_connected);
        fake::on_send(fake_id, payload);
        return {};
    }
    void close(uint16_t code, const std::string &) {
        mcrt::Watch quiet(false);
        is_open = false;
        fake::on_close(fake_id, code);
    }
    void close(uint16_t code, const std::string &why, lib::error_code &) { close(code, why); }
    uint64_t get_id() const { return fake_id; }
};

template <class C>
class server : public fake::ServerBase {
public:
    using connection_type = connection<C>;
    using connection_ptr = std::shared_ptr<connection<C>>;
    using message_ptr = typename C::message_type::ptr;
    server() { fake::register_server(this); }
    ~server() override { fake::unregister_server(this); }
    void set_access_channels(uint32_t) {}
    void clear_access_channels(uint32_t) {}
    void set_error_channels(uint32_t) {}
    void clear_error_channels(uint32_t) {}
    void set_reuse_addr(bool) {}
    template <class F>
    void set_open_handler(F f) {
        open_ = f;
    }
    template <class F>
    void set_close_handler(F f) {
        close_ = f;
    }
    template <class F>
    void set_fail_handler(F f) {}
    template <class F>
    void set_message_handler(F f) {
        message_ = f;
    }
    void init_asio() {}
    void listen(uint16_t port) { mcrt::Watch quiet(false); fake::on_server_start(this, port); listening_ = true; }
    void listen(uint16_t port, lib::error_code &) { listen(port); }
    void start_accept() {}
    bool is_listening() const { return listening_; }
    // the one server thread: handles what the harness queued, one event at a time
    void run() {
        mcrt::Watch quiet(false);
        while (true) {
            fake::block_until([this] { return stopped_ || !events_.empty(); });
            if (stopped_) return;
            auto e = events_.front();
            events_.erase(events_.begin());
            e();
        }
    }
    void queue(const std::function<void()> &f) override { events_.push_back(f); }
    bool idle() const override { return events_.empty(); }
    bool is_stopped() const override { return stopped_; }
    void stop() {
        mcrt::Watch quiet(false);
        stopped_ = true;
        fake::on_server_stop(this);
    }
    bool stopped() const { return stopped_; }
    void stop_listening() {
        mcrt::Watch quiet(false);
        if (!listening_) throw exception("stop_listening called from the wrong state");
        listening_ = false;
    }
    void stop_listening(lib::error_code &) { mcrt::Watch quiet(false); listening_ = false; }
    connection_ptr get_con_from_hdl(connection_hdl hdl) {
        auto p = std::static_pointer_cast<connection<C>>(hdl.lock());
        if (!p) throw exception("bad connection");
        return p;
    }
    template <class H>
    void send(H hdl, const std::string &msg, frame::opcode::value op = frame::opcode::text) {
        get_con_from_hdl(hdl)->send(msg, op);
    }

    // harness side
    void open(uint64_t id) override {
        auto c = std::make_shared<connection<C>>();
        c->fake_id = id;
        conns_[id] = c;
        mcrt::Watch watch(true);
        if (open_) open_(connection_hdl(c));
    }
    void close(uint64_t id) override {
        if (!conns_.count(id)) return;
        auto c = conns_.at(id);
        c->is_open = false;
        {
            mcrt::Watch watch(true);
            if (close_) close_(connection_hdl(c));
        }
        conns_.erase(id);
    }
    void deliver(uint64_t id, const std::string &msg) override {
        if (!conns_.count(id) || !conns_.at(id)->is_open) return;
        auto c = conns_.at(id);
        auto m = std::make_shared<typename C::message_type>();
        m->payload = msg;
        mcrt::Watch watch(true);
        if (message_) message_(connection_hdl(c), m);
    }

private:
    std::function<void(connection_hdl)> open_, close_;
    std::function<void(connection_hdl, message_ptr)> message_;
    std::map<uint64_t, connection_ptr> conns_;
    std::vector<std::function<void()>> events_;
    bool stopped_ = false, listening_ = false;
};

template <class C>
class client {
public:
    using connection_ptr = std::shared_ptr<connection<C>>;
    using message_ptr = typename C::message_type::ptr;
    void set_access_channels(uint32_t) {}
    void clear_access_channels(uint32_t) {}
    void set_error_channels(uint32_t) {}
    void clear_error_channels(uint32_t) {}
    void init_asio() {}
    void start_perpetual() {}
    void stop_perpetual() {}
    template <class F>
    void set_message_handler(F f) {
        message_ = f;
    }
    template <class F>
    void set_open_handler(F f) {
        open_ = f;
    }
    template <class F>
    void set_fail_handler(F f) {
        fail_ = f;
    }
    template <class F>
    void set_close_handler(F f) {
        close_ = f;
    }
    connection_ptr get_connection(const std::string &uri, lib::error_code &ec) {
        if (!fake::client_hooks || !fake::client_hooks->resolve(uri)) {
            ec = std::make_error_code(std::errc::invalid_argument);
            return nullptr;
        }
        con_ = std::make_shared<connection<C>>();
        return con_;
    }
    void connect(const connection_ptr &c) {
        connected_ = true;
        hdl_ = c;
    }
    void run() {
        mcrt::Watch quiet(false);
        while (true) {
            fake::block_until([this] { return stopped_ || connected_ || !inbox_.empty() || lost_; });
            if (connected_) {
                connected_ = false;
                if (!fake::client_hooks->connects()) {
                    con_->is_open = false;
                    mcrt::Watch watch(true);
                    if (fail_) fail_(connection_hdl(con_));
                    return;
                }
                mcrt::Watch watch(true);
                if (open_) open_(connection_hdl(con_));
                continue;
            }
            if (!inbox_.empty()) {
                auto m = std::make_shared<typename C::message_type>();
                m->payload = inbox_.front();
                inbox_.erase(inbox_.begin());
                mcrt::Watch watch(true);
                if (message_) message_(connection_hdl(con_), m);
                continue;
            }
            if (stopped_) return;
            if (lost_) {
                lost_ = false;
                mcrt::Watch watch(true);
                if (close_) close_(connection_hdl(con_));
                return;
            }
        }
    }
    void send(connection_hdl, const std::string &msg, frame::opcode::value, lib::error_code &ec) {
        mcrt::Watch quiet(false);
        ec = {};
        if (!con_ || !con_->is_open) {
            ec = std::make_error_code(std::errc::not_connected);
            return;
        }
        auto r = fake::client_hooks->request(msg);
        if (r)
            inbox_.emplace_back(*r);
        else {
            con_->is_open = false;
            lost_ = true;
        }
    }
    void stop() {
        mcrt::Watch quiet(false);
        stopped_ = true;
    }
    void close(connection_hdl, uint16_t, const std::string &) {}
    void close(connection_hdl, uint16_t, const std::string &, lib::error_code &) {}

private:
    std::function<void(connection_hdl)> open_, close_, fail_;
    std::function<void(connection_hdl, message_ptr)> message_;
    connection_ptr con_, hdl_;
    std::vector<std::string> inbox_;
    bool stopped_ = false, connected_ = false, lost_ = false;
};
}  // namespace websocketpp
