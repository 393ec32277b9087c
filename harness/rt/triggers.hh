#pragma once
#include "db.hh"
#include "model.hh"

// the same symbol table, but its statements have trigger lists (JSON tables cannot have them)
class Triggers : public hgdb::SymbolTableProvider {
public:
    Triggers(const std::string &path, std::map<uint32_t, std::string> t) : db_(path), t_(std::move(t)) {}
    using Bps = std::vector<hgdb::BreakPoint>;
    Bps get_breakpoints(const std::string &f, uint32_t l) override { return add(db_.get_breakpoints(f, l)); }
    Bps get_breakpoints(const std::string &f, uint32_t l, uint32_t c) override { return add(db_.get_breakpoints(f, l, c)); }
    Bps get_breakpoints(const std::string &f) override { return add(db_.get_breakpoints(f)); }
    std::optional<hgdb::BreakPoint> get_breakpoint(uint32_t id) override {
        auto r = db_.get_breakpoint(id);
        if (r) add(*r);
        return r;
    }
    std::optional<std::string> get_instance_name(uint32_t id) override { return db_.get_instance_name(id); }
    std::optional<uint64_t> get_instance_id(const std::string &n) override { return db_.get_instance_id(n); }
    std::optional<uint64_t> get_instance_id(uint64_t b) override { return db_.get_instance_id(b); }
    std::vector<std::string> get_filenames() override { return db_.get_filenames(); }
    std::vector<ContextVariableInfo> get_context_variables(uint32_t b) override { return db_.get_context_variables(b); }
    std::vector<ContextVariableInfo> get_context_delayed_variables(uint32_t b) override { return db_.get_context_delayed_variables(b); }
    std::vector<GeneratorVariableInfo> get_generator_variable(uint32_t i) override { return db_.get_generator_variable(i); }
    std::vector<std::string> get_instance_names() override { return db_.get_instance_names(); }
    std::vector<std::string> get_annotation_values(const std::string &n) override { return db_.get_annotation_values(n); }
    std::vector<std::string> get_all_array_names() override { return db_.get_all_array_names(); }
    std::vector<std::tuple<uint32_t, std::string, std::string>> get_assigned_breakpoints(const std::string &v, uint32_t b) override {
        return db_.get_assigned_breakpoints(v, b);
    }
    std::vector<uint32_t> execution_bp_orders() override { return db_.execution_bp_orders(); }
    bool bad() const override { return db_.bad(); }

private:
    hgdb::JSONSymbolTableProvider db_;
    std::map<uint32_t, std::string> t_;
    void add(hgdb::BreakPoint &b) {
        auto it = t_.find(b.id);
        if (it != t_.end()) b.trigger = it->second;
    }
    Bps add(Bps b) {
        for (auto &x : b) add(x);
        return b;
    }
};

