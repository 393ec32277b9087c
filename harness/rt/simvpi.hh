// A small simulator behind hgdb's VPI abstraction: hierarchy, signals, arrays, clock edges,
// callbacks, rewinding. Any call with a handle it never gave out is reported.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "hb.hh"
#include "rtl.hh"
#include "sv_vpi_user.h"

namespace sim {

struct Obj {
    enum K { Module, Signal, Array, Iter, Cb, TfCall, Arg } k = Signal;
    std::string full, name, def;
    int vpi_type = vpiNet;
    uint32_t width = 32;
    bool is_signed = false;
    uint64_t value = 0, value_hi = 0;  // bits 0..63, 64..127
    Obj *bit_of = nullptr;  // a bit select
    uint32_t bit_idx = 0;
    std::vector<Obj *> children;  // module: submodules; array: elements
    std::vector<Obj *> signals;   // module
    Obj *parent = nullptr;
    // iterator
    size_t pos = 0;
    bool freed = false;
    // callback
    s_cb_data cb{};
    bool cb_removed = false;
    // tf argument
    int const_type = 0;
    std::string sval;
    int64_t ival = 0;
    bool bit(uint32_t i) const {
        if (i >= width || i >= 128) return false;
        return i < 64 ? value >> i & 1 : value_hi >> (i - 64) & 1;
    }
};

struct PutRecord {
    std::string name;
    int64_t value;
};

class Vpi : public hgdb::AVPIProvider {
public:
    std::string product = "RTLMock", version = "0.1";
    std::vector<std::string> args;
    uint64_t time = 0;
    bool defname = true;
    bool rewind_ok = false;
    bool iterate_sorted = true;
    bool no_vlog = false;     // vpi_get_vlog_info fails
    bool bit_select = false;  // vpi_handle_by_index gives bits of vectors
    uint64_t call_budget = 0;  // 0: unlimited; counts down per activation
    uint64_t calls = 0;
    std::function<void(const char *)> on_budget;
    std::function<void(const std::string &)> on_bad_handle;
    std::vector<PutRecord> puts;
    std::vector<int> controls;
    std::vector<std::string> systf;
    s_vpi_systf_data systf_data{};
    // rewinding: called with the threshold time; returns true if time was reversed
    std::function<bool(uint64_t)> on_rewind;
    std::vector<uint64_t> rewind_requests;
    std::vector<Obj *> roots;
    Obj *tf_call = nullptr;
    std::unordered_set<std::string> put_refuse;  // names for which put fails (emulator)
    uint64_t registered = 0, removed = 0;

    ~Vpi() override {
        for (auto *o : all_) delete o;
    }

    Obj *mk(Obj::K k) {
        auto *o = new Obj();
        o->k = k;
        all_.push_back(o);
        valid_.insert(o);
        return o;
    }
    Obj *add_module(const std::string &def, const std::string &full) {
        auto *o = mk(Obj::Module);
        o->full = full;
        o->def = def;
        o->vpi_type = vpiModule;
        auto p = full.rfind('.');
        o->name = p == std::string::npos ? full : full.substr(p + 1);
        if (p == std::string::npos) {
            roots.push_back(o);
        } else {
            auto *par = by_name_.at(full.substr(0, p));
            o->parent = par;
            par->children.push_back(o);
        }
        by_name_[full] = o;
        return o;
    }
    Obj *add_signal(const std::string &full, uint32_t width = 32, int type = vpiNet) {
        auto *o = mk(Obj::Signal);
        o->full = full;
        auto p = full.rfind('.');
        o->name = full.substr(p + 1);
        o->width = width;
        o->vpi_type = type;
        auto it = by_name_.find(full.substr(0, p));
        if (it != by_name_.end()) {
            o->parent = it->second;
            it->second->signals.push_back(o);
        }
        by_name_[full] = o;
        return o;
    }
    // an (unpacked) array of n elements, possibly nested
    Obj *add_array(const std::string &full, const std::vector<uint32_t> &dims, uint32_t width,
                   bool named_elements = true, size_t d = 0) {
        auto *o = mk(Obj::Array);
        o->full = full;
        auto p = full.rfind('.');
        o->name = full.substr(p + 1);
        o->vpi_type = vpiRegArray;
        o->width = dims[d];
        for (uint32_t i = 0; i < dims[d]; i++) {
            auto n = full + "[" + std::to_string(i) + "]";
            Obj *c;
            if (d + 1 < dims.size())
                c = add_array(n, dims, width, named_elements, d + 1);
            else {
                c = mk(Obj::Signal);
                c->full = n;
                auto q = n.rfind('.');
                c->name = n.substr(q + 1);
                c->width = width;
                c->vpi_type = vpiReg;
                if (named_elements) by_name_[n] = c;
            }
            c->parent = o;
            o->children.push_back(c);
        }
        by_name_[full] = o;
        if (d == 0) {
            auto it = by_name_.find(full.substr(0, p));
            if (it != by_name_.end()) it->second->signals.push_back(o);
        }
        return o;
    }
    Obj *find(const std::string &n) const {
        auto it = by_name_.find(n);
        return it == by_name_.end() ? nullptr : it->second;
    }
    uint64_t get(const std::string &n) const { return by_name_.at(n)->value; }
    void set(const std::string &n, uint64_t v) { by_name_.at(n)->value = v; }
    static vpiHandle h(Obj *o) { return reinterpret_cast<vpiHandle>(o); }

    // drive a signal; fires the value change callbacks if the value changed
    void drive(const std::string &n, uint64_t v) {
        auto *o = by_name_.at(n);
        if (o->value == v) return;
        o->value = v;
        fire(cbValueChange, o);
    }
    void fire(int reason, Obj *obj) {
        std::vector<Obj *> cbs;
        for (auto *c : cbs_)
            if (!c->cb_removed && c->cb.reason == reason &&
                (reason != cbValueChange || c->cb.obj == h(obj)))
                cbs.push_back(c);
        for (auto *c : cbs) {
            if (c->cb_removed) continue;
            s_vpi_value val{};
            s_vpi_time tm{};
            s_cb_data d = c->cb;
            if (c->cb.value) {
                val.format = c->cb.value->format;
                if (obj) val.value.integer = (PLI_INT32)obj->value;
                d.value = &val;
            }
            tm.type = vpiSimTime;
            tm.low = (PLI_UINT32)time;
            tm.high = (PLI_UINT32)(time >> 32);
            d.time = &tm;
            mcrt::Watch watch(true);
            d.cb_rtn(&d);
        }
    }
    // callbacks currently registered, as reason:object
    std::vector<std::string> callbacks() const {
        std::vector<std::string> r;
        for (auto *c : cbs_)
            if (!c->cb_removed)
                r.push_back(std::to_string(c->cb.reason) + ":" +
                            (c->cb.obj ? reinterpret_cast<Obj *>(c->cb.obj)->full : ""));
        return r;
    }
    std::map<std::string, uint64_t> values() const {
        std::map<std::string, uint64_t> r;
        for (auto &p : by_name_)
            if (p.second->k == Obj::Signal) r[p.first] = p.second->value;
        return r;
    }

    // ---- VPI ----
    Obj *chk(vpiHandle hd, const char *fn) {
        calls++;
        if (call_budget && --call_budget == 0 && on_budget) on_budget(fn);
        auto *o = reinterpret_cast<Obj *>(hd);
        if (o && !valid_.count(o)) {
            if (on_bad_handle) on_bad_handle(std::string(fn) + ": handle unknown to the simulator");
            return nullptr;
        }
        return o;
    }
    static uint64_t mask(const Obj *o) {
        return o->width >= 64 ? ~0ull : ((1ull << o->width) - 1);
    }
    void vpi_get_value(vpiHandle expr, p_vpi_value v) override {
        mcrt::Watch quiet(false);
        auto *o = chk(expr, "vpi_get_value");
        static thread_local std::string buf;
        if (o && o->bit_of) o->value = o->bit_of->bit(o->bit_idx);
        uint64_t val = o ? (o->k == Obj::Arg ? (uint64_t)o->ival : (o->value & mask(o))) : 0;
        switch (v->format) {
            case vpiIntVal:
                v->value.integer = (PLI_INT32)val;
                break;
            case vpiHexStrVal: {
                buf.clear();
                uint32_t w = o ? o->width : 32;
                for (int i = (int)(w + 3) / 4 - 1; i >= 0; i--)
                    buf += "0123456789abcdef"[i >= 32 ? 0 : i >= 16 ? (o->value_hi >> (i * 4 - 64)) & 15 : (val >> (i * 4)) & 15];
                v->value.str = const_cast<char *>(buf.c_str());
                break;
            }
            case vpiBinStrVal: {
                buf.clear();
                uint32_t w = o ? o->width : 32;
                for (int i = (int)w - 1; i >= 0; i--)
                    buf += ((o && o->k != Obj::Arg) ? o->bit((uint32_t)i) : i < 64 && (val >> i & 1)) ? '1' : '0';
                v->value.str = const_cast<char *>(buf.c_str());
                break;
            }
            case vpiStringVal:
                buf = o ? o->sval : "";
                v->value.str = const_cast<char *>(buf.c_str());
                break;
            case vpiVectorVal: {
                static thread_local s_vpi_vecval vec[2];
                vec[0].aval = (PLI_UINT32)val;
                vec[0].bval = 0;
                vec[1].aval = (PLI_UINT32)(val >> 32);
                vec[1].bval = 0;
                v->value.vector = vec;
                break;
            }
            default:
                v->value.integer = 0;
        }
    }
    PLI_INT32 vpi_get(PLI_INT32 prop, vpiHandle object) override {
        mcrt::Watch quiet(false);
        auto *o = chk(object, "vpi_get");
        if (!o) return vpiUndefined;
        if (prop == vpiType) return o->vpi_type;
        if (prop == vpiSize) {
            if (o->k == Obj::Module) return vpiUndefined;
            return (PLI_INT32)o->width;
        }
        if (prop == vpiVector) return o->k == Obj::Array || (o->parent && o->parent->k == Obj::Array);
        if (prop == vpiConstType) return o->const_type;
        return vpiUndefined;
    }
    vpiHandle vpi_iterate(PLI_INT32 type, vpiHandle ref) override {
        mcrt::Watch quiet(false);
        auto *o = chk(ref, "vpi_iterate");
        std::vector<Obj *> items;
        if (type == vpiModule) {
            items = o ? (o->k == Obj::Module ? o->children : std::vector<Obj *>{}) : roots;
        } else if (type == vpiRange) {
            if (o && o->k == Obj::Array) items = o->children;
        } else if (type == vpiArgument) {
            if (o && o->k == Obj::TfCall) items = o->children;
        } else if (o && o->k == Obj::Module) {
            for (auto *s : o->signals)
                if (s->vpi_type == type) items.push_back(s);
        }
        if (items.empty()) return nullptr;
        auto *it = mk(Obj::Iter);
        it->children = items;
        return h(it);
    }
    vpiHandle vpi_scan(vpiHandle iterator) override {
        mcrt::Watch quiet(false);
        auto *o = chk(iterator, "vpi_scan");
        if (!o || o->k != Obj::Iter) return nullptr;
        if (o->pos >= o->children.size()) {
            valid_.erase(o);  // the simulator frees the iterator
            return nullptr;
        }
        return h(o->children[o->pos++]);
    }
    char *vpi_get_str(PLI_INT32 prop, vpiHandle object) override {
        mcrt::Watch quiet(false);
        auto *o = chk(object, "vpi_get_str");
        str_ = "";
        if (o) {
            if (prop == vpiFullName)
                str_ = o->full;
            else if (prop == vpiName)
                str_ = o->name;
            else if (prop == vpiDefName)
                str_ = o->def;
        }
        return const_cast<char *>(str_.c_str());
    }
    vpiHandle vpi_handle_by_name(char *name, vpiHandle scope) override {
        mcrt::Watch quiet(false);
        chk(scope, "vpi_handle_by_name");
        return h(find(name));
    }
    vpiHandle vpi_handle_by_index(vpiHandle object, PLI_INT32 index) override {
        mcrt::Watch quiet(false);
        auto *o = chk(object, "vpi_handle_by_index");
        if (bit_select && o && o->k == Obj::Signal && !o->bit_of && o->width > 1 && index >= 0 && index < (int)o->width) {
            auto &b = bits_[{o, index}];
            if (!b) {
                b = mk(Obj::Signal);
                b->full = o->full + "[" + std::to_string(index) + "]";
                b->name = o->name + "[" + std::to_string(index) + "]";
                b->width = 1;
                b->vpi_type = vpiRegBit;
                b->bit_of = o;
                b->bit_idx = (uint32_t)index;
            }
            return h(b);
        }
        if (!o || o->k != Obj::Array || index < 0 || index >= (int)o->children.size())
            return nullptr;
        return h(o->children[index]);
    }
    PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info i) override {
        mcrt::Watch quiet(false);
        if (no_vlog) return 0;
        argv_.clear();
        for (auto &a : args) argv_.push_back(const_cast<char *>(a.c_str()));
        i->argc = (int)argv_.size();
        i->argv = argv_.data();
        i->product = const_cast<char *>(product.c_str());
        i->version = const_cast<char *>(version.c_str());
        return 1;
    }
    void vpi_get_time(vpiHandle object, p_vpi_time t) override {
        mcrt::Watch quiet(false);
        chk(object, "vpi_get_time");
        t->low = (PLI_UINT32)time;
        t->high = (PLI_UINT32)(time >> 32);
    }
    vpiHandle vpi_register_cb(p_cb_data d) override {
        mcrt::Watch quiet(false);
        chk(d->obj, "vpi_register_cb");
        auto *o = mk(Obj::Cb);
        o->cb = *d;
        cbs_.push_back(o);
        registered++;
        return h(o);
    }
    PLI_INT32 vpi_remove_cb(vpiHandle cb) override {
        mcrt::Watch quiet(false);
        auto *o = chk(cb, "vpi_remove_cb");
        if (!o || o->k != Obj::Cb || o->cb_removed) return 0;
        o->cb_removed = true;
        removed++;
        return 1;
    }
    PLI_INT32 vpi_release_handle(vpiHandle object) override {
        mcrt::Watch quiet(false);
        chk(object, "vpi_release_handle");
        return 1;
    }
    PLI_INT32 vpi_control(PLI_INT32 op, ...) override {
        mcrt::Watch quiet(false);
        controls.push_back(op);
        return 1;
    }
    vpiHandle vpi_put_value(vpiHandle object, p_vpi_value v, p_vpi_time, PLI_INT32) override {
        mcrt::Watch quiet(false);
        auto *o = chk(object, "vpi_put_value");
        if (!o) return nullptr;
        if (put_refuse.count(o->full)) return (vpiHandle)~0ull;
        if (v->format == vpiIntVal) {
            puts.push_back({o->full, v->value.integer});
            o->value = ((uint64_t)(int64_t)v->value.integer) & mask(o);
        }
        return nullptr;  // as the standard says for vpiNoDelay
    }
    vpiHandle vpi_register_systf(p_vpi_systf_data d) override {
        mcrt::Watch quiet(false);
        systf.emplace_back(d->tfname);
        systf_data = *d;
        auto *o = mk(Obj::TfCall);
        return h(o);
    }
    vpiHandle vpi_handle(int type, vpiHandle scope) override {
        mcrt::Watch quiet(false);
        chk(scope, "vpi_handle");
        if (type == vpiSysTfCall) return h(tf_call);
        return nullptr;
    }
    bool vpi_rewind(rewind_data *d) override {
        mcrt::Watch quiet(false);
        rewind_requests.push_back(d->time);
        for (auto *c : d->clock_signals) chk(c, "vpi_rewind");
        calls++;
        if (call_budget && --call_budget == 0 && on_budget) on_budget("vpi_rewind");
        if (!rewind_ok || !on_rewind) return false;
        return on_rewind(d->time);
    }
    bool has_defname() override { return defname; }

private:
    std::vector<Obj *> all_;
    std::unordered_set<Obj *> valid_;
    std::map<std::string, Obj *> by_name_;
    std::map<std::pair<Obj *, int>, Obj *> bits_;
    std::vector<Obj *> cbs_;
    std::vector<char *> argv_;
    std::string str_;
};
}  // namespace sim
