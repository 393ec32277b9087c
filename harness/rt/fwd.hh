// A provider that passes everything on to the small simulator, for code that owns its provider.
#pragma once
#include "simvpi.hh"

namespace sim {
class Fwd : public hgdb::AVPIProvider {
public:
    Vpi &v;
    bool *gone;
    explicit Fwd(Vpi &v, bool *gone = nullptr) : v(v), gone(gone) {}
    ~Fwd() override {
        if (gone) *gone = true;
    }
    void vpi_get_value(vpiHandle a, p_vpi_value b) override { v.vpi_get_value(a, b); }
    PLI_INT32 vpi_get(PLI_INT32 a, vpiHandle b) override { return v.vpi_get(a, b); }
    vpiHandle vpi_iterate(PLI_INT32 a, vpiHandle b) override { return v.vpi_iterate(a, b); }
    vpiHandle vpi_scan(vpiHandle a) override { return v.vpi_scan(a); }
    char *vpi_get_str(PLI_INT32 a, vpiHandle b) override { return v.vpi_get_str(a, b); }
    vpiHandle vpi_handle_by_name(char *a, vpiHandle b) override { return v.vpi_handle_by_name(a, b); }
    vpiHandle vpi_handle_by_index(vpiHandle a, PLI_INT32 b) override { return v.vpi_handle_by_index(a, b); }
    PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info a) override { return v.vpi_get_vlog_info(a); }
    void vpi_get_time(vpiHandle a, p_vpi_time b) override { v.vpi_get_time(a, b); }
    vpiHandle vpi_register_cb(p_cb_data a) override { return v.vpi_register_cb(a); }
    PLI_INT32 vpi_remove_cb(vpiHandle a) override { return v.vpi_remove_cb(a); }
    PLI_INT32 vpi_release_handle(vpiHandle a) override { return v.vpi_release_handle(a); }
    PLI_INT32 vpi_control(PLI_INT32 a, ...) override { return v.vpi_control(a); }
    vpiHandle vpi_put_value(vpiHandle a, p_vpi_value b, p_vpi_time c, PLI_INT32 d) override { return v.vpi_put_value(a, b, c, d); }
    vpiHandle vpi_register_systf(p_vpi_systf_data a) override { return v.vpi_register_systf(a); }
    vpiHandle vpi_handle(int a, vpiHandle b) override { return v.vpi_handle(a, b); }
    bool vpi_rewind(rewind_data *d) override { return v.vpi_rewind(d); }
    bool has_defname() override { return v.has_defname(); }
};
}  // namespace sim
