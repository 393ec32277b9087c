// The simulator's C VPI entry points. hgdb only reaches these when no provider is given; the
// checks always give one, except where vpi_stub::target is set, to which calls are then passed on.
#include <cstdint>
#include <cstdarg>

#include "rtl.hh"
#include "vpi_user.h"

namespace vpi_stub {
hgdb::AVPIProvider *target = nullptr;
uint64_t direct_calls = 0;
}  // namespace vpi_stub
using vpi_stub::target;

extern "C" {
void vpi_get_value(vpiHandle a, p_vpi_value b) {
    vpi_stub::direct_calls++;
    if (target) target->vpi_get_value(a, b);
}
PLI_INT32 vpi_get(PLI_INT32 a, vpiHandle b) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_get(a, b) : 0;
}
vpiHandle vpi_iterate(PLI_INT32 a, vpiHandle b) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_iterate(a, b) : nullptr;
}
vpiHandle vpi_scan(vpiHandle a) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_scan(a) : nullptr;
}
char *vpi_get_str(PLI_INT32 a, vpiHandle b) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_get_str(a, b) : nullptr;
}
vpiHandle vpi_handle_by_name(char *a, vpiHandle b) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_handle_by_name(a, b) : nullptr;
}
vpiHandle vpi_handle_by_index(vpiHandle a, PLI_INT32 b) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_handle_by_index(a, b) : nullptr;
}
PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info a) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_get_vlog_info(a) : 0;
}
void vpi_get_time(vpiHandle a, p_vpi_time b) {
    vpi_stub::direct_calls++;
    if (target) target->vpi_get_time(a, b);
}
vpiHandle vpi_register_cb(p_cb_data a) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_register_cb(a) : nullptr;
}
PLI_INT32 vpi_remove_cb(vpiHandle a) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_remove_cb(a) : 0;
}
PLI_INT32 vpi_release_handle(vpiHandle a) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_release_handle(a) : 0;
}
PLI_INT32 vpi_control(PLI_INT32 a, ...) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_control(a) : 0;
}
vpiHandle vpi_put_value(vpiHandle a, p_vpi_value b, p_vpi_time c, PLI_INT32 d) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_put_value(a, b, c, d) : nullptr;
}
vpiHandle vpi_register_systf(p_vpi_systf_data a) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_register_systf(a) : nullptr;
}
vpiHandle vpi_handle(int a, vpiHandle b) {
    vpi_stub::direct_calls++;
    return target ? target->vpi_handle(a, b) : nullptr;
}
}
