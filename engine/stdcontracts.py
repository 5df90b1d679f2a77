"""Assumed contracts on callees that are outside the verified text (listed in evidence)."""
import re
from term import *
from engine import Ptr, NULL, Region
import builtins_ as B


def parameters_get(E, I, a, g):
    """Parameters::get<SizeTParameter>: one value in [1,65536] per parameter name"""
    sret = a[0]
    nm = B.std_string(E, a[2], g)
    if nm is None:
        E.abstract = True
        v = E.fresh("param", "I", 1, 1 << 16)
    else:
        v = app("param_" + nm, (), "I", 1, 1 << 16)
    obj = E.new_region("SizeTParameter", "heap", num(16))
    E.node("W", r=obj, idx=(), off=num(8), ty=("i", 8), val=v, guard=g)
    E.node("W", r=sret.r, idx=sret.idx, off=sret.off, ty=("p", 8), val=Ptr(obj), guard=g)
    E.node("W", r=sret.r, idx=sret.idx, off=add(sret.off, num(8)), ty=("p", 8), val=NULL, guard=g)


def start_region(E, I, a, g):
    """ProfileMap::start_region: profiling is off, there is no region"""
    s = a[0]
    if not s.r.name.startswith("alloca") or s.r.size is None or s.r.size.op != "num" or s.r.size.args != 112:
        return B.nop(E, I, a, g)
    E.node("W", r=s.r, idx=s.idx, off=add(s.off, num(104)), ty=("i", 1), val=ZERO, guard=g)


def validate_nd_range(E, I, a, g):
    if len(a) == 3:
        B.copy(E, a[0], a[2], num(48 if "ILi3E" in I.x.v.name else 32), g, E.loc(I))
        return None
    p = a[1]
    return tuple(E.read(E.mem, p.r, p.idx, add(p.off, num(8 * i)), ("i", 8), g) for i in range(2))


def num_local(E, I, a, g):
    d = a[-1]
    v = E.fresh("nlocal", "I", 0, None)
    E.fact(and_(le(v, d), implies(lt(ZERO, d), le(ONE, v))), g)
    return v


def prev_pow2(E, I, a, g):
    n = a[-1]
    v = E.fresh("pow2_", "I", 1, None)
    E.fact(and_(le(ONE, v), implies(le(ONE, n), le(v, n))), g)
    return v


def noop(E, I, a, g):
    return None


def target_malloc(E, I, a, g):
    return Ptr(E.new_region("usm", "heap", a[1]))


def any_time(E, I, a, g):
    return E.fresh("time", "I", 0, 1 << 62)


def disabled(E, I, a, g):
    return FALSE


STD = [
    (r"std::chrono::.*::now\(\)", any_time, "clocks return any time"),
    (r"ProfileMap::start_region\(", start_region, "profiling has no effect on the particle data"),
    (r"ProfileMap::(inc|set|end_region|add_region)\(", noop, "profiling has no effect on the particle data"),
    (r"Debug::enabled\(", disabled, "debug printing (NESO_PARTICLES_DEBUG_LEVEL) is off"),
    (r"EventStack::(push\(|wait\()", noop, "EventStack::push and wait wait for the events pushed (copies are complete when issued in the verified semantics)"),
    (r"CellDat<.*>::wait_set_nrow\(", noop, "CellDat::wait_set_nrow waits for the copies of set_nrow and frees storage no longer used"),
    (r"SYCLTarget::malloc_(device|host|shared)\(", target_malloc, "SYCLTarget::malloc_device/host/shared(n) returns n bytes of new memory"),
    ("get_prev_power_of_two<", prev_pow2, "get_prev_power_of_two(n) returns a value in [1,max(n,1)] (bounded check in C03: it uses floating-point log2)"),
    ("Parameters::get<.*SizeTParameter", parameters_get, "Parameters::get<SizeTParameter>(name) returns a value in [1,65536], the same for the same name"),
    ("DeviceLimits::validate_nd_range<", validate_nd_range, "DeviceLimits::validate_nd_range returns its argument (proved separately in C03)"),
    ("SYCLTarget::get_num_local_work_items", num_local, "SYCLTarget::get_num_local_work_items(bytes, n) returns a value in [1,n] (bounded check in C03)"),
]
