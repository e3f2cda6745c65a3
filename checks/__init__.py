from . import lite, vm, ipc, world, scenario, gas, debug, suite
CHECKS = {}
for _m in (lite, vm, ipc, world, scenario, gas, debug, suite):
    CHECKS.update(_m.CHECKS)
