"""Random instances of every model class (kwargs), valid by construction as far as possible."""
import string
from datetime import date, datetime, timedelta, timezone
from pathlib import Path
from uuid import UUID

KINDS = ["CalibrationPair", "CalibrationHarvester", "CalibrationEmulator", "CapeData", "CalibrationCape", "CalibrationSeries", "CalMeasurementPair", "CalMeasurementCape",
         "EnergyEnvironment", "Firmware", "VirtualHarvesterConfig", "VirtualSourceConfig", "HarvesterPRUConfig", "ConverterPRUConfig",
         "Cape", "GPIO", "MCU", "Target", "Observer", "Testbed",
         "PowerTracing", "GpioTracing", "GpioEvent", "GpioActuation", "SystemLogging", "TargetConfig", "Experiment",
         "EmulationTask", "FirmwareModTask", "HarvestTask", "ProgrammingTask", "ObserverTasks", "TestbedTasks", "PythonInventory", "TargetInventory", "SystemInventory", "Inventory", "InventoryList"]


def classes():
    import shepherd_core.data_models as d
    from shepherd_core import inventory
    from shepherd_core.data_models import content, experiment, task, testbed
    from shepherd_core.data_models.base import cal_measurement, calibration
    from shepherd_core.data_models.content import virtual_harvester, virtual_source
    out = {}
    for m in (d, content, experiment, task, testbed, calibration, cal_measurement, virtual_harvester, virtual_source, inventory):
        for k in KINDS:
            if k not in out and hasattr(m, k):
                out[k] = getattr(m, k)
    return out


TRICKY = ["yes", "null", "~", "1e3", "0x10", "1:30", "12:30:45", "2024-01-01", "2024-01-01 10:00:00", "a b", "a: b", "- a", "#c", "a #c", "'q'", '"dq"', "%x", "@y", "`z`", "{a}", "[b]", "!t", "&anchor",
          "*ref", "true", "Off", "1_000", ".5", "+1", "=", "<<", "0o7", "017", "nan", ".inf", "a  b", "x" * 60, "word " * 40]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.c = classes()

    def p(self, x):
        return self.r.random() < x

    def opt(self, kw, prob, **o):
        for k, f in o.items():
            if self.p(prob):
                kw[k] = f()
        return kw

    def safe(self, n=500):
        r = self.r
        if self.p(0.5):
            return r.choice(TRICKY)[:n]
        s = "".join(r.choice(string.printable[:95]) for _ in range(r.randrange(1, min(n, 40))))
        return s.strip() or "x"

    def name(self):
        r = self.r
        if self.p(0.3):
            s = "".join(r.choice("abz019 ._-+#@!~äßπ漢") for _ in range(r.randrange(1, 32))).strip()
            return s or "n"
        return r.choice(["unit", "yes", "null", "1e3", "0x1F", "123", "a b", "x.y", "2024-01-01", "true", "ÄÖ", "-", "&a", "{x}", "'", "%"])

    def idi(self):
        return self.r.choice([0, 1, 255, 2**16, 2**31, 2**63, 2**64 + 1, 2**127 + 3, self.r.randrange(2**40)])

    def uid(self):
        return self.r.choice([self.r.choice([0, 7, 10**15]), UUID(int=self.r.getrandbits(128), version=4), self.r.randrange(2**60)])

    def fl(self, lo, hi):
        r = self.r
        x = r.choice([lo, hi, lo + (hi - lo) * r.random(), (lo + hi) / 2, round(lo + (hi - lo) * r.random(), 3), lo + (hi - lo) * 1e-9 * r.random(), int(lo) + 1 if hi > lo + 2 else hi])
        return min(max(x, lo), hi)

    def td(self):
        return timedelta(microseconds=self.r.choice([0, 1, 999_999, 10**6, 60 * 10**6, 3_600_500_000, self.r.randrange(10**12), 250_000, 86400 * 10**6 * 3]))

    def dt(self, fut=True):
        r = self.r
        t = datetime(2034 if fut else 2021, r.randrange(1, 13), r.randrange(1, 29), r.choice([0, 12, 23]), r.randrange(60), r.choice([0, 59]), r.choice([0, 0, 1, 120_000, 999_999]))
        z = r.choice([None, None, timezone.utc, timezone(timedelta(hours=3)), timezone(-timedelta(hours=3, minutes=30)), timezone(timedelta(hours=2), "CEST")])
        return t.replace(tzinfo=z) if z else t

    def path(self, suf=".h5"):
        r = self.r
        return Path(r.choice(["/d/in", "in", "a b/c", "../up", "./here", "ä/π", "/x/./y", "yes"]) + str(r.choice(["", r.randrange(99)])) + r.choice([suf, suf, ""]))

    def boolean(self):
        return self.p(0.5)

    # ---- generic heads
    def content(self, pub=True):
        kw = {"name": self.name(), "owner": self.name(), "group": self.name()}
        self.opt(kw, 0.4, id=self.uid, description=self.safe, comment=self.safe, created=lambda: self.dt(False), updated_last=lambda: self.dt(False), visible2group=self.boolean, visible2all=self.boolean)
        if (kw.get("visible2group") or kw.get("visible2all")) and "description" not in kw:
            kw["description"] = self.safe()
        return kw

    def make(self, kind, depth=0):
        return self.c[kind](**self.kw(kind))

    def kw(self, kind):
        return getattr(self, "k_" + kind)()

    def k_CalibrationPair(self):
        return self.opt({"gain": self.r.choice([1e-9, 1.5, 2.5e-10, 1e16, 1e22, 5e-324, self.r.random() + 1e-12, 3])}, 0.6, offset=lambda: self.r.choice([-1.5, 1e-7, 0, -3, 1e300]), unit=lambda: self.r.choice(["V", "A", "µA", None, "s"]))

    def _pairs(self, names):
        return self.opt({}, 0.5, **{n: lambda: self.make("CalibrationPair") for n in names})

    def k_CalibrationHarvester(self):
        return self._pairs(["dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv"])

    def k_CalibrationEmulator(self):
        return self._pairs(["dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B"])

    def k_CalibrationSeries(self):
        return self._pairs(["voltage", "current", "time"])

    def k_CapeData(self):
        return self.opt({"serial_number": self.safe(12) }, 0.4, header=lambda: bytes(self.r.choice([b"\xaa\x55\x33\xee", b"\x00\xff\x80\n", b"abcd"])), eeprom_revision=lambda: "B1", board_name=lambda: self.safe(32), version=lambda: self.safe(4), manufacturer=lambda: self.safe(16),
                        part_number=lambda: self.safe(16), cal_date=lambda: self.r.choice(["2023-01-01", "2022-12-31", "now"]))

    def k_CalibrationCape(self):
        return self.opt({}, 0.6, cape=lambda: self.r.choice([None, self.make("CapeData")]), host=self.safe, harvester=lambda: self.make("CalibrationHarvester"), emulator=lambda: self.make("CalibrationEmulator"))

    def k_CalMeasurementPair(self):
        return self.opt({"shepherd_raw": self.r.choice([1, 0.5, 65535, 1e-9])}, 0.6, reference_si=lambda: self.r.choice([0, -1.25, 3e-8]))

    def _cmps(self):
        return [self.make("CalMeasurementPair") for _ in range(self.r.choice([2, 3]))]

    def k_CalMeasurementCape(self):
        H = {k: self._cmps() for k in ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv")}
        E = {k: self._cmps() for k in ("dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")}
        from shepherd_core.data_models.base.cal_measurement import CalMeasurementEmulator, CalMeasurementHarvester
        return self.opt({}, 0.6, cape=lambda: self.make("CapeData"), host=self.safe, harvester=lambda: CalMeasurementHarvester(**H), emulator=lambda: CalMeasurementEmulator(**E))

    def k_EnergyEnvironment(self):
        if self.p(0.15):
            return {"name": "eenv_static_3000mV_50mA_3600s"}
        kw = self.content()
        kw.update(data_path=self.path(), data_type=self.r.choice(["ivsample", "ivcurve", "isc_voc"]), duration=self.r.choice([1, 0.5, 3600, 1e9]), energy_Ws=self.r.choice([1e-6, 4, 1e20]))
        return self.opt(kw, 0.4, data_local=self.boolean, valid=self.boolean, light_source=self.safe, weather_conditions=self.safe, indoor=lambda: self.r.choice([True, False, None]), location=self.safe)

    def k_Firmware(self):
        r = self.r
        if self.p(0.2):
            return {"name": r.choice(["nrf52_demo_rf", "msp430_deep_sleep"])}
        kw = self.content()
        kw["mcu"] = r.choice([{"name": "nRF52"}, {"name": "MSP430FR"}, self.make("MCU")])
        if self.p(0.5):
            import zstandard
            import base64
            raw = bytes(r.getrandbits(8) for _ in range(r.choice([1, 40, 3000])))
            kw.update(data=base64.b64encode(zstandard.ZstdCompressor().compress(raw)).decode(), data_type=r.choice(["elf", "hex"]))
        else:
            kw.update(data=r.choice([Path("/fw/a.elf"), "/fw/b c.elf", Path("rel/x.hex")]), data_type=r.choice(["path_elf", "path_hex"]))
            self.opt(kw, 0.4, data_hash=lambda: r.choice(["abc", "0x12", "1e5"]))
        return self.opt(kw, 0.4, data_local=self.boolean)

    def k_VirtualHarvesterConfig(self):
        r = self.r
        if self.p(0.4):
            kw = {"name": r.choice(["cv20", "mppt_voc", "mppt_po", "ivcurve", "isc_voc", "mppt_bq_solar", "direct"])}
            return self.opt(kw, 0.3, comment=self.safe, wait_cycles=lambda: r.choice([0, 3]))
        kw = self.content()
        kw["algorithm"] = r.choice(["isc_voc", "mppt_voc", "mppt_po", "mppt_opt"]) if self.p(0.5) else "cv"
        if self.p(0.5):
            kw["inherit_from"] = r.choice(["cv20", "mppt_voc", "mppt_po"])
            kw.pop("algorithm")
        lo = r.choice([0, 100.5, 2000])
        return self.opt(kw, 0.4, samples_n=lambda: r.choice([8, 2000, 100]), voltage_mV=lambda: self.fl(lo, 5000), voltage_min_mV=lambda: lo, voltage_max_mV=lambda: self.fl(lo + 1500, 5000), current_limit_uA=lambda: self.fl(1, 50000),
                        setpoint_n=lambda: self.fl(0, 1), interval_ms=lambda: self.fl(10, 1000), duration_ms=lambda: self.fl(0.01, 10), rising=self.boolean, enable_linear_extrapolation=self.boolean)

    def k_VirtualSourceConfig(self):
        r = self.r
        if self.p(0.5):
            kw = {"name": r.choice(["direct", "diode+capacitor", "BQ25504", "BQ25570s", "neutral"])}
        else:
            kw = self.content()
            if self.p(0.5):
                kw["inherit_from"] = r.choice(["BQ25504", "BQ25570", "diode+capacitor"])
        return self.opt(kw, 0.25, enable_boost=self.boolean, enable_buck=self.boolean, enable_feedback_to_hrv=lambda: False, interval_startup_delay_drain_ms=lambda: self.fl(0, 10000), harvester=lambda: self.c["VirtualHarvesterConfig"](name=r.choice(["cv24", "mppt_voc", "direct"])),
                        V_input_max_mV=lambda: self.fl(0, 10000), R_input_mOhm=lambda: self.fl(0, 4.29e6), C_intermediate_uF=lambda: self.fl(0, 100000), V_intermediate_init_mV=lambda: self.fl(0, 10000),
                        LUT_input_efficiency=lambda: [[round(r.random(), r.choice([2, 17])) for _ in range(12)] for _ in range(12)], LUT_output_efficiency=lambda: [r.choice([1.0, 0.5, r.random()]) for _ in range(12)],
                        V_output_mV=lambda: self.fl(0, 5000), LUT_input_V_min_log2_uV=lambda: r.randrange(0, 21), immediate_pwr_good_signal=self.boolean)

    def u32(self):
        return self.r.choice([0, 1, 2**16, 2**31, 2**32 - 1, self.r.randrange(2**32)])

    def k_HarvesterPRUConfig(self):
        return {k: self.u32() for k in self.c["HarvesterPRUConfig"].model_fields}

    def k_ConverterPRUConfig(self):
        kw = {k: self.u32() for k in self.c["ConverterPRUConfig"].model_fields}
        kw["LUT_inp_efficiency_n8"] = [[self.r.randrange(256) for _ in range(12)] for _ in range(12)]
        kw["LUT_out_inv_efficiency_n4"] = [self.u32() for _ in range(12)]
        return kw

    def _tb(self, **kw):
        return {"id": self.idi(), "name": self.name(), "description": self.safe(), **kw}

    def when(self):
        r = self.r
        return r.choice([date(2024, r.randrange(1, 13), 3), self.dt(False), datetime(2024, 5, 6)])

    def k_Cape(self):
        if self.p(0.15):
            return {"name": "cape_v24d_07"} if False else {"id": self.idi(), "name": self.name(), "version": "v2", "description": self.safe()}
        return self.opt(self._tb(version=self.name()), 0.5, comment=self.safe, active=self.boolean, created=self.when, calibrated=lambda: self.r.choice([None, self.when()]))

    def k_GPIO(self):
        r = self.r
        if self.p(0.3):
            return {"name": r.choice(["GPIO0", "GPIO8", "GPIO7"])}
        kw = {"id": self.idi(), "name": self.name()}
        kw.update(r.choice([{"reg_pru": "r31_0", "pin_pru": "P8_45"}, {"reg_sys": r.randrange(99), "pin_sys": "P8_4"}]))
        return self.opt(kw, 0.4, description=self.safe, comment=self.safe, direction=lambda: r.choice(["IN", "OUT", "IO"]), dir_switch=lambda: self.safe(32))

    def k_MCU(self):
        if self.p(0.3):
            return {"name": self.r.choice(["nRF52", "MSP430FR"])}
        kw = self._tb(platform=self.name(), core=self.name(), prog_protocol=self.r.choice(["SWD", "SBW", "JTAG", "UART"]), fw_name_default=self.safe())
        return self.opt(kw, 0.4, comment=self.safe, prog_voltage=lambda: self.fl(1, 5), prog_datarate=lambda: self.r.choice([1, 10**6]))

    def k_Target(self):
        r = self.r
        if self.p(0.3):
            return {"id": r.choice([1, 2, 3, 1001])}
        kw = self._tb(version=self.name(), mcu1=r.choice(["nRF52", {"name": "MSP430FR"}, self.make("MCU")]))
        return self.opt(kw, 0.4, comment=self.safe, active=self.boolean, created=lambda: self.dt(False), testbed_id=lambda: r.choice([0, 65535]), mcu2=lambda: r.choice([None, self.make("MCU"), "MSP430FR"]))

    def k_Observer(self):
        r = self.r
        if self.p(0.3):
            return {"name": r.choice(["sheep01", "sheep02", "sheep14"])}
        cape = self.p(0.7)
        kw = self._tb(ip=r.choice(["127.0.0.1", "10.1.2.3", "2001:db8::1", "fe80::7", "::ffff:1.2.3.4"]), mac=":".join(f"{r.randrange(256):02x}" for _ in range(6)), room=self.name(), eth_port=self.name())
        if cape:
            kw["cape"] = self.make("Cape")
            self.opt(kw, 0.5, target_a=lambda: self.make("Target"))
        return self.opt(kw, 0.4, comment=self.safe, latitude=lambda: self.fl(-90, 90), longitude=lambda: self.fl(-180, 180), active=self.boolean, created=lambda: self.dt(False), alive_last=lambda: r.choice([None, self.dt(False)]))

    def k_Testbed(self):
        r = self.r
        if self.p(0.2):
            return {}
        kw = self._tb(observers=[self.make("Observer") for _ in range(r.choice([1, 1, 2]))], data_on_server=self.path(""), data_on_observer=self.path(""))
        return self.opt(kw, 0.5, comment=self.safe, url=lambda: r.choice([None, "https://nes-lab.org", "http://10.0.0.1:8080/a/b?c=d#e"]), prep_duration=self.td)

    def k_PowerTracing(self):
        return self.opt({}, 0.5, intermediate_voltage=self.boolean, delay=self.td, duration=lambda: self.r.choice([None, self.td()]), samplerate=lambda: self.r.choice([10, 1000, 100000]), discard_current=self.boolean)

    def k_GpioTracing(self):
        return self.opt({}, 0.5, mask=lambda: self.r.choice([1, 1023]), gpios=lambda: self.r.choice([None, [self.make("GPIO") for _ in range(2)]]), delay=self.td, duration=lambda: self.r.choice([None, self.td()]), uart_decode=self.boolean, uart_pin=lambda: self.make("GPIO"), uart_baudrate=lambda: 9600)

    def k_GpioEvent(self):
        from shepherd_core.data_models.testbed import GPIO
        return self.opt({"delay": self.r.choice([1e-5, 1.5, 100]), "gpio": GPIO(name=self.r.choice(["GPIO0", "GPIO1", "GPIO3"])), "level": self.r.choice(["L", "H", "X"])}, 0.5, period=lambda: self.fl(1e-5, 10), count=lambda: self.r.choice([1, 4096]))

    def k_GpioActuation(self):
        return {"events": [self.make("GpioEvent") for _ in range(self.r.choice([1, 3]))]}

    def k_SystemLogging(self):
        return self.opt({}, 0.5, dmesg=self.boolean, ptp=self.boolean, shepherd=self.boolean)

    def _tcfg(self, ids):
        r = self.r
        EE = self.c["EnergyEnvironment"]
        kw = {"target_IDs": ids, "energy_env": EE(name="eenv_static_3000mV_50mA_3600s"), "firmware1": self.c["Firmware"](name=r.choice(["nrf52_demo_rf", "nrf52_rf_test"]))}
        return self.opt(kw, 0.4, custom_IDs=lambda: [i + r.choice([1000]) for i in ids], virtual_source=lambda: self.make("VirtualSourceConfig"), target_delays=lambda: [r.randrange(100) for _ in ids], firmware2=lambda: self.c["Firmware"](name="msp430_deep_sleep"),
                        power_tracing=lambda: self.make("PowerTracing"), gpio_tracing=lambda: self.make("GpioTracing"))

    def k_TargetConfig(self):
        return self._tcfg(self.r.sample([1, 2, 3, 4], self.r.choice([1, 2])))

    def k_Experiment(self):
        r = self.r
        ids = r.sample([1, 2, 3, 4], 3)
        kw = {"name": self.name(), "target_configs": [self.c["TargetConfig"](**self._tcfg(g)) for g in r.choice([[ids], [ids[:1], ids[1:]], [ids[:2]]])]}
        return self.opt(kw, 0.4, id=self.uid, description=self.safe, comment=self.safe, created=lambda: self.dt(False), owner_id=lambda: r.choice([None, self.idi()]), email_results=self.boolean, sys_logging=lambda: self.make("SystemLogging"), time_start=lambda: r.choice([None, self.dt()]),
                        duration=lambda: r.choice([None, self.td()]), abort_on_error=self.boolean, lib_ver=lambda: r.choice(["1.0", "2024.01.1", None]))

    def k_EmulationTask(self):
        r = self.r
        return self.opt({"input_path": self.path()}, 0.4, output_path=self.path, force_overwrite=self.boolean, output_compression=lambda: r.choice([None, "lzf", "1", "None"]), time_start=lambda: r.choice([None, self.dt()]), duration=lambda: r.choice([None, self.td()]), abort_on_error=self.boolean,
                        enable_io=self.boolean, io_port=lambda: r.choice(["A", "B"]), pwr_port=lambda: r.choice(["A", "B"]), voltage_aux=lambda: r.choice([0, 1.5, 4.5, "main", "buffer"]), virtual_source=lambda: self.make("VirtualSourceConfig"), power_tracing=lambda: r.choice([None, self.make("PowerTracing")]),
                        gpio_tracing=lambda: r.choice([None, self.make("GpioTracing")]), sys_logging=lambda: r.choice([None, self.make("SystemLogging")]), verbose=lambda: r.choice([0, 4]))

    def k_FirmwareModTask(self):
        r = self.r
        kw = {"data": r.choice([Path("/fw/x.elf"), "/fw/y z.elf", Path("rel/a.elf")]), "data_type": r.choice(["path_elf", "path_hex"]), "firmware_file": self.path(".hex")}
        if self.p(0.4):
            kw.update(data="AAECAwQFBgcICQ==" * r.randrange(1, 60), data_type=r.choice(["elf", "hex"]))
        return self.opt(kw, 0.5, custom_id=lambda: r.choice([None, 0, 65535]), verbose=lambda: r.choice([0, 4]))

    def k_HarvestTask(self):
        r = self.r
        return self.opt({"output_path": self.path()}, 0.4, force_overwrite=self.boolean, output_compression=lambda: r.choice([None, "lzf", "1", "None"]), time_start=lambda: r.choice([None, self.dt()]), duration=lambda: r.choice([None, self.td()]), abort_on_error=self.boolean,
                        use_cal_default=self.boolean, virtual_harvester=lambda: self.c["VirtualHarvesterConfig"](name=r.choice(["cv20", "ivcurve", "mppt_voc"])), power_tracing=lambda: self.make("PowerTracing"), sys_logging=lambda: r.choice([None, self.make("SystemLogging")]), verbose=lambda: r.choice([0, 4]))

    def k_ProgrammingTask(self):
        r = self.r
        return self.opt({"firmware_file": Path(r.choice(["/o/a.hex", "b c.hex"])), "mcu_type": self.r.choice(["nrf52", "msp430fr"]), "protocol": r.choice(["SWD", "SBW"])}, 0.4, target_port=lambda: r.choice(["A", "B"]), mcu_port=lambda: r.choice([1, 2]), voltage=lambda: r.choice([1, 1.8, 4.99]), datarate=lambda: r.choice([1, 10**6]),
                        simulate=self.boolean, verbose=lambda: r.choice([0, 4]))

    def k_ObserverTasks(self):
        kw = {"observer": self.name(), "owner_id": self.r.choice([None, self.idi()]), "time_prep": self.dt(), "root_path": self.path(""), "abort_on_error": self.boolean()}
        return self.opt(kw, 0.4, fw1_mod=lambda: self.make("FirmwareModTask"), fw2_mod=lambda: self.make("FirmwareModTask"), fw1_prog=lambda: self.make("ProgrammingTask"), fw2_prog=lambda: self.make("ProgrammingTask"), emulation=lambda: self.make("EmulationTask"))

    def k_TestbedTasks(self):
        return self.opt({"name": self.name(), "observer_tasks": [self.make("ObserverTasks") for _ in range(self.r.choice([1, 2]))], "owner_id": self.r.choice([None, self.idi()])}, 0.5, email_results=self.boolean)

    def k_PythonInventory(self):
        return self.opt({}, 0.5, **{k: self.safe for k in ("h5py", "numpy", "pydantic", "python", "shepherd_core", "yaml")})

    def k_TargetInventory(self):
        return self.opt({}, 0.5, cape=lambda: self.r.choice([None, self.safe()]), targets=lambda: [self.safe() for _ in range(2)])

    def k_SystemInventory(self):
        kw = {"uptime": self.r.choice([1, 10**7]), "timestamp": self.dt(False), "fs_root": [self.safe()], "beagle": self.r.choice([[], [self.safe()]])}
        kw.update({k: self.safe() for k in ("system", "release", "version", "machine", "processor", "hostname")})
        return self.opt(kw, 0.5, ptp=lambda: self.r.choice([None, self.safe()]), interfaces=lambda: {"eth0": ["10.0.0.2", "cc:dd"], "lo": ["127.0.0.1", "00"]})

    def k_Inventory(self):
        return {**self.k_PythonInventory(), **self.k_TargetInventory(), **self.k_SystemInventory(), "created": self.dt(False)}

    def k_InventoryList(self):
        return {"elements": [self.make("Inventory") for _ in range(self.r.choice([1, 2]))]}
