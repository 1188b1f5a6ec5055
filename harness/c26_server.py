"""Runs preparations in forked process groups under faultio.so (preloaded). Requests and answers are JSON lines."""
import ctypes
import json
import logging
import os
import signal
import sys
import time
import traceback

import click.testing

import megatron.energon  # noqa: F401
from megatron.energon.flavors import BaseWebdatasetFactory
from megatron.energon.tools.prepare import command

lib = ctypes.CDLL(os.environ["FAULTIO"])
lib.fi_setup.argtypes = [ctypes.c_char_p]
lib.fi_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int]
for n in ("fi_count", "fi_hit", "fi_kind", "fi_hit_kind"):
    getattr(lib, n).restype = ctypes.c_long
lib.fi_log.restype = ctypes.c_char_p


def child(req):
    os.setpgid(0, 0)
    out = open(req["out"], "w")  # outside of the watched directory
    failed = []

    class H(logging.Handler):
        def emit(self, record):
            out.write("LOG " + record.getMessage().replace("\n", " ") + "\n")
            out.flush()

    logging.disable(logging.NOTSET)
    lg = logging.getLogger("megatron.energon")
    lg.handlers, lg.propagate = [H()], False
    lib.fi_arm(req["mode"], req["at"], req["frac"], req["err"])
    try:
        if req["cli"] is not None:
            r = click.testing.CliRunner().invoke(command, req["cli"], input=req["input"])
            if r.exception is not None:
                raise r.exception
        else:
            a = dict(req["args"])
            if req["op"] == "index":
                a["tar_index_only"] = True
            BaseWebdatasetFactory.prepare_dataset(a.pop("path"), a.pop("paths"), **a)
        out.write("DONE\n")
    except BaseException:
        out.write("EXC " + traceback.format_exc().replace("\n", "\\n") + "\n")
    out.close()
    os._exit(0)


def main():
    for line in sys.stdin:
        req = json.loads(line)
        lib.fi_setup(req["root"].encode())
        pid = os.fork()
        if pid == 0:
            try:
                child(req)
            finally:
                os._exit(9)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        end = time.monotonic() + 60
        status = None
        while time.monotonic() < end:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status = st
                break
            time.sleep(0.002)
        if status is None:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            status = "hang"
        else:
            try:
                os.killpg(pid, signal.SIGKILL)  # left over pool workers
            except OSError:
                pass
        ans = dict(status=status, n=lib.fi_count(), hit=lib.fi_hit(), hit_kind=lib.fi_hit_kind(),
                   kinds=[lib.fi_kind(k) for k in range(7)], log=lib.fi_log().decode(errors="replace"))
        print(json.dumps(ans), flush=True)


main()
