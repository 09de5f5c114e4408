"""Another machine, user, process and time of day: what the functions that tell them return."""
import contextlib
import datetime as real_datetime
import getpass
import os
import platform
import socket
import time

DAYS = 86400 * 37 + 4242


def told(number):
    """(module, name) -> function, on the machine of this number."""
    host, user = "host%d.example" % number, "user%d" % number
    names = os.uname_result(("Linux", host, "6.%d" % number, "#%d" % number, "x86_64"))
    clock = 1700000000.25 + number * DAYS
    true_local, true_gm, true_strftime, true_ctime, true_asctime = (
        time.localtime, time.gmtime, time.strftime, time.ctime, time.asctime)

    class Datetime(real_datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(clock, tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(clock, real_datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(clock)

    class Date(real_datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(clock)

    out = {(os, name): (lambda num: lambda: num)(1000 * number + i) for i, name in enumerate(
        ("getpid", "getppid", "getuid", "geteuid", "getgid", "getegid"))}
    out.update({
        (os, "getlogin"): lambda: user, (os, "uname"): lambda: names, (os, "cpu_count"): lambda: 3 * number,
        (getpass, "getuser"): lambda: user, (socket, "gethostname"): lambda: host,
        (socket, "getfqdn"): lambda name="": host, (platform, "node"): lambda: host,
        (platform, "release"): lambda: names.release, (platform, "platform"): lambda *args, **kwargs: "Linux-%d" % number,
        (platform, "uname"): lambda: names,
        (time, "time"): lambda: clock, (time, "time_ns"): lambda: int(clock * 10 ** 9),
        (time, "localtime"): lambda secs=None: true_local(clock if secs is None else secs),
        (time, "gmtime"): lambda secs=None: true_gm(clock if secs is None else secs),
        (time, "strftime"): lambda form, when=None: true_strftime(form, true_local(clock) if when is None else when),
        (time, "ctime"): lambda secs=None: true_ctime(clock if secs is None else secs),
        (time, "asctime"): lambda when=None: true_asctime(true_local(clock) if when is None else when),
        (real_datetime, "datetime"): Datetime, (real_datetime, "date"): Date,
    })
    return out


@contextlib.contextmanager
def machine(number, also=()):
    """On the machine of this number (None: this one); also: (module, name, function) of the domain."""
    saved = []
    try:
        entries = [] if number is None else [(mod, name, func) for (mod, name), func in told(number).items()]
        for mod, name, func in entries + list(also):
            saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, func)
        yield
    finally:
        for mod, name, func in reversed(saved):
            setattr(mod, name, func)
