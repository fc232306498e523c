"""Runs texts through the front end (mc/h_parse.c)."""
import os
import struct
import subprocess
import kosbuild
import common


WRAP = ["-Wl,--wrap=kos_comp_" + f for f in
        ("import_module", "resolve_global", "walk_globals", "check_private_global")]


def build(san):
    src = os.path.join(common.VERIF, "mc", "h_parse.c")
    if san:
        return kosbuild.build("bsan", [src], flags=["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
                              ldflags=["-fsanitize=address"] + WRAP, hflags=["-O1", "-fsanitize=address"])
    return kosbuild.build("plain", [src], flags=["-O2"], hflags=["-O2"], ldflags=WRAP)


def run(exe, texts, mode, timeout=120):
    """[(verdict, line, col)] per text; shorter than texts when the front end died or hung on texts[len(result)].. (the
    answers are flushed every 16 texts: re-run singly to find the culprit). Second value: why."""
    data = b"".join(struct.pack("<I", len(t)) + t for t in texts)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99")
    p = subprocess.Popen([exe, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    try:
        out, err = p.communicate(data, timeout=timeout)
        why = "" if p.returncode == 0 else "exit %d: %s" % (p.returncode, err.decode("utf-8", "replace")[:1500])
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        why = "hangs"
    n = len(out) // 12
    return [struct.unpack_from("<III", out, 12 * i) for i in range(n)], why


def culprit(exe, texts, mode):
    """the text on which the front end dies or hangs, and why"""
    lo = texts
    if len(lo) > 16:
        for k in range(0, len(lo), 64):
            r, why = run(exe, lo[k:k + 64], mode, 20)
            if why:
                lo = lo[k:k + 64]
                break
    for t in lo:
        r, why = run(exe, [t], mode, 10)
        if why:
            return t, why
    return None, None
